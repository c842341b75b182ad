----------------------------- MODULE GraphStore -----------------------------
(* The graph cache: builds of two different inputs, of the same dataset, over one directory.

   A build computes its chunks one by one (each stored whole, by renaming), then saves the
   entry: old manifest withdrawn, files cleared (work files too), edge files written, manifest
   last.  It may be killed anywhere; any file may be damaged or removed while nobody runs.

   Key      "content": inputs have their own entries; "dataset": both share the entry of the dataset
   Resume   "checked": an unreadable work file is computed again; "blind": it stops the build
   Trust    "checked": an entry whose files do not load is rebuilt; "blind": what is there is returned
   Clear    "manifest-first" | "files-first"                                               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Key, Resume, Trust, Clear, Kills, Harms, NChunks

Inputs == {"a", "b"}
Chunk == 1..NChunks
Files == {"index", "weight"}
Entry(i) == IF Key = "content" THEN i ELSE "a"
Entries == {Entry(i) : i \in Inputs}
Gone == "-"
Torn == "torn"

VARIABLES man, file, work, pc, inp, part, got, kills, harms
vars == <<man, file, work, pc, inp, part, got, kills, harms>>

Init == /\ man = [e \in Entries |-> Gone]
        /\ file = [e \in Entries |-> [f \in Files |-> Gone]]
        /\ work = [e \in Entries |-> [c \in Chunk |-> Gone]]
        /\ pc = "idle" /\ inp = "a" /\ part = [c \in Chunk |-> Gone] /\ got = Gone
        /\ kills = 0 /\ harms = 0

E == Entry(inp)
Begin == /\ pc = "idle"
         /\ \E i \in Inputs : inp' = i
         /\ pc' = "look" /\ part' = [c \in Chunk |-> Gone] /\ got' = Gone
         /\ UNCHANGED <<man, file, work, kills, harms>>

\* an entry is made of the manifest's input; whole when every file it lists is there
Whole(e) == man[e] \notin {Gone, Torn} /\ \A f \in Files : file[e][f] = man[e]
Served(e) == IF Trust = "checked" THEN Whole(e) ELSE man[e] # Gone
Value(e) == IF Whole(e) THEN man[e] ELSE "error"
Look == /\ pc = "look"
        /\ IF Served(E) THEN got' = Value(E) /\ pc' = "idle" ELSE got' = got /\ pc' = "chunk"
        /\ UNCHANGED <<man, file, work, inp, part, kills, harms>>

NextChunk == {c \in Chunk : part[c] = Gone /\ \A d \in Chunk : d < c => part[d] # Gone}
Compute == /\ pc = "chunk" /\ NextChunk # {}
           /\ LET c == CHOOSE x \in NextChunk : TRUE IN
              IF work[E][c] = Gone \/ (work[E][c] = Torn /\ Resume = "checked")
              THEN part' = [part EXCEPT ![c] = inp] /\ work' = [work EXCEPT ![E][c] = inp] /\ UNCHANGED <<pc, got>>
              ELSE IF work[E][c] = Torn THEN got' = "error" /\ pc' = "idle" /\ UNCHANGED <<part, work>>
              ELSE part' = [part EXCEPT ![c] = work[E][c]] /\ UNCHANGED <<work, pc, got>>
           /\ UNCHANGED <<man, file, inp, kills, harms>>
Chunked == pc = "chunk" /\ NextChunk = {} /\ pc' = "withdraw" /\ UNCHANGED <<man, file, work, inp, part, got, kills, harms>>

Result == IF \A c \in Chunk : part[c] = inp THEN inp ELSE "mixed"
Withdraw == /\ pc = "withdraw" /\ (Clear = "manifest-first" => TRUE)
            /\ IF Clear = "manifest-first" THEN man' = [man EXCEPT ![E] = Gone] ELSE man' = man
            /\ pc' = "clear" /\ UNCHANGED <<file, work, inp, part, got, kills, harms>>
ClearFile == /\ pc = "clear"
             /\ \/ \E f \in Files : file[E][f] # Gone /\ file' = [file EXCEPT ![E][f] = Gone] /\ UNCHANGED <<man, work, pc>>
                \/ \E c \in Chunk : work[E][c] # Gone /\ work' = [work EXCEPT ![E][c] = Gone] /\ UNCHANGED <<man, file, pc>>
                \/ /\ \A f \in Files : file[E][f] = Gone
                   /\ \A c \in Chunk : work[E][c] = Gone
                   /\ man' = [man EXCEPT ![E] = Gone] /\ pc' = "write" /\ UNCHANGED <<file, work>>
             /\ UNCHANGED <<inp, part, got, kills, harms>>
WriteFile == /\ pc = "write"
             /\ \E f \in Files : file[E][f] \in {Gone, Torn} /\ file' = [file EXCEPT ![E][f] = IF @ = Gone THEN Torn ELSE Result]
             /\ UNCHANGED <<man, work, pc, inp, part, got, kills, harms>>
Commit == /\ pc = "write" /\ \A f \in Files : file[E][f] \notin {Gone, Torn}
          /\ man' = [man EXCEPT ![E] = Result] /\ got' = Result /\ pc' = "idle"
          /\ UNCHANGED <<file, work, inp, part, kills, harms>>

Kill == /\ pc # "idle" /\ kills < Kills /\ kills' = kills + 1
        /\ pc' = "idle" /\ got' = Gone /\ UNCHANGED <<man, file, work, inp, part, harms>>
Harm == /\ pc = "idle" /\ harms < Harms /\ harms' = harms + 1
        /\ \E e \in Entries :
             \/ \E f \in Files, v \in {Gone, Torn} : file[e][f] # Gone /\ file' = [file EXCEPT ![e][f] = v] /\ UNCHANGED <<man, work>>
             \/ \E c \in Chunk, v \in {Gone, Torn} : work[e][c] # Gone /\ work' = [work EXCEPT ![e][c] = v] /\ UNCHANGED <<man, file>>
             \/ \E v \in {Gone, Torn} : man[e] # Gone /\ man' = [man EXCEPT ![e] = v] /\ UNCHANGED <<file, work>>
        /\ got' = Gone /\ UNCHANGED <<pc, inp, part, kills>>

Step == Begin \/ Look \/ Compute \/ Chunked \/ Withdraw \/ ClearFile \/ WriteFile \/ Commit
Next == Step \/ Kill \/ Harm
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

OwnGraph == got \in {Gone, inp}                  \* what a build returns is its own input's graph
EntriesOwn == Key = "content" => \A e \in Entries : Whole(e) => man[e] = e
Finishes == (pc = "look") ~> (got = inp \/ kills = Kills)
=============================================================================
