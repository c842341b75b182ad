----------------------------- MODULE RunDirsModel -----------------------------
(* Runs that start together with the same configuration (the same wanted name), some of them
   searching (they move to another wanted name afterwards), some of them failing on the way.
   A directory is a set of files; a file is <<kind, run>>.
   Broken: "none", "exists" (creating an existing directory is no error), "loser" (the loser of
   a race fails), "renameover" (moving to the new name replaces an empty directory there),
   "silent" (a failed run is recorded as success), "unrecorded" (a failure leaves no record),
   "fresh" (a run clears what it finds under its name).                                     *)
EXTENDS RunDirs, TLC

CONSTANTS NRuns, NNames, Broken

Runs == 1..NRuns
\* names <<w, n>>: wanted name w with suffix n
Names == {"a", "b"} \X (0..NNames)
VARIABLES disk, pc, looked, at, searching, failing, told, start
vars == <<disk, pc, looked, at, searching, failing, told, start>>
\* disk: name -> {"absent"} or set of files; absent is represented by not being in the domain

Init == /\ disk = <<>>
        /\ pc = [r \in Runs |-> "look"]
        /\ looked = [r \in Runs |-> <<"a", 0>>]
        /\ at = [r \in Runs |-> <<"none", 0>>]
        /\ searching \in SUBSET Runs
        /\ failing \in SUBSET Runs
        /\ told = [r \in Runs |-> "running"]
        /\ start \in [Runs -> {"a", "b"}]  \* the name a run asks for first; a search that settles on "b" moves there

Exists(n) == n \in DOMAIN disk
FirstFree(w) == CHOOSE n \in 0..NNames : ~Exists(<<w, n>>) /\ \A m \in 0..(n - 1) : Exists(<<w, m>>)
Put(n, files) == [x \in DOMAIN disk \union {n} |-> IF x = n THEN files ELSE disk[x]]
Drop(d, n) == [x \in DOMAIN d \ {n} |-> d[x]]

Look(r, from, w, to) ==
  /\ pc[r] = from
  /\ looked' = [looked EXCEPT ![r] = <<w, FirstFree(w)>>]
  /\ pc' = [pc EXCEPT ![r] = to]
  /\ UNCHANGED <<disk, at, searching, failing, told, start>>

Make(r) ==
  /\ pc[r] = "make"
  /\ IF ~Exists(looked[r]) \/ Broken = "exists" \/ Broken = "fresh"
     THEN /\ disk' = IF Exists(looked[r]) /\ Broken = "exists" THEN disk ELSE Put(looked[r], {})
          /\ at' = [at EXCEPT ![r] = looked[r]]
          /\ pc' = [pc EXCEPT ![r] = "work"]
          /\ UNCHANGED told
     ELSE IF Broken = "loser"
     THEN pc' = [pc EXCEPT ![r] = "end"] /\ told' = [told EXCEPT ![r] = "crashed"] /\ UNCHANGED <<disk, at>>
     ELSE pc' = [pc EXCEPT ![r] = "look"] /\ UNCHANGED <<disk, at, told>>
  /\ UNCHANGED <<looked, searching, failing, start>>

Work(r) ==
  /\ pc[r] = "work"
  /\ disk' = Put(at[r], disk[at[r]] \union {<<"config", r>>})
  /\ pc' = [pc EXCEPT ![r] = IF r \in searching THEN "move" ELSE "finish"]
  /\ UNCHANGED <<looked, at, searching, failing, told, start>>

\* reserving the new name first, then moving into it
Reserve(r) ==
  /\ pc[r] = "reserve"
  /\ IF Broken = "renameover"
     THEN \* a rename succeeds on an absent or an empty directory, and fails otherwise
          IF ~Exists(looked[r]) \/ disk[looked[r]] = {}
          THEN /\ disk' = Drop(Put(looked[r], disk[at[r]]), at[r])
               /\ at' = [at EXCEPT ![r] = looked[r]]
               /\ pc' = [pc EXCEPT ![r] = "finish"]
          ELSE pc' = [pc EXCEPT ![r] = "move"] /\ UNCHANGED <<disk, at>>
     ELSE IF Exists(looked[r]) THEN pc' = [pc EXCEPT ![r] = "move"] /\ UNCHANGED <<disk, at>>
     ELSE disk' = Put(looked[r], {}) /\ pc' = [pc EXCEPT ![r] = "rename"] /\ UNCHANGED at
  /\ UNCHANGED <<looked, searching, failing, told, start>>

Rename(r) ==
  /\ pc[r] = "rename"
  /\ disk' = Drop(Put(looked[r], disk[looked[r]] \union disk[at[r]]), at[r])
  /\ at' = [at EXCEPT ![r] = looked[r]]
  /\ pc' = [pc EXCEPT ![r] = "finish"]
  /\ UNCHANGED <<looked, searching, failing, told, start>>

Finish(r) ==
  /\ pc[r] = "finish"
  /\ LET status == IF r \in failing /\ Broken # "silent" THEN "failed" ELSE "success"
     IN /\ disk' = IF r \in failing /\ Broken = "unrecorded" THEN disk
                   ELSE Put(at[r], disk[at[r]] \union {<<status, r>>})
        /\ told' = [told EXCEPT ![r] = IF r \in failing THEN "failed" ELSE "success"]
  /\ pc' = [pc EXCEPT ![r] = "end"]
  /\ UNCHANGED <<looked, at, searching, failing, start>>

Next == \E r \in Runs : Look(r, "look", start[r], "make") \/ Make(r) \/ Work(r) \/ Look(r, "move", "b", "reserve") \/ Reserve(r) \/ Rename(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars

Owners(n) == {f[2] : f \in disk[n]}
OneOwner == \A n \in DOMAIN disk : Cardinality(Owners(n)) <= 1
Recorded == \A r \in Runs : pc[r] = "end" => told[r] \in {"success", "failed"} /\ at[r] \in DOMAIN disk /\ <<told[r], r>> \in disk[at[r]]
TrueOutcome == \A n \in DOMAIN disk : \A f \in disk[n] : f[1] \in {"success", "failed"} => (f[1] = "failed") = (f[2] \in failing)
Complete == \A r \in Runs : pc[r] = "end" => at[r] \in DOMAIN disk /\ <<"config", r>> \in disk[at[r]]
=============================================================================
