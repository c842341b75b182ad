----------------------------- MODULE PreprocStore -----------------------------
(* How one step's outputs reach the cache, call by call, for the two splits of a run that may be
   killed anywhere and whose files may be cut short or removed between runs.

   Order   "values-first"    values, then a manifest (replaced atomically) that lists them
           "manifest-first"  the other way round
   Trust   "checked"         a listed value of the wrong length, or a manifest that does not
                             parse, counts as absent
           "blind"           it is used as it is
   Result of a lookup: "hit" (both splits whole), "miss", or what must not happen: "wrong".   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Order, Trust, Kills, Harms

Splits == {"train", "test"}
VARIABLES file,   \* [Splits -> {"none", "part", "whole"}]
          man,    \* splits the manifest lists, or "none"/"torn"
          pc, cur, got, kills, harms
vars == <<file, man, pc, cur, got, kills, harms>>

Listed == IF man \in {"none", "torn"} THEN {} ELSE {s \in Splits : man \in {s, "both"}}
With(s) == IF Listed \union {s} = Splits THEN "both" ELSE s

Init == file = [s \in Splits |-> "none"] /\ man = "none" /\ pc = "idle" /\ cur = "train" /\ got = "none" /\ kills = 0 /\ harms = 0

Usable(s) == s \in Listed /\ (IF Trust = "checked" THEN file[s] = "whole" ELSE file[s] # "none")
Start ==
  /\ pc = "idle"
  /\ LET both == \A s \in Splits : Usable(s) IN
     IF Trust = "blind" /\ man = "torn" THEN got' = "wrong" /\ UNCHANGED <<pc, cur>>
     ELSE IF both THEN got' = (IF \A s \in Splits : file[s] = "whole" THEN "hit" ELSE "wrong") /\ UNCHANGED <<pc, cur>>
     ELSE got' = "miss" /\ cur' = "train" /\ pc' = (IF Order = "values-first" THEN "open" ELSE "list")
  /\ UNCHANGED <<file, man, kills, harms>>
Open == pc = "open" /\ file' = [file EXCEPT ![cur] = "part"] /\ pc' = "write" /\ UNCHANGED <<man, cur, got, kills, harms>>
Write == pc = "write" /\ file' = [file EXCEPT ![cur] = "whole"]
         /\ pc' = (IF Order = "values-first" THEN "list" ELSE "next") /\ UNCHANGED <<man, cur, got, kills, harms>>
List == pc = "list" /\ man' = With(cur)
        /\ pc' = (IF Order = "values-first" THEN "next" ELSE "open") /\ UNCHANGED <<file, cur, got, kills, harms>>
NextSplit == pc = "next" /\ (IF cur = "train" THEN cur' = "test" /\ pc' = (IF Order = "values-first" THEN "open" ELSE "list")
                             ELSE cur' = cur /\ pc' = "idle") /\ UNCHANGED <<file, man, got, kills, harms>>
Kill == pc # "idle" /\ kills < Kills /\ kills' = kills + 1 /\ pc' = "idle" /\ UNCHANGED <<file, man, cur, got, harms>>
Harm == /\ pc = "idle" /\ harms < Harms /\ harms' = harms + 1 /\ UNCHANGED <<pc, cur, got, kills>>
        /\ \/ \E s \in Splits, f \in {"none", "part"} : file[s] # "none" /\ file' = [file EXCEPT ![s] = f] /\ UNCHANGED man
           \/ man # "none" /\ man' \in {"none", "torn"} /\ UNCHANGED file
Next == Start \/ Open \/ Write \/ List \/ NextSplit \/ Kill \/ Harm
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Open \/ Write \/ List \/ NextSplit)

OnlyWholeEntriesAreUsed == got # "wrong"
\* once nothing is killed or harmed any more, runs hit
Heals == <>(kills = Kills /\ harms = Harms) => <>[](got = "hit" \/ kills < Kills \/ harms < Harms)
=============================================================================
