----------------------------- MODULE SplitStore -----------------------------
(* A directory that holds one drawn split: two files, replaced one after the other.

   Order = "withdraw"    the metadata file is removed first and written last    (the contract)
           "meta-first"  new metadata first, then the arrays                    (mixes on a crash)

   A version is the number of the save it comes from, 0 = no file, -1 = torn.               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Order, MaxSaves

VARIABLES meta, arrays, pc, ver, may, obs
vars == <<meta, arrays, pc, ver, may, obs>>

Init == meta = 0 /\ arrays = 0 /\ pc = "idle" /\ ver = 0 /\ may = {0} /\ obs = [out |-> "none", v |-> 0, may |-> {0}]

Begin == /\ pc = "idle" /\ ver < MaxSaves
         /\ ver' = ver + 1 /\ pc' = "s1" /\ UNCHANGED <<meta, arrays, may, obs>>
S1 == /\ pc = "s1" /\ pc' = "s2"
      /\ meta' = IF Order = "withdraw" THEN 0 ELSE ver
      /\ UNCHANGED <<arrays, ver, may, obs>>
S2 == /\ pc = "s2" /\ pc' = "s3" /\ arrays' = -1 /\ UNCHANGED <<meta, ver, may, obs>>
S3 == /\ pc = "s3" /\ pc' = "s4" /\ arrays' = ver /\ UNCHANGED <<meta, ver, may, obs>>
S4 == /\ pc = "s4" /\ pc' = "idle" /\ meta' = ver /\ may' = {ver} /\ UNCHANGED <<arrays, ver, obs>>
Crash == /\ pc # "idle" /\ pc' = "idle" /\ may' = may \union {0, ver} /\ UNCHANGED <<meta, arrays, ver, obs>>
Load == /\ pc = "idle"
        /\ obs' = IF meta = 0 \/ arrays <= 0 THEN [out |-> "fail", v |-> 0, may |-> may]
                  ELSE IF meta = arrays THEN [out |-> "ok", v |-> meta, may |-> may]
                  ELSE [out |-> "mixed", v |-> meta, may |-> may]
        /\ UNCHANGED <<meta, arrays, pc, ver, may>>
Next == Begin \/ S1 \/ S2 \/ S3 \/ S4 \/ Crash \/ Load
Spec == Init /\ [][Next]_vars

Whole == obs.out # "mixed"
FailOnlyIfMissing == obs.out = "fail" => 0 \in obs.may
ServedIsSaved == obs.out = "ok" => obs.v \in obs.may
=============================================================================
