------------------------ MODULE DatasetRegisterGen ------------------------
(* Enumerates every history of requests up to a length, with a crash marked on at most
   MaxCrash of them, and prints each one for replay against the implementation.       *)
EXTENDS DatasetRegister, TLC, Json
CONSTANTS Len0, MaxCrash
VARIABLES hist
Req == {[force |-> f, dl |-> d, fail |-> x, crash |-> c] :
          f \in BOOLEAN, d \in BOOLEAN, x \in BOOLEAN, c \in BOOLEAN}
Sensible(r) == /\ (r.force => r.dl)          \* forcing without downloading is just a refusal
               /\ (r.fail => r.dl /\ ~r.crash)
               /\ (r.crash => r.dl)
Init == hist = <<>>
Next == /\ Len(hist) < Len0
        /\ \E r \in Req : /\ Sensible(r)
                          /\ Cardinality({i \in 1..Len(hist) : hist[i].crash})
                               + (IF r.crash THEN 1 ELSE 0) <= MaxCrash
                          /\ hist' = Append(hist, r)
        /\ (Len(hist') = Len0 => PrintT(<<"H", ToJson(hist')>>))
Spec == Init /\ [][Next]_hist
=============================================================================
