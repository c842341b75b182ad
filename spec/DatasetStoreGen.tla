--------------------------- MODULE DatasetStoreGen ---------------------------
(* Enumerates request histories over a few identities for replay against the code. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0, NIds
VARIABLES hist
Req == {[i |-> i, force |-> f, dl |-> d] : i \in 1..NIds, f \in BOOLEAN, d \in BOOLEAN}
(* identities are interchangeable: a history names them in order of first use *)
Used(h) == {h[j].i : j \in 1..Len(h)}
Init == hist = <<>>
Next == /\ Len(hist) < Len0
        /\ \E r \in Req : /\ r.force => r.dl
                          /\ \A k \in 1..(r.i - 1) : k \in Used(hist)
                          /\ hist' = Append(hist, r)
        /\ (Len(hist') = Len0 => PrintT(<<"H", ToJson(hist')>>))
Spec == Init /\ [][Next]_hist
=============================================================================
