-------------------------- MODULE DatasetStoreModel --------------------------
(* All request histories over a few identities; `owner` remembers for whom a read was made.
   `Broken` names a store that must be refuted.                                             *)
EXTENDS DatasetStore
CONSTANTS Ids, MaxReads, Broken
(* a store whose key forgets part of the identity *)
Key(id) == IF Broken = "shared_key" THEN CHOOSE k \in Ids : TRUE ELSE id
VARIABLES have, owner, last
vars == <<have, owner, last>>
Reqs == {[force |-> f, dl |-> d, fail |-> x] : f \in BOOLEAN, d \in BOOLEAN, x \in BOOLEAN}
Init == have = <<>> /\ owner = <<>> /\ last = [id |-> "none", ver |-> 0, n |-> 0, force |-> FALSE, dl |-> TRUE]
Next == \E id \in Ids, q \in Reqs :
          \E o \in Answers(have, Key(id), IF Broken = "reads_anyway" THEN [q EXCEPT !.dl = TRUE] ELSE q, Len(owner) + 1) :
             /\ Len(owner) + o.n <= MaxReads
             /\ have' = (IF Broken = "lands_elsewhere" /\ o.n = 1
                          THEN After(have, CHOOSE k \in Ids : TRUE, o) ELSE After(have, Key(id), o))
             /\ owner' = IF o.n = 1 THEN Append(owner, id) ELSE owner
             /\ last' = [id |-> id, ver |-> o.ver, n |-> o.n, force |-> q.force, dl |-> q.dl]
Spec == Init /\ [][Next]_vars
Isolation == /\ \A id \in DOMAIN have : have[id] # Nothing => owner[have[id]] = id
             /\ last.ver # 0 => owner[last.ver] = last.id
NoNeedlessRead == ~last.dl => last.n = 0
=============================================================================
