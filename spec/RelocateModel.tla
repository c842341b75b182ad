---------------------------- MODULE RelocateModel ----------------------------
(* The cache only has the stored path, not where the cache used to be: it looks for the part of
   the path that names its source tree.  Checked against Served for all small roots and files,
   over chains of moves and rewrites; searches by a single directory name are refuted.      *)
EXTENDS Relocate, TLC
CONSTANTS Parts, MaxRoot, MaxTail, How
Below == <<"id", "source">>
Tails == UNION {[1..n -> Parts \union {"source"}] : n \in 1..MaxTail}
VARIABLES root, tail, stored, at
vars == <<root, tail, stored, at>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Drop(p, n) == SubSeq(p, n + 1, Len(p))
Marks(p) == {i \in 1..(Len(p) - Len(Below)) : SubSeq(p, i, i + Len(Below) - 1) = Below}
(* places that do not themselves look like a source tree *)
Roots == {x \in UNION {[1..n -> Parts \union {"source"}] : n \in 1..MaxRoot} :
            Min(Marks(Under(x, Below) \o <<"f">>)) = Len(x) + 1}
Names(p) == {i \in 1..(Len(p) - 1) : p[i] = "source"}
Found(p, cur) ==
  IF StartsWith(p, Under(cur, Below)) THEN p
  ELSE CASE How = "tree" -> IF Marks(p) = {} THEN p
                            ELSE Under(cur, Below) \o Drop(p, Min(Marks(p)) + Len(Below) - 1)
         [] How = "last" -> IF Names(p) = {} THEN p ELSE Under(cur, Below) \o Drop(p, Max(Names(p)))
         [] How = "first" -> IF Names(p) = {} THEN p ELSE Under(cur, Below) \o Drop(p, Min(Names(p)))

Init == /\ root \in Roots /\ tail \in Tails
        /\ stored = Under(root, Below) \o tail /\ at = root
Move == root' \in Roots /\ UNCHANGED <<tail, stored, at>>
Rewrite == stored' = Found(stored, root) /\ at' = root /\ UNCHANGED <<root, tail>>   \* what was loaded is stored again
Next == Move \/ Rewrite
Spec == Init /\ [][Next]_vars
SameFile == Found(stored, root) = Under(root, Below) \o tail
AsSpecified == Found(stored, root) = Served(stored, at, root, Below)
=============================================================================
