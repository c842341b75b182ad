----------------------------- MODULE GraphModel -----------------------------
(* Every small point set on a line, every way a nearest-neighbour search may list the
   nearest points (ties in any order, in chunks of any size), and what is made of it.

   Search lists the k + 1 nearest nodes of a node, itself included or not when there are
   duplicates.  Trim drops one more when the node was not listed.                       *)
EXTENDS Graph, TLC

CONSTANTS N, Coord, MaxK, Trim, Chunks

VARIABLES pts, k, todo, E, chunk, phase, sym, loops
vars == <<pts, k, todo, E, chunk, phase, sym, loops>>

Init == /\ \E f \in [1..N -> 0..Coord] : pts = [i \in 1..N |-> <<f[i]>>]
        /\ k \in 1..MaxK /\ todo = 0 /\ E = {} /\ chunk \in Chunks /\ phase = "raw" /\ sym = "none" /\ loops = FALSE

(* lists a search may return for node i: q nodes, nobody nearer left out *)
Lists(i, q) == {S \in SUBSET Nodes(pts) : NearestOf("euclidean", pts, i, Nodes(pts), q, S)}
(* what remains of list S without node i *)
Kept(i, S) == IF i \in S \/ ~Trim \/ Cardinality(S) <= k THEN {S \ {i}}
              ELSE {S \ {j} : j \in {x \in S : \A y \in S : NearerEq("euclidean", Pt(pts, i), Pt(pts, y), Pt(pts, x))}}
NodeEdges(i) == {{<<i, j>> : j \in K} : K \in UNION {Kept(i, S) : S \in Lists(i, k + 1)}}

RECURSIVE ChunkEdges(_, _)
ChunkEdges(i, hi) == IF i >= hi THEN {{}} ELSE {a \cup b : a \in NodeEdges(i), b \in ChunkEdges(i + 1, hi)}

Search == /\ phase = "raw" /\ todo < N
          /\ \E X \in ChunkEdges(todo, GMin(N, todo + chunk)) : E' = E \cup X
          /\ todo' = GMin(N, todo + chunk) /\ UNCHANGED <<pts, k, chunk, phase, sym, loops>>
Post == /\ phase = "raw" /\ todo = N /\ phase' = "done"
        /\ \E m \in {"none", "or", "mutual"}, b \in BOOLEAN :
             sym' = m /\ loops' = b /\ E' = Looped(b, N, Symmetrised(m, E))
        /\ UNCHANGED <<pts, k, todo, chunk>>
Next == Search \/ Post
Spec == Init /\ [][Next]_vars

One == 10000
RawIsKnn == phase = "raw" /\ todo = N => KnnGraph("euclidean", pts, k, E)
InRange == \A e \in E : e[1] \in Nodes(pts) /\ e[2] \in Nodes(pts)
LoopsAsAsked == phase = "done" => \A i \in Nodes(pts) : (<<i, i>> \in E) = loops
Undirected == phase = "done" /\ sym # "none" => E = Flip(E)
(* mutuality never adds, union never removes; with both, degrees bound accordingly *)
MutualBounded == phase = "done" /\ sym = "mutual" => \A i \in Nodes(pts) : Cardinality(Out(E, i) \ {i}) <= k
UnionKeeps == phase = "done" /\ sym = "or" => \A i \in Nodes(pts) : Cardinality(Out(E, i) \ {i}) >= GMin(k, N - 1)
Rows == phase = "done" => \A i \in Nodes(pts) :
          LET mine == {e \in E : e[1] = i}
              w(x) == One
              sum(x) == NormWeight("rw", One, One, Degree(E, w, i), 1)
          IN mine # {} => GAbs(SumOver(mine, sum) - One) <= N
(* on the same graph the symmetric normalisation is symmetric *)
SymNorm == phase = "done" /\ sym # "none" =>
             \A e \in E : LET w(x) == One
                              a == Degree(E, w, e[1])
                              b == Degree(E, w, e[2])
                          IN NormWeight("sym", One, One, a, b) = NormWeight("sym", One, One, b, a)
=============================================================================
