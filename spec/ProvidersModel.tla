--------------------------- MODULE ProvidersModel ---------------------------
(* A provider as a process: read the tables, filter, draw or cut, deliver; for a graph, choose
   nodes, renumber, keep the edges inside.  Checked over every small source and request;
   `Broken` names ways to deliver something else, each of which must be refuted.            *)
EXTENDS Providers, TLC
CONSTANTS N, Broken
VARIABLES rows, edges, o, m, graph, phase, cur, out, oedges
vars == <<rows, edges, o, m, graph, phase, cur, out, oedges>>

Labs == {"a", "b"}
Tables == UNION {{[i \in 1..n |-> [id |-> i - 1, lab |-> f[i]]] : f \in [1..n -> Labs]} : n \in 0..N}
Edges(n) == IF n = 0 THEN {<<>>} ELSE
  LET P == (0..(n - 1)) \X (0..(n - 1)) IN {<<>>} \union {<<p>> : p \in P} \union {<<p, q>> : p \in P, q \in P}
Reqs == {[hasf |-> h, filter |-> f, seeded |-> s] : h \in BOOLEAN, f \in {<<>>, <<"a">>, <<"a", "c">>}, s \in BOOLEAN}
Orders(s) == {p \in [DOMAIN s -> RangeOf(s)] : \A i, j \in DOMAIN s : i # j => p[i] # p[j]}

Init == /\ rows \in Tables /\ graph \in BOOLEAN /\ o \in Reqs /\ m \in -1..N
        /\ edges \in (IF graph THEN Edges(Len(rows)) ELSE {<<>>})
        /\ phase = "read" /\ cur = <<>> /\ out = <<>> /\ oedges = <<>>
Read == phase = "read" /\ cur' = rows /\ phase' = (IF Broken = "limit_first" THEN "limit" ELSE "filter")
        /\ UNCHANGED <<rows, edges, o, m, graph, out, oedges>>
Filter == /\ phase = "filter"
          /\ cur' = (IF Broken = "no_filter" THEN cur
                     ELSE IF Broken = "labels_only"    \* the labels are filtered, the samples are not
                     THEN LET F == Offered(cur, o) IN [i \in DOMAIN F |-> [id |-> cur[i].id, lab |-> F[i].lab]]
                     ELSE Offered(cur, o))
          /\ phase' = IF Broken = "limit_first" THEN "deliver" ELSE "limit"
          /\ UNCHANGED <<rows, edges, o, m, graph, out, oedges>>
Cut(s) == SubSeq(s, 1, HowMany(m, Len(s)))
Limit == /\ phase = "limit"
         /\ \E p \in (IF o.seeded /\ m # -1 /\ (Broken # "repeats") THEN Orders(cur)
                      ELSE IF o.seeded /\ m # -1 THEN [DOMAIN cur -> RangeOf(cur)] ELSE {cur}) :
              cur' = IF graph THEN SelectSeq(cur, LAMBDA r : r \in RangeOf(Cut(p))) ELSE Cut(p)
         /\ phase' = IF Broken = "limit_first" THEN "filter" ELSE "deliver"
         /\ UNCHANGED <<rows, edges, o, m, graph, out, oedges>>
Pos(s, id) == CHOOSE i \in DOMAIN s : s[i].id = id
Deliver ==
  /\ phase = "deliver" /\ out' = cur
  /\ LET K == Ids(cur)
         E == IF Broken = "one_end" THEN SelectSeq(edges, LAMBDA e : e[1] \in K) ELSE Induced(edges, K)
         Num(v) == IF Broken = "old_numbers" THEN v ELSE IF v \in K THEN Pos(cur, v) - 1 ELSE 0
     IN oedges' = [i \in DOMAIN E |-> <<Num(E[i][1]), Num(E[i][2])>>]
  /\ phase' = "done" /\ UNCHANGED <<rows, edges, o, m, graph, cur>>
Next == Read \/ Filter \/ Limit \/ Deliver
Spec == Init /\ [][Next]_vars

(* the edges delivered, by the names of the nodes they join *)
Named == [i \in DOMAIN oedges |-> [j \in 1..2 |-> IF oedges[i][j] + 1 \in DOMAIN out THEN out[oedges[i][j] + 1].id ELSE -1]]
DeliversWhatWasAsked ==
  phase = "done" =>
     IF graph
     THEN /\ Genuine(rows, o, out) /\ Filtered(rows, o, out) /\ Complete(rows, o, m, out) /\ Ascending(out)
          /\ SameBag(Named, [i \in DOMAIN Induced(edges, Ids(out)) |->
                               [j \in 1..2 |-> Induced(edges, Ids(out))[i][j]]])
     ELSE Delivers(rows, o, m, out)
=============================================================================
