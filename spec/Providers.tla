----------------------------- MODULE Providers -----------------------------
(* What a dataset provider delivers, given what its source offers and what was asked.

   A source offers tables: sequences of rows [id, lab]; a graph source offers nodes
   [id, lab, m] (m: the masks the node is in) with ids 0..n-1 and edges <<u, v>>.
   A request o: hasf, filter (set of labels); max (samples or nodes; -1 = all); seeded.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RangeOf(s) == {s[i] : i \in DOMAIN s}
Wanted(r, o) == ~o.hasf \/ r.lab \in RangeOf(o.filter)
Offered(rows, o) == SelectSeq(rows, LAMBDA r : Wanted(r, o))
HowMany(m, k) == IF m = -1 THEN k ELSE IF m <= 0 THEN 0 ELSE IF m < k THEN m ELSE k

(* rows delivered from a table *)
Complete(rows, o, m, out) == Len(out) = HowMany(m, Len(Offered(rows, o)))
Genuine(rows, o, out) == \A i \in DOMAIN out : out[i] \in RangeOf(rows)
Filtered(rows, o, out) == \A i \in DOMAIN out : Wanted(out[i], o)
Distinct(out) == \A i, j \in DOMAIN out : i # j => out[i].id # out[j].id
InOrder(rows, o, m, out) == (m = -1 \/ ~o.seeded) => out = SubSeq(Offered(rows, o), 1, Len(out))
Delivers(rows, o, m, out) ==
  Genuine(rows, o, out) /\ Filtered(rows, o, out) /\ Complete(rows, o, m, out) /\ Distinct(out) /\ InOrder(rows, o, m, out)

(* which table is the official test set: "" for none *)
TestTable(prov, tables, prefer) ==
  LET has(x) == x \in DOMAIN tables IN
  CASE prov = "hf" -> LET a == IF prefer THEN "test" ELSE "validation"
                          b == IF prefer THEN "validation" ELSE "test"
                      IN IF has(a) THEN a ELSE IF has(b) THEN b ELSE ""
    [] OTHER -> IF has("test") THEN "test" ELSE ""

(* the part of a graph on some of its nodes *)
Ids(nodes) == {nodes[i].id : i \in DOMAIN nodes}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Induced(edges, K) == SelectSeq(edges, LAMBDA e : e[1] \in K /\ e[2] \in K)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
Ascending(nodes) == \A i, j \in DOMAIN nodes : i < j => nodes[i].id < nodes[j].id
=============================================================================
