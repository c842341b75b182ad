--------------------------- MODULE ProvidersTrace ---------------------------
(* Judges datasets delivered by the real providers over stand-in source libraries whose
   contents are known.

   get:   key, prov, tables, o, maxtr, maxte, prefer, tr, te, hast
   graph: key, nodes, edges, o, max, out (nodes), oedges (index pairs)
   toy:   key, n, classes, features, te2 (twice the wished test size, in samples x 1000),
          ntr, nte, labs, nf                                                              *)
EXTENDS Providers, TraceJudge

PStart(t) == [seen |-> <<>>]
Value(e) == CASE e.k = "get" -> <<e.tr, e.te, e.hast>> [] e.k = "graph" -> <<e.out, e.oedges>> [] OTHER -> <<e.dig>>

TableClause(rows, o, m, out, which) ==
  IF ~Genuine(rows, o, out) THEN which \o "SamplesKeepTheirLabels"
  ELSE IF ~Filtered(rows, o, out) THEN which \o "OnlyListedClasses"
  ELSE IF ~Complete(rows, o, m, out) THEN which \o "AsManyAsAskedAndOffered"
  ELSE IF ~Distinct(out) THEN which \o "NoSampleTwice"
  ELSE IF ~InOrder(rows, o, m, out) THEN which \o "SourceOrderUnlessDrawn"
  ELSE "ok"

GetClause(e) ==
  LET tt == TestTable(e.prov, e.tables, e.prefer)
      c1 == TableClause(e.tables["train"], e.o, e.maxtr, e.tr, "Train")
  IN IF c1 # "ok" THEN c1
     ELSE IF e.hast # (tt # "") THEN "OfficialTestIsDelivered"
     ELSE IF tt = "" THEN "ok"
     ELSE TableClause(e.tables[tt], e.o, e.maxte, e.te, "Test")

GraphClause(e) ==
  LET K == Ids(e.out)
      want == Induced(e.edges, K)
      got == [i \in DOMAIN e.oedges |-> <<e.out[e.oedges[i][1] + 1].id, e.out[e.oedges[i][2] + 1].id>>]
  IN IF ~Genuine(e.nodes, e.o, e.out) THEN "NodesKeepFeaturesLabelsAndMasks"
     ELSE IF ~Filtered(e.nodes, e.o, e.out) THEN "OnlyListedClasses"
     ELSE IF ~Complete(e.nodes, e.o, e.max, e.out) THEN "AsManyAsAskedAndOffered"
     ELSE IF ~Ascending(e.out) THEN "NodesKeepTheirOrder"
     ELSE IF \E i \in DOMAIN e.oedges : \E j \in 1..2 : e.oedges[i][j] < 0 \/ e.oedges[i][j] >= Len(e.out)
          THEN "EdgesPointToDeliveredNodes"
     ELSE IF ~SameBag(got, want) THEN "EdgesAreThoseBetweenDeliveredNodes"
     ELSE "ok"

ToyClause(e) ==
  IF e.ntr + e.nte # e.n THEN "ToySplitsShareTheSamples"
  ELSE IF 1000 * e.nte * 2 > 2 * e.te + 1000 \/ 1000 * e.nte * 2 < 2 * e.te - 1000 THEN "ToyTestIsTheShareAsked"
  ELSE IF e.nf # e.features THEN "ToyFeaturesAsAsked"
  ELSE IF \E i \in DOMAIN e.labs : e.labs[i] < 0 \/ e.labs[i] >= e.classes THEN "ToyLabelsAreClasses"
  ELSE "ok"

PClause(t, s, e) ==
  IF e.err # "" THEN "DeliveredAtAll"
  ELSE LET c == CASE e.k = "get" -> GetClause(e) [] e.k = "graph" -> GraphClause(e) [] OTHER -> ToyClause(e) IN
       IF c # "ok" THEN c
       ELSE IF e.key \in DOMAIN s.seen /\ s.seen[e.key] # Value(e) THEN "SameRequestSameDataset"
       ELSE "ok"
PStep(t, s, e) == [s EXCEPT !.seen = (e.key :> Value(e)) @@ @]
=============================================================================
