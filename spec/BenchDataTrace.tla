---------------------------- MODULE BenchDataTrace ----------------------------
(* What the real benchmark driver handed to scripted methods and scripted metrics.
   t.y, t.pred: labels and designed predictions of samples 1..N (official test samples come
   after the training samples); t.split: [l, u, v, t, tr] sets of samples; t.nodes: how many of
   them a transductive method sees; t.edges: what the graph of those nodes is (an opaque value,
   built through the library's own builder, or the dataset's edges).
   "given" an inductive method; "nodes" a transductive method; "prefit" what preprocessing
   was fitted on; "score" one call of a metric; "done" the run's record; "rows" select_rows on a
   graph sample: kept nodes, and the edges with their weights afterwards.                         *)
EXTENDS BenchData, TraceJudge

CStart(t) == [fits |-> 0, scored |-> <<>>]
S(t, n) == Rng(CASE n = "train" -> t.split.tr [] n = "val" -> t.split.v [] n = "test" -> t.split.t)

GivenClause(t, e) ==
  IF ~OnceEach(e.xl, Rng(t.split.l)) THEN "LabelledSamplesOnceEach"
  ELSE IF ~OwnLabels(e.xl, e.yl, t.y) THEN "OwnLabels"
  ELSE IF ~OnceEach(e.xu, Rng(t.split.u)) THEN "UnlabelledSamplesOnceEach"
  ELSE IF e.idxu # e.xu THEN "UnlabelledNumbers"
  ELSE IF \E i \in 1..Len(e.aug) : e.aug[i] # e.xu THEN "AugmentedRowsAligned"
  ELSE IF Len(e.aug) # t.naug THEN "AugmentedRowsHandedOver"
  ELSE IF e.again THEN "SecondStrongViewIsAnother"
  ELSE IF Len(e.views) # t.nviews THEN "EveryView"
  ELSE IF \E i \in 1..Len(e.views) : e.views[i].l # e.xl \/ e.views[i].u # e.xu THEN "ViewRowsAligned"
  ELSE "ok"

NodesClause(t, e) ==
  IF e.x # [i \in 1..t.nodes |-> i] THEN "NodesOnceEach"
  ELSE IF Len(e.y) # t.nodes THEN "LabelPerNode"
  ELSE IF ~OnceEach(e.lm, Rng(t.split.l)) \/ ~OnceEach(e.um, Rng(t.split.u)) \/ ~OnceEach(e.vm, Rng(t.split.v)) \/ ~OnceEach(e.tm, Rng(t.split.t)) THEN "MasksOfTheSplit"
  ELSE IF ~OnceEach(e.trm, Rng(t.split.l)) THEN "TrainMaskIsLabelled"
  ELSE IF ~Shown(e.x, e.y, t.y, Rng(t.split.l)) THEN "LabelledLabelsShown"
  ELSE IF \E i \in 1..t.nodes : i \notin (Rng(t.split.l) \union Rng(t.split.v)) /\ e.y[i] >= 0 THEN "OtherLabelsHidden"
  ELSE IF \E i \in 1..t.nodes : e.y[i] >= 0 /\ e.y[i] # t.y[i] THEN "OwnLabels"
  ELSE IF e.edges # t.edges THEN "GraphOfTheNodes"
  ELSE "ok"

\* every trial scores the objective's split, the final method every reported split
Wanted(t) == [i \in 1..Len(t.trials) |-> t.trials[i]] \o t.reports
CClause(t, s, e) ==
  CASE e.op = "given" -> IF s.fits >= t.nfits THEN "OneFitPerTrial" ELSE GivenClause(t, e)
    [] e.op = "nodes" -> IF s.fits >= t.nfits THEN "OneFitPerTrial" ELSE NodesClause(t, e)
    [] e.op = "prefit" -> IF e.on \notin Rng(e.agrees) THEN "FittedOnItsSamples" ELSE "ok"
    [] e.op = "score" ->
         IF Len(s.scored) >= Len(Wanted(t)) THEN "ScoredOnce"
         ELSE LET w == Wanted(t)[Len(s.scored) + 1]
              IN IF e.metric # w[2] THEN "RequestedMetrics"
                 ELSE IF ~ScoresRows(e.yt, e.yp, S(t, w[1]), t.y, t.pred) THEN "ScoresTheSplitsSamples"
                 ELSE IF e.at # w[1] THEN "ReportedUnderItsSplit"
                 ELSE "ok"
    [] e.op = "done" -> IF e.raised # "" THEN "RunsThrough"
                        ELSE IF Len(s.scored) # Len(Wanted(t)) THEN "EverySplitScored" ELSE "ok"
    [] e.op = "rows" ->
         IF e.x # e.kept THEN "NodeRows"
         ELSE IF Rng(e.edges) # {w \in Rng(t.all) : w[1] \in Rng(e.kept) /\ w[2] \in Rng(e.kept)} \/ Len(e.edges) # Cardinality(Rng(e.edges)) THEN "EdgesAmongTheRows"
         ELSE "ok"

CStep(t, s, e) == IF e.op \in {"given", "nodes"} THEN [s EXCEPT !.fits = @ + 1]
                  ELSE IF e.op = "score" THEN [s EXCEPT !.scored = Append(@, e.metric)]
                  ELSE s
=============================================================================
