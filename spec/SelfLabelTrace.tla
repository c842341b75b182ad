---------------------------- MODULE SelfLabelTrace ----------------------------
(* I01, I02.  events: fit [m, T, tab, seen], end [err, pred, rows (per test sample, learner: <<label, score>>...)]
   The judge follows every state the loop may be in; a fit must be on the current or the next training set. *)
EXTENDS TraceJudge, SelfLabel

Boots(t) == t.method = "tri_training"
N(t) == t.nlearners
Init0(t) == [T |-> [m \in 1..N(t) |-> IF Boots(t) THEN {} ELSE Labelled(t)], tab |-> [m \in 1..N(t) |-> <<>>],
             pool |-> Unlabelled(t), r |-> 0, err |-> [m \in 1..N(t) |-> 0], seen |-> {}, free |-> FALSE]
IStart(t) == {Init0(t)}
TT(e) == {<<e.T[i][1], e.T[i][2], e.T[i][3]>> : i \in 1..Len(e.T)}
Mark(x, e) == [x EXCEPT !.tab[e.m] = e.tab, !.seen = IF e.seen = <<>> THEN @ ELSE {e.seen[i] : i \in 1..Len(e.seen)}]
BootOk(t, e) == TT(e) # {} /\ (\A z \in TT(e) : <<z[1], z[2], 1>> \in Labelled(t)) /\ Size(TT(e)) = t.nboot
SeenOk(t, x, e) == t.method # "setred" \/ e.seen = <<>> \/
   (LET S == {e.seen[i] : i \in 1..Len(e.seen)} IN S \subseteq x.pool /\ Cardinality(S) = (IF t.poolsize < 0 THEN Cardinality(x.pool) ELSE Min2(t.poolsize, Cardinality(x.pool))))
Follow(t, x, e) ==
  IF x.free THEN {x}
  ELSE IF Boots(t) /\ x.T[e.m] = {} THEN (IF BootOk(t, e) THEN {Mark([x EXCEPT !.T[e.m] = TT(e)], e)} ELSE {})
  ELSE IF x.T[e.m] = TT(e) THEN (IF SeenOk(t, x, e) THEN {Mark(x, e)} ELSE {})
  ELSE IF t.method = "democratic" /\ Trained(x) /\ ~Over(t, x) /\ Doubt(t, x) THEN {[x EXCEPT !.free = TRUE]}
  ELSE {Mark(y, e) : y \in {z \in Advance(t, x) : z.T[e.m] = TT(e) /\ SeenOk(t, z, e)}}
\* the final prediction is that of the trained learners
Score(e, i, c) == LET R == e.rows[i] IN SumF([m \in DOMAIN R |-> SumF([j \in DOMAIN R[m] |-> IF R[m][j][1] = c THEN R[m][j][2] ELSE 0], DOMAIN R[m])], DOMAIN R)
Cols(e, i) == UNION {{e.rows[i][m][j][1] : j \in DOMAIN e.rows[i][m]} : m \in DOMAIN e.rows[i]}
Elect(t, x, u, c) == LET V == {i \in Learners(x) : Lab(x.tab[i], u) = c}
                         E == {i \in Learners(x) : Weight(t, x, i) > t.minconf}
                         W == V \cap (IF E = {} THEN Learners(x) ELSE E)  k == Cardinality(W)
   IN IF k = 0 THEN 0 ELSE ((SumF([i \in W |-> Weight(t, x, i)], W) \div k) \div (2 * k + 2)) * (2 * k + 1)
PredOk(t, x, e) ==
  \A i \in 1..Len(t.tests) :
    CASE Single(t) -> e.pred[i] = Lab(x.tab[1], t.tests[i])
      [] t.method = "democratic" -> \/ \E j \in Learners(x) : Abs(Weight(t, x, j) - t.minconf) <= 3
           \/ /\ \E j \in Learners(x) : e.pred[i] = Lab(x.tab[j], t.tests[i]) \/ Elect(t, x, t.tests[i], e.pred[i]) = 0
              /\ \A j \in Learners(x) : Elect(t, x, t.tests[i], Lab(x.tab[j], t.tests[i])) <= Elect(t, x, t.tests[i], e.pred[i]) + 40
      [] OTHER -> e.pred[i] \in Cols(e, i) /\ \A c \in Cols(e, i) : Score(e, i, c) <= Score(e, i, e.pred[i]) + 4

Why(t, s, e) ==    \* names what a fit that cannot be followed did
  LET x == CHOOSE y \in s : TRUE  T == TT(e)  old == x.T[e.m]  new == T \ old IN
  IF Boots(t) /\ old = {} THEN "LabelledSamplesStay"
  ELSE IF ~(old \subseteq T) THEN "LabelledSamplesStay"
  ELSE IF \E z \in new : z[3] # 1 \/ z[1] \in Ids(old) THEN "EachSampleAtMostOnce"
  ELSE IF Pooled(t) /\ ~(Ids(new) \subseteq x.pool) THEN "EachSampleAtMostOnce"
  ELSE IF Single(t) /\ Trained(x) /\ ~(t.method = "self_training" /\ t.groups) /\ \E z \in new : z[2] # Lab(x.tab[1], z[1]) THEN "LabelAsPredicted"
  ELSE IF Trained(x) /\ Over(t, x) THEN "LoopStopsExactly"
  ELSE IF Trained(x) /\ \A o \in Outcomes(t, x) : ~Goes(t, o) THEN "LoopStopsExactly"
  ELSE "SelectionRule"
IClause(t, s, e) ==
  CASE e.kind = "fit" -> IF UNION {Follow(t, x, e) : x \in s} # {} THEN "ok" ELSE Why(t, s, e)
    [] e.kind = "end" ->
         IF e.err # "" THEN "WellFormedDataIsFitted"
         ELSE IF \E x \in s : x.free THEN "ok"
         ELSE IF \A x \in s : ~MayStop(t, x) /\ ~(t.method = "democratic" /\ Trained(x) /\ Doubt(t, x)) THEN "LoopStopsExactly"
         ELSE IF \A x \in s : Trained(x) => ~PredOk(t, x, e) THEN "FinalModelPredicts"
         ELSE "ok"
    [] OTHER -> "UnknownEvent"
IStep(t, s, e) == IF e.kind = "fit" THEN UNION {Follow(t, x, e) : x \in s} ELSE s
=============================================================================
