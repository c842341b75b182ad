------------------------------ MODULE FittedTrace ------------------------------
(* trace: [key, ev]; event: [key, err, rows (of [split, row, out]), labs (of [split, row, out]), lkey] *)
EXTENDS TraceJudge, Fitted

FStart(t) == [rows |-> {}, ran |-> {}]
Noted(e) == {[key |-> e.key, row |-> e.rows[i].row, out |-> e.rows[i].out] : i \in 1..Len(e.rows)}
            \union {[key |-> e.lkey, row |-> e.labs[i].row, out |-> e.labs[i].out] : i \in 1..Len(e.labs)}
Fresh(s, e) == {m \in Noted(e) : \A o \in s.rows : ~(o.key = m.key /\ o.row = m.row)}
FStep(t, s, e) == [rows |-> s.rows \union Fresh(s, e), ran |-> IF e.err = "" THEN s.ran \union {e.key} ELSE s.ran]
Clash(e, q, key, all) ==
  \E i \in 1..Len(q) : ~Consistent(all, key, q[i].row, q[i].out)
FClause(t, s, e) ==
  IF e.err # "" /\ e.key \in s.ran THEN "RowsOutsideTheFittingSetBreakTheRun"
  ELSE IF Clash(e, e.rows, e.key, s.rows) THEN "RowsOutsideTheFittingSetChangeTheTransformation"
  ELSE IF Clash(e, e.rows, e.key, Noted(e)) THEN "EqualRowsEncodedDifferently"
  ELSE IF Clash(e, e.labs, e.lkey, s.rows) THEN "TestLabelsChangeTheEncoding"
  ELSE IF Clash(e, e.labs, e.lkey, Noted(e)) THEN "EqualLabelsEncodedDifferently"
  ELSE "ok"
=============================================================================
