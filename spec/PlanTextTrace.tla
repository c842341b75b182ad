---------------------------- MODULE PlanTextTrace ----------------------------
(* Events: read (a document was read: the plan's fields, or an error), again (the plan was
   written out in full and read back), print (what it was written out as), fp (its
   fingerprint).  State: the document last read, and the fingerprints so far.            *)
EXTENDS PlanText, Memo, TraceJudge

NStart(t) == [doc |-> <<>>, memo |-> {}, back |-> {}]

Same(doc, out) == /\ Len(out) = Len(doc)
                  /\ \A i \in 1..Len(doc) : Meaning(out[i]) = Meaning(doc[i]) /\ Written(out[i]) = Names(doc[i].kind)

NClause(t, s, e) ==
  CASE e.k = "read" ->
         IF e.err = "" /\ ~Accepted(t.what, e.doc) THEN "WrongPlansAreRefused"
         ELSE IF e.err # "" /\ Accepted(t.what, e.doc) THEN "RightPlansAreRead"
         ELSE IF e.err # "" /\ ~e.clean THEN "RefusedCleanly"
         ELSE IF e.err = "" /\ ~Same(e.doc, e.out) THEN "SaysWhatItMeans"
         ELSE "ok"
    [] e.k = "print" -> IF Len(e.out) = Len(s.doc) /\ (\A i \in 1..Len(e.out) : Spelt(e.out[i])) /\ Plan(e.out) = Plan(s.doc)
                        THEN "ok" ELSE "WrittenInFull"
    [] e.k = "again" -> IF e.err = "" /\ Same(s.doc, e.out) THEN "ok" ELSE "ReadsBackTheSame"
    [] e.k = "fp" -> IF ~Agrees(s.memo, Plan(s.doc), e.fp) THEN "OnePlanOneFingerprint"
                     ELSE IF ~Agrees(s.back, e.fp, Plan(s.doc)) THEN "FingerprintNamesOnePlan"
                     ELSE "ok"

NStep(t, s, e) ==
  CASE e.k = "read" -> [s EXCEPT !.doc = IF e.err = "" THEN e.doc ELSE @]
    [] e.k = "fp" -> [s EXCEPT !.memo = Remember(@, Plan(s.doc), e.fp), !.back = Remember(@, e.fp, Plan(s.doc))]
    [] OTHER -> s
=============================================================================
