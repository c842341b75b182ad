------------------------------- MODULE HpoTrace -------------------------------
(* H01.  events:
   grid   [leaves, trials, idx, params (as the trials, from the flat view), whole]
   random [space, seed, leaves, n, trials, idx, params, whole]   remembered by (space, seed, index)
   many   [leaves, seen (per leaf: values seen, or <<"low half", "high half">> counts)]
   merge  [base, patch, merged, after, patchafter: sequences of [p, v]]
   keep   [same]                 nothing else changed when a merged configuration was scribbled on
   bad    [err]                                                                           *)
EXTENDS TraceJudge, Hpo

HStart(t) == {}
Leaves(s) == {<<s[i].p, s[i].v>> : i \in 1..Len(s)}
Toks(tr) == [i \in 1..Len(tr) |-> tr[i].tok]
\* remembered: [space, seed, idx, val]
Drawn(e) == {[space |-> e.space, seed |-> e.seed, idx |-> e.idx[i], val |-> Toks(e.trials[i])] : i \in 1..Len(e.trials)}
Listed(e) == {[space |-> e.space, seed |-> "grid", idx |-> e.idx[i], val |-> e.trials[i]] : i \in 1..Len(e.trials)}
HStep(t, s, e) == IF e.kind = "random" THEN s \cup Drawn(e) ELSE IF e.kind = "grid" THEN s \cup Listed(e) ELSE s
Conflict(A, B) == \E x \in A, y \in B : x.space = y.space /\ x.seed = y.seed /\ x.idx = y.idx /\ x.val # y.val
\* continuous draws of different trials, seeds or leaves coincide with probability nil
Continuous(e) == {i \in 1..Len(e.leaves) : e.leaves[i].kind \in {"uniform", "loguniform"} /\ e.leaves[i].wide}
Stale(A, B, C) == \E x \in A, y \in B : x.space = y.space /\ (x.seed # y.seed \/ x.idx # y.idx) /\ x.seed # "grid" /\ \E i \in C : x.val[i] = y.val[i]

HClause(t, s, e) ==
  CASE e.kind = "grid" ->
         IF e.err # "" THEN "WellFormedSpacesAreAccepted"
         ELSE IF ~CompleteGrid(e.leaves, e.trials) THEN "GridIsComplete"
         ELSE IF e.idx # [i \in 1..Len(e.trials) |-> i - 1] THEN "TrialsAreNumberedInOrder"
         ELSE IF Conflict(s, Listed(e)) THEN "GridOrderIsFixed"
         ELSE IF ~e.whole \/ e.params # e.trials THEN "TrialSetsExactlyTheDeclaredParameters"
         ELSE "ok"
    [] e.kind = "random" ->
         IF e.err # "" THEN "WellFormedSpacesAreAccepted"
         ELSE IF Len(e.trials) # e.n \/ e.idx # [i \in 1..Len(e.trials) |-> i - 1] THEN "TrialsAreNumberedInOrder"
         ELSE IF \E k \in 1..Len(e.trials) : \E i \in 1..Len(e.leaves) : ~Admissible(e.leaves[i], e.trials[k][i]) THEN "DrawnFromTheDeclaredRange"
         ELSE IF ~e.whole \/ e.params # [k \in 1..Len(e.trials) |-> Toks(e.trials[k])] THEN "TrialSetsExactlyTheDeclaredParameters"
         ELSE IF Conflict(s, Drawn(e)) THEN "DrawsReproducibleAndPrefixStable"
         ELSE IF Stale(s \cup Drawn(e), Drawn(e), Continuous(e)) THEN "DrawsAreFresh"
         ELSE "ok"
    [] e.kind = "many" -> IF \A i \in 1..Len(e.seen) : e.seen[i] THEN "ok" ELSE "EveryDeclaredValueOccurs"
    [] e.kind = "merge" ->
         IF Leaves(e.merged) # Merge(Leaves(e.base), Leaves(e.patch)) THEN "MergeChangesExactlyTheDeclared"
         ELSE IF e.after # e.base \/ e.patchafter # e.patch THEN "BaseAndTrialUnmodified" ELSE "ok"
    [] e.kind = "keep" -> IF e.same THEN "ok" ELSE "TrialsAreIsolated"
    [] e.kind = "bad" -> IF e.err # "" THEN "ok" ELSE "MalformedSpacesAreRejected"
    [] OTHER -> "UnknownEvent"
=============================================================================
