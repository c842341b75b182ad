-------------------------- MODULE InductiveRunModel --------------------------
(* Histories of fits on one method object and on fresh ones, with a process-wide random
   state that other code moves.  Broken: "none", "ambient" (initial weights are drawn
   from the process-wide state), "residue" (the fit continues from what the object held),
   "inplace" (the fit relabels the caller's data), "reseed" is harmless for the results:
   a fit may reset the process-wide state as long as no fit reads it.                   *)
EXTENDS InductiveRun

CONSTANTS Datas, Seeds, Ambients, MaxOps, Broken

VARIABLES data, ambient, held, memo, ok, n
vars == <<data, ambient, held, memo, ok, n>>

Base(d, s) == (3 * d + 5 * s) % 7

Init == /\ data = [d \in Datas |-> d] /\ ambient = 0 /\ held = 0
        /\ memo = {} /\ ok = TRUE /\ n = 0

Result(d, s, fresh) ==
  Base(data[d], s)
  + (IF Broken = "ambient" THEN ambient ELSE 0)
  + (IF Broken = "residue" /\ ~fresh THEN held ELSE 0)

Fit(d, s, fresh) ==
  LET r == Result(d, s, fresh) IN
  /\ ok' = (ok /\ Agrees(memo, <<d, s>>, r))
  /\ memo' = Remember(memo, <<d, s>>, r)
  /\ held' = r
  /\ data' = IF Broken = "inplace" THEN [data EXCEPT ![d] = @ + 1] ELSE data
  /\ ambient' = IF Broken = "reseed" THEN s ELSE ambient
  /\ n' = n + 1

Other(a) == ambient' = a /\ n' = n + 1 /\ UNCHANGED <<data, held, memo, ok>>

Next == n < MaxOps /\ (\/ \E d \in Datas, s \in Seeds, f \in BOOLEAN : Fit(d, s, f)
                       \/ \E a \in Ambients : Other(a))
Spec == Init /\ [][Next]_vars

Reproducible == ok
Untouched == \A d \in Datas : data[d] = d
=============================================================================
