-------------------------- MODULE DatasetRegister --------------------------
(* The abstract contract of one cached dataset entry: a register that holds the
   number of the provider read it was filled from (0 = nothing), written atomically.

   `may` is the set of values the entry can hold: after a crash it has several
   elements, because the interrupted write may or may not have taken effect, and the
   next access resolves it.  A request is [force, dl, fail]; r is the number the next
   provider read will get.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

Nothing == 0

(* Every outcome an access may have: what the caller sees, how many provider reads it
   makes and what the entry can hold afterwards.                                     *)
Outcomes(may, req, r) ==
  LET served == IF req.force THEN {}
                ELSE {[out |-> "ok", ver |-> v, n |-> 0, may |-> {v}] : v \in may \ {Nothing}}
      misses == req.force \/ Nothing \in may
      left   == IF req.force THEN may ELSE {Nothing}
      miss   == IF ~misses THEN {}
                ELSE IF ~req.dl THEN {[out |-> "notcached", ver |-> 0, n |-> 0, may |-> left]}
                ELSE IF req.fail THEN {[out |-> "provider", ver |-> 0, n |-> 1, may |-> left]}
                ELSE {[out |-> "ok", ver |-> r, n |-> 1, may |-> {r}]}
  IN served \union miss

(* What the entry can hold after an access was killed somewhere.                     *)
AfterCrash(may, req, r, readDone) ==
  IF ~req.dl \/ (~req.force /\ Nothing \notin may) THEN may
  ELSE may \union {Nothing} \union (IF readDone THEN {r} ELSE {})
=============================================================================
