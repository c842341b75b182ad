----------------------------- MODULE AugmentPure -----------------------------
(* Why an augmented sample is a function of (seed, epoch, sample, plan): every application
   draws from a stream of its own, started from a key of these.

   Mode = "derived"  a fresh stream per application and per branch, keyed by the context
          "stream"   one stream per pipeline, going on from sample to sample
          "joint"    one stream for both branches of a strategy
          "global"   the process-wide generator
   A plan is the number of draws its steps take; a draw is <<stream, position>>.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Mode, MaxCalls
Ctx == {1, 2} \X {0, 1}         \* (seed and epoch) x sample
Plans == {1, 2}

VARIABLES g, pos, done
vars == <<g, pos, done>>

Draws(stream, from, n) == [i \in 1..n |-> <<stream, from + i>>]
Init == g = 0 /\ pos = 0 /\ done = {}

Stream(c) == IF Mode = "global" THEN <<"g">> ELSE IF Mode = "stream" THEN <<"p">> ELSE <<"c", c>>
From == IF Mode = "global" THEN g ELSE IF Mode = "stream" THEN pos ELSE 0

Apply == /\ Cardinality(done) < MaxCalls
         /\ \E c \in Ctx, p \in Plans :
              /\ done' = done \union {[ctx |-> c, plan |-> p, branch |-> "alone", val |-> Draws(Stream(c), From, p)]}
              /\ g' = IF Mode = "global" THEN g + p ELSE g
              /\ pos' = IF Mode = "stream" THEN pos + p ELSE pos
Strategy == /\ Cardinality(done) + 1 < MaxCalls
            /\ \E c \in Ctx, w, s \in Plans :
                 /\ done' = done \union {[ctx |-> c, plan |-> w, branch |-> "weak", val |-> Draws(Stream(c), From, w)],
                                         [ctx |-> c, plan |-> s, branch |-> "strong", val |-> Draws(Stream(c), IF Mode = "joint" THEN w ELSE
                                              IF Mode \in {"global", "stream"} THEN From + w ELSE 0, s)]}
                 /\ g' = IF Mode = "global" THEN g + w + s ELSE g
                 /\ pos' = IF Mode = "stream" THEN pos + w + s ELSE pos
Perturb == g < 2 /\ g' = g + 1 /\ UNCHANGED <<pos, done>>
Next == Apply \/ Strategy \/ Perturb
Spec == Init /\ [][Next]_vars

Pure == \A a, b \in done : a.ctx = b.ctx /\ a.plan = b.plan => a.val = b.val
Fresh == \A a, b \in done : a.ctx # b.ctx /\ a.plan = b.plan => a.val # b.val
GlobalUntouched == [][Apply \/ Strategy => g' = g]_vars
=============================================================================
