---------------------------- MODULE SamplingPure ----------------------------
(* Why a sampler is a pure function of (data, plan, seed): every part of a plan draws from
   its own stream, derived from the seed and the part's name.

   Mode = "derived"   streams per part, derived from the seed      (what the code does)
          "shared"    one stream for all parts                     (labelling moves with the split part)
          "global"    draws from the process-wide generator        (depends on what ran before)

   The process-wide generator `g` is moved by anybody, at any time.  A draw is the pair
   <<stream, position>>: two draws agree exactly when the streams and positions do.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Mode, Plans, Seeds, MaxCalls

VARIABLES g, done
vars == <<g, done>>

(* a plan is <<split, lab>>: how many draws each part needs *)
Draws(stream, from, n) == [i \in 1..n |-> <<stream, from + i>>]

Result(p, s, pos) ==
  CASE Mode = "derived" -> [split |-> Draws(<<s, "split">>, 0, p[1]), lab |-> Draws(<<s, "lab">>, 0, p[2]), end |-> pos]
    [] Mode = "shared"  -> [split |-> Draws(<<s, "all">>, p[2], p[1]), lab |-> Draws(<<s, "all">>, 0, p[2]), end |-> pos]
    [] Mode = "global"  -> [split |-> Draws("g", pos, p[1]), lab |-> Draws("g", pos + p[1], p[2]), end |-> pos + p[1] + p[2]]

Init == g = 0 /\ done = {}
Call == /\ Cardinality(done) < MaxCalls
        /\ \E p \in Plans, s \in Seeds :
             LET r == Result(p, s, g) IN
             /\ done' = done \union {[plan |-> p, seed |-> s, split |-> r.split, lab |-> r.lab, kept |-> r.end = g]}
             /\ g' = r.end
Perturb == g < 3 /\ g' = g + 1 /\ UNCHANGED done
Next == Call \/ Perturb
Spec == Init /\ [][Next]_vars

Pure == \A a, b \in done : a.plan = b.plan /\ a.seed = b.seed => a.split = b.split /\ a.lab = b.lab
SplitPartAlone == \A a, b \in done : a.plan[1] = b.plan[1] /\ a.seed = b.seed => a.split = b.split
GlobalUntouched == \A a \in done : a.kept
=============================================================================
