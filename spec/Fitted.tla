-------------------------------- MODULE Fitted --------------------------------
(* A fitted transformation is one function per (plan, seed, fitting rows): whatever else the
   training split and the test split hold, a row content is always mapped to the same output.
   Outputs are sequences of integers; equal means within rounding.                          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= 2 + Abs(a) \div 128
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])

\* seen: set of [key, row, out]
Consistent(seen, key, row, out) == \A m \in seen : m.key = key /\ m.row = row => Same(m.out, out)
=============================================================================
