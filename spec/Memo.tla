-------------------------------- MODULE Memo --------------------------------
(* An operation that is a pure function of its key: the first value seen for a key is the
   only one ever seen, and the ambient state is left as it was found.                    *)
EXTENDS Integers, Sequences, FiniteSets

KnownKey(memo, k) == \E m \in memo : m.key = k
ValueOf(memo, k) == (CHOOSE m \in memo : m.key = k).val
Agrees(memo, k, v) == \A m \in memo : m.key = k => m.val = v
Remember(memo, k, v) == memo \union {[key |-> k, val |-> v]}
=============================================================================
