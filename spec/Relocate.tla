------------------------------ MODULE Relocate ------------------------------
(* A cache that is moved: a file kept under the cache's source tree is named, wherever the
   cache is, by the same path below that tree; every other value is what was stored.
   A path is a sequence of parts.                                                          *)
EXTENDS Integers, Sequences

StartsWith(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q
Under(root, below) == root \o below
(* the value v stored while the cache was at `old`, served by the cache at `new` *)
Served(v, old, new, below) ==
  IF StartsWith(v, Under(old, below)) /\ Len(v) > Len(Under(old, below))
  THEN Under(new, below) \o SubSeq(v, Len(Under(old, below)) + 1, Len(v))
  ELSE v
=============================================================================
