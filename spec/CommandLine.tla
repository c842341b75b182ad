----------------------------- MODULE CommandLine -----------------------------
(* A workspace handled through the command line.

   State: [got, reads, fail, dirs, gr, vw]
     got[d]    which read of dataset d is in the dataset cache (0: none)
     reads[d]  how often its provider has been asked
     fail      datasets whose provider fails at the moment
     dirs[x]   what the split directory x holds: a key, or <<>> when it does not exist
     gr, vw    fingerprints in the default graph and views caches

   A command is run on a state: [ok, s, key].  `key` names the library computation whose
   result the command must report and store; Lib gives the library's own answer to it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Str(n) == ToString(n)

(* getting hold of a dataset: from the cache, or from its provider *)
Get(w, s, d, force) ==
  IF d \notin DOMAIN s.got THEN [ok |-> FALSE, extra |-> FALSE, s |-> s]
  ELSE IF s.got[d] > 0 /\ ~force THEN [ok |-> TRUE, extra |-> FALSE, s |-> s]
  ELSE LET r == [s EXCEPT !.reads[d] = @ + 1] IN
       IF d \in w.needs THEN [ok |-> FALSE, extra |-> TRUE, s |-> r]
       ELSE IF d \in s.fail THEN [ok |-> FALSE, extra |-> FALSE, s |-> r]
       ELSE [ok |-> TRUE, extra |-> FALSE, s |-> [r EXCEPT !.got[d] = r.reads[d]]]

(* every dataset of the catalogue in order; stops at a missing extra unless told to go on *)
RECURSIVE GetAll(_, _, _, _, _, _)
GetAll(w, s, ds, force, skip, acc) ==
  IF ds = <<>> THEN [s |-> s, n |-> acc, stop |-> FALSE]
  ELSE LET d == Head(ds) IN
       IF skip /\ s.got[d] > 0 THEN GetAll(w, s, Tail(ds), force, skip, [acc EXCEPT !.skipped = @ + 1])
       ELSE LET g == Get(w, s, d, force) IN
            IF g.extra /\ ~w.ignore THEN [s |-> g.s, n |-> acc, stop |-> TRUE]
            ELSE GetAll(w, g.s, Tail(ds), force, skip,
                        IF g.ok THEN [acc EXCEPT !.down = @ + 1]
                        ELSE IF g.extra THEN [acc EXCEPT !.missing = @ + 1] ELSE [acc EXCEPT !.failed = @ + 1])
Zero == [down |-> 0, skipped |-> 0, missing |-> 0, failed |-> 0]

Cached(s) == {d \in DOMAIN s.got : s.got[d] > 0}
Purged(s, D) == [s EXCEPT !.got = [d \in DOMAIN s.got |-> IF d \in D THEN 0 ELSE s.got[d]]]

Key(what, s, e) == <<what, e.ds, Str(s.got[e.ds]), e.plan, Str(e.seed)>>
=============================================================================
