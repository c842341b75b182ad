------------------------ MODULE DatasetHousekeeping ------------------------
(* Retention over a cache of entries: which are on disk (directory and manifest), which the
   index lists, and when each was stored.  Every operation is a function on states, so that
   the model below and the traces of the real cache share them.

   A state is [dir, man, idx, time, now]: sets of entries with a directory, with a readable
   manifest, listed in the index; time[v] = when v was stored; uri[v] its source.           *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [dir |-> {}, man |-> {}, idx |-> {}, time |-> <<>>, itime |-> <<>>, now |-> 0]

Usable(s) == s.dir \cap s.man
Set(f, v, x) == [u \in DOMAIN f \union {v} |-> IF u = v THEN x ELSE f[u]]

Download(s, v, force) ==
  IF v \in Usable(s) /\ ~force THEN s
  ELSE [dir |-> s.dir \union {v}, man |-> s.man \union {v}, idx |-> s.idx \union {v},
        time |-> Set(s.time, v, s.now + 1), itime |-> Set(s.itime, v, s.now + 1), now |-> s.now + 1]

Remove(s, V) == [s EXCEPT !.dir = @ \ V, !.man = @ \ V, !.idx = @ \ V]

(* retention acts on what the index lists, by the times it lists *)
Superseded(s, uri) == {v \in s.idx : \E w \in s.idx : uri[w] = uri[v] /\ s.itime[w] > s.itime[v]}
Gc(s, uri) == Remove(s, Superseded(s, uri))
PurgeSet(s, uri, u) == {v \in s.idx : uri[v] = u}
Purge(s, uri, u) == Remove(s, PurgeSet(s, uri, u))
PurgeOne(s, v) == Remove(s, {v})
Rebuild(s) == [s EXCEPT !.idx = Usable(s), !.itime = s.time]

(* things that happen to a cache from outside *)
LoseIndex(s) == [s EXCEPT !.idx = {}]
LoseDir(s, v) == [s EXCEPT !.dir = @ \ {v}]
LoseManifest(s, v) == [s EXCEPT !.man = @ \ {v}]

Apply(s, uri, e) ==
  CASE e.op = "download"  -> Download(s, e.v, e.force)
    [] e.op = "gc"        -> Gc(s, uri)
    [] e.op = "purge"     -> Purge(s, uri, e.u)
    [] e.op = "purgeone"  -> PurgeOne(s, e.v)
    [] e.op = "rebuild"   -> Rebuild(s)
    [] e.op = "loseindex" -> LoseIndex(s)
    [] e.op = "losedir"   -> LoseDir(s, e.v)
    [] e.op = "loseman"   -> LoseManifest(s, e.v)

Removed(s, uri, e) ==
  CASE e.op = "gc"    -> Superseded(s, uri)
    [] e.op = "purge" -> PurgeSet(s, uri, e.u)
    [] OTHER          -> {}
=============================================================================
