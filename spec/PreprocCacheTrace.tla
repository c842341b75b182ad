-------------------------- MODULE PreprocCacheTrace --------------------------
(* Judges runs of the preprocessing pipeline that share one cache directory.
   event: [key, val, art, fp, cache, purge]
     key  dataset content, plan, fitting rows and seed      val  the final dataset, or its failure
     art  every artefact (purge: the ones kept)             fp   the fingerprint reported, "" on failure *)
EXTENDS TraceJudge, Memo

CStart(t) == [res |-> {}, art |-> {}, fps |-> {}]

CStep(t, s, e) ==
  [res |-> Remember(s.res, e.key, e.val),
   art |-> IF e.purge \/ e.fp = "" THEN s.art ELSE Remember(s.art, e.key, e.art),
   fps |-> IF e.fp = "" THEN s.fps ELSE Remember(s.fps, e.fp, e.val)]

CClause(t, s, e) ==
  IF ~Agrees(s.res, e.key, e.val) THEN (IF e.cache THEN "CachedRunEqualsUncached" ELSE "UncachedRunEqualsCached")
  ELSE IF ~e.purge /\ e.fp # "" /\ ~Agrees(s.art, e.key, e.art) THEN "CachedArtefactsEqualUncached"
  ELSE IF e.fp # "" /\ ~Agrees(s.fps, e.fp, e.val) THEN "FingerprintNamesOneResult"
  ELSE "ok"
=============================================================================
