---------------------- MODULE DatasetHousekeepingTrace ----------------------
(* Judges histories of the real cache.  After every operation the event carries what the
   cache lists (newest first) with the sizes it claims, what is on disk, which entries load
   without downloading, and the entries the operation reported as removed.                  *)
EXTENDS DatasetHousekeeping, TraceJudge

HStart(t) == Empty
ToSet(q) == {q[i] : i \in 1..Len(q)}
HClause(t, s, e) ==
  LET n == Apply(s, t.uri, e) IN
  IF e.err # "" THEN "OperationSucceeds"
  ELSE IF e.op \in {"gc", "purge"} /\ (ToSet(e.ret) # Removed(s, t.uri, e) \/ Len(e.ret) # Cardinality(ToSet(e.ret)))
       THEN "ReportsWhatItRemoved"
  ELSE IF ToSet(e.usable) # Usable(n) THEN
         IF e.op = "gc" THEN "KeepsExactlyTheNewest"
         ELSE IF e.op \in {"purge", "purgeone"} THEN "PurgeRemovesExactlyItsEntries"
         ELSE "NothingElseIsLost"
  ELSE IF ToSet(e.dirs) # n.dir \/ ToSet(e.mans) # n.man THEN "RemovedCompletelyFromDisk"
  ELSE IF ToSet(e.list) # n.idx THEN
         IF e.op = "rebuild" THEN "RebuiltIndexDescribesTheEntries" ELSE "IndexListsTheEntries"
  ELSE IF \E i, j \in 1..Len(e.list) : i < j /\ n.itime[e.list[i]] <= n.itime[e.list[j]] THEN "ListedNewestFirst"
  ELSE IF \E i \in 1..Len(e.list) : e.luri[i] # t.uri[e.list[i]] THEN "ListedUnderItsSource"
  ELSE IF \E i \in 1..Len(e.list) : e.list[i] \in n.dir /\ e.lsize[i] # e.dsize[i] THEN "SizeAgreesWithDisk"
  ELSE "ok"
HStep(t, s, e) == Apply(s, t.uri, e)
=============================================================================
