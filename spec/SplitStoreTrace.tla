--------------------------- MODULE SplitStoreTrace ---------------------------
(* Judges histories of one real split directory against the register of SplitStore.
   Versions are the numbers of the splits saved; 0 = nothing.  Events:
     save   [v, over, existed, out]    out: ok | exists | error
     crash  [v, over, existed]         a save killed on the way
     load   [out, v]                   out: ok | fail;  v = 0: not one of the saved splits *)
EXTENDS TraceJudge

QStart(t) == [may |-> {0}]
QClause(t, s, e) ==
  CASE e.k = "save" ->
         IF e.out = "error" THEN "SaveSucceeds"
         ELSE IF e.out = "exists" /\ (e.over \/ ~e.existed) THEN "SaveRefusedOnlyOverExisting"
         ELSE IF e.out = "ok" /\ e.existed /\ ~e.over THEN "NoOverwriteWithoutPermission"
         ELSE IF e.out = "exists" /\ ~e.same THEN "RefusedSaveChangesNothing"
         ELSE "ok"
    [] e.k = "crash" -> "ok"
    [] e.k = "load" ->
         IF e.out = "fail" THEN (IF 0 \in s.may THEN "ok" ELSE "SavedSplitLoads")
         ELSE IF e.v = 0 THEN "LoadedSplitIsOneSavedSplit"
         ELSE IF e.v \notin s.may THEN "LoadedSplitIsTheOneSaved"
         ELSE "ok"
QStep(t, s, e) ==
  CASE e.k = "save" -> IF e.out = "ok" THEN [may |-> {e.v}] ELSE s
    [] e.k = "crash" -> IF e.existed /\ ~e.over THEN s ELSE [may |-> s.may \union {0, e.v}]
    [] e.k = "load" -> IF e.out = "ok" THEN [may |-> {e.v}] ELSE [may |-> {0}]
=============================================================================
