----------------------------- MODULE RunDirsTrace -----------------------------
(* Histories of real benchmark runs sharing one output directory.
   "end" [run, expect ("success"/"failed"), stage, outcome fields, evaluated]: a run ended; it
   tells the caller; "disk" [dirs]: what is there now.  A directory is [name, dig, marks, status,
   error, ecode, names, formed, evaluated, config (the parameter in config.yaml), told (in run.json), ran (what the method got)]; runs are numbers, and show in the results.
   t.runs[k] = [expect, raises, code, err, hash] what run k is; groups of runs may overlap.    *)
EXTENDS RunDirs, TraceJudge, Memo

SetOf(s) == {s[i] : i \in 1..Len(s)}
CStart(t) == [ended |-> {}, old |-> {}, outs |-> {}, memo |-> {}]

Marked(dirs) == {[name |-> d.name, marks |-> SetOf(d.marks), dig |-> d.dig] : d \in dirs}
DirOf(dirs, k) == CHOOSE d \in dirs : k \in SetOf(d.marks)

EndClause(t, s, e) ==
  LET w == t.runs[e.run]
  IN IF w.expect = "killed" THEN "ok"
     ELSE IF w.expect = "success"
     THEN (IF e.raised # "" \/ e.code # 0 THEN "SucceedsAlone" ELSE "ok")
     ELSE IF w.raises THEN (IF e.raised # w.err THEN "FailureReachesTheCaller" ELSE "ok")
     ELSE IF e.raised # "" THEN "FailureIsAReturnCode"
     ELSE IF e.code = 0 THEN "FailureReachesTheCaller"
     ELSE "ok"

RunDirClause(t, k, d) ==
  LET w == t.runs[k]
  IN IF ~d.formed THEN "RecordWellFormed"
     ELSE IF d.status # w.expect THEN "RecordedOutcome"
     ELSE IF d.runname # w.name \/ d.runseed # w.seed THEN "RecordsItself"
     ELSE IF w.expect = "success" /\ (d.config # d.ran \/ d.told # d.ran) THEN "RecordedConfigIsTheOneThatRan"
     ELSE IF w.expect = "success" /\ (d.error # "" \/ d.ecode # "") THEN "NoErrorInSuccess"
     ELSE IF w.expect = "success" /\ d.recorded # d.evaluated THEN "RecordedMetricsAreTheEvaluatedOnes"
     ELSE IF w.expect = "success" /\ d.leaves # w.leaves THEN "EverySplitEvaluated"
     ELSE IF w.expect = "failed" /\ ~(d.nametype /\ d.nametext) THEN "FailureNamed"
     ELSE IF w.expect = "failed" /\ ~d.traceback THEN "TracebackWritten"
     ELSE IF w.expect = "failed" /\ d.ecode # w.ecode THEN "ErrorCode"
     ELSE IF w.expect = "failed" /\ d.recorded # "" /\ d.recorded # d.evaluated THEN "NoInventedMetrics"
     ELSE "ok"

DiskClause(t, s, e) ==
  LET dirs == SetOf(e.dirs)
      ms == Marked(dirs)
      live == {k \in s.ended : t.runs[k].expect # "killed"}
      bad == {k \in live : RunDirClause(t, k, DirOf(dirs, k)) # "ok"}
  IN IF \E d \in ms : Cardinality(d.marks) > 1 THEN "OneRunPerDirectory"
     ELSE IF \E k \in live : Cardinality({d \in ms : k \in d.marks}) # 1 THEN "EveryRunHasItsDirectory"
     ELSE IF ~Kept(s.old, ms) THEN "EarlierRunsKept"
     ELSE IF Cardinality(dirs) > Cardinality(s.ended) THEN "NoStrayDirectories"
     ELSE IF bad # {} THEN RunDirClause(t, CHOOSE k \in bad : TRUE, DirOf(dirs, CHOOSE k \in bad : TRUE))
     ELSE "ok"

CClause(t, s, e) ==
  CASE e.op = "end" -> EndClause(t, s, e)
    [] e.op = "disk" -> DiskClause(t, s, e)
    [] e.op = "id" -> \* the run id is a function of configuration, seed and versions, and tells them apart
         IF ~Agrees(s.memo, e.key, e.v) THEN "SameRunSameId"
         ELSE IF \E m \in s.memo : m.key # e.key /\ m.val = e.v THEN "IdsTellApart"
         ELSE "ok"
    [] e.op = "sweeps" -> \* every sweep has a place of its own, whose summary lists its runs
         LET roots == SetOf(e.roots)
         IN IF \E d \in roots : Len(d.marks) > 1 \/ d.marks # d.lists THEN "SweepListsItsOwnRuns"
            ELSE IF \E k \in SetOf(e.runs) : Cardinality({d \in roots : d.marks = <<k>>}) # 1 THEN "EverySweepHasItsPlace"
            ELSE IF \E d \in roots : d.n # e.n THEN "SweepListsItsOwnRuns"
            ELSE "ok"
    [] OTHER -> "Known"

CStep(t, s, e) ==
  CASE e.op = "end" -> [s EXCEPT !.ended = @ \union {e.run}]
    [] e.op = "disk" -> [s EXCEPT !.old = Marked(SetOf(e.dirs))]
    [] e.op = "id" -> [s EXCEPT !.memo = Remember(@, e.key, e.v)]
    [] OTHER -> s
=============================================================================
