---------------------------- MODULE PreprocTrace ----------------------------
(* Judges uncached runs of the preprocessing pipeline over symbolic steps against Preproc.
   trace: [cat, dss (name -> dataset), terms (content -> token), ev]
   event: [ds, plan, seed, fit, purge, err, run, skip, log, tr, te, hastest, atr, ate, meta, reasons] *)
EXTENDS TraceJudge

RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "|" \o Join(Tail(p))
TermName(tab, parts) == LET c == Join(parts) IN IF c \in DOMAIN tab THEN tab[c] ELSE "never computed: " \o c

P == INSTANCE Preproc WITH Name <- TermName

ByRole(log, role) == SelectSeq(log, LAMBDA x : x.role = role)
Ids(q) == [i \in 1..Len(q) |-> q[i].id]
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Art(a) == [k \in DOMAIN a \ {"-"} |-> a[k]]
SameMap(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]
SubMap(a, b) == DOMAIN a \subseteq DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]

\* draws made by the runs so far: [seed, id, i, role, v]
PStart(t) == {}

Fitted(t, run) == SelectSeq(run, LAMBDA x : t.cat[x.id].kind = "fittable")
Expected(t, e, roles) ==   \* the drawing calls a run owes, per role
  LET run == e.run IN [train |-> run, test |-> IF e.hastest THEN run ELSE <<>>, fit |-> Fitted(t, run)][roles]
Draws(t, e) ==
  UNION {LET q == ByRole(e.log, role)  x == Expected(t, e, role)
         IN {[seed |-> e.seed, id |-> x[i].id, i |-> x[i].i, role |-> role, v |-> q[i].v] :
               i \in {j \in 1..Len(q) : j <= Len(x) /\ q[j].v # "-"}} : role \in {"train", "test", "fit"}}
PStep(t, s, e) == IF e.err # "" THEN s ELSE s \union Draws(t, e)

PClause(t, s, e) ==
  LET ds == t.dss[e.ds]
      dset == [mod |-> ds.mod, hastest |-> ds.hastest, tr |-> Art(ds.tr), te |-> Art(ds.te)]
      r == P!Resolve(t.cat, e.plan, dset)
      \* what each step drew, by position in the run
      drawn == [j \in 1..Len(r.run) |->
                  LET f == Len(SelectSeq(SubSeq(r.run, 1, j), LAMBDA x : t.cat[x.id].kind = "fittable"))
                      at(role, n) == LET q == ByRole(e.log, role) IN IF n \in 1..Len(q) THEN q[n].v ELSE "none"
                  IN [train |-> at("train", j), test |-> at("test", j), fit |-> at("fit", f)]]
      x == P!Execute(t.terms, t.cat, e.plan, r.run, 1, e.fit, drawn,
                     [tr |-> dset.tr, te |-> dset.te, hastest |-> dset.hastest, err |-> ""])
      err == IF r.err # "" THEN r.err ELSE x.err
      ids == Ids(r.run)
      fin(store) == P!FinalSplit(e.plan, store)
      masks(a) == IF "graph.mask.m" \in DOMAIN a THEN "m=" \o a["graph.mask.m"] ELSE "-"
      ok(got, store, init) ==
        LET w == fin(store) IN
        IF got.X # w.X THEN "FinalFeatures" ELSE IF got.y # w.y THEN "FinalLabels"
        ELSE IF got.edges # w.edges \/ got.weight # w.weight THEN "FinalEdges"
        ELSE IF got.masks # masks(init) THEN "MasksPassThrough" ELSE "ok"
      new == Draws(t, e)
  IN
  IF e.err # err THEN "RunsOrFailsAsPlanned"
  ELSE IF err # "" THEN
    IF \E role \in {"train", "test"} : ~IsPrefix(Ids(ByRole(e.log, role)), ids) THEN "StepsInPlanOrder" ELSE "ok"
  ELSE IF e.run # r.run THEN "ApplicableStepsRun"
  ELSE IF e.skip # r.skip \/ ~e.reasons THEN "SkippedStepsReported"
  ELSE IF Ids(ByRole(e.log, "train")) # ids \/ Ids(ByRole(e.log, "test")) # (IF dset.hastest THEN ids ELSE <<>>)
       THEN "EachStepOnceInOrder"
  ELSE IF Ids(ByRole(e.log, "fit")) # Ids(Fitted(t, r.run)) \/ ByRole(e.log, "again") # <<>> THEN "EachFitOnceInOrder"
  ELSE IF \E a \in new, b \in s \union new : a.seed = b.seed /\ a.id = b.id /\ a.i = b.i /\ a.role = b.role /\ a.v # b.v
       THEN "RandomnessFixedBySeedStepPosition"
  ELSE IF \E a \in new, b \in s \union new : (a.seed # b.seed \/ a.id # b.id \/ a.i # b.i) /\ a.role = b.role /\ a.v = b.v
       THEN "RandomnessDiffersBySeedStepPosition"
  ELSE IF e.hastest # dset.hastest THEN "TestSplitKept"
  ELSE IF ok(e.tr, x.tr, dset.tr) # "ok" THEN ok(e.tr, x.tr, dset.tr)
  ELSE IF dset.hastest /\ ok(e.te, x.te, dset.te) # "ok" THEN ok(e.te, x.te, dset.te)
  ELSE IF ~e.purge /\ ~SameMap(Art(e.atr), x.tr) THEN "TrainArtefacts"
  ELSE IF ~e.purge /\ dset.hastest /\ ~SameMap(Art(e.ate), x.te) THEN "TestArtefacts"
  ELSE IF e.purge /\ ~(SubMap(Art(e.atr), x.tr) /\ (dset.hastest => SubMap(Art(e.ate), x.te))) THEN "PurgeOnlyDrops"
  ELSE IF ~e.meta THEN "MetadataPassThrough"
  ELSE "ok"
=============================================================================
