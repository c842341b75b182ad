-------------------------- MODULE DatasetStoreTrace --------------------------
(* Judges histories of accesses to many real cached entries.

   access: id    the meaning of the request: provider, dataset, version, task, modality, options
           force, dl, fail, out, n, ver
           made  what the provider returned, when it was called (n = 1)
           got   what the caller received (when out = "ok")
   resolve: [prov, ref, opts, fp]  a request made to a real provider and the key it was given;
            its meaning is the options over the provider's defaults t.defaults[prov].        *)
EXTENDS DatasetStore, TraceJudge

SStart(t) == [have |-> <<>>, made |-> <<>>, keys |-> {}]

Content(s, e) == IF e.n = 1 THEN e.made ELSE s.made[HaveOf(s.have, e.id)]

Meaning(t, e) == <<e.prov, e.ref, e.opts @@ t.defaults[e.prov]>>

SClause(t, s, e) ==
  IF e.k = "resolve" THEN
     IF \E k \in s.keys : k.fp = e.fp /\ k.m # Meaning(t, e) THEN "DifferentRequestsNeverShareAnEntry"
     ELSE IF \E k \in s.keys : k.fp # e.fp /\ k.m = Meaning(t, e) THEN "EqualRequestsShareTheirEntry"
     ELSE "ok"
  ELSE IF e.out \in {"error", "busy"} THEN "AccessSucceedsOrIsRefusedProperly"
  ELSE IF e.n > 0 /\ ~e.dl THEN "NoDownloadMeansNoProviderRead"
  ELSE IF e.n > 0 /\ ~e.force /\ HaveOf(s.have, e.id) # Nothing THEN "CachedRequestNeverCallsTheProvider"
  ELSE IF e.n = 0 /\ e.out = "ok" /\ HaveOf(s.have, e.id) = Nothing THEN "NeverServedFromAnotherEntry"
  ELSE IF {o \in Answers(s.have, e.id, e, Len(s.made) + 1) : o.out = e.out /\ o.n = e.n} = {}
       THEN "OutcomeAllowedByStore"
  ELSE IF e.out # "ok" THEN "ok"
  ELSE LET c == Content(s, e) IN
       IF DOMAIN e.got # DOMAIN c THEN "PartsOfTheDataset"
       ELSE IF e.got.train.X # c.train.X THEN "TrainFeaturesFaithful"
       ELSE IF e.got.train.y # c.train.y THEN "TrainLabelsFaithful"
       ELSE IF e.got.train # c.train THEN "TrainStructureFaithful"
       ELSE IF "test" \in DOMAIN c /\ e.got.test # c.test THEN "TestSplitFaithful"
       ELSE IF e.got.meta # c.meta THEN "MetadataFaithful"
       ELSE "ok"

SStep(t, s, e) ==
  IF e.k = "resolve" THEN [s EXCEPT !.keys = @ \union {[fp |-> e.fp, m |-> Meaning(t, e)]}]
  ELSE LET os == {o \in Answers(s.have, e.id, e, Len(s.made) + 1) : o.out = e.out /\ o.n = e.n}
           o == CHOOSE o \in os : TRUE
       IN [s EXCEPT !.have = After(s.have, e.id, o),
                    !.made = IF e.n = 1 THEN Append(@, e.made) ELSE @]
=============================================================================
