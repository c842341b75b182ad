---------------------- MODULE DatasetHousekeepingModel ----------------------
(* All histories of housekeeping over a few entries; also the source of the histories that
   are replayed against the code (Emit = TRUE prints each history of length MaxOps).        *)
EXTENDS DatasetHousekeeping, TLC, Json
CONSTANTS MaxOps, Emit, Broken
V == 1..4
Uri == <<1, 1, 1, 2>>
VARIABLES s, hist
vars == <<s, hist>>
Ops == {[op |-> "download", v |-> v, u |-> 0, force |-> f] : v \in V, f \in BOOLEAN}
       \union {[op |-> o, v |-> 0, u |-> 0, force |-> FALSE] : o \in {"gc", "rebuild", "loseindex"}}
       \union {[op |-> "purge", v |-> 0, u |-> u, force |-> FALSE] : u \in {1, 2}}
       \union {[op |-> o, v |-> v, u |-> 0, force |-> FALSE] : o \in {"purgeone", "losedir", "loseman"}, v \in V}
(* housekeeping that goes wrong in one way; each must be refuted *)
BApply(st, o) ==
  CASE Broken = "keeps_oldest" /\ o.op = "gc" ->
         Remove(st, {v \in st.idx : \E w \in st.idx : Uri[w] = Uri[v] /\ st.itime[w] < st.itime[v]})
    [] Broken = "one_for_all" /\ o.op = "gc" ->
         Remove(st, {v \in st.idx : \E w \in st.idx : st.itime[w] > st.itime[v]})
    [] Broken = "purges_prefix" /\ o.op = "purge" -> Remove(st, {v \in st.idx : Uri[v] >= o.u})
    [] Broken = "index_only" /\ o.op = "purge" -> [st EXCEPT !.idx = @ \ PurgeSet(st, Uri, o.u)]
    [] Broken = "lists_dirs" /\ o.op = "rebuild" -> [st EXCEPT !.idx = st.dir, !.itime = st.time]
    [] Broken = "rewrites_index" /\ o.op = "download" -> [Download(st, o.v, o.force) EXCEPT !.idx = {o.v}]
    [] OTHER -> Apply(st, Uri, o)
Sensible(st, o) ==
  /\ o.op = "losedir" => o.v \in st.dir
  /\ o.op = "loseman" => o.v \in st.man
  /\ o.op = "purgeone" => o.v \in st.dir \union st.man \union st.idx
  /\ o.op = "download" => (o.v = 1 \/ o.v = 4 \/ (o.v - 1) \in st.dir \union st.man \union st.idx \/ st.now > 2)
  /\ o.op \in {"gc", "rebuild", "loseindex", "purge"} => st.now > 0
Init == s = Empty /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : /\ Sensible(s, o)
                          /\ s' = BApply(s, o) /\ hist' = Append(hist, o)
        /\ (Emit /\ Len(hist') = MaxOps => PrintT(<<"H", ToJson(hist')>>))
Spec == Init /\ [][Next]_vars

LastOp == IF hist = <<>> THEN "none" ELSE hist[Len(hist)].op
NewestSurvivesGc ==
  LastOp = "gc" => \A v \in s.idx : ~\E w \in s.idx : w # v /\ Uri[w] = Uri[v]
(* an entry disappears only by retention, purge or damage *)
NothingElseLost ==
  \A v \in V : (v \in DOMAIN s.time /\ v \notin Usable(s)) =>
     \E i \in 1..Len(hist) : hist[i].op \in {"gc", "purge", "purgeone", "losedir", "loseman"}
RebuildDescribesDisk == LastOp = "rebuild" => s.idx = Usable(s)
(* what one operation may touch *)
OpNow == hist'[Len(hist')]
TouchesOnlyIts ==
  [][/\ OpNow.op = "purge" => \A v \in V : Uri[v] # OpNow.u =>
          (v \in Usable(s) <=> v \in Usable(s')) /\ (v \in s.idx <=> v \in s'.idx)
     /\ OpNow.op = "purge" => \A v \in s.idx : Uri[v] = OpNow.u => v \notin s'.dir \union s'.man \union s'.idx
     /\ OpNow.op = "gc" => \A v \in s.idx : \E w \in s'.idx : Uri[w] = Uri[v] /\ s.itime[w] >= s.itime[v]
     /\ OpNow.op = "download" => /\ Usable(s') = Usable(s) \union {OpNow.v}
                                 /\ s.idx \subseteq s'.idx
     /\ OpNow.op = "rebuild" => s'.dir = s.dir /\ s'.man = s.man]_vars
View == <<s, LastOp, Len(hist)>>
=============================================================================
