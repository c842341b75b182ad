----------------------------- MODULE AugmentTrace -----------------------------
(* A02.  event: [op, err, bad (parameters out of range), num, den, n, len, pad, fill, padtok, kind,
                 in, out, meta (what must be equal before and after), kept, dt, sh]
   The driver applies every prefix of a plan to the sample: event k relates the k-1 and k step results. *)
EXTENDS TraceJudge, Augment, TLC

AStart(t) == 0
AStep(t, s, e) == s + 1

\* finite entries that noise left as they were (rounding may absorb one tiny draw)
Stuck(e) == Cardinality({i \in 1..Len(e.in) : e.fin[i] /\ e.out[i] = e.in[i]})
Rel(e) ==
  CASE e.op \in {"core.identity"} -> e.out = e.in
    [] e.op = "core.ensure_float32" -> e.out = e.in
    [] e.op \in {"tabular.feature_dropout", "graph.feature_mask"} ->
         /\ Masked(e.in, e.out, e.fill, LAMBDA v : TRUE)
         /\ (IsOff(e.num) => e.out = e.in) /\ (IsFull(e.num, e.den) => AllMasked(e.in, e.out, e.fill, LAMBDA v : TRUE))
    [] e.op = "text.token_mask" ->
         /\ Masked(e.in, e.out, e.fill, LAMBDA v : v # e.padtok)
         /\ (IsOff(e.num) => e.out = e.in) /\ (IsFull(e.num, e.den) => AllMasked(e.in, e.out, e.fill, LAMBDA v : v # e.padtok))
    [] e.op = "tabular.swap_noise" ->
         /\ Len(e.out) = Len(e.in) /\ (IsOff(e.num) => e.out = e.in)
         /\ (IsFull(e.num, e.den) => Stuck(e) <= 1)
    [] e.op \in {"tabular.gaussian_noise", "vision.gaussian_noise", "audio.add_noise"} ->
         /\ Len(e.out) = Len(e.in) /\ (IsOff(e.num) => e.out = e.in)
         /\ (~IsOff(e.num) => Stuck(e) <= 1)
    [] e.op = "text.lowercase" -> \A i \in 1..Len(e.in) : Lowered(e.in[i], e.out[i])
    [] e.op = "text.word_dropout" -> \A i \in 1..Len(e.in) : WordsDropped(e.in[i], e.out[i], e.num, e.den)
    [] e.op = "text.random_swap" -> \A i \in 1..Len(e.in) : Swapped(e.in[i], e.out[i], e.n)
    [] e.op = "text.token_swap" ->
         \A i \in 1..Len(e.in) : /\ SwappedAroundPads(e.in[i], e.out[i], e.n, e.padtok)
                                 /\ (e.distinct /\ e.n = 1 /\ Cardinality({k \in 1..Len(e.in[i]) : e.in[i][k] # e.padtok}) >= 2
                                      => Moved(e.in[i], e.out[i]) = 2)
    [] e.op = "graph.edge_dropout" -> EdgesDropped(e.in, e.out, e.num, e.den)
    [] e.op = "vision.random_horizontal_flip" -> Flipped(e.in, e.out, e.num, e.den)
    [] e.op = "vision.cutout" -> IF e.n = 0 THEN e.out = e.in ELSE
         IF e.len >= 0 THEN CutOut(e.in, e.out, e.fill, e.len, e.n)
         ELSE IF IsOff(e.num) THEN e.out = e.in
         ELSE \E k \in Nearest(e.num, e.den, Min(H(e.in), W(e.in))) : CutOut(e.in, e.out, e.fill, Max(1, k), e.n)
    [] e.op = "vision.random_crop_pad" -> Cropped(e.in, e.out, e.pad)
    [] e.op = "audio.time_shift" -> IF W(e.in) = 0 THEN e.out = e.in ELSE Rolled(e.in, e.out, e.num, e.den)
    [] OTHER -> FALSE

AClause(t, s, e) ==
  IF e.op = "rate" THEN (IF RateOk(e.hits, e.n, e.num, e.den) THEN "ok" ELSE "StrengthIsTheShareAffected")
  ELSE IF e.bad THEN (IF e.err = "ValueError" THEN "ok" ELSE "OutOfRangeStrengthsAreRejected")
  ELSE IF e.err # "" THEN "WellFormedSamplesAreAugmented"
  ELSE IF e.osh # e.ish THEN "ShapeKept"
  ELSE IF e.odt # e.idt THEN "TypeKept"
  ELSE IF e.orest # e.irest THEN "RestOfSampleKept"
  ELSE IF ~Rel(e) THEN "OperationContract"
  ELSE "ok"
=============================================================================
