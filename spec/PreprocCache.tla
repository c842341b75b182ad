----------------------------- MODULE PreprocCache -----------------------------
(* The step cache over the plan semantics of Preproc: histories of cached runs and of losses of
   cached parts.  The claim: a run's final splits are those of the run without a cache.

   Keying  "complete"   an entry is keyed by the provenance of everything the step may read
           "declared"   ... of a declared subset of it
   Rng     "together"   a partly present entry is recomputed for both splits
           "split"      only its missing part is (its draws then start where train's would)
   Purging keeps what later steps may read under the same declaration.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keying, Rng, Runs, MaxLen, Ids, Purge

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))
TermOf(tab, parts) == "(" \o Join(parts) \o ")"
P == INSTANCE Preproc WITH Name <- TermOf

R(ks, need) == [ks |-> ks, need |-> need]
K(k) == [k |-> k, iff |-> ""]
Cat == [
  fx   |-> [kind |-> "transform", mods |-> <<>>, reads |-> <<R(<<"F", "X">>, TRUE)>>, prods |-> <<K("F")>>, rand |-> FALSE],
  raw  |-> [kind |-> "transform", mods |-> <<>>, reads |-> <<R(<<"X">>, TRUE)>>, prods |-> <<K("X")>>, rand |-> FALSE],
  fit  |-> [kind |-> "fittable", mods |-> <<>>, reads |-> <<R(<<"X">>, TRUE)>>, prods |-> <<K("F")>>, rand |-> FALSE],
  rnd  |-> [kind |-> "transform", mods |-> <<>>, reads |-> <<R(<<"F", "X">>, TRUE)>>, prods |-> <<K("F")>>, rand |-> TRUE],
  aux  |-> [kind |-> "transform", mods |-> <<>>, reads |-> <<>>, prods |-> <<K("A")>>, rand |-> TRUE],
  use  |-> [kind |-> "transform", mods |-> <<>>, reads |-> <<R(<<"A">>, FALSE), R(<<"X">>, TRUE)>>, prods |-> <<K("F")>>, rand |-> FALSE]]

\* what a step declares that it reads
AllReads(id) == UNION {P!SeqSet(r.ks) : r \in P!SeqSet(Cat[id].reads)}
Declared(id) == IF Keying = "complete" THEN AllReads(id) ELSE AllReads(id) \ ({"A"} \union IF "X" \in AllReads(id) THEN {"F"} ELSE {})

Ds == [name |-> "d", mod |-> "", hastest |-> TRUE, tr |-> [X |-> "xa", y |-> "ya"], te |-> [X |-> "xb", y |-> "yb"]]
StepOf(id) == [id |-> id, on |-> TRUE, mods |-> <<>>, req |-> <<>>, w |-> "0", wrap |-> "s", ink |-> ""]
PlansOver(S) == UNION {[1..n -> S] : n \in 1..MaxLen}
Plans == {[steps |-> [i \in 1..Len(q) |-> StepOf(q[i])], out |-> "F"] : q \in PlansOver(Ids)}

Draw(id, i, role) == id \o ToString(i) \o role
FinalOf(plan, st) ==
  IF st.err # "" THEN <<st.err, "", "", "">>
  ELSE <<P!Pick(st.tr, plan.out, "X"), P!Pick(st.tr, "L", "y"), P!Pick(st.te, plan.out, "X"), P!Pick(st.te, "L", "y")>>

Cold(plan) ==
  LET run == P!Resolve(Cat, plan, Ds).run
      draw == [j \in 1..Len(run) |-> [train |-> Draw(run[j].id, run[j].i, "train"), test |-> Draw(run[j].id, run[j].i, "test"),
                                      fit |-> Draw(run[j].id, run[j].i, "fit")]]
  IN FinalOf(plan, P!Execute(<<>>, Cat, plan, run, 1, "all", draw, [tr |-> Ds.tr, te |-> Ds.te, hastest |-> TRUE, err |-> ""]))

\* --------------------------------------------------------------- the cached run
Prov0(split) == [k \in {"X", "y"} |-> split \o k]
ProvText(f, S) == Join([i \in 1..4 |-> LET k == <<"X", "y", "F", "A">>[i] IN IF k \in S \cap DOMAIN f THEN f[k] ELSE ""])
On(f, S) == [k \in S \cap DOMAIN f |-> f[k]]
KeyOf(s, i, prov, prove) == "[" \o s.id \o ToString(i) \o ":" \o ProvText(prov, Declared(s.id)) \o ";" \o ProvText(prove, Declared(s.id)) \o "]"

Needed(plan, j, purge) ==   \* what may be read after step j, or ends up in the result
  IF ~purge THEN {"X", "y", "F", "A"}
  ELSE {"y", "F"} \union UNION {Declared(plan.steps[i].id) : i \in (j + 1)..Len(plan.steps)}
       \union (IF \A i \in 1..Len(plan.steps) : "F" \notin {p.k : p \in P!SeqSet(Cat[plan.steps[i].id].prods)} THEN {"X"} ELSE {})

RECURSIVE Cached(_, _, _, _)
Cached(plan, j, purge, st) ==   \* st: [tr, te, ptr, pte, err, cache]
  IF j > Len(plan.steps) \/ st.err # "" THEN st
  ELSE LET s == plan.steps[j]
           key == KeyOf(s, j, st.ptr, st.pte)
           bad == P!Missing(Cat, s, st.tr) \/ P!Missing(Cat, s, st.te)
           d(role) == IF Cat[s.id].rand THEN Draw(s.id, j, role) ELSE "-"
           lr == IF Cat[s.id].kind = "fittable" THEN P!Learnt(<<>>, Cat, s, st.tr, d("fit"), "all") ELSE "-"
           has(part) == <<key, part>> \in DOMAIN st.cache
           both == has("train") /\ has("test")
           fresh(part, store) == P!Outputs(<<>>, Cat, s, store, IF Rng = "split" /\ part = "test" /\ has("train") THEN d("train") ELSE d(part), lr)
           out(part, store) == IF both \/ (Rng = "split" /\ has(part)) THEN st.cache[<<key, part>>] ELSE fresh(part, store)
           otr == out("train", st.tr)
           ote == out("test", st.te)
           keep == Needed(plan, j, purge)
       IN IF bad THEN [st EXCEPT !.err = "missing artefact"]
          ELSE Cached(plan, j + 1, purge,
                 [tr |-> On(otr @@ st.tr, keep), te |-> On(ote @@ st.te, keep),
                  ptr |-> [k \in DOMAIN otr |-> key] @@ st.ptr, pte |-> [k \in DOMAIN ote |-> key] @@ st.pte, err |-> "",
                  cache |-> (<<key, "train">> :> otr) @@ (<<key, "test">> :> ote) @@ st.cache])

VARIABLES cache, runs, ok

Init == cache = <<>> /\ runs = 0 /\ ok = TRUE
Run(plan, purge) ==
  /\ runs < Runs
  /\ LET st == Cached(plan, 1, purge, [tr |-> Ds.tr, te |-> Ds.te, ptr |-> Prov0("a"), pte |-> Prov0("b"), err |-> "", cache |-> cache])
     IN cache' = st.cache /\ ok' = (FinalOf(plan, st) = Cold(plan))
  /\ runs' = runs + 1
Lose(k) == runs < Runs /\ cache' = [x \in DOMAIN cache \ {k} |-> cache[x]] /\ UNCHANGED <<runs, ok>>
Next == (\E p \in Plans, b \in Purge : Run(p, b)) \/ (\E k \in DOMAIN cache : Lose(k))
Spec == Init /\ [][Next]_<<cache, runs, ok>>

CachedEqualsCold == ok
=============================================================================
