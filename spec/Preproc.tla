------------------------------- MODULE Preproc -------------------------------
(* What a preprocessing plan means.

   A catalogue maps a step id to its declaration
     [kind, mods, reads, prods, rand]
       kind   "transform" | "fittable" | "featurizer"
       mods   modalities the step is restricted to (<<>>: all)
       reads  sequence of [ks |-> alternatives in order of preference, need |-> BOOLEAN]
       prods  sequence of [k |-> artefact, iff |-> "" or the artefact that must be there]
       rand   whether the step draws random numbers
   A plan is [steps |-> sequence of [id, on, mods, req, w, wrap, ink], out |-> artefact].
   A dataset is [mod, hastest, tr, te]: modality and the initial artefacts of its splits.

   Artefact contents are uninterpreted terms: what a step puts out is the step, its
   parameters, what it drew, what it learnt from the fitting rows, and what it read.
   Name(parts) stands for such a term.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Name(_, _)   \* (table, parts) -> the token under which that term is known

SeqSet(q) == {q[i] : i \in 1..Len(q)}

\* ------------------------------------------------------------------ resolution
RECURSIVE ResolveFrom(_, _, _, _, _, _)
ResolveFrom(cat, plan, mod, i, fields, acc) ==
  IF i > Len(plan.steps) THEN acc
  ELSE LET s == plan.steps[i]
           skip == [acc EXCEPT !.skip = Append(@, [id |-> s.id, i |-> i])]
       IN IF ~s.on THEN ResolveFrom(cat, plan, mod, i + 1, fields, skip)
          ELSE IF s.id \notin DOMAIN cat THEN [acc EXCEPT !.err = "unknown step"]
          ELSE LET allowed == IF s.mods # <<>> THEN SeqSet(s.mods) ELSE SeqSet(cat[s.id].mods)
               IN IF allowed # {} /\ mod # "" /\ mod \notin allowed
                  THEN ResolveFrom(cat, plan, mod, i + 1, fields, skip)
                  ELSE IF ~(SeqSet(s.req) \subseteq fields)
                  THEN ResolveFrom(cat, plan, mod, i + 1, fields, skip)
                  ELSE ResolveFrom(cat, plan, mod, i + 1,
                         fields \union {p.k : p \in SeqSet(cat[s.id].prods)},
                         [acc EXCEPT !.run = Append(@, [id |-> s.id, i |-> i])])

Resolve(cat, plan, ds) ==
  ResolveFrom(cat, plan, ds.mod, 1,
              DOMAIN ds.tr \union (IF ds.hastest THEN DOMAIN ds.te ELSE {}),
              [run |-> <<>>, skip |-> <<>>, err |-> ""])

\* ------------------------------------------------------------------- execution
Reads(cat, s) ==
  cat[s.id].reads \o (IF s.ink = "" THEN <<>> ELSE <<[ks |-> <<s.ink>>, need |-> TRUE]>>)
Present(r, store) == {j \in 1..Len(r.ks) : r.ks[j] \in DOMAIN store}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Got(r, store) == IF Present(r, store) = {} THEN "-" ELSE store[r.ks[Min(Present(r, store))]]
Inputs(cat, s, store) == [j \in 1..Len(Reads(cat, s)) |-> Got(Reads(cat, s)[j], store)]
Missing(cat, s, store) == \E r \in SeqSet(Reads(cat, s)) : r.need /\ Present(r, store) = {}

Outputs(tab, cat, s, store, draw, learnt) ==
  LET live == {j \in 1..Len(cat[s.id].prods) :
                 LET p == cat[s.id].prods[j] IN p.iff = "" \/ p.iff \in DOMAIN store}
      ks == {cat[s.id].prods[j].k : j \in live}
  IN [k \in ks |-> Name(tab, <<"out", s.id, k, s.wrap, s.w, draw, learnt>> \o Inputs(cat, s, store))]
Learnt(tab, cat, s, store, draw, fit) ==
  Name(tab, <<"fit", s.id, s.w, draw, fit>> \o Inputs(cat, s, store))

\* Draw(seed, id, index, role) is the step's randomness.  State: [tr, te, err].
RECURSIVE Execute(_, _, _, _, _, _, _, _)
Execute(tab, cat, plan, run, j, fit, draw, st) ==
  IF j > Len(run) \/ st.err # "" THEN st
  ELSE LET s == plan.steps[run[j].i]
           sp == cat[s.id]
           fitted == sp.kind = "fittable"
           d(role) == IF sp.rand THEN draw[j][role] ELSE "-"
           lr == IF fitted THEN Learnt(tab, cat, s, st.tr, d("fit"), fit) ELSE "-"
       IN IF fitted /\ fit = "none" THEN [st EXCEPT !.err = "no fitting rows"]
          ELSE IF Missing(cat, s, st.tr) THEN [st EXCEPT !.err = "missing artefact"]
          ELSE LET tr2 == Outputs(tab, cat, s, st.tr, d("train"), lr) @@ st.tr
               IN IF ~st.hastest
                  THEN Execute(tab, cat, plan, run, j + 1, fit, draw, [st EXCEPT !.tr = tr2])
                  ELSE IF Missing(cat, s, st.te) THEN [st EXCEPT !.err = "missing artefact"]
                  ELSE Execute(tab, cat, plan, run, j + 1, fit, draw,
                         [st EXCEPT !.tr = tr2,
                                    !.te = Outputs(tab, cat, s, st.te, d("test"), lr) @@ st.te])

\* ------------------------------------------------------------- the final dataset
Pick(store, k, other) == IF k \in DOMAIN store THEN store[k] ELSE store[other]
FinalSplit(plan, store) ==
  [X |-> Pick(store, plan.out, "raw.X"),
   y |-> Pick(store, "labels.y", "raw.y"),
   edges |-> IF "graph.edge_index" \in DOMAIN store THEN store["graph.edge_index"] ELSE "-",
   weight |-> IF "graph.edge_weight" \in DOMAIN store THEN store["graph.edge_weight"] ELSE "-"]
=============================================================================
