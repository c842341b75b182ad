---------------------------- MODULE PreprocModel ----------------------------
(* A pipeline that walks a plan one step at a time, deciding at each step from
   what it has in hand, against the meaning Preproc gives the plan as a whole.

   Two runs are walked one after the other: the plan, and the same plan with one
   step switched off; a step that is in both and reads the same must come out
   the same (its draws belong to its place in the plan, not to the run).
   Broken names one way of walking wrong.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Ids, Broken

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))
TermOf(tab, parts) == "(" \o Join(parts) \o ")"
P == INSTANCE Preproc WITH Name <- TermOf

R(ks, need) == [ks |-> ks, need |-> need]
K(k) == [k |-> k, iff |-> ""]
Cat == [
  tok |-> [kind |-> "transform", mods |-> <<"text">>, reads |-> <<R(<<"X">>, TRUE)>>, prods |-> <<K("T")>>, rand |-> FALSE],
  emb |-> [kind |-> "featurizer", mods |-> <<>>, reads |-> <<R(<<"T", "X">>, TRUE)>>, prods |-> <<K("F")>>, rand |-> FALSE],
  fit |-> [kind |-> "fittable", mods |-> <<>>, reads |-> <<R(<<"F", "X">>, TRUE)>>, prods |-> <<K("F")>>, rand |-> FALSE],
  rnd |-> [kind |-> "transform", mods |-> <<>>, reads |-> <<R(<<"X">>, TRUE)>>, prods |-> <<K("X")>>, rand |-> TRUE],
  img |-> [kind |-> "transform", mods |-> <<"vision">>, reads |-> <<R(<<"X">>, TRUE)>>, prods |-> <<K("F")>>, rand |-> FALSE]]

Ds == [mod |-> "text", hastest |-> TRUE, tr |-> [X |-> "xa", y |-> "ya"], te |-> [X |-> "xb", y |-> "yb"]]
Steps == {[id |-> i, on |-> o, mods |-> m, req |-> q, w |-> "0", wrap |-> "s", ink |-> ""] :
            i \in Ids, o \in BOOLEAN, m \in {<<>>, <<"vision">>}, q \in {<<>>, <<"T">>}}
Plans == [steps : UNION {[1..n -> Steps] : n \in 1..MaxLen}, out : {"F"}]

Draw(id, i, role) == id \o ToString(i) \o role
Meaning(plan) ==
  LET r == P!Resolve(Cat, plan, Ds)
      draw == [j \in 1..Len(r.run) |-> [role \in {"train", "test", "fit"} |-> Draw(r.run[j].id, r.run[j].i, role)]]
      x == P!Execute(<<>>, Cat, plan, r.run, 1, "all", draw, [tr |-> Ds.tr, te |-> Ds.te, hastest |-> TRUE, err |-> ""])
  IN [run |-> r.run, skip |-> r.skip, err |-> x.err,
      tr |-> IF x.err = "" THEN P!Pick(x.tr, plan.out, "X") ELSE "", te |-> IF x.err = "" THEN P!Pick(x.te, plan.out, "X") ELSE ""]

VARIABLES plan, i, tr, te, run, skip, err, nth
vars == <<plan, i, tr, te, run, skip, err, nth>>

Init == /\ plan \in Plans /\ i = 1 /\ tr = Ds.tr /\ te = Ds.te
        /\ run = <<>> /\ skip = <<>> /\ err = "" /\ nth = 0

Have == IF Broken = "raw fields" THEN DOMAIN Ds.tr ELSE DOMAIN tr \cup DOMAIN te
Applies(s) ==
  /\ s.on \/ Broken = "disabled too"
  /\ LET m == IF s.mods # <<>> THEN P!SeqSet(s.mods) ELSE P!SeqSet(Cat[s.id].mods)
         both == P!SeqSet(s.mods) \cup P!SeqSet(Cat[s.id].mods) IN
     IF Broken = "either modality" THEN both = {} \/ Ds.mod \in both ELSE m = {} \/ Ds.mod \in m
  /\ P!SeqSet(s.req) \subseteq Have

Walk ==
  /\ err = "" /\ i <= Len(plan.steps)
  /\ LET s == plan.steps[i]
         place == IF Broken = "draw by turn" THEN nth + 1 ELSE i
         d(role) == IF Cat[s.id].rand THEN Draw(s.id, place, role) ELSE "-"
         fitted == Cat[s.id].kind = "fittable"
         learnt(store) == IF fitted THEN P!Learnt(<<>>, Cat, s, store, "-", "all") ELSE "-"
         tr2 == P!Outputs(<<>>, Cat, s, tr, d("train"), learnt(tr)) @@ tr
         te2 == P!Outputs(<<>>, Cat, s, te, d("test"), learnt(IF Broken = "refit" THEN te ELSE tr)) @@ te
     IN IF ~Applies(s)
        THEN /\ skip' = IF Broken = "silent skip" /\ ~s.on THEN skip ELSE Append(skip, [id |-> s.id, i |-> i])
             /\ UNCHANGED <<tr, te, run, err, nth>>
        ELSE IF P!Missing(Cat, s, tr) \/ P!Missing(Cat, s, te)
        THEN err' = "missing artefact" /\ UNCHANGED <<tr, te, run, skip, nth>>
        ELSE /\ run' = Append(run, [id |-> s.id, i |-> i]) /\ nth' = nth + 1
             /\ tr' = tr2 /\ te' = IF Broken = "train only" /\ s.id = "emb" THEN te ELSE te2
             /\ UNCHANGED <<skip, err>>
  /\ i' = i + 1 /\ UNCHANGED plan
Spec == Init /\ [][Walk]_vars

Done == err # "" \/ i > Len(plan.steps)
WalksTheMeaning ==
  Done => LET m == Meaning(plan) IN
          /\ err = m.err
          /\ err = "" => /\ run = m.run /\ skip = m.skip
                         /\ P!Pick(tr, plan.out, "X") = m.tr /\ P!Pick(te, plan.out, "X") = m.te
\* every step of the plan is accounted for, once, in order
Accounted ==
  Done /\ err = "" =>
    /\ Len(run) + Len(skip) = Len(plan.steps)
    /\ \A q \in {run, skip} : \A a, b \in 1..Len(q) : a < b => q[a].i < q[b].i
    /\ {x.i : x \in P!SeqSet(run)} \cap {x.i : x \in P!SeqSet(skip)} = {}
\* switching off a step whose outcome nobody reads leaves the result alone
Off(k) == [plan EXCEPT !.steps[k].on = FALSE]
DrawsBelongToPlaces ==
  (i = 1) => \A k \in 1..Len(plan.steps) :
    LET a == Meaning(plan) b == Meaning(Off(k)) IN
    (a.err = "" /\ b.err = "" /\ ~\E x \in P!SeqSet(a.run) : x.i = k) => a.tr = b.tr /\ a.te = b.te
=============================================================================
