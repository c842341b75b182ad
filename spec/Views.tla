-------------------------------- MODULE Views --------------------------------
(* Feature views: a plan is a sequence of [name, mode, idx, num, den, of] (fraction num/den);
   nf the number of columns each view's matrix has.  Columns are numbered from 0.          *)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[i] : i \in 1..Len(q)}
Names(plan) == [i \in 1..Len(plan) |-> plan[i].name]
IndexOf(plan, n) == CHOOSE i \in 1..Len(plan) : plan[i].name = n

WellFormed(v) ==
  /\ v.name # "" /\ v.mode \in {"all", "indices", "random", "complement"}
  /\ v.mode = "indices" => v.idx # <<>> /\ \A c \in Range(v.idx) : c >= 0
  /\ v.mode = "random" => v.num > 0 /\ v.num <= v.den
  /\ v.mode = "complement" => v.of # ""

Valid(plan) ==
  /\ Len(plan) >= 2
  /\ Cardinality(Range(Names(plan))) = Len(plan)
  /\ \A i \in 1..Len(plan) : WellFormed(plan[i])
  /\ \A i \in 1..Len(plan) : plan[i].mode = "complement" => \E j \in 1..(i - 1) : plan[j].name = plan[i].of

\* sizes a random view of nf columns may have (a tie may round either way)
Sizes(v, nf) == LET lo == 1  hi == nf
                    near(k) == 2 * k * v.den - 2 * v.num * nf <= v.den /\ 2 * v.num * nf - 2 * k * v.den <= v.den
                    clip(k) == IF k < lo THEN lo ELSE IF k > hi THEN hi ELSE k
                IN {clip(k) : k \in {x \in 0..nf : near(x)}}

\* the sets of columns view i may hold given what the earlier ones hold ({} of sets: rejected)
Choices(plan, nf, i, cols) ==
  LET v == plan[i]  n == nf[i]  Every == 0..(n - 1)
  IN IF v.mode = "all" THEN {Every}
     ELSE IF v.mode = "indices" THEN
       IF Cardinality(Range(v.idx)) # Len(v.idx) \/ ~(Range(v.idx) \subseteq Every) THEN {} ELSE {Range(v.idx)}
     ELSE IF v.mode = "random" THEN {S \in SUBSET Every : Cardinality(S) \in Sizes(v, n)}
     ELSE LET j == IndexOf(plan, v.of)  C == Every \ cols[j]
          IN IF nf[j] # n \/ C = {} THEN {} ELSE {C}

\* the same test without enumerating the subsets
Allowed(plan, nf, i, cols) ==
  LET v == plan[i]  n == nf[i]
  IN IF v.mode = "random" THEN cols[i] \subseteq 0..(n - 1) /\ Cardinality(cols[i]) \in Sizes(v, n)
     ELSE cols[i] \in Choices(plan, nf, i, cols)
Rejected(plan, nf, i, cols) == plan[i].mode # "random" /\ Choices(plan, nf, i, cols) = {}

Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
=============================================================================
