------------------------------- MODULE Metrics -------------------------------
(* Classification metrics over two equally long label sequences, as their textbook definitions,
   in units of 1/U (each class term truncated: a metric is off by less than one unit per class). *)
EXTENDS Integers, Sequences, FiniteSets

U == 1000000
Classes(t) == {t[i] : i \in 1..Len(t)}
Card(t, P(_)) == Cardinality({i \in 1..Len(t) : P(i)})
TP(t, p, c) == Card(t, LAMBDA i : t[i] = c /\ p[i] = c)
NT(t, c) == Card(t, LAMBDA i : t[i] = c)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN f[c] + SumOf(f, S \ {c})
Abs(x) == IF x < 0 THEN -x ELSE x

Accuracy(t, p) == (Card(t, LAMBDA i : t[i] = p[i]) * U) \div Len(t)
Balanced(t, p) == LET C == Classes(t) IN SumOf([c \in C |-> (TP(t, p, c) * U) \div NT(t, c)], C) \div Cardinality(C)
\* F1 = 2 TP / (#true c + #predicted c)
MacroF1(t, p) == LET C == Classes(t) IN
  SumOf([c \in C |-> (2 * TP(t, p, c) * U) \div (NT(t, c) + NT(p, c))], C) \div Cardinality(C)

Value(name, t, p) == CASE name = "accuracy" -> Accuracy(t, p) [] name = "balanced_accuracy" -> Balanced(t, p) [] name = "macro_f1" -> MacroF1(t, p)
Known == {"accuracy", "balanced_accuracy", "macro_f1"}
Near(a, b) == Abs(a - b) <= 3

\* the label a row of scores stands for: the first of its largest entries, counting from 0
RowLabel(r) == (CHOOSE i \in 1..Len(r) : \A j \in 1..Len(r) : r[j] < r[i] \/ (r[j] = r[i] /\ i <= j)) - 1
Labels(x, rows) == IF rows THEN [i \in 1..Len(x) |-> RowLabel(x[i])] ELSE x
=============================================================================
