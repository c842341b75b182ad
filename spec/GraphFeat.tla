------------------------------ MODULE GraphFeat ------------------------------
(* Node features of a graph: what each view is, by definition.

   Edges are <<src, dst>> with integer weights w (1 if unweighted); X holds integers.
   Diffusion: H(0) = X, H(t+1) = (1 - a) P H(t) + a X with P the adjacency whose rows sum
   to one (a node without out-weight has a zero row).  Values come scaled by S and rounded.

   Structural features come from random walks: nodes are related when they occur within a
   window of some walk; two rows may only be non-orthogonal when a common node is related
   to both.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets

FAbs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumF(_, _)
SumF(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumF(f, k - 1)

OutW(edges, w, i) == SumF([k \in 1..Len(edges) |-> IF edges[k][1] = i THEN w[k] ELSE 0], Len(edges))
Pull(edges, w, H, i, c) == SumF([k \in 1..Len(edges) |-> IF edges[k][1] = i THEN w[k] * H[edges[k][2] + 1][c] ELSE 0], Len(edges))

(* one step, for a = an/ad, within tol of the exact value *)
Diffused(edges, w, X, S, an, ad, H, G, tol) ==
  /\ Len(G) = Len(X)
  /\ \A i \in 1..Len(X) :
       LET d == OutW(edges, w, i - 1) IN
       /\ Len(G[i]) = Len(X[i])
       /\ \A c \in 1..Len(X[i]) :
            LET avg == IF d = 0 THEN 0 ELSE Pull(edges, w, H, i - 1, c) \div d IN
            FAbs(ad * G[i][c] - ((ad - an) * avg + an * S * X[i][c])) <= ad * tol

(* walks of the given length: to a uniformly chosen out-neighbour, or staying when there is none.
   back, near, far: whether a walk that came from prev may go back to prev, to a neighbour of prev,
   or elsewhere (biases so strong that they are never taken otherwise). *)
Nbr(edges, i) == {edges[k][2] : k \in {x \in 1..Len(edges) : edges[x][1] = i}}
Moves(edges, prev, cur, bias) ==
  LET N == Nbr(edges, cur)
      rank(v) == IF v = prev THEN bias[1] ELSE IF v \in Nbr(edges, prev) THEN bias[2] ELSE bias[3]
  IN IF N = {} THEN {cur}
     ELSE IF prev = -1 THEN N
     ELSE {v \in N : \A u \in N : rank(v) >= rank(u) \/ rank(u) - rank(v) < 10}
RECURSIVE Walks(_, _, _, _)
Walks(edges, bias, w, len) ==
  IF Len(w) = len THEN {w}
  ELSE LET prev == IF Len(w) = 1 THEN -1 ELSE w[Len(w) - 1]
       IN UNION {Walks(edges, bias, Append(w, v), len) : v \in Moves(edges, prev, w[Len(w)], bias)}
AllWalks(n, edges, bias, len) == UNION {Walks(edges, bias, <<i>>, len) : i \in 0..(n - 1)}
Joined(n, edges, bias, len, win) ==
  UNION {{<<w[x[1]], w[x[2]]>> : x \in {y \in (1..len) \X (1..len) : y[1] # y[2] /\ FAbs(y[1] - y[2]) <= win}} : w \in AllWalks(n, edges, bias, len)}

(* gram[i][j] = 1 when the rows of i and j are not orthogonal *)
OnlyJoined(n, edges, bias, len, win, gram) ==
  LET J == Joined(n, edges, bias, len, win) IN
  \A i, j \in 0..(n - 1) : gram[i + 1][j + 1] = 1 => \E v \in 0..(n - 1) : <<i, v>> \in J /\ <<j, v>> \in J

(* when every node has one way to go, the walks are known and so are the counts *)
RECURSIVE Path(_, _, _)
Path(f, i, len) == IF len = 1 THEN <<i>> ELSE <<i>> \o Path(f, f[i], len - 1)
Count(n, f, len, win, u, v) ==
  SumF([s \in 1..n |-> LET w == Path(f, s - 1, len) IN
          Cardinality({y \in (1..len) \X (1..len) : y[1] # y[2] /\ FAbs(y[1] - y[2]) <= win /\ w[y[1]] = u /\ w[y[2]] = v})], n)
(* rows that clearly share a node related more than chance would have it *)
ClearlyJoined(n, f, len, win, gram) ==
  LET c == [u \in 0..(n - 1) |-> [v \in 0..(n - 1) |-> Count(n, f, len, win, u, v)]]
      row == [u \in 0..(n - 1) |-> SumF([v \in 1..n |-> c[u][v - 1]], n)]
      col == [v \in 0..(n - 1) |-> SumF([u \in 1..n |-> c[u - 1][v]], n)]
      tot == SumF([u \in 1..n |-> row[u - 1]], n)
      clear(u, v) == c[u][v] * tot >= 2 * row[u] * col[v] /\ c[u][v] > 0
      some(u, v) == c[u][v] * tot > row[u] * col[v]
  IN \A i, j \in 0..(n - 1) :
       /\ (\E v \in 0..(n - 1) : clear(i, v) /\ clear(j, v)) => gram[i + 1][j + 1] = 1
       /\ (\A v \in 0..(n - 1) : ~(some(i, v) /\ some(j, v))) => gram[i + 1][j + 1] = 0
=============================================================================
