------------------------------- MODULE Augment -------------------------------
(* What an augmentation operation may make of a sample: a relation between input and output.

   Samples are coded as
     flat   sequence of integer codes, one per array entry (equal codes: equal values)
     grid   sequence of rows, each a sequence of pixel codes (all channels of a pixel are one code)
     words  sequence of words;  chars  sequence of code points
     edges  sequence of <<source, destination, weight code>>
   A strength is a fraction num/den.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

IsOff(num) == num = 0
IsFull(num, den) == num >= den
InRange(num, den) == num >= 0 /\ num <= den

(* masking: a masked entry takes the fill value, every other keeps its own *)
Masked(in, out, fill, elig(_)) ==
  /\ Len(out) = Len(in)
  /\ \A i \in 1..Len(in) : out[i] = in[i] \/ (elig(in[i]) /\ out[i] = fill)
AllMasked(in, out, fill, elig(_)) == \A i \in 1..Len(in) : elig(in[i]) => out[i] = fill

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Moved(a, b) == Cardinality({i \in 1..Len(a) : a[i] # b[i]})

(* at most n swaps of two positions *)
Swapped(in, out, n) == SameBag(in, out) /\ Moved(in, out) <= 2 * n
SwappedAroundPads(in, out, n, pad) ==
  /\ Swapped(in, out, n)
  /\ \A i \in 1..Len(in) : (in[i] = pad) = (out[i] = pad)

RECURSIVE SubseqFrom(_, _, _, _)
SubseqFrom(a, i, b, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN SubseqFrom(a, i + 1, b, j + 1) ELSE SubseqFrom(a, i, b, j + 1)
Subseq(a, b) == SubseqFrom(a, 1, b, 1)

WordsDropped(in, out, num, den) ==
  /\ Subseq(out, in)
  /\ (in # <<>> => out # <<>>)
  /\ (IsOff(num) => out = in)
  /\ (IsFull(num, den) => Len(out) = (IF in = <<>> THEN 0 ELSE 1))

EdgesDropped(in, out, num, den) ==
  /\ Subseq(out, in)
  /\ (IsOff(num) => out = in)
  /\ (IsFull(num, den) => out = <<>>)

H(g) == Len(g)
W(g) == IF g = <<>> THEN 0 ELSE Len(g[1])
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Mirror(g) == [r \in 1..H(g) |-> [c \in 1..W(g) |-> g[r][W(g) + 1 - c]]]
Flipped(in, out, num, den) ==
  \/ (out = in /\ ~IsFull(num, den))
  \/ (out = Mirror(in) /\ ~IsOff(num))

(* holes of the given side; each hole lies within the image where it fits *)
Corners(n, len) == 0..Max(0, n - len)
InHole(r, c, h, len) == r - 1 >= h[1] /\ r - 1 < h[1] + len /\ c - 1 >= h[2] /\ c - 1 < h[2] + len
CutBy(in, out, fill, len, holes) ==
  \A r \in 1..H(in) : \A c \in 1..W(in) :
    out[r][c] = (IF \E k \in holes : InHole(r, c, k, len) THEN fill ELSE in[r][c])
CutOut(in, out, fill, len, n) ==
  /\ H(out) = H(in) /\ W(out) = W(in)
  /\ LET at == Corners(H(in), len) \X Corners(W(in), len) IN
     IF n = 1 THEN \E a \in at : CutBy(in, out, fill, len, {a})
     ELSE \E a \in at : \E b \in at : CutBy(in, out, fill, len, {a, b})

(* reflection without repeating the border *)
Reflect(i, n) == LET m == IF n = 1 THEN 0 ELSE i % (2 * (n - 1)) IN IF m < n THEN m ELSE 2 * (n - 1) - m
Cropped(in, out, pad) ==
  /\ H(out) = H(in) /\ W(out) = W(in)
  /\ \E t \in 0..2 * pad : \E l \in 0..2 * pad :
       \A r \in 1..H(in) : \A c \in 1..W(in) :
         out[r][c] = in[Reflect(r - 1 + t - pad, H(in)) + 1][Reflect(c - 1 + l - pad, W(in)) + 1]

(* rounded to nearest; a tie may go either way *)
Nearest(num, den, n) == {k \in 0..n + 1 : 2 * k * den <= 2 * num * n + den /\ 2 * k * den >= 2 * num * n - den}
RolledBy(in, out, s) == \A r \in 1..H(in) : \A c \in 1..W(in) : out[r][((c - 1 + s) % W(in)) + 1] = in[r][c]
Rolled(in, out, num, den) ==
  /\ H(out) = H(in) /\ W(out) = W(in)
  /\ \E m \in Nearest(num, den, W(in)) : \E s \in -m..m : RolledBy(in, out, s)

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lowered(in, out) == Len(out) = Len(in) /\ \A i \in 1..Len(in) : out[i] = Lower(in[i])

(* a drawn share of n independent choices of probability num/den: within 7 standard deviations *)
RateOk(hits, n, num, den) ==
  LET d == hits * den - num * n IN d * d <= 49 * n * num * (den - num) + 49 * den * den
=============================================================================
