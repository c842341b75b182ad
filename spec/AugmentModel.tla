---------------------------- MODULE AugmentModel ----------------------------
(* Chains of augmentation operations on every small sample: what no chain may ever do.

   Rescue    a text whose words would all be dropped keeps one
   PadAware  swaps and masks leave padding alone
   OwnWeights a kept edge keeps its own weight                                          *)
EXTENDS Augment, TLC

CONSTANTS MaxLen, Steps, Rescue, PadAware, OwnWeights

Pad == 0
MaskId == 9
Tokens == {0, 1, 2}

VARIABLES kind, first, now, left
vars == <<kind, first, now, left>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
EdgeSeqs == {[i \in 1..k |-> <<f[i], 10 + i>>] : k \in 0..MaxLen, f \in [1..MaxLen -> {1, 2}]}

Init == /\ left = Steps
        /\ \/ kind = "tokens" /\ now \in Seqs(Tokens, MaxLen)
           \/ kind = "words" /\ now \in Seqs({"a", "b", "c"}, MaxLen)
           \/ kind = "edges" /\ now \in EdgeSeqs
        /\ first = now

MaskOne == /\ kind = "tokens"
           /\ \E S \in SUBSET {i \in 1..Len(now) : ~PadAware \/ now[i] # Pad} :
                now' = [i \in 1..Len(now) |-> IF i \in S THEN MaskId ELSE now[i]]
SwapOne == /\ kind = "tokens"
           /\ \E i, j \in {k \in 1..Len(now) : ~PadAware \/ now[k] # Pad} :
                now' = [now EXCEPT ![i] = now[j], ![j] = now[i]]
Pick(s, S) == LET RECURSIVE F(_) F(i) == IF i > Len(s) THEN <<>> ELSE (IF i \in S THEN <<s[i]>> ELSE <<>>) \o F(i + 1) IN F(1)
DropWords == /\ kind = "words"
             /\ \E S \in SUBSET (1..Len(now)) :
                  IF S = {} /\ now # <<>> /\ Rescue THEN \E i \in 1..Len(now) : now' = <<now[i]>> ELSE now' = Pick(now, S)
SwapWords == kind = "words" /\ \E i, j \in 1..Len(now) : now' = [now EXCEPT ![i] = now[j], ![j] = now[i]]
DropEdges == /\ kind = "edges"
             /\ \E S \in SUBSET (1..Len(now)) :
                  LET kept == Pick(now, S) IN
                  now' = IF OwnWeights THEN kept ELSE [i \in 1..Len(kept) |-> <<kept[i][1], now[i][2]>>]

Next == left > 0 /\ left' = left - 1 /\ UNCHANGED <<kind, first>> /\ (MaskOne \/ SwapOne \/ DropWords \/ SwapWords \/ DropEdges)
Spec == Init /\ [][Next]_vars

PadsStay == kind = "tokens" => Len(now) = Len(first) /\ \A i \in 1..Len(now) : (now[i] = Pad) = (first[i] = Pad)
TokensKnown == kind = "tokens" => \A i \in 1..Len(now) : now[i] = MaskId \/ Count(now, now[i]) <= Count(first, now[i])
NeverEmptied == kind = "words" /\ first # <<>> => now # <<>>
WordsKnown == kind = "words" => \A i \in 1..Len(now) : Count(now, now[i]) <= Count(first, now[i])
EdgesOwnWeights == kind = "edges" => Subseq(now, first)

(* the relations of Augment.tla admit every single step *)
StepsAllowed == [][
  CASE kind = "tokens" -> Masked(now, now', MaskId, LAMBDA v : v # Pad) \/ SwappedAroundPads(now, now', 1, Pad)
    [] kind = "words" -> WordsDropped(now, now', 1, 2) \/ Swapped(now, now', 1)
    [] kind = "edges" -> EdgesDropped(now, now', 1, 2)
    [] OTHER -> TRUE]_vars
=============================================================================
