--------------------------- MODULE PlanTextModel ---------------------------
(* Writing and rewriting plans.  A document is edited field by field (fields are added, taken
   out, misspelt, written as null); the reader accepts or refuses it; the accepted plan can be written out in
   full and read back.  Reader = "lenient" drops what it does not know: then a written field
   does not count any more.                                                              *)
EXTENDS PlanText, SequencesExt
CONSTANTS Kind, Tokens, MaxWritten, Reader

VARIABLES sec, printed
vars == <<sec, printed>>

Writable == Names(Kind) \union Alias(Kind) \union {"misspelt"}
Doc == <<sec>>
Read(d) == IF Reader = "strict" THEN Accepted("one", d)
           ELSE \A i \in 1..Len(d) : LET known == [d[i] EXCEPT !.put = SelectSeq(@, LAMBDA p : p[1] \in Names(Kind) \union Alias(Kind))]
                                     IN OneValue(known) /\ MustHaves(known) /\ Choices(known) /\ Coherent(known)
InFull(d) == [i \in 1..Len(d) |-> LET m == Meaning(d[i])
                                     fs == SetToSeq(Names(Kind))
                                 IN [d[i] EXCEPT !.put = [j \in DOMAIN fs |-> <<fs[j], m.put[fs[j]]>>]]]

Init == sec = [kind |-> Kind, at |-> 0, put |-> <<>>] /\ printed = <<>>
Toks(f) == LET cs == {g \in Fields(Kind) : g[1] = f} IN
  IF cs = {} THEN Tokens ELSE (Tokens \union {(CHOOSE g \in cs : TRUE)[2]} \union (CHOOSE g \in cs : TRUE)[3]) \ {"!"}
Write == \E f \in Writable : \E v \in Toks(f) :
           /\ Len(sec.put) < MaxWritten /\ \A i \in 1..Len(sec.put) : sec.put[i][1] # f   \* a mapping names a field once
           /\ sec' = [sec EXCEPT !.put = Append(@, <<f, v>>)] /\ printed' = <<>>
Erase == \E i \in 1..Len(sec.put) :
           sec' = [sec EXCEPT !.put = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] /\ printed' = <<>>
PrintOut == Read(Doc) /\ printed = <<>> /\ printed' = InFull(Doc) /\ sec' = sec
Next == Write \/ Erase \/ PrintOut
Spec == Init /\ [][Next]_vars

EveryWordCounts == Read(Doc) => \A i \in 1..Len(sec.put) : ~Null(sec, i) => \E f \in Names(Kind) :
                       f = Canon(sec.put[i][1]) /\ Meaning(sec).put[f] = sec.put[i][2]
Total == Read(Doc) => \A f \in Names(Kind) : Meaning(sec).put[f] # "!"
ReadsBack == printed # <<>> => Read(printed) /\ Plan(printed) = Plan(Doc) /\ \A i \in 1..Len(printed) : Spelt(printed[i])
DefaultsAreNeutral == Read(Doc) => \A f \in Fields(Kind) : (f[1] \notin Written(sec) /\ f[2] # "!") =>
   LET more == <<[sec EXCEPT !.put = Append(@, <<f[1], f[2]>>)]>> IN Read(more) /\ Plan(more) = Plan(Doc)
OrderIsNeutral == Read(Doc) /\ Len(sec.put) > 1 =>
   LET turned == <<[sec EXCEPT !.put = Append(Tail(@), Head(@))]>> IN Read(turned) /\ Plan(turned) = Plan(Doc)
ChangesShow == Read(Doc) => \A i \in 1..Len(sec.put) : \A v \in Tokens :
   LET other == <<[sec EXCEPT !.put[i] = <<@[1], v>>]>> IN
   (v # sec.put[i][2] /\ v # "null" /\ ~Null(sec, i) /\ Read(other)) => Plan(other) # Plan(Doc)
=============================================================================
