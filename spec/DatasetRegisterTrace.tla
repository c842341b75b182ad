------------------------ MODULE DatasetRegisterTrace ------------------------
(* Judges histories of accesses to one real cached dataset entry.
   Events: access [force, dl, fail, out, ver, whole, n]   a completed access
           crash  [force, dl, readdone]                   an access killed on the way *)
EXTENDS DatasetRegister, TraceJudge

RStart(t) == [may |-> {Nothing}, reads |-> 0]
Match(s, e) == {o \in Outcomes(s.may, e, s.reads + 1) :
                  o.out = e.out /\ o.ver = e.ver /\ o.n = e.n}
RClause(t, s, e) ==
  IF e.k = "crash" THEN "ok"
  ELSE IF e.out = "error" THEN "AccessNeverFailsBecauseOfACrash"
  ELSE IF ~e.whole THEN "DatasetIsWholeAndFromOneRead"
  ELSE IF e.n > 1 THEN "AtMostOneProviderReadPerAccess"
  ELSE IF Match(s, e) = {} THEN
         IF e.out = "notcached" THEN "NotCachedOnlyWhenNothingIsCached"
         ELSE IF e.out = "busy" THEN "DeadHolderDoesNotBlock"
         ELSE IF e.n = 0 /\ e.out = "ok" THEN "ServedValueIsTheOneStored"
         ELSE IF e.n = 1 THEN "ProviderReadOnlyWhenNeeded"
         ELSE "OutcomeAllowedByRegister"
  ELSE "ok"
RStep(t, s, e) ==
  IF e.k = "crash"
  THEN [may |-> AfterCrash(s.may, e, s.reads + 1, e.readdone),
        reads |-> s.reads + IF e.readdone THEN 1 ELSE 0]
  ELSE LET o == CHOOSE o \in Match(s, e) : TRUE
       IN [may |-> o.may, reads |-> s.reads + e.n]
=============================================================================
