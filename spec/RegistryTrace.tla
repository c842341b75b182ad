--------------------------- MODULE RegistryTrace ---------------------------
(* Recorded calls on ModSSC's registries, each trace in a fresh process.

   Trace: builtins: sequence of [reg, id, target, kind] (from a process that
   only looked things up).
   Events:
     register  the fields of Registry!WellFormed, out: ok|refused|crash:..
     list      reg, filter, names, heavy (optional packages imported by it)
     get       reg, id, out: ok|unknown|crash:.., target, says
     auto      prefs, have, chosen
     edit      the caller changes everything the lookups gave it so far
     par       calls: sequence of the above made by two threads at once      *)
EXTENDS TraceJudge, Registry

CStart(T) == {T.builtins[i] : i \in 1..Len(T.builtins)}
SetOf(q) == {q[i] : i \in 1..Len(q)}

RegisterClause(S, e) ==
  IF e.out \notin {"ok", "refused"} THEN "RefusedWithTheRegistrysError"
  ELSE IF MustAccept(S, e) /\ e.out # "ok" THEN "NewNameIsAccepted"
  ELSE IF MustRefuse(S, e) /\ e.out = "ok"
       THEN IF Clashes(S, e) THEN "ExistingNameIsProtected" ELSE "MalformedIsRefused"
  ELSE "ok"

ListClause(S, e) ==
  IF e.out # "ok" THEN "ListingNeverFails"
  ELSE IF e.heavy # <<>> THEN "ListingLoadsNoOptionalPackage"
  ELSE IF SetOf(e.names) # Listed(S, e.reg, e.filter) THEN "ListedIsRegistered"
  ELSE IF Cardinality(SetOf(e.names)) # Len(e.names) THEN "ListedOnce"
  ELSE "ok"

GetClause(S, e) ==
  LET x == Entry(S, e.reg, e.id) IN
  IF x = {} THEN IF e.out = "unknown" THEN "ok" ELSE "UnknownNameIsRefused"
  ELSE IF e.out # "ok" THEN "ListedNameResolves"
  ELSE IF \A y \in x : y.target # e.target THEN "NameMeansOneTarget"
  ELSE IF e.says # e.id THEN "DescribesItselfUnderItsName"
  ELSE "ok"

AutoClause(e) ==
  IF e.chosen = AutoOutcome(e.prefs, SetOf(e.have)) THEN "ok" ELSE "AutoIsFirstUsablePreference"

(* two threads: what either registers may or may not be there for the other  *)
Regs(q) == {i \in 1..Len(q) : q[i].op = "register"}
ParAfter(S, q) ==
  S \cup {[reg |-> q[i].reg, id |-> q[i].id, target |-> q[i].target, kind |-> q[i].kind] :
            i \in {j \in Regs(q) : q[j].out = "ok"}}
ParBad(S, q) ==
  LET F == ParAfter(S, q)
      Bad(e) == CASE e.op = "register" ->
                       IF RegisterClause(F, e) = "ok" THEN "ok" ELSE RegisterClause(S, e)
                  [] e.op = "list" ->
                       IF e.out # "ok" THEN "ListingNeverFails"
                       ELSE IF ~(Listed(S, e.reg, e.filter) \subseteq SetOf(e.names)
                            /\ SetOf(e.names) \subseteq Listed(F, e.reg, e.filter))
                       THEN "ListedIsRegistered" ELSE "ok"
                  [] OTHER -> IF GetClause(S, e) = "ok" \/ GetClause(F, e) = "ok" THEN "ok" ELSE GetClause(S, e)
  IN {Bad(q[i]) : i \in 1..Len(q)} \ {"ok"}

CClause(T, S, e) ==
  CASE e.op = "register" -> RegisterClause(S, e)
    [] e.op = "list" -> ListClause(S, e)
    [] e.op = "get" -> GetClause(S, e)
    [] e.op = "auto" -> AutoClause(e)
    [] e.op = "par" -> IF ParBad(S, e.calls) = {} THEN "ok"
                       ELSE CHOOSE c \in ParBad(S, e.calls) : TRUE
    [] OTHER -> "ok"

CStep(T, S, e) ==
  CASE e.op = "register" -> After(S, e, e.out)
    [] e.op = "par" -> ParAfter(S, e.calls)
    [] OTHER -> S
=============================================================================
