----------------------------- MODULE Registry -----------------------------
(* What ModSSC's registries promise: a name means one target, from the first
   time anybody may ask for it.

   A registry is a set of entries [reg, id, target, kind].  The built-in
   entries are always there, whether or not anything has been asked of the
   registry yet (they are loaded lazily: that must not be visible).  `kind' is
   the status of a method ("implemented", "planned"), the modality of an
   operation or encoder, or "".                                             *)
EXTENDS Integers, Sequences, FiniteSets

Entry(S, reg, id) == {x \in S : x.reg = reg /\ x.id = id}
Ids(S, reg) == {x.id : x \in {y \in S : y.reg = reg}}

(* ---- registration *)
Methods == {"inductive", "transductive"}
Statuses == {"implemented", "planned"}

(* a method's path is "module:Class"; `parts' are the pieces between colons  *)
GoodPath(parts) == Len(parts) = 2 /\ \A i \in 1..Len(parts) : parts[i] # ""

WellFormed(r) ==
  CASE r.reg \in Methods -> /\ r.idkind = "name" /\ r.id # ""
                            /\ r.pathkind = "text" /\ GoodPath(r.parts)
                            /\ r.kind \in Statuses
    [] r.reg = "op"      -> r.complete      \* the class declares id and modality
    [] OTHER             -> TRUE

(* a backend belongs to a classifier that exists                             *)
HasParent(S, r) == r.reg = "backend" => r.parent \in Ids(S, "classifier")

Clashes(S, r) == \E x \in Entry(S, r.reg, r.id) : x.target # r.target

(* "taken": same target again, nothing changes and either answer will do for
   registries that never accept a name twice                                 *)
MustRefuse(S, r) == \/ ~WellFormed(r) \/ ~HasParent(S, r) \/ Clashes(S, r)
MustAccept(S, r) ==
  /\ ~MustRefuse(S, r)
  /\ r.reg = "backend" => Entry(S, r.reg, r.id) = {}

After(S, r, out) ==
  IF out # "ok" THEN S
  ELSE {x \in S : ~(x.reg = r.reg /\ x.id = r.id)}
       \cup {[reg |-> r.reg, id |-> r.id, target |-> r.target, kind |-> r.kind]}

(* ---- lookups *)
Listed(S, reg, filter) ==
  {x.id : x \in {y \in S : /\ y.reg = reg
                           /\ CASE filter = "all" -> TRUE
                                [] filter = "usable" -> y.kind # "planned"
                                [] OTHER -> \/ y.kind = filter
                                            \/ reg = "op" /\ y.kind = "any"}}

(* ---- the classifier "auto" stands for: the first preferred backend that is
   registered and whose extra is there                                       *)
RECURSIVE FirstUsable(_, _)
FirstUsable(prefs, have) ==      \* have: set of [name, there, extra]
  IF prefs = <<>> THEN "none"
  ELSE IF \E b \in have : b.name = Head(prefs) /\ b.there THEN Head(prefs)
  ELSE FirstUsable(Tail(prefs), have)

AutoOutcome(prefs, have) ==
  LET f == FirstUsable(prefs, have) IN
  IF f # "none" THEN f
  ELSE IF prefs # <<>> /\ \E b \in have : b.name = Head(prefs) /\ b.extra # ""
       THEN "missing extra" ELSE "unknown backend"
=============================================================================
