--------------------------- MODULE RegistryModel ---------------------------
(* The mechanism behind the lazily loaded registries: an empty table, a list
   of built-in entries loaded by whoever needs the registry first, and callers
   (one per thread) who register, list and look up in any order.  One step of
   loading is one entry, so a second caller can arrive in the middle.

   Registry.tla says what the callers may see; Broken names a way of getting it
   wrong, and TLC has to find it.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
R == INSTANCE Registry
CONSTANTS Callers, MaxCalls, Broken

Builtin == << [reg |-> "inductive", id |-> "a", target |-> "A", kind |-> "implemented"],
              [reg |-> "inductive", id |-> "b", target |-> "B", kind |-> "planned"],
              [reg |-> "inductive", id |-> "c", target |-> "C", kind |-> "implemented"] >>
BuiltinSet == {Builtin[i] : i \in 1..Len(Builtin)}

Regs == {[reg |-> "inductive", id |-> i, target |-> t, kind |-> k, idkind |-> "name", parent |-> "",
          pathkind |-> "text", complete |-> TRUE, parts |-> p] :
            i \in {"a", "c", "u", ""}, t \in {"A", "X"}, k \in {"implemented", "oops"},
            p \in {<<"m", "X">>, <<"m", "X", "y">>}}

VARIABLES table, loaded, lock, pc, req, user, seen, calls
vars == <<table, loaded, lock, pc, req, user, seen, calls>>
(* user: what the callers have been told is registered (entries they added)
   seen: answers given so far, each with the truth at that time               *)
None == [op |-> "none"]
Truth == BuiltinSet \cup user

Init == /\ table = {} /\ loaded = FALSE /\ lock = "free"
        /\ pc = [c \in Callers |-> "idle"] /\ req = [c \in Callers |-> None]
        /\ user = {} /\ seen = "fine" /\ calls = 0

Start(c) ==
  /\ pc[c] = "idle" /\ calls < MaxCalls
  /\ \E q \in ({[op |-> "register", r |-> r] : r \in Regs}
               \cup {[op |-> "list", filter |-> f] : f \in {"all", "usable"}}
               \cup {[op |-> "get", id |-> i] : i \in {"a", "b", "u"}}) :
        req' = [req EXCEPT ![c] = q]
  /\ pc' = [pc EXCEPT ![c] = IF req'[c].op = "register" /\ "late builtins" \in Broken
                             THEN "work" ELSE "lock"]
  /\ calls' = calls + 1
  /\ UNCHANGED <<table, loaded, lock, user, seen>>

Lock(c) ==
  /\ pc[c] = "lock"
  /\ \/ "no lock" \in Broken
     \/ lock = "free"
  /\ lock' = c
  /\ pc' = [pc EXCEPT ![c] = IF loaded THEN "work" ELSE "load1"]
  /\ UNCHANGED <<table, loaded, req, user, seen, calls>>

Load(c, i) ==
  /\ pc[c] = "load" \o ToString(i)
  /\ LET e == Builtin[i] IN
     IF \E x \in R!Entry(table, e.reg, e.id) : x.target # e.target
     THEN /\ seen' = "loading failed" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<table, loaded>>
     ELSE IF "no lock" \in Broken /\ R!Entry(table, e.reg, e.id) # {}
     THEN /\ seen' = "loading failed" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<table, loaded>>
     ELSE /\ table' = table \cup {e}
          /\ loaded' = IF "loaded too early" \in Broken THEN TRUE ELSE (i = Len(Builtin))
          /\ pc' = [pc EXCEPT ![c] = IF i = Len(Builtin) THEN "work" ELSE "load" \o ToString(i + 1)]
          /\ UNCHANGED seen
  /\ lock' = IF "loaded too early" \in Broken THEN "free" ELSE lock
  /\ UNCHANGED <<req, user, calls>>

Accepts(S, r) ==
  CASE "no clash check" \in Broken -> R!WellFormed(r)
    [] "any path" \in Broken -> ~R!Clashes(S, r) /\ r.id # "" /\ r.kind \in R!Statuses
    [] OTHER -> ~R!MustRefuse(S, r)

Put(S, r) == {x \in S : ~(x.reg = r.reg /\ x.id = r.id)}
             \cup {[reg |-> r.reg, id |-> r.id, target |-> r.target, kind |-> r.kind]}

Work(c) ==
  /\ pc[c] = "work"
  /\ LET q == req[c] IN
     CASE q.op = "register" ->
            LET ok == Accepts(table, q.r)
                out == IF ok THEN "ok" ELSE "refused" IN
            /\ seen' = CASE R!MustRefuse(Truth, q.r) /\ ok -> "accepted"
                         [] R!MustAccept(Truth, q.r) /\ ~ok -> "refused"
                         [] OTHER -> seen
            /\ user' = IF seen' = "fine" THEN R!After(Truth, q.r, out) \ BuiltinSet ELSE user
            /\ table' = IF ok \/ "write first" \in Broken THEN Put(table, q.r) ELSE table
       [] q.op = "list" ->
            /\ seen' = IF R!Listed(table, "inductive", IF "planned too" \in Broken THEN "all" ELSE q.filter)
                          # R!Listed(Truth, "inductive", q.filter) THEN "listing" ELSE seen
            /\ UNCHANGED <<user, table>>
       [] OTHER ->
            LET x == R!Entry(table, "inductive", q.id)
                y == R!Entry(Truth, "inductive", q.id) IN
            /\ seen' = IF {e.target : e \in x} # {e.target : e \in y} THEN "lookup" ELSE seen
            /\ UNCHANGED <<user, table>>
  /\ lock' = IF lock = c THEN "free" ELSE lock
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ req' = [req EXCEPT ![c] = None]
  /\ UNCHANGED <<loaded, calls>>

Next == seen = "fine" /\ \E c \in Callers :
          Start(c) \/ Lock(c) \/ Work(c) \/ \E i \in 1..Len(Builtin) : Load(c, i)
Spec == Init /\ [][Next]_vars

ANameMeansOneTarget == seen = "fine"
BuiltinsStay == loaded /\ seen = "fine" => BuiltinSet \subseteq table
                 \/ \E x \in user : x.id \in R!Ids(BuiltinSet, "inductive")
TypeOK == table \subseteq [reg : {"inductive"}, id : {"a", "b", "c", "u", ""},
                           target : {"A", "B", "C", "X"}, kind : {"implemented", "planned", "oops"}]
=============================================================================
