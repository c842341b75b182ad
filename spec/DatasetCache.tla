---------------------------- MODULE DatasetCache ----------------------------
(* The file-level protocol behind one cached dataset entry, with several processes,
   provider failures and a crash at any step:

     look for directory and manifest; if both are there, read the directory
     otherwise take the lock (or be refused), look again, read from the provider,
     withdraw the manifest, remove the directory, write the directory, write the
     manifest, release the lock.

   It is checked against the atomic register of DatasetRegister: `may` is updated by
   the register's rules only, and every value a caller sees and every state the entry
   is left in must be one the register allows.

   Variant selects protocols: "ok" is the one the code follows; "stale-manifest" keeps
   the old manifest while the directory is rewritten, "drop-any-lock" lets a refused
   process remove the lock it did not take.  TLC must refute the last two (they are
   the defects repaired in /repo), which shows that the properties bite.             *)
EXTENDS DatasetRegister, TLC

CONSTANTS Procs, MaxReads, MaxCrashes, Variant

VARIABLES dir,      \* Nothing | Part0 (incomplete) | number of the read it holds completely
          man,      \* manifest present?
          lock,     \* holder or "free"
          reads,    \* provider reads so far
          pc, req,  \* per process: position and request
          mine,     \* per process: number of the read it is storing
          got,      \* per process: last outcome seen by its caller
          may,      \* register ghost
          crashes

vars == <<dir, man, lock, reads, pc, req, mine, got, may, crashes>>
Requests == {[force |-> f, dl |-> d, fail |-> x] : f \in BOOLEAN, d \in BOOLEAN, x \in BOOLEAN}
Part0 == -1
NoReq == [force |-> FALSE, dl |-> FALSE, fail |-> FALSE]
NoOut == [out |-> "none", ver |-> 0]

Populating == {"locked", "read", "unman", "rmdir", "part", "full", "unlock"}
InPopulate(p) == pc[p] \in {"unman", "rmdir", "part", "full"}

Init == /\ dir = Nothing /\ man = FALSE /\ lock = "free" /\ reads = 0 /\ crashes = 0
        /\ pc = [p \in Procs |-> "idle"] /\ req = [p \in Procs |-> NoReq]
        /\ mine = [p \in Procs |-> 0] /\ got = [p \in Procs |-> NoOut]
        /\ may = {Nothing}

Quiet(p) == \A q \in Procs \ {p} : pc[q] = "idle"

(* A caller that is not populating while somebody else refreshes is outside this model
   (the code gives readers no lock); refreshes only run against each other.           *)
Begin(p) ==
  /\ pc[p] = "idle"
  /\ \E r \in Requests :
       /\ \/ Quiet(p)
          \/ r.force /\ r.dl /\ \A q \in Procs \ {p} : pc[q] = "idle" \/ (req[q].force /\ req[q].dl)
       /\ req' = [req EXCEPT ![p] = r]
       /\ pc' = [pc EXCEPT ![p] = "check"]
  /\ got' = [got EXCEPT ![p] = NoOut]
  /\ UNCHANGED <<dir, man, lock, reads, mine, may, crashes>>

Finish(p, o, v) == got' = [got EXCEPT ![p] = [out |-> o, ver |-> v]]

Check(p) ==
  /\ pc[p] = "check"
  /\ IF ~req[p].force /\ dir # Nothing /\ man
     THEN /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ IF dir = Part0 THEN Finish(p, "broken", 0) /\ UNCHANGED may
             ELSE Finish(p, "ok", dir) /\ may' = {dir}
     ELSE IF ~req[p].dl
     THEN /\ pc' = [pc EXCEPT ![p] = "idle"] /\ Finish(p, "notcached", 0)
          /\ may' = IF req[p].force THEN may ELSE {Nothing}
     ELSE /\ pc' = [pc EXCEPT ![p] = "want"] /\ UNCHANGED <<got, may>>
  /\ UNCHANGED <<dir, man, lock, reads, req, mine, crashes>>

Want(p) ==
  /\ pc[p] = "want"
  /\ IF lock = "free"
     THEN lock' = p /\ pc' = [pc EXCEPT ![p] = "locked"] /\ UNCHANGED got
     ELSE /\ pc' = [pc EXCEPT ![p] = "idle"] /\ Finish(p, "busy", 0)
          /\ lock' = IF Variant = "drop-any-lock" THEN "free" ELSE lock
  /\ UNCHANGED <<dir, man, reads, req, mine, may, crashes>>

Read(p) ==
  /\ pc[p] = "locked" /\ reads < MaxReads
  /\ reads' = reads + 1
  /\ IF req[p].fail
     THEN /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ Finish(p, "provider", 0)
          /\ may' = IF req[p].force THEN may ELSE {Nothing}
          /\ UNCHANGED mine
     ELSE /\ pc' = [pc EXCEPT ![p] = IF Variant = "stale-manifest" THEN "rmdir" ELSE "unman"]
          /\ mine' = [mine EXCEPT ![p] = reads + 1] /\ UNCHANGED <<got, may>>
  /\ UNCHANGED <<dir, man, lock, req, crashes>>

Unman(p) == /\ pc[p] = "unman" /\ man' = FALSE /\ pc' = [pc EXCEPT ![p] = "rmdir"]
            /\ UNCHANGED <<dir, lock, reads, req, mine, got, may, crashes>>
Rmdir(p) == /\ pc[p] = "rmdir" /\ dir' = Nothing /\ pc' = [pc EXCEPT ![p] = "part"]
            /\ UNCHANGED <<man, lock, reads, req, mine, got, may, crashes>>
Part(p)  == /\ pc[p] = "part" /\ dir' = Part0 /\ pc' = [pc EXCEPT ![p] = "full"]
            /\ UNCHANGED <<man, lock, reads, req, mine, got, may, crashes>>
Full(p)  == /\ pc[p] = "full" /\ dir' = mine[p] /\ pc' = [pc EXCEPT ![p] = "man"]
            /\ UNCHANGED <<man, lock, reads, req, mine, got, may, crashes>>
Man(p)   == /\ pc[p] = "man" /\ man' = TRUE /\ pc' = [pc EXCEPT ![p] = "unlock"]
            /\ may' = {mine[p]} /\ Finish(p, "ok", mine[p])
            /\ UNCHANGED <<dir, lock, reads, req, mine, crashes>>
Unlock(p) == /\ pc[p] = "unlock" /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ lock' = IF lock = p \/ Variant = "drop-any-lock" THEN "free" ELSE lock
             /\ UNCHANGED <<dir, man, reads, req, mine, got, may, crashes>>

(* A process dies: the lock of a dead process does not count; what it may have left in
   the entry is what the register says.                                               *)
Crash(p) ==
  /\ pc[p] # "idle" /\ crashes < MaxCrashes
  /\ crashes' = crashes + 1
  /\ pc' = [pc EXCEPT ![p] = "idle"] /\ got' = [got EXCEPT ![p] = NoOut]
  /\ lock' = IF lock = p THEN "free" ELSE lock
  /\ may' = AfterCrash(may, req[p], mine[p], pc[p] \in {"unman", "rmdir", "part", "full", "man", "unlock"})
  /\ UNCHANGED <<dir, man, reads, req, mine>>

Next == \E p \in Procs : Begin(p) \/ Check(p) \/ Want(p) \/ Read(p) \/ Unman(p) \/ Rmdir(p)
                          \/ Part(p) \/ Full(p) \/ Man(p) \/ Unlock(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Storing(p) == pc[p] \in {"locked", "unman", "rmdir", "part", "full", "man"}
Mutex == \A p, q \in Procs : p # q => ~(Storing(p) /\ Storing(q))
NeverBroken == \A p \in Procs : got[p].out # "broken"
(* what a later access would find is something the register allows *)
Visible == IF man /\ dir # Nothing THEN dir ELSE Nothing
RegisterHolds == (\A p \in Procs : pc[p] \in {"idle", "check"}) => Visible \in may
HolderHasLock == \A p \in Procs : Storing(p) => lock = p
(* nothing left behind by the dead keeps an entry from being provisioned *)
Recoverable == (\A p \in Procs : pc[p] = "idle") => lock = "free"
=============================================================================
