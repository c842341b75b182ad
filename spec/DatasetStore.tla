---------------------------- MODULE DatasetStore ----------------------------
(* Many cached entries: each identity has its own register (DatasetRegister), filled by
   numbered provider reads.  A read made for one identity is never served for another.  *)
EXTENDS DatasetRegister, TLC

HaveOf(have, id) == IF id \in DOMAIN have THEN have[id] ELSE Nothing

(* what a (crash-free) request may lead to *)
Answers(have, id, req, r) == Outcomes({HaveOf(have, id)}, req, r)
After(have, id, o) == (id :> (CHOOSE v \in o.may : TRUE)) @@ have
=============================================================================
