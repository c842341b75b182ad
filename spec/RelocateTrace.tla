---------------------------- MODULE RelocateTrace ----------------------------
(* store: root, below, vals (what the provider returned, as paths), other (digest of the rest)
   load:  root, vals, other, err   read from the cache at `root`, downloading forbidden
   again: as store: the entry was refreshed where the cache now is                         *)
EXTENDS Relocate, TraceJudge
RStart(t) == [root |-> <<>>, below |-> <<>>, vals |-> <<>>, other |-> ""]
RClause(t, s, e) ==
  IF e.err # "" THEN "MovedEntryIsServed"
  ELSE IF e.k = "store" THEN "ok"
  ELSE IF e.other # s.other THEN "NothingElseChanges"
  ELSE IF Len(e.vals) # Len(s.vals) THEN "EverySampleIsThere"
  ELSE IF \E i \in DOMAIN e.vals : e.vals[i] # Served(s.vals[i], s.root, e.root, s.below)
       THEN IF t.media THEN "PathsFollowTheCache" ELSE "OtherDataIsServedAsStored"
  ELSE IF t.media /\ ~e.exist THEN "PathsNameExistingFiles"
  ELSE "ok"
RStep(t, s, e) == IF e.k = "store" THEN [root |-> e.root, below |-> e.below, vals |-> e.vals, other |-> e.other] ELSE s
=============================================================================
