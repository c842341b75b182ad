-------------------------- MODULE CommandLineModel --------------------------
(* Every history of a small workspace: three datasets (one needing an extra), two split
   directories, two plans of which one no dataset can satisfy, providers that break.

   Obs[d] names the split stored in a directory: <<dataset, read, plan>>; a stored split stays
   as it was, whatever happens to the cache or to the dataset afterwards.                    *)
EXTENDS CommandLine

CONSTANTS MaxReads, Steps, EarlyWrite, LooseSkip

Ds == {"one", "two", "zneeds"}
Dirs == {"a", "b"}
Order == <<"one", "two", "zneeds">>
W(ignore) == [needs |-> {"zneeds"}, ignore |-> ignore]
Good(plan) == plan = "0"

VARIABLES s, hist, last
vars == <<s, hist, last>>

Init == /\ s = [got |-> [d \in Ds |-> 0], reads |-> [d \in Ds |-> 0], fail |-> {}, dirs |-> [x \in Dirs |-> <<>>], gr |-> {}, vw |-> {}]
        /\ hist = 0
        /\ last = [k |-> "start", ok |-> TRUE, before |-> s, n |-> Zero, out |-> "", ds |-> "", key |-> <<>>]

Did(k, ok, n, out, ds, key, to) == /\ hist' = hist + 1 /\ s' = to /\ last' = [k |-> k, ok |-> ok, before |-> s, n |-> n, out |-> out, ds |-> ds, key |-> key]

Break(d) == Did("break", TRUE, Zero, "", d, <<>>, [s EXCEPT !.fail = IF d \in @ THEN @ \ {d} ELSE @ \union {d}])
Download(d, force) == LET g == Get(W(TRUE), s, d, force) IN Did("download", g.ok, Zero, "", d, <<>>, g.s)
All(force, skip, ignore) ==
  LET g == GetAll(W(ignore), s, Order, force, skip, Zero)
  IN Did("all", (~g.stop /\ g.n.failed = 0) \/ LooseSkip, g.n, "", "", <<>>, g.s)
Purge(d) == Did("purge", TRUE, Zero, "", d, <<>>, Purged(s, {d}))
Create(d, plan, out, overwrite) ==
  LET g == Get(W(TRUE), s, d, FALSE)
      key == <<d, g.s.got[d], plan>>
      refused == ~g.ok \/ ~Good(plan) \/ (s.dirs[out] # <<>> /\ ~overwrite)
      touched == IF EarlyWrite /\ overwrite THEN [g.s EXCEPT !.dirs[out] = <<>>] ELSE g.s
  IN Did("create", ~refused, Zero, out, d, key, IF refused THEN touched ELSE [g.s EXCEPT !.dirs[out] = key])
Build(d) ==
  LET g == Get(W(TRUE), s, d, FALSE) IN
  Did("graph", g.ok, Zero, "", d, <<d, g.s.got[d]>>, IF g.ok THEN [g.s EXCEPT !.gr = @ \union {<<d, g.s.got[d]>>}] ELSE g.s)
PurgeGraphs == Did("gpurge", TRUE, Zero, "", "", <<>>, [s EXCEPT !.gr = {}])

Next == /\ hist < Steps
        /\ \A d \in Ds : s.reads[d] < MaxReads
        /\ \/ \E d \in Ds : Break(d) \/ Purge(d) \/ Build(d) \/ \E f \in BOOLEAN : Download(d, f)
           \/ \E f, k, i \in BOOLEAN : All(f, k, i)
           \/ \E d \in Ds, p \in {"0", "1"}, x \in Dirs, o \in BOOLEAN : Create(d, p, x, o)
           \/ PurgeGraphs
Spec == Init /\ [][Next]_vars

(* a command that fails leaves directories and graphs alone, and forgets no dataset *)
FailureIsSafe == ~last.ok => /\ s.dirs = last.before.dirs /\ s.gr = last.before.gr
                            /\ \A d \in Ds : last.before.got[d] > 0 => s.got[d] > 0
(* ... and one that exits 0 has done it *)
DoneMeansDone ==
  /\ last.k = "download" /\ last.ok => s.got[last.ds] > 0
  /\ last.k = "create" /\ last.ok => s.dirs[last.out] = last.key /\ last.key[2] = s.got[last.ds] /\ s.got[last.ds] > 0
  /\ last.k = "all" /\ last.ok => \A d \in Ds \ {"zneeds"} : s.got[d] > 0
  /\ last.k = "all" /\ last.ok => last.n.failed = 0 /\ last.n.down + last.n.skipped + last.n.missing = Cardinality(Ds)
(* what is cached was read, and is the latest read that worked *)
CacheIsARead == \A d \in Ds : s.got[d] <= s.reads[d]
(* a stored split only ever changes through create *)
SplitsAreKept == last.k # "create" => s.dirs = last.before.dirs
(* a dataset needing an extra is never cached *)
NoExtraNoData == s.got["zneeds"] = 0
=============================================================================
