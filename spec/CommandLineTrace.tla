-------------------------- MODULE CommandLineTrace --------------------------
(* t: D (datasets: [id, uri, mod, cat, needs, n]), dirs, lib: [key, ...] answers of the library
   event: k (the command), rc, its arguments, what it said, and what the workspace looked like
   afterwards: reads, cached, dirs, gr, vw.                                              *)
EXTENDS CommandLine, TraceJudge

Ids(t) == {t.D[i].id : i \in 1..Len(t.D)}
D(t, d) == t.D[CHOOSE i \in 1..Len(t.D) : t.D[i].id = d]
Rng(q) == {q[i] : i \in 1..Len(q)}
World(t, e) == [needs |-> {d \in Ids(t) : D(t, d).needs}, ignore |-> e.ignore]
Asked(t, k) == \E i \in 1..Len(t.lib) : t.lib[i].key = k
Lib(t, k) == t.lib[CHOOSE i \in 1..Len(t.lib) : t.lib[i].key = k]

CStart0(t) == [got |-> [d \in Ids(t) |-> 0], reads |-> [d \in Ids(t) |-> 0], fail |-> {},
               dirs |-> [x \in Rng(t.dirs) |-> <<>>], gr |-> {}, vw |-> {}]

CatalogOrder(t, mods) == SelectSeq(t.order, LAMBDA d : mods = <<>> \/ D(t, d).mod \in Rng(mods))
World0(t) == [needs |-> {d \in Ids(t) : D(t, d).needs}, ignore |-> TRUE]

\* the state after a command, whether it must succeed, and what it is about
Run(t, s, e) ==
  CASE e.k = "break" -> [ok |-> TRUE, s |-> [s EXCEPT !.fail = IF e.on THEN @ \union {e.ds} ELSE @ \ {e.ds}]]
    [] e.k = "download" -> LET g == Get(World(t, e), s, e.ds, e.force) IN
         [ok |-> g.ok \/ (g.extra /\ e.ignore), s |-> g.s, said |-> IF g.ok THEN "Downloaded" ELSE IF g.extra /\ e.ignore THEN "Skipped" ELSE ""]
    [] e.k = "all" -> LET g == GetAll(World(t, e), s, CatalogOrder(t, e.mods), e.force, e.skip, Zero) IN
         [ok |-> ~g.stop /\ g.n.failed = 0, s |-> g.s, stop |-> g.stop, n |-> g.n]
    [] e.k = "ls" -> [ok |-> TRUE, s |-> s]
    [] e.k = "purge" -> LET V == {d \in Cached(s) : D(t, d).uri = e.uri} IN [ok |-> TRUE, s |-> Purged(s, V), n |-> Cardinality(V)]
    [] e.k = "purgefp" -> [ok |-> TRUE, s |-> Purged(s, {e.ds} \cap Ids(t))]
    [] e.k = "gc" -> [ok |-> TRUE, s |-> s]
    [] e.k = "create" ->
         LET g == Get(World0(t), s, e.ds, FALSE)
             key == Key("split", g.s, e) IN
         IF ~e.wellformed \/ ~g.ok THEN [ok |-> FALSE, s |-> g.s, key |-> <<>>]
         ELSE IF Lib(t, key).err # "" \/ (s.dirs[e.out] # <<>> /\ ~e.overwrite) THEN [ok |-> FALSE, s |-> g.s, key |-> key]
         ELSE [ok |-> TRUE, s |-> [g.s EXCEPT !.dirs[e.out] = key], key |-> key]
    [] e.k = "show" -> [ok |-> s.dirs[e.out] # <<>>, s |-> s]
    [] e.k = "validate" -> [ok |-> e.ds \in Cached(s) /\ s.dirs[e.out] # <<>> /\ D(t, e.ds).n >= D(t, s.dirs[e.out][2]).n, s |-> s]
    [] e.k \in {"prep", "graph", "views"} ->
         LET g == Get(World0(t), s, e.ds, FALSE)
             key == Key(e.k, g.s, e) IN
         IF ~e.wellformed \/ ~g.ok THEN [ok |-> FALSE, s |-> g.s, key |-> <<>>]
         ELSE IF Lib(t, key).err # "" THEN [ok |-> FALSE, s |-> g.s, key |-> key]
         ELSE [ok |-> TRUE, key |-> key,
               s |-> CASE e.k = "graph" /\ e.cache /\ ~e.elsewhere -> [g.s EXCEPT !.gr = @ \union {Lib(t, key).fp}]
                       [] e.k = "views" /\ e.cache /\ ~e.elsewhere -> [g.s EXCEPT !.vw = @ \union {Lib(t, key).fp}]
                       [] OTHER -> g.s]
    [] e.k = "gls" -> [ok |-> TRUE, s |-> s]
    [] e.k = "vls" -> [ok |-> TRUE, s |-> s]
    [] e.k = "gpurge" -> [ok |-> TRUE, s |-> [s EXCEPT !.gr = {}], n |-> Cardinality(s.gr)]
    [] e.k \in {"eval", "ask"} -> [ok |-> Lib(t, e.key).err = "", s |-> s, key |-> e.key]

Maybe(t, s, e, r) ==  \* a views build may keep the graph it needed
  IF e.k = "views" /\ r.key # <<>> /\ Lib(t, r.key).err = "" THEN {Lib(t, r.key).gfp} ELSE {}

Settled(t, s, e, r) ==
  CASE e.k \in {"create", "prep", "graph", "views"} /\ e.wellformed -> LET g == Get(World0(t), s, e.ds, FALSE) IN g.ok => Asked(t, Key(IF e.k = "create" THEN "split" ELSE e.k, g.s, e))
    [] OTHER -> TRUE

NAnswer(t, s, e) ==  \* what it printed, when it succeeded
  LET r == Run(t, s, e) IN
  CASE e.k = "download" -> e.said = r.said
    [] e.k = "all" -> e.counts = <<r.n.down, r.n.skipped, r.n.missing, r.n.failed>>
    [] e.k = "ls" -> Rng(e.listed) = Cached(s) /\ Len(e.listed) = Cardinality(Cached(s))
    [] e.k = "purge" -> e.n = r.n
    [] e.k = "gc" -> e.n = 0
    [] e.k = "create" -> e.val = Lib(t, r.key).fp
    [] e.k = "show" -> e.val = Lib(t, s.dirs[e.out]).show
    [] e.k = "prep" -> e.val = Lib(t, r.key).val /\ e.kept = e.cache
    [] e.k = "graph" -> e.val = Lib(t, r.key).val
    [] e.k = "views" -> e.val = Lib(t, r.key).val
    [] e.k = "gls" -> Rng(e.listed) = s.gr
    [] e.k = "vls" -> Rng(e.listed) = s.vw
    [] e.k = "gpurge" -> e.n = r.n
    [] e.k \in {"eval", "ask"} -> e.val = Lib(t, e.key).val
    [] OTHER -> TRUE

Left(t, s, e) ==
  LET r == Run(t, s, e)
      n == r.s
      may == Maybe(t, s, e, r) IN
  /\ \A i \in 1..Len(t.D) : e.reads[i] = n.reads[t.D[i].id]
  /\ Rng(e.cached) = Cached(n)
  /\ \A i \in 1..Len(t.dirs) : LET k == n.dirs[t.dirs[i]] IN e.dirs[i] = (IF k = <<>> THEN "none" ELSE Lib(t, k).body)
  /\ n.gr \subseteq Rng(e.gr) /\ Rng(e.gr) \subseteq n.gr \union may
  /\ Rng(e.vw) = n.vw

NClause(t, s, e) ==
  LET r == Run(t, s, e) IN
  IF ~Settled(t, s, e, r) THEN "TheLibraryWasAsked"
  ELSE IF e.k # "break" /\ (e.rc = 0) # r.ok THEN (IF e.rc = 0 THEN "FailuresShow" ELSE "DoesWhatTheLibraryDoes")
  ELSE IF ~Left(t, s, e) THEN "LeavesWhatTheLibraryWould"
  ELSE IF r.ok /\ ~NAnswer(t, s, e) THEN "SaysWhatTheLibrarySays"
  ELSE IF e.k = "all" /\ ~r.stop /\ ~NAnswer(t, s, e) THEN "SaysWhatTheLibrarySays"
  ELSE "ok"

NStep(t, s, e) == [Run(t, s, e).s EXCEPT !.gr = Rng(e.gr)]
=============================================================================
