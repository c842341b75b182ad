--------------------------- MODULE GraphFeatTrace ---------------------------
(* G03.  event: [k: "cold" | "run" | "crash" | "harm", key, val, err, own, rows, cols] over one views cache
   (key: features, edges, weights, parameters and seed), or a view and its definition:
   [k: "attr", same], [k: "diffusion", edges, w, X, S, an, ad, hs], [k: "struct", n, edges, bias, len, win, gram, f],
   [k: "graphonly", same]  (structural features of a dataset with other features on the same graph) *)
EXTENDS TraceJudge, GraphFeat, Memo

FStart(t) == {}
FStep(t, s, e) == IF e.k = "cold" THEN Remember(s, e.key, e.val) ELSE s

FClause(t, s, e) ==
  CASE e.k \in {"crash", "harm"} -> "ok"
    [] e.k = "cold" -> IF e.err # "" THEN "FeaturesAreComputed"
                       ELSE IF ~e.rows THEN "OneRowPerNode"
                       ELSE IF ~Agrees(s, e.key, e.val) THEN "SameInputsSameFeatures" ELSE "ok"
    [] e.k = "run" -> IF e.err # "" THEN "FeaturesAreComputed"
                      ELSE IF ~e.rows THEN "OneRowPerNode"
                      ELSE IF e.val # ValueOf(s, e.key) THEN "CachedFeaturesAreTheDatasets"
                      ELSE IF ~e.own THEN "LabelsAndMasksAreTheDatasets" ELSE "ok"
    [] e.k = "attr" -> IF e.same THEN "ok" ELSE "AttributesAreTheFeatures"
    [] e.k = "graphonly" -> IF e.same THEN "ok" ELSE "StructureIgnoresFeatures"
    [] e.k = "diffusion" ->
         IF e.hs[1] # [i \in 1..Len(e.X) |-> [c \in 1..Len(e.X[i]) |-> e.S * e.X[i][c]]] THEN "DiffusionStartsAtTheFeatures"
         ELSE IF \A x \in 1..(Len(e.hs) - 1) : Diffused(e.edges, e.w, e.X, e.S, e.an, e.ad, e.hs[x], e.hs[x + 1], e.tol) THEN "ok"
         ELSE "DiffusionStep"
    [] e.k = "struct" ->
         IF ~OnlyJoined(e.n, e.edges, e.bias, e.len, e.win, e.gram) THEN "OnlyNodesOnACommonWalkAreRelated"
         ELSE IF e.fun /\ ~ClearlyJoined(e.n, [i \in 0..(e.n - 1) |-> e.f[i + 1]], e.len, e.win, e.gram) THEN "WalkCountsAsDefined"
         ELSE "ok"
=============================================================================
