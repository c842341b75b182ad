------------------------------ MODULE PlanText ------------------------------
(* What a plan written as text means.  A plan is a sequence of sections

       [kind, at, put]      put: sequence of <<field, token>> pairs, in the order written

   (at: which view of a views plan the section belongs to, 0 otherwise).  A section's meaning
   is total: every field of its kind has the value written, or its default.  A plan that
   names an unknown field or choice, names a step twice differently or not at all, ... means
   nothing: it is refused.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Open == {}
YesNo == {"true", "false"}

\* <<field, default, choices>>; a default "!" must be written
Fields(kind) ==
  CASE kind = "holdout" -> {<<"kind", "\"holdout\"", {"\"holdout\""}>>, <<"test_fraction", "0.2", Open>>,
                            <<"val_fraction", "0.1", Open>>, <<"stratify", "true", YesNo>>, <<"shuffle", "true", YesNo>>}
    [] kind = "kfold" -> {<<"kind", "!", {"\"kfold\""}>>, <<"k", "5", Open>>, <<"fold", "0", Open>>,
                          <<"stratify", "true", YesNo>>, <<"shuffle", "true", YesNo>>, <<"val_fraction", "0", Open>>}
    [] kind = "labeling" -> {<<"mode", "\"fraction\"", {"\"fraction\"", "\"count\"", "\"per_class\""}>>, <<"value", "0.1", Open>>,
                             <<"per_class", "false", YesNo>>, <<"min_per_class", "1", Open>>,
                             <<"strategy", "\"proportional\"", {"\"proportional\"", "\"balanced\""}>>,
                             <<"fixed_indices", "null", Open>>}
    [] kind = "imbalance" -> {<<"kind", "\"none\"", {"\"none\"", "\"subsample_max_per_class\"", "\"long_tail\""}>>,
                              <<"apply_to", "\"train\"", {"\"train\"", "\"labeled\""}>>, <<"max_per_class", "null", Open>>,
                              <<"alpha", "null", Open>>, <<"min_per_class", "1", Open>>}
    [] kind = "policy" -> {<<"respect_official_test", "true", YesNo>>, <<"use_official_graph_masks", "true", YesNo>>,
                           <<"allow_override_official", "false", YesNo>>}
    [] kind = "pre.plan" -> {<<"output_key", "\"features.X\"", Open>>}
    [] kind = "pre.step" -> {<<"id", "!", Open>>, <<"params", "{}", Open>>, <<"modalities", "[]", Open>>,
                             <<"requires_fields", "[]", Open>>, <<"enabled", "true", YesNo>>}
    [] kind = "aug.step" -> {<<"id", "!", Open>>, <<"params", "{}", Open>>}
    [] kind = "view" -> {<<"name", "!", Open>>, <<"meta", "null", Open>>}
    [] kind = "columns" -> {<<"mode", "\"all\"", {"\"all\"", "\"indices\"", "\"random\"", "\"complement\""}>>, <<"indices", "[]", Open>>,
                            <<"fraction", "0.5", Open>>, <<"complement_of", "null", Open>>, <<"seed_offset", "0", Open>>}
    [] kind = "graph" -> {<<"scheme", "\"knn\"", {"\"knn\"", "\"epsilon\"", "\"anchor\""}>>,
                          <<"metric", "\"cosine\"", {"\"cosine\"", "\"euclidean\""}>>, <<"k", "!", Open>>, <<"radius", "null", Open>>,
                          <<"symmetrize", "\"mutual\"", {"\"none\"", "\"or\"", "\"mutual\""}>>,
                          <<"normalize", "\"rw\"", {"\"none\"", "\"rw\"", "\"sym\""}>>, <<"self_loops", "true", YesNo>>,
                          <<"backend", "\"auto\"", {"\"auto\"", "\"numpy\"", "\"sklearn\"", "\"faiss\""}>>, <<"chunk_size", "512", Open>>,
                          <<"feature_field", "\"features.X\"", Open>>, <<"n_anchors", "null", Open>>, <<"anchors_k", "5", Open>>,
                          <<"anchors_method", "\"random\"", Open>>, <<"candidate_limit", "1000", Open>>,
                          <<"faiss_exact", "false", YesNo>>, <<"faiss_hnsw_m", "32", Open>>, <<"faiss_ef_search", "64", Open>>,
                          <<"faiss_ef_construction", "200", Open>>}
    [] kind = "weights" -> {<<"kind", "!", {"\"binary\"", "\"heat\"", "\"cosine\""}>>, <<"sigma", "null", Open>>}
    [] kind = "featurizer" -> {<<"views", "[\"attr\"]", Open>>, <<"diffusion_steps", "5", Open>>, <<"diffusion_alpha", "0.1", Open>>,
                               <<"struct_method", "\"deepwalk\"", {"\"deepwalk\"", "\"node2vec\""}>>, <<"struct_dim", "64", Open>>,
                               <<"walk_length", "40", Open>>, <<"num_walks_per_node", "10", Open>>, <<"window_size", "5", Open>>,
                               <<"p", "1", Open>>, <<"q", "1", Open>>, <<"cache", "true", YesNo>>}
    [] OTHER -> {}

Known == {"holdout", "kfold", "labeling", "imbalance", "policy", "pre.plan", "pre.step", "aug.step", "view", "columns",
          "graph", "weights", "featurizer"}
Names(kind) == {f[1] : f \in Fields(kind)}
Canon(f) == IF f \in {"step_id", "op_id"} THEN "id" ELSE f
Alias(kind) == IF kind = "pre.step" THEN {"step_id"} ELSE IF kind = "aug.step" THEN {"op_id"} ELSE {}

Written(sec) == {Canon(sec.put[i][1]) : i \in 1..Len(sec.put)}
\* null stands for "not written" where the field is a list, a mapping or optional
Null(sec, i) == sec.put[i][2] = "null" /\ sec.put[i][1] \in {"id", "step_id", "op_id", "params", "modalities", "requires_fields", "indices", "complement_of", "meta"}
Given(sec, f) == {sec.put[i][2] : i \in {j \in 1..Len(sec.put) : Canon(sec.put[j][1]) = f /\ ~Null(sec, j)}}
Default(kind, f) == (CHOOSE g \in Fields(kind) : g[1] = f)[2]
Value(sec, f) == IF Given(sec, f) = {} THEN Default(sec.kind, f) ELSE CHOOSE v \in Given(sec, f) : TRUE
Meaning(sec) == [kind |-> sec.kind, at |-> sec.at, put |-> [f \in Names(sec.kind) |-> Value(sec, f)]]

FieldsKnown(sec) == \A i \in 1..Len(sec.put) : sec.put[i][1] \in Names(sec.kind) \union Alias(sec.kind)
OneValue(sec) == \A f \in Written(sec) : Cardinality(Given(sec, f)) <= 1
MustHaves(sec) == \A f \in Fields(sec.kind) : f[2] = "!" => Given(sec, f[1]) \notin {{}, {"\"\""}}
Choices(sec) == \A f \in Fields(sec.kind) : f[3] = Open \/ Value(sec, f[1]) \in f[3]
V(sec, f) == Value(sec, f)
Coherent(sec) ==
  CASE sec.kind = "columns" ->
        /\ V(sec, "mode") = "\"indices\"" => V(sec, "indices") # "[]"
        /\ V(sec, "mode") = "\"complement\"" => V(sec, "complement_of") # "null"
        /\ V(sec, "mode") = "\"random\"" => V(sec, "fraction") \in {"0.25", "0.5", "0.75", "1"}
    [] sec.kind = "graph" ->
        /\ V(sec, "scheme") \in {"\"knn\"", "\"anchor\""} => V(sec, "k") \notin {"null", "0", "-3"}
        /\ V(sec, "scheme") = "\"epsilon\"" => V(sec, "radius") \notin {"null", "0", "-0.5"} /\ V(sec, "backend") # "\"faiss\""
        /\ V(sec, "scheme") = "\"anchor\"" => V(sec, "anchors_method") \in {"\"random\"", "\"kmeans\""}
    [] OTHER -> TRUE

SectionOk(sec) == /\ sec.kind \in Known /\ FieldsKnown(sec) /\ OneValue(sec) /\ MustHaves(sec) /\ Choices(sec) /\ Coherent(sec)

\* sections that speak about each other
Of(doc, kind) == {i \in 1..Len(doc) : doc[i].kind = kind}
ViewsOk(doc) ==
  LET vs == Of(doc, "view")  cs == Of(doc, "columns")
      name(i) == V(doc[i], "name") IN
  /\ Cardinality(vs) >= 2
  /\ \A i, j \in vs : i # j => name(i) # name(j)
  /\ \A c \in cs : V(doc[c], "mode") = "\"complement\""
        => \E i \in vs : doc[i].at < doc[c].at /\ name(i) = V(doc[c], "complement_of")
GraphOk(doc) ==
  \A g \in Of(doc, "graph") : \A w \in Of(doc, "weights") :
    /\ V(doc[w], "kind") = "\"heat\"" => V(doc[w], "sigma") \notin {"null", "0", "-1"}
    /\ V(doc[w], "kind") = "\"cosine\"" => V(doc[g], "metric") = "\"cosine\""

Accepted(what, doc) ==
  /\ \A i \in 1..Len(doc) : SectionOk(doc[i])
  /\ what = "views" => ViewsOk(doc)
  /\ what = "graph" => GraphOk(doc)
Plan(doc) == [i \in 1..Len(doc) |-> Meaning(doc[i])]

\* every field written out: what a plan prints itself as
Spelt(sec) == Written(sec) = Names(sec.kind) \* (nothing is left to a default)
=============================================================================
