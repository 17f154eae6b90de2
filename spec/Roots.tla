------------------------------- MODULE Roots -------------------------------
(* The root operation types of the subgraphs and of the composed graph.    *)
(* A subgraph gives its roots any names, in a schema definition or in      *)
(* extensions of it; the composed graph has them under the default names,  *)
(* together with everything that refers to them. Types of other subgraphs  *)
(* that happen to have a root's name are other types.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Random
VARIABLES sgs, dice
Ops == <<"query", "mutation", "subscription">>
Default == [query |-> "Query", mutation |-> "Mutation", subscription |-> "Subscription"]
Defaults == {"Query", "Mutation", "Subscription"}
\* how the subgraph says what its roots are
Hows == <<"default", "definition", "extension", "both", "extensions">>
\* names of the query, mutation and subscription types; "" for none
Names == << <<"Query", "Ops", "RootQ", "">>, <<"", "Mutation", "Ops", "RootM">>, <<"", "Subscription", "RootS", "Ops">> >>
\* another type of the subgraph
Strays == << <<"", "">>, <<"object", "Ops">>, <<"object", "RootQ">>, <<"object", "RootM">>, <<"object", "Query">>, <<"object", "Mutation">>,
             <<"interface", "Query">>, <<"enum", "Mutation">>, <<"input", "Subscription">>, <<"scalar", "Query">>, <<"union", "Subscription">>, <<"enum", "Query">> >>
\* what refers to the roots
Refs == {"self", "back", "union", "implements", "entity", "cross", "extended"}
RefSets == << {}, {"self"}, {"back"}, {"union"}, {"implements"}, {"entity"}, {"cross"}, {"extended"}, {"self", "union", "implements"}, {"back", "entity", "cross"},
              {"self", "extended", "union"}, Refs >>

Root(s, i) == s.names[i]
RootsOf(s) == { i \in 1..3 : s.names[i] # "" }
\* the type of a subgraph is the root of ...
OpOf(s, n) == { i \in RootsOf(s) : s.names[i] = n }
WellFormed(s) ==
  /\ \A i, j \in RootsOf(s) : i # j => s.names[i] # s.names[j]
  /\ s.how = "default" => \A i \in RootsOf(s) : s.names[i] = Default[Ops[i]]
  \* a definition or extension needs something to say
  /\ s.how \in {"definition", "both", "extensions"} => RootsOf(s) # {}
  /\ s.how = "both" => Cardinality(RootsOf(s)) > 1
  /\ s.how = "extension" => \E i \in RootsOf(s) : s.names[i] # Default[Ops[i]]
  \* the other type is another type. An object with the default name of an operation without a root is its root where nothing lists the roots
  /\ s.stray[2] # "" => OpOf(s, s.stray[2]) = {}
  /\ s.stray[1] = "object" /\ s.stray[2] \in Defaults => \E i \in RootsOf(s) : Default[Ops[i]] = s.stray[2]
  /\ s.stray = <<"", "">> \/ s.how # "default" \/ s.stray[1] # "object" \/ s.stray[2] \notin Defaults
  \* a name that is the default of another operation is confusing and refused; these subgraphs do not do that
  /\ \A i \in RootsOf(s) : \A j \in 1..3 : s.names[i] = Default[Ops[j]] => i = j
  /\ RootsOf(s) = {} => s.refs = {}

\* A type with the default name of a root that is not that root
Misnamed(s) == s.stray[2] \in Defaults
NoRoot(ss) == \A i \in DOMAIN ss : RootsOf(ss[i]) = {}
Refused(ss) == NoRoot(ss) \/ \E i \in DOMAIN ss : Misnamed(ss[i])

\* The name in the composed graph of a subgraph's type
Canon(s, n) == IF OpOf(s, n) # {} THEN Default[Ops[CHOOSE i \in OpOf(s, n) : TRUE]] ELSE n
Letter == <<"a", "b", "c">>
\* the first root of a subgraph, the one that others refer to
First(s) == s.names[CHOOSE i \in RootsOf(s) : \A j \in RootsOf(s) : i <= j]
\* the fields of subgraph k, as <<type, field, type of the field>>, by the names of the subgraph
Fields(s, k) ==
  LET x == Letter[k]
      T == "T" \o x
      each == { <<s.names[i], Ops[i] \o "_" \o x, "Int">> : i \in RootsOf(s) } \cup { <<T, "t_" \o x, "Int">> }
      stray == IF s.stray[1] \in {"object", "interface"} THEN { <<s.stray[2], "n_" \o x, "Int">>, <<T, "stray_" \o x, s.stray[2]>> } ELSE {}
      R == First(s)
      ref(r) == CASE r = "self" -> { <<R, "self_" \o x, R>> }
                  [] r = "back" -> { <<T, "back_" \o x, R>> }
                  [] r = "union" -> { <<T, "union_" \o x, "U" \o x>> }
                  [] r = "implements" -> { <<"I" \o x, "i_" \o x, R>>, <<R, "i_" \o x, R>> }
                  [] r = "entity" -> { <<"E", "id", "ID">>, <<"E", "e_" \o x, R>>, <<R, "entity_" \o x, "E">> }
                  [] r = "cross" -> { <<s.names[i], "cross_" \o Ops[i] \o "_" \o x, s.names[j]>> : i \in RootsOf(s), j \in RootsOf(s) }
                  [] r = "extended" -> { <<R, "ext_" \o x, T>> }
  IN each \cup stray \cup UNION { ref(r) : r \in s.refs }
\* "cross" goes from every root to the last one
Last(s) == s.names[CHOOSE i \in RootsOf(s) : \A j \in RootsOf(s) : j <= i]
OwnFields(s, k) == { f \in Fields(s, k) : "cross" \in s.refs /\ (\E i \in RootsOf(s) : f[2] = "cross_" \o Ops[i] \o "_" \o Letter[k]) => f[3] = Last(s) }
Composed(ss) == UNION { { <<Canon(ss[k], f[1]), f[2], Canon(ss[k], f[3])>> : f \in OwnFields(ss[k], k) } : k \in DOMAIN ss }
Owners(ss, f) == { Letter[k] : k \in { j \in DOMAIN ss : f \in { <<Canon(ss[j], g[1]), g[2], Canon(ss[j], g[3])>> : g \in OwnFields(ss[j], j) } } }
Members(ss) == UNION { IF "union" \in ss[k].refs THEN { <<"U" \o Letter[k], Canon(ss[k], First(ss[k]))>>, <<"U" \o Letter[k], "T" \o Letter[k]>> } ELSE {} : k \in DOMAIN ss }
Implements(ss) == UNION { IF "implements" \in ss[k].refs THEN { <<Canon(ss[k], First(ss[k])), "I" \o Letter[k]>> } ELSE {} : k \in DOMAIN ss }

Out(ss) == [sgs |-> [k \in DOMAIN ss |-> [s |-> ss[k], fields |-> OwnFields(ss[k], k), first |-> IF RootsOf(ss[k]) = {} THEN "" ELSE First(ss[k])]],
            refused |-> Refused(ss), none |-> NoRoot(ss),
            fields |-> IF Refused(ss) THEN {} ELSE { <<f[1], f[2], f[3], Owners(ss, f)>> : f \in Composed(ss) },
            members |-> IF Refused(ss) THEN {} ELSE Members(ss), implements |-> IF Refused(ss) THEN {} ELSE Implements(ss)]
Sg(h, q, m, u, st, r) == [how |-> Hows[h], names |-> <<Names[1][q], Names[2][m], Names[3][u]>>, stray |-> Strays[st], refs |-> RefSets[r]]
Init == sgs = <<>> /\ dice = <<>>
\* one subgraph after the other, every one there is
Add == /\ ~Random /\ Len(sgs) < N
       /\ \E h \in DOMAIN Hows, q, m, u \in 1..4, st \in DOMAIN Strays, r \in DOMAIN RefSets :
            LET s == Sg(h, q, m, u, st, r) IN
            /\ (Len(sgs) > 0 => (h \in {1, 2} /\ r \in {1, 9} /\ u = 1 /\ m \in {1, 3} /\ st \in {1, 2, 5, 7}))
            /\ WellFormed(s)
            /\ sgs' = Append(sgs, s)
            /\ UNCHANGED dice
            /\ PrintT("CASE " \o ToJson(Out(sgs')))
Throw == /\ Random
         /\ dice' = TLCEval([k \in 1..(6 * N + 1) |-> RandomElement(0..(9999 + Len(sgs)))])
         /\ LET D(k, n) == (dice'[k] % n) + 1
                n == 2 + (dice'[6 * N + 1] % (N - 1))
                raw == [j \in 1..n |-> Sg(D(6 * j - 5, 5), D(6 * j - 4, 4), D(6 * j - 3, 4), D(6 * j - 2, 4),
                          IF D(6 * j - 1, 9) < 7 THEN D(6 * j - 1, 4) ELSE D(6 * j - 1, Len(Strays)), D(6 * j, Len(RefSets)))]
            IN /\ sgs' = TLCEval(SelectSeq(raw, WellFormed))
               /\ (Len(sgs') > 0 => PrintT("CASE " \o ToJson(Out(sgs'))))
Next == Add \/ Throw

\* The composed graph knows roots by their default names alone: calling a root otherwise changes nothing
Plain(s) == [s EXCEPT !.names = [i \in 1..3 |-> IF s.names[i] = "" THEN "" ELSE Default[Ops[i]]]]
NamesDoNotMatter == (sgs # <<>> /\ ~Refused(sgs) /\ \A i \in DOMAIN sgs : sgs[i].stray[2] = "") =>
  LET p == [i \in DOMAIN sgs |-> Plain(sgs[i])] IN Composed(p) = Composed(sgs) /\ Members(p) = Members(sgs) /\ Implements(p) = Implements(sgs)
\* Nothing of a root is left under its own name, unless another type is called that
NoTrace == (sgs # <<>> /\ ~Refused(sgs)) => \A f \in Composed(sgs) : \A n \in {f[1], f[3]} :
  n \in {"Ops", "RootQ", "RootM", "RootS"} => \E i \in DOMAIN sgs : sgs[i].stray[2] = n
=============================================================================
