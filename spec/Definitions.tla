----------------------------- MODULE Definitions --------------------------
(* Merging the definitions of a composed directive: each subgraph adds its *)
(* own, and the outcome is the merged definition or a conflict.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Small
VARIABLES defs, out

A(n, t, d) == [n |-> n, t |-> t, def |-> d]
Arg(n) == IF Small /\ n = "b" THEN { <<>>, <<A("b", "Int!", "")>>, <<A("b", "String", "")>> }
          ELSE { <<>>, <<A(n, "Int", "")>>, <<A(n, "Int!", "")>>, <<A(n, "Int", "1")>>, <<A(n, "Int", "2")>>, <<A(n, "String", "")>>, <<A(n, "[Int]", "")>>, <<A(n, "[Int!]", "[1]")>> }
ArgLists == { x \o y : x \in Arg("a"), y \in Arg("b") } \cup (IF Small THEN {} ELSE { y \o x : x \in {<<A("a", "Int", "")>>}, y \in Arg("b") })
Locations == { {"OBJECT"}, {"FIELD_DEFINITION", "OBJECT"}, {"OBJECT", "SCALAR", "QUERY"} }
Defs == { [here |-> TRUE, args |-> a, locs |-> l, rep |-> r] : a \in ArgLists, l \in Locations, r \in BOOLEAN }
None == [here |-> FALSE, args |-> <<>>, locs |-> {}, rep |-> FALSE]

Names(d) == { d.args[i].n : i \in DOMAIN d.args }
ArgOf(d, n) == d.args[CHOOSE i \in DOMAIN d.args : d.args[i].n = n]
Required(a) == a.t \in {"Int!"}
Conflict(d, e) ==
  \/ d.rep # e.rep
  \/ \E n \in Names(d) \cap Names(e) : ArgOf(d, n) # ArgOf(e, n)
  \/ \E n \in Names(d) \ Names(e) : Required(ArgOf(d, n))
  \/ \E n \in Names(e) \ Names(d) : Required(ArgOf(e, n))
Present(ds) == { i \in DOMAIN ds : ds[i].here }
Merge(ds) ==
  LET p == Present(ds) IN
  IF p = {} THEN [ok |-> TRUE, def |-> None, argset |-> {}]
  ELSE IF \E i, j \in p : Conflict(ds[i], ds[j]) THEN [ok |-> FALSE, def |-> None, argset |-> {}]
  ELSE [ok |-> TRUE, def |-> [None EXCEPT !.here = TRUE, !.locs = UNION { ds[i].locs : i \in p }, !.rep = ds[CHOOSE i \in p : TRUE].rep],
        argset |-> UNION { { ArgOf(ds[i], n) : n \in Names(ds[i]) } : i \in p }]
Init == defs = <<>> /\ out = Merge(<<>>)
Add ==
  /\ Len(defs) < N
  /\ \E d \in Defs \cup {None} : defs' = Append(defs, d) /\ out' = Merge(defs')
  /\ Len(defs') = N => PrintT("CASE " \o ToJson([defs |-> defs', ok |-> out'.ok, def |-> out'.def, argset |-> out'.argset]))
Next == Add

EachArgumentOnce == out.ok => \A a, b \in out.argset : a.n = b.n => a = b
OrderDoesNotMatter == Len(defs) = 2 => Merge(defs) = Merge(<<defs[2], defs[1]>>)
ConflictsStay == ~out.ok => \E i, j \in Present(defs) : Conflict(defs[i], defs[j])
=============================================================================
