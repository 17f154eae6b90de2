------------------------------- MODULE Links ------------------------------
(* How a directive name used in a subgraph is resolved through the @link   *)
(* declarations of that subgraph. A behaviour adds one declaration after   *)
(* the other; in every state the outcome gives the meaning of each of the  *)
(* spellings a schema may use.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLinks, Random
VARIABLES links, virtual, dice

\* What is behind a url: the kind of specification, and the segments of its path.
Urls == <<
  [u |-> "https://specs.apollo.dev/federation/v2.9", k |-> "fed2", p |-> <<"federation", "v2.9">>],
  [u |-> "https://specs.apollo.dev/federation/v2.0", k |-> "fed2", p |-> <<"federation", "v2.0">>],
  [u |-> "https://specs.grafbase.com/composite-schemas/v1", k |-> "comp", p |-> <<"composite-schemas", "v1">>],
  [u |-> "https://example.com/audit/v1.0", k |-> "other", p |-> <<"audit", "v1.0">>],
  [u |-> "https://example.com/v1/audit", k |-> "other", p |-> <<"v1", "audit">>],
  [u |-> "https://example.com/tools/vault", k |-> "other", p |-> <<"tools", "vault">>],
  [u |-> "https://example.com/tools/v2x", k |-> "other", p |-> <<"tools", "v2x">>],
  [u |-> "https://example.com/a/my-spec/v2", k |-> "other", p |-> <<"a", "my-spec", "v2">>],
  [u |-> "https://example.com/federation/v1.0", k |-> "other", p |-> <<"federation", "v1.0">>],
  [u |-> "https://example.com/audit/v10.2.3?x=y#z", k |-> "other", p |-> <<"audit", "v10.2.3">>],
  [u |-> "https://example.com/a/vault/v2/", k |-> "other", p |-> <<"a", "vault", "v2">>],
  [u |-> "https://example.com/tools/vault//", k |-> "other", p |-> <<"tools", "vault">>],
  [u |-> "file:///opt/extensions/audit/build", k |-> "other", p |-> <<"opt", "extensions", "audit">>],
  [u |-> "file:///opt/extensions/vault/v2.0/build", k |-> "other", p |-> <<"opt", "extensions", "vault", "v2.0">>],
  [u |-> "file:///opt/extensions/vault", k |-> "other", p |-> <<"opt", "extensions", "vault">>],
  [u |-> "file:///build", k |-> "other", p |-> <<>>],
  [u |-> "https://example.com/vault/build", k |-> "other", p |-> <<"vault", "build">>],
  [u |-> "https://example.com", k |-> "other", p |-> <<>>],
  [u |-> "audit", k |-> "other", p |-> <<>>] >>
\* (the path of a file url leaves out a last segment "build", the directory an extension is built in)
Versions == {"v2.9", "v2.0", "v1", "v1.0", "v2", "v10.2.3"}
NotNames == {"composite-schemas", "my-spec"}
NameOf(p) == \* the name a url gives its specification: the last segment, or the one before if the last one is a version
  LET c == IF p = <<>> THEN <<>>
           ELSE IF p[Len(p)] \in Versions THEN (IF Len(p) > 1 THEN <<p[Len(p) - 1]>> ELSE <<>>)
           ELSE <<p[Len(p)]>>
  IN IF c # <<>> /\ c[1] \in NotNames THEN <<>> ELSE c

I0(n) == [n |-> n, as |-> n, bad |-> FALSE]
I1(n, a) == [n |-> n, as |-> a, bad |-> FALSE]
\* imported under a name of the other sort: a directive without its @, a type with one
I2(n, a) == [n |-> n, as |-> a, bad |-> TRUE]
Imports == <<
  <<>>,
  <<I0("tag")>>,
  <<I0("tag"), I0("key"), I0("inaccessible")>>,
  <<I1("tag", "label")>>,
  <<I1("inaccessible", "tag"), I1("tag", "inaccessible")>>,
  <<I0("shareable"), I0("key"), I0("inaccessible"), I0("external")>>,
  <<I1("shareable", "label"), I1("key", "shareable")>>,
  <<I0("authenticated"), I1("requiresScopes", "audit")>>,
  <<I1("key", "inaccessible"), I0("FieldSet"), I0("policy")>>,
  <<I0("audit"), I1("authenticated", "cost")>>,
  <<I0("internal"), I0("lookup"), I1("shareable", "tag")>>,
  <<I1("FieldSet", "Fields"), I0("tag")>>,
  <<I0("key"), I2("tag", "label")>>,
  <<I2("FieldSet", "label")>>,
  <<I2("FieldSet", "fieldSet"), I0("key")>>,
  <<I2("Import", "federationImport")>>,
  <<I2("tag", "tag")>> >>
As == <<"", "fed", "audit", "federation", "v1">>

Namespace(l) == IF l.as # "" THEN <<l.as>> ELSE NameOf(l.url.p)

Federation == {"authenticated", "inaccessible", "key", "requiresScopes", "shareable", "tag", "external", "policy"}
Composite == {"key", "shareable", "inaccessible", "external", "internal", "lookup"}
\* meaning of a directive of a linked specification
Of(kind, n) ==
  IF kind = "fed2" THEN (IF n \in Federation THEN n ELSE "nothing")
  ELSE IF kind = "comp" THEN (IF n = "key" THEN "composite-key" ELSE IF n \in Composite THEN n ELSE "nothing")
  ELSE "custom"

Bare(ls, virt, n) ==
  LET hits == { <<i, j>> : i \in DOMAIN ls, j \in 1..4 }
      valid == { h \in hits : h[2] \in DOMAIN ls[h[1]].imports /\ ls[h[1]].imports[h[2]].as = n }
      meanings == { Of(ls[h[1]].url.k, ls[h[1]].imports[h[2]].n) : h \in valid }
  IN IF Cardinality(meanings) > 1 THEN "unspecified"      \* the same name imported twice
     ELSE IF meanings # {} THEN CHOOSE m \in meanings : TRUE
     ELSE IF n \in {"cost"} THEN n
     ELSE IF virt \/ \E i \in DOMAIN ls : ls[i].url.k = "fed2" THEN "nothing"
     ELSE IF n \in Federation THEN n ELSE "nothing"
Prefixed(ls, virt, ns, n) ==
  LET here == { i \in DOMAIN ls : Namespace(ls[i]) = <<ns>> }
      kinds == { Of(ls[i].url.k, n) : i \in here }
      imported == \E i \in here : \E j \in DOMAIN ls[i].imports : ls[i].imports[j].n = n
  IN IF Cardinality(kinds) > 1 \/ imported THEN "unspecified"
     ELSE IF kinds # {} THEN CHOOSE m \in kinds : TRUE
     ELSE IF ns # "federation" THEN "nothing"
     ELSE IF virt \/ (\E i \in DOMAIN ls : ls[i].imports # <<>>) \/ (\E i \in DOMAIN ls : ls[i].url.k = "fed2") THEN "unspecified"
     ELSE IF n \in Federation THEN n ELSE "nothing"

Spellings ==
  { [ns |-> <<>>, n |-> n] : n \in {"tag", "inaccessible", "authenticated", "requiresScopes", "key", "shareable", "label", "audit", "cost", "policy", "internal", "external"} }
  \cup { [ns |-> <<p>>, n |-> n] : p \in {"federation", "fed", "audit", "v1", "vault", "v2x", "other", "build", "extensions"}, n \in {"tag", "key", "inaccessible", "shareable", "authenticated", "label"} }
Resolve(ls, virt) == { [s |-> s, m |-> IF s.ns = <<>> THEN Bare(ls, virt, s.n) ELSE Prefixed(ls, virt, s.ns[1], s.n)] : s \in Spellings }

\* Links to files are links to extensions: two of one name must not have different urls (see Extensions.tla).
File(l) == Len(l.url.u) > 4 /\ SubSeq(l.url.u, 1, 5) = "file:"
Clash(ls) == \E i, j \in DOMAIN ls : File(ls[i]) /\ File(ls[j]) /\ ls[i].url.u # ls[j].url.u /\ Namespace(ls[i]) # <<>> /\ Namespace(ls[i]) = Namespace(ls[j])
Link(u, a, i) == [url |-> Urls[u], as |-> As[a], imports |-> Imports[i]]
Bad(ls) == \E i \in DOMAIN ls : \E j \in DOMAIN ls[i].imports : ls[i].imports[j].bad
Say(ls, v) == PrintT("CASE " \o ToJson([links |-> ls, virtual |-> v, bad |-> Bad(ls), clash |-> Clash(ls), res |-> Resolve(ls, v),
                   v2 |-> (v \/ \E i \in DOMAIN ls : ls[i].url.k # "other")]))
Init == links = <<>> /\ virtual = FALSE /\ dice = <<>> /\ Say(<<>>, FALSE)
AddLink ==
  /\ ~Random /\ Len(links) < MaxLinks
  /\ \E u \in DOMAIN Urls, a \in DOMAIN As, i \in DOMAIN Imports, v \in BOOLEAN :
       /\ links' = Append(links, Link(u, a, i))
       /\ virtual' = v
       /\ UNCHANGED dice
       /\ Say(links', v)
\* random sets of links, for the combinations of several
Throw ==
  /\ Random
  /\ dice' = TLCEval([k \in 1..(3 * MaxLinks + 2) |-> RandomElement(0..(9999 + Len(links)))])
  /\ LET D(k, n) == (dice'[k] % n) + 1 IN
     /\ links' = TLCEval([j \in 1..(2 + (dice'[3 * MaxLinks + 1] % (MaxLinks - 1))) |->
                   Link(IF j = 1 /\ D(3 * MaxLinks + 2, 3) = 1 THEN 1 ELSE D(3 * j - 2, Len(Urls)), IF D(3 * j - 1, 2) = 1 THEN 1 ELSE D(3 * j - 1, Len(As)), D(3 * j, Len(Imports)))])
     /\ virtual' = (dice'[3 * MaxLinks + 2] % 10 = 0)
     /\ Say(links', virtual')
Next == AddLink \/ Throw

\* Links to other specifications never give a name a federation meaning it lacks without them, and at most remove it
OtherLinksAreInert == (\A i \in DOMAIN links : links[i].url.k = "other") =>
  \A r \in Resolve(links, virtual) : r.m \in {"nothing", "custom", "unspecified"} \cup {x.m : x \in {y \in Resolve(<<>>, virtual) : y.s = r.s}}
\* Meanings are what some linked specification defines
MeansSomethingLinked == \A r \in Resolve(links, virtual) : r.m \in {"internal", "lookup", "composite-key"} => \E i \in DOMAIN links : links[i].url.k = "comp"
=============================================================================
