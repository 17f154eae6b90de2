------------------------------- MODULE Custom -----------------------------
(* Custom directives in composition. A behaviour chooses, subgraph by      *)
(* subgraph, how a directive is linked, requested and defined there and    *)
(* how often it is applied on one kind of element; the outcome says which  *)
(* applications reach the composed graph, and under which name.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Quick
VARIABLES site, opts

Sites == {"object", "object-extension", "field", "query-field", "interface", "interface-field", "input", "input-field", "enum", "enum-extension",
          "enum-value", "union", "scalar", "argument", "root", "schema"}
\* how the specification that owns the directive is linked
Linkings == {"none", "imported", "renamed", "prefixed", "extension-imported", "extension-renamed", "extension-prefixed"}
IsExtension(l) == l \in {"extension-imported", "extension-renamed", "extension-prefixed"}
Uses == << <<>>, <<1>>, <<1, 2>> >>          \* arguments of the applications, in order
Option(l, c, d, u) == [link |-> l, composed |-> c, defined |-> d, uses |-> Uses[u]]
Options == { Option(l, c, d, u) : l \in Linkings, c \in BOOLEAN, d \in BOOLEAN, u \in 1..3 }
Sensible(o) == ~(IsExtension(o.link) /\ (o.composed \/ o.defined))   \* composing an extension's directive is an error of its own

\* An application is kept because its subgraph asks for it, or because it belongs to an extension the subgraph links.
Kept(o) == IsExtension(o.link) \/ o.composed
Outcome(o) == [uses |-> IF Kept(o) THEN o.uses ELSE <<>>, extension |-> IsExtension(o.link)]
\* Listed deviations of the implementation (known-findings.txt): what it does is not what is asked.
LocallyDefined(o) == o.link = "none" /\ o.composed /\ o.defined
Say(s, os) == PrintT("CASE " \o ToJson([site |-> s, opts |-> os, out |-> [i \in DOMAIN os |-> Outcome(os[i])],
                                        local |-> [i \in DOMAIN os |-> LocallyDefined(os[i])]]))
Init == site \in Sites /\ opts = <<>>
Choose ==
  /\ Len(opts) < N
  /\ \E o \in Options :
       /\ Sensible(o)
       /\ Quick => (Len(opts) = 0 \/ o.link \in {"none", "imported", "extension-imported"})
       /\ opts' = Append(opts, o)
       /\ Len(opts') = N => Say(site, opts')
  /\ UNCHANGED site
Next == Choose
NeverUninvited == \A i \in DOMAIN opts : (Outcome(opts[i]).uses # <<>>) => (opts[i].composed \/ IsExtension(opts[i].link))
=============================================================================
