---------------------------- MODULE Extensions ----------------------------
(* Extensions that subgraphs link.  A behaviour adds one link after the    *)
(* other, to one subgraph or another, each with its uses; in every state   *)
(* the outcome says whether composition must refuse the links, and if not, *)
(* which extensions the composed graph must list, under which names, and   *)
(* which of them each application of a directive must refer to.            *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxLinks, Random
VARIABLES links, dice

\* u: the url; ext: the registry or a file, so that the link is an extension; name: what the url calls it; base: the url without its version
U(u, ext, name, base) == [u |-> u, ext |-> ext, name |-> name, base |-> base]
G == "https://grafbase.com/extensions/"
X == "https://extensions.grafbase.com/"
Urls == <<
  U(G \o "rest/1.0.0", TRUE, "rest", G \o "rest"),
  U(G \o "rest/1.2.0", TRUE, "rest", G \o "rest"),
  U(G \o "rest/v2", TRUE, "rest", G \o "rest"),
  U(G \o "rest", TRUE, "rest", G \o "rest"),
  U(X \o "rest/1.0.0", TRUE, "rest", X \o "rest"),
  U(X \o "my-auth/0.3.3", TRUE, "my-auth", X \o "my-auth"),
  U(X \o "my_auth/0.3.3", TRUE, "my_auth", X \o "my_auth"),
  U(X \o "extensions/nats/0.3.3", TRUE, "nats", X \o "extensions/nats"),
  U(G \o "vault", TRUE, "vault", G \o "vault"),
  U("file:///opt/ext/rest/build", TRUE, "rest", "file:///opt/ext/rest/build"),
  U("file:///opt/ext/rest", TRUE, "rest", "file:///opt/ext/rest"),
  U("file:///opt/ext/nats/1.0.0/build", TRUE, "nats", "file:///opt/ext/nats/1.0.0/build"),
  U("file:///srv/vault/v3", TRUE, "vault", "file:///srv/vault"),
  U(G \o "v-one/1.0.0", TRUE, "v-one", G \o "v-one"),
  U(G \o "v-one", TRUE, "v-one", G \o "v-one"),
  U(G \o "v-two", TRUE, "v-two", G \o "v-two"),
  U(G \o "rest/", TRUE, "rest", G \o "rest"),
  U(X \o "2fa/1.0.0", TRUE, "2fa", X \o "2fa"),
  U(X \o "%C3%A9t/1.0.0", TRUE, "%C3%A9t", X \o "%C3%A9t"),
  U("file:///srv/v8/v1.0.0", TRUE, "v8", "file:///srv/v8"),
  U("https://sub.extensions.grafbase.com/rest/1.0.0", FALSE, "", ""),
  U("http://grafbase.com/extensions/rest/1.0.0", FALSE, "", ""),
  U("https://example.com/extensions/rest/1.0.0", FALSE, "", ""),
  U("https://grafbase.com/specs/rest/1.0.0", FALSE, "", "") >>
As == <<"", "rest", "Rest", "nats", "my-auth">>
Fold(n) == IF n = "Rest" THEN "rest" ELSE n
\* names that are no names of values, for which another one is made
Odd == {"2fa", "%C3%A9t"}
Value == [n \in {"rest", "Rest", "nats", "vault", "my-auth", "my_auth", "v-one", "v-two", "v8", "2fa", "%C3%A9t"} |->
            CASE n \in {"rest", "Rest"} -> "REST" [] n = "nats" -> "NATS" [] n = "vault" -> "VAULT" [] n = "v-one" -> "V_ONE" [] n = "v-two" -> "V_TWO" [] n = "v8" -> "V8" [] n \in Odd -> n [] OTHER -> "MY_AUTH"]
\* a link: the subgraph that has it, the url, `as`, and where it is used
Uses == <<"none", "field", "schema", "both">>
\* asked: the subgraph also asks composition to keep the directive like a custom one (which extensions do not allow; only uses on
\* definitions are considered here)
Link(g, u, a, w, asked) == [g |-> g, url |-> Urls[u], as |-> As[a], use |-> Uses[w], asked |-> asked /\ w # 3]
NameOf(l) == IF l.as # "" THEN l.as ELSE l.url.name

Ext(ls) == { i \in DOMAIN ls : ls[i].url.ext }
\* two links that give one name to different extensions
Conflict(ls) == \E i, j \in Ext(ls) : Fold(NameOf(ls[i])) = Fold(NameOf(ls[j])) /\ ls[i].url.base # ls[j].url.base
Asked(ls) == \E i \in Ext(ls) : ls[i].asked /\ ls[i].use # "none"
UsedUrls(ls) == { ls[i].url.u : i \in { j \in Ext(ls) : ls[j].use # "none" } }
NamesOf(ls, u) == { Value[NameOf(ls[i])] : i \in { j \in Ext(ls) : ls[j].url.u = u } }
\* an extension has the name it was given when no other one may have that name
Listed(ls) == { [url |-> u, names |-> NamesOf(ls, u), alone |-> NamesOf(ls, u) \cap Odd = {} /\ \A v \in UsedUrls(ls) \ {u} : NamesOf(ls, u) \cap NamesOf(ls, v) = {}] : u \in UsedUrls(ls) }
Applied(ls) == { [g |-> ls[i].g, at |-> at, n |-> i, url |-> ls[i].url.u] : i \in { j \in Ext(ls) : ls[j].use \in {"field", "both"} }, at \in {"field"} }
               \cup { [g |-> ls[i].g, at |-> at, n |-> i, url |-> ls[i].url.u] : i \in { j \in Ext(ls) : ls[j].use \in {"schema", "both"} }, at \in {"schema"} }
Say(ls) == PrintT("CASE " \o ToJson([links |-> ls, conflict |-> Conflict(ls), asked |-> Asked(ls), listed |-> Listed(ls), applied |-> Applied(ls)]))
Init == links = <<>> /\ dice = <<>>
AddLink ==
  /\ ~Random /\ Len(links) < MaxLinks
  /\ \E u \in DOMAIN Urls, a \in DOMAIN As, w \in DOMAIN Uses :
       /\ (Len(links) > 0 => a < 4 /\ w \in {1, 4})
       /\ \E asked \in IF links = <<>> THEN BOOLEAN ELSE {FALSE} : links' = Append(links, Link(Len(links) + 1, u, a, w, asked))
       /\ Say(links')
  /\ UNCHANGED dice
\* random sets of links in three subgraphs
Throw ==
  /\ Random
  /\ dice' = TLCEval([k \in 1..(4 * MaxLinks + 2) |-> RandomElement(0..(99999 + Len(links)))])
  /\ LET n == 2 + (dice'[4 * MaxLinks + 1] % (MaxLinks - 1))
         tame == dice'[4 * MaxLinks + 2] % 3 # 0          \* mostly no `as`, so that conflicts stay rare
     IN links' = TLCEval([j \in 1..n |->
          Link((dice'[4 * j] % 3) + 1, (dice'[4 * j - 1] % Len(Urls)) + 1, IF tame \/ dice'[4 * j - 2] % 2 = 0 THEN 1 ELSE (dice'[4 * j - 2] % Len(As)) + 1, (dice'[4 * j - 3] % 4) + 1, (dice'[4 * j - 3] % 61) < 5)])
  /\ Say(links')
Next == AddLink \/ Throw

\* Versions of one extension live together; an extension no subgraph uses is not listed; every application has its extension.
VersionsAgree == (\A i, j \in Ext(links) : links[i].url.base = links[j].url.base) => ~Conflict(links)
NothingUnused == \A x \in Listed(links) : \E i \in DOMAIN links : links[i].url.u = x.url /\ links[i].use # "none"
AllListed == \A a \in Applied(links) : \E x \in Listed(links) : x.url = a.url
=============================================================================
