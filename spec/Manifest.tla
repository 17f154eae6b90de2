------------------------------ MODULE Manifest ------------------------------
(* Extension manifests and lockfiles as they are stored.  A document is a  *)
(* map from keys to values (tokens; nested maps for the extension's type   *)
(* and the event filter), possibly with keys or spellings of earlier       *)
(* versions.  Reading gives a manifest or refuses; writing a manifest      *)
(* gives the current spelling.                                             *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Steps
VARIABLES doc, n, dice

\* ---- values: all of one shape; simple ones have a tag and a list of words
P(tag, l) == [tag |-> tag, l |-> l]
Absent == P("absent", <<>>)
PNull == P("null", <<>>)
V(p) == [tag |-> p.tag, l |-> p.l, k |-> "", key |-> "", ls |-> Absent, g |-> Absent, f |-> Absent]
No == V(Absent)
Null == V(PNull)
Text(w) == V(P("text", <<w>>))
Listed(l) == V(P("list", l))
Wrong(w) == V(P("wrong", <<w>>))
All(S, F(_)) == { F(x) : x \in S }
Versions == {"0.1.0", "1.2.3-rc.1+b", "10.20.30"}
Strings == {"", "plain", "unicode", "lines"}
Urls == {"http://example.com/x", "https://a.b/c?d=1"}
Lists == {<<>>, <<"one">>, <<"two", "one">>, <<"one", "one">>}
Permissions == {<<>>, <<"network">>, <<"stderr", "stdout">>, <<"environment_variables", "network", "stdout">>, <<"stdout", "stdout">>}
Filters == {P("all-text", <<>>), P("all-map", <<>>), P("types", <<"operation">>), P("types", <<"extension", "http_request", "subgraph_request">>), P("types", <<>>)}
Kinds == {"FieldResolver", "SelectionSetResolver", "Resolver", "Authentication", "Authenticator", "Authorization", "Hooks", "Contracts"}
\* the type: its name, the spelling of its list of directives ("": none), the list, the grouping, the filter
T(k, key, ls, g, f) == [tag |-> "type", l |-> <<>>, k |-> k, key |-> key, ls |-> ls, g |-> g, f |-> f]
ListKeys(k) == CASE k = "FieldResolver" -> {"resolver_directives"} [] k \in {"Resolver", "Contracts"} -> {"directives"}
                 [] k = "Authorization" -> {"directives", "authorization_directives"} [] OTHER -> {}
\* what the body of a type may have besides: keys of other types, and keys of no type, which mean nothing there
OwnKeys(k) == ListKeys(k) \cup (IF k = "Authorization" THEN {"group_by"} ELSE IF k = "Hooks" THEN {"event_filter"} ELSE {})
Strays(k) == {"resolver_directives", "authorization_directives", "directives", "group_by", "event_filter", "unknown"} \ OwnKeys(k)
Types ==
  { T(k, "", Absent, Absent, Absent) : k \in Kinds }
  \cup { T(x[1][1], x[1][2], x[2], Absent, Absent) : x \in { y \in Kinds \X {"resolver_directives", "directives", "authorization_directives"} : y[2] \in ListKeys(y[1]) } \X ({ P("list", l) : l \in Lists } \cup {PNull}) }
  \cup { T("Authorization", "directives", P("list", l), g, Absent) : l \in Lists, g \in {P("list", <<>>), P("list", <<"subgraph">>), PNull} }
  \cup { T("Hooks", "", Absent, Absent, f) : f \in Filters \cup {PNull} }
Required == {"id", "type", "sdk_version", "minimum_gateway_version", "description"}
Optional == {"associated_link_urls", "sdl", "readme", "homepage_url", "repository_url", "license", "permissions", "event_filter"}
Keys == Required \cup Optional
Good(k) ==
  CASE k = "id" -> { V(P("id", <<name, v>>)) : name \in {"rest", "a-b_1"}, v \in Versions }
    [] k = "type" -> Types
    [] k \in {"sdk_version", "minimum_gateway_version"} -> All(Versions, Text)
    [] k = "description" -> All(Strings, Text)
    [] k = "associated_link_urls" -> All(Lists, Listed)
    [] k \in {"sdl", "readme", "license"} -> All(Strings, Text) \cup {Null}
    [] k \in {"homepage_url", "repository_url"} -> All(Urls, Text) \cup {Null}
    [] k = "permissions" -> All(Permissions, Listed)
    [] k = "event_filter" -> All(Filters, V) \cup {Null}
\* what is refused
Bad(k) == All(
  CASE k = "id" -> {"text", "no-version", "no-name", "bad-version", "null"}
    [] k = "type" -> {"unknown-type", "lower-case", "text", "two-types", "null", "list-of-numbers", "unknown-group"}
    [] k \in {"sdk_version", "minimum_gateway_version"} -> {"number", "bad-version", "null", "requirement"}
    [] k = "description" -> {"number", "null"}
    [] k = "associated_link_urls" -> {"text", "null", "numbers"}
    [] k \in {"sdl", "readme", "license"} -> {"number"}
    [] k \in {"homepage_url", "repository_url"} -> {"relative", "number"}
    [] k = "permissions" -> {"text", "null", "unknown"}
    [] k = "event_filter" -> {"unknown-event", "unknown-filter", "number"}, Wrong)
IsBad(v) == v.tag = "wrong"
\* a document: key -> value or absent; the spelling of the type's key; an unknown key besides; how it is tagged
Doc(m, spelling, extra, tag) == [m |-> m, spelling |-> spelling, extra |-> extra, tag |-> tag]
Spellings == {"type", "kind"}
\* an unknown key besides: none, in the document, or a stray one in the body of its type
Extras == {"", "document"} \cup { "body " \o k : k \in {"resolver_directives", "authorization_directives", "directives", "group_by", "event_filter", "unknown"} }
Stray(d) == IF IsBad(d.m["type"]) \/ d.m["type"] = No THEN "" ELSE LET S == { k \in Strays(d.m["type"].k) : d.extra = "body " \o k } IN IF S = {} THEN "" ELSE CHOOSE k \in S : TRUE
Tags == {"v1", "none", "!v2", "!V1", "!missing"}
Minimal == Doc([k \in Keys |-> IF k \in Optional THEN No ELSE CASE k = "id" -> V(P("id", <<"rest", "0.1.0">>)) [] k = "type" -> T("Resolver", "", Absent, Absent, Absent)
                                 [] k = "description" -> Text("plain") [] OTHER -> Text("0.1.0")], "type", "", "v1")
\* ----------------------------------------------------------------- reading
Reads(d) ==
  /\ d.tag \in {"v1", "none"}
  /\ \A k \in Required : d.m[k] # No
  /\ \A k \in Keys : ~IsBad(d.m[k])
  /\ d.spelling # "both"
FilterOf(f) == IF f.tag \in {"all-text", "all-map"} THEN P("all", <<>>) ELSE IF f.tag = "null" THEN Absent ELSE P(f.tag, f.l)
NotNull(p) == IF p.tag = "null" THEN Absent ELSE p
ReadType(t) == T(IF t.k = "Authenticator" THEN "Authentication" ELSE t.k, "", IF t.key = "" THEN Absent ELSE NotNull(t.ls), NotNull(t.g), FilterOf(t.f))
ReadKey(k, v) ==
  CASE k = "type" -> ReadType(v)
    [] k \in {"associated_link_urls", "permissions"} -> IF v = No THEN Listed(<<>>) ELSE v
    [] k = "event_filter" -> V(FilterOf(v))
    [] OTHER -> IF v = Null THEN No ELSE v
Read(d) == [k \in Keys |-> ReadKey(k, d.m[k])]
\* ----------------------------------------------------------------- writing
WriteFilter(f) == IF f.tag = "all" THEN P("all-text", <<>>) ELSE P(f.tag, f.l)
WriteType(t) == T(t.k, IF t.ls = Absent THEN "" ELSE IF t.k = "FieldResolver" THEN "resolver_directives" ELSE "directives", t.ls, t.g, WriteFilter(t.f))
WriteKey(k, v) ==
  CASE k = "type" -> WriteType(v)
    [] k = "associated_link_urls" -> IF v.l = <<>> THEN No ELSE v
    [] k = "event_filter" -> V(WriteFilter(v))
    [] OTHER -> v
Write(r) == Doc([k \in Keys |-> WriteKey(k, r[k])], "type", "", "v1")
Has(r, p) == \E i \in 1..Len(r["permissions"].l) : r["permissions"].l[i] = p
Asks(r) == [network |-> Has(r, "network"), stdout |-> Has(r, "stdout"), stderr |-> Has(r, "stderr"), env |-> Has(r, "environment_variables"),
            field_resolver |-> r["type"].k = "FieldResolver", resolver |-> r["type"].k = "Resolver", authentication |-> r["type"].k = "Authentication", hooks |-> r["type"].k = "Hooks"]
Say(d) == PrintT("CASE " \o ToJson([doc |-> d, stray |-> Stray(d), ok |-> Reads(d), read |-> IF Reads(d) THEN Read(d) ELSE <<>>, written |-> IF Reads(d) THEN Write(Read(d)) ELSE <<>>,
                                      asks |-> IF Reads(d) THEN Asks(Read(d)) ELSE <<>>]))
\* ------------------------------------------------- all documents one step from the minimal one
With(d, k, v) == [d EXCEPT !.m[k] = v]
InitAll == /\ n = 0 /\ dice = <<>>
           /\ \/ \E k \in Keys : \E v \in Good(k) \cup Bad(k) \cup {No} : doc = With(Minimal, k, v)
              \/ \E s \in Spellings \cup {"both"}, e \in Extras, t \in Tags : doc = [Minimal EXCEPT !.spelling = s, !.extra = e, !.tag = t]
NextAll == n = 0 /\ n' = 1 /\ UNCHANGED <<doc, dice>> /\ Say(doc)
\* ------------------------------------------------------------ random documents
KeySeq == SetToSeq(Keys)
TagSeq == SetToSeq(Tags)
PickOf(S, d) == SetToSeq(S)[1 + (d % Cardinality(S))]
Init == doc = Minimal /\ n = 0 /\ dice = [k \in 1..6 |-> RandomElement(1..99999)]
Changed ==
  LET k == KeySeq[1 + (dice[1] % Len(KeySeq))] IN
  CASE (dice[2] % 20) < 14 -> With(doc, k, PickOf(Good(k), dice[3]))
    [] (dice[2] % 20) < 16 -> With(doc, k, No)
    [] (dice[2] % 20) = 16 -> With(doc, k, PickOf(Bad(k), dice[3]))
    [] (dice[2] % 20) = 17 -> [doc EXCEPT !.spelling = IF (dice[3] % 8) = 0 THEN "both" ELSE PickOf(Spellings, dice[3])]
    [] (dice[2] % 20) = 18 -> [doc EXCEPT !.extra = PickOf(Extras, dice[3])]
    [] OTHER -> [doc EXCEPT !.tag = IF (dice[3] % 3) = 0 THEN TagSeq[1 + (dice[4] % Len(TagSeq))] ELSE IF (dice[3] % 3) = 1 THEN "v1" ELSE "none"]
Next ==
  LET d == TLCEval(Changed) IN
  /\ Say(d)
  /\ doc' = IF (n % Steps) = Steps - 1 THEN Minimal ELSE IF Reads(d) THEN d ELSE doc
  /\ n' = n + 1
  /\ dice' = TLCEval([k \in 1..6 |-> RandomElement(0..(99999 + n))])
\* --------------------------------------------------------------- lockfiles
\* doc: the entries (name, version) and what is wrong with the text, if anything
LockNames == {"rest", "a-b_1", "unicode", ""}
LockFaults == {"", "version-2", "version-number", "no-version-key", "no-list", "entry-without-name", "entry-without-version", "entry-bad-version"}
InitLocks == n = 0 /\ dice = <<>> /\ \E k \in 0..3 : \E l \in [1..k -> LockNames \X Versions] : \E f \in LockFaults : (k < 3 \/ f = "") /\ doc = [l |-> l, f |-> f]
NextLocks == n = 0 /\ n' = 1 /\ UNCHANGED <<doc, dice>> /\ PrintT("CASE " \o ToJson([l |-> doc.l, fault |-> doc.f, ok |-> doc.f = ""]))
\* ------------------------------------------------------------ invariants
RoundTrip == Reads(doc) => (Reads(Write(Read(doc))) /\ Read(Write(Read(doc))) = Read(doc) /\ Write(Read(Write(Read(doc)))) = Write(Read(doc)))
SpellingOnly == Reads(doc) => Read([doc EXCEPT !.spelling = "type", !.extra = "", !.tag = "v1"]) = Read(doc)
=============================================================================
