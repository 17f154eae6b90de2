-------------------------------- MODULE Lint -------------------------------
(* The naming conventions of the schema linter.                            *)
(* A name is a style and a sequence of words; its text is the business of  *)
(* the replay.  Styles: pascal (UserName), camel (userName), shouty        *)
(* (USER_NAME), snake (user_name), train (User_Name), loud (USERNAME),     *)
(* and the exempt ones: under (_userName), system (__userName), scoped     *)
(* (user__name).                                                           *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
VARIABLES doc, said, dice

Words == {"user", "name", "key", "id2", "query", "get", "list", "put", "post", "patch", "mutation", "subscription", "type", "union", "interface", "enum", "input"}
Styles == {"pascal", "camel", "shouty", "snake", "train", "loud", "under", "system", "scoped", "trail"}
Exempt == {"under", "system", "scoped"}
Kinds == {"object", "interface", "union", "enum", "input", "scalar", "directive"}
\* The styles in which a name of so many words follows a convention.
Good(conv, n) ==
  Exempt \cup
  (CASE conv = "pascal" -> {"pascal"} \cup (IF n = 1 THEN {"train"} ELSE {})
     [] conv = "camel" -> {"camel"} \cup (IF n = 1 THEN {"snake"} ELSE {})
     [] conv = "shouty" -> {"shouty", "loud"})                    \* loud names are single words
Capital(style, i) == style \in {"pascal", "train"} \/ (style = "camel" /\ i > 1)
Small(style, i) == style \in {"snake", "scoped", "trail"} \/ (style = "camel" /\ i = 1)
\* The name's text starts with a word, in small letters or capitalized.
StartsSmall(x, w) == Small(x.st, 1) /\ x.ws[1] = w
StartsCapital(x, w) == Capital(x.st, 1) /\ x.ws[1] = w
EndsCapital(x, w) == x.ws[Len(x.ws)] = w /\ (Capital(x.st, Len(x.ws)) \/ (x.st \in {"under", "system"} /\ Len(x.ws) > 1))
Starts(x, w) == StartsCapital(x, w)

\* Elements.  In a document: id, kind, name, of (parent id), dep ("no", "bare", "reason"), root: the text is exactly Query, Mutation, Subscription.
\* el: type, ext (an extension of the type `of`), field, arg, value, inputfield, dirarg
Rule(r, x) == [rule |-> r, id |-> x.id]
Case(x, conv) == IF x.nm.st \in Good(conv, Len(x.nm.ws)) THEN {} ELSE { [rule |-> conv, id |-> x.id] }
Affix(x, w) == (IF StartsCapital(x.nm, w) THEN { [rule |-> "prefix " \o w, id |-> x.id] } ELSE {})
               \cup (IF EndsCapital(x.nm, w) THEN { [rule |-> "suffix " \o w, id |-> x.id] } ELSE {})
Forbidden == [Query |-> <<"query", "get", "list">>, Mutation |-> <<"mutation", "put", "post", "patch">>, Subscription |-> <<"subscription">>]
ForbiddenEnd == [Query |-> "query", Mutation |-> "mutation", Subscription |-> "subscription"]
Get(D, id) == CHOOSE x \in D : x.id = id
TypeOf(D, x) == LET p == Get(D, x.of) IN IF p.el = "ext" THEN Get(D, p.of) ELSE p
Deprecated(x) == IF x.dep = "bare" THEN { [rule |-> "reason", id |-> x.id] } ELSE {}
Findings(D, x) ==
  CASE x.el = "type" /\ x.kind = "directive" -> Case(x, "camel")
    [] x.el = "type" /\ x.kind # "directive" ->
       Deprecated(x) \cup
       (IF x.root # "" THEN {}
        ELSE IF x.kind = "object" THEN Case(x, "pascal") \cup Affix(x, "type")
        ELSE IF x.kind = "enum" THEN Case(x, "pascal") \cup Affix(x, "enum")
        ELSE IF x.kind = "union" THEN Affix(x, "union")
        ELSE IF x.kind = "interface" THEN Affix(x, "interface")
        ELSE {})
    [] x.el = "ext" -> IF x.dep = "bare" THEN { [rule |-> "reason", id |-> x.of] } ELSE {}     \* a finding about the type itself
    [] x.el = "field" ->
       LET t == TypeOf(D, x) IN
       Deprecated(x) \cup
       (IF x.nm.st = "system" THEN {}
        ELSE Case(x, "camel") \cup
             (IF t.root = "" THEN {}
              ELSE { [rule |-> "prefix " \o w, id |-> x.id] : w \in { w \in ToSet(Forbidden[t.root]) : StartsSmall(x.nm, w) } }
                   \cup (IF EndsCapital(x.nm, ForbiddenEnd[t.root]) THEN { [rule |-> "suffix " \o ForbiddenEnd[t.root], id |-> x.id] } ELSE {})))
    [] x.el = "arg" -> Case(x, "camel")
    [] x.el = "dirarg" -> Case(x, "camel")
    [] x.el = "inputfield" -> Deprecated(x) \cup Case(x, "camel")
    [] x.el = "value" -> Deprecated(x) \cup Case(x, "shouty")
Expected(D) == UNION { Findings(D, x) : x \in D }

\* ------------------------------------------------------------ the walk: documents grow and start again
P(k, S) == S[1 + (dice[k] % Len(S))]
WordSeq == SetToSeq(Words)
StyleSeq == << "pascal", "camel", "shouty", "snake", "train", "loud", "under", "system", "scoped", "trail" >>
Usual(el, kind) == IF el \in {"type"} /\ kind # "directive" THEN "pascal" ELSE IF el = "value" THEN "shouty" ELSE "camel"
RandName(el, kind) ==
  LET n == 1 + (dice[1] % 3)
      st == IF (dice[2] % 10) < 6 THEN Usual(el, kind) ELSE P(3, StyleSeq)
      \* words that an affix rule looks for are more frequent at the ends
      hot == << kind, "query", "get", "list", "mutation", "put", "post", "patch", "subscription", "query", "mutation", "subscription" >>
      w(i) == IF (dice[3 + i] % 4) = 0 /\ kind \in {"interface", "union", "enum", "input"} /\ (i = 1 \/ i = n) THEN kind
              ELSE IF (dice[3 + i] % 4) = 0 /\ el = "type" /\ kind = "object" THEN "type"
              ELSE IF (dice[3 + i] % 4) = 1 /\ el = "field" THEN hot[2 + (dice[6 + i] % 11)]
              ELSE P(6 + i, WordSeq) IN
  [st |-> IF st = "scoped" /\ n = 1 THEN "under" ELSE st, ws |-> [i \in 1..n |-> IF \/ (i = 1 /\ st = "scoped" /\ w(i) = "id2")
                                                                                  \/ (n = 1 /\ el = "type" /\ w(i) \in {"query", "mutation", "subscription"})  \* roots have no other name
                                                                                  THEN "user" ELSE w(i)]]   \* a scope has letters only
Dep == <<"no", "no", "no", "bare", "reason">>
El(el, kind, nm, of, dep, root) == [id |-> Cardinality(doc) + 1, el |-> el, kind |-> kind, nm |-> nm, of |-> of, dep |-> dep, root |-> root]
HasFields == {"object", "interface"}
Hosts(S) == { x \in doc : x.el \in {"type", "ext"} /\ (IF x.el = "type" THEN x.kind ELSE Get(doc, x.of).kind) \in S }
KindSeq == <<"object", "interface", "union", "enum", "input", "scalar", "directive", "object">>
Pick(S) == LET q == SetToSortSeq(S, LAMBDA a, b : a.id < b.id) IN q[1 + (dice[12] % Len(q))]
\* the names of a root's fields often end with the word that they may not end with
Rooted(nm, host) == LET t == IF host.el = "ext" THEN Get(doc, host.of) ELSE host IN
                    IF t.root # "" /\ (dice[16] % 3) = 0 THEN [st |-> IF nm.st = "scoped" /\ Len(nm.ws) = 1 THEN "under" ELSE nm.st, ws |-> Append(nm.ws, ForbiddenEnd[t.root])] ELSE nm
NoName == [st |-> "camel", ws |-> <<"user">>]
AddType == LET k == P(13, KindSeq)
               roots == {"Query", "Mutation", "Subscription"} \ { x.root : x \in doc }
               r == IF k = "object" /\ (dice[14] % 3) = 0 /\ roots # {} THEN CHOOSE r \in roots : TRUE ELSE "" IN
           El("type", k, RandName("type", k), 0, IF k = "directive" THEN "no" ELSE P(15, Dep), r)
New ==
  LET d == dice[11] % 10 IN
  CASE d < 2 \/ doc = {} -> {AddType}
    [] d = 2 -> LET S == { x \in doc : x.el = "type" /\ x.kind # "directive" } IN
                IF S = {} THEN {AddType} ELSE { El("ext", Pick(S).kind, NoName, Pick(S).id, P(15, Dep), "") }
    [] d < 6 -> LET S == Hosts(HasFields) IN IF S = {} THEN {AddType} ELSE { El("field", "", Rooted(RandName("field", ""), Pick(S)), Pick(S).id, P(15, Dep), "") }
    [] d = 6 -> LET S == { x \in doc : x.el = "field" } IN IF S = {} THEN {AddType} ELSE { El("arg", "", RandName("arg", ""), Pick(S).id, P(15, Dep), "") }
    [] d = 7 -> LET S == Hosts({"enum"}) IN IF S = {} THEN {AddType} ELSE { El("value", "", RandName("value", ""), Pick(S).id, P(15, Dep), "") }
    [] d = 8 -> LET S == Hosts({"input"}) IN IF S = {} THEN {AddType} ELSE { El("inputfield", "", RandName("inputfield", ""), Pick(S).id, P(15, Dep), "") }
    [] OTHER -> LET S == { x \in doc : x.el = "type" /\ x.kind = "directive" } IN
                IF S = {} THEN {AddType} ELSE { El("dirarg", "", RandName("dirarg", ""), Pick(S).id, P(15, Dep), "") }
Init == doc = {} /\ said = 0 /\ dice = [k \in 1..16 |-> RandomElement(1..99999)]
Next ==
  /\ dice' = TLCEval([k \in 1..16 |-> RandomElement(0..(99999 + said))])
  /\ said' = said + 1
  /\ IF Cardinality(doc) >= 14
     THEN PrintT("CASE " \o ToJson([doc |-> SetToSortSeq(doc, LAMBDA a, b : a.id < b.id), expect |-> SetToSeq(Expected(doc))])) /\ doc' = {}
     ELSE doc' = doc \cup New
\* ------------------------------------------------------------ invariants
\* What is found about an element does not depend on anything but it and the types it stands in.
Ancestors(x) == LET up(S) == S \cup { y \in doc : \E z \in S : z.of = y.id } IN up(up(up({x})))
Local == \A x \in doc : Findings(doc, x) = Findings(Ancestors(x), x)
\* The usual styles follow the conventions whatever the words.
Usually == \A x \in doc : x.el # "ext" /\ x.nm.st = Usual(x.el, x.kind) => \A r \in Findings(doc, x) : r.rule \notin {"pascal", "camel", "shouty"}
=============================================================================
