------------------------------ MODULE Catalog ------------------------------
(* The extension catalogue: registrations and lookups in any order.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Steps
VARIABLES exts, hist, dice

Names == <<"auth", "auth-jwt", "rest", "Auth">>
Urls == <<"https://a/auth/v1", "https://a/auth/v2", "https://a/rest", "file:///x">>
Keys == <<"auth", "rest", "one", "two">>
\* pre: 0 for a release, otherwise the pre-release number.
V(a, b, c, p) == [a |-> a, b |-> b, c |-> c, p |-> p]
Cmp(x, y) ==   \* x < y
  \/ x.a < y.a
  \/ x.a = y.a /\ x.b < y.b
  \/ x.a = y.a /\ x.b = y.b /\ x.c < y.c
  \/ x.a = y.a /\ x.b = y.b /\ x.c = y.c /\ x.p # 0 /\ (y.p = 0 \/ x.p < y.p)
Leq(x, y) == x = y \/ Cmp(x, y)
Base(v) == [v EXCEPT !.p = 0]
\* A requirement is a sequence of comparators; digits: how many of major, minor, patch are written (0 for *).
Upper(c) ==    \* the first version after the range of a caret or a tilde
  LET v == c.v IN
  IF c.op = "~" THEN (IF c.n = 1 THEN V(v.a + 1, 0, 0, 0) ELSE V(v.a, v.b + 1, 0, 0))
  ELSE IF v.a > 0 \/ c.n = 1 THEN V(v.a + 1, 0, 0, 0)
  ELSE IF v.b > 0 \/ c.n = 2 THEN V(0, v.b + 1, 0, 0)
  ELSE V(0, 0, v.c + 1, 0)
After(c) == IF c.n = 1 THEN V(c.v.a + 1, 0, 0, 0) ELSE IF c.n = 2 THEN V(c.v.a, c.v.b + 1, 0, 0) ELSE c.v
InRange(c, x) ==
  CASE c.op = "*" -> TRUE
    [] c.op \in {"^", "~", ""} -> Leq(c.v, x) /\ Cmp(Base(x), Upper(c))
    [] c.op = "=" -> IF c.n = 3 THEN x = c.v ELSE Leq(c.v, x) /\ Cmp(Base(x), After(c))
    [] c.op = ">=" -> Leq(c.v, x)
    [] c.op = ">" -> IF c.n = 3 THEN Cmp(c.v, x) ELSE Leq(After(c), x)
    [] c.op = "<" -> Cmp(x, c.v)
    [] c.op = "<=" -> IF c.n = 3 THEN Leq(x, c.v) ELSE Cmp(Base(x), After(c))
Matches(req, x) ==
  /\ \A i \in 1..Len(req) : InRange(req[i], x)
  /\ x.p # 0 => \E i \in 1..Len(req) : req[i].op # "*" /\ req[i].n = 3 /\ req[i].v.p # 0 /\ Base(req[i].v) = Base(x)

\* The first extension that satisfies P, counted from 0; -1 if there is none.
FirstOf(P(_)) == IF \E i \in 1..Len(exts) : P(exts[i]) THEN (CHOOSE i \in 1..Len(exts) : P(exts[i]) /\ \A j \in 1..(i - 1) : ~P(exts[j])) - 1 ELSE 0 - 1
Find(url, name, req) ==
  LET linked == FirstOf(LAMBDA x : url \in x.urls) IN
  IF linked >= 0 THEN linked
  ELSE IF name = "" THEN 0 - 1
  ELSE IF req = <<>> THEN FirstOf(LAMBDA x : x.name = name)
  ELSE FirstOf(LAMBDA x : x.name = name /\ Matches(req, x.v))

P(k, S) == S[1 + (dice[k] % Len(S))]
RandVersion(k) == V(dice[k] % 3, dice[k + 1] % 3, dice[k + 2] % 3, IF (dice[k + 3] % 3) = 0 THEN 1 + (dice[k] % 2) ELSE 0)
Truncate(v, n) == V(v.a, IF n > 1 THEN v.b ELSE 0, IF n > 2 THEN v.c ELSE 0, IF n > 2 THEN v.p ELSE 0)
Comparator(k) ==
  LET op == <<"^", "~", "", "=", ">=", ">", "<", "<=", "^", "*">>[1 + (dice[k] % 10)]
      n == <<3, 3, 3, 2, 1>>[1 + (dice[k + 1] % 5)]
      near == IF exts # <<>> /\ (dice[k + 2] % 3) # 0 THEN P(k + 3, exts).v ELSE RandVersion(k + 4) IN
  [op |-> op, n |-> n, v |-> Truncate(near, n)]
Req == LET d == dice[9] % 8
           x == Comparator(10)
           y == Comparator(18) IN
       IF d = 0 THEN <<>> ELSE IF d < 3 /\ x.op # "*" /\ y.op # "*" /\ x.n = 3 /\ y.n = 3 THEN <<x, y>> ELSE <<x>>
Event ==
  LET d == dice[1] % 10 IN
  CASE d < 4 -> LET u == IF (dice[7] % 3) # 0 THEN {} ELSE { P(8, Urls), P(9, Urls) } IN
                [op |-> "push", name |-> P(2, Names), v |-> RandVersion(3), urls |-> u, key |-> P(17, Keys), expect |-> Len(exts)]
    [] d = 4 -> [op |-> "by_name", name |-> P(2, Names), expect |-> FirstOf(LAMBDA x : x.name = P(2, Names))]
    [] d = 5 -> [op |-> "by_key", key |-> P(2, Keys), expect |-> FirstOf(LAMBDA x : x.key = P(2, Keys))]
    [] OTHER -> LET url == IF (dice[2] % 3) = 0 THEN P(3, Urls) ELSE "https://other/" \o P(3, Names)
                    name == IF (dice[4] % 10) = 0 THEN "" ELSE IF exts # <<>> /\ (dice[5] % 2) = 0 THEN P(6, exts).name ELSE P(6, Names) IN
                [op |-> "find", url |-> url, name |-> name, req |-> Req, expect |-> Find(url, name, Req)]
Init == exts = <<>> /\ hist = <<>> /\ dice = [k \in 1..26 |-> RandomElement(1..99999)]
Next ==
  LET e == Event
      h == Append(hist, e) IN
  /\ dice' = TLCEval([k \in 1..26 |-> RandomElement(0..(99999 + Len(hist)))])
  /\ IF Len(h) = Steps THEN PrintT("CASE " \o ToJson(h)) /\ exts' = <<>> /\ hist' = <<>>
     ELSE hist' = h /\ exts' = IF e.op = "push" THEN Append(exts, [name |-> e.name, v |-> e.v, urls |-> e.urls, key |-> e.key]) ELSE exts
\* ------------------------------------------------------------ invariants
\* Versions are totally ordered, and what a requirement names is in its range.
Total == \A i, j \in 1..Len(exts) : LET x == exts[i].v y == exts[j].v IN (Cmp(x, y) \/ Cmp(y, x) \/ x = y) /\ ~(Cmp(x, y) /\ Cmp(y, x))
Exact == \A i \in 1..Len(exts) : \A op \in {"^", "~", "", "=", ">=", "<="} : Matches(<<[op |-> op, n |-> 3, v |-> exts[i].v]>>, exts[i].v)
\* An earlier registration never loses a lookup to a later one, unless that one is associated with the url.
Stable == \A i \in 1..Len(hist) : hist[i].op = "find" /\ hist[i].expect >= 0 =>
            LET now == Find(hist[i].url, hist[i].name, hist[i].req) IN now = hist[i].expect \/ (now > hist[i].expect /\ hist[i].url \in exts[now + 1].urls)
=============================================================================
