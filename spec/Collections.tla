----------------------------- MODULE Collections ----------------------------
(* The collections over identifiers of the engine: bit sets, ranges with   *)
(* their iterators, relations to many values, maps over all identifiers.   *)
(* A state holds two bit sets, a range under iteration, a relation and a   *)
(* map; each step is one operation with what it returns and what can be    *)
(* read afterwards.                                                        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Steps, Widths
VARIABLES st, hist, dice

Max2(a, b) == IF a > b THEN a ELSE b
Below(n) == { i \in 0..n : i < n }
Asc(S) == SetToSortSeq(S, <)
\* ------------------------------------------------------------- bit sets
Bits(n, s) == [n |-> n, s |-> s]
SetTo(b, S, v) == [b EXCEPT !.s = IF v THEN @ \cup S ELSE @ \ S]
Or(a, b) == Bits(Max2(a.n, b.n), a.s \cup b.s)
And(a, b) == Bits(a.n, a.s \cap b.s)
Xor(a, b) == Bits(Max2(a.n, b.n), (a.s \cup b.s) \ (a.s \cap b.s))
Not(b) == Bits(b.n, Below(b.n) \ b.s)
SeeBits(b) == [n |-> b.n, ones |-> Asc(b.s), zeroes |-> Asc(Below(b.n) \ b.s)]
\* -------------------------------------------------------------- ranges
\* what is left of a range: from lo up to hi, which is not part of it
Members(r) == [i \in 1..(r.hi - r.lo) |-> r.lo + i - 1]
SeeRange(r, probe) == [members |-> Members(r), at |-> IF probe < r.hi - r.lo THEN <<r.lo + probe>> ELSE <<>>,
                       pos |-> IF r.lo <= probe /\ probe < r.hi THEN <<probe - r.lo>> ELSE <<>>]
Consecutive(l) == \A i \in 1..(Len(l) - 1) : l[i + 1] = l[i] + 1
OfSlice(l) == IF l = <<>> THEN [lo |-> 0, hi |-> 0] ELSE [lo |-> l[1], hi |-> l[Len(l)] + 1]
\* ------------------------------------------------------------ relations
Values(rel, id) == LET sel == SelectSeq(rel, LAMBDA p : p[1] = id) IN [i \in 1..Len(sel) |-> sel[i][2]]
Ids(rel) == Asc({ rel[i][1] : i \in 1..Len(rel) })
\* ------------------------------------------- sequences of identifiers: order
Cmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN "less" ELSE "greater")
  ELSE LET d == { i \in 1..Len(a) : a[i] # b[i] } IN
       IF d = {} THEN "equal" ELSE IF a[CHOOSE i \in d : \A j \in d : i <= j] < b[CHOOSE i \in d : \A j \in d : i <= j] THEN "less" ELSE "greater"

Empty == [a |-> Bits(0, {}), b |-> Bits(0, {}), r |-> [lo |-> 0, hi |-> 0], rel |-> <<>>, one |-> <<>>]
Ops == <<"capacity", "set", "set", "put", "insert", "range", "range", "all", "not", "or", "and", "xor", "or2", "and2", "xor2", "swap", "grow",
         "fromlen", "fromends", "single", "slice", "slice", "front", "front", "back", "back", "nth", "relate", "relate", "sorted", "init", "assign", "compare", "id", "id">>
List(k) == [i \in 1..(dice[k] % 5) |-> (dice[k] \div (3 ^ i)) % 4]
\* mostly consecutive
Slice(k) == [i \in 1..(dice[k] % 5) |-> (dice[k + 1] % 6) + i + (IF (dice[k + 2] % 3) = 0 /\ i = 1 + (dice[k + 3] % 4) THEN dice[k + 4] % 3 ELSE 1)]
Pairs(k) == [i \in 1..(dice[k] % 8) |-> <<(dice[k + 1] \div (2 ^ i)) % 5, (dice[k + 2] \div (2 ^ i)) % 7>>]
W == LET ws == Asc(Widths) IN ws[1 + (dice[2] % Len(ws))]
\* operation -> [args, st, ret]
Step ==
  LET o == Ops[1 + (dice[1] % Len(Ops))]
      a == st.a
      n == a.n
      i == IF n = 0 THEN 0 ELSE dice[3] % n
      j == IF n = 0 THEN 0 ELSE i + (dice[4] % (n - i + 1))
      v == (dice[5] % 2) = 0
      lo == dice[3] % 6
      len == dice[4] % 5
      r == st.r
      R(args, s, ret) == [o |-> o, args |-> args, st |-> s, ret |-> ret]
      B(args, x) == R(args, [st EXCEPT !.a = x], <<>>) IN
  CASE o = "capacity" -> B([n |-> W], Bits(W, {}))
    [] o = "grow" -> B([n |-> W], Bits(Max2(n, W), a.s))
    [] o = "set" /\ n > 0 -> B([i |-> i, v |-> v], SetTo(a, {i}, v))
    [] o = "put" /\ n > 0 -> R([i |-> i], [st EXCEPT !.a = SetTo(a, {i}, TRUE)], <<i \in a.s>>)
    [] o = "insert" /\ n > 0 -> B([i |-> i], SetTo(a, {i}, TRUE))
    [] o = "range" -> B([i |-> i, j |-> j, v |-> v], SetTo(a, { x \in i..j : x < j }, v))
    [] o = "all" -> B([v |-> v], SetTo(a, Below(n), v))
    [] o = "not" -> B(<<>>, Not(a))
    [] o \in {"or", "or2"} -> B(<<>>, Or(a, st.b))
    [] o \in {"and", "and2"} -> B(<<>>, And(a, st.b))
    [] o \in {"xor", "xor2"} -> B(<<>>, Xor(a, st.b))
    [] o = "fromlen" -> R([lo |-> lo, len |-> len], [st EXCEPT !.r = [lo |-> lo, hi |-> lo + len]], <<>>)
    [] o = "fromends" -> R([lo |-> lo, hi |-> lo + len], [st EXCEPT !.r = [lo |-> lo, hi |-> lo + len]], <<>>)
    [] o = "single" -> R([lo |-> lo], [st EXCEPT !.r = [lo |-> lo, hi |-> lo + 1]], <<>>)
    [] o = "slice" -> LET l == Slice(3) IN
         R([l |-> l], IF Consecutive(l) THEN [st EXCEPT !.r = OfSlice(l)] ELSE st, <<Consecutive(l)>>)
    [] o = "front" -> IF r.lo < r.hi THEN R(<<>>, [st EXCEPT !.r.lo = @ + 1], <<r.lo>>) ELSE R(<<>>, st, <<>>)
    [] o = "back" -> IF r.lo < r.hi THEN R(<<>>, [st EXCEPT !.r.hi = @ - 1], <<r.hi - 1>>) ELSE R(<<>>, st, <<>>)
    [] o = "nth" -> LET k == dice[3] % 4 IN
         IF r.lo + k < r.hi THEN R([k |-> k], [st EXCEPT !.r.lo = @ + k + 1], <<r.lo + k>>) ELSE R([k |-> k], [st EXCEPT !.r.lo = r.hi], <<>>)
    [] o = "relate" -> R([l |-> Pairs(3)], [st EXCEPT !.rel = Pairs(3)], <<>>)
    [] o = "sorted" -> LET l == SortSeq(Pairs(3), LAMBDA x, y : x[1] < y[1]) IN R([l |-> l], [st EXCEPT !.rel = l], <<>>)
    [] o = "init" -> R([n |-> lo, v |-> dice[4] % 7], [st EXCEPT !.one = [x \in 1..lo |-> dice[4] % 7]], <<>>)
    [] o = "assign" /\ st.one # <<>> -> LET k == 1 + (dice[3] % Len(st.one)) IN
         R([i |-> k - 1, v |-> dice[4] % 9], [st EXCEPT !.one[k] = dice[4] % 9], <<st.one[k]>>)
    [] o = "compare" -> R([x |-> List(3), y |-> IF v THEN List(3) ELSE List(4)], st, <<Cmp(List(3), IF v THEN List(3) ELSE List(4))>>)
    \* identifiers of one byte, of which the non-zero ones hold one less
    [] o = "id" -> LET x == IF (dice[3] % 3) = 0 THEN 253 + (dice[4] % 5) ELSE dice[4] % 300 IN R([x |-> x], st, <<x < 256, x < 255>>)
    [] o # "swap" /\ W > 0 -> [o |-> "capacity", args |-> [n |-> W], st |-> [st EXCEPT !.a = Bits(W, {})], ret |-> <<>>]
    [] OTHER -> [o |-> "swap", args |-> <<>>, st |-> [st EXCEPT !.a = st.b, !.b = st.a], ret |-> <<>>]
Probe == dice[6] % 9
See(s) == [a |-> SeeBits(s.a), r |-> SeeRange(s.r, Probe), probe |-> Probe, ids |-> Ids(s.rel), vals |-> Values(s.rel, Probe % 6), one |-> s.one]
Dice == TLCEval([k \in 1..7 |-> RandomElement(0..(99999 + Len(hist)))])
Init == st = Empty /\ hist = <<>> /\ dice = [k \in 1..7 |-> RandomElement(1..99999)]
Next ==
  LET s == TLCEval(Step)
      h == Append(hist, [o |-> s.o, args |-> s.args, ret |-> s.ret, see |-> See(s.st)]) IN
  /\ dice' = Dice
  /\ IF Len(h) = Steps THEN PrintT("CASE " \o ToJson(h)) /\ st' = Empty /\ hist' = <<>>
     ELSE st' = s.st /\ hist' = h
\* ------------------------------------------------------------ invariants
Within == st.a.s \subseteq Below(st.a.n) /\ st.b.s \subseteq Below(st.b.n) /\ st.r.lo <= st.r.hi
Algebra == /\ Not(Not(st.a)) = st.a
           /\ Xor(Xor(st.a, st.b), st.b).s = st.a.s
           /\ st.a.n = st.b.n => Not(Or(st.a, st.b)) = And(Not(st.a), Not(st.b))
           /\ And(st.a, st.b).s = And(st.b, st.a).s /\ Or(st.a, st.b) = Or(st.b, st.a)
SliceOfMembers == st.r.lo < st.r.hi => (Consecutive(Members(st.r)) /\ OfSlice(Members(st.r)) = st.r)
Partition == \A p \in 1..Len(st.rel) : \E k \in 1..Len(Values(st.rel, st.rel[p][1])) : Values(st.rel, st.rel[p][1])[k] = st.rel[p][2]
=============================================================================
