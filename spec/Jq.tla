--------------------------------- MODULE Jq ---------------------------------
(* Selections of JSON data by jq filters, with one selection object over a   *)
(* history of requests.  A fragment of jq: identity, keys, indexes, all      *)
(* elements, numbers, pipes and commas.  What a filter selects depends on    *)
(* the filter and the data alone, not on what was selected before it.        *)
(* Values are <<"n">>, <<"i", k>>, <<"o", keys, values>> and <<"a", values>>.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES pool, hist, said, dice

Null == <<"n">>
RECURSIVE Value(_, _)
Value(d, depth) ==
  LET x == d % 7  r == d \div 7 IN
  IF depth = 0 THEN (IF x < 3 THEN Null ELSE <<"i", d % 4>>)
  ELSE CASE x < 3 -> <<"o", <<"a", "b">>, <<Value(r, depth - 1), Value(r \div 3, depth - 1)>> >>
         [] x < 6 -> <<"a", [k \in 1..(r % 4) |-> Value(r \div k, depth - 1)]>>
         [] OTHER -> <<"i", r % 4>>
RECURSIVE Filter(_, _)
Filter(d, depth) ==
  LET x == d % 10  r == d \div 10 IN
  CASE x = 0 -> <<"id">>
    [] x < 4 -> <<"key", <<"a", "b", "c">>[1 + (r % 3)]>>
    [] x = 4 -> <<"at", r % 3>>
    [] x = 5 -> <<"all">>
    [] x = 6 -> <<"num", r % 4>>
    [] depth = 0 -> <<"key", "a">>
    [] x < 9 -> <<"pipe", Filter(r, depth - 1), Filter(r \div 7, depth - 1)>>
    [] OTHER -> <<"comma", Filter(r, depth - 1), Filter(r \div 7, depth - 1)>>
Bad == <<"bad">>
Error == <<"!">>
KeyOf(v, k) == IF \E i \in 1..Len(v[2]) : v[2][i] = k THEN v[3][CHOOSE i \in 1..Len(v[2]) : v[2][i] = k] ELSE Null
RECURSIVE Run(_, _), Over(_, _)
\* The results in order; an error is among them.
Run(f, v) ==
  CASE f[1] = "id" -> <<v>>
    [] f[1] = "num" -> << <<"i", f[2]>> >>
    [] f[1] = "key" -> IF v[1] = "o" THEN <<KeyOf(v, f[2])>> ELSE <<Error>>
    [] f[1] = "at" -> IF v[1] = "a" THEN <<IF f[2] < Len(v[2]) THEN v[2][f[2] + 1] ELSE Null>> ELSE <<Error>>
    [] f[1] = "all" -> IF v[1] = "a" THEN v[2] ELSE IF v[1] = "o" THEN v[3] ELSE <<Error>>
    [] f[1] = "comma" -> Run(f[2], v) \o Run(f[3], v)
    [] OTHER -> Over(f[3], Run(f[2], v))
Over(f, s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = Error THEN <<Error>> ELSE Run(f, s[1])) \o Over(f, Tail(s))
\* Nothing is looked at after the first error.
Upto(s) == IF \E i \in 1..Len(s) : s[i] = Error THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = Error /\ \A j \in 1..(i - 1) : s[j] # Error IN SubSeq(s, 1, i) ELSE s
Pool == [k \in 1..4 |-> IF k = 4 /\ dice[5] % 2 = 0 THEN Bad ELSE Filter(dice[k], 2)]
\* One request: a filter of the pool, in one of two spellings, over some data.
Step == LET k == 1 + (dice[1] % 4)  v == Value(dice[2], 2) IN
  \* known: this text was compiled before, and selecting with it again keeps nothing
  [known |-> pool[k] # Bad /\ \E j \in 1..Len(hist) : hist[j].filter = pool[k] /\ hist[j].spelling = dice[3] % 2,
   filter |-> pool[k], spelling |-> dice[3] % 2, which |-> k, data |-> v, out |-> IF pool[k] = Bad THEN <<"refused">> ELSE Upto(Run(pool[k], v))]
Init == pool = <<>> /\ hist = <<>> /\ said = 0 /\ dice = [k \in 1..5 |-> RandomElement(1..9999999)]
Next ==
  /\ IF Len(hist) = 7 THEN PrintT("CASE " \o ToJson([steps |-> hist])) ELSE TRUE
  /\ IF pool = <<>> \/ Len(hist) = 7 THEN pool' = Pool /\ hist' = <<>> ELSE pool' = pool /\ hist' = Append(hist, Step)
  /\ said' = said + 1
  /\ dice' = TLCEval([k \in 1..5 |-> RandomElement(0..(9999999 + said))])
\* ------------------------------------------------------------- invariants
\* The same filter over the same data selects the same, whatever was selected in between.
Again == \A i, j \in 1..Len(hist) : hist[i].filter = hist[j].filter /\ hist[i].data = hist[j].data => hist[i].out = hist[j].out
=============================================================================
