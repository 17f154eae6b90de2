-------------------------------- MODULE Events -----------------------------
(* A request's event queue as one thread sees it: events are built setter by *)
(* setter while time passes, pushed if the filter selects their kind, and    *)
(* handed out in the order they were pushed.                                 *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Steps
VARIABLES filter, queue, hist, now, dice, pushed, popped

Kinds == <<"operation", "subgraph", "http", "extension">>
Filters == <<"none", "default", "all">>
Selected(f) == CASE f = "none" \/ f = "default" -> {} [] f = "all" -> Range(Kinds) [] OTHER -> {}
\* a filter of types is a set of kinds
Keeps(f, k) == IF f.all = "types" THEN k \in f.types ELSE k \in Selected(f.all)

Names == <<"", "n1", "Ünï", "n1 n2">>
Docs == <<"query { a }", "", "mutation M { x }", "{ é }">>
Types == <<"query", "mutation", "subscription">>
Statuses == << [kind |-> "success"], [kind |-> "field", count |-> 1, null |-> TRUE], [kind |-> "field", count |-> 7, null |-> FALSE], [kind |-> "request", count |-> 3], [kind |-> "refused"] >>
Methods == <<"GET", "POST", "PUT", "DELETE", "PATCH">>
Urls == <<"http://a/", "", "https://b.example/x?y=1">>
Codes == <<200, 204, 301, 404, 418, 500, 599, 100>>
HeaderLists == << <<>>, <<"x-a: 1">>, <<"x-a: 1", "x-a: 2">>, <<"x-b: b", "x-a: ">> >>
Datas == << <<>>, <<0>>, <<1, 2, 255>> >>
At(f, d) == f[1 + (d % Len(f))]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* the d-th number drawn from one draw
Bit(dc, d) == (dc[1 + (d % Len(dc))] \div (1 + d)) + d
Setter(k, dc, d) ==
  LET x == Bit(dc, d)
      y == Bit(dc, d + 3) IN
  CASE k = "operation" ->
        (CASE x % 8 = 0 -> [set |-> "name", v |-> At(Names, y)] [] x % 8 = 1 -> [set |-> "document", v |-> At(Docs, y)] [] x % 8 = 2 -> [set |-> "prepare", v |-> 0]
           [] x % 8 = 3 -> [set |-> "cached", v |-> (y % 2 = 0)] [] x % 8 = 4 -> [set |-> "status", v |-> At(Statuses, y)] [] x % 8 = 5 -> [set |-> "type", v |-> At(Types, y)]
           [] x % 8 = 6 -> [set |-> "complexity", v |-> y % 1000] [] OTHER -> [set |-> "deprecated", v |-> (y % 2 = 0)])
    [] k = "subgraph" ->
        (CASE x % 5 = 0 -> [set |-> "cache", v |-> At(<<"hit", "partial", "miss">>, y)] [] x % 5 = 1 -> [set |-> "status", v |-> At(Statuses, y)]
           [] x % 5 = 2 -> [set |-> "execution", v |-> [is |-> At(<<"server error", "request error", "rate limited">>, y), sets |-> <<>>]]
           [] OTHER -> [set |-> "execution", v |-> [is |-> "response", sets |-> [j \in 1..(y % 5) |->
                 LET z == Bit(dc, d + j) IN
                 CASE z % 4 = 0 -> [set |-> "connection", v |-> 0] [] z % 4 = 1 -> [set |-> "response", v |-> 0] [] z % 4 = 2 -> [set |-> "status", v |-> At(Codes, z \div 4)]
                   [] OTHER -> [set |-> "headers", v |-> At(HeaderLists, z \div 4)]]]])
    [] OTHER -> IF x % 2 = 0 THEN [set |-> "method", v |-> At(Methods, y)] ELSE [set |-> "status", v |-> At(Codes, y)]

\* the i-th setter of a sequence happens at its time
Delay(dc, d) == At(<<0, 1, 13, 250, 2000>>, Bit(dc, d))
LastOf(sets, name, default) == LET m == SelectSeq(sets, LAMBDA s : s.set = name) IN IF m = <<>> THEN default ELSE m[Len(m)].v
LastAt(sets, name, start) == LET m == SelectSeq(sets, LAMBDA s : s.set = name) IN IF m = <<>> THEN 0 ELSE m[Len(m)].at - start

\* what the event carries
ResponseOf(x, at) == [is |-> "response", connection |-> LastAt(x.sets, "connection", at), response |-> LastAt(x.sets, "response", at),
                      status |-> LastOf(x.sets, "status", 200), headers |-> LastOf(x.sets, "headers", <<>>)]
Carried(e) ==
  CASE e.kind = "operation" ->
        [kind |-> "operation", name |-> LastOf(e.sets, "name", "NONE"), document |-> LastOf(e.sets, "document", ""), prepare |-> LastAt(e.sets, "prepare", e.at), duration |-> e.end - e.at,
         cached |-> LastOf(e.sets, "cached", FALSE), status |-> LastOf(e.sets, "status", [kind |-> "success"]), type |-> LastOf(e.sets, "type", e.type), complexity |-> LastOf(e.sets, "complexity", 1000),
         deprecated |-> LastOf(e.sets, "deprecated", FALSE)]
    [] e.kind = "subgraph" ->
        [kind |-> "subgraph", name |-> e.name, method |-> e.method, url |-> e.url, duration |-> e.end - e.at, cache |-> LastOf(e.sets, "cache", "miss"),
         errors |-> (LastOf(e.sets, "status", [kind |-> "success"]).kind # "success"),
         executions |-> LET m == SelectSeq(e.sets, LAMBDA s : s.set = "execution") IN [j \in DOMAIN m |-> IF m[j].v.is = "response" THEN ResponseOf(m[j].v, m[j].at) ELSE [is |-> m[j].v.is]]]
    [] e.kind = "http" -> [kind |-> "http", url |-> e.url, method |-> LastOf(e.sets, "method", "POST"), status |-> LastOf(e.sets, "status", 200)]
    [] OTHER -> [kind |-> "extension", extension |-> e.name, event |-> e.event, data |-> e.data]

\* an event and the time at which it is pushed
RECURSIVE Timed(_, _, _)
Timed(sets, t, dc) ==
  IF sets = <<>> THEN [sets |-> <<>>, end |-> t]
  ELSE LET s == Head(sets)
           t1 == t + Delay(dc, Len(sets))
           inner == s.set = "execution"
           u == IF inner THEN Timed(s.v.sets, t1, dc) ELSE [sets |-> <<>>, end |-> t1]
           me == IF inner THEN [set |-> s.set, v |-> [s.v EXCEPT !.sets = u.sets], at |-> t1] ELSE [set |-> s.set, v |-> s.v, at |-> t1]
           r == Timed(Tail(sets), u.end, dc) IN
       [sets |-> <<me>> \o r.sets, end |-> r.end]
Push(dc) ==
  LET k == At(Kinds, dc[1])
      n == dc[2] % 7
      raw == IF k = "extension" THEN <<>> ELSE [j \in 1..n |-> Setter(k, dc, j)]
      b == Timed(raw, now, dc)
      end == b.end + Delay(dc, 5)
      e == [do |-> "push", kind |-> k, sets |-> b.sets, at |-> now, end |-> end] IN
  CASE k = "operation" -> e @@ [type |-> IF dc[3] % 4 = 0 THEN "query" ELSE At(Types, dc[3]), plain |-> (dc[3] % 4 = 0)]
    [] k = "subgraph" -> e @@ [name |-> At(Names, dc[3]), method |-> At(Methods, dc[4]), url |-> At(Urls, dc[5])]
    [] k = "http" -> e @@ [url |-> At(Urls, dc[3])]
    [] OTHER -> e @@ [name |-> At(Names, dc[3]), event |-> At(Names, dc[4]), data |-> At(Datas, dc[5]), fails |-> (dc[6] % 5 = 0)]

\* a failing extension event is only asked for if it would be kept
Kept(e) == Keeps(filter, e.kind) /\ ~(e.kind = "extension" /\ e.fails)
Failed(e) == Keeps(filter, e.kind) /\ e.kind = "extension" /\ e.fails
NoEvent == [kind |-> "none"]

Dice == TLCEval([k \in 1..7 |-> RandomElement(0..(999999 + Len(hist)))])
PickFilter(dc) == IF dc[1] % 3 = 0 THEN [all |-> At(Filters, dc[2]), types |-> {}] ELSE [all |-> "types", types |-> { Kinds[i] : i \in { j \in 1..4 : (dc[2] \div (2 ^ j)) % 2 = 1 } }]
Init == filter = [all |-> "all", types |-> {}] /\ queue = <<>> /\ hist = <<>> /\ now = 0 /\ pushed = <<>> /\ popped = <<>> /\ dice = [k \in 1..7 |-> RandomElement(1..999999)]
Next ==
  /\ IF Len(hist) >= Steps
     THEN /\ filter' = PickFilter(dice)
          /\ queue' = <<>> /\ hist' = <<>> /\ now' = 0 /\ pushed' = <<>> /\ popped' = <<>>
     ELSE /\ IF dice[7] % 5 < 3
             THEN LET e == Push(dice) IN
                  /\ queue' = IF Kept(e) THEN Append(queue, Carried(e)) ELSE queue
                  /\ pushed' = IF Kept(e) THEN Append(pushed, Carried(e)) ELSE pushed
                  /\ hist' = Append(hist, [step |-> e, answer |-> [failed |-> Failed(e)]])
                  /\ now' = e.end
                  /\ UNCHANGED popped
             ELSE /\ queue' = IF queue = <<>> THEN <<>> ELSE Tail(queue)
                  /\ popped' = IF queue = <<>> THEN popped ELSE Append(popped, Head(queue))
                  /\ hist' = Append(hist, [step |-> [do |-> "pop"], answer |-> IF queue = <<>> THEN NoEvent ELSE Head(queue)])
                  /\ UNCHANGED <<now, pushed>>
          /\ UNCHANGED filter
          /\ Len(hist') = Steps => PrintT("CASE " \o ToJson([filter |-> filter, steps |-> hist']))
  /\ dice' = Dice
\* nothing is lost, repeated or reordered, and nothing the filter leaves out is there
Fifo == popped \o queue = pushed
Filtered == \A j \in DOMAIN pushed : Keeps(filter, pushed[j].kind)
=============================================================================
