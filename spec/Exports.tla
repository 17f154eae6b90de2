------------------------------ MODULE Exports ------------------------------
(* What leaves the gateway for OTLP collectors, over HTTP.  A configuration  *)
(* has a global section, one for each signal, and Grafbase's; the history is *)
(* of spans, log records and measurements in two rounds, each flushed.  The  *)
(* result is what arrives at each target.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES dice, said

Signals == <<"tracing", "logs", "metrics">>
Suffix == [tracing |-> "/v1/traces", logs |-> "/v1/logs", metrics |-> "/v1/metrics"]
None == <<>>
\* ---------------------------------------------------------- configurations
Enabled(d) == CASE d % 4 = 0 -> <<FALSE>> [] d % 4 = 1 -> <<>> [] OTHER -> <<TRUE>>
Global == IF dice[1] % 8 = 0 THEN None ELSE
  << [enabled |-> Enabled(dice[1] \div 8), path |-> << <<"", "/", "/custom", "/custom/", "/?key=v", "/deep/er?a=b">>[1 + ((dice[1] \div 32) % 6)] >>, headers |-> IF (dice[1] \div 192) % 3 = 0 THEN None ELSE <<(dice[1] \div 192) % 3>>] >>
\* A signal's own section names an endpoint if the global one does not.
Local(d) == IF d % 3 = 0 THEN None ELSE
  << [enabled |-> Enabled(d \div 3), path |-> IF Global # None /\ (d \div 12) % 3 = 0 THEN <<>> ELSE << <<"/", "/own/x", "/v1/else?q=1">>[1 + ((d \div 36) % 3)] >>, headers |-> IF (d \div 108) % 3 = 0 THEN None ELSE <<2 + ((d \div 108) % 3)>>] >>
Grafbase == IF dice[2] % 3 # 0 THEN None ELSE
  << [enabled |-> Enabled(dice[2] \div 3), path |-> << <<"/grafbase", "/", "">>[1 + ((dice[2] \div 12) % 3)] >>, headers |-> IF (dice[2] \div 36) % 2 = 0 THEN None ELSE <<5>>] >>
Config ==
  [global |-> Global, grafbase |-> Grafbase, batch |-> <<1, 2, 512>>[1 + ((dice[2] \div 72) % 3)],
   own |-> [tracing |-> Local(dice[3]), logs |-> Local(dice[4]), metrics |-> Local(dice[5])],
   sampling |-> <<0, 2, 5, 8, 8, 8>>[1 + (dice[6] % 6)], parents |-> (dice[6] \div 6) % 2 = 0,
   limits |-> [k \in 1..5 |-> <<1, 2, 3, 128>>[1 + ((dice[6] \div (12 * (4 ^ (k - 1)))) % 4)]],
   service |-> (dice[6] \div 12288) % 2, resource |-> (dice[6] \div 24576) % 3]
\* -------------------------------------------------------------- the history
Counts(d, n) == [k \in 1..n |-> (d \div (5 ^ (k - 1))) % 5]
Span(d, e) == [fraction |-> d % 8, parent |-> <<"none", "sampled", "unsampled", "none">>[1 + ((d \div 8) % 4)], attributes |-> (d \div 32) % 5,
               events |-> Counts(d \div 160, e % 5), links |-> Counts(d \div 1000, (e \div 5) % 5)]
Round(d, e, f) == [spans |-> [k \in 1..(d % 4) |-> Span((d \div 4) * k + k, (e \div k) + k)], logs |-> (e \div 7) % 4, adds |-> [k \in 1..(f % 3) |-> 1 + ((f \div (3 * k)) % 50)], records |-> [k \in 1..((f \div 200) % 3) |-> (f \div (600 * k)) % 90]]
\* --------------------------------------------------------------- what comes
Or(a, b) == IF a # <<>> THEN a ELSE b
On(s) == s # <<>>
In(sec, what) == IF sec = None THEN <<>> ELSE sec[1][what]
\* Only an endpoint meant for all signals gets the signal's path, if it has none.
WithPath(p, signal) == CASE p \in {"", "/"} -> Suffix[signal] [] p = "/?key=v" -> Suffix[signal] \o "?key=v" [] OTHER -> p
Target(c, signal) ==
  LET g == c.global  l == c.own[signal]  on == Or(In(l, "enabled"), In(g, "enabled")) IN
  IF on # <<TRUE>> THEN {}
  ELSE {[path |-> IF In(l, "path") # <<>> THEN l[1].path[1] ELSE WithPath(g[1].path[1], signal), headers |-> Or(In(l, "headers"), In(g, "headers")), of |-> "own"]}
GrafbaseTarget(c, signal) ==
  IF c.grafbase = None \/ In(c.grafbase, "enabled") = <<FALSE>> \/ signal = "logs" THEN {}
  ELSE {[path |-> WithPath(c.grafbase[1].path[1], signal), headers |-> In(c.grafbase, "headers"), of |-> "grafbase"]}
Targets(c, signal) == Target(c, signal) \cup GrafbaseTarget(c, signal)
Sampled(c, s) == IF c.parents /\ s.parent # "none" THEN s.parent = "sampled" ELSE s.fraction < c.sampling
Least(a, b) == IF a < b THEN a ELSE b
Kept(c, s) ==
  LET L == c.limits IN
  [attributes |-> Least(s.attributes, L[1]), lost |-> s.attributes - Least(s.attributes, L[1]),
   events |-> [k \in 1..Least(Len(s.events), L[2]) |-> <<Least(s.events[k], L[4]), s.events[k] - Least(s.events[k], L[4])>>], lostEvents |-> Len(s.events) - Least(Len(s.events), L[2]),
   links |-> [k \in 1..Least(Len(s.links), L[3]) |-> <<Least(s.links[k], L[5]), s.links[k] - Least(s.links[k], L[5])>>], lostLinks |-> Len(s.links) - Least(Len(s.links), L[3])]
Arrive(c, r) == [k \in 1..Len(r.spans) |-> IF Sampled(c, r.spans[k]) THEN <<Kept(c, r.spans[k])>> ELSE <<>>]
Case == LET c == Config  rounds == <<Round(dice[7], dice[8], dice[9]), Round(dice[8], dice[9], dice[7])>> IN
  [config |-> c, rounds |-> rounds, targets |-> [tracing |-> Targets(c, "tracing"), logs |-> Targets(c, "logs"), metrics |-> Targets(c, "metrics")], spans |-> [k \in 1..2 |-> Arrive(c, rounds[k])]]
Init == said = 0 /\ dice = [k \in 1..9 |-> RandomElement(1..99999999)]
Next == /\ PrintT("CASE " \o ToJson(Case))
        /\ said' = said + 1 /\ dice' = TLCEval([k \in 1..9 |-> RandomElement(0..(99999999 + said))])
\* ------------------------------------------------------------- invariants
\* The signal's own setting wins over the global one, each for itself.
OwnFirst == LET c == Config IN \A s \in {"tracing", "logs", "metrics"} : \A t \in Target(c, s) :
  /\ In(c.own[s], "path") # <<>> => t.path = c.own[s][1].path[1]
  /\ In(c.own[s], "headers") # <<>> => t.headers = c.own[s][1].headers
\* With the parent's decision honoured, a trace is not cut in the middle; nothing is sampled at 0.
Decided == LET c == Config  r == Round(dice[7], dice[8], dice[9]) IN \A k \in 1..Len(r.spans) : LET s == r.spans[k] IN
  /\ c.parents /\ s.parent = "unsampled" => ~Sampled(c, s)
  /\ c.sampling = 0 /\ (~c.parents \/ s.parent = "none") => ~Sampled(c, s)
  /\ c.sampling = 8 /\ (~c.parents \/ s.parent = "none") => Sampled(c, s)
\* What is lost is told.
Told == LET c == Config  r == Round(dice[7], dice[8], dice[9]) IN \A k \in 1..Len(r.spans) : LET s == r.spans[k]  x == Kept(c, s) IN
  x.attributes + x.lost = s.attributes /\ Len(x.events) + x.lostEvents = Len(s.events) /\ Len(x.links) + x.lostLinks = Len(s.links)
=============================================================================
