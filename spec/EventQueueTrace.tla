--------------------------- MODULE EventQueueTrace -------------------------
(* Recorded runs of several threads on one event queue.  Each operation takes *)
(* effect at one instant between its call and its return (linearizability):   *)
(* a push appends its event if the filter keeps its kind, a pop takes the     *)
(* first event, or nothing if there is none.  What is left at the end is what *)
(* the specification has left.                                                *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, i, queue, pending, pushed
\* a trace: [kept: kinds the filter keeps, events: calls and returns in order, rest: left at the end]
Traces == TLCEval(JsonDeserialize(IOEnv.TRACES))
ASSUME \A x \in DOMAIN Traces : TLCSet(x, 0)
Threads == 1..6
Idle == [do |-> "idle", id |-> 0, done |-> TRUE]
\* Pruning: an event taken before another (by a pop that returned before the other's was called, or left behind
\* the other) was pushed before it.  Taken[x][id]: the call and the return of the pop that took it.
Ids(x) == { Traces[x].events[k].id : k \in { j \in DOMAIN Traces[x].events : Traces[x].events[j].do = "push" } }
CallOf(x, k) == CHOOSE j \in 1..(k - 1) : /\ Traces[x].events[j].e = "call" /\ Traces[x].events[j].t = Traces[x].events[k].t
                                           /\ \A m \in (j + 1)..(k - 1) : Traces[x].events[m].t # Traces[x].events[k].t
TakenIn(x) == LET n == Len(Traces[x].events)
                  rets == { k \in 1..n : Traces[x].events[k].e = "return" /\ Traces[x].events[k].id # 0 } IN
  [id \in Ids(x) |->
    IF \E k \in rets : Traces[x].events[k].id = id THEN LET k == CHOOSE k \in rets : Traces[x].events[k].id = id IN [call |-> CallOf(x, k), ret |-> k]
    ELSE IF \E k \in DOMAIN Traces[x].rest : Traces[x].rest[k] = id THEN LET k == CHOOSE k \in DOMAIN Traces[x].rest : Traces[x].rest[k] = id IN [call |-> n + k, ret |-> n + k]
    ELSE [call |-> 0, ret |-> 100000]]
Taken == TLCEval([x \in DOMAIN Traces |-> TakenIn(x)])
Earlier == TLCEval([x \in DOMAIN Traces |-> [id \in Ids(x) |-> { a \in Ids(x) : Taken[x][a].ret < Taken[x][id].call }]])
TInit == pushed = {} /\ tr \in DOMAIN Traces /\ i = 0 /\ queue = <<>> /\ pending = [t \in Threads |-> Idle]
Kept(e) == \E k \in DOMAIN Traces[tr].kept : Traces[tr].kept[k] = e.kind

\* the next recorded event
Record ==
  /\ i < Len(Traces[tr].events)
  /\ i' = i + 1
  /\ LET e == Traces[tr].events[i + 1] IN
     IF e.e = "call"
     THEN pending' = [pending EXCEPT ![e.t] = [do |-> IF e.do = "pop" THEN "pop" ELSE IF Kept(e) THEN "push" ELSE "drop", id |-> IF e.do = "pop" THEN 0 ELSE e.id, done |-> FALSE]]
     ELSE /\ pending[e.t].done
          /\ pending[e.t].do = "pop" => pending[e.t].id = e.id
          /\ pending' = [pending EXCEPT ![e.t] = Idle]
  /\ UNCHANGED <<tr, queue, pushed>>
\* an operation takes effect.  It may wait for that until an operation returns that has not: any order of effects
\* can be delayed so far, and no further.
Waiting == i < Len(Traces[tr].events) /\ LET e == Traces[tr].events[i + 1] IN e.e = "return" /\ ~pending[e.t].done
Effect ==
  Waiting /\ \E t \in Threads :
    /\ ~pending[t].done
    /\ CASE pending[t].do = "push" -> /\ Earlier[tr][pending[t].id] \subseteq pushed
                                       /\ pushed' = pushed \cup {pending[t].id} /\ queue' = Append(queue, pending[t].id) /\ pending' = [pending EXCEPT ![t].done = TRUE]
         [] pending[t].do = "drop" -> queue' = queue /\ pending' = [pending EXCEPT ![t].done = TRUE] /\ UNCHANGED pushed
         [] OTHER -> /\ UNCHANGED pushed
                     /\ queue' = IF queue = <<>> THEN <<>> ELSE Tail(queue)
                     /\ pending' = [pending EXCEPT ![t].done = TRUE, ![t].id = IF queue = <<>> THEN 0 ELSE Head(queue)]
    /\ UNCHANGED <<tr, i>>
\* drained
End == /\ i = Len(Traces[tr].events) /\ queue = Traces[tr].rest
       /\ i' = i + 1
       /\ UNCHANGED <<tr, queue, pending, pushed>>
TNext == Record \/ Effect \/ End
Seen == TLCSet(tr, IF TLCGet(tr) < i THEN i ELSE TLCGet(tr))
Conforms == \A x \in DOMAIN Traces : TLCGet(x) = Len(Traces[x].events) + 1 \/ PrintT("CASE " \o ToJson([trace |-> x, step |-> TLCGet(x)]))
=============================================================================
