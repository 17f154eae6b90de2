--------------------------- MODULE RollingLogTrace -------------------------
(* Recorded histories of the rolling log, checked step by step: each         *)
(* observation must be an outcome of the operation.                          *)
EXTENDS RollingLog, IOUtils
VARIABLES tr, i
Traces == TLCEval(JsonDeserialize(IOEnv.TRACES))
ASSUME \A x \in DOMAIN Traces : TLCSet(x, 0)

Files1(o) == /\ st'.cur = o.cur
             /\ st'.arch = o.arch
TInit == /\ tr \in DOMAIN Traces /\ i = 0
         /\ st = Closed /\ now = Begin /\ back = FALSE /\ hist = <<>> /\ accepted = <<>> /\ dice = <<>>
TNext == /\ i < Len(Traces[tr])
         /\ LET o == Traces[tr][i + 1]
                t == [s |-> o.s, ms |-> o.ms] IN
            /\ now' = t
            /\ back' = (back \/ Earlier(t, now))
            /\ st' \in Outcomes(st, t, back \/ Earlier(t, now), o)
            /\ Files1(o)
         /\ i' = i + 1
         /\ UNCHANGED <<tr, hist, accepted, dice>>
Seen == TLCSet(tr, IF TLCGet(tr) < i THEN i ELSE TLCGet(tr))
\* every recorded history is one of the specification's
Conforms == \A x \in DOMAIN Traces : TLCGet(x) = Len(Traces[x]) \/ PrintT("CASE " \o ToJson([trace |-> x, step |-> TLCGet(x)]))
=============================================================================
