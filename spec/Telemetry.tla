----------------------------- MODULE Telemetry ----------------------------
(* Exporter settings of a gateway's telemetry.  A document gives settings  *)
(* to sections: the global exporters, those of a signal, and Grafbase's    *)
(* own OTLP target.  For stdout, a signal's section replaces the global    *)
(* one; for OTLP each setting (enabled, endpoint, protocol, timeout,       *)
(* batch_export, grpc, http) of the signal's section replaces the global   *)
(* one.  A behaviour writes a document setting by setting; in every state  *)
(* it is read as the gateway reads it.                                     *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Steps
VARIABLES doc, dice

Signals == {"tracing", "metrics", "logs"}
Scopes == Signals \cup {"global", "grafbase"}
BatchKeys == <<"scheduled_delay", "max_queue_size", "max_export_batch_size", "max_concurrent_exports">>
BatchDefault == <<"5s", "2048", "512", "1">>

\* A section is a set of settings (key -> value); values are names.  The batch_export, grpc and http tables
\* are sections of their own: the keys are "batch/scheduled_delay", "grpc/headers/h1", "grpc/tls/ca", ...
\* A key that ends with "/" says that the table is there.
Tables == {"batch", "grpc", "http"}
StdoutSimple == <<"enabled", "timeout">>
OtlpSimple == <<"enabled", "endpoint", "protocol", "timeout">>
GrpcKeys == <<"headers", "tls/domain_name", "tls/key", "tls/cert", "tls/ca">>
ValuesOf(k) == CASE k = "enabled" -> <<"true", "false">> [] k = "timeout" -> <<"3s", "90s", "1m", "250ms">>
                 [] k = "endpoint" -> <<"http://one:1/", "http://two:2/v1/x", "https://three/">> [] k = "protocol" -> <<"grpc", "http">>
                 [] k = "scheduled_delay" -> <<"7s", "5s", "1m">> [] k \in Range(BatchKeys) -> <<"1", "17", "512", "2048", "0">>
                 [] k = "headers" -> <<"h1", "h2", "h1+h2", "none">> [] OTHER -> <<"x", "y">>

\* exporter: "stdout" or "otlp"; a section is [present, set] with set a function from keys
None == [present |-> FALSE, set |-> << >>]
Has(s, k) == k \in DOMAIN s.set
Get(s, k, d) == IF Has(s, k) THEN s.set[k] ELSE d
Put(s, k, v) == [present |-> TRUE, set |-> (k :> v) @@ s.set]

\* ------------------------------------------------------------ reading
BatchKey(k) == "batch/" \o k
HasTable(s, t) == Has(s, t \o "/")
Batch(s) == [i \in 1..4 |-> Get(s, BatchKey(BatchKeys[i]), BatchDefault[i])]
GrpcOf(s) == [i \in 1..5 |-> Get(s, "grpc/" \o GrpcKeys[i], "none")]
HttpOf(s) == Get(s, "http/headers", "none")

Off == [on |-> FALSE, timeout |-> "", batch |-> <<>>]
StdoutOf(s) == IF s.present /\ Get(s, "enabled", "true") = "true"
               THEN [on |-> TRUE, timeout |-> Get(s, "timeout", "60s"), batch |-> IF HasTable(s, "batch") THEN Batch(s) ELSE <<>>] ELSE Off
Stdout(d, sig) == IF d[sig].stdout.present THEN StdoutOf(d[sig].stdout) ELSE StdoutOf(d["global"].stdout)

OtlpOff == [on |-> FALSE, timeout |-> "", batch |-> <<>>, protocol |-> "", grpc |-> <<>>, http |-> "", endpoint |-> ""]
First(l, g, k, d) == Get(l, k, Get(g, k, d))
Layered(l, g) ==
  LET p == First(l, g, "protocol", "grpc")
      table(t) == IF HasTable(l, t) THEN l ELSE g IN
  [on |-> TRUE, timeout |-> First(l, g, "timeout", "60s"), batch |-> Batch(table("batch")), protocol |-> p,
   grpc |-> IF p = "grpc" THEN GrpcOf(table("grpc")) ELSE <<>>, http |-> IF p = "http" THEN HttpOf(table("http")) ELSE "",
   endpoint |-> First(l, g, "endpoint", "")]
Otlp(d, sig) ==
  LET l == d[sig].otlp
      g == d["global"].otlp IN
  IF First(l, g, "enabled", "false") = "true" THEN Layered(l, g) ELSE OtlpOff
Grafbase(d) == LET s == d["grafbase"].otlp IN IF s.present /\ Get(s, "enabled", "true") = "true" THEN Layered(None, s) ELSE OtlpOff

Reading(d) ==
  [stdout |-> [sig \in Signals |-> Stdout(d, sig)],
   otlp |-> [sig \in Signals |-> Otlp(d, sig)],
   grafbase |-> Grafbase(d),
   tracing |-> Otlp(d, "tracing").on \/ Stdout(d, "tracing").on \/ Grafbase(d).on,
   logs |-> Otlp(d, "logs").on \/ Stdout(d, "logs").on]

\* ------------------------------------------------------------ writing
Empty == [s \in Scopes |-> [stdout |-> None, otlp |-> None]]
\* settings of a table make the table present
Write(s, k, v) == LET t == { x \in Tables : \E y \in Range(BatchKeys) \cup Range(GrpcKeys) : k = x \o "/" \o y } IN
                  IF t = {} THEN Put(s, k, v) ELSE Put(Put(s, k, v), (CHOOSE x \in t : TRUE) \o "/", "")
Present(s) == [present |-> TRUE, set |-> s.set]
StdoutKeys == StdoutSimple \o <<"batch/">> \o [i \in 1..4 |-> BatchKey(BatchKeys[i])]
OtlpKeys == OtlpSimple \o <<"batch/", "grpc/", "http/", "enabled", "protocol">> \o [i \in 1..4 |-> BatchKey(BatchKeys[i])] \o [i \in 1..5 |-> "grpc/" \o GrpcKeys[i]] \o <<"http/headers", "enabled">>
Leaf(k) == CASE \E i \in 1..4 : k = BatchKey(BatchKeys[i]) -> BatchKeys[CHOOSE i \in 1..4 : k = BatchKey(BatchKeys[i])]
             [] k \in {"grpc/headers", "http/headers"} -> "headers" [] OTHER -> k
ScopeSeq == <<"global", "tracing", "metrics", "logs", "grafbase", "global", "tracing", "metrics", "logs">>

Dice == TLCEval([k \in 1..5 |-> RandomElement(0..(99999 + Cardinality(DOMAIN doc["global"].otlp.set)))])
Edit(d, dc) ==
  LET sc == ScopeSeq[1 + (dc[1] % Len(ScopeSeq))]
      ex == IF sc = "grafbase" \/ (dc[2] % 3) > 0 THEN "otlp" ELSE "stdout"
      keys == IF ex = "otlp" THEN OtlpKeys ELSE StdoutKeys
      k == keys[1 + (dc[3] % Len(keys))]
      vs == ValuesOf(Leaf(k))
      v == IF k \in {"batch/", "grpc/", "http/"} THEN "" ELSE vs[1 + (dc[4] % Len(vs))] IN
  IF dc[5] % 15 = 0 THEN [d EXCEPT ![sc] = [@ EXCEPT ![ex] = Present(@)]]
  ELSE IF dc[5] % 15 = 1 THEN [d EXCEPT ![sc] = [@ EXCEPT ![ex] = None]]
  ELSE [d EXCEPT ![sc] = [@ EXCEPT ![ex] = Write(@, k, v)]]
Out(d) == [doc |-> [s \in Scopes |-> [e \in {"stdout", "otlp"} |-> [present |-> d[s][e].present, set |-> { <<k, d[s][e].set[k]>> : k \in DOMAIN d[s][e].set }]]], read |-> Reading(d)]
Count == LET n(s, e) == Cardinality(DOMAIN doc[s][e].set) IN n("global", "otlp") + n("tracing", "otlp") + n("metrics", "otlp") + n("logs", "otlp") + n("global", "stdout") + n("tracing", "stdout") + n("metrics", "stdout") + n("logs", "stdout")
Init == doc = Empty /\ dice = [k \in 1..5 |-> RandomElement(1..99999)]
Next == /\ doc' = IF Count >= Steps THEN Empty ELSE Edit(doc, dice)
        /\ dice' = Dice
        /\ PrintT("CASE " \o ToJson(Out(doc')))

\* the switches alone, in every combination: stdout {absent, empty, on, off} x otlp {absent, empty, on, off} x sections
Stdouts == { None, Present(None), Put(None, "enabled", "true"), Put(None, "enabled", "false") }
InitAll == /\ doc \in { [Empty EXCEPT !["global"] = [stdout |-> gs, otlp |-> go], !["grafbase"] = [stdout |-> None, otlp |-> gr]] : gs \in Stdouts, go \in Stdouts, gr \in Stdouts }
           /\ dice = <<>>
NextAll == /\ \A s \in Signals : ~doc[s].stdout.present /\ ~doc[s].otlp.present
           /\ \E sig \in Signals, so \in Stdouts, ot \in Stdouts : doc' = [doc EXCEPT ![sig] = [stdout |-> so, otlp |-> ot]]
           /\ PrintT("CASE " \o ToJson(Out(doc')))
           /\ UNCHANGED dice

\* ------------------------------------------------------------ invariants
\* a signal's reading depends on its own section and the global one only
Independent == \A sig \in Signals : LET d == [s \in Scopes |-> IF s \in {sig, "global"} THEN doc[s] ELSE Empty[s]] IN
                 Otlp(d, sig) = Otlp(doc, sig) /\ Stdout(d, sig) = Stdout(doc, sig)
\* what a signal says of its own wins whatever the global section says
Local == \A sig \in Signals : LET l == doc[sig].otlp
                                  d == [doc EXCEPT !["global"] = Empty["global"]] IN
           (Otlp(doc, sig).on /\ Otlp(d, sig).on) =>
             /\ Has(l, "timeout") => Otlp(d, sig).timeout = Otlp(doc, sig).timeout
             /\ Has(l, "protocol") => Otlp(d, sig).protocol = Otlp(doc, sig).protocol
             /\ HasTable(l, "batch") => Otlp(d, sig).batch = Otlp(doc, sig).batch
             /\ doc[sig].stdout.present => Stdout(d, sig) = Stdout(doc, sig)
\* a signal that says nothing is read as the global section
Global == \A sig \in Signals : (~doc[sig].otlp.present /\ ~doc[sig].stdout.present) =>
            \A s2 \in Signals : (~doc[s2].otlp.present /\ ~doc[s2].stdout.present) => (Otlp(doc, sig) = Otlp(doc, s2) /\ Stdout(doc, sig) = Stdout(doc, s2))
=============================================================================
