---------------------------- MODULE Introspection ----------------------------
(* Introspecting a subgraph that is running.  It is asked for the SDL of its *)
(* federation service first, and for the standard introspection if it does   *)
(* not give one.  The server is free: it answers each question in any way,   *)
(* or not at all.  What was asked, and with which headers, is part of the    *)
(* state; the state is final when there is a result.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES server, headers, document, asked, result

\* Answers to the question for the service that carry its SDL, and others.
Gives == {"sdl", "sdl with errors", "sdl with more", "raw", "empty"}
Lacks == {"status 500", "status 404", "null service", "null data", "no data", "errors", "no sdl", "sdl is a number", "not json", "list", "closed"}
\* Answers to the standard introspection.
Describes == {"schema", "schema with more"}
Errs == {"one error", "two errors", "errors with data"}
Nothing == {"nothing", "no schema", "unnamed type", "no query type", "not json", "closed", "status 500", "data is null"}
Headers == { <<>>,
             << <<"authorization", "Bearer a.b-c==">> >>,
             << <<"x-one", "1">>, <<"X-Two", "two, and more">> >>,
             << <<"x-same", "first">>, <<"x-other", "between">>, <<"x-same", "second">> >>,
             << <<"accept-language", "de">>, <<"cookie", "a=b; c=\"d\"">> >> }
Init == server \in [service : Gives \cup Lacks, standard : Describes \cup Errs \cup Nothing] /\ headers \in Headers /\ document \in 0..2 /\ asked = <<>> /\ result = <<>>
Ask(what) == asked' = Append(asked, [what |-> what, headers |-> headers])
AskService ==
  /\ asked = <<>> /\ result = <<>> /\ Ask("service")
  /\ result' = IF server.service \in Gives THEN <<"service">> ELSE <<>>
AskStandard ==
  /\ Len(asked) = 1 /\ result = <<>> /\ Ask("standard")
  /\ result' = CASE server.standard \in Describes -> <<"standard">>
                 [] server.standard \in Errs -> <<"errors", IF server.standard = "one error" THEN 1 ELSE 2>>
                 [] server.standard \in {"nothing", "data is null"} -> <<"missing">>
                 [] OTHER -> <<"failed">>
Next == (AskService \/ AskStandard) /\ UNCHANGED <<server, headers, document>>
Say == result # <<>> => PrintT("CASE " \o ToJson([service |-> server.service, standard |-> server.standard, headers |-> headers, document |-> document, asked |-> asked, result |-> result]))
\* ------------------------------------------------------------- invariants
\* The service's SDL is the schema if there is one, whatever the standard introspection would say.
ServiceFirst == result # <<>> => (result[1] = "service") = (server.service \in Gives)
\* A failure of the first question alone is not a failure.
OnlyBoth == result # <<>> /\ result[1] \notin {"service", "standard"} => server.service \in Lacks /\ server.standard \notin Describes
\* Nothing is asked twice, or without the headers.
AskedOnce == Len(asked) <= 2 /\ \A i \in 1..Len(asked) : asked[i].headers = headers /\ asked[i].what = <<"service", "standard">>[i]
=============================================================================
