------------------------------- MODULE Config -----------------------------
(* The gateway's configuration file: its sections, its keys, the values    *)
(* each key takes, what they are read as, what is read when they are not   *)
(* there, and which keys must be there.  A document is a set of keys with  *)
(* literals; a behaviour writes one, key by key, and in every state it is  *)
(* loaded: refused if a literal is outside its kind, if a key or section   *)
(* is unknown, or if a required key is missing; otherwise every key reads  *)
(* back as written, and every other key reads as its default.              *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Steps, Part, Parts
VARIABLES doc, dice

\* ------------------------------------------------------------ literals
\* t: TOML text; v: JSON text of what is read
Q(s) == "\"" \o s \o "\""
L(t, v) == [t |-> t, v |-> v]
Same(ts) == [i \in DOMAIN ts |-> L(Q(ts[i]), Q(ts[i]))]
Number(ts) == [i \in DOMAIN ts |-> L(ts[i], Q(ts[i]))]
Bools == << L("true", "true"), L("false", "false") >>
NoNumber == << "-1", "1.5", "\"1\"", "true", "[1]", "\"\"" >>
Strings == Same(<<"some text", "", "/x", "ünï", "{ {x} }">>) \o << L("'lit \\ eral'", Q("lit \\\\ eral")), L("\"a\\nb\"", Q("a\\nb")) >>
Asciis == Same(<<"x-vh-a", "", "A~ !">>)
Paths == Same(<<"/etc/vh", "/a b/c.pem", "rel/x">>)
Absolute == Same(<<"/etc/vh", "/a b/c.pem">>)
Urls == << L(Q("http://localhost:4000/graphql"), Q("http://localhost:4000/graphql")), L(Q("https://a.example"), Q("https://a.example/")),
           L(Q("ws://h:1/x?y=z"), Q("ws://h:1/x?y=z")), L(Q("redis://h:6379"), Q("redis://h:6379")), L(Q("HTTP://A.example:80/x"), Q("http://a.example/x")) >>
Sockets == Same(<<"0.0.0.0:4000", "127.0.0.1:0", "255.1.2.3:65535", "[::1]:4000", "[2001:db8::7]:1">>)

\* durations: a number and a unit, or a sum of them; read in nanoseconds
Units == << <<"ms", 1>>, <<"s", 1000>>, <<"m", 60000>>, <<"min", 60000>>, <<"h", 3600000>>, <<"d", 86400000>>, <<"w", 604800000>> >>
Nanos(ms) == IF ms = 0 THEN Q("0") ELSE Q(ToString(ms) \o "000000")
Counts == <<0, 1, 2, 30>>
Amounts == FlattenSeq([u \in DOMAIN Units |-> SelectSeq([c \in DOMAIN Counts |-> [t |-> ToString(Counts[c]) \o Units[u][1], ms |-> Counts[c] * (IF Units[u][1] \in {"d", "w"} /\ Counts[c] > 2 THEN 0 ELSE Units[u][2]), c |-> Counts[c]]], LAMBDA a : a.c < 3 \/ a.ms > 0)])
Sums == << [t |-> "1h30m", ms |-> 5400000], [t |-> "1m 30s", ms |-> 90000], [t |-> "2s+500ms", ms |-> 2500], [t |-> "45", ms |-> 45000], [t |-> "1500ms", ms |-> 1500] >>
AllDurations == [i \in DOMAIN Amounts |-> [t |-> Amounts[i].t, ms |-> Amounts[i].ms]] \o Sums
Durations == [i \in DOMAIN AllDurations |-> L(Q(AllDurations[i].t), Nanos(AllDurations[i].ms))] \o << L(Q("1us"), Q("1000")), L(Q("7ns"), Q("7")) >>
BadDurations == << "\"\"", "\"-1s\"", "\"1 parsec\"", "\"s\"", "\"1s-1s\"", "true", "[\"1s\"]", "\"abc\"" >>
\* rate limits are per second at least
LongSelect == SelectSeq(AllDurations, LAMBDA d : d.ms >= 1000)
Long == [i \in DOMAIN LongSelect |-> L(Q(LongSelect[i].t), Nanos(LongSelect[i].ms))]
ShortSelect == SelectSeq(AllDurations, LAMBDA d : d.ms < 1000)
Short == [i \in DOMAIN ShortSelect |-> Q(ShortSelect[i].t)]

SizeUnits == << <<"", 1>>, <<"B", 1>>, <<" bytes", 1>>, <<"kB", 1000>>, <<"KB", 1000>>, <<"KiB", 1024>>, <<"MB", 1000000>>, <<"mb", 1000000>>, <<" MiB", 1048576>>, <<"mib", 1048576>> >>
Sizes == FlattenSeq([u \in DOMAIN SizeUnits |-> [c \in 1..3 |-> L(Q(ToString(c * c * c * c - 1) \o SizeUnits[u][1]), Q(ToString((c * c * c * c - 1) * SizeUnits[u][2])))]])
         \o << L("0", Q("0")), L("1", Q("1")), L("2_000_000", Q("2000000")), L("9223372036854775807", Q("9223372036854775807")), L(Q("1.5KiB"), Q("1536")), L(Q("3GiB"), Q("3221225472")) >>
BadSizes == << "-1", "-2000000", "\"-1\"", "\"-1KiB\"", "\"10 XB\"", "\"abc\"", "\"\"", "1.5", "true", "[1]", "\"1..2MB\"" >>

Versions == << L(Q("1.2"), Q("^1.2")), L(Q("1.2.3"), Q("^1.2.3")), L(Q("*"), Q("*")), L(Q("=1.2.3"), Q("=1.2.3")), L(Q(">=1, <2"), Q(">=1, <2")), L(Q("~0.3"), Q("~0.3")), L(Q("1.x"), Q("1.*")) >>
Fractions == << L("0.0", Q("0.0")), L("1.0", Q("1.0")), L("0.15", Q("0.15")), L("0", Q("0.0")), L("1", Q("1.0")), L("0.999", Q("0.999")), L("1e-3", Q("0.001")) >>

Enum(ts) == Same(ts)
BadWords == << "\"other\"", "\"\"", "1", "true" >>
Levels == Same(<<"off", "debug", "info", "warn", "error">>) \o << L(Q("OFF"), Q("off")), L(Q("Debug"), Q("debug")), L(Q("iNFO"), Q("info")), L(Q("WARN"), Q("warn")) >>
Methods == <<"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE">>

List(ls) == LET j(f) == "[" \o FoldLeft(LAMBDA a, i : IF a = "" THEN f[i] ELSE a \o ", " \o f[i], "", [i \in DOMAIN f |-> i]) \o "]" IN
            L(j([i \in DOMAIN ls |-> ls[i].t]), j([i \in DOMAIN ls |-> ls[i].v]))
Lists(ls) == << List(<<>>), List(<<ls[1]>>), List(<<ls[2], ls[1]>>), List(<<ls[1], ls[1], ls[Len(ls)]>>), List(ls) >>
Star(ls) == << L(Q("*"), Q("any")), L(Q("any"), Q("any")) >> \o [i \in DOMAIN ls |-> L(ls[i].t, "[" \o ls[i].v \o "]")] \o Lists(ls)
Maps == << L("{}", "{}"), L("{ A = \"1\" }", "{\"A\": \"1\"}"), L("{ \"x-y\" = \"\", B = \"b c\" }", "{\"x-y\": \"\", \"B\": \"b c\"}") >>
BadMaps == << "1", "\"x\"", "{ A = 1 }", "[\"A\"]", "{ A = [\"1\"] }" >>

\* ------------------------------------------------------------ composed values
\* Header rules: every combination of a rule and its settings is valid or not.
Fields == <<"name", "pattern", "value", "default", "rename">>
\* every use of a setting: absent, a good literal, a bad one
Set == [name : {"", "x-vh-a", "é"}, pattern : {"", "^x-.*", "("}, value : {"", "v1", "é"}, default : {"", "d1", "é"}, rename : {"", "x-new", "é"}]
Bad(s) == s \in {"é", "("}
Allowed == [forward |-> {"name", "pattern", "default", "rename"}, insert |-> {"name", "value"}, remove |-> {"name", "pattern"}, rename_duplicate |-> {"name", "default", "rename"}]
Required == [forward |-> {}, insert |-> {"name", "value"}, remove |-> {}, rename_duplicate |-> {"name", "rename"}]
RuleOk(r, s) == LET given == { f \in DOMAIN s : s[f] # "" } IN
  /\ given \subseteq Allowed[r] /\ Required[r] \subseteq given
  /\ \A f \in given : ~Bad(s[f])
  /\ r \in {"forward", "remove"} => (("name" \in given) # ("pattern" \in given))
PatternMatches == "[true, true, false, false, false]"
Who(s) == IF s.name # "" THEN "{\"name\": " \o Q(s.name) \o "}" ELSE "{\"pattern\": " \o Q(s.pattern) \o ", \"matches\": " \o PatternMatches \o "}"
RuleText(r, s, extra) ==
  LET given == SelectSeq(Fields, LAMBDA f : s[f] # "") IN
  "{ rule = " \o Q(r) \o FoldLeft(LAMBDA a, f : a \o ", " \o f \o " = " \o Q(s[f]), "", given) \o extra \o " }"
RuleRead(r, s) ==
  LET o(f) == IF s[f] # "" THEN ", " \o Q(f) \o ": " \o Q(s[f]) ELSE "" IN
  "{\"rule\": " \o Q(r) \o
  (CASE r = "forward" -> ", \"who\": " \o Who(s) \o o("default") \o o("rename")
     [] r = "remove" -> ", \"who\": " \o Who(s)
     [] OTHER -> o("name") \o o("value") \o o("default") \o o("rename")) \o "}"
RuleSet == { x \in [r : DOMAIN Allowed, s : Set] : Cardinality({ f \in DOMAIN x.s : Bad(x.s[f]) }) <= 1 }
GoodRules == SetToSeq({ x \in RuleSet : RuleOk(x.r, x.s) })
\* nearly good ones: one setting wrong, missing or too many
Near == SetToSeq({ x \in RuleSet : ~RuleOk(x.r, x.s) /\ \E g \in Range(GoodRules) : g.r = x.r /\ Cardinality({ f \in DOMAIN x.s : x.s[f] # g.s[f] }) = 1 })
Rule1 == [i \in DOMAIN GoodRules |-> L(RuleText(GoodRules[i].r, GoodRules[i].s, ""), RuleRead(GoodRules[i].r, GoodRules[i].s))]
Rules == << List(<<>>) >> \o [i \in DOMAIN Rule1 |-> List(<<Rule1[i]>>)] \o [i \in DOMAIN Rule1 |-> List(<<Rule1[i], Rule1[1 + ((i * 7) % Len(Rule1))], Rule1[1 + ((i * 5) % Len(Rule1))]>>)]
BadRules == [i \in DOMAIN Near |-> "[" \o RuleText(Near[i].r, Near[i].s, "") \o "]"]
            \o [i \in DOMAIN GoodRules |-> "[" \o RuleText(GoodRules[i].r, GoodRules[i].s, ", unknown = 1") \o "]"]
            \o << "[{ name = \"a\" }]", "[{ rule = \"other\", name = \"a\" }]", "\"x\"", "[1]", "{ rule = \"remove\", name = \"a\" }", "[{}]" >>

Key(f, i, id, extra) == "{ " \o FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o ", " \o x, "",
   SelectSeq(<<IF f = "" THEN "" ELSE "file = " \o Q(f), IF i = "" THEN "" ELSE "inline = " \o Q(i), IF id = "" THEN "" ELSE "id = " \o Q(id), extra>>, LAMBDA x : x # "")) \o " }"
Keys == << L(Key("k.pem", "", "", ""), "{\"file\": \"k.pem\"}"), L(Key("", "secret", "", ""), "{\"inline\": \"secret\"}"),
           L(Key("k.pem", "", "me", ""), "{\"file\": \"k.pem\", \"id\": \"me\", \"got\": \"me\"}"), L(Key("", "secret", "me", ""), "{\"inline\": \"secret\", \"id\": \"me\", \"got\": \"me\"}") >>
BadKeys == << Key("a", "b", "", ""), Key("", "", "me", ""), Key("a", "b", "me", ""), Key("a", "", "", "unknown = 1"), Key("a", "", "", "raw = \"b\""), "{}", "\"k.pem\"", "{ file = 1 }" >>

Rotations == Enum(<<"never", "minutely", "hourly", "daily">>) \o [i \in DOMAIN Sizes |-> L("{ size = " \o Sizes[i].t \o " }", "{\"size\": " \o Sizes[i].v \o "}")]
BadRotations == << "\"Never\"", "\"weekly\"", "\"size\"", "{}", "1", "{ size = 1, other = 2 }", "{ weekly = 1 }" >> \o [i \in DOMAIN BadSizes |-> "{ size = " \o BadSizes[i] \o " }"]

Dir(h, g, r, w, x) == "{ host_path = " \o Q(h) \o ", guest_path = " \o Q(g) \o ", read_permission = " \o r \o ", write_permission = " \o w \o x \o " }"
DirRead(h, g, r, w) == "{\"host_path\": " \o Q(h) \o ", \"guest_path\": " \o Q(g) \o ", \"read_permission\": " \o r \o ", \"write_permission\": " \o w \o "}"
OneDir == << L(Dir("/h", "/g", "true", "false", ""), DirRead("/h", "/g", "true", "false")), L(Dir("h2", ".", "false", "true", ""), DirRead("h2", ".", "false", "true")) >>
Preopened == Lists(OneDir)
BadPreopened == << "[" \o Dir("/h", "/g", "true", "false", ", unknown = 1") \o "]", "[{ host_path = \"/h\" }]", "[" \o Dir("/h", "/g", "\"yes\"", "false", "") \o "]", "[1]", "true",
                   "[{ host_path = \"/h\", guest_path = \"/g\", read_permission = true }]", "[" \o Dir("/h", "/g", "true", "false", ", execute_permission = true") \o "]" >>

OneAccess == << L("{ rule = \"deny\" }", "{\"rule\": \"deny\"}"), L("{ rule = \"header\", name = \"x-a\" }", "{\"rule\": \"header\", \"name\": \"x-a\"}"),
                L("{ rule = \"header\", name = \"x-a\", value = \"v\" }", "{\"rule\": \"header\", \"name\": \"x-a\", \"value\": \"v\"}") >>
Access == Lists(OneAccess)
BadAccess == << "[{ rule = \"header\" }]", "[{ rule = \"other\" }]", "[{ name = \"x\" }]", "[{ rule = \"header\", name = \"é\" }]", "[{ rule = \"header\", name = \"x\", unknown = 1 }]",
                "[{ rule = \"header\", name = \"x\", value = 1 }]", "\"deny\"", "[\"deny\"]", "[{ rule = \"deny\", unknown = 1 }]" >>

\* any value at all: it is the extension's business
Anything == << L("1", "1"), L("\"x\"", "\"x\""), L("true", "true"), L("[1, 2]", "[1, 2]"), L("{ a = { b = [ { c = \"d\" } ] } }", "{\"a\": {\"b\": [{\"c\": \"d\"}]}}"), L("{}", "{}") >>

Good(k) ==
  CASE k = "bool" -> Bools
    [] k = "string" -> Strings
    [] k = "ascii" -> Asciis
    [] k = "path" -> Paths
    [] k = "abspath" -> Absolute
    [] k = "url" -> Urls
    [] k = "socket" -> Sockets
    [] k = "duration" -> Durations
    [] k = "long" -> Long
    [] k = "size" -> Sizes
    [] k = "u8" -> Number(<<"0", "1", "127", "255">>)
    [] k = "u16" -> Number(<<"0", "1", "256", "65535">>)
    [] k = "u32" -> << L("0", "0"), L("17", "17"), L("65536", "65536"), L("4294967295", "4294967295") >>
    [] k = "usize" -> Number(<<"0", "1", "65536", "4294967296", "9223372036854775807">>)
    [] k = "fraction" -> Fractions
    [] k = "percent" -> Fractions
    [] k = "version" -> Versions
    [] k = "strings" -> Lists(Same(<<"a", "b c", "">>))
    [] k = "map" -> Maps
    [] k = "asciimap" -> Maps
    [] k = "level" -> Levels
    [] k = "origins" -> Star(Urls)
    [] k = "methods" -> Star(Same(Methods))
    [] k = "headernames" -> Star(Same(<<"x-vh-a", "Accept">>))
    [] k = "rules" -> Rules
    [] k = "key" -> Keys
    [] k = "rotate" -> Rotations
    [] k = "preopened" -> Preopened
    [] k = "access" -> Access
    [] k = "anything" -> Anything
    [] k = "mode" -> Enum(<<"blocking", "non_blocking">>)
    [] k = "storage" -> Enum(<<"memory", "redis">>)
    [] k = "algorithm" -> Enum(<<"hmac-sha256", "ed25519", "ecdsa-p256-sha256", "ecdsa-p384-sha384">>)
    [] k = "components" -> Lists(Same(<<"method", "target_uri", "authority", "scheme", "request_target", "path">>))
    [] k = "parameters" -> << List(<<>>), List(Same(<<"nonce">>)) >>
    [] k = "protocol" -> Enum(<<"grpc", "http">>)
    [] k = "subscription" -> Enum(<<"server_sent_events", "websocket">>)
    [] k = "default" -> Enum(<<"anonymous", "deny">>)
    [] k = "complexity" -> Enum(<<"measure", "enforce">>)
    [] k = "transport" -> Enum(<<"streaming-http", "sse">>)

Wrong(k) ==
  CASE k = "bool" -> << "\"true\"", "1", "0", "[true]", "\"\"" >>
    [] k \in {"string", "path", "abspath"} -> << "1", "true", "[\"x\"]", "{ x = 1 }", "1.5" >>
    [] k = "ascii" -> << "\"é\"", "1", "true", "[\"x\"]", "\"x-✓\"" >>
    [] k = "url" -> << "\"nothing\"", "\"\"", "1", "\"/path\"", "\"http://\"", "\"localhost\"", "[\"http://x/\"]" >>
    [] k = "socket" -> << "\"localhost:4000\"", "\"1.2.3.4\"", "\"1.2.3.4:65536\"", "4000", "\"256.0.0.1:1\"", "\"\"", "\"::1:80\"" >>
    [] k = "duration" -> BadDurations
    [] k = "long" -> BadDurations \o Short
    [] k = "size" -> BadSizes
    [] k = "u8" -> NoNumber \o <<"256", "300", "1000">>
    [] k = "u16" -> NoNumber \o <<"65536", "100000">>
    [] k = "u32" -> NoNumber \o <<"4294967296">>
    [] k = "usize" -> NoNumber
    [] k = "fraction" -> << "1.01", "-0.01", "2", "-1", "\"0.5\"", "true", "nan", "inf", "-inf", "1.0000001" >>
    [] k = "percent" -> << "\"0.5\"", "true", "[0.1]" >>
    [] k = "version" -> << "\"abc\"", "\"1.2.3.4\"", "1", "1.2", "true", "\"\"", "\"^\"" >>
    [] k = "strings" -> << "\"a\"", "1", "[1]", "[[\"a\"]]", "{ a = \"b\" }" >>
    [] k = "map" -> BadMaps
    [] k = "asciimap" -> BadMaps \o << "{ A = \"é\" }", "{ \"é\" = \"a\" }" >>
    [] k = "level" -> BadWords \o << "\"warning\"", "\"trace\"", "\"info \"" >>
    [] k = "origins" -> << "\"nothing\"", "[\"nothing\"]", "[\"*\", \"x\"]", "1", "true", "[1]", "\"**\"", "[\"http://ok/\", \"nothing\"]" >>
    [] k = "methods" -> << "\"FETCH\"", "[\"GET\", \"FETCH\"]", "\"get\"", "[\"get\"]", "1", "[\"*\"]" >>
    [] k = "headernames" -> << "\"é\"", "[\"é\"]", "1", "[1]", "[\"ok\", \"é\"]" >>
    [] k = "rules" -> BadRules
    [] k = "key" -> BadKeys
    [] k = "rotate" -> BadRotations
    [] k = "preopened" -> BadPreopened
    [] k = "access" -> BadAccess
    [] k = "anything" -> << >>
    [] k \in {"components", "parameters"} -> << "\"method\"", "[\"other\"]", "[\"Method\"]", "[1]", "1", "[\"target-uri\"]", "[\"nonce\", \"other\"]" >>
    [] OTHER -> BadWords \o << "\"Memory\"", "\"BLOCKING\"", "\"ED25519\"", "\"non-blocking\"", "\"Grpc\"", "\"server-sent-events\"", "\"Deny\"", "\"Measure\"", "\"streaming_http\"", "[\"deny\"]" >>

\* ------------------------------------------------------------ sections and keys
\* o: the section may be absent (nothing in it is read); req: keys it must have; u: unknown keys in it are refused.
S(n, parent, o, req) == [n |-> n, parent |-> parent, o |-> o, req |-> req]
RetryOf(n, p, o) == << S(n, p, o, {}) >>
Exporter(p, root, o) == << S(p \o ".stdout", root, TRUE, {}), S(p \o ".stdout.batch_export", p \o ".stdout", TRUE, {}) >>
Otlp(p, root) == << S(p, root, TRUE, {}), S(p \o ".batch_export", p, TRUE, {}), S(p \o ".grpc", p, TRUE, {}), S(p \o ".grpc.tls", p \o ".grpc", TRUE, {}), S(p \o ".http", p, TRUE, {}) >>
Signature(p, root, o) == << S(p, root, o, {}), S(p \o ".headers", p, FALSE, {}) >>
RedisTls(p, root, o) == << S(p, root, o, {}), S(p \o ".tls", p, TRUE, {}) >>
Sections ==
  << S("", "", FALSE, {}), S("graph", "", FALSE, {}), S("graph.contracts", "graph", FALSE, {}), S("graph.contracts.cache", "graph.contracts", FALSE, {}),
     S("network", "", FALSE, {}), S("gateway", "", FALSE, {}), S("gateway.rate_limit", "gateway", TRUE, {}), S("gateway.rate_limit.global", "gateway.rate_limit", TRUE, {"limit", "duration"}),
     S("gateway.retry", "gateway", FALSE, {}), S("gateway.access_logs", "gateway", FALSE, {}), S("gateway.batching", "gateway", FALSE, {}),
     S("csrf", "", FALSE, {}), S("cors", "", TRUE, {}), S("tls", "", TRUE, {"certificate", "key"}), S("traffic_shaping", "", FALSE, {}), S("operation_limits", "", TRUE, {}),
     S("telemetry", "", FALSE, {}), S("telemetry.exporters", "telemetry", FALSE, {}), S("telemetry.exporters.response_extension", "telemetry.exporters", TRUE, {}),
     S("telemetry.logs", "telemetry", TRUE, {}), S("telemetry.logs.exporters", "telemetry.logs", FALSE, {}),
     S("telemetry.metrics", "telemetry", TRUE, {}), S("telemetry.metrics.exporters", "telemetry.metrics", FALSE, {}),
     S("telemetry.tracing", "telemetry", FALSE, {}), S("telemetry.tracing.exporters", "telemetry.tracing", FALSE, {}),
     S("telemetry.tracing.collect", "telemetry.tracing", FALSE, {}), S("telemetry.tracing.propagation", "telemetry.tracing", FALSE, {}),
     S("trusted_documents", "", FALSE, {}), S("authentication", "", FALSE, {}), S("authentication.protected_resources", "authentication", FALSE, {}),
     S("authentication.protected_resources.graphql", "authentication.protected_resources", FALSE, {}), S("authentication.protected_resources.mcp", "authentication.protected_resources", FALSE, {}),
     S("subgraphs.N", "", TRUE, {}), S("subgraphs.N.rate_limit", "subgraphs.N", TRUE, {"limit", "duration"}), S("subgraphs.N.retry", "subgraphs.N", TRUE, {}),
     S("subgraphs.N.entity_caching", "subgraphs.N", TRUE, {}), S("subgraphs.N.mtls", "subgraphs.N", TRUE, {}), S("subgraphs.N.mtls.root", "subgraphs.N.mtls", TRUE, {"certificate"}),
     S("hooks", "", TRUE, {}), S("extensions.N", "", TRUE, {}), S("health", "", FALSE, {}), S("entity_caching", "", FALSE, {}), S("complexity_control", "", FALSE, {}),
     S("apq", "", FALSE, {}), S("operation_caching", "", FALSE, {}), S("websockets", "", FALSE, {}), S("mcp", "", TRUE, {}), S("wasm", "", TRUE, {}) >>
  \o Signature("gateway.message_signatures", "gateway", FALSE) \o Signature("subgraphs.N.message_signatures", "subgraphs.N", TRUE)
  \o RedisTls("gateway.rate_limit.redis", "gateway.rate_limit", FALSE) \o RedisTls("entity_caching.redis", "entity_caching", FALSE) \o RedisTls("operation_caching.redis", "operation_caching", TRUE)
  \o Exporter("telemetry.exporters", "telemetry.exporters", TRUE) \o Exporter("telemetry.logs.exporters", "telemetry.logs.exporters", TRUE)
  \o Exporter("telemetry.metrics.exporters", "telemetry.metrics.exporters", TRUE) \o Exporter("telemetry.tracing.exporters", "telemetry.tracing.exporters", TRUE)
  \o Otlp("telemetry.exporters.otlp", "telemetry.exporters") \o Otlp("telemetry.logs.exporters.otlp", "telemetry.logs.exporters")
  \o Otlp("telemetry.metrics.exporters.otlp", "telemetry.metrics.exporters") \o Otlp("telemetry.tracing.exporters.otlp", "telemetry.tracing.exporters")
  \o Otlp("telemetry.grafbase", "telemetry")

\* a key: section, name, kind, what is read when the section is there and the key is not ("" for nothing)
K(s, n, k, d) == [s |-> s, n |-> n, k |-> k, d |-> d]
T == "true"
F == "false"
D(s) == Q(ToString(s) \o "000000000")
Retry(s) == << K(s, "enabled", "bool", F), K(s, "min_per_second", "u32", ""), K(s, "ttl", "duration", ""), K(s, "retry_percent", "percent", ""), K(s, "retry_mutations", "bool", F) >>
Signatures(s) == << K(s, "enabled", "bool", ""), K(s, "algorithm", "algorithm", ""), K(s, "key", "key", ""), K(s, "expiry", "duration", ""), K(s, "derived_components", "components", ""),
                    K(s, "signature_parameters", "parameters", ""), K(s \o ".headers", "include", "strings", ""), K(s \o ".headers", "exclude", "strings", "") >>
Tls(s) == << K(s, "cert", "path", ""), K(s, "key", "path", ""), K(s, "ca", "path", "") >>
Redis(s, prefix) == << K(s, "url", "url", Q("redis://localhost:6379")), K(s, "key_prefix", "string", Q(prefix)) >> \o Tls(s \o ".tls")
BatchOf(s) == << K(s, "scheduled_delay", "duration", D(5)), K(s, "max_queue_size", "usize", Q("2048")), K(s, "max_export_batch_size", "usize", Q("512")), K(s, "max_concurrent_exports", "usize", Q("1")) >>
StdoutOf(s) == << K(s, "enabled", "bool", T), K(s, "timeout", "duration", D(60)) >> \o BatchOf(s \o ".batch_export")
OtlpOf(s) == << K(s, "enabled", "bool", ""), K(s, "endpoint", "url", ""), K(s, "protocol", "protocol", ""), K(s, "timeout", "duration", "") >> \o BatchOf(s \o ".batch_export")
             \o << K(s \o ".grpc", "headers", "asciimap", "{}"), K(s \o ".grpc.tls", "domain_name", "string", ""), K(s \o ".http", "headers", "asciimap", "{}") >> \o Tls(s \o ".grpc.tls")
Limits(s) == << K(s, "limit", "usize", ""), K(s, "duration", "long", "") >>
Resource(s) == << K(s, "extensions", "strings", ""), K(s, "default", "default", "") >>
Collect == LET s == "telemetry.tracing.collect" IN [i \in 1..5 |-> K(s, <<"max_events_per_span", "max_attributes_per_span", "max_links_per_span", "max_attributes_per_event", "max_attributes_per_link">>[i], "usize", Q("128"))]
KeyTable ==
  << K("", "request_body_limit", "size", Q("2097152")), K("", "executable_document_limit", "size", Q("32768")), K("", "headers", "rules", "[]"),
     K("graph", "path", "string", Q("/graphql")), K("graph", "websocket_path", "string", Q("/ws")), K("graph", "introspection", "bool", ""), K("graph", "error_code_mapping", "map", "{}"),
     K("graph.contracts", "default_key", "string", ""), K("graph.contracts.cache", "max_size", "usize", Q("100")), K("network", "listen_address", "socket", ""),
     K("gateway", "timeout", "duration", D(30)), K("gateway", "subgraph_timeout", "duration", ""), K("gateway.rate_limit", "storage", "storage", Q("memory")),
     K("gateway.access_logs", "enabled", "bool", F), K("gateway.access_logs", "path", "path", Q("")), K("gateway.access_logs", "rotate", "rotate", Q("never")), K("gateway.access_logs", "mode", "mode", Q("blocking")),
     K("gateway.batching", "enabled", "bool", F), K("gateway.batching", "limit", "u8", ""),
     K("csrf", "enabled", "bool", F), K("csrf", "header_name", "string", Q("X-Grafbase-CSRF-Protection")),
     K("cors", "allow_credentials", "bool", F), K("cors", "allow_origins", "origins", ""), K("cors", "max_age", "duration", ""), K("cors", "allow_methods", "methods", ""),
     K("cors", "allow_headers", "headernames", ""), K("cors", "expose_headers", "headernames", ""), K("cors", "allow_private_network", "bool", F),
     K("tls", "certificate", "path", ""), K("tls", "key", "path", ""), K("traffic_shaping", "inflight_deduplication", "bool", T),
     K("operation_limits", "depth", "u16", ""), K("operation_limits", "height", "u16", ""), K("operation_limits", "aliases", "u16", ""), K("operation_limits", "root_fields", "u16", ""), K("operation_limits", "complexity", "u16", ""),
     K("telemetry", "service_name", "string", Q("grafbase-gateway")), K("telemetry", "resource_attributes", "asciimap", "{}"),
     K("telemetry.exporters.response_extension", "trace_id", "bool", T), K("telemetry.exporters.response_extension", "query_plan", "bool", T),
     K("telemetry.exporters.response_extension", "access_control", "access", "[{\"rule\": \"header\", \"name\": \"x-grafbase-telemetry\"}]"),
     K("telemetry.tracing", "sampling", "fraction", Q("0.15")), K("telemetry.tracing", "parent_based_sampler", "bool", F),
     K("telemetry.tracing.propagation", "trace_context", "bool", F), K("telemetry.tracing.propagation", "baggage", "bool", F), K("telemetry.tracing.propagation", "aws_xray", "bool", F),
     K("trusted_documents", "enabled", "bool", F), K("trusted_documents", "enforced", "bool", F), K("trusted_documents", "bypass_header_name", "ascii", ""), K("trusted_documents", "bypass_header_value", "string", ""),
     K("trusted_documents", "document_id_unknown_log_level", "level", Q("info")), K("trusted_documents", "document_id_and_query_mismatch_log_level", "level", Q("info")),
     K("trusted_documents", "inline_document_unknown_log_level", "level", Q("info")),
     K("authentication", "default", "default", ""),
     K("subgraphs.N", "url", "url", ""), K("subgraphs.N", "headers", "rules", "[]"), K("subgraphs.N", "websocket_url", "url", ""), K("subgraphs.N", "timeout", "duration", D(30)),
     K("subgraphs.N", "schema_path", "abspath", ""), K("subgraphs.N", "introspection_url", "url", ""), K("subgraphs.N", "introspection_headers", "map", ""), K("subgraphs.N", "subscription_protocol", "subscription", ""),
     K("subgraphs.N.entity_caching", "enabled", "bool", ""), K("subgraphs.N.entity_caching", "ttl", "duration", ""),
     K("subgraphs.N.mtls", "identity", "path", ""), K("subgraphs.N.mtls", "accept_invalid_certs", "bool", F), K("subgraphs.N.mtls.root", "certificate", "path", ""), K("subgraphs.N.mtls.root", "is_bundle", "bool", F),
     K("hooks", "location", "path", Q("")), K("hooks", "networking", "bool", F), K("hooks", "environment_variables", "bool", F), K("hooks", "stdout", "bool", F), K("hooks", "stderr", "bool", F),
     K("hooks", "preopened_directories", "preopened", "[]"), K("hooks", "max_pool_size", "usize", ""),
     K("extensions.N", "version", "version", Q("*")), K("extensions.N", "path", "abspath", ""), K("extensions.N", "networking", "bool", ""), K("extensions.N", "stdout", "bool", ""), K("extensions.N", "stderr", "bool", ""),
     K("extensions.N", "environment_variables", "bool", ""), K("extensions.N", "max_pool_size", "usize", ""), K("extensions.N", "config", "anything", ""),
     K("health", "enabled", "bool", T), K("health", "listen", "socket", ""), K("health", "path", "string", Q("/health")),
     K("entity_caching", "enabled", "bool", F), K("entity_caching", "storage", "storage", Q("memory")), K("entity_caching", "ttl", "duration", D(60)),
     K("complexity_control", "mode", "complexity", ""), K("complexity_control", "limit", "usize", ""), K("complexity_control", "list_size", "usize", ""), K("apq", "enabled", "bool", T),
     K("operation_caching", "enabled", "bool", T), K("operation_caching", "limit", "usize", Q("1000")), K("operation_caching", "warm_on_reload", "bool", F), K("operation_caching", "warming_percent", "u8", Q("100")),
     K("websockets", "forward_connection_init_payload", "bool", T),
     K("mcp", "enabled", "bool", F), K("mcp", "path", "string", Q("/mcp")), K("mcp", "execute_mutations", "bool", F), K("mcp", "transport", "transport", Q("streaming-http")), K("wasm", "cache_path", "abspath", "") >>
  \o Limits("gateway.rate_limit.global") \o Limits("subgraphs.N.rate_limit") \o Retry("gateway.retry") \o Retry("subgraphs.N.retry") \o Collect
  \o Resource("authentication.protected_resources.graphql") \o Resource("authentication.protected_resources.mcp")
  \o Signatures("gateway.message_signatures") \o Signatures("subgraphs.N.message_signatures")
  \o Redis("gateway.rate_limit.redis", "grafbase") \o Redis("entity_caching.redis", "grafbase-cache") \o Redis("operation_caching.redis", "grafbase-operation-cache")
  \o StdoutOf("telemetry.exporters.stdout") \o StdoutOf("telemetry.logs.exporters.stdout") \o StdoutOf("telemetry.metrics.exporters.stdout") \o StdoutOf("telemetry.tracing.exporters.stdout")
  \o OtlpOf("telemetry.exporters.otlp") \o OtlpOf("telemetry.logs.exporters.otlp") \o OtlpOf("telemetry.metrics.exporters.otlp") \o OtlpOf("telemetry.tracing.exporters.otlp") \o OtlpOf("telemetry.grafbase")

\* computed once
Secs == TLCEval(Sections)
Tab == TLCEval(KeyTable)
SecIx == TLCEval([n \in { Secs[i].n : i \in DOMAIN Secs } |-> CHOOSE i \in DOMAIN Secs : Secs[i].n = n])
GoodOf == TLCEval([k \in { Tab[i].k : i \in DOMAIN Tab } |-> Good(k)])
WrongOf == TLCEval([k \in { Tab[i].k : i \in DOMAIN Tab } |-> Wrong(k)])
RECURSIVE Chain(_)
Chain(n) == IF n = "" THEN {""} ELSE {n} \cup Chain(Secs[SecIx[n]].parent)
Above == TLCEval([n \in DOMAIN SecIx |-> Chain(n)])

\* ------------------------------------------------------------ documents
\* keys: index of the key -> literal (t, v); sections: those written although nothing is in them;
\* fault: what is wrong with it, if anything: a key with a wrong literal, or an unknown key of a section
Empty == [keys |-> << >>, secs |-> {}, fault |-> <<>>]
Touched(d) == UNION { Above[Tab[i].s] : i \in DOMAIN d.keys } \cup UNION { Above[s] : s \in d.secs } \cup (IF d.fault = <<>> THEN {} ELSE Above[d.fault[1].s])
\* a section is read if all optional sections on the way to it are written
\* (a section of the given ones)
Needs == TLCEval([n \in DOMAIN SecIx |-> { s \in Above[n] : Secs[SecIx[s]].o }])
There(d) == LET t == Touched(d) IN { n \in DOMAIN SecIx : Needs[n] \subseteq t }
AllRequired == TLCEval(UNION { { <<n, q>> : q \in Secs[SecIx[n]].req } : n \in DOMAIN SecIx })
Missing(d) == LET t == Touched(d)
                  given == { <<Tab[i].s, Tab[i].n>> : i \in DOMAIN d.keys } \cup { <<f.s, f.n>> : f \in ToSet(d.fault) } IN
              { x \in AllRequired : x[1] \in t /\ x \notin given }
Valid(d) == d.fault = <<>> /\ Missing(d) = {}
Reading(d) == LET th == There(d) IN [i \in { x \in DOMAIN Tab : Tab[x].s \in th /\ (x \in DOMAIN d.keys \/ Tab[x].d # "") } |-> IF i \in DOMAIN d.keys THEN d.keys[i].v ELSE Tab[i].d]

WriteGood(d, i, l) == [d EXCEPT !.keys = (i :> l) @@ d.keys]
WriteSection(d, s) == [d EXCEPT !.secs = @ \cup {s}]
Fault(s, n, t) == << [s |-> s, n |-> n, t |-> t] >>
\* the wrong literal takes the key's place
WriteBad(d, i, t) == [d EXCEPT !.keys = [j \in (DOMAIN d.keys) \ {i} |-> d.keys[j]], !.fault = Fault(Tab[i].s, Tab[i].n, t)]
WriteUnknown(d, s, n) == [d EXCEPT !.fault = Fault(s, n, "1")]
\* the required keys of the sections of a key
Companions(d) ==
  LET m == Missing(d) IN
  [d EXCEPT !.keys = [i \in { x \in DOMAIN Tab : <<Tab[x].s, Tab[x].n>> \in m } |-> GoodOf[Tab[i].k][2]] @@ d.keys]

Unknowns == <<"unknown", "Enabled", "enable", "name_", "paths">>
Out(d) == [keys |-> [i \in 1..Cardinality(DOMAIN d.keys) |-> LET j == SetToSortSeq(DOMAIN d.keys, LAMBDA a, b : a < b)[i] IN <<Tab[j].s, Tab[j].n, d.keys[j].t>>],
           secs |-> d.secs, fault |-> d.fault, ok |-> Valid(d), missing |-> Missing(d),
           read |-> IF Valid(d) THEN LET r == Reading(d) IN { <<Tab[i].s, Tab[i].n, r[i]>> : i \in DOMAIN r } ELSE {}]
\* what a table of defaults gives
Wanted == { <<Tab[i].s, Tab[i].n>> : i \in DOMAIN Tab }

Dice == TLCEval([k \in 1..6 |-> RandomElement(0..(99999 + Cardinality(DOMAIN doc.keys)))])
Clean(d) == [d EXCEPT !.fault = <<>>]
Edit(d, dc) ==
  LET i == 1 + (dc[2] % Len(Tab))
      g == GoodOf[Tab[i].k]
      w == WrongOf[Tab[i].k]
      s == Secs[1 + (dc[2] % Len(Secs))].n IN
  CASE dc[1] % 20 = 0 -> WriteSection(d, s)
    [] dc[1] % 20 = 1 -> IF s = "extensions.N" \/ s # "" THEN WriteUnknown(d, s, Unknowns[1 + (dc[3] % 5)]) ELSE WriteUnknown(d, s, "unknown")
    [] dc[1] % 20 \in {2, 3} -> IF w = <<>> THEN d ELSE Companions(WriteBad(d, i, w[1 + (dc[3] % Len(w))]))
    [] dc[1] % 20 = 4 -> WriteGood(d, i, g[1 + (dc[3] % Len(g))])
    [] OTHER -> Companions(WriteGood(d, i, g[1 + (dc[3] % Len(g))]))
Init == doc = Empty /\ dice = [k \in 1..6 |-> RandomElement(1..99999)]
Next == /\ doc' = IF Cardinality(DOMAIN doc.keys) >= Steps THEN Empty
                  ELSE IF Missing(Clean(doc)) # {} THEN Companions(Clean(doc)) ELSE Edit(Clean(doc), dice)
        /\ dice' = Dice
        /\ PrintT("CASE " \o ToJson(Out(doc')))

\* every key with every literal, every section empty and with an unknown key, every required key left out
InitAll == doc = Empty /\ dice = <<>>
NextAll ==
  /\ doc = Empty
  /\ \/ \E i \in DOMAIN Tab : (i % Parts) = Part /\
          (\/ \E x \in DOMAIN GoodOf[Tab[i].k] : doc' = Companions(WriteGood(Empty, i, GoodOf[Tab[i].k][x]))
           \/ \E x \in DOMAIN WrongOf[Tab[i].k] : doc' = Companions(WriteBad(Empty, i, WrongOf[Tab[i].k][x]))
           \/ doc' = WriteGood(Empty, i, GoodOf[Tab[i].k][1]))
     \/ \E i \in DOMAIN Secs : (i % Parts) = Part /\
          (\/ doc' = WriteSection(Empty, Secs[i].n)
           \/ doc' = Companions(WriteSection(Empty, Secs[i].n))
           \/ \E u \in DOMAIN Unknowns : doc' = Companions(WriteUnknown(WriteSection(Empty, Secs[i].n), Secs[i].n, Unknowns[u])))
  /\ PrintT("CASE " \o ToJson(Out(doc')))
  /\ UNCHANGED dice

\* ------------------------------------------------------------ invariants
\* the tables are consistent
ASSUME /\ \A i \in DOMAIN Tab : Tab[i].s \in DOMAIN SecIx
       /\ \A i, j \in DOMAIN Tab : (Tab[i].s = Tab[j].s /\ Tab[i].n = Tab[j].n) => i = j
       /\ \A i \in DOMAIN Secs : \A r \in Secs[i].req : \E k \in DOMAIN Tab : Tab[k].s = Secs[i].n /\ Tab[k].n = r
\* no key is written twice: a wrong literal is refused for what it is
Once == \A i \in DOMAIN doc.keys : \A f \in ToSet(doc.fault) : <<f.s, f.n>> # <<Tab[i].s, Tab[i].n>>
\* a document that is valid reads every key it gives
ReadsBack == Valid(doc) => LET r == Reading(doc) IN \A i \in DOMAIN doc.keys : i \in DOMAIN r /\ r[i] = doc.keys[i].v
\* a valid document stays valid without any key of a section that has no required ones, and reads the default there
Default == Valid(doc) => \A i \in DOMAIN doc.keys :
             (Secs[SecIx[Tab[i].s]].req = {}) =>
               LET d == [doc EXCEPT !.keys = [j \in (DOMAIN doc.keys) \ {i} |-> doc.keys[j]], !.secs = @ \cup {Tab[i].s}] IN
               /\ Valid(d)
               /\ LET now == Reading(d)
                      was == Reading(doc) IN
                  /\ (i \in DOMAIN now) = (Tab[i].d # "")
                  /\ (DOMAIN was) \ {i} = (DOMAIN now) \ {i}
                  /\ \A j \in (DOMAIN was) \ {i} : now[j] = was[j]
=============================================================================
