use gateway_config::header::{HeaderRule, NameOrPattern};
use gateway_config::message_signatures::{DerivedComponent, MessageSigningKey, SignatureParameter};
use gateway_config::*;
use serde_dynamic_string::DynamicString;
use serde_json::{Map, Value, json};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

// ---------------------------------------------------------------- dynamic strings

pub fn dynamic(req: &Value) -> Value {
    let s = req["text"].as_str().unwrap();
    let plain = match s.parse::<DynamicString<String>>() {
        Ok(v) => json!({"ok": v.as_ref() as &str}),
        Err(e) => json!({"error": e}),
    };
    let ascii = match s.parse::<DynamicString<ascii::AsciiString>>() {
        Ok(v) => json!({"ok": v.as_ref() as &str}),
        Err(e) => json!({"error": e}),
    };
    json!({"plain": plain, "ascii": ascii})
}

// ---------------------------------------------------------------- configuration files

static COUNTER: AtomicUsize = AtomicUsize::new(0);

/// Writes the requested files below a fresh directory of the scratch directory (the process's current directory).
/// `{DIR}` in paths and contents stands for that fresh directory.
pub fn load(req: &Value) -> Value {
    let cwd = std::env::current_dir().unwrap();
    assert!(std::env::var("VHARNESS_SCRATCH").is_ok_and(|d| Path::new(&d) == cwd));
    let name = format!("c{}", COUNTER.fetch_add(1, Ordering::Relaxed));
    let dir = cwd.join(&name);
    std::fs::create_dir_all(&dir).unwrap();
    let subst = |s: &str| s.replace("{DIR}", dir.to_str().unwrap()).replace("{REL}", &name);
    for (path, text) in req["files"].as_object().unwrap() {
        let p = PathBuf::from(subst(path));
        assert!(p.starts_with(&dir) && p.components().all(|c| c != std::path::Component::ParentDir));
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, subst(text.as_str().unwrap())).unwrap();
    }
    let mut loader = Config::loader();
    if let Some(d) = req["current_dir"].as_str() {
        loader = loader.with_current_dir(subst(d));
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        loader.load(req["path"].as_str().map(subst))
    }));
    std::fs::remove_dir_all(&dir).unwrap();
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(Err(e)) => json!({"error": e}),
        Ok(Ok(None)) => json!({"none": true}),
        Ok(Ok(Some(c))) => {
            let mut out = project(&c);
            out.insert("scratch".into(), json!(dir));
            json!({"config": out})
        }
    }
}

fn dur(d: Duration) -> Value {
    json!(d.as_nanos().to_string())
}

fn opt<T>(m: &mut Map<String, Value>, key: &str, v: &Option<T>, f: impl FnOnce(&T) -> Value) {
    if let Some(v) = v {
        m.insert(key.to_string(), f(v));
    }
}

fn any<T>(a: &AnyOrArray<T>, f: impl Fn(&T) -> Value) -> Value {
    match a {
        AnyOrArray::Any => json!("any"),
        AnyOrArray::Explicit(v) => Value::Array(v.iter().map(f).collect()),
    }
}

const PROBES: [&str; 5] = ["x-vh-a", "X-VH-A", "other", "vh", "prefix-x-vh-a"];

fn name(n: &NameOrPattern) -> Value {
    match n {
        NameOrPattern::Name(n) => json!({"name": n.as_str()}),
        // patterns match header names whatever their case
        NameOrPattern::Pattern(p) => json!({"pattern": p.0.as_str(),
            "matches": Value::from(PROBES.map(|h| p.0.is_match(h)).to_vec())}),
    }
}

fn header(h: &HeaderRule) -> Value {
    let a = |v: &Option<ascii::AsciiString>| v.as_ref().map(|v| v.as_str().to_string());
    match h {
        HeaderRule::Forward(f) => {
            json!({"rule": "forward", "who": name(&f.name), "default": a(&f.default), "rename": a(&f.rename)})
        }
        HeaderRule::Insert(i) => json!({"rule": "insert", "name": i.name.as_str(), "value": i.value.as_str()}),
        HeaderRule::Remove(r) => json!({"rule": "remove", "who": name(&r.name)}),
        HeaderRule::RenameDuplicate(r) => {
            json!({"rule": "rename_duplicate", "name": r.name.as_str(), "default": a(&r.default), "rename": r.rename.as_str()})
        }
    }
}

fn retry(m: &mut Map<String, Value>, p: &str, r: &RetryConfig) {
    m.insert(format!("{p}.enabled"), json!(r.enabled));
    opt(m, &format!("{p}.min_per_second"), &r.min_per_second, |v| json!(v));
    opt(m, &format!("{p}.ttl"), &r.ttl, |v| dur(*v));
    opt(m, &format!("{p}.retry_percent"), &r.retry_percent, |v| {
        json!(format!("{v:?}"))
    });
    m.insert(format!("{p}.retry_mutations"), json!(r.retry_mutations));
}

fn signatures(m: &mut Map<String, Value>, p: &str, s: &MessageSignaturesConfig) {
    opt(m, &format!("{p}.enabled"), &s.enabled, |v| json!(v));
    opt(m, &format!("{p}.algorithm"), &s.algorithm, |v| json!(v.to_string()));
    opt(m, &format!("{p}.key"), &s.key, |v| match v {
        MessageSigningKey::File { name, id } => json!({"file": name, "id": id, "got": v.id()}),
        MessageSigningKey::Inline { contents, id } => json!({"inline": contents, "id": id, "got": v.id()}),
    });
    opt(m, &format!("{p}.expiry"), &s.expiry, |v| dur(*v));
    opt(m, &format!("{p}.headers.include"), &s.headers.include, |v| json!(v));
    opt(m, &format!("{p}.headers.exclude"), &s.headers.exclude, |v| json!(v));
    opt(m, &format!("{p}.derived_components"), &s.derived_components, |v| {
        v.iter()
            .map(|c| match c {
                DerivedComponent::Method => "method",
                DerivedComponent::TargetUri => "target_uri",
                DerivedComponent::Authority => "authority",
                DerivedComponent::Scheme => "scheme",
                DerivedComponent::RequestTarget => "request_target",
                DerivedComponent::Path => "path",
            })
            .collect()
    });
    opt(m, &format!("{p}.signature_parameters"), &s.signature_parameters, |v| {
        v.iter()
            .map(|c| match c {
                SignatureParameter::Nonce => "nonce",
            })
            .collect()
    });
}

fn batch(m: &mut Map<String, Value>, p: &str, b: &BatchExportConfig) {
    m.insert(format!("{p}.scheduled_delay"), dur(b.scheduled_delay));
    m.insert(format!("{p}.max_queue_size"), json!(b.max_queue_size.to_string()));
    m.insert(
        format!("{p}.max_export_batch_size"),
        json!(b.max_export_batch_size.to_string()),
    );
    m.insert(
        format!("{p}.max_concurrent_exports"),
        json!(b.max_concurrent_exports.to_string()),
    );
}

fn stdout(m: &mut Map<String, Value>, p: &str, s: Option<&StdoutExporterConfig>) {
    if let Some(s) = s {
        m.insert(format!("{p}.enabled"), json!(s.enabled));
        m.insert(format!("{p}.timeout"), dur(s.timeout));
        if let Some(b) = &s.batch_export {
            batch(m, &format!("{p}.batch_export"), b);
        }
    }
}

fn headers(h: &telemetry::exporters::otlp::Headers) -> Value {
    Value::Object(
        h.clone()
            .into_inner()
            .into_iter()
            .map(|(k, v)| (k.to_string(), json!(v.as_str())))
            .collect(),
    )
}

fn grpc(m: &mut Map<String, Value>, p: &str, g: &OtlpExporterGrpcConfig) {
    m.insert(format!("{p}.headers"), headers(&g.headers));
    if let Some(t) = &g.tls {
        opt(m, &format!("{p}.tls.domain_name"), &t.domain_name, |v| json!(v));
        opt(m, &format!("{p}.tls.key"), &t.key, |v| json!(v));
        opt(m, &format!("{p}.tls.cert"), &t.cert, |v| json!(v));
        opt(m, &format!("{p}.tls.ca"), &t.ca, |v| json!(v));
    }
}

fn otlp(m: &mut Map<String, Value>, p: &str, o: Option<&OtlpExporterConfig>) {
    let Some(o) = o else { return };
    opt(m, &format!("{p}.enabled"), &o.enabled, |v| json!(v));
    opt(m, &format!("{p}.endpoint"), &o.endpoint, |v| json!(v.as_str()));
    opt(m, &format!("{p}.protocol"), &o.protocol, |v| match v {
        OtlpExporterProtocol::Grpc => json!("grpc"),
        OtlpExporterProtocol::Http => json!("http"),
    });
    opt(m, &format!("{p}.timeout"), &o.timeout, |v| dur(*v));
    if let Some(b) = &o.batch_export {
        batch(m, &format!("{p}.batch_export"), b);
    }
    if let Some(g) = &o.grpc {
        grpc(m, &format!("{p}.grpc"), g);
    }
    if let Some(h) = &o.http {
        m.insert(format!("{p}.http.headers"), headers(&h.headers));
    }
}

fn redis(m: &mut Map<String, Value>, p: &str, url: &url::Url, prefix: &str, tls: Option<[&Option<PathBuf>; 3]>) {
    m.insert(format!("{p}.url"), json!(url.as_str()));
    m.insert(format!("{p}.key_prefix"), json!(prefix));
    if let Some(t) = tls {
        for (k, v) in ["cert", "key", "ca"].iter().zip(t) {
            opt(m, &format!("{p}.tls.{k}"), v, |v| json!(v));
        }
    }
}

fn limit(m: &mut Map<String, Value>, p: &str, l: &Option<GraphRateLimit>) {
    if let Some(l) = l {
        m.insert(format!("{p}.limit"), json!(l.limit.to_string()));
        m.insert(format!("{p}.duration"), dur(l.duration));
    }
}

pub fn project(c: &Config) -> Map<String, Value> {
    let mut out = Map::new();
    let m = &mut out;
    macro_rules! put {
        ($k:expr, $v:expr) => {
            m.insert($k.to_string(), $v)
        };
    }
    opt(m, "#path", &c.path, |v| json!(v));
    put!("graph.path", json!(c.graph.path));
    put!("graph.websocket_path", json!(c.graph.websocket_path));
    opt(m, "graph.introspection", &c.graph.introspection, |v| json!(v));
    opt(m, "graph.contracts.default_key", &c.graph.contracts.default_key, |v| {
        json!(v)
    });
    put!(
        "graph.contracts.cache.max_size",
        json!(c.graph.contracts.cache.max_size.to_string())
    );
    put!(
        "graph.error_code_mapping",
        Value::Object(
            c.graph
                .error_code_mapping
                .iter()
                .map(|(k, v)| (k.clone(), json!(v)))
                .collect()
        )
    );
    opt(m, "network.listen_address", &c.network.listen_address, |v| {
        json!(v.to_string())
    });
    put!("gateway.timeout", dur(c.gateway.timeout));
    opt(m, "gateway.subgraph_timeout", &c.gateway.subgraph_timeout, |v| dur(*v));
    if let Some(r) = &c.gateway.rate_limit {
        limit(m, "gateway.rate_limit.global", &r.global);
        put!(
            "gateway.rate_limit.storage",
            json!(if r.storage.is_redis() { "redis" } else { "memory" })
        );
        redis(
            m,
            "gateway.rate_limit.redis",
            &r.redis.url,
            &r.redis.key_prefix,
            r.redis.tls.as_ref().map(|t| [&t.cert, &t.key, &t.ca]),
        );
    }
    retry(m, "gateway.retry", &c.gateway.retry);
    let l = &c.gateway.access_logs;
    put!("gateway.access_logs.enabled", json!(l.enabled));
    put!("gateway.access_logs.path", json!(l.path));
    put!(
        "gateway.access_logs.rotate",
        match l.rotate {
            RotateMode::Never => json!("never"),
            RotateMode::Minutely => json!("minutely"),
            RotateMode::Hourly => json!("hourly"),
            RotateMode::Daily => json!("daily"),
            RotateMode::Size(s) => json!({"size": s.bytes().to_string()}),
        }
    );
    put!(
        "gateway.access_logs.mode",
        json!(match (l.mode, l.lossy_log()) {
            (LogMode::Blocking, false) => "blocking",
            (LogMode::NonBlocking, true) => "non_blocking",
            _ => "lossy_log disagrees",
        })
    );
    put!("gateway.batching.enabled", json!(c.gateway.batching.enabled));
    opt(m, "gateway.batching.limit", &c.gateway.batching.limit, |v| {
        json!(v.to_string())
    });
    signatures(m, "gateway.message_signatures", &c.gateway.message_signatures);
    put!("request_body_limit", json!(c.request_body_limit.bytes().to_string()));
    put!(
        "executable_document_limit",
        json!(c.executable_document_limit.bytes().to_string())
    );
    put!("csrf.enabled", json!(c.csrf.enabled));
    put!("csrf.header_name", json!(c.csrf.header_name));
    if let Some(x) = &c.cors {
        put!("cors.allow_credentials", json!(x.allow_credentials));
        opt(m, "cors.allow_origins", &x.allow_origins, |v| {
            any(v, |u| json!(u.as_str()))
        });
        opt(m, "cors.max_age", &x.max_age, |v| dur(*v));
        opt(m, "cors.allow_methods", &x.allow_methods, |v| {
            any(v, |u| json!(format!("{u:?}").to_uppercase()))
        });
        opt(m, "cors.allow_headers", &x.allow_headers, |v| {
            any(v, |u| json!(u.as_str()))
        });
        opt(m, "cors.expose_headers", &x.expose_headers, |v| {
            any(v, |u| json!(u.as_str()))
        });
        put!("cors.allow_private_network", json!(x.allow_private_network));
    }
    if let Some(t) = &c.tls {
        put!("tls.certificate", json!(t.certificate));
        put!("tls.key", json!(t.key));
    }
    put!(
        "traffic_shaping.inflight_deduplication",
        json!(c.traffic_shaping.inflight_deduplication)
    );
    if let Some(l) = &c.operation_limits {
        for (k, v) in [
            ("depth", l.depth),
            ("height", l.height),
            ("aliases", l.aliases),
            ("root_fields", l.root_fields),
            ("complexity", l.complexity),
        ] {
            opt(m, &format!("operation_limits.{k}"), &v, |v| json!(v.to_string()));
        }
    }
    let t = &c.telemetry;
    put!("telemetry.service_name", json!(t.service_name));
    put!(
        "telemetry.resource_attributes",
        Value::Object(
            t.resource_attributes
                .iter()
                .map(|(k, v)| (k.to_string(), json!(v.as_str())))
                .collect()
        )
    );
    stdout(m, "telemetry.exporters.stdout", t.exporters.stdout.as_ref());
    otlp(m, "telemetry.exporters.otlp", t.exporters.otlp.as_ref());
    if let Some(r) = &t.exporters.response_extension {
        put!("telemetry.exporters.response_extension.trace_id", json!(r.trace_id));
        put!("telemetry.exporters.response_extension.query_plan", json!(r.query_plan));
        put!("telemetry.exporters.response_extension.access_control", r.access_control.iter().map(|a| match a {
            AccessControl::Deny => json!({"rule": "deny"}),
            AccessControl::Header(h) => json!({"rule": "header", "name": h.name.as_str(), "value": h.value.as_ref().map(|v| v.as_str())}),
        }).collect());
    }
    stdout(
        m,
        "telemetry.logs.exporters.stdout",
        t.logs.as_ref().and_then(|l| l.exporters.stdout.as_ref()),
    );
    otlp(
        m,
        "telemetry.logs.exporters.otlp",
        t.logs.as_ref().and_then(|l| l.exporters.otlp.as_ref()),
    );
    stdout(
        m,
        "telemetry.metrics.exporters.stdout",
        t.metrics.as_ref().and_then(|l| l.exporters.stdout.as_ref()),
    );
    otlp(
        m,
        "telemetry.metrics.exporters.otlp",
        t.metrics.as_ref().and_then(|l| l.exporters.otlp.as_ref()),
    );
    stdout(
        m,
        "telemetry.tracing.exporters.stdout",
        t.tracing.exporters.stdout.as_ref(),
    );
    otlp(m, "telemetry.tracing.exporters.otlp", t.tracing.exporters.otlp.as_ref());
    otlp(m, "telemetry.grafbase", t.grafbase.as_ref());
    put!("telemetry.tracing.sampling", json!(format!("{:?}", t.tracing.sampling)));
    put!(
        "telemetry.tracing.parent_based_sampler",
        json!(t.tracing.parent_based_sampler)
    );
    let k = &t.tracing.collect;
    for (n, v) in [
        ("max_events_per_span", k.max_events_per_span),
        ("max_attributes_per_span", k.max_attributes_per_span),
        ("max_links_per_span", k.max_links_per_span),
        ("max_attributes_per_event", k.max_attributes_per_event),
        ("max_attributes_per_link", k.max_attributes_per_link),
    ] {
        put!(format!("telemetry.tracing.collect.{n}"), json!(v.to_string()));
    }
    put!(
        "telemetry.tracing.propagation.trace_context",
        json!(t.tracing.propagation.trace_context)
    );
    put!(
        "telemetry.tracing.propagation.baggage",
        json!(t.tracing.propagation.baggage)
    );
    put!(
        "telemetry.tracing.propagation.aws_xray",
        json!(t.tracing.propagation.aws_xray)
    );
    let d = &c.trusted_documents;
    put!("trusted_documents.enabled", json!(d.enabled));
    put!("trusted_documents.enforced", json!(d.enforced));
    opt(
        m,
        "trusted_documents.bypass_header_name",
        &d.bypass_header.bypass_header_name,
        |v| json!(v.as_str()),
    );
    opt(
        m,
        "trusted_documents.bypass_header_value",
        &d.bypass_header.bypass_header_value,
        |v| json!(v),
    );
    put!(
        "trusted_documents.document_id_unknown_log_level",
        json!(d.document_id_unknown_log_level.to_string())
    );
    put!(
        "trusted_documents.document_id_and_query_mismatch_log_level",
        json!(d.document_id_and_query_mismatch_log_level.as_str())
    );
    put!(
        "trusted_documents.inline_document_unknown_log_level",
        json!(d.inline_document_unknown_log_level.as_str())
    );
    let behaviour = |b: &DefaultAuthenticationBehavior| match b {
        DefaultAuthenticationBehavior::Anonymous => json!("anonymous"),
        DefaultAuthenticationBehavior::Deny => json!("deny"),
    };
    let a = &c.authentication;
    opt(m, "authentication.default", &a.default, behaviour);
    for (n, r) in [
        ("graphql", &a.protected_resources.graphql),
        ("mcp", &a.protected_resources.mcp),
    ] {
        opt(
            m,
            &format!("authentication.protected_resources.{n}.extensions"),
            &r.extensions,
            |v| json!(v),
        );
        opt(
            m,
            &format!("authentication.protected_resources.{n}.default"),
            &r.default,
            behaviour,
        );
    }
    put!("headers", c.headers.iter().map(header).collect());
    put!("#subgraphs", json!(c.subgraphs.keys().collect::<Vec<_>>()));
    for (n, s) in &c.subgraphs {
        let p = format!("subgraphs.{n}");
        opt(m, &format!("{p}.url"), &s.url, |v| json!(v.as_str()));
        m.insert(format!("{p}.headers"), s.headers.iter().map(header).collect());
        opt(m, &format!("{p}.websocket_url"), &s.websocket_url, |v| {
            json!(v.as_str())
        });
        limit(m, &format!("{p}.rate_limit"), &s.rate_limit);
        m.insert(format!("{p}.timeout"), dur(s.timeout));
        if let Some(r) = &s.retry {
            retry(m, &format!("{p}.retry"), r);
        }
        if let Some(e) = &s.entity_caching {
            opt(m, &format!("{p}.entity_caching.enabled"), &e.enabled, |v| json!(v));
            opt(m, &format!("{p}.entity_caching.ttl"), &e.ttl, |v| dur(*v));
        }
        if let Some(x) = &s.message_signatures {
            signatures(m, &format!("{p}.message_signatures"), x);
        }
        opt(m, &format!("{p}.schema_path"), &s.schema_path, |v| json!(v));
        opt(m, &format!("{p}.introspection_url"), &s.introspection_url, |v| {
            json!(v.as_str())
        });
        opt(
            m,
            &format!("{p}.introspection_headers"),
            &s.introspection_headers,
            |v| json!(v),
        );
        opt(
            m,
            &format!("{p}.subscription_protocol"),
            &s.subscription_protocol,
            |v| match v {
                SubscriptionProtocol::ServerSentEvents => json!("server_sent_events"),
                SubscriptionProtocol::Websocket => json!("websocket"),
            },
        );
        if let Some(t) = &s.mtls {
            opt(m, &format!("{p}.mtls.identity"), &t.identity, |v| json!(v));
            if let Some(r) = &t.root {
                m.insert(format!("{p}.mtls.root.certificate"), json!(r.certificate));
                m.insert(format!("{p}.mtls.root.is_bundle"), json!(r.is_bundle));
            }
            m.insert(format!("{p}.mtls.accept_invalid_certs"), json!(t.accept_invalid_certs));
            m.insert(format!("#{p}.mtls.dedicated"), json!(t.requires_dedicated_connection()));
        }
        m.insert(format!("#{p}.override"), json!(s.has_schema_override()));
    }
    if let Some(h) = &c.hooks {
        put!("hooks.location", json!(h.location));
        put!("hooks.networking", json!(h.networking));
        put!("hooks.environment_variables", json!(h.environment_variables));
        put!("hooks.stdout", json!(h.stdout));
        put!("hooks.stderr", json!(h.stderr));
        put!("hooks.preopened_directories", h.preopened_directories.iter().map(|p| json!({
            "host_path": p.host_path, "guest_path": p.guest_path, "read_permission": p.read_permission, "write_permission": p.write_permission,
        })).collect());
        opt(m, "hooks.max_pool_size", &h.max_pool_size, |v| json!(v.to_string()));
    }
    put!("#extensions", json!(c.extensions.keys().collect::<Vec<_>>()));
    for (n, e) in &c.extensions {
        let p = format!("extensions.{n}");
        m.insert(format!("{p}.version"), json!(e.version().to_string()));
        opt(m, &format!("{p}.path"), &e.path(), |v| json!(v));
        opt(m, &format!("{p}.networking"), &e.networking(), |v| json!(v));
        opt(m, &format!("{p}.stdout"), &e.stdout(), |v| json!(v));
        opt(m, &format!("{p}.stderr"), &e.stderr(), |v| json!(v));
        opt(
            m,
            &format!("{p}.environment_variables"),
            &e.environment_variables(),
            |v| json!(v),
        );
        opt(m, &format!("{p}.max_pool_size"), &e.max_pool_size(), |v| {
            json!(v.to_string())
        });
        opt(m, &format!("{p}.config"), &e.config(), |v| {
            serde_json::to_value(v).unwrap()
        });
    }
    put!("health.enabled", json!(c.health.enabled));
    opt(m, "health.listen", &c.health.listen, |v| json!(v.to_string()));
    put!("health.path", json!(c.health.path));
    let e = &c.entity_caching;
    put!("entity_caching.enabled", json!(e.enabled));
    put!(
        "entity_caching.storage",
        json!(match e.storage {
            EntityCachingStorage::Memory => "memory",
            EntityCachingStorage::Redis => "redis",
        })
    );
    put!("entity_caching.ttl", dur(e.ttl));
    redis(
        m,
        "entity_caching.redis",
        &e.redis.url,
        &e.redis.key_prefix,
        e.redis.tls.as_ref().map(|t| [&t.cert, &t.key, &t.ca]),
    );
    let k = &c.complexity_control;
    opt(m, "complexity_control.mode", &k.mode, |v| match v {
        ComplexityControlMode::Measure => json!("measure"),
        ComplexityControlMode::Enforce => json!("enforce"),
    });
    opt(m, "complexity_control.limit", &k.limit, |v| json!(v.to_string()));
    opt(m, "complexity_control.list_size", &k.list_size, |v| {
        json!(v.to_string())
    });
    put!("apq.enabled", json!(c.apq.enabled));
    let o = &c.operation_caching;
    put!("operation_caching.enabled", json!(o.enabled));
    put!("operation_caching.limit", json!(o.limit.to_string()));
    put!("operation_caching.warm_on_reload", json!(o.warm_on_reload));
    put!(
        "operation_caching.warming_percent",
        json!(o.warming_percent.to_string())
    );
    if let Some(r) = &o.redis {
        redis(
            m,
            "operation_caching.redis",
            &r.url,
            &r.key_prefix,
            r.tls.as_ref().map(|t| [&t.cert, &t.key, &t.ca]),
        );
    }
    put!(
        "websockets.forward_connection_init_payload",
        json!(c.websockets.forward_connection_init_payload)
    );
    if let Some(x) = &c.mcp {
        put!("mcp.enabled", json!(x.enabled));
        put!("mcp.path", json!(x.path));
        put!("mcp.execute_mutations", json!(x.execute_mutations));
        put!(
            "mcp.transport",
            json!(match x.transport {
                McpTransport::StreamingHttp => "streaming-http",
                McpTransport::Sse => "sse",
            })
        );
    }
    if let Some(w) = &c.wasm {
        opt(m, "wasm.cache_path", &w.cache_path, |v| json!(v));
    }
    effective(m, t);
    out
}

/// What the accessors of the telemetry configuration answer.
fn effective(m: &mut Map<String, Value>, t: &TelemetryConfig) {
    stdout(m, "@tracing.stdout", t.tracing_stdout_config());
    stdout(m, "@metrics.stdout", t.metrics_stdout_config());
    stdout(m, "@logs.stdout", t.logs_stdout_config());
    for (n, l) in [
        ("@tracing.otlp", t.tracing_otlp_config()),
        ("@metrics.otlp", t.metrics_otlp_config()),
        ("@logs.otlp", t.logs_otlp_config()),
        ("@grafbase", t.grafbase_otlp_config()),
    ] {
        let Some(l) = l else { continue };
        m.insert(format!("{n}.timeout"), dur(l.timeout()));
        batch(m, &format!("{n}.batch_export"), &l.batch_export());
        match l.protocol() {
            OtlpExporterProtocolConfig::Grpc(g) => {
                m.insert(format!("{n}.protocol"), json!("grpc"));
                grpc(m, &format!("{n}.grpc"), &g);
            }
            OtlpExporterProtocolConfig::Http(h) => {
                m.insert(format!("{n}.protocol"), json!("http"));
                m.insert(format!("{n}.http.headers"), headers(&h.headers));
            }
        }
        opt(m, &format!("{n}.local.endpoint"), &l.local.endpoint, |v| {
            json!(v.as_str())
        });
        opt(m, &format!("{n}.global.endpoint"), &l.global.endpoint, |v| {
            json!(v.as_str())
        });
    }
    m.insert("@tracing".into(), json!(t.tracing_exporters_enabled()));
    m.insert("@logs".into(), json!(t.logs_exporters_enabled()));
}
