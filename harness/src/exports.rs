//! Exports telemetry with a configuration to a collector of the loopback network, and tells what arrives.
use crate::introspect::read_request;
use grafbase_telemetry::otel::{
    layer,
    opentelemetry::{
        Context, KeyValue,
        metrics::MeterProvider,
        trace::{
            Event, Link, Span, SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer,
            TracerProvider,
        },
    },
    opentelemetry_sdk::trace::IdGenerator,
    tracing_subscriber::{Registry, layer::SubscriberExt},
};
use opentelemetry_proto::tonic::{
    collector::{
        logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest,
        trace::v1::ExportTraceServiceRequest,
    },
    common::v1::{KeyValue as ProtoKeyValue, any_value},
    metrics::v1::{metric::Data, number_data_point},
    resource::v1::Resource,
};
use prost::Message;
use serde_json::{Value, json};
use std::io::Write;
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

/// The traces of spans without a parent are those of the request.
#[derive(Debug, Clone, Default)]
struct Ids {
    trace: Arc<Mutex<u128>>,
    span: Arc<Mutex<u64>>,
}

impl IdGenerator for Ids {
    fn new_trace_id(&self) -> TraceId {
        TraceId::from(*self.trace.lock().unwrap())
    }
    fn new_span_id(&self) -> SpanId {
        let mut last = self.span.lock().unwrap();
        *last += 1;
        SpanId::from(*last)
    }
}

fn text(v: &Option<opentelemetry_proto::tonic::common::v1::AnyValue>) -> Value {
    match v.as_ref().and_then(|v| v.value.as_ref()) {
        Some(any_value::Value::StringValue(s)) => json!(s),
        Some(any_value::Value::IntValue(i)) => json!(i),
        other => json!(format!("{other:?}")),
    }
}

fn pairs(kvs: &[ProtoKeyValue]) -> Vec<Value> {
    kvs.iter().map(|kv| json!([kv.key, text(&kv.value)])).collect()
}

fn resource(r: &Option<Resource>) -> Vec<Value> {
    r.as_ref().map(|r| pairs(&r.attributes)).unwrap_or_default()
}

fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02x}")).collect()
}

fn decode(body: &[u8], kind: &str) -> Value {
    match kind {
        "traces" => match ExportTraceServiceRequest::decode(body) {
            Err(e) => json!({"undecodable": e.to_string()}),
            Ok(r) => json!(r.resource_spans.iter().map(|rs| json!({
                "resource": resource(&rs.resource),
                "spans": rs.scope_spans.iter().flat_map(|s| &s.spans).map(|s| json!({
                    "name": s.name, "trace": hex(&s.trace_id), "parent": hex(&s.parent_span_id),
                    "attributes": pairs(&s.attributes), "lost": s.dropped_attributes_count,
                    "events": s.events.iter().map(|e| json!([e.name, pairs(&e.attributes), e.dropped_attributes_count])).collect::<Vec<_>>(), "lostEvents": s.dropped_events_count,
                    "links": s.links.iter().map(|l| json!([hex(&l.span_id), pairs(&l.attributes), l.dropped_attributes_count])).collect::<Vec<_>>(), "lostLinks": s.dropped_links_count,
                })).collect::<Vec<_>>(),
            })).collect::<Vec<_>>()),
        },
        "logs" => match ExportLogsServiceRequest::decode(body) {
            Err(e) => json!({"undecodable": e.to_string()}),
            Ok(r) => json!(r.resource_logs.iter().map(|rl| json!({
                "resource": resource(&rl.resource),
                "logs": rl.scope_logs.iter().flat_map(|s| &s.log_records).map(|l| json!([text(&l.body), l.severity_number])).collect::<Vec<_>>(),
            })).collect::<Vec<_>>()),
        },
        _ => match ExportMetricsServiceRequest::decode(body) {
            Err(e) => json!({"undecodable": e.to_string()}),
            Ok(r) => json!(r.resource_metrics.iter().map(|rm| json!({
                "resource": resource(&rm.resource),
                "metrics": rm.scope_metrics.iter().flat_map(|s| &s.metrics).map(|m| match &m.data {
                    Some(Data::Sum(s)) => json!([m.name, m.unit, "sum", s.aggregation_temporality, s.data_points.iter().map(|p| json!([pairs(&p.attributes), match p.value { Some(number_data_point::Value::AsInt(i)) => json!(i), _ => Value::Null }])).collect::<Vec<_>>()]),
                    Some(Data::ExponentialHistogram(h)) => json!([m.name, m.unit, "exponential", h.aggregation_temporality, h.data_points.iter().map(|p| json!([pairs(&p.attributes), p.count, p.sum])).collect::<Vec<_>>()]),
                    other => json!([m.name, m.unit, format!("{other:?}").chars().take(40).collect::<String>()]),
                }).collect::<Vec<_>>(),
            })).collect::<Vec<_>>()),
        },
    }
}

fn attributes(n: &Value) -> Vec<KeyValue> {
    (0..n.as_i64().unwrap())
        .map(|i| KeyValue::new(format!("a{i}"), i))
        .collect()
}

fn array(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}

pub fn run(req: &Value) -> Value {
    let listener = TcpListener::bind("127.0.0.1:0").unwrap();
    let address = listener.local_addr().unwrap().to_string();
    let seen: Arc<Mutex<Vec<Value>>> = Default::default();
    let round = Arc::new(Mutex::new(0usize));
    let collector = std::thread::spawn({
        let (seen, round) = (seen.clone(), round.clone());
        move || {
            for stream in listener.incoming().flatten() {
                let mut stream = stream;
                let Some((line, headers, body)) = read_request(&mut stream) else {
                    break;
                };
                // a collector knows what arrives by its path; here the request knows which are which
                let all: Vec<Value> = ["traces", "logs", "metrics"].iter().map(|k| decode(&body, k)).collect();
                seen.lock().unwrap().push(json!({"round": *round.lock().unwrap(), "line": line, "headers": headers, "traces": all[0], "logs": all[1], "metrics": all[2]}));
                let _ = stream.write_all(b"HTTP/1.1 200 OK\r\ncontent-type: application/x-protobuf\r\ncontent-length: 0\r\nconnection: close\r\n\r\n");
            }
        }
    });
    let end = |address: &str| drop(TcpStream::connect(address));
    let toml = req["toml"].as_str().unwrap().replace("{ADDRESS}", &address);
    let config = match toml::from_str::<gateway_config::Config>(&toml) {
        Ok(c) => c,
        Err(e) => {
            end(&address);
            return json!({"unread": e.to_string()});
        }
    };
    let ids = Ids::default();
    let built = layer::build::<Registry, _>(&config.telemetry, ids.clone());
    let otel = match built {
        Ok(o) => o,
        Err(e) => {
            end(&address);
            return json!({"unbuilt": e.to_string()});
        }
    };
    let tracer = otel.tracer.as_ref().map(|t| t.provider.tracer("verif"));
    let logs = otel.logger.as_ref().map(|l| l.provider.clone());
    let on = json!([tracer.is_some(), logs.is_some()]);
    let subscriber = Registry::default().with(otel.logger.map(|l| l.layer));
    let meter = otel.meter_provider.as_ref().map(|m| m.meter("verif"));
    let mut errors = Vec::new();
    tracing::subscriber::with_default(subscriber, || {
        for (k, r) in array(&req["rounds"]).iter().enumerate() {
            *round.lock().unwrap() = k;
            if let Some(tracer) = &tracer {
                for (i, s) in array(&r["spans"]).iter().enumerate() {
                    let trace = u128::from_str_radix(s["trace"].as_str().unwrap(), 16).unwrap();
                    *ids.trace.lock().unwrap() = trace;
                    let context = |sampled: bool, span: u64| {
                        SpanContext::new(
                            TraceId::from(trace),
                            SpanId::from(span),
                            if sampled {
                                TraceFlags::SAMPLED
                            } else {
                                TraceFlags::default()
                            },
                            true,
                            TraceState::default(),
                        )
                    };
                    let parent = match s["parent"].as_str().unwrap() {
                        "none" => Context::new(),
                        p => Context::new().with_remote_span_context(context(p == "sampled", 0xabcdef)),
                    };
                    let mut span = tracer
                        .span_builder(format!("r{k}s{i}"))
                        .with_attributes(attributes(&s["attributes"]))
                        .with_events(vec![])
                        .with_links(
                            array(&s["links"])
                                .iter()
                                .enumerate()
                                .map(|(j, n)| Link::new(context(true, 0x1000 + j as u64), attributes(n), 0))
                                .collect(),
                        )
                        .start_with_context(tracer, &parent);
                    for (j, n) in array(&s["events"]).iter().enumerate() {
                        let e = Event::new(format!("e{j}"), std::time::SystemTime::now(), attributes(n), 0);
                        span.add_event_with_timestamp(e.name, e.timestamp, e.attributes);
                    }
                    span.end();
                }
            }
            for i in 0..r["logs"].as_i64().unwrap() {
                tracing::warn!("r{k}l{i}");
            }
            if let Some(meter) = &meter {
                let counter = meter.u64_counter("counted").with_unit("1").build();
                for n in array(&r["adds"]) {
                    counter.add(n.as_u64().unwrap(), &[KeyValue::new("of", "verif")]);
                }
                let histogram = meter.f64_histogram("measured").with_unit("ms").build();
                for n in array(&r["records"]) {
                    histogram.record(n.as_f64().unwrap(), &[]);
                }
            }
            if let Some(t) = &otel.tracer
                && let Err(e) = t.provider.force_flush()
            {
                errors.push(format!("traces: {e}"));
            }
            if let Some(l) = &logs
                && let Err(e) = l.force_flush()
            {
                errors.push(format!("logs: {e}"));
            }
            if let Some(m) = &otel.meter_provider
                && let Err(e) = m.force_flush()
            {
                errors.push(format!("metrics: {e}"));
            }
        }
        *round.lock().unwrap() = 9;
    });
    drop(otel.tracer.map(|t| t.provider.shutdown()));
    drop(otel.meter_provider.map(|m| m.shutdown()));
    drop(logs.map(|l| l.shutdown()));
    end(&address);
    drop(collector.join());
    json!({"seen": *seen.lock().unwrap(), "errors": errors, "on": on})
}
