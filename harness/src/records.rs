//! Tells events to the layer that makes log records for OpenTelemetry, inside spans of the OpenTelemetry layer.
use grafbase_telemetry::otel::{
    logs::bridge::OtelLogsLayer,
    opentelemetry::{
        Context, InstrumentationScope,
        logs::AnyValue,
        trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState, TracerProvider},
    },
    opentelemetry_sdk::{
        error::OTelSdkResult,
        logs::{LogProcessor, SdkLogRecord, SdkLoggerProvider},
        trace::{SdkTracerProvider, Span, SpanData, SpanProcessor},
    },
    tracing_opentelemetry::{self, OpenTelemetrySpanExt},
    tracing_subscriber::{Registry, layer::SubscriberExt},
};
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tracing::callsite::{Callsite, Identifier};
use tracing::field::{FieldSet, Value as FieldValue};
use tracing::{Event, Level, Metadata, metadata::Kind};

#[derive(Debug, Clone, Default)]
struct Collected {
    records: Arc<Mutex<Vec<Value>>>,
    spans: Arc<Mutex<Vec<Value>>>,
}

fn any(v: &AnyValue) -> Value {
    match v {
        AnyValue::Int(i) => json!({"int": i.to_string()}),
        AnyValue::Double(d) => json!({"float": d.to_string()}),
        AnyValue::String(s) => json!({"text": s.as_str()}),
        AnyValue::Boolean(b) => json!({"bool": b}),
        AnyValue::Bytes(b) => json!({"bytes": b.as_slice()}),
        _ => json!("other"),
    }
}

impl LogProcessor for Collected {
    fn emit(&self, r: &mut SdkLogRecord, _: &InstrumentationScope) {
        self.records.lock().unwrap().push(json!({
            "severity": r.severity_number().map(|s| s as i32),
            "level": r.severity_text(),
            "target": r.target(),
            "name": r.event_name(),
            "body": r.body().map(any),
            "attributes": r.attributes_iter().map(|(k, v)| json!([k.as_str(), any(v)])).collect::<Vec<_>>(),
            "trace": r.trace_context().map(|t| json!([t.trace_id.to_string(), t.span_id.to_string()])),
        }));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
}

impl SpanProcessor for Collected {
    fn on_start(&self, _: &mut Span, _: &Context) {}
    fn on_end(&self, s: SpanData) {
        self.spans.lock().unwrap().push(json!([
            s.name,
            s.span_context.trace_id().to_string(),
            s.span_context.span_id().to_string()
        ]));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        Ok(())
    }
}

struct Raw(String);
impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Debug)]
struct Failure(String);
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Failure {}

// An event's fields are those of its callsite; one with all names stands for every event.
struct Site;
static SITE: Site = Site;
impl Callsite for Site {
    fn set_interest(&self, _: tracing::subscriber::Interest) {}
    fn metadata(&self) -> &Metadata<'_> {
        unreachable!("never registered")
    }
}
const FIELDS: usize = 64;

fn names() -> &'static [&'static str] {
    static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    NAMES.get_or_init(|| {
        std::iter::once("message")
            .chain((1..FIELDS).map(|i| &*Box::leak(format!("f{i}").into_boxed_str())))
            .collect()
    })
}

/// One for each level and place: metadata lives forever.
fn metadata(level: usize, place: usize) -> &'static Metadata<'static> {
    static ALL: Mutex<Vec<((usize, usize), &'static Metadata<'static>)>> = Mutex::new(Vec::new());
    let mut all = ALL.lock().unwrap();
    if let Some((_, m)) = all.iter().find(|(k, _)| *k == (level, place)) {
        return m;
    }
    let (file, line, module) = [
        (Some("src/a/b.rs"), Some(12), Some("crate::a::b")),
        (Some("b.rs"), Some(1), Some("b")),
        (Some("C:\\x\\y.rs"), None, Some("x")),
        (None, None, None),
    ][place];
    let m: &'static Metadata<'static> = Box::leak(Box::new(Metadata::new(
        "the name of the event",
        ["target::a", "b", "c", "d"][place],
        [Level::ERROR, Level::WARN, Level::INFO, Level::DEBUG, Level::TRACE][level],
        file,
        line,
        module,
        FieldSet::new(names(), Identifier(&SITE)),
        Kind::EVENT,
    )));
    all.push(((level, place), m));
    m
}

fn tell(event: &Value) {
    let metadata = metadata(
        event["level"].as_u64().unwrap() as usize,
        event["place"].as_u64().unwrap() as usize,
    );
    let text = |v: &Value| v.as_str().unwrap().to_owned();
    let value = |v: &Value| -> Box<dyn FieldValue> {
        match v[0].as_str().unwrap() {
            "str" => Box::new(text(&v[1])),
            "debug" => Box::new(tracing::field::debug(Raw(text(&v[1])))),
            "error" => Box::new(Box::new(Failure(text(&v[1]))) as Box<dyn std::error::Error + 'static>),
            "i64" => Box::new(text(&v[1]).parse::<i64>().unwrap()),
            "u64" => Box::new(text(&v[1]).parse::<u64>().unwrap()),
            "i128" => Box::new(text(&v[1]).parse::<i128>().unwrap()),
            "u128" => Box::new(text(&v[1]).parse::<u128>().unwrap()),
            "bool" => Box::new(v[1].as_bool().unwrap()),
            "float" => Box::new(text(&v[1]).parse::<f64>().unwrap()),
            other => panic!("no such value: {other}"),
        }
    };
    let bytes: Vec<Option<Vec<u8>>> = event["fields"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| (f[0] == "bytes").then(|| (0..f[1].as_u64().unwrap()).map(|i| i as u8).collect()))
        .collect();
    let message = (!event["message"].is_null()).then(|| value(&event["message"]));
    let values: Vec<Option<Box<dyn FieldValue>>> = event["fields"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| (f[0] != "bytes").then(|| value(f)))
        .collect();
    let fields: Vec<_> = metadata.fields().iter().collect();
    let slices: Vec<Option<&[u8]>> = bytes.iter().map(|b| b.as_deref()).collect();
    let row: [(&tracing::field::Field, Option<&dyn FieldValue>); FIELDS] = std::array::from_fn(|i| {
        let v: Option<&dyn FieldValue> = if i == 0 {
            message.as_deref()
        } else if let Some(Some(v)) = values.get(i - 1) {
            Some(v.as_ref())
        } else if let Some(Some(b)) = slices.get(i - 1) {
            Some(b as &dyn FieldValue)
        } else {
            None
        };
        (&fields[i], v)
    });
    Event::dispatch(metadata, &metadata.fields().value_set(&row));
}

pub fn run(req: &Value) -> Value {
    let collected = Collected::default();
    let spans = SdkTracerProvider::builder()
        .with_span_processor(collected.clone())
        .build();
    let logs = SdkLoggerProvider::builder()
        .with_log_processor(collected.clone())
        .build();
    let subscriber = Registry::default()
        .with(tracing_opentelemetry::layer().with_tracer(spans.tracer("verif")))
        .with(OtelLogsLayer::new(logs));
    let mut out = Vec::new();
    tracing::subscriber::with_default(subscriber, || {
        let mut stack = Vec::new();
        let mut opened = 0;
        for step in req["steps"].as_array().unwrap() {
            match step["what"].as_str().unwrap() {
                "open" => {
                    opened += 1;
                    let span = tracing::info_span!("span", "otel.name" = format!("s{opened}"));
                    if let Some(trace) = step["remote"].as_str() {
                        span.set_parent(Context::new().with_remote_span_context(SpanContext::new(
                            TraceId::from_hex(trace).unwrap(),
                            SpanId::from_hex("00000000000000ab").unwrap(),
                            TraceFlags::SAMPLED,
                            true,
                            TraceState::default(),
                        )));
                    }
                    stack.push(span.entered());
                }
                "close" => drop(stack.pop()),
                _ => {
                    tell(&step["event"]);
                    out.push(json!(std::mem::take(&mut *collected.records.lock().unwrap())));
                }
            }
        }
        while stack.pop().is_some() {}
    });
    json!({"records": out, "spans": *collected.spans.lock().unwrap()})
}
