//! The rolling logger under a virtual clock and with injected faults, and the event queue.
use event_queue::*;
use grafbase_telemetry::graphql::GraphqlResponseStatus;
use rolling_logger::{RollingLogger, RotateStrategy};
use serde_json::{Map, Value, json};
use std::cell::Cell;
use std::io::Write;
use std::os::raw::{c_char, c_int, c_void};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use std::time::Duration;

// ---------------------------------------------------------------- stand-ins for system calls
// Defined in the executable, they take precedence over the C library's. Without a plan on the calling thread they
// pass everything through.

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    None,
    /// the call fails without an effect
    Fail,
    /// the call takes only this many bytes
    Short(usize),
    /// the process dies in the call, having written this many bytes
    Die(usize),
    /// the call takes only this many bytes, and the next one fails
    Tear(usize),
}

#[derive(Clone, Copy)]
struct Plan {
    active: bool,
    dead: bool,
    write: Fault,
    rename: Fault,
    open: Fault,
}
const IDLE: Plan = Plan {
    active: false,
    dead: false,
    write: Fault::None,
    rename: Fault::None,
    open: Fault::None,
};

thread_local! {
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static PLAN: Cell<Plan> = const { Cell::new(IDLE) };
}

unsafe fn sys(nr: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    let r: i64;
    unsafe {
        core::arch::asm!("syscall", inlateout("rax") nr => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
            lateout("rcx") _, lateout("r11") _);
    }
    r
}

unsafe extern "C" {
    fn __errno_location() -> *mut c_int;
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = -r as c_int };
        -1
    } else {
        r
    }
}

const EIO: i64 = -5;
const ENOSPC: i64 = -28;
const AT_FDCWD: i64 = -100;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    if let Ok(Some((s, n))) = CLOCK.try_with(|c| c.get()) {
        unsafe { *ts = [s, n] };
        return 0;
    }
    unsafe { ret(sys(228, id as i64, ts as i64, 0, 0)) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut p = PLAN.try_with(|p| p.get()).unwrap_or(IDLE);
    let mut n = n;
    if p.active {
        if p.dead {
            return unsafe { ret(EIO) as isize };
        }
        let f = std::mem::replace(&mut p.write, Fault::None);
        PLAN.with(|q| q.set(p));
        match f {
            Fault::None => {}
            Fault::Fail => return unsafe { ret(ENOSPC) as isize },
            Fault::Short(k) => n = n.min(k),
            Fault::Tear(k) => {
                n = n.min(k);
                p.write = Fault::Fail;
                PLAN.with(|q| q.set(p));
            }
            Fault::Die(k) => {
                p.dead = true;
                PLAN.with(|q| q.set(p));
                let k = n.min(k);
                if k > 0 {
                    unsafe { sys(1, fd as i64, buf as i64, k as i64, 0) };
                }
                return unsafe { ret(EIO) as isize };
            }
        }
    }
    unsafe { ret(sys(1, fd as i64, buf as i64, n as i64, 0)) as isize }
}

/// None: go ahead. Some: fail with this.
fn gate(pick: fn(&mut Plan) -> &mut Fault, after: impl FnOnce()) -> Option<i64> {
    let mut p = PLAN.try_with(|p| p.get()).unwrap_or(IDLE);
    if !p.active {
        return None;
    }
    if p.dead {
        return Some(EIO);
    }
    let f = std::mem::replace(pick(&mut p), Fault::None);
    p.dead = matches!(f, Fault::Die(_));
    PLAN.with(|q| q.set(p));
    match f {
        Fault::None => None,
        // the process dies just before (0) or just after (1) the call's effect
        Fault::Die(1) => {
            after();
            Some(EIO)
        }
        _ => Some(EIO),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let call = || unsafe { sys(82, a as i64, b as i64, 0, 0) };
    match gate(|p| &mut p.rename, || _ = call()) {
        Some(e) => unsafe { ret(e) as c_int },
        None => unsafe { ret(call()) as c_int },
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    // only openings for writing are the logger's
    let call = || unsafe { sys(257, AT_FDCWD, path as i64, flags as i64, mode as i64) };
    if flags & 3 == 0 {
        return unsafe { ret(call()) as c_int };
    }
    let after = || {
        let fd = call();
        if fd >= 0 {
            unsafe { sys(3, fd, 0, 0, 0) };
        }
    };
    match gate(|p| &mut p.open, after) {
        Some(e) => unsafe { ret(e) as c_int },
        None => unsafe { ret(call()) as c_int },
    }
}

// ---------------------------------------------------------------- rolling logger

static COUNTER: AtomicUsize = AtomicUsize::new(0);

fn scratch() -> std::path::PathBuf {
    let cwd = std::env::current_dir().unwrap();
    assert!(std::env::var("VHARNESS_SCRATCH").is_ok_and(|d| Path::new(&d) == cwd));
    let dir = cwd.join(format!("l{}", COUNTER.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

fn strategy(v: &Value) -> RotateStrategy {
    match v["kind"].as_str().unwrap() {
        "size" => RotateStrategy::size(v["limit"].as_u64().unwrap()),
        "never" => RotateStrategy::never(),
        "minutely" => RotateStrategy::minutely(),
        "hourly" => RotateStrategy::hourly(),
        "daily" => RotateStrategy::daily(),
        "weekly" => RotateStrategy::weekly(),
        "monthly" => RotateStrategy::monthly(),
        "yearly" => RotateStrategy::yearly(),
        other => panic!("{other}"),
    }
}

/// 2026-01-01
const BASE: i64 = 1_767_225_600;

fn fault(v: &Value) -> Fault {
    let n = v["n"].as_u64().unwrap_or(0) as usize;
    match v["how"].as_str().unwrap_or("") {
        "fail" => Fault::Fail,
        "short" => Fault::Short(n),
        "die" => Fault::Die(n),
        "tear" => Fault::Tear(n),
        _ => Fault::None,
    }
}

/// A history of the logger: {"strategy", "steps": [{"do": "write", "text", "fault"?} | {"do": "open", "strategy", "fault"?} | {"do": "clock", "s", "ms"} | ...]}.
/// After each step, the files of the directory.
pub fn log(req: &Value) -> Value {
    let dir = scratch();
    let path = dir.join("access.log");
    let mut logger: Option<RollingLogger> = None;
    let mut out = Vec::new();
    for step in req["steps"].as_array().unwrap() {
        CLOCK.with(|c| {
            c.set(Some((
                BASE + step["s"].as_i64().unwrap(),
                step["ms"].as_i64().unwrap() * 1_000_000,
            )))
        });
        let mut plan = Plan { active: true, ..IDLE };
        let f = fault(&step["fault"]);
        match step["fault"]["at"].as_str().unwrap_or("") {
            "write" => plan.write = f,
            "rename" => plan.rename = f,
            "open" => plan.open = f,
            _ => {}
        }
        let kind = step["do"].as_str().unwrap();
        // the history was made for a logger that is up, or down, at this point
        if match kind {
            "open" | "place" => logger.is_some(),
            "write" | "flush" | "close" => logger.is_none(),
            _ => false,
        } {
            break;
        }
        if kind == "place" {
            // a file left by someone else
            std::fs::write(&path, step["text"].as_str().unwrap()).unwrap();
        }
        PLAN.with(|p| p.set(plan));
        let mut taken = 0;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
            "open" => match RollingLogger::new(&path, strategy(&step["strategy"])) {
                Ok(l) => {
                    logger = Some(l);
                    "ok".to_string()
                }
                Err(e) => e.to_string(),
            },
            "close" => {
                logger = None;
                "ok".to_string()
            }
            "write" if step["once"].as_bool().unwrap_or(false) => match logger
                .as_mut()
                .unwrap()
                .write(step["text"].as_str().unwrap().as_bytes())
            {
                Ok(n) => {
                    taken = n;
                    "ok".to_string()
                }
                Err(e) => e.to_string(),
            },
            "write" => match logger
                .as_mut()
                .unwrap()
                .write_all(step["text"].as_str().unwrap().as_bytes())
            {
                Ok(()) => "ok".to_string(),
                Err(e) => e.to_string(),
            },
            "flush" => match logger.as_mut().unwrap().flush() {
                Ok(()) => "ok".to_string(),
                Err(e) => e.to_string(),
            },
            _ => "ok".to_string(),
        }));
        let died = PLAN.with(|p| p.replace(IDLE)).dead;
        CLOCK.with(|c| c.set(None));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                std::fs::remove_dir_all(&dir).unwrap();
                std::panic::resume_unwind(e)
            }
        };
        if died {
            logger = None;
        }
        let mut files = Map::new();
        for f in std::fs::read_dir(&dir).unwrap() {
            let f = f.unwrap();
            files.insert(
                f.file_name().into_string().unwrap(),
                json!(std::fs::read_to_string(f.path()).unwrap()),
            );
        }
        out.push(json!({"result": r, "died": died, "taken": taken, "files": files}));
    }
    drop(logger);
    std::fs::remove_dir_all(&dir).unwrap();
    json!({"steps": out})
}

// ---------------------------------------------------------------- events

fn filter(v: &Value) -> Option<EventFilter> {
    match v {
        Value::Null => None,
        Value::String(_) => Some(EventFilter::All),
        v => Some(EventFilter::Types(v.as_array().unwrap().iter().fold(
            Default::default(),
            |a, k| {
                a | match k.as_str().unwrap() {
                    "operation" => EventFilterType::Operation,
                    "subgraph" => EventFilterType::SubgraphRequest,
                    "http" => EventFilterType::HttpRequest,
                    "extension" => EventFilterType::Extension,
                    other => panic!("{other}"),
                }
            },
        ))),
    }
}

fn status(v: &Value) -> GraphqlResponseStatus {
    let n = v["count"].as_u64().unwrap_or(0);
    match v["kind"].as_str().unwrap() {
        "success" => GraphqlResponseStatus::Success,
        "field" => GraphqlResponseStatus::FieldError {
            count: n,
            data_is_null: v["null"].as_bool().unwrap(),
        },
        "request" => GraphqlResponseStatus::RequestError { count: n },
        "refused" => GraphqlResponseStatus::RefusedRequest,
        other => panic!("{other}"),
    }
}

fn status_json(s: GraphqlResponseStatus) -> Value {
    match s {
        GraphqlResponseStatus::Success => json!({"kind": "success"}),
        GraphqlResponseStatus::FieldError { count, data_is_null } => {
            json!({"kind": "field", "count": count, "null": data_is_null})
        }
        GraphqlResponseStatus::RequestError { count } => json!({"kind": "request", "count": count}),
        GraphqlResponseStatus::RefusedRequest => json!({"kind": "refused"}),
    }
}

fn ms(d: Duration) -> Value {
    json!(d.as_millis() as u64)
}

fn event_json(e: Event) -> Value {
    match e {
        Event::Operation(o) => {
            json!({"kind": "operation", "name": o.name, "document": &*o.document, "prepare": ms(o.prepare_duration), "duration": ms(o.duration),
            "cached": o.cached_plan, "status": status_json(o.status), "type": o.operation_type.as_str(), "complexity": o.complexity, "deprecated": o.has_deprecated_fields})
        }
        Event::Subgraph(s) => {
            json!({"kind": "subgraph", "name": s.subgraph_name, "method": s.method.as_str(), "url": s.url, "errors": s.has_errors, "duration": ms(s.total_duration),
            "cache": match s.cache_status { CacheStatus::Hit => "hit", CacheStatus::PartialHit => "partial", CacheStatus::Miss => "miss" },
            "executions": s.executions.iter().map(|x| match x {
                RequestExecution::InternalServerError => json!({"is": "server error"}),
                RequestExecution::RequestError => json!({"is": "request error"}),
                RequestExecution::RateLimited => json!({"is": "rate limited"}),
                RequestExecution::Response(r) => json!({"is": "response", "connection": ms(r.connection_time), "response": ms(r.response_time), "status": r.status.as_u16(),
                    "headers": r.headers.iter().map(|(k, v)| format!("{k}: {}", v.to_str().unwrap())).collect::<Vec<_>>()}),
            }).collect::<Vec<_>>()})
        }
        Event::Http(h) => {
            json!({"kind": "http", "url": h.url, "method": h.method.as_str(), "status": h.response_status.as_u16()})
        }
        Event::Extension(x) => {
            json!({"kind": "extension", "extension": x.extension_name, "event": x.event_name, "data": x.data})
        }
    }
}

fn method(v: &Value) -> http::Method {
    v.as_str().unwrap().parse().unwrap()
}

/// Builds the event and pushes it; every step of the building happens at its time.
fn push(queue: &EventQueue, e: &Value, clock: bool) {
    let at = |v: &Value| {
        if clock {
            let t = v.as_i64().unwrap();
            CLOCK.with(|c| c.set(Some((BASE + t / 1000, (t % 1000) * 1_000_000))));
        }
    };
    at(&e["at"]);
    let sets = e["sets"].as_array().unwrap();
    match e["kind"].as_str().unwrap() {
        "operation" => {
            let docs: Vec<Arc<str>> = sets.iter().map(|s| Arc::from(s["v"].as_str().unwrap_or(""))).collect();
            let mut b = match e["type"].as_str() {
                None => ExecutedOperation::builder_with_default(),
                Some(t) => ExecutedOperation::builder(op_type(t)),
            };
            for (i, s) in sets.iter().enumerate() {
                at(&s["at"]);
                let v = &s["v"];
                match s["set"].as_str().unwrap() {
                    "name" => drop(b.name(v.as_str().unwrap())),
                    "document" => drop(b.document(&docs[i])),
                    "prepare" => drop(b.track_prepare()),
                    "cached" => b.cached_plan(v.as_bool().unwrap()),
                    "status" => drop(b.status(status(v))),
                    "type" => drop(b.operation_type(op_type(v.as_str().unwrap()))),
                    "complexity" => drop(b.complexity(v.as_u64().unwrap())),
                    "deprecated" => drop(b.has_deprecated_fields(v.as_bool().unwrap())),
                    other => panic!("{other}"),
                }
            }
            at(&e["end"]);
            queue.push_operation(b);
        }
        "subgraph" => {
            let mut b = ExecutedSubgraphRequest::builder(
                e["name"].as_str().unwrap(),
                method(&e["method"]),
                e["url"].as_str().unwrap(),
            );
            for s in sets {
                at(&s["at"]);
                let v = &s["v"];
                match s["set"].as_str().unwrap() {
                    "execution" => b.push_execution(match v["is"].as_str().unwrap() {
                        "server error" => RequestExecution::InternalServerError,
                        "request error" => RequestExecution::RequestError,
                        "rate limited" => RequestExecution::RateLimited,
                        _ => {
                            let mut r = SubgraphResponse::builder();
                            for x in v["sets"].as_array().unwrap() {
                                at(&x["at"]);
                                match x["set"].as_str().unwrap() {
                                    "connection" => r.track_connection(),
                                    "response" => r.track_response(),
                                    "status" => {
                                        r.status(http::StatusCode::from_u16(x["v"].as_u64().unwrap() as u16).unwrap())
                                    }
                                    "headers" => r.headers(
                                        x["v"]
                                            .as_array()
                                            .unwrap()
                                            .iter()
                                            .map(|h| {
                                                let (k, v) = h.as_str().unwrap().split_once(": ").unwrap();
                                                (
                                                    k.parse::<http::HeaderName>().unwrap(),
                                                    v.parse::<http::HeaderValue>().unwrap(),
                                                )
                                            })
                                            .collect(),
                                    ),
                                    other => panic!("{other}"),
                                }
                            }
                            RequestExecution::Response(r.build())
                        }
                    }),
                    "cache" => b.cache_status(match v.as_str().unwrap() {
                        "hit" => CacheStatus::Hit,
                        "partial" => CacheStatus::PartialHit,
                        _ => CacheStatus::Miss,
                    }),
                    "status" => b.graphql_response_status(status(v)),
                    other => panic!("{other}"),
                }
            }
            at(&e["end"]);
            queue.push_subgraph_request(b);
        }
        "http" => {
            let mut b = ExecutedHttpRequest::builder(e["url"].as_str().unwrap());
            for s in sets {
                b = match s["set"].as_str().unwrap() {
                    "method" => b.method(method(&s["v"])),
                    _ => b.response_status(http::StatusCode::from_u16(s["v"].as_u64().unwrap() as u16).unwrap()),
                };
            }
            queue.push_http_request(b);
        }
        _ => {
            let r = queue.push_extension_event(|| {
                if e["fails"].as_bool().unwrap_or(false) {
                    return Err("failed");
                }
                Ok(ExtensionEvent {
                    extension_name: e["extension"].as_str().unwrap().to_string(),
                    event_name: e["event"].as_str().unwrap().to_string(),
                    data: serde_json::from_value(e["data"].clone()).unwrap(),
                })
            });
            FAILED.with(|f| f.set(r.is_err()));
        }
    }
}

thread_local! {
    static FAILED: Cell<bool> = const { Cell::new(false) };
}

fn op_type(t: &str) -> OperationType {
    match t {
        "query" => OperationType::Query,
        "mutation" => OperationType::Mutation,
        "subscription" => OperationType::Subscription,
        other => panic!("{other}"),
    }
}

/// One thread: a sequence of pushes and pops under a virtual clock.
pub fn events(req: &Value) -> Value {
    let queue = match &req["filter"] {
        Value::String(s) if s == "default" => EventQueue::default(),
        f => EventQueue::new(filter(f)),
    };
    let mut out = Vec::new();
    for s in req["steps"].as_array().unwrap() {
        out.push(if s["do"] == "pop" {
            queue.pop().map_or(json!({}), event_json)
        } else {
            FAILED.with(|f| f.set(false));
            push(&queue, s, true);
            CLOCK.with(|c| c.set(None));
            json!({"failed": FAILED.with(|f| f.get())})
        });
    }
    json!({"steps": out})
}

/// Several threads, each with its own sequence of pushes and pops; the recorded trace orders calls and returns.
pub fn concurrent(req: &Value) -> Value {
    let queue = EventQueue::new(filter(&req["filter"]));
    let threads = req["threads"].as_array().unwrap();
    let barrier = Barrier::new(threads.len());
    let ticket = AtomicUsize::new(0);
    let mut events: Vec<(usize, Value)> = std::thread::scope(|s| {
        let hs: Vec<_> = threads
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let (queue, barrier, ticket) = (&queue, &barrier, &ticket);
                s.spawn(move || {
                    let ops = ops.as_array().unwrap();
                    let mut out = Vec::new();
                    barrier.wait();
                    for o in ops {
                        for _ in 0..o["spin"].as_u64().unwrap() {
                            std::hint::spin_loop();
                        }
                        let call = ticket.fetch_add(1, Ordering::SeqCst);
                        let got = if o["do"] == "pop" {
                            queue.pop()
                        } else {
                            push(queue, o, false);
                            None
                        };
                        let back = ticket.fetch_add(1, Ordering::SeqCst);
                        out.push((call, o, got, back));
                    }
                    out.into_iter()
                        .flat_map(|(call, o, got, back)| {
                            let got = got.map_or(json!(0), |e| ident(&e));
                            [
                                (
                                    call,
                                    json!({"t": t + 1, "e": "call", "do": o["do"], "kind": o["kind"], "id": o["id"]}),
                                ),
                                (back, json!({"t": t + 1, "e": "return", "id": got})),
                            ]
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    events.sort_by_key(|e| e.0);
    let mut rest = Vec::new();
    while let Some(e) = queue.pop() {
        rest.push(ident(&e));
    }
    json!({"events": events.into_iter().map(|e| e.1).collect::<Vec<_>>(), "rest": rest})
}

/// The number an event was given.
fn ident(e: &Event) -> Value {
    let s = match e {
        Event::Operation(o) => o.name.clone().unwrap_or_default(),
        Event::Subgraph(s) => s.url.clone(),
        Event::Http(h) => h.url.clone(),
        Event::Extension(x) => x.event_name.clone(),
    };
    json!(s.parse::<u64>().unwrap_or(0))
}
