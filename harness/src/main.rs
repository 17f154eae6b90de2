//! Replays behaviours of the TLA+ specifications in the real code: one JSON request per stdin line, one JSON
//! observation per stdout line. A panic of the code under test is an observation (`{"panic": ...}`).
mod collections;
mod compose;
mod config;
mod diff;
mod exports;
mod introspect;
mod manifest;
mod opcheck;
mod records;
mod runtime;
mod sdk;
mod sdl;
mod small;
mod validate;

use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Counts the bytes each thread has allocated and not freed.
struct Counting;

thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

fn count(by: i64) {
    let _ = LIVE.try_with(|live| live.set(live.get() + by));
}

pub fn live_bytes() -> i64 {
    LIVE.with(|live| live.get())
}

// SAFETY: every call goes to the system allocator unchanged.
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: std::alloc::Layout) -> *mut u8 {
        count(layout.size() as i64);
        unsafe { std::alloc::System.alloc(layout) }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: std::alloc::Layout) {
        count(-(layout.size() as i64));
        unsafe { std::alloc::System.dealloc(ptr, layout) }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: std::alloc::Layout, size: usize) -> *mut u8 {
        count(size as i64 - layout.size() as i64);
        unsafe { std::alloc::System.realloc(ptr, layout, size) }
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn dispatch(req: &Value) -> Value {
    match req["op"].as_str().unwrap_or("") {
        "collections" => collections::run(req),
        "manifest" => manifest::run(req),
        "lockfile" => manifest::lockfile(req),
        "compose" => compose::compose(req),
        "sdl" => compose::parse_only(req),
        "dynamic" => config::dynamic(req),
        "config" => config::load(req),
        "diff" => diff::run(req),
        "opcheck" => opcheck::run(req),
        "sdl_full" => sdl::project(req["sdl"].as_str().unwrap(), true),
        "selection_map" => small::selection_map(req),
        "wrapping" => small::wrapping(req),
        "extension_id" => small::extension_id(req),
        "graph_ref" => small::graph_ref(req),
        "catalog" => small::catalog(req),
        "lint" => small::lint(req),
        "log" => runtime::log(req),
        "events" => runtime::events(req),
        "concurrent" => runtime::concurrent(req),
        "decisions" => sdk::decisions(req),
        "contract" => sdk::contract(req),
        "handed" => sdk::handed(req),
        "field" => sdk::field(req),
        "jq" => sdk::jq(req),
        "introspect" => introspect::run(req),
        "records" => records::run(req),
        "exports" => exports::run(req),
        "validate" => validate::run(req),
        "schema_path" => diff::paths(req),
        other => json!({"harness_error": format!("unknown op {other}")}),
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run(req: &Value) -> Value {
    match catch_unwind(AssertUnwindSafe(|| dispatch(req))) {
        Ok(v) => v,
        Err(_) => json!({"panic": PANIC.with(|p| p.borrow().clone())}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
    }));
    let lines: Vec<String> = std::io::stdin()
        .lock()
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.is_empty())
        .collect();
    let threads: usize = std::env::var("VHARNESS_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(8);
    let next = AtomicUsize::new(0);
    let out = Mutex::new(std::io::BufWriter::new(std::io::stdout()));
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let Some(line) = lines.get(i) else { break };
                        let v = match serde_json::from_str::<Value>(line) {
                            Ok(req) => run(&req),
                            Err(e) => json!({"harness_error": e.to_string()}),
                        };
                        let text = format!("{i}\t{v}\n");
                        out.lock().unwrap().write_all(text.as_bytes()).unwrap();
                    }
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap().flush().unwrap();
}
