//! Introspects a server of the loopback network whose answers are the ones of the request.
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

/// The first line of a request, its headers (lowercase names, in order) and its body.
pub type Request = (String, Vec<(String, String)>, Vec<u8>);

pub fn read_request(stream: &mut TcpStream) -> Option<Request> {
    stream.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
    let mut bytes = Vec::new();
    let mut chunk = [0u8; 4096];
    let end = loop {
        let n = stream.read(&mut chunk).ok()?;
        if n == 0 {
            return None;
        }
        bytes.extend_from_slice(&chunk[..n]);
        if let Some(at) = bytes.windows(4).position(|w| w == b"\r\n\r\n") {
            break at;
        }
    };
    let head = String::from_utf8_lossy(&bytes[..end]).into_owned();
    let mut lines = head.split("\r\n");
    let line = lines.next()?.to_owned();
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.split_once(':'))
        .map(|(n, v)| (n.trim().to_ascii_lowercase(), v.trim().to_owned()))
        .collect();
    let length: usize = headers
        .iter()
        .find(|(n, _)| n == "content-length")
        .and_then(|(_, v)| v.parse().ok())?;
    while bytes.len() < end + 4 + length {
        let n = stream.read(&mut chunk).ok()?;
        if n == 0 {
            return None;
        }
        bytes.extend_from_slice(&chunk[..n]);
    }
    Some((line, headers, bytes.split_off(end + 4)))
}

/// Answers one request with the answer of the list it calls for.
fn serve(mut stream: TcpStream, req: &Value) -> Option<Value> {
    let (line, headers, bytes) = read_request(&mut stream)?;
    let body: Value = serde_json::from_slice(&bytes).unwrap_or(Value::Null);
    let query = body["query"].as_str().unwrap_or("");
    let asks = match (query.contains("_service"), query.contains("__schema")) {
        (true, false) => "service",
        (false, true) => "standard",
        _ => "other",
    };
    let answer = &req[asks];
    if let Some(status) = answer["status"].as_u64() {
        let body = answer["body"].as_str().unwrap_or("");
        let _ = write!(
            stream,
            "HTTP/1.1 {status} X\r\ncontent-type: application/json\r\ncontent-length: {}\r\nconnection: close\r\n\r\n{body}",
            body.len()
        );
        let _ = stream.flush();
    }
    // otherwise the connection is closed without an answer
    Some(json!({"asks": asks, "line": line, "headers": headers}))
}

pub fn run(req: &Value) -> Value {
    let listener = TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("http://{}/graphql", listener.local_addr().unwrap());
    let headers: Vec<(String, String)> = req["headers"]
        .as_array()
        .unwrap()
        .iter()
        .map(|h| (h[0].as_str().unwrap().to_owned(), h[1].as_str().unwrap().to_owned()))
        .collect();
    let script = req.clone();
    let server = std::thread::spawn(move || {
        let mut seen = Vec::new();
        // the last connection asks for nothing
        for stream in listener.incoming() {
            match stream.ok().and_then(|stream| serve(stream, &script)) {
                Some(s) => seen.push(s),
                None => break,
            }
        }
        seen
    });
    let runtime = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap();
    let result = runtime.block_on(grafbase_graphql_introspection::introspect(&url, &headers));
    drop(runtime);
    let address = url
        .trim_start_matches("http://")
        .trim_end_matches("/graphql")
        .to_owned();
    drop(TcpStream::connect(&address));
    let seen = server.join().unwrap_or_default();
    match result {
        Ok(sdl) => json!({"ok": sdl, "schema": crate::sdl::project(&sdl, true), "seen": seen}),
        Err(e) => json!({"error": e, "seen": seen}),
    }
}
