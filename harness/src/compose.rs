use crate::sdl;
use graphql_composition::{FederatedGraph, LoadedExtension, Subgraphs, render_api_sdl, render_federated_sdl};
use serde_json::{Value, json};

pub fn parse_only(req: &Value) -> Value {
    sdl::project(req["sdl"].as_str().unwrap(), true)
}

fn want(req: &Value, what: &str) -> bool {
    req["want"].as_array().is_some_and(|a| a.iter().any(|w| w == what))
}

/// {"op":"compose","subgraphs":[{"name","sdl","url"?}],"extensions":[{link_url,url,name}],
///  "want":["fed","api","dirdefs","roundtrip","text"]}
pub fn compose(req: &Value) -> Value {
    let mut subgraphs = Subgraphs::default();
    if let Some(exts) = req["extensions"].as_array() {
        subgraphs.ingest_loaded_extensions(exts.iter().map(|e| LoadedExtension {
            link_url: e["link_url"].as_str().unwrap().to_owned(),
            url: e["url"].as_str().unwrap().parse().unwrap(),
            name: e["name"].as_str().unwrap().to_owned(),
        }));
    }
    for s in req["subgraphs"].as_array().unwrap() {
        let name = s["name"].as_str().unwrap();
        let url = match &s["url"] {
            Value::String(u) => Some(u.clone()),
            Value::Bool(false) => None,
            _ => Some(format!("http://{name}.example.com")),
        };
        if let Err(e) = subgraphs.ingest_str(s["sdl"].as_str().unwrap(), name, url.as_deref()) {
            return json!({"ingest_error": e.to_string()});
        }
    }
    let result = graphql_composition::compose(&mut subgraphs);
    let diags: Vec<Value> = result
        .diagnostics()
        .iter()
        .map(|d| {
            json!({"severity": if d.severity().is_error() { "error" } else { "warning" },
                   "code": d.composite_schemas_error_code().map(|c| format!("{c:?}")),
                   "message": d.message()})
        })
        .collect();
    let mut out = json!({"diagnostics": diags});
    match result.into_result() {
        Err(_) => {
            out["ok"] = json!(false);
        }
        Ok(graph) => {
            out["ok"] = json!(true);
            let fed = render_federated_sdl(&graph);
            let api = render_api_sdl(&graph);
            match &fed {
                Ok(fed) => {
                    if want(req, "fed") {
                        out["fed"] = sdl::project(fed, want(req, "dirdefs"));
                    }
                    if want(req, "roundtrip") {
                        out["roundtrip"] = match FederatedGraph::from_sdl(fed) {
                            Ok(g2) => match render_federated_sdl(&g2) {
                                Ok(fed2) => {
                                    let api2 = render_api_sdl(&g2);
                                    let mut r = json!({"same": &fed2 == fed, "api_same": api2 == api});
                                    if &fed2 != fed {
                                        r["fed1"] = json!(fed);
                                        r["fed2"] = json!(fed2);
                                    }
                                    if api2 != api {
                                        r["api1"] = json!(api);
                                        r["api2"] = json!(api2);
                                    }
                                    r
                                }
                                Err(_) => json!({"error": "second rendering failed"}),
                            },
                            Err(e) => json!({"error": e.to_string(), "fed1": fed}),
                        };
                    }
                    if want(req, "text") {
                        out["fed_text"] = json!(fed);
                        out["api_text"] = json!(api);
                    }
                }
                Err(_) => out["fed"] = json!({"render_error": true}),
            }
            if want(req, "api") {
                out["api"] = sdl::project(&api, false);
            }
        }
    }
    out
}
