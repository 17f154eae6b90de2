use crate::sdl;
use graphql_schema_diff::{diff, patch, path::Path, resolve_spans};
use serde_json::{Value, json};

/// {"op":"diff","source","target","patch"?: bool}
pub fn run(req: &Value) -> Value {
    let (source, target) = (req["source"].as_str().unwrap(), req["target"].as_str().unwrap());
    let changes = match diff(source, target) {
        Ok(c) => c,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let spans: Vec<&str> = resolve_spans(source, target, &changes).collect();
    let list: Vec<Value> = changes
        .iter()
        .zip(&spans)
        .map(|(c, text)| {
            let back = match Path::parse(&c.path) {
                Ok(p) => json!(p.to_string()),
                Err(_) => Value::Null,
            };
            json!({"path": c.path, "kind": c.kind.as_str(), "text": text, "start": c.span.start, "end": c.span.end, "path_back": back,
                   "kind_back": c.kind.as_str().parse::<graphql_schema_diff::ChangeKind>() == Ok(c.kind)})
        })
        .collect();
    let mut out = json!({"changes": list});
    if req["patch"].as_bool() == Some(true) {
        out["patched"] = match patch(source, &changes, &spans) {
            Ok(p) => {
                let text = p.into_schema();
                let again = match diff(&text, target) {
                    Ok(c) => json!(
                        c.iter()
                            .map(|c| format!("{} {}", c.kind.as_str(), c.path))
                            .collect::<Vec<_>>()
                    ),
                    Err(e) => json!({"error": e.to_string()}),
                };
                json!({"text": text, "ast": sdl::project(&text, true), "again": again})
            }
            Err(e) => json!({"error": e.to_string()}),
        };
    }
    out
}

/// {"op":"schema_path","paths":[..]} -> {"paths":[null | {"display", "what"}]}
pub fn paths(req: &Value) -> Value {
    use graphql_schema_diff::path::{PathInField, PathInType};
    let list: Vec<Value> = req["paths"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let p = p.as_str().unwrap().to_owned();
            let r = std::panic::catch_unwind(|| match Path::parse(&p) {
                Err(_) => Value::Null,
                Ok(path) => {
                    let inside = |i: &Option<PathInType<'_>>| match i {
                        None => "type",
                        Some(PathInType::InDirective(..)) => "directive on a type",
                        Some(PathInType::InterfaceImplementation(_)) => "implementation",
                        Some(PathInType::InField(_, None)) => "field",
                        Some(PathInType::InField(_, Some(PathInField::InArgument(_)))) => "argument",
                        Some(PathInType::InField(_, Some(PathInField::InDirective(..)))) => "directive on a field",
                    };
                    let what = match &path {
                        Path::SchemaDefinition => "schema",
                        Path::SchemaExtension(_) => "schema extension",
                        Path::DirectiveDefinition(_) => "directive definition",
                        Path::TypeDefinition(_, i) | Path::TypeExtension(_, _, i) => inside(i),
                    };
                    let display = path.to_string();
                    let again = Path::parse(&display).ok() == Some(path.clone());
                    json!({"display": display, "what": what, "again": again})
                }
            });
            r.unwrap_or_else(|_| json!({"panic": true}))
        })
        .collect();
    json!({"paths": list})
}
