use extension::*;
use serde_json::{Value, json};

fn filter(f: &Option<EventFilter>) -> Value {
    match f {
        None => Value::Null,
        Some(EventFilter::All) => json!("all"),
        Some(EventFilter::Types(t)) => json!(
            t.iter()
                .map(|t| match t {
                    EventType::Operation => "operation",
                    EventType::SubgraphRequest => "subgraph_request",
                    EventType::HttpRequest => "http_request",
                    EventType::Extension => "extension",
                })
                .collect::<Vec<_>>()
        ),
    }
}

fn kind(t: &Type) -> Value {
    let (k, l, g, f) = match t {
        Type::FieldResolver(x) => ("FieldResolver", x.resolver_directives.clone(), None, None),
        Type::SelectionSetResolver(_) => ("SelectionSetResolver", None, None, None),
        Type::Resolver(x) => ("Resolver", x.directives.clone(), None, None),
        Type::Authentication(_) => ("Authentication", None, None, None),
        Type::Authorization(x) => ("Authorization", x.directives.clone(), x.group_by.clone(), None),
        Type::Hooks(x) => ("Hooks", None, None, x.event_filter.clone()),
        Type::Contracts(x) => ("Contracts", x.directives.clone(), None, None),
    };
    let g = g.map(|g| {
        g.iter()
            .map(|g| match g {
                AuthorizationGroupBy::Subgraph => "subgraph",
            })
            .collect::<Vec<_>>()
    });
    json!({"k": k, "l": l, "g": g, "f": filter(&f)})
}

fn project(m: &Manifest) -> Value {
    json!({
        "id": [m.name(), m.version().to_string()], "type": kind(&m.r#type), "sdk_version": m.sdk_version.to_string(),
        "minimum_gateway_version": m.minimum_gateway_version.to_string(), "description": m.description, "associated_link_urls": m.associated_link_urls,
        "sdl": m.sdl, "readme": m.readme, "license": m.license, "homepage_url": m.homepage_url.as_ref().map(|u| u.to_string()),
        "repository_url": m.repository_url.as_ref().map(|u| u.to_string()),
        "permissions": m.permissions.iter().map(|p| match p {
            ExtensionPermission::Network => "network", ExtensionPermission::Stdout => "stdout",
            ExtensionPermission::Stderr => "stderr", ExtensionPermission::EnvironmentVariables => "environment_variables" }).collect::<Vec<_>>(),
        "event_filter": filter(&m.legacy_event_filter),
    })
}

pub fn run(req: &Value) -> Value {
    let text = req["text"].as_str().unwrap();
    let read = if req["tagged"].as_bool().unwrap() {
        serde_json::from_str::<VersionedManifest>(text).map(VersionedManifest::into_latest)
    } else {
        serde_json::from_str::<Manifest>(text)
    };
    match read {
        Err(e) => json!({"error": e.to_string()}),
        Ok(m) => {
            let written = serde_json::to_string(&m.clone().into_versioned()).unwrap();
            let again = serde_json::from_str::<VersionedManifest>(&written)
                .map(|v| v.into_latest() == m)
                .unwrap_or(false);
            json!({"read": project(&m), "written": serde_json::from_str::<Value>(&written).unwrap(), "plain": serde_json::to_value(&m).unwrap(), "again": again, "asks": {
                "network": m.network_enabled(), "stdout": m.stdout_enabled(), "stderr": m.stderr_enabled(), "env": m.environment_variables_enabled(),
                "field_resolver": m.is_resolver(), "resolver": m.r#type.is_resolver(), "authentication": m.is_authentication(), "hooks": m.is_hooks() && m.r#type.is_hooks(),
            }})
        }
    }
}

pub fn lockfile(req: &Value) -> Value {
    match serde_json::from_str::<lockfile::VersionedLockfile>(req["text"].as_str().unwrap()) {
        Err(e) => json!({"error": e.to_string()}),
        Ok(v) => {
            let lockfile::VersionedLockfile::V1(l) = &v;
            json!({"read": l.extensions.iter().map(|e| json!([e.name, e.version.to_string()])).collect::<Vec<_>>(), "written": serde_json::to_value(&v).unwrap()})
        }
    }
}
