use field_selection_map::{Path, SelectedValue, SelectedValueEntry};
use graphql_wrapping_types::{ListWrapping, Wrapping, WrappingType};
use serde_json::{Value, json};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

// ---------------------------------------------------------------- field selection maps

fn path(p: Option<&Path<'_>>) -> Value {
    match p {
        None => Value::Null,
        Some(p) => json!({"t": p.ty, "s": p.segments.iter().map(|s| json!([s.field, s.ty])).collect::<Vec<_>>()}),
    }
}

fn value(v: &SelectedValue<'_>) -> Value {
    let entry = |e: &SelectedValueEntry<'_>| match e {
        SelectedValueEntry::Identity => json!({"k": "identity"}),
        SelectedValueEntry::Path(p) => json!({"k": "path", "p": path(Some(p))}),
        SelectedValueEntry::Object { path: p, object } => json!({"k": "object", "p": path(p.as_ref()),
            "o": object.fields.iter().map(|f| json!([f.key, f.value.as_ref().map(value)])).collect::<Vec<_>>()}),
        SelectedValueEntry::List { path: p, list } => json!({"k": "list", "p": path(p.as_ref()), "l": value(&list.0)}),
    };
    Value::Array(v.alternatives.iter().map(entry).collect())
}

pub fn selection_map(req: &Value) -> Value {
    match SelectedValue::try_from(req["text"].as_str().unwrap()) {
        Err(e) => json!({"error": e}),
        Ok(v) => {
            let printed = v.to_string();
            let again = match SelectedValue::try_from(printed.as_str()) {
                Ok(a) => json!({"tree": value(&a), "equal": a == v, "printed": a.to_string() == printed}),
                Err(e) => json!({"error": e}),
            };
            json!({"tree": value(&v), "printed": printed, "again": again})
        }
    }
}

// ---------------------------------------------------------------- wrapping types

fn see(w: Wrapping) -> Value {
    let lists: Vec<bool> = w
        .list_wrappings()
        .map(|l| matches!(l, ListWrapping::ListNonNull))
        .collect();
    let mut back: Vec<bool> = w
        .list_wrappings()
        .rev()
        .map(|l| matches!(l, ListWrapping::ListNonNull))
        .collect();
    back.reverse();
    let m = w.to_mutable();
    let iter: Vec<&str> = w
        .iter()
        .map(|x| if matches!(x, WrappingType::NonNull) { "N" } else { "L" })
        .collect();
    // the same wrappers applied to a fresh type give an equal value
    let mut f = Wrapping::new();
    if w.inner_is_required() {
        f = f.non_null();
    }
    for l in w.list_wrappings() {
        f = if matches!(l, ListWrapping::ListNonNull) {
            f.list_non_null()
        } else {
            f.list()
        };
    }
    let h = |x: Wrapping| {
        let mut s = DefaultHasher::new();
        x.hash(&mut s);
        s.finish()
    };
    let stored = serde_json::to_value(w).unwrap();
    let fresh = f == w
        && h(f) == h(w)
        && f.cmp(&w).is_eq()
        && m == f
        && serde_json::from_value::<Wrapping>(stored).unwrap() == w;
    json!({
        "lists": lists, "back": back, "len": w.list_wrappings().len(), "inner": w.inner_is_required(),
        "nonnull": [w.is_non_null(), !w.is_nullable(), m.is_required(), !m.is_nullable()],
        "list": [w.is_list(), m.is_list()], "iter": iter, "text": w.type_display("T").to_string(), "fresh": fresh,
    })
}

pub fn wrapping(req: &Value) -> Value {
    let mut w = [Wrapping::default(), Wrapping::new()];
    let mut out = Vec::new();
    for op in req["ops"].as_array().unwrap() {
        let r = op["r"].as_u64().unwrap() as usize - 1;
        let mut popped = Value::Null;
        match op["op"].as_str().unwrap() {
            "list" => w[r] = w[r].list(),
            "list_non_null" => w[r] = w[r].list_non_null(),
            "non_null" => w[r] = w[r].non_null(),
            "without_non_null" => w[r] = w[r].without_non_null(),
            "without_list" => {
                let x = w[r].without_list();
                popped = json!(x.is_some());
                w[r] = x.unwrap_or(w[r]);
            }
            "pop" => {
                let mut m = w[r].to_mutable();
                popped = json!(match m.pop_outermost_list_wrapping() {
                    None => "none",
                    Some(ListWrapping::List) => "list",
                    Some(ListWrapping::ListNonNull) => "nonnull",
                });
                w[r] = m.into();
            }
            "push_list" | "push_list_non_null" => {
                let mut m = w[r].to_mutable();
                m.push_outermost_list_wrapping(if op["op"] == "push_list" {
                    ListWrapping::List
                } else {
                    ListWrapping::ListNonNull
                });
                w[r] = m.into();
            }
            "copy" => w[r] = w[1 - r],
            "new" => w[r] = Wrapping::new(),
            other => return json!({"harness_error": other}),
        }
        out.push(json!({"see": see(w[r]), "popped": popped, "same": w[0] == w[1],
            "lenient": [w[0].is_equal_or_more_lenient_than(w[1]), w[1].is_equal_or_more_lenient_than(w[0])]}));
    }
    json!({ "out": out })
}

// ---------------------------------------------------------------- identifiers and references

pub fn extension_id(req: &Value) -> Value {
    match extension::Id::from_str(req["text"].as_str().unwrap()) {
        Err(e) => json!({"error": e.to_string()}),
        Ok(id) => json!({"name": id.name, "version": id.version.to_string(), "printed": id.to_string(),
            "again": extension::Id::from_str(&id.to_string()).ok().map(|x| x == id)}),
    }
}

pub fn graph_ref(req: &Value) -> Value {
    match graph_ref::GraphRef::from_str(req["text"].as_str().unwrap()) {
        Err(e) => json!({"error": e.to_string()}),
        Ok(g) => {
            let built = match (g.branch(), g.version()) {
                (Some(b), Some(v)) => graph_ref::GraphRef::new(g.slug().to_owned(), b.to_owned(), v.to_owned()),
                (Some(b), None) => graph_ref::GraphRef::latest_version(g.slug().to_owned(), b.to_owned()),
                _ => graph_ref::GraphRef::latest_production_version(g.slug().to_owned()),
            };
            json!({"slug": g.slug(), "branch": g.branch(), "version": g.version(), "printed": g.to_string(), "built": built == g,
                "again": graph_ref::GraphRef::from_str(&g.to_string()).ok().map(|x| x == g)})
        }
    }
}

pub fn catalog(req: &Value) -> Value {
    let mut c = extension_catalog::ExtensionCatalog::default();
    let mut out = Vec::new();
    let ix = |c: &extension_catalog::ExtensionCatalog, id: Option<extension_catalog::ExtensionId>| match id {
        None => -1,
        Some(id) => {
            let i = usize::from(id);
            // indexing by the identifier gives the extension at its position
            let same = |a: &extension_catalog::Extension, b: &extension_catalog::Extension| {
                a.config_key == b.config_key && a.manifest == b.manifest
            };
            assert!(same(&c[id], c.iter().nth(i).unwrap()) && c.iter_with_id().nth(i).unwrap().0 == id);
            i as i64
        }
    };
    for op in req["ops"].as_array().unwrap() {
        let s = |k: &str| op[k].as_str().unwrap();
        let id = match s("op") {
            "push" => {
                let manifest: extension_catalog::Manifest = serde_json::from_value(json!({
                    "id": {"name": op["name"], "version": op["version"]}, "type": {"Resolver": {}}, "sdk_version": "0.1.0",
                    "minimum_gateway_version": "0.1.0", "description": "", "associated_link_urls": op["urls"],
                })).unwrap();
                let id = c.push(extension_catalog::Extension {
                    config_key: s("key").to_owned(),
                    manifest,
                    wasm_path: Default::default(),
                });
                Some(id)
            }
            "by_name" => c.get_id_by_name(s("name")),
            "by_key" => c.get_id_by_config_key(s("key")),
            _ => {
                let req = op["req"].as_str().map(|r| semver::VersionReq::parse(r).unwrap());
                c.find_compatible_extension(s("url"), op["name"].as_str(), req.as_ref())
            }
        };
        out.push(json!([ix(&c, id), c.len(), c.is_empty()]));
    }
    json!({ "out": out })
}

pub fn lint(req: &Value) -> Value {
    match graphql_lint::lint(req["sdl"].as_str().unwrap()) {
        Err(e) => json!({"error": e.to_string()}),
        Ok(d) => json!({"diagnostics": d.into_iter().map(|(m, _)| m).collect::<Vec<_>>()}),
    }
}
