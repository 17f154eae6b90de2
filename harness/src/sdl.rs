//! Generic projection of a type-system document to JSON.
use cynic_parser::ConstValue;
use cynic_parser::common::{OperationType, WrappingType};
use cynic_parser::type_system::*;
use serde_json::{Map, Value, json};

fn value(v: ConstValue<'_>) -> Value {
    match v {
        ConstValue::Int(i) => json!(i.value()),
        ConstValue::Float(f) => json!({"float": f.value()}),
        ConstValue::String(s) => json!(s.value()),
        ConstValue::Boolean(b) => json!(b.value()),
        ConstValue::Null(_) => Value::Null,
        ConstValue::Enum(e) => json!({"enum": e.name()}),
        ConstValue::List(l) => Value::Array(l.items().map(value).collect()),
        ConstValue::Object(o) => {
            let mut m = Map::new();
            for f in o.fields() {
                m.insert(f.name().to_owned(), value(f.value()));
            }
            json!({"object": m})
        }
    }
}

fn ty(t: Type<'_>) -> String {
    let mut pre = String::new();
    let mut post = String::new();
    for w in t.wrappers() {
        match w {
            WrappingType::NonNull => post.insert(0, '!'),
            WrappingType::List => {
                pre.push('[');
                post.insert(0, ']');
            }
        }
    }
    format!("{pre}{}{post}", t.name())
}

fn directives<'a>(ds: impl Iterator<Item = Directive<'a>>) -> Value {
    Value::Array(
        ds.map(|d| {
            let mut m = Map::new();
            for a in d.arguments() {
                m.insert(a.name().to_owned(), value(a.value()));
            }
            json!([d.name(), m])
        })
        .collect(),
    )
}

fn desc(d: Option<Description<'_>>) -> Value {
    match d {
        Some(d) => json!(d.literal().to_cow()),
        None => Value::Null,
    }
}

fn input(i: InputValueDefinition<'_>) -> Value {
    let mut v = json!({"name": i.name(), "type": ty(i.ty()), "dirs": directives(i.directives())});
    if let Some(d) = i.default_value() {
        v["default"] = json!([value(d)]);
    }
    if i.description().is_some() {
        v["desc"] = desc(i.description());
    }
    v
}

fn field(f: FieldDefinition<'_>) -> Value {
    let mut v = json!({"name": f.name(), "type": ty(f.ty()), "dirs": directives(f.directives())});
    if f.arguments().len() > 0 {
        v["args"] = f.arguments().map(input).collect();
    }
    if f.description().is_some() {
        v["desc"] = desc(f.description());
    }
    v
}

fn type_def(t: TypeDefinition<'_>, ext: bool) -> Value {
    let mut v = match t {
        TypeDefinition::Scalar(_) => json!({"kind": "scalar"}),
        TypeDefinition::Object(o) => json!({"kind": "object",
            "implements": o.implements_interfaces().collect::<Vec<_>>(),
            "fields": o.fields().map(field).collect::<Vec<_>>()}),
        TypeDefinition::Interface(o) => json!({"kind": "interface",
            "implements": o.implements_interfaces().collect::<Vec<_>>(),
            "fields": o.fields().map(field).collect::<Vec<_>>()}),
        TypeDefinition::Union(u) => json!({"kind": "union",
            "members": u.members().map(|m| m.name()).collect::<Vec<_>>()}),
        TypeDefinition::Enum(e) => json!({"kind": "enum", "values": e.values().map(|v| {
            let mut j = json!({"name": v.value(), "dirs": directives(v.directives())});
            if v.description().is_some() { j["desc"] = desc(v.description()); }
            j
        }).collect::<Vec<_>>()}),
        TypeDefinition::InputObject(i) => json!({"kind": "input",
            "fields": i.fields().map(input).collect::<Vec<_>>()}),
    };
    v["name"] = json!(t.name());
    if ext {
        v["ext"] = json!(true);
    }
    v["dirs"] = directives(t.directives());
    if t.description().is_some() {
        v["desc"] = desc(t.description());
    }
    v
}

/// `{"types": [...], "schema": [...], "directives": [...]}` or `{"parse_error": ...}`
pub fn project(sdl: &str, with_directive_definitions: bool) -> Value {
    if sdl.trim().is_empty() {
        return json!({"types": [], "schema": [], "directives": []});
    }
    let doc = match cynic_parser::parse_type_system_document(sdl) {
        Ok(d) => d,
        Err(e) => return json!({"parse_error": e.to_string()}),
    };
    let (mut types, mut schema, mut dirs) = (vec![], vec![], vec![]);
    for d in doc.definitions() {
        match d {
            Definition::Schema(s) | Definition::SchemaExtension(s) => {
                let mut roots = Map::new();
                for r in s.root_operations() {
                    let k = match r.operation_type() {
                        OperationType::Query => "query",
                        OperationType::Mutation => "mutation",
                        OperationType::Subscription => "subscription",
                    };
                    roots.insert(k.to_owned(), json!(r.named_type()));
                }
                let mut v = json!({"ext": d.is_schema_extension(), "roots": roots, "dirs": directives(s.directives())});
                if s.description().is_some() {
                    v["desc"] = desc(s.description());
                }
                schema.push(v);
            }
            Definition::Type(t) => types.push(type_def(t, false)),
            Definition::TypeExtension(t) => types.push(type_def(t, true)),
            Definition::Directive(d) => dirs.push(if with_directive_definitions {
                let mut locs: Vec<_> = d.locations().map(|l| l.as_str()).collect();
                locs.sort();
                let mut v = json!({"name": d.name(), "repeatable": d.is_repeatable(), "locations": locs,
                                   "args": d.arguments().map(input).collect::<Vec<_>>()});
                if d.description().is_some() {
                    v["desc"] = desc(d.description());
                }
                v
            } else {
                json!({"name": d.name()})
            }),
        }
    }
    json!({"types": types, "schema": schema, "directives": dirs})
}
