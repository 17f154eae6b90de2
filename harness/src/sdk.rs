//! What an extension sees of what the host hands it, and what the host gets back.
use grafbase_sdk::types::*;
use grafbase_sdk::verification::{self, wit};
use serde_json::{Value, json};

fn arr(v: &Value) -> &[Value] {
    v.as_array().map(Vec::as_slice).unwrap_or(&[])
}

fn text(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}

fn num(v: &Value) -> u32 {
    v.as_u64().unwrap() as u32
}

fn cbor(v: &Value) -> Vec<u8> {
    let mut out = Vec::new();
    let mut s = minicbor_serde::Serializer::new(&mut out);
    s.serialize_unit_as_null(true);
    serde::Serialize::serialize(v, &mut s).unwrap();
    out
}

fn res<T: Into<Value>, E: std::fmt::Display>(r: Result<T, E>) -> Value {
    match r {
        Ok(v) => v.into(),
        Err(e) => json!({"error": e.to_string()}),
    }
}

// ---- authorization

fn site_in(v: &Value) -> wit::schema::DirectiveSite {
    use wit::schema as s;
    let name = text(&v["name"]);
    match v["kind"].as_str().unwrap() {
        "object" => s::DirectiveSite::Object(s::ObjectDirectiveSite { object_name: name }),
        "interface" => s::DirectiveSite::Interface(s::InterfaceDirectiveSite { interface_name: name }),
        "union" => s::DirectiveSite::Union(s::UnionDirectiveSite { union_name: name }),
        "enum" => s::DirectiveSite::Enum(s::EnumDirectiveSite { enum_name: name }),
        "scalar" => s::DirectiveSite::Scalar(s::ScalarDirectiveSite { scalar_name: name }),
        _ => s::DirectiveSite::FieldDefinition(s::FieldDefinitionDirectiveSite {
            parent_type_name: text(&v["parent"]),
            field_name: name,
        }),
    }
}

fn site_out(s: DirectiveSite<'_>) -> Value {
    match s {
        DirectiveSite::Object(s) => json!({"kind": "object", "name": s.name(), "parent": ""}),
        DirectiveSite::Interface(s) => json!({"kind": "interface", "name": s.name(), "parent": ""}),
        DirectiveSite::Union(s) => json!({"kind": "union", "name": s.name(), "parent": ""}),
        DirectiveSite::Enum(s) => json!({"kind": "enum", "name": s.name(), "parent": ""}),
        DirectiveSite::Scalar(s) => json!({"kind": "scalar", "name": s.name(), "parent": ""}),
        DirectiveSite::FieldDefinition(s) => json!({"kind": "field", "name": s.name(), "parent": s.parent_type_name()}),
    }
}

fn seen(e: &QueryElement<'_>) -> Value {
    json!({"id": u32::from(e.id()), "site": site_out(e.directive_site()), "subgraph": e.subgraph_name(), "args": res(e.directive_arguments::<Value>())})
}

fn decided(d: AuthorizationDecisions) -> Value {
    use wit::authorization_types::AuthorizationDecisions as W;
    let error = |e: &wit::error::Error| json!({"message": e.message, "extensions": e.extensions.iter().map(|(k, v)| json!([k, res(minicbor_serde::from_slice::<Value>(v))])).collect::<Vec<_>>()});
    match W::from(d) {
        W::GrantAll => json!("grant"),
        W::DenyAll(e) => json!({"all": error(&e)}),
        W::DenySome(s) => {
            json!({"some": s.element_to_error.iter().map(|(ix, e)| json!([ix, s.errors.get(*e as usize).map(error)])).collect::<Vec<_>>()})
        }
    }
}

fn steps<'a, T: 'a>(
    req: &Value,
    at: impl Fn(&Value) -> T,
    deny: impl Fn(&mut DenySomeBuilder, T, Error),
    with: impl Fn(&mut DenySomeBuilder, T, ErrorId),
) -> Value {
    if let Some(d) = req["decision"].as_str() {
        return decided(if d == "grant" {
            AuthorizationDecisions::grant_all()
        } else {
            AuthorizationDecisions::deny_all(Error::new("all").extension("code", json!({"n": 1})).unwrap())
        });
    }
    let mut b = AuthorizationDecisions::deny_some_builder();
    let mut ids = Vec::new();
    for s in arr(&req["steps"]) {
        let error = || {
            Error::new(text(&s["message"]))
                .extension("code", text(&s["error"]))
                .unwrap()
        };
        match s["do"].as_str().unwrap() {
            "push" => ids.push(b.push_error(error())),
            "deny" => deny(&mut b, at(&s["at"]), error()),
            _ => with(&mut b, at(&s["at"]), ids[num(&s["id"]) as usize - 1]),
        }
    }
    decided(b.build())
}

pub fn decisions(req: &Value) -> Value {
    use wit::authorization_types as w;
    let names = arr(&req["groups"])
        .iter()
        .map(|g| (text(&g["name"]), num(&g["from"]), num(&g["to"])))
        .collect::<Vec<_>>();
    if req["phase"] == "query" {
        let elements = w::QueryElements {
            directive_names: names,
            elements: arr(&req["elements"])
                .iter()
                .map(|e| w::QueryElement {
                    id: num(&e["id"]),
                    site: site_in(&e["site"]),
                    arguments: cbor(&e["args"]),
                    subgraph_name: e["subgraph"].as_str().filter(|s| !s.is_empty()).map(str::to_string),
                })
                .collect(),
        };
        let e = QueryElements::from(&elements);
        // an element is reached by its place in the list or by its group and its place in there
        let at = |v: &Value| match v["group"].as_u64() {
            Some(0) | None => e.iter().nth(num(&v["ix"]) as usize).unwrap(),
            Some(g) => e
                .iter_grouped_by_directive_name()
                .nth(g as usize - 1)
                .unwrap()
                .1
                .nth(num(&v["ix"]) as usize)
                .unwrap(),
        };
        json!({
            "len": e.len(),
            "lens": [e.iter().len(), e.iter_grouped_by_directive_name().len()],
            "flat": e.iter().map(|e| seen(&e)).collect::<Vec<_>>(),
            "grouped": e.iter_grouped_by_directive_name().map(|(n, es)| json!([n, es.len(), es.map(|e| seen(&e)).collect::<Vec<_>>()])).collect::<Vec<_>>(),
            "decided": steps(req, at, |b, e, x| b.deny(e, x), |b, e, x| b.deny_with_error_id(e, x)),
        })
    } else {
        let elements = w::ResponseElements {
            directive_names: names,
            elements: arr(&req["elements"])
                .iter()
                .map(|e| w::ResponseElement {
                    query_element_id: num(&e["id"]),
                    items_range: (num(&e["from"]), num(&e["to"])),
                })
                .collect(),
            items: arr(&req["items"]).iter().map(cbor).collect(),
        };
        let e = ResponseElements::from(&elements);
        let at = |v: &Value| {
            let el = match v["group"].as_u64() {
                Some(0) | None => e.iter().nth(num(&v["ix"]) as usize).unwrap(),
                Some(g) => e
                    .iter_grouped_by_directive_name()
                    .nth(g as usize - 1)
                    .unwrap()
                    .1
                    .nth(num(&v["ix"]) as usize)
                    .unwrap(),
            };
            el.items().nth(num(&v["item"]) as usize).unwrap()
        };
        let one = |e: ResponseElement<'_>| json!({"id": u32::from(e.query_element_id()), "n": e.items().len(), "items": e.items().map(|i| res(i.directive_arguments::<Value>())).collect::<Vec<_>>()});
        json!({
            "len": e.len(),
            "lens": [e.iter().len(), e.iter_grouped_by_directive_name().len()],
            "flat": e.iter().map(one).collect::<Vec<_>>(),
            "grouped": e.iter_grouped_by_directive_name().map(|(n, es)| json!([n, es.len(), es.map(one).collect::<Vec<_>>()])).collect::<Vec<_>>(),
            "decided": steps(req, at, |b, e, x| b.deny(e, x), |b, e, x| b.deny_with_error_id(e, x)),
        })
    }
}

// ---- contracts

pub fn contract(req: &Value) -> Value {
    let directives = (0..num(&req["directives"]))
        .map(|i| wit::schema::Directive {
            name: format!("d{i}"),
            arguments: cbor(&json!({"i": i})),
        })
        .collect::<Vec<_>>();
    let ds: Vec<ContractDirective<'_>> = directives.iter().enumerate().map(Into::into).collect();
    let mut c = Contract::new(&ds, req["default"].as_bool().unwrap());
    let mut subgraphs: Vec<GraphqlSubgraph> = arr(&req["subgraphs"])
        .iter()
        .map(|s| {
            wit::contracts_types::GraphqlSubgraph {
                name: text(s),
                url: format!("http://{}", text(s)),
            }
            .into()
        })
        .collect();
    for s in arr(&req["steps"]) {
        let at = || ds[num(&s["at"]) as usize - 1];
        match s["do"].as_str().unwrap() {
            "lowest" => c.accessible(at(), s["yes"].as_bool().unwrap()),
            "override" => c.override_accessible(at(), s["yes"].as_bool().unwrap()),
            "priority" => c.accessible_with_priority(at(), s["value"].as_i64().unwrap() as i8),
            "hide" => c.hide_unreachable_types(s["yes"].as_bool().unwrap()),
            _ => {
                let i = subgraphs.iter().position(|g| g.name() == s["name"]).unwrap();
                let mut g = subgraphs.remove(i);
                g.url_mut().push_str("/moved");
                c.subgraph(g)
            }
        };
    }
    let w: wit::contracts_types::Contract = c.into();
    json!({
        "accessible": w.accessible,
        "default": w.accessible_by_default,
        "hide": w.hide_unreachable_types,
        "subgraphs": w.subgraphs.iter().map(|s| json!([s.name, s.url])).collect::<Vec<_>>(),
        "seen": ds.iter().map(|d| json!([d.name(), res(d.arguments::<Value>())])).collect::<Vec<_>>(),
    })
}

// ---- schemas

fn dirs_in(v: &Value) -> Vec<wit::schema::Directive> {
    arr(v)
        .iter()
        .map(|d| wit::schema::Directive {
            name: text(&d["name"]),
            arguments: cbor(&d["args"]),
        })
        .collect()
}

fn ids_in(v: &Value) -> Vec<u32> {
    arr(v).iter().map(num).collect()
}

fn ty_in(v: &Value) -> wit::schema::Ty {
    use wit::schema::WrappingType as W;
    wit::schema::Ty {
        wrapping: arr(&v["wrap"])
            .iter()
            .map(|w| if w == "nn" { W::NonNull } else { W::List })
            .collect(),
        definition_id: num(&v["id"]),
    }
}

fn inputs_in(v: &Value) -> Vec<wit::schema::InputValueDefinition> {
    arr(v)
        .iter()
        .map(|i| wit::schema::InputValueDefinition {
            id: num(&i["id"]),
            name: text(&i["name"]),
            ty: ty_in(&i["ty"]),
            directives: dirs_in(&i["dirs"]),
        })
        .collect()
}

fn dirs_out<'a>(ds: impl Iterator<Item = Directive<'a>>) -> Value {
    ds.map(|d| json!({"name": d.name(), "args": res(d.arguments::<Value>())}))
        .collect::<Vec<_>>()
        .into()
}

fn ty_out(t: Type<'_>) -> Value {
    json!({"id": u32::from(t.definition().id()), "name": t.definition().name(), "nn": t.is_non_null(), "list": t.is_list(),
        "wrap": t.wrapping().map(|w| if w == WrappingType::NonNull { "nn" } else { "list" }).collect::<Vec<_>>()})
}

fn input_out(i: InputValueDefinition<'_>) -> Value {
    json!({"id": u32::from(i.id()), "name": i.name(), "ty": ty_out(i.ty()), "dirs": dirs_out(i.directives())})
}

fn field_out(f: FieldDefinition<'_>) -> Value {
    json!({"id": u32::from(f.id()), "name": f.name(), "ty": ty_out(f.ty()), "dirs": dirs_out(f.directives()),
        "parent": match f.parent_entity() {
            EntityDefinition::Object(o) => json!(["object", o.name()]),
            EntityDefinition::Interface(i) => json!(["interface", i.name()]),
        },
        "args": f.arguments().map(input_out).collect::<Vec<_>>()})
}

fn type_out(t: TypeDefinition<'_>) -> Value {
    let id = u32::from(t.id());
    match t {
        TypeDefinition::Scalar(s) => {
            json!({"kind": "scalar", "id": id, "name": s.name(), "url": s.specified_by_url().unwrap_or(""), "dirs": dirs_out(s.directives())})
        }
        TypeDefinition::Object(o) => {
            json!({"kind": "object", "id": id, "name": o.name(), "dirs": dirs_out(o.directives()),
            "fields": o.fields().map(field_out).collect::<Vec<_>>(), "ifaces": o.interfaces().map(|i| json!([u32::from(i.id()), i.name()])).collect::<Vec<_>>()})
        }
        TypeDefinition::Interface(o) => {
            json!({"kind": "interface", "id": id, "name": o.name(), "dirs": dirs_out(o.directives()),
            "fields": o.fields().map(field_out).collect::<Vec<_>>(), "ifaces": o.interfaces().map(|i| json!([u32::from(i.id()), i.name()])).collect::<Vec<_>>()})
        }
        TypeDefinition::Union(u) => {
            json!({"kind": "union", "id": id, "name": u.name(), "dirs": dirs_out(u.directives()),
            "members": u.member_types().map(|m| json!([u32::from(m.id()), m.name()])).collect::<Vec<_>>()})
        }
        TypeDefinition::Enum(e) => json!({"kind": "enum", "id": id, "name": e.name(), "dirs": dirs_out(e.directives()),
            "values": e.values().map(|v| json!({"name": v.name(), "dirs": dirs_out(v.directives())})).collect::<Vec<_>>()}),
        TypeDefinition::InputObject(i) => {
            json!({"kind": "input", "id": id, "name": i.name(), "dirs": dirs_out(i.directives()),
            "inputs": i.input_fields().map(input_out).collect::<Vec<_>>()})
        }
    }
}

fn schema_in(v: &Value) -> SubgraphSchema {
    use wit::schema as s;
    let name = |t: &Value| text(&t["name"]);
    let types = arr(&v["types"])
        .iter()
        .map(|t| {
            let (id, directives) = (num(&t["id"]), dirs_in(&t["dirs"]));
            match t["kind"].as_str().unwrap() {
                "scalar" => s::TypeDefinition::Scalar(s::ScalarDefinition {
                    id,
                    name: name(t),
                    specified_by_url: t["url"].as_str().filter(|u| !u.is_empty()).map(str::to_string),
                    directives,
                }),
                "object" => s::TypeDefinition::Object(s::ObjectDefinition {
                    id,
                    name: name(t),
                    interface_ids: ids_in(&t["ifaces"]),
                    field_ids: ids_in(&t["fields"]),
                    directives,
                }),
                "interface" => s::TypeDefinition::Interface(s::InterfaceDefinition {
                    id,
                    name: name(t),
                    interface_ids: ids_in(&t["ifaces"]),
                    field_ids: ids_in(&t["fields"]),
                    directives,
                }),
                "union" => s::TypeDefinition::Union(s::UnionDefinition {
                    id,
                    name: name(t),
                    member_types: ids_in(&t["members"]),
                    directives,
                }),
                "enum" => s::TypeDefinition::Enum(s::EnumDefinition {
                    id,
                    name: name(t),
                    values: arr(&t["values"])
                        .iter()
                        .map(|e| s::EnumValue {
                            name: name(e),
                            directives: dirs_in(&e["dirs"]),
                        })
                        .collect(),
                    directives,
                }),
                _ => s::TypeDefinition::InputObject(s::InputObjectDefinition {
                    id,
                    name: name(t),
                    input_fields: inputs_in(&t["inputs"]),
                    directives,
                }),
            }
        })
        .collect();
    let fields = arr(&v["fields"])
        .iter()
        .map(|f| s::FieldDefinition {
            id: num(&f["id"]),
            name: name(f),
            ty: ty_in(&f["ty"]),
            parent_type_id: num(&f["parent"]),
            arguments: inputs_in(&f["args"]),
            directives: dirs_in(&f["dirs"]),
        })
        .collect();
    let root = |k: &str| v["roots"][k].as_u64().map(|i| i as u32);
    verification::subgraph_schema(
        text(&v["name"]),
        s::Schema {
            type_definitions: types,
            field_definitions: fields,
            directives: dirs_in(&v["dirs"]),
            root_types: s::RootTypes {
                query_id: root("query"),
                mutation_id: root("mutation"),
                subscription_id: root("subscription"),
            },
        },
    )
}

pub fn handed(req: &Value) -> Value {
    let s = schema_in(&req["schema"]);
    let root = |o: Option<ObjectDefinition<'_>>| o.map(|o| o.name().to_string());
    let mut types = s.type_definitions().map(type_out).collect::<Vec<_>>();
    let mut fields = s.iter_fields().map(field_out).collect::<Vec<_>>();
    // every identifier that is handed out finds its definition again
    let found = s
        .type_definitions()
        .all(|t| s.type_definition(t.id()).is_some_and(|x| x.name() == t.name()))
        && s.iter_fields().all(|f| {
            s.field_definition(f.id())
                .is_some_and(|x| x.to_string() == f.to_string())
        })
        && s.type_definitions().all(|t| t.to_string() == t.name())
        && s.iter_fields()
            .all(|f| f.to_string() == format!("{}.{}", f.parent_entity(), f.name()))
        && s.type_definitions().len() == arr(&req["schema"]["types"]).len();
    types.sort_by_key(|t| t["id"].as_u64());
    fields.sort_by_key(|t| t["id"].as_u64());
    json!({"name": s.subgraph_name(), "types": types, "fields": fields, "found": found, "dirs": dirs_out(s.directives()),
        "roots": {"query": root(s.query()), "mutation": root(s.mutation()), "subscription": root(s.subscription())}})
}

fn selected(f: Field<'_>, vars: &Variables) -> Value {
    let set = f.selection_set();
    let seeded = res(f.arguments_seed(vars, std::marker::PhantomData::<Value>));
    assert!(
        seeded == res(f.arguments::<Value>(vars)),
        "arguments differ with a seed"
    );
    assert!(
        set.fields().len() == set.fields_ordered_by_parent_entity().count(),
        "lengths differ"
    );
    json!({"alias": f.alias().unwrap_or(""), "def": u32::from(f.definition_id()), "args": res(f.arguments::<Value>(vars)),
        "typename": set.requires_typename(), "empty": set.is_empty(),
        "fields": set.fields().map(|f| selected(f, vars)).collect::<Vec<_>>()})
}

pub fn field(req: &Value) -> Value {
    let vars: Variables = arr(&req["vars"])
        .iter()
        .map(|v| (num(&v["id"]) as u16, cbor(&v["value"])))
        .collect::<Vec<_>>()
        .into();
    let fields = arr(&req["fields"])
        .iter()
        .map(|f| {
            (
                f["alias"].as_str().filter(|a| !a.is_empty()).map(str::to_string),
                num(&f["def"]),
                f["args"].as_u64().map(|a| a as u16),
                f["set"].as_object().map(|s| {
                    (
                        s["typename"].as_bool().unwrap(),
                        (num(&s["from"]) as u16, num(&s["to"]) as u16),
                    )
                }),
            )
        })
        .collect();
    let args = cbor(&req["dirargs"]);
    let r = verification::resolved_field(
        req["subgraph"].as_str().unwrap(),
        req["directive"].as_str().unwrap(),
        &args,
        fields,
        num(&req["root"]) as usize,
    );
    let show = |r: &ResolvedField<'_>| {
        json!({"subgraph": r.subgraph_name(), "directive": r.directive().name(), "dirargs": res(r.directive().arguments::<Value>()),
            "ids": r.arguments_id() == r.as_ref().arguments_id(), "seeded": res(r.directive().arguments_seed(std::marker::PhantomData::<Value>)),
            "root": selected(r.as_ref(), &vars), "def": u32::from(r.definition_id()), "args": res(r.arguments::<Value>(&vars)), "typename": r.selection_set().requires_typename(),
            "n": r.selection_set().fields().len()})
    };
    let before = show(&r);
    let bytes: Vec<u8> = r.into();
    let after = match ResolvedField::try_from(bytes.as_slice()) {
        Ok(r) => show(&r),
        Err(e) => json!({"error": e.to_string()}),
    };
    json!({"before": before, "after": after})
}

// ---- jq selections

pub fn jq(req: &Value) -> Value {
    let mut jq = grafbase_sdk::jq_selection::JqSelection::new();
    let mut step = |s: &Value| {
        let filter = s["filter"].as_str().unwrap();
        // what a selection with a filter compiled before leaves allocated
        let retained = s["known"].as_bool().unwrap_or(false).then(|| {
            let mut before = 0;
            // the table of filters may grow once before it is looked up
            for _ in 0..2 {
                before = crate::live_bytes();
                if let Ok(it) = jq.select(filter, s["data"].clone()) {
                    let _ = it.take(200).take_while(|r| r.is_ok()).count();
                }
            }
            crate::live_bytes() - before
        });
        match jq.select(filter, s["data"].clone()) {
            Err(e) => json!({"refused": e.to_string()}),
            Ok(it) => {
                let mut out = Vec::new();
                for r in it.take(200) {
                    match r {
                        Ok(v) => out.push(json!({"ok": v})),
                        Err(_) => {
                            out.push(json!("error"));
                            break;
                        }
                    }
                }
                json!({"results": out, "retained": retained})
            }
        }
    };
    arr(&req["steps"]).iter().map(&mut step).collect::<Vec<_>>().into()
}
