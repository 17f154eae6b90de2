use graphql_schema_diff::{Change, diff};
use operation_checks::{
    CheckDiagnostic, CheckParams, FieldUsage, Operation, Schema, Severity, aggregate_field_usage, check,
    check_assuming_all_used,
};
use serde_json::{Value, json};

fn schema(sdl: &str) -> Result<Schema, String> {
    Ok(async_graphql_parser::parse_schema(sdl)
        .map_err(|e| format!("schema: {e}"))?
        .into())
}

fn list(ds: Vec<CheckDiagnostic>) -> Value {
    ds.iter()
        .map(|d| {
            json!([
                d.path,
                d.change_kind.as_str(),
                if matches!(d.severity, Severity::Error) {
                    "Error"
                } else {
                    "Warning"
                }
            ])
        })
        .collect()
}

/// {"op":"opcheck","source","targets":[sdl],"ops":[{"text","count"}],"checks":[[target, threshold | null]]} -> {"results":[[[path, kind, severity]]]}
/// (a null threshold: everything counts as used)
pub fn run(req: &Value) -> Value {
    match inner(req) {
        Ok(v) => v,
        Err(e) => json!({"error": e}),
    }
}

fn inner(req: &Value) -> Result<Value, String> {
    let source_text = req["source"].as_str().unwrap();
    let source = schema(source_text)?;
    let mut targets: Vec<(Schema, Vec<Change>)> = Vec::new();
    for t in req["targets"].as_array().unwrap() {
        let t = t.as_str().unwrap();
        targets.push((schema(t)?, diff(source_text, t).map_err(|e| format!("diff: {e}"))?));
    }
    let mut ops: Vec<(Operation, u64)> = Vec::new();
    for o in req["ops"].as_array().unwrap() {
        let doc =
            async_graphql_parser::parse_query(o["text"].as_str().unwrap()).map_err(|e| format!("operation: {e}"))?;
        ops.push((doc.into(), o["count"].as_u64().unwrap()));
    }
    let mut results = Vec::new();
    for c in req["checks"].as_array().unwrap() {
        let (target, diff) = &targets[c[0].as_u64().unwrap() as usize];
        match c[1].as_u64() {
            None => results.push(list(check_assuming_all_used(&source, target, diff))),
            Some(threshold) => {
                let mut usage = FieldUsage::default();
                for (op, count) in &ops {
                    usage.set_increment(*count);
                    aggregate_field_usage(op, &source, &mut usage);
                }
                usage.apply_request_count_threshold(threshold);
                results.push(list(check(&CheckParams {
                    source: &source,
                    target,
                    diff,
                    field_usage: &usage,
                })));
            }
        }
    }
    Ok(json!({"results": results}))
}
