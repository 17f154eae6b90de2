use graphql_schema_validation::{Options, validate_with_options};
use serde_json::{Value, json};

pub fn run(req: &Value) -> Value {
    let mut options = Options::empty();
    if req["forbid"] == true {
        options |= Options::FORBID_EXTENDING_UNKNOWN_TYPES;
    }
    if req["draft"] == true {
        options |= Options::DRAFT_VALIDATIONS;
    }
    let diagnostics = validate_with_options(req["sdl"].as_str().unwrap(), options);
    let errors: Vec<String> = diagnostics.iter().map(|e| e.to_string()).collect();
    if diagnostics.has_errors() == errors.is_empty() {
        return json!({"panic": "has_errors and iter disagree"});
    }
    json!({ "errors": errors })
}
