From 692bca9611c0d45b82a21634221eedd78674a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 01/87] fix: composition must refuse fields whose types differ
 in list depth

---
 crates/graphql-composition/src/subgraphs/field_types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 5e33db1..7fdf20e 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -33,6 +33,11 @@ impl FieldType {
             return None;
         }
 
+        // The types must have the same level of list nesting.
+        if self.wrapping.list_wrappings().len() != other.wrapping.list_wrappings().len() {
+            return None;
+        }
+
         let mut self_wrappers = self.wrapping.list_wrappings();
         let mut other_wrappers = other.wrapping.list_wrappings();
         let mut zipped_wrappers = (&mut self_wrappers).zip(&mut other_wrappers).peekable();
-- 
2.43.0


From 092ae42855992e1a4560c8da60384a48b0426a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 02/87] fix: composition must refuse a name defined with
 different kinds, whichever kind comes first

---
 crates/graphql-composition/src/compose.rs | 27 ++++++++++-------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/crates/graphql-composition/src/compose.rs b/crates/graphql-composition/src/compose.rs
index c725251..77b908d 100644
--- a/crates/graphql-composition/src/compose.rs
+++ b/crates/graphql-composition/src/compose.rs
@@ -39,6 +39,18 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
             return entity_interface::merge_entity_interface_definitions(ctx, *first, definitions);
         }
 
+        if let Some(incompatible) = definitions.iter().find(|definition| definition.kind != first.kind) {
+            let first_kind = first.kind;
+            let second_kind = incompatible.kind;
+            let name = ctx.subgraphs[first.name].as_ref();
+            let first_subgraph = ctx.subgraphs[ctx.subgraphs.at(first.subgraph_id).name].as_ref();
+            let second_subgraph = ctx.subgraphs[ctx.subgraphs.at(incompatible.subgraph_id).name].as_ref();
+            ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
+                "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
+            ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
+            return;
+        }
+
         match first.kind {
             DefinitionKind::Object => merge_object_definitions(ctx, first, definitions),
             DefinitionKind::Union => merge_union_definitions(ctx, first, definitions),
@@ -58,21 +70,6 @@ fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a
         .iter()
         .any(|definition| definition.directives.shareable(ctx.subgraphs));
 
-    if let Some(incompatible) = definitions
-        .iter()
-        .find(|definition| definition.kind != DefinitionKind::Object)
-    {
-        let first_kind = first.kind;
-        let second_kind = incompatible.kind;
-        let name = ctx.subgraphs[first.name].as_ref();
-        let first_subgraph = ctx.subgraphs[ctx.subgraphs.at(first.subgraph_id).name].as_ref();
-        let second_subgraph = ctx.subgraphs[ctx.subgraphs.at(incompatible.subgraph_id).name].as_ref();
-        ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
-            "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
-        ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
-        return;
-    }
-
     let is_entity = validate_consistent_entityness(ctx, definitions);
 
     let description = definitions
-- 
2.43.0


From 23fbffd29d25167b831817a851407af1fe032e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 03/87] fix: compose @cost to the highest declared weight
 instead of the first subgraph's

---
 crates/graphql-composition/src/compose/directives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/compose/directives.rs b/crates/graphql-composition/src/compose/directives.rs
index bc193ad..5bd2a18 100644
--- a/crates/graphql-composition/src/compose/directives.rs
+++ b/crates/graphql-composition/src/compose/directives.rs
@@ -60,7 +60,7 @@ pub(super) fn collect_composed_directives(
         is_inaccessible = is_inaccessible || site.inaccessible(ctx.subgraphs);
         authenticated = authenticated || site.authenticated(ctx.subgraphs);
 
-        cost = cost.or(site.cost(ctx.subgraphs));
+        cost = cost.max(site.cost(ctx.subgraphs));
         list_size = list_size.or(site.list_size(ctx.subgraphs));
 
         for directive in site.iter_ir_directives(ctx.subgraphs) {
-- 
2.43.0


From be517a4f06f05b3caf5c49bec85d4af92ce74150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 04/87] fix: do not list inaccessible union members in the API
 SDL

---
 .../src/federated_graph/render_sdl/render_api_sdl.rs        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index d4d8f65..ced92b7 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -197,7 +197,11 @@ impl fmt::Display for Renderer<'_> {
             write_public_directives(f, &union.directives, graph)?;
             f.write_str(" =")?;
 
-            let mut members = union.members.iter().peekable();
+            let mut members = union
+                .members
+                .iter()
+                .filter(|member| !is_inaccessible(&graph[**member].directives))
+                .peekable();
 
             while let Some(member) = members.next() {
                 f.write_str(" ")?;
-- 
2.43.0


From e5f5f4aeede03af11f0deed3910a3b4cd30e1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 05/87] fix: report an unparseable @key selection instead of
 dropping the key

---
 crates/graphql-composition/src/ingest_subgraph/directives.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives.rs b/crates/graphql-composition/src/ingest_subgraph/directives.rs
index ae660d9..a76f38a 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives.rs
@@ -324,7 +324,9 @@ pub(super) fn ingest_keys(
                     .and_then(|v| v.value().as_bool())
                     .unwrap_or(true); // defaults to true
 
-            ctx.subgraphs.push_key(definition_id, fields_arg, is_resolvable).ok();
+            if let Err(err) = ctx.subgraphs.push_key(definition_id, fields_arg, is_resolvable) {
+                ctx.subgraphs.push_ingestion_diagnostic(ctx.subgraph_id, err);
+            }
         }
     }
 }
-- 
2.43.0


From 6947be5ae2035d11ab47b285965cb0af9e1312d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 06/87] fix: report incompatible input field defaults like
 argument defaults

---
 .../src/compose/input_object.rs               | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-composition/src/compose/input_object.rs b/crates/graphql-composition/src/compose/input_object.rs
index e08f276..63bae75 100644
--- a/crates/graphql-composition/src/compose/input_object.rs
+++ b/crates/graphql-composition/src/compose/input_object.rs
@@ -77,10 +77,25 @@ pub(super) fn merge_input_object_definitions(
             })
         }));
 
-        let default = fields
+        let mut defaults = fields
             .iter()
-            .find_map(|field| field.input_field_default_value.as_ref())
-            .cloned();
+            .filter_map(|field| Some((field.input_field_default_value.as_ref()?, field)));
+        let default = defaults.next();
+
+        if let Some((default, first_field)) = default
+            && let Some((_, second_field)) = defaults.find(|(other, _)| *other != default)
+        {
+            let [first_subgraph, second_subgraph] = [first_field, second_field].map(|field| {
+                let parent_definition = ctx.subgraphs.at(field.parent_definition_id);
+                &ctx.subgraphs[ctx.subgraphs.at(parent_definition.subgraph_id).name]
+            });
+            ctx.diagnostics.push_fatal(format!(
+                r#"The input field {}.{} has incompatible defaults in subgraphs "{first_subgraph}" and "{second_subgraph}""#,
+                ctx.subgraphs[first.name], ctx.subgraphs[field_name],
+            ));
+        }
+
+        let default = default.map(|(value, _)| value).cloned();
 
         let name = ctx.insert_string(field_name);
         let id = ctx.insert_input_value_definition(ir::InputValueDefinitionIr {
-- 
2.43.0


From 3e91634d845a0dff096f44fd963c0a712f29d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 07/87] fix: refuse @override cycles that leave no subgraph to
 resolve a field

---
 .../src/compose/validate.rs                   | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/compose/validate.rs b/crates/graphql-composition/src/compose/validate.rs
index 6ed3225..9c14cab 100644
--- a/crates/graphql-composition/src/compose/validate.rs
+++ b/crates/graphql-composition/src/compose/validate.rs
@@ -1,5 +1,7 @@
 use super::*;
-use crate::{diagnostics::CompositeSchemasPreMergeValidationErrorCode, subgraphs::StringId};
+use crate::{
+    diagnostics::CompositeSchemasPreMergeValidationErrorCode, federated_graph::OverrideLabel, subgraphs::StringId,
+};
 
 pub(super) fn override_source_has_override(fields: &[subgraphs::FieldView<'_>], ctx: &mut Context<'_>) {
     use std::collections::BTreeMap;
@@ -44,6 +46,32 @@ pub(super) fn override_source_has_override(fields: &[subgraphs::FieldView<'_>],
         }
     }
 
+    // Overrides that form a cycle would leave no subgraph to resolve the field from.
+    let is_overridden = |field: &subgraphs::FieldView<'_>| {
+        let subgraph_name = ctx.subgraphs[ctx.subgraphs.at(field.parent_definition_id).subgraph_id].name;
+        fields.iter().any(|other| {
+            other.directives.r#override(ctx.subgraphs).is_some_and(|directive| {
+                directive.from == subgraph_name
+                    && directive
+                        .label
+                        .is_none_or(|label| ctx.subgraphs[label].parse() == Ok(OverrideLabel::Percent(100)))
+            })
+        })
+    };
+
+    if fields.iter().all(is_overridden) {
+        let message = format!(
+            r#"Field "{}.{}" is overridden in every subgraph that defines it: the @override directives on subgraphs {} form a cycle."#,
+            ctx.subgraphs[ctx.subgraphs.at(fields[0].parent_definition_id).name],
+            ctx.subgraphs[fields[0].name],
+            format_subgraph_list(ctx, fields),
+        );
+        ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(
+            message,
+            CompositeSchemasPreMergeValidationErrorCode::OverrideSourceHasOverride,
+        );
+    }
+
     for (source, entry) in overrides_by_source {
         if let OverrideEntry::Multiple(overriding_fields) = entry {
             let field_name = ctx.subgraphs[overriding_fields[0].name].as_ref();
-- 
2.43.0


From e619cf39b8fffb036ca8c50e28812510e6bd8e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 08/87] fix: leave types without any visible member out of the
 API SDL

---
 .../render_sdl/render_api_sdl.rs              | 49 ++++++++++++-------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index ced92b7..d96e79d 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -40,6 +40,13 @@ impl fmt::Display for Renderer<'_> {
                 continue;
             }
 
+            if graph
+                .iter_enum_values(r#enum.id())
+                .all(|variant| is_inaccessible(&variant.directives))
+            {
+                continue;
+            }
+
             write_leading_whitespace(f)?;
 
             write_description(f, r#enum.description, "", graph)?;
@@ -64,14 +71,7 @@ impl fmt::Display for Renderer<'_> {
         }
 
         for object in graph.iter_objects() {
-            if is_inaccessible(&object.directives) {
-                continue;
-            }
-
-            if graph[object.fields.clone()].iter().all(|field| {
-                let field_name = &graph[field.name];
-                field_name.starts_with("__") || is_inaccessible(&field.directives)
-            }) {
+            if !is_visible_object(object.as_ref(), graph) {
                 continue;
             }
 
@@ -108,7 +108,11 @@ impl fmt::Display for Renderer<'_> {
         }
 
         for interface in &graph.interfaces {
-            if is_inaccessible(&interface.directives) {
+            if is_inaccessible(&interface.directives)
+                || graph[interface.fields.clone()]
+                    .iter()
+                    .all(|field| is_inaccessible(&field.directives))
+            {
                 continue;
             }
 
@@ -144,7 +148,11 @@ impl fmt::Display for Renderer<'_> {
         }
 
         for input_object in &graph.input_objects {
-            if is_inaccessible(&input_object.directives) {
+            if is_inaccessible(&input_object.directives)
+                || graph[input_object.fields]
+                    .iter()
+                    .all(|field| is_inaccessible(&field.directives))
+            {
                 continue;
             }
 
@@ -185,7 +193,13 @@ impl fmt::Display for Renderer<'_> {
         }
 
         for union in &graph.unions {
-            if is_inaccessible(&union.directives) {
+            let mut members = union
+                .members
+                .iter()
+                .filter(|member| is_visible_object(&graph[**member], graph))
+                .peekable();
+
+            if is_inaccessible(&union.directives) || members.peek().is_none() {
                 continue;
             }
 
@@ -197,12 +211,6 @@ impl fmt::Display for Renderer<'_> {
             write_public_directives(f, &union.directives, graph)?;
             f.write_str(" =")?;
 
-            let mut members = union
-                .members
-                .iter()
-                .filter(|member| !is_inaccessible(&graph[**member].directives))
-                .peekable();
-
             while let Some(member) = members.next() {
                 f.write_str(" ")?;
                 f.write_str(graph.at(*member).then(|obj| obj.name).as_str())?;
@@ -240,6 +248,13 @@ impl fmt::Display for Renderer<'_> {
     }
 }
 
+fn is_visible_object(object: &Object, graph: &FederatedGraph) -> bool {
+    !is_inaccessible(&object.directives)
+        && graph[object.fields.clone()]
+            .iter()
+            .any(|field| !graph[field.name].starts_with("__") && !is_inaccessible(&field.directives))
+}
+
 fn public_directives_filter(directive: &Directive) -> bool {
     match directive {
         Directive::Inaccessible
-- 
2.43.0


From 23edc0bfbf19fe2c7ba92937d7b15f865532ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 09/87] fix: report subselections on built-in scalars in field
 sets instead of panicking

---
 crates/graphql-composition/src/validate/selection.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 793194f..27591ba 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -225,10 +225,17 @@ fn validate_field_selection(
         return;
     }
 
-    let referenced_type = ctx
+    // Built-in scalars are not defined in the subgraph.
+    let Some(referenced_type) = ctx
         .subgraphs
         .definition_by_name_id(field.r#type.definition_name_id, on_definition.subgraph_id)
-        .expect("type is defined in subgraph");
+    else {
+        return ctx.diagnostics.push_fatal(format!(
+            "[{subgraph_name}] Error in @{directive_name} at {directive_path}: the {field_in_selection} field does not accept subselections",
+            field_in_selection = ctx.subgraphs[field.name],
+            directive_path = directive_path(),
+        ));
+    };
 
     for selection in &selection.subselection {
         validate_selection(
-- 
2.43.0


From cbf5cc2fcc37917e67180aa9f968b2e72692c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 10/87] fix: recognise entity interfaces whichever subgraph
 comes first

---
 .../src/compose/entity_interface.rs           | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/crates/graphql-composition/src/compose/entity_interface.rs b/crates/graphql-composition/src/compose/entity_interface.rs
index 8393118..e4bce11 100644
--- a/crates/graphql-composition/src/compose/entity_interface.rs
+++ b/crates/graphql-composition/src/compose/entity_interface.rs
@@ -4,22 +4,20 @@ pub(super) fn is_entity_interface(
     subgraphs: &subgraphs::Subgraphs,
     mut definitions: impl Iterator<Item = subgraphs::DefinitionId>,
 ) -> bool {
-    // Take the first federation v2 definition.
-    let Some(definition_id) = definitions.find(|def| {
-        let subgraph_id = subgraphs.at(*def).subgraph_id;
-        subgraphs.at(subgraph_id).federation_spec.is_apollo_v2()
-    }) else {
-        return false;
-    };
-
-    // Is it an entity interface object, or an interface with @key?
-    let definition = &subgraphs.at(definition_id);
-
-    match definition.kind {
-        DefinitionKind::Object => definition.directives.interface_object(subgraphs),
-        DefinitionKind::Interface => definition_id.keys(subgraphs).next().is_some(),
-        _ => false,
-    }
+    // Is any of the federation v2 definitions an entity interface object, or an interface with @key?
+    definitions.any(|definition_id| {
+        let definition = subgraphs.at(definition_id);
+
+        subgraphs
+            .at(definition.subgraph_id)
+            .federation_spec
+            .is_apollo_v2()
+            && match definition.kind {
+                DefinitionKind::Object => definition.directives.interface_object(subgraphs),
+                DefinitionKind::Interface => definition_id.keys(subgraphs).next().is_some(),
+                _ => false,
+            }
+    })
 }
 
 pub(crate) fn merge_entity_interface_definitions<'a>(
@@ -41,7 +39,10 @@ pub(crate) fn merge_entity_interface_definitions<'a>(
     };
     let mut interfaces = interface_defs();
 
-    let Some(interface_def) = interfaces.next() else {
+    let Some(interface_def) = interface_defs()
+        .find(|def| def.id.is_entity(ctx.subgraphs))
+        .or_else(|| interface_defs().next())
+    else {
         ctx.diagnostics.push_fatal(format!(
             "The entity interface `{}` is not defined as an interface in any subgraph.",
             ctx.subgraphs[first.name]
@@ -50,7 +51,7 @@ pub(crate) fn merge_entity_interface_definitions<'a>(
     };
 
     // More than one interface in subgraphs.
-    if interfaces.next().is_some() {
+    if interfaces.nth(1).is_some() {
         let all_implementers: BTreeSet<_> = interface_defs()
             .flat_map(|interface| {
                 interface
-- 
2.43.0


From 7c9b3085059e44014aff96f9b18664010e34daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 11/87] fix: keep every key of entity interfaces and interface
 objects

---
 crates/graphql-composition/src/compose/context.rs         | 2 +-
 .../graphql-composition/src/compose/entity_interface.rs   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/compose/context.rs b/crates/graphql-composition/src/compose/context.rs
index 1967a76..d8e590e 100644
--- a/crates/graphql-composition/src/compose/context.rs
+++ b/crates/graphql-composition/src/compose/context.rs
@@ -163,7 +163,7 @@ impl<'a> Context<'a> {
         id
     }
 
-    pub(crate) fn insert_interface_resolvable_key(
+    pub(crate) fn insert_interface_key(
         &mut self,
         id: federated::InterfaceId,
         key: subgraphs::KeyView<'_>,
diff --git a/crates/graphql-composition/src/compose/entity_interface.rs b/crates/graphql-composition/src/compose/entity_interface.rs
index e4bce11..9dca3d5 100644
--- a/crates/graphql-composition/src/compose/entity_interface.rs
+++ b/crates/graphql-composition/src/compose/entity_interface.rs
@@ -106,7 +106,9 @@ pub(crate) fn merge_entity_interface_definitions<'a>(
         return;
     };
 
-    ctx.insert_interface_resolvable_key(interface_id, expected_key, false);
+    for entity_key in interface_def.id.keys(ctx.subgraphs) {
+        ctx.insert_interface_key(interface_id, entity_key, false);
+    }
 
     // Each object in other subgraphs has to have @interfaceObject and the same key as the entity interface.
     for definition in definitions.iter().filter(|def| def.kind == DefinitionKind::Object) {
@@ -137,8 +139,8 @@ pub(crate) fn merge_entity_interface_definitions<'a>(
             }
         }
 
-        for entity_key in definition.id.keys(ctx.subgraphs).filter(|key| key.is_resolvable()) {
-            ctx.insert_interface_resolvable_key(interface_id, entity_key, true);
+        for entity_key in definition.id.keys(ctx.subgraphs) {
+            ctx.insert_interface_key(interface_id, entity_key, true);
         }
     }
 
-- 
2.43.0


From 0b902f52eb26e5436625600d484eb4046fcadf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 12/87] fix: declare each argument of a composed directive
 definition once

---
 .../src/compose/directive_definitions.rs                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directive_definitions.rs b/crates/graphql-composition/src/compose/directive_definitions.rs
index 5c1af1e..1cca589 100644
--- a/crates/graphql-composition/src/compose/directive_definitions.rs
+++ b/crates/graphql-composition/src/compose/directive_definitions.rs
@@ -59,9 +59,9 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
         let mut arguments = Vec::<ir::InputValueDefinitionIr>::with_capacity(first_definition.arguments.len());
         for (ix, definition) in chunk.iter().copied().enumerate() {
             for argument in &definition.arguments {
-                if arguments
-                    .iter()
-                    .find(|arg| ctx[arg.name] == ctx[argument.name])
+                let existing = arguments.iter().find(|arg| ctx[arg.name] == ctx[argument.name]);
+
+                if existing
                     .map(|arg| arg.r#type != argument.r#type || arg.default != argument.default_value)
                     .unwrap_or(argument.r#type.wrapping.is_non_null() && ix != 0)
                 {
@@ -86,7 +86,7 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
 
                     ctx.diagnostics.push_fatal(diagnostic);
                     continue 'directives;
-                } else {
+                } else if existing.is_none() {
                     let input_value_definition = ir::InputValueDefinitionIr {
                         name: ctx.insert_string(argument.name),
                         r#type: argument.r#type,
-- 
2.43.0


From 07525c082829c190936b7b368f3028135f100646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 13/87] fix: refuse directive definitions that disagree on a
 required argument, in either order

---
 .../src/compose/directive_definitions.rs           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directive_definitions.rs b/crates/graphql-composition/src/compose/directive_definitions.rs
index 1cca589..83034dd 100644
--- a/crates/graphql-composition/src/compose/directive_definitions.rs
+++ b/crates/graphql-composition/src/compose/directive_definitions.rs
@@ -61,16 +61,22 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
             for argument in &definition.arguments {
                 let existing = arguments.iter().find(|arg| ctx[arg.name] == ctx[argument.name]);
 
-                if existing
-                    .map(|arg| arg.r#type != argument.r#type || arg.default != argument.default_value)
-                    .unwrap_or(argument.r#type.wrapping.is_non_null() && ix != 0)
+                // A required argument must be defined everywhere.
+                let missing_in = chunk
+                    .iter()
+                    .copied()
+                    .filter(|_| argument.r#type.wrapping.is_non_null())
+                    .find(|definition| definition.arguments.iter().all(|arg| arg.name != argument.name));
+
+                if existing.is_some_and(|arg| arg.r#type != argument.r#type || arg.default != argument.default_value)
+                    || missing_in.is_some()
                 {
                     let mut diagnostic = format!(
                         "Directive `{}` is defined with incompatible arguments:\n",
                         ctx.subgraphs[first_definition.name].as_ref(),
                     );
 
-                    for def in [first_definition, definition] {
+                    for def in [first_definition, missing_in.filter(|_| ix == 0).unwrap_or(definition)] {
                         writeln!(
                             diagnostic,
                             "- ({}) in {}",
-- 
2.43.0


From 597dd2239c7bf40a1591cca6fa2cb3838b0d436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 14/87] fix: escape control characters in rendered strings in
 hexadecimal

---
 .../src/federated_graph/render_sdl/display_utils.rs             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 951a624..d92978b 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -37,7 +37,7 @@ pub(crate) fn display_graphql_string_literal(string: &str, f: &mut fmt::Formatte
             '\t' => f.write_str("\\t"),
             '\\' => f.write_str("\\\\"),
             '"' => f.write_str("\\\""),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?
     }
-- 
2.43.0


From f4da39e6696956d5d470c3a1f48a7c4a8c6506a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 15/87] fix: render descriptions without altering them or
 breaking the schema text

---
 .../render_sdl/display_utils.rs               | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index d92978b..bac989d 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -68,24 +68,40 @@ impl fmt::Display for Description<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let Description(description, indentation) = self;
 
-        writeln!(f, r#"{indentation}""""#)?;
-
-        let mut lines = description.lines().skip_while(|line| line.is_empty()).peekable();
+        if !is_block_string(description) {
+            f.write_str(indentation)?;
+            display_graphql_string_literal(description, f)?;
+            return f.write_char('\n');
+        }
 
-        while let Some(line) = lines.next() {
-            let line = line.trim();
+        writeln!(f, r#"{indentation}""""#)?;
 
-            if line.is_empty() && lines.peek().map(|next| next.is_empty()).unwrap_or(true) {
-                continue;
+        for line in description.lines() {
+            if line.is_empty() {
+                f.write_char('\n')?;
+            } else {
+                let line = line.replace(r#"""""#, r#"\""""#);
+                writeln!(f, r#"{indentation}{line}"#)?;
             }
-
-            writeln!(f, r#"{indentation}{line}"#)?;
         }
 
         writeln!(f, r#"{indentation}""""#)
     }
 }
 
+/// Whether the string can be rendered as an indented block string without loss. Blank lines around it, indentation
+/// common to all its lines and control characters can not.
+fn is_block_string(string: &str) -> bool {
+    let is_blank = |line: &str| line.trim().is_empty();
+
+    string.is_empty()
+        || string.chars().all(|c| c == '\n' || !c.is_control())
+            && !string.starts_with('\n')
+            && !string.ends_with('\n')
+            && string.lines().all(|line| line.is_empty() || !is_blank(line))
+            && string.lines().any(|line| !line.starts_with(char::is_whitespace) && !line.is_empty())
+}
+
 pub(super) struct ValueDisplay<'a>(pub &'a Value, pub &'a FederatedGraph);
 
 impl fmt::Display for ValueDisplay<'_> {
-- 
2.43.0


From d20dc7c6ff010ebbb82b33d61424c48653cfe0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 16/87] fix: keep the descriptions of root types

---
 crates/graphql-composition/src/compose/roots.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/compose/roots.rs b/crates/graphql-composition/src/compose/roots.rs
index d8839a4..e8e55ee 100644
--- a/crates/graphql-composition/src/compose/roots.rs
+++ b/crates/graphql-composition/src/compose/roots.rs
@@ -46,7 +46,12 @@ fn merge_fields<'a>(
     let type_name = ctx.insert_static_str(root);
     let directives = collect_composed_directives(definitions.iter().map(|def| def.directives), ctx);
 
-    let object_id = ctx.insert_object(type_name, None, directives);
+    let description = definitions
+        .iter()
+        .find_map(|def| def.description)
+        .map(|d| ctx.subgraphs[d].as_ref());
+
+    let object_id = ctx.insert_object(type_name, description, directives);
 
     if let "Subscription" = root {
         for definition in definitions {
-- 
2.43.0


From 7f3a20759fe7d49f26f44459603a9dcede46dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 17/87] fix: read the composite schemas directives back from a
 federated schema

---
 .../src/federated_graph/from_sdl/directive.rs | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
index 21f27e7..759c20b 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl/directive.rs
@@ -78,7 +78,39 @@ fn parse_common_directives<'a>(
         EXTENSION_DIRECTIVE_DIRECTIVE if state.extensions_loaded => {
             parse_extension_directive(directive, state).map(Some)
         }
-        _ => Ok(Some(parse_other(directive, state))),
+        _ => {
+            let directive = match parse_composite_directive(directive, state) {
+                Some(directive) => directive,
+                None => parse_other(directive, state),
+            };
+
+            Ok(Some(directive))
+        }
+    }
+}
+
+/// The `@composite__*` directives, as written by `render_federated_sdl()`.
+fn parse_composite_directive(directive: ast::Directive<'_>, state: &mut State<'_>) -> Option<Directive> {
+    let name = directive.name().strip_prefix("composite__")?;
+    let graph = directive
+        .get_argument("graph")
+        .and_then(|arg| arg.as_enum_value())
+        .and_then(|name| state.graph_by_enum_str.get(name).copied())?;
+    let field = directive.get_argument("field").and_then(|arg| arg.as_str());
+
+    match (name, field) {
+        ("lookup", None) => Some(Directive::CompositeLookup { graph }),
+        ("derive", None) => Some(Directive::CompositeDerive { graph }),
+        ("internal", None) => Some(Directive::CompositeInternal { graph }),
+        ("require", Some(field)) => Some(Directive::CompositeRequire {
+            graph,
+            field: state.insert_string(field),
+        }),
+        ("is", Some(field)) => Some(Directive::CompositeIs {
+            graph,
+            field: state.insert_string(field),
+        }),
+        _ => None,
     }
 }
 
-- 
2.43.0


From 3f870251c3687002ad3a633eba9ebd277cb7bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 18/87] fix: define @composite__derive in federated schemas
 that use it

---
 .../src/emit_federated_graph/directive.rs            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/graphql-composition/src/emit_federated_graph/directive.rs b/crates/graphql-composition/src/emit_federated_graph/directive.rs
index feed31c..3078424 100644
--- a/crates/graphql-composition/src/emit_federated_graph/directive.rs
+++ b/crates/graphql-composition/src/emit_federated_graph/directive.rs
@@ -554,6 +554,18 @@ pub(super) fn emit_composite_spec_directive_definitions(ctx: &mut Context<'_>) {
         );
     }
 
+    if ctx.used_directives.contains(UsedDirectives::COMPOSITE_DERIVE) {
+        let derive_str = ctx.insert_str("derive");
+        let directive_definition = federated::DirectiveDefinitionRecord {
+            namespace: composite_namespace,
+            name: derive_str,
+            locations: federated::DirectiveLocations::FIELD_DEFINITION,
+            repeatable: false,
+        };
+
+        ctx.out.push_directive_definition(directive_definition);
+    }
+
     if ctx.used_directives.contains(UsedDirectives::COMPOSITE_INTERNAL) {
         // https://github.com/graphql/composite-schemas-spec/blob/main/spec/Section%202%20--%20Source%20Schema.md#internal
         // directive @internal on OBJECT | FIELD_DEFINITION
-- 
2.43.0


From c9dba4fffec8e077b8c2b44c8a121b259db95522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 19/87] fix: keep directives of type extensions whatever their
 position in the schema

---
 crates/graphql-composition/src/subgraphs.rs            | 4 +++-
 crates/graphql-composition/src/subgraphs/directives.rs | 6 +-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs.rs b/crates/graphql-composition/src/subgraphs.rs
index 4f05e69..fbb28ff 100644
--- a/crates/graphql-composition/src/subgraphs.rs
+++ b/crates/graphql-composition/src/subgraphs.rs
@@ -181,7 +181,9 @@ impl Subgraphs {
 
         self.directives
             .extra_directives
-            .sort_unstable_by_key(|directive| directive.directive_site_id);
+            .sort_by_key(|directive| directive.directive_site_id);
+
+        self.directives.ir_directives.sort_by_key(|(site_id, _)| *site_id);
 
         self.enums
             .values
diff --git a/crates/graphql-composition/src/subgraphs/directives.rs b/crates/graphql-composition/src/subgraphs/directives.rs
index 950e1d9..f7d9664 100644
--- a/crates/graphql-composition/src/subgraphs/directives.rs
+++ b/crates/graphql-composition/src/subgraphs/directives.rs
@@ -58,7 +58,7 @@ pub(super) struct Directives {
     composed_directives: HashSet<(SubgraphId, StringId)>,
 
     /// Directives that can go straight to composition IR.
-    ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
+    pub(super) ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
     pub(super) extra_directives: Vec<ExtraDirectiveRecord>,
     extra_directives_on_schema_definition: Vec<(SubgraphId, ExtraDirectiveRecord)>,
 }
@@ -142,10 +142,6 @@ impl Subgraphs {
     }
 
     pub(crate) fn push_directive(&mut self, directive: ExtraDirectiveRecord) {
-        if let Some(last) = self.directives.extra_directives.last() {
-            assert!(directive.directive_site_id >= last.directive_site_id);
-        }
-
         self.directives.extra_directives.push(directive);
     }
 
-- 
2.43.0


From 76e7389d954fe41181dcb3dabc7797f1488b1e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 20/87] fix: refuse merging entity interfaces with definitions
 of other kinds

---
 crates/graphql-composition/src/compose.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/graphql-composition/src/compose.rs b/crates/graphql-composition/src/compose.rs
index 77b908d..7d98540 100644
--- a/crates/graphql-composition/src/compose.rs
+++ b/crates/graphql-composition/src/compose.rs
@@ -35,11 +35,17 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
             return;
         };
 
-        if entity_interface::is_entity_interface(ctx.subgraphs, definitions.iter().map(|def| def.id)) {
-            return entity_interface::merge_entity_interface_definitions(ctx, *first, definitions);
-        }
-
-        if let Some(incompatible) = definitions.iter().find(|definition| definition.kind != first.kind) {
+        let is_entity_interface =
+            entity_interface::is_entity_interface(ctx.subgraphs, definitions.iter().map(|def| def.id));
+
+        if let Some(incompatible) = definitions.iter().find(|definition| {
+            definition.kind != first.kind
+                // Entity interfaces are interfaces in some subgraphs, and interface objects in others.
+                && !(is_entity_interface
+                    && [first.kind, definition.kind]
+                        .iter()
+                        .all(|kind| matches!(kind, DefinitionKind::Interface | DefinitionKind::Object)))
+        }) {
             let first_kind = first.kind;
             let second_kind = incompatible.kind;
             let name = ctx.subgraphs[first.name].as_ref();
@@ -51,6 +57,10 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
             return;
         }
 
+        if is_entity_interface {
+            return entity_interface::merge_entity_interface_definitions(ctx, *first, definitions);
+        }
+
         match first.kind {
             DefinitionKind::Object => merge_object_definitions(ctx, first, definitions),
             DefinitionKind::Union => merge_union_definitions(ctx, first, definitions),
-- 
2.43.0


From e956a667cb99f48cbb9e2f5f8db10bfb5e7a5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 21/87] fix: do not take a directive with an unknown prefix for
 the one without it

---
 .../src/ingest_subgraph/directives/match_name.rs    | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
index bcf98a1..7594bb8 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
@@ -35,7 +35,18 @@ pub(in crate::ingest_subgraph) fn match_directive_name(
 
     let directive_name_id = ctx.subgraphs.strings.intern(directive_name);
 
-    let matched = match match_directive_name_inner(ctx, directive_name_id, linked_schema_id, directive_name) {
+    // Without an `@link`, federation directives are in scope under the `federation` prefix. Any other prefix that is not
+    // the namespace of a linked schema makes for another directive than the one without the prefix.
+    let is_unknown_namespace = linked_schema_id.is_none()
+        && namespace.is_some_and(|namespace| ctx.subgraphs[namespace].as_ref() != "federation");
+
+    let matched = if is_unknown_namespace {
+        DirectiveNameMatch::NoMatch
+    } else {
+        match_directive_name_inner(ctx, directive_name_id, linked_schema_id, directive_name)
+    };
+
+    let matched = match matched {
         DirectiveNameMatch::NoMatch => {
             if let Some(definition) = ctx
                 .subgraph_id
-- 
2.43.0


From 5a82457bd30348de2fda8b5f5687b876fefab0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 22/87] fix: keep federation directives scoped by their link in
 subgraphs that also link composite schemas

---
 .../src/ingest_subgraph/directives/match_name.rs         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
index 7594bb8..05605e0 100644
--- a/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs
@@ -125,7 +125,14 @@ fn match_directive_name_inner(
         _ => (),
     }
 
-    let federation_schema_has_been_linked = ctx.subgraphs.at(ctx.subgraph_id).federation_spec.is_apollo_v2();
+    // The subgraph may also link the composite schemas spec.
+    let federation_schema_has_been_linked = ctx.subgraphs.iter_linked_schemas().any(|linked_schema| {
+        linked_schema.subgraph_id == ctx.subgraph_id
+            && matches!(
+                linked_schema.linked_schema_type,
+                LinkedSchemaType::FederationSpec(FederationSpec::ApolloV2)
+            )
+    });
     let is_virtual_subgraph = ctx.subgraphs.at(ctx.subgraph_id).is_virtual();
 
     // We auto-import federation directives only in cases where the federation spec hasn't been `@link`ed, to match federation v1 behaviour, or when the subgraph is virtual, because there is no legacy use case there, these are a new Grafbase feature.
-- 
2.43.0


From d5db04948be6aebc5b6c25dc74b6b24b3ebf5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 23/87] fix: diff directive definitions and types of the same
 name separately

---
 crates/graphql-schema-diff/src/state.rs            | 3 +++
 crates/graphql-schema-diff/src/traverse_schemas.rs | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index 3d28a26..aea6ab2 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -10,6 +10,7 @@ pub(crate) struct DiffState<'a> {
     pub(crate) schema_definition_map: [Option<ast::SchemaDefinition<'a>>; 2],
     pub(crate) schema_extensions: Vec<[Option<ast::SchemaDefinition<'a>>; 2]>,
     pub(crate) types_map: DiffMap<&'a str, ast::Definition<'a>>,
+    pub(crate) directives_map: DiffMap<&'a str, ast::Definition<'a>>,
     pub(crate) fields_map: DiffMap<[&'a str; 2], (Option<ast::Type<'a>>, Span)>,
     pub(crate) interface_impls: DiffMap<&'a str, Vec<&'a str>>,
     pub(crate) arguments_map: DiffMap<[&'a str; 3], ast::InputValueDefinition<'a>>,
@@ -50,6 +51,7 @@ impl DiffState<'_> {
             schema_definition_map,
             schema_extensions,
             types_map,
+            directives_map,
             fields_map,
             arguments_map,
             interface_impls,
@@ -69,6 +71,7 @@ impl DiffState<'_> {
         push_interface_implementer_changes(interface_impls, &mut push_change);
 
         push_definition_changes(&types_map, &mut push_change);
+        push_definition_changes(&directives_map, &mut push_change);
         push_field_changes(&fields_map, &types_map, &mut push_change);
         push_argument_changes(&fields_map, &arguments_map, &mut push_change);
 
diff --git a/crates/graphql-schema-diff/src/traverse_schemas.rs b/crates/graphql-schema-diff/src/traverse_schemas.rs
index eebf66b..5226114 100644
--- a/crates/graphql-schema-diff/src/traverse_schemas.rs
+++ b/crates/graphql-schema-diff/src/traverse_schemas.rs
@@ -31,7 +31,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[0] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                insert_source(&mut state.types_map, directive_def.name(), definition);
+                insert_source(&mut state.directives_map, directive_def.name(), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
@@ -138,7 +138,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[1] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                merge_target(state.types_map.entry(directive_def.name()), definition);
+                merge_target(state.directives_map.entry(directive_def.name()), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
-- 
2.43.0


From f8a1b60911d4a04c2481c0435cdc26e85b239cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 24/87] fix: report only the removal and the addition when a
 type changes kind

---
 .../src/patch/type_definitions.rs             |  6 ++--
 crates/graphql-schema-diff/src/state.rs       | 28 +++++++++++++++++--
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 5fc90b3..7cf10ab 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -20,9 +20,9 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
             | ChangeKind::RemoveScalar
             | ChangeKind::RemoveInterface
             | ChangeKind::RemoveInputObject => return,
-            kind => {
-                debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
-            }
+            // The added definitions are already rendered. They can have the same path when the kind of the
+            // type changes, and directive definitions can share the name of a type.
+            _ => (),
         }
     }
 
diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index aea6ab2..0a07a5f 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -68,12 +68,12 @@ impl DiffState<'_> {
 
         push_schema_definition_changes(schema_definition_map, &mut push_change);
         push_schema_extension_changes(schema_extensions, &mut push_change);
-        push_interface_implementer_changes(interface_impls, &mut push_change);
+        push_interface_implementer_changes(interface_impls, &types_map, &mut push_change);
 
         push_definition_changes(&types_map, &mut push_change);
         push_definition_changes(&directives_map, &mut push_change);
         push_field_changes(&fields_map, &types_map, &mut push_change);
-        push_argument_changes(&fields_map, &arguments_map, &mut push_change);
+        push_argument_changes(&fields_map, &arguments_map, &types_map, &mut push_change);
 
         changes.sort();
 
@@ -105,13 +105,30 @@ fn push_schema_extension_changes(
     }
 }
 
-fn push_interface_implementer_changes(interface_impls: DiffMap<&str, Vec<&str>>, push_change: PushChangeFn<'_>) {
+/// True if the type has the same kind in both schemas. Otherwise it is removed, added or both, and
+/// that covers everything inside of the type.
+fn is_same_kind(type_name: &str, types_map: &DiffMap<&str, ast::Definition<'_>>) -> bool {
+    match &types_map[type_name] {
+        (Some(a), Some(b)) => DefinitionKind::new(a) == DefinitionKind::new(b),
+        _ => false,
+    }
+}
+
+fn push_interface_implementer_changes(
+    interface_impls: DiffMap<&str, Vec<&str>>,
+    types_map: &DiffMap<&str, ast::Definition<'_>>,
+    push_change: PushChangeFn<'_>,
+) {
     // O(n²) but n should always be small enough to not matter
     for (implementer, (src, target)) in &interface_impls {
         let Some((src, target)) = src.as_deref().zip(target.as_deref()) else {
             continue;
         };
 
+        if !is_same_kind(implementer, types_map) {
+            continue;
+        }
+
         for src_impl in src {
             if !target.contains(src_impl) {
                 push_change(
@@ -137,9 +154,14 @@ fn push_interface_implementer_changes(interface_impls: DiffMap<&str, Vec<&str>>,
 fn push_argument_changes(
     fields_map: &DiffMap<[&str; 2], (Option<ast::Type<'_>>, Span)>,
     arguments_map: &DiffMap<[&str; 3], ast::InputValueDefinition<'_>>,
+    types_map: &DiffMap<&str, ast::Definition<'_>>,
     push_change: PushChangeFn<'_>,
 ) {
     for ([type_name, field_name, arg_name], (src, target)) in arguments_map {
+        if !is_same_kind(type_name, types_map) {
+            continue;
+        }
+
         let parent_is_gone = match fields_map[&[*type_name, *field_name]] {
             (Some(_), None) => true,
             (None, Some(_)) => continue,
-- 
2.43.0


From ea584b0778c6394abbb5bbf97e3cacc268ba2934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 25/87] fix: find the removed interface implementations when
 patching a schema

---
 crates/graphql-schema-diff/src/patch/paths.rs | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/paths.rs b/crates/graphql-schema-diff/src/patch/paths.rs
index 7b7edd5..dd1477e 100644
--- a/crates/graphql-schema-diff/src/patch/paths.rs
+++ b/crates/graphql-schema-diff/src/patch/paths.rs
@@ -61,24 +61,23 @@ where
     }
 
     pub(crate) fn added_interface_impls<'b>(&'b self, prefix: &'b str) -> impl Iterator<Item = &'a str> + 'b {
+        self.interface_impls(prefix, ChangeKind::AddInterfaceImplementation)
+    }
+
+    pub(crate) fn is_interface_impl_removed(&self, prefix: &str, interface: &str) -> bool {
+        self.interface_impls(prefix, ChangeKind::RemoveInterfaceImplementation)
+            .any(|removed| removed == interface)
+    }
+
+    fn interface_impls<'b>(&'b self, prefix: &'b str, kind: ChangeKind) -> impl Iterator<Item = &'a str> + 'b {
         let start = self.paths.partition_point(|([found, _, _], _)| *found < prefix);
 
         self.paths[start..]
             .iter()
             .take_while(move |([name, _, _], _)| *name == prefix)
-            .filter(|(_, idx)| matches!(self.diff[*idx].kind, ChangeKind::AddInterfaceImplementation))
+            .filter(move |(_, idx)| self.diff[*idx].kind == kind)
             .map(|([_, interface, _], _)| interface.trim_start_matches('&'))
     }
-
-    pub(crate) fn is_interface_impl_removed(&self, prefix: &str, interface: &str) -> bool {
-        self.paths
-            .binary_search_by(|(path, idx)| {
-                [path[0], path[1].trim_start_matches('&')]
-                    .cmp(&[prefix, interface])
-                    .then(self.diff[*idx].kind.cmp(&ChangeKind::RemoveInterfaceImplementation))
-            })
-            .is_ok()
-    }
 }
 
 pub(super) struct ChangeView<'a, T>
-- 
2.43.0


From f7b5af8eedec2260d0d86c39b25d6b78ee0773b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 26/87] fix: keep defaults and descriptions of input fields and
 enum values when patching a schema

---
 .../src/patch/type_definitions.rs             | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 7cf10ab..c1ea33c 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -120,6 +120,13 @@ fn patch_input_object<'a, T: AsRef<str>>(
             continue;
         }
 
+        if let Some(description) = field.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(field.name());
 
@@ -131,6 +138,12 @@ fn patch_input_object<'a, T: AsRef<str>>(
             schema.push_str(&field.ty().to_string());
         }
 
+        if field.default_value().is_some() {
+            schema.push(' ');
+            let span = field.default_value_span();
+            schema.push_str(&paths.source()[span.start..span.end]);
+        }
+
         patch_directives(field.directives(), schema, paths);
 
         schema.push('\n');
@@ -302,6 +315,13 @@ fn patch_enum_values<'a, T>(
             continue;
         }
 
+        if let Some(description) = value.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(value.value());
 
-- 
2.43.0


From 2600ef8e545cf268217750f979a3884130f43628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 27/87] fix: apply argument changes when patching a schema

---
 .../src/patch/type_definitions.rs             | 43 ++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index c1ea33c..1eb76e5 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -166,6 +166,7 @@ fn patch_fields<'a, T>(
     let mut removed_fields = Vec::new();
     let mut removed_arguments = Vec::new();
     let mut added_arguments = Vec::new();
+    let mut changed_arguments = Vec::new();
 
     for change in paths.iter_second_level(parent) {
         match change.kind() {
@@ -192,6 +193,10 @@ fn patch_fields<'a, T>(
             ChangeKind::RemoveFieldArgument => {
                 removed_arguments.push(change.second_and_third_level());
             }
+            ChangeKind::ChangeFieldArgumentType
+            | ChangeKind::AddFieldArgumentDefault
+            | ChangeKind::ChangeFieldArgumentDefault
+            | ChangeKind::RemoveFieldArgumentDefault => changed_arguments.push(change),
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
@@ -232,8 +237,16 @@ fn patch_fields<'a, T>(
         if arguments.peek().is_some() || !added_arguments_for_field.is_empty() {
             schema.push('(');
 
-            for (_, full_argument) in &added_arguments_for_field {
-                schema.push_str(full_argument);
+            for (idx, (_, full_argument)) in added_arguments_for_field.iter().enumerate() {
+                if idx > 0 {
+                    schema.push_str(", ");
+                }
+
+                schema.push_str(full_argument.trim_matches(|c: char| c.is_whitespace() || c == ','));
+            }
+
+            if arguments.peek().is_some() && !added_arguments_for_field.is_empty() {
+                schema.push_str(", ");
             }
 
             while let Some(argument) = arguments.next() {
@@ -243,14 +256,32 @@ fn patch_fields<'a, T>(
                     schema.push(' ');
                 }
 
+                let source_type = argument.ty().to_string();
+                let mut argument_type = source_type.as_str();
+                let mut argument_default = argument.default_value().map(|_| {
+                    let span = argument.default_value_span();
+                    &paths.source()[span.start..span.end]
+                });
+
+                for change in &changed_arguments {
+                    if change.second_and_third_level() != [field.name(), argument.name()] {
+                        continue;
+                    }
+
+                    match change.kind() {
+                        ChangeKind::ChangeFieldArgumentType => argument_type = change.resolved_str(),
+                        ChangeKind::RemoveFieldArgumentDefault => argument_default = None,
+                        _ => argument_default = Some(change.resolved_str()),
+                    }
+                }
+
                 schema.push_str(argument.name());
                 schema.push_str(": ");
-                schema.push_str(&argument.ty().to_string());
+                schema.push_str(argument_type);
 
-                if argument.default_value().is_some() {
+                if let Some(default) = argument_default {
                     schema.push(' ');
-                    let span = argument.default_value_span();
-                    schema.push_str(&paths.source()[span.start..span.end]);
+                    schema.push_str(default);
                 }
 
                 patch_directives(argument.directives(), schema, paths);
-- 
2.43.0


From 161baf661518632203760d0134d4f2ccea514bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 28/87] fix: diff and patch types that have extensions

---
 crates/graphql-schema-diff/src/patch.rs       | 22 +++++-
 .../src/patch/type_definitions.rs             | 60 ++++++++++++----
 .../src/traverse_schemas.rs                   | 68 +++++++++++--------
 3 files changed, 106 insertions(+), 44 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch.rs b/crates/graphql-schema-diff/src/patch.rs
index a81a822..aa222e6 100644
--- a/crates/graphql-schema-diff/src/patch.rs
+++ b/crates/graphql-schema-diff/src/patch.rs
@@ -5,6 +5,7 @@ mod type_definitions;
 
 use self::paths::Paths;
 use crate::{Change, ChangeKind};
+use std::collections::HashSet;
 
 const INDENTATION: &str = "  ";
 
@@ -44,6 +45,9 @@ where
         }
     }
 
+    // What is added to a type is rendered once, with the first definition or extension of the type.
+    let mut rendered_types = HashSet::new();
+
     for definition in parsed.definitions() {
         match definition {
             cynic_parser::type_system::Definition::Schema(def) => {
@@ -58,10 +62,24 @@ where
                 schema_definitions::patch_schema_definition(def, DefinitionOrExtension::Extension, &mut schema, &paths);
             }
             cynic_parser::type_system::Definition::Type(ty) => {
-                type_definitions::patch_type_definition(ty, DefinitionOrExtension::Definition, &mut schema, &paths);
+                let is_first_part = rendered_types.insert(ty.name());
+                type_definitions::patch_type_definition(
+                    ty,
+                    DefinitionOrExtension::Definition,
+                    is_first_part,
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::TypeExtension(ty) => {
-                type_definitions::patch_type_definition(ty, DefinitionOrExtension::Extension, &mut schema, &paths);
+                let is_first_part = rendered_types.insert(ty.name());
+                type_definitions::patch_type_definition(
+                    ty,
+                    DefinitionOrExtension::Extension,
+                    is_first_part,
+                    &mut schema,
+                    &paths,
+                );
             }
             cynic_parser::type_system::Definition::Directive(directive_definition) => {
                 directives::patch_directive_definition(directive_definition, &mut schema, &paths);
diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 1eb76e5..e199125 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -9,6 +9,7 @@ use super::{DefinitionOrExtension, INDENTATION, directives::patch_directives, pa
 pub(super) fn patch_type_definition<T: AsRef<str>>(
     ty: TypeDefinition<'_>,
     definition_or_extension: super::DefinitionOrExtension,
+    is_first_part: bool,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) {
@@ -26,6 +27,8 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
         }
     }
 
+    let start = schema.len();
+
     if let Some(description) = ty.description() {
         let span = description.span();
         schema.push_str(&paths.source()[span.start..span.end]);
@@ -49,13 +52,18 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
     schema.push(' ');
     schema.push_str(ty.name());
 
+    let header_end = schema.len();
+
     let mut implements: Vec<&str> = match ty {
         TypeDefinition::Object(obj) => obj.implements_interfaces().collect(),
         TypeDefinition::Interface(interface) => interface.implements_interfaces().collect(),
         _ => Vec::new(),
     };
 
-    implements.extend(paths.added_interface_impls(ty.name()));
+    if is_first_part {
+        implements.extend(paths.added_interface_impls(ty.name()));
+    }
+
     implements.retain(|interface| !paths.is_interface_impl_removed(ty.name(), interface));
     implements.sort_unstable();
     implements.dedup();
@@ -69,25 +77,44 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
 
     match ty {
         TypeDefinition::Scalar(_) => (),
-        TypeDefinition::Object(object) => patch_fields(object.fields(), ty.name(), schema, paths),
-        TypeDefinition::Interface(interface) => patch_fields(interface.fields(), ty.name(), schema, paths),
-        TypeDefinition::Union(union) => patch_union(union.members(), ty.name(), schema, paths),
-        TypeDefinition::Enum(r#enum) => patch_enum_values(r#enum.values(), ty.name(), schema, paths),
+        TypeDefinition::Object(object) => patch_fields(object.fields(), ty.name(), is_first_part, schema, paths),
+        TypeDefinition::Interface(interface) => patch_fields(interface.fields(), ty.name(), is_first_part, schema, paths),
+        TypeDefinition::Union(union) => patch_union(union.members(), ty.name(), is_first_part, schema, paths),
+        TypeDefinition::Enum(r#enum) => patch_enum_values(r#enum.values(), ty.name(), is_first_part, schema, paths),
         TypeDefinition::InputObject(input_object) => {
-            patch_input_object(input_object.fields(), ty.name(), schema, paths)
+            patch_input_object(input_object.fields(), ty.name(), is_first_part, schema, paths)
         }
     }
 
+    // An extension that has nothing left is not valid.
+    if definition_or_extension.is_extension() && schema.len() == header_end {
+        schema.truncate(start);
+        return;
+    }
+
     schema.push_str("\n\n");
 }
 
+const BLOCK_START: &str = " {\n";
+
+/// Close the block opened at `block_start`, or remove it if it is empty: `{}` is not valid GraphQL.
+fn close_block(block_start: usize, schema: &mut String) {
+    if schema.len() == block_start + BLOCK_START.len() {
+        schema.truncate(block_start);
+    } else {
+        schema.push('}');
+    }
+}
+
 fn patch_input_object<'a, T: AsRef<str>>(
     fields: impl Iterator<Item = InputValueDefinition<'a>>,
     parent: &str,
+    is_first_part: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) {
-    schema.push_str(" {\n");
+    let block_start = schema.len();
+    schema.push_str(BLOCK_START);
 
     let mut removed_fields = Vec::new();
     let mut changed_field_types = Vec::new();
@@ -102,6 +129,7 @@ fn patch_input_object<'a, T: AsRef<str>>(
                 let field_name = change.second_level().expect("RemoveField without field name");
                 removed_fields.push(field_name);
             }
+            ChangeKind::AddField if !is_first_part => (),
             ChangeKind::AddField => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -149,18 +177,20 @@ fn patch_input_object<'a, T: AsRef<str>>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    close_block(block_start, schema);
 }
 
 fn patch_fields<'a, T>(
     fields: impl Iterator<Item = FieldDefinition<'a>>,
     parent: &str,
+    is_first_part: bool,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) where
     T: AsRef<str>,
 {
-    schema.push_str(" {\n");
+    let block_start = schema.len();
+    schema.push_str(BLOCK_START);
 
     let mut changed_field_types = Vec::new();
     let mut removed_fields = Vec::new();
@@ -178,6 +208,7 @@ fn patch_fields<'a, T>(
                 let field_name = change.second_level().expect("RemoveField without field name");
                 removed_fields.push(field_name);
             }
+            ChangeKind::AddField if !is_first_part => (),
             ChangeKind::AddField => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -307,12 +338,13 @@ fn patch_fields<'a, T>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    close_block(block_start, schema);
 }
 
 fn patch_enum_values<'a, T>(
     values: impl Iterator<Item = EnumValueDefinition<'a>>,
     enum_name: &str,
+    is_first_part: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) where
@@ -320,10 +352,12 @@ fn patch_enum_values<'a, T>(
 {
     let mut removed_enum_values = Vec::new();
 
-    schema.push_str(" {\n");
+    let block_start = schema.len();
+    schema.push_str(BLOCK_START);
 
     for change in paths.iter_second_level(enum_name) {
         match change.kind() {
+            ChangeKind::AddEnumValue if !is_first_part => (),
             ChangeKind::AddEnumValue => {
                 schema.push_str(INDENTATION);
                 schema.push_str(change.resolved_str().trim());
@@ -361,12 +395,13 @@ fn patch_enum_values<'a, T>(
         schema.push('\n');
     }
 
-    schema.push('}');
+    close_block(block_start, schema);
 }
 
 fn patch_union<'a, T>(
     members: impl Iterator<Item = UnionMember<'a>>,
     union_name: &str,
+    is_first_part: bool,
     schema: &mut String,
     paths: &Paths<'a, T>,
 ) where
@@ -377,6 +412,7 @@ fn patch_union<'a, T>(
 
     for change in paths.iter_second_level(union_name) {
         match change.kind() {
+            ChangeKind::AddUnionMember if !is_first_part => (),
             ChangeKind::AddUnionMember => {
                 added_members.push(change.second_level().expect("AddUnionMember without member name"))
             }
diff --git a/crates/graphql-schema-diff/src/traverse_schemas.rs b/crates/graphql-schema-diff/src/traverse_schemas.rs
index 5226114..ace8348 100644
--- a/crates/graphql-schema-diff/src/traverse_schemas.rs
+++ b/crates/graphql-schema-diff/src/traverse_schemas.rs
@@ -38,15 +38,12 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
 
                 match &tpe {
                     ast::TypeDefinition::Scalar(_) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
+                        insert_source_type(state, type_name, definition);
                     }
                     ast::TypeDefinition::Object(obj) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
-                        insert_source(
-                            &mut state.interface_impls,
-                            type_name,
-                            obj.implements_interfaces().collect(),
-                        );
+                        insert_source_type(state, type_name, definition);
+                        let (interfaces, _) = state.interface_impls.entry(type_name).or_default();
+                        interfaces.get_or_insert_default().extend(obj.implements_interfaces());
 
                         for field in obj.fields() {
                             let field_name = field.name();
@@ -62,12 +59,9 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Interface(iface) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
-                        insert_source(
-                            &mut state.interface_impls,
-                            type_name,
-                            iface.implements_interfaces().collect(),
-                        );
+                        insert_source_type(state, type_name, definition);
+                        let (interfaces, _) = state.interface_impls.entry(type_name).or_default();
+                        interfaces.get_or_insert_default().extend(iface.implements_interfaces());
 
                         for field in iface.fields() {
                             let field_name = field.name();
@@ -82,7 +76,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Union(union) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
+                        insert_source_type(state, type_name, definition);
 
                         for member in union.members() {
                             insert_source(
@@ -93,7 +87,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Enum(enm) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
+                        insert_source_type(state, type_name, definition);
 
                         for value in enm.values() {
                             insert_source(
@@ -104,7 +98,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::InputObject(input) => {
-                        state.types_map.insert(type_name, (Some(definition), None));
+                        insert_source_type(state, type_name, definition);
 
                         for field in input.fields() {
                             insert_source(
@@ -145,14 +139,12 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
 
                 match tpe {
                     ast::TypeDefinition::Scalar(_) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
+                        merge_target_type(state, type_name, definition);
                     }
                     ast::TypeDefinition::Object(obj) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
-                        merge_target(
-                            state.interface_impls.entry(type_name),
-                            obj.implements_interfaces().collect(),
-                        );
+                        merge_target_type(state, type_name, definition);
+                        let (_, interfaces) = state.interface_impls.entry(type_name).or_default();
+                        interfaces.get_or_insert_default().extend(obj.implements_interfaces());
 
                         for field in obj.fields() {
                             merge_target(
@@ -164,11 +156,9 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Interface(iface) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
-                        merge_target(
-                            state.interface_impls.entry(type_name),
-                            iface.implements_interfaces().collect(),
-                        );
+                        merge_target_type(state, type_name, definition);
+                        let (_, interfaces) = state.interface_impls.entry(type_name).or_default();
+                        interfaces.get_or_insert_default().extend(iface.implements_interfaces());
 
                         for field in iface.fields() {
                             let field_name = field.name();
@@ -181,7 +171,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Union(union) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
+                        merge_target_type(state, type_name, definition);
 
                         for member in union.members() {
                             merge_target(
@@ -191,7 +181,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::Enum(enm) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
+                        merge_target_type(state, type_name, definition);
 
                         for value in enm.values() {
                             merge_target(
@@ -201,7 +191,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                         }
                     }
                     ast::TypeDefinition::InputObject(input) => {
-                        state.types_map.entry(type_name).or_default().1 = Some(definition);
+                        merge_target_type(state, type_name, definition);
 
                         for field in input.fields() {
                             merge_target(
@@ -216,6 +206,24 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
     }
 }
 
+// A type definition takes precedence over the extensions of the type, wherever they are.
+fn insert_source_type<'a>(state: &mut DiffState<'a>, type_name: &'a str, definition: ast::Definition<'a>) {
+    let (source, _) = state.types_map.entry(type_name).or_default();
+
+    if source.is_none() || !matches!(definition, ast::Definition::TypeExtension(_)) {
+        *source = Some(definition);
+    }
+}
+
+// See insert_source_type().
+fn merge_target_type<'a>(state: &mut DiffState<'a>, type_name: &'a str, definition: ast::Definition<'a>) {
+    let (_, target) = state.types_map.entry(type_name).or_default();
+
+    if target.is_none() || !matches!(definition, ast::Definition::TypeExtension(_)) {
+        *target = Some(definition);
+    }
+}
+
 // Insert the arguments of a field into the DiffState.
 fn fill_args_src<'a>(
     arguments_map: &mut DiffMap<[&'a str; 3], ast::InputValueDefinition<'a>>,
-- 
2.43.0


From 618ed69a5ce9ac020992fcd153954ade09c50c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 29/87] fix: do not panic on schema paths that are not ASCII,
 and refuse signs in indexes

---
 crates/graphql-schema-diff/src/path/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-diff/src/path/parse.rs b/crates/graphql-schema-diff/src/path/parse.rs
index 57a65e6..4259d8d 100644
--- a/crates/graphql-schema-diff/src/path/parse.rs
+++ b/crates/graphql-schema-diff/src/path/parse.rs
@@ -121,7 +121,7 @@ impl<'a> Path<'a> {
 }
 
 fn parse_name_and_optional_index(s: &str) -> ParseResult<(&str, Option<usize>)> {
-    let bracket_idx = s.chars().position(|c| c == '[');
+    let bracket_idx = s.find('[');
 
     let name = bracket_idx.map(|idx| &s[..idx]).unwrap_or(s);
 
@@ -145,7 +145,7 @@ fn parse_index(s: &str) -> ParseResult<usize> {
 
     let idx = &s[1..s.len() - 1];
 
-    if !idx.chars().any(|char| char.is_ascii_digit()) {
+    if !idx.chars().all(|char| char.is_ascii_digit()) {
         return Err(ParseError);
     }
 
-- 
2.43.0


From dd2b66ff744a66eae5cc177484e9b67104d7190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 30/87] fix: keep the descriptions of directive and schema
 definitions when patching a schema

---
 crates/graphql-schema-diff/src/patch/directives.rs         | 6 ++++++
 crates/graphql-schema-diff/src/patch/schema_definitions.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/directives.rs b/crates/graphql-schema-diff/src/patch/directives.rs
index 43decff..6ccfb62 100644
--- a/crates/graphql-schema-diff/src/patch/directives.rs
+++ b/crates/graphql-schema-diff/src/patch/directives.rs
@@ -16,6 +16,12 @@ pub(super) fn patch_directive_definition<T: AsRef<str>>(
         return;
     }
 
+    if let Some(description) = directive_definition.description() {
+        let span = description.span();
+        schema.push_str(&paths.source()[span.start..span.end]);
+        schema.push('\n');
+    }
+
     let span = directive_definition.span();
 
     schema.push_str(&paths.source()[span.start..span.end]);
diff --git a/crates/graphql-schema-diff/src/patch/schema_definitions.rs b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
index 711d6c5..9294f07 100644
--- a/crates/graphql-schema-diff/src/patch/schema_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
@@ -36,6 +36,12 @@ pub(super) fn patch_schema_definition<T: AsRef<str>>(
         }
     }
 
+    if let Some(description) = definition.description() {
+        let span = description.span();
+        schema.push_str(&paths.source()[span.start..span.end]);
+        schema.push('\n');
+    }
+
     if let DefinitionOrExtension::Extension = definition_or_extension {
         schema.push_str("extend ");
     }
-- 
2.43.0


From c980ba3f8fbc8288f1bbe19cb88522adf80ae1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 31/87] fix: keep added arguments apart from trailing comments
 when patching a schema

---
 crates/graphql-schema-diff/src/patch/type_definitions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index e199125..d76db44 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -274,6 +274,11 @@ fn patch_fields<'a, T>(
                 }
 
                 schema.push_str(full_argument.trim_matches(|c: char| c.is_whitespace() || c == ','));
+
+                // The span can include a trailing comment.
+                if full_argument.contains('#') {
+                    schema.push('\n');
+                }
             }
 
             if arguments.peek().is_some() && !added_arguments_for_field.is_empty() {
-- 
2.43.0


From 8c10d44dfcee148c01a3e4767cfec1e0c0a3115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 32/87] fix: keep composed directives of schema definitions
 that no link provides

---
 .../src/ingest_subgraph/schema_definitions.rs  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
index b705ee9..3fb3921 100644
--- a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
@@ -125,6 +125,24 @@ pub(super) fn ingest_schema_definitions(ctx: &mut Context<'_>) {
                     );
                 }
 
+                DirectiveNameMatch::NoMatch
+                    if ctx
+                        .subgraphs
+                        .is_composed_directive(ctx.subgraph_id, directive_name_id) =>
+                {
+                    let arguments = ctx.ingest_extra_directive_arguments(directive.arguments());
+
+                    ctx.subgraphs.push_extra_directive_on_schema_definition(
+                        ctx.subgraph_id,
+                        subgraphs::ExtraDirectiveRecord {
+                            directive_site_id: DirectiveSiteId::from(0usize),
+                            name: directive_name_id,
+                            arguments,
+                            provenance: subgraphs::DirectiveProvenance::ComposedDirective,
+                        },
+                    );
+                }
+
                 DirectiveNameMatch::NoMatch => {
                     let directive_name = ctx.subgraphs.at(directive_name_id);
                     ctx.subgraphs.push_ingestion_warning(
-- 
2.43.0


From be486617b263654aee626b16e55fc2950dc304aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 33/87] fix: ignore trailing slashes in the urls of links

---
 crates/graphql-composition/src/subgraphs/directives/link.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/subgraphs/directives/link.rs b/crates/graphql-composition/src/subgraphs/directives/link.rs
index 57dbc7b..efc5e71 100644
--- a/crates/graphql-composition/src/subgraphs/directives/link.rs
+++ b/crates/graphql-composition/src/subgraphs/directives/link.rs
@@ -13,7 +13,8 @@ pub(crate) fn parse_link_url(url: &str) -> Option<LinkUrl> {
 
     let segments = url.path_segments()?;
 
-    let mut reversed_segments = segments.rev();
+    // A trailing slash does not make another segment.
+    let mut reversed_segments = segments.rev().skip_while(|segment| segment.is_empty());
 
     let Some(mut maybe_version_or_name) = reversed_segments.next() else {
         return Some(LinkUrl {
-- 
2.43.0


From 2f76773e79fc86906c4a9081251a363014ce498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 34/87] fix: look changed arguments up in the target schema

---
 crates/operation-checks/src/check/rules.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 783a3a8..023ad5c 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -156,7 +156,7 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
     let (field_name, arg_name) = field_name_and_arg_name.split_once('.').unwrap();
 
     let arg_in_src = check_params.source.find_argument((type_name, field_name, arg_name));
-    let arg_in_target = check_params.source.find_argument((type_name, field_name, arg_name));
+    let arg_in_target = check_params.target.find_argument((type_name, field_name, arg_name));
 
     'refine: {
         if let Some((src_id, target_id)) = arg_in_src.zip(arg_in_target) {
-- 
2.43.0


From a804ed355b95493995a663fe35bb25cf2e77f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 35/87] fix: find the arguments of a field that were left out

---
 crates/operation-checks/src/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 4b48b08..2e89d10 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -73,7 +73,7 @@ impl Schema {
         let start = self.field_arguments.partition_point(
             |FieldArgument {
                  type_name, field_name, ..
-             }| { type_name < &field.type_name && field_name < &field.field_name },
+             }| { (type_name, field_name) < (&field.type_name, &field.field_name) },
         );
 
         self.field_arguments[start..]
-- 
2.43.0


From 8c99792d5b82ef6b54831e0971f1843cc4c80380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 36/87] fix: check the arguments of interface fields

---
 .../operation-checks/src/schema/async_graphql.rs  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index d16cadf..6283174 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -73,13 +73,26 @@ impl From<ServiceDocument> for schema::Schema {
                             }
 
                             for field in &iface.fields {
+                                let field_name = field.node.name.node.as_str();
                                 let (base_type, wrappers) = extract_type(&field.node.ty.node);
                                 fields.push(schema::SchemaField {
                                     type_name: type_name.to_string(),
-                                    field_name: field.node.name.node.to_string(),
+                                    field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
                                 });
+
+                                for argument in &field.node.arguments {
+                                    let (base_type, wrappers) = extract_type(&argument.node.ty.node);
+                                    field_arguments.push(schema::FieldArgument {
+                                        type_name: type_name.to_string(),
+                                        field_name: field_name.to_string(),
+                                        argument_name: argument.node.name.node.to_string(),
+                                        base_type,
+                                        wrappers,
+                                        has_default: argument.node.default_value.is_some(),
+                                    });
+                                }
                             }
                         }
                         async_graphql_parser::types::TypeKind::InputObject(input_obj) => {
-- 
2.43.0


From f02d4f9cf03715f732ca53e82793af388900f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 37/87] fix: count fragment conditions by requests, and those
 of named fragments too

---
 .../operation-checks/src/aggregate_field_usage.rs  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 5d2252b..f35055e 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -159,6 +159,13 @@ impl FieldUsage {
         *self.count_per_enum_value.entry(enum_and_value).or_insert(0) += self.increment;
     }
 
+    fn register_type_condition_usage(&mut self, parent_type_name: &str, on: &str) {
+        *self
+            .type_condition_counts
+            .entry([parent_type_name, on].join("."))
+            .or_insert(0) += self.increment;
+    }
+
     fn register_argument_with_default_left_out(&mut self, argument_id: schema::ArgumentId) {
         *self
             .arguments_with_defaults_left_out_count
@@ -247,14 +254,13 @@ fn aggregate_field_usage_inner(
                     continue;
                 };
 
+                usage.register_type_condition_usage(parent_type_name, type_condition);
+
                 aggregate_field_usage_inner(*selection, type_condition, query, schema, usage);
             }
             Selection::InlineFragment { on, selection } => {
                 let subselection_parent_type = if let Some(on) = on {
-                    *usage
-                        .type_condition_counts
-                        .entry([parent_type_name, on].join("."))
-                        .or_insert(0) += 1;
+                    usage.register_type_condition_usage(parent_type_name, on);
 
                     on
                 } else {
-- 
2.43.0


From eae71cf814169669fb186072113f524fe729dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 38/87] fix: accept new required input fields that have a
 default

---
 crates/operation-checks/src/check/rules.rs          | 2 +-
 crates/operation-checks/src/schema.rs               | 6 ++++++
 crates/operation-checks/src/schema/async_graphql.rs | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 023ad5c..534d490 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -118,7 +118,7 @@ pub(super) fn add_field<T: UsageProvider>(
 
     let field_id = check_params.target.find_field(type_name, field_name)?;
 
-    if !check_params.target[field_id].is_required() {
+    if !check_params.target[field_id].is_required_without_default_value() {
         return None;
     }
 
diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 2e89d10..0c3cfe9 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -109,6 +109,8 @@ pub struct SchemaField {
     /// The type of the field without any wrapping type (! and []).
     pub(crate) base_type: String,
     pub(crate) wrappers: WrappingTypes,
+    /// Only input fields have defaults.
+    pub(crate) has_default: bool,
 }
 
 impl SchemaField {
@@ -119,6 +121,10 @@ impl SchemaField {
     pub(crate) fn is_required(&self) -> bool {
         self.wrappers.is_nonnull()
     }
+
+    pub(crate) fn is_required_without_default_value(&self) -> bool {
+        self.is_required() && !self.has_default
+    }
 }
 
 impl PartialOrd for SchemaField {
diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index 6283174..a38c0cf 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -51,6 +51,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 for argument in &field.node.arguments {
@@ -80,6 +81,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 for argument in &field.node.arguments {
@@ -105,6 +107,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field.node.name.node.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: field.node.default_value.is_some(),
                                 });
                             }
                         }
-- 
2.43.0


From 98765e30dffd541af5f7e2aa1bddb05fde438b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 39/87] fix: count enum values inside lists and input objects

---
 .../src/aggregate_field_usage.rs              | 35 ++++++++----
 crates/operation-checks/src/operation.rs      | 16 +++++-
 .../src/operation/async_graphql.rs            | 55 ++++++++++++-------
 3 files changed, 73 insertions(+), 33 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index f35055e..4c526ad 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -176,8 +176,8 @@ impl FieldUsage {
 
 /// Given a GraphQL query and the corresponding schema, count the number of times each schema field is used.
 pub fn aggregate_field_usage(query: &Operation, schema: &schema::Schema, usage: &mut FieldUsage) {
-    for used_enum_value in &query.enum_values_in_variable_defaults {
-        usage.register_enum_value_usage(used_enum_value.clone());
+    for (type_name, default) in &query.variable_defaults {
+        register_enum_values(default, type_name, schema, usage);
     }
 
     let ty = match query.operation_type {
@@ -189,6 +189,26 @@ pub fn aggregate_field_usage(query: &Operation, schema: &schema::Schema, usage:
     aggregate_field_usage_inner(query.root_selection, ty, query, schema, usage);
 }
 
+/// Count the enum values in a literal of the given type, wherever they are in it.
+fn register_enum_values(value: &Literal, type_name: &str, schema: &schema::Schema, usage: &mut FieldUsage) {
+    match value {
+        Literal::Enum(enum_value) => usage.register_enum_value_usage([type_name, enum_value.as_str()].join(".")),
+        Literal::List(items) => {
+            for item in items {
+                register_enum_values(item, type_name, schema, usage);
+            }
+        }
+        Literal::Object(fields) => {
+            for (field_name, value) in fields {
+                if let Some(field_id) = schema.find_field(type_name, field_name) {
+                    register_enum_values(value, &schema[field_id].base_type, schema, usage);
+                }
+            }
+        }
+        Literal::Other => (),
+    }
+}
+
 fn aggregate_field_usage_inner(
     selection_id: SelectionId,
     parent_type_name: &str,
@@ -214,21 +234,14 @@ fn aggregate_field_usage_inner(
 
                 usage.register_field_usage(field_id);
 
-                for super::operation::Argument {
-                    name,
-                    enum_literal_value,
-                } in arguments
-                {
+                for super::operation::Argument { name, value } in arguments {
                     let Some(argument_id) = schema.find_argument((parent_type_name, field_name, name)) else {
                         continue;
                     };
 
                     usage.register_argument_usage(argument_id);
 
-                    if let Some(enum_value) = enum_literal_value {
-                        let enum_type_name = schema[argument_id].base_type.as_str();
-                        usage.register_enum_value_usage([enum_type_name, enum_value.as_str()].join("."));
-                    }
+                    register_enum_values(value, &schema[argument_id].base_type, schema, usage);
                 }
 
                 if let Some(subselection_id) = subselection {
diff --git a/crates/operation-checks/src/operation.rs b/crates/operation-checks/src/operation.rs
index abc37b1..5ef7f1d 100644
--- a/crates/operation-checks/src/operation.rs
+++ b/crates/operation-checks/src/operation.rs
@@ -17,7 +17,8 @@ pub struct Operation {
     /// (parent selection, selection)
     pub(crate) selections: Vec<(SelectionId, Selection)>,
 
-    pub(crate) enum_values_in_variable_defaults: Vec<String>,
+    /// (type of the variable without wrapping types, default value)
+    pub(crate) variable_defaults: Vec<(String, Literal)>,
 }
 
 #[derive(Debug)]
@@ -36,8 +37,17 @@ pub enum OperationType {
 #[derive(Debug)]
 pub(crate) struct Argument {
     pub(crate) name: String,
-    /// Some(_) if the argument value is an enum literal.
-    pub(crate) enum_literal_value: Option<String>,
+    pub(crate) value: Literal,
+}
+
+/// The parts of a literal value that matter for the checks.
+#[derive(Debug)]
+pub(crate) enum Literal {
+    Enum(String),
+    List(Vec<Literal>),
+    /// (field name, value)
+    Object(Vec<(String, Literal)>),
+    Other,
 }
 
 #[derive(Debug)]
diff --git a/crates/operation-checks/src/operation/async_graphql.rs b/crates/operation-checks/src/operation/async_graphql.rs
index 2ed31b0..85253fc 100644
--- a/crates/operation-checks/src/operation/async_graphql.rs
+++ b/crates/operation-checks/src/operation/async_graphql.rs
@@ -1,13 +1,13 @@
 use super::*;
 use async_graphql_parser::{Positioned, types::ExecutableDocument};
-use async_graphql_value::ConstValue;
+use async_graphql_value::{ConstValue, Value};
 
 impl From<ExecutableDocument> for super::Operation {
     fn from(value: ExecutableDocument) -> Self {
         let mut selection_id_counter = 0usize;
         let mut fragments = HashMap::with_capacity(value.fragments.len());
         let mut selections = Vec::new();
-        let mut enum_values_in_variable_defaults = Vec::new();
+        let mut variable_defaults = Vec::new();
 
         for (name, fragment) in &value.fragments {
             let selection_id = SelectionId(selection_id_counter);
@@ -39,13 +39,9 @@ impl From<ExecutableDocument> for super::Operation {
         selection_id_counter += 1;
 
         for variable in &operation.node.variable_definitions {
-            if let Some(Positioned {
-                node: ConstValue::Enum(enum_value),
-                ..
-            }) = &variable.node.default_value
-            {
+            if let Some(Positioned { node: default, .. }) = &variable.node.default_value {
                 let (base, _) = crate::schema::extract_type(&variable.node.var_type.node);
-                enum_values_in_variable_defaults.push([base.as_str(), enum_value.as_str()].join("."));
+                variable_defaults.push((base, ingest_const_value(default)));
             }
         }
 
@@ -61,11 +57,39 @@ impl From<ExecutableDocument> for super::Operation {
             operation_type,
             root_selection,
             selections,
-            enum_values_in_variable_defaults,
+            variable_defaults,
         }
     }
 }
 
+fn ingest_value(value: &Value) -> Literal {
+    match value {
+        Value::Enum(value) => Literal::Enum(value.to_string()),
+        Value::List(items) => Literal::List(items.iter().map(ingest_value).collect()),
+        Value::Object(fields) => Literal::Object(
+            fields
+                .iter()
+                .map(|(name, value)| (name.to_string(), ingest_value(value)))
+                .collect(),
+        ),
+        _ => Literal::Other,
+    }
+}
+
+fn ingest_const_value(value: &ConstValue) -> Literal {
+    match value {
+        ConstValue::Enum(value) => Literal::Enum(value.to_string()),
+        ConstValue::List(items) => Literal::List(items.iter().map(ingest_const_value).collect()),
+        ConstValue::Object(fields) => Literal::Object(
+            fields
+                .iter()
+                .map(|(name, value)| (name.to_string(), ingest_const_value(value)))
+                .collect(),
+        ),
+        _ => Literal::Other,
+    }
+}
+
 fn ingest_selection(
     counter: &mut usize,
     selection: &async_graphql_parser::types::Selection,
@@ -93,16 +117,9 @@ fn ingest_selection(
                     .node
                     .arguments
                     .iter()
-                    .map(|(name, value)| {
-                        let enum_literal_value = match &value.node {
-                            async_graphql_value::Value::Enum(val) => Some(val.to_string()),
-                            _ => None,
-                        };
-
-                        Argument {
-                            name: name.node.to_string(),
-                            enum_literal_value,
-                        }
+                    .map(|(name, value)| Argument {
+                        name: name.node.to_string(),
+                        value: ingest_value(&value.node),
                     })
                     .collect(),
                 subselection,
-- 
2.43.0


From 46b0087f8d5bbe599f8eaeedc1f4a09404e16117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 40/87] fix: report arguments whose items become required even
 if they have a default

---
 crates/operation-checks/src/check/rules.rs           |  6 +++++-
 crates/operation-checks/src/schema/wrapping_types.rs | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 534d490..5a64273 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -169,7 +169,11 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
 
             match src_arg.wrappers.compare(&target_arg.wrappers) {
                 crate::schema::WrapperTypesComparison::RemovedNonNull => return None,
-                crate::schema::WrapperTypesComparison::AddedNonNull if target_arg.has_default => {
+                // The default only stands in for the argument as a whole.
+                crate::schema::WrapperTypesComparison::AddedNonNull
+                    if target_arg.has_default
+                        && src_arg.wrappers.with_outermost_nonnull() == target_arg.wrappers.with_outermost_nonnull() =>
+                {
                     return None;
                 }
                 crate::schema::WrapperTypesComparison::AddedNonNull => {
diff --git a/crates/operation-checks/src/schema/wrapping_types.rs b/crates/operation-checks/src/schema/wrapping_types.rs
index f939885..2580d50 100644
--- a/crates/operation-checks/src/schema/wrapping_types.rs
+++ b/crates/operation-checks/src/schema/wrapping_types.rs
@@ -91,6 +91,17 @@ impl WrappingTypes {
             .unwrap_or_else(|| self.inner_is_nonnull())
     }
 
+    /// The same wrapping types, except that the outermost type is required.
+    pub(crate) fn with_outermost_nonnull(mut self) -> Self {
+        if self.lists_count() > 0 {
+            self.0 |= 1;
+        } else {
+            self.set_inner_nonnull(true);
+        }
+
+        self
+    }
+
     pub(crate) fn compare(&self, target: &WrappingTypes) -> WrapperTypesComparison {
         use ListType::*;
         use WrapperTypesComparison::*;
-- 
2.43.0


From a0681b6829489e953ca9ce3bbccd70043acc0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 41/87] fix: report arguments that become required while they
 change type

---
 crates/operation-checks/src/check/rules.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 5a64273..ee66db1 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -193,6 +193,22 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
         }
     }
 
+    let became_required = arg_in_src.zip(arg_in_target).is_some_and(|(src_id, target_id)| {
+        !check_params.source[src_id].is_required() && check_params.target[target_id].is_required_without_default_value()
+    });
+
+    if became_required && !check_params.argument_is_used(&change.path) {
+        return Some(CheckDiagnostic {
+            message: format!(
+                "The argument `{}` became required, but clients are not providing it.",
+                change.path
+            ),
+            severity: Severity::Error,
+            path: change.path.clone(),
+            change_kind: change.kind,
+        });
+    }
+
     if !check_params.argument_is_used(&change.path) {
         return None;
     }
-- 
2.43.0


From 3040fb0c579e56e7f60617bf8c5a0465f923d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 42/87] fix: accept removing the default of an argument that
 becomes optional

---
 crates/operation-checks/src/check.rs       | 18 +++++++++++++-----
 crates/operation-checks/src/check/rules.rs |  9 +++++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 5e24295..9f4a402 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -70,12 +70,11 @@ impl<'a, T: UsageProvider> CheckParams<'a, T> {
     }
 
     fn find_argument(&self, path: &str) -> Option<crate::schema::ArgumentId> {
-        let mut path = path.split('.');
-        let type_name = path.next().unwrap();
-        let field_name = path.next().unwrap();
-        let argument_name = path.next().unwrap();
+        self.source.find_argument(split_argument_path(path))
+    }
 
-        self.source.find_argument((type_name, field_name, argument_name))
+    fn find_target_argument(&self, path: &str) -> Option<crate::schema::ArgumentId> {
+        self.target.find_argument(split_argument_path(path))
     }
 }
 
@@ -189,6 +188,15 @@ fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDia
     }
 }
 
+fn split_argument_path(path: &str) -> (&str, &str, &str) {
+    let mut path = path.split('.');
+    let type_name = path.next().unwrap();
+    let field_name = path.next().unwrap();
+    let argument_name = path.next().unwrap();
+
+    (type_name, field_name, argument_name)
+}
+
 fn trim_to_field_path(path: &str) -> &str {
     let mut positions = path.match_indices('.');
 
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index ee66db1..1ddb214 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -444,6 +444,15 @@ pub(crate) fn remove_field_argument_default<T: UsageProvider>(args: CheckArgs<'_
         return None;
     }
 
+    let still_required = args
+        .check_params
+        .find_target_argument(path)
+        .is_some_and(|argument_id| args.check_params.target[argument_id].is_required());
+
+    if !still_required {
+        return None;
+    }
+
     Some(CheckDiagnostic {
         message: format!("The default value for required argument `{path}` was removed but some queries leave it out.",),
         severity: Severity::Error,
-- 
2.43.0


From cc507a9dd5b5d4dc69b15063249939c9cb853f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 43/87] fix: check fragments on an interface or union inside
 selections on its members

---
 crates/operation-checks/src/check.rs       |  6 ++++++
 crates/operation-checks/src/check/rules.rs | 15 +++++----------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 9f4a402..cb641f7 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -69,6 +69,12 @@ impl<'a, T: UsageProvider> CheckParams<'a, T> {
         self.field_usage.argument_is_left_out(argument_id)
     }
 
+    /// Whether there are fragments on one of the types inside selections on the other.
+    fn types_are_used_together(&self, a: &str, b: &str) -> bool {
+        self.field_usage.type_condition_is_used(&format!("{a}.{b}"))
+            || self.field_usage.type_condition_is_used(&format!("{b}.{a}"))
+    }
+
     fn find_argument(&self, path: &str) -> Option<crate::schema::ArgumentId> {
         self.source.find_argument(split_argument_path(path))
     }
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 1ddb214..ea4e037 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -327,10 +327,7 @@ pub(super) fn remove_interface_implementation<T: UsageProvider>(
     let (type_name, interface_name) = change.path.split_once('.')?;
     let interface_name = interface_name.trim_start_matches('&');
 
-    if !check_params
-        .field_usage
-        .type_condition_is_used(&format!("{interface_name}.{type_name}"))
-    {
+    if !check_params.types_are_used_together(interface_name, type_name) {
         return None;
     }
 
@@ -351,7 +348,9 @@ pub(super) fn remove_union_member<T: UsageProvider>(
         change, check_params, ..
     }: CheckArgs<'_, '_, T>,
 ) -> Option<CheckDiagnostic> {
-    if !check_params.field_usage.type_condition_is_used(&change.path) {
+    let (union_name, member_name) = change.path.split_once('.')?;
+
+    if !check_params.types_are_used_together(union_name, member_name) {
         return None;
     }
 
@@ -376,11 +375,7 @@ pub(crate) fn remove_object_type<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -
 
     // FIXME: this shouldn't be an early return, we should be able to return multiple errors.
     for interface_name in src.iter_interface_implementations(type_name) {
-        if args
-            .check_params
-            .field_usage
-            .type_condition_is_used(&format!("{interface_name}.{type_name}"))
-        {
+        if args.check_params.types_are_used_together(interface_name, type_name) {
             return Some(CheckDiagnostic {
                 message: format!(
                     "The interface implementation for `{interface_name}` on `{type_name}` was removed but it is still used by clients."
-- 
2.43.0


From b9a9b8db4f2a8cfe380bb6e4741689ecef102299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 44/87] fix: report removed interfaces and unions that
 fragments depend on

---
 .../src/aggregate_field_usage.rs                | 16 ++++++++++++++++
 crates/operation-checks/src/check.rs            |  8 +++++---
 crates/operation-checks/src/check/rules.rs      | 17 +++++++++++++++++
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 4c526ad..c059638 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -18,6 +18,12 @@ pub trait UsageProvider {
     /// Check if a type condition is used.
     fn type_condition_is_used(&self, type_condition: &str) -> bool;
 
+    /// Check if a type is used as a type condition, whatever the type around it.
+    fn type_is_used_as_condition(&self, type_name: &str) -> bool {
+        let _ = type_name;
+        false
+    }
+
     /// Get all used argument IDs for finding used input types.
     fn used_argument_ids(&self) -> Box<dyn Iterator<Item = schema::ArgumentId> + '_>;
 
@@ -66,6 +72,12 @@ impl UsageProvider for FieldUsage {
         self.type_condition_counts.contains_key(type_condition)
     }
 
+    fn type_is_used_as_condition(&self, type_name: &str) -> bool {
+        self.type_condition_counts
+            .keys()
+            .any(|key| key.rsplit_once('.').is_some_and(|(_, on)| on == type_name))
+    }
+
     fn used_argument_ids(&self) -> Box<dyn Iterator<Item = schema::ArgumentId> + '_> {
         Box::new(self.count_per_field_argument.keys().copied())
     }
@@ -98,6 +110,10 @@ impl UsageProvider for AssumeAllUsed {
         true
     }
 
+    fn type_is_used_as_condition(&self, _type_name: &str) -> bool {
+        true
+    }
+
     fn used_argument_ids(&self) -> Box<dyn Iterator<Item = schema::ArgumentId> + '_> {
         Box::new(std::iter::empty())
     }
diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index cb641f7..f654349 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -166,9 +166,11 @@ fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDia
         // which are the actual breaking changes.
         | ChangeKind::RemoveEnum
         | ChangeKind::RemoveScalar
-        | ChangeKind::RemoveInterface
-        | ChangeKind::RemoveInputObject
-        | ChangeKind::RemoveUnion => None,
+        | ChangeKind::RemoveInputObject => None,
+
+        // Fragments on the type do not show up as field type changes.
+        ChangeKind::RemoveInterface
+        | ChangeKind::RemoveUnion => rules::remove_abstract_type(args),
 
         ChangeKind::RemoveObjectType => rules::remove_object_type(args),
 
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index ea4e037..a7da286 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -365,6 +365,23 @@ pub(super) fn remove_union_member<T: UsageProvider>(
     })
 }
 
+/// Removing an interface or a union is a field type change for the fields that return it, but there
+/// can be fragments on it inside selections on other types.
+pub(crate) fn remove_abstract_type<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDiagnostic> {
+    let type_name = &args.change.path;
+
+    if !args.check_params.field_usage.type_is_used_as_condition(type_name) {
+        return None;
+    }
+
+    Some(CheckDiagnostic {
+        message: format!("The type `{type_name}` was removed but clients have fragments on it."),
+        severity: Severity::Error,
+        path: args.change.path.clone(),
+        change_kind: args.change.kind,
+    })
+}
+
 /// If you remove a regular object type, it registers as a field type change
 /// for the fields that return it. But that isn't the case for the root
 /// query, mutation and subscription types, so we need to check for that
-- 
2.43.0


From 27a7bb7eb0f9776aff6262b3cecf58aa414dbe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 45/87] fix: report used types that become another kind of type

---
 crates/operation-checks/src/check.rs       | 31 +++++++++++++++++
 crates/operation-checks/src/check/rules.rs | 39 ++++++++++++++++++++++
 2 files changed, 70 insertions(+)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index f654349..82932bc 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -125,6 +125,10 @@ struct CheckArgs<'a, 'b, T: UsageProvider> {
 }
 
 fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDiagnostic> {
+    if is_type_removal(args.change.kind) && type_is_added(args.check_params.diff, &args.change.path) {
+        return rules::change_type_kind(args);
+    }
+
     match args.change.kind {
         // Not relevant for federated graphs.
         ChangeKind::ChangeMutationType
@@ -196,6 +200,33 @@ fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDia
     }
 }
 
+fn is_type_removal(kind: ChangeKind) -> bool {
+    matches!(
+        kind,
+        ChangeKind::RemoveEnum
+            | ChangeKind::RemoveInputObject
+            | ChangeKind::RemoveInterface
+            | ChangeKind::RemoveObjectType
+            | ChangeKind::RemoveScalar
+            | ChangeKind::RemoveUnion
+    )
+}
+
+fn type_is_added(diff: &[Change], type_name: &str) -> bool {
+    diff.iter().any(|change| {
+        change.path == type_name
+            && matches!(
+                change.kind,
+                ChangeKind::AddEnum
+                    | ChangeKind::AddInputObject
+                    | ChangeKind::AddInterface
+                    | ChangeKind::AddObjectType
+                    | ChangeKind::AddScalar
+                    | ChangeKind::AddUnion
+            )
+    })
+}
+
 fn split_argument_path(path: &str) -> (&str, &str, &str) {
     let mut path = path.split('.');
     let type_name = path.next().unwrap();
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index a7da286..563c88a 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -365,6 +365,45 @@ pub(super) fn remove_union_member<T: UsageProvider>(
     })
 }
 
+/// A type that is removed and added as another kind of type is still where it was, so there is no
+/// change in the fields and arguments that have that type.
+pub(crate) fn change_type_kind<T: UsageProvider>(
+    CheckArgs {
+        change,
+        check_params,
+        used_input_types,
+    }: CheckArgs<'_, '_, T>,
+) -> Option<CheckDiagnostic> {
+    let type_name = change.path.as_str();
+    let source = check_params.source;
+    let used_input_types = used_input_types.get_or_insert_with(|| find_used_input_types(check_params));
+
+    let type_is_used = check_params.field_usage.type_is_used_as_condition(type_name)
+        || used_input_types.contains(type_name)
+        || source.fields.iter().any(|field| {
+            (field.type_name == type_name || field.base_type == type_name)
+                && (used_input_types.contains(field.type_name.as_str())
+                    || source
+                        .find_field(&field.type_name, &field.field_name)
+                        .is_some_and(|field_id| check_params.field_usage.field_is_used(field_id)))
+        })
+        || check_params
+            .field_usage
+            .used_argument_ids()
+            .any(|argument_id| source[argument_id].base_type == type_name);
+
+    if !type_is_used {
+        return None;
+    }
+
+    Some(CheckDiagnostic {
+        message: format!("The type `{type_name}` became another kind of type but it is used by clients."),
+        severity: Severity::Error,
+        path: change.path.clone(),
+        change_kind: change.kind,
+    })
+}
+
 /// Removing an interface or a union is a field type change for the fields that return it, but there
 /// can be fragments on it inside selections on other types.
 pub(crate) fn remove_abstract_type<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDiagnostic> {
-- 
2.43.0


From 946d0fededf968439800d58a739063445773e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 46/87] fix: additional arguments with a default value are
 compatible with the interface field

---
 .../src/validate/interface_implementers.rs                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 74a0e29..dfcb832 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -141,7 +141,7 @@ fn validate_field_arguments_implement_interface_field(
                     ctx.push_error(miette::miette!("Interface field argument {iface_arg_location} expects type {expected_type} but {candidate_arg_location} is type {found_type}"));
                 }
             }
-            (Some(candidate), None) if candidate.node.ty.node.nullable => (), // ok
+            (Some(candidate), None) if candidate.node.ty.node.nullable || candidate.node.default_value.is_some() => (), // ok
             (Some(candidate), None) => {
                 let arg_name = candidate.node.name.node.as_str();
                 let iface_field = format!("{iface_name}.{field_name}");
-- 
2.43.0


From de464827fde23104ee39c303573db5429670b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 47/87] fix: do not panic on enum values that only extensions
 repeat

---
 crates/graphql-schema-validation/src/validate/enums.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 9810086..52f99e7 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -11,7 +11,7 @@ pub(crate) fn validate_enum_members<'a>(
     ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
         let value_names = values.iter().map(|v| v.node.value.node.as_str());
         ctx.find_duplicates(value_names, |ctx, idx, _| {
-            let value_name = enm.values[idx].node.value.node.as_str();
+            let value_name = values[idx].node.value.node.as_str();
             ctx.push_error(miette::miette!(r#"Duplicate enum value "{type_name}.{value_name}""#));
         });
 
-- 
2.43.0


From 3b615301878e20ab320ee299f143de592a686133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 48/87] fix: root operation types that a schema definition
 leaves out have no default name

---
 .../src/validate/schema_definition.rs                       | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index ef82d0f..c7e8992 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -41,11 +41,9 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
     ];
 
     for idx in 0..(names.len()) {
-        let name = &names[idx];
-        let name = name.0.unwrap_or(name.1);
+        let Some(name) = names[idx].0 else { continue };
         for other_name in names[idx..].iter().skip(1) {
-            let other_name = other_name.0.unwrap_or(other_name.1);
-            if name == other_name {
+            if Some(name) == other_name.0 {
                 ctx.push_error(miette::miette!("Type used twice in schema definition: `{name}`"));
             }
         }
-- 
2.43.0


From a62d517fd7dc5c0b095cb2b25c1477d788c7407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 49/87] fix: validate root operation types across the schema
 definition and its extensions

---
 .../src/validate/schema_definition.rs         | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index c7e8992..dae380d 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -3,11 +3,17 @@ use crate::context::SchemaDefinition;
 
 pub(crate) fn validate_schema_definitions<'a>(schema_definitions: &[SchemaDefinition<'a>], ctx: &mut Context<'a>) {
     let mut first_definition_pos = None;
+    // The root operation types set so far by the schema definition and its extensions.
+    let mut root_types: [Option<&'a str>; 3] = [None; 3];
 
     for schema_definition in schema_definitions {
         validate_directives(schema_definition.directives, ast::DirectiveLocation::Schema, ctx);
         validate_schema_definition_references(schema_definition, ctx);
 
+        if schema_definition.is_extension || first_definition_pos.is_none() {
+            validate_root_types_across_definitions(schema_definition, &mut root_types, ctx);
+        }
+
         if !schema_definition.is_extension {
             match &mut first_definition_pos {
                 Some(pos) => {
@@ -31,6 +37,37 @@ pub(crate) fn validate_schema_definitions<'a>(schema_definitions: &[SchemaDefini
     }
 }
 
+/// Each root operation type can be set only once, and to a type that no other operation uses, by the schema definition
+/// and its extensions together.
+fn validate_root_types_across_definitions<'a>(
+    def: &SchemaDefinition<'a>,
+    root_types: &mut [Option<&'a str>; 3],
+    ctx: &mut Context<'a>,
+) {
+    let previous = *root_types;
+
+    for (idx, (name, operation)) in [
+        (def.query, "query"),
+        (def.mutation, "mutation"),
+        (def.subscription, "subscription"),
+    ]
+    .into_iter()
+    .enumerate()
+    {
+        let Some(name) = name else { continue };
+
+        if previous[idx].is_some() {
+            ctx.push_error(miette::miette!(
+                "There can be only one {operation} root type, it cannot be set again to `{name}`"
+            ));
+        } else if previous.contains(&Some(name)) {
+            ctx.push_error(miette::miette!("Type used twice in schema definition: `{name}`"));
+        }
+
+        root_types[idx] = Some(name);
+    }
+}
+
 pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'a>, ctx: &mut Context<'a>) {
     let pos = def.pos;
 
-- 
2.43.0


From b69620df0f3fe5176599ec4b6d0d7b736a5518d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 50/87] fix: validate the default root types of schemas that
 only have schema extensions

---
 .../graphql-schema-validation/src/validate.rs  |  4 ++--
 .../src/validate/schema_definition.rs          | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate.rs b/crates/graphql-schema-validation/src/validate.rs
index 0fb456c..cff5a36 100644
--- a/crates/graphql-schema-validation/src/validate.rs
+++ b/crates/graphql-schema-validation/src/validate.rs
@@ -43,8 +43,8 @@ pub(crate) fn validate<'a>(parsed_ast: &'a ast::ServiceDocument, ctx: &mut Conte
 
     validate_schema_definitions(&schema_definitions, ctx);
 
-    if schema_definitions.is_empty() {
-        validate_root_types(ctx);
+    if schema_definitions.iter().all(|def| def.is_extension) {
+        validate_root_types(&schema_definitions, ctx);
     }
 
     validate_definitions_second_pass(parsed_ast, ctx);
diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index dae380d..13f829b 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -115,8 +115,22 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
     }
 }
 
-pub(crate) fn validate_root_types(ctx: &mut Context<'_>) {
-    for name in ["Query", "Mutation", "Subscription"] {
+/// The default root types, used by documents without a schema definition. Schema extensions can set some of them.
+pub(crate) fn validate_root_types(schema_extensions: &[SchemaDefinition<'_>], ctx: &mut Context<'_>) {
+    let defaults = [
+        (schema_extensions.iter().any(|ext| ext.query.is_some()), "Query"),
+        (schema_extensions.iter().any(|ext| ext.mutation.is_some()), "Mutation"),
+        (
+            schema_extensions.iter().any(|ext| ext.subscription.is_some()),
+            "Subscription",
+        ),
+    ];
+
+    for (is_set, name) in defaults {
+        if is_set {
+            continue;
+        }
+
         if let Some(def) = ctx.definition_names.get(name)
             && !matches!(def.node.kind, ast::TypeKind::Object(_))
         {
-- 
2.43.0


From a7771ad86e9b83a053cca2cdd59950c92375305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 51/87] fix: types that only have extensions can be arguments,
 union members and root types

---
 .../graphql-schema-validation/src/context.rs  | 15 +++++++++++
 .../src/validate/input_types.rs               |  2 +-
 .../src/validate/interface_implementers.rs    | 25 +++++--------------
 .../src/validate/output_types.rs              | 10 ++------
 .../src/validate/schema_definition.rs         |  4 +--
 .../src/validate/unions.rs                    |  2 +-
 6 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 27e3cd9..d114762 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -144,6 +144,21 @@ impl<'a> Context<'a> {
         handler(self, &implements);
     }
 
+    /// The definition of a type. If extending unknown types is allowed, this can be the first extension of a type that
+    /// is not defined in this document.
+    pub(crate) fn find_type(&self, name: &str) -> Option<&'a Positioned<ast::TypeDefinition>> {
+        self.definition_names.get(name).copied().or_else(|| {
+            if self.options.contains(crate::Options::FORBID_EXTENDING_UNKNOWN_TYPES) {
+                return None;
+            }
+
+            self.extension_names
+                .get(name)
+                .and_then(|extensions| extensions.first())
+                .copied()
+        })
+    }
+
     pub(crate) fn miette_pos(&self, pos: async_graphql_parser::Pos) -> miette::SourceOffset {
         miette::SourceOffset::from_location(self.sdl, pos.line, pos.column)
     }
diff --git a/crates/graphql-schema-validation/src/validate/input_types.rs b/crates/graphql-schema-validation/src/validate/input_types.rs
index 626d474..d155fbe 100644
--- a/crates/graphql-schema-validation/src/validate/input_types.rs
+++ b/crates/graphql-schema-validation/src/validate/input_types.rs
@@ -13,7 +13,7 @@ pub(crate) fn validate_input_type(type_name: &str, _pos: Pos, ctx: &mut Context<
         return ValidateInputTypeResult::Ok;
     }
 
-    let Some(definition) = ctx.definition_names.get(type_name) else {
+    let Some(definition) = ctx.find_type(type_name) else {
         return ValidateInputTypeResult::UnknownType;
     };
 
diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index dfcb832..d0a0309 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::{Options, context::Context};
+use crate::context::Context;
 use async_graphql_parser::{Positioned, types as ast};
 use async_graphql_value::Name;
 
@@ -20,24 +20,11 @@ pub(crate) fn validate_implements_list<'a>(
 
     for iface in parent_implements {
         let iface_name = iface.node.as_str();
-        let ty = match ctx.definition_names.get(iface_name).copied() {
-            Some(ty) => ty,
-            None if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) => {
-                ctx.push_error(miette::miette!(
-                    r#""{parent_name} cannot implement unknown type "{iface_name}"."#
-                ));
-                continue;
-            }
-            None => {
-                if let Some([ty, ..]) = ctx.extension_names.get(iface_name).map(|v| v.as_slice()) {
-                    ty
-                } else {
-                    ctx.push_error(miette::miette!(
-                        r#""{parent_name} cannot implement unknown type "{iface_name}"."#
-                    ));
-                    continue;
-                }
-            }
+        let Some(ty) = ctx.find_type(iface_name) else {
+            ctx.push_error(miette::miette!(
+                r#""{parent_name} cannot implement unknown type "{iface_name}"."#
+            ));
+            continue;
         };
 
         match &ty.node.kind {
diff --git a/crates/graphql-schema-validation/src/validate/output_types.rs b/crates/graphql-schema-validation/src/validate/output_types.rs
index 524013d..54e1daa 100644
--- a/crates/graphql-schema-validation/src/validate/output_types.rs
+++ b/crates/graphql-schema-validation/src/validate/output_types.rs
@@ -1,4 +1,4 @@
-use crate::{Options, context::Context};
+use crate::context::Context;
 use async_graphql_parser::{Pos, types::TypeKind};
 
 #[must_use]
@@ -13,13 +13,7 @@ pub(crate) fn validate_output_type(name: &str, _pos: Pos, ctx: &mut Context<'_>)
         return ValidateOutputTypeResult::Ok;
     }
 
-    let Some(definition) = ctx.definition_names.get(name).or_else(|| {
-        if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES) {
-            return None;
-        }
-
-        ctx.extension_names.get(name).and_then(|extension| extension.first())
-    }) else {
+    let Some(definition) = ctx.find_type(name) else {
         return ValidateOutputTypeResult::UnknownType;
     };
 
diff --git a/crates/graphql-schema-validation/src/validate/schema_definition.rs b/crates/graphql-schema-validation/src/validate/schema_definition.rs
index 13f829b..b7a4a64 100644
--- a/crates/graphql-schema-validation/src/validate/schema_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/schema_definition.rs
@@ -89,7 +89,7 @@ pub(crate) fn validate_schema_definition_references<'a>(def: &SchemaDefinition<'
     for (actual, default) in &names {
         let Some(actual) = actual else { continue };
 
-        match ctx.definition_names.get(actual) {
+        match ctx.find_type(actual) {
             None => {
                 let labels = vec![miette::LabeledSpan::new_with_span(
                     None,
@@ -131,7 +131,7 @@ pub(crate) fn validate_root_types(schema_extensions: &[SchemaDefinition<'_>], ct
             continue;
         }
 
-        if let Some(def) = ctx.definition_names.get(name)
+        if let Some(def) = ctx.find_type(name)
             && !matches!(def.node.kind, ast::TypeKind::Object(_))
         {
             ctx.push_error(miette::miette!("{name} should be an object"));
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 2298843..63c9967 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -28,7 +28,7 @@ pub(crate) fn validate_union_members<'a>(
     ctx.with_union_members(type_name, &union.members, |ctx, members| {
         for member in members {
             let member_name = member.node.as_str();
-            match ctx.definition_names.get(member_name) {
+            match ctx.find_type(member_name) {
                 Some(definition) => match definition.node.kind {
                     ast::TypeKind::Object(_) => (), // ok
                     _ => ctx.push_error(miette::miette!(
-- 
2.43.0


From e62deebaf92621d38055e64a21f1d023a732a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 52/87] fix: validate the fields of interfaces together with
 those of their extensions

---
 .../src/validate/interfaces.rs                | 24 ++++----------
 .../src/validate/object_field.rs              | 33 ++++++++++++++++++-
 .../src/validate/objects.rs                   | 24 +-------------
 3 files changed, 39 insertions(+), 42 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index 494b9d4..befad9d 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -11,25 +11,13 @@ pub(crate) fn validate_interface<'a>(
         interface_implementers::validate_implements_list(parent_type_name, implements, &iface.fields, ctx);
     });
 
-    if iface.fields.is_empty() {
-        diagnostics::empty_interface(parent_type_name, ctx)
-    }
-
-    for field in &iface.fields {
-        object_field::validate_object_field(parent_type_name, field, ctx);
-        let field_name = &field.node.name.node;
-        let type_name = extract_type_name(&field.node.ty.node.base);
-        let location = || format!("{parent_type_name}.{field_name}");
-        match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-            output_types::ValidateOutputTypeResult::Ok => (),
-            output_types::ValidateOutputTypeResult::UnknownType => {
-                diagnostics::unknown_type(type_name, &location(), ctx);
-            }
-            output_types::ValidateOutputTypeResult::InputObject => {
-                diagnostics::input_object_in_output_position(type_name, &location(), ctx);
-            }
+    ctx.with_fields(parent_type_name, &iface.fields, |ctx, fields| {
+        if fields.is_empty() {
+            diagnostics::empty_interface(parent_type_name, ctx)
         }
-    }
+
+        object_field::validate_fields(parent_type_name, fields, ctx);
+    });
 }
 
 pub(crate) fn validate_interface_extension<'a>(
diff --git a/crates/graphql-schema-validation/src/validate/object_field.rs b/crates/graphql-schema-validation/src/validate/object_field.rs
index a816147..f82408d 100644
--- a/crates/graphql-schema-validation/src/validate/object_field.rs
+++ b/crates/graphql-schema-validation/src/validate/object_field.rs
@@ -1,6 +1,37 @@
 use super::*;
 
-pub(crate) fn validate_object_field<'a>(
+/// Validate all the fields of an object or interface together.
+pub(crate) fn validate_fields<'a>(
+    parent_type_name: &'a str,
+    fields: &[&'a Positioned<ast::FieldDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    for field in fields {
+        validate_object_field(parent_type_name, field, ctx);
+        let type_name = extract_type_name(&field.node.ty.node.base);
+        let field_name = &field.node.name.node;
+        let location = || format!("{parent_type_name}.{field_name}");
+        match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
+            output_types::ValidateOutputTypeResult::Ok => (),
+            output_types::ValidateOutputTypeResult::UnknownType => {
+                diagnostics::unknown_type(type_name, &location(), ctx);
+            }
+            output_types::ValidateOutputTypeResult::InputObject => {
+                diagnostics::input_object_in_output_position(type_name, &location(), ctx);
+            }
+        }
+    }
+
+    let field_names = fields.iter().map(|f| f.node.name.node.as_str());
+    ctx.find_duplicates(field_names, |ctx, _, idx| {
+        let field_name = fields[idx].node.name.node.as_str();
+        ctx.push_error(miette::miette!(
+            "Duplicate field {field_name} already exists on {parent_type_name}"
+        ));
+    });
+}
+
+fn validate_object_field<'a>(
     parent_type_name: &str,
     field: &'a Positioned<ast::FieldDefinition>,
     ctx: &mut Context<'a>,
diff --git a/crates/graphql-schema-validation/src/validate/objects.rs b/crates/graphql-schema-validation/src/validate/objects.rs
index 60f13ec..bf4c71a 100644
--- a/crates/graphql-schema-validation/src/validate/objects.rs
+++ b/crates/graphql-schema-validation/src/validate/objects.rs
@@ -17,29 +17,7 @@ pub(crate) fn validate_object<'a>(
             diagnostics::empty_object(parent_type_name, ctx)
         }
 
-        for field in fields {
-            object_field::validate_object_field(parent_type_name, field, ctx);
-            let type_name = extract_type_name(&field.node.ty.node.base);
-            let field_name = &field.node.name.node;
-            let location = || format!("{parent_type_name}.{field_name}");
-            match output_types::validate_output_type(type_name, field.node.ty.pos, ctx) {
-                output_types::ValidateOutputTypeResult::Ok => (),
-                output_types::ValidateOutputTypeResult::UnknownType => {
-                    diagnostics::unknown_type(type_name, &location(), ctx);
-                }
-                output_types::ValidateOutputTypeResult::InputObject => {
-                    diagnostics::input_object_in_output_position(type_name, &location(), ctx);
-                }
-            }
-        }
-
-        let field_names = fields.iter().map(|f| f.node.name.node.as_str());
-        ctx.find_duplicates(field_names, |ctx, _, idx| {
-            let field_name = fields[idx].node.name.node.as_str();
-            ctx.push_error(miette::miette!(
-                "Duplicate field {field_name} already exists on {parent_type_name}"
-            ));
-        });
+        object_field::validate_fields(parent_type_name, fields, ctx);
     });
 }
 
-- 
2.43.0


From 17e7f23e9d2dce14dc7473ce99ed1cdea95a222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 53/87] fix: consider extensions when checking interface
 implementations

---
 .../graphql-schema-validation/src/context.rs  | 32 +++++++++
 .../src/validate/interface_implementers.rs    | 66 +++++--------------
 2 files changed, 48 insertions(+), 50 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index d114762..948d9d3 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -159,6 +159,38 @@ impl<'a> Context<'a> {
         })
     }
 
+    /// All the fields of an object or interface, including those defined in extensions.
+    pub(crate) fn fields_of(&self, name: &str) -> Vec<&'a AstField> {
+        let base: &'a [AstField] = match self.definition_names.get(name).map(|ty| &ty.node.kind) {
+            Some(ast::TypeKind::Object(obj)) => &obj.fields,
+            Some(ast::TypeKind::Interface(iface)) => &iface.fields,
+            _ => &[],
+        };
+        let extended = self.extended_fields.get(name).into_iter().flatten();
+        base.iter().chain(extended.flat_map(|fields| fields.iter())).collect()
+    }
+
+    /// All the interfaces an object or interface implements, including those implemented in extensions.
+    pub(crate) fn implements_of(&self, name: &str) -> Vec<&'a Positioned<Name>> {
+        let base: &'a [Positioned<Name>] = match self.definition_names.get(name).map(|ty| &ty.node.kind) {
+            Some(ast::TypeKind::Object(obj)) => &obj.implements,
+            Some(ast::TypeKind::Interface(iface)) => &iface.implements,
+            _ => &[],
+        };
+        let extended = self.extended_interface_implementations.get(name).into_iter().flatten();
+        base.iter().chain(extended.copied()).collect()
+    }
+
+    /// All the members of a union, including those defined in extensions.
+    pub(crate) fn union_members_of(&self, name: &str) -> Vec<&'a Positioned<Name>> {
+        let base: &'a [Positioned<Name>] = match self.definition_names.get(name).map(|ty| &ty.node.kind) {
+            Some(ast::TypeKind::Union(union)) => &union.members,
+            _ => &[],
+        };
+        let extended = self.extended_unions.get(name).into_iter().flatten();
+        base.iter().chain(extended.flat_map(|members| members.iter())).collect()
+    }
+
     pub(crate) fn miette_pos(&self, pos: async_graphql_parser::Pos) -> miette::SourceOffset {
         miette::SourceOffset::from_location(self.sdl, pos.line, pos.column)
     }
diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index d0a0309..5ea01f3 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -28,16 +28,10 @@ pub(crate) fn validate_implements_list<'a>(
         };
 
         match &ty.node.kind {
-            ast::TypeKind::Interface(iface) => {
-                validate_implements_interface_transitively(
-                    parent_name,
-                    parent_implements,
-                    &ty.node.name.node,
-                    iface,
-                    ctx,
-                );
-
-                validate_fields_implement_interface(parent_name, parent_fields, &ty.node.name.node, iface, ctx);
+            ast::TypeKind::Interface(_) => {
+                validate_implements_interface_transitively(parent_name, parent_implements, iface_name, ctx);
+
+                validate_fields_implement_interface(parent_name, parent_fields, iface_name, ctx);
             }
             _ => ctx.push_error(miette::miette!(
                 r#""{parent_name}" cannot implement non-interface type "{}"."#,
@@ -51,13 +45,12 @@ fn validate_fields_implement_interface<'a>(
     implementer_name: &str,
     implementer_fields: &'a [Positioned<ast::FieldDefinition>],
     iface_name: &'a str,
-    iface: &'a ast::InterfaceType,
     ctx: &mut Context<'a>,
 ) {
     let mut errs = Vec::new();
 
     ctx.with_fields(implementer_name, implementer_fields, |ctx, candidate_superset| {
-        for field in &iface.fields {
+        for field in ctx.fields_of(iface_name) {
             let candidate_field = candidate_superset
                 .iter()
                 .find(|candidate| candidate.node.name.node == field.node.name.node);
@@ -181,43 +174,17 @@ fn validate_implementer_inner_type(
     }
 
     // Check if the candidate is a refinement of the interface.
-    match ctx
-        .definition_names
-        .get(iface_field_type_name)
-        .map(|def| &def.node.kind)
-    {
-        Some(ast::TypeKind::Union(union)) => {
-            if union.members.iter().any(|member| member.node == candidate_type_name) {
-                return true;
-            }
-        }
-        Some(ast::TypeKind::Interface(_)) => {
-            match ctx.definition_names.get(candidate_type_name).map(|def| &def.node.kind) {
-                Some(ast::TypeKind::Object(obj)) => {
-                    if obj
-                        .implements
-                        .iter()
-                        .any(|implemented| implemented.node == iface_field_type_name)
-                    {
-                        return true;
-                    }
-                }
-                Some(ast::TypeKind::Interface(field_iface)) => {
-                    if field_iface
-                        .implements
-                        .iter()
-                        .any(|implemented| implemented.node == iface_field_type_name)
-                    {
-                        return true;
-                    }
-                }
-                _ => (),
-            }
-        }
-        _ => (),
+    match ctx.find_type(iface_field_type_name).map(|def| &def.node.kind) {
+        Some(ast::TypeKind::Union(_)) => ctx
+            .union_members_of(iface_field_type_name)
+            .iter()
+            .any(|member| member.node == candidate_type_name),
+        Some(ast::TypeKind::Interface(_)) => ctx
+            .implements_of(candidate_type_name)
+            .iter()
+            .any(|implemented| implemented.node == iface_field_type_name),
+        _ => false,
     }
-
-    false
 }
 
 fn validate_implementer_wrapper_types(candidate: &ast::Type, iface: &ast::Type) -> bool {
@@ -238,10 +205,9 @@ fn validate_implements_interface_transitively<'a>(
     parent_name: &'a str,
     parent_implements: &[&'a Positioned<Name>],
     iface_name: &'a str,
-    iface: &'a ast::InterfaceType,
     ctx: &mut Context<'a>,
 ) {
-    for iface_implements in &iface.implements {
+    for iface_implements in ctx.implements_of(iface_name) {
         if !parent_implements
             .iter()
             .any(|obj_implements| obj_implements.node == iface_implements.node)
-- 
2.43.0


From 6a523f36900a5c1fa63383069d2c92bdc43c8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 54/87] fix: validate the fields of input objects together with
 those of their extensions

---
 .../graphql-schema-validation/src/context.rs  | 34 +++++++++++++++++++
 .../src/validate/input_object_cycles.rs       | 15 ++++----
 .../src/validate/input_objects.rs             | 28 ++++++++++++---
 .../src/validate/type_definition.rs           |  6 ++++
 4 files changed, 69 insertions(+), 14 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 948d9d3..89901bb 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -4,6 +4,7 @@ use async_graphql_value::Name;
 use std::collections::HashMap;
 
 type AstField = Positioned<ast::FieldDefinition>;
+type AstInputField = Positioned<ast::InputValueDefinition>;
 
 pub(crate) struct Context<'a> {
     /// The source document.
@@ -33,6 +34,9 @@ pub(crate) struct Context<'a> {
     // Enum name, extended members. Only populated in the presence of extensions.
     pub(crate) extended_enums: HashMap<&'a str, Vec<&'a [Positioned<ast::EnumValueDefinition>]>>,
 
+    // Input object name, extended fields. Only populated in the presence of extensions.
+    pub(crate) extended_input_fields: HashMap<&'a str, Vec<&'a [AstInputField]>>,
+
     // Reusable buffer for duplicate name detection.
     strings_buf: HashMap<&'a str, usize>,
 }
@@ -57,6 +61,7 @@ impl<'a> Context<'a> {
             extended_fields: HashMap::default(),
             extended_unions: HashMap::default(),
             extended_enums: HashMap::default(),
+            extended_input_fields: HashMap::default(),
         }
     }
 
@@ -106,6 +111,25 @@ impl<'a> Context<'a> {
         handler(self, &all_values);
     }
 
+    /// With an input object name and the input object declaration fields, iterate all these fields _and the fields
+    /// defined in any extensions for this input object_ together.
+    pub(crate) fn with_input_fields<F>(&mut self, name: &str, base_fields: &'a [AstInputField], mut handler: F)
+    where
+        F: FnMut(&mut Self, &[&'a AstInputField]),
+    {
+        let all_fields: Vec<_> = base_fields
+            .iter()
+            .chain(
+                self.extended_input_fields
+                    .get(name)
+                    .into_iter()
+                    .flat_map(|fields| fields.iter())
+                    .flat_map(|f| f.iter()),
+            )
+            .collect();
+        handler(self, &all_fields);
+    }
+
     /// With an object/interface name and the object/interface declaration fields, iterate all
     /// these fields _and the fields defined in any extensions for this object/interface_ together.
     pub(crate) fn with_fields<F>(&mut self, name: &str, base_fields: &'a [AstField], mut handler: F)
@@ -170,6 +194,16 @@ impl<'a> Context<'a> {
         base.iter().chain(extended.flat_map(|fields| fields.iter())).collect()
     }
 
+    /// All the fields of an input object, including those defined in extensions.
+    pub(crate) fn input_fields_of(&self, name: &str) -> Vec<&'a AstInputField> {
+        let base: &'a [AstInputField] = match self.definition_names.get(name).map(|ty| &ty.node.kind) {
+            Some(ast::TypeKind::InputObject(input_object)) => &input_object.fields,
+            _ => &[],
+        };
+        let extended = self.extended_input_fields.get(name).into_iter().flatten();
+        base.iter().chain(extended.flat_map(|fields| fields.iter())).collect()
+    }
+
     /// All the interfaces an object or interface implements, including those implemented in extensions.
     pub(crate) fn implements_of(&self, name: &str) -> Vec<&'a Positioned<Name>> {
         let base: &'a [Positioned<Name>] = match self.definition_names.get(name).map(|ty| &ty.node.kind) {
diff --git a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
index 1720577..549f6a8 100644
--- a/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
+++ b/crates/graphql-schema-validation/src/validate/input_object_cycles.rs
@@ -5,12 +5,10 @@ use std::collections::HashSet;
 /// http://spec.graphql.org/draft/#sec-Input-Objects.Type-Validation
 pub(crate) fn input_object_cycles<'a>(
     input_object_name: &'a str,
-    input_object: &'a ast::InputObjectType,
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
     ctx: &mut Context<'a>,
 ) {
-    if let Some(mut chain) =
-        references_input_object_rec(input_object_name, &input_object.fields, &mut HashSet::new(), ctx)
-    {
+    if let Some(mut chain) = references_input_object_rec(input_object_name, fields, &mut HashSet::new(), ctx) {
         chain.reverse();
         ctx.push_error(miette::miette!(r#"Cannot reference Input Object {input_object_name} within itself through a series of non-null fields: "{}""#, chain.join(".")));
     }
@@ -18,7 +16,7 @@ pub(crate) fn input_object_cycles<'a>(
 
 fn references_input_object_rec<'a>(
     name: &'a str,
-    fields: &'a [Positioned<ast::InputValueDefinition>],
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
     visited: &mut HashSet<&'a str>,
     ctx: &mut Context<'a>,
 ) -> Option<Vec<&'a str>> {
@@ -39,11 +37,10 @@ fn references_input_object_rec<'a>(
             continue;
         }
 
-        if let Some(ast::TypeKind::InputObject(input_object)) =
-            ctx.definition_names.get(field_type_name).map(|ty| &ty.node.kind)
-        {
+        if let Some(ast::TypeKind::InputObject(_)) = ctx.find_type(field_type_name).map(|ty| &ty.node.kind) {
             visited.insert(field_type_name);
-            if let Some(mut chain) = references_input_object_rec(name, &input_object.fields, visited, ctx) {
+            let fields = ctx.input_fields_of(field_type_name);
+            if let Some(mut chain) = references_input_object_rec(name, &fields, visited, ctx) {
                 chain.push(field.name.node.as_str());
                 return Some(chain);
             }
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index 6dd7778..e07cfe1 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -12,11 +12,21 @@ pub(crate) fn validate_input_object<'a>(
         ctx,
     );
 
-    if input_object.fields.is_empty() {
-        diagnostics::empty_input_object(parent_type_name, ctx);
-    }
+    ctx.with_input_fields(parent_type_name, &input_object.fields, |ctx, fields| {
+        if fields.is_empty() {
+            diagnostics::empty_input_object(parent_type_name, ctx);
+        }
+
+        validate_input_fields(parent_type_name, fields, ctx);
+    });
+}
 
-    for field in &input_object.fields {
+fn validate_input_fields<'a>(
+    parent_type_name: &'a str,
+    fields: &[&'a Positioned<ast::InputValueDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    for field in fields {
         validate_directives(
             &field.node.directives,
             ast::DirectiveLocation::InputFieldDefinition,
@@ -34,7 +44,15 @@ pub(crate) fn validate_input_object<'a>(
         }
     }
 
-    input_object_cycles::input_object_cycles(parent_type_name, input_object, ctx);
+    let field_names = fields.iter().map(|f| f.node.name.node.as_str());
+    ctx.find_duplicates(field_names, |ctx, _, idx| {
+        let field_name = fields[idx].node.name.node.as_str();
+        ctx.push_error(miette::miette!(
+            "Duplicate field {field_name} already exists on {parent_type_name}"
+        ));
+    });
+
+    input_object_cycles::input_object_cycles(parent_type_name, fields, ctx);
 }
 
 pub(crate) fn validate_input_object_extension<'a>(
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index eba2023..4445f81 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -42,6 +42,12 @@ pub(crate) fn validate_type_definition<'a>(typedef: &'a Positioned<ast::TypeDefi
             ast::TypeKind::Union(union) => {
                 ctx.extended_unions.entry(type_name).or_default().push(&union.members);
             }
+            ast::TypeKind::InputObject(input_object) => {
+                ctx.extended_input_fields
+                    .entry(type_name)
+                    .or_default()
+                    .push(&input_object.fields);
+            }
             _ => (),
         }
 
-- 
2.43.0


From 06c6a592ddc17c0cbae8972976196f9aa266972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 55/87] fix: reject interfaces that implement themselves

---
 .../src/validate/interface_implementers.rs                     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 5ea01f3..4396b9f 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -28,6 +28,9 @@ pub(crate) fn validate_implements_list<'a>(
         };
 
         match &ty.node.kind {
+            ast::TypeKind::Interface(_) if iface_name == parent_name => ctx.push_error(miette::miette!(
+                r#"Type "{parent_name}" cannot implement itself because it would create a circular reference."#
+            )),
             ast::TypeKind::Interface(_) => {
                 validate_implements_interface_transitively(parent_name, parent_implements, iface_name, ctx);
 
-- 
2.43.0


From 42415a481e44e543be2512462046ce0444eab1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 56/87] fix: detect reserved and duplicate names of enum
 values, input fields, directives and their arguments

---
 .../src/validate/directive_definitions.rs     |  9 ++++++--
 .../src/validate/enums.rs                     |  5 +++++
 .../src/validate/input_objects.rs             |  4 ++++
 .../src/validate/type_definition.rs           | 22 +++++++++++++++----
 4 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate/directive_definitions.rs b/crates/graphql-schema-validation/src/validate/directive_definitions.rs
index ebf3f91..75a6a9f 100644
--- a/crates/graphql-schema-validation/src/validate/directive_definitions.rs
+++ b/crates/graphql-schema-validation/src/validate/directive_definitions.rs
@@ -10,8 +10,13 @@ pub(crate) fn validate_directive_definition<'a>(
         });
     }
 
-    ctx.directive_names
-        .insert(definition.node.name.node.as_str(), definition);
+    let name = definition.node.name.node.as_str();
+
+    if ctx.directive_names.insert(name, definition).is_some() {
+        ctx.push_error(miette::miette! {
+            r#"Duplicate definition. There can only be one directive named "@{name}""#
+        });
+    }
 }
 
 pub(crate) fn validate_directives<'a>(
diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 52f99e7..6110ce2 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -16,6 +16,11 @@ pub(crate) fn validate_enum_members<'a>(
         });
 
         for value in values {
+            let value_name = &value.node.value.node;
+            if value_name.starts_with("__") {
+                diagnostics::double_underscore_name(value_name, value.node.value.pos, ctx);
+            }
+
             validate_directives(&value.node.directives, ast::DirectiveLocation::EnumValue, ctx);
         }
     });
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index e07cfe1..acdfa07 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -33,6 +33,10 @@ fn validate_input_fields<'a>(
             ctx,
         );
         let field_name = &field.node.name.node;
+        if field_name.starts_with("__") {
+            diagnostics::double_underscore_name(field_name, field.node.name.pos, ctx);
+        }
+
         let type_name = extract_type_name(&field.node.ty.node.base);
         let location = || format!("{parent_type_name}.{field_name}");
         match input_types::validate_input_type(type_name, field.node.ty.pos, ctx) {
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index 4445f81..90448ee 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -128,12 +128,26 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
     }
 }
 
-fn validate_directiv_definition_arguments(
-    directive_definition: &Positioned<ast::DirectiveDefinition>,
-    ctx: &mut Context<'_>,
+fn validate_directiv_definition_arguments<'a>(
+    directive_definition: &'a Positioned<ast::DirectiveDefinition>,
+    ctx: &mut Context<'a>,
 ) {
     let directive_name = directive_definition.node.name.node.as_str();
-    for arg in &directive_definition.node.arguments {
+    let arguments = &directive_definition.node.arguments;
+
+    ctx.find_duplicates(
+        arguments.iter().map(|arg| arg.node.name.node.as_str()),
+        |ctx, _, idx| {
+            let name = arguments[idx].node.name.node.as_str();
+            ctx.push_error(miette::miette!("Duplicate argument {name} in @{directive_name}"));
+        },
+    );
+
+    for arg in arguments {
+        if arg.node.name.node.starts_with("__") {
+            diagnostics::double_underscore_name(&arg.node.name.node, arg.node.name.pos, ctx);
+        }
+
         let type_name = extract_type_name(&arg.node.ty.node.base);
         let location = || format!("@{directive_name}({}:)", arg.node.name.node);
         match validate_input_type(type_name, arg.node.ty.pos, ctx) {
-- 
2.43.0


From 52f34ebd68c8fc791f5b09c28a2d2e23eb821423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 57/87] fix: validate the location of directives on scalars and
 on arguments of directives

---
 crates/graphql-schema-validation/src/validate/scalars.rs      | 4 ++++
 .../graphql-schema-validation/src/validate/type_definition.rs | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-schema-validation/src/validate/scalars.rs b/crates/graphql-schema-validation/src/validate/scalars.rs
index 3ee372a..90754d6 100644
--- a/crates/graphql-schema-validation/src/validate/scalars.rs
+++ b/crates/graphql-schema-validation/src/validate/scalars.rs
@@ -1,5 +1,9 @@
 use super::*;
 
+pub(crate) fn validate_scalar<'a>(type_definition: &'a Positioned<ast::TypeDefinition>, ctx: &mut Context<'a>) {
+    validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Scalar, ctx);
+}
+
 pub(crate) fn validate_scalar_extension<'a>(
     type_name: &str,
     type_definition: &'a Positioned<ast::TypeDefinition>,
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index 90448ee..f2c4a84 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -121,7 +121,7 @@ pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument
                     }
 
                     ast::TypeKind::Scalar if is_extension => validate_scalar_extension(type_name, typedef, ctx),
-                    ast::TypeKind::Scalar => (),
+                    ast::TypeKind::Scalar => validate_scalar(typedef, ctx),
                 }
             }
         }
@@ -157,5 +157,7 @@ fn validate_directiv_definition_arguments<'a>(
                 diagnostics::output_type_in_input_position(type_name, &location(), ctx);
             }
         }
+
+        validate_directives(&arg.node.directives, ast::DirectiveLocation::ArgumentDefinition, ctx);
     }
 }
-- 
2.43.0


From 1fb16d4081e140028d1046843894c026aba6b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 58/87] fix: reject extensions of types of another kind, even
 if unknown types can be extended

---
 crates/graphql-schema-validation/src/validate.rs  |  2 +-
 .../src/validate/enums.rs                         |  7 +------
 .../src/validate/input_objects.rs                 |  7 +------
 .../src/validate/interfaces.rs                    |  7 +------
 .../src/validate/objects.rs                       |  7 +------
 .../src/validate/scalars.rs                       |  8 +-------
 .../src/validate/type_definition.rs               | 15 +++++++++++++++
 .../src/validate/unions.rs                        |  7 +------
 8 files changed, 22 insertions(+), 38 deletions(-)

diff --git a/crates/graphql-schema-validation/src/validate.rs b/crates/graphql-schema-validation/src/validate.rs
index cff5a36..91d6601 100644
--- a/crates/graphql-schema-validation/src/validate.rs
+++ b/crates/graphql-schema-validation/src/validate.rs
@@ -18,7 +18,7 @@ use self::{
     directive_definitions::*, enums::*, input_objects::*, input_types::*, interfaces::*, objects::*, scalars::*,
     schema_definition::*, type_definition::*, unions::*,
 };
-use crate::{Context, Options, SchemaDefinition, diagnostics};
+use crate::{Context, SchemaDefinition, diagnostics};
 use async_graphql_parser::{Positioned, types as ast};
 
 pub(crate) fn validate<'a>(parsed_ast: &'a ast::ServiceDocument, ctx: &mut Context<'a>) {
diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 6110ce2..11e1534 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -33,12 +33,7 @@ pub(crate) fn validate_enum_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Enum, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Enum(_))
-        )
-    {
+    if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown enum {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index acdfa07..046532f 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -71,12 +71,7 @@ pub(crate) fn validate_input_object_extension<'a>(
         ctx,
     );
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::InputObject(_))
-        )
-    {
+    if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown object {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index befad9d..15e0425 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -28,12 +28,7 @@ pub(crate) fn validate_interface_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Interface, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Interface(_))
-        )
-    {
+    if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown interface {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/objects.rs b/crates/graphql-schema-validation/src/validate/objects.rs
index bf4c71a..fca2f54 100644
--- a/crates/graphql-schema-validation/src/validate/objects.rs
+++ b/crates/graphql-schema-validation/src/validate/objects.rs
@@ -29,12 +29,7 @@ pub(crate) fn validate_object_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Object, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Object(_))
-        )
-    {
+    if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown object {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/scalars.rs b/crates/graphql-schema-validation/src/validate/scalars.rs
index 90754d6..b934ffd 100644
--- a/crates/graphql-schema-validation/src/validate/scalars.rs
+++ b/crates/graphql-schema-validation/src/validate/scalars.rs
@@ -11,13 +11,7 @@ pub(crate) fn validate_scalar_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Scalar, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !is_builtin_scalar(type_name)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Scalar)
-        )
-    {
+    if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown scalar {type_name}"));
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/type_definition.rs b/crates/graphql-schema-validation/src/validate/type_definition.rs
index f2c4a84..c323168 100644
--- a/crates/graphql-schema-validation/src/validate/type_definition.rs
+++ b/crates/graphql-schema-validation/src/validate/type_definition.rs
@@ -78,6 +78,21 @@ pub(crate) fn validate_type_definition<'a>(typedef: &'a Positioned<ast::TypeDefi
     }
 }
 
+/// Whether the extended type has the kind of the extension. Unknown types have it, unless extending them is forbidden.
+pub(crate) fn extends_same_kind(
+    type_name: &str,
+    extension: &Positioned<ast::TypeDefinition>,
+    ctx: &Context<'_>,
+) -> bool {
+    if is_builtin_scalar(type_name) {
+        return matches!(extension.node.kind, ast::TypeKind::Scalar);
+    }
+
+    ctx.find_type(type_name).is_some_and(|extended| {
+        std::mem::discriminant(&extended.node.kind) == std::mem::discriminant(&extension.node.kind)
+    })
+}
+
 /// Second pass, after all the definitions have been traversed once.
 pub(crate) fn validate_definitions_second_pass<'a>(ast: &'a ast::ServiceDocument, ctx: &mut Context<'a>) {
     for def in &ast.definitions {
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 63c9967..4b985da 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -7,12 +7,7 @@ pub(crate) fn validate_union_extension<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Union, ctx);
 
-    if ctx.options.contains(Options::FORBID_EXTENDING_UNKNOWN_TYPES)
-        && !matches!(
-            ctx.definition_names.get(type_name).map(|t| &t.node.kind),
-            Some(ast::TypeKind::Union(_))
-        )
-    {
+    if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown union {type_name}"));
     }
 }
-- 
2.43.0


From 2968618aa9b5fa161c01292232a941d5ce1644d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 59/87] fix: validate what the extensions of types without
 definition contain

---
 crates/graphql-schema-validation/src/context.rs   | 12 ++++++++++++
 .../src/validate/enums.rs                         | 15 ++++++++++++++-
 .../src/validate/input_objects.rs                 |  7 +++++++
 .../src/validate/interface_implementers.rs        |  2 ++
 .../src/validate/interfaces.rs                    | 10 ++++++++++
 .../src/validate/objects.rs                       | 10 ++++++++++
 .../src/validate/unions.rs                        | 12 +++++++++++-
 7 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-validation/src/context.rs b/crates/graphql-schema-validation/src/context.rs
index 89901bb..13be563 100644
--- a/crates/graphql-schema-validation/src/context.rs
+++ b/crates/graphql-schema-validation/src/context.rs
@@ -183,6 +183,18 @@ impl<'a> Context<'a> {
         })
     }
 
+    /// Whether this is the first extension of a type that is not defined in the document. Together with its other
+    /// extensions, it is all there is to know about the type.
+    pub(crate) fn is_first_of_unknown_type(&self, extension: &Positioned<ast::TypeDefinition>) -> bool {
+        let type_name = extension.node.name.node.as_str();
+        !self.definition_names.contains_key(type_name)
+            && self
+                .extension_names
+                .get(type_name)
+                .and_then(|extensions| extensions.first())
+                .is_some_and(|first| std::ptr::eq(*first, extension))
+    }
+
     /// All the fields of an object or interface, including those defined in extensions.
     pub(crate) fn fields_of(&self, name: &str) -> Vec<&'a AstField> {
         let base: &'a [AstField] = match self.definition_names.get(name).map(|ty| &ty.node.kind) {
diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 11e1534..5548b60 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -8,7 +8,15 @@ pub(crate) fn validate_enum_members<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Enum, ctx);
 
-    ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
+    validate_values(type_name, &enm.values, ctx);
+}
+
+fn validate_values<'a>(
+    type_name: &str,
+    base_values: &'a [Positioned<ast::EnumValueDefinition>],
+    ctx: &mut Context<'a>,
+) {
+    ctx.with_enum_values(type_name, base_values, |ctx, values| {
         let value_names = values.iter().map(|v| v.node.value.node.as_str());
         ctx.find_duplicates(value_names, |ctx, idx, _| {
             let value_name = values[idx].node.value.node.as_str();
@@ -35,5 +43,10 @@ pub(crate) fn validate_enum_extension<'a>(
 
     if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown enum {type_name}"));
+        return;
+    }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        validate_values(type_name, &[], ctx);
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index 046532f..ca88665 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -73,5 +73,12 @@ pub(crate) fn validate_input_object_extension<'a>(
 
     if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown object {type_name}"));
+        return;
+    }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        ctx.with_input_fields(type_name, &[], |ctx, fields| {
+            validate_input_fields(type_name, fields, ctx);
+        });
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/interface_implementers.rs b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
index 4396b9f..b7baf00 100644
--- a/crates/graphql-schema-validation/src/validate/interface_implementers.rs
+++ b/crates/graphql-schema-validation/src/validate/interface_implementers.rs
@@ -31,6 +31,8 @@ pub(crate) fn validate_implements_list<'a>(
             ast::TypeKind::Interface(_) if iface_name == parent_name => ctx.push_error(miette::miette!(
                 r#"Type "{parent_name}" cannot implement itself because it would create a circular reference."#
             )),
+            // The interfaces and fields that are missing may be in the definition.
+            ast::TypeKind::Interface(_) if !ctx.definition_names.contains_key(parent_name) => (),
             ast::TypeKind::Interface(_) => {
                 validate_implements_interface_transitively(parent_name, parent_implements, iface_name, ctx);
 
diff --git a/crates/graphql-schema-validation/src/validate/interfaces.rs b/crates/graphql-schema-validation/src/validate/interfaces.rs
index 15e0425..c4c428a 100644
--- a/crates/graphql-schema-validation/src/validate/interfaces.rs
+++ b/crates/graphql-schema-validation/src/validate/interfaces.rs
@@ -30,5 +30,15 @@ pub(crate) fn validate_interface_extension<'a>(
 
     if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown interface {type_name}"));
+        return;
+    }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        ctx.with_implements(type_name, &[], |ctx, implements| {
+            interface_implementers::validate_implements_list(type_name, implements, &[], ctx);
+        });
+        ctx.with_fields(type_name, &[], |ctx, fields| {
+            object_field::validate_fields(type_name, fields, ctx);
+        });
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/objects.rs b/crates/graphql-schema-validation/src/validate/objects.rs
index fca2f54..f7929e1 100644
--- a/crates/graphql-schema-validation/src/validate/objects.rs
+++ b/crates/graphql-schema-validation/src/validate/objects.rs
@@ -31,5 +31,15 @@ pub(crate) fn validate_object_extension<'a>(
 
     if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown object {type_name}"));
+        return;
+    }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        ctx.with_implements(type_name, &[], |ctx, implements| {
+            interface_implementers::validate_implements_list(type_name, implements, &[], ctx);
+        });
+        ctx.with_fields(type_name, &[], |ctx, fields| {
+            object_field::validate_fields(type_name, fields, ctx);
+        });
     }
 }
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 4b985da..9cd7949 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -1,4 +1,5 @@
 use super::*;
+use async_graphql_value::Name;
 
 pub(crate) fn validate_union_extension<'a>(
     type_name: &str,
@@ -9,6 +10,11 @@ pub(crate) fn validate_union_extension<'a>(
 
     if !extends_same_kind(type_name, type_definition, ctx) {
         ctx.push_error(miette::miette!("Cannot extend unknown union {type_name}"));
+        return;
+    }
+
+    if ctx.is_first_of_unknown_type(type_definition) {
+        validate_members(type_name, &[], ctx);
     }
 }
 
@@ -20,7 +26,11 @@ pub(crate) fn validate_union_members<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Union, ctx);
 
-    ctx.with_union_members(type_name, &union.members, |ctx, members| {
+    validate_members(type_name, &union.members, ctx);
+}
+
+fn validate_members<'a>(type_name: &str, base_members: &'a [Positioned<Name>], ctx: &mut Context<'a>) {
+    ctx.with_union_members(type_name, base_members, |ctx, members| {
         for member in members {
             let member_name = member.node.as_str();
             match ctx.find_type(member_name) {
-- 
2.43.0


From 27697648dba9486458c38ad2955842c756342533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 60/87] fix: detect deprecated required input fields

---
 .../src/validate/input_objects.rs                | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/graphql-schema-validation/src/validate/input_objects.rs b/crates/graphql-schema-validation/src/validate/input_objects.rs
index ca88665..e6a95ea 100644
--- a/crates/graphql-schema-validation/src/validate/input_objects.rs
+++ b/crates/graphql-schema-validation/src/validate/input_objects.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::Options;
 
 pub(crate) fn validate_input_object<'a>(
     parent_type_name: &'a str,
@@ -37,6 +38,21 @@ fn validate_input_fields<'a>(
             diagnostics::double_underscore_name(field_name, field.node.name.pos, ctx);
         }
 
+        if ctx.options.contains(Options::DRAFT_VALIDATIONS) {
+            let is_non_null_without_default = !field.node.ty.node.nullable && field.node.default_value.is_none();
+            if is_non_null_without_default
+                && field
+                    .node
+                    .directives
+                    .iter()
+                    .any(|dir| dir.node.name.node == "deprecated")
+            {
+                ctx.push_error(miette::miette!(
+                    "Required input field {parent_type_name}.{field_name} cannot be deprecated."
+                ));
+            }
+        }
+
         let type_name = extract_type_name(&field.node.ty.node.base);
         let location = || format!("{parent_type_name}.{field_name}");
         match input_types::validate_input_type(type_name, field.node.ty.pos, ctx) {
-- 
2.43.0


From dcaf16d04427c4f2a7278dc2e8062ce95bd7f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 61/87] fix: reject enums without values and unions without
 members

---
 .../src/diagnostics/constructors.rs                  | 12 ++++++++++++
 .../graphql-schema-validation/src/validate/enums.rs  |  6 ++++++
 .../graphql-schema-validation/src/validate/unions.rs |  6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/crates/graphql-schema-validation/src/diagnostics/constructors.rs b/crates/graphql-schema-validation/src/diagnostics/constructors.rs
index 5a18a7f..be6aafe 100644
--- a/crates/graphql-schema-validation/src/diagnostics/constructors.rs
+++ b/crates/graphql-schema-validation/src/diagnostics/constructors.rs
@@ -44,3 +44,15 @@ pub(crate) fn empty_input_object(bad_input_object: &str, ctx: &mut Context<'_>)
         "The input object type {bad_input_object} has no fields. An input object type must define one or more fields."
     ))
 }
+
+pub(crate) fn empty_enum(bad_enum: &str, ctx: &mut Context<'_>) {
+    ctx.push_error(miette::miette!(
+        "The enum type {bad_enum} has no values. An enum type must define one or more values."
+    ))
+}
+
+pub(crate) fn empty_union(bad_union: &str, ctx: &mut Context<'_>) {
+    ctx.push_error(miette::miette!(
+        "The union type {bad_union} has no members. A union type must include one or more member types."
+    ))
+}
diff --git a/crates/graphql-schema-validation/src/validate/enums.rs b/crates/graphql-schema-validation/src/validate/enums.rs
index 5548b60..9648def 100644
--- a/crates/graphql-schema-validation/src/validate/enums.rs
+++ b/crates/graphql-schema-validation/src/validate/enums.rs
@@ -8,6 +8,12 @@ pub(crate) fn validate_enum_members<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Enum, ctx);
 
+    ctx.with_enum_values(type_name, &enm.values, |ctx, values| {
+        if values.is_empty() {
+            diagnostics::empty_enum(type_name, ctx);
+        }
+    });
+
     validate_values(type_name, &enm.values, ctx);
 }
 
diff --git a/crates/graphql-schema-validation/src/validate/unions.rs b/crates/graphql-schema-validation/src/validate/unions.rs
index 9cd7949..7b645bb 100644
--- a/crates/graphql-schema-validation/src/validate/unions.rs
+++ b/crates/graphql-schema-validation/src/validate/unions.rs
@@ -26,6 +26,12 @@ pub(crate) fn validate_union_members<'a>(
 ) {
     validate_directives(&type_definition.node.directives, ast::DirectiveLocation::Union, ctx);
 
+    ctx.with_union_members(type_name, &union.members, |ctx, members| {
+        if members.is_empty() {
+            diagnostics::empty_union(type_name, ctx);
+        }
+    });
+
     validate_members(type_name, &union.members, ctx);
 }
 
-- 
2.43.0


From 18aaf56b2c92923777c7cd7c9cbc14a834ed8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 62/87] fix: allow white space between a leading type condition
 and its path in field selection maps

---
 crates/engine/field-selection-map/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/engine/field-selection-map/src/parser.rs b/crates/engine/field-selection-map/src/parser.rs
index 84810a2..ef0737e 100644
--- a/crates/engine/field-selection-map/src/parser.rs
+++ b/crates/engine/field-selection-map/src/parser.rs
@@ -96,7 +96,7 @@ fn selected_list_value<'a>(input: &mut &'a str) -> Result<SelectedListValue<'a>>
 /// Parses a Path: segment1.segment2.segmentN
 fn path<'a>(input: &mut &'a str) -> Result<Path<'a>> {
     (
-        opt(delimited('<', ws(name), ('>', multispace0, '.')).context(StrContext::Label("type name"))),
+        opt(delimited('<', ws(name), ('>', ws('.'))).context(StrContext::Label("type name"))),
         separated(1.., path_segment, ws('.')),
     )
         .map(|(ty, segments)| Path { ty, segments })
-- 
2.43.0


From 7de78dc8b36af0760d4779551aa7418caa238c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 63/87] fix: parse extension identifiers with pre-release
 versions, and without crashing

---
 crates/extension/src/id.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/extension/src/id.rs b/crates/extension/src/id.rs
index 1e9076c..6899d01 100644
--- a/crates/extension/src/id.rs
+++ b/crates/extension/src/id.rs
@@ -15,11 +15,24 @@ impl std::fmt::Display for Id {
 impl FromStr for Id {
     type Err = semver::Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let (name, version) = s.rsplit_once('-').unwrap();
-        Ok(Self {
-            name: name.to_string(),
-            version: semver::Version::parse(version)?,
-        })
+        let mut error = None;
+
+        // Versions can contain dashes, so the version is not always what follows the last one.
+        for (ix, _) in s.match_indices('-') {
+            match semver::Version::parse(&s[ix + 1..]) {
+                Ok(version) if ix > 0 => {
+                    return Ok(Self {
+                        name: s[..ix].to_string(),
+                        version,
+                    });
+                }
+                Ok(_) => (), // the name is missing
+                Err(err) => error = Some(err),
+            }
+        }
+
+        // Without a dash there is no version to parse.
+        Err(error.unwrap_or_else(|| semver::Version::parse("").unwrap_err()))
     }
 }
 
-- 
2.43.0


From f2862b654f31313babba54388d7ae3347ce0af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 64/87] fix: refuse graph references with an empty branch or
 version

---
 crates/graph-ref/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/graph-ref/src/lib.rs b/crates/graph-ref/src/lib.rs
index 91edcd4..70c8aa8 100644
--- a/crates/graph-ref/src/lib.rs
+++ b/crates/graph-ref/src/lib.rs
@@ -89,6 +89,14 @@ impl str::FromStr for GraphRef {
             return Err(Cow::Borrowed("The graph name is missing."));
         }
 
+        if graph.branch().is_some_and(str::is_empty) {
+            return Err(Cow::Borrowed("The branch name is missing."));
+        }
+
+        if graph.version().is_some_and(str::is_empty) {
+            return Err(Cow::Borrowed("The version is missing."));
+        }
+
         if graph.slug().contains('/') {
             let did_you_mean = 'split: {
                 let Some((_, graph_slug)) = graph.slug().split_once('/') else {
-- 
2.43.0


From 68fb32679a879c7aacb02800d500bc1bb5cf201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 65/87] fix: an empty [websockets] section keeps its default
 and refuses unknown keys

---
 crates/gateway-config/src/websockets_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/gateway-config/src/websockets_config.rs b/crates/gateway-config/src/websockets_config.rs
index 2ed839d..205f086 100644
--- a/crates/gateway-config/src/websockets_config.rs
+++ b/crates/gateway-config/src/websockets_config.rs
@@ -1,6 +1,6 @@
 #[derive(Debug, serde::Deserialize, Clone)]
+#[serde(default, deny_unknown_fields)]
 pub struct WebsocketsConfig {
-    #[serde(default)]
     pub forward_connection_init_payload: bool,
 }
 
-- 
2.43.0


From 3a4e368a8ea52c1d196a627d6d7edfd6760d7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 66/87] fix: refuse unknown keys in preopened directories and
 deny rules

---
 crates/gateway-config/src/hooks.rs                    |  1 +
 .../src/telemetry/exporters/response_extension.rs     | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/gateway-config/src/hooks.rs b/crates/gateway-config/src/hooks.rs
index 2294fa8..38fd014 100644
--- a/crates/gateway-config/src/hooks.rs
+++ b/crates/gateway-config/src/hooks.rs
@@ -22,6 +22,7 @@ pub struct HooksWasiConfig {
 
 /// Configuration for a directory that is preopened for the WASI component.
 #[derive(Clone, Debug, serde::Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct PreopenedDirectory {
     /// The path on the host system that is preopened.
     pub host_path: PathBuf,
diff --git a/crates/gateway-config/src/telemetry/exporters/response_extension.rs b/crates/gateway-config/src/telemetry/exporters/response_extension.rs
index 9d68464..7e2f7a1 100644
--- a/crates/gateway-config/src/telemetry/exporters/response_extension.rs
+++ b/crates/gateway-config/src/telemetry/exporters/response_extension.rs
@@ -33,10 +33,19 @@ impl Default for ResponseExtensionExporterConfig {
 pub enum AccessControl {
     #[serde(rename = "header")]
     Header(HeaderAccessControl),
-    #[serde(rename = "deny")]
+    #[serde(rename = "deny", deserialize_with = "deserialize_without_settings")]
     Deny,
 }
 
+/// A rule that takes no settings. Serde ignores extra fields of unit variants otherwise.
+fn deserialize_without_settings<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<(), D::Error> {
+    #[derive(Deserialize)]
+    #[serde(deny_unknown_fields)]
+    struct NoSettings {}
+
+    NoSettings::deserialize(deserializer).map(|_| ())
+}
+
 #[derive(Debug, Clone, PartialEq, Deserialize)]
 #[serde(deny_unknown_fields)]
 pub struct HeaderAccessControl {
-- 
2.43.0


From 37d9c6864a31f6e036e6b2cc6b7aedebfddcdfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 67/87] fix: message signing prints ed25519 by its name and
 refuses unknown header keys

---
 crates/gateway-config/src/message_signatures.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gateway-config/src/message_signatures.rs b/crates/gateway-config/src/message_signatures.rs
index 51bd081..0eb7208 100644
--- a/crates/gateway-config/src/message_signatures.rs
+++ b/crates/gateway-config/src/message_signatures.rs
@@ -33,7 +33,7 @@ impl fmt::Display for MessageSigningAlgorithm {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let str = match self {
             MessageSigningAlgorithm::HmacSha256 => "hmac-sha256",
-            MessageSigningAlgorithm::Ed25519 => "ed25516",
+            MessageSigningAlgorithm::Ed25519 => "ed25519",
             MessageSigningAlgorithm::EcdsaP256 => "ecdsa-p256-sha256",
             MessageSigningAlgorithm::EcdsaP384 => "ecdsa-p384-sha384",
         };
@@ -100,7 +100,7 @@ pub enum DerivedComponent {
 
 /// Which headers to include/exclude in the signature
 #[derive(Debug, Default, Clone, PartialEq, serde::Deserialize)]
-#[serde(rename_all = "snake_case")]
+#[serde(rename_all = "snake_case", deny_unknown_fields)]
 pub struct MessageSigningHeaders {
     pub include: Option<Vec<String>>,
     pub exclude: Option<Vec<String>>,
-- 
2.43.0


From eeaf9b040dbfda477a0fe6accb9b6863289635a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 68/87] fix: resolve a relative configuration path against the
 loader's current directory

---
 crates/gateway-config/src/lib.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/crates/gateway-config/src/lib.rs b/crates/gateway-config/src/lib.rs
index 87c29c4..e677535 100644
--- a/crates/gateway-config/src/lib.rs
+++ b/crates/gateway-config/src/lib.rs
@@ -73,16 +73,19 @@ impl Loader {
     }
 
     pub fn load<P: AsRef<Path>>(self, path: Option<P>) -> Result<Option<Config>, String> {
+        let current_dir = || {
+            match self.current_dir.as_ref() {
+                Some(cdir) => std::path::absolute(cdir),
+                None => std::env::current_dir(),
+            }
+            .map_err(|err| format!("Could not detect current directory: {err}"))
+        };
+
         let path = match path {
-            Some(path) => path.as_ref().to_path_buf(),
+            Some(path) if path.as_ref().is_absolute() => path.as_ref().to_path_buf(),
+            Some(path) => current_dir()?.join(path),
             None => {
-                let cdir = match self.current_dir.as_ref() {
-                    Some(cdir) => cdir.clone(),
-                    None => {
-                        std::env::current_dir().map_err(|err| format!("Could not detect current directory: {err}"))?
-                    }
-                };
-                let path = cdir.join("grafbase.toml");
+                let path = current_dir()?.join("grafbase.toml");
                 if path.exists() {
                     path
                 } else {
@@ -150,15 +153,7 @@ impl Loader {
         let mut config =
             Config::deserialize(raw_config).map_err(|err| format!("Failed to parse configuration: {err}"))?;
 
-        config.path = Some(if path.is_relative() {
-            let cdir = match self.current_dir.as_ref() {
-                Some(cdir) => cdir.clone(),
-                None => std::env::current_dir().map_err(|err| format!("Could not detect current directory: {err}"))?,
-            };
-            cdir.join(&path)
-        } else {
-            path
-        });
+        config.path = Some(path);
 
         Ok(Some(
             config
-- 
2.43.0


From ab9fab2e69f90425440cab4794d176ad34bf3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 69/87] fix: do not overwrite an archived log file when two
 rotations share a millisecond

---
 crates/rolling-logger/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/rolling-logger/src/lib.rs b/crates/rolling-logger/src/lib.rs
index f5e161c..6671967 100644
--- a/crates/rolling-logger/src/lib.rs
+++ b/crates/rolling-logger/src/lib.rs
@@ -69,10 +69,20 @@ impl RollingLogger {
     fn flush_and_rotate(&mut self) -> io::Result<()> {
         self.flush()?;
 
-        let mut path = self.path.as_os_str().to_os_string();
-        path.push(format!(".{}", self.file.timestamp()));
+        // Two files can start in the same millisecond: never replace an archived one.
+        let mut timestamp = self.file.timestamp();
+        let archive = loop {
+            let mut path = self.path.as_os_str().to_os_string();
+            path.push(format!(".{timestamp}"));
+
+            if !Path::new(&path).exists() {
+                break path;
+            }
+
+            timestamp += 1;
+        };
 
-        std::fs::rename(&self.path, &path)?;
+        std::fs::rename(&self.path, &archive)?;
 
         self.file = LogFile::new(&self.path, self.file.copy_new_rotate())?;
 
-- 
2.43.0


From ad57babf994be1871e3337f0fb77c4f73317f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 70/87] fix: count only the bytes written to the log towards
 its size limit

---
 crates/rolling-logger/src/log_file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rolling-logger/src/log_file.rs b/crates/rolling-logger/src/log_file.rs
index 80097df..a275fd7 100644
--- a/crates/rolling-logger/src/log_file.rs
+++ b/crates/rolling-logger/src/log_file.rs
@@ -102,8 +102,10 @@ impl LogFile {
 
 impl Write for LogFile {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.size += buf.len() as u64;
-        self.file.write(buf)
+        let written = self.file.write(buf)?;
+        self.size += written as u64;
+
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 133e7a0c5247faf09bbd23f3be529d26755b20ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 71/87] fix: keep the log file in place when a rotation cannot
 create the next one

---
 crates/rolling-logger/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/rolling-logger/src/lib.rs b/crates/rolling-logger/src/lib.rs
index 6671967..5941c86 100644
--- a/crates/rolling-logger/src/lib.rs
+++ b/crates/rolling-logger/src/lib.rs
@@ -84,7 +84,14 @@ impl RollingLogger {
 
         std::fs::rename(&self.path, &archive)?;
 
-        self.file = LogFile::new(&self.path, self.file.copy_new_rotate())?;
+        match LogFile::new(&self.path, self.file.copy_new_rotate()) {
+            Ok(file) => self.file = file,
+            Err(err) => {
+                // The open file is still the old one: put it back, the next write rotates again.
+                std::fs::rename(&archive, &self.path)?;
+                return Err(err);
+            }
+        }
 
         Ok(())
     }
-- 
2.43.0


From 62382e7f670e3fcf280e5c2e8c8f2e6839b41db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 72/87] fix: number schema extensions in diffs, so that
 patching removes only the ones that are gone

---
 crates/graphql-schema-diff/src/patch.rs              | 12 +++++++++++-
 .../src/patch/schema_definitions.rs                  |  8 ++------
 crates/graphql-schema-diff/src/state.rs              |  6 +++---
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch.rs b/crates/graphql-schema-diff/src/patch.rs
index aa222e6..535af39 100644
--- a/crates/graphql-schema-diff/src/patch.rs
+++ b/crates/graphql-schema-diff/src/patch.rs
@@ -48,18 +48,28 @@ where
     // What is added to a type is rendered once, with the first definition or extension of the type.
     let mut rendered_types = HashSet::new();
 
+    let mut schema_extensions_count = 0usize;
+
     for definition in parsed.definitions() {
         match definition {
             cynic_parser::type_system::Definition::Schema(def) => {
                 schema_definitions::patch_schema_definition(
                     def,
                     DefinitionOrExtension::Definition,
+                    ":schema",
                     &mut schema,
                     &paths,
                 );
             }
             cynic_parser::type_system::Definition::SchemaExtension(def) => {
-                schema_definitions::patch_schema_definition(def, DefinitionOrExtension::Extension, &mut schema, &paths);
+                schema_definitions::patch_schema_definition(
+                    def,
+                    DefinitionOrExtension::Extension,
+                    &format!(":schema[{schema_extensions_count}]"),
+                    &mut schema,
+                    &paths,
+                );
+                schema_extensions_count += 1;
             }
             cynic_parser::type_system::Definition::Type(ty) => {
                 let is_first_part = rendered_types.insert(ty.name());
diff --git a/crates/graphql-schema-diff/src/patch/schema_definitions.rs b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
index 9294f07..3c9543c 100644
--- a/crates/graphql-schema-diff/src/patch/schema_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
@@ -7,6 +7,7 @@ use super::{DefinitionOrExtension, INDENTATION, directives::patch_directives, pa
 pub(super) fn patch_schema_definition<T: AsRef<str>>(
     definition: SchemaDefinition<'_>,
     definition_or_extension: super::DefinitionOrExtension,
+    path: &str,
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) {
@@ -14,12 +15,7 @@ pub(super) fn patch_schema_definition<T: AsRef<str>>(
     let mut new_mutation_type = None;
     let mut new_subscription_type = None;
 
-    let prefix = match definition_or_extension {
-        DefinitionOrExtension::Extension => ":schema[0]",
-        DefinitionOrExtension::Definition => ":schema",
-    };
-
-    for change in paths.iter_exact([prefix, "", ""]) {
+    for change in paths.iter_exact([path, "", ""]) {
         match change.kind() {
             ChangeKind::ChangeQueryType => {
                 new_query_type = Some(change.resolved_str());
diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index 0a07a5f..b0a87a9 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -87,16 +87,16 @@ fn push_schema_extension_changes(
     schema_extensions: Vec<[Option<ast::SchemaDefinition<'_>>; 2]>,
     push_change: PushChangeFn<'_>,
 ) {
-    for extension in schema_extensions {
+    for (index, extension) in schema_extensions.into_iter().enumerate() {
         match extension {
             // TODO(GB-7390): we only react to additions and removals for now. We should do full diffing.
             [None, Some(def)] => push_change(
-                path::Path::SchemaExtension(0),
+                path::Path::SchemaExtension(index),
                 ChangeKind::AddSchemaExtension,
                 def.span().into(),
             ),
             [Some(def), None] => push_change(
-                path::Path::SchemaExtension(0),
+                path::Path::SchemaExtension(index),
                 ChangeKind::RemoveSchemaExtension,
                 def.span().into(),
             ),
-- 
2.43.0


From 206243443b9684aadb1392e3593a63063e54da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 73/87] fix: give each linked extension an enum value of its
 own in the federated schema

---
 .../src/emit_federated_graph/emit_extensions.rs     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs b/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
index 87a71de..bfa045e 100644
--- a/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
+++ b/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::collections::HashSet;
 
 pub(super) fn emit_extensions(ctx: &mut Context<'_>, ir: &CompositionIr) {
     let extensions_from_subgraphs = ctx.subgraphs.iter_extensions();
@@ -17,6 +18,8 @@ pub(super) fn emit_extensions(ctx: &mut Context<'_>, ir: &CompositionIr) {
         description: None,
     });
 
+    let mut seen_values = HashSet::new();
+
     for extension in extensions_from_subgraphs {
         if !ir.used_extensions[usize::from(extension.id)] {
             continue;
@@ -33,7 +36,15 @@ pub(super) fn emit_extensions(ctx: &mut Context<'_>, ir: &CompositionIr) {
             }
         }
 
-        let value = ctx.insert_str(&value);
+        // Several versions of an extension, or similar names, must not end up in the same enum value.
+        let mut unique_value = value.clone();
+        let mut count = 1;
+        while !seen_values.insert(unique_value.clone()) {
+            count += 1;
+            unique_value = format!("{value}_{count}");
+        }
+
+        let value = ctx.insert_str(&unique_value);
 
         let schema_directives: Vec<federated::ExtensionLinkSchemaDirective> =
             iter_directives_from_extension(extension.id, ctx.subgraphs, &ir.linked_schema_to_extension)
-- 
2.43.0


From 43a01226369ba2f2b1c9443bda07f7887e03d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:54 +0000
Subject: [PATCH 74/87] fix: check the arguments in @key, @requires and
 @provides selections by the coercion rules of their types

---
 .../src/subgraphs/field_types.rs              |  4 -
 .../src/validate/selection.rs                 | 79 ++++++++++++-------
 2 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 7fdf20e..7939f25 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -82,10 +82,6 @@ impl FieldType {
         FieldTypeDisplay(self, subgraphs)
     }
 
-    pub(crate) fn is_list(&self) -> bool {
-        self.wrapping.is_list()
-    }
-
     pub(crate) fn inner_is_required(&self) -> bool {
         self.wrapping.inner_is_required()
     }
diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 27591ba..4ea2dc8 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -255,42 +255,61 @@ fn argument_type_matches(
     arg_type: &subgraphs::FieldType,
     value: &subgraphs::Value,
 ) -> bool {
-    let arg_type_name = ctx.subgraphs[arg_type.definition_name_id].as_ref();
+    if let subgraphs::Value::Null = value {
+        return !arg_type.is_required();
+    }
 
-    match value {
-        subgraphs::Value::String(_) if arg_type_name == "String" => true,
-        subgraphs::Value::Int(_) if arg_type_name == "Int" => true,
-        subgraphs::Value::Float(_) if arg_type_name == "Float" => true,
-        subgraphs::Value::Boolean(_) if arg_type_name == "Boolean" => true,
-        subgraphs::Value::Enum(value) => {
-            let Some(enum_type) = ctx
-                .subgraphs
-                .definition_by_name_id(arg_type.definition_name_id, subgraph)
-            else {
-                return false;
-            };
+    // A list, or a single value that is coerced to a list of one item.
+    if let Some(wrapping) = arg_type.wrapping.without_list() {
+        let item_type = subgraphs::FieldType { wrapping, ..*arg_type };
+
+        return match value {
+            subgraphs::Value::List(items) => items
+                .iter()
+                .all(|item| argument_type_matches(ctx, subgraph, &item_type, item)),
+            value => argument_type_matches(ctx, subgraph, &item_type, value),
+        };
+    }
+
+    match (ctx.subgraphs[arg_type.definition_name_id].as_ref(), value) {
+        ("String", value) => return matches!(value, subgraphs::Value::String(_)),
+        ("Int", value) => return matches!(value, subgraphs::Value::Int(_)),
+        ("Float", value) => return matches!(value, subgraphs::Value::Float(_) | subgraphs::Value::Int(_)),
+        ("Boolean", value) => return matches!(value, subgraphs::Value::Boolean(_)),
+        ("ID", value) => return matches!(value, subgraphs::Value::String(_) | subgraphs::Value::Int(_)),
+        _ => (),
+    }
+
+    let Some(definition) = ctx
+        .subgraphs
+        .definition_by_name_id(arg_type.definition_name_id, subgraph)
+        .map(|id| ctx.subgraphs.at(id))
+    else {
+        return false;
+    };
 
-            enum_type.enum_value_by_name(ctx.subgraphs, *value).is_some()
+    match (definition.kind, value) {
+        // How literals are coerced is up to each custom scalar.
+        (subgraphs::DefinitionKind::Scalar, _) => true,
+        (subgraphs::DefinitionKind::Enum, subgraphs::Value::Enum(value)) => {
+            definition.id.enum_value_by_name(ctx.subgraphs, *value).is_some()
         }
-        subgraphs::Value::Object(fields) => {
-            let Some(input_object_type) = ctx
-                .subgraphs
-                .definition_by_name_id(arg_type.definition_name_id, subgraph)
-            else {
-                return false;
-            };
+        (subgraphs::DefinitionKind::InputObject, subgraphs::Value::Object(fields)) => {
+            let required_fields_are_given = definition
+                .id
+                .fields(ctx.subgraphs)
+                .filter(|field| field.r#type.is_required() && field.input_field_default_value.is_none())
+                .all(|required| fields.iter().any(|(name, _)| *name == required.name));
 
-            fields.iter().all(|(field_name, field_value)| {
-                let Some(inner_field) = input_object_type.field_by_name(ctx.subgraphs, *field_name) else {
-                    return false;
-                };
+            required_fields_are_given
+                && fields.iter().all(|(field_name, field_value)| {
+                    let Some(inner_field) = definition.id.field_by_name(ctx.subgraphs, *field_name) else {
+                        return false;
+                    };
 
-                argument_type_matches(ctx, subgraph, &inner_field.r#type, field_value)
-            })
+                    argument_type_matches(ctx, subgraph, &inner_field.r#type, field_value)
+                })
         }
-        subgraphs::Value::List(inner) if arg_type.is_list() => inner
-            .iter()
-            .all(|inner| argument_type_matches(ctx, subgraph, arg_type, inner)),
         _ => false,
     }
 }
-- 
2.43.0


From d166d0a8507e961c04fea5e620d535ce021fb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:37 +0000
Subject: [PATCH 75/87] fix: report a selection argument that another subgraph
 does not define instead of panicking

---
 .../src/validate/selection.rs                 | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/graphql-composition/src/validate/selection.rs b/crates/graphql-composition/src/validate/selection.rs
index 4ea2dc8..ddc078a 100644
--- a/crates/graphql-composition/src/validate/selection.rs
+++ b/crates/graphql-composition/src/validate/selection.rs
@@ -210,6 +210,26 @@ fn validate_field_selection(
             ));
         };
 
+        // Only the arguments that every subgraph defines for the field are in the composed graph.
+        let subgraph_without_argument =
+            ctx.subgraphs
+                .iter_definitions_with_name(on_definition.name)
+                .find(|(_, definition_id)| {
+                    definition_id
+                        .field_by_name(ctx.subgraphs, selection.field)
+                        .is_some_and(|field| field.argument_by_name(ctx.subgraphs, *argument_name).is_none())
+                });
+
+        if let Some((other_subgraph_id, _)) = subgraph_without_argument {
+            return ctx.diagnostics.push_fatal(format!(
+                "[{subgraph_name}] Error in @{directive_name} on {directive_path}: the {field_in_selection}.{argument_name} argument is not defined in the {other_subgraph} subgraph",
+                argument_name = ctx.subgraphs[*argument_name],
+                field_in_selection = ctx.subgraphs[field.name],
+                other_subgraph = ctx.subgraphs[ctx.subgraphs.at(other_subgraph_id).name],
+                directive_path = directive_path(),
+            ));
+        }
+
         if !argument_type_matches(ctx, on_definition.subgraph_id, &argument.r#type, argument_value) {
             return ctx.diagnostics.push_fatal(format!(
                 "[{subgraph_name}] Error in @{directive_name} on {directive_path}: the {field_in_selection}.{argument_name} argument does not not match the expected type ({expected_type})",
-- 
2.43.0


From b469d6681fd91129795f02d4cb73efe439d0e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 76/87] fix: keep fields that are internal in one of several
 subgraphs in the client-facing schema of a graph read back from SDL

---
 .../render_sdl/render_api_sdl.rs              | 16 ++--
 .../render_sdl/render_api_sdl/visibility.rs   | 73 ++++++++++++-------
 2 files changed, 56 insertions(+), 33 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index d96e79d..710b579 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -87,7 +87,7 @@ impl fmt::Display for Renderer<'_> {
                 for field in &graph[object.fields.clone()] {
                     let field_name = &graph[field.name];
 
-                    if field_name.starts_with("__") || is_inaccessible(&field.directives) {
+                    if field_name.starts_with("__") || is_field_inaccessible(&field.directives, &object.directives) {
                         continue;
                     }
 
@@ -111,7 +111,7 @@ impl fmt::Display for Renderer<'_> {
             if is_inaccessible(&interface.directives)
                 || graph[interface.fields.clone()]
                     .iter()
-                    .all(|field| is_inaccessible(&field.directives))
+                    .all(|field| is_field_inaccessible(&field.directives, &interface.directives))
             {
                 continue;
             }
@@ -126,7 +126,7 @@ impl fmt::Display for Renderer<'_> {
 
             write_block(f, |f| {
                 for field in &graph[interface.fields.clone()] {
-                    if is_inaccessible(&field.directives) {
+                    if is_field_inaccessible(&field.directives, &interface.directives) {
                         continue;
                     }
 
@@ -151,7 +151,7 @@ impl fmt::Display for Renderer<'_> {
             if is_inaccessible(&input_object.directives)
                 || graph[input_object.fields]
                     .iter()
-                    .all(|field| is_inaccessible(&field.directives))
+                    .all(|field| is_field_inaccessible(&field.directives, &input_object.directives))
             {
                 continue;
             }
@@ -167,7 +167,7 @@ impl fmt::Display for Renderer<'_> {
 
             write_block(f, |f| {
                 for field in &graph[input_object.fields] {
-                    if is_inaccessible(&field.directives) {
+                    if is_field_inaccessible(&field.directives, &input_object.directives) {
                         continue;
                     }
 
@@ -250,9 +250,9 @@ impl fmt::Display for Renderer<'_> {
 
 fn is_visible_object(object: &Object, graph: &FederatedGraph) -> bool {
     !is_inaccessible(&object.directives)
-        && graph[object.fields.clone()]
-            .iter()
-            .any(|field| !graph[field.name].starts_with("__") && !is_inaccessible(&field.directives))
+        && graph[object.fields.clone()].iter().any(|field| {
+            !graph[field.name].starts_with("__") && !is_field_inaccessible(&field.directives, &object.directives)
+        })
 }
 
 fn public_directives_filter(directive: &Directive) -> bool {
diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs
index 9e73eff..8e062b6 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl/visibility.rs
@@ -1,6 +1,12 @@
-use crate::federated_graph::Directive;
+use crate::federated_graph::{Directive, OverrideLabel, OverrideSource, SubgraphId};
 
 pub(super) fn is_inaccessible(directives: &[Directive]) -> bool {
+    is_field_inaccessible(directives, &[])
+}
+
+/// The `@join__field` directives of a field that is in all the subgraphs of its parent are redundant: they are not
+/// part of the federated SDL, so the subgraphs are those of the parent.
+pub(super) fn is_field_inaccessible(directives: &[Directive], parent_directives: &[Directive]) -> bool {
     if directives
         .iter()
         .any(|directive| matches!(directive, Directive::Inaccessible))
@@ -12,29 +18,46 @@ pub(super) fn is_inaccessible(directives: &[Directive]) -> bool {
         .iter()
         .any(|d| matches!(d, Directive::CompositeInternal { .. }));
 
-    at_least_one_internal
-        && directives.iter().all(|directive| {
-            let subgraph_id = match directive {
-                Directive::JoinField(join_field_directive) => {
-                    let Some(subgraph_id) = join_field_directive.subgraph_id else {
-                        return true;
-                    };
-
-                    subgraph_id
-                }
-                Directive::JoinType(join_type_directive) => join_type_directive.subgraph_id,
-                _ => return true,
-            };
-
-            directives.iter().any(|directive| {
-                if let Directive::CompositeInternal {
-                    graph: source_schema_id,
-                } = directive
-                {
-                    subgraph_id == *source_schema_id
-                } else {
-                    false
-                }
-            })
+    let is_internal_in = |subgraph_id: SubgraphId| {
+        directives.iter().any(|directive| {
+            if let Directive::CompositeInternal {
+                graph: source_schema_id,
+            } = directive
+            {
+                subgraph_id == *source_schema_id
+            } else {
+                false
+            }
         })
+    };
+
+    let is_joined = directives
+        .iter()
+        .any(|directive| matches!(directive, Directive::JoinField(_) | Directive::JoinType(_)));
+
+    at_least_one_internal
+        && if is_joined { directives } else { parent_directives }
+            .iter()
+            .filter_map(joined_subgraph_id)
+            .filter(|subgraph_id| !is_fully_overridden(directives, *subgraph_id))
+            .all(is_internal_in)
+}
+
+fn joined_subgraph_id(directive: &Directive) -> Option<SubgraphId> {
+    match directive {
+        Directive::JoinField(join_field_directive) => join_field_directive.subgraph_id,
+        Directive::JoinType(join_type_directive) => Some(join_type_directive.subgraph_id),
+        _ => None,
+    }
+}
+
+/// The field of a subgraph that another one overrides completely is not part of the federated SDL.
+fn is_fully_overridden(directives: &[Directive], subgraph_id: SubgraphId) -> bool {
+    directives.iter().any(|directive| match directive {
+        Directive::JoinField(dir) => {
+            matches!(dir.r#override, Some(OverrideSource::Subgraph(id)) if id == subgraph_id)
+                && matches!(dir.override_label, None | Some(OverrideLabel::Percent(100)))
+        }
+        _ => false,
+    })
 }
-- 
2.43.0


From dcb15e1911544f500aeec474bc542fe26edcc564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 77/87] fix: recognise entity interfaces in subgraphs that link
 composite schemas next to federation v2

---
 crates/graphql-composition/src/subgraphs/top.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/subgraphs/top.rs b/crates/graphql-composition/src/subgraphs/top.rs
index 9fc4ed9..0be7eca 100644
--- a/crates/graphql-composition/src/subgraphs/top.rs
+++ b/crates/graphql-composition/src/subgraphs/top.rs
@@ -82,8 +82,8 @@ impl SubgraphId {
 pub(crate) enum FederationSpec {
     /// Apollo Federation V1 is the default because it is what we use when no spec is imported with @link.
     ApolloV1,
-    ApolloV2,
     CompositeSchemas,
+    ApolloV2,
 }
 
 impl FederationSpec {
-- 
2.43.0


From 81b4f359a1817e07bba43663fbc67024f4734949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 78/87] fix: do not render the descriptions of built-in scalars
 without the scalars

---
 .../src/federated_graph/render_sdl/render_federated_sdl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
index a96cd89..c26eba7 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs
@@ -18,14 +18,15 @@ pub fn render_federated_sdl(graph: &FederatedGraph) -> Result<String, fmt::Error
         for scalar in graph.iter_scalar_definitions() {
             let namespace = scalar.namespace.map(|namespace| &graph[namespace]);
             let name = scalar.then(|scalar| scalar.name).as_str();
-            if let Some(description) = scalar.description {
-                Description(&graph[description], "").fmt(f)?;
-            }
 
             if BUILTIN_SCALARS.contains(&name) {
                 continue;
             }
 
+            if let Some(description) = scalar.description {
+                Description(&graph[description], "").fmt(f)?;
+            }
+
             f.write_str("scalar ")?;
 
             if let Some(namespace) = namespace {
-- 
2.43.0


From 9a27a13ae60a02a2b1fcce6398690491c9b4bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 79/87] fix: give extensions whose names are no GraphQL names
 an enum value that can be read back

---
 .../src/emit_federated_graph/emit_extensions.rs      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs b/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
index bfa045e..c35a734 100644
--- a/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
+++ b/crates/graphql-composition/src/emit_federated_graph/emit_extensions.rs
@@ -29,10 +29,16 @@ pub(super) fn emit_extensions(ctx: &mut Context<'_>, ir: &CompositionIr) {
         let extension_name_str = ctx.subgraphs[extension.name].as_ref();
         let mut value = String::with_capacity(extension_name_str.len());
 
+        // Names come from urls and paths, not all of them can be enum values as they are.
+        if extension_name_str.starts_with(|char: char| char.is_ascii_digit()) {
+            value.push('_');
+        }
+
         for char in extension_name_str.chars() {
-            match char {
-                '-' | '.' => value.push('_'),
-                _ => value.push(char.to_ascii_uppercase()),
+            if char.is_ascii_alphanumeric() {
+                value.push(char.to_ascii_uppercase());
+            } else {
+                value.push('_');
             }
         }
 
-- 
2.43.0


From 0121a7c0e98426c9ba5611866e9d38e44de7ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 80/87] fix: refuse subgraph names that cannot be enum values
 of the federated schema

---
 crates/graphql-composition/src/validate/subgraph_names.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/validate/subgraph_names.rs b/crates/graphql-composition/src/validate/subgraph_names.rs
index e5ddf9a..f59bce6 100644
--- a/crates/graphql-composition/src/validate/subgraph_names.rs
+++ b/crates/graphql-composition/src/validate/subgraph_names.rs
@@ -27,8 +27,8 @@ fn validate_name(name: &str, ctx: &mut ValidateContext<'_>) {
         return;
     };
 
-    let first_char_is_ok = first.is_alphabetic();
-    let other_chars_are_ok = chars.all(|char| char == '-' || char.is_alphanumeric());
+    let first_char_is_ok = first.is_ascii_alphabetic();
+    let other_chars_are_ok = chars.all(|char| char == '-' || char.is_ascii_alphanumeric());
 
     if first_char_is_ok && other_chars_are_ok {
         return;
-- 
2.43.0


From 0fa3e1fbfafb859f5d947c512ac1143c79c277bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:33 +0000
Subject: [PATCH 81/87] fix: compose root types with custom names under their
 default names everywhere

A field returning a root type that its subgraph calls by another name, or a
union with it, panicked, or took the type for an unrelated one of that name in
another subgraph.
---
 crates/graphql-composition/src/ingest_subgraph.rs     | 11 ++++++++---
 .../graphql-composition/src/ingest_subgraph/fields.rs |  5 ++++-
 .../src/ingest_subgraph/schema_definitions.rs         | 10 ++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/ingest_subgraph.rs b/crates/graphql-composition/src/ingest_subgraph.rs
index fbead94..333ef0d 100644
--- a/crates/graphql-composition/src/ingest_subgraph.rs
+++ b/crates/graphql-composition/src/ingest_subgraph.rs
@@ -71,9 +71,12 @@ fn ingest_top_level_definitions(ctx: &mut Context<'_>) {
                     ast::TypeDefinition::Union(_) if type_name == ENTITY_UNION_NAME => continue,
 
                     ast::TypeDefinition::Object(_) => {
+                        // Definitions are composed in the order in which their names first appear in the subgraphs.
+                        ctx.subgraphs.strings.intern(type_name);
+
                         let definition_id = ctx.subgraphs.get_or_push_definition(
                             subgraph_id,
-                            type_name,
+                            ctx.root_type_matcher.composed_name(type_name),
                             DefinitionKind::Object,
                             description,
                         );
@@ -163,7 +166,8 @@ fn ingest_definition_bodies(ctx: &mut Context<'_>) {
                 };
 
                 for member in union.members() {
-                    let Some(member_id) = ctx.subgraphs.definition_by_name(member.name(), subgraph_id) else {
+                    let member_name = ctx.root_type_matcher.composed_name(member.name());
+                    let Some(member_id) = ctx.subgraphs.definition_by_name(member_name, subgraph_id) else {
                         ctx.subgraphs.push_ingestion_diagnostic(
                             subgraph_id,
                             format!(
@@ -226,7 +230,8 @@ fn ingest_definition_bodies(ctx: &mut Context<'_>) {
             }
             ast::TypeDefinition::Object(_) if definition.name() == SERVICE_TYPE_NAME => continue,
             ast::TypeDefinition::Object(object_type) => {
-                let Some(definition_id) = ctx.subgraphs.definition_by_name(definition.name(), subgraph_id) else {
+                let object_name = ctx.root_type_matcher.composed_name(definition.name());
+                let Some(definition_id) = ctx.subgraphs.definition_by_name(object_name, subgraph_id) else {
                     ctx.subgraphs.push_ingestion_diagnostic(
                         subgraph_id,
                         format!(
diff --git a/crates/graphql-composition/src/ingest_subgraph/fields.rs b/crates/graphql-composition/src/ingest_subgraph/fields.rs
index 920168c..18366ae 100644
--- a/crates/graphql-composition/src/ingest_subgraph/fields.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/fields.rs
@@ -95,7 +95,10 @@ pub(super) fn ingest_fields(
             .description()
             .map(|description| ctx.subgraphs.strings.intern(description.to_cow()));
 
-        let field_type = ctx.subgraphs.intern_field_type(field.ty());
+        let field_type = subgraphs::FieldType {
+            definition_name_id: (ctx.subgraphs.strings).intern(ctx.root_type_matcher.composed_name(field.ty().name())),
+            ..ctx.subgraphs.intern_field_type(field.ty())
+        };
         let directives = ctx.subgraphs.new_directive_site();
         let field_name_id = ctx.subgraphs.strings.intern(field_name);
 
diff --git a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
index 3fb3921..895574b 100644
--- a/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
+++ b/crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs
@@ -172,6 +172,16 @@ impl RootTypeMatcher<'_> {
         matches!(self.match_name(name), RootTypeMatch::Query)
     }
 
+    /// The name of an object type in the composed graph: root types are always composed under their default names.
+    pub(crate) fn composed_name<'n>(&self, name: &'n str) -> &'n str {
+        match self.match_name(name) {
+            RootTypeMatch::Query => "Query",
+            RootTypeMatch::Mutation => "Mutation",
+            RootTypeMatch::Subscription => "Subscription",
+            RootTypeMatch::NotRootButHasDefaultRootName | RootTypeMatch::NotRoot => name,
+        }
+    }
+
     pub(crate) fn match_name(&self, name: &str) -> RootTypeMatch {
         for (name_from_definition, default_name, match_case) in [
             (self.query, "Query", RootTypeMatch::Query),
-- 
2.43.0


From a6e4c87e9214b714188e50e1bed2979d0b9bea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:33 +0000
Subject: [PATCH 82/87] fix: refuse types with the names of root types that are
 not objects

An interface, enum or other type called Query next to the query root of another
subgraph was rendered beside it, in a federated schema that cannot be read.
---
 crates/graphql-composition/src/ingest_subgraph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/graphql-composition/src/ingest_subgraph.rs b/crates/graphql-composition/src/ingest_subgraph.rs
index 333ef0d..b7b0208 100644
--- a/crates/graphql-composition/src/ingest_subgraph.rs
+++ b/crates/graphql-composition/src/ingest_subgraph.rs
@@ -66,6 +66,15 @@ fn ingest_top_level_definitions(ctx: &mut Context<'_>) {
                     .description()
                     .map(|description| ctx.subgraphs.strings.intern(description.to_cow()));
 
+                if !matches!(type_definition, ast::TypeDefinition::Object(_))
+                    && !matches!(ctx.root_type_matcher.match_name(type_name), RootTypeMatch::NotRoot)
+                {
+                    ctx.subgraphs.push_ingestion_diagnostic(
+                        subgraph_id,
+                        format!("The {type_name} type has the name of a root type but is not an object. This is not valid in a federation context."),
+                    );
+                }
+
                 let definition_id = match type_definition {
                     ast::TypeDefinition::Object(_) if type_name == SERVICE_TYPE_NAME => continue,
                     ast::TypeDefinition::Union(_) if type_name == ENTITY_UNION_NAME => continue,
-- 
2.43.0


From 8656d17b4f48a35dc90ce5aefe1cf11a250a22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:53 +0000
Subject: [PATCH 83/87] hook: reach the values exchanged with the host, under
 cfg(verification)

---
 crates/grafbase-sdk/src/lib.rs          |  5 +++
 crates/grafbase-sdk/src/verification.rs | 43 +++++++++++++++++++++++++
 2 files changed, 48 insertions(+)
 create mode 100644 crates/grafbase-sdk/src/verification.rs

diff --git a/crates/grafbase-sdk/src/lib.rs b/crates/grafbase-sdk/src/lib.rs
index 2a9d9fa..fb98554 100644
--- a/crates/grafbase-sdk/src/lib.rs
+++ b/crates/grafbase-sdk/src/lib.rs
@@ -2,6 +2,8 @@
 #![doc = "# Features"]
 #![doc = document_features::document_features!()]
 #![deny(missing_docs, unused_crate_dependencies)]
+// cfg(verification): see the module
+#![allow(unexpected_cfgs)]
 
 mod cbor;
 mod component;
@@ -13,6 +15,9 @@ pub mod jq_selection;
 #[cfg(feature = "test-utils")]
 pub mod test;
 pub mod types;
+#[cfg(verification)]
+#[doc(hidden)]
+pub mod verification;
 mod wit;
 
 pub use component::SdkError;
diff --git a/crates/grafbase-sdk/src/verification.rs b/crates/grafbase-sdk/src/verification.rs
new file mode 100644
index 0000000..4526f09
--- /dev/null
+++ b/crates/grafbase-sdk/src/verification.rs
@@ -0,0 +1,43 @@
+//! Access to the values the host exchanges with an extension, so that what the SDK makes of them can be checked
+//! natively. Not part of the API.
+
+use crate::types;
+pub use crate::wit::grafbase::sdk as wit;
+
+/// The schema of a subgraph, as an extension is given it.
+pub fn subgraph_schema(name: String, schema: wit::schema::Schema) -> types::SubgraphSchema {
+    types::SubgraphSchema((name, schema).into())
+}
+
+/// Alias, definition, arguments and, of the selection set, `requires_typename` and the range of its fields.
+pub type Field = (Option<String>, u32, Option<u16>, Option<(bool, (u16, u16))>);
+
+/// A field to resolve, as an extension is given it.
+pub fn resolved_field<'a>(
+    subgraph_name: &'a str,
+    directive_name: &'a str,
+    directive_arguments: &'a [u8],
+    fields: Vec<Field>,
+    root_field_ix: usize,
+) -> types::ResolvedField<'a> {
+    types::ResolvedField {
+        subgraph_name,
+        directive_name,
+        directive_arguments,
+        fields: fields
+            .into_iter()
+            .map(|(alias, definition_id, arguments, selection_set)| crate::wit::Field {
+                alias,
+                definition_id,
+                arguments,
+                selection_set: selection_set.map(|(requires_typename, fields_ordered_by_parent_entity)| {
+                    crate::wit::SelectionSet {
+                        requires_typename,
+                        fields_ordered_by_parent_entity,
+                    }
+                }),
+            })
+            .collect(),
+        root_field_ix,
+    }
+}
-- 
2.43.0


From 850b9ee85bc83e89c56e8927959e4a7987df0dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:16 +0000
Subject: [PATCH 84/87] fix: find compiled jq filters again instead of
 compiling and keeping them on every selection

The cache was looked up with a hash builder made for each call. Every default
hash builder has a seed of its own, so an entry was only ever found by chance,
and the filters and the arena grew with every selection.
---
 crates/grafbase-sdk/src/jq_selection.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/grafbase-sdk/src/jq_selection.rs b/crates/grafbase-sdk/src/jq_selection.rs
index a0d83b6..0ed8a7d 100644
--- a/crates/grafbase-sdk/src/jq_selection.rs
+++ b/crates/grafbase-sdk/src/jq_selection.rs
@@ -51,6 +51,8 @@ pub struct JqSelection {
     // ┬┴┬┴┤
     selection_cache: HashTable<(String, usize)>,
     filters: Vec<Filter<Native<Val>>>,
+    // One for all selections: every default hash builder has a seed of its own.
+    hash_builder: DefaultHashBuilder,
 }
 
 impl Default for JqSelection {
@@ -60,6 +62,7 @@ impl Default for JqSelection {
             inputs: RcIter::new(core::iter::empty()),
             selection_cache: HashTable::new(),
             filters: Vec::new(),
+            hash_builder: DefaultHashBuilder::default(),
         }
     }
 }
@@ -82,9 +85,8 @@ impl JqSelection {
         selection: &str,
         data: serde_json::Value,
     ) -> Result<impl Iterator<Item = Result<serde_json::Value, SdkError>> + '_, SdkError> {
-        let hasher = DefaultHashBuilder::default();
-        let hash = hasher.hash_one(selection);
-        let hasher = |val: &(String, usize)| hasher.hash_one(&val.0);
+        let hash = self.hash_builder.hash_one(selection);
+        let hasher = |val: &(String, usize)| self.hash_builder.hash_one(&val.0);
 
         let idx = match self
             .selection_cache
-- 
2.43.0


From 85447cde991cb0ed72014b8005aa4848b537c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:19 +0000
Subject: [PATCH 85/87] fix: cut long texts of log records between characters

A message or field longer than its limit, with a multi-byte character across
the limit, panicked in the code that logs.
---
 crates/telemetry/src/otel/logs/bridge.rs | 28 ++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/telemetry/src/otel/logs/bridge.rs b/crates/telemetry/src/otel/logs/bridge.rs
index e3b9e00..47d13d0 100644
--- a/crates/telemetry/src/otel/logs/bridge.rs
+++ b/crates/telemetry/src/otel/logs/bridge.rs
@@ -123,12 +123,7 @@ where
 
         // Set the log body (message) with size limit
         let message = visitor.message.unwrap_or_else(|| metadata.name().to_string());
-        let truncated_message = if message.len() > MAX_MESSAGE_SIZE {
-            format!("{}...[truncated]", &message[..MAX_MESSAGE_SIZE])
-        } else {
-            message
-        };
-        log_record.set_body(AnyValue::from(truncated_message));
+        log_record.set_body(AnyValue::from(truncate_string(message, MAX_MESSAGE_SIZE)));
 
         // Add metadata using semantic conventions
         if let Some(module_path) = metadata.module_path() {
@@ -200,14 +195,25 @@ impl LogRecordVisitor {
     }
 
     fn truncate_string(s: String) -> String {
-        if s.len() > MAX_FIELD_VALUE_SIZE {
-            format!("{}...[truncated]", &s[..MAX_FIELD_VALUE_SIZE])
-        } else {
-            s
-        }
+        truncate_string(s, MAX_FIELD_VALUE_SIZE)
     }
 }
 
+/// Cuts a text that is longer than the limit at the last character boundary within it.
+fn truncate_string(s: String, limit: usize) -> String {
+    if s.len() <= limit {
+        return s;
+    }
+
+    let mut end = limit;
+
+    while !s.is_char_boundary(end) {
+        end -= 1;
+    }
+
+    format!("{}...[truncated]", &s[..end])
+}
+
 impl Visit for LogRecordVisitor {
     fn record_debug(&mut self, field: &Field, value: &dyn std::fmt::Debug) {
         let field_name = field.name();
-- 
2.43.0


From 1fa02c6fab42a336a7cca59178db93c283cddeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:19 +0000
Subject: [PATCH 86/87] fix: give the message of a log record its own size
 limit

It was cut at the limit of fields before the one of messages could apply.
---
 crates/telemetry/src/otel/logs/bridge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/telemetry/src/otel/logs/bridge.rs b/crates/telemetry/src/otel/logs/bridge.rs
index 47d13d0..8f2ab91 100644
--- a/crates/telemetry/src/otel/logs/bridge.rs
+++ b/crates/telemetry/src/otel/logs/bridge.rs
@@ -220,7 +220,7 @@ impl Visit for LogRecordVisitor {
         let formatted_value = format!("{:?}", value);
 
         if field_name == "message" {
-            self.message = Some(Self::truncate_string(formatted_value));
+            self.message = Some(formatted_value);
         } else {
             self.add_field(
                 field_name.to_string(),
@@ -233,7 +233,7 @@ impl Visit for LogRecordVisitor {
         let field_name = field.name();
 
         if field_name == "message" {
-            self.message = Some(Self::truncate_string(value.to_string()));
+            self.message = Some(value.to_string());
         } else {
             self.add_field(
                 field_name.to_string(),
-- 
2.43.0


From 1c98a5b35593fab92b82e3cb18819e65a2ddb583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:19 +0000
Subject: [PATCH 87/87] fix: apply the configured limits of links and of
 attributes of events and links

Only the limits of events and attributes of spans were.
---
 crates/telemetry/src/otel/traces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/telemetry/src/otel/traces.rs b/crates/telemetry/src/otel/traces.rs
index 624abc3..7839e47 100644
--- a/crates/telemetry/src/otel/traces.rs
+++ b/crates/telemetry/src/otel/traces.rs
@@ -34,7 +34,9 @@ where
     builder = builder
         .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
         .with_max_attributes_per_span(config.tracing.collect.max_attributes_per_span as u32)
-        .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
+        .with_max_links_per_span(config.tracing.collect.max_links_per_span as u32)
+        .with_max_attributes_per_event(config.tracing.collect.max_attributes_per_event as u32)
+        .with_max_attributes_per_link(config.tracing.collect.max_attributes_per_link as u32)
         .with_resource(resource);
 
     Ok(setup_exporters(builder, config)?.build())
-- 
2.43.0

