From 96fd2210fcd843306b3e60542e7245088f56e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 01/39] fix: a later UNIT or ENTRY_CODE instruction overrides
 the earlier one

---
 semantics/oca-bundle/src/state/attribute.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 33ab18c..f56f658 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -102,17 +102,17 @@ impl Attribute {
                 self.format.clone_from(&other.format);
             }
 
-            if self.unit.is_none() {
+            if other.unit.is_some() {
                 self.unit.clone_from(&other.unit);
             }
 
-            if self.entry_codes.is_none() {
+            if other.entry_codes.is_some() {
                 self.entry_codes.clone_from(&other.entry_codes);
             }
 
             self.merge_entries(other);
 
-            if self.entry_codes_mapping.is_none() {
+            if other.entry_codes_mapping.is_some() {
                 self.entry_codes_mapping
                     .clone_from(&other.entry_codes_mapping);
             }
-- 
2.43.0


From 03aeceb384ef7f7ff4cce617023ae9d778e87675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 02/39] fix: serialise entry code groups in the order they load
 back in

---
 semantics/oca-bundle/src/state/entry_codes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/entry_codes.rs b/semantics/oca-bundle/src/state/entry_codes.rs
index 9a1bddc..aa88572 100644
--- a/semantics/oca-bundle/src/state/entry_codes.rs
+++ b/semantics/oca-bundle/src/state/entry_codes.rs
@@ -22,7 +22,7 @@ impl Serialize for EntryCodes {
             }
             Self::Object(codes) => {
                 let mut map = serializer.serialize_map(Some(codes.len()))?;
-                let sorted_codes: IndexMap<_, _> = codes.iter().collect();
+                let sorted_codes: std::collections::BTreeMap<_, _> = codes.iter().collect();
                 for (k, v) in sorted_codes {
                     map.serialize_entry(k, v)?;
                 }
-- 
2.43.0


From 304faa7230556b9c619df3beef7ab357ba1b4a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 03/39] fix: a malformed overlay is a loading error instead of
 a panic

---
 semantics/oca-bundle/src/state/oca.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 241336f..40d7c43 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -642,10 +642,14 @@ where
             while let Some((_, value)) = map.next_entry::<String, serde_value::Value>()? {
                 if let serde_value::Value::Seq(ov) = value {
                     for o in ov {
-                        overlays.push(o.deserialize_into().unwrap());
+                        overlays.push(o.deserialize_into().map_err(serde::de::Error::custom)?);
                     }
                 } else if let serde_value::Value::Map(_) = value {
-                    overlays.push(value.deserialize_into().unwrap());
+                    overlays.push(
+                        value
+                            .deserialize_into()
+                            .map_err(serde::de::Error::custom)?,
+                    );
                 }
             }
 
-- 
2.43.0


From 7d7b23594a40b9f0311618e5be87a1c338c83e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 04/39] fix: an empty array is not an attribute type, and not a
 panic

---
 semantics/oca-ast/src/ast/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/ast/attributes.rs b/semantics/oca-ast/src/ast/attributes.rs
index ae49b7c..57341ec 100644
--- a/semantics/oca-ast/src/ast/attributes.rs
+++ b/semantics/oca-ast/src/ast/attributes.rs
@@ -94,7 +94,9 @@ impl<'de> Deserialize<'de> for NestedAttrType {
                     }
                 }
             },
-            serde_json::Value::Array(arr) => NestedAttrTypeFrame::Array(arr[0].clone()).into(),
+            serde_json::Value::Array(arr) if !arr.is_empty() => {
+                NestedAttrTypeFrame::Array(arr[0].clone()).into()
+            }
             value => {
                 AttributeError::ConvertingFailure(serde_json::to_string(&value).unwrap()).into()
             }
-- 
2.43.0


From 895cdfb95ffd57be08a6ea363225947cc86864ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 05/39] fix: an unknown or missing language is an error instead
 of a panic

---
 semantics/oca-bundle/src/build.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index b6e5ea5..2fc32ec 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -120,6 +120,14 @@ pub fn from_ast(
     }
 }
 
+fn parse_language(lang: &str) -> Result<isolang::Language, Vec<String>> {
+    isolang::Language::from_639_1(lang).ok_or_else(|| vec![format!("Unknown language: {lang}")])
+}
+
+fn require_language(lang: Option<isolang::Language>) -> Result<isolang::Language, Vec<String>> {
+    lang.ok_or_else(|| vec!["Undefined language".to_string()])
+}
+
 pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, Vec<String>> {
     let mut errors = vec![];
     let mut oca: OCABox = match base {
@@ -161,12 +169,12 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let lang = mut_properties.remove("lang");
                         let mut lang_iso = None;
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
+                            lang_iso = Some(parse_language(&lang_str)?);
                         }
 
                         for (prop_name, prop_value) in mut_properties {
                             if let ast::NestedValue::Value(value) = prop_value {
-                                oca.add_meta(lang_iso.unwrap(), prop_name.clone(), value.clone());
+                                oca.add_meta(require_language(lang_iso)?, prop_name.clone(), value.clone());
                             }
                         }
                     }
@@ -177,7 +185,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let mut mut_properties = properties.clone();
                         let lang = mut_properties.remove("lang");
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
+                            lang_iso = Some(parse_language(&lang_str)?);
                         }
                     }
                     if let Some(ref attributes) = content.attributes {
@@ -191,7 +199,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_label) = attr_type_value {
-                                attribute.set_label(lang_iso.unwrap(), attr_label.clone());
+                                attribute.set_label(require_language(lang_iso)?, attr_label.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -203,7 +211,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let mut mut_properties = properties.clone();
                         let lang = mut_properties.remove("lang");
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
+                            lang_iso = Some(parse_language(&lang_str)?);
                         }
                     }
                     if let Some(ref attributes) = content.attributes {
@@ -217,7 +225,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_info) = attr_type_value {
-                                attribute.set_information(lang_iso.unwrap(), attr_info.clone());
+                                attribute.set_information(require_language(lang_iso)?, attr_info.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -405,7 +413,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let mut mut_properties = properties.clone();
                         let lang = mut_properties.remove("lang");
                         if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
+                            lang_iso = Some(parse_language(&lang_str)?);
                         }
                     }
                     if let Some(ref attributes) = content.attributes {
@@ -421,7 +429,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             match attr_type_value {
                                 ast::NestedValue::Value(attr_entries) => {
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        require_language(lang_iso)?,
                                         EntriesElement::Sai(attr_entries.clone()),
                                     );
                                 }
@@ -438,7 +446,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        require_language(lang_iso)?,
                                         EntriesElement::Object(entries),
                                     );
                                 }
-- 
2.43.0


From ce7e3c01c80bad3021f9a29aa190ce13c9775120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 06/39] fix: LINK without target and ATTR_FRAMING without id
 are errors instead of panics

---
 semantics/oca-bundle/src/build.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 2fc32ec..a8ffa55 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -465,9 +465,13 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             target_bundle = Some(target_said.to_string());
                         }
                     }
-                    if target_bundle.is_none() {
-                        errors.push("Undefined target bundle".to_string());
-                    }
+                    let target_bundle = match target_bundle {
+                        Some(target_bundle) => target_bundle,
+                        None => {
+                            errors.push("Undefined target bundle".to_string());
+                            return Err(errors);
+                        }
+                    };
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
@@ -481,7 +485,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 .clone();
                             if let ast::NestedValue::Value(linked_attr) = attr_type_value {
                                 attribute
-                                    .set_link(target_bundle.clone().unwrap(), linked_attr.clone());
+                                    .set_link(target_bundle.clone(), linked_attr.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -502,9 +506,13 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             }
                         }
                     }
-                    if frame_id.is_none() {
-                        errors.push("Undefined frame id".to_string());
-                    }
+                    let frame_id = match frame_id {
+                        Some(frame_id) => frame_id,
+                        None => {
+                            errors.push("Undefined frame id".to_string());
+                            return Err(errors);
+                        }
+                    };
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
@@ -538,7 +546,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                 }
-                                attribute.set_framing(frame_id.clone().unwrap(), framing.clone());
+                                attribute.set_framing(frame_id.clone(), framing.clone());
                             }
                             oca.add_attribute(attribute);
                         }
-- 
2.43.0


From e500333b4e8c6868d7b8ad42e708166330b7529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 07/39] fix: unsupported commands and empty command lists are
 errors instead of panics

---
 semantics/oca-bundle/src/build.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index a8ffa55..83d5950 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -110,13 +110,17 @@ pub fn from_ast(
             }
         }
     }
-    if errors.is_empty() {
-        Ok(OCABuild {
-            oca_bundle: base.unwrap().generate_bundle(),
+    match base {
+        Some(mut oca_box) if errors.is_empty() => Ok(OCABuild {
+            oca_bundle: oca_box.generate_bundle(),
             steps,
-        })
-    } else {
-        Err(errors)
+        }),
+        None if errors.is_empty() => Err(vec![Error::FromASTError {
+            line_number: default_command_meta.line_number,
+            raw_line: default_command_meta.raw_line,
+            message: "There is no command to apply".to_string(),
+        }]),
+        _ => Err(errors),
     }
 }
 
@@ -555,7 +559,6 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 _ => (),
             }
         }
-        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => todo!(),
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
@@ -570,11 +573,12 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 }
             }
         }
-        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::CaptureBase(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::Overlay(_, _)) => todo!(),
+        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_))
+        | (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_))
+        | (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _))
+        | (ast::CommandType::Modify, _) => {
+            errors.push("Unsupported command".to_string());
+        }
     }
 
     if errors.is_empty() {
-- 
2.43.0


From 7246bf4955402caf74bfd00e800dadb52dbc38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 08/39] fix: FLAGGED_ATTRIBUTES reach the capture base and the
 exported OCAfile

---
 semantics/oca-bundle/src/build.rs             |  8 +++++
 semantics/oca-bundle/src/state/attribute.rs   |  2 ++
 semantics/oca-bundle/src/state/oca.rs         |  5 +++-
 .../src/ocafile/instructions/helpers.rs       | 10 ++++++-
 semantics/oca-file/src/ocafile/mod.rs         | 30 ++++++++++++++-----
 5 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 83d5950..1b47900 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -154,6 +154,14 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     oca.add_attribute(attribute);
                 }
             }
+            if let Some(ref flagged_attributes) = content.flagged_attributes {
+                for attr_name in flagged_attributes {
+                    match oca.attributes.get_mut(attr_name) {
+                        Some(attribute) => attribute.set_flagged(),
+                        None => errors.push(format!("Undefined attribute: {attr_name}")),
+                    }
+                }
+            }
             if let Some(ref properties) = content.properties {
                 // TODO handle other properties
                 for (prop_name, prop_value) in properties {
diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index f56f658..3f4b461 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -85,6 +85,8 @@ impl Attribute {
                 self.attribute_type.clone_from(&other.attribute_type);
             }
 
+            self.is_flagged |= other.is_flagged;
+
             self.merge_labels(other);
             self.merge_information(other);
             self.merge_category_labels(other);
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 40d7c43..cacd55e 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -955,7 +955,10 @@ impl OCABundle {
                 // TODO find out if we can use indexmap in capture base to simplify stuff
                 attributes: Some(self.capture_base.attributes.clone().into_iter().collect()),
                 properties,
-                flagged_attributes: None,
+                flagged_attributes: match &self.capture_base.flagged_attributes {
+                    flagged if flagged.is_empty() => None,
+                    flagged => Some(flagged.clone()),
+                },
             }),
         };
         ast.commands.push(command);
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index 7188edc..0e2a48f 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -482,7 +482,15 @@ pub(crate) fn extract_flagged_attrs(object: pest::iterators::Pair<'_, Rule>) ->
     for attr in object.into_inner() {
         match attr.as_rule() {
             Rule::list_value => {
-                flagged_attrs.push(attr.as_str().to_string());
+                for item in attr.into_inner() {
+                    let name = match item.clone().into_inner().next() {
+                        Some(string) if string.as_rule() == Rule::string => {
+                            string.into_inner().next_back().unwrap().as_str()
+                        }
+                        _ => item.as_str(),
+                    };
+                    flagged_attrs.push(name.to_string());
+                }
             }
             _ => {
                 debug!(
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 027bdf8..34e4fbf 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -167,24 +167,40 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                 line.push_str("ADD ");
                 match &command.object_kind {
                     ast::ObjectKind::CaptureBase(content) => {
+                        let mut instructions = vec![];
                         if let Some(attributes) = &content.attributes {
-                            line.push_str("ATTRIBUTE");
-                            for (key, value) in attributes {
-                                line.push_str(&format!(" {}=", key));
-                                // TODO avoid clone
-                                let out = oca_file_format(value.clone());
-                                line.push_str(&out);
+                            if !attributes.is_empty() {
+                                let mut instruction = String::from("ATTRIBUTE");
+                                for (key, value) in attributes {
+                                    instruction.push_str(&format!(" {}=", key));
+                                    // TODO avoid clone
+                                    let out = oca_file_format(value.clone());
+                                    instruction.push_str(&out);
+                                }
+                                instructions.push(instruction);
                             }
                         }
                         if let Some(properties) = &content.properties {
                             for (prop_name, prop_value) in properties {
                                 if prop_name.eq("classification") {
                                     if let ast::NestedValue::Value(value) = prop_value {
-                                        line.push_str(format!("CLASSIFICATION {}", value).as_str());
+                                        instructions.push(format!("CLASSIFICATION {}", value));
                                     }
                                 }
                             }
                         }
+                        if let Some(flagged_attributes) = &content.flagged_attributes {
+                            if !flagged_attributes.is_empty() {
+                                instructions.push(format!(
+                                    "FLAGGED_ATTRIBUTES {}",
+                                    flagged_attributes.join(" ")
+                                ));
+                            }
+                        }
+                        if instructions.is_empty() {
+                            return;
+                        }
+                        line.push_str(&instructions.join("\nADD "));
                     }
                     ast::ObjectKind::Overlay(o_type, _) => match o_type {
                         ast::OverlayType::Meta(_) => {
-- 
2.43.0


From 62eda37dfd9d2389c2a89cf99fd54d52cdfeacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 09/39] fix: values with double quotes are printed in single
 quotes

---
 semantics/oca-file/src/ocafile/mod.rs | 61 ++++++++++++++++++---------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 34e4fbf..0a19a87 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -149,6 +149,28 @@ fn oca_file_format(nested: NestedAttrType) -> String {
     })
 }
 
+// Put a value in the quotes from which it is read back unchanged. Only a value which was written
+// without quotes can fit in neither kind, so it is written without quotes again.
+fn quoted(value: &str) -> String {
+    let fits = |quote: char| {
+        let mut escaped = false;
+        for c in value.chars() {
+            if c == '\u{0000}' || c == '\u{001F}' || (c == quote && !escaped) {
+                return false;
+            }
+            escaped = c == '\\' && !escaped;
+        }
+        !escaped
+    };
+    if fits('"') {
+        format!("\"{}\"", value)
+    } else if fits('\'') {
+        format!("'{}'", value)
+    } else {
+        value.to_string()
+    }
+}
+
 /// Generate OCA file from AST
 ///
 /// # Arguments
@@ -218,7 +240,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -234,7 +256,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -264,7 +286,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quoted(value))
                                                     } else {
                                                         None
                                                     }
@@ -282,14 +304,14 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quoted(value))
                                                     } else {
                                                         None
                                                     }
                                                 })
                                                 .collect::<Vec<String>>()
                                                 .join(", ");
-                                                    Some(format!("\"{}\": [{}]", group, codes))
+                                                    Some(format!("{}: [{}]", quoted(group), codes))
                                                     } else {
                                                         None
                                                     }
@@ -299,7 +321,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                             line.push_str(format!(" {}={{{}}}", key, group_codes).as_str());
                                         } else if let ast::NestedValue::Value(said) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, said).as_str(),
+                                                format!(" {}={}", key, quoted(said)).as_str(),
                                             );
                                         }
                                     });
@@ -339,8 +361,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                             label
                                                         {
                                                             Some(format!(
-                                                                "\"{}\": \"{}\"",
-                                                                code, label
+                                                                "{}: {}",
+                                                                quoted(code),
+                                                                quoted(label)
                                                             ))
                                                         } else {
                                                             None
@@ -353,7 +376,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 );
                                             } else if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -381,7 +404,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -404,7 +427,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -418,7 +441,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     for (prop_name, prop_value) in properties {
                                         let key = prop_name.replace("frame_", "");
                                         if let ast::NestedValue::Value(value) = prop_value {
-                                            line.push_str(format!("        {}=\"{}\" \\\n", key, value).as_str());
+                                            line.push_str(format!("        {}={} \\\n", key, quoted(value)).as_str());
                                         }
                                     }
                                 }
@@ -431,8 +454,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 let mut frame_str = "\n            ".to_string();
                                                 frame_str.push_str(
                                                     format!(
-                                                        "\"{}\": {{",
-                                                        f_key
+                                                        "{}: {{",
+                                                        quoted(f_key)
                                                     ).as_str()
                                                 );
 
@@ -441,9 +464,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                         if let ast::NestedValue::Value(frame_value) = frame_value {
                                                             frame_str.push_str(
                                                                 format!(
-                                                                    "\n                \"{}\": \"{}\",",
-                                                                    frame_key,
-                                                                    frame_value
+                                                                    "\n                {}: {},",
+                                                                    quoted(frame_key),
+                                                                    quoted(frame_value)
                                                                 ).as_str()
                                                             );
                                                         }
@@ -482,7 +505,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -493,7 +516,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
-- 
2.43.0


From 035accdd83fd7b89f3a60553ae63a2749f3b32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 10/39] fix: a quoted classification is the text between the
 quotes

---
 semantics/oca-file/src/ocafile/instructions/add.rs | 8 +++++++-
 semantics/oca-file/src/ocafile/mod.rs              | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/instructions/add.rs b/semantics/oca-file/src/ocafile/instructions/add.rs
index b08fdf9..cb7c8e8 100644
--- a/semantics/oca-file/src/ocafile/instructions/add.rs
+++ b/semantics/oca-file/src/ocafile/instructions/add.rs
@@ -56,9 +56,15 @@ impl AddInstruction {
                     let mut properties: IndexMap<String, NestedValue> = IndexMap::new();
                     let classification = object.into_inner().next().unwrap();
                     print!("Classification: {:?}", classification.as_rule());
+                    let value = match classification.clone().into_inner().next() {
+                        Some(string) if string.as_rule() == Rule::string => {
+                            string.into_inner().next_back().unwrap().as_str()
+                        }
+                        _ => classification.as_str(),
+                    };
                     properties.insert(
                         "classification".to_string(),
-                        NestedValue::Value(classification.as_str().to_string()),
+                        NestedValue::Value(value.to_string()),
                     );
                     object_kind = Some(ObjectKind::CaptureBase(CaptureContent {
                         properties: Some(properties),
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 0a19a87..eec8faf 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -206,7 +206,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             for (prop_name, prop_value) in properties {
                                 if prop_name.eq("classification") {
                                     if let ast::NestedValue::Value(value) = prop_value {
-                                        instructions.push(format!("CLASSIFICATION {}", value));
+                                        instructions.push(format!("CLASSIFICATION {}", quoted(value)));
                                     }
                                 }
                             }
-- 
2.43.0


From 50e0957d57c80bb141717d4fa08638f42bb1d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 11/39] fix: FROM, REMOVE and named references can be printed
 as OCAfile text

---
 .../src/ocafile/instructions/remove.rs        |  7 ++++
 semantics/oca-file/src/ocafile/mod.rs         | 33 +++++++++++++++----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/instructions/remove.rs b/semantics/oca-file/src/ocafile/instructions/remove.rs
index 8373d41..c23ea5c 100644
--- a/semantics/oca-file/src/ocafile/instructions/remove.rs
+++ b/semantics/oca-file/src/ocafile/instructions/remove.rs
@@ -87,6 +87,12 @@ fn extract_properties_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
+            Rule::lang => {
+                properties.insert(
+                    "lang".to_string(),
+                    NestedValue::Value(attr_pairs.as_str().to_string()),
+                );
+            }
             _ => {
                 return properties;
             }
@@ -107,6 +113,7 @@ fn extract_attribute_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
+            Rule::lang => continue,
             _ => {
                 return attributes;
             }
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index eec8faf..5afd606 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -130,7 +130,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 fn format_reference(ref_value: RefValue) -> String {
     match ref_value {
         RefValue::Said(said) => format!("refs:{}", said),
-        _ => panic!("Unsupported reference type: {:?}", ref_value),
+        RefValue::Name(name) => format!("refn:{}", name),
     }
 }
 
@@ -416,9 +416,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             if let Some(content) = command.object_kind.overlay_content() {
                                 if let Some(ref properties) = content.properties {
                                     let target = properties.get("target");
-                                    if let Some(ast::NestedValue::Reference(RefValue::Said(target_said))) = target {
+                                    if let Some(ast::NestedValue::Reference(target)) = target {
                                         line.push_str(
-                                            format!("refs:{} ", target_said).as_str(),
+                                            format!("{} ", format_reference(target.clone())).as_str(),
                                         );
                                     }
                                 }
@@ -511,7 +511,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         });
                                     }
                                 }
-                                if let Some(ref attributes) = content.attributes {
+                                let attributes = content.attributes.as_ref();
+                                if let Some(attributes) = attributes.filter(|a| !a.is_empty()) {
                                     line.push_str("ATTRS");
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
@@ -544,15 +545,33 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                         }
                     }
                 }
-                ast::ObjectKind::Overlay(_o_type, _) => {
-                    todo!()
+                ast::ObjectKind::Overlay(o_type, content) => {
+                    line.push_str("REMOVE ");
+                    line.push_str(&o_type.to_string().to_case(Case::UpperSnake));
+                    let properties = content.properties.iter().flatten();
+                    if let Some((_, ast::NestedValue::Value(lang))) =
+                        properties.clone().find(|(name, _)| *name == "lang")
+                    {
+                        line.push_str(&format!(" {}", lang));
+                    }
+                    let names = properties.map(|(name, _)| name).filter(|name| *name != "lang");
+                    names.for_each(|name| line.push_str(&format!(" PROPS {}", name)));
+                    let attributes = content.attributes.iter().flatten();
+                    attributes.for_each(|(name, _)| line.push_str(&format!(" ATTRS {}", name)));
                 }
                 _ => {}
             },
             ast::CommandType::From => {
                 line.push_str("FROM ");
+                if let ast::ObjectKind::OCABundle(content) = &command.object_kind {
+                    let ast::ReferenceAttrType::Reference(reference) = &content.said;
+                    match reference {
+                        RefValue::Said(said) => line.push_str(&said.to_string()),
+                        RefValue::Name(name) => line.push_str(name),
+                    }
+                }
             }
-            ast::CommandType::Modify => todo!(),
+            ast::CommandType::Modify => line.push_str("MODIFY "),
         }
 
         ocafile.push_str(format!("{}\n", line).as_str());
-- 
2.43.0


From 63a64da47ccc2b748bb07ae8badac88b305225e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 12/39] fix: the metadata of a frame does not depend on map
 iteration order

---
 semantics/oca-bundle/src/build.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 1b47900..cfef4eb 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -525,6 +525,16 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             return Err(errors);
                         }
                     };
+                    // metadata belongs to the frame, so everything described with it shares it
+                    let mut shared_meta = oca
+                        .attributes
+                        .values()
+                        .filter_map(|attribute| attribute.framings.as_ref()?.get(&frame_id))
+                        .find_map(|framing| framing.values().next())
+                        .map(|scope| scope.frame_meta.clone())
+                        .unwrap_or_default();
+                    shared_meta.extend(frame_meta);
+                    let frame_meta = shared_meta;
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
@@ -563,6 +573,15 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             oca.add_attribute(attribute);
                         }
                     }
+                    for attribute in oca.attributes.values_mut() {
+                        if let Some(framings) = &mut attribute.framings {
+                            if let Some(framing) = framings.get_mut(&frame_id) {
+                                for scope in framing.values_mut() {
+                                    scope.frame_meta.clone_from(&frame_meta);
+                                }
+                            }
+                        }
+                    }
                 }
                 _ => (),
             }
-- 
2.43.0


From 3eab3738a50f2d591f0048d2f39bfe408249b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 13/39] fix: LINK and ATTR_FRAMING overlays are exported with
 the other overlays

---
 semantics/oca-bundle/src/state/oca.rs | 68 +++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index cacd55e..901a456 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -28,6 +28,7 @@ use convert_case::{Case, Casing};
 use isolang::Language;
 use oca_ast_semantics::ast::{
     CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
+    RefValue,
 };
 /// Internal representation of OCA objects in split between non-attributes values and attributes.
 /// It is used to build dynamically objects without knowing yet whole structure of the object.
@@ -1294,6 +1295,73 @@ impl OCABundle {
                     };
                     ast.commands.push(command);
                 }
+                OverlayType::Link(_) => {
+                    let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
+                    let mut properties = IndexMap::new();
+                    if let Ok(target) = link.target_bundle.parse() {
+                        properties.insert(
+                            "target".to_string(),
+                            NestedValue::Reference(RefValue::Said(target)),
+                        );
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, linked_attr) in link.attribute_mapping.iter() {
+                        attributes
+                            .insert(attr_name.clone(), NestedValue::Value(linked_attr.clone()));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
+                OverlayType::AttributeFraming(_) => {
+                    let framing = overlay
+                        .as_any()
+                        .downcast_ref::<overlay::AttributeFraming>()
+                        .unwrap();
+                    let mut properties = IndexMap::new();
+                    for (name, value) in framing.metadata.iter() {
+                        properties.insert(
+                            name.strip_prefix("frame_").unwrap_or(name).to_string(),
+                            NestedValue::Value(value.clone()),
+                        );
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, scopes) in framing.attribute_framing.iter() {
+                        let mut frames = IndexMap::new();
+                        for (frame, scope) in scopes {
+                            let mut frame_content = IndexMap::new();
+                            frame_content.insert(
+                                "predicate_id".to_string(),
+                                NestedValue::Value(scope.predicate_id.clone()),
+                            );
+                            frame_content.insert(
+                                "framing_justification".to_string(),
+                                NestedValue::Value(scope.framing_justification.clone()),
+                            );
+                            frames.insert(frame.clone(), NestedValue::Object(frame_content));
+                        }
+                        attributes.insert(attr_name.clone(), NestedValue::Object(frames));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
                 _ => {}
             }
         });
-- 
2.43.0


From db5e51c2dd3ab5f17d505258442589769403492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 14/39] fix: bundles with inconsistent overlays do not panic
 validation, export or extension

---
 semantics/oca-bundle/src/state/oca.rs       | 105 ++++++++++----------
 semantics/oca-bundle/src/state/validator.rs |  26 ++++-
 2 files changed, 74 insertions(+), 57 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 901a456..b1426f2 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -703,7 +703,9 @@ impl From<OCABundle> for OCABox {
             attributes.insert(attr_name.clone(), attr);
         }
         for attr_name in oca_bundle.capture_base.flagged_attributes {
-            attributes.get_mut(&attr_name).unwrap().set_flagged();
+            if let Some(attribute) = attributes.get_mut(&attr_name) {
+                attribute.set_flagged();
+            }
         }
 
         let meta_overlays = oca_bundle
@@ -728,10 +730,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in character_encoding_overlays {
             for (attr_name, encoding) in overlay.attribute_character_encoding.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_encoding(*encoding);
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_encoding(*encoding);
+                }
             }
         }
 
@@ -742,10 +743,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in conformance_overlays {
             for (attr_name, conformance) in overlay.attribute_conformance.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_conformance(conformance.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_conformance(conformance.clone());
+                }
             }
         }
 
@@ -758,18 +758,19 @@ impl From<OCABundle> for OCABox {
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for overlay in conditional_overlays {
             for (attr_name, condition) in overlay.attribute_conditions.iter() {
-                let condition_dependencies = overlay.attribute_dependencies.get(attr_name).unwrap(); // todo
+                let condition_dependencies = overlay.attribute_dependencies.get(attr_name);
                 let cond = re
                     .replace_all(condition, |caps: &regex::Captures| {
-                        let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()].clone();
+                        let dep = condition_dependencies
+                            .and_then(|deps| deps.get(caps[1].parse::<usize>().ok()?))
+                            .map_or(&caps[1], |dep| dep.as_str());
                         format!("${{{}}}", dep)
                     })
                     .to_string();
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_condition(cond.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_condition(cond.clone());
+                }
             }
         }
 
@@ -780,10 +781,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in cardinality_overlays {
             for (attr_name, cardinality) in overlay.attribute_cardinality.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_cardinality(cardinality.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_cardinality(cardinality.clone());
+                }
             }
         }
 
@@ -796,10 +796,9 @@ impl From<OCABundle> for OCABox {
                 .collect::<Vec<_>>();
             for overlay in format_overlays {
                 for (attr_name, format) in overlay.attribute_formats.iter() {
-                    attributes
-                        .get_mut(attr_name)
-                        .unwrap()
-                        .set_format(format.clone());
+                    if let Some(attribute) = attributes.get_mut(attr_name) {
+                        attribute.set_format(format.clone());
+                    }
                 }
             }
         }
@@ -811,10 +810,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in unit_overlays {
             for (attr_name, unit) in overlay.attribute_unit.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_unit(unit.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_unit(unit.clone());
+                }
             }
         }
 
@@ -825,10 +823,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_code_overlays {
             for (attr_name, entry_code) in overlay.attribute_entry_codes.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry_codes(entry_code.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_entry_codes(entry_code.clone());
+                }
             }
         }
 
@@ -839,10 +836,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_overlays {
             for (attr_name, entries) in overlay.attribute_entries.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry(*overlay.language().unwrap(), entries.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_entry(*overlay.language().unwrap(), entries.clone());
+                }
             }
         }
 
@@ -853,10 +849,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in label_overlays {
             for (attr_name, label) in overlay.attribute_labels.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_label(*overlay.language().unwrap(), label.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_label(*overlay.language().unwrap(), label.clone());
+                }
             }
         }
 
@@ -867,10 +862,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in information_overlays {
             for (attr_name, information) in overlay.attribute_information.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_information(*overlay.language().unwrap(), information.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_information(*overlay.language().unwrap(), information.clone());
+                }
             }
         }
 
@@ -881,10 +875,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in link_overlays {
             for (attr_name, mapping) in overlay.attribute_mapping.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_link(overlay.target_bundle.clone(), mapping.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_link(overlay.target_bundle.clone(), mapping.clone());
+                }
             }
         }
 
@@ -894,7 +887,9 @@ impl From<OCABundle> for OCABox {
             .filter_map(|x| x.as_any().downcast_ref::<overlay::AttributeFraming>())
             .collect::<Vec<_>>();
         for overlay in framing_overlays {
-            let frame_id = overlay.metadata.get("frame_id").unwrap();
+            let Some(frame_id) = overlay.metadata.get("frame_id") else {
+                continue;
+            };
             let mut frame_meta = overlay.metadata.clone();
             frame_meta.remove("frame_id");
 
@@ -908,10 +903,9 @@ impl From<OCABundle> for OCABox {
                     })
                     .collect::<HashMap<_, _>>();
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_framing(frame_id.to_string(), framing);
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_framing(frame_id.to_string(), framing);
+                }
             }
         }
 
@@ -1105,11 +1099,12 @@ impl OCABundle {
                     let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
                     for (attr_name, condition) in conditional.attribute_conditions.iter() {
                         let condition_dependencies =
-                            conditional.attribute_dependencies.get(attr_name).unwrap(); // todo
+                            conditional.attribute_dependencies.get(attr_name);
                         let cond = re
                             .replace_all(condition, |caps: &regex::Captures| {
-                                let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()]
-                                    .clone();
+                                let dep = condition_dependencies
+                                    .and_then(|deps| deps.get(caps[1].parse::<usize>().ok()?))
+                                    .map_or(&caps[1], |dep| dep.as_str());
                                 format!("${{{}}}", dep)
                             })
                             .to_string();
diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index ba94b05..d22701a 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -231,7 +231,12 @@ impl Validator {
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for &attr in overlay.attributes().iter() {
             let condition = conditions.get(attr).unwrap(); // todo
-            let condition_dependencies = dependencies.get(attr).unwrap(); // todo
+            let Some(condition_dependencies) = dependencies.get(attr) else {
+                errors.push(Error::Custom(format!(
+                    "Dependencies of attribute '{attr}' are missing"
+                )));
+                continue;
+            };
             if condition_dependencies.contains(attr) {
                 errors.push(Error::Custom(format!(
                     "Attribute '{attr}' cannot be a dependency of itself"
@@ -239,6 +244,23 @@ impl Validator {
                 continue;
             }
 
+            if let Some(dep) = condition_dependencies
+                .iter()
+                .find(|dep| !attr_types.contains_key(*dep))
+            {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' depends on undefined attribute '{dep}'"
+                )));
+                continue;
+            }
+            let mut positions = re.captures_iter(condition).map(|c| c[1].parse::<usize>());
+            if positions.any(|p| p.map_or(true, |p| p >= condition_dependencies.len())) {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has invalid condition: unknown dependency"
+                )));
+                continue;
+            }
+
             let mut attr_mocks: HashMap<String, String> = HashMap::new();
             condition_dependencies.iter().for_each(|dep| {
                 let dep_type = attr_types.get(dep).unwrap(); // todo
@@ -260,7 +282,7 @@ impl Validator {
                             AttributeType::Binary => "[test]".to_string(),
                             AttributeType::Boolean => "[true]".to_string(),
                         },
-                        _ => panic!("Invalid or not supported array type"),
+                        _ => "[]".to_string(),
                     },
                     NestedAttrType::Reference(ref_value) => ref_value.to_string(),
                 };
-- 
2.43.0


From ebc19d0ec01e1f511f80413f0ab15ef0f3ddbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 15/39] fix: attributes of the base given by FROM can be
 removed

---
 semantics/oca-ast/src/validator.rs | 5 ++++-
 semantics/oca-bundle/src/build.rs  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/validator.rs b/semantics/oca-ast/src/validator.rs
index bdcd733..670c67a 100644
--- a/semantics/oca-ast/src/validator.rs
+++ b/semantics/oca-ast/src/validator.rs
@@ -72,7 +72,10 @@ fn validate_1_0_0(ast: &OCAAst, command: Command) -> Result<bool, Error> {
                 }
             }
         }
-        (CommandType::Remove, ObjectKind::CaptureBase(_)) => {
+        // what the bundle given by FROM defines is not known before it is resolved
+        (CommandType::Remove, ObjectKind::CaptureBase(_))
+            if !ast.commands.iter().any(|c| c.kind == CommandType::From) =>
+        {
             match rule_remove_attr_if_exist(ast, command) {
                 Ok(result) => {
                     if !result {
diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index cfef4eb..4c4bd6c 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -589,6 +589,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
+                    if !oca.attributes.contains_key(attr_name) {
+                        errors.push(format!("Undefined attribute: {attr_name}"));
+                    }
                     oca.remove_attribute(attr_name);
                 }
             }
-- 
2.43.0


From c0adee3794116ddd061cae177536e808ec29915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 16/39] fix: instructions which undo each other or change
 nothing keep the history intact

---
 oca/src/facade/build.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index d7d6d7a..cbc8cc2 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -299,13 +299,14 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        self.db
-            .insert(
-                Namespace::OCA,
-                &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
-                &input,
-            )
-            .unwrap();
+        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
+        // a step which leads back to a known bundle must not turn its history into a cycle
+        let is_known = self.db.get(Namespace::OCA, &operation_key).unwrap();
+        if is_known.is_none() && step.parent_said != result_bundle.said {
+            self.db
+                .insert(Namespace::OCA, &operation_key, &input)
+                .unwrap();
+        }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
-- 
2.43.0


From e7c513f1e9a7269ba72417909e2c836c13ed7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 17/39] fix: references in nested arrays are resolved and
 fetched

---
 oca/src/facade/fetch.rs     | 18 ++++++------------
 oca/src/local_references.rs | 33 ++++++++++-----------------------
 2 files changed, 16 insertions(+), 35 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index f588588..57e084f 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -408,18 +408,12 @@ pub fn get_oca_bundle(
 fn retrive_all_references(bundle: OCABundle) -> Vec<SelfAddressingIdentifier> {
     let mut refs: Vec<SelfAddressingIdentifier> = vec![];
 
-    for (_, value) in bundle.capture_base.attributes {
-        match value {
-            ast::NestedAttrType::Reference(RefValue::Said(said)) => {
-                refs.push(said);
-            }
-            // TODO(recursion) handle nested arrays
-            ast::NestedAttrType::Array(box_attr_type) => {
-                if let ast::NestedAttrType::Reference(RefValue::Said(said)) = &*box_attr_type {
-                    refs.push(said.clone());
-                }
-            }
-            _ => {}
+    for (_, mut value) in bundle.capture_base.attributes {
+        while let ast::NestedAttrType::Array(box_attr_type) = value {
+            value = *box_attr_type;
+        }
+        if let ast::NestedAttrType::Reference(RefValue::Said(said)) = value {
+            refs.push(said);
         }
     }
     refs
diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 0a34b37..8c06cfc 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -22,30 +22,17 @@ pub fn replace_refn_with_refs<R: References>(
             (&command.kind, &mut command.object_kind)
         {
             if let Some(attributes) = &mut content.attributes {
-                for (_, attr_type) in attributes {
-                    match attr_type {
-                        NestedAttrType::Reference(RefValue::Name(refn)) => {
-                            if let Some(said) = references.find(refn) {
-                                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                *attr_type = NestedAttrType::Reference(RefValue::Said(said));
-                            } else {
-                                return Err(ValidationError::UnknownRefn(refn.clone()));
-                            }
-                        }
-                        NestedAttrType::Array(box_attr_type) => {
-                            if let NestedAttrType::Reference(RefValue::Name(refn)) =
-                                &**box_attr_type
-                            {
-                                if let Some(said) = references.find(refn) {
-                                    let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                    **box_attr_type =
-                                        NestedAttrType::Reference(RefValue::Said(said));
-                                } else {
-                                    return Err(ValidationError::UnknownRefn(refn.clone()));
-                                }
-                            }
+                for (_, mut attr_type) in attributes {
+                    while let NestedAttrType::Array(box_attr_type) = attr_type {
+                        attr_type = &mut **box_attr_type;
+                    }
+                    if let NestedAttrType::Reference(RefValue::Name(refn)) = attr_type {
+                        if let Some(said) = references.find(refn) {
+                            let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
+                            *attr_type = NestedAttrType::Reference(RefValue::Said(said));
+                        } else {
+                            return Err(ValidationError::UnknownRefn(refn.clone()));
                         }
-                        _ => (),
                     }
                 }
             }
-- 
2.43.0


From 974b9c2da07439de6df34de27ef0009d75f6f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 18/39] fix: any page number and limit can be asked for

---
 oca/src/repositories/capture_base_cache_repo.rs | 2 +-
 oca/src/repositories/mod.rs                     | 8 ++++++++
 oca/src/repositories/oca_bundle_cache_repo.rs   | 2 +-
 oca/src/repositories/oca_bundle_fts_repo.rs     | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index e313e5b..9934540 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -49,7 +49,7 @@ impl CaptureBaseCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::limit_and_offset(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/mod.rs b/oca/src/repositories/mod.rs
index bbd565a..41d7621 100644
--- a/oca/src/repositories/mod.rs
+++ b/oca/src/repositories/mod.rs
@@ -7,6 +7,14 @@ pub use oca_bundle_cache_repo::*;
 
 use std::path::PathBuf;
 
+/// Pages are counted from 1, page 0 is the first page as well. SQLite counts up to `i64::MAX`.
+fn limit_and_offset(limit: usize, page: usize) -> (usize, usize) {
+    let max = i64::MAX as usize;
+    let limit = limit.min(max);
+    let offset = page.saturating_sub(1).saturating_mul(limit).min(max);
+    (limit, offset)
+}
+
 #[derive(Clone)]
 pub struct SQLiteConfig {
     pub path: Option<PathBuf>,
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 85ce2f1..3798192 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -52,7 +52,7 @@ impl OCABundleCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::limit_and_offset(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 7d63b15..288fd5b 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -77,7 +77,7 @@ impl OCABundleFTSRepo {
         limit: usize,
         page: usize,
     ) -> SearchResult {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::limit_and_offset(limit, page);
         let query = match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
-- 
2.43.0


From 00c1fa5b3d51cbcdebcded4f349b38b90c264abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 19/39] fix: search queries and bundles without structural part
 do not panic

---
 oca/src/facade/bundle.rs                    | 8 ++++++--
 oca/src/repositories/oca_bundle_fts_repo.rs | 5 +++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 7ce3fab..24639e1 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -67,8 +67,12 @@ impl Bundle {
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
 
-        let structural = self.structural.as_ref().unwrap();
-        let structural_str = String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap();
+        let structural_str = match &self.structural {
+            Some(structural) => {
+                String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap()
+            }
+            None => "null".to_string(),
+        };
 
         let mut transformations_str = String::new();
         let mut transformations_iter = self.transformations.iter().peekable();
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 288fd5b..b1ef9ce 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -133,7 +133,7 @@ impl OCABundleFTSRepo {
                 snippet_regex = snippet_regex.replace("<mark>", "");
                 snippet_regex = snippet_regex.replace("</mark>", "");
                 let mut v: Vec<String> =
-                    snippet_regex.split("...").map(|x| x.to_string()).collect();
+                    snippet_regex.split("...").map(regex::escape).collect();
                 if v.first().unwrap().is_empty() {
                     v.remove(0);
                     if let Some(x) = v.first_mut() {
@@ -187,7 +187,8 @@ meta_overlay:{}
         let mut total: usize = 0;
 
         for row in rows {
-            let record = row.unwrap();
+            // a query which FTS5 does not understand matches nothing
+            let Ok(record) = row else { break };
             if total == 0 {
                 total = record.total as usize;
             }
-- 
2.43.0


From 001ef3b0ae14d22d5c1a891e8c79a1e4b2d22562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 20/39] fix: a LINK whose target is not a valid said is
 rejected instead of losing its target

---
 semantics/oca-file/src/ocafile/instructions/add.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile/instructions/add.rs b/semantics/oca-file/src/ocafile/instructions/add.rs
index cb7c8e8..3995f74 100644
--- a/semantics/oca-file/src/ocafile/instructions/add.rs
+++ b/semantics/oca-file/src/ocafile/instructions/add.rs
@@ -139,9 +139,19 @@ impl AddInstruction {
                     ));
                 }
                 Rule::link => {
+                    let content = helpers::extract_content(object);
+                    let has_target = content
+                        .properties
+                        .as_ref()
+                        .is_some_and(|properties| properties.contains_key("target"));
+                    if !has_target {
+                        return Err(InstructionError::Parser(
+                            "Invalid said of the link target".to_string(),
+                        ));
+                    }
                     object_kind = Some(ObjectKind::Overlay(
                         OverlayType::Link(overlay_version),
-                        helpers::extract_content(object),
+                        content,
                     ));
                 }
                 Rule::attribute_framing => {
-- 
2.43.0


From 26a9b469756656f2dfaa2cb3dcc24384acab3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 21/39] fix: comments and empty lines inside a continued
 instruction are not read as content

---
 semantics/oca-file/src/ocafile.pest | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 6924889..0de68b9 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -27,12 +27,16 @@ string = ${ single_quoted_string | double_quoted_string }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 
+// comments and empty lines within a continued instruction; they are not part of its content
+skipped_comment_line = _{ ws* ~ "#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? }
+skipped_empty_line = _{ ws* ~ NEWLINE }
+
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ (skipped_comment_line | skipped_empty_line)*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ (skipped_comment_line | skipped_empty_line)*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
-- 
2.43.0


From 880b9f4703eef7edf121cb1b1ad1fe8bf4137c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 22/39] fix: flagged attribute names that need quotes are
 printed in quotes

---
 semantics/oca-file/src/ocafile/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 5afd606..d66ac25 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -213,10 +213,22 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                         }
                         if let Some(flagged_attributes) = &content.flagged_attributes {
                             if !flagged_attributes.is_empty() {
-                                instructions.push(format!(
-                                    "FLAGGED_ATTRIBUTES {}",
-                                    flagged_attributes.join(" ")
-                                ));
+                                let names = flagged_attributes
+                                    .iter()
+                                    .map(|name| {
+                                        let plain = !name.is_empty()
+                                            && name.chars().all(|c| {
+                                                c.is_ascii_alphanumeric() || "-_.".contains(c)
+                                            });
+                                        if plain {
+                                            name.clone()
+                                        } else {
+                                            quoted(name)
+                                        }
+                                    })
+                                    .collect::<Vec<String>>();
+                                instructions
+                                    .push(format!("FLAGGED_ATTRIBUTES {}", names.join(" ")));
                             }
                         }
                         if instructions.is_empty() {
-- 
2.43.0


From 2fc0414fcd72e503066c01ddf487b0edfad04474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 23/39] fix: a said as short as its derivation code is an
 error, not a panic

---
 semantics/oca-ast/src/ast/mod.rs                     | 12 ++++++++++--
 semantics/oca-file/src/ocafile/instructions/from.rs  |  6 ++----
 .../oca-file/src/ocafile/instructions/helpers.rs     |  6 +++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index e04a503..2a1917c 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -428,6 +428,14 @@ pub enum RefValue {
     Name(String),
 }
 
+/// Reads a said from text. The said crate panics on a text which ends within the derivation code.
+pub fn parse_said(text: &str) -> Result<SelfAddressingIdentifier, said::error::Error> {
+    if text.len() < 2 || !text.is_ascii() {
+        return Err(said::error::Error::IncorrectLengthError(text.to_string()));
+    }
+    SelfAddressingIdentifier::from_str(text)
+}
+
 impl FromStr for RefValue {
     type Err = RefValueParsingError;
 
@@ -437,7 +445,7 @@ impl FromStr for RefValue {
             .ok_or(RefValueParsingError::MissingColon)?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest)?;
+                let said = parse_said(rest)?;
                 Ok(RefValue::Said(said))
             }
             "refn" => Ok(RefValue::Name(rest.to_string())),
@@ -637,7 +645,7 @@ impl<'de> Deserialize<'de> for RefValue {
         ))?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest);
+                let said = parse_said(rest);
                 match said {
                     Ok(said) => Ok(RefValue::Said(said)),
                     Err(_) => Err(serde::de::Error::custom(format!(
diff --git a/semantics/oca-file/src/ocafile/instructions/from.rs b/semantics/oca-file/src/ocafile/instructions/from.rs
index 791b3df..8b9c128 100644
--- a/semantics/oca-file/src/ocafile/instructions/from.rs
+++ b/semantics/oca-file/src/ocafile/instructions/from.rs
@@ -1,9 +1,8 @@
 use crate::ocafile::{error::InstructionError, Pair, Rule};
 use log::debug;
 use oca_ast_semantics::ast::{
-    BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
+    parse_said, BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
 };
-use said::SelfAddressingIdentifier;
 
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub struct FromInstruction {}
@@ -26,8 +25,7 @@ impl FromInstruction {
         }
 
         let said_str = said_pair.unwrap().as_str();
-        let said: SelfAddressingIdentifier = said_str
-            .parse()
+        let said = parse_said(said_str)
             .map_err(|_| InstructionError::Parser(format!("Invalid said: {said_str}")))?;
         debug!("Using oca bundle from: {:?}", said);
         let said = ReferenceAttrType::Reference(RefValue::Said(said));
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index 0e2a48f..a242b14 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -4,11 +4,11 @@ use crate::ocafile::{error::ExtractingAttributeError, Pair, Rule};
 use indexmap::IndexMap;
 use log::debug;
 use oca_ast_semantics::ast::{
+    parse_said,
     recursive_attributes::{AttributeTypeResult, NestedAttrTypeFrame},
     AttributeType, Content, NestedAttrType, NestedValue, RefValue,
 };
 use recursion::ExpandableExt;
-use said::SelfAddressingIdentifier;
 
 fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeError> {
     let res = AttributeTypeResult::expand_frames(input, |seed| match seed.as_rule() {
@@ -22,7 +22,7 @@ fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeE
             seed.as_str().to_string(),
         ))
         .into(),
-        Rule::said => match SelfAddressingIdentifier::from_str(seed.as_str()) {
+        Rule::said => match parse_said(seed.as_str()) {
             Ok(said) => NestedAttrTypeFrame::Reference(RefValue::Said(said)).into(),
             Err(e) => ExtractingAttributeError::SaidError(e).into(),
         },
@@ -425,7 +425,7 @@ pub fn extract_properites_key_pairs(object: Pair) -> Option<IndexMap<String, Nes
             }
             Rule::said => {
                 debug!("Parsing target said: {:?}", attr.as_str());
-                if let Ok(said) = SelfAddressingIdentifier::from_str(attr.as_str()) {
+                if let Ok(said) = parse_said(attr.as_str()) {
                     properties.insert(
                         "target".to_string(),
                         NestedValue::Reference(RefValue::Said(said)),
-- 
2.43.0


From 5904ee21a5ca342182e73d41bafaf1d6bc5b5813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 24/39] fix: the printed name of the attribute mapping overlay
 reads back

---
 semantics/oca-ast/src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index 2a1917c..011e7e8 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -271,7 +271,7 @@ impl FromStr for OverlayType {
             "EntryCode" => Ok(OverlayType::EntryCode(v)),
             "Entry" => Ok(OverlayType::Entry(v)),
             "Unit" => Ok(OverlayType::Unit(v)),
-            "Mapping" => Ok(OverlayType::AttributeMapping(v)),
+            "Mapping" | "AttributeMapping" => Ok(OverlayType::AttributeMapping(v)),
             "EntryCodeMapping" => Ok(OverlayType::EntryCodeMapping(v)),
             "Subset" => Ok(OverlayType::Subset(v)),
             "UnitMapping" => Ok(OverlayType::UnitMapping(v)),
-- 
2.43.0


From 7e02e2970d279212eb5ea1ab57a80ff9b6f69681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 25/39] fix: a bundle in a language without a two-letter code
 exports and prints

---
 semantics/oca-bundle/src/build.rs     |  4 +++-
 semantics/oca-bundle/src/state/oca.rs | 28 +++++++++++----------------
 semantics/oca-file/src/ocafile.pest   |  2 +-
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 4c4bd6c..9554d0c 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -125,7 +125,9 @@ pub fn from_ast(
 }
 
 fn parse_language(lang: &str) -> Result<isolang::Language, Vec<String>> {
-    isolang::Language::from_639_1(lang).ok_or_else(|| vec![format!("Unknown language: {lang}")])
+    isolang::Language::from_639_1(lang)
+        .or_else(|| isolang::Language::from_639_3(lang))
+        .ok_or_else(|| vec![format!("Unknown language: {lang}")])
 }
 
 fn require_language(lang: Option<isolang::Language>) -> Result<isolang::Language, Vec<String>> {
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index b1426f2..9dcad18 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -621,6 +621,13 @@ where
     ser.end()
 }
 
+/// Two-letter code of the language, or the three-letter one if there is none
+fn language_code(lang: &Language) -> String {
+    lang.to_639_1()
+        .unwrap_or_else(|| lang.to_639_3())
+        .to_string()
+}
+
 fn deserialize_overlays<'de, D>(deserializer: D) -> Result<Vec<DynOverlay>, D::Error>
 where
     D: serde::de::Deserializer<'de>,
@@ -1011,9 +1018,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            meta.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(meta.language().unwrap())),
                     );
                     for (meta_name, meta_value) in meta.attr_pairs.iter() {
                         properties
@@ -1036,9 +1041,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            label.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(label.language().unwrap())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, label) in label.attribute_labels.iter() {
@@ -1064,14 +1067,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            information
-                                .language()
-                                .unwrap()
-                                .to_639_1()
-                                .unwrap()
-                                .to_string(),
-                        ),
+                        NestedValue::Value(language_code(information.language().unwrap())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, information) in information.attribute_information.iter() {
@@ -1206,9 +1202,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            entry.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(entry.language().unwrap())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, entries) in entry.attribute_entries.iter() {
diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 0de68b9..fb06b14 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -255,7 +255,7 @@ _attr_type = ${ base_attr_type | array_attr_type | ref_said | ref_alias }
 attr_pair = @{attr_key ~ arg_ws? ~ "=" ~ arg_ws?  ~ _attr_type}
 attr_pairs = ${ (arg_ws ~ attr_pair)+}
 
-lang = ${ ASCII_ALPHA{2} ~ ("-" ~ ASCII_ALPHA{2})? }
+lang = ${ ASCII_ALPHA{2,3} ~ ("-" ~ ASCII_ALPHA{2})? }
 
 file = {
   SOI ~
-- 
2.43.0


From c9fe93653a5e45ab526cbba05baf91669a7b3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:46 +0000
Subject: [PATCH 26/39] fix: a quoted precompiler directive does not choose the
 language of a file

---
 oca-file/src/ocafile.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 626ef22..1677d98 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -54,8 +54,11 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
+// any other line, whatever it quotes
+other_line = _{ (single_quoted_string | double_quoted_string | !NEWLINE ~ ANY)+ ~ NEWLINE? }
+
 file = {
   SOI ~
-  (empty_line | meta_comment_line | comment_line | ANY)*
+  (empty_line | meta_comment_line | comment_line | other_line)*
   ~ EOI
 }
-- 
2.43.0


From f4aaf3517065b3d35202fb7a492e4daeb57c3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:46 +0000
Subject: [PATCH 27/39] fix: a transformation without source, target or
 instructions is an error, not a panic

---
 .../transformation-file/src/build.rs          | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/transformation/transformation-file/src/build.rs b/transformation/transformation-file/src/build.rs
index 2d7ce1a..d00eb34 100644
--- a/transformation/transformation-file/src/build.rs
+++ b/transformation/transformation-file/src/build.rs
@@ -25,11 +25,29 @@ pub enum Error {
 pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Error>> {
     let mut errors = vec![];
 
+    let default_command_meta = ast::CommandMeta {
+        line_number: 0,
+        raw_line: "unknown".to_string(),
+    };
+    let general_error = |message: &str| {
+        vec![Error::FromASTError {
+            line_number: default_command_meta.line_number,
+            raw_line: default_command_meta.raw_line.clone(),
+            message: message.to_string(),
+        }]
+    };
+
     let mut base: Option<Transformation> = None;
     if !ast.meta.is_empty() {
-        let source = ast.meta.get("source").expect("missing source meta");
+        let source = ast
+            .meta
+            .get("source")
+            .ok_or_else(|| general_error("missing source meta"))?;
         let source_said = source.replace("refs:", "");
-        let target = ast.meta.get("target").expect("missing target meta");
+        let target = ast
+            .meta
+            .get("target")
+            .ok_or_else(|| general_error("missing target meta"))?;
         let target_said = target.replace("refs:", "");
         let mut transformation = Transformation::new();
         transformation.set_source(source_said);
@@ -37,10 +55,6 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
         base = Some(transformation)
     }
 
-    let default_command_meta = ast::CommandMeta {
-        line_number: 0,
-        raw_line: "unknown".to_string(),
-    };
     for (i, command) in ast.commands.iter().enumerate() {
         let command_index = i;
         // todo pass the references
@@ -62,7 +76,8 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
         }
     }
     if errors.is_empty() {
-        let mut transformation = base.unwrap().clone();
+        let mut transformation =
+            base.ok_or_else(|| general_error("There is no command to apply"))?;
         transformation.fill_said();
         Ok(transformation)
     } else {
-- 
2.43.0


From 9e012da2c287495a26f6afca836ce88f2816f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:06 +0000
Subject: [PATCH 28/39] fix: transformation instructions print as text

---
 transformation/oca-file/src/ocafile/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index bc08e84..28b69ed 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -121,17 +121,19 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
 }
 
 pub fn generate_from_ast(ast: &TransformationAST) -> String {
-    let ocafile = String::new();
+    let mut ocafile = String::new();
 
     ast.commands.iter().for_each(|command| {
-        let _line = String::new();
-
-        match command.kind {
-            ast::CommandType::Rename => todo!(),
-            ast::CommandType::Link => todo!(),
+        let (instruction, separator, attributes) = match &command.object_kind {
+            ast::ObjectKind::Rename(content) => ("RENAME", "=", &content.attributes),
+            ast::ObjectKind::Link(content) => ("LINK", "->", &content.attributes),
+        };
+        let mut line = format!("{} ATTRIBUTE", instruction);
+        for (name, other_name) in attributes.iter().flatten() {
+            line.push_str(&format!(" {}{}{}", name, separator, other_name));
         }
 
-        // ocafile.push_str(format!("{}\n", line).as_str());
+        ocafile.push_str(format!("{}\n", line).as_str());
     });
 
     ocafile
-- 
2.43.0


From 3f94e154af15ea5a0dbb9877b56f0f73ac4ba784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:06 +0000
Subject: [PATCH 29/39] fix: a comment within a continued transformation
 instruction is not content

---
 transformation/oca-file/src/ocafile.pest | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 2a7119e..a33d560 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -27,12 +27,16 @@ string = ${ single_quoted_string | double_quoted_string }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 
+// comments and empty lines within a continued instruction; they are not part of its content
+skipped_comment_line = _{ ws* ~ "#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? }
+skipped_empty_line = _{ ws* ~ NEWLINE }
+
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ (skipped_comment_line | skipped_empty_line)*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ (skipped_comment_line | skipped_empty_line)*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
-- 
2.43.0


From e6ba55725857056936da62df70062aea8299b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 30/39] fix: a step records the overlay its command describes

---
 semantics/oca-dag/src/lib.rs | 72 +++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 64b402b..a822426 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -2,6 +2,7 @@ pub mod data_storage;
 pub mod versioning;
 
 use oca_ast_semantics::ast;
+use oca_bundle_semantics::state::oca::{overlay, DynOverlay};
 use said::{derivation::HashFunction, SelfAddressingIdentifier};
 use std::collections::HashMap;
 use std::str::FromStr;
@@ -95,6 +96,54 @@ pub fn build_core_db_model(oca_build: &oca_bundle_semantics::build::OCABuild) ->
     result_models
 }
 
+/// What distinguishes an overlay from the others of the same type in a bundle
+fn overlay_scope(overlay: &DynOverlay) -> Option<String> {
+    if let Some(link) = overlay.as_any().downcast_ref::<overlay::Link>() {
+        return Some(link.target_bundle.clone());
+    }
+    if let Some(framing) = overlay.as_any().downcast_ref::<overlay::AttributeFraming>() {
+        return framing.metadata.get("frame_id").cloned();
+    }
+    overlay.language().map(|lang| lang.to_639_3().to_string())
+}
+
+fn overlay_key(overlay: &DynOverlay) -> String {
+    match overlay_scope(overlay) {
+        Some(scope) => format!("{}-{}", overlay.overlay_type(), scope),
+        None => format!("{}", overlay.overlay_type()),
+    }
+}
+
+fn is_described_by(
+    overlay: &DynOverlay,
+    overlay_type: &ast::OverlayType,
+    content: &ast::Content,
+) -> bool {
+    let property = |name: &str| {
+        content
+            .properties
+            .as_ref()
+            .and_then(|properties| properties.get(name))
+    };
+    let scope = match overlay_type {
+        ast::OverlayType::Link(_) => match property("target") {
+            Some(ast::NestedValue::Reference(ast::RefValue::Said(said))) => Some(said.to_string()),
+            _ => None,
+        },
+        ast::OverlayType::AttributeFraming(_) => match property("id") {
+            Some(ast::NestedValue::Value(id)) => Some(id.clone()),
+            _ => None,
+        },
+        _ => match property("lang") {
+            Some(ast::NestedValue::Value(lang)) => isolang::Language::from_639_1(lang)
+                .or_else(|| isolang::Language::from_639_3(lang))
+                .map(|lang| lang.to_639_3().to_string()),
+            _ => None,
+        },
+    };
+    overlay.overlay_type().eq(overlay_type) && overlay_scope(overlay) == scope
+}
+
 fn apply_step(
     state: State,
     step: &oca_bundle_semantics::build::OCABuildStep,
@@ -115,25 +164,14 @@ fn apply_step(
             current_state.capture_base = Some(capture_base_model.capture_base_said.clone());
         }
         ast::ObjectKind::Overlay(overlay_type, content) => {
-            let mut lang = None;
-            // match &content.properties {
-            if let Some(properties) = &content.properties {
-                if let Some(ast::NestedValue::Value(lang_value)) = properties.get("lang") {
-                    lang = isolang::Language::from_639_1(lang_value);
-                }
-            }
-
-            let overlay = step.result.overlays.iter().find(|overlay| {
-                overlay.overlay_type().eq(overlay_type) && overlay.language() == lang.as_ref()
-            });
+            let overlay = step
+                .result
+                .overlays
+                .iter()
+                .find(|overlay| is_described_by(overlay, overlay_type, content));
 
             if let Some(overlay) = overlay {
-                let overlay_key = match overlay.language() {
-                    Some(lang) => {
-                        format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())
-                    }
-                    None => format!("{}", overlay.overlay_type()),
-                };
+                let overlay_key = overlay_key(overlay);
                 let parent_overlay = state.overlays.get(&overlay_key);
                 let overlay_model = OverlayModel {
                     overlay_said: overlay.said().clone().unwrap(),
-- 
2.43.0


From 385fdad1c91982d6fe1fd36830d8205990655bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 31/39] fix: a command which cannot be applied ends the
 versioned build

---
 semantics/oca-dag/src/versioning/ocafile.rs | 23 +++++++++------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 6a84079..6378152 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -20,22 +20,18 @@ pub fn build_oca(
                 None => return Err("Missing bundle content".to_string()),
             };
             let oca_bundle_str = match db.get(&format!("oca.{}", said))? {
-                Some(oca_bundle_str) => String::from_utf8(oca_bundle_str).unwrap(),
+                Some(oca_bundle_str) => {
+                    String::from_utf8(oca_bundle_str).map_err(|e| e.to_string())?
+                }
                 None => return Err("OCA not found".to_string()),
             };
-            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str).unwrap();
+            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str)
+                .map_err(|e| e.to_string())?;
             base = Some(oca_b.into());
         } else {
-            let result = oca_bundle_semantics::build::apply_command(base.clone(), command.clone());
-            let mut oca_box: OCABox = OCABox::new();
-            match result {
-                Ok(oca) => {
-                    oca_box = oca;
-                }
-                Err(errors) => {
-                    println!("{:?}", errors);
-                }
-            };
+            let mut oca_box =
+                oca_bundle_semantics::build::apply_command(base.clone(), command.clone())
+                    .map_err(|errors| errors.join(", "))?;
             let oca_bundle = oca_box.generate_bundle();
             let command_str = serde_json::to_string(&command).unwrap();
 
@@ -67,7 +63,8 @@ pub fn build_oca(
         }
     }
 
-    Ok(base.unwrap().generate_bundle())
+    let mut oca_box = base.ok_or_else(|| "There is no command to apply".to_string())?;
+    Ok(oca_box.generate_bundle())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7d298f7aaae2b25687718f0e8e8763cd956867f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:47 +0000
Subject: [PATCH 32/39] fix: a key of the file system storage is not a path

---
 oca/src/data_storage.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 7bf0970..63c3aff 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -237,6 +237,19 @@ impl FileSystemStorageConfigBuilder {
     }
 }
 
+/// Name of the file an entry is kept in; a key is never a path
+fn file_name(key: &str) -> String {
+    match key {
+        "" => "%".to_string(),
+        "." | ".." => key.replace('.', "%2E"),
+        _ => key
+            .replace('%', "%25")
+            .replace('/', "%2F")
+            .replace('\\', "%5C")
+            .replace('\0', "%00"),
+    }
+}
+
 impl DataStorage for FileSystemStorage {
     fn new() -> Self {
         Self { dir: None }
@@ -256,7 +269,7 @@ impl DataStorage for FileSystemStorage {
             let mut path = dir.clone();
             path.push(namespace.as_str());
             if path.try_exists().unwrap() {
-                path.push(key);
+                path.push(file_name(key));
                 Ok(std::fs::read(path.clone()).ok())
             } else {
                 Ok(None)
@@ -278,7 +291,7 @@ impl DataStorage for FileSystemStorage {
                 std::fs::create_dir_all(path.clone()).unwrap();
             }
 
-            path.push(key);
+            path.push(file_name(key));
             std::fs::write(path.clone(), value).map_err(|e| e.to_string())
         } else {
             Err("File path is required".to_string())
-- 
2.43.0


From 7f379e380f6edc2880ec436f388c7df9842e55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 33/39] fix: the file system storage replaces an entry at once

---
 oca/src/data_storage.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 63c3aff..9fd5145 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -1,5 +1,10 @@
 use dyn_clonable::*;
-use std::{collections::HashMap, path::PathBuf};
+use std::{
+    collections::HashMap,
+    io::Write,
+    path::{Path, PathBuf},
+    sync::atomic::{AtomicU64, Ordering},
+};
 
 pub enum Namespace {
     OCA,
@@ -250,6 +255,14 @@ fn file_name(key: &str) -> String {
     }
 }
 
+static NEW_FILES: AtomicU64 = AtomicU64::new(0);
+
+fn write_new_file(path: &Path, value: &[u8]) -> std::io::Result<()> {
+    let mut file = std::fs::File::create(path)?;
+    file.write_all(value)?;
+    file.sync_all()
+}
+
 impl DataStorage for FileSystemStorage {
     fn new() -> Self {
         Self { dir: None }
@@ -268,11 +281,11 @@ impl DataStorage for FileSystemStorage {
         if let Some(ref dir) = self.dir {
             let mut path = dir.clone();
             path.push(namespace.as_str());
-            if path.try_exists().unwrap() {
-                path.push(file_name(key));
-                Ok(std::fs::read(path.clone()).ok())
-            } else {
-                Ok(None)
+            path.push(file_name(key));
+            match std::fs::read(path) {
+                Ok(value) => Ok(Some(value)),
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+                Err(e) => Err(e.to_string()),
             }
         } else {
             Err("File path is required".to_string())
@@ -287,12 +300,18 @@ impl DataStorage for FileSystemStorage {
         if let Some(ref dir) = self.dir {
             let mut path = dir.clone();
             path.push(namespace.as_str());
-            if !path.try_exists().unwrap() {
-                std::fs::create_dir_all(path.clone()).unwrap();
-            }
+            std::fs::create_dir_all(&path).map_err(|e| e.to_string())?;
 
+            // the entry is replaced at once, when its new content is complete
+            let number = NEW_FILES.fetch_add(1, Ordering::Relaxed);
+            let new_path = path.join(format!("%{}-{}", std::process::id(), number));
             path.push(file_name(key));
-            std::fs::write(path.clone(), value).map_err(|e| e.to_string())
+            write_new_file(&new_path, value)
+                .and_then(|_| std::fs::rename(&new_path, &path))
+                .map_err(|e| {
+                    let _ = std::fs::remove_file(&new_path);
+                    e.to_string()
+                })
         } else {
             Err("File path is required".to_string())
         }
-- 
2.43.0


From 81c50e1554a0952735450164f0258c8386d775c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 34/39] fix: an arrow without blanks around it ends the name
 before it

---
 transformation/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index a33d560..f9694cb 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -124,7 +124,7 @@ link_attributes = { ^"attribute" ~ link_attr_pairs+ }
 link_attr_pair = @{attr_key ~ arg_ws? ~ "->" ~ arg_ws?  ~ attr_key}
 link_attr_pairs = ${ (arg_ws ~ link_attr_pair)+}
 
-attr_key = ${ (ASCII_ALPHANUMERIC | "-" | "_" )+ }
+attr_key = ${ (ASCII_ALPHANUMERIC | !"->" ~ "-" | "_" )+ }
 key_value = ${ string | char+}
 key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
-- 
2.43.0


From 107c04d5b59e75d4b1c5f715a1c198eddc5414ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 35/39] fix: the line number of an instruction is its line in
 the text

---
 semantics/oca-file/src/ocafile/mod.rs      | 4 ++--
 transformation/oca-file/src/ocafile/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index d66ac25..b7803f6 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -63,7 +63,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -106,7 +106,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index 28b69ed..04991ab 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -57,7 +57,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -100,7 +100,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
-- 
2.43.0


From ad11b7c8acbb90278704e525734a425a47bbae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 36/39] fix: exploring a text which is not an identifier of an
 object returns nothing

---
 oca/src/facade/explore.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 096669c..e3e0b4b 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -8,6 +8,10 @@ use super::Facade;
 
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
+        // only objects have metadata, other keys hold no relations
+        self.db
+            .get(Namespace::OCARelations, &format!("{}.metadata", said))
+            .ok()??;
         let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
 
         match relations_u8_res {
-- 
2.43.0


From 70669c97691857021484a849b91f6cef34c64897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 37/39] fix: asking for an object of an intermediate step is an
 error, not a panic

---
 oca/src/facade/fetch.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 57e084f..857fff6 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -232,7 +232,14 @@ impl Facade {
                     errors.push(e.to_string());
                     errors.clone()
                 })?;
-            let o_type: ObjectKind = (*r_type.unwrap().first().unwrap()).into();
+            // objects of intermediate steps are kept without metadata
+            let o_type: ObjectKind = r_type
+                .and_then(|r_type| r_type.first().copied())
+                .ok_or_else(|| {
+                    errors.push(format!("No OCA Object found for said: {}", said));
+                    errors.clone()
+                })?
+                .into();
             match o_type {
                 ObjectKind::CaptureBase(_) => result.push(OCAObject::CaptureBase(
                     serde_json::from_str::<CaptureBase>(&object_str).map_err(|e| {
-- 
2.43.0


From 900dcb8dffd85d9478889d2dd2b298b08d2c3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:11 +0000
Subject: [PATCH 38/39] fix: a store which cannot list, or history which cannot
 be read, is an error, not a panic

---
 oca/src/facade/fetch.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 857fff6..013fac9 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -126,8 +126,7 @@ impl Facade {
     pub fn fetch_all_refs(&self) -> Result<HashMap<String, String>, String> {
         let mut refs: HashMap<String, String> = HashMap::new();
         self.db
-            .get_all(Namespace::OCAReferences)
-            .unwrap()
+            .get_all(Namespace::OCAReferences)?
             .iter()
             .for_each(|(k, v)| {
                 refs.insert(k.clone(), String::from_utf8(v.to_vec()).unwrap());
@@ -309,14 +308,14 @@ impl Facade {
         loop {
             let (parent_said, command) = extract_operation(&self.db, &said)?;
             if parent_said == said {
-                dbg!("Malformed history for said: {}", said);
                 return Err(vec![format!("Malformed history")]);
             }
-            let s = SelfAddressingIdentifier::from_str(&said).unwrap(); // TODO
+            let s = SelfAddressingIdentifier::from_str(&said)
+                .map_err(|e| vec![format!("Malformed history: {}", e)])?;
             history.push(OCABuildStep {
                 parent_said: parent_said.clone().parse().ok(),
                 command,
-                result: self.get_oca_bundle(s, false).unwrap().bundle.clone(),
+                result: self.get_oca_bundle(s, false)?.bundle,
             });
             said = parent_said;
 
-- 
2.43.0


From 5317b97bba58c7bdba2d92012294d443d15aeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:45 +0000
Subject: [PATCH 39/39] fix: a recorded command can be longer than 255 bytes

---
 semantics/oca-dag/src/versioning/ocafile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 6378152..9f127c6 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -46,7 +46,7 @@ pub fn build_oca(
                     input.push(0);
                 }
             }
-            input.push(command_str.len().try_into().unwrap());
+            // the command is the rest of the record, of any length
             input.extend(command_str.as_bytes());
             db.insert(
                 &format!("oca.{}.operation", oca_bundle.clone().said.unwrap()),
-- 
2.43.0

