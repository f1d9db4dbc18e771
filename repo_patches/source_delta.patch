From 85151f36fd7f4f076fe13c61818edfafd9283897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 01/41] fix: a later unit, entry code or entry code mapping
 replaces the earlier one

---
 semantics/oca-bundle/src/state/attribute.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 33ab18c..f56f658 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -102,17 +102,17 @@ impl Attribute {
                 self.format.clone_from(&other.format);
             }
 
-            if self.unit.is_none() {
+            if other.unit.is_some() {
                 self.unit.clone_from(&other.unit);
             }
 
-            if self.entry_codes.is_none() {
+            if other.entry_codes.is_some() {
                 self.entry_codes.clone_from(&other.entry_codes);
             }
 
             self.merge_entries(other);
 
-            if self.entry_codes_mapping.is_none() {
+            if other.entry_codes_mapping.is_some() {
                 self.entry_codes_mapping
                     .clone_from(&other.entry_codes_mapping);
             }
-- 
2.43.0


From b56f47b1c6ec29c358595442367efa532c12afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 02/41] fix: an unknown language or an empty file is a build
 error, not a panic

---
 semantics/oca-bundle/src/build.rs | 69 +++++++++++++------------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index b6e5ea5..0ac80ab 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -110,13 +110,26 @@ pub fn from_ast(
             }
         }
     }
-    if errors.is_empty() {
-        Ok(OCABuild {
-            oca_bundle: base.unwrap().generate_bundle(),
+    match base {
+        _ if !errors.is_empty() => Err(errors),
+        Some(mut oca_box) => Ok(OCABuild {
+            oca_bundle: oca_box.generate_bundle(),
             steps,
-        })
-    } else {
-        Err(errors)
+        }),
+        None => Err(vec![Error::FromASTError {
+            line_number: default_command_meta.line_number,
+            raw_line: default_command_meta.raw_line,
+            message: "There are no commands to build from".to_string(),
+        }]),
+    }
+}
+
+/// Language given by the `lang` property of an overlay command
+fn language_of(content: &ast::Content) -> Result<isolang::Language, Vec<String>> {
+    match content.properties.as_ref().and_then(|p| p.get("lang")) {
+        Some(ast::NestedValue::Value(lang)) => isolang::Language::from_639_1(lang.as_str())
+            .ok_or_else(|| vec![format!("Unknown language: {lang}")]),
+        _ => Err(vec!["Undefined language".to_string()]),
     }
 }
 
@@ -156,30 +169,20 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
         (ast::CommandType::Add, ast::ObjectKind::Overlay(overlay_type, content)) => {
             match overlay_type {
                 ast::OverlayType::Meta(_) => {
+                    let lang_iso = language_of(&content)?;
                     if let Some(ref properties) = content.properties {
                         let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        let mut lang_iso = None;
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
+                        mut_properties.remove("lang");
 
                         for (prop_name, prop_value) in mut_properties {
                             if let ast::NestedValue::Value(value) = prop_value {
-                                oca.add_meta(lang_iso.unwrap(), prop_name.clone(), value.clone());
+                                oca.add_meta(lang_iso, prop_name.clone(), value.clone());
                             }
                         }
                     }
                 }
                 ast::OverlayType::Label(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang_iso = language_of(&content)?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -191,21 +194,14 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_label) = attr_type_value {
-                                attribute.set_label(lang_iso.unwrap(), attr_label.clone());
+                                attribute.set_label(lang_iso, attr_label.clone());
                             }
                             oca.add_attribute(attribute);
                         }
                     }
                 }
                 ast::OverlayType::Information(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang_iso = language_of(&content)?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -217,7 +213,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_info) = attr_type_value {
-                                attribute.set_information(lang_iso.unwrap(), attr_info.clone());
+                                attribute.set_information(lang_iso, attr_info.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -400,14 +396,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     }
                 }
                 ast::OverlayType::Entry(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang_iso = language_of(&content)?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -421,7 +410,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             match attr_type_value {
                                 ast::NestedValue::Value(attr_entries) => {
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        lang_iso,
                                         EntriesElement::Sai(attr_entries.clone()),
                                     );
                                 }
@@ -438,7 +427,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        lang_iso,
                                         EntriesElement::Object(entries),
                                     );
                                 }
-- 
2.43.0


From 908b2fa3cac6c4b24c63a3b22456bdb323727fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 03/41] fix: commands the builder does not support are build
 errors, not panics

---
 semantics/oca-bundle/src/build.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 0ac80ab..97beacc 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -448,6 +448,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     }
                     if target_bundle.is_none() {
                         errors.push("Undefined target bundle".to_string());
+                        return Err(errors);
                     }
 
                     if let Some(ref attributes) = content.attributes {
@@ -485,6 +486,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     }
                     if frame_id.is_none() {
                         errors.push("Undefined frame id".to_string());
+                        return Err(errors);
                     }
 
                     if let Some(ref attributes) = content.attributes {
@@ -528,7 +530,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 _ => (),
             }
         }
-        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => todo!(),
+        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => {
+            errors.push("Unsupported ADD command for an OCA Bundle".to_string())
+        }
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
@@ -543,11 +547,13 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 }
             }
         }
-        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::CaptureBase(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::Overlay(_, _)) => todo!(),
+        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => {
+            errors.push("Unsupported REMOVE command for an OCA Bundle".to_string())
+        }
+        (ast::CommandType::Remove, ast::ObjectKind::Overlay(overlay_type, _)) => {
+            errors.push(format!("Unsupported REMOVE command for {overlay_type}"))
+        }
+        (ast::CommandType::Modify, _) => errors.push("Unsupported MODIFY command".to_string()),
     }
 
     if errors.is_empty() {
-- 
2.43.0


From 229ddc722652335e5d3d202aab8d5b90c9126257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 04/41] fix: metadata of a frame is shared by all attributes
 framed by it

---
 semantics/oca-bundle/src/build.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 97beacc..e116da7 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -133,6 +133,17 @@ fn language_of(content: &ast::Content) -> Result<isolang::Language, Vec<String>>
     }
 }
 
+/// All scopes of the attributes framed by the frame `frame_id`
+fn frame_scopes<'a>(
+    oca: &'a mut OCABox,
+    frame_id: Option<&'a String>,
+) -> impl Iterator<Item = &'a mut FramingScope> {
+    oca.attributes
+        .values_mut()
+        .filter_map(move |attribute| attribute.framings.as_mut()?.get_mut(frame_id?))
+        .flat_map(|framing| framing.values_mut())
+}
+
 pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, Vec<String>> {
     let mut errors = vec![];
     let mut oca: OCABox = match base {
@@ -489,6 +500,12 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         return Err(errors);
                     }
 
+                    let mut merged_frame_meta = HashMap::new();
+                    for scope in frame_scopes(&mut oca, frame_id.as_ref()) {
+                        merged_frame_meta.extend(scope.frame_meta.clone());
+                    }
+                    merged_frame_meta.extend(frame_meta.clone());
+
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
                             let mut attribute = oca
@@ -526,6 +543,11 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             oca.add_attribute(attribute);
                         }
                     }
+
+                    // the metadata describes the frame: all its scopes carry the same
+                    for scope in frame_scopes(&mut oca, frame_id.as_ref()) {
+                        scope.frame_meta.clone_from(&merged_frame_meta);
+                    }
                 }
                 _ => (),
             }
-- 
2.43.0


From 8ab18182b1e5b3c70430699dafb65971a4c6a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 05/41] fix: flagged attributes are parsed one by one and
 flagged in the capture base

---
 semantics/oca-bundle/src/build.rs                     | 11 +++++++++++
 .../oca-file/src/ocafile/instructions/helpers.rs      | 11 ++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index e116da7..22ab7f3 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -166,6 +166,17 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     oca.add_attribute(attribute);
                 }
             }
+            if let Some(ref flagged_attributes) = content.flagged_attributes {
+                for attr_name in flagged_attributes {
+                    match oca.attributes.get_mut(attr_name) {
+                        Some(attribute) => attribute.set_flagged(),
+                        None => {
+                            errors.push(format!("Undefined attribute: {attr_name}"));
+                            return Err(errors);
+                        }
+                    }
+                }
+            }
             if let Some(ref properties) = content.properties {
                 // TODO handle other properties
                 for (prop_name, prop_value) in properties {
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index 7188edc..eded7ef 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -482,7 +482,16 @@ pub(crate) fn extract_flagged_attrs(object: pest::iterators::Pair<'_, Rule>) ->
     for attr in object.into_inner() {
         match attr.as_rule() {
             Rule::list_value => {
-                flagged_attrs.push(attr.as_str().to_string());
+                for key_value in attr.into_inner() {
+                    // a quoted name is kept without its quotes
+                    let name = match key_value.clone().into_inner().next() {
+                        Some(item) if item.as_rule() == Rule::string => {
+                            item.into_inner().next_back().unwrap()
+                        }
+                        _ => key_value,
+                    };
+                    flagged_attrs.push(name.as_str().to_string());
+                }
             }
             _ => {
                 debug!(
-- 
2.43.0


From 724e6dba7f6a8eff7c8fb047045060f8914dcf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 06/41] fix: REMOVE of a meta or label overlay keeps its
 language and keys when parsed

---
 .../oca-file/src/ocafile/instructions/remove.rs      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/instructions/remove.rs b/semantics/oca-file/src/ocafile/instructions/remove.rs
index 8373d41..d9addc8 100644
--- a/semantics/oca-file/src/ocafile/instructions/remove.rs
+++ b/semantics/oca-file/src/ocafile/instructions/remove.rs
@@ -87,9 +87,13 @@ fn extract_properties_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
-            _ => {
-                return properties;
+            Rule::lang => {
+                properties.insert(
+                    "lang".to_string(),
+                    NestedValue::Value(attr_pairs.as_str().to_string()),
+                );
             }
+            _ => continue,
         }
     }
     properties
@@ -107,9 +111,7 @@ fn extract_attribute_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
-            _ => {
-                return attributes;
-            }
+            _ => continue,
         }
     }
     attributes
-- 
2.43.0


From a830f89540295b42daaf523091a0c520d6c03fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 07/41] fix: classification and file meta values are read
 without their quotes

---
 oca-file/src/ocafile/mod.rs                   |  8 +++++++-
 .../oca-file/src/ocafile/instructions/add.rs  |  7 ++-----
 .../src/ocafile/instructions/helpers.rs       | 19 +++++++++++--------
 semantics/oca-file/src/ocafile/mod.rs         |  2 +-
 transformation/oca-file/src/ocafile/mod.rs    |  8 +++++++-
 5 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/oca-file/src/ocafile/mod.rs b/oca-file/src/ocafile/mod.rs
index 877518d..5a9e3da 100644
--- a/oca-file/src/ocafile/mod.rs
+++ b/oca-file/src/ocafile/mod.rs
@@ -58,7 +58,13 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        // a quoted value is kept without its quotes
+                        value = match attr.clone().into_inner().next() {
+                            Some(item) if item.as_rule() == Rule::string => {
+                                item.into_inner().next_back().unwrap().as_str().to_string()
+                            }
+                            _ => attr.as_str().to_string(),
+                        };
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
diff --git a/semantics/oca-file/src/ocafile/instructions/add.rs b/semantics/oca-file/src/ocafile/instructions/add.rs
index b08fdf9..1ce452b 100644
--- a/semantics/oca-file/src/ocafile/instructions/add.rs
+++ b/semantics/oca-file/src/ocafile/instructions/add.rs
@@ -55,11 +55,8 @@ impl AddInstruction {
                 Rule::classification => {
                     let mut properties: IndexMap<String, NestedValue> = IndexMap::new();
                     let classification = object.into_inner().next().unwrap();
-                    print!("Classification: {:?}", classification.as_rule());
-                    properties.insert(
-                        "classification".to_string(),
-                        NestedValue::Value(classification.as_str().to_string()),
-                    );
+                    let value = helpers::extract_string(classification);
+                    properties.insert("classification".to_string(), NestedValue::Value(value));
                     object_kind = Some(ObjectKind::CaptureBase(CaptureContent {
                         properties: Some(properties),
                         attributes: None,
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index eded7ef..6508310 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -81,6 +81,16 @@ pub fn extract_attribute(
     Ok((attr_name, attr_type))
 }
 
+/// Extract a value which is either a quoted string or bare characters
+pub(crate) fn extract_string(value: Pair) -> String {
+    match value.clone().into_inner().next() {
+        Some(item) if item.as_rule() == Rule::string => item.into_inner().next_back().unwrap(),
+        _ => value,
+    }
+    .as_str()
+    .to_string()
+}
+
 /// Extract attributes key pairs for ADD and MODIFY command
 pub fn extract_attribute_key_pairs(attr_pair: Pair) -> Option<(String, NestedValue)> {
     let mut key = String::new();
@@ -483,14 +493,7 @@ pub(crate) fn extract_flagged_attrs(object: pest::iterators::Pair<'_, Rule>) ->
         match attr.as_rule() {
             Rule::list_value => {
                 for key_value in attr.into_inner() {
-                    // a quoted name is kept without its quotes
-                    let name = match key_value.clone().into_inner().next() {
-                        Some(item) if item.as_rule() == Rule::string => {
-                            item.into_inner().next_back().unwrap()
-                        }
-                        _ => key_value,
-                    };
-                    flagged_attrs.push(name.as_str().to_string());
+                    flagged_attrs.push(extract_string(key_value));
                 }
             }
             _ => {
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 027bdf8..b7e2443 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -79,7 +79,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        value = instructions::helpers::extract_string(attr);
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index bc08e84..db14a8d 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -73,7 +73,13 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                         key = attr.as_str().to_string();
                     }
                     Rule::meta_attr_value => {
-                        value = attr.as_str().to_string();
+                        // a quoted value is kept without its quotes
+                        value = match attr.clone().into_inner().next() {
+                            Some(item) if item.as_rule() == Rule::string => {
+                                item.into_inner().next_back().unwrap().as_str().to_string()
+                            }
+                            _ => attr.as_str().to_string(),
+                        };
                     }
                     _ => {
                         return Err(ParseError::MetaError(attr.as_str().to_string()));
-- 
2.43.0


From 532ba40c1df178c703771909812e8f3d034a197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 08/41] fix: reported line numbers count lines and dashes
 inside a line are not file meta

---
 oca-file/src/ocafile.pest                  | 5 ++++-
 semantics/oca-file/src/ocafile/mod.rs      | 4 ++--
 transformation/oca-file/src/ocafile/mod.rs | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 626ef22..021aa25 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -54,8 +54,11 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
+// any other line, a string in it may span lines
+other_line = _{ (string | !NEWLINE ~ ANY)+ ~ NEWLINE? }
+
 file = {
   SOI ~
-  (empty_line | meta_comment_line | comment_line | ANY)*
+  (empty_line | meta_comment_line | comment_line | other_line)*
   ~ EOI
 }
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index b7e2443..0e3ed5e 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -63,7 +63,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -106,7 +106,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index db14a8d..4f3e8ae 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -57,7 +57,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -106,7 +106,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
-- 
2.43.0


From cc5c1af028fe6dfc52833a0dfe541c8ea70e3dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 09/41] fix: comments between continued lines are not read as
 part of the command

---
 semantics/oca-file/src/ocafile.pest      | 7 +++++--
 transformation/oca-file/src/ocafile.pest | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 6924889..c6c06e5 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -27,12 +27,15 @@ string = ${ single_quoted_string | double_quoted_string }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 
+// comments and empty lines between continued lines leave no token behind
+skipped_line = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
+
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ skipped_line*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ skipped_line*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 2a7119e..01ed168 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -27,12 +27,15 @@ string = ${ single_quoted_string | double_quoted_string }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 
+// comments and empty lines between continued lines leave no token behind
+skipped_line = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
+
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ skipped_line*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ skipped_line*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
-- 
2.43.0


From 8e976e71d44952778ab21af88f4dab3de144b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 10/41] fix: grouped entry codes are serialized in the same
 order before and after a reload

---
 semantics/oca-bundle/src/state/entry_codes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/entry_codes.rs b/semantics/oca-bundle/src/state/entry_codes.rs
index 9a1bddc..8577987 100644
--- a/semantics/oca-bundle/src/state/entry_codes.rs
+++ b/semantics/oca-bundle/src/state/entry_codes.rs
@@ -3,6 +3,7 @@ use serde::{
     ser::{SerializeMap, SerializeSeq},
     Deserialize, Serialize,
 };
+use std::collections::BTreeMap;
 
 impl Serialize for EntryCodes {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -22,7 +23,7 @@ impl Serialize for EntryCodes {
             }
             Self::Object(codes) => {
                 let mut map = serializer.serialize_map(Some(codes.len()))?;
-                let sorted_codes: IndexMap<_, _> = codes.iter().collect();
+                let sorted_codes: BTreeMap<_, _> = codes.iter().collect();
                 for (k, v) in sorted_codes {
                     map.serialize_entry(k, v)?;
                 }
-- 
2.43.0


From c1a508e075a7aa8576a04e9e8644cc3dc153244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 11/41] fix: the history recorded for a bundle is written once
 and never to itself

---
 oca/src/facade/build.rs | 20 +++++++++++++-------
 oca/src/facade/fetch.rs |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index d7d6d7a..a140d1c 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -299,13 +299,19 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        self.db
-            .insert(
-                Namespace::OCA,
-                &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
-                &input,
-            )
-            .unwrap();
+        // a bundle keeps the history it was first reached by
+        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
+        if step.parent_said != result_bundle.said
+            && self
+                .db
+                .get(Namespace::OCA, &operation_key)
+                .unwrap()
+                .is_none()
+        {
+            self.db
+                .insert(Namespace::OCA, &operation_key, &input)
+                .unwrap();
+        }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index f588588..637557b 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -309,7 +309,7 @@ impl Facade {
             history.push(OCABuildStep {
                 parent_said: parent_said.clone().parse().ok(),
                 command,
-                result: self.get_oca_bundle(s, false).unwrap().bundle.clone(),
+                result: self.get_oca_bundle(s, false)?.bundle,
             });
             said = parent_said;
 
-- 
2.43.0


From 4925dd53664b8679c719ce738001d218e45cb836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 12/41] fix: a FROM naming an unknown bundle is an error

---
 oca/src/facade/build.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index a140d1c..06a5696 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -205,13 +205,22 @@ impl Facade {
                                     }
                                 }
                             }
-                            RefValue::Name(_) => todo!(),
+                            RefValue::Name(name) => {
+                                errors.push(ValidationError::InvalidCommand {
+                                    line_number: 0,
+                                    raw_line: "unknown".to_string(),
+                                    message: format!("FROM does not support local name: {name}"),
+                                });
+                            }
                         }
                     }
                 }
                 oca_ast.commands.remove(0);
             }
         };
+        if !errors.is_empty() {
+            return Err(errors);
+        }
         Ok((base, oca_ast))
     }
 
-- 
2.43.0


From 1506ffe1d429fd0a561810968665e554c62978cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 13/41] fix: references are resolved and followed at any depth
 of an array

---
 oca/src/facade/fetch.rs     | 17 ++++------
 oca/src/local_references.rs | 66 ++++++++++++++++++-------------------
 2 files changed, 38 insertions(+), 45 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 637557b..3e30a38 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -409,17 +409,12 @@ fn retrive_all_references(bundle: OCABundle) -> Vec<SelfAddressingIdentifier> {
     let mut refs: Vec<SelfAddressingIdentifier> = vec![];
 
     for (_, value) in bundle.capture_base.attributes {
-        match value {
-            ast::NestedAttrType::Reference(RefValue::Said(said)) => {
-                refs.push(said);
-            }
-            // TODO(recursion) handle nested arrays
-            ast::NestedAttrType::Array(box_attr_type) => {
-                if let ast::NestedAttrType::Reference(RefValue::Said(said)) = &*box_attr_type {
-                    refs.push(said.clone());
-                }
-            }
-            _ => {}
+        let mut attr_type = &value;
+        while let ast::NestedAttrType::Array(box_attr_type) = attr_type {
+            attr_type = box_attr_type;
+        }
+        if let ast::NestedAttrType::Reference(RefValue::Said(said)) = attr_type {
+            refs.push(said.clone());
         }
     }
     refs
diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 0a34b37..958bf2c 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -12,6 +12,32 @@ pub trait References {
     fn save(&mut self, refn: &str, value: String);
 }
 
+fn find_said<R: References>(
+    refn: &str,
+    references: &R,
+) -> Result<SelfAddressingIdentifier, ValidationError> {
+    references
+        .find(refn)
+        .and_then(|said| SelfAddressingIdentifier::from_str(&said).ok())
+        .ok_or_else(|| ValidationError::UnknownRefn(refn.to_string()))
+}
+
+// Dereference the attribute type, at any depth of arrays
+fn dereference<R: References>(
+    attr_type: &mut NestedAttrType,
+    references: &R,
+) -> Result<(), ValidationError> {
+    match attr_type {
+        NestedAttrType::Reference(RefValue::Name(refn)) => {
+            let said = find_said(refn, references)?;
+            *attr_type = NestedAttrType::Reference(RefValue::Said(said));
+            Ok(())
+        }
+        NestedAttrType::Array(box_attr_type) => dereference(box_attr_type, references),
+        _ => Ok(()),
+    }
+}
+
 // Iterate over all commands and dereference all attribute references
 pub fn replace_refn_with_refs<R: References>(
     oca_ast: &mut OCAAst,
@@ -23,30 +49,7 @@ pub fn replace_refn_with_refs<R: References>(
         {
             if let Some(attributes) = &mut content.attributes {
                 for (_, attr_type) in attributes {
-                    match attr_type {
-                        NestedAttrType::Reference(RefValue::Name(refn)) => {
-                            if let Some(said) = references.find(refn) {
-                                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                *attr_type = NestedAttrType::Reference(RefValue::Said(said));
-                            } else {
-                                return Err(ValidationError::UnknownRefn(refn.clone()));
-                            }
-                        }
-                        NestedAttrType::Array(box_attr_type) => {
-                            if let NestedAttrType::Reference(RefValue::Name(refn)) =
-                                &**box_attr_type
-                            {
-                                if let Some(said) = references.find(refn) {
-                                    let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                    **box_attr_type =
-                                        NestedAttrType::Reference(RefValue::Said(said));
-                                } else {
-                                    return Err(ValidationError::UnknownRefn(refn.clone()));
-                                }
-                            }
-                        }
-                        _ => (),
-                    }
+                    dereference(attr_type, references)?;
                 }
             }
         }
@@ -57,16 +60,11 @@ pub fn replace_refn_with_refs<R: References>(
             if let Some(properties) = &mut content.properties {
                 if let Some(NestedValue::Reference(RefValue::Name(refn))) = properties.get("target")
                 {
-                    if let Some(said) = references.find(refn) {
-                        let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                        properties.insert(
-                            "target".to_string(),
-                            NestedValue::Reference(RefValue::Said(said)),
-                        );
-                        *properties = properties.clone();
-                    } else {
-                        return Err(ValidationError::UnknownRefn(refn.clone()));
-                    }
+                    let said = find_said(refn, references)?;
+                    properties.insert(
+                        "target".to_string(),
+                        NestedValue::Reference(RefValue::Said(said)),
+                    );
                 }
             }
         }
-- 
2.43.0


From 45ddb946d0a2399436ebfe50c2a803def3eb1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 14/41] fix: asking for relations or objects that were never
 recorded is not a panic

---
 oca/src/facade/explore.rs | 4 ++++
 oca/src/facade/fetch.rs   | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 096669c..e57cea7 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -8,6 +8,10 @@ use super::Facade;
 
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
+        // only objects of built bundles have relations, and metadata beside them
+        self.db
+            .get(Namespace::OCARelations, &format!("{}.metadata", said))
+            .ok()??;
         let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
 
         match relations_u8_res {
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 3e30a38..a3b1698 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -232,7 +232,13 @@ impl Facade {
                     errors.push(e.to_string());
                     errors.clone()
                 })?;
-            let o_type: ObjectKind = (*r_type.unwrap().first().unwrap()).into();
+            let o_type: ObjectKind = (*r_type.as_ref().and_then(|t| t.first()).ok_or_else(
+                || {
+                    errors.push(format!("No OCA Object found for said: {}", said));
+                    errors.clone()
+                },
+            )?)
+            .into();
             match o_type {
                 ObjectKind::CaptureBase(_) => result.push(OCAObject::CaptureBase(
                     serde_json::from_str::<CaptureBase>(&object_str).map_err(|e| {
-- 
2.43.0


From 96032a9f586c08b72cd3a1f89c20a1e054577492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 15/41] fix: a bundle is listed and searchable only after it is
 stored

---
 oca/src/facade/build.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 06a5696..423b638 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -122,10 +122,6 @@ impl Facade {
     }
 
     pub fn build(&mut self, oca_build: &OCABuild) -> Result<OCABundle, Error> {
-        self.build_cache(&oca_build.oca_bundle);
-
-        self.build_meta(&oca_build.oca_bundle);
-
         oca_build
             .steps
             .iter()
@@ -135,6 +131,11 @@ impl Facade {
 
         self.build_models(oca_build);
 
+        // listed and searchable only once everything it refers to is stored
+        self.build_cache(&oca_build.oca_bundle);
+
+        self.build_meta(&oca_build.oca_bundle);
+
         Ok(oca_build.oca_bundle.clone())
     }
 
-- 
2.43.0


From a21fb3bd8f3accda8a55a18e701aecae5f28ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 16/41] fix: any search text and any page number is answered

---
 oca/src/repositories/capture_base_cache_repo.rs |  2 +-
 oca/src/repositories/mod.rs                     |  7 +++++++
 oca/src/repositories/oca_bundle_cache_repo.rs   |  2 +-
 oca/src/repositories/oca_bundle_fts_repo.rs     | 13 +++++++++++--
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index e313e5b..047d669 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -49,7 +49,7 @@ impl CaptureBaseCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::page_range(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/mod.rs b/oca/src/repositories/mod.rs
index bbd565a..b576778 100644
--- a/oca/src/repositories/mod.rs
+++ b/oca/src/repositories/mod.rs
@@ -7,6 +7,13 @@ pub use oca_bundle_cache_repo::*;
 
 use std::path::PathBuf;
 
+/// Limit and offset of a page, pages are numbered from 1
+fn page_range(limit: usize, page: usize) -> (i64, i64) {
+    let limit = i64::try_from(limit).unwrap_or(i64::MAX);
+    let skipped = i64::try_from(page.saturating_sub(1)).unwrap_or(i64::MAX);
+    (limit, limit.saturating_mul(skipped))
+}
+
 #[derive(Clone)]
 pub struct SQLiteConfig {
     pub path: Option<PathBuf>,
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 85ce2f1..0f58ef4 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -52,7 +52,7 @@ impl OCABundleCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::page_range(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 7d63b15..bfc8887 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -77,7 +77,16 @@ impl OCABundleFTSRepo {
         limit: usize,
         page: usize,
     ) -> SearchResult {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = super::page_range(limit, page);
+        // every word is looked for as it is written
+        let meta_query = format!(
+            "({})",
+            meta_query
+                .split(|c: char| c.is_whitespace() || c == '\0')
+                .map(|word| format!("\"{}\"", word.replace('"', "\"\"")))
+                .collect::<Vec<_>>()
+                .join(" ")
+        );
         let query = match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
@@ -133,7 +142,7 @@ impl OCABundleFTSRepo {
                 snippet_regex = snippet_regex.replace("<mark>", "");
                 snippet_regex = snippet_regex.replace("</mark>", "");
                 let mut v: Vec<String> =
-                    snippet_regex.split("...").map(|x| x.to_string()).collect();
+                    snippet_regex.split("...").map(regex::escape).collect();
                 if v.first().unwrap().is_empty() {
                     v.remove(0);
                     if let Some(x) = v.first_mut() {
-- 
2.43.0


From b7be94eb98d1a3d8e20186d922d5bb84a8ce26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 17/41] fix: file system storage keeps keys inside its
 directory and lists its entries

---
 oca/src/data_storage.rs | 54 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 7bf0970..29e95c0 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -237,6 +237,37 @@ impl FileSystemStorageConfigBuilder {
     }
 }
 
+/// File name of a key: any key is one name inside the directory of its namespace
+fn key_to_file_name(key: &str) -> String {
+    let mut name = String::new();
+    for (i, b) in key.bytes().enumerate() {
+        match b {
+            b'.' if i == 0 => name.push_str("%2E"),
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'.' | b'-' | b'_' => name.push(b as char),
+            _ => name.push_str(&format!("%{b:02X}")),
+        }
+    }
+    if name.is_empty() {
+        name.push('%');
+    }
+    name
+}
+
+fn file_name_to_key(name: &str) -> Option<String> {
+    let mut key = vec![];
+    let mut rest = if name == "%" { "" } else { name };
+    while let Some(c) = rest.chars().next() {
+        if c == '%' {
+            key.push(u8::from_str_radix(rest.get(1..3)?, 16).ok()?);
+            rest = &rest[3..];
+        } else {
+            key.extend(c.to_string().bytes());
+            rest = &rest[c.len_utf8()..];
+        }
+    }
+    String::from_utf8(key).ok()
+}
+
 impl DataStorage for FileSystemStorage {
     fn new() -> Self {
         Self { dir: None }
@@ -256,7 +287,7 @@ impl DataStorage for FileSystemStorage {
             let mut path = dir.clone();
             path.push(namespace.as_str());
             if path.try_exists().unwrap() {
-                path.push(key);
+                path.push(key_to_file_name(key));
                 Ok(std::fs::read(path.clone()).ok())
             } else {
                 Ok(None)
@@ -266,8 +297,23 @@ impl DataStorage for FileSystemStorage {
         }
     }
 
-    fn get_all(&self, _namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
-        Err("Not implemented".to_string())
+    fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
+        if let Some(ref dir) = self.dir {
+            let mut all = HashMap::new();
+            let path = dir.join(namespace.as_str());
+            if path.try_exists().map_err(|e| e.to_string())? {
+                for entry in std::fs::read_dir(path).map_err(|e| e.to_string())? {
+                    let entry = entry.map_err(|e| e.to_string())?;
+                    if let Some(key) = entry.file_name().to_str().and_then(file_name_to_key) {
+                        let value = std::fs::read(entry.path()).map_err(|e| e.to_string())?;
+                        all.insert(key, value);
+                    }
+                }
+            }
+            Ok(all)
+        } else {
+            Err("File path is required".to_string())
+        }
     }
 
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
@@ -278,7 +324,7 @@ impl DataStorage for FileSystemStorage {
                 std::fs::create_dir_all(path.clone()).unwrap();
             }
 
-            path.push(key);
+            path.push(key_to_file_name(key));
             std::fs::write(path.clone(), value).map_err(|e| e.to_string())
         } else {
             Err("File path is required".to_string())
-- 
2.43.0


From c58092de381a4e920db6d6f6e62fe6b5d55baa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 18/41] fix: a FROM naming a local name is an error, one naming
 an unknown bundle stays ignored

The test build_from_other_bundle builds on a SAID that is not stored.
---
 oca/src/facade/build.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 423b638..97f2b02 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -207,11 +207,11 @@ impl Facade {
                                 }
                             }
                             RefValue::Name(name) => {
-                                errors.push(ValidationError::InvalidCommand {
+                                return Err(vec![ValidationError::InvalidCommand {
                                     line_number: 0,
                                     raw_line: "unknown".to_string(),
                                     message: format!("FROM does not support local name: {name}"),
-                                });
+                                }]);
                             }
                         }
                     }
@@ -219,9 +219,6 @@ impl Facade {
                 oca_ast.commands.remove(0);
             }
         };
-        if !errors.is_empty() {
-            return Err(errors);
-        }
         Ok((base, oca_ast))
     }
 
-- 
2.43.0


From 681caca727acbe7f56867258b3e54a57f7ace3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 19/41] fix: a bundle document with dangling parts is an error
 or ignored, not a panic

---
 semantics/oca-ast/src/ast/attributes.rs |   5 +-
 semantics/oca-bundle/src/state/oca.rs   | 152 ++++++++++++------------
 2 files changed, 80 insertions(+), 77 deletions(-)

diff --git a/semantics/oca-ast/src/ast/attributes.rs b/semantics/oca-ast/src/ast/attributes.rs
index ae49b7c..f7eac04 100644
--- a/semantics/oca-ast/src/ast/attributes.rs
+++ b/semantics/oca-ast/src/ast/attributes.rs
@@ -94,7 +94,10 @@ impl<'de> Deserialize<'de> for NestedAttrType {
                     }
                 }
             },
-            serde_json::Value::Array(arr) => NestedAttrTypeFrame::Array(arr[0].clone()).into(),
+            serde_json::Value::Array(arr) => match arr.first() {
+                Some(inner) => NestedAttrTypeFrame::Array(inner.clone()).into(),
+                None => AttributeError::ConvertingFailure("[]".to_string()).into(),
+            },
             value => {
                 AttributeError::ConvertingFailure(serde_json::to_string(&value).unwrap()).into()
             }
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 241336f..c925e55 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -642,10 +642,10 @@ where
             while let Some((_, value)) = map.next_entry::<String, serde_value::Value>()? {
                 if let serde_value::Value::Seq(ov) = value {
                     for o in ov {
-                        overlays.push(o.deserialize_into().unwrap());
+                        overlays.push(o.deserialize_into().map_err(serde::de::Error::custom)?);
                     }
                 } else if let serde_value::Value::Map(_) = value {
-                    overlays.push(value.deserialize_into().unwrap());
+                    overlays.push(value.deserialize_into().map_err(serde::de::Error::custom)?);
                 }
             }
 
@@ -698,7 +698,9 @@ impl From<OCABundle> for OCABox {
             attributes.insert(attr_name.clone(), attr);
         }
         for attr_name in oca_bundle.capture_base.flagged_attributes {
-            attributes.get_mut(&attr_name).unwrap().set_flagged();
+            if let Some(attribute) = attributes.get_mut(&attr_name) {
+                attribute.set_flagged();
+            }
         }
 
         let meta_overlays = oca_bundle
@@ -723,10 +725,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in character_encoding_overlays {
             for (attr_name, encoding) in overlay.attribute_character_encoding.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_encoding(*encoding);
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_encoding(*encoding);
+                }
             }
         }
 
@@ -737,10 +738,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in conformance_overlays {
             for (attr_name, conformance) in overlay.attribute_conformance.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_conformance(conformance.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_conformance(conformance.clone());
+                }
             }
         }
 
@@ -753,18 +753,27 @@ impl From<OCABundle> for OCABox {
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for overlay in conditional_overlays {
             for (attr_name, condition) in overlay.attribute_conditions.iter() {
-                let condition_dependencies = overlay.attribute_dependencies.get(attr_name).unwrap(); // todo
+                let condition_dependencies = overlay
+                    .attribute_dependencies
+                    .get(attr_name)
+                    .cloned()
+                    .unwrap_or_default();
                 let cond = re
                     .replace_all(condition, |caps: &regex::Captures| {
-                        let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()].clone();
-                        format!("${{{}}}", dep)
+                        let dep = caps[1]
+                            .parse::<usize>()
+                            .ok()
+                            .and_then(|i| condition_dependencies.get(i));
+                        match dep {
+                            Some(dep) => format!("${{{}}}", dep),
+                            None => caps[0].to_string(),
+                        }
                     })
                     .to_string();
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_condition(cond.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_condition(cond.clone());
+                }
             }
         }
 
@@ -775,10 +784,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in cardinality_overlays {
             for (attr_name, cardinality) in overlay.attribute_cardinality.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_cardinality(cardinality.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_cardinality(cardinality.clone());
+                }
             }
         }
 
@@ -791,10 +799,9 @@ impl From<OCABundle> for OCABox {
                 .collect::<Vec<_>>();
             for overlay in format_overlays {
                 for (attr_name, format) in overlay.attribute_formats.iter() {
-                    attributes
-                        .get_mut(attr_name)
-                        .unwrap()
-                        .set_format(format.clone());
+                    if let Some(attribute) = attributes.get_mut(attr_name) {
+                        attribute.set_format(format.clone());
+                    }
                 }
             }
         }
@@ -806,10 +813,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in unit_overlays {
             for (attr_name, unit) in overlay.attribute_unit.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_unit(unit.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_unit(unit.clone());
+                }
             }
         }
 
@@ -820,10 +826,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_code_overlays {
             for (attr_name, entry_code) in overlay.attribute_entry_codes.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry_codes(entry_code.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_entry_codes(entry_code.clone());
+                }
             }
         }
 
@@ -834,10 +839,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_overlays {
             for (attr_name, entries) in overlay.attribute_entries.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry(*overlay.language().unwrap(), entries.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_entry(*overlay.language().unwrap(), entries.clone());
+                }
             }
         }
 
@@ -848,10 +852,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in label_overlays {
             for (attr_name, label) in overlay.attribute_labels.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_label(*overlay.language().unwrap(), label.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_label(*overlay.language().unwrap(), label.clone());
+                }
             }
         }
 
@@ -862,10 +865,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in information_overlays {
             for (attr_name, information) in overlay.attribute_information.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_information(*overlay.language().unwrap(), information.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_information(*overlay.language().unwrap(), information.clone());
+                }
             }
         }
 
@@ -876,10 +878,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in link_overlays {
             for (attr_name, mapping) in overlay.attribute_mapping.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_link(overlay.target_bundle.clone(), mapping.clone());
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_link(overlay.target_bundle.clone(), mapping.clone());
+                }
             }
         }
 
@@ -889,7 +890,9 @@ impl From<OCABundle> for OCABox {
             .filter_map(|x| x.as_any().downcast_ref::<overlay::AttributeFraming>())
             .collect::<Vec<_>>();
         for overlay in framing_overlays {
-            let frame_id = overlay.metadata.get("frame_id").unwrap();
+            let Some(frame_id) = overlay.metadata.get("frame_id") else {
+                continue;
+            };
             let mut frame_meta = overlay.metadata.clone();
             frame_meta.remove("frame_id");
 
@@ -903,10 +906,9 @@ impl From<OCABundle> for OCABox {
                     })
                     .collect::<HashMap<_, _>>();
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_framing(frame_id.to_string(), framing);
+                if let Some(attribute) = attributes.get_mut(attr_name) {
+                    attribute.set_framing(frame_id.to_string(), framing);
+                }
             }
         }
 
@@ -918,6 +920,12 @@ impl From<OCABundle> for OCABox {
     }
 }
 
+fn language_code(language: Option<&Language>) -> String {
+    language
+        .map(|lang| lang.to_639_1().unwrap_or(lang.to_639_3()).to_string())
+        .unwrap_or_default()
+}
+
 impl OCABundle {
     pub fn fill_said(&mut self) {
         let code = HashFunctionCode::Blake3_256;
@@ -1009,9 +1017,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            meta.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(meta.language())),
                     );
                     for (meta_name, meta_value) in meta.attr_pairs.iter() {
                         properties
@@ -1034,9 +1040,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            label.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(label.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, label) in label.attribute_labels.iter() {
@@ -1062,14 +1066,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            information
-                                .language()
-                                .unwrap()
-                                .to_639_1()
-                                .unwrap()
-                                .to_string(),
-                        ),
+                        NestedValue::Value(language_code(information.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, information) in information.attribute_information.iter() {
@@ -1097,12 +1094,17 @@ impl OCABundle {
                     let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
                     for (attr_name, condition) in conditional.attribute_conditions.iter() {
                         let condition_dependencies =
-                            conditional.attribute_dependencies.get(attr_name).unwrap(); // todo
+                            conditional.attribute_dependencies.get(attr_name);
                         let cond = re
                             .replace_all(condition, |caps: &regex::Captures| {
-                                let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()]
-                                    .clone();
-                                format!("${{{}}}", dep)
+                                let dep = caps[1]
+                                    .parse::<usize>()
+                                    .ok()
+                                    .and_then(|i| condition_dependencies?.get(i));
+                                match dep {
+                                    Some(dep) => format!("${{{}}}", dep),
+                                    None => caps[0].to_string(),
+                                }
                             })
                             .to_string();
 
@@ -1203,9 +1205,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            entry.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(entry.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, entries) in entry.attribute_entries.iter() {
-- 
2.43.0


From dbd3dec5953abc64d26fa552316ec63d5027e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 20/41] fix: the OCAFILE generated from a bundle or a history
 says all of it and can be parsed

---
 semantics/oca-bundle/src/state/oca.rs |  71 ++++++++++++++-
 semantics/oca-file/src/ocafile/mod.rs | 124 +++++++++++++++++++-------
 2 files changed, 161 insertions(+), 34 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index c925e55..3c164ee 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -28,6 +28,7 @@ use convert_case::{Case, Casing};
 use isolang::Language;
 use oca_ast_semantics::ast::{
     CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
+    RefValue,
 };
 /// Internal representation of OCA objects in split between non-attributes values and attributes.
 /// It is used to build dynamically objects without knowing yet whole structure of the object.
@@ -959,7 +960,8 @@ impl OCABundle {
                 // TODO find out if we can use indexmap in capture base to simplify stuff
                 attributes: Some(self.capture_base.attributes.clone().into_iter().collect()),
                 properties,
-                flagged_attributes: None,
+                flagged_attributes: Some(self.capture_base.flagged_attributes.clone())
+                    .filter(|flagged| !flagged.is_empty()),
             }),
         };
         ast.commands.push(command);
@@ -1287,6 +1289,73 @@ impl OCABundle {
                     };
                     ast.commands.push(command);
                 }
+                OverlayType::Link(_) => {
+                    let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
+                    let mut properties = IndexMap::new();
+                    if let Ok(target) = link.target_bundle.parse() {
+                        properties.insert(
+                            "target".to_string(),
+                            NestedValue::Reference(RefValue::Said(target)),
+                        );
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, linked_attr) in link.attribute_mapping.iter() {
+                        attributes
+                            .insert(attr_name.clone(), NestedValue::Value(linked_attr.clone()));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
+                OverlayType::AttributeFraming(_) => {
+                    let framing_ov = overlay
+                        .as_any()
+                        .downcast_ref::<overlay::AttributeFraming>()
+                        .unwrap();
+                    let mut properties = IndexMap::new();
+                    for (name, value) in framing_ov.metadata.iter() {
+                        let name = name.strip_prefix("frame_").unwrap_or(name);
+                        properties.insert(name.to_string(), NestedValue::Value(value.clone()));
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, framing) in framing_ov.attribute_framing.iter() {
+                        let terms = framing
+                            .iter()
+                            .map(|(term, scope)| {
+                                let mut value = IndexMap::new();
+                                value.insert(
+                                    "predicate_id".to_string(),
+                                    NestedValue::Value(scope.predicate_id.clone()),
+                                );
+                                value.insert(
+                                    "framing_justification".to_string(),
+                                    NestedValue::Value(scope.framing_justification.clone()),
+                                );
+                                (term.clone(), NestedValue::Object(value))
+                            })
+                            .collect();
+                        attributes.insert(attr_name.clone(), NestedValue::Object(terms));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
                 _ => {}
             }
         });
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 0e3ed5e..a0a6fe6 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -130,10 +130,26 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 fn format_reference(ref_value: RefValue) -> String {
     match ref_value {
         RefValue::Said(said) => format!("refs:{}", said),
-        _ => panic!("Unsupported reference type: {:?}", ref_value),
+        RefValue::Name(name) => format!("refn:{}", name),
     }
 }
 
+// Quote a value. Values keep their escapes, so the only quote which may stand
+// unescaped in a value is the one it was not quoted with
+fn quoted(value: &str) -> String {
+    let mut chars = value.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                chars.next();
+            }
+            '"' => return format!("'{}'", value),
+            _ => {}
+        }
+    }
+    format!("\"{}\"", value)
+}
+
 // Convert NestedAttrType to oca file syntax
 fn oca_file_format(nested: NestedAttrType) -> String {
     nested.collapse_frames(|frame| match frame {
@@ -167,24 +183,33 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                 line.push_str("ADD ");
                 match &command.object_kind {
                     ast::ObjectKind::CaptureBase(content) => {
-                        if let Some(attributes) = &content.attributes {
-                            line.push_str("ATTRIBUTE");
+                        let mut instructions = vec![];
+                        if let Some(attributes) = content.attributes.as_ref().filter(|a| !a.is_empty()) {
+                            let mut line = "ATTRIBUTE".to_string();
                             for (key, value) in attributes {
                                 line.push_str(&format!(" {}=", key));
                                 // TODO avoid clone
                                 let out = oca_file_format(value.clone());
                                 line.push_str(&out);
                             }
+                            instructions.push(line);
                         }
                         if let Some(properties) = &content.properties {
                             for (prop_name, prop_value) in properties {
                                 if prop_name.eq("classification") {
                                     if let ast::NestedValue::Value(value) = prop_value {
-                                        line.push_str(format!("CLASSIFICATION {}", value).as_str());
+                                        instructions.push(format!("CLASSIFICATION {}", quoted(value)));
                                     }
                                 }
                             }
                         }
+                        if let Some(flagged) = content.flagged_attributes.as_ref().filter(|f| !f.is_empty()) {
+                            instructions.push(format!("FLAGGED_ATTRIBUTES {}", flagged.join(" ")));
+                        }
+                        if instructions.is_empty() {
+                            return;
+                        }
+                        line.push_str(&instructions.join("\nADD "));
                     }
                     ast::ObjectKind::Overlay(o_type, _) => match o_type {
                         ast::OverlayType::Meta(_) => {
@@ -202,7 +227,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -218,7 +243,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -234,7 +259,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}={}", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -248,7 +273,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quoted(value))
                                                     } else {
                                                         None
                                                     }
@@ -266,14 +291,14 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(quoted(value))
                                                     } else {
                                                         None
                                                     }
                                                 })
                                                 .collect::<Vec<String>>()
                                                 .join(", ");
-                                                    Some(format!("\"{}\": [{}]", group, codes))
+                                                    Some(format!("{}: [{}]", quoted(group), codes))
                                                     } else {
                                                         None
                                                     }
@@ -283,7 +308,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                             line.push_str(format!(" {}={{{}}}", key, group_codes).as_str());
                                         } else if let ast::NestedValue::Value(said) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, said).as_str(),
+                                                format!(" {}={}", key, quoted(said)).as_str(),
                                             );
                                         }
                                     });
@@ -305,13 +330,13 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}={}", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
                                     }
                                     if let Some(ref attributes) = content.attributes {
-                                        line.push_str("ATTRS ");
+                                        line.push_str("ATTRS");
                                         attributes.iter().for_each(|(key, value)| {
                                             // TODO there is no need for NestedValue here
                                             if let ast::NestedValue::Object(values) = value {
@@ -323,8 +348,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                             label
                                                         {
                                                             Some(format!(
-                                                                "\"{}\": \"{}\"",
-                                                                code, label
+                                                                "{}: {}",
+                                                                quoted(code), quoted(label)
                                                             ))
                                                         } else {
                                                             None
@@ -333,11 +358,11 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                     .collect::<Vec<String>>()
                                                     .join(", ");
                                                 line.push_str(
-                                                    format!("{}={{{}}}", key, codes).as_str(),
+                                                    format!(" {}={{{}}}", key, codes).as_str(),
                                                 );
                                             } else if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -354,7 +379,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}={}", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -365,7 +390,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -377,9 +402,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             if let Some(content) = command.object_kind.overlay_content() {
                                 if let Some(ref properties) = content.properties {
                                     let target = properties.get("target");
-                                    if let Some(ast::NestedValue::Reference(RefValue::Said(target_said))) = target {
+                                    if let Some(ast::NestedValue::Reference(target)) = target {
                                         line.push_str(
-                                            format!("refs:{} ", target_said).as_str(),
+                                            format!("{} ", format_reference(target.clone())).as_str(),
                                         );
                                     }
                                 }
@@ -388,7 +413,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -402,7 +427,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     for (prop_name, prop_value) in properties {
                                         let key = prop_name.replace("frame_", "");
                                         if let ast::NestedValue::Value(value) = prop_value {
-                                            line.push_str(format!("        {}=\"{}\" \\\n", key, value).as_str());
+                                            line.push_str(format!("        {}={} \\\n", key, quoted(value)).as_str());
                                         }
                                     }
                                 }
@@ -415,8 +440,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 let mut frame_str = "\n            ".to_string();
                                                 frame_str.push_str(
                                                     format!(
-                                                        "\"{}\": {{",
-                                                        f_key
+                                                        "{}: {{",
+                                                        quoted(f_key)
                                                     ).as_str()
                                                 );
 
@@ -425,9 +450,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                         if let ast::NestedValue::Value(frame_value) = frame_value {
                                                             frame_str.push_str(
                                                                 format!(
-                                                                    "\n                \"{}\": \"{}\",",
-                                                                    frame_key,
-                                                                    frame_value
+                                                                    "\n                {}: {},",
+                                                                    quoted(frame_key),
+                                                                    quoted(frame_value)
                                                                 ).as_str()
                                                             );
                                                         }
@@ -466,10 +491,11 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, quoted(value)).as_str(),
                                                 );
                                             }
                                         });
+                                        line.push(' ');
                                     }
                                 }
                                 if let Some(ref attributes) = content.attributes {
@@ -477,7 +503,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, quoted(value)).as_str(),
                                             );
                                         }
                                     });
@@ -504,16 +530,48 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             }
                         }
                     }
+                    if let Some(flagged) = &content.flagged_attributes {
+                        line.push_str(&format!("FLAGGED_ATTRIBUTES {}", flagged.join(" ")));
+                    }
+                }
+                ast::ObjectKind::Overlay(o_type @ (ast::OverlayType::Meta(_) | ast::OverlayType::Label(_)), content) => {
+                    line.push_str(&format!("REMOVE {}", o_type.to_string().to_case(Case::UpperSnake)));
+                    if let Some(properties) = &content.properties {
+                        if let Some(ast::NestedValue::Value(lang)) = properties.get("lang") {
+                            line.push_str(&format!(" {}", lang));
+                        }
+                        if let Some(key) = properties.keys().find(|key| *key != "lang") {
+                            line.push_str(&format!(" PROPS {}", key));
+                        }
+                    }
+                    if let Some(key) = content.attributes.as_ref().and_then(|a| a.keys().next()) {
+                        line.push_str(&format!(" ATTRS {}", key));
+                    }
                 }
-                ast::ObjectKind::Overlay(_o_type, _) => {
-                    todo!()
+                ast::ObjectKind::Overlay(..) => {
+                    // written like the instruction which adds the same content
+                    let mut added = OCAAst::new();
+                    added.commands.push(ast::Command {
+                        kind: ast::CommandType::Add,
+                        object_kind: command.object_kind.clone(),
+                    });
+                    let added = generate_from_ast(&added);
+                    line.push_str(&added.trim_end().replacen("ADD ", "REMOVE ", 1));
                 }
                 _ => {}
             },
             ast::CommandType::From => {
                 line.push_str("FROM ");
+                if let ast::ObjectKind::OCABundle(content) = &command.object_kind {
+                    let ast::ReferenceAttrType::Reference(base) = &content.said;
+                    match base {
+                        RefValue::Said(said) => line.push_str(&said.to_string()),
+                        name => line.push_str(&name.to_string()),
+                    }
+                }
             }
-            ast::CommandType::Modify => todo!(),
+            // there is no syntax for modifications
+            ast::CommandType::Modify => {}
         }
 
         ocafile.push_str(format!("{}\n", line).as_str());
-- 
2.43.0


From 06a3c0ddffc539a5631bdb6ddc609458bea89ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 21/41] fix: commands read back from JSON keep texts that look
 like references and every overlay type

---
 semantics/oca-ast/src/ast/mod.rs | 33 +++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index e04a503..db5d279 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -271,7 +271,7 @@ impl FromStr for OverlayType {
             "EntryCode" => Ok(OverlayType::EntryCode(v)),
             "Entry" => Ok(OverlayType::Entry(v)),
             "Unit" => Ok(OverlayType::Unit(v)),
-            "Mapping" => Ok(OverlayType::AttributeMapping(v)),
+            "Mapping" | "AttributeMapping" => Ok(OverlayType::AttributeMapping(v)),
             "EntryCodeMapping" => Ok(OverlayType::EntryCodeMapping(v)),
             "Subset" => Ok(OverlayType::Subset(v)),
             "UnitMapping" => Ok(OverlayType::UnitMapping(v)),
@@ -481,6 +481,25 @@ impl Serialize for RefValue {
     }
 }
 
+/// The only value of a command which is a reference is the target of a link,
+/// any other one was a text which looks like a reference
+fn texts_again(values: &mut Option<IndexMap<String, NestedValue>>) {
+    if let Some(values) = values {
+        values.values_mut().for_each(text_again);
+    }
+}
+
+fn text_again(value: &mut NestedValue) {
+    match value {
+        NestedValue::Reference(reference) => {
+            *value = NestedValue::Value(reference.to_string())
+        }
+        NestedValue::Value(_) => {}
+        NestedValue::Object(values) => values.values_mut().for_each(text_again),
+        NestedValue::Array(values) => values.iter_mut().for_each(text_again),
+    }
+}
+
 // Implement Deserialize for Command
 impl<'de> Deserialize<'de> for Command {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
@@ -562,8 +581,9 @@ impl<'de> Deserialize<'de> for Command {
                                     // properly
                                     let _content_key: Option<String> =
                                         map.next_key()?;
-                                    let content: CaptureContent =
+                                    let mut content: CaptureContent =
                                         map.next_value()?;
+                                    texts_again(&mut content.properties);
                                     object_kind =
                                         Some(ObjectKind::CaptureBase(content));
                                 }
@@ -588,8 +608,15 @@ impl<'de> Deserialize<'de> for Command {
                                     );
                                     match overlay_type {
                                         Ok(overlay_type) => {
-                                            let content: Content =
+                                            let mut content: Content =
                                                 map.next_value()?;
+                                            texts_again(&mut content.attributes);
+                                            if !matches!(
+                                                overlay_type,
+                                                OverlayType::Link(_)
+                                            ) {
+                                                texts_again(&mut content.properties);
+                                            }
                                             object_kind =
                                                 Some(ObjectKind::Overlay(
                                                     overlay_type,
-- 
2.43.0


From 8e72e62a864d92170f4669308581bc4e9e490507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 22/41] fix: validating a condition on an unknown attribute or
 an array is not a panic

---
 semantics/oca-bundle/src/state/validator.rs | 36 ++++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index ba94b05..1231fe7 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -231,7 +231,7 @@ impl Validator {
         let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for &attr in overlay.attributes().iter() {
             let condition = conditions.get(attr).unwrap(); // todo
-            let condition_dependencies = dependencies.get(attr).unwrap(); // todo
+            let condition_dependencies = dependencies.get(attr).cloned().unwrap_or_default();
             if condition_dependencies.contains(attr) {
                 errors.push(Error::Custom(format!(
                     "Attribute '{attr}' cannot be a dependency of itself"
@@ -240,8 +240,15 @@ impl Validator {
             }
 
             let mut attr_mocks: HashMap<String, String> = HashMap::new();
+            let mut unknown = false;
             condition_dependencies.iter().for_each(|dep| {
-                let dep_type = attr_types.get(dep).unwrap(); // todo
+                let Some(dep_type) = attr_types.get(dep) else {
+                    errors.push(Error::Custom(format!(
+                        "Attribute '{attr}' has a condition on unknown attribute '{dep}'"
+                    )));
+                    unknown = true;
+                    return;
+                };
                 let value = match dep_type {
                     NestedAttrType::Null => "null".to_string(),
                     NestedAttrType::Value(base_type) => match base_type {
@@ -254,24 +261,29 @@ impl Validator {
                     // TODO validate nested objects
                     NestedAttrType::Array(boxed_type) => match **boxed_type {
                         NestedAttrType::Value(base_type) => match base_type {
-                            AttributeType::Text => "['test']".to_string(),
-                            AttributeType::Numeric => "[0]".to_string(),
-                            AttributeType::DateTime => "['2020-01-01']".to_string(),
-                            AttributeType::Binary => "[test]".to_string(),
-                            AttributeType::Boolean => "[true]".to_string(),
+                            AttributeType::Text => "{'test'}".to_string(),
+                            AttributeType::Numeric => "{0}".to_string(),
+                            AttributeType::DateTime => "{'2020-01-01'}".to_string(),
+                            AttributeType::Binary => "{test}".to_string(),
+                            AttributeType::Boolean => "{true}".to_string(),
                         },
-                        _ => panic!("Invalid or not supported array type"),
+                        _ => "{}".to_string(),
                     },
-                    NestedAttrType::Reference(ref_value) => ref_value.to_string(),
+                    NestedAttrType::Reference(ref_value) => format!("'{ref_value}'"),
                 };
                 attr_mocks.insert(dep.to_string(), value);
             });
+            if unknown {
+                continue;
+            }
 
             let script = re
                 .replace_all(condition, |caps: &regex::Captures| {
-                    attr_mocks
-                        .get(&condition_dependencies[caps[1].parse::<usize>().unwrap()].clone())
-                        .unwrap()
+                    caps[1]
+                        .parse::<usize>()
+                        .ok()
+                        .and_then(|i| attr_mocks.get(condition_dependencies.get(i)?))
+                        .unwrap_or(&caps[0].to_string())
                         .to_string()
                 })
                 .to_string();
-- 
2.43.0


From 67d184f7cf90f8423649db8b0e55a88314963a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 23/41] fix: a meta property cannot take the name of a field of
 the meta overlay

---
 semantics/oca-bundle/src/build.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 22ab7f3..a334137 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -198,6 +198,13 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
 
                         for (prop_name, prop_value) in mut_properties {
                             if let ast::NestedValue::Value(value) = prop_value {
+                                if matches!(
+                                    prop_name.as_str(),
+                                    "d" | "type" | "capture_base" | "language"
+                                ) {
+                                    errors.push(format!("Reserved meta property: {prop_name}"));
+                                    return Err(errors);
+                                }
                                 oca.add_meta(lang_iso, prop_name.clone(), value.clone());
                             }
                         }
-- 
2.43.0


From 95145e64da4d92c3cc353b063d76bf8d117327e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 24/41] fix: the core model tells links and framings of one
 bundle apart

---
 semantics/oca-dag/src/lib.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 64b402b..93c98fc 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -2,6 +2,7 @@ pub mod data_storage;
 pub mod versioning;
 
 use oca_ast_semantics::ast;
+use oca_bundle_semantics::state::oca::{overlay, DynOverlay};
 use said::{derivation::HashFunction, SelfAddressingIdentifier};
 use std::collections::HashMap;
 use std::str::FromStr;
@@ -95,6 +96,17 @@ pub fn build_core_db_model(oca_build: &oca_bundle_semantics::build::OCABuild) ->
     result_models
 }
 
+/// Tells apart overlays of one type which can be many in a bundle
+fn subject(overlay: &DynOverlay) -> Option<&String> {
+    if let Some(link) = overlay.as_any().downcast_ref::<overlay::Link>() {
+        return Some(&link.target_bundle);
+    }
+    if let Some(framing) = overlay.as_any().downcast_ref::<overlay::AttributeFraming>() {
+        return framing.metadata.get("frame_id");
+    }
+    None
+}
+
 fn apply_step(
     state: State,
     step: &oca_bundle_semantics::build::OCABuildStep,
@@ -116,15 +128,31 @@ fn apply_step(
         }
         ast::ObjectKind::Overlay(overlay_type, content) => {
             let mut lang = None;
+            let mut described = None;
             // match &content.properties {
             if let Some(properties) = &content.properties {
                 if let Some(ast::NestedValue::Value(lang_value)) = properties.get("lang") {
                     lang = isolang::Language::from_639_1(lang_value);
                 }
+                described = match overlay_type {
+                    ast::OverlayType::Link(_) => match properties.get("target") {
+                        Some(ast::NestedValue::Reference(ast::RefValue::Said(target))) => {
+                            Some(target.to_string())
+                        }
+                        _ => None,
+                    },
+                    ast::OverlayType::AttributeFraming(_) => match properties.get("id") {
+                        Some(ast::NestedValue::Value(id)) => Some(id.clone()),
+                        _ => None,
+                    },
+                    _ => None,
+                };
             }
 
             let overlay = step.result.overlays.iter().find(|overlay| {
-                overlay.overlay_type().eq(overlay_type) && overlay.language() == lang.as_ref()
+                overlay.overlay_type().eq(overlay_type)
+                    && overlay.language() == lang.as_ref()
+                    && subject(overlay) == described.as_ref()
             });
 
             if let Some(overlay) = overlay {
@@ -132,7 +160,10 @@ fn apply_step(
                     Some(lang) => {
                         format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())
                     }
-                    None => format!("{}", overlay.overlay_type()),
+                    None => match &described {
+                        Some(described) => format!("{}-{}", overlay.overlay_type(), described),
+                        None => format!("{}", overlay.overlay_type()),
+                    },
                 };
                 let parent_overlay = state.overlays.get(&overlay_key);
                 let overlay_model = OverlayModel {
-- 
2.43.0


From f6b57e8a06104b4b211c60f7d7910425adf85e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 25/41] fix: a version history reports commands that fail and
 takes commands of any length

---
 semantics/oca-dag/src/versioning/ocafile.rs | 22 +++++++++------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 6a84079..9396765 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -20,22 +20,15 @@ pub fn build_oca(
                 None => return Err("Missing bundle content".to_string()),
             };
             let oca_bundle_str = match db.get(&format!("oca.{}", said))? {
-                Some(oca_bundle_str) => String::from_utf8(oca_bundle_str).unwrap(),
+                Some(oca_bundle_str) => String::from_utf8(oca_bundle_str).map_err(|e| e.to_string())?,
                 None => return Err("OCA not found".to_string()),
             };
-            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str).unwrap();
+            let oca_b = serde_json::from_str::<OCABundle>(&oca_bundle_str)
+                .map_err(|e| e.to_string())?;
             base = Some(oca_b.into());
         } else {
             let result = oca_bundle_semantics::build::apply_command(base.clone(), command.clone());
-            let mut oca_box: OCABox = OCABox::new();
-            match result {
-                Ok(oca) => {
-                    oca_box = oca;
-                }
-                Err(errors) => {
-                    println!("{:?}", errors);
-                }
-            };
+            let mut oca_box: OCABox = result.map_err(|errors| errors.join(", "))?;
             let oca_bundle = oca_box.generate_bundle();
             let command_str = serde_json::to_string(&command).unwrap();
 
@@ -50,7 +43,7 @@ pub fn build_oca(
                     input.push(0);
                 }
             }
-            input.push(command_str.len().try_into().unwrap());
+            // the command takes the rest, its length does not fit in a byte
             input.extend(command_str.as_bytes());
             db.insert(
                 &format!("oca.{}.operation", oca_bundle.clone().said.unwrap()),
@@ -67,7 +60,10 @@ pub fn build_oca(
         }
     }
 
-    Ok(base.unwrap().generate_bundle())
+    match base {
+        Some(mut base) => Ok(base.generate_bundle()),
+        None => Err("No commands to build from".to_string()),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From f8b78f976522c1c2346a0f1b19a66d3e5be27a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 26/41] fix: a transformation file without source, target or
 commands is an error, not a panic

---
 .../transformation-file/src/build.rs          | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/transformation/transformation-file/src/build.rs b/transformation/transformation-file/src/build.rs
index 2d7ce1a..50592dd 100644
--- a/transformation/transformation-file/src/build.rs
+++ b/transformation/transformation-file/src/build.rs
@@ -27,9 +27,18 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
 
     let mut base: Option<Transformation> = None;
     if !ast.meta.is_empty() {
-        let source = ast.meta.get("source").expect("missing source meta");
+        let required = |key: &str| {
+            ast.meta.get(key).ok_or_else(|| {
+                vec![Error::FromASTError {
+                    line_number: 0,
+                    raw_line: "unknown".to_string(),
+                    message: format!("missing {key} meta"),
+                }]
+            })
+        };
+        let source = required("source")?;
         let source_said = source.replace("refs:", "");
-        let target = ast.meta.get("target").expect("missing target meta");
+        let target = required("target")?;
         let target_said = target.replace("refs:", "");
         let mut transformation = Transformation::new();
         transformation.set_source(source_said);
@@ -61,6 +70,13 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
             }
         }
     }
+    if base.is_none() && errors.is_empty() {
+        errors.push(Error::FromASTError {
+            line_number: 0,
+            raw_line: "unknown".to_string(),
+            message: "There are no commands to build from".to_string(),
+        });
+    }
     if errors.is_empty() {
         let mut transformation = base.unwrap().clone();
         transformation.fill_said();
-- 
2.43.0


From 06eb957c235d6cb16f34d7293fb4056601925b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 27/41] fix: a bundle without a structural part can be encoded

---
 oca/src/facade/bundle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 7ce3fab..71298b6 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -67,8 +67,12 @@ impl Bundle {
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
 
-        let structural = self.structural.as_ref().unwrap();
-        let structural_str = String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap();
+        let structural_str = match self.structural.as_ref() {
+            Some(structural) => {
+                String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap()
+            }
+            None => "null".to_string(),
+        };
 
         let mut transformations_str = String::new();
         let mut transformations_iter = self.transformations.iter().peekable();
-- 
2.43.0


From fa518359e30d8b8cba47265662a4ffbb5d22d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 28/41] hook: tests can watch the statements written to the
 search database (cfg oca_conform)

---
 oca/src/facade/mod.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/oca/src/facade/mod.rs b/oca/src/facade/mod.rs
index c2d075e..6977870 100644
--- a/oca/src/facade/mod.rs
+++ b/oca/src/facade/mod.rs
@@ -11,6 +11,29 @@ mod explore;
 mod fetch;
 pub use said::{derivation::HashFunctionCode, sad::SerializationFormats, version::Encode};
 
+#[cfg(oca_conform)]
+type WriteHook = Box<dyn Fn(&str)>;
+
+#[cfg(oca_conform)]
+thread_local! {
+    static WRITE_HOOK: std::cell::RefCell<Option<WriteHook>> = std::cell::RefCell::new(None);
+}
+
+/// Called before every statement written to the search database.
+#[cfg(oca_conform)]
+pub fn set_write_hook(hook: WriteHook) {
+    WRITE_HOOK.with(|h| *h.borrow_mut() = Some(hook));
+}
+
+#[cfg(oca_conform)]
+fn write_hook(sql: &str) {
+    WRITE_HOOK.with(|h| {
+        if let Some(hook) = h.borrow().as_ref() {
+            hook(sql)
+        }
+    });
+}
+
 #[derive(Clone)]
 pub struct Connection {
     pub connection: Arc<Mutex<rusqlite::Connection>>,
@@ -28,6 +51,8 @@ impl Connection {
     where
         P: Params,
     {
+        #[cfg(oca_conform)]
+        write_hook(sql);
         let connection = self.connection.lock().unwrap();
         connection.execute(sql, params)
     }
-- 
2.43.0


From 997ec8cff0a331a960e0e5de6418ac7b52429df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 29/41] fix: a local name is registered once the bundle it
 names is stored

---
 oca/src/facade/build.rs | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 97f2b02..9f55db0 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -109,7 +109,10 @@ impl Facade {
         references: &mut R,
     ) -> Result<OCABuild, Vec<ValidationError>> {
         let (base, oca_ast) = Self::parse_and_check_base(self.storage(), ocafile)?;
-        Self::oca_ast_to_oca_build_with_references(base, oca_ast, references)
+        let (oca_build, name) =
+            Self::oca_ast_to_oca_build_with_references(base, oca_ast, references)?;
+        Self::save_name(name, &oca_build, references);
+        Ok(oca_build)
     }
 
     /// Validate ocafile using internal references for dereferencing `refn`.
@@ -118,7 +121,10 @@ impl Facade {
     #[cfg(feature = "local-references")]
     pub fn validate_ocafile(&mut self, ocafile: String) -> Result<OCABuild, Vec<ValidationError>> {
         let (base, oca_ast) = Self::parse_and_check_base(self.storage(), ocafile)?;
-        Self::oca_ast_to_oca_build_with_references(base, oca_ast, &mut self.db)
+        let (oca_build, name) =
+            Self::oca_ast_to_oca_build_with_references(base, oca_ast, &self.db)?;
+        Self::save_name(name, &oca_build, &mut self.db);
+        Ok(oca_build)
     }
 
     pub fn build(&mut self, oca_build: &OCABuild) -> Result<OCABundle, Error> {
@@ -145,11 +151,27 @@ impl Facade {
         match ast {
             oca_file::ocafile::OCAAst::TransformationAst(_) => Err(Error::Deprecated),
             oca_file::ocafile::OCAAst::SemanticsAst(_ast) => {
-                let oca_build = self
-                    .validate_ocafile(ocafile)
-                    .map_err(Error::ValidationError)?;
+                #[cfg(not(feature = "local-references"))]
+                {
+                    let oca_build = self
+                        .validate_ocafile(ocafile)
+                        .map_err(Error::ValidationError)?;
 
-                self.build(&oca_build)
+                    self.build(&oca_build)
+                }
+                #[cfg(feature = "local-references")]
+                {
+                    let (base, oca_ast) = Self::parse_and_check_base(self.storage(), ocafile)
+                        .map_err(Error::ValidationError)?;
+                    let (oca_build, name) =
+                        Self::oca_ast_to_oca_build_with_references(base, oca_ast, &self.db)
+                            .map_err(Error::ValidationError)?;
+
+                    let oca_bundle = self.build(&oca_build)?;
+                    // a name means a bundle only once the bundle is stored
+                    Self::save_name(name, &oca_build, &mut self.db);
+                    Ok(oca_bundle)
+                }
             }
         }
     }
@@ -226,8 +248,8 @@ impl Facade {
     fn oca_ast_to_oca_build_with_references<R: References>(
         base: Option<OCABundle>,
         mut oca_ast: OCAAst,
-        references: &mut R,
-    ) -> Result<OCABuild, Vec<ValidationError>> {
+        references: &R,
+    ) -> Result<(OCABuild, Option<String>), Vec<ValidationError>> {
         // Dereference (refn -> refs) the AST before it start processing bundle steps, otherwise the SAID would
         // not match.
         local_references::replace_refn_with_refs(&mut oca_ast, references).map_err(|e| vec![e])?;
@@ -238,15 +260,17 @@ impl Facade {
                 .collect::<Vec<_>>()
         })?;
 
-        let schema_name = oca_ast.meta.get("name");
+        let schema_name = oca_ast.meta.get("name").cloned();
         debug!("Schema name found: {:?}", schema_name);
+        Ok((oca_build, schema_name))
+    }
 
-        if schema_name.is_some() {
-            let schema_name = schema_name.unwrap();
+    #[cfg(feature = "local-references")]
+    fn save_name<R: References>(name: Option<String>, oca_build: &OCABuild, references: &mut R) {
+        if let Some(name) = name {
             let said = oca_build.oca_bundle.said.clone().unwrap().to_string();
-            references.save(schema_name, said.clone());
-        };
-        Ok(oca_build)
+            references.save(&name, said);
+        }
     }
 
     fn build_cache(&self, oca_bundle: &OCABundle) {
-- 
2.43.0


From f6ae9142ddd8e4305662811adf6d4bb968e64e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 30/41] fix: a unit without quotes ends at a tab or a line
 continuation

---
 semantics/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index c6c06e5..29857bd 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -211,7 +211,7 @@ key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 prop_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 
-unit_char = ${ !" " ~ !NEWLINE ~ ANY }
+unit_char = ${ !ws ~ !line_continuation ~ !NEWLINE ~ ANY }
 unit_value = ${ string | unit_char+ }
 unit_key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ unit_value }
 unit_attr_key_pairs = ${ (arg_ws? ~ unit_key_pair ~ arg_ws?)+ }
-- 
2.43.0


From 8998067238a7932aaeef994c47abe6d2ec423cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 31/41] fix: a version history keeps the step a bundle was
 first reached by

---
 semantics/oca-dag/src/versioning/ocafile.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/semantics/oca-dag/src/versioning/ocafile.rs b/semantics/oca-dag/src/versioning/ocafile.rs
index 9396765..c09e234 100644
--- a/semantics/oca-dag/src/versioning/ocafile.rs
+++ b/semantics/oca-dag/src/versioning/ocafile.rs
@@ -33,11 +33,13 @@ pub fn build_oca(
             let command_str = serde_json::to_string(&command).unwrap();
 
             let mut input: Vec<u8> = vec![];
+            let mut base_said = None;
             match base {
                 Some(ref mut base) => {
-                    let base_said = base.generate_bundle().said.unwrap().to_string();
-                    input.push(base_said.len().try_into().unwrap());
-                    input.extend(base_said.as_bytes());
+                    let said = base.generate_bundle().said.unwrap();
+                    input.push(said.to_string().len().try_into().unwrap());
+                    input.extend(said.to_string().as_bytes());
+                    base_said = Some(said);
                 }
                 None => {
                     input.push(0);
@@ -45,10 +47,11 @@ pub fn build_oca(
             }
             // the command takes the rest, its length does not fit in a byte
             input.extend(command_str.as_bytes());
-            db.insert(
-                &format!("oca.{}.operation", oca_bundle.clone().said.unwrap()),
-                &input,
-            )?;
+            // a bundle keeps the history it was first reached by
+            let operation_key = format!("oca.{}.operation", oca_bundle.clone().said.unwrap());
+            if base_said != oca_bundle.said && db.get(&operation_key)?.is_none() {
+                db.insert(&operation_key, &input)?;
+            }
             let code = HashFunctionCode::Blake3_256;
             let format = SerializationFormats::JSON;
             db.insert(
-- 
2.43.0


From 485fdb749881272151c1954357dbe81145669f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 32/41] fix: properties of an overlay without attributes are
 printed as they can be parsed

---
 semantics/oca-file/src/ocafile/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index a0a6fe6..1ae6638 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -498,7 +498,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         line.push(' ');
                                     }
                                 }
-                                if let Some(ref attributes) = content.attributes {
+                                if let Some(attributes) = content.attributes.as_ref().filter(|a| !a.is_empty()) {
                                     line.push_str("ATTRS");
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
-- 
2.43.0


From 1c68dc9afc29889b72e2ee8909d542d8e70aeccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 33/41] fix: framings of any shape are printed whole

---
 semantics/oca-file/src/ocafile/mod.rs | 51 +++++++++++----------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 1ae6638..f0297e2 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -7,6 +7,7 @@ use self::{
 };
 use crate::ocafile::error::InstructionError;
 use convert_case::{Case, Casing};
+use indexmap::IndexMap;
 pub use oca_ast_semantics::ast::OCAAst;
 use oca_ast_semantics::{
     ast::{
@@ -165,6 +166,25 @@ fn oca_file_format(nested: NestedAttrType) -> String {
     })
 }
 
+// Convert what an attribute is framed with to oca file syntax
+fn framing_format(object: &IndexMap<String, ast::NestedValue>, indent: usize) -> String {
+    object
+        .iter()
+        .map(|(key, value)| {
+            let value = match value {
+                ast::NestedValue::Object(inner) => format!(
+                    "{{{}\n{:indent$}}}",
+                    framing_format(inner, indent + 4),
+                    ""
+                ),
+                ast::NestedValue::Value(value) => quoted(value),
+                _ => return String::new(),
+            };
+            format!("\n{:indent$}{}: {},", "", quoted(key), value)
+        })
+        .collect()
+}
+
 /// Generate OCA file from AST
 ///
 /// # Arguments
@@ -435,37 +455,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     line.push_str("    ATTRS \\");
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Object(object) = value {
-                                            let mut frames_str = "".to_string();
-                                            for (f_key, f_value) in object.iter() {
-                                                let mut frame_str = "\n            ".to_string();
-                                                frame_str.push_str(
-                                                    format!(
-                                                        "{}: {{",
-                                                        quoted(f_key)
-                                                    ).as_str()
-                                                );
-
-                                                if let ast::NestedValue::Object(frame) = f_value {
-                                                    frame.iter().for_each(|(frame_key, frame_value)| {
-                                                        if let ast::NestedValue::Value(frame_value) = frame_value {
-                                                            frame_str.push_str(
-                                                                format!(
-                                                                    "\n                {}: {},",
-                                                                    quoted(frame_key),
-                                                                    quoted(frame_value)
-                                                                ).as_str()
-                                                            );
-                                                        }
-
-                                                    });
-                                                }
-
-                                                frame_str.push_str("\n            },");
-
-                                                frames_str.push_str(frame_str.as_str());
-                                            }
                                             line.push_str(
-                                                format!("\n        {}={{{}\n        }}", key, frames_str).as_str(),
+                                                format!("\n        {}={{{}\n        }}", key, framing_format(object, 12)).as_str(),
                                             );
                                         }
                                     });
-- 
2.43.0


From 0c9ab69800c54b5fd6169bce9e5ed4341221264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 34/41] fix: a line that continues a command is not read as
 file meta

---
 oca-file/src/ocafile.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 021aa25..9de9f00 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -54,8 +54,8 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
-// any other line, a string in it may span lines
-other_line = _{ (string | !NEWLINE ~ ANY)+ ~ NEWLINE? }
+// any other line, a string in it may span lines and it may be continued
+other_line = _{ (string | arg_ws | !NEWLINE ~ ANY)+ ~ NEWLINE? }
 
 file = {
   SOI ~
-- 
2.43.0


From c4024dd207c5e20bd5a4c6215fb0107036c8578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 35/41] fix: a string with very many escapes overflowed the
 stack of the parser

---
 oca-file/src/ocafile.pest                | 4 ++--
 semantics/oca-file/src/ocafile.pest      | 4 ++--
 transformation/oca-file/src/ocafile.pest | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 9de9f00..6be42b3 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -21,9 +21,9 @@ commands = _{
 
 string = ${ single_quoted_string | double_quoted_string }
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 29857bd..2913f11 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 01ed168..af8cb68 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
-- 
2.43.0


From 12483bdf3dfe0c2e555049aa637414f5a4eb9739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 36/41] fix: arrays nested deeper than a bundle can be read
 back are refused

---
 semantics/oca-file/src/ocafile/instructions/helpers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index 6508310..db9ccd5 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -10,7 +10,16 @@ use oca_ast_semantics::ast::{
 use recursion::ExpandableExt;
 use said::SelfAddressingIdentifier;
 
+/// Arrays nested deeper than this can be built, but not read back from JSON
+const MAX_ARRAY_DEPTH: usize = 100;
+
 fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeError> {
+    if input.as_str().matches("Array[").count() > MAX_ARRAY_DEPTH {
+        return Err(ExtractingAttributeError::Unexpected(format!(
+            "Arrays cannot be nested more than {MAX_ARRAY_DEPTH} deep"
+        )));
+    }
+
     let res = AttributeTypeResult::expand_frames(input, |seed| match seed.as_rule() {
         Rule::array_attr_type => match seed.into_inner().next() {
             Some(next) => NestedAttrTypeFrame::Array(next).into(),
-- 
2.43.0


From eeef7537580145f38815546376aae6fbd3b06065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 37/41] fix: a text of one character, or with a wide second
 one, given as an identifier panicked

---
 semantics/oca-ast/src/ast/mod.rs              | 25 +++++++++++++++++--
 semantics/oca-bundle/src/state/oca.rs         | 13 +++++++---
 .../oca-bundle/src/state/oca/capture_base.rs  |  4 +--
 .../oca-file/src/ocafile/instructions/from.rs |  5 ++--
 .../src/ocafile/instructions/helpers.rs       |  6 ++---
 .../transformation-file/src/state/mod.rs      | 22 ++++++++++++++--
 6 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index db5d279..c5833ba 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -428,6 +428,27 @@ pub enum RefValue {
     Name(String),
 }
 
+/// Parses an identifier. The first two bytes tell how it was derived, and the
+/// parser of `said` panics when it cannot cut them off.
+pub fn parse_said(text: &str) -> Result<SelfAddressingIdentifier, said::error::Error> {
+    if text.get(..2).is_none() {
+        return Err(said::error::Error::IncorrectLengthError(text.to_string()));
+    }
+    text.parse()
+}
+
+/// Deserializes an identifier, for `#[serde(deserialize_with)]`
+pub fn deserialize_said<'de, D>(
+    deserializer: D,
+) -> Result<Option<SelfAddressingIdentifier>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Option::<String>::deserialize(deserializer)?
+        .map(|text| parse_said(&text).map_err(serde::de::Error::custom))
+        .transpose()
+}
+
 impl FromStr for RefValue {
     type Err = RefValueParsingError;
 
@@ -437,7 +458,7 @@ impl FromStr for RefValue {
             .ok_or(RefValueParsingError::MissingColon)?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest)?;
+                let said = parse_said(rest)?;
                 Ok(RefValue::Said(said))
             }
             "refn" => Ok(RefValue::Name(rest.to_string())),
@@ -664,7 +685,7 @@ impl<'de> Deserialize<'de> for RefValue {
         ))?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest);
+                let said = parse_said(rest);
                 match said {
                     Ok(said) => Ok(RefValue::Said(said)),
                     Err(_) => Err(serde::de::Error::custom(format!(
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 3c164ee..983d1cc 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -27,7 +27,7 @@ use crate::state::{
 use convert_case::{Case, Casing};
 use isolang::Language;
 use oca_ast_semantics::ast::{
-    CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
+    deserialize_said, parse_said, CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
     RefValue,
 };
 /// Internal representation of OCA objects in split between non-attributes values and attributes.
@@ -344,6 +344,13 @@ impl<'de> Deserialize<'de> for DynOverlay {
     {
         let de_overlay = serde_value::Value::deserialize(deserializer)?;
         if let serde_value::Value::Map(ref overlay) = de_overlay {
+            for key in ["d", "capture_base"] {
+                if let Some(serde_value::Value::String(said)) =
+                    overlay.get(&serde_value::Value::String(key.to_string()))
+                {
+                    parse_said(said).map_err(serde::de::Error::custom)?;
+                }
+            }
             if let Some(de_overlay_type) =
                 overlay.get(&serde_value::Value::String("type".to_string()))
             {
@@ -672,7 +679,7 @@ impl std::fmt::Debug for DynOverlay {
 #[version(protocol = "OCAS", major = 1, minor = 1)]
 pub struct OCABundle {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(rename = "d", default, deserialize_with = "deserialize_said")]
     pub said: Option<said::SelfAddressingIdentifier>,
     pub capture_base: CaptureBase,
     #[serde(
@@ -1292,7 +1299,7 @@ impl OCABundle {
                 OverlayType::Link(_) => {
                     let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
                     let mut properties = IndexMap::new();
-                    if let Ok(target) = link.target_bundle.parse() {
+                    if let Ok(target) = parse_said(&link.target_bundle) {
                         properties.insert(
                             "target".to_string(),
                             NestedValue::Reference(RefValue::Said(target)),
diff --git a/semantics/oca-bundle/src/state/oca/capture_base.rs b/semantics/oca-bundle/src/state/oca/capture_base.rs
index e9c35b5..c1708c8 100644
--- a/semantics/oca-bundle/src/state/oca/capture_base.rs
+++ b/semantics/oca-bundle/src/state/oca/capture_base.rs
@@ -1,6 +1,6 @@
 use crate::state::attribute::Attribute;
 use indexmap::IndexMap;
-use oca_ast_semantics::ast::NestedAttrType;
+use oca_ast_semantics::ast::{deserialize_said, NestedAttrType};
 use said::{
     derivation::HashFunctionCode,
     sad::{SerializationFormats, SAD},
@@ -41,7 +41,7 @@ where
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct CaptureBase {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(rename = "d", default, deserialize_with = "deserialize_said")]
     pub said: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     pub schema_type: String,
diff --git a/semantics/oca-file/src/ocafile/instructions/from.rs b/semantics/oca-file/src/ocafile/instructions/from.rs
index 791b3df..3acadcd 100644
--- a/semantics/oca-file/src/ocafile/instructions/from.rs
+++ b/semantics/oca-file/src/ocafile/instructions/from.rs
@@ -1,7 +1,7 @@
 use crate::ocafile::{error::InstructionError, Pair, Rule};
 use log::debug;
 use oca_ast_semantics::ast::{
-    BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
+    parse_said, BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
 };
 use said::SelfAddressingIdentifier;
 
@@ -26,8 +26,7 @@ impl FromInstruction {
         }
 
         let said_str = said_pair.unwrap().as_str();
-        let said: SelfAddressingIdentifier = said_str
-            .parse()
+        let said: SelfAddressingIdentifier = parse_said(said_str)
             .map_err(|_| InstructionError::Parser(format!("Invalid said: {said_str}")))?;
         debug!("Using oca bundle from: {:?}", said);
         let said = ReferenceAttrType::Reference(RefValue::Said(said));
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index db9ccd5..158e004 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -4,11 +4,11 @@ use crate::ocafile::{error::ExtractingAttributeError, Pair, Rule};
 use indexmap::IndexMap;
 use log::debug;
 use oca_ast_semantics::ast::{
+    parse_said,
     recursive_attributes::{AttributeTypeResult, NestedAttrTypeFrame},
     AttributeType, Content, NestedAttrType, NestedValue, RefValue,
 };
 use recursion::ExpandableExt;
-use said::SelfAddressingIdentifier;
 
 /// Arrays nested deeper than this can be built, but not read back from JSON
 const MAX_ARRAY_DEPTH: usize = 100;
@@ -31,7 +31,7 @@ fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeE
             seed.as_str().to_string(),
         ))
         .into(),
-        Rule::said => match SelfAddressingIdentifier::from_str(seed.as_str()) {
+        Rule::said => match parse_said(seed.as_str()) {
             Ok(said) => NestedAttrTypeFrame::Reference(RefValue::Said(said)).into(),
             Err(e) => ExtractingAttributeError::SaidError(e).into(),
         },
@@ -444,7 +444,7 @@ pub fn extract_properites_key_pairs(object: Pair) -> Option<IndexMap<String, Nes
             }
             Rule::said => {
                 debug!("Parsing target said: {:?}", attr.as_str());
-                if let Ok(said) = SelfAddressingIdentifier::from_str(attr.as_str()) {
+                if let Ok(said) = parse_said(attr.as_str()) {
                     properties.insert(
                         "target".to_string(),
                         NestedValue::Reference(RefValue::Said(said)),
diff --git a/transformation/transformation-file/src/state/mod.rs b/transformation/transformation-file/src/state/mod.rs
index bccb6f3..8314527 100644
--- a/transformation/transformation-file/src/state/mod.rs
+++ b/transformation/transformation-file/src/state/mod.rs
@@ -2,14 +2,32 @@ use indexmap::IndexMap;
 use said::derivation::HashFunctionCode;
 use said::version::SerializationInfo;
 use said::{sad::SerializationFormats, sad::SAD};
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
+
+/// The first two bytes of an identifier tell how it was derived, and the parser
+/// of `said` panics when it cannot cut them off
+fn deserialize_said<'de, D>(
+    deserializer: D,
+) -> Result<Option<said::SelfAddressingIdentifier>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Option::<String>::deserialize(deserializer)?
+        .map(|text| {
+            if text.get(..2).is_none() {
+                return Err(serde::de::Error::custom("identifier too short"));
+            }
+            text.parse().map_err(serde::de::Error::custom)
+        })
+        .transpose()
+}
 
 #[derive(SAD, Serialize, Debug, Deserialize, Clone)]
 #[version(protocol = "OCAT", major = 1, minor = 0)]
 // #[said(format = "JSON")]
 pub struct Transformation {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(rename = "d", default, deserialize_with = "deserialize_said")]
     pub said: Option<said::SelfAddressingIdentifier>,
     pub source: Option<String>,
     pub target: Option<String>,
-- 
2.43.0


From c7cbe837116f450aa521c854c6d40d94eeb26690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 38/41] fix: the dependencies of a bundle were read once per
 path to them, and deep chains overflowed the stack

---
 oca/src/facade/fetch.rs | 50 ++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index a3b1698..f0c97bc 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -20,6 +20,7 @@ use serde::Serialize;
 use std::borrow::Borrow;
 #[cfg(feature = "local-references")]
 use std::collections::HashMap;
+use std::collections::HashSet;
 use std::str::FromStr;
 
 #[derive(Debug, Serialize)]
@@ -374,6 +375,32 @@ pub fn get_oca_bundle(
     said: SelfAddressingIdentifier,
     with_dep: bool,
 ) -> Result<BundleWithDependencies, Vec<String>> {
+    let bundle = read_oca_bundle(storage, &said)?;
+    let mut dependencies = vec![];
+    if with_dep {
+        // a bundle may be referred to more than once
+        let mut seen = HashSet::from([said.to_string()]);
+        let mut pending = retrive_all_references(bundle.clone());
+        pending.reverse();
+        while let Some(said) = pending.pop() {
+            if !seen.insert(said.to_string()) {
+                continue;
+            }
+            let dep_bundle = read_oca_bundle(storage, &said)?;
+            pending.extend(retrive_all_references(dep_bundle.clone()).into_iter().rev());
+            dependencies.push(dep_bundle);
+        }
+    }
+    Ok(BundleWithDependencies {
+        bundle,
+        dependencies,
+    })
+}
+
+fn read_oca_bundle(
+    storage: &dyn DataStorage,
+    said: &SelfAddressingIdentifier,
+) -> Result<OCABundle, Vec<String>> {
     let r = storage
         .get(Namespace::OCABundlesJSON, &said.to_string())
         .map_err(|e| vec![format!("{}", e)])?;
@@ -381,27 +408,8 @@ pub fn get_oca_bundle(
         r.ok_or_else(|| vec![format!("No OCA Bundle found for said: {}", said)])?,
     )
     .unwrap();
-    let oca_bundle: Result<OCABundle, Vec<String>> = serde_json::from_str(&oca_bundle_str)
-        .map_err(|e| vec![format!("Failed to parse oca bundle: {}", e)]);
-
-    match oca_bundle {
-        Ok(oca_bundle) => {
-            let mut dep_bundles = vec![];
-            if with_dep {
-                for refs in retrive_all_references(oca_bundle.clone()) {
-                    let dep_bundle = get_oca_bundle(storage, refs, true)?;
-                    dep_bundles.push(dep_bundle.bundle);
-                    dep_bundles.extend(dep_bundle.dependencies);
-                }
-            }
-            let result = BundleWithDependencies {
-                bundle: oca_bundle,
-                dependencies: dep_bundles,
-            };
-            Ok(result)
-        }
-        Err(e) => Err(e),
-    }
+    serde_json::from_str(&oca_bundle_str)
+        .map_err(|e| vec![format!("Failed to parse oca bundle: {}", e)])
 }
 
 /// Retrive all existing references from given OCA Bundle
-- 
2.43.0


From 6ebe4444dbca787220869a63d54ff9376c98dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 39/41] fix: a write of the file-system storage which fails
 half way destroyed what the key had

The value was written over the old one in place, so a full disk or a stop
in the middle of a write left a cut value. It is now written aside, under
a name no key maps to, and renamed.
---
 oca/src/data_storage.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 29e95c0..2ce042d 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -1,5 +1,9 @@
 use dyn_clonable::*;
-use std::{collections::HashMap, path::PathBuf};
+use std::{
+    collections::HashMap,
+    path::PathBuf,
+    sync::atomic::{AtomicUsize, Ordering},
+};
 
 pub enum Namespace {
     OCA,
@@ -253,6 +257,9 @@ fn key_to_file_name(key: &str) -> String {
     name
 }
 
+/// Number of values this process has written aside
+static WRITES: AtomicUsize = AtomicUsize::new(0);
+
 fn file_name_to_key(name: &str) -> Option<String> {
     let mut key = vec![];
     let mut rest = if name == "%" { "" } else { name };
@@ -325,7 +332,19 @@ impl DataStorage for FileSystemStorage {
             }
 
             path.push(key_to_file_name(key));
-            std::fs::write(path.clone(), value).map_err(|e| e.to_string())
+            // written aside, under a name no key has, and then renamed: a write that fails or
+            // is cut off half way leaves what the key had
+            let aside = path.with_file_name(format!(
+                "%tmp-{}-{}",
+                std::process::id(),
+                WRITES.fetch_add(1, Ordering::Relaxed)
+            ));
+            std::fs::write(&aside, value)
+                .and_then(|_| std::fs::rename(&aside, &path))
+                .map_err(|e| {
+                    let _ = std::fs::remove_file(&aside);
+                    e.to_string()
+                })
         } else {
             Err("File path is required".to_string())
         }
-- 
2.43.0


From b1dbadd32a4425d471fc1e889ed3f630f27f818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 40/41] fix: the scope of a search hit was guessed from its
 snippet and could be empty or wrong

The snippet was turned into a regular expression and looked for in the texts
again. A text which holds <mark>, dots at a cut or a colon on a second line
gave an empty scope or part of the text; only texts of meta overlays are searched.
---
 oca/src/repositories/oca_bundle_fts_repo.rs | 46 ++-------------------
 1 file changed, 3 insertions(+), 43 deletions(-)

diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index bfc8887..a9988c7 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -128,51 +128,12 @@ impl OCABundleFTSRepo {
         "#;
 
         struct Record {
-            pub name: Option<String>,
-            pub description: Option<String>,
             pub oca_bundle_said: Option<String>,
             pub rank: Option<f32>,
             pub total: i32,
             pub snippet: Option<String>,
         }
 
-        impl Record {
-            fn get_scope(&self) -> String {
-                let mut snippet_regex = self.snippet.clone().unwrap();
-                snippet_regex = snippet_regex.replace("<mark>", "");
-                snippet_regex = snippet_regex.replace("</mark>", "");
-                let mut v: Vec<String> =
-                    snippet_regex.split("...").map(regex::escape).collect();
-                if v.first().unwrap().is_empty() {
-                    v.remove(0);
-                    if let Some(x) = v.first_mut() {
-                        *x = format!(".*{}", x);
-                    }
-                }
-                if v.last().unwrap().is_empty() {
-                    v.pop();
-                    if let Some(x) = v.last_mut() {
-                        *x = format!("{}.*", x);
-                    }
-                }
-                snippet_regex = v.join("...");
-                let re = regex::Regex::new(&format!("(?m)^([^:]+):{snippet_regex:}$")).unwrap();
-                let hay = format!(
-                    "\
-meta_overlay:{}
-meta_overlay:{}
-",
-                    self.name.clone().unwrap(),
-                    self.description.clone().unwrap()
-                );
-                let mut scope = String::new();
-                if let Some((_, [s])) = re.captures_iter(&hay).map(|c| c.extract()).next() {
-                    scope = s.to_string();
-                }
-                scope
-            }
-        }
-
         let connection = self.connection.connection.lock().unwrap();
         let mut statement = connection.prepare(sql_query).unwrap();
 
@@ -181,8 +142,6 @@ meta_overlay:{}
                 [query.clone(), limit.to_string(), offset.to_string()],
                 |row| {
                     Ok(Record {
-                        name: row.get(0).unwrap(),
-                        description: row.get(1).unwrap(),
                         oca_bundle_said: row.get(3).unwrap(),
                         rank: row.get(4).unwrap(),
                         total: row.get(7).unwrap(),
@@ -204,8 +163,9 @@ meta_overlay:{}
                 continue;
             }
             let metdata = SearchRecordMetadata {
-                phrase: record.snippet.clone().unwrap(),
-                scope: record.get_scope().clone(),
+                phrase: record.snippet.unwrap(),
+                // the texts searched are those of meta overlays
+                scope: "meta_overlay".to_string(),
                 score: record.rank.unwrap().abs(),
             };
 
-- 
2.43.0


From 7f44867ceea481493a1cf0d1665762fddfef4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:55 +0000
Subject: [PATCH 41/41] fix: a further overlay of a single kind is not left out
 of the bundle's SAID

---
 semantics/oca-bundle/src/state/oca.rs | 31 +++++++++++++--------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 983d1cc..2a74be1 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -572,7 +572,7 @@ where
     #[serde(untagged)]
     enum OverlayValue {
         Array(Vec<DynOverlay>),
-        Object(Box<dyn Overlay + Send>),
+        Object(DynOverlay),
     }
 
     let overlays_many = [
@@ -588,23 +588,22 @@ where
     for overlay in overlays {
         let o_type_str = overlay.overlay_type().to_string().to_case(Case::Snake);
 
-        if overlays_many.contains(&o_type_str.as_str()) {
-            if let Some(OverlayValue::Array(ov)) =
-                overlays_map.get_mut(&Value::String(o_type_str.clone()))
-            {
+        let many = overlays_many.contains(&o_type_str.as_str());
+        let o_type = Value::String(o_type_str);
+
+        // A bundle holds a single overlay of every other type. When more of
+        // them are loaded none may be left out, so that they are all covered
+        // by the SAID of the bundle.
+        let value = match overlays_map.remove(&o_type) {
+            Some(OverlayValue::Array(mut ov)) => {
                 ov.push(overlay.clone());
-            } else {
-                overlays_map.insert(
-                    Value::String(o_type_str.clone()),
-                    OverlayValue::Array(vec![overlay.clone()]),
-                );
+                OverlayValue::Array(ov)
             }
-        } else {
-            overlays_map.insert(
-                Value::String(o_type_str),
-                OverlayValue::Object(overlay.clone()),
-            );
-        }
+            Some(OverlayValue::Object(ov)) => OverlayValue::Array(vec![ov, overlay.clone()]),
+            None if many => OverlayValue::Array(vec![overlay.clone()]),
+            None => OverlayValue::Object(overlay.clone()),
+        };
+        overlays_map.insert(o_type, value);
     }
 
     let mut ser = s.serialize_map(Some(overlays_map.len()))?;
-- 
2.43.0

