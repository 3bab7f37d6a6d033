From 80fe85953f13b5396d93573226d6d215de04e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 01/31] fix: encode arrays of empty objects as list items, not
 as a table without columns

---
 crates/toon/src/encode/encoders.rs | 4 ++++
 crates/toon/src/ser/stream.rs      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c24d44c..734fd1d 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -724,6 +724,10 @@ pub fn is_tabular_array(arr: &[Value]) -> Option<Vec<String>> {
             Value::Object(m) => m,
             _ => return None,
         };
+        // A table needs at least one column: rows of empty objects have no tabular form
+        if obj.is_empty() {
+            return None;
+        }
         let kset: Vec<String> = obj.keys().cloned().collect();
 
         if let Some(ref ks) = keys {
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index a173101..e24085a 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1391,6 +1391,10 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             IValue::Object(pairs) => pairs,
             _ => return None,
         };
+        // A table needs at least one column: rows of empty objects have no tabular form
+        if obj.is_empty() {
+            return None;
+        }
         let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
         kset.sort();
         if let Some(ref ks) = keys {
-- 
2.43.0


From 79a6e0b7517f54c31da6f7b851267f482f9f5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 02/31] fix: take only deeper lines as the content of a key or
 array header, and check every declared length

An empty object or array swallowed the following sibling lines, list items
with inline or nested arrays skipped the length check, and a run of '- [1]:'
lines at one indentation recursed once per line.
---
 crates/toon/src/decode/parser.rs | 175 +++++++++----------------------
 1 file changed, 47 insertions(+), 128 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index abd9ee3..b1a3c40 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -14,15 +14,20 @@ pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
     strict: bool,
+    indent_size: usize,
     error: Option<crate::error::Error>,
 }
 
+/// Indentation unit assumed when the caller does not give one.
+const DEFAULT_INDENT_SIZE: usize = 2;
+
 impl<'a> Parser<'a> {
     pub fn from_input(input: &'a str) -> Self {
         Self {
             lines: scan(input),
             idx: 0,
             strict: false,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
@@ -32,6 +37,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
@@ -41,10 +47,19 @@ impl<'a> Parser<'a> {
             lines,
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
 
+    /// Set the indentation unit (spaces per level); 0 keeps the default.
+    pub fn with_indent_size(mut self, indent_size: usize) -> Self {
+        if indent_size != 0 {
+            self.indent_size = indent_size;
+        }
+        self
+    }
+
     pub fn is_empty(&self) -> bool {
         self.lines.is_empty()
     }
@@ -69,6 +84,15 @@ impl<'a> Parser<'a> {
         self.lines.get(i)
     }
 
+    /// Indentation of the content that belongs to a header at `parent_indent`: the indentation
+    /// of the next line when it is deeper than the header, otherwise one that holds no line.
+    fn child_indent(&self, parent_indent: usize) -> usize {
+        match self.peek() {
+            Some(line) if line.indent > parent_indent => line.indent,
+            _ => parent_indent + 1,
+        }
+    }
+
     fn parse_scalar_token(&mut self, s: &str) -> Value {
         self.parse_scalar_token_at_line(s, self.idx)
     }
@@ -240,68 +264,38 @@ impl<'a> Parser<'a> {
                         // If header has a key, this is a keyed array as first field of list-item object
                         if let Some(ref key) = header.key {
                             let key_parsed = self.parse_key_token(key);
-                            let child_indent = indent + 2;
                             let mut map: Vec<(String, Value)> = Vec::new();
-                            let v = self.parse_keyed_array_value(&header);
+                            let v = self.parse_keyed_array_value(&header, indent);
                             map.push((key_parsed, v));
                             // Parse any additional fields at child indent
+                            let child_indent = self.child_indent(indent);
                             if let Value::Object(mut rest) = self.parse_object(child_indent) {
                                 map.append(&mut rest);
                             }
                             arr.push(Value::Object(map));
                             continue;
                         }
-                        // No key - this is an inline array like "- [N]{fields}:"
-                        if let Some(ref fields) = header.fields {
-                            let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
-                            let fields_refs: Vec<&str> =
-                                fields.iter().map(|s| s.as_str()).collect();
-                            arr.push(self.parse_tabular_rows(
-                                header.length,
-                                header.delimiter,
-                                &fields_refs,
-                                row_indent,
-                                header_line_no,
-                            ));
-                            continue;
-                        }
-                        if let Some(ref inline) = header.inline_values {
-                            if !inline.is_empty() {
-                                let values = split_delim_aware(inline, header.delimiter);
-                                arr.push(Value::Array(
-                                    values
-                                        .into_iter()
-                                        .map(|v| self.parse_scalar_token(v))
-                                        .collect(),
-                                ));
-                                continue;
-                            }
-                        }
-                        // Empty array: [0]: produces []
-                        if header.length == 0 {
-                            arr.push(Value::Array(Vec::new()));
-                            continue;
-                        }
-                        // Expanded array header: parse nested list items at child indent
-                        let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
-                        arr.push(self.parse_array(child_indent));
+                        // No key - this is an array like "- [N]{fields}:" or "- [N]: v1,v2"
+                        arr.push(self.parse_keyed_array_value(&header, indent));
                         continue;
                     }
                 }
                 // 2) Support object-as-list-item with first field on the hyphen line: "- key: value"
                 if let Some((kraw, vraw)) = split_kv_quote_aware(vs) {
                     let key = self.parse_key_token(kraw);
-                    let child_indent = indent + 2;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
-                        // Value on following indented lines
-                        let v = self.parse_node(child_indent);
+                        // Value on following lines, deeper than the item's other fields
+                        let v = match self.parse_node(indent + self.indent_size + 1) {
+                            Value::Null => Value::Object(Vec::new()),
+                            v => v,
+                        };
                         map.push((key, v));
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
                     }
                     // Parse any additional fields at child indent and merge
+                    let child_indent = self.child_indent(indent);
                     if let Value::Object(mut rest) = self.parse_object(child_indent) {
                         map.append(&mut rest);
                     }
@@ -312,8 +306,7 @@ impl<'a> Parser<'a> {
                 arr.push(self.parse_scalar_token(vs));
             } else {
                 // Bare "-" list item - check if there are children
-                let child_indent = indent + 2;
-                let child_val = self.parse_node(child_indent);
+                let child_val = self.parse_node(indent + 1);
                 // If parse_node returns Null (no children), this is an empty object
                 if matches!(child_val, Value::Null) {
                     arr.push(Value::Object(Vec::new()));
@@ -342,7 +335,7 @@ impl<'a> Parser<'a> {
                                         .as_ref()
                                         .map(|k| self.parse_key_token(k))
                                         .unwrap_or_default();
-                                    let v = self.parse_keyed_array_value(&header);
+                                    let v = self.parse_keyed_array_value(&header, indent);
                                     map.push((k, v));
                                     continue;
                                 }
@@ -378,7 +371,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
@@ -397,14 +390,14 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
                     self.next();
                     let k = self.parse_key_token(kref);
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                    let child_indent = self.child_indent(indent);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -583,7 +576,7 @@ impl<'a> Parser<'a> {
                                 }
                             }
                         }
-                        let v = self.parse_node(child_indent);
+                        let v = self.parse_node(indent + 1);
                         // If key: has no children, produce empty object instead of null
                         if matches!(v, Value::Null) {
                             map.push((k, Value::Object(Vec::new())));
@@ -788,31 +781,8 @@ impl<'a> Parser<'a> {
                         if let Some(header) = parse_array_header(&with_colon) {
                             // This is a root-level array at this indent
                             if header.key.is_none() {
-                                let header_line_no = self.idx + 1;
                                 self.next();
-                                if let Some(ref fields) = header.fields {
-                                    let fields_refs: Vec<&str> =
-                                        fields.iter().map(|s| s.as_str()).collect();
-                                    return self.parse_tabular_rows(
-                                        header.length,
-                                        header.delimiter,
-                                        &fields_refs,
-                                        indent + 2,
-                                        header_line_no,
-                                    );
-                                }
-                                if let Some(ref inline) = header.inline_values {
-                                    if !inline.is_empty() {
-                                        let values = split_delim_aware(inline, header.delimiter);
-                                        return Value::Array(
-                                            values
-                                                .into_iter()
-                                                .map(|v| self.parse_scalar_token(v))
-                                                .collect(),
-                                        );
-                                    }
-                                }
-                                return self.parse_array(indent);
+                                return self.parse_keyed_array_value(&header, indent);
                             }
                         }
                     }
@@ -823,18 +793,7 @@ impl<'a> Parser<'a> {
                     if let Some(header) = parse_array_header(&combined) {
                         if header.key.is_none() {
                             self.next();
-                            if let Some(ref inline) = header.inline_values {
-                                if !inline.is_empty() {
-                                    let values = split_delim_aware(inline, header.delimiter);
-                                    return Value::Array(
-                                        values
-                                            .into_iter()
-                                            .map(|v| self.parse_scalar_token(v))
-                                            .collect(),
-                                    );
-                                }
-                            }
-                            return Value::Array(Vec::new());
+                            return self.parse_keyed_array_value(&header, indent);
                         }
                     }
                 }
@@ -923,51 +882,12 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_root_array_with_header(&mut self, header: ArrayHeader) -> Value {
-        let line_no = self.idx + 1;
         self.next(); // Consume header line
-
-        if let Some(ref fields) = header.fields {
-            // Tabular array - rows at indent 2
-            let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
-            return self.parse_tabular_rows(
-                header.length,
-                header.delimiter,
-                &fields_refs,
-                2,
-                line_no,
-            );
-        }
-
-        if let Some(ref inline) = header.inline_values {
-            if !inline.is_empty() {
-                // Inline primitive array
-                let values = split_delim_aware(inline, header.delimiter);
-                // Validate array length
-                if values.len() != header.length {
-                    self.error = Some(crate::error::Error::Syntax {
-                        line: line_no,
-                        message: format!(
-                            "array length mismatch: header declares {} elements but found {}",
-                            header.length,
-                            values.len()
-                        ),
-                    });
-                }
-                return Value::Array(
-                    values
-                        .into_iter()
-                        .map(|v| self.parse_scalar_token(v))
-                        .collect(),
-                );
-            }
-        }
-
-        // Expanded array with list items at indent 2
-        self.parse_array_with_length_check(2, header.length, line_no)
+        self.parse_keyed_array_value(&header, 0)
     }
 
-    /// Parse the value for a keyed array header
-    fn parse_keyed_array_value(&mut self, header: &ArrayHeader) -> Value {
+    /// Parse the value of an array whose header line stands at `parent_indent` (already consumed)
+    fn parse_keyed_array_value(&mut self, header: &ArrayHeader, parent_indent: usize) -> Value {
         let header_line_no = self.idx; // Header was already consumed
 
         // In strict mode, check for delimiter mismatch between bracket and brace
@@ -980,8 +900,7 @@ impl<'a> Parser<'a> {
 
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
-            // Get current indent to determine row indent
-            let row_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+            let row_indent = self.child_indent(parent_indent);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
@@ -1017,7 +936,7 @@ impl<'a> Parser<'a> {
         }
 
         // Otherwise, parse list items at child indent
-        let child_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+        let child_indent = self.child_indent(parent_indent);
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
-- 
2.43.0


From f336f564f6bffdbc17a0615b7e51bd445950e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 03/31] fix: nest list-item content by the configured
 indentation unit instead of a fixed two spaces

---
 crates/toon/src/de/mod.rs          |   2 +-
 crates/toon/src/decode/parser.rs   |  13 ++++
 crates/toon/src/encode/encoders.rs |   8 +--
 crates/toon/src/ser/stream.rs      | 103 ++++++++++++++++++++---------
 4 files changed, 88 insertions(+), 38 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 587d738..8b8a07c 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,7 +174,7 @@ fn from_str_via_internal_value<T: DeserializeOwned>(s: &str, options: &Options)
             });
         }
     }
-    let mut v = crate::decode::parser::parse_to_internal_value_from_lines(lines, options.strict)?;
+    let mut v = crate::decode::parser::parse_to_internal_value_with_options(lines, options)?;
 
     // Apply path expansion if enabled
     if options.expand_paths == crate::options::ExpandPaths::Safe {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index b1a3c40..368906d 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1669,6 +1669,19 @@ pub fn parse_to_internal_value_from_lines<'a>(
     }
 }
 
+pub fn parse_to_internal_value_with_options<'a>(
+    lines: Vec<ParsedLine<'a>>,
+    options: &crate::options::Options,
+) -> Result<Value, crate::error::Error> {
+    let mut p = Parser::from_lines(lines, options.strict).with_indent_size(options.indent);
+    let v = p.parse_document();
+    if let Some(err) = p.error {
+        Err(err)
+    } else {
+        Ok(v)
+    }
+}
+
 pub fn parse_to_value_with_strict(input: &str, strict: bool) -> Result<Value, crate::error::Error> {
     let mut p = Parser::from_input_with_strict(input, strict);
     let v = p.parse_document();
diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 734fd1d..003c918 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -605,7 +605,7 @@ fn encode_list_item_object(
             );
             w.line_list_item(indent, &header);
 
-            // Rows at depth+2 (indent + 4 relative to list item indent)
+            // Rows at depth+2 (indent + 2 * opts.indent relative to list item indent)
             for item in items {
                 let inner_obj = item.as_object().unwrap();
                 let cells: Vec<String> = keys
@@ -616,7 +616,7 @@ fn encode_list_item_object(
                     })
                     .collect();
                 let row = join_with_delim(&cells, dch);
-                w.line(indent + 4, &row);
+                w.line(indent + 2 * opts.indent, &row);
             }
 
             // Other fields at depth+1 (indent + opts.indent)
@@ -681,7 +681,7 @@ fn encode_list_item_object(
                     ),
                 );
                 for inner_item in items {
-                    encode_list_item(inner_item, w, opts, indent + 4)?;
+                    encode_list_item(inner_item, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
@@ -689,7 +689,7 @@ fn encode_list_item_object(
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 4)?;
+                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index e24085a..3784b6d 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -776,7 +776,7 @@ fn encode_list_item_json(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at indent + 2 * opts.indent
                     for item in items {
                         let inner_obj = item.as_object().unwrap();
                         let cells: Vec<String> = keys
@@ -787,7 +787,7 @@ fn encode_list_item_json(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -821,8 +821,13 @@ fn encode_list_item_json(
                             }
                             Value::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(v, w, opts, indent + 4)
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
+                                crate::encode::encoders::encode_value(
+                                    v,
+                                    w,
+                                    opts,
+                                    indent + 2 * opts.indent,
+                                )
+                                .map_err(|e| SerError::custom(e.to_string()))?;
                             }
                         }
                     }
@@ -884,7 +889,7 @@ fn encode_list_item_json(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 4)?;
+                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -894,25 +899,42 @@ fn encode_list_item_json(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                Value::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                Value::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
+                                Value::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                Value::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
+                                Value::Number(n) => {
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
-                                Value::Number(n) => w.line_kv(indent + 4, &key_fmt, &n.to_string()),
                                 Value::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 Value::Array(arr) => {
-                                    encode_keyed_array_json(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_json(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 Value::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    crate::encode::encoders::encode_value(v, w, opts, indent + 6)
-                                        .map_err(|e| SerError::custom(e.to_string()))?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    crate::encode::encoders::encode_value(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )
+                                    .map_err(|e| SerError::custom(e.to_string()))?;
                                 }
                             }
                         }
@@ -941,7 +963,7 @@ fn encode_list_item_json(
                     }
                     Value::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 4)
+                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
                             .map_err(|e| SerError::custom(e.to_string()))?;
                     }
                 }
@@ -1119,7 +1141,7 @@ fn encode_list_item_alloc(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at indent + 2 * opts.indent
                     for item in items {
                         let obj = match item {
                             IValue::Object(p) => p,
@@ -1133,7 +1155,7 @@ fn encode_list_item_alloc(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -1167,7 +1189,7 @@ fn encode_list_item_alloc(
                             }
                             IValue::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                             }
                         }
                     }
@@ -1229,7 +1251,7 @@ fn encode_list_item_alloc(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_alloc(inner, w, opts, indent + 4)?;
+                            encode_list_item_alloc(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -1239,26 +1261,41 @@ fn encode_list_item_alloc(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                IValue::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                IValue::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
+                                IValue::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                IValue::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
                                 IValue::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &n.to_string())
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
                                 IValue::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 IValue::Array(arr) => {
-                                    encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_alloc(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 IValue::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    encode_internal_value_alloc(v, w, opts, indent + 6)?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    encode_internal_value_alloc(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )?;
                                 }
                             }
                         }
@@ -1287,7 +1324,7 @@ fn encode_list_item_alloc(
                     }
                     IValue::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                     }
                 }
             }
-- 
2.43.0


From 5fd7f721ae7299c2f207436e29755fb9d6a4703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 04/31] fix: write floats in canonical decimal form inside
 objects and arrays too

---
 crates/toon/src/encode/encoders.rs   | 15 ++++++++------
 crates/toon/src/encode/primitives.rs |  9 ++++++++
 crates/toon/src/ser/stream.rs        | 31 +++++++++++++++++++---------
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 003c918..f4c095a 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -29,7 +29,7 @@ pub fn encode_value(
     match value {
         Value::Null => w.line(indent, primitives::format_null()),
         Value::Bool(b) => w.line(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line(indent, &n.to_string()),
+        Value::Number(n) => w.line(indent, &primitives::format_json_number(n)),
         Value::String(s) => {
             let fs = primitives::format_string(s, opts.delimiter);
             w.line(indent, &fs)
@@ -137,7 +137,7 @@ fn encode_object_field_with_context(
     match value {
         Value::Null => w.line_kv(indent, &key_fmt, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, &key_fmt, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, &key_fmt, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, &key_fmt, &primitives::format_json_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             &key_fmt,
@@ -327,7 +327,7 @@ fn encode_folded_value(
     match value {
         Value::Null => w.line_kv(indent, folded_key, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, folded_key, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, folded_key, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, folded_key, &primitives::format_json_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             folded_key,
@@ -513,7 +513,7 @@ fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: us
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_json_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(inner) => {
             // Array of arrays: - [M]: v1,v2 or - [M]: with nested
@@ -637,7 +637,10 @@ fn encode_list_item_object(
             indent,
             &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
         ),
-        Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+        Value::Number(n) => w.line(
+            indent,
+            &format!("- {}: {}", first_key_fmt, primitives::format_json_number(n)),
+        ),
         Value::String(s) => {
             let v = primitives::format_string(s, opts.delimiter);
             w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -707,7 +710,7 @@ fn format_primitive_value(v: &Value, delim: crate::options::Delimiter) -> String
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_json_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
diff --git a/crates/toon/src/encode/primitives.rs b/crates/toon/src/encode/primitives.rs
index f613b46..d2548a0 100644
--- a/crates/toon/src/encode/primitives.rs
+++ b/crates/toon/src/encode/primitives.rs
@@ -201,3 +201,12 @@ pub fn format_null() -> &'static str {
 pub fn format_f64(f: f64) -> String {
     format_canonical_f64(f)
 }
+
+/// Format a JSON number in canonical form: integers as they are, floats without exponent.
+#[cfg(feature = "json")]
+pub fn format_json_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => format_canonical_f64(f),
+        _ => n.to_string(),
+    }
+}
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 3784b6d..ed03e7e 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -702,7 +702,7 @@ fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> S
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_json_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
@@ -718,7 +718,7 @@ fn encode_list_item_json(
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_json_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(items) => {
             let len = items.len();
@@ -802,9 +802,11 @@ fn encode_list_item_json(
                                 &key_fmt,
                                 primitives::format_bool(*b),
                             ),
-                            Value::Number(n) => {
-                                w.line_kv(indent + opts.indent, &key_fmt, &n.to_string())
-                            }
+                            Value::Number(n) => w.line_kv(
+                                indent + opts.indent,
+                                &key_fmt,
+                                &primitives::format_json_number(n),
+                            ),
                             Value::String(s) => w.line_kv(
                                 indent + opts.indent,
                                 &key_fmt,
@@ -845,7 +847,10 @@ fn encode_list_item_json(
                     indent,
                     &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
                 ),
-                Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+                Value::Number(n) => w.line(
+                    indent,
+                    &format!("- {}: {}", first_key_fmt, primitives::format_json_number(n)),
+                ),
                 Value::String(s) => {
                     let v = primitives::format_string(s, opts.delimiter);
                     w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -909,9 +914,11 @@ fn encode_list_item_json(
                                     &key_fmt,
                                     primitives::format_bool(*b),
                                 ),
-                                Value::Number(n) => {
-                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
-                                }
+                                Value::Number(n) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    &primitives::format_json_number(n),
+                                ),
                                 Value::String(s) => w.line_kv(
                                     indent + 2 * opts.indent,
                                     &key_fmt,
@@ -952,7 +959,11 @@ fn encode_list_item_json(
                     Value::Bool(b) => {
                         w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
                     }
-                    Value::Number(n) => w.line_kv(indent + opts.indent, &key_fmt, &n.to_string()),
+                    Value::Number(n) => w.line_kv(
+                        indent + opts.indent,
+                        &key_fmt,
+                        &primitives::format_json_number(n),
+                    ),
                     Value::String(s) => w.line_kv(
                         indent + opts.indent,
                         &key_fmt,
-- 
2.43.0


From 7a6030665efff4750077dcee2ffe050c3b8deaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 05/31] fix: decode integer-valued floats beyond the 64-bit
 integers as floats instead of clamping them

---
 crates/toon/src/decode/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 368906d..4a5db85 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -146,10 +146,11 @@ impl<'a> Parser<'a> {
                 if let Ok(f) = s.parse::<f64>() {
                     // Normalize integer-valued floats to integers
                     // Use f % 1.0 instead of f.fract() for no_std compatibility
+                    // when the integer type can hold them
                     if f.is_finite() && f % 1.0 == 0.0 {
-                        if f >= 0.0 {
+                        if (0.0..18_446_744_073_709_551_616.0).contains(&f) {
                             return Value::Number(Number::U64(f as u64));
-                        } else {
+                        } else if (-9_223_372_036_854_775_808.0..0.0).contains(&f) {
                             return Value::Number(Number::I64(f as i64));
                         }
                     }
-- 
2.43.0


From 5a32762bfe71317615886f546b2c9e4c5c848fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 06/31] fix: accept other delimiters as text in one-column
 tabular rows in strict mode

---
 crates/toon/src/decode/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 4a5db85..3599197 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1013,7 +1013,11 @@ impl<'a> Parser<'a> {
             self.next();
 
             // In strict mode, check if row uses a different delimiter than declared
-            if self.strict && self.error.is_none() && check_delimiter_mismatch(row_text, delimiter)
+            // (a one-column row holds no delimiter: any other one is part of its text)
+            if self.strict
+                && self.error.is_none()
+                && expected_cells > 1
+                && check_delimiter_mismatch(row_text, delimiter)
             {
                 self.error = Some(crate::error::Error::Syntax {
                     line: row_line_no,
-- 
2.43.0


From 479a86e55c5c7444e0607a615fb21f20723168c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 07/31] fix: do not panic on a legacy '@' table header with a
 multi-byte delimiter

---
 crates/toon/src/de/direct.rs     | 3 +++
 crates/toon/src/decode/parser.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index d594645..ad7235b 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -734,6 +734,9 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
+    if !dch.is_ascii() {
+        return None;
+    }
     Some((dch, s[2..].trim_start()))
 }
 
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 3599197..d01a9e9 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1096,6 +1096,9 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
+    if !dch.is_ascii() {
+        return None;
+    }
     let rest = &s[2..];
     Some((dch, trim_ascii_start(rest)))
 }
-- 
2.43.0


From 8d697118b0539ecdd7acae9c2118b157e24055b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 08/31] fix: quote a root string that starts with '@', which
 reads as a legacy table header

---
 crates/toon/src/encode/encoders.rs   | 2 +-
 crates/toon/src/encode/primitives.rs | 9 +++++++++
 crates/toon/src/ser/stream.rs        | 4 ++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index f4c095a..09e78ae 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -31,7 +31,7 @@ pub fn encode_value(
         Value::Bool(b) => w.line(indent, primitives::format_bool(*b)),
         Value::Number(n) => w.line(indent, &primitives::format_json_number(n)),
         Value::String(s) => {
-            let fs = primitives::format_string(s, opts.delimiter);
+            let fs = primitives::format_root_string(s, opts.delimiter);
             w.line(indent, &fs)
         }
         Value::Array(items) => {
diff --git a/crates/toon/src/encode/primitives.rs b/crates/toon/src/encode/primitives.rs
index d2548a0..93270d7 100644
--- a/crates/toon/src/encode/primitives.rs
+++ b/crates/toon/src/encode/primitives.rs
@@ -160,6 +160,15 @@ pub fn format_string(s: &str, delim: Delimiter) -> String {
     }
 }
 
+/// Format a string that is a whole document: a leading `@` would read as a legacy table header
+pub fn format_root_string(s: &str, delim: Delimiter) -> String {
+    if s.starts_with('@') {
+        escape_and_quote(s)
+    } else {
+        format_string(s, delim)
+    }
+}
+
 /// Check if a key needs quoting per §7.3
 /// Keys MAY be unquoted only if they match: ^[A-Za-z_][A-Za-z0-9_.]*$
 fn key_needs_quotes(s: &str) -> bool {
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index ed03e7e..13603a2 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -140,14 +140,14 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
         self.w.line(
             self.indent,
-            &primitives::format_string(&v.to_string(), self.opts.delimiter),
+            &primitives::format_root_string(&v.to_string(), self.opts.delimiter),
         );
         Ok(())
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
         self.w.line(
             self.indent,
-            &primitives::format_string(v, self.opts.delimiter),
+            &primitives::format_root_string(v, self.opts.delimiter),
         );
         Ok(())
     }
-- 
2.43.0


From 8aaf1ca6b2ce5ec9fd0358faa1641ae9db6d574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 09/31] fix: keep the path-expansion mark out of decoded keys

---
 crates/toon/src/decode/parser.rs | 43 ++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d01a9e9..a7cd20b 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -15,6 +15,7 @@ pub struct Parser<'a> {
     idx: usize,
     strict: bool,
     indent_size: usize,
+    mark_quoted_keys: bool,
     error: Option<crate::error::Error>,
 }
 
@@ -28,6 +29,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict: false,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_quoted_keys: false,
             error: None,
         }
     }
@@ -38,6 +40,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_quoted_keys: false,
             error: None,
         }
     }
@@ -48,6 +51,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_quoted_keys: false,
             error: None,
         }
     }
@@ -60,6 +64,12 @@ impl<'a> Parser<'a> {
         self
     }
 
+    /// Mark the keys that path expansion has to leave alone (only `expand_paths` removes the mark).
+    pub fn with_quoted_key_marks(mut self, mark: bool) -> Self {
+        self.mark_quoted_keys = mark;
+        self
+    }
+
     pub fn is_empty(&self) -> bool {
         self.lines.is_empty()
     }
@@ -178,6 +188,25 @@ impl<'a> Parser<'a> {
         Value::String(s.to_string())
     }
 
+    fn mark_key(&self, key: String) -> String {
+        if !self.mark_quoted_keys {
+            return key;
+        }
+        let mut marked = String::with_capacity(key.len() + 3);
+        marked.push('\u{200B}');
+        marked.push_str(&key);
+        marked
+    }
+
+    /// A key that itself starts with the mark gets one more, for path expansion to remove
+    fn mark_key_if_marked(&self, key: String) -> String {
+        if key.starts_with('\u{200B}') {
+            self.mark_key(key)
+        } else {
+            key
+        }
+    }
+
     fn parse_key_token(&mut self, k: &str) -> String {
         self.parse_key_token_at_line(k, self.idx)
     }
@@ -189,12 +218,9 @@ impl<'a> Parser<'a> {
                     // If this quoted key contains a dot, mark it to prevent path expansion
                     // by prefixing with a zero-width space (U+200B)
                     if st.contains('.') {
-                        let mut marked = String::with_capacity(st.len() + 3);
-                        marked.push('\u{200B}');
-                        marked.push_str(&st);
-                        return marked;
+                        return self.mark_key(st);
                     }
-                    return st;
+                    return self.mark_key_if_marked(st);
                 }
                 Err(e) if self.error.is_none() => {
                     self.error = Some(crate::error::Error::Syntax {
@@ -211,7 +237,7 @@ impl<'a> Parser<'a> {
                 Err(_) => return String::new(),
             }
         }
-        k.to_string()
+        self.mark_key_if_marked(k.to_string())
     }
 
     fn parse_array(&mut self, indent: usize) -> Value {
@@ -1681,7 +1707,10 @@ pub fn parse_to_internal_value_with_options<'a>(
     lines: Vec<ParsedLine<'a>>,
     options: &crate::options::Options,
 ) -> Result<Value, crate::error::Error> {
-    let mut p = Parser::from_lines(lines, options.strict).with_indent_size(options.indent);
+    let expand = options.expand_paths == crate::options::ExpandPaths::Safe;
+    let mut p = Parser::from_lines(lines, options.strict)
+        .with_indent_size(options.indent)
+        .with_quoted_key_marks(expand);
     let v = p.parse_document();
     if let Some(err) = p.error {
         Err(err)
-- 
2.43.0


From 79d25935423d917562d163f8f6b00850f77e26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 10/31] fix: emit the fields of a struct when key folding is on

---
 crates/toon/src/ser/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 13603a2..fe421eb 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -662,7 +662,7 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeMap::end(self)
     }
 }
 
-- 
2.43.0


From f43cf88949b90cc644f84d8481d9e19c5c2278ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 11/31] fix: write non-finite floats in map and struct fields
 as null

---
 crates/toon/src/ser/stream.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index fe421eb..1566238 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1589,15 +1589,11 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
         self.serialize_f64(v as f64)
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        if v.is_finite() {
-            self.out = Some(primitives::format_f64(v));
-        } else if v.is_nan() {
-            self.out = Some(primitives::escape_and_quote("NaN"));
-        } else if v.is_sign_positive() {
-            self.out = Some(primitives::escape_and_quote("Infinity"));
+        self.out = Some(if v.is_finite() {
+            primitives::format_f64(v)
         } else {
-            self.out = Some(primitives::escape_and_quote("-Infinity"));
-        }
+            primitives::format_null().to_string()
+        });
         Ok(())
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 86e1579a2fdf493a330fe7141780c6938f77db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 12/31] fix: fold keys the same way in streamed root arrays by
 sharing one array encoder

---
 crates/toon/src/encode/encoders.rs |   7 +-
 crates/toon/src/ser/stream.rs      | 468 +----------------------------
 2 files changed, 15 insertions(+), 460 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 09e78ae..4cda7e5 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -442,7 +442,12 @@ fn encode_keyed_array(
 }
 
 /// Encode a root-level array (no key prefix)
-fn encode_array(items: &[Value], w: &mut LineWriter, opts: &Options, indent: usize) -> Result<()> {
+pub(crate) fn encode_array(
+    items: &[Value],
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<()> {
     let len = items.len();
     let delim = opts.delimiter;
     let dch = primitives::delimiter_char(delim);
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 1566238..612e7d9 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -291,72 +291,13 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let delim = self.parent.opts.delimiter;
-        let dch = primitives::delimiter_char(delim);
-        let len = self.items.len();
-
-        if let Some(keys) = crate::encode::encoders::is_tabular_array(&self.items) {
-            // Tabular: [N]{f1,f2,...}:
-            let field_cells: Vec<String> = keys.iter().map(|k| primitives::format_key(k)).collect();
-            let header = primitives::format_tabular_header(len, &field_cells, delim);
-            self.parent.w.line(self.parent.indent, &header);
-
-            // Rows at indent+2
-            for item in &self.items {
-                let obj = item.as_object().unwrap();
-                let cells: Vec<String> = keys
-                    .iter()
-                    .map(|k| {
-                        let v = obj.get(k).unwrap();
-                        format_primitive_value_json(v, delim)
-                    })
-                    .collect();
-                let row = join_with_delim(&cells, dch);
-                self.parent
-                    .w
-                    .line(self.parent.indent + self.parent.opts.indent, &row);
-            }
-            Ok(())
-        } else if self.items.is_empty() {
-            // Empty array: [0]:
-            self.parent.w.line(
-                self.parent.indent,
-                &primitives::format_expanded_array_header(0, delim),
-            );
-            Ok(())
-        } else if is_primitive_array_json(&self.items) {
-            // Inline primitive array: [N]: v1,v2,v3
-            let values: Vec<String> = self
-                .items
-                .iter()
-                .map(|v| format_primitive_value_json(v, delim))
-                .collect();
-            let inline = join_with_delim(&values, dch);
-            self.parent.w.line(
-                self.parent.indent,
-                &format!(
-                    "{}: {}",
-                    primitives::format_bracket_segment(len, delim),
-                    inline
-                ),
-            );
-            Ok(())
-        } else {
-            // Mixed array: [N]: with list items
-            self.parent.w.line(
-                self.parent.indent,
-                &primitives::format_expanded_array_header(len, delim),
-            );
-            for item in &self.items {
-                encode_list_item_json(
-                    item,
-                    self.parent.w,
-                    self.parent.opts,
-                    self.parent.indent + self.parent.opts.indent,
-                )?;
-            }
-            Ok(())
-        }
+        crate::encode::encoders::encode_array(
+            &self.items,
+            self.parent.w,
+            self.parent.opts,
+            self.parent.indent,
+        )
+        .map_err(|e| SerError::custom(e.to_string()))
     }
 }
 
@@ -568,23 +509,10 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
             return Ok(());
         }
 
-        // Try to serialize to Value to detect arrays
         #[cfg(feature = "json")]
         {
             let val = crate::ser::value_builder::to_value(value, self.parent.opts);
-            if let Value::Array(items) = val {
-                // Use spec-compliant keyed array encoding
-                encode_keyed_array_json(
-                    &key_fmt,
-                    &items,
-                    self.parent.w,
-                    self.parent.opts,
-                    self.parent.indent,
-                )?;
-                self.entry_count += 1;
-                return Ok(());
-            }
-            // For objects, use encode_object_field which handles key folding
+            // encode_object_field covers arrays, objects and key folding
             crate::encode::encoders::encode_object_field(
                 &key,
                 &val,
@@ -683,389 +611,11 @@ impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
     }
 }
 
+#[cfg(not(feature = "json"))]
 fn join_with_delim(cells: &[String], dch: char) -> String {
     cells.join(&dch.to_string())
 }
 
-#[cfg(feature = "json")]
-fn is_primitive_array_json(items: &[Value]) -> bool {
-    items.iter().all(|v| {
-        matches!(
-            v,
-            Value::Null | Value::Bool(_) | Value::Number(_) | Value::String(_)
-        )
-    })
-}
-
-#[cfg(feature = "json")]
-fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> String {
-    match v {
-        Value::Null => primitives::format_null().to_string(),
-        Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => primitives::format_json_number(n),
-        Value::String(s) => primitives::format_string(s, delim),
-        _ => "null".to_string(),
-    }
-}
-
-#[cfg(feature = "json")]
-fn encode_list_item_json(
-    item: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<(), SerError> {
-    match item {
-        Value::Null => w.line_list_item(indent, primitives::format_null()),
-        Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &primitives::format_json_number(n)),
-        Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
-        Value::Array(items) => {
-            let len = items.len();
-            let delim = opts.delimiter;
-            let dch = primitives::delimiter_char(delim);
-            if items.is_empty() {
-                w.line_list_item(
-                    indent,
-                    &format!("{}:", primitives::format_bracket_segment(0, delim)),
-                );
-            } else if is_primitive_array_json(items) {
-                let values: Vec<String> = items
-                    .iter()
-                    .map(|v| format_primitive_value_json(v, delim))
-                    .collect();
-                let inline = join_with_delim(&values, dch);
-                w.line_list_item(
-                    indent,
-                    &format!(
-                        "{}: {}",
-                        primitives::format_bracket_segment(len, delim),
-                        inline
-                    ),
-                );
-            } else {
-                w.line_list_item(
-                    indent,
-                    &primitives::format_expanded_array_header(len, delim),
-                );
-                for inner in items {
-                    encode_list_item_json(inner, w, opts, indent + opts.indent)?;
-                }
-            }
-        }
-        Value::Object(obj) => {
-            if obj.is_empty() {
-                w.line(indent, "-");
-                return Ok(());
-            }
-            let mut iter = obj.iter();
-            let (first_key, first_value) = iter.next().unwrap();
-            let first_key_fmt = primitives::format_key(first_key);
-
-            // Special case: first field is a tabular array (§10)
-            if let Value::Array(items) = first_value {
-                if let Some(keys) = crate::encode::encoders::is_tabular_array(items) {
-                    let delim = opts.delimiter;
-                    let dch = primitives::delimiter_char(delim);
-                    let field_cells: Vec<String> =
-                        keys.iter().map(|k| primitives::format_key(k)).collect();
-                    let header = format!(
-                        "{}{}",
-                        first_key_fmt,
-                        primitives::format_tabular_header(items.len(), &field_cells, delim)
-                    );
-                    w.line_list_item(indent, &header);
-
-                    // Rows at indent + 2 * opts.indent
-                    for item in items {
-                        let inner_obj = item.as_object().unwrap();
-                        let cells: Vec<String> = keys
-                            .iter()
-                            .map(|k| {
-                                let v = inner_obj.get(k).unwrap();
-                                format_primitive_value_json(v, delim)
-                            })
-                            .collect();
-                        let row = join_with_delim(&cells, dch);
-                        w.line(indent + 2 * opts.indent, &row);
-                    }
-
-                    // Remaining fields at depth + 1 (indent + opts.indent)
-                    for (k, v) in iter {
-                        let key_fmt = primitives::format_key(k);
-                        match v {
-                            Value::Null => {
-                                w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                            }
-                            Value::Bool(b) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                primitives::format_bool(*b),
-                            ),
-                            Value::Number(n) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_json_number(n),
-                            ),
-                            Value::String(s) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_string(s, opts.delimiter),
-                            ),
-                            Value::Array(arr) => {
-                                encode_keyed_array_json(
-                                    &key_fmt,
-                                    arr,
-                                    w,
-                                    opts,
-                                    indent + opts.indent,
-                                )?;
-                            }
-                            Value::Object(_) => {
-                                w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(
-                                    v,
-                                    w,
-                                    opts,
-                                    indent + 2 * opts.indent,
-                                )
-                                .map_err(|e| SerError::custom(e.to_string()))?;
-                            }
-                        }
-                    }
-                    return Ok(());
-                }
-            }
-
-            // Standard case: first field on hyphen line
-            match first_value {
-                Value::Null => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_null()),
-                ),
-                Value::Bool(b) => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
-                ),
-                Value::Number(n) => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_json_number(n)),
-                ),
-                Value::String(s) => {
-                    let v = primitives::format_string(s, opts.delimiter);
-                    w.line(indent, &format!("- {}: {}", first_key_fmt, v));
-                }
-                Value::Array(items) => {
-                    // Non-tabular array as first field
-                    let len = items.len();
-                    let delim = opts.delimiter;
-                    if items.is_empty() {
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}:",
-                                first_key_fmt,
-                                primitives::format_bracket_segment(0, delim)
-                            ),
-                        );
-                    } else if is_primitive_array_json(items) {
-                        let dch = primitives::delimiter_char(delim);
-                        let values: Vec<String> = items
-                            .iter()
-                            .map(|v| format_primitive_value_json(v, delim))
-                            .collect();
-                        let inline = join_with_delim(&values, dch);
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}: {}",
-                                first_key_fmt,
-                                primitives::format_bracket_segment(len, delim),
-                                inline
-                            ),
-                        );
-                    } else {
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}",
-                                first_key_fmt,
-                                primitives::format_expanded_array_header(len, delim)
-                            ),
-                        );
-                        for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
-                        }
-                    }
-                }
-                Value::Object(inner_obj) => {
-                    w.line(indent, &format!("- {}:", first_key_fmt));
-                    if !inner_obj.is_empty() {
-                        for (k, v) in inner_obj {
-                            let key_fmt = primitives::format_key(k);
-                            match v {
-                                Value::Null => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_null(),
-                                ),
-                                Value::Bool(b) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_bool(*b),
-                                ),
-                                Value::Number(n) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    &primitives::format_json_number(n),
-                                ),
-                                Value::String(s) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    &primitives::format_string(s, opts.delimiter),
-                                ),
-                                Value::Array(arr) => {
-                                    encode_keyed_array_json(
-                                        &key_fmt,
-                                        arr,
-                                        w,
-                                        opts,
-                                        indent + 2 * opts.indent,
-                                    )?;
-                                }
-                                Value::Object(_) => {
-                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
-                                    crate::encode::encoders::encode_value(
-                                        v,
-                                        w,
-                                        opts,
-                                        indent + 3 * opts.indent,
-                                    )
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
-                                }
-                            }
-                        }
-                    }
-                }
-            }
-
-            // Remaining fields at depth + 1 (indent + opts.indent)
-            for (k, v) in iter {
-                let key_fmt = primitives::format_key(k);
-                match v {
-                    Value::Null => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                    }
-                    Value::Bool(b) => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
-                    }
-                    Value::Number(n) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_json_number(n),
-                    ),
-                    Value::String(s) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_string(s, opts.delimiter),
-                    ),
-                    Value::Array(arr) => {
-                        encode_keyed_array_json(&key_fmt, arr, w, opts, indent + opts.indent)?;
-                    }
-                    Value::Object(_) => {
-                        w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
-                            .map_err(|e| SerError::custom(e.to_string()))?;
-                    }
-                }
-            }
-        }
-    }
-    Ok(())
-}
-
-/// Encode a keyed array with spec-compliant format: key[N]: v1,v2 or key[N]{fields}:
-#[cfg(feature = "json")]
-fn encode_keyed_array_json(
-    key: &str,
-    items: &[Value],
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<(), SerError> {
-    let len = items.len();
-    let delim = opts.delimiter;
-    let dch = primitives::delimiter_char(delim);
-
-    if items.is_empty() {
-        // Empty array: key[0]:
-        w.line(
-            indent,
-            &format!("{}{}:", key, primitives::format_bracket_segment(0, delim)),
-        );
-        return Ok(());
-    }
-
-    // Check for tabular array
-    if let Some(keys) = crate::encode::encoders::is_tabular_array(items) {
-        let field_cells: Vec<String> = keys.iter().map(|k| primitives::format_key(k)).collect();
-        let header = format!(
-            "{}{}",
-            key,
-            primitives::format_tabular_header(len, &field_cells, delim)
-        );
-        w.line(indent, &header);
-
-        // Rows at indent+2
-        for item in items {
-            let obj = item.as_object().unwrap();
-            let cells: Vec<String> = keys
-                .iter()
-                .map(|k| {
-                    let v = obj.get(k).unwrap();
-                    format_primitive_value_json(v, delim)
-                })
-                .collect();
-            let row = join_with_delim(&cells, dch);
-            w.line(indent + opts.indent, &row);
-        }
-        return Ok(());
-    }
-
-    // Check for inline primitive array
-    if is_primitive_array_json(items) {
-        let values: Vec<String> = items
-            .iter()
-            .map(|v| format_primitive_value_json(v, delim))
-            .collect();
-        let inline = join_with_delim(&values, dch);
-        w.line(
-            indent,
-            &format!(
-                "{}{}: {}",
-                key,
-                primitives::format_bracket_segment(len, delim),
-                inline
-            ),
-        );
-        return Ok(());
-    }
-
-    // Mixed/complex array: key[N]: with list items
-    w.line(
-        indent,
-        &format!(
-            "{}{}",
-            key,
-            primitives::format_expanded_array_header(len, delim)
-        ),
-    );
-    for item in items {
-        encode_list_item_json(item, w, opts, indent + opts.indent)?;
-    }
-    Ok(())
-}
-
 #[cfg(not(feature = "json"))]
 fn is_primitive_array_alloc(items: &[IValue]) -> bool {
     items.iter().all(|v| v.is_primitive())
-- 
2.43.0


From d5d79d7995a18393e7df9196bdb7d984b32b85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 13/31] fix: detect folded-key collisions at the root and
 inside list items

---
 crates/toon/src/encode/encoders.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 4cda7e5..3534876 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -42,8 +42,9 @@ pub fn encode_value(
                 // Empty object: just key: with nothing following
                 // (when nested, the parent emits "key:" and this produces no additional lines)
             } else {
+                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
                 for (k, v) in obj {
-                    encode_object_field_internal(k, v, w, opts, indent)?;
+                    encode_object_field_with_siblings(k, v, w, opts, indent, &sibling_keys)?;
                 }
             }
         }
@@ -51,17 +52,6 @@ pub fn encode_value(
     Ok(())
 }
 
-/// Encode an object field (key-value pair) - internal version without sibling context
-fn encode_object_field_internal(
-    key: &str,
-    value: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<()> {
-    encode_object_field_with_context(key, value, w, opts, indent, None)
-}
-
 /// Encode an object field (key-value pair) - public API for streaming serializer
 pub fn encode_object_field(
     key: &str,
@@ -592,6 +582,7 @@ fn encode_list_item_object(
         return Ok(());
     }
 
+    let sibling_keys: Vec<String> = obj.keys().cloned().collect();
     let mut iter = obj.iter();
     let (first_key, first_value) = iter.next().unwrap();
     let first_key_fmt = primitives::format_key(first_key);
@@ -626,7 +617,8 @@ fn encode_list_item_object(
 
             // Other fields at depth+1 (indent + opts.indent)
             for (k, v) in iter {
-                encode_object_field(k, v, w, opts, indent + opts.indent)?;
+                let child_indent = indent + opts.indent;
+                encode_object_field_with_siblings(k, v, w, opts, child_indent, &sibling_keys)?;
             }
             return Ok(());
         }
@@ -696,8 +688,10 @@ fn encode_list_item_object(
         Value::Object(inner_obj) => {
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
+                let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
+                    let child_indent = indent + 2 * opts.indent;
+                    encode_object_field_with_siblings(k, v, w, opts, child_indent, &inner_keys)?;
                 }
             }
         }
@@ -705,7 +699,8 @@ fn encode_list_item_object(
 
     // Remaining fields at depth+1 (indent + opts.indent)
     for (k, v) in iter {
-        encode_object_field(k, v, w, opts, indent + opts.indent)?;
+        let child_indent = indent + opts.indent;
+        encode_object_field_with_siblings(k, v, w, opts, child_indent, &sibling_keys)?;
     }
     Ok(())
 }
-- 
2.43.0


From bfed3e4c0774c14d0e70de99437649ba18cee485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 14/31] fix: write enum variants with data at the root as an
 object keyed by the variant

---
 crates/toon/src/ser/stream.rs | 88 ++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 612e7d9..c3654ae 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -59,12 +59,23 @@ struct StreamingSerializer<'a> {
 }
 
 impl<'a> StreamingSerializer<'a> {
-    fn with_indent<'b>(&'b mut self, indent: usize) -> StreamingSerializer<'b> {
-        StreamingSerializer {
-            w: self.w,
-            opts: self.opts,
-            indent,
-        }
+    /// An enum variant with data is an object whose only key is the variant name
+    #[cfg(feature = "json")]
+    fn variant_field(&mut self, variant: &str, value: Value) -> Result<(), SerError> {
+        crate::encode::encoders::encode_object_field(
+            variant,
+            &value,
+            self.w,
+            self.opts,
+            self.indent,
+        )
+        .map_err(|e| SerError::custom(e.to_string()))
+    }
+
+    #[cfg(not(feature = "json"))]
+    fn variant_field(&mut self, variant: &str, value: IValue) -> Result<(), SerError> {
+        let object = IValue::Object(Vec::from([(String::from(variant), value)]));
+        encode_internal_value_alloc(&object, self.w, self.opts, self.indent)
     }
 }
 
@@ -94,7 +105,7 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
 
     type SerializeMap = MapSer<'a, 'de>;
     type SerializeStruct = MapSer<'a, 'de>;
-    type SerializeStructVariant = MapSer<'a, 'de>;
+    type SerializeStructVariant = VariantSer<'a, 'de>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
         self.w.line(self.indent, primitives::format_bool(v));
@@ -194,18 +205,18 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        let mut child = self.with_indent(self.indent + self.opts.indent);
-        value.serialize(&mut child)
+        #[cfg(feature = "json")]
+        let v = crate::ser::value_builder::to_value(value, self.opts);
+        #[cfg(not(feature = "json"))]
+        let v = crate::ser::value_builder_alloc::to_value(value, self.opts);
+        self.variant_field(variant, v)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         #[cfg(feature = "json")]
         {
             Ok(SeqSer {
                 parent: self,
+                variant: None,
                 items: Vec::new(),
             })
         }
@@ -213,6 +224,7 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         {
             Ok(SeqSerAlloc {
                 parent: self,
+                variant: None,
                 items: Vec::new(),
             })
         }
@@ -234,7 +246,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        self.serialize_tuple_struct(variant, len)
+        let mut seq = self.serialize_seq(Some(len))?;
+        seq.variant = Some(variant);
+        Ok(seq)
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSer {
@@ -259,16 +273,10 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        Ok(MapSer {
+        Ok(VariantSer {
             parent: self,
-            next_key: None,
-            entry_count: 0,
-            #[cfg(feature = "json")]
-            buffered: None,
+            variant,
+            fields: Vec::new(),
         })
     }
 }
@@ -276,6 +284,7 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
 #[cfg(feature = "json")]
 struct SeqSer<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
+    variant: Option<&'static str>,
     items: Vec<Value>,
 }
 
@@ -291,6 +300,9 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if let Some(variant) = self.variant {
+            return self.parent.variant_field(variant, Value::Array(self.items));
+        }
         crate::encode::encoders::encode_array(
             &self.items,
             self.parent.w,
@@ -343,6 +355,7 @@ impl<'a, 'de> SerializeTupleVariant for SeqSer<'a, 'de> {
 #[cfg(not(feature = "json"))]
 struct SeqSerAlloc<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
+    variant: Option<&'static str>,
     items: Vec<IValue>,
 }
 
@@ -358,6 +371,11 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if let Some(variant) = self.variant {
+            return self
+                .parent
+                .variant_field(variant, IValue::Array(self.items));
+        }
         let delim = self.parent.opts.delimiter;
         let dch = primitives::delimiter_char(delim);
         let len = self.items.len();
@@ -594,7 +612,16 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 }
 
-impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
+struct VariantSer<'a, 'de> {
+    parent: &'a mut StreamingSerializer<'de>,
+    variant: &'static str,
+    #[cfg(feature = "json")]
+    fields: Vec<(String, Value)>,
+    #[cfg(not(feature = "json"))]
+    fields: Vec<(String, IValue)>,
+}
+
+impl<'a, 'de> SerializeStructVariant for VariantSer<'a, 'de> {
     type Ok = ();
     type Error = SerError;
 
@@ -603,11 +630,20 @@ impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        SerializeStruct::serialize_field(self, key, value)
+        #[cfg(feature = "json")]
+        let v = crate::ser::value_builder::to_value(value, self.parent.opts);
+        #[cfg(not(feature = "json"))]
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        self.fields.push((String::from(key), v));
+        Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeStruct::end(self)
+        #[cfg(feature = "json")]
+        let fields = Value::Object(self.fields.into_iter().collect());
+        #[cfg(not(feature = "json"))]
+        let fields = IValue::Object(self.fields);
+        self.parent.variant_field(self.variant, fields)
     }
 }
 
-- 
2.43.0


From 5e8fa256df9c60e4f29676e159a052aa7876a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 15/31] fix: write tuples, nested arrays and quoted keys in
 builds without serde_json

---
 crates/toon/src/ser/stream.rs | 61 +++++++++++++++--------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index c3654ae..b6978a8 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -456,7 +456,7 @@ impl<'a, 'de> SerializeTuple for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -468,7 +468,7 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -480,7 +480,7 @@ impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -1029,13 +1029,18 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
         if obj.is_empty() {
             return None;
         }
-        let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
-        kset.sort();
+        let kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
         if let Some(ref ks) = keys {
-            if *ks != kset {
+            // Check if keys match (order-insensitive comparison)
+            let mut kset_sorted = kset.clone();
+            kset_sorted.sort();
+            let mut ks_sorted = ks.clone();
+            ks_sorted.sort();
+            if ks_sorted != kset_sorted {
                 return None;
             }
         } else {
+            // Use the key order from the first object
             keys = Some(kset);
         }
         for (_, vv) in obj.iter() {
@@ -1068,39 +1073,25 @@ fn encode_internal_value_alloc(
             w.line(indent, &primitives::format_string(s, opts.delimiter));
         }
         IValue::Array(items) => {
-            for item in items {
-                if item.is_primitive() {
-                    match item {
-                        IValue::Null => w.line_list_item(indent, primitives::format_null()),
-                        IValue::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_list_item(indent, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_list_item(indent, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line(indent, "-");
-                    encode_internal_value_alloc(item, w, opts, indent + opts.indent)?;
-                }
-            }
+            encode_keyed_array_alloc("", items, w, opts, indent)?;
         }
         IValue::Object(pairs) => {
             for (k, val) in pairs {
-                let key = primitives::format_string(k, opts.delimiter);
-                if val.is_primitive() {
-                    match val {
-                        IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
-                        IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_kv(indent, &key, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_kv(indent, &key, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
+                let key = primitives::format_key(k);
+                match val {
+                    IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
+                    IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
+                    IValue::Number(n) => w.line_kv(indent, &key, &n.to_string()),
+                    IValue::String(s) => {
+                        w.line_kv(indent, &key, &primitives::format_string(s, opts.delimiter))
+                    }
+                    IValue::Array(items) => {
+                        encode_keyed_array_alloc(&key, items, w, opts, indent)?;
+                    }
+                    IValue::Object(_) => {
+                        w.line_key_only(indent, &key);
+                        encode_internal_value_alloc(val, w, opts, indent + opts.indent)?;
                     }
-                } else {
-                    w.line_key_only(indent, &key);
-                    encode_internal_value_alloc(val, w, opts, indent + opts.indent)?;
                 }
             }
         }
-- 
2.43.0


From 0c7e2723f08a35eb76d89d7cc75ba236a2505f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 16/31] fix: decode Option, newtype and enum types

---
 crates/toon/src/de/mod.rs | 108 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 106 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 8b8a07c..4bae183 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -132,10 +132,114 @@ impl<'de> de::Deserializer<'de> for Deserializer {
         }
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::Null => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            // Unit variant: its name
+            Value::String(s) => {
+                let de: de::value::StringDeserializer<DeError> = s.into_deserializer();
+                de.deserialize_enum(name, variants, visitor)
+            }
+            // Variant with data: an object with the variant as its only key
+            Value::Object(mut obj) if obj.len() == 1 => match obj.pop() {
+                Some((variant, value)) => visitor.visit_enum(VariantDe { variant, value }),
+                None => Err(de::Error::custom("expected an enum variant")),
+            },
+            _ => Err(de::Error::custom("expected an enum variant")),
+        }
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+        unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
+struct VariantDe {
+    variant: String,
+    value: Value,
+}
+
+impl<'de> de::EnumAccess<'de> for VariantDe {
+    type Error = DeError;
+    type Variant = Deserializer;
+
+    fn variant_seed<S>(
+        self,
+        seed: S,
+    ) -> core::result::Result<(S::Value, Self::Variant), Self::Error>
+    where
+        S: de::DeserializeSeed<'de>,
+    {
+        let de: de::value::StringDeserializer<DeError> = self.variant.into_deserializer();
+        let variant = seed.deserialize(de)?;
+        Ok((variant, Deserializer { value: self.value }))
+    }
+}
+
+impl<'de> de::VariantAccess<'de> for Deserializer {
+    type Error = DeError;
+
+    fn unit_variant(self) -> core::result::Result<(), Self::Error> {
+        de::Deserialize::deserialize(self)
+    }
+
+    fn newtype_variant_seed<S>(self, seed: S) -> core::result::Result<S::Value, Self::Error>
+    where
+        S: de::DeserializeSeed<'de>,
+    {
+        seed.deserialize(self)
+    }
+
+    fn tuple_variant<V>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        de::Deserializer::deserialize_any(self, visitor)
+    }
+
+    fn struct_variant<V>(
+        self,
+        _fields: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        de::Deserializer::deserialize_any(self, visitor)
     }
 }
 
-- 
2.43.0


From cf481344f4535e90d9d71618d64d4d7454237be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 17/31] fix: reject lines that belong to no value in strict
 mode instead of dropping them

---
 crates/toon/src/decode/parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index a7cd20b..20aff45 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -837,6 +837,21 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse_document(&mut self) -> Value {
+        let result = self.parse_root();
+        // In strict mode, every line has to belong to the document's value
+        if self.strict && self.error.is_none() {
+            self.skip_blanks();
+            if self.peek().is_some() {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: self.idx + 1,
+                    message: "unexpected content after the document's value".to_string(),
+                });
+            }
+        }
+        result
+    }
+
+    fn parse_root(&mut self) -> Value {
         self.skip_blanks();
         if self.peek().is_none() {
             // Empty document represents an empty object (root documents are implicitly objects)
-- 
2.43.0


From d0449c86f12457a829d4bc1feaa0ee465a77223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 18/31] fix: reject blank lines between list items in strict
 mode after an item with content below it

---
 crates/toon/src/decode/parser.rs | 36 ++++++++++++--------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 20aff45..55f8a09 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -244,29 +244,6 @@ impl<'a> Parser<'a> {
         let mut arr = Vec::new();
         let mut inside_array = false;
         loop {
-            // In strict mode, error on blank lines inside arrays (only if next non-blank is still part of this array)
-            if self.strict && inside_array {
-                if let Some(bl) = self.peek() {
-                    if matches!(bl.kind, LineKind::Blank) {
-                        // Look ahead past blanks to see if next content is still at this array's indent
-                        let saved_idx = self.idx;
-                        self.skip_blanks();
-                        let is_inside = if let Some(next) = self.peek() {
-                            next.indent == indent && matches!(next.kind, LineKind::ListItem { .. })
-                        } else {
-                            false
-                        };
-                        self.idx = saved_idx; // Restore position
-                        if is_inside {
-                            let line_no = self.idx + 1;
-                            self.error = Some(crate::error::Error::Syntax {
-                                line: line_no,
-                                message: "blank line inside array".to_string(),
-                            });
-                        }
-                    }
-                }
-            }
             self.skip_blanks();
             let (take, item_val): (bool, Option<&str>) = if let Some(line) = self.peek() {
                 if line.indent != indent {
@@ -282,6 +259,19 @@ impl<'a> Parser<'a> {
             if !take {
                 break;
             }
+            // In strict mode, error on blank lines between the items of an array, whether this
+            // loop or the previous item passed over them
+            if self.strict
+                && inside_array
+                && matches!(self.lines[self.idx - 1].kind, LineKind::Blank)
+                && self.error.is_none()
+            {
+                let line_no = self.idx;
+                self.error = Some(crate::error::Error::Syntax {
+                    line: line_no,
+                    message: "blank line inside array".to_string(),
+                });
+            }
             inside_array = true;
             self.next();
             if let Some(vs) = item_val {
-- 
2.43.0


From e01ccfb0749c65e7c4fe84f979fae1762492aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 19/31] fix: keep the name of tuple variants when values are
 built for encoding

---
 crates/toon/src/ser/value_builder.rs       | 24 ++++++++++++++++------
 crates/toon/src/ser/value_builder_alloc.rs | 24 ++++++++++++++++------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 32e4475..32ef29a 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -43,7 +43,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -160,10 +160,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            elems: Vec::new(),
+            name: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -238,15 +241,24 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    name: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        let mut ser = ValueSerializer;
+        self.elems.push(value.serialize(&mut ser)?);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut m = Map::new();
+        m.insert(self.name, Value::Array(self.elems));
+        Ok(Value::Object(m))
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 443942a..96ea438 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -38,7 +38,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -151,10 +151,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            elems: Vec::new(),
+            name: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -229,15 +232,24 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    name: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        let mut ser = ValueSerializer;
+        self.elems.push(value.serialize(&mut ser)?);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut m = Vec::new();
+        m.push((self.name, Value::Array(self.elems)));
+        Ok(Value::Object(m))
     }
 }
 
-- 
2.43.0


From 638526d1c65014d28adfa337ecc03b05f5fce8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 20/31] fix: report errors of a value's Serialize instead of
 writing null

---
 crates/toon/src/ser/mod.rs                 |  2 +-
 crates/toon/src/ser/stream.rs              | 26 ++++++++++++++--------
 crates/toon/src/ser/value_builder.rs       |  7 ++++--
 crates/toon/src/ser/value_builder_alloc.rs |  4 ++--
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/crates/toon/src/ser/mod.rs b/crates/toon/src/ser/mod.rs
index a8f1be0..62af8e6 100644
--- a/crates/toon/src/ser/mod.rs
+++ b/crates/toon/src/ser/mod.rs
@@ -18,7 +18,7 @@ mod value_builder_alloc;
 // Non-streaming encoding via serde_json::Value is only available with "json"
 #[cfg(all(feature = "serde", feature = "json"))]
 pub fn to_string<T: Serialize>(value: &T, options: &Options) -> Result<String> {
-    let v = value_builder::to_value(value, options);
+    let v = value_builder::to_value(value, options)?;
     crate::encode::encode_value_to_string(&v, options)
 }
 
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index b6978a8..e82668b 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -206,9 +206,10 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
         #[cfg(feature = "json")]
-        let v = crate::ser::value_builder::to_value(value, self.opts);
+        let v = crate::ser::value_builder::to_value(value, self.opts).map_err(SerError::custom)?;
         #[cfg(not(feature = "json"))]
-        let v = crate::ser::value_builder_alloc::to_value(value, self.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.opts)
+            .map_err(SerError::custom)?;
         self.variant_field(variant, v)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
@@ -294,7 +295,8 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+        let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.items.push(val);
         Ok(())
     }
@@ -365,7 +367,8 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.items.push(v);
         Ok(())
     }
@@ -509,7 +512,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // When key folding is enabled, buffer entries for collision detection
         #[cfg(feature = "json")]
         if self.parent.opts.key_folding == crate::options::KeyFolding::Safe {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if self.buffered.is_none() {
                 self.buffered = Some(Vec::new());
             }
@@ -529,7 +533,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         #[cfg(feature = "json")]
         {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             // encode_object_field covers arrays, objects and key folding
             crate::encode::encoders::encode_object_field(
                 &key,
@@ -545,7 +550,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         #[cfg(not(feature = "json"))]
         {
-            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if let IValue::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_alloc(
@@ -631,9 +637,11 @@ impl<'a, 'de> SerializeStructVariant for VariantSer<'a, 'de> {
         value: &T,
     ) -> Result<(), Self::Error> {
         #[cfg(feature = "json")]
-        let v = crate::ser::value_builder::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         #[cfg(not(feature = "json"))]
-        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.fields.push((String::from(key), v));
         Ok(())
     }
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 32ef29a..662fd50 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -30,9 +30,12 @@ use serde_json::{Map, Number, Value};
 
 use crate::options::Options;
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(
+    value: &T,
+    _options: &Options,
+) -> Result<Value, serde_json::Error> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 96ea438..050d2db 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -11,9 +11,9 @@ use serde::ser::*;
 use crate::options::Options;
 use crate::value::{Number, Value};
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<Value, BuildError> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
-- 
2.43.0


From ff3059d5264f37869638aff30e24524caf83b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 21/31] fix: decode maps with number and bool keys

---
 crates/toon/src/de/mod.rs | 82 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 81 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 4bae183..825ba53 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -106,7 +106,7 @@ impl<'de> de::Deserializer<'de> for Deserializer {
                             return Ok(None);
                         }
                         let (ref key, ref val) = self.entries[self.idx];
-                        let de_key = key.clone().into_deserializer();
+                        let de_key = KeyDeserializer { key: key.clone() };
                         self.next_val = Some(val.clone());
                         seed.deserialize(de_key).map(Some)
                     }
@@ -184,6 +184,86 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     }
 }
 
+/// A map key: text, read as a number or bool where the key type asks for one.
+struct KeyDeserializer {
+    key: String,
+}
+
+macro_rules! deserialize_parsed_key {
+    ($($method:ident $ty:ty => $visit:ident,)*) => {$(
+        fn $method<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+        where
+            V: de::Visitor<'de>,
+        {
+            match self.key.parse::<$ty>() {
+                Ok(k) => visitor.$visit(k),
+                Err(_) => visitor.visit_string(self.key),
+            }
+        }
+    )*};
+}
+
+impl<'de> de::Deserializer<'de> for KeyDeserializer {
+    type Error = DeError;
+
+    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.key)
+    }
+
+    deserialize_parsed_key! {
+        deserialize_bool bool => visit_bool,
+        deserialize_i8 i8 => visit_i8,
+        deserialize_i16 i16 => visit_i16,
+        deserialize_i32 i32 => visit_i32,
+        deserialize_i64 i64 => visit_i64,
+        deserialize_u8 u8 => visit_u8,
+        deserialize_u16 u16 => visit_u16,
+        deserialize_u32 u32 => visit_u32,
+        deserialize_u64 u64 => visit_u64,
+        deserialize_f32 f32 => visit_f32,
+        deserialize_f64 f64 => visit_f64,
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        let de: de::value::StringDeserializer<DeError> = self.key.into_deserializer();
+        de.deserialize_enum(name, variants, visitor)
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
 struct VariantDe {
     variant: String,
     value: Value,
-- 
2.43.0


From cf1904c8101352170efba7087934f794106dc85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 22/31] fix: reject array elements beyond the length of a tuple
 instead of dropping them

---
 crates/toon/src/de/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 825ba53..7acc240 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -67,7 +67,7 @@ impl<'de> de::Deserializer<'de> for Deserializer {
                     elems: Vec<Value>,
                     idx: usize,
                 }
-                impl<'de> SeqAccess<'de> for SA {
+                impl<'de> SeqAccess<'de> for &mut SA {
                     type Error = DeError;
                     fn next_element_seed<T>(
                         &mut self,
@@ -85,7 +85,15 @@ impl<'de> de::Deserializer<'de> for Deserializer {
                         seed.deserialize(de).map(Some)
                     }
                 }
-                visitor.visit_seq(SA { elems: arr, idx: 0 })
+                let mut seq = SA { elems: arr, idx: 0 };
+                let out = visitor.visit_seq(&mut seq)?;
+                if seq.idx < seq.elems.len() {
+                    return Err(de::Error::invalid_length(
+                        seq.elems.len(),
+                        &"fewer elements in array",
+                    ));
+                }
+                Ok(out)
             }
             Value::Object(obj) => {
                 struct MA {
-- 
2.43.0


From dd2c346890a553bd74d0ccdacbeb2ab180e904d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 23/31] fix: keep a null, and reject a scalar, on the lines
 below a key or item header

---
 crates/toon/src/decode/parser.rs | 33 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 55f8a09..10f67b2 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -303,10 +303,7 @@ impl<'a> Parser<'a> {
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
                         // Value on following lines, deeper than the item's other fields
-                        let v = match self.parse_node(indent + self.indent_size + 1) {
-                            Value::Null => Value::Object(Vec::new()),
-                            v => v,
-                        };
+                        let v = self.parse_content(indent + self.indent_size + 1);
                         map.push((key, v));
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
@@ -322,14 +319,8 @@ impl<'a> Parser<'a> {
                 // 3) Fallback: treat as scalar list item
                 arr.push(self.parse_scalar_token(vs));
             } else {
-                // Bare "-" list item - check if there are children
-                let child_val = self.parse_node(indent + 1);
-                // If parse_node returns Null (no children), this is an empty object
-                if matches!(child_val, Value::Null) {
-                    arr.push(Value::Object(Vec::new()));
-                } else {
-                    arr.push(child_val);
-                }
+                // Bare "-" list item: its children, or an empty object
+                arr.push(self.parse_content(indent + 1));
             }
         }
         Value::Array(arr)
@@ -576,6 +567,7 @@ impl<'a> Parser<'a> {
                     if !handled {
                         // Check for bare scalar after key: - this is an error
                         // (scalars in object context must have a key)
+                        self.skip_blanks();
                         if let Some(nl) = self.peek() {
                             if nl.indent > indent {
                                 if let LineKind::Scalar(s) = &nl.kind {
@@ -593,13 +585,7 @@ impl<'a> Parser<'a> {
                                 }
                             }
                         }
-                        let v = self.parse_node(indent + 1);
-                        // If key: has no children, produce empty object instead of null
-                        if matches!(v, Value::Null) {
-                            map.push((k, Value::Object(Vec::new())));
-                        } else {
-                            map.push((k, v));
-                        }
+                        map.push((k, self.parse_content(indent + 1)));
                     }
                 }
                 _ => break,
@@ -765,6 +751,15 @@ impl<'a> Parser<'a> {
         Value::Null
     }
 
+    /// The value on the lines at `min_indent` or deeper, or an empty object where there are none
+    fn parse_content(&mut self, min_indent: usize) -> Value {
+        self.skip_blanks();
+        match self.peek() {
+            Some(line) if line.indent >= min_indent => self.parse_node(min_indent),
+            _ => Value::Object(Vec::new()),
+        }
+    }
+
     fn parse_node(&mut self, min_indent: usize) -> Value {
         self.skip_blanks();
         let Some(line) = self.peek() else {
-- 
2.43.0


From 5a42ff5997841e93760321f6592a7b94276606ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 24/31] fix: do not read a line such as '@[2]:' as the header
 of a root array

---
 crates/toon/src/decode/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 10f67b2..87581df 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -878,7 +878,9 @@ impl<'a> Parser<'a> {
                     LineKind::Scalar(s) if is_array_header_line(s) || s.starts_with('[') => {
                         // Scalar might be a complete header with inline values
                         if let Some(header) = parse_array_header(s) {
-                            return self.parse_root_array_with_header(header);
+                            if header.key.is_none() {
+                                return self.parse_root_array_with_header(header);
+                            }
                         }
                     }
                     _ => {}
-- 
2.43.0


From a36768d2592df0717daaf8df17dfec42abbd06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 25/31] fix: keep wrapped scalar map values on the key's line
 in builds without serde_json

---
 crates/toon/src/ser/stream.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index e82668b..3701260 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -552,25 +552,12 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         {
             let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
                 .map_err(SerError::custom)?;
-            if let IValue::Array(items) = val {
-                // Use spec-compliant keyed array encoding
-                encode_keyed_array_alloc(
-                    &key_fmt,
-                    &items,
-                    self.parent.w,
-                    self.parent.opts,
-                    self.parent.indent,
-                )?;
-                self.entry_count += 1;
-                return Ok(());
-            }
-            // For objects, use the standard key: then nested fields
-            self.parent.w.line_key_only(self.parent.indent, &key_fmt);
+            let object = IValue::Object(Vec::from([(key, val)]));
             encode_internal_value_alloc(
-                &val,
+                &object,
                 self.parent.w,
                 self.parent.opts,
-                self.parent.indent + self.parent.opts.indent,
+                self.parent.indent,
             )?;
             self.entry_count += 1;
             Ok(())
-- 
2.43.0


From 11fd03ca3fac2c2f1cd2052ef746ea0f85da1c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 26/31] fix: read the fields of a struct variant from an object
 only

---
 crates/toon/src/de/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 7acc240..9db9533 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -327,7 +327,10 @@ impl<'de> de::VariantAccess<'de> for Deserializer {
     where
         V: de::Visitor<'de>,
     {
-        de::Deserializer::deserialize_any(self, visitor)
+        match self.value {
+            Value::Object(_) => de::Deserializer::deserialize_any(self, visitor),
+            _ => Err(de::Error::custom("expected a struct variant")),
+        }
     }
 }
 
-- 
2.43.0


From 3586f9ef82cbadff50e366f4f783de85b54c2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 27/31] fix: count brackets in usize, so that no text overflows
 the count

---
 crates/toon/src/decode/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 87581df..c646560 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1345,7 +1345,7 @@ fn find_matching_bracket(s: &str, start: usize) -> Option<usize> {
     if start >= bytes.len() || bytes[start] != b'[' {
         return None;
     }
-    let mut depth = 0;
+    let mut depth = 0usize;
     for (i, &b) in bytes[start..].iter().enumerate() {
         match b {
             b'[' => depth += 1,
@@ -1367,7 +1367,7 @@ fn find_matching_brace(s: &str, start: usize) -> Option<usize> {
     if start >= bytes.len() || bytes[start] != b'{' {
         return None;
     }
-    let mut depth = 0;
+    let mut depth = 0usize;
     let mut in_quote = false;
     let mut escape = false;
     for (i, &b) in bytes[start..].iter().enumerate() {
-- 
2.43.0


From 37004dc077c5f3d2055dc84eff7bb20b361e4336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 28/31] fix: an indentation unit near the largest integer
 overflowed the decoder

---
 crates/toon/src/decode/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index c646560..4d32825 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -303,7 +303,8 @@ impl<'a> Parser<'a> {
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
                         // Value on following lines, deeper than the item's other fields
-                        let v = self.parse_content(indent + self.indent_size + 1);
+                        let field_indent = indent.saturating_add(self.indent_size);
+                        let v = self.parse_content(field_indent.saturating_add(1));
                         map.push((key, v));
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
-- 
2.43.0


From d53e963f6a6fb35c730b98fef6da2cfb71510ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:51 +0000
Subject: [PATCH 29/31] fix: accept newtype and Some keys of maps in the
 streaming encoder

---
 crates/toon/src/ser/stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 3701260..edb32fc 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1343,8 +1343,8 @@ impl Serializer for &mut KeySerializer {
         self.out = Some("null".into());
         Ok(())
     }
-    fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        value.serialize(self)
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some("null".into());
@@ -1364,9 +1364,9 @@ impl Serializer for &mut KeySerializer {
     fn serialize_newtype_struct<T: ?Sized + Serialize>(
         self,
         _name: &'static str,
-        _value: &T,
+        value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+        value.serialize(self)
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
-- 
2.43.0


From 2f412e5effc6fcff7ab2f9d9960363c87710b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 30/31] fix: write number keys of maps alike in both encoders

---
 crates/toon/src/ser/stream.rs        | 9 ++++++---
 crates/toon/src/ser/value_builder.rs | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index edb32fc..8ad663e 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1321,11 +1321,14 @@ impl Serializer for &mut KeySerializer {
         Ok(())
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v as f64));
-        Ok(())
+        self.serialize_f64(v as f64)
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v));
+        self.out = Some(if v.is_finite() {
+            primitives::format_f64(v)
+        } else {
+            primitives::format_null().to_string()
+        });
         Ok(())
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 662fd50..57dd20f 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -279,7 +279,7 @@ impl SerializeMap for MapSerializer {
         let v = key.serialize(&mut ser)?;
         let s = match v {
             Value::String(s) => s,
-            Value::Number(n) => n.to_string(),
+            Value::Number(n) => crate::encode::primitives::format_json_number(&n),
             Value::Bool(b) => {
                 if b {
                     "true".into()
-- 
2.43.0


From 8ca622325d71be4fba5b7033873dc70ad08f5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 31/31] fix: refuse arrays and objects as keys of maps

---
 crates/toon/src/ser/value_builder.rs       | 4 +++-
 crates/toon/src/ser/value_builder_alloc.rs | 9 +--------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 57dd20f..27ffdc9 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -288,7 +288,9 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => other.to_string(),
+            Value::Array(_) | Value::Object(_) => {
+                return Err(serde_json::Error::custom("invalid key"));
+            }
         };
         self.next_key = Some(s);
         Ok(())
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 050d2db..bff3376 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -1,6 +1,5 @@
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -276,13 +275,7 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => format!(
-                "{}",
-                match other {
-                    Value::String(s) => s,
-                    _ => String::new(),
-                }
-            ),
+            Value::Array(_) | Value::Object(_) => return Err(BuildError),
         };
         self.next_key = Some(s);
         Ok(())
-- 
2.43.0

