From f509259075c4a7309f0500308bec93d4df5be425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 01/26] hooks: expose the semantic index under --cfg dbml_verif

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aa5fb07..3cb5e62 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![forbid(unsafe_code)]
 #![forbid(clippy::all)]
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 use ast::SchemaBlock;
 use pest::error::Error as ParseError;
@@ -21,6 +22,18 @@ pub(crate) mod utils;
 #[cfg(feature = "utils")]
 pub mod utils;
 
+/// Access to the semantic index for the verification harness (built with `--cfg dbml_verif` only).
+#[cfg(dbml_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+  pub use crate::analyzer::{
+    analyze,
+    AnalyzedIndexer,
+    TableRef,
+  };
+  pub use crate::utils::get_table_refs;
+}
+
 use analyzer::*;
 pub use parser::parse as parse_dbml_unchecked;
 
-- 
2.43.0


From 1a4bf03acc9083abac3579eab5d2d903d52d6a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 02/26] fix: do not panic on a string default for a character
 type without a length

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 95018ec..dbde7bf 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args[0], Value::Integer(len) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(&Value::Integer(len)) if val.len() as i64 != len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args[0], Value::Integer(cap) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.len() as i64 > cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From 0c1195f6f0ca147677e326e91e4d424032752c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 03/26] fix: measure string defaults in characters, not bytes

---
 src/analyzer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index dbde7bf..199af7a 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -339,12 +339,12 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                 match type_name {
                   ColumnTypeName::Bit
                   | ColumnTypeName::Char
-                  if matches!(col.r#type.args.first(), Some(&Value::Integer(len)) if val.len() as i64 != len) => {
+                  if matches!(col.r#type.args.first(), Some(&Value::Integer(len)) if val.chars().count() as i64 != len) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   ColumnTypeName::Varbit
                   | ColumnTypeName::VarChar
-                  if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.len() as i64 > cap) => {
+                  if matches!(col.r#type.args.first(), Some(&Value::Integer(cap)) if val.chars().count() as i64 > cap) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
                   _ => ()
-- 
2.43.0


From 6bc10d6c6262dce46f74eb5c858370335875a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 04/26] fix: accept the maximum bigint as a default value

---
 src/analyzer/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 199af7a..0b0caa3 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -364,10 +364,6 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {
                     throw_err(err.clone(), &span_range, input)?;
                   }
-                  ColumnTypeName::BigInt
-                  if val.overflowing_add(1).1 || val.overflowing_sub(1).1 => {
-                    throw_err(err.clone(), &span_range, input)?;
-                  }
                   _ => ()
                 };
               },
-- 
2.43.0


From 4c656c6e03f303e689cb95ddd35dc7e88111ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 05/26] fix: accept null and expression defaults on enum
 columns

---
 src/analyzer/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 0b0caa3..8f04683 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -301,7 +301,13 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         .and_then(|opt_span| opt_span)
                         .unwrap_or_else(|| unreachable!("default value is missing"));
 
-                      match indexer.lookup_enum_values(&enum_schema, &enum_name, &vec![default_value.to_string()]) {
+                      // only literal values name an enum variant
+                      let enum_values = match default_value {
+                        Value::Null | Value::Expr(_) => vec![],
+                        value => vec![value.to_string()],
+                      };
+
+                      match indexer.lookup_enum_values(&enum_schema, &enum_name, &enum_values) {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-- 
2.43.0


From 948c975b022a398d3aa25ce327560c350b9ca8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 06/26] fix: report the type of the left column in a foreign
 key type mismatch

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 2ea2b2d..efad448 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -398,7 +398,7 @@ impl IndexedRef {
           r_ident: r.to_string.clone(),
           l_ident: l.to_string.clone(),
           r_type: r_type.raw.clone(),
-          l_type: l.raw.clone(),
+          l_type: l_type.raw.clone(),
         };
 
         throw_err(err, &self.span_range, input)?;
-- 
2.43.0


From ecb5d5a117c2de89ff5ec913e8f8e3843b40f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 07/26] fix: require a key on both sides of a many-to-many
 relation

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index efad448..aafc607 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -411,7 +411,7 @@ impl IndexedRef {
           r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
-          (Relation::Many2Many, false, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
+          (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
           (Relation::One2Many, false, _) => {
             Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.lhs.span_range))
           }
-- 
2.43.0


From d4e514478d1b43003f5e9050bd621c486bbcdbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 08/26] fix: recognise a single-column key declared in an
 indexes block

---
 src/analyzer/indexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index aafc607..d6aab28 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -407,8 +407,10 @@ impl IndexedRef {
       if composition_len == 1 {
         let err = match (
           &self.rel,
-          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
-          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique),
+          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&lhs_ident.compositions, &lhs_table.indexes),
+          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
+            || is_valid_composite(&rhs_ident.compositions, &rhs_table.indexes),
         ) {
           (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),
           (Relation::Many2Many, false, _) | (Relation::Many2Many, _, false) => Some((InvalidForeignKeyErr::Many2Many, &self.span_range)),
-- 
2.43.0


From d13c252342a206b0b1af939c0345de3fc3f7fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 09/26] fix: resolve aliases and explicit default schema to the
 same table in references

---
 src/analyzer/helper.rs  | 5 +++++
 src/analyzer/indexer.rs | 4 ++--
 src/analyzer/mod.rs     | 1 +
 src/utils/mod.rs        | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/analyzer/helper.rs b/src/analyzer/helper.rs
index 663fa15..b2b3229 100644
--- a/src/analyzer/helper.rs
+++ b/src/analyzer/helper.rs
@@ -34,6 +34,11 @@ pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> A
   Ok(())
 }
 
+/// Gets the schema name, falling back to the default schema if not specified.
+pub(crate) fn schema_name(schema: &Option<Ident>) -> &str {
+  schema.as_ref().map(|s| s.to_string.as_str()).unwrap_or(DEFAULT_SCHEMA)
+}
+
 pub(super) fn eq_elements<T: Eq + Ord>(lhs: impl Iterator<Item = T>, rhs: impl Iterator<Item = T>) -> bool {
   BTreeSet::from_iter(lhs) == BTreeSet::from_iter(rhs)
 }
diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index d6aab28..7bcf1c2 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -347,7 +347,7 @@ impl IndexedRef {
       tables
         .iter()
         .find(|table| {
-          table.ident.schema.as_ref().map(|s| &s.to_string) == ref_ident.schema.as_ref().map(|s| &s.to_string)
+          schema_name(&table.ident.schema) == schema_name(&ref_ident.schema)
             && table.ident.name.to_string == ref_ident.table.to_string
         })
         .map(Ok)
@@ -470,7 +470,7 @@ impl IndexedRef {
   /// Should use after calling `validate_ref_type`.
   pub fn occupy_same_column(&self, other: &Self, indexer: &Indexer) -> bool {
     let eq_ident = |lhs: &RefIdent, rhs: &RefIdent| -> bool {
-      lhs.schema.as_ref().map(|s| &s.to_string) == rhs.schema.as_ref().map(|s| &s.to_string)
+      schema_name(&lhs.schema) == schema_name(&rhs.schema)
         && lhs.table.to_string == rhs.table.to_string
         && eq_elements(
           lhs.compositions.iter().map(|s| &s.to_string),
diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 8f04683..09dcb8f 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -11,6 +11,7 @@ mod err;
 mod helper;
 mod indexer;
 
+pub(crate) use helper::schema_name;
 use helper::*;
 use indexer::*;
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 250fee3..7e9266a 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -35,7 +35,7 @@ pub fn get_table_refs(table_ident: &TableIdent, analyzed_indexer: &AnalyzedIndex
   let mut ref_self_blocks = vec![];
 
   let eq = |table_ident: &TableIdent, ref_ident: &RefIdent| {
-    table_ident.schema.clone().map(|s| s.to_string) == ref_ident.schema.clone().map(|s| s.to_string)
+    schema_name(&table_ident.schema) == schema_name(&ref_ident.schema)
       && table_ident.name.to_string == ref_ident.table.to_string
   };
 
-- 
2.43.0


From b48bab43a15e128499dcc4dd807a415e65875714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 10/26] fix: do not resolve a schema-qualified table name as an
 alias

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 7bcf1c2..e9e2e6d 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -273,7 +273,13 @@ impl Indexer {
 
   /// Gets a new ref block if it is pointing to an alias.
   pub fn resolve_ref_alias(&self, ident: &RefIdent) -> RefIdent {
-    match self.resolve_alias(&ident.table.to_string) {
+    // an alias is never qualified by a schema
+    let resolved = match ident.schema {
+      Some(_) => None,
+      None => self.resolve_alias(&ident.table.to_string),
+    };
+
+    match resolved {
       Some((schema, table)) => {
         RefIdent {
           span_range: ident.span_range.clone(),
-- 
2.43.0


From 367a690ec722fe796eeb1ff156d2b9f1861e625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 11/26] fix: locate a missing default schema at the reference
 that needs it

---
 src/analyzer/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index e9e2e6d..fc6372a 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -237,7 +237,7 @@ impl Indexer {
     fields: &Vec<Ident>,
     input: &str,
   ) -> AnalyzerResult<()> {
-    let schema_span = schema.clone().map(|s| s.span_range).unwrap_or_default();
+    let schema_span = schema.as_ref().unwrap_or(table).span_range.clone();
     let schema = schema
       .clone()
       .map(|s| s.to_string)
-- 
2.43.0


From 9db785427baccb5497d98a41475730311b69b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 12/26] fix: reject schema-qualified table group items that do
 not exist

---
 src/analyzer/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index fc6372a..bc34334 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -153,7 +153,13 @@ impl Indexer {
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-          Some(item_schema) => (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone()),
+          Some(item_schema) => {
+            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string) {
+              throw_err(Err::TableNotFound, &group_item.span_range, input)?;
+            }
+
+            (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
+          }
           None => {
             match self.resolve_alias(&group_item.ident_alias.to_string) {
               Some(ident) => ident.clone(),
-- 
2.43.0


From ccf89ba8e3c02864999ee378c3083a9c5ae5570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 13/26] fix: reject duplicate attribute keys in table group
 settings

---
 src/analyzer/indexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index bc34334..0ec4123 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -150,6 +150,10 @@ impl Indexer {
         throw_err(Err::DuplicateTableGroupName, &table_group.ident.span_range, input)?;
       }
 
+      if let Some(settings) = &table_group.settings {
+        check_attr_duplicate_keys(&settings.attributes, input)?;
+      }
+
       let mut indexed_items = BTreeSet::new();
       for group_item in &table_group.items {
         let ident = match &group_item.schema {
-- 
2.43.0


From 66005a8e4e3d5a4f52b08306a38831182ab72225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 14/26] fix: keep an inline reference on its own table when an
 alias has the same name

---
 src/analyzer/indexer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 0ec4123..27fb0db 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -331,7 +331,14 @@ impl IndexedRef {
 
         let lhs = RefIdent {
           span_range: span_range.clone(),
-          schema: table_ident.schema.clone(),
+          // qualified so that the table is never taken for an alias of another one
+          schema: table_ident.schema.clone().or_else(|| {
+            Some(Ident {
+              span_range: table_ident.span_range.clone(),
+              raw: DEFAULT_SCHEMA.to_string(),
+              to_string: DEFAULT_SCHEMA.to_string(),
+            })
+          }),
           table: table_ident.name.clone(),
           compositions: vec![col_name.clone()],
         };
-- 
2.43.0


From 0e2b620b39cdb70490a85b0c5b898ec70eb270e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 15/26] fix: take index expressions into account when looking
 for duplicate keys

---
 src/analyzer/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 09dcb8f..c7f8aa8 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -151,18 +151,16 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           throw_err(Err::EmptyIndexesBlock, &indexes_block.span_range, input)?;
         }
 
-        let idents: Vec<_> = def
+        let ident_strings: Vec<_> = def
           .cols
           .iter()
-          .filter_map(|id| {
+          .map(|id| {
             match id {
-              IndexesColumnType::String(s) => Some(s),
-              _ => None,
+              IndexesColumnType::String(s) => s.to_string.clone(),
+              IndexesColumnType::Expr(expr) => expr.raw.clone(),
             }
           })
-          .cloned()
           .collect();
-        let ident_strings: Vec<_> = idents.iter().map(|s| s.to_string.clone()).collect();
 
         for ident in &def.cols {
           if let IndexesColumnType::String(col_name) = ident {
@@ -195,7 +193,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| idents.iter().all(|id| uniq_item.contains(&id.to_string)))
+                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From d5fd9732cbb216be2e03f028fde300c6a12d328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 16/26] fix: accept a unique key on part of the columns of an
 earlier one

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index c7f8aa8..4b60223 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -193,7 +193,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
               if tmp_table_indexer
                 .unique_list
                 .iter()
-                .any(|uniq_item| ident_strings.iter().all(|id| uniq_item.contains(id)))
+                .any(|uniq_item| eq_elements(uniq_item.iter(), ident_strings.iter()))
               {
                 throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
               }
-- 
2.43.0


From 3d2b2dd0f67cae8c876d9a7eda25252c1648e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 17/26] fix: accept an untyped index after a typed one on the
 same columns

---
 src/analyzer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 4b60223..75efbe1 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -221,7 +221,7 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
             if tmp_table_indexer
               .indexed_list
               .iter()
-              .any(|(idx_item, _)| idx_item == &ident_strings)
+              .any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type.is_none())
             {
               throw_err(Err::DuplicateIndexKey, &def.span_range, input)?;
             }
-- 
2.43.0


From 8c103be8af8a4cc8e16ae8ba84d949b76d2db7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 18/26] fix: tell enum types of different schemas apart in
 foreign keys

---
 src/analyzer/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 75efbe1..3fe27f6 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -291,6 +291,9 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                     _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                   };
 
+                  // the same name in another schema is another type
+                  let full_enum_name = format!("{}.{}", enum_schema.as_deref().unwrap_or(DEFAULT_SCHEMA), enum_name);
+
                   match &col.settings {
                     Some(ColumnSettings { attributes, default: Some(default_value), .. }) => {
                       let default_value_span = attributes.iter()
@@ -310,11 +313,11 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                         (false, (_, _)) => throw_err(Err::SchemaNotFound, &col.r#type.span_range, input)?,
                         (true, (false, _)) => throw_err(Err::EnumNotFound, &col.r#type.span_range, input)?,
                         (true, (true, f)) if f.iter().any(|f| f == &false) => throw_err(Err::EnumValueNotFound, &default_value_span, input)?,
-                        _ => ColumnTypeName::Enum(enum_name)
+                        _ => ColumnTypeName::Enum(full_enum_name)
                       }
                     }
                     _ => {
-                      ColumnTypeName::Enum(enum_name)
+                      ColumnTypeName::Enum(full_enum_name)
                     }
                   }
                 }
-- 
2.43.0


From 255c6527b1d1024da4164217ec70367b0137c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 19/26] fix: accept a column type from a schema with a dot in
 its name

---
 src/analyzer/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 3fe27f6..8f128da 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -283,12 +283,10 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
                   type_name
                 }
                 Err(_) => {
-                  let splited: Vec<_> = raw_type.split('.').collect();
-
-                  let (enum_schema, enum_name) = match splited.len() {
-                    1 => (None, raw_type),
-                    2 => (Some(splited[0].to_string()), splited[1].to_string()),
-                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
+                  // the schema may contain dots but the type name never does
+                  let (enum_schema, enum_name) = match raw_type.rsplit_once('.') {
+                    Some((schema, name)) => (Some(schema.to_string()), name.to_string()),
+                    None => (None, raw_type),
                   };
 
                   // the same name in another schema is another type
-- 
2.43.0


From a190698b387e5d175ae357d2ba1cacb6ea202896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 20/26] fix: keep comment markers in quoted strings and leading
 whitespace in quoted names

---
 src/dbml.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index bd013ed..0a370fd 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -7,13 +7,13 @@ multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
 
 // literals
 double_quoted_value = @{ (!"\"" ~ ANY)* }
-double_quoted_string = { "\"" ~ double_quoted_value ~ "\"" }
+double_quoted_string = ${ "\"" ~ double_quoted_value ~ "\"" }
 single_quoted_value = @{ (!"'" ~ ANY)* }
-single_quoted_string = { "'" ~ single_quoted_value ~ "'"}
+single_quoted_string = ${ "'" ~ WHITESPACE* ~ single_quoted_value ~ "'"}
 backquoted_quoted_value = @{ (!"`" ~ ANY)* }
-backquoted_quoted_string = { "`" ~ backquoted_quoted_value ~ "`" }
+backquoted_quoted_string = ${ "`" ~ backquoted_quoted_value ~ "`" }
 triple_quoted_value = @{ (!"'''" ~ ANY)* }
-triple_quoted_string = { "'''" ~ triple_quoted_value ~ "'''" }
+triple_quoted_string = ${ "'''" ~ WHITESPACE* ~ triple_quoted_value ~ "'''" }
 
 var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }
-- 
2.43.0


From 582b13547e433bc7cd1d672f82b35826aa610f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 21/26] fix: accept words that start with true, false or null
 as values

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 0a370fd..6f555de 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -30,7 +30,7 @@ string_value = { triple_quoted_string | single_quoted_string }
 integer = @{ ASCII_DIGIT+ }
 decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* }
 number_value = { decimal | integer }
-boolean_value = @{ "true" | "false" | "null" }
+boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
-- 
2.43.0


From 39ecb429925fa418ea4a7bf3418ff6b813f14eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 22/26] fix: allow whitespace and comments between column type
 arguments

---
 src/dbml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index 6f555de..c4f8b15 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -71,7 +71,7 @@ enum_decl = { ^"Enum " ~ decl_ident ~ enum_block }
 // table block
 col_attribute = { ref_inline | attribute }
 col_settings = { "[" ~ (col_attribute ~ ("," ~ col_attribute)*)? ~ "]" }
-col_type_arg = { "(" ~ (value ~ ("," ~ value)*)? ~ ")" }
+col_type_arg = !{ "(" ~ (value ~ ("," ~ value)*)? ~ ")" }
 col_type_array = { "[" ~ integer? ~ "]" }
 col_type_unquoted = ${ var ~ col_type_arg? ~ col_type_array* }
 col_type_quoted = ${ "\"" ~ spaced_var ~ col_type_arg? ~ col_type_array* ~ "\"" ~ col_type_array* }
-- 
2.43.0


From 94bade9e1657e53ab99d4f5453895301f099b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 23/26] fix: accept any whitespace or a comment after a block
 keyword

---
 src/dbml.pest | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/dbml.pest b/src/dbml.pest
index c4f8b15..acffa64 100644
--- a/src/dbml.pest
+++ b/src/dbml.pest
@@ -34,6 +34,13 @@ boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }
 hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }
 value = { string_value | backquoted_quoted_string | boolean_value | number_value | hex_value }
 
+// keywords that must be separated from the following ident by whitespace or a comment
+project_keyword = _{ &(^"Project " | ^"Project\t" | ^"Project\r" | ^"Project\n" | ^"Project/") ~ ^"Project" }
+table_keyword = _{ &(^"Table " | ^"Table\t" | ^"Table\r" | ^"Table\n" | ^"Table/") ~ ^"Table" }
+alias_keyword = _{ &(^"as " | ^"as\t" | ^"as\r" | ^"as\n" | ^"as/") ~ ^"as" }
+table_group_keyword = _{ &(^"TableGroup " | ^"TableGroup\t" | ^"TableGroup\r" | ^"TableGroup\n" | ^"TableGroup/") ~ ^"TableGroup" }
+enum_keyword = _{ &(^"Enum " | ^"Enum\t" | ^"Enum\r" | ^"Enum\n" | ^"Enum/") ~ ^"Enum" }
+
 // top-level ident
 decl_ident = { ident ~ ("." ~ ident)? }
 
@@ -66,7 +73,7 @@ indexes_decl = { ^"Indexes" ~ indexes_block }
 enum_settings = { "[" ~ (attribute ~ ("," ~ attribute)*)? ~ "]" }
 enum_value = { ident ~ enum_settings? }
 enum_block = { "{" ~ enum_value* ~ "}" }
-enum_decl = { ^"Enum " ~ decl_ident ~ enum_block }
+enum_decl = { enum_keyword ~ decl_ident ~ enum_block }
 
 // table block
 col_attribute = { ref_inline | attribute }
@@ -78,15 +85,15 @@ col_type_quoted = ${ "\"" ~ spaced_var ~ col_type_arg? ~ col_type_array* ~ "\""
 col_type = ${ (ident ~ ".")? ~ (col_type_quoted | col_type_unquoted ) }
 table_col = { ident ~ col_type ~ col_settings? }
 table_block = { "{" ~ (table_col | note_decl | indexes_decl)* ~ "}" }
-table_alias = { ^"as " ~ ident }
-table_decl = { ^"Table " ~ decl_ident ~ table_alias? ~ block_settings?  ~ table_block }
+table_alias = { alias_keyword ~ ident }
+table_decl = { table_keyword ~ decl_ident ~ table_alias? ~ block_settings?  ~ table_block }
 
 // table group block
 table_group_block = { "{" ~ (note_decl | decl_ident)* ~ "}" }
-table_group_decl = { ^"TableGroup " ~ ident ~ block_settings? ~ table_group_block }
+table_group_decl = { table_group_keyword ~ ident ~ block_settings? ~ table_group_block }
 
 // project block
 project_block = { "{" ~ (note_decl | property)* ~ "}" }
-project_decl = { ^"Project " ~ ident ~ project_block }
+project_decl = { project_keyword ~ ident ~ project_block }
 
 schema = { SOI ~ (project_decl | table_decl | enum_decl | ref_decl | table_group_decl | note_decl)* ~ EOI }
-- 
2.43.0


From 93693a5c30a293e2c6144ee914c92bed6a233ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:54 +0000
Subject: [PATCH 24/26] fix: create errors over many lines in linear time

---
 src/analyzer/err.rs  |  7 +++++--
 src/parser/err.rs    |  4 ++--
 src/parser/helper.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 src/parser/mod.rs    |  1 +
 4 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/analyzer/err.rs b/src/analyzer/err.rs
index 521b040..6a0d3b7 100644
--- a/src/analyzer/err.rs
+++ b/src/analyzer/err.rs
@@ -11,7 +11,10 @@ use pest::error::{
 };
 use pest::Span;
 
-use crate::parser::Rule;
+use crate::parser::{
+  new_span_error,
+  Rule,
+};
 
 pub type AnalyzerResult<T> = Result<T, Error<Rule>>;
 
@@ -136,7 +139,7 @@ pub enum InvalidForeignKeyErr {
 pub(super) fn throw_err<T>(err: Err, span_range: &Range<usize>, input: &str) -> AnalyzerResult<T> {
   let span = Span::new(input, span_range.start, span_range.end).unwrap();
 
-  Err(Error::new_from_span(
+  Err(new_span_error(
     ErrorVariant::CustomError {
       message: err.to_string(),
     },
diff --git a/src/parser/err.rs b/src/parser/err.rs
index 3194ebd..926b524 100644
--- a/src/parser/err.rs
+++ b/src/parser/err.rs
@@ -11,7 +11,7 @@ use super::*;
 pub type ParserResult<T> = Result<T, Error<Rule>>;
 
 pub(super) fn throw_rules<T>(rules: &[Rule], pair: Pair<Rule>) -> ParserResult<T> {
-  Err(Error::new_from_span(
+  Err(new_span_error(
     ErrorVariant::ParsingError {
       positives: Vec::from(rules),
       negatives: vec![],
@@ -21,7 +21,7 @@ pub(super) fn throw_rules<T>(rules: &[Rule], pair: Pair<Rule>) -> ParserResult<T
 }
 
 pub(super) fn throw_msg<T>(msg: impl ToString, pair: Pair<Rule>) -> ParserResult<T> {
-  Err(Error::new_from_span(
+  Err(new_span_error(
     ErrorVariant::CustomError {
       message: msg.to_string(),
     },
diff --git a/src/parser/helper.rs b/src/parser/helper.rs
index 3aac808..8b525f2 100644
--- a/src/parser/helper.rs
+++ b/src/parser/helper.rs
@@ -1,8 +1,51 @@
 use core::ops::Range;
 
+use pest::error::{
+  Error,
+  ErrorVariant,
+  InputLocation,
+  LineColLocation,
+};
 use pest::Span;
 
+use super::Rule;
+
 /// Coverts span into range (usize).
 pub(super) fn s2r(span: Span) -> Range<usize> {
   span.start()..span.end()
 }
+
+/// Creates an error that points at the span.
+///
+/// Only the first and the last line of the span are shown, but `pest` visits every line of it and scans the input for
+/// each one. The lines in between are therefore left out while the error is created.
+pub(crate) fn new_span_error(variant: ErrorVariant<Rule>, span: Span) -> Error<Rule> {
+  let (input, start, end) = (span.get_input(), span.start(), span.end());
+  let bytes = input.as_bytes();
+  let line_at = |pos: usize| -> Range<usize> {
+    let line_start = bytes[..pos].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
+    let line_end = bytes[pos..].iter().position(|b| *b == b'\n').map_or(bytes.len(), |i| pos + i + 1);
+    line_start..line_end
+  };
+
+  let first = line_at(start);
+  let last = line_at(end.saturating_sub(1));
+  if last.start <= first.end {
+    return Error::new_from_span(variant, span);
+  }
+
+  let lines_before = input[..first.start].matches('\n').count();
+  let lines_between = input[first.end..last.start].matches('\n').count();
+  let shown_end = end - last.start + first.len();
+  let shown = [&input[first.clone()], &input[last]].concat();
+  let shown_span = Span::new(&shown, start - first.start, shown_end).unwrap();
+
+  let mut error = Error::new_from_span(variant, shown_span);
+  error.location = InputLocation::Span((start, end));
+  if let LineColLocation::Span((start_line, _), (end_line, _)) = &mut error.line_col {
+    *start_line += lines_before;
+    *end_line += lines_before + lines_between;
+  }
+
+  error
+}
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c4a3b2a..084d323 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -12,6 +12,7 @@ use err::*;
 use pest::iterators::Pair;
 use pest::Parser;
 
+pub(crate) use self::helper::new_span_error;
 use self::helper::*;
 use crate::ast::*;
 
-- 
2.43.0


From 1f47ee969216509f8f815da52b7ad679faf217a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:18 +0000
Subject: [PATCH 25/26] fix: an index on an expression is never the same as one
 on a column named like it

---
 src/analyzer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analyzer/mod.rs b/src/analyzer/mod.rs
index 8f128da..9bd2934 100644
--- a/src/analyzer/mod.rs
+++ b/src/analyzer/mod.rs
@@ -157,7 +157,8 @@ pub fn analyze(schema_block: &SchemaBlock) -> AnalyzerResult<AnalyzedIndexer> {
           .map(|id| {
             match id {
               IndexesColumnType::String(s) => s.to_string.clone(),
-              IndexesColumnType::Expr(expr) => expr.raw.clone(),
+              // no column name contains a double quote
+              IndexesColumnType::Expr(expr) => format!("\"{}", expr.raw),
             }
           })
           .collect();
-- 
2.43.0


From a47570966471884b3a3899ab0a982799fd1052fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:02 +0000
Subject: [PATCH 26/26] fix: a relation of columns with themselves contradicted
 other relations of these columns

---
 src/analyzer/indexer.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/analyzer/indexer.rs b/src/analyzer/indexer.rs
index 27fb0db..38492a6 100644
--- a/src/analyzer/indexer.rs
+++ b/src/analyzer/indexer.rs
@@ -503,14 +503,11 @@ impl IndexedRef {
 
     match (&self.rel, &other.rel) {
       (Relation::Many2Many, Relation::Many2Many) | (Relation::One2One, Relation::One2One) => {
-        [&self.lhs, &self.rhs].iter().all(|self_side| {
-          [&other.lhs, &other.rhs].iter().any(|other_side| {
-            let self_ident = indexer.resolve_ref_alias(self_side);
-            let other_ident = indexer.resolve_ref_alias(other_side);
+        let [self_lhs, self_rhs, other_lhs, other_rhs] =
+          [&self.lhs, &self.rhs, &other.lhs, &other.rhs].map(|ident| indexer.resolve_ref_alias(ident));
 
-            eq_ident(&self_ident, &other_ident)
-          })
-        })
+        eq_ident(&self_lhs, &other_lhs) && eq_ident(&self_rhs, &other_rhs)
+          || eq_ident(&self_lhs, &other_rhs) && eq_ident(&self_rhs, &other_lhs)
       }
       _ => {
         // TODO: add support for one-to-one relation validation
-- 
2.43.0

