From 6d73958acd6803e576be600a9b11eff107b1442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 01/63] fix: JSON reader no longer prints resource identifiers
 on standard output

---
 atelier-json/src/reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 1e4ed30..b9c5194 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -307,7 +307,6 @@ impl JsonReader {
             let mut hash: HashMap<Identifier, ShapeID> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    println!("{:?}: {:?}", obj_key, obj);
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
                     let _ = hash.insert(key, value);
-- 
2.43.0


From 52c44ab7614b9baa26b82194e4c8109663eb86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 02/63] fix: JSON reader names the key and value members of a
 map

---
 atelier-json/src/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index b9c5194..0b54ece 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -141,16 +141,16 @@ impl JsonReader {
                 Ok(ShapeKind::Unresolved)
             } else if s == SHAPE_LIST {
                 Ok(ShapeKind::List(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_SET {
                 Ok(ShapeKind::Set(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_MAP {
                 Ok(ShapeKind::Map(MapShape::from(
-                    self.member(outer.get(MEMBER_KEY))?,
-                    self.member(outer.get(MEMBER_VALUE))?,
+                    self.member(MEMBER_KEY, outer.get(MEMBER_KEY))?,
+                    self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
                 let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
@@ -368,11 +368,11 @@ impl JsonReader {
         .into())
     }
 
-    fn member(&self, member: Option<&Value>) -> ModelResult<MemberShape> {
+    fn member(&self, name: &str, member: Option<&Value>) -> ModelResult<MemberShape> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
-                    Identifier::new_unchecked(MEMBER_MEMBER),
+                    Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
                 if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-- 
2.43.0


From ced64f0d470db9d86ee6e5f07d9a26b31cdf7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 03/63] fix: JSON reader rejects integers that do not fit
 instead of wrapping them

---
 atelier-json/src/reader.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 0b54ece..28fa643 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -411,8 +411,6 @@ impl JsonReader {
                     Ok(NodeValue::from(v.as_f64().unwrap()))
                 } else if v.is_i64() {
                     Ok(NodeValue::from(v.as_i64().unwrap()))
-                } else if v.is_u64() {
-                    Ok(NodeValue::from(v.as_u64().unwrap() as i64))
                 } else {
                     Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
-- 
2.43.0


From 24ee2815ce6646f4e5bb3d6999abae2e31a03246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 04/63] fix: JSON reader reports metadata, shapes, members and
 traits that are not objects

---
 atelier-json/src/reader.rs | 40 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 28fa643..d3204b7 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -106,7 +106,7 @@ impl JsonReader {
 
     fn metadata(&self, json: Option<&Value>) -> ModelResult<ValueMap> {
         let mut metadata: ValueMap = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let _ = metadata.insert(k.clone(), self.value(v)?);
             }
@@ -116,13 +116,13 @@ impl JsonReader {
 
     fn shapes(&self, json: Option<&Value>) -> ModelResult<Vec<(NamespaceID, TopLevelShape)>> {
         let mut shapes: Vec<(NamespaceID, TopLevelShape)> = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let id = ShapeID::from_str(k)?;
                 let inner = self.shape(v)?;
                 let mut shape = TopLevelShape::new(id.clone(), inner);
 
-                if let Some(Value::Object(vs)) = v.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(v.get(ADD_SHAPE_KEY_TRAITS))? {
                     shape.append_traits(&self.traits(vs)?)?;
                 };
 
@@ -153,19 +153,17 @@ impl JsonReader {
                     self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
+                let members = match self.optional_object(outer.get(ADD_SHAPE_KEY_MEMBERS))? {
+                    Some(vs) => self.members(vs)?,
+                    None => Default::default(),
                 };
                 Ok(ShapeKind::Structure(StructureOrUnion::with_members(
                     members.as_slice(),
                 )))
             } else if s == SHAPE_UNION {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
+                let members = match self.optional_object(outer.get(ADD_SHAPE_KEY_MEMBERS))? {
+                    Some(vs) => self.members(vs)?,
+                    None => Default::default(),
                 };
                 Ok(ShapeKind::Union(StructureOrUnion::with_members(
                     members.as_slice(),
@@ -260,7 +258,7 @@ impl JsonReader {
                     .into());
                 };
                 let mut member = MemberShape::new(Identifier::from_str(k)?, target);
-                if let Some(Value::Object(traits)) = obj.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(traits) = self.optional_object(obj.get(ADD_SHAPE_KEY_TRAITS))? {
                     member.append_traits(&self.traits(traits)?)?;
                 }
                 members.push(member);
@@ -375,7 +373,7 @@ impl JsonReader {
                     Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
-                if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(ms.get(ADD_SHAPE_KEY_TRAITS))? {
                     member_shape.append_traits(&self.traits(vs)?)?;
                 };
                 return Ok(member_shape);
@@ -389,6 +387,22 @@ impl JsonReader {
         .into())
     }
 
+    fn optional_object<'v>(
+        &self,
+        json: Option<&'v Value>,
+    ) -> ModelResult<Option<&'v Map<String, Value>>> {
+        match json {
+            None => Ok(None),
+            Some(Value::Object(vs)) => Ok(Some(vs)),
+            Some(other) => Err(ErrorKind::Deserialization(
+                REPRESENTATION_NAME.to_string(),
+                "JsonReader::optional_object".to_string(),
+                Some(format!("{:#?}", other)),
+            )
+            .into()),
+        }
+    }
+
     fn string_value(&self, value: &Value) -> ModelResult<String> {
         if let Value::String(value) = value {
             Ok(value.clone())
-- 
2.43.0


From 21d1f823447c51c9949f27b1437826a429935031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 05/63] fix: JSON reader reports an empty service version
 instead of panicking

---
 atelier-json/src/reader.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index d3204b7..342798b 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -169,10 +169,9 @@ impl JsonReader {
                     members.as_slice(),
                 )))
             } else if s == SHAPE_SERVICE {
-                let version = if let Some(Value::String(value)) = outer.get(MEMBER_VERSION) {
-                    value.clone()
-                } else {
-                    return Err(ErrorKind::InvalidVersionNumber(None).into());
+                let version = match outer.get(MEMBER_VERSION) {
+                    Some(Value::String(value)) if !value.is_empty() => value.clone(),
+                    _ => return Err(ErrorKind::InvalidVersionNumber(None).into()),
                 };
                 let mut service = Service::new(&version);
                 service.append_operations(&self.target_list(outer.get(MEMBER_OPERATIONS))?);
-- 
2.43.0


From 46170ab94ec474e32e4faec43393ca47ba12f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 06/63] fix: identifiers that compare equal hash and order
 equally

---
 atelier-core/src/model/identity.rs | 47 ++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index ccd0764..cd3f774 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -3,8 +3,9 @@ use crate::syntax::{
     SHAPE_ID_ABSOLUTE_SEPARATOR, SHAPE_ID_MEMBER_SEPARATOR, SHAPE_ID_NAMESPACE_SEPARATOR,
 };
 use regex::Regex;
+use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -18,8 +19,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct Identifier(String);
 
 ///
@@ -30,9 +30,8 @@ pub struct Identifier(String);
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct NamespaceID(String);
 
 ///
@@ -132,6 +131,25 @@ impl PartialEq for Identifier {
     }
 }
 
+// Hashing and ordering have to agree with equality, which ignores case.
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Identifier {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl Identifier {
     /// Create a new instance **without** checking that the provided string is a legal identifier.
     pub fn new_unchecked(s: &str) -> Self {
@@ -178,6 +196,25 @@ impl PartialEq for NamespaceID {
     }
 }
 
+// Hashing and ordering have to agree with equality, which ignores case.
+impl Hash for NamespaceID {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for NamespaceID {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for NamespaceID {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl NamespaceID {
     /// Create a new instance **without** checking that the provided string is a legal namespace.
     pub fn new_unchecked(s: &str) -> Self {
-- 
2.43.0


From a4d289e7ba9493c4e9c4ce6b5b371f15157a2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 07/63] fix: has_shape, has_metadata_value, has_member and
 has_identifier were inverted

---
 atelier-core/src/model/mod.rs              | 4 ++--
 atelier-core/src/model/shapes/aggregate.rs | 2 +-
 atelier-core/src/model/shapes/service.rs   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index de723e8..3fa2bfa 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -125,7 +125,7 @@ impl Model {
 
     /// Returns `true` if this model's **metadata** collection has a shape with the provided key`, else `false`.
     pub fn has_metadata_value(&self, key: &str) -> bool {
-        !self.metadata.contains_key(key)
+        self.metadata.contains_key(key)
     }
 
     /// Returns the value in this model's **metadata** collection with the provide key.
@@ -189,7 +189,7 @@ impl Model {
 
     /// Returns `true` if this model's **shapes** collection has a shape with the provided `ShapeID`, else `false`.
     pub fn has_shape(&self, shape_id: &ShapeID) -> bool {
-        !self.shapes.contains_key(shape_id)
+        self.shapes.contains_key(shape_id)
     }
 
     /// Returns the shape in this model's **shapes** collection with the provided `ShapeID`.
diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index e13a341..512a3ef 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -200,7 +200,7 @@ impl StructureOrUnion {
 
     /// Returns `true` if this structure or union has a member with the given name, else `false`.
     pub fn has_member(&self, member_name: &Identifier) -> bool {
-        !self.members.contains_key(member_name)
+        self.members.contains_key(member_name)
     }
 
     /// Returns the member in the structure or union with the given name, else `None`.
diff --git a/atelier-core/src/model/shapes/service.rs b/atelier-core/src/model/shapes/service.rs
index 9c5827e..1f789e9 100644
--- a/atelier-core/src/model/shapes/service.rs
+++ b/atelier-core/src/model/shapes/service.rs
@@ -171,7 +171,7 @@ impl Resource {
 
     /// Returns `true` if this resource has an identifier with the provided name, else `false`.
     pub fn has_identifier(&self, name: &Identifier) -> bool {
-        !self.identifiers.contains_key(name)
+        self.identifiers.contains_key(name)
     }
 
     /// Returns the identifier's value, which should always be `Value::String`, representing the
-- 
2.43.0


From bf1dcaae6448799113c74b680397fec7b857da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 08/63] fix: merging structures with different members reports
 a conflict instead of panicking

---
 atelier-core/src/model/shapes/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 714bea5..a656ace 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -359,19 +359,19 @@ impl NonTraitEq for TopLevelShape {
                     l.key.equal_without_traits(&r.key) && l.value.equal_without_traits(&r.value)
                 }
                 (ShapeKind::Structure(l), ShapeKind::Structure(r)) => {
-                    l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                    l.members.len() == r.members.len()
+                        && l.members.iter().all(|(k, l_member)| {
+                            r.member(k).map_or(false, |r_member| {
+                                l_member.equal_without_traits(r_member)
+                            })
                         })
                 }
                 (ShapeKind::Union(l), ShapeKind::Union(r)) => {
-                    l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                    l.members.len() == r.members.len()
+                        && l.members.iter().all(|(k, l_member)| {
+                            r.member(k).map_or(false, |r_member| {
+                                l_member.equal_without_traits(r_member)
+                            })
                         })
                 }
                 (ShapeKind::Service(l), ShapeKind::Service(r)) => l == r,
-- 
2.43.0


From 1449ff9b501e868581e2c31c4205551b7bedebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 09/63] fix: building a model and reading RDF report rejected
 metadata and shapes

---
 atelier-core/src/builder/mod.rs | 6 +++---
 atelier-rdf/src/reader.rs       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 58f9ee1..a35f683 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -86,14 +86,14 @@ impl TryFrom<&mut ModelBuilder> for Model {
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
         let mut model = Model::new(builder.smithy_version);
         for (k, v) in builder.metadata.iter() {
-            let _ = model.add_metadata(k.clone(), v.clone());
+            let _ = model.add_metadata(k.clone(), v.clone())?;
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
         for shape in builder.shapes.values() {
-            let _ = model.add_shape(builder.make_shape(&shape, &mut unresolved)?);
+            model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
-            let _ = model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved));
+            model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
         Ok(model)
     }
diff --git a/atelier-rdf/src/reader.rs b/atelier-rdf/src/reader.rs
index 5376636..725eed4 100644
--- a/atelier-rdf/src/reader.rs
+++ b/atelier-rdf/src/reader.rs
@@ -62,7 +62,7 @@ pub fn rdf_to_model(graph: &GraphRef, model_iri: Option<IRIRef>) -> ModelResult<
 
     for shape in graph.borrow().objects_for(&model_subject, smithy::shape()) {
         let top_level_shape = rdf_to_shape(graph, shape)?;
-        let _ = model.add_shape(top_level_shape);
+        model.add_shape(top_level_shape)?;
     }
     Ok(model)
 }
-- 
2.43.0


From ae5ac59bf25fcb0ba07f18a86fb4d1891a7968df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 10/63] fix: fail_fast stops after the first validator or
 linter that reports an error

---
 atelier-core/src/action/lint/mod.rs     | 9 ++++-----
 atelier-core/src/action/validate/mod.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index d36518d..2289775 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -98,12 +98,11 @@ pub fn run_linter_actions(
     for linter in linters.iter_mut() {
         linter.check(model)?;
         let new_issues = linter.issues_mut();
+        let has_errors = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && has_errors {
             break;
         }
     }
diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 57e1737..99cf1a5 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -45,12 +45,11 @@ pub fn run_validation_actions(
     for validator in validators.iter_mut() {
         validator.validate(model)?;
         let new_issues = validator.issues_mut();
+        let has_errors = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && has_errors {
             break;
         }
     }
-- 
2.43.0


From 05ca537701d64736af11ee6f3ef337aee0c30d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 11/63] fix: linters also check the members of lists, sets and
 maps

---
 atelier-core/src/action/lint/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index 2289775..8a73e27 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -130,6 +130,16 @@ impl Linter for NamingConventions {
             match shape.body() {
                 // TODO: term used in names
                 // (https://github.com/johnstonskj/rust-atelier/issues/7)
+                ShapeKind::List(body) | ShapeKind::Set(body) => {
+                    self.check_shape_name(body.member().target(), true);
+                    self.check_applied_trait_names(body.member().traits());
+                }
+                ShapeKind::Map(body) => {
+                    for member in &[body.key(), body.value()] {
+                        self.check_shape_name(member.target(), true);
+                        self.check_applied_trait_names(member.traits());
+                    }
+                }
                 ShapeKind::Structure(body) | ShapeKind::Union(body) => {
                     for member in body.members() {
                         self.check_member_name(member.id(), shape.id());
@@ -212,6 +222,20 @@ impl Linter for UnwelcomeTerms {
             }
 
             match shape.body() {
+                ShapeKind::List(body) | ShapeKind::Set(body) => {
+                    self.check_shape_id(body.member().target());
+                    for id in body.member().traits().keys() {
+                        self.check_shape_id(id);
+                    }
+                }
+                ShapeKind::Map(body) => {
+                    for member in &[body.key(), body.value()] {
+                        self.check_shape_id(member.target());
+                        for id in member.traits().keys() {
+                            self.check_shape_id(id);
+                        }
+                    }
+                }
                 ShapeKind::Structure(body) | ShapeKind::Union(body) => {
                     self.check_shape_id(shape.id());
                     for member in body.members() {
-- 
2.43.0


From 33b661c27294121dc2bdd93e1f589e54612234ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 12/63] fix: a set made with the model builder is a set, not a
 list

---
 atelier-core/src/builder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index a35f683..8be472d 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -423,7 +423,7 @@ impl ModelBuilder {
         }
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::List(ListOrSet::from(MemberShape::with_traits(
+            ShapeKind::Set(ListOrSet::from(MemberShape::with_traits(
                 builder.member.member_name.clone(),
                 target_id,
                 self.make_traits(&builder.member.applied_traits, references)?,
-- 
2.43.0


From f17247dc67c6660411f1911bba171bcfe94b3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 13/63] fix: a trait applied twice through the model builder is
 merged, not replaced

---
 atelier-core/src/builder/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 8be472d..96aea23 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,8 +19,8 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
-    TopLevelShape,
+    merge_traits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
+    StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
 use crate::model::{Identifier, Model, NamespaceID, ShapeID};
@@ -31,7 +31,6 @@ use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::iter::FromIterator;
 use std::str::FromStr;
 pub use values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
 
@@ -711,10 +710,15 @@ impl ModelBuilder {
                 Ok((shape_id, builder.value))
             })
             .collect();
-        match pairs {
-            Ok(pairs) => Ok(HashMap::from_iter(pairs)),
-            Err(err) => Err(err),
-        }
+        let mut traits: HashMap<ShapeID, Option<Value>> = Default::default();
+        for (shape_id, value) in pairs? {
+            let value = match traits.get(&shape_id) {
+                Some(existing) => merge_traits(&shape_id, existing, &value)?,
+                None => value,
+            };
+            let _ = traits.insert(shape_id, value);
+        }
+        Ok(traits)
     }
 }
 
-- 
2.43.0


From 4d4a0bbe3b4b0159816a7622ed0535cde41ca795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 14/63] fix: a use or apply of a shape the model builder
 already knows keeps its definition and traits

---
 atelier-core/src/builder/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 96aea23..41c6d97 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -191,6 +191,13 @@ impl ModelBuilder {
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
     pub fn reference(&mut self, builder: ReferenceBuilder) -> &mut Self {
+        if let Some(existing) = self.shapes.get_mut(&builder.shape_id) {
+            // keep what is already known of this shape, a reference only adds traits to it.
+            for a_trait in builder.applied_traits {
+                apply_to_shape(existing, a_trait);
+            }
+            return self;
+        }
         let shape_id = &builder.shape_id;
         self.insert(shape_id.clone(), builder.into())
     }
@@ -212,6 +219,13 @@ impl ModelBuilder {
     // --------------------------------------------------------------------------------------------
 
     fn insert(&mut self, id: ShapeName, shape: TopLevelShapeBuilder) -> &mut Self {
+        let mut shape = shape;
+        if let Some(TopLevelShapeBuilder::Reference(reference)) = self.shapes.get(&id) {
+            // traits applied before the shape was defined.
+            for a_trait in reference.applied_traits.iter().cloned() {
+                apply_to_shape(&mut shape, a_trait);
+            }
+        }
         let previous = self.shapes.insert(id, shape);
         if previous.is_some() {
             info!("Interestingly the shape seems to have been added more than once?",);
-- 
2.43.0


From e5ed301985e9553cca066c4d0159829ae1ebe65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 15/63] fix: apply finds shapes and members the model builder
 knows by their local name

---
 atelier-core/src/builder/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 41c6d97..d3ec21a 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -331,13 +331,13 @@ impl ModelBuilder {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
                 if let Some(member_name) = shape_id.member_name() {
-                    let parent_shape = ShapeName::from(shape_id.shape_only());
+                    let parent_shape = self.known_name(&shape_id.shape_only());
                     if let Some(shape) = self.shapes.get_mut(&parent_shape) {
                         apply_to_member(shape, member_name, a_trait);
                     } else {
                         panic!("No shape named {} for member {}", parent_shape, member_name);
                     }
-                } else if let Some(shape) = self.shapes.get_mut(&shape_name) {
+                } else if let Some(shape) = self.shapes.get_mut(&self.known_name(shape_id)) {
                     apply_to_shape(shape, a_trait);
                 } else {
                     let mut builder = ReferenceBuilder::from(shape_id.clone());
@@ -360,6 +360,20 @@ impl ModelBuilder {
         }
     }
 
+    // A shape in the default namespace may have been defined by its local name only.
+    fn known_name(&self, shape_id: &ShapeID) -> ShapeName {
+        let qualified = ShapeName::from(shape_id.clone());
+        let local = ShapeName::from(shape_id.shape_name().clone());
+        if !self.shapes.contains_key(&qualified)
+            && shape_id.namespace() == &self.default_namespace
+            && self.shapes.contains_key(&local)
+        {
+            local
+        } else {
+            qualified
+        }
+    }
+
     fn make_shape(
         &self,
         builder: &TopLevelShapeBuilder,
-- 
2.43.0


From 6b83dfab78d3727c6f6dae31d3db0835c752aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 16/63] fix: quoted metadata and control keys are read without
 their quotes

---
 atelier-smithy/src/parser/smithy.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 232a20a..64970a9 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -106,7 +106,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::control_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted(key), value);
     }
     Ok(map)
 }
@@ -121,7 +121,7 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted(key), value);
     }
     Ok(map)
 }
@@ -852,6 +852,14 @@ fn parse_node_object_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, Nod
     }
 }
 
+// A statement key may be quoted, the quotes are not part of the key.
+fn unquoted(key: String) -> String {
+    match key.strip_prefix('"').and_then(|key| key.strip_suffix('"')) {
+        Some(key) => key.to_string(),
+        None => key,
+    }
+}
+
 fn from_pest_error(e: PestError<Rule>) -> Error {
     Error::with_chain(
         e,
-- 
2.43.0


From e2e6d5865649c78acdbffa87153a4c1788382b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 17/63] fix: text, comments and documentation may use every
 Unicode character

---
 atelier-smithy/src/smithy.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2c844c6..6891efd 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -11,13 +11,13 @@ br =
     _{ ws ~ EOI? }
 
 line_comment =
-    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFF}')* ~ NEWLINE }
+    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ NEWLINE }
 
 documentation_comment =
     _{ ws ~ "///" ~ documentation_text ~ NEWLINE }
 
 documentation_text =
-    { ("\t" | '\u{20}'..'\u{10FFF}')* }
+    { ("\t" | '\u{20}'..'\u{10FFFF}')* }
 
 control_section =
     { control_statement* }
@@ -122,7 +122,7 @@ quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
 
 quoted_chars =
-    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 escaped_char =
     {escape ~ (escape | "'" | DQUOTE | "b" | "f" | "n" | "r" | "t" | "/" | unicode_escape) }
@@ -131,7 +131,7 @@ unicode_escape =
     { "u" ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT }
 
 preserved_double =
-    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}') }
+    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}') }
 
 escape =
     { "\\" }
@@ -143,7 +143,7 @@ text_block =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
 
 block_quoted_chars =
-    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 DQUOTE =
     _{ "\"" }
-- 
2.43.0


From 0abe495b0e5940fa32da5fd93825213827fecfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 18/63] fix: a number with an exponent and no fraction is read
 as a float

---
 atelier-smithy/src/parser/smithy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 64970a9..4fabe25 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -755,7 +755,7 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_array => parse_node_array(inner)?,
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
-            if inner.as_str().contains('.') {
+            if inner.as_str().contains(|c| c == '.' || c == 'e' || c == 'E') {
                 NodeValue::Number(Number::Float(
                     inner.as_str().parse().chain_err(|| "number format error")?,
                 ))
-- 
2.43.0


From d225324b2e445afb99e572da43f0e5c97f42ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:56 +0000
Subject: [PATCH 19/63] fix: traits on the key and value of a map are read

---
 atelier-smithy/src/parser/smithy.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 4fabe25..ff690e7 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -428,13 +428,13 @@ fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder>
 fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
     entry!("parse_map_statement", input_pair);
     let (id, members) = parse_membered_statement(input_pair)?;
-    let mut key: Option<String> = None;
-    let mut value: Option<String> = None;
+    let mut key: Option<MemberBuilder> = None;
+    let mut value: Option<MemberBuilder> = None;
     for member in members {
         if member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
-            key = Some(member.target().to_string())
+            key = Some(member)
         } else if member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
-            value = Some(member.target().to_string())
+            value = Some(member)
         } else {
             return ParserError::new("parse_map_statement")
                 .unreachable_rule()
@@ -443,7 +443,13 @@ fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
         }
     }
     match (key, value) {
-        (Some(k), Some(v)) => Ok(MapBuilder::new(&id, &k, &v)),
+        (Some(key), Some(value)) => {
+            let mut map =
+                MapBuilder::new(&id, &key.target().to_string(), &value.target().to_string());
+            map.key(key);
+            map.value(value);
+            Ok(map)
+        }
         _ => ParserError::unreachable("parse_map_statement").into(),
     }
 }
-- 
2.43.0


From 3ca7b99fad876d2a5f2a7aa0a68ba579f22f44c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:34 +0000
Subject: [PATCH 20/63] fix: wrong property values of services, operations and
 resources are errors, not panics

---
 atelier-smithy/src/parser/smithy.rs | 69 ++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index ff690e7..e6c029b 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -2,6 +2,7 @@
 
 use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
+use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
     ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
@@ -544,17 +545,23 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
     entry!("parse_service_statement", input_pair);
     let (id, object) = parse_id_and_object(input_pair)?;
     if let NodeValue::Object(object) = object {
-        let mut service = ServiceBuilder::new(
-            &id,
-            object.get(MEMBER_VERSION).unwrap().as_string().unwrap(),
-        );
+        let version = match object.get(MEMBER_VERSION).map(NodeValue::as_string) {
+            Some(Some(version)) if !version.is_empty() => version,
+            _ => {
+                return ParserError::new("parse_service_statement")
+                    .expecting(MEMBER_VERSION)
+                    .into()
+            }
+        };
+        let mut service = ServiceBuilder::new(&id, version);
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.operation(&value.as_string().unwrap());
+                            let _ =
+                                service.operation(&shape_name("parse_service_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -565,7 +572,8 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.resource(&value.as_string().unwrap());
+                            let _ =
+                                service.resource(&shape_name("parse_service_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -596,15 +604,16 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_INPUT => {
-                    let _ = operation.input(&value.as_string().unwrap());
+                    let _ = operation.input(&shape_name("parse_operation_statement", &value)?);
                 }
                 MEMBER_OUTPUT => {
-                    let _ = operation.output(&value.as_string().unwrap());
+                    let _ = operation.output(&shape_name("parse_operation_statement", &value)?);
                 }
                 MEMBER_ERRORS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = operation.error(&value.as_string().unwrap());
+                            let _ =
+                                operation.error(&shape_name("parse_operation_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_operation_statement")
@@ -637,7 +646,8 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            let _ = resource.identifier(&id, &target.as_string().unwrap());
+                            let _ = resource
+                                .identifier(&id, &shape_name("parse_resource_statement", &target)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -646,27 +656,28 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                     }
                 }
                 MEMBER_CREATE => {
-                    let _ = resource.create(&value.as_string().unwrap());
+                    let _ = resource.create(&shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_PUT => {
-                    let _ = resource.put(&value.as_string().unwrap());
+                    let _ = resource.put(&shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_READ => {
-                    let _ = resource.read(&value.as_string().unwrap());
+                    let _ = resource.read(&shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_UPDATE => {
-                    let _ = resource.update(&value.as_string().unwrap());
+                    let _ = resource.update(&shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_DELETE => {
-                    let _ = resource.delete(&value.as_string().unwrap());
+                    let _ = resource.delete(&shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_LIST => {
-                    let _ = resource.list(&value.as_string().unwrap());
+                    let _ = resource.list(&shape_name("parse_resource_statement", &value)?);
                 }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.operation(&value.as_string().unwrap());
+                            let _ = resource
+                                .operation(&shape_name("parse_resource_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -677,7 +688,10 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_COLLECTION_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.collection_operation(&value.as_string().unwrap());
+                            let _ = resource.collection_operation(&shape_name(
+                                "parse_resource_statement",
+                                &value,
+                            )?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -688,7 +702,8 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.resource(&value.as_string().unwrap());
+                            let _ =
+                                resource.resource(&shape_name("parse_resource_statement", &value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -711,6 +726,17 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
     }
 }
 
+// The name of a shape held by a node value, which may also hold anything else.
+fn shape_name(fn_name: &str, value: &NodeValue) -> ModelResult<String> {
+    match value.as_string() {
+        Some(name) => Ok(ShapeName::from_str(name)?.to_string()),
+        None => ParserError::new(fn_name)
+            .expecting("shape_id")
+            .debug_context(value)
+            .into(),
+    }
+}
+
 fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeValue)> {
     entry!("parse_id_and_object", input_pair);
     let mut id: Option<String> = None;
@@ -761,7 +787,10 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_array => parse_node_array(inner)?,
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
-            if inner.as_str().contains(|c| c == '.' || c == 'e' || c == 'E') {
+            if inner
+                .as_str()
+                .contains(|c| c == '.' || c == 'e' || c == 'E')
+            {
                 NodeValue::Number(Number::Float(
                     inner.as_str().parse().chain_err(|| "number format error")?,
                 ))
-- 
2.43.0


From dfca2224f0df5fdf21d183c41bd03b4a7429d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:51 +0000
Subject: [PATCH 21/63] fix: the Smithy writer writes the traits of list, set
 and map members

---
 atelier-smithy/src/writer.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index ba59844..affc886 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -124,17 +124,21 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
+                    self.write_member_traits(w, list.member(), "    ")?;
                     writeln!(w, "    {}: {}", MEMBER_MEMBER, list.member().target())?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
+                    self.write_member_traits(w, set.member(), "    ")?;
                     writeln!(w, "    {}: {}", MEMBER_MEMBER, set.member().target())?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
+                    self.write_member_traits(w, map.key(), "    ")?;
                     writeln!(w, "    {}: {}", MEMBER_KEY, map.key().target().shape_name())?;
+                    self.write_member_traits(w, map.value(), "    ")?;
                     writeln!(
                         w,
                         "    {}: {}",
@@ -364,9 +368,7 @@ impl SmithyWriter {
         member: &MemberShape,
         prefix: &str,
     ) -> Result<()> {
-        for (id, value) in member.traits() {
-            self.write_trait(w, id, value, prefix)?;
-        }
+        self.write_member_traits(w, member, prefix)?;
         writeln!(
             w,
             "{}{}: {}",
@@ -376,4 +378,16 @@ impl SmithyWriter {
         )?;
         Ok(())
     }
+
+    fn write_member_traits(
+        &mut self,
+        w: &mut impl Write,
+        member: &MemberShape,
+        prefix: &str,
+    ) -> Result<()> {
+        for (id, value) in member.traits() {
+            self.write_trait(w, id, value, prefix)?;
+        }
+        Ok(())
+    }
 }
-- 
2.43.0


From 47d9dcd4705e06a2035ce7cdf661f389ee05c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 22/63] fix: the Smithy writer writes null, and floats as
 floats

---
 atelier-smithy/src/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index affc886..e2af8ba 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
-use atelier_core::model::values::Value;
+use atelier_core::model::values::{Number, Value};
 use atelier_core::model::{HasIdentity, Model, NamespaceID, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
@@ -342,10 +342,12 @@ impl SmithyWriter {
                     write!(w, "}}")?;
                 }
             }
+            // a float keeps its fraction, without it the number reads as an integer.
+            Value::Number(Number::Float(v)) => write!(w, "{:?}", v)?,
             Value::Number(v) => write!(w, "{}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
             Value::String(v) => write!(w, "{:?}", v)?,
-            Value::None => {}
+            Value::None => write!(w, "null")?,
         }
         Ok(())
     }
-- 
2.43.0


From 07e1f977c34f88ef2ee5a359befc619a458c43e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 23/63] fix: the Smithy writer writes object metadata in
 braces, and quotes object keys that need it

---
 atelier-smithy/src/writer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index e2af8ba..a1882a1 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -1,10 +1,11 @@
 use std::io::Write;
+use std::str::FromStr;
 
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
 use atelier_core::model::values::{Number, Value};
-use atelier_core::model::{HasIdentity, Model, NamespaceID, ShapeID};
+use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -77,7 +78,7 @@ impl SmithyWriter {
         if model.has_metadata() {
             for (key, value) in model.metadata() {
                 write!(w, "{} \"{}\" = ", STATEMENT_METADATA, key)?;
-                self.write_value(w, value, true)?;
+                self.write_value(w, value, false)?;
                 writeln!(w)?;
             }
             writeln!(w)?;
@@ -332,7 +333,11 @@ impl SmithyWriter {
                 }
                 let last = if vs.is_empty() { 0 } else { vs.len() - 1 };
                 for (i, (k, v)) in vs.iter().enumerate() {
-                    write!(w, "{}: ", k)?;
+                    if Identifier::from_str(k).is_ok() {
+                        write!(w, "{}: ", k)?;
+                    } else {
+                        write!(w, "{:?}: ", k)?;
+                    }
                     self.write_value(w, v, false)?;
                     if i < last {
                         write!(w, ", ")?;
-- 
2.43.0


From c7549c5427f88a119823717cef0c5910ed8eb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:12 +0000
Subject: [PATCH 24/63] fix: the Smithy writer names shapes of other namespaces
 in full

---
 atelier-smithy/src/writer.rs | 59 +++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index a1882a1..541ce57 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -138,13 +138,18 @@ impl SmithyWriter {
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
                     self.write_member_traits(w, map.key(), "    ")?;
-                    writeln!(w, "    {}: {}", MEMBER_KEY, map.key().target().shape_name())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_KEY,
+                        self.reference(map.key().target())
+                    )?;
                     self.write_member_traits(w, map.value(), "    ")?;
                     writeln!(
                         w,
                         "    {}: {}",
                         MEMBER_VALUE,
-                        map.value().target().shape_name()
+                        self.reference(map.value().target())
                     )?;
                     writeln!(w, "}}")?;
                 }
@@ -168,7 +173,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             service
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.reference(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -180,7 +185,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             service
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.reference(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -190,10 +195,10 @@ impl SmithyWriter {
                 ShapeKind::Operation(operation) => {
                     writeln!(w, "{} {} {{", SHAPE_OPERATION, shape.id().shape_name())?;
                     if let Some(id) = operation.input() {
-                        writeln!(w, "    {}: {}", MEMBER_INPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_INPUT, self.reference(id))?;
                     }
                     if let Some(id) = operation.output() {
-                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, self.reference(id))?;
                     }
                     if operation.has_errors() {
                         writeln!(
@@ -202,7 +207,7 @@ impl SmithyWriter {
                             MEMBER_ERRORS,
                             operation
                                 .errors()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.reference(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -214,27 +219,27 @@ impl SmithyWriter {
                     if resource.has_identifiers() {
                         writeln!(w, "    {}: {{", MEMBER_IDENTIFIERS)?;
                         for (id, target) in resource.identifiers() {
-                            writeln!(w, "        {}: {}", id, target.shape_name())?;
+                            writeln!(w, "        {}: {}", id, self.reference(target))?;
                         }
                         writeln!(w, "    }}")?;
                     }
                     if let Some(id) = resource.create() {
-                        writeln!(w, "    {}: {}", MEMBER_CREATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_CREATE, self.reference(id))?;
                     }
                     if let Some(id) = resource.put() {
-                        writeln!(w, "    {}: {}", MEMBER_PUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_PUT, self.reference(id))?;
                     }
                     if let Some(id) = resource.read() {
-                        writeln!(w, "    {}: {}", MEMBER_READ, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_READ, self.reference(id))?;
                     }
                     if let Some(id) = resource.update() {
-                        writeln!(w, "    {}: {}", MEMBER_UPDATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_UPDATE, self.reference(id))?;
                     }
                     if let Some(id) = resource.delete() {
-                        writeln!(w, "    {}: {}", MEMBER_DELETE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_DELETE, self.reference(id))?;
                     }
                     if let Some(id) = resource.list() {
-                        writeln!(w, "    {}: {}", MEMBER_LIST, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_LIST, self.reference(id))?;
                     }
                     if resource.has_operations() {
                         writeln!(
@@ -243,7 +248,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             resource
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.reference(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -255,7 +260,7 @@ impl SmithyWriter {
                             MEMBER_COLLECTION_OPERATIONS,
                             resource
                                 .collection_operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.reference(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -267,7 +272,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             resource
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.reference(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -288,6 +293,16 @@ impl SmithyWriter {
         Ok(())
     }
 
+    // Only the shapes of this namespace and of the prelude can be named without a namespace.
+    fn reference(&self, id: &ShapeID) -> String {
+        let namespace = id.namespace();
+        if *namespace == self.namespace || *namespace == self.prelude_namespace {
+            id.shape_name().to_string()
+        } else {
+            id.to_string()
+        }
+    }
+
     fn write_trait(
         &mut self,
         w: &mut impl Write,
@@ -295,13 +310,7 @@ impl SmithyWriter {
         value: &Option<Value>,
         prefix: &str,
     ) -> Result<()> {
-        let trait_namespace = id.namespace();
-        let id = if *trait_namespace == self.namespace || *trait_namespace == self.prelude_namespace
-        {
-            id.shape_name().to_string()
-        } else {
-            id.to_string()
-        };
+        let id = self.reference(id);
         write!(w, "{}{}{}", prefix, TRAIT_PREFIX, id)?;
         match value {
             None => writeln!(w)?,
@@ -381,7 +390,7 @@ impl SmithyWriter {
             "{}{}: {}",
             prefix,
             member.id(),
-            member.target().shape_name()
+            self.reference(member.target())
         )?;
         Ok(())
     }
-- 
2.43.0


From 24e635659252e88eec1dcbe321e1ee6367bae63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 25/63] fix: the Smithy writer writes the renames of a service

---
 atelier-smithy/src/writer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 541ce57..ca83341 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -9,9 +9,9 @@ use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
-    SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
-    SHAPE_STRUCTURE, SHAPE_UNION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE,
+    MEMBER_VERSION, SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE,
+    SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
 };
 
 use crate::syntax::{
@@ -190,6 +190,13 @@ impl SmithyWriter {
                                 .join(", ")
                         )?;
                     }
+                    if service.has_renames() {
+                        writeln!(w, "    {}: {{", MEMBER_RENAME)?;
+                        for (id, name) in service.renames() {
+                            writeln!(w, "        \"{}\": \"{}\"", id, name)?;
+                        }
+                        writeln!(w, "    }}")?;
+                    }
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Operation(operation) => {
-- 
2.43.0


From a8b5872eaf9b2f396cb03eaa01a1302980ac563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:31 +0000
Subject: [PATCH 26/63] fix: the Smithy writer writes traits applied to shapes
 of other namespaces

---
 atelier-smithy/src/writer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index ca83341..9705061 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -110,10 +110,9 @@ impl SmithyWriter {
 
     fn write_shape_statements(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         let from_namespace = self.namespace.clone();
-        for shape in model
-            .shapes()
-            .filter(|shape| shape.id().namespace() == &from_namespace)
-        {
+        for shape in model.shapes().filter(|shape| {
+            shape.id().namespace() == &from_namespace || shape.body().is_unresolved()
+        }) {
             if !shape.body().is_unresolved() {
                 for (id, value) in shape.traits() {
                     self.write_trait(w, id, value, "")?;
-- 
2.43.0


From 2123adc167433bec1b8e7df1f6f582530e5ab260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 27/63] fix: the Smithy parser reads apply statements

---
 atelier-core/src/builder/mod.rs     | 43 ++++++++++++++++++-----------
 atelier-smithy/src/parser/smithy.rs | 31 ++++++++++-----------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index d3ec21a..1c16047 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -185,8 +185,21 @@ impl ModelBuilder {
     /// a new reference builder is created and the trait applied to it. This is similar to the
     /// way the `apply` statement works in the Smithy IDL.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
-        let shape_name = ShapeName::from_str(shape).unwrap();
-        self.apply_to(&shape_name, a_trait)
+        self.try_apply(shape, a_trait).unwrap()
+    }
+
+    /// Applies a trait to the shape, or member, named `shape` as `apply` does; an error is returned
+    /// if this is not the name of a shape, or of a member of a shape in the model.
+    pub fn try_apply(&mut self, shape: &str, a_trait: TraitBuilder) -> Result<&mut Self, Error> {
+        let shape_name = match shape.split_once('$') {
+            Some((local, member)) if !local.contains('#') => {
+                let (shape_id, _) = self.resolve_shape_name(&ShapeName::from_str(local)?, false)?;
+                shape_id.make_member(Identifier::from_str(member)?).into()
+            }
+            _ => ShapeName::from_str(shape)?,
+        };
+        self.apply_to(&shape_name, a_trait)?;
+        Ok(self)
     }
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
@@ -327,15 +340,17 @@ impl ModelBuilder {
         }
     }
 
-    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
+    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> Result<(), Error> {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
                 if let Some(member_name) = shape_id.member_name() {
                     let parent_shape = self.known_name(&shape_id.shape_only());
-                    if let Some(shape) = self.shapes.get_mut(&parent_shape) {
-                        apply_to_member(shape, member_name, a_trait);
-                    } else {
-                        panic!("No shape named {} for member {}", parent_shape, member_name);
+                    let applied = match self.shapes.get_mut(&parent_shape) {
+                        Some(shape) => apply_to_member(shape, member_name, a_trait),
+                        None => false,
+                    };
+                    if !applied {
+                        return Err(ErrorKind::UnknownMember(shape_id.to_string()).into());
                     }
                 } else if let Some(shape) = self.shapes.get_mut(&self.known_name(shape_id)) {
                     apply_to_shape(shape, a_trait);
@@ -344,14 +359,13 @@ impl ModelBuilder {
                     let _ = builder.apply_trait(a_trait);
                     let _ = self.reference(builder);
                 }
-                self
+                Ok(())
             }
             ShapeName::Local(local) => {
                 // This is disallowed in the Smithy IDL which requires apply statements to take
                 // qualified names.
-                let (shape_id, new_reference) = self
-                    .resolve_shape_name(&local.clone().into(), false)
-                    .unwrap();
+                let (shape_id, new_reference) =
+                    self.resolve_shape_name(&local.clone().into(), false)?;
                 if new_reference {
                     let _ = self.reference(ReferenceBuilder::from(shape_id.clone()));
                 }
@@ -758,8 +772,8 @@ fn apply_to_member(
     shape: &mut TopLevelShapeBuilder,
     member_name: &Identifier,
     a_trait: TraitBuilder,
-) {
-    let ok = match shape {
+) -> bool {
+    match shape {
         TopLevelShapeBuilder::List(shape) => {
             if member_name.to_string() == MEMBER_MEMBER {
                 let _ = shape.member.apply_trait(a_trait);
@@ -812,9 +826,6 @@ fn apply_to_member(
             }
         }
         _ => false,
-    };
-    if !ok {
-        panic!("Shape does not have a traitable member {}", member_name);
     }
 }
 
diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index e6c029b..9346107 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -5,8 +5,8 @@ use crate::REPRESENTATION_NAME;
 use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
-    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
-    ResourceBuilder, ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
+    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
+    ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
 };
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
@@ -188,15 +188,23 @@ fn parse_shape_statements(
     builder: &mut ModelBuilder,
 ) -> ModelResult<()> {
     entry!("parse_shape_statements", input_pair);
+    let mut applied: Vec<(String, TraitBuilder)> = Default::default();
     for shape_statement in input_pair.into_inner() {
         match shape_statement.as_rule() {
             Rule::shape_statement => {
                 parse_shape_statement(shape_statement, builder)?;
             }
+            Rule::apply_statement => {
+                applied.push(parse_apply_statement(shape_statement)?);
+            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statements", shape_statement),
         }
     }
+    // the shape a trait is applied to may be defined after the apply statement.
+    for (id, a_trait) in applied {
+        let _ = builder.try_apply(&id, a_trait)?;
+    }
     Ok(())
 }
 
@@ -260,10 +268,6 @@ fn parse_shape_statement(
                 apply_traits(&mut shape, &documentation, &traits);
                 let _ = builder.resource(shape);
             }
-            Rule::apply_statement => {
-                let shape = parse_apply_statement(shape_statement)?;
-                let _ = builder.reference(shape);
-            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statement", shape_statement),
         }
@@ -756,27 +760,22 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
-fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ReferenceBuilder> {
+fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
     let mut a_trait: Option<TraitBuilder> = None;
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::identifier => {
+            Rule::shape_id => {
                 id = Some(inner.as_str().to_string());
             }
             Rule::a_trait => a_trait = Some(parse_a_trait(inner)?),
             _ => unexpected!("parse_apply_statement", inner),
         }
     }
-    if let Some(id) = id {
-        let mut reference = ReferenceBuilder::new(&id);
-        if let Some(a_trait) = a_trait {
-            let _ = reference.apply_trait(a_trait);
-        }
-        Ok(reference)
-    } else {
-        ParserError::unreachable("parse_apply_statement").into()
+    match (id, a_trait) {
+        (Some(id), Some(a_trait)) => Ok((id, a_trait)),
+        _ => ParserError::unreachable("parse_apply_statement").into(),
     }
 }
 
-- 
2.43.0


From a07e2ab6777f3e5bec8b53d1668e808433947129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 28/63] fix: relative member ids as targets or traits, and bad
 identifier names, are errors, not panics

---
 atelier-smithy/src/parser/smithy.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 9346107..6bbd802 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -308,7 +308,7 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
             Rule::shape_id => {
-                id = Some(inner.as_str().to_string());
+                id = Some(ShapeName::from_str(inner.as_str())?.to_string());
             }
             Rule::node_value => {
                 node_value = Some(parse_node_value(inner)?);
@@ -530,7 +530,7 @@ fn parse_shape_member_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<MemberBuild
                 id = Some(inner.as_str().to_string());
             }
             Rule::shape_id => {
-                shape_id = Some(inner.as_str().to_string());
+                shape_id = Some(ShapeName::from_str(inner.as_str())?.to_string());
             }
             _ => unexpected!("parse_shape_member_kvp", inner),
         }
@@ -650,6 +650,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
+                            let id = Identifier::from_str(&unquoted(id))?.to_string();
                             let _ = resource
                                 .identifier(&id, &shape_name("parse_resource_statement", &target)?);
                         }
-- 
2.43.0


From 1291bd446fee6c9569431fdbd1eafdebd03b70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 29/63] fix: the Smithy parser reads the renames of a service

---
 atelier-smithy/src/parser/smithy.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 6bbd802..252971a 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -11,11 +11,12 @@ use atelier_core::builder::{
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
-use atelier_core::model::{Identifier, Model};
+use atelier_core::model::{Identifier, Model, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE,
+    MEMBER_VERSION,
 };
 use atelier_core::Version;
 use pest::error::Error as PestError;
@@ -585,6 +586,27 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                             .into();
                     }
                 }
+                MEMBER_RENAME => {
+                    if let NodeValue::Object(renames) = value {
+                        for (id, name) in renames {
+                            let id = ShapeID::from_str(&unquoted(id))?.to_string();
+                            let name = match name.as_string() {
+                                Some(name) => Identifier::from_str(name)?.to_string(),
+                                None => {
+                                    return ParserError::new("parse_service_statement")
+                                        .expecting("identifier")
+                                        .debug_context(&name)
+                                        .into()
+                                }
+                            };
+                            let _ = service.rename(&id, &name);
+                        }
+                    } else {
+                        return ParserError::unreachable("parse_service_statement")
+                            .context(&value)
+                            .into();
+                    }
+                }
                 _ => {
                     return ParserError::unreachable("parse_service_statement")
                         .context(&key)
-- 
2.43.0


From 98edb7a97f2b52b8d88232c32ec8a1e52096e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 30/63] fix: the properties of services, operations and
 resources may be quoted

---
 atelier-smithy/src/parser/smithy.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 252971a..e3050f1 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -773,7 +773,18 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
             Rule::identifier => {
                 id = Some(inner.as_str().to_string());
             }
-            Rule::node_object => node_value = Some(parse_node_object(inner)?),
+            Rule::node_object => {
+                // the names of properties may be quoted.
+                node_value = Some(match parse_node_object(inner)? {
+                    NodeValue::Object(object) => NodeValue::Object(
+                        object
+                            .into_iter()
+                            .map(|(key, value)| (unquoted(key), value))
+                            .collect(),
+                    ),
+                    other => other,
+                })
+            }
             _ => unexpected!("parse_id_and_object", inner),
         }
     }
-- 
2.43.0


From 62ef5af6bcf0a3aaa9399e4190310873c3c94e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 31/63] fix: the version and metadata of a Smithy file with no
 namespace are read

---
 atelier-smithy/src/parser/smithy.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index e3050f1..333f463 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -90,7 +90,14 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 parse_shape_section(item, version)
             });
             match builder {
-                None => Ok(Model::default()),
+                None => {
+                    // there is no namespace, and so no shapes.
+                    let mut model = Model::new(version);
+                    for (key, value) in meta_data {
+                        let _ = model.add_metadata(key, value)?;
+                    }
+                    Ok(model)
+                }
                 Some(mut builder) => builder.meta_data_from(meta_data).try_into(),
             }
         }
-- 
2.43.0


From a16552f939451d31506aa987ee849a20bc7419fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:50 +0000
Subject: [PATCH 32/63] fix: selectors with the comparators >= and <= can be
 parsed

---
 atelier-smithy/src/selector.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index de20b25..eabdc8e 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -93,10 +93,10 @@ comparator_string_in = { "*=" }
 comparator_string_exist = { "?=" }
 
 selector_numeric_comparator =
-    { comparator_number_gt
-    | comparator_number_gte
-    | comparator_number_lt
-    | comparator_number_lte }
+    { comparator_number_gte
+    | comparator_number_gt
+    | comparator_number_lte
+    | comparator_number_lt }
 
 comparator_number_gt = { ">" }
 
-- 
2.43.0


From 7d540245e1943aa22986cdd2e2f7595060e0f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:50 +0000
Subject: [PATCH 33/63] fix: parse_selector does not print the parse tree to
 stdout

---
 atelier-smithy/src/parser/selector.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 45efa16..f5069db 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -37,7 +37,6 @@ pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     match top_pair.as_rule() {
         Rule::input => {
             let inner = top_pair.into_inner().next().unwrap();
-            println!("{:#?}", inner);
             trace!("{:#?}", inner);
             if inner.as_rule() == Rule::selector {
                 parse_a_selector(inner)
-- 
2.43.0


From 99461378b5b721e99b3ceea6edf0f20ba8827462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 34/63] fix: numbers with an exponent, or too long, in a
 selector do not panic

---
 atelier-smithy/src/parser/selector.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index f5069db..35643b4 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -1,7 +1,7 @@
 #![allow(clippy::upper_case_acronyms)]
 
 use crate::parser::error::ParserError;
-use atelier_core::error::{Error, ErrorKind, Result as ModelResult};
+use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::selector::{
     AttributeComparison, AttributeSelector, Comparator, Function, Key, KeyPathSegment,
     NeighborSelector, ScopedAttributeAssertion, ScopedAttributeSelector, ScopedValue, Selector,
@@ -222,11 +222,13 @@ fn parse_selector_value(input_pair: Pair<'_, Rule>) -> ModelResult<Value> {
         }
         Rule::number => {
             let number = inner.as_str();
-            if number.contains('.') {
-                Ok(Value::Number(Number::Float(f64::from_str(number).unwrap())))
+            if number.contains(|c| c == '.' || c == 'e' || c == 'E') {
+                Ok(Value::Number(Number::Float(
+                    f64::from_str(number).chain_err(|| "number format error")?,
+                )))
             } else {
                 Ok(Value::Number(Number::Integer(
-                    i64::from_str(number).unwrap(),
+                    i64::from_str(number).chain_err(|| "number format error")?,
                 )))
             }
         }
-- 
2.43.0


From 448c21252d746a8f4087bbf1e2b59e715a003f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 35/63] fix: selector texts with double quotes are printed in
 single quotes

---
 atelier-core/src/model/selector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index d40634e..0a586bb 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -596,6 +596,7 @@ impl Display for Value {
             f,
             "{}",
             match self {
+                Value::Text(v) if v.contains('"') => format!("'{}'", v),
                 Value::Text(v) => format!("\"{}\"", v),
                 Value::Number(v) => v.to_string(),
                 Value::RootShapeIdentifier(v) => v.to_string(),
-- 
2.43.0


From af0e0e2c8bf3ecde59d9651b53d033a2e61bf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 36/63] fix: string_starts_with compares with the value given,
 not with its printed form

---
 atelier-core/src/model/selector/mod.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index 0a586bb..1f6ec10 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -850,10 +850,7 @@ impl AttributeComparison {
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `^=` operator.
     pub fn string_starts_with(rhs: Value) -> Self {
-        Self::new(
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string())],
-        )
+        Self::new(Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `$=` operator.
@@ -1257,11 +1254,7 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `^=` operator.
     pub fn string_starts_with(lhs: ScopedValue, rhs: ScopedValue) -> Self {
-        Self::new(
-            lhs,
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `$=` operator.
-- 
2.43.0


From 85269f3847f26cf9b855ea8c660c211e5de6aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 37/63] fix: numeric assertions of scoped attributes compare
 with a number

---
 atelier-core/src/builder/selector.rs   | 8 ++++----
 atelier-core/src/model/selector/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/atelier-core/src/builder/selector.rs b/atelier-core/src/builder/selector.rs
index a26ae51..17e135f 100644
--- a/atelier-core/src/builder/selector.rs
+++ b/atelier-core/src/builder/selector.rs
@@ -1074,7 +1074,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1083,7 +1083,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1092,7 +1092,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1101,7 +1101,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index 1f6ec10..94c0eeb 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -1281,7 +1281,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1290,7 +1290,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1299,7 +1299,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1308,7 +1308,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
-- 
2.43.0


From d85e771668544ed2ddd73ff6fd86c54b83a53c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:34 +0000
Subject: [PATCH 38/63] fix: the RDF writer writes null as the documented
 smithy:null

---
 atelier-rdf/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 37af978..0696e5a 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -889,7 +889,7 @@ fn from_value(
                     .statement(
                         subject,
                         predicate,
-                        statement_factory.named_object(rdf::nil().clone()),
+                        statement_factory.named_object(vocabulary::null().clone()),
                     )
                     .unwrap(),
             );
-- 
2.43.0


From e385a545749d5d1c0c3d457835a127d02785a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:35 +0000
Subject: [PATCH 39/63] fix: the RDF writer gives resource identifiers the
 documented smithy:target

---
 atelier-rdf/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 0696e5a..8a95050 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -554,7 +554,7 @@ impl ModelVisitor for RdfModelVisitor {
                     statement_factory
                         .statement(
                             name_target_pair.clone(),
-                            vocabulary::value().clone(),
+                            vocabulary::target().clone(),
                             statement_factory.named_object(shape_to_iri(target).clone()),
                         )
                         .unwrap(),
-- 
2.43.0


From c7a11d6f5f940137ecc1d15fdd6a1fb8a1648cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 40/63] fix: the RDF writer numbers the elements of arrays and
 objects, equal array elements were lost

---
 atelier-rdf/src/writer.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 8a95050..54f5f3f 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -527,9 +527,7 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
             for (idx, (name, target)) in shape.identifiers().enumerate() {
-                let member = IRIRef::new(
-                    IRI::from_str(&format!("{}_{}", rdf::namespace_iri(), idx + 1)).unwrap(),
-                );
+                let member = numbered_member(idx);
                 let name_target_pair = graph.statement_factory().blank_subject();
                 graph.insert(
                     statement_factory
@@ -672,6 +670,10 @@ impl ModelVisitor for RdfModelVisitor {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+fn numbered_member(idx: usize) -> IRIRef {
+    IRIRef::new(IRI::from_str(&format!("{}_{}", rdf::namespace_iri(), idx + 1)).unwrap())
+}
+
 fn add_shape(graph: &mut RefMut<'_, dyn Graph>, the_model: SubjectNodeRef, subject: IRIRef) {
     let statement_factory = graph.statement_factory();
     graph.insert(
@@ -832,12 +834,12 @@ fn from_value(
                     .statement(
                         the_value.clone(),
                         rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::list().clone()),
+                        statement_factory.named_object(rdf::seq().clone()),
                     )
                     .unwrap(),
             );
-            for value in v {
-                from_value(graph, the_value.clone(), rdf::li().clone(), value)?;
+            for (idx, value) in v.iter().enumerate() {
+                from_value(graph, the_value.clone(), numbered_member(idx), value)?;
             }
         }
         Value::Object(v) => {
@@ -860,13 +862,13 @@ fn from_value(
                     )
                     .unwrap(),
             );
-            for (k, v) in v {
+            for (idx, (k, v)) in v.iter().enumerate() {
                 let kv_pair = graph.statement_factory().blank_subject();
                 graph.insert(
                     statement_factory
                         .statement(
                             the_value.clone(),
-                            rdf::li().clone(),
+                            numbered_member(idx),
                             statement_factory.subject_as_object(kv_pair.clone()),
                         )
                         .unwrap(),
-- 
2.43.0


From ddc0f677c608ab46be334984bf2f374c91579689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:00 +0000
Subject: [PATCH 41/63] fix: the RDF writer writes the renames of a service

---
 atelier-rdf/src/writer.rs | 52 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 54f5f3f..9a204ae 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -428,6 +428,58 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
         }
+        if shape.has_renames() {
+            let rename_bag = graph.statement_factory().blank_subject();
+            graph.insert(
+                statement_factory
+                    .statement(
+                        statement_factory.named_subject(subject.clone()),
+                        vocabulary::rename().clone(),
+                        statement_factory.subject_as_object(rename_bag.clone()),
+                    )
+                    .unwrap(),
+            );
+            graph.insert(
+                statement_factory
+                    .statement(
+                        rename_bag.clone(),
+                        rdf::a_type().clone(),
+                        statement_factory.named_object(rdf::bag().clone()),
+                    )
+                    .unwrap(),
+            );
+            for (idx, (renamed, name)) in shape.renames().enumerate() {
+                let shape_name_pair = graph.statement_factory().blank_subject();
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename_bag.clone(),
+                            numbered_member(idx),
+                            statement_factory.subject_as_object(shape_name_pair.clone()),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            shape_name_pair.clone(),
+                            vocabulary::shape().clone(),
+                            statement_factory.named_object(shape_to_iri(renamed)),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            shape_name_pair.clone(),
+                            vocabulary::name().clone(),
+                            statement_factory
+                                .literal_object(literal_factory.literal(&name.to_string())),
+                        )
+                        .unwrap(),
+                );
+            }
+        }
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
-- 
2.43.0


From 386c98ef13c5855e7645131ff40573956cac0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:10 +0000
Subject: [PATCH 42/63] fix: the RDF writer writes the model's metadata

---
 atelier-rdf/src/writer.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 9a204ae..bc5971f 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -172,6 +172,21 @@ pub fn model_to_rdf(
         model_subject,
         graph,
     };
+    if model.has_metadata() {
+        let metadata = Value::Object(
+            model
+                .metadata()
+                .map(|(key, value)| (key.clone(), value.clone()))
+                .collect(),
+        );
+        let mut graph: RefMut<'_, dyn Graph> = visitor.graph.borrow_mut();
+        from_value(
+            &mut graph,
+            visitor.model_subject.clone(),
+            vocabulary::metadata().clone(),
+            &metadata,
+        )?;
+    }
     walk_model(model, &visitor)?;
 
     Ok(visitor.graph)
@@ -219,10 +234,6 @@ impl RdfWriter {
 impl ModelVisitor for RdfModelVisitor {
     type Error = ModelError;
 
-    fn metadata(&self, _key: &str, _value: &Value) -> Result<(), Self::Error> {
-        Ok(())
-    }
-
     fn simple_shape(
         &self,
         id: &ShapeID,
-- 
2.43.0


From 10251552ef590468e7eba5aecd06ca9deb7fdebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:39 +0000
Subject: [PATCH 43/63] fix: a shape URN with a query or fragment is not taken
 for the shape

---
 atelier-rdf/src/urn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-rdf/src/urn.rs b/atelier-rdf/src/urn.rs
index 83cf20d..1508a77 100644
--- a/atelier-rdf/src/urn.rs
+++ b/atelier-rdf/src/urn.rs
@@ -65,7 +65,9 @@ pub fn is_shape_iri(iri: IRIRef) -> bool {
 /// conform to the format described in the module documentation.
 ///
 pub fn iri_to_shape(iri: IRIRef) -> Result<ShapeID, String> {
-    if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
+    if iri.has_authority() || iri.has_query() || iri.has_fragment() {
+        Err(String::from("Smithy URN has more than a path"))
+    } else if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
         let path = iri.path().to_string();
         if let Some(path) = path.strip_prefix(URN_NID) {
             if path
-- 
2.43.0


From 51f3f0b889cb0ed7ce193bd5e159fff55046bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:29 +0000
Subject: [PATCH 44/63] fix: report a model file that cannot be opened instead
 of panicking

---
 atelier-assembler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 674a4bc..7484c5a 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -445,7 +445,7 @@ impl ModelAssembler {
         if let Some(extension) = path.extension() {
             let extension = extension.to_string_lossy().to_lowercase();
             if let Some(file_type) = self.file_types.get(extension.as_ref()) {
-                let mut file = File::open(path).unwrap();
+                let mut file = File::open(path)?;
                 Ok(file_type.reader()(&mut file)?)
             } else {
                 error!("ModelAssembler::read_model - not a known extension");
-- 
2.43.0


From 0abbe24b21a37b996644b5670c23d59013ed8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:39 +0000
Subject: [PATCH 45/63] fix: register a file type's MIME type whichever way it
 is registered

---
 atelier-assembler/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 7484c5a..dc10c3d 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -243,9 +243,7 @@ impl FileTypeRegistry {
     ///
     pub fn register_all(&mut self, file_type: Rc<FileType>, extensions: &[&str]) {
         for extension in extensions {
-            let _ = self
-                .by_extension
-                .insert(extension.to_lowercase(), file_type.clone());
+            self.register(file_type.clone(), extension);
         }
     }
 
-- 
2.43.0


From b6febafb29b79f20c53044806b05d3aa3a33825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:45 +0000
Subject: [PATCH 46/63] fix: name the lifecycle operations of a resource in
 PlantUML by their own names

---
 atelier-describe/src/plant_uml/writer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 9a5a662..ce3ef2d 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -266,19 +266,19 @@ impl PlantUmlWriter {
             self.write_operation(w, id, model, Some("create"))?;
         }
         if let Some(id) = body.put() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("put"))?;
         }
         if let Some(id) = body.read() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("read"))?;
         }
         if let Some(id) = body.update() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("update"))?;
         }
         if let Some(id) = body.delete() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("delete"))?;
         }
         if let Some(id) = body.list() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("list"))?;
         }
         if body.has_operations() {
             writeln!(w, "        ..{}..", MEMBER_OPERATIONS)?;
-- 
2.43.0


From c72243997a6598bb5281a18ec9a5ac0ef879b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:45 +0000
Subject: [PATCH 47/63] fix: put only the shapes of a namespace into its
 PlantUML package

---
 atelier-describe/src/plant_uml/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index ce3ef2d..da63d5a 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -167,7 +167,10 @@ impl ModelWriter for PlantUmlWriter {
         for namespace in namespaces {
             writeln!(w, "package {} {{", namespace)?;
             writeln!(w)?;
-            for element in model.shapes() {
+            for element in model
+                .shapes()
+                .filter(|element| element.id().namespace() == namespace)
+            {
                 match element.body() {
                     ShapeKind::Simple(_) => self.write_data_type(w, element, model)?,
                     ShapeKind::Service(_) => self.write_service(w, element, model)?,
-- 
2.43.0


From 2c16bde3f97d5e73ea8ce0f9ab15a682a9d42c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:46 +0000
Subject: [PATCH 48/63] fix: write the documentation of a simple shape as a
 PlantUML note

---
 atelier-describe/src/plant_uml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index da63d5a..ceb05fb 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -343,7 +343,7 @@ impl PlantUmlWriter {
         writeln!(w, "    class {} <<dataType>> {{", data_type.id())?;
         let notes = self.write_class_traits(w, data_type, model)?;
         writeln!(w, "    }}")?;
-        writeln!(w, "    {}", notes.join("\n"))?;
+        self.write_class_notes(w, data_type.id(), notes)?;
         if self.expand_smithy_api {
             let simple = data_type.body().as_simple().unwrap();
             writeln!(
-- 
2.43.0


From 07ddde7f5baa511ba1839939613f246c96830971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:02 +0000
Subject: [PATCH 49/63] fix: write an operation the model does not define into
 PlantUML instead of panicking

---
 atelier-describe/src/plant_uml/writer.rs | 27 +++++++++++-------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index ceb05fb..0e62a53 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -365,28 +365,25 @@ impl PlantUmlWriter {
         model: &Model,
         other_name: Option<&str>,
     ) -> atelier_core::error::Result<()> {
-        let operation = model.shape(oper_id).unwrap();
-        let name = operation.id();
-        let operation = operation.body().as_operation().unwrap();
+        let operation = model
+            .shape(oper_id)
+            .and_then(|shape| shape.body().as_operation());
+        let input = operation.and_then(|operation| operation.input().as_ref());
+        let output = operation.and_then(|operation| operation.output().as_ref());
         writeln!(
             w,
             "        {}(in: {}){}",
             match other_name {
-                None => name.to_string(),
+                None => oper_id.to_string(),
                 Some(name) => name.to_string(),
             },
-            if operation.has_input() {
-                self.type_string(&operation.input().as_ref().unwrap(), model)
-            } else {
-                String::new()
+            match input {
+                Some(input) => self.type_string(input, model),
+                None => String::new(),
             },
-            if operation.has_output() {
-                format!(
-                    ": {}",
-                    self.type_string(&operation.output().as_ref().unwrap(), model)
-                )
-            } else {
-                String::new()
+            match output {
+                Some(output) => format!(": {}", self.type_string(output, model)),
+                None => String::new(),
             },
         )?;
         Ok(())
-- 
2.43.0


From bc269fa166767cdf8a80c2b0ae7bc087f167c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:49 +0000
Subject: [PATCH 50/63] fix: number the edges of a GraphML graph without
 overflow

---
 atelier-describe/src/graphml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 7e80a28..bbb2008 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -140,7 +140,7 @@ pub struct GraphMLWriter {}
 // ------------------------------------------------------------------------------------------------
 
 struct VisitorState<'a, W: Write> {
-    edge_count: u16,
+    edge_count: usize,
     writer: &'a mut W,
 }
 #[allow(clippy::upper_case_acronyms)]
-- 
2.43.0


From 1f7392813e0691e0187b0231483382f1612610ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:49 +0000
Subject: [PATCH 51/63] fix: refer to the GraphML key of the Smithy version by
 its id

---
 atelier-describe/src/graphml/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index bbb2008..a833cf5 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -43,7 +43,7 @@ For the _message of the day_ model, this writer will generate the following XML.
         <default>member</default>
     </key>
     <graph id="model" edgedefault="directed">
-        <data key="smithy.version">1.0</data>
+        <data key="smithy-version">1.0</data>
         <node id="example.motd#GetMessageOutput">
             <data key="type">structure</data>
         </node>
@@ -187,7 +187,7 @@ impl ModelWriter for GraphMLWriter {
         writeln!(w, r#"    <graph id="model" edgedefault="directed">"#)?;
         writeln!(
             w,
-            r#"        <data key="smithy.version">{}</data>"#,
+            r#"        <data key="smithy-version">{}</data>"#,
             model.smithy_version()
         )?;
 
-- 
2.43.0


From bb267a536908598032241b9cce915e56569332c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:49 +0000
Subject: [PATCH 52/63] fix: escape the version of a service in GraphML

---
 atelier-describe/src/graphml/writer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index a833cf5..9c5cb82 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -355,7 +355,7 @@ impl<'a, W: Write> ModelVisitor for GraphMLVisitor<'a, W> {
             writeln!(
                 state.writer,
                 r#"            <data key="version">{}</data>"#,
-                value.version()
+                escape_text(value.version())
             )?;
             writeln!(state.writer, r#"        </node>"#)?;
         }
@@ -464,6 +464,12 @@ impl<'a, W: Write> GraphMLVisitor<'a, W> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+fn escape_text(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 2277f5a9fe4d04dd4bcfdf4a08f460cedba931a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:07 +0000
Subject: [PATCH 53/63] fix: do not panic on a documentation trait that is not
 a string

---
 atelier-describe/src/document/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 4831a20..63bf7b1 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -278,8 +278,8 @@ fn describe_traits(shape: &impl HasTraits, doc: &mut Document) {
 
 fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_DOCUMENTATION, None);
-    if let Some(Some(doc_value)) = shape.trait_named(&trait_id) {
-        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value.as_string().unwrap()));
+    if let Some(Some(Value::String(doc_value))) = shape.trait_named(&trait_id) {
+        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value));
     }
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
-- 
2.43.0


From 47d0c2c5efcdd40933ed8d2858b1900f03ab52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:07 +0000
Subject: [PATCH 54/63] fix: link to external documentation by its URL, without
 quotes, in a stable order

---
 atelier-describe/src/document/writer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 63bf7b1..5288953 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -284,11 +284,17 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
     if let Some(Some(Value::Object(value_map))) = shape.trait_named(&trait_id) {
-        let mut links: Vec<InlineContent> = value_map
-            .iter()
+        let mut entries: Vec<(&String, &Value)> = value_map.iter().collect();
+        entries.sort_by_key(|(k, _)| *k);
+        let mut links: Vec<InlineContent> = entries
+            .into_iter()
             .map(|(k, v)| {
+                let url = match v {
+                    Value::String(url) => url.to_string(),
+                    other => other.to_string(),
+                };
                 InlineContent::HyperLink(HyperLink::external_with_caption(
-                    &v.to_string(),
+                    &url,
                     Caption::from(k.to_string()),
                 ))
             })
-- 
2.43.0


From 7d76ba61dc033da4f9efa35a4d81b92722485ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:07 +0000
Subject: [PATCH 55/63] fix: show the whole path to a nested trait value in the
 documentation

---
 atelier-describe/src/document/writer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 5288953..da1ce62 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -203,26 +203,28 @@ fn trait_value(
         Value::String(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::Array(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 for (i, v) in vs.iter().enumerate() {
-                    result.extend(trait_value(id.clone(), Some(format!("[{}]", i)), v));
+                    result.extend(trait_value(id.clone(), Some(format!("{}[{}]", prefix, i)), v));
                 }
             }
         }
         Value::Object(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 let mut obj_keys: Vec<&String> = vs.keys().collect();
                 obj_keys.sort();
                 for k in obj_keys {
                     let v = vs.get(k).unwrap();
-                    result.extend(trait_value(id.clone(), Some(format!(".{}", k)), v));
+                    result.extend(trait_value(id.clone(), Some(format!("{}.{}", prefix, k)), v));
                 }
             }
         }
-        _ => result.push((id, None, None)),
+        _ => result.push((id, prefix, None)),
     }
     result
 }
-- 
2.43.0


From 450f76cc6c1df53c28500090d10c0f46c5f7c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 56/63] fix: the default assembler searches SMITHY_PATH, as
 documented

---
 atelier-assembler/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index dc10c3d..882f37b 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -70,6 +70,11 @@ use std::rc::Rc;
 // Public Types
 // ------------------------------------------------------------------------------------------------
 
+///
+/// The name of the environment variable holding the default search path for models.
+///
+pub const DEFAULT_SEARCH_ENV: &str = "SMITHY_PATH";
+
 ///
 /// A Function type used to read a particular format into a model. This type is used by the
 /// [`FileType`](struct.FileType.html).
@@ -287,7 +292,10 @@ impl FileTypeRegistry {
 
 impl Default for ModelAssembler {
     fn default() -> Self {
-        Self::new(FileTypeRegistry::default(), Some(SearchPath::default()))
+        Self::new(
+            FileTypeRegistry::default(),
+            Some(SearchPath::new_or_default(DEFAULT_SEARCH_ENV)),
+        )
     }
 }
 
-- 
2.43.0


From a795555513825a6a91c42e05b9c5a9db20eabb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:24 +0000
Subject: [PATCH 57/63] fix: --default-search-env uses the SMITHY_PATH
 environment variable

---
 cargo-atelier/src/command_line.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cargo-atelier/src/command_line.rs b/cargo-atelier/src/command_line.rs
index 563fbc5..ba09bcd 100644
--- a/cargo-atelier/src/command_line.rs
+++ b/cargo-atelier/src/command_line.rs
@@ -1,4 +1,5 @@
 use crate::{Command, DocumentCommand, FileFormat, Options, TransformCommand};
+use atelier_lib::assembler::DEFAULT_SEARCH_ENV;
 use search_path::SearchPath;
 use somedoc::write::OutputFormat;
 use std::error::Error;
@@ -180,7 +181,7 @@ fn check_command_line() -> Vec<String> {
 
 fn make_search_path(default_search_env: bool, search_env: Option<String>) -> Option<SearchPath> {
     if default_search_env {
-        Some(SearchPath::default())
+        Some(SearchPath::new_or_default(DEFAULT_SEARCH_ENV))
     } else {
         search_env.map(|search_env| SearchPath::new_or_default(&search_env))
     }
-- 
2.43.0


From 8bd3cccb0a8d59bdf4f6393c37e6722513102f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:53 +0000
Subject: [PATCH 58/63] fix: write_model_to_file creates the file it writes,
 instead of opening it for reading

---
 atelier-core/src/io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/io/mod.rs b/atelier-core/src/io/mod.rs
index b071ccf..a5d9825 100644
--- a/atelier-core/src/io/mod.rs
+++ b/atelier-core/src/io/mod.rs
@@ -111,7 +111,7 @@ pub fn write_model_to_file(
     model: &Model,
     path: PathBuf,
 ) -> ModelResult<()> {
-    let mut file = File::open(path)?;
+    let mut file = File::create(path)?;
     w.write(&mut file, model)?;
     Ok(())
 }
-- 
2.43.0


From 8435aec7ec2a42e60b51b219454bab155b2a42a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:36 +0000
Subject: [PATCH 59/63] fix: the output file of a command is created, instead
 of opened for reading

---
 cargo-atelier/src/actions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 9116673..2a76715 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -83,7 +83,7 @@ fn write_model(
 ) -> Result<(), Box<dyn Error>> {
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
 
     match output_format {
@@ -136,7 +136,7 @@ fn document_a_file(
 
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
     write_document(&document, output_format, &mut file)?;
     Ok(())
-- 
2.43.0


From d86e94ab8447320059c87f9ca4fd5e22ae0e0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:42 +0000
Subject: [PATCH 60/63] fix: report a missing or invalid namespace, instead of
 panicking

---
 cargo-atelier/src/actions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 2a76715..bea91aa 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -90,7 +90,7 @@ fn write_model(
         FileFormat::Json => write_json(&mut file, model),
         FileFormat::Smithy => {
             if let Some(namespace) = namespace {
-                write_smithy(&mut file, model, NamespaceID::from_str(&namespace).unwrap())
+                write_smithy(&mut file, model, NamespaceID::from_str(&namespace)?)
             } else {
                 let namespaces = &model.namespaces();
                 if namespaces.len() == 1 {
@@ -100,7 +100,7 @@ fn write_model(
                         (*namespaces.iter().next().unwrap()).clone(),
                     )
                 } else {
-                    panic!("A namespace value is required for writing Smithy IDL");
+                    Err("A namespace value is required for writing Smithy IDL".into())
                 }
             }
         }
-- 
2.43.0


From b3575a7d20e5ac21e6331ccee2e677358712d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:43 +0000
Subject: [PATCH 61/63] fix: a command that fails says why and exits with a
 failure status

---
 cargo-atelier/src/bin/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cargo-atelier/src/bin/main.rs b/cargo-atelier/src/bin/main.rs
index 2fe7a53..a89e8fb 100644
--- a/cargo-atelier/src/bin/main.rs
+++ b/cargo-atelier/src/bin/main.rs
@@ -14,8 +14,12 @@ fn main() -> Result<(), Box<dyn Error>> {
         Command::Document(cmd, search_path, _) => actions::document_file(cmd, search_path),
     };
 
-    if result.is_err() {
-        eprintln!("{}", (&result).as_ref().err().unwrap().source().unwrap())
+    if let Err(err) = &result {
+        match err.source() {
+            Some(source) => eprintln!("{}", source),
+            None => eprintln!("{}", err),
+        }
+        std::process::exit(1);
     }
 
     Ok(())
-- 
2.43.0


From 69ea260135fcde23b945979d3dece68dd5fb5ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:43 +0000
Subject: [PATCH 62/63] fix: queries do not print to standard output

---
 atelier-query/src/evaluate.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index ed92c58..b0f8398 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -52,7 +52,6 @@ fn query_one(
     previously_selected: Projection,
     over_model: &Model,
 ) -> Projection {
-    println!("query_one({:?} |-> {})", previously_selected, query);
     match query {
         SelectorExpression::ShapeType(v) => query_by_shape_type(v, previously_selected, over_model),
         SelectorExpression::AttributeSelector(v) => {
-- 
2.43.0


From df4e30541d657b7875963ab5b20f1ce6e15599c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:47 +0000
Subject: [PATCH 63/63] fix: the number selector covers byte and long,
 collection covers lists and sets only

---
 atelier-query/src/evaluate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index b0f8398..8e69a90 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -142,9 +142,11 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
                     shape_body,
                     Simple::BigDecimal
                         | Simple::BigInteger
+                        | Simple::Byte
                         | Simple::Double
                         | Simple::Float
                         | Simple::Integer
+                        | Simple::Long
                         | Simple::Short
                 )
             } else {
@@ -152,7 +154,7 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
             }
         }
         ShapeType::SimpleType => shape_body.is_simple(),
-        ShapeType::Collection => shape_body.is_list() || shape_body.is_set() || shape_body.is_map(),
+        ShapeType::Collection => shape_body.is_list() || shape_body.is_set(),
         ShapeType::Blob => {
             shape_body.is_simple() && matches!(shape.body().as_simple().unwrap(), Simple::Blob)
         }
-- 
2.43.0

