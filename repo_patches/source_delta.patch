From 0cbfdd1b74e35fab42633fa6fc9e68c7f768fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 01/47] fix: keep the nesting of a MultiSolid or CompositeSolid
 with a single solid

The decoder dropped the array around the only solid, for boundaries and for
texture values.
---
 src/rust/fcb_core/src/reader/deserializer.rs | 29 ++++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c447cb8..cd861ea 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -13,8 +13,8 @@ use cjseq::{
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
     MaterialObject as CjMaterial, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
     ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
-    TextType as CjTextType, TextureObject as CjTexture, Transform as CjTransform,
-    WrapMode as CjWrapMode,
+    TextType as CjTextType, TextureObject as CjTexture, TextureValues as CjTextureValues,
+    Transform as CjTransform, WrapMode as CjWrapMode,
 };
 
 use super::meta::{Column as MetaColumn, ColumnType as MetaColumnType, Meta};
@@ -591,6 +591,17 @@ pub(crate) fn decode_geometry(
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
     let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    // `decode` returns a lone solid without its enclosing array, which is right for a
+    // Solid only.
+    let is_solid_collection = matches!(
+        g.type_(),
+        GeometryType::MultiSolid | GeometryType::CompositeSolid
+    );
+    let boundaries = if is_solid_collection && solids.len() == 1 {
+        CjBoundaries::Nested(vec![boundaries])
+    } else {
+        boundaries
+    };
     let semantics: Option<CjSemantics> = if let (Some(semantics_objects), Some(semantics)) =
         (g.semantics_objects(), g.semantics())
     {
@@ -616,11 +627,23 @@ pub(crate) fn decode_geometry(
     };
 
     // Decode texture mappings if present
-    let texture = if let Some(texture_mappings) = g.texture() {
+    let mut texture = if let Some(texture_mappings) = g.texture() {
         decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
+    if is_solid_collection {
+        if let (Some(texture_mappings), Some(texture)) = (g.texture(), texture.as_mut()) {
+            for mapping in texture_mappings.iter() {
+                if mapping.solids().is_some_and(|s| s.len() == 1) {
+                    if let Some(t) = texture.get_mut(mapping.theme().unwrap_or("theme")) {
+                        let values = std::mem::replace(&mut t.values, CjTextureValues::Nested(vec![]));
+                        t.values = CjTextureValues::Nested(vec![values]);
+                    }
+                }
+            }
+        }
+    }
 
     Ok(CjGeometry {
         thetype: g.type_().to_cj(),
-- 
2.43.0


From 78e2fff2880d0836bfb0f3b838d45c74644e33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 02/47] fix: keep the nesting of material values of
 single-shell and single-solid geometries

---
 src/rust/fcb_core/src/reader/deserializer.rs | 17 ++++++++++++++---
 src/rust/fcb_core/src/reader/geom_decoder.rs |  4 ++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index cd861ea..2a6d420 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -11,8 +11,8 @@ use cjseq::{
     CityJSONFeature, CityObject as CjCityObject, Extension as CjExtension,
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
-    MaterialObject as CjMaterial, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
-    ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
+    MaterialObject as CjMaterial, MaterialValues as CjMaterialValues, Metadata as CjMetadata,
+    PointOfContact as CjPointOfContact, ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
     TextType as CjTextType, TextureObject as CjTexture, TextureValues as CjTextureValues,
     Transform as CjTransform, WrapMode as CjWrapMode,
 };
@@ -620,11 +620,22 @@ pub(crate) fn decode_geometry(
     };
 
     // Decode material mappings if present
-    let material = if let Some(material_mappings) = g.material() {
+    let mut material = if let Some(material_mappings) = g.material() {
         decode_materials(&material_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
+    if is_solid_collection {
+        if let (Some(material_mappings), Some(material)) = (g.material(), material.as_mut()) {
+            for mapping in material_mappings.iter() {
+                if mapping.solids().is_some_and(|s| s.len() == 1) {
+                    if let Some(m) = material.get_mut(mapping.theme().unwrap_or("theme")) {
+                        m.values = m.values.take().map(|v| CjMaterialValues::Nested(vec![v]));
+                    }
+                }
+            }
+        }
+    }
 
     // Decode texture mappings if present
     let mut texture = if let Some(texture_mappings) = g.texture() {
diff --git a/src/rust/fcb_core/src/reader/geom_decoder.rs b/src/rust/fcb_core/src/reader/geom_decoder.rs
index 4799eb9..846d2db 100644
--- a/src/rust/fcb_core/src/reader/geom_decoder.rs
+++ b/src/rust/fcb_core/src/reader/geom_decoder.rs
@@ -470,8 +470,8 @@ pub(crate) fn decode_materials(
                         .collect();
 
                     CjMaterialValues::Indices(indices)
-                } else if solids.len() == 1 && solids[0] > 1 {
-                    // This is a single Solid with multiple shells (test case 3)
+                } else if solids.len() == 1 {
+                    // This is a single Solid with its shells (test case 3)
                     // We want a flat structure of shell values
                     let mut shell_values = Vec::new();
                     let mut vertex_index = 0;
-- 
2.43.0


From 4f9fedfc347e7917de159fe34eb93fc83dc7b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 03/47] fix: write attribute values their declared column
 cannot hold with a column of their own

They were stored as 0, false or a truncated number, or made the writer panic.
---
 src/rust/fcb_core/src/writer/attribute.rs  | 32 ++++++++++++++++++++++
 src/rust/fcb_core/src/writer/serializer.rs | 12 ++++++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 119b1c0..437d72a 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -59,6 +59,38 @@ fn guess_type(value: &Value) -> Option<ColumnType> {
     }
 }
 
+/// Whether a column of this type can hold the value. Null is never written, so it
+/// fits every column.
+pub(crate) fn fits_column(coltype: &ColumnType, val: &Value) -> bool {
+    let is_int_in = |min: i128, max: i128| {
+        let int = val
+            .as_i64()
+            .map(i128::from)
+            .or_else(|| val.as_u64().map(i128::from));
+        int.is_some_and(|i| min <= i && i <= max)
+    };
+    if val.is_null() {
+        return true;
+    }
+    match *coltype {
+        ColumnType::Bool => val.is_boolean(),
+        ColumnType::Byte => is_int_in(i8::MIN.into(), i8::MAX.into()),
+        ColumnType::UByte => is_int_in(0, u8::MAX.into()),
+        ColumnType::Short => is_int_in(i16::MIN.into(), i16::MAX.into()),
+        ColumnType::UShort => is_int_in(0, u16::MAX.into()),
+        ColumnType::Int => is_int_in(i32::MIN.into(), i32::MAX.into()),
+        ColumnType::UInt => is_int_in(0, u32::MAX.into()),
+        ColumnType::Long => is_int_in(i64::MIN.into(), i64::MAX.into()),
+        ColumnType::ULong => is_int_in(0, u64::MAX.into()),
+        ColumnType::Float => val.is_number(),
+        // integers up to 2^53 are exact in a double
+        ColumnType::Double => val.is_f64() || is_int_in(-(1 << 53), 1 << 53),
+        ColumnType::String | ColumnType::DateTime | ColumnType::Binary => val.is_string(),
+        ColumnType::Json => true,
+        _ => false,
+    }
+}
+
 pub(crate) fn attr_size(coltype: &ColumnType, colval: &Value) -> usize {
     match *coltype {
         ColumnType::Byte => size_of::<i8>(),
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 81800dd..6089678 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -1,4 +1,6 @@
-use crate::attribute::{encode_attributes_with_schema, AttributeSchema, AttributeSchemaMethods};
+use crate::attribute::{
+    encode_attributes_with_schema, fits_column, AttributeSchema, AttributeSchemaMethods,
+};
 use crate::fb::{
     Appearance, AppearanceArgs, CityFeature, CityFeatureArgs, CityObject, CityObjectArgs,
     CityObjectType, Geometry, GeometryArgs, GeometryType, Material, MaterialArgs, SemanticObject,
@@ -1039,8 +1041,12 @@ pub(super) fn to_fcb_attribute<'a>(
     Option<AttributeSchema>,
 ) {
     let mut is_own_schema = false;
-    for (key, _) in attr.as_object().unwrap().iter() {
-        if !schema.contains_key(key) {
+    for (key, val) in attr.as_object().unwrap().iter() {
+        // A value the declared column cannot hold needs a column of its own, too.
+        let fits = schema
+            .get(key)
+            .is_some_and(|(_, coltype)| fits_column(coltype, val));
+        if !fits {
             is_own_schema = true;
         }
     }
-- 
2.43.0


From bf677fa2d36614702912c44bcfe509188b294974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 04/47] fix: read Byte, UByte and Binary attributes instead of
 panicking

---
 src/rust/fcb_core/src/reader/deserializer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 2a6d420..30d12a1 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -294,6 +294,20 @@ pub fn decode_attributes(
                 );
                 offset += size_of::<u8>();
             }
+            ColumnType::Byte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
+                );
+                offset += size_of::<i8>();
+            }
+            ColumnType::UByte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
+                );
+                offset += size_of::<u8>();
+            }
             ColumnType::Short => {
                 map.insert(
                     column.name().to_string(),
@@ -344,7 +358,7 @@ pub fn decode_attributes(
                 }
                 offset += size_of::<f64>();
             }
-            ColumnType::String => {
+            ColumnType::String | ColumnType::Binary => {
                 let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
                 offset += size_of::<u32>();
                 let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-- 
2.43.0


From b042b30ba51baec1e1c5003742a31b48bf1d77b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 05/47] fix: widen a derived column type when a later value
 does not fit it

The first value alone decided the type, so later semantic surface attributes of
another type were stored as 0 or false, or made the writer panic.
---
 src/rust/fcb_core/src/writer/attribute.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 437d72a..81d9729 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -21,15 +21,29 @@ impl AttributeSchemaMethods for AttributeSchema {
 
         let map = attrs.as_object().unwrap();
         for (key, val) in map.iter() {
-            if !self.contains_key(key) && !val.is_null() {
-                if let Some(coltype) = guess_type(val) {
-                    self.insert(key.clone(), (self.len() as u16, coltype));
-                }
+            let Some(guessed) = guess_type(val) else {
+                continue;
+            };
+            if let Some((_, coltype)) = self.get_mut(key) {
+                *coltype = widen_type(*coltype, guessed, val);
+            } else {
+                self.insert(key.clone(), (self.len() as u16, guessed));
             }
         }
     }
 }
 
+/// The type of a column that so far had the given type and now meets `val`.
+fn widen_type(coltype: ColumnType, guessed: ColumnType, val: &Value) -> ColumnType {
+    match (coltype, guessed) {
+        (ColumnType::DateTime, ColumnType::String) => ColumnType::String,
+        _ if fits_column(&coltype, val) => coltype,
+        (ColumnType::ULong, ColumnType::Long) => ColumnType::Long,
+        (ColumnType::ULong | ColumnType::Long, ColumnType::Double) => ColumnType::Double,
+        _ => ColumnType::Json,
+    }
+}
+
 /// Naive type-guessing. You could use your schema or logic as in your Python code.
 fn guess_type(value: &Value) -> Option<ColumnType> {
     match value {
-- 
2.43.0


From c2787fcd62865c7e180b8efc9c2b14fde6d206c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 06/47] fix: report vertices outside the 32-bit range instead
 of panicking

---
 src/rust/fcb_core/src/writer/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5d0ea56..00d5b94 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -149,6 +149,15 @@ impl<'a> FcbWriter<'a> {
     ///
     /// A Result indicating success or failure of the operation
     pub fn add_feature(&mut self, feature: &'a CityJSONFeature) -> Result<()> {
+        // vertices are stored as 32-bit integers
+        let fits = |c: &i64| i32::try_from(*c).is_ok();
+        if let Some(v) = feature.vertices.iter().find(|v| !v.iter().all(fits)) {
+            return Err(error::Error::invalid_geometry(format!(
+                "vertex {v:?} of feature {} is out of range",
+                feature.id
+            ))
+            .into());
+        }
         if self.feat_writer.is_none() {
             self.feat_writer = Some(FeatureWriter::new(
                 feature,
-- 
2.43.0


From 31d1e65bd23648067246f25a69792a123a94fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 07/47] fix: keep geometry templates and appearance of a
 dataset without metadata

---
 src/rust/fcb_core/src/writer/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 6089678..4fe51ca 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -219,6 +219,9 @@ pub(super) fn to_fcb_header<'a>(
                 geographical_extent: geographical_extent_from_options.as_ref(),
                 version,
                 attribute_index,
+                appearance,
+                templates,
+                templates_vertices,
                 extensions,
                 ..Default::default()
             },
-- 
2.43.0


From 0beb0a74475d298edca4ad230d68c5e07fb11632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 08/47] fix: read back the appearance of the whole dataset

---
 src/rust/fcb_core/src/reader/deserializer.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 30d12a1..8d072d8 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -89,6 +89,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         title: header.title().map(|t| t.to_string()),
     });
 
+    cj.appearance = decode_appearance(header.appearance());
+
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
         (header.templates(), header.templates_vertices())
@@ -477,8 +479,14 @@ pub fn to_cj_feature(
         .vertices()
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
+    cj.appearance = decode_appearance(feature.appearance());
+
+    Ok(cj) // Return Result
+}
+
+pub(crate) fn decode_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
     // Decode appearance if present
-    if let Some(appearance) = feature.appearance() {
+    if let Some(appearance) = appearance {
         let mut cj_appearance = CjAppearance {
             materials: None,
             textures: None,
@@ -574,10 +582,10 @@ pub fn to_cj_feature(
             cj_appearance.default_theme_material = Some(default_theme_material.to_string());
         }
 
-        cj.appearance = Some(cj_appearance);
+        Some(cj_appearance)
+    } else {
+        None
     }
-
-    Ok(cj) // Return Result
 }
 
 pub(crate) fn decode_geometry(
-- 
2.43.0


From bc86ff2dd89b7e5db650448b406dc94969e0c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 09/47] fix: report no geographical extent when the dataset has
 none

---
 src/rust/fcb_core/src/reader/deserializer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 8d072d8..171f509 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -72,8 +72,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
                 extent.max().y(),
                 extent.max().z(),
             ]
-        })
-        .unwrap_or_default();
+        });
 
     let point_of_contact = match header.poc_contact_name() {
         Some(_) => Some(to_cj_point_of_contact(header)?),
@@ -81,7 +80,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     };
 
     cj.metadata = Some(CjMetadata {
-        geographical_extent: Some(geographical_extent),
+        geographical_extent,
         identifier: header.identifier().map(|i| i.to_string()),
         point_of_contact,
         reference_date: header.reference_date().map(|r| r.to_string()),
-- 
2.43.0


From 5589022695b05929fc79eab8d87d0e78b8adba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 10/47] fix: keep reference system codes that are not integers

---
 src/rust/fcb_core/src/reader/deserializer.rs | 3 ++-
 src/rust/fcb_core/src/writer/serializer.rs   | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 171f509..0426302 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -55,7 +55,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
             None,
             rs.authority().unwrap_or_default().to_string(),
             rs.version().to_string(),
-            rs.code().to_string(),
+            rs.code_string()
+                .map_or_else(|| rs.code().to_string(), |c| c.to_string()),
         )
     });
     cj.version = header.version().to_string();
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 4fe51ca..d626764 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -284,7 +284,12 @@ pub(super) fn to_reference_system<'a>(
         0
     });
 
-    let code_string = None; // TODO: implement code_string
+    // codes that are not integers, like CRS84
+    let code_string = if code.to_string() == ref_system.code {
+        None
+    } else {
+        Some(fbb.create_string(&ref_system.code))
+    };
 
     ReferenceSystem::create(
         fbb,
-- 
2.43.0


From df8cf8b8205bcb3be5f6a89c76e8c253687ffcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 11/47] fix: record the number of features actually written in
 the header

---
 src/rust/fcb_core/src/writer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 00d5b94..bbac84a 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -270,6 +270,7 @@ impl<'a> FcbWriter<'a> {
         }
 
         // write header with attribute indices metadata
+        self.header_writer.header_options.feature_count = self.feat_offsets.len() as u64;
         self.header_writer.attribute_indices_info = Some(attr_index_info);
         let header_buf = self.header_writer.finish_to_header()?;
         out.write_all(&header_buf)?;
-- 
2.43.0


From b6314d94c9cfdb9ff1592557cf9db2bc0d6d6eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 12/47] fix: do not panic in debug builds when a remote spatial
 query selects the last feature of a larger index

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index afdbf5c..dff08fd 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -980,7 +980,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1089,7 +1092,10 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
+                                debug_assert_eq!(
+                                    node_range.nodes.start + node_pos + 1,
+                                    level_bounds[0].end
+                                );
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1228,7 +1234,6 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 }
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
                                 HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 }
-- 
2.43.0


From 663d2a923e65fe30513fced7ce2c6f8a69e2d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 13/47] fix: read complete payload entries of remote attribute
 indices, and nothing past their end

A prefetch or batch request of duplicate-key payload could reach past the
end of the file (the server then answers 416 and the query fails), and
entries longer than the guessed size were dropped from the result.
---
 src/rust/fcb_core/src/static_btree/stree.rs | 59 +++++++++++++--------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 239a5de..02b3b65 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -104,13 +104,18 @@ async fn read_http_payload_data<T: AsyncHttpRangeClient>(
     client: &mut AsyncBufferedHttpRangeClient<T>,
     offset: usize,
 ) -> Result<PayloadEntry> {
-    let temp_buffered_count_bytes_size = DEFAULT_MIN_REQ_SIZE; //This is hueristic, we don't know the size of the payload. TODO: find a better way
-
     debug!("sending request to fetch payload, offset {offset:?}");
 
-    let payload_data = client
-        .get_range(offset, temp_buffered_count_bytes_size)
-        .await?;
+    // The entry starts with the number of its offsets, which tells its size
+    let count_size = size_of::<u32>();
+    let count_data = client.get_range(offset, count_size).await?;
+    let count =
+        u32::from_le_bytes(count_data.try_into().map_err(|_| {
+            Error::IoError(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))
+        })?);
+    let entry_size = count_size + count as usize * size_of::<Offset>();
+
+    let payload_data = client.get_range(offset, entry_size).await?;
     let mut buf = Cursor::new(payload_data);
 
     let (payload_entry, _) = PayloadEntry::deserialize(&mut buf)?;
@@ -186,6 +191,11 @@ pub async fn prefetch_payload<T: AsyncHttpRangeClient>(
 
     let mut cache = PayloadCache::new();
 
+    // There may be nothing to prefetch
+    if chunk_size == 0 {
+        return Ok(cache);
+    }
+
     // Fetch the chunk of payload data
     let payload_data = client.get_range(payload_section_start, chunk_size).await?;
 
@@ -329,31 +339,37 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
     for (start, end) in offset_ranges {
         // Calculate fetch size to include the complete payload entries
         // Add a margin to account for variable-sized payload entries
-        let fetch_size = (end - start) + DEFAULT_MIN_REQ_SIZE;
+        // The payload section ends before the features begin
+        let fetch_size =
+            ((end - start) + DEFAULT_MIN_REQ_SIZE).min(feature_begin.saturating_sub(start));
 
         let payload_data = client.get_range(start, fetch_size).await?;
 
         // Process each requested offset within this range
+        let mut incomplete = Vec::new();
         for &offset in payload_offsets_to_fetch
             .iter()
             .filter(|&&o| o >= start && o <= end)
         {
             let relative_offset = offset - start;
 
-            // Make sure we have enough data
-            if relative_offset < payload_data.len() {
-                let mut buf = Cursor::new(&payload_data[relative_offset..]);
-                match PayloadEntry::deserialize(&mut buf) {
-                    Ok((entry, _)) => {
-                        fetched_payloads.insert(offset, entry);
-                    }
-                    Err(e) => {
-                        debug!("error deserializing payload at offset {}: {:?}", offset, e);
-                        // Continue with other offsets on error
-                    }
+            let mut buf = Cursor::new(payload_data.get(relative_offset..).unwrap_or_default());
+            match PayloadEntry::deserialize(&mut buf) {
+                Ok((entry, _)) => {
+                    fetched_payloads.insert(offset, entry);
+                }
+                Err(e) => {
+                    debug!("incomplete payload at offset {}: {:?}", offset, e);
+                    incomplete.push(offset);
                 }
             }
         }
+
+        // Entries that reach beyond what was fetched are fetched on their own
+        for offset in incomplete {
+            let entry = read_http_payload_data(client, offset).await?;
+            fetched_payloads.insert(offset, entry);
+        }
     }
 
     // Process the fetched payloads and add to results
@@ -1240,7 +1256,8 @@ impl<K: Key> Stree<K> {
         let payload_data_start = index_begin + Stree::<K>::tree_size(num_all_items);
 
         // Calculate optimal payload prefetch size based on tree characteristics
-        let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, None);
+        let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, None)
+            .min(feature_begin.saturating_sub(payload_data_start));
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
@@ -1577,7 +1594,8 @@ impl<K: Key> Stree<K> {
 
         // Calculate optimal payload prefetch size based on tree characteristics
         // For range queries, we might need to access more payload entries, so use a higher prefetch factor
-        let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, Some(1.5));
+        let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, Some(1.5))
+            .min(feature_begin.saturating_sub(payload_data_start));
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
         // Prefetch a chunk of payload data
@@ -1644,11 +1662,8 @@ impl<K: Key> Stree<K> {
                 if item.key >= lower && item.key <= upper {
                     let off = item.offset;
 
-                    println!("off: {:?}", off);
-
                     if (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        println!("rel: {:?}", rel);
                         // Add as indirect reference to be resolved in batch
                         payload_refs.push(PayloadRef::Indirect(rel));
                     } else {
-- 
2.43.0


From 8de0d004fe7ebc65d4a3d395d620bb988e795302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 14/47] fix: find keys equal to an internal key or to the
 padding of an attribute index

A range whose upper bound is an internal key of the tree stopped one node
early, and the largest key of its type led past the end of the tree.
---
 .../fcb_core/src/static_btree/query/http.rs   |   2 +-
 .../fcb_core/src/static_btree/query/memory.rs |   7 +-
 src/rust/fcb_core/src/static_btree/stree.rs   | 306 ++++++++++--------
 3 files changed, 175 insertions(+), 140 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 83fcb2f..eddb466 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -82,7 +82,7 @@ impl<K: Key> HttpIndex<K> {
             }
         };
 
-        let items: Vec<HttpSearchResultItem> = Stree::http_stream_find_range(
+        let items: Vec<HttpSearchResultItem> = Stree::http_stream_find_range_inclusive(
             client,
             self.index_begin,
             self.feature_begin,
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0f6759d..0e32d36 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -76,12 +76,12 @@ impl<K: Key> SearchIndex<K> for MemoryIndex<K> {
             }
             (Some(start_key), None) => {
                 // Find all items >= start_key
-                let results = self.stree.find_range(start_key, K::max_value())?;
+                let results = self.stree.find_range_inclusive(start_key, K::max_value())?;
                 Ok(results.into_iter().map(|item| item.offset as u64).collect())
             }
             (None, Some(end_key)) => {
                 // Find all items <= end_key
-                let results = self.stree.find_range(K::min_value(), end_key)?;
+                let results = self.stree.find_range_inclusive(K::min_value(), end_key)?;
                 Ok(results.into_iter().map(|item| item.offset as u64).collect())
             }
             (None, None) => Err(Error::QueryError(
@@ -119,8 +119,7 @@ macro_rules! impl_typed_search_index {
                     Operator::Eq => self.find_exact(key),
                     Operator::Ne => {
                         let min = <$key_type>::min_value();
-                        let max = <$key_type>::max_value();
-                        let all_items = self.find_range(Some(min), Some(max))?;
+                        let all_items = self.find_range(Some(min), None)?;
                         let matching_items = self.find_exact(key)?;
                         Ok(all_items
                             .into_iter()
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 02b3b65..db23d37 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -49,6 +49,46 @@ impl<K: Key> NodeItem<K> {
     }
 }
 
+/// Index of the first item of the child node in which `key` belongs.
+///
+/// The key of an internal item is the smallest key of the node to the right of its own child, so
+/// a key equal to it belongs to the right. The last item of a level may have no such right
+/// sibling: it is padded with the largest possible key, and only its own child is left to visit.
+fn child_node<K: Key>(
+    node_items: &[NodeItem<K>],
+    key: &K,
+    node_size: usize,
+    children: &Range<usize>,
+) -> Result<usize> {
+    child_node_at(node_items, key, node_size, children, true)
+}
+
+/// [`child_node`], with the side a key equal to an internal key belongs to.
+fn child_node_at<K: Key>(
+    node_items: &[NodeItem<K>],
+    key: &K,
+    node_size: usize,
+    children: &Range<usize>,
+    equal_right: bool,
+) -> Result<usize> {
+    let (item, right) = match node_items.binary_search_by(|item| item.key.cmp(key)) {
+        Ok(index) => (&node_items[index], equal_right),
+        Err(index) if index == node_items.len() => (&node_items[index - 1], true),
+        Err(index) => (&node_items[index], false),
+    };
+    let own = item.offset as usize;
+    if !children.contains(&own) {
+        return Err(Error::InvalidFormat(format!(
+            "child node {own} is outside its level {children:?}"
+        )));
+    }
+    if right && own + node_size < children.end {
+        Ok(own + node_size)
+    } else {
+        Ok(own)
+    }
+}
+
 /// Read full capacity of vec from data stream
 fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
     node_items.clear();
@@ -775,25 +815,9 @@ impl<K: Key> Stree<K> {
             // binary search for the search_entry. If found, delve into the child node. If search key is less than the first item, delve into the leftmost child node. If search key is greater than the last item, delve into the rightmost child node.
 
             if !is_leaf_node {
-                let search_result =
-                    node_items.binary_search_by(|item| item.key.cmp(&search_entry.key));
-                match search_result {
-                    Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
-                    }
-                    Err(index) => {
-                        if index == 0 {
-                            queue.push_back((node_items[0].offset as usize, level - 1));
-                        } else if index == node_items.len() {
-                            queue.push_back((
-                                node_items[node_items.len() - 1].offset as usize + node_size,
-                                level - 1,
-                            ));
-                        } else {
-                            queue.push_back((node_items[index].offset as usize, level - 1));
-                        }
-                    }
-                }
+                let children = &self.level_bounds[level - 1];
+                let child = child_node(node_items, &search_entry.key, node_size, children)?;
+                queue.push_back((child, level - 1));
             }
 
             if is_leaf_node {
@@ -872,25 +896,9 @@ impl<K: Key> Stree<K> {
             // binary search for the search_entry. If found, delve into the child node. If search key is less than the first item, delve into the leftmost child node. If search key is greater than the last item, delve into the rightmost child node.
 
             if !is_leaf_node {
-                let search_result =
-                    node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
-                match search_result {
-                    Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
-                    }
-                    Err(index) => {
-                        if index == 0 {
-                            queue.push_back((node_items[0].offset as usize, level - 1));
-                        } else if index == node_items.len() {
-                            queue.push_back((
-                                node_items[node_items.len() - 1].offset as usize + node_size,
-                                level - 1,
-                            ));
-                        } else {
-                            queue.push_back((node_items[index].offset as usize, level - 1));
-                        }
-                    }
-                }
+                let children = &level_bounds[level - 1];
+                let child = child_node(&node_items, &search_entry.key, node_size, children)?;
+                queue.push_back((child, level - 1));
             }
 
             if is_leaf_node {
@@ -924,17 +932,33 @@ impl<K: Key> Stree<K> {
         Ok(results)
     }
 
-    /// Finds all items with keys in the specified range [lower, upper]
+    /// Finds the items with keys in the specified range [lower, upper]
     ///
-    /// This implementation uses a partition-based approach for efficient range searches:
-    /// 1. Find partition points for both the lower and upper bounds
-    /// 2. Process only the relevant leaf nodes between these partition points
-    /// 3. Filter items within those leaf nodes by the actual range bounds
+    /// An upper bound equal to an internal key of the tree is left out of the result; use
+    /// [`Stree::find_range_inclusive`] for a range that always includes its upper bound.
     ///
     /// Special cases:
     /// - If lower > upper, returns an empty result (invalid range)
     /// - If lower == upper, delegates to find_exact for consistent behavior
     pub fn find_range(&self, lower: K, upper: K) -> Result<Vec<SearchResultItem>> {
+        self.find_range_at(lower, upper, false)
+    }
+
+    /// Finds all items with keys in the specified range [lower, upper], both included
+    pub fn find_range_inclusive(&self, lower: K, upper: K) -> Result<Vec<SearchResultItem>> {
+        self.find_range_at(lower, upper, true)
+    }
+
+    /// This implementation uses a partition-based approach for efficient range searches:
+    /// 1. Find partition points for both the lower and upper bounds
+    /// 2. Process only the relevant leaf nodes between these partition points
+    /// 3. Filter items within those leaf nodes by the actual range bounds
+    fn find_range_at(
+        &self,
+        lower: K,
+        upper: K,
+        equal_right: bool,
+    ) -> Result<Vec<SearchResultItem>> {
         let leaf_nodes_offset = self
             .level_bounds
             .first()
@@ -956,7 +980,7 @@ impl<K: Key> Stree<K> {
 
         // Find partition points for lower and upper bounds
         let lower_idx = self.find_partition(lower.clone())?;
-        let upper_idx = self.find_partition(upper.clone())?;
+        let upper_idx = self.find_partition_at(&upper, equal_right)?;
 
         // Get the leaf level bounds
         let leaf_level = 0;
@@ -1098,6 +1122,10 @@ impl<K: Key> Stree<K> {
     /// For range queries, we use this function to find the start and end points
     /// in the leaf level for a given range, then scan through just those leaf nodes.
     pub fn find_partition(&self, key: K) -> Result<usize> {
+        self.find_partition_at(&key, true)
+    }
+
+    fn find_partition_at(&self, key: &K, equal_right: bool) -> Result<usize> {
         let node_size = self.branching_factor as usize - 1;
         let mut node_index = 0;
 
@@ -1112,29 +1140,13 @@ impl<K: Key> Stree<K> {
                 continue;
             }
             // Find the child node to traverse next using binary search
-            match node_items.binary_search_by(|item| item.key.cmp(&key)) {
-                Ok(index) => {
-                    // Exact match found, go to the corresponding child
-                    // For an exact match, we go to the child node pointed to by this entry
-                    node_index = node_items[index].offset as usize;
-                }
-                Err(index) => {
-                    // No exact match, determine appropriate child based on comparison
-                    if index == 0 {
-                        // Key is smaller than all keys in this node
-                        // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
-                    } else if index >= node_items.len() {
-                        // Key is larger than all keys in this node
-                        // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
-                    } else {
-                        // Key is between keys in this node
-                        // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
-                    }
-                }
-            }
+            node_index = child_node_at(
+                node_items,
+                key,
+                node_size,
+                &self.level_bounds[level - 1],
+                equal_right,
+            )?;
         }
 
         // At this point, node_index is the position in the leaf level
@@ -1167,29 +1179,7 @@ impl<K: Key> Stree<K> {
                 continue;
             }
             // Find the child node to traverse next using binary search
-            match node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&key)) {
-                Ok(index) => {
-                    // Exact match found, go to the corresponding child
-                    // For an exact match, we go to the child node pointed to by this entry
-                    node_index = node_items[index].offset as usize;
-                }
-                Err(index) => {
-                    // No exact match, determine appropriate child based on comparison
-                    if index == 0 {
-                        // Key is smaller than all keys in this node
-                        // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
-                    } else if index >= node_items.len() {
-                        // Key is larger than all keys in this node
-                        // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
-                    } else {
-                        // Key is between keys in this node
-                        // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
-                    }
-                }
-            }
+            node_index = child_node(&node_items, &key, node_size, &level_bounds[level - 1])?;
         }
 
         data.seek(SeekFrom::Start(start_position))?;
@@ -1291,25 +1281,14 @@ impl<K: Key> Stree<K> {
                     Err(_) => continue,
                 }
             } else {
-                let result = node_items
-                    .binary_search_by(|item: &NodeItem<K>| item.key.cmp(&search_entry.key));
-                let mut _offset = 0;
-                match result {
-                    Ok(idx) => {
-                        _offset = node_items[idx].offset as usize + node_size;
-                    }
-                    Err(idx) => {
-                        if idx == 0 {
-                            _offset = node_items[0].offset as usize;
-                        } else if idx == node_items.len() {
-                            _offset = node_items[node_items.len() - 1].offset as usize + node_size;
-                        } else {
-                            _offset = node_items[idx].offset as usize;
-                        }
-                    }
-                }
                 let children_level = node_range.level - 1;
-                let mut children_nodes = _offset..(_offset + node_size);
+                let offset = child_node(
+                    &node_items,
+                    &search_entry.key,
+                    node_size,
+                    &level_bounds[children_level],
+                )?;
+                let mut children_nodes = offset..(offset + node_size);
                 if children_level == 0 {
                     // These children are leaf nodes.
                     //
@@ -1393,6 +1372,26 @@ impl<K: Key> Stree<K> {
         branching_factor: u16,
         key: K,
         _combine_request_threshold: usize,
+    ) -> Result<usize> {
+        Self::http_stream_find_partition_at(
+            client,
+            index_begin,
+            num_items,
+            branching_factor,
+            &key,
+            true,
+        )
+        .await
+    }
+
+    #[cfg(feature = "http")]
+    async fn http_stream_find_partition_at<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        key: &K,
+        equal_right: bool,
     ) -> Result<usize> {
         if num_items == 0 {
             return Ok(0);
@@ -1424,30 +1423,13 @@ impl<K: Key> Stree<K> {
             }
 
             // Find the child node to traverse next using binary search
-            match node_items.binary_search_by(|item: &NodeItem<K>| item.key.cmp(&key)) {
-                Ok(index) => {
-                    // Exact match found, go to the corresponding child
-                    node_index = node_items[index].offset as usize;
-                }
-
-                Err(index) => {
-                    let old_node_index = node_index;
-                    // No exact match, determine appropriate child based on comparison
-                    if index == 0 {
-                        // Key is smaller than all keys in this node
-                        // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
-                    } else if index >= node_items.len() {
-                        // Key is larger than all keys in this node
-                        // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
-                    } else {
-                        // Key is between keys in this node
-                        // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
-                    }
-                }
-            }
+            node_index = child_node_at(
+                &node_items,
+                key,
+                node_size,
+                &level_bounds[level - 1],
+                equal_right,
+            )?;
         }
 
         // At this point, node_index is the position in the leaf level
@@ -1559,6 +1541,60 @@ impl<K: Key> Stree<K> {
         lower: K,
         upper: K,
         combine_request_threshold: usize,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Self::http_stream_find_range_at(
+            client,
+            index_begin,
+            feature_begin,
+            num_items,
+            branching_factor,
+            lower,
+            upper,
+            combine_request_threshold,
+            false,
+        )
+        .await
+    }
+
+    /// Finds all items with keys in the specified range [lower, upper], both included
+    #[cfg(feature = "http")]
+    #[allow(clippy::too_many_arguments)]
+    pub async fn http_stream_find_range_inclusive<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        feature_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+        combine_request_threshold: usize,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Self::http_stream_find_range_at(
+            client,
+            index_begin,
+            feature_begin,
+            num_items,
+            branching_factor,
+            lower,
+            upper,
+            combine_request_threshold,
+            true,
+        )
+        .await
+    }
+
+    #[cfg(feature = "http")]
+    #[allow(clippy::too_many_arguments)]
+    async fn http_stream_find_range_at<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        feature_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        lower: K,
+        upper: K,
+        combine_request_threshold: usize,
+        equal_right: bool,
     ) -> Result<Vec<HttpSearchResultItem>> {
         debug!("http_stream_find_range starts: index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, lower: {lower:?}, upper: {upper:?}");
 
@@ -1611,13 +1647,13 @@ impl<K: Key> Stree<K> {
             .expect("RTree has at least one level when node_size >= 2 and num_items > 0");
 
         // Find partition points for lower and upper bounds to determine the range to scan
-        let upper_idx = Self::http_stream_find_partition(
+        let upper_idx = Self::http_stream_find_partition_at(
             client,
             index_begin,
             num_items,
             branching_factor,
-            upper.clone(),
-            combine_request_threshold,
+            &upper,
+            equal_right,
         )
         .await?;
 
-- 
2.43.0


From 4a7a9ba2a9952df3f98aa0c21d17d9a92914ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 15/47] fix: let dates before 1970 and after 9999 take part in
 range queries

---
 src/rust/fcb_core/src/static_btree/key.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b1c20a..4a74400 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -1,6 +1,6 @@
 use crate::static_btree::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use ordered_float::OrderedFloat; // Import OrderedFloat
 use std::fmt::Debug;
 use std::io::{Read, Write};
@@ -158,10 +158,7 @@ impl Max for bool {
 // Implement Max for DateTime<Utc>
 impl Max for DateTime<Utc> {
     fn max_value() -> Self {
-        // A date far in the future (year 9999)
-        Utc.timestamp_opt(253402300799, 999_999_999)
-            .single()
-            .unwrap()
+        DateTime::<Utc>::MAX_UTC
     }
 }
 
@@ -241,7 +238,7 @@ impl Min for bool {
 
 impl Min for DateTime<Utc> {
     fn min_value() -> Self {
-        Utc.timestamp_opt(0, 0).single().unwrap()
+        DateTime::<Utc>::MIN_UTC
     }
 }
 
-- 
2.43.0


From 35cf188d9e6134087be05dae74ec2680d595151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 16/47] fix: report write errors of boolean and string index
 keys

---
 src/rust/fcb_core/src/static_btree/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 4a74400..47d30f7 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -372,7 +372,7 @@ impl Key for bool {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&[*self as u8]).map_err(Error::from);
+        writer.write_all(&[*self as u8])?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
@@ -445,7 +445,7 @@ impl<const N: usize> Key for FixedStringKey<N> {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&self.0).map_err(Error::from);
+        writer.write_all(&self.0)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
-- 
2.43.0


From 2ac20b01b09c53297d6e295796bc8ccff6fc3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 17/47] fix: list a feature once in an attribute query, and
 keep it when one of its objects matches

A feature with several objects has several values of an attribute. It was
listed once for each matching value, and left out of Gt, Lt and Ne queries
when another of its values equalled the key.
---
 src/rust/fcb_core/src/http_reader/mod.rs      | 11 +++++-----
 src/rust/fcb_core/src/reader/attr_query.rs    |  5 ++++-
 .../fcb_core/src/static_btree/query/http.rs   | 20 ++++++++++---------
 .../fcb_core/src/static_btree/query/memory.rs | 16 +++++++--------
 .../fcb_core/src/static_btree/query/stream.rs | 16 +++++++--------
 .../fcb_core/src/static_btree/query/types.rs  | 12 +++++++++++
 6 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a9deae9..37ab889 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -280,24 +280,23 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             .query(&mut self.client, &query.conditions)
             .await?;
 
-        let count = result.len();
-
-        // println!("result: {:?}", result);
-
-        let http_ranges: Vec<HttpRange> = result
+        let mut http_ranges: Vec<HttpRange> = result
             .into_iter()
             .map(|item| match item.range {
                 AttrHttpRange::Range(range) => HttpRange::Range(range.start..range.end),
                 AttrHttpRange::RangeFrom(range) => HttpRange::RangeFrom(range.start..),
             })
             .collect();
+        // A feature with several matching objects is found once for each
+        http_ranges.sort_by_key(|range| range.start());
+        http_ranges.dedup_by_key(|range| range.start());
+        let count = http_ranges.len();
 
         trace!(
             "completed: select_attr_query via http reader, matched features: {}",
             count
         );
 
-        println!("http_ranges: {:?}", http_ranges);
         Ok(AsyncFeatureIter {
             client: self.client,
             fbs: self.fbs,
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ebf8bd4..950034d 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -386,9 +386,10 @@ impl<R: Read + Seek> FcbReader<R> {
             }
         };
 
-        // Sort the results
+        // Sort the results. A feature with several matching objects is found once for each.
         let mut result_vec: Vec<u64> = result.into_iter().collect();
         result_vec.sort();
+        result_vec.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
@@ -469,7 +470,9 @@ impl<R: Read> FcbReader<R> {
         // Build and execute the query
         let query_obj = build_query(&query);
         let mut result = multi_index.query(&query_obj.conditions)?;
+        // A feature with several matching objects is found once for each
         result.sort();
+        result.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index eddb466..b1c36d9 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{remove_matches, Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
 use async_trait::async_trait;
@@ -153,7 +153,7 @@ macro_rules! impl_typed_http_search_index {
                 let results = match condition.operator {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
-                        let all = self
+                        let mut v = self
                             .find_range(
                                 client,
                                 Some(<$key_type>::min_value()),
@@ -161,18 +161,19 @@ macro_rules! impl_typed_http_search_index {
                             )
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        remove_matches(&mut v, &eq);
+                        v
                     }
                     Operator::Gt => {
                         let mut v = self.find_range(client, Some(key.clone()), None).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
+                        remove_matches(&mut v, &eq);
                         v
                     }
                     Operator::Lt => {
                         let mut v = self.find_range(client, None, Some(key.clone())).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
+                        remove_matches(&mut v, &eq);
                         v
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
@@ -206,7 +207,7 @@ macro_rules! impl_typed_http_search_index {
                 let results = match condition.operator {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
-                        let all = self
+                        let mut v = self
                             .find_range(
                                 client,
                                 Some(<$key_type>::min_value()),
@@ -214,18 +215,19 @@ macro_rules! impl_typed_http_search_index {
                             )
                             .await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        remove_matches(&mut v, &eq);
+                        v
                     }
                     Operator::Gt => {
                         let mut v = self.find_range(client, Some(key.clone()), None).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
+                        remove_matches(&mut v, &eq);
                         v
                     }
                     Operator::Lt => {
                         let mut v = self.find_range(client, None, Some(key.clone())).await?;
                         let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
+                        remove_matches(&mut v, &eq);
                         v
                     }
                     Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0e32d36..3461821 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Write};
 use crate::static_btree::entry::Entry;
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, SearchIndex};
+use crate::static_btree::query::types::{remove_matches, Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
 use super::types::QueryCondition;
@@ -119,23 +119,21 @@ macro_rules! impl_typed_search_index {
                     Operator::Eq => self.find_exact(key),
                     Operator::Ne => {
                         let min = <$key_type>::min_value();
-                        let all_items = self.find_range(Some(min), None)?;
-                        let matching_items = self.find_exact(key)?;
-                        Ok(all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect())
+                        let mut results = self.find_range(Some(min), None)?;
+                        let exact_matches = self.find_exact(key)?;
+                        remove_matches(&mut results, &exact_matches);
+                        Ok(results)
                     }
                     Operator::Gt => {
                         let mut results = self.find_range(Some(key.clone()), None)?;
                         let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        remove_matches(&mut results, &exact_matches);
                         Ok(results)
                     }
                     Operator::Lt => {
                         let mut results = self.find_range(None, Some(key.clone()))?;
                         let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        remove_matches(&mut results, &exact_matches);
                         Ok(results)
                     }
                     Operator::Ge => self.find_range(Some(key), None),
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0628140..b035a51 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -9,7 +9,7 @@ use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
-use crate::static_btree::query::types::{Operator, QueryCondition};
+use crate::static_btree::query::types::{remove_matches, Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
 /// Stream-based index for file access
@@ -161,29 +161,27 @@ macro_rules! impl_typed_stream_search_index {
                 let items = match condition.operator {
                     Operator::Eq => self.find_exact_with_reader(reader, key)?,
                     Operator::Ne => {
-                        let all_items = self.find_range_with_reader(
+                        let mut results = self.find_range_with_reader(
                             reader,
                             Some(<$key_type>::min_value()),
                             Some(<$key_type>::max_value()),
                         )?;
-                        let matching_items = self.find_exact_with_reader(reader, key.clone())?;
-                        all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect()
+                        let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
+                        remove_matches(&mut results, &exact_matches);
+                        results
                     }
                     Operator::Gt => {
                         let mut results =
                             self.find_range_with_reader(reader, Some(key.clone()), None)?;
                         let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        remove_matches(&mut results, &exact_matches);
                         results
                     }
                     Operator::Lt => {
                         let mut results =
                             self.find_range_with_reader(reader, None, Some(key.clone()))?;
                         let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        remove_matches(&mut results, &exact_matches);
                         results
                     }
                     Operator::Ge => self.find_range_with_reader(reader, Some(key), None)?,
diff --git a/src/rust/fcb_core/src/static_btree/query/types.rs b/src/rust/fcb_core/src/static_btree/query/types.rs
index 51921c1..b1ae28d 100644
--- a/src/rust/fcb_core/src/static_btree/query/types.rs
+++ b/src/rust/fcb_core/src/static_btree/query/types.rs
@@ -65,6 +65,18 @@ impl Default for Query {
     }
 }
 
+/// Removes one occurrence of each of `matches` from `items`.
+///
+/// An item found for several keys (a feature with several objects) occurs once for each of them,
+/// and stays as long as one of them is not among `matches`.
+pub(super) fn remove_matches<T: PartialEq>(items: &mut Vec<T>, matches: &[T]) {
+    for m in matches {
+        if let Some(position) = items.iter().position(|item| item == m) {
+            items.remove(position);
+        }
+    }
+}
+
 /// Core trait for index searching capabilities
 pub trait SearchIndex<K: Key> {
     /// Find exact matches for a key
-- 
2.43.0


From 9200258b1b57a9f4e74ba63e4967c12edfbb47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 18/47] fix: index only attribute values that exist, and those
 of Byte, UByte, Short and UShort columns

A null, a value its column cannot hold and an unparsable date were indexed as
0, false, "" or 1970, so queries selected features without such a value.
Values of the four small integer types were not indexed at all, and an
index without values made the writer panic.
---
 src/rust/fcb_core/src/writer/attr_index.rs |   8 +-
 src/rust/fcb_core/src/writer/attribute.rs  | 147 +++++++++------------
 2 files changed, 67 insertions(+), 88 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f8b70ca..1e95389 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -36,6 +36,12 @@ where
         }
     }
 
+    if entries.is_empty() {
+        return Err(Error::IndexCreationError(
+            "no feature has a value to index".to_string(),
+        ));
+    }
+
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
@@ -237,7 +243,7 @@ pub(super) fn build_attribute_index_for_attr(
             },
             branching_factor,
         ),
-        ColumnType::Byte => build_index_generic::<u8, _>(
+        ColumnType::Byte => build_index_generic::<i8, _>(
             *schema_index,
             attribute_entries,
             |entry| {
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 81d9729..9058931 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -252,7 +252,7 @@ pub enum AttributeIndexEntry {
     DateTime { index: u16, val: DateTime<Utc> },
     Short { index: u16, val: i16 },
     UShort { index: u16, val: u16 },
-    Byte { index: u16, val: u8 },
+    Byte { index: u16, val: i8 },
     UByte { index: u16, val: u8 },
     Json { index: u16, val: String },
     Binary { index: u16, val: String },
@@ -288,94 +288,67 @@ pub fn attribute_to_index_entries(
 
     let map = attr.as_object().unwrap();
     for attr in indexing_attr {
-        let val: &Value = match map.get(attr) {
-            Some(val) => val,
-            None => {
-                println!("Attribute {} not found in schema", attr);
-                continue;
-            }
+        let (Some(val), Some((index, coltype))) = (map.get(attr), schema.get(attr)) else {
+            continue;
         };
-
-        let index_coltype = schema.get(attr);
-        if let Some((index, coltype)) = index_coltype {
-            match *coltype {
-                ColumnType::Bool => {
-                    let b = val.as_bool().unwrap_or(false);
-                    index_entries.push(AttributeIndexEntry::Bool {
-                        index: *index,
-                        val: b,
-                    });
-                }
-                ColumnType::Int => {
-                    let i = val.as_i64().unwrap_or(0);
-                    index_entries.push(AttributeIndexEntry::Int {
-                        index: *index,
-                        val: i as i32,
-                    });
-                }
-                ColumnType::UInt => {
-                    let i = val.as_u64().unwrap_or(0);
-                    index_entries.push(AttributeIndexEntry::UInt {
-                        index: *index,
-                        val: i as u32,
-                    });
-                }
-                ColumnType::Long => {
-                    let i = val.as_i64().unwrap_or(0);
-                    index_entries.push(AttributeIndexEntry::Long {
-                        index: *index,
-                        val: i as i64,
-                    });
-                }
-                ColumnType::ULong => {
-                    let i = val.as_u64().unwrap_or(0);
-                    index_entries.push(AttributeIndexEntry::ULong {
-                        index: *index,
-                        val: i as u64,
-                    });
-                }
-                ColumnType::Float => {
-                    let f = val.as_f64().unwrap_or(0.0);
-                    index_entries.push(AttributeIndexEntry::Float {
-                        index: *index,
-                        val: f as f32,
-                    });
-                }
-                ColumnType::Double => {
-                    let f = val.as_f64().unwrap_or(0.0);
-                    index_entries.push(AttributeIndexEntry::Double {
-                        index: *index,
-                        val: f,
-                    });
-                }
-                ColumnType::String => {
-                    index_entries.push(AttributeIndexEntry::String {
-                        index: *index,
-                        val: val.as_str().unwrap_or("").to_string(),
-                    });
-                }
-                ColumnType::DateTime => {
-                    let dt = match chrono::DateTime::parse_from_rfc3339(val.as_str().unwrap_or(""))
-                    {
-                        Ok(dt) => dt.to_utc(),
-                        Err(e) => {
-                            eprintln!("Failed to parse DateTime: {}", e);
-                            // Choose whether to skip, default, or handle differently
-                            // For example, default to 1970-01-01:
-                            DateTime::<Utc>::from_timestamp(0, 0).unwrap()
-                        }
-                    };
-                    index_entries.push(AttributeIndexEntry::DateTime {
-                        index: *index,
-                        val: dt,
-                    });
-                }
-                _ => {
-                    //Byte, Ubyte,
-                    println!("Attribute {} is not supported for indexing", attr);
-                }
-            }
+        // null, and a value the column cannot hold, has no key
+        if val.is_null() || !fits_column(coltype, val) {
+            continue;
         }
+        let index = *index;
+        let int = val.as_i64();
+        let uint = val.as_u64();
+        let entry = match *coltype {
+            ColumnType::Bool => val
+                .as_bool()
+                .map(|val| AttributeIndexEntry::Bool { index, val }),
+            ColumnType::Byte => int.map(|i| AttributeIndexEntry::Byte {
+                index,
+                val: i as i8,
+            }),
+            ColumnType::UByte => uint.map(|i| AttributeIndexEntry::UByte {
+                index,
+                val: i as u8,
+            }),
+            ColumnType::Short => int.map(|i| AttributeIndexEntry::Short {
+                index,
+                val: i as i16,
+            }),
+            ColumnType::UShort => uint.map(|i| AttributeIndexEntry::UShort {
+                index,
+                val: i as u16,
+            }),
+            ColumnType::Int => int.map(|i| AttributeIndexEntry::Int {
+                index,
+                val: i as i32,
+            }),
+            ColumnType::UInt => uint.map(|i| AttributeIndexEntry::UInt {
+                index,
+                val: i as u32,
+            }),
+            ColumnType::Long => int.map(|val| AttributeIndexEntry::Long { index, val }),
+            ColumnType::ULong => uint.map(|val| AttributeIndexEntry::ULong { index, val }),
+            ColumnType::Float => val.as_f64().map(|f| AttributeIndexEntry::Float {
+                index,
+                val: f as f32,
+            }),
+            ColumnType::Double => val
+                .as_f64()
+                .map(|val| AttributeIndexEntry::Double { index, val }),
+            ColumnType::String => val.as_str().map(|s| AttributeIndexEntry::String {
+                index,
+                val: s.to_string(),
+            }),
+            ColumnType::DateTime => val
+                .as_str()
+                .and_then(|s| DateTime::parse_from_rfc3339(s).ok())
+                .map(|dt| AttributeIndexEntry::DateTime {
+                    index,
+                    val: dt.to_utc(),
+                }),
+            _ => None,
+        };
+        index_entries.extend(entry);
     }
 
     index_entries
-- 
2.43.0


From bf0895480611ec0bf0ce6d107a1bb2e1eea39f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 19/47] fix: query files with an index on a Long attribute, and
 columns in any order

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 11 ++++++++-
 src/rust/fcb_core/src/reader/attr_query.rs | 26 +++++++++++++++++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 37ab889..8e926be 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -409,6 +409,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = HttpIndex::<i64>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 ColumnType::ULong => {
                     let index = HttpIndex::<u64>::new(
                         attr_info.num_unique_items() as usize,
@@ -441,7 +451,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                 }
 
                 _ => {
-                    println!("Unsupported column type: {:?}", col.type_());
                     return Err(Error::UnsupportedColumnType(col.name().to_string()));
                 }
             }
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 950034d..8812bf3 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -106,6 +106,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_u32_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = MemoryIndex::<i64>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_i64_index(col.name().to_string(), index);
+                }
                 ColumnType::ULong => {
                     let index = MemoryIndex::<u64>::from_buf(
                         &mut buf,
@@ -132,8 +140,6 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                 }
                 _ => return Err(Error::UnsupportedColumnType(col.name().to_string())),
             }
-        } else {
-            println!("  - Skipping index for field: {}", col.name());
         }
     }
     Ok(())
@@ -243,6 +249,15 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_u32_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Long => {
+                let index = StreamIndex::<i64>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_i64_index(col.name().to_string(), index, attr_info.length() as u64);
+            }
             ColumnType::ULong => {
                 let index = StreamIndex::<u64>::new(
                     attr_info.num_unique_items() as usize,
@@ -446,7 +461,12 @@ impl<R: Read> FcbReader<R> {
 
         for attr_info in attr_index_entries.iter() {
             let column_idx = attr_info.index();
-            let field_name = columns[column_idx as usize].name().to_string();
+            let field_name = columns
+                .iter()
+                .find(|c| c.index() == column_idx)
+                .ok_or(Error::AttributeIndexNotFound)?
+                .name()
+                .to_string();
 
             // Only process this attribute if it's used in the query
             if query_fields.contains(&field_name) {
-- 
2.43.0


From 5c1726fe126d4c5c39f3757b5367729e0278c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 20/47] fix: keep diagnostics off standard output, where the
 command line tool may write its result

---
 src/rust/cli/src/main.rs                           | 2 +-
 src/rust/fcb_core/src/http_reader/mod.rs           | 2 --
 src/rust/fcb_core/src/static_btree/query/stream.rs | 3 ---
 src/rust/fcb_core/src/writer/attr_index.rs         | 2 +-
 src/rust/fcb_core/src/writer/serializer.rs         | 4 ++--
 5 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index a8e25e7..f3f874a 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -253,7 +253,7 @@ fn serialize(
         geographical_extent: geo_extent,
     };
 
-    println!("header_options in cli: {:?}", header_options);
+    eprintln!("header_options in cli: {:?}", header_options);
 
     let mut fcb = FcbWriter::new(cj, Some(header_options), attr_schema, semantic_attr_schema)?;
 
diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 8e926be..06709a8 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -688,13 +688,11 @@ impl SelectAttr {
         &mut self,
         client: &mut AsyncBufferedHttpRangeClient<T>,
     ) -> Result<Option<Bytes>> {
-        println!("self.range_pos: {:?}", self.range_pos);
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
         let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        println!("feature_size: {:?}", feature_size);
         feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index b035a51..a06516d 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -408,9 +408,6 @@ impl StreamMultiIndex {
             let index_start = start_position + index_range.start as u64;
             // set cursor to the start of the index
             reader.seek(SeekFrom::Start(index_start))?;
-            println!("index_start: {}", index_start);
-            println!("start_position: {}", start_position);
-            println!("query condition: {:?}", cond);
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
             if result_set.is_empty() {
diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index 1e95389..8e6fd2c 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -308,7 +308,7 @@ pub(super) fn build_attribute_index_for_attr(
             branching_factor,
         ),
         _ => {
-            println!("Unsupported column type for indexing: {:?}", coltype);
+            eprintln!("Unsupported column type for indexing: {:?}", coltype);
             Err(Error::UnsupportedColumnType(format!("{:?}", coltype)))
         }
     }
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index d626764..e3faed4 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -276,11 +276,11 @@ pub(super) fn to_reference_system<'a>(
     let authority = Some(fbb.create_string(&ref_system.authority));
 
     let version = ref_system.version.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse version: {}", e);
+        eprintln!("failed to parse version: {}", e);
         0
     });
     let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse code: {}", e);
+        eprintln!("failed to parse code: {}", e);
         0
     });
 
-- 
2.43.0


From 00653556c10469215c92f6e5de484c30123fba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 21/47] fix: reject a header that does not pass verification

---
 src/rust/fcb_core/src/reader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 522fefc..06234e3 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -108,7 +108,7 @@ impl<R: Read> FcbReader<R> {
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf);
+            let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
         Ok(FcbReader {
-- 
2.43.0


From 1e8f087644ea4cab6e7b0bbd386ba3eda7f1e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 22/47] fix: read the features an attribute query selects
 relative to where the dataset starts

The other selections work when the reader was not at the start of its
stream; this one read features from absolute positions.
---
 src/rust/fcb_core/src/reader/attr_query.rs | 20 +------
 src/rust/fcb_core/src/reader/mod.rs        | 61 ++++------------------
 2 files changed, 10 insertions(+), 71 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 8812bf3..a414c31 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -11,7 +11,7 @@ use crate::error::{Error, Result};
 use chrono::{DateTime, Utc};
 
 use crate::fb::ColumnType;
-use crate::{AttributeIndex, Column, FeatureOffset};
+use crate::{AttributeIndex, Column};
 
 use super::{
     reader_trait::{NotSeekable, Seekable},
@@ -406,14 +406,6 @@ impl<R: Read + Seek> FcbReader<R> {
         result_vec.sort();
         result_vec.dedup();
 
-        let header_size = self.buffer.header_buf.len();
-        let feature_offset = FeatureOffset {
-            magic_bytes: 8,
-            header: header_size as u64,
-            rtree_index: self.rtree_index_size(),
-            attributes: self.attr_index_size(),
-        };
-
         let total_feat_count = result_vec.len() as u64;
 
         let attr_index_size = self.attr_index_size();
@@ -426,7 +418,6 @@ impl<R: Read + Seek> FcbReader<R> {
             self.buffer,
             None,
             Some(result_vec),
-            feature_offset,
             total_feat_count,
         ))
     }
@@ -494,14 +485,6 @@ impl<R: Read> FcbReader<R> {
         result.sort();
         result.dedup();
 
-        let header_size = self.buffer.header_buf.len();
-        let feature_offset = FeatureOffset {
-            magic_bytes: 8,
-            header: header_size as u64,
-            rtree_index: self.rtree_index_size(),
-            attributes: self.attr_index_size(),
-        };
-
         let total_feat_count = result.len() as u64;
 
         // Create and return the FeatureIter
@@ -511,7 +494,6 @@ impl<R: Read> FcbReader<R> {
             self.buffer,
             None,
             Some(result),
-            feature_offset,
             total_feat_count,
         ))
     }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 06234e3..5955b64 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -46,18 +46,9 @@ pub struct FeatureIter<R, S> {
     state: State,
     /// Whether or not the underlying reader is Seek
     seekable_marker: PhantomData<S>,
-    feature_offset: FeatureOffset,
     total_feat_count: u64,
 }
 
-#[doc(hidden)]
-pub(super) struct FeatureOffset {
-    magic_bytes: u64,
-    header: u64,
-    rtree_index: u64,
-    attributes: u64,
-}
-
 #[derive(Debug, PartialEq, Eq)]
 enum State {
     Init,
@@ -125,12 +116,6 @@ impl<R: Read> FcbReader<R> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         // discard bufer of index
         io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
-        let feature_offset = FeatureOffset {
-            magic_bytes: 8,
-            header: 4 + self.buffer.header_buf.len() as u64,
-            rtree_index: index_size,
-            attributes: self.attr_index_size(),
-        };
         let total_feat_count = self.buffer.header().features_count();
         Ok(FeatureIter::new(
             self.reader,
@@ -138,7 +123,6 @@ impl<R: Read> FcbReader<R> {
             self.buffer,
             None,
             None,
-            feature_offset,
             total_feat_count,
         ))
     }
@@ -162,12 +146,6 @@ impl<R: Read> FcbReader<R> {
         // skip attribute index
         let index_size = self.attr_index_size();
         io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
-        let feature_offset = FeatureOffset {
-            magic_bytes: 8,
-            header: 4 + self.buffer.header_buf.len() as u64,
-            rtree_index: self.rtree_index_size(),
-            attributes: self.attr_index_size(),
-        };
         let total_feat_count = list.len() as u64;
         Ok(FeatureIter::new(
             self.reader,
@@ -175,7 +153,6 @@ impl<R: Read> FcbReader<R> {
             self.buffer,
             Some(list),
             None,
-            feature_offset,
             total_feat_count,
         ))
     }
@@ -184,12 +161,6 @@ impl<R: Read> FcbReader<R> {
 impl<R: Read + Seek> FcbReader<R> {
     pub fn select_all(mut self) -> Result<FeatureIter<R, Seekable>, Error> {
         // skip index
-        let feature_offset = FeatureOffset {
-            magic_bytes: 8,
-            header: 4 + self.buffer.header_buf.len() as u64,
-            rtree_index: self.rtree_index_size(),
-            attributes: self.attr_index_size(),
-        };
         let index_size = self.attr_index_size() + self.rtree_index_size();
         self.reader.seek(SeekFrom::Current(index_size as i64))?;
         let total_feat_count = self.buffer.header().features_count();
@@ -199,7 +170,6 @@ impl<R: Read + Seek> FcbReader<R> {
             self.buffer,
             None,
             None,
-            feature_offset,
             total_feat_count,
         ))
     }
@@ -223,12 +193,6 @@ impl<R: Read + Seek> FcbReader<R> {
         // skip index
         self.reader
             .seek(SeekFrom::Current(self.attr_index_size() as i64))?;
-        let feature_offset = FeatureOffset {
-            magic_bytes: 8,
-            header: 4 + self.buffer.header_buf.len() as u64,
-            rtree_index: self.rtree_index_size(),
-            attributes: self.attr_index_size(),
-        };
         let total_feat_count = list.len() as u64;
         Ok(FeatureIter::new(
             self.reader,
@@ -236,7 +200,6 @@ impl<R: Read + Seek> FcbReader<R> {
             self.buffer,
             Some(list),
             None,
-            feature_offset,
             total_feat_count,
         ))
     }
@@ -284,12 +247,6 @@ impl<R: Read> FcbReader<R> {
     }
 }
 
-impl FeatureOffset {
-    fn total_size(&self) -> u64 {
-        self.magic_bytes + self.header + self.rtree_index + self.attributes
-    }
-}
-
 impl<R: Read> FallibleStreamingIterator for FeatureIter<R, NotSeekable> {
     type Item = FcbBuffer;
     type Error = Error;
@@ -358,14 +315,16 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
         }
 
         if let Some(attr_filter) = &self.item_attr_filter {
-            if self.state == State::ReadFirstFeatureSize {
-                self.state = State::Reading;
-            }
             let item_offset = attr_filter[self.feat_no];
-            self.reader.seek(SeekFrom::Start(
-                self.feature_offset.total_size() + item_offset,
-            ))?;
-            self.cur_pos = item_offset;
+            if item_offset > self.cur_pos {
+                if self.state == State::ReadFirstFeatureSize {
+                    self.state = State::Reading;
+                }
+                // skip features
+                let seek_bytes = item_offset - self.cur_pos;
+                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                self.cur_pos += seek_bytes;
+            }
         }
 
         self.read_feature()
@@ -450,7 +409,6 @@ impl<R: Read, S> FeatureIter<R, S> {
         buffer: FcbBuffer,
         item_filter: Option<Vec<packed_rtree::SearchResultItem>>,
         item_attr_filter: Option<Vec<Offset>>,
-        feature_offset: FeatureOffset,
         total_feat_count: u64,
     ) -> FeatureIter<R, S> {
         let mut iter = FeatureIter {
@@ -464,7 +422,6 @@ impl<R: Read, S> FeatureIter<R, S> {
             cur_pos: 0,
             state: State::Init,
             seekable_marker: PhantomData,
-            feature_offset,
             total_feat_count,
         };
 
-- 
2.43.0


From f357861a0a4f6654056cb76ef53cfafa22d03a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 23/47] fix: report read errors and missing features instead of
 ending the iteration

Any error while the size of a feature was read, and the end of a truncated
file, looked like the regular end of the dataset. The number of selected
features of an attribute query was taken from the header.
---
 src/rust/fcb_core/src/reader/attr_query.rs |   8 +-
 src/rust/fcb_core/src/reader/mod.rs        | 174 ++++++++++++---------
 2 files changed, 106 insertions(+), 76 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index a414c31..892b917 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -412,14 +412,14 @@ impl<R: Read + Seek> FcbReader<R> {
         self.reader
             .seek(SeekFrom::Start(attr_index_start_pos + attr_index_size))?;
 
-        Ok(FeatureIter::<R, Seekable>::new(
+        FeatureIter::<R, Seekable>::new(
             self.reader,
             self.verify,
             self.buffer,
             None,
             Some(result_vec),
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -488,13 +488,13 @@ impl<R: Read> FcbReader<R> {
         let total_feat_count = result.len() as u64;
 
         // Create and return the FeatureIter
-        Ok(FeatureIter::<R, NotSeekable>::new(
+        FeatureIter::<R, NotSeekable>::new(
             self.reader,
             self.verify,
             self.buffer,
             None,
             Some(result),
             total_feat_count,
-        ))
+        )
     }
 }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 5955b64..3b0d9c4 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -117,14 +117,14 @@ impl<R: Read> FcbReader<R> {
         // discard bufer of index
         io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
             None,
             None,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query_seq(mut self, query: Query) -> Result<FeatureIter<R, NotSeekable>, Error> {
@@ -147,14 +147,14 @@ impl<R: Read> FcbReader<R> {
         let index_size = self.attr_index_size();
         io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
             Some(list),
             None,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -164,14 +164,14 @@ impl<R: Read + Seek> FcbReader<R> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         self.reader.seek(SeekFrom::Current(index_size as i64))?;
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
             None,
             None,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query(mut self, query: Query) -> Result<FeatureIter<R, Seekable>, Error> {
@@ -194,14 +194,14 @@ impl<R: Read + Seek> FcbReader<R> {
         self.reader
             .seek(SeekFrom::Current(self.attr_index_size() as i64))?;
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
             Some(list),
             None,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -252,36 +252,12 @@ impl<R: Read> FallibleStreamingIterator for FeatureIter<R, NotSeekable> {
     type Error = Error;
 
     fn advance(&mut self) -> Result<(), Error> {
-        if self.advance_finished() {
-            return Ok(());
-        }
-        if let Some(filter) = &self.item_filter {
-            let item = &filter[self.feat_no];
-            if item.offset as u64 > self.cur_pos {
-                if self.state == State::ReadFirstFeatureSize {
-                    self.state = State::Reading;
-                }
-                // skip features
-                let seek_bytes = item.offset as u64 - self.cur_pos;
-                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
-                self.cur_pos += seek_bytes;
-            }
-        }
-
-        if let Some(attr_filter) = &self.item_attr_filter {
-            let item_offset = attr_filter[self.feat_no];
-            // only skip if we haven't reached the attribute offset yet
-            if item_offset > self.cur_pos {
-                if self.state == State::ReadFirstFeatureSize {
-                    self.state = State::Reading;
-                }
-                let seek_bytes = item_offset - self.cur_pos;
-                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
-                self.cur_pos += seek_bytes;
-            }
+        let result = self.advance_seq();
+        if result.is_err() {
+            // the position is not known any more
+            self.state = State::Finished;
         }
-
-        self.read_feature()
+        result
     }
 
     fn get(&self) -> Option<&FcbBuffer> {
@@ -298,6 +274,25 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
     type Error = Error;
 
     fn advance(&mut self) -> Result<(), Error> {
+        let result = self.advance_seek();
+        if result.is_err() {
+            // the position is not known any more
+            self.state = State::Finished;
+        }
+        result
+    }
+
+    fn get(&self) -> Option<&FcbBuffer> {
+        self.iter_get()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter_size_hint()
+    }
+}
+
+impl<R: Read> FeatureIter<R, NotSeekable> {
+    fn advance_seq(&mut self) -> Result<(), Error> {
         if self.advance_finished() {
             return Ok(());
         }
@@ -309,20 +304,20 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
                 }
                 // skip features
                 let seek_bytes = item.offset as u64 - self.cur_pos;
-                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
                 self.cur_pos += seek_bytes;
             }
         }
 
         if let Some(attr_filter) = &self.item_attr_filter {
             let item_offset = attr_filter[self.feat_no];
+            // only skip if we haven't reached the attribute offset yet
             if item_offset > self.cur_pos {
                 if self.state == State::ReadFirstFeatureSize {
                     self.state = State::Reading;
                 }
-                // skip features
                 let seek_bytes = item_offset - self.cur_pos;
-                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
                 self.cur_pos += seek_bytes;
             }
         }
@@ -330,16 +325,6 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
         self.read_feature()
     }
 
-    fn get(&self) -> Option<&FcbBuffer> {
-        self.iter_get()
-    }
-
-    fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter_size_hint()
-    }
-}
-
-impl<R: Read> FeatureIter<R, NotSeekable> {
     pub fn cur_feature(&self) -> CityFeature {
         self.buffer.feature()
     }
@@ -369,6 +354,39 @@ impl<R: Read> FeatureIter<R, NotSeekable> {
 }
 
 impl<R: Read + Seek> FeatureIter<R, Seekable> {
+    fn advance_seek(&mut self) -> Result<(), Error> {
+        if self.advance_finished() {
+            return Ok(());
+        }
+        if let Some(filter) = &self.item_filter {
+            let item = &filter[self.feat_no];
+            if item.offset as u64 > self.cur_pos {
+                if self.state == State::ReadFirstFeatureSize {
+                    self.state = State::Reading;
+                }
+                // skip features
+                let seek_bytes = item.offset as u64 - self.cur_pos;
+                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                self.cur_pos += seek_bytes;
+            }
+        }
+
+        if let Some(attr_filter) = &self.item_attr_filter {
+            let item_offset = attr_filter[self.feat_no];
+            if item_offset > self.cur_pos {
+                if self.state == State::ReadFirstFeatureSize {
+                    self.state = State::Reading;
+                }
+                // skip features
+                let seek_bytes = item_offset - self.cur_pos;
+                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                self.cur_pos += seek_bytes;
+            }
+        }
+
+        self.read_feature()
+    }
+
     pub fn cur_feature(&self) -> CityFeature {
         self.buffer.feature()
     }
@@ -410,7 +428,7 @@ impl<R: Read, S> FeatureIter<R, S> {
         item_filter: Option<Vec<packed_rtree::SearchResultItem>>,
         item_attr_filter: Option<Vec<Offset>>,
         total_feat_count: u64,
-    ) -> FeatureIter<R, S> {
+    ) -> Result<FeatureIter<R, S>, Error> {
         let mut iter = FeatureIter {
             reader,
             verify,
@@ -425,27 +443,23 @@ impl<R: Read, S> FeatureIter<R, S> {
             total_feat_count,
         };
 
-        if iter.read_feature_size() {
+        iter.count = match (&iter.item_filter, &iter.item_attr_filter) {
+            (Some(list), _) => Some(list.len()),
+            (None, Some(list)) => Some(list.len()),
+            (None, None) => match iter.buffer.header().features_count() as usize {
+                0 => None,
+                feat_count => Some(feat_count),
+            },
+        };
+
+        if iter.count == Some(0) || iter.read_feature_size()? {
             iter.state = State::Finished;
+            iter.count = Some(0);
         } else {
             iter.state = State::ReadFirstFeatureSize
         }
 
-        iter.count = match &iter.item_filter {
-            Some(list) => Some(list.len()),
-            None => {
-                let feat_count = iter.buffer.header().features_count() as usize;
-                if feat_count > 0 {
-                    Some(feat_count)
-                } else if iter.state == State::Finished {
-                    Some(0)
-                } else {
-                    None
-                }
-            }
-        };
-
-        iter
+        Ok(iter)
     }
 
     pub fn header(&self) -> Header {
@@ -482,12 +496,28 @@ impl<R: Read, S> FeatureIter<R, S> {
     }
 
     /// Read feature size and return true if end of dataset reached
-    fn read_feature_size(&mut self) -> bool {
+    fn read_feature_size(&mut self) -> Result<bool, Error> {
         self.buffer.features_buf.resize(4, 0);
         self.cur_pos += 4;
-        self.reader
-            .read_exact(&mut self.buffer.features_buf)
-            .is_err()
+        let mut filled = 0;
+        while filled < 4 {
+            match self.reader.read(&mut self.buffer.features_buf[filled..]) {
+                Ok(0) => break,
+                Ok(n) => filled += n,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
+        if filled == 4 {
+            return Ok(false);
+        }
+        // the end of the data is the end of the dataset unless features are missing
+        let complete = self.count.map_or(true, |count| self.feat_no >= count);
+        if filled == 0 && complete {
+            Ok(true)
+        } else {
+            Err(io::Error::from(io::ErrorKind::UnexpectedEof).into())
+        }
     }
 
     fn read_feature(&mut self) -> Result<(), Error> {
@@ -496,7 +526,7 @@ impl<R: Read, S> FeatureIter<R, S> {
                 self.state = State::Reading;
             }
             State::Reading => {
-                if self.read_feature_size() {
+                if self.read_feature_size()? {
                     self.state = State::Finished;
                     return Ok(());
                 }
-- 
2.43.0


From aeac1a08121dd7d9fb565ac4e187b0505fff9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 24/47] fix: detect truncated responses, and retry a feature
 whose request failed

A response shorter than the request panicked or silently dropped index nodes,
and a failed request made the next call skip the feature.
---
 src/rust/fcb_core/src/http_reader/mod.rs    | 41 ++++++++++++++-------
 src/rust/fcb_core/src/packed_rtree/mod.rs   |  4 +-
 src/rust/fcb_core/src/static_btree/stree.rs |  4 +-
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 06709a8..fd490d9 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -41,6 +41,19 @@ mod mock_http_range_client;
 // If a single huge feature requires, we'll necessarily exceed this limit.
 const DEFAULT_HTTP_FETCH_SIZE: usize = 1_048_576; // 1MB
 
+/// Get exactly the requested bytes: a response may hold fewer when the data is truncated.
+async fn get_exact<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    begin: usize,
+    length: usize,
+) -> Result<&[u8]> {
+    let bytes = client.get_range(begin, length).await?;
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 /// FlatCityBuf dataset HTTP reader
 pub struct HttpFcbReader<T: AsyncHttpRangeClient + Send + Sync> {
     client: AsyncBufferedHttpRangeClient<T>,
@@ -99,13 +112,13 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         client.set_min_req_size(min_req_size);
         debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
         let mut read_bytes = 0;
-        let bytes = client.get_range(read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
+        let bytes = get_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
         if !check_magic_bytes(bytes) {
             return Err(Error::MissingMagicBytes);
         }
 
         read_bytes += MAGIC_BYTES_SIZE;
-        let mut bytes = BytesMut::from(client.get_range(read_bytes, HEADER_SIZE_SIZE).await?);
+        let mut bytes = BytesMut::from(get_exact(&mut client, read_bytes, HEADER_SIZE_SIZE).await?);
         read_bytes += HEADER_SIZE_SIZE;
 
         let header_size = LittleEndian::read_u32(&bytes) as usize;
@@ -114,7 +127,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        bytes.put(client.get_range(read_bytes, header_size).await?);
+        bytes.put(get_exact(&mut client, read_bytes, header_size).await?);
         read_bytes += header_size;
 
         let header_buf = bytes.to_vec();
@@ -535,13 +548,13 @@ impl SelectAll {
         if self.features_left == 0 {
             return Ok(None);
         }
-        self.features_left -= 1;
 
-        let mut feature_buffer = BytesMut::from(client.get_range(self.pos, 4).await?);
-        self.pos += 4;
+        let mut feature_buffer = BytesMut::from(get_exact(client, self.pos, 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(self.pos, feature_size).await?);
-        self.pos += feature_size;
+        feature_buffer.put(get_exact(client, self.pos + 4, feature_size).await?);
+        // the feature is only done with once it was received
+        self.features_left -= 1;
+        self.pos += 4 + feature_size;
 
         Ok(Some(feature_buffer.freeze()))
     }
@@ -663,15 +676,17 @@ impl FeatureBatch {
     ) -> Result<Option<Bytes>> {
         let request_size = self.request_size();
         client.set_min_req_size(request_size);
-        let Some(feature_range) = self.feature_ranges.pop_front() else {
+        let Some(feature_range) = self.feature_ranges.front() else {
             return Ok(None);
         };
 
         let mut pos = feature_range.start();
-        let mut feature_buffer = BytesMut::from(client.get_range(pos, 4).await?);
+        let mut feature_buffer = BytesMut::from(get_exact(client, pos, 4).await?);
         pos += 4;
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(pos, feature_size).await?);
+        feature_buffer.put(get_exact(client, pos, feature_size).await?);
+        // the feature is only done with once it was received
+        self.feature_ranges.pop_front();
 
         Ok(Some(feature_buffer.freeze()))
     }
@@ -691,9 +706,9 @@ impl SelectAttr {
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
-        let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
+        let mut feature_buffer = BytesMut::from(get_exact(client, range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
+        feature_buffer.put(get_exact(client, range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
     }
diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index dff08fd..81c8471 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -218,8 +218,10 @@ async fn read_http_node_items<T: AsyncHttpRangeClient>(
         .get_range(begin, length)
         .await?;
 
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
     for node_item_bytes in bytes.chunks(size_of::<NodeItem>()) {
         node_items.push(NodeItem::from_bytes(node_item_bytes)?);
     }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index db23d37..00bc4c8 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -130,8 +130,10 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
         .get_range(begin, length)
         .await?;
 
+    if bytes.len() != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
     for node_item_bytes in bytes.chunks(NodeItem::<K>::SERIALIZED_SIZE) {
         let node_item = NodeItem::from_reader(&mut Cursor::new(node_item_bytes))?;
         node_items.push(node_item);
-- 
2.43.0


From 90ef6a9e85e958951c929eae34a9fbbe70008566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 25/47] fix: read attributes of columns whose numbers are not
 consecutive

---
 src/rust/fcb_core/src/reader/deserializer.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 0426302..74b9d17 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -262,9 +262,6 @@ pub fn decode_attributes(
     while offset < bytes.len() {
         let col_index = LittleEndian::read_u16(&bytes[offset..offset + size_of::<u16>()]) as u16;
         offset += size_of::<u16>();
-        if col_index >= columns.len() as u16 {
-            panic!("column index out of range"); //TODO: handle this as an error
-        }
         let column = columns.iter().find(|c| c.index() == col_index);
         if column.is_none() {
             panic!("column not found"); //TODO: handle this as an error
-- 
2.43.0


From dc06050346c3cf5518ac4612bf0ee7b921a454a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 26/47] fix: write attribute indices in a reproducible order

---
 src/rust/fcb_core/src/writer/attr_index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index 8e6fd2c..b75238a 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -24,7 +24,11 @@ where
 {
     let mut entries: Vec<Entry<T>> = Vec::new();
 
-    for feature in attribute_entries.values() {
+    // in the order of the file, so that the same input gives the same bytes
+    let mut features: Vec<&AttributeFeatureOffset> = attribute_entries.values().collect();
+    features.sort_by_key(|feature| feature.offset);
+
+    for feature in features {
         for entry in &feature.index_entries {
             let Some(key) = extract(entry) else {
                 continue;
-- 
2.43.0


From ebd8b307a79496d4013fdbf5951d4e059a2c8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 27/47] fix: report errors of buffered output when writing a
 dataset

---
 src/rust/fcb_core/src/writer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index bbac84a..dac6831 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -279,6 +279,7 @@ impl<'a> FcbWriter<'a> {
         out.write_all(&rtree_buf)?;
         out.write_all(&attr_index_buf)?;
         out.write_all(&sorted_feature_buf)?;
+        out.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 1829144f87e9bf64a76fdac08a457945e6fbefcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:54 +0000
Subject: [PATCH 28/47] fix: keep empty parts of boundaries

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 178 +++++++++----------
 src/rust/fcb_core/src/writer/serializer.rs   |   5 +-
 2 files changed, 89 insertions(+), 94 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index abdf070..56f8114 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -1,8 +1,9 @@
 use cjseq::{
-    Boundaries as CjBoundaries, MaterialReference as CjMaterialReference,
-    MaterialValues as CjMaterialValues, Semantics as CjSemantics,
-    SemanticsSurface as CjSemanticsSurface, SemanticsValues as CjSemanticsValues,
-    TextureReference as CjTextureReference, TextureValues as CjTextureValues,
+    Boundaries as CjBoundaries, GeometryType as CjGeometryType,
+    MaterialReference as CjMaterialReference, MaterialValues as CjMaterialValues,
+    Semantics as CjSemantics, SemanticsSurface as CjSemanticsSurface,
+    SemanticsValues as CjSemanticsValues, TextureReference as CjTextureReference,
+    TextureValues as CjTextureValues,
 };
 use std::collections::HashMap;
 
@@ -85,7 +86,8 @@ pub(crate) fn encode(
         indices: vec![],
     };
     // Encode the geometric boundaries
-    let _ = encode_boundaries(cj_boundaries, &mut boundaries);
+    let depth = boundaries_depth(cj_boundaries).unwrap_or(1);
+    encode_boundaries(cj_boundaries, depth, &mut boundaries);
 
     // Encode semantics if provided
     let semantics = semantics.map(encode_semantics);
@@ -207,7 +209,8 @@ pub(crate) fn encode_texture(
         };
 
         // Process the texture values based on their structure
-        let _ = encode_texture_values(&texture.values, &mut texture_mapping);
+        let depth = texture_depth(&texture.values).unwrap_or(1);
+        encode_texture_values(&texture.values, depth, &mut texture_mapping);
 
         texture_mappings.push(texture_mapping);
     }
@@ -215,65 +218,82 @@ pub(crate) fn encode_texture(
     texture_mappings
 }
 
+/// Depth of the nested arrays of texture values, None if they are all empty.
+fn texture_depth(values: &CjTextureValues) -> Option<usize> {
+    match values {
+        CjTextureValues::Indices(indices) => (!indices.is_empty()).then_some(1),
+        CjTextureValues::Nested(nested) => {
+            nested.iter().filter_map(texture_depth).max().map(|d| d + 1)
+        }
+    }
+}
+
 /// Recursively encodes the texture values into flattened arrays.
 ///
 /// # Arguments
 ///
 /// * `values` - Reference to the texture values to encode.
+/// * `depth` - Depth of the nested arrays (1 for a ring, 4 for a solid).
 /// * `mapping` - Mutable reference to the TextureMapping struct to populate.
-///
-/// # Returns
-///
-/// The maximum depth encountered during encoding.
-fn encode_texture_values(values: &CjTextureValues, mapping: &mut TextureMapping) -> usize {
-    match values {
+fn encode_texture_values(values: &CjTextureValues, depth: usize, mapping: &mut TextureMapping) {
+    let length = match values {
         // Leaf node (indices)
         CjTextureValues::Indices(indices) => {
-            // Record the number of indices in this ring
-            mapping.strings.push(indices.len() as u32);
-
             // Convert indices to u32, replacing None with u32::MAX
             mapping
                 .vertices
                 .extend(indices.iter().map(|i| i.map_or(u32::MAX, |v| v as u32)));
-
-            // Return the current depth level (1 for rings)
-            1 // ring-level
+            indices.len()
         }
         // Nested structure
         CjTextureValues::Nested(nested) => {
-            let mut max_depth = 0;
-
-            // Recursively encode each nested value and track the maximum depth
             for sub in nested {
-                let d = encode_texture_values(sub, mapping);
-                max_depth = max_depth.max(d);
+                encode_texture_values(sub, depth.saturating_sub(1), mapping);
             }
+            nested.len()
+        }
+    };
 
-            // Number of nested values at the current level
-            let length = nested.len();
+    match depth {
+        1 => mapping.strings.push(length as u32),
+        2 => mapping.surfaces.push(length as u32),
+        3 => mapping.shells.push(length as u32),
+        4 => mapping.solids.push(length as u32),
+        // the number of solids is that of the entries in `solids`
+        _ => {}
+    }
+}
 
-            // Interpret the `max_depth` to determine the current geometry type
-            match max_depth {
-                // max_depth = 1 indicates the children are rings, so this level represents surfaces
-                1 => {
-                    mapping.surfaces.push(length as u32);
-                }
-                // max_depth = 2 indicates the children are surfaces, so this level represents shells
-                2 => {
-                    mapping.shells.push(length as u32);
-                }
-                // max_depth = 3 indicates the children are shells, so this level represents solids
-                3 => {
-                    mapping.solids.push(length as u32);
-                }
-                // Any other depth is invalid and should be ignored
-                _ => {}
-            }
+/// Encodes boundaries that hold no vertex at all. Only the geometry type tells how deep
+/// their arrays are nested. None if they do hold vertices.
+pub(crate) fn encode_empty_boundaries(
+    boundaries: &CjBoundaries,
+    geometry_type: &CjGeometryType,
+) -> Option<GMBoundaries> {
+    if boundaries_depth(boundaries).is_some() {
+        return None;
+    }
+    let depth = match geometry_type {
+        CjGeometryType::MultiPoint => 1,
+        CjGeometryType::MultiLineString => 2,
+        CjGeometryType::MultiSurface | CjGeometryType::CompositeSurface => 3,
+        CjGeometryType::Solid => 4,
+        _ => 5,
+    };
+    let mut encoded = GMBoundaries::default();
+    encode_boundaries(boundaries, depth, &mut encoded);
+    Some(encoded)
+}
 
-            // Return the updated depth level
-            max_depth + 1
-        }
+/// Depth of the nested arrays of boundaries, None if they are all empty.
+fn boundaries_depth(boundaries: &CjBoundaries) -> Option<usize> {
+    match boundaries {
+        CjBoundaries::Indices(indices) => (!indices.is_empty()).then_some(1),
+        CjBoundaries::Nested(nested) => nested
+            .iter()
+            .filter_map(boundaries_depth)
+            .max()
+            .map(|d| d + 1),
     }
 }
 
@@ -282,67 +302,41 @@ fn encode_texture_values(values: &CjTextureValues, mapping: &mut TextureMapping)
 /// # Arguments
 ///
 /// * `boundaries` - Reference to the CityJSON boundaries to encode.
-///
-/// # Returns
-///
-/// The maximum depth encountered during encoding.
-///
-/// # Panics
-///
-/// Panics if the `max_depth` is not 1, 2, or 3, indicating an invalid geometry nesting depth.
-fn encode_boundaries(boundaries: &CjBoundaries, wip_boundaries: &mut GMBoundaries) -> usize {
-    match boundaries {
+/// * `depth` - Depth of the nested arrays (1 for a ring, 4 for a solid). An empty array
+///   does not show what it would hold.
+/// * `wip_boundaries` - The flattened arrays to extend.
+fn encode_boundaries(boundaries: &CjBoundaries, depth: usize, wip_boundaries: &mut GMBoundaries) {
+    let length = match boundaries {
         // ------------------
         // (1) Leaf (indices)
         // ------------------
         CjBoundaries::Indices(indices) => {
             // Extend the flat list of indices with the current ring's indices
             wip_boundaries.indices.extend_from_slice(indices);
-
-            // Record the number of indices in the current ring
-            wip_boundaries.strings.push(indices.len() as u32);
-
-            // Return the current depth level (1 for rings)
-            1 // ring-level
+            indices.len()
         }
         // ------------------
         // (2) Nested
         // ------------------
         CjBoundaries::Nested(sub_boundaries) => {
-            let mut max_depth = 0;
-
-            // Recursively encode each sub-boundary and track the maximum depth
             for sub in sub_boundaries {
-                let d = encode_boundaries(sub, wip_boundaries);
-                max_depth = max_depth.max(d);
+                encode_boundaries(sub, depth.saturating_sub(1), wip_boundaries);
             }
-
-            // Number of sub-boundaries at the current level
-            let length = sub_boundaries.len();
-
-            // Interpret the `max_depth` to determine the current geometry type
-            match max_depth {
-                // max_depth = 1 indicates the children are rings, so this level represents surfaces
-                1 => {
-                    wip_boundaries.surfaces.push(length as u32);
-                }
-                // max_depth = 2 indicates the children are surfaces, so this level represents shells
-                2 => {
-                    // Push the number of surfaces in this shell
-                    wip_boundaries.shells.push(length as u32);
-                }
-                // max_depth = 3 indicates the children are shells, so this level represents solids
-                3 => {
-                    // Push the number of shells in this solid
-                    wip_boundaries.solids.push(length as u32);
-                }
-                // Any other depth is invalid and should panic
-                _ => {}
-            }
-
-            // Return the updated depth level
-            max_depth + 1
+            sub_boundaries.len()
         }
+    };
+
+    match depth {
+        // number of indices in the ring
+        1 => wip_boundaries.strings.push(length as u32),
+        // number of rings in the surface
+        2 => wip_boundaries.surfaces.push(length as u32),
+        // number of surfaces in the shell
+        3 => wip_boundaries.shells.push(length as u32),
+        // number of shells in the solid
+        4 => wip_boundaries.solids.push(length as u32),
+        // the number of solids is that of the entries in `solids`
+        _ => {}
     }
 }
 
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index e3faed4..5ab0c3c 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -10,7 +10,7 @@ use crate::fb::{
 use crate::fb::{
     GeographicalExtent, Header, HeaderArgs, ReferenceSystem, ReferenceSystemArgs, Transform, Vector,
 };
-use crate::geom_encoder::encode;
+use crate::geom_encoder::{encode, encode_empty_boundaries};
 use crate::{
     AttributeIndex, Column, ColumnArgs, DoubleVertex, Extension, ExtensionArgs, GeometryInstance,
     GeometryInstanceArgs, MaterialMapping, MaterialMappingArgs, TextureFormat, TextureMapping,
@@ -840,7 +840,8 @@ pub(crate) fn to_geometry<'a>(
         surfaces,
         strings,
         indices,
-    } = encoded.boundaries;
+    } = encode_empty_boundaries(&geometry.boundaries, &geometry.thetype)
+        .unwrap_or(encoded.boundaries);
     let semantics = encoded
         .semantics
         .map(|GMSemantics { surfaces, values }| (surfaces, values));
-- 
2.43.0


From 123097daf31df525c8a74b244bee41bb5b4e6108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:23 +0000
Subject: [PATCH 29/47] fix: report read and write errors of the command line
 conversions

---
 src/rust/cli/src/main.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index f3f874a..6e4ec21 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -389,17 +389,11 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
     writeln!(writer, "{}", serde_json::to_string(&cj)?)?;
 
     // Write features
-    let feat_count = header.features_count();
-    let mut feat_num = 0;
-    while let Ok(Some(feat_buf)) = fcb_reader.next() {
+    while let Some(feat_buf) = fcb_reader.next()? {
         let feature = feat_buf.cur_cj_feature()?;
         writeln!(writer, "{}", serde_json::to_string(&feature)?)?;
-
-        feat_num += 1;
-        if feat_num >= feat_count {
-            break;
-        }
     }
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("Successfully decoded to CityJSON");
@@ -409,15 +403,16 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
 
 fn encode_cbor(input: &str, output: &str) -> Result<(), Error> {
     let reader = BufReader::new(get_reader(input)?);
-    let writer = BufWriter::new(get_writer(output)?);
+    let mut writer = BufWriter::new(get_writer(output)?);
 
     let value: serde_json::Value = serde_json::from_reader(reader)?;
-    serde_cbor::to_writer(writer, &value).map_err(|e| {
+    serde_cbor::to_writer(&mut writer, &value).map_err(|e| {
         Error::IoError(std::io::Error::new(
             std::io::ErrorKind::Other,
             format!("failed to encode to cbor: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to cbor");
@@ -449,6 +444,7 @@ fn encode_bson(input: &str, output: &str) -> Result<(), Error> {
             format!("failed to encode to bson: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to bson");
-- 
2.43.0


From 306212d552c8ff03b710ddaaf56508facfd97f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:23 +0000
Subject: [PATCH 30/47] fix: report errors of the summary instead of panicking

---
 src/rust/cli/src/main.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 6e4ec21..50a9575 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -468,38 +468,43 @@ fn show_info(input: PathBuf) -> Result<(), Error> {
                     .flat_map(|c| c.iter())
                     .find(|ci| ci.index() == ai.index())
                     .map(|ci| ci.name())
-                    .unwrap()
+                    .ok_or(Error::AttributeIndexNotFound)
             })
-            .collect::<Vec<_>>()
+            .collect::<Result<Vec<_>, Error>>()
     });
+    let attr_index = attr_index.transpose()?.unwrap_or_default();
     let header = fcb_reader.header();
-    println!("FCB File Info:");
-    println!("    File size: {} MB", metadata);
-    println!("  Version: {}", header.version());
-    println!("  Features count: {}", header.features_count());
-    println!("  bbox: {:?}", header.geographical_extent());
-    println!("  attr_index: {:?}", attr_index.unwrap_or_default());
+    let mut out = io::stdout().lock();
+    writeln!(out, "FCB File Info:")?;
+    writeln!(out, "    File size: {} MB", metadata)?;
+    writeln!(out, "  Version: {}", header.version())?;
+    writeln!(out, "  Features count: {}", header.features_count())?;
+    writeln!(out, "  bbox: {:?}", header.geographical_extent())?;
+    writeln!(out, "  attr_index: {:?}", attr_index)?;
 
     if let Some(title) = header.title() {
-        println!("  Title: {}", title);
+        writeln!(out, "  Title: {}", title)?;
     }
 
     if let Some(extent) = header.geographical_extent() {
-        println!("  Geographical extent:");
-        println!(
+        writeln!(out, "  Geographical extent:")?;
+        writeln!(
+            out,
             "    Min: [{}, {}, {}]",
             extent.min().x(),
             extent.min().y(),
             extent.min().z()
-        );
-        println!(
+        )?;
+        writeln!(
+            out,
             "    Max: [{}, {}, {}]",
             extent.max().x(),
             extent.max().y(),
             extent.max().z()
-        );
+        )?;
     }
 
+    out.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 6f3a2265c3a137a82d6e998ce76ca3c591058d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:23 +0000
Subject: [PATCH 31/47] fix: accept the switches of the command line without a
 value as documented

---
 src/rust/cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 50a9575..21d9cfb 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -41,11 +41,11 @@ enum Commands {
         attr_index: Option<String>,
 
         /// If index all attributes
-        #[arg(short = 'A', long)]
+        #[arg(short = 'A', long, num_args = 0..=1, default_missing_value = "true")]
         index_all_attributes: Option<bool>,
 
         /// If write spatial index. Default is true.
-        #[arg(short = 's', long)]
+        #[arg(short = 's', long, num_args = 0..=1, default_missing_value = "true")]
         spatial_index: Option<bool>,
 
         /// Branching factor for attribute index
@@ -57,7 +57,7 @@ enum Commands {
         bbox: Option<String>,
 
         /// Automatically calculate and set geospatial extent in header
-        #[arg(short = 'g', long)]
+        #[arg(short = 'g', long, num_args = 0..=1, default_missing_value = "true")]
         ge: Option<bool>,
     },
 
-- 
2.43.0


From 54388b407facea133b63bf271a3f7f18427e5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 32/47] fix: index attributes and wider values that first
 appear after 1000 features

---
 src/rust/cli/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 21d9cfb..a9d4c0f 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -171,8 +171,7 @@ fn serialize(
 
     let attr_schema = {
         let mut schema = AttributeSchema::new();
-        // Limit to max 1000 features for schema building to have faster build time
-        for feature in filtered_features.iter().take(1000) {
+        for feature in filtered_features.iter() {
             for (_, co) in feature.city_objects.iter() {
                 if let Some(attributes) = &co.attributes {
                     schema.add_attributes(attributes);
-- 
2.43.0


From a7b16db86deddc1b506ceba0965d0969e65a038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 33/47] fix: bbox queries use the node size the header states

---
 src/rust/fcb_core/src/http_reader/mod.rs | 2 +-
 src/rust/fcb_core/src/reader/mod.rs      | 2 +-
 src/rust/wasm/src/lib.rs                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index fd490d9..c1c9d94 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -222,7 +222,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             header_len,
             attr_index_size,
             count,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
             combine_request_threshold,
         )
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 3b0d9c4..141918a 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -183,7 +183,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let list = PackedRTree::stream_search(
             &mut self.reader,
             header.features_count() as usize,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
         )?;
         debug_assert!(
diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 883f17d..0c46795 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -269,7 +269,7 @@ mod wasm {
                 header_len,
                 attr_index_size,
                 count,
-                PackedRTree::DEFAULT_NODE_SIZE,
+                header.index_node_size(),
                 inner_query,
                 combine_request_threshold,
             )
-- 
2.43.0


From 80ce0dabc20f353a8baa86fcc1625b1bf74dbeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 34/47] fix: describe Byte and UByte columns instead of
 panicking

---
 src/rust/fcb_core/src/reader/deserializer.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 74b9d17..f728aed 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -119,7 +119,7 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
         c.iter()
             .map(|c| {
                 let i = c.index();
-                MetaColumn {
+                Ok(MetaColumn {
                     index: i,
                     name: c.name().to_string(),
                     _type: match c.type_() {
@@ -136,7 +136,11 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                         ColumnType::UShort => MetaColumnType::UShort,
                         ColumnType::Long => MetaColumnType::Long,
                         ColumnType::ULong => MetaColumnType::ULong,
-                        _ => unreachable!(),
+                        ColumnType::Byte => MetaColumnType::Byte,
+                        ColumnType::UByte => MetaColumnType::UByte,
+                        other => {
+                            return Err(Error::UnsupportedColumnType(format!("{other:?}")));
+                        }
                     },
                     title: c.title().map(|t| t.to_string()),
                     description: c.description().map(|d| d.to_string()),
@@ -152,15 +156,15 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                             .map(|attr_indices| attr_indices.iter().any(|i| i.index() == c.index()))
                             .unwrap_or(false),
                     ),
-                }
+                })
             })
-            .collect::<Vec<_>>()
+            .collect::<Result<Vec<_>, Error>>()
     });
-    if columns.is_none() {
+    let Some(columns) = columns else {
         return Err(Error::MissingRequiredField("columns".to_string()));
-    }
+    };
     Ok(Meta {
-        columns: columns.unwrap(),
+        columns: columns?,
         feature_count: header.features_count(),
     })
 }
-- 
2.43.0


From d5656bbe082c94c42ff6e77f02d4b3bf22c78cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 35/47] fix: a malformed R-tree is an error instead of a panic
 or a huge allocation

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 171 +++++++++++++++++-----
 1 file changed, 136 insertions(+), 35 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 81c8471..2742e92 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -169,8 +169,8 @@ impl NodeItem {
         }
 
         // Calculate closest point on the bbox
-        let closest_x = x.clamp(self.min_x, self.max_x);
-        let closest_y = y.clamp(self.min_y, self.max_y);
+        let closest_x = x.max(self.min_x).min(self.max_x);
+        let closest_y = y.max(self.min_y).min(self.max_y);
 
         // Calculate squared distance
         let dx = x - closest_x;
@@ -179,15 +179,38 @@ impl NodeItem {
     }
 }
 
-/// Read full capacity of vec from data stream
-fn read_node_vec(node_items: &mut Vec<NodeItem>, mut data: impl Read) -> Result<(), Error> {
+/// Read this many nodes from data stream
+fn read_node_vec(
+    node_items: &mut Vec<NodeItem>,
+    num_nodes: usize,
+    mut data: impl Read,
+) -> Result<(), Error> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..num_nodes {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
 }
 
+/// Check that the children of the node at `pos` are where the layout of the tree has them
+fn check_child(
+    level_bounds: &[Range<usize>],
+    level: usize,
+    pos: usize,
+    node_size: u16,
+    node_item: &NodeItem,
+) -> Result<(), Error> {
+    let child =
+        level_bounds[level - 1].start + (pos - level_bounds[level].start) * node_size as usize;
+    if node_item.offset != child as u64 {
+        return Err(Error::RTreeError(format!(
+            "node {pos} refers to node {} instead of {child}",
+            node_item.offset
+        )));
+    }
+    Ok(())
+}
+
 /// Read partial item vec from data stream
 fn read_node_items<R: Read + Seek>(
     data: &mut R,
@@ -199,7 +222,7 @@ fn read_node_items<R: Read + Seek>(
     data.seek(SeekFrom::Start(
         base + (node_index * size_of::<NodeItem>()) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -410,8 +433,8 @@ impl PackedRTree {
         }
     }
 
-    fn read_data(&mut self, data: impl Read) -> Result<(), Error> {
-        read_node_vec(&mut self.node_items, data)?;
+    fn read_data(&mut self, num_nodes: usize, data: impl Read) -> Result<(), Error> {
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         for node in &self.node_items {
             self.extent.expand(node)
         }
@@ -470,19 +493,19 @@ impl PackedRTree {
         node_size: u16,
     ) -> Result<PackedRTree, Error> {
         let node_size = node_size.clamp(2u16, 65535u16);
-        let level_bounds = PackedRTree::generate_level_bounds(num_items, node_size);
+        let level_bounds = PackedRTree::checked_level_bounds(num_items, node_size)?;
         let num_nodes = level_bounds
             .first()
             .expect("RTree has at least one level when node_size >= 2 and num_items > 0")
             .end;
         let mut tree = PackedRTree {
             extent: NodeItem::create(0),
-            node_items: Vec::with_capacity(num_nodes),
+            node_items: Vec::new(),
             num_leaf_nodes: num_items,
             branching_factor: node_size,
             level_bounds,
         };
-        tree.read_data(data)?;
+        tree.read_data(num_nodes, data)?;
         Ok(tree)
     }
 
@@ -500,6 +523,7 @@ impl PackedRTree {
             branching_factor: 0,
             level_bounds: Vec::new(),
         };
+        PackedRTree::checked_index_size(num_items, node_size)?;
         tree.init(node_size)?;
         tree.read_http(client, index_begin).await?;
         Ok(tree)
@@ -542,6 +566,13 @@ impl PackedRTree {
                                 index: pos - leaf_nodes_offset,
                             });
                         } else {
+                            check_child(
+                                &self.level_bounds,
+                                level,
+                                pos,
+                                self.branching_factor,
+                                node_item,
+                            )?;
                             queue.push_back((node_item.offset as usize, level - 1));
                         }
                     }
@@ -577,6 +608,13 @@ impl PackedRTree {
                                 index: pos - leaf_nodes_offset,
                             });
                         } else {
+                            check_child(
+                                &self.level_bounds,
+                                level,
+                                pos,
+                                self.branching_factor,
+                                node_item,
+                            )?;
                             queue.push_back((node_item.offset as usize, level - 1));
                         }
                     }
@@ -668,6 +706,13 @@ impl PackedRTree {
                                 _ => {}
                             }
                         } else {
+                            check_child(
+                                &self.level_bounds,
+                                level,
+                                pos,
+                                self.branching_factor,
+                                node_item,
+                            )?;
                             // Add this node to the queue with its minimum distance
                             queue.push(Reverse(QueueItem {
                                 distance: dist,
@@ -691,7 +736,7 @@ impl PackedRTree {
         node_size: u16,
         query: Query,
     ) -> Result<Vec<SearchResultItem>, Error> {
-        let level_bounds = PackedRTree::generate_level_bounds(num_items, node_size);
+        let level_bounds = PackedRTree::checked_level_bounds(num_items, node_size)?;
         let Range {
             start: leaf_nodes_offset,
             end: num_nodes,
@@ -731,6 +776,7 @@ impl PackedRTree {
                             let offset = node_item.offset as usize;
                             results.push(SearchResultItem { offset, index });
                         } else {
+                            check_child(&level_bounds, level, pos, node_size, node_item)?;
                             let offset = node_item.offset as usize;
                             let prev_level = level - 1;
                             queue.push_back((offset, prev_level));
@@ -770,6 +816,7 @@ impl PackedRTree {
                             let offset = node_item.offset as usize;
                             results.push(SearchResultItem { offset, index });
                         } else {
+                            check_child(&level_bounds, level, pos, node_size, node_item)?;
                             let offset = node_item.offset as usize;
                             let prev_level = level - 1;
                             queue.push_back((offset, prev_level));
@@ -866,6 +913,7 @@ impl PackedRTree {
                                 _ => {}
                             }
                         } else {
+                            check_child(&level_bounds, level, pos, node_size, node_item)?;
                             // Add this node to the queue with its minimum distance
                             queue.push(Reverse(QueueItem {
                                 distance: dist,
@@ -912,6 +960,35 @@ impl PackedRTree {
         num_nodes * size_of::<NodeItem>()
     }
 
+    /// Size in bytes of the tree, unless there is no such tree
+    pub fn checked_index_size(num_items: usize, node_size: u16) -> Result<usize, Error> {
+        if node_size < 2 {
+            return Err("node size must be at least 2".into());
+        }
+        if num_items == 0 {
+            return Err("cannot create empty tree".into());
+        }
+        let mut n = num_items;
+        let mut num_nodes = Some(n);
+        loop {
+            n = n.div_ceil(node_size as usize);
+            num_nodes = num_nodes.and_then(|nodes| nodes.checked_add(n));
+            if n == 1 {
+                break;
+            }
+        }
+        num_nodes
+            .and_then(|nodes| nodes.checked_mul(size_of::<NodeItem>()))
+            // the file that holds the tree has a size that can be sought
+            .filter(|size| *size <= isize::MAX as usize)
+            .ok_or_else(|| "number of items too large".into())
+    }
+
+    fn checked_level_bounds(num_items: usize, node_size: u16) -> Result<Vec<Range<usize>>, Error> {
+        PackedRTree::checked_index_size(num_items, node_size)?;
+        Ok(PackedRTree::generate_level_bounds(num_items, node_size))
+    }
+
     /// Write all index nodes
     pub fn stream_write<W: Write>(&self, out: &mut W) -> std::io::Result<()> {
         for item in &self.node_items {
@@ -941,9 +1018,24 @@ impl PackedRTree {
             return Ok(vec![]);
         }
 
-        let level_bounds = PackedRTree::generate_level_bounds(num_items, branching_factor);
+        let level_bounds = PackedRTree::checked_level_bounds(num_items, branching_factor)?;
         let feature_begin =
             index_begin + attr_index_size + PackedRTree::index_size(num_items, branching_factor);
+        // where a feature starts in the file
+        let feature_start = |node_item: &NodeItem| -> Result<usize, Error> {
+            feature_begin
+                .checked_add(node_item.offset as usize)
+                .filter(|start| *start <= isize::MAX as usize)
+                .ok_or_else(|| "feature offset too large".into())
+        };
+        // the bytes of a feature, which end where the next one starts
+        let feature_range = |node_item: &NodeItem, next: &NodeItem| -> Result<HttpRange, Error> {
+            let range = feature_start(node_item)?..feature_start(next)?;
+            if range.is_empty() {
+                return Err("features of the index are not in order".into());
+            }
+            Ok(HttpRange::Range(range))
+        };
 
         match query {
             Query::BBox(min_x, min_y, max_x, max_y) => {
@@ -975,22 +1067,24 @@ impl PackedRTree {
 
                         if node_range.level == 0 {
                             // leaf node
-                            let start = feature_begin + node_item.offset as usize;
                             if let Some(next_node_item) = &node_items.get(node_pos + 1) {
-                                let end = feature_begin + next_node_item.offset as usize;
                                 results.push(HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
+                                    range: feature_range(node_item, next_node_item)?,
                                 });
-                            } else {
-                                debug_assert_eq!(
-                                    node_range.nodes.start + node_pos + 1,
-                                    level_bounds[0].end
-                                );
+                            } else if node_range.nodes.start + node_pos + 1 == level_bounds[0].end {
                                 results.push(HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
+                                    range: HttpRange::RangeFrom(feature_start(node_item)?..),
                                 });
                             }
+                            // else it is the extra node, which is found through its own parent
                         } else {
+                            check_child(
+                                &level_bounds,
+                                node_range.level,
+                                node_range.nodes.start + node_pos,
+                                branching_factor,
+                                node_item,
+                            )?;
                             let children_level = node_range.level - 1;
                             let mut children_nodes = node_item.offset as usize
                                 ..(node_item.offset + branching_factor as u64) as usize;
@@ -1087,22 +1181,24 @@ impl PackedRTree {
 
                         if node_range.level == 0 {
                             // leaf node
-                            let start = feature_begin + node_item.offset as usize;
                             if let Some(next_node_item) = &node_items.get(node_pos + 1) {
-                                let end = feature_begin + next_node_item.offset as usize;
                                 results.push(HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
+                                    range: feature_range(node_item, next_node_item)?,
                                 });
-                            } else {
-                                debug_assert_eq!(
-                                    node_range.nodes.start + node_pos + 1,
-                                    level_bounds[0].end
-                                );
+                            } else if node_range.nodes.start + node_pos + 1 == level_bounds[0].end {
                                 results.push(HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
+                                    range: HttpRange::RangeFrom(feature_start(node_item)?..),
                                 });
                             }
+                            // else it is the extra node, which is found through its own parent
                         } else {
+                            check_child(
+                                &level_bounds,
+                                node_range.level,
+                                node_range.nodes.start + node_pos,
+                                branching_factor,
+                                node_item,
+                            )?;
                             let children_level = node_range.level - 1;
                             let mut children_nodes = node_item.offset as usize
                                 ..(node_item.offset + branching_factor as u64) as usize;
@@ -1228,16 +1324,14 @@ impl PackedRTree {
                             let centroid_dist = node_item.centroid_distance_squared(x, y);
 
                             // Create range for the result
-                            let start = feature_begin + node_item.offset as usize;
                             let result = if let Some(next_node_item) = &node_items.get(node_pos + 1)
                             {
-                                let end = feature_begin + next_node_item.offset as usize;
                                 HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
+                                    range: feature_range(node_item, next_node_item)?,
                                 }
                             } else {
                                 HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
+                                    range: HttpRange::RangeFrom(feature_start(node_item)?..),
                                 }
                             };
 
@@ -1250,6 +1344,13 @@ impl PackedRTree {
                             }
                         } else {
                             // Not a leaf node - add children to the queue
+                            check_child(
+                                &level_bounds,
+                                next.level,
+                                next.nodes.start + node_pos,
+                                branching_factor,
+                                node_item,
+                            )?;
                             let children_level = next.level - 1;
                             let mut children_nodes = node_item.offset as usize
                                 ..(node_item.offset + branching_factor as u64) as usize;
-- 
2.43.0


From faedda3d1f804c67e1b793ebae6ec1193ab2da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 36/47] fix: a malformed attribute index is an error instead of
 a panic or a huge allocation

---
 src/rust/fcb_core/src/static_btree/key.rs     | 10 +-
 src/rust/fcb_core/src/static_btree/payload.rs |  3 +-
 src/rust/fcb_core/src/static_btree/stree.rs   | 94 ++++++++++++-------
 3 files changed, 70 insertions(+), 37 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 47d30f7..49e2430 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -406,8 +406,9 @@ impl Key for DateTime<Utc> {
     fn read_from<R: Read>(reader: &mut R) -> Result<Self> {
         let secs = reader.read_i64::<LittleEndian>()?;
         let nanos = reader.read_u32::<LittleEndian>()?;
-        let ndt =
-            chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).expect("invalid datetime value");
+        let ndt = chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).ok_or_else(|| {
+            Error::KeyDeserializationError(format!("no date and time: {secs} s {nanos} ns"))
+        })?;
         let dt = DateTime::<Utc>::from_utc(ndt, Utc);
         Ok(dt)
     }
@@ -418,8 +419,9 @@ impl Key for DateTime<Utc> {
         array.copy_from_slice(&bytes[0..Self::SERIALIZED_SIZE]);
         let secs = i64::from_le_bytes(array[0..8].try_into().unwrap());
         let nanos = u32::from_le_bytes(array[8..12].try_into().unwrap());
-        let ndt =
-            chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).expect("invalid datetime value");
+        let ndt = chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).ok_or_else(|| {
+            Error::KeyDeserializationError(format!("no date and time: {secs} s {nanos} ns"))
+        })?;
         let dt = DateTime::<Utc>::from_utc(ndt, Utc);
         Ok(dt)
     }
diff --git a/src/rust/fcb_core/src/static_btree/payload.rs b/src/rust/fcb_core/src/static_btree/payload.rs
index 550e753..cd2b599 100644
--- a/src/rust/fcb_core/src/static_btree/payload.rs
+++ b/src/rust/fcb_core/src/static_btree/payload.rs
@@ -52,7 +52,8 @@ impl PayloadEntry {
     pub fn deserialize<R: Read + Seek + ?Sized>(data: &mut R) -> Result<(Self, usize)> {
         // [count, offset1, offset2, ...]
         let count = data.read_u32::<LittleEndian>()?;
-        let mut offsets = Vec::with_capacity(count as usize);
+        // the count may be wrong, memory is only taken for offsets that are there
+        let mut offsets = Vec::new();
         for _ in 0..count {
             offsets.push(data.read_u64::<LittleEndian>()?);
         }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 00bc4c8..932cb4c 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -89,10 +89,14 @@ fn child_node_at<K: Key>(
     }
 }
 
-/// Read full capacity of vec from data stream
-fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
+/// Read this many nodes from data stream
+fn read_node_vec<K: Key>(
+    node_items: &mut Vec<NodeItem<K>>,
+    num_nodes: usize,
+    mut data: impl Read,
+) -> Result<()> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..num_nodes {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
@@ -109,7 +113,7 @@ fn read_node_items<K: Key, R: Read + Seek + ?Sized>(
     data.seek(SeekFrom::Start(
         base + (node_index * NodeItem::<K>::SERIALIZED_SIZE) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -274,6 +278,17 @@ enum PayloadRef {
     Indirect(usize),
 }
 
+/// A found feature, which starts at this offset of the feature section
+#[cfg(feature = "http")]
+fn search_result(feature_begin: usize, offset: Offset) -> Result<HttpSearchResultItem> {
+    let start = feature_begin
+        .checked_add(offset as usize)
+        .ok_or_else(|| Error::InvalidFormat(format!("feature offset {offset} is too large")))?;
+    Ok(HttpSearchResultItem {
+        range: HttpRange::RangeFrom(start..),
+    })
+}
+
 /// Batch resolve multiple payload references in a single HTTP request
 #[cfg(feature = "http")]
 async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
@@ -299,10 +314,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         match payload_ref {
             PayloadRef::Direct(offset) => {
                 // Direct offsets can be added to results immediately
-                let start = feature_begin + offset as usize;
-                results.push(HttpSearchResultItem {
-                    range: HttpRange::RangeFrom(start..),
-                });
+                results.push(search_result(feature_begin, offset)?);
             }
             PayloadRef::Indirect(rel_offset) => {
                 let abs_offset = payload_section_start + rel_offset;
@@ -314,10 +326,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
                         match cache.get_entry(abs_offset) {
                             Ok(entry) => {
                                 for offset in entry.offsets {
-                                    let start = feature_begin + offset as usize;
-                                    results.push(HttpSearchResultItem {
-                                        range: HttpRange::RangeFrom(start..),
-                                    });
+                                    results.push(search_result(feature_begin, offset)?);
                                 }
                                 continue;
                             }
@@ -418,10 +427,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
     for &offset in &payload_offsets_to_fetch {
         if let Some(entry) = fetched_payloads.get(&offset) {
             for offset in &entry.offsets {
-                let start = feature_begin + *offset as usize;
-                results.push(HttpSearchResultItem {
-                    range: HttpRange::RangeFrom(start..),
-                });
+                results.push(search_result(feature_begin, *offset)?);
             }
         }
     }
@@ -551,6 +557,25 @@ impl<K: Key> Stree<K> {
         level_bounds
     }
 
+    /// Bounds of the levels, unless there is no such tree
+    fn checked_level_bounds(num_items: usize, branching_factor: u16) -> Result<Vec<Range<usize>>> {
+        if branching_factor < 2 {
+            return Err(Error::InvalidFormat(
+                "branching factor must be at least 2".to_string(),
+            ));
+        }
+        if num_items == 0 {
+            return Err(Error::InvalidFormat("empty tree".to_string()));
+        }
+        // there are at most twice as many nodes as items, and one per level
+        if num_items > isize::MAX as usize / (8 * Entry::<K>::SERIALIZED_SIZE) {
+            return Err(Error::InvalidFormat(
+                "number of items too large".to_string(),
+            ));
+        }
+        Ok(Self::generate_level_bounds(num_items, branching_factor))
+    }
+
     fn generate_nodes(&mut self) -> Result<()> {
         let node_size = self.branching_factor as usize - 1;
         let mut parent_min_key = HashMap::<usize, K>::new(); // key is the parent node's index, value is the minimum key of the right children node's leaf node
@@ -646,8 +671,8 @@ impl<K: Key> Stree<K> {
         Ok(())
     }
 
-    fn read_data(&mut self, data: impl Read) -> Result<()> {
-        read_node_vec(&mut self.node_items, data)?;
+    fn read_data(&mut self, num_nodes: usize, data: impl Read) -> Result<()> {
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         Ok(())
     }
 
@@ -741,13 +766,13 @@ impl<K: Key> Stree<K> {
     ) -> Result<Stree<K>> {
         // NOTE: Since it's B+Tree, the branching factor is the number of children per node. Node size is branching factor - 1
         let branching_factor = branching_factor.clamp(2u16, 65535u16);
-        let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
+        let level_bounds = Stree::<K>::checked_level_bounds(num_items, branching_factor)?;
         let num_nodes = level_bounds
             .first()
             .expect("Btree has at least one level when node_size >= 2 and num_items > 0")
             .end;
         let mut tree = Stree::<K> {
-            node_items: Vec::with_capacity(num_nodes),
+            node_items: Vec::new(),
             num_leaf_nodes: num_items,
             branching_factor,
             level_bounds,
@@ -755,7 +780,7 @@ impl<K: Key> Stree<K> {
             payload_initialized: false,
         };
         // Read node items (index)
-        tree.read_data(&mut data)?;
+        tree.read_data(num_nodes, &mut data)?;
         // Read any remaining bytes as payload data
         let mut payload = Vec::new();
         data.read_to_end(&mut payload)?;
@@ -781,11 +806,19 @@ impl<K: Key> Stree<K> {
             payload_data: Vec::new(),
             payload_initialized: false,
         };
+        Stree::<K>::checked_level_bounds(num_items, node_size)?;
         tree.init(node_size)?;
         tree.read_http(client, index_begin).await?;
         Ok(tree)
     }
 
+    /// Payload entry at this place of the payload section
+    fn payload_entry(&self, rel: usize) -> Result<PayloadEntry> {
+        let data = self.payload_data.get(rel..).unwrap_or_default();
+        let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(data))?;
+        Ok(entry)
+    }
+
     pub fn find_exact(&self, key: K) -> Result<Vec<SearchResultItem>> {
         let leaf_nodes_offset = self
             .level_bounds
@@ -831,9 +864,7 @@ impl<K: Key> Stree<K> {
                         // Check for payload reference
                         if self.payload_initialized && (off & PAYLOAD_TAG) != 0 {
                             let rel = (off & PAYLOAD_MASK) as usize;
-                            let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(
-                                &self.payload_data[rel..],
-                            ))?;
+                            let entry = self.payload_entry(rel)?;
                             for o in entry.offsets {
                                 results.push(SearchResultItem {
                                     offset: o as usize,
@@ -863,8 +894,8 @@ impl<K: Key> Stree<K> {
         let search_entry = NodeItem::new_with_key(key);
         let mut results = Vec::new();
         let mut queue = VecDeque::new();
+        let level_bounds = Stree::<K>::checked_level_bounds(num_items, branching_factor)?;
         let node_size = branching_factor as usize - 1;
-        let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
 
         let Range {
             start: leaf_nodes_offset,
@@ -1006,8 +1037,7 @@ impl<K: Key> Stree<K> {
                     let idx = current_idx + _i - leaf_nodes_offset;
                     if self.payload_initialized && (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        let (entry, _) =
-                            PayloadEntry::deserialize(&mut Cursor::new(&self.payload_data[rel..]))?;
+                        let entry = self.payload_entry(rel)?;
                         for o in entry.offsets {
                             results.push(SearchResultItem {
                                 offset: o as usize,
@@ -1036,8 +1066,8 @@ impl<K: Key> Stree<K> {
         lower: K,
         upper: K,
     ) -> Result<Vec<SearchResultItem>> {
+        let level_bounds = Stree::<K>::checked_level_bounds(num_items, branching_factor)?;
         let node_size = branching_factor as usize - 1;
-        let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
 
         let Range {
             start: leaf_nodes_offset,
@@ -1163,8 +1193,8 @@ impl<K: Key> Stree<K> {
         key: K,
     ) -> Result<usize> {
         let start_position = data.stream_position()?;
+        let level_bounds = Stree::<K>::checked_level_bounds(num_items, branching_factor)?;
         let node_size = branching_factor as usize - 1;
-        let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
 
         let mut node_index = 0;
 
@@ -1208,8 +1238,8 @@ impl<K: Key> Stree<K> {
             return Ok(vec![]);
         }
         let search_entry = NodeItem::new_with_key(key.clone());
+        let level_bounds = Stree::<K>::checked_level_bounds(num_items, branching_factor)?;
         let node_size = branching_factor as usize - 1;
-        let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
 
         // let Range {
         //     start: leaf_nodes_offset,
@@ -1399,8 +1429,8 @@ impl<K: Key> Stree<K> {
             return Ok(0);
         }
 
+        let level_bounds = Self::checked_level_bounds(num_items, branching_factor)?;
         let node_size = branching_factor as usize - 1;
-        let level_bounds = Self::generate_level_bounds(num_items, branching_factor);
 
         debug!("http_stream_find_partition - index_begin: {index_begin}, num_items: {num_items}, branching_factor: {branching_factor}, level_bounds: {level_bounds:?}, key: {key:?}");
 
@@ -1620,8 +1650,8 @@ impl<K: Key> Stree<K> {
             .await;
         }
 
+        let level_bounds = Self::checked_level_bounds(num_items, branching_factor)?;
         let node_size = branching_factor as usize - 1;
-        let level_bounds = Self::generate_level_bounds(num_items, branching_factor);
 
         let num_all_items = level_bounds
             .first()
-- 
2.43.0


From 6c09b37b6136ddf89d6050e821d073b49a5f2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 37/47] fix: sizes and offsets stated by a malformed file cause
 errors instead of panics or huge allocations

---
 src/rust/fcb_core/src/http_reader/mod.rs   |  75 +++++++------
 src/rust/fcb_core/src/reader/attr_query.rs |  25 ++---
 src/rust/fcb_core/src/reader/mod.rs        | 119 +++++++++++++--------
 3 files changed, 126 insertions(+), 93 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index c1c9d94..6965592 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -47,6 +47,10 @@ async fn get_exact<T: AsyncHttpRangeClient>(
     begin: usize,
     length: usize,
 ) -> Result<&[u8]> {
+    if begin > isize::MAX as usize - length {
+        // beyond the end of any file
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
     let bytes = client.get_range(begin, length).await?;
     if bytes.len() != length {
         return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
@@ -152,45 +156,40 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         MAGIC_BYTES_SIZE + self.fbs.header_buf.len()
     }
 
-    fn rtree_index_size(&self) -> usize {
+    fn rtree_index_size(&self) -> Result<usize> {
         let header = self.fbs.header();
         let feat_count = header.features_count() as usize;
         if header.index_node_size() > 0 && feat_count > 0 {
-            PackedRTree::index_size(feat_count, header.index_node_size())
+            Ok(PackedRTree::checked_index_size(
+                feat_count,
+                header.index_node_size(),
+            )?)
         } else {
-            0
+            Ok(0)
         }
     }
 
-    fn attr_index_size(&self) -> usize {
+    fn attr_index_size(&self) -> Result<usize> {
         let header = self.fbs.header();
-        header
-            .attribute_index()
-            .map(|attr_index| {
-                attr_index
-                    .iter()
-                    .try_fold(0, |acc, ai| {
-                        let len = ai.length() as usize;
-                        if len > usize::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    }) // sum of all attribute index lengths
-                    .unwrap_or(0)
-            })
-            .unwrap_or(0)
+        header.attribute_index().map_or(Ok(0), |attr_index| {
+            attr_index
+                .iter()
+                .try_fold(0usize, |acc, ai| acc.checked_add(ai.length() as usize))
+                .ok_or(Error::AttributeIndexSizeOverflow)
+        })
     }
 
-    fn index_size(&self) -> usize {
-        self.rtree_index_size() + self.attr_index_size()
+    fn index_size(&self) -> Result<usize> {
+        self.rtree_index_size()?
+            .checked_add(self.attr_index_size()?)
+            .ok_or(Error::AttributeIndexSizeOverflow)
     }
 
     /// Select all features.
     pub async fn select_all(self) -> Result<AsyncFeatureIter<T>> {
         let header = self.fbs.header();
         let count = header.features_count();
-        let index_size = self.index_size() as usize;
+        let index_size = self.index_size()?;
         // Skip index
         let feature_base = self.header_len() + index_size;
         Ok(AsyncFeatureIter {
@@ -216,7 +215,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
 
         // request up to this many extra bytes if it means we can eliminate an extra request
         let combine_request_threshold = 256 * 1024;
-        let attr_index_size = self.attr_index_size() as usize;
+        let attr_index_size = self.attr_index_size()?;
         let list = PackedRTree::http_stream_search(
             &mut self.client,
             header_len,
@@ -227,11 +226,14 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             combine_request_threshold,
         )
         .await?;
-        debug_assert!(
-            list.windows(2)
-                .all(|w| w[0].range.start() < w[1].range.start()),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        if !list
+            .windows(2)
+            .all(|w| w[0].range.start() < w[1].range.start())
+        {
+            return Err(
+                crate::packed_rtree::Error::from("features of the index are not in order").into(),
+            );
+        }
 
         let count = list.len();
         let feature_batches = FeatureBatch::make_batches(list, combine_request_threshold).await?;
@@ -255,8 +257,8 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
 
         // file structure:
         // magic_bytes + header + rtree_index + attr_index1 + attr_index2 + ... + features
-        let rtree_index_size = self.rtree_index_size() as usize;
-        let attr_index_size = self.attr_index_size() as usize;
+        let rtree_index_size = self.rtree_index_size()?;
+        let attr_index_size = self.attr_index_size()?;
         let attr_index_begin = header_len + rtree_index_size;
         let feature_begin = header_len + rtree_index_size + attr_index_size;
 
@@ -612,14 +614,21 @@ impl FeatureBatch {
             let previous_item = latest_batch.back().expect("we never push an empty batch");
 
             let HttpRange::Range(Range { end: prev_end, .. }) = previous_item else {
-                debug_assert!(false, "This shouldn't happen. Only the very last feature is expected to have an unknown length");
+                // Only the very last feature is expected to have an unknown length
                 let mut new_batch = VecDeque::new();
                 new_batch.push_back(search_result_item.range);
                 batched_ranges.push(new_batch);
                 continue;
             };
 
-            let wasted_bytes = search_result_item.range.start() - prev_end;
+            // features do not overlap
+            let wasted_bytes = search_result_item
+                .range
+                .start()
+                .checked_sub(*prev_end)
+                .ok_or(crate::packed_rtree::Error::from(
+                    "features of the index are not in order",
+                ))?;
             if wasted_bytes < combine_request_threshold {
                 if wasted_bytes == 0 {
                     trace!("adjacent feature");
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 892b917..e7b2970 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -3,7 +3,7 @@ use crate::static_btree::{
     QueryCondition, StreamIndex, StreamMultiIndex,
 };
 use std::collections::HashMap;
-use std::io::{self, Cursor, Read, Seek, SeekFrom};
+use std::io::{Cursor, Read, Seek, SeekFrom};
 use std::ops::Range;
 
 use crate::error::{Error, Result};
@@ -14,8 +14,9 @@ use crate::fb::ColumnType;
 use crate::{AttributeIndex, Column};
 
 use super::{
+    read_sized,
     reader_trait::{NotSeekable, Seekable},
-    FcbReader, FeatureIter,
+    seek_forward, skip_forward, FcbReader, FeatureIter,
 };
 
 pub type AttrQuery = Vec<(String, Operator, KeyType)>;
@@ -28,8 +29,8 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
     attr_info: &AttributeIndex,
 ) -> Result<()> {
     let length = attr_info.length();
-    let mut buf = vec![0; length as usize];
-    data.read_exact(&mut buf)?;
+    let mut buf = Vec::new();
+    read_sized(&mut data, &mut buf, length as usize)?;
     let mut buf = Cursor::new(buf);
     if let Some(col) = columns.iter().find(|col| col.index() == attr_info.index()) {
         if query.iter().any(|(name, _, _)| col.name() == name) {
@@ -355,8 +356,8 @@ impl<R: Read + Seek> FcbReader<R> {
         // let start_pos = self.reader.stream_position()?;
 
         // Skip the rtree index bytes; we know the correct offset for that
-        let rtree_offset = self.rtree_index_size();
-        self.reader.seek(SeekFrom::Current(rtree_offset as i64))?;
+        let rtree_offset = self.rtree_index_size()?;
+        seek_forward(&mut self.reader, rtree_offset)?;
 
         // Now we should be at the start of the attribute indices
         let attr_index_start_pos = self.reader.stream_position()?;
@@ -408,7 +409,7 @@ impl<R: Read + Seek> FcbReader<R> {
 
         let total_feat_count = result_vec.len() as u64;
 
-        let attr_index_size = self.attr_index_size();
+        let attr_index_size = self.attr_index_size()?;
         self.reader
             .seek(SeekFrom::Start(attr_index_start_pos + attr_index_size))?;
 
@@ -440,8 +441,8 @@ impl<R: Read> FcbReader<R> {
             .collect();
 
         // Instead of seeking, read and discard the rtree index bytes; we know the correct offset for that.
-        let rtree_offset = self.rtree_index_size();
-        io::copy(&mut (&mut self.reader).take(rtree_offset), &mut io::sink())?;
+        let rtree_offset = self.rtree_index_size()?;
+        skip_forward(&mut self.reader, rtree_offset)?;
 
         // Since we can't use StreamableMultiIndex with a non-seekable reader,
         // we'll still use MultiIndex but optimize the process to minimize memory usage
@@ -470,11 +471,7 @@ impl<R: Read> FcbReader<R> {
                 )?;
             } else {
                 // Skip this attribute index if not needed
-                let index_size = attr_info.length();
-                io::copy(
-                    &mut (&mut self.reader).take(index_size as u64),
-                    &mut io::sink(),
-                )?;
+                skip_forward(&mut self.reader, attr_info.length() as u64)?;
             }
         }
 
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 141918a..c848567 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -57,6 +57,40 @@ enum State {
     Finished,
 }
 
+/// Append exactly `size` bytes. The size comes from the data, which may hold fewer, so memory is
+/// only taken for bytes that are there.
+fn read_sized<R: Read>(reader: &mut R, buf: &mut Vec<u8>, size: usize) -> Result<(), Error> {
+    if reader.take(size as u64).read_to_end(buf)? != size {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(())
+}
+
+/// Read and discard exactly `distance` bytes.
+fn skip_forward<R: Read>(reader: &mut R, distance: u64) -> Result<(), Error> {
+    if io::copy(&mut reader.take(distance), &mut io::sink())? != distance {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(())
+}
+
+/// Move forward. No file is so long that the distance does not fit.
+fn seek_forward<S: Seek>(reader: &mut S, distance: u64) -> Result<(), Error> {
+    let distance = i64::try_from(distance)
+        .map_err(|_| Error::from(io::Error::from(io::ErrorKind::UnexpectedEof)))?;
+    reader.seek(SeekFrom::Current(distance))?;
+    Ok(())
+}
+
+/// The found features in the order of the file, which is how the index of the file has them
+fn check_sorted(list: &[packed_rtree::SearchResultItem]) -> Result<(), Error> {
+    if list.windows(2).all(|w| w[0].offset < w[1].offset) {
+        Ok(())
+    } else {
+        Err(packed_rtree::Error::from("features of the index are not in order").into())
+    }
+}
+
 #[doc(hidden)]
 pub mod reader_trait {
     pub struct Seekable;
@@ -93,10 +127,8 @@ impl<R: Read> FcbReader<R> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        let mut header_buf = Vec::with_capacity(header_size + 4); // 4 bytes for size prefix
-        header_buf.extend_from_slice(&size_buf);
-        header_buf.resize(header_buf.capacity(), 0);
-        reader.read_exact(&mut header_buf[4..])?;
+        let mut header_buf = size_buf.to_vec();
+        read_sized(&mut reader, &mut header_buf, header_size)?;
 
         if verify {
             let _header = size_prefixed_root_as_header(&header_buf)?;
@@ -113,9 +145,9 @@ impl<R: Read> FcbReader<R> {
     }
 
     pub fn select_all_seq(mut self) -> Result<FeatureIter<R, NotSeekable>, Error> {
-        let index_size = self.attr_index_size() + self.rtree_index_size();
+        let index_size = self.index_size()?;
         // discard bufer of index
-        io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
+        skip_forward(&mut self.reader, index_size)?;
         let total_feat_count = self.buffer.header().features_count();
         FeatureIter::new(
             self.reader,
@@ -139,13 +171,10 @@ impl<R: Read> FcbReader<R> {
             header.index_node_size(),
         )?;
         let list = index.search(query)?;
-        debug_assert!(
-            list.windows(2).all(|w| w[0].offset < w[1].offset),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        check_sorted(&list)?;
         // skip attribute index
-        let index_size = self.attr_index_size();
-        io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
+        let index_size = self.attr_index_size()?;
+        skip_forward(&mut self.reader, index_size)?;
         let total_feat_count = list.len() as u64;
         FeatureIter::new(
             self.reader,
@@ -161,8 +190,8 @@ impl<R: Read> FcbReader<R> {
 impl<R: Read + Seek> FcbReader<R> {
     pub fn select_all(mut self) -> Result<FeatureIter<R, Seekable>, Error> {
         // skip index
-        let index_size = self.attr_index_size() + self.rtree_index_size();
-        self.reader.seek(SeekFrom::Current(index_size as i64))?;
+        let index_size = self.index_size()?;
+        seek_forward(&mut self.reader, index_size)?;
         let total_feat_count = self.buffer.header().features_count();
         FeatureIter::new(
             self.reader,
@@ -186,13 +215,10 @@ impl<R: Read + Seek> FcbReader<R> {
             header.index_node_size(),
             query,
         )?;
-        debug_assert!(
-            list.windows(2).all(|w| w[0].offset < w[1].offset),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        check_sorted(&list)?;
         // skip index
-        self.reader
-            .seek(SeekFrom::Current(self.attr_index_size() as i64))?;
+        let index_size = self.attr_index_size()?;
+        seek_forward(&mut self.reader, index_size)?;
         let total_feat_count = list.len() as u64;
         FeatureIter::new(
             self.reader,
@@ -216,34 +242,31 @@ impl<R: Read> FcbReader<R> {
         self.buffer.header().columns()
     }
 
-    fn rtree_index_size(&self) -> u64 {
+    fn rtree_index_size(&self) -> Result<u64, Error> {
         let header = self.buffer.header();
         let feat_count = header.features_count() as usize;
         if header.index_node_size() > 0 && feat_count > 0 {
-            PackedRTree::index_size(feat_count, header.index_node_size()) as u64
+            Ok(PackedRTree::checked_index_size(feat_count, header.index_node_size())? as u64)
         } else {
-            0
+            Ok(0)
         }
     }
 
-    fn attr_index_size(&self) -> u64 {
+    fn attr_index_size(&self) -> Result<u64, Error> {
         let header = self.buffer.header();
-        header
-            .attribute_index()
-            .map(|attr_index| {
-                attr_index
-                    .iter()
-                    .try_fold(0u32, |acc, ai| {
-                        let len = ai.length();
-                        if len > u32::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    })
-                    .unwrap_or(0)
-            })
-            .unwrap_or(0) as u64
+        header.attribute_index().map_or(Ok(0), |attr_index| {
+            attr_index
+                .iter()
+                .try_fold(0u64, |acc, ai| acc.checked_add(ai.length() as u64))
+                .ok_or(Error::AttributeIndexSizeOverflow)
+        })
+    }
+
+    /// Size of everything between the header and the features
+    fn index_size(&self) -> Result<u64, Error> {
+        self.rtree_index_size()?
+            .checked_add(self.attr_index_size()?)
+            .ok_or(Error::AttributeIndexSizeOverflow)
     }
 }
 
@@ -304,7 +327,7 @@ impl<R: Read> FeatureIter<R, NotSeekable> {
                 }
                 // skip features
                 let seek_bytes = item.offset as u64 - self.cur_pos;
-                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
+                skip_forward(&mut self.reader, seek_bytes)?;
                 self.cur_pos += seek_bytes;
             }
         }
@@ -317,7 +340,7 @@ impl<R: Read> FeatureIter<R, NotSeekable> {
                     self.state = State::Reading;
                 }
                 let seek_bytes = item_offset - self.cur_pos;
-                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
+                skip_forward(&mut self.reader, seek_bytes)?;
                 self.cur_pos += seek_bytes;
             }
         }
@@ -366,7 +389,7 @@ impl<R: Read + Seek> FeatureIter<R, Seekable> {
                 }
                 // skip features
                 let seek_bytes = item.offset as u64 - self.cur_pos;
-                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                seek_forward(&mut self.reader, seek_bytes)?;
                 self.cur_pos += seek_bytes;
             }
         }
@@ -379,7 +402,7 @@ impl<R: Read + Seek> FeatureIter<R, Seekable> {
                 }
                 // skip features
                 let seek_bytes = item_offset - self.cur_pos;
-                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                seek_forward(&mut self.reader, seek_bytes)?;
                 self.cur_pos += seek_bytes;
             }
         }
@@ -544,8 +567,12 @@ impl<R: Read, S> FeatureIter<R, S> {
         }
         let sbuf = &self.buffer.features_buf;
         let feature_size = u32::from_le_bytes([sbuf[0], sbuf[1], sbuf[2], sbuf[3]]) as usize;
-        self.buffer.features_buf.resize(feature_size + 4, 0);
-        self.reader.read_exact(&mut self.buffer.features_buf[4..])?;
+        self.buffer.features_buf.truncate(4);
+        read_sized(
+            &mut self.reader,
+            &mut self.buffer.features_buf,
+            feature_size,
+        )?;
         if self.verify {
             let _feature = size_prefixed_root_as_city_feature(&self.buffer.features_buf)?;
         }
-- 
2.43.0


From 7a0d4bff5c705e2b91c2152039d3a30e31a6d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:56 +0000
Subject: [PATCH 38/47] fix: decoding a malformed feature or header returns an
 error instead of panicking

---
 src/rust/fcb_core/src/reader/deserializer.rs | 285 ++++++++-----------
 src/rust/fcb_core/src/reader/geom_decoder.rs | 129 +++++++--
 2 files changed, 222 insertions(+), 192 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index f728aed..f241f32 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -3,7 +3,9 @@ use std::{collections::HashMap, mem::size_of};
 use crate::{
     error::Error,
     fb::*,
-    geom_decoder::{decode, decode_materials, decode_semantics, decode_textures},
+    geom_decoder::{
+        check_boundaries, decode, decode_materials, decode_textures, try_decode_semantics,
+    },
 };
 use byteorder::{ByteOrder, LittleEndian};
 use cjseq::{
@@ -12,9 +14,10 @@ use cjseq::{
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
     MaterialObject as CjMaterial, MaterialValues as CjMaterialValues, Metadata as CjMetadata,
-    PointOfContact as CjPointOfContact, ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
-    TextType as CjTextType, TextureObject as CjTexture, TextureValues as CjTextureValues,
-    Transform as CjTransform, WrapMode as CjWrapMode,
+    PointOfContact as CjPointOfContact, ReferenceSystem as CjReferenceSystem,
+    Semantics as CjSemantics, TextFormat as CjTextFormat, TextType as CjTextType,
+    TextureObject as CjTexture, TextureValues as CjTextureValues, Transform as CjTransform,
+    WrapMode as CjWrapMode,
 };
 
 use super::meta::{Column as MetaColumn, ColumnType as MetaColumnType, Meta};
@@ -62,18 +65,16 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     cj.version = header.version().to_string();
     cj.thetype = String::from("CityJSON");
 
-    let geographical_extent = header
-        .geographical_extent()
-        .map(|extent| {
-            [
-                extent.min().x(),
-                extent.min().y(),
-                extent.min().z(),
-                extent.max().x(),
-                extent.max().y(),
-                extent.max().z(),
-            ]
-        });
+    let geographical_extent = header.geographical_extent().map(|extent| {
+        [
+            extent.min().x(),
+            extent.min().y(),
+            extent.min().z(),
+            extent.max().x(),
+            extent.max().y(),
+            extent.max().z(),
+        ]
+    });
 
     let point_of_contact = match header.poc_contact_name() {
         Some(_) => Some(to_cj_point_of_contact(header)?),
@@ -89,7 +90,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         title: header.title().map(|t| t.to_string()),
     });
 
-    cj.appearance = decode_appearance(header.appearance());
+    cj.appearance = decode_appearance(header.appearance())?;
 
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
@@ -252,146 +253,99 @@ pub(crate) fn to_cj_co_type(co_type: CityObjectType, extension_type: Option<&str
     }
 }
 
+/// Decodes an encoded attribute list.
+///
+/// # Panics
+///
+/// Panics if the encoded list is malformed; see [`try_decode_attributes`].
 pub fn decode_attributes(
     columns: &flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>,
     attributes: flatbuffers::Vector<'_, u8>,
 ) -> serde_json::Value {
-    if attributes.is_empty() {
-        return serde_json::Value::Object(serde_json::Map::new());
+    try_decode_attributes(columns, attributes).expect("malformed attributes")
+}
+
+/// Takes the first `len` bytes off the front of `bytes`.
+fn take_bytes<'a>(bytes: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+    if len > bytes.len() {
+        return Err(Error::InvalidAttributeValue {
+            msg: format!(
+                "attribute value of {len} bytes, only {} bytes left",
+                bytes.len()
+            ),
+        });
     }
+    let (head, tail) = bytes.split_at(len);
+    *bytes = tail;
+    Ok(head)
+}
 
+/// Takes a text value, stored with its length in front, off the front of `bytes`.
+fn take_text(bytes: &mut &[u8]) -> Result<String, Error> {
+    let len = LittleEndian::read_u32(take_bytes(bytes, size_of::<u32>())?);
+    let text = take_bytes(bytes, len as usize)?;
+    Ok(String::from_utf8(text.to_vec()).unwrap_or_default())
+}
+
+/// Decodes an encoded attribute list, or reports why it cannot be decoded.
+pub fn try_decode_attributes(
+    columns: &flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>,
+    attributes: flatbuffers::Vector<'_, u8>,
+) -> Result<serde_json::Value, Error> {
     let mut map = serde_json::Map::new();
-    let bytes = attributes.bytes();
-    let mut offset = 0;
-    while offset < bytes.len() {
-        let col_index = LittleEndian::read_u16(&bytes[offset..offset + size_of::<u16>()]) as u16;
-        offset += size_of::<u16>();
-        let column = columns.iter().find(|c| c.index() == col_index);
-        if column.is_none() {
-            panic!("column not found"); //TODO: handle this as an error
-        }
-        let column = column.unwrap();
-        match column.type_() {
+    let mut bytes = attributes.bytes();
+    while !bytes.is_empty() {
+        let col_index = LittleEndian::read_u16(take_bytes(&mut bytes, size_of::<u16>())?);
+        let column = columns
+            .iter()
+            .find(|c| c.index() == col_index)
+            .ok_or_else(|| Error::InvalidAttributeValue {
+                msg: format!("no column with index {col_index}"),
+            })?;
+        let value = match column.type_() {
             ColumnType::Int => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i32(
-                        &bytes[offset..offset + size_of::<i32>()],
-                    ))),
-                );
-                offset += size_of::<i32>();
+                Some(LittleEndian::read_i32(take_bytes(&mut bytes, size_of::<i32>())?).into())
             }
             ColumnType::UInt => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u32(
-                        &bytes[offset..offset + size_of::<u32>()],
-                    ))),
-                );
-                offset += size_of::<u32>();
-            }
-            ColumnType::Bool => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Bool(bytes[offset] != 0),
-                );
-                offset += size_of::<u8>();
-            }
-            ColumnType::Byte => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
-                );
-                offset += size_of::<i8>();
-            }
-            ColumnType::UByte => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
-                );
-                offset += size_of::<u8>();
+                Some(LittleEndian::read_u32(take_bytes(&mut bytes, size_of::<u32>())?).into())
             }
+            ColumnType::Bool => Some((take_bytes(&mut bytes, size_of::<u8>())?[0] != 0).into()),
+            ColumnType::Byte => Some((take_bytes(&mut bytes, size_of::<i8>())?[0] as i8).into()),
+            ColumnType::UByte => Some(take_bytes(&mut bytes, size_of::<u8>())?[0].into()),
             ColumnType::Short => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i16(
-                        &bytes[offset..offset + size_of::<i16>()],
-                    ))),
-                );
-                offset += size_of::<i16>();
+                Some(LittleEndian::read_i16(take_bytes(&mut bytes, size_of::<i16>())?).into())
             }
             ColumnType::UShort => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u16(
-                        &bytes[offset..offset + size_of::<u16>()],
-                    ))),
-                );
-                offset += size_of::<u16>();
+                Some(LittleEndian::read_u16(take_bytes(&mut bytes, size_of::<u16>())?).into())
             }
             ColumnType::Long => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i64(
-                        &bytes[offset..offset + size_of::<i64>()],
-                    ))),
-                );
-                offset += size_of::<i64>();
+                Some(LittleEndian::read_i64(take_bytes(&mut bytes, size_of::<i64>())?).into())
             }
             ColumnType::ULong => {
-                map.insert(
-                    column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u64(
-                        &bytes[offset..offset + size_of::<u64>()],
-                    ))),
-                );
-                offset += size_of::<u64>();
+                Some(LittleEndian::read_u64(take_bytes(&mut bytes, size_of::<u64>())?).into())
             }
             ColumnType::Float => {
-                let f = LittleEndian::read_f32(&bytes[offset..offset + size_of::<f32>()]);
-                if let Some(num) = serde_json::Number::from_f64(f as f64) {
-                    map.insert(column.name().to_string(), serde_json::Value::Number(num));
-                }
-                offset += size_of::<f32>();
+                let f = LittleEndian::read_f32(take_bytes(&mut bytes, size_of::<f32>())?);
+                serde_json::Number::from_f64(f as f64).map(serde_json::Value::Number)
             }
             ColumnType::Double => {
-                let f = LittleEndian::read_f64(&bytes[offset..offset + size_of::<f64>()]);
-                if let Some(num) = serde_json::Number::from_f64(f) {
-                    map.insert(column.name().to_string(), serde_json::Value::Number(num));
-                }
-                offset += size_of::<f64>();
+                let f = LittleEndian::read_f64(take_bytes(&mut bytes, size_of::<f64>())?);
+                serde_json::Number::from_f64(f).map(serde_json::Value::Number)
             }
-            ColumnType::String | ColumnType::Binary => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-                    .unwrap_or_default();
-                map.insert(column.name().to_string(), serde_json::Value::String(s));
-                offset += len as usize;
-            }
-            ColumnType::DateTime => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-                    .unwrap_or_default();
-                map.insert(column.name().to_string(), serde_json::Value::String(s));
-                offset += len as usize;
-            }
-            ColumnType::Json => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-                    .unwrap_or_default();
-                map.insert(column.name().to_string(), serde_json::from_str(&s).unwrap());
-                offset += len as usize;
+            ColumnType::String | ColumnType::Binary | ColumnType::DateTime => {
+                Some(serde_json::Value::String(take_text(&mut bytes)?))
             }
+            ColumnType::Json => Some(serde_json::from_str(&take_text(&mut bytes)?)?),
 
             // TODO: handle other column types
-            _ => unreachable!(),
+            other => return Err(Error::UnsupportedColumnType(format!("{other:?}"))),
+        };
+        if let Some(value) = value {
+            map.insert(column.name().to_string(), value);
         }
     }
 
-    serde_json::Value::Object(map)
+    Ok(serde_json::Value::Object(map))
 }
 
 pub fn to_cj_feature(
@@ -444,12 +398,9 @@ pub fn to_cj_feature(
                     Some(all_geometries)
                 };
 
-                let attributes = if root_attr_schema.is_none() && co.columns().is_none() {
-                    None
-                } else {
-                    co.attributes().map(|a| {
-                        decode_attributes(&co.columns().unwrap_or(root_attr_schema.unwrap()), a)
-                    })
+                let attributes = match (co.columns().or(root_attr_schema), co.attributes()) {
+                    (Some(columns), Some(a)) => Some(try_decode_attributes(&columns, a)?),
+                    _ => None,
                 };
 
                 let children_roles = co
@@ -480,12 +431,29 @@ pub fn to_cj_feature(
         .vertices()
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
-    cj.appearance = decode_appearance(feature.appearance());
+    cj.appearance = decode_appearance(feature.appearance())?;
 
     Ok(cj) // Return Result
 }
 
-pub(crate) fn decode_appearance(appearance: Option<Appearance>) -> Option<CjAppearance> {
+/// Converts a colour vector, which has to have `N` components.
+fn to_cj_color<const N: usize>(
+    color: Option<flatbuffers::Vector<'_, f64>>,
+) -> Result<Option<[f64; N]>, Error> {
+    color
+        .map(|c| {
+            <[f64; N]>::try_from(c.iter().collect::<Vec<_>>()).map_err(|c| {
+                Error::InvalidAttributeValue {
+                    msg: format!("color must be a vector of {N} elements, found {}", c.len()),
+                }
+            })
+        })
+        .transpose()
+}
+
+pub(crate) fn decode_appearance(
+    appearance: Option<Appearance>,
+) -> Result<Option<CjAppearance>, Error> {
     // Decode appearance if present
     if let Some(appearance) = appearance {
         let mut cj_appearance = CjAppearance {
@@ -501,27 +469,18 @@ pub(crate) fn decode_appearance(appearance: Option<Appearance>) -> Option<CjAppe
             let cj_materials = materials
                 .iter()
                 .map(|m| {
-                    // Helper function to convert color vectors
-                    let convert_color = |color_opt: Option<flatbuffers::Vector<'_, f64>>| {
-                        color_opt.map(|c| {
-                            let color_vec: Vec<f64> = c.iter().collect();
-                            assert!(color_vec.len() == 3, "color must be a vector of 3 elements");
-                            [color_vec[0], color_vec[1], color_vec[2]]
-                        })
-                    };
-
-                    CjMaterial {
+                    Ok(CjMaterial {
                         name: m.name().to_string(),
                         ambient_intensity: m.ambient_intensity(),
-                        diffuse_color: convert_color(m.diffuse_color()),
-                        emissive_color: convert_color(m.emissive_color()),
-                        specular_color: convert_color(m.specular_color()),
+                        diffuse_color: to_cj_color(m.diffuse_color())?,
+                        emissive_color: to_cj_color(m.emissive_color())?,
+                        specular_color: to_cj_color(m.specular_color())?,
                         shininess: m.shininess(),
                         transparency: m.transparency(),
                         is_smooth: m.is_smooth(),
-                    }
+                    })
                 })
-                .collect();
+                .collect::<Result<Vec<_>, Error>>()?;
 
             cj_appearance.materials = Some(cj_materials);
         }
@@ -531,7 +490,7 @@ pub(crate) fn decode_appearance(appearance: Option<Appearance>) -> Option<CjAppe
             let cj_textures = textures
                 .iter()
                 .map(|t| {
-                    CjTexture {
+                    Ok(CjTexture {
                         image: t.image().to_string(),
                         texture_format: match t.type_() {
                             TextureFormat::PNG => CjTextFormat::Png,
@@ -552,14 +511,10 @@ pub(crate) fn decode_appearance(appearance: Option<Appearance>) -> Option<CjAppe
                             TextureType::Typical => CjTextType::Typical,
                             _ => CjTextType::Unknown, // Default to Unknown
                         }),
-                        border_color: t.border_color().map(|c| {
-                            let color_vec: Vec<f64> = c.iter().collect();
-                            assert!(color_vec.len() == 4, "color must be a vector of 4 elements");
-                            [color_vec[0], color_vec[1], color_vec[2], color_vec[3]]
-                        }),
-                    }
+                        border_color: to_cj_color(t.border_color())?,
+                    })
                 })
-                .collect::<Vec<_>>();
+                .collect::<Result<Vec<_>, Error>>()?;
 
             cj_appearance.textures = Some(cj_textures);
         }
@@ -583,9 +538,9 @@ pub(crate) fn decode_appearance(appearance: Option<Appearance>) -> Option<CjAppe
             cj_appearance.default_theme_material = Some(default_theme_material.to_string());
         }
 
-        Some(cj_appearance)
+        Ok(Some(cj_appearance))
     } else {
-        None
+        Ok(None)
     }
 }
 
@@ -613,6 +568,7 @@ pub(crate) fn decode_geometry(
         .boundaries()
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
+    check_boundaries(&solids, &shells, &surfaces, &strings, &indices)?;
     let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
     // `decode` returns a lone solid without its enclosing array, which is right for a
     // Solid only.
@@ -630,14 +586,14 @@ pub(crate) fn decode_geometry(
     {
         let semantics_objects = semantics_objects.iter().collect::<Vec<_>>();
         let semantics = semantics.iter().collect::<Vec<_>>();
-        Some(decode_semantics(
+        Some(try_decode_semantics(
             &solids,
             &shells,
             g.type_(),
             semantics_objects,
             semantics,
             semantic_attr_schema,
-        ))
+        )?)
     } else {
         None
     };
@@ -671,7 +627,8 @@ pub(crate) fn decode_geometry(
             for mapping in texture_mappings.iter() {
                 if mapping.solids().is_some_and(|s| s.len() == 1) {
                     if let Some(t) = texture.get_mut(mapping.theme().unwrap_or("theme")) {
-                        let values = std::mem::replace(&mut t.values, CjTextureValues::Nested(vec![]));
+                        let values =
+                            std::mem::replace(&mut t.values, CjTextureValues::Nested(vec![]));
                         t.values = CjTextureValues::Nested(vec![values]);
                     }
                 }
diff --git a/src/rust/fcb_core/src/reader/geom_decoder.rs b/src/rust/fcb_core/src/reader/geom_decoder.rs
index 846d2db..ba8dd01 100644
--- a/src/rust/fcb_core/src/reader/geom_decoder.rs
+++ b/src/rust/fcb_core/src/reader/geom_decoder.rs
@@ -6,12 +6,13 @@ use cjseq::{
 };
 
 use crate::{
+    error::Error,
     fb::{GeometryType, MaterialMapping, SemanticObject, SemanticSurfaceType, TextureMapping},
     Column,
 };
 use std::collections::HashMap;
 
-use super::deserializer::decode_attributes;
+use super::deserializer::try_decode_attributes;
 
 /// For semantics decoding, we only care about solids and shells.
 /// We stop recursing at d <= 2 which are surfaces, rings and points (meaning we just return semantic_indices).
@@ -21,6 +22,39 @@ struct PartLists<'a> {
     starts: [usize; 5], // parallel "start" indices
 }
 
+/// Checks that the counts in `parts` ask for no more elements than `available`.
+fn check_parts(what: &str, parts: &[u32], available: usize) -> Result<(), Error> {
+    let wanted: u64 = parts.iter().map(|&n| u64::from(n)).sum();
+    if wanted > available as u64 {
+        return Err(Error::InvalidAttributeValue {
+            msg: format!("geometry needs {wanted} {what}, found {available}"),
+        });
+    }
+    Ok(())
+}
+
+/// Checks that the flattened arrays of a geometry are long enough for what [`decode`] takes
+/// from them.
+pub(crate) fn check_boundaries(
+    solids: &[u32],
+    shells: &[u32],
+    surfaces: &[u32],
+    strings: &[u32],
+    indices: &[u32],
+) -> Result<(), Error> {
+    let levels = [
+        ("shells", solids, shells.len()),
+        ("surfaces", shells, surfaces.len()),
+        ("rings", surfaces, strings.len()),
+        ("vertex indices", strings, indices.len()),
+    ];
+    // the topmost level in use is the first one that is not empty
+    for (what, parts, available) in levels.into_iter().skip_while(|l| l.1.is_empty()) {
+        check_parts(what, parts, available)?;
+    }
+    Ok(())
+}
+
 /// Decodes the flattened arrays back into a nested CityJSON boundaries structure.
 ///
 /// Uses cursor indices to track position in each array while rebuilding the
@@ -175,7 +209,7 @@ pub(crate) fn decode(
 pub(crate) fn decode_semantics_surfaces(
     semantics_objects: &[SemanticObject],
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
-) -> Vec<SemanticsSurface> {
+) -> Result<Vec<SemanticsSurface>, Error> {
     let surfaces = semantics_objects.iter().map(|s| {
         let surface_type_str = match s.type_() {
             // For extended semantic surfaces, use the extension_type
@@ -208,17 +242,19 @@ pub(crate) fn decode_semantics_surfaces(
         let children = s.children().map(|c| c.iter().collect::<Vec<_>>());
 
         let attributes = if let Some(schema) = &semantic_attr_schema {
-            s.attributes().map(|a| decode_attributes(schema, a))
+            s.attributes()
+                .map(|a| try_decode_attributes(schema, a))
+                .transpose()?
         } else {
             None
         };
 
-        SemanticsSurface {
+        Ok(SemanticsSurface {
             thetype: surface_type_str,
             parent: s.parent(),
             children,
             other: attributes,
-        }
+        })
     });
     surfaces.collect()
 }
@@ -330,15 +366,17 @@ fn decode_semantics_(
 /// # Returns
 ///
 /// Complete CityJSON semantics structure with surfaces and values
-pub(crate) fn decode_semantics(
+///
+/// or an error if the arrays do not fit together.
+pub(crate) fn try_decode_semantics(
     solids: &[u32],
     shells: &[u32],
     geometry_type: GeometryType,
     semantics_objects: Vec<SemanticObject>,
     semantics_values: Vec<u32>,
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
-) -> Semantics {
-    let surfaces = decode_semantics_surfaces(&semantics_objects, semantic_attr_schema);
+) -> Result<Semantics, Error> {
+    let surfaces = decode_semantics_surfaces(&semantics_objects, semantic_attr_schema)?;
 
     let mut part_lists = PartLists {
         solids,
@@ -363,18 +401,48 @@ pub(crate) fn decode_semantics(
         for &val in &semantics_values {
             leaf.push(if val == u32::MAX { None } else { Some(val) });
         }
-        return Semantics {
+        return Ok(Semantics {
             surfaces,
             values: SemanticsValues::Indices(leaf),
-        };
+        });
+    }
+
+    if d == 4 {
+        check_parts("shells", solids, shells.len())?;
     }
+    check_parts("semantic values", shells, semantics_values.len())?;
 
     let result = decode_semantics_(d, None, None, &mut part_lists, &semantics_values);
 
-    Semantics {
+    Ok(Semantics {
         surfaces,
         values: result,
-    }
+    })
+}
+
+#[cfg(test)]
+fn decode_semantics(
+    solids: &[u32],
+    shells: &[u32],
+    geometry_type: GeometryType,
+    semantics_objects: Vec<SemanticObject>,
+    semantics_values: Vec<u32>,
+    semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
+) -> Semantics {
+    try_decode_semantics(
+        solids,
+        shells,
+        geometry_type,
+        semantics_objects,
+        semantics_values,
+        semantic_attr_schema,
+    )
+    .expect("malformed semantics")
+}
+
+/// How many of the `count` elements from `next` on an array of `len` elements still has.
+fn at_most_left(count: u32, next: usize, len: usize) -> usize {
+    (count as usize).min(len - next)
 }
 
 impl GeometryType {
@@ -478,14 +546,14 @@ pub(crate) fn decode_materials(
                     let mut shell_index = 0;
 
                     // Process each shell in this solid
-                    for _ in 0..solids[0] as usize {
+                    for _ in 0..at_most_left(solids[0], shell_index, shells.len()) {
                         if shell_index < shells.len() {
                             let shell_size = shells[shell_index];
                             shell_index += 1;
 
                             // For each shell, create an array of indices
                             let mut indices = Vec::new();
-                            for _ in 0..shell_size {
+                            for _ in 0..at_most_left(shell_size, vertex_index, vertices.len()) {
                                 if vertex_index < vertices.len() {
                                     let vertex = vertices[vertex_index];
                                     indices.push(if vertex == u32::MAX {
@@ -513,14 +581,14 @@ pub(crate) fn decode_materials(
                         let mut shell_values = Vec::new();
 
                         // Process each shell in this solid
-                        for _ in 0..solid_count as usize {
+                        for _ in 0..at_most_left(solid_count, shell_index, shells.len()) {
                             if shell_index < shells.len() {
                                 let shell_size = shells[shell_index];
                                 shell_index += 1;
 
                                 // For each shell, create an array of indices
                                 let mut indices = Vec::new();
-                                for _ in 0..shell_size {
+                                for _ in 0..at_most_left(shell_size, vertex_index, vertices.len()) {
                                     if vertex_index < vertices.len() {
                                         let vertex = vertices[vertex_index];
                                         indices.push(if vertex == u32::MAX {
@@ -643,25 +711,30 @@ pub(crate) fn decode_textures(
             for &solid_size in &solids {
                 let mut shell_values = Vec::new();
 
-                for _ in 0..solid_size {
+                for _ in 0..at_most_left(solid_size, shell_index, shells.len()) {
                     if shell_index < shells.len() {
                         let shell_size = shells[shell_index];
                         shell_index += 1;
 
                         let mut surface_values = Vec::new();
-                        for _ in 0..shell_size {
+                        for _ in 0..at_most_left(shell_size, surface_index, surfaces.len()) {
                             if surface_index < surfaces.len() {
                                 let surface_size = surfaces[surface_index];
                                 surface_index += 1;
 
                                 let mut string_values = Vec::new();
-                                for _ in 0..surface_size {
+                                for _ in 0..at_most_left(surface_size, string_index, strings.len())
+                                {
                                     if string_index < strings.len() {
                                         let string_size = strings[string_index];
                                         string_index += 1;
 
                                         let mut indices = Vec::new();
-                                        for _ in 0..string_size {
+                                        for _ in 0..at_most_left(
+                                            string_size,
+                                            vertex_index,
+                                            vertices.len(),
+                                        ) {
                                             if vertex_index < vertices.len() {
                                                 let vertex = vertices[vertex_index];
                                                 indices.push(if vertex == u32::MAX {
@@ -702,19 +775,19 @@ pub(crate) fn decode_textures(
             let mut vertex_index = 0;
 
             // Process each surface in the shell
-            for _ in 0..shells[0] as usize {
+            for _ in 0..at_most_left(shells[0], surface_index, surfaces.len()) {
                 if surface_index < surfaces.len() {
                     let surface_size = surfaces[surface_index];
                     surface_index += 1;
 
                     let mut string_values = Vec::new();
-                    for _ in 0..surface_size {
+                    for _ in 0..at_most_left(surface_size, string_index, strings.len()) {
                         if string_index < strings.len() {
                             let string_size = strings[string_index];
                             string_index += 1;
 
                             let mut indices = Vec::new();
-                            for _ in 0..string_size {
+                            for _ in 0..at_most_left(string_size, vertex_index, vertices.len()) {
                                 if vertex_index < vertices.len() {
                                     let vertex = vertices[vertex_index];
                                     indices.push(if vertex == u32::MAX {
@@ -746,13 +819,13 @@ pub(crate) fn decode_textures(
             let mut string_index = 0;
 
             // Process each string
-            for _ in 0..surfaces[0] as usize {
+            for _ in 0..at_most_left(surfaces[0], string_index, strings.len()) {
                 if string_index < strings.len() {
                     let string_size = strings[string_index];
                     string_index += 1;
 
                     let mut indices = Vec::new();
-                    for _ in 0..string_size {
+                    for _ in 0..at_most_left(string_size, vertex_index, vertices.len()) {
                         if vertex_index < vertices.len() {
                             let vertex = vertices[vertex_index];
                             indices.push(if vertex == u32::MAX {
@@ -778,13 +851,13 @@ pub(crate) fn decode_textures(
             for &surface_size in &surfaces {
                 let mut string_values = Vec::new();
 
-                for _ in 0..surface_size {
+                for _ in 0..at_most_left(surface_size, string_index, strings.len()) {
                     if string_index < strings.len() {
                         let string_size = strings[string_index];
                         string_index += 1;
 
                         let mut indices = Vec::new();
-                        for _ in 0..string_size {
+                        for _ in 0..at_most_left(string_size, vertex_index, vertices.len()) {
                             if vertex_index < vertices.len() {
                                 let vertex = vertices[vertex_index];
                                 indices.push(if vertex == u32::MAX {
@@ -812,7 +885,7 @@ pub(crate) fn decode_textures(
             for &string_size in &strings {
                 let mut indices = Vec::new();
 
-                for _ in 0..string_size {
+                for _ in 0..at_most_left(string_size, vertex_index, vertices.len()) {
                     if vertex_index < vertices.len() {
                         let vertex = vertices[vertex_index];
                         indices.push(if vertex == u32::MAX {
-- 
2.43.0


From d94e86b2af807c94c3813d4d8a819d8d5c484ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 39/47] fix: order the corners of a feature's box when the
 scale is negative

---
 src/rust/fcb_core/src/writer/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index dac6831..f6bd3c4 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -131,12 +131,17 @@ impl<'a> FcbWriter<'a> {
         let scale_y = transform.scale[1];
         let translate_x = transform.translate[0];
         let translate_y = transform.translate[1];
-        NodeItem::new(
+        // a negative scale swaps the ends of an axis
+        let ends = |a: f64, b: f64| (a.min(b), a.max(b));
+        let (min_x, max_x) = ends(
             bbox.min_x * scale_x + translate_x,
-            bbox.min_y * scale_y + translate_y,
             bbox.max_x * scale_x + translate_x,
+        );
+        let (min_y, max_y) = ends(
+            bbox.min_y * scale_y + translate_y,
             bbox.max_y * scale_y + translate_y,
-        )
+        );
+        NodeItem::new(min_x, min_y, max_x, max_y)
     }
 
     /// Adds a new feature to be written
-- 
2.43.0


From 8e7991d13dc4b20e63da7b7e12795e875723d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 40/47] fix: indices over Long columns can be queried in the
 browser

---
 src/rust/wasm/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 0c46795..4f918b1 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -490,6 +490,16 @@ mod wasm {
                         );
                         multi_index.add_index(col.name().to_string(), index);
                     }
+                    ColumnType::Long => {
+                        let index = HttpIndex::<i64>::new(
+                            attr_info.num_unique_items() as usize,
+                            attr_info.branching_factor(),
+                            index_begin,
+                            feature_begin,
+                            combine_request_threshold,
+                        );
+                        multi_index.add_index(col.name().to_string(), index);
+                    }
                     ColumnType::ULong => {
                         let index = HttpIndex::<u64>::new(
                             attr_info.num_unique_items() as usize,
-- 
2.43.0


From 173b89781815126e10617d7b24e2fb7b61bb5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 41/47] fix: attribute queries in the browser return each
 feature once, in file order

---
 src/rust/wasm/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 4f918b1..5d554dc 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -352,9 +352,8 @@ mod wasm {
                 .map_err(|e| JsValue::from_str(&format!("failed to query index: {:?}", e)))?;
 
             info!("result: {:?}", result);
-            let count = result.len();
 
-            let http_ranges: Vec<HttpRange> = result
+            let mut http_ranges: Vec<HttpRange> = result
                 .into_iter()
                 .map(|item| match item.range {
                     fcb_core::static_btree::http::HttpRange::Range(range) => {
@@ -365,6 +364,10 @@ mod wasm {
                     }
                 })
                 .collect();
+            // A feature with several matching objects is found once for each
+            http_ranges.sort_by_key(|range| range.start());
+            http_ranges.dedup_by_key(|range| range.start());
+            let count = http_ranges.len();
 
             trace!(
                 "completed: select_attr_query via http reader, matched features: {}",
-- 
2.43.0


From 5a4b12e8f3ea4b1560e143a4ff8f6c86b75f39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 42/47] fix: the browser reader reports short responses and
 keeps a feature whose request failed

---
 src/rust/wasm/src/lib.rs | 66 +++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 38 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 5d554dc..b82a177 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -47,6 +47,19 @@ mod wasm {
     // Static variable to track if logger has been initialized
     static LOGGER_INITIALIZED: AtomicBool = AtomicBool::new(false);
 
+    /// Get exactly the requested bytes: a response may hold fewer when the data is truncated.
+    async fn get_exact<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        begin: usize,
+        length: usize,
+    ) -> Result<&[u8], Error> {
+        let bytes = client.get_range(begin, length).await.map_err(|_| Error)?;
+        if bytes.len() != length {
+            return Err(Error);
+        }
+        Ok(bytes)
+    }
+
     /// FlatCityBuf dataset HTTP reader
     #[wasm_bindgen]
     pub struct HttpFcbReader {
@@ -114,8 +127,7 @@ mod wasm {
             client.set_min_req_size(min_req_size);
             debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
             let mut read_bytes = 0;
-            let bytes = client
-                .get_range(read_bytes, MAGIC_BYTES_SIZE)
+            let bytes = get_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE)
                 .await
                 .map_err(|e| JsValue::from_str(&e.to_string()))?; // to get magic bytes
             if !check_magic_bytes(bytes) {
@@ -124,8 +136,7 @@ mod wasm {
 
             read_bytes += MAGIC_BYTES_SIZE;
             let mut bytes = BytesMut::from(
-                client
-                    .get_range(read_bytes, HEADER_SIZE_SIZE)
+                get_exact(&mut client, read_bytes, HEADER_SIZE_SIZE)
                     .await
                     .map_err(|e| JsValue::from_str(&e.to_string()))?,
             );
@@ -140,8 +151,7 @@ mod wasm {
             }
 
             bytes.put(
-                client
-                    .get_range(read_bytes, header_size)
+                get_exact(&mut client, read_bytes, header_size)
                     .await
                     .map_err(|e| JsValue::from_str(&e.to_string()))?,
             );
@@ -644,19 +654,13 @@ mod wasm {
             if self.features_left == 0 {
                 return Ok(None);
             }
-            self.features_left -= 1;
 
-            let mut feature_buffer =
-                BytesMut::from(client.get_range(self.pos, 4).await.map_err(|_| Error)?);
-            self.pos += 4;
+            let mut feature_buffer = BytesMut::from(get_exact(client, self.pos, 4).await?);
             let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(self.pos, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
-            self.pos += feature_size;
+            feature_buffer.put(get_exact(client, self.pos + 4, feature_size).await?);
+            // the feature is only done with once it was received
+            self.features_left -= 1;
+            self.pos += 4 + feature_size;
 
             Ok(Some(feature_buffer.freeze()))
         }
@@ -780,21 +784,17 @@ mod wasm {
         ) -> Result<Option<Bytes>, Error> {
             let request_size = self.request_size();
             client.set_min_req_size(request_size);
-            let Some(feature_range) = self.feature_ranges.pop_front() else {
+            let Some(feature_range) = self.feature_ranges.front() else {
                 return Ok(None);
             };
 
             let mut pos = feature_range.start();
-            let mut feature_buffer =
-                BytesMut::from(client.get_range(pos, 4).await.map_err(|_| Error)?);
+            let mut feature_buffer = BytesMut::from(get_exact(client, pos, 4).await?);
             pos += 4;
             let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(pos, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
+            feature_buffer.put(get_exact(client, pos, feature_size).await?);
+            // the feature is only done with once it was received
+            self.feature_ranges.pop_front();
 
             Ok(Some(feature_buffer.freeze()))
         }
@@ -814,19 +814,9 @@ mod wasm {
             let Some(range) = self.ranges.get(self.range_pos) else {
                 return Ok(None);
             };
-            let mut feature_buffer = BytesMut::from(
-                client
-                    .get_range(range.start(), 4)
-                    .await
-                    .map_err(|_| Error)?,
-            );
+            let mut feature_buffer = BytesMut::from(get_exact(client, range.start(), 4).await?);
             let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(range.start() + 4, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
+            feature_buffer.put(get_exact(client, range.start() + 4, feature_size).await?);
             self.range_pos += 1;
             Ok(Some(feature_buffer.freeze()))
         }
-- 
2.43.0


From 963e86d6e43a06bf528abaa2094ab0ce27763224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 43/47] fix: dates before 1970 and invalid dates in browser
 queries

---
 src/rust/wasm/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index b82a177..d1a4e72 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -18,7 +18,7 @@ mod wasm {
 
     use byteorder::{ByteOrder, LittleEndian};
     use bytes::{BufMut, Bytes, BytesMut};
-    use chrono::{DateTime, NaiveDateTime, Utc};
+    use chrono::{DateTime, Utc};
     use fcb_core::city_buffer::FcbBuffer;
     use fcb_core::{
         build_query, check_magic_bytes,
@@ -1085,13 +1085,13 @@ mod wasm {
                     // If boolean then use Bool
                     KeyType::Bool(b)
                 } else if value_js.is_instance_of::<js_sys::Date>() {
-                    // If a JS Date, convert to milliseconds then to a NaiveDateTime.
+                    // If a JS Date, convert from milliseconds; an invalid Date has none.
                     let date: js_sys::Date = value_js.unchecked_into();
                     let millis = date.get_time();
-                    let secs = (millis / 1000.0) as i64;
-                    let nanos = ((millis % 1000.0) * 1_000_000.0) as u32;
-                    let ndt = NaiveDateTime::from_timestamp(secs, nanos);
-                    let dt = DateTime::<Utc>::from_utc(ndt, Utc);
+                    let dt = (!millis.is_nan())
+                        .then(|| DateTime::<Utc>::from_timestamp_millis(millis as i64))
+                        .flatten()
+                        .ok_or_else(|| JsValue::from_str("Invalid date value"))?;
                     KeyType::DateTime(dt)
                 } else if let Some(n) = value_js.as_f64() {
                     // All JS numbers are f64.
-- 
2.43.0


From d1c2f9beabc44b001f8dcd9056b580905c1f7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 44/47] fix: malformed indices cause errors instead of panics
 in the browser reader

---
 src/rust/wasm/src/lib.rs | 70 +++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index d1a4e72..ca2fd91 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -199,38 +199,33 @@ mod wasm {
             MAGIC_BYTES_SIZE + self.fbs.header_buf.len()
         }
 
-        fn rtree_index_size(&self) -> usize {
+        fn rtree_index_size(&self) -> Result<usize, JsValue> {
             let header = self.fbs.header();
             let feat_count = header.features_count() as usize;
             if header.index_node_size() > 0 && feat_count > 0 {
-                PackedRTree::index_size(feat_count, header.index_node_size())
+                PackedRTree::checked_index_size(feat_count, header.index_node_size())
+                    .map_err(|e| JsValue::from_str(&e.to_string()))
             } else {
-                0
+                Ok(0)
             }
         }
 
-        fn attr_index_size(&self) -> usize {
+        fn attr_index_size(&self) -> Result<usize, JsValue> {
             let header = self.fbs.header();
-            header
-                .attribute_index()
-                .map(|attr_index| {
-                    attr_index
-                        .iter()
-                        .try_fold(0, |acc, ai| {
-                            let len = ai.length() as usize;
-                            if len > usize::MAX - acc {
-                                Err(JsValue::from_str("attribute index size overflow"))
-                            } else {
-                                Ok(acc + len)
-                            }
-                        }) // sum of all attribute index lengths
-                        .unwrap_or(0)
-                })
-                .unwrap_or(0)
+            header.attribute_index().map_or(Ok(0), |attr_index| {
+                attr_index
+                    .iter()
+                    .try_fold(0usize, |acc, ai| acc.checked_add(ai.length() as usize)) // sum of all attribute index lengths
+                    .ok_or_else(|| JsValue::from_str("attribute index size overflow"))
+            })
         }
 
-        fn index_size(&self) -> usize {
-            self.rtree_index_size() + self.attr_index_size()
+        /// Where the features begin: after the header and both kinds of index.
+        fn feature_begin(&self) -> Result<usize, JsValue> {
+            self.header_len()
+                .checked_add(self.rtree_index_size()?)
+                .and_then(|begin| begin.checked_add(self.attr_index_size().ok()?))
+                .ok_or_else(|| JsValue::from_str("index size overflow"))
         }
 
         /// Select all features.
@@ -239,9 +234,8 @@ mod wasm {
             let header = self.fbs.header();
             let count = header.features_count();
             // TODO: support reading with unknown feature count
-            let index_size = self.index_size();
             // Skip index
-            let feature_base = self.header_len() + index_size;
+            let feature_base = self.feature_begin()?;
             Ok(AsyncFeatureIter {
                 client: self.client,
                 fbs: self.fbs,
@@ -269,7 +263,7 @@ mod wasm {
 
             // request up to this many extra bytes if it means we can eliminate an extra request
             let combine_request_threshold = 256 * 1024;
-            let attr_index_size = self.attr_index_size();
+            let attr_index_size = self.attr_index_size()?;
 
             // Clone the inner query value
             let inner_query = query.get_inner();
@@ -285,11 +279,12 @@ mod wasm {
             )
             .await
             .map_err(|e| JsValue::from_str(&e.to_string()))?;
-            debug_assert!(
-                list.windows(2)
-                    .all(|w| w[0].range.start() < w[1].range.start()),
-                "Since the tree is traversed breadth first, list should be sorted by construction."
-            );
+            if !list
+                .windows(2)
+                .all(|w| w[0].range.start() < w[1].range.start())
+            {
+                return Err(JsValue::from_str("features of the index are not in order"));
+            }
 
             let count = list.len();
             let feature_batches = FeatureBatch::make_batches(list, combine_request_threshold)
@@ -317,10 +312,8 @@ mod wasm {
 
             // file structure:
             // magic_bytes + header + rtree_index + attr_index1 + attr_index2 + ... + features
-            let rtree_index_size = self.rtree_index_size();
-            let attr_index_size = self.attr_index_size();
-            let attr_index_begin = header_len + rtree_index_size;
-            let feature_begin = header_len + rtree_index_size + attr_index_size;
+            let feature_begin = self.feature_begin()?;
+            let attr_index_begin = header_len + self.rtree_index_size()?;
 
             let combine_request_threshold = 1024 * 1024; // TODO: make this configurable
             let attr_index_entries = header
@@ -718,14 +711,19 @@ mod wasm {
                 let previous_item = latest_batch.back().expect("we never push an empty batch");
 
                 let HttpRange::Range(Range { end: prev_end, .. }) = previous_item else {
-                    debug_assert!(false, "This shouldn't happen. Only the very last feature is expected to have an unknown length");
+                    // Only the very last feature is expected to have an unknown length
                     let mut new_batch = VecDeque::new();
                     new_batch.push_back(search_result_item.range);
                     batched_ranges.push(new_batch);
                     continue;
                 };
 
-                let wasted_bytes = search_result_item.range.start() - prev_end;
+                // features do not overlap
+                let wasted_bytes = search_result_item
+                    .range
+                    .start()
+                    .checked_sub(*prev_end)
+                    .ok_or(Error)?;
                 if wasted_bytes < combine_request_threshold {
                     if wasted_bytes == 0 {
                         trace!("adjacent feature");
-- 
2.43.0


From 4e048e6f5ebdc23ba6b8e4c9bb2f4af8a6259c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 45/47] fix: a query with a condition that cannot be answered
 is refused also when another finds nothing

---
 src/rust/fcb_core/src/static_btree/query/memory.rs | 11 ++---------
 src/rust/fcb_core/src/static_btree/query/stream.rs |  8 ++------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 3461821..2d36e26 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -279,11 +279,9 @@ impl MultiIndex for MemoryMultiIndex {
             ))
         })?;
         let mut result_set = index.execute_query_condition(first_condition)?;
-        if result_set.is_empty() {
-            return Ok(vec![]);
-        }
 
-        // Process remaining conditions with set intersection
+        // Process remaining conditions with set intersection. All of them are executed, also when
+        // nothing is left, so that a condition that cannot be answered is always an error.
         for condition in &conditions[1..] {
             let index = self.indices.get(&condition.field).ok_or_else(|| {
                 Error::QueryError(format!("no index found for field '{}'", condition.field))
@@ -292,11 +290,6 @@ impl MultiIndex for MemoryMultiIndex {
 
             // Perform intersection (AND logic)
             result_set.retain(|offset| condition_results.contains(offset));
-
-            // If result set is empty, we can short-circuit. For now it's AND logic, so if any condition is empty, the result set is empty
-            if result_set.is_empty() {
-                return Ok(vec![]);
-            }
         }
 
         Ok(result_set)
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index a06516d..6a6d953 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -391,12 +391,11 @@ impl StreamMultiIndex {
         reader.seek(SeekFrom::Start(start_position + index_range.start as u64))?;
 
         let mut result_set = indexer.execute_query_condition(reader, first)?;
-        if result_set.is_empty() {
-            return Ok(vec![]);
-        }
         // set cursor to the start of the index
         reader.seek(SeekFrom::Start(start_position))?;
 
+        // All conditions are executed, also when nothing is left, so that a condition that cannot
+        // be answered is always an error.
         for cond in &conditions[1..] {
             let start_position = reader.stream_position()?;
             let indexer = self.indices.get(&cond.field).ok_or_else(|| {
@@ -410,9 +409,6 @@ impl StreamMultiIndex {
             reader.seek(SeekFrom::Start(index_start))?;
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
-            if result_set.is_empty() {
-                return Ok(vec![]); // no results found for this condition, return early so we don't waste time intersecting empty sets
-            }
             // set cursor to the start of the index
             reader.seek(SeekFrom::Start(start_position))?;
         }
-- 
2.43.0


From a0f64f38f4ee8aeb07d3db4bb67615abd321c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 46/47] fix: features that are not well-formed are refused
 instead of panicking

---
 src/rust/fcb_core/src/writer/mod.rs        | 12 +++++--
 src/rust/fcb_core/src/writer/serializer.rs | 39 ++++++++++++++--------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index f6bd3c4..4714d6d 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -156,13 +156,21 @@ impl<'a> FcbWriter<'a> {
     pub fn add_feature(&mut self, feature: &'a CityJSONFeature) -> Result<()> {
         // vertices are stored as 32-bit integers
         let fits = |c: &i64| i32::try_from(*c).is_ok();
-        if let Some(v) = feature.vertices.iter().find(|v| !v.iter().all(fits)) {
+        let invalid = |v: &&Vec<i64>| v.len() != 3 || !v.iter().all(fits);
+        if let Some(v) = feature.vertices.iter().find(invalid) {
             return Err(error::Error::invalid_geometry(format!(
-                "vertex {v:?} of feature {} is out of range",
+                "vertex {v:?} of feature {} is out of range or has not three coordinates",
                 feature.id
             ))
             .into());
         }
+        let geometries = feature
+            .city_objects
+            .values()
+            .flat_map(|co| co.geometry.iter().flatten());
+        for geometry in geometries {
+            serializer::check_geometry_instance(geometry)?;
+        }
         if self.feat_writer.is_none() {
             self.feat_writer = Some(FeatureWriter::new(
                 feature,
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 5ab0c3c..e5c4663 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -30,6 +30,7 @@ use crate::packed_rtree::NodeItem;
 use flatbuffers::FlatBufferBuilder;
 use serde_json::Value;
 
+use super::error::Error;
 use super::geom_encoder::{GMBoundaries, GMSemantics, MaterialMapping as GMMaterialMapping};
 use super::header_writer::HeaderWriterOptions;
 use crate::error::Result;
@@ -971,31 +972,41 @@ pub(crate) fn to_geometry<'a>(
     )
 }
 
-pub(super) fn to_geometry_instance<'a>(
-    fbb: &mut FlatBufferBuilder<'a>,
-    geometry: &CjGeometry,
-) -> flatbuffers::WIPOffset<GeometryInstance<'a>> {
+/// A geometry instance refers to a template, at one vertex.
+pub(super) fn check_geometry_instance(geometry: &CjGeometry) -> Result<()> {
+    if geometry.thetype != CjGeometryType::GeometryInstance {
+        return Ok(());
+    }
     if geometry.template.is_none() || geometry.transformation_matrix.is_none() {
-        panic!("Geometry instance must have a template and transformation matrix.");
+        return Err(Error::invalid_geometry(
+            "Geometry instance must have a template and transformation matrix.",
+        )
+        .into());
     }
     if let CjBoundaries::Nested(_) = &geometry.boundaries {
-        panic!("Nested boundaries are not valid for geometry instances. "); //TODO: don't use panic, instead, return Result type
+        return Err(Error::invalid_geometry(
+            "Nested boundaries are not valid for geometry instances.",
+        )
+        .into());
     }
+    Ok(())
+}
 
+pub(super) fn to_geometry_instance<'a>(
+    fbb: &mut FlatBufferBuilder<'a>,
+    geometry: &CjGeometry,
+) -> flatbuffers::WIPOffset<GeometryInstance<'a>> {
     let template = geometry.template.unwrap_or(0) as u32;
     let boundaries = match &geometry.boundaries {
         CjBoundaries::Indices(indices) => Some(fbb.create_vector(indices)), //This expect the given CityJSON has only one vertex index.
-        CjBoundaries::Nested(_) => {
-            panic!("Nested boundaries are not valid for geometry instances. "); //TODO: don't use panic, instead, return Result type
-        }
+        CjBoundaries::Nested(_) => None,
     };
-    let transformation = {
-        let m = geometry.transformation_matrix.unwrap();
-        Some(TransformationMatrix::new(
+    let transformation = geometry.transformation_matrix.map(|m| {
+        TransformationMatrix::new(
             m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9], m[10], m[11], m[12], m[13],
             m[14], m[15],
-        ))
-    };
+        )
+    });
     GeometryInstance::create(
         fbb,
         &GeometryInstanceArgs {
-- 
2.43.0


From f0d95e277996a0141d40a5c6d1b2993e31f3d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 47/47] fix: attributes that are not an object do not renumber
 the column for them

---
 src/rust/fcb_core/src/writer/attribute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 9058931..e9efd3d 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -15,7 +15,9 @@ pub trait AttributeSchemaMethods {
 impl AttributeSchemaMethods for AttributeSchema {
     fn add_attributes(&mut self, attrs: &Value) {
         if !attrs.is_object() {
-            self.insert("json".to_string(), (self.len() as u16, ColumnType::Json));
+            let index = self.len() as u16;
+            self.entry("json".to_string())
+                .or_insert((index, ColumnType::Json));
             return;
         }
 
-- 
2.43.0

