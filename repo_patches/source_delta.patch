From 7f4c1163b23aa62e4cd5af0262ffcd0cdf14b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 01/24] fix: resolve references of nested property sets at
 their own position

Note tags and text run data all read their references from the start of the
property's part of the reference streams, and looked their targets up with
an index that starts at zero instead of the position in the stream.
---
 src/one/property_set/note_tag_container.rs | 47 +++++++++++--------
 src/one/property_set/text_run_data.rs      | 53 ++++++++++++----------
 src/onestore/mapping_table.rs              | 18 +++++++-
 3 files changed, 73 insertions(+), 45 deletions(-)

diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 028ac11..aa2f272 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -37,11 +37,19 @@ impl Data {
             None => return Ok(None),
         };
 
+        let mut object_offset = ObjectReference::get_offset(PropertyType::NoteTags, object)?;
+        let mut object_space_offset =
+            ObjectSpaceReference::get_offset(PropertyType::NoteTags, object)?;
+
         let data = prop_sets
             .iter()
             .map(|props| {
-                let object = Self::parse_object(object, prop_id, props)?;
-                let data = Self::parse_data(object)?;
+                let tag =
+                    Self::parse_object(object, prop_id, props, object_offset, object_space_offset);
+                let data = Self::parse_data(tag)?;
+
+                object_offset += ObjectReference::count_references(props.values());
+                object_space_offset += ObjectSpaceReference::count_references(props.values());
 
                 Ok(data)
             })
@@ -75,43 +83,42 @@ impl Data {
         object: &'a Object,
         id: PropertyId,
         props: &PropertySet,
-    ) -> Result<Object<'a>> {
-        Ok(Object {
+        object_offset: usize,
+        object_space_offset: usize,
+    ) -> Object<'a> {
+        Object {
             context_id: object.context_id,
             jc_id: JcId(id.value()),
             props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, object)?,
-                object_space_ids: Self::get_object_space_ids(props, object)?,
+                object_ids: Self::get_object_ids(props, object, object_offset),
+                object_space_ids: Self::get_object_space_ids(props, object, object_space_offset),
                 context_ids: vec![],
                 properties: props.clone(),
             },
             file_data: None,
-            mapping: object.mapping.clone(),
-        })
+            mapping: object.mapping.nested(object_offset, object_space_offset),
+        }
     }
 
-    fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
+    fn get_object_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+        object
             .props
             .object_ids
             .iter()
-            .skip(ObjectReference::get_offset(PropertyType::NoteTags, object)?)
+            .skip(offset)
             .take(ObjectReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 
-    fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
+    fn get_object_space_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+        object
             .props
-            .object_ids
+            .object_space_ids
             .iter()
-            .skip(ObjectSpaceReference::get_offset(
-                PropertyType::NoteTags,
-                object,
-            )?)
+            .skip(offset)
             .take(ObjectSpaceReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 }
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index b4188e3..addf652 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -19,10 +19,21 @@ pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
         None => return Ok(None),
     };
 
+    let mut object_offset = ObjectReference::get_offset(PropertyType::TextRunData, object)?;
+    let mut object_space_offset =
+        ObjectSpaceReference::get_offset(PropertyType::TextRunData, object)?;
+
     let data = prop_sets
         .iter()
-        .map(|props| parse_object(object, prop_id, props))
-        .collect::<Result<Vec<_>>>()?;
+        .map(|props| {
+            let data = parse_object(object, prop_id, props, object_offset, object_space_offset);
+
+            object_offset += ObjectReference::count_references(props.values());
+            object_space_offset += ObjectSpaceReference::count_references(props.values());
+
+            data
+        })
+        .collect();
 
     Ok(Some(data))
 }
@@ -31,45 +42,41 @@ fn parse_object<'a>(
     object: &'a Object,
     prop_id: PropertyId,
     props: &PropertySet,
-) -> Result<Object<'a>> {
-    Ok(Object {
+    object_offset: usize,
+    object_space_offset: usize,
+) -> Object<'a> {
+    Object {
         context_id: object.context_id,
         jc_id: JcId(prop_id.value()),
         props: ObjectPropSet {
-            object_ids: get_object_ids(props, object)?,
-            object_space_ids: get_object_space_ids(props, object)?,
+            object_ids: get_object_ids(props, object, object_offset),
+            object_space_ids: get_object_space_ids(props, object, object_space_offset),
             context_ids: vec![],
             properties: props.clone(),
         },
         file_data: None,
-        mapping: object.mapping.clone(),
-    })
+        mapping: object.mapping.nested(object_offset, object_space_offset),
+    }
 }
 
-fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
+fn get_object_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+    object
         .props
         .object_ids
         .iter()
-        .skip(ObjectReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
+        .skip(offset)
         .take(ObjectReference::count_references(props.values()))
         .copied()
-        .collect())
+        .collect()
 }
 
-fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
+fn get_object_space_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+    object
         .props
-        .object_ids
+        .object_space_ids
         .iter()
-        .skip(ObjectSpaceReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
+        .skip(offset)
         .take(ObjectSpaceReference::count_references(props.values()))
         .copied()
-        .collect())
+        .collect()
 }
diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index de38f73..8a72c25 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -18,6 +18,8 @@ use std::collections::HashMap;
 pub(crate) struct MappingTable {
     objects: HashMap<CompactId, Vec<(usize, ExGuid)>>,
     object_spaces: HashMap<CompactId, Vec<(usize, CellId)>>,
+    object_offset: usize,
+    object_space_offset: usize,
 }
 
 impl MappingTable {
@@ -41,15 +43,27 @@ impl MappingTable {
         MappingTable {
             objects: objects_map,
             object_spaces: object_spaces_map,
+            object_offset: 0,
+            object_space_offset: 0,
+        }
+    }
+
+    /// The mapping table for a property set nested in the object's properties whose references
+    /// start at the given offsets of the object's reference streams.
+    pub(crate) fn nested(&self, object_offset: usize, object_space_offset: usize) -> MappingTable {
+        MappingTable {
+            object_offset: self.object_offset + object_offset,
+            object_space_offset: self.object_space_offset + object_space_offset,
+            ..self.clone()
         }
     }
 
     pub(crate) fn get_object(&self, index: usize, cid: CompactId) -> Option<ExGuid> {
-        self.get(index, cid, &self.objects)
+        self.get(self.object_offset + index, cid, &self.objects)
     }
 
     pub(crate) fn get_object_space(&self, index: usize, cid: CompactId) -> Option<CellId> {
-        self.get(index, cid, &self.object_spaces)
+        self.get(self.object_space_offset + index, cid, &self.object_spaces)
     }
 
     fn get<T: Copy>(
-- 
2.43.0


From fefcc8c336e23e55d39e6709de32d622d7b67f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 02/24] fix: look up object space references at their position
 in the stream

---
 src/one/property/object_space_reference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 0728dea..755c2bb 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -39,7 +39,7 @@ impl ObjectSpaceReference {
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index, id, object))
+            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
 
         Ok(Some(object_space_ids))
-- 
2.43.0


From 5844b553c03f59eef1e706d9bf63e7df76cf5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 03/24] fix: count the references of single nested property
 sets

---
 src/one/property/object_reference.rs       | 1 +
 src/one/property/object_space_reference.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 9d63d7a..3acf2f7 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -80,6 +80,7 @@ impl ObjectReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 755c2bb..25b4e4d 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -61,6 +61,7 @@ impl ObjectSpaceReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
-- 
2.43.0


From 808e37f99099f85ea9f5733194f52c3ce1317c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 04/24] fix: report an empty number list format as an error
 instead of panicking

---
 src/one/property_set/number_list_node.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 0649874..6f98e0b 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -37,6 +37,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
         simple::parse_u32(PropertyType::ListRestart, object)?.map(|value| value as i32);
     let list_format = simple::parse_vec_u16(PropertyType::NumberListFormat, object)?
         .map(parse_list_format)
+        .transpose()?
         .ok_or_else(|| {
             ErrorKind::MalformedOneNoteFileData("number list has no list format".into())
         })?;
@@ -63,8 +64,12 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     Ok(data)
 }
 
-fn parse_list_format(data: Vec<u16>) -> Vec<char> {
-    decode_utf16(data[1..].iter().copied())
+fn parse_list_format(data: Vec<u16>) -> Result<Vec<char>> {
+    let (_length, format) = data
+        .split_first()
+        .ok_or_else(|| ErrorKind::MalformedOneNoteFileData("number list format is empty".into()))?;
+
+    Ok(decode_utf16(format.iter().copied())
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
-        .collect()
+        .collect())
 }
-- 
2.43.0


From 1a517f8887c73d0a6a9ae95fd61d29b032beccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 05/24] fix: report missing embedded ink objects of a paragraph
 as an error instead of panicking

---
 src/onenote/rich_text.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/onenote/rich_text.rs b/src/onenote/rich_text.rs
index 6f8e008..de91711 100644
--- a/src/onenote/rich_text.rs
+++ b/src/onenote/rich_text.rs
@@ -453,12 +453,18 @@ pub(crate) fn parse_rich_text(content_id: ExGuid, space: &ObjectSpace) -> Result
             }
             None => {
                 if !data.text_run_data_object.is_empty() {
-                    return parse_embedded_ink_data(
-                        data.text_run_data_object[i - objects_without_ref],
-                        space,
-                        embedded_data,
-                    )
-                    .map(|container| Some(EmbeddedObject::Ink(container)));
+                    let ink_data_id = data
+                        .text_run_data_object
+                        .get(i - objects_without_ref)
+                        .copied()
+                        .ok_or_else(|| {
+                            ErrorKind::MalformedOneNoteData(
+                                "embedded ink has no text run data object".into(),
+                            )
+                        })?;
+
+                    return parse_embedded_ink_data(ink_data_id, space, embedded_data)
+                        .map(|container| Some(EmbeddedObject::Ink(container)));
                 }
 
                 Ok(None)
-- 
2.43.0


From f0a602c9aae7995a03189ba1a7c55a5348a74f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 06/24] fix: read the vertical ink scale from its own property

---
 src/one/property_set/ink_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/ink_container.rs b/src/one/property_set/ink_container.rs
index ce4e675..11102dd 100644
--- a/src/one/property_set/ink_container.rs
+++ b/src/one/property_set/ink_container.rs
@@ -25,7 +25,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let offset_from_parent_vert = simple::parse_f32(PropertyType::OffsetFromParentVert, object)?;
     let ink_data = ObjectReference::parse(PropertyType::InkData, object)?;
     let ink_scaling_x = simple::parse_f32(PropertyType::InkScalingX, object)?;
-    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingX, object)?;
+    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingY, object)?;
 
     let data = Data {
         offset_from_parent_horiz,
-- 
2.43.0


From f97302379dba489ccf802f56da67a001723675b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 07/24] fix: do not swap the height and width of ink strokes

---
 src/one/property_set/stroke_properties_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property_set/stroke_properties_node.rs b/src/one/property_set/stroke_properties_node.rs
index 3dc46e1..6715e64 100644
--- a/src/one/property_set/stroke_properties_node.rs
+++ b/src/one/property_set/stroke_properties_node.rs
@@ -29,10 +29,10 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let pen_tip = simple::parse_u8(PropertyType::InkPenTip, object)?;
     let raster_operation = simple::parse_u8(PropertyType::InkRasterOperation, object)?;
     let transparency = simple::parse_u8(PropertyType::InkTransparency, object)?;
-    let ink_width = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
+    let ink_height = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no height".into())
     })?;
-    let ink_height = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
+    let ink_width = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no width".into())
     })?;
     let color = simple::parse_u32(PropertyType::InkColor, object)?;
-- 
2.43.0


From 3194867cbc1b9df2140d0a3c4a25fb81d7abf0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 08/24] fix: reject ink paths that do not match the stroke's
 dimensions

---
 src/onenote/ink.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/onenote/ink.rs b/src/onenote/ink.rs
index 9d775a7..91dc2bf 100644
--- a/src/onenote/ink.rs
+++ b/src/onenote/ink.rs
@@ -280,6 +280,14 @@ fn parse_ink_path(
             ErrorKind::MalformedOneNoteData("ink stroke properties has no y dimension".into())
         })?;
 
+    // Every dimension has the same number of values
+    if data.len() % props.dimensions.len() != 0 {
+        return Err(ErrorKind::MalformedOneNoteData(
+            "ink path length is not a multiple of the number of dimensions".into(),
+        )
+        .into());
+    }
+
     // Find dimensions data
     let dimension_offset = data.len() / props.dimensions.len();
 
-- 
2.43.0


From 2c917ed057426c5f6ff1ba6edbd629782d79d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 09/24] fix: reject incomplete and overlong multi-byte integers
 in ink paths

---
 src/shared/multi_byte.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/shared/multi_byte.rs b/src/shared/multi_byte.rs
index ce18f21..272930a 100644
--- a/src/shared/multi_byte.rs
+++ b/src/shared/multi_byte.rs
@@ -67,7 +67,7 @@ fn decode_uint(data: &[u8]) -> Result<(u64, usize)> {
             .into());
         }
         let shift = count * 7;
-        if shift >= 64 {
+        if shift >= 64 || (shift == 63 && byte & 0x7F > 1) {
             return Err(ErrorKind::MalformedOneNoteFileData(
                 "multi-byte integer shift overflow".into(),
             )
@@ -80,17 +80,11 @@ fn decode_uint(data: &[u8]) -> Result<(u64, usize)> {
         count += 1;
 
         if !flag {
-            break;
+            return Ok((value, count));
         }
     }
 
-    if count == 0 {
-        return Err(
-            ErrorKind::MalformedOneNoteFileData("multi-byte integer has no data".into()).into(),
-        );
-    }
-
-    Ok((value, count))
+    Err(ErrorKind::MalformedOneNoteFileData("multi-byte integer is incomplete".into()).into())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 75f423434ca3521062a9779f1556f3717f636930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 10/24] fix: let the roots of newer revisions take precedence

---
 src/onestore/revision.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 80b7b4c..3e5df8e 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -58,13 +58,16 @@ impl<'a, 'b> Revision<'a> {
             return Ok(base_rev);
         }
 
-        roots.extend(
-            revision_manifest
-                .root_declare
-                .iter()
-                .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
-                .collect::<Result<Vec<_>>>()?,
-        );
+        let declared_roots = revision_manifest
+            .root_declare
+            .iter()
+            .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
+            .collect::<Result<HashMap<_, _>>>()?;
+
+        // Roots that have been declared by a newer revision take precedence
+        for (role, object_id) in declared_roots {
+            roots.entry(role).or_insert(object_id);
+        }
 
         for group_id in revision_manifest.group_references.iter() {
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
-- 
2.43.0


From 6a5486d23bc62956425ac6f73477e48ecc25f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 11/24] fix: reject cyclic revision histories instead of
 looping forever

---
 src/onestore/object_space.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 18104a2..4de59e2 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
@@ -82,7 +82,15 @@ impl<'a, 'b> ObjectSpace<'a> {
 
         let mut rev_id = Some(revision_manifest_id);
 
+        let mut visited = HashSet::new();
+
         while let Some(revision_manifest_id) = rev_id {
+            if !visited.insert(revision_manifest_id) {
+                return Err(
+                    ErrorKind::MalformedOneStoreData("revision depends on itself".into()).into(),
+                );
+            }
+
             let base_rev_id = Revision::parse(
                 revision_manifest_id,
                 context_id,
-- 
2.43.0


From cfab5db3ab89c3675bcaeb6f75deff02e232a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 12/24] fix: consume the end of data element fragments

---
 src/fsshttpb/data_element/data_element_fragment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fsshttpb/data_element/data_element_fragment.rs b/src/fsshttpb/data_element/data_element_fragment.rs
index c2f89d8..94fb92f 100644
--- a/src/fsshttpb/data_element/data_element_fragment.rs
+++ b/src/fsshttpb/data_element/data_element_fragment.rs
@@ -51,6 +51,8 @@ impl DataElement {
             data,
         };
 
+        ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
+
         Ok(fragment)
     }
 }
-- 
2.43.0


From 30183524596e28a9221d8e051ab08822182141d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 13/24] fix: accept the 16-bit end of object group metadata

The metadata block has type 0x79, which an 8-bit end header cannot express,
so every object group with the optional metadata was rejected.
---
 src/fsshttpb/data/stream_object.rs        | 12 ++++++++++++
 src/fsshttpb/data_element/object_group.rs |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fsshttpb/data/stream_object.rs b/src/fsshttpb/data/stream_object.rs
index 303b0e2..5f3581b 100644
--- a/src/fsshttpb/data/stream_object.rs
+++ b/src/fsshttpb/data/stream_object.rs
@@ -205,6 +205,18 @@ impl ObjectHeader {
         Ok(data & 0b11 == 0x1 && data >> 2 == expected)
     }
 
+    pub(crate) fn has_end_16(reader: Reader, object_type: ObjectType) -> Result<bool> {
+        let data = match reader.bytes() {
+            [a, b, ..] => u16::from_le_bytes([*a, *b]),
+            _ => return Err(ErrorKind::UnexpectedEof.into()),
+        };
+        let expected = object_type.to_u16().ok_or_else(|| {
+            ErrorKind::MalformedFssHttpBData(format!("invalid object type: {object_type:?}").into())
+        })?;
+
+        Ok(data & 0b11 == 0x3 && data >> 2 == expected)
+    }
+
     fn try_parse_start(
         reader: Reader,
         object_type: ObjectType,
diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index 5623dd6..c267e56 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -275,7 +275,7 @@ impl DataElement {
         let mut declarations = vec![];
 
         loop {
-            if ObjectHeader::has_end_8(reader, ObjectType::ObjectGroupMetadataBlock)? {
+            if ObjectHeader::has_end_16(reader, ObjectType::ObjectGroupMetadataBlock)? {
                 break;
             }
 
@@ -287,7 +287,7 @@ impl DataElement {
             })
         }
 
-        ObjectHeader::try_parse_end_8(reader, ObjectType::ObjectGroupMetadataBlock)?;
+        ObjectHeader::try_parse_end_16(reader, ObjectType::ObjectGroupMetadataBlock)?;
 
         Ok(declarations)
     }
-- 
2.43.0


From c13c85006ec49b7cd8c033d4490fd5fd874eac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 14/24] fix: make the choice of store parts independent of the
 hash order

With several storage indexes, storage manifests, cell mappings or equal
serial numbers in a file, repeated parsing of the same data chose different
ones and reported different errors.
---
 src/fsshttpb/data/cell_id.rs               |  2 +-
 src/fsshttpb/data/exguid.rs                |  2 +-
 src/fsshttpb/data_element/mod.rs           |  6 +++---
 src/fsshttpb/data_element/storage_index.rs | 10 +++++-----
 src/shared/guid.rs                         |  2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fsshttpb/data/cell_id.rs b/src/fsshttpb/data/cell_id.rs
index d28883d..e9a2f1d 100644
--- a/src/fsshttpb/data/cell_id.rs
+++ b/src/fsshttpb/data/cell_id.rs
@@ -9,7 +9,7 @@ use crate::fsshttpb::data::exguid::ExGuid;
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.10]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/75bf8297-ef9c-458a-95a3-ad6265bfa864
 /// [\[MS-FSSHTTPB\] 2.2.1.11]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/d3f4d22d-6fb4-4032-8587-f3eb9c256e45
-#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct CellId(pub ExGuid, pub ExGuid);
 
 impl CellId {
diff --git a/src/fsshttpb/data/exguid.rs b/src/fsshttpb/data/exguid.rs
index 2e19ce5..c1cb262 100644
--- a/src/fsshttpb/data/exguid.rs
+++ b/src/fsshttpb/data/exguid.rs
@@ -9,7 +9,7 @@ use std::fmt;
 /// See [\[MS-FSSHTTPB\] 2.2.1.7].
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.7]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/bff58e9f-8222-4fbb-b112-5826d5febedd
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct ExGuid {
     pub guid: Guid,
     pub value: u32,
diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 010553a..28c8934 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -11,7 +11,7 @@ use crate::fsshttpb::data_element::object_group::ObjectGroup;
 use crate::fsshttpb::data_element::revision_manifest::RevisionManifest;
 use crate::fsshttpb::data_element::storage_index::StorageIndex;
 use crate::fsshttpb::data_element::storage_manifest::StorageManifest;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 
 pub(crate) mod cell_manifest;
@@ -29,8 +29,8 @@ pub(crate) mod storage_manifest;
 /// [\[MS-FSSHTTPB\] 2.2.1.12]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/99a25464-99b5-4262-a964-baabed2170eb
 #[derive(Debug)]
 pub(crate) struct DataElementPackage {
-    pub(crate) storage_indexes: HashMap<ExGuid, StorageIndex>,
-    pub(crate) storage_manifests: HashMap<ExGuid, StorageManifest>,
+    pub(crate) storage_indexes: BTreeMap<ExGuid, StorageIndex>,
+    pub(crate) storage_manifests: BTreeMap<ExGuid, StorageManifest>,
     pub(crate) cell_manifests: HashMap<ExGuid, ExGuid>,
     pub(crate) revision_manifests: HashMap<ExGuid, RevisionManifest>,
     pub(crate) object_groups: HashMap<ExGuid, ObjectGroup>,
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index be75b5a..70e2beb 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -6,7 +6,7 @@ use crate::fsshttpb::data::object_types::ObjectType;
 use crate::fsshttpb::data::serial_number::SerialNumber;
 use crate::fsshttpb::data::stream_object::ObjectHeader;
 use crate::fsshttpb::data_element::DataElement;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// A storage index.
 ///
@@ -17,8 +17,8 @@ use std::collections::HashMap;
 #[allow(dead_code)]
 pub(crate) struct StorageIndex {
     pub(crate) manifest_mappings: Vec<StorageIndexManifestMapping>,
-    pub(crate) cell_mappings: HashMap<CellId, StorageIndexCellMapping>,
-    pub(crate) revision_mappings: HashMap<ExGuid, StorageIndexRevisionMapping>,
+    pub(crate) cell_mappings: BTreeMap<CellId, StorageIndexCellMapping>,
+    pub(crate) revision_mappings: BTreeMap<ExGuid, StorageIndexRevisionMapping>,
 }
 
 impl StorageIndex {
@@ -70,8 +70,8 @@ pub(crate) struct StorageIndexRevisionMapping {
 impl DataElement {
     pub(crate) fn parse_storage_index(reader: Reader) -> Result<StorageIndex> {
         let mut manifest_mappings = vec![];
-        let mut cell_mappings = HashMap::new();
-        let mut revision_mappings = HashMap::new();
+        let mut cell_mappings = BTreeMap::new();
+        let mut revision_mappings = BTreeMap::new();
 
         loop {
             if ObjectHeader::has_end_8(reader, ObjectType::DataElement)? {
diff --git a/src/shared/guid.rs b/src/shared/guid.rs
index 4a2061a..cc4ba70 100644
--- a/src/shared/guid.rs
+++ b/src/shared/guid.rs
@@ -12,7 +12,7 @@ use uuid::Uuid;
 ///
 /// [\[1\]]: https://stackoverflow.com/questions/10190817/guid-byte-order-in-net
 /// [\[2\]]: https://docs.microsoft.com/en-us/dotnet/api/system.guid.tobytearray?view=net-5.0#remarks
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct Guid(pub Uuid);
 
 impl Guid {
-- 
2.43.0


From 4fb74a3bc7c0e13e5879aa6e8bc5ee37252325c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 15/24] fix: use the storage manifest that the storage index
 maps to

---
 src/fsshttpb/data_element/mod.rs | 11 +++++++++--
 src/onestore/mod.rs              |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 28c8934..3e5a440 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -122,8 +122,15 @@ impl DataElementPackage {
     }
 
     /// Find the first storage manifest.
-    pub(crate) fn find_storage_manifest(&self) -> Option<&StorageManifest> {
-        self.storage_manifests.values().next()
+    pub(crate) fn find_storage_manifest(
+        &self,
+        storage_index: &StorageIndex,
+    ) -> Option<&StorageManifest> {
+        storage_index
+            .manifest_mappings
+            .iter()
+            .find_map(|mapping| self.storage_manifests.get(&mapping.mapping_id))
+            .or_else(|| self.storage_manifests.values().next())
     }
 
     /// Resolve a revision manifest ID, falling back when revision mappings are missing.
diff --git a/src/onestore/mod.rs b/src/onestore/mod.rs
index a273412..274c507 100644
--- a/src/onestore/mod.rs
+++ b/src/onestore/mod.rs
@@ -51,7 +51,7 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
         .ok_or_else(|| ErrorKind::MalformedOneStoreData("storage index is missing".into()))?;
     let storage_manifest = package
         .data_element_package
-        .find_storage_manifest()
+        .find_storage_manifest(storage_index)
         .ok_or_else(|| ErrorKind::MalformedOneStoreData("storage manifest is missing".into()))?;
 
     let header_cell_id = find_header_cell_id(storage_manifest)?;
-- 
2.43.0


From 1cb0676a49bb3c361bd51b5a8006f23c2e9f7562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 16/24] fix: accept a notebook given as bare file name in the
 current directory

---
 src/onenote/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index e90d63d..22d6c6c 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -238,11 +238,15 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
 
     let candidate = base_dir.join(&sanitized);
     if candidate.exists() {
-        let base_canon = base_dir
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve base directory: {err}").into(),
-            })?;
+        // The parent of a bare file name is the empty path, i.e. the current directory
+        let base = if base_dir.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_dir
+        };
+        let base_canon = base.canonicalize().map_err(|err| ErrorKind::InvalidPath {
+            message: format!("failed to resolve base directory: {err}").into(),
+        })?;
         let candidate_canon = candidate
             .canonicalize()
             .map_err(|err| ErrorKind::InvalidPath {
-- 
2.43.0


From 25624e2fecf5340dafe2e45491b0301cc26ada37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 17/24] fix: reject reference lists that exceed the object's
 references

---
 src/one/property/object_reference.rs       | 7 +++++++
 src/one/property/object_space_reference.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 3acf2f7..dc4330e 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -52,6 +52,13 @@ impl ObjectReference {
 
         let references = object.props().object_ids();
 
+        if references.len() < offset + count as usize {
+            return Err(ErrorKind::MalformedOneNoteFileData(
+                "object id array exceeds the references of the object".into(),
+            )
+            .into());
+        }
+
         // Look up the object references by offset/count and resolve them
         let object_ids = references
             .iter()
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 25b4e4d..9615b5e 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -33,6 +33,13 @@ impl ObjectSpaceReference {
 
         let references = object.props().object_space_ids();
 
+        if references.len() < offset + count as usize {
+            return Err(ErrorKind::MalformedOneNoteFileData(
+                "object space id array exceeds the references of the object".into(),
+            )
+            .into());
+        }
+
         // Look up the object space references by offset/count and resolve them
         let object_space_ids = references
             .iter()
-- 
2.43.0


From f850b8280bb04bea021346c77ae0633020c019ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 18/24] fix: read the page size as the 32-bit value it is
 stored as

The property identifier 0x14001C8B has the type of a 32-bit number, so that
every page that stores a page size was rejected.
---
 src/one/property/page_size.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/page_size.rs b/src/one/property/page_size.rs
index 2caa930..ad4e0bd 100644
--- a/src/one/property/page_size.rs
+++ b/src/one/property/page_size.rs
@@ -31,8 +31,8 @@ pub(crate) enum PageSize {
 impl PageSize {
     pub(crate) fn parse(prop_type: PropertyType, object: &Object) -> Result<Option<PageSize>> {
         let value = match object.props().get(prop_type) {
-            Some(value) => value.to_u8().ok_or_else(|| {
-                ErrorKind::MalformedOneNoteFileData("page size is not a u8".into())
+            Some(value) => value.to_u32().ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("page size is not a u32".into())
             })?,
             None => return Ok(None),
         };
-- 
2.43.0


From f106e545a75653dac67c7cf1904f6fd6df8c2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 19/24] fix: reject outlines and tables of contents that are
 nested without bound

---
 src/onenote/content.rs  |  8 ++++++--
 src/onenote/notebook.rs | 16 +++++++++++++---
 src/onenote/outline.rs  | 39 +++++++++++++++++++++++++++++++--------
 src/onenote/table.rs    | 12 ++++++------
 4 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/onenote/content.rs b/src/onenote/content.rs
index 3e07842..86af930 100644
--- a/src/onenote/content.rs
+++ b/src/onenote/content.rs
@@ -77,7 +77,11 @@ impl Content {
     }
 }
 
-pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<Content> {
+pub(crate) fn parse_content(
+    content_id: ExGuid,
+    space: &ObjectSpace,
+    depth: usize,
+) -> Result<Content> {
     let content_type = space
         .get_object(content_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("page content is missing".into()))?
@@ -94,7 +98,7 @@ pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<C
             Content::EmbeddedFile(parse_embedded_file(content_id, space)?)
         }
         PropertySetId::RichTextNode => Content::RichText(parse_rich_text(content_id, space)?),
-        PropertySetId::TableNode => Content::Table(parse_table(content_id, space)?),
+        PropertySetId::TableNode => Content::Table(parse_table(content_id, space, depth)?),
         PropertySetId::InkContainer => Content::Ink(parse_ink(content_id, space)?),
         _ => Content::Unknown,
     };
diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 8f15e33..858561b 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -6,6 +6,9 @@ use crate::onestore::object_space::ObjectSpace;
 use crate::property::common::Color;
 use itertools::Itertools;
 
+/// The maximum number of table of contents containers that can be nested into each other.
+const MAX_NESTING_DEPTH: usize = 256;
+
 /// A OneNote notebook.
 #[derive(Clone, Debug)]
 pub struct Notebook {
@@ -35,7 +38,7 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
         .content_root()
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("notebook has no content root".into()))?;
 
-    let entry = parse_toc_entry(content_id, space)?;
+    let entry = parse_toc_entry(content_id, space, 0)?;
     let toc = entry
         .entries
         .into_iter()
@@ -47,7 +50,14 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
     Ok((toc, entry.color))
 }
 
-fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry> {
+fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<TocEntry> {
+    if depth >= MAX_NESTING_DEPTH {
+        return Err(ErrorKind::MalformedOneNoteData(
+            "table of contents is nested too deeply".into(),
+        )
+        .into());
+    }
+
     let content = space.get_object(content_id).ok_or_else(|| {
         ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
     })?;
@@ -67,7 +77,7 @@ fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry>
         let children = toc
             .children
             .into_iter()
-            .map(|content_id| parse_toc_entry(content_id, space))
+            .map(|content_id| parse_toc_entry(content_id, space, depth + 1))
             .collect::<Result<Vec<_>>>()?
             .into_iter()
             .flat_map(|entry| entry.entries)
diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index f7db6a2..038b576 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -6,6 +6,9 @@ use crate::onenote::content::{Content, parse_content};
 use crate::onenote::list::{List, parse_list};
 use crate::onestore::object_space::ObjectSpace;
 
+/// The maximum number of outline groups and elements that can be nested into each other.
+const MAX_NESTING_DEPTH: usize = 256;
+
 /// A content outline.
 ///
 /// See [\[MS-ONE\] 1.3.2.1] and [\[MS-ONE\] 2.2.20].
@@ -265,7 +268,7 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
     let items = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, 0))
         .collect::<Result<_>>()?;
 
     let outline = Outline {
@@ -287,7 +290,7 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
     Ok(outline)
 }
 
-fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineItem> {
+fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<OutlineItem> {
     let content_type = space
         .get_object(item_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline item is missing".into()))?
@@ -299,9 +302,11 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
     })?;
 
     let item = match id {
-        PropertySetId::OutlineGroup => OutlineItem::Group(parse_outline_group(item_id, space)?),
+        PropertySetId::OutlineGroup => {
+            OutlineItem::Group(parse_outline_group(item_id, space, depth)?)
+        }
         PropertySetId::OutlineElementNode => {
-            OutlineItem::Element(parse_outline_element(item_id, space)?)
+            OutlineItem::Element(parse_outline_element(item_id, space, depth)?)
         }
         _ => {
             return Err(ErrorKind::MalformedOneNoteData(
@@ -314,7 +319,22 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
     Ok(item)
 }
 
-fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineGroup> {
+/// Reject outline trees that are nested too deeply (or contain themselves).
+fn check_nesting_depth(depth: usize) -> Result<()> {
+    if depth >= MAX_NESTING_DEPTH {
+        return Err(ErrorKind::MalformedOneNoteData("outline is nested too deeply".into()).into());
+    }
+
+    Ok(())
+}
+
+fn parse_outline_group(
+    group_id: ExGuid,
+    space: &ObjectSpace,
+    depth: usize,
+) -> Result<OutlineGroup> {
+    check_nesting_depth(depth)?;
+
     let group_object = space
         .get_object(group_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline group is missing".into()))?;
@@ -323,7 +343,7 @@ fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineG
     let outlines = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, depth + 1))
         .collect::<Result<_>>()?;
 
     let group = OutlineGroup {
@@ -337,7 +357,10 @@ fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineG
 pub(crate) fn parse_outline_element(
     element_id: ExGuid,
     space: &ObjectSpace,
+    depth: usize,
 ) -> Result<OutlineElement> {
+    check_nesting_depth(depth)?;
+
     let element_object = space
         .get_object(element_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline element is missing".into()))?;
@@ -346,13 +369,13 @@ pub(crate) fn parse_outline_element(
     let children = data
         .children
         .into_iter()
-        .map(|item_id| parse_outline_item(item_id, space))
+        .map(|item_id| parse_outline_item(item_id, space, depth + 1))
         .collect::<Result<_>>()?;
 
     let contents = data
         .contents
         .into_iter()
-        .map(|content_id| parse_content(content_id, space))
+        .map(|content_id| parse_content(content_id, space, depth))
         .collect::<Result<_>>()?;
 
     let list_contents = data
diff --git a/src/onenote/table.rs b/src/onenote/table.rs
index daa81b3..0bd2c2f 100644
--- a/src/onenote/table.rs
+++ b/src/onenote/table.rs
@@ -164,7 +164,7 @@ impl TableCell {
     }
 }
 
-pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table> {
+pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<Table> {
     let table_object = space
         .get_object(table_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("table object is missing".into()))?;
@@ -173,7 +173,7 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
     let contents = data
         .rows
         .into_iter()
-        .map(|row_id| parse_row(row_id, space))
+        .map(|row_id| parse_row(row_id, space, depth))
         .collect::<Result<_>>()?;
 
     let table = Table {
@@ -191,7 +191,7 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
     Ok(table)
 }
 
-fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
+fn parse_row(row_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<TableRow> {
     let row_object = space
         .get_object(row_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("row object is missing".into()))?;
@@ -200,7 +200,7 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
     let contents = data
         .cells
         .into_iter()
-        .map(|cell_id| parse_cell(cell_id, space))
+        .map(|cell_id| parse_cell(cell_id, space, depth))
         .collect::<Result<_>>()?;
 
     let row = TableRow { contents };
@@ -208,7 +208,7 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
     Ok(row)
 }
 
-fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
+fn parse_cell(cell_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<TableCell> {
     let cell_object = space
         .get_object(cell_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("cell object is missing".into()))?;
@@ -217,7 +217,7 @@ fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
     let contents = data
         .contents
         .into_iter()
-        .map(|element_id| parse_outline_element(element_id, space))
+        .map(|element_id| parse_outline_element(element_id, space, depth + 1))
         .collect::<Result<_>>()?;
 
     let cell = TableCell {
-- 
2.43.0


From a54fe27017257b03aaa5ec71f35086e9d0c969f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 20/24] fix: reject property sets that are nested without bound

---
 src/onestore/types/prop_set.rs | 28 ++++++++++++++++++++++++++--
 src/onestore/types/property.rs | 17 +++++++++++++----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/onestore/types/prop_set.rs b/src/onestore/types/prop_set.rs
index f40a2de..dd8dd0d 100644
--- a/src/onestore/types/prop_set.rs
+++ b/src/onestore/types/prop_set.rs
@@ -1,8 +1,11 @@
 use crate::Reader;
-use crate::errors::Result;
+use crate::errors::{ErrorKind, Result};
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 use std::collections::HashMap;
 
+/// The maximum number of property sets that can be nested into each other.
+const MAX_NESTING_DEPTH: usize = 64;
+
 /// A property set.
 ///
 /// See [\[MS-ONESTORE\] 2.6.7].
@@ -15,6 +18,27 @@ pub(crate) struct PropertySet {
 
 impl PropertySet {
     pub(crate) fn parse(reader: Reader) -> Result<PropertySet> {
+        PropertySet::parse_values(reader, PropertyValue::parse)
+    }
+
+    /// Parse a property set that is the value of another property at the given nesting depth.
+    pub(crate) fn parse_nested(reader: Reader, depth: usize) -> Result<PropertySet> {
+        if depth >= MAX_NESTING_DEPTH {
+            return Err(ErrorKind::MalformedOneStoreData(
+                "property sets are nested too deeply".into(),
+            )
+            .into());
+        }
+
+        PropertySet::parse_values(reader, |id, reader| {
+            PropertyValue::parse_nested(id, reader, depth)
+        })
+    }
+
+    fn parse_values(
+        reader: Reader,
+        parse_value: impl Fn(PropertyId, Reader) -> Result<PropertyValue>,
+    ) -> Result<PropertySet> {
         let count = reader.get_u16()?;
 
         let property_ids: Vec<_> = (0..count)
@@ -24,7 +48,7 @@ impl PropertySet {
         let values = property_ids
             .into_iter()
             .enumerate()
-            .map(|(idx, id)| Ok((id.id(), (idx, PropertyValue::parse(id, reader)?))))
+            .map(|(idx, id)| Ok((id.id(), (idx, parse_value(id, reader)?))))
             .collect::<Result<_>>()?;
 
         Ok(PropertySet { values })
diff --git a/src/onestore/types/property.rs b/src/onestore/types/property.rs
index b1eecea..c110f33 100644
--- a/src/onestore/types/property.rs
+++ b/src/onestore/types/property.rs
@@ -114,6 +114,15 @@ impl PropertyValue {
     // }
 
     pub(crate) fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+        PropertyValue::parse_nested(property_id, reader, 0)
+    }
+
+    /// Parse the value of a property of a property set at the given nesting depth.
+    pub(crate) fn parse_nested(
+        property_id: PropertyId,
+        reader: Reader,
+        depth: usize,
+    ) -> Result<PropertyValue> {
         let prop_type = property_id.prop_type();
 
         let value = match prop_type {
@@ -134,8 +143,8 @@ impl PropertyValue {
             0xC => PropertyValue::ContextId,
             0xD => PropertyValue::ContextIds(reader.get_u32()?),
 
-            0x10 => PropertyValue::parse_property_values(reader)?,
-            0x11 => PropertyValue::PropertySet(PropertySet::parse(reader)?),
+            0x10 => PropertyValue::parse_property_values(reader, depth + 1)?,
+            0x11 => PropertyValue::PropertySet(PropertySet::parse_nested(reader, depth + 1)?),
 
             v => {
                 return Err(ErrorKind::MalformedOneStoreData(
@@ -155,7 +164,7 @@ impl PropertyValue {
         Ok(PropertyValue::Vec(data))
     }
 
-    fn parse_property_values(reader: Reader) -> Result<PropertyValue> {
+    fn parse_property_values(reader: Reader, depth: usize) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
 
         // Parse property ID
@@ -165,7 +174,7 @@ impl PropertyValue {
         // Parse property values
 
         let values = (0..size)
-            .map(|_| PropertySet::parse(reader))
+            .map(|_| PropertySet::parse_nested(reader, depth))
             .collect::<Result<_>>()?;
 
         Ok(PropertyValue::PropertyValues(id, values))
-- 
2.43.0


From a93f6c07c5fee7733af097e0fcbd133ec82e8d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 21/24] fix: leave enough stack for nested tables

---
 src/onenote/notebook.rs | 2 +-
 src/onenote/outline.rs  | 2 +-
 src/onenote/table.rs    | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 858561b..d2f386c 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -7,7 +7,7 @@ use crate::property::common::Color;
 use itertools::Itertools;
 
 /// The maximum number of table of contents containers that can be nested into each other.
-const MAX_NESTING_DEPTH: usize = 256;
+const MAX_NESTING_DEPTH: usize = 128;
 
 /// A OneNote notebook.
 #[derive(Clone, Debug)]
diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index 038b576..f70362b 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -7,7 +7,7 @@ use crate::onenote::list::{List, parse_list};
 use crate::onestore::object_space::ObjectSpace;
 
 /// The maximum number of outline groups and elements that can be nested into each other.
-const MAX_NESTING_DEPTH: usize = 256;
+const MAX_NESTING_DEPTH: usize = 128;
 
 /// A content outline.
 ///
diff --git a/src/onenote/table.rs b/src/onenote/table.rs
index 0bd2c2f..5a77638 100644
--- a/src/onenote/table.rs
+++ b/src/onenote/table.rs
@@ -217,7 +217,8 @@ fn parse_cell(cell_id: ExGuid, space: &ObjectSpace, depth: usize) -> Result<Tabl
     let contents = data
         .contents
         .into_iter()
-        .map(|element_id| parse_outline_element(element_id, space, depth + 1))
+        // Nested tables need more stack than plain outlines, so let them count twice.
+        .map(|element_id| parse_outline_element(element_id, space, depth + 2))
         .collect::<Result<_>>()?;
 
     let cell = TableCell {
-- 
2.43.0


From 0744dbeeea4d2b8efe7c3bdc2843ea66ff9ef99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 22/24] fix: reject section groups that are nested without
 bound

---
 src/onenote/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 22d6c6c..26c33f0 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -27,6 +27,9 @@ pub(crate) mod rich_text;
 pub(crate) mod section;
 pub(crate) mod table;
 
+/// The maximum number of section groups that can be nested into each other.
+const MAX_NESTING_DEPTH: usize = 64;
+
 /// The OneNote file parser.
 ///
 /// Use [`Parser::parse_notebook`] to load a notebook from a `.onetoc2` file or
@@ -57,6 +60,11 @@ impl Parser {
     /// Returns [`ErrorKind::NotATocFile`] if the file is not a notebook table of
     /// contents.
     pub fn parse_notebook(&self, path: &Path) -> Result<Notebook> {
+        self.parse_notebook_at(path, 0)
+    }
+
+    /// Parse the notebook (or section group) at the given nesting depth of section groups.
+    fn parse_notebook_at(&self, path: &Path, depth: usize) -> Result<Notebook> {
         let file = File::open(path)?;
         let data = Parser::read(file)?;
         let packaging = OneStorePackaging::parse(&mut Reader::new(data.as_slice()))?;
@@ -85,7 +93,7 @@ impl Parser {
                 if path.is_file() {
                     self.parse_section(&path).map(SectionEntry::Section)
                 } else {
-                    self.parse_section_group(&path)
+                    self.parse_section_group(&path, depth + 1)
                         .map(SectionEntry::SectionGroup)
                 }
             })
@@ -149,7 +157,14 @@ impl Parser {
         )
     }
 
-    fn parse_section_group(&self, path: &Path) -> Result<SectionGroup> {
+    fn parse_section_group(&self, path: &Path, depth: usize) -> Result<SectionGroup> {
+        if depth >= MAX_NESTING_DEPTH {
+            return Err(ErrorKind::InvalidPath {
+                message: "section groups are nested too deeply".into(),
+            }
+            .into());
+        }
+
         let display_name = path
             .file_name()
             .ok_or_else(|| ErrorKind::InvalidPath {
@@ -168,7 +183,7 @@ impl Parser {
 
             if is_toc {
                 return self
-                    .parse_notebook(&entry.path())
+                    .parse_notebook_at(&entry.path(), depth)
                     .map(|group| SectionGroup {
                         display_name,
                         entries: group.entries,
-- 
2.43.0


From 1975e16921936855de033654013211cbeae048f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:28 +0000
Subject: [PATCH 23/24] fix: accept ordinary section names that begin or end
 with punctuation or contain unusual spaces

---
 src/onenote/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 26c33f0..6662c13 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -4,7 +4,7 @@ use crate::onenote::notebook::Notebook;
 use crate::onenote::section::{Section, SectionEntry, SectionGroup};
 use crate::onestore::parse_store;
 use crate::reader::Reader;
-use sanitise_file_name::sanitise;
+use sanitise_file_name::{Options, sanitise_with_options};
 use std::ffi::OsStr;
 use std::fs::File;
 use std::io::{BufReader, Read};
@@ -30,6 +30,17 @@ pub(crate) mod table;
 /// The maximum number of section groups that can be nested into each other.
 const MAX_NESTING_DEPTH: usize = 64;
 
+/// The rules that the names of section entries have to satisfy.
+///
+/// Names such as `_Archive`, `Ideas -` or `To  do` are ordinary section names, only characters
+/// and names which no file can have are rejected.
+const ENTRY_NAME_OPTIONS: Options<Option<char>> = Options {
+    normalise_whitespace: false,
+    trim_spaces_and_full_stops: false,
+    trim_more_punctuation: false,
+    ..Options::DEFAULT
+};
+
 /// The OneNote file parser.
 ///
 /// Use [`Parser::parse_notebook`] to load a notebook from a `.onetoc2` file or
@@ -224,7 +235,7 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
                 let name = name.to_str().ok_or_else(|| ErrorKind::InvalidPath {
                     message: "section entry contains non-utf8 characters".into(),
                 })?;
-                let clean = sanitise(name);
+                let clean = sanitise_with_options(name, &ENTRY_NAME_OPTIONS);
                 if clean != name {
                     return Err(ErrorKind::InvalidPath {
                         message: format!("section entry contains invalid characters: {name}")
-- 
2.43.0


From a3b97b10052411a57f82af3f6024ce79334895a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:03 +0000
Subject: [PATCH 24/24] fix: reject section groups that contain themselves
 through links

---
 src/onenote/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 6662c13..8172cf5 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -284,6 +284,12 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
             }
             .into());
         }
+        if candidate_canon == base_canon {
+            return Err(ErrorKind::InvalidPath {
+                message: "section group contains itself".into(),
+            }
+            .into());
+        }
     }
 
     Ok(candidate)
-- 
2.43.0

