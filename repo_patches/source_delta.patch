From 63d7f7c3ecc7535b6d8c0bc91f0ed1cd23e9bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 01/24] fix: intersect brush planes relative to the brush, not
 the world origin

In single precision the plane distances lose the accuracy the hull test
needs: from about 2000 units away from the origin corners of sloped
brushes were rejected by the hull test and their faces got holes.
---
 src/geo_builder/brush_plane/vertices.rs | 14 +++++++++-----
 src/map/quake/types/brush_plane.rs      |  5 -----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 50a85eb..3389c0f 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -18,15 +18,19 @@ pub fn intersect_brush_planes(
         return None;
     }
 
-    Some(
-        (n1.cross(n2) * p0.dist() + n2.cross(n0) * p1.dist() + n0.cross(n1) * p2.dist()) / denom,
-    )
+    // Work relative to a point on the first plane, so that precision does not
+    // degrade with the brush's distance from the world origin
+    let origin = p0.v0;
+    let d1 = n1.dot(p1.v0 - origin);
+    let d2 = n2.dot(p2.v0 - origin);
+
+    Some(origin + (n2.cross(n0) * d1 + n0.cross(n1) * d2) / denom)
 }
 
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
     for brush_plane in hull {
-        let proj = brush_plane.normal().dot(vertex);
-        if proj > brush_plane.dist() && proj - brush_plane.dist() > CMP_EPSILON {
+        let proj = brush_plane.normal().dot(vertex - brush_plane.v0);
+        if proj > CMP_EPSILON {
             return false;
         }
     }
diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index ea3cf0d..48b4c27 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -178,9 +178,4 @@ impl BrushPlane {
         let v0v2 = self.v2 - self.v0;
         v0v2.cross(v0v1).normalize()
     }
-
-    pub fn dist(&self) -> f32 {
-        let n = self.normal();
-        n.dot(self.v0)
-    }
 }
-- 
2.43.0


From 599f1680f32733913ccc58556325a7cf3fd24e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 02/24] fix: ignore degenerate brush planes instead of
 panicking or emitting NaN vertices

A plane whose three points are collinear has a NaN normal, which passed
the 'denom < CMP_EPSILON' rejection: the brush got NaN vertices, or with
standard texture axes the tangent code panicked.
---
 src/geo_builder/brush_plane/vertices.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 3389c0f..9a325f3 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -14,7 +14,8 @@ pub fn intersect_brush_planes(
 
     let denom = n0.cross(n1).dot(n2);
 
-    if denom < CMP_EPSILON {
+    // Degenerate planes have non-finite normals
+    if !denom.is_finite() || denom < CMP_EPSILON {
         return None;
     }
 
@@ -24,7 +25,12 @@ pub fn intersect_brush_planes(
     let d1 = n1.dot(p1.v0 - origin);
     let d2 = n2.dot(p2.v0 - origin);
 
-    Some(origin + (n2.cross(n0) * d1 + n0.cross(n1) * d2) / denom)
+    let vertex = origin + (n2.cross(n0) * d1 + n0.cross(n1) * d2) / denom;
+    if !vertex.length_squared().is_finite() {
+        return None;
+    }
+
+    Some(vertex)
 }
 
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
-- 
2.43.0


From bdb0c347b0286989badff8d4113676fb9f04377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 03/24] fix: report malformed brush planes as errors instead of
 panicking

BrushPlane::new returns a Result, but unwrapped every missing or
non-numeric component of the line.
---
 src/map/quake/types/brush_plane.rs | 49 +++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/map/quake/types/brush_plane.rs b/src/map/quake/types/brush_plane.rs
index 48b4c27..8ffaab8 100644
--- a/src/map/quake/types/brush_plane.rs
+++ b/src/map/quake/types/brush_plane.rs
@@ -79,6 +79,19 @@ impl ExtraData {
     }
 }
 
+fn next_comp<'a>(comps: &mut impl Iterator<Item = &'a str>) -> Result<&'a str, QuarchitectError> {
+    comps
+        .next()
+        .ok_or(QuarchitectError("Missing brush plane component"))
+}
+
+fn next_float<'a>(comps: &mut impl Iterator<Item = &'a str>) -> Result<f32, QuarchitectError> {
+    match next_comp(comps)?.parse() {
+        Ok(value) => Ok(value),
+        Err(_err) => Err(QuarchitectError("Failed to parse brush plane component")),
+    }
+}
+
 // Brush Plane
 #[derive(PartialEq, Debug)]
 pub struct BrushPlane {
@@ -102,9 +115,9 @@ impl BrushPlane {
 
         for i in 0..3 {
             comps.next();
-            let x: f32 = comps.next().unwrap().parse().unwrap();
-            let y: f32 = comps.next().unwrap().parse().unwrap();
-            let z: f32 = comps.next().unwrap().parse().unwrap();
+            let x: f32 = next_float(&mut comps)?;
+            let y: f32 = next_float(&mut comps)?;
+            let z: f32 = next_float(&mut comps)?;
             comps.next();
 
             let v = match i {
@@ -119,26 +132,26 @@ impl BrushPlane {
             v.set_z(z);
         }
 
-        let texture = comps.next().unwrap().to_lowercase();
+        let texture = next_comp(&mut comps)?.to_lowercase();
 
-        let uv = match comps.next().unwrap().parse::<f32>() {
+        let uv = match next_comp(&mut comps)?.parse::<f32>() {
             Ok(u) => {
-                let v: f32 = comps.next().unwrap().parse().unwrap();
+                let v: f32 = next_float(&mut comps)?;
                 UV::standard(u, v)
             }
             Err(_err) => {
-                let ux: f32 = comps.next().unwrap().parse().unwrap();
-                let uy: f32 = comps.next().unwrap().parse().unwrap();
-                let uz: f32 = comps.next().unwrap().parse().unwrap();
-                let uo: f32 = comps.next().unwrap().parse().unwrap();
+                let ux: f32 = next_float(&mut comps)?;
+                let uy: f32 = next_float(&mut comps)?;
+                let uz: f32 = next_float(&mut comps)?;
+                let uo: f32 = next_float(&mut comps)?;
 
                 comps.next();
                 comps.next();
 
-                let vx: f32 = comps.next().unwrap().parse().unwrap();
-                let vy: f32 = comps.next().unwrap().parse().unwrap();
-                let vz: f32 = comps.next().unwrap().parse().unwrap();
-                let vo: f32 = comps.next().unwrap().parse().unwrap();
+                let vx: f32 = next_float(&mut comps)?;
+                let vy: f32 = next_float(&mut comps)?;
+                let vz: f32 = next_float(&mut comps)?;
+                let vo: f32 = next_float(&mut comps)?;
                 
                 comps.next();
 
@@ -146,16 +159,16 @@ impl BrushPlane {
             }
         };
 
-        let rotation: f32 = comps.next().unwrap().parse().unwrap();
+        let rotation: f32 = next_float(&mut comps)?;
 
-        let x: f32 = comps.next().unwrap().parse().unwrap();
-        let y: f32 = comps.next().unwrap().parse().unwrap();
+        let x: f32 = next_float(&mut comps)?;
+        let y: f32 = next_float(&mut comps)?;
         let scale = Vector2::new(x, y);
 
         let extra_comps: Vec<&str> = comps.collect();
         let extra = match extra_comps.len() {
             0 => ExtraData::None,
-            1 => ExtraData::Hexen2(extra_comps.first().unwrap().parse().unwrap()),
+            1 => ExtraData::Hexen2(next_float(&mut extra_comps.into_iter())?),
             3 => ExtraData::quake_2(extra_comps)?,
             6 => ExtraData::daikatana(extra_comps)?,
             _ => return Err(QuarchitectError("Unrecognized extra data")),
-- 
2.43.0


From 4abfc8c7f07558d1e27cfa7a9d9f967b90c39a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 04/24] fix: report malformed properties as errors instead of
 panicking

The tokenizer unwrapped the value of a quoted key that has none.
---
 src/map/quake/parser.rs    | 3 +++
 src/map/quake/tokenizer.rs | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 629ef92..5282a78 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -187,6 +187,9 @@ pub fn run(
                     );
                 }
             },
+            Token::Unrecognized(line) if line.starts_with('"') => {
+                return Err(QuarchitectError("Malformed property"))
+            }
             _ => (),
         }
     }
diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index 578c5b5..a8a8802 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -50,10 +50,10 @@ pub fn run(file_string: String) -> Vec<Token> {
             Some('"') => {
                 let mut comps = line.split('"');
                 comps.next();
-                let key = comps.next().unwrap();
-                comps.next();
-                let value = comps.next().unwrap();
-                Token::property(key, value)
+                match (comps.next(), comps.next(), comps.next()) {
+                    (Some(key), Some(_), Some(value)) => Token::property(key, value),
+                    _ => Token::unrecognized(&line),
+                }
             }
             Some('{') => Token::OpenBrace,
             Some('}') => Token::CloseBrace,
-- 
2.43.0


From 38d9741ff6cc05e4e476a463ff4f60149c0c6fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 05/24] fix: reject maps that end inside an entity or brush

A truncated map was accepted and built from whatever part of it was left.
---
 src/map/quake/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 5282a78..09624c5 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -194,5 +194,8 @@ pub fn run(
         }
     }
 
-    Ok((token_paths, entities))
+    match scope {
+        ParseScope::File => Ok((token_paths, entities)),
+        _ => Err(QuarchitectError("Unexpected end of file")),
+    }
 }
-- 
2.43.0


From 3dc7a417cef0cddfd63ca1e05b7a8bdcbbfb3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 06/24] fix: reject entities without a classname instead of
 panicking

The scene tree code unwraps the classname of every entity.
---
 src/map/quake/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/map/quake/parser.rs b/src/map/quake/parser.rs
index 09624c5..54da75d 100644
--- a/src/map/quake/parser.rs
+++ b/src/map/quake/parser.rs
@@ -141,7 +141,12 @@ pub fn run(
             },
             Token::CloseBrace => match scope {
                 ParseScope::File => return Err(QuarchitectError("Close brace in file scope")),
-                ParseScope::Entity(_entity_id) => scope = ParseScope::file(),
+                ParseScope::Entity(_entity_id) => {
+                    if entities.last().unwrap().get_property("classname").is_none() {
+                        return Err(QuarchitectError("Entity has no classname"));
+                    }
+                    scope = ParseScope::file()
+                }
                 ParseScope::Brush(brush_path) => scope = ParseScope::entity(brush_path.entity_idx),
             },
             Token::Property(p) => match &scope {
-- 
2.43.0


From 9252d1b4296e780b7ad9c1a8681d163733bbbea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 07/24] fix: report a missing or repeated worldspawn as an
 error instead of panicking

---
 src/layer_filter/mod.rs | 21 ++++++++++++---------
 src/lib.rs              |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 4562126..678b8ce 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,13 +1,17 @@
 use crate::geo_builder;
 use crate::map;
+use crate::QuarchitectError;
 use std::collections::HashMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-) -> (
-    Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-    HashMap<String, Vec<geo_builder::brush::Geometry>>,
-) {
+) -> Result<
+    (
+        Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
+        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+    ),
+    QuarchitectError,
+> {
     let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
@@ -21,10 +25,9 @@ pub fn run(
         });
 
     {
-        assert!(
-            worldspawn_entity_data.len() == 1,
-            "Worldspawn element not a singleton"
-        );
+        if worldspawn_entity_data.len() != 1 {
+            return Err(QuarchitectError("Worldspawn element not a singleton"));
+        }
 
         let (worldspawn_entity, mut worldspawn_geometry): (
             map::quake::Entity,
@@ -60,7 +63,7 @@ pub fn run(
         .chain(entity_data.into_iter())
         .collect();
 
-    (entity_data, worldspawn_layers)
+    Ok((entity_data, worldspawn_layers))
 }
 
 fn brush_geometry_by_layer(layer: &str) -> impl FnMut(&geo_builder::brush::Geometry) -> bool + '_ {
diff --git a/src/lib.rs b/src/lib.rs
index ea01d4b..782fd1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ pub fn run(config: Config) -> Result<Vec<scene_tree::SceneTreeNode>, Box<dyn Err
         .collect();
 
     // Split layers out of worldspawn
-    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data);
+    let (entity_data, worldspawn_layer_data) = layer_filter::run(entity_data)?;
 
     // Build engine representation
     let scene_tree = scene_tree::run(
-- 
2.43.0


From 741049e13ebb251b151a1c495f6c7ff51d4e3631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 08/24] fix: do not panic on a non-integer _tb_id or _tb_group

These come from the map file; like every other integer property whose
value does not parse, they no longer bring the build down.
---
 src/scene_tree/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index c58d2bf..2c0aa97 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -291,17 +291,14 @@ fn get_entity_properties(
     let mut properties: HashMap<String, Property> = HashMap::new();
 
     let mut add_internal_property_integer = |property_name: &str| {
-        if entity.properties.contains_key(property_name) {
+        if let Some(Ok(value)) = entity
+            .properties
+            .get(property_name)
+            .map(|value| value.parse::<i32>())
+        {
             properties.insert(
                 property_name.into(),
-                crate::game_data::Property::Integer(
-                    entity
-                        .properties
-                        .get(property_name)
-                        .unwrap()
-                        .parse::<i32>()
-                        .unwrap(),
-                ),
+                crate::game_data::Property::Integer(value),
             );
         }
     };
-- 
2.43.0


From 0dd45ad2947871d8c73e93417d9e55e978f9a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 09/24] fix: build flags properties as Property::Flags

They were reported as Property::Choices, so flags could not be told
apart from choices.
---
 src/scene_tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 2c0aa97..b2e6db8 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -382,7 +382,7 @@ fn get_entity_properties(
                     None => *default,
                 };
 
-                Property::Choices(value)
+                Property::Flags(value)
             }
             crate::game_data::forge::PropertyData::TargetSource => Property::TargetSource,
             crate::game_data::forge::PropertyData::TargetDestination => Property::TargetDestination,
-- 
2.43.0


From c40cb595e797fa82d14a90485d5fcdc8a3fb56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 10/24] fix: place every entity once, whatever its group refers
 to

A _tb_group with no matching _tb_id dropped the entity, a repeated _tb_id
duplicated its members, and a group containing itself recursed forever.
---
 src/scene_tree/mod.rs | 53 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index b2e6db8..fb5d6e6 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -36,14 +36,18 @@ pub fn run(
     // Introduce a new 'group_entity' point class that takes a brush entity classname as a parameter,
     // and causes its parent group to spawn as an instance of that classname instead of as a func_group
 
+    let parents = find_parents(entity_data);
+
     entity_data
         .iter()
+        .enumerate()
         .take(1)
         .flat_map(build_entity(
             quarchitect_game_data,
             forge_game_data,
             texture_blacklist,
             entity_data,
+            &parents,
             Vector3::new(0.0, 0.0, 0.0)
         ))
         .chain(
@@ -54,27 +58,62 @@ pub fn run(
         .chain(
             entity_data
                 .iter()
+                .enumerate()
                 .skip(1)
-                .filter(|(entity, _geometry)| entity.properties.get("_tb_group").is_none())
+                .filter(|(index, _)| parents[*index].is_none())
                 .flat_map(build_entity(
                     quarchitect_game_data,
                     forge_game_data,
                     texture_blacklist,
                     entity_data,
+                    &parents,
                     Vector3::new(0.0, 0.0, 0.0)
                 )),
         )
         .collect()
 }
 
+// Find the index of the group each entity belongs to, if it exists
+fn find_parents(entity_data: &[(Entity, entity::Geometry)]) -> Vec<Option<usize>> {
+    let mut parents: Vec<Option<usize>> = entity_data
+        .iter()
+        .enumerate()
+        .map(|(index, (entity, _geometry))| match index {
+            0 => None,
+            _ => entity.properties.get("_tb_group").and_then(|group| {
+                entity_data
+                    .iter()
+                    .position(|(parent, _geometry)| parent.properties.get("_tb_id") == Some(group))
+            }),
+        })
+        .collect();
+
+    // Groups that contain themselves have no parent
+    for index in 0..parents.len() {
+        let mut ancestor = parents[index];
+        for _ in 0..parents.len() {
+            ancestor = match ancestor {
+                Some(ancestor) if ancestor != index => parents[ancestor],
+                _ => break,
+            };
+        }
+        if ancestor == Some(index) {
+            parents[index] = None;
+        }
+    }
+
+    parents
+}
+
 fn build_entity<'a>(
     quarchitect_game_data: &'a GameData,
     forge_game_data: &'a crate::game_data::forge::GameData,
     texture_blacklist: &'a TextureBlacklist,
     entity_data: &'a [(Entity, entity::Geometry)],
+    parents: &'a [Option<usize>],
     origin: Vector3
-) -> impl Fn(&'a (Entity, entity::Geometry)) -> Option<SceneTreeNode> + 'a {
-    move |(entity, entity_geometry): &(Entity, entity::Geometry)| {
+) -> impl Fn((usize, &'a (Entity, entity::Geometry))) -> Option<SceneTreeNode> + 'a {
+    move |(index, (entity, entity_geometry)): (usize, &(Entity, entity::Geometry))| {
         let mut children: Vec<SceneTreeNode> = Vec::new();
 
         match get_entity_visual_geometry(
@@ -92,19 +131,17 @@ fn build_entity<'a>(
             c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),
         }
 
-        let tb_id = entity.properties.get("_tb_id");
         let mut child_entities: Vec<SceneTreeNode> = entity_data
             .iter()
+            .enumerate()
             .skip(1)
-            .filter(|(child_entity, _geometry)| {
-                let child_group = child_entity.properties.get("_tb_group");
-                child_group.is_some() && child_group == tb_id
-            })
+            .filter(|(child_index, _)| parents[*child_index] == Some(index))
             .flat_map(build_entity(
                 quarchitect_game_data,
                 forge_game_data,
                 texture_blacklist,
                 entity_data,
+                parents,
                 -entity_geometry.center
             ))
             .collect();
-- 
2.43.0


From 8a0ef4fef0f63657b8ef8f43ce9fed0ab8a8c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 11/24] fix: emit worldspawn layers in a fixed order

They were kept in a HashMap, so their order changed from run to run.
---
 src/layer_filter/mod.rs | 6 +++---
 src/scene_tree/mod.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/layer_filter/mod.rs b/src/layer_filter/mod.rs
index 678b8ce..51f2e0a 100644
--- a/src/layer_filter/mod.rs
+++ b/src/layer_filter/mod.rs
@@ -1,18 +1,18 @@
 use crate::geo_builder;
 use crate::map;
 use crate::QuarchitectError;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub fn run(
     entity_data: Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
 ) -> Result<
     (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
-        HashMap<String, Vec<geo_builder::brush::Geometry>>,
+        BTreeMap<String, Vec<geo_builder::brush::Geometry>>,
     ),
     QuarchitectError,
 > {
-    let mut worldspawn_layers: HashMap<String, Vec<geo_builder::brush::Geometry>> = HashMap::new();
+    let mut worldspawn_layers: BTreeMap<String, Vec<geo_builder::brush::Geometry>> = BTreeMap::new();
 
     let (mut worldspawn_entity_data, entity_data): (
         Vec<(map::quake::Entity, geo_builder::entity::Geometry)>,
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index fb5d6e6..125a342 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 pub use types::{
     Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry,
@@ -24,7 +24,7 @@ pub fn run(
     quarchitect_game_data: &crate::game_data::GameData,
     texture_blacklist: &crate::types::TextureBlacklist,
     entity_data: &[(Entity, entity::Geometry)],
-    worldspawn_layers: &HashMap<String, Vec<brush::Geometry>>,
+    worldspawn_layers: &BTreeMap<String, Vec<brush::Geometry>>,
 ) -> Vec<SceneTreeNode> {
     println!("TODO-2: Implement godot group assignment");
     // Global '_groups' property, comma-separated string of group names to apply during build
-- 
2.43.0


From 464b728bc0b854ce61ddc1d65ff88a6f3e48e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 12/24] fix: merge a vertex only into one with the same
 attributes

A duplicate vertex was replaced by the first one at its position, which may
carry another normal, tangent or UV.
---
 src/scene_tree/mod.rs               | 22 +++++++++++-----------
 src/scene_tree/predicates/vertex.rs | 24 ++++++++----------------
 2 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 125a342..db33438 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -610,7 +610,7 @@ fn build_brush_entity_texture_surface<'a>(
             entity_geometry,
             Some(&predicates::brush::not_blacklisted(&texture_blacklist)),
             Some(&predicates::plane::has_texture(&texture)),
-            Some(&predicates::vertex::unique),
+            Some(&predicates::vertex::equal),
         );
 
         if vertices.is_empty() {
@@ -710,7 +710,7 @@ fn get_entity_concave_collision(entity_geometry: &entity::Geometry) -> Collision
         entity_geometry,
         None,
         None,
-        Some(&predicates::vertex::unique_position),
+        Some(&predicates::vertex::equal_position),
     );
     let collision_vertices: Vec<Vector3> = vertices.iter().map(|vertex| vertex.vertex).collect();
 
@@ -731,7 +731,7 @@ fn gather_entity_geometry<'a>(
     entity_geometry: &'a entity::Geometry,
     brush_predicate: Option<&dyn Fn(&&crate::geo_builder::brush::Geometry) -> bool>,
     plane_predicate: Option<&dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool>,
-    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> bool>,
+    vertex_predicate: Option<&dyn Fn(&Vertex, &Vertex) -> bool>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let brush_predicate = match brush_predicate {
         Some(brush_predicate) => brush_predicate,
@@ -773,7 +773,7 @@ fn gather_entity_geometry<'a>(
 fn gather_brush_geometry<'a>(
     brush_geometry: &'a brush::Geometry,
     plane_predicate: Option<&dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool>,
-    vertex_predicate: Option<&dyn Fn(usize, &Vertex, &[&Vertex]) -> bool>,
+    vertex_predicate: Option<&dyn Fn(&Vertex, &Vertex) -> bool>,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let plane_geometry = &brush_geometry.plane_geometry;
 
@@ -817,22 +817,22 @@ fn gather_brush_geometry<'a>(
 fn filter_vertices<'a>(
     vertices: &[&'a Vertex],
     indices: Vec<usize>,
-    predicate: &dyn Fn(usize, &Vertex, &[&Vertex]) -> bool,
+    predicate: &dyn Fn(&Vertex, &Vertex) -> bool,
 ) -> (Vec<&'a Vertex>, Vec<usize>) {
     let mut indices = indices;
     let mut new_indices: Vec<usize> = Vec::new();
     let mut new_vertices: Vec<&Vertex> = Vec::new();
 
     for (i, vertex) in vertices.iter().enumerate() {
-        if predicate(i, vertex, &vertices) {
+        let position = vertices
+            .iter()
+            .position(|comp| predicate(comp, vertex))
+            .unwrap_or(i);
+
+        if position >= i {
             new_indices.push(i);
             new_vertices.push(vertex);
         } else {
-            let position = vertices
-                .iter()
-                .position(|comp| comp.vertex == vertex.vertex)
-                .unwrap();
-
             indices = indices
                 .iter()
                 .map(|index| if *index == i { position } else { *index })
diff --git a/src/scene_tree/predicates/vertex.rs b/src/scene_tree/predicates/vertex.rs
index f3594fa..0b0f103 100644
--- a/src/scene_tree/predicates/vertex.rs
+++ b/src/scene_tree/predicates/vertex.rs
@@ -1,21 +1,13 @@
 use crate::Vertex;
 
-pub fn unique(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
-    let position = vertices.iter().position(|comp| {
-        comp.vertex == vertex.vertex
-            && comp.normal == vertex.normal
-            && comp.tangent == vertex.tangent
-            && comp.uv == vertex.uv
-            && comp.color == vertex.color
-    });
-
-    position.is_none() || position.unwrap() >= i
+pub fn equal(lhs: &Vertex, rhs: &Vertex) -> bool {
+    lhs.vertex == rhs.vertex
+        && lhs.normal == rhs.normal
+        && lhs.tangent == rhs.tangent
+        && lhs.uv == rhs.uv
+        && lhs.color == rhs.color
 }
 
-pub fn unique_position(i: usize, vertex: &Vertex, vertices: &[&Vertex]) -> bool {
-    let position = vertices
-        .iter()
-        .position(|comp| comp.vertex == vertex.vertex);
-
-    position.is_none() || position.unwrap() >= i
+pub fn equal_position(lhs: &Vertex, rhs: &Vertex) -> bool {
+    lhs.vertex == rhs.vertex
 }
-- 
2.43.0


From 3c4e884b44d5ac81d3ffad12099b4b17a05dca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 13/24] fix: diff every line once, by position

The last line of each file was never compared, empty files panicked, and
lines were matched by value, so changes to repeated lines went unreported.
---
 src/map/quake/tokenizer.rs | 50 ++++++++++++--------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/src/map/quake/tokenizer.rs b/src/map/quake/tokenizer.rs
index a8a8802..b6ea355 100644
--- a/src/map/quake/tokenizer.rs
+++ b/src/map/quake/tokenizer.rs
@@ -85,12 +85,9 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         v.resize(size_y + 1, 0);
     }
 
-    for index_x in 0..size_x {
-        for index_y in 0..size_y {
-            if index_x == 0 || index_y == 0 {
-                l[index_x][index_y] = 0;
-            }
-            else if tokens_a[index_x-1] == tokens_b[index_y-1] {
+    for index_x in 1..=size_x {
+        for index_y in 1..=size_y {
+            if tokens_a[index_x-1] == tokens_b[index_y-1] {
                 l[index_x][index_y] = l[index_x-1][index_y-1] + 1;
             }
             else {
@@ -99,45 +96,28 @@ pub fn diff_tokens<'a>(tokens_a: &'a[Token], tokens_b: &'a[Token]) -> Diff<'a> {
         }
     }
 
-    let mut index = l[size_x-1][size_y-1];
-    let mut lcs: Vec<Option<&Token>> = Vec::new();
-    lcs.resize(index, None);
-
+    let mut removed: Vec<&Token> = Vec::new();
+    let mut added: Vec<&Token> = Vec::new();
 
-    let mut i = size_x - 1;
-    let mut j = size_y - 1;
-    while i > 0 && j > 0 {
-        if tokens_a[i-1] == tokens_b[j-1] {
-            lcs[index-1] = Some(&tokens_a[i-1]);
+    let mut i = size_x;
+    let mut j = size_y;
+    while i > 0 || j > 0 {
+        if i > 0 && j > 0 && tokens_a[i-1] == tokens_b[j-1] {
             i -= 1;
             j -= 1;
-            index -= 1;
         }
-        else if l[i-1][j] > l[i][j-1] {
+        else if j == 0 || (i > 0 && l[i-1][j] > l[i][j-1]) {
             i -= 1;
+            removed.push(&tokens_a[i]);
         }
         else {
             j -= 1;
+            added.push(&tokens_b[j]);
         }
     }
 
-    let lcs: Vec<&Token> = lcs.iter().map(|token| {
-        token.unwrap()
-    }).collect();
-
-    let mut removed: Vec<&Token> = Vec::new();
-    for token in tokens_a {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            removed.push(token);
-        }
-    }
-
-    let mut added: Vec<&Token> = Vec::new();
-    for token in tokens_b {
-        if lcs.iter().find(|comp| **comp == token).is_none() {
-            added.push(token);
-        }
-    }
+    removed.reverse();
+    added.reverse();
 
     Diff::new(added, removed)
-}
\ No newline at end of file
+}
-- 
2.43.0


From 416348d293dd987fcd91ad240a5713931c066902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 14/24] fix: ignore planes and brushes without vertices when
 averaging centers

They counted as faces centered on the world origin and pulled the pivot
towards it.
---
 src/geo_builder/brush/mod.rs  | 10 +++++++---
 src/geo_builder/entity/mod.rs | 14 +++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/geo_builder/brush/mod.rs b/src/geo_builder/brush/mod.rs
index 13f8947..340e4da 100644
--- a/src/geo_builder/brush/mod.rs
+++ b/src/geo_builder/brush/mod.rs
@@ -17,13 +17,17 @@ pub fn build(textures: &TextureInfo, entity: &Entity, brush: &Brush) -> Geometry
         .map(|plane| brush_plane::build(textures, entity, planes, plane))
         .collect();
 
-    // Calculate center
-    let center = plane_geometry
+    // Calculate center, skipping planes that do not touch the brush
+    let faces = plane_geometry
         .iter()
+        .filter(|plane_geometry| !plane_geometry.vertices.is_empty());
+
+    let center = faces
+        .clone()
         .fold(Vector3::new(0.0, 0.0, 0.0), |acc, plane_geometry| {
             acc + plane_geometry.center
         })
-        / plane_geometry.len().max(1) as f32;
+        / faces.count().max(1) as f32;
 
     Geometry::new(center, plane_geometry)
 }
diff --git a/src/geo_builder/entity/mod.rs b/src/geo_builder/entity/mod.rs
index 57654ae..3bf85bf 100644
--- a/src/geo_builder/entity/mod.rs
+++ b/src/geo_builder/entity/mod.rs
@@ -27,10 +27,18 @@ pub fn build(textures: &TextureInfo, entity: &Entity) -> Geometry {
             Vector3::new(x, y, z)
         }
         None => {
-            brush_geometry
-                .iter()
+            // Skip brushes that enclose nothing
+            let solids = brush_geometry.iter().filter(|brush_geometry| {
+                brush_geometry
+                    .plane_geometry
+                    .iter()
+                    .any(|plane_geometry| !plane_geometry.vertices.is_empty())
+            });
+
+            solids
+                .clone()
                 .fold(Vector3::new(0.0, 0.0, 0.0), |acc, next| acc + next.center)
-                / (brush_geometry.len().max(1) as f32)
+                / (solids.count().max(1) as f32)
         }
     };
 
-- 
2.43.0


From 112ed8b226b1ee69c97d88e922cd9f1c936c6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 15/24] fix: apply the blacklist to textures without texture
 info

A blacklisted texture that is missing from the texture info was drawn as
part of the untextured surface.
---
 src/geo_builder/brush_plane/geometry.rs | 5 +++--
 src/geo_builder/brush_plane/mod.rs      | 8 +++++++-
 src/scene_tree/mod.rs                   | 2 +-
 src/scene_tree/predicates/brush.rs      | 6 +-----
 src/scene_tree/predicates/plane.rs      | 4 ++++
 5 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/geo_builder/brush_plane/geometry.rs b/src/geo_builder/brush_plane/geometry.rs
index fac163f..d851a14 100644
--- a/src/geo_builder/brush_plane/geometry.rs
+++ b/src/geo_builder/brush_plane/geometry.rs
@@ -7,10 +7,11 @@ pub struct Geometry {
     pub vertices: Vec<Vertex>,
     pub indices: Vec<usize>,
     pub texture: Option<String>,
+    pub texture_name: String,
 }
 
 impl Geometry {
-    pub fn new(center: Vector3, vertices: Vec<Vertex>, indices: Vec<usize>, texture:Option<String>) -> Geometry {
-        Geometry { center, vertices, indices, texture }
+    pub fn new(center: Vector3, vertices: Vec<Vertex>, indices: Vec<usize>, texture: Option<String>, texture_name: String) -> Geometry {
+        Geometry { center, vertices, indices, texture, texture_name }
     }
 }
diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 70cf2ff..65eaa7c 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -110,7 +110,13 @@ pub fn build(
         None => None,
     };
 
-    Geometry::new(center, world_vertices, indices, texture)
+    Geometry::new(
+        center,
+        world_vertices,
+        indices,
+        texture,
+        plane.texture.clone(),
+    )
 }
 
 fn build_plane_vertex(
diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index db33438..007601c 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -609,7 +609,7 @@ fn build_brush_entity_texture_surface<'a>(
         let (vertices, indices) = gather_entity_geometry(
             entity_geometry,
             Some(&predicates::brush::not_blacklisted(&texture_blacklist)),
-            Some(&predicates::plane::has_texture(&texture)),
+            Some(&predicates::plane::has_texture(&texture, texture_blacklist)),
             Some(&predicates::vertex::equal),
         );
 
diff --git a/src/scene_tree/predicates/brush.rs b/src/scene_tree/predicates/brush.rs
index 73feb62..f3ea731 100644
--- a/src/scene_tree/predicates/brush.rs
+++ b/src/scene_tree/predicates/brush.rs
@@ -5,11 +5,7 @@ pub fn not_blacklisted<'a>(
 ) -> impl Fn(&&crate::geo_builder::brush::Geometry) -> bool + 'a {
     move |brush_geometry: &&crate::geo_builder::brush::Geometry| {
         for plane in &brush_geometry.plane_geometry {
-            if let Some(texture) = &plane.texture {
-                if !texture_blacklist.is_blacklisted_brush(texture) {
-                    return true;
-                }
-            } else {
+            if !texture_blacklist.is_blacklisted_brush(&plane.texture_name) {
                 return true;
             }
         }
diff --git a/src/scene_tree/predicates/plane.rs b/src/scene_tree/predicates/plane.rs
index fada3ca..9a160d2 100644
--- a/src/scene_tree/predicates/plane.rs
+++ b/src/scene_tree/predicates/plane.rs
@@ -1,7 +1,11 @@
+use crate::TextureBlacklist;
+
 pub fn has_texture<'a>(
     texture: &'a Option<String>,
+    texture_blacklist: &'a TextureBlacklist,
 ) -> impl Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool + 'a {
     move |plane_geometry: &&crate::geo_builder::brush_plane::Geometry| {
         &plane_geometry.texture == texture
+            && !texture_blacklist.is_blacklisted_plane(&plane_geometry.texture_name)
     }
 }
-- 
2.43.0


From ae73b3be720c9bf8852e2a0cd0d8c2e0f89e33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 16/24] fix: report an unexpected WAD magic as an error instead
 of panicking

---
 src/wad/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index ca219ae..9fe77b3 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -105,7 +105,7 @@ pub fn read_textures(
     let wad_type = match header.magic {
         ['W', 'A', 'D', '2'] => WadType::WAD2,
         ['W', 'A', 'D', '3'] => WadType::WAD3,
-        _ => panic!("Unexpected WAD magic: {:?}", header.magic),
+        _ => return Err(format!("Unexpected WAD magic: {:?}", header.magic)),
     };
 
     let now = Instant::now();
-- 
2.43.0


From 4d2c39753704deff50b8040c2e89626eb5db6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 17/24] fix: stop at the first unreadable WAD directory entry

A corrupt entry count made the reader collect billions of errors, and a
large directory offset overflowed.
---
 src/wad/mod.rs | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 9fe77b3..778fd92 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -149,11 +149,10 @@ fn read_directory(
     header: &header::Header,
     whitelist: &Option<Vec<String>>,
 ) -> Result<Vec<Entry>, String> {
-    let entries: Vec<Result<Option<Entry>, String>> = (0..header.num_entries)
+    let entries: Vec<Option<Entry>> = (0..header.num_entries)
         .map(|i| {
-            let offset = header.dir_offset;
-            let offset = offset + i * ENTRY_BYTES as u32;
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset as u64)) {
+            let offset = header.dir_offset as u64 + i as u64 * ENTRY_BYTES as u64;
+            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(offset)) {
                 return Err(format!("Error seeking to directory: {:?}", err));
             }
 
@@ -181,24 +180,9 @@ fn read_directory(
                 Ok(None)
             }
         })
-        .collect();
-
-    if let Some(err) = entries.iter().find_map(|res| match res {
-        Err(err) => Some(err),
-        _ => None,
-    }) {
-        return Err(err.clone());
-    }
-
-    let entries = entries
-        .into_iter()
-        .flat_map(|entry| match entry {
-            Ok(Some(entry)) => Some(entry),
-            _ => None,
-        })
-        .collect();
+        .collect::<Result<_, String>>()?;
 
-    Ok(entries)
+    Ok(entries.into_iter().flatten().collect())
 }
 
 fn read_mip_textures(wad_file: &mut File, directory: &[Entry]) -> Result<Vec<MipTexture>, String> {
-- 
2.43.0


From 65935c61798376f2180f17e336687988bc35975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 18/24] fix: read each WAD mip level at its own offset and size

Reading more than one mip level always panicked. Sizes and offsets come
from the file, so check them against its length instead of overflowing or
allocating whatever they ask for.
---
 src/wad/mod.rs | 88 ++++++++++++++++++++------------------------------
 1 file changed, 35 insertions(+), 53 deletions(-)

diff --git a/src/wad/mod.rs b/src/wad/mod.rs
index 778fd92..45ae2a1 100644
--- a/src/wad/mod.rs
+++ b/src/wad/mod.rs
@@ -14,6 +14,7 @@ pub use mip_data::{MipDataIndexed, MipDataRGB};
 pub use mip_texture::MipTexture;
 
 use entry::Entry;
+use mip_level::MipLevel;
 
 use palette::Palette;
 use std::{
@@ -132,6 +133,18 @@ pub fn read_textures(
     Ok(result)
 }
 
+fn read_bytes(wad_file: &mut File, offset: u64, size: u64) -> std::io::Result<Vec<u8>> {
+    // Check the size before allocating, since it comes from the file
+    if offset + size > wad_file.metadata()?.len() {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+
+    let mut buf = vec![0u8; size as usize];
+    wad_file.seek(std::io::SeekFrom::Start(offset))?;
+    wad_file.read_exact(&mut buf)?;
+    Ok(buf)
+}
+
 fn read_header(wad_file: &mut File) -> Result<header::Header, String> {
     let mut header_buf = [0u8; HEADER_BYTES];
     if let Err(err) = wad_file.read_exact(&mut header_buf) {
@@ -245,66 +258,38 @@ fn read_mip_data(
                 Err(err) => return Err(format!("Error opening WAD file: {:?}", err)),
             };
 
-            if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                (entry.offset + miptex.offset1) as u64,
-            )) {
-                return Err(format!("Error seeking to miptex: {:?}", err));
-            }
-
-            let size0 = (miptex.width * miptex.height) as usize;
+            let size0 = miptex.width as u64 * miptex.height as u64;
             let size1 = size0 / 4;
             let size2 = size1 / 4;
             let size3 = size2 / 4;
 
-            let sizes = [size0, size1, size2, size3];
-            let sizes = Vec::from(&sizes[..mip_levels]);
-            let total_size = sizes.iter().sum();
-
-            let mut mipdata_buf = vec![0u8; total_size];
-
-            if let Err(err) = wad_file.read_exact(&mut mipdata_buf) {
-                return Err(format!(
-                    "Error reading mipdata for texture {:?}: {:?}",
-                    miptex, err
-                ));
-            }
-
-            let mip0_buf = &mipdata_buf[..size0];
-
-            let (_, mip0) = match mip_level::parser(size0)(mip0_buf) {
-                Ok(mip_level) => mip_level,
-                Err(err) => return Err(format!("Error parsing mip level 0: {:?}", err)),
+            let mut read_mip_level = |offset: u32, size: u64| {
+                let offset = entry.offset as u64 + offset as u64;
+                match read_bytes(&mut wad_file, offset, size) {
+                    Ok(colors) => Ok(MipLevel::new(colors)),
+                    Err(err) => Err(format!(
+                        "Error reading mipdata for texture {:?}: {:?}",
+                        miptex, err
+                    )),
+                }
             };
 
+            let mip0 = read_mip_level(miptex.offset1, size0)?;
+
             let mip1 = if mip_levels > 1 {
-                let mip1_buf = &mipdata_buf[size0..size1];
-                let (_, mip1) = match mip_level::parser(size1)(mip1_buf) {
-                    Ok(mip_level) => mip_level,
-                    Err(err) => return Err(format!("Error parsing mip level 1: {:?}", err)),
-                };
-                Some(mip1)
+                Some(read_mip_level(miptex.offset2, size1)?)
             } else {
                 None
             };
 
             let mip2 = if mip_levels > 2 {
-                let mip2_buf = &mipdata_buf[size0 + size1..size2];
-                let (_, mip2) = match mip_level::parser(size2)(mip2_buf) {
-                    Ok(mip_level) => mip_level,
-                    Err(err) => return Err(format!("Error parsing mip level 2: {:?}", err)),
-                };
-                Some(mip2)
+                Some(read_mip_level(miptex.offset4, size2)?)
             } else {
                 None
             };
 
             let mip3 = if mip_levels > 3 {
-                let mip3_buf = &mipdata_buf[size0 + size1 + size2..size3];
-                let (_, mip3) = match mip_level::parser(size3)(mip3_buf) {
-                    Ok(mip_level) => mip_level,
-                    Err(err) => return Err(format!("Error parsing mip level 3: {:?}", err)),
-                };
-                Some(mip3)
+                Some(read_mip_level(miptex.offset8, size3)?)
             } else {
                 None
             };
@@ -320,17 +305,14 @@ fn read_mip_data(
             match wad_type {
                 WadType::WAD2 => palette = None,
                 WadType::WAD3 => {
-                    if let Err(err) = wad_file.seek(std::io::SeekFrom::Start(
-                        (entry.offset + miptex.offset8 + (size3 as u32) + 2) as u64,
-                    )) {
-                        return Err(format!("Error seeking to texture palette: {:?}", err));
-                    }
+                    let offset = entry.offset as u64 + miptex.offset8 as u64 + size3 + 2;
 
-                    let mut palette_buf = vec![0u8; 256 * 3];
-
-                    if let Err(err) = wad_file.read_exact(&mut palette_buf) {
-                        return Err(format!("Error reading texture palette: {:?}", err));
-                    }
+                    let palette_buf = match read_bytes(&mut wad_file, offset, 256 * 3) {
+                        Ok(palette_buf) => palette_buf,
+                        Err(err) => {
+                            return Err(format!("Error reading texture palette: {:?}", err))
+                        }
+                    };
 
                     let (_, texture_palette) = match palette::parser(&palette_buf) {
                         Ok(texture_palette) => texture_palette,
-- 
2.43.0


From ecefe6213de38cbd2806966237b5160052a44284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:26 +0000
Subject: [PATCH 19/24] fix: emit no convex collision for brushes, entities and
 layers without geometry

---
 src/scene_tree/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index 007601c..ed4b0ee 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -699,8 +699,13 @@ fn get_entity_convex_collision(entity_geometry: &entity::Geometry) -> CollisionG
 
             ConvexCollision::new(brush_geometry.center, points)
         })
+        .filter(|convex_shape| !convex_shape.points.is_empty())
         .collect();
 
+    if convex_shapes.is_empty() {
+        return CollisionGeometry::None;
+    }
+
     CollisionGeometry::convex(convex_shapes)
 }
 
-- 
2.43.0


From 834fa9a51bd29896db65ca341e2c966eb811aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:39 +0000
Subject: [PATCH 20/24] fix: keep the corners of large brushes when rounding
 puts them just off their own planes

---
 src/geo_builder/brush_plane/mod.rs      | 2 +-
 src/geo_builder/brush_plane/vertices.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geo_builder/brush_plane/mod.rs b/src/geo_builder/brush_plane/mod.rs
index 65eaa7c..815c688 100644
--- a/src/geo_builder/brush_plane/mod.rs
+++ b/src/geo_builder/brush_plane/mod.rs
@@ -128,7 +128,7 @@ fn build_plane_vertex(
     p2: &BrushPlane,
 ) -> Option<Vertex> {
     if let Some(vertex) = vertices::intersect_brush_planes(plane, p1, p2) {
-        if vertices::vertex_in_hull(vertex, planes) {
+        if vertices::vertex_in_hull(vertex, planes, [plane, p1, p2]) {
             let normal = normals::vertex_normal(entity, plane, p1, p2);
             let tangent = tangents::vertex_tangent(plane);
 
diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 9a325f3..9a8a14b 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -33,8 +33,13 @@ pub fn intersect_brush_planes(
     Some(vertex)
 }
 
-pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane]) -> bool {
+pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane], own: [&BrushPlane; 3]) -> bool {
     for brush_plane in hull {
+        // A vertex lies on the planes it was computed from; rounding must not
+        // let them reject it
+        if own.iter().any(|own| std::ptr::eq(*own, brush_plane)) {
+            continue;
+        }
         let proj = brush_plane.normal().dot(vertex - brush_plane.v0);
         if proj > CMP_EPSILON {
             return false;
-- 
2.43.0


From fc488a3be55ef3d1d08c65e9c6b229c2411863dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 21/24] fix: keep the corners of brushes with a repeated plane
 when rounding puts them just off it

---
 src/geo_builder/brush_plane/vertices.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/geo_builder/brush_plane/vertices.rs b/src/geo_builder/brush_plane/vertices.rs
index 9a8a14b..349026e 100644
--- a/src/geo_builder/brush_plane/vertices.rs
+++ b/src/geo_builder/brush_plane/vertices.rs
@@ -35,9 +35,9 @@ pub fn intersect_brush_planes(
 
 pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane], own: [&BrushPlane; 3]) -> bool {
     for brush_plane in hull {
-        // A vertex lies on the planes it was computed from; rounding must not
-        // let them reject it
-        if own.iter().any(|own| std::ptr::eq(*own, brush_plane)) {
+        // A vertex lies on the planes it was computed from, and on repeats of
+        // them; rounding must not let them reject it
+        if own.iter().any(|own| same_points(own, brush_plane)) {
             continue;
         }
         let proj = brush_plane.normal().dot(vertex - brush_plane.v0);
@@ -47,3 +47,7 @@ pub fn vertex_in_hull(vertex: Vector3, hull: &[BrushPlane], own: [&BrushPlane; 3
     }
     true
 }
+
+fn same_points(a: &BrushPlane, b: &BrushPlane) -> bool {
+    a.v0 == b.v0 && a.v1 == b.v1 && a.v2 == b.v2
+}
-- 
2.43.0


From e6359903f15b825ff4939e3e0086c1259c80f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:50 +0000
Subject: [PATCH 22/24] fix: build deeply nested groups without overflowing the
 stack

---
 src/scene_tree/mod.rs | 87 ++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 50 deletions(-)

diff --git a/src/scene_tree/mod.rs b/src/scene_tree/mod.rs
index ed4b0ee..5fb4b26 100644
--- a/src/scene_tree/mod.rs
+++ b/src/scene_tree/mod.rs
@@ -1,4 +1,8 @@
-use std::collections::{BTreeMap, HashMap};
+use std::{
+    cmp::Reverse,
+    collections::{BTreeMap, HashMap},
+    iter,
+};
 
 pub use types::{
     Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry,
@@ -38,38 +42,39 @@ pub fn run(
 
     let parents = find_parents(entity_data);
 
-    entity_data
-        .iter()
-        .enumerate()
-        .take(1)
-        .flat_map(build_entity(
-            quarchitect_game_data,
-            forge_game_data,
-            texture_blacklist,
-            entity_data,
-            &parents,
-            Vector3::new(0.0, 0.0, 0.0)
-        ))
+    // Build the most deeply nested entities first, so that the children of each one are ready when
+    // it is built. Recursing would overflow the stack on deeply nested groups.
+    let mut order: Vec<usize> = (0..entity_data.len()).collect();
+    order.sort_by_cached_key(|index| {
+        Reverse(iter::successors(parents[*index], |parent| parents[*parent]).count())
+    });
+
+    let build_entity = build_entity(quarchitect_game_data, forge_game_data, texture_blacklist);
+    let mut children: Vec<Vec<SceneTreeNode>> =
+        iter::repeat_with(Vec::new).take(entity_data.len() + 1).collect();
+    let top_level = entity_data.len();
+
+    for index in order {
+        let (siblings, origin) = match parents[index] {
+            Some(parent) => (parent, -entity_data[parent].1.center),
+            None => (top_level, Vector3::new(0.0, 0.0, 0.0)),
+        };
+
+        let child_entities = std::mem::take(&mut children[index]);
+        children[siblings].push(build_entity(&entity_data[index], origin, child_entities));
+    }
+
+    let mut nodes = children.remove(top_level).into_iter();
+
+    nodes
+        .next()
+        .into_iter()
         .chain(
             worldspawn_layers
                 .iter()
                 .flat_map(build_worldspawn_layer(quarchitect_game_data)),
         )
-        .chain(
-            entity_data
-                .iter()
-                .enumerate()
-                .skip(1)
-                .filter(|(index, _)| parents[*index].is_none())
-                .flat_map(build_entity(
-                    quarchitect_game_data,
-                    forge_game_data,
-                    texture_blacklist,
-                    entity_data,
-                    &parents,
-                    Vector3::new(0.0, 0.0, 0.0)
-                )),
-        )
+        .chain(nodes)
         .collect()
 }
 
@@ -109,11 +114,8 @@ fn build_entity<'a>(
     quarchitect_game_data: &'a GameData,
     forge_game_data: &'a crate::game_data::forge::GameData,
     texture_blacklist: &'a TextureBlacklist,
-    entity_data: &'a [(Entity, entity::Geometry)],
-    parents: &'a [Option<usize>],
-    origin: Vector3
-) -> impl Fn((usize, &'a (Entity, entity::Geometry))) -> Option<SceneTreeNode> + 'a {
-    move |(index, (entity, entity_geometry)): (usize, &(Entity, entity::Geometry))| {
+) -> impl Fn(&(Entity, entity::Geometry), Vector3, Vec<SceneTreeNode>) -> SceneTreeNode + 'a {
+    move |(entity, entity_geometry), origin, mut child_entities| {
         let mut children: Vec<SceneTreeNode> = Vec::new();
 
         match get_entity_visual_geometry(
@@ -131,24 +133,9 @@ fn build_entity<'a>(
             c => children.push(SceneTreeNode::collision_geometry(entity_geometry.center, c)),
         }
 
-        let mut child_entities: Vec<SceneTreeNode> = entity_data
-            .iter()
-            .enumerate()
-            .skip(1)
-            .filter(|(child_index, _)| parents[*child_index] == Some(index))
-            .flat_map(build_entity(
-                quarchitect_game_data,
-                forge_game_data,
-                texture_blacklist,
-                entity_data,
-                parents,
-                -entity_geometry.center
-            ))
-            .collect();
-
         children.append(&mut child_entities);
 
-        Some(SceneTreeNode::entity(
+        SceneTreeNode::entity(
             entity.properties.get("classname").unwrap().clone(),
             origin + entity_geometry.center,
             get_entity_type(quarchitect_game_data, &entity),
@@ -156,7 +143,7 @@ fn build_entity<'a>(
             get_entity_property_application_type(quarchitect_game_data, &entity),
             get_entity_properties(forge_game_data, &entity),
             children,
-        ))
+        )
     }
 }
 
-- 
2.43.0


From e6fcd16ad7d022e6857101a5cb96c3b22eab1c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:51 +0000
Subject: [PATCH 23/24] fix: do not let phong angles above 180 degrees or below
 0 wrap around

---
 src/geo_builder/brush_plane/normals.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geo_builder/brush_plane/normals.rs b/src/geo_builder/brush_plane/normals.rs
index 0aaba39..d23bfb2 100644
--- a/src/geo_builder/brush_plane/normals.rs
+++ b/src/geo_builder/brush_plane/normals.rs
@@ -20,7 +20,9 @@ fn phong_normal(
 ) -> Vector3 {
     if let Some(phong_angle) = phong_angle {
         if let Ok(phong_angle) = phong_angle.parse::<f32>() {
-            let threshold = ((phong_angle + 0.01) * ONE_DEGREE).cos();
+            // Normals differ by 0 to 180 degrees; the cosine must not wrap around beyond that
+            let max_angle = (phong_angle + 0.01).min(180.0).max(0.0);
+            let threshold = (max_angle * ONE_DEGREE).cos();
             let mut normal = p0.normal();
             if p0.normal().dot(p1.normal()) > threshold {
                 normal += p1.normal()
-- 
2.43.0


From 5bb339740360b5c51635cebdb9ad316dc7b0c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:45 +0000
Subject: [PATCH 24/24] fix: write the 32nd flag of a flags property with its
 state

---
 src/game_data/forge/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_data/forge/property.rs b/src/game_data/forge/property.rs
index ec488e9..120d257 100644
--- a/src/game_data/forge/property.rs
+++ b/src/game_data/forge/property.rs
@@ -106,12 +106,12 @@ impl ToString for Property {
                         .iter()
                         .enumerate()
                         .fold(String::new(), |acc, (i, next)| {
-                            let bit = 2_i32.pow(i as u32);
+                            let bit = 2_i32.wrapping_pow(i as u32);
                             acc + &format!(
                                 "\t\t{} : \"{}\" : {}\n",
                                 bit,
                                 next,
-                                if *default & bit > 0 { 1 } else { 0 }
+                                if *default & bit != 0 { 1 } else { 0 }
                             )
                         });
                 format!("{}(flags) =\n\t[\n{}\t]", self.name, flags_string)
-- 
2.43.0

