From 18028296f7b6eb4eb6ce7bd6dae55f05bc03eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:37 +0000
Subject: [PATCH 01/27] fix: validate and rebuild an empty dynamic tree

Both functions asserted on the null root when the tree held no proxies.
---
 src/private/collision/b2_dynamic_tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/collision/b2_dynamic_tree.rs b/src/private/collision/b2_dynamic_tree.rs
index 55619a4..805abcd 100644
--- a/src/private/collision/b2_dynamic_tree.rs
+++ b/src/private/collision/b2_dynamic_tree.rs
@@ -537,6 +537,10 @@ pub fn compute_height_by_node<T: Clone + Default>(
 }
 
 pub fn compute_height<T: Clone + Default>(self_: &B2dynamicTree<T>) -> i32 {
+	if self_.m_root == B2_NULL_NODE {
+		return 0;
+	}
+
 	let height: i32 = compute_height_by_node(self_, self_.m_root);
 	return height;
 }
@@ -718,7 +722,7 @@ pub fn rebuild_bottom_up<T: Clone + Default>(self_: &mut B2dynamicTree<T>) {
 		count-=1;
 	}
 
-	self_.m_root = nodes[0];
+	self_.m_root = if count > 0 { nodes[0] } else { B2_NULL_NODE };
 
 	self_.validate();
 }
-- 
2.43.0


From 2cfbeb38a1032659ead70fd160f2df7047c2007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:25 +0000
Subject: [PATCH 02/27] fix: free a body's joint and contact edges iteratively

Dropping a body with very many joints or contacts recursed through the edge
list and overflowed the stack, as fixtures, bodies and contacts already avoid.
---
 src/b2_body.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/b2_body.rs b/src/b2_body.rs
index c6212b6..e9e377c 100644
--- a/src/b2_body.rs
+++ b/src/b2_body.rs
@@ -202,6 +202,8 @@ impl<D: UserDataType> Drop for B2body<D>
 {
     fn drop(&mut self) {
 		self.m_fixture_list.remove_all();
+		self.m_joint_list.remove_all();
+		self.m_contact_list.remove_all();
     }
 }
 
-- 
2.43.0


From 2f036a709bb2d51b21ecedb72d7942624d4d65a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:55 +0000
Subject: [PATCH 03/27] fix: ignore set_enabled calls that do not change the
 flag

---
 src/private/dynamics/b2_body.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/dynamics/b2_body.rs b/src/private/dynamics/b2_body.rs
index 27ea53b..3bbf151 100644
--- a/src/private/dynamics/b2_body.rs
+++ b/src/private/dynamics/b2_body.rs
@@ -493,6 +493,10 @@ pub fn set_enabled<D: UserDataType>(self_: BodyPtr<D>, flag: bool) {
 			return;
 		}
 
+		if flag == self_.is_enabled() {
+			return;
+		}
+
 		self_.m_flags.set(BodyFlags::E_ENABLED_FLAG, flag);
 		m_fixture_list = self_.m_fixture_list.clone();
 		m_xf = self_.m_xf;
-- 
2.43.0


From 5db6bdd82367de812914294e44431fef58a0a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:16 +0000
Subject: [PATCH 04/27] fix: refilter a fixture that has contacts without
 re-borrowing it

---
 src/private/dynamics/b2_fixture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/dynamics/b2_fixture.rs b/src/private/dynamics/b2_fixture.rs
index 6c118cf..60778d4 100644
--- a/src/private/dynamics/b2_fixture.rs
+++ b/src/private/dynamics/b2_fixture.rs
@@ -193,7 +193,7 @@ pub fn b2_fixture_refilter<T:UserDataType>(self_: &mut B2fixture<T>) {
 		let mut contact = contact.borrow_mut();
 		let fixture_a = contact.get_base().get_fixture_a();
 		let fixture_b = contact.get_base().get_fixture_b();
-		if ptr::eq(&*fixture_a.borrow(),self_) || ptr::eq(&*fixture_b.borrow(),self_)
+		if ptr::eq(fixture_a.as_ptr(),self_) || ptr::eq(fixture_b.as_ptr(),self_)
 		{
 			contact.get_base_mut().flag_for_filtering();
 		}
-- 
2.43.0


From 9f64cc3a69261a3e3302da74054b93c7d60e6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:40 +0000
Subject: [PATCH 05/27] fix: skip shape pairs that have no contact type instead
 of panicking

---
 src/b2_contact.rs                          | 2 +-
 src/private/dynamics/b2_contact.rs         | 8 ++++----
 src/private/dynamics/b2_contact_manager.rs | 6 +++++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/b2_contact.rs b/src/b2_contact.rs
index bbca868..1d4f7f2 100644
--- a/src/b2_contact.rs
+++ b/src/b2_contact.rs
@@ -259,7 +259,7 @@ impl<D: UserDataType> B2contact<D> {
 		index_a: i32,
 		fixture_b: FixturePtr<D>,
 		index_b: i32,
-	) -> ContactPtr<D> {
+	) -> Option<ContactPtr<D>> {
 		return private::b2_contact_create(contact_manager, fixture_a, index_a, fixture_b, index_b);
 	}
 	pub(crate) fn destroy(self_: &dyn B2contactDynTrait<D>) {
diff --git a/src/private/dynamics/b2_contact.rs b/src/private/dynamics/b2_contact.rs
index 2a52dc7..e5ad716 100644
--- a/src/private/dynamics/b2_contact.rs
+++ b/src/private/dynamics/b2_contact.rs
@@ -14,19 +14,19 @@ pub fn b2_contact_create<D: UserDataType>(
 	index_a: i32,
 	fixture_b: FixturePtr<D>,
 	index_b: i32,
-) -> ContactPtr<D> {
+) -> Option<ContactPtr<D>> {
 
 	let type1: B2ShapeType = fixture_a.borrow().get_type();
 	let type2: B2ShapeType = fixture_b.borrow().get_type();
 
 	let s_register = &contact_manager.m_registers.s_registers[type1 as usize][type2 as usize];
 
-	let create_fcn = s_register.create_fcn.unwrap();
+	let create_fcn = s_register.create_fcn?;
 
 	if s_register.primary {
-		return create_fcn(fixture_a, index_a, fixture_b, index_b);
+		return Some(create_fcn(fixture_a, index_a, fixture_b, index_b));
 	} else {
-		return create_fcn(fixture_b, index_b, fixture_a, index_a);
+		return Some(create_fcn(fixture_b, index_b, fixture_a, index_a));
 	}
 }
 
diff --git a/src/private/dynamics/b2_contact_manager.rs b/src/private/dynamics/b2_contact_manager.rs
index d9485ef..24408da 100644
--- a/src/private/dynamics/b2_contact_manager.rs
+++ b/src/private/dynamics/b2_contact_manager.rs
@@ -253,7 +253,11 @@ pub fn b2_contact_manager_add_pair<D: UserDataType>(
 	}
 
 	// Call the factory.
-	let c = B2contact::create(&*self_, fixture_a, index_a, fixture_b, index_b);
+	let c = match B2contact::create(&*self_, fixture_a, index_a, fixture_b, index_b) {
+		Some(c) => c,
+		// There is no contact between these shape types.
+		None => return,
+	};
 
 	// Contact creation may swap fixtures.
 	let fixture_a = c.borrow().get_base().get_fixture_a();
-- 
2.43.0


From 0e56a988f08b6a34b78df30489e01dea22aef261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:33 +0000
Subject: [PATCH 06/27] fix: do not solve contacts of a former sensor before
 they are updated

---
 src/private/dynamics/b2_world.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 87add4b..726fae7 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -448,6 +448,11 @@ pub(crate) fn solve<D: UserDataType>(self_: &mut B2world<D>, step: B2timeStep) {
 					continue;
 				}
 
+				// Skip contacts of a former sensor that were not updated since.
+				if contact_base.m_manifold.point_count == 0 {
+					continue;
+				}
+
 				island.add_contact(contact.clone());
 				contact_base.m_flags.insert(ContactFlags::E_ISLAND_FLAG);
 
-- 
2.43.0


From 15f7aa958dbead7bc6f956f1a147ff0345d126f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:03 +0000
Subject: [PATCH 07/27] fix: do not solve gear joints whose connected joints
 involve a disabled body

---
 src/private/dynamics/b2_world.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 726fae7..5f2c38c 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -483,6 +483,15 @@ pub(crate) fn solve<D: UserDataType>(self_: &mut B2world<D>, step: B2timeStep) {
 					continue;
 				}
 
+				// A gear joint also works on the bodies of the two joints it connects.
+				if let JointAsDerived::EGearJoint(gear) = joint.borrow().as_derived() {
+					if gear.m_joint1.borrow().get_base().is_enabled() == false
+						|| gear.m_joint2.borrow().get_base().is_enabled() == false
+					{
+						continue;
+					}
+				}
+
 				island.add_joint(joint.clone());
 				joint.borrow_mut().get_base_mut().m_island_flag = true;
 
-- 
2.43.0


From e71cb50c86fbd013e9eed195c7ce47ff2ed972ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:58 +0000
Subject: [PATCH 08/27] fix: start polygon ray casts at fraction zero

---
 src/private/collision/b2_polygon_shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/collision/b2_polygon_shape.rs b/src/private/collision/b2_polygon_shape.rs
index 5b28678..979ca69 100644
--- a/src/private/collision/b2_polygon_shape.rs
+++ b/src/private/collision/b2_polygon_shape.rs
@@ -237,7 +237,7 @@ pub fn b2_shape_dyn_trait_ray_cast(
 	let p2: B2vec2 = b2_mul_t_rot_by_vec2(xf.q, input.p2 - xf.p);
 	let d: B2vec2 = p2 - p1;
 
-	let (mut lower, mut upper) = (0.032, input.max_fraction);
+	let (mut lower, mut upper) = (0.0, input.max_fraction);
 
 	let mut index: i32 = -1;
 
-- 
2.43.0


From b579abb0456e732b05623bfaccf610914f763f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:12 +0000
Subject: [PATCH 09/27] fix: give clipped edge and polygon contact points
 distinct ids

---
 src/private/collision/b2_collide_edge.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/private/collision/b2_collide_edge.rs b/src/private/collision/b2_collide_edge.rs
index bd9344f..4860b3a 100644
--- a/src/private/collision/b2_collide_edge.rs
+++ b/src/private/collision/b2_collide_edge.rs
@@ -379,16 +379,16 @@ pub fn b2_collide_edge_and_polygon(
 		manifold.manifold_type = B2manifoldType::EFaceB;
 
 		clip_points[0].v = v2;
-		clip_points[0].id.cf.index_a = 1;
-		clip_points[0].id.cf.index_b = primary_axis.index as u8;
-		clip_points[0].id.cf.type_a = B2contactFeatureType::EVertex as u8;
-		clip_points[0].id.cf.type_b = B2contactFeatureType::EFace as u8;
+		clip_points[0].id.cf.index_a = primary_axis.index as u8;
+		clip_points[0].id.cf.index_b = 1;
+		clip_points[0].id.cf.type_a = B2contactFeatureType::EFace as u8;
+		clip_points[0].id.cf.type_b = B2contactFeatureType::EVertex as u8;
 
 		clip_points[1].v = v1;
-		clip_points[1].id.cf.index_a = 0;
-		clip_points[1].id.cf.index_b = primary_axis.index as u8;
-		clip_points[1].id.cf.type_a = B2contactFeatureType::EVertex as u8;
-		clip_points[1].id.cf.type_b = B2contactFeatureType::EFace as u8;
+		clip_points[1].id.cf.index_a = primary_axis.index as u8;
+		clip_points[1].id.cf.index_b = 0;
+		clip_points[1].id.cf.type_a = B2contactFeatureType::EFace as u8;
+		clip_points[1].id.cf.type_b = B2contactFeatureType::EVertex as u8;
 
 		rf.i1 = primary_axis.index as usize;
 		rf.i2 = if rf.i1 + 1 < temp_polygon_b.count {
-- 
2.43.0


From b97ecbebbd07d86dfdaea3bcd07b3cca76cb4e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:12 +0000
Subject: [PATCH 10/27] fix: clamp vectors to the upper bound

---
 src/b2_math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b2_math.rs b/src/b2_math.rs
index 92454c3..e4c396c 100644
--- a/src/b2_math.rs
+++ b/src/b2_math.rs
@@ -731,7 +731,7 @@ where
 }
 
 pub fn b2_clamp_vec2(a: B2vec2, low: B2vec2, high: B2vec2) -> B2vec2 {
-    return b2_max_vec2(low, b2_max_vec2(a, high));
+    return b2_max_vec2(low, b2_min_vec2(a, high));
 }
 
 pub fn b2_swap<T: Clone>(a: &mut T, b: &mut T) {
-- 
2.43.0


From 35d1a2914ea19be582b76aa82092f0a5f126464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:00 +0000
Subject: [PATCH 11/27] fix: announce the right number of fields when
 serializing

---
 src/joints/serialize/serialize_b2_distance_joint.rs | 2 +-
 src/serialize/serialize_b2_fixture.rs               | 2 +-
 src/serialize/serialize_b2_world.rs                 | 2 +-
 src/shapes/serialize_b2_polygon_shape.rs            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/joints/serialize/serialize_b2_distance_joint.rs b/src/joints/serialize/serialize_b2_distance_joint.rs
index 90c90c3..b4034ca 100644
--- a/src/joints/serialize/serialize_b2_distance_joint.rs
+++ b/src/joints/serialize/serialize_b2_distance_joint.rs
@@ -40,7 +40,7 @@ impl<D: UserDataType> Serialize for B2distanceJointDef<D> {
     where
         S: Serializer,
     {
-        let mut state = serializer.serialize_struct("B2distanceJointDef", 6)?;
+        let mut state = serializer.serialize_struct("B2distanceJointDef", 8)?;
         state.serialize_field("base", &self.base)?;
         state.serialize_field("local_anchor_a", &self.local_anchor_a)?;
         state.serialize_field("local_anchor_b", &self.local_anchor_b)?;
diff --git a/src/serialize/serialize_b2_fixture.rs b/src/serialize/serialize_b2_fixture.rs
index 2b43560..5cd6632 100644
--- a/src/serialize/serialize_b2_fixture.rs
+++ b/src/serialize/serialize_b2_fixture.rs
@@ -25,7 +25,7 @@ impl<D: UserDataType> Serialize for B2fixture<D> {
 	where
 		S: Serializer,
 	{
-		let mut state = serializer.serialize_struct("B2fixture", 7)?;
+		let mut state = serializer.serialize_struct("B2fixture", 8)?;
 		state.serialize_field("m_friction", &self.m_friction)?;
 		state.serialize_field("m_restitution", &self.m_restitution)?;
 		state.serialize_field("m_restitution_threshold", &self.m_restitution_threshold)?;
diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 827e142..e3c0790 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -134,7 +134,7 @@ impl<D: UserDataType> Serialize for B2world<D> {
     where
         S: Serializer,
     {
-        let mut state = serializer.serialize_struct("B2world", 3)?;
+        let mut state = serializer.serialize_struct("B2world", 4)?;
 
         state.serialize_field("m_gravity", &self.m_gravity)?;
         state.serialize_field("m_bodies_list", &self.m_body_list)?;
diff --git a/src/shapes/serialize_b2_polygon_shape.rs b/src/shapes/serialize_b2_polygon_shape.rs
index df3baec..5b4f8e5 100644
--- a/src/shapes/serialize_b2_polygon_shape.rs
+++ b/src/shapes/serialize_b2_polygon_shape.rs
@@ -43,7 +43,7 @@ impl Serialize for B2polygonShape
     where
         S: Serializer,
     {
-		let mut state = serializer.serialize_struct(B2polygonShape::STRUCT_NAME, 19)?;
+		let mut state = serializer.serialize_struct(B2polygonShape::STRUCT_NAME, 5)?;
 		state.serialize_field(Field::base.as_ref(), &self.base)?;
 		state.serialize_field(Field::m_centroid.as_ref(), &self.m_centroid)?;
 		state.serialize_field("m_count", &self.m_count)?;
-- 
2.43.0


From fa15e6ca3c42562119ebff6ba398f156b16482df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:47 +0000
Subject: [PATCH 12/27] fix: serialize fixture user data

---
 src/serialize/serialize_b2_fixture.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/serialize/serialize_b2_fixture.rs b/src/serialize/serialize_b2_fixture.rs
index 5cd6632..6fabd4a 100644
--- a/src/serialize/serialize_b2_fixture.rs
+++ b/src/serialize/serialize_b2_fixture.rs
@@ -25,13 +25,14 @@ impl<D: UserDataType> Serialize for B2fixture<D> {
 	where
 		S: Serializer,
 	{
-		let mut state = serializer.serialize_struct("B2fixture", 8)?;
+		let mut state = serializer.serialize_struct("B2fixture", 9)?;
 		state.serialize_field("m_friction", &self.m_friction)?;
 		state.serialize_field("m_restitution", &self.m_restitution)?;
 		state.serialize_field("m_restitution_threshold", &self.m_restitution_threshold)?;
 		state.serialize_field("m_density", &self.m_density)?;
 		state.serialize_field("m_is_sensor", &self.m_is_sensor)?;
 		state.serialize_field("m_filter", &self.m_filter)?;
+		state.serialize_field("m_user_data", &self.m_user_data)?;
 		state.serialize_field("m_shape_type", &self.m_shape.as_ref().unwrap().get_type())?;
 		match self.m_shape.as_ref().unwrap().as_derived() {
 			ShapeAsDerived::AsCircle(ref shape) => {
@@ -73,6 +74,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 			m_density,
 			m_is_sensor,
 			m_filter,
+			m_user_data,
 			m_shape_type,
 			m_shape,
 		}
@@ -116,6 +118,10 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 					.next_element()?
 					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
+				definition.user_data = seq
+					.next_element()?
+					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
+
 				let shape_type = seq
 					.next_element()?
 					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
@@ -178,6 +184,9 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 						Field::m_filter => {
 							definition.filter = map.next_value()?;
 						}
+						Field::m_user_data => {
+							definition.user_data = map.next_value()?;
+						}
 						Field::m_shape_type => {
 							shape_type = map.next_value()?;
 						}
-- 
2.43.0


From bdc89ca689974e6aec1b314726c74923d5c49511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:11 +0000
Subject: [PATCH 13/27] fix: serialize the velocity of the body origin

---
 src/serialize/serialize_b2_body.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialize/serialize_b2_body.rs b/src/serialize/serialize_b2_body.rs
index a80c628..40b872c 100644
--- a/src/serialize/serialize_b2_body.rs
+++ b/src/serialize/serialize_b2_body.rs
@@ -13,6 +13,7 @@ use std::cell::RefCell;
 use crate::b2_body::*;
 use crate::b2rs_common::UserDataType;
 use crate::b2_joint::*;
+use crate::b2_math::*;
 use crate::b2_world::*;
 
 use crate::joints::serialize::serialize_b2_distance_joint::*;
@@ -40,7 +41,8 @@ impl<D: UserDataType> B2bodyToDef<D> for B2body<D> {
             body_type: self.m_type,
             position: self.m_xf.p,
             angle: self.m_sweep.a,
-            linear_velocity: self.m_linear_velocity,
+            // the definition holds the velocity of the body origin
+            linear_velocity: self.get_linear_velocity_from_local_point(B2vec2::zero()),
             angular_velocity: self.m_angular_velocity,
             linear_damping: self.m_linear_damping,
             angular_damping: self.m_angular_damping,
-- 
2.43.0


From 80035f709aef87af9e616e914216ffde00a37947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:31 +0000
Subject: [PATCH 14/27] fix: link joints to the right bodies when reading a
 world

---
 src/serialize/serialize_b2_world.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index e3c0790..a49604d 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -11,6 +11,7 @@ use std::cell::RefCell;
 use crate::b2_joint::*;
 use crate::b2_math::*;
 use crate::b2rs_common::UserDataType;
+use crate::b2rs_double_linked_list::*;
 use crate::b2_world::*;
 
 use crate::joints::serialize::serialize_b2_distance_joint::*;
@@ -177,6 +178,17 @@ impl<D: UserDataType> Serialize for B2world<D> {
     }
 }
 
+/// Entities are created by pushing them to the front of the list,
+/// so the list is the reverse of the order in which they were written.
+fn in_written_order<T>(list: &DoubleLinkedList<T>) -> Vec<Rc<RefCell<T>>>
+where
+    T: DoubleLinkedListNode<T> + ?Sized,
+{
+    let mut result = list.iter().collect::<Vec<_>>();
+    result.reverse();
+    return result;
+}
+
 pub struct B2worldDeserializeResult<U: UserDataType> {
     pub world: B2worldPtr<U>,
 }
@@ -224,7 +236,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_body_array;
                 {
-                    m_body_array = Rc::new(RefCell::new(world.borrow().m_body_list.iter().collect::<Vec<_>>()));
+                    m_body_array = Rc::new(RefCell::new(in_written_order(&world.borrow().m_body_list)));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -236,7 +248,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_all_joints;
                 {
-                    m_all_joints = Rc::new(RefCell::new(world.borrow().m_joint_list.iter().collect::<Vec<_>>()));
+                    m_all_joints = Rc::new(RefCell::new(in_written_order(&world.borrow().m_joint_list)));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -268,7 +280,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_world: world.clone().unwrap(),
                             })?;
 
-                            m_body_array = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_body_list.iter().collect::<Vec<_>>())));
+                            m_body_array = Some(Rc::new(RefCell::new(in_written_order(&world.as_ref().unwrap().borrow().m_body_list))));
                         }
                         Field::m_joints_list => {                          
  
@@ -278,7 +290,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_all_joints: Rc::default()
                             })?;
 
-                            m_all_joints = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_joint_list.iter().collect::<Vec<_>>())));
+                            m_all_joints = Some(Rc::new(RefCell::new(in_written_order(&world.as_ref().unwrap().borrow().m_joint_list))));
                         }
                         Field::m_gear_joints_list => {                          
 
-- 
2.43.0


From 4e5a310439d42564a0a878ef61ecb2ef920b1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:07 +0000
Subject: [PATCH 15/27] fix: leave mouse joints out of the joint numbering when
 serializing

---
 src/serialize/serialize_b2_world.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index a49604d..d28e7a6 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -150,13 +150,12 @@ impl<D: UserDataType> Serialize for B2world<D> {
         for ref b in self.m_joint_list.iter(){
             let mut j = b.borrow_mut();
             j.get_base_mut().m_index = -1;
-            if j.get_base().m_type!=B2jointType::EGearJoint
+            match j.get_base().m_type
             {
-                not_gear_joint.push(b.clone());
-            }
-            else
-            {
-                gear_joint.push(b.clone());
+                B2jointType::EGearJoint => gear_joint.push(b.clone()),
+                // mouse joints are not written
+                B2jointType::EMouseJoint => {}
+                _ => not_gear_joint.push(b.clone()),
             }
         }
 
-- 
2.43.0


From a584491674a492b072ff6af6a363a5b0d31e3cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:49 +0000
Subject: [PATCH 16/27] fix: clear the distance joint's limit impulses when
 warm starting is off

---
 src/private/dynamics/joints/b2_distance_joint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index 0675253..da4a78b 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -172,6 +172,8 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		w_b += self_.m_inv_ib * b2_cross(self_.m_r_b, p);
 	} else {
 		self_.m_impulse = 0.0;
+		self_.m_lower_impulse = 0.0;
+		self_.m_upper_impulse = 0.0;
 	}
 
 	velocities[self_.m_index_a].v = v_a;
-- 
2.43.0


From a0140268ecae921bc84e2747badd603ca861ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:32 +0000
Subject: [PATCH 17/27] fix: use the current axis in the wheel joint's position
 correction

---
 src/private/dynamics/joints/b2_wheel_joint.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/private/dynamics/joints/b2_wheel_joint.rs b/src/private/dynamics/joints/b2_wheel_joint.rs
index 6caa2b8..50861aa 100644
--- a/src/private/dynamics/joints/b2_wheel_joint.rs
+++ b/src/private/dynamics/joints/b2_wheel_joint.rs
@@ -295,8 +295,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 		let d: B2vec2 = (c_b - c_a) + r_b - r_a;
 
 		let ax: B2vec2 = b2_mul_rot_by_vec2(q_a, self_.m_local_xaxis_a);
-		let s_ax: f32 = b2_cross(d + r_a, self_.m_ax);
-		let s_bx: f32 = b2_cross(r_b, self_.m_ax);
+		let s_ax: f32 = b2_cross(d + r_a, ax);
+		let s_bx: f32 = b2_cross(r_b, ax);
 
 		let mut c: f32 = 0.0;
 		let translation: f32 = b2_dot(ax, d);
@@ -348,8 +348,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 
 		let inv_mass: f32 = self_.m_inv_mass_a
 			+ self_.m_inv_mass_b
-			+ self_.m_inv_ia * self_.m_s_ay * self_.m_s_ay
-			+ self_.m_inv_ib * self_.m_s_by * self_.m_s_by;
+			+ self_.m_inv_ia * s_ay * s_ay
+			+ self_.m_inv_ib * s_by * s_by;
 
 		let mut impulse: f32 = 0.0;
 		if inv_mass != 0.0 {
-- 
2.43.0


From e5655ec2503b67a38e08d350a9f02d85791ffc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:32 +0000
Subject: [PATCH 18/27] fix: apply all of a gear joint's impulses when its
 joints share a body

---
 src/private/dynamics/joints/b2_gear_joint.rs | 118 +++++++------------
 1 file changed, 40 insertions(+), 78 deletions(-)

diff --git a/src/private/dynamics/joints/b2_gear_joint.rs b/src/private/dynamics/joints/b2_gear_joint.rs
index 152b11a..d8daf4b 100644
--- a/src/private/dynamics/joints/b2_gear_joint.rs
+++ b/src/private/dynamics/joints/b2_gear_joint.rs
@@ -209,20 +209,9 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 	self_.m_i_d = m_body_d.m_inv_i;
 
 	let a_a: f32 =positions[self_.m_index_a as usize].a;
-	let mut v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
-	let mut w_a: f32 =velocities[self_.m_index_a as usize].w;
-
 	let a_b: f32 =positions[self_.m_index_b as usize].a;
-	let mut v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
-	let mut w_b: f32 =velocities[self_.m_index_b as usize].w;
-
 	let a_c: f32 =positions[self_.m_index_c as usize].a;
-	let mut v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
-	let mut w_c: f32 =velocities[self_.m_index_c as usize].w;
-
 	let a_d: f32 =positions[self_.m_index_d as usize].a;
-	let mut v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
-	let mut w_d: f32 =velocities[self_.m_index_d as usize].w;
 
 	let (q_a, q_b, q_c, q_d) = (B2Rot::new(a_a),B2Rot::new(a_b),B2Rot::new(a_c),B2Rot::new(a_d));
 
@@ -270,41 +259,32 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 
 	if data.step.warm_starting
 	{
-		v_a += (self_.m_m_a * self_.m_impulse) * self_.m_jv_ac;
-		w_a += self_.m_i_a * self_.m_impulse * self_.m_jw_a;
-		v_b += (self_.m_m_b * self_.m_impulse) * self_.m_jv_bd;
-		w_b += self_.m_i_b * self_.m_impulse * self_.m_jw_b;
-		v_c -= (self_.m_m_c * self_.m_impulse) * self_.m_jv_ac;
-		w_c -= self_.m_i_c * self_.m_impulse * self_.m_jw_c;
-		v_d -= (self_.m_m_d * self_.m_impulse) * self_.m_jv_bd;
-		w_d -= self_.m_i_d * self_.m_impulse * self_.m_jw_d;
+		velocities[self_.m_index_a as usize].v += (self_.m_m_a * self_.m_impulse) * self_.m_jv_ac;
+		velocities[self_.m_index_a as usize].w += self_.m_i_a * self_.m_impulse * self_.m_jw_a;
+		velocities[self_.m_index_b as usize].v += (self_.m_m_b * self_.m_impulse) * self_.m_jv_bd;
+		velocities[self_.m_index_b as usize].w += self_.m_i_b * self_.m_impulse * self_.m_jw_b;
+		velocities[self_.m_index_c as usize].v -= (self_.m_m_c * self_.m_impulse) * self_.m_jv_ac;
+		velocities[self_.m_index_c as usize].w -= self_.m_i_c * self_.m_impulse * self_.m_jw_c;
+		velocities[self_.m_index_d as usize].v -= (self_.m_m_d * self_.m_impulse) * self_.m_jv_bd;
+		velocities[self_.m_index_d as usize].w -= self_.m_i_d * self_.m_impulse * self_.m_jw_d;
 	}
 	else
 	{
 		self_.m_impulse = 0.0;
 	}
-
-	velocities[self_.m_index_a as usize].v = v_a;
-	velocities[self_.m_index_a as usize].w = w_a;
-	velocities[self_.m_index_b as usize].v = v_b;
-	velocities[self_.m_index_b as usize].w = w_b;
-	velocities[self_.m_index_c as usize].v = v_c;
-	velocities[self_.m_index_c as usize].w = w_c;
-	velocities[self_.m_index_d as usize].v = v_d;
-	velocities[self_.m_index_d as usize].w = w_d;
 }
 
 pub(crate) fn solve_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint<D>, 
 	_data: &B2solverData, velocities: &mut [B2velocity])
 {
-	let mut v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
-	let mut w_a: f32 =velocities[self_.m_index_a as usize].w;
-	let mut v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
-	let mut w_b: f32 =velocities[self_.m_index_b as usize].w;
-	let mut v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
-	let mut w_c: f32 =velocities[self_.m_index_c as usize].w;
-	let mut v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
-	let mut w_d: f32 =velocities[self_.m_index_d as usize].w;
+	let v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
+	let w_a: f32 =velocities[self_.m_index_a as usize].w;
+	let v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
+	let w_b: f32 =velocities[self_.m_index_b as usize].w;
+	let v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
+	let w_c: f32 =velocities[self_.m_index_c as usize].w;
+	let v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
+	let w_d: f32 =velocities[self_.m_index_d as usize].w;
 
 	let mut cdot: f32 =b2_dot(self_.m_jv_ac, v_a - v_c) + b2_dot(self_.m_jv_bd, v_b - v_d);
 	cdot += (self_.m_jw_a * w_a - self_.m_jw_c * w_c) + (self_.m_jw_b * w_b - self_.m_jw_d * w_d);
@@ -312,36 +292,27 @@ pub(crate) fn solve_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoin
 	let impulse: f32 =-self_.m_mass * cdot;
 	self_.m_impulse += impulse;
 
-	v_a += (self_.m_m_a * impulse) * self_.m_jv_ac;
-	w_a += self_.m_i_a * impulse * self_.m_jw_a;
-	v_b += (self_.m_m_b * impulse) * self_.m_jv_bd;
-	w_b += self_.m_i_b * impulse * self_.m_jw_b;
-	v_c -= (self_.m_m_c * impulse) * self_.m_jv_ac;
-	w_c -= self_.m_i_c * impulse * self_.m_jw_c;
-	v_d -= (self_.m_m_d * impulse) * self_.m_jv_bd;
-	w_d -= self_.m_i_d * impulse * self_.m_jw_d;
-
-	velocities[self_.m_index_a as usize].v = v_a;
-	velocities[self_.m_index_a as usize].w = w_a;
-	velocities[self_.m_index_b as usize].v = v_b;
-	velocities[self_.m_index_b as usize].w = w_b;
-	velocities[self_.m_index_c as usize].v = v_c;
-	velocities[self_.m_index_c as usize].w = w_c;
-	velocities[self_.m_index_d as usize].v = v_d;
-	velocities[self_.m_index_d as usize].w = w_d;
+	velocities[self_.m_index_a as usize].v += (self_.m_m_a * impulse) * self_.m_jv_ac;
+	velocities[self_.m_index_a as usize].w += self_.m_i_a * impulse * self_.m_jw_a;
+	velocities[self_.m_index_b as usize].v += (self_.m_m_b * impulse) * self_.m_jv_bd;
+	velocities[self_.m_index_b as usize].w += self_.m_i_b * impulse * self_.m_jw_b;
+	velocities[self_.m_index_c as usize].v -= (self_.m_m_c * impulse) * self_.m_jv_ac;
+	velocities[self_.m_index_c as usize].w -= self_.m_i_c * impulse * self_.m_jw_c;
+	velocities[self_.m_index_d as usize].v -= (self_.m_m_d * impulse) * self_.m_jv_bd;
+	velocities[self_.m_index_d as usize].w -= self_.m_i_d * impulse * self_.m_jw_d;
 }
 
 pub(crate) fn solve_position_constraints<D: UserDataType>(self_: &B2gearJoint<D>,
 	_data: &B2solverData, positions: &mut [B2position])->bool
 {
-	let mut c_a: B2vec2 =positions[self_.m_index_a as usize].c;
-	let mut a_a: f32 =positions[self_.m_index_a as usize].a;
-	let mut c_b: B2vec2 =positions[self_.m_index_b as usize].c;
-	let mut a_b: f32 =positions[self_.m_index_b as usize].a;
-	let mut c_c: B2vec2 =positions[self_.m_index_c as usize].c;
-	let mut a_c: f32 =positions[self_.m_index_c as usize].a;
-	let mut c_d: B2vec2 =positions[self_.m_index_d as usize].c;
-	let mut a_d: f32 =positions[self_.m_index_d as usize].a;
+	let c_a: B2vec2 =positions[self_.m_index_a as usize].c;
+	let a_a: f32 =positions[self_.m_index_a as usize].a;
+	let c_b: B2vec2 =positions[self_.m_index_b as usize].c;
+	let a_b: f32 =positions[self_.m_index_b as usize].a;
+	let c_c: B2vec2 =positions[self_.m_index_c as usize].c;
+	let a_c: f32 =positions[self_.m_index_c as usize].a;
+	let c_d: B2vec2 =positions[self_.m_index_d as usize].c;
+	let a_d: f32 =positions[self_.m_index_d as usize].a;
 
 	let (q_a, q_b, q_c, q_d) = (B2Rot::new(a_a),B2Rot::new(a_b),B2Rot::new(a_c),B2Rot::new(a_d));
 
@@ -414,23 +385,14 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(self_: &B2gearJoint<D>
 		impulse = -c / mass;
 	}
 
-	c_a += self_.m_m_a * impulse * jv_ac;
-	a_a += self_.m_i_a * impulse * jw_a;
-	c_b += self_.m_m_b * impulse * jv_bd;
-	a_b += self_.m_i_b * impulse * jw_b;
-	c_c -= self_.m_m_c * impulse * jv_ac;
-	a_c -= self_.m_i_c * impulse * jw_c;
-	c_d -= self_.m_m_d * impulse * jv_bd;
-	a_d -= self_.m_i_d * impulse * jw_d;
-
-	positions[self_.m_index_a as usize].c = c_a;
-	positions[self_.m_index_a as usize].a = a_a;
-	positions[self_.m_index_b as usize].c = c_b;
-	positions[self_.m_index_b as usize].a = a_b;
-	positions[self_.m_index_c as usize].c = c_c;
-	positions[self_.m_index_c as usize].a = a_c;
-	positions[self_.m_index_d as usize].c = c_d;
-	positions[self_.m_index_d as usize].a = a_d;
+	positions[self_.m_index_a as usize].c += self_.m_m_a * impulse * jv_ac;
+	positions[self_.m_index_a as usize].a += self_.m_i_a * impulse * jw_a;
+	positions[self_.m_index_b as usize].c += self_.m_m_b * impulse * jv_bd;
+	positions[self_.m_index_b as usize].a += self_.m_i_b * impulse * jw_b;
+	positions[self_.m_index_c as usize].c -= self_.m_m_c * impulse * jv_ac;
+	positions[self_.m_index_c as usize].a -= self_.m_i_c * impulse * jw_c;
+	positions[self_.m_index_d as usize].c -= self_.m_m_d * impulse * jv_bd;
+	positions[self_.m_index_d as usize].a -= self_.m_i_d * impulse * jw_d;
 
 	// TODO_ERIN not implemented
 	return linear_error < B2_LINEAR_SLOP;
-- 
2.43.0


From 48a79cb131860a8933ed315e04abcced4a683208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:57 +0000
Subject: [PATCH 19/27] fix: hold coinciding prismatic and wheel limits at
 their own translation

---
 src/private/dynamics/joints/b2_prismatic_joint.rs | 4 ++--
 src/private/dynamics/joints/b2_wheel_joint.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/dynamics/joints/b2_prismatic_joint.rs b/src/private/dynamics/joints/b2_prismatic_joint.rs
index fcebeba..42ff342 100644
--- a/src/private/dynamics/joints/b2_prismatic_joint.rs
+++ b/src/private/dynamics/joints/b2_prismatic_joint.rs
@@ -382,8 +382,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 	if self_.m_enable_limit {
 		let translation: f32 = b2_dot(axis, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c2 = translation;
-			linear_error = b2_max(linear_error, b2_abs(translation));
+			c2 = translation - self_.m_lower_translation;
+			linear_error = b2_max(linear_error, b2_abs(c2));
 			active = true;
 		} else if translation <= self_.m_lower_translation {
 			c2 = b2_min(translation - self_.m_lower_translation, 0.0);
diff --git a/src/private/dynamics/joints/b2_wheel_joint.rs b/src/private/dynamics/joints/b2_wheel_joint.rs
index 50861aa..9dc1d80 100644
--- a/src/private/dynamics/joints/b2_wheel_joint.rs
+++ b/src/private/dynamics/joints/b2_wheel_joint.rs
@@ -301,7 +301,7 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 		let mut c: f32 = 0.0;
 		let translation: f32 = b2_dot(ax, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c = translation;
+			c = translation - self_.m_lower_translation;
 		} else if translation <= self_.m_lower_translation {
 			c = b2_min(translation - self_.m_lower_translation, 0.0);
 		} else if translation >= self_.m_upper_translation {
-- 
2.43.0


From ab0c3b3b1cbe161f39d916ab93fbf90468a2ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:37 +0000
Subject: [PATCH 20/27] fix: drop the distance joint's spring impulse when it
 has no spring

---
 src/private/dynamics/joints/b2_distance_joint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index da4a78b..82ccb77 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -157,6 +157,11 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		self_.m_gamma = 0.0;
 		self_.m_bias = 0.0;
 		self_.m_soft_mass = self_.m_mass;
+
+		// between the limits without a spring nothing acts along the rod
+		if self_.m_min_length < self_.m_max_length {
+			self_.m_impulse = 0.0;
+		}
 	}
 
 	if data.step.warm_starting {
-- 
2.43.0


From c7da051a44868974252e5d3fecf7b11c9458dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:26 +0000
Subject: [PATCH 21/27] fix: bound the contacts and bodies gathered for one
 impact

---
 src/private/dynamics/b2_world.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 5f2c38c..c981e09 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -759,15 +759,15 @@ pub(crate) fn solve_toi<D: UserDataType>(self_: &mut B2world<D>, step: B2timeSte
 			if body.borrow().m_type == B2bodyType::B2DynamicBody {
 				let contact_list = body.borrow().m_contact_list.clone();
 				for ce in contact_list.iter() {
-					// if island.m_body_count == island.m_body_capacity
-					// {
-					// 	break;
-					// }
-
-					// if island.m_contact_count == island.m_contact_capacity
-					// {
-					// 	break;
-					// }
+					if island.m_bodies.len() == 2 * B2_MAX_TOICONTACTS
+					{
+						break;
+					}
+
+					if island.m_contacts.len() == B2_MAX_TOICONTACTS
+					{
+						break;
+					}
 
 					let contact_ptr = ce.borrow().contact.upgrade().unwrap();
 					let mut contact = contact_ptr.borrow_mut();
-- 
2.43.0


From adbe9960db236c05f0cbbb97bd552acbd5d817e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:26:59 +0000
Subject: [PATCH 22/27] fix: ignore rope springs of zero stiffness

---
 src/private/rope/b2_rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 9ebfe3e..01dda87 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -306,7 +306,7 @@ pub(crate) fn solve_stretch_xpbd(_self: &mut B2rope, dt: f32) {
 		let j2: B2vec2 = u;
 
 		let sum: f32 = c.inv_mass1 + c.inv_mass2;
-		if sum == 0.0 {
+		if sum == 0.0 || c.spring == 0.0 {
 			continue;
 		}
 
@@ -445,7 +445,7 @@ pub(crate) fn solve_bend_xpbd_angle(_self: &mut B2rope, dt: f32) {
 				+ c.inv_mass3 * b2_dot(j3, j3);
 		}
 
-		if sum == 0.0 {
+		if sum == 0.0 || c.spring == 0.0 {
 			continue;
 		}
 
-- 
2.43.0


From 7157e591b70c653773d11aaf2bea1e3777dec16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:29 +0000
Subject: [PATCH 23/27] fix: skip rope bends between three fixed vertices

---
 src/private/rope/b2_rope.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 01dda87..013d30f 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -382,6 +382,10 @@ pub(crate) fn solve_bend_pbd_angle(_self: &mut B2rope) {
 			sum = c.inv_effective_mass;
 		}
 
+		if sum == 0.0 {
+			continue;
+		}
+
 		let impulse: f32 = -stiffness * angle / sum;
 
 		p1 += (c.inv_mass1 * impulse) * j1;
@@ -635,6 +639,10 @@ fn solve_bend_pbd_triangle(_self: &mut B2rope)
 		let wb1: f32 = c.inv_mass3;
 
 		let w: f32 = wb0 + wb1 + 2.0 * wv;
+		if w == 0.0 {
+			continue;
+		}
+
 		let inv_w: f32 = stiffness / w;
 
 		let d: B2vec2 = v - (1.0 / 3.0) * (b0 + v + b1);
-- 
2.43.0


From 61bfa917c1b486e053a2472159c0ee9f45251f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:22 +0000
Subject: [PATCH 24/27] fix: push polygons only out of the front of one-sided
 edges

---
 src/private/collision/b2_collide_edge.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/private/collision/b2_collide_edge.rs b/src/private/collision/b2_collide_edge.rs
index 4860b3a..e74422f 100644
--- a/src/private/collision/b2_collide_edge.rs
+++ b/src/private/collision/b2_collide_edge.rs
@@ -169,7 +169,12 @@ struct B2referenceFace {
 	side_offset2: f32,
 }
 
-fn b2_compute_edge_separation(polygon_b: B2tempPolygon, v1: B2vec2, normal1: B2vec2) -> B2epaxis {
+fn b2_compute_edge_separation(
+	polygon_b: B2tempPolygon,
+	v1: B2vec2,
+	normal1: B2vec2,
+	one_sided: bool,
+) -> B2epaxis {
 	let mut axis = B2epaxis {
 		axis_type: B2ePAxisType::EEdgeA,
 		index: -1,
@@ -179,8 +184,11 @@ fn b2_compute_edge_separation(polygon_b: B2tempPolygon, v1: B2vec2, normal1: B2v
 
 	let axes: [B2vec2; 2] = [normal1, -normal1];
 
+	// A one-sided edge only separates along its front normal
+	let axis_count: usize = if one_sided { 1 } else { 2 };
+
 	// Find axis with least overlap (min-max problem)
-	for j in 0..2 {
+	for j in 0..axis_count {
 		let mut sj: f32 = B2_MAX_FLOAT;
 
 		// Find deepest polygon vertex along axis j
@@ -265,7 +273,7 @@ pub fn b2_collide_edge_and_polygon(
 
 	let radius: f32 = polygon_b.base.m_radius + edge_a.base.m_radius;
 
-	let edge_axis: B2epaxis = b2_compute_edge_separation(temp_polygon_b, v1, normal1);
+	let edge_axis: B2epaxis = b2_compute_edge_separation(temp_polygon_b, v1, normal1, one_sided);
 	if edge_axis.separation > radius {
 		return;
 	}
@@ -289,6 +297,11 @@ pub fn b2_collide_edge_and_polygon(
 	}
 
 	if one_sided {
+		// Never push the polygon out of the back side
+		if b2_dot(primary_axis.normal, normal1) < 0.0 {
+			primary_axis = edge_axis;
+		}
+
 		// Smooth collision
 		// See https://box2d.org/posts/2020/06/ghost-collisions/
 
-- 
2.43.0


From 70f0a33501e07cf0caf1696b06e3f8dbc2a272c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:56 +0000
Subject: [PATCH 25/27] fix: complete the step when continuous physics is
 switched off while sub-stepping

---
 src/private/dynamics/b2_world.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index c981e09..ac69846 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -945,6 +945,11 @@ pub(crate) fn step<D: UserDataType>(
 		self_.m_profile.collide = timer.get_milliseconds();
 	}
 
+	// Without continuous physics there is no sub-stepping left to complete the step.
+	if !self_.m_continuous_physics {
+		self_.m_step_complete = true;
+	}
+
 	// Integrate velocities, solve velocity constraints, and integrate positions.
 	if self_.m_step_complete && step.dt > 0.0 {
 		let timer = B2timer::default();
-- 
2.43.0


From e223f5fe50a8e91a2efeaa626b139803f12e41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:18 +0000
Subject: [PATCH 26/27] fix: do not resolve impacts of fixtures that became
 sensors between sub-steps

---
 src/private/dynamics/b2_world.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index ac69846..5ed4437 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -593,19 +593,19 @@ pub(crate) fn solve_toi<D: UserDataType>(self_: &mut B2world<D>, step: B2timeSte
 				continue;
 			}
 
+			let f_a = c_base.get_fixture_a();
+			let f_b = c_base.get_fixture_b();
+
+			// Is there a sensor? It may have become one since its TOI was cached.
+			if f_a.borrow().is_sensor() || f_b.borrow().is_sensor() {
+				continue;
+			}
+
 			let alpha: f32;
 			if c_base.m_flags.contains(ContactFlags::E_TOI_FLAG) {
 				// This contact has a valid cached TOI.
 				alpha = c_base.m_toi;
 			} else {
-				let f_a = c_base.get_fixture_a();
-				let f_b = c_base.get_fixture_b();
-
-				// Is there a sensor?
-				if f_a.borrow().is_sensor() || f_b.borrow().is_sensor() {
-					continue;
-				}
-
 				let b_a = f_a.borrow().get_body();
 				let b_b = f_b.borrow().get_body();
 
-- 
2.43.0


From bc8d3360e315c954f77cd4141d28ed5b69a73d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:50:20 +0000
Subject: [PATCH 27/27] fix: keep the distance joint's upper limit bias finite

---
 src/private/dynamics/joints/b2_distance_joint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index 82ccb77..6a66e3c 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -239,7 +239,8 @@ pub(crate) fn solve_velocity_constraints<D: UserDataType>(
 		// upper
 		{
 			let c = self_.m_max_length - self_.m_current_length;
-			let bias = b2_max(0.0, c) * data.step.inv_dt;
+			// The default maximum length must not make this infinite.
+			let bias = b2_min(b2_max(0.0, c) * data.step.inv_dt, B2_MAX_FLOAT);
 
 			let vp_a: B2vec2 = v_a + b2_cross_scalar_by_vec(w_a, self_.m_r_a);
 			let vp_b: B2vec2 = v_b + b2_cross_scalar_by_vec(w_b, self_.m_r_b);
-- 
2.43.0

