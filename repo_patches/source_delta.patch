From 515a9fff1572b7e1421e167477a28806afdd137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 01/23] fix: update_collider leaves the entity untouched when
 the new values are rejected

---
 src/physics_system.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index f617711..cb4d8b8 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -262,6 +262,8 @@ impl PhysicsSystem {
 				}
 			}
 		};
+		// If the new values were rejected, then nothing changed.
+		if result.is_err() { return result; }
 		// Then, because mass might've changed, try to update the associated entity (if it exists).
 		if let Some(entity_handle) = entity_handle_option {
 			if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
-- 
2.43.0


From be9a135f32877c348c311a3581c875e99de4f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 02/23] fix: remove_collider panicked on linked colliders and
 left a dangling handle in the entity

---
 src/physics_system.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index cb4d8b8..4e9dc0e 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -176,10 +176,13 @@ impl PhysicsSystem {
 
 	/// Removes a collider.
 	pub fn remove_collider(&mut self, handle : ColliderHandle) {
-		if let Some(mut remainder) = self.colliders.borrow_mut().remove(handle) {
+		// This must be a separate statement so that the colliders aren't still borrowed while the entity updates.
+		let removed = self.colliders.borrow_mut().remove(handle);
+		if let Some(mut remainder) = removed {
 			// Force the associated entity to update (if there is one).
 			if let Some(entity_handle) = remainder.get_entity() {
 				if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
+					entity.colliders.remove(&handle);
 					entity.recalculate_mass(&*self.colliders.borrow());
 				}
 			}
-- 
2.43.0


From 329fbd3d5488c693d42a44108feec8dfda41b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 03/23] fix: remove_entity left dangling neighbor handles
 behind (wake_up then panicked)

---
 src/physics_system.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 4e9dc0e..a42b2ba 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -92,7 +92,21 @@ impl PhysicsSystem {
 	///
 	/// Returns if anything changed (i.e. if the entity existed and was removed).
 	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
-		let removed = self.entities.borrow_mut().remove(handle);
+		let removed = {
+			let mut entities = self.entities.borrow_mut();
+			if entities.contains(handle) {
+				// Anything resting against this entity can't stay asleep once it's gone.
+				InternalEntity::wake_up(handle, &mut entities, &mut self.debug);
+			}
+			let removed = entities.remove(handle);
+			if removed.is_some() {
+				// Nothing left can keep a handle to the removed entity.
+				for (_, other) in entities.iter_mut() {
+					other.neighbors.remove(&handle);
+				}
+			}
+			removed
+		};
 		if let Some(entity) = removed {
 			// Also remove all associated colliders.
 			for collider in entity.colliders {
-- 
2.43.0


From d8fadf45626703fbadb6c12400cb8306cf87d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 04/23] fix: falling asleep dropped the link to neighbors that
 were already asleep

---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index a42b2ba..25b2aad 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -688,7 +688,7 @@ impl PhysicsSystem {
 				}
 
 				entity.asleep = true;
-				entity.neighbors = info.neighbors.clone();
+				entity.neighbors.extend(info.neighbors.iter().cloned()); // Keep any neighbors that fell asleep earlier.
 				println!("Putting {:?} to sleep", info.handle);
 				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
 			}
-- 
2.43.0


From 9aee0e6635ef0bf11e237425d1f6d4326e4bec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 05/23] fix: torque was multiplied by the moment of inertia
 before being divided by it

---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 25b2aad..1c8f18b 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -380,7 +380,7 @@ impl PhysicsSystem {
 						let force = generator_borrow.make_force(dt, &self, handle);
 
 						acceleration += force.force.scale(1.0 / total_mass);
-						torque += entity_copy.get_last_moment_of_inertia() * (force.position - entity_copy.position).cross(&force.force);
+						torque += (force.position - entity_copy.position).cross(&force.force);
 					}
 				}
 			}
-- 
2.43.0


From 75d7325980f1c7b0aa0b7b9abe94b8c7c95c81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 06/23] fix: sphere moment of inertia uses the squared radius

---
 src/sphere_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphere_collider.rs b/src/sphere_collider.rs
index 057a07a..551a3e2 100644
--- a/src/sphere_collider.rs
+++ b/src/sphere_collider.rs
@@ -106,7 +106,7 @@ impl InternalCollider for InternalSphereCollider {
 	fn get_mass(&self) -> f32 { self.mass }
 
 	fn get_moment_of_inertia_tensor(&self) -> Mat3 {
-		let inertia = 2.0 / 5.0 * self.mass * self.radius;
+		let inertia = 2.0 / 5.0 * self.mass * self.radius * self.radius;
 		Mat3::from_diagonal(&Vec3::new(inertia, inertia, inertia))
 	}
 
-- 
2.43.0


From 0ed2ff633c309e995f7f55e34e23dfb41ad4261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 07/23] fix: updating a plane collider normalizes its normal
 like adding one does

---
 src/plane_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_collider.rs b/src/plane_collider.rs
index 0eedaa5..df1e782 100644
--- a/src/plane_collider.rs
+++ b/src/plane_collider.rs
@@ -71,7 +71,7 @@ impl InternalPlaneCollider {
 			Err(()) // TODO: An error type.
 		} else {
 			self.position = source.position;
-			self.normal = source.normal;
+			self.normal = source.normal.normalize();
 			self.mass = source.mass;
 			self.restitution_coefficient = source.restitution_coefficient;
 			self.friction_threshold = source.friction_threshold;
-- 
2.43.0


From f7ac8405562cf8cd5729ab5b1a6292a5d341bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 08/23] fix: entities with a NaN mass are rejected

---
 src/entity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 74de2cc..ccc8dc5 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -54,7 +54,7 @@ pub struct InternalEntity {
 impl InternalEntity {
 	/// Creates a new instance.
 	pub fn new_from(source : Entity) -> Result<InternalEntity, ()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); }
 		Ok(InternalEntity {
 			orientation: source.make_orientation(),
 
@@ -98,7 +98,7 @@ impl InternalEntity {
 
 	/// Updates from the passed in Entity object.
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); }
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
 		let rotation_delta = (
 			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
-- 
2.43.0


From 92ed791d5b095c2e1e89d5d3f1e00b6ad29b46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 09/23] fix: aligned box accepts corners in any order, as
 documented

---
 src/aligned_box_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_box_collider.rs b/src/aligned_box_collider.rs
index adb51ee..799ee0d 100644
--- a/src/aligned_box_collider.rs
+++ b/src/aligned_box_collider.rs
@@ -217,7 +217,7 @@ impl AlignedBoxCollider {
 
 	/// If this is in a valid state.
 	pub fn is_valid(&self) -> bool {
-		let size = self.max_corner - self.min_corner;
+		let size = (self.max_corner - self.min_corner).abs();
 		EPSILON < size.x && EPSILON < size.y && EPSILON < size.z && 0.0 <= self.mass
 	}
 }
-- 
2.43.0


From a7b52c8baf51f3c65ddd1c367251fa542b094d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 10/23] fix: sphere-box collision ignored the position of the
 box

---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index af34fdf..a283f3e 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -218,8 +218,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
@@ -242,8 +242,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
-- 
2.43.0


From 54531281b9c3f6dd0fdcf79c449911c4ded1276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 11/23] fix: sphere-sphere and sphere-line normals use the
 sphere's center at the time of the hit

---
 src/collision.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index a283f3e..5eece90 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -305,11 +305,12 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 		dc.dot(&dc) - radius * radius,
 	).intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
+		let center_position = center1 + movement1.scale(times.min());
 		let position = (
-			(center1 + movement1.scale(times.min())) * radius2 +
+			center_position * radius2 +
 			(center2 + movement2.scale(times.min())) * radius1
 		).scale(1.0 / radius);
-		let normal = (position - center1).normalize();
+		let normal = (position - center_position).normalize();
 		Some(Collision {
 			times,
 			position,
@@ -334,7 +335,7 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		let center_position = center1 + movement1.scale(times.min());
 		let along_length = (center_position - line_position).dot(&direction);
 		let position = line_position + direction.scale(along_length);
-		let normal = (position - center1).normalize();
+		let normal = (position - center_position).normalize();
 		Some(Collision {
 			times,
 			position,
-- 
2.43.0


From 241908a6c9ec3b59225331cd88ae4901574246e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 12/23] fix: flat mesh hitting a parallel plane gave a NaN
 position

---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 5eece90..cad52ff 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -522,11 +522,11 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		for info in calculated {
-			if start_epsilon > (info.start_distance - start_distances.min()).abs() {
+			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
 				closest_start_position_sum += info.start_position;
 				closest_start_position_count += 1.0;
 			}
-			if end_epsilon > (info.end_distance - end_distances.min()).abs() {
+			if end_epsilon >= (info.end_distance - end_distances.min()).abs() {
 				closest_end_position_sum += info.end_position;
 				closest_end_position_count += 1.0;
 			}
-- 
2.43.0


From 7a5f2a7b8cc7ace5780439f42022178ecdb5f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 13/23] fix: degenerate polygons no longer panic during
 mesh-mesh collision

---
 src/collision.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index cad52ff..eb4048a 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -545,7 +545,8 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 	}
 }
 
-fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
+/// Returns `None` if the polygon is too small or degenerate to have one.
+fn get_polygon_normal(points : &Vec<Vec3>) -> Option<Vec3> {
 	for index in 0..points.len() {
 		let mut next_index = index + 1;
 		if next_index >= points.len() { next_index -= points.len(); }
@@ -553,10 +554,10 @@ fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
 		let normal = (points[prev_index] - points[index]).cross(&(points[next_index] - points[index]));
 		let length = normal.magnitude();
 		if length.is_finite() && EPSILON < length {
-			return normal / length;
+			return Some(normal / length);
 		}
 	}
-	panic!("Couldn't find a normal for the polygon: {:?}", points);
+	None
 }
 
 fn point_is_on_plane(point : &Vec3, plane_normal : &Vec3, plane_point : &Vec3) -> bool {
@@ -570,7 +571,7 @@ fn collide_point_with_polygon(point_start : &Vec3, point_end : &Vec3, polygon :
 	let point_delta = point_end - point_start;
 	// First: figure out when the point will collide with the (moving) plane.
 	// Then decide whether that point (or point movement) goes into the polygon.
-	let mut plane_normal = get_polygon_normal(polygon);
+	let mut plane_normal = get_polygon_normal(polygon)?;
 	// Note that the only way for the point to be on the plane more than once is if it's always on the plane. So use that to decide...
 	if point_is_on_plane(point_start, &plane_normal, &polygon[0]) && point_is_on_plane(point_end, &plane_normal, &polygon[0]) {
 		// Then see if/when that point intersects with the polygon's line segments.
-- 
2.43.0


From 93538d485cead3894e96764b91b1ad1b80e7c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 14/23] fix: energy of a resting entity with infinite mass was
 NaN in the public interface

---
 src/entity.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index ccc8dc5..4072724 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -382,9 +382,17 @@ impl Entity {
 
 	/// Gets the total energy of this object.
 	pub fn get_total_energy(&self) -> f32 {
-		let linear_energy = (self.last_total_mass * self.velocity).dot(&self.velocity) / 2.0;
-		let angular_energy = (self.get_last_moment_of_inertia() * self.angular_velocity).dot(&self.angular_velocity) / 2.0;
-		linear_energy + angular_energy
+		if self.last_total_mass.is_infinite() {
+			if self.velocity.magnitude() < EPSILON && self.angular_velocity.magnitude() < EPSILON {
+				0.0
+			} else {
+				INFINITY
+			}
+		} else {
+			let linear_energy = (self.last_total_mass * self.velocity).dot(&self.velocity) / 2.0;
+			let angular_energy = (self.get_last_moment_of_inertia() * self.angular_velocity).dot(&self.angular_velocity) / 2.0;
+			linear_energy + angular_energy
+		}
 	}
 
 	/// Checks whether the entity was asleep.
-- 
2.43.0


From 52f99b3b54cf55c0a1576f33cde7002290af2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 15/23] fix: entities of infinite own mass could still be
 rotated by collisions

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 4072724..8962ebe 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -163,7 +163,7 @@ impl InternalEntity {
 		// Then find the moment of inertia relative to the center-of-mass.
 		// Note that everything here is done in WORLD space not local.
 		self.prepped_moment_of_inertia = Mat3::zeros();
-		if !found_infinite {
+		if self.total_mass.is_finite() { // Nothing can rotate an infinite mass.
 			// TODO? Do orientation.rotation and angular_velocity need to change since the center-of-mass changed?
 			for handle in self.colliders.iter() {
 				let collider = colliders.get(*handle).unwrap();
-- 
2.43.0


From e96e46e5a8fbf09a2353702cab47303af46e4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 16/23] fix: colliding two massless or two infinite masses made
 their velocities NaN

---
 src/entity.rs         | 2 ++
 src/physics_system.rs | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 8962ebe..9c6bbbf 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -221,6 +221,8 @@ impl InternalEntity {
 
 	/// Applies an impulse at a (world) position to this instance's linear and angular velocities.
 	pub fn apply_impulse(&mut self, position : &Vec3, impulse : &Vec3) {
+		// There's no mass for an impulse to accelerate.
+		if 0.0 == self.total_mass { return; }
 		self.velocity += impulse.scale(1.0 / self.get_total_mass());
 		self.angular_velocity += self.get_inverse_moment_of_inertia() * (position - self.orientation.position).cross(&impulse);
 	}
diff --git a/src/physics_system.rs b/src/physics_system.rs
index 1c8f18b..3165f9f 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -724,7 +724,8 @@ impl PhysicsSystem {
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
 		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, collision);
-		let normal_impulse_magnitude = numerator / denominator;
+		// Two infinite masses can't move each other.
+		let normal_impulse_magnitude = if 0.0 < denominator { numerator / denominator } else { 0.0 };
 		collision.normal.scale(normal_impulse_magnitude)
 	}
 
-- 
2.43.0


From 5b2154565a8effbfc60f41db23bc54661f2c2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 17/23] fix: results depended on the random iteration order of
 the collider and neighbor sets

---
 src/entity.rs         | 14 ++++++++------
 src/physics_system.rs |  6 +++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c6bbbf..0a7ac90 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1,5 +1,5 @@
 use std::f32::INFINITY;
-use std::collections::{HashSet, VecDeque};
+use std::collections::{BTreeSet, HashSet, VecDeque};
 
 use generational_arena::Arena;
 
@@ -35,7 +35,9 @@ pub struct InternalEntity {
 	pub angular_velocity : Vec3,
 
 	/// All colliders that are attached/linked to this.
-	pub colliders : HashSet<ColliderHandle>,
+	///
+	/// Ordered, so that everything calculated from it is reproducible.
+	pub colliders : BTreeSet<ColliderHandle>,
 
 	/// Whether this entity is trying to go to sleep.
 	pub falling_asleep : bool,
@@ -48,7 +50,7 @@ pub struct InternalEntity {
 	/// Other entities to wake up when this entity wakes up.
 	/// These are also the entities that won't wake up this entity if they're colliding with it (and vise versa).
 	/// This should always be empty if the entity isn't asleep.
-	pub neighbors : HashSet<EntityHandle>,
+	pub neighbors : BTreeSet<EntityHandle>,
 }
 
 impl InternalEntity {
@@ -64,13 +66,13 @@ impl InternalEntity {
 
 			velocity: source.velocity,
 			angular_velocity: source.angular_velocity,
-			colliders: HashSet::new(),
+			colliders: BTreeSet::new(),
 
 			falling_asleep: false,
 			falling_asleep_time: 0.0,
 
 			asleep: false,
-			neighbors: HashSet::new(),
+			neighbors: BTreeSet::new(),
 		})
 	}
 
@@ -88,7 +90,7 @@ impl InternalEntity {
 			velocity: self.velocity.clone(),
 			angular_velocity: self.angular_velocity,
 
-			colliders: self.colliders.clone(),
+			colliders: self.colliders.iter().cloned().collect(),
 
 			last_prepped_moment_of_inertia: self.prepped_moment_of_inertia.clone(),
 
diff --git a/src/physics_system.rs b/src/physics_system.rs
index 3165f9f..91286e3 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 use std::borrow::BorrowMut;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 
 use generational_arena::Arena;
 
@@ -63,7 +63,7 @@ struct EntityStepInfo {
 	/// The planned angular motion for the entity.
 	angular_movement : Vec3,
 	/// All of the entities that have been collided with recently.
-	neighbors : HashSet<EntityHandle>,
+	neighbors : BTreeSet<EntityHandle>,
 }
 
 impl PhysicsSystem {
@@ -400,7 +400,7 @@ impl PhysicsSystem {
 				handle,
 				linear_movement,
 				angular_movement,
-				neighbors: HashSet::new(),
+				neighbors: BTreeSet::new(),
 			});
 		}
 
-- 
2.43.0


From 0e9c4c61f198d867ce2c4e6f9c2968bb2890facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 18/23] fix: friction applied the sliding velocity as an
 impulse, reversing the sliding of light bodies

---
 src/physics_system.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 91286e3..dc7387e 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -612,12 +612,17 @@ impl PhysicsSystem {
 					} else {
 						earliest_collision_dynamic_friction_coefficient
 					};
-					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
-					let max_friction_impulse = sliding_magnitude / denominator; // Divide by denominator so the mass/inertia split is reasonable.
-					let mut friction_percent : f32 = (impulse.magnitude() * friction_coefficient) / max_friction_impulse;
-					if friction_percent > 1.0 { friction_percent = 1.0; }
-					if !friction_percent.is_finite() { friction_percent = 0.0; }
-					let friction_impulse = sliding * -friction_percent;
+					let friction_impulse = if 0.0 < sliding_magnitude {
+						let sliding_direction = sliding / sliding_magnitude;
+						// The impulse that brings the sliding to a stop (so friction never reverses it).
+						let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &sliding_direction);
+						let max_friction_impulse = sliding_magnitude / denominator;
+						let mut friction_magnitude = impulse.magnitude() * friction_coefficient;
+						if friction_magnitude > max_friction_impulse { friction_magnitude = max_friction_impulse; }
+						sliding_direction * -friction_magnitude
+					} else {
+						Vec3::zeros()
+					};
 
 					PhysicsSystem::apply_collision_impulse(
 						&mut first,
@@ -700,16 +705,17 @@ impl PhysicsSystem {
 		}
 	}
 
-	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, collision : &Collision) -> f32 {
-		let first_offset  = collision.position - first.orientation.position;
-		let second_offset = collision.position - second.orientation.position;
+	/// Calculates how much an impulse at position changes the velocity between the two entities (in the direction of the impulse).
+	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, position : &Vec3, direction : &Vec3) -> f32 {
+		let first_offset  = position - first.orientation.position;
+		let second_offset = position - second.orientation.position;
 
 		let first_linear_weight   = 1.0 / first.get_total_mass();
 		let second_linear_weight  = 1.0 / second.get_total_mass();
-		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( &collision.normal);
-		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( &collision.normal);
-		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(&collision.normal);
-		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(&collision.normal);
+		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross(direction);
+		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot(direction);
+		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(direction);
+		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(direction);
 		first_linear_weight + second_linear_weight + first_angular_weight + second_angular_weight
 	}
 
@@ -723,7 +729,7 @@ impl PhysicsSystem {
 		// First find the collision response along the normal.
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
-		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, collision);
+		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &collision.normal);
 		// Two infinite masses can't move each other.
 		let normal_impulse_magnitude = if 0.0 < denominator { numerator / denominator } else { 0.0 };
 		collision.normal.scale(normal_impulse_magnitude)
-- 
2.43.0


From 4ab6adf8f89730eb217aeb7dee52b0f14f5f8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 19/23] fix: updating an entity with the rotation it already
 has must not wake it

---
 src/entity.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 0a7ac90..17e1725 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -108,11 +108,18 @@ impl InternalEntity {
 			(new_rotation.j - self.orientation.rotation.j) * (new_rotation.j - self.orientation.rotation.j) +
 			(new_rotation.k - self.orientation.rotation.k) * (new_rotation.k - self.orientation.rotation.k)
 		).sqrt();
+		// A quaternion and its negation are the same rotation.
+		let negated_rotation_delta = (
+			(new_rotation.w + self.orientation.rotation.w) * (new_rotation.w + self.orientation.rotation.w) +
+			(new_rotation.i + self.orientation.rotation.i) * (new_rotation.i + self.orientation.rotation.i) +
+			(new_rotation.j + self.orientation.rotation.j) * (new_rotation.j + self.orientation.rotation.j) +
+			(new_rotation.k + self.orientation.rotation.k) * (new_rotation.k + self.orientation.rotation.k)
+		).sqrt();
 		#[allow(unused_parens)]
 		let changed = (
 			self.own_mass != source.own_mass ||
 			EPSILON < (self.orientation.position - source.position).magnitude() ||
-			EPSILON < rotation_delta ||
+			(EPSILON < rotation_delta && EPSILON < negated_rotation_delta) ||
 			EPSILON < (self.velocity - source.velocity).magnitude() ||
 			EPSILON < (self.angular_velocity - source.angular_velocity).magnitude()
 		);
-- 
2.43.0


From 2acc7ea0a7097f5485668615b96f42a08d126f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 20/23] fix: slow small spheres passed through each other, the
 tolerance for a double root ignored the scale of the quadratic

---
 src/range.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/range.rs b/src/range.rs
index 51d4d8c..43e8823 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -96,9 +96,11 @@ impl Range {
 			}
 		} else {
 			let mut det = b * b - 4.0 * a * c;
-			if det < -EPSILON { // TODO: Could use a relative epsilon to keep things stable even in tiny cases.
+			// The quadratic's extreme value is -det/(4a), so the tolerance must scale with a (as that can be tiny).
+			let tolerance = EPSILON * a.abs();
+			if det < -tolerance {
 				Range::empty()
-			} else if det < EPSILON {
+			} else if det < tolerance {
 				Range::single(-0.5 * b / a)
 			} else {
 				det = det.sqrt();
-- 
2.43.0


From f77ba3cb91859aecc01bdd86b1da559eaa4c88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 21/23] fix: slowly moving spheres that already touch were not
 reported, the linear case of the overlap was a single time

---
 src/collision.rs |  4 ++--
 src/range.rs     | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index eb4048a..d293dde 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -299,7 +299,7 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 	let dv = movement1 - movement2;
 	let dc = center1 - center2;
 	let radius = radius1 + radius2;
-	let times = Range::quadratic_zeros(
+	let times = Range::quadratic_not_positive(
 		dv.dot(&dv),
 		2.0 * dv.dot(&dc),
 		dc.dot(&dc) - radius * radius,
@@ -325,7 +325,7 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	let movement = movement1 - movement2;
 	let a = (center1 - start2).cross(&direction);
 	let b = movement.cross(&direction);
-	let times = Range::quadratic_zeros(
+	let times = Range::quadratic_not_positive(
 		b.dot(&b),
 		2.0 * a.dot(&b),
 		a.dot(&a) - radius1 * radius1,
diff --git a/src/range.rs b/src/range.rs
index 43e8823..1f9735f 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -110,6 +110,17 @@ impl Range {
 		}
 	}
 
+	/// Finds when a quadratic with a non-negative leading coefficient isn't positive.
+	/// Differs from `quadratic_zeros()` in the linear case, where that's everything on one side of the zero.
+	pub fn quadratic_not_positive(a : f32, b : f32, c : f32) -> Range {
+		if a.abs() < EPSILON && !(b.abs() < EPSILON) {
+			let zero = -c / b;
+			if b < 0.0 { Range::range(zero, INFINITY) } else { Range::range(-INFINITY, zero) }
+		} else {
+			Range::quadratic_zeros(a, b, c)
+		}
+	}
+
 	/// If the other is moving at other_movement, see when the two ranges will overlap.
 	pub fn linear_overlap(&self, other : &Range, other_movement : f32) -> Range {
 		if other_movement.abs() < EPSILON {
-- 
2.43.0


From d22909a54ce5d97471ab5c11619550090de9549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 22/23] fix: interpolating orientations took the rotation
 vectors apart, wrong once a rotation passes half a turn

---
 src/orientation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orientation.rs b/src/orientation.rs
index e9c9fde..b7763e9 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -75,10 +75,11 @@ impl Orientation {
 	/// Linearly interpolates between a starting and ending orientation.
 	pub fn lerp(time : f32, start : &Orientation, end : &Orientation) -> Orientation {
 		let opposite = 1.0 - time;
-		let rotation_vec = start.rotation_vec() * opposite + end.rotation_vec() * time;
+		// Interpolate the turn between the two (not their rotation vectors, as those wrap around).
+		let turn = (end.rotation * start.rotation.inverse()).scaled_axis() * time;
 		Orientation {
 			position: start.position * opposite + end.position * time,
-			rotation: Quat::from_scaled_axis(rotation_vec),
+			rotation: Quat::from_scaled_axis(turn) * start.rotation,
 			internal_origin_offset: start.internal_origin_offset.clone(),
 		}
 	}
-- 
2.43.0


From 34773c30cdb8797161c3e6044de35f5ec2bac9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:52 +0000
Subject: [PATCH 23/23] fix: collide meshes the same way whichever of the two
 moves

The faces of either mesh were held where they are half way through the step,
so a mesh passing through a resting one was missed or not depending on which
of the two moved. Look at the corners from the mesh with the faces instead.
---
 src/collision.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index d293dde..e20c499 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -664,26 +664,28 @@ struct MeshPointPairs {
 	end : Vec3,
 }
 
-fn precompute_mesh_point_pairs(mesh : &InternalMeshCollider, start_orientation : &Orientation, end_orientation : &Orientation) -> Vec<MeshPointPairs> {
+/// Finds where all the points of a mesh start and end in the local space of another entity.
+fn precompute_mesh_point_pairs(mesh : &InternalMeshCollider, start_orientation : &Orientation, end_orientation : &Orientation, other_start_orientation : &Orientation, other_end_orientation : &Orientation) -> Vec<MeshPointPairs> {
 	let mut transformed = Vec::with_capacity(mesh.vertices.len());
 	for point in &mesh.vertices {
 		let internal_position = mesh.position + point;
 		transformed.push(MeshPointPairs {
-			start: start_orientation.position_into_world(&internal_position),
-			end: end_orientation.position_into_world(&internal_position),
+			start: other_start_orientation.position_into_local(&start_orientation.position_into_world(&internal_position)),
+			end: other_end_orientation.position_into_local(&end_orientation.position_into_world(&internal_position)),
 		});
 	}
 	transformed
 }
 
-fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_points : &Vec<MeshPointPairs>, normal_factor : f32) {
+/// Collides the points of a mesh (that must be in the local space of the other mesh's entity) with the faces of another mesh.
+fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_start_orientation : &Orientation, mesh2_end_orientation : &Orientation, normal_factor : f32) {
 	let mut face_points = Vec::new();
 	let mut accumulator = EarliestCollisionAccumulator::new();
 	for points_info in mesh1_points {
 		for face in &mesh2.faces {
 			face_points.clear();
 			for index in face {
-				face_points.push((mesh2_points[*index].start + mesh2_points[*index].end) / 2.0);
+				face_points.push(mesh2.position + mesh2.vertices[*index]);
 			}
 			accumulator.consider(collide_point_with_polygon(
 				&points_info.start,
@@ -712,27 +714,31 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 			collision.normal *= -1.0;
 		}
 		collision.normal *= normal_factor;
+		collision.transform_out_of(mesh2_start_orientation, mesh2_end_orientation);
 		output.consider(Some(collision));
 	}
 }
 
 pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orientation : &Orientation, mesh1_end_orientation : &Orientation, mesh2 : &InternalMeshCollider, mesh2_start_orientation : &Orientation, mesh2_end_orientation : &Orientation) -> Option<Collision> {
 	let mut accumulator = EarliestCollisionAccumulator::new();
-	let mesh1_points = precompute_mesh_point_pairs(mesh1, mesh1_start_orientation, mesh1_end_orientation);
-	let mesh2_points = precompute_mesh_point_pairs(mesh2, mesh2_start_orientation, mesh2_end_orientation);
+	// The faces of either mesh are moving too, so look at the points from there.
+	let mesh1_points = precompute_mesh_point_pairs(mesh1, mesh1_start_orientation, mesh1_end_orientation, mesh2_start_orientation, mesh2_end_orientation);
+	let mesh2_points = precompute_mesh_point_pairs(mesh2, mesh2_start_orientation, mesh2_end_orientation, mesh1_start_orientation, mesh1_end_orientation);
 	// First check all the corners.
 	collide_mesh_points_with_mesh_faces(
 		&mut accumulator,
 		&mesh1_points,
 		&mesh2,
-		&mesh2_points,
+		mesh2_start_orientation,
+		mesh2_end_orientation,
 		-1.0,
 	);
 	collide_mesh_points_with_mesh_faces(
 		&mut accumulator,
 		&mesh2_points,
 		&mesh1,
-		&mesh1_points,
+		mesh1_start_orientation,
+		mesh1_end_orientation,
 		1.0,
 	);
 	// Then check if there are any edge-edge intersections. (TODO!)
-- 
2.43.0

