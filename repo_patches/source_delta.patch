From 226db1f5211e414c30a8c68efc0a74f4bbc11adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:04 +0000
Subject: [PATCH 01/11] fix: let a vehicle already on its best path exit at its
 destination

Setting a destination or a location clears the flag that lets a vehicle
leave at the end of its path. If the path it was already on was still the
best one, the flag was never set again and the vehicle stayed at the end
of its destination link forever.
---
 src/vehicle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index c45277c..d0be0b0 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -413,7 +413,7 @@ impl Vehicle {
             .paths()
             .iter()
             .min_by_key(|path| self.evaluate_path(path, links))
-            .filter(|path| !path.links.iter().eq(&self.route))
+            .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
 
     /// Evaluates the desirability of being on a given path,
-- 
2.43.0


From 2aaff72c3a91086da5465bb818027899389b1a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:04 +0000
Subject: [PATCH 02/11] fix: only plan paths that make progress towards the
 destination

When a road further along a route also led back to an earlier part of the
same route, the way back was considered as good as the way on, and a
vehicle could drive around the same block forever.
---
 src/vehicle/pathfinding.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index cd18bbb..b2f6bc1 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -14,6 +14,8 @@ pub(crate) struct PathfindingModel {
     dst: LinkId,
     /// A matrix used to determine the desirability of each link.
     matrix: SparseSecondaryMap<LinkId, LaneDists>,
+    /// The number of links left on the route after each link in the matrix.
+    remaining: SparseSecondaryMap<LinkId, usize>,
     /// The current set of available paths.
     paths: Vec<Path>,
 }
@@ -76,13 +78,21 @@ impl PathfindingModel {
     fn calc_lane_matrix(&mut self, route: &[LinkId], links: &LinkSet) {
         let mut matrix = SparseSecondaryMap::new();
         matrix.insert(self.dst, LaneDists::exit());
+        let mut remaining = SparseSecondaryMap::new();
+        remaining.insert(self.dst, 0);
 
-        for link_id in route.iter().rev() {
+        for (idx, link_id) in route.iter().rev().enumerate() {
             let group = links[*link_id].group();
             let group_links = group
                 .map(|g| g.link_ids())
                 .unwrap_or_else(|| core::slice::from_ref(link_id));
 
+            // Keep track of progress along the route
+            remaining.insert(*link_id, idx);
+            for link_id in group_links {
+                remaining.entry(*link_id).unwrap().or_insert(idx);
+            }
+
             // Propagate backwards
             for link_id in group_links {
                 let link = &links[*link_id];
@@ -114,6 +124,7 @@ impl PathfindingModel {
         }
 
         self.matrix = matrix;
+        self.remaining = remaining;
     }
 
     fn make_paths(&mut self, links: &LinkSet) {
@@ -151,8 +162,11 @@ impl PathfindingModel {
             let last_idx = path.len();
             path.push(LinkId::null());
             for succ in links[link_id].links_out() {
-                path[last_idx] = *succ;
-                found |= self.make_paths_inner(links, path, dist);
+                // Only follow links that make progress, otherwise the vehicle could circle forever
+                if self.remaining.get(*succ) < self.remaining.get(link_id) {
+                    path[last_idx] = *succ;
+                    found |= self.make_paths_inner(links, path, dist);
+                }
             }
             path.pop();
         }
-- 
2.43.0


From e1a5f1ea237f11d96e06bc2e7581044d53695267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:04 +0000
Subject: [PATCH 03/11] fix: look up the right projection between lanes of a
 group

The table leaves out the projection of a lane onto itself, which the
lookup did not account for. For lanes to the right of the source it gave
the projection onto another lane, or went past the end of the table.
---
 src/group.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/group.rs b/src/group.rs
index 642a2ad..19ce556 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -92,6 +92,8 @@ impl LinkGroup {
         let src_idx = self.find_link(src).expect("Link is not in group.");
         let dst_idx = self.find_link(dst).expect("Link is not in group.");
         let n = self.links.len() - 1;
+        // The projections from a link don't include one onto itself
+        let dst_idx = if dst_idx > src_idx { dst_idx - 1 } else { dst_idx };
         &self.projections[(n * src_idx) + dst_idx]
     }
 
-- 
2.43.0


From d32dbd025af7df00b603894f0abdd9ddc519f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:04 +0000
Subject: [PATCH 04/11] fix: don't panic on a traffic light without phases

All its movements stay red.
---
 src/light.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index a79a064..a8f0333 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -142,7 +142,7 @@ impl TrafficLight {
 
     /// Applies the current traffic light phase to each movement.
     fn apply_phase(&mut self) {
-        let Phase { mask, .. } = self.phases[self.phase];
+        let mask = self.phases.get(self.phase).map_or(0, |phase| phase.mask);
         for (idx, movement) in self.movements.iter_mut().enumerate() {
             movement.active = (mask >> idx) & 1 != 0;
         }
-- 
2.43.0


From a733c5fe2d2221fd83bbdd1b05f07973bc044208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:04 +0000
Subject: [PATCH 05/11] fix: keep a vehicle on a path while it changes lanes

A requested lane change left the vehicle with no path beyond its new lane
until the change was over. If the lane ended first, the vehicle stopped
there forever or vanished from the simulation.
---
 src/simulation.rs | 3 +++
 src/vehicle.rs    | 7 ++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index c46a55f..6d7ef3e 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -397,6 +397,9 @@ impl Simulation {
             offset: CubicFn::fit(pos, offset, slope, end_pos, 0.0, 0.0),
         };
         vehicle.set_location(link_id, pos, Some(lane_change), &self.links);
+        if let Some(path) = vehicle.choose_path(&self.links).cloned() {
+            vehicle.set_path(&path);
+        }
 
         // Add the vehicle to the new link
         self.links[link_id].insert_vehicle(&self.vehicles, vehicle_id);
diff --git a/src/vehicle.rs b/src/vehicle.rs
index d0be0b0..a5448d2 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -404,14 +404,11 @@ impl Vehicle {
     /// Evaluates the available paths and chooses the best, which may involve a lane change.
     /// If the path the vehicle is currently on is the best, then `None` is returned.
     pub(crate) fn choose_path(&self, links: &LinkSet) -> Option<&Path> {
-        if self.lane_change.is_some() {
-            // Don't lane change while already lane changing
-            return None;
-        }
-
         self.pathfind
             .paths()
             .iter()
+            // Don't lane change while already lane changing
+            .filter(|path| self.lane_change.is_none() || path.links[0] == self.route[0])
             .min_by_key(|path| self.evaluate_path(path, links))
             .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
-- 
2.43.0


From 629c265ea46ed000b4b3231d72fe867423154bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:31 +0000
Subject: [PATCH 06/11] fix: plan ahead from the end of the current link

The planning distance was counted from the start of the link a vehicle is
on. On a long link the plan could end just beyond it, so the vehicle
braked for the end of its own plan, and a long vehicle that stopped there
never moved again.
---
 src/vehicle/pathfinding.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index b2f6bc1..39981fa 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -156,7 +156,9 @@ impl PathfindingModel {
 
         let mut found = false;
 
-        if !path.is_full() && dist < PLAN_DIST {
+        // Plan ahead from the end of the first link, since the vehicle could be anywhere on it
+        let plan_dist = PLAN_DIST + links[path[0]].length();
+        if !path.is_full() && dist < plan_dist {
             let link = &links[link_id];
             let dist = dist + link.length();
             let last_idx = path.len();
-- 
2.43.0


From f6eb160d71524e040df1c4ed5f74a2546f81c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:33 +0000
Subject: [PATCH 07/11] fix: measure gaps from the stop line

A vehicle waiting to give way was placed one link length too far back, so
it demanded gaps that grew with the length of the road it was waiting on.
---
 src/link.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/link.rs b/src/link.rs
index 6198207..6236cb9 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -269,7 +269,7 @@ impl Link {
                             if links[link_id].can_enter(
                                 links,
                                 vehicles,
-                                &vehicle.offset(self.length()),
+                                &vehicle.offset(0.0),
                                 frame,
                                 priority,
                             ) {
-- 
2.43.0


From 372ed407f027eb6be52b7afee5a7e9c022624772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:47 +0000
Subject: [PATCH 08/11] fix: list each route once, including exits reached by a
 lane change

---
 src/simulation.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index 6d7ef3e..9148d5c 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -98,17 +98,13 @@ impl Simulation {
             .values()
             .filter(|link| link.links_in().is_empty());
         srcs.map(|link| link.id()).flat_map(move |src| {
-            let f = self.links[src].reachable_lanes().iter().copied();
-            let s = pathfinding::directed::dfs::dfs_reach(src, move |id| {
-                let lanes = self.links[*id].reachable_lanes();
-                lanes.iter().flat_map(move |link_id| {
-                    let link = &self.links[*link_id];
-                    link.links_out().iter().copied()
-                })
-            });
-            f.chain(s)
-                .filter(|id| self.links[*id].links_out().is_empty())
-                .map(move |dst| (src, dst))
+            pathfinding::directed::dfs::dfs_reach(src, move |id| {
+                let link = &self.links[*id];
+                let next = link.lane_changes().iter().chain(link.links_out());
+                next.copied()
+            })
+            .filter(|id| self.links[*id].links_out().is_empty())
+            .map(move |dst| (src, dst))
         })
     }
 
-- 
2.43.0


From a9c4b0086f9b608aaac3cf1ea56b6874de9992b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:51 +0000
Subject: [PATCH 09/11] fix: plan for more than four lane changes

A vehicle five or more lanes from its exit saw no gain in changing lanes
and stayed in its lane until the end of the road.
---
 src/vehicle/pathfinding.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 39981fa..14c98a1 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -4,6 +4,9 @@ use slotmap::{Key, SparseSecondaryMap};
 
 const PLAN_DIST: f64 = 200.0;
 
+/// The number of lane changes to plan ahead; a link group has at most this many lanes.
+const MAX_LANES: usize = 16;
+
 /// The path finding model of a vehicle.
 /// This can be conceptualised as the vehicle's GPS navigation unit.
 #[derive(Clone, Debug, Default)]
@@ -195,15 +198,15 @@ fn successors(link_id: LinkId, links: &LinkSet) -> impl Iterator<Item = (LinkId,
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
-pub(crate) struct LaneDists([u32; 4]);
+pub(crate) struct LaneDists([u32; MAX_LANES]);
 
 impl LaneDists {
     pub fn dead(dist: f64) -> Self {
-        Self([Self::make_dist(dist); 4])
+        Self([Self::make_dist(dist); MAX_LANES])
     }
 
     pub fn exit() -> Self {
-        Self([u32::MAX; 4])
+        Self([u32::MAX; MAX_LANES])
     }
 
     /// Add an amount to all distances.
@@ -213,12 +216,14 @@ impl LaneDists {
 
     /// Offsets all distances by one lane.
     pub fn shift(&self) -> Self {
-        Self([0, self.0[0], self.0[1], self.0[2]])
+        let mut dists = [0; MAX_LANES];
+        dists[1..].copy_from_slice(&self.0[..MAX_LANES - 1]);
+        Self(dists)
     }
 
     /// Combines two `LaneDist`s.
     pub fn combine(&self, other: &Self) -> Self {
-        Self([0, 1, 2, 3].map(|i| u32::max(self.0[i], other.0[i])))
+        Self(std::array::from_fn(|i| u32::max(self.0[i], other.0[i])))
     }
 
     /// Computes the cost of being on this link at the given `pos`.
-- 
2.43.0


From 7aa4802d43284a820ea0c1f1f2b8217fc87b43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:33 +0000
Subject: [PATCH 10/11] fix: judge obstacles on the next link from the lane
 changer's own position

A vehicle in the middle of a lane change works out where it will be sideways
when it comes up to an obstacle. For obstacles beyond the end of its link the
position was measured from the start of the next link, so the lane change was
extrapolated far back and the obstacle was taken to be out of the way. The
vehicle then drove into one standing between the lanes just past the boundary.
---
 src/link.rs    |  3 ++-
 src/vehicle.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/link.rs b/src/link.rs
index 6236cb9..ffc50c7 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -645,6 +645,7 @@ impl<'a> RelativeVehicle<'a> {
 
     /// Determines whether the vehicle can pass the given obstacle.
     pub fn can_pass(&self, obstacle: Obstacle, link: &Link) -> ObstaclePassResult {
-        self.vehicle.can_pass(obstacle, link)
+        self.vehicle
+            .can_pass(obstacle, link, self.pos - obstacle.pos)
     }
 }
diff --git a/src/vehicle.rs b/src/vehicle.rs
index a5448d2..a0c102a 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -495,10 +495,16 @@ impl Vehicle {
         }
     }
 
-    /// Determines whether the vehicle can pass the given obstacle.
-    pub(crate) fn can_pass(&self, mut obstacle: Obstacle, link: &Link) -> ObstaclePassResult {
+    /// Determines whether the vehicle can pass the given obstacle on `link`,
+    /// which starts at `link_pos` relative to the vehicle's current link.
+    pub(crate) fn can_pass(
+        &self,
+        mut obstacle: Obstacle,
+        link: &Link,
+        link_pos: f64,
+    ) -> ObstaclePassResult {
         let is_clear = |obstacle: Obstacle| {
-            let offset = self.offset_at(obstacle.pos - self.half_len);
+            let offset = self.offset_at(link_pos + obstacle.pos - self.half_len);
             let distance = obstacle.lat.distance(offset);
             distance > self.half_wid + LATERAL_CLEARANCE
         };
-- 
2.43.0


From bbe2cea2b1fe039aad420b0742cad857cc04ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:25:24 +0000
Subject: [PATCH 11/11] fix: settle the projection onto a curve when it hops
 across a kink

Changing lanes on a bend could panic: the projection of the vehicle's
position onto the new link hopped back and forth over the joint between
two segments of the curve and never converged.
---
 src/math/curve/algorithms.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index d8d8d46..bb097e5 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -23,8 +23,15 @@ pub fn project_point_onto_curve(
     let (mut p, mut p_dt) = (curve.sample(t), curve.sample_dt(t));
 
     // Refine `t` with Newton's method
+    let (mut gain, mut last_error) = (1.0, 0.0);
     for _ in 0..64 {
         let error = p_dt.dot(point - p) / p_dt.magnitude();
+        // Take smaller steps if hopping back and forth across a kink in the curve
+        if error * last_error < -0.5 * last_error * last_error {
+            gain *= 0.5;
+        }
+        last_error = error;
+        let error = gain * error;
         t += error;
         if error.abs() < max_error || !bounds.contains(t) {
             return Some(t);
-- 
2.43.0

