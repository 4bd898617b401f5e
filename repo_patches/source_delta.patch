From 65b9251b49e65448580bedf028fb4e95822bd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 01/16] fix: keep the probability of a vacuous TBM cell defined

An observation of zero quality left the cell with a NaN probability (0/0).
---
 src/core/maps/tbm_grid_cells.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/tbm_grid_cells.h b/src/core/maps/tbm_grid_cells.h
index 73d22e6..76ae1a0 100644
--- a/src/core/maps/tbm_grid_cells.h
+++ b/src/core/maps/tbm_grid_cells.h
@@ -88,7 +88,8 @@ protected:
   // TBM -> Occ is consistent with AOO -> TBM
   Occupancy tbm2occ(const TBM& tbm) const override {
     double qual = tbm.occupied() + tbm.empty();
-    double p_occu = tbm.occupied() / qual;
+    // a vacuous belief favours neither of the outcomes
+    double p_occu = qual == 0.0 ? 0.5 : tbm.occupied() / qual;
     return Occupancy { p_occu, qual };
   }
 };
-- 
2.43.0


From a1aa21bd7ed73619cf2cf6aa2e4fb6578948de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 02/16] fix: store the sample counters of the averaging cells

A mean/gmapping cell restored from its serialized form forgot how many
readings it had averaged, so the next reading replaced its estimate.
---
 src/core/maps/naive_grid_cells.h        | 13 +++++++++++++
 src/slams/gmapping/gmapping_grid_cell.h | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/core/maps/naive_grid_cells.h b/src/core/maps/naive_grid_cells.h
index 3f6f395..32345a3 100644
--- a/src/core/maps/naive_grid_cells.h
+++ b/src/core/maps/naive_grid_cells.h
@@ -39,6 +39,19 @@ public:
     GridCell::on_update();
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _n;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _n;
+    return d.pos();
+  }
+
 private:
   double _n;
 };
diff --git a/src/slams/gmapping/gmapping_grid_cell.h b/src/slams/gmapping/gmapping_grid_cell.h
index 7ee57a9..acff67a 100644
--- a/src/slams/gmapping/gmapping_grid_cell.h
+++ b/src/slams/gmapping/gmapping_grid_cell.h
@@ -37,6 +37,19 @@ public:
     return 1.0 - similarity;
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _hits << _tries << obst.x << obst.y;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _hits >> _tries >> obst.x >> obst.y;
+    return d.pos();
+  }
+
 private:
   int _hits, _tries;
   Point2D obst;
-- 
2.43.0


From 39ca7c9e9f518547429ac8d1b365f9f5f29c5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 03/16] fix: append byte blocks written to a serializer with <<

---
 src/core/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/serialization.h b/src/core/serialization.h
index 48592b5..30953c0 100644
--- a/src/core/serialization.h
+++ b/src/core/serialization.h
@@ -60,7 +60,7 @@ Serializer& operator<<(Serializer& s, Type value) {
     return s;
 }
 
-template<>
+// NB: an overload, since a specialization isn't selected for lvalue/rvalue blocks
 inline Serializer& operator<<(Serializer& s, const std::vector<char>& data) {
     s.append(data);
     return s;
-- 
2.43.0


From 787a2b70e85d8df0f8de28e1f962e8fc5135b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 04/16] fix: restart pose enumeration around the new pose on
 reset

---
 src/core/scan_matchers/brute_force_scan_matcher.h   | 1 +
 src/core/scan_matchers/hill_climbing_scan_matcher.h | 6 +++++-
 src/core/scan_matchers/pose_enumerators.h           | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index a43ae5c..aa506f1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -34,6 +34,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _x = _from_x;
     _y = _from_y;
     _t = _from_t;
diff --git a/src/core/scan_matchers/hill_climbing_scan_matcher.h b/src/core/scan_matchers/hill_climbing_scan_matcher.h
index f5795bc..4dc0f37 100644
--- a/src/core/scan_matchers/hill_climbing_scan_matcher.h
+++ b/src/core/scan_matchers/hill_climbing_scan_matcher.h
@@ -51,7 +51,11 @@ public:
     return distorted_pose;
   }
 
-  void reset() override {}
+  void reset() override {
+    _action_id = 0;
+    _base_pose_is_set = false;
+  }
+
   void feedback(bool pose_is_acceptable) override {}
 
 private:
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 9e914b7..214d40c 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -42,6 +42,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _dir = _from_dir;
     _dst = _from_dst;
   }
-- 
2.43.0


From b7b82e27cdd3841db2917b25571013cf51b8d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 05/16] fix: recognise an unknown scan probability

---
 src/core/scan_matchers/grid_scan_matcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index aa36420..66606bb 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 #define SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 
+#include <cmath>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -98,7 +99,7 @@ public:
   }
 
   static bool is_prob_unknown(double probability) {
-    return probability == unknown_probability();
+    return std::isnan(probability);
   }
 
   OOPE occupancy_observation_probability_estimator() const { return _oope; }
-- 
2.43.0


From 04f6e52c6fe458a5a8ac79526e7f313a214c69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 06/16] fix: keep the direction of nearly horizontal segments
 below 180 degrees

---
 src/core/features/angle_histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/features/angle_histogram.h b/src/core/features/angle_histogram.h
index 51d2152..3649981 100644
--- a/src/core/features/angle_histogram.h
+++ b/src/core/features/angle_histogram.h
@@ -84,7 +84,7 @@ public:
       angle = M_PI - angle;
     }
 
-    return angle;
+    return angle < M_PI ? angle : 0; // 180 is equivalent to 0
   }
 
 protected:
-- 
2.43.0


From f20ebdd6285340e253795e1992362a939a92adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 07/16] fix: align hill climbing rounds with the requested
 frame

---
 src/core/scan_matchers/hill_climbing_scan_matcher.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/scan_matchers/hill_climbing_scan_matcher.h b/src/core/scan_matchers/hill_climbing_scan_matcher.h
index 4dc0f37..ade8b55 100644
--- a/src/core/scan_matchers/hill_climbing_scan_matcher.h
+++ b/src/core/scan_matchers/hill_climbing_scan_matcher.h
@@ -80,7 +80,8 @@ public:
                                     double frame_rotation = 0)
     : _max_failed_rounds{max_failed_rounds}
     , _base_translation_delta{translation_delta}
-    , _base_rotation_delta{rotation_delta} {
+    , _base_rotation_delta{rotation_delta}
+    , _frame_rotation{frame_rotation} {
     reset();
   }
 
@@ -115,12 +116,13 @@ public:
 
 private:
   void reset_round(double translation_delta, double rotation_delta) {
-    _round_pe = {_translation_delta, _rotation_delta};
+    _round_pe = {_translation_delta, _rotation_delta, _frame_rotation};
     _round_failed = true;
   }
 private:
   unsigned _max_failed_rounds;
   double _base_translation_delta, _base_rotation_delta;
+  double _frame_rotation;
 
   unsigned _failed_rounds;
   double _translation_delta, _rotation_delta;
@@ -157,7 +159,7 @@ public:
 private:
 
   void prepare_lookup(const LaserScan2D &scan) {
-    if (!_use_frame_alignement) { return; }
+    if (!_use_frame_alignement || scan.points().size() < 2) { return; }
     auto hist = AngleHistogram{20};
     hist.reset(scan);
     double frame_rot = hist.major_direction();
-- 
2.43.0


From fb1841bacedc4a3579c44790d00521779473c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 08/16] fix: intersect rectangles that contain no corner of
 each other

---
 src/core/geometry_primitives.h | 53 +++++-----------------------------
 1 file changed, 8 insertions(+), 45 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 3249b7a..d2713c0 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -250,7 +250,14 @@ public:
   }
 
   auto intersect(const LightWeightRectangle &that) const {
-    return intersect_internal(that, false);
+    auto ileft = std::max(left(), that.left());
+    auto iright = std::min(right(), that.right());
+    auto ibot = std::max(bot(), that.bot());
+    auto itop = std::min(top(), that.top());
+    if (iright < ileft || itop < ibot) { // no common points
+      return LightWeightRectangle{};
+    }
+    return LightWeightRectangle{ibot, itop, ileft, iright};
   }
 
   auto overlap(const LightWeightRectangle &that) const {
@@ -265,50 +272,6 @@ public:
     return *this == that ? 1.0 : 0.0;
   }
 
-private:
-
-  LightWeightRectangle intersect_internal(const LightWeightRectangle &that,
-                                          bool reversed = false) const {
-    // NB: a naive implementation; straightforward and correct (I hope so).
-    // IDEA: shrink -this- to intersection rectangle.
-
-    // FIXME: @see unit tests
-    unsigned contained_corners_nm = 0;
-    auto cleft = left(), cright = right(), ctop = top(), cbot = bot();
-
-    #define PROCESS_CORNER(horz_id, vert_id)                    \
-      if (contains(that.horz_id(), that.vert_id())) {           \
-        ++contained_corners_nm;                                 \
-        c##horz_id = that.horz_id();                            \
-        c##vert_id = that.vert_id();                            \
-      }
-
-    PROCESS_CORNER(left, bot);
-    PROCESS_CORNER(right, bot);
-    PROCESS_CORNER(left, top);
-    PROCESS_CORNER(right, top);
-
-    #undef PROCESS_CORNER
-
-    // handle corner cases based on a number of contained corners (pun intended)
-    switch (contained_corners_nm) {
-    case 0:
-      /*
-       * Either doesn't overlap or the overlap must be detected
-       * by this-in-that corners analysis (reversed).
-       */
-      // FIXME: awkward stuff
-      return reversed ? LightWeightRectangle{}
-                      : that.intersect_internal(*this, true);
-    case 1: case 2: case 4:
-      break;
-    case 3: default:
-      assert(0 && "Unexpected inclusions number");
-    }
-
-    return LightWeightRectangle{cbot, ctop, cleft, cright};
-  }
-
 private: // fields
   double _bot, _top, _left, _right;
 };
-- 
2.43.0


From ddbc73a5e94874830e9819aea70500c618d7f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 09/16] fix: propagate known areas to the scales that are added
 to M3RSM maps

A scale added after the finest map had grown was empty, so areas known before were not
bounded by the coarser scale (M3RSMRescalableGridMap::validate() failed).
---
 src/core/maps/rescalable_caching_grid_map.h | 24 +++++----
 src/core/scan_matchers/m3rsm_engine.h       | 54 ++++++++++++++-------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index a723ff8..62ee995 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -149,6 +149,8 @@ protected:
   // coraser areas update policy
   virtual void pre_area_update(const AreaId &area_id) {}
   virtual void post_area_update(const AreaId &area_id) {}
+  // called when a scale is added on top of the (maybe non-empty) finer one
+  virtual void init_coarser_map(const GridMap &finer, GridMap &coarser) const {}
 
   const GridMap& map(unsigned scale_id) const {
     return *(*_map_cache)[scale_id];
@@ -173,24 +175,28 @@ protected:
     static const int PC_W_Target = Coarsest_Map_W * Map_Scale_Factor,
                      PC_H_Target = Coarsest_Map_H * Map_Scale_Factor;
 
-    const GridMap& pre_coarsest_map = map(_map_cache->size() - 2);
-    int pc_w = pre_coarsest_map.width(), pc_h = pre_coarsest_map.height();
-    double pc_scale = pre_coarsest_map.scale();
+    auto pre_coarsest_map = &map(_map_cache->size() - 2);
+    if (pre_coarsest_map->width() <= PC_W_Target &&
+        pre_coarsest_map->height() <= PC_H_Target) { return; }
 
-    if (pc_w <= PC_W_Target && pc_h <= PC_H_Target) { return; }
-
-    pc_w = ge_pow<Map_Scale_Factor>(pc_w);
-    pc_h = ge_pow<Map_Scale_Factor>(pc_h);
     // more cache levels have to be added
-    while (PC_W_Target < pc_w || PC_H_Target < pc_h) {
+    while (PC_W_Target < pre_coarsest_map->width() ||
+           PC_H_Target < pre_coarsest_map->height()) {
+      int pc_w = ge_pow<Map_Scale_Factor>(pre_coarsest_map->width()),
+          pc_h = ge_pow<Map_Scale_Factor>(pre_coarsest_map->height());
       pc_w = std::max(PC_W_Target, int(std::ceil(pc_w / Map_Scale_Factor)));
       pc_h = std::max(PC_H_Target, int(std::ceil(pc_h / Map_Scale_Factor)));
-      pc_scale *= Map_Scale_Factor;
+      double pc_scale = pre_coarsest_map->scale() * Map_Scale_Factor;
 
       auto map_params = GridMapParams{pc_w, pc_h, pc_scale};
       auto map = std::make_unique<BackGridMap>(cell_prototype(), map_params);
+      // NB: the initialization might extend the added map
+      init_coarser_map(*pre_coarsest_map, *map);
+      pre_coarsest_map = map.get();
       _map_cache->insert((_map_cache->rbegin() + 1).base(), std::move(map));
     }
+    // NB: the coarsest map may lack areas that are propagated to the added ones
+    init_coarser_map(*pre_coarsest_map, *_map_cache->back());
   }
 
 private:
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index b4bb537..f0dd76e 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -104,27 +104,47 @@ protected:
 
     for (unsigned coarser_scale_id = scale_id() + 1;
          coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
-      auto& coarser_map = map(coarser_scale_id);
-      bool coarser_area_is_updated = false;
-      using GRRectangle = GridRasterizedRectangle;
-      auto cm_coords = GRRectangle{coarser_map, modified_space, false};
-      while (cm_coords.has_next()) {
-        auto coord = cm_coords.next();
-        auto &coarser_area = coarser_map[coord];
-        auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
-        // TODO: move "propagate max" to the strategy if required.
-        auto coarser_update_is_not_required =
-          !coarser_area.is_unknown() &&
-          less_or_equal(impact, coarser_impact);
-        if (coarser_update_is_not_required) { continue; }
-
-        coarser_map.reset(coord, modified_area);
-        coarser_area_is_updated = true;
+      if (!update_coarser_map(map(coarser_scale_id), modified_area,
+                              modified_space, impact)) { break; }
+    }
+  }
+
+  void init_coarser_map(const GridMap &finer,
+                        GridMap &coarser) const override {
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < finer.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < finer.height(); ++raw_crd.y) {
+        auto area_id = finer.internal2external(raw_crd);
+        const auto &area = finer[area_id];
+        if (area.is_unknown()) { continue; }
+        update_coarser_map(coarser, area, finer.world_cell_bounds(area_id),
+                           estimate_spe_obstacle_impact(area));
       }
-      if (!coarser_area_is_updated) { break; }
     }
   }
 
+  bool update_coarser_map(GridMap &coarser_map, const GridCell &modified_area,
+                          const Rectangle &modified_space,
+                          const double impact) const {
+    bool coarser_area_is_updated = false;
+    using GRRectangle = GridRasterizedRectangle;
+    auto cm_coords = GRRectangle{coarser_map, modified_space, false};
+    while (cm_coords.has_next()) {
+      auto coord = cm_coords.next();
+      auto &coarser_area = coarser_map[coord];
+      auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
+      // TODO: move "propagate max" to the strategy if required.
+      auto coarser_update_is_not_required =
+        !coarser_area.is_unknown() &&
+        less_or_equal(impact, coarser_impact);
+      if (coarser_update_is_not_required) { continue; }
+
+      coarser_map.reset(coord, modified_area);
+      coarser_area_is_updated = true;
+    }
+    return coarser_area_is_updated;
+  }
+
 private:
   std::shared_ptr<ObservationImpactEstimator> _oie;
   double _prev_fine_impact;
-- 
2.43.0


From 3f27ea1e1c76c56cec3e72b1e6055cfa3882e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:43 +0000
Subject: [PATCH 10/16] fix: side of an obstacle line is decided relative to
 that line

---
 src/core/maps/area_occupancy_estimator.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0667d30..481b26b 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -207,10 +207,14 @@ private: // methods
       area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
     }
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
-    if (is_occ &&
+    if (is_occ) {
+      // NB: a corner of an empty chunk belongs to the obstacle line
+      bool chunk_is_in_front = are_equal(area, 0) ?
+        !are_on_the_same_side(inters[0], inters[1],
+                              beam.beg(), bnds.center()) :
         are_on_the_same_side(inters[0], inters[1],
-                             beam.beg(), {corner_x, corner_y})) {
-      area = bnds.area() - area;
+                             beam.beg(), {corner_x, corner_y});
+      if (chunk_is_in_front) { area = bnds.area() - area; }
     }
     return area;
   }
@@ -218,8 +222,8 @@ private: // methods
   bool are_on_the_same_side(const Point2D &line_p1, const Point2D &line_p2,
                             const Point2D &p1, const Point2D &p2) {
     double dx = line_p2.x - line_p1.x, dy = line_p2.y - line_p1.y;
-    return 0 < (dy*p1.y - dx*p1.x + dy*p1.x - dx*p1.y) *
-               (dy*p2.y - dx*p2.x + dy*p2.x - dx*p2.y);
+    return 0 < (dy*(p1.x - line_p1.x) - dx*(p1.y - line_p1.y)) *
+               (dy*(p2.x - line_p1.x) - dx*(p2.y - line_p1.y));
   }
 
   Occupancy estimate_occupancy(double chunk_area, double total_area,
-- 
2.43.0


From 7d051de79b6b901fcb0328545fb2f57f205bec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 11/16] fix: an edge beam is shifted by the size of the
 observed cell

---
 src/core/maps/area_occupancy_estimator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 481b26b..bd133c3 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -68,7 +68,7 @@ private: // methods
   Segment2D ensure_segment_not_on_edge(const Segment2D& s,
                                        const Rectangle &cell) const {
     // NB: Invariant: beg/end movement should not effect intersections
-    static const double Shift_Amount = _low_qual * cell.side();
+    const double Shift_Amount = _low_qual * cell.side();
     if (!cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
-- 
2.43.0


From 63f1f27f67626cfc6a4050796b39a6f5cf82484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 12/16] fix: read the map width from width_in_meters and the
 height from height_in_meters

---
 src/utils/init_occupancy_mapping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 2a8b1a8..59e412c 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -31,8 +31,8 @@ auto init_pose_quality_estimators(const PropertiesProvider &props) {
 
 auto init_grid_map_params(const PropertiesProvider &props) {
   static const std::string Map_NS = "slam/map/";
-  auto w = props.get_dbl(Map_NS + "height_in_meters", 10);
-  auto h = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto w = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto h = props.get_dbl(Map_NS + "height_in_meters", 10);
   auto scale = props.get_dbl(Map_NS + "meters_per_cell", 0.1);
   return GridMapParams{static_cast<int>(std::ceil(w / scale)),
                        static_cast<int>(std::ceil(h / scale)),
-- 
2.43.0


From bf03f725ecd992952eb556e5d3ed9839ab684170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 13/16] fix: read the observation quality estimator type from
 .../type, not .../typetype

---
 src/utils/init_occupancy_mapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 59e412c..976c068 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -65,7 +65,7 @@ std::shared_ptr<ObservationMappingQualityEstimator> init_omqe(
     const PropertiesProvider &props) {
 
   static const auto MAPPING_NS = std::string{"slam/mapping/"};
-  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/type";
+  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/";
   // TODO: replace with <undefined> after config refactoring
   auto type = props.get_str(OMQE_NS + "type", "idle");
   std::cout << "Used OMQE: " << type << std::endl;
-- 
2.43.0


From 2c62627e3f647dcf5ede0f31d1437d7138caf37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 14/16] fix: read the Gmapping window size from
 oope/custom/window_size

---
 src/slams/gmapping/init_gmapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slams/gmapping/init_gmapping.h b/src/slams/gmapping/init_gmapping.h
index 7b17882..718114a 100644
--- a/src/slams/gmapping/init_gmapping.h
+++ b/src/slams/gmapping/init_gmapping.h
@@ -39,7 +39,7 @@ auto init_gmapping_prob_estimator(const PropertiesProvider &props) {
 
   using CustomOOPE = GmappingOccupancyObservationPE;
   auto fullness_th = props.get_dbl(OOPE_Pfx + "custom/fullness_threshold", 0.1);
-  auto window_size = props.get_uint(OOPE_Pfx + "cutrom/window_size", 1);
+  auto window_size = props.get_uint(OOPE_Pfx + "custom/window_size", 1);
   auto oope = std::make_shared<CustomOOPE>(fullness_th, window_size);
   return init_spe(props, oope);
 }
-- 
2.43.0


From dfd96910eea9d3312f0064285ce768c62063ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 15/16] fix: bf_m3rsm.properties names the limits the matcher
 reads

---
 config/common/bf_m3rsm.properties | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/common/bf_m3rsm.properties b/config/common/bf_m3rsm.properties
index 264a906..117c208 100644
--- a/config/common/bf_m3rsm.properties
+++ b/config/common/bf_m3rsm.properties
@@ -6,6 +6,6 @@ slam/scmtch/oope/type=max
 slam/scmtch/BF_M3RSM/accuracy/rotation=0.0017
 slam/scmtch/BF_M3RSM/accuracy/translation=0.05
 # 5 degrees
-slam/scmtch/BF_M3RSM/limit/rotation=0.087
-slam/scmtch/BF_M3RSM/limit/x_translation=1
-slam/scmtch/BF_M3RSM/limit/y_translation=1
\ No newline at end of file
+slam/scmtch/BF_M3RSM/limits/rotation=0.087
+slam/scmtch/BF_M3RSM/limits/x_translation=1
+slam/scmtch/BF_M3RSM/limits/y_translation=1
\ No newline at end of file
-- 
2.43.0


From 9a55f28136ab6360512bc6d147caf7d7453e9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:56 +0000
Subject: [PATCH 16/16] fix: judge a Gmapping observation by the given map and
 observation, not by an earlier one of the same cell

---
 .../gmapping/gmapping_occupancy_observation_pe.h      | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/slams/gmapping/gmapping_occupancy_observation_pe.h b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
index 08f3fe4..72dd1d9 100644
--- a/src/slams/gmapping/gmapping_occupancy_observation_pe.h
+++ b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
@@ -13,16 +13,12 @@ class GmappingOccupancyObservationPE
 public:
   GmappingOccupancyObservationPE(double fullness_th, unsigned window_size)
     : OccupancyObservationProbabilityEstimator{std::make_shared<MockOIE>()}
-    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)}, _cached_prob{-1} {}
+    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)} {}
   double probability(const AreaOccupancyObservation &aoo,
                      const LightWeightRectangle &,
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto sp_coord = map.world_to_cell(aoo.obstacle);
-    if (sp_coord == _cached_coord && _cached_prob != -1) {
-      return _cached_prob;
-    }
-
     double best_prob = 0;
     for (int d_x = -Window_Sz; d_x <= Window_Sz; ++d_x) {
       for (int d_y = -Window_Sz; d_y <= Window_Sz; ++d_y) {
@@ -33,15 +29,12 @@ public:
       }
     }
 
-    _cached_coord = sp_coord;
-    return _cached_prob = best_prob;
+    return best_prob;
   }
 
 private:
   const double Fullness_Th;
   const int Window_Sz;
-  mutable DiscretePoint2D _cached_coord;
-  mutable double _cached_prob;
 };
 
 
-- 
2.43.0

