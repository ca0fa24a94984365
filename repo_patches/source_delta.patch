From 4c394625216cc1e6352869adedca0f14093d3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 01/35] fix: report each lanelet or area once in
 findUsagesInLanelets/findUsagesInAreas

---
 lanelet2_core/src/LaneletMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index ad53b2f..2150211 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -795,6 +795,8 @@ ConstLanelets findUsagesInLanelets(const LaneletMapLayers& map, const ConstPoint
   auto llts = utils::concatenate(ls, [&map](const auto& ls) { return map.laneletLayer.findUsages(ls); });
   auto lltsInv = utils::concatenate(ls, [&map](const auto& ls) { return map.laneletLayer.findUsages(ls.invert()); });
   llts.insert(llts.end(), lltsInv.begin(), lltsInv.end());
+  // the same element can be found through several line strings, not necessarily consecutively
+  std::sort(llts.begin(), llts.end(), [](const auto& e1, const auto& e2) { return e1.id() < e2.id(); });
   auto remove = std::unique(llts.begin(), llts.end());
   llts.erase(remove, llts.end());
   return llts;
@@ -805,6 +807,8 @@ ConstAreas findUsagesInAreas(const LaneletMapLayers& map, const ConstPoint3d& p)
   auto areas = utils::concatenate(ls, [&map](const auto& ls) { return map.areaLayer.findUsages(ls); });
   auto areasInv = utils::concatenate(ls, [&map](const auto& ls) { return map.areaLayer.findUsages(ls.invert()); });
   areas.insert(areas.end(), areasInv.begin(), areasInv.end());
+  // the same element can be found through several line strings, not necessarily consecutively
+  std::sort(areas.begin(), areas.end(), [](const auto& e1, const auto& e2) { return e1.id() < e2.id(); });
   auto remove = std::unique(areas.begin(), areas.end());
   areas.erase(remove, areas.end());
   return areas;
-- 
2.43.0


From 388fb8d77309902e3b395e0c5fb04330319b14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 02/35] fix: register the ids of all elements a map is created
 from

---
 lanelet2_core/src/LaneletMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 2150211..906fbad 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -330,6 +330,7 @@ PrimitiveLayer<T>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
@@ -338,6 +339,7 @@ PrimitiveLayer<Lanelet>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
-- 
2.43.0


From e3370219cc19673b6e6c579845b75d3e00feb94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 03/35] fix: do not index an element twice when it is added to
 a submap again

---
 lanelet2_core/src/LaneletMap.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 906fbad..0ad1814 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -685,34 +685,52 @@ void LaneletMap::add(Point3d point) {
 }
 
 void LaneletSubmap::add(Lanelet lanelet) {
+  if (laneletLayer.exists(lanelet.id())) {
+    return;
+  }
   checkId(lanelet);
   utils::forEach(lanelet.regulatoryElements(), [&](auto& regElem) { this->trackParameters(*regElem); });
   laneletLayer.add(lanelet);
 }
 
 void LaneletSubmap::add(Area area) {
+  if (areaLayer.exists(area.id())) {
+    return;
+  }
   checkId(area);
   utils::forEach(area.regulatoryElements(), [&](auto& regElem) { this->trackParameters(*regElem); });
   areaLayer.add(area);
 }
 
 void LaneletSubmap::add(const RegulatoryElementPtr& regElem) {
+  if (regulatoryElementLayer.exists(regElem->id())) {
+    return;
+  }
   checkId(*regElem);
   trackParameters(*regElem);
   regulatoryElementLayer.add(regElem);
 }
 
 void LaneletSubmap::add(Polygon3d polygon) {
+  if (polygonLayer.exists(polygon.id())) {
+    return;
+  }
   checkId(polygon);
   polygonLayer.add(polygon);
 }
 
 void LaneletSubmap::add(LineString3d lineString) {
+  if (lineStringLayer.exists(lineString.id())) {
+    return;
+  }
   checkId(lineString);
   lineStringLayer.add(lineString);
 }
 
 void LaneletSubmap::add(Point3d point) {
+  if (pointLayer.exists(point.id())) {
+    return;
+  }
   checkId(point);
   pointLayer.add(point);
 }
-- 
2.43.0


From 38b8138b5b143a27db4477b2c3ec94e65cdffb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 04/35] fix: invert the points when move-assigning to an
 inverted line string

---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..b82fda4 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -397,7 +397,7 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Move assign from a normal vector. Id and attributes stay unchanged.
   LineStringImpl& operator=(std::vector<Point3d>&& rhs) {
     if (inverted()) {
-      utils::invert(rhs);
+      std::reverse(rhs.begin(), rhs.end());
     }
     points() = std::move(rhs);
     return *this;
-- 
2.43.0


From af976e4364d6525bd9c827c855ea02081e657c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 05/35] fix: compute the centerline of closed lanelets with a
 single-point bound

---
 lanelet2_core/src/Lanelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/Lanelet.cpp b/lanelet2_core/src/Lanelet.cpp
index 58753ae..cc78fb7 100644
--- a/lanelet2_core/src/Lanelet.cpp
+++ b/lanelet2_core/src/Lanelet.cpp
@@ -194,7 +194,7 @@ std::shared_ptr<ConstLineString3d> calculateCenterline(const ConstLineString2d&
   auto leftCurrent = leftBound.begin();
   auto rightCurrent = rightBound.begin();
   // special handling is required if the first two points are identical (i.e. the lanelet is closed at the beginning)
-  if (*leftCurrent == *rightCurrent) {
+  if (*leftCurrent == *rightCurrent && leftBound.size() > 1 && rightBound.size() > 1) {
     ++leftCurrent;
   }
   while (leftCurrent != leftBound.end() || rightCurrent != rightBound.end()) {
-- 
2.43.0


From 1b6f7c49539a167826330532613dafea30bde711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 06/35] fix: look up all-way-stop stop lines by lanelet
 position even if other lanelets no longer exist

---
 lanelet2_core/src/BasicRegulatoryElements.cpp | 42 ++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/lanelet2_core/src/BasicRegulatoryElements.cpp b/lanelet2_core/src/BasicRegulatoryElements.cpp
index d27909e..a96b861 100644
--- a/lanelet2_core/src/BasicRegulatoryElements.cpp
+++ b/lanelet2_core/src/BasicRegulatoryElements.cpp
@@ -33,6 +33,24 @@ bool findAndErase(const T& primitive, RuleParameterMap& parameters, RoleName rol
   return true;
 }
 
+//! Position of a lanelet within its role. Lanelets that no longer exist are counted, because stop lines are associated
+//! by position.
+Optional<size_t> findLanelet(const RuleParameterMap& parameters, RoleName role, const ConstLanelet& llt) {
+  auto parameterIt = parameters.find(role);
+  if (parameterIt == parameters.end()) {
+    return {};
+  }
+  const auto& parameter = parameterIt->second;
+  auto it = std::find_if(parameter.begin(), parameter.end(), [&llt](const auto& param) {
+    const auto* weakLlt = boost::get<WeakLanelet>(&param);
+    return weakLlt != nullptr && !weakLlt->expired() && weakLlt->lock() == llt;
+  });
+  if (it == parameter.end()) {
+    return {};
+  }
+  return static_cast<size_t>(std::distance(parameter.begin(), it));
+}
+
 template <typename T>
 Optional<T> tryGetFront(const std::vector<T>& vec) {
   if (vec.empty()) {
@@ -376,28 +394,20 @@ LineStrings3d AllWayStop::stopLines() { return getParameters<LineString3d>(RoleN
 
 Optional<ConstLineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) const {
   auto sl = stopLines();
-  if (sl.empty()) {
-    return {};
-  }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto pos = findLanelet(parameters(), RoleName::Yield, llt);
+  if (sl.empty() || !pos) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*pos);
 }
 
 Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
   auto sl = stopLines();
-  if (sl.empty()) {
+  auto pos = findLanelet(parameters(), RoleName::Yield, llt);
+  if (sl.empty() || !pos) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
-    return {};
-  }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*pos);
 }
 
 ConstLineStringsOrPolygons3d AllWayStop::trafficSigns() const {
@@ -416,7 +426,9 @@ bool AllWayStop::removeTrafficSign(const LineStringOrPolygon3d& sign) {
 
 void AllWayStop::addLanelet(const LaneletWithStopLine& lltWithStop) {
   auto sl = stopLines();
-  if (sl.empty() && !lanelets().empty() && !!lltWithStop.stopLine) {
+  auto yieldIt = parameters().find(RoleName::Yield);
+  bool hasLanelets = yieldIt != parameters().end() && !yieldIt->second.empty();
+  if (sl.empty() && hasLanelets && !!lltWithStop.stopLine) {
     throw InvalidInputError("A lanelet with stop line was added, but existing lanelets don't have a stop line!");
   }
   if (!sl.empty() && !lltWithStop.stopLine) {
-- 
2.43.0


From ec59a7bd89f146f77a78b597a712554e7bd86e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 07/35] fix: distance between line strings when a segment has
 no length

---
 lanelet2_core/src/LineStringGeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LineStringGeometry.cpp b/lanelet2_core/src/LineStringGeometry.cpp
index 5cf07b6..110b355 100644
--- a/lanelet2_core/src/LineStringGeometry.cpp
+++ b/lanelet2_core/src/LineStringGeometry.cpp
@@ -71,7 +71,7 @@ std::pair<PointT, PointT> projectedPoint(PointT p1, PointT p2, PointT q1, PointT
 
   auto lp = calculateLineParams(a, b, c, d, e, den);
 
-  if (lp.tN < 0.0) {  // tc < 0 => the t=0 edge is visible
+  if (lp.tN <= 0.0) {  // tc <= 0 => the t=0 edge is visible (always the case if the second segment has no length)
     lp.tN = 0.0;
     // recompute sc for this edge
     if (-d < 0.0) {
-- 
2.43.0


From 610ad590515118904310d379ec9e088bd0fcb789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 08/35] fix: side of a point next to a vertex of long or
 self-touching line strings

---
 .../lanelet2_core/geometry/impl/LineString.h  | 47 ++++++++++++++-----
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index a6461cf..3b89ae0 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -48,6 +48,18 @@ auto findPoint(const LineStringT& ls, const BasicPointT& p) {
   return std::find_if(ls.begin(), ls.end(), [&p](const auto& elem) { return boost::geometry::equals(elem, p); });
 }
 
+// returns an iterator to the first point of the first segment of ls that equals the given segment
+template <typename LineStringT, typename SegmentT>
+auto findSegment(const LineStringT& ls, const SegmentT& segment) {
+  auto first = ls.begin();
+  for (; first != ls.end() && std::next(first) != ls.end(); ++first) {
+    if (boost::geometry::equals(*first, segment.first) && boost::geometry::equals(*std::next(first), segment.second)) {
+      return first;
+    }
+  }
+  return ls.end();
+}
+
 template <typename PointT>
 bool pointIsLeftOf(const PointT& pSeg1, const PointT& pSeg2, const PointT& p) {
   return crossProd(PointT(pSeg2 - pSeg1), PointT(p - pSeg1)).z() > 0;
@@ -79,18 +91,29 @@ bool isLeftOf(const LineStringT& ls, const BasicPointT& p, const ProjectedPointI
   BasicPointT pSeg1 = ppInfo.closestSegment.first;
   BasicPointT pSeg2 = ppInfo.closestSegment.second;
   bool isLeft = pointIsLeftOf(pSeg1, pSeg2, p);
-  if (pSeg2 == ppInfo.projectedPoint) {
-    auto nextSegPointIt = std::next(findPoint(ls, pSeg2));
-    if (nextSegPointIt != ls.end()) {
-      // see stackoverflow.com/questions/10583212
-      BasicPointT nextSegPoint;
-      boost::geometry::convert(*nextSegPointIt, nextSegPoint);
-      if (isLeft != pointIsLeftOf(pSeg2, nextSegPoint, p) && isLeft == pointIsLeftOf(pSeg1, pSeg2, nextSegPoint)) {
-        return !isLeft;
-      }
-    }
-  }
-  return isLeft;
+  const bool atEnd = pSeg2 == ppInfo.projectedPoint;
+  if (!atEnd && pSeg1 != ppInfo.projectedPoint) {
+    return isLeft;
+  }
+  // the point is closest to a vertex, so that the neighbouring segment matters as well
+  auto segIt = findSegment(ls, ppInfo.closestSegment);
+  if (segIt == ls.end() || (!atEnd && segIt == ls.begin())) {
+    return isLeft;
+  }
+  auto neighbourIt = atEnd ? std::next(segIt, 2) : std::prev(segIt);
+  if (neighbourIt == ls.end()) {
+    return isLeft;
+  }
+  BasicPointT neighbour;
+  boost::geometry::convert(*neighbourIt, neighbour);
+  // see stackoverflow.com/questions/10583212
+  if (atEnd) {
+    const bool sharp = isLeft != pointIsLeftOf(pSeg2, neighbour, p) && isLeft == pointIsLeftOf(pSeg1, pSeg2, neighbour);
+    return sharp ? !isLeft : isLeft;
+  }
+  const bool isLeftOfPrevious = pointIsLeftOf(neighbour, pSeg1, p);
+  const bool sharp = isLeftOfPrevious != isLeft && isLeftOfPrevious == pointIsLeftOf(neighbour, pSeg1, pSeg2);
+  return sharp ? !isLeftOfPrevious : isLeftOfPrevious;
 }
 
 std::pair<BasicPoint2d, BasicPoint2d> projectedPoint2d(const ConstHybridLineString2d& l1,
-- 
2.43.0


From 2c468040d3e86dd1ead775165cfbcf2a44d60096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 09/35] fix: arc coordinates on line strings that visit a point
 more than once

---
 lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index 3b89ae0..5b35ac0 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -751,7 +751,8 @@ ArcCoordinates toArcCoordinates(const LineString2dT& lineString, const BasicPoin
   // find first point in segment in linestring
   double length = 0.;
   auto accumulateLength = [&](const auto& first, const auto& second) {
-    if (boost::geometry::equals(first, projectedPoint.closestSegment.first)) {
+    if (boost::geometry::equals(first, projectedPoint.closestSegment.first) &&
+        boost::geometry::equals(second, projectedPoint.closestSegment.second)) {
       return true;
     }
     length += distance(first, second);
-- 
2.43.0


From 7dbc86b34fbbf2c037270f3947e8db3ce95a87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 10/35] fix: distance to the border of a polygon includes the
 closing edge

---
 lanelet2_core/src/LineStringGeometry.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LineStringGeometry.cpp b/lanelet2_core/src/LineStringGeometry.cpp
index 110b355..1ca1026 100644
--- a/lanelet2_core/src/LineStringGeometry.cpp
+++ b/lanelet2_core/src/LineStringGeometry.cpp
@@ -126,9 +126,12 @@ void distForAllSegments(const RangeT& r, Func f) {
   }
   for (auto first = r.begin(), second = r.begin() + 1; second != r.end(); ++first, ++second) {
     if (f(*first, *second) == 0.) {
-      break;
+      return;
     }
   }
+  if (traits::isPolygonT<RangeT>() && r.size() > 1) {
+    f(r.back(), r.front());  // polygons are implicitly closed
+  }
 }
 
 namespace bg = boost::geometry;
-- 
2.43.0


From f9761eb19eb6a39c83cce4b6fcbc04cf4cd9c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 11/35] fix: intersectCenterlines2d measures the second
 distances along the other centerline

---
 lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
index 39a82a0..e522fdd 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
@@ -102,7 +102,7 @@ BasicPoints2d intersectCenterlines2d(const Lanelet1T& lanelet, const Lanelet2T&
   }
   if (distanceOther != nullptr) {
     std::transform(intersections.begin(), intersections.end(), std::back_inserter(*distanceOther),
-                   [&centerline](const auto& elem) { return toArcCoordinates(centerline, elem).length; });
+                   [&otherCenterline](const auto& elem) { return toArcCoordinates(otherCenterline, elem).length; });
   }
   return intersections;
 }
-- 
2.43.0


From 45dbb689a7e0d9195eea6dcf2ea20d64db012437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 12/35] fix: passing between areas requires both areas to be
 passable

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index bbf181b..28ab26e 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -235,7 +235,7 @@ bool GenericTrafficRules::canPass(const ConstArea& from, const ConstLanelet& to)
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstArea& to) const {
-  if (!canPass(from) && canPass(to)) {
+  if (!canPass(from) || !canPass(to)) {
     return false;
   }
   auto line = determineCommonLine(from, to);
-- 
2.43.0


From b8b025b12b4d8b1672a36e32486741aa1618c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 13/35] fix: bus lanes are passable for buses, taxis and
 emergency vehicles

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 28ab26e..346418b 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -331,6 +331,7 @@ Optional<bool> GenericTrafficRules::canPass(const std::string& type, const std::
       {"", {Participants::Vehicle}},
       {Value::Road, {Participants::Vehicle, Participants::Bicycle}},
       {Value::Highway, {Participants::Vehicle}},
+      {Value::BusLane, {Participants::VehicleBus, Participants::VehicleEmergency, Participants::VehicleTaxi}},
       {Value::BicycleLane, {Participants::Bicycle}},
       {Value::PlayStreet, {Participants::Pedestrian, Participants::Bicycle, Participants::Vehicle}},
       {Value::EmergencyLane, {Participants::VehicleEmergency}},
-- 
2.43.0


From 8bd6c02632d4fdfa78b24d024c3d34f581c3e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 14/35] fix: bus lanes have the speed limit of a road

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 346418b..cabea9f 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -266,6 +266,8 @@ SpeedLimitInformation getSpeedLimitFromType(const AttributeMap& attributes, cons
   const static SpeedLimitMap SpeedLimitLookup{
       {{Value::Urban, Value::Road}, &CountrySpeedLimits::vehicleUrbanRoad},
       {{Value::Nonurban, Value::Road}, &CountrySpeedLimits::vehicleNonurbanRoad},
+      {{Value::Urban, Value::BusLane}, &CountrySpeedLimits::vehicleUrbanRoad},
+      {{Value::Nonurban, Value::BusLane}, &CountrySpeedLimits::vehicleNonurbanRoad},
       {{Value::Urban, Value::Highway}, &CountrySpeedLimits::vehicleUrbanHighway},
       {{Value::Nonurban, Value::Highway}, &CountrySpeedLimits::vehicleNonurbanHighway},
       {{Value::Urban, Value::PlayStreet}, &CountrySpeedLimits::playStreet},
-- 
2.43.0


From 40b79ddeda7ac97a5133fec4cd2cff76338894ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 15/35] fix: entering or leaving an area is not a lane change

---
 .../include/lanelet2_routing/internal/ShortestPath.h          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
index 9e67370..ab23276 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
@@ -99,7 +99,9 @@ class DijkstraStyleSearch {
       auto& follower = (*map_)[boost::target(e, g)];
       follower.length = predecessor.length + 1;
       follower.predecessor = boost::source(e, g);
-      follower.numLaneChanges = predecessor.numLaneChanges + (g[e].relation != RelationType::Successor);
+      const auto relation = g[e].relation;
+      const bool laneChange = relation != RelationType::Successor && relation != RelationType::Area;
+      follower.numLaneChanges = predecessor.numLaneChanges + (laneChange ? 1 : 0);
     }
 
    private:
-- 
2.43.0


From 9039cee45d298a914bc7257c1feeb6421c2f9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 16/35] fix: conflicting relations are left out of
 routingRelation when not asked for

---
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 3bdc80a..6520ff2 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -162,7 +162,7 @@ class Graph {
   }
 
   FilteredGraph withoutConflicting(RoutingCostId routingCostId = 0) const {
-    return getFilteredGraph(routingCostId, allRelations() | ~RelationType::Conflicting);
+    return getFilteredGraph(routingCostId, allRelations() & ~RelationType::Conflicting);
   }
 
   inline bool empty() const noexcept { return laneletOrAreaToVertex_.empty(); }
-- 
2.43.0


From 19e5dc83ead9bdb540370db748352c91f5d80766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 17/35] fix: overlapping elements conflict in both directions
 of bidirectional lanelets and areas

---
 .../internal/RoutingGraphBuilder.h            |  1 -
 lanelet2_routing/src/RoutingGraphBuilder.cpp  | 37 ++++++++-----------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
index 92a66d5..2b044ae 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
@@ -55,7 +55,6 @@ class RoutingGraphBuilder {
   void assignCosts(const ConstLaneletOrArea& from, const ConstLaneletOrArea& to, const RelationType& relation);
   std::unique_ptr<RoutingGraphGraph> graph_;
   PointsLaneletMap pointsToLanelets_;  ///< A map of tuples (first or last left and right boundary points) to lanelets
-  std::set<Id> bothWaysLaneletIds_;
   const traffic_rules::TrafficRules& trafficRules_;
   const RoutingCostPtrs& routingCosts_;
   const RoutingGraph::Configuration& config_;
diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 8d2c606..3c57811 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -126,7 +126,6 @@ void RoutingGraphBuilder::appendBidirectionalLanelets(ConstLanelets& llts) {
   for (auto& ll : llts) {
     if (trafficRules_.canPass(ll.invert())) {
       invLanelets.push_back(ll.invert());
-      bothWaysLaneletIds_.emplace(ll.id());
     }
   }
   llts.insert(llts.end(), invLanelets.begin(), invLanelets.end());
@@ -216,26 +215,17 @@ void RoutingGraphBuilder::addSidewayEdge(LaneChangeLaneletsCollector& laneChange
 void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const LaneletLayer& passableLanelets) {
   // Conflicting
   ConstLanelets results = passableLanelets.search(geometry::boundingBox2d(ll));
-  ConstLanelet other;
+  auto maxHeight = participantHeight();
   for (auto& result : results) {
-    if (bothWaysLaneletIds_.find(ll.id()) != bothWaysLaneletIds_.end() && result == ll) {
-      other = result.invert();
-      assignCosts(ll, other, RelationType::Conflicting);
-      assignCosts(other, ll, RelationType::Conflicting);
-      continue;
-    }
-    other = result;
-    if (hasEdge(ll, result)) {
-      continue;
-    }
-    auto vertex = graph_->getVertex(other);
-    if (!vertex || result == ll) {
-      continue;
-    }
-    auto maxHeight = participantHeight();
-    if ((maxHeight && geometry::overlaps3d(ll, other, *maxHeight)) || (!maxHeight && geometry::overlaps2d(ll, other))) {
-      assignCosts(ll, other, RelationType::Conflicting);
-      assignCosts(other, ll, RelationType::Conflicting);
+    for (auto& other : {result, result.invert()}) {
+      if (other == ll || !graph_->getVertex(other) || hasEdge(ll, other)) {
+        continue;
+      }
+      if (other == ll.invert() || (maxHeight && geometry::overlaps3d(ll, other, *maxHeight)) ||
+          (!maxHeight && geometry::overlaps2d(ll, other))) {
+        assignCosts(ll, other, RelationType::Conflicting);
+        assignCosts(other, ll, RelationType::Conflicting);
+      }
     }
   }
 }
@@ -291,7 +281,12 @@ void RoutingGraphBuilder::addAreaEdge(const ConstArea& area, const LaneletLayer&
     auto maxHeight = participantHeight();
     if ((maxHeight && geometry::overlaps3d(area, candidate, *maxHeight)) ||
         (!maxHeight && geometry::overlaps2d(area, candidate))) {
-      assignCosts(candidate, area, RelationType::Conflicting);
+      for (auto& other : {candidate, candidate.invert()}) {
+        if (graph_->getVertex(other)) {
+          assignCosts(area, other, RelationType::Conflicting);
+          assignCosts(other, area, RelationType::Conflicting);
+        }
+      }
     }
   }
 }
-- 
2.43.0


From 2c0c0c43ed9c6db6390d3e3a87282516c09c6074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 18/35] fix: the stretch a lane change is costed over does not
 depend on lanelet ids

---
 .../internal/RoutingGraphBuilder.h            |   2 +-
 lanelet2_routing/src/RoutingGraphBuilder.cpp  | 101 +++++++-----------
 2 files changed, 38 insertions(+), 65 deletions(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
index 2b044ae..341b427 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
@@ -46,7 +46,7 @@ class RoutingGraphBuilder {
   //! Adds the first and last points of a lanelet to the search index
   void addPointsToSearchIndex(const ConstLanelet& ll);
   bool hasEdge(const ConstLanelet& from, const ConstLanelet& to);
-  void assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation);
+  void assignLaneChangeCosts(const ConstLanelets& froms, const ConstLanelets& tos, const RelationType& relation);
 
   /** @brief Assigns routing costs of each routing cost module to a relation between two lanelets
    *  @param from Start lanelet
diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 3c57811..286800d 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -5,6 +5,7 @@
 #include <lanelet2_core/geometry/Lanelet.h>
 
 #include <unordered_map>
+#include <unordered_set>
 
 #include "lanelet2_routing/Exceptions.h"
 #include "lanelet2_routing/RoutingGraph.h"
@@ -19,69 +20,49 @@ inline IdPair orderedIdPair(const Id id1, const Id id2) { return (id1 < id2) ? I
 
 //! This class collects lane changable lanelets and combines them to a sequence of adjacent lanechangable lanelets
 class LaneChangeLaneletsCollector {
-  struct LaneChangeInfo {
-    ConstLanelet target;
-    bool visited;
-  };
-  using LaneChangeMap = std::unordered_map<ConstLanelet, LaneChangeInfo>;
+  using LaneChangeMap = std::unordered_map<ConstLanelet, ConstLanelet>;
 
  public:
   using LaneChangeLanelets = std::pair<ConstLanelets, ConstLanelets>;
 
   LaneChangeLaneletsCollector() = default;
   void add(ConstLanelet from, ConstLanelet to) {
-    laneChanges_.emplace(std::move(from), LaneChangeInfo{std::move(to), false});
+    laneChanges_.emplace(std::move(from), std::move(to));
     currPos_ = laneChanges_.begin();
   }
 
-  template <typename Func1, typename Func2>
-  Optional<LaneChangeLanelets> getNextChangeLanelets(Func1&& prev, Func2&& next) {
-    for (; currPos_ != laneChanges_.end() && currPos_->second.visited; ++currPos_) {
-    }
+  //! Returns the next lane change, together with the lane changes that are possible ahead of it on the same two lanes
+  template <typename Func>
+  Optional<LaneChangeLanelets> getNextChangeLanelets(Func&& next) {
     if (currPos_ == laneChanges_.end()) {
       return {};
     }
-    return getLaneChangeLanelets(currPos_, std::forward<Func1>(prev), std::forward<Func2>(next));
+    return getLaneChangeLanelets(currPos_++, std::forward<Func>(next));
   }
 
  private:
-  template <typename Func1, typename Func2>
-  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& prev, Func2&& next) {
-    iter->second.visited = true;
-    auto followers = getAdjacentLaneChangeLanelets(iter, std::forward<Func2>(next));
-    auto predecessors = getAdjacentLaneChangeLanelets(iter, std::forward<Func1>(prev));
-    std::reverse(predecessors.first.begin(), predecessors.first.end());
-    std::reverse(predecessors.second.begin(), predecessors.second.end());
-    std::pair<ConstLanelets, ConstLanelets> result;
-    result.first = utils::concatenate({predecessors.first, ConstLanelets{iter->first}, followers.first});
-    result.second = utils::concatenate({predecessors.second, ConstLanelets{iter->second.target}, followers.second});
-    return result;
-  }
-
-  template <typename Func1>
-  LaneChangeLanelets getAdjacentLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& adjacent) {
-    std::pair<ConstLanelets, ConstLanelets> successors;
-    while (true) {
-      auto nextSourceLlts = adjacent(iter->first);
-      auto nextTargetLlts = adjacent(iter->second.target);
+  template <typename Func>
+  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::const_iterator start, Func&& next) const {
+    LaneChangeLanelets result;
+    std::unordered_set<ConstLanelet> visited;
+    for (auto iter = start; visited.insert(iter->first).second;) {
+      result.first.push_back(iter->first);
+      result.second.push_back(iter->second);
+      auto nextSourceLlts = next(iter->first);
+      auto nextTargetLlts = next(iter->second);
       if (nextSourceLlts.size() != 1 || nextTargetLlts.size() != 1) {
         break;
       }
-      ConstLanelet& nextSourceLlt = nextSourceLlts.front();
-      ConstLanelet& nextTargetLlt = nextTargetLlts.front();
-      iter = laneChanges_.find(nextSourceLlt);
-      if (iter == laneChanges_.end() || iter->second.visited || iter->second.target != nextTargetLlt) {
+      iter = laneChanges_.find(nextSourceLlts.front());
+      if (iter == laneChanges_.end() || iter->second != nextTargetLlts.front()) {
         break;
       }
-      iter->second.visited = true;
-      successors.first.push_back(nextSourceLlt);
-      successors.second.push_back(nextTargetLlt);
     }
-    return successors;
+    return result;
   }
 
   LaneChangeMap laneChanges_;
-  LaneChangeMap::iterator currPos_{laneChanges_.end()};
+  LaneChangeMap::const_iterator currPos_{laneChanges_.end()};
 };
 
 RoutingGraphBuilder::RoutingGraphBuilder(const traffic_rules::TrafficRules& trafficRules,
@@ -231,27 +212,20 @@ void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const Lanel
 }
 
 void RoutingGraphBuilder::addLaneChangeEdges(LaneChangeLaneletsCollector& laneChanges, const RelationType& relation) {
-  auto getSuccessors = [this](auto beginEdgeIt, auto endEdgeIt, auto getVertex) {
+  auto next = [this](const ConstLanelet& llt) {
     ConstLanelets nexts;
-    for (; beginEdgeIt != endEdgeIt; ++beginEdgeIt) {
-      auto& edgeInfo = graph_->get()[*beginEdgeIt];
+    auto edges = boost::out_edges(*graph_->getVertex(llt), graph_->get());
+    for (auto edgeIt = edges.first; edgeIt != edges.second; ++edgeIt) {
+      auto& edgeInfo = graph_->get()[*edgeIt];
       if (edgeInfo.relation == RelationType::Successor && edgeInfo.costId == 0) {
-        nexts.push_back(graph_->get()[getVertex(*beginEdgeIt, graph_->get())].lanelet());
+        nexts.push_back(graph_->get()[boost::target(*edgeIt, graph_->get())].lanelet());
       }
     }
     return nexts;
   };
-  auto next = [this, &getSuccessors](const ConstLanelet& llt) {
-    auto edges = boost::out_edges(*graph_->getVertex(llt), graph_->get());
-    return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::target(edge, g); });
-  };
-  auto prev = [this, &getSuccessors](const ConstLanelet& llt) {
-    auto edges = boost::in_edges(*graph_->getVertex(llt), graph_->get());
-    return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::source(edge, g); });
-  };
   Optional<LaneChangeLaneletsCollector::LaneChangeLanelets> laneChangeLanelets;
-  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(prev, next))) {
-    assignLaneChangeCosts(std::move(laneChangeLanelets->first), std::move(laneChangeLanelets->second), relation);
+  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(next))) {
+    assignLaneChangeCosts(laneChangeLanelets->first, laneChangeLanelets->second, relation);
   }
 }
 
@@ -333,20 +307,19 @@ bool RoutingGraphBuilder::hasEdge(const ConstLanelet& from, const ConstLanelet&
   return !!graph_->getEdgeInfo(from, to);
 }
 
-void RoutingGraphBuilder::assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation) {
+void RoutingGraphBuilder::assignLaneChangeCosts(const ConstLanelets& froms, const ConstLanelets& tos,
+                                                const RelationType& relation) {
   assert(relation == RelationType::Left || relation == RelationType::Right);
   assert(froms.size() == tos.size());
-  for (; !froms.empty(); froms.erase(froms.begin()), tos.erase(tos.begin())) {
-    for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
-      auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
-      if (!std::isfinite(cost)) {
-        // if the costs are infinite, we add an adjacent edge instead
-        auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
-        graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
-        continue;
-      }
-      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
+  for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
+    auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
+    if (!std::isfinite(cost)) {
+      // if the costs are infinite, we add an adjacent edge instead
+      auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
+      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
+      continue;
     }
+    graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
   }
 }
 
-- 
2.43.0


From 3525a6353cba41dc1be6aa2db462346e20445c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 19/35] fix: left and right relations of lanelets outside the
 route are empty

---
 lanelet2_routing/src/Route.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 380affd..899db20 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -267,6 +267,9 @@ Optional<LaneletRelation> Route::leftRelation(const ConstLanelet& lanelet) const
 LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowLeft();
   std::tie(next, type) = getNextVertex(*next, g);
@@ -288,6 +291,9 @@ Optional<LaneletRelation> Route::rightRelation(const ConstLanelet& lanelet) cons
 LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowRight();
   std::tie(next, type) = getNextVertex(*next, g);
-- 
2.43.0


From ee1cda844fc022994bce27b4830f263489f0ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 20/35] fix: remaining shortest path of a route of one lanelet

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 899db20..83ad532 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -142,7 +142,7 @@ LaneletPath Route::remainingShortestPath(const ConstLanelet& ll) const {
   if (iter == shortestPath_.end()) {
     return LaneletPath{};
   }
-  if (!shortestPath_.empty() && shortestPath_.front() == shortestPath_.back()) {  // circular
+  if (shortestPath_.size() > 1 && shortestPath_.front() == shortestPath_.back()) {  // circular
     ConstLanelets llts{shortestPath_.begin(), shortestPath_.end()};
     llts.pop_back();
     std::rotate(llts.begin(), llts.begin() + std::distance(shortestPath_.begin(), iter), llts.end());
-- 
2.43.0


From 7b3626383fbdf495a45999fb49c0bc5dc95ab69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 21/35] fix: Route::checkValidity reports inconsistent
 relations, not consistent ones

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 83ad532..e906a90 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -359,7 +359,7 @@ bool Route::contains(const ConstLanelet& lanelet) const { return !!graph_->getVe
 
 template <RelationType Expect>
 void checkRelationIs(Route::Errors& errors, Id source, Id dest, RelationType sourceRel, RelationType targetRel) {
-  if ((Expect & targetRel) != RelationType::None) {
+  if ((Expect & targetRel) == RelationType::None) {
     auto sourceStr = std::to_string(source);
     auto destStr = std::to_string(dest);
     errors.emplace_back("Lanelet " + sourceStr + " is " + relationToString(sourceRel) + "of/with " + destStr +
-- 
2.43.0


From b6139aee292cbebde4e1c16540e8b35640aafa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 22/35] fix: loops without a way back do not become part of a
 route

---
 lanelet2_routing/src/RouteBuilder.cpp | 29 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 2634693..b26b1f8 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -58,16 +58,25 @@ class VisitedLaneletGraph {
     }
   }
 
-  //! Prunes all leafs if this graph except for the lanelet llt
-  void pruneLeafsExcluding(LaneletVertexId llt, const NextToRouteGraph& g) {
-    bool progress = true;
-    while (progress) {
-      progress = false;
-      for (auto& vertex : visited_) {
-        if (vertex.first == llt || !vertex.second || !vertex.second->isLeaf()) {
-          continue;
+  //! Removes all lanelets from this graph that do not lead to the lanelet llt. This also removes loops without a way
+  //! back to the route.
+  void pruneLaneletsNotLeadingTo(LaneletVertexId llt, const NextToRouteGraph& g) {
+    std::set<LaneletVertexId> leading{llt};
+    std::vector<LaneletVertexId> queue{llt};
+    while (!queue.empty()) {
+      auto inEdges = boost::in_edges(queue.back(), g);
+      const auto isOnRoute = has(*routeLanelets_, queue.back());
+      queue.pop_back();
+      std::for_each(inEdges.first, inEdges.second, [&](NextToRouteGraph::edge_descriptor e) {
+        auto vertex = visited_.find(boost::source(e, g));
+        auto isValidStep = g[e].relation == RelationType::Successor || isOnRoute;
+        if (isValidStep && vertex != visited_.end() && !!vertex->second && leading.insert(vertex->first).second) {
+          queue.push_back(vertex->first);
         }
-        progress = true;
+      });
+    }
+    for (auto& vertex : visited_) {
+      if (!!vertex.second && !has(leading, vertex.first)) {
         remove(vertex, g);
       }
     }
@@ -396,7 +405,7 @@ class RouteUnderConstruction {
     breadthFirstSearch(nextToRouteGraph_, begin_, NeighbouringGraphVisitor{laneletVisitor_});
 
     // remove lanelets that do not lead to end_ from the graph
-    laneletVisitor_.pruneLeafsExcluding(end_, nextToRouteGraph_);
+    laneletVisitor_.pruneLaneletsNotLeadingTo(end_, nextToRouteGraph_);
 
     // remove lanelets that (temporarily) leave the route from the graph
     pathOutOfRouteFinder_.forEachVertexOutOfRoute(
-- 
2.43.0


From 5f751c0d85d2b558923b3d62febaee54bd0d5223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 23/35] fix: routes that pass their destination on the way are
 not cut off there

---
 lanelet2_routing/src/RouteBuilder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index b26b1f8..736869a 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -179,7 +179,13 @@ RouteLanelets lastLanelets(const std::vector<LaneletVertexId>& initialRoute, con
   if (initialRoute.empty() || initialRoute.front() == initialRoute.back()) {
     return {};
   }
-  return getLeftAndRightLanelets(initialRoute.back(), originalGraph);
+  auto last = getLeftAndRightLanelets(initialRoute.back(), originalGraph);
+  auto isLast = [&last](auto v) { return has(last, v); };
+  auto arrival = std::find_if(initialRoute.begin(), initialRoute.end(), isLast);
+  if (!std::all_of(arrival, initialRoute.end(), isLast)) {
+    return {};  // the route passes its destination on its way, so it must not be cut off there
+  }
+  return last;
 }
 
 //! The visited lanelet graph initially also contains lanelets that are always conflicting with the route, but the route
-- 
2.43.0


From 30b7e14c0ca4dfc5936e7412939d315cacce4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 24/35] fix: holes of loaded areas are counter-clockwise

---
 lanelet2_io/src/OsmHandlerLoad.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 4e1f6a6..6e04ad3 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -23,8 +23,11 @@ namespace {
 // register with factories
 RegisterParser<OsmParser> regParser;
 using traits::to2D;
-bool isValid(const LineStrings3d& lss) {
+bool isValid(const LineStrings3d& lss, bool clockwise) {
   BasicPolygon2d ls(utils::concatenate(lss, [](const auto& elem) { return to2D(elem).basicLineString(); }));
+  if (!clockwise) {
+    std::reverse(ls.begin(), ls.end());
+  }
   return boost::geometry::is_valid(ls);
 }
 
@@ -275,7 +278,7 @@ class FromFileLoader {  // NOLINT
       parserError(area.id, "Areas must have at least one outer border!");
       return {};
     }
-    auto outerRings = assembleBoundary(outerLs, area.id);
+    auto outerRings = assembleBoundary(outerLs, area.id, true);
     if (outerRings.size() != 1) {
       parserError(area.id, "Areas must have exactly one outer ring!");
       return {};
@@ -285,7 +288,7 @@ class FromFileLoader {  // NOLINT
 
   std::vector<LineStrings3d> getInnerRing(const osm::Relation& area) {
     auto innerLs = getLinestrings(area.members, RoleNameString::Inner, area.id);
-    return assembleBoundary(innerLs, area.id);
+    return assembleBoundary(innerLs, area.id, false);
   }
 
   RuleParameterMap getRulesForRegulatoryElement(Id currElemId, const osm::Roles& roles) {
@@ -329,7 +332,7 @@ class FromFileLoader {  // NOLINT
     return rules;
   }
 
-  std::vector<LineStrings3d> assembleBoundary(LineStrings3d lineStrings, Id id) {
+  std::vector<LineStrings3d> assembleBoundary(LineStrings3d lineStrings, Id id, bool clockwise) {
     std::reverse(lineStrings.begin(), lineStrings.end());  // its easier to pop from a vector...
     std::vector<LineStrings3d> rings;
     rings.emplace_back(LineStrings3d());
@@ -360,10 +363,10 @@ class FromFileLoader {  // NOLINT
 
       // check if we closed the ring
       if (currRing.back().back().id() == currRing.front().front().id()) {
-        // wohoo. Check the clockwise requirement.
-        if (!isValid(currRing)) {
+        // wohoo. Check the orientation requirement: outer bounds are clockwise, holes are counter-clockwise.
+        if (!isValid(currRing, clockwise)) {
           reverse(currRing);
-          if (!isValid(currRing)) {
+          if (!isValid(currRing, clockwise)) {
             // most probably self-intersecting...
             parserError(id, "Failed to generate boundary (self-intersecting?)");
             rings.pop_back();
-- 
2.43.0


From fe9f6d3f6f30cf6781bc5a65027d66ba77f58a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 25/35] fix: members of unknown type are reported when reading
 osm files

---
 lanelet2_io/src/OsmFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 55df1bf..1d5f5af 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -279,6 +279,8 @@ class OsmFileParser {
             // insert a placeholder and store a pointer to it for the second pass
             roles.emplace_back(role, nullptr);
             unresolvedRoles.push_back(UnresolvedRole{id, memberId, &roles.back().second});
+          } else {
+            reportParseError(id, "Relation has member " + std::to_string(memberId) + " of unknown type '" + type + "'");
           }
         } catch (std::out_of_range&) {
           reportParseError(id, "Relation has nonexistent member " + std::to_string(memberId));
-- 
2.43.0


From 000e7a0752218a12bddad12014912ac888e686fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 26/35] fix: unclosed borders of areas are reported when
 loading osm files

---
 lanelet2_io/src/OsmHandlerLoad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 6e04ad3..c16d9a4 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -375,6 +375,9 @@ class FromFileLoader {  // NOLINT
         rings.emplace_back(LineStrings3d());
       }
     }
+    if (!rings.back().empty()) {
+      parserError(id, "Could not complete boundary around linestring " + std::to_string(rings.back().back().id()));
+    }
     rings.pop_back();  // last ring will be empty or invalid
     return rings;
   }
-- 
2.43.0


From 89eb9ecb27c656adc7b4e99b66c7f4587ee4e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 27/35] fix: several missing references of a regulatory element
 when writing osm files

---
 lanelet2_io/src/OsmHandlerWrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index a397ea4..2b3c02b 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -29,7 +29,8 @@ void removeAndFixPlaceholders(osm::Primitive** toRemove, osm::Roles& fromRoles,
   std::vector<std::pair<size_t, osm::Primitive**>> placeholderLocations;
   for (auto it = fromRoles.begin(); it != fromRoles.end(); ++it) {
     if (it->second == nullptr && remIt != it) {
-      placeholderLocations.emplace_back(std::distance(fromRoles.begin(), it), &it->second);
+      auto idx = std::distance(fromRoles.begin(), it);
+      placeholderLocations.emplace_back(it > remIt ? idx - 1 : idx, &it->second);
     }
   }
   fromRoles.erase(remIt);
-- 
2.43.0


From ef32c10fa2366ec4ee50674d1cfb2e856af57e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 28/35] fix: points_too_close misses points when others are
 stacked above or below

---
 lanelet2_validation/src/validators/PointsTooClose.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lanelet2_validation/src/validators/PointsTooClose.cpp b/lanelet2_validation/src/validators/PointsTooClose.cpp
index 05d5186..e7d37ad 100644
--- a/lanelet2_validation/src/validators/PointsTooClose.cpp
+++ b/lanelet2_validation/src/validators/PointsTooClose.cpp
@@ -8,18 +8,21 @@ namespace lanelet {
 namespace validation {
 namespace {
 RegisterMapValidator<PointsTooCloseChecker> reg;
+constexpr double MinDistance = 0.05;
 }  // namespace
 
 Issues PointsTooCloseChecker::operator()(const lanelet::LaneletMap& map) {
   Issues issues;
   for (const auto& p : map.pointLayer) {
-    auto nearest = map.pointLayer.nearest(utils::to2D(p).basicPoint(), 2);
-    if (nearest.size() == 2) {
-      auto& next = nearest[0] == p ? nearest[1] : nearest[0];
-      if (geometry::distance(p, next) < 0.05) {
+    // the nearest point in 2d might be far above or below, so all points around have to be considered
+    const BasicPoint2d pos = utils::to2D(p).basicPoint();
+    const BasicPoint2d offset(MinDistance, MinDistance);
+    for (const auto& next : map.pointLayer.search(BoundingBox2d(pos - offset, pos + offset))) {
+      if (next != p && geometry::distance(p, next) < MinDistance) {
         issues.emplace_back(
             Severity::Warning, Primitive::Point, p.id(),
             "Point is very close to point " + std::to_string(next.id()) + ". This can lead to defects in the map");
+        break;
       }
     }
   }
-- 
2.43.0


From 8d724384be8f051ec658eb24c4d61a9b0797abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 29/35] fix: findNearest with a count of zero read past the end

The stop criterion looked at the last element found although none is kept.
---
 lanelet2_core/src/LaneletMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 0ad1814..a6d3c52 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -996,7 +996,7 @@ auto findNearestImpl(LayerT&& map, const BasicPoint2d& pt, unsigned count) {
   NSmallestElements<RetT> closest(count);
   auto searchFunction = [&closest, &pt](auto& box, const RetT& prim) {
     auto dBox = distance(box, pt);
-    if (closest.full() && dBox > closest.values().back().first) {
+    if (closest.full() && (closest.empty() || dBox > closest.values().back().first)) {
       return true;
     }
     closest.insert(distance2d(prim, pt), prim);
-- 
2.43.0


From edc83dbd0d784d10ddc68ed18bb8e3f6186690b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 30/35] fix: concurrent reads of an attribute could access a
 cache that another reader had replaced

---
 lanelet2_core/src/Attribute.cpp | 41 ++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index bac48c3..4c6c9ab 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -37,12 +37,17 @@ T store(std::shared_ptr<Attribute::Cache>& cache, T&& value) {
 }
 
 template <typename T>
-T* load(const std::shared_ptr<Attribute::Cache>& cache) {
+Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
+  // other threads can replace the cache at any time: only the loaded object stays valid, and only while we hold it
   auto c = std::atomic_load_explicit(&cache, std::memory_order_acquire);
   if (!c) {
-    return nullptr;
+    return {};
+  }
+  const auto* value = boost::get<T>(c.get());
+  if (value == nullptr) {
+    return {};
   }
-  return boost::get<T>(&*cache);
+  return *value;
 }
 }  // namespace
 
@@ -60,9 +65,9 @@ Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQu
 
 Optional<bool> Attribute::asBool() const {
   // try load from cache
-  auto* val = load<bool>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<bool>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   try {
@@ -80,9 +85,9 @@ Optional<bool> Attribute::asBool() const {
 
 Optional<double> Attribute::asDouble() const {
   // try load from cache
-  auto* val = load<double>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<double>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   try {
@@ -94,9 +99,9 @@ Optional<double> Attribute::asDouble() const {
 
 Optional<Id> Attribute::asId() const {
   // try load from cache
-  auto* val = load<Id>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<Id>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   try {
@@ -108,9 +113,9 @@ Optional<Id> Attribute::asId() const {
 
 Optional<int> Attribute::asInt() const {
   // try load from cache
-  auto* val = load<int>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<int>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   try {
@@ -122,9 +127,9 @@ Optional<int> Attribute::asInt() const {
 
 Optional<Velocity> Attribute::asVelocity() const {
   // try load from cache
-  auto* val = load<Velocity>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<Velocity>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   auto asD = asDouble();
-- 
2.43.0


From 94234544cf96f214880b4bcb8b24dca11b5a3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 31/35] fix: copying an attribute while another thread reads it
 was a data race

---
 lanelet2_core/include/lanelet2_core/Attribute.h | 5 +++++
 lanelet2_core/src/Attribute.cpp                 | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/Attribute.h b/lanelet2_core/include/lanelet2_core/Attribute.h
index 6319eda..dea777a 100644
--- a/lanelet2_core/include/lanelet2_core/Attribute.h
+++ b/lanelet2_core/include/lanelet2_core/Attribute.h
@@ -37,6 +37,11 @@ class Attribute {
   using Cache = boost::variant<bool, double, Id, int, Velocity>;
 
   Attribute() = default;
+  Attribute(const Attribute& rhs);  // other threads might be updating the cache of rhs
+  Attribute(Attribute&& rhs) = default;
+  Attribute& operator=(const Attribute& rhs);
+  Attribute& operator=(Attribute&& rhs) = default;
+  ~Attribute() = default;
   Attribute(const std::string& value) : value_{value} {}        // NOLINT
   Attribute(std::string&& value) : value_{std::move(value)} {}  // NOLINT
   Attribute(const char* value) : value_(value) {}               // NOLINT
diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index 4c6c9ab..2184de8 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -51,6 +51,15 @@ Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
 }
 }  // namespace
 
+Attribute::Attribute(const Attribute& rhs)
+    : value_{rhs.value_}, cache_{std::atomic_load_explicit(&rhs.cache_, std::memory_order_acquire)} {}
+
+Attribute& Attribute::operator=(const Attribute& rhs) {
+  value_ = rhs.value_;
+  cache_ = std::atomic_load_explicit(&rhs.cache_, std::memory_order_acquire);
+  return *this;
+}
+
 Attribute::Attribute(Id value) : value_(std::to_string(value)) { store(cache_, value); }
 
 Attribute::Attribute(bool value) : value_(std::to_string(int(value))) { store(cache_, value); }
-- 
2.43.0


From 2e24bf46e5f4aad87e06194c96c558c2005f3a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 32/35] fix: text that merely contains a velocity unit was read
 as a velocity in that unit

---
 lanelet2_core/src/Attribute.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index 2184de8..9e3a4ed 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -16,14 +16,14 @@ Optional<Velocity> getUnit(const std::string& value, size_t pos) {
   }
   auto unit = value.substr(pos);
   const auto flags = std::regex::ECMAScript;
-  // try to match unit
-  if (std::regex_search(unit, std::regex("\\s*(m/s)|(mps)", flags))) {
+  // try to match unit. The whole remaining text has to be the unit: "kmph" must not be read as "mph".
+  if (std::regex_match(unit, std::regex("\\s*(m/s|mps)\\s*", flags))) {
     return 1_mps;
   }
-  if (std::regex_search(unit, std::regex("\\s*(km/h)|(kmh)", flags))) {
+  if (std::regex_match(unit, std::regex("\\s*(km/h|kmh)\\s*", flags))) {
     return 1_kmh;
   }
-  if (std::regex_search(unit, std::regex("\\s*(m/h)|(mph)", flags))) {
+  if (std::regex_match(unit, std::regex("\\s*(m/h|mph)\\s*", flags))) {
     return 1_mph;
   }
   return {};
-- 
2.43.0


From 8dbb9f7f53fee52949e2bf059f40f0904fa82810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:41 +0000
Subject: [PATCH 33/35] fix: offsetting a line string to the right cut sharp
 corners behind the corner and did not detect inversions

---
 .../include/lanelet2_core/geometry/impl/LineString.h          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index 5b35ac0..c533e0a 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -449,7 +449,7 @@ inline void checkForInversion(const LineString2dT& oldLS, const BasicLineString2
   for (const auto& p : offsetLS) {
     auto it = tree.qbegin(internal::bgi::nearest(p, 1));
     auto pd = geometry::distance2d(BasicLineString2d{it->first, it->second}, p);
-    if (pd + epsilon < distance) {
+    if (pd + epsilon < std::fabs(distance)) {
       throw GeometryError("Possible Lanelet Inversion");
     }
   }
@@ -499,7 +499,7 @@ inline BasicLineString2d shiftConvexSharp(const LineString2dT& lineString, const
   BasicPoint2d firstP = shiftPerpendicular(lineString, idx, distance, true, pv);
   BasicPoint2d lastP = shiftPerpendicular(lineString, idx, distance, false, pv);
   auto alpha = M_PI - std::acos(pv.following.dot(pv.preceding) / (pv.preceding.norm() * pv.following.norm()));
-  auto overshoot = distance * std::tan(M_PI_4 - alpha / 4);
+  auto overshoot = std::fabs(distance) * std::tan(M_PI_4 - alpha / 4);  // the corner is cut in front of it on either side
   return {firstP + pv.preceding.normalized() * overshoot, lastP - pv.following.normalized() * overshoot};
 }
 
-- 
2.43.0


From 57059c074e1a157ad29ca3f146d6feab0a753f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 34/35] fix: joining offset segments started over when an
 offset part is entered behind its first segment

---
 lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index c533e0a..22720cb 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -606,7 +606,8 @@ inline BasicLineString2d joinSubStrings(const std::vector<BasicLineString2d>& co
   size_t idx = 0;
   while (i < convexSubStrings.size()) {
     const auto& ls = convexSubStrings.at(i);
-    for (size_t j = 0; j + 1 < ls.size(); ++j) {
+    // the walk can enter a substring at any of its segments
+    for (size_t j = segMap.at(idx).segmentIdx; j + 1 < ls.size(); ++j) {
       BasicSegment2d curSeg{ls.at(j), ls.at(j + 1)};
       auto curSegIntersections = getSelfIntersectionsAt(tree, idx, curSeg);
       auto np = findNextPoint(curSegIntersections, curSeg, lastS, idx);
-- 
2.43.0


From 0c8e5608ab035621782e70d487e1df2d5d767712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 35/35] fix: intersects3d compared positions far from the
 crossing for sloped line strings

---
 .../lanelet2_core/geometry/impl/LineString.h  | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index 22720cb..a6ff6bc 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -628,6 +628,27 @@ inline BasicLineString2d joinSubStrings(const std::vector<BasicLineString2d>& co
   return newLS;
 }
 
+/**
+ * @brief heights of a line string at a 2d position that lies on it (one for every segment that passes through it)
+ */
+template <typename LineString3dT>
+std::vector<double> heightsAt(const LineString3dT& lineString, const BasicPoint2d& position) {
+  constexpr double Epsilon = 1.e-6;
+  std::vector<double> heights;
+  for (size_t i = 0; i + 1 < lineString.size(); ++i) {
+    const BasicPoint3d first = utils::toBasicPoint(lineString[i]);
+    const BasicPoint3d second = utils::toBasicPoint(lineString[i + 1]);
+    const BasicPoint2d direction = (second - first).head<2>();
+    const BasicPoint2d offset = position - first.head<2>();
+    const auto squaredLength = direction.squaredNorm();
+    const auto ratio = squaredLength > 0. ? std::min(1., std::max(0., offset.dot(direction) / squaredLength)) : 0.;
+    if ((offset - ratio * direction).norm() < Epsilon) {
+      heights.push_back(first.z() + ratio * (second.z() - first.z()));
+    }
+  }
+  return heights;
+}
+
 }  // namespace internal
 
 template <typename LineStringIterator>
@@ -803,9 +824,12 @@ IfLS<LineString3dT, bool> intersects3d(const LineString3dT& linestring, const Li
   BasicPoints2d intersections;
   boost::geometry::intersection(ls2d, ols2d, intersections);
   auto distanceSmallerTolerance = [heightTolerance, &linestring, &otherLinestring](const auto& point) {
-    auto pProj1 = project(linestring, BasicPoint3d(point.x(), point.y(), 0));
-    auto pProj2 = project(otherLinestring, BasicPoint3d(point.x(), point.y(), 0));
-    return distance(pProj1, pProj2) < heightTolerance;
+    auto heights = internal::heightsAt(linestring, point);
+    auto otherHeights = internal::heightsAt(otherLinestring, point);
+    return std::any_of(heights.begin(), heights.end(), [&](double z) {
+      return std::any_of(otherHeights.begin(), otherHeights.end(),
+                         [&](double otherZ) { return std::fabs(z - otherZ) < heightTolerance; });
+    });
   };
   return std::any_of(intersections.begin(), intersections.end(), distanceSmallerTolerance);
 }
-- 
2.43.0

