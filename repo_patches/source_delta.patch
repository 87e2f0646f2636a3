From 01e9020e302372ef2f6c52534784a53d375b7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 01/69] fix: give every bulk-loaded leaf its own entry slice

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 0282fce..dc1485d 100644
--- a/rtree.go
+++ b/rtree.go
@@ -188,7 +188,7 @@ func (tree *Rtree) omt(level, nSlices int, objs []entry, m int) *node {
 		}
 		return &node{
 			leaf:    true,
-			entries: objs,
+			entries: append([]entry(nil), objs...),
 			level:   level,
 		}
 	}
-- 
2.43.0


From ebcab00328f779bfdf33304c547636616906ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 02/69] fix: Rtree.Delete compares slice-backed geometries
 without panicking

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index dc1485d..037c064 100644
--- a/rtree.go
+++ b/rtree.go
@@ -3,6 +3,7 @@ package geo
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"sort"
 	"time"
 )
@@ -530,7 +531,7 @@ func (tree *Rtree) Delete(obj Spatial) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0] == object[1]
+		return reflect.DeepEqual(object[0], object[1])
 	}
 	return tree.DeleteWithComparator(obj, condition)
 }
-- 
2.43.0


From 1495793b2686fa1903bca4f1cf638fa697a7e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 03/69] fix: DeleteBySpatialID removes every object with the ID

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 037c064..9cdcb68 100644
--- a/rtree.go
+++ b/rtree.go
@@ -541,7 +541,7 @@ func (tree *Rtree) DeleteBySpatialID(id string) bool {
 		if len(object) != 2 {
 			return false
 		}
-		return object[0].ID == object[1].ID
+		return object[0].ID == object[1].ID && *BoundingBox(object[0].Geom) == *BoundingBox(object[1].Geom)
 	}
 	sps := tree.SearchBySpatialID(id)
 	if len(sps) == 0 {
-- 
2.43.0


From 8258e5f6b6c6586d01889963895d7b8a535ffe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 04/69] fix: an emptied R-tree becomes an empty leaf again

---
 rtree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 9cdcb68..2c1c7c2 100644
--- a/rtree.go
+++ b/rtree.go
@@ -600,9 +600,12 @@ func (tree *Rtree) DeleteWithComparator(obj Spatial, cond Condition) bool {
 	tree.condenseTree(n)
 	tree.size--
 
-	if !tree.root.leaf && len(tree.root.entries) == 1 {
+	for !tree.root.leaf && len(tree.root.entries) == 1 {
 		tree.root = tree.root.entries[0].child
 	}
+	if !tree.root.leaf && len(tree.root.entries) == 0 {
+		tree.root = &node{entries: []entry{}, leaf: true, level: 1}
+	}
 
 	tree.height = tree.root.level
 
-- 
2.43.0


From 8a77d1d3f92f1c6f869b4ef28058a83902057593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 05/69] fix: NearestNeighbors with k below one returns nothing

---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index 2c1c7c2..50ce0af 100644
--- a/rtree.go
+++ b/rtree.go
@@ -792,6 +792,9 @@ func (p *Point) minDist(r *Box) float64 {
 
 // NearestNeighbors gets the closest Spatials to the Point.
 func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
+	if k <= 0 {
+		return []Spatial{}
+	}
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From 25d7f3482c6a966a616c37872882db26012934ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 06/69] fix: R-tree insertion survives boxes whose area
 overflows

---
 rtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index 50ce0af..361fc58 100644
--- a/rtree.go
+++ b/rtree.go
@@ -319,7 +319,7 @@ func (tree *Rtree) chooseNode(n *node, e entry, level int) *node {
 	for _, en := range n.entries {
 		bb := en.bb.Union(e.bb)
 		d := bb.Size() - en.bb.Size()
-		if d < diff || (d == diff && en.bb.Size() < chosen.bb.Size()) {
+		if chosen.child == nil || d < diff || (d == diff && en.bb.Size() < chosen.bb.Size()) {
 			diff = d
 			chosen = en
 		}
-- 
2.43.0


From a87dcb845e51755dd4ad71b1909c6b8e6c5fbc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 07/69] fix: IsPointOnSegment uses the segment's own bounding
 box

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 6657564..0147474 100644
--- a/relation.go
+++ b/relation.go
@@ -113,7 +113,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 func IsPointOnSegment(p1, p2, point Point) bool {
 	//保证Q点坐标在p1,p2之间 且叉积为0
 	if (point.X-p1.X)*(p2.Y-p1.Y) == (p2.X-p1.X)*(point.Y-p1.Y) &&
-		IsPointInBox(BoundingBox(NewLineString(p1, p2)), point) {
+		IsPointInBox(BoundingBox(LineString{p1, p2}), point) {
 		return true
 	}
 	return false
-- 
2.43.0


From c8d7cbf138733fe7dc377a3091cdbed190d5f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 08/69] fix: IsPointOnLine does not test the closing chord

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 0147474..28b3dd7 100644
--- a/relation.go
+++ b/relation.go
@@ -99,7 +99,7 @@ func IsPointOnLine(point Point, line LineString) bool {
 	isOn := false
 	for i := range line {
 		if i == line.GetPointCount()-1 {
-			isOn = IsPointOnSegment(line[0], line[line.GetPointCount()-1], point)
+			isOn = IsPointOnSegment(line[i], line[i], point)
 		} else {
 			isOn = IsPointOnSegment(line[i], line[i+1], point)
 		}
-- 
2.43.0


From 85baaad7950c589af34783f64f3f89d7f412fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 09/69] fix: SegmentRelation on collinear, degenerate and
 T-shaped segments

---
 relation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/relation.go b/relation.go
index 28b3dd7..b609613 100644
--- a/relation.go
+++ b/relation.go
@@ -8,9 +8,10 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 	q_p := ConvertPointToVector(seg1.Start, seg2.Start)
 	crss1 := r.Cross(*s)
 	crss2 := q_p.Cross(*r)
-	if crss1 == 0 && crss2 == 0 {
+	if crss1 == 0 && crss2 == 0 && q_p.Cross(*s) == 0 &&
+		BoundingBox(LineString{seg1.Start, seg1.End}).Intersect(BoundingBox(LineString{seg2.Start, seg2.End})) {
 		return RELA_TOUCH
-	} else if crss1 == 0 && crss2 != 0 {
+	} else if crss1 == 0 {
 		return RELA_DISJOINT
 	} else if crss1 != 0 {
 		//(q − p) × s / (r × s)
@@ -19,7 +20,7 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 		if res1 > 0 && res1 < 1 && res2 > 0 && res2 < 1 {
 			return RELA_INTERSECT
 		}
-		if (res1 == 0 || res1 == 1) && (res2 == 0 || res2 == 1) {
+		if res1 >= 0 && res1 <= 1 && res2 >= 0 && res2 <= 1 {
 			return RELA_TOUCH
 		}
 	}
-- 
2.43.0


From 297e308326939fb91fc5655995413d2cf1db2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 10/69] fix: SegPolyRelation looks at the last edge and at
 holes

---
 relation.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/relation.go b/relation.go
index b609613..82a888e 100644
--- a/relation.go
+++ b/relation.go
@@ -28,17 +28,18 @@ func SegmentRelation(seg1, seg2 LineSegment) GeometryRealation {
 }
 
 func SegPolyRelation(seg LineSegment, poly Polygon) GeometryRealation {
-	lr := poly.GetExteriorRing()
-	pointCount := lr.GetPointCount()
 	isPointOnBoundary := false
-	for i := 0; i < pointCount-2; i++ {
-		pntStart := lr[i]
-		pntEnd := lr[i+1]
-		relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
-		if relation == RELA_INTERSECT {
-			return RELA_INTERSECT
-		} else if relation == RELA_TOUCH {
-			isPointOnBoundary = true
+	for _, lr := range poly {
+		pointCount := lr.GetPointCount()
+		for i := 0; i < pointCount-1; i++ {
+			pntStart := lr[i]
+			pntEnd := lr[i+1]
+			relation := SegmentRelation(LineSegment{pntStart, pntEnd}, seg)
+			if relation == RELA_INTERSECT {
+				return RELA_INTERSECT
+			} else if relation == RELA_TOUCH {
+				isPointOnBoundary = true
+			}
 		}
 	}
 	flag1 := IsPointInPolygon(seg.Start, poly) == RELA_CONTAIN || IsPointInPolygon(seg.Start, poly) == RELA_TOUCH
-- 
2.43.0


From 11cb1159a0ba231fe694e662cec13471184a19c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 11/69] fix: LinearPolyRelation looks at the last segment of
 the ring

---
 relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relation.go b/relation.go
index 82a888e..46171c2 100644
--- a/relation.go
+++ b/relation.go
@@ -78,7 +78,7 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 	//对环进行打断，去掉最后一个点
 	pointCount := line.GetPointCount()
 	curRelation := RELA_UNKNOWN
-	for i := 0; i < pointCount-2; i++ {
+	for i := 0; i < pointCount-1; i++ {
 		Start := line[i]
 		End := line[i+1]
 		relation := SegPolyRelation(LineSegment{Start, End}, poly)
-- 
2.43.0


From 878cf8e875c3ee4f27ae7167eaa6c528ddd11036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 12/69] fix: a line that touches a polygon is not reported as
 contained or disjoint

---
 relation.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relation.go b/relation.go
index 46171c2..d639e6d 100644
--- a/relation.go
+++ b/relation.go
@@ -67,7 +67,8 @@ func LinePolyRelation(line LineString, poly Polygon) GeometryRealation {
 		if relation == RELA_INTERSECT {
 			return RELA_INTERSECT
 		}
-		if curRelation == RELA_UNKNOWN || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
+		if i == 0 || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT ||
+			(curRelation == RELA_UNKNOWN && relation != RELA_CONTAIN && relation != RELA_DISJOINT) {
 			curRelation = relation
 		}
 	}
@@ -85,7 +86,8 @@ func LinearPolyRelation(line LinearRing, poly Polygon) GeometryRealation {
 		if relation == RELA_INTERSECT {
 			return RELA_INTERSECT
 		}
-		if curRelation == RELA_UNKNOWN || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT {
+		if i == 0 || curRelation == RELA_CONTAIN || curRelation == RELA_DISJOINT ||
+			(curRelation == RELA_UNKNOWN && relation != RELA_CONTAIN && relation != RELA_DISJOINT) {
 			curRelation = relation
 		}
 	}
-- 
2.43.0


From 5a7c0b9c74281358bfc66b36b631d24bca0f137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 13/69] fix: SelfIntersect looks at the closing edge

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 273e699..388a4fe 100644
--- a/polygon.go
+++ b/polygon.go
@@ -85,7 +85,7 @@ func (poly Polygon) SelfIntersect() bool {
 	for i := 0; i < pointCount-1; i++ {
 		srcV0 := exRing[i]
 		srcV1 := exRing[(i+1)%pointCount]
-		for j := i + 1; j < pointCount-2; j++ {
+		for j := i + 1; j < pointCount-1; j++ {
 			dstV0 := exRing[j]
 			dstV1 := exRing[j+1]
 			relation := SegmentRelation(LineSegment{srcV0, srcV1}, LineSegment{dstV0, dstV1})
-- 
2.43.0


From fbd8aff5e8f0b5d62e40e6fd09b82c35f100f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 14/69] fix: Polygon.Verify takes x as longitude and y as
 latitude

---
 polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polygon.go b/polygon.go
index 388a4fe..5c3db1f 100644
--- a/polygon.go
+++ b/polygon.go
@@ -65,7 +65,7 @@ func (p *Polygon) Verify() error {
 		return errors.New("polygon invaild, point less than 3")
 	}
 	for i := 0; i < ptCount; i++ {
-		if extring[i].X > 90.0 || extring[i].X < -90 || extring[i].Y > 180.0 || extring[i].Y < -180.0 {
+		if extring[i].X > 180.0 || extring[i].X < -180.0 || extring[i].Y > 90.0 || extring[i].Y < -90.0 {
 			return errors.New("lnglat invaild, lat[-90,90] lng[-180,180]")
 		}
 	}
-- 
2.43.0


From b552fedc7e34e71796a1bdc7301928d8c543e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 15/69] fix: IsPointInPolygon respects holes

---
 contain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contain.go b/contain.go
index 6eb0d0f..cbcbe30 100644
--- a/contain.go
+++ b/contain.go
@@ -34,6 +34,14 @@ func IsPointInPolygon(point Point, poly Polygon) GeometryRealation {
 		}
 	}
 	if isIn {
+		for _, hole := range poly.GetInteriorRing() {
+			switch IsPointInPolygon(point, Polygon{hole}) {
+			case RELA_TOUCH:
+				return RELA_TOUCH
+			case RELA_CONTAIN:
+				return RELA_DISJOINT
+			}
+		}
 		return RELA_CONTAIN
 	} else {
 		return RELA_DISJOINT
-- 
2.43.0


From cd3c9ed47dbd2c0493a7ed70110d198560d8499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 16/69] fix: polygon area leaves out the holes

---
 calcaulation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 1fc39e7..25a27d1 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -63,7 +63,11 @@ func relativeArea(poly Polygon) float64 {
 }
 
 func polyArea(poly Polygon) float64 {
-	return math.Abs(relativeArea(poly))
+	area := math.Abs(relativeArea(poly))
+	for _, hole := range poly.GetInteriorRing() {
+		area -= math.Abs(relativeArea(Polygon{hole}))
+	}
+	return area
 }
 
 func MultiPolyArea(multiPoly MultiPolygon) float64 {
-- 
2.43.0


From 3a2cbc59e27f08a1dbb82eb19d10ecf4038bd3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 17/69] fix: polygon centroid leaves out the holes

---
 calcaulation.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 25a27d1..2c4c5f5 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -193,18 +193,24 @@ func LinearCentroid(ring LinearRing) Point {
 
 //https://en.wikipedia.org/wiki/Centroid#Centroid_of_polygon
 func polyCentroid(poly Polygon) Point {
-	lr := poly.GetExteriorRing()
-	if lr == nil {
-		return Point{math.NaN(), math.NaN()}
-	}
-	ptCount := lr.GetPointCount() - 1
 	var centroidX, centroidY, signArea float64
-	for i := 0; i < ptCount; i++ {
-		//最后一个点的处理
-		j := (i + 1) % ptCount
-		centroidX += (lr[i].X + lr[j].X) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-		centroidY += (lr[i].Y + lr[j].Y) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-		signArea += lr[i].X*lr[j].Y - lr[j].X*lr[i].Y
+	for k, lr := range poly {
+		ptCount := lr.GetPointCount() - 1
+		var ringX, ringY, ringArea float64
+		for i := 0; i < ptCount; i++ {
+			//最后一个点的处理
+			j := (i + 1) % ptCount
+			ringX += (lr[i].X + lr[j].X) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
+			ringY += (lr[i].Y + lr[j].Y) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
+			ringArea += lr[i].X*lr[j].Y - lr[j].X*lr[i].Y
+		}
+		// holes count against the exterior ring, whatever their direction
+		if (ringArea > 0) != (k == 0) {
+			ringX, ringY, ringArea = -ringX, -ringY, -ringArea
+		}
+		centroidX += ringX
+		centroidY += ringY
+		signArea += ringArea
 	}
 	if signArea == 0 {
 		return Point{math.NaN(), math.NaN()}
-- 
2.43.0


From 253284e03808e17ecf7647090eb552341a11c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 18/69] fix: polygon centroid does not cancel away far from the
 origin

---
 calcaulation.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 2c4c5f5..a80fc68 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -194,15 +194,21 @@ func LinearCentroid(ring LinearRing) Point {
 //https://en.wikipedia.org/wiki/Centroid#Centroid_of_polygon
 func polyCentroid(poly Polygon) Point {
 	var centroidX, centroidY, signArea float64
+	var origin Point // coordinates relative to a vertex do not cancel
+	if len(poly) > 0 && len(poly[0]) > 0 {
+		origin = poly[0][0]
+	}
 	for k, lr := range poly {
 		ptCount := lr.GetPointCount() - 1
 		var ringX, ringY, ringArea float64
 		for i := 0; i < ptCount; i++ {
 			//最后一个点的处理
 			j := (i + 1) % ptCount
-			ringX += (lr[i].X + lr[j].X) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-			ringY += (lr[i].Y + lr[j].Y) * (lr[i].X*lr[j].Y - lr[j].X*lr[i].Y)
-			ringArea += lr[i].X*lr[j].Y - lr[j].X*lr[i].Y
+			a := Point{lr[i].X - origin.X, lr[i].Y - origin.Y}
+			b := Point{lr[j].X - origin.X, lr[j].Y - origin.Y}
+			ringX += (a.X + b.X) * (a.X*b.Y - b.X*a.Y)
+			ringY += (a.Y + b.Y) * (a.X*b.Y - b.X*a.Y)
+			ringArea += a.X*b.Y - b.X*a.Y
 		}
 		// holes count against the exterior ring, whatever their direction
 		if (ringArea > 0) != (k == 0) {
@@ -217,7 +223,7 @@ func polyCentroid(poly Polygon) Point {
 	}
 	centroidX *= 1 / (6 * signArea / 2)
 	centroidY *= 1 / (6 * signArea / 2)
-	return Point{centroidX, centroidY}
+	return Point{origin.X + centroidX, origin.Y + centroidY}
 }
 
 func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
-- 
2.43.0


From d0cddd61781d4c96d02071df7a2b59064adad975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 19/69] fix: distance from a point in a hole is measured to the
 hole

---
 calcaulation.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index a80fc68..78e24e9 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -231,18 +231,19 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 		return 0
 	}
 	var distance = INF
-	lr := poly.GetExteriorRing()
-	ptCount := lr.GetPointCount() - 1
-	for i := 0; i < ptCount; i++ {
-		//最后一个点的处理
-		j := (i + 1) % ptCount
-		var previousPoint Point = lr[i]
-		var currentPoint Point = lr[j]
+	for _, lr := range poly {
+		ptCount := lr.GetPointCount() - 1
+		for i := 0; i < ptCount; i++ {
+			//最后一个点的处理
+			j := (i + 1) % ptCount
+			var previousPoint Point = lr[i]
+			var currentPoint Point = lr[j]
 
-		segmentDistance, _ := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
+			segmentDistance, _ := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
 
-		if segmentDistance < distance {
-			distance = segmentDistance
+			if segmentDistance < distance {
+				distance = segmentDistance
+			}
 		}
 	}
 	return distance
-- 
2.43.0


From 6cf36fc58695a13f05250efde1253b996cd19282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 20/69] fix: ConvexHull does not reorder the caller's points

---
 convexhull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convexhull.go b/convexhull.go
index 7ef65da..799a191 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -50,7 +50,7 @@ func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
-	points := hullPts(pts)
+	points := append(hullPts(nil), pts...)
 	var stack hullPts
 	points.FindLowestPoint()
 	sort.Sort(&points)
-- 
2.43.0


From 107ea4b770e362d81b2b1dae8f3aa360be840115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 21/69] fix: ConvexHull keeps the lowest point in place while
 sorting around it

---
 convexhull.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/convexhull.go b/convexhull.go
index 799a191..8700103 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -35,6 +35,13 @@ func (p hullPts) Less(i, j int) bool {
 	return area > 0
 }
 
+//sorts the points after the first one, which is the fixed origin of the angles
+type hullRest struct{ hullPts }
+
+func (p hullRest) Len() int           { return len(p.hullPts) - 1 }
+func (p hullRest) Swap(i, j int)      { p.hullPts.Swap(i+1, j+1) }
+func (p hullRest) Less(i, j int) bool { return p.hullPts.Less(i+1, j+1) }
+
 func (p hullPts) FindLowestPoint() {
 	m := 0
 	for i := 1; i < len(p); i++ {
@@ -53,7 +60,7 @@ func ConvexHull(pts ...Point) Polygon {
 	points := append(hullPts(nil), pts...)
 	var stack hullPts
 	points.FindLowestPoint()
-	sort.Sort(&points)
+	sort.Sort(hullRest{points})
 	stack = append(stack, points[0])
 	stack = append(stack, points[1])
 	i := 2
-- 
2.43.0


From f3b3ae5c64ab1bfeed01bbb079039ac521262974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 22/69] fix: Mbr tries the directions of the hull edges

---
 mbr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbr.go b/mbr.go
index 9219884..b75174d 100644
--- a/mbr.go
+++ b/mbr.go
@@ -30,6 +30,7 @@ func Mbr(geom Geometry) Polygon {
 	if math.IsNaN(cpt.X) || math.IsNaN(cpt.Y) {
 		return nil
 	}
+	coords = convexHull.GetExteriorPoints()
 	minArea := math.MaxFloat64
 	minAngle := 0.0
 	ci := coords[0]
-- 
2.43.0


From b35f9e977a4591b74fc90875d61fbc09121cffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 23/69] fix: Mbr of a geometry flattened to a point gives
 nothing instead of panicking

---
 mbr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbr.go b/mbr.go
index b75174d..faa60ad 100644
--- a/mbr.go
+++ b/mbr.go
@@ -47,9 +47,9 @@ func Mbr(geom Geometry) Polygon {
 		}
 		ci = cii
 	}
-	polyGeo := RotateCCW(ssr, cpt, minAngle)
-	if polyGeo == nil {
+	rect, ok := ssr.(Polygon)
+	if !ok {
 		return nil
 	}
-	return polyGeo.(Polygon)
+	return RotateCCW(rect, cpt, minAngle).(Polygon)
 }
-- 
2.43.0


From c4a50c2f989d84f705c6364906d7f2ecf545afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 24/69] fix: bounding boxes of coordinates beyond 2^31

---
 box.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/box.go b/box.go
index 1ba1f53..f26302f 100644
--- a/box.go
+++ b/box.go
@@ -48,6 +48,9 @@ func BoxToGeo(b Box) Geometry {
 
 func calBox(points ...Point) *Box {
 	var minX, minY, maxX, maxY float64 = INF, INF, -INF, -INF
+	if len(points) > 0 {
+		minX, minY, maxX, maxY = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
+	}
 	for _, v := range points {
 		if minX > v.X {
 			minX = v.X
-- 
2.43.0


From f9afa5e93945d7e05c2e86ef1aac4317976381fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 25/69] fix: bounding boxes of three-dimensional geometries

---
 box.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/box.go b/box.go
index f26302f..77bec5a 100644
--- a/box.go
+++ b/box.go
@@ -96,10 +96,39 @@ func BoundingBox(geom Geometry) *Box {
 			}
 		}
 		return calBox(pois...)
+	case PointZ:
+		return calBox(flatPoints(geom)...)
+	case MultiPointZ:
+		return calBox(flatPoints(geom...)...)
+	case LineStringZ:
+		return calBox(flatPoints(geom...)...)
+	case MultiLineStringZ:
+		var pois []Point
+		for _, v := range geom {
+			pois = append(pois, flatPoints(v...)...)
+		}
+		return calBox(pois...)
+	case PolygonZ:
+		return calBox(flatPoints(geom.GetExteriorPoints()...)...)
+	case MultiPolygonZ:
+		var pois []Point
+		for _, v := range geom {
+			pois = append(pois, flatPoints(v.GetExteriorPoints()...)...)
+		}
+		return calBox(pois...)
 	}
 	return &Box{}
 }
 
+//去掉Z值
+func flatPoints(points ...PointZ) []Point {
+	pois := make([]Point, 0, len(points))
+	for _, v := range points {
+		pois = append(pois, Point{v.X, v.Y})
+	}
+	return pois
+}
+
 func (b1 *Box) Intersect(b2 *Box) bool {
 	if b1 == nil || b2 == nil {
 		return false
-- 
2.43.0


From c16a1c791c0ffe363df184cc140e33215bd0b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 26/69] fix: distance to a zero-length segment

---
 calcaulation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calcaulation.go b/calcaulation.go
index 78e24e9..c9370c9 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -133,6 +133,9 @@ func PointToSegmentDistance(point, p1, p2 Point, srid SRID) (float64, Point) {
 	var xDelta float64 = p2.X - p1.X
 	var yDelta float64 = p2.Y - p1.Y
 
+	if xDelta*xDelta+yDelta*yDelta == 0 {
+		return PointDistance(point, p1, srid), p1
+	}
 	var u float64 = ((point.X-p1.X)*xDelta + (point.Y-p1.Y)*yDelta) / (xDelta*xDelta + yDelta*yDelta)
 
 	var closestPointOnLine Point
-- 
2.43.0


From 9d8bb53a87b45f2ebb8cc1e0b8ca5ba941a29950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 27/69] fix: DouglasPeuckerSimplify does not overwrite the
 caller's line

---
 simplify.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simplify.go b/simplify.go
index 95a300a..f670955 100644
--- a/simplify.go
+++ b/simplify.go
@@ -11,6 +11,7 @@ func DouglasPeuckerSimplify(line LineString, threshold float64, srid SRID) LineS
 	//排序，从后往前删
 	sort.Sort(sort.Reverse(sort.IntSlice(delIndexs)))
 
+	line = append(LineString{}, line...)
 	for _, v := range delIndexs {
 		line = append(line[:v], line[v+1:]...)
 	}
-- 
2.43.0


From 2ab840a31fa7a39d7ff92aa7070604337c848f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 28/69] fix: DouglasPeuckerSimplify terminates for negative
 thresholds

---
 simplify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplify.go b/simplify.go
index f670955..8daf164 100644
--- a/simplify.go
+++ b/simplify.go
@@ -27,7 +27,7 @@ func dpWorker(line LineString, threshold float64, srid SRID) []int {
 		end := stack[len(stack)-1]
 
 		// modify the line in place
-		maxDist := 0.0
+		maxDist := -1.0
 		maxIndex := 0
 		for i := start + 1; i < end; i++ {
 			dist, _ := PointToSegmentDistance(line[i], line[start], line[end], srid)
@@ -36,7 +36,7 @@ func dpWorker(line LineString, threshold float64, srid SRID) []int {
 				maxIndex = i
 			}
 		}
-		if maxDist > threshold {
+		if maxIndex > start && maxDist > threshold {
 			stack[len(stack)-1] = maxIndex
 			stack = append(stack, maxIndex, end)
 		} else {
-- 
2.43.0


From 929cd19aa0b758981a81b0f9db2f1e17d703bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 29/69] fix: CoordGreateCircle of identical and nearby points

---
 point.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/point.go b/point.go
index 2c0e1e2..c255985 100644
--- a/point.go
+++ b/point.go
@@ -55,7 +55,9 @@ func CoordGreateCircle(p1, p2 Point) float64 {
 	lng1 := p1.X * math.Pi / 180.0
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
-	return math.Acos(math.Sin(lat1)*math.Sin(lat2)+math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)) * EARTHRADIUSMI
+	y := math.Hypot(math.Cos(lat2)*math.Sin(lng2-lng1), math.Cos(lat1)*math.Sin(lat2)-math.Sin(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1))
+	x := math.Sin(lat1)*math.Sin(lat2) + math.Cos(lat1)*math.Cos(lat2)*math.Cos(lng2-lng1)
+	return math.Atan2(y, x) * EARTHRADIUSMI
 }
 
 // 根据距离和方位角进行下一个点的计算，TODO
-- 
2.43.0


From 10823e6cf6d483b2d988619226b32a86a917be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 30/69] fix: CoordDistance of antipodal points

---
 point.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/point.go b/point.go
index c255985..35beeec 100644
--- a/point.go
+++ b/point.go
@@ -47,7 +47,7 @@ func CoordDistance(p1, p2 Point) float64 {
 	lat2 := p2.Y * math.Pi / 180.0
 	lng2 := p2.X * math.Pi / 180.0
 	a := math.Pow(math.Sin((lat2-lat1)/2), 2) + math.Cos(lat1)*math.Cos(lat2)*math.Pow(math.Sin((lng2-lng1)/2), 2)
-	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a)) * EARTHRADIUSMI
+	return 2 * math.Atan2(math.Sqrt(a), math.Sqrt(math.Max(0, 1-a))) * EARTHRADIUSMI
 }
 
 func CoordGreateCircle(p1, p2 Point) float64 {
-- 
2.43.0


From 5f6b0632da037bc5e8e7c170f72c251f808a36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 31/69] fix: DestinationPoint at the poles

---
 point.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/point.go b/point.go
index 35beeec..f185e61 100644
--- a/point.go
+++ b/point.go
@@ -77,7 +77,7 @@ func DestinationPoint(lat, lon, distance, bearing float64) (float64, float64) {
 	var λ1 = toRadians(lon)
 
 	sinφ2 := math.Sin(φ1)*math.Cos(δ) + math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
-	φ2 := math.Asin(sinφ2)
+	φ2 := math.Asin(math.Max(-1, math.Min(1, sinφ2)))
 	y := math.Sin(θ) * math.Sin(δ) * math.Cos(φ1)
 	x := math.Cos(δ) - math.Sin(φ1)*math.Sin(φ2)
 	λ2 := λ1 + math.Atan2(y, x)
-- 
2.43.0


From d8fc2ec8b8cedc1d3de24eb3bd037764cc28fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 32/69] fix: CacConvex recognises straight angles

---
 calcaulation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index c9370c9..8a264a1 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -102,11 +102,11 @@ func pointsCenteriod(points ...Point) Point {
 //计算顶点的凹凸性 先计算待处理点与相邻点的两个向量，再计算两向量的叉乘，根据求得结果的正负可以判断凹凸性。 0代表凸顶点，1代表凹顶点，2代表平角
 func CacConvex(p1, p2, p3 Point) (int8, error) {
 	//直接采用算sin theata 来判断凹凸性
-	theata, err := CacAngle(p1, p2, p3)
-	if err != nil {
+	if _, err := CacAngle(p1, p2, p3); err != nil {
 		return -1, err
 	}
-	res := math.Sin(theata)
+	//sin theata 与叉乘同号
+	res := ConvertPointToVector(p1, p2).Cross(*ConvertPointToVector(p3, p2))
 	if res < 0 {
 		return 0, nil
 	} else if res > 0 {
-- 
2.43.0


From c6136009d1f31f7e6dbd1fea91f379a67a06bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 33/69] fix: inverse UTM series terms

---
 utm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utm.go b/utm.go
index 30233e8..28c15bc 100755
--- a/utm.go
+++ b/utm.go
@@ -143,7 +143,7 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 	n := r / epSinSqrt
 	rad := (1 - e) / epSin
 
-	c := fe * pCos * pCos
+	c := eP2 * pCos * pCos
 	c2 := c * c
 
 	d := x / (n * k0)
@@ -155,8 +155,8 @@ func ToLatLon(easting, northing float64, zoneNumber int, zoneLetter string, nort
 
 	latitude = pRad - (pTan/rad)*
 		(d2/2-
-			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)) +
-		d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2)
+			d4/24*(5+3*pTan2+10*c-4*c2-9*eP2)+
+			d6/720*(61+90*pTan2+298*c+45*pTan4-252*eP2-3*c2))
 
 	longitude = (d -
 		d3/6*(1+2*pTan2+c) +
-- 
2.43.0


From 833c1ace8ff23e8bffd03cf0eda3489b74ae2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 34/69] fix: UTM zone of longitude 180

---
 utm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utm.go b/utm.go
index 28c15bc..fbaef10 100755
--- a/utm.go
+++ b/utm.go
@@ -266,6 +266,9 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		}
 	}
 
+	if longitude == 180 {
+		return 60
+	}
 	return int((longitude+180)/6) + 1
 }
 
-- 
2.43.0


From 663f19ba9ec48304828648db7e2432d95ddc367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 35/69] fix: UTM band letter of latitude 84

---
 utm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index fbaef10..293f34c 100755
--- a/utm.go
+++ b/utm.go
@@ -46,7 +46,7 @@ func rad(d float64) float64 { return d * x }
 func deg(r float64) float64 { return r / x }
 
 var zoneLetters = []zoneLetter{
-	{84, " "},
+	{84, "X"},
 	{72, "X"},
 	{64, "W"},
 	{56, "V"},
-- 
2.43.0


From 18e515129d5ea5869e41d148421d394f0b627fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 36/69] fix: UTM hemisphere letter of the equator matches its
 northing

---
 utm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utm.go b/utm.go
index 293f34c..8c410bf 100755
--- a/utm.go
+++ b/utm.go
@@ -202,7 +202,7 @@ func FromLatLon(latitude, longitude float64, northern bool) (easting, northing f
 
 	if northern {
 		// N north, S south
-		if latitude > 0 {
+		if latitude >= 0 {
 			zoneLetter = "N"
 		} else {
 			zoneLetter = "S"
-- 
2.43.0


From 74fbb1ceab1720228963d376729fc1af2e4fd003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 37/69] fix: upper limits of the UTM zone exceptions belong to
 the next zone

---
 utm.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utm.go b/utm.go
index 8c410bf..dcbdf7b 100755
--- a/utm.go
+++ b/utm.go
@@ -250,18 +250,18 @@ func latitudeToZoneLetter(latitude float64) string {
 }
 
 func latLonToZoneNumber(latitude float64, longitude float64) int {
-	if 56 <= latitude && latitude <= 64 && 3 <= longitude && longitude <= 12 {
+	if 56 <= latitude && latitude < 64 && 3 <= longitude && longitude < 12 {
 		return 32
 	}
 
 	if 72 <= latitude && latitude <= 84 && longitude >= 0 {
-		if longitude <= 9 {
+		if longitude < 9 {
 			return 31
-		} else if longitude <= 21 {
+		} else if longitude < 21 {
 			return 33
-		} else if longitude <= 33 {
+		} else if longitude < 33 {
 			return 35
-		} else if longitude <= 42 {
+		} else if longitude < 42 {
 			return 37
 		}
 	}
-- 
2.43.0


From 7f8c09106998ece383b305f237c545694e3faf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 38/69] fix: S2RegionCoverer does not reverse the caller's ring

---
 googleS2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/googleS2.go b/googleS2.go
index 25499ff..a481308 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -50,7 +50,7 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 	if poly.IsCCW() {
-		pois := poly.GetExteriorRing().GetPointSet()
+		pois := append([]Point{}, poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
 			pois[i], pois[j] = pois[j], pois[i]
 		}
-- 
2.43.0


From 4a7347a5664a5e7c9981a5a40c6fa1db78963928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 39/69] fix: S2RegionCoverer of an empty polygon

---
 googleS2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/googleS2.go b/googleS2.go
index a481308..f84795b 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -49,6 +49,9 @@ func S2GetAllNeighbors(cellID uint64, srid SRID) []uint64 {
 }
 
 func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
+	if len(poly.GetExteriorRing()) == 0 {
+		return nil
+	}
 	if poly.IsCCW() {
 		pois := append([]Point{}, poly.GetExteriorRing().GetPointSet()...)
 		for i, j := 0, len(pois)-1; i < j; i, j = i+1, j-1 {
-- 
2.43.0


From 5fd602011131e30e2f0a3f94adeb1511d0afd9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 40/69] fix: SetSrid writes to an initialised map, one caller
 at a time

---
 multiLineStringZ.go |  2 +-
 multilinestring.go  |  2 +-
 multipoint.go       |  2 +-
 multipolygon.go     |  2 +-
 polygon.go          |  2 +-
 srid.go             | 12 +++++++++++-
 6 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/multiLineStringZ.go b/multiLineStringZ.go
index ef8b37a..68a9abf 100644
--- a/multiLineStringZ.go
+++ b/multiLineStringZ.go
@@ -11,5 +11,5 @@ func NewMultiLineStringZ(ls ...LineStringZ) *MultiLineStringZ {
 }
 
 func (l MultiLineStringZ) SetSrid(srid uint64) {
-	SridMap[&l] = srid
+	setSrid(&l, srid)
 }
diff --git a/multilinestring.go b/multilinestring.go
index c421135..82e9e79 100644
--- a/multilinestring.go
+++ b/multilinestring.go
@@ -17,5 +17,5 @@ func NewMultiLineString(ls ...LineString) *MultiLineString {
 }
 
 func (l MultiLineString) SetSrid(srid uint64) {
-	SridMap[&l] = srid
+	setSrid(&l, srid)
 }
diff --git a/multipoint.go b/multipoint.go
index 7fa7436..4dfa978 100644
--- a/multipoint.go
+++ b/multipoint.go
@@ -16,7 +16,7 @@ func (mp *MultiPoint) Append(p Point) {
 }
 
 func (mp MultiPoint) SetSrid(srid uint64) {
-	SridMap[&mp] = srid
+	setSrid(&mp, srid)
 }
 
 func (mp MultiPoint) GetPointSet() []Point {
diff --git a/multipolygon.go b/multipolygon.go
index 2770578..d056cdc 100644
--- a/multipolygon.go
+++ b/multipolygon.go
@@ -11,5 +11,5 @@ func NewMultiPolygon(polys ...Polygon) *MultiPolygon {
 }
 
 func (mp MultiPolygon) SetSrid(srid uint64) {
-	SridMap[&mp] = srid
+	setSrid(&mp, srid)
 }
diff --git a/polygon.go b/polygon.go
index 5c3db1f..aeadd11 100644
--- a/polygon.go
+++ b/polygon.go
@@ -19,7 +19,7 @@ func NewPolygonFromPois(pts ...Point) *Polygon {
 }
 
 func (g Polygon) SetSrid(srid uint64) {
-	SridMap[&g] = srid
+	setSrid(&g, srid)
 }
 
 //多边形的外环
diff --git a/srid.go b/srid.go
index 2ce468a..1d514a7 100644
--- a/srid.go
+++ b/srid.go
@@ -1,3 +1,13 @@
 package geo
 
-var SridMap map[interface{}]uint64
+import "sync"
+
+var SridMap = make(map[interface{}]uint64)
+
+var sridMutex sync.Mutex
+
+func setSrid(key interface{}, srid uint64) {
+	sridMutex.Lock()
+	defer sridMutex.Unlock()
+	SridMap[key] = srid
+}
-- 
2.43.0


From f714bd86ef8a6312d03bdae4e49f866dede74b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 41/69] fix: closing a ring does not write behind the end of
 the caller's line

---
 linearRing.go  | 2 +-
 linearRingZ.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/linearRing.go b/linearRing.go
index 6751f00..4894e52 100644
--- a/linearRing.go
+++ b/linearRing.go
@@ -22,7 +22,7 @@ func NewRingFromLine(line LineString) *LinearRing {
 		linearRing := LinearRing(line)
 		return &linearRing
 	} else {
-		line = append(line, firstPoint)
+		line = append(line[:len(line):len(line)], firstPoint)
 		linearRing := LinearRing(line)
 		return &linearRing
 	}
diff --git a/linearRingZ.go b/linearRingZ.go
index f1575f0..74495f4 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -18,7 +18,7 @@ func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	} else {
-		line = append(line, firstPoint)
+		line = append(line[:len(line):len(line)], firstPoint)
 		LinearRingZ := LinearRingZ(line)
 		return &LinearRingZ
 	}
-- 
2.43.0


From e666ace383efa7284c5c6a1275a060a056a01a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 42/69] fix: rings and polygons from too few points are empty
 instead of a panic

---
 calcaulation.go | 2 +-
 lineString.go   | 6 +++++-
 lineStringZ.go  | 6 +++++-
 linearRingZ.go  | 3 +++
 polygon.go      | 3 +++
 polygonZ.go     | 3 +++
 6 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 8a264a1..99f1784 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -187,7 +187,7 @@ func Centroid(geo Geometry) Point {
 
 //TODO:如果线在一条直线上，需要改进算法
 func lineCentroid(line LineString) Point {
-	return LinearCentroid(*NewRingFromLine(line))
+	return LinearCentroid(line.ToRing())
 }
 
 func LinearCentroid(ring LinearRing) Point {
diff --git a/lineString.go b/lineString.go
index 2d673f9..71c10da 100644
--- a/lineString.go
+++ b/lineString.go
@@ -126,7 +126,11 @@ func (line *LineString) Reverse() {
 }
 
 func (line LineString) ToRing() LinearRing {
-	return *NewRingFromLine(line)
+	ring := NewRingFromLine(line)
+	if ring == nil {
+		return nil
+	}
+	return *ring
 }
 
 func (line LineString) GetPointSet() []Point {
diff --git a/lineStringZ.go b/lineStringZ.go
index dad543b..e7fbf09 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -55,7 +55,11 @@ func (line *LineStringZ) Reverse() {
 }
 
 func (line LineStringZ) ToRing() LinearRingZ {
-	return *NewRingFromLineZ(line)
+	ring := NewRingFromLineZ(line)
+	if ring == nil {
+		return nil
+	}
+	return *ring
 }
 
 func (line LineStringZ) GetPointSet() []PointZ {
diff --git a/linearRingZ.go b/linearRingZ.go
index 74495f4..450934c 100644
--- a/linearRingZ.go
+++ b/linearRingZ.go
@@ -12,6 +12,9 @@ func NewLinearRingZ(point ...PointZ) *LinearRingZ {
 }
 
 func NewRingFromLineZ(line LineStringZ) *LinearRingZ {
+	if len(line) == 0 {
+		return nil
+	}
 	firstPoint := line[0]
 	endPoint := line[len(line)-1]
 	if firstPoint.Equal(endPoint) {
diff --git a/polygon.go b/polygon.go
index aeadd11..eede376 100644
--- a/polygon.go
+++ b/polygon.go
@@ -15,6 +15,9 @@ func NewPolygon(lrs ...LinearRing) *Polygon {
 
 func NewPolygonFromPois(pts ...Point) *Polygon {
 	ring := NewLinearRing(pts...)
+	if ring == nil {
+		return NewPolygon()
+	}
 	return NewPolygon(*ring)
 }
 
diff --git a/polygonZ.go b/polygonZ.go
index d906781..0a1a256 100644
--- a/polygonZ.go
+++ b/polygonZ.go
@@ -13,6 +13,9 @@ func NewPolygonZ(lrs ...LinearRingZ) *PolygonZ {
 
 func NewPolygonZFromPois(pts ...PointZ) *PolygonZ {
 	ring := NewLinearRingZ(pts...)
+	if ring == nil {
+		return NewPolygonZ()
+	}
 	return NewPolygonZ(*ring)
 }
 
-- 
2.43.0


From 682f5ac22337ed1eab34715f22e0bc29450976b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 43/69] fix: lines of different lengths are not equal

---
 lineString.go  | 3 +++
 lineStringZ.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineString.go b/lineString.go
index 71c10da..ebf835c 100644
--- a/lineString.go
+++ b/lineString.go
@@ -109,6 +109,9 @@ func (line LineString) Length() float64 {
 
 //判断两条线是不是相同
 func (line1 LineString) Equal(line2 LineString) bool {
+	if len(line1) != len(line2) {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
diff --git a/lineStringZ.go b/lineStringZ.go
index e7fbf09..96e15a7 100644
--- a/lineStringZ.go
+++ b/lineStringZ.go
@@ -38,6 +38,9 @@ func (line *LineStringZ) Append(point PointZ) error {
 
 //判断两条线是不是相同
 func (line1 LineStringZ) Equal(line2 LineStringZ) bool {
+	if len(line1) != len(line2) {
+		return false
+	}
 	for i := 0; i < line1.GetPointCount(); i++ {
 		if !line1[i].Equal(line2[i]) {
 			return false
-- 
2.43.0


From d335e180342e216bef6758f086bb74cf1639f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 44/69] fix: EuclideanDisZ measures between both points

---
 pointZ.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointZ.go b/pointZ.go
index 46ff89b..8884a55 100644
--- a/pointZ.go
+++ b/pointZ.go
@@ -27,7 +27,7 @@ func (p *PointZ) SetZ(z float64) {
 }
 
 func EuclideanDisZ(p1, p2 PointZ) float64 {
-	return math.Sqrt(p1.X*p1.X + p1.Y*p1.Y + p1.Z*p1.Z)
+	return math.Sqrt((p1.X-p2.X)*(p1.X-p2.X) + (p1.Y-p2.Y)*(p1.Y-p2.Y) + (p1.Z-p2.Z)*(p1.Z-p2.Z))
 }
 
 //判断元素是否相等
-- 
2.43.0


From 470a4128096bde41e7b768725233411383a126e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 45/69] fix: InsertPoint at the end inserts the point once

---
 lineString.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index ebf835c..5e306c6 100644
--- a/lineString.go
+++ b/lineString.go
@@ -83,7 +83,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
-		line.Append(point)
+		return line.Append(point)
 	}
 	*line = append((*line)[:position+1], (*line)[position:]...)
 	(*line)[position] = point
-- 
2.43.0


From 1316d57b883269487d779d2cf517e7affa48da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 46/69] fix: negative line positions are refused

---
 lineString.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lineString.go b/lineString.go
index 5e306c6..666a34d 100644
--- a/lineString.go
+++ b/lineString.go
@@ -54,7 +54,7 @@ func (line LineString) GetEndPoint() *Point {
 
 //取特定点
 func (line LineString) GetPoint(index int) *Point {
-	if index > line.GetPointCount()-1 {
+	if index < 0 || index > line.GetPointCount()-1 {
 		return nil
 	}
 	return &line[index]
@@ -67,7 +67,7 @@ func (line *LineString) Append(point Point) error {
 
 //在指定位置改变linestring的点
 func (line *LineString) SetPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -79,7 +79,7 @@ func (line *LineString) SetPoint(position int, point Point) error {
 
 //在指定位置插入点
 func (line *LineString) InsertPoint(position int, point Point) error {
-	if line.GetPointCount() < position {
+	if position < 0 || line.GetPointCount() < position {
 		return errors.New("line has no such position")
 	}
 	if line.GetPointCount() == position {
@@ -92,7 +92,7 @@ func (line *LineString) InsertPoint(position int, point Point) error {
 
 //在指定位置删除点
 func (line *LineString) DelPoint(position int) error {
-	if line.GetPointCount() <= position {
+	if position < 0 || line.GetPointCount() <= position {
 		return errors.New("line has no such position")
 	}
 	(*line) = append((*line)[:position], (*line)[position+1:]...)
-- 
2.43.0


From 0513342fa5b57c0d8c8777e3503c08f57cb115ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 47/69] fix: SplitByIndex parts do not overwrite each other and
 stay within the line

---
 lineString.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lineString.go b/lineString.go
index 666a34d..3752e62 100644
--- a/lineString.go
+++ b/lineString.go
@@ -142,7 +142,10 @@ func (line LineString) GetPointSet() []Point {
 
 //从指定位置分成两条线
 func (line LineString) SplitByIndex(index int) (LineString, LineString) {
-	line1 := line[:index+1]
+	if index < 0 || index > len(line)-1 {
+		return nil, nil
+	}
+	line1 := line[: index+1 : index+1]
 	line2 := line[index:]
 	return line1, line2
 }
-- 
2.43.0


From 3dda37ec9e194b1551a563e40cc163d5a0e15d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 48/69] fix: Feature.SetBoundingBox stores the box in the
 feature

---
 geojson/feature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/feature.go b/geojson/feature.go
index faac598..b8be919 100644
--- a/geojson/feature.go
+++ b/geojson/feature.go
@@ -29,7 +29,7 @@ func NewFeature(geometry geo.Geometry) *Feature {
 	}
 }
 
-func (f Feature) SetBoundingBox() {
+func (f *Feature) SetBoundingBox() {
 	box := geo.BoundingBox(f.Geometry)
 	f.BoundingBox = []float64{box.MinX, box.MinY, box.MaxX, box.MaxY}
 }
-- 
2.43.0


From e852588bb6c38d34641cf7c4e286f332ab86838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 49/69] fix: GeoJSON encoding of three-dimensional polygons

---
 geojson/geojson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index 9005eb7..ef60a8a 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -75,7 +75,7 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 		}
 	case geo.PolygonZ:
 		geoj.Type = "Polygon"
-		geoj.Coordinates, err = ConvertPathSet(geom)
+		geoj.Coordinates, err = ConvertPathZSet(geom)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 62957452596214fcd2a112fa64846df9fd0d26e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 50/69] fix: UnmarshalGeo returns errors for malformed
 coordinates and unknown types

---
 geojson/geojson.go | 52 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/geojson/geojson.go b/geojson/geojson.go
index ef60a8a..ddde05f 100644
--- a/geojson/geojson.go
+++ b/geojson/geojson.go
@@ -98,8 +98,18 @@ func MarshalGeo(geom geo.Geometry) ([]byte, error) {
 }
 
 func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
+	if gjson == nil {
+		return nil, errors.New("no geometry")
+	}
 	switch gjson.Type {
 	case "Point":
+		position, err := decodePosition(gjson.Coordinates)
+		if err == nil {
+			err = checkPositions(position)
+		}
+		if err != nil {
+			return nil, err
+		}
 		isZ := isInterPointZ(gjson.Coordinates)
 		if isZ {
 			return inter2PointZ(gjson.Coordinates), nil
@@ -108,6 +118,13 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPoint":
 		return nil, errors.New("Not Support MultiPoint (TODO)")
 	case "LineString":
+		positions, err := decodePositionSet(gjson.Coordinates)
+		if err == nil {
+			err = checkPositions(positions...)
+		}
+		if err != nil {
+			return nil, err
+		}
 		isZ := isInterLineZ(gjson.Coordinates)
 		if isZ {
 			return inter2LineStringZ(gjson.Coordinates), nil
@@ -116,6 +133,20 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiLineString":
 		return nil, errors.New("Not Support MultiLineString (TODO)")
 	case "Polygon":
+		paths, err := decodePathSet(gjson.Coordinates)
+		if err != nil {
+			return nil, err
+		}
+		var positions [][]float64
+		for _, path := range paths {
+			if len(path) == 0 {
+				return nil, errors.New("not a valid ring, got no position")
+			}
+			positions = append(positions, path...)
+		}
+		if err := checkPositions(positions...); err != nil {
+			return nil, err
+		}
 		isZ := isInterPolygonZ(gjson.Coordinates)
 		if isZ {
 			return inter2PolygonZ(gjson.Coordinates), nil
@@ -124,7 +155,26 @@ func UnmarshalGeo(gjson *GeoJson) (geo.Geometry, error) {
 	case "MultiPolygon":
 		return nil, errors.New("Not Support MultiPolygon (TODO)")
 	}
-	return nil, nil
+	return nil, fmt.Errorf("no such type %q", gjson.Type)
+}
+
+// checkPositions makes sure that there are positions and that they agree in their dimension
+func checkPositions(positions ...[]float64) error {
+	if len(positions) == 0 {
+		return errors.New("not a valid geometry, got no position")
+	}
+	hasZ, has2D := false, false
+	for _, position := range positions {
+		if len(position) < 2 {
+			return fmt.Errorf("not a valid position, got %v", position)
+		}
+		hasZ = hasZ || len(position) == 3
+		has2D = has2D || len(position) == 2
+	}
+	if hasZ && has2D {
+		return errors.New("positions of different dimensions")
+	}
+	return nil
 }
 
 // func (c Collection) ToGeojson() ([]byte, error) {
-- 
2.43.0


From ac3bf13c7c00e96a3cbacc092404536adf98f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 51/69] fix: WKT positions with missing, stray or mixed
 ordinates are errors

---
 wkt/decode.go | 92 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 10 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 4b0ad79..8f877fc 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -9,8 +9,66 @@ import (
 	"github.com/hzw456/go-geo"
 )
 
+// splitTuple splits the two or three ordinates of one position.
+func splitTuple(tuple string) ([]string, error) {
+	strs := strings.Fields(tuple)
+	if len(strs) != 2 && len(strs) != 3 {
+		return nil, errors.New("position needs two or three ordinates: " + tuple)
+	}
+	return strs, nil
+}
+
+// unwrap removes one enclosing pair of parentheses, if there is one.
+func unwrap(wkt string) (string, bool) {
+	wkt = strings.TrimSpace(wkt)
+	if len(wkt) > 1 && strings.HasPrefix(wkt, "(") && strings.HasSuffix(wkt, ")") {
+		return strings.TrimSpace(wkt[1 : len(wkt)-1]), true
+	}
+	return wkt, false
+}
+
+// splitTop splits a list at the commas outside all parentheses.
+func splitTop(wkt string) ([]string, error) {
+	var members []string
+	depth, start := 0, 0
+	for i, c := range wkt {
+		if c == '(' {
+			depth++
+		} else if c == ')' {
+			depth--
+		} else if c == ',' && depth == 0 {
+			members = append(members, wkt[start:i])
+			start = i + 1
+		}
+		if depth < 0 {
+			break
+		}
+	}
+	if depth != 0 {
+		return nil, errors.New("unbalanced parentheses: " + wkt)
+	}
+	return append(members, wkt[start:]), nil
+}
+
+// splitMembers splits a list, which may be enclosed in parentheses of its own if what it
+// encloses starts with the given parentheses.
+func splitMembers(wkt, open string) ([]string, error) {
+	members, err := splitTop(wkt)
+	if err != nil || len(members) != 1 {
+		return members, err
+	}
+	list, ok := unwrap(wkt)
+	if !ok || !strings.HasPrefix(strings.Join(strings.Fields(list), ""), open) {
+		return members, nil
+	}
+	return splitTop(list)
+}
+
 func PointFromWKT(wkt string) (geo.Geometry, error) {
-	strs := strings.Split(strings.Trim(wkt, " "), " ")
+	strs, err := splitTuple(wkt)
+	if err != nil {
+		return geo.Point{}, err
+	}
 	x, err := strconv.ParseFloat(strs[0], 64)
 	if err != nil {
 		return geo.Point{}, err
@@ -30,14 +88,18 @@ func PointFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
-	wkt = strings.TrimLeft(wkt, "(")
-	wkt = strings.TrimRight(wkt, ")")
-	wkt = strings.Trim(wkt, " ")
-	terms := strings.Split(wkt, ",")
+	terms, err := splitMembers(wkt, "")
+	if err != nil {
+		return nil, err
+	}
 	var mp geo.MultiPoint
 	var mpz geo.MultiPointZ
 	for _, term := range terms {
-		strs := strings.Split(strings.TrimRight(strings.TrimLeft(term, "("), ")"), " ")
+		term, _ = unwrap(term)
+		strs, err := splitTuple(term)
+		if err != nil {
+			return nil, err
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -56,6 +118,9 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 			mp.Append(geo.Point{x, y})
 		}
 	}
+	if len(mp) != 0 && len(mpz) != 0 {
+		return nil, errors.New("positions of different dimensions")
+	}
 	if len(mp) != 0 {
 		return mp, nil
 	} else if len(mpz) != 0 {
@@ -66,13 +131,17 @@ func MultiPointFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func LineStringFromWKT(wkt string) (geo.Geometry, error) {
-	wkt = strings.TrimLeft(wkt, "(")
-	wkt = strings.TrimRight(wkt, ")")
-	terms := strings.Split(wkt, ",")
+	terms, err := splitMembers(wkt, "")
+	if err != nil {
+		return nil, err
+	}
 	var linestring geo.LineString
 	var linestringZ geo.LineStringZ
 	for _, term := range terms {
-		strs := strings.Split(strings.Trim(term, " "), " ")
+		strs, err := splitTuple(term)
+		if err != nil {
+			return nil, err
+		}
 		x, err := strconv.ParseFloat(strs[0], 64)
 		if err != nil {
 			return nil, err
@@ -91,6 +160,9 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 			linestring.Append(geo.Point{x, y})
 		}
 	}
+	if len(linestring) > 0 && len(linestringZ) > 0 {
+		return nil, errors.New("positions of different dimensions")
+	}
 	if len(linestring) > 0 {
 		return linestring, nil
 	} else if len(linestringZ) > 0 {
-- 
2.43.0


From 5d6744f1533efa1f17575277e4415a3899b0f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 52/69] fix: WKT decoding keeps every ring, line and polygon,
 in two and three dimensions

---
 wkt/decode.go | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 8f877fc..539ecdd 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -174,11 +174,17 @@ func LineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitMembers(wkt, "(")
+	if err != nil {
+		return nil, err
+	}
 	var ml geo.MultiLineString
 	var mlz geo.MultiLineStringZ
 	for _, v := range matches {
+		v, ok := unwrap(v)
+		if !ok {
+			return nil, errors.New("member without parentheses: " + v)
+		}
 		linestring, err := LineStringFromWKT(v)
 		if err != nil {
 			return nil, err
@@ -191,6 +197,9 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 			mlz = append(mlz, lineZ)
 		}
 	}
+	if len(ml) > 0 && len(mlz) > 0 {
+		return nil, errors.New("positions of different dimensions")
+	}
 	if len(ml) > 0 {
 		return ml, nil
 	} else if len(mlz) > 0 {
@@ -201,23 +210,39 @@ func MultiLineStringFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func PolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`(\ *[(]\ *(?:\ *(?:[0-9-.Ee]+[ ]+[0-9-.Ee]+)[, ]*\ *)*\ *[)])[, ]*`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitMembers(wkt, "(")
+	if err != nil {
+		return nil, err
+	}
 	var poly geo.Polygon
 	var polyz geo.PolygonZ
 	for _, v := range matches {
+		v, ok := unwrap(v)
+		if !ok {
+			return nil, errors.New("member without parentheses: " + v)
+		}
 		linestring, err := LineStringFromWKT(v)
 		if err != nil {
 			return nil, err
 		}
 		if linestring.Type() == geo.GEOMETRY_LINESTRING {
 			line := linestring.(geo.LineString)
-			poly = append(poly, line.ToRing())
+			ring := line.ToRing()
+			if ring == nil {
+				return nil, errors.New("ring has too few positions")
+			}
+			poly = append(poly, ring)
 		} else if linestring.Type() == geo.GEOMETRY_LINESTRINGZ {
 			line := linestring.(geo.LineStringZ)
+			if len(line) < 2 {
+				return nil, errors.New("ring has too few positions")
+			}
 			polyz = append(polyz, line.ToRing())
 		}
 	}
+	if len(poly) > 0 && len(polyz) > 0 {
+		return nil, errors.New("positions of different dimensions")
+	}
 	if len(poly) > 0 {
 		return poly, nil
 	} else if len(polyz) > 0 {
@@ -228,11 +253,17 @@ func PolygonFromWKT(wkt string) (geo.Geometry, error) {
 }
 
 func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
-	re := regexp.MustCompile(`([(](?:\ *[(]\ *(?:\ *(?:[0-9-.]+[ ]+[0-9-.]+)[, ]*\ *)*\ *[)][, ]*)*[)])`)
-	matches := re.FindStringSubmatch(wkt)
+	matches, err := splitMembers(wkt, "((")
+	if err != nil {
+		return nil, err
+	}
 	var multiPoly geo.MultiPolygon
 	var multiPolyZ geo.MultiPolygonZ
 	for _, v := range matches {
+		v, ok := unwrap(v)
+		if !ok {
+			return nil, errors.New("member without parentheses: " + v)
+		}
 		polygon, err := PolygonFromWKT(v)
 		if err != nil {
 			return nil, err
@@ -246,6 +277,9 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 		}
 
 	}
+	if len(multiPoly) > 0 && len(multiPolyZ) > 0 {
+		return nil, errors.New("positions of different dimensions")
+	}
 	if len(multiPoly) > 0 {
 		return multiPoly, nil
 	} else if len(multiPolyZ) > 0 {
-- 
2.43.0


From 122f3b6b18c62da13bd6a0566be25db89e40adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 53/69] fix: WKT decoding reads past line breaks

---
 wkt/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wkt/decode.go b/wkt/decode.go
index 539ecdd..b78b71a 100644
--- a/wkt/decode.go
+++ b/wkt/decode.go
@@ -292,7 +292,7 @@ func MultiPolygonFromWKT(wkt string) (geo.Geometry, error) {
 func Decode(wkt string) (geo.Geometry, error) {
 	wkt = strings.Trim(wkt, " ")
 	wkt = strings.Replace(wkt, ", ", ",", -1)
-	re := regexp.MustCompile(`([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]`)
+	re := regexp.MustCompile(`(?s)([A-Z]+)\s*[(]\s*(\(*.+\)*)\s*[)]`)
 	match := re.FindStringSubmatch(wkt)
 	if len(match) != 3 {
 		return nil, errors.New("wkt format is error")
-- 
2.43.0


From 8bf9bc7cec35bb3a21e1425bba7b1cffeea833dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 54/69] fix: NearestNeighbors allocates for the objects there
 are, not for k

---
 rtree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtree.go b/rtree.go
index 361fc58..61e5f86 100644
--- a/rtree.go
+++ b/rtree.go
@@ -795,6 +795,9 @@ func (tree *Rtree) NearestNeighbors(k int, p Point) []Spatial {
 	if k <= 0 {
 		return []Spatial{}
 	}
+	if k > tree.Size() {
+		k = tree.Size()
+	}
 	maxBufSize := tree.MaxChildren * tree.Depth()
 	branches := make([]entry, maxBufSize)
 	branchDists := make([]float64, maxBufSize)
-- 
2.43.0


From d96f13ab8b5a49257ebcb835b1d30c12adcfa46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 55/69] fix: close the ring of a box converted to a polygon

---
 box.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box.go b/box.go
index 77bec5a..4043651 100644
--- a/box.go
+++ b/box.go
@@ -43,7 +43,7 @@ func BoxToGeo(b Box) Geometry {
 		//元素是条线 x坐标不同
 		return LineString{p1, p2}
 	}
-	return *NewPolygon(LinearRing{p1, p2, p3, p4})
+	return *NewPolygon(LinearRing{p1, p2, p3, p4, p1})
 }
 
 func calBox(points ...Point) *Box {
-- 
2.43.0


From 5885e7faed3cb751d9984186ca042e4b6fee992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 56/69] fix: convex hull of nearly collinear points panicked or
 lost points

---
 convexhull.go | 75 ++++++++++++++++-----------------------------------
 1 file changed, 23 insertions(+), 52 deletions(-)

diff --git a/convexhull.go b/convexhull.go
index 8700103..8bc4daf 100644
--- a/convexhull.go
+++ b/convexhull.go
@@ -1,7 +1,6 @@
 package geo
 
 import (
-	"math"
 	"sort"
 )
 
@@ -16,75 +15,47 @@ func (p hullPts) Swap(i, j int) {
 	p[i], p[j] = p[j], p[i]
 }
 
+//order by x, then y
 func (p hullPts) Less(i, j int) bool {
-	area := Area2(p[0], p[i], p[j])
-
-	if area == 0 {
-		x := math.Abs(p[i].X-p[0].X) - math.Abs(p[j].X-p[0].X)
-		y := math.Abs(p[i].Y-p[0].Y) - math.Abs(p[j].Y-p[0].Y)
-
-		if x < 0 || y < 0 {
-			return true
-		} else if x > 0 || y > 0 {
-			return false
-		} else {
-			return false
-		}
-	}
-
-	return area > 0
-}
-
-//sorts the points after the first one, which is the fixed origin of the angles
-type hullRest struct{ hullPts }
-
-func (p hullRest) Len() int           { return len(p.hullPts) - 1 }
-func (p hullRest) Swap(i, j int)      { p.hullPts.Swap(i+1, j+1) }
-func (p hullRest) Less(i, j int) bool { return p.hullPts.Less(i+1, j+1) }
-
-func (p hullPts) FindLowestPoint() {
-	m := 0
-	for i := 1; i < len(p); i++ {
-		//If lowest points are on the same line, take the rightmost point
-		if (p[i].Y < p[m].Y) || ((p[i].Y == p[m].Y) && p[i].X > p[m].X) {
-			m = i
-		}
+	if p[i].X != p[j].X {
+		return p[i].X < p[j].X
 	}
-	p[0], p[m] = p[m], p[0]
+	return p[i].Y < p[j].Y
 }
 
+//https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 func ConvexHull(pts ...Point) Polygon {
 	if len(pts) < 3 {
 		return nil
 	}
 	points := append(hullPts(nil), pts...)
+	sort.Sort(points)
 	var stack hullPts
-	points.FindLowestPoint()
-	sort.Sort(hullRest{points})
-	stack = append(stack, points[0])
-	stack = append(stack, points[1])
-	i := 2
-	for i < len(points) {
-		pi := points[i]
-
-		p1 := stack[len(stack)-2]
-		p2 := stack[len(stack)-1]
-
-		if isLeft(p1, p2, pi) {
-			stack = append(stack, pi)
-			i++
-		} else {
-			stack = stack[:len(stack)-1]
-		}
+	//lower chain from left to right, then upper chain back to the first point
+	for _, pi := range points {
+		stack = pushHull(stack, 0, pi)
+	}
+	lower := len(stack) - 1
+	for i := len(points) - 2; i >= 0; i-- {
+		stack = pushHull(stack, lower, points[i])
 	}
+	stack = stack[:len(stack)-1]
 	if len(stack) < 3 {
 		return nil
 	}
 	return *NewPolygonFromPois(stack...)
 }
 
+//adds a point to the chain that starts at the given index, without the points it cuts off
+func pushHull(stack hullPts, start int, pi Point) hullPts {
+	for len(stack) >= start+2 && !isLeft(stack[len(stack)-2], stack[len(stack)-1], pi) {
+		stack = stack[:len(stack)-1]
+	}
+	return append(stack, pi)
+}
+
 func isLeft(p0, p1, p2 Point) bool {
-	return Area2(p0, p1, p2) >= 0
+	return Area2(p0, p1, p2) > 0
 }
 
 func Area2(a, b, c Point) float64 {
-- 
2.43.0


From dba43509772eba055970fdd9acdd3bb3eb6737ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 57/69] fix: rotating a polygon keeps its holes

---
 calcaulation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calcaulation.go b/calcaulation.go
index 99f1784..3064a6b 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -287,7 +287,11 @@ func RotateCW(geo Geometry, center Point, angle float64) Geometry {
 			geo1 := RotateCW(v, center, angle)
 			pts = append(pts, geo1.(Point))
 		}
-		return *NewPolygonFromPois(pts...)
+		rotated := NewPolygonFromPois(pts...)
+		for _, hole := range poly.GetInteriorRing() {
+			rotated.AddInteriorRing(RotateCW(Polygon{hole}, center, angle).(Polygon).GetExteriorRing())
+		}
+		return *rotated
 	}
 	return nil
 }
-- 
2.43.0


From 8c458b663a1983e6f2bf58cc40912c654578fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 58/69] fix: S2 covering of rings across the antimeridian,
 around a pole or without area

---
 googleS2.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/googleS2.go b/googleS2.go
index f84795b..0c25148 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -60,7 +60,11 @@ func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 		poly = *NewPolygonFromPois(pois...)
 	}
 	loops := []*s2.Loop{}
-	loops = append(loops, toLoop(poly.GetExteriorPoints()))
+	loop := toLoop(poly.GetExteriorPoints())
+	if loop == nil {
+		return nil
+	}
+	loops = append(loops, loop)
 	var cellIDsInt []uint64
 	polygon := s2.PolygonFromLoops(loops)
 	latlng := s2.LatLngFromDegrees(poly.GetExteriorPoints()[0].Y, poly.GetExteriorPoints()[0].X)
@@ -74,11 +78,25 @@ func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 
 func toLoop(points []Point) *s2.Loop {
 	var pts []s2.Point
-	for _, pt := range points {
+	for i, pt := range points {
+		// s2 loops are closed implicitly and have no repeated vertices
+		if i > 0 && (pt == points[i-1] || i == len(points)-1 && pt == points[0]) {
+			continue
+		}
 		pts = append(pts, s2.PointFromLatLng(s2.LatLngFromDegrees(pt.Y, pt.X)))
 	}
+	if len(pts) < 3 {
+		return nil
+	}
 	for i, j := 0, len(pts)-1; i < j; i, j = i+1, j-1 {
 		pts[i], pts[j] = pts[j], pts[i]
 	}
-	return s2.LoopFromPoints(pts)
+	loop := s2.LoopFromPoints(pts)
+	// the planar vertex order says nothing about rings across the antimeridian or around a pole
+	loop.Normalize()
+	if loop.RectBound().IsFull() {
+		// a ring without area has no meaningful turning angle either
+		loop.Invert()
+	}
+	return loop
 }
-- 
2.43.0


From f9ebf9034fcdd513e50abcf9beeabaf6004d6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 59/69] fix: geohash of latitude 90 and longitude 180

---
 geohash.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geohash.go b/geohash.go
index a55f711..9093c00 100644
--- a/geohash.go
+++ b/geohash.go
@@ -1,11 +1,14 @@
 package geo
 
 import (
+	"math"
+
 	"github.com/mmcloughlin/geohash"
 )
 
 func GeohashEncode(pt Point, Precision uint, srid SRID) string {
-	return geohash.EncodeWithPrecision(pt.Y, pt.X, Precision)
+	// the last row and column of cells include latitude 90 and longitude 180
+	return geohash.EncodeWithPrecision(math.Min(pt.Y, 90-1e-9), math.Min(pt.X, 180-1e-9), Precision)
 }
 
 func GeohashGetCenter(hash string, srid SRID) Point {
-- 
2.43.0


From 41151c54ecbff136d0d1892e905120c82afc9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 60/69] fix: DestinationPoint starting from a pole

---
 point.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/point.go b/point.go
index f185e61..0b79533 100644
--- a/point.go
+++ b/point.go
@@ -78,8 +78,9 @@ func DestinationPoint(lat, lon, distance, bearing float64) (float64, float64) {
 
 	sinφ2 := math.Sin(φ1)*math.Cos(δ) + math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
 	φ2 := math.Asin(math.Max(-1, math.Min(1, sinφ2)))
-	y := math.Sin(θ) * math.Sin(δ) * math.Cos(φ1)
-	x := math.Cos(δ) - math.Sin(φ1)*math.Sin(φ2)
+	// both reduced by cosφ1, which vanishes at the poles
+	y := math.Sin(θ) * math.Sin(δ)
+	x := math.Cos(φ1)*math.Cos(δ) - math.Sin(φ1)*math.Sin(δ)*math.Cos(θ)
 	λ2 := λ1 + math.Atan2(y, x)
 	return toDegrees(φ2), math.Mod((toDegrees(λ2)+540), 360) - 180 // normalise to −180..+180°
 }
-- 
2.43.0


From 8cb327b311b09e57c181a1356d9237cc80aac38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 61/69] fix: the parts of a split line do not share points

---
 lineString.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineString.go b/lineString.go
index 3752e62..c382371 100644
--- a/lineString.go
+++ b/lineString.go
@@ -145,7 +145,7 @@ func (line LineString) SplitByIndex(index int) (LineString, LineString) {
 	if index < 0 || index > len(line)-1 {
 		return nil, nil
 	}
-	line1 := line[: index+1 : index+1]
-	line2 := line[index:]
+	line1 := append(LineString{}, line[:index+1]...)
+	line2 := append(LineString{}, line[index:]...)
 	return line1, line2
 }
-- 
2.43.0


From 53faf83f24faf51a32f42423c256d37912260042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 62/69] fix: distances beyond 2^31 are not cut off

---
 calcaulation.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 3064a6b..267ee7d 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -234,6 +234,7 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 		return 0
 	}
 	var distance = INF
+	first := true // INF stands for no edge at all, it is no limit
 	for _, lr := range poly {
 		ptCount := lr.GetPointCount() - 1
 		for i := 0; i < ptCount; i++ {
@@ -244,8 +245,9 @@ func PointPolygonDistance(p Point, poly Polygon, srid SRID) float64 {
 
 			segmentDistance, _ := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
 
-			if segmentDistance < distance {
+			if first || segmentDistance < distance {
 				distance = segmentDistance
+				first = false
 			}
 		}
 	}
@@ -263,7 +265,7 @@ func PointHitLineString(p Point, line LineString, srid SRID) (Point, int, float6
 
 		segmentDistance, tempPt := PointToSegmentDistance(p, previousPoint, currentPoint, srid)
 
-		if segmentDistance < distance {
+		if i == 0 || segmentDistance < distance {
 			distance = segmentDistance
 			nearestIndex = i
 			nearestPt = tempPt
@@ -307,25 +309,25 @@ func HausdorffDistance(line1, line2 LineString, srid SRID) float64 {
 	maxDis := 0.0
 	for _, pt1 := range line1 {
 		minDis := INF
-		for _, pt2 := range line2 {
+		for i, pt2 := range line2 {
 			d := PointDistance(pt1, pt2, srid)
-			if minDis > d {
+			if i == 0 || minDis > d {
 				minDis = d
 			}
 		}
-		if maxDis < minDis && minDis != INF {
+		if maxDis < minDis {
 			maxDis = minDis
 		}
 	}
 	for _, pt1 := range line2 {
 		minDis := INF
-		for _, pt2 := range line1 {
+		for i, pt2 := range line1 {
 			d := PointDistance(pt1, pt2, srid)
-			if minDis > d {
+			if i == 0 || minDis > d {
 				minDis = d
 			}
 		}
-		if maxDis < minDis && minDis != INF {
+		if maxDis < minDis {
 			maxDis = minDis
 		}
 	}
-- 
2.43.0


From 52bdacbdf142c5de80b91dd30a9ac49b29c5afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 63/69] fix: find and remove stored objects without points by
 their ID

---
 rtree.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rtree.go b/rtree.go
index 61e5f86..eb234e8 100644
--- a/rtree.go
+++ b/rtree.go
@@ -703,11 +703,19 @@ func (tree *Rtree) searchIntersectWithCond(results []Spatial, n *node, bb *Box,
 }
 
 func (tree *Rtree) SearchBySpatialID(id string) []Spatial {
-	condition := func(object ...Spatial) bool {
-		return id == object[0].ID
+	return tree.root.searchID([]Spatial{}, id)
+}
+
+// searchID visits every object: those without points have no box that a search could meet.
+func (n *node) searchID(results []Spatial, id string) []Spatial {
+	for _, e := range n.entries {
+		if !n.leaf {
+			results = e.child.searchID(results, id)
+		} else if e.obj.ID == id {
+			results = append(results, e.obj)
+		}
 	}
-	res := tree.SearchIntersectWithCond(tree.root.computeBoundingBox(), condition)
-	return res
+	return results
 }
 
 // GetAllBoundingBoxes returning slice of bounding boxes by traversing tree. Slice
-- 
2.43.0


From bf951bd3598cc3266594750c292df7eabd9f2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:54 +0000
Subject: [PATCH 64/69] fix: no S2 covering for polygons with fewer than three
 distinct vertices

---
 googleS2.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/googleS2.go b/googleS2.go
index 0c25148..27b2c07 100644
--- a/googleS2.go
+++ b/googleS2.go
@@ -77,15 +77,20 @@ func S2RegionCoverer(poly Polygon, level int, srid SRID) []uint64 {
 }
 
 func toLoop(points []Point) *s2.Loop {
+	// s2 loops are closed implicitly and have no repeated vertices
+	for len(points) > 1 && points[len(points)-1] == points[0] {
+		points = points[:len(points)-1]
+	}
 	var pts []s2.Point
+	distinct := make(map[Point]bool)
 	for i, pt := range points {
-		// s2 loops are closed implicitly and have no repeated vertices
-		if i > 0 && (pt == points[i-1] || i == len(points)-1 && pt == points[0]) {
+		if i > 0 && pt == points[i-1] {
 			continue
 		}
+		distinct[pt] = true
 		pts = append(pts, s2.PointFromLatLng(s2.LatLngFromDegrees(pt.Y, pt.X)))
 	}
-	if len(pts) < 3 {
+	if len(distinct) < 3 {
 		return nil
 	}
 	for i, j := 0, len(pts)-1; i < j; i, j = i+1, j-1 {
-- 
2.43.0


From 914c2f913a07cbd255f118fdc56b52050de871d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 65/69] fix: point in polygon near vertices level with the
 point and in small polygons

---
 contain.go | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/contain.go b/contain.go
index cbcbe30..bde9c42 100644
--- a/contain.go
+++ b/contain.go
@@ -1,20 +1,5 @@
 package geo
 
-import "math"
-
-// const delta float64 = 1e-6
-
-func dcmp(x float64) int {
-	if math.Abs(x) < COORDPRESION {
-		return 0
-	} else if x > 0 {
-		return 1
-	} else if x < 0 {
-		return -1
-	}
-	return 0
-}
-
 //rebuild by hzw
 func IsPointInPolygon(point Point, poly Polygon) GeometryRealation {
 	isIn := false
@@ -29,8 +14,11 @@ func IsPointInPolygon(point Point, poly Polygon) GeometryRealation {
 			return RELA_TOUCH
 		}
 		//射线法判断 1 min(P1.y,P2.y)<P.y<=max(P1.y,P2.y) 2 point的射线相交 http://blog.letow.top/2017/11/13/vector-cross-product-cal-intersection/
-		if (dcmp(p1.Y-point.Y) > 0) != (dcmp(p2.Y-point.Y) > 0) && dcmp(point.X-(point.Y-p1.Y)*(p1.X-p2.X)/(p1.Y-p2.Y)-p1.X) < 0 {
-			isIn = !isIn
+		if (p1.Y > point.Y) != (p2.Y > point.Y) {
+			side := (p2.X-p1.X)*(point.Y-p1.Y) - (point.X-p1.X)*(p2.Y-p1.Y)
+			if (side > 0) == (p2.Y > p1.Y) {
+				isIn = !isIn
+			}
 		}
 	}
 	if isIn {
-- 
2.43.0


From 0e93c6fe54ccca9930848de97d9f67ec6f37aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 66/69] fix: node boxes handed to the caller are the tree's own

---
 rtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtree.go b/rtree.go
index eb234e8..7f8a9a2 100644
--- a/rtree.go
+++ b/rtree.go
@@ -438,7 +438,8 @@ func (n *node) getAllBoundingBoxes() []*Box {
 		if e.child == nil {
 			return Boxs
 		}
-		BoxsInter := append(e.child.getAllBoundingBoxes(), e.bb)
+		bb := *e.bb // a copy, so that the caller cannot change the tree
+		BoxsInter := append(e.child.getAllBoundingBoxes(), &bb)
 		Boxs = append(Boxs, BoxsInter...)
 	}
 	return Boxs
-- 
2.43.0


From c27cfa9bf1f09563b74a25347d337f3fcf6ca484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 67/69] fix: compute the area of a ring relative to its first
 vertex

Far from the origin the products of absolute coordinates cancel: a 10 cm
square in Web Mercator had an area wrong by more than its own size, and
IsCCW reported the wrong direction.
---
 calcaulation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/calcaulation.go b/calcaulation.go
index 267ee7d..e61e5a0 100644
--- a/calcaulation.go
+++ b/calcaulation.go
@@ -55,8 +55,9 @@ func relativeArea(poly Polygon) float64 {
 	for i := 0; i < ptCount; i++ {
 		//最后一个点的处理
 		j := (i + 1) % ptCount
-		area += lr[i].X * lr[j].Y
-		area -= lr[i].Y * lr[j].X
+		//相对第一个点计算，避免远离原点时的精度损失
+		area += (lr[i].X - lr[0].X) * (lr[j].Y - lr[0].Y)
+		area -= (lr[i].Y - lr[0].Y) * (lr[j].X - lr[0].X)
 	}
 	area /= 2
 	return area
-- 
2.43.0


From 12cc44f0f6e8b01ce3848726b9248f620fc5b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 68/69] fix: UTM zone next to longitude 180 is 60

Adding 180 to the double below 180 rounds to 360, which gave zone 61.
---
 utm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utm.go b/utm.go
index dcbdf7b..71196de 100755
--- a/utm.go
+++ b/utm.go
@@ -266,10 +266,11 @@ func latLonToZoneNumber(latitude float64, longitude float64) int {
 		}
 	}
 
-	if longitude == 180 {
+	zoneNumber := int((longitude+180)/6) + 1
+	if zoneNumber > 60 { // 180 degrees, and what is next to it, once 180 is added
 		return 60
 	}
-	return int((longitude+180)/6) + 1
+	return zoneNumber
 }
 
 func zoneNumberToCentralLongitude(zoneNumber int) int {
-- 
2.43.0


From b68d653f28e1b6169209431f2214150bb1a06826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 69/69] fix: the union of a single box is that box itself

---
 box.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/box.go b/box.go
index 4043651..c0ef010 100644
--- a/box.go
+++ b/box.go
@@ -149,7 +149,8 @@ func BoxUnion(boxs ...*Box) *Box {
 	if len(boxs) == 0 {
 		return &Box{}
 	}
-	box := boxs[0]
+	first := *boxs[0] // a copy, so that the union is never one of the boxes given
+	box := &first
 	for _, b1 := range boxs[1:] {
 		box = box.Union(b1)
 	}
-- 
2.43.0

