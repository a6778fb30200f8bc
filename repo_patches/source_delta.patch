From bfab427e79f2395bf4eada30ca11d764f1180eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:32 +0000
Subject: [PATCH 01/10] fix: planar intersection vertices sorted last were not
 reported

The group of equal vertices at the end of the sorted list was never
flushed, so the self-intersection or junction with the largest x was lost.
---
 lnr/fc.go   | 6 ++++++
 lnr/self.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lnr/fc.go b/lnr/fc.go
index 505e9a6..789af29 100644
--- a/lnr/fc.go
+++ b/lnr/fc.go
@@ -56,5 +56,11 @@ func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
 		d = 0
 		indexes = indexes[:0]
 	}
+
+	if d > 1 { //group at the end of the sorted points
+		for _, v := range indexes {
+			results[v.fid] = append(results[v.fid], v.index)
+		}
+	}
 	return results
 }
diff --git a/lnr/self.go b/lnr/self.go
index b541027..0bd976b 100644
--- a/lnr/self.go
+++ b/lnr/self.go
@@ -57,6 +57,12 @@ func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
 		d = 0
 		indices = indices[:0]
 	}
+
+	if d > 1 { //group at the end of the sorted points
+		var cg = ctx.New(points[len(points)-1].Point, 0, -1).AsPlanarVertex()
+		cg.Meta.Planar = iter.SortedIntsSet(indices)
+		results.Push(cg)
+	}
 	return results
 }
 
-- 
2.43.0


From 31ce4e24203c7943bf046f1ae2e889b675a31269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:36 +0000
Subject: [PATCH 02/10] fix: a merge with the previous fragment was validated
 with the next one missing

---
 constdp/node_aggregates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constdp/node_aggregates.go b/constdp/node_aggregates.go
index 891dce6..a00c057 100644
--- a/constdp/node_aggregates.go
+++ b/constdp/node_aggregates.go
@@ -92,7 +92,8 @@ func (self *ConstDP) AggregateSimpleSegments(
 				merged = true
 			} else {
 				merged = false
-				insertList = append(insertList, *nxt)
+				// next is a neighbour again : validate prev against it
+				db.Load([]node.Node{*nxt})
 			}
 		}
 
-- 
2.43.0


From 1dc94799fd7435c0de5dad7cc4a1119d300584bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 03/10] fix: straight stretches that double back were exempt
 from all relations

---
 constdp/simple_0.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 5fc1b33..faeec65 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -40,8 +40,11 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			}
 
 			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok {
-				continue
+			//and on the segment unless they extend beyond its ends
+			if ln, ok := hull.Geom.(*geom.LineString); ok {
+				if box := hull.Segment().Bounds(); box.Equals(ln.BBox()) {
+					continue
+				}
 			}
 
 			// self intersection constraint
-- 
2.43.0


From 954775a3109ebd7309e9658fa3988c74a1627ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 04/10] fix: stretches were not rechecked against a neighbour
 that became a segment

---
 constdp/simple_0.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index faeec65..6e235ac 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -35,16 +35,18 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			var hull = in[i]
 			var self = hull.Instance.(*ConstDP)
 
-			if hull.Range.Size() == 1 { //segment
-				continue
-			}
-
-			//if hull geometry is line then points are collinear
-			//and on the segment unless they extend beyond its ends
-			if ln, ok := hull.Geom.(*geom.LineString); ok {
-				if box := hull.Segment().Bounds(); box.Equals(ln.BBox()) {
-					continue
+			if isSegment(hull) {
+				// nothing to deform, but neighbours may have to give way to it
+				if self.Opts.AvoidNewSelfIntersects {
+					constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
 				}
+				for _, o := range selections {
+					if o != hull && o.Range.Size() > 1 {
+						out <- o
+					}
+				}
+				selections = selections[:0]
+				continue
 			}
 
 			// self intersection constraint
@@ -82,6 +84,20 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 	return results
 }
 
+//isSegment - is hull the same point set as its segment
+func isSegment(hull *node.Node) bool {
+	if hull.Range.Size() == 1 {
+		return true
+	}
+	//if hull geometry is line then points are collinear
+	//and on the segment unless they extend beyond its ends
+	if ln, ok := hull.Geom.(*geom.LineString); ok {
+		var box = hull.Segment().Bounds()
+		return box.Equals(ln.BBox())
+	}
+	return false
+}
+
 func chunkTasks(vals []*node.Node, concurrency int) [][]*node.Node {
 	var n = len(vals)
 	var chunkSize = n / concurrency
-- 
2.43.0


From 8943250ecccf4547ebe716ac6d1adc6b9534eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 05/10] fix: candidates of different lines with equal ranges
 overwrote each other

---
 deform/cls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deform/cls.go b/deform/cls.go
index 9c109be..440fc1e 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -26,7 +26,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[int]*node.Node)
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -64,10 +64,10 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[sa.Id] = sa
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[sb.Id] = sb
 		}
 	}
 
-- 
2.43.0


From 0cbea8f503f7f4d54e7ebcf4713aa103ce9d2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 06/10] fix: crossings were preserved only when planar
 self-intersections were too

---
 constrain/toself.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constrain/toself.go b/constrain/toself.go
index ee75d0a..022f0e7 100644
--- a/constrain/toself.go
+++ b/constrain/toself.go
@@ -17,7 +17,7 @@ func ToSelfIntersects(id *iter.Igen,
 	options *opts.Opts, constVerts []int,
 ) ([]node.Node, bool, []int) {
 	var atVertexSet = make(map[int]bool)
-	if !options.PlanarSelf {
+	if !options.PlanarSelf && !options.NonPlanarSelf {
 		return nodes, true, []int{}
 	}
 
-- 
2.43.0


From 79a7e7c5ca86e3b1ff5fe2661da0df945b37541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 07/10] fix: features of a collection were joined into one
 feature with the first one's properties

---
 geometry/geojson.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index cd62b8b..3afb3cb 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -47,9 +47,10 @@ func ReadInputConstraints(inputJsonFile string) []IGeometry {
 }
 
 func parseInputLinearFeatures(inputs []string) []*Polyline {
+	var idx = 0 //feature number
 	var plns = make([]*Polyline, 0, len(inputs))
 
-	for idx, fjson := range inputs {
+	for _, fjson := range inputs {
 		var jtype JSONType
 		var err = json.Unmarshal([]byte(fjson), &jtype)
 		checkError(err)
@@ -59,15 +60,18 @@ func parseInputLinearFeatures(inputs []string) []*Polyline {
 			checkError(err)
 			var feat = &geojson.Feature{Geometry: g, Type: string(g.Type)}
 			plns = append(plns, createPolylineGeoms(idx, feat)...)
+			idx++
 		} else if jtype.isFeatureType() {
 			feat, err := geojson.UnmarshalFeature([]byte(fjson))
 			checkError(err)
 			plns = append(plns, createPolylineGeoms(idx, feat)...)
+			idx++
 		} else if jtype.isFeatureCollectionType() {
 			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
 			checkError(err)
 			for _, feat := range feats.Features {
 				plns = append(plns, createPolylineGeoms(idx, feat)...)
+				idx++
 			}
 		}
 	}
-- 
2.43.0


From 6ec8fc5bba55e6be10e2e75bdf97c15d67dc4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:45 +0000
Subject: [PATCH 08/10] fix: output failed when an input feature had no lines

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 20239a1..fe01c72 100644
--- a/encode.go
+++ b/encode.go
@@ -38,7 +38,7 @@ func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
 	var dictionary = groupById(plns)
 	var indxs = indices(dictionary)
 	var jsons = make([]string, 0, len(plns))
-	for idx := range indxs {
+	for _, idx := range indxs {
 		var plns = dictionary[idx]
 		sort.SliceStable(plns, func(i, j int) bool {
 			return plns[i].pos < plns[j].pos
-- 
2.43.0


From caf12f21dbcdaa6eb1da9070449049b2d79daf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:56 +0000
Subject: [PATCH 09/10] fix: a feature without geometry stopped the reading of
 a file

---
 geometry/geojson.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index 3afb3cb..8f9f729 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -109,6 +109,9 @@ func parseConstraintFeatures(inputs []string) []IGeometry {
 
 func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 	var geometries = make([]*Polyline, 0)
+	if feat.Geometry == nil { //feature without a location
+		return geometries
+	}
 	if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
 		var objs = lineStringFromFeature(idx, feat)
 		for _, o := range objs {
@@ -120,6 +123,9 @@ func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 
 func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
 	var geometries = make([]IGeometry, 0)
+	if feat.Geometry == nil { //feature without a location
+		return geometries
+	}
 	if feat.Geometry.IsPoint() || feat.Geometry.IsMultiPoint() {
 		var objs = pointsFromFeature(idx, feat)
 		for _, o := range objs {
-- 
2.43.0


From c590920b5dc8b81712e0a01a24f972f69d8fe8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:23 +0000
Subject: [PATCH 10/10] fix: synchronised distance where the ends of a stretch
 have the same time

The expected position was NaN: such a stretch was accepted whatever its
vertices, or split at its last vertex, which panicked.
---
 offset/sed.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/offset/sed.go b/offset/sed.go
index af8da8a..80d86e2 100644
--- a/offset/sed.go
+++ b/offset/sed.go
@@ -36,6 +36,9 @@ func maxSEDOffset(coordinates geom.Coords, hypotFn func(float64, float64) float6
 	var fb = direction(v[geom.X], v[geom.Y])
 	var vx, vy = math.Cos(fb), math.Sin(fb)
 	var dt = bt - at
+	if dt == 0 { // no time between the ends : expected at the first of them
+		mij, dt = 0, 1
+	}
 
 	for k := 1; k < n; k++ { //exclusive range between 0 < k < n
 		pt = coordinates.Pt(k)
-- 
2.43.0

