From 193502ab62243046c3b29d85f0b6dda96734b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 01/57] fix: put circle-to-poly contacts on the near side of a
 rounded polygon

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 58f03a1..87c078d 100644
--- a/collision.go
+++ b/collision.go
@@ -170,7 +170,7 @@ func CircleToPoly(info *CollisionInfo) {
 
 	if points.d <= circle.r+poly.r {
 		info.n = points.n
-		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(poly.r)), 0)
+		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)
 	}
 }
 
-- 
2.43.0


From 3dbd3672f40e30e7974d9767de53d8f3ee0e4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 02/57] fix: report ShapesCollide distances with the right sign
 when the shapes are swapped

---
 shape.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 51f7123..98ae8eb 100644
--- a/shape.go
+++ b/shape.go
@@ -264,7 +264,8 @@ func ShapesCollide(a, b *Shape) ContactPointSet {
 			set.Points[i].PointA = p1
 			set.Points[i].PointB = p2
 		}
-		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)
+		// p1, p2 and info.n are all in the order Collide used.
+		set.Points[i].Distance = p2.Sub(p1).Dot(info.n)
 	}
 
 	return set
-- 
2.43.0


From bac05e053ab6c48ebc83cc319b5472ceed0128e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 03/57] fix: do not let zero-length segments turn Clamp01 into
 NaN

---
 vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector.go b/vector.go
index cea4a8c..3f05478 100644
--- a/vector.go
+++ b/vector.go
@@ -110,7 +110,7 @@ func Clamp(f, min, max float64) float64 {
 }
 
 func Clamp01(f float64) float64 {
-	return math.Max(0, math.Min(f, 1))
+	return Clamp(f, 0, 1)
 }
 
 func Lerp(f1, f2, t float64) float64 {
-- 
2.43.0


From d8b5b61f302db048edc75aa0cb880536c968ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 04/57] fix: give GJK a usable axis when shape centers or
 minkowski points coincide

---
 collision.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/collision.go b/collision.go
index 87c078d..02bc1a4 100644
--- a/collision.go
+++ b/collision.go
@@ -235,6 +235,15 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	// First try calculating the MSA from the minkowski difference edge.
 	// This gives us a nice, accurate MSA when the surfaces are close together.
 	delta := v1.ab.Sub(v0.ab)
+	if delta.Equal(Vector{}) {
+		// The minkowski difference is a single point.
+		d := p.Length()
+		if d == 0 {
+			return ClosestPoints{pa, pb, Vector{1, 0}, 0, id}
+		}
+		return ClosestPoints{pa, pb, p.Mult(1 / d), d, id}
+	}
+
 	n := delta.ReversePerp().Normalize()
 	d := n.Dot(p)
 
@@ -367,8 +376,18 @@ func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 	} else {
 		// No cached indexes, use the shapes' bounding box centers as a guess for a starting axis.
 		axis := ctx.shape1.bb.Center().Sub(ctx.shape2.bb.Center()).Perp()
+		if axis.Equal(Vector{}) {
+			// The centers coincide, any axis will do.
+			axis = Vector{1, 0}
+		}
 		v0 = ctx.Support(axis)
 		v1 = ctx.Support(axis.Neg())
+		if v0.ab.Equal(v1.ab) {
+			// The minkowski difference has no extent along that axis.
+			axis = axis.Perp()
+			v0 = ctx.Support(axis)
+			v1 = ctx.Support(axis.Neg())
+		}
 	}
 
 	points := GJKRecurse(ctx, v0, v1, 1)
-- 
2.43.0


From d14edebc2726182e0151f15ee843c249af7680af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 05/57] fix: keep the segment normal on the same side in
 SetEndpoints and non-zero for zero-length segments

---
 segment.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index 5f0fe87..05795e0 100644
--- a/segment.go
+++ b/segment.go
@@ -62,7 +62,7 @@ func (seg *Segment) TransformB() Vector {
 func (seg *Segment) SetEndpoints(a, b Vector) {
 	seg.a = a
 	seg.b = b
-	seg.n = b.Sub(a).Normalize().Perp()
+	seg.n = segmentNormal(a, b)
 
 	mass := seg.massInfo.m
 	seg.massInfo = NewSegmentMassInfo(seg.massInfo.m, seg.a, seg.b, seg.r)
@@ -157,11 +157,19 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 	}
 }
 
+func segmentNormal(a, b Vector) Vector {
+	if a.Equal(b) {
+		// A point has no direction, any unit vector will do.
+		return Vector{1, 0}
+	}
+	return b.Sub(a).Normalize().ReversePerp()
+}
+
 func NewSegment(body *Body, a, b Vector, r float64) *Shape {
 	segment := &Segment{
 		a: a,
 		b: b,
-		n: b.Sub(a).Normalize().ReversePerp(),
+		n: segmentNormal(a, b),
 
 		r:         r,
 		a_tangent: Vector{},
-- 
2.43.0


From 00f7749b8eb3e8d2da34888ec78b1132a1815126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 06/57] fix: treat shapes end to end on one line as apart
 instead of overlapping sideways

---
 collision.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collision.go b/collision.go
index 02bc1a4..d9a389e 100644
--- a/collision.go
+++ b/collision.go
@@ -247,13 +247,14 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	n := delta.ReversePerp().Normalize()
 	d := n.Dot(p)
 
-	if d <= 0 || (-1 < t && t < 1) {
+	d2 := p.Length()
+	if d <= -1e-10*d2 || (-1 < t && t < 1) {
 		// If the shapes are overlapping, or we have a regular vertex/edge collision, we are done.
+		// A closest vertex collinear with the edge (d == 0) is not an overlap.
 		return ClosestPoints{pa, pb, n, d, id}
 	}
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
-	d2 := p.Length()
 	n2 := p.Mult(1 / (d2 + 1e-15))
 
 	return ClosestPoints{pa, pb, n2, d2, id}
-- 
2.43.0


From dc4bd85ebc3683c336489bf6899d889e3a66ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 07/57] fix: contact an end-on segment at its closest end

---
 collision.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collision.go b/collision.go
index d9a389e..e67519e 100644
--- a/collision.go
+++ b/collision.go
@@ -334,6 +334,12 @@ func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 	dE2A := e2.a.p.Cross(n)
 	dE2B := e2.b.p.Cross(n)
 
+	// An edge parallel to the normal only touches with the end that is closest.
+	if math.Abs(dE1B-dE1A) <= 1e-10*e1.a.p.Distance(e1.b.p) || math.Abs(dE2B-dE2A) <= 1e-10*e2.a.p.Distance(e2.b.p) {
+		info.PushContact(points.a.Add(n.Mult(e1.r)), points.b.Add(n.Mult(-e2.r)), HashPair(e1.a.hash, e2.a.hash))
+		return
+	}
+
 	// TODO + min isn't a complete fix
 	e1Denom := 1 / (dE1B - dE1A + 1e-15)
 	e2Denom := 1 / (dE2B - dE2A + 1e-15)
-- 
2.43.0


From 68a25a9b2df48f8397a4bc7c9f7d8b25ccc11078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 08/57] fix: no NaN from a point query at the center of a
 circle

---
 circle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circle.go b/circle.go
index 11fce2d..7f8daf6 100644
--- a/circle.go
+++ b/circle.go
@@ -55,7 +55,6 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	r := circle.r
 
 	info.Shape = circle.Shape
-	info.Point = circle.tc.Add(delta.Mult(r / d))
 	info.Distance = d - r
 
 	if d > MAGIC_EPSILON {
@@ -63,6 +62,7 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	} else {
 		info.Gradient = Vector{0, 1}
 	}
+	info.Point = circle.tc.Add(info.Gradient.Mult(r))
 }
 
 func (circle *Circle) SegmentQuery(a, b Vector, radius float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 9478656b73b19db066cee34e299e6d7e4d4d1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 09/57] fix: use the world space normal, and a surface point,
 for point queries on a segment's core

---
 segment.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/segment.go b/segment.go
index 05795e0..600648d 100644
--- a/segment.go
+++ b/segment.go
@@ -89,22 +89,17 @@ func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	delta := p.Sub(closest)
 	d := delta.Length()
 	r := seg.r
-	g := delta.Mult(1 / d)
 
 	info.Shape = seg.Shape
-	if d != 0 {
-		info.Point = closest.Add(g.Mult(r))
-	} else {
-		info.Point = closest
-	}
 	info.Distance = d - r
 
 	// Use the segment's normal if the distance is very small.
 	if d > MAGIC_EPSILON {
-		info.Gradient = g
+		info.Gradient = delta.Mult(1 / d)
 	} else {
-		info.Gradient = seg.n
+		info.Gradient = seg.tn
 	}
+	info.Point = closest.Add(info.Gradient.Mult(r))
 }
 
 func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 6a66d629c41019e9c5326d387c63974a1c081e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 10/57] fix: no NaN from a point query on the edge of a polygon

---
 poly.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/poly.go b/poly.go
index fbc370b..a7ee7e1 100644
--- a/poly.go
+++ b/poly.go
@@ -98,17 +98,16 @@ func (poly *PolyShape) PointQuery(p Vector, info *PointQueryInfo) {
 	} else {
 		dist = -minDist
 	}
-	g := p.Sub(closestPoint).Mult(1.0 / dist)
 
 	info.Shape = poly.Shape
-	info.Point = closestPoint.Add(g.Mult(r))
 	info.Distance = dist - r
 
 	if minDist > MAGIC_EPSILON {
-		info.Gradient = g
+		info.Gradient = p.Sub(closestPoint).Mult(1.0 / dist)
 	} else {
 		info.Gradient = closestNormal
 	}
+	info.Point = closestPoint.Add(info.Gradient.Mult(r))
 }
 
 func (poly *PolyShape) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 6efdd0e8eadff2c8f7a809092d9aa72d68830946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 11/57] fix: report the surface point and outward normal for
 segment queries that start inside a shape

---
 shape.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 98ae8eb..85a13dc 100644
--- a/shape.go
+++ b/shape.go
@@ -215,7 +215,8 @@ func (shape *Shape) SegmentQuery(a, b Vector, radius float64, info *SegmentQuery
 	if nearest.Distance <= radius {
 		info.Shape = shape
 		info.Alpha = 0
-		info.Normal = a.Sub(nearest.Point).Normalize()
+		info.Point = nearest.Point
+		info.Normal = nearest.Gradient
 	} else {
 		shape.Class.SegmentQuery(a, b, radius, info)
 	}
-- 
2.43.0


From ceb2626ff37aa927050fe5dda57c1b0703aba97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 12/57] fix: segment queries that start beside the end of a
 segment hit its end cap

---
 segment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index 600648d..c18c638 100644
--- a/segment.go
+++ b/segment.go
@@ -1,5 +1,7 @@
 package cp
 
+import "math"
+
 type Segment struct {
 	*Shape
 
@@ -120,7 +122,8 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 	segB := seg.tb.Add(segOffset)
 	delta := b.Sub(a)
 
-	if delta.Cross(segA)*delta.Cross(segB) <= 0 {
+	// The side can only be hit when starting outside of the slab around the segment, otherwise only the ends can.
+	if math.Abs(d) >= r && delta.Cross(segA)*delta.Cross(segB) <= 0 {
 		dOffset := d
 		if d > 0 {
 			dOffset -= r
-- 
2.43.0


From edc79e720afba1c7baa3c23b4c1d5c8793e53903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 13/57] fix: segment queries do not slip through the vertices
 of a polygon

---
 poly.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/poly.go b/poly.go
index a7ee7e1..acbf4ae 100644
--- a/poly.go
+++ b/poly.go
@@ -135,7 +135,9 @@ func (poly *PolyShape) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryI
 		dtMin := n.Cross(planes[(i-1+count)%count].v0)
 		dtMax := n.Cross(planes[i].v0)
 
-		if dtMin <= dt && dt <= dtMax {
+		// Leave no gap between the edges for a segment through a vertex.
+		eps := 1e-12 * (math.Abs(dtMin) + math.Abs(dtMax))
+		if dtMin-eps <= dt && dt <= dtMax+eps {
 			info.Shape = poly.Shape
 			info.Point = a.Lerp(b, t).Sub(n.Mult(r2))
 			info.Normal = n
-- 
2.43.0


From bdc25265086236587872571a16a14b17e67eac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 14/57] fix: segment queries along a thin segment do not report
 hits beyond its ends

---
 segment.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/segment.go b/segment.go
index c18c638..4732f49 100644
--- a/segment.go
+++ b/segment.go
@@ -115,15 +115,10 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 	} else {
 		flippedN = n
 	}
-	segOffset := flippedN.Mult(r).Sub(a)
-
-	// Make the endpoints relative to 'a' and move them by the thickness of the segment.
-	segA := seg.ta.Add(segOffset)
-	segB := seg.tb.Add(segOffset)
 	delta := b.Sub(a)
 
 	// The side can only be hit when starting outside of the slab around the segment, otherwise only the ends can.
-	if math.Abs(d) >= r && delta.Cross(segA)*delta.Cross(segB) <= 0 {
+	if math.Abs(d) >= r {
 		dOffset := d
 		if d > 0 {
 			dOffset -= r
@@ -135,13 +130,24 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 
 		if ad*bd < 0 {
 			t := ad / (ad - bd)
-
-			info.Shape = seg.Shape
-			info.Point = a.Lerp(b, t).Sub(flippedN.Mult(r2))
-			info.Normal = flippedN
-			info.Alpha = t
+			point := a.Lerp(b, t)
+
+			// The side ends where the end caps begin.
+			dt := n.Cross(point)
+			dtA := n.Cross(seg.ta)
+			dtB := n.Cross(seg.tb)
+
+			if math.Min(dtA, dtB) <= dt && dt <= math.Max(dtA, dtB) {
+				info.Shape = seg.Shape
+				info.Point = point.Sub(flippedN.Mult(r2))
+				info.Normal = flippedN
+				info.Alpha = t
+				return
+			}
 		}
-	} else if r != 0 {
+	}
+
+	if r != 0 {
 		info1 := SegmentQueryInfo{nil, b, Vector{}, 1}
 		info2 := SegmentQueryInfo{nil, b, Vector{}, 1}
 		CircleSegmentQuery(seg.Shape, seg.ta, seg.r, a, b, r2, &info1)
-- 
2.43.0


From 757b785905485eafa9db2329eeb4a109670db2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 15/57] fix: no NaN from SlerpConst between parallel vectors

---
 vector.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vector.go b/vector.go
index 3f05478..bf14499 100644
--- a/vector.go
+++ b/vector.go
@@ -124,7 +124,11 @@ func LerpConst(f1, f2, d float64) float64 {
 func (v Vector) SlerpConst(other Vector, a float64) Vector {
 	dot := v.Normalize().Dot(other.Normalize())
 	omega := math.Acos(Clamp(dot, -1, 1))
-	return v.SLerp(other, math.Min(a, omega)/omega)
+
+	if omega <= a {
+		return other
+	}
+	return v.SLerp(other, a/omega)
 }
 
 func (v Vector) Clamp(length float64) Vector {
-- 
2.43.0


From 12e4681c2cec3ef4d400f281260d17079803b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 16/57] fix: measure the original polyline, once around, when
 looking for short sections to simplify

---
 polyline.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/polyline.go b/polyline.go
index 81f7c52..b17ec0a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -34,8 +34,7 @@ func (pl *PolyLine) IsClosed() bool {
 
 func (pl *PolyLine) IsShort(count, start, end int, min float64) bool {
 	var length float64
-	// Next doesn't have side effects and its return value is ignored (SA4017)go-staticcheck
-	for i := start; i != end; Next(i, count) {
+	for i := start; i != end; i = Next(i, count) {
 		length += pl.Verts[i].Distance(pl.Verts[Next(i, count)])
 		if length > min {
 			return false
@@ -77,7 +76,7 @@ func DouglasPeucker(verts []Vector, reduced *PolyLine, length, start, end int, m
 	b := verts[end]
 
 	// Check if the length is below the threshold
-	if a.Near(b, min) && reduced.IsShort(length, start, end, min) {
+	if a.Near(b, min) && (&PolyLine{Verts: verts}).IsShort(length, start, end, min) {
 		return reduced
 	}
 
-- 
2.43.0


From 2181c14d8ae1f4cc4d0bd0e561f3d0260ff4c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 17/57] fix: keep closed polylines closed in SimplifyVertexes

---
 polyline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polyline.go b/polyline.go
index b17ec0a..4efc93a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -61,6 +61,7 @@ func (pl *PolyLine) SimplifyVertexes(tol float64) *PolyLine {
 
 	if pl.IsClosed() && Sharpness(reduced.Verts[len(reduced.Verts)-2], reduced.Verts[0], reduced.Verts[1]) < minSharp {
 		reduced.Verts[0] = reduced.Verts[len(reduced.Verts)-2]
+		reduced.Verts = reduced.Verts[:len(reduced.Verts)-1]
 	}
 	return &reduced
 }
-- 
2.43.0


From 3836a47993a60fe68ccb3239a139882b2ae3a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 18/57] fix: keep a polygon's area and density up to date in
 SetRadius

---
 poly.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/poly.go b/poly.go
index acbf4ae..af88aac 100644
--- a/poly.go
+++ b/poly.go
@@ -33,6 +33,13 @@ func (poly PolyShape) Radius() float64 {
 
 func (poly *PolyShape) SetRadius(r float64) {
 	poly.r = r
+
+	// The radius only changes the area, the moment does not take it into account.
+	verts := make([]Vector, poly.count)
+	for i := range verts {
+		verts[i] = poly.Vert(i)
+	}
+	poly.massInfo.area = AreaForPoly(poly.count, verts, r)
 }
 
 func (poly *PolyShape) CacheData(transform Transform) BB {
-- 
2.43.0


From 7778d09237248431ac343fa7aeb81875ab763275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 19/57] fix: wake a sleeping body before changing its type

---
 body.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/body.go b/body.go
index 308e868..688c403 100644
--- a/body.go
+++ b/body.go
@@ -150,6 +150,11 @@ func (body *Body) SetType(newType int) {
 		return
 	}
 
+	// Wake the body up while it still has the type it went to sleep with.
+	if oldType != BODY_STATIC {
+		body.Activate()
+	}
+
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
 	} else {
@@ -179,10 +184,6 @@ func (body *Body) SetType(newType int) {
 	}
 	assert(body.space.locked == 0, "Space is locked")
 
-	if oldType != BODY_STATIC {
-		body.Activate()
-	}
-
 	if oldType == BODY_STATIC {
 		for i, b := range body.space.staticBodies {
 			if b == body {
-- 
2.43.0


From 6ab030b473fe78ad048e2dbf1cb484baf9923519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 20/57] fix: visit every body once in EachBody when callbacks
 wake sleeping bodies

---
 space.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/space.go b/space.go
index a3a1bfe..72b0ca5 100644
--- a/space.go
+++ b/space.go
@@ -897,23 +897,25 @@ func (space *Space) EachBody(f func(body *Body)) {
 	space.Lock()
 	defer space.Unlock(true)
 
-	for _, body := range space.dynamicBodies {
-		f(body)
-	}
+	// The callbacks may wake bodies, which moves them between the lists.
+	bodies := append([]*Body{}, space.dynamicBodies...)
+	bodies = append(bodies, space.staticBodies...)
+	bodies = append(bodies, space.restingBodies()...)
 
-	for _, body := range space.staticBodies {
+	for _, body := range bodies {
 		f(body)
 	}
+}
 
+// restingBodies returns the bodies that are asleep, or woken but not yet back in the list of dynamic bodies.
+func (space *Space) restingBodies() []*Body {
+	bodies := append([]*Body{}, space.rousedBodies...)
 	for _, root := range space.sleepingComponents {
-		body := root
-
-		for body != nil {
-			next := body.sleepingNext
-			f(body)
-			body = next
+		for body := root; body != nil; body = body.sleepingNext {
+			bodies = append(bodies, body)
 		}
 	}
+	return bodies
 }
 
 func (space *Space) EachShape(f func(*Shape)) {
-- 
2.43.0


From 59c9e90e33f00bb8d84995327c2f828d3c1602f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 21/57] fix: include the constraints of sleeping bodies in
 EachConstraint

---
 space.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/space.go b/space.go
index 72b0ca5..859cfc1 100644
--- a/space.go
+++ b/space.go
@@ -934,8 +934,18 @@ func (space *Space) EachShape(f func(*Shape)) {
 func (space *Space) EachConstraint(f func(*Constraint)) {
 	space.Lock()
 
-	for i := 0; i < len(space.constraints); i++ {
-		f(space.constraints[i])
+	// The constraints of sleeping bodies are not in the list. See Deactivate.
+	constraints := append([]*Constraint{}, space.constraints...)
+	for _, body := range space.restingBodies() {
+		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
+			if body == constraint.a || constraint.a.GetType() == BODY_STATIC {
+				constraints = append(constraints, constraint)
+			}
+		}
+	}
+
+	for _, constraint := range constraints {
+		f(constraint)
 	}
 
 	space.Unlock(true)
-- 
2.43.0


From fb2c6451fb022078fad7afd5e7a33019174d2f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 22/57] fix: wake bodies resting on or joined to a static body
 that changes its type

---
 body.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/body.go b/body.go
index 688c403..2d2e754 100644
--- a/body.go
+++ b/body.go
@@ -153,6 +153,12 @@ func (body *Body) SetType(newType int) {
 	// Wake the body up while it still has the type it went to sleep with.
 	if oldType != BODY_STATIC {
 		body.Activate()
+	} else {
+		// Bodies sleep against static bodies and joints to them, so they have to wake up when it becomes something else.
+		body.ActivateStatic(nil)
+		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
+			constraint.ActivateBodies()
+		}
 	}
 
 	if newType == BODY_STATIC {
-- 
2.43.0


From 5e97f4c7fcc63521ef906a8e0cbb9dff9f870291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 23/57] fix: answer huge spatial hash queries bin by bin

---
 spacehash.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/spacehash.go b/spacehash.go
index bd2f098..adc006d 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -204,6 +204,19 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 
 func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data interface{}) {
 	dim := hash.celldim
+
+	// A box of more cells than there are bins is quicker to answer by looking into every bin. Its cells may not even be
+	// countable when it is as good as infinite.
+	cols := math.Floor(bb.R/dim) - math.Floor(bb.L/dim) + 1
+	rows := math.Floor(bb.T/dim) - math.Floor(bb.B/dim) + 1
+	if cols*rows > float64(hash.numCells) {
+		for i := range hash.table {
+			hash.queryHelper(&hash.table[i], obj, f, data)
+		}
+		hash.stamp++
+		return
+	}
+
 	l := floor(bb.L / dim)
 	r := floor(bb.R / dim)
 	b := floor(bb.B / dim)
-- 
2.43.0


From 59af73df6e364e6542bf6c90bbf2eeb98c6675a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 24/57] fix: keep ignoring a collision that was ignored in
 post-solve

---
 space.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 859cfc1..49886d2 100644
--- a/space.go
+++ b/space.go
@@ -685,7 +685,10 @@ func (space *Space) Step(dt float64) {
 
 	// reset and empty the arbiter lists
 	for _, arb := range space.arbiters {
-		arb.state = CP_ARBITER_STATE_NORMAL
+		// A post-solve callback may have asked to ignore the collision.
+		if arb.state != CP_ARBITER_STATE_IGNORE {
+			arb.state = CP_ARBITER_STATE_NORMAL
+		}
 
 		// If both bodies are awake, unthread the arbiter from the contact graph.
 		if !arb.body_a.IsSleeping() && !arb.body_b.IsSleeping() {
-- 
2.43.0


From 803a2f828758d106e89b60283dfc6a1ef4dae7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 25/57] fix: begin a collision anew when its cached arbiter is
 reused

---
 arbiter.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 3bca89c..0be4fd2 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -198,6 +198,14 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 	arb.b = b
 	arb.body_b = b.body
 
+	// A cached arbiter is from a collision that ended. Start anew, with nothing left over from it.
+	if arb.state == CP_ARBITER_STATE_CACHED {
+		arb.state = CP_ARBITER_STATE_FIRST_COLLISION
+		arb.contacts = nil
+		arb.count = 0
+		arb.UserData = nil
+	}
+
 	// Iterate over the possible pairs to look for hash value matches.
 	for i := 0; i < info.count; i++ {
 		con := &info.arr[i]
@@ -252,11 +260,6 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 			arb.handlerB = space.LookupHandler(typeB, WILDCARD_COLLISION_TYPE, &CollisionHandlerDoNothing)
 		}
 	}
-
-	// mark it as new if it's been cached
-	if arb.state == CP_ARBITER_STATE_CACHED {
-		arb.state = CP_ARBITER_STATE_FIRST_COLLISION
-	}
 }
 
 // Ignore marks a collision pair to be ignored until the two objects separate.
-- 
2.43.0


From 03f893b54345e0c7f38341d25c4315bd40c25955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 26/57] fix: do not end resting contacts of bodies woken during
 a step

---
 body.go            | 6 ++++++
 hashset_arbiter.go | 3 ++-
 space.go           | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/body.go b/body.go
index 2d2e754..33f6c56 100644
--- a/body.go
+++ b/body.go
@@ -62,6 +62,7 @@ type Body struct {
 	sleepingRoot     *Body
 	sleepingNext     *Body
 	sleepingIdleTime float64
+	wokenStamp       uint // the step it was last woken in
 }
 
 // String returns body id as string
@@ -445,6 +446,11 @@ func (body *Body) IsSleeping() bool {
 	return body.sleepingRoot != nil
 }
 
+// restedThisStep returns true if the body did not take part in the collision detection of the current step on its own.
+func (body *Body) restedThisStep(space *Space) bool {
+	return body.GetType() == BODY_STATIC || body.IsSleeping() || body.wokenStamp == space.stamp
+}
+
 // AddShape adds shape to the body and returns added shape
 func (body *Body) AddShape(shape *Shape) *Shape {
 	body.shapeList = append(body.shapeList, shape)
diff --git a/hashset_arbiter.go b/hashset_arbiter.go
index f2bce0d..45bc68a 100644
--- a/hashset_arbiter.go
+++ b/hashset_arbiter.go
@@ -9,7 +9,8 @@ func SpaceArbiterSetFilter(arb *Arbiter, space *Space) bool {
 	a := arb.body_a
 	b := arb.body_b
 
-	if (a.GetType() == BODY_STATIC || a.IsSleeping()) && (b.GetType() == BODY_STATIC || b.IsSleeping()) {
+	// Bodies that woke up during this step have not been checked for collisions yet.
+	if a.restedThisStep(space) && b.restedThisStep(space) {
 		return true
 	}
 
diff --git a/space.go b/space.go
index 49886d2..d892107 100644
--- a/space.go
+++ b/space.go
@@ -157,6 +157,7 @@ func (space *Space) Activate(body *Body) {
 	assert(body.sleepingRoot == nil && body.sleepingNext == nil, "Activating body non-NULL node pointers.")
 
 	space.dynamicBodies = append(space.dynamicBodies, body)
+	body.wokenStamp = space.stamp
 
 	for _, shape := range body.shapeList {
 		space.staticShapes.class.Remove(shape, shape.hashid)
-- 
2.43.0


From 6f1ba06ba55841b9f5ec1bf78c1989c66e4cf941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 27/57] fix: ShapeQuery answers for all shapes, not just the
 last

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index d892107..4b1d08e 100644
--- a/space.go
+++ b/space.go
@@ -1130,7 +1130,7 @@ func (space *Space) ShapeQuery(shape *Shape, callback func(shape *Shape, points
 			if callback != nil {
 				callback(b, &contactPointSet)
 			}
-			anyCollision = !(a.sensor || b.sensor)
+			anyCollision = anyCollision || !(a.sensor || b.sensor)
 		}
 
 		return collisionId
-- 
2.43.0


From 685cb0d9fba43b5c2cccef64e5d8a6b2d8b3ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 28/57] fix: take the radius of segment queries into account
 when looking for shapes

---
 space.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/space.go b/space.go
index 4b1d08e..ee162f0 100644
--- a/space.go
+++ b/space.go
@@ -1060,15 +1060,42 @@ func (space *Space) SegmentQuery(start, end Vector, radius float64, filter Shape
 	context := SegmentQueryContext{start, end, radius, filter, f}
 	space.Lock()
 
-	space.staticShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
-	space.dynamicShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
+	if radius > 0 {
+		bb := segmentQueryBB(start, end, radius)
+		query := func(obj interface{}, shape *Shape, collisionId uint32, data interface{}) uint32 {
+			segmentQuery(obj, shape, data)
+			return collisionId
+		}
+		space.staticShapes.class.Query(&context, bb, query, data)
+		space.dynamicShapes.class.Query(&context, bb, query, data)
+	} else {
+		space.staticShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
+		space.dynamicShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
+	}
 
 	space.Unlock(true)
 }
 
+// segmentQueryBB returns the bounds of a segment with a radius. The spatial indexes can only follow thin segments.
+func segmentQueryBB(start, end Vector, radius float64) BB {
+	return NewBBForCircle(start, radius).Merge(NewBBForCircle(end, radius))
+}
+
 func (space *Space) SegmentQueryFirst(start, end Vector, radius float64, filter ShapeFilter) SegmentQueryInfo {
 	info := SegmentQueryInfo{nil, end, Vector{}, 1}
 	context := &SegmentQueryContext{start, end, radius, filter, nil}
+
+	if radius > 0 {
+		bb := segmentQueryBB(start, end, radius)
+		query := func(obj interface{}, shape *Shape, collisionId uint32, data interface{}) uint32 {
+			queryFirst(obj, shape, data)
+			return collisionId
+		}
+		space.staticShapes.class.Query(context, bb, query, &info)
+		space.dynamicShapes.class.Query(context, bb, query, &info)
+		return info
+	}
+
 	space.staticShapes.class.SegmentQuery(context, start, end, 1, queryFirst, &info)
 	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)
 	return info
-- 
2.43.0


From 24d3725ba007719c6d82471a5506763a25ead846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 29/57] fix: report shapes hit by the very end of a segment
 query

---
 bbtree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bbtree.go b/bbtree.go
index e2c20e6..ddc5cd6 100644
--- a/bbtree.go
+++ b/bbtree.go
@@ -426,17 +426,17 @@ func (subtree *Node) SubtreeSegmentQuery(obj interface{}, a, b Vector, t_exit fl
 	tB := subtree.b.bb.SegmentQuery(a, b)
 
 	if tA < tB {
-		if tA < t_exit {
+		if tA <= t_exit {
 			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
 		}
-		if tB < t_exit {
+		if tB <= t_exit {
 			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
 		}
 	} else {
-		if tB < t_exit {
+		if tB <= t_exit {
 			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
 		}
-		if tA < t_exit {
+		if tA <= t_exit {
 			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
 		}
 	}
-- 
2.43.0


From bcbe86d515912ec4f08f5a77cba9d51365950922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 30/57] fix: walk every cell a segment query passes through in
 the spatial hash

---
 spacehash.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index adc006d..4f32824 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -270,18 +270,18 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 
 	if b.X > a.X {
 		xInc = 1
-		tempH = math.Floor(a.X+1.0) - a.X
+		tempH = float64(cellX+1) - a.X
 	} else {
 		xInc = -1
-		tempH = a.X - math.Floor(a.X)
+		tempH = a.X - float64(cellX)
 	}
 
 	if b.Y > a.Y {
 		yInc = 1
-		tempV = math.Floor(a.Y+1.0) - a.Y
+		tempV = float64(cellY+1) - a.Y
 	} else {
 		yInc = -1
-		tempV = a.Y - math.Floor(a.Y)
+		tempV = a.Y - float64(cellY)
 	}
 
 	dx := math.Abs(b.X - a.X)
@@ -299,19 +299,16 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 		dtdy = INFINITY
 	}
 
-	var nextH, nextV float64
-	if tempH != 0 {
+	// A segment that starts on the edge of its cell and leads out of it leaves it at once.
+	nextH, nextV := INFINITY, INFINITY
+	if dx != 0 {
 		nextH = tempH * dtdx
-	} else {
-		nextH = dtdx
 	}
-	if tempV != 0 {
+	if dy != 0 {
 		nextV = tempV * dtdy
-	} else {
-		nextV = dtdy
 	}
 
-	for t < t_exit {
+	for t <= t_exit {
 		idx := hashFunc(HashValue(cellX), HashValue(cellY), HashValue(hash.numCells))
 		t_exit = math.Min(t_exit, hash.segmentQueryHelper(&hash.table[idx], obj, f, data))
 
-- 
2.43.0


From 64f0accb059a31148e47bf10fa878822b5ad2d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 31/57] fix: give post-solve callbacks their handler's user
 data

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index ee162f0..5bcc71f 100644
--- a/space.go
+++ b/space.go
@@ -779,7 +779,7 @@ func (space *Space) Step(dt float64) {
 
 		// run the post-solve callbacks
 		for _, arb := range space.arbiters {
-			arb.handler.PostSolveFunc(arb, space, arb.handler)
+			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)
 		}
 	}
 	space.Unlock(true)
-- 
2.43.0


From 04f889e56c66bdaeee41eeec7817f94d98fbf7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 32/57] fix: call both wildcard handlers whatever the first one
 answers

---
 arbiter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 0be4fd2..57db323 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -389,11 +389,17 @@ func DoNothing(_ *Arbiter, _ *Space, _ interface{}) {
 }
 
 func DefaultBegin(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardBeginA(space) && arb.CallWildcardBeginB(space)
+	// Both have to be called, whatever the first one answers.
+	retA := arb.CallWildcardBeginA(space)
+	retB := arb.CallWildcardBeginB(space)
+	return retA && retB
 }
 
 func DefaultPreSolve(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)
+	// Both have to be called, whatever the first one answers.
+	retA := arb.CallWildcardPreSolveA(space)
+	retB := arb.CallWildcardPreSolveB(space)
+	return retA && retB
 }
 
 func DefaultPostSolve(arb *Arbiter, space *Space, _ interface{}) {
-- 
2.43.0


From a4110c1d3063c7bf07bd29d6bd9b2f412f22e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 33/57] fix: wake every sleeping body when gravity changes

---
 space.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/space.go b/space.go
index 5bcc71f..c97bb6f 100644
--- a/space.go
+++ b/space.go
@@ -116,8 +116,8 @@ func (space *Space) Gravity() Vector {
 func (space *Space) SetGravity(gravity Vector) {
 	space.gravity = gravity
 
-	// Wake up all of the bodies since the gravity changed.
-	for _, component := range space.sleepingComponents {
+	// Wake up all of the bodies since the gravity changed. Activating removes them from the list.
+	for _, component := range append([]*Body{}, space.sleepingComponents...) {
 		component.Activate()
 	}
 }
-- 
2.43.0


From 9a5ca58fe166d4501120d9cf236e640823d957d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 34/57] fix: wake the body when the surface velocity of its
 shape changes

---
 shape.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shape.go b/shape.go
index 85a13dc..77b81ee 100644
--- a/shape.go
+++ b/shape.go
@@ -146,6 +146,7 @@ func (s *Shape) SetFriction(u float64) {
 }
 
 func (s *Shape) SetSurfaceV(surfaceV Vector) {
+	s.body.Activate()
 	s.surfaceV = surfaceV
 }
 
-- 
2.43.0


From 773fd891068b0105d20eaf92804ddd7e0512ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 35/57] fix: keep huge and far away shapes countable in the
 spatial hash

---
 spacehash.go | 81 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index 4f32824..f6c3043 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -40,7 +40,34 @@ func NewSpaceHash(celldim float64, num int, bbfunc SpatialIndexBB, staticIndex *
 }
 
 func (hash *SpaceHash) hashHandle(hand *Handle, bb BB) {
+	hash.eachBin(bb, func(idx HashValue) {
+		bin := hash.table[idx]
+
+		if bin.containsHandle(hand) {
+			return
+		}
+
+		hand.retain()
+		newBin := hash.getEmptyBin()
+		newBin.handle = hand
+		newBin.next = bin
+		hash.table[idx] = newBin
+	})
+}
+
+// eachBin calls f with the bin of every cell that bb touches. A box of more cells than there are bins is in all of them.
+func (hash *SpaceHash) eachBin(bb BB, f func(idx HashValue)) {
 	dim := hash.celldim
+	n := HashValue(hash.numCells)
+
+	cols := math.Floor(bb.R/dim) - math.Floor(bb.L/dim) + 1
+	rows := math.Floor(bb.T/dim) - math.Floor(bb.B/dim) + 1
+	if cols*rows > float64(n) {
+		for idx := HashValue(0); idx < n; idx++ {
+			f(idx)
+		}
+		return
+	}
 
 	// TODO: chipmunk said floor is slow, use custom floor
 	l := floor(bb.L / dim)
@@ -48,21 +75,9 @@ func (hash *SpaceHash) hashHandle(hand *Handle, bb BB) {
 	b := floor(bb.B / dim)
 	t := floor(bb.T / dim)
 
-	n := hash.numCells
 	for i := l; i <= r; i++ {
 		for j := b; j <= t; j++ {
-			idx := hashFunc(HashValue(i), HashValue(j), HashValue(n))
-			bin := hash.table[idx]
-
-			if bin.containsHandle(hand) {
-				continue
-			}
-
-			hand.retain()
-			newBin := hash.getEmptyBin()
-			newBin.handle = hand
-			newBin.next = bin
-			hash.table[idx] = newBin
+			f(hashFunc(HashValue(i), HashValue(j), n))
 		}
 	}
 }
@@ -157,6 +172,14 @@ restart:
 }
 
 func floor(f float64) int {
+	// Keep clear of numbers that do not fit.
+	const limit = math.MaxInt / 2
+	if f > limit {
+		return limit
+	} else if f < -limit {
+		return -limit
+	}
+
 	i := int(f)
 	if f < 0 && float64(i) != f {
 		return i - 1
@@ -172,29 +195,21 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 
 		bb := hash.SpatialIndex.bbfunc(hand.obj)
 
-		l := floor(bb.L / hash.celldim)
-		r := floor(bb.R / hash.celldim)
-		b := floor(bb.B / hash.celldim)
-		t := floor(bb.T / hash.celldim)
-
-		for i := l; i <= r; i++ {
-			for j := b; j <= t; j++ {
-				idx := hashFunc(HashValue(i), HashValue(j), HashValue(hash.numCells))
-				bin := hash.table[idx]
+		hash.eachBin(bb, func(idx HashValue) {
+			bin := hash.table[idx]
 
-				if bin.containsHandle(hand) {
-					continue
-				}
+			if bin.containsHandle(hand) {
+				return
+			}
 
-				hand.retain()
-				hash.queryHelper(&bin, hand.obj, f, data)
+			hand.retain()
+			hash.queryHelper(&bin, hand.obj, f, data)
 
-				newBin := hash.getEmptyBin()
-				newBin.handle = hand
-				newBin.next = bin
-				hash.table[idx] = newBin
-			}
-		}
+			newBin := hash.getEmptyBin()
+			newBin.handle = hand
+			newBin.next = bin
+			hash.table[idx] = newBin
+		})
 
 		hash.stamp++
 	})
-- 
2.43.0


From 5eace4bb2d7ec798d4133257a5e52ac817bca868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 36/57] fix: solve a groove joint along its normal only while
 the anchor is between its ends

---
 groovejoint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/groovejoint.go b/groovejoint.go
index 2025805..63bac88 100644
--- a/groovejoint.go
+++ b/groovejoint.go
@@ -87,7 +87,12 @@ func (joint *GrooveJoint) ApplyImpulse(dt float64) {
 
 	j := joint.k.Transform(joint.bias.Sub(vr))
 	jOld := joint.jAcc
-	joint.jAcc = joint.grooveConstrain(jOld.Add(j), dt)
+	jNew := jOld.Add(j)
+	if n := joint.grooveTn; joint.clamp*jNew.Cross(n) <= 0 {
+		// Away from its ends the groove only holds the anchor across the groove, whatever the anchor does along it.
+		jNew = jOld.Project(n).Add(n.Mult(joint.bias.Sub(vr).Dot(n) / k_scalar(a, b, r1, r2, n)))
+	}
+	joint.jAcc = joint.grooveConstrain(jNew, dt)
 	j = joint.jAcc.Sub(jOld)
 
 	apply_impulses(a, b, joint.r1, joint.r2, j)
-- 
2.43.0


From 2c6b5e8c8d574d2209f450757a18600313cdd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 37/57] fix: run post-step callbacks added by post-step
 callbacks

---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index c97bb6f..d157628 100644
--- a/space.go
+++ b/space.go
@@ -807,7 +807,9 @@ func (space *Space) Unlock(runPostStep bool) {
 	if runPostStep && !space.skipPostStep {
 		space.skipPostStep = true
 
-		for _, callback := range space.postStepCallbacks {
+		// Callbacks may add further callbacks.
+		for i := 0; i < len(space.postStepCallbacks); i++ {
+			callback := space.postStepCallbacks[i]
 			f := callback.callback
 
 			// Mark the func as NULL in case calling it calls cpSpaceRunPostStepCallbacks() again.
-- 
2.43.0


From 469eeefcfff5acd69d6ee6d1a7a1d5938014865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 38/57] fix: let callbacks of the spatial hash make queries

---
 spacehash.go | 60 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index f6c3043..9687d6d 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -17,6 +17,15 @@ type SpaceHash struct {
 	pooledBins    *SpaceHashBin
 	pooledHandles sync.Pool
 
+	// The query being answered, the last one begun and how deep queries made by the callbacks of queries are nested.
+	stamp, lastStamp uint
+	depth            int
+	// stamps of outer queries that inner ones have overwritten
+	overwritten []stampedHandle
+}
+
+type stampedHandle struct {
+	hand  *Handle
 	stamp uint
 }
 
@@ -29,6 +38,7 @@ func NewSpaceHash(celldim float64, num int, bbfunc SpatialIndexBB, staticIndex *
 			return obj == elt.obj
 		}),
 		stamp:         1,
+		lastStamp:     1,
 		pooledHandles: sync.Pool{New: func() interface{} { return &Handle{} }},
 	}
 	for i := 0; i < POOLED_BUFFER_SIZE; i++ {
@@ -153,6 +163,37 @@ func (hash *SpaceHash) removeOrphanedHandles(binPtr **SpaceHashBin) {
 	}
 }
 
+// begin starts a query. What it returns is for end.
+func (hash *SpaceHash) begin() (stamp uint, overwritten int) {
+	stamp, overwritten = hash.stamp, len(hash.overwritten)
+	hash.depth++
+	hash.nextStamp()
+	return
+}
+
+// end ends a query and leaves the one whose callback made it, if any, as it was.
+func (hash *SpaceHash) end(stamp uint, overwritten int) {
+	for i := len(hash.overwritten) - 1; i >= overwritten; i-- {
+		hash.overwritten[i].hand.stamp = hash.overwritten[i].stamp
+	}
+	hash.overwritten = hash.overwritten[:overwritten]
+	hash.depth--
+	hash.stamp = stamp
+}
+
+func (hash *SpaceHash) nextStamp() {
+	hash.lastStamp++
+	hash.stamp = hash.lastStamp
+}
+
+// mark notes that the current query has seen the handle.
+func (hash *SpaceHash) mark(hand *Handle) {
+	if hash.depth > 1 {
+		hash.overwritten = append(hash.overwritten, stampedHandle{hand, hand.stamp})
+	}
+	hand.stamp = hash.stamp
+}
+
 func (hash *SpaceHash) queryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexQuery, data interface{}) {
 restart:
 	for bin := *binPtr; bin != nil; bin = bin.next {
@@ -163,7 +204,7 @@ restart:
 			continue
 		} else if other != nil {
 			f(obj, other, 0, data)
-			hand.stamp = hash.stamp
+			hash.mark(hand)
 		} else {
 			hash.removeOrphanedHandles(binPtr)
 			goto restart
@@ -190,6 +231,7 @@ func floor(f float64) int {
 func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 	hash.clearTable()
 
+	stamp, overwritten := hash.begin()
 	hash.handleSet.Each(func(hand *Handle) {
 		// queryRehash_helper
 
@@ -211,13 +253,17 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 			hash.table[idx] = newBin
 		})
 
-		hash.stamp++
+		hash.nextStamp()
 	})
+	hash.end(stamp, overwritten)
 
 	hash.CollideStatic(hash.staticIndex, f, data)
 }
 
 func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data interface{}) {
+	stamp, overwritten := hash.begin()
+	defer hash.end(stamp, overwritten)
+
 	dim := hash.celldim
 
 	// A box of more cells than there are bins is quicker to answer by looking into every bin. Its cells may not even be
@@ -228,7 +274,6 @@ func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data i
 		for i := range hash.table {
 			hash.queryHelper(&hash.table[i], obj, f, data)
 		}
-		hash.stamp++
 		return
 	}
 
@@ -244,8 +289,6 @@ func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data i
 			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)
 		}
 	}
-
-	hash.stamp++
 }
 
 func (hash *SpaceHash) segmentQueryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexSegmentQuery, data interface{}) float64 {
@@ -260,7 +303,7 @@ restart:
 			continue
 		} else if other != nil {
 			t = math.Min(t, f(obj, other, data))
-			hand.stamp = hash.stamp
+			hash.mark(hand)
 		} else {
 			hash.removeOrphanedHandles(binPtr)
 			goto restart
@@ -272,6 +315,9 @@ restart:
 
 // modified from http://playtechs.blogspot.com/2007/03/raytracing-on-grid.html
 func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64, f SpatialIndexSegmentQuery, data interface{}) {
+	stamp, overwritten := hash.begin()
+	defer hash.end(stamp, overwritten)
+
 	a = a.Mult(1.0 / hash.celldim)
 	b = b.Mult(1.0 / hash.celldim)
 
@@ -337,8 +383,6 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 			nextH += dtdx
 		}
 	}
-
-	hash.stamp++
 }
 
 type SpaceHashBin struct {
-- 
2.43.0


From e5ed88b2ff75a965c1f2d6bbcbb387aab5b831ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 39/57] fix: fill the spatial hash before reporting its pairs

---
 spacehash.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index 9687d6d..4d5026f 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -231,28 +231,27 @@ func floor(f float64) int {
 func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 	hash.clearTable()
 
+	// Hash everything first, so that callbacks can make queries.
+	hash.handleSet.Each(func(hand *Handle) {
+		hand.paired = false
+		hash.hashHandle(hand, hash.SpatialIndex.bbfunc(hand.obj))
+	})
+
 	stamp, overwritten := hash.begin()
 	hash.handleSet.Each(func(hand *Handle) {
 		// queryRehash_helper
 
-		bb := hash.SpatialIndex.bbfunc(hand.obj)
-
-		hash.eachBin(bb, func(idx HashValue) {
-			bin := hash.table[idx]
-
-			if bin.containsHandle(hand) {
-				return
+		hash.eachBin(hash.SpatialIndex.bbfunc(hand.obj), func(idx HashValue) {
+			for bin := hash.table[idx]; bin != nil; bin = bin.next {
+				// Every pair once, when its second handle has its turn.
+				if other := bin.handle; other.paired && other.stamp != hash.stamp {
+					f(hand.obj, other.obj, 0, data)
+					hash.mark(other)
+				}
 			}
-
-			hand.retain()
-			hash.queryHelper(&bin, hand.obj, f, data)
-
-			newBin := hash.getEmptyBin()
-			newBin.handle = hand
-			newBin.next = bin
-			hash.table[idx] = newBin
 		})
 
+		hand.paired = true
 		hash.nextStamp()
 	})
 	hash.end(stamp, overwritten)
@@ -408,6 +407,7 @@ type Handle struct {
 	obj     *Shape
 	retains int
 	stamp   uint
+	paired  bool
 }
 
 func (hand *Handle) Init(obj *Shape) {
-- 
2.43.0


From fe5f1d28e8d74928ba1b114512a9b44cf4fdb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 40/57] fix: hash cached arbiters by shape ids instead of
 addresses

---
 space.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/space.go b/space.go
index d157628..748f056 100644
--- a/space.go
+++ b/space.go
@@ -3,7 +3,6 @@ package cp
 import (
 	"math"
 	"sync"
-	"unsafe"
 )
 
 const MAX_CONTACTS_PER_ARBITER = 2
@@ -184,7 +183,7 @@ func (space *Space) Activate(body *Body) {
 			a := arbiter.a
 			b := arbiter.b
 			shapePair := ShapePair{a, b}
-			arbHashId := HashPair(HashValue(unsafe.Pointer(a)), HashValue(unsafe.Pointer(b)))
+			arbHashId := HashPair(a.hashid, b.hashid)
 			space.cachedArbiters.Insert(arbHashId, shapePair, func(_ ShapePair) *Arbiter {
 				return arbiter
 			})
@@ -440,7 +439,7 @@ func SpaceCollideShapesFunc(obj interface{}, b *Shape, collisionId uint32, vspac
 	// Get an arbiter from space->arbiterSet for the two shapes.
 	// This is where the persistent contact magic comes from.
 	shapePair := ShapePair{info.a, info.b}
-	arbHashId := HashPair(HashValue(unsafe.Pointer(info.a)), HashValue(unsafe.Pointer(info.b)))
+	arbHashId := HashPair(info.a.hashid, info.b.hashid)
 	arb := space.cachedArbiters.Insert(arbHashId, shapePair, func(shapes ShapePair) *Arbiter {
 		arb := space.pooledArbiters.Get().(*Arbiter)
 		arb.Init(shapes.a, shapes.b)
@@ -830,7 +829,7 @@ func (space *Space) UncacheArbiter(arb *Arbiter) {
 	a := arb.a
 	b := arb.b
 	shapePair := ShapePair{a, b}
-	arbHashId := HashPair(HashValue(unsafe.Pointer(a)), HashValue(unsafe.Pointer(b)))
+	arbHashId := HashPair(a.hashid, b.hashid)
 	space.cachedArbiters.Remove(arbHashId, shapePair)
 	for i, a := range space.arbiters {
 		if a == arb {
-- 
2.43.0


From f4c27ca034649a54fc4b24a188e2dc87816b8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 41/57] fix: keep the maxima of DebugInfo per space

---
 everything.go | 17 ++++++++---------
 space.go      |  3 +++
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/everything.go b/everything.go
index 5527359..3c894af 100644
--- a/everything.go
+++ b/everything.go
@@ -311,14 +311,14 @@ func DebugInfo(space *Space) string {
 	}
 
 	constraints := len(space.constraints) + points*int(space.Iterations)
-	if arbiters > maxArbiters {
-		maxArbiters = arbiters
+	if arbiters > space.maxArbiters {
+		space.maxArbiters = arbiters
 	}
-	if points > maxPoints {
-		maxPoints = points
+	if points > space.maxPoints {
+		space.maxPoints = points
 	}
-	if constraints > maxConstraints {
-		maxConstraints = constraints
+	if constraints > space.maxConstraints {
+		space.maxConstraints = constraints
 	}
 
 	var ke float64
@@ -332,8 +332,8 @@ func DebugInfo(space *Space) string {
 	return fmt.Sprintf(`Arbiters: %d (%d) - Contact Points: %d (%d)
 Other Constraints: %d, Iterations: %d
 Constraints x Iterations: %d (%d)
-KE: %e`, arbiters, maxArbiters,
-		points, maxPoints, len(space.constraints), space.Iterations, constraints, maxConstraints, ke)
+KE: %e`, arbiters, space.maxArbiters,
+		points, space.maxPoints, len(space.constraints), space.Iterations, constraints, space.maxConstraints, ke)
 }
 
 func k_scalar_body(body *Body, r, n Vector) float64 {
@@ -393,4 +393,3 @@ func bias_coef(errorBias, dt float64) float64 {
 	return 1.0 - math.Pow(errorBias, dt)
 }
 
-var maxArbiters, maxPoints, maxConstraints int
diff --git a/space.go b/space.go
index 748f056..85299aa 100644
--- a/space.go
+++ b/space.go
@@ -50,6 +50,9 @@ type Space struct {
 	postStepCallbacks []*PostStepCallback
 
 	StaticBody *Body
+
+	// The highest counts seen by DebugInfo
+	maxArbiters, maxPoints, maxConstraints int
 }
 
 func arbiterSetEql(shapes ShapePair, arb *Arbiter) bool {
-- 
2.43.0


From 77c2ca0ef4915921f9fe6d60dcd197f4dbafd60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 42/57] fix: number new bodies without a data race between
 goroutines

---
 body.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/body.go b/body.go
index 33f6c56..d3e06f6 100644
--- a/body.go
+++ b/body.go
@@ -3,6 +3,7 @@ package cp
 import (
 	"fmt"
 	"math"
+	"sync/atomic"
 )
 
 // Body types
@@ -12,7 +13,7 @@ const (
 	BODY_STATIC
 )
 
-var bodyCur int = 0
+var bodyCur atomic.Int64
 
 // BodyVelocityFunc is rigid body velocity update function type.
 type BodyVelocityFunc func(body *Body, gravity Vector, damping float64, dt float64)
@@ -75,7 +76,7 @@ func (b Body) String() string {
 // Guessing the moment of inertia is usually a bad idea. Use the moment estimation functions MomentFor*().
 func NewBody(mass, moment float64) *Body {
 	body := &Body{
-		id:            bodyCur,
+		id:            int(bodyCur.Add(1) - 1),
 		cog:           Vector{},
 		p:             Vector{},
 		v:             Vector{},
@@ -85,7 +86,6 @@ func NewBody(mass, moment float64) *Body {
 		velocity_func: BodyUpdateVelocity,
 		position_func: BodyUpdatePosition,
 	}
-	bodyCur++
 
 	body.SetMass(mass)
 	body.SetMoment(moment)
-- 
2.43.0


From e902f1d2b317222bd1d7fcfbc722e67b90266088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 43/57] fix: do not link an arbiter twice when a collision
 callback wakes its bodies

---
 space.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/space.go b/space.go
index 85299aa..1b4adc8 100644
--- a/space.go
+++ b/space.go
@@ -582,6 +582,8 @@ func (space *Space) ProcessComponents(dt float64) {
 			}
 		}
 
+		// The arbiter is still in the lists of bodies that a collision callback woke.
+		arb.Unthread()
 		a.PushArbiter(arb)
 		b.PushArbiter(arb)
 	}
-- 
2.43.0


From 361643f15143735db420f7d431819dd600c41175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 44/57] fix: allow to change the static body of a space

---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 1b4adc8..f79758c 100644
--- a/space.go
+++ b/space.go
@@ -139,8 +139,10 @@ func (space *Space) SetCollisionSlop(slop float64) {
 
 func (space *Space) SetStaticBody(body *Body) {
 	if space.StaticBody != nil {
+		if len(space.StaticBody.shapeList) > 0 {
+			panic("Internal Error: Changing the designated static body while the old one still had shapes attached.")
+		}
 		space.StaticBody.space = nil
-		panic("Internal Error: Changing the designated static body while the old one still had shapes attached.")
 	}
 	space.StaticBody = body
 	body.space = space
-- 
2.43.0


From 12ee14f0f9d087217427a927ddbf8b6c1b7732cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 45/57] fix: draw the constraints of sleeping bodies too

---
 draw.go  |  2 +-
 space.go | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/draw.go b/draw.go
index 73973bd..960a4fd 100644
--- a/draw.go
+++ b/draw.go
@@ -164,7 +164,7 @@ func DrawSpace(space *Space, options Drawer) {
 		DrawShape(obj, options)
 	})
 
-	for _, constraint := range space.constraints {
+	for _, constraint := range space.allConstraints() {
 		DrawConstraint(constraint, options)
 	}
 
diff --git a/space.go b/space.go
index f79758c..b7855d5 100644
--- a/space.go
+++ b/space.go
@@ -943,10 +943,8 @@ func (space *Space) EachShape(f func(*Shape)) {
 	space.Unlock(true)
 }
 
-func (space *Space) EachConstraint(f func(*Constraint)) {
-	space.Lock()
-
-	// The constraints of sleeping bodies are not in the list. See Deactivate.
+// allConstraints returns every constraint of the space. Those of sleeping bodies are not in the list. See Deactivate.
+func (space *Space) allConstraints() []*Constraint {
 	constraints := append([]*Constraint{}, space.constraints...)
 	for _, body := range space.restingBodies() {
 		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
@@ -955,8 +953,13 @@ func (space *Space) EachConstraint(f func(*Constraint)) {
 			}
 		}
 	}
+	return constraints
+}
+
+func (space *Space) EachConstraint(f func(*Constraint)) {
+	space.Lock()
 
-	for _, constraint := range constraints {
+	for _, constraint := range space.allConstraints() {
 		f(constraint)
 	}
 
-- 
2.43.0


From 29731d926622a6e7614f2949b485817fb2a6115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 46/57] fix: no NaN when drawing a spring of zero length

---
 draw.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/draw.go b/draw.go
index 960a4fd..3477879 100644
--- a/draw.go
+++ b/draw.go
@@ -131,7 +131,10 @@ func DrawConstraint(constraint *Constraint, options Drawer) {
 		delta := b.Sub(a)
 		cos := delta.X
 		sin := delta.Y
-		s := 1.0 / delta.Length()
+		s := 0.0
+		if length := delta.Length(); length > 0 {
+			s = 1.0 / length
+		}
 
 		r1 := Vector{cos, -sin * s}
 		r2 := Vector{sin, cos * s}
-- 
2.43.0


From 8d3e402b555c6f1960f58be647ba6c1a487c1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 47/57] fix: do not move a body by the position correction of
 its former type

---
 body.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/body.go b/body.go
index d3e06f6..add39a7 100644
--- a/body.go
+++ b/body.go
@@ -168,6 +168,10 @@ func (body *Body) SetType(newType int) {
 		body.sleepingIdleTime = 0
 	}
 
+	// Do not carry out the position correction that the last step computed for the old type.
+	body.v_bias = Vector{}
+	body.w_bias = 0
+
 	if newType == BODY_DYNAMIC {
 		body.m = 0
 		body.i = 0
-- 
2.43.0


From 5d0cb0b00d64995592a8ea922b805c84e6578f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 48/57] fix: report contact impulses scaled by the step ratio
 as they were applied

---
 arbiter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 57db323..7115ab5 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -116,9 +116,12 @@ func (arbiter *Arbiter) ApplyCachedImpulse(dt_coef float64) {
 	}
 
 	for i := 0; i < arbiter.count; i++ {
-		contact := arbiter.contacts[i]
+		contact := &arbiter.contacts[i]
+		// What is carried over becomes part of the impulse of this step.
+		contact.jnAcc *= dt_coef
+		contact.jtAcc *= dt_coef
 		j := arbiter.n.Rotate(Vector{contact.jnAcc, contact.jtAcc})
-		apply_impulses(arbiter.body_a, arbiter.body_b, contact.r1, contact.r2, j.Mult(dt_coef))
+		apply_impulses(arbiter.body_a, arbiter.body_b, contact.r1, contact.r2, j)
 	}
 }
 
-- 
2.43.0


From 9b3a4727700d9567c4e8ddb17cd74fcff0186a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 49/57] fix: report joint impulses scaled by the step ratio as
 they were applied

---
 gearjoint.go        | 3 ++-
 groovejoint.go      | 3 ++-
 pinjoint.go         | 3 ++-
 pivotjoint.go       | 3 ++-
 ratchetjoint.go     | 3 ++-
 rotarylimitjoint.go | 3 ++-
 simplemotor.go      | 3 ++-
 slidejoint.go       | 3 ++-
 8 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/gearjoint.go b/gearjoint.go
index 6afeeee..9ce2be5 100644
--- a/gearjoint.go
+++ b/gearjoint.go
@@ -40,7 +40,8 @@ func (joint *GearJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc * dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j * a.i_inv * joint.ratio_inv
 	b.w += j * b.i_inv
 }
diff --git a/groovejoint.go b/groovejoint.go
index 63bac88..35038ae 100644
--- a/groovejoint.go
+++ b/groovejoint.go
@@ -62,7 +62,8 @@ func (joint *GrooveJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	apply_impulses(a, b, joint.r1, joint.r2, joint.jAcc.Mult(dt_coef))
+	joint.jAcc = joint.jAcc.Mult(dt_coef)
+	apply_impulses(a, b, joint.r1, joint.r2, joint.jAcc)
 }
 
 func (joint *GrooveJoint) grooveConstrain(j Vector, dt float64) Vector {
diff --git a/pinjoint.go b/pinjoint.go
index 40b1437..1bfd766 100644
--- a/pinjoint.go
+++ b/pinjoint.go
@@ -61,7 +61,8 @@ func (joint *PinJoint) PreStep(dt float64) {
 }
 
 func (joint *PinJoint) ApplyCachedImpulse(dt_coef float64) {
-	j := joint.n.Mult(joint.jnAcc*dt_coef)
+	joint.jnAcc *= dt_coef
+	j := joint.n.Mult(joint.jnAcc)
 	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, j)
 }
 
diff --git a/pivotjoint.go b/pivotjoint.go
index d970921..557fadb 100644
--- a/pivotjoint.go
+++ b/pivotjoint.go
@@ -56,7 +56,8 @@ func (joint *PivotJoint) PreStep(dt float64) {
 }
 
 func (joint *PivotJoint) ApplyCachedImpulse(dt_coef float64) {
-	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, joint.jAcc.Mult(dt_coef))
+	joint.jAcc = joint.jAcc.Mult(dt_coef)
+	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, joint.jAcc)
 }
 
 func (joint *PivotJoint) ApplyImpulse(dt float64) {
diff --git a/ratchetjoint.go b/ratchetjoint.go
index 3ab0fc7..1cbf0fe 100644
--- a/ratchetjoint.go
+++ b/ratchetjoint.go
@@ -57,7 +57,8 @@ func (joint *RatchetJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc*dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j*a.i_inv
 	b.w += j*b.i_inv
 }
diff --git a/rotarylimitjoint.go b/rotarylimitjoint.go
index 7825343..dffe90a 100644
--- a/rotarylimitjoint.go
+++ b/rotarylimitjoint.go
@@ -45,7 +45,8 @@ func (joint *RotaryLimitJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc*dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j*a.i_inv
 	b.w += j*b.i_inv
 }
diff --git a/simplemotor.go b/simplemotor.go
index 65f3982..39f6294 100644
--- a/simplemotor.go
+++ b/simplemotor.go
@@ -30,7 +30,8 @@ func (motor *SimpleMotor) ApplyCachedImpulse(dt_coef float64) {
 	a := motor.a
 	b := motor.b
 
-	j := motor.jAcc * dt_coef
+	motor.jAcc *= dt_coef
+	j := motor.jAcc
 	a.w -= j * a.i_inv
 	b.w += j * b.i_inv
 }
diff --git a/slidejoint.go b/slidejoint.go
index 8a730c2..de38c2a 100644
--- a/slidejoint.go
+++ b/slidejoint.go
@@ -59,7 +59,8 @@ func (joint *SlideJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.n.Mult(joint.jnAcc * dt_coef)
+	joint.jnAcc *= dt_coef
+	j := joint.n.Mult(joint.jnAcc)
 	apply_impulses(a, b, joint.r1, joint.r2, j)
 }
 
-- 
2.43.0


From c8cafbdb4e3ae0175972080fc3627968905459e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 50/57] fix: report the damping of rotary springs with the
 right sign

---
 dampedrotaryspring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dampedrotaryspring.go b/dampedrotaryspring.go
index c29e960..5bb0ff9 100644
--- a/dampedrotaryspring.go
+++ b/dampedrotaryspring.go
@@ -58,7 +58,7 @@ func (spring *DampedRotarySpring) ApplyImpulse(dt float64) {
 	spring.targetWrn = wrn+wDamp
 
 	jDamp := wDamp*spring.iSum
-	spring.jAcc += jDamp
+	spring.jAcc -= jDamp
 
 	a.w += jDamp*a.i_inv
 	b.w -= jDamp*b.i_inv
-- 
2.43.0


From 4038aa46e63d9e10bcc18cc2d6bed164f53cbdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 51/57] fix: hold rotary limits and ratchets when their error
 is not corrected

---
 ratchetjoint.go     |  9 ++++++---
 rotarylimitjoint.go | 11 +++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ratchetjoint.go b/ratchetjoint.go
index 1cbf0fe..986995a 100644
--- a/ratchetjoint.go
+++ b/ratchetjoint.go
@@ -7,7 +7,7 @@ type RatchetJoint struct {
 
 	Angle, Phase, Ratchet float64
 
-	iSum, bias, jAcc float64
+	iSum, pdist, bias, jAcc float64
 }
 
 func NewRatchetJoint(a, b *Body, phase, ratchet float64) *Constraint {
@@ -48,7 +48,10 @@ func (joint *RatchetJoint) PreStep(dt float64) {
 	maxBias := joint.maxBias
 	joint.bias = Clamp(-bias_coef(joint.errorBias, dt)*pdist/dt, -maxBias, maxBias)
 
-	if joint.bias == 0 {
+	joint.pdist = pdist
+
+	// Within the limits there is nothing to hold. The bias says nothing about that: it may be limited to 0.
+	if pdist == 0 {
 		joint.jAcc = 0
 	}
 }
@@ -64,7 +67,7 @@ func (joint *RatchetJoint) ApplyCachedImpulse(dt_coef float64) {
 }
 
 func (joint *RatchetJoint) ApplyImpulse(dt float64) {
-	if joint.bias == 0 {
+	if joint.pdist == 0 {
 		return
 	}
 
diff --git a/rotarylimitjoint.go b/rotarylimitjoint.go
index dffe90a..5252cf0 100644
--- a/rotarylimitjoint.go
+++ b/rotarylimitjoint.go
@@ -7,7 +7,7 @@ type RotaryLimitJoint struct {
 
 	Min, Max float64
 
-	iSum, bias, jAcc float64
+	iSum, pdist, bias, jAcc float64
 }
 
 func NewRotaryLimitJoint(a, b *Body, min, max float64) *Constraint {
@@ -36,7 +36,10 @@ func (joint *RotaryLimitJoint) PreStep(dt float64) {
 	maxBias := joint.maxBias
 	joint.bias = Clamp(-bias_coef(joint.errorBias, dt)*pdist/dt, -maxBias, maxBias)
 
-	if joint.bias == 0 {
+	joint.pdist = pdist
+
+	// Within the limits there is nothing to hold. The bias says nothing about that: it may be limited to 0.
+	if pdist == 0 {
 		joint.jAcc = 0
 	}
 }
@@ -52,7 +55,7 @@ func (joint *RotaryLimitJoint) ApplyCachedImpulse(dt_coef float64) {
 }
 
 func (joint *RotaryLimitJoint) ApplyImpulse(dt float64) {
-	if joint.bias == 0 {
+	if joint.pdist == 0 {
 		return
 	}
 
@@ -65,7 +68,7 @@ func (joint *RotaryLimitJoint) ApplyImpulse(dt float64) {
 
 	j := -(joint.bias + wr)*joint.iSum
 	jOld := joint.jAcc
-	if joint.bias < 0 {
+	if joint.pdist > 0 {
 		joint.jAcc = Clamp(jOld + j, 0, jMax)
 	} else {
 		joint.jAcc = Clamp(jOld + j, -jMax, 0)
-- 
2.43.0


From 1326100c4ab597fab2cc67707c042a917250bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 52/57] fix: keep surface velocities in the contact plane when
 the contacts are replaced

---
 arbiter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 7115ab5..37271e0 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -241,8 +241,7 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 	arb.e = a.e * b.e
 	arb.u = a.u * b.u
 
-	surfaceVr := b.surfaceV.Sub(a.surfaceV)
-	arb.surface_vr = surfaceVr.Sub(info.n.Mult(surfaceVr.Dot(info.n)))
+	arb.updateSurfaceVelocity()
 
 	typeA := info.a.collisionType
 	typeB := info.b.collisionType
@@ -265,6 +264,12 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 	}
 }
 
+// updateSurfaceVelocity projects the relative surface velocity of the shapes onto the contact plane.
+func (arb *Arbiter) updateSurfaceVelocity() {
+	surfaceVr := arb.b.surfaceV.Sub(arb.a.surfaceV)
+	arb.surface_vr = surfaceVr.Sub(arb.n.Mult(surfaceVr.Dot(arb.n)))
+}
+
 // Ignore marks a collision pair to be ignored until the two objects separate.
 //
 // Pre-solve and post-solve callbacks will not be called, but the separate callback will be called.
@@ -527,6 +532,7 @@ func (arb *Arbiter) SetContactPointSet(set *ContactPointSet) {
 	} else {
 		arb.n = set.Normal
 	}
+	arb.updateSurfaceVelocity()
 
 	for i := 0; i < count; i++ {
 		p1 := set.Points[i].PointA
-- 
2.43.0


From 6dcd84f46211316bf478e8e76db78cff269584ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 53/57] fix: add the offset to the vertices of a polygon of two

---
 everything.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/everything.go b/everything.go
index 3c894af..9cd197b 100644
--- a/everything.go
+++ b/everything.go
@@ -236,7 +236,7 @@ func MomentForSegment(mass float64, a, b Vector, r float64) float64 {
 // The offset is added to each vertex.
 func MomentForPoly(mass float64, count int, verts []Vector, offset Vector, r float64) float64 {
 	if count == 2 {
-		return MomentForSegment(mass, verts[0], verts[1], 0)
+		return MomentForSegment(mass, verts[0].Add(offset), verts[1].Add(offset), 0)
 	}
 
 	var sum1 float64
-- 
2.43.0


From f8474440ab2a2fffa31e68730e57105c76ca2801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:37 +0000
Subject: [PATCH 54/57] fix: a joint between coinciding anchors saves up no
 impulse

---
 dampedspring.go | 6 +++++-
 pinjoint.go     | 8 +++++++-
 slidejoint.go   | 4 ++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/dampedspring.go b/dampedspring.go
index f6b78fd..af62a52 100644
--- a/dampedspring.go
+++ b/dampedspring.go
@@ -57,7 +57,11 @@ func (spring *DampedSpring) PreStep(dt float64) {
 	spring.vCoef = 1.0 - math.Exp(-spring.Damping*dt*k)
 
 	fSpring := spring.SpringForceFunc(spring, dist)
-	spring.jAcc = fSpring * dt
+	spring.jAcc = 0
+	if dist != 0 {
+		// with coinciding anchors there is no direction to push in
+		spring.jAcc = fSpring * dt
+	}
 	apply_impulses(a, b, spring.r1, spring.r2, spring.n.Mult(spring.jAcc))
 }
 
diff --git a/pinjoint.go b/pinjoint.go
index 1bfd766..f44c48a 100644
--- a/pinjoint.go
+++ b/pinjoint.go
@@ -51,7 +51,9 @@ func (joint *PinJoint) PreStep(dt float64) {
 	if dist != 0 {
 		joint.n = delta.Mult(1 / dist)
 	} else {
-		joint.n = delta.Mult(1 / INFINITY)
+		// coinciding anchors, there is no direction to push in
+		joint.n = Vector{}
+		joint.jnAcc = 0
 	}
 
 	joint.nMass = 1/k_scalar(a, b, joint.r1, joint.r2, joint.n)
@@ -67,6 +69,10 @@ func (joint *PinJoint) ApplyCachedImpulse(dt_coef float64) {
 }
 
 func (joint *PinJoint) ApplyImpulse(dt float64) {
+	if joint.n.Equal(Vector{}) {
+		return
+	}
+
 	a := joint.a
 	b := joint.b
 	n := joint.n
diff --git a/slidejoint.go b/slidejoint.go
index de38c2a..8a67b65 100644
--- a/slidejoint.go
+++ b/slidejoint.go
@@ -42,6 +42,10 @@ func (joint *SlideJoint) PreStep(dt float64) {
 	} else if dist < joint.Min {
 		pdist = joint.Min - dist
 		joint.n = delta.Normalize().Neg()
+		if dist == 0 {
+			// coinciding anchors, there is no direction to push in
+			joint.jnAcc = 0
+		}
 	} else {
 		joint.n = Vector{}
 		joint.jnAcc = 0
-- 
2.43.0


From db69a7c3aeb156615e3dd19c3a2f3087581d09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 55/57] fix: Body.EachShape visits every shape when its
 callback removes one

---
 body.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/body.go b/body.go
index add39a7..8a5286a 100644
--- a/body.go
+++ b/body.go
@@ -610,8 +610,9 @@ func (body *Body) EachArbiter(f func(*Arbiter)) {
 
 // EachShape calls f once for each shape attached to this body
 func (body *Body) EachShape(f func(*Shape)) {
-	for i := 0; i < len(body.shapeList); i++ {
-		f(body.shapeList[i])
+	// f may remove the shape from the body
+	for _, shape := range append([]*Shape(nil), body.shapeList...) {
+		f(shape)
 	}
 }
 
-- 
2.43.0


From 7e0102900281f2f42a1ceaa4e64d7057d183d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:09 +0000
Subject: [PATCH 56/57] fix: tell the corners of polygons with more than 256
 apart in EPA

---
 collision.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index e67519e..453a275 100644
--- a/collision.go
+++ b/collision.go
@@ -472,7 +472,8 @@ func EPARecurse(ctx SupportContext, count int, hull []MinkowskiPoint, iteration
 
 	p := ctx.Support(v1.ab.Sub(v0.ab).Perp())
 
-	duplicate := p.collisionId == v0.collisionId || p.collisionId == v1.collisionId
+	// Compare points, not collision ids: those keep only the low byte of each vertex index.
+	duplicate := (p.a == v0.a && p.b == v0.b) || (p.a == v1.a && p.b == v1.b)
 
 	if !duplicate && v0.ab.PointGreater(v1.ab, p.ab) && iteration < maxEpaIterations {
 		// Rebuild the convex hull by inserting p.
-- 
2.43.0


From d04d169583d80a7d16d95218286e014191110e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:09 +0000
Subject: [PATCH 57/57] fix: contact normals of nearly touching vertices are
 unit vectors

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 453a275..0782e12 100644
--- a/collision.go
+++ b/collision.go
@@ -255,7 +255,7 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	}
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
-	n2 := p.Mult(1 / (d2 + 1e-15))
+	n2 := Vector{p.X / d2, p.Y / d2}
 
 	return ClosestPoints{pa, pb, n2, d2, id}
 }
-- 
2.43.0

