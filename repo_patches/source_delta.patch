From 5fc0d33d531c060d5a814cae3e894eaa14e109bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 01/35] fix: SlerpConst returned NaN for vectors pointing in
 the same direction

---
 vector.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vector.go b/vector.go
index cea4a8c..42f956d 100644
--- a/vector.go
+++ b/vector.go
@@ -124,7 +124,11 @@ func LerpConst(f1, f2, d float64) float64 {
 func (v Vector) SlerpConst(other Vector, a float64) Vector {
 	dot := v.Normalize().Dot(other.Normalize())
 	omega := math.Acos(Clamp(dot, -1, 1))
-	return v.SLerp(other, math.Min(a, omega)/omega)
+	t := 1.0
+	if a < omega {
+		t = a / omega
+	}
+	return v.SLerp(other, t)
 }
 
 func (v Vector) Clamp(length float64) Vector {
-- 
2.43.0


From b6336b42a25ce99744f15ceec3bac3846cee2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 02/35] fix: Circle.PointQuery returned a NaN point for the
 center of the circle

---
 circle.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/circle.go b/circle.go
index 11fce2d..8aa22c2 100644
--- a/circle.go
+++ b/circle.go
@@ -54,15 +54,16 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	d := delta.Length()
 	r := circle.r
 
-	info.Shape = circle.Shape
-	info.Point = circle.tc.Add(delta.Mult(r / d))
-	info.Distance = d - r
-
+	// Any direction will do if the distance to the center is very small.
+	g := Vector{0, 1}
 	if d > MAGIC_EPSILON {
-		info.Gradient = delta.Mult(1 / d)
-	} else {
-		info.Gradient = Vector{0, 1}
+		g = delta.Mult(1 / d)
 	}
+
+	info.Shape = circle.Shape
+	info.Point = circle.tc.Add(g.Mult(r))
+	info.Distance = d - r
+	info.Gradient = g
 }
 
 func (circle *Circle) SegmentQuery(a, b Vector, radius float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 38d225d4fcd57544147639c10cf7bb04d0b15182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 03/35] fix: Segment.PointQuery used the body local normal and
 the core point for points on the segment

---
 segment.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/segment.go b/segment.go
index 5f0fe87..9454c0f 100644
--- a/segment.go
+++ b/segment.go
@@ -89,22 +89,17 @@ func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	delta := p.Sub(closest)
 	d := delta.Length()
 	r := seg.r
-	g := delta.Mult(1 / d)
-
-	info.Shape = seg.Shape
-	if d != 0 {
-		info.Point = closest.Add(g.Mult(r))
-	} else {
-		info.Point = closest
-	}
-	info.Distance = d - r
 
 	// Use the segment's normal if the distance is very small.
+	g := seg.tn
 	if d > MAGIC_EPSILON {
-		info.Gradient = g
-	} else {
-		info.Gradient = seg.n
+		g = delta.Mult(1 / d)
 	}
+
+	info.Shape = seg.Shape
+	info.Point = closest.Add(g.Mult(r))
+	info.Distance = d - r
+	info.Gradient = g
 }
 
 func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From cf3f934311d1a15c4c9db6833ed0cc1fbbef9f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 04/35] fix: PolyShape.PointQuery returned a NaN point for
 points exactly on the boundary

---
 poly.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/poly.go b/poly.go
index fbc370b..244cd21 100644
--- a/poly.go
+++ b/poly.go
@@ -98,17 +98,16 @@ func (poly *PolyShape) PointQuery(p Vector, info *PointQueryInfo) {
 	} else {
 		dist = -minDist
 	}
-	g := p.Sub(closestPoint).Mult(1.0 / dist)
+	// Use the edge's normal if the distance is very small.
+	g := closestNormal
+	if minDist > MAGIC_EPSILON {
+		g = p.Sub(closestPoint).Mult(1.0 / dist)
+	}
 
 	info.Shape = poly.Shape
 	info.Point = closestPoint.Add(g.Mult(r))
 	info.Distance = dist - r
-
-	if minDist > MAGIC_EPSILON {
-		info.Gradient = g
-	} else {
-		info.Gradient = closestNormal
-	}
+	info.Gradient = g
 }
 
 func (poly *PolyShape) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 5dce05030845c07e2225c6002b61ae09951c519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 05/35] fix: Segment.SetEndpoints flipped the segment's normal
 compared to NewSegment

---
 segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index 9454c0f..59e103e 100644
--- a/segment.go
+++ b/segment.go
@@ -62,7 +62,7 @@ func (seg *Segment) TransformB() Vector {
 func (seg *Segment) SetEndpoints(a, b Vector) {
 	seg.a = a
 	seg.b = b
-	seg.n = b.Sub(a).Normalize().Perp()
+	seg.n = b.Sub(a).Normalize().ReversePerp()
 
 	mass := seg.massInfo.m
 	seg.massInfo = NewSegmentMassInfo(seg.massInfo.m, seg.a, seg.b, seg.r)
-- 
2.43.0


From cbd0518f177976321c5370b774eb37a9233d1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 06/35] fix: PolyShape.SetRadius left the area computed for the
 old radius

---
 poly.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/poly.go b/poly.go
index 244cd21..7d03e7e 100644
--- a/poly.go
+++ b/poly.go
@@ -33,6 +33,16 @@ func (poly PolyShape) Radius() float64 {
 
 func (poly *PolyShape) SetRadius(r float64) {
 	poly.r = r
+
+	verts := make([]Vector, poly.count)
+	for i := range verts {
+		verts[i] = poly.Vert(i)
+	}
+	mass := poly.massInfo.m
+	poly.massInfo = PolyShapeMassInfo(mass, poly.count, verts, r)
+	if mass > 0 {
+		poly.body.AccumulateMassFromShapes()
+	}
 }
 
 func (poly *PolyShape) CacheData(transform Transform) BB {
-- 
2.43.0


From 2517249611163fb3b37fda4e63ce125f4128ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 07/35] fix: Segment.SegmentQuery missed the end cap for rays
 that start between the lines through its sides

---
 segment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index 59e103e..6817316 100644
--- a/segment.go
+++ b/segment.go
@@ -120,7 +120,8 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 	segB := seg.tb.Add(segOffset)
 	delta := b.Sub(a)
 
-	if delta.Cross(segA)*delta.Cross(segB) <= 0 {
+	// A ray that starts between the lines through the two sides can only hit an end cap.
+	if (d > r || d < -r) && delta.Cross(segA)*delta.Cross(segB) <= 0 {
 		dOffset := d
 		if d > 0 {
 			dOffset -= r
-- 
2.43.0


From 85016ee93150a3d2a2e9a7d6867f37e10e9abdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 08/35] fix: ShapesCollide flipped the sign of the depth when
 the shapes were swapped

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 51f7123..1ddaaed 100644
--- a/shape.go
+++ b/shape.go
@@ -264,7 +264,7 @@ func ShapesCollide(a, b *Shape) ContactPointSet {
 			set.Points[i].PointA = p1
 			set.Points[i].PointB = p2
 		}
-		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)
+		set.Points[i].Distance = p2.Sub(p1).Dot(info.n)
 	}
 
 	return set
-- 
2.43.0


From f96900d5e45e3a203783e2f6e155f5a0dccaa2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 09/35] fix: ClosestPoints treated a vertex on the line through
 an edge as overlapping, whatever the distance

---
 collision.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collision.go b/collision.go
index 58f03a1..86fedf2 100644
--- a/collision.go
+++ b/collision.go
@@ -238,13 +238,15 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	n := delta.ReversePerp().Normalize()
 	d := n.Dot(p)
 
-	if d <= 0 || (-1 < t && t < 1) {
+	// A vertex that is merely on the line through the edge has d == 0 too, but it is at a distance of d2 and not overlapping.
+	d2 := p.Length()
+
+	if (d <= 0 && d2 <= MAGIC_EPSILON-d) || (-1 < t && t < 1) {
 		// If the shapes are overlapping, or we have a regular vertex/edge collision, we are done.
 		return ClosestPoints{pa, pb, n, d, id}
 	}
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
-	d2 := p.Length()
 	n2 := p.Mult(1 / (d2 + 1e-15))
 
 	return ClosestPoints{pa, pb, n2, d2, id}
-- 
2.43.0


From 8f004756321ad92a271d42e5a02b96a0c130a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 10/35] fix: CircleToPoly put the polygon's contact point on
 the wrong side of its rounded edge

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 86fedf2..f900de6 100644
--- a/collision.go
+++ b/collision.go
@@ -170,7 +170,7 @@ func CircleToPoly(info *CollisionInfo) {
 
 	if points.d <= circle.r+poly.r {
 		info.n = points.n
-		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(poly.r)), 0)
+		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)
 	}
 }
 
-- 
2.43.0


From 74bbe917994f60984b28c870786a512445f5e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 11/35] fix: ShapeQuery forgot a collision when a sensor was
 found after it

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index a3a1bfe..3d5020a 100644
--- a/space.go
+++ b/space.go
@@ -1114,7 +1114,7 @@ func (space *Space) ShapeQuery(shape *Shape, callback func(shape *Shape, points
 			if callback != nil {
 				callback(b, &contactPointSet)
 			}
-			anyCollision = !(a.sensor || b.sensor)
+			anyCollision = anyCollision || !(a.sensor || b.sensor)
 		}
 
 		return collisionId
-- 
2.43.0


From 77d8738dfacb2c266bc99c76e7d60d319d240440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 12/35] fix: segment queries with a radius missed shapes whose
 bounding box the center line does not touch

---
 space.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/space.go b/space.go
index 3d5020a..d938d19 100644
--- a/space.go
+++ b/space.go
@@ -1014,6 +1014,21 @@ type SegmentQueryContext struct {
 	f          SpaceSegmentQueryFunc
 }
 
+// query calls f for the shapes of an index that the segment may hit.
+func (context *SegmentQueryContext) query(index *SpatialIndex, t_exit float64, f SpatialIndexSegmentQuery, data interface{}) {
+	if context.radius <= 0 {
+		index.class.SegmentQuery(context, context.start, context.end, t_exit, f, data)
+		return
+	}
+
+	// The indexes trace a segment without a radius, so find the shapes near a thick segment by its bounding box.
+	bb := NewBBForCircle(context.start, context.radius).Merge(NewBBForCircle(context.end, context.radius))
+	index.class.Query(context, bb, func(obj interface{}, shape *Shape, collisionId uint32, data interface{}) uint32 {
+		f(obj, shape, data)
+		return collisionId
+	}, data)
+}
+
 func segmentQuery(obj interface{}, shape *Shape, data interface{}) float64 {
 	context := obj.(*SegmentQueryContext)
 	var info SegmentQueryInfo
@@ -1044,8 +1059,8 @@ func (space *Space) SegmentQuery(start, end Vector, radius float64, filter Shape
 	context := SegmentQueryContext{start, end, radius, filter, f}
 	space.Lock()
 
-	space.staticShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
-	space.dynamicShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
+	context.query(space.staticShapes, 1, segmentQuery, data)
+	context.query(space.dynamicShapes, 1, segmentQuery, data)
 
 	space.Unlock(true)
 }
@@ -1053,8 +1068,8 @@ func (space *Space) SegmentQuery(start, end Vector, radius float64, filter Shape
 func (space *Space) SegmentQueryFirst(start, end Vector, radius float64, filter ShapeFilter) SegmentQueryInfo {
 	info := SegmentQueryInfo{nil, end, Vector{}, 1}
 	context := &SegmentQueryContext{start, end, radius, filter, nil}
-	space.staticShapes.class.SegmentQuery(context, start, end, 1, queryFirst, &info)
-	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)
+	context.query(space.staticShapes, 1, queryFirst, &info)
+	context.query(space.dynamicShapes, info.Alpha, queryFirst, &info)
 	return info
 }
 
-- 
2.43.0


From 3967c1baf850e669f921c9f5735e022370fb3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 13/35] fix: SpaceHash.SegmentQuery lagged one cell behind rays
 that start on a cell boundary in the negative direction

---
 spacehash.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index bd2f098..d37757a 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -286,16 +286,13 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 		dtdy = INFINITY
 	}
 
-	var nextH, nextV float64
-	if tempH != 0 {
+	// A segment that starts on a cell boundary and heads in the negative direction leaves its first cell at once.
+	nextH, nextV := INFINITY, INFINITY
+	if dx != 0 {
 		nextH = tempH * dtdx
-	} else {
-		nextH = dtdx
 	}
-	if tempV != 0 {
+	if dy != 0 {
 		nextV = tempV * dtdy
-	} else {
-		nextV = dtdy
 	}
 
 	for t < t_exit {
-- 
2.43.0


From 0a2672bbeb90770a2ae6d78b059f68cddc6532c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 14/35] fix: waking a sleeping body from a collision callback
 corrupted its arbiter list

The woken body's arbiters are restored to the space when it unlocks, before ProcessComponents threads the
arbiters of the step; the restored ones were already threaded, so the list became cyclic and the step hung.
---
 body.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/body.go b/body.go
index 308e868..40f04a6 100644
--- a/body.go
+++ b/body.go
@@ -464,6 +464,10 @@ func (body *Body) KineticEnergy() float64 {
 
 func (body *Body) PushArbiter(arb *Arbiter) {
 	next := body.arbiterList
+	if next == arb || arb.ThreadForBody(body).prev != nil {
+		// An arbiter restored by waking up a body is in the list already.
+		return
+	}
 	arb.ThreadForBody(body).next = next
 	if next != nil {
 		next.ThreadForBody(body).prev = arb
-- 
2.43.0


From af329e3d32ca15f43b09446f3faa0362d0ab4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 15/35] fix: separate callbacks came early or late when bodies
 woke up or fell asleep in the step

Old arbiters were filtered after the sleeping state had changed, so a sensor or rejected pair of a body that had just
been woken was separated although it still touched, and one of a body that had just fallen asleep was not separated.
---
 space.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/space.go b/space.go
index d938d19..815f9b1 100644
--- a/space.go
+++ b/space.go
@@ -705,6 +705,12 @@ func (space *Space) Step(dt float64) {
 		space.PushFreshContactBuffer()
 		space.dynamicShapes.class.Each(ShapeUpdateFunc)
 		space.dynamicShapes.class.ReindexQuery(SpaceCollideShapesFunc, space)
+
+		// Clear out old cached arbiters and call separate callbacks. This needs the sleeping state that the pairs
+		// were found with: bodies fall asleep and wake up below.
+		space.cachedArbiters.Filter(func(arb *Arbiter) bool {
+			return SpaceArbiterSetFilter(arb, space)
+		})
 	}
 	space.Unlock(false)
 
@@ -713,11 +719,6 @@ func (space *Space) Step(dt float64) {
 
 	space.Lock()
 	{
-		// Clear out old cached arbiters and call separate callbacks
-		space.cachedArbiters.Filter(func(arb *Arbiter) bool {
-			return SpaceArbiterSetFilter(arb, space)
-		})
-
 		// Prestep the arbiters and constraints.
 		slop := space.collisionSlop
 		biasCoef := 1 - math.Pow(space.collisionBias, dt)
-- 
2.43.0


From 302ea98bdcc2fde26c8ad421e8b2e9a3c9ed8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 16/35] fix: PostSolveFunc was passed the handler instead of
 its user data

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 815f9b1..a9804fd 100644
--- a/space.go
+++ b/space.go
@@ -776,7 +776,7 @@ func (space *Space) Step(dt float64) {
 
 		// run the post-solve callbacks
 		for _, arb := range space.arbiters {
-			arb.handler.PostSolveFunc(arb, space, arb.handler)
+			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)
 		}
 	}
 	space.Unlock(true)
-- 
2.43.0


From 2f4c1ed5867e23531a15c105f1e6f6a826d4ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 17/35] fix: a rejecting wildcard handler kept the other
 shape's wildcard handler from being called

Its separate function was called nevertheless.
---
 arbiter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 3bca89c..8adcd06 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -386,11 +386,15 @@ func DoNothing(_ *Arbiter, _ *Space, _ interface{}) {
 }
 
 func DefaultBegin(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardBeginA(space) && arb.CallWildcardBeginB(space)
+	retA := arb.CallWildcardBeginA(space)
+	retB := arb.CallWildcardBeginB(space)
+	return retA && retB
 }
 
 func DefaultPreSolve(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)
+	retA := arb.CallWildcardPreSolveA(space)
+	retB := arb.CallWildcardPreSolveB(space)
+	return retA && retB
 }
 
 func DefaultPostSolve(arb *Arbiter, space *Space, _ interface{}) {
-- 
2.43.0


From 9ade8c4e77f9542e36a4419c0b1d09ee1a0421a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 18/35] fix: a pair that touched again soon after separating
 started with the old accumulated impulses

They are not applied on first contact, so the solver took them back: the contact pulled the bodies together.
---
 arbiter.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 8adcd06..b127bbc 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -198,6 +198,13 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 	arb.b = b
 	arb.body_b = b.body
 
+	// mark it as new if it's been cached
+	if arb.state == CP_ARBITER_STATE_CACHED {
+		arb.state = CP_ARBITER_STATE_FIRST_COLLISION
+		// The impulses of the previous collision do not belong to this one: they are not applied on first contact.
+		arb.count = 0
+	}
+
 	// Iterate over the possible pairs to look for hash value matches.
 	for i := 0; i < info.count; i++ {
 		con := &info.arr[i]
@@ -252,11 +259,6 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 			arb.handlerB = space.LookupHandler(typeB, WILDCARD_COLLISION_TYPE, &CollisionHandlerDoNothing)
 		}
 	}
-
-	// mark it as new if it's been cached
-	if arb.state == CP_ARBITER_STATE_CACHED {
-		arb.state = CP_ARBITER_STATE_FIRST_COLLISION
-	}
 }
 
 // Ignore marks a collision pair to be ignored until the two objects separate.
-- 
2.43.0


From bc258c86dd0a99fa429d1551ccf77eb6bb16e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 19/35] fix: wake up bodies before SetType changes their type

A sleeping body that became static or kinematic stayed in the list of
sleeping components and was lost, and bodies sleeping on or jointed to a
static body were not woken when it became dynamic, which left arbiters of
the old contact behind or failed an assertion in the next step.
---
 body.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/body.go b/body.go
index 40f04a6..5a6d626 100644
--- a/body.go
+++ b/body.go
@@ -150,6 +150,18 @@ func (body *Body) SetType(newType int) {
 		return
 	}
 
+	if body.space != nil {
+		assert(body.space.locked == 0, "Space is locked")
+
+		// Wake up everything that depends on the body while it still has its old type.
+		if oldType == BODY_STATIC {
+			body.ActivateStatic(nil)
+		} else {
+			body.Activate()
+		}
+		body.EachConstraint((*Constraint).ActivateBodies)
+	}
+
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
 	} else {
@@ -177,11 +189,6 @@ func (body *Body) SetType(newType int) {
 	if body.space == nil {
 		return
 	}
-	assert(body.space.locked == 0, "Space is locked")
-
-	if oldType != BODY_STATIC {
-		body.Activate()
-	}
 
 	if oldType == BODY_STATIC {
 		for i, b := range body.space.staticBodies {
-- 
2.43.0


From 8757e728f766c81c9fcb48ce03c83c1fe0efa909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 20/35] fix: SetGravity wakes up all sleeping components

Activate removes a component from the list that was being iterated, so that
every other component was skipped.
---
 space.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/space.go b/space.go
index a9804fd..cf8d169 100644
--- a/space.go
+++ b/space.go
@@ -117,8 +117,9 @@ func (space *Space) SetGravity(gravity Vector) {
 	space.gravity = gravity
 
 	// Wake up all of the bodies since the gravity changed.
-	for _, component := range space.sleepingComponents {
-		component.Activate()
+	for len(space.sleepingComponents) > 0 {
+		// removes the component from the list
+		space.sleepingComponents[0].Activate()
 	}
 }
 
-- 
2.43.0


From 0b70fcbf60de725d4377e9bf37e0bff3f2eb92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 21/35] fix: EachBody visits every body once when the callback
 wakes bodies

Waking a body removes its component from the list being iterated and cuts
the list of its bodies, so that bodies were skipped or visited twice.
---
 space.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/space.go b/space.go
index cf8d169..e59b31a 100644
--- a/space.go
+++ b/space.go
@@ -899,6 +899,8 @@ func (space *Space) EachBody(f func(body *Body)) {
 	space.Lock()
 	defer space.Unlock(true)
 
+	sleeping := space.sleepingBodies()
+
 	for _, body := range space.dynamicBodies {
 		f(body)
 	}
@@ -907,15 +909,20 @@ func (space *Space) EachBody(f func(body *Body)) {
 		f(body)
 	}
 
-	for _, root := range space.sleepingComponents {
-		body := root
+	for _, body := range sleeping {
+		f(body)
+	}
+}
 
-		for body != nil {
-			next := body.sleepingNext
-			f(body)
-			body = next
+// sleepingBodies returns the bodies that are asleep. Waking them up does not change the returned slice.
+func (space *Space) sleepingBodies() []*Body {
+	var bodies []*Body
+	for _, root := range space.sleepingComponents {
+		for body := root; body != nil; body = body.sleepingNext {
+			bodies = append(bodies, body)
 		}
 	}
+	return bodies
 }
 
 func (space *Space) EachShape(f func(*Shape)) {
-- 
2.43.0


From 026d17c069a004e20f02c75a9ac5a72f15871619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 22/35] fix: EachConstraint visits the constraints of sleeping
 bodies

Bodies and shapes that are asleep are visited by EachBody and EachShape, but
their constraints were skipped (and not drawn) until they woke up.
---
 space.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/space.go b/space.go
index e59b31a..a15f8f6 100644
--- a/space.go
+++ b/space.go
@@ -941,10 +941,24 @@ func (space *Space) EachShape(f func(*Shape)) {
 func (space *Space) EachConstraint(f func(*Constraint)) {
 	space.Lock()
 
+	// The constraints of sleeping bodies are not in the list.
+	var sleeping []*Constraint
+	for _, body := range space.sleepingBodies() {
+		body.EachConstraint(func(constraint *Constraint) {
+			if body == constraint.a || constraint.a.GetType() == BODY_STATIC {
+				sleeping = append(sleeping, constraint)
+			}
+		})
+	}
+
 	for i := 0; i < len(space.constraints); i++ {
 		f(space.constraints[i])
 	}
 
+	for _, constraint := range sleeping {
+		f(constraint)
+	}
+
 	space.Unlock(true)
 }
 
-- 
2.43.0


From 945c019703a9430706aa4af53ad0d94f745e29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 23/35] fix: adding a shape to its body and then to the space
 counted it twice

The body listed the shape twice and added its mass twice.
---
 body.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/body.go b/body.go
index 5a6d626..c6ecdd5 100644
--- a/body.go
+++ b/body.go
@@ -447,6 +447,12 @@ func (body *Body) IsSleeping() bool {
 
 // AddShape adds shape to the body and returns added shape
 func (body *Body) AddShape(shape *Shape) *Shape {
+	for _, s := range body.shapeList {
+		if s == shape {
+			// Space.AddShape adds shapes to their bodies too.
+			return shape
+		}
+	}
 	body.shapeList = append(body.shapeList, shape)
 	if shape.MassInfo().m > 0 {
 		body.AccumulateMassFromShapes()
-- 
2.43.0


From ed89c745bfc3406d1661ffc59a641f34ecfe203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 24/35] fix: shapes that are attached to a body but not in the
 space

Body.AddShape allows shapes that only contribute their mass. Putting such a
body to sleep, waking it or changing its type crashed, or made the shape
collide without being in the space.
---
 body.go  | 3 +++
 space.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/body.go b/body.go
index c6ecdd5..a1cc55c 100644
--- a/body.go
+++ b/body.go
@@ -223,6 +223,9 @@ func (body *Body) SetType(newType int) {
 
 	if oldType != newType {
 		for _, shape := range body.shapeList {
+			if shape.space == nil {
+				continue
+			}
 			fromIndex.class.Remove(shape, shape.hashid)
 			toIndex.class.Insert(shape, shape.hashid)
 		}
diff --git a/space.go b/space.go
index a15f8f6..29e5ac2 100644
--- a/space.go
+++ b/space.go
@@ -160,6 +160,9 @@ func (space *Space) Activate(body *Body) {
 	space.dynamicBodies = append(space.dynamicBodies, body)
 
 	for _, shape := range body.shapeList {
+		if shape.space == nil {
+			continue
+		}
 		space.staticShapes.class.Remove(shape, shape.hashid)
 		space.dynamicShapes.class.Insert(shape, shape.hashid)
 	}
@@ -213,6 +216,9 @@ func (space *Space) Deactivate(body *Body) {
 	}
 
 	for _, shape := range body.shapeList {
+		if shape.space == nil {
+			continue
+		}
 		space.dynamicShapes.class.Remove(shape, shape.hashid)
 		space.staticShapes.class.Insert(shape, shape.hashid)
 	}
-- 
2.43.0


From aaabf6532dcb6d4c9a82014f0d99bc9a13e3ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 25/35] fix: SetStaticBody always panicked

It is only an error while the old static body has shapes attached.
---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 29e5ac2..ede7ee2 100644
--- a/space.go
+++ b/space.go
@@ -138,8 +138,10 @@ func (space *Space) SetCollisionSlop(slop float64) {
 
 func (space *Space) SetStaticBody(body *Body) {
 	if space.StaticBody != nil {
+		if len(space.StaticBody.shapeList) > 0 {
+			panic("Internal Error: Changing the designated static body while the old one still had shapes attached.")
+		}
 		space.StaticBody.space = nil
-		panic("Internal Error: Changing the designated static body while the old one still had shapes attached.")
 	}
 	space.StaticBody = body
 	body.space = space
-- 
2.43.0


From 2eea5b409419d8b60d1cc104d91bf7b5e108b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 26/35] fix: a body made kinematic jumped by the correction of
 an overlap

The pseudo-velocity that separates overlapping shapes was kept when the body
stopped being dynamic and was applied by the next step.
---
 body.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/body.go b/body.go
index a1cc55c..90390e6 100644
--- a/body.go
+++ b/body.go
@@ -183,6 +183,8 @@ func (body *Body) SetType(newType int) {
 
 		body.v = Vector{}
 		body.w = 0
+		body.v_bias = Vector{}
+		body.w_bias = 0
 	}
 
 	// If the body is added to a space already, we'll need to update some space data structures.
-- 
2.43.0


From 4bcff126d9402e78a0c947db6eeb526f4658bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 27/35] fix: SetSurfaceV left a sleeping body asleep

---
 shape.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shape.go b/shape.go
index 1ddaaed..3442852 100644
--- a/shape.go
+++ b/shape.go
@@ -146,6 +146,7 @@ func (s *Shape) SetFriction(u float64) {
 }
 
 func (s *Shape) SetSurfaceV(surfaceV Vector) {
+	s.body.Activate()
 	s.surfaceV = surfaceV
 }
 
-- 
2.43.0


From 5236488ffef255990ad996781fb33381b7b3d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:37 +0000
Subject: [PATCH 28/35] fix: post-step callbacks added by post-step callbacks
 never ran

---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index ede7ee2..9faf4ab 100644
--- a/space.go
+++ b/space.go
@@ -813,7 +813,9 @@ func (space *Space) Unlock(runPostStep bool) {
 	if runPostStep && !space.skipPostStep {
 		space.skipPostStep = true
 
-		for _, callback := range space.postStepCallbacks {
+		// Callbacks can add more callbacks.
+		for i := 0; i < len(space.postStepCallbacks); i++ {
+			callback := space.postStepCallbacks[i]
 			f := callback.callback
 
 			// Mark the func as NULL in case calling it calls cpSpaceRunPostStepCallbacks() again.
-- 
2.43.0


From 4113d4a2dfc50aa7480cc984dcf19168fcc65a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:35 +0000
Subject: [PATCH 29/35] fix: SimplifyCurves crashed or did not return on lines
 that come back close to themselves

---
 polyline.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/polyline.go b/polyline.go
index 81f7c52..b17ec0a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -34,8 +34,7 @@ func (pl *PolyLine) IsClosed() bool {
 
 func (pl *PolyLine) IsShort(count, start, end int, min float64) bool {
 	var length float64
-	// Next doesn't have side effects and its return value is ignored (SA4017)go-staticcheck
-	for i := start; i != end; Next(i, count) {
+	for i := start; i != end; i = Next(i, count) {
 		length += pl.Verts[i].Distance(pl.Verts[Next(i, count)])
 		if length > min {
 			return false
@@ -77,7 +76,7 @@ func DouglasPeucker(verts []Vector, reduced *PolyLine, length, start, end int, m
 	b := verts[end]
 
 	// Check if the length is below the threshold
-	if a.Near(b, min) && reduced.IsShort(length, start, end, min) {
+	if a.Near(b, min) && (&PolyLine{Verts: verts}).IsShort(length, start, end, min) {
 		return reduced
 	}
 
-- 
2.43.0


From e2fc7b6ee8cd0296330c88a5d38e16f938e78dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:35 +0000
Subject: [PATCH 30/35] fix: SimplifyVertexes opened closed lines

---
 polyline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polyline.go b/polyline.go
index b17ec0a..4efc93a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -61,6 +61,7 @@ func (pl *PolyLine) SimplifyVertexes(tol float64) *PolyLine {
 
 	if pl.IsClosed() && Sharpness(reduced.Verts[len(reduced.Verts)-2], reduced.Verts[0], reduced.Verts[1]) < minSharp {
 		reduced.Verts[0] = reduced.Verts[len(reduced.Verts)-2]
+		reduced.Verts = reduced.Verts[:len(reduced.Verts)-1]
 	}
 	return &reduced
 }
-- 
2.43.0


From a263a2c331dc31260e09a820c24b3eea97b46224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:04 +0000
Subject: [PATCH 31/35] fix: rotary springs told the wrong impulse

---
 dampedrotaryspring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dampedrotaryspring.go b/dampedrotaryspring.go
index c29e960..5bb0ff9 100644
--- a/dampedrotaryspring.go
+++ b/dampedrotaryspring.go
@@ -58,7 +58,7 @@ func (spring *DampedRotarySpring) ApplyImpulse(dt float64) {
 	spring.targetWrn = wrn+wDamp
 
 	jDamp := wDamp*spring.iSum
-	spring.jAcc += jDamp
+	spring.jAcc -= jDamp
 
 	a.w += jDamp*a.i_inv
 	b.w -= jDamp*b.i_inv
-- 
2.43.0


From 6bcbf89df7c8f681ac94b60fa2bd9f7c63df013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 32/35] fix: joints between sleeping bodies were not drawn

---
 draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/draw.go b/draw.go
index 73973bd..9528fb9 100644
--- a/draw.go
+++ b/draw.go
@@ -164,9 +164,9 @@ func DrawSpace(space *Space, options Drawer) {
 		DrawShape(obj, options)
 	})
 
-	for _, constraint := range space.constraints {
+	space.EachConstraint(func(constraint *Constraint) {
 		DrawConstraint(constraint, options)
-	}
+	})
 
 	drawSeg := options.DrawSegment
 	data := options.Data()
-- 
2.43.0


From 837cf9d92c8019bde057837339945d52546c9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 33/35] fix: DrawSpace drew what the drawer's flags turn off

---
 draw.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/draw.go b/draw.go
index 9528fb9..27f121b 100644
--- a/draw.go
+++ b/draw.go
@@ -157,16 +157,26 @@ func DrawConstraint(constraint *Constraint, options Drawer) {
 }
 
 func DrawSpace(space *Space, options Drawer) {
-	space.dynamicShapes.class.Each(func(obj *Shape) {
-		DrawShape(obj, options)
-	})
-	space.staticShapes.class.Each(func(obj *Shape) {
-		DrawShape(obj, options)
-	})
-
-	space.EachConstraint(func(constraint *Constraint) {
-		DrawConstraint(constraint, options)
-	})
+	flags := options.Flags()
+
+	if flags&DRAW_SHAPES != 0 {
+		space.dynamicShapes.class.Each(func(obj *Shape) {
+			DrawShape(obj, options)
+		})
+		space.staticShapes.class.Each(func(obj *Shape) {
+			DrawShape(obj, options)
+		})
+	}
+
+	if flags&DRAW_CONSTRAINTS != 0 {
+		space.EachConstraint(func(constraint *Constraint) {
+			DrawConstraint(constraint, options)
+		})
+	}
+
+	if flags&DRAW_COLLISION_POINTS == 0 {
+		return
+	}
 
 	drawSeg := options.DrawSegment
 	data := options.Data()
-- 
2.43.0


From 60bde10d1136380d3943dcf53158cee2a2873707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:50 +0000
Subject: [PATCH 34/35] fix: queries within callbacks of a space with a spatial
 hash missed shapes and repeated pairs

---
 space.go     | 12 +++++++++---
 spacehash.go | 29 +++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/space.go b/space.go
index 9faf4ab..e11fe58 100644
--- a/space.go
+++ b/space.go
@@ -1045,6 +1045,7 @@ type SegmentQueryContext struct {
 	radius     float64
 	filter     ShapeFilter
 	f          SpaceSegmentQueryFunc
+	hits       []SegmentQueryInfo
 }
 
 // query calls f for the shapes of an index that the segment may hit.
@@ -1067,7 +1068,7 @@ func segmentQuery(obj interface{}, shape *Shape, data interface{}) float64 {
 	var info SegmentQueryInfo
 
 	if !shape.Filter.Reject(context.filter) && shape.SegmentQuery(context.start, context.end, context.radius, &info) {
-		context.f(shape, info.Point, info.Normal, info.Alpha, data)
+		context.hits = append(context.hits, info)
 	}
 
 	return 1
@@ -1089,18 +1090,23 @@ func queryFirst(obj interface{}, shape *Shape, data interface{}) float64 {
 }
 
 func (space *Space) SegmentQuery(start, end Vector, radius float64, filter ShapeFilter, f SpaceSegmentQueryFunc, data interface{}) {
-	context := SegmentQueryContext{start, end, radius, filter, f}
+	context := SegmentQueryContext{start, end, radius, filter, f, nil}
 	space.Lock()
 
 	context.query(space.staticShapes, 1, segmentQuery, data)
 	context.query(space.dynamicShapes, 1, segmentQuery, data)
 
+	// The callback may make other queries, so the indexes must not be in use any more.
+	for _, hit := range context.hits {
+		f(hit.Shape, hit.Point, hit.Normal, hit.Alpha, data)
+	}
+
 	space.Unlock(true)
 }
 
 func (space *Space) SegmentQueryFirst(start, end Vector, radius float64, filter ShapeFilter) SegmentQueryInfo {
 	info := SegmentQueryInfo{nil, end, Vector{}, 1}
-	context := &SegmentQueryContext{start, end, radius, filter, nil}
+	context := &SegmentQueryContext{start, end, radius, filter, nil, nil}
 	context.query(space.staticShapes, 1, queryFirst, &info)
 	context.query(space.dynamicShapes, info.Alpha, queryFirst, &info)
 	return info
diff --git a/spacehash.go b/spacehash.go
index d37757a..089c6c6 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -138,7 +138,8 @@ func (hash *SpaceHash) removeOrphanedHandles(binPtr **SpaceHashBin) {
 	}
 }
 
-func (hash *SpaceHash) queryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexQuery, data interface{}) {
+// queryHelper appends the objects of a bin that were not found before in the same query.
+func (hash *SpaceHash) queryHelper(binPtr **SpaceHashBin, obj interface{}, found []*Shape) []*Shape {
 restart:
 	for bin := *binPtr; bin != nil; bin = bin.next {
 		hand := bin.handle
@@ -147,13 +148,14 @@ restart:
 		if hand.stamp == hash.stamp || obj == other {
 			continue
 		} else if other != nil {
-			f(obj, other, 0, data)
+			found = append(found, other)
 			hand.stamp = hash.stamp
 		} else {
 			hash.removeOrphanedHandles(binPtr)
 			goto restart
 		}
 	}
+	return found
 }
 
 func floor(f float64) int {
@@ -167,8 +169,13 @@ func floor(f float64) int {
 func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 	hash.clearTable()
 
+	type pair struct{ obj, other *Shape }
+	var pairs []pair
+	var found []*Shape
+
 	hash.handleSet.Each(func(hand *Handle) {
 		// queryRehash_helper
+		found = found[:0]
 
 		bb := hash.SpatialIndex.bbfunc(hand.obj)
 
@@ -187,7 +194,7 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 				}
 
 				hand.retain()
-				hash.queryHelper(&bin, hand.obj, f, data)
+				found = hash.queryHelper(&bin, hand.obj, found)
 
 				newBin := hash.getEmptyBin()
 				newBin.handle = hand
@@ -196,9 +203,17 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 			}
 		}
 
+		for _, other := range found {
+			pairs = append(pairs, pair{hand.obj, other})
+		}
 		hash.stamp++
 	})
 
+	// The callback may query the hash, which has to be complete and must not be in use by then.
+	for _, p := range pairs {
+		f(p.obj, p.other, 0, data)
+	}
+
 	hash.CollideStatic(hash.staticIndex, f, data)
 }
 
@@ -210,14 +225,20 @@ func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data i
 	t := floor(bb.T / dim)
 
 	n := hash.numCells
+	var found []*Shape
 
 	for i := l; i <= r; i++ {
 		for j := b; j <= t; j++ {
-			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)
+			found = hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, found)
 		}
 	}
 
 	hash.stamp++
+
+	// The callback may query the hash too.
+	for _, other := range found {
+		f(obj, other, 0, data)
+	}
 }
 
 func (hash *SpaceHash) segmentQueryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexSegmentQuery, data interface{}) float64 {
-- 
2.43.0


From d1f0407ed9d48a7831a6adedfde2d6da8f29e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:20 +0000
Subject: [PATCH 35/35] fix: pairs ignored by post-solve callbacks or between
 steps were ignored for no step

---
 space.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index e11fe58..699a368 100644
--- a/space.go
+++ b/space.go
@@ -694,7 +694,10 @@ func (space *Space) Step(dt float64) {
 
 	// reset and empty the arbiter lists
 	for _, arb := range space.arbiters {
-		arb.state = CP_ARBITER_STATE_NORMAL
+		// Arbiters that were ignored after they were solved stay ignored until their shapes separate.
+		if arb.state != CP_ARBITER_STATE_IGNORE {
+			arb.state = CP_ARBITER_STATE_NORMAL
+		}
 
 		// If both bodies are awake, unthread the arbiter from the contact graph.
 		if !arb.body_a.IsSleeping() && !arb.body_b.IsSleeping() {
-- 
2.43.0

