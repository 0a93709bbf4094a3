From 1019860e060a7dfe20631477bd014303fa56c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 01/47] fix: SetGravity wakes every sleeping component

Activate() removes the component from the list being ranged over, so with
several sleeping components some of them were skipped and kept floating.
---
 space.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/space.go b/space.go
index a3a1bfe..2d5fcf6 100644
--- a/space.go
+++ b/space.go
@@ -117,8 +117,9 @@ func (space *Space) SetGravity(gravity Vector) {
 	space.gravity = gravity
 
 	// Wake up all of the bodies since the gravity changed.
-	for _, component := range space.sleepingComponents {
-		component.Activate()
+	// Activating a component removes it from the list.
+	for len(space.sleepingComponents) > 0 {
+		space.sleepingComponents[0].Activate()
 	}
 }
 
-- 
2.43.0


From 464870252aca6c6934abf71472e77b6971bc1be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 02/47] fix: SetType wakes sleeping bodies before changing the
 type

Activate() ignores bodies which are not dynamic, so turning a sleeping body
static or kinematic left it in the sleeping component and removed its shapes
from the wrong spatial index (nil dereference). Bodies sleeping on a body
that stops being static have to wake up, too.
---
 body.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/body.go b/body.go
index 308e868..0e8ad0e 100644
--- a/body.go
+++ b/body.go
@@ -150,6 +150,17 @@ func (body *Body) SetType(newType int) {
 		return
 	}
 
+	if body.space != nil {
+		assert(body.space.locked == 0, "Space is locked")
+
+		// Wake up the body, or whatever sleeps on it, while it still has its old type.
+		if oldType == BODY_STATIC {
+			body.ActivateStatic(nil)
+		} else {
+			body.Activate()
+		}
+	}
+
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
 	} else {
@@ -177,11 +188,6 @@ func (body *Body) SetType(newType int) {
 	if body.space == nil {
 		return
 	}
-	assert(body.space.locked == 0, "Space is locked")
-
-	if oldType != BODY_STATIC {
-		body.Activate()
-	}
 
 	if oldType == BODY_STATIC {
 		for i, b := range body.space.staticBodies {
-- 
2.43.0


From 647f32e443ebfb30337d8c3bac070d6693961da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 03/47] fix: pass the handler's UserData to PostSolveFunc

It was passed the handler itself.
---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 2d5fcf6..c082c77 100644
--- a/space.go
+++ b/space.go
@@ -776,7 +776,7 @@ func (space *Space) Step(dt float64) {
 
 		// run the post-solve callbacks
 		for _, arb := range space.arbiters {
-			arb.handler.PostSolveFunc(arb, space, arb.handler)
+			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)
 		}
 	}
 	space.Unlock(true)
-- 
2.43.0


From 642608f3690589dce36aedb3a1d3a2e3d44cc14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 04/47] fix: call both wildcard begin and pre-solve handlers

The second wildcard handler missed its begin (and pre-solve) callback when the
first one rejected the collision, but still got the separate callback.
---
 arbiter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 3bca89c..8adcd06 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -386,11 +386,15 @@ func DoNothing(_ *Arbiter, _ *Space, _ interface{}) {
 }
 
 func DefaultBegin(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardBeginA(space) && arb.CallWildcardBeginB(space)
+	retA := arb.CallWildcardBeginA(space)
+	retB := arb.CallWildcardBeginB(space)
+	return retA && retB
 }
 
 func DefaultPreSolve(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)
+	retA := arb.CallWildcardPreSolveA(space)
+	retB := arb.CallWildcardPreSolveB(space)
+	return retA && retB
 }
 
 func DefaultPostSolve(arb *Arbiter, space *Space, _ interface{}) {
-- 
2.43.0


From ed26a8086ac9dec38356007b69edcb199f73aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 05/47] fix: run post-step callbacks added by post-step
 callbacks

They were accepted and then dropped when the list was truncated.
---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index c082c77..13670dd 100644
--- a/space.go
+++ b/space.go
@@ -804,7 +804,9 @@ func (space *Space) Unlock(runPostStep bool) {
 	if runPostStep && !space.skipPostStep {
 		space.skipPostStep = true
 
-		for _, callback := range space.postStepCallbacks {
+		// Callbacks may add more callbacks, those have to run too.
+		for i := 0; i < len(space.postStepCallbacks); i++ {
+			callback := space.postStepCallbacks[i]
 			f := callback.callback
 
 			// Mark the func as NULL in case calling it calls cpSpaceRunPostStepCallbacks() again.
-- 
2.43.0


From d1a93ee5ee14b71ad2049311473d95adc1201454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 06/47] fix: waking a body in a collision callback corrupts its
 arbiter list

The arbiters restored when the space unlocks are still threaded on their
bodies. Pushing them again made the list cyclic and the step never returned.
---
 space.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/space.go b/space.go
index 13670dd..6b52d07 100644
--- a/space.go
+++ b/space.go
@@ -580,6 +580,8 @@ func (space *Space) ProcessComponents(dt float64) {
 			}
 		}
 
+		// Arbiters restored by waking up a body in a collision callback are still threaded.
+		arb.Unthread()
 		a.PushArbiter(arb)
 		b.PushArbiter(arb)
 	}
-- 
2.43.0


From bb590849552ece1593cfc7867eda8d6bc819e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 07/47] fix: ShapeQuery forgets collisions found before a
 sensor

The result only depended on the last shape visited.
---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 6b52d07..f2e3ea9 100644
--- a/space.go
+++ b/space.go
@@ -1119,7 +1119,9 @@ func (space *Space) ShapeQuery(shape *Shape, callback func(shape *Shape, points
 			if callback != nil {
 				callback(b, &contactPointSet)
 			}
-			anyCollision = !(a.sensor || b.sensor)
+			if !(a.sensor || b.sensor) {
+				anyCollision = true
+			}
 		}
 
 		return collisionId
-- 
2.43.0


From 99fe91645720e79dbefbcdf165815ffcb7211f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 08/47] fix: ShapesCollide distance has the wrong sign for
 swapped shapes

When Collide() swaps the shapes the normal is flipped but p1 and p2 are not.
---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 51f7123..1ddaaed 100644
--- a/shape.go
+++ b/shape.go
@@ -264,7 +264,7 @@ func ShapesCollide(a, b *Shape) ContactPointSet {
 			set.Points[i].PointA = p1
 			set.Points[i].PointB = p2
 		}
-		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)
+		set.Points[i].Distance = p2.Sub(p1).Dot(info.n)
 	}
 
 	return set
-- 
2.43.0


From 09bb79d0239492c74d3613f68f05fe268737d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 09/47] fix: segment query past the end of a rounded segment
 hits the wrong side

A query starting between the planes of the two faces, beyond an end cap,
reported the point where it leaves through a face, or nothing.
---
 segment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index 5f0fe87..dccb476 100644
--- a/segment.go
+++ b/segment.go
@@ -125,7 +125,10 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 	segB := seg.tb.Add(segOffset)
 	delta := b.Sub(a)
 
-	if delta.Cross(segA)*delta.Cross(segB) <= 0 {
+	// A query starting between the two faces can only enter through the end caps.
+	outside := d >= r || -d >= r
+
+	if outside && delta.Cross(segA)*delta.Cross(segB) <= 0 {
 		dOffset := d
 		if d > 0 {
 			dOffset -= r
-- 
2.43.0


From fb57aa8e153ac3257d7b4a65d2202cd39c6ae5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 10/47] fix: SetEndpoints flips the segment normal

NewSegment() uses ReversePerp(), and so do the contact edges.
---
 segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index dccb476..6af24f9 100644
--- a/segment.go
+++ b/segment.go
@@ -62,7 +62,7 @@ func (seg *Segment) TransformB() Vector {
 func (seg *Segment) SetEndpoints(a, b Vector) {
 	seg.a = a
 	seg.b = b
-	seg.n = b.Sub(a).Normalize().Perp()
+	seg.n = b.Sub(a).Normalize().ReversePerp()
 
 	mass := seg.massInfo.m
 	seg.massInfo = NewSegmentMassInfo(seg.massInfo.m, seg.a, seg.b, seg.r)
-- 
2.43.0


From 6d455cb52b40eab2f0212d560446defa1e1ceadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 11/47] fix: EachConstraint and DrawSpace miss the constraints
 of sleeping bodies

Deactivate() takes them off the list of the space.
---
 draw.go  |  4 ++--
 space.go | 23 ++++++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/draw.go b/draw.go
index 73973bd..b12534d 100644
--- a/draw.go
+++ b/draw.go
@@ -164,9 +164,9 @@ func DrawSpace(space *Space, options Drawer) {
 		DrawShape(obj, options)
 	})
 
-	for _, constraint := range space.constraints {
+	space.eachConstraint(func(constraint *Constraint) {
 		DrawConstraint(constraint, options)
-	}
+	})
 
 	drawSeg := options.DrawSegment
 	data := options.Data()
diff --git a/space.go b/space.go
index f2e3ea9..b120d79 100644
--- a/space.go
+++ b/space.go
@@ -937,13 +937,30 @@ func (space *Space) EachShape(f func(*Shape)) {
 func (space *Space) EachConstraint(f func(*Constraint)) {
 	space.Lock()
 
-	for i := 0; i < len(space.constraints); i++ {
-		f(space.constraints[i])
-	}
+	space.eachConstraint(f)
 
 	space.Unlock(true)
 }
 
+func (space *Space) eachConstraint(f func(*Constraint)) {
+	constraints := append([]*Constraint{}, space.constraints...)
+
+	// The constraints of sleeping bodies are not on the space's list.
+	for _, root := range space.sleepingComponents {
+		for body := root; body != nil; body = body.sleepingNext {
+			for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
+				if body == constraint.a || constraint.a.GetType() == BODY_STATIC {
+					constraints = append(constraints, constraint)
+				}
+			}
+		}
+	}
+
+	for _, constraint := range constraints {
+		f(constraint)
+	}
+}
+
 type SpacePointQueryFunc func(*Shape, Vector, float64, Vector, interface{})
 
 type PointQueryContext struct {
-- 
2.43.0


From d4180097ad49fcf0431fb766d58f4e55cb1b7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 12/47] fix: EachBody skips and repeats bodies when the
 callback wakes them

Waking a component while iterating over it cleared the links being followed
and shifted the list of components.
---
 space.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/space.go b/space.go
index b120d79..f10c81c 100644
--- a/space.go
+++ b/space.go
@@ -910,15 +910,17 @@ func (space *Space) EachBody(f func(body *Body)) {
 		f(body)
 	}
 
+	// Waking up a body takes its component apart, so collect the sleeping bodies first.
+	var sleeping []*Body
 	for _, root := range space.sleepingComponents {
-		body := root
-
-		for body != nil {
-			next := body.sleepingNext
-			f(body)
-			body = next
+		for body := root; body != nil; body = body.sleepingNext {
+			sleeping = append(sleeping, body)
 		}
 	}
+
+	for _, body := range sleeping {
+		f(body)
+	}
 }
 
 func (space *Space) EachShape(f func(*Shape)) {
-- 
2.43.0


From c9a8e38b1a172844aa5fc87adf037b6939f60d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 13/47] fix: Body.EachShape skips shapes when the callback
 removes them

RemoveShape() moves the last shape into the place of the removed one.
---
 body.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/body.go b/body.go
index 0e8ad0e..4fb3e83 100644
--- a/body.go
+++ b/body.go
@@ -599,8 +599,10 @@ func (body *Body) EachArbiter(f func(*Arbiter)) {
 
 // EachShape calls f once for each shape attached to this body
 func (body *Body) EachShape(f func(*Shape)) {
-	for i := 0; i < len(body.shapeList); i++ {
-		f(body.shapeList[i])
+	// f may remove the shape from the body.
+	shapes := append([]*Shape{}, body.shapeList...)
+	for _, shape := range shapes {
+		f(shape)
 	}
 }
 
-- 
2.43.0


From 2909756d11c57e99edf4b2eb5371ddeb735d2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 14/47] fix: post-step callbacks run while a shape is half
 removed

A separate callback that schedules the removal of the shape being removed
got it removed twice (nil dereference in the spatial index).
---
 space.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/space.go b/space.go
index f10c81c..4302ed5 100644
--- a/space.go
+++ b/space.go
@@ -352,6 +352,8 @@ func (space *Space) RemoveShape(shape *Shape) {
 		body.Activate()
 	}
 
+	// Separate callbacks may add post-step callbacks, don't run them before the shape is gone.
+	space.Lock()
 	body.RemoveShape(shape)
 	space.FilterArbiters(body, shape)
 	if isStatic {
@@ -361,6 +363,7 @@ func (space *Space) RemoveShape(shape *Shape) {
 	}
 	shape.space = nil
 	shape.hashid = 0
+	space.Unlock(true)
 }
 
 func (space *Space) RemoveBody(body *Body) {
-- 
2.43.0


From ee978f567b164841d80a4976f2a828dd184afb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 15/47] fix: point query at the center of a circle or on the
 outline of a poly

The point found was NaN.
---
 circle.go | 2 +-
 poly.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circle.go b/circle.go
index 11fce2d..7f8daf6 100644
--- a/circle.go
+++ b/circle.go
@@ -55,7 +55,6 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	r := circle.r
 
 	info.Shape = circle.Shape
-	info.Point = circle.tc.Add(delta.Mult(r / d))
 	info.Distance = d - r
 
 	if d > MAGIC_EPSILON {
@@ -63,6 +62,7 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	} else {
 		info.Gradient = Vector{0, 1}
 	}
+	info.Point = circle.tc.Add(info.Gradient.Mult(r))
 }
 
 func (circle *Circle) SegmentQuery(a, b Vector, radius float64, info *SegmentQueryInfo) {
diff --git a/poly.go b/poly.go
index fbc370b..cc8da4e 100644
--- a/poly.go
+++ b/poly.go
@@ -101,7 +101,6 @@ func (poly *PolyShape) PointQuery(p Vector, info *PointQueryInfo) {
 	g := p.Sub(closestPoint).Mult(1.0 / dist)
 
 	info.Shape = poly.Shape
-	info.Point = closestPoint.Add(g.Mult(r))
 	info.Distance = dist - r
 
 	if minDist > MAGIC_EPSILON {
@@ -109,6 +108,7 @@ func (poly *PolyShape) PointQuery(p Vector, info *PointQueryInfo) {
 	} else {
 		info.Gradient = closestNormal
 	}
+	info.Point = closestPoint.Add(info.Gradient.Mult(r))
 }
 
 func (poly *PolyShape) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 1b3fe366e71e2739ad3e3f64e59bebd461c2e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 16/47] fix: point query on the core of a rotated segment

The gradient was the untransformed normal, and the point was not on the surface.
---
 segment.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/segment.go b/segment.go
index 6af24f9..c85b839 100644
--- a/segment.go
+++ b/segment.go
@@ -92,19 +92,15 @@ func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	g := delta.Mult(1 / d)
 
 	info.Shape = seg.Shape
-	if d != 0 {
-		info.Point = closest.Add(g.Mult(r))
-	} else {
-		info.Point = closest
-	}
 	info.Distance = d - r
 
 	// Use the segment's normal if the distance is very small.
 	if d > MAGIC_EPSILON {
 		info.Gradient = g
 	} else {
-		info.Gradient = seg.n
+		info.Gradient = seg.tn
 	}
+	info.Point = closest.Add(info.Gradient.Mult(r))
 }
 
 func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 83e4caa59361d90b2c48f687a0b2d90dff7b3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 17/47] fix: segment queries with a radius miss shapes next to
 the line

The spatial indexes only look for bounding boxes crossed by the center line.
---
 space.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/space.go b/space.go
index 4302ed5..a049713 100644
--- a/space.go
+++ b/space.go
@@ -1071,17 +1071,34 @@ func (space *Space) SegmentQuery(start, end Vector, radius float64, filter Shape
 	context := SegmentQueryContext{start, end, radius, filter, f}
 	space.Lock()
 
-	space.staticShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
-	space.dynamicShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
+	space.staticShapes.segmentQuery(&context, 1, segmentQuery, data)
+	space.dynamicShapes.segmentQuery(&context, 1, segmentQuery, data)
 
 	space.Unlock(true)
 }
 
+// segmentQuery finds the shapes which may be hit by a segment that can be thicker than a line.
+func (index *SpatialIndex) segmentQuery(context *SegmentQueryContext, t_exit float64, f SpatialIndexSegmentQuery, data interface{}) {
+	start, end, radius := context.start, context.end, context.radius
+
+	if radius <= 0 {
+		index.class.SegmentQuery(context, start, end, t_exit, f, data)
+		return
+	}
+
+	// The indexes trace a line, which misses shapes the line passes within the radius.
+	bb := NewBBForCircle(start, radius).Merge(NewBBForCircle(end, radius))
+	index.class.Query(context, bb, func(obj interface{}, shape *Shape, collisionId uint32, data interface{}) uint32 {
+		f(obj, shape, data)
+		return collisionId
+	}, data)
+}
+
 func (space *Space) SegmentQueryFirst(start, end Vector, radius float64, filter ShapeFilter) SegmentQueryInfo {
 	info := SegmentQueryInfo{nil, end, Vector{}, 1}
 	context := &SegmentQueryContext{start, end, radius, filter, nil}
-	space.staticShapes.class.SegmentQuery(context, start, end, 1, queryFirst, &info)
-	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)
+	space.staticShapes.segmentQuery(context, 1, queryFirst, &info)
+	space.dynamicShapes.segmentQuery(context, info.Alpha, queryFirst, &info)
 	return info
 }
 
-- 
2.43.0


From 3ebc19ffd898c790a33d36544746c56e73da9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 18/47] fix: order of separate callbacks depends on memory
 addresses

Hash cached arbiters by the ids of their shapes instead of their addresses, so
that the same simulation makes the same callbacks in the same order each time.
---
 space.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/space.go b/space.go
index a049713..b2b8446 100644
--- a/space.go
+++ b/space.go
@@ -3,7 +3,6 @@ package cp
 import (
 	"math"
 	"sync"
-	"unsafe"
 )
 
 const MAX_CONTACTS_PER_ARBITER = 2
@@ -184,7 +183,7 @@ func (space *Space) Activate(body *Body) {
 			a := arbiter.a
 			b := arbiter.b
 			shapePair := ShapePair{a, b}
-			arbHashId := HashPair(HashValue(unsafe.Pointer(a)), HashValue(unsafe.Pointer(b)))
+			arbHashId := HashPair(a.hashid, b.hashid)
 			space.cachedArbiters.Insert(arbHashId, shapePair, func(_ ShapePair) *Arbiter {
 				return arbiter
 			})
@@ -443,7 +442,7 @@ func SpaceCollideShapesFunc(obj interface{}, b *Shape, collisionId uint32, vspac
 	// Get an arbiter from space->arbiterSet for the two shapes.
 	// This is where the persistent contact magic comes from.
 	shapePair := ShapePair{info.a, info.b}
-	arbHashId := HashPair(HashValue(unsafe.Pointer(info.a)), HashValue(unsafe.Pointer(info.b)))
+	arbHashId := HashPair(info.a.hashid, info.b.hashid)
 	arb := space.cachedArbiters.Insert(arbHashId, shapePair, func(shapes ShapePair) *Arbiter {
 		arb := space.pooledArbiters.Get().(*Arbiter)
 		arb.Init(shapes.a, shapes.b)
@@ -832,7 +831,7 @@ func (space *Space) UncacheArbiter(arb *Arbiter) {
 	a := arb.a
 	b := arb.b
 	shapePair := ShapePair{a, b}
-	arbHashId := HashPair(HashValue(unsafe.Pointer(a)), HashValue(unsafe.Pointer(b)))
+	arbHashId := HashPair(a.hashid, b.hashid)
 	space.cachedArbiters.Remove(arbHashId, shapePair)
 	for i, a := range space.arbiters {
 		if a == arb {
-- 
2.43.0


From f051b5668c19a3d4ebadaa425f13bc3d75a727ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 19/47] fix: errant separate and begin callbacks when a body is
 woken by a step

Sensor and rejected collisions of sleeping bodies are not on the list of
arbiters restored by Activate(). When the bodies were woken up during a step,
after its collision phase, they looked separated and began again in the next.
---
 body.go            | 3 +++
 hashset_arbiter.go | 5 ++++-
 space.go           | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/body.go b/body.go
index 4fb3e83..5fc2a55 100644
--- a/body.go
+++ b/body.go
@@ -62,6 +62,9 @@ type Body struct {
 	sleepingRoot     *Body
 	sleepingNext     *Body
 	sleepingIdleTime float64
+
+	// space.stamp when the body was last woken up
+	wakeStamp uint
 }
 
 // String returns body id as string
diff --git a/hashset_arbiter.go b/hashset_arbiter.go
index f2bce0d..60d8c4c 100644
--- a/hashset_arbiter.go
+++ b/hashset_arbiter.go
@@ -9,7 +9,10 @@ func SpaceArbiterSetFilter(arb *Arbiter, space *Space) bool {
 	a := arb.body_a
 	b := arb.body_b
 
-	if (a.GetType() == BODY_STATIC || a.IsSleeping()) && (b.GetType() == BODY_STATIC || b.IsSleeping()) {
+	// The same goes for objects which were woken up too late in this step to be checked for collisions.
+	aSlept := a.GetType() == BODY_STATIC || a.IsSleeping() || a.wakeStamp == space.stamp
+	bSlept := b.GetType() == BODY_STATIC || b.IsSleeping() || b.wakeStamp == space.stamp
+	if aSlept && bSlept {
 		return true
 	}
 
diff --git a/space.go b/space.go
index b2b8446..a59e2ce 100644
--- a/space.go
+++ b/space.go
@@ -157,6 +157,7 @@ func (space *Space) Activate(body *Body) {
 	assert(body.sleepingRoot == nil && body.sleepingNext == nil, "Activating body non-NULL node pointers.")
 
 	space.dynamicBodies = append(space.dynamicBodies, body)
+	body.wakeStamp = space.stamp
 
 	for _, shape := range body.shapeList {
 		space.staticShapes.class.Remove(shape, shape.hashid)
@@ -292,6 +293,7 @@ func (space *Space) AddBody(body *Body) *Body {
 	} else {
 		space.dynamicBodies = append(space.dynamicBodies, body)
 	}
+	body.wakeStamp = 0
 	body.space = space
 	return body
 }
-- 
2.43.0


From 1ae13a18a2f308a9e7fe9fb86091cb8bb649a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 20/47] fix: SpaceHash queries made by callbacks miss or repeat
 shapes

A query started by the callback of another one shared its stamp, so shapes
visited by the outer query were missing from the inner one and repeated
afterwards. Queries made by collision callbacks also missed the shapes which
had not been rehashed yet.
---
 spacehash.go | 88 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 65 insertions(+), 23 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index bd2f098..440f9c3 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -18,6 +18,8 @@ type SpaceHash struct {
 	pooledHandles sync.Pool
 
 	stamp uint
+	// number of queries in progress
+	queries int
 }
 
 func NewSpaceHash(celldim float64, num int, bbfunc SpatialIndexBB, staticIndex *SpatialIndex) *SpatialIndex {
@@ -138,17 +140,49 @@ func (hash *SpaceHash) removeOrphanedHandles(binPtr **SpaceHashBin) {
 	}
 }
 
-func (hash *SpaceHash) queryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexQuery, data interface{}) {
+// beginQuery returns nil for a query that can use the stamps of the handles to visit each of them once.
+// The callback of a query may start another one, those have to keep a set of the handles they visited.
+func (hash *SpaceHash) beginQuery() map[*Handle]bool {
+	hash.queries++
+	if hash.queries > 1 {
+		return map[*Handle]bool{}
+	}
+	return nil
+}
+
+func (hash *SpaceHash) endQuery() {
+	hash.queries--
+	if hash.queries == 0 {
+		hash.stamp++
+	}
+}
+
+func (hash *SpaceHash) isVisited(hand *Handle, visited map[*Handle]bool) bool {
+	if visited != nil {
+		return visited[hand]
+	}
+	return hand.stamp == hash.stamp
+}
+
+func (hash *SpaceHash) setVisited(hand *Handle, visited map[*Handle]bool) {
+	if visited != nil {
+		visited[hand] = true
+	} else {
+		hand.stamp = hash.stamp
+	}
+}
+
+func (hash *SpaceHash) queryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexQuery, data interface{}, visited map[*Handle]bool) {
 restart:
 	for bin := *binPtr; bin != nil; bin = bin.next {
 		hand := bin.handle
 		other := hand.obj
 
-		if hand.stamp == hash.stamp || obj == other {
+		if hash.isVisited(hand, visited) || obj == other {
 			continue
 		} else if other != nil {
 			f(obj, other, 0, data)
-			hand.stamp = hash.stamp
+			hash.setVisited(hand, visited)
 		} else {
 			hash.removeOrphanedHandles(binPtr)
 			goto restart
@@ -167,6 +201,13 @@ func floor(f float64) int {
 func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 	hash.clearTable()
 
+	// Rehash everything before calling f, it may query the hash.
+	hash.handleSet.Each(func(hand *Handle) {
+		hand.reindexed = false
+		hash.hashHandle(hand, hash.SpatialIndex.bbfunc(hand.obj))
+	})
+
+	hash.queries++
 	hash.handleSet.Each(func(hand *Handle) {
 		// queryRehash_helper
 
@@ -180,24 +221,22 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 		for i := l; i <= r; i++ {
 			for j := b; j <= t; j++ {
 				idx := hashFunc(HashValue(i), HashValue(j), HashValue(hash.numCells))
-				bin := hash.table[idx]
 
-				if bin.containsHandle(hand) {
-					continue
+				// Find each pair once, when it's the turn of the second one.
+				for bin := hash.table[idx]; bin != nil; bin = bin.next {
+					other := bin.handle
+					if other.reindexed && other.stamp != hash.stamp {
+						f(hand.obj, other.obj, 0, data)
+						other.stamp = hash.stamp
+					}
 				}
-
-				hand.retain()
-				hash.queryHelper(&bin, hand.obj, f, data)
-
-				newBin := hash.getEmptyBin()
-				newBin.handle = hand
-				newBin.next = bin
-				hash.table[idx] = newBin
 			}
 		}
 
+		hand.reindexed = true
 		hash.stamp++
 	})
+	hash.queries--
 
 	hash.CollideStatic(hash.staticIndex, f, data)
 }
@@ -211,16 +250,16 @@ func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data i
 
 	n := hash.numCells
 
+	visited := hash.beginQuery()
 	for i := l; i <= r; i++ {
 		for j := b; j <= t; j++ {
-			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)
+			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data, visited)
 		}
 	}
-
-	hash.stamp++
+	hash.endQuery()
 }
 
-func (hash *SpaceHash) segmentQueryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexSegmentQuery, data interface{}) float64 {
+func (hash *SpaceHash) segmentQueryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexSegmentQuery, data interface{}, visited map[*Handle]bool) float64 {
 	t := 1.0
 
 restart:
@@ -228,11 +267,11 @@ restart:
 		hand := bin.handle
 		other := hand.obj
 
-		if hand.stamp == hash.stamp {
+		if hash.isVisited(hand, visited) {
 			continue
 		} else if other != nil {
 			t = math.Min(t, f(obj, other, data))
-			hand.stamp = hash.stamp
+			hash.setVisited(hand, visited)
 		} else {
 			hash.removeOrphanedHandles(binPtr)
 			goto restart
@@ -298,9 +337,10 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 		nextV = dtdy
 	}
 
+	visited := hash.beginQuery()
 	for t < t_exit {
 		idx := hashFunc(HashValue(cellX), HashValue(cellY), HashValue(hash.numCells))
-		t_exit = math.Min(t_exit, hash.segmentQueryHelper(&hash.table[idx], obj, f, data))
+		t_exit = math.Min(t_exit, hash.segmentQueryHelper(&hash.table[idx], obj, f, data, visited))
 
 		if nextV < nextH {
 			cellY += yInc
@@ -312,8 +352,7 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 			nextH += dtdx
 		}
 	}
-
-	hash.stamp++
+	hash.endQuery()
 }
 
 type SpaceHashBin struct {
@@ -339,12 +378,15 @@ type Handle struct {
 	obj     *Shape
 	retains int
 	stamp   uint
+
+	reindexed bool
 }
 
 func (hand *Handle) Init(obj *Shape) {
 	hand.obj = obj
 	hand.retains = 0
 	hand.stamp = 0
+	hand.reindexed = false
 }
 
 func (hand *Handle) retain() {
-- 
2.43.0


From 4657beb33805516dab3e421d7992d3abe2551d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 21/47] fix: contacts that begin again can pull

Shapes touching again within collisionPersistence steps get the impulses of
the earlier contact as the starting value of the solver, without applying
them. The solver could take back an impulse that was never applied, pulling
the shapes together, and TotalImpulse() reported it.
---
 arbiter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arbiter.go b/arbiter.go
index 8adcd06..59d3b46 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -112,6 +112,11 @@ func (arbiter *Arbiter) ThreadForBody(body *Body) *ArbiterThread {
 
 func (arbiter *Arbiter) ApplyCachedImpulse(dt_coef float64) {
 	if arbiter.IsFirstContact() {
+		// Impulses kept from an earlier contact are not applied, so don't let the solver take them back.
+		for i := 0; i < arbiter.count; i++ {
+			arbiter.contacts[i].jnAcc = 0
+			arbiter.contacts[i].jtAcc = 0
+		}
 		return
 	}
 
-- 
2.43.0


From a0768d0107812566ad9b636cfce5cae6471e7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 22/47] fix: wrong impulses when the time step changes

The impulses of the last step were scaled by dt/prev_dt when applied, but the
accumulated impulses they count as were not. The solver clamped the wrong
total: contacts could pull, and joints exceed their maximum force. The
impulses reported did not match those applied either.
---
 arbiter.go          | 6 ++++--
 gearjoint.go        | 3 ++-
 groovejoint.go      | 3 ++-
 pinjoint.go         | 3 ++-
 pivotjoint.go       | 3 ++-
 ratchetjoint.go     | 3 ++-
 rotarylimitjoint.go | 3 ++-
 simplemotor.go      | 3 ++-
 slidejoint.go       | 3 ++-
 9 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 59d3b46..0af3cf6 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -121,9 +121,11 @@ func (arbiter *Arbiter) ApplyCachedImpulse(dt_coef float64) {
 	}
 
 	for i := 0; i < arbiter.count; i++ {
-		contact := arbiter.contacts[i]
+		contact := &arbiter.contacts[i]
+		contact.jnAcc *= dt_coef
+		contact.jtAcc *= dt_coef
 		j := arbiter.n.Rotate(Vector{contact.jnAcc, contact.jtAcc})
-		apply_impulses(arbiter.body_a, arbiter.body_b, contact.r1, contact.r2, j.Mult(dt_coef))
+		apply_impulses(arbiter.body_a, arbiter.body_b, contact.r1, contact.r2, j)
 	}
 }
 
diff --git a/gearjoint.go b/gearjoint.go
index 6afeeee..9ce2be5 100644
--- a/gearjoint.go
+++ b/gearjoint.go
@@ -40,7 +40,8 @@ func (joint *GearJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc * dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j * a.i_inv * joint.ratio_inv
 	b.w += j * b.i_inv
 }
diff --git a/groovejoint.go b/groovejoint.go
index 2025805..9f9ecf4 100644
--- a/groovejoint.go
+++ b/groovejoint.go
@@ -62,7 +62,8 @@ func (joint *GrooveJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	apply_impulses(a, b, joint.r1, joint.r2, joint.jAcc.Mult(dt_coef))
+	joint.jAcc = joint.jAcc.Mult(dt_coef)
+	apply_impulses(a, b, joint.r1, joint.r2, joint.jAcc)
 }
 
 func (joint *GrooveJoint) grooveConstrain(j Vector, dt float64) Vector {
diff --git a/pinjoint.go b/pinjoint.go
index 40b1437..1bfd766 100644
--- a/pinjoint.go
+++ b/pinjoint.go
@@ -61,7 +61,8 @@ func (joint *PinJoint) PreStep(dt float64) {
 }
 
 func (joint *PinJoint) ApplyCachedImpulse(dt_coef float64) {
-	j := joint.n.Mult(joint.jnAcc*dt_coef)
+	joint.jnAcc *= dt_coef
+	j := joint.n.Mult(joint.jnAcc)
 	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, j)
 }
 
diff --git a/pivotjoint.go b/pivotjoint.go
index d970921..557fadb 100644
--- a/pivotjoint.go
+++ b/pivotjoint.go
@@ -56,7 +56,8 @@ func (joint *PivotJoint) PreStep(dt float64) {
 }
 
 func (joint *PivotJoint) ApplyCachedImpulse(dt_coef float64) {
-	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, joint.jAcc.Mult(dt_coef))
+	joint.jAcc = joint.jAcc.Mult(dt_coef)
+	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, joint.jAcc)
 }
 
 func (joint *PivotJoint) ApplyImpulse(dt float64) {
diff --git a/ratchetjoint.go b/ratchetjoint.go
index 3ab0fc7..1cbf0fe 100644
--- a/ratchetjoint.go
+++ b/ratchetjoint.go
@@ -57,7 +57,8 @@ func (joint *RatchetJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc*dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j*a.i_inv
 	b.w += j*b.i_inv
 }
diff --git a/rotarylimitjoint.go b/rotarylimitjoint.go
index 7825343..dffe90a 100644
--- a/rotarylimitjoint.go
+++ b/rotarylimitjoint.go
@@ -45,7 +45,8 @@ func (joint *RotaryLimitJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc*dt_coef
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j*a.i_inv
 	b.w += j*b.i_inv
 }
diff --git a/simplemotor.go b/simplemotor.go
index 65f3982..39f6294 100644
--- a/simplemotor.go
+++ b/simplemotor.go
@@ -30,7 +30,8 @@ func (motor *SimpleMotor) ApplyCachedImpulse(dt_coef float64) {
 	a := motor.a
 	b := motor.b
 
-	j := motor.jAcc * dt_coef
+	motor.jAcc *= dt_coef
+	j := motor.jAcc
 	a.w -= j * a.i_inv
 	b.w += j * b.i_inv
 }
diff --git a/slidejoint.go b/slidejoint.go
index 8a730c2..de38c2a 100644
--- a/slidejoint.go
+++ b/slidejoint.go
@@ -59,7 +59,8 @@ func (joint *SlideJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.n.Mult(joint.jnAcc * dt_coef)
+	joint.jnAcc *= dt_coef
+	j := joint.n.Mult(joint.jnAcc)
 	apply_impulses(a, b, joint.r1, joint.r2, j)
 }
 
-- 
2.43.0


From fb12d04f1f3e2a12dc77fd8f2e864b284997d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 23/47] fix: DampedRotarySpring reports its damping impulse
 with the wrong sign

It is applied to the bodies in the opposite direction of jSpring.
---
 dampedrotaryspring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dampedrotaryspring.go b/dampedrotaryspring.go
index c29e960..5bb0ff9 100644
--- a/dampedrotaryspring.go
+++ b/dampedrotaryspring.go
@@ -58,7 +58,7 @@ func (spring *DampedRotarySpring) ApplyImpulse(dt float64) {
 	spring.targetWrn = wrn+wDamp
 
 	jDamp := wDamp*spring.iSum
-	spring.jAcc += jDamp
+	spring.jAcc -= jDamp
 
 	a.w += jDamp*a.i_inv
 	b.w -= jDamp*b.i_inv
-- 
2.43.0


From f5b33375598a7a2dcae9e070e9a62b8cdde2fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 24/47] fix: SetSurfaceV wakes up the body

Like the other setters of shapes.
---
 shape.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shape.go b/shape.go
index 1ddaaed..3442852 100644
--- a/shape.go
+++ b/shape.go
@@ -146,6 +146,7 @@ func (s *Shape) SetFriction(u float64) {
 }
 
 func (s *Shape) SetSurfaceV(surfaceV Vector) {
+	s.body.Activate()
 	s.surfaceV = surfaceV
 }
 
-- 
2.43.0


From 95889a6fecfb018d9de481f0130230d93070c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 25/47] fix: contact point on a rounded polygon touched by a
 circle was on the wrong side of its edge

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 58f03a1..87c078d 100644
--- a/collision.go
+++ b/collision.go
@@ -170,7 +170,7 @@ func CircleToPoly(info *CollisionInfo) {
 
 	if points.d <= circle.r+poly.r {
 		info.n = points.n
-		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(poly.r)), 0)
+		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)
 	}
 }
 
-- 
2.43.0


From 6286cff1cae1dcc606bf739bf138e7784e5f6acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 26/47] fix: a body made static or kinematic kept the position
 correction of its last contacts

---
 body.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/body.go b/body.go
index 5fc2a55..ad33e0f 100644
--- a/body.go
+++ b/body.go
@@ -185,6 +185,8 @@ func (body *Body) SetType(newType int) {
 
 		body.v = Vector{}
 		body.w = 0
+		body.v_bias = Vector{}
+		body.w_bias = 0
 	}
 
 	// If the body is added to a space already, we'll need to update some space data structures.
-- 
2.43.0


From bdb1f861ebc0ddad846a2cd3cd2ff633c02fb035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 27/47] fix: wrong contact normal when two shapes touch exactly
 at a vertex

---
 collision.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collision.go b/collision.go
index 87c078d..c90a201 100644
--- a/collision.go
+++ b/collision.go
@@ -392,6 +392,11 @@ func GJKRecurse(ctx SupportContext, v0, v1 MinkowskiPoint, iteration int) Closes
 		n = v1.ab.Sub(v0.ab).Perp()
 	} else {
 		n = v0.ab.LerpT(v1.ab, t).Neg()
+		if n == (Vector{}) {
+			// The shapes touch exactly at a vertex, so there is no axis to search along.
+			// Use EPA to find an edge at that vertex.
+			return EPARecurse(ctx, 2, []MinkowskiPoint{v0, v1}, 1)
+		}
 	}
 	p := ctx.Support(n)
 
-- 
2.43.0


From 2bc43bf420521c24b1f1e4fa24a935616a18e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 28/47] fix: EachBody and EachConstraint miss bodies woken up
 while the space is locked

---
 space.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/space.go b/space.go
index a59e2ce..fd92544 100644
--- a/space.go
+++ b/space.go
@@ -915,7 +915,8 @@ func (space *Space) EachBody(f func(body *Body)) {
 	}
 
 	// Waking up a body takes its component apart, so collect the sleeping bodies first.
-	var sleeping []*Body
+	// Bodies woken up since the space was locked are in neither list yet.
+	sleeping := append([]*Body{}, space.rousedBodies...)
 	for _, root := range space.sleepingComponents {
 		for body := root; body != nil; body = body.sleepingNext {
 			sleeping = append(sleeping, body)
@@ -951,13 +952,18 @@ func (space *Space) EachConstraint(f func(*Constraint)) {
 func (space *Space) eachConstraint(f func(*Constraint)) {
 	constraints := append([]*Constraint{}, space.constraints...)
 
-	// The constraints of sleeping bodies are not on the space's list.
+	// The constraints of sleeping bodies are not on the space's list,
+	// nor are those of bodies woken up since the space was locked.
+	bodies := append([]*Body{}, space.rousedBodies...)
 	for _, root := range space.sleepingComponents {
 		for body := root; body != nil; body = body.sleepingNext {
-			for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
-				if body == constraint.a || constraint.a.GetType() == BODY_STATIC {
-					constraints = append(constraints, constraint)
-				}
+			bodies = append(bodies, body)
+		}
+	}
+	for _, body := range bodies {
+		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
+			if body == constraint.a || constraint.a.GetType() == BODY_STATIC {
+				constraints = append(constraints, constraint)
 			}
 		}
 	}
-- 
2.43.0


From 3218f2dd0f68350c95b10f2e33674fdab9ec7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 29/47] fix: errant separate for bodies woken up by a separate
 callback

---
 space.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index fd92544..633879d 100644
--- a/space.go
+++ b/space.go
@@ -147,6 +147,8 @@ func (space *Space) SetStaticBody(body *Body) {
 func (space *Space) Activate(body *Body) {
 	assert(body.GetType() == BODY_DYNAMIC, "Attempting to activate a non-dynamic body")
 
+	body.wakeStamp = space.stamp
+
 	if space.locked != 0 {
 		if !Contains(space.rousedBodies, body) {
 			space.rousedBodies = append(space.rousedBodies, body)
@@ -157,7 +159,6 @@ func (space *Space) Activate(body *Body) {
 	assert(body.sleepingRoot == nil && body.sleepingNext == nil, "Activating body non-NULL node pointers.")
 
 	space.dynamicBodies = append(space.dynamicBodies, body)
-	body.wakeStamp = space.stamp
 
 	for _, shape := range body.shapeList {
 		space.staticShapes.class.Remove(shape, shape.hashid)
-- 
2.43.0


From 12924d9672c4aab8967cced1f3710a766a9e0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 30/47] fix: contact normal along the segment for a circle
 centered on it

---
 collision.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index c90a201..8d7f936 100644
--- a/collision.go
+++ b/collision.go
@@ -123,7 +123,14 @@ func CircleToSegment(info *CollisionInfo) {
 	distsq := delta.LengthSq()
 	if distsq < mindist*mindist {
 		dist := math.Sqrt(distsq)
-		if dist != 0 {
+		if 0.0 < closestT && closestT < 1.0 {
+			// The direction of delta is mostly rounding errors when the center is on the segment.
+			if segment.tn.Dot(delta) >= 0.0 {
+				info.n = segment.tn
+			} else {
+				info.n = segment.tn.Neg()
+			}
+		} else if dist != 0 {
 			info.n = delta.Mult(1 / dist)
 		} else {
 			info.n = segment.tn
-- 
2.43.0


From b6f0728161e58afc5be8af2ce9952dc22347cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 31/47] fix: SetType on a static body wakes up the bodies
 jointed to it

---
 body.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/body.go b/body.go
index ad33e0f..b44ca6b 100644
--- a/body.go
+++ b/body.go
@@ -159,6 +159,10 @@ func (body *Body) SetType(newType int) {
 		// Wake up the body, or whatever sleeps on it, while it still has its old type.
 		if oldType == BODY_STATIC {
 			body.ActivateStatic(nil)
+			for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {
+				constraint.a.Activate()
+				constraint.b.Activate()
+			}
 		} else {
 			body.Activate()
 		}
-- 
2.43.0


From 0a37941f254dc19647670e5779b23c5caf28dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 32/47] fix: ghost contacts after the vertexes of a polygon
 were changed

---
 collision.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 8d7f936..ed91157 100644
--- a/collision.go
+++ b/collision.go
@@ -371,7 +371,10 @@ func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 		// Use the minkowski points from the last frame as a starting point using the cached indexes.
 		v0 = NewMinkowskiPoint(ctx.shape1.Point((*collisionId>>24)&0xFF), ctx.shape2.Point((*collisionId>>16)&0xFF))
 		v1 = NewMinkowskiPoint(ctx.shape1.Point((*collisionId>>8)&0xFF), ctx.shape2.Point((*collisionId)&0xFF))
-	} else {
+	}
+
+	// The cached indexes may be those of other vertexes when a shape has been changed, and then be no axis at all.
+	if *collisionId == 0 || v0.ab == v1.ab {
 		// No cached indexes, use the shapes' bounding box centers as a guess for a starting axis.
 		axis := ctx.shape1.bb.Center().Sub(ctx.shape2.bb.Center()).Perp()
 		v0 = ctx.Support(axis)
-- 
2.43.0


From cb22ae3fe867017145e55086ba3b78167dab3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 33/47] fix: contact normal of two vertexes a rounding error
 apart is shorter than 1

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index ed91157..89d0e27 100644
--- a/collision.go
+++ b/collision.go
@@ -252,7 +252,7 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
 	d2 := p.Length()
-	n2 := p.Mult(1 / (d2 + 1e-15))
+	n2 := p.Mult(1 / (d2 + 2.2250738585072014e-308))
 
 	return ClosestPoints{pa, pb, n2, d2, id}
 }
-- 
2.43.0


From 05bce1548bf04924354179c059ffe939561c6c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:03 +0000
Subject: [PATCH 34/47] fix: rays going down from the border of a spatial hash
 cell missed the last cell

---
 spacehash.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index 440f9c3..363e56e 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -325,16 +325,13 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 		dtdy = INFINITY
 	}
 
-	var nextH, nextV float64
-	if tempH != 0 {
+	// A segment going down from the border of a cell leaves it at once, tempH or tempV is zero then.
+	nextH, nextV := dtdx, dtdy
+	if dx != 0 {
 		nextH = tempH * dtdx
-	} else {
-		nextH = dtdx
 	}
-	if tempV != 0 {
+	if dy != 0 {
 		nextV = tempV * dtdy
-	} else {
-		nextV = dtdy
 	}
 
 	visited := hash.beginQuery()
-- 
2.43.0


From c17ef81cfc4f632d6852da453dc90a47ff6bbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 35/47] fix: wrong contact normal for a circle centered on the
 end of a segment up to rounding

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 89d0e27..104980c 100644
--- a/collision.go
+++ b/collision.go
@@ -130,7 +130,7 @@ func CircleToSegment(info *CollisionInfo) {
 			} else {
 				info.n = segment.tn.Neg()
 			}
-		} else if dist != 0 {
+		} else if dist > MAGIC_EPSILON {
 			info.n = delta.Mult(1 / dist)
 		} else {
 			info.n = segment.tn
-- 
2.43.0


From 7a7c7fcb85fcb9f8cafccd2410f602c5527e7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 36/47] fix: wrong contact for shapes exactly in line with an
 edge, or touching at a vertex up to rounding

---
 collision.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/collision.go b/collision.go
index 104980c..a3a990c 100644
--- a/collision.go
+++ b/collision.go
@@ -213,6 +213,9 @@ func PolyToPoly(info *CollisionInfo) {
 	}
 }
 
+// Vertexes closer than this touch, the direction from one to the other is mostly rounding errors.
+const touchEpsilon = 1e-10
+
 // MinkowskiPoint is a point on the surface of two shapes' minkowski difference.
 type MinkowskiPoint struct {
 	// Cache the two original support points.
@@ -245,13 +248,15 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	n := delta.ReversePerp().Normalize()
 	d := n.Dot(p)
 
-	if d <= 0 || (-1 < t && t < 1) {
+	d2 := p.Length()
+
+	// The origin may be exactly in line with the edge, but beyond its end.
+	if -d > 0.5*d2 || d2 < touchEpsilon || (-1 < t && t < 1) {
 		// If the shapes are overlapping, or we have a regular vertex/edge collision, we are done.
 		return ClosestPoints{pa, pb, n, d, id}
 	}
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
-	d2 := p.Length()
 	n2 := p.Mult(1 / (d2 + 2.2250738585072014e-308))
 
 	return ClosestPoints{pa, pb, n2, d2, id}
@@ -402,8 +407,8 @@ func GJKRecurse(ctx SupportContext, v0, v1 MinkowskiPoint, iteration int) Closes
 		n = v1.ab.Sub(v0.ab).Perp()
 	} else {
 		n = v0.ab.LerpT(v1.ab, t).Neg()
-		if n == (Vector{}) {
-			// The shapes touch exactly at a vertex, so there is no axis to search along.
+		if n.LengthSq() < touchEpsilon*touchEpsilon {
+			// The shapes touch at a vertex, so there is no axis to search along, or it's just rounding errors.
 			// Use EPA to find an edge at that vertex.
 			return EPARecurse(ctx, 2, []MinkowskiPoint{v0, v1}, 1)
 		}
-- 
2.43.0


From f5a3ca215f6e2f6810c5b4e2b0a3e39b8d5c647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 37/47] fix: segments touching end to end in line got no
 contact

---
 collision.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collision.go b/collision.go
index a3a990c..f002210 100644
--- a/collision.go
+++ b/collision.go
@@ -360,6 +360,10 @@ func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 			info.PushContact(p1, p2, hash1b2a)
 		}
 	}
+	// Edges in line with the normal may have been projected to their far ends.
+	if info.count == 0 {
+		info.PushContact(points.a.Add(n.Mult(e1.r)), points.b.Add(n.Mult(-e2.r)), HashPair(e1.a.hash, e2.a.hash))
+	}
 }
 
 const hashCoef = 3344921057
-- 
2.43.0


From 83b381c7f3a3ee25e0de05a10d80d4fad77785d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 38/47] fix: no contact for polygons with the same center, or
 segments in line with each other

---
 collision.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/collision.go b/collision.go
index f002210..3c1054f 100644
--- a/collision.go
+++ b/collision.go
@@ -386,8 +386,17 @@ func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 	if *collisionId == 0 || v0.ab == v1.ab {
 		// No cached indexes, use the shapes' bounding box centers as a guess for a starting axis.
 		axis := ctx.shape1.bb.Center().Sub(ctx.shape2.bb.Center()).Perp()
+		if axis == (Vector{}) {
+			axis = Vector{1, 0}
+		}
 		v0 = ctx.Support(axis)
 		v1 = ctx.Support(axis.Neg())
+
+		if v0.ab == v1.ab {
+			// Segments in line with each other have no extent along the axis.
+			v0 = ctx.Support(axis.Perp())
+			v1 = ctx.Support(axis.ReversePerp())
+		}
 	}
 
 	points := GJKRecurse(ctx, v0, v1, 1)
-- 
2.43.0


From e32786e2e7b78500beaa9330925fbc29fa29ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 39/47] fix: SetStaticBody panicked although the old static
 body had no shapes

---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 633879d..4d83454 100644
--- a/space.go
+++ b/space.go
@@ -137,8 +137,10 @@ func (space *Space) SetCollisionSlop(slop float64) {
 
 func (space *Space) SetStaticBody(body *Body) {
 	if space.StaticBody != nil {
+		if len(space.StaticBody.shapeList) > 0 {
+			panic("Internal Error: Changing the designated static body while the old one still had shapes attached.")
+		}
 		space.StaticBody.space = nil
-		panic("Internal Error: Changing the designated static body while the old one still had shapes attached.")
 	}
 	space.StaticBody = body
 	body.space = space
-- 
2.43.0


From ccb26cfbc48fc5523ebc9c8cde245668729f0962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 40/47] fix: a spring whose ends are at the same place was
 drawn at NaN

---
 draw.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/draw.go b/draw.go
index b12534d..3f48d78 100644
--- a/draw.go
+++ b/draw.go
@@ -131,7 +131,11 @@ func DrawConstraint(constraint *Constraint, options Drawer) {
 		delta := b.Sub(a)
 		cos := delta.X
 		sin := delta.Y
-		s := 1.0 / delta.Length()
+		// The ends of the spring may be at the same place.
+		s := 0.0
+		if length := delta.Length(); length != 0 {
+			s = 1.0 / length
+		}
 
 		r1 := Vector{cos, -sin * s}
 		r2 := Vector{sin, cos * s}
-- 
2.43.0


From 8be892655d17df7e382d911dd74575b76b379c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 41/47] fix: infinite queries of a spatial hash found nothing

---
 spacehash.go | 85 +++++++++++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 45 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index 363e56e..cab6eb5 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -41,8 +41,20 @@ func NewSpaceHash(celldim float64, num int, bbfunc SpatialIndexBB, staticIndex *
 	return spatialIndex
 }
 
-func (hash *SpaceHash) hashHandle(hand *Handle, bb BB) {
+// eachCell calls f once for each cell that the bounding box covers, with the index of its bin. A box that covers more
+// cells than there are bins, an infinite one for example, gets each bin once.
+func (hash *SpaceHash) eachCell(bb BB, f func(idx HashValue)) {
 	dim := hash.celldim
+	n := hash.numCells
+
+	w := math.Floor(bb.R/dim) - math.Floor(bb.L/dim) + 1
+	h := math.Floor(bb.T/dim) - math.Floor(bb.B/dim) + 1
+	if w > 0 && h > 0 && w*h > float64(n) {
+		for i := 0; i < n; i++ {
+			f(HashValue(i))
+		}
+		return
+	}
 
 	// TODO: chipmunk said floor is slow, use custom floor
 	l := floor(bb.L / dim)
@@ -50,23 +62,27 @@ func (hash *SpaceHash) hashHandle(hand *Handle, bb BB) {
 	b := floor(bb.B / dim)
 	t := floor(bb.T / dim)
 
-	n := hash.numCells
 	for i := l; i <= r; i++ {
 		for j := b; j <= t; j++ {
-			idx := hashFunc(HashValue(i), HashValue(j), HashValue(n))
-			bin := hash.table[idx]
+			f(hashFunc(HashValue(i), HashValue(j), HashValue(n)))
+		}
+	}
+}
 
-			if bin.containsHandle(hand) {
-				continue
-			}
+func (hash *SpaceHash) hashHandle(hand *Handle, bb BB) {
+	hash.eachCell(bb, func(idx HashValue) {
+		bin := hash.table[idx]
 
-			hand.retain()
-			newBin := hash.getEmptyBin()
-			newBin.handle = hand
-			newBin.next = bin
-			hash.table[idx] = newBin
+		if bin.containsHandle(hand) {
+			return
 		}
-	}
+
+		hand.retain()
+		newBin := hash.getEmptyBin()
+		newBin.handle = hand
+		newBin.next = bin
+		hash.table[idx] = newBin
+	})
 }
 
 func (hash *SpaceHash) Count() int {
@@ -211,27 +227,16 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 	hash.handleSet.Each(func(hand *Handle) {
 		// queryRehash_helper
 
-		bb := hash.SpatialIndex.bbfunc(hand.obj)
-
-		l := floor(bb.L / hash.celldim)
-		r := floor(bb.R / hash.celldim)
-		b := floor(bb.B / hash.celldim)
-		t := floor(bb.T / hash.celldim)
-
-		for i := l; i <= r; i++ {
-			for j := b; j <= t; j++ {
-				idx := hashFunc(HashValue(i), HashValue(j), HashValue(hash.numCells))
-
-				// Find each pair once, when it's the turn of the second one.
-				for bin := hash.table[idx]; bin != nil; bin = bin.next {
-					other := bin.handle
-					if other.reindexed && other.stamp != hash.stamp {
-						f(hand.obj, other.obj, 0, data)
-						other.stamp = hash.stamp
-					}
+		hash.eachCell(hash.SpatialIndex.bbfunc(hand.obj), func(idx HashValue) {
+			// Find each pair once, when it's the turn of the second one.
+			for bin := hash.table[idx]; bin != nil; bin = bin.next {
+				other := bin.handle
+				if other.reindexed && other.stamp != hash.stamp {
+					f(hand.obj, other.obj, 0, data)
+					other.stamp = hash.stamp
 				}
 			}
-		}
+		})
 
 		hand.reindexed = true
 		hash.stamp++
@@ -242,20 +247,10 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 }
 
 func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data interface{}) {
-	dim := hash.celldim
-	l := floor(bb.L / dim)
-	r := floor(bb.R / dim)
-	b := floor(bb.B / dim)
-	t := floor(bb.T / dim)
-
-	n := hash.numCells
-
 	visited := hash.beginQuery()
-	for i := l; i <= r; i++ {
-		for j := b; j <= t; j++ {
-			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data, visited)
-		}
-	}
+	hash.eachCell(bb, func(idx HashValue) {
+		hash.queryHelper(&hash.table[idx], obj, f, data, visited)
+	})
 	hash.endQuery()
 }
 
-- 
2.43.0


From cb0fc36e909b593ef247f49f3ea7c40ef93a2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 42/47] fix: a spring whose ends are at the same place reported
 an impulse it had not applied

---
 dampedspring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dampedspring.go b/dampedspring.go
index f6b78fd..37bf71d 100644
--- a/dampedspring.go
+++ b/dampedspring.go
@@ -57,6 +57,10 @@ func (spring *DampedSpring) PreStep(dt float64) {
 	spring.vCoef = 1.0 - math.Exp(-spring.Damping*dt*k)
 
 	fSpring := spring.SpringForceFunc(spring, dist)
+	if dist == 0 {
+		// there's no direction to push in
+		fSpring = 0
+	}
 	spring.jAcc = fSpring * dt
 	apply_impulses(a, b, spring.r1, spring.r2, spring.n.Mult(spring.jAcc))
 }
-- 
2.43.0


From a7335694d5e36e6e3c2e98ef629121eaa562682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 43/47] fix: contacts not as deep as the shapes for an edge in
 line with the normal

---
 collision.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 3c1054f..8d0dd39 100644
--- a/collision.go
+++ b/collision.go
@@ -340,6 +340,8 @@ func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 	e1Denom := 1 / (dE1B - dE1A + 1e-15)
 	e2Denom := 1 / (dE2B - dE2A + 1e-15)
 
+	deepest := INFINITY
+
 	// Project the endpoints of the two edges onto the opposing edge, clamping them as necessary.
 	// Compare the projected points to the collision normal to see if the shapes overlap there.
 	{
@@ -349,6 +351,7 @@ func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 		if dist <= 0 {
 			hash1a2b := HashPair(e1.a.hash, e2.b.hash)
 			info.PushContact(p1, p2, hash1a2b)
+			deepest = math.Min(deepest, dist)
 		}
 	}
 	{
@@ -358,10 +361,12 @@ func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 		if dist <= 0 {
 			hash1b2a := HashPair(e1.b.hash, e2.a.hash)
 			info.PushContact(p1, p2, hash1b2a)
+			deepest = math.Min(deepest, dist)
 		}
 	}
 	// Edges in line with the normal may have been projected to their far ends.
-	if info.count == 0 {
+	if deepest > points.d-mindist+MAGIC_EPSILON {
+		info.count = 0
 		info.PushContact(points.a.Add(n.Mult(e1.r)), points.b.Add(n.Mult(-e2.r)), HashPair(e1.a.hash, e2.a.hash))
 	}
 }
-- 
2.43.0


From 1d5c89977429aaa8066b3029cf4911d495bdfd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:32 +0000
Subject: [PATCH 44/47] fix: a query with a segment that has no body panicked

---
 collision.go | 10 +++++-----
 segment.go   |  8 ++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/collision.go b/collision.go
index 8d0dd39..2122d18 100644
--- a/collision.go
+++ b/collision.go
@@ -137,7 +137,7 @@ func CircleToSegment(info *CollisionInfo) {
 		}
 		n := info.n
 
-		rot := segment.Shape.body.Rotation()
+		rot := segment.rotation()
 		if (closestT != 0.0 || n.Dot(segment.a_tangent.Rotate(rot)) >= 0.0) &&
 			(closestT != 1.0 || n.Dot(segment.b_tangent.Rotate(rot)) >= 0.0) {
 			info.PushContact(center.Add(n.Mult(circle.r)), closest.Add(n.Mult(-segment.r)), 0)
@@ -153,8 +153,8 @@ func SegmentToSegment(info *CollisionInfo) {
 	points := GJK(context, &info.collisionId)
 
 	n := points.n
-	rot1 := seg1.body.Rotation()
-	rot2 := seg2.body.Rotation()
+	rot1 := seg1.rotation()
+	rot2 := seg2.rotation()
 
 	if points.d > (seg1.r + seg2.r) {
 		return
@@ -186,11 +186,11 @@ func SegmentToPoly(info *CollisionInfo) {
 	points := GJK(context, &info.collisionId)
 
 	n := points.n
-	rot := info.a.body.Rotation()
-
 	segment := info.a.Class.(*Segment)
 	polyshape := info.b.Class.(*PolyShape)
 
+	rot := segment.rotation()
+
 	// If the closest points are nearer than the sum of the radii...
 	if points.d-segment.r-polyshape.r <= 0 && (
 	// Reject endcap collisions if tangents are provided.
diff --git a/segment.go b/segment.go
index c85b839..08b9172 100644
--- a/segment.go
+++ b/segment.go
@@ -37,6 +37,14 @@ func (seg *Segment) CacheData(transform Transform) BB {
 	return BB{l - rad, b - rad, r + rad, t + rad}
 }
 
+// rotation is that of the body, or of the transform a segment without a body was updated with.
+func (seg *Segment) rotation() Vector {
+	if seg.body == nil {
+		return Vector{seg.n.Dot(seg.tn), seg.n.Cross(seg.tn)}
+	}
+	return seg.body.Rotation()
+}
+
 func (seg *Segment) SetRadius(r float64) {
 	seg.r = r
 
-- 
2.43.0


From 749c515ba5ba03128119bdc77ec96932b7e968fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:45 +0000
Subject: [PATCH 45/47] fix: a contact restored by waking up during a step is
 no first contact

A contact that begins in the last step before its bodies are put to sleep keeps
the first-collision state. When the bodies were woken in the middle of a later
step, IsFirstContact reported that state again in PostSolve and the cached
impulses were not applied.
---
 space.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/space.go b/space.go
index 4d83454..514d9d0 100644
--- a/space.go
+++ b/space.go
@@ -193,6 +193,10 @@ func (space *Space) Activate(body *Body) {
 			})
 
 			// update arbiters state
+			if arbiter.stamp != space.stamp && arbiter.state == CP_ARBITER_STATE_FIRST_COLLISION {
+				// it began in the last step before falling asleep, not in this one
+				arbiter.state = CP_ARBITER_STATE_NORMAL
+			}
 			arbiter.stamp = space.stamp
 			space.arbiters = append(space.arbiters, arbiter)
 		}
-- 
2.43.0


From 40f21d86233e2f8034e9dc07375bca3339f72a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:24 +0000
Subject: [PATCH 46/47] fix: a spatial hash kept the handles of removed shapes
 in cells that no query visits

---
 spacehash.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index cab6eb5..ff69b94 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -70,6 +70,7 @@ func (hash *SpaceHash) eachCell(bb BB, f func(idx HashValue)) {
 }
 
 func (hash *SpaceHash) hashHandle(hand *Handle, bb BB) {
+	hand.bb = bb
 	hash.eachCell(bb, func(idx HashValue) {
 		bin := hash.table[idx]
 
@@ -113,11 +114,22 @@ func (hash *SpaceHash) Remove(obj *Shape, hashId HashValue) {
 	hand := hash.handleSet.Remove(hashId, obj)
 
 	if hand != nil {
-		hand.obj = nil
-		hand.release(&hash.pooledHandles)
+		hash.orphan(hand)
 	}
 }
 
+// orphan gives up a handle and takes it out of its cells. Queries in progress may be at one of them, the handle stays
+// there until the next query finds it then.
+func (hash *SpaceHash) orphan(hand *Handle) {
+	hand.obj = nil
+	if hash.queries == 0 {
+		hash.eachCell(hand.bb, func(idx HashValue) {
+			hash.removeOrphanedHandles(&hash.table[idx])
+		})
+	}
+	hand.release(&hash.pooledHandles)
+}
+
 func (hash *SpaceHash) Reindex() {
 	hash.clearTable()
 	hash.handleSet.Each(func(hand *Handle) {
@@ -129,8 +141,7 @@ func (hash *SpaceHash) ReindexObject(obj *Shape, hashId HashValue) {
 	hand := hash.handleSet.Remove(hashId, obj)
 
 	if hand != nil {
-		hand.obj = nil
-		hand.release(&hash.pooledHandles)
+		hash.orphan(hand)
 
 		hash.Insert(obj, hashId)
 	}
@@ -368,6 +379,7 @@ func hashFunc(x, y, n HashValue) HashValue {
 
 type Handle struct {
 	obj     *Shape
+	bb      BB // what it was hashed with
 	retains int
 	stamp   uint
 
-- 
2.43.0


From 8e1ee94e13781256cf216e724cef673b84f3211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:42 +0000
Subject: [PATCH 47/47] fix: the assertions of SetFriction and SetElasticity
 looked at the old value

---
 shape.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape.go b/shape.go
index 3442852..4ddfc28 100644
--- a/shape.go
+++ b/shape.go
@@ -140,7 +140,7 @@ func (s *Shape) Friction() float64 {
 }
 
 func (s *Shape) SetFriction(u float64) {
-	assert(s.u >= 0, "Must be positive")
+	assert(u >= 0, "Must be positive")
 	s.body.Activate()
 	s.u = u
 }
@@ -155,7 +155,7 @@ func (s *Shape) Elasticity() float64 {
 }
 
 func (s *Shape) SetElasticity(e float64) {
-	assert(s.e >= 0, "Must be positive")
+	assert(e >= 0, "Must be positive")
 	s.body.Activate()
 	s.e = e
 }
-- 
2.43.0

