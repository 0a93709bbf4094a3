package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// ---- contact sets (C02) ----

// checkSet checks a contact set of two shapes placed as given. It returns how they really are placed.
func (s *Sim) checkSet(what string, set *cp.ContactPointSet, ga, gb *Geo) Sep {
	sp := separation(ga, gb)
	if !s.on["C02"] {
		return sp
	}
	sc := 1e-3 * (setScale(ga) + setScale(gb))
	tol := 1e-5 * (1 + sc)
	if set.Count < 0 || set.Count > 2 {
		s.fail("C02", "%s: %d contact points", what, set.Count)
		return sp
	}
	if set.Count == 0 {
		if sp.D < -tol {
			s.fail("C02", "%s: no contact points though the shapes overlap by %g", what, -sp.D)
		}
		return sp
	}
	s.check("contact-set")
	if sp.D > tol {
		s.fail("C02", "%s: %d contact points though the shapes are %g apart", what, set.Count, sp.D)
		return sp
	}
	n := vv(set.Normal)
	if !near(n.Len(), 1, 1e-6) {
		s.fail("C02", "%s: normal %v is not of unit length", what, n)
		return sp
	}
	deep := math.Inf(1)
	for i := 0; i < set.Count; i++ {
		pt := set.Points[i]
		a, b := vv(pt.PointA), vv(pt.PointB)
		da, _, _ := ga.pointDist(a)
		db, _, _ := gb.pointDist(b)
		s.maxErr("c02-point", math.Max(da, db))
		if da > tol || db > tol {
			s.fail("C02", "%s: point %d %v, %v is outside of the shapes by %g, %g", what, i, a, b, da, db)
			return sp
		}
		d := b.Sub(a).Dot(n)
		if math.Abs(d-pt.Distance) > tol {
			s.fail("C02", "%s: distance %g of point %d is not (PointB-PointA).Normal = %g", what, pt.Distance, i, d)
			return sp
		}
		if d > tol {
			s.fail("C02", "%s: distance %g of point %d is positive", what, d, i)
		}
		deep = math.Min(deep, d)
	}
	s.maxErr("c02-depth", math.Abs(deep-sp.D)/(1+sc))
	if math.Abs(deep-sp.D) > 20*tol {
		s.fail("C02", "%s: deepest distance %g, but the shapes overlap by %g (normal %v)", what, deep, -sp.D, n)
		return sp
	}
	// moving the second shape out along the normal separates the shapes
	m := Geo{P: make([]V, len(gb.P)), R: gb.R}
	for i, p := range gb.P {
		m.P[i] = p.Sub(n.Mul(deep - 20*tol))
	}
	if e := separation(ga, &m); e.D < -20*tol {
		s.fail("C02", "%s: moving the second shape by %g along the normal %v leaves an overlap of %g", what, -deep, n, -e.D)
	}
	return sp
}

func setScale(g *Geo) float64 {
	m := g.R
	for _, p := range g.P {
		m = math.Max(m, math.Max(math.Abs(p.X), math.Abs(p.Y)))
	}
	return m
}

var scratchBody = cp.NewBody(1, 1)

func freshShape(kind int, g *Geo) *cp.Shape {
	sh := newShape(scratchBody, kind, g.P, g.R, 0)
	sh.CacheBB()
	return sh
}

// checkFresh compares the set of a collision with that of fresh shapes at the same place.
func (s *Sim) checkFresh(what string, set *cp.ContactPointSet, s1, s2 *ShapeM, ga, gb Geo, again bool) {
	ref := collapse(cp.ShapesCollide(freshShape(s1.kind, &ga), freshShape(s2.kind, &gb)))
	*set = collapse(*set)
	if set.Count == ref.Count && setDiff(set, &ref) < 1e-6*(1+1e-2*(setScale(&ga)+setScale(&gb))) {
		s.check("fresh-set")
		return
	}
	// the result may hang on rounding: it counts only if it is stable
	all := []cp.ContactPointSet{ref}
	for k := 0; k < 40; k++ {
		g := NewRng(uint64(k) + 5)
		pa, pb := ga, gb
		pa.P, pb.P = append([]V{}, ga.P...), append([]V{}, gb.P...)
		da, db := V{g.Range(-1, 1), g.Range(-1, 1)}.Mul(1e-6), V{g.Range(-1, 1), g.Range(-1, 1)}.Mul(1e-6)
		// (turn them too: ties between edges do not depend on the place)
		ca, cb, wa, wb := pa.P[0], pb.P[0], 1e-6*g.Range(-1, 1), 1e-6*g.Range(-1, 1)
		for i := range pa.P {
			pa.P[i] = pa.P[i].Sub(ca).Rot(wa).Add(ca).Add(da)
		}
		for i := range pb.P {
			pb.P[i] = pb.P[i].Sub(cb).Rot(wb).Add(cb).Add(db)
		}
		if k%2 == 0 {
			all = append(all, collapse(cp.ShapesCollide(freshShape(s1.kind, &pa), freshShape(s2.kind, &pb))))
		} else {
			x := collapse(cp.ShapesCollide(freshShape(s2.kind, &pb), freshShape(s1.kind, &pa)))
			x.Normal = x.Normal.Neg()
			for i := range x.Points {
				x.Points[i].PointA, x.Points[i].PointB = x.Points[i].PointB, x.Points[i].PointA
			}
			all = append(all, x)
		}
	}
	for i := range all {
		if all[i].Count != ref.Count || setDiff(&all[i], &ref) > 1e-4 {
			s.probe("fresh-set-unstable")
			return
		}
	}
	s.check("fresh-set")
	if set.Count != ref.Count || setDiff(set, &ref) > 1e-3 {
		if again {
			s.fail("C24", "%s: contact set %+v still is not that of the geometry %+v, a step after a callback replaced it", what, *set, ref)
		}
		s.fail("C02", "%s: contact set %+v differs from that of fresh shapes at the same place %+v", what, *set, ref)
	}
}

// collapse makes one point of two in the same place.
func collapse(x cp.ContactPointSet) cp.ContactPointSet {
	if x.Count == 2 && x.Points[0].PointA.Distance(x.Points[1].PointA)+x.Points[0].PointB.Distance(x.Points[1].PointB) < 1e-4 {
		x.Count = 1
	}
	return x
}

func setDiff(a, b *cp.ContactPointSet) float64 {
	d := vv(a.Normal).Sub(vv(b.Normal)).Len()
	if a.Count != b.Count {
		return math.Inf(1)
	}
	try := func(sw bool) float64 {
		m := 0.0
		for i := 0; i < a.Count; i++ {
			j := i
			if sw {
				j = a.Count - 1 - i
			}
			m = math.Max(m, vv(a.Points[i].PointA).Sub(vv(b.Points[j].PointA)).Len())
			m = math.Max(m, vv(a.Points[i].PointB).Sub(vv(b.Points[j].PointB)).Len())
			m = math.Max(m, math.Abs(a.Points[i].Distance-b.Points[j].Distance))
		}
		return m
	}
	return math.Max(d, math.Min(try(false), try(true)))
}

// ---- queries (C07) ----

func randFilter(r *Rng) (cp.ShapeFilter, uint, uint, uint) {
	g, c, m := uint(0), ^uint(0), ^uint(0)
	if r.P(0.3) {
		g = uint(aGroup(r))
	}
	if r.P(0.3) {
		c = uint(aCat(r))
	}
	if r.P(0.3) {
		m = uint(aMask(r))
	}
	return cp.NewShapeFilter(g, c, m), g, c, m
}

func qRejects(sh *ShapeM, g, c, m uint) bool {
	return (sh.group != 0 && sh.group == g) || sh.cat&m == 0 || c&sh.mask == 0
}

// snap copies the shapes as a query that starts now has to see them: post-step callbacks that run when the query ends
// may change them before the results are looked at.
func snap(live []*ShapeM) []*ShapeM {
	r := make([]*ShapeM, len(live))
	for i, sh := range live {
		c := *sh
		c.orig = sh
		r[i] = &c
	}
	return r
}

type qHit struct {
	sh    *ShapeM
	point V
	n     V
	alpha float64
	cnt   int
}

func (s *Sim) runQuery(h uint64, top bool) {
	if s.viol != nil || s.qDepth > 4 || (s.inStep && s.phase == 0) {
		return
	}
	r := NewRng(h)
	r.q = s.cfg.p("lat")
	live := s.shapesIn()
	// aim near something
	at := V{r.Range(-80, 80), r.Range(-80, 80)}
	if len(live) > 0 && r.P(0.85) {
		g := s.curGeo(live[r.Intn(len(live))])
		p := g.P[r.Intn(len(g.P))]
		sp := r.Choose(0, 1, 5, 20)
		at = p.Add(V{r.Range(-sp, sp), r.Range(-sp, sp)})
	}
	switch r.Pick([]float64{2, 2, 3, 2, 2, 1, 1}) {
	case 0:
		s.qPoint(r, at, live)
	case 1:
		s.qBB(r, at, live)
	case 2:
		s.qSeg(r, at, live)
	case 3:
		s.qSegFirst(r, at, live)
	case 4:
		s.qShape(r, at, live)
	case 5:
		s.qCollide(r, live)
	case 6:
		s.qOwn(r, at, live)
	}
	if top {
		s.check("query-top")
	} else {
		s.check("query-nested")
	}
}

func (s *Sim) qTol(g *Geo) float64 { return 1e-6 * (1 + 1e-2*setScale(g)) }

func (s *Sim) qPoint(r *Rng, at V, live []*ShapeM) {
	f, fg, fc, fm := randFilter(r)
	maxD := r.Choose(0, 0.5, 3, 10, 40, 150, -0.5, -2, 4000, cp.INFINITY)
	info := s.sp.PointQueryNearest(cv(at), maxD, f)
	s.d(info.Distance, info.Point.X, info.Point.Y, info.Gradient.X, info.Gradient.Y)
	if !s.on["C07"] {
		return
	}
	s.check("point-query")
	best, tol := math.Inf(1), 1e-6*(1+1e-2*at.Len())
	var bs *ShapeM
	for _, sh := range live {
		if sh.sensor || qRejects(sh, fg, fc, fm) || sh.dirty {
			continue
		}
		g := s.curGeo(sh)
		d, _, _ := g.pointDist(at)
		if d < best {
			best, bs = d, sh
		}
	}
	what := fmt.Sprintf("PointQueryNearest(%v, %g)", at, maxD)
	if info.Shape == nil {
		if best < maxD-tol {
			s.fail("C07", "%s found nothing, shape %d is at distance %g", what, bs.id, best)
		}
		return
	}
	sh := s.byShp[info.Shape]
	if sh == nil || !sh.in {
		s.fail("C07", "%s found a shape that is not in the space", what)
		return
	}
	if sh.dirty {
		return
	}
	if sh.sensor || qRejects(sh, fg, fc, fm) {
		s.fail("C07", "%s found shape %d, which is a sensor or rejected by the filter", what, sh.id)
		return
	}
	s.probe("point-query-hit")
	s.checkPoint(what, sh, at, info, best, maxD)
}

// checkPoint judges the answer of a point query about one shape.
func (s *Sim) checkPoint(what string, sh *ShapeM, at V, info *cp.PointQueryInfo, best, maxD float64) {
	tol := 1e-6 * (1 + 1e-2*at.Len())
	g := s.curGeo(sh)
	d, core, inside := g.pointDist(at)
	if info.Distance > best+tol || math.Abs(info.Distance-d) > tol || info.Distance >= maxD+tol {
		s.fail("C07", "%s: found shape %d at distance %g; it is at %g, the nearest is at %g", what, sh.id, info.Distance, d, best)
		return
	}
	pt := vv(info.Point)
	pd, _, _ := g.pointDist(pt)
	if at.Sub(core).Len() < 1.1e-5 {
		tol += 2.5e-5 // so close to the core any direction is good
	}
	if math.Abs(pd) > tol || math.Abs(pt.Sub(at).Len()-math.Abs(d)) > tol {
		s.fail("C07", "%s: point %v is at distance %g from the surface of shape %d and %g from the query point (distance %g)", what, pt, pd, sh.id, pt.Sub(at).Len(), d)
		return
	}
	gr := vv(info.Gradient)
	if e := at.Sub(core).Len(); e > 1e-4 {
		want := at.Sub(core).Unit()
		if inside {
			want = want.Neg()
		}
		if gr.Sub(want).Len() > 1e-3 && !s.ambiguousCore(&g, at, e) {
			s.fail("C07", "%s: gradient %v of shape %d should be %v", what, gr, sh.id, want)
		}
	} else if !near(gr.Len(), 1, 1e-6) {
		s.fail("C07", "%s: gradient %v of shape %d is not of unit length", what, gr, sh.id)
	}
}

// ambiguousCore tells that the closest point of the core is not unique.
func (s *Sim) ambiguousCore(g *Geo, at V, e float64) bool {
	if g.edges() == 0 {
		return false
	}
	c0, _ := g.coreClosest(at)
	for i := 0; i < g.edges(); i++ {
		a, b := g.edge(i)
		c := closestOnSeg(at, a, b)
		if at.Sub(c).Len() < e+1e-4*(1+e) && c.Sub(c0).Len() > 1e-4*(1+e) {
			return true
		}
	}
	return false
}

func (s *Sim) qBB(r *Rng, at V, live []*ShapeM) {
	f, fg, fc, fm := randFilter(r)
	w, h := r.Choose(0, 1, 5, 30, 100, 3000, 1e300), r.Choose(0, 1, 5, 30, 100, 3000, 1e300)
	bb := Box{at.X - w, at.Y - h, at.X + w, at.Y + h}
	got := map[*ShapeM]int{}
	unk := 0
	n := 0
	hh := r.U64()
	live = snap(live)
	s.sp.BBQuery(cp.BB{L: bb.L, B: bb.B, R: bb.R, T: bb.T}, f, func(x *cp.Shape, data interface{}) {
		m := s.byShp[x]
		if m == nil {
			unk++
			return
		}
		s.d(float64(m.id))
		got[m]++
		n++
		s.enter()
		s.actions(20, hashU(hh, uint64(n)), nil, nil)
		s.leave()
	}, nil)
	s.flushCheck()
	if !s.on["C07"] || s.viol != nil {
		return
	}
	s.check("bb-query")
	what := fmt.Sprintf("BBQuery(%v)", bb)
	if unk > 0 {
		s.fail("C07", "%s found %d shapes that were never in the space", what, unk)
	}
	isLive := map[*ShapeM]bool{}
	for _, sh := range live {
		isLive[sh.orig] = true
		if sh.dirty || sh.orig.dirty {
			continue
		}
		g := s.curGeo(sh)
		gap := g.BB().gap(bb)
		tol := s.qTol(&g)
		rej := qRejects(sh, fg, fc, fm)
		if got[sh.orig] > 1 {
			s.fail("C07", "%s found shape %d %d times", what, sh.id, got[sh.orig])
		}
		if got[sh.orig] > 0 && rej {
			s.fail("C07", "%s found shape %d, which the filter rejects", what, sh.id)
		}
		if got[sh.orig] > 0 && gap > tol {
			s.fail("C07", "%s found shape %d, %g away", what, sh.id, gap)
		}
		if got[sh.orig] == 0 && !rej && gap < -tol {
			s.fail("C07", "%s missed shape %d, whose box overlaps by %g", what, sh.id, -gap)
		}
	}
	for sh := range got {
		if !isLive[sh] && sh.in == false {
			s.fail("C07", "%s found shape %d, which is not in the space", what, sh.id)
		}
	}
}

func (s *Sim) segTarget(r *Rng, at V, live []*ShapeM) (V, V, float64) {
	l := r.Choose(0.5, 5, 20, 60, 200)
	ang := r.Range(0, 2*math.Pi)
	if r.P(0.2) {
		ang = math.Pi / 2 * float64(r.Intn(4))
	}
	d := V{math.Cos(ang), math.Sin(ang)}
	off := r.Range(-0.3, 1.3)
	a := at.Sub(d.Mul(l * off))
	b := a.Add(d.Mul(l))
	if r.q > 0 || r.P(0.2) {
		// along and from the borders of a grid
		q := r.Choose(0.5, 1, 5, 10)
		a, b = snapTo(a, q), snapTo(b, r.Choose(q, 0.5))
	}
	if r.P(0.03) {
		b = a
	}
	rad := 0.0
	if r.P(0.5) {
		rad = r.Choose(0.1, 1, 4, 12)
	}
	if r.P(0.25) && len(live) > 0 {
		// at a shape and on, or back from it
		o := vv(live[r.Intn(len(live))].s.BB().Center())
		if o.Len() < 1e6 && o.Sub(a).Len() > 1e-3 {
			b = a.Add(o.Sub(a).Mul(r.Choose(0.9, 1, 1.5, 4)))
			if r.P(0.3) {
				a, b = b, a
			}
		}
	}
	return a, b, rad
}

// expectation of a ray against one shape
type rayExp struct {
	sh     *ShapeM
	g      Geo
	must   bool
	may    bool
	inside bool
	t      float64
	n      V
	tTol   float64
	nOK    bool
}

func (s *Sim) rayExpect(sh *ShapeM, a, b V, rad float64) rayExp {
	g := s.curGeo(sh)
	tol := s.qTol(&g) + 1e-8*(a.Len()+b.Len())
	e := rayExp{sh: sh, g: g}
	d0, _, _ := g.pointDist(a)
	l := b.Sub(a).Len()
	if d0 <= rad+tol {
		// starts inside
		e.may, e.inside = true, true
		e.must = d0 < rad-tol
		return e
	}
	hit, t, n, margin := g.rayHit(a, b, rad)
	if margin > tol {
		return e
	}
	e.may = true
	if !hit || margin > -tol {
		e.tTol = 2
		return e
	}
	e.must = true
	e.t, e.n = t, n
	// how well the hit is determined depends on how fast the ray approaches
	p := a.Lerp(b, math.Max(t-1e-5/math.Max(l, 1e-9), 0))
	dp, _, _ := g.pointDist(p)
	slope := (dp - rad) / 1e-5
	if g.R+rad == 0 && len(g.P) == 2 {
		slope = math.Abs(n.Dot(b.Sub(a).Unit()))
	}
	if slope < 1e-2 {
		e.tTol = 2
		return e
	}
	e.tTol = tol / slope / math.Max(l, 1e-9) * 10
	e.nOK = true
	if g.R+rad < 1e-3 && len(g.P) > 2 {
		// a corner may count for either edge
		q := a.Lerp(b, t)
		for _, v := range g.P {
			if v.Sub(q).Len() < 1e-3*(1+setScale(&g)) {
				e.nOK = false
			}
			if g.R+rad == 0 && v.Sub(q).Len() < 10*tol {
				// exactly through a sharp corner: rounding may slip between the edges
				e.must, e.tTol = false, 2
			}
		}
	} else if g.R+rad < 1e-3*(1+setScale(&g)) && g.R+rad > 0 {
		e.nOK = false
	}
	return e
}

func (s *Sim) checkRay(what string, e *rayExp, h *qHit, a, b V, rad float64) {
	sh := e.sh
	if h.cnt > 1 {
		s.fail("C07", "%s found shape %d %d times", what, sh.id, h.cnt)
		return
	}
	if h.cnt == 0 {
		if e.must {
			s.fail("C07", "%s missed shape %d (hit at %g, inside %v)", what, sh.id, e.t, e.inside)
		}
		return
	}
	if !e.may {
		s.fail("C07", "%s found shape %d, which it does not hit", what, sh.id)
		return
	}
	if e.inside {
		if e.must && h.alpha != 0 {
			s.fail("C07", "%s starts inside shape %d, but alpha is %g", what, sh.id, h.alpha)
		}
		return
	}
	if !e.must {
		return
	}
	s.probe("ray-hit")
	if math.Abs(h.alpha-e.t) > e.tTol {
		s.fail("C07", "%s: alpha %g of shape %d should be %g", what, h.alpha, sh.id, e.t)
		return
	}
	if e.tTol > 1 {
		return
	}
	tol := 1e-4 * (1 + 1e-2*setScale(&e.g))
	if d, _, _ := e.g.pointDist(h.point); math.Abs(d) > tol {
		s.fail("C07", "%s: point %v of shape %d is %g away from its surface", what, h.point, sh.id, d)
	}
	if e.nOK && h.n.Sub(e.n).Len() > 1e-2 {
		s.fail("C07", "%s: normal %v of shape %d should be %v", what, h.n, sh.id, e.n)
	}
}

func (s *Sim) qSeg(r *Rng, at V, live []*ShapeM) {
	f, fg, fc, fm := randFilter(r)
	a, b, rad := s.segTarget(r, at, live)
	got := map[*ShapeM]*qHit{}
	unk, n := 0, 0
	hh := r.U64()
	live = snap(live)
	s.sp.SegmentQuery(cv(a), cv(b), rad, f, func(x *cp.Shape, p, nn cp.Vector, alpha float64, data interface{}) {
		m := s.byShp[x]
		if m == nil {
			unk++
			return
		}
		s.d(float64(m.id), alpha, p.X, p.Y, nn.X, nn.Y)
		if got[m] == nil {
			got[m] = &qHit{m, vv(p), vv(nn), alpha, 0}
		}
		got[m].cnt++
		n++
		s.enter()
		s.actions(21, hashU(hh, uint64(n)), nil, nil)
		s.leave()
	}, nil)
	s.flushCheck()
	if !s.on["C07"] || s.viol != nil {
		return
	}
	s.check("segment-query")
	what := fmt.Sprintf("SegmentQuery(%v, %v, %g)", a, b, rad)
	if unk > 0 {
		s.fail("C07", "%s found %d shapes that were never in the space", what, unk)
	}
	isLive := map[*ShapeM]bool{}
	for _, sh := range live {
		isLive[sh.orig] = true
		if sh.dirty || sh.orig.dirty {
			continue
		}
		h := got[sh.orig]
		if h == nil {
			h = &qHit{}
		}
		if qRejects(sh, fg, fc, fm) {
			if h.cnt > 0 {
				s.fail("C07", "%s found shape %d, which the filter rejects", what, sh.id)
			}
			continue
		}
		e := s.rayExpect(sh, a, b, rad)
		s.checkRay(what, &e, h, a, b, rad)
	}
	for sh := range got {
		if !isLive[sh] && !sh.in {
			s.fail("C07", "%s found shape %d, which is not in the space", what, sh.id)
		}
	}
}

// qOwn asks a shape itself, sensors too.
func (s *Sim) qOwn(r *Rng, at V, live []*ShapeM) {
	a, b, rad := s.segTarget(r, at, live)
	if len(live) == 0 {
		return
	}
	sh := live[r.Intn(len(live))]
	info := sh.s.PointQuery(cv(at))
	var ray cp.SegmentQueryInfo
	if r.P(0.5) {
		ray = cp.SegmentQueryInfo{Shape: sh.s, Point: cp.Vector{X: 1}, Normal: cp.Vector{X: 1}, Alpha: 0.5} // of an earlier query
	}
	hit := sh.s.SegmentQuery(cv(a), cv(b), rad, &ray)
	s.d(info.Distance, info.Point.X, info.Point.Y, info.Gradient.X, info.Gradient.Y, ray.Alpha, ray.Point.X, ray.Point.Y, ray.Normal.X, ray.Normal.Y)
	hit2 := hit
	if r.P(0.3) {
		hit2 = sh.s.SegmentQuery(cv(a), cv(b), rad, nil)
	}
	if !s.on["C07"] || sh.dirty {
		return
	}
	s.check("shape-query-own")
	what := fmt.Sprintf("Shape.PointQuery(%v)", at)
	if info.Shape != sh.s {
		s.fail("C07", "%s of shape %d is about another shape", what, sh.id)
		return
	}
	g := s.curGeo(sh)
	d, _, _ := g.pointDist(at)
	s.checkPoint(what, sh, at, &info, d, math.Inf(1))
	what = fmt.Sprintf("Shape.SegmentQuery(%v, %v, %g)", a, b, rad)
	if hit != hit2 || hit != (ray.Shape != nil) || hit && ray.Shape != sh.s {
		s.fail("C07", "%s of shape %d returned %v, without info %v, and shape %v", what, sh.id, hit, hit2, ray.Shape != nil)
		return
	}
	if !hit && (ray.Alpha != 1 || vv(ray.Point) != b || ray.Normal != cp.Vector{}) {
		s.fail("C07", "%s missed shape %d at alpha %g, point %v, normal %v", what, sh.id, ray.Alpha, ray.Point, ray.Normal)
		return
	}
	e := s.rayExpect(sh, a, b, rad)
	h := &qHit{sh, vv(ray.Point), vv(ray.Normal), ray.Alpha, 0}
	if hit {
		h.cnt = 1
	}
	s.checkRay(what, &e, h, a, b, rad)
}

func (s *Sim) qSegFirst(r *Rng, at V, live []*ShapeM) {
	f, fg, fc, fm := randFilter(r)
	a, b, rad := s.segTarget(r, at, live)
	info := s.sp.SegmentQueryFirst(cv(a), cv(b), rad, f)
	s.d(info.Alpha, info.Point.X, info.Point.Y, info.Normal.X, info.Normal.Y)
	if !s.on["C07"] {
		return
	}
	s.check("segment-query-first")
	what := fmt.Sprintf("SegmentQueryFirst(%v, %v, %g)", a, b, rad)
	best := math.Inf(1)
	var be rayExp
	var re *rayExp
	var rs *ShapeM
	if info.Shape != nil {
		rs = s.byShp[info.Shape]
		if rs == nil || !rs.in {
			s.fail("C07", "%s found a shape that is not in the space", what)
			return
		}
		if rs.sensor || qRejects(rs, fg, fc, fm) {
			s.fail("C07", "%s found shape %d, which is a sensor or rejected by the filter", what, rs.id)
			return
		}
	}
	for _, sh := range live {
		if sh.sensor || qRejects(sh, fg, fc, fm) || sh.dirty {
			continue
		}
		e := s.rayExpect(sh, a, b, rad)
		if sh == rs {
			x := e
			re = &x
		}
		if !e.must {
			continue
		}
		t := e.t + e.tTol
		if e.inside {
			t = 0
		}
		if t < best {
			best, be = t, e
		}
	}
	if rs == nil {
		if best < 1-1e-6 {
			s.fail("C07", "%s found nothing, it hits shape %d at %g", what, be.sh.id, be.t)
		}
		return
	}
	if info.Alpha > best+1e-9 {
		s.fail("C07", "%s found shape %d at %g, it hits shape %d at %g", what, rs.id, info.Alpha, be.sh.id, be.t)
		return
	}
	if re != nil {
		s.checkRay(what, re, &qHit{rs, vv(info.Point), vv(info.Normal), info.Alpha, 1}, a, b, rad)
	}
}

func (s *Sim) qShape(r *Rng, at V, live []*ShapeM) {
	f, fg, fc, fm := randFilter(r)
	kind := r.Intn(3)
	var pts []V
	rad := r.Choose(0.5, 3, 10)
	switch kind {
	case 0:
		pts = []V{{r.Range(-1, 1), 0}}
	case 1:
		pts = []V{{0, 0}, {r.Range(1, 30), r.Range(-5, 5)}}
		if r.P(0.4) {
			rad = 0
		}
	case 2:
		pts = randPoly(r, r.Range(1, 12))
		rad = r.Choose(0, 0, 1)
	}
	body := cp.NewBody(1, 1)
	body.SetPosition(cv(at))
	ang := r.Range(-4, 4)
	body.SetAngle(ang)
	bare, spare := r.P(0.15), false
	if bare {
		body = nil
	} else if r.P(0.15) && len(s.bOrder) > 0 {
		// a shape that is not in the space, of a body that is
		if b := s.bOrder[r.Intn(len(s.bOrder))]; b.in {
			body, at, ang, spare = b.b, vv(b.b.Position()), b.b.Angle(), true
			s.probe("query-with-spare-shape")
		}
	}
	q := newShape(body, kind, pts, rad, 0)
	sens := r.P(0.15)
	if spare {
		q.Filter, sens = f, false // the setters would wake the body
	} else {
		q.SetFilter(f)
		q.SetSensor(sens)
	}
	if bare {
		q.Update(cp.NewTransformRigid(cv(at), ang))
		s.probe("query-with-bodyless-shape")
	}
	gq := Geo{P: make([]V, len(pts)), R: rad}
	for i, p := range pts {
		gq.P[i] = p.Rot(ang).Add(at)
	}
	var self *ShapeM
	if len(live) > 0 && r.P(0.3) {
		// a shape of the space, where it is now even if the space has not heard of it yet
		self = live[r.Intn(len(live))]
		for k := 0; k < 3 && !self.dirty && r.P(0.5); k++ {
			self = live[r.Intn(len(live))]
		}
		now := self.bm.geo(self)
		if cur := s.curGeo(self); !self.dirty && !sameGeo(&cur, &now) {
			if still := self.bm.typ == STAT || self.bm.sleeping(); still && s.locked() {
				self = nil
			} else {
				self.dirty = true // the shape is up to date, the index is not
				if still {
					defer func(sh *ShapeM) {
						if sh.in && !s.locked() && s.viol == nil {
							s.reindexShape(sh)
						}
					}(self)
				}
				s.probe("query-with-moved-shape")
			}
		}
	}
	if self != nil {
		q, gq = self.s, self.bm.geo(self)
		kind, rad, sens, fg, fc, fm = self.kind, self.r, self.sensor, self.group, self.cat, self.mask
		s.probe("query-with-own-shape")
	}
	type hit struct {
		sh  *ShapeM
		set cp.ContactPointSet
		cnt int
	}
	got := map[*ShapeM]*hit{}
	unk, n := 0, 0
	hh := r.U64()
	live = snap(live)
	ret := s.sp.ShapeQuery(q, func(x *cp.Shape, set *cp.ContactPointSet) {
		m := s.byShp[x]
		if m == nil {
			unk++
			return
		}
		s.d(float64(m.id))
		s.dset(set)
		if got[m] == nil {
			got[m] = &hit{m, *set, 0}
		}
		got[m].cnt++
		n++
		s.enter()
		s.actions(22, hashU(hh, uint64(n)), nil, nil)
		s.leave()
	})
	s.d(b2f(ret))
	s.flushCheck()
	if s.viol != nil {
		return
	}
	s.check("shape-query")
	what := fmt.Sprintf("ShapeQuery(kind %d %v r %g)", kind, gq.P, rad)
	if unk > 0 {
		s.fail("C07", "%s found %d shapes that were never in the space", what, unk)
	}
	must, may := false, false
	isLive := map[*ShapeM]bool{}
	for _, sh := range live {
		isLive[sh.orig] = true
		if sh.orig == self {
			if got[self] != nil {
				s.fail("C07", "%s with shape %d of the space found itself", what, self.id)
			}
			continue
		}
		if sh.dirty || sh.orig.dirty {
			may = true
			continue
		}
		h := got[sh.orig]
		g := s.curGeo(sh)
		if qRejects(sh, fg, fc, fm) {
			if h != nil {
				s.fail("C07", "%s found shape %d, which the filter rejects", what, sh.id)
			}
			continue
		}
		tol := 1e-5 * (1 + 1e-2*setScale(&g))
		D := 1.0
		if g.BB().gap(gq.BB()) < 1 {
			D = separation(&gq, &g).D
		}
		if h != nil {
			if h.cnt > 1 {
				s.fail("C07", "%s found shape %d %d times", what, sh.id, h.cnt)
			}
			if D > tol {
				s.fail("C07", "%s found shape %d, %g away", what, sh.id, D)
			}
			s.checkSet(fmt.Sprintf("%s for shape %d", what, sh.id), &h.set, &gq, &g)
		} else if D < -tol {
			s.fail("C07", "%s missed shape %d, which overlaps by %g", what, sh.id, -D)
		}
		if D <= tol && !sh.sensor && !sens {
			may = true
			if D < -tol {
				must = true
			}
		}
	}
	if must && !ret || ret && !may {
		s.fail("C07", "%s returned %v", what, ret)
	}
	for sh := range got {
		if !isLive[sh] && !sh.in {
			s.fail("C07", "%s found shape %d, which is not in the space", what, sh.id)
		}
	}
}

// dset adds a contact set to the digest.
func (s *Sim) dset(set *cp.ContactPointSet) {
	s.d(float64(set.Count), set.Normal.X, set.Normal.Y)
	for i := 0; i < set.Count; i++ {
		p := &set.Points[i]
		s.d(p.PointA.X, p.PointA.Y, p.PointB.X, p.PointB.Y, p.Distance)
	}
}

func sameGeo(a, b *Geo) bool {
	for i := range a.P {
		if a.P[i] != b.P[i] {
			return false
		}
	}
	return true
}

// qCollide runs ShapesCollide on two shapes of the space.
func (s *Sim) qCollide(r *Rng, live []*ShapeM) {
	if len(live) < 2 {
		return
	}
	for k := 0; k < 6; k++ {
		a, b := live[r.Intn(len(live))], live[r.Intn(len(live))]
		if a == b || a.dirty || b.dirty {
			continue
		}
		ga, gb := s.curGeo(a), s.curGeo(b)
		if ga.BB().gap(gb.BB()) > 0.1 && k < 5 {
			continue
		}
		set := cp.ShapesCollide(a.s, b.s)
		s.dset(&set)
		s.checkSet(fmt.Sprintf("ShapesCollide(%d,%d)", a.id, b.id), &set, &ga, &gb)
		if s.on["C02"] && set.Count > 0 {
			s.checkFresh(fmt.Sprintf("ShapesCollide(%d,%d)", a.id, b.id), &set, a, b, ga, gb, false)
		}
		return
	}
}

// randPoly makes a convex polygon, counter-clockwise, with clear corners.
func randPoly(r *Rng, size float64) []V {
	n := r.Between(3, 7)
	if r.P(0.1) {
		n = r.Between(8, 16) // more than 33 vertexes in two polygons may exceed the iterations of EPA
	} else if r.P(0.4) {
		w, h := size*r.Range(0.2, 1), size*r.Range(0.2, 1)
		return []V{{w, -h}, {w, h}, {-w, h}, {-w, -h}}
	}
	a0 := r.Range(0, 2*math.Pi)
	sx, sy := r.Range(0.4, 1), r.Range(0.4, 1)
	off := V{}
	if r.P(0.3) {
		off = V{r.Range(-1, 1), r.Range(-1, 1)}.Mul(size * 0.5)
	}
	p := make([]V, n)
	for i := range p {
		a := a0 + (float64(i)+r.Range(-0.25, 0.25))*2*math.Pi/float64(n)
		p[i] = V{math.Cos(a) * sx, math.Sin(a) * sy}.Mul(size).Add(off)
	}
	return p
}
