package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/jakecoffman/cp/v2"
)

const (
	EvBegin = iota
	EvPre
	EvPost
	EvSep
)

var evName = []string{"Begin", "PreSolve", "PostSolve", "Separate"}

type pairKey struct{ a, b int }

func mkKey(a, b int) pairKey {
	if a > b {
		a, b = b, a
	}
	return pairKey{a, b}
}

type Event struct {
	kind   int
	h      *Handler
	s1, s2 *ShapeM
	ret    bool
	ign    bool
	first  bool
	inStep bool
	// PostSolve
	j, n V
	cnt  int
	r    [2][2]V
	dist [2]float64
	used bool
}

func (e *Event) String() string {
	return fmt.Sprintf("%s(%d,%d) handler %d ret %v ignore %v", evName[e.kind], e.s1.id, e.s2.id, e.h.id, e.ret, e.ign)
}

// Disp says how events of a pair are dispatched.
type Disp struct {
	pair   *Handler
	wa, wb *Handler // wildcard handlers of the lower-id shape's and the other's type
	wild   bool
	ta, tb int
}

type Pair struct {
	fresh   bool // found touching in this step
	key     pairKey
	a, b    *ShapeM
	st      int // 0 apart, 1 touching, 2 unknown
	ign     int // 0 no, 1 yes, 2 unknown
	disp    Disp
	tok     *int
	asleep  bool // fell asleep in solved contact
	solved  bool // solved in the last step
	lastN   V
	begun   int
	steps   int // steps touching
	jPrev   V
	sensorT bool
	rest    *restSet
	over    *override
	muLast  float64 // friction when it was last solved
}

// override is a contact set a callback put in place of the library's, as seen from the pair's first shape.
type override struct {
	step int
	set  cp.ContactPointSet
}

func flipSet(x cp.ContactPointSet) cp.ContactPointSet {
	x.Normal = x.Normal.Neg()
	for i := range x.Points {
		x.Points[i].PointA, x.Points[i].PointB = x.Points[i].PointB, x.Points[i].PointA
	}
	return x
}

// overridden says that a callback replaced the contact set of the pair in this step.
func (s *Sim) overridden(p *Pair) bool { return p != nil && p.over != nil && p.over.step == s.stepNo }

// override replaces the contact set in a callback, and checks that the arbiter took it (C24).
func (s *Sim) override(arb *cp.Arbiter, e *Event, p *Pair, key uint64) {
	r := NewRng(key)
	set := arb.ContactPointSet()
	switch r.Intn(4) {
	case 0: // as it was
	case 1:
		// (the sliding of surface velocities is along the old normal's tangent, so a new normal would make it part of the approach)
		if a := r.Range(-0.5, 0.5); e.s1.sv == (V{}) && e.s2.sv == (V{}) {
			set.Normal = cv(vv(set.Normal).Rot(a))
		}
	case 2:
		d := V{r.Range(-0.5, 0.5), r.Range(-0.5, 0.5)}
		for i := 0; i < set.Count; i++ {
			set.Points[i].PointA = set.Points[i].PointA.Add(cv(d))
			set.Points[i].PointB = set.Points[i].PointB.Add(cv(d))
		}
	case 3:
		// no depth left, the way soft or one-way surfaces are made
		for i := 0; i < set.Count; i++ {
			m := set.Points[i].PointA.Lerp(set.Points[i].PointB, r.F())
			set.Points[i].PointA, set.Points[i].PointB = m, m
		}
	}
	s.fault("replace-contacts")
	arb.SetContactPointSet(&set)
	o := &override{step: s.stepNo, set: set}
	if e.s1 != p.a {
		o.set = flipSet(set)
	}
	p.over = o
	s.checkOverride(arb, e, p)
}

// checkOverride compares the contact set of an arbiter with the one put in place (C24).
func (s *Sim) checkOverride(arb *cp.Arbiter, e *Event, p *Pair) {
	if !s.on["C24"] {
		return
	}
	want := p.over.set
	if e.s1 != p.a {
		want = flipSet(want)
	}
	got := arb.ContactPointSet()
	s.check("override-read-back")
	ok := got.Count == want.Count && arb.Count() == want.Count && nearV(vv(got.Normal), vv(want.Normal), 1e-9) && nearV(vv(arb.Normal()), vv(want.Normal), 1e-9)
	n := vv(want.Normal)
	for i := 0; ok && i < want.Count; i++ {
		a, b := vv(want.Points[i].PointA), vv(want.Points[i].PointB)
		tol := 1e-9 * (1 + a.Len() + b.Len() + e.s1.bm.b.Position().Length() + e.s2.bm.b.Position().Length())
		ok = vv(got.Points[i].PointA).Sub(a).Len() < tol && vv(got.Points[i].PointB).Sub(b).Len() < tol && math.Abs(got.Points[i].Distance-b.Sub(a).Dot(n)) < 2*tol
	}
	if !ok {
		s.fail("C24", "%s(%d,%d): the contact set is %+v, a callback of this step replaced it by %+v", evName[e.kind], e.s1.id, e.s2.id, got, want)
	}
}

// restSet is the contact set of a sleeping pair, relative to the two bodies.
type restSet struct {
	step, cnt int
	n         V
	p         [2][2]V
	d         [2]float64
}

func (s *Sim) sortedPairs() []*Pair {
	r := make([]*Pair, 0, len(s.pairs))
	for _, p := range s.pairs {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].key.a != r[j].key.a {
			return r[i].key.a < r[j].key.a
		}
		return r[i].key.b < r[j].key.b
	})
	return r
}

func (s *Sim) pair(a, b *ShapeM) *Pair {
	k := mkKey(a.id, b.id)
	p := s.pairs[k]
	if p == nil {
		if a.id > b.id {
			a, b = b, a
		}
		p = &Pair{key: k, a: a, b: b}
		s.pairs[k] = p
	}
	return p
}

func (s *Sim) addHandler(hc *HandlerCfg) {
	var h *Handler
	for _, x := range s.handlers {
		if x.wild == hc.Wild && ((x.a == hc.A && x.b == hc.B) || (!x.wild && x.a == hc.B && x.b == hc.A) || (x.wild && x.a == hc.A)) {
			h = x
		}
	}
	old := h
	if h == nil {
		h = &Handler{id: len(s.handlers) + 1, wild: hc.Wild, a: hc.A, b: hc.B}
		s.handlers = append(s.handlers, h)
	}
	var g *cp.CollisionHandler
	if h.wild {
		g = s.sp.NewWildcardCollisionHandler(s.ctype(h.a))
		s.wildcard = true
	} else {
		g = s.sp.NewCollisionHandler(s.ctype(hc.A), s.ctype(hc.B))
	}
	if old != nil && g != h.h {
		s.fail("C04", "the handler for types %d,%d was not returned, but another one made", h.a, h.b)
		return
	}
	h.h = g
	if g.TypeA != s.ctype(h.a) || !h.wild && g.TypeB != s.ctype(h.b) {
		s.fail("C04", "the handler for types %d,%d has types %d,%d", h.a, h.b, g.TypeA, g.TypeB)
	}
	h.ud = new(int)
	*h.ud = h.id
	g.UserData = h.ud
	h.mask, h.fwd = hc.Mask, hc.Fwd
	g.BeginFunc, g.PreSolveFunc, g.PostSolveFunc, g.SeparateFunc = cp.DefaultBegin, cp.DefaultPreSolve, cp.DefaultPostSolve, cp.DefaultSeparate
	if h.wild {
		h.fwd = 0
		g.BeginFunc, g.PreSolveFunc, g.PostSolveFunc, g.SeparateFunc = cp.AlwaysCollide, cp.AlwaysCollide, cp.DoNothing, cp.DoNothing
	}
	if h.mask&1 != 0 {
		g.BeginFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) bool { return s.cb(EvBegin, h, arb, space, ud) }
	}
	if h.mask&2 != 0 {
		g.PreSolveFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) bool { return s.cb(EvPre, h, arb, space, ud) }
	}
	if h.mask&4 != 0 {
		g.PostSolveFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) { s.cb(EvPost, h, arb, space, ud) }
	}
	if h.mask&8 != 0 {
		g.SeparateFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) { s.cb(EvSep, h, arb, space, ud) }
	}
}

// forward passes a callback on to the wildcard handlers of both types, as the documentation tells users to do.
func (s *Sim) forward(kind int, arb *cp.Arbiter) bool {
	s.fault("call-wildcards")
	switch kind {
	case EvBegin:
		a := arb.CallWildcardBeginA(s.sp)
		return arb.CallWildcardBeginB(s.sp) && a
	case EvPre:
		a := arb.CallWildcardPreSolveA(s.sp)
		return arb.CallWildcardPreSolveB(s.sp) && a
	case EvPost:
		arb.CallWildcardPostSolveA(s.sp)
		arb.CallWildcardPostSolveB(s.sp)
	case EvSep:
		arb.CallWildcardSeparateA(s.sp)
		arb.CallWildcardSeparateB(s.sp)
	}
	return true
}

func (s *Sim) wildFor(t int) *Handler {
	for _, h := range s.handlers {
		if h.wild && h.a == t {
			return h
		}
	}
	return nil
}

func (s *Sim) dispFor(a, b *ShapeM) Disp {
	d := Disp{ta: a.ctype, tb: b.ctype, wild: s.wildcard}
	for _, h := range s.handlers {
		if !h.wild && ((h.a == d.ta && h.b == d.tb) || (h.a == d.tb && h.b == d.ta)) {
			d.pair = h
		}
	}
	d.wa, d.wb = s.wildFor(d.ta), s.wildFor(d.tb)
	return d
}

// expect returns the handlers to be called for an event; ordered says that the order is prescribed.
func (d *Disp) expect(kind int) (hs []*Handler, ordered bool) {
	bit := 1 << kind
	if d.pair != nil {
		if d.pair.mask&bit != 0 {
			hs = append(hs, d.pair)
			if d.pair.fwd&bit == 0 {
				return hs, true
			}
		}
		// a handler forwards to the wildcard handlers by default
		wa, wb := d.wa, d.wb
		if d.ta != d.pair.a {
			wa, wb = wb, wa
		}
		if wa != nil && wa.mask&bit != 0 {
			hs = append(hs, wa)
		}
		if wb != nil && wb.mask&bit != 0 {
			hs = append(hs, wb)
		}
		return hs, d.ta != d.tb
	}
	if d.wa != nil && d.wa.mask&bit != 0 {
		hs = append(hs, d.wa)
	}
	if d.wb != nil && d.wb.mask&bit != 0 {
		hs = append(hs, d.wb)
	}
	return hs, false
}

// cb is every collision callback.
func (s *Sim) cb(kind int, h *Handler, arb *cp.Arbiter, space *cp.Space, ud interface{}) bool {
	if s.viol != nil {
		return true
	}
	s.cbDepth++
	defer func() { s.cbDepth-- }()
	x1, x2 := arb.Shapes()
	b1, b2 := arb.Bodies()
	s1, s2 := s.byShp[x1], s.byShp[x2]
	if s1 == nil || s2 == nil {
		s.fail("C04", "%s callback for shapes that were never added to this space", evName[kind])
		s.fail("C17", "%s callback for shapes that were never added to this space", evName[kind])
		return true
	}
	if p, ok := ud.(*int); !ok || p != h.ud {
		s.fail("C04", "%s of handler %d (types %d,%d) called with the wrong user data %v", evName[kind], h.id, h.a, h.b, ud)
	}
	if space != s.sp {
		s.fail("C04", "%s called with the wrong space", evName[kind])
	}
	if b1 != s1.bm.b || b2 != s2.bm.b {
		s.fail("C04", "%s: Arbiter.Bodies does not match Arbiter.Shapes", evName[kind])
	}
	if !space.ContainsShape(x1) && kind != EvSep || !space.ContainsShape(x2) && kind != EvSep {
		s.fail("C03", "%s for a shape that is not in the space", evName[kind])
	}
	p := s.pair(s1, s2)
	e := &Event{kind: kind, h: h, s1: s1, s2: s2, ret: true, first: arb.IsFirstContact(), inStep: s.inStep && !s.inPost}
	s.ev = append(s.ev, e)
	s.d(float64(kind), float64(h.id), float64(s1.id), float64(s2.id))
	switch kind {
	case EvBegin, EvPre:
		if s.inStep && s.phase < 1 {
			s.phase = 1
		}
		s.checkContacts(arb, e)
	case EvPost:
		s.phase = 2
		e.j, e.n, e.cnt = vv(arb.TotalImpulse()), vv(arb.Normal()), arb.Count()
		set := arb.ContactPointSet()
		for i := 0; i < set.Count && i < 2; i++ {
			e.r[i] = [2]V{vv(set.Points[i].PointA), vv(set.Points[i].PointB)}
			e.dist[i] = set.Points[i].Distance
		}
		s.d(e.j.X, e.j.Y, e.n.X, e.n.Y)
		s.dset(&set)
		s.checkContacts(arb, e)
	case EvSep:
		if s.inStep && !s.inPost {
			s.phase = 2
		}
	}
	// user data stays with the pair
	if kind == EvBegin {
		if p.tok == nil || s.evCount(p, EvBegin) == 1 {
			p.tok = new(int)
			*p.tok = p.key.a
			arb.UserData = p.tok
		} else if arb.UserData != p.tok {
			s.fail("C04", "Arbiter.UserData set for shapes %d,%d in begin is lost in the other begin callback", p.key.a, p.key.b)
		}
	} else if p.tok != nil && p.st != 2 && arb.UserData != interface{}(p.tok) {
		s.fail("C04", "Arbiter.UserData set for shapes %d,%d when they began to touch is gone in %s", p.key.a, p.key.b, evName[kind])
	}
	// decisions of the callback
	key := hashU(s.salt, uint64(kind), uint64(p.key.a), uint64(p.key.b), uint64(h.id), uint64(s1.id))
	if e.inStep {
		switch kind {
		case EvBegin:
			if unit(hashU(key, 1)) < s.cfg.p("rejBegin") {
				e.ret = false
				s.fault("reject-begin")
			} else if unit(hashU(key, 2)) < s.cfg.p("ignBegin") {
				e.ign = true
				arb.Ignore()
				e.ret = unit(hashU(key, 3)) < 0.5
				s.fault("ignore-begin")
			}
		case EvPre:
			if unit(hashU(key, 1)) < s.cfg.p("rejPre") {
				e.ret = false
				s.fault("reject-presolve")
			} else if unit(hashU(key, 2)) < s.cfg.p("ignPre") {
				e.ign = true
				arb.Ignore()
				e.ret = unit(hashU(key, 3)) < 0.5
				s.fault("ignore-presolve")
			}
		}
	}
	if kind == EvPre && e.inStep && unit(hashU(key, 6)) < s.cfg.p("setPts") {
		s.override(arb, e, p, hashU(key, 7))
	}
	s.actions(kind, hashU(key, 9), s1, s2)
	if h.fwd&(1<<kind) != 0 && !s.forward(kind, arb) {
		e.ret = false
	}
	if y1, y2 := arb.Shapes(); y1 != x1 || y2 != x2 {
		s.fail("C04", "the order of the shapes %d,%d changed during %s", s1.id, s2.id, evName[kind])
	}
	return e.ret
}

func (s *Sim) evCount(p *Pair, kind int) int {
	n := 0
	for _, e := range s.ev {
		if e.kind == kind && mkKey(e.s1.id, e.s2.id) == p.key {
			n++
		}
	}
	return n
}

// actions are what the user's code does inside a callback.
func (s *Sim) actions(kind int, h uint64, s1, s2 *ShapeM) {
	if s.cfg.p("act") == 0 || unit(hashU(h, 1)) >= s.cfg.p("act") || s.oob > 3 {
		return
	}
	s.oob++
	defer func() { s.oob-- }()
	c := s.cfg
	w := []float64{c.p("aQuery"), c.p("aPoke"), c.p("aWake"), c.p("aPost"), c.p("aEach")}
	r := NewRng(hashU(h, 2))
	r.q = c.p("lat")
	t := 0.0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return
	}
	if kind == EvSep && !(s.inStep && !s.inPost) {
		// the shape is half removed: only register post-step callbacks
		w = []float64{0, 0, 0, 1, 0}
		if c.p("aPost") == 0 {
			return
		}
	}
	switch r.Pick(w) {
	case 0:
		s.fault("nested-query")
		s.runQuery(r.U64(), false)
	case 1:
		var b *BodyM
		if s1 != nil && r.P(0.5) {
			b = s1.bm
		} else {
			b = s.bOrder[r.Intn(len(s.bOrder))]
		}
		if b.typ != DYN || !b.in {
			return
		}
		s.fault("poke-in-callback")
		op := Op{K: "vel", I: []int{b.id}, F: []float64{r.Range(-60, 60), r.Range(-60, 60)}}
		if r.P(0.3) {
			p := vv(b.b.Position())
			op = Op{K: "impW", I: []int{b.id}, F: []float64{r.Range(-20, 20), r.Range(-20, 20), p.X + r.Range(-2, 2), p.Y + r.Range(-2, 2)}}
		} else if r.P(0.3) {
			op = Op{K: "force", I: []int{b.id}, F: []float64{r.Range(-200, 200), r.Range(-200, 200)}}
		}
		s.execBody(&op)
	case 2:
		b := s.bOrder[r.Intn(len(s.bOrder))]
		for i := 0; i < 5 && !(b.in && b.sleeping()); i++ {
			b = s.bOrder[r.Intn(len(s.bOrder))]
		}
		if b.typ == DYN && b.in {
			if b.sleeping() {
				s.fault("wake-in-callback")
			}
			s.execBody(&Op{K: "activate", I: []int{b.id}})
		}
	case 3:
		s.fault("poststep-in-callback")
		s.addPost(r.U64())
	case 4:
		s.fault("iterate-in-callback")
		s.runEach(r.U64())
	}
}

func (s *Sim) onConstraint(cm *ConM, c *cp.Constraint, space *cp.Space, which int) {
	if s.viol != nil {
		return
	}
	if c != cm.c || space != s.sp {
		s.fail("C13", "constraint %d: hook called with the wrong constraint or space", cm.id)
	}
	s.phase = 2
	s.cbDepth++
	defer func() { s.cbDepth-- }()
	if which == 0 {
		cm.pre++
		if cm.post > 0 {
			s.fail("C13", "constraint %d: PreSolve called after PostSolve in the same step", cm.id)
		}
	} else {
		cm.post++
	}
	s.d(float64(which), float64(cm.id))
	if which == 1 {
		s.jointHook(cm)
	} else if h := hashU(s.salt, 78, uint64(cm.id)); s.cfg.p("preField") > 0 && unit(h) < s.cfg.p("preField") {
		// what the callback changes is in force in this very step
		r := NewRng(hashU(h, 1))
		r.q = s.cfg.p("lat")
		op := fieldOp(r, 4, cm)
		s.fault("joint-field-in-presolve")
		if op.I[1] == 3 {
			s.swapSpringFunc(cm)
		} else {
			cm.setField(op.I[1], op.F)
		}
	}
	s.actions(10+which, hashU(s.salt, 77, uint64(cm.id), uint64(which)), nil, nil)
}

// checkContacts checks the contact set of a collision callback (C02 and the orientation part of C04).
func (s *Sim) checkContacts(arb *cp.Arbiter, e *Event) {
	p := s.pairs[mkKey(e.s1.id, e.s2.id)]
	if s.overridden(p) && e.inStep {
		s.checkOverride(arb, e, p)
		return
	}
	if !s.on["C02"] && !s.on["C04"] && !s.on["C24"] {
		return
	}
	set := arb.ContactPointSet()
	n := vv(arb.Normal())
	if !nearV(vv(set.Normal), n, 1e-9) {
		s.fail("C04", "%s(%d,%d): ContactPointSet normal %v differs from Arbiter.Normal %v", evName[e.kind], e.s1.id, e.s2.id, set.Normal, n)
	}
	if set.Count != arb.Count() {
		s.fail("C02", "%s(%d,%d): ContactPointSet has %d points, Arbiter.Count is %d", evName[e.kind], e.s1.id, e.s2.id, set.Count, arb.Count())
	}
	if e.s1.dirty || e.s2.dirty {
		return
	}
	if e.kind == EvPost && inStatic(&e.s1.bm.pre) && inStatic(&e.s2.bm.pre) {
		return // a set kept since the bodies fell asleep, checked then
	}
	ga, gb := e.s1.bm.geo(e.s1), e.s2.bm.geo(e.s2)
	if s.inStep && s.phase >= 1 {
		ga, gb = s.curGeo(e.s1), s.curGeo(e.s2)
	}
	what := fmt.Sprintf("%s(%d,%d)", evName[e.kind], e.s1.id, e.s2.id)
	sp := s.checkSet(what, &set, &ga, &gb)
	// orientation: along the separation direction from the first to the second shape
	if sp.D < -1e-4 && sp.Gap2 > 1e-3 && n.Dot(sp.N) < 0.5 {
		s.fail("C04", "%s: normal %v does not point from the first to the second shape (%v)", what, n, sp.N)
	}
	again := p != nil && p.over != nil && p.over.step == s.stepNo-1 // it was replaced in the step before
	if (s.on["C02"] || s.on["C24"] && again) && e.kind == EvPre {
		s.checkFresh(what, &set, e.s1, e.s2, ga, gb, again)
	}
}
