package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// stress (C19): extreme but legal inputs: coincident, nested, tiny, huge and fast shapes, sharp polygons, thousands of
// contacts, mass ratios of 1e9, infinite moments, steps of any length, empty spaces; callbacks that reject, remove and wake.
// Only panics, hangs and numbers that are not finite count here.

func init() {
	specials["stress"] = &Special{explore: stressExplore, replay: stressReplay}
	plans["C19"] = []pick{{"stress", 0.5}, {"history", 0.4}, {"mech", 0.1}}
}

// far beyond this, rounding and overflow take over
const beyond = 1e12

type stressWorld struct {
	s      *Sim
	sp     *cp.Space
	bodies []*cp.Body // nil: removed
	salt   uint64
	n      uint64
	stop   bool
	kills  int
}

func stressSim(tr *Trace, st *Stats) *stressWorld {
	s := NewSim(tr.Cfg, map[string]bool{"C19": true}, st)
	w := &stressWorld{s: s, sp: s.sp}
	w.bodies = []*cp.Body{s.sp.StaticBody}
	if tr.Cfg.p("callbacks") > 0 {
		w.handlers()
	}
	return w
}

func (w *stressWorld) rnd() uint64 {
	w.n++
	return hashU(w.salt, w.n)
}

func (w *stressWorld) handlers() {
	p := w.s.cfg.p("callbacks")
	h := w.sp.NewWildcardCollisionHandler(1)
	h.BeginFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) bool {
		w.arb(arb)
		if unit(w.rnd()) < p {
			a, _ := arb.Bodies()
			w.kill(a)
		}
		return unit(w.rnd()) >= p
	}
	h.PreSolveFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) bool {
		w.arb(arb)
		if unit(w.rnd()) < p {
			return arb.Ignore()
		}
		return unit(w.rnd()) >= p
	}
	h.PostSolveFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) {
		w.arb(arb)
		if unit(w.rnd()) < p/4 {
			_, b := arb.Bodies()
			w.kill(b)
		}
	}
	h.SeparateFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) {
		if unit(w.rnd()) < p/4 {
			a, _ := arb.Bodies()
			w.kill(a)
		}
	}
}

// kill removes a body once it is safe.
func (w *stressWorld) kill(b *cp.Body) {
	if w.kills++; w.kills > 60 || b == w.sp.StaticBody {
		return
	}
	w.s.fault("remove-after-callback")
	w.sp.AddPostStepCallback(func(space *cp.Space, key, data interface{}) { w.remove(b) }, b, nil)
}

func (w *stressWorld) remove(b *cp.Body) {
	if b == nil || !w.sp.ContainsBody(b) {
		return
	}
	var ss []*cp.Shape
	var cs []*cp.Constraint
	b.EachShape(func(x *cp.Shape) { ss = append(ss, x) })
	b.EachConstraint(func(c *cp.Constraint) { cs = append(cs, c) })
	for _, c := range cs {
		if w.sp.ContainsConstraint(c) {
			w.sp.RemoveConstraint(c)
		}
	}
	for _, x := range ss {
		if w.sp.ContainsShape(x) {
			w.sp.RemoveShape(x) // runs post-step callbacks
		}
	}
	if w.sp.ContainsBody(b) {
		n := 0
		b.EachShape(func(x *cp.Shape) { n++ })
		b.EachConstraint(func(c *cp.Constraint) { n++ })
		if n == 0 {
			w.sp.RemoveBody(b)
		}
	}
}

func (w *stressWorld) bad(f string, a ...interface{}) {
	if !w.stop {
		w.s.fail("C19", f, a...)
	}
}

// arb checks what a callback sees.
func (w *stressWorld) arb(arb *cp.Arbiter) {
	if w.stop || w.s.viol != nil {
		return
	}
	a, b := arb.Bodies()
	if w.over(a) || w.over(b) {
		w.stop = true
		return
	}
	set := arb.ContactPointSet()
	if !fin(set.Normal.X, set.Normal.Y) {
		w.bad("the normal of a contact is not finite: %v", set.Normal)
	}
	if set.Count < 0 || set.Count > 2 {
		w.bad("a contact set of %d points", set.Count)
		return
	}
	for i := 0; i < set.Count; i++ {
		q := set.Points[i]
		if !fin(q.PointA.X, q.PointA.Y, q.PointB.X, q.PointB.Y, q.Distance) {
			w.bad("a contact point is not finite: %v", q)
		}
	}
	if j := arb.TotalImpulse(); !fin(j.X, j.Y) {
		w.bad("a contact impulse is not finite: %v", j)
	}
}

func (w *stressWorld) over(b *cp.Body) bool {
	p, v := b.Position(), b.Velocity()
	for _, x := range []float64{p.X, p.Y, v.X, v.Y, b.AngularVelocity(), b.Angle()} {
		if math.Abs(x) > beyond {
			return true
		}
	}
	return false
}

func (w *stressWorld) check(what string) {
	for i, b := range w.bodies {
		if b == nil || w.stop {
			continue
		}
		p, v := b.Position(), b.Velocity()
		if !fin(p.X, p.Y, v.X, v.Y, b.Angle(), b.AngularVelocity()) {
			w.bad("body %d is not finite after %s: position %v angle %v velocity %v, %v", i, what, p, b.Angle(), v, b.AngularVelocity())
			return
		}
	}
	for _, b := range w.bodies {
		if b != nil && w.over(b) {
			w.stop = true
			w.s.probe("stress-overflow")
			return
		}
	}
	w.sp.EachConstraint(func(c *cp.Constraint) {
		if j := c.Class.GetImpulse(); !fin(j) {
			w.bad("the impulse of a constraint is not finite after %s", what)
		}
	})
	w.sp.EachShape(func(x *cp.Shape) {
		if bb := x.BB(); !fin(bb.L, bb.B, bb.R, bb.T) {
			w.bad("the bounding box of a shape is not finite after %s: %v", what, bb)
		}
	})
}

func (w *stressWorld) body(id int) *cp.Body {
	if id >= 0 && id < len(w.bodies) && w.bodies[id] != nil && w.sp.ContainsBody(w.bodies[id]) {
		return w.bodies[id]
	}
	if id == 0 {
		return w.bodies[0]
	}
	return nil
}

func (w *stressWorld) exec(op *Op) {
	sp := w.sp
	w.s.op = op
	w.s.st.Ops++
	switch op.K {
	case "body":
		id := op.i(0)
		for len(w.bodies) <= id {
			w.bodies = append(w.bodies, nil)
		}
		if w.bodies[id] != nil {
			return
		}
		var b *cp.Body
		switch op.i(1) {
		case DYN:
			i := op.f(1)
			if i < 0 {
				i = cp.INFINITY
			}
			b = cp.NewBody(op.f(0), i)
		case KIN:
			b = cp.NewKinematicBody()
		default:
			b = cp.NewStaticBody()
		}
		b.SetPosition(cv(op.v(2)))
		b.SetAngle(op.f(4))
		if op.i(1) != STAT {
			b.SetVelocityVector(cv(op.v(5)))
			b.SetAngularVelocity(op.f(7))
		}
		sp.AddBody(b)
		w.bodies[id] = b
	case "shape":
		b := w.body(op.i(0))
		if b == nil {
			return
		}
		x := newShape(b, op.i(1), toPts(op.F[6:]), op.f(5), uint64(op.i(4)))
		x.SetElasticity(op.f(0))
		x.SetFriction(op.f(1))
		x.SetSurfaceV(cv(op.v(2)))
		x.SetCollisionType(cp.CollisionType(op.i(2)))
		x.SetSensor(op.i(3) != 0)
		sp.AddShape(x)
	case "many":
		// a heap of bodies
		r := NewRng(uint64(op.i(2)))
		n, kind := op.i(0), op.i(1)
		for k := 0; k < n; k++ {
			b := cp.NewBody(1, 10)
			p := op.v(0)
			q := V{r.Range(-1, 1), r.Range(-1, 1)}.Mul(op.f(2))
			z := op.f(3) * r.Range(0.5, 1)
			if op.i(3) == 1 {
				q = V{float64(k%20)*op.f(3)*1.9 - op.f(3)*20, float64(k/20) * op.f(3) * 1.9}
				z = op.f(3)
			}
			b.SetPosition(cv(p.Add(q)))
			sp.AddBody(b)
			var x *cp.Shape
			switch (kind + k*(kind/3)) % 3 {
			case 0:
				x = cp.NewCircle(b, z, cp.Vector{})
			case 1:
				x = cp.NewBox(b, z*2, z*2, 0)
			default:
				x = cp.NewSegment(b, cp.Vector{X: -z}, cp.Vector{X: z}, z/4)
			}
			x.SetFriction(r.F())
			x.SetCollisionType(cp.CollisionType(r.Intn(2)))
			sp.AddShape(x)
			w.bodies = append(w.bodies, b)
		}
	case "con":
		a, b := w.body(op.i(1)), w.body(op.i(2))
		if a == nil || b == nil || a == b || a.GetType() != DYN && b.GetType() != DYN {
			return
		}
		k := op.i(0)
		if a.Moment() > 1e100 && b.Moment() > 1e100 && k >= JGear && k != JSpring {
			return // two bodies that cannot turn
		}
		c := w.s.makeJoint(k, a, b, op.F)
		c.SetCollideBodies(op.i(3) != 0)
		sp.AddConstraint(c)
	case "pos":
		if b := w.body(op.i(0)); b != nil && b != sp.StaticBody {
			b.SetPosition(cv(op.v(0)))
			if b.GetType() == STAT {
				sp.EachShape(func(x *cp.Shape) {})
				var ss []*cp.Shape
				b.EachShape(func(x *cp.Shape) { ss = append(ss, x) })
				for _, x := range ss {
					sp.ReindexShape(x)
				}
			}
		}
	case "vel":
		if b := w.body(op.i(0)); b != nil && b.GetType() != STAT {
			b.SetVelocityVector(cv(op.v(0)))
			b.SetAngularVelocity(op.f(2))
		}
	case "imp":
		if b := w.body(op.i(0)); b != nil && b.GetType() == DYN {
			b.ApplyImpulseAtWorldPoint(cv(op.v(0)), cv(op.v(2)))
		}
	case "force":
		if b := w.body(op.i(0)); b != nil && b.GetType() == DYN {
			b.ApplyForceAtLocalPoint(cv(op.v(0)), cv(op.v(2)))
		}
	case "rm":
		if b := w.body(op.i(0)); b != nil && b != sp.StaticBody {
			w.remove(b)
		}
	case "hash":
		w.s.fault("index-switch")
		sp.UseSpatialHash(op.f(0), op.i(0))
	case "type":
		if b := w.body(op.i(0)); b != nil && b != sp.StaticBody && b.GetType() == DYN {
			joint := false
			b.EachConstraint(func(c *cp.Constraint) { joint = true })
			if !joint {
				b.SetType(op.i(1))
			}
		}
	case "step":
		dt := op.f(0)
		switch {
		case dt == 0:
			w.s.fault("zero-step")
		case dt > 0.1:
			w.s.fault("stall-step")
		case dt < 1e-4:
			w.s.fault("tiny-step")
		}
		w.salt, w.n = uint64(op.i(0)), 0
		sp.Step(dt)
		if dt > 0 {
			w.s.st.Steps++
			w.s.st.SimTime += dt
			w.s.check("stress")
		}
		w.check(fmt.Sprintf("a step of %g s", dt))
		if w.stop {
			return
		}
		for _, b := range w.bodies {
			if b != nil {
				p := b.Position()
				w.s.d(p.X, p.Y, b.Angle())
			}
		}
	case "query":
		w.query(op)
	}
}

func (w *stressWorld) query(op *Op) {
	sp := w.sp
	f := cp.SHAPE_FILTER_ALL
	p, q := op.v(0), op.v(2)
	w.s.check("stress-query")
	okHit := func(what string, pt, n cp.Vector, x float64) {
		if !fin(pt.X, pt.Y, n.X, n.Y, x) {
			w.bad("%s from %v, %v gives a result that is not finite: %v %v %v", what, p, q, pt, n, x)
		}
	}
	switch op.i(0) {
	case 0:
		if i := sp.PointQueryNearest(cv(p), op.f(4), f); i != nil && i.Shape != nil {
			okHit("point query", i.Point, i.Gradient, i.Distance)
		}
	case 1:
		if i := sp.SegmentQueryFirst(cv(p), cv(q), op.f(4), f); i.Shape != nil {
			okHit("segment query", i.Point, i.Normal, i.Alpha)
		}
		sp.SegmentQuery(cv(p), cv(q), op.f(4), f, func(shape *cp.Shape, point, normal cp.Vector, alpha float64, data interface{}) {
			okHit("segment query", point, normal, alpha)
		}, nil)
	case 2:
		sp.BBQuery(cp.BB{L: math.Min(p.X, q.X), B: math.Min(p.Y, q.Y), R: math.Max(p.X, q.X), T: math.Max(p.Y, q.Y)}, f, func(shape *cp.Shape, data interface{}) {}, nil)
	case 3:
		b := cp.NewKinematicBody()
		b.SetPosition(cv(p))
		b.SetAngle(op.f(5))
		var x *cp.Shape
		z := op.f(4)
		switch op.i(1) {
		case 0:
			x = cp.NewCircle(b, z, cp.Vector{})
		case 1:
			x = cp.NewBox(b, z, 2*z, 0)
		default:
			x = cp.NewSegment(b, cp.Vector{}, cp.Vector{X: z}, z/8)
		}
		sp.ShapeQuery(x, func(shape *cp.Shape, set *cp.ContactPointSet) {
			for i := 0; i < set.Count; i++ {
				okHit("shape query", set.Points[i].PointA, set.Normal, set.Points[i].Distance)
			}
		})
	}
}

// ---- generation ----

func stressCfg(r *Rng) Cfg {
	c := Cfg{Scen: "stress", Iter: r.Between(1, 20), Damp: r.Choose(1, 1, 0.5, 0), Slop: r.Choose(0.1, 0, 1e-6, 10), P: map[string]float64{}}
	g := r.Choose(0, 10, 100, 1e4)
	a := r.Range(0, 7)
	c.Grav = V{g * math.Cos(a), g * math.Sin(a)}
	if r.P(0.3) {
		c.Grav = V{0, -g}
	}
	if r.P(0.5) {
		c.Sleep = r.Choose(1e-3, 0.1, 0.5)
		c.Idle = r.Choose(0, 5, 1e3)
	}
	if r.P(0.5) {
		c.P["callbacks"] = r.Choose(0.001, 0.02, 0.3)
	}
	return c
}

type stressGen struct {
	r     *Rng
	ops   []Op
	n     int
	z, at float64 // typical size, extent of the world
	hash  bool
}

func (g *stressGen) push(k string, i []int, f []float64) { g.ops = append(g.ops, Op{k, i, f}) }

func (g *stressGen) place() V {
	r := g.r
	switch r.Intn(4) {
	case 0:
		return V{}
	case 1:
		return V{float64(r.Between(-2, 2)) * g.z, float64(r.Between(-2, 2)) * g.z}
	}
	return V{r.Range(-1, 1) * g.at, r.Range(-1, 1) * g.at}
}

func (g *stressGen) size() float64 {
	r := g.r
	return g.z * r.Choose(1, 1, 1, 1e-3, 1e-6, 30, 1e3)
}

func (g *stressGen) shape(id int) {
	r := g.r
	z := g.size()
	var pts []V
	kind := r.Intn(3)
	rad := z * r.Choose(0, 0, 1e-9, 0.1, 1, 5)
	shuf := 0
	switch kind {
	case 0:
		pts = []V{{}}
		if r.P(0.3) {
			pts = []V{{r.Range(-z, z), r.Range(-z, z)}}
		}
		rad = z
		if r.P(0.03) {
			rad = 0
		}
	case 1:
		pts = []V{{-z, 0}, {z, 0}}
		if r.P(0.3) {
			pts = []V{{0, 0}, {r.Range(-z, z), r.Range(-z, z)}}
		}
		if r.P(0.08) {
			pts[1] = pts[0] // no length
		}
	default:
		switch r.Intn(5) {
		case 0:
			pts = box(z, z)
		case 1:
			h := r.Choose(1e-6, 1e-3, 1, 1e3)
			pts = []V{{-z, 0}, {z, 0}, {0, z * h}} // a sliver
		case 2:
			// nearly round
			n := r.Between(8, 40)
			if r.P(0.1) {
				n = r.Between(41, 600)
			}
			for k := 0; k < n; k++ {
				a := 2 * math.Pi * float64(k) / float64(n)
				pts = append(pts, V{z * math.Cos(a), z * math.Sin(a)})
			}
		case 3:
			// all on a line, or nearly, or several times the same: the convex hull sorts it out
			d := V{r.Range(-z, z), r.Range(-z, z)}
			for k := r.Between(2, 6); k > 0; k-- {
				pts = append(pts, d.Mul(float64(r.Between(-2, 2))))
			}
			if r.P(0.7) {
				pts = append(pts, V{d.Y, -d.X}.Mul(r.Choose(1, 1e-3, 1e-9)))
			}
			shuf = 1 + r.Intn(1000)
		default:
			pts = randPoly(r, z)
			if r.P(0.5) {
				shuf = 1 + r.Intn(1000)
			}
		}
	}
	g.push("shape", []int{id, kind, r.Intn(2), int(b2f(r.P(0.05))), shuf},
		append([]float64{r.Choose(0, 0, 0.5, 1), r.Choose(0, 0.5, 1, 10, 1e6), sub(r, 0.05, r.Range(-1e3, 1e3)), 0, 0, rad}, flat(pts)...))
}

func (g *stressGen) body() int {
	r := g.r
	g.n++
	id := g.n
	typ := r.Pick([]float64{8, 1, 1})
	p := g.place()
	v := V{}
	w := 0.0
	if r.P(0.5) {
		sp := r.Choose(1, 100, 1e4, 1e6)
		v = V{r.Range(-sp, sp), r.Range(-sp, sp)}
		w = r.Range(-1, 1) * r.Choose(1, 10, 1e3)
	}
	m := r.Choose(1, 1, 1e-6, 1e-3, 1e3, 1e6)
	i := m * g.z * g.z * r.Choose(1, 1, 0.1, 10)
	if r.P(0.1) {
		i = -1 // infinite
	}
	g.push("body", []int{id, typ}, []float64{m, i, p.X, p.Y, r.Choose(0, 0, math.Pi/2, r.Range(-4, 4), 1e4), v.X, v.Y, w})
	for k := r.Pick([]float64{0.2, 6, 2, 1}); k > 0; k-- {
		g.shape(id)
	}
	return id
}

func stressExplore(name, prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim) {
	r := NewRng(hashU(seed, 7))
	tr := &Trace{Property: prop, Seed: seed, Cfg: stressCfg(r)}
	g := &stressGen{r: r, z: r.Choose(1, 1, 10, 1e-3, 1e3), hash: r.P(0.25)}
	g.at = g.z * r.Choose(1, 5, 50)
	if g.hash {
		g.push("hash", []int{[]int{1, 10, 1000}[r.Intn(3)]}, []float64{g.z * r.Choose(0.5, 2, 20)})
	}
	mode := r.Pick([]float64{5, 2, 1.5, 0.5})
	steps := int(float64(r.Between(5, 60)) * scale)
	if r.P(0.7) {
		g.push("shape", []int{0, 1, 0, 0, 0}, []float64{0, 1, 0, 0, 0, g.z * r.Choose(0, 1), -g.at * 2, -g.at, g.at * 2, -g.at})
	}
	switch mode {
	case 0: // a mix
		for k := r.Between(1, 25); k > 0; k-- {
			g.body()
		}
	case 1: // copies in the same place
		g.body()
		var one []Op
		for i := len(g.ops) - 1; i >= 0; i-- {
			one = append([]Op{g.ops[i]}, one...)
			if g.ops[i].K == "body" {
				break
			}
		}
		for k := r.Between(1, 12); k > 0; k-- {
			g.n++
			c := cloneOps(one)
			for i := range c {
				c[i].I[0] = g.n
			}
			if r.P(0.3) {
				c[0].F[4] += r.Choose(math.Pi, math.Pi/2, 1e-9)
			}
			g.ops = append(g.ops, c...)
		}
	case 2: // heaps
		n := []int{50, 150, 400}[r.Pick([]float64{3, 2, 0.6})]
		g.push("many", []int{n, r.Intn(6), r.Salt(), r.Intn(2)}, []float64{0, 0, g.z * r.Choose(0, 1, 4, 10), g.z})
		steps = 4 + steps/(n/20)
		g.n = 0
	case 3: // nothing
	}
	for k := r.Pick([]float64{2, 1, 1, 1}) * 2; k > 0 && g.n > 1 && mode != 2; k-- {
		a, b := r.Intn(g.n+1), r.Between(1, g.n)
		kind := r.Intn(JKinds)
		z := g.z
		an := func() V {
			if r.P(0.4) {
				return V{}
			}
			return V{r.Range(-z, z), r.Range(-z, z)}
		}
		A, B, C := an(), an(), an()
		var f []float64
		switch kind {
		case JPin:
			f = []float64{A.X, A.Y, B.X, B.Y}
		case JSlide:
			mn := r.Choose(0, 0, 0.5, 1) * z
			f = []float64{A.X, A.Y, B.X, B.Y, mn, mn + r.Range(0, 2)*z}
		case JPivot:
			f = []float64{A.X, A.Y, B.X, B.Y, 0}
		case JGroove:
			f = []float64{A.X, A.Y, A.X + z, A.Y + r.Range(-z, z), C.X, C.Y}
		case JGear:
			f = []float64{r.Range(-2, 2), r.Choose(1, -1, 5, 0.1)}
		case JRotLimit:
			f = []float64{-1, r.Choose(-1, 1)}
		case JRatchet:
			f = []float64{0, r.Choose(0.5, -0.5)}
		case JMotor:
			f = []float64{r.Choose(0, 10, -1e3)}
		case JSpring:
			f = []float64{A.X, A.Y, B.X, B.Y, r.Range(0, 3) * z, r.Choose(0, 1, 50), r.Choose(0, 1, 1e3)}
		case JRotSpring:
			f = []float64{r.Range(-2, 2), r.Choose(0, 1, 50), r.Choose(0, 1, 1e3)}
		}
		g.push("con", []int{kind, a, b, r.Intn(2)}, f)
	}
	dts := [][]float64{{1.0 / 60}, {1.0 / 60, 0, 1e-9, 1e-5}, {1.0 / 60, 1, 10, 0, 1e-5}, {1e-9}, {1}, {0.25, 1.0 / 200}}[r.Intn(6)]
	for k := 0; k < steps; k++ {
		x := r.Intn(g.n + 1)
		z := g.z
		switch r.Pick([]float64{4, 3, 1, 1, 1, 1, 1, 1, 0.3, 1}) {
		case 1:
			a, b := g.place(), g.place()
			if r.P(0.1) {
				b = a
			}
			g.push("query", []int{r.Intn(4), r.Intn(3)}, []float64{a.X, a.Y, b.X, b.Y, z * r.Choose(0, 0.1, 1, 10), r.Range(-3, 3)})
		case 2:
			if mode != 2 {
				g.body()
			}
		case 3:
			p := g.place()
			g.push("pos", []int{x}, []float64{p.X, p.Y})
		case 4:
			v := r.Choose(0, 1, 1e3, 1e5)
			g.push("vel", []int{x}, []float64{r.Range(-v, v), r.Range(-v, v), r.Range(-v, v)})
		case 5:
			g.push("imp", []int{x}, []float64{r.Range(-1, 1) * 10, r.Range(-1, 1) * 10, r.Range(-z, z), r.Range(-z, z)})
		case 6:
			g.push("force", []int{x}, []float64{r.Range(-1, 1) * 1e3, r.Range(-1, 1) * 1e3, r.Range(-z, z), r.Range(-z, z)})
		case 7:
			if mode != 3 {
				g.push("rm", []int{x}, nil)
			}
		case 8:
			if g.hash {
				g.push("hash", []int{[]int{1, 10, 1000}[r.Intn(3)]}, []float64{z * r.Choose(0.5, 2, 20)})
			}
		case 9:
			g.push("type", []int{x, r.Intn(3)}, nil)
		}
		g.push("step", []int{r.Salt()}, []float64{dts[r.Intn(len(dts))]})
	}
	tr.Ops = g.ops
	s := stressReplay(tr, st)
	s.finishRun(st, name)
	if s.viol != nil {
		tr.Violation = s.viol.String()
	}
	return tr, s
}

func stressReplay(tr *Trace, st *Stats) *Sim {
	begin(tr)
	defer end()
	w := stressSim(tr, st)
	w.s.digOn = true
	w.s.guard(func() {
		for i := range tr.Ops {
			if w.s.viol != nil || w.stop {
				break
			}
			w.s.opIdx = i
			w.exec(&tr.Ops[i])
		}
	})
	return w.s
}
