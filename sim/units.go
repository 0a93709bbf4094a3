package main

import (
	"fmt"
	"math"
	"slices"
	"sort"

	"github.com/jakecoffman/cp/v2"
)

// units (C29): the same program runs in two worlds that differ in the units of mass and time only: one is told everything in
// units that are larger or smaller by powers of two. With those, the arithmetic is the same up to the exponents, so both have to
// agree to the last bit at every moment.

func init() {
	specials["units"] = &Special{explore: unitsExplore, replay: unitsReplay}
	plans["C29"] = []pick{{"units", 1}}
	specials["turned"] = &Special{explore: unitsExplore, replay: unitsReplay}
	plans["C30"] = []pick{{"turned", 1}}
}

const unBodies, unJoints = 12, 8

type unWorld struct {
	s      *Sim
	sp     *cp.Space
	m, t   float64 // one unit of mass or time is as many here
	bodies []*cp.Body
	joints []*cp.Constraint
	turn   int    // everything is turned by so many right angles here
	n      uint64 // decisions of callbacks so far
	pairs  []int  // which shapes have met in the step, in order
	ids    map[*cp.Shape]int
	over   bool      // it blew up: nobody wants to know the cells of a hash that far out
	dig    []float64 // what is seen at the moment, in the units of the program
}

func newUnWorld(tr *Trace, m, t float64, turn int, st *Stats) *unWorld {
	s := NewSim(tr.Cfg, map[string]bool{unProp(tr): true}, st)
	w := &unWorld{s: s, sp: s.sp, m: m, t: t, turn: turn, ids: map[*cp.Shape]int{}, bodies: make([]*cp.Body, unBodies), joints: make([]*cp.Constraint, unJoints)}
	if d := tr.Cfg.p("hash"); d > 0 {
		w.sp.UseSpatialHash(d, 100)
	}
	g := tr.Cfg.Grav
	w.sp.SetGravity(w.v(g.X/t/t, g.Y/t/t))
	if tr.Cfg.Sleep > 0 {
		w.sp.SleepTimeThreshold = tr.Cfg.Sleep * t
		w.sp.IdleSpeedThreshold = tr.Cfg.Idle / t
	}
	f := w.sp.AddShape(cp.NewSegment(w.sp.StaticBody, w.v(-30, 0), w.v(30, -2), 0.5))
	f.SetFriction(0.8)
	f.SetElasticity(0.5)
	if w.judgeOrder() {
		f.SetCollisionType(1)
	}
	h := w.sp.NewWildcardCollisionHandler(1)
	h.PreSolveFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) bool {
		a, _ := arb.Bodies()
		if w.judgeOrder() {
			x, y := arb.Shapes()
			w.pairs = append(w.pairs, w.ids[x]<<16|w.ids[y])
		}
		switch w.decide() % 24 {
		case 0:
			w.s.fault("ignored-in-callback")
			return arb.Ignore()
		case 1, 2:
			w.s.fault("refused-in-callback")
			return false
		case 3:
			w.s.fault("shape-changed-in-callback")
			x, _ := arb.Shapes()
			x.SetFriction(1.5)
			x.SetElasticity(0.9)
		case 4:
			w.s.fault("push-after-callback")
			space.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) {
				if a.GetType() == cp.BODY_DYNAMIC {
					a.ApplyImpulseAtWorldPoint(w.v(2*w.m/w.t, 9*w.m/w.t), a.Position())
				}
			}, arb, nil)
		case 5:
			if k := w.decide() % unJoints; w.joints[k] != nil {
				w.s.fault("joint-removed-after-callback")
				space.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) {
					if w.joints[k] != nil {
						w.sp.RemoveConstraint(w.joints[k])
						w.joints[k] = nil
					}
				}, k, nil)
			}
		}
		return true
	}
	h.PostSolveFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) {
		j, n := w.back(arb.TotalImpulse()), w.back(arb.Normal())
		w.see(n.X, n.Y)
		for set, i := arb.ContactPointSet(), 0; i < set.Count; i++ {
			p := w.back(set.Points[i].PointA)
			w.see(p.X, p.Y, set.Points[i].Distance)
		}
		w.see(j.X/w.m*w.t, j.Y/w.m*w.t)
		w.s.check("impulse-in-units")
	}
	return w
}

func (w *unWorld) decide() uint64 {
	w.n++
	return hashU(uint64(w.s.cfg.p("salt")), w.n)
}

// v is what the program calls (x, y), and back is the other way around.
func (w *unWorld) v(x, y float64) cp.Vector {
	for i := 0; i < w.turn; i++ {
		x, y = -y, x
	}
	return cp.Vector{X: x, Y: y}
}

func (w *unWorld) back(v cp.Vector) cp.Vector {
	for i := 0; i < w.turn; i++ {
		v.X, v.Y = v.Y, -v.X
	}
	return v
}

// judgeOrder: the tree compares sums of coordinates, whose rounding depends on the direction, so two near ties can go the other
// way, and pairs be solved in another order. Everything has to be equal as long as that does not happen.
func (w *unWorld) judgeOrder() bool { return w.s.cfg.p("turn") != 0 }

// met gives the pairs of shapes that met, as a set.
func (w *unWorld) met() []int {
	ps := make([]int, len(w.pairs))
	for i, p := range w.pairs {
		ps[i] = max(p>>16, p&0xffff)<<16 | min(p>>16, p&0xffff)
	}
	sort.Ints(ps)
	return ps
}

func (w *unWorld) shape(b *cp.Body, kind int, f []float64) *cp.Shape {
	z, x, y := f[0], f[1], f[2]
	switch kind {
	case 0:
		return cp.NewCircle(b, z, w.v(x, y))
	case 1:
		return cp.NewSegment(b, w.v(x, y), w.v(x+2*z, y+z), 0.3*z)
	}
	return cp.NewPolyShapeRaw(b, 4, []cp.Vector{w.v(x+z, y-z), w.v(x+z, y+z), w.v(x-z, y+z), w.v(x-z, y-z)}, 0.1)
}

func unProp(tr *Trace) string {
	if tr.Cfg.p("turn") != 0 {
		return "C30"
	}
	return "C29"
}

func (w *unWorld) see(vs ...float64) { w.dig = append(w.dig, vs...) }

func (w *unWorld) joint(op *Op, a, b *cp.Body) *cp.Constraint {
	m, t := w.m, w.t
	v := func(i int) cp.Vector { return w.v(op.f(i), op.f(i+1)) }
	var c *cp.Constraint
	switch op.i(3) {
	case JPin:
		c = cp.NewPinJoint(a, b, v(0), v(2))
	case JSlide:
		c = cp.NewSlideJoint(a, b, v(0), v(2), op.f(4), op.f(4)+op.f(5))
	case JPivot:
		c = cp.NewPivotJoint2(a, b, v(0), v(2))
	case JGroove:
		c = cp.NewGrooveJoint(a, b, v(0), w.v(op.f(0)+op.f(4), op.f(1)+op.f(5)), v(2))
	case JGear:
		c = cp.NewGearJoint(a, b, op.f(0), 1+op.f(4))
	case JRotLimit:
		c = cp.NewRotaryLimitJoint(a, b, -op.f(4), op.f(5))
	case JRatchet:
		c = cp.NewRatchetJoint(a, b, op.f(0), op.f(4))
	case JMotor:
		c = cp.NewSimpleMotor(a, b, op.f(0)/t)
	case JSpring:
		c = cp.NewDampedSpring(a, b, v(0), v(2), op.f(4), 40*op.f(5)*m/t/t, op.f(6)*m/t)
	default:
		c = cp.NewDampedRotarySpring(a, b, op.f(0), 40*op.f(5)*m/t/t, op.f(6)*m/t)
	}
	w.limit(c, op.f(7), op.f(8))
	c.SetErrorBias(w.s.cfg.p("bias"))
	c.SetCollideBodies(op.i(4) != 0)
	return c
}

// limit sets what a joint may do, where that is exact: a vector is cut to a length by dividing it by its own and a trifle
// (Vector.Normalize) that has no unit.
func (w *unWorld) limit(c *cp.Constraint, force, bias float64) {
	vec := false
	switch c.Class.(type) {
	case *cp.PivotJoint, *cp.GrooveJoint:
		vec = true
	}
	if force > 0 && !vec {
		c.SetMaxForce(force * w.m / w.t / w.t)
	}
	if bias > 0 && (!vec || w.s.cfg.p("t") == 1) {
		c.SetMaxBias(bias / w.t)
	}
}

func (w *unWorld) exec(op *Op) {
	m, t := w.m, w.t
	slot := op.i(0) % unBodies
	b := w.bodies[slot]
	switch op.K {
	case "body":
		if b != nil {
			return
		}
		switch op.i(1) {
		case KIN:
			b = cp.NewKinematicBody()
		default:
			b = cp.NewBody(op.f(6)*m, op.f(7)*m)
		}
		b.SetPosition(w.v(op.f(0), op.f(1)))
		b.SetAngle(op.f(2))
		b.SetVelocityVector(w.v(op.f(3)/t, op.f(4)/t))
		b.SetAngularVelocity(op.f(5) / t)
		w.bodies[slot] = w.sp.AddBody(b)
	case "shape":
		if b == nil {
			return
		}
		x := w.shape(b, op.i(1), op.F)
		x.SetFriction(op.f(3))
		x.SetElasticity(op.f(4))
		x.SetSurfaceV(w.v(op.f(5)/t, 0))
		x.SetCollisionType(cp.CollisionType(op.i(2)))
		if w.judgeOrder() {
			x.SetCollisionType(1)
			w.ids[x] = len(w.ids) + 1
		}
		if op.f(6) > 0 && b.GetType() == cp.BODY_DYNAMIC {
			x.SetMass(op.f(6) * m)
		} else if op.f(7) > 0 && b.GetType() == cp.BODY_DYNAMIC {
			x.SetDensity(op.f(7) * m)
		}
		w.sp.AddShape(x)
	case "joint":
		j := op.i(1) % unJoints
		o := w.bodies[op.i(2)%unBodies]
		if op.i(5) == 0 {
			o = w.sp.StaticBody
		}
		if w.joints[j] != nil || b == nil || o == nil || o == b || b.GetType() != cp.BODY_DYNAMIC {
			return
		}
		w.joints[j] = w.sp.AddConstraint(w.joint(op, b, o))
	case "rmjoint":
		w.s.fault("joint-removed")
		if j := op.i(1) % unJoints; w.joints[j] != nil {
			w.sp.RemoveConstraint(w.joints[j])
			w.joints[j] = nil
		}
	case "vel":
		if b != nil {
			b.SetVelocityVector(w.v(op.f(0)/t, op.f(1)/t))
			b.SetAngularVelocity(op.f(2) / t)
		}
	case "force":
		if b != nil && b.GetType() == cp.BODY_DYNAMIC {
			b.SetForce(w.v(op.f(0)*m/t/t, op.f(1)*m/t/t))
			b.SetTorque(op.f(2) * m / t / t)
		}
	case "push":
		if b != nil && b.GetType() == cp.BODY_DYNAMIC {
			b.ApplyImpulseAtLocalPoint(w.v(op.f(0)*m/t, op.f(1)*m/t), w.v(op.f(2), op.f(3)))
			b.ApplyForceAtLocalPoint(w.v(op.f(0)*m/t/t, op.f(1)*m/t/t), w.v(op.f(2), op.f(3)))
		}
	case "mass":
		w.s.fault("mass-change")
		if b != nil && b.GetType() == cp.BODY_DYNAMIC {
			b.SetMass(op.f(0) * m)
			b.SetMoment(op.f(1) * m)
		}
	case "pos":
		w.s.fault("teleport")
		if b != nil {
			b.SetPosition(w.v(op.f(0), op.f(1)))
		}
	case "wake":
		if b != nil {
			b.Activate()
		}
	case "limit":
		if c := w.joints[op.i(1)%unJoints]; c != nil {
			w.limit(c, op.f(0), op.f(1))
		}
	case "rmshape":
		if b != nil {
			var ss []*cp.Shape
			b.EachShape(func(x *cp.Shape) { ss = append(ss, x) })
			if len(ss) > 1 {
				w.sp.RemoveShape(ss[op.i(1)%len(ss)])
				if b.GetType() == cp.BODY_DYNAMIC && (b.Mass() == 0 || b.Moment() == 0) { // a body without mass is not legal
					b.SetMass(m)
					b.SetMoment(m)
				}
			}
		}
	case "gravity":
		w.s.fault("gravity-change")
		w.sp.SetGravity(w.v(op.f(0)/t/t, op.f(1)/t/t))
	case "ask":
		// (which of several as near ones is told depends on the order of the index)
		hit := w.sp.SegmentQueryFirst(w.v(op.f(0), op.f(1)), w.v(op.f(2), op.f(3)), op.f(4), cp.SHAPE_FILTER_ALL)
		pt := w.back(hit.Point)
		w.see(hit.Alpha, b2f(hit.Shape != nil), pt.X, pt.Y)
		near := w.sp.PointQueryNearest(w.v(op.f(0), op.f(1)), 10, cp.SHAPE_FILTER_ALL)
		w.see(near.Distance, b2f(near.Shape != nil))
		w.s.check("query-turned")
	case "step":
		if x := w.sp.TimeStep(); x != 0 && x != op.f(0)*t {
			w.s.fault("step-size-jump")
		}
		for i := 0; i < op.i(1) && !w.over; i++ {
			w.sp.Step(op.f(0) * t)
			w.s.st.Steps++
			w.s.st.SimTime += op.f(0)
			w.look()
		}
	}
}

// look notes the whole state in the program's units.
func (w *unWorld) look() {
	m, t := w.m, w.t
	for _, b := range w.bodies {
		if b == nil {
			continue
		}
		p, v, f := w.back(b.Position()), w.back(b.Velocity()), w.back(b.Force())
		if !(math.Abs(p.X)+math.Abs(p.Y) < 1e6) || !(t*(math.Abs(v.X)+math.Abs(v.Y)) < 1e6) || !(t*math.Abs(b.AngularVelocity()) < 1e6) {
			w.over = true
		}
		w.see(p.X, p.Y, b.Angle(), v.X*t, v.Y*t, b.AngularVelocity()*t, f.X/m*t*t, f.Y/m*t*t, b.Torque()/m*t*t, b2f(b.IsSleeping()))
		if b.GetType() == cp.BODY_DYNAMIC {
			w.see(b.Mass()/m, b.Moment()/m, b.IdleTime()/t, b.KineticEnergy()/m*t*t)
		}
		if b.IsSleeping() {
			w.s.probe("units-sleeping")
		}
	}
	for _, c := range w.joints {
		if c != nil {
			w.see(c.Class.GetImpulse() / m * t)
			w.s.check("joint-in-units")
		}
	}
	w.s.check("units")
}

func unitsExplore(name, prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim) {
	r := NewRng(seed)
	c := Cfg{Scen: name, Iter: r.Between(1, 12), Damp: 1, Slop: r.Choose(0.1, 0.1, 0, 0.3), P: map[string]float64{}}
	c.Grav = V{r.Choose(0, 0, 3), r.Choose(0, -10, -100, -100, -500)}
	c.P["m"], c.P["t"] = math.Pow(2, float64(r.Choose2(-60, -30, -10, -3, -1, 1, 4, 12, 30, 60))), 1
	c.P["bias"] = r.Choose(math.Pow(0.9, 60), 0.1, 0)
	if r.P(0.4) {
		// (the default index takes velocities for lengths in a tenth of a second, and its order decides the order of the solver)
		c.P["t"] = math.Pow(2, float64(r.Choose2(-20, -8, -4, -2, -1, 1, 2, 4, 8, 20)))
		if r.P(0.4) {
			c.P["m"] = 1
		}
		// (how fast overlaps are taken back is given per second and cannot be told otherwise: nothing overlaps by more than the slop)
		c.Slop = 1e6
		c.P["bias"] = 0
		c.P["hash"] = r.Choose(2, 6)
	} else {
		c.Damp = r.Choose(1, 1, 0.9, 0.3)
		if r.P(0.3) {
			c.P["hash"] = r.Choose(2, 6)
		}
	}
	if name == "turned" {
		c.P["m"], c.P["t"], c.P["turn"], c.P["hash"] = 1, 1, float64(r.Between(1, 3)), 0
		c.Slop = r.Choose(0.1, 0.1, 0, 0.3)
	}
	c.P["salt"] = float64(r.Intn(1 << 30))
	if r.P(0.5) {
		c.Sleep = r.Choose(0.1, 0.3, 0.5)
		c.Idle = r.Choose(0, 0, 1, 10)
		if int(c.P["turn"])&1 != 0 {
			c.Idle = r.Choose(0.7, 9.3) // what has fallen for one step is exactly as fast as the default: rounding decides
		}
	}
	tr := &Trace{Property: prop, Seed: seed, Cfg: c}
	push := func(k string, i []int, f ...float64) { tr.Ops = append(tr.Ops, Op{k, i, f}) }
	wide := r.Choose(3, 6, 12)
	sp := r.Choose(0, 5, 20, 60)
	body := func(s int) {
		typ := DYN
		if r.P(0.12) {
			typ = KIN
		}
		push("body", []int{s, typ}, r.Range(-wide, wide), r.Range(1, 2*wide), r.Choose(0, 0, r.Range(-3, 3)), r.Range(-sp, sp), r.Range(-sp, sp), r.Choose(0, r.Range(-3, 3)), r.Range(0.3, 8), r.Range(0.3, 20))
		for k := r.Between(1, 2); k > 0; k-- {
			mass, dens := 0.0, 0.0
			if r.P(0.3) {
				mass = r.Range(0.3, 6)
			} else if r.P(0.3) {
				dens = r.Range(0.2, 2)
			}
			push("shape", []int{s, r.Intn(3), r.Intn(2)}, r.Range(0.4, 1.5), r.Choose(0, r.Range(-1, 1)), r.Choose(0, r.Range(-1, 1)), r.Choose(0, 0.5, 1, 3), r.Choose(0, 0, 0.5, 1), r.Choose(0, 0, 0, 4), mass, dens)
		}
	}
	for n := r.Between(1, 6); n > 0; n-- {
		body(r.Intn(unBodies))
	}
	dt := r.Choose(1./60, 1./60, 0.01, 1./32)
	for n := r.Between(8, 40); n > 0; n-- {
		s := r.Intn(unBodies)
		switch r.Pick([]float64{2, 4, 1, 2, 2, 2, 1, 0.5, 0.5, 1, 0.5, 0.5, 10, 1.5}) {
		case 0:
			body(s)
		case 1:
			push("joint", []int{s, r.Intn(unJoints), r.Intn(unBodies), r.Intn(JKinds), r.Intn(2), r.Intn(4)}, r.Range(-2, 2), r.Range(-2, 2), r.Range(-2, 2), r.Range(-2, 2), r.Range(0.2, 4), r.Range(0.2, 4), r.Range(0, 4),
				r.Choose(0, 0, 50, 2000), r.Choose(0, 0, 3))
		case 2:
			push("rmjoint", []int{0, r.Intn(unJoints)})
		case 3:
			push("vel", []int{s}, r.Range(-sp, sp), r.Range(-sp, sp), r.Range(-4, 4))
		case 4:
			push("force", []int{s}, r.Range(-300, 300), r.Range(-300, 300), r.Range(-300, 300))
		case 5:
			push("push", []int{s}, r.Range(-30, 30), r.Range(-30, 30), r.Range(-1, 1), r.Range(-1, 1))
		case 6:
			push("mass", []int{s}, r.Range(0.3, 8), r.Range(0.3, 20))
		case 7:
			push("pos", []int{s}, r.Range(-wide, wide), r.Range(0, wide))
		case 8:
			push("wake", []int{s})
		case 9:
			push("limit", []int{0, r.Intn(unJoints)}, r.Choose(0, 10, 500, 1e5), r.Choose(0.5, 5, 1e5))
		case 10:
			push("rmshape", []int{s, r.Intn(3)})
		case 11:
			push("gravity", []int{0}, r.Range(-20, 20), r.Range(-200, 20))
		case 13:
			push("ask", []int{0}, r.Range(-wide, wide), r.Range(-1, 2*wide), r.Range(-wide, wide), r.Range(-1, 2*wide), r.Choose(0, 0, 0.5))
		case 12:
			if r.P(0.2) {
				dt = r.Choose(1./60, 1./100, 1./32, 1./240)
			}
			k := r.Choose2(1, 2, 5, 15, 40)
			for ; name == "turned" && k > 1; k-- {
				push("step", []int{0, 1}, dt)
			}
			push("step", []int{0, k}, dt)
		}
	}
	s := unitsReplay(tr, st)
	s.finishRun(st, name)
	if s.viol != nil {
		tr.Violation = s.viol.String()
	}
	return tr, s
}

func unitsReplay(tr *Trace, st *Stats) *Sim {
	begin(tr)
	defer end()
	m, t := tr.Cfg.p("m"), tr.Cfg.p("t")
	a, b := newUnWorld(tr, 1, 1, 0, st), newUnWorld(tr, m, t, int(tr.Cfg.p("turn")), st)
	prop := unProp(tr)
	what := fmt.Sprintf("with other units (mass %g, time %g)", m, t)
	if k := b.turn; k != 0 {
		what = fmt.Sprintf("turned by %d right angles", k)
	}
	b.s.digOn = true
	b.s.guard(func() {
		for i := range tr.Ops {
			b.s.opIdx = i
			b.dig, a.dig = b.dig[:0], a.dig[:0]
			a.exec(&tr.Ops[i])
			b.exec(&tr.Ops[i])
			b.s.st.Ops++
			if !slices.Equal(a.pairs, b.pairs) {
				if x, y := a.met(), b.met(); !slices.Equal(x, y) {
					b.s.fail(prop, "%s the pairs that collide are %x instead of %x", what, y, x)
				}
				b.s.probe("turned-order")
				return
			}
			a.pairs, b.pairs = a.pairs[:0], b.pairs[:0]
			n := len(a.dig)
			if n != len(b.dig) {
				b.s.fail(prop, "%s there are %d numbers to see instead of %d", what, len(b.dig), n)
				return
			}
			rounded := false
			for k, x := range a.dig {
				if math.IsNaN(x) || math.Abs(x) > 1e100 || x != 0 && math.Abs(x) < 1e-100 {
					return // exponents run out
				}
				y := b.dig[k]
				if b.turn&1 != 0 && math.Abs(x-y) <= 1e-8*(1+math.Abs(x)) {
					rounded = rounded || x != y // sums of products may round differently when the coordinates change places
					b.s.d(x)
					continue
				}
				if x != y {
					b.s.fail(prop, "%s a state is %v instead of %v", what, y, x)
					return
				}
				b.s.d(x)
			}
			if rounded {
				b.s.probe("turned-rounding")
			}
			if a.over || rounded {
				return
			}
		}
	})
	return b.s
}
