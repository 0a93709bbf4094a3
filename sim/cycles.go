package main

import (
	"math"
	"runtime"

	"github.com/jakecoffman/cp/v2"
)

// cycles (C27): one program of additions, removals, movements, steps, queries and callbacks is executed again and again in one
// space, each time from and back to the same contents. The memory the space holds (live heap after collection) may rise to
// what the program needs at once, but not from cycle to cycle.

func init() {
	specials["cycles"] = &Special{explore: cyclesExplore, replay: cyclesReplay}
	plans["C27"] = []pick{{"cycles", 1}}
}

type cycWorld struct {
	s      *Sim
	sp     *cp.Space
	bodies []*cp.Body
	joints []*cp.Constraint
	arm    *cp.Shape // a probe that is in no space
	n      uint64
	post   int
	onCall func(arb *cp.Arbiter) // at every collision callback
}

func (w *cycWorld) called(arb *cp.Arbiter) {
	if w.onCall != nil {
		w.onCall(arb)
	}
}

const (
	cycBodies = 10
	cycJoints = 6
)

func (w *cycWorld) rnd() uint64 {
	w.n++
	return hashU(uint64(w.s.cfg.p("salt")), w.n)
}

func cycSim(tr *Trace, prop string, st *Stats) *cycWorld {
	s := NewSim(tr.Cfg, map[string]bool{prop: true}, st)
	w := &cycWorld{s: s, sp: s.sp}
	w.bodies = make([]*cp.Body, cycBodies)
	w.joints = make([]*cp.Constraint, cycJoints)
	if d := tr.Cfg.p("hash"); d > 0 {
		w.sp.UseSpatialHash(d, int(tr.Cfg.p("cells")))
	}
	// what stays: a floor, and a body on it
	if tr.Cfg.p("bare") == 0 {
		f := w.sp.AddShape(cp.NewSegment(w.sp.StaticBody, cp.Vector{X: -40, Y: 0}, cp.Vector{X: 40, Y: 0}, 0.5))
		f.SetFriction(0.7)
		b := w.sp.AddBody(cp.NewBody(1, cp.MomentForCircle(1, 0, 1, cp.Vector{})))
		b.SetPosition(cp.Vector{X: 2, Y: 1.45})
		w.sp.AddShape(cp.NewCircle(b, 1, cp.Vector{})).SetFriction(0.7)
	}
	w.arm = cp.NewCircle(cp.NewKinematicBody(), 3, cp.Vector{})
	if p := tr.Cfg.p("callbacks"); p > 0 {
		h := w.sp.NewWildcardCollisionHandler(1)
		if tr.Cfg.p("pairHandler") > 0 {
			h = w.sp.NewCollisionHandler(1, 1)
		}
		h.BeginFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) bool {
			w.called(arb)
			w.later(p)
			if unit(w.rnd()) < p {
				return arb.Ignore()
			}
			return unit(w.rnd()) >= p
		}
		h.PreSolveFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) bool {
			w.called(arb)
			if unit(w.rnd()) < p {
				w.query(int(w.rnd() % 5))
			}
			if unit(w.rnd()) < p/2 {
				return arb.Ignore()
			}
			return unit(w.rnd()) >= p
		}
		h.PostSolveFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) {
			w.called(arb)
			w.later(p)
			if unit(w.rnd()) < p {
				a, _ := arb.Bodies()
				a.Activate()
			}
		}
		h.SeparateFunc = func(arb *cp.Arbiter, space *cp.Space, ud interface{}) {
			w.called(arb)
			w.later(p)
		}
	}
	return w
}

// later has a body removed once the step is over.
func (w *cycWorld) later(p float64) {
	if unit(w.rnd()) >= p {
		return
	}
	slot := int(w.rnd() % cycBodies)
	var key interface{}
	if unit(w.rnd()) < 0.5 {
		key = slot
	}
	w.sp.AddPostStepCallback(func(space *cp.Space, key, data interface{}) {
		if w.post++; w.post%3 == 0 {
			w.s.fault("remove-after-callback")
			w.remove(slot)
		}
	}, key, w)
}

func (w *cycWorld) query(kind int) {
	at := cp.Vector{X: 40*unit(w.rnd()) - 20, Y: 20 * unit(w.rnd())}
	switch kind {
	case 0:
		w.sp.PointQueryNearest(at, 5, cp.SHAPE_FILTER_ALL)
	case 1:
		w.sp.SegmentQueryFirst(at, cp.Vector{X: -at.X, Y: 1}, 0.5, cp.SHAPE_FILTER_ALL)
	case 2:
		w.sp.BBQuery(cp.NewBBForCircle(at, 6), cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) {}, nil)
	case 3:
		w.sp.SegmentQuery(at, cp.Vector{X: -at.X, Y: 1}, 0, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) {}, nil)
	case 4:
		w.arm.Body().SetPosition(at)
		w.sp.ShapeQuery(w.arm, func(*cp.Shape, *cp.ContactPointSet) {})
	}
}

func (w *cycWorld) remove(slot int) {
	b := w.bodies[slot]
	if b == nil {
		return
	}
	w.bodies[slot] = nil
	for i, c := range w.joints {
		if c != nil && w.has(b, c) {
			w.joints[i] = nil
			w.sp.RemoveConstraint(c)
		}
	}
	var ss []*cp.Shape
	b.EachShape(func(x *cp.Shape) { ss = append(ss, x) })
	for _, x := range ss {
		if w.sp.ContainsShape(x) {
			w.sp.RemoveShape(x)
		}
	}
	if w.sp.ContainsBody(b) {
		w.sp.RemoveBody(b)
	}
}

func (w *cycWorld) has(b *cp.Body, c *cp.Constraint) bool {
	found := false
	b.EachConstraint(func(x *cp.Constraint) { found = found || x == c })
	return found
}

func cycShape(b *cp.Body, kind int, f []float64) *cp.Shape {
	z := f[0]
	off := cp.Vector{X: f[1], Y: f[2]}
	switch kind {
	case 0:
		return cp.NewCircle(b, z, off)
	case 1:
		return cp.NewSegment(b, off, off.Add(cp.Vector{X: 2 * z, Y: z}), 0.3*z)
	}
	return cp.NewBox2(b, cp.BB{L: off.X - z, B: off.Y - z, R: off.X + z, T: off.Y + z}, 0.1)
}

func (w *cycWorld) exec(op *Op) {
	slot := op.i(0) % cycBodies
	b := w.bodies[slot]
	switch op.K {
	case "body":
		if b != nil {
			return
		}
		switch op.i(1) {
		case STAT:
			b = cp.NewStaticBody()
		case KIN:
			b = cp.NewKinematicBody()
		default:
			b = cp.NewBody(1, 3)
		}
		b.SetPosition(cp.Vector{X: op.f(0), Y: op.f(1)})
		w.bodies[slot] = w.sp.AddBody(b)
		if op.i(1) != STAT {
			b.SetVelocity(op.f(2), op.f(3))
		}
	case "shape":
		if b == nil {
			return
		}
		n := 0
		b.EachShape(func(*cp.Shape) { n++ })
		if n >= 3 {
			return
		}
		x := cycShape(b, op.i(1), op.F)
		x.SetFriction(0.5)
		x.SetElasticity(op.f(3))
		x.SetCollisionType(cp.CollisionType(op.i(2)))
		if op.i(3) != 0 {
			x.SetSensor(true)
		}
		w.sp.AddShape(x)
	case "rmshape":
		if b == nil {
			return
		}
		var ss []*cp.Shape
		b.EachShape(func(x *cp.Shape) { ss = append(ss, x) })
		if len(ss) > 0 {
			w.sp.RemoveShape(ss[op.i(1)%len(ss)])
		}
	case "rm":
		w.remove(slot)
	case "joint":
		j, o := op.i(1)%cycJoints, w.bodies[op.i(2)%cycBodies]
		if op.i(3) == 0 {
			o = w.sp.StaticBody
		}
		if w.joints[j] != nil || b == nil || o == nil || o == b || b.GetType() != cp.BODY_DYNAMIC {
			return
		}
		var c *cp.Constraint
		switch op.i(4) % 4 {
		case 0:
			c = cp.NewPinJoint(b, o, cp.Vector{}, cp.Vector{X: 1})
		case 1:
			c = cp.NewPivotJoint(b, o, b.Position())
		case 2:
			c = cp.NewDampedSpring(b, o, cp.Vector{}, cp.Vector{}, 3, 5, 0.5)
		case 3:
			c = cp.NewRotaryLimitJoint(b, o, -1, 1)
		}
		c.SetCollideBodies(op.i(5) != 0)
		w.joints[j] = w.sp.AddConstraint(c)
	case "rmjoint":
		if j := op.i(1) % cycJoints; w.joints[j] != nil {
			w.sp.RemoveConstraint(w.joints[j])
			w.joints[j] = nil
		}
	case "pos":
		if b != nil {
			b.SetPosition(cp.Vector{X: op.f(0), Y: op.f(1)})
			if op.i(1) != 0 || b.GetType() == cp.BODY_STATIC {
				b.EachShape(func(x *cp.Shape) { w.sp.ReindexShape(x) })
			}
		}
	case "vel":
		if b != nil && b.GetType() != cp.BODY_STATIC {
			b.SetVelocity(op.f(0), op.f(1))
		}
	case "type":
		if b != nil {
			for _, c := range w.joints {
				if c != nil && w.has(b, c) {
					return
				}
			}
			b.SetType([]int{cp.BODY_DYNAMIC, cp.BODY_KINEMATIC, cp.BODY_STATIC}[op.i(1)%3])
			if b.GetType() == cp.BODY_DYNAMIC {
				b.SetMass(1)
				b.SetMoment(3)
			}
			w.s.fault("type-change")
		}
	case "filter":
		if b != nil {
			b.EachShape(func(x *cp.Shape) { x.SetFilter(cp.NewShapeFilter(uint(op.i(1)), ^uint(0), ^uint(0))) })
		}
	case "hash":
		if w.s.cfg.p("hash") > 0 {
			w.sp.UseSpatialHash(op.f(0), op.i(1))
			w.s.fault("index-switch")
		}
	case "query":
		w.query(op.i(1))
	case "wake":
		if b != nil {
			b.Activate()
		}
	case "each":
		w.sp.EachBody(func(x *cp.Body) { x.Activate() })
		w.sp.EachConstraint(func(*cp.Constraint) {})
		cp.DebugInfo(w.sp)
	case "handler":
		w.sp.NewCollisionHandler(cp.CollisionType(op.i(0)), cp.CollisionType(op.i(1)))
		w.sp.NewWildcardCollisionHandler(cp.CollisionType(op.i(1)))
	case "gravity":
		w.sp.SetGravity(cp.Vector{Y: op.f(0)})
	case "step":
		for i := 0; i < op.i(1); i++ {
			w.sp.Step(op.f(0))
			w.s.st.Steps++
			w.s.st.SimTime += op.f(0)
		}
	}
}

// cycle executes the program once and takes everything out again.
func (w *cycWorld) cycle(ops []Op) {
	w.n, w.post = 0, 0
	for i := range ops {
		w.exec(&ops[i])
		w.s.st.Ops++
	}
	w.sp.EachBody(func(b *cp.Body) {
		p := b.Position()
		w.s.d(p.X, p.Y, b.Angle())
	})
	for i := range w.bodies {
		w.remove(i)
	}
	for i := range w.joints {
		if w.joints[i] != nil {
			w.sp.RemoveConstraint(w.joints[i])
			w.joints[i] = nil
		}
	}
	w.sp.SetGravity(cp.Vector{X: w.s.cfg.Grav.X, Y: w.s.cfg.Grav.Y})
	// what is left in caches goes within a few steps
	for i := 0; i < 6; i++ {
		w.sp.Step(1. / 60)
		w.s.st.Steps++
		w.s.st.SimTime += 1. / 60
	}
}

func liveHeap() float64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // pools let go at the second
	runtime.ReadMemStats(&m)
	return float64(m.HeapAlloc)
}

// growth executes n cycles and returns by how much they raise the memory held.
func (w *cycWorld) growth(ops []Op, n int) float64 {
	h := liveHeap()
	for i := 0; i < n; i++ {
		w.cycle(ops)
	}
	return liveHeap() - h
}

const cycNoise = 2048 // bytes

func (w *cycWorld) run(ops []Op, long bool) {
	st := w.s.st
	n := 12
	w.growth(ops, n) // warming up
	g := w.growth(ops, 3*n)
	st.Checks["cycles"]++
	if g <= cycNoise && !long {
		return
	}
	// Once more, three times as long. What grew for good does not any more.
	st.Probe["cycles-looked-at-twice"]++
	for k := 0; k < 3; k++ {
		n *= 3
		was := g
		if g = w.growth(ops, 3*n); g <= cycNoise || k > 0 && g < 1.5*was {
			return
		}
	}
	w.s.fail("C27", "the contents of the space are the same after every cycle, but the memory it holds keeps growing")
}

// cycProgram makes a program; extra is called before every operation.
func cycProgram(r *Rng, name, prop string, seed uint64, extra func(push func(k string, i []int, f ...float64))) *Trace {
	c := Cfg{Scen: name, Iter: 4, Damp: 1, Slop: 0.1, P: map[string]float64{"salt": float64(r.Intn(1 << 30))}}
	c.Grav = V{0, r.Choose(0, -50, -200)}
	if r.P(0.6) {
		c.Sleep = r.Choose(0.05, 0.1)
		c.Idle = r.Choose(0, 5)
	}
	if r.P(0.4) {
		c.P["hash"], c.P["cells"] = r.Choose(2, 5, 30), r.Choose(1, 20, 500)
	}
	if r.P(0.6) {
		c.P["callbacks"] = r.Choose(0.02, 0.1, 0.4)
		if r.P(0.3) {
			c.P["pairHandler"] = 1
		}
	}
	if r.P(0.15) {
		c.P["bare"] = 1
	}
	if r.P(0.04) {
		c.P["long"] = 1
	}
	tr := &Trace{Property: prop, Seed: seed, Cfg: c}
	push := func(k string, i []int, f ...float64) { tr.Ops = append(tr.Ops, Op{k, i, f}) }
	wide := r.Choose(4, 10, 20)
	place := func() (float64, float64) { return r.Range(-wide, wide), r.Range(0, wide) }
	stat := r.Choose(0.1, 0.1, 0.6)
	if c.p("bare") > 0 && r.P(0.5) {
		stat = 1
	}
	dt := r.Choose(1./60, 1./60, 1./30, 0.01)
	for n := r.Between(10, 50); n > 0; n-- {
		if extra != nil {
			extra(push)
		}
		s := r.Intn(cycBodies)
		x, y := place()
		switch r.Pick([]float64{8, 3, 2, 2, 3, 1, 3, 2, 1, 0.5, 0.5, 0.3, 2, 1, 0.5, 0.5, 10, 0.3}) {
		case 0:
			typ := DYN
			if r.P(stat) {
				typ = STAT
			} else if r.P(0.15) {
				typ = KIN
			}
			push("body", []int{s, typ}, x, y, r.Range(-20, 20), r.Range(-20, 20))
			for k := r.Between(1, 2); k > 0; k-- {
				sens := 0
				if r.P(0.15) {
					sens = 1
				}
				push("shape", []int{s, r.Intn(3), r.Intn(3), sens}, r.Range(0.5, 2), r.Range(-1, 1), r.Range(-1, 1), r.Choose(0, 0.5, 1))
			}
		case 1:
			push("shape", []int{s, r.Intn(3), r.Intn(3), 0}, r.Range(0.5, 2), r.Range(-1, 1), r.Range(-1, 1), 0)
		case 2:
			push("rmshape", []int{s, r.Intn(3)})
		case 3:
			push("rm", []int{s})
		case 4:
			push("joint", []int{s, r.Intn(cycJoints), r.Intn(cycBodies), r.Intn(3), r.Intn(4), r.Intn(2)})
		case 5:
			push("rmjoint", []int{s, r.Intn(cycJoints)})
		case 6:
			push("pos", []int{s, r.Intn(2)}, x, y)
		case 7:
			push("vel", []int{s}, r.Range(-20, 20), r.Range(-20, 20))
		case 8:
			push("type", []int{s, r.Intn(3)})
		case 10:
			push("filter", []int{s, r.Intn(3)})
		case 11:
			push("hash", []int{0, r.Between(1, 300)}, r.Choose(2, 5, 30))
		case 12:
			push("query", []int{0, r.Intn(5)})
		case 13:
			push("wake", []int{s})
		case 14:
			push("each", []int{0})
		case 15:
			push("gravity", []int{0}, r.Range(-100, 10))
		case 17:
			push("handler", []int{r.Intn(3), r.Intn(3)})
		case 16:
			push("step", []int{0, r.Choose2(1, 1, 2, 5, 15)}, dt)
		}
	}
	return tr
}

func cyclesExplore(name, prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim) {
	tr := cycProgram(NewRng(seed), name, prop, seed, nil)
	s := cyclesReplay(tr, st)
	s.finishRun(st, name)
	if s.viol != nil {
		tr.Violation = s.viol.String()
	}
	return tr, s
}

// Choose2 is Choose for integers.
func (r *Rng) Choose2(is ...int) int { return is[r.Intn(len(is))] }

func cyclesReplay(tr *Trace, st *Stats) *Sim {
	begin(tr)
	defer end()
	w := cycSim(tr, "C27", st)
	w.s.digOn = true
	w.s.opIdx = len(tr.Ops) - 1
	w.s.guard(func() { w.run(tr.Ops, tr.Cfg.p("long") > 0) })
	n := 0.0
	w.sp.EachBody(func(b *cp.Body) {
		n++
		p := b.Position()
		if math.IsNaN(p.X) || math.IsNaN(p.Y) {
			w.s.fail("C27", "a body is at %v", p)
		}
		w.s.d(n, p.X, p.Y, b.Angle())
	})
	return w.s
}
