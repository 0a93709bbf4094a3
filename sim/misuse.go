package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/jakecoffman/cp/v2"
)

// misuse (C28): a program runs in two worlds with the library's assertions compiled in. In one of them it is interspersed with
// calls that are not allowed - at the top, in queries and in collision callbacks. Each of them has to be refused by a panic, and
// after every operation both worlds have to be equal to the last bit.

func init() {
	specials["misuse"] = &Special{explore: misuseExplore, replay: misuseReplay}
	plans["C28"] = []pick{{"misuse", 0.8}, {"history", 0.2}}
}

type misWorld struct {
	*cycWorld
	bad    bool
	armed  *Op
	other  *cp.Space // another space
	oBody  *cp.Body
	oShape *cp.Shape
	oJoint *cp.Constraint
	idle   *cp.Constraint // in no space
	loose  *cp.Shape      // in no space, of a body of the space
	digs   []uint64
}

func newMisWorld(tr *Trace, bad bool, st *Stats) *misWorld {
	w := &misWorld{cycWorld: cycSim(tr, "C28", st), bad: bad}
	w.other = cp.NewSpace()
	w.oBody = w.other.AddBody(cp.NewBody(1, 1))
	w.oShape = w.other.AddShape(cp.NewCircle(w.oBody, 1, cp.Vector{}))
	w.oJoint = w.other.AddConstraint(cp.NewPivotJoint(w.oBody, w.other.StaticBody, cp.Vector{}))
	w.idle = cp.NewRotaryLimitJoint(w.sp.StaticBody, cp.NewBody(1, 1), 0, 1)
	w.loose = cp.NewCircle(w.sp.StaticBody, 1, cp.Vector{X: 1000})
	w.onCall = func(arb *cp.Arbiter) { w.at(arb, 0, 1) }
	return w
}

// at executes the misuse that waits for a callback of this kind.
func (w *misWorld) at(arb *cp.Arbiter, where ...int) {
	op := w.armed
	if op == nil {
		return
	}
	for _, k := range where {
		if op.i(3)%6 == k {
			w.armed = nil
			if op.i(4) > 0 { // after a query in the callback
				w.query(op.i(4))
			}
			w.try(op, true, arb)
			return
		}
	}
}

const misKinds = 29

// call returns a call that has to be refused, or nil if there is none of the kind at present.
func (w *misWorld) call(op *Op, locked bool, arb *cp.Arbiter) (string, func()) {
	neg := op.f(0)
	var b *cp.Body
	for i := 0; i < cycBodies && b == nil; i++ {
		b = w.bodies[(op.i(1)+i)%cycBodies]
	}
	var x *cp.Shape
	if b != nil {
		var xs []*cp.Shape
		b.EachShape(func(y *cp.Shape) { xs = append(xs, y) })
		if len(xs) > 0 {
			x = xs[op.i(2)%len(xs)]
		}
	}
	var j *cp.Constraint
	for i := 0; i < cycJoints && j == nil; i++ {
		j = w.joints[(op.i(2)+i)%cycJoints]
	}
	switch op.i(0) % misKinds {
	case 0:
		if x != nil {
			return "AddShape of a shape that is in the space", func() { w.sp.AddShape(x) }
		}
	case 1:
		return "AddShape of a shape that is in another space", func() { w.sp.AddShape(w.oShape) }
	case 2:
		if b != nil {
			return "AddBody of a body that is in the space", func() { w.sp.AddBody(b) }
		}
	case 3:
		return "AddBody of a body that is in another space", func() { w.sp.AddBody(w.oBody) }
	case 4:
		if j != nil {
			return "AddConstraint of a constraint that is in the space", func() { w.sp.AddConstraint(j) }
		}
	case 5:
		return "AddConstraint of a constraint that is in another space", func() { w.sp.AddConstraint(w.oJoint) }
	case 6:
		return "RemoveShape of a shape that is in another space", func() { w.sp.RemoveShape(w.oShape) }
	case 7:
		return "RemoveShape of a shape that is in no space", func() { w.sp.RemoveShape(w.loose) }
	case 8:
		return "RemoveBody of a body that is in another space", func() { w.sp.RemoveBody(w.oBody) }
	case 9:
		return "RemoveBody of a body that is in no space", func() { w.sp.RemoveBody(w.arm.Body()) }
	case 10:
		return "RemoveBody of the static body of the space", func() { w.sp.RemoveBody(w.sp.StaticBody) }
	case 11:
		return "RemoveConstraint of a constraint that is in another space", func() { w.sp.RemoveConstraint(w.oJoint) }
	case 12:
		return "RemoveConstraint of a constraint that is in no space", func() { w.sp.RemoveConstraint(w.idle) }
	case 13:
		if j != nil {
			return fmt.Sprintf("SetMaxForce(%v)", neg), func() { j.SetMaxForce(neg) }
		}
	case 14:
		if j != nil {
			return fmt.Sprintf("SetMaxBias(%v)", neg), func() { j.SetMaxBias(neg) }
		}
	case 15:
		if j != nil {
			return fmt.Sprintf("SetErrorBias(%v)", neg), func() { j.SetErrorBias(neg) }
		}
	case 16:
		if x != nil {
			return fmt.Sprintf("SetFriction(%v)", neg), func() { x.SetFriction(neg) }
		}
	case 17:
		if x != nil {
			return fmt.Sprintf("SetElasticity(%v)", neg), func() { x.SetElasticity(neg) }
		}
	case 18:
		return fmt.Sprintf("SetDamping(%v)", neg), func() { w.sp.SetDamping(neg) }
	case 19:
		if b != nil && b.GetType() != cp.BODY_STATIC {
			return "ActivateStatic of a body that is not static", func() { b.ActivateStatic(nil) }
		}
	case 20:
		if x != nil {
			if p, ok := x.Class.(*cp.PolyShape); ok {
				i := p.Count() + op.i(2)
				if op.i(2)%2 == 1 {
					i = -op.i(2)
				}
				return "Vert outside of the vertices", func() { p.Vert(i) }
			}
		}
	case 21:
		if arb != nil && arb.Count() > 0 { // (not in separate callbacks: there are no points)
			set := arb.ContactPointSet()
			if set.Count += 1 - 2*(op.i(2)%2); set.Count >= 0 && set.Count <= cp.MAX_CONTACTS_PER_ARBITER {
				return "SetContactPointSet with another number of points", func() { arb.SetContactPointSet(&set) }
			}
		}
	case 22:
		if locked {
			return "AddShape while the space is locked", func() { w.sp.AddShape(w.loose) }
		}
	case 23:
		if locked && x != nil {
			return "RemoveShape while the space is locked", func() { w.sp.RemoveShape(x) }
		}
	case 24:
		if locked {
			return "AddConstraint while the space is locked", func() { w.sp.AddConstraint(w.idle) }
		}
	case 25:
		if locked && j != nil {
			return "RemoveConstraint while the space is locked", func() { w.sp.RemoveConstraint(j) }
		}
	case 26:
		if locked && b != nil {
			return "RemoveBody while the space is locked", func() { w.sp.RemoveBody(b) }
		}
	case 27:
		if locked && x != nil {
			return "ReindexShape while the space is locked", func() { w.sp.ReindexShape(x) }
		}
	case 28:
		if locked && b != nil {
			t := []int{cp.BODY_DYNAMIC, cp.BODY_KINEMATIC, cp.BODY_STATIC}[op.i(2)%3]
			if t != b.GetType() {
				return "SetType while the space is locked", func() { b.SetType(t) }
			}
		}
	}
	return "", nil
}

// refused: the call panics, and it is the library that does.
func refused(f func()) (yes bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopped); ok {
				panic(e)
			}
			yes = true
		}
	}()
	f()
	return
}

func (w *misWorld) try(op *Op, locked bool, arb *cp.Arbiter) {
	what, f := w.call(op, locked, arb)
	if f == nil || !w.bad {
		return
	}
	w.s.fault("misuse")
	if arb != nil {
		w.s.fault("misuse-in-collision-callback")
	} else if locked && op.K == "armed" {
		w.s.fault("misuse-in-step")
	} else if locked {
		w.s.fault("misuse-in-query")
	}
	w.s.st.Checks["refused"]++
	if i := strings.IndexByte(what, '('); i > 0 {
		w.s.probe("refused " + what[:i])
	} else {
		w.s.probe("refused " + what)
	}
	if !refused(f) {
		w.s.fail("C28", "%s is not refused", what)
		panic(stopped{}) // what follows may not end
	}
}

// inside executes a misuse within a callback of a query or an iteration.
func (w *misWorld) inside(op *Op) {
	once := func() {
		if w.armed == op {
			w.armed = nil
			if op.i(4) > 0 {
				w.query(op.i(4))
			}
			w.try(op, true, nil)
		}
	}
	w.armed = op
	big := cp.BB{L: -1e4, B: -1e4, R: 1e4, T: 1e4}
	switch op.i(3) % 6 {
	case 0:
		w.sp.BBQuery(big, cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) { once() }, nil)
	case 1:
		w.sp.SegmentQuery(cp.Vector{X: -100, Y: 1}, cp.Vector{X: 100, Y: 1}, 2, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) { once() }, nil)
	case 2:
		w.sp.ShapeQuery(cp.NewCircle(cp.NewStaticBody(), 30, cp.Vector{}), func(*cp.Shape, *cp.ContactPointSet) { once() })
	case 3:
		w.sp.EachBody(func(*cp.Body) { once() })
	case 4:
		w.sp.EachShape(func(*cp.Shape) { once() })
	case 5:
		w.sp.EachConstraint(func(*cp.Constraint) { once() })
	}
	if w.armed == op {
		w.armed = nil
	}
}

// apart makes a small space with something in it that cannot be simulated.
func (w *misWorld) apart(op *Op) {
	if !w.bad {
		return
	}
	sp := cp.NewSpace()
	a, b := cp.NewKinematicBody(), cp.NewKinematicBody()
	a.SetPosition(cp.Vector{X: op.f(0), Y: 1})
	sp.AddBody(a)
	sp.AddBody(b)
	what, f := "", func() { sp.Step(1. / 60) }
	switch op.i(0) % 6 {
	case 0:
		what = "UpdateVelocity of a dynamic body without mass"
		c := sp.AddBody(cp.NewBody(0, 1))
		f = func() { c.UpdateVelocity(cp.Vector{}, 1, 1./60) }
		if op.i(1)%2 == 0 {
			c.SetType(cp.BODY_KINEMATIC)
			c.SetType(cp.BODY_DYNAMIC)
		}
	case 1:
		what = "a step with a spring between bodies of infinite mass"
		sp.AddConstraint(cp.NewDampedSpring(a, b, cp.Vector{}, cp.Vector{}, 1, 2, 0.5))
	case 2:
		what = "a step with a pivot joint between bodies of infinite mass"
		sp.AddConstraint(cp.NewPivotJoint(a, b, cp.Vector{}))
	case 3:
		what = "Unlock of a space that is not locked"
		f = func() { sp.Unlock(op.i(1)%2 == 0) }
	case 4:
		what = "SetStaticBody while the old one has shapes"
		sp.AddShape(cp.NewCircle(sp.StaticBody, 1, cp.Vector{}))
		f = func() { sp.SetStaticBody(cp.NewStaticBody()) }
	case 5:
		what = "AddConstraint of a constraint without a body"
		c := cp.NewRotaryLimitJoint(a, nil, 0, 1)
		if op.i(1)%2 == 0 {
			c = cp.NewRotaryLimitJoint(nil, a, 0, 1)
		}
		f = func() { sp.AddConstraint(c) }
	}
	w.s.fault("misuse-apart")
	w.s.st.Checks["refused"]++
	w.s.probe("refused " + what)
	if !refused(f) {
		w.s.fail("C28", "%s is not refused", what)
		panic(stopped{}) // what follows may not end
	}
	if op.i(0)%6 >= 4 {
		// refused before anything was done: the space still works
		sp.Step(1. / 60)
	}
}

// digest is everything that can be seen of both spaces.
func (w *misWorld) digest() uint64 {
	h := uint64(1)
	d := func(vs ...float64) {
		for _, v := range vs {
			h = mix64(h ^ math.Float64bits(v+0))
		}
	}
	see := func(sp *cp.Space) {
		d(sp.Damping(), sp.Gravity().X, sp.Gravity().Y)
		sp.EachBody(func(b *cp.Body) {
			p, v, f := b.Position(), b.Velocity(), b.Force()
			d(p.X, p.Y, v.X, v.Y, f.X, f.Y, b.Angle(), b.AngularVelocity(), b.Torque(), b.Mass(), b.Moment(), float64(b.GetType()), b2f(b.IsSleeping()), b.IdleTime())
		})
		was, sum := h, uint64(0)
		sp.EachShape(func(x *cp.Shape) { // (the order is not specified)
			bb := x.BB()
			h = 1
			d(bb.L, bb.B, bb.R, bb.T, x.Friction(), x.Elasticity(), float64(x.HashId()))
			sum += h
		})
		h = mix64(was ^ sum)
		sp.EachConstraint(func(c *cp.Constraint) {
			d(c.MaxForce(), c.MaxBias(), c.ErrorBias(), c.Class.GetImpulse())
		})
	}
	see(w.sp)
	see(w.other)
	for _, b := range append([]*cp.Body{w.oBody, w.sp.StaticBody, w.arm.Body()}, w.bodies...) {
		if b == nil {
			continue
		}
		n := 0.0
		b.EachShape(func(*cp.Shape) { n++ })
		b.EachConstraint(func(*cp.Constraint) { n += 100 })
		b.EachArbiter(func(arb *cp.Arbiter) {
			n += 10000
			set := arb.ContactPointSet()
			d(set.Normal.X, set.Normal.Y, float64(set.Count), set.Points[0].Distance, arb.TotalImpulse().X, arb.TotalImpulse().Y)
		})
		d(n, b2f(w.sp.ContainsBody(b)))
	}
	d(b2f(w.sp.ContainsShape(w.loose)), b2f(w.sp.ContainsConstraint(w.idle)), b2f(w.sp.ContainsShape(w.oShape)), b2f(w.other.ContainsBody(w.oBody)))
	return h
}

func (w *misWorld) exec(op *Op) {
	switch op.K {
	case "misuse":
		w.try(op, false, nil)
	case "inside":
		w.inside(op)
	case "armed":
		w.armed = op
	case "apart":
		w.apart(op)
	default:
		w.cycWorld.exec(op)
		switch op.K {
		case "body":
			b := w.bodies[op.i(0)%cycBodies]
			b.SetVelocityUpdateFunc(func(b *cp.Body, g cp.Vector, damping, dt float64) {
				w.at(nil, 2)
				cp.BodyUpdateVelocity(b, g, damping, dt)
			})
			b.SetPositionUpdateFunc(func(b *cp.Body, dt float64) {
				w.at(nil, 3)
				cp.BodyUpdatePosition(b, dt)
			})
		case "joint":
			if c := w.joints[op.i(1)%cycJoints]; c != nil {
				c.PreSolve = func(*cp.Constraint, *cp.Space) { w.at(nil, 4) }
				c.PostSolve = func(*cp.Constraint, *cp.Space) { w.at(nil, 5) }
			}
		}
	}
}

func misuseExplore(name, prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim) {
	r := NewRng(seed)
	q := r.Choose(0.3, 0.6, 1)
	kind := func() int {
		if r.P(0.5) {
			return 13 + r.Intn(misKinds-13)
		}
		return r.Intn(misKinds)
	}
	neg := func() float64 {
		return r.Choose(-1, -0.5, -1e-9, -1e-300, -100, -1e300, -r.Range(0, 2))
	}
	tr := cycProgram(r, name, prop, seed, func(push func(k string, i []int, f ...float64)) {
		for r.P(q) && r.P(0.7) {
			is := []int{kind(), r.Intn(cycBodies), r.Intn(cycBodies), r.Intn(6), r.Choose2(0, 0, r.Intn(5))}
			switch r.Pick([]float64{4, 3, 3, 0.3}) {
			case 0:
				push("misuse", is, neg())
			case 1:
				push("inside", is, neg())
			case 2:
				if r.P(0.2) {
					is[0] = 21
				}
				push("armed", is, neg())
				if r.P(0.3) {
					push("misuse", is, neg())
				}
			case 3:
				push("apart", is, r.Range(-5, 5))
			}
		}
	})
	s := misuseReplay(tr, st)
	s.finishRun(st, name)
	if s.viol != nil {
		tr.Violation = s.viol.String()
	}
	return tr, s
}

func misuseReplay(tr *Trace, st *Stats) *Sim {
	begin(tr)
	defer end()
	run := func(bad bool, each func(w *misWorld, i int)) *misWorld {
		w := newMisWorld(tr, bad && debugBuild, st)
		w.s.guard(func() {
			for i := range tr.Ops {
				w.s.opIdx = i
				w.exec(&tr.Ops[i])
				w.s.st.Ops++
				each(w, i)
			}
			w.s.opIdx = len(tr.Ops) - 1
			for _, sp := range []*cp.Space{w.sp, w.other} {
				for i := 0; i < 3; i++ {
					sp.Step(1. / 60)
				}
			}
			each(w, len(tr.Ops))
		})
		return w
	}
	var digs []uint64
	good := run(false, func(w *misWorld, i int) { digs = append(digs, w.digest()) })
	if good.s.viol != nil {
		return good.s
	}
	bad := run(true, func(w *misWorld, i int) {
		if w.digest() != digs[i] {
			w.s.fail("C28", "the space is not the same as without the calls that were refused")
			panic(stopped{})
		}
	})
	bad.s.digOn = true
	for _, x := range digs {
		bad.s.d(float64(x >> 11))
	}
	return bad.s
}
