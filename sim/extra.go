package main

import (
	"fmt"
	"math"
	"runtime"

	"github.com/jakecoffman/cp/v2"
)

// custom integration functions: less gravity, or half the way

func (b *BodyM) kv() float64 {
	if b.customV == 1 {
		return 0.5
	}
	return 1
}
func (b *BodyM) kp() float64 {
	if b.customP == 1 {
		return 0.5
	}
	return 1
}

func (s *Sim) setCustomV(b *BodyM) {
	b.b.SetVelocityUpdateFunc(func(x *cp.Body, g cp.Vector, damping, dt float64) {
		b.vcalls++
		b.vargs = [4]float64{g.X, g.Y, damping, dt}
		if x != b.b {
			s.fail("C15", "the velocity function of body %d was called with another body", b.id)
		}
		if b.id%2 == 0 {
			x.UpdateVelocity(g.Mult(0.5), damping, dt)
		} else {
			cp.BodyUpdateVelocity(x, g.Mult(0.5), damping, dt)
		}
	})
}

func (s *Sim) setCustomP(b *BodyM) {
	b.b.SetPositionUpdateFunc(func(x *cp.Body, dt float64) {
		b.pcalls++
		b.parg = dt
		if x != b.b {
			s.fail("C15", "the position function of body %d was called with another body", b.id)
		}
		cp.BodyUpdatePosition(x, dt*0.5)
	})
}

func (s *Sim) checkCustom(b *BodyM) {
	if b.customV == 1 {
		want := 1
		if b.post.asleep {
			want = 0
		}
		if b.vcalls != want && !b.wokeNow && !b.late && !(b.pre.asleep && b.dist) {
			s.fail("C15", "the velocity function of body %d was called %d times in a step instead of %d", b.id, b.vcalls, want)
		}
		if b.vcalls > 0 {
			s.check("custom-velocity")
			a := [4]float64{s.grav.X, s.grav.Y, math.Pow(s.damp, s.dt), s.dt}
			for i := range a {
				if !near(a[i], b.vargs[i], 1e-12) {
					s.fail("C15", "the velocity function of body %d was called with gravity, damping, dt %v instead of %v", b.id, b.vargs, a)
				}
			}
		}
	}
	if b.customP == 1 {
		if b.pcalls != 1 {
			s.fail("C15", "the position function of body %d was called %d times in a step", b.id, b.pcalls)
		} else if b.parg != s.dt {
			s.fail("C15", "the position function of body %d was called with dt %v instead of %v", b.id, b.parg, s.dt)
		}
		s.check("custom-position")
	}
}

// checkSetter checks what a setter of a body did (C15).
func (s *Sim) checkSetter(op *Op, b *BodyM, x BState) {
	if !s.on["C15"] {
		return
	}
	s.check("setter")
	y := b.state()
	w := x
	w.asleep = y.asleep
	tolP := 1e-9 * (1 + x.p.Len() + y.p.Len() + b.cogLen())
	im, ii := 1/x.m, 1/x.i
	var tv, tw float64 = 0, 0 // tolerances of velocity and spin
	switch op.K {
	case "pos":
		w.p = op.v(0)
		w.c = x.c.Add(w.p.Sub(x.p))
	case "ang":
		w.a = op.f(0)
		w.c, w.p = y.c, y.p
		// the center of gravity stays in place
		if y.c.Sub(x.c).Len() > tolP {
			s.fail("C15", "SetAngle moved the center of gravity of body %d from %v to %v", b.id, x.c, y.c)
		}
	case "vel":
		w.v = op.v(0)
	case "avel":
		w.w = op.f(0)
	case "force":
		w.f = op.v(0)
	case "torque":
		w.t = op.f(0)
	case "impW", "impL":
		j, at := op.v(0), op.v(2)
		if op.K == "impL" {
			j, at = j.Rot(x.a), at.Rot(x.a).Add(x.p)
		}
		w.v = x.v.Add(j.Mul(im))
		w.w = x.w + at.Sub(x.c).Cross(j)*ii
		tv = 1e-9 * (1 + j.Len()*im + x.v.Len())
		tw = 1e-9 * (1 + at.Sub(x.c).Len()*j.Len()*ii + math.Abs(x.w) + x.c.Len()*j.Len()*ii)
	case "forW", "forL":
		j, at := op.v(0), op.v(2)
		if op.K == "forL" {
			j, at = j.Rot(x.a), at.Rot(x.a).Add(x.p)
		}
		w.f = x.f.Add(j)
		w.t = x.t + at.Sub(x.c).Cross(j)
		tv = 1e-9 * (1 + j.Len() + x.f.Len())
		tw = 1e-9 * (1 + at.Sub(x.c).Len()*j.Len() + math.Abs(x.t) + x.c.Len()*j.Len())
	case "mass":
		w.m = op.f(0)
	case "moment":
		w.i = op.f(0)
	}
	bad := y.p.Sub(w.p).Len() > tolP || y.c.Sub(w.c).Len() > tolP || y.a != w.a || y.m != w.m || y.i != w.i ||
		y.v.Sub(w.v).Len() > tv || y.f.Sub(w.f).Len() > tv || math.Abs(y.w-w.w) > tw || math.Abs(y.t-w.t) > tw
	if bad {
		s.fail("C15", "%v of body %d changed its state from %+v to %+v instead of %+v", *op, b.id, x, y, w)
	}
	if b.typ == DYN {
		// (twice the energy: the library leaves the factor of one half out)
		ke := 0.0
		if y.v != (V{}) {
			ke = y.m * y.v.Dot(y.v)
		}
		if y.w != 0 {
			ke += y.i * y.w * y.w
		}
		if g := b.b.KineticEnergy(); g != ke && !near(g, ke, 1e-9) {
			s.fail("C15", "KineticEnergy of body %d is %v instead of %v (mass %v, moment %v, velocity %v, spin %v)", b.id, g, ke, y.m, y.i, y.v, y.w)
		}
	}
	// conversions
	r := NewRng(hashU(uint64(b.id), math.Float64bits(y.p.X+0), math.Float64bits(y.a+0)))
	q := V{r.Range(-20, 20), r.Range(-20, 20)}
	wq := q.Rot(y.a).Add(y.p)
	lim := 1e-9 * (1 + y.p.Len() + 30)
	if g := vv(b.b.LocalToWorld(cv(q))); g.Sub(wq).Len() > lim {
		s.fail("C15", "LocalToWorld(%v) of body %d at %v, angle %v is %v instead of %v", q, b.id, y.p, y.a, g, wq)
	}
	if g := vv(b.b.WorldToLocal(cv(wq))); g.Sub(q).Len() > lim {
		s.fail("C15", "WorldToLocal(%v) of body %d at %v, angle %v is %v instead of %v", wq, b.id, y.p, y.a, g, q)
	}
	if g := vv(b.b.Rotation()); g.Sub(V{1, 0}.Rot(y.a)).Len() > 1e-9 {
		s.fail("C15", "Rotation of body %d is %v at angle %v", b.id, g, y.a)
	}
	wv := y.v.Add(wq.Sub(y.c).Perp().Mul(y.w))
	lim = 1e-9 * (1 + y.v.Len() + (wq.Sub(y.c).Len()+y.p.Len())*math.Abs(y.w))
	if g := vv(b.b.VelocityAtWorldPoint(cv(wq))); g.Sub(wv).Len() > lim {
		s.fail("C15", "VelocityAtWorldPoint(%v) of body %d is %v instead of %v", wq, b.id, g, wv)
	}
	if g := vv(b.b.VelocityAtLocalPoint(cv(q))); g.Sub(wv).Len() > lim {
		s.fail("C15", "VelocityAtLocalPoint(%v) of body %d is %v instead of %v", q, b.id, g, wv)
	}
}

func (b *BodyM) cogLen() float64 { return vv(b.b.CenterOfGravity()).Len() }

// ---- post-step callbacks (C05) ----

// addPost registers a post-step callback.
func (s *Sim) addPost(h uint64) {
	r := NewRng(h)
	key := 0
	var k interface{}
	if !r.P(0.35) {
		key = r.Between(1, 5)
		switch key {
		case 1:
			k = 1
		case 2:
			k = "1"
		case 3:
			k = s.bOrder[0].b
		default:
			k = key
		}
	}
	pend, ranKey := false, false
	for _, p := range s.pcb {
		if key != 0 && p.key == key {
			if p.ran == 0 {
				pend = true
			} else {
				ranKey = true
			}
		}
	}
	if key != 0 {
		if got := s.sp.PostStepCallback(k) != nil; got && !pend && !ranKey || !got && pend {
			s.fail("C05", "PostStepCallback(%v) found one: %v, pending: %v", k, got, pend)
		}
	}
	s.pcbSeq++
	p := &PostCB{seq: s.pcbSeq, key: key, step: s.opIdx}
	data := new(int)
	*data = p.seq
	ah := r.U64()
	f := func(space *cp.Space, gk interface{}, gd interface{}) { s.runPost(p, k, data, ah, space, gk, gd) }
	if r.P(0.03) {
		f = nil
		p.ran = 1 // nothing to run, but it holds its key
		p.null = true
	}
	ok := s.sp.AddPostStepCallback(f, k, data)
	s.check("post-registered")
	switch {
	case pend && ok:
		s.fail("C05", "AddPostStepCallback accepted key %v although a callback with that key is pending", k)
	case !pend && !ranKey && !ok:
		s.fail("C05", "AddPostStepCallback rejected key %v although no callback with that key is pending", k)
	}
	if pend {
		s.probe("post-key-merged")
	}
	s.d(b2f(ok))
	if ok {
		s.pcb = append(s.pcb, p)
	}
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func (s *Sim) runPost(p *PostCB, k interface{}, data *int, h uint64, space *cp.Space, gk, gd interface{}) {
	if s.viol != nil {
		return
	}
	if s.onFlush != nil {
		f := s.onFlush
		s.onFlush = nil
		f()
	}
	if s.inStep && !s.snapped {
		s.endOfStep()
	}
	s.check("post-run")
	s.d(99, float64(p.seq))
	if space != s.sp || gk != k || gd != interface{}(data) {
		s.fail("C05", "post-step callback %d called with key %v and data %v instead of %v and %v", p.seq, gk, gd, k, data)
	}
	if p.ran > 0 {
		s.fail("C05", "post-step callback %d ran twice", p.seq)
	}
	if s.cbDepth > 0 {
		s.fail("C05", "post-step callback %d ran while a callback of a step or query was running", p.seq)
	}
	for _, q := range s.pcb {
		if q.ran == 0 && q.seq < p.seq {
			s.fail("C05", "post-step callback %d ran before callback %d, which was registered earlier", p.seq, q.seq)
		}
	}
	p.ran++
	if s.viol != nil {
		return
	}
	if s.flushing {
		s.fail("C05", "post-step callback %d ran inside another one", p.seq)
	}
	qd, rm := s.qDepth, s.removing
	s.qDepth, s.removing, s.flushing = 0, 0, true
	defer func() { s.qDepth, s.removing, s.flushing = qd, rm, false }()
	s.postActions(h)
}

// postActions do what is allowed only in post-step callbacks: change the space.
func (s *Sim) postActions(h uint64) {
	r := NewRng(h)
	if s.cfg.p("pbStruct") == 0 {
		return
	}
	for n := 0; n < 3 && s.viol == nil; n++ {
		if !r.P(s.cfg.p("pbStruct")) {
			continue
		}
		s.fault("change-in-poststep")
		switch r.Intn(9) {
		case 0, 1:
			if sh := s.pickShape(r); sh != nil && sh.in {
				s.exec1(&Op{K: "rmshape", I: []int{sh.id}})
			}
		case 2, 3:
			if sh := s.pickShape(r); sh != nil && !sh.in {
				s.exec1(&Op{K: "addshape", I: []int{sh.id}})
			}
		case 4:
			if b := s.pickBody(r); b != nil && b.in && r.P(0.5) {
				s.exec1(&Op{K: "rmbody", I: []int{b.id}})
			} else if b != nil && !b.in {
				s.exec1(&Op{K: "addbody", I: []int{b.id}})
			}
		case 5:
			if len(s.cOrder) > 0 {
				c := s.cOrder[r.Intn(len(s.cOrder))]
				if c.in {
					s.exec1(&Op{K: "rmcon", I: []int{c.id}})
				} else {
					s.exec1(&Op{K: "addcon", I: []int{c.id}})
				}
			}
		case 6:
			s.addPost(r.U64())
		case 7:
			if s.cfg.p("aQuery") > 0 {
				s.runQuery(r.U64(), true)
			}
		case 8:
			if b := s.pickBody(r); b != nil && b.in && b.typ == DYN {
				s.exec1(&Op{K: "vel", I: []int{b.id}, F: []float64{r.Range(-50, 50), r.Range(-50, 50)}})
			}
		}
	}
}

func (s *Sim) pickShape(r *Rng) *ShapeM {
	if len(s.sOrder) == 0 {
		return nil
	}
	return s.sOrder[r.Intn(len(s.sOrder))]
}
func (s *Sim) pickBody(r *Rng) *BodyM {
	if len(s.bOrder) < 2 {
		return nil
	}
	return s.bOrder[1+r.Intn(len(s.bOrder)-1)]
}

// flushCheck checks that no callback is left when an outermost step, query or iteration is over.
func (s *Sim) flushCheck() {
	if s.viol != nil || s.flushing || s.cbDepth > 0 || s.qDepth > 0 || s.removing > 0 || len(s.pcb) == 0 {
		return
	}
	for _, p := range s.pcb {
		if p.ran == 0 {
			s.fail("C05", "post-step callback %d (key %d) did not run", p.seq, p.key)
		}
	}
	s.pcb = nil
}

// ---- enumeration (C06) ----

func (s *Sim) shapesIn() []*ShapeM {
	var r []*ShapeM
	for _, x := range s.sOrder {
		if x.in {
			r = append(r, x)
		}
	}
	return r
}

// dots lists where the anchors of a constraint are drawn.
func (c *ConM) dots() []V {
	w := func(b *BodyM, l V) V { return vv(b.b.LocalToWorld(cv(l))) }
	switch c.kind {
	case JPin, JSlide, JPivot, JSpring:
		return []V{w(c.a, c.la), w(c.b, c.lb)}
	case JGroove:
		return []V{w(c.b, V{c.g(4), c.g(5)})}
	}
	return nil
}

func (c *ConM) g(i int) float64 {
	if i < len(c.f) {
		return c.f[i]
	}
	return 0
}

// sameSet compares two sets of ids (a multiset in got).
func (s *Sim) sameSet(what, noun string, got map[int]int, want map[int]bool, unknown int) {
	s.check("enumeration")
	s.sameSetOf("C06", what, noun, got, want, unknown)
}

func (s *Sim) sameSetOf(prop, what, noun string, got map[int]int, want map[int]bool, unknown int) {
	if unknown > 0 {
		s.fail(prop, "%s visited %d %s that were never added", what, unknown, noun)
	}
	for id, n := range got {
		if !want[id] {
			s.fail(prop, "%s visited %s %d, which is not there", what, noun, id)
		} else if n != 1 {
			s.fail(prop, "%s visited %s %d %d times", what, noun, id, n)
		}
	}
	for id := range want {
		if got[id] == 0 {
			s.fail(prop, "%s did not visit %s %d", what, noun, id)
		}
	}
}

func (s *Sim) enter() { s.qDepth++; s.cbDepth++ }
func (s *Sim) leave() { s.qDepth--; s.cbDepth-- }

// runEach enumerates something and compares it with the model.
func (s *Sim) runEach(h uint64) {
	if s.viol != nil {
		return
	}
	r := NewRng(h)
	if s.qDepth > 4 {
		return
	}
	k := r.Intn(9)
	nested := func(i int) {
		s.actions(30, hashU(h, uint64(i)), nil, nil)
	}
	got := map[int]int{}
	want := map[int]bool{}
	unk := 0
	n := 0
	switch k {
	case 0, 1:
		for _, b := range s.bOrder {
			if b.in && b.id != 0 {
				want[b.id] = true
			}
		}
		wake := r.P(0.5) && s.cfg.p("aWake") > 0
		s.sp.EachBody(func(x *cp.Body) {
			b := s.byBody[x]
			if b == nil {
				unk++
				return
			}
			got[b.id]++
			s.d(float64(b.id))
			s.enter()
			if wake && b.in && b.typ == DYN && b.sleeping() && r.P(0.5) {
				s.fault("wake-in-iteration")
				s.execBody(&Op{K: "activate", I: []int{b.id}})
			}
			n++
			nested(n)
			s.leave()
		})
		s.sameSet("EachBody", "body", got, want, unk)
		s.flushCheck()
	case 2:
		for _, x := range s.shapesIn() {
			want[x.id] = true
		}
		s.sp.EachShape(func(x *cp.Shape) {
			m := s.byShp[x]
			if m == nil {
				unk++
				return
			}
			got[m.id]++
			s.d(float64(m.id))
			s.enter()
			n++
			nested(n)
			s.leave()
		})
		s.sameSet("EachShape", "shape", got, want, unk)
		s.flushCheck()
	case 3:
		for _, c := range s.cOrder {
			if c.in {
				want[c.id] = true
			}
		}
		s.sp.EachConstraint(func(x *cp.Constraint) {
			m := s.byCon[x]
			if m == nil {
				unk++
				return
			}
			got[m.id]++
			s.d(float64(m.id))
			s.enter()
			n++
			if s.cfg.p("aWake") > 0 && m.a.sleeping() && r.P(0.3) {
				s.fault("wake-in-iteration")
				s.execBody(&Op{K: "activate", I: []int{m.a.id}})
			}
			nested(n)
			s.leave()
		})
		s.sameSet("EachConstraint", "constraint", got, want, unk)
		s.flushCheck()
	case 4:
		d := &recDrawer{}
		cp.DrawSpace(s.sp, d)
		for _, x := range s.shapesIn() {
			want[x.id] = true
		}
		for _, x := range d.shapes {
			if m := s.byShp[x]; m != nil {
				got[m.id]++
			} else {
				unk++
			}
		}
		s.sameSet("DrawSpace", "shape", got, want, unk)
		left := []V{}
		for _, q := range d.dots {
			left = append(left, q.a)
		}
		total := 0
		for _, c := range s.cOrder {
			if !c.in {
				continue
			}
			for _, p := range c.dots() {
				total++
				best, bd := -1, 1e-6*(1+p.Len())
				for i, q := range left {
					if e := q.Sub(p).Len(); e < bd {
						best, bd = i, e
					}
				}
				if best < 0 {
					s.fail("C06", "DrawSpace did not draw the anchor %v of constraint %d", p, c.id)
					return
				}
				left = append(left[:best], left[best+1:]...)
			}
		}
		if len(left) > 0 {
			s.fail("C06", "DrawSpace drew %d anchors, the constraints have %d", len(d.dots), total)
		}
		s.probe("draw")
		s.evalDraw()
	case 5, 6:
		b := s.bOrder[r.Intn(len(s.bOrder))]
		rm := r.P(0.3) && !s.locked() && s.cfg.p("pbStruct") > 0
		if k == 5 {
			for id := range b.shapes {
				want[id] = true
			}
			b.b.EachShape(func(x *cp.Shape) {
				m := s.byShp[x]
				if m == nil {
					unk++
					return
				}
				got[m.id]++
				if rm && m.in && r.P(0.5) {
					s.fault("remove-in-iteration")
					s.rmShape(m)
				}
			})
			s.sameSet(fmt.Sprintf("Body.EachShape of body %d", b.id), "shape", got, want, unk)
			return
		}
		for id := range b.cons {
			want[id] = true
		}
		b.b.EachConstraint(func(x *cp.Constraint) {
			m := s.byCon[x]
			if m == nil {
				unk++
				return
			}
			got[m.id]++
			if rm && m.in && r.P(0.5) {
				s.fault("remove-in-iteration")
				s.rmCon(m)
			}
		})
		s.sameSet(fmt.Sprintf("Body.EachConstraint of body %d", b.id), "constraint", got, want, unk)
	case 8:
		// a section locked by the user
		full := r.P(0.7)
		depth := r.Between(1, 2)
		for i := 0; i < depth; i++ {
			s.sp.Lock()
			s.enter()
		}
		for n < 3 {
			if b := s.bOrder[r.Intn(len(s.bOrder))]; s.cfg.p("aWake") > 0 && b.in && b.typ == DYN && b.sleeping() && r.P(0.5) {
				s.fault("wake-in-iteration")
				s.execBody(&Op{K: "activate", I: []int{b.id}})
			}
			n++
			nested(n)
		}
		for i := 0; i < depth; i++ {
			s.leave()
			s.sp.Unlock(full || i < depth-1)
		}
		s.probe("user-lock")
		if full {
			s.flushCheck()
		} else if len(s.pcb) > 0 {
			s.probe("user-lock-keeps-callbacks")
		}
	case 7:
		s.check("contains")
		for _, b := range s.bOrder {
			if s.sp.ContainsBody(b.b) != b.in {
				s.fail("C06", "ContainsBody of body %d is %v", b.id, !b.in)
			}
		}
		for _, x := range s.sOrder {
			if s.sp.ContainsShape(x.s) != x.in || (x.s.Space() == s.sp) != x.in {
				s.fail("C06", "ContainsShape or Space of shape %d does not match its presence (%v)", x.id, x.in)
			}
		}
		for _, c := range s.cOrder {
			if s.sp.ContainsConstraint(c.c) != c.in {
				s.fail("C06", "ContainsConstraint of constraint %d is %v", c.id, !c.in)
			}
		}
	}
}

// ---- faults of the environment ----

var sink [][]byte
var spaces []*cp.Space

func faultGC(n int) {
	for i := 0; i <= n%3; i++ {
		runtime.GC()
	}
}

// faultGarbage shifts memory addresses and pool contents by allocating garbage, and by building and dropping spaces.
func faultGarbage(seed uint64) {
	r := NewRng(seed)
	for i := 0; i < 20; i++ {
		b := make([]byte, 1<<r.Between(3, 12))
		if r.P(0.2) {
			sink = append(sink, b)
		}
	}
	if len(sink) > 200 {
		sink = sink[100:]
	}
	if r.P(0.5) {
		sp := cp.NewSpace()
		sp.SetGravity(cp.Vector{X: 0, Y: -100})
		for i := 0; i < r.Between(1, 6); i++ {
			b := sp.AddBody(cp.NewBody(1, 1))
			b.SetPosition(cp.Vector{X: r.Range(-3, 3), Y: r.Range(-3, 3)})
			sp.AddShape(cp.NewCircle(b, r.Range(0.5, 3), cp.Vector{}))
		}
		for i := 0; i < r.Intn(4); i++ {
			sp.Step(1.0 / 60)
		}
		if r.P(0.3) {
			spaces = append(spaces, sp)
			if len(spaces) > 20 {
				spaces = spaces[10:]
			}
		}
	}
}

func (s *Sim) execExtra(op *Op) bool { return false }
