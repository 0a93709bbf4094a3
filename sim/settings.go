package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

// Settings (C25): whatever the user set on a space, body, shape or joint reads back as set, after any history.

func (s *Sim) evalSettings() {
	if !s.on["C25"] || s.viol != nil {
		return
	}
	s.check("settings")
	sp := s.sp
	if sp.Gravity() != cv(s.grav) || sp.Damping() != s.damp || sp.Iterations != uint(s.iter) || sp.IdleSpeedThreshold != s.idle {
		s.fail("C25", "gravity, damping, iterations, idle speed of the space are %v %v %v %v, set were %v %v %v %v", sp.Gravity(), sp.Damping(), sp.Iterations, sp.IdleSpeedThreshold, s.grav, s.damp, s.iter, s.idle)
	}
	if s.sleep > 0 && sp.SleepTimeThreshold != s.sleep || s.sleep == 0 && sp.SleepTimeThreshold < cp.INFINITY {
		s.fail("C25", "the sleep time threshold is %v, set was %v (0: off)", sp.SleepTimeThreshold, s.sleep)
	}
	dt := s.prevDt
	if s.inStep && s.dt > 0 {
		dt = s.dt
	}
	if sp.TimeStep() != dt {
		s.fail("C25", "TimeStep is %v, the last step had %v", sp.TimeStep(), dt)
	}
	if sp.StaticBody != s.bOrder[0].b {
		s.fail("C25", "the static body of the space was replaced")
	}
	for _, b := range s.bOrder {
		if b.moved {
			continue
		}
		x := b.b
		if x.GetType() != b.typ {
			s.fail("C25", "body %d has type %d, set was %d", b.id, x.GetType(), b.typ)
		}
		if x.UserData != b.id {
			s.fail("C25", "body %d has UserData %v", b.id, x.UserData)
		}
		if b.typ != DYN && !(x.Mass() >= cp.INFINITY && x.Moment() >= cp.INFINITY) {
			s.fail("C25", "body %d is not dynamic, but has mass %v and moment %v", b.id, x.Mass(), x.Moment())
		}
		if b.typ == DYN && b.ownMass && (x.Mass() != b.m0 || x.Moment() != b.i0) {
			s.fail("C25", "body %d has mass %v and moment %v, set were %v and %v", b.id, x.Mass(), x.Moment(), b.m0, b.i0)
		}
		if b.typ == STAT && (x.Velocity() != cp.Vector{} || x.AngularVelocity() != 0) {
			s.fail("C25", "static body %d has velocity %v, %v", b.id, x.Velocity(), x.AngularVelocity())
		}
	}
	for _, sh := range s.sOrder {
		if !sh.bm.moved {
			s.shapeSettings(sh)
		}
	}
	for _, c := range s.cOrder {
		if c.a.moved || c.b.moved {
			continue
		}
		x := c.c
		if x.UserData != c.id {
			s.fail("C25", "constraint %d has UserData %v", c.id, x.UserData)
		}
		if !(x.MaxForce() == c.maxF) || !(x.MaxBias() == c.mb || x.MaxBias() >= cp.INFINITY && c.mb >= cp.INFINITY) || math.Abs(x.ErrorBias()-c.eb) > 1e-15 {
			s.fail("C25", "constraint %d has MaxForce, MaxBias, ErrorBias %v %v %v, set were %v %v %v", c.id, x.MaxForce(), x.MaxBias(), x.ErrorBias(), c.maxF, c.mb, c.eb)
		}
		s.jointSettings(c)
	}
}

func (s *Sim) shapeSettings(sh *ShapeM) {
	x := sh.s
	if x.Friction() != sh.u || x.Elasticity() != sh.e || x.Sensor() != sh.sensor || x.UserData != sh.id {
		s.fail("C25", "shape %d has friction, elasticity, sensor, UserData %v %v %v %v, set were %v %v %v %v", sh.id, x.Friction(), x.Elasticity(), x.Sensor(), x.UserData, sh.u, sh.e, sh.sensor, sh.id)
	}
	if f := x.Filter; f.Group != sh.group || f.Categories != sh.cat || f.Mask != sh.mask {
		s.fail("C25", "shape %d has filter %+v, set were %v %v %v", sh.id, f, sh.group, sh.cat, sh.mask)
	}
	if x.Body() != sh.bm.b {
		s.fail("C25", "shape %d belongs to another body", sh.id)
	}
	if !near(x.Mass(), sh.mass, 1e-12) {
		s.fail("C25", "shape %d has mass %v, set was %v", sh.id, x.Mass(), sh.mass)
	}
	if a := sh.area(); !sh.staleI && !near(x.Area(), a, 1e-9) {
		s.fail("C25", "shape %d has area %v instead of %v", sh.id, x.Area(), a)
	} else if !sh.staleI && a > 1e-9 && !near(x.Density(), sh.mass/a, 1e-9) {
		s.fail("C25", "shape %d has density %v instead of %v", sh.id, x.Density(), sh.mass/a)
	}
	if k, q := sh.inertia(); !sh.staleI && (!near(x.Moment(), sh.mass*k, 1e-7*(1+sh.mass*(k+q.Dot(q)))) || vv(x.CenterOfGravity()).Sub(q).Len() > 1e-7*(1+q.Len())) {
		s.fail("C25", "shape %d has moment %v and center of gravity %v instead of %v and %v", sh.id, x.Moment(), x.CenterOfGravity(), sh.mass*k, q)
	}
	// geometry, in the coordinates of the body and in the world as last indexed
	sc := 1e-9
	for _, p := range sh.local {
		sc += 1e-9 * p.Len()
	}
	at := func(a cp.Vector, b V) bool { return vv(a).Sub(b).Len() <= sc }
	world := sh.in && !sh.dirty
	ws := 1e-9 * (1 + sh.r)
	for _, p := range sh.idx.P {
		ws += 1e-9 * p.Len()
	}
	in := func(a cp.Vector, b V) bool { return vv(a).Sub(b).Len() <= sc+ws }
	p, q := sh.local, sh.idx.P
	switch c := x.Class.(type) {
	case *cp.Circle:
		if c.Radius() != sh.r {
			s.fail("C25", "circle %d has radius %v, set was %v", sh.id, c.Radius(), sh.r)
		}
		if world && !in(c.TransformC(), q[0]) {
			s.fail("C25", "circle %d has its center at %v instead of %v", sh.id, c.TransformC(), q[0])
		}
	case *cp.Segment:
		if c.Radius() != sh.r || !at(c.A(), p[0]) || !at(c.B(), p[1]) {
			s.fail("C25", "segment %d has ends %v %v and radius %v, set were %v and %v", sh.id, c.A(), c.B(), c.Radius(), p, sh.r)
		}
		if d := p[1].Sub(p[0]); d.Len() > 1e-6 && (math.Abs(d.Dot(vv(c.Normal()))) > 1e-9*d.Len() || math.Abs(c.Normal().Length()-1) > 1e-9) {
			s.fail("C25", "segment %d from %v to %v has normal %v", sh.id, p[0], p[1], c.Normal())
		}
		if world && (!in(c.TransformA(), q[0]) || !in(c.TransformB(), q[1])) {
			s.fail("C25", "segment %d lies from %v to %v instead of %v", sh.id, c.TransformA(), c.TransformB(), q)
		}
	case *cp.PolyShape:
		n := len(p)
		if c.Radius() != sh.r || c.Count() != n {
			s.fail("C25", "polygon %d has %d vertices and radius %v, set were %d and %v", sh.id, c.Count(), c.Radius(), n, sh.r)
			return
		}
		// the hull may begin elsewhere
		k := 0
		for k < n && !at(c.Vert(0), p[k]) {
			k++
		}
		for i := 0; i < n; i++ {
			j := (i + k) % n
			if !at(c.Vert(i), p[j]) {
				s.fail("C25", "polygon %d has vertex %v, set were %v", sh.id, c.Vert(i), p)
				return
			}
			if world && !in(c.TransformVert(i), q[j]) {
				s.fail("C25", "polygon %d has vertex %d at %v instead of %v", sh.id, i, c.TransformVert(i), q[j])
				return
			}
		}
	}
	if world {
		g, b := sh.idx.BB(), x.BB()
		if math.Abs(g.L-b.L) > sc+ws || math.Abs(g.B-b.B) > sc+ws || math.Abs(g.R-b.R) > sc+ws || math.Abs(g.T-b.T) > sc+ws {
			s.fail("C25", "shape %d has bounding box %v instead of %v", sh.id, b, g)
		}
		s.check("placement")
	}
}

func (s *Sim) jointSettings(c *ConM) {
	ok := true
	eq := func(a float64, b float64) { ok = ok && a == b }
	at := func(a cp.Vector, b V) { ok = ok && vv(a).Sub(b).Len() <= 1e-9*(1+b.Len()) }
	switch j := c.c.Class.(type) {
	case *cp.PinJoint:
		at(j.AnchorA, c.la)
		at(j.AnchorB, c.lb)
		ok = ok && near(j.Dist, c.dist0, 1e-9)
	case *cp.SlideJoint:
		at(j.AnchorA, c.la)
		at(j.AnchorB, c.lb)
		eq(j.Min, c.g(4))
		eq(j.Max, c.g(5))
	case *cp.PivotJoint:
		ok = ok && vv(j.AnchorA).Sub(c.la).Len()+vv(j.AnchorB).Sub(c.lb).Len() <= 1e-9*(1+c.la.Len()+c.lb.Len()+sizeOf(c.f))
	case *cp.GrooveJoint:
		at(j.GrooveA, V{c.g(0), c.g(1)})
		at(j.GrooveB, V{c.g(2), c.g(3)})
		at(j.AnchorB, V{c.g(4), c.g(5)})
		d := V{c.g(2) - c.g(0), c.g(3) - c.g(1)}
		ok = ok && math.Abs(d.Dot(vv(j.GrooveN))) <= 1e-9*d.Len() && math.Abs(j.GrooveN.Length()-1) < 1e-9
	case *cp.RotaryLimitJoint:
		eq(j.Min, c.g(0))
		eq(j.Max, c.g(1))
	case *cp.RatchetJoint:
		eq(j.Phase, c.g(0))
		eq(j.Ratchet, c.g(1))
	case *cp.SimpleMotor:
		eq(j.Rate, c.g(0))
	case *cp.DampedSpring:
		at(j.AnchorA, c.la)
		at(j.AnchorB, c.lb)
		eq(j.RestLength, c.g(4))
		eq(j.Stiffness, c.g(5))
		eq(j.Damping, c.g(6))
	case *cp.DampedRotarySpring:
		eq(j.RestAngle, c.g(0))
		eq(j.Stiffness, c.g(1))
		eq(j.Damping, c.g(2))
	}
	if !ok {
		s.fail("C25", "constraint %d (kind %d) is %+v, its settings were %v (anchors %v %v, length %v)", c.id, c.kind, c.c.Class, c.f, c.la, c.lb, c.dist0)
	}
}
