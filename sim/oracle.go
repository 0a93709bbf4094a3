package main

import (
	"math"
)

// Oracles on the dynamics of a step that need no dedicated scenario: momentum of closed components (C10), isolated
// contacts (C11), isolated joints (C13), penetration correction (C14) and mass bookkeeping (C18).

// comp is a set of bodies connected by solved contacts and joints.
type comp struct {
	bodies []*BodyM // dynamic ones
	m      []float64
	pairs  []*Pair
	cons   []*ConM
	ext    bool // a static or kinematic body takes part
	bad    bool // something about it is not known
	corr   *corrExp
	stepNo int
}

// corrExp is the penetration correction the next step has to apply.
type corrExp struct {
	a, b *BodyM
	n    V
	rate float64 // speed along n
}

// free is the velocity of a dynamic body after the step without contacts and joints.
func (s *Sim) free(b *BodyM) (V, float64) {
	x := &b.pre
	if b.typ == STAT {
		return V{}, 0
	}
	if b.typ == KIN {
		return b.post.v, b.post.w
	}
	damp := math.Pow(s.damp, s.dt)
	v := x.v.Mul(damp).Add(s.grav.Mul(b.kv() * s.dt)).Add(x.f.Mul(s.dt / x.m))
	return v, x.w*damp + x.t/x.i*s.dt
}

func (s *Sim) components() []*comp {
	adj := map[*BodyM][]*BodyM{}
	bad := map[*BodyM]bool{}
	ext := map[*BodyM]bool{}
	link := func(a, b *BodyM) {
		adj[a] = append(adj[a], b)
		adj[b] = append(adj[b], a)
		if a.typ != DYN {
			ext[b] = true
		}
		if b.typ != DYN {
			ext[a] = true
		}
	}
	sorted := s.sortedPairs()
	for _, p := range sorted {
		if p.solved {
			link(p.a.bm, p.b.bm)
		}
		if p.st == 2 || p.st == 1 && p.ign == 2 {
			bad[p.a.bm], bad[p.b.bm] = true, true
		}
	}
	for _, c := range s.cOrder {
		if c.in {
			link(c.a, c.b)
			if c.poked {
				bad[c.a], bad[c.b] = true, true
			}
		}
	}
	done := map[*BodyM]*comp{}
	var all []*comp
	for _, b := range s.bOrder {
		if !b.in || b.typ != DYN || done[b] != nil {
			continue
		}
		c := &comp{stepNo: s.stepNo}
		l := []*BodyM{b}
		done[b] = c
		for i := 0; i < len(l); i++ {
			x := l[i]
			c.bodies = append(c.bodies, x)
			c.m = append(c.m, x.pre.m)
			c.ext = c.ext || ext[x]
			c.bad = c.bad || bad[x] || x.poked || x.wokeNow || x.late || x.pre.asleep || x.post.asleep || x.pre.m != x.post.m
			for _, o := range adj[x] {
				if o.typ == DYN && done[o] == nil {
					done[o] = c
					l = append(l, o)
				}
				c.bad = c.bad || o.poked || o.late
			}
		}
		all = append(all, c)
	}
	of := func(a, b *BodyM) *comp {
		if c := done[a]; c != nil && a.typ == DYN {
			return c
		}
		return done[b]
	}
	for _, p := range sorted {
		if p.solved {
			if c := of(p.a.bm, p.b.bm); c != nil {
				c.pairs = append(c.pairs, p)
			}
		}
	}
	for _, k := range s.cOrder {
		if k.in {
			if c := of(k.a, k.b); c != nil {
				c.cons = append(c.cons, k)
			}
		}
	}
	return all
}

// evalDynamics runs the oracles on components.
func (s *Sim) evalDynamics() {
	if !s.on["C10"] && !s.on["C11"] && !s.on["C13"] && !s.on["C14"] && !s.on["C12"] && !s.on["C24"] {
		return
	}
	if s.on["C10"] || s.on["C14"] {
		for _, c := range s.comps {
			s.checkCorrection(c)
		}
	}
	s.comps = s.components()
	post := map[pairKey]*Event{}
	for _, e := range s.ev {
		if e.kind == EvPost && e.inStep {
			post[mkKey(e.s1.id, e.s2.id)] = e
		}
	}
	for _, c := range s.comps {
		if c.bad {
			continue
		}
		s.checkMomentum(c, post)
		if len(c.pairs) == 1 && len(c.cons) == 0 && len(c.bodies) <= 2 {
			s.isolatedContact(c, c.pairs[0], post[c.pairs[0].key])
		}
		if len(c.cons) == 1 && len(c.pairs) == 0 && len(c.bodies) <= 2 {
			s.isolatedJoint(c.cons[0])
		}
		for _, b := range c.bodies {
			s.frictionless(b, c, post)
		}
	}
	for k, e := range post {
		if p := s.pairs[k]; p != nil {
			p.muLast = e.s1.u * e.s2.u
		}
	}
}

var angularJoint = map[int]bool{JPin: true, JSlide: true, JSpring: true, JRotLimit: true, JRatchet: true, JMotor: true, JRotSpring: true}

func (s *Sim) checkMomentum(c *comp, post map[pairKey]*Event) {
	if c.ext || len(c.bodies) < 2 || !s.on["C10"] {
		return
	}
	var dp V
	mag, dl, lmag, reach := 0.0, 0.0, 0.0, 0.0
	ctr := c.bodies[0].post.c
	for _, b := range c.bodies {
		fv, fw := s.free(b)
		d := b.post.v.Sub(fv).Mul(b.pre.m)
		dp = dp.Add(d)
		r := b.post.c.Sub(ctr)
		reach = math.Max(reach, r.Len()+b.reach())
		mag += b.pre.m * (b.pre.v.Len() + b.post.v.Len() + fv.Len())
		dl += r.Cross(d) + b.pre.i*(b.post.w-fw)
		lmag += b.pre.i * (math.Abs(b.pre.w) + math.Abs(b.post.w) + math.Abs(fw))
	}
	s.check("momentum")
	s.maxErr("c10-linear", dp.Len()/(mag+1e-9))
	if dp.Len() > 1e-8*mag+1e-9 {
		s.fail("C10", "the total momentum of %d bodies connected by %d contacts and %d joints changed by %v in a step", len(c.bodies), len(c.pairs), len(c.cons), dp)
		return
	}
	for _, p := range c.pairs {
		if p.a.u*p.b.u != 0 || !p.fresh || p.a.dirty || p.b.dirty || s.overridden(p) {
			return
		}
	}
	for _, k := range c.cons {
		if !angularJoint[k.kind] {
			return
		}
	}
	s.check("angular-momentum")
	t := lmag + mag*reach
	s.maxErr("c10-angular", math.Abs(dl)/(t+1e-9))
	if math.Abs(dl) > 1e-7*t+1e-8 {
		s.fail("C10", "the total angular momentum of %d bodies connected by %d frictionless contacts and %d joints changed by %v in a step (%v)", len(c.bodies), len(c.pairs), len(c.cons), dl, t)
	}
}

// checkCorrection checks how the step moved what a component of the step before held.
func (s *Sim) checkCorrection(c *comp) {
	if c.bad || c.stepNo != s.stepNo-1 {
		return
	}
	for i, b := range c.bodies {
		if !b.in || b.typ != DYN || b.pre.m != c.m[i] || b.pre.asleep || b.customP != 0 || (b.typ == DYN && !b.wasBias) {
			return
		}
	}
	if !c.ext && len(c.bodies) > 1 && s.on["C10"] {
		var d V
		mag := 0.0
		for _, b := range c.bodies {
			d = d.Add(b.post.c.Sub(b.pre.c.Add(b.pre.v.Mul(s.dt))).Mul(b.pre.m))
			mag += b.pre.m * (1 + b.pre.c.Len() + b.post.c.Len())
		}
		s.check("mass-center")
		s.maxErr("c10-center", d.Len()/mag)
		if d.Len() > 1e-9*mag {
			s.fail("C10", "penetration correction moved the common center of mass of %d bodies by %v (times their mass)", len(c.bodies), d)
		}
	}
	if k := c.corr; k != nil && s.on["C14"] {
		at := func(b *BodyM) V {
			if b.typ == DYN {
				return b.post.c.Sub(b.pre.c.Add(b.pre.v.Mul(s.dt)))
			}
			return V{}
		}
		for _, b := range []*BodyM{k.a, k.b} {
			if b.customP != 0 || !b.in {
				return
			}
		}
		got := at(k.b).Sub(at(k.a)).Dot(k.n)
		want := k.rate * s.dt
		s.check("correction")
		s.maxErr("c14-correction", math.Abs(got-want))
		if math.Abs(got-want) > 1e-7*(1+math.Abs(want)+k.a.post.c.Len()*1e-2) {
			s.fail("C14", "bodies %d and %d were pushed apart by %v in a step instead of %v", k.a.id, k.b.id, got, want)
		}
	}
}

// frictionless: a body touched only by frictionless contacts is pushed along their normals only (C11).
func (s *Sim) frictionless(b *BodyM, c *comp, post map[pairKey]*Event) {
	if !s.on["C11"] && !s.on["C24"] || len(b.cons) > 0 {
		return
	}
	var n V
	cnt := 0
	over := false
	for _, p := range c.pairs {
		if p.a.bm != b && p.b.bm != b {
			continue
		}
		e := post[p.key]
		if e == nil || p.a.u*p.b.u != 0 || !p.fresh {
			return
		}
		n = e.n
		cnt++
		over = s.overridden(p)
	}
	if cnt != 1 {
		return
	}
	fv, _ := s.free(b)
	d := b.post.v.Sub(fv)
	s.check("frictionless")
	if math.Abs(d.Cross(n)) > 1e-8*(1+d.Len()+b.pre.v.Len()) {
		if over {
			s.fail("C24", "a frictionless contact changed the velocity of body %d by %v, a callback set its normal to %v", b.id, d, n)
		}
		s.fail("C11", "a frictionless contact changed the velocity of body %d by %v, its normal is %v", b.id, d, n)
	}
}

func vel(b *BodyM, v V, w float64, at V) V {
	if b.typ == STAT {
		return V{}
	}
	return v.Add(at.Sub(b.post.c).Perp().Mul(w))
}

// isolatedContact: two bodies that touch nothing else (C11).
func (s *Sim) isolatedContact(c *comp, p *Pair, e *Event) {
	if e == nil || !p.fresh || p.a.dirty || p.b.dirty || e.cnt < 1 {
		return
	}
	a, b := e.s1.bm, e.s2.bm
	if a.typ == KIN && a.poked || b.typ == KIN && b.poked {
		return
	}
	fail := func(f string, a ...interface{}) {
		if s.overridden(p) {
			s.fail("C24", f+" (the contacts were replaced in a callback)", a...)
		}
		s.fail("C11", f, a...)
	}
	mu, el := e.s1.u*e.s2.u, e.s1.e*e.s2.e
	n := e.n
	fa, fwa := s.free(a)
	fb, fwb := s.free(b)
	central := true
	sp := 1.0
	for i := 0; i < e.cnt; i++ {
		for k, x := range []*BodyM{a, b} {
			if x.typ == DYN && math.Abs(e.r[i][k].Sub(x.post.c).Cross(n)) > 1e-9*(1+x.post.c.Len()) {
				central = false
			}
		}
	}
	for _, x := range []*BodyM{a, b} {
		sp += x.pre.v.Len() + x.post.v.Len() + (math.Abs(x.pre.w)+math.Abs(x.post.w))*(1+x.reach())
	}
	if e.cnt == 1 {
		ra, rb := e.r[0][0], e.r[0][1]
		pre := vel(b, b.pre.v, b.pre.w, rb).Sub(vel(a, a.pre.v, a.pre.w, ra))
		fr := vel(b, fb, fwb, rb).Sub(vel(a, fa, fwa, ra))
		got := vel(b, b.post.v, b.post.w, rb).Sub(vel(a, a.post.v, a.post.w, ra))
		if mu == 0 && p.muLast == 0 || central {
			want := math.Max(fr.Dot(n), -el*pre.Dot(n))
			s.check("restitution")
			if el > 0 && pre.Dot(n) < -1 {
				s.probe("bounce")
			}
			s.maxErr("c11-restitution", math.Abs(got.Dot(n)-want)/sp)
			if math.Abs(got.Dot(n)-want) > 1e-7*sp {
				fail("shapes %d and %d approached at %v (elasticity %v) and separate at %v instead of %v", e.s1.id, e.s2.id, -pre.Dot(n), el, got.Dot(n), want)
			}
		}
		if central && mu > 0 {
			// Coulomb
			t := n.Perp()
			vt := got.Dot(t) + e.s2.sv.Sub(e.s1.sv).Dot(t)
			jn, jt := -e.j.Dot(n), -e.j.Dot(t)
			s.check("friction")
			lim := mu * math.Max(jn, 0)
			switch {
			case math.Abs(jt) < lim*(1-1e-6)-1e-9:
				s.probe("friction-stick")
				if math.Abs(vt) > 1e-7*sp {
					fail("shapes %d and %d slide at %v though the friction impulse %v is below its limit %v", e.s1.id, e.s2.id, vt, math.Abs(jt), lim)
				}
			case jt*vt > 1e-7*sp*math.Abs(jt):
				fail("friction drives the sliding of shapes %d and %d: impulse %v, speed %v", e.s1.id, e.s2.id, jt, vt)
			default:
				s.probe("friction-slide")
			}
		}
		// penetration correction: no friction and one contact make it exact in one iteration
		if depth := -e.dist[0]; central && c.corr == nil {
			coef := 1 - math.Pow(math.Pow(0.9, 60), s.dt)
			c.corr = &corrExp{a, b, n, coef * math.Max(0, depth-s.slop) / s.dt}
		}
	} else if s.iter >= 8 && mu == 0 {
		worst := 0.0
		for i := 0; i < e.cnt; i++ {
			ra, rb := e.r[i][0], e.r[i][1]
			pre := vel(b, b.pre.v, b.pre.w, rb).Sub(vel(a, a.pre.v, a.pre.w, ra)).Dot(n)
			got := vel(b, b.post.v, b.post.w, rb).Sub(vel(a, a.post.v, a.post.w, ra)).Dot(n)
			worst = math.Max(worst, -el*pre-got)
		}
		s.maxErr("c11-two-points", worst/sp)
	}
}

// isolatedJoint: two bodies connected by one joint and nothing else (C13, C12).
func (s *Sim) isolatedJoint(c *ConM) {
	a, b := c.a, c.b
	if a.typ == KIN && a.poked || b.typ == KIN && b.poked {
		return
	}
	if !s.on["C13"] && !s.on["C12"] {
		return
	}
	dt := s.dt
	fa, fwa := s.free(a)
	fb, fwb := s.free(b)
	imp := math.Abs(c.c.Class.GetImpulse())
	x, y := &b.post, &a.post
	f := c.f
	g := func(i int) float64 { return c.g(i) }
	coef := 1 - math.Pow(c.eb, dt)
	clamp := func(v float64) float64 { return math.Max(-c.mb, math.Min(c.mb, v)) }
	jmax := c.maxF * dt
	_ = f
	// momentum changes
	dpA, dpB := a.post.v.Sub(fa).Mul(a.pre.m), b.post.v.Sub(fb).Mul(b.pre.m)
	dlA, dlB := (a.post.w-fwa)*a.pre.i, (b.post.w-fwb)*b.pre.i
	sz := 0.0 // sizes for tolerances
	lsz := 0.0
	for _, q := range []*BodyM{a, b} {
		if q.typ == DYN {
			sz += q.pre.m * (1 + q.pre.v.Len() + q.post.v.Len())
			lsz += q.pre.i * (1 + math.Abs(q.pre.w) + math.Abs(q.post.w))
		}
	}
	lin := c.kind == JPin || c.kind == JSlide || c.kind == JPivot || c.kind == JGroove || c.kind == JSpring
	anchors := func() (ra, rb V) {
		return c.anchors()
	}
	sp := 1 + a.pre.v.Len() + b.pre.v.Len() + a.post.v.Len() + b.post.v.Len() + math.Abs(a.pre.w) + math.Abs(b.pre.w) + math.Abs(a.post.w) + math.Abs(b.post.w)
	sp *= 1 + 0.1*(sizeOf(f)+a.reach()+b.reach())
	// GetImpulse equals the momentum change
	if s.on["C13"] && !(s.damp != 1 && (c.kind == JSpring || c.kind == JRotSpring)) {
		s.check("joint-impulse")
		check := func(got, tol float64) bool {
			s.maxErr("c13-impulse", math.Abs(got-imp)/tol*1e-7)
			if math.Abs(got-imp) > tol {
				s.fail("C13", "constraint %d (kind %d) reports impulse %v, but changed the momentum by %v", c.id, c.kind, imp, got)
				return false
			}
			return true
		}
		if lin {
			for _, q := range []struct {
				b  *BodyM
				dp V
			}{{a, dpA}, {b, dpB}} {
				if q.b.typ == DYN && !check(q.dp.Len(), 1e-7*(sz+imp)) {
					return
				}
			}
		} else {
			ratio := 1.0
			if c.kind == JGear {
				ratio = 1 / g(1)
			}
			if a.typ == DYN && !check(math.Abs(dlA/ratio), 1e-7*(lsz+imp)) {
				return
			}
			if b.typ == DYN && !check(math.Abs(dlB), 1e-7*(lsz+imp)) {
				return
			}
			if a.typ == DYN && dpA.Len() > 1e-7*sz || b.typ == DYN && dpB.Len() > 1e-7*sz {
				s.fail("C13", "constraint %d (kind %d) changed linear momentum by %v, %v", c.id, c.kind, dpA, dpB)
				return
			}
		}
	}
	if s.on["C13"] && c.maxF < math.Inf(1) && c.kind != JSpring && c.kind != JRotSpring {
		tot := math.Max(dpA.Len(), dpB.Len())
		if a.typ != DYN {
			tot = dpB.Len()
		} else if b.typ != DYN {
			tot = dpA.Len()
		}
		if lin && tot > jmax*(1+1e-6)+1e-7*sz {
			s.fail("C13", "constraint %d (kind %d) changed the momentum by %v in a step, its limit is %v", c.id, c.kind, tot, jmax)
			return
		}
	}
	// the impulse acts at the anchors
	if lin && s.on["C13"] && c.kind != JGroove {
		ra, rb := anchors()
		for _, q := range []struct {
			b  *BodyM
			dp V
			dl float64
			r  V
		}{{a, dpA, dlA, ra}, {b, dpB, dlB, rb}} {
			if q.b.typ != DYN {
				continue
			}
			r := q.r.Sub(q.b.post.c)
			if math.Abs(r.Cross(q.dp)-q.dl) > 1e-6*(lsz+sz*(1+r.Len())) && !(c.kind == JSpring && s.damp != 1) {
				s.fail("C13", "constraint %d (kind %d) changed the angular momentum of body %d by %v, its impulse %v at %v gives %v", c.id, c.kind, q.b.id, q.dl, q.dp, r, r.Cross(q.dp))
				return
			}
		}
	}
	if c.kind == JGroove && s.on["C13"] {
		w := func(l V) V { return l.Rot(a.b.Angle()).Add(vv(a.b.Position())) }
		ga, gb := w(V{g(0), g(1)}), w(V{g(2), g(3)})
		_, rb := c.anchors()
		dir := gb.Sub(ga).Unit()
		along := rb.Sub(ga).Dot(dir)
		dp := dpB
		if b.typ != DYN {
			dp = dpA
		}
		if along > 1e-6 && along < gb.Sub(ga).Len()-1e-6 {
			s.check("groove-direction")
			if math.Abs(dp.Dot(dir)) > 1e-7*(sz+imp) {
				s.fail("C13", "groove joint %d: its anchor is inside the groove, but its impulse %v acts along the groove %v", c.id, dp, dir)
				return
			}
		}
	}
	// speed along the constraint
	sat := imp >= jmax*(1-1e-6)-1e-12
	if c.mb == 0 && (c.kind == JRotLimit || c.kind == JRatchet) {
		sat = true // nothing to correct with is nothing to do, for these two
	}
	tol := 1e-6 * sp
	bad := func(got, want float64) {
		s.fail("C13", "constraint %d (kind %d): relative speed %v after the step instead of %v (impulse %v of at most %v)", c.id, c.kind, got, want, imp, jmax)
	}
	relA := func(ra, rb V) V {
		return vel(b, x.v, x.w, rb).Sub(vel(a, y.v, y.w, ra))
	}
	switch c.kind {
	case JPin, JSlide:
		ra, rb := anchors()
		d := rb.Sub(ra)
		dist := d.Len()
		if dist < 1e-3 {
			return
		}
		n := d.Mul(1 / dist)
		got := relA(ra, rb).Dot(n)
		if c.kind == JPin {
			want := clamp(-coef * (dist - c.dist0) / dt)
			s.check("joint-velocity")
			if !sat && math.Abs(got-want) > tol {
				bad(got, want)
			}
			return
		}
		mn, mx := g(4), g(5)
		switch {
		case dist > mx+1e-9:
			want := clamp(-coef * (dist - mx) / dt)
			s.check("joint-velocity")
			if got > want+tol && !sat {
				bad(got, want)
			}
			if s.pushes(a, b, dpA, dpB, n) > 1e-7*sz {
				s.fail("C13", "slide joint %d is longer than its maximum, but pushes its bodies apart (%v, %v)", c.id, dpA, dpB)
			}
			if imp > 1e-7*sz && !sat && math.Abs(got-want) > tol {
				bad(got, want)
			}
		case dist < mn-1e-9:
			want := clamp(-coef * (dist - mn) / dt)
			s.check("joint-velocity")
			if got < want-tol && !sat {
				bad(got, want)
			}
			if s.pushes(a, b, dpA, dpB, n) < -1e-7*sz {
				s.fail("C13", "slide joint %d is shorter than its minimum, but pulls its bodies together (%v, %v)", c.id, dpA, dpB)
			}
			if imp > 1e-7*sz && !sat && math.Abs(got-want) > tol {
				bad(got, want)
			}
		case dist > mn+1e-9 && dist < mx-1e-9:
			s.check("joint-idle")
			if imp > 1e-9*sz {
				s.fail("C12", "slide joint %d is within its limits, but applies impulse %v", c.id, imp)
				s.fail("C13", "slide joint %d is within its limits, but applies impulse %v", c.id, imp)
			}
		}
	case JPivot:
		ra, rb := anchors()
		d := rb.Sub(ra).Mul(-coef / dt)
		if l := d.Len(); l > c.mb {
			d = d.Mul(c.mb / l)
		}
		got := relA(ra, rb)
		s.check("joint-velocity")
		if !sat && got.Sub(d).Len() > tol {
			s.fail("C13", "pivot joint %d: relative velocity %v after the step instead of %v", c.id, got, d)
		}
	case JGroove:
		// inside the groove, the speed across it
		w := func(l V) V { return l.Rot(a.b.Angle()).Add(vv(a.b.Position())) }
		ga, gb := w(V{g(0), g(1)}), w(V{g(2), g(3)})
		_, rb := anchors()
		dir := gb.Sub(ga).Unit()
		along := rb.Sub(ga).Dot(dir)
		if sat || !(along > 1e-6 && along < gb.Sub(ga).Len()-1e-6) {
			break
		}
		at := ga.Add(dir.Mul(along))
		d := rb.Sub(at).Mul(-coef / dt)
		if l := d.Len(); l > c.mb {
			d = d.Mul(c.mb / l)
		}
		// (with bodies that turn, the library solves for the impulse that stops the anchor wholly and takes its part across)
		miss := relA(at, rb).Sub(d)
		j, js := kSolve(miss, a, b, at, rb)
		s.check("joint-velocity")
		if m := math.Abs(miss.Dot(dir.Perp())); m > tol && math.Abs(j.Dot(dir.Perp())) > tol*js {
			s.fail("C13", "groove joint %d: the anchors' relative speed across the groove is off by %v (%v instead of %v)", c.id, m, relA(at, rb), d)
		}
	case JGear:
		ratio := g(1)
		want := clamp(-coef * (x.a*ratio - y.a - g(0)) / dt)
		got := x.w*ratio - y.w
		s.check("joint-velocity")
		if !sat && math.Abs(got-want) > tol*(1+math.Abs(ratio)) {
			bad(got, want)
		}
	case JRotLimit:
		d := x.a - y.a
		got := x.w - y.w
		mn, mx := g(0), g(1)
		push := dlB
		if b.typ != DYN {
			push = -dlA
		}
		switch {
		case d > mx+1e-9:
			want := clamp(-coef * (d - mx) / dt)
			s.check("joint-velocity")
			if !sat && (got > want+tol || imp > 1e-7*lsz && math.Abs(got-want) > tol) {
				bad(got, want)
			}
			if push > 1e-7*lsz {
				s.fail("C13", "rotary limit %d is beyond its maximum, but turns its bodies further", c.id)
			}
		case d < mn-1e-9:
			want := clamp(-coef * (d - mn) / dt)
			s.check("joint-velocity")
			if !sat && (got < want-tol || imp > 1e-7*lsz && math.Abs(got-want) > tol) {
				bad(got, want)
			}
			if push < -1e-7*lsz {
				s.fail("C13", "rotary limit %d is below its minimum, but turns its bodies further", c.id)
			}
		case d > mn+1e-9 && d < mx-1e-9:
			s.check("joint-idle")
			if imp > 1e-9*lsz {
				s.fail("C12", "rotary limit %d is within its limits, but applies impulse %v", c.id, imp)
				s.fail("C13", "rotary limit %d is within its limits, but applies impulse %v", c.id, imp)
			}
		}
	case JRatchet:
		push := dlB
		if b.typ != DYN {
			push = -dlA
		}
		s.check("joint-velocity")
		r := sign(g(1))
		if push*r < -1e-7*lsz {
			s.fail("C13", "ratchet %d (%v) turns its bodies backwards by %v", c.id, g(1), push)
		}
		if c.toothBad {
			return
		}
		got := (x.w - y.w) * r
		back := (c.tooth - (x.a - y.a)) * r // how far it is back behind the tooth
		if back > 1e-9 {
			want := clamp(coef * back / dt)
			s.probe("ratchet-holds")
			if !sat && (got < want-tol || imp > 1e-7*lsz && math.Abs(got-want) > tol) {
				bad(got, want)
			}
		} else if back < -1e-9 && imp > 1e-9*lsz {
			s.fail("C12", "ratchet %d is past its tooth, but applies impulse %v", c.id, imp)
			s.fail("C13", "ratchet %d is past its tooth, but applies impulse %v", c.id, imp)
		}
	case JMotor:
		got := x.w - y.w
		s.check("joint-velocity")
		if !sat && math.Abs(got+g(0)) > tol {
			bad(got, -g(0))
		}
	case JSpring, JRotSpring:
		s.isolatedSpring(c, sp)
	}
}

// anchors are the places of a linear joint's anchors in the world (a groove's first is left out).
func (c *ConM) anchors() (V, V) {
	w := func(b *BodyM, l V) V { return l.Rot(b.b.Angle()).Add(vv(b.b.Position())) }
	if c.kind == JGroove {
		return V{}, w(c.b, V{c.g(4), c.g(5)})
	}
	return w(c.a, c.la), w(c.b, c.lb)
}

// setAnchors notes where a joint holds its bodies when it is made.
func (c *ConM) setAnchors() {
	switch c.kind {
	case JPin, JSlide, JSpring:
		c.la, c.lb = V{c.g(0), c.g(1)}, V{c.g(2), c.g(3)}
	case JPivot:
		c.la, c.lb = V{c.g(0), c.g(1)}, V{c.g(2), c.g(3)}
		if c.g(4) != 0 {
			l := func(b *BodyM, w V) V { return w.Sub(vv(b.b.Position())).Rot(-b.b.Angle()) }
			c.la, c.lb = l(c.a, V{c.g(0), c.g(1)}), l(c.b, V{c.g(0), c.g(1)})
		}
	}
	if c.kind == JRatchet {
		c.tooth = c.b.b.Angle() - c.a.b.Angle()
	}
	ra, rb := c.anchors()
	c.dist0 = rb.Sub(ra).Len()
}

// track follows the tooth a ratchet has reached, or those it may have reached, as far as rounding decides.
func (c *ConM) track() {
	d := c.b.post.a - c.a.post.a
	ph, r := c.g(0), c.g(1)
	was := []float64{c.tooth}
	if c.toothBad {
		was = append(was, c.teeth...)
	}
	c.teeth = c.teeth[:0:0]
	may := func(t float64) {
		for _, x := range c.teeth {
			if x == t {
				return
			}
		}
		c.teeth = append(c.teeth, t)
	}
	for _, t := range was {
		diff := (t - d) * sign(r)
		sure := diff == 0 && !c.tracked
		if diff > 0 || math.Abs(diff) < 1e-9 && !sure {
			may(t)
		}
		if diff < 1e-9 {
			q := (d - ph) / r
			f := math.Floor(q)
			may(f*r + ph)
			if q-f < 1e-7 {
				may((f-1)*r + ph)
			}
			if f+1-q < 1e-7 {
				may((f+1)*r + ph)
			}
		}
	}
	c.tooth = c.teeth[0]
	if len(c.teeth) > 16 {
		c.teeth = c.teeth[:16]
	}
	c.toothBad = len(c.teeth) > 1
	c.tracked = true
}

func sign(x float64) float64 {
	if x < 0 {
		return -1
	}
	return 1
}

// pushes is the impulse with which a joint drives its bodies apart along n.
func (s *Sim) pushes(a, b *BodyM, dpA, dpB, n V) float64 {
	if b.typ == DYN {
		return dpB.Dot(n)
	}
	return -dpA.Dot(n)
}

func sizeOf(f []float64) float64 {
	m := 0.0
	for _, x := range f {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

// isolatedSpring: the spring force acts for one step, then the damping takes its share of the relative speed.
func (s *Sim) isolatedSpring(c *ConM, sp float64) {
	a, b := c.a, c.b
	dt := s.dt
	damp := math.Pow(s.damp, dt)
	inv := func(q *BodyM) (float64, float64) {
		if q.typ != DYN {
			return 0, 0
		}
		return 1 / q.pre.m, 1 / q.pre.i
	}
	ma, ia := inv(a)
	mb, ib := inv(b)
	fa, fwa := s.free(a)
	fb, fwb := s.free(b)
	if c.kind == JRotSpring {
		k, d := c.g(1), c.g(2)
		if ia+ib == 0 {
			return
		}
		// the library takes the angle of the first body relative to the second
		j := c.law(a.post.a-b.post.a) * dt
		rel := (fwa - j*ia*damp) - (fwb + j*ib*damp)
		want := rel * math.Exp(-d*dt*(ia+ib))
		got := a.post.w - b.post.w
		s.check("joint-velocity")
		s.maxErr("c13-rotspring", math.Abs(got-want)/sp)
		if math.Abs(got-want) > 1e-6*sp*(1+k*dt*(ia+ib)) {
			s.fail("C13", "rotary spring %d: relative spin %v after the step instead of %v", c.id, got, want)
		}
		return
	}
	ra, rb := c.anchors()
	dl := rb.Sub(ra)
	dist := dl.Len()
	if dist < 1e-3 {
		return
	}
	n := dl.Mul(1 / dist)
	k, dm := c.g(5), c.g(6)
	j := c.law(dist) * dt
	ca, cb := ra.Sub(a.post.c).Cross(n), rb.Sub(b.post.c).Cross(n)
	kn := ma + mb + ia*ca*ca + ib*cb*cb
	if kn == 0 {
		return
	}
	rel := vel(b, fb, fwb, rb).Sub(vel(a, fa, fwa, ra)).Dot(n) + j*kn*damp
	want := rel * math.Exp(-dm*dt*kn)
	got := vel(b, b.post.v, b.post.w, rb).Sub(vel(a, a.post.v, a.post.w, ra)).Dot(n)
	s.check("joint-velocity")
	s.maxErr("c13-spring", math.Abs(got-want)/sp)
	if math.Abs(got-want) > 1e-6*sp*(1+k*dt*kn) {
		s.fail("C13", "spring %d: relative speed %v after the step instead of %v", c.id, got, want)
	}
}

// evalMass checks the mass bookkeeping of a body (C18).
func (s *Sim) evalMass(b *BodyM) {
	if !b.in || b.typ != DYN || !s.on["C18"] {
		return
	}
	m := 0.0
	var c V
	for _, sh := range b.sortedShapes() {
		if sh.mass > 0 {
			if sh.staleI {
				return
			}
			_, q := sh.inertia()
			m += sh.mass
			c = c.Add(q.Mul(sh.mass))
		}
	}
	if m == 0 {
		if b.ownMass && (b.b.Mass() != b.m0 || b.b.Moment() != b.i0) {
			s.fail("C18", "body %d: mass %v and moment %v, the user set %v and %v", b.id, b.b.Mass(), b.b.Moment(), b.m0, b.i0)
		}
		if g := vv(b.b.CenterOfGravity()); g != (V{}) {
			s.fail("C18", "body %d: center of gravity %v, but no shape has mass", b.id, g)
		}
		return
	}
	c = c.Mul(1 / m)
	i, sc := 0.0, 0.0
	for _, sh := range b.sortedShapes() {
		if sh.mass > 0 {
			k, q := sh.inertia()
			i += sh.mass * (k + q.Sub(c).Dot(q.Sub(c)))
			sc += sh.mass * (k + q.Dot(q))
		}
	}
	s.check("mass")
	if !near(b.b.Mass(), m, 1e-9*m) {
		s.fail("C18", "body %d: mass %v, its shapes have %v", b.id, b.b.Mass(), m)
	}
	if g := vv(b.b.CenterOfGravity()); g.Sub(c).Len() > 1e-7*(1+c.Len()) {
		s.fail("C18", "body %d: center of gravity %v, its shapes have %v", b.id, g, c)
	}
	if !near(b.b.Moment(), i, 1e-7*sc) {
		s.fail("C18", "body %d: moment %v, its shapes have %v", b.id, b.b.Moment(), i)
	}
}

// kSolve is the impulse at two points of two bodies that changes their relative velocity by v, and how large it can be for a change of 1.
func kSolve(v V, a, b *BodyM, ra, rb V) (V, float64) {
	k11, k12, k22 := 0.0, 0.0, 0.0
	for i, q := range []*BodyM{a, b} {
		if q.typ != DYN {
			continue
		}
		r := ra.Sub(q.post.c)
		if i == 1 {
			r = rb.Sub(q.post.c)
		}
		k11 += 1/q.pre.m + r.Y*r.Y/q.pre.i
		k22 += 1/q.pre.m + r.X*r.X/q.pre.i
		k12 -= r.X * r.Y / q.pre.i
	}
	det := k11*k22 - k12*k12
	return V{(k22*v.X - k12*v.Y) / det, (k11*v.Y - k12*v.X) / det}, (k11 + k22) / det
}
