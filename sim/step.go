package main

import (
	"math"

	"github.com/jakecoffman/cp/v2"
)

const farAway = 1e6

func (s *Sim) step(dt float64, salt uint64) {
	s.salt, s.callN = salt, 0
	s.dt = dt
	if dt > 0 {
		s.stepNo++
		s.time += dt
		s.st.Steps++
		s.st.SimTime += dt
		if dt > 0.1 {
			s.fault("stall-step")
		} else if dt < 1e-4 {
			s.fault("tiny-step")
		}
	} else {
		s.fault("zero-step")
	}
	for _, b := range s.bOrder {
		if b.in && b.typ == DYN && b.b.Mass() == 0 && b.shapesMass() == 0 {
			s.fixMassForce(b) // the shape with the mass was never added
			s.disturb(b)
		}
		prev := b.post
		b.pre = b.state()
		b.poked, b.nSolved, b.vcalls, b.pcalls = false, 0, 0, 0
		b.dist, b.late = false, false
		b.wasBias = b.bias
		if b.in && b.typ == DYN && prev.asleep && !b.pre.asleep && !b.forcedUp && !b.unsure {
			s.fail("C08", "body %d woke up between steps though nothing disturbed its island", b.id)
		}
		if b.in && prev.asleep && b.pre.asleep {
			s.frozen(b, &prev, &b.pre, "between steps")
		}
		if !prev.asleep && b.pre.asleep && b.in {
			s.fail("C09", "body %d fell asleep outside of a step", b.id)
		}
		if dt > 0 {
			b.forcedUp = false
		}
	}
	for _, c := range s.cOrder {
		c.pre, c.post, c.fcalls, c.poked = 0, 0, 0, false
	}
	s.ev = nil
	s.inStep, s.snapped, s.phase, s.inPost = true, false, 0, false
	s.sp.Step(dt)
	if dt > 0 {
		if !s.snapped {
			s.endOfStep()
		}
		s.flushCheck()
	} else {
		for _, b := range s.bOrder {
			p := b.state()
			if p != b.pre {
				s.fail("C15", "Step(0) changed body %d", b.id)
			}
		}
		if len(s.ev) > 0 {
			s.fail("C15", "Step(0) called collision callbacks")
		}
	}
	s.inStep, s.phase, s.inPost = false, 0, false
	if dt > 0 {
		s.prevDt = dt
	}
	for _, b := range s.bOrder {
		if x := b.b.Position(); b.in && !(math.Abs(x.X)+math.Abs(x.Y) < farAway && b.b.Velocity().LengthSq() < farAway*farAway && math.Abs(b.b.AngularVelocity()) < farAway) {
			// an overloaded simulation blew up: there is nothing to learn from rounding errors
			s.over = true
			s.probe("blew-up")
			if s.judge != nil {
				s.fail("C12", "body %d flew off to %v (velocity %v, %v): its joint blew up", b.id, x, b.b.Velocity(), b.b.AngularVelocity())
			}
		}
	}
	if s.digOn {
		for _, b := range s.bOrder {
			st := b.state()
			s.d(st.p.X, st.p.Y, st.a, st.v.X, st.v.Y, st.w)
			if st.asleep {
				s.d(1)
			}
		}
	}
}

func (s *Sim) frozen(b *BodyM, x, y *BState, when string) {
	if x.p != y.p || x.a != y.a || (!b.poked && (x.v != y.v || x.w != y.w)) {
		s.fail("C08", "sleeping body %d changed %s: position %v angle %v velocity %v,%v became %v %v %v,%v", b.id, when, x.p, x.a, x.v, x.w, y.p, y.a, y.v, y.w)
	}
}

func (s *Sim) coordTol() float64 { return 1e-7 }

// endOfStep runs all oracles on the state at the end of the solver, before any post-step callback ran.
func (s *Sim) endOfStep() {
	s.snapped = true
	defer func() { s.inPost = true }()
	if s.viol != nil {
		return
	}
	for _, b := range s.bOrder {
		b.post = b.state()
		if !b.in {
			continue
		}
		if p := &b.post; !fin(p.p.X, p.p.Y, p.a, p.v.X, p.v.Y, p.w, p.c.X, p.c.Y) {
			s.fail("C19", "body %d has a state that is not finite: position %v angle %v velocity %v angular velocity %v", b.id, p.p, p.a, p.v, p.w)
			s.fail("*", "body %d has a state that is not finite: position %v angle %v velocity %v angular velocity %v", b.id, p.p, p.a, p.v, p.w)
			return
		}
	}
	// the shapes of everything that was awake were indexed again
	for _, sh := range s.sOrder {
		if sh.in && sh.bm.pre.typ != STAT && !sh.bm.pre.asleep {
			sh.idx = sh.bm.geo(sh)
			sh.dirty = false
		}
	}
	s.evalPairs()
	s.evalSleep()
	s.evalIntegration()
	s.evalJoints()
	s.evalArbiters()
	s.evalRest()
	s.evalImpulses()
	s.evalDynamics()
	for _, b := range s.bOrder {
		s.evalMass(b)
	}
	if s.extra != nil {
		s.extra()
	}
	s.countState()
	for _, b := range s.bOrder {
		if b.in {
			b.bias = b.typ == DYN && (b.nSolved > 0 || b.late)
		}
	}
}

func (s *Sim) countState() {
	h := uint64(1)
	n := 0
	for _, p := range s.pairs {
		if p.st == 1 {
			h ^= hashU(uint64(p.a.kind), uint64(p.b.kind), uint64(p.ign), b2u(p.solved), b2u(p.asleep), uint64(p.a.bm.typ), uint64(p.b.bm.typ), uint64(p.key.a), uint64(p.key.b))
			n++
		}
	}
	for _, b := range s.bOrder {
		if b.in {
			h += hashU(uint64(b.id), uint64(b.typ), b2u(b.post.asleep), uint64(len(b.shapes)), uint64(len(b.cons)))
		}
	}
	if len(s.st.States) < 2000000 {
		s.st.States[h] = true
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func inStatic(st *BState) bool { return st.typ == STAT || st.asleep }

func filterRejects(a, b *ShapeM) bool {
	return (a.group != 0 && a.group == b.group) || a.cat&b.mask == 0 || b.cat&a.mask == 0
}

func (s *Sim) jointRejects(a, b *BodyM) bool {
	for _, c := range a.cons {
		if !c.collide && (c.a == b || c.b == b) {
			return true
		}
	}
	return false
}

// evalPairs checks the collision events of the step against the placement of all shapes (C01, C03, C04).
// spreadLate: what may have fallen asleep in this step together with a body that was woken too late for the
// solver was woken too late as well.
func (s *Sim) spreadLate(live []*ShapeM, bbs []Box) {
	var todo []*BodyM
	for _, b := range s.bOrder {
		if b.late && (!b.pre.asleep || s.dt >= s.sleep*(1-1e-9)) {
			todo = append(todo, b)
		}
	}
	if len(todo) == 0 {
		return
	}
	adj := map[*BodyM][]*BodyM{}
	link := func(a, b *BodyM) {
		if a.typ == DYN && b.typ == DYN && a.in && b.in {
			adj[a] = append(adj[a], b)
			adj[b] = append(adj[b], a)
		}
	}
	for _, p := range s.pairs {
		if p.st != 0 || p.asleep {
			link(p.a.bm, p.b.bm)
		}
	}
	for i, a := range live {
		for j := i + 1; j < len(live); j++ {
			if a.bm != live[j].bm && bbs[i].gap(bbs[j]) < 0.01 {
				link(a.bm, live[j].bm)
			}
		}
	}
	for _, c := range s.cOrder {
		if c.in {
			link(c.a, c.b)
		}
	}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, o := range adj[b] {
			if !o.late {
				o.late = true
				todo = append(todo, o)
			}
		}
	}
}

func (s *Sim) evalPairs() {
	by := map[pairKey][]*Event{}
	for _, e := range s.ev {
		k := mkKey(e.s1.id, e.s2.id)
		by[k] = append(by[k], e)
	}
	seen := map[pairKey]bool{}
	var live []*ShapeM
	for _, sh := range s.sOrder {
		if sh.in {
			live = append(live, sh)
		}
	}
	bbs := make([]Box, len(live))
	for i, sh := range live {
		bbs[i] = sh.idx.BB()
	}
	s.spreadLate(live, bbs)
	for i, a := range live {
		for j := i + 1; j < len(live); j++ {
			b := live[j]
			if a.bm == b.bm {
				if ev := by[mkKey(a.id, b.id)]; len(ev) > 0 {
					s.fail("C01", "%v for two shapes of the same body", ev[0])
				}
				continue
			}
			k := mkKey(a.id, b.id)
			p := s.pairs[k]
			ev := by[k]
			susp := inStatic(&a.bm.pre) && inStatic(&b.bm.pre)
			if p == nil && len(ev) == 0 && (susp || !a.dirty && !b.dirty && bbs[i].gap(bbs[j]) > 0.01) {
				seen[k] = true
				continue
			}
			seen[k] = true
			if p == nil {
				p = s.pair(a, b)
			}
			s.evalPair(p, ev, susp, bbs[i].gap(bbs[j]))
		}
	}
	for k, ev := range by {
		if !seen[k] {
			s.fail("C01", "%v for shapes that are not both in the space", ev[0])
			s.fail("C03", "%v for shapes that are not both in the space", ev[0])
		}
	}
}

const touchTol = 1e-6

func (s *Sim) evalPair(p *Pair, evs []*Event, susp bool, gap float64) {
	a, b := p.a, p.b
	A, B := a.bm, b.bm
	elig := !susp && !filterRejects(a, b) && !s.jointRejects(A, B)
	// T: 1 touching, 0 apart, 2 too close to call
	T := 0
	var D float64 = 1
	if elig {
		if a.dirty || b.dirty {
			T = 2 // not indexed since its geometry changed
		} else if gap < 0.01 {
			sp := separation(&a.idx, &b.idx)
			D = sp.D
			tol := touchTol * (1 + s.scale(a, b))
			if D < -tol {
				T = 1
			} else if D <= tol {
				T = 2
			}
		}
	}
	var n [4][]*Event
	for _, e := range evs {
		if e.inStep {
			n[e.kind] = append(n[e.kind], e)
		}
	}
	obs := func(d *Disp, k int) bool { hs, _ := d.expect(k); return len(hs) > 0 }
	st0, ign0, asleep0 := p.st, p.ign, p.asleep
	cur := s.dispFor(a, b)
	if T == 2 {
		switch {
		case len(n[EvBegin]) > 0 || len(n[EvPre]) > 0:
			T = 1
		case st0 == 1 && ign0 != 0:
			if len(n[EvSep]) > 0 {
				T = 0
			}
		case st0 == 0 && obs(&cur, EvBegin), st0 == 1 && ign0 == 0 && obs(&cur, EvPre):
			T = 0
		}
		s.probe("touch-ambiguous")
	}
	// C01: detection
	if T == 0 && (len(n[EvBegin]) > 0 || len(n[EvPre]) > 0) {
		e := append(append([]*Event{}, n[EvBegin]...), n[EvPre]...)[0]
		why := "do not touch"
		if susp {
			why = "are both static or sleeping"
		} else if filterRejects(a, b) {
			why = "are rejected by their filters"
		} else if s.jointRejects(A, B) {
			why = "are jointed with CollideBodies off"
		}
		s.fail("C01", "%v for shapes that %s (distance %g)", e, why, D)
		s.fail("C03", "%v for shapes that %s (distance %g)", e, why, D)
		return
	}
	if T == 1 {
		s.check("touching-pair")
		missing := false
		switch {
		case st0 == 0:
			missing = obs(&cur, EvBegin) && len(n[EvBegin]) == 0 && len(n[EvPre]) == 0
		case st0 == 1 && ign0 == 0:
			missing = obs(&cur, EvPre) && len(n[EvPre]) == 0 && len(n[EvBegin]) == 0
		}
		if missing {
			s.fail("C01", "shapes %d and %d overlap by %g but the step did not process them", a.id, b.id, -D)
			s.fail("C03", "shapes %d and %d overlap by %g but the step called neither begin nor pre-solve", a.id, b.id, -D)
			return
		}
	} else if elig {
		s.check("apart-pair")
	}
	// C03: the lifecycle
	if T == 2 {
		// unknown; be content with anything
		p.st, p.ign, p.solved, p.tok = 2, 2, false, nil
		A.nSolved++
		B.nSolved++
		return
	}
	p.solved = false
	p.fresh = T == 1
	begun := false
	if T == 1 {
		switch st0 {
		case 0:
			begun = true
		case 1:
			if len(n[EvBegin]) > 0 {
				s.fail("C03", "%v though the shapes already touch (since %d steps)", n[EvBegin][0], p.steps)
				return
			}
		case 2:
			begun = len(n[EvBegin]) > 0
		}
		p.disp = cur
	}
	if len(n[EvSep]) > 0 && T == 1 {
		s.fail("C03", "%v though the shapes touch", n[EvSep][0])
		return
	}
	if begun {
		if st0 == 0 {
			s.calls(p, &cur, EvBegin, n[EvBegin], true)
		}
		p.st, p.ign, p.steps = 1, 0, 0
		for i, e := range n[EvBegin] {
			if !e.first && !ignoredBy(n[EvBegin][:i]) {
				s.fail("C04", "IsFirstContact is false in %v", e)
			}
			if e.ign || !e.ret {
				p.ign = 1
			}
		}
		p.begun = s.stepNo
	}
	accepted := false
	if T == 1 {
		p.steps++
		if p.st == 2 && !begun {
			p.tok = nil // resync
			p.st = 1
			if len(n[EvPre]) > 0 || !s.dispChanged && !obs(&cur, EvPre) && !obs(&cur, EvBegin) {
				p.ign = 0
			} else if obs(&cur, EvPre) {
				p.ign = 1
			} else {
				p.ign = 2
			}
		}
		if p.ign == 0 {
			s.calls(p, &cur, EvPre, n[EvPre], true)
			accepted = true
			for i, e := range n[EvPre] {
				if st0 != 2 && e.first != begun && !ignoredBy(n[EvPre][:i]) {
					s.fail("C04", "IsFirstContact is %v in %v, begun in this step: %v", e.first, e, begun)
				}
				if !e.ret {
					accepted = false
				}
				if e.ign {
					accepted = false
					p.ign = 1
				}
			}
		} else if p.ign == 1 && len(n[EvPre]) > 0 {
			s.fail("C03", "%v for an ignored collision", n[EvPre][0])
			return
		}
		if a.sensor || b.sensor || (A.typ != DYN && B.typ != DYN) {
			accepted = false
		}
		if p.ign == 2 {
			A.nSolved++ // perhaps
			B.nSolved++
		}
	}
	// post-solve
	woke := (A.pre.asleep && !A.post.asleep && A.typ == DYN) || (B.pre.asleep && !B.post.asleep && B.typ == DYN)
	slept := ((A.post.asleep || A.late) && A.typ == DYN) || ((B.post.asleep || B.late) && B.typ == DYN)
	if slept && len(n[EvPost]) > 0 && !(A.post.asleep && A.typ == DYN) && !(B.post.asleep && B.typ == DYN) {
		slept = false // disturbed late, but it had not fallen asleep
	}
	if accepted {
		p.asleep = false
		if slept {
			p.asleep = true
			if len(n[EvPost]) > 0 {
				s.fail("C03", "%v though the island fell asleep", n[EvPost][0])
			}
			s.probe("fell-asleep-in-contact")
		} else {
			s.calls(p, &cur, EvPost, n[EvPost], true)
			p.solved = true
			A.nSolved++
			B.nSolved++
			for _, e := range n[EvPost] {
				if st0 != 2 && e.first != begun {
					s.fail("C04", "IsFirstContact is %v in %v, begun in this step: %v", e.first, e, begun)
				}
			}
		}
	} else if len(n[EvPost]) > 0 {
		// contacts restored by waking up in this step are solved again
		restored := susp && asleep0 && woke
		if !restored && !(p.ign == 2) {
			s.fail("C03", "%v for a collision that was not solved", n[EvPost][0])
			return
		}
		for _, e := range n[EvPost] {
			if restored && st0 != 2 && e.first {
				s.fail("C04", "IsFirstContact in %v of a contact that its bodies slept in", e)
			}
		}
		p.solved = true
		A.nSolved++
		B.nSolved++
	} else if susp && asleep0 && woke && (A.late || B.late) {
		p.asleep = true // restored after the solver ran
	} else if susp && asleep0 && woke {
		p.solved = true // restored, post-solve not observed
		A.nSolved++
		B.nSolved++
		if obs(&p.disp, EvPost) {
			s.fail("C03", "shapes %d and %d: their bodies woke up in contact, but the contact was not solved in that step", a.id, b.id)
		}
	}
	if (!slept && !(susp && asleep0 && woke && (A.late || B.late))) || (!susp && !accepted) {
		p.asleep = false
	}
	if woke && (p.st == 2 || p.ign == 2) {
		A.nSolved++ // perhaps
		B.nSolved++
	}
	// separate
	if T == 0 {
		kept := (inStatic(&A.pre) || inStatic(&A.post) || A.late) && (inStatic(&B.pre) || inStatic(&B.post) || B.late)
		switch {
		case kept:
			if len(n[EvSep]) > 0 {
				if p.st == 0 {
					s.fail("C03", "%v though the shapes did not touch", n[EvSep][0])
				} else if susp {
					// nothing moved: they cannot have separated
					s.fail("C03", "%v though both bodies were static or asleep", n[EvSep][0])
				}
				p.st = 0
				p.tok = nil
			} else if (A.late && !A.pre.asleep) || (B.late && !B.pre.asleep) {
				p.st = 2 // perhaps it was not asleep
			}
		case p.st == 1:
			s.calls(p, &p.disp, EvSep, n[EvSep], true)
			p.st, p.ign = 0, 0
			p.tok = nil
		case p.st == 0:
			if len(n[EvSep]) > 0 {
				s.fail("C03", "%v though the shapes did not touch", n[EvSep][0])
			}
		default:
			p.st, p.ign = 0, 0
			p.tok = nil
		}
		if p.st == 0 {
			p.steps = 0
		}
	}
}

func (s *Sim) scale(a, b *ShapeM) float64 {
	m := 0.0
	for _, sh := range []*ShapeM{a, b} {
		for _, p := range sh.idx.P {
			m = math.Max(m, math.Max(math.Abs(p.X), math.Abs(p.Y)))
		}
		m = math.Max(m, sh.idx.R)
	}
	return m * 1e-3
}

// calls checks that an event of a pair reached exactly the handlers it has to.
func ignoredBy(evs []*Event) bool {
	for _, e := range evs {
		if e.ign {
			return true
		}
	}
	return false
}

func (s *Sim) calls(p *Pair, d *Disp, kind int, evs []*Event, must bool) {
	hs, ordered := d.expect(kind)
	if s.on["C03"] && len(evs) != len(hs) {
		if len(hs) > 0 && len(evs) == 0 {
			s.fail("C03", "%s was not called for shapes %d,%d", evName[kind], p.key.a, p.key.b)
		} else if len(evs) > len(hs) && len(hs) > 0 {
			s.fail("C03", "%s was called %d times for shapes %d,%d (by %d handlers)", evName[kind], len(evs), p.key.a, p.key.b, len(hs))
		}
	}
	if !s.on["C04"] {
		return
	}
	s.check("dispatch")
	if len(evs) != len(hs) {
		s.fail("C04", "%s for shapes %d,%d (types %d,%d) made %d calls to handlers instead of %d", evName[kind], p.key.a, p.key.b, d.ta, d.tb, len(evs), len(hs))
		return
	}
	match := func(order []*Handler) bool {
		for i, h := range order {
			if evs[i].h != h {
				return false
			}
		}
		return true
	}
	ok := match(hs)
	if n := len(hs); !ok && !ordered && n >= 2 && hs[n-2].wild {
		ok = match(append(append([]*Handler{}, hs[:n-2]...), hs[n-1], hs[n-2]))
	}
	if !ok {
		s.fail("C04", "%s for shapes %d,%d (types %d,%d) called the wrong handlers: first %v", evName[kind], p.key.a, p.key.b, d.ta, d.tb, evs[0])
		return
	}
	ctype := func(sh *ShapeM) int {
		if sh == p.a {
			return d.ta
		}
		return d.tb
	}
	for _, e := range evs {
		if ctype(e.s1) != e.h.a || (!e.h.wild && ctype(e.s2) != e.h.b) {
			s.fail("C04", "%v: shapes have types %d,%d, the handler %d,%d", e, ctype(e.s1), ctype(e.s2), e.h.a, e.h.b)
		}
	}
	if n := len(evs); n >= 2 && evs[n-2].h.wild && evs[n-2].s1 == evs[n-1].s1 {
		s.fail("C04", "%s for shapes %d,%d: both wildcard handlers got shape %d first", evName[kind], p.key.a, p.key.b, evs[0].s1.id)
	}
}

// removedShape checks the separate events of a shape just removed.
func (s *Sim) removedShape(sh *ShapeM, mark int) {
	evs := s.ev[mark:]
	by := map[pairKey][]*Event{}
	for _, e := range evs {
		if e.kind == EvSep && !e.used && (e.s1 == sh || e.s2 == sh) {
			k := mkKey(e.s1.id, e.s2.id)
			by[k] = append(by[k], e)
			e.used = true
		} else if e.s1 == sh || e.s2 == sh {
			if e.kind != EvSep {
				s.fail("C03", "%v while a shape was removed", e)
			}
		}
	}
	for _, p := range s.sortedPairs() {
		if p.a != sh && p.b != sh {
			continue
		}
		n := by[p.key]
		switch p.st {
		case 1:
			s.calls(p, &p.disp, EvSep, n, true)
			if len(n) > 0 {
				s.probe("separate-by-removal")
			}
		case 0:
			if len(n) > 0 {
				s.fail("C03", "%v by removing a shape that did not touch", n[0])
			}
		}
		delete(s.pairs, p.key)
		if s.inStep {
			// it may have been solved in this step
			p.a.bm.nSolved++
			p.b.bm.nSolved++
		}
		delete(by, p.key)
	}
	for _, n := range by {
		s.fail("C03", "%v by removing a shape that did not touch", n[0])
	}
}

// evalSleep checks sleeping and waking (C08, C09).
func (s *Sim) evalSleep() {
	// causes of waking up in this step
	cause := map[*BodyM]bool{}
	mark := func(b *BodyM) {
		cause[b] = true
		for _, o := range b.island {
			cause[o] = true
		}
	}
	may := map[*BodyM]bool{}
	var fell []*BodyM
	for _, p := range s.sortedPairs() {
		if !p.a.in || !p.b.in {
			continue
		}
		A, B := p.a.bm, p.b.bm
		if p.st == 2 || p.st == 1 && p.ign == 2 {
			// perhaps in solved contact
			for _, b := range []*BodyM{A, B} {
				may[b] = true
				for _, o := range b.island {
					may[o] = true
				}
			}
		}
		if !(p.solved || p.asleep) {
			continue
		}
		for k := 0; k < 2; k++ {
			if A.pre.asleep && !inStatic(&B.pre) && p.solved {
				// an awake body in solved contact
				mark(A)
				if A.post.asleep {
					s.fail("C08", "body %d sleeps though awake body %d is in solved contact with it", A.id, B.id)
				}
			} else if A.pre.asleep && B.late {
				// perhaps it was solved
				may[A] = true
				for _, o := range A.island {
					may[o] = true
				}
			}
			A, B = B, A
		}
		if A.typ == DYN && B.typ == DYN && A.post.asleep != B.post.asleep {
			s.fail("C08", "bodies %d (asleep %v) and %d (asleep %v) rest against each other", A.id, A.post.asleep, B.id, B.post.asleep)
		}
		if (A.typ == KIN && B.post.asleep) || (B.typ == KIN && A.post.asleep) {
			s.fail("C08", "bodies %d and %d: one sleeps though the other is kinematic and touches it", A.id, B.id)
		}
	}
	for _, c := range s.cOrder {
		if !c.in {
			continue
		}
		A, B := c.a, c.b
		if A.typ == DYN && B.typ == DYN && A.post.asleep != B.post.asleep {
			s.fail("C08", "bodies %d (asleep %v) and %d (asleep %v) are jointed", A.id, A.post.asleep, B.id, B.post.asleep)
		}
		if (A.typ == KIN && B.post.asleep) || (B.typ == KIN && A.post.asleep) {
			s.fail("C08", "bodies %d and %d: one sleeps though the other is kinematic and jointed to it", A.id, B.id)
		}
	}
	for _, b := range s.bOrder {
		if b.dist {
			mark(b)
		}
	}
	for _, b := range s.bOrder {
		if !b.in || b.typ != DYN {
			continue
		}
		b.fellNow, b.wokeNow = false, false
		if !b.post.asleep {
			b.island, b.unsure = nil, false
		}
		switch {
		case b.pre.asleep && b.post.asleep:
			s.frozen(b, &b.pre, &b.post, "in a step")
			s.check("frozen")
			if cause[b] && s.dt >= s.sleep*(1-1e-9) {
				// a woken body may fall asleep again at once
				b.wokeNow, b.fellNow = true, true
				fell = append(fell, b)
			} else if cause[b] {
				s.fail("C08", "body %d still sleeps after its island was disturbed during the step", b.id)
			}
		case b.pre.asleep && !b.post.asleep:
			b.wokeNow = true
			s.probe("woke-in-step")
			if !cause[b] && !may[b] {
				s.fail("C08", "body %d woke up in a step though nothing disturbed its island", b.id)
			}
			if b.pre.p != b.post.p || b.pre.a != b.post.a {
				s.fail("C08", "body %d moved while it slept", b.id)
			}
		case !b.pre.asleep && b.post.asleep:
			b.fellNow = true
			fell = append(fell, b)
		}
		if b.post.asleep && s.sleep == 0 && !b.pre.asleep {
			s.fail("C09", "body %d fell asleep though sleeping is off", b.id)
		}
	}
	s.evalIdle(fell, cause)
}

// evalIdle checks when islands fall asleep (C09).
func (s *Sim) evalIdle(fell []*BodyM, cause map[*BodyM]bool) {
	dvsq := s.idle * s.idle
	if s.idle == 0 {
		dvsq = s.grav.Dot(s.grav) * s.dt * s.dt
	}
	for _, b := range s.bOrder {
		if !b.in || b.typ != DYN {
			continue
		}
		thr := b.pre.m * dvsq
		ke := b.pre.m*b.pre.v.Dot(b.pre.v) + b.pre.i*b.pre.w*b.pre.w
		if b.pre.asleep {
			// woken in this step, and it may have fallen asleep again
			b.idleMax, b.idleMin = s.dt, 0
			continue
		}
		// (squares of speeds as low as this are 0 or not, depending on how they are multiplied)
		faint := b.pre.v.Len() < 1e-140 && math.Abs(b.pre.w) < 1e-140
		if ke > thr*(1+1e-9)+1e-300 && !b.poked && !faint {
			b.idleMax = 0
		} else {
			b.idleMax += s.dt
		}
		if ke < thr*(1-1e-9) || ke == 0 && (!faint || b.pre.v == V{} && b.pre.w == 0) {
			b.idleMin += s.dt
		} else {
			b.idleMin = 0
		}
		if b.poked || b.late {
			b.idleMin = 0
		}
	}
	for b := range cause {
		b.idleMin = 0
		for _, o := range s.touching(b) {
			o.idleMin = 0
		}
	}
	for _, b := range s.bOrder {
		if b.poked {
			for _, o := range s.touching(b) {
				o.idleMin = 0
			}
		}
	}
	// islands of awake bodies
	adj := map[*BodyM][]*BodyM{}
	kin := map[*BodyM]bool{}
	unknown := map[*BodyM]bool{}
	link := func(a, b *BodyM) {
		if a.typ == DYN && b.typ == DYN {
			adj[a] = append(adj[a], b)
			adj[b] = append(adj[b], a)
		}
		if a.typ == KIN {
			kin[b] = true
		}
		if b.typ == KIN {
			kin[a] = true
		}
	}
	for _, p := range s.sortedPairs() {
		if p.solved || p.asleep {
			link(p.a.bm, p.b.bm)
		} else if p.st == 2 || p.st == 1 && p.ign == 2 {
			unknown[p.a.bm], unknown[p.b.bm] = true, true
		}
	}
	for _, c := range s.cOrder {
		if c.in {
			link(c.a, c.b)
		}
	}
	for _, b := range s.bOrder {
		// a contact too close to call may be one with a kinematic body
		if (kin[b] || unknown[b]) && b.typ == DYN {
			b.idleMin = 0
			for _, o := range s.touching(b) {
				o.idleMin = 0
			}
		}
		if kin[b] && b.typ == DYN && s.sleep > 0 {
			b.idleMax = 0
		}
	}
	if s.sleep > 0 {
		for _, b := range s.bOrder {
			if !b.in || b.typ != DYN || b.post.asleep || b.pre.asleep {
				continue
			}
			got := b.b.IdleTime()
			s.check("idle-time")
			if got < b.idleMin*(1-1e-9)-1e-9 || got > b.idleMax*(1+1e-9)+1e-9 {
				s.fail("C09", "body %d says it idles for %g s, it did so for %g to %g s", b.id, got, b.idleMin, b.idleMax)
			}
		}
	}
	done := map[*BodyM]bool{}
	for _, b := range s.bOrder {
		if !b.in || b.typ != DYN || done[b] || (b.pre.asleep && b.post.asleep && !b.fellNow) {
			continue
		}
		isl := []*BodyM{b}
		done[b] = true
		for i := 0; i < len(isl); i++ {
			for _, o := range adj[isl[i]] {
				if !done[o] {
					done[o] = true
					isl = append(isl, o)
				}
			}
		}
		lo, hi := math.Inf(1), math.Inf(1)
		k, unk, asleep, awake := false, false, false, false
		for _, o := range isl {
			lo, hi = math.Min(lo, o.idleMin), math.Min(hi, o.idleMax)
			k = k || kin[o]
			unk = unk || unknown[o]
			asleep = asleep || o.fellNow
			awake = awake || !o.post.asleep
		}
		if asleep {
			s.probe("island-fell-asleep")
			if len(isl) > 1 {
				s.probe("island-of-many-fell-asleep")
			}
			s.check("sleep-safety")
			if hi < s.sleep*(1-1e-9)-1e-9 {
				for _, o := range isl {
					if o.idleMax == hi {
						s.fail("C09", "body %d fell asleep after at most %g s of idling in its island (body %d), threshold %g", b.id, hi, o.id, s.sleep)
						break
					}
				}
			}
			if awake {
				s.fail("C08", "only a part of the island of body %d fell asleep", b.id)
			}
		} else if s.sleep > 0 && !k && !unk && awake {
			if lo > s.sleep+2*s.dt+s.prevDt+1e-9 {
				s.fail("C09", "the island of body %d (%d bodies) idles since at least %g s, but did not fall asleep (threshold %g)", b.id, len(isl), lo, s.sleep)
			}
			s.check("sleep-liveness")
		}
		if asleep {
			for _, o := range isl {
				o.island, o.unsure = isl, unk
			}
		}
	}
}

// evalIntegration checks positions and velocities of what is not in contact or jointed (C15, C10).
func (s *Sim) evalIntegration() {
	dt := s.dt
	damp := math.Pow(s.damp, dt)
	for _, b := range s.bOrder {
		if !b.in {
			continue
		}
		x, y := &b.pre, &b.post
		sc := 1 + y.c.Len() + x.v.Len()*dt
		switch {
		case b.typ == STAT:
			s.check("immovable")
			if x.p != y.p || x.a != y.a || y.v != (V{}) || y.w != 0 {
				s.fail("C15", "static body %d moved from %v to %v", b.id, x.p, y.p)
				s.fail("C10", "static body %d moved from %v to %v", b.id, x.p, y.p)
			}
			continue
		case x.asleep:
			continue
		}
		{
			if !b.bias {
				dt := dt * b.kp()
				want := x.c.Add(x.v.Mul(dt))
				if y.c.Sub(want).Len() > 1e-9*sc {
					s.fail("C15", "body %d moved from %v with velocity %v in %g s to %v", b.id, x.c, x.v, dt, y.c)
					if b.typ == KIN {
						s.fail("C10", "kinematic body %d moved from %v with velocity %v in %g s to %v", b.id, x.c, x.v, dt, y.c)
					}
				}
				if math.Abs(y.a-(x.a+x.w*dt)) > 1e-9*(1+math.Abs(x.a)+math.Abs(x.w*dt)) {
					s.fail("C15", "body %d turned from %v with angular velocity %v in %g s to %v", b.id, x.a, x.w, dt, y.a)
					if b.typ == KIN {
						s.fail("C10", "kinematic body %d turned from %v with angular velocity %v in %g s to %v", b.id, x.a, x.w, dt, y.a)
					}
				}
				s.check("position-step")
			}
		}
		s.checkCustom(b)
		if b.typ == KIN {
			if !b.poked && b.customV <= 1 && (y.v != x.v || y.w != x.w) {
				s.fail("C15", "the velocity of kinematic body %d changed from %v,%v to %v,%v", b.id, x.v, x.w, y.v, y.w)
				s.fail("C10", "the velocity of kinematic body %d changed from %v,%v to %v,%v", b.id, x.v, x.w, y.v, y.w)
			}
			continue
		}
		if y.asleep {
			if (y.v != x.v || y.w != x.w) && !b.poked {
				s.fail("C08", "body %d changed its velocity in the step in which it fell asleep", b.id)
			}
			continue
		}
		if b.poked || b.wokeNow || b.late {
			continue
		}
		if y.f != (V{}) || y.t != 0 {
			s.fail("C15", "force %v and torque %v of body %d were not reset by the step", y.f, y.t, b.id)
		}
		if b.nSolved > 0 || len(b.cons) > 0 {
			continue
		}
		g := s.grav.Mul(b.kv()).Add(x.f.Mul(1 / x.m)).Mul(dt)
		want := x.v.Mul(damp).Add(g)
		if y.v.Sub(want).Len() > 1e-9*(1+x.v.Len()+g.Len()) {
			s.fail("C15", "free body %d: velocity %v became %v instead of %v (gravity %v force %v mass %v damping %v dt %v)", b.id, x.v, y.v, want, s.grav, x.f, x.m, damp, dt)
		}
		wt := x.w*damp + x.t/x.i*dt
		if math.Abs(y.w-wt) > 1e-9*(1+math.Abs(x.w)+math.Abs(x.t/x.i*dt)) {
			s.fail("C15", "free body %d: angular velocity %v became %v instead of %v", b.id, x.w, y.w, wt)
		}
		s.check("velocity-step")
	}
}

// evalJoints checks that the hooks of active constraints ran exactly once (C13).
func (s *Sim) evalJoints() {
	for _, c := range s.cOrder {
		act := c.in && !(c.a.post.asleep || c.b.post.asleep)
		if c.kind == JRatchet && c.in && (c.pre > 0 || act && c.hooks&1 != 0) {
			c.track()
		}
		if c.a.late || c.b.late {
			continue // restored after the hooks ran
		}
		if act {
			s.check("joint-hooks")
			if c.pre != 1-c.hooks&1 || c.post != 1-c.hooks>>1 {
				s.fail("C13", "constraint %d (bodies %d,%d awake): PreSolve ran %d and PostSolve %d times in a step", c.id, c.a.id, c.b.id, c.pre, c.post)
			}
			if c.custom {
				s.check("spring-law")
				if c.fcalls != 1 {
					s.fail("C13", "the force function of spring %d was called %d times in a step", c.id, c.fcalls)
				}
			}
		} else if c.pre+c.post+c.fcalls > 0 {
			s.fail("C13", "constraint %d is removed or sleeps, but its hooks ran (%d, %d, %d)", c.id, c.pre, c.post, c.fcalls)
		}
		c.a.nSolvedJ(c)
	}
}

func (b *BodyM) nSolvedJ(c *ConM) {}

// jointHook checks the impulse of a joint right after it was solved (C13).
func (s *Sim) jointHook(c *ConM) {
	if s.on["C13"] || s.on["C19"] {
		j := c.c.Class.GetImpulse()
		if !fin(j) {
			s.fail("C19", "constraint %d reports impulse %v", c.id, j)
			return
		}
		if c.kind == JSpring || c.kind == JRotSpring {
			return
		}
		if c.maxF < cp.INFINITY {
			s.check("joint-force-limit")
			if j > c.maxF*s.dt*(1+1e-9)+1e-12 {
				s.fail("C13", "constraint %d (kind %d) applied impulse %v, its limit is %v*%v", c.id, c.kind, j, c.maxF, s.dt)
			}
		}
	}
}

// evalArbiters checks Body.EachArbiter after the step (C03, C04).
func (s *Sim) evalArbiters() {
	if !s.on["C03"] && !s.on["C04"] {
		return
	}
	want := map[*BodyM]map[*Pair]bool{}
	add := func(b *BodyM, p *Pair) {
		if want[b] == nil {
			want[b] = map[*Pair]bool{}
		}
		want[b][p] = true
	}
	for _, p := range s.pairs {
		if p.a.in && p.b.in && (p.solved || p.asleep) {
			add(p.a.bm, p)
			add(p.b.bm, p)
		}
		if p.st == 2 || p.st == 1 && p.ign == 2 {
			return // not sure about everything
		}
	}
	for _, b := range s.bOrder {
		if !b.in {
			continue
		}
		got := map[*Pair]bool{}
		b.b.EachArbiter(func(arb *cp.Arbiter) {
			x, y := arb.Shapes()
			a1, a2 := s.byShp[x], s.byShp[y]
			if a1 == nil || a2 == nil || a1.bm != b {
				s.fail("C03", "Body.EachArbiter of body %d lists a contact whose first shape is not on that body", b.id)
				return
			}
			p := s.pair(a1, a2)
			if got[p] {
				s.fail("C03", "Body.EachArbiter of body %d lists shapes %d,%d twice", b.id, a1.id, a2.id)
			}
			got[p] = true
			if !want[b][p] {
				s.fail("C03", "Body.EachArbiter of body %d lists shapes %d,%d, which were not solved in this step (state %d)", b.id, a1.id, a2.id, p.st)
				return
			}
			if p.tok != nil && p.st == 1 && arb.UserData != interface{}(p.tok) {
				s.fail("C04", "Arbiter.UserData of shapes %d,%d is gone in EachArbiter", a1.id, a2.id)
			}
			s.check("each-arbiter")
			if s.viol == nil && p.solved && p.fresh && !s.overridden(p) && !a1.dirty && !a2.dirty && arb.Count() > 0 {
				// oriented from this body's point of view
				sp := separation(&a1.idx, &a2.idx)
				if sp.D < -1e-3 && sp.Gap2 > 1e-3 && vv(arb.Normal()).Dot(sp.N) < 0.5 {
					s.fail("C03", "Body.EachArbiter of body %d: normal %v of shapes %d,%d should point along %v", b.id, arb.Normal(), a1.id, a2.id, sp.N)
				}
			}
		})
		for p := range want[b] {
			if !got[p] {
				s.fail("C03", "Body.EachArbiter of body %d misses shapes %d,%d (asleep %v)", b.id, p.key.a, p.key.b, p.asleep)
			}
		}
	}
}

// evalRest checks that the contact sets of sleeping bodies stay what they were (C02).
func (s *Sim) evalRest() {
	if !s.on["C02"] && !s.on["C08"] {
		return
	}
	for _, b := range s.bOrder {
		if !b.in || b.typ != DYN || !b.sleeping() {
			continue
		}
		b.b.EachArbiter(func(arb *cp.Arbiter) {
			x, y := arb.Shapes()
			a1, a2 := s.byShp[x], s.byShp[y]
			if a1 == nil || a2 == nil {
				return
			}
			p := s.pair(a1, a2)
			if p.rest != nil && p.rest.step == s.stepNo && b.id > a2.bm.id {
				return // seen from the other body
			}
			r := s.restOf(arb, p, a1.bm.post.c, a2.bm.post.c)
			o := p.rest
			p.rest = r
			if o == nil || o.step != s.stepNo-1 || !b.pre.asleep || b.fellNow || b.wokeNow {
				return
			}
			s.check("contacts-at-rest")
			if !o.same(r, a1.bm.post.c, a2.bm.post.c) {
				s.fail("C02", "the contact set of the sleeping pair %d,%d changed from %+v to %+v", p.key.a, p.key.b, *o, *r)
			}
		})
	}
}

// restOf returns a contact set relative to the bodies, whose centers are c1 and c2 in the order of the arbiter.
func (s *Sim) restOf(arb *cp.Arbiter, p *Pair, c1, c2 V) *restSet {
	x, _ := arb.Shapes()
	set := arb.ContactPointSet()
	r := &restSet{step: s.stepNo, cnt: set.Count, n: vv(set.Normal)}
	flip := s.byShp[x] != p.a
	if flip {
		r.n = r.n.Mul(-1)
	}
	for i := 0; i < set.Count; i++ {
		q := [2]V{vv(set.Points[i].PointA).Sub(c1), vv(set.Points[i].PointB).Sub(c2)}
		if flip {
			q[0], q[1] = q[1], q[0]
		}
		r.p[i], r.d[i] = q, set.Points[i].Distance
	}
	return r
}

func (o *restSet) same(r *restSet, c1, c2 V) bool {
	ok := o.cnt == r.cnt && nearV(o.n, r.n, 1e-9)
	for i := 0; i < r.cnt && ok; i++ {
		sc := 1e-9 * (1 + c1.Len() + c2.Len())
		ok = nearV(o.p[i][0], r.p[i][0], sc) && nearV(o.p[i][1], r.p[i][1], sc)
	}
	return ok
}

// evalWoken checks that bodies woken up between two steps still have the contacts they fell asleep with (C02).
func (s *Sim) evalWoken() {
	if !s.on["C02"] || s.inStep || s.locked() {
		return
	}
	for _, b := range s.bOrder {
		if !b.in || b.typ != DYN || b.sleeping() || !b.post.asleep {
			continue
		}
		b.b.EachArbiter(func(arb *cp.Arbiter) {
			x, y := arb.Shapes()
			a1, a2 := s.byShp[x], s.byShp[y]
			if a1 == nil || a2 == nil || s.viol != nil {
				return
			}
			p := s.pair(a1, a2)
			o := p.rest
			if o == nil || o.step != s.stepNo {
				return
			}
			c1, c2 := a1.bm.state().c, a2.bm.state().c
			s.check("contacts-of-woken")
			if r := s.restOf(arb, p, c1, c2); !o.same(r, c1, c2) {
				s.fail("C02", "the contact set of pair %d,%d changed from %+v to %+v when it was woken up", p.key.a, p.key.b, *o, *r)
			}
		})
	}
}

// evalImpulses checks the solved contacts (C11) and the momentum balance of bodies without joints.
func (s *Sim) evalImpulses() {
	if !s.on["C11"] && !s.on["C19"] && !s.on["C24"] {
		return
	}
	type acc struct {
		j    V
		mag  float64
		tq   float64
		tqOK bool
		miss bool
		over bool
	}
	fail := func(over bool, f string, a ...interface{}) {
		if over {
			s.fail("C24", f+" (the contacts were replaced in a callback)", a...)
		}
		s.fail("C11", f, a...)
	}
	sum := map[*BodyM]*acc{}
	get := func(b *BodyM) *acc {
		if sum[b] == nil {
			sum[b] = &acc{tqOK: true}
		}
		return sum[b]
	}
	seen := map[pairKey]bool{}
	for _, e := range s.ev {
		if e.kind != EvPost || !e.inStep {
			continue
		}
		k := mkKey(e.s1.id, e.s2.id)
		if seen[k] {
			continue
		}
		seen[k] = true
		if !fin(e.j.X, e.j.Y, e.n.X, e.n.Y) {
			s.fail("C19", "impulse %v or normal %v of shapes %d,%d is not finite", e.j, e.n, e.s1.id, e.s2.id)
			return
		}
		jn := -e.j.Dot(e.n)
		jt := math.Abs(e.j.Cross(e.n))
		s.check("contact-impulse")
		over := s.overridden(s.pairs[k])
		if over {
			s.check("override-solved")
		}
		if jn < -1e-9*(1+e.j.Len()) {
			fail(over, "the contact of shapes %d,%d pulls them together: impulse on the first %v, normal %v", e.s1.id, e.s2.id, e.j, e.n)
		}
		mu := e.s1.u * e.s2.u
		if p := s.pairs[mkKey(e.s1.id, e.s2.id)]; p != nil && p.fresh && jt > mu*math.Max(jn, 0)*(1+1e-7)+1e-7*(1+e.j.Len()) {
			fail(over, "the contact of shapes %d,%d has tangential impulse %v, normal impulse %v, friction %v", e.s1.id, e.s2.id, jt, jn, mu)
		}
		for k, b := range []*BodyM{e.s1.bm, e.s2.bm} {
			a := get(b)
			j := e.j
			if k == 1 {
				j = j.Neg()
			}
			a.j = a.j.Add(j)
			a.mag += j.Len()
			a.over = a.over || over
			if e.cnt == 1 {
				a.tq += e.r[0][k].Sub(b.post.c).Cross(j)
			} else {
				a.tqOK = false
			}
		}
	}
	for _, p := range s.pairs {
		if p.solved && !seen[p.key] || p.st == 2 || p.st == 1 && p.ign == 2 {
			get(p.a.bm).miss = true
			get(p.b.bm).miss = true
		}
	}
	damp := math.Pow(s.damp, s.dt)
	for _, b := range s.bOrder {
		if !b.in || b.typ != DYN || b.post.asleep || b.poked || b.wokeNow || b.late || len(b.cons) > 0 {
			continue
		}
		a := sum[b]
		if a == nil || a.miss {
			continue
		}
		x, y := &b.pre, &b.post
		g := s.grav.Mul(b.kv()).Add(x.f.Mul(1 / x.m)).Mul(s.dt)
		want := x.v.Mul(damp).Add(g).Add(a.j.Mul(1 / x.m))
		tol := 1e-8 * (1 + x.v.Len() + g.Len() + y.v.Len() + a.mag/x.m*float64(s.iter+2))
		s.check("impulse-balance")
		if y.v.Sub(want).Len() > tol {
			fail(a.over, "body %d: the impulses reported by its contacts explain velocity %v, it has %v", b.id, want, y.v)
		}
		if a.tqOK {
			wt := x.w*damp + x.t/x.i*s.dt + a.tq/x.i
			tol := 1e-7 * (1 + math.Abs(x.w) + math.Abs(y.w) + (a.mag*(1+b.reach()))/x.i*float64(s.iter+2))
			s.check("torque-balance")
			if math.Abs(y.w-wt) > tol {
				fail(a.over, "body %d: the impulses reported by its contacts explain angular velocity %v, it has %v", b.id, wt, y.w)
			}
		}
	}
}

func (b *BodyM) reach() float64 {
	m := 0.0
	for _, sh := range b.shapes {
		for _, p := range sh.idx.P {
			m = math.Max(m, p.Sub(b.post.c).Len())
		}
		m += sh.r
	}
	return m
}
