package main

import (
	"github.com/jakecoffman/cp/v2"
)

// worlds (C17): several spaces live in one process, the scheduler decides which of them does its next operation, also in
// the middle of another's step; bodies taken out of one space move to another. Each has to go the way it goes alone.

func init() {
	specials["worlds"] = &Special{explore: worldsExplore, replay: worldsReplay}
}

func worldsExplore(name, prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim) {
	r := NewRng(hashU(seed, 6))
	tr := &Trace{Property: prop, Seed: seed, Cfg: Cfg{Scen: name, P: map[string]float64{"nest": r.Choose(0, 0.01, 0.05)}}}
	sims, s := soloWorlds(tr, r, scale*0.6, st)
	if s.viol != nil {
		tr.Violation = s.viol.String()
		return tr, s
	}
	n, total := len(sims), 0
	for i := range tr.Worlds {
		total += len(tr.Worlds[i].Ops)
	}
	burst := r.Between(1, 6)
	if r.P(0.5) {
		// the first world comes to its end early: its bodies are free
		for range tr.Worlds[0].Ops {
			tr.Sched = append(tr.Sched, 0)
			if r.P(0.2) {
				tr.Sched = append(tr.Sched, r.Intn(n))
			}
		}
	}
	for i := 0; i < 2*total; i++ {
		w := r.Intn(n)
		for k := r.Between(1, burst); k > 0; k-- {
			tr.Sched = append(tr.Sched, w)
		}
	}
	worldsRun(tr, sims, s, st)
	s.finishRun(st, name)
	for _, x := range sims {
		s.d(float64(x.dig >> 12))
	}
	if s.viol != nil {
		tr.Violation = s.viol.String()
	}
	return tr, s
}

// soloWorlds makes two or three worlds, each alone; s is the last of them.
func soloWorlds(tr *Trace, r *Rng, scale float64, st *Stats) (sims []*Sim, s *Sim) {
	for n := r.Between(2, 3); n > 0; n-- {
		base := pickName(r, twinBases)
		wtr := &Trace{Property: tr.Property, Seed: tr.Seed}
		begin(wtr)
		donors = sims
		cfg, ops, x := generate(base, tr.Property, r, scale, st, nil)
		donors = nil
		end()
		tr.Worlds = append(tr.Worlds, Trace{Property: tr.Property, Seed: tr.Seed, Cfg: cfg, Ops: ops})
		sims = append(sims, x)
		s = x
		if x.viol != nil {
			return
		}
	}
	return
}

func worldsReplay(tr *Trace, st *Stats) *Sim {
	var sims []*Sim
	var s *Sim
	for i := range tr.Worlds {
		w := &tr.Worlds[i]
		x := soloRun(w, tr.Property, st)
		sims = append(sims, x)
		s = x
		if x.viol != nil {
			return x
		}
	}
	worldsRun(tr, sims, s, st)
	for _, x := range sims {
		s.d(float64(x.dig >> 12))
	}
	return s
}

// soloRun executes one world alone.
func soloRun(w *Trace, prop string, st *Stats) *Sim {
	s := newSim(w.Cfg, prop, st)
	begin(w)
	defer end()
	s.digOn, s.opDigOn = true, true
	s.guard(func() {
		for i := range w.Ops {
			if s.viol != nil || s.over {
				break
			}
			s.opIdx = i
			s.exec(&w.Ops[i])
			s.opDig = append(s.opDig, s.dig)
		}
	})
	return s
}

// worldsRun executes the worlds interleaved and compares each with its solo run; a violation goes to out.
func worldsRun(tr *Trace, solo []*Sim, out *Sim, st *Stats) {
	nest := tr.Cfg.p("nest")
	at := make([]int, len(tr.Worlds))
	busy := make([]bool, len(tr.Worlds))
	var ws []*Sim
	st2 := NewStats()
	for i := range tr.Worlds {
		ws = append(ws, newSim(tr.Worlds[i].Cfg, tr.Property, st2))
	}
	pos, depth := 0, 0
	nr := NewRng(hashU(tr.Seed, 8))
	var bad *Violation
	live := func(w int) bool {
		return !busy[w] && at[w] < len(tr.Worlds[w].Ops) && ws[w].viol == nil && !ws[w].over && bad == nil
	}
	var one func(w int)
	one = func(w int) {
		i := at[w]
		at[w]++
		s := ws[w]
		busy[w] = true
		s.opIdx = i
		s.exec(&tr.Worlds[w].Ops[i])
		s.opDig = append(s.opDig, s.dig)
		busy[w] = false
		st.Probe["worlds-ops"]++
		if bad == nil && (i >= len(solo[w].opDig) || solo[w].opDig[i] != s.dig) {
			out.opIdx = i
			out.fail("C17", "world %d goes another way next to other spaces than alone, at its operation %s", w, tr.Worlds[w].Ops[i].K)
			bad = out.viol
		}
	}
	pick := func() int {
		for pos < len(tr.Sched) {
			w := tr.Sched[pos]
			pos++
			if w < len(ws) && live(w) {
				return w
			}
		}
		for w := range ws {
			if live(w) {
				return w
			}
		}
		return -1
	}
	for i := range ws {
		s := ws[i]
		s.digOn = true
		s.env = func() {
			if depth > 2 || bad != nil || !nr.P(nest) {
				return
			}
			if w := pick(); w >= 0 {
				depth++
				out.fault("other-space-in-callback")
				one(w)
				depth--
			}
		}
		s.donor = func(w, id int) *BodyM {
			if w < 0 || w >= len(ws) || live(w) || busy[w] {
				return nil
			}
			return ws[w].bodies[id]
		}
		s.donorShape = func(w, id int) *ShapeM {
			if w < 0 || w >= len(ws) || live(w) || busy[w] {
				return nil
			}
			return ws[w].shapes[id]
		}
	}
	out.guard(func() {
		for bad == nil {
			w := pick()
			if w < 0 {
				break
			}
			current.tr = &tr.Worlds[w]
			begin(current.tr)
			one(w)
			end()
		}
	})
	end()
	for w, s := range ws {
		if out.viol == nil && s.viol != nil {
			out.viol = s.viol
		}
		if out.viol == nil && len(s.opDig) != len(solo[w].opDig) {
			out.fail("C17", "world %d ends earlier or later next to other spaces", w)
		}
	}
	st.Checks["worlds-compared"]++
	st.Probe["body-moved-to-another-space"] += st2.Probe["body-moved-to-another-space"]
	st.Probe["shape-moved-to-another-space"] += st2.Probe["shape-moved-to-another-space"]
}

// ---- bodies that move between spaces ----

// donors are the worlds that the one being generated can take bodies from.
var donors []*Sim

// adopt queues the operations that put a removed body of another world into this one.
func (g *Gen) adopt() {
	r := g.r
	w := r.Intn(len(donors))
	d := donors[w]
	var c []*BodyM
	for _, b := range d.bOrder {
		if d.movable(b) && !g.taken[[2]int{w, b.id}] {
			c = append(c, b)
		}
	}
	if len(c) == 0 {
		return
	}
	b := c[r.Intn(len(c))]
	if g.taken == nil {
		g.taken = map[[2]int]bool{}
	}
	g.taken[[2]int{w, b.id}] = true
	id := g.newID("body")
	x := b.state()
	g.push(Op{K: "body", I: []int{id, b.typ, 0, w + 1, b.id}, F: []float64{x.m, x.i, x.p.X, x.p.Y, x.a, x.v.X, x.v.Y, x.w}})
	for _, sh := range d.sOrder {
		if sh.bm != b || sh.in || sh.staleI || !plainVerts(sh) {
			continue
		}
		sid := g.newID("shape")
		g.push(Op{K: "shape", I: []int{sid, id, sh.kind, int(b2f(sh.sensor)), sh.ctype, int(sh.group), int(sh.cat), int(sh.mask), 0, 0, sh.id},
			F: append([]float64{sh.e, sh.u, sh.sv.X, sh.sv.Y, 0, sh.r}, flat(sh.local)...)})
	}
}

// movable bodies are out of their space and carry nothing that a new body in the same state would not.
func (s *Sim) movable(b *BodyM) bool {
	if b.id == 0 || b.in || b.typ == STAT || b.customV+b.customP != 0 || b.bias || b.wasBias || b.cogLen() != 0 || len(b.shapes)+len(b.cons) > 0 {
		return false
	}
	for _, sh := range s.sOrder {
		if sh.bm == b && sh.mass > 0 {
			return false
		}
	}
	x := b.state()
	return x.f == (V{}) && x.t == 0 && (b.typ != DYN || b.ownMass && x.m > 0 && x.i > 0)
}

// plainVerts: the shape's vertices are stored as given.
func plainVerts(sh *ShapeM) bool {
	c, ok := sh.s.Class.(*cp.PolyShape)
	if !ok {
		return true
	}
	if c.Count() != len(sh.local) {
		return false
	}
	for i, p := range sh.local {
		if vv(c.Vert(i)) != p {
			return false
		}
	}
	return true
}

// adoptBody returns the body of another world that an operation asks for, if it is free and in the state that is asked for.
func (s *Sim) adoptBody(op *Op) *cp.Body {
	if s.donor == nil || op.i(3) == 0 {
		return nil
	}
	b := s.donor(op.i(3)-1, op.i(4))
	if b == nil || b.moved || b.in || b.typ != op.i(1) || b.customV+b.customP != 0 || b.bias || b.cogLen() != 0 || len(b.shapes)+len(b.cons) > 0 {
		return nil
	}
	x := b.state()
	if x.p != op.v(2) || x.a != op.f(4) || x.v != op.v(5) || x.w != op.f(7) || x.f != (V{}) || x.t != 0 || b.typ == DYN && (x.m != op.f(0) || x.i != op.f(1)) {
		return nil
	}
	b.moved = true
	s.probe("body-moved-to-another-space")
	return b.b
}

// adoptShape does the same for a shape of a body that was taken over.
func (s *Sim) adoptShape(op *Op, bm *BodyM) *cp.Shape {
	if s.donorShape == nil || op.i(10) == 0 || bm.from == 0 {
		return nil
	}
	d := s.donorShape(bm.from-1, op.i(10))
	if d == nil || d.in || d.bm.b != bm.b || d.kind != op.i(2) || !plainVerts(d) || d.r != op.f(5) || d.mass != 0 {
		return nil
	}
	if p := toPts(op.F[6:]); len(p) != len(d.local) {
		return nil
	} else {
		for i := range p {
			if p[i] != d.local[i] {
				return nil
			}
		}
	}
	s.probe("shape-moved-to-another-space")
	return d.s
}
