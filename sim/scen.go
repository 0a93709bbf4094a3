package main

import (
	"fmt"
	"math"
)

// Dedicated scenarios: small worlds in which a promise about the dynamics can be judged at the end of the run.

func init() {
	scenarios["mech"] = &Scenario{cfg: mechCfg, gen: mechGen}
	scenarios["impact"] = &Scenario{cfg: impactCfg, gen: impactGen}
	scenarios["settle"] = &Scenario{cfg: settleCfg, gen: settleGen, install: settleInstall}
	scenarios["slope"] = &Scenario{cfg: slopeCfg, gen: slopeGen, install: slopeInstall}
	scenarios["rest"] = &Scenario{cfg: restCfg, gen: restGen, install: restInstall}
	plans["C10"] = []pick{{"history", 3}, {"mech", 3}, {"impact", 3}}
	plans["C11"] = []pick{{"history", 3}, {"impact", 4}, {"slope", 1}}
	plans["C12"] = []pick{{"settle", 4}, {"mech", 2}}
	plans["C13"] = []pick{{"history", 2}, {"mech", 4}}
	plans["C14"] = []pick{{"rest", 3}, {"impact", 1}, {"history", 1}}
}

func baseCfg(r *Rng) Cfg {
	c := Cfg{Iter: r.Between(1, 15), Damp: 1, Slop: r.Choose(0.1, 0.1, 0.01, 0.5, 0), P: map[string]float64{}}
	if r.P(0.3) {
		c.Hash, c.HashD, c.HashN = true, r.Choose(1, 3, 10, 40), []int{1, 7, 100, 1000}[r.Intn(4)]
	}
	// a catch-all handler, to see the impulses
	for i := 0; i < 3; i++ {
		c.Handle = append(c.Handle, HandlerCfg{Wild: true, A: i, Mask: 15})
	}
	return c
}

func scriptGen(r *Rng, s *Sim) *Gen {
	g := &Gen{r: r, s: s, size: r.Choose(2, 4, 8), area: 25, dt: r.Choose(1.0/60, 1.0/60, 1.0/30, 1.0/120)}
	return g
}

// addBody makes a body without shapes.
func (g *Gen) addBody(typ int, m, i float64, p V, a float64, v V, w float64) int {
	id := g.newID("body")
	g.push(Op{K: "body", I: []int{id, typ, 0}, F: []float64{m, i, p.X, p.Y, a, v.X, v.Y, w}})
	return id
}

// simpleShape adds a shape with given material.
func (g *Gen) simpleShape(body, kind int, pts []V, rad, e, u float64) int {
	id := g.newID("shape")
	g.push(Op{K: "shape", I: []int{id, body, kind, 0, g.r.Intn(3), 0, -1, -1, 0, 0}, F: append([]float64{e, u, 0, 0, 0, rad}, flat(pts)...)})
	return id
}

func box(w, h float64) []V { return []V{{w, -h}, {w, h}, {-w, h}, {-w, -h}} }

// ---- mech: bodies and joints without contacts ----

func mechCfg(r *Rng, prop string) Cfg {
	c := baseCfg(r)
	c.Handle = nil
	if r.P(0.5) {
		c.Grav = V{r.Range(-100, 100), r.Range(-200, 100)}
	}
	if r.P(0.4) {
		c.Damp = r.Range(0.1, 1)
	}
	c.P["preField"] = sub(r, 0.3, r.Choose(0.02, 0.1, 0.5))
	return c
}

func mechGen(r *Rng, s *Sim, prop string, scale float64) *Gen {
	g := scriptGen(r, s)
	g.max = int(float64(r.Between(60, 250)) * scale)
	n := r.Between(2, 5)
	closed := prop == "C10" || r.P(0.4)
	for i := 0; i < n; i++ {
		typ := DYN
		if !closed && i > 0 {
			typ = r.Pick([]float64{5, 1, 1})
		}
		m, in := 0.0, 0.0
		if typ == DYN {
			m, in = r.Range(0.5, 10), r.Range(5, 300)
		}
		sp := r.Choose(0, 10, 60)
		v := V{r.Range(-sp, sp), r.Range(-sp, sp)}
		w := r.Range(-1, 1) * r.Choose(0, 1, 5)
		if typ != DYN {
			v = v.Mul(0.3)
		}
		id := g.addBody(typ, m, in, V{r.Range(-20, 20), r.Range(-20, 20)}, r.Range(-3, 3), v, w)
		if typ == DYN && r.P(0.3) {
			// an off-center mass
			sid := g.newID("shape")
			g.push(Op{K: "shape", I: []int{sid, id, 0, 1, 0, 1, -1, -1, 0, 0}, F: []float64{0, 0, 0, 0, r.Range(0.5, 8), r.Range(0.5, 3), r.Range(-3, 3), r.Range(-3, 3)}})
		}
	}
	joints := r.Between(1, n)
	if r.P(0.6) {
		joints = 1
	}
	only := -1
	if r.P(0.7) {
		only = r.Intn(JKinds)
	}
	g.next = func() (Op, bool) {
		if len(g.setup) > 0 {
			o := g.setup[0]
			g.setup = g.setup[1:]
			return o, true
		}
		pickB := func() *BodyM { return s.bOrder[r.Intn(len(s.bOrder))] }
		for joints > 0 {
			joints--
			a, b := pickB(), pickB()
			if closed && (a.id == 0 || b.id == 0) || a == b || a.typ != DYN && b.typ != DYN {
				if r.P(0.9) {
					joints++
				}
				continue
			}
			k := r.Intn(JKinds)
			if only >= 0 {
				k = only
			}
			return g.joint(a, b, k), true
		}
		if g.max <= 0 {
			return Op{}, false
		}
		g.max--
		b := pickB()
		switch r.Pick([]float64{12, 0.3, 0.3, 0.3, 0.2, 0.2, 0.2, 0.2, 0.1, 0.1, 0.1, 0.1}) {
		case 1:
			return Op{K: "impW", I: []int{b.id}, F: []float64{r.Range(-50, 50), r.Range(-50, 50), b.post.c.X + r.Range(-5, 5), b.post.c.Y + r.Range(-5, 5)}}, true
		case 2:
			return Op{K: "vel", I: []int{b.id}, F: []float64{r.Range(-40, 40), r.Range(-40, 40)}}, true
		case 3:
			if len(s.cOrder) > 0 {
				return Op{K: "cparam", I: []int{s.cOrder[r.Intn(len(s.cOrder))].id, r.Intn(3)}, F: []float64{r.Choose(0.2, 0.9, 0.001)}}, true
			}
		case 4:
			if len(s.cOrder) > 0 {
				return Op{K: "cparam", I: []int{s.cOrder[r.Intn(len(s.cOrder))].id, 0}, F: []float64{r.Choose(1, 10, 100, 1e4)}}, true
			}
		case 5:
			g.dt = r.Choose(1.0/60, 1.0/30, 1.0/120, 1.0/200)
		case 6:
			if b.id != 0 {
				return Op{K: "ang", I: []int{b.id, 0}, F: []float64{r.Range(-7, 7)}}, true
			}
		case 7:
			if b.id != 0 {
				return Op{K: "pos", I: []int{b.id, 0}, F: []float64{r.Range(-20, 20), r.Range(-20, 20)}}, true
			}
		case 8:
			if len(s.cOrder) > 0 {
				c := s.cOrder[r.Intn(len(s.cOrder))]
				k := "rmcon"
				if !c.in {
					k = "addcon"
				}
				return Op{K: k, I: []int{c.id}}, true
			}
		case 9:
			return Op{K: "forW", I: []int{b.id}, F: []float64{r.Range(-500, 500), r.Range(-500, 500), b.post.c.X + r.Range(-5, 5), b.post.c.Y + r.Range(-5, 5)}}, true
		case 10:
			k := r.Intn(2)
			return Op{K: []string{"mass", "moment"}[k], I: []int{b.id}, F: []float64{[]float64{r.Range(0.5, 10), r.Range(5, 300)}[k]}}, true
		case 11:
			if len(s.cOrder) > 0 {
				return g.field(s.cOrder[r.Intn(len(s.cOrder))]), true
			}
		}
		return g.step(), true
	}
	return g
}

// ---- impact: pairs of bodies thrown at each other ----

func impactCfg(r *Rng, prop string) Cfg {
	c := baseCfg(r)
	if r.P(0.3) {
		c.Grav = V{r.Range(-50, 50), r.Range(-100, 50)}
	}
	return c
}

func impactGen(r *Rng, s *Sim, prop string, scale float64) *Gen {
	g := scriptGen(r, s)
	g.size = r.Choose(1, 3)
	rounds := int(float64(r.Between(4, 10)) * scale)
	n := r.Between(2, 3)
	e, u := r.Choose(0, 0.5, 1, r.Range(0, 1)), r.Choose(0, 0, 0.5, 1)
	for i := 0; i < n; i++ {
		typ := DYN
		if i == 1 {
			typ = r.Pick([]float64{4, 1, 1})
		}
		m, in := 0.0, 0.0
		if typ == DYN {
			m, in = r.Range(0.5, 10), r.Range(5, 100)
		}
		id := g.addBody(typ, m, in, V{float64(i) * 30, 0}, 0, V{}, 0)
		for k := r.Between(1, 2); k > 0; k-- {
			if r.P(0.5) {
				g.simpleShape(id, 0, []V{{}}, r.Range(0.5, 3), r.Choose(e, 1), r.Choose(u, 1))
				break
			}
			g.randShape(id, typ == DYN && r.P(0.3))
		}
	}
	left := 0
	g.next = func() (Op, bool) {
		if len(g.setup) > 0 {
			o := g.setup[0]
			g.setup = g.setup[1:]
			return o, true
		}
		if left == 0 {
			if rounds == 0 {
				return Op{}, false
			}
			rounds--
			left = r.Between(5, 30)
			ctr := V{r.Range(-5, 5), r.Range(-5, 5)}
			for i, b := range s.bOrder[1:] {
				ang := r.Range(0, 2*math.Pi)
				if i == 1 {
					ang = r.Choose(0, math.Pi/2, ang)
				}
				d := V{math.Cos(ang), math.Sin(ang)}
				dist := r.Range(0, 12) * float64(i)
				p := ctr.Add(d.Mul(dist))
				v := d.Mul(-r.Range(0, 60)).Add(V{r.Range(-5, 5), r.Range(-5, 5)})
				g.push(Op{K: "pos", I: []int{b.id, 1}, F: []float64{p.X, p.Y}})
				g.push(Op{K: "ang", I: []int{b.id, 1}, F: []float64{r.Choose(0, r.Range(-4, 4))}})
				if b.typ == DYN {
					g.push(Op{K: "vel", I: []int{b.id}, F: []float64{v.X, v.Y}})
					g.push(Op{K: "avel", I: []int{b.id}, F: []float64{r.Choose(0, r.Range(-3, 3))}})
				} else if b.typ == KIN {
					g.push(Op{K: "vel", I: []int{b.id}, F: []float64{r.Range(-10, 10), r.Range(-10, 10)}})
				}
			}
			if r.P(0.3) {
				g.dt = r.Choose(1.0/60, 1.0/30, 1.0/120, 1.0/240)
			}
		}
		left--
		if r.P(0.02) {
			if sh := s.pickShape(r); sh != nil {
				return Op{K: "elast", I: []int{sh.id}, F: []float64{r.Choose(0, 0.5, 1)}}, true
			}
		}
		return g.step(), true
	}
	return g
}

// ---- settle: a joint between two bodies (or a chain) has to reach and hold what it promises ----

func settleCfg(r *Rng, prop string) Cfg {
	c := baseCfg(r)
	c.Handle = nil
	c.Damp = r.Range(0.02, 0.3)
	if r.P(0.5) {
		c.Grav = V{0, -r.Range(10, 200)}
	}
	if r.P(0.3) {
		c.Iter = 10
	}
	c.P["kind"] = float64(r.Intn(JKinds))
	c.P["n"] = 1
	if r.P(0.3) {
		c.P["n"] = float64(r.Between(2, 4))
		c.Iter = r.Between(10, 20)
		c.P["kind"] = []float64{JPin, JSlide, JPivot}[r.Intn(3)]
	}
	return c
}

func settleGen(r *Rng, s *Sim, prop string, scale float64) *Gen {
	g := scriptGen(r, s)
	g.size = r.Choose(1, 2, 4)
	kind, n := int(s.cfg.p("kind")), int(s.cfg.p("n"))
	first := 0
	p := V{r.Range(-10, 10), r.Range(-10, 10)}
	mk := func(typ int) int {
		m, in := 0.0, 0.0
		if typ == DYN {
			// a lever much longer than the radius of gyration makes any such solver stiff
			m = r.Range(0.5, 10)
			if n > 1 {
				m = r.Range(1, 3)
			}
			in = m * r.Range(15, 60)
		}
		v := V{}
		w := 0.0
		if typ == DYN {
			v, w = V{r.Range(-20, 20), r.Range(-20, 20)}, r.Range(-3, 3)
		}
		return g.addBody(typ, m, in, p, r.Range(-2, 2), v, w)
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		first = mk(KIN)
	case 2:
		first = mk(STAT)
	case 3:
		first = mk(DYN)
	}
	type link struct{ a, b int }
	var links []link
	prev := first
	for i := 0; i < n; i++ {
		p = p.Add(V{r.Range(-8, 8), r.Range(-8, 8)})
		id := mk(DYN)
		if r.P(0.5) && prev != first {
			links = append(links, link{id, prev})
		} else {
			links = append(links, link{prev, id})
		}
		prev = id
	}
	phase, left := 0, 0
	total := int(12 / g.dt)
	g.next = func() (Op, bool) {
		for {
			if len(g.setup) > 0 {
				o := g.setup[0]
				g.setup = g.setup[1:]
				return o, true
			}
			if left > 0 {
				left--
				return g.step(), true
			}
			switch phase {
			case 0:
				for _, l := range links {
					o := g.joint(s.bodies[l.a], s.bodies[l.b], kind)
					// strong enough to get there in time
					o.I[5] = 0
					o.F[0] = 0
					if o.F[1] > 0 {
						o.F[1] = r.Choose(0.2, 0.1, 0.001)
					}
					if o.F[2] != 0 {
						o.F[2] = r.Choose(10, 100)
					}
					// damping that eats in one step nearly all the speed the spring gave would make it crawl
					light, turn := 0.0, 0.0
					for k, x := range []int{l.a, l.b} {
						if b := s.bodies[x]; b.typ == DYN {
							light += 1 / b.m0
							turn += 1 / b.i0
							if kind == JSpring {
								light += math.Max(o.F[3+2*k]*o.F[3+2*k]+o.F[4+2*k]*o.F[4+2*k], 2*g.size*g.size) / b.i0
							}
						}
					}
					if kind == JSpring {
						o.F[len(o.F)-1] = math.Min(r.Range(10, 20), 30/light)
						o.F[len(o.F)-2] = r.Range(30, 80)
					}
					if kind == JRotSpring {
						o.F[len(o.F)-1] = math.Min(r.Range(400, 600), 30/turn)
						o.F[len(o.F)-2] = r.Range(1000, 1500)
					}
					g.push(o)
				}
				phase, left = 1, total
			case 1:
				g.push(Op{K: "judge"})
				phase = 2
			case 2:
				// disturb and wait again
				if r.P(0.5) {
					for _, c := range s.cOrder {
						o := g.field(c)
						switch {
						case c.kind == JSpring && o.I[1] == 0:
							o.F[1], o.F[2] = c.g(5), c.g(6)
						case c.kind == JRotSpring:
							o.F[1], o.F[2] = c.g(1), c.g(2)
						case c.kind == JGear:
							continue
						}
						g.push(o)
					}
				}
				for _, l := range links {
					b := l.b
					if s.bodies[b].typ != DYN {
						b = l.a
					}
					if n == 1 && kind != JSpring && kind != JRotSpring && r.P(0.3) {
						k := r.Choose(0.2, 0.5, 2, 5)
						both := r.P(0.5)
						if both || k > 1 {
							g.push(Op{K: "moment", I: []int{b}, F: []float64{s.bodies[b].i0 * k}})
						}
						if both || k < 1 {
							g.push(Op{K: "mass", I: []int{b}, F: []float64{s.bodies[b].m0 * k}})
						}
					}
					switch r.Intn(3) {
					case 0:
						g.push(Op{K: "impW", I: []int{b}, F: []float64{r.Range(-100, 100), r.Range(-100, 100), s.bodies[b].post.c.X + r.Range(-3, 3), s.bodies[b].post.c.Y}})
					case 1:
						q := s.bodies[b].post.p
						g.push(Op{K: "pos", I: []int{b, 0}, F: []float64{q.X + r.Range(-5, 5), q.Y + r.Range(-5, 5)}})
					case 2:
						turn := r.Range(-2, 2)
						if r.P(0.4) {
							turn += 2 * math.Pi * float64(r.Intn(9)-4)
						}
						g.push(Op{K: "ang", I: []int{b, 0}, F: []float64{s.bodies[b].post.a + turn}})
					}
				}
				if r.P(0.3) {
					g.dt = r.Choose(1.0/60, 1.0/30, 1.0/120)
					total = int(12 / g.dt)
				}
				phase, left = 3, total
			case 3:
				g.push(Op{K: "judge"})
				phase = 4
			default:
				return Op{}, false
			}
		}
	}
	return g
}

// jointError is how far a joint is from what it promises.
func (s *Sim) jointError(c *ConM) float64 {
	a, b := c.a.b, c.b.b
	rel := b.Angle() - a.Angle()
	wrel := b.AngularVelocity() - a.AngularVelocity()
	out := func(x, lo, hi float64) float64 { return math.Max(0, math.Max(lo-x, x-hi)) }
	switch c.kind {
	case JPin:
		ra, rb := c.anchors()
		return math.Abs(rb.Sub(ra).Len() - c.dist0)
	case JSlide:
		ra, rb := c.anchors()
		return out(rb.Sub(ra).Len(), c.g(4), c.g(5))
	case JPivot:
		ra, rb := c.anchors()
		return rb.Sub(ra).Len()
	case JGroove:
		_, rb := c.anchors()
		w := func(l V) V { return l.Rot(a.Angle()).Add(vv(a.Position())) }
		return rb.Sub(closestOnSeg(rb, w(V{c.g(0), c.g(1)}), w(V{c.g(2), c.g(3)}))).Len()
	case JGear:
		return math.Abs(b.Angle()*c.g(1) - a.Angle() - c.g(0))
	case JRotLimit:
		return out(rel, c.g(0), c.g(1))
	case JRatchet:
		if c.toothBad {
			return 0
		}
		return math.Max(0, (c.tooth-rel)*sign(c.g(1)))
	case JMotor:
		return math.Abs(wrel + c.g(0))
	case JSpring:
		if s.grav.Len() > 0 && (c.a.typ != DYN || c.b.typ != DYN) {
			return 0 // it hangs
		}
		ra, rb := c.anchors()
		return math.Abs(c.law(rb.Sub(ra).Len())) / c.g(5)
	}
	if c.custom {
		return 0 // several rest angles, some unstable
	}
	return math.Abs(-rel - c.g(0))
}

func settleInstall(s *Sim) {
	s.judge = func() {
		if !s.on["C12"] || s.time-s.calm < 11.9 {
			return
		}
		for _, c := range s.cOrder {
			if !c.in {
				continue
			}
			e := s.jointError(c)
			s.check("joint-converged")
			s.maxErr(fmt.Sprintf("c12-kind%d-n%v", c.kind, s.cfg.p("n") > 1), e)
			tol := 0.05
			if c.kind == JSlide || c.kind == JGroove {
				// at its end such a joint may let go for one step
				tol += 2 * s.grav.Len() * s.dt * s.dt
				if s.cfg.p("n") > 1 {
					tol += 10 * s.grav.Len() * s.dt * s.dt
				}
			}
			s.maxErr(fmt.Sprintf("c12-rel%d-n%v", c.kind, s.cfg.p("n") > 1), e/tol)
			if e > tol {
				s.fail("C12", "constraint %d (kind %d) is off by %v after 12 s", c.id, c.kind, e)
			}
		}
	}
}

// ---- slope: friction and surface velocity ----

func slopeCfg(r *Rng, prop string) Cfg {
	c := baseCfg(r)
	c.Iter = r.Between(10, 20)
	p := c.P
	p["g"] = r.Range(50, 300)
	p["turn"] = r.Range(-3, 3) // the whole scene is turned
	p["tilt"] = r.Range(-0.7, 0.7)
	p["belt"] = 0
	p["u"] = r.Range(0, 1)
	if r.P(0.4) {
		p["belt"] = r.Range(-30, 30)
		p["tilt"] = 0
		p["u"] = r.Range(0.3, 1)
	}
	p["circle"] = float64(r.Intn(2))
	p["swap"] = float64(r.Intn(2))
	t := p["turn"]
	c.Grav = V{0, -p["g"]}.Rot(t)
	if c.Hash {
		c.HashD = 40 // the ground is long
	}
	c.Slop = 0.1
	return c
}

func slopeGen(r *Rng, s *Sim, prop string, scale float64) *Gen {
	g := scriptGen(r, s)
	p := s.cfg.p
	g.dt = r.Choose(1.0/60, 1.0/120)
	ang := p("turn") + p("tilt")
	rot := func(v V) V { return v.Rot(ang) }
	off := V{r.Range(-20, 20), r.Range(-20, 20)}
	// the surface runs along x through off, in the turned frame
	ground := func() {
		id := g.newID("shape")
		bid := 0
		if r.P(0.3) {
			bid = g.addBody(STAT, 0, 0, V{}, 0, V{}, 0)
		} else if r.P(0.3) {
			bid = g.addBody(KIN, 0, 0, V{}, 0, V{}, 0)
		}
		sv := rot(V{p("belt"), 0})
		a, b := rot(V{-900, -1}).Add(off), rot(V{900, -1}).Add(off)
		if r.P(0.5) {
			a, b = b, a
		}
		pts, rad, kind := []V{a, b}, 1.0, 1
		if r.P(0.3) {
			kind, rad = 2, 0
			for _, q := range []V{{900, -50}, {900, 0}, {-900, 0}, {-900, -50}} {
				pts = append(pts, rot(q).Add(off))
			}
			pts = pts[2:]
		}
		g.push(Op{K: "shape", I: []int{id, bid, kind, 0, 0, 0, -1, -1, 0, 0}, F: append([]float64{0, 1, sv.X, sv.Y, 0, rad}, flat(pts)...)})
	}
	thing := func() {
		m := r.Range(0.5, 10)
		if p("circle") > 0 {
			rad := r.Range(1, 4)
			id := g.addBody(DYN, m, m*rad*rad/2, rot(V{0, rad - 0.05}).Add(off), ang, V{}, 0)
			g.push(Op{K: "shape", I: []int{g.newID("shape"), id, 0, 0, 1, 0, -1, -1, 0, 0}, F: []float64{0, p("u"), 0, 0, 0, rad, 0, 0}})
			return
		}
		w, h := r.Range(2, 5), r.Range(0.5, 1)
		id := g.addBody(DYN, m, m*(w*w+h*h)/3, rot(V{0, h - 0.05}).Add(off), ang, V{}, 0)
		g.push(Op{K: "shape", I: []int{g.newID("shape"), id, 2, 0, 1, 0, -1, -1, 0, 0}, F: append([]float64{0, p("u"), 0, 0, 0, 0}, flat(box(w, h))...)})
	}
	if p("swap") > 0 {
		thing()
		ground()
	} else {
		ground()
		thing()
	}
	left := int(2 / g.dt)
	g.next = func() (Op, bool) {
		if len(g.setup) > 0 {
			o := g.setup[0]
			g.setup = g.setup[1:]
			return o, true
		}
		if left > 0 {
			left--
			return g.step(), true
		}
		if left == 0 {
			left--
			return Op{K: "judge"}, true
		}
		return Op{}, false
	}
	return g
}

func slopeInstall(s *Sim) {
	var v1, w1 float64 // speed along the surface after 1 s
	t1 := -1.0
	ang := s.cfg.p("turn") + s.cfg.p("tilt")
	dir := V{1, 0}.Rot(ang)
	thing := func() *BodyM {
		for _, b := range s.bOrder {
			if b.typ == DYN {
				return b
			}
		}
		return nil
	}
	s.extra = func() {
		if b := thing(); b != nil && t1 < 0 && s.time >= 1 {
			t1, v1, w1 = s.time, b.post.v.Dot(dir), b.post.w
		}
	}
	s.judge = func() {
		b := thing()
		if b == nil || t1 < 0 || !s.on["C11"] {
			return
		}
		dt := s.time - t1
		if dt < 0.5 || s.time-s.calm < 1.9 {
			return
		}
		v2 := b.post.v.Dot(dir)
		acc := (v2 - v1) / dt
		g, u, th := s.cfg.p("g"), s.cfg.p("u"), s.cfg.p("tilt")
		along := -g * math.Sin(th) // acceleration along dir without friction
		press := g * math.Cos(th)
		if belt := s.cfg.p("belt"); belt != 0 {
			s.check("belt")
			if u*press*0.9 < math.Abs(belt) {
				return // not carried yet
			}
			if s.cfg.p("circle") > 0 {
				// a ball on a belt: its lowest point takes the speed of the belt
				r := b.sortedShapes()[0].r
				low := v2 + b.post.w*r
				if math.Abs(low-belt) > 0.02*(1+math.Abs(belt)) {
					s.fail("C11", "the lowest point of a ball on a belt that runs at %v moves at %v", belt, low)
				}
			} else if math.Abs(v2-belt) > 0.02*(1+math.Abs(belt)) {
				s.fail("C11", "a box on a belt that runs at %v moves at %v", belt, v2)
			}
			return
		}
		want := 0.0
		if s.cfg.p("circle") > 0 {
			// a disk rolls with a = g sin/1.5 as long as friction suffices (a third of g sin)
			if math.Abs(along)/3 < u*press*0.95 {
				want = along / 1.5
				r := b.sortedShapes()[0].r
				s.maxErr("c11-roll", math.Abs(v2+b.post.w*r)/(1+math.Abs(v2)))
			} else if math.Abs(along)/3 > u*press*1.05 {
				want = along - sign(along)*u*press
			} else {
				return
			}
		} else {
			if math.Abs(along) < u*press*0.95 {
				s.probe("box-sticks")
			} else if math.Abs(along) > u*press*1.05 {
				want = along - sign(along)*u*press
				s.probe("box-slides")
			} else {
				return
			}
		}
		_ = w1
		s.check("slope")
		s.maxErr("c11-slope", math.Abs(acc-want)/g)
		if math.Abs(acc-want) > 0.01*g {
			s.fail("C11", "on a slope of %v with friction %v and gravity %v a body (circle: %v) accelerates at %v instead of %v", th, u, g, s.cfg.p("circle") > 0, acc, want)
		}
	}
}

// ---- rest: overlaps, stacks, piles and containers ----

var restSecs = []float64{4, 8, 6, 15, 6}

var restDepth = []float64{0.001, 0.2, 0.1, 0.3, 0}
var restSpeed = []float64{1e-6, 0.5, 3, 8, 0}

const (
	restOverlap = iota
	restDrop
	restStack
	restPile
	restBox
	restKinds
)

func restCfg(r *Rng, prop string) Cfg {
	c := baseCfg(r)
	c.Iter = r.Between(10, 20)
	c.Slop = r.Choose(0.1, 0.1, 0.05, 0.2)
	m := r.Intn(restKinds)
	c.P["mode"] = float64(m)
	if m != restOverlap && m != restBox {
		c.Grav = V{0, -r.Range(50, 200)}
	}
	if m == restPile {
		c.Damp = r.Range(0.3, 0.8)
	}
	if m == restBox && r.P(0.5) {
		c.Grav = V{r.Range(-50, 50), r.Range(-50, 50)}
		c.Damp = 0.8
	}
	if (m == restDrop || m == restStack || m == restPile) && r.P(0.5) {
		c.Sleep = 0.5
		c.Idle = r.Choose(0, 1, 2)
	}
	return c
}

func restGen(r *Rng, s *Sim, prop string, scale float64) *Gen {
	g := scriptGen(r, s)
	g.dt = r.Choose(1.0/60, 1.0/60, 1.0/120)
	secs := restSecs[int(s.cfg.p("mode"))]
	rigid := func(p V, a float64, sz float64, e, u float64) int {
		m := r.Range(1, 5)
		switch r.Intn(3) {
		case 0:
			id := g.addBody(DYN, m, m*sz*sz/2, p, a, V{}, 0)
			g.simpleShape(id, 0, []V{{}}, sz, e, u)
			return id
		case 1:
			w, h := sz, sz*r.Range(0.6, 1)
			id := g.addBody(DYN, m, m*(w*w+h*h)/3, p, a, V{}, 0)
			g.simpleShape(id, 2, box(w, h), r.Choose(0, 0, 0.1), e, u)
			return id
		}
		l := sz
		id := g.addBody(DYN, m, m*(l*l)/2, p, a, V{}, 0)
		g.simpleShape(id, 1, []V{{-l * 0.7, 0}, {l * 0.7, 0}}, sz*0.4, e, u)
		return id
	}
	switch int(s.cfg.p("mode")) {
	case restOverlap:
		n := r.Between(2, 5)
		for i := 0; i < n; i++ {
			rigid(V{r.Range(-3, 3), r.Range(-3, 3)}, r.Range(-3, 3), r.Range(1, 3), r.Choose(0, 1), r.Choose(0, 1))
		}
		if r.P(0.5) {
			g.simpleShape(0, 1, []V{{-50, 0}, {50, 0}}, r.Choose(0.5, 1), 1, 1)
		}
	case restDrop:
		g.ground(r)
		rigid(V{r.Range(-5, 5), r.Range(4, 15)}, r.Range(-3, 3), r.Range(1, 3), r.Choose(0, 0.3), r.Range(0.3, 1))
	case restStack:
		g.ground(r)
		n := r.Between(1, 5)
		y := 0.0
		for i := 0; i < n; i++ {
			w, h := r.Range(2, 4), r.Range(1, 2)
			if i > 0 {
				w = math.Min(w, 3)
			}
			m := r.Range(1, 2)
			id := g.addBody(DYN, m, m*(w*w+h*h)/3, V{r.Range(-0.3, 0.3), y + h}, 0, V{}, 0)
			g.simpleShape(id, 2, box(w, h), r.Choose(0, 0, 0.05), 0, r.Range(0.5, 1))
			y += 2 * h
		}
	case restPile:
		g.simpleShape(0, 1, []V{{-15, 0}, {15, 0}}, 2, 0, 1)
		g.simpleShape(0, 1, []V{{-15, 0}, {-15, 80}}, 2, 0, 1)
		g.simpleShape(0, 1, []V{{15, 0}, {15, 80}}, 2, 0, 1)
		n := r.Between(2, 12)
		for i := 0; i < n; i++ {
			rigid(V{r.Range(-9, 9), 5 + 5*float64(i)}, r.Range(-3, 3), r.Range(1, 2.2), 0, r.Range(0.4, 1))
		}
	case restBox:
		z := r.Range(8, 20)
		t := r.Range(1, 3)
		for _, l := range [][2]V{{{-z, -z}, {z, -z}}, {{z, -z}, {z, z}}, {{z, z}, {-z, z}}, {{-z, z}, {-z, -z}}} {
			g.simpleShape(0, 1, []V{l[0], l[1]}, t, r.Choose(0, 1), r.Choose(0, 1))
		}
		n := r.Between(1, 6)
		for i := 0; i < n; i++ {
			id := rigid(V{r.Range(-z/2, z/2), r.Range(-z/2, z/2)}, r.Range(-3, 3), r.Range(0.8, 1.5), r.Choose(0, 0.5, 1), r.Choose(0, 1))
			g.push(Op{K: "vel", I: []int{id}, F: []float64{r.Range(-30, 30), r.Range(-30, 30)}})
		}
	}
	left := int(secs / g.dt)
	g.next = func() (Op, bool) {
		if len(g.setup) > 0 {
			o := g.setup[0]
			g.setup = g.setup[1:]
			return o, true
		}
		if left > 0 {
			left--
			return g.step(), true
		}
		if left == 0 {
			left--
			return Op{K: "judge"}, true
		}
		return Op{}, false
	}
	return g
}

// ground is flat, its surface is at y = 0.
func (g *Gen) ground(r *Rng) {
	switch r.Intn(3) {
	case 0:
		rad := r.Range(0.5, 3)
		g.simpleShape(0, 1, []V{{-200, -rad}, {200, -rad}}, rad, 0, 1)
	case 1:
		id := g.addBody(STAT, 0, 0, V{0, -10}, 0, V{}, 0)
		g.simpleShape(id, 2, box(200, 10), 0, 0, 1)
	case 2:
		id := g.addBody(KIN, 0, 0, V{0, -10}, 0, V{}, 0)
		g.simpleShape(id, 2, box(200, 10), 0, 0, 1)
	}
}

func restInstall(s *Sim) {
	mode := int(s.cfg.p("mode"))
	s.extra = func() {
		if !s.on["C14"] {
			return
		}
		for _, b := range s.bOrder {
			if b.typ != DYN {
				continue
			}
			switch mode {
			case restOverlap:
				if b.post.v.Len() > 1e-9 || math.Abs(b.post.w) > 1e-9 {
					s.fail("C14", "penetration correction gave body %d the velocity %v, %v", b.id, b.post.v, b.post.w)
				}
			case restBox:
				z := 0.0
				for _, sh := range s.bodies[0].shapes {
					z = math.Max(z, math.Abs(sh.local[0].X))
				}
				if b.post.v.Len()*s.dt > 0.5 || math.Abs(b.post.w) > 30 {
					s.over = true
				} else if math.Abs(b.post.c.X) > z || math.Abs(b.post.c.Y) > z {
					s.fail("C14", "body %d escaped from a closed container: %v (walls at %v)", b.id, b.post.c, z)
				}
				s.check("contained")
			}
		}
	}
	s.judge = func() {
		if !s.on["C14"] || s.time-s.calm < restSecs[mode]-0.1 {
			return
		}
		deep := 0.0
		for _, p := range s.sortedPairs() {
			if p.a.in && p.b.in && p.a.bm != p.b.bm {
				if d := -separation(&p.a.idx, &p.b.idx).D; d > deep {
					deep = d
				}
			}
		}
		fast, spin, awake := 0.0, 0.0, 0
		y, slops, kin := 0.0, 0.0, false
		for _, b := range s.bOrder {
			if b.typ == KIN {
				kin = true // nothing falls asleep on it
			}
			if b.typ != DYN {
				continue
			}
			if len(b.shapes) == 0 {
				continue
			}
			sh := b.sortedShapes()[0]
			// (a body may fall asleep below the speed that counts as idle, and keeps it until it wakes)
			if !b.b.IsSleeping() && (sh.kind != 0 || mode != restDrop) {
				fast = math.Max(fast, b.post.v.Len())
				spin = math.Max(spin, math.Abs(b.post.w))
			}
			if !b.b.IsSleeping() && (sh.kind != 0 || mode != restDrop) {
				awake++
			}
			switch mode {
			case restDrop, restStack, restPile:
				if b.post.c.Y < -0.1 || math.Abs(b.post.c.X) > 100 {
					s.fail("C14", "body %d sank into or left the ground: %v", b.id, b.post.c)
				}
			}
			if mode == restStack {
				h := sh.local[1].Y
				ey, ex, ea := math.Abs(b.post.p.Y-y-h-sh.r), math.Abs(b.post.p.X), math.Abs(b.post.a)
				s.maxErr("c14-stack-y", ey-slops)
				s.maxErr("c14-stack-x", ex)
				s.maxErr("c14-stack-a", ea)
				slops += s.slop + 0.1
				if ey > slops+0.2 || ex > 1.5 || ea > 0.2 {
					s.fail("C14", "the stack does not stand: box %d started at %v and is at %v, turned by %v", b.id, V{0, y + h}, b.post.p, b.post.a)
				}
				y += 2*h + 2*sh.r
			}
		}
		s.check("rest")
		s.maxErr(fmt.Sprintf("c14-depth-mode%d", mode), deep-s.slop)
		s.maxErr(fmt.Sprintf("c14-speed-mode%d", mode), fast)
		s.maxErr(fmt.Sprintf("c14-spin-mode%d", mode), spin)
		if mode != restBox {
			if lim := restDepth[mode]; deep-s.slop > lim {
				s.fail("C14", "after %v s shapes still overlap by %v (collision slop %v, scene %d)", restSecs[mode], deep, s.slop, mode)
			}
			if fast > restSpeed[mode] || spin > restSpeed[mode] {
				s.fail("C14", "after %v s bodies still move at %v and turn at %v (scene %d)", restSecs[mode], fast, spin, mode)
			}
		}
		if s.sleep > 0 && s.idle > 0 && !kin && (mode == restDrop || mode == restStack) {
			s.check("asleep-at-rest")
			if awake > 0 {
				s.fail("C14", "%d bodies are still awake after %v s on the ground (scene %d)", awake, restSecs[mode], mode)
			}
		}
	}
}
