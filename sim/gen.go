package main

import "math"

// Gen produces the operations of one run, online: it looks at the state of the simulation to keep them legal and aimed.
type Gen struct {
	bare   bool // the next shape leaves its body without mass
	r      *Rng
	s      *Sim
	names  []string
	w      []float64
	max    int // operations left
	burst  int // steps to do without disturbance
	dt     float64
	dtJit  int
	setup  []Op
	maxB   int
	size   float64
	area   float64
	n      int
	types  []int
	filt   bool
	noTurn bool
	aims   bool            // likes to disturb what sleeps
	aim    *BodyM          // what the operation is aimed at
	taken  map[[2]int]bool // bodies taken from other worlds
	next   func() (Op, bool)
	post   func() // scenario oracle after the run
}

func sub(r *Rng, p float64, v float64) float64 {
	if r.P(p) {
		return v
	}
	return 0
}

// genCfg draws the swarm configuration of a general history.
func genCfg(r *Rng, prop string) Cfg {
	c := Cfg{Scen: "history", Iter: r.Between(1, 15), Damp: 1, Slop: r.Choose(0.1, 0.1, 0.01, 0.5, 0), P: map[string]float64{}}
	if r.P(0.35) {
		c.Hash, c.HashD, c.HashN = true, r.Choose(1, 3, 10, 40), []int{1, 7, 100, 1000}[r.Intn(4)]
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		c.Grav = V{r.Range(-200, 200), r.Range(-200, 200)}
	default:
		c.Grav = V{0, -r.Range(20, 500)}
	}
	if r.P(0.4) {
		c.Damp = r.Range(0.1, 1)
	}
	if r.P(0.6) {
		c.Sleep = r.Choose(0.02, 0.1, 0.3, 0.5)
		c.Idle = r.Choose(0, 0, 1, 5, 20, 60)
	}
	nt := 3
	if r.P(0.15) {
		nt = 7
		c.P["types"] = float64(nt)
	}
	if r.P(0.75) {
		n := r.Between(1, 5)
		if nt > 3 {
			n = r.Between(5, 25)
		}
		for i := 0; i < n; i++ {
			h := HandlerCfg{Wild: r.P(0.5), A: r.Intn(nt), B: r.Intn(nt), Mask: 15, Fwd: fwdMask(r)}
			if r.P(0.4) {
				h.Mask = r.Between(1, 15)
			}
			c.Handle = append(c.Handle, h)
		}
	}
	p := c.P
	rej := r.P(0.5)
	if rej {
		p["rejBegin"] = sub(r, 0.5, r.Choose(0.1, 0.4))
		p["ignBegin"] = sub(r, 0.5, r.Choose(0.1, 0.4))
		p["rejPre"] = sub(r, 0.5, r.Choose(0.05, 0.3))
		p["ignPre"] = sub(r, 0.5, r.Choose(0.02, 0.1))
	}
	if r.P(0.7) {
		p["act"] = r.Choose(0.02, 0.1, 0.4)
		for _, k := range []string{"aQuery", "aPoke", "aWake", "aPost", "aEach"} {
			p[k] = sub(r, 0.5, 1)
		}
	}
	p["ownStatic"] = sub(r, 0.1, 1)
	p["setPts"] = sub(r, 0.25, r.Choose(0.05, 0.4))
	if prop == "C24" {
		p["setPts"] = r.Choose(0.1, 0.3, 0.8)
	}
	p["wide"] = sub(r, 0.2, 1)
	p["preField"] = sub(r, 0.2, r.Choose(0.02, 0.1, 0.5))
	p["pbStruct"] = sub(r, 0.6, r.Choose(0.2, 0.6))
	if r.P(0.2) {
		// round numbers everywhere: exact coincidences, ties, shapes and rays along the borders of cells
		p["lat"] = r.Choose(0.25, 0.5, 1, 1)
	}
	q := 0.1
	if prop == "C02" || prop == "C08" || prop == "C09" {
		q = 0.5
	}
	if r.P(q) {
		// falls asleep easily, and is disturbed then
		p["aims"] = 1
		c.Sleep = r.Choose(0.02, 0.1, 0.3)
		c.Idle = r.Choose(0, 5, 20, 60, 60)
		if r.P(0.3) {
			c.Grav = V{}
		}
		if r.P(0.5) {
			c.Damp = r.Range(0.01, 0.5)
		}
		p["act"] = sub(r, 0.3, p["act"])
	}
	return c
}

var opNames = []string{"step", "spawn", "rmshape", "addshape", "rmbody", "addbody", "con", "rmcon", "addcon", "pos", "ang", "vel", "avel",
	"force", "torque", "impW", "impL", "forW", "forL", "mass", "moment", "activate", "type", "sensor", "ctype", "fric", "elast", "filter", "surfv",
	"smass", "sdens", "radius", "geom", "reindex", "reindexBody", "gravity", "damping", "iters", "slop", "idlethr", "hash", "cparam", "cfield",
	"activatestatic", "handler", "post", "query", "each", "gc", "garbage", "burst"}
var opWeights = map[string]float64{"step": 60, "spawn": 4, "rmshape": 1.5, "addshape": 2, "rmbody": 1, "addbody": 2, "con": 2, "rmcon": 1, "addcon": 1,
	"pos": 2, "ang": 1, "vel": 3, "avel": 1, "force": 1, "torque": 0.7, "impW": 1, "impL": 1, "forW": 1, "forL": 1, "mass": 0.5, "moment": 0.5,
	"activate": 1, "type": 1, "sensor": 0.7, "ctype": 1, "fric": 0.5, "elast": 0.5, "filter": 0.7, "surfv": 0.5, "smass": 0.7, "sdens": 0.4, "radius": 0.7,
	"geom": 0.7, "reindex": 0.7, "reindexBody": 0.7, "gravity": 0.4, "damping": 0.3, "iters": 0.3, "slop": 0.2, "idlethr": 0.2, "hash": 0.3, "cparam": 0.7, "cfield": 0.7,
	"activatestatic": 0.5, "handler": 0.3, "post": 1, "query": 4, "each": 2.5, "gc": 0, "garbage": 0, "burst": 1.5}

func newGen(r *Rng, s *Sim, prop string, scale float64) *Gen {
	g := &Gen{r: r, s: s}
	r.q = s.cfg.p("lat")
	for _, n := range opNames {
		w := opWeights[n]
		if n != "step" {
			w *= r.Choose(0, 0.3, 1, 1, 3)
		}
		g.names = append(g.names, n)
		g.w = append(g.w, w)
	}
	boost := func(k float64, names ...string) {
		for i, n := range g.names {
			for _, m := range names {
				if n == m {
					g.w[i] = math.Max(g.w[i], opWeights[n]) * k
				}
			}
		}
	}
	switch prop {
	case "C01":
		if r.P(0.3) {
			boost(3, "pos", "ang", "geom", "radius", "reindex", "reindexBody")
		}
	case "C05":
		boost(4, "post")
	case "C06":
		boost(5, "each")
	case "C07":
		boost(5, "query")
		if r.P(0.5) {
			boost(3, "pos", "ang", "geom", "radius", "reindex", "reindexBody")
		}
	case "C02":
		boost(4, "query")
	case "C08", "C09":
		boost(5, "burst")
	case "C16":
		boost(1, "query", "each", "post")
	case "C17":
		boost(1, "query", "each", "post")
		boost(4, "rmbody")
	case "C15":
		boost(2, "vel", "avel", "force", "torque", "impW", "impL", "forW", "forL", "pos", "ang")
	case "C18":
		boost(4, "smass", "sdens", "radius", "geom", "type", "rmshape", "addshape")
	}
	g.max = int(float64(r.Between(40, 220)) * scale)
	g.dt = r.Choose(1.0/60, 1.0/60, 1.0/30, 1.0/120, 1.0/200)
	g.dtJit = r.Intn(3)
	g.maxB = r.Between(2, 16)
	g.size = r.Choose(2, 4, 8)
	g.area = r.Choose(10, 25, 60)
	g.filt = r.P(0.4)
	g.noTurn = r.P(0.25)
	g.aims = s.cfg.p("aims") > 0
	g.next = g.history
	// some ground
	if r.P(0.75) {
		g.shapeOn(0, 1, []V{{-g.area * 2, 0}, {g.area * 2, r.Choose(0, 0, 5)}}, r.Choose(0, 1, 3), false)
		if r.P(0.4) {
			g.shapeOn(0, 1, []V{{-g.area, 0}, {-g.area, g.area * 2}}, 1, false)
			g.shapeOn(0, 1, []V{{g.area, 0}, {g.area, g.area * 2}}, 1, false)
		}
	}
	n := r.Between(1, g.maxB)
	for i := 0; i < n; i++ {
		g.spawn()
	}
	return g
}

// aGroup draws a group of shapes, some differ in their high bits only.
func aGroup(r *Rng) int { return []int{0, 1, 2, 1, 2, 1 + 1<<32, 1 + 1<<8}[r.Intn(7)] }

// aCat draws a category.
func aCat(r *Rng) int {
	if r.P(0.2) {
		return 1 << []int{8, 16, 31, 32, 62}[r.Intn(5)]
	}
	return 1 << r.Intn(4)
}

// aMask draws a set of categories.
func aMask(r *Rng) int {
	m := r.Intn(16)
	if r.P(0.2) {
		m |= 1<<62 | 1<<32 | 1<<16
	}
	if r.P(0.1) {
		m |= 1<<31 | 1<<8
	}
	return m
}

func (g *Gen) flt() (grp, cat, mask int) {
	grp, cat, mask = 0, -1, -1
	if g.filt {
		r := g.r
		if r.P(0.3) {
			grp = aGroup(r)
		}
		if r.P(0.3) {
			cat = aCat(r)
		}
		if r.P(0.3) {
			mask = aMask(r)
		}
	}
	return
}

func (g *Gen) push(o Op) { g.setup = append(g.setup, o) }

func (g *Gen) newID(kind string) int {
	g.n++
	return g.n
}

func flat(p []V) []float64 {
	f := make([]float64, 0, 2*len(p))
	for _, q := range p {
		f = append(f, q.X, q.Y)
	}
	return f
}

// moment draws a moment of inertia, for bodies that cannot be turned an infinite one.
func (g *Gen) moment(lo, hi float64) float64 {
	if g.noTurn && g.r.P(0.4) {
		return math.MaxFloat64
	}
	return g.r.Range(lo, hi)
}

// nTypes is how many collision types the shapes of a world have.
func (g *Gen) nTypes() int {
	if n := int(g.s.cfg.p("types")); n > 0 {
		return n
	}
	return 3
}

func (g *Gen) shapeOn(body, kind int, pts []V, rad float64, massive bool) int {
	r := g.r
	id := g.newID("shape")
	grp, cat, mask := g.flt()
	sens, shuf, early, m := 0, 0, r.Intn(2), 0.0
	if g.bare && !massive {
		early = 2
	}
	if r.P(0.07) {
		sens = 1
	}
	if kind == 2 && r.P(0.2) {
		shuf = r.Salt()
	}
	if massive {
		m = r.Range(0.5, 10)
	}
	e := r.Choose(0, 0, 0.5, 1)
	u := r.Choose(0, 0.5, 0.8, 1.5)
	sv := V{}
	if r.P(0.06) {
		sv = V{r.Range(-30, 30), r.Range(-5, 5)}
	}
	g.push(Op{K: "shape", I: []int{id, body, kind, sens, r.Intn(g.nTypes()), grp, cat, mask, shuf, early}, F: append([]float64{e, u, sv.X, sv.Y, m, rad}, flat(pts)...)})
	return id
}

func (g *Gen) randShape(body int, massive bool) int {
	r := g.r
	z := g.size
	switch r.Intn(5) {
	case 0, 1:
		off := V{}
		if r.P(0.3) {
			off = V{r.Range(-z, z), r.Range(-z, z)}
		}
		return g.shapeOn(body, 0, []V{off}, z*r.Range(0.3, 1), massive)
	case 2:
		rad := z * r.Choose(0, 0.1, 0.5)
		if massive {
			rad = z * r.Choose(0.1, 0.5)
		}
		a, b := V{r.Range(-z, 0), r.Range(-z, z)}, V{r.Range(0.1, z), r.Range(-z, z)}
		return g.shapeOn(body, 1, []V{a, b}, rad, massive)
	}
	return g.shapeOn(body, 2, randPoly(r, z), r.Choose(0, 0, 0.1, 1), massive)
}

func (g *Gen) place() V {
	r := g.r
	if r.P(0.2) {
		// on a grid, for exact alignments
		return V{float64(r.Between(-4, 4)) * g.size, float64(r.Between(0, 6)) * g.size}
	}
	return V{r.Range(-g.area, g.area), r.Range(-g.area*0.1, g.area)}
}

func (g *Gen) spawn() int {
	r := g.r
	id := g.newID("body")
	typ := r.Pick([]float64{8, 1, 1})
	m, i := 0.0, 0.0
	massive := false
	if typ == DYN {
		m, i = r.Choose(1, r.Range(0.5, 10)), g.moment(10, 500)
		massive = r.P(0.3)
	} else {
		massive = r.P(0.1)
	}
	if massive && r.P(0.3) {
		m, i = 0, 0
	}
	p := g.place()
	v := V{}
	w := 0.0
	if r.P(0.6) {
		sp := r.Choose(5, 30, 120)
		v = V{r.Range(-sp, sp), r.Range(-sp, sp)}
		w = r.Range(-5, 5)
	}
	cust := 0
	if r.P(0.08) {
		cust = r.Between(1, 3)
	}
	a := 0.0
	if r.P(0.6) {
		a = r.Range(-4, 4)
		if r.q > 0 && r.P(0.7) {
			a = math.Pi / 2 * float64(r.Between(-3, 3))
		}
	}
	g.push(Op{K: "body", I: []int{id, typ, cust}, F: []float64{m, i, p.X, p.Y, a, v.X, v.Y, w}})
	n := r.Pick([]float64{0.3, 6, 2, 0.7})
	if m == 0 && typ == DYN && n == 0 {
		n = 1
	}
	bare := m == 0 && typ == DYN && n > 1 && r.P(0.4) // the first shape brings no mass
	for k := 0; k < n; k++ {
		g.bare = bare && k == 0
		g.randShape(id, massive && (bare && k == 1 || !bare && k == 0 || k > 0 && r.P(0.7)))
	}
	g.bare = false
	return id
}

func (g *Gen) anyBody() *BodyM {
	s := g.s
	if len(s.bOrder) < 2 {
		return nil
	}
	if g.aim != nil {
		return g.aim
	}
	// prefer sleeping ones at times
	for k := 0; k < 3; k++ {
		b := s.bOrder[1+g.r.Intn(len(s.bOrder)-1)]
		if b.in && (k > 0 || b.sleeping() || g.r.P(0.6)) {
			return b
		}
	}
	return s.bOrder[1+g.r.Intn(len(s.bOrder)-1)]
}

// aimed are the operations that are aimed at sleeping bodies, their shapes and joints.
var aimed = []string{"rmshape", "addshape", "reindex", "rmbody", "reindexBody", "activate", "con", "con", "rmcon", "cparam", "cparam", "cfield", "pos", "ang", "vel", "avel",
	"force", "torque", "impW", "impL", "forW", "forL", "mass", "moment", "type", "sensor", "ctype", "fric", "elast", "filter", "surfv",
	"smass", "sdens", "radius", "geom", "activatestatic", "gravity", "hash"}

// takeAim looks for a sleeping body.
func (g *Gen) takeAim() {
	g.aim = nil
	if !g.aims || g.r.P(0.6) {
		return
	}
	var l []*BodyM
	for _, b := range g.s.bOrder {
		if b.in && b.typ == DYN && b.sleeping() {
			l = append(l, b)
		}
	}
	if len(l) == 0 {
		return
	}
	g.aim = l[g.r.Intn(len(l))]
	if g.r.P(0.2) {
		// what it rests on or hangs from
		for _, c := range g.aim.sortedCons() {
			for _, o := range []*BodyM{c.a, c.b} {
				if o != g.aim && o.id != 0 {
					g.aim = o
					return
				}
			}
		}
		if t := g.s.touching(g.aim); len(t) > 0 && t[0].id != 0 {
			g.aim = t[0]
		}
	}
}

func (g *Gen) pickShape() *ShapeM {
	if g.aim != nil {
		l := g.aim.sortedShapes()
		if len(l) == 0 {
			return nil
		}
		return l[g.r.Intn(len(l))]
	}
	return g.s.pickShape(g.r)
}

func (g *Gen) step() Op {
	r := g.r
	dt := g.dt
	switch g.dtJit {
	case 1:
		dt *= r.Range(0.5, 1.5)
	case 2:
		if r.P(0.05) {
			dt = r.Choose(0, 0.25, 1e-5, 0.1, g.dt/10)
		}
	}
	return Op{K: "step", I: []int{r.Salt()}, F: []float64{dt}}
}

// joint makes a joint operation between two bodies with random parameters around their current placement.
func (g *Gen) joint(a, b *BodyM, kind int) Op {
	r := g.r
	id := g.newID("con")
	pa, pb := vv(a.b.Position()), vv(b.b.Position())
	an := func(z float64) V { return V{r.Range(-z, z), r.Range(-z, z)} }
	z := g.size
	ends := func() (V, V) {
		A, B := an(z), an(z)
		if r.P(0.1) {
			// one point of both bodies (pins without length are not supported, nor limits that push apart what is in one place)
			A = V{float64(r.Between(-1, 1)), 0}
			B = A.Rot(a.b.Angle()).Add(pa).Sub(pb).Rot(-b.b.Angle())
		}
		return A, B
	}
	f := []float64{0, 0, 0}
	if r.P(0.3) {
		f[0] = r.Choose(10, 1000, 1e5, -1)
	}
	if r.P(0.2) {
		f[1] = math.Pow(1-r.Range(0.02, 0.5), 60)
		if r.P(0.15) {
			f[1] = -1
		}
	}
	if r.P(0.2) {
		f[2] = r.Choose(1, 10, 100, -1)
	}
	hooks := 0 // the hooks it goes without
	if r.P(0.2) {
		hooks = r.Between(1, 3)
	}
	switch kind {
	case JPin:
		A, B := an(z), an(z)
		f = append(f, A.X, A.Y, B.X, B.Y)
	case JSlide:
		A, B := an(z), an(z)
		mn := r.Range(0, z*2)
		mx := mn + r.Range(0, z*3)
		if r.P(0.1) {
			mx = mn
		}
		f = append(f, A.X, A.Y, B.X, B.Y, mn, mx)
	case JPivot:
		if r.P(0.5) {
			m := pa.Lerp(pb, r.F())
			f = append(f, m.X, m.Y, 0, 0, 1)
		} else {
			A, B := an(z), an(z)
			f = append(f, A.X, A.Y, B.X, B.Y, 0)
		}
	case JGroove:
		A, B, C := an(z*2), an(z*2), an(z)
		if A.Sub(B).Len() < 0.5 {
			B.X += 2
		}
		f = append(f, A.X, A.Y, B.X, B.Y, C.X, C.Y)
	case JGear:
		f = append(f, r.Range(-2, 2), r.Choose(1, 2, 0.5, -1, -3))
	case JRotLimit:
		mn := r.Range(-2, 1)
		mx := mn + r.Range(0, 2)
		if r.P(0.1) {
			mx = mn
		}
		f = append(f, mn, mx)
	case JRatchet:
		f = append(f, r.Range(-1, 1), r.Choose(0.3, 1, -0.5, math.Pi/2))
	case JMotor:
		f = append(f, r.Range(-10, 10))
	case JSpring:
		A, B := ends()
		f = append(f, A.X, A.Y, B.X, B.Y, r.Range(0, 30), r.Range(0.1, 8), r.Range(0, 5))
	case JRotSpring:
		f = append(f, r.Range(-2, 2), r.Range(0.1, 8), r.Range(0, 5))
	}
	col := 1
	if r.P(0.5) {
		col = 0
	}
	own := 0
	if (kind == JSpring || kind == JRotSpring) && r.P(0.4) {
		own = 1
	}
	return Op{K: "con", I: []int{id, kind, a.id, b.id, col, own, hooks}, F: f}
}

// fwdMask draws which callbacks of a handler call the wildcard handlers.
func fwdMask(r *Rng) int {
	if r.P(0.7) {
		return 0
	}
	return r.Between(1, 15)
}

// field makes an operation that writes exported fields of a joint.
func (g *Gen) field(c *ConM) Op { return fieldOp(g.r, g.size, c) }

func fieldOp(r *Rng, z float64, c *ConM) Op {
	w := r.Intn(3)
	if c.kind == JPivot && w == 0 {
		w = 1
	}
	f := []float64{r.Range(-z, z), r.Range(-z, z)} // an anchor
	switch c.kind {
	case JPin:
		if w == 0 {
			f = []float64{r.Range(0.5, 3) * z}
		}
	case JSlide:
		if w == 0 {
			mn := r.Range(0, z*2)
			f = []float64{mn, mn + r.Range(0, z*3)}
			if r.P(0.1) {
				f[1] = mn
			}
		}
	case JGroove:
		if w == 0 {
			f = []float64{r.Range(-2, 2) * z, r.Range(-2, 2) * z, 0, 0}
			a := r.Range(-3.1, 3.1)
			l := z * r.Range(0.5, 3)
			f[2], f[3] = f[0]+l*math.Cos(a), f[1]+l*math.Sin(a)
		}
	case JRotLimit:
		mn := r.Range(-2, 1)
		f = []float64{mn, mn + r.Range(0, 2)}
	case JRatchet:
		switch w {
		case 0:
			f = []float64{r.Range(-1, 1)}
		case 1:
			f = []float64{r.Choose(0.3, 1, -0.5, math.Pi/2)}
		default:
			f = []float64{c.b.b.Angle() - c.a.b.Angle() + r.Range(-1, 1)}
		}
	case JMotor:
		f = []float64{r.Range(-10, 10)}
	case JSpring:
		if w == 0 {
			f = []float64{r.Range(0, 30), r.Range(0.1, 8), r.Range(0, 5)}
		}
	case JRotSpring:
		f = []float64{r.Range(-2, 2), r.Range(0.1, 8), r.Range(0, 5)}
	}
	if (c.kind == JSpring || c.kind == JRotSpring) && r.P(0.3) {
		w = 3 // another force law
	}
	return Op{K: "cfield", I: []int{c.id, w}, F: f}
}

// history is the next operation of a general history.
func (g *Gen) history() (Op, bool) {
	r, s := g.r, g.s
	for try := 0; try < 50; try++ {
		if len(g.setup) > 0 {
			o := g.setup[0]
			g.setup = g.setup[1:]
			return o, true
		}
		if g.max <= 0 {
			return Op{}, false
		}
		g.max--
		if g.burst > 0 {
			g.burst--
			return g.step(), true
		}
		if len(donors) > 0 && r.P(0.05) {
			g.adopt()
			continue
		}
		k := g.names[r.Pick(g.w)]
		g.takeAim()
		if g.aim != nil {
			// once, then see what happens, and back to sleep at times
			k = aimed[r.Intn(len(aimed))]
			if len(g.aim.cons) > 0 && r.P(0.3) {
				k = []string{"cparam", "cparam", "cfield", "rmcon"}[r.Intn(4)]
			}
			g.burst = r.Between(1, 4)
			if r.P(0.6) {
				g.burst = r.Between(10, 60)
			}
		}
		b := g.anyBody()
		bid := 0
		var pos V
		if b != nil {
			bid = b.id
			pos = vv(b.b.Position())
		}
		I := func(i ...int) []int { return i }
		F := func(f ...float64) []float64 { return f }
		switch k {
		case "step":
			return g.step(), true
		case "burst":
			g.burst = r.Between(10, 60)
		case "spawn":
			n := 0
			for _, x := range s.bOrder {
				if x.in {
					n++
				}
			}
			if n < g.maxB+4 {
				g.spawn()
			}
		case "rmshape", "addshape", "reindex":
			if sh := g.pickShape(); sh != nil {
				return Op{K: k, I: I(sh.id)}, true
			}
		case "rmbody", "addbody", "reindexBody", "activate":
			if b != nil {
				if k == "addbody" {
					b = s.pickBody(r)
				}
				return Op{K: k, I: I(b.id)}, true
			}
		case "con":
			if len(s.bOrder) < 2 {
				continue
			}
			x, y := g.anyBody(), g.anyBody()
			if r.P(0.2) || g.aims && r.P(0.3) {
				x = s.bOrder[0]
			}
			if x == y || !x.in || !y.in || x.typ != DYN && y.typ != DYN {
				continue
			}
			n := 0
			for _, c := range s.cOrder {
				if c.in {
					n++
				}
			}
			if n >= 8 {
				continue
			}
			return g.joint(x, y, r.Intn(JKinds)), true
		case "rmcon", "addcon", "cparam", "cfield":
			if len(s.cOrder) == 0 {
				continue
			}
			c := s.cOrder[r.Intn(len(s.cOrder))]
			if g.aim != nil && len(g.aim.cons) > 0 {
				l := g.aim.sortedCons()
				c = l[r.Intn(len(l))]
			}
			if k == "cfield" {
				return g.field(c), true
			}
			if k == "cparam" {
				w := r.Intn(4)
				v := r.Choose(10, 1000, 1e6, 0)
				if w == 1 {
					v = math.Pow(1-r.Range(0.02, 0.5), 60)
					if r.P(0.15) {
						v = 0
					}
				}
				if w == 3 {
					v = float64(r.Intn(2))
				}
				return Op{K: k, I: I(c.id, w), F: F(v)}, true
			}
			return Op{K: k, I: I(c.id)}, true
		case "pos":
			if b == nil {
				continue
			}
			p := g.place()
			if r.P(0.4) {
				p = pos.Add(V{r.Range(-2, 2), r.Range(-2, 2)})
			} else if r.P(0.1) {
				p = pos
			}
			return Op{K: k, I: I(bid, r.Intn(2)), F: F(p.X, p.Y)}, true
		case "ang", "vel", "avel", "force", "torque", "mass", "moment":
			op := Op{K: k, I: I(bid, r.Intn(2))}
			same := b != nil && r.P(0.1) // the value it has
			switch k {
			case "ang":
				op.F = F(r.Range(-7, 7))
				if same {
					op.F = F(b.b.Angle())
				}
			case "vel":
				sp := r.Choose(0, 5, 40, 150)
				op.F = F(r.Range(-sp, sp), r.Range(-sp, sp))
				if same {
					v := b.b.Velocity()
					op.F = F(v.X, v.Y)
				}
			case "avel":
				op.F = F(r.Choose(0, r.Range(-10, 10)))
				if same {
					op.F = F(b.b.AngularVelocity())
				}
			case "force":
				op.F = F(r.Range(-500, 500), r.Range(-500, 500))
				if same {
					v := b.b.Force()
					op.F = F(v.X, v.Y)
				}
			case "torque":
				op.F = F(r.Range(-500, 500))
				if same {
					op.F = F(b.b.Torque())
				}
			case "mass":
				op.F = F(r.Range(0.5, 10))
				if same && b.typ == DYN {
					op.F = F(b.b.Mass())
				}
			case "moment":
				op.F = F(g.moment(10, 500))
				if same && b.typ == DYN {
					op.F = F(b.b.Moment())
				}
			}
			return op, true
		case "impW", "forW":
			return Op{K: k, I: I(bid), F: F(r.Range(-50, 50), r.Range(-50, 50), pos.X+r.Range(-5, 5), pos.Y+r.Range(-5, 5))}, true
		case "impL", "forL":
			return Op{K: k, I: I(bid), F: F(r.Range(-50, 50), r.Range(-50, 50), r.Range(-5, 5), r.Range(-5, 5))}, true
		case "type":
			t := r.Pick([]float64{2, 1, 1})
			return Op{K: k, I: I(bid, t), F: F(r.Range(0.5, 10), g.moment(10, 300))}, true
		case "sensor", "ctype", "fric", "elast", "filter", "surfv", "smass", "sdens", "radius", "geom":
			sh := g.pickShape()
			if sh == nil {
				continue
			}
			switch k {
			case "sensor":
				return Op{K: k, I: I(sh.id, r.Intn(2))}, true
			case "ctype":
				return Op{K: k, I: I(sh.id, r.Intn(g.nTypes()))}, true
			case "fric":
				return Op{K: k, I: I(sh.id), F: F(r.Choose(0, 0.5, 1, 2))}, true
			case "elast":
				return Op{K: k, I: I(sh.id), F: F(r.Choose(0, 0.5, 1))}, true
			case "filter":
				gr, c, m := g.flt()
				return Op{K: k, I: I(sh.id, gr, c, m)}, true
			case "surfv":
				return Op{K: k, I: I(sh.id), F: F(r.Choose(0, r.Range(-30, 30)), 0)}, true
			case "smass":
				return Op{K: k, I: I(sh.id), F: F(r.Choose(0, r.Range(0.5, 10)))}, true
			case "sdens":
				return Op{K: k, I: I(sh.id), F: F(r.Range(0.01, 1))}, true
			case "radius":
				x := g.size * r.Range(0.1, 1)
				if sh.kind == 2 {
					x = r.Choose(0, 0.2, 1)
				}
				return Op{K: k, I: I(sh.id, 0, r.Intn(2)), F: F(x)}, true
			case "geom":
				switch sh.kind {
				case 1:
					return Op{K: k, I: I(sh.id, 0, r.Intn(2)), F: F(r.Range(-g.size, 0), r.Range(-g.size, g.size), r.Range(0.1, g.size), r.Range(-g.size, g.size))}, true
				case 2:
					return Op{K: k, I: I(sh.id, r.Intn(4), r.Intn(2), r.Salt()), F: flat(randPoly(r, g.size))}, true
				}
			}
		case "gravity":
			return Op{K: k, F: F(r.Choose(0, r.Range(-200, 200)), r.Choose(0, -100, r.Range(-500, 200)))}, true
		case "damping":
			return Op{K: k, F: F(r.Choose(1, r.Range(0.1, 1)))}, true
		case "iters":
			return Op{K: k, I: I(r.Between(1, 20))}, true
		case "slop":
			return Op{K: k, F: F(r.Choose(0.01, 0.1, 1, 0))}, true
		case "idlethr":
			return Op{K: k, F: F(r.Choose(0, 1, 10, 50))}, true
		case "hash":
			return Op{K: k, I: I(r.Between(1, 500)), F: F(r.Choose(1, 5, 30))}, true
		case "activatestatic":
			var st []*BodyM
			for _, x := range s.bOrder {
				if x.typ == STAT && x.in {
					st = append(st, x)
				}
			}
			x := st[r.Intn(len(st))]
			f := 0
			if l := x.sortedShapes(); len(l) > 0 && r.P(0.5) {
				f = l[r.Intn(len(l))].id
			}
			return Op{K: k, I: I(x.id, f)}, true
		case "handler":
			return Op{K: k, I: I(r.Intn(2), r.Intn(g.nTypes()), r.Intn(g.nTypes()), r.Between(1, 15), fwdMask(r))}, true
		case "post", "query", "each", "garbage":
			return Op{K: k, I: I(r.Salt())}, true
		case "gc":
			return Op{K: k, I: I(r.Intn(3))}, true
		}
	}
	return Op{}, false
}
