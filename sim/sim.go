package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/jakecoffman/cp/v2"
)

const (
	DYN  = cp.BODY_DYNAMIC
	KIN  = cp.BODY_KINEMATIC
	STAT = cp.BODY_STATIC
)

type BState struct {
	p, c   V // origin and center of gravity, world
	a      float64
	v      V
	w      float64
	f      V
	t      float64
	asleep bool
	typ    int
	m, i   float64
}

type BodyM struct {
	id     int
	b      *cp.Body
	typ    int
	in     bool
	shapes map[int]*ShapeM
	cons   map[int]*ConM

	m0, i0    float64 // mass and moment set by the user (no mass from shapes)
	customV   int     // 1: custom velocity function
	customP   int
	pre, post BState

	poked    bool // changed by a callback in this step
	bias     bool // may carry a penetration correction into the next position update
	nSolved  int  // contacts solved in this step
	dist     bool // disturbed while locked, has to be awake after the step
	idleMax  float64
	idleMin  float64
	island   []*BodyM
	vcalls   int
	pcalls   int
	vargs    [4]float64
	parg     float64
	forcedUp bool
	unsure   bool // its island may be larger than known
	fellNow  bool
	wokeNow  bool
	late     bool
	wasBias  bool // bias, at the start of the step
	moved    bool // taken over by another world
	from     int  // world it was taken from, plus one
	ownMass  bool // mass and moment are the user's
}

type ShapeM struct {
	id, body int
	kind     int // 0 circle 1 segment 2 poly
	s        *cp.Shape
	bm       *BodyM
	local    []V
	r        float64
	sensor   bool
	ctype    int
	group    uint
	cat      uint
	mask     uint
	e, u     float64
	sv       V
	orig     *ShapeM // of a snapshot
	mass     float64
	in       bool
	idx      Geo  // geometry as last indexed
	dirty    bool // geometry changed since last indexed
	massIDim string
	staleI   bool // mass info not updated by a setter, by design
	areaG    []V  // geometry the mass info was computed from
	areaR    float64
}

type ConM struct {
	id, kind  int
	c         *cp.Constraint
	a, b      *BodyM
	in        bool
	collide   bool
	pre       int
	post      int
	f         []float64
	maxF      float64
	hooks     int     // the hooks it goes without: 1 PreSolve, 2 PostSolve
	eb, mb    float64 // error bias, maximal bias
	la, lb    V       // local anchors
	dist0     float64
	tooth     float64
	toothBad  bool
	teeth     []float64 // where its tooth may be, if that is not certain
	tracked   bool
	poked     bool // a callback changed it in this step
	custom    bool // a spring with the user's own force law
	ownForce  cp.DampedSpringForceFunc
	ownTorque func(*cp.DampedRotarySpring, float64) float64
	fcalls    int // calls of it in this step
}

const (
	JPin = iota
	JSlide
	JPivot
	JGroove
	JGear
	JRotLimit
	JRatchet
	JMotor
	JSpring
	JRotSpring
	JKinds
)

type Handler struct {
	id   int
	wild bool
	a, b int
	mask int
	fwd  int
	h    *cp.CollisionHandler
	ud   *int
}

type PostCB struct {
	seq  int
	key  int
	ran  int
	step int // opIdx registered
	null bool
}

type Sim struct {
	dispChanged bool // handlers or collision types changed
	cfg         Cfg
	sp          *cp.Space
	comps       []*comp
	on          map[string]bool
	bodies      map[int]*BodyM
	shapes      map[int]*ShapeM
	cons        map[int]*ConM
	bOrder      []*BodyM // all ever created, creation order
	sOrder      []*ShapeM
	cOrder      []*ConM
	byShp       map[*cp.Shape]*ShapeM
	byBody      map[*cp.Body]*BodyM
	byCon       map[*cp.Constraint]*ConM

	handlers []*Handler
	wildcard bool // a wildcard handler was registered

	grav        V
	damp        float64
	sleep, idle float64 // sleep 0: off
	slop        float64
	iter        int
	prevDt      float64

	opIdx   int
	op      *Op
	viol    *Violation
	over    bool
	salt    uint64
	callN   uint64
	inStep  bool
	snapped bool
	inPost  bool
	qDepth  int // > 0 inside a query or iteration callback
	phase   int // 0 outside, 1 collision phase, 2 after
	dt      float64
	stepNo  int
	time    float64
	ev      []*Event
	pairs   map[pairKey]*Pair

	// post-step callback model
	pcb      []*PostCB // pending
	pcbSeq   int
	pcbRunAt int
	flushing bool
	running  *PostCB
	oob      int
	cbDepth  int     // user callbacks (other than post-step callbacks) on the stack
	removing int     // RemoveShape calls on the stack
	onFlush  func()  // completes the model of an operation that may run post-step callbacks before it returns
	extra    func()  // scenario oracle at the end of each step
	final    func()  // scenario oracle at the end of the run
	judge    func()  // scenario oracle at "judge" operations
	keepTail bool    // the final oracle needs all operations
	calm     float64 // simulated time of the last operation that was not a step

	preCount map[int]int

	dig        uint64
	noDraw     bool // the judge of drawing does not draw
	digOn      bool
	opDigOn    bool
	donor      func(w, id int) *BodyM // bodies and shapes of other worlds
	donorShape func(w, id int) *ShapeM
	opDig      []uint64 // digest after each operation
	env        func()   // environment faults inside of steps
	log        []string
	logOn      bool
	st         *Stats
	touched    map[string]bool
	trace      *Trace
	noFail     bool

	// scenario state
	x map[string]float64
}

type Stats struct {
	Runs    int                `json:"runs"`
	Ops     int                `json:"ops"`
	Steps   int                `json:"steps"`
	SimTime float64            `json:"sim_time"`
	Faults  map[string]int     `json:"faults"`
	Probe   map[string]int     `json:"probe"`
	Checks  map[string]int     `json:"checks"`
	States  map[uint64]bool    `json:"-"`
	NStates int                `json:"nstates"`
	MaxErr  map[string]float64 `json:"maxerr"`
}

func NewStats() *Stats {
	return &Stats{Faults: map[string]int{}, Probe: map[string]int{}, Checks: map[string]int{}, States: map[uint64]bool{}, MaxErr: map[string]float64{}}
}
func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.Ops += o.Ops
	s.Steps += o.Steps
	s.SimTime += o.SimTime
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probe {
		s.Probe[k] += v
	}
	for k, v := range o.Checks {
		s.Checks[k] += v
	}
	for k, v := range o.MaxErr {
		if v > s.MaxErr[k] {
			s.MaxErr[k] = v
		}
	}
	s.NStates += o.NStates
}
func (s *Sim) fault(k string) { s.st.Faults[k]++ }
func (s *Sim) probe(k string) { s.st.Probe[k]++ }
func (s *Sim) check(k string) { s.st.Checks[k]++ }
func (s *Sim) maxErr(k string, v float64) {
	if v > s.st.MaxErr[k] {
		s.st.MaxErr[k] = v
	}
}

func (s *Sim) fail(prop, f string, a ...interface{}) {
	if s.viol == nil && (s.on[prop] || prop == "*") {
		s.viol = &Violation{Prop: prop, Msg: fmt.Sprintf(f, a...), Op: s.opIdx}
	}
}

// near compares with a relative and absolute tolerance.
func near(a, b, tol float64) bool {
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}
func nearV(a, b V, tol float64) bool {
	return a.Sub(b).Len() <= tol*(1+math.Max(a.Len(), b.Len()))
}

func cv(v V) cp.Vector { return cp.Vector{X: v.X, Y: v.Y} }
func vv(v cp.Vector) V { return V{v.X, v.Y} }
func cvs(p []V) []cp.Vector {
	r := make([]cp.Vector, len(p))
	for i := range p {
		r[i] = cv(p[i])
	}
	return r
}

func NewSim(cfg Cfg, on map[string]bool, st *Stats) *Sim {
	s := &Sim{cfg: cfg, on: on, st: st,
		bodies: map[int]*BodyM{}, shapes: map[int]*ShapeM{}, cons: map[int]*ConM{},
		byShp: map[*cp.Shape]*ShapeM{}, byBody: map[*cp.Body]*BodyM{}, byCon: map[*cp.Constraint]*ConM{},
		pairs: map[pairKey]*Pair{}, touched: map[string]bool{}, x: map[string]float64{}}
	s.sp = cp.NewSpace()
	s.grav, s.damp, s.slop = cfg.Grav, cfg.Damp, cfg.Slop
	s.sleep, s.idle, s.iter = cfg.Sleep, cfg.Idle, cfg.Iter
	s.sp.SetGravity(cv(cfg.Grav))
	s.sp.SetDamping(cfg.Damp)
	s.sp.Iterations = uint(cfg.Iter)
	s.sp.SetCollisionSlop(cfg.Slop)
	if cfg.Sleep > 0 {
		s.sp.SleepTimeThreshold = cfg.Sleep
	}
	s.sp.IdleSpeedThreshold = cfg.Idle
	if cfg.Hash {
		s.sp.UseSpatialHash(cfg.HashD, cfg.HashN)
	}
	for i := range cfg.Handle {
		s.addHandler(&cfg.Handle[i])
	}
	if cfg.p("ownStatic") > 0 {
		b := cp.NewStaticBody()
		s.sp.SetStaticBody(b)
	}
	sb := &BodyM{id: 0, b: s.sp.StaticBody, typ: STAT, in: true, shapes: map[int]*ShapeM{}, cons: map[int]*ConM{}}
	s.bodies[0] = sb
	s.bOrder = append(s.bOrder, sb)
	s.byBody[sb.b] = sb
	sb.b.UserData = 0
	return s
}

func (b *BodyM) geo(sh *ShapeM) Geo {
	p, a := vv(b.b.Position()), b.b.Angle()
	g := Geo{P: make([]V, len(sh.local)), R: sh.r}
	for i, q := range sh.local {
		g.P[i] = q.Rot(a).Add(p)
	}
	return g
}

// curGeo is where the library should see the shape right now.
func (s *Sim) curGeo(sh *ShapeM) Geo {
	if s.inStep && !s.inPost && s.phase >= 1 && sh.bm.pre.typ != STAT && !sh.bm.pre.asleep && sh.bm.in {
		return sh.bm.geo(sh)
	}
	return sh.idx
}

func (b *BodyM) sleeping() bool { return b.b.IsSleeping() }

func (b *BodyM) state() BState {
	x := b.b
	return BState{p: vv(x.Position()), c: vv(x.LocalToWorld(x.CenterOfGravity())), a: x.Angle(), v: vv(x.Velocity()), w: x.AngularVelocity(),
		f: vv(x.Force()), t: x.Torque(), asleep: x.IsSleeping(), typ: b.typ, m: x.Mass(), i: x.Moment()}
}

func (b *BodyM) sortedShapes() []*ShapeM {
	r := make([]*ShapeM, 0, len(b.shapes))
	for _, x := range b.shapes {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
func (b *BodyM) sortedCons() []*ConM {
	r := make([]*ConM, 0, len(b.cons))
	for _, x := range b.cons {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (s *Sim) d(vs ...float64) {
	if !s.digOn {
		return
	}
	if s.env != nil {
		s.env() // a place where the environment may interfere
	}
	for _, v := range vs { // (v+0: the sign of a zero does not count)
		s.dig = mix64(s.dig ^ math.Float64bits(v+0))
	}
	if s.logOn {
		s.log = append(s.log, fmt.Sprint(vs))
	}
}

// ---- executor ----

// exec runs one operation; it returns false if the operation is not legal now (and did nothing).
func (s *Sim) exec(op *Op) (ok bool) {
	s.op = op
	var b *BodyM
	var p V
	var a float64
	if s.on["C18"] {
		switch op.K {
		case "shape":
			b = s.bodies[op.i(1)]
		case "rmshape", "addshape", "smass", "sdens", "radius", "geom":
			if sh := s.shapes[op.i(0)]; sh != nil {
				b = sh.bm
			}
		case "type":
			b = s.bodies[op.i(0)]
		}
		if b != nil {
			p, a = vv(b.b.Position()), b.b.Angle()
		}
	}
	ok = s.exec1(op)
	if ok {
		s.st.Ops++
		if op.K != "step" && op.K != "judge" {
			s.calm = s.time
		}
	}
	if ok {
		s.evalSettings()
		s.evalDraw()
		if op.K != "step" {
			s.evalWoken()
		}
	}
	if ok && b != nil && s.viol == nil && b.b.Position().X != math.Inf(1) && op.K != "rmshape" {
		if q := vv(b.b.Position()); q.Sub(p).Len() > 1e-8*(1+p.Len()+b.cogLen()) || b.b.Angle() != a {
			s.fail("C18", "%v moved body %d from %v, %v to %v, %v", *op, b.id, p, a, q, b.b.Angle())
		}
		s.evalMass(b)
	}
	return ok
}

func (s *Sim) locked() bool { return s.inStep && !s.inPost || s.qDepth > 0 || s.removing > 0 }

func (s *Sim) reindexShape(sh *ShapeM) {
	s.sp.ReindexShape(sh.s)
	sh.idx = sh.bm.geo(sh)
	sh.dirty = false
}

func newShape(body *cp.Body, kind int, pts []V, r float64, shuffle uint64) *cp.Shape {
	switch kind {
	case 0:
		return cp.NewCircle(body, r, cv(pts[0]))
	case 1:
		return cp.NewSegment(body, cv(pts[0]), cv(pts[1]), r)
	}
	if shuffle == 0 {
		return cp.NewPolyShapeRaw(body, len(pts), cvs(pts), r)
	}
	// the other ways to make the same polygon
	g := NewRng(shuffle)
	if len(pts) == 4 && g.P(0.5) {
		a, b := pts[0], pts[2]
		if a.X > b.X && a.Y < b.Y && pts[1] == (V{a.X, b.Y}) && pts[3] == (V{b.X, a.Y}) {
			if b == a.Neg() && g.P(0.5) {
				return cp.NewBox(body, 2*a.X, 2*b.Y, r)
			}
			return cp.NewBox2(body, cp.BB{L: b.X, B: a.Y, R: a.X, T: b.Y}, r)
		}
	}
	q, t := disguise(g, pts)
	return cp.NewPolyShape(body, len(q), q, t, r)
}

// disguise gives a polygon in another order, with a point inside, and maybe in other coordinates, mirrored ones included.
func disguise(g *Rng, pts []V) ([]cp.Vector, cp.Transform) {
	q := append([]V{}, pts...)
	for i := range q {
		j := i + g.Intn(len(q)-i)
		q[i], q[j] = q[j], q[i]
	}
	c := V{}
	for _, p := range pts {
		c = c.Add(p.Mul(1 / float64(len(pts))))
	}
	q = append(q, c)
	if g.P(0.5) {
		return cvs(q), cp.NewTransformIdentity()
	}
	move, ang, sx, sy := V{g.Range(-9, 9), g.Range(-9, 9)}, g.Range(-4, 4), g.Choose(-2, -1, 0.5, 1, 3), g.Choose(-1.5, 1, 2)
	for i := range q {
		p := q[i].Sub(move).Rot(-ang)
		q[i] = V{p.X / sx, p.Y / sy}
	}
	return cvs(q), cp.NewTransformRigid(cv(move), ang).Mult(cp.NewTransformScale(sx, sy))
}

func toPts(f []float64) []V {
	p := make([]V, len(f)/2)
	for i := range p {
		p[i] = V{f[2*i], f[2*i+1]}
	}
	return p
}

func umask(i int) uint { return uint(i) } // -1 is all

func (s *Sim) exec1(op *Op) bool {
	sp := s.sp
	switch op.K {
	case "body":
		id, typ := op.i(0), op.i(1)
		if s.bodies[id] != nil || id == 0 || s.locked() {
			return false
		}
		var b *cp.Body
		m0, i0 := op.f(0), op.f(1)
		adopted := s.adoptBody(op)
		switch {
		case adopted != nil:
			b = adopted
		case typ == DYN:
			b = cp.NewBody(m0, i0)
		case typ == KIN:
			b = cp.NewKinematicBody()
		default:
			b = cp.NewStaticBody()
		}
		bm := &BodyM{id: id, b: b, typ: typ, m0: m0, i0: i0, shapes: map[int]*ShapeM{}, cons: map[int]*ConM{}, in: true}
		b.UserData = id
		bm.ownMass = typ == DYN && m0 > 0 && i0 > 0
		if adopted != nil {
			bm.from = op.i(3)
		} else {
			b.SetPosition(cv(op.v(2)))
			b.SetAngle(op.f(4))
			if typ != STAT {
				b.SetVelocityVector(cv(op.v(5)))
				b.SetAngularVelocity(op.f(7))
			}
		}
		if op.i(2)&1 != 0 {
			bm.customV = 1
			s.setCustomV(bm)
		}
		if op.i(2)&2 != 0 {
			bm.customP = 1
			s.setCustomP(bm)
		}
		sp.AddBody(b)
		s.bodies[id] = bm
		s.bOrder = append(s.bOrder, bm)
		s.byBody[b] = bm
		s.disturb(bm)
		return true
	case "shape":
		id, bid := op.i(0), op.i(1)
		bm := s.bodies[bid]
		if s.shapes[id] != nil || bm == nil || !bm.in || s.locked() {
			return false
		}
		pts := toPts(op.F[6:])
		kind := op.i(2)
		sh := &ShapeM{id: id, body: bid, bm: bm, kind: kind, local: pts, r: op.f(5), sensor: op.i(3) != 0, ctype: op.i(4),
			group: uint(op.i(5)), cat: umask(op.i(6)), mask: umask(op.i(7)), e: op.f(0), u: op.f(1), sv: op.v(2), mass: op.f(4)}
		x := s.adoptShape(op, bm)
		if x == nil {
			x = newShape(bm.b, kind, pts, sh.r, uint64(op.i(8)))
		}
		isl := s.islandOf(bm)
		sh.s = x
		x.UserData = id
		x.SetSensor(sh.sensor)
		x.SetCollisionType(s.ctype(sh.ctype))
		x.SetFilter(cp.NewShapeFilter(sh.group, sh.cat, sh.mask))
		x.SetElasticity(sh.e)
		x.SetFriction(sh.u)
		x.SetSurfaceV(cv(sh.sv))
		sh.areaG, sh.areaR = pts, sh.r
		early := op.i(9)&1 != 0 && sh.mass > 0
		if early {
			x.SetMass(sh.mass) // counts once the shape is on the body
		}
		sp.AddShape(x)
		sh.in = true
		s.shapes[id] = sh
		s.sOrder = append(s.sOrder, sh)
		s.byShp[x] = sh
		bm.shapes[id] = sh
		if sh.mass > 0 && !early {
			x.SetMass(sh.mass)
		}
		if sh.mass > 0 {
			bm.ownMass = false
		}
		if op.i(9)&2 == 0 {
			s.fixMass(bm) // (else the next shape brings the mass)
		}
		sh.idx = bm.geo(sh)
		s.woken(bm, isl, "AddShape")
		return true
	case "judge":
		if s.judge != nil {
			s.judge()
		}
		return true
	case "con":
		return s.execCon(op)
	case "rmshape":
		sh := s.shapes[op.i(0)]
		if sh == nil || !sh.in || s.locked() {
			return false
		}
		return s.rmShape(sh)
	case "addshape":
		sh := s.shapes[op.i(0)]
		if sh == nil || sh.in || !sh.bm.in || s.locked() {
			return false
		}
		isl := s.islandOf(sh.bm)
		sp.AddShape(sh.s)
		sh.in, sh.dirty = true, false
		sh.bm.shapes[sh.id] = sh
		if sh.mass > 0 {
			sh.bm.ownMass = false
		}
		s.fixMass(sh.bm)
		sh.idx = sh.bm.geo(sh)
		s.woken(sh.bm, isl, "AddShape")
		return true
	case "rmcon":
		c := s.cons[op.i(0)]
		if c == nil || !c.in || s.locked() {
			return false
		}
		return s.rmCon(c)
	case "addcon":
		c := s.cons[op.i(0)]
		if c == nil || c.in || !c.a.in || !c.b.in || s.locked() || unsolvable(c.kind, c.a, c.b) {
			return false
		}
		ia, ib := s.islandOf(c.a), s.islandOf(c.b)
		sp.AddConstraint(c.c)
		c.in = true
		c.a.cons[c.id], c.b.cons[c.id] = c, c
		s.woken(c.a, ia, "AddConstraint")
		s.woken(c.b, ib, "AddConstraint")
		return true
	case "rmbody":
		b := s.bodies[op.i(0)]
		if b == nil || !b.in || b.id == 0 || s.locked() {
			return false
		}
		isl := s.islandOf(b)
		if op.i(1) == 1 {
			// bare removal is legal only for a body nothing is attached to
			if len(b.shapes)+len(b.cons) > 0 {
				return false
			}
		}
		// removing shapes runs post-step callbacks, which may attach things again
		for i := 0; i < 5 && len(b.shapes)+len(b.cons) > 0; i++ {
			for _, c := range b.sortedCons() {
				if c.in {
					s.rmCon(c)
				}
			}
			for _, x := range b.sortedShapes() {
				if x.in {
					s.rmShape(x)
				}
			}
		}
		if !b.in || len(b.shapes)+len(b.cons) > 0 {
			return true
		}
		sp.RemoveBody(b.b)
		b.in = false
		s.woken(b, isl, "RemoveBody")
		return true
	case "addbody":
		b := s.bodies[op.i(0)]
		if b == nil || b.in || s.locked() {
			return false
		}
		s.fixMass(b)
		sp.AddBody(b.b)
		b.in = true
		s.disturb(b)
		return true
	case "pos", "ang", "vel", "avel", "force", "torque", "impW", "impL", "forW", "forL", "mass", "moment", "activate":
		return s.execBody(op)
	case "type":
		b := s.bodies[op.i(0)]
		typ := op.i(1)
		if b == nil || b.id == 0 || s.locked() || b.typ == typ {
			return false
		}
		if typ != DYN {
			for _, c := range b.cons {
				if (c.a == b || c.a.typ != DYN) && (c.b == b || c.b.typ != DYN) {
					return false // unsolvable
				}
			}
		} else if op.f(1) > 1e100 && b.holds() {
			return false
		}
		if typ != DYN && b.holds() {
			return false
		}
		if typ != DYN {
			b.bias = false
		}
		isl := s.islandOf(b)
		var rest []*BodyM
		var rests [][]*BodyM
		if b.typ == STAT {
			rest = s.restingOn(b, nil)
			for _, c := range b.sortedCons() {
				for _, r := range []*BodyM{c.a, c.b} {
					if r != b && r.in && r.typ == DYN {
						rest = append(rest, r)
					}
				}
			}
			for _, r := range rest {
				rests = append(rests, s.islandOf(r))
			}
		}
		f0, t0 := b.b.Force(), b.b.Torque()
		b.b.SetType(typ)
		b.typ = typ
		if b.b.Force() != f0 || b.b.Torque() != t0 {
			s.fail("C15", "SetType changed the force and torque of body %d from %v, %v to %v, %v", b.id, f0, t0, b.b.Force(), b.b.Torque())
		}
		if typ == DYN {
			b.m0, b.i0 = op.f(0), op.f(1)
			s.fixMassForce(b)
		}
		s.woken(b, isl, "SetType")
		for i, r := range rest {
			s.woken(r, rests[i], "SetType of the static body it rests on or is jointed to")
		}
		return true
	case "sensor", "ctype", "fric", "elast", "filter", "surfv", "smass", "sdens":
		return s.execShape(op)
	case "radius", "geom":
		return s.execGeom(op)
	case "reindex":
		sh := s.shapes[op.i(0)]
		if sh == nil || !sh.in || s.locked() {
			return false
		}
		s.reindexShape(sh)
		return true
	case "reindexBody":
		b := s.bodies[op.i(0)]
		if b == nil || !b.in || s.locked() {
			return false
		}
		for _, sh := range b.sortedShapes() {
			s.reindexShape(sh)
		}
		return true
	case "gravity":
		if s.locked() {
			return false
		}
		var isl [][]*BodyM
		var bs []*BodyM
		for _, b := range s.bOrder {
			if b.in && b.sleeping() {
				bs = append(bs, b)
				isl = append(isl, s.islandOf(b))
			}
		}
		s.grav = op.v(0)
		sp.SetGravity(cv(s.grav))
		for i, b := range bs {
			s.woken(b, isl[i], "SetGravity")
		}
		for _, b := range s.bOrder {
			b.idleMin = 0
		}
		return true
	case "damping":
		s.damp = op.f(0)
		sp.SetDamping(s.damp)
		return true
	case "iters":
		s.iter = op.i(0)
		sp.Iterations = uint(s.iter)
		return true
	case "slop":
		s.slop = op.f(0)
		sp.SetCollisionSlop(s.slop)
		return true
	case "sleepthr":
		s.sleep = op.f(0)
		if s.sleep > 0 {
			sp.SleepTimeThreshold = s.sleep
		} else {
			sp.SleepTimeThreshold = cp.INFINITY
		}
		s.resetIdle()
		return true
	case "idlethr":
		s.idle = op.f(0)
		sp.IdleSpeedThreshold = s.idle
		return true
	case "hash":
		if s.locked() {
			return false
		}
		sp.UseSpatialHash(op.f(0), op.i(0))
		s.fault("index-switch")
		return true
	case "cparam":
		c := s.cons[op.i(0)]
		if c == nil {
			return false
		}
		ia, ib := s.islandOf(c.a), s.islandOf(c.b)
		c.poked = s.inStep && !s.inPost
		switch op.i(1) {
		case 0:
			c.maxF = op.f(0)
			c.c.SetMaxForce(op.f(0))
		case 1:
			c.eb = op.f(0)
			c.c.SetErrorBias(op.f(0))
		case 2:
			c.mb = op.f(0)
			c.c.SetMaxBias(op.f(0))
		case 3:
			c.collide = op.f(0) != 0
			c.c.SetCollideBodies(c.collide)
		}
		s.woken(c.a, ia, "constraint setter")
		s.woken(c.b, ib, "constraint setter")
		return true
	case "cfield":
		c := s.cons[op.i(0)]
		if c == nil || s.inStep && !s.inPost {
			return false
		}
		if op.i(1) == 3 {
			return s.swapSpringFunc(c)
		}
		return c.setField(op.i(1), op.F)
	case "activatestatic":
		b := s.bodies[op.i(0)]
		if b == nil || b.typ != STAT || !b.in || s.locked() {
			return false
		}
		var filt *ShapeM
		var fs *cp.Shape
		if op.i(1) != 0 {
			filt = s.shapes[op.i(1)]
			if filt == nil || !filt.in || filt.bm != b {
				return false
			}
			fs = filt.s
		}
		for _, o := range s.touching(b) {
			s.softDisturb(o)
		}
		rest := s.restingOn(b, filt)
		var isl [][]*BodyM
		for _, r := range rest {
			isl = append(isl, s.islandOf(r))
		}
		b.b.ActivateStatic(fs)
		for i, r := range rest {
			s.woken(r, isl[i], "ActivateStatic")
		}
		return true
	case "handler":
		hc := HandlerCfg{Wild: op.i(0) != 0, A: op.i(1), B: op.i(2), Mask: op.i(3), Fwd: op.i(4)}
		if s.locked() {
			return false
		}
		s.dispChanged = true
		s.addHandler(&hc)
		return true
	case "step":
		if s.locked() || s.flushing {
			return false
		}
		s.step(op.f(0), uint64(op.i(0)))
		return true
	case "post":
		// register a post-step callback outside of any step or query
		s.salt = uint64(op.i(0))
		s.callN = 0
		s.addPost(hashU(s.salt, 1))
		return true
	case "query":
		if s.flushing && s.on["C17"] {
			return false
		}
		s.salt = uint64(op.i(0))
		s.callN = 0
		s.runQuery(hashU(s.salt, 2), true)
		return true
	case "each":
		s.salt = uint64(op.i(0))
		s.callN = 0
		s.runEach(hashU(s.salt, 3))
		return true
	case "gc":
		s.fault("gc")
		faultGC(op.i(0))
		return true
	case "garbage":
		s.fault("garbage")
		faultGarbage(uint64(op.i(0)))
		return true
	}
	return s.execExtra(op)
}

func (s *Sim) rmShape(sh *ShapeM) bool {
	bm := sh.bm
	isl := s.islandOf(bm)
	var rest []*BodyM
	var rests [][]*BodyM
	if bm.typ == STAT {
		rest = s.restingOn(bm, sh)
		for _, r := range rest {
			rests = append(rests, s.islandOf(r))
		}
	}
	mark := len(s.ev)
	prevFlush := s.onFlush
	done := false
	finish := func() {
		if done {
			return
		}
		done = true
		sh.in = false
		delete(bm.shapes, sh.id)
		s.fixMass(bm)
		s.woken(bm, isl, "RemoveShape")
		for i, r := range rest {
			s.woken(r, rests[i], "RemoveShape of a static shape it rests on")
		}
		s.removedShape(sh, mark)
	}
	s.onFlush = finish
	s.removing++
	s.sp.RemoveShape(sh.s)
	s.removing--
	s.onFlush = prevFlush
	finish()
	s.flushCheck()
	return true
}

func (s *Sim) rmCon(c *ConM) bool {
	ia, ib := s.islandOf(c.a), s.islandOf(c.b)
	s.sp.RemoveConstraint(c.c)
	c.in = false
	delete(c.a.cons, c.id)
	delete(c.b.cons, c.id)
	s.woken(c.a, ia, "RemoveConstraint")
	s.woken(c.b, ib, "RemoveConstraint")
	return true
}

// shapesMass is the mass the body should have from its shapes.
func (b *BodyM) shapesMass() float64 {
	m := 0.0
	for _, x := range b.shapes {
		m += x.mass
	}
	return m
}

// fixMass gives a dynamic body left without mass a mass again, like any user would have to.
func (s *Sim) fixMass(b *BodyM) {
	if b.typ != DYN {
		return
	}
	if b.shapesMass() == 0 && !b.ownMass {
		s.check("no-mass-left")
		if b.b.Mass() != 0 || b.b.Moment() != 0 {
			s.fail("C18", "body %d: mass %v and moment %v, but its shapes have no mass left", b.id, b.b.Mass(), b.b.Moment())
		}
	}
	if m := b.b.Mass(); !(m > 0) || !(b.b.Moment() > 0) || !fin(m, b.b.Moment()) {
		if b.shapesMass() > 0 {
			return // a wrong mass, for C18 to report
		}
		s.fixMassForce(b)
	}
}

func (s *Sim) fixMassForce(b *BodyM) {
	if b.shapesMass() > 0 {
		return
	}
	if !(b.m0 > 0) {
		b.m0 = 1
	}
	if !(b.i0 > 0) {
		b.i0 = 10
	}
	b.b.SetMass(b.m0)
	b.b.SetMoment(b.i0)
	b.ownMass = true
	if s.on["C18"] && !(s.inStep && !s.inPost) {
		// it is still where it was, also when its transform is made anew
		p := vv(b.b.Position())
		s.check("place-without-mass")
		if b.b.SetAngle(b.b.Angle()); vv(b.b.Position()).Sub(p).Len() > 1e-8*(1+p.Len()) {
			s.fail("C18", "body %d lost its mass and jumps from %v to %v", b.id, p, vv(b.b.Position()))
		}
	}
}

func (s *Sim) execBody(op *Op) bool {
	b := s.bodies[op.i(0)]
	if b == nil {
		return false
	}
	if op.K != "pos" && op.K != "ang" && op.K != "activate" && b.typ == STAT {
		return false
	}
	if (op.K == "mass" || op.K == "moment" || op.K == "impW" || op.K == "impL" || op.K == "force" || op.K == "torque" || op.K == "forW" || op.K == "forL") && b.typ != DYN {
		return false
	}
	if (op.K == "mass" || op.K == "moment") && b.shapesMass() > 0 {
		return false // the shapes decide
	}
	if op.K == "moment" && op.f(0) > 1e100 && b.holds() {
		return false
	}
	if s.inStep && !s.inPost && (op.K == "pos" || op.K == "ang") {
		return false
	}
	isl := s.islandOf(b)
	st0 := b.state()
	switch op.K {
	case "pos":
		b.b.SetPosition(cv(op.v(0)))
		if b.sleeping() == false && b.in && op.i(1) != 0 && !s.locked() {
			for _, sh := range b.sortedShapes() {
				s.reindexShape(sh)
			}
		}
	case "ang":
		b.b.SetAngle(op.f(0))
		if op.i(1) != 0 && !s.locked() && b.in {
			for _, sh := range b.sortedShapes() {
				s.reindexShape(sh)
			}
		}
	case "vel":
		if v := op.v(0); s.opIdx%2 == 0 {
			b.b.SetVelocityVector(cv(v))
		} else {
			b.b.SetVelocity(v.X, v.Y)
		}
	case "avel":
		b.b.SetAngularVelocity(op.f(0))
	case "force":
		b.b.SetForce(cv(op.v(0)))
	case "torque":
		b.b.SetTorque(op.f(0))
	case "impW":
		b.b.ApplyImpulseAtWorldPoint(cv(op.v(0)), cv(op.v(2)))
	case "impL":
		b.b.ApplyImpulseAtLocalPoint(cv(op.v(0)), cv(op.v(2)))
	case "forW":
		b.b.ApplyForceAtWorldPoint(cv(op.v(0)), cv(op.v(2)))
	case "forL":
		b.b.ApplyForceAtLocalPoint(cv(op.v(0)), cv(op.v(2)))
	case "mass":
		b.m0 = op.f(0)
		b.b.SetMass(b.m0)
	case "moment":
		b.i0 = op.f(0)
		b.b.SetMoment(b.i0)
	case "activate":
		b.b.Activate()
	}
	if s.inStep && !s.inPost {
		b.poked = true
	}
	s.checkSetter(op, b, st0)
	s.woken(b, isl, op.K)
	return true
}

func (s *Sim) execShape(op *Op) bool {
	sh := s.shapes[op.i(0)]
	if sh == nil {
		return false
	}
	if op.K == "smass" || op.K == "sdens" {
		if s.locked() || !sh.in {
			return false
		}
	}
	if s.inStep && !s.inPost {
		return false
	}
	isl := s.islandOf(sh.bm)
	x := sh.s
	if op.K == "sdens" && sh.kind == 2 && sh.staleI {
		return false
	}
	if op.K == "smass" || op.K == "sdens" {
		sh.bm.ownMass = false
	}
	switch op.K {
	case "sensor":
		sh.sensor = op.i(1) != 0
		x.SetSensor(sh.sensor)
	case "ctype":
		s.dispChanged = true
		sh.ctype = op.i(1)
		x.SetCollisionType(s.ctype(sh.ctype))
	case "fric":
		sh.u = op.f(0)
		x.SetFriction(sh.u)
	case "elast":
		sh.e = op.f(0)
		x.SetElasticity(sh.e)
	case "filter":
		sh.group, sh.cat, sh.mask = uint(op.i(1)), umask(op.i(2)), umask(op.i(3))
		x.SetFilter(cp.NewShapeFilter(sh.group, sh.cat, sh.mask))
	case "surfv":
		sh.sv = op.v(0)
		x.SetSurfaceV(cv(sh.sv))
	case "smass":
		sh.mass = op.f(0)
		x.SetMass(sh.mass)
		s.fixMass(sh.bm)
	case "sdens":
		sh.mass = op.f(0) * sh.area()
		x.SetDensity(op.f(0))
		s.fixMass(sh.bm)
	}
	s.woken(sh.bm, isl, op.K)
	return true
}

func (sh *ShapeM) area() float64 {
	switch sh.kind {
	case 0:
		return math.Pi * sh.areaR * sh.areaR
	case 1:
		return sh.areaR * (math.Pi*sh.areaR + 2*sh.areaG[0].Sub(sh.areaG[1]).Len())
	}
	return polyArea(sh.areaG) + sh.areaR*(math.Pi*sh.areaR+polyPerimeter(sh.areaG))
}

// inertia about its own center, per unit mass, and that center
func (sh *ShapeM) inertia() (float64, V) {
	switch sh.kind {
	case 0:
		return sh.areaR * sh.areaR / 2, sh.areaG[0]
	case 1:
		l, h := sh.areaG[0].Sub(sh.areaG[1]).Len()+2*sh.areaR, 2*sh.areaR
		return (l*l + h*h) / 12, sh.areaG[0].Lerp(sh.areaG[1], 0.5)
	}
	return polyInertia(sh.areaG), polyCentroid(sh.areaG)
}

func (s *Sim) execGeom(op *Op) bool {
	sh := s.shapes[op.i(0)]
	if sh == nil || s.locked() || (s.inStep && !s.inPost) {
		return false
	}
	isl := s.islandOf(sh.bm)
	massive := sh.mass > 0 && sh.bm.typ == DYN && sh.in
	if op.K == "radius" {
		r := op.f(0)
		switch c := sh.s.Class.(type) {
		case *cp.Circle:
			if r <= 0 {
				return false
			}
			c.SetRadius(r)
			sh.areaR = r
		case *cp.Segment:
			c.SetRadius(r)
			sh.areaR = r
		case *cp.PolyShape:
			// the mass info of polys does not depend on the radius, except for the area, which is left as it was
			c.SetRadius(r)
			massive = false
			if r != sh.areaR {
				sh.staleI = true
			}
		}
		sh.r = r
	} else {
		pts := toPts(op.F)
		switch c := sh.s.Class.(type) {
		case *cp.Circle:
			return false
		case *cp.Segment:
			if len(pts) != 2 {
				return false
			}
			c.SetEndpoints(cv(pts[0]), cv(pts[1]))
		case *cp.PolyShape:
			if len(pts) < 3 {
				return false
			}
			sh.areaR = sh.r
			sh.staleI = false
			switch op.i(1) {
			case 0:
				c.SetVertsRaw(len(pts), cvs(pts))
			case 1:
				c.SetVertsUnsafe(len(pts), cvs(pts), cp.NewTransformIdentity())
			case 2:
				q, t := disguise(NewRng(uint64(op.i(3))), pts)
				c.SetVertsUnsafe(len(q), q, t)
			case 3:
				// leaves the mass info as it was
				c.SetVerts(len(pts), cvs(pts))
				sh.staleI = true
				massive = false
			}
		}
		sh.local, sh.areaG = pts, pts
	}
	s.fixMass(sh.bm)
	sh.dirty = true
	if sh.in {
		if sh.bm.typ == STAT || sh.bm.sleeping() || op.i(2) != 0 {
			s.reindexShape(sh)
		}
	}
	if massive {
		s.woken(sh.bm, isl, op.K)
	} else {
		s.softDisturb(sh.bm)
		for _, o := range isl {
			o.forcedUp = true // may wake it, but need not
		}
	}
	return true
}

// turns tells whether a torque on the body makes a difference.
func (b *BodyM) turns() bool {
	return b.typ == DYN && b.i0 < 1e100 && b.b.Moment() < 1e100
}

// unsolvable joints (cpAssertSoft in Chipmunk) have nothing they could move or turn.
func unsolvable(kind int, a, b *BodyM) bool {
	if a.typ != DYN && b.typ != DYN {
		return true
	}
	return kind >= JGear && kind != JSpring && !a.turns() && !b.turns()
}

// holds tells whether one of the body's joints has nothing but this body to turn.
func (b *BodyM) holds() bool {
	for _, c := range b.cons {
		o := c.a
		if o == b {
			o = c.b
		}
		if c.kind >= JGear && c.kind != JSpring && !o.turns() {
			return true
		}
	}
	return false
}

func (s *Sim) execCon(op *Op) bool {
	id, kind := op.i(0), op.i(1)
	a, b := s.bodies[op.i(2)], s.bodies[op.i(3)]
	if s.cons[id] != nil || a == nil || b == nil || a == b || !a.in || !b.in || s.locked() {
		return false
	}
	if unsolvable(kind, a, b) {
		return false
	}
	f := op.F
	ia, ib := s.islandOf(a), s.islandOf(b)
	c := s.makeJoint(kind, a.b, b.b, f[3:])
	cm := &ConM{id: id, kind: kind, c: c, a: a, b: b, collide: op.i(4) != 0, f: append([]float64{}, f[3:]...), maxF: cp.INFINITY,
		eb: math.Pow(0.9, 60), mb: math.Inf(1)}
	cm.setAnchors()
	if s.on["C25"] && (c.MaxForce() < cp.INFINITY || c.MaxBias() < cp.INFINITY || !near(c.ErrorBias(), cm.eb, 1e-12) || c.UserData != nil) {
		s.fail("C25", "a new constraint has MaxForce, MaxBias, ErrorBias %v %v %v", c.MaxForce(), c.MaxBias(), c.ErrorBias())
	}
	c.UserData = id
	// 0 leaves a value as it is, -1 makes it 0
	if f[0] != 0 {
		cm.maxF = math.Max(f[0], 0)
		c.SetMaxForce(cm.maxF)
	}
	if f[1] != 0 {
		cm.eb = math.Max(f[1], 0)
		c.SetErrorBias(cm.eb)
	}
	if f[2] != 0 {
		cm.mb = math.Max(f[2], 0)
		c.SetMaxBias(cm.mb)
	}
	if !cm.collide || id%2 == 0 {
		c.SetCollideBodies(cm.collide)
	}
	if op.i(5) != 0 {
		s.swapSpringFunc(cm)
	}
	if cm.hooks = op.i(6) & 3; cm.hooks&1 == 0 {
		c.PreSolve = func(c *cp.Constraint, space *cp.Space) { s.onConstraint(cm, c, space, 0) }
	}
	if cm.hooks&2 == 0 {
		c.PostSolve = func(c *cp.Constraint, space *cp.Space) { s.onConstraint(cm, c, space, 1) }
	}
	s.sp.AddConstraint(c)
	cm.in = true
	s.cons[id] = cm
	s.cOrder = append(s.cOrder, cm)
	s.byCon[c] = cm
	a.cons[id], b.cons[id] = cm, cm
	s.woken(a, ia, "AddConstraint")
	s.woken(b, ib, "AddConstraint")
	return true
}

// setSpringFunc gives a spring a force law of the user's.
func (s *Sim) setSpringFunc(c *ConM) {
	called := func() {
		c.fcalls++
		if s.inStep {
			s.phase = 2
		}
		s.cbDepth++
		s.actions(12, hashU(s.salt, 78, uint64(c.id)), nil, nil)
		s.cbDepth--
	}
	switch j := c.c.Class.(type) {
	case *cp.DampedSpring:
		c.custom = true
		j.SpringForceFunc = func(x *cp.DampedSpring, dist float64) float64 {
			if x != j {
				s.fail("C13", "constraint %d: the spring force function got another spring", c.id)
			}
			called()
			return c.law(dist)
		}
	case *cp.DampedRotarySpring:
		c.custom = true
		j.SpringTorqueFunc = func(x *cp.DampedRotarySpring, rel float64) float64 {
			if x != j {
				s.fail("C13", "constraint %d: the spring torque function got another spring", c.id)
			}
			called()
			return c.law(rel)
		}
	}
}

// swapSpringFunc gives a spring another force law, or its first one back.
func (s *Sim) swapSpringFunc(c *ConM) bool {
	switch j := c.c.Class.(type) {
	case *cp.DampedSpring:
		if c.custom {
			j.SpringForceFunc = c.ownForce
		} else {
			c.ownForce = j.SpringForceFunc
		}
	case *cp.DampedRotarySpring:
		if c.custom {
			j.SpringTorqueFunc = c.ownTorque
		} else {
			c.ownTorque = j.SpringTorqueFunc
		}
	default:
		return false
	}
	if c.custom {
		c.custom = false
	} else {
		s.setSpringFunc(c)
	}
	return true
}

// law is the force or torque of a spring.
func (c *ConM) law(x float64) float64 {
	switch {
	case c.kind == JSpring && c.custom:
		return c.g(5) * math.Min(c.g(4)-x, 0) // pulls, but does not push
	case c.kind == JSpring:
		return c.g(5) * (c.g(4) - x)
	case c.custom:
		return c.g(1) * math.Sin(x-c.g(0))
	}
	return c.g(1) * (x - c.g(0))
}

// setField writes exported fields of a joint, as users do to steer it while the simulation runs.
func (c *ConM) setField(which int, f []float64) bool {
	g := func(i int) float64 {
		if i < len(f) {
			return f[i]
		}
		return 0
	}
	set := func(i int, v float64) {
		for len(c.f) <= i {
			c.f = append(c.f, 0)
		}
		c.f[i] = v
	}
	anchor := func(a, b *cp.Vector) bool {
		if which == 1 {
			c.la, *a = V{g(0), g(1)}, cp.Vector{X: g(0), Y: g(1)}
		} else {
			c.lb, *b = V{g(0), g(1)}, cp.Vector{X: g(0), Y: g(1)}
		}
		return true
	}
	switch j := c.c.Class.(type) {
	case *cp.PinJoint:
		if which > 0 {
			return anchor(&j.AnchorA, &j.AnchorB)
		}
		c.dist0, j.Dist = g(0), g(0)
	case *cp.SlideJoint:
		if which > 0 {
			return anchor(&j.AnchorA, &j.AnchorB)
		}
		set(4, g(0))
		set(5, g(1))
		j.Min, j.Max = g(0), g(1)
	case *cp.PivotJoint:
		return anchor(&j.AnchorA, &j.AnchorB)
	case *cp.GrooveJoint:
		if which == 0 {
			a, b := V{g(0), g(1)}, V{g(2), g(3)}
			for i := 0; i < 4; i++ {
				set(i, g(i))
			}
			j.GrooveA, j.GrooveB, j.GrooveN = cv(a), cv(b), cv(b.Sub(a).Unit().Perp())
		} else {
			set(4, g(0))
			set(5, g(1))
			j.AnchorB = cp.Vector{X: g(0), Y: g(1)}
		}
	case *cp.RotaryLimitJoint:
		set(0, g(0))
		set(1, g(1))
		j.Min, j.Max = g(0), g(1)
	case *cp.RatchetJoint:
		switch which {
		case 0:
			set(0, g(0))
			j.Phase = g(0)
		case 1:
			set(1, g(0))
			j.Ratchet = g(0)
		default:
			c.tooth, j.Angle = g(0), g(0)
			c.toothBad = false
		}
	case *cp.SimpleMotor:
		set(0, g(0))
		j.Rate = g(0)
	case *cp.DampedSpring:
		if which > 0 {
			return anchor(&j.AnchorA, &j.AnchorB)
		}
		set(4, g(0))
		set(5, g(1))
		set(6, g(2))
		j.RestLength, j.Stiffness, j.Damping = g(0), g(1), g(2)
	case *cp.DampedRotarySpring:
		for i := 0; i < 3; i++ {
			set(i, g(i))
		}
		j.RestAngle, j.Stiffness, j.Damping = g(0), g(1), g(2)
	default:
		return false
	}
	return true
}

func (s *Sim) makeJoint(kind int, a, b *cp.Body, f []float64) *cp.Constraint {
	g := func(i int) float64 {
		if i < len(f) {
			return f[i]
		}
		return 0
	}
	v := func(i int) cp.Vector { return cp.Vector{X: g(i), Y: g(i + 1)} }
	switch kind {
	case JPin:
		return cp.NewPinJoint(a, b, v(0), v(2))
	case JSlide:
		return cp.NewSlideJoint(a, b, v(0), v(2), g(4), g(5))
	case JPivot:
		if g(4) != 0 {
			return cp.NewPivotJoint(a, b, v(0)) // world pivot
		}
		return cp.NewPivotJoint2(a, b, v(0), v(2))
	case JGroove:
		return cp.NewGrooveJoint(a, b, v(0), v(2), v(4))
	case JGear:
		return cp.NewGearJoint(a, b, g(0), g(1))
	case JRotLimit:
		return cp.NewRotaryLimitJoint(a, b, g(0), g(1))
	case JRatchet:
		return cp.NewRatchetJoint(a, b, g(0), g(1))
	case JMotor:
		return cp.NewSimpleMotor(a, b, g(0))
	case JSpring:
		return cp.NewDampedSpring(a, b, v(0), v(2), g(4), g(5), g(6))
	}
	return cp.NewDampedRotarySpring(a, b, g(0), g(1), g(2))
}

func (s *Sim) resetIdle() {
	for _, b := range s.bOrder {
		b.idleMin = 0
	}
}

// islandOf returns the bodies that have to wake together with b (nil if b is awake).
func (s *Sim) islandOf(b *BodyM) []*BodyM {
	if b != nil && b.in {
		s.softDisturb(b) // what touches it now may no longer do so afterwards
		if b.typ != DYN {
			for _, o := range s.touching(b) {
				s.softDisturb(o)
			}
		}
	}
	if b == nil || !b.in || !b.sleeping() {
		return nil
	}
	if len(b.island) > 0 {
		return b.island
	}
	return []*BodyM{b}
}

// ctype is the collision type with a number. Those of some worlds have most bits in common.
func (s *Sim) ctype(i int) cp.CollisionType {
	if s.cfg.p("wide") == 0 {
		return cp.CollisionType(i)
	}
	return []cp.CollisionType{5, 5 + 1<<32, 5 + 1<<8, 5 + 1<<16, 5 + 1<<63, 6, 4 + 1<<32}[i%7]
}

// softDisturb notes a change that may or may not reset idle timers.
func (s *Sim) softDisturb(b *BodyM) {
	b.idleMin = 0
	for _, o := range s.touching(b) {
		o.idleMin = 0
	}
}

func (s *Sim) disturb(b *BodyM) {
	s.softDisturb(b)
	if b.typ == DYN {
		b.idleMax = 0
	}
}

// woken checks that a disturbance of b woke the island it slept in.
func (s *Sim) woken(b *BodyM, isl []*BodyM, what string) {
	s.disturb(b)
	if !s.inStep && b.in && b.typ == DYN {
		// what touches it starts its idle timer again
		for _, p := range s.sortedPairs() {
			if p.st != 1 || !p.solved || !p.fresh || p.a.bm != b && p.b.bm != b {
				continue
			}
			o := p.a.bm
			if o == b {
				o = p.b.bm
			}
			if o.in && o.typ == DYN {
				o.idleMax = 0
			}
		}
	}
	if isl == nil {
		return
	}
	s.probe("wake-by-" + what)
	for _, o := range isl {
		s.disturb(o)
		o.forcedUp = true
		if s.inStep && (s.phase >= 2 || s.inPost) {
			o.late = true // too late for the solver of this step
		}
	}
	if s.locked() {
		for _, o := range isl {
			if o.in {
				o.dist = true
			}
		}
		return
	}
	for _, o := range isl {
		if o.in && o.typ == DYN && o.sleeping() {
			s.fail("C08", "body %d still sleeps after its island was disturbed by %s on body %d", o.id, what, b.id)
		}
	}
	s.check("wake")
}

// touching lists the bodies in contact with b by the library's own account.
func (s *Sim) touching(b *BodyM) []*BodyM {
	var r []*BodyM
	b.b.EachArbiter(func(arb *cp.Arbiter) {
		x, y := arb.Bodies()
		if x == b.b {
			x = y
		}
		if o := s.byBody[x]; o != nil {
			r = append(r, o)
		}
	})
	return r
}

// restingOn lists sleeping bodies that fell asleep in solved contact with the static body (or just its shape).
func (s *Sim) restingOn(b *BodyM, filt *ShapeM) []*BodyM {
	var r []*BodyM
	for _, p := range s.sortedPairs() {
		if !p.asleep {
			continue
		}
		x, y := p.a, p.b
		if y.bm == b {
			x, y = y, x
		}
		if x.bm != b || (filt != nil && x != filt) {
			continue
		}
		if y.bm.in && y.bm.sleeping() {
			r = append(r, y.bm)
		}
	}
	return r
}
