package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"

	"github.com/jakecoffman/cp/v2"
)

// twin (C16): a history is executed again and again in the same process, undisturbed and with garbage collections, heap
// garbage and other spaces in between (also in the middle of steps), and has to go exactly the same way every time.
//
// asking (C07), idling (C15), drawing (C26): the second execution has queries, enumerations and getters, steps of no time,
// or drawing added that the first does not have: the bodies have to move the same way.

func init() {
	specials["twin"] = &Special{explore: twinExplore, replay: twinReplay}
	for k := range additions {
		specials[k] = &Special{explore: twinExplore, replay: twinReplay}
	}
	plans["C16"] = []pick{{"twin", 1}}
	plans["C07"] = []pick{{"history", 0.85}, {"asking", 0.15}}
	plans["C15"] = []pick{{"history", 0.92}, {"idling", 0.08}}
	plans["C26"] = []pick{{"history", 0.94}, {"drawing", 0.06}}
}

// addition is something that has to leave the simulation alone.
type addition struct {
	prop, what string
	f          func(s *Sim, r *Rng)
}

var additions = map[string]*addition{
	"asking": {"C07", "queries, enumerations and getters are called in between", askAround},
	"idling": {"C15", "steps of no time are made in between", func(s *Sim, r *Rng) { s.sp.Step(0) }},
	"drawing": {"C26", "it is drawn in between", func(s *Sim, r *Rng) {
		if r.P(0.3) {
			cp.DebugInfo(s.sp)
		}
		cp.DrawSpace(s.sp, &recDrawer{})
	}},
}

// the worlds that are run several times
var twinBases = []pick{{"history", 0.7}, {"mech", 0.1}, {"impact", 0.05}, {"settle", 0.05}, {"slope", 0.03}, {"rest", 0.07}}

func pickName(r *Rng, pl []pick) string {
	var w []float64
	for _, p := range pl {
		w = append(w, p.w)
	}
	return pl[r.Pick(w)].name
}

// generate makes one run of a scenario and returns its operations.
func generate(name, prop string, r *Rng, scale float64, st *Stats, tweak func(c *Cfg)) (Cfg, []Op, *Sim) {
	sc := scenarios[name]
	cfg := sc.cfg(r, prop)
	cfg.Scen = name
	if tweak != nil {
		tweak(&cfg)
	}
	s := newSim(cfg, prop, st)
	s.digOn, s.opDigOn = true, true
	s.noDraw = current.tr.Cfg.Scen == "drawing"
	var ops []Op
	s.guard(func() {
		g := sc.gen(r, s, prop, scale)
		for s.viol == nil && !s.over {
			op, ok := g.next()
			if !ok {
				break
			}
			s.opIdx = len(ops)
			ops = append(ops, op)
			current.tr.Ops = ops
			s.exec(&ops[len(ops)-1])
			s.opDig = append(s.opDig, s.dig)
		}
	})
	return cfg, ops, s
}

func twinExplore(name, prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim) {
	r := NewRng(hashU(seed, 5))
	base := pickName(r, twinBases)
	tr := &Trace{Property: prop, Seed: seed, Cfg: Cfg{Scen: name}}
	begin(tr)
	defer end()
	cfg, ops, s := generate(base, prop, r, scale, st, nil)
	cfg.P["base"] = 0
	for i, b := range twinBases {
		if b.name == base {
			cfg.P["base"] = float64(i)
		}
	}
	cfg.P["env"] = float64(r.Salt())
	cfg.P["envRate"] = r.Choose(0.02, 0.1, 0.3)
	cfg.Scen = name
	tr.Cfg, tr.Ops = cfg, ops
	if s.viol == nil {
		n := 2
		if additions[name] != nil {
			n = 1
		}
		for k := 1; k <= n && s.viol == nil; k++ {
			twinOnce(tr, s, st, k)
		}
	}
	s.finishRun(st, name+"-"+base)
	if s.viol != nil {
		tr.Violation = s.viol.String()
	}
	return tr, s
}

func twinReplay(tr *Trace, st *Stats) *Sim {
	if len(tr.Cfg.Proc) > 0 {
		return processReplay(tr, st)
	}
	s := twinRun(tr, st, nil)
	n := 2
	if additions[tr.Cfg.Scen] != nil {
		n = 1
	}
	for k := 1; k <= n && s.viol == nil; k++ {
		twinOnce(tr, s, st, k)
	}
	return s
}

// twinRun executes the operations of a twin's trace, with env called between and within them.
func twinRun(tr *Trace, st *Stats, env func(s *Sim, inside bool)) *Sim {
	cfg := tr.Cfg
	cfg.Scen = twinBases[int(cfg.P["base"])].name
	s := newSim(cfg, tr.Property, st)
	begin(tr)
	defer end()
	s.digOn, s.opDigOn = true, true
	s.noDraw = tr.Cfg.Scen == "drawing"
	if env != nil {
		s.env = func() { env(s, true) }
	}
	s.guard(func() {
		for i := range tr.Ops {
			if s.viol != nil || s.over {
				break
			}
			s.opIdx = i
			if env != nil {
				env(s, false)
			}
			s.exec(&tr.Ops[i])
			s.opDig = append(s.opDig, s.dig)
		}
	})
	return s
}

// twinOnce executes the trace in another environment and compares it with the first execution s.
func twinOnce(tr *Trace, s *Sim, st *Stats, k int) {
	r := NewRng(hashU(uint64(tr.Cfg.P["env"]), uint64(k)))
	rate := tr.Cfg.P["envRate"]
	var env func(x *Sim, inside bool)
	add := additions[tr.Cfg.Scen]
	budget := 25
	switch {
	case add != nil:
		env = func(x *Sim, inside bool) {
			if !r.P(rate) || inside || len(x.pcb) > 0 {
				return
			}
			x.digOn = false
			add.f(x, r)
			x.digOn = true
			x.check("asked")
		}
	case k == 1:
		env = func(x *Sim, inside bool) {
			p := rate
			if inside {
				p /= 3
			}
			if !r.P(p) || budget == 0 {
				return
			}
			budget--
			if r.P(0.5) {
				x.fault("gc")
				faultGC(r.Pick([]float64{3, 1, 1}))
			} else {
				x.fault("garbage")
				faultGarbage(r.U64())
			}
			if inside {
				x.probe("environment-fault-inside-a-step")
			}
		}
	default:
		x := r.Intn(3)
		for i := 0; i < x; i++ {
			faultGarbage(r.U64())
		}
	}
	s2 := twinRun(tr, NewStats(), env)
	for k, v := range s2.st.Faults {
		if k == "gc" || k == "garbage" {
			st.Faults[k] += v
		}
	}
	st.Probe["environment-fault-inside-a-step"] += s2.st.Probe["environment-fault-inside-a-step"]
	st.Checks["asked"] += s2.st.Checks["asked"]
	if s2.viol != nil {
		s.viol = s2.viol
		return
	}
	prop := "C16"
	if add != nil {
		prop = add.prop
		st.Checks[tr.Cfg.Scen+"-compared"]++
	} else {
		st.Checks["digest-compared"]++
	}
	n := len(s.opDig)
	if len(s2.opDig) < n {
		n = len(s2.opDig)
	}
	for i := 0; i < n; i++ {
		if s.opDig[i] != s2.opDig[i] {
			s.opIdx = i
			if add != nil {
				s.fail(prop, "the simulation goes another way if %s: %s", add.what, tr.Ops[i].K)
			} else {
				s.fail(prop, "the same calls go another way when executed again: %s", tr.Ops[i].K)
			}
			return
		}
	}
	if len(s.opDig) != len(s2.opDig) {
		s.opIdx = n
		s.fail(prop, "the same calls go another way when executed again: one execution ended early")
	}
}

// askAround calls what has to leave the simulation alone.
func askAround(s *Sim, r *Rng) {
	p := V{r.Range(-30, 30), r.Range(-30, 60)}
	if len(s.bOrder) > 1 && r.P(0.7) {
		p = vv(s.bOrder[r.Intn(len(s.bOrder))].b.Position()).Add(V{r.Range(-5, 5), r.Range(-5, 5)})
	}
	q := p.Add(V{r.Range(-40, 40), r.Range(-40, 40)})
	f := cp.SHAPE_FILTER_ALL
	sp := s.sp
	switch r.Intn(7) {
	case 0:
		sp.PointQueryNearest(cv(p), r.Range(0, 20), f)
	case 1:
		sp.SegmentQueryFirst(cv(p), cv(q), r.Choose(0, 1), f)
	case 2:
		sp.SegmentQuery(cv(p), cv(q), r.Choose(0, 1), f, func(shape *cp.Shape, point, normal cp.Vector, alpha float64, data interface{}) {}, nil)
	case 3:
		sp.BBQuery(cp.BB{L: p.X - 5, B: p.Y - 5, R: p.X + 20, T: p.Y + 20}, f, func(shape *cp.Shape, data interface{}) {}, nil)
	case 4:
		sp.EachBody(func(b *cp.Body) {
			b.KineticEnergy()
			b.IsSleeping()
			b.EachArbiter(func(a *cp.Arbiter) { a.ContactPointSet() })
		})
		sp.EachShape(func(x *cp.Shape) {
			x.BB()
			x.Density()
			x.Mass()
			x.Area()
			x.Moment()
			x.CenterOfGravity()
			x.Space()
		})
		sp.EachConstraint(func(c *cp.Constraint) { c.Class.GetImpulse(); c.MaxForce() })
	case 5:
		for _, b := range s.bOrder {
			b.b.EachShape(func(x *cp.Shape) { x.PointQuery(cv(p)) })
			b.b.EachConstraint(func(c *cp.Constraint) {})
			b.b.VelocityAtWorldPoint(cv(p))
			b.b.WorldToLocal(cv(p))
			sp.ContainsBody(b.b)
		}
	case 6:
		// a shape that is not part of the space
		b := cp.NewKinematicBody()
		b.SetPosition(cv(p))
		sp.ShapeQuery(cp.NewCircle(b, r.Range(0.5, 10), cp.Vector{}), func(shape *cp.Shape, points *cp.ContactPointSet) {})
	}
}

// ---- other processes ----

const procRuns = 120

// crossProcess executes the first seeds in other processes, in another order, and compares.
func crossProcess(self, prop string, seed uint64, t tier, n int, work string, by map[int]uint64, st *Stats) string {
	type res struct {
		from int
		o    *WorkerOut
	}
	ch := make(chan res, 3)
	for w := 0; w < 3; w++ {
		go func(w int) { ch <- res{w, procChild(self, prop, seed, t.scale, w, 3, procRuns, work, w)} }(w)
	}
	path := ""
	for k := 0; k < 3; k++ {
		r := <-ch
		if r.o == nil {
			st.Probe["process-comparison-failed"]++
			continue
		}
		for i, x := range r.o.Idx {
			d, ok := by[x]
			if !ok {
				continue
			}
			st.Checks["process-compared"]++
			if d != r.o.Dig[i] && path == "" {
				tr := &Trace{Property: prop, Seed: seed, Cfg: Cfg{Scen: "twin", Proc: []int{x % n, n, x % 3, 3, x}, P: map[string]float64{"scale": t.scale}}}
				tr.Violation = fmt.Sprintf("op 0: run %d goes another way in another process [C16]", x)
				path = filepath.Join(work, fmt.Sprintf("%s-process-%d.json", prop, x))
				tr.write(path)
			}
		}
	}
	return path
}

// procChild runs indices from, from+stride ... below count in a process of its own.
func procChild(self, prop string, seed uint64, scale float64, from, stride, count int, work string, variant int) *WorkerOut {
	dir, err := os.MkdirTemp(work, "child-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	c := exec.Command(self, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-stride", fmt.Sprint(stride), "-count", fmt.Sprint(count),
		"-scale", fmt.Sprint(scale), "-deadline", "300", "-dir", dir, "-variant", fmt.Sprint(variant))
	c.Run()
	return readOut(filepath.Join(dir, fmt.Sprintf("%s-w%d.json", prop, from)))
}

// processReplay compares two processes again.
func processReplay(tr *Trace, st *Stats) *Sim {
	s := newSim(Cfg{Scen: "history", Iter: 1}, tr.Property, st)
	self, _ := os.Executable()
	p := tr.Cfg.Proc
	work, err := os.MkdirTemp("", "cpsim-proc-")
	if err != nil {
		return s
	}
	defer os.RemoveAll(work)
	dig := func(from, stride, variant int) (uint64, bool) {
		o := procChild(self, tr.Property, tr.Seed, tr.Cfg.P["scale"], from, stride, p[4]+1, work, variant)
		if o != nil && len(o.Idx) > 0 && o.Idx[len(o.Idx)-1] == p[4] {
			return o.Dig[len(o.Dig)-1], true
		}
		return 0, false
	}
	a, ok := dig(p[0], p[1], 0)
	for v := 0; v < 3 && ok && s.viol == nil; v++ {
		if b, ok2 := dig(p[2], p[3], v); ok2 && a != b {
			s.fail("C16", "run %d goes another way in another process", p[4])
		}
	}
	return s
}
