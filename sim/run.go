package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/jakecoffman/cp/v2"
)

// Scenario is a family of simulated worlds: cfg draws the configuration, install puts its oracles in place (from the
// configuration alone, so that a replay has them too), gen makes the operations.
type Scenario struct {
	cfg     func(r *Rng, prop string) Cfg
	install func(s *Sim)
	gen     func(r *Rng, s *Sim, prop string, scale float64) *Gen
}

var scenarios = map[string]*Scenario{}

func init() {
	scenarios["history"] = &Scenario{cfg: genCfg, gen: newGen}
}

// which scenarios a property is explored in
type pick struct {
	name string
	w    float64
}

var plans = map[string][]pick{}

func planFor(prop string) []pick {
	if p := plans[prop]; p != nil {
		return p
	}
	return []pick{{"history", 1}}
}

// panicMsg turns a panic of the library into a message; it returns "" for a panic of the harness itself.
func panicMsg(e interface{}, stack string) string {
	lines := strings.Split(stack, "\n")
	// the first frames after the panic
	i := 0
	for j, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			i = j
		}
	}
	for _, l := range lines[i:] {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "/") {
			continue
		}
		if strings.HasPrefix(l, "github.com/jakecoffman/cp/") {
			return fmt.Sprintf("the library panics: %v in %s", e, l[:strings.LastIndex(l, "(")])
		}
		break
	}
	return ""
}

// guard runs f and turns a panic of the library into a violation.
func (s *Sim) guard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopped); ok {
				return
			}
			m := panicMsg(e, string(debug.Stack()))
			if m == "" {
				panic(fmt.Sprintf("harness: %v\n%s", e, debug.Stack()))
			}
			if s.viol == nil {
				s.fail("*", "%s", m)
			}
		}
	}()
	f()
}

// current is the run in progress, for the watchdog.
var current struct {
	tr    *Trace
	start float64
	on    bool
}

func newSim(cfg Cfg, prop string, st *Stats) *Sim {
	on := map[string]bool{prop: true}
	if prop == "ALL" {
		for i := 1; i < 30; i++ {
			on[fmt.Sprintf("C%02d", i)] = true
		}
	}
	s := NewSim(cfg, on, st)
	if sc := scenarios[cfg.Scen]; sc != nil && sc.install != nil {
		sc.install(s)
	}
	return s
}

func begin(tr *Trace) {
	tr.Cfg.Debug, tr.Cfg.Pre = debugBuild, preemptBuild
	current.tr, current.start, current.on = tr, cpuTime(), true
}
func end() { current.on = false }

// explore makes and executes one run.
func explore(prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim) {
	r := NewRng(seed)
	pl := planFor(prop)
	var w []float64
	for _, p := range pl {
		w = append(w, p.w)
	}
	name := pl[r.Pick(w)].name
	if sp := specials[name]; sp != nil {
		return sp.explore(name, prop, seed, scale, st)
	}
	sc := scenarios[name]
	cfg := sc.cfg(r, prop)
	cfg.Scen = name
	tr := &Trace{Property: prop, Seed: seed, Cfg: cfg}
	begin(tr)
	defer end()
	s := newSim(cfg, prop, st)
	s.digOn = true
	s.guard(func() {
		g := sc.gen(r, s, prop, scale)
		for s.viol == nil && !s.over {
			op, ok := g.next()
			if !ok {
				break
			}
			s.opIdx = len(tr.Ops)
			tr.Ops = append(tr.Ops, op)
			s.exec(&tr.Ops[len(tr.Ops)-1])
		}
		if s.viol == nil && s.final != nil {
			s.final()
		}
	})
	s.finishRun(st, name)
	if s.viol != nil {
		tr.Violation = s.viol.String()
	}
	return tr, s
}

func (s *Sim) finishRun(st *Stats, name string) {
	st.Runs++
	st.Probe["scenario-"+name]++
}

// replay executes a trace.
func replay(tr *Trace, st *Stats) *Sim {
	if sp := specials[tr.Cfg.Scen]; sp != nil {
		return sp.replay(tr, st)
	}
	s := newSim(tr.Cfg, tr.Property, st)
	begin(tr)
	defer end()
	s.digOn = true
	s.guard(func() {
		for i := range tr.Ops {
			if s.viol != nil || s.over {
				break
			}
			s.opIdx = i
			s.exec(&tr.Ops[i])
		}
		if s.viol == nil && s.final != nil {
			s.final()
		}
	})
	return s
}

// special scenarios need more than one space or more than one execution.
type Special struct {
	explore func(name, prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim)
	replay  func(tr *Trace, st *Stats) *Sim
}

var specials = map[string]*Special{}

// ---- minimisation ----

func cloneOps(o []Op) []Op {
	r := make([]Op, len(o))
	for i := range o {
		r[i] = Op{o[i].K, append([]int{}, o[i].I...), append([]float64{}, o[i].F...)}
	}
	return r
}

// minimise deletes and simplifies operations while the same kind of violation stays.
func minimise(tr *Trace, budget float64) *Trace {
	t0 := cpuTime()
	cls := classOf(tr.Violation)
	best := *tr
	try := func(c *Trace) (ok bool) {
		if cpuTime()-t0 > budget {
			return false
		}
		defer func() {
			// a scenario may not make sense with operations left out
			if e := recover(); e != nil {
				ok = false
			}
		}()
		runtime.GC()
		s := replay(c, NewStats())
		if s.viol == nil || classOf(s.viol.String()) != cls {
			return false
		}
		c.Violation = s.viol.String()
		if s.viol.Op < len(c.Ops)-1 && len(c.Worlds) == 0 && !s.keepTail {
			c.Ops = c.Ops[:s.viol.Op+1]
		}
		best = *c
		return true
	}
	with := func(ops []Op) *Trace {
		c := best
		c.Ops = ops
		return &c
	}
	if len(best.Worlds) > 0 {
		return minimiseWorlds(tr, try)
	}
	try(with(cloneOps(best.Ops)))
	for round := 0; round < 3; round++ {
		before := len(best.Ops)
		for n := len(best.Ops) / 2; n >= 1; n /= 2 {
			for i := len(best.Ops) - n; i >= 0 && cpuTime()-t0 < budget; {
				if i > len(best.Ops)-n {
					i = len(best.Ops) - n
					if i < 0 {
						break
					}
				}
				ops := append(append([]Op{}, best.Ops[:i]...), best.Ops[i+n:]...)
				try(with(ops))
				i -= n
			}
		}
		if len(best.Ops) == before {
			break
		}
	}
	// fewer callbacks doing things, fewer handlers
	for k := range tr.Cfg.P {
		if tr.Cfg.P[k] == 0 || !callbackParam[k] {
			continue
		}
		c := best
		c.Cfg.P = map[string]float64{}
		for a, b := range best.Cfg.P {
			c.Cfg.P[a] = b
		}
		c.Cfg.P[k] = 0
		try(&c)
	}
	for i := len(best.Cfg.Handle) - 1; i >= 0; i-- {
		c := best
		c.Cfg.Handle = append(append([]HandlerCfg{}, best.Cfg.Handle[:i]...), best.Cfg.Handle[i+1:]...)
		try(&c)
	}
	return &best
}

var callbackParam = map[string]bool{"act": true, "rejBegin": true, "ignBegin": true, "rejPre": true, "ignPre": true, "pbStruct": true,
	"aQuery": true, "aPoke": true, "aWake": true, "aPost": true, "aEach": true}

// classOf is a violation's message without its numbers.
func classOf(m string) string {
	if i := strings.Index(m, ": "); i >= 0 {
		m = m[i+2:]
	}
	var b strings.Builder
	for _, c := range m {
		if c >= '0' && c <= '9' || c == '.' || c == '-' || c == '+' || c == 'e' {
			continue
		}
		b.WriteRune(c)
	}
	x := b.String()
	if len(x) > 40 {
		x = x[:40]
	}
	return x
}

func minimiseWorlds(tr *Trace, try func(c *Trace) bool) *Trace {
	best := *tr
	if tr.Cfg.Scen == "threads" {
		best = *minimiseSched(tr, try)
	}
	for w := range tr.Worlds {
		for n := len(best.Worlds[w].Ops) / 2; n >= 1; n /= 2 {
			for i := len(best.Worlds[w].Ops) - n; i >= 0; i -= n {
				if i+n > len(best.Worlds[w].Ops) {
					continue
				}
				c := best
				c.Worlds = append([]Trace{}, best.Worlds...)
				o := best.Worlds[w].Ops
				c.Worlds[w].Ops = append(append([]Op{}, o[:i]...), o[i+n:]...)
				if try(&c) {
					best = c
				}
			}
		}
	}
	return &best
}

var _ = cp.INFINITY
