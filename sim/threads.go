package main

import "math"

// threads (C17): several spaces live in goroutines of their own. The library is built with a yield point before every
// statement (see ../inst), and only one goroutine runs at a time: the scheduler decides at which statement the next one
// takes over. Each has to go the way it goes alone.

func init() {
	specials["threads"] = &Special{explore: threadsExplore, replay: threadsReplay}
}

// stopped unwinds the goroutines of a run that is over.
type stopped struct{}

func threadsExplore(name, prop string, seed uint64, scale float64, st *Stats) (*Trace, *Sim) {
	r := NewRng(hashU(seed, 9))
	tr := &Trace{Property: prop, Seed: seed, Cfg: Cfg{Scen: name, P: map[string]float64{"slice": r.Choose(3, 30, 300, 3000)}}}
	if r.P(0.7) {
		tr.Cfg.P["hot"], tr.Cfg.P["slice"] = r.Choose(0.02, 0.2, 0.5), r.Choose(3000, 100000, 1e6)
	}
	solo, s := soloWorlds(tr, r, scale*0.5, st)
	if s.viol != nil {
		tr.Violation = s.viol.String()
		return tr, s
	}
	threadsRun(tr, solo, s, st, NewRng(hashU(seed, 10)))
	s.finishRun(st, name)
	for _, x := range solo {
		s.d(float64(x.dig >> 12))
	}
	if s.viol != nil {
		tr.Violation = s.viol.String()
	}
	return tr, s
}

func threadsReplay(tr *Trace, st *Stats) *Sim {
	var solo []*Sim
	var s *Sim
	for i := range tr.Worlds {
		s = soloRun(&tr.Worlds[i], tr.Property, st)
		solo = append(solo, s)
		if s.viol != nil {
			return s
		}
	}
	threadsRun(tr, solo, s, st, nil)
	for _, x := range solo {
		s.d(float64(x.dig >> 12))
	}
	return s
}

const maxSlices = 6000

// threadsRun executes each world in a goroutine. The schedule is a list of pairs, the world that runs next and for how many
// statements; it is drawn from r, or taken from the trace if r is nil. When it ends, the worlds run to their ends in turn.
func threadsRun(tr *Trace, solo []*Sim, out *Sim, st *Stats, r *Rng) {
	n := len(tr.Worlds)
	tr.Cfg.Pre = true
	begin(tr)
	defer end()
	var ws []*Sim
	st2 := NewStats()
	var baton []chan struct{}
	done := make([]bool, n)
	for i := range tr.Worlds {
		ws = append(ws, newSim(tr.Worlds[i].Cfg, tr.Property, st2))
		baton = append(baton, make(chan struct{}))
	}
	mean := tr.Cfg.p("slice")
	pos, cur, left := 0, -1, n
	var bad *Violation
	stop := false
	over := make(chan struct{})
	slice := 0 // as long as the current slice was meant to be
	set := func(k, hot int) {
		slice = k
		setSlice(k, hot)
	}
	hot, hotP := -1, tr.Cfg.p("hot")
	if r != nil && hotP > 0 {
		hot = hotFunc(r)
	}
	// next says who runs now, and for how long
	next := func() int {
		for {
			if r != nil && pos >= len(tr.Sched) && len(tr.Sched) < 2*maxSlices {
				k := 1 + int(-mean*math.Log(1-r.F()))
				if r.P(0.1) {
					k = r.Between(1, 5)
				} else if r.P(0.02) {
					k *= 100
				}
				tr.Sched = append(tr.Sched, r.Intn(n), k)
			}
			if pos+1 >= len(tr.Sched) {
				break
			}
			w, k := tr.Sched[pos], tr.Sched[pos+1]
			pos += 2
			if w < n && !done[w] {
				set(k, hot)
				return w
			}
		}
		set(1<<62, -1)
		if cur >= 0 && !done[cur] {
			return cur
		}
		for w := range done {
			if !done[w] {
				return w
			}
		}
		return -1
	}
	pass := func(w int) {
		cur = w
		baton[w] <- struct{}{}
	}
	hand := func(me, w int) {
		out.d(float64(w))
		pass(w)
		<-baton[me]
		if stop {
			panic(stopped{})
		}
	}
	setYield(func() {
		me := cur
		if left := sliceLeft(); left >= 0 {
			// in the hot function
			if !r.P(hotP) {
				return
			}
			tr.Sched[len(tr.Sched)-1] = slice - left - 1
		}
		w := next()
		if w == me {
			return
		}
		st.Probe["threads-preempted"]++
		hand(me, w)
	}, func() {
		// the library waits for a lock: the next world runs until it yields
		me := cur
		for i := 1; i < n; i++ {
			if w := (me + i) % n; !done[w] {
				st.Probe["threads-waited"]++
				set(1, -1)
				hand(me, w)
				return
			}
		}
		panic("a lock is never released")
	})
	defer setYield(nil, nil)
	defer setSlice(1<<62, -1)
	for i := range ws {
		s := ws[i]
		s.digOn = true
		free := func(w int) bool { return w >= 0 && w < n && done[w] }
		s.donor = func(w, id int) *BodyM {
			if !free(w) {
				return nil
			}
			return ws[w].bodies[id]
		}
		s.donorShape = func(w, id int) *ShapeM {
			if !free(w) {
				return nil
			}
			return ws[w].shapes[id]
		}
		go func(w int) {
			<-baton[w]
			if !stop {
				s.guard(func() {
					ops := tr.Worlds[w].Ops
					for k := range ops {
						if s.viol != nil || s.over || stop {
							return
						}
						s.opIdx = k
						s.exec(&ops[k])
						s.opDig = append(s.opDig, s.dig)
						st.Probe["worlds-ops"]++
						if bad == nil && (k >= len(solo[w].opDig) || solo[w].opDig[k] != s.dig) {
							out.opIdx = k
							out.fail("C17", "world %d goes another way next to other spaces in other goroutines than alone, at its operation %s", w, ops[k].K)
							bad = out.viol
							return
						}
					}
				})
			}
			done[w] = true
			left--
			if bad != nil || s.viol != nil {
				stop = true
			}
			if left == 0 {
				over <- struct{}{}
				return
			}
			if !stop {
				pass(next())
				return
			}
			setSlice(1<<62, -1)
			for x := range done {
				if !done[x] {
					pass(x)
					return
				}
			}
		}(i)
	}
	pass(next())
	<-over
	for w, s := range ws {
		if out.viol == nil && s.viol != nil {
			out.viol = s.viol
		}
		if out.viol == nil && len(s.opDig) != len(solo[w].opDig) {
			out.fail("C17", "world %d ends earlier or later next to other spaces in other goroutines", w)
		}
	}
	st.Checks["worlds-compared"]++
	st.Probe["body-moved-to-another-space"] += st2.Probe["body-moved-to-another-space"]
	st.Probe["shape-moved-to-another-space"] += st2.Probe["shape-moved-to-another-space"]
}

// minimiseSched shortens the schedule of threads: first its end, then slices in the middle.
func minimiseSched(tr *Trace, try func(c *Trace) bool) *Trace {
	best := *tr
	for n := len(best.Sched) / 4 * 2; n >= 2; n = n / 4 * 2 {
		for len(best.Sched) >= n {
			c := best
			c.Sched = append([]int{}, best.Sched[:len(best.Sched)-n]...)
			if !try(&c) {
				break
			}
			best = c
		}
	}
	for n := len(best.Sched) / 4 * 2; n >= 2; n = n / 4 * 2 {
		for i := len(best.Sched) - n; i >= 0; i -= n {
			if i+n > len(best.Sched) {
				continue
			}
			c := best
			c.Sched = append(append([]int{}, best.Sched[:i]...), best.Sched[i+n:]...)
			if try(&c) {
				best = c
			}
		}
	}
	return &best
}
