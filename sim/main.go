package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

func cpuTime() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

const (
	hangCPU  = 25.0    // seconds of CPU one run may take
	heapMax  = 2 << 30 // bytes one run may hold
	gcTarget = 256 << 20
)

// watchdog reports runs that hang or eat memory: the trace so far is written down, and the process ends with status 3.
func watchdog(path string) {
	for {
		time.Sleep(300 * time.Millisecond)
		if !current.on {
			continue
		}
		why := ""
		if cpuTime()-current.start > hangCPU {
			why = fmt.Sprintf("op %d: no answer after %g s of CPU time", len(current.tr.Ops)-1, hangCPU)
		} else {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > heapMax {
				runtime.GC()
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > heapMax {
					why = fmt.Sprintf("op %d: a run holds %d MB", len(current.tr.Ops)-1, m.HeapAlloc>>20)
				}
			}
		}
		if why != "" && current.on {
			t := *current.tr
			t.Ops = t.Ops[:len(t.Ops):len(t.Ops)]
			t.Violation = why
			if path != "" {
				t.write(path)
			}
			fmt.Println("WATCHDOG " + why)
			os.Exit(3)
		}
	}
}

func setupRuntime() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
}

func tidy() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > gcTarget {
		runtime.GC()
	}
}

type WorkerOut struct {
	Stats    *Stats   `json:"stats"`
	Digests  []uint64 `json:"digests"` // of non-trivial runs
	Viol     string   `json:"viol"`    // trace file
	Msg      string   `json:"msg"`
	Samples  []string `json:"samples"`
	DetCheck int      `json:"det_check"` // runs executed twice with equal digests
	DetBad   int      `json:"det_bad"`
	Idx      []int    `json:"idx"`
	Dig      []uint64 `json:"dig"` // digest by index (C16)
}

func runSeed(seed uint64, prop string, i int) uint64 { return hashU(seed, hashS(prop), uint64(i)) }

// main check counters that make a run of a property non-trivial
var mainCheck = map[string][]string{
	"C01": {"touching-pair"}, "C02": {"contact-set"}, "C03": {"touching-pair"}, "C04": {"dispatch"}, "C05": {"post-run"}, "C06": {"enumeration"},
	"C07": {"query-top", "query-nested"}, "C08": {"frozen"}, "C09": {"sleep-safety"}, "C10": {"momentum", "immovable"}, "C11": {"contact-impulse", "restitution", "friction"},
	"C12": {"joint-converged"}, "C13": {"joint-force-limit", "joint-impulse", "joint-hooks"}, "C14": {"rest"}, "C15": {"velocity-step"}, "C16": {"digest-compared"},
	"C17": {"worlds-compared"}, "C18": {"mass"}, "C19": {"stress"}, "C24": {"override-solved"}, "C25": {"settings"}, "C26": {"draw"}, "C27": {"cycles"}, "C28": {"refused"}, "C29": {"units"}, "C30": {"units"},
}

func nontrivial(prop string, before, after map[string]int) bool {
	for _, k := range mainCheck[prop] {
		if after[k] > before[k] {
			return true
		}
	}
	return false
}

func worker(prop string, seed uint64, from, stride, count int, scale, deadline float64, dir string) {
	hang := filepath.Join(dir, fmt.Sprintf("%s-w%d-hang.json", prop, from))
	go watchdog(hang)
	t0 := time.Now()
	out := &WorkerOut{Stats: NewStats()}
	for i := from; i < count; i += stride {
		if time.Since(t0).Seconds() > deadline {
			break
		}
		tidy()
		before := map[string]int{}
		for _, k := range mainCheck[prop] {
			before[k] = out.Stats.Checks[k]
		}
		tr, s := explore(prop, runSeed(seed, prop, i), scale, out.Stats)
		if s.viol != nil {
			m := minimise(tr, 25)
			p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", prop, tr.Seed))
			m.write(p)
			tr.write(p + ".full")
			out.Viol, out.Msg = p, m.Violation
			break
		}
		if nontrivial(prop, before, out.Stats.Checks) {
			out.Digests = append(out.Digests, s.dig)
		}
		out.Idx = append(out.Idx, i)
		out.Dig = append(out.Dig, s.dig)
		if len(out.Samples) < 1 && len(tr.Ops) > 5 {
			b, _ := json.Marshal(tr.Cfg)
			x := fmt.Sprintf("run %d seed %016x: %d operations, config %s, first operations", i, tr.Seed, len(tr.Ops), b)
			for k := 0; k < 6 && k < len(tr.Ops); k++ {
				x += " " + tr.Ops[k].String()
			}
			out.Samples = append(out.Samples, x)
		}
		if (i-from)/stride%40 == 0 {
			// determinism self-test: the same operations, executed again
			s2 := replay(tr, NewStats())
			out.DetCheck++
			if s2.dig != s.dig {
				out.DetBad++
				if prop == "C16" {
					tr.Violation = "op 0: executing the same operations twice gives different states"
					p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", prop, tr.Seed))
					tr.write(p)
					out.Viol, out.Msg = p, tr.Violation
					break
				}
			}
		}
	}
	out.Stats.NStates = len(out.Stats.States)
	b, _ := json.Marshal(out)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s-w%d.json", prop, from)), b, 0o644)
}

// doReplay executes a trace and reports; status 1 if it shows a violation.
func doReplay(path string, quiet bool) int {
	setupRuntime()
	tr, err := readTrace(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if tr.Cfg.Debug && !debugBuild {
		// this one needs the assertions of the library
		if self, err := os.Executable(); err == nil {
			if _, err := os.Stat(self + "-debug"); err == nil {
				c := exec.Command(self+"-debug", "replay", path)
				c.Stdout = os.Stdout
				c.Run()
				return c.ProcessState.ExitCode()
			}
		}
	}
	if tr.Cfg.Pre && !preemptBuild {
		// this one needs the yield points in the library
		if self, err := os.Executable(); err == nil {
			if _, err := os.Stat(self + "-preempt"); err == nil {
				c := exec.Command(self+"-preempt", "replay", path)
				c.Stdout = os.Stdout
				c.Run()
				return c.ProcessState.ExitCode()
			}
		}
	}
	go watchdog("")
	s := replay(tr, NewStats())
	if s.viol != nil {
		if !quiet {
			fmt.Printf("REPRODUCED property=%s %s\n", tr.Property, s.viol)
			if s.viol.Op < len(tr.Ops) && s.viol.Op >= 0 {
				fmt.Printf("  at %v\n", tr.Ops[s.viol.Op])
			}
		}
		return 1
	}
	if !quiet {
		fmt.Printf("NOT REPRODUCED property=%s\n", tr.Property)
	}
	return 0
}

type tier struct {
	runs  int
	wall  float64
	scale float64
}

var quickRuns = map[string]int{"C16": 2500, "C17": 16000, "C19": 24000, "C27": 4000, "C29": 24000, "C30": 24000}

// half of the workers of these run the library with its assertions
var debugWorkers = map[string]bool{"C05": true, "C19": true}

// half of the workers of these run the library with yield points
var preemptWorkers = map[string]bool{"C17": true}

func tierFor(prop, name string) tier {
	n := 8000
	if q := quickRuns[prop]; q > 0 {
		n = q
	}
	if name == "thorough" {
		return tier{n * 40, 700, 1.5}
	}
	return tier{n, 100, 1}
}

func check(prop string, root string) int {
	t0 := time.Now()
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		var x int64
		if _, err := fmt.Sscan(v, &x); err == nil {
			seed = uint64(x)
		} else {
			seed = hashS(v)
		}
	}
	tn := os.Getenv("VERIF_TIER")
	if tn != "thorough" {
		tn = "quick"
	}
	t := tierFor(prop, tn)
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		fmt.Sscan(v, &t.runs)
	}
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o755)
	work, err := os.MkdirTemp("", "cpsim-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	self, _ := os.Executable()
	type res struct {
		w   int
		err error
		out string
	}
	ch := make(chan res, n)
	launch := func(w int) {
		exe := self
		if debugWorkers[prop] && w%2 == 1 || prop == "C28" {
			if _, err := os.Stat(self + "-debug"); err == nil {
				exe += "-debug"
			}
		}
		if preemptWorkers[prop] && w%2 == 1 {
			if _, err := os.Stat(self + "-preempt"); err == nil {
				exe += "-preempt"
			}
		}
		c := exec.Command(exe, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w), "-stride", fmt.Sprint(n), "-count", fmt.Sprint(t.runs),
			"-scale", fmt.Sprint(t.scale), "-deadline", fmt.Sprint(t.wall-time.Since(t0).Seconds()), "-dir", work)
		b, err := c.CombinedOutput()
		ch <- res{w, err, string(b)}
	}
	for w := 0; w < n; w++ {
		go launch(w)
	}
	again := map[int]bool{}
	st := NewStats()
	digs := map[uint64]bool{}
	var samples []interface{}
	var viols []string
	det, detBad := 0, 0
	broken := ""
	byIdx := map[int]uint64{}
	for left := n; left > 0; left-- {
		r := <-ch
		wf := filepath.Join(work, fmt.Sprintf("%s-w%d.json", prop, r.w))
		_, err := os.Stat(wf)
		if r.err != nil || err != nil {
			if strings.Contains(r.out, "WATCHDOG") {
				hf := filepath.Join(work, fmt.Sprintf("%s-w%d-hang.json", prop, r.w))
				if !again[r.w] && !reproduces(self, hf) {
					// it does not hang by itself: the sandbox was paused, or the like
					again[r.w] = true
					left++
					st.Probe["watchdog-not-reproduced"]++
					go launch(r.w)
					continue
				}
				viols = append(viols, hf)
				continue
			}
			broken = fmt.Sprintf("worker %d: %v\n%s", r.w, r.err, tail(r.out, 3000))
			continue
		}
		o := readOut(wf)
		if o == nil {
			broken = "unreadable results: " + wf
			continue
		}
		st.merge(o.Stats)
		for _, d := range o.Digests {
			digs[d] = true
		}
		for i, x := range o.Idx {
			byIdx[x] = o.Dig[i]
		}
		for _, x := range o.Samples {
			samples = append(samples, x)
		}
		det += o.DetCheck
		detBad += o.DetBad
		if o.Viol != "" {
			viols = append(viols, o.Viol)
		}
	}
	// executing the same seeds in another process has to give the same
	if prop == "C16" && len(viols) == 0 && broken == "" {
		if p := crossProcess(self, prop, seed, t, n, work, byIdx, st); p != "" {
			viols = append(viols, p)
		}
	}
	wall := time.Since(t0).Seconds()
	known := loadKnown(root, prop)
	status := 0
	nviol := 0
	sort.Strings(viols)
	for _, p := range viols {
		dst := filepath.Join(dir, filepath.Base(p))
		copyFile(p, dst)
		// a fresh process has to show it too
		ok := false
		for try := 0; try < 3 && !ok; try++ {
			ok = reproduces(self, dst)
		}
		if !ok {
			if _, err := os.Stat(p + ".full"); err == nil {
				copyFile(p+".full", dst)
				for try := 0; try < 3 && !ok; try++ {
					ok = reproduces(self, dst)
				}
			}
		}
		tr, _ := readTrace(dst)
		msg := ""
		if tr != nil {
			msg = tr.Violation
		}
		if !ok {
			broken = fmt.Sprintf("a violation (%s) did not happen again when replayed: %s", msg, dst)
			continue
		}
		if k := matchKnown(known, msg); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		nviol++
		if status == 0 {
			fmt.Printf("%s\n", msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, dst)
		}
		status = 1
	}
	writeEvidence(root, prop, tn, seed, st, len(digs), samples, det, detBad, wall, nviol, t)
	fmt.Printf("%s %s: %d runs, %d steps, %.0f s simulated, %d distinct non-trivial, %d states, %.1f s\n", prop, tn, st.Runs, st.Steps, st.SimTime, len(digs), st.NStates, wall)
	if status == 0 && broken != "" {
		fmt.Println("ERROR " + broken)
		return 2
	}
	if status == 0 && st.Runs == 0 {
		fmt.Println("ERROR nothing was run")
		return 2
	}
	return status
}

func readOut(path string) *WorkerOut {
	o := &WorkerOut{}
	if b, err := os.ReadFile(path); err != nil || json.Unmarshal(b, o) != nil {
		return nil
	}
	return o
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func copyFile(a, b string) {
	if x, err := os.ReadFile(a); err == nil && a != b {
		os.WriteFile(b, x, 0o644)
	}
}

func reproduces(self, path string) bool {
	c := exec.Command(self, "replay", path)
	c.Run()
	code := c.ProcessState.ExitCode()
	return code == 1 || code == 3
}

func loadKnown(root, prop string) []string {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			r = append(r, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return r
}

// matchKnown: the line of a finding starts with the text of the violation it covers, in quotes.
func matchKnown(known []string, msg string) string {
	for _, k := range known {
		if i := strings.Index(k, "`"); i >= 0 {
			if j := strings.Index(k[i+1:], "`"); j > 0 && strings.Contains(msg, k[i+1:i+1+j]) {
				return k
			}
		}
	}
	return ""
}

// builds says which workers run another build than the one that ships.
func builds(prop string) string {
	self, _ := os.Executable()
	if prop == "C28" {
		return "; with its assertions (-tags debug)"
	}
	if debugWorkers[prop] {
		return "; half of the workers run it with its assertions (-tags debug)"
	}
	if preemptWorkers[prop] {
		if _, err := os.Stat(self + "-preempt"); err == nil {
			return "; half of the workers run copies of its files with a yield point before every statement"
		}
		return "; without preemption, as the package could not be made preemptible"
	}
	return ""
}

func writeEvidence(root, prop, tn string, seed uint64, st *Stats, distinct int, samples []interface{}, det, detBad int, wall float64, nviol int, t tier) {
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if len(samples) > 3 {
		samples = samples[:3]
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed run")
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tn, "seed": int64(seed & (1<<62 - 1)), "level": "exploration", "wall_s": wall, "violations": nviol,
		"coverage": map[string]interface{}{
			"evaluations": st.Runs, "distinct_nontrivial": distinct,
			"rule":                    "one evaluation is one simulated run: a world and a history of operations, faults and callback decisions drawn from hash(VERIF_SEED, property, index); non-trivial if the property's main check (" + strings.Join(mainCheck[prop], ", ") + ") was applied at least once in it; distinct by the digest of all body states and callback sequences",
			"samples":                 samples,
			"operations":              st.Ops,
			"steps":                   st.Steps,
			"simulated_seconds":       st.SimTime,
			"runs_per_hour":           float64(st.Runs) / wall * 3600,
			"steps_per_hour":          float64(st.Steps) / wall * 3600,
			"faults_injected":         st.Faults,
			"checks_applied":          st.Checks,
			"situations_reached":      st.Probe,
			"largest_errors_measured": st.MaxErr,
			"distinct_states":         st.NStates,
			"distinct_states_measure": "hashes of the set of touching pairs with their shape kinds, lifecycle state, acceptance and sleep state, and of the bodies' types, sleep states, shape and constraint counts, per step (summed over workers)",
			"determinism_selftest":    map[string]int{"runs_executed_twice": det, "different": detBad},
			"real_components":         "the whole package github.com/jakecoffman/cp/v2 built from /repo's working tree" + builds(prop),
			"stubs":                   "none; the caller (game code and callbacks) is simulated, time is the dt passed to Step, garbage collection is run by the simulator",
			"planned_runs":            t.runs,
		},
		"assumptions": []string{"the Go compiler and runtime are right", "floating-point tolerances as listed in DESIGN.md"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: cpsim check|worker|replay|one ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("cpsim", flag.ExitOnError)
	prop := fs.String("prop", "C01", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	count := fs.Int("count", 100, "")
	scale := fs.Float64("scale", 1, "")
	deadline := fs.Float64("deadline", 60, "")
	dir := fs.String("dir", ".", "")
	variant := fs.Int("variant", 0, "")
	root := fs.String("root", ".", "")
	switch os.Args[1] {
	case "worker":
		fs.Parse(os.Args[2:])
		setupRuntime()
		switch *variant {
		case 1:
			// another heap: many collections, several threads
			runtime.GOMAXPROCS(4)
			debug.SetGCPercent(20)
		case 2:
			for i := 0; i < 50; i++ {
				faultGarbage(uint64(i))
			}
		}
		worker(*prop, *seed, *from, *stride, *count, *scale, *deadline, *dir)
	case "check":
		fs.Parse(os.Args[2:])
		os.Exit(check(*prop, *root))
	case "replay":
		os.Exit(doReplay(os.Args[2], false))
	case "min":
		setupRuntime()
		tr, err := readTrace(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		minimise(tr, 60).write(os.Args[3])
	default:
		os.Exit(2)
	}
}
