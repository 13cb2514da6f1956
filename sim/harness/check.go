package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/simrt"
)

type driver struct {
	prop   string
	seed   uint64
	self   string
	nsites int
	race   bool
	procs  atomic.Int64
	verif  string
	level  string
}

const unitTimeout = 60 * time.Second

// exec runs a job in a fresh process.
func (d *driver) exec(j *job) (*report, string, error) {
	j.NSites, j.Race = d.nsites, d.race
	in, _ := json.Marshal(j)
	d.procs.Add(1)
	cmd := exec.Command(d.self, "unit")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=off", "GORACE=atexit_sleep_ms=0 halt_on_error=0 history_size=5 exitcode=0")
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(unitTimeout):
		cmd.Process.Kill()
		<-done
		return nil, errb.String(), errTimeout
	}
	if err != nil {
		return nil, errb.String(), fmt.Errorf("%v: %s", err, tail(errb.String(), 1500))
	}
	var r report
	if err := json.Unmarshal(out.Bytes(), &r); err != nil {
		return nil, errb.String(), fmt.Errorf("bad answer: %v: %s", err, tail(errb.String(), 1500))
	}
	if r.Err != "" {
		return nil, "", fmt.Errorf("%s", r.Err)
	}
	return &r, errb.String(), nil
}

var errTimeout = fmt.Errorf("the process did not end in %v", unitTimeout)

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// template identifies operations that must have the same outcome.
func template(op Op) uint64 {
	op.ID = 0
	op.Scrib = false
	return hashOf(op)
}

// fatal violations: the process died or never ended.
func crashed(prop string, err error, stderr string) []Violation {
	kind := ""
	switch {
	case err == errTimeout:
		kind = "process never ended"
		if prop != "C12" && prop != "C15" && prop != "C17" {
			return nil
		}
	case strings.Contains(stderr, "fatal error: concurrent map"):
		kind = "concurrent map access"
		switch prop {
		case "C01", "C02", "C03", "C04", "C20", "C12", "C13", "C17":
		default:
			return nil
		}
	case strings.Contains(stderr, "out of memory"), strings.Contains(stderr, "cannot allocate"):
		return nil
	case (strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "fatal error: ")) && strings.Contains(firstStack(stderr), "github.com/freerware/negotiator"):
		kind = "process died"
	default:
		return nil
	}
	return []Violation{{prop, kind, 0, kind + ": " + tail(stderr, 1500)}}
}

// firstStack is the stack of the goroutine a process died in.
func firstStack(s string) string {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	s = s[i+1:]
	if j := strings.Index(s, "\n\n"); j >= 0 {
		s = s[:j]
	}
	return s
}

// verdict executes a case and everything it is compared with.
func (d *driver) verdict(c *Case, want bool) (*report, []Violation, error) {
	r, stderr, err := d.exec(&job{Case: c, Want: want})
	if err != nil {
		if vs := crashed(d.prop, err, stderr); vs != nil {
			return &report{}, vs, nil
		}
		return nil, nil, err
	}
	vs := r.Viol
	if d.race {
		vs = append(vs, races(stderr)...)
		return r, vs, nil
	}
	switch {
	case d.prop == "C18":
		v, err := d.unordered(c, r)
		if err != nil {
			return nil, nil, err
		}
		vs = append(vs, v...)
	case isIso(d.prop):
		v, err := d.solos(c, r)
		if err != nil {
			return nil, nil, err
		}
		vs = append(vs, v...)
	}
	return r, vs, nil
}

func isIso(p string) bool { _, ok := isoProps[p]; return ok }

// solos compares every operation with the same one alone in a fresh process.
func (d *driver) solos(c *Case, r *report) ([]Violation, error) {
	ref := map[uint64]*report{}
	first := map[uint64]int{}
	var vs []Violation
	for pi, ph := range c.Phases {
		for _, t := range ph.Tasks {
			for _, op := range t.Ops {
				if _, ok := r.Keys[op.ID]; !ok {
					continue
				}
				if d.prop == "C12" && !ph.Probe {
					continue
				}
				k := template(op)
				s := ref[k]
				if s == nil {
					var err error
					var stderr string
					s, stderr, err = d.exec(&job{Case: c, Solo: op.ID, NoObs: d.prop == "C11"})
					if err != nil {
						if v := crashed(d.prop, err, stderr); v != nil {
							return v, nil
						}
						return nil, err
					}
					ref[k], first[k] = s, op.ID
				}
				got, want := r.Keys[op.ID], s.Keys[first[k]]
				if d.prop == "C20" {
					got, want = r.KeysC[op.ID], s.KeysC[first[k]]
				}
				if got != want {
					kind, what := "differs from solo", "alone on a fresh server"
					if d.prop == "C11" {
						kind, what = "observability changed it", "without logging and metrics, alone on a fresh server"
					}
					vs = append(vs, Violation{d.prop, kind, op.ID, fmt.Sprintf("phase %d: %s of negotiator %d, request %d, slice %d: here %s; %s: %s", pi, op.Kind, op.Neg, op.Req, op.Slice, r.Brief[op.ID], what, orNone(s.Brief[first[k]]))})
				}
			}
		}
	}
	return vs, nil
}

func orNone(s string) string {
	if s == "" {
		return "it does not end"
	}
	return s
}

// unordered runs the sequence again with other iteration orders.
func (d *driver) unordered(c *Case, r *report) ([]Violation, error) {
	var vs []Violation
	ops := map[int]Op{}
	same := map[uint64]int{}
	for _, op := range c.Phases[0].Tasks[0].Ops {
		ops[op.ID] = op
		op.Salt = 0
		k := template(op)
		if _, ok := r.KeysC[op.ID]; !ok {
			continue
		}
		if f, ok := same[k]; ok {
			if r.KeysC[f] != r.KeysC[op.ID] {
				vs = append(vs, Violation{d.prop, "differs when repeated", op.ID, fmt.Sprintf("%s of negotiator %d, request %d, slice %d: first %s; again %s", op.Kind, op.Neg, op.Req, op.Slice, r.Brief[f], r.Brief[op.ID])})
			}
		} else {
			same[k] = op.ID
		}
	}
	for i := uint64(1); i <= 3; i++ {
		e := *c
		e.MapSeed = mix64(c.MapSeed, i)
		// goroutines of the library, if it has any, run in other orders too
		e.Phases = append([]Phase(nil), c.Phases...)
		for j := range e.Phases {
			e.Phases[j].Sched = simrt.Config{Mode: "geo", Seed: mix64(e.MapSeed, uint64(j)), Mean: 30}
		}
		s, stderr, err := d.exec(&job{Case: &e})
		if err != nil {
			if v := crashed(d.prop, err, stderr); v != nil {
				return v, nil
			}
			return nil, err
		}
		for id, k := range r.KeysC {
			if s.KeysC[id] != k {
				op := ops[id]
				vs = append(vs, Violation{d.prop, "depends on iteration order", id, fmt.Sprintf("%s of negotiator %d, request %d, slice %d: with map seed %d %s; with map seed %d %s", op.Kind, op.Neg, op.Req, op.Slice, c.MapSeed, r.Brief[id], e.MapSeed, s.Brief[id])})
			}
		}
	}
	sort.Slice(vs, func(a, b int) bool { return vs[a].Op < vs[b].Op })
	return vs, nil
}

// races reads the race detector's reports.
func races(stderr string) []Violation {
	var vs []Violation
	for _, blk := range strings.Split(stderr, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		// the first frame of each access that is the library's or the harness's
		var sides []string
		cur := ""
		in := false
		var where []string
		for _, l := range strings.Split(blk, "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous read at"), strings.HasPrefix(t, "Previous write at"), strings.HasPrefix(t, "Atomic"), strings.HasPrefix(t, "Previous atomic"):
				in, cur = true, strings.Split(t, " at")[0]
			case strings.HasPrefix(t, "Goroutine"), t == "":
				in = in && t == "" && cur != "" && false
			case in && cur != "":
				if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") {
					fn := t
					if strings.Contains(fn, "verifsim/simrt") || strings.Contains(fn, "verifsim/simsync") {
						continue
					}
					if strings.HasPrefix(fn, "github.com/freerware/negotiator") {
						sides = append(sides, "lib")
						where = append(where, cur+" in "+fn)
						in = false
					} else if strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "verifsim/") {
						sides = append(sides, "harness")
						where = append(where, cur+" in "+fn)
						in = false
					}
				}
			}
		}
		lib := false
		for _, s := range sides {
			lib = lib || s == "lib"
		}
		if lib {
			vs = append(vs, Violation{"C04", "data race", 0, strings.Join(where, "; ") + "\n" + tail(blk, 2500)})
		}
	}
	return vs
}

// ---- the search ----

type totals struct {
	Units, Nontrivial, Rel  int
	Ops, Overlapping        int
	SimNs                   int64
	Steps, Switches         int64
	Faults, Outcomes, Modes map[string]int
	Hashes                  map[uint64]bool
	Distinct                map[uint64]bool
	Samples                 []any
	Ext, MapN               int64
	Rechecked, Nondet       int
	NondetSeeds             []int
	Timeouts                int
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	budget := fs.Duration("budget", 30*time.Second, "time to search")
	minUnits := fs.Int("min", 60, "units to run whatever the time")
	maxUnits := fs.Int("max", 1<<30, "units to run at most")
	from := fs.Int("from", 0, "first unit")
	sites := fs.String("sites", "", "sites.json")
	verif := fs.String("verif", "/verif", "directory of the framework")
	race := fs.Bool("race", false, "race build")
	tier := fs.String("tier", "quick", "tier")
	level := fs.String("level", "", "overlay level")
	workers := fs.Int("workers", 8, "processes at a time")
	keep := fs.Bool("keep", false, "go on after a violation and list them all")
	fs.Parse(args)
	start := time.Now()
	self, _ := os.Executable()
	d := &driver{prop: *prop, seed: *seed, self: self, race: *race, verif: *verif, level: *level}
	d.nsites = countSites(*sites)
	t := &totals{Faults: map[string]int{}, Outcomes: map[string]int{}, Modes: map[string]int{}, Hashes: map[uint64]bool{}, Distinct: map[uint64]bool{}}
	var mu sync.Mutex
	var next atomic.Int64
	next.Store(int64(*from))
	var stop atomic.Bool
	type hit struct {
		unit int
		c    *Case
		vs   []Violation
	}
	var found []hit
	var errs []string
	var wg sync.WaitGroup
	nw := *workers
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				u := int(next.Add(1)) - 1
				if stop.Load() || u >= *from+*maxUnits || (u >= *from+*minUnits && time.Since(start) > *budget) {
					return
				}
				c := genCase(d.prop, d.seed, u, *tier == "thorough")
				recheck := u%25 == 3 && !d.race
				r, vs, err := d.verdict(c, false)
				var again *report
				if err == nil && recheck && len(vs) == 0 {
					again, _, _ = d.exec(&job{Case: c})
				}
				mu.Lock()
				switch {
				case err == errTimeout:
					t.Timeouts++
				case err != nil:
					errs = append(errs, fmt.Sprintf("unit %d: %v", u, err))
					if len(errs) > 20 {
						stop.Store(true)
					}
				default:
					t.add(c, r)
					if again != nil {
						t.Rechecked++
						if again.Result != r.Result {
							t.Nondet++
							t.NondetSeeds = append(t.NondetSeeds, u)
						}
					}
					if len(vs) > 0 {
						found = append(found, hit{u, c, vs})
						if !*keep {
							stop.Store(true)
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searched := time.Since(start)
	code := 0
	nviol := 0
	if len(found) > 0 {
		sort.Slice(found, func(a, b int) bool { return found[a].unit < found[b].unit })
		if *keep {
			kinds := map[string]int{}
			for _, f := range found {
				for _, v := range f.vs {
					kinds[v.Kind]++
				}
				fmt.Printf("unit %d: %s: %s\n", f.unit, f.vs[0].Kind, tail(f.vs[0].Msg, 900))
			}
			fmt.Println(kinds)
		}
		f := found[0]
		path := d.report(f.unit, f.c, f.vs, 75*time.Second)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
		code, nviol = 1, len(found)
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		if code == 0 {
			code = 2
		}
	}
	if t.Timeouts > 3 && code == 0 {
		fmt.Fprintf(os.Stderr, "error: %d units did not end\n", t.Timeouts)
		code = 2
	}
	if t.Nondet > 0 {
		fmt.Printf("warning: %d of %d re-executed units were not identical: %v\n", t.Nondet, t.Rechecked, t.NondetSeeds)
	}
	if err := d.evidence(t, *tier, searched, time.Since(start), nviol); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s: %d units (%d non-trivial, %d distinct schedules), %d operations, %d processes in %.1fs; %d violations\n", d.prop, t.Units, t.Nontrivial, len(t.Hashes), t.Ops, d.procs.Load(), time.Since(start).Seconds(), nviol)
	return code
}

func countSites(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0
	}
	var v []any
	if json.Unmarshal(b, &v) == nil {
		return len(v)
	}
	var m map[string]any
	if json.Unmarshal(b, &m) == nil {
		if s, ok := m["sites"].([]any); ok {
			return len(s)
		}
		return len(m)
	}
	return 0
}

func merge(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (t *totals) add(c *Case, r *report) {
	t.Units++
	s := &r.Stats
	t.Ops += s.Ops
	t.Overlapping += s.Switched
	t.SimNs += s.SimNs
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.Ext += s.Ext
	t.MapN += s.MapN
	t.Rel += r.Rel
	merge(t.Faults, s.Faults)
	merge(t.Outcomes, s.Outcomes)
	merge(t.Modes, s.Modes)
	t.Hashes[r.Hash] = true
	fired := 0
	for _, n := range s.Faults {
		fired += n
	}
	if r.Rel > 0 && (fired > 0 || s.Switched > 0 || c.Prop == "C18") && !t.Distinct[r.Result] {
		t.Distinct[r.Result] = true
		t.Nontrivial++
		if len(t.Samples) < 3 {
			t.Samples = append(t.Samples, sampleOf(c, r))
		}
	}
}

func sampleOf(c *Case, r *report) any {
	var ops []string
	for pi, ph := range c.Phases {
		for ti, tk := range ph.Tasks {
			for _, op := range tk.Ops {
				f, _ := json.Marshal(op.Faults)
				s := fmt.Sprintf("phase %d task %d op %d: %s neg=%d slice=%v req=%d faults=%s", pi, ti, op.ID, op.Kind, op.Neg, c.Slices[op.Slice].Reps, op.Req, f)
				if b := r.Brief[op.ID]; b != "" {
					s += " -> " + tail(b, 160)
				}
				if len(ops) < 12 {
					ops = append(ops, s)
				}
			}
		}
	}
	var sch []string
	for _, ph := range c.Phases {
		sch = append(sch, fmt.Sprintf("%s mean=%d seamp=%d depth=%d focus=%d", ph.Sched.Mode, ph.Sched.Mean, ph.Sched.SeamP, ph.Sched.Depth, ph.Sched.Focus))
	}
	return map[string]any{"seed": c.Seed, "unit": c.Unit, "schedulers": sch, "switches": r.Stats.Switches, "steps": r.Stats.Steps, "operations": ops, "faults": r.Stats.Faults}
}

var ruleText = map[string]string{}

func (d *driver) evidence(t *totals, tier string, searched, wall time.Duration, nviol int) error {
	hours := searched.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	cov := map[string]any{
		"evaluations":                           t.Units,
		"distinct_nontrivial":                   t.Nontrivial,
		"rule":                                  "One evaluation is one seeded execution of the library in a fresh process: a generated world (representations, negotiators, requests), concurrent operations, a fault plan and a schedule, all a function of (property, VERIF_SEED, unit). Non-trivial: at least one operation put this property at stake and a fault fired or two operations overlapped (for C18: the iteration orders differ); distinct by the hash of the whole execution (schedule, step numbers, fired faults, outcomes).",
		"samples":                               t.Samples,
		"operations":                            t.Ops,
		"operations_with_the_property_at_stake": t.Rel,
		"overlapping_operations":                t.Overlapping,
		"processes":                             d.procs.Load(),
		"runs_per_hour":                         int(float64(t.Units) / hours),
		"seeds_per_hour":                        int(float64(t.Units) / hours),
		"simulated_seconds":                     float64(t.SimNs) / 1e9,
		"statements_scheduled":                  t.Steps,
		"context_switches":                      t.Switches,
		"distinct_interleavings":                len(t.Hashes),
		"distinct_interleavings_measure":        "hash over (task, statement, next task) of every context switch of a run, and every choice of a map iteration order",
		"faults_fired":                          t.Faults,
		"outcomes":                              t.Outcomes,
		"scheduler_modes":                       t.Modes,
		"sites":                                 d.nsites,
		"overlay_level":                         d.level,
		"reexecuted_for_determinism":            t.Rechecked,
		"reexecutions_that_differed":            t.Nondet,
		"blocked_outside_the_simulator":         t.Ext,
		"map_orders_chosen":                     t.MapN,
		"unit_timeouts":                         t.Timeouts,
		"race_detector":                         d.race,
		"real_components":                       []string{"every package of /repo's working tree (negotiators, choosers, header parsing, representations, lists, codings), with a yield before every statement", "compress/*, encoding/*, golang.org/x/text, zap, tally stopwatch"},
		"stub_components":                       []string{"http.ResponseWriter (client connection)", "representation content source", "tally.Scope back end", "zapcore.Core back end", "wrappers around list constructors, selection algorithms, content coders and (un)marshallers that inject faults and delegate to the real ones", "clock, scheduler, map iteration order"},
	}
	ev := map[string]any{
		"property": d.prop, "tier": tier, "seed": d.seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": []string{"the standard library and dependencies behave as documented", "interleaving granularity is one Go statement of the library (finer ones only through the race detector, C04)"},
	}
	dir := filepath.Join(d.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, d.prop+".json"), append(b, '\n'), 0o644)
}

// ---- replays ----

type replay struct {
	Property  string      `json:"property"`
	Seed      uint64      `json:"seed"`
	Unit      int         `json:"unit"`
	Race      bool        `json:"race,omitempty"`
	Violation []Violation `json:"violations"`
	Minimised string      `json:"minimised"`
	Case      *Case       `json:"case"`
	Trace     []string    `json:"trace,omitempty"`
}

func (d *driver) report(unit int, c *Case, vs []Violation, budget time.Duration) string {
	m, mvs, note := d.minimise(c, vs, budget)
	r := replay{Property: d.prop, Seed: d.seed, Unit: unit, Race: d.race, Violation: mvs, Minimised: note, Case: m}
	if x, _, err := d.exec(&job{Case: m, Trace: true}); err == nil {
		r.Trace = x.Trace
	}
	dir := filepath.Join(d.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", d.prop, d.seed, unit))
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	fmt.Printf("%s: unit %d of seed %d: %s: %s\n", d.prop, unit, d.seed, mvs[0].Kind, tail(mvs[0].Msg, 2500))
	fmt.Println(note)
	return p
}

func (d *driver) fails(c *Case) (*report, []Violation, bool) {
	r, vs, err := d.verdict(c, true)
	if err != nil || len(vs) == 0 {
		return nil, nil, false
	}
	return r, vs, true
}

func cloneCase(c *Case) *Case {
	b, _ := json.Marshal(c)
	var d Case
	json.Unmarshal(b, &d)
	return &d
}

func countCase(c *Case) (ops, faults, sw int) {
	for _, ph := range c.Phases {
		sw += len(ph.Sched.Switches)
		for _, t := range ph.Tasks {
			ops += len(t.Ops)
			for _, o := range t.Ops {
				faults += len(o.Faults)
			}
		}
	}
	return
}

// minimise makes the case smaller while it keeps violating the property.
func (d *driver) minimise(c *Case, vs []Violation, budget time.Duration) (*Case, []Violation, string) {
	deadline := time.Now().Add(budget)
	best, bvs := cloneCase(c), vs
	evals := 0
	try := func(x *Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		evals++
		r, v, ok := d.fails(x)
		if !ok {
			return false
		}
		_ = r
		best, bvs = x, v
		return true
	}
	ops0, f0, _ := countCase(c)
	// the schedule of the failing run, made explicit
	if r, v, ok := d.fails(best); ok {
		bvs = v
		if len(r.Switches) == len(best.Phases) {
			x := cloneCase(best)
			for i := range x.Phases {
				x.Phases[i].Sched = simrt.Config{Mode: "replay", Switches: r.Switches[i], Seed: best.Phases[i].Sched.Seed}
			}
			try(x)
		}
	} else {
		return best, bvs, "not minimised: the violation did not repeat when the unit was executed again"
	}
	_, _, sw0 := countCase(best)
	for round := 0; round < 6; round++ {
		before := hashOf(best)
		// phases
		for i := len(best.Phases) - 1; i >= 0 && len(best.Phases) > 1; i-- {
			x := cloneCase(best)
			x.Phases = append(x.Phases[:i], x.Phases[i+1:]...)
			try(x)
		}
		// tasks
		for i := range best.Phases {
			for j := len(best.Phases[i].Tasks) - 1; j >= 0 && j < len(best.Phases[i].Tasks) && len(best.Phases[i].Tasks) > 1; j-- {
				x := cloneCase(best)
				dropTask(&x.Phases[i], j)
				try(x)
			}
		}
		// operations
		for i := range best.Phases {
			for j := range best.Phases[i].Tasks {
				for k := len(best.Phases[i].Tasks[j].Ops) - 1; k >= 0 && len(best.Phases[i].Tasks[j].Ops) > 1; k-- {
					x := cloneCase(best)
					o := x.Phases[i].Tasks[j].Ops
					x.Phases[i].Tasks[j].Ops = append(o[:k], o[k+1:]...)
					try(x)
				}
			}
		}
		// faults, delays
		for i := range best.Phases {
			for j := range best.Phases[i].Tasks {
				if best.Phases[i].Tasks[j].Delay > 0 {
					x := cloneCase(best)
					x.Phases[i].Tasks[j].Delay = 0
					try(x)
				}
				for k := range best.Phases[i].Tasks[j].Ops {
					for f := len(best.Phases[i].Tasks[j].Ops[k].Faults) - 1; f >= 0; f-- {
						x := cloneCase(best)
						o := &x.Phases[i].Tasks[j].Ops[k]
						o.Faults = append(o.Faults[:f], o.Faults[f+1:]...)
						try(x)
					}
				}
			}
		}
		// switches
		for i := range best.Phases {
			for n := max(1, len(best.Phases[i].Sched.Switches)/2); n >= 1; n /= 2 {
				for at := 0; at < len(best.Phases[i].Sched.Switches); {
					s := best.Phases[i].Sched.Switches
					x := cloneCase(best)
					x.Phases[i].Sched.Switches = append(append([]simrt.Switch(nil), s[:at]...), s[min(len(s), at+n):]...)
					if !try(x) {
						at += n
					}
					if time.Now().After(deadline) {
						break
					}
				}
				if time.Now().After(deadline) {
					break
				}
			}
		}
		// elements of the slices, header lines
		for i := range best.Slices {
			for j := len(best.Slices[i].Reps) - 1; j >= 0 && j < len(best.Slices[i].Reps); j-- {
				x := cloneCase(best)
				x.Slices[i].Reps = append(x.Slices[i].Reps[:j], x.Slices[i].Reps[j+1:]...)
				try(x)
			}
		}
		for i := range best.Reqs {
			var ks []string
			for k := range best.Reqs[i].Header {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				x := cloneCase(best)
				delete(x.Reqs[i].Header, k)
				if try(x) {
					continue
				}
				for l := len(best.Reqs[i].Header[k]) - 1; l >= 0 && len(best.Reqs[i].Header[k]) > 1; l-- {
					x := cloneCase(best)
					v := x.Reqs[i].Header[k]
					x.Reqs[i].Header[k] = append(v[:l], v[l+1:]...)
					try(x)
				}
			}
		}
		if hashOf(best) == before || time.Now().After(deadline) {
			break
		}
	}
	o1, f1, s1 := countCase(best)
	return best, bvs, fmt.Sprintf("minimised with %d executions: %d of %d operations, %d of %d faults, %d of %d context switches remain", evals, o1, ops0, f1, f0, s1, sw0)
}

func dropTask(ph *Phase, j int) {
	ph.Tasks = append(ph.Tasks[:j], ph.Tasks[j+1:]...)
	var out []simrt.Switch
	for _, s := range ph.Sched.Switches {
		if int(s.T) == j || int(s.To) == j {
			continue
		}
		if int(s.T) > j {
			s.T--
		}
		if int(s.To) > j {
			s.To--
		}
		out = append(out, s)
	}
	ph.Sched.Switches = out
}

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	sites := fs.String("sites", "", "sites.json")
	n := fs.Int("n", 2, "times")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	d := &driver{prop: r.Property, seed: r.Seed, self: self, race: r.Race, nsites: countSites(*sites)}
	code := 0
	var last uint64
	for i := 0; i < *n; i++ {
		rep, vs, err := d.verdict(r.Case, false)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("execution %d: result hash %016x, %d violations\n", i+1, rep.Result, len(vs))
		if i > 0 && rep.Result != last {
			fmt.Println("the executions differ")
		}
		last = rep.Result
		for _, v := range vs {
			fmt.Printf("  %s %s (operation %d): %s\n", v.Prop, v.Kind, v.Op, tail(v.Msg, 1500))
			code = 1
		}
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
	}
	return code
}

func genMain(args []string) int {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "C01", "")
	seed := fs.Uint64("seed", 1, "")
	unit := fs.Int("unit", 0, "")
	fs.Parse(args)
	b, _ := json.MarshalIndent(genCase(*prop, *seed, *unit, false), "", " ")
	fmt.Println(string(b))
	return 0
}
