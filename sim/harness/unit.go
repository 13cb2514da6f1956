package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	"verifsim/simrt"
)

// A job is what one fresh process executes.
type job struct {
	Case   *Case `json:"case"`
	Solo   int   `json:"solo,omitempty"`  // run only this operation
	NoObs  bool  `json:"noObs,omitempty"` // without logging and metrics
	Want   bool  `json:"want,omitempty"`  // return the schedule
	Trace  bool  `json:"trace,omitempty"`
	Race   bool  `json:"race,omitempty"`
	NSites int   `json:"nsites,omitempty"`
}

// report is what it answers.
type report struct {
	Viol     []Violation      `json:"viol,omitempty"`
	Rel      int              `json:"rel"`
	Keys     map[int]uint64   `json:"keys,omitempty"`
	KeysC    map[int]uint64   `json:"keysc,omitempty"` // counters included
	Brief    map[int]string   `json:"brief,omitempty"`
	Stats    stats            `json:"stats"`
	Hash     uint64           `json:"hash"`
	Result   uint64           `json:"result"` // everything observable
	Switches [][]simrt.Switch `json:"switches,omitempty"`
	Trace    []string         `json:"trace,omitempty"`
	Outcomes map[int]*Outcome `json:"outcomes,omitempty"`
	Extra    map[string]any   `json:"extra,omitempty"`
	Err      string           `json:"err,omitempty"`
}

// soloCase is the operation alone on a fresh server.
func soloCase(c *Case, id int) *Case {
	d := *c
	for _, ph := range c.Phases {
		for _, t := range ph.Tasks {
			for _, op := range t.Ops {
				if op.ID == id {
					d.Phases = []Phase{{Tasks: []TaskSpec{{Ops: []Op{op}}}, Sched: simrt.Config{Mode: "none"}}}
					return &d
				}
			}
		}
	}
	return nil
}

// quiet removes logging and metrics.
func quiet(c *Case) *Case {
	d := *c
	d.Negs = append([]NegSpec(nil), c.Negs...)
	for i := range d.Negs {
		d.Negs[i].Scope, d.Negs[i].Log = false, ""
	}
	d.Phases = append([]Phase(nil), c.Phases...)
	for i := range d.Phases {
		d.Phases[i].Tasks = append([]TaskSpec(nil), d.Phases[i].Tasks...)
		for j := range d.Phases[i].Tasks {
			t := &d.Phases[i].Tasks[j]
			t.Ops = append([]Op(nil), t.Ops...)
			for k := range t.Ops {
				var fs []Fault
				for _, f := range t.Ops[k].Faults {
					if f.At == "log" || f.At == "scope" {
						f.At = "nowhere" // the others keep their numbers
					}
					fs = append(fs, f)
				}
				t.Ops[k].Faults = fs
			}
		}
	}
	return &d
}

func runJob(j *job) *report {
	c := j.Case
	only := all
	var need map[int]bool
	slice := 0
	if j.NoObs {
		c = quiet(c)
	}
	if j.Solo != 0 {
		if c = soloCase(c, j.Solo); c == nil {
			return &report{Err: "no such operation"}
		}
		only = -1
		fs := append([]Fault(nil), c.Phases[0].Tasks[0].Ops[0].Faults...)
		for i := range fs {
			if fs[i].Kind == "nest" { // what callbacks do makes no difference
				fs[i].At = "nowhere"
			}
		}
		c.Phases[0].Tasks[0].Ops[0].Faults = fs
		op := c.Phases[0].Tasks[0].Ops[0]
		need, slice = map[int]bool{op.Rep: true}, op.Slice
		switch op.Kind {
		case "neg", "flood":
			only = op.Neg
			fallthrough
		case "choose", "list":
			need = map[int]bool{}
			for _, i := range c.Slices[op.Slice].Reps {
				need[i] = true
			}
		}
	}
	tracing = j.Trace
	simrt.SetSites(j.NSites)
	coderMaps0 = sharedMaps().String()
	w := newWorld(c, only, need, slice)
	w.snap = c.Prop == "C05" && !j.Race
	w.race = j.Race
	for i := range c.Phases {
		w.runPhase(&c.Phases[i], j.NSites)
	}
	w.finish()
	r := &report{Stats: w.stats, Hash: w.hash}
	if j.Race {
		r.Rel = len(w.ops) // the race detector judges
	} else {
		r.Viol, r.Rel = w.judge(c.Prop)
	}
	r.Keys, r.KeysC = map[int]uint64{}, map[int]uint64{}
	r.Brief = map[int]string{}
	res := w.hash
	for _, o := range w.ops {
		if j.Race && !o.out.Done {
			continue // its memory was never handed over
		}
		k := hashOf(o.out.key(true))
		res = mix64(res^k, uint64(o.beginStep)<<20^uint64(o.endStep))
		for i, n := range o.fired {
			res = mix64(res, uint64(i)<<32|uint64(n))
		}
		if !o.out.Done || o.op.Kind == "flood" || o.op.Kind == "build" {
			continue
		}
		r.Keys[o.op.ID] = hashOf(o.out.key(false))
		r.KeysC[o.op.ID] = k
		b := o.out.brief()
		if len(b) > 1200 {
			b = b[:1200] + "..."
		}
		r.Brief[o.op.ID] = b
	}
	r.Result = mix64(res, uint64(w.stats.Steps))
	if j.Want || j.Trace {
		r.Switches = w.sws
	}
	if j.Trace {
		r.Trace = w.trace()
		r.Outcomes = map[int]*Outcome{}
		for _, o := range w.ops {
			x := o.out
			r.Outcomes[o.op.ID] = &x
		}
	}
	return r
}

func (w *world) trace() []string {
	type line struct {
		ph   int
		step int64
		n    int
		s    string
	}
	var ls []line
	for _, c := range w.ops {
		for i, e := range c.events {
			ls = append(ls, line{c.phase, e.step, i, fmt.Sprintf("phase %d step %6d op %d: %s", c.phase, e.step, c.op.ID, e.text)})
		}
	}
	sort.SliceStable(ls, func(a, b int) bool {
		if ls[a].ph != ls[b].ph {
			return ls[a].ph < ls[b].ph
		}
		return ls[a].step < ls[b].step
	})
	var out []string
	for _, l := range ls {
		out = append(out, l.s)
		if len(out) >= 3000 {
			break
		}
	}
	return out
}

// unitMain runs one job from stdin in this process.
func unitMain() {
	runtime.GOMAXPROCS(1)
	time.Local = time.UTC // and no reading of /etc/localtime in the middle of a run
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	b, err := io.ReadAll(os.Stdin)
	var j job
	if err == nil {
		err = json.Unmarshal(b, &j)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := runJob(&j)
	out, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Stdout.Write(out)
	os.Exit(0)
}
