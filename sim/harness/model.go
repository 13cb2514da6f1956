package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"time"

	"verifsim/simrt"
)

// A Case is one complete simulated execution: the world, the workload, the
// faults and the schedule.  It is what a replay file holds.
type Case struct {
	Prop    string    `json:"prop"`
	Seed    uint64    `json:"seed"`
	Unit    int       `json:"unit"`
	MapSeed uint64    `json:"mapSeed"`
	Reps    []RepSpec `json:"reps"`
	Slices  []Slice   `json:"slices"`
	Negs    []NegSpec `json:"negs"`
	Reqs    []ReqSpec `json:"reqs"`
	Phases  []Phase   `json:"phases"`
}

// RepSpec is a representation shared by all requests.
type RepSpec struct {
	Kind     string   `json:"kind"` // doc: a real representation; raw: a stub with arbitrary metadata
	Type     string   `json:"type"`
	Charset  string   `json:"charset,omitempty"`
	Lang     string   `json:"lang,omitempty"`
	Enc      []string `json:"enc,omitempty"`
	Loc      string   `json:"loc,omitempty"`
	Features []string `json:"features,omitempty"`
	SQ       float32  `json:"sq"`
	Size     int      `json:"size"`
	Coders   bool     `json:"coders,omitempty"` // content coders of the harness
	Few      bool     `json:"few,omitempty"`    // with Coders: in maps of its own, with only what it needs
	Val      bool     `json:"val,omitempty"`    // of a type that cannot be compared
	Nil      bool     `json:"nilEnc,omitempty"`
}

// Slice is a caller-owned slice of representations, with spare capacity.
type Slice struct {
	Reps  []int `json:"reps"`
	Spare int   `json:"spare,omitempty"`
}

// NegSpec is a negotiator and its options.
type NegSpec struct {
	Type    string   `json:"type"` // proactive, reactive, transparent
	Default bool     `json:"default,omitempty"`
	Opts    []string `json:"opts,omitempty"`
	Chooser string   `json:"chooser,omitempty"` // "", real, first, last, nil
	Lists   []string `json:"lists"`             // nil: the option is not used
	DefList string   `json:"defList,omitempty"`
	MaxVar  int      `json:"maxVar,omitempty"`
	Guess   int      `json:"guess,omitempty"`
	HasG    bool     `json:"hasGuess,omitempty"`
	Scope   bool     `json:"scope,omitempty"`
	Log     string   `json:"log,omitempty"`  // "", debug, info, error, dev
	Hook    string   `json:"hook,omitempty"` // a caller-written option that edits the options in place
	Caps    int      `json:"caps,omitempty"` // 1: a scope that says it reports nothing, 2: has no tags
	Lazy    bool     `json:"lazy,omitempty"` // built by a build operation, during traffic
}

// ReqSpec is a request; Lines keeps every header line.
type ReqSpec struct {
	URL    string              `json:"url"`
	Header map[string][]string `json:"header"`
	NilHdr bool                `json:"nilHdr,omitempty"`
	Method string              `json:"method,omitempty"`
	Bad    []string            `json:"bad,omitempty"` // the headers that are malformed for sure
	Ctx    string              `json:"ctx,omitempty"` // canceled: its context is done already
}

// Phase is a set of tasks run concurrently to the end.
type Phase struct {
	Tasks []TaskSpec   `json:"tasks"`
	Sched simrt.Config `json:"sched"`
	Probe bool         `json:"probe,omitempty"`
}

// TaskSpec is one caller goroutine.
type TaskSpec struct {
	Delay int64 `json:"delay,omitempty"`
	Ops   []Op  `json:"ops"`
}

// Op is one call into the library.
type Op struct {
	ID     int     `json:"id"`
	Kind   string  `json:"kind"` // neg, flood, bytes, frombytes, round, list, choose, build
	Neg    int     `json:"neg"`
	Slice  int     `json:"slice"`
	Req    int     `json:"req"`
	Share  bool    `json:"share,omitempty"` // use the shared *http.Request
	Create bool    `json:"create,omitempty"`
	Rep    int     `json:"rep,omitempty"`
	Ver    int     `json:"ver,omitempty"`   // version of the content
	Nonce  int     `json:"nonce,omitempty"` // with Dyn: the content is this request's own
	Dyn    bool    `json:"dyn,omitempty"`   // content changes at every serialization
	Faults []Fault `json:"faults,omitempty"`
	N      int     `json:"n,omitempty"`
	Damage *Damage `json:"damage,omitempty"`
	Chunk  int     `json:"chunk,omitempty"`
	Salt   uint64  `json:"salt,omitempty"`
	Scrib  bool    `json:"scrib,omitempty"` // overwrite what was handed out, afterwards
	Fresh  bool    `json:"fresh,omitempty"` // representations of this request's own
	Alt    int     `json:"alt,omitempty"`   // with Fresh: and other metadata than the shared ones
	Buf    bool    `json:"buf,omitempty"`   // the offer is in a slice the caller reuses for the next one
	Reuse  bool    `json:"reuse,omitempty"` // the request, list or input is an object the caller uses again and again
	Plain  bool    `json:"plain,omitempty"` // the response writer has no optional methods
}

// Fault is one injected fault, at the N-th call (-1: every call) of a point
// in the environment of one operation.
type Fault struct {
	At   string `json:"at"`
	T    int    `json:"t"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	A    int64  `json:"a,omitempty"`
	E    int    `json:"e,omitempty"` // which error
}

// Damage is what happened to stored bytes.
type Damage struct {
	Kind string `json:"kind"` // trunc, flip, over
	At   int64  `json:"at"`   // permille of the length
	N    int    `json:"n,omitempty"`
	Bit  int    `json:"bit,omitempty"`
	// Layer codings had been applied when it happened, the others afterwards; 0: all.
	Layer int `json:"layer,omitempty"`
}

// Outcome is everything a client or caller observes of one operation.
type Outcome struct {
	Started bool                `json:"started"`
	Done    bool                `json:"done"`
	Hung    string              `json:"hung,omitempty"`
	Panic   string              `json:"panic,omitempty"`
	Err     string              `json:"err,omitempty"`
	HasErr  bool                `json:"hasErr,omitempty"`
	Status  int                 `json:"status,omitempty"`
	Header  map[string][]string `json:"header,omitempty"`
	After   map[string][]string `json:"after,omitempty"` // headers, if changed after the status
	Body    []byte              `json:"body,omitempty"`
	Value   string              `json:"value,omitempty"`
	Count   map[string]int64    `json:"count,omitempty"`
	Samples int                 `json:"samples,omitempty"`
}

func (o Outcome) key(counts bool) string {
	c := o
	c.Started = true
	if !counts {
		c.Count, c.Samples = nil, 0
	}
	b, _ := json.Marshal(c)
	return string(b)
}

func (o Outcome) brief() string {
	b := o.Body
	t := ""
	if len(b) > 160 {
		b, t = b[:160], fmt.Sprintf("...(%d bytes)", len(o.Body))
	}
	s := fmt.Sprintf("status=%d", o.Status)
	if o.HasErr {
		s += fmt.Sprintf(" err=%q", o.Err)
	}
	if o.Panic != "" {
		s += fmt.Sprintf(" panic=%q", o.Panic)
	}
	if o.Hung != "" {
		s += fmt.Sprintf(" hung=%q", o.Hung)
	}
	if o.Header != nil {
		h, _ := json.Marshal(o.Header)
		s += " header=" + string(h)
	}
	if o.Value != "" {
		s += " value=" + o.Value
	}
	if len(o.Count) > 0 {
		h, _ := json.Marshal(o.Count)
		s += " counters=" + string(h)
	}
	return s + fmt.Sprintf(" body=%q%s", b, t)
}

// Violation is one broken property in one execution.
type Violation struct {
	Prop string `json:"property"`
	Kind string `json:"kind"`
	Op   int    `json:"op"`
	Msg  string `json:"message"`
}

func hashOf(v any) uint64 {
	b, _ := json.Marshal(v)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// RNG is a splitmix64 generator.
type RNG struct{ s uint64 }

func (r *RNG) U() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *RNG) Range(a, b int) int  { return a + r.N(b-a+1) }
func (r *RNG) P(pct int) bool      { return r.N(100) < pct }
func pick[T any](r *RNG, xs []T) T { return xs[r.N(len(xs))] }
func mix64(a, b uint64) uint64     { r := RNG{a ^ (b * 0x9E3779B97F4A7C15)}; return r.U() }

func durOf(ns int64) time.Duration { return time.Duration(ns) }
