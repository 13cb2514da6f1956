package main

import (
	"bytes"
	"cmp"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"

	"verifsim/simrt"
)

// world is everything the operations of a case share.
type world struct {
	cs     *Case
	reps   []*repStub
	slices [][]representation.Representation
	negs   []negotiator.Negotiator
	ctors  [][]representation.ListConstructor // caller-owned option values
	reqs   []*http.Request
	lists  map[string]representation.Representation // made once, serialized by many
	snap   bool                                     // look at the inputs after every operation
	race   bool
	only   int // when >= 0, the only negotiator built

	ops     []*opCtx
	clock   int64
	stats   stats
	diffs   []Violation
	floodVs []Violation
	hash    uint64
	sws     [][]simrt.Switch
}

type stats struct {
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	SimNs    int64          `json:"simNs"`
	Ops      int            `json:"ops"`
	Faults   map[string]int `json:"faults,omitempty"`
	Outcomes map[string]int `json:"outcomes,omitempty"`
	Ext      int64          `json:"ext,omitempty"`
	MapN     int64          `json:"mapN,omitempty"`
	Wedges   int            `json:"wedges,omitempty"`
	Modes    map[string]int `json:"modes,omitempty"`
	Switched int            `json:"switched,omitempty"` // operations that overlapped another one
}

var sentinel = newRep(-7, &RepSpec{Kind: "raw", Type: "sentinel/sentinel"})

const hdrSentinel = "\x00sentinel"

// newWorld builds what the operations share; with need, only those
// representations and that slice.
func newWorld(cs *Case, only int, need map[int]bool, slice int) *world {
	w := &world{cs: cs, only: only}
	simrt.SetMapSeed(cs.MapSeed)
	w.reps = make([]*repStub, len(cs.Reps))
	for _, i := range anyOrder(len(cs.Reps), cs.MapSeed) {
		if need == nil || need[i] {
			w.reps[i] = newRep(i, &cs.Reps[i])
		}
	}
	for i, s := range cs.Slices {
		if need != nil && i != slice {
			w.slices = append(w.slices, nil)
			continue
		}
		sl := make([]representation.Representation, 0, len(s.Reps)+s.Spare)
		for _, i := range s.Reps {
			sl = append(sl, w.reps[i].item())
		}
		full := sl[:cap(sl)]
		for i := len(sl); i < len(full); i++ {
			full[i] = sentinel
		}
		w.slices = append(w.slices, sl)
	}
	for i := range cs.Reqs {
		w.reqs = append(w.reqs, newRequest(&cs.Reqs[i]))
	}
	w.lists = map[string]representation.Representation{}
	for _, ph := range cs.Phases {
		for _, t := range ph.Tasks {
			for i := range t.Ops {
				if op := &t.Ops[i]; op.Kind == "list" && op.Reuse && (need == nil || op.Slice == slice) && w.lists[listID(op)] == nil {
					w.lists[listID(op)] = ctorCache[listKindOf(op)](w.slices[op.Slice]...)
				}
			}
		}
	}
	w.negs = make([]negotiator.Negotiator, len(cs.Negs))
	w.ctors = make([][]representation.ListConstructor, len(cs.Negs))
	for i := range cs.Negs {
		if only >= -1 && i != only {
			continue
		}
		if cs.Negs[i].Lazy && only < -1 {
			continue
		}
		w.negs[i] = w.build(i)
	}
	return w
}

func listKindOf(op *Op) string { return listKinds[op.N%len(listKinds)] }
func listID(op *Op) string     { return fmt.Sprint(listKindOf(op), op.Slice) }

// anyOrder is an order to allocate in: where objects lie must not matter.
func anyOrder(n int, seed uint64) []int {
	r := RNG{seed ^ 0xa11c}
	o := make([]int, n)
	for i := range o {
		j := r.N(i + 1)
		o[i], o[j] = o[j], i
	}
	return o
}

const all = -2

// altered is a representation of the same resource with other metadata.
func altered(s *RepSpec, alt, i int) *RepSpec {
	if alt == 0 {
		return s
	}
	x := *s
	r := RNG{mix64(uint64(alt), uint64(i))}
	for k := r.Range(0, 2); k > 0; k-- {
		switch r.N(7) {
		case 0:
			x.SQ = pick(&r, []float32{0.2, 0.6, 0.95, 1})
		case 1:
			x.Lang = pick(&r, langs)
		case 2:
			x.Charset = pick(&r, charsets)
		case 3:
			x.Type = pick(&r, goodTypes)
		case 4:
			x.Features = pick(&r, features)
		case 5:
			x.Enc = pick(&r, encs[2:])
			x.Nil = false
		case 6:
			x.Loc = s.Loc + pick(&r, []string{"b", "c"})
		}
	}
	return &x
}

// offer makes the slice of representations of an operation.
func (t *task) offer(c *opCtx) []representation.Representation {
	w, op := t.w, c.op
	sl := w.slices[op.Slice]
	if op.Fresh {
		c.own = map[int]*repStub{}
		sl = make([]representation.Representation, 0, len(sl)+1)
		offered := w.cs.Slices[op.Slice].Reps
		for _, k := range anyOrder(len(offered), mix64(w.cs.MapSeed, op.Salt)) {
			if i := offered[k]; c.own[i] == nil {
				c.own[i] = newRep(i, altered(&w.cs.Reps[i], op.Alt, i))
			}
		}
		for _, i := range offered {
			sl = append(sl, c.own[i].item())
		}
	}
	if op.Buf {
		t.buf = append(append(t.buf[:0], sl...), sentinel)
		sl = t.buf[:len(sl)]
	}
	return sl
}

// rep is the representation an operation was offered.
func (w *world) rep(c *opCtx, i int) *repStub {
	if r := c.own[i]; r != nil {
		return r
	}
	return w.reps[i]
}

func newRequest(s *ReqSpec) *http.Request {
	u, err := url.Parse(s.URL)
	if err != nil {
		u = &url.URL{Path: "/"}
	}
	r := &http.Request{Method: cmp.Or(s.Method, "GET"), URL: u, Host: cmp.Or(u.Host, "example.com"), RequestURI: s.URL, RemoteAddr: "192.0.2.7:4711", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if s.Ctx == "canceled" {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		r = r.WithContext(ctx)
	}
	if s.NilHdr {
		return r
	}
	r.Header = http.Header{}
	keys := make([]string, 0, len(s.Header))
	for k := range s.Header {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := s.Header[k]
		l := make([]string, len(v), len(v)+2)
		copy(l, v)
		f := l[:cap(l)]
		f[len(l)], f[len(l)+1] = hdrSentinel, hdrSentinel
		r.Header[k] = l
	}
	return r
}

func urlID(u *url.URL) string {
	c := *u
	c.User = nil
	return fmt.Sprintf("%#v user=%v", c, u.User)
}

func canonRequest(r *http.Request) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %s host=%s form=%v nil=%v\n", r.Method, r.URL, r.Proto, r.Host, r.Form, r.Header == nil)
	fmt.Fprintf(&b, "%s\n", urlID(r.URL))
	keys := make([]string, 0, len(r.Header))
	for k := range r.Header {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := r.Header[k]
		fmt.Fprintf(&b, "%s: %q len=%d spare=%q\n", k, v, len(v), v[:cap(v)][len(v):])
	}
	return b.String()
}

// asNew is a representation as it was when it was made.
func asNew(i int, s *RepSpec) *repStub {
	r := newRep(i, s)
	if r.maps != nil {
		r.maps = fewMaps(s)
	}
	return r
}

func nameOf(r *repStub) string {
	if r == nil {
		return "another one"
	}
	return fmt.Sprintf("representation %d", r.idx)
}

func canonRep(r *repStub) string {
	e, f := r.Base.ContentEncoding(), r.Base.ContentFeatures()
	u := r.Base.ContentLocation()
	return fmt.Sprintf("%q %q %q %q+%q nil=%v %q+%q %s %v coders=%v", r.Base.ContentType(), r.Base.ContentCharset(), r.Base.ContentLanguage(),
		e, e[:cap(e)][len(e):], e == nil, f, f[:cap(f)][len(f):], urlID(&u), r.Base.SourceQuality(), r.maps)
}

// checkInputs compares everything the caller handed in with what it was.
func (w *world) checkInputs(c *opCtx, fresh *http.Request) {
	bad := func(what, got, want string) {
		if len(w.diffs) < 20 {
			w.diffs = append(w.diffs, Violation{"C05", "input modified", c.op.ID, fmt.Sprintf("%s is now %s, was %s", what, got, want)})
		}
	}
	for i, r := range w.reps {
		want := canonRep(asNew(i, &w.cs.Reps[i]))
		if got := canonRep(r); got != want {
			bad(fmt.Sprintf("representation %d", i), got, want)
		}
	}
	for i, s := range w.cs.Slices {
		sl := w.slices[i]
		full := sl[:cap(sl)]
		for j := range full {
			want := sentinel
			if j < len(s.Reps) {
				want = w.reps[s.Reps[j]]
			}
			if got := stubOf(full[j]); got != want {
				bad(fmt.Sprintf("element %d of the caller's slice %d (length %d)", j, i, len(sl)), nameOf(got), nameOf(want))
			}
		}
	}
	for i, r := range w.reqs {
		want := canonRequest(newRequest(&w.cs.Reqs[i]))
		if got := canonRequest(r); got != want {
			bad(fmt.Sprintf("request %d", i), got, want)
		}
	}
	if fresh != nil {
		want := canonRequest(newRequest(&w.cs.Reqs[c.op.Req]))
		if got := canonRequest(fresh); got != want {
			bad(fmt.Sprintf("the request of operation %d", c.op.ID), got, want)
		}
	}
	if m := sharedMaps().String(); m != coderMaps0 {
		bad("the set of coders given to the representations", m, coderMaps0)
	}
	for i, l := range w.ctors {
		full := l[:cap(l)]
		for j := range full {
			k := "spare"
			if j < len(l) {
				k = w.cs.Negs[i].Lists[j]
			}
			if funcID(full[j]) != funcID(ctorCache[k]) {
				bad(fmt.Sprintf("list constructor %d given to negotiator %d", j, i), "another one", k)
			}
		}
	}
}

// afterOffer looks at what only this operation was offered.
func (t *task) afterOffer(c *opCtx, sl []representation.Representation) {
	w, op := t.w, c.op
	if sl == nil {
		return
	}
	bad := func(what, got, want string) {
		if len(w.diffs) < 20 {
			w.diffs = append(w.diffs, Violation{"C05", "input modified", op.ID, fmt.Sprintf("%s is now %s, was %s", what, got, want)})
		}
	}
	for _, i := range w.cs.Slices[op.Slice].Reps {
		if r := c.own[i]; r != nil {
			want := canonRep(asNew(i, altered(&w.cs.Reps[i], op.Alt, i)))
			if got := canonRep(r); got != want {
				bad(fmt.Sprintf("the request's own representation %d", i), got, want)
			}
		}
	}
	if op.Buf {
		for j, i := range w.cs.Slices[op.Slice].Reps {
			if got, want := stubOf(sl[j]), w.rep(c, i); got != want {
				bad(fmt.Sprintf("element %d of the slice of operation %d", j, op.ID), nameOf(got), nameOf(want))
			}
		}
		if stubOf(t.buf[len(sl)]) != sentinel {
			bad(fmt.Sprintf("the element behind the slice of operation %d", op.ID), "another one", "the caller's")
		}
	}
}

// coderMaps tells what maps of coders hold.
func coderMaps(x *maps) (l []string) {
	add := func(kind, k string, f any) {
		l = append(l, fmt.Sprintf("%s %s %x", kind, k, reflect.ValueOf(f).Pointer()))
	}
	for k, f := range x.w {
		add("w", k, f)
	}
	for k, f := range x.r {
		add("r", k, f)
	}
	for k, f := range x.m {
		add("m", k, f)
	}
	for k, f := range x.u {
		add("u", k, f)
	}
	return l
}

// sharedMaps are the maps of coders given to most representations.
func sharedMaps() *maps {
	return &maps{harnessWriters, harnessReaders, harnessMarshallers, harnessUnmarshallers}
}

var coderMaps0 string

var ctorCache = map[string]representation.ListConstructor{}

var listKinds = []string{"json", "xml", "yaml", "tyaml", "html", "gzip", "bad", "lvl", "cgzip", "cstack", "cdeflate"}

func init() {
	for _, k := range append([]string{"spare", "void", "bare", "untyped", "late"}, listKinds...) {
		ctorCache[k] = listCtor(k)
	}
}

// funcID tells closures of the same function apart.
func funcID(f representation.ListConstructor) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&f))
}

// shuffled puts the first n options in any order.
func shuffled[T any](o []T, n int, w *world, i int) []T {
	r := append([]T(nil), o...)
	for k, j := range anyOrder(n, mix64(w.cs.MapSeed, uint64(i))) {
		r[k] = o[j]
	}
	return r
}

// build constructs negotiator i.
func (w *world) build(i int) negotiator.Negotiator {
	s := &w.cs.Negs[i]
	has := func(o string) bool {
		for _, x := range s.Opts {
			if x == o {
				return true
			}
		}
		return false
	}
	var ctors []representation.ListConstructor
	if s.Lists != nil {
		ctors = make([]representation.ListConstructor, 0, len(s.Lists)+2)
		for _, k := range s.Lists {
			ctors = append(ctors, ctorCache[k])
		}
		f := ctors[:cap(ctors)]
		for j := len(ctors); j < len(f); j++ {
			f[j] = ctorCache["spare"]
		}
		if !simrt.Active() {
			w.ctors[i] = ctors
		}
	}
	switch s.Type {
	case "proactive":
		if s.Default {
			return proactive.Default
		}
		var o []proactive.Option
		if s.Chooser != "" {
			o = append(o, proactive.Algorithm(&chooserStub{proactive.ApacheHTTPD(), s.Chooser}))
		}
		if has("strictA") {
			o = append(o, proactive.DisableStrictAccept())
		}
		if has("strictL") {
			o = append(o, proactive.DisableStrictAcceptLanguage())
		}
		if has("strictC") {
			o = append(o, proactive.DisableStrictAcceptCharset())
		}
		if has("strict") {
			o = append(o, proactive.DisableStrictMode())
		}
		if has("noNAR") {
			o = append(o, proactive.DisableNotAcceptableRepresentation())
		}
		if s.DefList != "" {
			o = append(o, proactive.DefaultRepresentation(ctorCache[s.DefList]))
		}
		if s.Lists != nil {
			o = append(o, proactive.Representations(ctors...))
		}
		if s.Log != "" {
			o = append(o, proactive.Logger(newLogger(s.Log)))
		}
		if s.Scope {
			o = append(o, proactive.Scope(&scopeStub{caps: s.Caps, own: i}))
		}
		plain := len(o) // what hooks do depends on what was given before
		switch s.Hook {
		case "replace":
			o = append(o, func(o *proactive.Options) {
				if len(o.RepresentationConstructors) > 0 {
					o.RepresentationConstructors[0] = ctorCache["html"]
				}
			})
		case "append":
			o = append(o, func(o *proactive.Options) {
				o.RepresentationConstructors = append(o.RepresentationConstructors, ctorCache["html"])
			})
		case "trim":
			o = append(o, func(o *proactive.Options) {
				if len(o.RepresentationConstructors) > 1 {
					o.RepresentationConstructors = append(o.RepresentationConstructors[:1], ctorCache["tyaml"])
				}
			})
		}
		return proactive.New(shuffled(o, plain, w, i)...)
	case "reactive":
		if s.Default {
			return reactive.Default
		}
		var o []reactive.Option
		if s.DefList != "" {
			o = append(o, reactive.Representation(ctorCache[s.DefList]))
		}
		if s.Log != "" {
			o = append(o, reactive.Logger(newLogger(s.Log)))
		}
		if s.Scope {
			o = append(o, reactive.Scope(&scopeStub{caps: s.Caps, own: i}))
		}
		return reactive.New(shuffled(o, len(o), w, i)...)
	}
	if s.Default {
		return transparent.Default
	}
	var o []transparent.Option
	if s.Chooser != "" {
		o = append(o, transparent.RVSA(&chooserStub{transparent.RVSA1(), s.Chooser}))
	}
	if s.DefList != "" {
		o = append(o, transparent.ListRepresentation(ctorCache[s.DefList]))
	}
	if s.MaxVar != 0 {
		o = append(o, transparent.MaximumVariantListSize(s.MaxVar))
	}
	if s.HasG {
		o = append(o, transparent.GuessSmallThreshold(s.Guess))
	}
	if s.Log != "" {
		o = append(o, transparent.Logger(newLogger(s.Log)))
	}
	if s.Scope {
		o = append(o, transparent.Scope(&scopeStub{caps: s.Caps, own: i}))
	}
	return transparent.New(shuffled(o, len(o), w, i)...)
}

// alien is a user of the same packages with other content types and codings
// under the same names.
func alien(n int) {
	m := map[string]representation.Marshaller{"application/alien": alienMarshal}
	u := map[string]representation.Unmarshaller{"application/alien": alienUnmarshal}
	ws := map[string]representation.EncodingWriterConstructor{"alien": alienWriter}
	rs := map[string]representation.EncodingReaderConstructor{"alien": alienReader}
	if n > 1 {
		for t := range refMarshal {
			m[t], u[t] = alienMarshal, alienUnmarshal
		}
		for _, c := range codings {
			ws[c], rs[c] = alienWriter, alienReader
		}
	}
	l := &representation.List{}
	l.SetContentType("application/json")
	l.SetContentEncoding([]string{"gzip"})
	l.SetRepresentations(sentinel)
	l.SetMarshallers(m)
	l.SetUnmarshallers(u)
	l.SetEncodingWriters(ws)
	l.SetEncodingReaders(rs)
	if n > 2 {
		if b, err := l.Bytes(); err == nil {
			_ = l.FromBytes(b)
		}
		c := transparent.RVSA1()
		_, _ = c.Choose(newRequest(&ReqSpec{Header: map[string][]string{}}), l2())
	}
}

func l2() representation.Representation { return ctorCache["json"](sentinel) }

func alienMarshal(any) ([]byte, error)     { return []byte("ALIEN"), nil }
func alienUnmarshal(_ []byte, v any) error { return json.Unmarshal([]byte("{}"), v) }
func alienWriter(w io.WriteCloser) (io.WriteCloser, error) {
	return &frameWriter{w: w}, nil
}
func alienReader(r io.Reader) (io.ReadCloser, error) { return io.NopCloser(r), nil }

// task is what one caller goroutine keeps to itself.
type task struct {
	w     *world
	built map[int]negotiator.Negotiator
	t     *simrt.Task
	ops   []*opCtx
	buf   []representation.Representation // reused for one offer after another
	req   *http.Request                   // reused for one request after another
	in    []byte                          // reused for one input after another
	same  map[string]string               // what a flood got for the same request before
}

func (t *task) neg(i int) negotiator.Negotiator {
	if n := t.built[i]; n != nil {
		return n
	}
	if n := t.w.negs[i]; n != nil {
		return n
	}
	t.built[i] = t.w.build(i)
	return t.built[i]
}

// again puts the contents of a request into the one this caller used before,
// as servers do that recycle their requests.
func (t *task) again(r *http.Request) *http.Request {
	if t.req == nil {
		t.req = &http.Request{URL: &url.URL{}}
	}
	h, u := t.req.Header, t.req.URL
	*t.req, *u = *r, *r.URL
	t.req.URL = u
	if h != nil && r.Header != nil {
		clear(h)
		for k, v := range r.Header {
			h[k] = v
		}
		t.req.Header = h
	}
	return t.req
}

func newCtx(w *world, op *Op) *opCtx {
	c := &opCtx{op: op, w: w, calls: map[string]int{}, counts: map[string]int64{}, fired: make([]int, len(op.Faults))}
	for i := range op.Faults {
		if op.Faults[i].At == "meta" {
			c.hasMeta = true
		}
	}
	return c
}

// presetHeader is in every response before the negotiation.
func (w *world) presetHeader(op *Op) http.Header {
	h := http.Header{"X-Request-Id": {"r"}, "Vary": {"Cookie"}}
	if w.cs.Prop == "C06" && op.ID%2 == 1 { // some that a negotiation may set
		for _, k := range []string{"Content-Type", "Content-Length", "Content-Encoding", "Content-Language", "Content-Charset", "Content-Location", "Alternates", "Tcn"} {
			h[k] = []string{"preset"}
		}
	}
	return h
}

func (t *task) run(c *opCtx) {
	w, op := t.w, c.op
	simrt.SetCtx(c, mix64(w.cs.MapSeed, op.Salt))
	c.out.Started = true
	c.begin, c.beginStep = simrt.Nanos(), simrt.Steps()
	c.log("operation %d (%s) starts", op.ID, op.Kind)
	var fresh *http.Request
	if op.Kind == "neg" || op.Kind == "choose" {
		if op.Share {
			c.req = w.reqs[op.Req]
		} else {
			c.req = newRequest(&w.cs.Reqs[op.Req])
			if op.Reuse {
				c.req = t.again(c.req)
			}
			fresh = c.req
		}
	}
	t.call(c)
	c.end, c.endStep = simrt.Nanos(), simrt.Steps()
	c.ended = true
	for _, r := range c.coders {
		r.atEnd = r.closed
	}
	c.out.Done = true
	c.log("operation %d ends: %s", op.ID, c.out.brief())
	simrt.SetCtx(nil, 0)
	if w.snap {
		w.checkInputs(c, fresh)
		t.afterOffer(c, c.sl)
	}
	if op.Scrib {
		var whole []*held
		for i := range c.held {
			if h := &c.held[i]; bytes.Equal(h.ref, h.cp) { // else leave the evidence
				whole = append(whole, h)
			}
		}
		for _, h := range whole {
			b := h.ref
			if op.ID%2 == 0 {
				b = h.ref[:cap(h.ref)]
				h.ref = b // all of it is the caller's
			}
			for j := range b {
				b[j] = '#'
			}
		}
		for _, h := range whole { // the same buffer can be held twice
			h.cp = append([]byte(nil), h.ref...)
		}
	}
}

// spec is the request of the operation.
func (c *opCtx) spec() *ReqSpec {
	if c.asked != nil {
		return c.asked
	}
	return &c.w.cs.Reqs[c.op.Req]
}

// record notes how a call ended.
func (c *opCtx) record(p any) {
	o := &c.out
	if p != nil {
		c.panicVal = p
		switch v := p.(type) {
		case *injected:
			o.Panic = v.tok
		case error:
			o.Panic = v.Error()
		default:
			o.Panic = fmt.Sprint(p)
		}
	}
	if c.rw != nil {
		o.Status = c.rw.status
		o.Header = c.rw.snap
		if o.Header == nil {
			o.Header = c.rw.h.Clone()
		} else if !sameHeader(c.rw.h, c.rw.snap) {
			o.After = c.rw.h.Clone()
		}
		o.Body = c.rw.body
	}
	o.Count = c.counts
	o.Samples = len(c.samples)
}

func (c *opCtx) fail(err error) {
	c.retErr = err
	if err != nil {
		c.out.HasErr, c.out.Err = true, err.Error()
	}
}

func (t *task) call(c *opCtx) {
	w, op := t.w, c.op
	o := &c.out
	defer func() { c.record(recover()) }()
	fail := c.fail
	switch op.Kind {
	case "neg":
		c.rw = &rw{c: c, h: w.presetHeader(op)}
		n := t.neg(op.Neg)
		ctx := negotiator.NegotiationContext{ResponseWriter: c.rw, Request: c.req, IsCreation: op.Create}
		if op.Plain {
			ctx.ResponseWriter = struct{ http.ResponseWriter }{c.rw}
		}
		c.begin = simrt.Nanos()
		sl := t.offer(c)
		c.sl = sl
		fail(n.Negotiate(ctx, sl...))
	case "flood":
		n := t.neg(op.Neg)
		simrt.NoPreempt(true)
		defer simrt.NoPreempt(false)
		for i := 0; i < op.N; i++ {
			t.flood(n, c, i)
		}
		simrt.SetCtx(c, 0)
	case "build":
		t.built[op.Neg] = w.build(op.Neg)
		if op.N > 0 {
			alien(op.N)
		}
	case "bytes":
		b, err := w.reps[op.Rep].Bytes()
		o.Body = append([]byte(nil), b...)
		fail(err)
	case "round":
		r := w.reps[op.Rep]
		b, err := r.Bytes()
		o.Body = append([]byte(nil), b...)
		if err != nil {
			fail(err)
			break
		}
		var p payload
		c.decoding = len(c.errs)
		c.mid = true
		err = r.Base.FromBytes(b, &p)
		fail(err)
		if err == nil {
			c.got = &p
			o.Value = jsonOf(p)
		}
	case "frombytes":
		r := w.reps[op.Rep]
		p := contentOf(op.Rep, r.spec.Size, op, 0)
		raw, err := []byte(nil), error(errTimeout)
		if m := refMarshal[baseType(r.spec.Type)]; m != nil {
			if raw, err = m(&p); err == nil {
				if l := op.Damage.layer(r.spec); l > 0 {
					if raw, err = refEncode(r.spec.Enc[:l], raw); err == nil {
						raw, err = refEncode(r.spec.Enc[l:], op.Damage.apply(raw))
					}
				} else {
					raw, err = refEncode(r.spec.Enc, raw)
				}
			}
		}
		if err != nil { // a coding or type nobody supports
			raw = []byte("whatever")
		}
		in := append(make([]byte, 0, len(raw)+8), raw...)
		if op.Reuse {
			in = append(t.in[:0], raw...)
			t.in = in
		}
		if op.Damage != nil && op.Damage.layer(r.spec) == 0 {
			in = op.Damage.apply(in)
		}
		c.input = append([]byte(nil), in...)
		var q payload
		err = r.Base.FromBytes(in, &q)
		if !bytes.Equal(in, c.input) {
			c.inputChanged = true
		}
		if op.Scrib {
			f := in[:cap(in)]
			for i := range f {
				f[i] = '#'
			}
		}
		fail(err)
		if err == nil {
			c.got = &q
			o.Value = jsonOf(q)
		}
	case "list":
		k := listKindOf(op)
		l := w.lists[listID(op)]
		if !op.Reuse {
			l = ctorCache[k](w.slices[op.Slice]...)
		}
		b, err := l.Bytes()
		o.Body = append([]byte(nil), b...)
		fail(err)
		if err == nil {
			var back representation.List
			back.SetContentType(l.ContentType())
			back.SetContentEncoding(l.ContentEncoding())
			if k[0] == 'c' {
				back.SetEncodingReaders(harnessReaders)
				back.SetUnmarshallers(harnessUnmarshallers)
			}
			if err = back.FromBytes(b); err != nil {
				fail(err)
			}
			o.Value = jsonOf(back.Representations)
		}
	case "choose":
		var ch representation.Chooser
		if w.cs.Negs[op.Neg].Type == "transparent" {
			ch = transparent.RVSA1()
		} else {
			ch = proactive.ApacheHTTPD()
		}
		rep, err := ch.Choose(c.req, w.slices[op.Slice]...)
		fail(err)
		if r := stubOf(rep); r != nil {
			o.Value = fmt.Sprint("chose ", r.idx)
		} else {
			o.Value = fmt.Sprintf("chose %T", rep)
		}
	}
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

var floodTypes = []string{"application/json", "application/xml", "text/html", "application/yaml"}

// flood is one of very many requests, no two alike.
func (t *task) flood(n negotiator.Negotiator, main *opCtx, i int) {
	w, op := t.w, main.op
	h := map[string][]string{
		"Accept":          {floodTypes[i%4] + ";q=0." + fmt.Sprint(1+i%9), fmt.Sprintf("application/x-%d-%d;q=0.5", op.Nonce, i)},
		"Accept-Language": {fmt.Sprintf("en-%c%c, fr;q=0.%d", 'A'+i%26, 'A'+(i/26)%26, 1+i%8)},
		"Accept-Encoding": {"gzip", "identity;q=0." + fmt.Sprint(1+i%9)},
		"Accept-Charset":  {"utf-8", fmt.Sprintf("x-%d;q=0.3", i)},
		"Accept-Features": {fmt.Sprintf("f%d", i), "color"},
		"Negotiate":       {"1.0", "guess-small"},
		"X-N":             {fmt.Sprint(i)},
	}
	if op.Nonce%4 == 0 { // nothing of that type
		h["Accept"] = []string{fmt.Sprintf("application/x-%d-%d", op.Nonce, i)}
	}
	req := &ReqSpec{URL: fmt.Sprintf("http://example.com:80/dir/n%d", i), Header: h}
	own, k := i%5 == 4, i/5
	if op.Nonce%5 < 2 { // mostly the same few requests
		own, k = i%5 > 0, op.Nonce/5+i%5%3
	}
	if own = own && len(w.cs.Reqs) > 0; own {
		k %= len(w.cs.Reqs)
		req = &w.cs.Reqs[k]
	}
	o2 := Op{ID: op.ID, Kind: "neg", Neg: op.Neg, Slice: op.Slice, Create: i%7 == 0, Faults: op.Faults}
	if i%4 == 3 {
		o2.Faults = nil
	}
	c := newCtx(w, &o2)
	c.asked = req
	if o2.Faults != nil {
		c.fired = main.fired
	}
	salt, key := uint64(i), ""
	if own && len(o2.Faults) == 0 {
		salt, key = mix64(w.cs.MapSeed, op.Salt), fmt.Sprint(k, o2.Create)
	}
	simrt.SetCtx(c, salt)
	c.rw = &rw{c: c, h: w.presetHeader(&o2)}
	c.req = newRequest(req)
	if op.Reuse {
		c.req = t.again(c.req)
	}
	c.sl = w.slices[op.Slice]
	c.out.Started = true
	c.begin = simrt.Nanos()
	func() {
		defer func() { c.record(recover()) }()
		c.fail(n.Negotiate(negotiator.NegotiationContext{Request: c.req, ResponseWriter: c.rw, IsCreation: o2.Create}, c.sl...))
	}()
	c.end = simrt.Nanos()
	c.ended, c.out.Done = true, true
	if w.race {
		return
	}
	vs, _ := w.judgeOps(w.cs.Prop, []*opCtx{c})
	if p := w.cs.Prop; key != "" && (p == "C01" || p == "C02" || p == "C03") {
		got := c.out.key(false)
		if t.same == nil {
			t.same = map[string]string{}
		}
		if was, ok := t.same[key]; !ok {
			t.same[key] = got
		} else if was != got {
			vs = append(vs, Violation{p, "differs when repeated", op.ID, fmt.Sprintf("request %d of a flood: first %.600s; again %.600s", i, was, got)})
		}
	}
	if len(w.floodVs) < 5 {
		w.floodVs = append(w.floodVs, vs...)
	}
}

// runPhase runs the tasks of one phase to the end.
func (w *world) runPhase(ph *Phase, nsites int) {
	simrt.Begin(ph.Sched, w.clock, nsites)
	var ts []*task
	for i := range ph.Tasks {
		spec := &ph.Tasks[i]
		t := &task{w: w, built: map[int]negotiator.Negotiator{}}
		for j := range spec.Ops {
			c := newCtx(w, &spec.Ops[j])
			c.phase = len(w.sws)
			c.probe = ph.Probe
			t.ops = append(t.ops, c)
		}
		w.ops = append(w.ops, t.ops...)
		t.t = simrt.Spawn(func() {
			if spec.Delay > 0 {
				simrt.Sleep(durOf(spec.Delay))
			}
			for _, c := range t.ops {
				t.run(c)
			}
		})
		ts = append(ts, t)
	}
	res := simrt.Run()
	for _, t := range ts {
		for i, n := range t.built {
			if w.negs[i] == nil {
				w.negs[i] = n
			}
		}
		if t.t.Hung {
			if c, ok := t.t.HungCtx.(*opCtx); ok && c != nil {
				c.out.Hung = t.t.HungWhy
			}
		}
	}
	w.clock = res.Clock + 1
	w.stats.Steps += res.Steps
	w.stats.Switches += res.NSwitch
	w.stats.Ext += res.ExtN
	w.stats.MapN += res.MapN
	w.stats.Wedges += len(res.Wedges)
	if w.stats.Modes == nil {
		w.stats.Modes = map[string]int{}
	}
	w.stats.Modes[ph.Sched.Mode]++
	w.hash = mix64(w.hash^res.Hash, uint64(res.NSwitch))
	w.sws = append(w.sws, res.Switches)
}

// finish checks what was handed out and gathers the statistics.
func (w *world) finish() {
	w.stats.SimNs = w.clock
	w.stats.Faults = map[string]int{}
	w.stats.Outcomes = map[string]int{}
	for _, c := range w.ops {
		w.stats.Ops++
		for i, n := range c.fired {
			if n > 0 {
				f := c.op.Faults[i]
				w.stats.Faults[f.At+"/"+f.Kind] += n
			}
		}
		if c.op.Damage != nil && c.out.Started {
			w.stats.Faults["stored-bytes/"+c.op.Damage.Kind]++
		}
		k := c.op.Kind
		switch {
		case !c.out.Started:
			k += ":not started"
		case !c.out.Done && c.never:
			k += ":client never finished"
		case !c.out.Done:
			k += ":hung"
		case c.out.Panic != "":
			k += ":panic"
		case c.out.HasErr:
			k += ":error"
		case c.rw != nil:
			k += ":" + fmt.Sprint(c.out.Status)
		default:
			k += ":ok"
		}
		w.stats.Outcomes[k]++
	}
	// operations that overlapped in time
	for i, a := range w.ops {
		if !a.out.Done || a.op.Kind == "build" {
			continue
		}
		for j, b := range w.ops {
			if i != j && a.phase == b.phase && b.out.Started && a.beginStep < b.beginStep && b.beginStep < a.endStep {
				w.stats.Switched++
				break
			}
		}
	}
}
