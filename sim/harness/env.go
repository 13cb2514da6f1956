package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"verifsim/simrt"
)

// opCtx is the environment's view of one operation: everything the stubs
// record goes here, so that no stub is shared between operations.
type opCtx struct {
	op    *Op
	asked *ReqSpec // what a flood asks for
	w     *world
	calls map[string]int
	fired []int
	out   Outcome

	serial    []serialRec
	rw        *rw
	counts    map[string]int64
	samples   []sample
	logs      int
	coders    []*coderRec
	nw, nr    int
	held      []held
	events    []event
	lists     int      // list constructor calls
	kinds     []string // and of which constructors
	chooseErr bool
	chosen    int

	begin, end          int64
	seamed              bool
	firstSeam, lastSeam int64
	ended               bool
	never               bool
	beginStep           int64
	endStep             int64
	hasMeta             bool
	panicVal            any
	retErr              error
	mem                 int
	req                 *http.Request
	got                 *payload
	input               []byte
	inputChanged        bool
	phase               int
	errs                []string         // tokens of the injected errors, in order
	errAt               []string         // and where
	panics              []any            // values of the injected panics
	own                 map[int]*repStub // representations made for this operation
	sl                  []representation.Representation
	probe               bool
	decoding            int  // len(errs) when deserialization began
	mid                 bool // serialization succeeded, deserialization began
}

type event struct {
	step int64
	text string
}

type serialRec struct {
	rep  int // index, or -1 for a list
	call int // how many serializations of it came before in the operation
	meta meta
	cp   []byte
	err  error
	errs []string // errors injected while it went on
}

type meta struct {
	ct, cl, cc string
	ce         []string
	loc        string
}

type sample struct {
	name       string
	start, end int64
}

type held struct {
	what  string
	ref   []byte
	cp    []byte
	scrib bool
}

// injected is the panic value of an injected panic.
type injected struct{ tok string }

func (i *injected) String() string { return i.tok }

type injErr struct {
	tok   string
	under error
}

func (e *injErr) Error() string { return e.tok }
func (e *injErr) Unwrap() error { return e.under }

// sentinels are errors that code may be tempted to treat in a special way.
var sentinels = []error{
	io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, syscall.EPIPE, syscall.ECONNRESET, syscall.ENOSPC,
	syscall.EAGAIN, syscall.EINTR, context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, os.ErrClosed, os.ErrNotExist, net.ErrClosed,
	http.ErrHandlerTimeout, http.ErrAbortHandler, http.ErrBodyNotAllowed, http.ErrContentLength, http.ErrNotSupported,
	gzip.ErrHeader, gzip.ErrChecksum, zlib.ErrHeader, zlib.ErrChecksum, flate.CorruptInputError(7), bytes.ErrTooLarge,
	representation.ErrUnsupportedContentEncoding, representation.ErrUnsupportedContentType, transparent.ErrVariantListSizeExceeded,
	io.ErrNoProgress, errors.ErrUnsupported, io.ErrShortBuffer,
}

// errOf makes the error a fault injects: one of its own, one that wraps a
// well-known one, or a well-known one as it is.
func errOf(f *Fault, at string, i int) error {
	e := &injErr{tok: fmt.Sprintf("injected-error-%s-%d", at, i)}
	if f.E == 0 {
		return e
	}
	e.under = sentinels[f.E/2%len(sentinels)]
	if f.E%2 == 0 || at == "rread" && e.under == io.EOF { // a reader that returns io.EOF has ended
		return e
	}
	return e.under
}

// injectedAt tells whether err is a failure that was injected at this point.
func (c *opCtx) injectedAt(at string, err error) bool {
	for i, a := range c.errAt {
		if a == at && strings.Contains(err.Error(), c.errs[i]) {
			return true
		}
	}
	return false
}

func ctxOf() *opCtx {
	c, _ := simrt.CurCtx().(*opCtx)
	return c
}

var inj = map[string]int{} // only used by main, after the run

var tracing bool

func (c *opCtx) log(format string, a ...any) {
	if tracing && len(c.events) < 4000 {
		c.events = append(c.events, event{simrt.Steps(), fmt.Sprintf(format, a...)})
	}
}

// hit is a fault point: a yield, then whatever the plan says.
// It returns an error to inject, and the fault when the point must act on it.
func (c *opCtx) hit(at string, t int) (*Fault, error) {
	if c == nil {
		return nil, nil
	}
	kind := int32(10)
	simrt.Seam(kind)
	obs := at == "log" || at == "scope"
	if !obs && !c.seamed {
		c.seamed = true
		c.firstSeam = simrt.Nanos()
	}
	k := at + ":" + strconv.Itoa(t)
	n := c.calls[k]
	c.calls[k] = n + 1
	nAny := n
	if t >= 0 {
		ka := at + ":*"
		nAny = c.calls[ka]
		c.calls[ka] = nAny + 1
	}
	c.log("%s[%d]#%d", at, t, n)
	var out *Fault
	var err error
	for i := range c.op.Faults {
		f := &c.op.Faults[i]
		if f.At != at || (f.T != -1 && f.T != t) {
			continue
		}
		m := n
		if f.T == -1 {
			m = nAny
		}
		if f.N != -1 && f.N != m {
			continue
		}
		switch f.Kind {
		case "slow":
			c.fired[i]++
			c.log("fault %s %s +%dns", at, f.Kind, f.A)
			simrt.Sleep(time.Duration(f.A))
		case "jump":
			c.fired[i]++
			c.log("fault clock jump at %s +%dns", at, f.A)
			simrt.Jump(f.A)
		case "stall":
			c.fired[i]++
			c.log("fault %s stalls (way %d)", at, f.A)
			if f.A == 1 {
				c.never = true
			}
			simrt.Stall(int32(f.A))
			c.log("%s goes on", at)
		case "panic":
			c.fired[i]++
			c.log("fault %s panics", at)
			c.touch(obs)
			tok := fmt.Sprintf("injected-panic-%s-%d", at, i)
			var v any = &injected{tok}
			switch f.A {
			case 1:
				v = &injErr{tok: tok}
			case 2:
				v = tok
			}
			c.panics = append(c.panics, v)
			panic(v)
		case "abort":
			c.fired[i]++
			c.log("fault %s aborts", at)
			c.touch(obs)
			panic(http.ErrAbortHandler)
		case "err":
			c.fired[i]++
			c.log("fault %s fails", at)
			err = errOf(f, at, i)
			c.errs = append(c.errs, err.Error())
			c.errAt = append(c.errAt, at)
			out = f
		case "nest":
			c.nest(i)
		case "cut":
			// the response writer counts the bytes
		default:
			out = f
		}
	}
	c.touch(obs)
	return out, err
}

// nest is a callback that negotiates on its own.
func (c *opCtx) nest(i int) {
	w, a := c.w, int(c.op.Faults[i].A)
	neg := a % len(w.cs.Negs)
	n := w.negs[neg]
	if n == nil {
		return
	}
	c.fired[i]++
	o2 := Op{ID: -2, Kind: "neg", Neg: neg, Slice: a / 16 % len(w.cs.Slices), Req: a / 256 % len(w.cs.Reqs)}
	if a%3 == 0 {
		o2.Slice = c.op.Slice
	}
	c.log("negotiation %d/%d/%d from within", o2.Neg, o2.Slice, o2.Req)
	sub := newCtx(w, &o2)
	sub.rw = &rw{c: sub, h: http.Header{}}
	ctx, seed := simrt.Swap(sub, uint64(a))
	defer func() {
		simrt.Swap(ctx, seed)
		_ = recover()
	}()
	_ = n.Negotiate(negotiator.NegotiationContext{ResponseWriter: sub.rw, Request: newRequest(&w.cs.Reqs[o2.Req])}, w.slices[o2.Slice]...)
}

func (c *opCtx) touch(obs bool) {
	if !obs {
		c.lastSeam = simrt.Nanos()
	}
}

func (c *opCtx) hold(what string, b []byte) {
	if c == nil || len(b) == 0 {
		return
	}
	if c.mem += len(b); c.mem > 8<<20 {
		return
	}
	c.held = append(c.held, held{what: what, ref: b, cp: append([]byte(nil), b...)})
}

// ---- representations ----

// payload is the content of a document.
type payload struct {
	Rep   int      `json:"rep" yaml:"rep"`
	Ver   int      `json:"ver" yaml:"ver"`
	Nonce int      `json:"nonce" yaml:"nonce"`
	Call  int      `json:"call" yaml:"call"`
	Items []string `json:"items" yaml:"items"`
	Pad   string   `json:"pad" yaml:"pad"`
}

const padText = "lorem ipsum dolor sit amet consectetur adipiscing elit sed do eiusmod tempor "

func padOf(n int, seed uint64) string {
	r := RNG{seed}
	if n > 50_000 && r.P(35) { // as small as it gets when coded
		return strings.Repeat("a", n)
	}
	b := make([]byte, 0, n+80)
	for len(b) < n {
		if r.P(40) {
			k := r.N(len(padText) - 10)
			b = append(b, padText[k:k+8]...)
		} else {
			for i := 0; i < 6; i++ {
				b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789"[r.N(36)])
			}
		}
	}
	return string(b[:n])
}

// exactly is added to a size that the serialization as JSON is to have.
const exactly = 1 << 24

func contentOf(rep, size int, op *Op, call int) payload {
	if size < 0 { // no content at all
		return payload{}
	}
	p := payload{Rep: rep}
	if size >= exactly { // as long as a buffer may be, as JSON
		if op != nil {
			p.Ver = op.Ver
		}
		p.Items = []string{"a" + strconv.Itoa(rep), "b"}
		n := size - exactly - len(jsonOf(p))
		r := RNG{mix64(uint64(rep)+1, uint64(p.Ver))}
		b := make([]byte, max(n, 0))
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.N(36)]
		}
		p.Pad = string(b)
		return p
	}
	if op != nil {
		p.Ver = op.Ver
		if op.Dyn {
			p.Nonce, p.Call = op.Nonce, call
			h := mix64(uint64(rep)<<40|uint64(op.Nonce)<<20|uint64(call), 77)
			size = size/2 + int(h%uint64(size+9))
		} else if op.Ver > 0 {
			size += int(mix64(uint64(rep), uint64(op.Ver)) % 7)
		}
	}
	p.Pad = padOf(size, mix64(uint64(rep)+1, uint64(p.Ver)*31+uint64(p.Nonce)))
	p.Items = []string{"a" + strconv.Itoa(rep), "b"}
	return p
}

// repStub is a representation at the seam: shared by all requests, real
// underneath (representation.Base) unless it is raw.
type repStub struct {
	representation.Base
	idx  int
	spec *RepSpec
	loc  url.URL
	maps *maps
}

// valRep is a representation of a type that cannot be compared.
type valRep struct {
	*repStub
	tags []string
}

// item is the representation as it is offered.
func (r *repStub) item() representation.Representation {
	if r != nil && r.spec.Val {
		return valRep{repStub: r}
	}
	return r
}

// stubOf is the stub behind an offered or chosen representation.
func stubOf(x representation.Representation) *repStub {
	switch v := x.(type) {
	case *repStub:
		return v
	case valRep:
		return v.repStub
	case representation.RankedRepresentation:
		return stubOf(v.Representation)
	}
	return nil
}

// maps are the caller's maps of coders, for one representation.
type maps struct {
	w map[string]representation.EncodingWriterConstructor
	r map[string]representation.EncodingReaderConstructor
	m map[string]representation.Marshaller
	u map[string]representation.Unmarshaller
}

func fewMaps(s *RepSpec) *maps {
	m := &maps{map[string]representation.EncodingWriterConstructor{}, map[string]representation.EncodingReaderConstructor{},
		map[string]representation.Marshaller{}, map[string]representation.Unmarshaller{}}
	for _, e := range s.Enc {
		if e = strings.ToLower(e); harnessWriters[e] != nil {
			m.w[e], m.r[e] = harnessWriters[e], harnessReaders[e]
		}
	}
	if t := baseType(s.Type); harnessMarshallers[t] != nil {
		m.m[t], m.u[t] = harnessMarshallers[t], harnessUnmarshallers[t]
	}
	return m
}

func (m *maps) String() string {
	if m == nil {
		return "none"
	}
	var l []string
	for _, x := range coderMaps(m) {
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// spared copies a list into one with spare capacity, and marks the spare part.
func spared(v []string) []string {
	l := make([]string, len(v), len(v)+2)
	copy(l, v)
	f := l[:cap(l)]
	for i := len(l); i < len(f); i++ {
		f[i] = hdrSentinel
	}
	return l
}

func newRep(i int, s *RepSpec) *repStub {
	r := &repStub{idx: i, spec: s}
	if u, err := url.Parse(s.Loc); err == nil {
		r.loc = *u
	}
	r.SetContentType(s.Type)
	r.SetContentCharset(s.Charset)
	r.SetContentLanguage(s.Lang)
	if !s.Nil {
		// spare capacity, with a sentinel behind the end
		e := spared(s.Enc)
		r.SetContentEncoding(e)
	}
	f := spared(s.Features)
	if len(s.Features) > 0 {
		r.SetContentFeatures(f)
	}
	r.SetContentLocation(r.loc)
	r.SetSourceQuality(s.SQ)
	if s.Coders && s.Few {
		r.maps = fewMaps(s)
		r.SetEncodingWriters(r.maps.w)
		r.SetEncodingReaders(r.maps.r)
		r.SetMarshallers(r.maps.m)
		r.SetUnmarshallers(r.maps.u)
	} else if s.Coders {
		r.SetEncodingWriters(harnessWriters)
		r.SetEncodingReaders(harnessReaders)
		r.SetMarshallers(harnessMarshallers)
		r.SetUnmarshallers(harnessUnmarshallers)
	}
	return r
}

func (r *repStub) metaSeam() {
	c := ctxOf()
	if c != nil && c.hasMeta {
		c.hit("meta", r.idx)
		return
	}
	if c != nil && !c.seamed {
		c.seamed = true
		c.firstSeam = simrt.Nanos()
	}
	simrt.Seam(11)
}

func (r *repStub) ContentType() string       { r.metaSeam(); return r.Base.ContentType() }
func (r *repStub) ContentCharset() string    { r.metaSeam(); return r.Base.ContentCharset() }
func (r *repStub) ContentLanguage() string   { r.metaSeam(); return r.Base.ContentLanguage() }
func (r *repStub) ContentEncoding() []string { r.metaSeam(); return r.Base.ContentEncoding() }
func (r *repStub) ContentLocation() url.URL  { r.metaSeam(); return r.Base.ContentLocation() }
func (r *repStub) ContentFeatures() []string { r.metaSeam(); return r.Base.ContentFeatures() }
func (r *repStub) SourceQuality() float32    { r.metaSeam(); return r.Base.SourceQuality() }

func (r *repStub) meta() meta {
	return meta{r.spec.Type, r.spec.Lang, r.spec.Charset, r.spec.Enc, r.loc.String()}
}

func (r *repStub) Bytes() ([]byte, error) {
	c := ctxOf()
	var op *Op
	call := 0
	if c != nil {
		op = c.op
		call = c.calls["bytes:"+strconv.Itoa(r.idx)]
	}
	ne := 0
	if c != nil {
		ne = len(c.errs)
	}
	f, ferr := c.hit("bytes", r.idx)
	var b []byte
	var err error
	if ferr != nil {
		err = ferr
		if f.A == 1 { // what was produced before the failure comes along
			b = []byte(`{"partial":`)
		}
	} else {
		p := contentOf(r.idx, r.spec.Size, op, call)
		if r.spec.Kind == "raw" {
			b = []byte(fmt.Sprintf("raw %d/%d/%d/%d %s", p.Rep, p.Ver, p.Nonce, p.Call, p.Pad))
			if r.spec.Size == 0 && !(op != nil && op.Dyn) {
				b = []byte{}
			}
		} else {
			b, err = r.Base.Bytes(&p)
		}
	}
	if c != nil {
		rec := serialRec{rep: r.idx, call: call, meta: r.meta(), err: err, errs: c.errs[ne:]}
		rec.cp = append([]byte(nil), b...)
		c.serial = append(c.serial, rec)
		c.hold(fmt.Sprintf("bytes of representation %d", r.idx), b)
		simrt.Seam(12)
		c.touch(false)
	}
	return b, err
}

func (r *repStub) FromBytes(b []byte) error {
	var p payload
	return r.Base.FromBytes(b, &p)
}

// ---- list representations ----

type listStub struct {
	*representation.List
	kind string
	reps []representation.Representation // described when serialized
}

func listCtor(kind string) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		c := ctxOf()
		c.hit("ctor", -1)
		if c != nil {
			c.lists++
			c.kinds = append(c.kinds, kind)
		}
		l := &representation.List{}
		ct, cc, cl, ce := "application/json", "ascii", "en-US", []string{"identity"}
		switch kind {
		case "xml":
			ct = "application/xml"
		case "yaml":
			ct = "application/yaml"
		case "tyaml":
			ct, cc = "text/yaml", "utf-8"
		case "html":
			ct, cl = "text/html", "fr"
		case "gzip":
			ce = []string{"gzip"}
		case "bad":
			ct = "application/unknown"
		case "lvl":
			ct = "text/html;level=2"
		case "void":
			ct = "application/x-void"
		case "bare":
			cc, cl, ce = "", "", nil
		case "cgzip":
			ce = []string{"gzip"}
		case "cstack":
			ct, ce = "application/xml", []string{"x-frame", "compress"}
		case "cdeflate":
			ct, ce = "application/yaml", []string{"deflate"}
		}
		if kind[0] == 'c' {
			l.SetEncodingWriters(harnessWriters)
			l.SetEncodingReaders(harnessReaders)
			l.SetMarshallers(harnessMarshallers)
			l.SetUnmarshallers(harnessUnmarshallers)
		}
		l.SetContentType(ct)
		l.SetContentCharset(cc)
		l.SetContentEncoding(ce)
		l.SetContentLanguage(cl)
		if kind == "late" {
			return &listStub{l, kind, reps}
		}
		l.SetRepresentations(reps...)
		return &listStub{l, kind, nil}
	}
}

// ContentType is not known of every list.
func (l *listStub) ContentType() string {
	if l.kind == "untyped" {
		return ""
	}
	return l.List.ContentType()
}

func (l *listStub) Bytes() ([]byte, error) {
	c := ctxOf()
	ne := 0
	if c != nil {
		ne = len(c.errs)
	}
	_, ferr := c.hit("list", -1)
	var b []byte
	err := ferr
	if ferr == nil && l.kind == "void" {
		b = []byte{}
	} else if ferr == nil {
		d := *l.List
		d.SetRepresentations(l.reps...)
		b, err = d.Bytes()
	}
	if c != nil {
		m := meta{l.ContentType(), l.List.ContentLanguage(), l.List.ContentCharset(), l.List.ContentEncoding(), ""}
		c.serial = append(c.serial, serialRec{rep: -1, meta: m, cp: append([]byte(nil), b...), err: err, errs: c.errs[ne:]})
		c.hold("bytes of a list", b)
		simrt.Seam(12)
		c.touch(false)
	}
	return b, err
}

// ---- selection algorithm ----

type chooserStub struct {
	inner representation.Chooser
	mode  string
}

func (s *chooserStub) Choose(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	c := ctxOf()
	_, err := c.hit("choose", -1)
	if err != nil {
		c.chooseErr = true
		return nil, err
	}
	var rep representation.Representation
	switch s.mode {
	case "first":
		if len(reps) > 0 {
			rep = reps[0]
		}
	case "last":
		if len(reps) > 0 {
			rep = reps[len(reps)-1]
		}
	case "nil":
	case "wrap", "copy": // the real one's, in another form
		if rep, err = s.inner.Choose(r, reps...); rep == nil {
			break
		}
		if x := stubOf(rep); s.mode == "wrap" {
			rep = representation.RankedRepresentation{Representation: rep}
		} else if x != nil {
			rep = newRep(x.idx, x.spec).item()
		}
	default:
		rep, err = s.inner.Choose(r, reps...)
	}
	if c != nil {
		c.hit("chosen", -1)
	}
	return rep, err
}

// ---- response writer ----

type rw struct {
	c        *opCtx
	h        http.Header
	snap     http.Header
	status   int
	wh       int
	whLate   int
	writes   int
	body     []byte
	failed   bool
	after    int
	late     int
	writeErr bool
	aborted  any
	implicit bool
	hdrCalls int
}

func (w *rw) Header() http.Header {
	if w.c.ended {
		w.late++
	}
	w.hdrCalls++
	simrt.Seam(13)
	return w.h
}

func (w *rw) commit(code int) {
	w.status = code
	w.snap = w.h.Clone()
	if w.snap == nil {
		w.snap = http.Header{}
	}
}

func (w *rw) WriteHeader(code int) {
	if w.c.ended {
		w.late++
	}
	w.wh++
	if w.status == 0 {
		w.commit(code)
	} else {
		w.whLate++
	}
	if w.failed {
		w.after++
	}
	w.c.log("WriteHeader %d", code)
	defer func() {
		if p := recover(); p != nil {
			w.failed = true
			w.aborted = p
			panic(p)
		}
	}()
	w.c.hit("wheader", -1)
}

func (w *rw) Write(b []byte) (int, error) { return w.write(b, true) }

// WriteString makes it an io.StringWriter, as net/http's is.
func (w *rw) WriteString(s string) (int, error) { return w.write([]byte(s), false) }

// ReadFrom makes it an io.ReaderFrom.
func (w *rw) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 512)
	for {
		k, rerr := r.Read(buf)
		if k > 0 {
			m, werr := w.write(buf[:k], false)
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

// cut fails the connection once it has carried so many bytes.
func (c *opCtx) cut(had, n int) (int, error) {
	for i := range c.op.Faults {
		f := &c.op.Faults[i]
		if f.At == "write" && f.Kind == "cut" && int64(had+n) > f.A {
			c.fired[i]++
			err := errOf(f, "write", i)
			c.errs = append(c.errs, err.Error())
			c.errAt = append(c.errAt, "write")
			return max(int(f.A)-had, 0), err
		}
	}
	return n, nil
}

// Flush makes it an http.Flusher.
func (w *rw) Flush() {
	if w.status == 0 {
		w.implicit = true
		w.commit(200)
	}
}

func (w *rw) write(b []byte, own bool) (int, error) {
	if w.c.ended {
		w.late++
	}
	if w.status == 0 {
		w.implicit = true
		w.commit(200)
	}
	if w.failed {
		w.after++
		return 0, errors.New("write after failure")
	}
	w.writes++
	if own {
		w.c.hold("body handed to the response writer", b)
	}
	defer func() {
		if p := recover(); p != nil {
			w.failed = true
			w.aborted = p
			panic(p)
		}
	}()
	f, err := w.c.hit("write", -1)
	n := len(b)
	if err != nil {
		n = int(int64(len(b)) * f.A / 1000)
	} else if n, err = w.c.cut(len(w.body), n); err != nil {
		w.c.log("the connection fails at byte %d", len(w.body)+n)
	}
	if err != nil {
		w.failed = true
		w.writeErr = true
	}
	w.body = append(w.body, b[:n]...)
	w.c.log("Write %d of %d bytes", n, len(b))
	simrt.Seam(14)
	return n, err
}

// ---- metrics ----

type scopeStub struct {
	prefix string
	tags   map[string]string
	caps   int // 1: reports nothing, 2: has no tags
	own    int // the negotiator it was given to
}

func (s *scopeStub) full(name string) string {
	n := name
	if s.prefix != "" {
		n = s.prefix + "." + name
	}
	var ks []string
	for k := range s.tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i == 0 {
			n += "+"
		} else {
			n += ","
		}
		n += k + "=" + s.tags[k]
	}
	return n
}

func scopeSeam() { ctxOf().hit("scope", -1) }

func (s *scopeStub) Counter(name string) tally.Counter {
	scopeSeam()
	return &counterStub{s.full(name), s.own}
}
func (s *scopeStub) Gauge(name string) tally.Gauge { return gaugeStub{} }
func (s *scopeStub) Timer(name string) tally.Timer {
	scopeSeam()
	return &timerStub{s.full(name), s.own}
}
func (s *scopeStub) Histogram(name string, b tally.Buckets) tally.Histogram {
	return tally.NoopScope.Histogram(name, b)
}
func (s *scopeStub) Tagged(tags map[string]string) tally.Scope {
	m := map[string]string{}
	for k, v := range s.tags {
		m[k] = v
	}
	for k, v := range tags {
		m[k] = v
	}
	return &scopeStub{s.prefix, m, s.caps, s.own}
}
func (s *scopeStub) SubScope(name string) tally.Scope {
	p := name
	if s.prefix != "" {
		p = s.prefix + "." + name
	}
	return &scopeStub{p, s.tags, s.caps, s.own}
}
func (s *scopeStub) Capabilities() tally.Capabilities { return capStub{s.caps&1 == 0, s.caps&2 == 0} }

type capStub struct{ rep, tag bool }

func (c capStub) Reporting() bool { return c.rep }
func (c capStub) Tagging() bool   { return c.tag }

type gaugeStub struct{}

func (gaugeStub) Update(float64) {}

type counterStub struct {
	name string
	own  int
}

// from is the name as the scope of another negotiator reports it.
func (c *opCtx) from(name string, own int) string {
	if c.op.Kind == "neg" && own != c.op.Neg {
		return fmt.Sprintf("%s (in the scope of negotiator %d)", name, own)
	}
	return name
}

func (s *counterStub) Inc(n int64) {
	c := ctxOf()
	if c == nil {
		return
	}
	c.hit("scope", -1)
	c.counts[c.from(s.name, s.own)] += n
	c.log("counter %s +%d", s.name, n)
}

type timerStub struct {
	name string
	own  int
}

func (s *timerStub) Record(d time.Duration) {
	c := ctxOf()
	if c == nil {
		return
	}
	c.samples = append(c.samples, sample{c.from(s.name, s.own), simrt.Nanos() - int64(d), simrt.Nanos()})
	c.log("timer %s %v", s.name, d)
	c.hit("scope", -1)
}

func (s *timerStub) Start() tally.Stopwatch {
	scopeSeam()
	return tally.NewStopwatch(simrt.Now(), s)
}

func (s *timerStub) RecordStopwatch(start time.Time) { s.Record(simrt.Since(start)) }

// ---- logs ----

type coreStub struct {
	zapcore.LevelEnabler
	enc zapcore.Encoder
}

func newLogger(kind string) *zap.Logger {
	if kind == "" {
		return nil
	}
	lvl := zapcore.DebugLevel
	switch kind {
	case "info":
		lvl = zapcore.InfoLevel
	case "error":
		lvl = zapcore.ErrorLevel
	}
	core := &coreStub{lvl, zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig())}
	opts := []zap.Option{zap.ErrorOutput(zapcore.AddSync(discard{})), zap.WithFatalHook(zapcore.WriteThenPanic)}
	if kind == "dev" {
		opts = append(opts, zap.Development(), zap.AddCaller())
	}
	return zap.New(core, opts...)
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

func (s *coreStub) With(fs []zapcore.Field) zapcore.Core {
	e := s.enc.Clone()
	for _, f := range fs {
		f.AddTo(e)
	}
	return &coreStub{s.LevelEnabler, e}
}
func (s *coreStub) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if s.Enabled(e.Level) {
		return ce.AddCore(e, s)
	}
	return ce
}
func (s *coreStub) Write(e zapcore.Entry, fs []zapcore.Field) error {
	c := ctxOf()
	buf, err := s.enc.EncodeEntry(e, fs) // evaluates lazy fields
	if err == nil {
		buf.Free()
	}
	if c == nil {
		return nil
	}
	c.logs++
	_, err = c.hit("log", -1)
	return err
}
func (s *coreStub) Sync() error {
	_, err := ctxOf().hit("log", -1)
	return err
}

// ---- helpers ----

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func splitList(v []string) []string {
	var out []string
	for _, s := range v {
		for _, p := range strings.Split(s, ",") {
			if p = strings.TrimSpace(p); p != "" {
				out = append(out, p)
			}
		}
	}
	return out
}
