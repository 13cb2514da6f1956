package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math"
	"net/http"
	"slices"
	"strconv"
	"strings"

	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
	"gopkg.in/yaml.v2"
)

const stepLimit = "step limit" // what simrt says of an operation that makes no progress

// judge checks one property over a finished execution.  It returns the
// violations and the number of operations in which the property was at stake.
func (w *world) judge(prop string) (vs []Violation, rel int) {
	vs, rel = w.judgeOps(prop, w.ops)
	vs = append(vs, w.floodVs...)
	if prop == "C05" {
		vs = append(vs, w.diffs...)
	}
	return vs, rel
}

func (w *world) judgeOps(prop string, ops []*opCtx) (vs []Violation, rel int) {
	bad := func(c *opCtx, kind, format string, a ...any) {
		if len(vs) < 30 {
			vs = append(vs, Violation{prop, kind, c.op.ID, fmt.Sprintf(format, a...) + "; outcome: " + c.out.brief()})
		}
	}
	jumped := false // does anything else move the clock?
	for _, c := range w.ops {
		for _, f := range c.op.Faults {
			jumped = jumped || f.Kind == "jump"
		}
	}
	for _, c := range ops {
		if !c.out.Started || c.op.Kind == "flood" {
			continue
		}
		at := false
		if c.out.Hung == stepLimit && !c.never {
			switch k := c.op.Kind; {
			case prop == "C13" && (k == "neg" || k == "choose"), prop >= "C14" && prop <= "C17" && k != "neg":
				at = true
				bad(c, "endless", "%s did not end", k)
			}
		}
		switch prop {
		case "C01", "C02", "C03":
			at = c.out.Done
			w.whole(c, bad)
		case "C05":
			at = c.out.Done && (c.op.Kind == "neg" || c.op.Kind == "choose")
		case "C06":
			at = w.untouched(c, bad)
		case "C07":
			at = w.committed(c, bad)
		case "C08":
			at = w.labelled(c, bad)
		case "C09":
			at = w.counted(c, bad)
		case "C10":
			at = w.timed(c, bad)
		case "C12":
			at = len(c.op.Faults) > 0 || c.probe
			if c.out.Hung != "" && !c.never {
				bad(c, "wedged", "%s never ended: %s", c.op.Kind, c.out.Hung)
			}
			if c.out.Done && len(c.op.Faults) == 0 && !jumped && c.end-c.begin > 20_000_000 {
				at = true
				bad(c, "delayed", "%s, itself without any delay, took %v because of others", c.op.Kind, durOf(c.end-c.begin))
			}
		case "C13":
			if c.op.Kind != "neg" && c.op.Kind != "choose" {
				continue
			}
			at = c.out.Done
			if c.ownPanic() {
				bad(c, "panic", "%s panicked: %s", c.op.Kind, c.out.Panic)
			}
		case "C14":
			at = w.serialized(c, bad)
		case "C15":
			at = w.deserialized(c, bad)
		case "C16":
			at = w.closed(c, bad)
		case "C17":
			at = w.roundTrip(c, bad)
		case "C20":
			at = c.out.Done
			w.optioned(c, bad)
		case "C19":
			for i := range c.held {
				h := &c.held[i]
				at = true
				if !bytes.Equal(h.ref, h.cp) {
					bad(c, "slice changed", "%s changed while it was held: %s", h.what, diffBytes(h.cp, h.ref))
				}
			}
		default:
			at = c.out.Done
		}
		if at {
			rel++
		}
	}
	return vs, rel
}

func diffBytes(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	cut := func(x []byte) []byte { return x[min(n, len(x)):min(n+40, len(x))] }
	return fmt.Sprintf("at byte %d of %d: was %q, is %q", n, len(a), cut(a), cut(b))
}

// ownPanic tells a panic of the library from an injected one.
func (c *opCtx) ownPanic() bool {
	if c.panicVal == nil {
		return false
	}
	for _, v := range c.panics {
		if c.samePanic(v) {
			return false
		}
	}
	return !c.samePanic(http.ErrAbortHandler)
}

func (c *opCtx) samePanic(v any) (same bool) {
	defer func() { _ = recover() }() // uncomparable
	return c.panicVal == v
}

type badFn = func(c *opCtx, kind, format string, a ...any)

func sameHeader(a, b http.Header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if !sameStrings(v, b[k]) {
			return false
		}
	}
	return true
}

// C06
func (w *world) untouched(c *opCtx, bad badFn) bool {
	if c.op.Kind != "neg" || !c.out.Done || c.panicVal != nil {
		return false
	}
	neg := &w.cs.Negs[c.op.Neg]
	offered := w.cs.Slices[c.op.Slice].Reps
	at := false
	serr := false
	for _, r := range c.serial {
		serr = serr || r.err != nil
	}
	if c.retErr != nil && !c.rw.failed {
		at = true
		// nothing failed once the response had started, so it must not have.
		if c.rw.wh != 0 || c.rw.status != 0 || c.rw.writes != 0 {
			bad(c, "response started", "the negotiation failed before its response, yet status %d and %d bytes were sent (%v)", c.rw.status, len(c.rw.body), c.retErr)
		} else if !sameHeader(c.rw.h, w.presetHeader(c.op)) {
			bad(c, "headers touched", "the negotiation failed, yet the response headers are %v", c.rw.h)
		}
	}
	must := func(why string) {
		at = true
		if c.retErr == nil {
			bad(c, "failure not returned", "%s, yet Negotiate returned no error", why)
		}
	}
	if neg.Type == "transparent" && len(offered) > 0 {
		m := 10
		if neg.MaxVar != 0 && !neg.Default {
			m = max(neg.MaxVar, 1)
		}
		if len(offered) > m {
			must(fmt.Sprintf("%d variants exceed the maximum of %d", len(offered), m))
			if c.retErr != nil && !errors.Is(c.retErr, transparent.ErrVariantListSizeExceeded) {
				bad(c, "another failure returned", "%d variants exceed the maximum of %d", len(offered), m)
			}
			return true
		}
	}
	if c.chooseErr {
		must("the selection algorithm failed")
		if c.retErr != nil && !c.injectedAt("choose", c.retErr) {
			bad(c, "another failure returned", "the selection algorithm failed")
		}
	}
	q := c.spec()
	if !q.NilHdr && len(offered) > 0 && neg.Type == "proactive" {
		for _, k := range q.Bad {
			if (k == "Accept" || k == "Accept-Language" || k == "Accept-Charset") && q.malformed(k) {
				must(fmt.Sprintf("%s is malformed (%q)", k, q.Header[k]))
			}
		}
	}
	if !q.NilHdr && len(offered) > 0 && neg.real() {
		chosen := neg.Type == "proactive" && !neg.noBody()
		if neg.Type == "transparent" {
			if k := "Negotiate"; contains(q.Header[k], "") {
				must(fmt.Sprintf("%s is malformed (%q)", k, q.Header[k]))
			} else {
				chosen = contains(q.Header[k], "*") || contains(q.Header[k], "1.0") || contains(q.Header[k], "guess-small")
			}
		}
		if chosen { // by an algorithm that parses what it considers
			for _, k := range q.Bad {
				if q.malformed(k) && (k == "Accept" || k == "Accept-Language" || k == "Accept-Charset" || k == "Accept-Encoding" && neg.Type == "proactive" && containsOf(q.Header[k], malformedEncoding)) {
					must(fmt.Sprintf("%s is malformed (%q)", k, q.Header[k]))
				}
			}
		}
	}
	if serr {
		must("a representation or list could not be serialized")
	}
	return at
}

// C07
func (w *world) committed(c *opCtx, bad badFn) bool {
	if c.op.Kind != "neg" {
		return false
	}
	r := c.rw
	if r == nil {
		return false
	}
	if r.wh > 1 || r.whLate > 0 {
		bad(c, "status sent twice", "WriteHeader was called %d times, %d of them after the status had been sent", r.wh, r.whLate)
	}
	if r.status != 0 && !sameHeader(r.h, r.snap) {
		bad(c, "headers after the status", "headers %v were still changed after the status was sent: %v", r.snap, r.h)
	}
	if r.after > 0 {
		bad(c, "write after failure", "%d more calls after the connection had failed", r.after)
	}
	if r.late > 0 {
		bad(c, "write after return", "%d calls on the response after Negotiate had returned", r.late)
	}
	if !c.out.Done {
		return r.writes > 0
	}
	if r.writeErr {
		if c.panicVal != nil {
			bad(c, "failure not returned", "the write failed and Negotiate panicked")
		} else if c.retErr == nil {
			bad(c, "failure not returned", "the write failed after %d bytes, yet Negotiate returned no error", len(r.body))
		} else if !c.injectedAt("write", c.retErr) {
			bad(c, "another failure returned", "the write failed, but the error is another one")
		}
	}
	if r.aborted != nil && !c.samePanic(r.aborted) {
		bad(c, "abort lost", "the connection aborted with %v, which did not reach the caller unchanged", r.aborted)
	}
	if c.retErr == nil && c.panicVal == nil && r.status == 0 {
		bad(c, "no response", "Negotiate reported success and sent nothing")
	}
	return r.status != 0
}

// ---- C08 ----

type metaDoc struct {
	ContentType     string   `json:"contentType"`
	ContentLanguage string   `json:"contentLanguage"`
	ContentEncoding []string `json:"contentEncoding"`
	ContentLocation string   `json:"contentLocation"`
	ContentCharset  string   `json:"contentCharset"`
	ContentFeatures []string `json:"contentFeatures"`
	SourceQuality   float32  `json:"sourceQuality"`
}

type listDoc struct {
	Representations []metaDoc `json:"representations"`
}

func plain(ss ...string) bool {
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			if s[i] < 32 || s[i] > 126 {
				return false
			}
		}
	}
	return true
}

// wantList is what a list over a slice of representations must say; ok is
// false when the metadata cannot be compared after encoding.
func (w *world) wantList(c *opCtx) (d listDoc, ok bool) {
	ok = true
	for _, i := range w.cs.Slices[c.op.Slice].Reps {
		r := w.rep(c, i)
		s, l := r.spec, r.loc
		m := metaDoc{s.Type, s.Lang, s.Enc, (&l).String(), s.Charset, s.Features, s.SQ}
		if s.Nil {
			m.ContentEncoding = nil
		}
		d.Representations = append(d.Representations, m)
		if !plain(m.ContentType, m.ContentLanguage, m.ContentLocation, m.ContentCharset) || !plain(m.ContentEncoding...) || !plain(m.ContentFeatures...) {
			ok = false
		}
	}
	return
}

func decodeList(ct string, enc []string, b []byte) (d listDoc, err error) {
	if b, err = refDecode(enc, b, true); err != nil {
		return
	}
	switch baseType(ct) {
	case "application/json", "": // an untyped list is JSON
		err = json.Unmarshal(b, &d)
	case "application/yaml", "text/yaml":
		err = yaml.Unmarshal(b, &d)
	case "application/xml", "text/html":
		err = xml.Unmarshal(b, &d)
	default:
		err = fmt.Errorf("unknown list type %q", ct)
	}
	return
}

func sameList(a, b listDoc) (string, bool) {
	if len(a.Representations) != len(b.Representations) {
		return fmt.Sprintf("%d entries instead of %d", len(b.Representations), len(a.Representations)), false
	}
	for i := range a.Representations {
		x, y := a.Representations[i], b.Representations[i]
		if x.ContentType != y.ContentType || x.ContentLanguage != y.ContentLanguage || x.ContentLocation != y.ContentLocation ||
			x.ContentCharset != y.ContentCharset || x.SourceQuality != y.SourceQuality ||
			!sameStrings(x.ContentEncoding, y.ContentEncoding) || !sameStrings(x.ContentFeatures, y.ContentFeatures) {
			return fmt.Sprintf("entry %d is %s instead of %s", i, jsonOf(y), jsonOf(x)), false
		}
	}
	return "", true
}

// one is the value of a header sent at most once; an absent header is empty.
func one(h http.Header, k string) (string, bool) {
	v := h[k]
	if len(v) == 0 {
		return "", true
	}
	return v[0], len(v) == 1
}

func (w *world) labelled(c *opCtx, bad badFn) bool {
	if c.op.Kind != "neg" || !c.out.Done || c.panicVal != nil || c.retErr != nil {
		return false
	}
	r := c.rw
	h := r.snap
	switch r.status {
	case 200, 201, 300, 406:
	case 204:
		if len(r.body) > 0 {
			bad(c, "body with 204", "a body was sent with 204")
		}
		return false
	default:
		return false
	}
	clen, one1 := one(h, "Content-Length")
	if r.status == 406 && len(r.body) == 0 && clen == "" && w.cs.Negs[c.op.Neg].noBody() {
		return false
	}
	if !one1 || clen != strconv.Itoa(len(r.body)) {
		bad(c, "content length", "Content-Length is %q for a body of %d bytes", h["Content-Length"], len(r.body))
	}
	ct, o1 := one(h, "Content-Type")
	cl, o2 := one(h, "Content-Language")
	cc, o3 := one(h, "Content-Charset")
	loc, o4 := one(h, "Content-Location")
	ce := splitList(h["Content-Encoding"])
	if !o1 || !o2 || !o3 || !o4 || len(h["Content-Encoding"]) > 1 {
		bad(c, "labelled twice", "more than one value for a header of the body: %v", h)
		return true
	}
	list := r.status == 300 || r.status == 406
	why := "no successful serialization gave this body"
	for i := range c.serial {
		s := &c.serial[i]
		if s.err != nil || !bytes.Equal(s.cp, r.body) {
			continue
		}
		if list != (s.rep < 0) {
			why = fmt.Sprintf("status %d, but the body is the serialization of representation %d", r.status, s.rep)
			continue
		}
		m := s.meta
		switch {
		case ct != m.ct:
			why = fmt.Sprintf("Content-Type %q, but the body is of type %q", ct, m.ct)
		case cl != m.cl:
			why = fmt.Sprintf("Content-Language %q, but the body's is %q", cl, m.cl)
		case cc != m.cc:
			why = fmt.Sprintf("Content-Charset %q, but the body's is %q", cc, m.cc)
		case !sameStrings(ce, splitList(m.ce)):
			why = fmt.Sprintf("Content-Encoding %q, but the body's is %q", ce, m.ce)
		case !list && loc != m.loc:
			why = fmt.Sprintf("Content-Location %q, but the body's is %q", loc, m.loc)
		default:
			why = ""
		}
		if why == "" {
			if !list && len(s.errs) == 0 && w.rep(c, s.rep).spec.Kind == "doc" {
				w.complete(c, s, bad) // coded as the label says
			}
			break
		}
	}
	if list && why == "" && ct == "application/x-void" {
		return true // an application's own list, of no bytes
	}
	if list && (why == "" || c.lists == 0) {
		// also the library's own lists, which carry no stub: the list must be whole.
		want, ok := w.wantList(c)
		got, err := decodeList(ct, ce, r.body)
		if err != nil {
			if why == "" || c.lists == 0 {
				bad(c, "list", "the list body does not decode as labelled: %v", err)
			}
		} else if d, same := sameList(want, got); ok && !same {
			bad(c, "list", "the list is not the one offered: %s", d)
		}
		if c.lists == 0 {
			return true
		}
	}
	if why != "" && !(list && w.ownList(c, ct, ce, r.body)) {
		bad(c, "label", "%s", why)
	}
	return true
}

// whole checks that lists of a request's own representations are complete:
// the body of a list response, and the Alternates header.
func (w *world) whole(c *opCtx, bad badFn) {
	if c.op.Kind != "neg" || !c.out.Done || c.panicVal != nil || c.retErr != nil || c.rw == nil || c.rw.status == 204 {
		return
	}
	want, ok := w.wantList(c)
	if !ok {
		return
	}
	r := c.rw
	if (r.status == 300 || r.status == 406) && len(r.body) > 0 && len(r.snap["Content-Type"]) == 1 {
		got, err := decodeList(r.snap["Content-Type"][0], splitList(r.snap["Content-Encoding"]), r.body)
		if err == nil { // or C08 says so
			if d, same := sameList(want, got); !same {
				bad(c, "list", "the list is not the one offered: %s", d)
			}
		}
	}
	if w.cs.Negs[c.op.Neg].Type != "transparent" || r.status != 300 && r.status != 200 {
		return
	}
	a := r.snap["Alternates"]
	if len(a) != 1 {
		bad(c, "alternates", "the response has %d Alternates headers", len(a))
		return
	}
	for _, m := range want.Representations {
		if strings.ContainsAny(m.ContentType+m.ContentLanguage+m.ContentCharset+m.ContentLocation+strings.Join(m.ContentFeatures, ""), "{}\"\\") {
			return // as listed, these could be read in two ways
		}
	}
	got, fallback, ok := parseAlternates(a[0])
	if !ok {
		bad(c, "alternates", "Alternates is malformed: %s", a[0])
		return
	}
	left := append([]metaDoc(nil), got...)
	for _, m := range want.Representations {
		found := false
		for i, x := range left {
			if x.ContentLocation == m.ContentLocation && x.ContentType == squeeze(m.ContentType) && x.ContentCharset == squeeze(m.ContentCharset) && x.ContentLanguage == squeeze(m.ContentLanguage) &&
				strings.Join(x.ContentFeatures, " ") == squeeze(strings.Join(m.ContentFeatures, " ")) && math.Abs(float64(x.SourceQuality)-float64(m.SourceQuality)) <= 0.0006*max(1, math.Abs(float64(m.SourceQuality))) {
				left = append(left[:i], left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			bad(c, "alternates", "Alternates does not have %s: %s", jsonOf(m), a[0])
			return
		}
	}
	if len(left) > 0 {
		bad(c, "alternates", "Alternates has %s, which was not offered: %s", jsonOf(left[0]), a[0])
	}
	for _, f := range fallback {
		known := false
		for _, m := range want.Representations {
			known = known || m.ContentLocation == f
		}
		if !known {
			bad(c, "alternates", "the fallback variant %q was not offered: %s", f, a[0])
		}
	}
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// parseAlternates reads an Alternates header, whatever its spaces and the
// order of its attributes.
func parseAlternates(s string) (l []metaDoc, fallback []string, ok bool) {
	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(s), ",")) {
		if s[0] != '{' {
			return nil, nil, false
		}
		depth, end := 0, -1
		for i := 0; i < len(s) && end < 0; i++ {
			switch s[i] {
			case '{':
				depth++
			case '}':
				if depth--; depth == 0 {
					end = i
				}
			}
		}
		if end < 0 {
			return nil, nil, false
		}
		in := strings.TrimSpace(s[1:end])
		s = s[end+1:]
		if in == "" || in[0] != '"' || strings.IndexByte(in[1:], '"') < 0 {
			return nil, nil, false
		}
		n := strings.IndexByte(in[1:], '"') + 1
		m := metaDoc{ContentLocation: in[1:n]}
		if in = strings.TrimSpace(in[n+1:]); in == "" {
			fallback = append(fallback, m.ContentLocation)
			continue
		}
		q, rest, _ := strings.Cut(in, "{")
		f, err := strconv.ParseFloat(strings.TrimSpace(q), 64)
		if err != nil {
			return nil, nil, false
		}
		m.SourceQuality = float32(f)
		for _, a := range strings.Split(rest, "{") {
			k, v, _ := strings.Cut(strings.TrimSpace(strings.Replace(a, "}", "", 1)), " ")
			v = squeeze(v)
			switch k {
			case "type":
				m.ContentType = v
			case "charset":
				m.ContentCharset = v
			case "language":
				m.ContentLanguage = v
			case "features":
				if v != "" {
					m.ContentFeatures = strings.Split(v, " ")
				}
			}
		}
		l = append(l, m)
	}
	return l, fallback, true
}

// ownList reports whether the body is a whole list of the library's own, for
// negotiators with both kinds of lists.
func (w *world) ownList(c *opCtx, ct string, ce []string, b []byte) bool {
	want, ok := w.wantList(c)
	got, err := decodeList(ct, ce, b)
	if err != nil {
		return false
	}
	_, same := sameList(want, got)
	n := &w.cs.Negs[c.op.Neg]
	return (same || !ok) && n.Type == "proactive" && (n.Lists == nil || n.DefList == "")
}

// real reports whether the algorithm is the library's own.
func (n *NegSpec) real() bool {
	switch n.Chooser {
	case "", "real", "wrap", "copy":
		return true
	}
	return n.Default
}

func containsOf(l, of []string) bool {
	for _, s := range of {
		if contains(l, s) {
			return true
		}
	}
	return false
}

func (n *NegSpec) noBody() bool {
	for _, o := range n.Opts {
		if o == "noNAR" {
			return true
		}
	}
	return false
}

// C09
func (w *world) counted(c *opCtx, bad badFn) bool {
	n := &w.cs.Negs[c.op.Neg]
	if c.op.Kind != "neg" || !c.out.Done || c.panicVal != nil || !n.Scope || n.Default {
		return false
	}
	tag := "+negotiator=" + n.Type
	want := map[string]int64{}
	if c.retErr != nil {
		want["negotiate.error"+tag] = 1
	} else if n.Type != "transparent" {
		switch c.out.Status {
		case 200, 201:
			want["negotiate.acceptable"+tag] = 1
		case 406:
			want["negotiate.not_acceptable"+tag] = 1
		case 300:
			want["negotiate.multiple_choices"+tag] = 1
		case 204:
			want["negotiate.no_content"+tag] = 1
		}
	}
	got := map[string]int64{}
	for k, v := range c.counts {
		if n.Type == "transparent" && k != "negotiate.error"+tag && strings.HasSuffix(k, tag) {
			continue // the documentation promises the error counter only
		}
		if v != 0 {
			got[k] = v
		}
	}
	if jsonOf(got) != jsonOf(want) {
		bad(c, "counters", "counted %s, expected %s", jsonOf(got), jsonOf(want))
	}
	return true
}

// C10
func (w *world) timed(c *opCtx, bad badFn) bool {
	n := &w.cs.Negs[c.op.Neg]
	if c.op.Kind != "neg" || !c.out.Done || !n.Scope || n.Default {
		return false
	}
	name := "negotiate+negotiator=" + n.Type
	k := 0
	for _, s := range c.samples {
		if s.name != name {
			bad(c, "timer name", "a sample was reported on timer %q, not %q", s.name, name)
			continue
		}
		k++
		d := s.end - s.start
		if min := c.lastSeam - c.firstSeam; c.seamed && d < min {
			bad(c, "time missing", "the sample says %dns, but calls made by the negotiation span %dns", d, min)
		}
		if max := c.end - c.begin; d > max {
			bad(c, "time added", "the sample says %dns, but the whole negotiation took %dns", d, max)
		}
	}
	if k != 1 {
		bad(c, "samples", "%d samples on the negotiate timer instead of one", k)
	}
	return true
}

// ---- codings ----

func (s *RepSpec) supported() bool {
	if refMarshal[baseType(s.Type)] == nil || baseType(s.Type) == blobType && !s.Coders {
		return false
	}
	if !isCoded(s.Enc) {
		return true
	}
	for _, e := range s.Enc {
		l := strings.ToLower(e)
		if l == "x-frame" && !s.Coders {
			return false
		}
		ok := false
		for _, k := range codings {
			ok = ok || k == l
		}
		if !ok {
			return false
		}
	}
	return true
}

func containsAny(s string, toks []string) bool {
	for _, t := range toks {
		if strings.Contains(s, t) {
			return true
		}
	}
	return false
}

// C14
func (w *world) serialized(c *opCtx, bad badFn) bool {
	at := false
	for i := range c.serial {
		r := &c.serial[i]
		if r.rep < 0 {
			at = at || len(r.errs) > 0
			w.listed(c, r, bad)
			continue
		}
		if w.rep(c, r.rep).spec.Kind == "raw" {
			continue
		}
		at = true
		if len(r.errs) > 0 {
			if r.err == nil {
				bad(c, "failure not returned", "%v was injected while representation %d was serialized, yet %d bytes were returned without an error", r.errs, r.rep, len(r.cp))
			} else if w.rep(c, r.rep).spec.supported() && !containsAny(r.err.Error(), r.errs) {
				bad(c, "another failure returned", "%v was injected while representation %d was serialized, but the error is %v", r.errs, r.rep, r.err)
			}
			continue
		}
		if r.err == nil {
			w.complete(c, r, bad)
		}
	}
	if c.op.Kind == "bytes" && c.out.Done && len(c.panics) == 0 && c.ownPanic() { // closing a coder that panicked may panic again
		bad(c, "panic", "serialization panicked")
	}
	return at
}

// listed checks the serialization of a list.
func (w *world) listed(c *opCtx, r *serialRec, bad badFn) {
	if c.op.Kind != "neg" && c.op.Kind != "list" || r.meta.ct == "application/x-void" {
		return
	}
	if len(r.errs) > 0 {
		if r.err == nil {
			bad(c, "failure not returned", "%v was injected while a list was serialized, yet %d bytes were returned without an error", r.errs, len(r.cp))
		} else if !containsAny(r.err.Error(), r.errs) && r.meta.ct != "application/unknown" {
			bad(c, "another failure returned", "%v was injected while a list was serialized, but the error is %v", r.errs, r.err)
		}
		return
	}
	if r.err != nil {
		return
	}
	want, ok := w.wantList(c)
	got, err := decodeList(r.meta.ct, r.meta.ce, r.cp)
	if err != nil {
		if ok {
			bad(c, "incomplete", "bytes of a list (%s, %v) were returned without an error, but do not decode: %v", r.meta.ct, r.meta.ce, err)
		}
	} else if d, same := sameList(want, got); ok && !same {
		bad(c, "incomplete", "bytes of a list (%s, %v) do not hold the whole list: %s", r.meta.ct, r.meta.ce, d)
	}
}

// complete checks that serialized bytes decode to the whole content.
func (w *world) complete(c *opCtx, r *serialRec, bad badFn) {
	s := w.rep(c, r.rep).spec
	got, err := decodePayload(s.Type, s.Enc, r.cp)
	if err != nil {
		bad(c, "incomplete", "bytes of representation %d (%s, %v) were returned without an error, but do not decode: %v", r.rep, s.Type, s.Enc, err)
		return
	}
	if want := contentOf(r.rep, s.Size, c.op, r.call); !samePayload(got, want) {
		bad(c, "incomplete", "bytes of representation %d (%s, %v) decode to %.200s instead of %.200s", r.rep, s.Type, s.Enc, jsonOf(got), jsonOf(want))
	}
}

// C15
func (w *world) deserialized(c *opCtx, bad badFn) bool {
	if c.op.Kind != "frombytes" && !(c.op.Kind == "round" && c.mid) {
		return false
	}
	if !c.out.Done {
		return false
	}
	if len(c.panics) == 0 && c.ownPanic() {
		bad(c, "panic", "deserialization panicked")
		return true
	}
	if c.panicVal != nil {
		return false
	}
	s := &w.cs.Reps[c.op.Rep]
	if errs := c.errs[c.decoding:]; len(errs) > 0 {
		if c.retErr == nil {
			bad(c, "failure not returned", "%v was injected during deserialization (%v), which returned content without an error", errs, s.Enc)
		}
		return true
	}
	if c.op.Kind == "frombytes" && c.retErr == nil {
		// the unmarshaller sees the decoded bytes, even when there are none.
		if f := refUnmarshal[baseType(s.Type)]; f != nil {
			if p, err := refDecode(s.Enc, c.input, false); err == nil {
				var v payload
				if err = f(p, &v); err != nil {
					bad(c, "failure not returned", "the %s unmarshaller fails on the %d decoded bytes (%v), yet deserialization returned no error", s.Type, len(p), err)
				}
			}
		}
	}
	if c.op.Damage == nil && c.op.Kind == "frombytes" && c.got != nil && s.supported() {
		if want := contentOf(c.op.Rep, s.Size, c.op, 0); !samePayload(*c.got, want) {
			bad(c, "other content", "well-formed bytes (%s, %v) deserialized into %.200s instead of %.200s", s.Type, s.Enc, jsonOf(*c.got), jsonOf(want))
		}
	}
	if c.op.Kind == "round" || c.got == nil || !isCoded(s.Enc) {
		return c.op.Kind == "round" || c.op.Damage != nil
	}
	under := s.Enc
	if l := c.op.Damage.layer(s); l > 0 {
		under = under[:l]
	}
	if c.op.Damage != nil && (c.op.Damage.Kind == "trunc" || checksummed(under)) {
		want := contentOf(c.op.Rep, s.Size, c.op, 0)
		if !samePayload(*c.got, want) && !undetectable(s, c.input, *c.got) {
			bad(c, "damaged content", "bytes damaged by %s deserialized (%v) without an error into %.200s instead of %.200s", jsonOf(c.op.Damage), s.Enc, jsonOf(*c.got), jsonOf(want))
		}
		return true
	}
	return false
}

// undetectable: the damaged bytes are a valid encoding of what was returned.
func undetectable(s *RepSpec, b []byte, got payload) bool {
	p, err := decodePayload(s.Type, s.Enc, b)
	return err == nil && samePayload(p, got)
}

// C16
func (w *world) closed(c *opCtx, bad badFn) bool {
	for _, r := range c.coders {
		dir := "writer"
		if r.dir == "r" {
			dir = "reader"
		}
		if r.useAfter > 0 {
			bad(c, "used after close", "%s %d (%s) was used after it had been closed", dir, r.idx, r.name)
		}
		if !c.out.Done || c.panicVal != nil {
			if r.closed > 1 {
				bad(c, "closed twice", "%s %d (%s) was closed %d times", dir, r.idx, r.name, r.closed)
			}
			continue
		}
		switch {
		case r.closed > 1:
			bad(c, "closed twice", "%s %d (%s) was closed %d times", dir, r.idx, r.name, r.closed)
		case r.atEnd == 0:
			bad(c, "not closed", "%s %d (%s) was not closed when the call returned", dir, r.idx, r.name)
		}
	}
	return len(c.coders) > 0
}

// C17
func (w *world) roundTrip(c *opCtx, bad badFn) bool {
	if !c.out.Done || c.panicVal != nil {
		if c.out.Done && c.ownPanic() {
			bad(c, "panic", "%s panicked", c.op.Kind)
		}
		return false
	}
	if len(c.errs) > 0 {
		return false
	}
	switch c.op.Kind {
	case "bytes", "round":
		s := &w.cs.Reps[c.op.Rep]
		if s.Kind == "raw" {
			return false
		}
		if len(c.serial) == 0 {
			return false
		}
		r := &c.serial[0]
		if !s.supported() {
			return false
		}
		if r.err != nil {
			bad(c, "refused", "representation %d (%s, %v) could not be serialized: %v", c.op.Rep, s.Type, s.Enc, r.err)
			return true
		}
		w.complete(c, r, bad)
		if c.op.Kind == "round" {
			if c.retErr != nil {
				bad(c, "round trip", "representation %d (%s, %v) could not be deserialized again: %v", c.op.Rep, s.Type, s.Enc, c.retErr)
			} else if want := contentOf(c.op.Rep, s.Size, c.op, 0); !samePayload(*c.got, want) {
				bad(c, "round trip", "representation %d (%s, %v) came back as %.200s instead of %.200s", c.op.Rep, s.Type, s.Enc, jsonOf(*c.got), jsonOf(want))
			}
		}
		return true
	case "frombytes":
		s := &w.cs.Reps[c.op.Rep]
		if c.op.Damage != nil || !s.supported() {
			return false
		}
		if c.retErr != nil {
			bad(c, "refused", "well-formed bytes (%s, %v) could not be deserialized: %v", s.Type, s.Enc, c.retErr)
		} else if want := contentOf(c.op.Rep, s.Size, c.op, 0); !samePayload(*c.got, want) {
			bad(c, "decoding", "well-formed bytes (%s, %v) deserialized into %.200s instead of %.200s", s.Type, s.Enc, jsonOf(*c.got), jsonOf(want))
		}
		return true
	case "list":
		k := listKinds[c.op.N%len(listKinds)]
		want, ok := w.wantList(c)
		if k == "bad" || !ok {
			return false
		}
		if c.retErr != nil {
			bad(c, "refused", "list %s could not be serialized and read back: %v", k, c.retErr)
			return true
		}
		var got listDoc
		if err := json.Unmarshal([]byte(c.out.Value), &got.Representations); err != nil {
			return false
		}
		if d, same := sameList(want, got); !same {
			bad(c, "list", "list %s came back different: %s", k, d)
		}
		return true
	}
	return false
}

// C20: what the options say, whatever the rest of the process did.
func (w *world) optioned(c *opCtx, bad badFn) {
	offered := w.cs.Slices[c.op.Slice].Reps
	if c.op.Kind != "neg" || !c.out.Done || c.panicVal != nil || len(offered) == 0 {
		return
	}
	var (
		s      = &w.cs.Negs[c.op.Neg]
		q      = c.spec()
		status = c.rw.status
		has    = func(o string) bool { return slices.Contains(s.Opts, o) }
		lists  = map[string]bool{}
	)
	add := func(ks ...string) {
		for _, k := range ks {
			lists[k] = true
		}
	}
	if !s.Default {
		if s.DefList != "" {
			add(s.DefList)
		}
		if s.Type == "proactive" {
			add(s.Lists...)
			switch s.Hook {
			case "replace", "append":
				add("html")
			case "trim":
				add("tyaml")
			}
		}
	}
	for _, k := range c.kinds {
		if !lists[k] {
			bad(c, "list of others", "the list constructor %q was called, which the negotiator was not built with", k)
		}
	}
	list := status == 300 || status == 406
	if list && c.lists == 0 && c.retErr == nil && !(s.Type == "proactive" && has("noNAR")) {
		ct := c.rw.snap.Get("Content-Type")
		if ct != "application/json" && (s.Type != "proactive" || ct != "application/xml" && ct != "application/yaml") {
			bad(c, "default list", "a %d response has the type %q, which no default list has", status, ct)
		}
	}
	if c.lists == 0 && len(c.errs) == 0 && errors.Is(c.retErr, representation.ErrUnsupportedContentType) &&
		!slices.ContainsFunc(c.serial, func(r serialRec) bool { return r.err != nil }) {
		bad(c, "default list", "a default list could not be serialized")
	}
	// a response that was started needs what the options gave for it
	asked := c.calls["choose:-1"] > 0
	if s.Chooser != "" && !asked && (status == 200 || status == 201) {
		bad(c, "algorithm", "the answer is %d, and the algorithm of the negotiator was not asked", status)
	}
	if s.Scope && s.Type != "transparent" && len(c.counts) == 0 {
		bad(c, "scope", "nothing was counted in the scope of the negotiator")
	}
	if c.lists == 0 && !s.Default && (s.DefList != "" && (status == 300 || status == 406 && !has("noNAR") && (s.Lists != nil || s.Chooser == "nil")) ||
		status == 406 && !has("noNAR") && len(s.Lists) > 0 && (s.Chooser == "first" || s.Chooser == "last")) {
		bad(c, "default list", "the answer is %d, and no list constructor of the negotiator (%v %q) was called", status, s.Lists, s.DefList)
	}
	switch s.Type {
	case "proactive":
		if status == 406 && has("noNAR") && (len(c.rw.body) > 0 || c.lists > 0 || len(c.serial) > 0 && c.serial[len(c.serial)-1].rep < 0) {
			bad(c, "list", "the representation of 406 responses is disabled, yet a list was made")
		}
		lenient := has("strict") || has("strictA") && has("strictL") && has("strictC")
		if status == 406 && lenient && (s.Chooser == "first" || s.Chooser == "last") {
			bad(c, "not acceptable", "strict mode is off and the algorithm chose, yet the answer is 406")
		}
		if s.Chooser == "nil" && status != 406 && c.retErr == nil {
			bad(c, "acceptable", "the algorithm never chooses, yet the answer is %d", status)
		}
		if !has("strict") && !has("strictA") && c.retErr == nil && status != 406 && w.noType(c, q, offered) {
			bad(c, "acceptable", "strict mode is on and no offered type is acceptable, yet the answer is %d", status)
		}
	case "reactive":
		if status != 300 && c.retErr == nil {
			bad(c, "status", "the answer is %d", status)
		}
	case "transparent":
		m := 10
		if s.MaxVar != 0 && !s.Default {
			m = max(s.MaxVar, 1)
		}
		exceeded := errors.Is(c.retErr, transparent.ErrVariantListSizeExceeded)
		if exceeded != (len(offered) > m) && len(c.errs) == 0 {
			bad(c, "maximum", "%d variants, at most %d, and the error is %v", len(offered), m, c.retErr)
		}
		if s.Chooser == "nil" && status != 300 && c.retErr == nil {
			bad(c, "choice", "the algorithm never chooses, yet the answer is %d", status)
		}
		if status == 200 && !q.NilHdr && slices.Contains(q.Header["Negotiate"], "guess-small") {
			w.guessed(c, s, bad)
		}
	}
	if status == 200 || status == 201 {
		i := -1
		switch s.Chooser {
		case "first":
			i = offered[0]
		case "last":
			i = offered[len(offered)-1]
		}
		if i >= 0 {
			loc := w.rep(c, i).loc
			if got := c.rw.snap.Get("Content-Location"); got != (&loc).String() {
				bad(c, "another choice", "the algorithm chose %q, but %q was sent", (&loc).String(), got)
			}
		}
	}
}

// noType tells whether surely none of the offered types is acceptable.
func (w *world) noType(c *opCtx, q *ReqSpec, offered []int) bool {
	if q.NilHdr || len(q.Header["Accept"]) == 0 {
		return false
	}
	major := func(t string) string {
		if a, b, ok := strings.Cut(cutSemi(t), "/"); ok && a != "" && a != "*" && b != "" && !strings.ContainsAny(t, ", *\"\t") && !strings.Contains(b, "/") {
			return strings.ToLower(a)
		}
		return ""
	}
	for _, a := range q.Header["Accept"] {
		if major(a) == "" {
			return false
		}
		for _, i := range offered {
			t := major(w.rep(c, i).spec.Type)
			if t == "" || t == major(a) {
				return false
			}
		}
	}
	return true
}

// guessed checks that a guess-small choice is not much larger than the list.
func (w *world) guessed(c *opCtx, s *NegSpec, bad badFn) {
	limit, list, choice := 50, -1, -1
	if s.HasG && !s.Default {
		limit = s.Guess
	}
	loc := c.rw.snap.Get("Content-Location")
	for _, r := range c.serial {
		if r.rep < 0 {
			list = len(r.cp)
			continue
		}
		if l := w.rep(c, r.rep).loc; (&l).String() != loc {
			continue
		}
		if r.err != nil || choice >= 0 && choice != len(r.cp) {
			return
		}
		choice = len(r.cp)
	}
	if list < 0 && c.lists == 0 { // the default list
		d, ok := w.wantList(c)
		if !ok {
			return
		}
		var l representation.List
		for _, m := range d.Representations {
			l.Representations = append(l.Representations, representation.Metadata(m))
		}
		b, err := json.Marshal(&l)
		if err != nil {
			return
		}
		list = len(b)
	}
	if choice >= list && choice-list > limit {
		bad(c, "guess", "the choice has %d bytes, the list %d, and the choice may be larger by %d", choice, list, limit)
	}
}
