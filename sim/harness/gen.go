package main

import (
	"strings"

	"fmt"

	"verifsim/simrt"
)

// The generator: everything about a case follows from (property, seed, unit).

type gen struct {
	RNG
	c    *Case
	prop string
	id   int
	iso  bool // outcomes are compared with solo runs
	deep bool

	feats  bool // features decide
	origin bool // URLs have no host
	root   bool // paths have one segment
	tiny   bool // contents of a few bytes
	twins  bool // only their locations distinguish the representations
	lists  []int
	fresh  int // how many requests have representations of their own
}

// isoProps need a solo run per distinct operation, so operations repeat.
var isoProps = map[string]string{
	"C01": "proactive", "C02": "reactive", "C03": "transparent", "C20": "", "C19": "", "C11": "", "C12": "",
}

func genCase(prop string, seed uint64, unit int, deep bool) *Case {
	g := &gen{RNG: RNG{mix64(mix64(seed, uint64(unit)), hashOf(prop))}, prop: prop, deep: deep}
	_, g.iso = isoProps[prop]
	g.c = &Case{Prop: prop, Seed: seed, Unit: unit, MapSeed: g.U()}
	g.world()
	g.work()
	return g.c
}

var (
	goodTypes  = []string{"application/json", "application/xml", "application/yaml", "text/yaml", "text/html", "text/html;level=1", "text/html;level=2", "text/html;level=3"}
	weirdTypes = []string{"", "garbage", "a/b/c", "text/html;level=x", "text/html;level", "text/html; level=\"2\"", "application/unknown", ";;;", "text/html;level=99999999999", "Application/JSON", "text/html;q=0.5", "/", "*/*", "text/*", "application/json;charset=utf-8;a=b"}
	langs      = []string{"en", "en-US", "en-GB", "fr", "de", "fr-CA", "es"}
	weirdLangs = []string{"", "!!", "x", "zz-zzzzzzzzzz-", "en_US", "*", "i-klingon", "en-", "art-lojban", "und"}
	charsets   = []string{"utf-8", "iso-8859-1", "ascii", "utf-16", "ISO-8859-1"}
	weirdChars = []string{"", "*", ";", "utf-8;q=1", "ütf"}
	encs       = [][]string{nil, {}, {"identity"}, {"gzip"}, {"deflate"}, {"compress"}, {"x-gzip"}, {"gzip", "deflate"}, {"deflate", "gzip"}, {"gzip", "compress"}, {"compress", "deflate", "gzip"}, {"GZIP"}, {"gzip", "deflate", "compress"}, {"X-Gzip"}, {"Deflate", "X-COMPRESS"}}
	weirdEncs  = [][]string{{"br"}, {"gzip", "br"}, {"br", "gzip"}, {""}, {"gzip", ""}, {"gzip", "gzip"}, {"gzip", "identity"}, {"identity", "gzip"}}
	features   = [][]string{{"color"}, {"!color"}, {"screen=wide"}, {"screen!=wide", "color"}, {"size=[1-5]"}, {"[color !frames screen=wide]"}, {"color;+1.1-0.7"}, {"color;+0.4-0.4", "frames;-0.5"}, {"[a b !c];+1.5", "d"}, {"tables", "frames"}, {"screen"}, {"screens=tall"}, {"colors", "!col"}, {"Color"}, {"size2=[2-9]"}, {"sizes=3;+1.2-0.6", "ab"}, {" color", "frames "}}
	weirdFeats = [][]string{{""}, {";;"}, {"[", "]"}, {"[a"}, {"a=[x-y]"}, {"size=[1-"}, {"=b"}, {"!"}, {"a;+x"}, {"a;+-"}, {"[]"}, {"\x00"}, {"a=[5-1]"}, {"a!="}, {"a;;+1"}, {"[a]]"}, {"[[a]"}, {"a", ""}, {"[a b"}, {"a b]"}, {"[a [b] c]"}}
	sqs        = []float32{1, 1, 1, 0.9, 0.9, 0.8, 0.5, 0.3, 0.333333, 0}
	weirdSQ    = []float32{-1, 2, 1.0005, 1e30, -0.0001}
)

func (g *gen) weird() bool { // are unusual metadata wanted in this case?
	switch g.prop {
	case "C13":
		return g.P(70)
	case "C06", "C05", "C12", "C18", "C07", "C04":
		return g.P(25)
	}
	return g.P(12)
}

func (g *gen) size() int {
	if g.tiny {
		return g.N(12)
	}
	switch g.N(20) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return g.Range(3000, 9000)
	case 3:
		if g.P(25) {
			return g.Range(60000, 90000)
		}
		if g.P(8) {
			return g.Range(130_000, 1_300_000)
		}
	}
	n := 2
	if g.prop == "C14" || g.prop == "C17" {
		n = 8
	}
	if g.prop == "C17" && g.N(300) == 0 {
		return g.Range(1<<20, 12<<20)
	}
	if g.P(n) {
		return exactly + pick(&g.RNG, []int{256, 512, 1024, 1536, 2048, 4096, 4096, 8192, 16384, 32768, 32768, 65536, 131072})*pick(&g.RNG, []int{1, 1, 1, 2}) + g.Range(-1, 1)
	}
	return g.Range(5, 400)
}

func (g *gen) world() {
	c := g.c
	wantWeird := g.weird()
	g.tiny = g.prop == "C19" && g.P(20) || g.prop >= "C14" && g.prop <= "C17" && g.P(4)
	switch g.prop {
	case "C18":
		g.feats = g.P(25)
	case "C03":
		g.feats = g.P(15)
	case "C13", "C05", "C20", "C12":
		g.feats = g.P(4)
	case "C04":
		g.feats = g.P(10)
	}
	coder := g.prop >= "C14" && g.prop <= "C17"
	nr := g.Range(2, 7)
	if g.P(8) {
		nr = g.Range(11, 18)
	}
	many := g.P(3)
	if many {
		nr = g.Range(19, 70)
	}
	dir := "http://example.com:80/dir/"
	if g.P(25) { // as a server's requests are
		g.origin = true
		dir = "/dir/"
	}
	if g.P(9) { // everything is at the root
		g.root = true
		dir = strings.TrimSuffix(dir, "dir/")
	}
	prof := g.N(5)
	levels := g.P(6) || g.prop == "C18" && g.P(20) // every type is HTML with a level
	for i := 0; i < nr; i++ {
		s := RepSpec{Kind: "doc", Type: pick(&g.RNG, goodTypes[:5]), SQ: pick(&g.RNG, sqs), Size: g.size()}
		s.Loc = fmt.Sprintf("%sv%d", dir, i)
		if many {
			s.Size = g.Range(0, 60)
		}
		if g.P(20) {
			s.Type = pick(&g.RNG, goodTypes)
		}
		if levels {
			s.Type = fmt.Sprintf("text/html;level=%d", g.N(2))
		}
		if prof != 0 {
			s.Lang = pick(&g.RNG, langs)
			if g.P(40) {
				s.Lang = "en"
			}
		}
		if prof >= 2 || g.P(20) {
			s.Charset = pick(&g.RNG, charsets)
		}
		if prof >= 1 && g.P(50) {
			s.Enc = pick(&g.RNG, encs)
		}
		if g.P(25) {
			s.Features = pick(&g.RNG, features)
		}
		if s.Enc == nil {
			s.Nil = true
		}
		if g.P(8) {
			s.Loc = pick(&g.RNG, []string{"", "/dir/x", "http://example.com/dir/y", "http://other.org:80/dir/z", "http://example.com:80/elsewhere/z", "HTTP://EXAMPLE.COM:80/dir/w", "http://user@example.com:80/dir/é%20x?q=1#f"})
		}
		if g.root && g.P(35) {
			s.Loc = dir[:len(dir)-g.N(2)]
		}
		// ties: the same metadata as an earlier one
		if i > 0 && g.P(30) {
			b := c.Reps[g.N(i)]
			s.Type, s.Lang, s.Charset, s.Enc, s.Nil, s.SQ, s.Features = b.Type, b.Lang, b.Charset, b.Enc, b.Nil, b.SQ, b.Features
			if g.P(50) {
				s.Size = b.Size
			}
		}
		if i > 0 && g.P(5) {
			s.Loc = c.Reps[g.N(i)].Loc
		}
		if g.P(35) || coder {
			s.Coders = true
		}
		s.Few = g.P(35)
		if s.Coders && s.Kind == "doc" && (g.P(12) || g.tiny && g.P(60)) {
			s.Type = blobType
			if g.P(35) {
				s.Size = -1
			}
		}
		if coder {
			n := g.Range(1, 3)
			if g.P(8) {
				n = g.Range(4, 6)
			}
			s.Enc, s.Nil = nil, false
			for k := 0; k < n; k++ {
				s.Enc = append(s.Enc, pick(&g.RNG, codings))
			}
			if g.P(30) {
				s.Coders = false
				for k := range s.Enc {
					if s.Enc[k] == "x-frame" {
						s.Enc[k] = "gzip"
					}
				}
			}
			if g.P(7) {
				s.Enc = nil
				s.Nil = g.P(50)
			}
			if g.prop == "C16" && g.P(12) || g.P(3) {
				s.Enc = append(append([]string{}, s.Enc...), "br")
				s.Nil = false
				if g.P(50) {
					s.Enc = append(s.Enc, "gzip")
				}
			}
			if g.P(8) {
				for k := range s.Enc {
					if g.P(50) {
						s.Enc[k] = upper(s.Enc[k])
					}
				}
			}
			if g.P(3) {
				s.Enc, s.Nil = []string{pick(&g.RNG, []string{"identity", "Identity", "IDENTITY"})}, false
			}
			if g.P(6) {
				s.Type = pick(&g.RNG, []string{upper(s.Type), s.Type + ";charset=utf-8", "Application/JSON", "Text/YAML; v=1"})
			}
		}
		if wantWeird && g.P(35) {
			if g.P(60) {
				s.Kind = "raw"
			}
			for k := g.Range(1, 3); k > 0; k-- {
				switch g.N(6) {
				case 0:
					s.Type = pick(&g.RNG, weirdTypes)
				case 1:
					s.Lang = pick(&g.RNG, weirdLangs)
				case 2:
					s.Charset = pick(&g.RNG, weirdChars)
				case 3:
					s.Enc, s.Nil = pick(&g.RNG, weirdEncs), false
				case 4:
					s.Features = pick(&g.RNG, weirdFeats)
				case 5:
					s.SQ = pick(&g.RNG, weirdSQ)
				}
			}
		}
		if s.Kind == "raw" && (s.Size < 0 || g.P(30)) {
			s.Size = 0
		}
		c.Reps = append(c.Reps, s)
	}
	if g.prop == "C01" && g.P(6) || g.prop == "C03" && g.P(3) { // nothing distinguishes them
		g.twins = true
		b := c.Reps[0]
		b.Kind, b.SQ, b.Size = "doc", 1, g.Range(5, 400)
		for i := range c.Reps {
			b.Loc = fmt.Sprintf("%sv%d", dir, i)
			c.Reps[i] = b
		}
	}
	// slices offered
	ns := g.Range(1, 4)
	for i := 0; i < ns; i++ {
		s := Slice{Spare: g.N(4)}
		switch {
		case g.P(4) || (g.prop == "C13" && g.P(15)):
			// an empty offer
		case i > 0 && g.P(25): // almost the same as another one
			s.Reps = append(s.Reps, c.Slices[g.N(i)].Reps...)
			if n := len(s.Reps); n > 0 {
				j, k := g.N(n), g.N(n)
				switch g.N(4) {
				case 0:
					s.Reps[j], s.Reps[k] = s.Reps[k], s.Reps[j]
				case 1:
					s.Reps[j] = g.N(nr)
				case 2:
					s.Reps = append(s.Reps[:j], s.Reps[j+1:]...)
				case 3:
					s.Reps = append(s.Reps, s.Reps[j])
				}
			}
		case g.P(35):
			for j := 0; j < nr; j++ {
				s.Reps = append(s.Reps, j)
			}
		default:
			for k := g.Range(1, min(nr, 6)); k > 0; k-- {
				s.Reps = append(s.Reps, g.N(nr))
			}
		}
		c.Slices = append(c.Slices, s)
	}
	if g.P(12) {
		for i := range c.Reps {
			c.Reps[i].Val = g.P(70)
		}
	}
	if g.feats {
		g.featureWorld()
	}
	g.fresh = pick(&g.RNG, []int{0, 0, 30, 100})
	g.negs()
	nq := g.Range(2, 6)
	one := g.P(15) // all are variations of one request, in one header
	only := pick(&g.RNG, headerNames)
	for i := 0; i < nq; i++ {
		if i > 0 && one {
			c.Reqs = append(c.Reqs, g.derived(c.Reqs[0], only))
		} else if i > 0 && g.P(30) {
			c.Reqs = append(c.Reqs, g.derived(c.Reqs[g.N(i)], ""))
		} else {
			c.Reqs = append(c.Reqs, g.request())
		}
	}
}

var headerNames = []string{"Accept", "Accept-Charset", "Accept-Encoding", "Accept-Features", "Accept-Language", "Negotiate"}

// derived is a request that differs a little from another one.
func (g *gen) derived(o ReqSpec, only string) ReqSpec {
	q := o
	q.Header = map[string][]string{}
	for k, v := range o.Header {
		q.Header[k] = append([]string{}, v...)
	}
	q.Bad = append([]string(nil), o.Bad...)
	var ks []string
	for _, k := range headerNames {
		if len(q.Header[k]) > 0 && !contains(q.Bad, k) {
			ks = append(ks, k)
		}
	}
	for n := g.Range(1, 2); n > 0 && len(ks) > 0; n-- {
		k := pick(&g.RNG, ks)
		if contains(ks, only) {
			k = only
		}
		v := q.Header[k]
		if len(v) == 0 {
			continue
		}
		i := g.N(len(v))
		switch g.N(11) {
		case 0:
			j := g.N(len(v))
			v[i], v[j] = v[j], v[i]
		case 1: // one line instead of several
			q.Header[k] = []string{strings.Join(v, pick(&g.RNG, []string{",", ", ", "", " "}))}
		case 2: // several lines instead of one
			if a, b, ok := strings.Cut(v[i], ","); ok {
				v[i] = a
				q.Header[k] = append(v, b)
			}
		case 3:
			q.Header[k] = append(v[:i], v[i+1:]...)
			if len(q.Header[k]) == 0 {
				delete(q.Header, k)
			}
		case 4:
			delete(q.Header, k)
		case 5:
			v[i] = cutSemi(v[i]) + pick(&g.RNG, []string{"", ";q=0", ";q=0.3", ";q=1", ";q=0.999"})
		case 6:
			q.Header[k] = append(v, v[i])
		case 7:
			if g.P(50) {
				v[i] = upper(v[i])
			} else {
				v[i] = strings.ToLower(v[i])
			}
		case 8: // the same value under another name
			a, b := "Accept-Charset", "Accept-Encoding"
			if g.P(50) {
				a, b = b, a
			}
			q.Header[a], q.Header[b] = q.Header[b], q.Header[a]
			for _, x := range []string{a, b} {
				if len(q.Header[x]) == 0 {
					delete(q.Header, x)
				}
			}
		case 9: // from another request
			p := pick(&g.RNG, g.c.Reqs)
			if !contains(p.Bad, k) {
				q.Header[k] = append([]string{}, p.Header[k]...)
				if len(q.Header[k]) == 0 {
					delete(q.Header, k)
				}
			}
		case 10:
			q.URL = pick(&g.RNG, []string{"http://example.com:80/dir/res", "http://example.com:80/dir/other", "http://example.com:80/elsewhere/res", "http://other.org:80/dir/res", "http://example.com:81/dir/res"})
		}
	}
	// swapping may have moved a malformed value
	for _, k := range []string{"Accept-Charset", "Accept-Encoding"} {
		if contains(q.Bad, k) {
			q.Bad = without(q.Bad, k)
		}
	}
	return q
}

func without(l []string, s string) (out []string) {
	for _, x := range l {
		if x != s {
			out = append(out, x)
		}
	}
	return out
}

func upper(s string) string {
	b := []byte(s)
	for i, ch := range b {
		if ch >= 'a' && ch <= 'z' {
			b[i] = ch - 32
		}
	}
	return string(b)
}

var (
	featTags = []string{"a", "ab", "abc", "A", "b", "ba", "color", "COLOR", "colors"}
	featVals = []string{"x", "xy", "X", "1", "2", "10", "3"}
)

// predicate is a feature predicate of a representation.
func (g *gen) predicate() string {
	t, v := pick(&g.RNG, featTags), pick(&g.RNG, featVals)
	switch g.N(7) {
	case 0:
		return "!" + t
	case 1:
		return t + "=" + v
	case 2:
		return t + "!=" + v
	case 3:
		return fmt.Sprintf("%s=[%d-%d]", t, g.N(4), g.Range(2, 12))
	}
	return t
}

// featureWorld makes representations that differ in their features.
func (g *gen) featureWorld() {
	c := g.c
	bad := 0
	if g.P(20) {
		bad = 25
	}
	b := c.Reps[0]
	for i := range c.Reps {
		s := &c.Reps[i]
		s.Type, s.Lang, s.Charset, s.SQ = b.Type, b.Lang, b.Charset, b.SQ
		s.Loc = fmt.Sprintf("http://example.com:80/dir/v%d", i)
		s.Features = nil
		for n := g.Range(1, 3); n > 0; n-- {
			p := g.predicate()
			if g.P(25) {
				p = "[" + p
				for k := g.Range(1, 2); k > 0; k-- {
					p += " " + g.predicate()
				}
				p += "]"
				if g.P(90) { // no factors on those
					s.Features = append(s.Features, p)
					continue
				}
			}
			p += pick(&g.RNG, []string{"", "", ";+0.9-0.5", ";+1.2-0.8", ";-0.7", ";+1.1"})
			if g.P(bad) {
				p = pick(&g.RNG, weirdFeats)[0]
			}
			s.Features = append(s.Features, p)
		}
	}
}

// featureRequest asks for features, and for nothing that is in doubt.
func (g *gen) featureRequest(q *ReqSpec) {
	b := g.c.Reps[0]
	h := map[string][]string{"Negotiate": {"1.0"}}
	add(h, "Accept", b.Type)
	add(h, "Accept-Language", b.Lang)
	add(h, "Accept-Charset", b.Charset)
	for n := g.Range(1, 5); n > 0; n-- {
		t, v := pick(&g.RNG, featTags), pick(&g.RNG, featVals)
		switch g.N(7) {
		case 0:
			t = "!" + t
		case 1:
			t += "=" + v
		case 2:
			t += "!=" + v
		case 3, 4:
			t += "={" + v + "}"
		}
		h["Accept-Features"] = append(h["Accept-Features"], t)
	}
	q.URL, q.Header, q.NilHdr, q.Bad = "http://example.com:80/dir/res", h, false, nil
}

func (g *gen) negType() string {
	if t := isoProps[g.prop]; t != "" {
		return t
	}
	if g.feats && g.P(80) {
		return "transparent"
	}
	switch {
	case g.P(45):
		return "proactive"
	case g.P(40):
		return "reactive"
	}
	return "transparent"
}

func (g *gen) negs() {
	n := g.Range(1, 3)
	if g.prop == "C20" {
		n = g.Range(3, 8)
	}
	for i := 0; i < n; i++ {
		g.c.Negs = append(g.c.Negs, g.negSpec(g.negType()))
	}
}

func (g *gen) negSpec(t string) NegSpec {
	s := NegSpec{Type: t}
	if g.P(18) && g.prop != "C09" && g.prop != "C10" && g.prop != "C11" {
		s.Default = true
		return s
	}
	obs := g.prop == "C09" || g.prop == "C10" || g.prop == "C11" || g.prop == "C18"
	s.Scope = obs || g.P(45)
	if g.P(35) || g.prop == "C11" && g.P(80) {
		s.Log = pick(&g.RNG, []string{"debug", "info", "error", "dev"})
	}
	if g.prop == "C11" && g.P(30) {
		s.Caps = g.Range(1, 3)
	}
	switch t {
	case "proactive":
		for _, o := range []string{"strictA", "strictL", "strictC", "strict", "noNAR"} {
			if g.P(14) {
				s.Opts = append(s.Opts, o)
			}
		}
		if g.P(40) {
			s.Chooser = pick(&g.RNG, []string{"real", "real", "first", "last", "nil", "wrap", "copy"})
		}
		if g.P(35) {
			s.DefList = g.listKind()
		}
		if g.P(35) {
			s.Lists = []string{}
			for k := g.N(pick(&g.RNG, []int{4, 4, 7})); k > 0; k-- {
				s.Lists = append(s.Lists, g.listKind())
			}
		}
		if g.prop == "C20" && g.P(30) {
			s.Hook = pick(&g.RNG, []string{"replace", "append", "trim"})
		}
	case "reactive":
		if g.P(50) {
			s.DefList = g.listKind()
		}
	case "transparent":
		if g.P(45) {
			s.Chooser = pick(&g.RNG, []string{"real", "first", "last", "nil", "wrap", "copy"})
		}
		if g.P(40) {
			s.DefList = g.listKind()
		}
		if g.P(40) {
			s.MaxVar = pick(&g.RNG, []int{1, 2, 3, 5, 20, 20, 100, 100, -4})
		}
		if g.P(40) {
			s.HasG = true
			s.Guess = pick(&g.RNG, []int{0, 1, 50, 200, 100000, -1})
		}
	}
	if g.prop == "C20" && g.P(35) {
		s.Lazy = true
	}
	return s
}

func (g *gen) listKind() string {
	if g.P(8) {
		return "bad"
	}
	if g.P(5) {
		return "void"
	}
	if g.P(11) {
		return pick(&g.RNG, []string{"bare", "untyped", "late"})
	}
	return pick(&g.RNG, listKinds)
}

var (
	badAccept   = []string{"", "application/json;q=2", "application/json;q=x", "text/html;q=-1", "/;;", "text/html;a=\"", "application/json, text/html", ";q=1"}
	badLang     = []string{"!!", "en;q=x", "toolonglanguagetag-x", "en;q=7", ";;;", "fr;q=0.5x"}
	badCharset  = []string{"", ";q=1", "utf-8;q=x", "utf 8", "utf-8, ascii", "utf-8;q=2"}
	badEncoding = append([]string{"", "zstd", "gzip, deflate", "gzip;q=2", "*;q=7"}, malformedEncoding...)
	badNeg      = []string{""}
	badFeat     = []string{"", "!", "{", "=", "a={", "\xff", "a=b=c", "!=", "!a!=b"}
)

// codings that are not just unknown
var malformedEncoding = []string{"br;q=x", "gzip;q=0.5x", "deflate;q=-1", "gzip;;"}

var otherHeaders = [][2]string{{"Cache-Control", "no-cache"}, {"Cache-Control", "max-age=0"}, {"Pragma", "no-cache"}, {"User-Agent", "Mozilla/5.0 (MSIE 6.0)"}, {"User-Agent", "curl/8.0"}, {"If-None-Match", "\"x\""}, {"If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Range", "bytes=0-10"}, {"Te", "trailers"}, {"Connection", "close"}, {"Expect", "100-continue"}, {"Prefer", "return=minimal"}, {"X-Forwarded-For", "10.0.0.1"}, {"X-Forwarded-Host", "example.org"}, {"X-Forwarded-Proto", "https"}, {"Host", "example.com"}, {"Origin", "http://other.org"}, {"Cookie", "a=b"}, {"Authorization", "Basic eDp5"}, {"Content-Type", "application/json"}, {"Content-Length", "12"}, {"Accept-Datetime", "Thu, 31 May 2007 20:35:00 GMT"}, {"X-Http-Method-Override", "HEAD"}, {"Tcn", "list"}, {"Vary", "*"}}

func (g *gen) request() ReqSpec {
	q := ReqSpec{URL: "http://example.com:80/dir/res", Header: map[string][]string{}}
	if g.origin {
		q.URL = "/dir/res"
	}
	if g.root {
		q.URL = strings.Replace(q.URL, "/dir", "", 1)
		if g.P(35) {
			q.URL = strings.TrimSuffix(q.URL, "res")
			if g.P(40) && !g.origin {
				q.URL = strings.TrimSuffix(q.URL, "/")
			}
		}
	}
	if g.P(10) {
		q.URL = pick(&g.RNG, []string{"/dir/res", "http://example.com/dir/res", "http://EXAMPLE.com/dir/", "http://[::1]/x", "*", "", "http://example.com:80/dir/res?x=y#z", "//host", "mailto:a@b"})
	}
	if g.P(3) {
		q.NilHdr = true
	}
	h := q.Header
	c := g.c
	qv := func() string {
		if g.P(50) {
			return ""
		}
		return pick(&g.RNG, []string{";q=0.9", ";q=0.5", ";q=0.1", ";q=0", ";q=1", ";q=0.333", ";q=1.000"})
	}
	mode := g.N(10)
	switch {
	case mode < 4: // everything offered is acceptable, explicitly
		for i := range c.Reps {
			r := &c.Reps[i]
			t, l, cs := r.Type, r.Lang, r.Charset
			add(h, "Accept", t+posq(g))
			add(h, "Accept-Language", l+posq(g))
			add(h, "Accept-Charset", cs+posq(g))
			for _, f := range r.Features {
				if g.P(70) && len(f) > 0 && f[0] != '[' {
					add(h, "Accept-Features", cutSemi(f))
				}
			}
		}
		if g.P(40) {
			add(h, "Accept-Features", "*")
		}
		if g.P(50) {
			for _, e := range []string{"gzip", "deflate", "compress", "identity", "x-gzip"} {
				if g.P(70) {
					h["Accept-Encoding"] = append(h["Accept-Encoding"], e+qv())
				}
			}
		}
	case mode == 4: // refuse
		h["Accept"] = []string{pick(&g.RNG, []string{"image/png", "audio/*", "application/zip;q=0.4"})}
		if g.P(40) {
			h["Accept"] = append(h["Accept"], pick(&g.RNG, []string{"application/xml;q=0.2", "text/yaml", "application/json;q=0"}))
		}
		if g.P(30) {
			h["Accept-Language"] = []string{"ja"}
		}
	case mode == 5: // no headers at all
	default:
		if g.P(70) {
			for k := g.Range(1, 4); k > 0; k-- {
				h["Accept"] = append(h["Accept"], pick(&g.RNG, append(goodTypes, "text/*", "*/*", "application/*", "image/png", "text/html;level=1;x=y"))+qv())
			}
		}
		if g.P(60) {
			for k := g.Range(1, 3); k > 0; k-- {
				h["Accept-Language"] = append(h["Accept-Language"], pick(&g.RNG, append(langs, "*", "en, fr;q=0.5", "de-CH;q=0.2,en"))+pick(&g.RNG, []string{"", "", ";q=0.5", ";q=0.1"}))
			}
		}
		if g.P(60) {
			for k := g.Range(1, 3); k > 0; k-- {
				h["Accept-Charset"] = append(h["Accept-Charset"], pick(&g.RNG, append(charsets, "*"))+qv())
			}
		}
		if g.P(60) {
			for k := g.Range(1, 3); k > 0; k-- {
				h["Accept-Encoding"] = append(h["Accept-Encoding"], pick(&g.RNG, []string{"gzip", "deflate", "compress", "identity", "*", "x-gzip", "x-compress"})+qv())
			}
		}
		if g.P(40) {
			for k := g.Range(1, 4); k > 0; k-- {
				h["Accept-Features"] = append(h["Accept-Features"], pick(&g.RNG, []string{"color", "!frames", "screen=wide", "screen={wide}", "size=3", "a", "b", "*", "screen!=narrow", "size={2}", "screens", "screen=tall", "screens=tall", "colors", "col", "COLOR", "ab", "sizes=3", "size2=4", "!color"}))
			}
		}
	}
	if g.P(75) {
		for k := g.Range(1, 2); k > 0; k-- {
			h["Negotiate"] = append(h["Negotiate"], pick(&g.RNG, []string{"*", "1.0", "guess-small", "guess-small", "trans", "vlist", "2.0"}))
		}
	}
	pct := 8
	switch g.prop {
	case "C13", "C06":
		pct = 35
	}
	if g.P(pct) {
		for k := g.Range(1, 2); k > 0; k-- {
			switch g.N(6) {
			case 0:
				g.bad(&q, "Accept", badAccept)
			case 1:
				g.bad(&q, "Accept-Language", badLang)
			case 2:
				g.bad(&q, "Accept-Charset", badCharset)
			case 3:
				g.bad(&q, "Accept-Encoding", badEncoding)
			case 4:
				g.bad(&q, "Negotiate", badNeg)
			case 5:
				g.bad(&q, "Accept-Features", badFeat)
			}
		}
	}
	if g.P(4) {
		k := pick(&g.RNG, []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Negotiate", "Accept-Features"})
		q.Header[k] = []string{}
		q.Bad = without(q.Bad, k)
	}
	if g.prop == "C13" && g.P(25) { // noise
		k := pick(&g.RNG, []string{"Accept", "Accept-Language", "Accept-Charset", "Accept-Encoding", "Negotiate", "Accept-Features"})
		b := make([]byte, g.N(20))
		for i := range b {
			b[i] = pick(&g.RNG, []byte(";=,*/q.01 {}[]!+-\"\\az\x00\xff"))
		}
		q.Header[k] = append(q.Header[k], string(b))
	}
	if g.P(15) { // what else clients send
		for n := g.Range(1, 3); n > 0; n-- {
			o := pick(&g.RNG, otherHeaders)
			q.Header[o[0]] = []string{o[1]}
		}
	}
	if g.P(7) { // names as nobody canonicalized them
		for n := g.Range(1, 2); n > 0; n-- {
			k := pick(&g.RNG, headerNames)
			v := q.Header[k]
			if len(v) == 0 {
				v = []string{pick(&g.RNG, []string{"*", "text/html", "gzip", "en"})}
			}
			q.Header[pick(&g.RNG, []string{strings.ToLower(k), strings.ToUpper(k)})] = append([]string{}, v...)
			if g.P(50) && !contains(q.Bad, k) {
				delete(q.Header, k)
			}
		}
	}
	q.Header["X-Trace"] = []string{fmt.Sprint(g.N(1000))}
	if g.P(5) { // very many lines
		k := pick(&g.RNG, []string{"Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Accept-Features"})
		var l []string
		for i := g.Range(9, 40); i > 0; i-- {
			switch k {
			case "Accept":
				l = append(l, fmt.Sprintf("application/x-%d%s", i, qv()))
			case "Accept-Features":
				l = append(l, fmt.Sprintf("f%d", i))
			case "Accept-Language":
				l = append(l, fmt.Sprintf("x-l%d%s", i, qv()))
			default:
				l = append(l, fmt.Sprintf("x-%d%s", i, qv()))
			}
		}
		if g.P(50) {
			q.Header[k] = append(l, q.Header[k]...)
		} else {
			q.Header[k] = append(q.Header[k], l...)
		}
	}
	if g.P(30) {
		g.format(&q)
	}
	if g.P(15) {
		q.Method = pick(&g.RNG, []string{"HEAD", "POST", "PUT", "OPTIONS", "head"})
	}
	if g.P(6) {
		q.Ctx = "canceled"
	}
	if g.feats && g.P(80) {
		g.featureRequest(&q)
	}
	return q
}

// format writes header lines in other ways: spaces, case, several in one line.
func (g *gen) format(q *ReqSpec) {
	for _, k := range []string{"Accept", "Accept-Charset", "Accept-Encoding", "Accept-Features", "Accept-Language", "Negotiate"} {
		if contains(q.Bad, k) {
			continue
		}
		v := q.Header[k]
		for i := range v {
			if !g.P(25) {
				continue
			}
			switch g.N(8) {
			case 0:
				v[i] = " " + v[i]
			case 1:
				v[i] += pick(&g.RNG, []string{" ", "\t", "  "})
			case 2:
				v[i] = strings.Replace(v[i], ";", "; ", 1)
			case 3:
				v[i] = strings.Replace(v[i], ";", " ;", 1)
			case 4:
				v[i] = upper(v[i])
			case 5:
				v[i] = strings.Replace(v[i], ";q=", ";Q=", 1)
			case 6:
				v[i] = " " + strings.Replace(v[i], ";", " ; ", -1) + " "
			case 7:
				if i > 0 {
					v[i] = v[i] + ", " + v[i-1]
				}
			}
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (g *gen) bad(q *ReqSpec, k string, vals []string) {
	v := pick(&g.RNG, vals)
	switch {
	case g.P(50):
		q.Header[k] = []string{v}
	default:
		q.Header[k] = append(q.Header[k], v)
	}
	// an empty value and a list in one line are the parser's to judge
	if v != "" && !strings.Contains(v, ",") {
		q.Bad = append(q.Bad, k)
	}
}

// malformed: a line that makes the header malformed for sure is (still) in it.
func (q *ReqSpec) malformed(k string) bool {
	l := map[string][]string{"Accept": badAccept, "Accept-Language": badLang, "Accept-Charset": badCharset, "Accept-Encoding": badEncoding}[k]
	for _, v := range q.Header[k] {
		if v != "" && !strings.Contains(v, ",") && contains(l, v) {
			return true
		}
	}
	return false
}

func add(h map[string][]string, k, v string) {
	if v == "" || v[0] == ';' {
		return
	}
	for _, x := range h[k] {
		if cutSemi(x) == cutSemi(v) {
			return
		}
	}
	h[k] = append(h[k], v)
}

func cutSemi(s string) string {
	for i := range s {
		if s[i] == ';' {
			return s[:i]
		}
	}
	return s
}

func posq(g *gen) string { return pick(&g.RNG, []string{"", "", ";q=0.9", ";q=0.5", ";q=0.8"}) }

// ---- faults ----

type fk struct {
	at, kind string
	w        int
}

var (
	failing  = []fk{{"bytes", "err", 6}, {"list", "err", 3}, {"choose", "err", 2}, {"write", "err", 4}}
	aborting = []fk{{"bytes", "panic", 3}, {"write", "abort", 3}, {"write", "panic", 1}, {"choose", "panic", 1}, {"ctor", "panic", 1}, {"meta", "panic", 1}, {"wheader", "abort", 1}, {"list", "panic", 1}, {"chosen", "panic", 1}}
	slowing  = []fk{{"bytes", "slow", 4}, {"write", "slow", 4}, {"choose", "slow", 2}, {"list", "slow", 2}, {"ctor", "slow", 2}, {"meta", "slow", 2}, {"wheader", "slow", 1}, {"bytes", "jump", 1}, {"chosen", "slow", 1}}
	stalling = []fk{{"bytes", "stall", 3}, {"write", "stall", 5}, {"choose", "stall", 2}, {"meta", "stall", 2}, {"list", "stall", 2}, {"ctor", "stall", 1}, {"wheader", "stall", 1}, {"marshal", "stall", 2}, {"wwrite", "stall", 2}, {"wclose", "stall", 2}, {"wctor", "stall", 1}, {"log", "stall", 1}, {"scope", "stall", 1}}
	codeW    = []fk{{"marshal", "err", 3}, {"wctor", "err", 4}, {"wwrite", "err", 5}, {"wclose", "err", 8}}
	codeWP   = []fk{{"marshal", "panic", 2}, {"wctor", "panic", 1}, {"wwrite", "panic", 3}, {"wclose", "panic", 3}}
	codeRP   = []fk{{"unmarshal", "panic", 1}, {"rctor", "panic", 1}, {"rread", "panic", 3}, {"rclose", "panic", 2}}
	codeR    = []fk{{"rctor", "err", 4}, {"rread", "err", 6}, {"rclose", "err", 5}, {"unmarshal", "err", 2}}
	nesting  = []fk{{"bytes", "nest", 5}, {"list", "nest", 3}, {"ctor", "nest", 3}, {"choose", "nest", 3}, {"chosen", "nest", 2}, {"write", "nest", 4}, {"wheader", "nest", 2}, {"meta", "nest", 2}, {"marshal", "nest", 2}, {"wwrite", "nest", 2}, {"wclose", "nest", 1}, {"unmarshal", "nest", 1}, {"rread", "nest", 1}}
	obsFault = []fk{{"log", "err", 4}, {"log", "slow", 3}, {"scope", "slow", 4}, {"log", "jump", 1}, {"scope", "jump", 1}}
)

func draw(g *gen, sets ...[]fk) fk {
	t := 0
	for _, s := range sets {
		for _, f := range s {
			t += f.w
		}
	}
	k := g.N(t)
	for _, s := range sets {
		for _, f := range s {
			if k -= f.w; k < 0 {
				return f
			}
		}
	}
	return failing[0]
}

// layer is a content coding of a stack.
func (g *gen) layer() int {
	if g.P(15) {
		return g.Range(3, 5)
	}
	return g.N(3)
}

func (g *gen) fault(f fk) Fault {
	x := Fault{At: f.at, Kind: f.kind, T: -1, N: g.N(3)}
	if g.P(50) {
		x.N = 0
	}
	switch f.at {
	case "bytes":
		if g.P(35) {
			x.T = g.N(len(g.c.Reps))
			x.N = g.N(2)
		}
		if g.P(20) {
			x.N = -1
		}
		x.A = int64(g.N(2))
	case "meta":
		x.N = g.N(40)
	case "write":
		x.N = 0
		if g.P(8) {
			x.N = g.Range(1, 3)
		}
		x.A = pick(&g.RNG, []int64{0, 0, 1, 200, 500, 900, 999, 1000})
		if f.kind == "err" && g.P(35) {
			x.Kind = "cut"
			x.A = int64(g.N(pick(&g.RNG, []int{3, 50, 400, 1500, 6000, 70000})))
		}
	case "wwrite":
		x.T, x.N = g.layer(), g.N(4)
		x.A = pick(&g.RNG, []int64{0, 300, 999, 1000})
	case "wclose", "wctor", "rclose", "rctor":
		x.T, x.N = g.layer(), 0
		x.A = int64(g.N(2))
	case "rread":
		x.T, x.N = g.layer(), g.N(5)
		x.A = int64(g.N(2))
	case "marshal", "unmarshal":
		x.N = 0
		x.A = int64(g.N(2))
	case "log", "scope":
		x.N = g.N(5)
		if g.P(40) {
			x.N = -1
		}
	}
	switch f.kind {
	case "slow":
		x.A = pick(&g.RNG, []int64{1, 1_000, 1_000_000, 37_000_000, 5_000_000_000})
	case "jump":
		x.A = pick(&g.RNG, []int64{1_000_000_000, 3_600_000_000_000})
	case "stall":
		x.A = int64(g.N(2))
	case "panic":
		x.A = int64(max(0, g.N(5)-2))
	case "abort":
		x.A = 0
	case "nest":
		x.A = int64(g.N(4096))
	case "err":
		if g.P(40) {
			x.E = g.Range(1, 2*len(sentinels)+1)
			switch f.at {
			case "rread", "rclose", "rctor", "wwrite", "wclose", "wctor":
				if g.P(40) { // what coders themselves report
					x.E = 2*pick(&g.RNG, []int{0, 1, 1, 2, 20, 21, 22, 23, 24}) + 1
				}
			}
		}
	}
	return x
}

// faults of one operation.
func (g *gen) faults(op *Op) {
	add := func(n int, sets ...[]fk) {
		for ; n > 0; n-- {
			op.Faults = append(op.Faults, g.fault(draw(g, sets...)))
		}
	}
	nest := 4
	switch g.prop {
	case "C12":
		nest = 15
	case "C01", "C02", "C03", "C04", "C20", "C13":
		nest = 8
	}
	if g.P(nest) {
		add(1, nesting)
	}
	switch g.prop {
	case "C01", "C02", "C03", "C20", "C18":
		if g.P(35) {
			add(g.Range(1, 2), failing, aborting, slowing, codeW)
		}
		if g.prop != "C18" && g.P(6) {
			add(1, stalling)
		}
	case "C04":
		if g.P(30) {
			add(1, failing, aborting, slowing, codeW, codeR)
		}
	case "C05":
		if g.P(45) {
			add(g.Range(1, 2), failing, aborting, slowing, codeW)
		}
	case "C06":
		if g.P(60) {
			add(g.Range(1, 2), []fk{{"bytes", "err", 10}, {"list", "err", 8}, {"choose", "err", 4}, {"marshal", "err", 2}, {"wclose", "err", 3}, {"wwrite", "err", 2}})
		}
		if g.P(20) {
			add(1, slowing)
		}
	case "C07":
		if g.P(75) {
			add(1, []fk{{"write", "err", 14}, {"write", "abort", 4}, {"write", "panic", 3}, {"wheader", "abort", 2}, {"bytes", "err", 2}, {"list", "err", 1}, {"write", "slow", 3}, {"bytes", "panic", 1}, {"choose", "panic", 1}})
		}
		if g.P(15) {
			add(1, failing, aborting)
		}
	case "C08":
		if g.P(45) {
			add(g.Range(1, 2), []fk{{"bytes", "err", 10}, {"bytes", "slow", 5}, {"write", "slow", 3}, {"list", "err", 2}, {"marshal", "err", 3}, {"wclose", "err", 4}, {"wwrite", "err", 4}})
		}
	case "C09":
		if g.P(55) {
			add(g.Range(1, 2), failing, failing, aborting, slowing)
		}
		if g.P(15) {
			add(1, obsFault)
		}
	case "C10":
		add(g.Range(1, 4), slowing)
		if g.P(35) {
			add(1, failing, aborting)
		}
		if g.P(20) {
			add(1, obsFault)
		}
		if g.P(8) {
			add(1, []fk{{"write", "stall", 3}, {"bytes", "stall", 2}, {"choose", "stall", 1}})
		}
	case "C11":
		if g.P(75) {
			add(g.Range(1, 3), obsFault)
		}
		if g.P(25) {
			add(1, failing, aborting)
		}
	case "C12":
		switch {
		case g.P(45):
			add(1, stalling)
		case g.P(45):
			add(g.Range(1, 2), aborting, failing, codeW)
		case g.P(30):
			add(1, slowing)
		}
	case "C13":
		if g.P(35) {
			add(g.Range(1, 2), failing, codeW, codeR)
		}
	case "C14":
		if g.P(8) {
			add(1, codeWP)
		} else if g.P(75) {
			add(g.Range(1, 2), codeW)
		}
		if g.P(10) {
			add(1, slowing)
		}
	case "C15":
		if g.P(5) {
			add(1, codeRP)
		} else if g.P(50) {
			add(g.Range(1, 2), codeR)
		}
	case "C16":
		if g.P(75) {
			add(g.Range(1, 2), codeW, codeR)
		}
	case "C17":
		if g.P(15) {
			add(1, []fk{{"wwrite", "slow", 3}, {"rread", "slow", 3}, {"wclose", "slow", 2}, {"marshal", "slow", 1}})
		}
		if g.P(12) {
			add(1, codeW, codeR)
		}
	case "C19":
		if g.P(20) {
			add(1, failing, aborting, codeW, slowing)
		}
	}
}

// ---- operations ----

func (g *gen) op(kind string) Op {
	op := Op{Kind: kind, Salt: g.U()}
	op.Neg = g.N(len(g.c.Negs))
	op.Slice = g.N(len(g.c.Slices))
	op.Req = g.N(len(g.c.Reqs))
	op.Rep = g.N(len(g.c.Reps))
	op.Share = g.P(50)
	op.Create = g.P(25)
	op.Plain = g.P(30)
	op.Reuse = g.P(35)
	if kind == "neg" {
		op.Buf = g.P(30)
		if op.Fresh = g.P(g.fresh); op.Fresh && g.P(70) {
			op.Alt = g.Range(1, 4)
		}
	}
	op.Nonce = g.Range(1, 99999)
	if g.P(35) {
		op.Ver = g.Range(1, 3)
	}
	switch g.prop {
	case "C08":
		op.Dyn = g.P(70)
	case "C13":
		op.Dyn = g.P(50)
	case "C14", "C15", "C16", "C17":
		op.Dyn = g.P(50)
	default:
		op.Dyn = g.P(30)
	}
	if g.P(50) || g.prop == "C17" {
		op.Chunk = g.Range(1, 1000)
	}
	op.Scrib = g.prop == "C19" && g.P(65)
	if kind == "frombytes" {
		n := 20
		if g.prop == "C15" {
			n = 75
		}
		if g.prop == "C13" {
			n = 60
		}
		if g.P(n) {
			d := &Damage{Kind: pick(&g.RNG, []string{"trunc", "trunc", "trunc", "flip", "flip", "over", "append", "zero"}), At: int64(g.N(1001)), Bit: g.N(8), N: g.Range(1, 8)}
			if g.P(40) {
				d.At = -int64(g.Range(1, 12))
			}
			if e := g.c.Reps[op.Rep].Enc; len(e) > 1 && g.P(30) {
				d.Layer = g.Range(1, len(e)-1)
				if g.P(20) {
					d.At = 0
				}
			}
			op.Damage = d
		}
	}
	if kind == "list" {
		if g.lists == nil || g.P(10) {
			g.lists = append(g.lists, g.N(1000))
		}
		op.N = pick(&g.RNG, g.lists)
		op.Reuse = g.P(60)
	}
	g.faults(&op)
	return op
}

func (g *gen) kind() string {
	switch g.prop {
	case "C14":
		return pick(&g.RNG, []string{"bytes", "bytes", "bytes", "round", "neg"})
	case "C15":
		return pick(&g.RNG, []string{"frombytes", "frombytes", "frombytes", "round"})
	case "C16":
		return pick(&g.RNG, []string{"bytes", "frombytes", "round", "neg"})
	case "C17":
		return pick(&g.RNG, []string{"round", "round", "bytes", "frombytes", "list"})
	case "C19":
		return pick(&g.RNG, []string{"bytes", "bytes", "round", "neg", "neg", "frombytes", "frombytes", "list"})
	case "C04":
		return pick(&g.RNG, []string{"neg", "neg", "neg", "neg", "neg", "bytes", "round", "frombytes", "list", "choose", "choose"})
	case "C05":
		return pick(&g.RNG, []string{"neg", "neg", "neg", "neg", "choose", "bytes", "list"})
	case "C13":
		return pick(&g.RNG, []string{"neg", "neg", "neg", "neg", "choose", "bytes", "frombytes", "list"})
	case "C18":
		return pick(&g.RNG, []string{"neg", "neg", "neg", "choose", "list"})
	case "C12":
		return pick(&g.RNG, []string{"neg", "neg", "neg", "neg", "neg", "bytes", "round", "list"})
	case "C20":
		return pick(&g.RNG, []string{"neg", "neg", "neg", "neg", "neg", "neg", "neg", "neg", "bytes", "round", "list", "choose"})
	}
	return "neg"
}

func (g *gen) sched() simrt.Config {
	c := simrt.Config{Seed: g.U()}
	switch k := g.N(20); {
	case k < 8:
		c.Mode = "geo"
		c.Mean = pick(&g.RNG, []int64{3, 10, 30, 100, 300, 1000, 3000})
		c.SeamP = pick(&g.RNG, []int64{0, 0, 100, 500})
	case k < 12:
		c.Mode = "pct"
		c.Depth = g.Range(1, 5)
		c.Span = pick(&g.RNG, []int64{500, 2000, 8000, 30000})
	case k < 15:
		c.Mode = "seam"
		c.Mean = 5000
		c.SeamP = pick(&g.RNG, []int64{100, 300, 600, 900})
	case k < 19:
		c.Mode = "focus"
		c.Mean = pick(&g.RNG, []int64{100, 1000, 5000})
		c.Focus = pick(&g.RNG, []int{5, 20, 60, 150})
		c.SeamP = pick(&g.RNG, []int64{0, 50})
	default:
		c.Mode = "none"
	}
	return c
}

// crowd is very many clients that all stall, and nothing may notice.
func (g *gen) crowd(ph *Phase, n int) {
	f := g.fault(draw(g, stalling))
	f.N, f.T = 0, -1
	if g.P(60) {
		f.At = "write"
	}
	for ; n > 0; n-- {
		op := g.op("neg")
		g.id++
		op.ID = g.id
		op.Faults = []Fault{f}
		op.Faults[0].A = int64(g.N(2))
		ph.Tasks = append(ph.Tasks, TaskSpec{Ops: []Op{op}})
	}
}

func (g *gen) work() {
	var pool []Op
	if g.iso {
		n := g.Range(4, 12)
		for i := 0; i < n; i++ {
			op := g.op(g.kind())
			pool = append(pool, op)
			if op.Kind == "frombytes" && g.P(60) { // and one that differs a little
				if op.Reuse = true; g.P(60) {
					op.Nonce, op.Ver, op.Damage = op.Nonce^1, op.Ver^1, nil
				} else {
					op.Damage = &Damage{Kind: "flip", At: int64(g.N(1001)), Bit: g.N(8), N: 1}
				}
				pool = append(pool, op)
			}
		}
	}
	next := func() Op {
		var op Op
		if g.iso {
			op = pick(&g.RNG, pool)
		} else {
			op = g.op(g.kind())
		}
		g.id++
		op.ID = g.id
		return op
	}
	c := g.c
	if g.prop == "C18" {
		// a sequence, each operation two to four times, with other orders
		var t TaskSpec
		for i := g.Range(4, 12); i > 0; i-- {
			op := next()
			t.Ops = append(t.Ops, op)
			for k := g.Range(1, 3); k > 0; k-- {
				g.id++
				op.ID, op.Salt = g.id, g.U() // the salt decides the orders
				t.Ops = append(t.Ops, op)
			}
		}
		for i := range t.Ops {
			j := g.N(i + 1)
			t.Ops[i], t.Ops[j] = t.Ops[j], t.Ops[i]
		}
		c.Phases = []Phase{{Tasks: []TaskSpec{t}, Sched: simrt.Config{Mode: "none"}}}
		return
	}
	np := 1
	if g.P(25) {
		np = 2
	}
	for p := 0; p < np; p++ {
		ph := Phase{Sched: g.sched()}
		nt := g.Range(2, 6)
		if g.P(12) {
			nt = g.Range(8, 14)
		}
		if g.P(6) {
			nt = 1
		}
		if g.prop == "C12" && g.P(3) {
			g.crowd(&ph, pick(&g.RNG, []int{g.Range(20, 140), g.Range(20, 140), 270, 530}))
		}
		builds := (g.prop == "C12" || g.prop == "C04") && g.P(25)
		for i := 0; i < nt; i++ {
			var t TaskSpec
			if g.P(15) || g.prop == "C10" && g.P(50) {
				t.Delay = pick(&g.RNG, []int64{1000, 1_000_000, 40_000_000, 3_000_000_000})
			}
			k := g.Range(1, 5)
			if nt > 6 {
				k = g.Range(1, 2)
			}
			if g.twins {
				k += g.Range(3, 9)
			}
			for ; k > 0; k-- {
				if (g.prop == "C20" || builds) && g.P(35) {
					g.id++
					b := Op{ID: g.id, Kind: "build", Neg: g.N(len(c.Negs)), Salt: g.U(), N: g.N(4)}
					t.Ops = append(t.Ops, b)
				}
				op := next()
				t.Ops = append(t.Ops, op)
				if !g.iso && op.Kind == "frombytes" && g.P(25) { // the same again, damaged
					last := &t.Ops[len(t.Ops)-1]
					last.Reuse, last.Damage, last.Faults = true, nil, nil
					g.id++
					op = *last
					op.ID, op.Damage = g.id, &Damage{Kind: pick(&g.RNG, []string{"flip", "flip", "over", "zero", "trunc"}), At: int64(g.N(1001)), Bit: g.N(8), N: g.Range(1, 8)}
					t.Ops = append(t.Ops, op)
				}
			}
			ph.Tasks = append(ph.Tasks, t)
		}
		c.Phases = append(c.Phases, ph)
	}
	flood := 0
	switch g.prop {
	case "C01", "C02", "C03":
		flood = 5
	case "C12", "C19":
		flood = 3
	case "C05", "C06", "C07", "C08", "C09", "C10", "C13":
		flood = 2
	}
	if g.P(flood) {
		g.id++
		f := Op{ID: g.id, Kind: "flood", Neg: g.N(len(c.Negs)), Slice: g.N(len(c.Slices)), Nonce: g.N(1000), Salt: g.U(), Reuse: g.P(50), N: pick(&g.RNG, []int{70, 140, 300, 1100, 2100})}
		total := 2000
		for _, i := range c.Slices[f.Slice].Reps {
			total += max(c.Reps[i].Size, 0)%exactly + 2000
		}
		f.N = max(min(f.N, 60_000_000/total), 10)
		if g.P(60) { // most of them fail, all in the same way
			x := g.fault(draw(g, failing, aborting, codeW))
			if g.P(60) {
				x.N, x.T = 0, -1
			}
			f.Faults = []Fault{x}
		}

		c.Phases = append(c.Phases, Phase{Tasks: []TaskSpec{{Ops: []Op{f}}}, Sched: simrt.Config{Mode: "none"}})
	}
	if g.iso {
		// afterwards, without faults
		var t TaskSpec
		for k := g.Range(1, 4); k > 0; k-- {
			op := next()
			op.Faults = nil
			if g.P(30) {
				op.Salt = g.U()
				op.Req = g.N(len(c.Reqs))
			}
			t.Ops = append(t.Ops, op)
		}
		c.Phases = append(c.Phases, Phase{Tasks: []TaskSpec{t}, Sched: simrt.Config{Mode: "none"}, Probe: true})
	}
}
