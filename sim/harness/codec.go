package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"strings"

	"github.com/freerware/negotiator/representation"
	"gopkg.in/yaml.v2"

	"verifsim/simrt"
)

// coderRec is the life of one content coder opened by the library.
type coderRec struct {
	name     string
	dir      string // w or r
	idx      int
	closed   int
	useAfter int
	atEnd    int // times closed when the operation returned
}

var (
	harnessWriters       = map[string]representation.EncodingWriterConstructor{}
	harnessReaders       = map[string]representation.EncodingReaderConstructor{}
	harnessMarshallers   = map[string]representation.Marshaller{}
	harnessUnmarshallers = map[string]representation.Unmarshaller{}
)

var codings = []string{"gzip", "x-gzip", "compress", "x-compress", "deflate", "x-frame"}

var refMarshal = map[string]func(any) ([]byte, error){
	"application/json": json.Marshal,
	"application/xml":  xml.Marshal,
	"application/yaml": yaml.Marshal,
	"text/yaml":        yaml.Marshal,
	"text/html":        xml.Marshal,
	blobType:           marshalBlob,
}

// blobType has content of any bytes, also none; only own coder maps know it.
const blobType = "application/x-blob"

var (
	blobLead  = []string{"", "\n", " ", "\xef\xbb\xbf", "\x1f\x8b\x08", "\x00", "\x78\x9c", "FR"}
	blobTrail = []string{"", "\n", " ", "\r\n", "\x00", "\x00\x00\x00\x00", "\xff"}
)

func blobOf(p payload) []byte {
	if samePayload(p, payload{}) {
		return []byte{}
	}
	h := mix64(uint64(p.Rep)<<32|uint64(p.Ver)<<24|uint64(p.Nonce), uint64(p.Call))
	return []byte(blobLead[h%8] + jsonOf(p) + blobTrail[h/8%7])
}

func marshalBlob(v any) ([]byte, error) {
	if p, ok := v.(*payload); ok {
		return blobOf(*p), nil
	}
	return nil, errors.New("blob: not a document")
}

func unmarshalBlob(b []byte, v any) error {
	p, ok := v.(*payload)
	if !ok {
		return errors.New("blob: not a document")
	}
	var q payload
	if len(b) > 0 {
		i, j := bytes.IndexByte(b, '{'), bytes.LastIndexByte(b, '}')
		if i < 0 || j < i {
			return errors.New("blob: no content")
		}
		if err := json.Unmarshal(b[i:j+1], &q); err != nil {
			return err
		}
		if !bytes.Equal(blobOf(q), b) {
			return errors.New("blob: not as written")
		}
	}
	*p = q
	return nil
}

var refUnmarshal = map[string]func([]byte, any) error{
	"application/json": json.Unmarshal,
	"application/xml":  xml.Unmarshal,
	"application/yaml": yaml.Unmarshal,
	"text/yaml":        yaml.Unmarshal,
	"text/html":        xml.Unmarshal,
	blobType:           unmarshalBlob,
}

func init() {
	for _, n := range codings {
		harnessWriters[n] = func(w io.WriteCloser) (io.WriteCloser, error) { return openWriter(n, w) }
		harnessReaders[n] = func(r io.Reader) (io.ReadCloser, error) { return openReader(n, r) }
	}
	for t, f := range refMarshal {
		harnessMarshallers[t] = func(v any) ([]byte, error) {
			if c := ctxOf(); c != nil {
				if ft, err := c.hit("marshal", -1); err != nil {
					if ft.A == 1 {
						return []byte(`{"partial"`), err
					}
					return nil, err
				}
			}
			return f(v)
		}
	}
	for t, f := range refUnmarshal {
		harnessUnmarshallers[t] = func(b []byte, v any) error {
			c := ctxOf()
			if c != nil {
				ft, err := c.hit("unmarshal", -1)
				if err != nil {
					if ft.A == 1 {
						_ = f(b, v)
					}
					return err
				}
			}
			return f(b, v)
		}
	}
}

// ---- the codings themselves (real standard library coders) ----

func stdWriter(name string, w io.Writer) io.WriteCloser {
	switch name {
	case "gzip", "x-gzip":
		return gzip.NewWriter(w)
	case "compress", "x-compress":
		return zlib.NewWriter(w)
	case "deflate":
		f, _ := flate.NewWriter(w, 5)
		return f
	case "x-frame":
		return &frameWriter{w: w}
	}
	return nil
}

func stdReader(name string, r io.Reader) (io.ReadCloser, error) {
	switch name {
	case "gzip", "x-gzip":
		g, err := gzip.NewReader(r)
		if err != nil {
			return nil, err
		}
		return g, nil
	case "compress", "x-compress":
		return zlib.NewReader(r)
	case "deflate":
		return flate.NewReader(r), nil
	case "x-frame":
		return &frameReader{r: r}, nil
	}
	return nil, errors.New("no such coding")
}

// frameWriter holds everything back until Close.
type frameWriter struct {
	w   io.Writer
	buf bytes.Buffer
}

func (f *frameWriter) Write(b []byte) (int, error) { return f.buf.Write(b) }
func (f *frameWriter) Close() error {
	var h [8]byte
	copy(h[:], "FR")
	binary.BigEndian.PutUint32(h[2:], uint32(f.buf.Len()))
	if _, err := f.w.Write(h[:6]); err != nil {
		return err
	}
	p := append([]byte(nil), f.buf.Bytes()...)
	for i := range p {
		p[i] ^= 0x5a
	}
	if _, err := f.w.Write(p); err != nil {
		return err
	}
	binary.BigEndian.PutUint32(h[:4], crc32.ChecksumIEEE(f.buf.Bytes()))
	_, err := f.w.Write(h[:4])
	return err
}

type frameReader struct {
	r   io.Reader
	out *bytes.Reader
	err error
}

func (f *frameReader) Read(b []byte) (int, error) {
	if f.out == nil && f.err == nil {
		all, err := io.ReadAll(f.r)
		switch {
		case err != nil:
			f.err = err
		case len(all) < 10 || string(all[:2]) != "FR":
			f.err = io.ErrUnexpectedEOF
		default:
			n := int(binary.BigEndian.Uint32(all[2:]))
			if n != len(all)-10 {
				f.err = io.ErrUnexpectedEOF
				break
			}
			p := append([]byte(nil), all[6:6+n]...)
			for i := range p {
				p[i] ^= 0x5a
			}
			if crc32.ChecksumIEEE(p) != binary.BigEndian.Uint32(all[6+n:]) {
				f.err = errors.New("x-frame: checksum")
				break
			}
			f.out = bytes.NewReader(p)
		}
	}
	if f.err != nil {
		return 0, f.err
	}
	return f.out.Read(b)
}
func (f *frameReader) Close() error { return nil }

// ---- wrappers at the seam ----

type hWriter struct {
	c   *opCtx
	rec *coderRec
	enc io.WriteCloser
}

// chunker splits what a coder writes.
type chunker struct {
	w io.Writer
	r *RNG
	c *opCtx
}

func (k *chunker) Write(b []byte) (int, error) {
	done := 0
	for len(b) > 0 {
		n := len(b)
		if n > 1 {
			n = 1 + k.r.N(min(n, 64))
		}
		m, err := k.w.Write(b[:n])
		done += m
		if err != nil {
			return done, err
		}
		b = b[n:]
		simrt.Seam(15)
	}
	return done, nil
}

func openWriter(name string, w io.WriteCloser) (io.WriteCloser, error) {
	c := ctxOf()
	if c == nil {
		return stdWriter(name, w), nil
	}
	i := c.nw
	c.nw++
	if _, err := c.hit("wctor", i); err != nil {
		return nil, err
	}
	rec := &coderRec{name: name, dir: "w", idx: i}
	c.coders = append(c.coders, rec)
	var dst io.Writer = w
	if c.op.Chunk > 0 {
		dst = &chunker{w, &RNG{uint64(c.op.Chunk)*7919 + uint64(i)}, c}
	}
	return &hWriter{c, rec, stdWriter(name, dst)}, nil
}

func (h *hWriter) Write(b []byte) (int, error) {
	if h.rec.closed > 0 {
		h.rec.useAfter++
		return 0, errors.New("write to a closed coder")
	}
	if f, err := h.c.hit("wwrite", h.rec.idx); err != nil {
		n := int(int64(len(b)) * f.A / 1000)
		n, _ = h.enc.Write(b[:n])
		return n, err
	}
	return h.enc.Write(b)
}

func (h *hWriter) Close() error {
	h.rec.closed++
	if h.rec.closed > 1 {
		return errors.New("coder closed again")
	}
	if f, err := h.c.hit("wclose", h.rec.idx); err != nil {
		if f.A == 1 {
			h.enc.Close()
		}
		return err
	}
	return h.enc.Close()
}

type hReader struct {
	c   *opCtx
	rec *coderRec
	dec io.ReadCloser
	r   *RNG
	eof bool
}

func openReader(name string, r io.Reader) (io.ReadCloser, error) {
	c := ctxOf()
	if c == nil {
		return stdReader(name, r)
	}
	i := c.nr
	c.nr++
	if _, err := c.hit("rctor", i); err != nil {
		return nil, err
	}
	d, err := stdReader(name, r)
	if err != nil {
		return nil, err
	}
	rec := &coderRec{name: name, dir: "r", idx: i}
	c.coders = append(c.coders, rec)
	h := &hReader{c: c, rec: rec, dec: d}
	if c.op.Chunk > 0 {
		h.r = &RNG{uint64(c.op.Chunk)*104729 + uint64(i)}
	}
	return h, nil
}

func (h *hReader) Read(b []byte) (int, error) {
	if h.rec.closed > 0 {
		h.rec.useAfter++
		return 0, errors.New("read from a closed coder")
	}
	f, err := h.c.hit("rread", h.rec.idx)
	if err != nil {
		n := 0
		if f.A == 1 && !h.eof {
			n, _ = h.dec.Read(b[:min(len(b), 16)])
		}
		return n, err
	}
	if h.eof {
		return 0, io.EOF
	}
	if h.r == nil || len(b) == 0 {
		return h.dec.Read(b)
	}
	switch h.r.N(6) {
	case 0:
		return 0, nil
	case 1: // data and end together
		n, err := h.dec.Read(b)
		if err == nil && n < len(b) {
			var m int
			m, err = h.dec.Read(b[n:])
			n += m
		}
		if err == io.EOF {
			h.eof = true
		}
		return n, err
	case 2:
		return h.dec.Read(b)
	}
	return h.dec.Read(b[:1+h.r.N(min(len(b), 40))])
}

func (h *hReader) Close() error {
	h.rec.closed++
	if h.rec.closed > 1 {
		return errors.New("coder closed again")
	}
	if _, err := h.c.hit("rclose", h.rec.idx); err != nil {
		h.dec.Close()
		return err
	}
	return h.dec.Close()
}

// ---- reference encoding and decoding ----

func baseType(ct string) string {
	return strings.ToLower(strings.Split(ct, ";")[0])
}

func isCoded(enc []string) bool {
	return len(enc) > 0 && !strings.EqualFold(enc[0], "identity")
}

func refEncode(enc []string, b []byte) ([]byte, error) {
	if !isCoded(enc) {
		return b, nil
	}
	for _, e := range enc {
		var buf bytes.Buffer
		w := stdWriter(strings.ToLower(e), &buf)
		if w == nil {
			return nil, fmt.Errorf("no coding %q", e)
		}
		if _, err := w.Write(b); err != nil {
			return nil, err
		}
		if err := w.Close(); err != nil {
			return nil, err
		}
		b = buf.Bytes()
	}
	return b, nil
}

// refDecode undoes the codings, the last listed first; strict also refuses
// bytes that no coding accounts for.
func refDecode(enc []string, b []byte, strict bool) ([]byte, error) {
	if !isCoded(enc) {
		return b, nil
	}
	for i := len(enc) - 1; i >= 0; i-- {
		src := bytes.NewReader(b)
		r, err := stdReader(strings.ToLower(enc[i]), src)
		if err != nil {
			return nil, err
		}
		out, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		if err := r.Close(); err != nil {
			return nil, err
		}
		if strict && src.Len() != 0 {
			return nil, fmt.Errorf("%d bytes left over under %s", src.Len(), enc[i])
		}
		b = out
	}
	return b, nil
}

func checksummed(enc []string) bool {
	for _, e := range enc {
		if strings.ToLower(e) != "deflate" {
			return true
		}
	}
	return false
}

// decodePayload decodes serialized content without the library.
func decodePayload(ct string, enc []string, b []byte) (payload, error) {
	var p payload
	raw, err := refDecode(enc, b, true)
	if err != nil {
		return p, err
	}
	f := refUnmarshal[baseType(ct)]
	if f == nil {
		return p, errors.New("no such type")
	}
	err = f(raw, &p)
	return p, err
}

func samePayload(a, b payload) bool {
	if len(a.Items) == 0 && len(b.Items) == 0 { // not every format tells none from empty
		a.Items, b.Items = nil, nil
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

// layer is the number of codings under the damage, when there are others over it.
func (d *Damage) layer(s *RepSpec) int {
	if d == nil || d.Layer <= 0 || d.Layer >= len(s.Enc) || !s.supported() || !isCoded(s.Enc) {
		return 0
	}
	return d.Layer
}

func (d *Damage) apply(b []byte) []byte {
	out := append([]byte(nil), b...)
	n := len(out)
	if n == 0 {
		return out
	}
	at := int(int64(n) * d.At / 1000)
	if d.At < 0 { // from the end
		at = n + int(d.At)
	}
	if at < 0 {
		at = 0
	}
	if at >= n {
		at = n - 1
	}
	switch d.Kind {
	case "trunc":
		return out[:at]
	case "flip":
		out[at] ^= 1 << (d.Bit & 7)
	case "over":
		for i := 0; i < d.N && at+i < n; i++ {
			out[at+i] = byte(mix64(uint64(d.Bit), uint64(i)))
		}
	case "append":
		for i := 0; i < d.N; i++ {
			out = append(out, byte(mix64(uint64(d.Bit), uint64(i))))
		}
	case "zero":
		for i := at; i < n; i++ {
			out[i] = 0
		}
	}
	return out
}
