package main

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	mh "github.com/multiformats/go-multihash"
	"unicode/utf8"
)

func init() {
	register("C10", "exploration", c10)
	register("C11", "fault_enumeration", c11)
	register("C12", "fault_enumeration", c12)
	register("C13", "exploration", c13)
	register("C14", "exploration", c14)
}

// deliveries are ways a correct reader may hand out the same bytes.
func deliveries(t *T) []struct {
	name string
	src  func([]byte) io.Reader
} {
	type d = struct {
		name string
		src  func([]byte) io.Reader
	}
	rnd := func(max int) func() int { return func() int { return 1 + t.IntN(max) } }
	stutter := func() func() int {
		empty := false
		return func() int {
			empty = !empty && t.IntN(3) == 0
			if empty {
				return 0
			}
			return 1 + t.IntN(9)
		}
	}
	return []d{
		{"whole", plainSrc},
		{"one-byte", func(b []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(b)) }},
		{"half", func(b []byte) io.Reader { return iotest.HalfReader(bytes.NewReader(b)) }},
		{"data-with-eof", func(b []byte) io.Reader { return iotest.DataErrReader(bytes.NewReader(b)) }},
		{"random", func(b []byte) io.Reader { return &chunkReader{b: b, next: rnd(50)} }},
		{"random-eof", func(b []byte) io.Reader { return &chunkReader{b: b, next: rnd(5), eof: true} }},
		{"empty-reads", func(b []byte) io.Reader { return &chunkReader{b: b, next: stutter()} }},
		{"4096", func(b []byte) io.Reader { return &chunkReader{b: b, next: func() int { return 4096 }} }},
		{"4095", func(b []byte) io.Reader { return &chunkReader{b: b, next: func() int { return 4095 }} }},
		{"header-apart", func(b []byte) io.Reader {
			i := bytes.IndexByte(b, 0) + 1
			return io.MultiReader(bytes.NewReader(b[:i]), bytes.NewReader(b[i:]))
		}},
		{"buffer", func(b []byte) io.Reader { return bytes.NewBuffer(append([]byte{}, b...)) }},
		{"string", func(b []byte) io.Reader { return strings.NewReader(string(b)) }},
		{"bufio16", func(b []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(b), 16) }},
		{"bufio64k", func(b []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(b), 1<<16) }},
		{"pipe", func(b []byte) io.Reader {
			pr, pw := io.Pipe()
			go func() { pw.Write(b); pw.Close() }()
			return pr
		}},
		// readers that could be rewound, placed after something else
		{"seekable", func(b []byte) io.Reader {
			r := bytes.NewReader(append([]byte("blob 3\x00abc"), b...))
			r.Seek(10, io.SeekStart)
			return r
		}},
		{"section", func(b []byte) io.Reader {
			all := append([]byte("blob 3\x00abcblob 3\x00abc"), b...)
			r := io.NewSectionReader(bytes.NewReader(append(all, "trailing"...)), 10, int64(10+len(b)))
			r.Seek(10, io.SeekStart)
			return r
		}},
		{"file", func(b []byte) io.Reader {
			f, err := os.CreateTemp("", "delivery")
			if err != nil {
				harnessError("%v", err)
			}
			defer os.Remove(f.Name())
			runtime.SetFinalizer(f, (*os.File).Close)
			f.WriteString("blob 3\x00abc")
			f.Write(b)
			f.Seek(10, io.SeekStart)
			return f
		}},
		{"tee", func(b []byte) io.Reader { return io.TeeReader(bytes.NewReader(b), new(bytes.Buffer)) }},
		{"multi", func(b []byte) io.Reader {
			i := t.IntN(len(b) + 1)
			return io.MultiReader(bytes.NewBuffer(append([]byte{}, b[:i]...)), strings.NewReader(""), strings.NewReader(string(b[i:])))
		}},
		{"limited", func(b []byte) io.Reader {
			return io.LimitReader(bytes.NewReader(append(append([]byte{}, b...), "trailing"...)), int64(len(b)))
		}},
	}
}

func c10(c *Ctx) {
	c.Rule = "Well-formed and mutated objects read through every entry point (stream, buffer, block, zlib at two levels, codec registry, link system, per-kind functions with three buffer sizes; typed, representation and generic builders) and every delivery (whole, byte by byte, halves, random chunks, empty reads in between, data together with EOF, pipe, ...). Oracle: the same verdict and the same data as reading the whole buffer. Distinct by input; non-trivial: more than a header."
	eps := entryPoints()
	agree := func(t *T, raw []byte) {
		t.Input(raw)
		base, berr := parse(raw)
		want := ""
		if berr == nil {
			want = View(base)
			t.Count("event:base-accepted")
		} else {
			t.Count("event:base-refused")
		}
		ds := deliveries(t)
		for i, ep := range eps {
			for j, d := range ds {
				// all entry points with the plain reader, each other
				// combination in turn
				if j > 0 && (i+j+t.Idx)%len(ds) != 0 {
					continue
				}
				n, err := ep.F(raw, d.src)
				if (err == nil) != (berr == nil) {
					t.Failf("%s with delivery %s: error %v, from the whole buffer: %v", ep.Name, d.name, err, berr)
				}
				if err == nil {
					if n == nil {
						t.Failf("%s: nil node", ep.Name)
					}
					wantView(t, ep.Name+" with delivery "+d.name, View(n), want)
				} else if n != nil && (strings.HasPrefix(ep.Name, "Parse") || ep.Name == "DecodeBlock") {
					t.Failf("%s returned a node with the error %v", ep.Name, err)
				}
				t.Count("delivery:" + d.name)
				t.Count("entry:" + ep.Name)
				t.Count("event:compared")
			}
		}
		if len(raw) > 10 {
			t.Distinct(raw)
		}
		t.Sample(2, clip(raw, 160))
	}
	c.Run("agree", c.N(15000, 300000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(3) > 0}
		raw := Raw(g.object())
		if t.IntN(2) == 0 {
			raw = mutate(g, raw)
		}
		agree(t, raw)
	})
	c.Run("heads", c.N(3000, 60000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		o := g.object()
		body := string(o.Body())
		kind, size := o.Kind(), strconv.Itoa(len(body))
		switch g.IntN(10) {
		case 0:
			kind = strings.ToUpper(kind)
		case 1:
			kind = strings.ToUpper(kind[:1]) + kind[1:]
		case 2:
			kind = pick(g.Rand, []string{" ", "\t", "\n", "\x00", "x", "\ufeff"}) + kind
		case 3:
			kind += pick(g.Rand, []string{" ", "\t", "\n", "\x00", "x", "s", "\r"})
		case 4:
			kind = kind[:g.IntN(len(kind))]
		case 5:
			kind = pick(g.Rand, []string{"blob", "tree", "commit", "tag", "ofs-delta", "note", "link", ""})
		case 6:
			size = pick(g.Rand, []string{" ", "+", "-", "0", "\t", "\n"}) + size
		case 7:
			size += pick(g.Rand, []string{" ", "\t", "\n", "\r", "x", "0", ".0"})
		case 8:
			size = strconv.Itoa(len(body) + g.IntN(9) - 4)
		default:
			size = pick(g.Rand, []string{"", "x", "-1", "99999999999999999999", "0"})
		}
		agree(t, []byte(kind+" "+size+pick(g.Rand, []string{"\x00", "\x00", "\x00", "\x00", "", " \x00", "\x00\x00", "\n"})+body))
	})
	// large objects, compressible or not, through every entry point
	c.Run("large", c.N(20, 200), func(t *T) {
		o := largeObject(t, t.Idx)
		if t.Idx%5 == 4 {
			b := make([]byte, 1<<20+t.IntN(5<<20))
			for i := range b {
				b[i] = byte(t.Uint32())
			}
			switch t.IntN(3) {
			case 0:
				o = &Blob{b}
			case 1:
				o = &Tag{Object: Sha{1}, Type: "blob", Name: "t", Tagger: &Person{Name: "x", Email: "y"}, Message: string(b)}
			default:
				o = &Commit{Tree: Sha{2}, Message: string(b)}
			}
		}
		raw := Raw(o)
		want := o.View()
		ds := deliveries(t)
		for i, ep := range eps {
			if o.Kind() == "tree" && strings.HasSuffix(ep.Name, "generic") && i%3 > 0 {
				continue
			}
			d := ds[0]
			if i%3 == t.Idx%3 {
				d = pick(t.Rand, ds)
			}
			if len(raw) > 1<<21 && (d.name == "one-byte" || d.name == "random-eof" || d.name == "empty-reads") {
				d = ds[0]
			}
			n, err := ep.F(raw, d.src)
			if err != nil {
				t.Failf("%s with delivery %s: object of %d bytes: %v", ep.Name, d.name, len(raw), err)
			}
			wantView(t, ep.Name+" with delivery "+d.name, View(n), want)
			t.Count("event:large-compared")
			t.Count("entry:" + ep.Name)
		}
		t.Distinct(raw)
	})
	// long lines and boundaries of readers' buffers, at every small offset
	c.Run("boundaries", c.N(3000, 60000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		o := g.commit()
		pad := strings.Repeat("p", []int{3900, 3900, 3900, 7996, 16188, 32572, 65340}[t.IntN(7)]+t.Idx%400)
		switch t.IntN(5) {
		case 0:
			o.Author.Or().Name = pad
		case 1:
			o.Other = append(o.Other, "x "+pad)
		case 2:
			m := g.mergeTag()
			m.Message = " " + pad + "\n"
			o.MergeTags = append([]Tag{m}, o.MergeTags...)
		case 3:
			s := " \n " + pad + "\n"
			o.Sig = &s
		case 4:
			o.Message = pad + "\n" + o.Message
		}
		raw := Raw(o)
		t.Input(raw)
		want := o.View()
		ds := deliveries(t)
		for k := 0; k < 6; k++ {
			ep, d := pick(t.Rand, eps), pick(t.Rand, ds)
			n, err := ep.F(raw, d.src)
			if err != nil {
				t.Failf("%s with delivery %s: %v", ep.Name, d.name, err)
			}
			wantView(t, ep.Name+" with delivery "+d.name, View(n), want)
			t.Count("event:compared")
		}
		t.Distinct(raw)
	})
}

// ---------------------------------------------------------------- C11

var errInjected = errors.New("injected read failure")

// faultReader delivers b and fails at offset at.
type faultReader struct {
	b     []byte
	at    int
	mode  int // 0: fail alone and stay failed, 1: fail alone once, 2: fail with data once, 3: fail alone, then EOF, 4: with data, stay failed
	pos   int
	chunk int
	fired bool
	err   error
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.pos == r.at && !r.fired && (r.mode == 0 || r.mode == 1 || r.mode == 3) {
		r.fired = true
		return 0, r.err
	}
	if r.fired {
		switch r.mode {
		case 0, 4:
			return 0, r.err
		case 3:
			return 0, io.EOF
		}
	}
	end := len(r.b)
	if !r.fired {
		end = r.at
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.b[r.pos:end])
	r.pos += n
	if r.pos == r.at && !r.fired && (r.mode == 2 || r.mode == 4) {
		r.fired = true
		return n, r.err
	}
	if n == 0 && r.pos == len(r.b) {
		return 0, io.EOF
	}
	return n, nil
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// tempErr calls itself passing, like the errors of some network connections.
type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Temporary() bool { return true }

// sourceErrors are the errors that readers and writers fail with: none of them may
// be taken for the end of the object or for something to be tried again. (A reader
// that fails with bufio.ErrBufferFull is misunderstood by bufio itself.)
var sourceErrors = []error{
	errInjected, timeoutErr{}, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", errInjected), io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, context.Canceled,
	io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, os.ErrClosed, net.ErrClosed, context.DeadlineExceeded, tempErr{},
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.EIO, syscall.ENOSPC, syscall.ECONNRESET,
	&os.PathError{Op: "read", Path: "objects/ab", Err: syscall.EIO}, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
	fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), fmt.Errorf("wrapped: %w", os.ErrDeadlineExceeded), errors.Join(errInjected, io.ErrClosedPipe),
	zlib.ErrHeader, zlib.ErrChecksum, zlib.ErrDictionary, strconv.ErrSyntax, strconv.ErrRange, hex.ErrLength, hex.InvalidByteError('x'),
	fs.ErrNotExist, datamodel.ErrNotExists{Segment: datamodel.PathSegmentOfString("tagger")}, datamodel.ErrIteratorOverread{},
	schema.ErrNoSuchField{Field: datamodel.PathSegmentOfString("tagger")},
}

func c11(c *Ctx) {
	c.Rule = "For each object and each offset up to and including its end, a reader that fails there (for good, alone or together with the last data; once and then goes on; or once and then ends), read through the streaming entry points; and for each compressed object a failure at every offset of the stream and every byte of the stream altered. Oracle: the injected error is returned (errors.Is) and no node; altered streams give an error or exactly the original data (unless the altered content happens to have the same Adler-32 checksum). Distinct by object; non-trivial: body of at least one byte."
	all := entryPoints()
	var eps []EntryPoint
	for _, e := range all {
		switch e.Name {
		case "ParseObject", "Decode/typed", "Decode/repr", "Decode/generic", "codec/typed", "DecodeKind/typed/buf16", "DecodeKind/repr/buf4096", "DecodeKind/generic/buf65536":
			eps = append(eps, e)
		}
	}
	errsl := sourceErrors
	sampled := func(t *T, o Object, most int) {
		raw := Raw(o)
		t.Input(raw)
		step := 1 + len(raw)/(most+most/2)
		k := t.IntN(1000)
		for at := 0; at <= len(raw); at++ {
			if at%step != 0 && (at < len(raw)-25 || most < 100 && at%8 != 0) {
				continue
			}
			for mode := 0; mode < 5; mode++ {
				if mode == 2 || mode == 4 && at == 0 {
					// A passing error that comes together with data is
					// dropped by io.ReadFull itself when the data suffices.
					continue
				}
				k++
				e := errsl[k%len(errsl)]
				ep := eps[(k/3)%len(eps)]
				chunk := []int{0, 1, 7, 0}[k%4]
				var fr *faultReader
				n, err := ep.F(raw, func(b []byte) io.Reader {
					fr = &faultReader{b: b, at: at, mode: mode, chunk: chunk, err: e}
					return fr
				})
				if !fr.fired {
					// not reached: only legitimate with an error of its own
					t.Failf("%s: the failure at offset %d of %d was never reached (err %v)", ep.Name, at, len(raw), err)
				}
				if err == nil {
					t.Failf("%s: read failure at offset %d of %d (mode %d) gave a node", ep.Name, at, len(raw), mode)
				}
				if !errors.Is(err, e) {
					t.Failf("%s: read failure %q at offset %d of %d (mode %d) reported as %q", ep.Name, e, at, len(raw), mode, err)
				}
				if n != nil {
					t.Failf("%s: node together with error %v", ep.Name, err)
				}
				t.Count(fmt.Sprintf("fault:mode%d", mode))
				t.Count("entry:" + ep.Name)
			}
		}
		level := pick(t.Rand, []int{0, 1, 6, 9})
		z := deflate(raw, level)
		zstep := 1 + len(z)/most
		for at := 0; at < len(z); at++ {
			if at%zstep != 0 && at < len(z)-12 {
				continue
			}
			for _, mode := range []int{0, 1, 4} {
				if mode == 4 && at == 0 {
					continue
				}
				// After a one-off failure the rest could complete the stream,
				// so only what was read before the failure counts.
				k++
				e := errsl[k%len(errsl)]
				fr := &faultReader{b: z, at: at, mode: mode, err: e}
				n, err := ipldgit.ParseCompressedObject(fr)
				if err == nil || n != nil {
					t.Failf("ParseCompressedObject: read failure at offset %d of %d (mode %d) gave %v, %v", at, len(z), mode, n != nil, err)
				}
				if !errors.Is(err, e) {
					t.Failf("ParseCompressedObject: read failure at offset %d of %d (mode %d) reported as %q", at, len(z), mode, err)
				}
				t.Count("fault:compressed-read")
			}
		}
		want := View(mustParse(t, raw))
		for at := 0; at < len(z); at++ {
			if at%zstep != 0 && at < len(z)-12 {
				continue
			}
			for _, x := range []byte{0x01, 0x80, 0xff, byte(1 + t.IntN(255))} {
				zz := append([]byte{}, z...)
				zz[at] ^= x
				n, err := ipldgit.ParseCompressedObject(bytes.NewReader(zz))
				t.Count("fault:corrupted-byte")
				if err != nil {
					t.Count("event:corruption-reported")
					continue
				}
				if zr, err := zlib.NewReader(bytes.NewReader(zz)); err == nil {
					if b, err := io.ReadAll(zr); err == nil && !bytes.Equal(b, raw) {
						// the altered content has the same checksum
						t.Count("event:checksum-collision")
						continue
					}
				}
				t.Count("event:corruption-harmless")
				if View(n) != want {
					t.Failf("compressed byte %d of %d changed by %#x: decoded to other data without an error", at, len(z), x)
				}
			}
		}
		// two streams spliced, the checksum of another object
		o2 := Raw(Gen{Rand: t.Rand, Small: true}.object())
		z2 := deflate(o2, level)
		if !bytes.Equal(o2, raw) {
			zz := append(append([]byte{}, z[:len(z)-4]...), z2[len(z2)-4:]...)
			if !bytes.Equal(zz, z) {
				if _, err := ipldgit.ParseCompressedObject(bytes.NewReader(zz)); err == nil {
					t.Failf("compressed object with another object's checksum accepted")
				}
				t.Count("fault:checksum")
			}
		}
		features(t, o, raw)
		if len(o.Body()) > 0 {
			t.Distinct(raw)
		}
		t.Sample(2, map[string]any{"object": clip(raw, 120), "offsets": len(raw) + 1, "compressed_offsets": len(z)})
	}
	one := func(t *T, o Object) { sampled(t, o, 400) }
	c.Run("large", c.N(28, 300), func(t *T) {
		sampled(t, largeObject(t, largeShapes+t.Idx), 10+t.IntN(20)) // not the largest: they are read in some thousand ways
		t.Count("event:large")
	})
	c.Run("small", c.N(600, 60000), func(t *T) { one(t, Gen{Rand: t.Rand, Small: true}.object()) })
	c.Run("any", c.N(70, 6000), func(t *T) { one(t, G(t).object()) })
	c.Run("rich", c.N(90, 6000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		o := g.commit()
		o.MergeTags = append(o.MergeTags, g.mergeTag(), g.mergeTag())
		s := g.sig()
		o.Sig = &s
		o.Message = g.message()
		one(t, o)
	})
}

// ---------------------------------------------------------------- C12

type faultWriter struct {
	at     int
	got    []byte
	err    error
	fired  bool
	after  int
	transi bool // the writer works again after the failure
	whole  bool // it accepts all of the write that it reports as failed
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.fired {
		if len(p) > 0 {
			w.after += len(p)
		}
		if w.transi {
			w.got = append(w.got, p...)
			return len(p), nil
		}
		return 0, w.err
	}
	if len(w.got)+len(p) > w.at {
		n := w.at - len(w.got)
		if w.whole {
			n = len(p)
		}
		w.got = append(w.got, p[:n]...)
		w.fired = true
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// faultStringWriter also takes strings and single bytes.
type faultStringWriter struct{ *faultWriter }

func (w faultStringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w faultStringWriter) WriteByte(c byte) error {
	_, err := w.Write([]byte{c})
	return err
}

// forms are the node forms an object can be encoded from.
func forms(t *T, o Object, raw []byte) map[string]Node {
	n := mustParse(t, raw)
	m := map[string]Node{"typed": n, "repr": reprOf(n)}
	if o.Kind() != "tree" {
		g, err := decodeInto(basicnode.Prototype.Any, bytes.NewReader(raw))
		if err != nil {
			t.Failf("generic decode: %v", err)
		}
		m["generic"] = g
		if o.Kind() != "blob" {
			m["permuted"] = remake{t: t, perm: true}.node(n)
			m["custom"] = remake{t: t, perm: true, custom: true}.node(n)
		}
	}
	return m
}

func c12(c *Ctx) {
	c.Rule = "For each object, node form and offset: a writer that accepts exactly that many bytes and fails, for good or once. Oracle: the error comes back (errors.Is), and the bytes accepted, including any after the failure, are a prefix of the object; without a failure exactly the whole object is written. Every offset is enumerated per object (sampled over 1500 bytes). Distinct by object; non-trivial: body of at least one byte."
	errW := errors.New("injected write failure")
	enc, err := mc.LookupEncoder(cid.GitRaw)
	if err != nil {
		c.Violate("setup", "no encoder registered: %v", err)
		return
	}
	encs := map[string]func(Node, io.Writer) error{
		"Encode": ipldgit.Encode, "codec": enc, "EncodeStreaming": func(n Node, w io.Writer) error { return ipld.EncodeStreaming(w, n, ipldgit.Encode) }}
	names := []string{"Encode", "codec", "EncodeStreaming"}
	sampled := func(t *T, o Object, most int) {
		raw := Raw(o)
		t.Input(raw)
		k := t.IntN(100)
		fs := forms(t, o, raw)
		for _, fname := range sortedKeys(fs) {
			n := fs[fname]
			ok := &faultWriter{at: math.MaxInt}
			if err := ipldgit.Encode(n, ok); err != nil {
				t.Failf("encode from %s: %v", fname, err)
			}
			wantBytes(t, "encode from "+fname, ok.got, raw)
			for i := 0; i < 5; i++ {
				wantBytes(t, "encode from "+fname+" into another writer", mustEncode(t, n), raw)
			}
			step := 1 + len(raw)/most
			for at := 0; at < len(raw); at++ {
				if at%step != 0 && (at < len(raw)-30 && at > 30 || most < 100 && at%8 != 0) {
					continue
				}
				k++
				w := &faultWriter{at: at, err: errW, transi: k%2 == 0, whole: k%11 < 3}
				if k%5 == 0 {
					w.err = fmt.Errorf("wrapped %w", errW)
				}
				if k%4 == 0 {
					// io.EOF is nothing special in a writer
					if w.err = io.EOF; k/4%(len(sourceErrors)+1) > 0 {
						w.err = sourceErrors[k/4%(len(sourceErrors)+1)-1]
					}
					t.Count("fault:write-of-another-kind")
				}
				en := names[k%3]
				var dst io.Writer = w
				if k%7 == 0 {
					dst = faultStringWriter{w}
				}
				err := encs[en](n, dst)
				if err == nil {
					t.Failf("%s from %s: write failure at offset %d of %d not reported (%d bytes attempted after it)", en, fname, at, len(raw), w.after)
				}
				if !errors.Is(err, w.err) {
					t.Failf("%s from %s: write failure %q at offset %d reported as %q", en, fname, w.err, at, err)
				}
				if !bytes.HasPrefix(raw, w.got) {
					t.Failf("%s from %s: after a failure at offset %d the writer holds %s, not a prefix of %s", en, fname, at, clip(w.got, 200), clip(raw, 200))
				}
				t.Count("fault:write")
				t.Count("form:" + fname)
			}
		}
		if len(o.Body()) > 0 {
			t.Distinct(raw)
		}
		// the same fault through the link system
		ls := cidlink.DefaultLinkSystem()
		at := t.IntN(len(raw))
		ls.StorageWriteOpener = func(ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
			return &faultWriter{at: at, err: errW}, func(ipld.Link) error {
				t.Failf("a block whose writing failed at %d was committed", at)
				return nil
			}, nil
		}
		if _, err := ls.Store(ipld.LinkContext{}, gitLinkProto, fs["typed"]); !errors.Is(err, errW) {
			t.Failf("storing through the link system with a write failure at %d: %v", at, err)
		}
		features(t, o, raw)
		t.Sample(2, map[string]any{"object": clip(raw, 120), "offsets": len(raw)})
	}
	one := func(t *T, o Object) { sampled(t, o, 1500) }
	// a writer of many pieces shows only on objects of many pieces
	c.Run("large", c.N(42, 400), func(t *T) {
		sampled(t, largeObject(t, largeShapes+t.Idx), 20+t.IntN(20))
		t.Count("event:large")
	})
	c.Run("small", c.N(2500, 80000), func(t *T) { one(t, Gen{Rand: t.Rand, Small: true}.object()) })
	c.Run("any", c.N(500, 15000), func(t *T) { one(t, G(t).object()) })
	// Nodes backed by storage that fails: every fallible call in turn.
	c.Run("failing-nodes", c.N(3000, 90000), func(t *T) {
		o := Gen{Rand: t.Rand, Small: true}.object()
		raw := Raw(o)
		t.Input(raw)
		fs := forms(t, o, raw)
		for _, fname := range sortedKeys(fs) {
			for _, keep := range []bool{false, true} {
				if !keep && o.Kind() == "tree" {
					continue
				}
				mk := func(at int) (*fnode, *faultCtl) {
					ctl := &faultCtl{at: at}
					return &fnode{fs[fname], ctl, keep}, ctl
				}
				n, ctl := mk(-1)
				b, err := encode(n)
				if err != nil {
					t.Failf("encode from %s behind another node: %v", fname, err)
				}
				wantBytes(t, "encode from "+fname+" behind another node", b, raw)
				calls := ctl.calls
				step := 1 + calls/200
				for at := 0; at < calls; at += 1 + t.IntN(step) {
					n, ctl := mk(at)
					b, err := encode(n)
					if ctl.what == "" {
						t.Count("event:node-failure-not-reached")
						continue
					}
					t.Count("fault:node-" + strings.Split(ctl.what, " ")[0])
					if err == nil && !bytes.Equal(b, raw) {
						t.Failf("encode from %s: a failing call to the node (%d of %d: %s) is not reported, and %s is written instead of %s", fname, at, calls, ctl.what, clip(b, 300), clip(raw, 300))
					}
					if !bytes.HasPrefix(raw, b) {
						t.Failf("encode from %s: after a failing call to the node (%d of %d: %s) the writer holds %s, not a prefix of %s", fname, at, calls, ctl.what, clip(b, 300), clip(raw, 300))
					}
					if err == nil {
						t.Count("event:node-failure-harmless")
					}
				}
				t.Count("form:failing-" + fname)
			}
		}
		t.Distinct([]byte("failing"), raw)
	})
	// Nodes that hold no object, or parts of one: refused, or encoded to a whole one.
	c.Run("whole-or-refused", c.N(60000, 2000000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		wrong := func(n Node) {
			b, err := encode(n)
			if err != nil {
				t.Count("event:refused:" + n.Kind().String())
				return
			}
			if why := notWhole(n, b); why != "" {
				t.Failf("encoding %s (a %T) reports success and writes %s: %s", clip([]byte(View(n)), 300), n, clip(b, 300), why)
			}
			t.Count("event:whole")
		}
		switch t.Idx % 3 {
		case 0:
			wrong(hostileNode(t, g))
		case 1: // an object without one, some or all of its fields
			o := g.object()
			n, ok := remake{t: t, perm: true, custom: true}.node(mustParse(t, Raw(o))).(*cnode)
			if !ok || o.Kind() == "tree" {
				wrong(randomNode(t, g, 0))
				return
			}
			for drop := g.IntN(3) * g.IntN(9); drop >= 0 && len(n.keys) > 0; drop-- {
				i := g.IntN(len(n.keys))
				n.keys, n.vals = append(n.keys[:i:i], n.keys[i+1:]...), append(n.vals[:i:i], n.vals[i+1:]...)
			}
			wrong(n)
			wrong(genericMap(t, n.keys, n.vals))
			t.Count("event:fields-left:" + strconv.Itoa(len(n.keys)))
		default: // the parts of an object
			var walk func(n Node, depth int)
			walk = func(n Node, depth int) {
				if depth > 0 {
					wrong(n)
					wrong(remake{t: t, perm: true, custom: true}.node(n))
				}
				if it := n.MapIterator(); it != nil {
					for !it.Done() {
						_, v, err := it.Next()
						if err != nil || v.IsAbsent() {
							continue
						}
						walk(v, depth+1)
					}
				}
				if it := n.ListIterator(); it != nil {
					for !it.Done() {
						if _, v, err := it.Next(); err == nil {
							walk(v, depth+1)
						}
					}
				}
			}
			n := mustParse(t, Raw(g.object()))
			walk(n, 0)
			walk(reprOf(n), 0)
		}
		t.Distinct([]byte("whole"), []byte(strconv.Itoa(t.Idx)))
	})
	// Builders that refuse a part: every call in turn.
	c.Run("failing-builders", c.N(4000, 120000), func(t *T) {
		o := Gen{Rand: t.Rand, Small: true}.object()
		raw := Raw(o)
		t.Input(raw)
		want := o.View()
		kind := o.Kind()
		_, rest, _ := bytes.Cut(raw, []byte(" "))
		for i, p := range []datamodel.NodePrototype{basicnode.Prototype.Any, basicnode.Prototype.Any, typedProto(kind), reprProto(kind)} {
			run := func(at int) (Node, *faultCtl, error) {
				ctl := &faultCtl{at: at}
				nb := p.NewBuilder()
				na := &fasm{nb, ctl, i == 1}
				var err error
				if t.IntN(2) == 0 {
					err = ipldgit.Decode(na, bytes.NewReader(raw))
				} else {
					err = kindDecoder(kind)(na, bufio.NewReader(bytes.NewReader(rest)))
				}
				if err != nil {
					return nil, ctl, err
				}
				return nb.Build(), ctl, nil
			}
			n, ctl, err := run(-1)
			if err != nil {
				t.Failf("decode into a builder behind another: %v", err)
			}
			if i != 1 {
				wantView(t, "decoding into a builder behind another", View(n), want)
			}
			calls := ctl.calls
			if calls == 0 {
				t.Failf("nothing was assigned")
			}
			step := 1 + calls/100
			for at := 0; at < calls; at += 1 + t.IntN(step) {
				n, ctl, err := run(at)
				if ctl.what == "" {
					t.Count("event:builder-failure-not-reached")
					continue
				}
				t.Count("fault:builder-" + strings.ReplaceAll(ctl.what, " ", "-"))
				if err == nil {
					t.Failf("a failing call to the builder (%d of %d: %s) is not reported, result %s", at, calls, ctl.what, clip([]byte(View(n)), 200))
				}
				if !errors.Is(err, errNode) {
					t.Failf("a failing call to the builder (%d of %d: %s) is reported as %v", at, calls, ctl.what, err)
				}
			}
		}
		t.Distinct([]byte("failing-builder"), raw)
	})
}

// bigCBOR reads DAG-CBOR without go-ipld-prime's limit of about 10 MB.
var bigCBOR = dagcbor.DecodeOptions{AllowLinks: true, AllocationBudget: 1 << 32}.Decode

// notWhole says why what a successful encoding of a node wrote is not one whole
// object with what the node says, as far as any node of any shape can tell.
func notWhole(n Node, b []byte) string {
	if n.Kind() == datamodel.Kind_Bytes { // a blob's node holds the object itself
		if want, _ := n.AsBytes(); !bytes.Equal(b, want) {
			return "not the bytes of the node"
		}
		return ""
	}
	if n.Kind() != datamodel.Kind_Map {
		return "no object is of this kind"
	}
	head, body, ok := bytes.Cut(b, []byte{0})
	kind, size, _ := strings.Cut(string(head), " ")
	if !ok || size != strconv.Itoa(len(body)) {
		return "no whole object"
	}
	var need []string
	switch kind {
	case "tree":
		return ""
	case "commit":
		need = []string{"tree", "parents", "message", "mergetag", "other"}
	case "tag":
		need = []string{"object", "type", "tag", "message"}
	default:
		return "not of a kind of object"
	}
	for _, k := range need {
		v, err := n.LookupByString(k)
		if err != nil || v.IsAbsent() || v.IsNull() {
			return "a " + kind + " from a node without " + k
		}
		want := datamodel.Kind_String
		switch k {
		case "tree", "object":
			want = datamodel.Kind_Link
		case "parents", "mergetag", "other":
			want = datamodel.Kind_List
		}
		if v.Kind() != want {
			return "a " + kind + " from a node whose " + k + " is a " + v.Kind().String()
		}
	}
	return ""
}

// ---------------------------------------------------------------- C13

func c13(c *Ctx) {
	c.Rule = "References at every place an object has one (tree, each parent, tag target, embedded tag target, each tree entry): every decoded link must be exactly CIDv1 git-raw sha1 of the bytes named, and encoding must write those bytes. Hex of any other length or with other characters must be refused in the input; links that are undefined, of another hash, of another length or of another link type must be refused by the encoder in every place and node form. Distinct by place, form and value; all are non-trivial."
	links := func(t *T, o Object) {
		raw := Raw(o)
		t.Input(raw)
		n := mustParse(t, raw)
		var want []Sha
		switch o := o.(type) {
		case *Commit:
			want = append(append(want, o.Tree), o.Parents...)
			for _, m := range o.MergeTags {
				want = append(want, m.Object)
			}
		case *Tag:
			want = append(want, o.Object)
		case *Tree:
			for _, e := range o.Entries {
				want = append(want, e.Hash)
			}
		default:
			return
		}
		var got []datamodel.Link
		collectLinks(t, n, &got)
		if len(got) != len(want) {
			t.Failf("%d links, want %d", len(got), len(want))
		}
		for i, l := range got {
			cl, ok := l.(cidlink.Link)
			if !ok {
				t.Failf("link %d is a %T", i, l)
			}
			p := cl.Cid.Prefix()
			if p.Version != 1 || p.Codec != 0x78 || p.MhType != 0x11 || p.MhLength != 20 {
				t.Failf("link %d: %s has prefix %+v", i, cl.Cid, p)
			}
			d, err := mh.Decode(cl.Cid.Hash())
			if err != nil || !bytes.Equal(d.Digest, want[i][:]) {
				t.Failf("link %d: digest %x, want %x (%v)", i, d.Digest, want[i], err)
			}
			if cl.Cid != gitCid(want[i]) || l.Binary() != gitLink(want[i]).Binary() {
				t.Failf("link %d: %s, want %s", i, cl.Cid, gitCid(want[i]))
			}
			t.Count("event:link-compared")
		}
		out := mustEncode(t, n)
		wantBytes(t, "re-encoding", out, raw)
		for _, s := range want {
			if o.Kind() != "tree" && len(want) < 1000 && !bytes.Contains(out, []byte(fmt.Sprintf("%x", s))) {
				t.Failf("hash %x not written", s)
			}
		}
		if len(want) > 0 {
			t.Distinct(raw)
		}
	}
	c.Run("links", c.N(75000, 800000), func(t *T) { links(t, Gen{Rand: t.Rand, Small: t.IntN(2) == 0}.object()) })
	c.Run("large", c.N(28, 300), func(t *T) {
		links(t, largeObject(t, []int{1, 5, 6, 9}[t.Idx%4]))
		t.Count("event:large")
	})
	c.Run("bad-hex", c.N(200000, 1500000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		s := g.sha()
		h := fmt.Sprintf("%x", s)
		var bad string
		switch g.IntN(12) {
		case 0:
			bad = h[:g.IntN(40)]
		case 1:
			bad = h + h[:1+g.IntN(40)]
		case 2:
			b := []byte(h)
			b[g.IntN(40)] = "ghzGZ _-/:@`\x00\r\t.\xff"[g.IntN(17)]
			bad = string(b)
		case 3:
			bad = h + " "
		case 4:
			bad = h + "\r"
		case 5:
			bad = " " + h
		case 6:
			bad = h[:38]
		case 7:
			bad = h[:39]
		case 8:
			bad = h + h[:24] // sha-256
		case 9:
			bad = "0x" + h[:38]
		case 10:
			bad = ""
		case 11:
			bad = h + "\x00"
		}
		place := pick(g.Rand, []string{"tree", "parent", "first-parent", "mergetag", "tag"})
		var raw []byte
		bi := func(kind string, o Object, find, repl string) {
			b := strings.Replace(string(o.Body()), find, repl, 1)
			raw = withSize(kind, b)
		}
		co := g.commit()
		co.Message, co.Other, co.Sig = "m", nil, nil
		mark := g.sha()
		mark[0], mark[1], mark[2] = 0xab, byte(t.Idx), byte(t.Idx>>8)
		mh := fmt.Sprintf("%x", mark)
		switch place {
		case "tree":
			co.Tree = mark
			bi("commit", co, "tree "+mh+"\n", "tree "+bad+"\n")
		case "parent":
			co.Parents = append(co.Parents, mark)
			bi("commit", co, "parent "+mh+"\n", "parent "+bad+"\n")
		case "first-parent":
			co.Parents = append([]Sha{mark}, co.Parents...)
			bi("commit", co, "parent "+mh+"\n", "parent "+bad+"\n")
		case "mergetag":
			m := g.mergeTag()
			m.Object = mark
			co.MergeTags = append(co.MergeTags, m)
			bi("commit", co, "mergetag object "+mh+"\n", "mergetag object "+bad+"\n")
		case "tag":
			tg := g.tag()
			tg.Object = mark
			bi("tag", tg, "object "+mh+"\n", "object "+bad+"\n")
		}
		t.Input(raw)
		if !bytes.Contains(raw, []byte(bad+"\n")) || bytes.Contains(raw, []byte(mh)) {
			harnessError("bad-hex: replacement did not happen")
		}
		n, err := parseVia(t, raw)
		if err == nil {
			t.Failf("%s with reference %q accepted: %s", place, bad, clip([]byte(View(n)), 300))
		}
		t.Count("refused:" + place)
		t.Distinct([]byte(place), []byte(bad))
		t.Sample(3, map[string]any{"place": place, "reference": bad})
	})
	c.Run("bad-link", c.N(180000, 1500000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		lnk := oddLink(g)
		good := false
		if cl, ok := lnk.(cidlink.Link); ok && cl.Cid.Defined() {
			p := cl.Cid.Prefix()
			good = p.MhType == mh.SHA1 && p.MhLength == 20
		}
		var o Object
		switch g.IntN(4) {
		case 0:
			tr := g.tree()
			tr.Entries = append(tr.Entries, Entry{"100644", "zzz", g.sha()})
			o = tr
		case 1:
			o = g.tag()
		default:
			co := g.commit()
			co.Parents = append(co.Parents, g.sha())
			co.MergeTags = append(co.MergeTags, g.mergeTag())
			o = co
		}
		n := mustParse(t, Raw(o))
		var links []datamodel.Link
		collectLinks(t, n, &links)
		at := g.IntN(len(links))
		form := pick(g.Rand, []string{"typed", "repr", "generic", "custom"})
		if o.Kind() == "tree" && form != "repr" {
			form = "typed"
		}
		cnt := 0
		var swap func(n Node) Node
		swap = func(n Node) Node {
			c, ok := n.(*cnode)
			if !ok {
				if n.Kind() == datamodel.Kind_Link {
					if cnt++; cnt-1 == at {
						return basicnode.NewLink(lnk)
					}
				}
				return n
			}
			for i := range c.vals {
				c.vals[i] = swap(c.vals[i])
			}
			return c
		}
		x := swap(remake{t: t, custom: true}.node(n))
		switch form {
		case "generic":
			x = remake{t: t}.node(x)
		case "typed", "repr":
			x = buildFrom(t, typedProto(o.Kind()), x)
			if form == "repr" {
				x = reprOf(x)
			}
		}
		out, err := encode(x)
		if good {
			if err != nil {
				t.Failf("%s held in a %s node with link %v refused: %v", o.Kind(), form, lnk, err)
			}
			d, _ := mh.Decode(lnk.(cidlink.Link).Cid.Hash())
			hx := []byte(fmt.Sprintf("%x", d.Digest))
			if o.Kind() == "tree" {
				hx = d.Digest
			}
			if !bytes.Contains(out, hx) {
				t.Failf("hash of %v not written", lnk)
			}
			t.Count("event:good-link-written")
		} else {
			if err == nil {
				t.Failf("%s held in a %s node with link %v (%T) at place %d encoded to %s", o.Kind(), form, lnk, lnk, at, clip(out, 200))
			}
			t.Count("event:bad-link-refused")
		}
		t.Count("form:" + form)
		t.Distinct([]byte(fmt.Sprintf("%s|%s|%d|%v", o.Kind(), form, at, lnk)))
	})
}

func collectLinks(t *T, n Node, out *[]datamodel.Link) {
	switch n.Kind() {
	case datamodel.Kind_Link:
		l, err := n.AsLink()
		must(t, err)
		*out = append(*out, l)
	case datamodel.Kind_Map:
		for it := n.MapIterator(); !it.Done(); {
			_, v, err := it.Next()
			must(t, err)
			if !v.IsAbsent() {
				collectLinks(t, v, out)
			}
		}
	case datamodel.Kind_List:
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			must(t, err)
			collectLinks(t, v, out)
		}
	}
}

// buildFrom assembles a node of a prototype from another node, entry by entry.
func buildFrom(t *T, p datamodel.NodePrototype, src Node) Node {
	nb := p.NewBuilder()
	must(t, assemble(nb, src))
	return nb.Build()
}

func assemble(na datamodel.NodeAssembler, src Node) error {
	switch src.Kind() {
	case datamodel.Kind_Map:
		ma, err := na.BeginMap(src.Length())
		if err != nil {
			return err
		}
		for it := src.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				return err
			}
			if v.IsAbsent() {
				continue
			}
			s, err := k.AsString()
			if err != nil {
				return err
			}
			a, err := ma.AssembleEntry(s)
			if err != nil {
				return err
			}
			if err := assemble(a, v); err != nil {
				return err
			}
		}
		return ma.Finish()
	case datamodel.Kind_List:
		la, err := na.BeginList(src.Length())
		if err != nil {
			return err
		}
		for it := src.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				return err
			}
			if err := assemble(la.AssembleValue(), v); err != nil {
				return err
			}
		}
		return la.Finish()
	case datamodel.Kind_String:
		s, err := src.AsString()
		if err != nil {
			return err
		}
		return na.AssignString(s)
	case datamodel.Kind_Bytes:
		b, err := src.AsBytes()
		if err != nil {
			return err
		}
		return na.AssignBytes(b)
	case datamodel.Kind_Link:
		l, err := src.AsLink()
		if err != nil {
			return err
		}
		return na.AssignLink(l)
	}
	return na.AssignNode(src)
}

// ---------------------------------------------------------------- C14

func c14(c *Ctx) {
	c.Rule = "Each object is held as a typed node (decoded, assembled in any key order, at type or representation level), its representation, a generic node with keys in any order, a node of another implementation, and nodes that went through DAG-CBOR and, for valid text, DAG-JSON; each is encoded with Encode, the generic helpers, the registered codec and a link system. Oracle: always the object's bytes. All 120 key orders of tags and all first keys of commits are enumerated. Distinct by object; non-trivial: every commit, tag or non-empty tree or blob."
	encs := map[string]func(Node) ([]byte, error){
		"Encode":      encode,
		"ipld.Encode": func(n Node) ([]byte, error) { return ipld.Encode(n, ipldgit.Encode) },
		"codec": func(n Node) ([]byte, error) {
			e, err := mc.LookupEncoder(cid.GitRaw)
			if err != nil {
				return nil, err
			}
			var w bytes.Buffer
			err = e(n, &w)
			return w.Bytes(), err
		},
		"EncodeStreaming": func(n Node) ([]byte, error) {
			var w bytes.Buffer
			err := ipld.EncodeStreaming(&w, n, ipldgit.Encode)
			return w.Bytes(), err
		},
		"LinkSystem": func(n Node) ([]byte, error) {
			ls := cidlink.DefaultLinkSystem()
			var w bytes.Buffer
			var id datamodel.Link
			ls.StorageWriteOpener = func(ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
				return &w, func(l ipld.Link) error { id = l; return nil }, nil
			}
			l, err := ls.Store(ipld.LinkContext{}, gitLinkProto, n)
			if err != nil {
				return nil, err
			}
			if l != id || l.(cidlink.Link).Cid != cidOf(w.Bytes()) {
				return nil, fmt.Errorf("stored under %v", l)
			}
			return w.Bytes(), nil
		},
	}
	encNames := sortedKeys(encs)
	checkAll := func(t *T, raw []byte, form string, n Node) {
		for _, en := range encNames {
			out, err := encs[en](n)
			if err != nil {
				t.Failf("%s from %s: %v", en, form, err)
			}
			wantBytes(t, en+" from "+form, out, raw)
			t.Count("form:" + form)
			t.Count("encoder:" + en)
			t.Count("event:compared")
		}
	}
	inForms := func(t *T, o Object) {
		raw := Raw(o)
		t.Input(raw)
		fs := forms(t, o, raw)
		n := fs["typed"]
		fs["assembled-typed"] = buildFrom(t, typedProto(o.Kind()), n)
		fs["assembled-repr"] = buildFrom(t, reprProto(o.Kind()), n)
		fs["assembled-repr-repr"] = reprOf(fs["assembled-repr"])
		if o.Kind() == "commit" || o.Kind() == "tag" {
			fs["assembled-any-order"] = buildFrom(t, typedProto(o.Kind()), fs["custom"])
			fs["assembled-repr-any-order"] = buildFrom(t, reprProto(o.Kind()), fs["custom"])
		}
		if o.Kind() != "tree" {
			cb, err := ipld.Encode(n, dagcbor.Encode)
			if err != nil {
				t.Failf("dag-cbor: %v", err)
			}
			x, err := ipld.Decode(cb, bigCBOR)
			if err != nil {
				t.Failf("dag-cbor: %v", err)
			}
			fs["dag-cbor"] = x
			y, err := ipld.DecodeUsingPrototype(cb, bigCBOR, typedProto(o.Kind()))
			if err != nil {
				t.Failf("dag-cbor into the typed prototype: %v", err)
			}
			fs["dag-cbor-typed"] = y
			if o.Kind() == "blob" || utf8.Valid(raw[bytes.IndexByte(raw, 0)+1:]) {
				js, err := ipld.Encode(n, dagjson.Encode)
				if err != nil {
					t.Failf("dag-json: %v", err)
				}
				x, err := ipld.Decode(js, dagjson.Decode)
				if err != nil {
					t.Failf("dag-json: %v", err)
				}
				fs["dag-json"] = x
			}
		}
		moreForms(t, o, n, fs)
		for _, f := range sortedKeys(fs) {
			checkAll(t, raw, f, fs[f])
		}
		features(t, o, raw)
		if len(o.Body()) > 0 {
			t.Distinct(raw)
		}
		t.Sample(2, map[string]any{"object": clip(raw, 160), "forms": sortedKeys(fs)})
	}
	c.Run("forms", c.N(45000, 400000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(3) > 0, UTF8: t.IntN(2) == 0}
		inForms(t, g.object())
	})
	c.Run("large", c.N(28, 300), func(t *T) {
		inForms(t, largeObject(t, t.Idx))
		t.Count("event:large")
	})
	perms := permutations(5)
	c.Run("tag-orders", len(perms)*c.N(4, 60), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		o := g.tag()
		raw := Raw(o)
		t.Input(raw)
		n := mustParse(t, raw)
		full := remake{t: t, custom: true}.node(n).(*cnode)
		p := perms[t.Idx%len(perms)]
		x := &cnode{isMap: true, failAt: -1}
		for _, i := range p {
			x.keys = append(x.keys, full.keys[i])
			x.vals = append(x.vals, full.vals[i])
		}
		checkAll(t, raw, "tag-order", x)
		checkAll(t, raw, "tag-order-generic", genericMap(t, x.keys, x.vals))
		t.Count("order:" + strings.Join(x.keys[:1], ","))
		t.Distinct([]byte(fmt.Sprint(p)), raw)
	})
	c.Run("commit-first-keys", c.N(5000, 40000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		o := g.commit()
		raw := Raw(o)
		t.Input(raw)
		x := remake{t: t, perm: true, custom: true}.node(mustParse(t, raw)).(*cnode)
		i := t.Idx % len(x.keys)
		x.keys[0], x.keys[i] = x.keys[i], x.keys[0]
		x.vals[0], x.vals[i] = x.vals[i], x.vals[0]
		checkAll(t, raw, "commit-order", x)
		t.Count("commit-first:" + x.keys[0])
		t.Distinct(raw)
	})
}

func permutations(n int) [][]int {
	var out [][]int
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			out = append(out, append([]int{}, a...))
			return
		}
		for i := k; i < n; i++ {
			a[k], a[i] = a[i], a[k]
			rec(k + 1)
			a[k], a[i] = a[i], a[k]
		}
	}
	rec(0)
	return out
}
