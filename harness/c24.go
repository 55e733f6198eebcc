package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

func init() { register("C24", "exploration", c24) }

// fresh makes objects no part of which occurs twice. It is cheap, so that
// hundreds of thousands can be worked through.
type fresh struct {
	r   *rand.Rand
	buf [32]byte
}

func (f *fresh) hex(n int) string {
	for i := 0; i < len(f.buf); i += 8 {
		binary.LittleEndian.PutUint64(f.buf[i:], f.r.Uint64())
	}
	return hex.EncodeToString(f.buf[:])[:n]
}

func (f *fresh) person() string {
	return fmt.Sprintf("%s %s <%s@%s> %d %c%04d", f.hex(8), f.hex(8), f.hex(10), f.hex(8), f.r.Uint64(), "+-"[f.r.IntN(2)], f.r.IntN(10000))
}

func (f *fresh) object(kind string) []byte {
	var w bytes.Buffer
	switch kind {
	case "commit":
		fmt.Fprintf(&w, "tree %s\nparent %s\nparent %s\nauthor %s\ncommitter %s\nencoding %s\n", f.hex(40), f.hex(40), f.hex(40), f.person(), f.person(), f.hex(12))
		fmt.Fprintf(&w, "mergetag object %s\n type %s\n tag %s\n tagger %s\n \n %s\n", f.hex(40), f.hex(10), f.hex(12), f.person(), f.hex(30))
		fmt.Fprintf(&w, "gpgsig -----BEGIN PGP SIGNATURE-----\n \n %s\n %s\n -----END PGP SIGNATURE-----\n%s %s\n\n%s\n%s\n", f.hex(64), f.hex(20), f.hex(8), f.hex(20), f.hex(40), f.hex(10))
	case "tag":
		fmt.Fprintf(&w, "object %s\ntype %s\ntag %s\ntagger %s\n\n%s\n%s\n", f.hex(40), f.hex(10), f.hex(12), f.person(), f.hex(40), f.hex(10))
	case "tree":
		for i := 0; i < 6; i++ {
			fmt.Fprintf(&w, "1%05o %s\x00", f.r.IntN(1<<15), f.hex(10))
			f.hex(0)
			w.Write(f.buf[:20])
		}
	case "blob":
		for i := 0; i < 4; i++ {
			w.WriteString(f.hex(50))
		}
	}
	return append([]byte(fmt.Sprintf("%s %d\x00", kind, w.Len())), w.Bytes()...)
}

// stored compresses without effort.
var storeZ = sync.Pool{New: func() any { z, _ := zlib.NewWriterLevel(io.Discard, zlib.NoCompression); return z }}

func storedZ(b []byte) []byte {
	var w bytes.Buffer
	z := storeZ.Get().(*zlib.Writer)
	z.Reset(&w)
	z.Write(b)
	z.Close()
	storeZ.Put(z)
	return w.Bytes()
}

// errReader always fails.
type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errInjected }

func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(l)
}

// held is the memory that is still referenced, and what else is held.
func held() (heap int64, goroutines, files int) {
	var m runtime.MemStats
	for i := 0; i < 4; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), runtime.NumGoroutine(), openFiles()
}

func c24(c *Ctx) {
	c.Rule = "One operation on one kind of object, repeated on hundreds of thousands of objects no two of which share a hash, name, date, text or line, on eight goroutines; nothing of the results is kept. The memory still referenced after collection, the goroutines and the open files are read after a tenth, after half and at the end. A violation is memory that grew by more than 8 MB (thorough: 16 MB) and still grows in the second half, so that a cache with a bound passes; or more goroutines or files than at first. A case is an operation and a kind."
	type op struct {
		name string
		cost int
		f    func(t *T, f *fresh, kind string) error
	}
	errBad := func(what string, n Node, err error) error {
		if err == nil && n != nil {
			return fmt.Errorf("%s was accepted", what)
		}
		return nil
	}
	ops := []op{
		{"decode", 1, func(t *T, f *fresh, kind string) error {
			_, err := parse(f.object(kind))
			return err
		}},
		{"decode-repr", 1, func(t *T, f *fresh, kind string) error {
			_, err := decodeInto(reprProto(kind), bytes.NewReader(f.object(kind)))
			return err
		}},
		{"decode-generic", 1, func(t *T, f *fresh, kind string) error {
			_, err := decodeInto(basicnode.Prototype.Any, bytes.NewReader(f.object(kind)))
			return err
		}},
		{"inspect", 3, func(t *T, f *fresh, kind string) error {
			n, err := parse(f.object(kind))
			if err != nil {
				return err
			}
			walkOnce(n)
			walkOnce(reprOf(n))
			return nil
		}},
		{"lookup-missing", 2, func(t *T, f *fresh, kind string) error {
			n, err := parse(f.object(kind))
			if err != nil {
				return err
			}
			if x, err := n.LookupByString(f.hex(12)); err == nil {
				return fmt.Errorf("a name nobody gave leads to %v", x)
			}
			n.LookupBySegment(datamodel.PathSegmentOfString(f.hex(12)))
			n.LookupByIndex(int64(f.r.Uint32()))
			return nil
		}},
		{"encode", 2, func(t *T, f *fresh, kind string) error {
			n, err := parse(f.object(kind))
			if err != nil {
				return err
			}
			return ipldgit.Encode(n, io.Discard)
		}},
		{"encode-generic", 3, func(t *T, f *fresh, kind string) error {
			if kind == "tree" {
				return nil
			}
			n, err := decodeInto(basicnode.Prototype.Any, bytes.NewReader(f.object(kind)))
			if err != nil {
				return err
			}
			return ipldgit.Encode(n, io.Discard)
		}},
		{"encode-refused", 2, func(t *T, f *fresh, kind string) error {
			raw := f.object(kind)
			n, err := parse(raw)
			if err != nil {
				return err
			}
			if err := ipldgit.Encode(n, &faultWriter{at: f.r.IntN(len(raw)), err: errInjected}); err == nil {
				return fmt.Errorf("a failed write was not reported")
			}
			return nil
		}},
		{"compressed", 8, func(t *T, f *fresh, kind string) error {
			_, err := ipldgit.ParseCompressedObject(bytes.NewReader(storedZ(f.object(kind))))
			return err
		}},
		{"compressed-cut", 8, func(t *T, f *fresh, kind string) error {
			z := storedZ(f.object(kind))
			n, err := ipldgit.ParseCompressedObject(bytes.NewReader(z[:f.r.IntN(len(z))]))
			return errBad("a cut stream", n, err)
		}},
		{"refused", 1, func(t *T, f *fresh, kind string) error {
			raw := f.object(kind)
			n, err := ipldgit.ParseObjectFromBuffer(raw[:f.r.IntN(len(raw))])
			return errBad("a cut object", n, err)
		}},
		{"odd-head", 1, func(t *T, f *fresh, kind string) error {
			raw := f.object(kind)
			k := bytes.IndexByte(raw, 0)
			n, err := ipldgit.ParseObjectFromBuffer(append([]byte(f.hex(10)+" "+f.hex(6)+"\x00"), raw[k+1:]...))
			return errBad("an unknown kind", n, err)
		}},
		{"bad-line", 1, func(t *T, f *fresh, kind string) error {
			raw := f.object(kind)
			if kind != "commit" && kind != "tag" {
				return nil
			}
			k := bytes.IndexByte(raw, 0)
			body := string(raw[k+1:])
			body = strings.Replace(body, "<", " ", 1)
			n, err := ipldgit.ParseObjectFromBuffer([]byte(fmt.Sprintf("%s %d\x00%s", kind, len(body), body)))
			return errBad("an identity without <", n, err)
		}},
		{"store-and-load", 5, func(t *T, f *fresh, kind string) error {
			raw := f.object(kind)
			n, err := parse(raw)
			if err != nil {
				return err
			}
			ls := cidlink.DefaultLinkSystem()
			ls.StorageWriteOpener = func(linking.LinkContext) (io.Writer, linking.BlockWriteCommitter, error) {
				return io.Discard, func(datamodel.Link) error { return nil }, nil
			}
			ls.StorageReadOpener = func(linking.LinkContext, datamodel.Link) (io.Reader, error) {
				return bytes.NewReader(raw), nil
			}
			l, err := ls.Store(ipld.LinkContext{}, gitLinkProto, n)
			if err != nil {
				return err
			}
			_, err = ls.Load(ipld.LinkContext{}, l, typedProto(kind))
			return err
		}},
		{"build", 3, func(t *T, f *fresh, kind string) error {
			n, err := parse(f.object(kind))
			if err != nil {
				return err
			}
			nb := typedProto(kind).NewBuilder()
			if err := datamodel.Copy(n, nb); err != nil {
				return err
			}
			if err := ipldgit.Encode(nb.Build(), io.Discard); err != nil {
				return err
			}
			nb.Reset()
			return nil
		}},
		{"abandoned-build", 1, func(t *T, f *fresh, kind string) error {
			if kind == "blob" {
				return nil
			}
			nb := typedProto(kind).NewBuilder()
			ma, err := nb.BeginMap(4)
			if err != nil {
				return err
			}
			va, err := ma.AssembleEntry(f.hex(12))
			if err == nil && kind == "tree" {
				va.BeginMap(2)
			} else if kind != "tree" && err == nil {
				return fmt.Errorf("an unknown field was accepted")
			}
			return nil
		}},
	}
	// long objects of which only the beginning is wanted
	head := func(f *fresh, kind string) []byte {
		raw := f.object(kind)
		k := bytes.IndexByte(raw, 0)
		switch f.r.IntN(5) {
		case 0: // no such kind
			raw[0] ^= 1
		case 1: // too much content
		case 2: // no size
			raw = append([]byte(kind+" x"), raw[k:]...)
		case 3: // a bad reference, or mode
			copy(raw[k+1:], "!!!!!!!!")
			fallthrough
		default:
			raw = append([]byte(fmt.Sprintf("%s %d\x00", kind, len(raw)-k-1+20000)), raw[k+1:]...)
			if kind == "blob" {
				raw[5] ^= 0x40
			}
			if kind == "tree" {
				raw = append(raw, "100644 a"...)
			}
			if kind == "commit" || kind == "tag" {
				k = bytes.IndexByte(raw, 0)
				copy(raw[k+1:], "!")
			}
		}
		long := make([]byte, len(raw)+20000+f.r.IntN(60000))
		for i := copy(long, raw); i < len(long); i++ {
			long[i] = "0123456789abcdef \n"[i%18]
		}
		return long
	}
	ops = append(ops,
		op{"long-refused", 50, func(t *T, f *fresh, kind string) error {
			n, err := ipldgit.ParseObjectFromBuffer(head(f, kind))
			return errBad("a long bad object", n, err)
		}},
		op{"long-compressed-refused", 50, func(t *T, f *fresh, kind string) error {
			n, err := ipldgit.ParseCompressedObject(bytes.NewReader(storedZ(head(f, kind))))
			return errBad("a long bad object", n, err)
		}},
		op{"long-read-error", 50, func(t *T, f *fresh, kind string) error {
			b := head(f, kind)
			n, err := ipldgit.ParseObject(io.MultiReader(bytes.NewReader(b[:f.r.IntN(len(b))]), errReader{}))
			return errBad("an unreadable object", n, err)
		}},
	)
	kinds := []string{"commit", "tag", "tree", "blob"}
	limit := int64(8 << 20)
	if c.Tier == "thorough" {
		limit = 16 << 20
	}
	c.RunSeq("worked-through", len(ops)*len(kinds), func(t *T) {
		o, kind := ops[t.Idx/len(kinds)], kinds[t.Idx%len(kinds)]
		total := c.N(160000, 1200000)
		if o.cost > 4 {
			total /= 2
		}
		if o.cost > 40 {
			total /= 20
		}
		defer debug.SetGCPercent(debug.SetGCPercent(2000)) // little is held: collect less often
		const workers = 8
		fs := make([]*fresh, workers)
		for i := range fs {
			fs[i] = &fresh{r: rand.New(rand.NewPCG(t.Rand.Uint64(), t.Rand.Uint64()))}
		}
		work := func(n int) {
			var wg sync.WaitGroup
			errs := make([]error, workers)
			for i := range fs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < n/workers && errs[i] == nil; k++ {
						errs[i] = o.f(t, fs[i], kind)
					}
				}()
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					t.Failf("%s of a %s: %v", o.name, kind, err)
				}
			}
			t.CountN("event:objects", int64(n))
		}
		work(total / 10)
		h0, g0, f0 := held()
		work(total/2 - total/10)
		h1, _, _ := held()
		work(total / 2)
		h2, g2, f2 := held()
		for i := 0; i < 40 && (g2 > g0+4 || f2 > f0+4); i++ {
			time.Sleep(50 * time.Millisecond)
			h2, g2, f2 = held()
		}
		if h2-h0 > limit && (h2-h1)*3 > h1-h0 {
			t.Failf("%s of %ss: %d bytes are held after %d objects, %d after %d, %d after %d", o.name, kind, h0, total/10, h1, total/2, h2, total)
		}
		if g2 > g0+4 {
			t.Failf("%s of %ss: %d goroutines after %d objects, %d after %d", o.name, kind, g0, total/10, g2, total)
		}
		if f2 > f0+4 {
			t.Failf("%s of %ss: %d files are open after %d objects, %d after %d", o.name, kind, f0, total/10, f2, total)
		}
		t.Count("op:" + o.name)
		t.Count("kind:" + kind)
		t.Count("event:memory-measured")
		t.Distinct([]byte(o.name), []byte(kind))
		t.Sample(6, map[string]any{"operation": o.name, "kind": kind, "objects": total, "held_bytes": []int64{h0, h1, h2}, "goroutines": []int{g0, g2}, "files": []int{f0, f2}})
	})
}
