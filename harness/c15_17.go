package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

func init() {
	register("C15", "exploration", c15)
	register("C17", "exploration", c17)
}

// ---------------------------------------------------------------- C15

func c15(c *Ctx) {
	c.Rule = "Nodes assembled from scratch from generated values (in any key order, by every kind of assembler call, at type and representation level) and encoded. Oracle: the object written by a separate serializer; for values git permits also git itself, which must accept the bytes (hash-object with its format checks) under the same id and store them so that they decode to an equal node. Distinct by object; non-trivial: body of at least one byte."
	ps := repoProtos()
	build := func(t *T, g Gen, o Object) Node {
		v := valOf(o)
		for i, k := range v.Keys {
			v.Vals[i].Opt = v.Type == "Commit" && (k == "author" || k == "committer")
		}
		a := &asm{g: g, ps: ps, own: t.IntN(2) == 0, foreign: t.IntN(2) == 0, avoid: true}
		typ := v.Type + []string{"", "__Repr"}[t.IntN(2)]
		n, err := a.build(ps[typ], v)
		if err != nil {
			t.Failf("building a %s: %v", typ, err)
		}
		t.Count("built:" + typ)
		return n
	}
	check := func(t *T, g Gen, o Object) []byte {
		raw := Raw(o)
		t.Input(raw)
		n := build(t, g, o)
		out := mustEncode(t, n)
		wantBytes(t, "encoding of a built "+o.Kind(), out, raw)
		back := mustParse(t, out)
		wantView(t, "read back", View(back), View(n))
		wantView(t, "read back", View(back), o.View())
		if !datamodel.DeepEqual(reprOf(back), reprOf(n)) {
			t.Failf("read back is not DeepEqual to what was built")
		}
		features(t, o, raw)
		if len(o.Body()) > 0 {
			t.Distinct(raw)
		}
		return raw
	}
	c.Run("built", c.N(90000, 1000000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(3) > 0}
		o := g.object()
		if t.IntN(10) == 0 {
			o = g.oddTree()
		}
		check(t, g, o)
		t.Sample(2, clip(Raw(o), 160))
	})
	c.Run("large", c.N(14, 240), func(t *T) {
		o := largeObject(t, t.Idx)
		check(t, Gen{Rand: t.Rand, Small: true}, o)
		t.Count("event:large")
	})
	// with git as the judge, a batch of one kind at a time
	per := 120
	c.Run("git", c.N(32, 800), func(t *T) {
		g := Gen{Rand: t.Rand, Clean: true}
		kind := []string{"blob", "tree", "commit", "tag"}[t.Idx%4]
		repo := newGit(c, fmt.Sprintf("c15-%d", t.Idx))
		defer os.RemoveAll(repo.Dir)
		var list bytes.Buffer
		var want []string
		var objs []Object
		for i := 0; i < per; i++ {
			var o Object
			switch kind {
			case "blob":
				o = g.blob()
			case "tree":
				o = g.tree()
			case "commit":
				o = g.commit()
			case "tag":
				o = g.tag()
			}
			raw := check(t, g, o)
			f := filepath.Join(repo.Dir, fmt.Sprintf("f%d", i))
			if err := os.WriteFile(f, raw[bytes.IndexByte(raw, 0)+1:], 0o644); err != nil {
				harnessError("%v", err)
			}
			list.WriteString(f + "\n")
			h := sha1.Sum(raw)
			want = append(want, hex.EncodeToString(h[:]))
			objs = append(objs, o)
		}
		out, err := repo.cmd(list.Bytes(), "hash-object", "-t", kind, "-w", "--no-filters", "--stdin-paths")
		if err != nil {
			n := bytes.Count(out, []byte("\n"))
			if n < len(objs) {
				t.Input(Raw(objs[n]))
			}
			t.Failf("git refuses a built %s: %v", kind, err)
		}
		ids := strings.Fields(string(out))
		for i := range objs {
			if ids[i] != want[i] {
				t.Input(Raw(objs[i]))
				t.Failf("git's id of a built %s is %s, want %s", kind, ids[i], want[i])
			}
			p := filepath.Join(repo.Dir, ".git", "objects", ids[i][:2], ids[i][2:])
			f, err := os.Open(p)
			if err != nil {
				harnessError("%v", err)
			}
			n, err := ipldgit.ParseCompressedObject(f)
			f.Close()
			if err != nil {
				t.Input(Raw(objs[i]))
				t.Failf("reading the object git stored: %v", err)
			}
			wantView(t, "the object git stored", View(n), objs[i].View())
			t.Count("git-accepted:" + kind)
		}
		// the directory of a batch is one case, its objects are events
		t.CountN("event:git-stored-and-read-back", int64(len(objs)))
	})
}

// ---------------------------------------------------------------- C17

// outSize is how much the process has written to standard output and error,
// which the supervisor points at files.
func outSize() int64 {
	var n int64
	for _, f := range []*os.File{os.Stdout, os.Stderr} {
		if st, err := f.Stat(); err == nil && st.Mode().IsRegular() {
			n += st.Size()
		} else {
			return -1
		}
	}
	return n
}

func outTail(c *Ctx) string {
	var s string
	for _, f := range []string{"stdout", "stderr"} {
		b, _ := os.ReadFile(filepath.Join(c.Work, f))
		if len(b) > 300 {
			b = b[len(b)-300:]
		}
		s += f + ": " + string(b) + " "
	}
	return s
}

type live struct {
	n    Node
	raw  []byte
	view string
	buf  []byte // the input it was decoded from, free to be overwritten
}

// hookReader calls a function inside every Read.
type hookReader struct {
	r    io.Reader
	hook func()
	busy *bool
}

func (h hookReader) Read(p []byte) (int, error) {
	if !*h.busy {
		*h.busy = true
		h.hook()
		*h.busy = false
	}
	return h.r.Read(p)
}

type hookWriter struct {
	w    *bytes.Buffer
	hook func()
	busy *bool
}

func (h hookWriter) Write(p []byte) (int, error) {
	n, err := h.w.Write(p)
	if !*h.busy {
		*h.busy = true
		h.hook()
		*h.busy = false
	}
	return n, err
}

// sharingSrc gives readers whose buffers are the input itself.
func sharingSrc(t *T) func([]byte) io.Reader {
	switch t.IntN(5) {
	case 0:
		return func(b []byte) io.Reader { return bytes.NewBuffer(b) }
	case 1:
		return func(b []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(b), 1<<16) }
	case 2:
		return func(b []byte) io.Reader { return bufio.NewReader(bytes.NewBuffer(b)) }
	}
	return plainSrc
}

func c17(c *Ctx) {
	c.Rule = "Histories of operations (decode by every entry point, encode, look up, build, reuse of builders, failing decodes and encodes, overwriting and reusing input buffers, garbage collection) over a pool of live nodes; after each step nodes of the pool, and at the end all of them, are walked and encoded again and compared with what the model says they hold. The same operations are also run from inside the Read and Write calls of other ones. The size of the process's standard output and error files is watched. Distinct by history; non-trivial: at least two live nodes."
	if outSize() < 0 {
		harnessError("standard output is not a file")
	}
	eps := entryPoints()
	verify := func(t *T, x *live, when string) {
		wantView(t, "a live node changed "+when, View(x.n), x.view)
		t.Count("event:node-rechecked")
	}
	reencode := func(t *T, x *live, when string) {
		out, err := encode(x.n)
		if err != nil {
			t.Failf("a live node no longer encodes %s: %v", when, err)
		}
		wantBytes(t, "a live node encodes differently "+when, out, x.raw)
		t.Count("event:node-reencoded")
	}
	scribble := func(t *T, b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] = byte(t.Uint32())
		}
	}
	newObj := func(t *T) *live {
		g := Gen{Rand: t.Rand, Small: t.IntN(4) > 0}
		o := g.object()
		raw := Raw(o)
		return &live{raw: raw, view: o.View(), buf: append([]byte{}, raw...)}
	}
	decode := func(t *T, x *live) {
		ep := pick(t.Rand, eps)
		if kindOf(x.raw) == "tree" && strings.Contains(ep.Name, "generic") {
			ep = eps[0]
		}
		n, err := ep.F(x.buf, sharingSrc(t))
		if err != nil {
			t.Failf("%s: %v", ep.Name, err)
		}
		x.n = n
		wantView(t, ep.Name, View(n), x.view)
		t.Count("op:decode:" + ep.Name)
	}
	junk := func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		b := mutate(g, Raw(g.object()))
		parse(b)
		t.Count("op:junk-decode")
	}
	badEncode := func(t *T) {
		ipldgit.Encode(hostileNode(t, Gen{Rand: t.Rand, Small: true}), &faultWriter{at: t.IntN(50), err: errInjected})
		t.Count("op:bad-encode")
	}
	c.Run("history", c.N(4000, 60000), func(t *T) {
		var pool []*live
		var hist strings.Builder
		steps := 10 + t.IntN(50)
		protos := allProtos()
		builders := map[string]datamodel.NodeBuilder{}
		for s := 0; s < steps; s++ {
			op := t.IntN(12)
			fmt.Fprintf(&hist, "%d,", op)
			when := fmt.Sprintf("(step %d, operation %d)", s, op)
			switch {
			case op < 3 || len(pool) == 0:
				x := newObj(t)
				decode(t, x)
				scribble(t, x.buf)
				verify(t, x, "when its input buffer was overwritten")
				reencode(t, x, "after its input buffer was overwritten")
				pool = append(pool, x)
				hist.WriteString(clip(x.raw, 40))
				t.Count("op:overwrite-input")
			case op == 3:
				reencode(t, pick(t.Rand, pool), when)
				t.Count("op:encode")
			case op == 4:
				junk(t)
			case op == 5:
				badEncode(t)
			case op == 6: // decode into an old buffer: reuse it for new input
				x, y := pick(t.Rand, pool), newObj(t)
				if cap(x.buf) >= len(y.raw) {
					y.buf = x.buf[:len(y.raw)]
					copy(y.buf, y.raw)
				}
				decode(t, y)
				verify(t, x, "when its input buffer was reused")
				pool = append(pool, y)
				t.Count("op:reuse-buffer")
			case op == 7: // a builder used again and again
				x := newObj(t)
				k := kindOf(x.raw)
				level := pick(t.Rand, []string{"typed", "repr"})
				key := level + "-" + k
				if builders[key] != nil {
					builders[key].Reset()
				} else if level == "typed" {
					builders[key] = typedProto(k).NewBuilder()
				} else {
					builders[key] = reprProto(k).NewBuilder()
				}
				hist.WriteString(key)
				if t.IntN(3) > 0 {
					if err := ipldgit.Decode(builders[key], bytes.NewReader(x.buf)); err != nil {
						t.Failf("decode into a reused builder (%s): %v", key, err)
					}
				} else if err := assemble(builders[key], mustParse(t, x.raw)); err != nil {
					t.Failf("copy into a reused builder (%s): %v", key, err)
				}
				x.n = builders[key].Build()
				wantView(t, "from a reused builder", View(x.n), x.view)
				pool = append(pool, x)
				t.Count("op:reuse-builder")
			case op == 8: // a builder that failed and is used again
				x := newObj(t)
				k := kindOf(x.raw)
				nb := typedProto(k).NewBuilder()
				if t.IntN(2) == 0 {
					nb = reprProto(k).NewBuilder()
				}
				ipldgit.Decode(nb, bytes.NewReader(x.raw[:len(x.raw)-1-t.IntN(min(len(x.raw)-1, 60))]))
				nb.Reset()
				if err := ipldgit.Decode(nb, bytes.NewReader(x.buf)); err != nil {
					t.Failf("decode into a builder reset after a failure: %v", err)
				}
				x.n = nb.Build()
				wantView(t, "from a builder reset after a failure", View(x.n), x.view)
				pool = append(pool, x)
				t.Count("op:reset-after-failure")
			case op == 9: // copy through another builder, then drop the source
				x := pick(t.Rand, pool)
				k := kindOf(x.raw)
				y := &live{raw: x.raw, view: x.view}
				nb := typedProto(k).NewBuilder()
				if t.IntN(2) == 0 {
					nb = reprProto(k).NewBuilder()
				}
				if err := assemble(nb, x.n); err != nil {
					t.Failf("copy: %v", err)
				}
				y.n = nb.Build()
				pool = append(pool, y)
				t.Count("op:copy")
			case op == 10:
				p := pick(t.Rand, protos)
				nb := p.P.NewBuilder()
				v := genVal(Gen{Rand: t.Rand, Small: true}, strings.TrimSuffix(p.Name, "__Repr"))
				(&asm{g: Gen{Rand: t.Rand}, ps: repoProtos(), avoid: true}).put(nb, v)
				inspect(t, pick(t.Rand, pool).n, 0)
				t.Count("op:build-and-inspect")
			case op == 11:
				if t.IntN(20) == 0 {
					runtime.GC()
				}
				i := t.IntN(len(pool))
				pool = append(pool[:i], pool[i+1:]...)
				t.Count("op:drop")
			}
			if len(pool) > 0 {
				verify(t, pick(t.Rand, pool), when)
			}
		}
		for _, x := range pool {
			verify(t, x, "at the end of the history")
			reencode(t, x, "at the end of the history")
		}
		if len(pool) > 1 {
			t.Distinct([]byte(hist.String()))
		}
		t.Sample(2, map[string]any{"steps": steps, "history": clip([]byte(hist.String()), 200), "live": len(pool)})
	})
	// large objects: buffers that are kept for reuse are often kept by size
	c.Run("large", c.N(28, 300), func(t *T) {
		var pool []*live
		for i := 0; i < 3; i++ {
			o := largeObject(t, t.Idx+i*5)
			raw := Raw(o)
			x := &live{raw: raw, view: o.View(), buf: append([]byte{}, raw...)}
			decode(t, x)
			scribble(t, x.buf)
			pool = append(pool, x)
			reencode(t, pick(t.Rand, pool), "among large ones")
			if t.IntN(3) == 0 {
				junk(t)
			}
		}
		small := newObj(t)
		decode(t, small)
		pool = append(pool, small)
		for _, x := range pool {
			reencode(t, x, "after others of its size")
			verify(t, x, "after others of its size")
		}
		t.Distinct(pool[0].raw, pool[1].raw)
		t.Count("event:large-history")
	})
	// operations from inside the reads and writes of another operation
	c.Run("reentrant", c.N(4000, 50000), func(t *T) {
		outer := newObj(t)
		var inner []*live
		for i := 0; i < 3; i++ {
			inner = append(inner, newObj(t))
		}
		busy := false
		hooks := 0
		hook := func() {
			if hooks++; hooks > 40 && t.IntN(20) > 0 {
				return
			}
			x := pick(t.Rand, inner)
			x.buf = append(x.buf[:0], x.raw...)
			decode(t, x)
			reencode(t, x, "inside another operation")
			switch t.IntN(4) {
			case 0:
				junk(t)
			case 1:
				badEncode(t)
			case 2:
				scribble(t, x.buf)
			}
			t.Count("event:nested-operation")
		}
		chunk := 1 + t.IntN(60)
		src := func(b []byte) io.Reader {
			return hookReader{&chunkReader{b: b, next: func() int { return chunk }}, hook, &busy}
		}
		ep := pick(t.Rand, eps)
		if kindOf(outer.raw) == "tree" && strings.Contains(ep.Name, "generic") {
			ep = eps[0]
		}
		n, err := ep.F(outer.raw, src)
		if err != nil {
			t.Failf("%s with operations inside its reads: %v", ep.Name, err)
		}
		outer.n = n
		wantView(t, ep.Name+" with operations inside its reads", View(n), outer.view)
		w := &bytes.Buffer{}
		if err := ipldgit.Encode(n, hookWriter{w, hook, &busy}); err != nil {
			t.Failf("Encode with operations inside its writes: %v", err)
		}
		wantBytes(t, "Encode with operations inside its writes", w.Bytes(), outer.raw)
		verify(t, outer, "after nested operations")
		t.Distinct(outer.raw, []byte(ep.Name))
	})
	// results do not depend on what ran before: the same call again
	c.Run("repeat", c.N(12000, 150000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		raw := Raw(g.object())
		bad := mutate(g, raw)
		t.Input(bad)
		obs := func(b []byte) string {
			n, err := parse(b)
			if err != nil {
				return "error: " + err.Error()
			}
			out, err := encode(n)
			return fmt.Sprint(View(n), out, err)
		}
		a, b := obs(bad), obs(raw)
		for i := 0; i < 3; i++ {
			if x := obs(bad); x != a {
				t.Failf("the same input gave another result the second time: %s", diffAt(x, a))
			}
			if x := obs(raw); x != b {
				t.Failf("the same input gave another result the second time: %s", diffAt(x, b))
			}
		}
		t.Distinct(raw, bad)
	})
	// one at a time, watching the output
	c.RunSeq("quiet", c.N(4000, 100000), func(t *T) {
		before := outSize()
		g := Gen{Rand: t.Rand, Small: t.IntN(3) > 0}
		o := g.object()
		if t.IntN(4) == 0 {
			co := g.commit()
			g.shuffled(co)
			o = co
		}
		raw := Raw(o)
		t.Input(raw)
		n := mustParse(t, raw)
		encode(n)
		ipldgit.ParseCompressedObject(bytes.NewReader(deflate(raw, 1)))
		if o.Kind() != "tree" {
			decodeInto(basicnode.Prototype.Any, bytes.NewReader(raw))
		}
		if e, err := mc.LookupEncoder(cid.GitRaw); err == nil {
			e(n, io.Discard)
		}
		if after := outSize(); after != before {
			t.Failf("wrote %d bytes to standard output or error: %s", after-before, outTail(c))
		}
		t.Count("event:output-checked")
		t.Distinct([]byte("quiet"), raw)
	})
	c.runFindings(map[string]func(*T, []byte) string{
		"output": func(t *T, in []byte) string {
			before := outSize()
			if _, err := parse(in); err != nil {
				return "decode-error"
			}
			if outSize() != before {
				return "prints"
			}
			return "ok"
		},
	})
}

var _ = errors.New
