package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	mh "github.com/multiformats/go-multihash"
)

func init() {
	register("C07", "exploration", c07)
	register("C08", "fault_enumeration", c08)
	register("C09", "exploration", c09)
}

type namedProto struct {
	Name string
	P    datamodel.NodePrototype
}

// allProtos is every prototype of the package.
func allProtos() []namedProto {
	T := ipldgit.Type
	return []namedProto{
		{"Blob", T.Blob}, {"Blob__Repr", T.Blob__Repr}, {"Commit", T.Commit}, {"Commit__Repr", T.Commit__Repr},
		{"Commit_Link", T.Commit_Link}, {"Commit_Link__Repr", T.Commit_Link__Repr}, {"Commit_Link_List", T.Commit_Link_List}, {"Commit_Link_List__Repr", T.Commit_Link_List__Repr},
		{"GpgSig", T.GpgSig}, {"GpgSig__Repr", T.GpgSig__Repr}, {"Link", T.Link}, {"Link__Repr", T.Link__Repr},
		{"PersonInfo", T.PersonInfo}, {"PersonInfo__Repr", T.PersonInfo__Repr}, {"String", T.String}, {"String__Repr", T.String__Repr},
		{"String_List", T.String_List}, {"String_List__Repr", T.String_List__Repr}, {"Tag", T.Tag}, {"Tag__Repr", T.Tag__Repr},
		{"Tag_List", T.Tag_List}, {"Tag_List__Repr", T.Tag_List__Repr}, {"Tree", T.Tree}, {"Tree__Repr", T.Tree__Repr},
		{"TreeEntry", T.TreeEntry}, {"TreeEntry__Repr", T.TreeEntry__Repr}, {"Tree_Link", T.Tree_Link}, {"Tree_Link__Repr", T.Tree_Link__Repr},
	}
}

// strKey is a key node of the package's own string type, the only one a tree
// node takes (see known finding K11).
func strKey(s string) Node {
	nb := ipldgit.Type.String.NewBuilder()
	if err := nb.AssignString(s); err != nil {
		panic(err)
	}
	return nb.Build()
}

// inspect looks at everything a node offers.
func inspect(t *T, n Node, depth int) {
	if n == nil {
		t.Failf("nil node")
	}
	n.Prototype()
	n.Kind()
	n.Length()
	n.IsNull()
	n.IsAbsent()
	n.AsBool()
	n.AsInt()
	n.AsFloat()
	n.AsString()
	n.AsBytes()
	n.AsLink()
	n.LookupByString("tree")
	n.LookupByString("")
	n.LookupByIndex(0)
	n.LookupByIndex(1 << 40)
	n.LookupBySegment(datamodel.PathSegmentOfString("message"))
	n.LookupBySegment(datamodel.PathSegmentOfInt(3))
	n.LookupByNode(strKey("author"))
	if tn, ok := n.(schema.TypedNode); ok {
		tn.Type()
		if r := tn.Representation(); r == nil {
			t.Failf("nil representation")
		}
	}
	if depth > 6 {
		return
	}
	if it := n.ListIterator(); it != nil {
		for k := 0; !it.Done(); k++ {
			_, v, err := it.Next()
			if err != nil {
				break
			}
			if k < 40 {
				inspect(t, v, depth+1)
			}
		}
		it.Next()
	}
	if it := n.MapIterator(); it != nil {
		for k := 0; !it.Done(); k++ {
			kn, v, err := it.Next()
			if err != nil {
				break
			}
			if k < 40 {
				inspect(t, kn, depth+1)
				inspect(t, v, depth+1)
			}
		}
		it.Next()
	}
}

func useNode(t *T, n Node) {
	inspect(t, n, 0)
	View(n)
	encode(n)
	if tn, ok := n.(schema.TypedNode); ok {
		r := tn.Representation()
		inspect(t, r, 0)
		encode(r)
	}
	t.Count("event:node-inspected")
}

func c07(c *Ctx) {
	c.Rule = "Mutated objects (byte, token, line and splice mutations, mostly with a corrected size so that they reach the parsers) and arbitrary bytes, through every entry point, into every builder of the package; random and broken nodes of several implementations into the encoder; every node returned is inspected through its whole interface and encoded. Oracle: the call returns; panics, stack overflows (limit lowered to 32 MB for inputs of up to 600000 repeated parts) and hangs are violations. Distinct by input; non-trivial: a mutated object that differs from its origin."
	eps := entryPoints()
	protos := allProtos()
	c.Run("mutated", c.N(60000, 3000000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(2) == 0}
		o := g.object()
		if g.p(50) {
			o = g.commit()
		}
		orig := Raw(o)
		raw := mutate(g, orig)
		t.Input(raw)
		n, err := parse(raw)
		if err != nil {
			t.Count("event:refused:" + kindOf(raw))
		} else {
			t.Count("event:accepted:" + kindOf(raw))
			useNode(t, n)
		}
		ep := eps[t.Idx%len(eps)]
		if n, err := ep.F(raw, plainSrc); err == nil {
			useNode(t, n)
		}
		t.Count("entry:" + ep.Name)
		if !bytes.Equal(raw, orig) {
			t.Distinct(raw)
		}
		t.Sample(3, clip(raw, 200))
	})
	c.Run("builders", c.N(14000, 400000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		raw := Raw(g.object())
		if g.p(50) {
			raw = mutate(g, raw)
		}
		t.Input(raw)
		p := protos[t.Idx%len(protos)]
		if n, err := decodeInto(p.P, bytes.NewReader(raw)); err == nil {
			useNode(t, n)
			t.Count("event:built:" + p.Name)
		}
		// the rest of one kind of object given to the decoder of another
		_, rest, _ := bytes.Cut(raw, []byte(" "))
		for _, k := range []string{"blob", "tree", "commit", "tag"} {
			nb := p.P.NewBuilder()
			if err := kindDecoder(k)(nb, bufio.NewReaderSize(bytes.NewReader(rest), 16)); err == nil {
				useNode(t, nb.Build())
			}
		}
		rd := bufio.NewReader(bytes.NewReader(rest))
		for i := 0; i < 5; i++ {
			if _, n, err := ipldgit.DecodeTreeEntry(rd); err == nil {
				useNode(t, n)
			}
		}
		// a builder of a nested assembler
		t.Count("builder:" + p.Name)
		t.Distinct([]byte(p.Name), raw)
	})
	// an object of one kind, with the field names of the others, into every builder
	c.Run("cross-kind", c.N(6000, 200000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		var o Object
		if g.p(70) {
			tr := &Tree{}
			names := []string{"tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other", "object", "type", "tag", "tagger", "date", "timezone", "email", "name", "mode", "hash", "0", "1"}
			g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			for _, n := range names[:g.IntN(len(names))] {
				tr.Entries = append(tr.Entries, Entry{"100644", n, g.sha()})
			}
			o = tr
		} else {
			o = g.object()
		}
		raw := Raw(o)
		t.Input(raw)
		t.Distinct(raw)
		for _, p := range protos {
			if n, err := decodeInto(p.P, bytes.NewReader(raw)); err == nil {
				useNode(t, n)
				t.Count("event:cross-kind-accepted:" + p.Name + "<-" + o.Kind())
			} else {
				t.Count("event:cross-kind-refused")
			}
		}
	})
	c.Run("arbitrary", c.N(60000, 2000000), func(t *T) {
		g := Gen{Rand: t.Rand}
		var sb strings.Builder
		sb.WriteString(pick(g.Rand, []string{"", "", "tree ", "commit ", "blob ", "tag "}))
		if g.p(60) {
			sb.WriteString(strconv.Itoa(g.IntN(200)) + "\x00")
		}
		for k := g.IntN(30); k > 0; k-- {
			if g.p(60) {
				sb.WriteString(pick(g.Rand, dict))
			} else {
				sb.WriteByte(byte(g.Uint32()))
			}
		}
		raw := []byte(sb.String())
		if g.p(50) { // make the size right
			if i := bytes.IndexByte(raw, 0); i >= 0 {
				raw = append([]byte(kindOf(raw)+" "+strconv.Itoa(len(raw)-i-1)), raw[i:]...)
			}
		}
		t.Input(raw)
		if n, err := parse(raw); err == nil {
			useNode(t, n)
		}
		if n, err := ipldgit.ParseCompressedObject(bytes.NewReader(raw)); err == nil {
			useNode(t, n)
		}
		if n, err := decodeInto(basicnode.Prototype.Any, bytes.NewReader(raw)); err == nil {
			useNode(t, n)
		}
		t.Distinct(raw)
	})
	c.Run("short", c.N(1, 1), func(t *T) {
		// every input of one and two bytes after each kind and size
		cnt := int64(0)
		for _, k := range []string{"", "tree 1\x00", "commit 1\x00", "tag 1\x00", "blob 1\x00", "tree 2\x00", "commit 2\x00", "tag 2\x00", "blob 2\x00"} {
			for a := 0; a < 256; a++ {
				raw := append([]byte(k), byte(a))
				t.Input(raw)
				if n, err := parse(raw); err == nil {
					useNode(t, n)
				}
				for b := 0; b < 256; b++ {
					raw := append([]byte(k), byte(a), byte(b))
					t.Input(raw)
					if n, err := parse(raw); err == nil {
						encode(n)
					}
					cnt++
				}
			}
		}
		t.CountN("event:short-inputs-enumerated", cnt)
	})
	c.Run("nodes", c.N(120000, 4000000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		n := hostileNode(t, g)
		if b, err := encode(n); err == nil {
			t.Count("event:hostile-node-encoded")
			if m, err := parse(b); err == nil {
				useNode(t, m)
			}
		} else {
			t.Count("event:hostile-node-refused")
		}
		t.Distinct([]byte(View(n)))
	})
	c.Run("parts", c.N(2000, 50000), func(t *T) { // every part of an object given to the encoder
		g := Gen{Rand: t.Rand, Small: true}
		raw := Raw(g.object())
		t.Input(raw)
		var walk func(n Node)
		walk = func(n Node) {
			encode(n)
			encode(reprOf(n))
			t.Count("event:part-encoded")
			if it := n.MapIterator(); it != nil {
				for !it.Done() {
					k, v, err := it.Next()
					if err != nil {
						break
					}
					encode(k)
					walk(v)
				}
			}
			if it := n.ListIterator(); it != nil {
				for !it.Done() {
					_, v, err := it.Next()
					if err != nil {
						break
					}
					walk(v)
				}
			}
		}
		walk(mustParse(t, raw))
		t.Distinct(raw)
	})
	// Deep recursion: one part repeated very often, with a small stack limit.
	// The limit is for the whole process, so this suite comes last.
	old := debug.SetMaxStack(32 << 20)
	n := c.N(300000, 600000)
	sh := deepShapes()
	c.Run("deep", len(sh), func(t *T) {
		raw := sh[t.Idx](n)
		t.Distinct([]byte{byte(t.Idx)})
		for i, ep := range eps {
			if i%5 != t.Idx%5 && i > 1 {
				continue
			}
			x, err := ep.F(raw, plainSrc)
			if err != nil {
				t.Count("event:deep-refused")
				continue
			}
			t.Count("event:deep-accepted")
			encode(x)
			encode(reprOf(x))
		}
	})
	debug.SetMaxStack(old)
}

func withSize(kind, body string) []byte {
	return []byte(kind + " " + strconv.Itoa(len(body)) + "\x00" + body)
}

var hex40 = strings.Repeat("0123456789", 4)

// deepShapes are objects with one part repeated n times.
func deepShapes() []func(n int) []byte {
	rep := func(pre, s, post string) func(int) []byte {
		return func(n int) []byte { return withSize("commit", pre+strings.Repeat(s, n)+post) }
	}
	head := "tree " + hex40 + "\n"
	return []func(int) []byte{
		rep(head, "mergetag object "+hex40+"\n", "\n"),
		rep(head, "mergetag object "+hex40+"\n \n", "\nm"),
		rep(head, "mergetag object "+hex40+"\n type commit\n tag x\n tagger a <b> 1 +0\n \n m\n", "\nm"),
		rep(head+"mergetag object "+hex40+"\n \n", " m\n", "\nm"),
		rep(head+"mergetag object "+hex40+"\n", " tag x\n", "\nm"),
		rep(head, "parent "+hex40+"\n", "\nm"),
		rep(head, "x y\n", "\nm"),
		rep(head+"author ", "n ", "<e> 1 +0\n\nm"),
		rep(head+"author a <", "e ", "> 1 +0\n\nm"),
		rep(head+"author a <e> ", "1 ", "\n\nm"),
		rep(head+"gpgsig -----BEGIN PGP SIGNATURE-----\n \n", " x\n", " -----END PGP SIGNATURE-----\n\nm"),
		rep(head+"gpgsig -----BEGIN PGP SIGNATURE-----\n \n", " x\n", ""),
		rep(head, "gpgsig -----BEGIN PGP SIGNATURE-----\n \n -----END PGP SIGNATURE-----\n", "\nm"),
		rep(head+"\n", "\n", ""),
		rep("", "\n", ""),
		rep("", "tree ", ""),
		rep(head, "author a <e> 1 +0\n", "\n"),
		func(n int) []byte {
			return withSize("tag", "object "+hex40+"\n"+strings.Repeat("tag x\n", n)+"\nm")
		},
		func(n int) []byte {
			return withSize("tag", "object "+hex40+"\ntype commit\ntag x\ntagger "+strings.Repeat("a ", n)+"<e>\n\nm")
		},
		func(n int) []byte {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, "1 %d\x00aaaaaaaaaaaaaaaaaaaa", i)
			}
			return withSize("tree", sb.String())
		},
		func(n int) []byte { return withSize("tree", strings.Repeat("1 a\x00aaaaaaaaaaaaaaaaaaaa", n)) },
		func(n int) []byte { return withSize("blob", strings.Repeat("blob 1\x00", n)) },
		func(n int) []byte { return []byte("blob " + strings.Repeat("0", n) + "\x00") },
		func(n int) []byte { return []byte(strings.Repeat("blob", n) + " 0\x00") },
	}
}

type otherLink struct{}

func (otherLink) Prototype() datamodel.LinkPrototype { return gitLinkProto }
func (otherLink) String() string                     { return "otherLink" }
func (otherLink) Binary() string                     { return "\x01\x78\x11\x14" + strings.Repeat("x", 20) }

func oddLink(g Gen) datamodel.Link {
	s := g.sha()
	mk := func(codec uint64, typ uint64, digest []byte) datamodel.Link {
		h, err := mh.Encode(digest, typ)
		if err != nil {
			return cidlink.Link{}
		}
		return cidlink.Link{Cid: cid.NewCidV1(codec, h)}
	}
	switch g.IntN(9) {
	case 0:
		return cidlink.Link{}
	case 1:
		return otherLink{}
	case 2:
		return mk(cid.GitRaw, mh.SHA1, s[:g.IntN(20)])
	case 3:
		return mk(cid.GitRaw, mh.SHA1, append(s[:], make([]byte, 1+g.IntN(30))...))
	case 4:
		return mk(cid.DagCBOR, mh.SHA2_256, append(s[:], s[:12]...))
	case 5:
		return mk(cid.Raw, mh.IDENTITY, s[:g.IntN(21)])
	case 6:
		return mk(cid.GitRaw, mh.SHA2_256, s[:])
	case 7:
		h, _ := mh.Encode(append(s[:], s[:12]...), mh.SHA2_256)
		return cidlink.Link{Cid: cid.NewCidV0(h)}
	default:
		return gitLink(s)
	}
}

func randomNode(t *T, g Gen, depth int) Node {
	r := g.IntN(12)
	if depth > 4 && r >= 9 {
		r = g.IntN(9)
	}
	switch r {
	case 0:
		return datamodel.Null
	case 1:
		return basicnode.NewBool(g.p(50))
	case 2:
		return basicnode.NewInt(int64(g.Uint64()))
	case 3:
		return basicnode.NewFloat(g.Float64())
	case 4, 5:
		return basicnode.NewString(g.line(g.IntN(20)))
	case 6:
		return basicnode.NewBytes([]byte(g.line(g.IntN(20))))
	case 7:
		return basicnode.NewLink(oddLink(g))
	case 8:
		return datamodel.Absent
	case 9:
		c := &cnode{failAt: -1}
		for i := g.IntN(4); i > 0; i-- {
			c.vals = append(c.vals, presentNode(t, g, depth+1))
		}
		if g.p(50) {
			return genericList(t, c.vals)
		}
		if g.p(10) {
			c.failAt = g.IntN(3)
		}
		return c
	default:
		c := &cnode{isMap: true, failAt: -1}
		seen := map[string]bool{}
		for i := g.IntN(7); i > 0; i-- {
			k := pick(g.Rand, []string{"tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other", "object", "type", "tag", "tagger", "text", "date", "timezone", "email", "name", "mode", "hash", "", "x", "/"})
			if seen[k] {
				continue
			}
			seen[k] = true
			c.keys = append(c.keys, k)
			c.vals = append(c.vals, presentNode(t, g, depth+1))
		}
		if g.p(50) {
			return genericMap(t, c.keys, c.vals)
		}
		if g.p(10) {
			c.failAt = g.IntN(5)
		}
		return c
	}
}

func presentNode(t *T, g Gen, depth int) Node {
	n := randomNode(t, g, depth)
	if n.IsAbsent() {
		return datamodel.Null
	}
	return n
}

// hostileNode is a random node, or an object's node with parts replaced.
func hostileNode(t *T, g Gen) Node {
	if g.p(15) {
		return randomNode(t, g, 0)
	}
	var o Object
	switch g.IntN(4) {
	case 0:
		o = g.tag()
	case 1:
		o = g.tree()
	default:
		o = g.commit()
	}
	n := mustParse(t, Raw(o))
	if g.p(10) {
		return n
	}
	if g.p(25) { // the package's own types around unusual links and texts
		x := oddLinks(g, remake{t: t, custom: true}.node(n))
		x = buildFrom(t, typedProto(o.Kind()), x)
		if g.p(40) {
			x = reprOf(x)
		}
		return x
	}
	return spoil(t, g, remake{t: t, perm: true, custom: true}.node(n), 0)
}

// oddLinks replaces some of the links in a node.
func oddLinks(g Gen, n Node) Node {
	c, ok := n.(*cnode)
	if !ok {
		if n.Kind() == datamodel.Kind_Link && g.p(40) {
			return basicnode.NewLink(oddLink(g))
		}
		return n
	}
	for i := range c.vals {
		c.vals[i] = oddLinks(g, c.vals[i])
	}
	return c
}

func spoil(t *T, g Gen, n Node, depth int) Node {
	c, ok := n.(*cnode)
	if !ok {
		if g.p(15) {
			return presentNode(t, g, 2)
		}
		return n
	}
	if g.p(4) {
		return presentNode(t, g, 2)
	}
	for i := range c.vals {
		if g.p(12) {
			c.vals[i] = spoil(t, g, c.vals[i], depth+1)
			if g.p(20) {
				c.vals[i] = presentNode(t, g, 2)
			}
		} else if _, ok := c.vals[i].(*cnode); ok {
			c.vals[i] = spoil(t, g, c.vals[i], depth+1)
		}
	}
	if c.isMap && len(c.keys) > 0 {
		i := g.IntN(len(c.keys))
		switch g.IntN(12) {
		case 0:
			c.keys = append(c.keys[:i], c.keys[i+1:]...)
			c.vals = append(c.vals[:i], c.vals[i+1:]...)
		case 1:
			c.keys[i] = c.keys[i] + "x"
		case 2:
			c.keys = append(c.keys, "extra"+strconv.Itoa(g.IntN(10)))
			c.vals = append(c.vals, presentNode(t, g, 2))
		case 3:
			c.failAt = g.IntN(len(c.keys))
		case 4: // a key twice, which only some implementations rule out
			c.keys = append(c.keys, c.keys[i])
			c.vals = append(c.vals, c.vals[i])
			return c
		}
	}
	if g.p(40) && c.failAt < 0 && c.isMap {
		return genericMap(t, c.keys, c.vals)
	}
	return c
}

// ---------------------------------------------------------------- C08

func c08(c *Ctx) {
	c.Rule = "For each generated object: every prefix, a set of suffixes appended, and every altered size field, through stream, buffer, block, compressed, codec and per-kind entry points; and every prefix of its zlib stream. Oracle: every one of them is refused. Prefixes are enumerated completely per object (offsets sampled only for objects over 3000 bytes). Distinct by object; non-trivial: body of at least one byte."
	c.Assume("a prefix of an object is never itself an object, because its declared size no longer matches")
	eps := entryPoints()
	var sel []EntryPoint
	for _, e := range eps {
		switch e.Name {
		case "ParseObject", "ParseObjectFromBuffer", "DecodeBlock", "ParseCompressedObject/6", "Decode/generic", "Decode/typed", "Decode/repr", "DecodeKind/typed/buf16", "codec/repr", "LinkSystem/typed":
			sel = append(sel, e)
		}
	}
	refuse := func(t *T, what string, b []byte, e EntryPoint) {
		if n, err := e.F(b, plainSrc); err == nil {
			t.Input(b)
			t.Failf("%s accepted through %s: %s", what, e.Name, clip([]byte(View(n)), 300))
		}
		t.Count("event:refused")
	}
	sampled := func(t *T, o Object, most int) {
		raw := Raw(o)
		t.Input(raw)
		if _, err := parse(raw); err != nil {
			t.Failf("the whole object is refused: %v", err)
		}
		step := 1
		if len(raw) > 3*most {
			step = len(raw)/most + 1
		}
		k := t.IntN(len(sel))
		for i := 0; i < len(raw); i += step {
			refuse(t, fmt.Sprintf("prefix of %d of %d bytes", i, len(raw)), raw[:i:i], sel[0])
			refuse(t, fmt.Sprintf("prefix of %d of %d bytes", i, len(raw)), raw[:i:i], sel[k%len(sel)])
			k++
			t.Count("fault:truncated")
		}
		g := Gen{Rand: t.Rand, Small: true}
		nul := bytes.IndexByte(raw, 0)
		bd := raw[nul+1:]
		for _, suf := range []string{"\n", "\x00", " ", "x", string(raw), "\n\n", "100644 a\x00" + strings.Repeat("h", 20), "parent " + hex40 + "\n", strings.Repeat("\n", 4096), strings.Repeat("y", 9000), g.word()} {
			for _, e := range sel {
				refuse(t, fmt.Sprintf("object with %d bytes after its end", len(suf)), append(append([]byte{}, raw...), suf...), e)
			}
			t.Count("fault:extended")
		}
		d := len(bd)
		sizes := []string{"", "-1", "+" + strconv.Itoa(d), "0" + strconv.Itoa(d), "00" + strconv.Itoa(d), " " + strconv.Itoa(d), strconv.Itoa(d) + " ", "-" + strconv.Itoa(d), "0x" + strconv.FormatInt(int64(d), 16), strconv.Itoa(d) + "_", "x", "9223372036854775807", "18446744073709551615",
			strconv.FormatUint(uint64(d)+1<<32, 10), strconv.FormatUint(uint64(d)+1<<16, 10), strconv.FormatUint(uint64(d)+1<<63, 10), "18446744073709551616", "99999999999999999999999" + strconv.Itoa(d), strconv.Itoa(d * 10)}
		if d == 0 {
			sizes = sizes[:len(sizes)-1] // 0*10
		}
		if d == 0 {
			sizes = append(sizes, "-0", "00")
		}
		for _, x := range []int{1, 2, 3, 19, 20, 21, 100, 4096} {
			sizes = append(sizes, strconv.Itoa(d+x), strconv.Itoa(d-x))
		}
		for _, s := range sizes {
			b := append([]byte(o.Kind()+" "+s+"\x00"), bd...)
			for _, e := range []EntryPoint{sel[0], sel[k%len(sel)]} {
				refuse(t, fmt.Sprintf("size field %q for a body of %d bytes", s, d), b, e)
			}
			k++
			t.Count("fault:size-field")
		}
		// each digit of the size changed
		for i := len(o.Kind()) + 1; i < nul; i++ {
			for _, ch := range []byte("0123456789 -+\n") {
				if raw[i] == ch {
					continue
				}
				b := append([]byte{}, raw...)
				b[i] = ch
				refuse(t, "size field with a digit changed", b, sel[0])
			}
		}
		z := deflate(raw, pick(t.Rand, []int{0, 1, 6, 9}))
		zstep := 1
		if len(z) > 3*most {
			zstep = len(z)/most + 1
		}
		for i := 0; i < len(z); i++ {
			if i%zstep != 0 && i < len(z)-12 {
				continue
			}
			n, err := ipldgit.ParseCompressedObject(bytes.NewReader(z[:i:i]))
			if err == nil {
				t.Failf("compressed stream cut to %d of %d bytes accepted: %s", i, len(z), clip([]byte(View(n)), 300))
			}
			t.Count("fault:compressed-truncated")
		}
		features(t, o, raw)
		if d > 0 {
			t.Distinct(raw)
		}
		t.Sample(2, map[string]any{"object": clip(raw, 120), "bytes": len(raw)})
	}
	body := func(t *T, o Object) { sampled(t, o, 1000) }
	c.Run("large", c.N(28, 300), func(t *T) {
		sampled(t, largeObject(t, t.Idx), 20+t.IntN(20))
		t.Count("event:large")
	})
	c.Run("small", c.N(700, 40000), func(t *T) { body(t, Gen{Rand: t.Rand, Small: true}.object()) })
	c.Run("any", c.N(100, 6000), func(t *T) { body(t, G(t).object()) })
	// objects whose header, body or whole ends on a reader's buffer boundary,
	// the surplus or the end arriving in a read of its own
	c.Run("aligned", c.N(1200, 30000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		base := pick(t.Rand, []int{16, 64, 512, 4096, 4096, 4096, 8192, 32768, 65536}) * (1 + t.IntN(2))
		what := t.IntN(3)
		var o Object
		pad := func(n int) Object {
			switch t.Idx % 4 {
			case 0:
				return &Blob{bytes.Repeat([]byte("b"), n)}
			case 1:
				return &Tree{Entries: []Entry{{"100644", "n" + strings.Repeat("n", n), g.sha()}}}
			case 2:
				return &Tag{Object: g.sha(), Type: "commit", Name: "t", Tagger: &Person{Name: "x", Email: "y"}, Message: "m" + strings.Repeat("m", n)}
			default:
				return &Commit{Tree: g.sha(), Message: strings.Repeat("m", n)}
			}
		}
		// the body's length is that of an empty one plus the padding
		min := len(pad(0).Body())
		if base < min+40 {
			base = 512
		}
		o = pad(base - min + []int{0, -1, 1}[t.IntN(3)])
		if what > 0 { // the whole object instead of the body
			o = pad(base - min - (len(Raw(pad(base-min))) - base))
		}
		raw := Raw(o)
		t.Input(raw)
		if len(raw)%512 == 0 {
			t.Count("feat:object-fills-a-buffer")
		}
		apart := func(at int) func([]byte) io.Reader {
			return func(b []byte) io.Reader {
				if at > len(b) {
					return bytes.NewReader(b)
				}
				return io.MultiReader(bytes.NewReader(b[:at]), bytes.NewReader(b[at:]))
			}
		}
		var streams []EntryPoint
		for _, e := range sel {
			if !strings.HasPrefix(e.Name, "ParseCompressed") {
				streams = append(streams, e)
			}
		}
		for _, e := range streams {
			if _, err := e.F(raw, plainSrc); err != nil {
				t.Failf("%s: the whole object is refused: %v", e.Name, err)
			}
			for _, suf := range []string{"\n", "\x00", " ", string(raw), strings.Repeat("\x00", 512-len(raw)%512), strings.Repeat("z", 5000)} {
				for _, src := range []func([]byte) io.Reader{plainSrc, apart(len(raw))} {
					b := append(append([]byte{}, raw...), suf...)
					if _, err := e.F(b, src); err == nil {
						t.Failf("%s accepted an object of %d bytes with %d bytes after its end", e.Name, len(raw), len(suf))
					}
					t.Count("fault:extended-aligned")
				}
			}
			for _, cut := range []int{1, 2, 20, 21} {
				b := raw[: len(raw)-cut : len(raw)-cut]
				if _, err := e.F(b, plainSrc); err == nil {
					t.Failf("%s accepted an object of %d bytes without its last %d", e.Name, len(raw), cut)
				}
				t.Count("fault:truncated-aligned")
			}
		}
		t.Distinct(raw)
	})
	c.Run("kinds", c.N(240, 10000), func(t *T) { // each kind equally often, with all commit features
		g := Gen{Rand: t.Rand, Small: true}
		switch t.Idx % 4 {
		case 0:
			o := g.commit()
			o.MergeTags = append(o.MergeTags, g.mergeTag())
			s := g.sig()
			o.Sig = &s
			body(t, o)
		case 1:
			o := g.tree()
			o.Entries = append(o.Entries, Entry{"100644", "zz", g.sha()})
			body(t, o)
		case 2:
			body(t, g.tag())
		case 3:
			body(t, g.blob())
		}
	})
}

// ---------------------------------------------------------------- C09

func allocs(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func threadCPU() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// cpuMin is the least thread CPU time of a few runs.
func cpuMin(reps int, f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	best := time.Duration(1 << 62)
	for i := 0; i < reps; i++ {
		s := threadCPU()
		f()
		if d := threadCPU() - s; d < best {
			best = d
		}
		if best > 3*time.Second {
			break
		}
	}
	return best
}

type costShape struct {
	name string
	mk   func(n int) []byte // about n bytes
}

func costShapes() []costShape {
	rep := func(kind, pre, s, post string) func(int) []byte {
		return func(n int) []byte { return withSize(kind, pre+strings.Repeat(s, n/len(s))+post) }
	}
	head := "tree " + hex40 + "\n"
	ac := "author a <e> 1 +0\ncommitter a <e> 1 +0\n"
	th := "object " + hex40 + "\ntype commit\ntag x\n"
	tree := func(name func(i int) string) func(n int) []byte {
		return func(n int) []byte {
			var sb strings.Builder
			for i := 0; sb.Len() < n; i++ {
				sb.WriteString("100644 " + name(i) + "\x00aaaaaaaaaaaaaaaaaaaa")
			}
			return withSize("tree", sb.String())
		}
	}
	return []costShape{
		{"blob-zero", rep("blob", "", "\x00", "")},
		{"blob-text", rep("blob", "", "some text\n", "")},
		{"tree-entries", tree(func(i int) string { return strconv.Itoa(i) })},
		{"tree-entries-reverse", tree(func(i int) string { return strconv.Itoa(999999999 - i) })},
		{"tree-entries-long-common-prefix", tree(func(i int) string { return strings.Repeat("p", 200) + strconv.Itoa(i) })},
		{"tree-one-long-name", func(n int) []byte {
			return withSize("tree", "100644 "+strings.Repeat("n", n)+"\x00aaaaaaaaaaaaaaaaaaaa")
		}},
		{"tree-one-long-mode", func(n int) []byte {
			return withSize("tree", strings.Repeat("1", n)+" a\x00aaaaaaaaaaaaaaaaaaaa")
		}},
		{"commit-parents", rep("commit", head, "parent "+hex40+"\n", ac+"\nm")},
		{"commit-message", rep("commit", head+ac+"\n", "message line\n", "")},
		{"commit-message-newlines", rep("commit", head+ac+"\n", "\n", "")},
		{"commit-message-no-newline", rep("commit", head+ac+"\n", "x", "")},
		{"commit-name-spaces", rep("commit", head+"author ", "n ", "<e> 1 +0\n\nm")},
		{"commit-name-only-spaces", rep("commit", head+"author a", " ", "<e> 1 +0\n\nm")},
		{"commit-name-long", rep("commit", head+"author ", "n", " <e> 1 +0\n\nm")},
		{"commit-email-spaces", rep("commit", head+"author a <", "e ", "> 1 +0\n\nm")},
		{"commit-email-only-spaces", rep("commit", head+"author a <", " ", "> 1 +0\n\nm")},
		{"commit-date-long", rep("commit", head+"author a <e> ", "1", " +0\n\nm")},
		{"commit-encoding-long", rep("commit", head+ac+"encoding ", "E", "\n\nm")},
		{"commit-mergetags", rep("commit", head+ac, "mergetag object "+hex40+"\n type commit\n tag x\n tagger a <b> 1 +0\n \n m\n", "\nm")},
		{"commit-mergetags-empty", rep("commit", head+ac, "mergetag object "+hex40+"\n \n", "\nm")},
		{"commit-mergetags-bodyless", rep("commit", head+ac, "mergetag object "+hex40+"\n", "\nm")},
		{"commit-mergetag-message", rep("commit", head+ac+"mergetag object "+hex40+"\n type commit\n tag x\n \n", " message line\n", "\nm")},
		{"commit-mergetag-blank-lines", rep("commit", head+ac+"mergetag object "+hex40+"\n type commit\n tag x\n \n", " \n", "\nm")},
		{"commit-mergetag-long-line", rep("commit", head+ac+"mergetag object "+hex40+"\n type commit\n tag x\n \n ", "x", "\n\nm")},
		{"commit-mergetag-unknown-lines", rep("commit", head+ac+"mergetag object "+hex40+"\n", " unknown line\n", " \n m\n\nm")},
		{"commit-sig", rep("commit", head+ac+"gpgsig -----BEGIN PGP SIGNATURE-----\n \n", " QUFBQUFBQUFBQUFBQUFBQUFB\n", " -----END PGP SIGNATURE-----\n\nm")},
		{"commit-sig-blank-lines", rep("commit", head+ac+"gpgsig -----BEGIN PGP SIGNATURE-----\n \n", " \n", " -----END PGP SIGNATURE-----\n\nm")},
		{"commit-sig-long-line", rep("commit", head+ac+"gpgsig -----BEGIN PGP SIGNATURE-----\n \n ", "A", "\n -----END PGP SIGNATURE-----\n\nm")},
		{"commit-sig-unended", rep("commit", head+ac+"gpgsig -----BEGIN PGP SIGNATURE-----\n \n", " QUFBQUFBQUFB\n", "")},
		{"commit-other", rep("commit", head+ac, "x-header value\n", "\nm")},
		{"commit-other-short", rep("commit", head+ac, "x\n", "\nm")},
		{"commit-other-long", rep("commit", head+ac+"x ", "v", "\n\nm")},
		{"commit-repeated-authors", rep("commit", head, ac, "\nm")},
		{"commit-repeated-tree", rep("commit", "", head, "\nm")},
		{"commit-repeated-encoding", rep("commit", head, "encoding x\n", "\nm")},
		{"commit-repeated-sigs", rep("commit", head, "gpgsig -----BEGIN PGP SIGNATURE-----\n \n -----END PGP SIGNATURE-----\n", "\nm")},
		{"commit-mergetag-tagger-spaces", rep("commit", head+ac+"mergetag object "+hex40+"\n type commit\n tag x\n tagger ", "n ", "<e> 1 +0\n \n m\n\nm")},
		{"commit-mergetag-taggers", rep("commit", head+ac+"mergetag object "+hex40+"\n type commit\n tag x\n", " tagger a <e> 1 +0\n", " \n m\n\nm")},
		{"commit-mergetag-name-long", rep("commit", head+ac+"mergetag object "+hex40+"\n type commit\n tag ", "n", "\n tagger a <e> 1 +0\n \n m\n\nm")},
		{"commit-mergetag-type-long", rep("commit", head+ac+"mergetag object "+hex40+"\n type ", "t", "\n tag x\n \n m\n\nm")},
		{"commit-mergetag-and-other", rep("commit", head+ac, "mergetag object "+hex40+"\n type commit\n tag x\n \n m\nx-header y\n", "\nm")},
		{"commit-parent-and-other", rep("commit", head+ac, "parent "+hex40+"\nx y\n", "\nm")},
		{"commit-other-sig", rep("commit", head+ac+"gpgsig -----BEGIN SSH SIGNATURE-----\n", " QUFBQUFBQUFBQUFBQUFBQUFB\n", " -----END SSH SIGNATURE-----\n\nm")},
		{"commit-sig-version-long", rep("commit", head+ac+"gpgsig -----BEGIN PGP SIGNATURE-----\n Version: ", "v", "\n \n A\n -----END PGP SIGNATURE-----\n\nm")},
		{"commit-timezone-long", rep("commit", head+"author a <e> 1 ", "+", "\n\nm")},
		{"commit-name-brackets", rep("commit", head+"author a", "<", " <e> 1 +0\n\nm")},
		{"commit-email-brackets", rep("commit", head+"author a <", "x> ", "x> 1 +0\n\nm")},
		{"tag-email-long", rep("tag", th+"tagger a <", "e", "> 1 +0\n\nm")},
		{"tag-message", rep("tag", th+"tagger a <e> 1 +0\n\n", "message line\n", "")},
		{"tag-message-newlines", rep("tag", th+"\n", "\n", "")},
		{"tag-name-long", rep("tag", "object "+hex40+"\ntype commit\ntag ", "n", "\n\nm")},
		{"tag-tagger-spaces", rep("tag", th+"tagger ", "n ", "<e> 1 +0\n\nm")},
		{"tag-type-long", rep("tag", "object "+hex40+"\ntype ", "t", "\ntag x\n\nm")},
		{"tag-repeated", rep("tag", th, "tag x\n", "\nm")},
		{"size-digits", func(n int) []byte { return []byte("blob " + strings.Repeat("1", n) + "\x00") }},
		{"kind-long", func(n int) []byte { return []byte(strings.Repeat("k", n) + " 0\x00") }},
		{"no-nul", func(n int) []byte { return []byte("commit " + strings.Repeat("1", n)) }},
	}
}

func c09(c *Ctx) {
	c.Rule = "One layout of content at sizes from 64 kB upwards (x4 steps); the bytes allocated (exact, from the runtime) and the thread CPU time per input byte are watched. Allocation may not exceed 400 bytes per byte plus 1 MB nor grow more than 2.5 times faster than the input over a factor of 16; CPU time per byte may not grow by more than a factor of 25 and 0.25 s, confirmed three times. Objects whose header claims up to 2^63-1 bytes but which deliver a few may allocate at most 1 MB. A case is one layout and operation at all its sizes; distinct by both; all are non-trivial."
	c.Assume("CPU time is used only as a ratio with a large margin and confirmed by repetition")
	shapes := costShapes()
	top := c.N(4<<20, 16<<20)
	type op struct {
		name string
		mk   func(t *T, raw []byte) func()
	}
	ops := []op{
		{"ParseObject", func(t *T, raw []byte) func() { return func() { ipldgit.ParseObject(bytes.NewReader(raw)) } }},
		{"Decode-generic", func(t *T, raw []byte) func() {
			return func() { decodeInto(basicnode.Prototype.Any, bytes.NewReader(raw)) }
		}},
		{"Parse-bytewise", func(t *T, raw []byte) func() {
			return func() {
				ipldgit.ParseObject(&chunkReader{b: raw, next: func() int { return 1 }})
			}
		}},
		{"ParseCompressedObject", func(t *T, raw []byte) func() {
			z := deflate(raw, 1)
			return func() { ipldgit.ParseCompressedObject(bytes.NewReader(z)) }
		}},
		{"Encode", func(t *T, raw []byte) func() {
			n, err := parse(raw)
			if err != nil {
				return nil
			}
			return func() { ipldgit.Encode(n, io.Discard) }
		}},
		{"Encode-repr", func(t *T, raw []byte) func() {
			n, err := parse(raw)
			if err != nil {
				return nil
			}
			n = reprOf(n)
			return func() { ipldgit.Encode(n, io.Discard) }
		}},
		{"Encode-generic", func(t *T, raw []byte) func() {
			if kindOf(raw) == "tree" {
				return nil // trees are recognised by their type only
			}
			n, err := decodeInto(basicnode.Prototype.Any, bytes.NewReader(raw))
			if err != nil {
				return nil
			}
			return func() { ipldgit.Encode(n, io.Discard) }
		}},
		{"inspect", func(t *T, raw []byte) func() {
			n, err := parse(raw)
			if err != nil {
				return nil
			}
			return func() { walkOnce(n) }
		}},
	}
	failed := map[string]bool{}
	c.RunSeq("growth", len(shapes)*len(ops), func(t *T) {
		sh, o := shapes[t.Idx/len(ops)], ops[t.Idx%len(ops)]
		if failed[sh.name] {
			return // reported; the other operations on it could take very long
		}
		failed[sh.name] = true
		defer debug.SetGCPercent(debug.SetGCPercent(100))
		top := top
		if o.name == "Parse-bytewise" {
			top /= 4
		}
		var base float64
		var baseAlloc uint64
		first := 64 << 10
		for n := first; n <= top; n *= 4 {
			raw := sh.mk(n)
			f := o.mk(t, raw)
			if f == nil {
				failed[sh.name] = false
				return
			}
			t.Distinct([]byte(sh.name), []byte(o.name))
			t.Count("bytes:" + strconv.Itoa(n))
			debug.FreeOSMemory()
			a := allocs(f)
			t.Count("event:allocation-measured")
			if lim := uint64(len(raw))*400 + 1<<20; a > lim {
				t.Failf("%s of %s: %d bytes allocated for an object of %d bytes", o.name, sh.name, a, len(raw))
			}
			if n == first {
				baseAlloc = a
			}
			if grow := float64(n) / float64(first); float64(a) > 2.5*grow*float64(max(baseAlloc, 64<<10)) {
				t.Failf("%s of %s: %d bytes allocated at %d bytes of input but %d at %d", o.name, sh.name, baseAlloc, first, a, n)
			}
			debug.SetGCPercent(-1)
			per := cpuMin(c.N(2, 4), f).Seconds() / float64(len(raw))
			t.Count("event:cpu-measured")
			slow := func(per float64) bool {
				return per > 25*base && per*float64(len(raw)) > 0.25
			}
			if n == first {
				base = max(per, 2e-9)
			} else if slow(per) {
				again := true
				reps := 3
				if per*float64(len(raw)) > 10 {
					reps = 1 // beyond doubt, and repeating it takes long
				}
				for k := 0; k < reps && again; k++ {
					debug.FreeOSMemory()
					f0 := o.mk(t, sh.mk(first))
					base = max(base, cpuMin(5, f0).Seconds()/float64(first))
					again = slow(cpuMin(1, f).Seconds() / float64(len(raw)))
				}
				if again {
					t.Failf("%s of %s: %.1f ns of CPU per byte at %d bytes, %.1f at %d", o.name, sh.name, base*1e9, first, per*1e9, len(raw))
				}
			}
			debug.SetGCPercent(100)
			if n == top {
				t.Sample(6, map[string]any{"shape": sh.name, "op": o.name, "bytes": len(raw), "allocated": a, "cpu_ns_per_byte": per * 1e9})
			}
		}
		failed[sh.name] = false
	})
	eps := entryPoints()
	var cases [][]byte
	for _, k := range []string{"blob", "tree", "commit", "tag"} {
		for _, sz := range []string{"1048576", "16777216", "268435456", "2147483647", "2147483648", "4294967296", "1099511627776", "4611686018427387904", "9223372036854775807"} {
			for _, b := range []string{"", "x", "tree " + hex40 + "\n", "object " + hex40 + "\n\nm", "100644 a\x00aaaaaaaaaaaaaaaaaaaa", strings.Repeat("y", 5000)} {
				cases = append(cases, []byte(k+" "+sz+"\x00"+b))
			}
		}
	}
	c.RunSeq("claimed-size", len(cases), func(t *T) {
		raw := cases[t.Idx]
		t.Input(raw)
		t.Distinct(raw)
		for i, ep := range eps {
			if (i+t.Idx)%4 != 0 && i > 3 {
				continue
			}
			var err error
			a := allocs(func() { _, err = ep.F(raw, plainSrc) })
			lim := uint64(1 << 20)
			if strings.HasPrefix(ep.Name, "ParseCompressed") {
				lim = 4 << 20 // includes the harness's own compressor
			}
			if a > lim {
				t.Failf("%s: %d bytes allocated for %d bytes that claim to be %s", ep.Name, a, len(raw), clip(raw, 40))
			}
			if err == nil {
				t.Failf("%s accepted %s", ep.Name, clip(raw, 40))
			}
			t.Count("event:claimed-size-measured")
		}
	})
}

var errStop = errors.New("stop")

func walkOnce(n Node) {
	switch n.Kind() {
	case datamodel.Kind_Map:
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				return
			}
			s, _ := k.AsString()
			n.LookupByString(s)
			walkOnce(v)
		}
	case datamodel.Kind_List:
		for it := n.ListIterator(); !it.Done(); {
			i, v, err := it.Next()
			if err != nil {
				return
			}
			n.LookupByIndex(i)
			walkOnce(v)
		}
	}
}
