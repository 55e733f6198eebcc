package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
)

func init() {
	register("C01", "exploration", c01)
	register("C02", "exploration", c02)
	register("C03", "exploration", c03)
	register("C04", "exploration", c04)
	register("C05", "exploration", c05)
	register("C06", "exploration", c06)
}

// roundTrip is the monitor of C01 for one object.
func roundTrip(t *T, raw []byte) Node {
	n := mustParse(t, raw)
	out := mustEncode(t, n)
	wantBytes(t, "re-encoding", out, raw)
	ls := cidlink.DefaultLinkSystem()
	lnk, err := ls.ComputeLink(gitLinkProto, n)
	if err != nil {
		t.Failf("computing the link: %v", err)
	}
	if want := cidOf(raw); lnk.(cidlink.Link).Cid != want {
		t.Failf("link %s, want %s (git id %x)", lnk, want, sha1.Sum(raw))
	}
	n2 := mustParse(t, out)
	wantView(t, "second decode", View(n2), View(n))
	wantBytes(t, "second encode", mustEncode(t, n2), raw)
	t.Count("event:round-trip")
	return n
}

func c01(c *Ctx) {
	c.Rule = "Objects drawn from a reference model of blobs, trees, commits and tags (hostile lengths, bytes and layouts), plus every object of the repository's test archive and of git repositories made by git itself in a scratch directory; each is decoded, encoded, linked, decoded and encoded again. Distinct by object bytes; non-trivial: the object has a non-empty body."
	c.runFindings(map[string]func(*T, []byte) string{"roundtrip": probeRoundTrip})
	c.Run("generated", c.N(100000, 4000000), func(t *T) {
		o := G(t).object()
		raw := Raw(o)
		t.Input(raw)
		roundTrip(t, raw)
		features(t, o, raw)
		if len(o.Body()) > 0 {
			t.Distinct(raw)
		}
		t.Sample(2, clip(raw, 300))
	})
	c.Run("enormous", c.N(6, 24), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		const big = 17<<20 + 3
		co := g.commit()
		var o Object = co
		switch t.Idx % 6 {
		case 0:
			b := make([]byte, big)
			for i := range b {
				b[i] = byte(i * i >> 7)
			}
			o = &Blob{b}
		case 1:
			tr := &Tree{}
			for k := 0; k < big/38; k++ {
				tr.Entries = append(tr.Entries, Entry{modes[k%5], fmt.Sprintf("f%09d", k), g.sha()})
			}
			o = tr
		case 2:
			co.Message = strings.Repeat("line of a long message\n", big/23+1)
		case 3:
			co.Other = append(co.Other, "x-header "+strings.Repeat("v", big))
		case 4:
			m := g.mergeTag()
			m.Message = strings.Repeat(" a line of the tag\n", big/18+1)
			co.MergeTags = append(co.MergeTags, m)
		case 5:
			tg := g.tag()
			tg.Message, tg.NoBody = strings.Repeat("tag message\n", big/12+1), false
			o = tg
		}
		raw := Raw(o)
		roundTrip(t, raw)
		t.Distinct(raw)
		t.Count("event:enormous-object")
	})
	c.Run("large", c.N(42, 400), func(t *T) {
		o := largeObject(t, t.Idx)
		raw := Raw(o)
		t.Input(raw)
		roundTrip(t, raw)
		t.Distinct(raw)
		t.Count("event:large-object")
	})
	corpus := archiveObjects()
	if len(corpus) == 0 {
		c.Assume("the repository's test archive could not be read; it was left out")
	}
	for id, raw := range gitMade(c, c.N(1, 6)) {
		corpus[id] = raw
	}
	ids := sortedKeys(corpus)
	c.Run("git-made", len(ids), func(t *T) {
		raw := corpus[ids[t.Idx]]
		t.Input(raw)
		if got := fmt.Sprintf("%x", sha1.Sum(raw)); got != ids[t.Idx] {
			harnessError("corpus object %s has id %s", ids[t.Idx], got)
		}
		roundTrip(t, raw)
		t.Count("event:git-made-object")
		t.Count("git-made:" + kindOf(raw))
		t.Distinct(raw)
	})
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// largeObject has one extreme dimension.
func largeObject(t *T, i int) Object {
	g := Gen{Rand: t.Rand, Small: true}
	c := g.commit()
	big := 1 << (14 + t.IntN(6))
	count := big / 16
	if i < largeShapes {
		big, count = 1<<19, 70000 // each shape once at full size: counts of more than 16 bits
	}
	switch i % largeShapes {
	case 0:
		return &Blob{bytes.Repeat([]byte{byte(i), 0, '\n'}, big)}
	case 1:
		tr := &Tree{}
		for k := 0; k < count; k++ {
			tr.Entries = append(tr.Entries, Entry{modes[k%5], fmt.Sprintf("f%08d", k), g.sha()})
		}
		return tr
	case 2:
		c.Message = strings.Repeat("line of a long message\n", big/10)
	case 3:
		c.Author = c.Author.Or()
		c.Author.Name = strings.TrimSpace(strings.Repeat("n ", big))
	case 4:
		c.Committer = c.Committer.Or()
		c.Committer.Email = strings.Repeat("e  ", big)
	case 5:
		for k := 0; k < count; k++ {
			c.Parents = append(c.Parents, g.sha())
		}
	case 6:
		for k := 0; k < big/64; k++ {
			c.MergeTags = append(c.MergeTags, g.mergeTag())
		}
	case 7:
		s := " \n" + strings.Repeat(" QUFBQUFBQUFBQUFBQUFBQUFBQUFBQUFB\n", big/16)
		c.Sig = &s
	case 8:
		for k := 0; k < count; k++ {
			c.Other = append(c.Other, "x-header "+strconv.Itoa(k))
		}
	case 9:
		m := g.mergeTag()
		m.Message = strings.Repeat(" a line of the tag\n", big/8)
		c.MergeTags = append(c.MergeTags, m)
	case 10:
		tg := g.tag()
		tg.Message, tg.NoBody = strings.Repeat("tag message\n", big/8), false
		return tg
	case 11:
		c.Other = append(c.Other, "x-header "+strings.Repeat("v", big))
		e := strings.Repeat("E", big)
		c.Encoding = &e
	case 12:
		tg := g.tag()
		tg.Name, tg.Type = strings.Repeat("v", big), strings.Repeat("t", 1+t.IntN(big))
		tg.Tagger = tg.Tagger.Or()
		tg.Tagger.Name, tg.Tagger.Date = strings.TrimSpace(strings.Repeat("n  ", big)), strings.Repeat("7", 1+t.IntN(big))
		return tg
	case 13:
		tr := &Tree{}
		for k := 0; k < 4; k++ {
			tr.Entries = append(tr.Entries, Entry{modes[k%5], strings.Repeat("f", big) + strconv.Itoa(k), g.sha()})
		}
		return tr
	}
	return c
}

const largeShapes = 14

// Or returns the person, or a fresh one not connected to anything.
func (p *Person) Or() *Person {
	if p == nil {
		return &Person{}
	}
	return p
}

func c02(c *Ctx) {
	c.Rule = "Commits drawn from the reference model, with the extra headers in git's order and in any other order; the decoded node is walked completely and compared with the view written from the model. Distinct by object bytes; non-trivial: the commit has a parent, extra header, signature, embedded tag or non-empty message."
	c.runFindings(map[string]func(*T, []byte) string{"decode": func(t *T, in []byte) string {
		if _, err := parse(in); err != nil {
			return "decode-error"
		}
		return "ok"
	}})
	one := func(t *T, o *Commit) {
		raw := Raw(o)
		t.Input(raw)
		n := mustParse(t, raw)
		wantView(t, "commit", View(n), o.View())
		wantView(t, "commit representation", View(reprOf(n)), o.View())
		if n.Prototype() != ipldgit.Type.Commit {
			t.Failf("decoded to %T", n.Prototype())
		}
		features(t, o, raw)
		t.Count("event:commit-compared")
		if len(o.Parents)+len(o.Other)+len(o.MergeTags)+len(o.Message) > 0 || o.Sig != nil {
			t.Distinct(raw)
		}
		t.Sample(2, clip(raw, 400))
	}
	c.Run("canonical", c.N(40000, 1500000), func(t *T) { one(t, G(t).commit()) })
	c.Run("any-order", c.N(30000, 1000000), func(t *T) {
		g := G(t)
		o := g.commit()
		if len(o.MergeTags) == 0 && g.p(60) {
			o.MergeTags = append(o.MergeTags, g.mergeTag(), g.mergeTag())
		}
		g.shuffled(o)
		if o.Layout != nil {
			t.Count("event:layout:" + squeeze(string(o.Layout)))
		}
		one(t, o)
	})
	c.Run("large", c.N(14, 240), func(t *T) {
		if o, ok := largeObject(t, t.Idx).(*Commit); ok {
			one(t, o)
		}
	})
	// the end of the object in place of the last header's newline
	c.Run("unterminated", c.N(6000, 200000), func(t *T) {
		g := G(t)
		o := g.commit()
		o.Message = ""
		if o.Sig == nil && len(o.Other) == 0 {
			o.MergeTags = nil
		}
		if g.p(15) {
			o.Other = append(o.Other, pick(g.Rand, []string{"x", "x y", " ", " x"}))
		}
		b := o.Body()
		raw := withSize("commit", string(b[:len(b)-2]))
		t.Input(raw)
		wantView(t, "commit without a final newline", View(mustParse(t, raw)), o.View())
		t.Count("event:unterminated-compared")
		t.Distinct(raw)
	})
}

func squeeze(s string) string {
	var sb strings.Builder
	for i := range s {
		if i == 0 || s[i] != s[i-1] {
			sb.WriteByte(s[i])
		}
	}
	if sb.Len() > 5 {
		return sb.String()[:5] + "~"
	}
	return sb.String()
}

func c03(c *Ctx) {
	c.Rule = "Annotated tags drawn from the reference model, standalone and embedded as mergetags in commits between other headers, with and without a tagger and body; decoded and compared field by field with the model, and encoded again. Distinct by object bytes; non-trivial: has a message or no tagger."
	c.runFindings(map[string]func(*T, []byte) string{"roundtrip": probeRoundTrip})
	c.Run("standalone", c.N(40000, 1500000), func(t *T) {
		g := G(t)
		o := g.tag()
		if g.p(15) {
			o.Tagger = nil
		}
		raw := Raw(o)
		t.Input(raw)
		n := mustParse(t, raw)
		wantView(t, "tag", View(n), o.View())
		wantView(t, "tag representation", View(reprOf(n)), o.View())
		wantBytes(t, "re-encoding", mustEncode(t, n), raw)
		features(t, o, raw)
		if o.Message != "" || o.Tagger == nil {
			t.Distinct(raw)
		}
		t.Sample(3, clip(raw, 300))
	})
	c.Run("large", c.N(largeShapes, 240), func(t *T) {
		o := largeObject(t, t.Idx)
		if c, ok := o.(*Commit); !ok && o.Kind() != "tag" || ok && len(c.MergeTags) == 0 {
			return
		}
		raw := Raw(o)
		t.Input(raw)
		n := mustParse(t, raw)
		wantView(t, "large tags", View(n), o.View())
		wantBytes(t, "re-encoding", mustEncode(t, n), raw)
		t.Count("event:large")
		t.Distinct(raw)
	})
	// the end of the object in place of the last header's newline
	c.Run("unterminated", c.N(4000, 100000), func(t *T) {
		g := G(t)
		o := g.tag()
		if g.p(30) {
			o.Tagger = nil
		}
		o.Message, o.NoBody = "", true
		b := o.Body()
		raw := withSize("tag", string(b[:len(b)-1]))
		t.Input(raw)
		wantView(t, "tag without a final newline", View(mustParse(t, raw)), o.View())
		t.Count("event:unterminated-compared")
		t.Distinct(raw)
	})
	c.Run("embedded", c.N(30000, 1000000), func(t *T) {
		g := G(t)
		o := g.commit()
		for i := g.IntN(4); i >= 0; i-- {
			m := g.mergeTag()
			if g.p(20) {
				m.Tagger = nil
			}
			if g.p(10) {
				m.Message = ""
			}
			o.MergeTags = append(o.MergeTags, m)
		}
		if g.p(50) {
			o.Sig, o.Other = nil, nil
		}
		raw := Raw(o)
		t.Input(raw)
		n := mustParse(t, raw)
		l, err := n.LookupByString("mergetag")
		if err != nil {
			t.Failf("no mergetag list: %v", err)
		}
		if l.Length() != int64(len(o.MergeTags)) {
			t.Failf("%d embedded tags, want %d", l.Length(), len(o.MergeTags))
		}
		for i := range o.MergeTags {
			e, err := l.LookupByIndex(int64(i))
			if err != nil {
				t.Failf("embedded tag %d: %v", i, err)
			}
			wantView(t, fmt.Sprintf("embedded tag %d", i), View(e), o.MergeTags[i].View())
			t.Count("event:embedded-tag-compared")
			if o.MergeTags[i].Tagger == nil {
				t.Count("feat:embedded-taggerless")
			}
		}
		wantBytes(t, "re-encoding", mustEncode(t, n), raw)
		t.Distinct(raw)
	})
}

func c04(c *Ctx) {
	c.Rule = "Trees from the reference model (git's order and any order, unusual mode texts and names, up to 60000 entries), trees with one name repeated at any two positions, and random mutations of tree bytes; entries, order and lookups are compared with the model, repeated names must be refused, and whatever is accepted must encode to the same bytes. Distinct by object bytes; non-trivial: at least one entry."
	c.Run("entries", c.N(25000, 800000), func(t *T) {
		g := G(t)
		o := g.tree()
		if g.p(50) {
			o = g.oddTree()
		}
		checkTree(t, o)
	})
	// entry by entry, through the exported function for that
	c.Run("entry-by-entry", c.N(12000, 400000), func(t *T) {
		g := G(t)
		o := g.tree()
		if g.p(50) {
			o = g.oddTree()
		}
		if len(o.Entries) > 60 {
			o.Entries = o.Entries[:60]
		}
		body := o.Body()
		t.Input(body)
		whole := len(body)
		end := error(io.EOF)
		rest := []byte(nil)
		switch {
		case t.IntN(3) == 0 && whole > 0: // cut
			body = body[:t.IntN(whole)]
			end = nil
		case t.IntN(3) == 0: // something else follows that is no entry
			rest = []byte(strings.Repeat("x", t.IntN(50)))
			if len(rest) > 0 {
				end = nil
			}
		}
		src := append(append([]byte{}, body...), rest...)
		var fail error
		var in io.Reader = &chunkReader{b: src, next: func() int { return 1 + t.IntN(64) }}
		if t.IntN(4) == 0 {
			fail = errors.New("injected")
			in = &faultReader{b: src, at: len(src), err: fail, mode: 4 * t.IntN(2)}
		}
		rd := bufio.NewReaderSize(in, []int{16, 17, 24, 37, 64, 4096}[t.IntN(6)])
		pos := 0
		for i, e := range o.Entries {
			size := len(e.Mode) + len(e.Name) + 22
			name, n, err := ipldgit.DecodeTreeEntry(rd)
			if pos+size > len(body) { // the cut entry, or the end
				if err == nil {
					t.Failf("entry %d of %d cut at byte %d of %d is accepted", i, len(o.Entries), len(body)-pos, size)
				}
				switch {
				case fail != nil:
					if !errors.Is(err, fail) {
						t.Failf("the reader fails in entry %d: error %v", i, err)
					}
				case errors.Is(err, io.EOF) != (pos == len(body)):
					t.Failf("entry %d cut at byte %d of %d: error %v", i, len(body)-pos, size, err)
				}
				t.Count("event:entry-cut")
				t.Distinct(src)
				return
			}
			if err != nil {
				t.Failf("entry %d: %v", i, err)
			}
			if name != e.Name {
				t.Failf("entry %d: name %q, want %q", i, name, e.Name)
			}
			w := viewer{}
			w.sb.WriteByte('{')
			w.str("mode")
			w.str(e.Mode)
			w.str("hash")
			w.link(gitLink(e.Hash))
			w.sb.WriteByte('}')
			wantView(t, "entry", View(n), w.sb.String())
			pos += size
			t.Count("event:entry-decoded")
		}
		_, n, err := ipldgit.DecodeTreeEntry(rd)
		switch {
		case err == nil:
			t.Failf("an entry after the end: %s", View(n))
		case fail != nil:
			if !errors.Is(err, fail) {
				t.Failf("the reader fails after %d entries: error %v", len(o.Entries), err)
			}
		case errors.Is(err, io.EOF) != (end == io.EOF):
			t.Failf("after %d entries and %d other bytes: error %v", len(o.Entries), len(rest), err)
		}
		if whole > 0 {
			t.Distinct(src)
		}
	})
	c.Run("big", c.N(6, 60), func(t *T) {
		g := G(t)
		o := &Tree{}
		for k, n := 0, 2000+g.IntN(58000)+70000*(t.Idx%2); k < n; k++ {
			o.Entries = append(o.Entries, Entry{pick(g.Rand, modes), fmt.Sprintf("%x-%d", uint32(k)*2654435761, k), g.sha()})
		}
		checkTree(t, o)
	})
	c.Run("repeated-name", c.N(20000, 600000), func(t *T) {
		g := G(t)
		o := g.oddTree()
		if len(o.Entries) == 0 {
			o.Entries = []Entry{{"100644", "a", g.sha()}}
		}
		i := g.IntN(len(o.Entries))
		d := o.Entries[i]
		if g.p(60) {
			d.Mode = pick(g.Rand, modes)
		}
		if g.p(60) {
			d.Hash = g.sha()
		}
		j := g.IntN(len(o.Entries) + 1)
		o.Entries = append(o.Entries[:j], append([]Entry{d}, o.Entries[j:]...)...)
		raw := Raw(o)
		t.Input(raw)
		for _, ep := range []func([]byte) (Node, error){parse,
			func(b []byte) (Node, error) { return decodeInto(ipldgit.Type.Tree__Repr, bytes.NewReader(b)) }} {
			if n, err := ep(raw); err == nil {
				t.Failf("tree of %d entries with name %q repeated was accepted as %d entries", len(o.Entries), d.Name, n.Length())
			}
		}
		t.Count("event:repeated-name-refused")
		t.Distinct(raw)
		t.Sample(2, clip(raw, 200))
	})
	c.Run("mutated", c.N(80000, 3000000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(3) > 0}
		body := append([]byte{}, g.oddTree().Body()...)
		for k := g.IntN(3); k >= 0 && len(body) > 0; k-- {
			i := g.IntN(len(body))
			switch g.IntN(4) {
			case 0:
				body[i] = byte(g.Uint32())
			case 1:
				body[i] = " \x00\n1"[g.IntN(4)]
			case 2:
				body = append(body[:i], body[i+1:]...)
			case 3:
				body = append(body[:i], append([]byte{" \x00a"[g.IntN(3)]}, body[i:]...)...)
			}
		}
		raw := append([]byte("tree "+strconv.Itoa(len(body))+"\x00"), body...)
		t.Input(raw)
		n, err := parseVia(t, raw)
		if err != nil {
			t.Count("event:mutant-refused")
			return
		}
		t.Count("event:mutant-accepted")
		wantBytes(t, "accepted tree", mustEncode(t, n), raw)
		if len(body) > 0 {
			t.Distinct(raw)
		}
	})
}

func checkTree(t *T, o *Tree) {
	raw := Raw(o)
	t.Input(raw)
	n := mustParse(t, raw)
	wantView(t, "tree", View(n), o.View())
	wantView(t, "tree representation", View(reprOf(n)), o.View())
	if n.Length() != int64(len(o.Entries)) {
		t.Failf("length %d, want %d", n.Length(), len(o.Entries))
	}
	has := map[string]bool{}
	for _, e := range o.Entries {
		has[e.Name] = true
	}
	step := 1 + len(o.Entries)/200
	// the ways to ask for a name
	var keys []Node
	for it := n.MapIterator(); !it.Done(); {
		k, _, err := it.Next()
		must(t, err)
		keys = append(keys, k)
	}
	ask := map[string]func(Node, string, int) (Node, error){
		"LookupByString": func(n Node, s string, _ int) (Node, error) { return n.LookupByString(s) },
		"LookupBySegment": func(n Node, s string, _ int) (Node, error) {
			return n.LookupBySegment(datamodel.PathSegmentOfString(s))
		},
		"LookupBySegment/int": func(n Node, s string, _ int) (Node, error) {
			if k, err := strconv.ParseInt(s, 10, 64); err == nil && k >= 0 && strconv.FormatInt(k, 10) == s {
				return n.LookupBySegment(datamodel.PathSegmentOfInt(k))
			}
			return n.LookupByString(s)
		},
		"LookupByNode": func(n Node, s string, i int) (Node, error) {
			if i < 0 {
				return n.LookupByString(s)
			}
			return n.LookupByNode(keys[i])
		},
	}
	ways := sortedKeys(ask)
	for i := 0; i < len(o.Entries); i += step {
		e := o.Entries[i]
		v := viewer{}
		e.view(&v)
		want := v.sb.String()
		for _, nn := range []Node{n, reprOf(n)} {
			for _, way := range ways {
				x, err := ask[way](nn, e.Name, i)
				if err != nil {
					t.Failf("%s of %q: %v", way, e.Name, err)
				}
				wantView(t, fmt.Sprintf("%s of %q", way, e.Name), View(x), want)
				t.Count("event:lookup-hit")
			}
		}
		for _, miss := range []string{e.Name + "\x00", e.Name + " ", "x" + e.Name, strings.ToUpper(e.Name), strings.TrimSpace(e.Name), e.Mode + " " + e.Name, "", strconv.Itoa(i), "0", "-1"} {
			if has[miss] {
				continue
			}
			for _, way := range ways {
				if x, err := ask[way](n, miss, -1); err == nil {
					t.Failf("%s of %q, which is not in the tree, gave %s", way, miss, View(x))
				}
				if x, err := ask[way](reprOf(n), miss, -1); err == nil {
					t.Failf("%s of %q in the representation, which is not in the tree, gave %s", way, miss, View(x))
				}
				t.Count("event:lookup-miss")
			}
		}
	}
	wantBytes(t, "re-encoding", mustEncode(t, n), raw)
	features(t, o, raw)
	if len(o.Entries) > 0 {
		t.Distinct(raw)
	}
	t.Sample(2, clip(raw, 200))
}

func c05(c *Ctx) {
	c.Rule = "Blobs of all sizes around buffer boundaries, and blobs whose size field is altered (other number, sign, padding, other notation, overflow) or whose content is cut or extended; oracle: accepted exactly if the size text is the canonical decimal of the content length, and then the node's bytes and its encoding are the input. Distinct by input bytes; non-trivial: non-empty content or an altered header."
	c.Run("exact", c.N(20000, 600000), func(t *T) {
		o := G(t).blob()
		raw := Raw(o)
		t.Input(raw)
		n := mustParse(t, raw)
		b, err := n.AsBytes()
		if err != nil {
			t.Failf("AsBytes: %v", err)
		}
		wantBytes(t, "blob node", b, raw)
		wantBytes(t, "re-encoding", mustEncode(t, n), raw)
		features(t, o, raw)
		if len(o.Data) > 0 {
			t.Distinct(raw)
		}
	})
	c.Run("huge", 1, func(t *T) { // more than 31 bits of size
		if strconv.IntSize < 64 { // a part of C25
			return
		}
		n := 1<<30 + 12345
		n += 1 << 30
		tab := make([]byte, 65521)
		for i := range tab {
			tab[i] = byte(i * i >> 5)
		}
		head := fmt.Sprintf("blob %d\x00", n)
		want := func() *hugeReader { return &hugeReader{head: head, n: n, tab: tab} }
		nd, err := ipldgit.ParseObject(want())
		if err != nil {
			t.Failf("blob of %d bytes: %v", n, err)
		}
		pos, ref, buf := 0, want(), make([]byte, 1<<16)
		w := writerFunc(func(p []byte) (int, error) {
			for q := p; len(q) > 0; {
				k, err := io.ReadFull(ref, buf[:min(len(q), len(buf))])
				if err != nil || !bytes.Equal(buf[:k], q[:k]) {
					t.Failf("blob of %d bytes: its encoding is wrong near byte %d", n, pos+len(p)-len(q))
				}
				q = q[k:]
			}
			pos += len(p)
			return len(p), nil
		})
		if err := ipldgit.Encode(nd, w); err != nil {
			t.Failf("encode of a blob of %d bytes: %v", n, err)
		}
		if pos != len(head)+n {
			t.Failf("blob of %d bytes: encoded to %d, want %d", n, pos, len(head)+n)
		}
		t.Count("event:huge-blob")
	})
	c.Run("every-size", c.N(9000, 70000), func(t *T) {
		b := make([]byte, t.Idx)
		for i := range b {
			b[i] = byte(i * 7)
		}
		raw := Raw(&Blob{b})
		t.Input(raw)
		n := mustParse(t, raw)
		got, _ := n.AsBytes()
		wantBytes(t, "blob node", got, raw)
		t.Count("event:size-enumerated")
	})
	c.Run("altered", c.N(120000, 3000000), func(t *T) {
		g := G(t)
		var data []byte
		if g.p(70) {
			data = []byte(g.line(g.IntN(120)))
		} else {
			data = g.blob().Data
		}
		k := len(data)
		d := strconv.Itoa(k)
		var s string
		switch g.IntN(22) {
		case 0:
			s = "+" + d
		case 1:
			s = "-" + d
		case 2:
			s = "0" + d
		case 3:
			s = " " + d
		case 4:
			s = d + " "
		case 5:
			s = "0x" + strconv.FormatInt(int64(k), 16)
		case 6:
			s = ""
		case 7:
			s = d + "_0"
		case 8:
			s = strconv.Itoa(k + 1 + g.IntN(3))
		case 9:
			s = strconv.Itoa(k - 1 - g.IntN(3))
		case 10:
			s = "-0"
		case 11:
			s = d + ".0"
		case 12:
			s = d + "e0"
		case 13:
			s = "18446744073709551616"
		case 14:
			s = "9223372036854775807"
		case 15:
			s = strconv.FormatUint(uint64(k), 10) + "\n"
		case 16: // congruent modulo a power of two
			s = strconv.FormatUint(uint64(k)+pick(g.Rand, []uint64{1 << 32, 1 << 16, 1 << 8, 1 << 63}), 10)
		case 17:
			s = strings.Repeat("0", 1+g.IntN(30)) + d
		case 18:
			s = d
			switch g.IntN(4) {
			case 0:
				data = append(data, make([]byte, 1+g.IntN(5000))...)
			case 1:
				data = append(data, byte(g.Uint32()))
			case 2:
				data = append(data, pick(g.Rand, []string{"\n", "\r\n", " ", "\n\n", "\x1a", "\x00\x00", "blob 0\x00"})...)
			default:
				data = append(data, g.line(1+g.IntN(60))...)
			}
		case 19:
			s = d
			if k > 0 {
				data = data[:g.IntN(k)]
			}
		case 20:
			s = strings.Map(func(r rune) rune { return r - '0' + '０' }, d)
		default:
			b := []byte(d + g.word())
			b[g.IntN(len(b))] = byte(g.Uint32())
			s = string(bytes.ReplaceAll(b, []byte{0}, []byte{'1'}))
		}
		raw := append([]byte("blob "+s+"\x00"), data...)
		t.Input(raw)
		want := s == strconv.Itoa(len(data))
		n, err := parseVia(t, raw)
		if want != (err == nil) {
			t.Failf("blob with size %q and %d content bytes: accepted=%v (%v)", s, len(data), err == nil, err)
		}
		if err == nil {
			b, _ := n.AsBytes()
			wantBytes(t, "accepted blob", b, raw)
			wantBytes(t, "accepted blob re-encoded", mustEncode(t, n), raw)
			t.Count("event:accepted")
		} else {
			t.Count("event:refused")
		}
		t.Distinct(raw)
		t.Sample(4, clip(raw, 60))
	})
}

func c06(c *Ctx) {
	c.Rule = "Identities (names empty, with repeated, inner and trailing spaces, non-UTF-8 and formatting bytes, up to 20 kB; emails with spaces or empty; timestamp and timezone present or missing) placed as author, committer, tagger and embedded tagger; the four texts read from the node, the rendered text and the re-encoded object are compared with the originals, and an identity built from the texts must render to the line. A case is four identities; distinct by their lines; non-trivial: one has a space or formatting byte in its name or email, no name, or no timestamp."
	c.Run("identities", c.N(60000, 2500000), func(t *T) {
		g := G(t)
		mk := func() *Person {
			p := g.tagger()
			if g.p(10) {
				p.Name = strings.TrimLeft(cutBytes(g.line(g.length()), "<>\n\x00"), " ")
			}
			if *p == (Person{}) {
				p.Email = "x"
			}
			return p
		}
		co := &Commit{Tree: g.sha(), Author: mk(), Committer: mk(), Message: "m"}
		mt := g.mergeTag()
		mt.Tagger = mk()
		co.MergeTags = []Tag{mt}
		tg := &Tag{Object: g.sha(), Type: "commit", Name: "t", Tagger: mk(), Message: "m"}
		raw := Raw(co)
		t.Input(raw)
		n := mustParse(t, raw)
		checkPerson(t, "author", get(t, n, "author"), co.Author)
		checkPerson(t, "committer", get(t, n, "committer"), co.Committer)
		checkPerson(t, "embedded tagger", get(t, getIdx(t, get(t, n, "mergetag"), 0), "tagger"), mt.Tagger)
		wantBytes(t, "commit re-encoding", mustEncode(t, n), raw)
		raw = Raw(tg)
		t.Input(raw)
		n = mustParse(t, raw)
		checkPerson(t, "tagger", get(t, n, "tagger"), tg.Tagger)
		wantBytes(t, "tag re-encoding", mustEncode(t, n), raw)
		var odd []byte
		for _, p := range []*Person{co.Author, co.Committer, mt.Tagger, tg.Tagger} {
			t.Count("event:identity-compared")
			if strings.ContainsAny(p.Name+p.Email, " %") || p.Name == "" || p.Date == "" {
				odd = append(odd, p.Line()...)
			}
			if p.Date == "" {
				t.Count("feat:no-date")
			} else if p.TZ == "" {
				t.Count("feat:no-timezone")
			}
			if p.Name == "" {
				t.Count("feat:no-name")
			}
			if strings.Contains(p.Name, "  ") || strings.Contains(p.Email, "  ") {
				t.Count("feat:repeated-spaces")
			}
		}
		if odd != nil {
			t.Distinct(odd)
		}
		t.Sample(5, co.Author.Line())
		// built, rendered and parsed back
		p := mk()
		b := buildPerson(t, p)
		s, ok := b.(interface{ GitString() string })
		if !ok {
			t.Failf("%T does not render", b)
		}
		if s.GitString() != p.Line() {
			t.Failf("built identity renders as %q, want %q", s.GitString(), p.Line())
		}
		raw = Raw(&Tag{Object: g.sha(), Type: "commit", Name: "t", Tagger: &Person{}, Message: "m"})
		raw = bytes.Replace(raw, []byte("tagger  <>"), []byte("tagger "+s.GitString()), 1)
		body := raw[bytes.IndexByte(raw, 0)+1:]
		raw = append([]byte("tag "+strconv.Itoa(len(body))+"\x00"), body...)
		t.Input(raw)
		checkPerson(t, "rendered identity", get(t, mustParse(t, raw), "tagger"), p)
	})
	// lines that lack a bracket, in place of each identity
	eps := entryPoints()
	c.Run("no-email", c.N(20000, 600000), func(t *T) {
		g := G(t)
		var line string
		switch g.IntN(5) {
		case 0:
			line = ""
		case 1:
			line = cutBytes(g.line(g.length()), "<>\n\x00")
		case 2:
			line = strings.ReplaceAll(g.tagger().Line(), "<", pick(g.Rand, []string{"", "(", " ", "\xc2\xab"}))
		case 3:
			line = strings.ReplaceAll(g.tagger().Line(), ">", pick(g.Rand, []string{"", ")", " ", "<"}))
		case 4:
			line = cutBytes(g.tagger().Line(), "<>")
		}
		co := &Commit{Tree: g.sha(), Author: g.person(), Committer: g.person(), Message: "m"}
		mt := g.mergeTag()
		mt.Tagger = g.person()
		co.MergeTags = []Tag{mt}
		tg := &Tag{Object: g.sha(), Type: "commit", Name: "t", Tagger: g.person(), Message: "m"}
		var o Object = co
		var p *Person
		who := pick(g.Rand, []string{"author", "committer", " tagger", "tagger"})
		switch who {
		case "author":
			p = co.Author
		case "committer":
			p = co.Committer
		case " tagger":
			p = mt.Tagger
		case "tagger":
			o, p = tg, tg.Tagger
		}
		// lines are found by their keyword: identities have random names
		find := "\n" + who + " " + p.Line() + "\n"
		body := strings.Replace(string(o.Body()), find, "\n"+who+" "+line+"\n", 1)
		if body == string(o.Body()) {
			t.Failf("harness: %q not found", find)
		}
		raw := withSize(o.Kind(), body)
		t.Input(raw)
		ep := pick(t.Rand, eps)
		if _, err := ep.F(raw, plainSrc); err == nil {
			t.Failf("%s: %s line %q accepted", ep.Name, who, line)
		}
		t.Count("event:no-email-refused:" + strings.TrimSpace(who))
		t.Distinct([]byte(who), []byte(line))
	})
}

func get(t *T, n Node, key string) Node {
	x, err := n.LookupByString(key)
	if err != nil {
		t.Failf("lookup %q: %v", key, err)
	}
	return x
}
func getIdx(t *T, n Node, i int64) Node {
	x, err := n.LookupByIndex(i)
	if err != nil {
		t.Failf("lookup [%d]: %v", i, err)
	}
	return x
}
func getStr(t *T, n Node, key string) string {
	s, err := get(t, n, key).AsString()
	if err != nil {
		t.Failf("string %q: %v", key, err)
	}
	return s
}

func checkPerson(t *T, what string, n Node, p *Person) {
	got := Person{Name: getStr(t, n, "name"), Email: getStr(t, n, "email"), Date: getStr(t, n, "date"), TZ: getStr(t, n, "timezone")}
	if got != *p {
		t.Failf("%s: line %q gave %+v, want %+v", what, p.Line(), got, *p)
	}
	s, ok := n.(interface{ GitString() string })
	if !ok {
		t.Failf("%s: %T does not render", what, n)
	}
	if s.GitString() != p.Line() {
		t.Failf("%s renders as %q, want %q", what, s.GitString(), p.Line())
	}
}

// buildPerson builds an identity node with its fields in a random order.
func buildPerson(t *T, p *Person) Node {
	nb := ipldgit.Type.PersonInfo.NewBuilder()
	if t.IntN(2) == 0 {
		nb = ipldgit.Type.PersonInfo__Repr.NewBuilder()
	}
	ma, err := nb.BeginMap(4)
	if err != nil {
		t.Failf("%v", err)
	}
	fs := [][2]string{{"date", p.Date}, {"timezone", p.TZ}, {"email", p.Email}, {"name", p.Name}}
	t.Shuffle(4, func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		a, err := ma.AssembleEntry(f[0])
		if err != nil {
			t.Failf("%v", err)
		}
		if err := a.AssignString(f[1]); err != nil {
			t.Failf("%v", err)
		}
	}
	if err := ma.Finish(); err != nil {
		t.Failf("%v", err)
	}
	return nb.Build()
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

// hugeReader makes up the n content bytes of an object as they are read.
type hugeReader struct {
	head   string
	n, pos int
	tab    []byte
}

func (r *hugeReader) Read(p []byte) (int, error) {
	if len(r.head) > 0 {
		k := copy(p, r.head)
		r.head = r.head[k:]
		return k, nil
	}
	if r.pos == r.n {
		return 0, io.EOF
	}
	if len(p) > r.n-r.pos {
		p = p[:r.n-r.pos]
	}
	k := copy(p, r.tab[r.pos%len(r.tab):])
	r.pos += k
	return k, nil
}
