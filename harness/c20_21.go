package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
	"github.com/ipld/go-ipld-prime/traversal/selector"
	"github.com/ipld/go-ipld-prime/traversal/selector/builder"
	selectorparse "github.com/ipld/go-ipld-prime/traversal/selector/parse"
	mh "github.com/multiformats/go-multihash"
)

func init() {
	register("C20", "exploration", c20)
	register("C21", "exploration", c21)
}

// ---------------------------------------------------------------- C20

// repoView is a repository as git itself reports it.
type repoView struct {
	g       *Git
	raw     map[string][]byte
	commits []string
	tags    []string
	refs    []string
	// resolve answers `git rev-parse` questions in bulk
}

func shaOf(id string) (s Sha) {
	b, err := hex.DecodeString(id)
	if err != nil || len(b) != 20 {
		harnessError("bad id %q", id)
	}
	copy(s[:], b)
	return
}

func idOf(t *T, l datamodel.Link) string {
	cl, ok := l.(cidlink.Link)
	if !ok {
		t.Failf("link %v is a %T", l, l)
	}
	d, err := mh.Decode(cl.Cid.Hash())
	if err != nil || d.Code != mh.SHA1 || cl.Cid.Prefix().Codec != cid.GitRaw {
		t.Failf("link %v is not a git link", l)
	}
	return hex.EncodeToString(d.Digest)
}

func viewRepo(g *Git) *repoView {
	r := &repoView{g: g, raw: g.objects(g.allIDs())}
	for id, raw := range r.raw {
		switch kindOf(raw) {
		case "commit":
			r.commits = append(r.commits, id)
		case "tag":
			r.tags = append(r.tags, id)
		}
	}
	sort.Strings(r.commits)
	sort.Strings(r.tags)
	for _, l := range strings.Split(g.must(nil, "for-each-ref", "--format=%(objectname)"), "\n") {
		r.refs = append(r.refs, l)
	}
	return r
}

// resolve asks git what each expression names; "" if nothing.
func (r *repoView) resolve(exprs []string) []string {
	out, err := r.g.cmd([]byte(strings.Join(exprs, "\n")+"\n"), "cat-file", "--batch-check=%(objectname)")
	if err != nil {
		harnessError("%v", err)
	}
	lines := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	if len(lines) != len(exprs) {
		harnessError("git answered %d of %d questions", len(lines), len(exprs))
	}
	for i, l := range lines {
		if len(l) != 40 {
			lines[i] = ""
		}
	}
	return lines
}

// linkSystem reads the repository; loaded collects what was loaded.
func (r *repoView) linkSystem(t *T, loose bool, loaded map[string]bool) ipld.LinkSystem {
	ls := cidlink.DefaultLinkSystem()
	ls.StorageReadOpener = func(_ linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		id := idOf(t, l)
		raw, ok := r.raw[id]
		if !ok {
			return nil, traversal.SkipMe{} // a submodule's commit
		}
		if loaded != nil {
			loaded[id] = true
		}
		t.Count("event:loaded:" + kindOf(raw))
		return bytes.NewReader(raw), nil
	}
	return ls
}

// typedChooser picks the package's types where the link says what it leads to
// and otherwise looks at the object.
func (r *repoView) chooser(t *T, mode int) traversal.LinkTargetNodePrototypeChooser {
	return func(l datamodel.Link, lc linking.LinkContext) (datamodel.NodePrototype, error) {
		switch mode {
		case 0: // what go-ipld-prime users do: the type of the link, else anything
			if tl, ok := lc.LinkNode.(schema.TypedLinkNode); ok {
				t.Count("event:typed-link")
				return tl.LinkTargetNodePrototype(), nil
			}
			return basicnode.Prototype.Any, nil
		case 1:
			if raw, ok := r.raw[idOf(t, l)]; ok {
				return typedProto(kindOf(raw)), nil
			}
			return basicnode.Prototype.Any, nil
		default:
			return basicnode.Prototype.Any, nil
		}
	}
}

func c20(c *Ctx) {
	c.Rule = "Repositories made by git (branches, merges, octopus merges, merged tags, tags of every kind, submodules, symlinks, odd names). Path traversal through a link system (a commit's tree and parents, tree entries, tag objects; chains of parents across commits) must arrive at the very object git names for the same step; a full exploration from each reference must load exactly the objects git lists as reachable. With link target types taken from the links, from the objects, or generic. Oracle: git (ls-tree, cat-file, rev-list). Distinct by starting object and path; all are non-trivial."
	nrepo := c.N(20, 120)
	for k := 0; k < nrepo; k++ {
		name := fmt.Sprintf("repo%d", k)
		if c.Only != "" && !strings.HasPrefix(c.Only, name+"-") {
			continue
		}
		g := gitRepo(c, name, k%6)
		c20repo(c, g, name)
		os.RemoveAll(g.Dir)
	}
}

func c20repo(c *Ctx, g *Git, name string) {
	r := viewRepo(g)
	load := func(t *T, id string, mode int) (Node, *traversal.Progress) {
		ls := r.linkSystem(t, false, nil)
		n, err := ls.Load(ipld.LinkContext{}, gitLink(shaOf(id)), typedProto(kindOf(r.raw[id])))
		if err != nil {
			t.Failf("loading %s: %v", id, err)
		}
		return n, &traversal.Progress{Cfg: &traversal.Config{LinkSystem: ls, LinkTargetNodePrototypeChooser: r.chooser(t, mode)}}
	}
	// walk follows a path and reports the object at its end
	walk := func(t *T, root Node, prog *traversal.Progress, path datamodel.Path, want string) {
		n, err := prog.Get(root, path)
		if err != nil {
			t.Failf("path %q: %v", path, err)
		}
		out, err := encode(n)
		if kindOf(r.raw[want]) == "tree" {
			// a tree loaded generically cannot be told from other maps
			if _, ok := n.(ipldgit.Tree); !ok {
				wantView(t, "path "+path.String(), View(n), View(mustParse(t, r.raw[want])))
				t.Count("event:compared-by-view")
				return
			}
		}
		if err != nil {
			t.Failf("path %q: encoding what it leads to: %v", path, err)
		}
		wantBytes(t, "path "+path.String()+" leads to another object than "+want, out, r.raw[want])
		t.Count("event:path-resolved")
	}
	// follow does the same by a selector of exactly that path, which asks the
	// nodes in another way
	follow := func(t *T, root Node, prog *traversal.Progress, path datamodel.Path) []datamodel.Node {
		ssb := builder.NewSelectorSpecBuilder(basicnode.Prototype.Any)
		spec := ssb.Matcher()
		segs := path.Segments()
		for i := len(segs) - 1; i >= 0; i-- {
			next, s := spec, segs[i].String()
			k, err := strconv.ParseInt(s, 10, 64)
			if err == nil && i > 0 && segs[i-1].String() == "parents" && (i == 1 || segs[i-2].String() != "tree" && segs[i-2].String() != "hash") {
				spec = ssb.ExploreIndex(k, next)
			} else {
				spec = ssb.ExploreFields(func(b builder.ExploreFieldsSpecBuilder) { b.Insert(s, next) })
			}
		}
		sel, err := spec.Selector()
		if err != nil {
			harnessError("%v", err)
		}
		var found []datamodel.Node
		p2 := traversal.Progress{Cfg: prog.Cfg}
		err = p2.WalkMatching(root, sel, func(at traversal.Progress, n datamodel.Node) error {
			if at.Path.String() != path.String() {
				t.Failf("path %q by selector: matched at %q", path, at.Path)
			}
			found = append(found, n)
			return nil
		})
		if err != nil {
			t.Failf("path %q by selector: %v", path, err)
		}
		t.Count("event:path-by-selector")
		return found
	}
	walkBoth := walk
	walk = func(t *T, root Node, prog *traversal.Progress, path datamodel.Path, want string) {
		walkBoth(t, root, prog, path, want)
		found := follow(t, root, prog, path)
		if len(found) != 1 {
			t.Failf("path %q by selector: %d matches", path, len(found))
		}
		wantView(t, "path "+path.String()+" by selector", View(found[0]), View(mustParse(t, r.raw[want])))
	}
	c.Run(name+"-trees", len(r.commits), func(t *T) {
		id := r.commits[t.Idx]
		mode := t.IntN(3)
		root, prog := load(t, id, mode)
		// every path in the commit's tree
		out, err := g.cmd(nil, "ls-tree", "-r", "-t", "-z", "--full-tree", id)
		if err != nil {
			harnessError("%v", err)
		}
		tree := r.resolve([]string{id + "^{tree}"})[0]
		walk(t, root, prog, datamodel.ParsePath("tree"), tree)
		t.Distinct([]byte(id))
		for _, l := range strings.Split(string(out), "\x00") {
			if l == "" {
				continue
			}
			meta, p, _ := strings.Cut(l, "\t")
			f := strings.Fields(meta)
			segs := []datamodel.PathSegment{datamodel.PathSegmentOfString("tree")}
			for i, s := range strings.Split(p, "/") {
				if i > 0 {
					segs = append(segs, datamodel.PathSegmentOfString("hash"))
				}
				segs = append(segs, datamodel.PathSegmentOfString(s))
			}
			entry, err := prog.Get(root, datamodel.NewPath(segs))
			if err != nil {
				t.Failf("commit %s: path %q: %v", id, p, err)
			}
			mn, err := entry.LookupByString("mode")
			must(t, err)
			ms, _ := mn.AsString()
			if fmt.Sprintf("%06s", ms) != f[0] {
				t.Failf("commit %s: %q has mode %s, git says %s", id, p, ms, f[0])
			}
			hn, err := entry.LookupByString("hash")
			must(t, err)
			l, err := hn.AsLink()
			must(t, err)
			if got := idOf(t, l); got != f[2] {
				t.Failf("commit %s: %q is %s, git says %s", id, p, got, f[2])
			}
			if f[1] == "commit" {
				t.Count("event:submodule-entry")
				continue
			}
			walk(t, root, prog, datamodel.NewPath(append(segs, datamodel.PathSegmentOfString("hash"))), f[2])
			t.Count("event:tree-path:" + f[0])
		}
		// names git does not have
		for _, p := range []string{"tree/no such", "tree/ ", "tree/A", "parents/1000", "parents/x", "nothing"} {
			if n, err := prog.Get(root, datamodel.ParsePath(p)); err == nil {
				t.Failf("commit %s: path %q leads to %s", id, p, View(n))
			}
			if found := follow(t, root, prog, datamodel.ParsePath(p)); len(found) != 0 {
				t.Failf("commit %s: path %q by selector leads to %s", id, p, View(found[0]))
			}
			t.Count("event:path-missing")
		}
		t.Sample(2, map[string]any{"commit": id, "entries": strings.Count(string(out), "\x00")})
	})
	c.Run(name+"-parents", len(r.commits)*3, func(t *T) {
		id := r.commits[t.Idx%len(r.commits)]
		root, prog := load(t, id, t.IntN(3))
		// random chains of parents, and the tree at their end
		var exprs, ps []string
		for k := 0; k < 12; k++ {
			e, p := id, ""
			for d := 1 + t.IntN(5); d > 0; d-- {
				i := t.IntN(3)
				if t.IntN(2) == 0 {
					i = 0
				}
				e += "^" + strconv.Itoa(i+1)
				p += "/parents/" + strconv.Itoa(i)
			}
			if t.IntN(3) == 0 {
				e += "^{tree}"
				p += "/tree"
			}
			exprs = append(exprs, e)
			ps = append(ps, p[1:])
		}
		for i, want := range r.resolve(exprs) {
			if want == "" {
				if n, err := prog.Get(root, datamodel.ParsePath(ps[i])); err == nil {
					t.Failf("commit %s: path %q leads to %s, git knows no %s", id, ps[i], View(n), exprs[i])
				}
				t.Count("event:chain-missing")
				continue
			}
			walk(t, root, prog, datamodel.ParsePath(ps[i]), want)
			t.Count("event:chain-resolved")
		}
		t.Distinct([]byte(id), []byte(strings.Join(ps, ",")))
	})
	c.Run(name+"-tags", len(r.tags), func(t *T) {
		id := r.tags[t.Idx]
		root, prog := load(t, id, t.IntN(3))
		// what the tag names, step by step
		p, at := "", id
		for kindOf(r.raw[at]) == "tag" {
			body := string(r.raw[at][bytes.IndexByte(r.raw[at], 0)+1:])
			at = body[len("object "):][:40]
			p += "/object"
			walk(t, root, prog, datamodel.ParsePath(p[1:]), at)
		}
		if want := r.resolve([]string{id + "^{}"})[0]; want != at {
			harnessError("git peels %s to %s", id, want)
		}
		t.Count("event:tag-peeled")
		t.Distinct([]byte(id))
	})
	// everything reachable
	c.Run(name+"-reach", len(r.refs)*3, func(t *T) {
		id := r.refs[t.Idx%len(r.refs)]
		mode := t.Idx / len(r.refs)
		want := map[string]bool{}
		for _, l := range strings.Split(g.must(nil, "rev-list", "--objects", "--no-object-names", id), "\n") {
			want[l] = true
		}
		loaded := map[string]bool{id: true}
		root, _ := load(t, id, mode)
		ls := r.linkSystem(t, false, loaded)
		prog := traversal.Progress{Cfg: &traversal.Config{LinkSystem: ls, LinkTargetNodePrototypeChooser: r.chooser(t, mode), LinkVisitOnlyOnce: true}}
		sel, err := selector.CompileSelector(selectorparse.CommonSelector_ExploreAllRecursively)
		if err != nil {
			harnessError("%v", err)
		}
		if err := prog.WalkAdv(root, sel, func(traversal.Progress, datamodel.Node, traversal.VisitReason) error { return nil }); err != nil {
			t.Failf("exploring everything from %s: %v", id, err)
		}
		for x := range want {
			if !loaded[x] {
				t.Failf("from %s git reaches %s (%s), the exploration does not", id, x, kindOf(r.raw[x]))
			}
		}
		for x := range loaded {
			if !want[x] {
				t.Failf("from %s the exploration reaches %s (%s), git does not", id, x, kindOf(r.raw[x]))
			}
		}
		t.CountN("event:reachable-objects", int64(len(want)))
		t.Distinct([]byte(id), []byte{byte(mode)})
		t.Sample(1, map[string]any{"ref": id, "reachable": len(want)})
	})
}

// ---------------------------------------------------------------- C21

func c21(c *Ctx) {
	c.Rule = "The registry's encoder and decoder for git-raw against the package's own, and storing and loading well-formed objects through a default link system (the link must be that of the git id, the block the object, the loaded node equal; loading with wrong content must fail). Blocks whose CID is any combination of version, codec, hash function and hash length, with valid and invalid data, through DecodeBlock: only git-raw with a 20-byte SHA-1 may succeed, and then exactly as the data decodes. Distinct by object or CID prefix and data; all are non-trivial."
	stored := func(t *T, o Object) {
		raw := Raw(o)
		t.Input(raw)
		store := map[string][]byte{}
		ls := cidlink.DefaultLinkSystem()
		ls.StorageWriteOpener = func(ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
			w := &bytes.Buffer{}
			return w, func(l ipld.Link) error { store[l.Binary()] = w.Bytes(); return nil }, nil
		}
		ls.StorageReadOpener = func(_ ipld.LinkContext, l datamodel.Link) (io.Reader, error) {
			b, ok := store[l.Binary()]
			if !ok {
				return nil, errors.New("not stored")
			}
			return bytes.NewReader(b), nil
		}
		forms := []Node{}
		n := mustParse(t, raw)
		forms = append(forms, n, reprOf(n))
		if o.Kind() != "tree" {
			x, err := decodeInto(basicnode.Prototype.Any, bytes.NewReader(raw))
			must(t, err)
			forms = append(forms, x)
		}
		want := gitCid(Sha(mustSha(raw)))
		for _, f := range forms {
			l, err := ls.Store(ipld.LinkContext{}, gitLinkProto, f)
			if err != nil {
				t.Failf("Store: %v", err)
			}
			if l.(cidlink.Link).Cid != want {
				t.Failf("stored under %v, want %v", l, want)
			}
			l2, err := ls.ComputeLink(gitLinkProto, f)
			if err != nil || l2 != l {
				t.Failf("ComputeLink: %v, %v", l2, err)
			}
			wantBytes(t, "stored block", store[l.Binary()], raw)
			t.Count("event:stored:" + o.Kind())
		}
		for _, p := range []datamodel.NodePrototype{typedProto(o.Kind()), reprProto(o.Kind()), basicnode.Prototype.Any} {
			x, err := ls.Load(ipld.LinkContext{}, cidlink.Link{Cid: want}, p)
			if err != nil {
				t.Failf("Load: %v", err)
			}
			wantView(t, "loaded", View(x), o.View())
			t.Count("event:loaded:" + o.Kind())
		}
		// through the registry
		enc, err := mc.LookupEncoder(cid.GitRaw)
		if err != nil {
			t.Failf("no encoder for git-raw: %v", err)
		}
		var w bytes.Buffer
		if err := enc(n, &w); err != nil {
			t.Failf("registered encoder: %v", err)
		}
		wantBytes(t, "registered encoder", w.Bytes(), raw)
		dec, err := mc.LookupDecoder(cid.GitRaw)
		if err != nil {
			t.Failf("no decoder for git-raw: %v", err)
		}
		bad := mutate(Gen{Rand: t.Rand, Small: true}, raw)
		for _, in := range [][]byte{raw, bad} {
			nb := typedProto(kindOf(in)).NewBuilder()
			err := dec(nb, bytes.NewReader(in))
			base, berr := parse(in)
			if (err == nil) != (berr == nil) {
				t.Input(in)
				t.Failf("registered decoder: %v, ParseObject: %v", err, berr)
			}
			if err == nil {
				wantView(t, "registered decoder", View(nb.Build()), View(base))
			}
		}
		// other content under the link
		if !bytes.Equal(bad, raw) {
			store[cidlink.Link{Cid: want}.Binary()] = bad
			if x, err := ls.Load(ipld.LinkContext{}, cidlink.Link{Cid: want}, typedProto(o.Kind())); err == nil {
				t.Failf("other content loaded under the link: %s", View(x))
			}
			t.Count("event:wrong-content-refused")
		}
		features(t, o, raw)
		t.Distinct(raw)
		t.Sample(2, map[string]any{"object": clip(raw, 120), "link": want.String()})
	}
	c.Run("linksystem", c.N(50000, 500000), func(t *T) { stored(t, Gen{Rand: t.Rand, Small: t.IntN(3) > 0}.object()) })
	c.Run("large", c.N(42, 400), func(t *T) {
		stored(t, largeObject(t, t.Idx))
		t.Count("event:large")
	})
	codecs := []uint64{cid.GitRaw, cid.Raw, cid.DagCBOR, cid.DagProtobuf, cid.DagJSON, cid.EthBlock, cid.GitRaw + 1, cid.GitRaw - 1, 0, 1 << 40, 0x7b, 0x178, 0xf8}
	hashes := []uint64{mh.SHA1, mh.SHA2_256, mh.SHA2_512, mh.SHA3_224, mh.IDENTITY, mh.MD5, 0x1053, 0xb214, 0x10, 0x12, 0xb201, 0x1012}
	lens := []int{20, 0, 1, 10, 16, 19, 21, 32, 40, 64}
	type combo struct {
		codec, hash uint64
		n           int
	}
	var combos []combo
	for _, co := range codecs {
		for _, h := range hashes {
			for _, n := range lens {
				combos = append(combos, combo{co, h, n})
			}
		}
	}
	c.Run("blocks", len(combos)*c.N(10, 200), func(t *T) {
		co := combos[t.Idx%len(combos)]
		g := Gen{Rand: t.Rand, Small: true}
		data := Raw(g.object())
		switch t.IntN(4) {
		case 0:
			data = mutate(g, data)
		case 1:
			data = []byte(g.text())
		}
		digest := make([]byte, co.n)
		s := mustSha(data)
		copy(digest, s[:])
		m, err := mh.Encode(digest, co.hash)
		if err != nil {
			return
		}
		id := cid.NewCidV1(co.codec, m)
		t.Input(data)
		blk, err := blocks.NewBlockWithCid(data, id)
		if err != nil {
			harnessError("%v", err)
		}
		n, err := ipldgit.DecodeBlock(blk)
		ok := co.codec == cid.GitRaw && co.hash == mh.SHA1 && co.n == 20
		if !ok {
			if err == nil {
				t.Failf("a block with CID prefix %+v was decoded to %s", id.Prefix(), View(n))
			}
			if n != nil {
				t.Failf("a block with CID prefix %+v gave a node with the error %v", id.Prefix(), err)
			}
			t.Count("event:block-refused")
		} else {
			base, berr := parse(data)
			if (err == nil) != (berr == nil) {
				t.Failf("DecodeBlock: %v, ParseObject: %v", err, berr)
			}
			if err == nil {
				wantView(t, "DecodeBlock", View(n), View(base))
				t.Count("event:block-accepted")
			}
		}
		t.Distinct([]byte(fmt.Sprint(co)), data)
		t.Sample(2, fmt.Sprintf("%+v", id.Prefix()))
	})
	c.Run("blocks-v0", c.N(2000, 20000), func(t *T) {
		data := Raw(Gen{Rand: t.Rand, Small: true}.object())
		blk := blocks.NewBlock(data) // CIDv0, dag-pb, sha2-256
		if n, err := ipldgit.DecodeBlock(blk); err == nil {
			t.Failf("a CIDv0 block was decoded to %s", View(n))
		}
		t.Count("event:block-refused")
		t.Distinct([]byte("v0"), data)
	})
}

func mustSha(b []byte) [20]byte {
	c := cidOf(b)
	d, err := mh.Decode(c.Hash())
	if err != nil {
		panic(err)
	}
	return [20]byte(d.Digest)
}

var _ = filepath.Join
