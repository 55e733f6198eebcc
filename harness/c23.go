package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
	"github.com/ipld/go-ipld-prime/traversal/patch"
	"github.com/ipld/go-ipld-prime/traversal/selector/builder"
)

func init() { register("C23", "exploration", c23) }

// edit is one change: where, to what, and the same done to the model.
type edit struct {
	path  string
	value Node // nil: taken out
	apply func()
	// scalar is the new text for an edit of a single existing string
	scalar *string
}

func segsOf(parts ...string) datamodel.Path {
	var s []datamodel.PathSegment
	for _, p := range parts {
		s = append(s, datamodel.PathSegmentOfString(p))
	}
	return datamodel.NewPath(s)
}

// fill builds a node of a prototype from a model value's own node.
func typedString(s string) Node {
	nb := ipldgit.Type.String.NewBuilder()
	nb.AssignString(s)
	return nb.Build()
}

func typedLink(s Sha) Node {
	nb := ipldgit.Type.Link.NewBuilder()
	nb.AssignLink(gitLink(s))
	return nb.Build()
}

// drop and insert leave the slice they are given as it was
func dropAt[E any](s []E, i int) []E { return append(append([]E{}, s[:i]...), s[i+1:]...) }

// fullCommit has every optional field: go-ipld-prime's transformations copy
// the fields of a struct one by one and do not carry absent ones.
func fullCommit(g Gen) *Commit {
	c := g.commit()
	if c.Author == nil {
		c.Author = g.person()
	}
	if c.Committer == nil {
		c.Committer = g.person()
	}
	if c.Encoding == nil {
		e := "latin1"
		c.Encoding = &e
	}
	if c.Sig == nil {
		s := g.sig()
		c.Sig = &s
	}
	if len(c.MergeTags) == 0 {
		c.MergeTags = append(c.MergeTags, g.mergeTag())
	}
	if len(c.Other) == 0 {
		c.Other = append(c.Other, g.headerLine())
	}
	return c
}

func cloneObject(o Object) Object {
	switch x := o.(type) {
	case *Tree:
		return &Tree{append([]Entry{}, x.Entries...)}
	case *Tag:
		y := *x
		if x.Tagger != nil {
			p := *x.Tagger
			y.Tagger = &p
		}
		return &y
	case *Commit:
		y := *x
		y.Parents = append([]Sha{}, x.Parents...)
		y.Other = append([]string{}, x.Other...)
		y.MergeTags = nil
		for i := range x.MergeTags {
			y.MergeTags = append(y.MergeTags, *cloneObject(&x.MergeTags[i]).(*Tag))
		}
		for _, p := range []**Person{&y.Author, &y.Committer} {
			if *p != nil {
				q := **p
				*p = &q
			}
		}
		return &y
	}
	return o
}

// personEdit changes one text of a person or the whole of it.
func personEdit(t *T, g Gen, at string, p *Person, field bool) (string, *string, Node, func()) {
	q := g.tagger() // the schema says "no tagger" by one without any text
	k := t.IntN(4)
	if rest := [4]string{p.Name, p.Email, p.Date, p.TZ}; field {
		rest[k] = ""
		if rest == [4]string{} && [4]string{q.Name, q.Email, q.Date, q.TZ}[k] == "" {
			k, q.Name = 0, "x"
		}
	}
	if k == 3 && p.Date == "" || k == 2 && p.TZ != "" && q.Date == "" { // a zone goes with a date
		k, q.Name = 0, q.Name+"x"
	}
	if !field {
		// a person decoded in another object
		n := mustParse(t, Raw(&Commit{Author: q, Committer: q, Message: "x"}))
		v, err := n.LookupByString([]string{"author", "committer"}[t.IntN(2)])
		must(t, err)
		return at, nil, v, func() { *p = *q }
	}
	dst := []*string{&p.Name, &p.Email, &p.Date, &p.TZ}[k]
	src := []string{q.Name, q.Email, q.Date, q.TZ}[k]
	return at + "/" + []string{"name", "email", "date", "timezone"}[k], &src, nil, func() { *dst = src }
}

func (e *edit) text(t *T, s string) {
	e.scalar = &s
	if t.IntN(2) == 0 {
		e.value = basicnode.NewString(s)
	} else {
		e.value = typedString(s)
	}
}

// editOf draws a change of the object; o is changed by apply.
func editOf(t *T, g Gen, o Object) *edit {
	e := &edit{}
	link := func(p *Sha) {
		s := g.sha()
		e.value = typedLink(s)
		if t.IntN(2) == 0 {
			e.value = basicnode.NewLink(gitLink(s))
		}
		e.apply = func() { *p = s }
	}
	text := func(path, s string, p *string) {
		e.path = path
		e.text(t, s)
		e.apply = func() { *p = s }
	}
	person := func(at string, p *Person) {
		var s *string
		e.path, s, e.value, e.apply = personEdit(t, g, at, p, t.IntN(3) > 0)
		if s != nil {
			e.text(t, *s)
		}
	}
	switch x := o.(type) {
	case *Tag:
		switch t.IntN(5) {
		case 0:
			e.path = "object"
			link(&x.Object)
		case 1:
			text("type", g.objType(), &x.Type)
		case 2:
			text("tag", g.tagName(), &x.Name)
		case 3:
			person("tagger", x.Tagger)
		case 4:
			m := g.message()
			if m == "" {
				m = "m"
			}
			text("message", m, &x.Message)
		}
	case *Commit:
		switch t.IntN(14) {
		case 0:
			e.path = "tree"
			link(&x.Tree)
		case 1:
			if n := len(x.Parents); n > 0 {
				i := t.IntN(n)
				e.path = "parents/" + strconv.Itoa(i)
				link(&x.Parents[i])
				break
			}
			fallthrough
		case 2:
			e.path = "parents/-"
			s := g.sha()
			e.value = typedLink(s)
			e.apply = func() { x.Parents = append(x.Parents, s) }
		case 3:
			person("author", x.Author)
		case 4:
			person("committer", x.Committer)
		case 5, 6:
			text("message", g.message(), &x.Message)
		case 7:
			s := pick(t.Rand, []string{"UTF-8", "ISO-8859-1", "", "x y"})
			text("encoding", s, x.Encoding)
			e.apply = func() { x.Encoding = &s }
		case 8:
			s := g.sig()
			text("signature", s, x.Sig)
			// the schema's text leaves out the space that continues a line
			// nowhere: it is the raw lines
			e.apply = func() { x.Sig = &s }
		case 9:
			i := t.IntN(len(x.Other))
			text("other/"+strconv.Itoa(i), g.headerLine(), &x.Other[i])
		case 10:
			s := g.headerLine()
			e.path = "other/-"
			e.text(t, s)
			e.scalar = nil
			e.apply = func() { x.Other = append(x.Other, s) }
		case 11: // a whole embedded tag
			m := g.mergeTag()
			n := mustParse(t, Raw(&Commit{Author: g.person(), Committer: g.person(), MergeTags: []Tag{m}, Message: "x"}))
			l, err := n.LookupByString("mergetag")
			must(t, err)
			v, err := l.LookupByIndex(0)
			must(t, err)
			e.value = v
			if i := t.IntN(len(x.MergeTags) + 1); i < len(x.MergeTags) {
				e.path = "mergetag/" + strconv.Itoa(i)
				e.apply = func() { x.MergeTags[i] = m }
			} else {
				e.path = "mergetag/-"
				e.apply = func() { x.MergeTags = append(x.MergeTags, m) }
			}
		default: // something in an embedded tag
			i := t.IntN(len(x.MergeTags))
			m := &x.MergeTags[i]
			at := "mergetag/" + strconv.Itoa(i) + "/"
			switch k := t.IntN(5); {
			case k == 0:
				e.path = at + "object"
				link(&m.Object)
			case k == 1:
				text(at+"type", g.objType(), &m.Type)
			case k == 2:
				text(at+"tag", g.tagName(), &m.Name)
			case k == 3 && m.Tagger != nil:
				person(at+"tagger", m.Tagger)
			default:
				text(at+"message", g.mergeTag().Message, &m.Message)
			}
		}
	case *Tree:
		n := len(x.Entries)
		k := t.IntN(5)
		if n == 0 {
			k = 4
		}
		i := 0
		if n > 0 {
			i = t.IntN(n)
		}
		switch k {
		case 0:
			e.path = "mode"
			link(&x.Entries[i].Hash)
			e.path = "hash"
		case 1:
			text("mode", pick(t.Rand, []string{"100644", "100755", "40000", "120000", "160000"}), &x.Entries[i].Mode)
		case 2: // the whole entry
			m := Entry{Mode: pick(t.Rand, []string{"100644", "40000"}), Name: x.Entries[i].Name, Hash: g.sha()}
			tn := mustParse(t, Raw(&Tree{[]Entry{m}}))
			v, err := tn.LookupByString(m.Name)
			must(t, err)
			e.value = v
			e.apply = func() { x.Entries[i] = m }
		case 3:
			e.apply = func() { x.Entries = dropAt(x.Entries, i) }
		case 4: // a new one, at the end
			m := Entry{Mode: "100644", Name: g.entryName(), Hash: g.sha()}
			for _, y := range x.Entries {
				if y.Name == m.Name {
					m.Name += "~" + strconv.Itoa(t.IntN(1<<30))
				}
			}
			tn := mustParse(t, Raw(&Tree{[]Entry{m}}))
			v, err := tn.LookupByString(m.Name)
			must(t, err)
			e.value = v
			e.apply = func() { x.Entries = append(x.Entries, m) }
			e.path = "\x00" + m.Name
			return e
		}
		e.path = strings.TrimSuffix("\x00"+x.Entries[i].Name+"\x00"+e.path, "\x00")
	}
	return e
}

// where is an edit's path; in trees names may hold slashes.
func (e *edit) where() datamodel.Path {
	if strings.HasPrefix(e.path, "\x00") {
		return segsOf(strings.Split(e.path[1:], "\x00")...)
	}
	return datamodel.ParsePath(e.path)
}

// transform makes an edit in one of the ways go-ipld-prime offers.
func transform(t *T, n Node, e *edit) (Node, error) {
	at := e.where()
	fresh := strings.HasSuffix(e.path, "/-")
	switch k := t.IntN(4); {
	case k == 0 && e.value != nil:
		t.Count("way:patch")
		return patch.Eval(n, []patch.Operation{{Op: patch.Op_Replace, Path: at, Value: e.value}})
	case k == 0:
		t.Count("way:patch-remove")
		return patch.Eval(n, []patch.Operation{{Op: patch.Op_Remove, Path: at}})
	case k == 1 && e.scalar != nil && !fresh:
		// every node that the selector of this path matches
		ssb := builder.NewSelectorSpecBuilder(basicnode.Prototype.Any)
		spec := ssb.Matcher()
		segs := at.Segments()
		for i := len(segs) - 1; i >= 0; i-- {
			next, s := spec, segs[i].String()
			if i > 0 && (segs[i-1].String() == "other" || segs[i-1].String() == "mergetag") && i == 1 && !strings.HasPrefix(e.path, "\x00") {
				x, _ := strconv.ParseInt(s, 10, 64)
				spec = ssb.ExploreIndex(x, next)
				continue
			}
			spec = ssb.ExploreFields(func(b builder.ExploreFieldsSpecBuilder) { b.Insert(s, next) })
		}
		sel, err := spec.Selector()
		if err != nil {
			harnessError("%v", err)
		}
		t.Count("way:walk")
		hits := 0
		n2, err := traversal.WalkTransforming(n, sel, func(p traversal.Progress, old Node) (Node, error) {
			hits++
			return e.value, nil
		})
		if err == nil && hits != 1 {
			t.Failf("transforming what is at %q: called %d times", at, hits)
		}
		return n2, err
	default:
		t.Count("way:focus")
		hits := 0
		n2, err := traversal.FocusedTransform(n, at, func(p traversal.Progress, old Node) (Node, error) {
			hits++
			return e.value, nil
		}, false)
		if err == nil && hits < 1 {
			t.Failf("transforming what is at %q: never called", at)
		}
		return n2, err
	}
}

// copied makes an edit of a top-level field by copying the others into a new
// builder, as one has to for commits without some optional field.
func copied(t *T, n Node, p datamodel.NodePrototype, field string, v Node) (Node, error) {
	nb := p.NewBuilder()
	ma, err := nb.BeginMap(n.Length())
	if err != nil {
		return nil, err
	}
	put := func(k string, v Node) error {
		if t.IntN(2) == 0 {
			va, err := ma.AssembleEntry(k)
			if err != nil {
				return err
			}
			return va.AssignNode(v)
		}
		if err := ma.AssembleKey().AssignString(k); err != nil {
			return err
		}
		return ma.AssembleValue().AssignNode(v)
	}
	done := false
	for it := n.MapIterator(); !it.Done(); {
		kn, old, err := it.Next()
		if err != nil {
			return nil, err
		}
		k, err := kn.AsString()
		if err != nil {
			return nil, err
		}
		if k == field {
			done = true
			if v != nil {
				if err := put(k, v); err != nil {
					return nil, err
				}
			}
			continue
		}
		if old.IsAbsent() {
			continue
		}
		if err := put(k, old); err != nil {
			return nil, err
		}
	}
	if !done && v != nil {
		if err := put(field, v); err != nil {
			return nil, err
		}
	}
	if err := ma.Finish(); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

func c23(c *Ctx) {
	c.Rule = "Decoded objects changed through go-ipld-prime's own update functions (FocusedTransform, WalkTransforming, patch operations, copying fields), one change after another; and files of git-made repositories replaced, re-moded, removed and added by a FocusedTransform through the links, storing what changes, followed by a new commit. Oracle: the same change made to a model value and written by a separate serializer; for repositories git (update-index, write-tree, commit-tree). The originals are looked at again afterwards. Distinct by object and changes; all are non-trivial."
	// one object, a chain of changes
	c.Run("chain", c.N(30000, 400000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(3) > 0}
		var o Object
		switch t.IntN(4) {
		case 0:
			x := g.tag()
			if x.Tagger == nil {
				x.Tagger = g.tagger()
			}
			if x.NoBody {
				x.NoBody, x.Message = false, "m"
			}
			o = x
		case 1:
			o = g.tree()
		default:
			o = fullCommit(g)
		}
		n := mustParse(t, Raw(o))
		if o.Kind() != "commit" && t.IntN(3) == 0 {
			n = reprOf(n)
			t.Count("event:representation")
		}
		type state struct {
			n         Node
			raw, view string
		}
		var past []state
		for steps := 1 + t.IntN(5); steps > 0; steps-- {
			raw := Raw(o)
			t.Input(raw)
			past = append(past, state{n, string(raw), o.View()})
			o = cloneObject(o)
			e := editOf(t, g, o)
			n2, err := transform(t, n, e)
			if err != nil {
				t.Failf("changing %q of a %s: %v", e.path, o.Kind(), err)
			}
			e.apply()
			wantView(t, fmt.Sprintf("a %s with another %q", o.Kind(), e.path), View(n2), o.View())
			wantBytes(t, fmt.Sprintf("encoding of a %s with another %q", o.Kind(), e.path), mustEncode(t, n2), Raw(o))
			t.Count("changed:" + o.Kind())
			n = n2
			t.Distinct(raw, []byte(e.path))
		}
		for _, s := range past {
			wantView(t, "what a change was made from", View(s.n), s.view)
			wantBytes(t, "encoding of what a change was made from", mustEncode(t, s.n), []byte(s.raw))
			t.Count("event:original-unchanged")
		}
	})
	// commits with any fields, copied field by field
	c.Run("copied", c.N(30000, 400000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(3) > 0}
		o := g.commit()
		raw, view := Raw(o), o.View()
		t.Input(raw)
		n := mustParse(t, raw)
		x := cloneObject(o).(*Commit)
		y := fullCommit(Gen{Rand: t.Rand, Small: true})
		if t.IntN(4) == 0 {
			y.Parents, y.MergeTags, y.Other = nil, nil, nil
		}
		m := mustParse(t, Raw(y))
		field := pick(t.Rand, []string{"tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other", ""})
		var v Node
		if field != "" {
			var err error
			v, err = m.LookupByString(field)
			must(t, err)
		}
		out := t.IntN(3) == 0
		switch field {
		case "tree":
			x.Tree = y.Tree
		case "parents":
			x.Parents = y.Parents
		case "message":
			x.Message = y.Message
		case "author":
			x.Author = y.Author
		case "committer":
			x.Committer = y.Committer
		case "encoding":
			if x.Encoding = y.Encoding; out {
				x.Encoding, v = nil, nil
			}
		case "signature":
			if x.Sig = y.Sig; out {
				x.Sig, v = nil, nil
			}
		case "mergetag":
			x.MergeTags = y.MergeTags
		case "other":
			x.Other = y.Other
		}
		n2, err := copied(t, n, n.Prototype(), field, v)
		if err != nil {
			t.Failf("copying a commit with another %q: %v", field, err)
		}
		wantView(t, fmt.Sprintf("a copied commit with another %q", field), View(n2), x.View())
		wantBytes(t, fmt.Sprintf("encoding of a copied commit with another %q", field), mustEncode(t, n2), Raw(x))
		wantView(t, "what was copied", View(n), view)
		wantBytes(t, "encoding of what was copied", mustEncode(t, n), raw)
		wantBytes(t, "encoding of where the field came from", mustEncode(t, m), Raw(y))
		// and by datamodel.Copy
		nb := n.Prototype().NewBuilder()
		if err := datamodel.Copy(n, nb); err != nil {
			t.Failf("datamodel.Copy of a commit: %v", err)
		}
		wantBytes(t, "encoding of a datamodel.Copy", mustEncode(t, nb.Build()), raw)
		t.Count("copied-with:" + field)
		t.Distinct(raw, []byte(field))
	})
	nrepo := c.N(6, 60)
	for k := 0; k < nrepo; k++ {
		name := fmt.Sprintf("rewrite%d", k)
		if c.Only != "" && !strings.HasPrefix(c.Only, name+":") {
			continue
		}
		g := gitRepo(c, name, k%6)
		c23repo(c, g, name)
		os.RemoveAll(g.Dir)
	}
}

// c23repo changes files of commits through their links.
func c23repo(c *Ctx, g *Git, name string) {
	r := viewRepo(g)
	c.Run(name, 2*len(r.commits), func(t *T) {
		id := r.commits[t.Idx%len(r.commits)]
		gen := Gen{Rand: t.Rand, Clean: true, Small: true}
		// an index of this case's own
		gi := &Git{Dir: g.Dir, Index: fmt.Sprintf("%s/.git/index-%d", g.Dir, t.Idx)}
		defer os.Remove(gi.Index)
		stored := map[string][]byte{}
		ls := cidlink.DefaultLinkSystem()
		ls.StorageReadOpener = func(_ linking.LinkContext, l datamodel.Link) (io.Reader, error) {
			x := idOf(t, l)
			if b, ok := stored[x]; ok {
				return bytes.NewReader(b), nil
			}
			b, ok := r.raw[x]
			if !ok {
				return nil, fmt.Errorf("no object %s", x)
			}
			return bytes.NewReader(b), nil
		}
		ls.StorageWriteOpener = func(linking.LinkContext) (io.Writer, linking.BlockWriteCommitter, error) {
			var w bytes.Buffer
			return &w, func(l datamodel.Link) error {
				stored[idOf(t, l)] = w.Bytes()
				t.Count("event:stored:" + kindOf(w.Bytes()))
				return nil
			}, nil
		}
		kind := func(x string) string {
			if b, ok := stored[x]; ok {
				return kindOf(b)
			}
			return kindOf(r.raw[x])
		}
		chooser := func(l datamodel.Link, lc linking.LinkContext) (datamodel.NodePrototype, error) {
			if tl, ok := lc.LinkNode.(schema.TypedLinkNode); ok && t.Idx%2 == 0 && tl.LinkTargetNodePrototype() != basicnode.Prototype.Any {
				return tl.LinkTargetNodePrototype(), nil
			}
			return typedProto(kind(idOf(t, l))), nil
		}
		treeID := r.resolve([]string{id + "^{tree}"})[0]
		root, err := ls.Load(ipld.LinkContext{}, gitLink(shaOf(treeID)), ipldgit.Type.Tree)
		if err != nil {
			t.Failf("loading %s: %v", treeID, err)
		}
		gi.must(nil, "read-tree", id)
		var did []string
		touched := map[string]bool{}
		for steps := 1 + t.IntN(3); steps > 0; steps-- {
			out := gi.must(nil, "ls-files", "-s", "-z")
			var files []string
			for _, l := range strings.Split(out, "\x00") {
				if l != "" && !strings.HasPrefix(l, "160000") {
					files = append(files, l)
				}
			}
			if len(files) < 2 {
				t.Count("event:no-file")
				return
			}
			meta, p, _ := strings.Cut(pick(t.Rand, files), "\t")
			f := strings.Fields(meta)
			dir := ""
			if i := strings.LastIndexByte(p, '/'); i >= 0 {
				dir = p[:i+1]
			}
			inDir := 0
			for _, l := range strings.Split(out, "\x00") {
				if _, q, _ := strings.Cut(l, "\t"); l != "" && strings.HasPrefix(q, dir) {
					inDir++
				}
			}
			pathTo := func(p string, last ...string) datamodel.Path {
				var segs []string
				for i, s := range strings.Split(p, "/") {
					if i > 0 {
						segs = append(segs, "hash")
					}
					segs = append(segs, s)
				}
				return segsOf(append(segs, last...)...)
			}
			blob := func() (datamodel.Link, string) {
				nb := ipldgit.Type.Blob.NewBuilder()
				must(t, nb.AssignBytes(Raw(gen.blob())))
				l, err := ls.Store(ipld.LinkContext{}, gitLinkProto, nb.Build())
				if err != nil {
					t.Failf("storing a blob: %v", err)
				}
				x := idOf(t, l)
				raw := stored[x]
				got := g.must(raw[bytes.IndexByte(raw, 0)+1:], "hash-object", "-w", "--stdin")
				if got != x {
					t.Failf("git's id of a stored blob is %s, not %s", got, x)
				}
				return l, x
			}
			var at datamodel.Path
			var v Node
			op := t.IntN(4)
			if op == 2 && inDir < 2 {
				op = 0
			}
			switch op {
			case 0: // other content
				l, x := blob()
				at, v = pathTo(p, "hash"), basicnode.NewLink(l)
				gi.must([]byte(f[0]+" "+x+"\t"+p+"\x00"), "update-index", "-z", "--index-info")
			case 1: // another mode
				mode := pick(t.Rand, []string{"100644", "100755", "120000"})
				at, v = pathTo(p, "mode"), typedString(mode)
				gi.must([]byte(mode+" "+f[1]+"\t"+p+"\x00"), "update-index", "-z", "--index-info")
			case 2: // taken out
				at = pathTo(p)
				gi.must([]byte("0 "+strings.Repeat("0", 40)+"\t"+p+"\x00"), "update-index", "-z", "--index-info")
			case 3: // one more, which git sorts last
				l, x := blob()
				p = dir + "\U0010ffff" + strconv.Itoa(9-steps)
				e := Entry{Mode: "100755", Name: p, Hash: shaOf(idOf(t, l))}
				tn := mustParse(t, Raw(&Tree{[]Entry{e}}))
				v, err = tn.LookupByString(p)
				must(t, err)
				at = pathTo(p)
				gi.must([]byte("100755 "+x+"\t"+p+"\x00"), "update-index", "-z", "--index-info")
			}
			what := fmt.Sprintf("step %v of %s, operation %d on %q", len(did), id, op, p)
			prog := traversal.Progress{Cfg: &traversal.Config{LinkSystem: ls, LinkTargetNodePrototypeChooser: chooser}}
			n2, err := prog.FocusedTransform(root, at, func(traversal.Progress, Node) (Node, error) { return v, nil }, false)
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			root = n2
			raw := mustEncode(t, root)
			want := gi.must(nil, "write-tree")
			if got := idOf(t, cidlink.Link{Cid: cidOf(raw)}); got != want {
				t.Failf("%s: the tree is %s, git's is %s\n%s", what, got, want, View(root))
			}
			did = append(did, p)
			touched[p] = true
			t.Count(fmt.Sprintf("event:rewritten:%d", op))
		}
		// what was stored on the way is what git stored
		for x, b := range stored {
			if out, err := g.cmd(nil, "cat-file", kindOf(b), x); err == nil {
				wantBytes(t, "a stored object and git's", b[bytes.IndexByte(b, 0)+1:], out)
				t.Count("event:stored-as-git")
			} else if kindOf(b) == "blob" {
				t.Failf("git has no %s", x)
			}
		}
		// the commit of it
		rl, err := ls.Store(ipld.LinkContext{}, gitLinkProto, root)
		if err != nil {
			t.Failf("storing the tree: %v", err)
		}
		old, err := ls.Load(ipld.LinkContext{}, gitLink(shaOf(id)), ipldgit.Type.Commit)
		if err != nil {
			t.Failf("loading %s: %v", id, err)
		}
		msg := gen.message() + "x"
		au := &Person{"A U Thor", "author@example.com", "1503667703", "+0200"}
		co := &Person{"C O Mitter", "committer@example.com", "1503667704", "-0530"}
		from := mustParse(t, Raw(&Commit{Author: au, Committer: co, Message: msg, Parents: []Sha{shaOf(id)}}))
		m := old
		for _, k := range []string{"author", "committer", "message", "parents", "tree", "encoding", "signature", "mergetag", "other"} {
			var v Node
			if k == "tree" {
				v = basicnode.NewLink(rl)
			} else if v, err = from.LookupByString(k); err != nil || v.IsAbsent() {
				v = nil
			}
			if m, err = copied(t, m, m.Prototype(), k, v); err != nil {
				t.Failf("copying commit %s with another %q: %v", id, k, err)
			}
		}
		cl, err := ls.Store(ipld.LinkContext{}, gitLinkProto, m)
		if err != nil {
			t.Failf("storing the commit: %v", err)
		}
		want := g.must([]byte(msg), "commit-tree", idOf(t, rl), "-p", id)
		if got := idOf(t, cl); got != want {
			t.Failf("a commit upon %s is %s, git's is %s: %q", id, got, want, stored[got])
		}
		// git sees the changes and no others
		for _, p := range strings.Split(g.must(nil, "diff-tree", "-r", "-z", "--name-only", id, want), "\x00") {
			if p != "" && !touched[p] {
				t.Failf("the change of %q in %s also changed %q", did, id, p)
			}
		}
		wantBytes(t, "the commit that was built upon", mustEncode(t, old), r.raw[id])
		t.Count("event:committed-as-git")
		t.Distinct([]byte(id), []byte(strings.Join(did, "\x00")), []byte(msg))
		t.Sample(2, map[string]any{"commit": id, "changed": did})
	})
}
