package main

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
)

func init() {
	register("C18", "exploration", c18)
	register("C19", "exploration", c19)
}

// ---------------------------------------------------------------- C18

// contract checks everything a node offers against the value it should hold.
// repr says that the node is at representation level.
func contract(t *T, n Node, v *Val, repr bool, path string) {
	lv := "type"
	if repr {
		lv = "repr"
	}
	where := fmt.Sprintf("%s (%s, %s level)", path, v.Type, lv)
	sp := schemaSpec[v.Type]
	if n == nil {
		t.Failf("%s: nil node", where)
	}
	t.Count("node:" + v.Type + ":" + lv)
	if n.Kind() != v.Kind {
		t.Failf("%s: kind %v, want %v", where, n.Kind(), v.Kind)
	}
	if n.IsNull() || n.IsAbsent() {
		t.Failf("%s: null %v absent %v", where, n.IsNull(), n.IsAbsent())
	}
	// scalar accessors
	acc := func(name string, k datamodel.Kind, err error) {
		if (err == nil) != (k == v.Kind) {
			t.Failf("%s: %s returned error %v", where, name, err)
		}
		t.Count("checked:accessor")
	}
	_, err := n.AsBool()
	acc("AsBool", datamodel.Kind_Bool, err)
	_, err = n.AsInt()
	acc("AsInt", datamodel.Kind_Int, err)
	_, err = n.AsFloat()
	acc("AsFloat", datamodel.Kind_Float, err)
	s, err := n.AsString()
	acc("AsString", datamodel.Kind_String, err)
	b, err := n.AsBytes()
	acc("AsBytes", datamodel.Kind_Bytes, err)
	l, err := n.AsLink()
	acc("AsLink", datamodel.Kind_Link, err)
	switch v.Kind {
	case datamodel.Kind_String:
		if s != v.S {
			t.Failf("%s: AsString %q, want %q", where, s, v.S)
		}
	case datamodel.Kind_Bytes:
		if !bytes.Equal(b, v.B) {
			t.Failf("%s: AsBytes %q, want %q", where, b, v.B)
		}
	case datamodel.Kind_Link:
		if l != v.L {
			t.Failf("%s: AsLink %v, want %v", where, l, v.L)
		}
	}
	if v.Kind != datamodel.Kind_Map {
		if it := n.MapIterator(); it != nil {
			t.Failf("%s: has a map iterator", where)
		}
		if x, err := n.LookupByString("name"); err == nil {
			t.Failf("%s: LookupByString gave %v", where, x)
		}
	}
	if v.Kind != datamodel.Kind_List {
		if it := n.ListIterator(); it != nil {
			t.Failf("%s: has a list iterator", where)
		}
		if x, err := n.LookupByIndex(0); err == nil {
			t.Failf("%s: LookupByIndex gave %v", where, x)
		}
	}
	if v.Kind != datamodel.Kind_List && v.Kind != datamodel.Kind_Map {
		if n.Length() != -1 {
			t.Failf("%s: Length %d of a scalar", where, n.Length())
		}
		if x, err := n.LookupBySegment(datamodel.PathSegmentOfString("0")); err == nil {
			t.Failf("%s: LookupBySegment gave %v", where, x)
		}
		if x, err := n.LookupByNode(strKey("0")); err == nil {
			t.Failf("%s: LookupByNode gave %v", where, x)
		}
	}
	missing := func(what string, x Node, err error) {
		if err == nil {
			t.Failf("%s: %s gave %s without an error", where, what, View(x))
		}
		if x != nil && !x.IsAbsent() {
			t.Failf("%s: %s gave a node and the error %v", where, what, err)
		}
		t.Count("checked:missing")
	}
	// the child that an iterator gave, which is what any other way must lead to
	var iterated Node
	same := func(what string, x Node, err error, want string) {
		if err != nil {
			t.Failf("%s: %s: %v", where, what, err)
		}
		wantView(t, where+": "+what, View(x), want)
		if x.Prototype() != iterated.Prototype() {
			t.Failf("%s: %s gave a %T, the iterator a %T", where, what, x, iterated)
		}
		if _, ok := x.(schema.TypedNode); repr && ok && (x.Kind() == datamodel.Kind_Map || x.Kind() == datamodel.Kind_List) {
			t.Failf("%s: %s of a representation gave a node of the type level, %T", where, what, x)
		}
		t.Count("checked:lookup")
	}
	switch {
	case v.Kind == datamodel.Kind_List:
		if n.Length() != int64(len(v.Vals)) {
			t.Failf("%s: Length %d, want %d", where, n.Length(), len(v.Vals))
		}
		it, it2 := n.ListIterator(), n.ListIterator()
		for i, e := range v.Vals {
			p := path + "/" + strconv.Itoa(i)
			if it.Done() {
				t.Failf("%s: iterator done after %d of %d", where, i, len(v.Vals))
			}
			j, x, err := it.Next()
			if err != nil || j != int64(i) {
				t.Failf("%s: Next gave index %d, error %v", where, j, err)
			}
			contract(t, x, e, repr, p)
			iterated = x
			want := e.View()
			x, err = n.LookupByIndex(int64(i))
			same("LookupByIndex", x, err, want)
			x, err = n.LookupBySegment(datamodel.PathSegmentOfInt(int64(i)))
			same("LookupBySegment(int)", x, err, want)
			x, err = n.LookupBySegment(datamodel.PathSegmentOfString(strconv.Itoa(i)))
			same("LookupBySegment(string)", x, err, want)
			x, err = n.LookupByNode(basicnode.NewInt(int64(i)))
			same("LookupByNode", x, err, want)
		}
		if !it.Done() {
			t.Failf("%s: iterator not done at the end", where)
		}
		_, _, err := it.Next()
		if err == nil {
			t.Failf("%s: Next past the end gave no error", where)
		}
		if !it.Done() {
			t.Failf("%s: iterator not done after the end", where)
		}
		// a second iterator is not affected by the first
		if it2.Done() != (len(v.Vals) == 0) {
			t.Failf("%s: second iterator done: %v", where, it2.Done())
		}
		for _, i := range []int64{int64(len(v.Vals)), int64(len(v.Vals)) + 1, 1 << 40} {
			x, err := n.LookupByIndex(i)
			missing(fmt.Sprintf("LookupByIndex(%d)", i), x, err)
			x, err = n.LookupByNode(basicnode.NewInt(i))
			missing(fmt.Sprintf("LookupByNode(%d)", i), x, err)
			x, err = n.LookupBySegment(datamodel.PathSegmentOfInt(i))
			missing(fmt.Sprintf("LookupBySegment(%d)", i), x, err)
		}
		for _, k := range []string{"", "x", "1x", "name", " 0"} {
			x, err := n.LookupBySegment(datamodel.PathSegmentOfString(k))
			missing(fmt.Sprintf("LookupBySegment(%q)", k), x, err)
			x, err = n.LookupByNode(basicnode.NewString(k))
			missing(fmt.Sprintf("LookupByNode(%q)", k), x, err)
		}
	case v.Kind == datamodel.Kind_Map:
		type ent struct {
			k string
			v *Val // nil: absent
		}
		var ents []ent
		have := map[string]bool{}
		if sp.isStruct() {
			for _, f := range sp.fields {
				x := v.field(f.name)
				have[f.name] = x != nil || !repr
				if x != nil || !repr {
					ents = append(ents, ent{f.name, x})
				}
			}
		} else {
			for i, k := range v.Keys {
				ents = append(ents, ent{k, v.Vals[i]})
				have[k] = true
			}
		}
		if n.Length() != int64(len(ents)) {
			t.Failf("%s: Length %d, want %d", where, n.Length(), len(ents))
		}
		it, it2 := n.MapIterator(), n.MapIterator()
		for i, e := range ents {
			if it.Done() {
				t.Failf("%s: iterator done after %d of %d", where, i, len(ents))
			}
			k, x, err := it.Next()
			if err != nil {
				t.Failf("%s: Next: %v", where, err)
			}
			ks, err := k.AsString()
			if err != nil || ks != e.k || k.Kind() != datamodel.Kind_String {
				t.Failf("%s: key %d is %q (%v), want %q", where, i, ks, err, e.k)
			}
			keys := []Node{k, strKey(e.k)}
			if sp.isStruct() {
				keys = append(keys, basicnode.NewString(e.k))
			}
			if e.v == nil {
				abs := func(what string, x Node, err error) {
					if err != nil || x == nil || !x.IsAbsent() || x.IsNull() {
						t.Failf("%s: %s of the absent %q: %v, %v", where, what, e.k, x, err)
					}
					t.Count("checked:absent")
				}
				abs("Next", x, nil)
				x, err = n.LookupByString(e.k)
				abs("LookupByString", x, err)
				x, err = n.LookupBySegment(datamodel.PathSegmentOfString(e.k))
				abs("LookupBySegment", x, err)
				for _, kn := range keys {
					x, err = n.LookupByNode(kn)
					abs("LookupByNode", x, err)
				}
				continue
			}
			contract(t, x, e.v, repr, path+"/"+e.k)
			iterated = x
			want := e.v.View()
			x, err = n.LookupByString(e.k)
			same("LookupByString("+strconv.Quote(e.k)+")", x, err, want)
			x, err = n.LookupBySegment(datamodel.PathSegmentOfString(e.k))
			same("LookupBySegment", x, err, want)
			for _, kn := range keys {
				x, err = n.LookupByNode(kn)
				same("LookupByNode", x, err, want)
			}
		}
		if !it.Done() {
			t.Failf("%s: iterator not done at the end", where)
		}
		if _, _, err := it.Next(); err == nil {
			t.Failf("%s: Next past the end gave no error", where)
		}
		if !it.Done() {
			t.Failf("%s: iterator not done after the end", where)
		}
		if it2.Done() != (len(ents) == 0) {
			t.Failf("%s: second iterator done: %v", where, it2.Done())
		}
		miss := []string{"", "x", "Tree", "tree", "names", "message ", "author", "committer", "encoding", "signature", "0", "\x00"}
		for _, k := range v.Keys {
			miss = append(miss, k+"x", "x"+k, strings.ToUpper(k))
		}
		if len(miss) > 40 {
			miss = miss[:40]
		}
		for _, k := range miss {
			if have[k] {
				continue
			}
			x, err := n.LookupByString(k)
			missing(fmt.Sprintf("LookupByString(%q)", k), x, err)
			x, err = n.LookupBySegment(datamodel.PathSegmentOfString(k))
			missing(fmt.Sprintf("LookupBySegment(%q)", k), x, err)
			x, err = n.LookupByNode(strKey(k))
			missing(fmt.Sprintf("LookupByNode(%q)", k), x, err)
		}
		if !have["7"] {
			x, err := n.LookupBySegment(datamodel.PathSegmentOfInt(7))
			missing("LookupBySegment(7)", x, err)
		}
		if sp.isStruct() {
			x, err := n.LookupByNode(basicnode.NewInt(0))
			missing("LookupByNode(int)", x, err)
		}
	}
	// the representation
	if !repr {
		tn, ok := n.(schema.TypedNode)
		if !ok {
			t.Failf("%s: not a typed node", where)
		}
		if path == "" || t.IntN(4) == 0 {
			contract(t, tn.Representation(), v, true, path+"(repr)")
		}
	}
	// a copy through the node's own prototype
	if t.IntN(4) == 0 {
		nb := n.Prototype().NewBuilder()
		if repr {
			if err := assemble(nb, n); err != nil {
				t.Failf("%s: assembling a copy through the prototype: %v", where, err)
			}
		} else if err := nb.AssignNode(n); err != nil {
			t.Failf("%s: copy through the prototype: %v", where, err)
		}
		c := nb.Build()
		wantView(t, where+": copy", View(c), v.View())
		if !repr && !datamodel.DeepEqual(c, n) {
			t.Failf("%s: a copy is not DeepEqual", where)
		}
		t.Count("checked:copy")
	}
}

// typed checks the package's typed accessors.
func typed(t *T, n Node, v *Val) {
	str := func(what string, s ipldgit.String, want *Val) {
		if s.String() != want.S {
			t.Failf("%s: %q, want %q", what, s.String(), want.S)
		}
		t.Count("typed:" + what)
	}
	lnk := func(what string, l datamodel.Link, want *Val) {
		if l != want.L {
			t.Failf("%s: %v, want %v", what, l, want.L)
		}
		t.Count("typed:" + what)
	}
	type maybe interface {
		IsNull() bool
		IsAbsent() bool
		Exists() bool
		AsNode() Node
	}
	opt := func(what string, m maybe, want *Val) bool {
		if m.IsNull() || m.IsAbsent() != (want == nil) || m.Exists() != (want != nil) {
			t.Failf("%s: null %v absent %v exists %v, want present: %v", what, m.IsNull(), m.IsAbsent(), m.Exists(), want != nil)
		}
		x := m.AsNode()
		if want == nil {
			if !x.IsAbsent() {
				t.Failf("%s: AsNode %v", what, x)
			}
		} else {
			wantView(t, what+": AsNode", View(x), want.View())
		}
		t.Count("typed:" + what)
		return want != nil
	}
	switch n := n.(type) {
	case ipldgit.String:
		str("String.String", n, v)
	case ipldgit.GpgSig:
		if n.String() != v.S {
			t.Failf("GpgSig.String %q, want %q", n.String(), v.S)
		}
	case ipldgit.Blob:
		if !bytes.Equal(n.Bytes(), v.B) {
			t.Failf("Blob.Bytes %q, want %q", n.Bytes(), v.B)
		}
		t.Count("typed:Blob.Bytes")
	case ipldgit.Link:
		lnk("Link.Link", n.Link(), v)
	case ipldgit.Tree_Link:
		lnk("Tree_Link.Link", n.Link(), v)
		if p := n.LinkTargetNodePrototype(); p != ipldgit.Type.Tree && p != ipldgit.Type.Tree__Repr {
			t.Failf("Tree_Link leads to %T", p)
		}
	case ipldgit.Commit_Link:
		lnk("Commit_Link.Link", n.Link(), v)
		if p := n.LinkTargetNodePrototype(); p != ipldgit.Type.Commit && p != ipldgit.Type.Commit__Repr {
			t.Failf("Commit_Link leads to %T", p)
		}
	case ipldgit.PersonInfo:
		str("FieldDate", n.FieldDate(), v.field("date"))
		str("FieldTimezone", n.FieldTimezone(), v.field("timezone"))
		str("FieldEmail", n.FieldEmail(), v.field("email"))
		str("FieldName", n.FieldName(), v.field("name"))
	case ipldgit.TreeEntry:
		str("FieldMode", n.FieldMode(), v.field("mode"))
		lnk("FieldHash", n.FieldHash().Link(), v.field("hash"))
	case ipldgit.Tag:
		lnk("FieldObject", n.FieldObject().Link(), v.field("object"))
		str("FieldType", n.FieldType(), v.field("type"))
		str("FieldTag", n.FieldTag(), v.field("tag"))
		typed(t, n.FieldTagger(), v.field("tagger"))
		str("FieldMessage", n.FieldMessage(), v.field("message"))
	case ipldgit.Commit:
		typed(t, n.FieldTree(), v.field("tree"))
		typed(t, n.FieldParents(), v.field("parents"))
		str("FieldMessage", n.FieldMessage(), v.field("message"))
		if w := v.field("author"); opt("FieldAuthor", n.FieldAuthor(), w) {
			typed(t, n.FieldAuthor().Must(), w)
		}
		if w := v.field("committer"); opt("FieldCommitter", n.FieldCommitter(), w) {
			typed(t, n.FieldCommitter().Must(), w)
		}
		if w := v.field("encoding"); opt("FieldEncoding", n.FieldEncoding(), w) {
			typed(t, n.FieldEncoding().Must(), w)
		}
		if w := v.field("signature"); opt("FieldSignature", n.FieldSignature(), w) {
			typed(t, n.FieldSignature().Must(), w)
		}
		typed(t, n.FieldMergetag(), v.field("mergetag"))
		typed(t, n.FieldOther(), v.field("other"))
	case ipldgit.Commit_Link_List:
		it := n.Iterator()
		for i, e := range v.Vals {
			if it.Done() {
				t.Failf("Iterator done after %d of %d", i, len(v.Vals))
			}
			j, x := it.Next()
			if j != int64(i) {
				t.Failf("Iterator index %d, want %d", j, i)
			}
			typed(t, x, e)
			typed(t, n.Lookup(int64(i)), e)
			opt("LookupMaybe", n.LookupMaybe(int64(i)), e)
		}
		if !it.Done() || n.Lookup(int64(len(v.Vals))) != nil {
			t.Failf("Iterator or Lookup past the end")
		}
	case ipldgit.String_List:
		it := n.Iterator()
		for i, e := range v.Vals {
			if it.Done() {
				t.Failf("Iterator done after %d of %d", i, len(v.Vals))
			}
			j, x := it.Next()
			if j != int64(i) {
				t.Failf("Iterator index %d, want %d", j, i)
			}
			typed(t, x, e)
			typed(t, n.Lookup(int64(i)), e)
			opt("LookupMaybe", n.LookupMaybe(int64(i)), e)
		}
		if !it.Done() || n.Lookup(int64(len(v.Vals))) != nil {
			t.Failf("Iterator or Lookup past the end")
		}
	case ipldgit.Tag_List:
		it := n.Iterator()
		for i, e := range v.Vals {
			if it.Done() {
				t.Failf("Iterator done after %d of %d", i, len(v.Vals))
			}
			j, x := it.Next()
			if j != int64(i) {
				t.Failf("Iterator index %d, want %d", j, i)
			}
			typed(t, x, e)
			typed(t, n.Lookup(int64(i)), e)
			opt("LookupMaybe", n.LookupMaybe(int64(i)), e)
		}
		if !it.Done() || n.Lookup(int64(len(v.Vals))) != nil {
			t.Failf("Iterator or Lookup past the end")
		}
	case ipldgit.Tree:
		it := n.Iterator()
		for i, e := range v.Vals {
			if it.Done() {
				t.Failf("Iterator done after %d of %d", i, len(v.Vals))
			}
			k, x := it.Next()
			if k.String() != v.Keys[i] {
				t.Failf("Iterator key %q, want %q", k.String(), v.Keys[i])
			}
			typed(t, x, e)
			key := strKey(v.Keys[i]).(ipldgit.String)
			typed(t, n.Lookup(key), e)
			opt("LookupMaybe", n.LookupMaybe(key), e)
		}
		if !it.Done() {
			t.Failf("Iterator past the end")
		}
		if v.field("no such entry") == nil {
			key := strKey("no such entry").(ipldgit.String)
			if n.Lookup(key) != nil {
				t.Failf("Lookup of a missing key")
			}
			opt("LookupMaybe", n.LookupMaybe(key), nil)
		}
	default:
		t.Failf("unexpected type %T of a %s", n, v.Type)
	}
}

// valOf is the value a decoded object must have.
func valOf(o Object) *Val {
	str := func(s string) *Val { return &Val{Type: "String", Kind: datamodel.Kind_String, S: s} }
	lnk := func(typ string, s Sha) *Val { return &Val{Type: typ, Kind: datamodel.Kind_Link, L: gitLink(s)} }
	m := func(typ string, kv ...any) *Val {
		v := &Val{Type: typ, Kind: datamodel.Kind_Map}
		for i := 0; i < len(kv); i += 2 {
			if x := kv[i+1].(*Val); x != nil {
				v.Keys = append(v.Keys, kv[i].(string))
				v.Vals = append(v.Vals, x)
			}
		}
		return v
	}
	person := func(p *Person) *Val {
		if p == nil {
			return nil
		}
		return m("PersonInfo", "date", str(p.Date), "timezone", str(p.TZ), "email", str(p.Email), "name", str(p.Name))
	}
	tag := func(g *Tag) *Val {
		p := g.Tagger
		if p == nil {
			p = &Person{}
		}
		return m("Tag", "object", lnk("Link", g.Object), "type", str(g.Type), "tag", str(g.Name), "tagger", person(p), "message", str(g.Message))
	}
	switch o := o.(type) {
	case *Blob:
		return &Val{Type: "Blob", Kind: datamodel.Kind_Bytes, B: Raw(o)}
	case *Tree:
		v := m("Tree")
		for _, e := range o.Entries {
			v.Keys = append(v.Keys, e.Name)
			v.Vals = append(v.Vals, m("TreeEntry", "mode", str(e.Mode), "hash", lnk("Link", e.Hash)))
		}
		return v
	case *Tag:
		return tag(o)
	case *Commit:
		ps := &Val{Type: "Commit_Link_List", Kind: datamodel.Kind_List}
		for _, p := range o.Parents {
			ps.Vals = append(ps.Vals, lnk("Commit_Link", p))
		}
		mt := &Val{Type: "Tag_List", Kind: datamodel.Kind_List}
		for i := range o.MergeTags {
			mt.Vals = append(mt.Vals, tag(&o.MergeTags[i]))
		}
		ot := &Val{Type: "String_List", Kind: datamodel.Kind_List}
		for _, s := range o.Other {
			ot.Vals = append(ot.Vals, str(s))
		}
		var enc, sig *Val
		if o.Encoding != nil {
			enc = str(*o.Encoding)
		}
		if o.Sig != nil {
			sig = &Val{Type: "GpgSig", Kind: datamodel.Kind_String, S: *o.Sig}
		}
		return m("Commit", "tree", lnk("Tree_Link", o.Tree), "parents", ps, "message", str(o.Message), "author", person(o.Author), "committer", person(o.Committer),
			"encoding", enc, "signature", sig, "mergetag", mt, "other", ot)
	}
	panic("object")
}

// paths lists every path into a value.
func paths(v *Val, at string, out *[]string, vals *[]*Val) {
	for i, x := range v.Vals {
		k := strconv.Itoa(i)
		if v.Kind == datamodel.Kind_Map {
			k = v.Keys[i]
		}
		if k == "" || strings.ContainsAny(k, "/") {
			continue
		}
		p := at + "/" + k
		if at == "" {
			p = k
		}
		*out = append(*out, p)
		*vals = append(*vals, x)
		paths(x, p, out, vals)
	}
}

func c18(c *Ctx) {
	c.Rule = "Decoded objects and values of each of the 14 schema types assembled through builders; every node in them, at type level and at representation level, is asked everything the node interface offers (kind, length, all scalar accessors, iteration to and past the end, a second iterator, every key and index by each way of looking up, missing keys and indices, absent fields, a copy through its prototype, its typed accessors, every path by traversal). Oracle: a separately written model of the schema and of the value. Distinct by value; non-trivial: at least one field, element or byte."
	ps := repoProtos()
	full := func(t *T, n Node, v *Val) {
		contract(t, n, v, false, "")
		typed(t, n, v)
		var pl []string
		var vl []*Val
		paths(v, "", &pl, &vl)
		for i := range pl {
			if vl[i].Kind == datamodel.Kind_Link {
				continue // Get would load it
			}
			if len(pl) > 60 && t.IntN(len(pl)) > 60 {
				continue
			}
			for _, root := range []Node{n, reprOf(n)} {
				x, err := traversal.Get(root, datamodel.ParsePath(pl[i]))
				if err != nil {
					t.Failf("path %q: %v", pl[i], err)
				}
				wantView(t, "path "+pl[i], View(x), vl[i].View())
				t.Count("checked:path")
			}
		}
		if len(v.Vals) > 0 || v.S != "" || len(v.B) > 0 || v.L != nil {
			t.Distinct([]byte(v.Type), []byte(v.View()))
		}
	}
	c.Run("decoded", c.N(18000, 250000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(4) > 0}
		o := g.object()
		if t.IntN(8) == 0 {
			o = g.oddTree()
		}
		raw := Raw(o)
		t.Input(raw)
		full(t, mustParse(t, raw), valOf(o))
		features(t, o, raw)
		t.Sample(2, clip(raw, 200))
	})
	c.Run("large", c.N(14, 240), func(t *T) {
		o := largeObject(t, t.Idx)
		raw := Raw(o)
		t.Input(raw)
		full(t, mustParse(t, raw), valOf(o))
		t.Count("event:large")
	})
	c.Run("decoded-repr", c.N(7000, 100000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		o := g.object()
		raw := Raw(o)
		t.Input(raw)
		n, err := decodeInto(reprProto(o.Kind()), bytes.NewReader(raw))
		if err != nil {
			t.Failf("decode into the representation builder: %v", err)
		}
		v := valOf(o)
		// what the representation builder builds may be at either level, but
		// must be one or the other
		if _, ok := n.(schema.TypedNode); ok {
			contract(t, n, v, false, "")
		} else {
			contract(t, n, v, true, "")
		}
		t.Distinct([]byte("repr"), []byte(v.View()))
	})
	c.Run("assembled", c.N(42000, 500000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(4) > 0}
		typ := schemaTypes[t.Idx%len(schemaTypes)]
		v := genVal(g, typ)
		t.Input([]byte(v.View()))
		a := &asm{g: g, ps: ps, own: true, foreign: true, avoid: true}
		n, err := a.build(ps[typ], v)
		if err != nil {
			t.Failf("building a %s: %v", typ, err)
		}
		full(t, n, v)
		r, err := a.build(ps[typ+"__Repr"], v)
		if err != nil {
			t.Failf("building a %s at representation level: %v", typ, err)
		}
		_, ok := r.(schema.TypedNode)
		contract(t, r, v, !ok, "")
	})
	// all combinations of optional fields
	c.Run("optional", 16*c.N(20, 600), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		v := genVal(g, "Commit")
		w := &Val{Type: v.Type, Kind: v.Kind}
		bit := 0
		for _, f := range schemaSpec["Commit"].fields {
			if f.optional {
				bit++
				if t.Idx>>(bit-1)&1 == 0 {
					continue
				}
			}
			x := v.field(f.name)
			if x == nil {
				x = genVal(g, f.typ)
			}
			x.Opt = f.optional
			w.Keys = append(w.Keys, f.name)
			w.Vals = append(w.Vals, x)
		}
		a := &asm{g: g, ps: ps, own: true, avoid: true}
		n, err := a.build(ps["Commit"], w)
		if err != nil {
			t.Failf("building: %v", err)
		}
		full(t, n, w)
		t.Count(fmt.Sprintf("optional-set:%d", t.Idx%16))
	})
	c.runFindings(map[string]func(*T, []byte) string{
		"negative-index": func(t *T, in []byte) string {
			n := mustParse(t, in)
			return observed(func() error {
				for _, f := range []string{"parents", "mergetag", "other"} {
					for _, root := range []Node{n, reprOf(n)} {
						l, err := root.LookupByString(f)
						must(t, err)
						if x, err := l.LookupByIndex(-1); err == nil {
							t.Failf("LookupByIndex(-1) gave %v", x)
						}
						if x, err := l.LookupBySegment(datamodel.PathSegmentOfString("-1")); err == nil {
							t.Failf("LookupBySegment(-1) gave %v", x)
						}
					}
				}
				return nil
			})
		},
		"tree-key-node": func(t *T, in []byte) string {
			n := mustParse(t, in)
			return observed(func() error {
				for _, root := range []Node{n, reprOf(n)} {
					x, err := root.LookupByNode(basicnode.NewString("a"))
					if err != nil {
						return err
					}
					if x == nil || x.Kind() != datamodel.Kind_Map {
						return errors.New("no entry")
					}
				}
				return nil
			})
		},
	})
}

// observed runs a probe and says whether it went well, failed or panicked.
func observed(f func() error) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if fn, ok := r.(failNow); ok {
				panic(fn)
			}
			s = "panic"
		}
	}()
	if err := f(); err != nil {
		return "error"
	}
	return "ok"
}

// ---------------------------------------------------------------- C19

func c19(c *Ctx) {
	c.Rule = "Assembler call sequences for every prototype (14 types at both levels): values in any key order, keys and values by each call there is, any size hints, parts assigned as nodes of this and other implementations; and the same with one defect at a random depth (a missing required field, an unknown key, a repeated key, a null, a value or key of another kind). Oracle: a separately written model of the schema: no error and exactly the value without a defect, an error with one; builders reused after Reset start afresh and earlier nodes stay as they were. Distinct by type, value and defect; non-trivial: all but scalars without a defect."
	ps := repoProtos()
	level := func(t *T) string { return []string{"", "__Repr"}[t.IntN(2)] }
	outOfTurn(c, ps)
	c.Run("valid", c.N(150000, 1500000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: t.IntN(4) > 0}
		typ := schemaTypes[t.Idx%len(schemaTypes)]
		if t.IntN(3) == 0 {
			typ = "Commit"
		}
		v := genVal(g, typ)
		t.Input([]byte(v.View()))
		lv := level(t)
		a := &asm{g: g, ps: ps, own: t.IntN(2) == 0, foreign: t.IntN(2) == 0, avoid: true}
		n, err := a.build(ps[typ+lv], v)
		if err != nil {
			t.Failf("%s%s: valid value refused: %v", typ, lv, err)
		}
		wantView(t, typ+lv, View(n), v.View())
		wantView(t, typ+lv+" representation", View(reprOf(n)), v.View())
		t.Count("valid:" + typ + lv)
		t.CountN("calls", int64(a.calls))
		if v.Kind == datamodel.Kind_Map || v.Kind == datamodel.Kind_List {
			t.Distinct([]byte(typ), []byte(v.View()))
		}
		t.Sample(2, map[string]any{"type": typ + lv, "value": clip([]byte(v.View()), 200)})
	})
	c.Run("defective", c.N(240000, 2500000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		typ := schemaTypes[t.Idx%len(schemaTypes)]
		if t.IntN(2) == 0 {
			typ = pick(g.Rand, []string{"Commit", "Tag", "Tree"})
		}
		v := genVal(g, typ)
		t.Input([]byte(v.View()))
		d := pickDefect(g, v)
		lv := level(t)
		a := &asm{g: g, ps: ps, own: t.IntN(2) == 0, foreign: t.IntN(2) == 0, avoid: true, defect: d}
		n, err := a.build(ps[typ+lv], v)
		if err == nil {
			t.Failf("%s%s: accepted with the defect %q in a %s: %s", typ, lv, d.kind, d.at.Type, clip([]byte(View(n)), 600))
		}
		if err.Error() == "" {
			t.Failf("%s%s: error without a message", typ, lv)
		}
		t.Count("defect:" + d.kind + ":" + d.at.Type)
		t.Distinct([]byte(d.kind+d.at.Type), []byte(v.View()))
		t.Sample(3, map[string]any{"type": typ + lv, "defect": d.kind + " in " + d.at.Type, "error": err.Error()})
	})
	c.Run("reset", c.N(30000, 300000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		typ := schemaTypes[t.Idx%len(schemaTypes)]
		lv := level(t)
		nb := ps[typ+lv].NewBuilder()
		var nodes []Node
		var views []string
		for k := 2 + t.IntN(5); k > 0; k-- {
			v := genVal(g, typ)
			a := &asm{g: g, ps: ps, own: true, foreign: true, avoid: true}
			if t.IntN(3) == 0 {
				a.defect = pickDefect(g, v)
			}
			err := a.put(nb, v)
			if (err != nil) != (a.defect != nil) {
				t.Failf("%s%s: reused builder: error %v, defect %v", typ, lv, err, a.defect)
			}
			if err == nil {
				n := nb.Build()
				wantView(t, typ+lv+" from a reused builder", View(n), v.View())
				nodes = append(nodes, n)
				views = append(views, v.View())
			}
			nb.Reset()
			for i := range nodes {
				wantView(t, typ+lv+" built before a Reset", View(nodes[i]), views[i])
			}
			t.Count("event:reset")
		}
		if len(views) > 0 {
			t.Distinct([]byte(typ), []byte(strings.Join(views, "|")))
		}
	})
	// every single required field left out, every field repeated, every kind
	// wrong, at both levels, systematically
	type sysCase struct {
		typ, lv string
		kind    string
		i       int
	}
	var sys []sysCase
	for _, typ := range schemaTypes {
		sp := schemaSpec[typ]
		for _, lv := range []string{"", "__Repr"} {
			sys = append(sys, sysCase{typ, lv, "null", 0})
			for i := 0; i < 12; i++ {
				sys = append(sys, sysCase{typ, lv, "kind", i})
			}
			for i, f := range sp.fields {
				sys = append(sys, sysCase{typ, lv, "repeat", i}, sysCase{typ, lv, "unknown", i})
				if !f.optional {
					sys = append(sys, sysCase{typ, lv, "missing", i})
				}
			}
		}
	}
	c.Run("systematic", len(sys)*c.N(10, 200), func(t *T) {
		s := sys[t.Idx%len(sys)]
		g := Gen{Rand: t.Rand, Small: true}
		sp := schemaSpec[s.typ]
		v := &Val{Type: s.typ, Kind: sp.kind}
		if sp.isStruct() {
			for _, f := range sp.fields {
				v.Keys = append(v.Keys, f.name)
				x := genVal(g, f.typ)
				x.Opt = f.optional
				v.Vals = append(v.Vals, x)
			}
		} else {
			v = genVal(g, s.typ)
		}
		a := &asm{g: g, ps: ps, avoid: true, defect: &defect{at: v, kind: s.kind, i: s.i}}
		if n, err := a.build(ps[s.typ+s.lv], v); err == nil {
			t.Failf("%s%s: accepted with %s (%d): %s", s.typ, s.lv, s.kind, s.i, View(n))
		}
		t.Count("systematic:" + s.kind)
		t.Distinct([]byte(fmt.Sprint(s)), []byte(v.View()))
	})
	// every set of fields a struct may be given, at both levels, assembled or
	// assigned: accepted exactly if the required ones are there, and a refusal
	// that lists missing fields lists those
	type setCase struct {
		typ, lv string
		mask    int
		node    bool
	}
	var sets []setCase
	for _, typ := range schemaTypes {
		if sp := schemaSpec[typ]; sp.isStruct() {
			for m := 0; m < 1<<len(sp.fields); m++ {
				for _, lv := range []string{"", "__Repr"} {
					sets = append(sets, setCase{typ, lv, m, false}, setCase{typ, lv, m, true})
				}
			}
		}
	}
	c.Run("field-sets", len(sets)*c.N(3, 60), func(t *T) {
		s := sets[t.Idx%len(sets)]
		g := Gen{Rand: t.Rand, Small: true}
		sp := schemaSpec[s.typ]
		v := &Val{Type: s.typ, Kind: sp.kind}
		want := map[string]bool{}
		for i, f := range sp.fields {
			if s.mask>>i&1 == 0 {
				if !f.optional {
					want[f.name] = true
				}
				continue
			}
			v.Keys = append(v.Keys, f.name)
			x := genVal(g, f.typ)
			x.Opt = f.optional
			v.Vals = append(v.Vals, x)
		}
		t.Input([]byte(v.View()))
		what := fmt.Sprintf("%s%s with the fields %v", s.typ, s.lv, v.Keys)
		a := &asm{g: g, ps: ps, avoid: true}
		var n Node
		var err error
		if s.node {
			if foreignHurts(v) {
				return
			}
			nb := ps[s.typ+s.lv].NewBuilder()
			if err = nb.AssignNode(v.node(t.IntN(2) == 0, a.order)); err == nil {
				n = nb.Build()
			}
		} else {
			n, err = a.build(ps[s.typ+s.lv], v)
		}
		if (err != nil) != (len(want) > 0) {
			t.Failf("%s: error %v, but missing are %v", what, err, sortedKeys(want))
		}
		t.Distinct([]byte(fmt.Sprint(s)), []byte(v.View()))
		if err == nil {
			wantView(t, what, ViewSorted(n), ViewSorted(v.node(false, inOrder)))
			t.Count("field-set:accepted")
			return
		}
		t.Count("field-set:refused")
		var me schema.ErrMissingRequiredField
		if !errors.As(err, &me) {
			return
		}
		got := map[string]bool{}
		for _, m := range me.Missing {
			if !want[m] || got[m] {
				t.Failf("%s: %q is reported as missing", what, m)
			}
			got[m] = true
		}
		for _, m := range sortedKeys(want) {
			if !got[m] {
				t.Failf("%s: %q is not reported as missing, but %v", what, m, me.Missing)
			}
		}
		t.Count("field-set:reported")
	})
	// a node that is assigned fails while it is read: no half of it is taken
	c.Run("failing-source", c.N(6000, 150000), func(t *T) {
		g := Gen{Rand: t.Rand, Small: true}
		typ := schemaTypes[t.Idx%len(schemaTypes)]
		v := genVal(g, typ)
		for foreignHurts(v) && typ != "Tree" || typ == "Tree" && len(v.Vals) == 0 {
			v = genVal(g, typ)
		}
		t.Input([]byte(v.View()))
		lv := level(t)
		p := ps[typ+lv]
		a := &asm{g: g, ps: ps}
		for at := 0; at < 60; at++ {
			if typ == "Tree" && at > 0 { // known finding K12
				break
			}
			src := v.node(t.IntN(2) == 0, a.order)
			ctl := &faultCtl{at: at}
			nb := p.NewBuilder()
			err := nb.AssignNode(&fnode{Node: src, c: ctl})
			if err == nil {
				wantView(t, fmt.Sprintf("%s%s assigned from a node that fails at call %d", typ, lv, at), ViewSorted(nb.Build()), ViewSorted(src))
				t.Count("failing-source:accepted")
			} else {
				t.Count("failing-source:refused")
			}
			if ctl.what == "" {
				break
			}
			if err == nil {
				t.Failf("%s%s: accepted though call %d of the node, a %s, failed", typ, lv, at, ctl.what)
			}
			if !errors.Is(err, errNode) {
				t.Count("failing-source:other-error")
			}
		}
		t.Distinct([]byte(typ+lv), []byte(v.View()))
	})
	c.runFindings(map[string]func(*T, []byte) string{
		"assign-foreign": func(t *T, in []byte) string {
			src, err := decodeIntoAny(t, in)
			must(t, err)
			return observed(func() error {
				for _, lv := range []string{"", "__Repr"} {
					nb := ps[strings.ToUpper(kindOf(in)[:1])+kindOf(in)[1:]+lv].NewBuilder()
					if err := nb.AssignNode(src); err != nil {
						return err
					}
					wantView(t, "assigned", ViewSorted(nb.Build()), ViewSorted(src))
				}
				return nil
			})
		},
		// the input is the text that is assigned once the node is built
		"kept-assembler": func(t *T, in []byte) string {
			nb := ps["PersonInfo__Repr"].NewBuilder()
			ma, err := nb.BeginMap(4)
			must(t, err)
			var kept datamodel.NodeAssembler
			for _, k := range []string{"name", "email", "date", "timezone"} {
				va, err := ma.AssembleEntry(k)
				must(t, err)
				must(t, va.AssignString("x"))
				if k == "name" {
					kept = va
				}
			}
			must(t, ma.Finish())
			n := nb.Build()
			was := View(n)
			s := observed(func() error { return kept.AssignString(string(in)) })
			if View(n) != was {
				return "changed"
			}
			if s == "ok" {
				return "accepted"
			}
			return "ok"
		},
		"repeated-tree-key": func(t *T, in []byte) string {
			nb := ps["Tree"].NewBuilder()
			ma, err := nb.BeginMap(2)
			must(t, err)
			v := genVal(Gen{Rand: t.Rand, Small: true}, "TreeEntry")
			a := &asm{g: Gen{Rand: t.Rand}, ps: ps}
			for i := 0; i < 2; i++ {
				if err := ma.AssembleKey().AssignString(string(in)); err != nil {
					return "ok"
				}
				must(t, a.put(ma.AssembleValue(), v))
			}
			if err := ma.Finish(); err != nil {
				return "ok"
			}
			return "accepted"
		},
	})
}

func decodeIntoAny(t *T, in []byte) (Node, error) {
	n, err := parse(in)
	if err != nil {
		return nil, err
	}
	return remake{t: t}.node(n), nil
}
