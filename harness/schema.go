package main

import (
	"fmt"
	"sort"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	mh "github.com/multiformats/go-multihash"
)

// The documented schema, written down a second time.

type fieldSpec struct {
	name, typ string
	optional  bool
}

type typeSpec struct {
	kind   datamodel.Kind
	fields []fieldSpec // structs
	elem   string      // lists and maps
}

var schemaSpec = map[string]*typeSpec{
	"String":           {kind: datamodel.Kind_String},
	"GpgSig":           {kind: datamodel.Kind_String},
	"Link":             {kind: datamodel.Kind_Link},
	"Tree_Link":        {kind: datamodel.Kind_Link},
	"Commit_Link":      {kind: datamodel.Kind_Link},
	"Blob":             {kind: datamodel.Kind_Bytes},
	"String_List":      {kind: datamodel.Kind_List, elem: "String"},
	"Tag_List":         {kind: datamodel.Kind_List, elem: "Tag"},
	"Commit_Link_List": {kind: datamodel.Kind_List, elem: "Commit_Link"},
	"Tree":             {kind: datamodel.Kind_Map, elem: "TreeEntry"},
	"PersonInfo":       {kind: datamodel.Kind_Map, fields: []fieldSpec{{"date", "String", false}, {"timezone", "String", false}, {"email", "String", false}, {"name", "String", false}}},
	"TreeEntry":        {kind: datamodel.Kind_Map, fields: []fieldSpec{{"mode", "String", false}, {"hash", "Link", false}}},
	"Tag":              {kind: datamodel.Kind_Map, fields: []fieldSpec{{"object", "Link", false}, {"type", "String", false}, {"tag", "String", false}, {"tagger", "PersonInfo", false}, {"message", "String", false}}},
	"Commit": {kind: datamodel.Kind_Map, fields: []fieldSpec{{"tree", "Tree_Link", false}, {"parents", "Commit_Link_List", false}, {"message", "String", false},
		{"author", "PersonInfo", true}, {"committer", "PersonInfo", true}, {"encoding", "String", true}, {"signature", "GpgSig", true},
		{"mergetag", "Tag_List", false}, {"other", "String_List", false}}},
}

var schemaTypes = func() []string {
	var s []string
	for k := range schemaSpec {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}()

func (s *typeSpec) isStruct() bool { return s.fields != nil }

// protoSet are the prototypes of one implementation of the schema, by type
// name, with "__Repr" appended for the representation level.
type protoSet map[string]datamodel.NodePrototype

func repoProtos() protoSet {
	m := protoSet{}
	for _, p := range allProtos() {
		m[p.Name] = p.P
	}
	return m
}

// Val is a value of the data model.
type Val struct {
	Type string
	Kind datamodel.Kind
	S    string
	B    []byte
	L    datamodel.Link
	Keys []string
	Vals []*Val
	Opt  bool // value of an optional field
}

func (v *Val) field(k string) *Val {
	for i, n := range v.Keys {
		if n == k {
			return v.Vals[i]
		}
	}
	return nil
}

func anyLink(g Gen) datamodel.Link {
	if g.p(85) {
		return gitLink(g.sha())
	}
	h, _ := mh.Sum([]byte(g.word()), mh.SHA2_256, -1)
	return cidlink.Link{Cid: cid.NewCidV1(pick(g.Rand, []uint64{cid.Raw, cid.DagCBOR, cid.GitRaw}), h)}
}

func (g Gen) text() string {
	switch g.IntN(8) {
	case 0:
		return ""
	case 1:
		return g.message()
	case 2:
		return pick(g.Rand, []string{"tree", "message", "\x00", "\xff\xfe", "-1", "0", "a/b", "%s%n", "\n"})
	}
	return g.line(g.length())
}

// genVal draws a value of a schema type.
func genVal(g Gen, typ string) *Val {
	sp := schemaSpec[typ]
	v := &Val{Type: typ, Kind: sp.kind}
	switch {
	case sp.isStruct():
		for _, f := range sp.fields {
			if f.optional && g.p(45) {
				continue
			}
			v.Keys = append(v.Keys, f.name)
			x := genVal(g, f.typ)
			x.Opt = f.optional
			v.Vals = append(v.Vals, x)
		}
	case sp.kind == datamodel.Kind_Map:
		n := g.count(6, 60)
		seen := map[string]bool{}
		for len(v.Keys) < n {
			k := g.text()
			if g.p(30) {
				k = fmt.Sprint(k, g.IntN(1000))
			}
			if seen[k] {
				if n--; n == 0 {
					break
				}
				continue
			}
			seen[k] = true
			v.Keys = append(v.Keys, k)
			v.Vals = append(v.Vals, genVal(g, sp.elem))
		}
	case sp.kind == datamodel.Kind_List:
		for i := g.count(5, 50); i > 0; i-- {
			v.Vals = append(v.Vals, genVal(g, sp.elem))
		}
	case sp.kind == datamodel.Kind_String:
		v.S = g.text()
	case sp.kind == datamodel.Kind_Bytes:
		v.B = []byte(g.text())
	case sp.kind == datamodel.Kind_Link:
		v.L = anyLink(g)
	}
	return v
}

func (v *Val) view(w *viewer) {
	switch v.Kind {
	case datamodel.Kind_String:
		w.str(v.S)
	case datamodel.Kind_Bytes:
		w.bytes(v.B)
	case datamodel.Kind_Link:
		w.link(v.L)
	case datamodel.Kind_List:
		w.sb.WriteByte('[')
		for _, x := range v.Vals {
			x.view(w)
		}
		w.sb.WriteByte(']')
	case datamodel.Kind_Map:
		w.sb.WriteByte('{')
		for i, x := range v.Vals {
			w.str(v.Keys[i])
			x.view(w)
		}
		w.sb.WriteByte('}')
	}
}

func (v *Val) View() string {
	w := viewer{}
	v.view(&w)
	return w.sb.String()
}

// node turns the value into a node of another implementation.
func (v *Val) node(custom bool, r func(n int) []int) Node {
	switch v.Kind {
	case datamodel.Kind_String:
		return basicnode.NewString(v.S)
	case datamodel.Kind_Bytes:
		return basicnode.NewBytes(append([]byte{}, v.B...))
	case datamodel.Kind_Link:
		return basicnode.NewLink(v.L)
	case datamodel.Kind_List:
		c := &cnode{failAt: -1}
		for _, x := range v.Vals {
			c.vals = append(c.vals, x.node(custom, r))
		}
		if custom {
			return c
		}
		return genericList(nil, c.vals)
	case datamodel.Kind_Map:
		c := &cnode{isMap: true, failAt: -1}
		for _, i := range r(len(v.Vals)) {
			c.keys = append(c.keys, v.Keys[i])
			c.vals = append(c.vals, v.Vals[i].node(custom, r))
		}
		if custom {
			return c
		}
		return genericMap(nil, c.keys, c.vals)
	}
	return datamodel.Null
}

func inOrder(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

// defect is one mistake in a sequence of assembler calls.
type defect struct {
	at   *Val
	kind string // missing, unknown, repeat, null, kind, key-kind
	i    int    // which entry
}

// pickDefect draws a defect for a place in the value.
func pickDefect(g Gen, root *Val) *defect {
	var all []*Val
	var walk func(v *Val)
	walk = func(v *Val) {
		all = append(all, v)
		for _, x := range v.Vals {
			walk(x)
		}
	}
	walk(root)
	d := &defect{at: pick(g.Rand, all)}
	if g.p(40) {
		d.at = root
	}
	sp := schemaSpec[d.at.Type]
	ks := []string{"null", "kind"}
	if sp.kind == datamodel.Kind_Map {
		ks = append(ks, "key-kind")
		if len(d.at.Keys) > 0 {
			ks = append(ks, "repeat", "repeat")
		}
		if sp.isStruct() {
			ks = append(ks, "missing", "missing", "missing", "unknown", "unknown")
		}
	}
	d.kind = pick(g.Rand, ks)
	if len(d.at.Keys) > 0 {
		d.i = g.IntN(len(d.at.Keys))
	}
	if d.kind == "missing" {
		var req []int
		for i, k := range d.at.Keys {
			for _, f := range sp.fields {
				if f.name == k && !f.optional {
					req = append(req, i)
				}
			}
		}
		d.i = pick(g.Rand, req)
	}
	return d
}

// asm drives an assembler through the calls that make up a value, in a random
// one of the styles the interface allows.
type asm struct {
	g      Gen
	ps     protoSet
	defect *defect
	// own says whether values may be assigned as ready-made nodes of the
	// implementation itself, foreign of other implementations.
	own, foreign bool
	// plain excludes what the known findings K6, K12 and K13 are about.
	avoid bool
	calls int
	log   func(string)
}

func (a *asm) contains(v *Val) bool {
	if a.defect == nil {
		return false
	}
	if a.defect.at == v {
		return true
	}
	for _, x := range v.Vals {
		if a.contains(x) {
			return true
		}
	}
	return false
}

func (a *asm) order(n int) []int {
	o := inOrder(n)
	a.g.Shuffle(n, func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

func (a *asm) build(p datamodel.NodePrototype, v *Val) (Node, error) {
	nb := p.NewBuilder()
	if err := a.put(nb, v); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

// wrong assigns something of another kind.
func (a *asm) wrong(na datamodel.NodeAssembler, k datamodel.Kind) error {
	kinds := []datamodel.Kind{datamodel.Kind_Bool, datamodel.Kind_Int, datamodel.Kind_Float, datamodel.Kind_String, datamodel.Kind_Bytes, datamodel.Kind_Link, datamodel.Kind_List, datamodel.Kind_Map}
	w := pick(a.g.Rand, kinds)
	for w == k {
		w = pick(a.g.Rand, kinds)
	}
	node := a.g.p(40)
	var n Node
	switch w {
	case datamodel.Kind_Bool:
		n = basicnode.NewBool(true)
		if !node {
			return na.AssignBool(true)
		}
	case datamodel.Kind_Int:
		n = basicnode.NewInt(7)
		if !node {
			return na.AssignInt(7)
		}
	case datamodel.Kind_Float:
		n = basicnode.NewFloat(1.5)
		if !node {
			return na.AssignFloat(1.5)
		}
	case datamodel.Kind_String:
		n = basicnode.NewString("x")
		if !node {
			return na.AssignString("x")
		}
	case datamodel.Kind_Bytes:
		n = basicnode.NewBytes([]byte("x"))
		if !node {
			return na.AssignBytes([]byte("x"))
		}
	case datamodel.Kind_Link:
		n = basicnode.NewLink(gitLink(Sha{1}))
		if !node {
			return na.AssignLink(gitLink(Sha{1}))
		}
	case datamodel.Kind_List:
		n = genericList(nil, []Node{basicnode.NewString("x")})
		if !node {
			_, err := na.BeginList(int64(a.g.IntN(3)) - 1)
			return err
		}
	case datamodel.Kind_Map:
		n = genericMap(nil, []string{"x"}, []Node{basicnode.NewString("x")})
		if !node {
			_, err := na.BeginMap(int64(a.g.IntN(3)) - 1)
			return err
		}
	}
	return na.AssignNode(n)
}

func (a *asm) hint(n int) int64 {
	switch a.g.IntN(5) {
	case 0:
		return -1
	case 1:
		return 0
	case 2:
		return int64(n + 3)
	case 3:
		return int64(n / 2)
	}
	return int64(n)
}

func (a *asm) put(na datamodel.NodeAssembler, v *Val) error {
	a.calls++
	d := a.defect
	here := d != nil && d.at == v
	if here && d.kind == "null" {
		if a.g.p(50) {
			return na.AssignNode(datamodel.Null)
		}
		return na.AssignNull()
	}
	if here && d.kind == "kind" {
		return a.wrong(na, v.Kind)
	}
	inside := a.contains(v)
	if a.own && !inside && a.g.p(20) {
		p := a.ps[v.Type]
		if a.g.p(30) && v.Kind != datamodel.Kind_Map && v.Kind != datamodel.Kind_List {
			p = a.ps[v.Type+"__Repr"]
		}
		n, err := a.build(p, v)
		if err != nil {
			return err
		}
		return na.AssignNode(n)
	}
	if a.foreign && !inside && a.g.p(20) && !(a.avoid && foreignHurts(v)) {
		return na.AssignNode(v.node(a.g.p(50), a.order))
	}
	if a.foreign && inside && d.kind != "key-kind" && a.g.p(15) && !(a.avoid && foreignHurts(v)) {
		return na.AssignNode(a.badNode(v))
	}
	switch v.Kind {
	case datamodel.Kind_String:
		return na.AssignString(v.S)
	case datamodel.Kind_Bytes:
		return na.AssignBytes(v.B)
	case datamodel.Kind_Link:
		return na.AssignLink(v.L)
	case datamodel.Kind_List:
		la, err := na.BeginList(a.hint(len(v.Vals)))
		if err != nil {
			return err
		}
		for _, x := range v.Vals {
			if err := a.put(la.AssembleValue(), x); err != nil {
				return err
			}
		}
		return la.Finish()
	case datamodel.Kind_Map:
		sp := schemaSpec[v.Type]
		ma, err := na.BeginMap(a.hint(len(v.Vals)))
		if err != nil {
			return err
		}
		o := inOrder(len(v.Vals))
		if sp.isStruct() {
			o = a.order(len(v.Vals))
		}
		at := 0
		if here && len(o) > 0 {
			at = a.g.IntN(len(o) + 1)
		}
		for j, i := range o {
			if here && j == at {
				if done, err := a.badKey(ma, v, o[:j]); done {
					return err
				}
			}
			if here && d.kind == "missing" && i == d.i {
				continue
			}
			va, err := a.key(ma, v.Keys[i], false)
			if err != nil {
				return err
			}
			if err := a.put(va, v.Vals[i]); err != nil {
				return err
			}
		}
		if here && at == len(o) {
			if done, err := a.badKey(ma, v, o); done {
				return err
			}
		}
		return ma.Finish()
	}
	return fmt.Errorf("harness: kind %v", v.Kind)
}

// badNode is a node of another implementation with the defect in it.
func (a *asm) badNode(v *Val) Node {
	if !a.contains(v) {
		return v.node(true, a.order)
	}
	d := a.defect
	here := d.at == v
	if here && d.kind == "null" {
		return datamodel.Null
	}
	if here && d.kind == "kind" {
		if v.Kind == datamodel.Kind_String {
			return basicnode.NewBytes([]byte("x"))
		}
		return pick(a.g.Rand, []Node{basicnode.NewString("x"), basicnode.NewInt(1), basicnode.NewBool(false)})
	}
	c := &cnode{isMap: v.Kind == datamodel.Kind_Map, failAt: -1}
	for _, i := range a.order(len(v.Vals)) {
		if here && d.kind == "missing" && i == d.i {
			continue
		}
		c.vals = append(c.vals, a.badNode(v.Vals[i]))
		if c.isMap {
			c.keys = append(c.keys, v.Keys[i])
		}
	}
	if here && (d.kind == "unknown" || d.kind == "repeat") {
		k, x := "unknown", Node(basicnode.NewString("x"))
		if d.kind == "repeat" {
			k, x = v.Keys[d.i], v.Vals[d.i].node(true, a.order)
		}
		at := a.g.IntN(len(c.vals) + 1)
		c.keys = append(c.keys[:at:at], append([]string{k}, c.keys[at:]...)...)
		c.vals = append(c.vals[:at:at], append([]Node{x}, c.vals[at:]...)...)
	}
	return c
}

// badKey makes the mistake at a key, if that is the defect. so are the entries
// written so far.
func (a *asm) badKey(ma datamodel.MapAssembler, v *Val, so []int) (bool, error) {
	switch a.defect.kind {
	case "unknown":
		k := pick(a.g.Rand, []string{"", "x", "Tree", "tree ", "messages", "names", "typ", "0", "Message", "parent", "gpgsig", "author\x00", "tagger2"})
		va, err := a.key(ma, k, false)
		if err != nil {
			return true, err
		}
		if err := va.AssignString("x"); err != nil {
			return true, err
		}
	case "repeat":
		if len(so) == 0 {
			// nothing to repeat yet: write one first
			i := a.defect.i
			va, err := a.key(ma, v.Keys[i], false)
			if err != nil {
				return true, err
			}
			if err := a.put(va, v.Vals[i]); err != nil {
				return true, err
			}
			so = []int{i}
		}
		i := pick(a.g.Rand, so)
		va, err := a.key(ma, v.Keys[i], a.avoid && v.Type == "Tree")
		if err != nil {
			return true, err
		}
		if err := a.put(va, v.Vals[i]); err != nil {
			return true, err
		}
		return true, nil
	case "key-kind":
		ka := ma.AssembleKey()
		if a.g.p(30) {
			return true, ka.AssignNull()
		}
		if err := a.wrong(ka, datamodel.Kind_String); err != nil {
			return true, err
		}
	default:
		return false, nil
	}
	return true, nil
}

// key opens an entry in one of the ways there are.
func (a *asm) key(ma datamodel.MapAssembler, k string, entry bool) (datamodel.NodeAssembler, error) {
	a.calls++
	r := a.g.IntN(4)
	if entry {
		r = 0
	}
	switch r {
	case 0, 1:
		return ma.AssembleEntry(k)
	case 2:
		if err := ma.AssembleKey().AssignString(k); err != nil {
			return nil, err
		}
	default:
		var n Node = basicnode.NewString(k)
		if a.own && a.g.p(50) {
			nb := a.ps["String"].NewBuilder()
			if err := nb.AssignString(k); err != nil {
				return nil, err
			}
			n = nb.Build()
		}
		if err := ma.AssembleKey().AssignNode(n); err != nil {
			return nil, err
		}
	}
	return ma.AssembleValue(), nil
}

// foreignHurts says whether assigning the value as a node of another
// implementation runs into the known findings K6 or K12.
func foreignHurts(v *Val) bool {
	return v.Type == "Tree" && len(v.Vals) > 0 || v.Type == "Commit" && (v.field("author") != nil || v.field("committer") != nil) || v.Type == "PersonInfo" && v.Opt
}

var _ = ipldgit.Type
