package main

import (
	"errors"
	"io"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

// cnode is a map or list node of another implementation than this package's or
// go-ipld-prime's: what a codec user may legitimately hand to the encoder.
type cnode struct {
	isMap bool
	keys  []string
	vals  []Node
	// failAt makes the iterators fail at that entry (-1: never), as a node
	// backed by storage may.
	failAt int
}

var errNode = errors.New("injected node failure")

type cproto struct{}

func (cproto) NewBuilder() datamodel.NodeBuilder { return basicnode.Prototype.Any.NewBuilder() }

func (n *cnode) Kind() datamodel.Kind {
	if n.isMap {
		return datamodel.Kind_Map
	}
	return datamodel.Kind_List
}
func (n *cnode) wrong(m string, k datamodel.KindSet) error {
	return datamodel.ErrWrongKind{TypeName: "cnode", MethodName: m, AppropriateKind: k, ActualKind: n.Kind()}
}
func (n *cnode) LookupByString(key string) (Node, error) {
	if !n.isMap {
		return nil, n.wrong("LookupByString", datamodel.KindSet_JustMap)
	}
	for i, k := range n.keys {
		if k == key {
			return n.vals[i], nil
		}
	}
	return nil, datamodel.ErrNotExists{Segment: datamodel.PathSegmentOfString(key)}
}
func (n *cnode) LookupByNode(key Node) (Node, error) {
	s, err := key.AsString()
	if err != nil {
		return nil, err
	}
	return n.LookupByString(s)
}
func (n *cnode) LookupByIndex(i int64) (Node, error) {
	if n.isMap {
		return nil, n.wrong("LookupByIndex", datamodel.KindSet_JustList)
	}
	if i < 0 || i >= int64(len(n.vals)) {
		return nil, datamodel.ErrNotExists{Segment: datamodel.PathSegmentOfInt(i)}
	}
	return n.vals[i], nil
}
func (n *cnode) LookupBySegment(seg datamodel.PathSegment) (Node, error) {
	if n.isMap {
		return n.LookupByString(seg.String())
	}
	i, err := seg.Index()
	if err != nil {
		return nil, err
	}
	return n.LookupByIndex(i)
}

type citer struct {
	n *cnode
	i int
}

func (n *cnode) MapIterator() datamodel.MapIterator {
	if !n.isMap {
		return nil
	}
	return &citer{n, 0}
}

type cliter struct{ citer }

func (n *cnode) ListIterator() datamodel.ListIterator {
	if n.isMap {
		return nil
	}
	return &cliter{citer{n, 0}}
}
func (it *citer) Done() bool { return it.i >= len(it.n.vals) }
func (it *citer) Next() (Node, Node, error) {
	if it.Done() {
		return nil, nil, datamodel.ErrIteratorOverread{}
	}
	if it.i == it.n.failAt {
		return nil, nil, errNode
	}
	it.i++
	return basicnode.NewString(it.n.keys[it.i-1]), it.n.vals[it.i-1], nil
}
func (it *cliter) Next() (int64, Node, error) {
	if it.Done() {
		return -1, nil, datamodel.ErrIteratorOverread{}
	}
	if it.i == it.n.failAt {
		return -1, nil, errNode
	}
	it.i++
	return int64(it.i - 1), it.n.vals[it.i-1], nil
}
func (n *cnode) Length() int64             { return int64(len(n.vals)) }
func (n *cnode) IsAbsent() bool            { return false }
func (n *cnode) IsNull() bool              { return false }
func (n *cnode) AsBool() (bool, error)     { return false, n.wrong("AsBool", datamodel.KindSet_JustBool) }
func (n *cnode) AsInt() (int64, error)     { return 0, n.wrong("AsInt", datamodel.KindSet_JustInt) }
func (n *cnode) AsFloat() (float64, error) { return 0, n.wrong("AsFloat", datamodel.KindSet_JustFloat) }
func (n *cnode) AsString() (string, error) {
	return "", n.wrong("AsString", datamodel.KindSet_JustString)
}
func (n *cnode) AsBytes() ([]byte, error) {
	return nil, n.wrong("AsBytes", datamodel.KindSet_JustBytes)
}
func (n *cnode) AsLink() (datamodel.Link, error) {
	return nil, n.wrong("AsLink", datamodel.KindSet_JustLink)
}
func (n *cnode) Prototype() datamodel.NodePrototype { return cproto{} }

// remake rebuilds a node in another form. With perm the keys of maps are put in
// a random order, except of maps in keep.
type remake struct {
	t      *T
	perm   bool
	custom bool
}

func (r remake) order(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	if r.perm {
		r.t.Shuffle(n, func(i, j int) { o[i], o[j] = o[j], o[i] })
	}
	return o
}

func (r remake) node(n Node) Node {
	switch n.Kind() {
	case datamodel.Kind_Map:
		var ks []string
		var vs []Node
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				r.t.Failf("iterating: %v", err)
			}
			if v.IsAbsent() {
				continue
			}
			s, err := k.AsString()
			if err != nil {
				r.t.Failf("key: %v", err)
			}
			ks = append(ks, s)
			vs = append(vs, r.node(v))
		}
		o := r.order(len(ks))
		c := &cnode{isMap: true, failAt: -1}
		for _, i := range o {
			c.keys = append(c.keys, ks[i])
			c.vals = append(c.vals, vs[i])
		}
		if r.custom {
			return c
		}
		return genericMap(r.t, c.keys, c.vals)
	case datamodel.Kind_List:
		c := &cnode{failAt: -1}
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				r.t.Failf("iterating: %v", err)
			}
			c.vals = append(c.vals, r.node(v))
		}
		if r.custom {
			return c
		}
		return genericList(r.t, c.vals)
	default:
		return scalarCopy(r.t, n)
	}
}

func must(t *T, err error) {
	if err != nil {
		if t == nil {
			panic(err)
		}
		t.Failf("%v", err)
	}
}

func genericMap(t *T, ks []string, vs []Node) Node {
	nb := basicnode.Prototype.Map.NewBuilder()
	ma, err := nb.BeginMap(int64(len(ks)))
	must(t, err)
	for i := range ks {
		a, err := ma.AssembleEntry(ks[i])
		must(t, err)
		must(t, a.AssignNode(vs[i]))
	}
	must(t, ma.Finish())
	return nb.Build()
}

func genericList(t *T, vs []Node) Node {
	nb := basicnode.Prototype.List.NewBuilder()
	la, err := nb.BeginList(int64(len(vs)))
	must(t, err)
	for i := range vs {
		must(t, la.AssembleValue().AssignNode(vs[i]))
	}
	must(t, la.Finish())
	return nb.Build()
}

func scalarCopy(t *T, n Node) Node {
	switch n.Kind() {
	case datamodel.Kind_String:
		s, err := n.AsString()
		must(t, err)
		return basicnode.NewString(s)
	case datamodel.Kind_Bytes:
		b, err := n.AsBytes()
		must(t, err)
		return basicnode.NewBytes(append([]byte{}, b...))
	case datamodel.Kind_Link:
		l, err := n.AsLink()
		must(t, err)
		return basicnode.NewLink(l)
	}
	return n
}

// readers that hand out the same bytes in different ways

type chunkReader struct {
	b    []byte
	next func() int // how many bytes to offer next; 0 means an empty read
	eof  bool       // deliver EOF together with the last bytes
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	k := r.next()
	if k > len(p) {
		k = len(p)
	}
	n := copy(p[:k], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.eof {
		return n, io.EOF
	}
	return n, nil
}

// faultCtl counts the fallible calls made on a node and fails one of them.
type faultCtl struct {
	calls, at int // at < 0: never
	what      string
}

func (c *faultCtl) hit(what string) bool {
	c.calls++
	if c.calls-1 == c.at {
		c.what = what
		return true
	}
	return false
}

// fnode is a node whose content comes from storage that may fail: the call
// numbered at to the node or any part of it returns an error. With keep it
// claims the prototype of the node it stands for.
type fnode struct {
	Node
	c    *faultCtl
	keep bool
}

func (f *fnode) wrap(n Node, err error) (Node, error) {
	if err != nil || n == nil || n.IsNull() || n.IsAbsent() {
		return n, err
	}
	return &fnode{n, f.c, f.keep}, nil
}
func (f *fnode) LookupByString(k string) (Node, error) {
	if f.c.hit("lookup " + k) {
		return nil, errNode
	}
	return f.wrap(f.Node.LookupByString(k))
}
func (f *fnode) LookupByNode(k Node) (Node, error) {
	if f.c.hit("lookup by node") {
		return nil, errNode
	}
	if w, ok := k.(*fnode); ok {
		k = w.Node
	}
	return f.wrap(f.Node.LookupByNode(k))
}
func (f *fnode) LookupByIndex(i int64) (Node, error) {
	if f.c.hit("lookup by index") {
		return nil, errNode
	}
	return f.wrap(f.Node.LookupByIndex(i))
}
func (f *fnode) LookupBySegment(s datamodel.PathSegment) (Node, error) {
	if f.c.hit("lookup by segment") {
		return nil, errNode
	}
	return f.wrap(f.Node.LookupBySegment(s))
}

type fmapIter struct {
	datamodel.MapIterator
	f *fnode
}

func (it fmapIter) Next() (Node, Node, error) {
	if it.f.c.hit("next of a map") {
		return nil, nil, errNode
	}
	k, v, err := it.MapIterator.Next()
	if err != nil {
		return k, v, err
	}
	v, err = it.f.wrap(v, nil)
	return &fnode{k, it.f.c, it.f.keep}, v, err
}

type flistIter struct {
	datamodel.ListIterator
	f *fnode
}

func (it flistIter) Next() (int64, Node, error) {
	if it.f.c.hit("next of a list") {
		return -1, nil, errNode
	}
	i, v, err := it.ListIterator.Next()
	if err != nil {
		return i, v, err
	}
	v, err = it.f.wrap(v, nil)
	return i, v, err
}

func (f *fnode) MapIterator() datamodel.MapIterator {
	it := f.Node.MapIterator()
	if it == nil {
		return nil
	}
	return fmapIter{it, f}
}
func (f *fnode) ListIterator() datamodel.ListIterator {
	it := f.Node.ListIterator()
	if it == nil {
		return nil
	}
	return flistIter{it, f}
}
func (f *fnode) AsString() (string, error) {
	if f.c.hit("string") {
		return "", errNode
	}
	return f.Node.AsString()
}
func (f *fnode) AsBytes() ([]byte, error) {
	if f.c.hit("bytes") {
		return nil, errNode
	}
	return f.Node.AsBytes()
}
func (f *fnode) AsLink() (datamodel.Link, error) {
	if f.c.hit("link") {
		return nil, errNode
	}
	return f.Node.AsLink()
}
func (f *fnode) Prototype() datamodel.NodePrototype {
	if f.keep {
		return f.Node.Prototype()
	}
	return cproto{}
}

// fasm is an assembler that may fail, such as one with a budget or one that
// writes to storage. With deep it takes nodes apart itself.
type fasm struct {
	datamodel.NodeAssembler
	c    *faultCtl
	deep bool
}

func (f *fasm) sub(a datamodel.NodeAssembler) datamodel.NodeAssembler { return &fasm{a, f.c, f.deep} }

func (f *fasm) AssignNode(n Node) error {
	if f.c.hit("assign node") {
		return errNode
	}
	if f.deep {
		return datamodel.Copy(n, f)
	}
	return f.NodeAssembler.AssignNode(n)
}
func (f *fasm) AssignNull() error {
	if f.c.hit("assign null") {
		return errNode
	}
	return f.NodeAssembler.AssignNull()
}
func (f *fasm) AssignString(s string) error {
	if f.c.hit("assign string") {
		return errNode
	}
	return f.NodeAssembler.AssignString(s)
}
func (f *fasm) AssignBytes(b []byte) error {
	if f.c.hit("assign bytes") {
		return errNode
	}
	return f.NodeAssembler.AssignBytes(b)
}
func (f *fasm) AssignLink(l datamodel.Link) error {
	if f.c.hit("assign link") {
		return errNode
	}
	return f.NodeAssembler.AssignLink(l)
}

type fmapAsm struct {
	datamodel.MapAssembler
	f *fasm
}

func (f *fasm) BeginMap(n int64) (datamodel.MapAssembler, error) {
	if f.c.hit("begin map") {
		return nil, errNode
	}
	ma, err := f.NodeAssembler.BeginMap(n)
	return fmapAsm{ma, f}, err
}
func (m fmapAsm) AssembleKey() datamodel.NodeAssembler { return m.f.sub(m.MapAssembler.AssembleKey()) }
func (m fmapAsm) AssembleValue() datamodel.NodeAssembler {
	return m.f.sub(m.MapAssembler.AssembleValue())
}
func (m fmapAsm) AssembleEntry(k string) (datamodel.NodeAssembler, error) {
	if m.f.c.hit("assemble entry") {
		return nil, errNode
	}
	a, err := m.MapAssembler.AssembleEntry(k)
	if err != nil {
		return nil, err
	}
	return m.f.sub(a), nil
}
func (m fmapAsm) Finish() error {
	if m.f.c.hit("finish map") {
		return errNode
	}
	return m.MapAssembler.Finish()
}

type flistAsm struct {
	datamodel.ListAssembler
	f *fasm
}

func (f *fasm) BeginList(n int64) (datamodel.ListAssembler, error) {
	if f.c.hit("begin list") {
		return nil, errNode
	}
	la, err := f.NodeAssembler.BeginList(n)
	return flistAsm{la, f}, err
}
func (l flistAsm) AssembleValue() datamodel.NodeAssembler {
	return l.f.sub(l.ListAssembler.AssembleValue())
}
func (l flistAsm) Finish() error {
	if l.f.c.hit("finish list") {
		return errNode
	}
	return l.ListAssembler.Finish()
}
