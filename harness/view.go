package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mh "github.com/multiformats/go-multihash"
)

// A view is a canonical text of a data-model value. Views of nodes are made by
// walking the node through its public interface; views of models are written
// from the model. Two values are equal exactly if their views are.

type viewer struct {
	sb   strings.Builder
	sort bool // sort map keys (data equality across codecs that sort)
}

func (v *viewer) str(s string) {
	v.sb.WriteByte('s')
	v.sb.WriteString(strconv.Itoa(len(s)))
	v.sb.WriteByte(':')
	v.sb.WriteString(s)
}
func (v *viewer) bytes(b []byte) {
	v.sb.WriteByte('b')
	v.sb.WriteString(strconv.Itoa(len(b)))
	v.sb.WriteByte(':')
	v.sb.Write(b)
}
func (v *viewer) link(l datamodel.Link) {
	v.sb.WriteByte('l')
	cl, ok := l.(cidlink.Link)
	switch {
	case l == nil:
		v.sb.WriteString("nil")
	case !ok:
		fmt.Fprintf(&v.sb, "%T:%s", l, l.String())
	case !cl.Cid.Defined():
		v.sb.WriteString("undef")
	default:
		v.sb.WriteString(hex.EncodeToString(cl.Cid.Bytes()))
	}
	v.sb.WriteByte(';')
}

func (v *viewer) node(n datamodel.Node, depth int) {
	if n == nil {
		v.sb.WriteString("!nilnode")
		return
	}
	if depth > 64 {
		v.sb.WriteString("!deep")
		return
	}
	fail := func(what string, err error) { fmt.Fprintf(&v.sb, "!%s(%v)", what, err) }
	if n.IsAbsent() {
		v.sb.WriteString("absent")
		return
	}
	switch n.Kind() {
	case datamodel.Kind_Null:
		v.sb.WriteString("null")
	case datamodel.Kind_Bool:
		b, err := n.AsBool()
		if err != nil {
			fail("bool", err)
		}
		fmt.Fprintf(&v.sb, "t%v", b)
	case datamodel.Kind_Int:
		b, err := n.AsInt()
		if err != nil {
			fail("int", err)
		}
		fmt.Fprintf(&v.sb, "i%d;", b)
	case datamodel.Kind_Float:
		b, err := n.AsFloat()
		if err != nil {
			fail("float", err)
		}
		fmt.Fprintf(&v.sb, "f%v;", b)
	case datamodel.Kind_String:
		s, err := n.AsString()
		if err != nil {
			fail("string", err)
		}
		v.str(s)
	case datamodel.Kind_Bytes:
		b, err := n.AsBytes()
		if err != nil {
			fail("bytes", err)
		}
		v.bytes(b)
	case datamodel.Kind_Link:
		l, err := n.AsLink()
		if err != nil {
			fail("link", err)
		}
		v.link(l)
	case datamodel.Kind_List:
		v.sb.WriteByte('[')
		it := n.ListIterator()
		if it == nil {
			fail("listiter", nil)
			return
		}
		cnt := int64(0)
		for !it.Done() {
			i, e, err := it.Next()
			if err != nil {
				fail("next", err)
				break
			}
			if i != cnt {
				fail("index", fmt.Errorf("%d at %d", i, cnt))
			}
			v.node(e, depth+1)
			cnt++
		}
		if l := n.Length(); l != cnt {
			fail("length", fmt.Errorf("%d, iterated %d", l, cnt))
		}
		v.sb.WriteByte(']')
	case datamodel.Kind_Map:
		v.sb.WriteByte('{')
		it := n.MapIterator()
		if it == nil {
			fail("mapiter", nil)
			return
		}
		cnt := int64(0)
		var parts []string
		for !it.Done() {
			k, e, err := it.Next()
			if err != nil {
				fail("next", err)
				break
			}
			cnt++
			if e.IsAbsent() {
				continue
			}
			s, err := k.AsString()
			if err != nil {
				fail("key", err)
				break
			}
			if v.sort {
				x := viewer{sort: true}
				x.str(s)
				x.node(e, depth+1)
				parts = append(parts, x.sb.String())
				continue
			}
			v.str(s)
			v.node(e, depth+1)
		}
		sort.Strings(parts)
		for _, p := range parts {
			v.sb.WriteString(p)
		}
		if l := n.Length(); l != cnt {
			fail("length", fmt.Errorf("%d, iterated %d", l, cnt))
		}
		v.sb.WriteByte('}')
	default:
		fmt.Fprintf(&v.sb, "!kind%v", n.Kind())
	}
}

// View walks a node completely.
func View(n datamodel.Node) string {
	v := viewer{}
	v.node(n, 0)
	return v.sb.String()
}

// ViewSorted is View with map keys sorted.
func ViewSorted(n datamodel.Node) string {
	v := viewer{sort: true}
	v.node(n, 0)
	return v.sb.String()
}

func gitCid(sha [20]byte) cid.Cid {
	h, err := mh.Encode(sha[:], mh.SHA1)
	if err != nil {
		panic(err)
	}
	return cid.NewCidV1(cid.GitRaw, h)
}
func gitLink(sha [20]byte) cidlink.Link { return cidlink.Link{Cid: gitCid(sha)} }

func cidOf(b []byte) cid.Cid { return gitCid(sha1.Sum(b)) }

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("first difference at byte %d: got %s want %s", i, clip([]byte(a[lo:]), 160), clip([]byte(b[lo:]), 160))
}

func wantBytes(t *T, what string, got, want []byte) {
	if !bytes.Equal(got, want) {
		t.Failf("%s: %d bytes, want %d: %s", what, len(got), len(want), diffAt(string(got), string(want)))
	}
}
func wantView(t *T, what string, got, want string) {
	if got != want {
		t.Failf("%s: %s", what, diffAt(got, want))
	}
}
