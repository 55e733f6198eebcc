package main

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
)

type Node = datamodel.Node

var gitLinkProto = cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: cid.GitRaw, MhType: 0x11, MhLength: 20}}

func typedProto(kind string) datamodel.NodePrototype {
	switch kind {
	case "blob":
		return ipldgit.Type.Blob
	case "tree":
		return ipldgit.Type.Tree
	case "commit":
		return ipldgit.Type.Commit
	case "tag":
		return ipldgit.Type.Tag
	}
	return basicnode.Prototype.Any
}

func reprProto(kind string) datamodel.NodePrototype {
	switch kind {
	case "blob":
		return ipldgit.Type.Blob__Repr
	case "tree":
		return ipldgit.Type.Tree__Repr
	case "commit":
		return ipldgit.Type.Commit__Repr
	case "tag":
		return ipldgit.Type.Tag__Repr
	}
	return basicnode.Prototype.Any
}

func kindOf(raw []byte) string {
	k, _, _ := bytes.Cut(raw, []byte(" "))
	switch s := string(k); s {
	case "blob", "tree", "commit", "tag":
		return s
	}
	return "?"
}

func kindDecoder(kind string) func(datamodel.NodeAssembler, *bufio.Reader) error {
	switch kind {
	case "blob":
		return ipldgit.DecodeBlob
	case "tree":
		return ipldgit.DecodeTree
	case "commit":
		return ipldgit.DecodeCommit
	case "tag":
		return ipldgit.DecodeTag
	}
	return nil
}

func deflate(b []byte, level int) []byte {
	var w bytes.Buffer
	zw, err := zlib.NewWriterLevel(&w, level)
	if err != nil {
		panic(err)
	}
	zw.Write(b)
	zw.Close()
	return w.Bytes()
}

func reprOf(n Node) Node {
	if tn, ok := n.(schema.TypedNode); ok {
		return tn.Representation()
	}
	return n
}

func decodeInto(p datamodel.NodePrototype, r io.Reader) (Node, error) {
	nb := p.NewBuilder()
	if err := ipldgit.Decode(nb, r); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

// parse is the plain entry point. Its result is checked for the nil-node
// mistakes no caller could survive.
func parse(raw []byte) (Node, error) {
	n, err := ipldgit.ParseObjectFromBuffer(raw)
	if err == nil && n == nil {
		return nil, errors.New("harness: nil node without an error")
	}
	return n, err
}

// parseVia is parse through one of the entry points in turn. All of them give
// the package's own nodes.
func parseVia(t *T, raw []byte) (Node, error) {
	t.calls++
	n, err := (Node)(nil), error(nil)
	k := (t.Idx + 5*t.calls) % 16
	name := "ParseObjectFromBuffer"
	switch {
	case k < 8:
		n, err = ipldgit.ParseObjectFromBuffer(raw)
	case k == 8 && len(raw) < 1<<16:
		name = "ParseCompressedObject"
		n, err = ipldgit.ParseCompressedObject(bytes.NewReader(deflate(raw, 1)))
	case k == 9:
		name = "DecodeBlock"
		b, _ := blocks.NewBlockWithCid(raw, cidOf(raw))
		n, err = ipldgit.DecodeBlock(b)
	case k == 10 && len(raw) < 1<<16:
		name = "ParseObject bytewise"
		n, err = ipldgit.ParseObject(&chunkReader{b: raw, next: func() int { return 1 }})
	case k < 13:
		name = "Decode"
		n, err = decodeInto(typedProto(kindOf(raw)), bytes.NewReader(raw))
	case k == 13:
		name = "Decode repr"
		n, err = decodeInto(reprProto(kindOf(raw)), bytes.NewReader(raw))
	default:
		name = "ParseObject"
		n, err = ipldgit.ParseObject(bytes.NewReader(raw))
	}
	t.Count("via:" + name)
	if err == nil && n == nil {
		return nil, errors.New("harness: nil node without an error")
	}
	return n, err
}

func mustParse(t *T, raw []byte) Node {
	n, err := parseVia(t, raw)
	if err != nil {
		t.Failf("decode failed: %v", err)
	}
	return n
}

func encode(n Node) ([]byte, error) {
	var w bytes.Buffer
	err := ipldgit.Encode(n, &w)
	return w.Bytes(), err
}

// bareWriter has no method but Write.
type bareWriter struct{ b []byte }

func (w *bareWriter) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }

// stringWriter also takes strings and single bytes and can read for itself.
type stringWriter struct{ bareWriter }

func (w *stringWriter) WriteString(s string) (int, error) {
	w.b = append(w.b, s...)
	return len(s), nil
}
func (w *stringWriter) WriteByte(c byte) error { w.b = append(w.b, c); return nil }
func (w *stringWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	w.b = append(w.b, b...)
	return int64(len(b)), err
}

// encodeVia is encode into one of several kinds of writers in turn.
func encodeVia(t *T, n Node) ([]byte, error) {
	t.calls++
	switch (t.Idx + 3*t.calls) % 8 {
	case 0: // a buffer that has something in it already
		w := bytes.NewBuffer([]byte("before"))
		err := ipldgit.Encode(n, w)
		b, ok := bytes.CutPrefix(w.Bytes(), []byte("before"))
		if !ok {
			t.Failf("encoding changed what the buffer held before: %s", clip(w.Bytes(), 100))
		}
		t.Count("into:used-buffer")
		return b, err
	case 1:
		w := &bareWriter{}
		err := ipldgit.Encode(n, w)
		t.Count("into:bare-writer")
		return w.b, err
	case 2:
		w := &stringWriter{}
		err := ipldgit.Encode(n, w)
		t.Count("into:string-writer")
		return w.b, err
	case 3:
		w := &bareWriter{}
		bw := bufio.NewWriterSize(w, 16+t.IntN(5000))
		err := ipldgit.Encode(n, bw)
		if err == nil {
			err = bw.Flush()
		}
		t.Count("into:bufio-writer")
		return w.b, err
	case 4:
		var a, b bytes.Buffer
		err := ipldgit.Encode(n, io.MultiWriter(&a, &b))
		if err == nil && !bytes.Equal(a.Bytes(), b.Bytes()) {
			t.Failf("two writers behind one got different bytes")
		}
		t.Count("into:multi-writer")
		return a.Bytes(), err
	}
	return encode(n)
}

func mustEncode(t *T, n Node) []byte {
	b, err := encodeVia(t, n)
	if err != nil {
		t.Failf("encode failed: %v", err)
	}
	return b
}

// Entry is one way to decode bytes. src wraps the bytes into the reader to use.
type EntryPoint struct {
	Name string
	F    func(raw []byte, src func([]byte) io.Reader) (Node, error)
}

func plainSrc(b []byte) io.Reader { return bytes.NewReader(b) }

// entryPoints are all the ways to decode, each into typed, representation and
// generic builders where it takes one.
func entryPoints() []EntryPoint {
	eps := []EntryPoint{
		{"ParseObject", func(raw []byte, src func([]byte) io.Reader) (Node, error) { return ipldgit.ParseObject(src(raw)) }},
		{"ParseObjectFromBuffer", func(raw []byte, _ func([]byte) io.Reader) (Node, error) { return ipldgit.ParseObjectFromBuffer(raw) }},
		{"DecodeBlock", func(raw []byte, _ func([]byte) io.Reader) (Node, error) {
			b, err := blocks.NewBlockWithCid(raw, cidOf(raw))
			if err != nil {
				return nil, err
			}
			return ipldgit.DecodeBlock(b)
		}},
		{"ParseCompressedObject/6", func(raw []byte, src func([]byte) io.Reader) (Node, error) {
			return ipldgit.ParseCompressedObject(src(deflate(raw, 6)))
		}},
		{"ParseCompressedObject/0", func(raw []byte, src func([]byte) io.Reader) (Node, error) {
			return ipldgit.ParseCompressedObject(src(deflate(raw, 0)))
		}},
	}
	builders := []struct {
		name string
		f    func(kind string) datamodel.NodePrototype
	}{
		{"typed", typedProto}, {"repr", reprProto},
		{"generic", func(string) datamodel.NodePrototype { return basicnode.Prototype.Any }},
	}
	for _, b := range builders {
		b := b
		eps = append(eps,
			EntryPoint{"Decode/" + b.name, func(raw []byte, src func([]byte) io.Reader) (Node, error) {
				return decodeInto(b.f(kindOf(raw)), src(raw))
			}},
			EntryPoint{"codec/" + b.name, func(raw []byte, src func([]byte) io.Reader) (Node, error) {
				dec, err := mc.LookupDecoder(cid.GitRaw)
				if err != nil {
					return nil, err
				}
				nb := b.f(kindOf(raw)).NewBuilder()
				if err := dec(nb, src(raw)); err != nil {
					return nil, err
				}
				return nb.Build(), nil
			}},
			EntryPoint{"DecodeUsingPrototype/" + b.name, func(raw []byte, src func([]byte) io.Reader) (Node, error) {
				return ipld.DecodeUsingPrototype(raw, ipldgit.Decode, b.f(kindOf(raw)))
			}},
			EntryPoint{"LinkSystem/" + b.name, func(raw []byte, src func([]byte) io.Reader) (Node, error) {
				ls := cidlink.DefaultLinkSystem()
				ls.StorageReadOpener = func(ipld.LinkContext, datamodel.Link) (io.Reader, error) { return src(raw), nil }
				return ls.Load(ipld.LinkContext{}, cidlink.Link{Cid: cidOf(raw)}, b.f(kindOf(raw)))
			}},
		)
		for _, bs := range []int{16, 4096, 1 << 16} {
			bs := bs
			eps = append(eps, EntryPoint{fmt.Sprintf("DecodeKind/%s/buf%d", b.name, bs), func(raw []byte, src func([]byte) io.Reader) (Node, error) {
				k := kindOf(raw)
				f := kindDecoder(k)
				if f == nil {
					return nil, errors.New("no such kind")
				}
				rd := bufio.NewReaderSize(src(raw), bs)
				if _, err := io.CopyN(io.Discard, rd, int64(len(k)+1)); err != nil {
					return nil, err
				}
				nb := b.f(k).NewBuilder()
				if err := f(nb, rd); err != nil {
					return nil, err
				}
				return nb.Build(), nil
			}})
		}
	}
	return eps
}
