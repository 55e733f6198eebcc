package main

import (
	"sync"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/bindnode"
	"github.com/ipld/go-ipld-prime/schema"
)

// bindTypes is the documented schema for another implementation of typed nodes,
// which works by reflection.
var bindTypes = sync.OnceValue(func() *schema.TypeSystem {
	ts := new(schema.TypeSystem)
	ts.Init()
	fields := func(spec string) (out []schema.StructField) {
		for _, f := range schemaSpec[spec].fields {
			out = append(out, schema.SpawnStructField(f.name, f.typ, f.optional, false))
		}
		return
	}
	ts.Accumulate(schema.SpawnString("String"))
	ts.Accumulate(schema.SpawnString("GpgSig"))
	ts.Accumulate(schema.SpawnLink("Link"))
	ts.Accumulate(schema.SpawnLink("Tree_Link"))
	ts.Accumulate(schema.SpawnLink("Commit_Link"))
	ts.Accumulate(schema.SpawnBytes("Blob"))
	for _, e := range []string{"String", "Tag", "Commit_Link"} {
		ts.Accumulate(schema.SpawnList(e+"_List", e, false))
	}
	for _, s := range []string{"PersonInfo", "TreeEntry", "Tag", "Commit"} {
		ts.Accumulate(schema.SpawnStruct(s, fields(s), schema.SpawnStructRepresentationMap(nil)))
	}
	ts.Accumulate(schema.SpawnMap("Tree", "String", "TreeEntry", false))
	if errs := ts.ValidateGraph(); errs != nil {
		harnessError("%v", errs)
	}
	return ts
})

var bindProtos = sync.OnceValue(func() map[string]schema.TypedPrototype {
	m := map[string]schema.TypedPrototype{}
	for kind, typ := range map[string]string{"blob": "Blob", "commit": "Commit", "tag": "Tag"} {
		m[kind] = bindnode.Prototype(nil, bindTypes().TypeByName(typ))
	}
	return m
})

// moreForms adds nodes of other implementations of the schema, and nodes that
// leave out or spell out what an object does not have.
func moreForms(t *T, o Object, n Node, fs map[string]Node) {
	kind := o.Kind()
	if kind == "tree" {
		return // only the package's own nodes are recognised as trees
	}
	typ := map[string]string{"blob": "Blob", "commit": "Commit", "tag": "Tag"}[kind]
	other := buildFrom(t, refProtos()[typ], n)
	fs["other-bindings"], fs["other-bindings-repr"] = other, reprOf(other)
	b := buildFrom(t, bindProtos()[kind], n)
	fs["bindnode"], fs["bindnode-repr"] = b, reprOf(b)
	keys := func(n Node) (ks []string, vs []Node) {
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			must(t, err)
			s, err := k.AsString()
			must(t, err)
			ks, vs = append(ks, s), append(vs, v)
		}
		return
	}
	mix := func(ks []string, vs []Node) {
		t.Shuffle(len(ks), func(i, j int) { ks[i], ks[j], vs[i], vs[j] = ks[j], ks[i], vs[j], vs[i] })
	}
	switch o := o.(type) {
	case *Tag:
		if o.Tagger != nil {
			return
		}
		var ks []string
		var vs []Node
		k0, v0 := keys(fs["generic"])
		for i, k := range k0 {
			if k != "tagger" {
				ks, vs = append(ks, k), append(vs, v0[i])
			}
		}
		mix(ks, vs)
		fs["no-tagger"] = genericMap(t, ks, vs)
		fs["no-tagger-custom"] = &cnode{isMap: true, failAt: -1, keys: ks, vals: vs}
		ks, vs = append([]string{"tagger"}, ks...), append([]Node{datamodel.Null}, vs...)
		mix(ks, vs)
		fs["null-tagger"] = genericMap(t, ks, vs)
	case *Commit:
		// the fields that are not there spelled out as absent
		ks, vs := keys(n)
		for i := range vs {
			if !vs[i].IsAbsent() {
				vs[i] = remake{t: t, custom: true}.node(vs[i])
			}
		}
		mix(ks, vs)
		fs["absent-fields"] = &cnode{isMap: true, failAt: -1, keys: ks, vals: vs}
	}
}
