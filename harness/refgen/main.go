//go:build ignore

// This program wrote ../refnode: node bindings generated from a second,
// independently written copy of the documented schema. Run it from a directory
// whose module has go-ipld-prime's generator among its dependencies:
//
//	go run main.go DIR
package main

import (
	"os"

	"github.com/ipld/go-ipld-prime/schema"
	gengo "github.com/ipld/go-ipld-prime/schema/gen/go"
)

func main() {
	ts := schema.TypeSystem{}
	ts.Init()
	f := func(name, typ string) schema.StructField { return schema.SpawnStructField(name, typ, false, false) }
	o := func(name, typ string) schema.StructField { return schema.SpawnStructField(name, typ, true, false) }
	st := func(name string, fs ...schema.StructField) {
		ts.Accumulate(schema.SpawnStruct(name, fs, schema.SpawnStructRepresentationMap(nil)))
	}
	for _, s := range []string{"String", "GpgSig"} {
		ts.Accumulate(schema.SpawnString(s))
	}
	ts.Accumulate(schema.SpawnBytes("Blob"))
	ts.Accumulate(schema.SpawnLink("Link"))
	ts.Accumulate(schema.SpawnLinkReference("Tree_Link", "Tree"))
	ts.Accumulate(schema.SpawnLinkReference("Commit_Link", "Commit"))
	for _, l := range []string{"String", "Tag", "Commit_Link"} {
		ts.Accumulate(schema.SpawnList(l+"_List", l, false))
	}
	st("PersonInfo", f("date", "String"), f("timezone", "String"), f("email", "String"), f("name", "String"))
	st("TreeEntry", f("mode", "String"), f("hash", "Link"))
	ts.Accumulate(schema.SpawnMap("Tree", "String", "TreeEntry", false))
	st("Tag", f("object", "Link"), f("type", "String"), f("tag", "String"), f("tagger", "PersonInfo"), f("message", "String"))
	st("Commit", f("tree", "Tree_Link"), f("parents", "Commit_Link_List"), f("message", "String"), o("author", "PersonInfo"), o("committer", "PersonInfo"),
		o("encoding", "String"), o("signature", "GpgSig"), f("mergetag", "Tag_List"), f("other", "String_List"))
	if errs := ts.ValidateGraph(); errs != nil {
		panic(errs)
	}
	gengo.Generate(os.Args[1], "refnode", ts, &gengo.AdjunctCfg{
		FieldSymbolLowerOverrides: map[gengo.FieldTuple]string{{TypeName: "Tag", FieldName: "type"}: "typ"}})
}
