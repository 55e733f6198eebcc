package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"encoding/json"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"verif/harness/refnode"
)

func init() { register("C22", "exploration", c22) }

func refProtos() protoSet {
	T := refnode.Type
	return protoSet{
		"Blob": T.Blob, "Blob__Repr": T.Blob__Repr, "Commit": T.Commit, "Commit__Repr": T.Commit__Repr,
		"Commit_Link": T.Commit_Link, "Commit_Link__Repr": T.Commit_Link__Repr, "Commit_Link_List": T.Commit_Link_List, "Commit_Link_List__Repr": T.Commit_Link_List__Repr,
		"GpgSig": T.GpgSig, "GpgSig__Repr": T.GpgSig__Repr, "Link": T.Link, "Link__Repr": T.Link__Repr,
		"PersonInfo": T.PersonInfo, "PersonInfo__Repr": T.PersonInfo__Repr, "String": T.String, "String__Repr": T.String__Repr,
		"String_List": T.String_List, "String_List__Repr": T.String_List__Repr, "Tag": T.Tag, "Tag__Repr": T.Tag__Repr,
		"Tag_List": T.Tag_List, "Tag_List__Repr": T.Tag_List__Repr, "Tree": T.Tree, "Tree__Repr": T.Tree__Repr,
		"TreeEntry": T.TreeEntry, "TreeEntry__Repr": T.TreeEntry__Repr, "Tree_Link": T.Tree_Link, "Tree_Link__Repr": T.Tree_Link__Repr,
	}
}

// guarded describes how a call went.
func guarded(f func() (string, error)) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	v, err := f()
	if err != nil {
		return "error"
	}
	return v
}

// probe writes down how a node answers.
func probe(w io.Writer, n Node, ps protoSet, r func(int) int) {
	fmt.Fprintf(w, "kind=%v len=%d null=%v absent=%v", n.Kind(), n.Length(), n.IsNull(), n.IsAbsent())
	look := func(name string, f func() (Node, error)) {
		fmt.Fprintf(w, " %s=%s", name, guarded(func() (string, error) {
			x, err := f()
			if err != nil {
				return "", err
			}
			return strconv.Quote(View(x)), nil
		}))
	}
	keys := []string{"", "tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other", "object", "type", "typ", "tag", "tagger", "date", "timezone", "email", "name", "mode", "hash", "0", "x"}
	for _, k := range []string{keys[r(len(keys))], keys[r(len(keys))], keys[r(len(keys))], "author", "signature"} {
		look("s:"+k, func() (Node, error) { return n.LookupByString(k) })
		look("g:"+k, func() (Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfString(k)) })
		look("b:"+k, func() (Node, error) { return n.LookupByNode(basicnode.NewString(k)) })
	}
	for _, i := range []int64{0, 1, int64(r(6)), -1, n.Length()} {
		look(fmt.Sprint("i:", i), func() (Node, error) { return n.LookupByIndex(i) })
		look(fmt.Sprint("n:", i), func() (Node, error) { return n.LookupByNode(basicnode.NewInt(i)) })
	}
	fmt.Fprintf(w, " as=%s,%s,%s,%s,%s,%s", guarded(func() (string, error) { x, e := n.AsBool(); return fmt.Sprint(x), e }),
		guarded(func() (string, error) { x, e := n.AsInt(); return fmt.Sprint(x), e }), guarded(func() (string, error) { x, e := n.AsFloat(); return fmt.Sprint(x), e }),
		guarded(func() (string, error) { x, e := n.AsString(); return strconv.Quote(x), e }), guarded(func() (string, error) { x, e := n.AsBytes(); return strconv.Quote(string(x)), e }),
		guarded(func() (string, error) { x, e := n.AsLink(); return fmt.Sprint(x), e }))
	fmt.Fprintf(w, " self=%s", guarded(func() (string, error) {
		nb := n.Prototype().NewBuilder()
		if err := nb.AssignNode(n); err != nil {
			return "", err
		}
		return strconv.Quote(View(nb.Build())), nil
	}))
	fmt.Fprintf(w, " over=%s", guarded(func() (string, error) {
		if it := n.MapIterator(); it != nil {
			for !it.Done() {
				it.Next()
			}
			_, _, err := it.Next()
			return fmt.Sprint(err != nil), nil
		}
		if it := n.ListIterator(); it != nil {
			for !it.Done() {
				it.Next()
			}
			_, _, err := it.Next()
			return fmt.Sprint(err != nil), nil
		}
		return "none", nil
	}))
}

// nodeTrace is one line about one sequence of builder calls and the node it
// gives, for one implementation of the schema.
func nodeTrace(seed uint64, i int, ps protoSet) string {
	r := caseRand(seed, "trace", "node", i)
	g := Gen{Rand: r, Small: true}
	typ := schemaTypes[i%len(schemaTypes)]
	if r.IntN(3) == 0 {
		typ = "Commit"
	}
	v := genVal(g, typ)
	lv := []string{"", "__Repr"}[r.IntN(2)]
	a := &asm{g: g, ps: ps, own: r.IntN(2) == 0, foreign: r.IntN(2) == 0}
	what := "valid"
	if r.IntN(3) == 0 {
		a.defect = pickDefect(g, v)
		what = a.defect.kind + "@" + a.defect.at.Type
	}
	var w strings.Builder
	fmt.Fprintf(&w, "%d %s%s %s: ", i, typ, lv, what)
	var n Node
	w.WriteString(guarded(func() (string, error) {
		x, err := a.build(ps[typ+lv], v)
		n = x
		return "built", err
	}))
	if n == nil {
		return w.String()
	}
	// the probes draw from a source of their own
	pr := caseRand(seed, "trace", "probe", i)
	fmt.Fprintf(&w, " view=%q ", View(n))
	probe(&w, n, ps, pr.IntN)
	fmt.Fprintf(&w, " repr=%q ", View(reprOf(n)))
	probe(&w, reprOf(n), ps, pr.IntN)
	return w.String()
}

// codecTrace is one line about decoding and encoding one object.
func codecTrace(seed uint64, i int) string {
	g := Gen{Rand: caseRand(seed, "trace", "codec", i), Small: true}
	raw := Raw(g.object())
	if g.p(40) {
		raw = mutate(g, raw)
	}
	return fmt.Sprintf("codec %d: ", i) + guarded(func() (string, error) {
		n, err := parse(raw)
		if err != nil {
			return "", err
		}
		out, err := encode(n)
		return strconv.Quote(View(n)) + fmt.Sprintf(" %x %v", out, err), nil
	})
}

// traceMain: trace repo|ref SEED NODES CODEC FILE
func traceMain(args []string) {
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	nn, _ := strconv.Atoi(args[2])
	nc, _ := strconv.Atoi(args[3])
	f, err := os.Create(args[4])
	if err != nil {
		harnessError("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<16)
	ps := repoProtos()
	if args[0] == "ref" {
		ps = refProtos()
		nc = 0
	}
	for i := 0; i < nn; i++ {
		w.WriteString(nodeTrace(seed, i, ps))
		w.WriteByte('\n')
	}
	for i := 0; i < nc; i++ {
		w.WriteString(codecTrace(seed, i))
		w.WriteByte('\n')
	}
	w.Flush()
	os.Exit(0)
}

func c22(c *Ctx) {
	c.Rule = "The repository's generator is run into a scratch directory and the package is built once more with its output in place of the shipped bindings. The shipped bindings, the regenerated ones, and bindings generated from a second copy of the documented schema run the same builder call sequences (valid and defective, all types and levels) and answer the same questions; the three event logs must be equal line by line, the first two also for decoding and encoding. The regenerated build also passes the monitors of C18 and C19. Distinct by log line; non-trivial: lines of built nodes or refused sequences."
	if f := os.Getenv("MON_GEN_FAIL"); f != "" {
		b, _ := os.ReadFile(f)
		c.Add("event:generator-failed", 1)
		c.RunSeq("generate", 1, func(t *T) {
			t.Failf("the generator or the package built with its output fails: %s", clipText(string(b), 2500))
		})
		return
	}
	bin := os.Getenv("MON_GEN_BIN")
	if bin == "" {
		harnessError("no regenerated build")
	}
	run := func(t *T, exe string, args ...string) []byte {
		f := filepath.Join(c.Work, fmt.Sprintf("log-%d", t.Idx))
		defer os.Remove(f)
		cmd := exec.Command(exe, append(args, f)...)
		cmd.Env = append(os.Environ(), "GOCOVERDIR=")
		var se bytes.Buffer
		cmd.Stderr = &se
		if err := cmd.Run(); err != nil {
			t.Failf("%v: %v: %s", args, err, clipText(se.String(), 1500))
		}
		b, err := os.ReadFile(f)
		if err != nil {
			harnessError("%v", err)
		}
		return b
	}
	// each case is a batch of lines with a seed of its own
	c.Run("logs", c.N(64, 1200), func(t *T) {
		seed := strconv.FormatUint(c.Seed*7919+uint64(t.Idx), 10)
		nn, nc := "1500", "300"
		shipped := bytes.Split(run(t, os.Args[0], "trace", "repo", seed, nn, nc), []byte("\n"))
		regen := bytes.Split(run(t, bin, "trace", "repo", seed, nn, nc), []byte("\n"))
		ref := bytes.Split(run(t, os.Args[0], "trace", "ref", seed, nn, nc), []byte("\n"))
		if len(shipped) != len(regen) || len(shipped) < 1800 {
			t.Failf("logs of %d and %d lines", len(shipped), len(regen))
		}
		for i := range shipped {
			if !bytes.Equal(shipped[i], regen[i]) {
				t.Input(shipped[i])
				t.Failf("the regenerated bindings behave differently: %s\nshipped line: %s", diffAt(string(regen[i]), string(shipped[i])), clip(shipped[i], 800))
			}
			if i < 1500 && !bytes.Equal(shipped[i], ref[i]) {
				t.Input(shipped[i])
				t.Failf("the shipped bindings behave differently from the documented schema: %s\nreference line: %s", diffAt(string(shipped[i]), string(ref[i])), clip(ref[i], 800))
			}
			t.Count("event:line-compared")
			if i < 1500 {
				f := bytes.Fields(shipped[i])
				t.Count("line:" + string(f[1]))
				if bytes.Contains(shipped[i], []byte(": built")) {
					t.Count("event:built")
				} else {
					t.Count("event:refused")
				}
			}
		}
		t.Distinct(shipped...)
		t.Sample(1, clip(shipped[0], 300))
	})
	suites := []string{"C18", "C19", "C04", "C13"}
	c.RunSeq("regenerated", len(suites), func(t *T) {
		p := suites[t.Idx]
		dir := filepath.Join(c.Work, "regen-"+p)
		os.MkdirAll(filepath.Join(dir, "cov"), 0o755)
		cmd := exec.Command(bin, "child", p, "quick")
		cmd.Env = append(os.Environ(), "MON_WORK="+dir, "GOCOVERDIR=")
		var se bytes.Buffer
		cmd.Stderr = &se
		cmd.Stdout = &se
		err := cmd.Run()
		b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
		var r Result
		if rerr != nil || json.Unmarshal(b, &r) != nil {
			t.Failf("the monitors of %s crash on the regenerated bindings: %v %s", p, err, clipText(se.String(), 1500))
		}
		if len(r.Violations) > 0 {
			t.Failf("the regenerated bindings break %s: %s", p, r.Violations[0].Message)
		}
		t.CountN("regenerated-evaluations:"+p, r.Evals)
		t.Distinct([]byte(p))
	})
}
