package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

func init() { register("C16", "exploration", c16) }

// raceOut is what a process under the race detector reports.
type raceOut struct {
	Ops        map[string]int64 `json:"ops"`
	Pairs      []string         `json:"pairs"` // kinds of operations seen in flight at the same time
	MaxFlight  int              `json:"max_in_flight"`
	Goroutines int              `json:"goroutines"`
	Failure    string           `json:"failure,omitempty"`
}

// item is an object known only from the reference model, so that preparing it
// does not touch the package.
type item struct {
	raw  []byte
	view string
	kind string
	o    Object
	z    []byte

	once  sync.Once
	n     Node // shared decoded node
	g     Node // shared generic node
	nview string
}

// race op kinds
var raceOps = []string{"parse", "parse-buffer", "parse-zlib", "decode-typed", "decode-repr", "decode-generic", "codec-decode", "decode-kind", "block", "encode-shared", "encode-generic", "codec-encode",
	"walk", "lookup", "repr-walk", "build", "build-repr", "dagcbor", "linksystem", "refused", "bad-encode", "typed-access", "links",
	"any-entry", "chunked", "junk-decode", "hostile-encode", "dagjson", "paths"}

func raceOp(t *T, op string, it *item, shared bool) {
	decodeTo := func(n Node, err error) {
		if err != nil {
			t.Failf("%s: %v", op, err)
		}
		wantView(t, op, View(n), it.view)
	}
	node := func() Node {
		if shared {
			return it.n
		}
		n, err := ipldgit.ParseObjectFromBuffer(it.raw)
		if err != nil {
			t.Failf("%s: %v", op, err)
		}
		return n
	}
	switch op {
	case "parse":
		decodeTo(ipldgit.ParseObject(bytes.NewReader(it.raw)))
	case "parse-buffer":
		decodeTo(ipldgit.ParseObjectFromBuffer(it.raw))
	case "parse-zlib":
		decodeTo(ipldgit.ParseCompressedObject(bytes.NewReader(it.z)))
	case "decode-typed":
		decodeTo(decodeInto(typedProto(it.kind), bytes.NewReader(it.raw)))
	case "decode-repr":
		decodeTo(decodeInto(reprProto(it.kind), bytes.NewReader(it.raw)))
	case "decode-generic":
		decodeTo(decodeInto(basicnode.Prototype.Any, bytes.NewReader(it.raw)))
	case "codec-decode":
		dec, err := mc.LookupDecoder(cid.GitRaw)
		if err != nil {
			t.Failf("%s: %v", op, err)
		}
		nb := typedProto(it.kind).NewBuilder()
		if err := dec(nb, bytes.NewReader(it.raw)); err != nil {
			t.Failf("%s: %v", op, err)
		}
		decodeTo(nb.Build(), nil)
	case "decode-kind":
		for _, ep := range entryPoints() {
			if ep.Name == "DecodeKind/typed/buf4096" {
				decodeTo(ep.F(it.raw, plainSrc))
			}
		}
	case "block":
		for _, ep := range entryPoints() {
			if ep.Name == "DecodeBlock" {
				decodeTo(ep.F(it.raw, plainSrc))
			}
		}
	case "encode-shared":
		wantBytes(t, op, mustEncode(t, node()), it.raw)
	case "encode-generic":
		n := it.g
		if !shared || n == nil {
			if it.kind == "tree" {
				n = reprOf(node())
			} else {
				x, err := decodeInto(basicnode.Prototype.Any, bytes.NewReader(it.raw))
				must(t, err)
				n = x
			}
		}
		wantBytes(t, op, mustEncode(t, n), it.raw)
	case "codec-encode":
		enc, err := mc.LookupEncoder(cid.GitRaw)
		must(t, err)
		var w bytes.Buffer
		must(t, enc(node(), &w))
		wantBytes(t, op, w.Bytes(), it.raw)
	case "walk":
		wantView(t, op, View(node()), it.view)
	case "repr-walk":
		wantView(t, op, View(reprOf(node())), it.view)
	case "lookup":
		contract(t, node(), valOf(it.o), false, "")
	case "typed-access":
		typed(t, node(), valOf(it.o))
	case "build", "build-repr":
		v := valOf(it.o)
		p := typedProto(it.kind)
		if op == "build-repr" {
			p = reprProto(it.kind)
		}
		n, err := (&asm{g: Gen{Rand: t.Rand}, ps: repoProtos()}).build(p, v)
		decodeTo(n, err)
		wantBytes(t, op, mustEncode(t, n), it.raw)
	case "dagcbor":
		if it.kind == "tree" {
			return
		}
		b, err := ipld.Encode(node(), dagcbor.Encode)
		must(t, err)
		n, err := ipld.Decode(b, dagcbor.Decode)
		must(t, err)
		wantBytes(t, op, mustEncode(t, n), it.raw)
	case "linksystem":
		ls := cidlink.DefaultLinkSystem()
		var w bytes.Buffer
		ls.StorageWriteOpener = func(ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
			return &w, func(ipld.Link) error { return nil }, nil
		}
		ls.StorageReadOpener = func(ipld.LinkContext, datamodel.Link) (io.Reader, error) { return bytes.NewReader(w.Bytes()), nil }
		l, err := ls.Store(ipld.LinkContext{}, gitLinkProto, node())
		must(t, err)
		if l.(cidlink.Link).Cid != cidOf(it.raw) {
			t.Failf("%s: stored under %v", op, l)
		}
		decodeTo(ls.Load(ipld.LinkContext{}, l, typedProto(it.kind)))
	case "refused":
		if _, err := ipldgit.ParseObjectFromBuffer(it.raw[:len(it.raw)-1]); err == nil {
			t.Failf("%s: a cut object was accepted", op)
		}
	case "bad-encode":
		if err := ipldgit.Encode(node(), &faultWriter{at: len(it.raw) / 2, err: errInjected}); err == nil {
			t.Failf("%s: no error", op)
		}
	case "any-entry":
		ep := pick(t.Rand, entryPoints())
		if it.kind == "tree" && strings.Contains(ep.Name, "generic") {
			return
		}
		decodeTo(ep.F(it.raw, plainSrc))
	case "chunked":
		d := pick(t.Rand, deliveries(t))
		decodeTo(ipldgit.ParseObject(d.src(it.raw)))
	case "junk-decode":
		g := Gen{Rand: t.Rand, Small: true}
		b := it.raw
		if len(b) > 3000 {
			b = Raw(g.object())
		}
		b = mutate(g, b)
		if n, err := ipldgit.ParseObjectFromBuffer(b); err == nil {
			encode(n)
			View(n)
		}
	case "hostile-encode":
		encode(hostileNode(t, Gen{Rand: t.Rand, Small: true}))
	case "dagjson":
		if it.kind == "tree" || !utf8.Valid(it.raw) {
			return
		}
		b, err := ipld.Encode(node(), dagjson.Encode)
		must(t, err)
		n, err := ipld.Decode(b, dagjson.Decode)
		must(t, err)
		wantBytes(t, op, mustEncode(t, n), it.raw)
	case "paths":
		n := node()
		n.LookupByString("no such key")
		n.LookupByIndex(3)
		n.LookupBySegment(datamodel.PathSegmentOfString("message"))
		if it.kind != "tree" {
			n.LookupByNode(basicnode.NewString("message"))
		}
		reprOf(n).LookupByString("no such key")
		_ = n.Prototype()
	case "links":
		var ls []datamodel.Link
		collectLinks(t, node(), &ls)
	default:
		panic(op)
	}
}

func raceItems(seed uint64, n int) []*item {
	r := caseRand(seed, "race", "items", n)
	var out []*item
	for i := 0; i < n; i++ {
		g := Gen{Rand: r, Small: i%3 > 0}
		var o Object
		switch i % 4 {
		case 0:
			o = g.commit()
		case 1:
			o = g.tree()
		case 2:
			o = g.tag()
		case 3:
			o = g.blob()
		}
		raw := Raw(o)
		limit := 12000
		if n == 1 { // a process with one object may have a large one
			limit = 300000
		}
		if len(raw) > limit {
			i--
			continue
		}
		out = append(out, &item{raw: raw, view: o.View(), kind: o.Kind(), o: o, z: deflate(raw, 1)})
	}
	return out
}

// raceMain: race SCENARIO SEED OPS OUTFILE
func raceMain(args []string) {
	scenario := args[0]
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	ops, _ := strconv.Atoi(args[2])
	rnd := caseRand(seed, "race", scenario, 0)
	workers := []int{2, 4, 8, 16, 32}[rnd.IntN(5)]
	runtime.GOMAXPROCS([]int{2, 4, 8, 3}[rnd.IntN(4)])
	items := raceItems(seed, []int{1, 2, 4, 12}[rnd.IntN(4)])
	shared := scenario == "shared"
	if shared {
		for _, it := range items {
			n, err := ipldgit.ParseObjectFromBuffer(it.raw)
			if err != nil {
				panic(err)
			}
			it.n = n
			if it.kind != "tree" {
				it.g, _ = decodeInto(basicnode.Prototype.Any, bytes.NewReader(it.raw))
			}
		}
	}
	// in a narrow run all goroutines do the same one or two things
	pool := raceOps
	switch rnd.IntN(3) {
	case 0:
		pool = []string{pick(rnd, raceOps)}
	case 1:
		pool = []string{pick(rnd, raceOps), pick(rnd, raceOps)}
	}
	out := raceOut{Ops: map[string]int64{}, Goroutines: workers}
	var mu sync.Mutex
	var failure atomic.Pointer[string]
	opIdx := map[string]int{}
	for i, o := range raceOps {
		opIdx[o] = i
	}
	// flight[w] is what worker w is doing; read without synchronisation other
	// than atomics, so that watching adds no ordering between the workers'
	// operations beyond that of the atomics themselves
	flight := make([]atomic.Int32, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(w)+77))
			feats := map[string]int64{}
			pairs := map[string]bool{}
			maxf := 0
			counts := map[string]int64{}
			<-start
			for i := 0; i < ops; i++ {
				op, it := pick(r, pool), pick(r, items)
				// Only some operations look at the others: the look is a
				// synchronisation point that can hide a race.
				if r.IntN(8) == 0 {
					k := 1
					for v := range flight {
						if f := flight[v].Load(); v != w && f > 0 {
							k++
							a, b := raceOps[f-1], op
							if a > b {
								a, b = b, a
							}
							pairs[a+"|"+b] = true
						}
					}
					maxf = max(maxf, k)
				}
				if i%3 == 0 {
					flight[w].Store(int32(opIdx[op] + 1))
				}
				if r.IntN(16) == 0 {
					runtime.Gosched()
				}
				func() {
					defer func() {
						if x := recover(); x != nil {
							m := fmt.Sprintf("%s on %s: %v", op, clip(it.raw, 200), x)
							if fn, ok := x.(failNow); ok {
								m = fmt.Sprintf("%s on %s: %s", op, clip(it.raw, 200), fn.msg)
							} else {
								b := make([]byte, 4000)
								m += "\n" + string(b[:runtime.Stack(b, false)])
							}
							failure.CompareAndSwap(nil, &m)
						}
					}()
					t := &T{C: nil, Rand: r, feats: feats}
					raceOp(t, op, it, shared)
				}()
				counts[op]++
				if failure.Load() != nil {
					break
				}
			}
			flight[w].Store(0)
			mu.Lock()
			defer mu.Unlock()
			for k, v := range counts {
				out.Ops[k] += v
			}
			for k := range pairs {
				found := false
				for _, p := range out.Pairs {
					found = found || p == k
				}
				if !found {
					out.Pairs = append(out.Pairs, k)
				}
			}
			out.MaxFlight = max(out.MaxFlight, maxf)
		}(w)
	}
	close(start)
	wg.Wait()
	if f := failure.Load(); f != nil {
		out.Failure = *f
	}
	sort.Strings(out.Pairs)
	writeJSON(args[3], out)
	os.Exit(0)
}

func c16(c *Ctx) {
	c.Rule = "Each case is a process of its own built with the race detector, in which 2 to 32 goroutines are released at once and run operations (29 kinds: decode by all entry points, encode, walk, look up, build, store, failing calls) on few objects; 'cold' cases make the package's very first calls concurrently, 'shared' cases share decoded nodes, generic nodes and input buffers. Oracles: the race detector's reports, and for every call the result the reference model gives. Distinct by process (seed); non-trivial: at least two operations were observed in flight at once."
	c.Assume("the Go race detector reports every pair of conflicting accesses it observes unordered; races between accesses that never come close in any run stay unseen")
	bin := os.Getenv("MON_RACE_BIN")
	if bin == "" {
		harnessError("no race binary")
	}
	var mu sync.Mutex
	pairs := map[string]bool{}
	run := func(t *T, scenario string, ops int) {
		dir := filepath.Join(c.Work, fmt.Sprintf("race-%s-%d", scenario, t.Idx))
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		outf := filepath.Join(dir, "out.json")
		seed := strconv.FormatUint(c.Seed*1000003+uint64(t.Idx), 10)
		cmd := exec.Command(bin, "race", scenario, seed, strconv.Itoa(ops), outf)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=20 log_path="+filepath.Join(dir, "race"), "GOCOVERDIR=")
		var se bytes.Buffer
		cmd.Stderr = &se
		if err := cmd.Start(); err != nil {
			harnessError("%v", err)
		}
		timer := time.AfterFunc(80*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		expired := !timer.Stop()
		logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			if bytes.Contains(b, []byte("DATA RACE")) {
				t.Failf("%s, seed %s: the race detector reports:\n%s", scenario, seed, clipText(string(b), 2500))
			}
		}
		if expired {
			harnessErrorIfSlow(t, se.String())
		}
		b, rerr := os.ReadFile(outf)
		var o raceOut
		if rerr != nil || json.Unmarshal(b, &o) != nil {
			t.Failf("%s, seed %s: process ended (%v) with: %s", scenario, seed, err, clipText(se.String(), 2500))
		}
		if o.Failure != "" {
			t.Failf("%s, seed %s: %s", scenario, seed, o.Failure)
		}
		if err != nil {
			t.Failf("%s, seed %s: %v: %s", scenario, seed, err, clipText(se.String(), 2500))
		}
		for k, v := range o.Ops {
			t.CountN("op:"+k, v)
		}
		t.Count(fmt.Sprintf("goroutines:%d", o.Goroutines))
		t.CountN("event:overlapping-kinds-seen", int64(len(o.Pairs)))
		mu.Lock()
		for _, p := range o.Pairs {
			pairs[p] = true
		}
		mu.Unlock()
		if o.MaxFlight > 1 {
			t.Distinct([]byte(scenario + seed))
			t.Count("event:overlap-observed:" + scenario)
		}
		t.Sample(2, map[string]any{"seed": seed, "ops": o.Ops, "max_in_flight": o.MaxFlight, "pairs": len(o.Pairs)})
	}
	c.run("cold", c.N(500, 20000), 4, func(t *T) { run(t, "cold", 1+t.IntN(12)) })
	c.run("shared", c.N(120, 5000), 4, func(t *T) { run(t, "shared", 150) })
	c.run("storm", c.N(100, 5000), 4, func(t *T) { run(t, "storm", 200) })
	var ps []string
	for p := range pairs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	c.Extra("distinct_overlapping_operation_pairs", len(ps))
	c.Extra("overlapping_pairs_examples", ps[:min(len(ps), 12)])
}

func harnessErrorIfSlow(t *T, se string) {
	t.Failf("the process did not finish in 80 seconds (deadlock or livelock): %s", clipText(se, 2000))
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = strings.Split
