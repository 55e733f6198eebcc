package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
)

func init() { register("C25", "exploration", c25) }

// The numbers at which word sizes, dates and counters end.
var edgeNumbers = func() (s []string) {
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 33, 40, 52, 53, 62, 63} {
		for d := int64(-2); d <= 2; d++ {
			n := uint64(1)<<k + uint64(d)
			s = append(s, strconv.FormatUint(n, 10))
		}
	}
	return append(s, "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551626",
		"340282366920938463463374607431768211456", "253402300799", "253402300800", "9999999999", "99999999999999", "2147483648000", "0", "1", "-1", "-2147483648", "-2147483649", "-62135596801")
}()

var edgeIndices = []int64{0, 1, 2, -1, -2, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MaxUint32, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1<<33 + 1, -1 << 32, -1<<32 + 1, 1<<40 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

// ambientInput is one of the inputs a batch works through.
func ambientInput(g Gen) []byte {
	big := func() string { return pick(g.Rand, edgeNumbers) }
	switch g.IntN(10) {
	case 0: // a size near the end of a word over content that is shorter
		raw := Raw(g.object())
		i := bytes.IndexByte(raw, 0)
		kind, _, _ := strings.Cut(string(raw[:i]), " ")
		body := raw[i+1:]
		size := big()
		switch g.IntN(3) {
		case 0: // the right size, were some bits lost
			size = strconv.FormatUint(uint64(len(body))+uint64(1)<<[]uint{8, 16, 31, 32, 33, 40, 63}[g.IntN(7)], 10)
		case 1:
			size = strconv.FormatInt(int64(len(body))-int64(1)<<[]uint{8, 16, 31, 32, 33, 40}[g.IntN(6)], 10)
		}
		return append([]byte(kind+" "+size+"\x00"), body...)
	case 1, 2: // dates and zones near the end of a word, or past the present
		d := func() string {
			if g.p(30) {
				return strconv.Itoa(int(g.Uint32()>>1)) + []string{"", "0", "7"}[g.IntN(3)]
			}
			return big()
		}
		z := func() string {
			return pick(g.Rand, []string{"+0000", "-0000", "+1400", "-1200", "+0530", "+9999", "-2400", "UTC", "+05:30", "CET"})
		}
		p := func() *Person {
			q := *g.person()
			q.Date, q.TZ = d(), z()
			return &q
		}
		if g.p(40) {
			o := g.tag()
			o.Tagger = p()
			return Raw(o)
		}
		o := g.commit()
		o.Author, o.Committer = p(), p()
		return Raw(o)
	case 3, 4, 5:
		return mutate(g, Raw(g.object()))
	case 6: // case and width of letters, as locales see them
		o := g.commit()
		o.Message = pick(g.Rand, []string{"Iıİi", "ß ẞ", "ς σ", "ﬁ", "\u0130\u0131", "\u2028", "É", "\u00e9", "e\u0301"}) + o.Message
		o.Author = g.person()
		o.Author.Name = pick(g.Rand, []string{"Iıİi", "É", "e\u0301", "ß"})
		return Raw(o)
	default:
		return Raw(g.object())
	}
}

// outcome is one line about everything that is done with one input.
func ambientLine(seed uint64, i int, eps []EntryPoint, protos []namedProto) string {
	g := Gen{Rand: caseRand(seed, "C25", "input", i), Small: i%5 > 0}
	raw := ambientInput(g)
	var w strings.Builder
	sum := func(s string) string {
		h := fnv.New64a()
		h.Write([]byte(s))
		return hex.EncodeToString(h.Sum(nil))[:10]
	}
	note := func(name string, f func() (string, error)) {
		fmt.Fprintf(&w, " %s=", name)
		r := guarded(f)
		if r != "error" && r != "panic" {
			r = sum(r)
		}
		w.WriteString(r)
	}
	fmt.Fprintf(&w, "%s %d %s:", kindOf(raw), len(raw), sum(string(raw)))
	var node Node
	for k, ep := range eps {
		if k > 2 && (k+i)%6 != 0 {
			continue
		}
		note(ep.Name, func() (string, error) {
			n, err := ep.F(raw, plainSrc)
			if err != nil {
				return "", err
			}
			if node == nil {
				node = n
			}
			return View(n), nil
		})
	}
	if node == nil {
		return w.String()
	}
	dump := func(name string, n Node) {
		note(name+".view", func() (string, error) { return View(n), nil })
		note(name+".encode", func() (string, error) { b, err := encode(n); return string(b), err })
		note(name+".json", func() (string, error) {
			var b bytes.Buffer
			err := dagjson.Encode(n, &b)
			return b.String(), err
		})
		note(name+".cbor", func() (string, error) {
			var b bytes.Buffer
			err := dagcbor.Encode(n, &b)
			return b.String(), err
		})
		at := func(n Node) {
			for _, x := range edgeIndices {
				note(fmt.Sprintf("%s[%d]", name, x), func() (string, error) {
					m, err := n.LookupByIndex(x)
					if err != nil {
						return "", err
					}
					return View(m), nil
				})
				note(fmt.Sprintf("%s/%d", name, x), func() (string, error) {
					m, err := n.LookupBySegment(datamodel.PathSegmentOfInt(x))
					if err != nil {
						return "", err
					}
					return View(m), nil
				})
				note(fmt.Sprintf("%s(%d)", name, x), func() (string, error) {
					m, err := n.LookupByNode(basicnode.NewInt(x))
					if err != nil {
						return "", err
					}
					return View(m), nil
				})
			}
		}
		at(n)
		if n.Kind() == datamodel.Kind_Map {
			for _, k := range []string{"parents", "mergetag", "other"} {
				if m, err := n.LookupByString(k); err == nil {
					at(m)
				}
			}
		}
	}
	dump("typed", node)
	dump("repr", reprOf(node))
	var js bytes.Buffer
	if dagjson.Encode(reprOf(node), &js) == nil {
		p := protos[i%len(protos)]
		for _, p := range []namedProto{p, {"typed", typedProto(kindOf(raw))}, {"repr", reprProto(kindOf(raw))}} {
			if p.P == nil {
				continue
			}
			note("from-json/"+p.Name, func() (string, error) {
				nb := p.P.NewBuilder()
				if err := dagjson.Decode(nb, bytes.NewReader(js.Bytes())); err != nil {
					return "", err
				}
				return View(nb.Build()), nil
			})
		}
	}
	return w.String()
}

// ambientMain: ambient SEED INPUTS NODES CODEC ORDER FILE
func ambientMain(args []string) {
	ambient = true
	var v [5]int
	for i := range v {
		v[i], _ = strconv.Atoi(args[i])
	}
	seed, n, order := uint64(v[0]), v[1]+v[2]+v[3], v[4]
	eps, protos := entryPoints(), allProtos()
	lines := make([]string, n)
	ps := repoProtos()
	line := func(i int) string {
		switch {
		case i < v[1]:
			return ambientLine(seed, i, eps, protos)
		case i < v[1]+v[2]:
			return nodeTrace(seed, i, ps)
		}
		return codecTrace(seed, i)
	}
	if order == 4 { // a process that is busy with other things
		os.Args = os.Args[:1]
		park := make(chan int)
		for range 3000 {
			go func() { <-park }()
		}
		ballast := make([]byte, 256<<20)
		defer runtime.KeepAlive(ballast)
		runtime.LockOSThread()
	}
	watchLookups()
	for i := range lines {
		k := i
		switch order {
		case 1: // backwards
			k = n - 1 - i
		case 2: // each one twice, the second time counts
			line(k)
			runtime.GC()
		case 3, 4: // far jumps
			k = (i*7919 + 13) % n
		}
		lines[k] = line(k)
	}
	if len(args) > 6 { // shows that the instrumentation works
		os.Stat("/looked-at")
		fmt.Println(time.Now().Year(), os.Getenv("LOOK"))
	}
	asked := endLookups()
	f, err := os.Create(args[5])
	if err != nil {
		harnessError("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<16)
	for _, l := range lines {
		w.WriteString(l)
		w.WriteByte('\n')
	}
	for _, a := range asked {
		w.WriteString("asked: " + a + "\n")
	}
	w.Flush()
	f.Close()
	os.Exit(0)
}

// a surrounding is a way of running the same work in another process.
type surrounding struct {
	name  string
	exe   string
	order string
	env   []string
	dir   string
	uid   uint32
}

func c25(c *Ctx) {
	c.Rule = "The same inputs (well-formed and mutated objects, sizes, dates and indices at the ends of word sizes, builder call sequences) are worked through by processes in different surroundings: a 32-bit build; other time zones, locales, home and working directories, users, numbers of processors, collector settings, orders of work; an instrumented standard library in which the clock is decades off and every environment variable that is asked for has a value. Each writes one line per input with the verdict and a hash of the data of every entry point, form, encoding and lookup; the logs must be equal line by line. The monitors of the other properties also run in the 32-bit build. Distinct by line; non-trivial: every line."
	bin32, binAmb := os.Getenv("MON_386_BIN"), os.Getenv("MON_AMBIENT_BIN")
	if bin32 == "" || binAmb == "" {
		harnessError("the 32-bit or the instrumented build is missing")
	}
	self := os.Args[0]
	base := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + c.Work, "VERIF_DIR=" + verifDir(), "VERIF_REPO=" + os.Getenv("VERIF_REPO"), "TMPDIR=" + c.Work, "GOCOVERDIR="}
	os.Chmod(c.Work, 0o755)
	// the way to the scratch directory and back, for another user
	for d := c.Work; len(d) > len(os.TempDir()) && strings.HasPrefix(d, os.TempDir()); d = filepath.Dir(d) {
		os.Chmod(d, 0o755)
	}
	os.Chmod(os.TempDir(), 0o755)
	far := filepath.Join(c.Work, "far")
	os.MkdirAll(far, 0o755)
	outs := filepath.Join(c.Work, "logs")
	os.MkdirAll(outs, 0o777)
	os.Chmod(outs, 0o777)
	hostile := []string{"TZ=Pacific/Apia", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_CTYPE=C", "HOME=/nonexistent", "USER=nobody", "GIT_DIR=/nonexistent", "GIT_AUTHOR_NAME=x", "GIT_AUTHOR_DATE=0 +0000", "GIT_COMMITTER_NAME=y",
		"GIT_OBJECT_FORMAT=sha256", "GIT_DEFAULT_HASH=sha256", "IPFS_PATH=/nonexistent", "IPFS_LOGGING=debug", "GOLOG_LOG_LEVEL=debug", "DEBUG=1", "VERBOSE=1", "TERM=dumb", "NO_COLOR=1", "CI=true", "SOURCE_DATE_EPOCH=1"}
	all := []surrounding{
		{name: "32-bit", exe: bin32, order: "0"},
		{name: "32-bit, backwards, one processor", exe: bin32, order: "1", env: []string{"GOMAXPROCS=1", "GOGC=20"}},
		{name: "other locale, zone and home, backwards", exe: self, order: "1", env: hostile, dir: "/"},
		{name: "another user, collecting all the time, each twice", exe: self, order: "2", env: []string{"GOGC=2", "GOMAXPROCS=16", "TZ=Asia/Kolkata"}, dir: far, uid: 65534},
		{name: "no collector, jumping, a large process with other arguments", exe: self, order: "4", env: []string{"GOGC=off", "GOMAXPROCS=2", "TZ=:nowhere"}},
		{name: "clock 60 years ahead, every variable 1", exe: binAmb, order: "0", env: []string{"MON_CLOCK=1893456000", "MON_ENVVAL=1"}},
		{name: "clock at 1971, every variable true", exe: binAmb, order: "3", env: []string{"MON_CLOCK=-1770000000", "MON_ENVVAL=true"}},
		{name: "clock 200 years ahead, every variable a name", exe: binAmb, order: "1", env: []string{"MON_CLOCK=6311520000", "MON_ENVVAL=strict"}},
	}
	asOther := os.Getuid() == 0
	if asOther { // where another user cannot start it, the same one does
		probe := filepath.Join(outs, "probe")
		cmd := exec.Command(self, "ambient", "1", "0", "0", "1", "0", probe)
		cmd.Env, cmd.Dir = base, far
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		if err := cmd.Run(); err != nil {
			c.Note("another user cannot run the monitors here: %v", err)
			asOther = false
		}
		os.Remove(probe)
	}
	run := func(t *T, s surrounding, seed string, nums [3]string) [][]byte {
		f := filepath.Join(outs, fmt.Sprintf("log-%d-%d", t.Idx, t.IntN(1<<30)))
		defer os.Remove(f)
		args := []string{"ambient", seed, nums[0], nums[1], nums[2], s.order, f}
		cmd := exec.Command(s.exe, args...)
		cmd.Env = append(append([]string{}, base...), s.env...)
		if s.exe == self && s.dir == "" && t.Idx < 4 {
			cmd.Env = append(cmd.Env, "GOCOVERDIR="+os.Getenv("GOCOVERDIR"))
		}
		cmd.Dir = s.dir
		if s.uid != 0 && asOther {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: s.uid, Gid: s.uid}}
		}
		var se bytes.Buffer
		cmd.Stderr = &se
		if err := cmd.Run(); err != nil {
			if se.Len() == 0 || strings.Contains(se.String(), "HARNESS-ERROR") { // could not be started or killed from outside
				harnessError("%s: %v %s", s.name, err, se.String())
			}
			t.Failf("%s: the process fails: %v: %s", s.name, err, clipText(se.String(), 1500))
		}
		b, err := os.ReadFile(f)
		if err != nil {
			harnessError("%v", err)
		}
		return bytes.Split(bytes.TrimSuffix(b, []byte("\n")), []byte("\n"))
	}
	// the instrumentation works: the clock is off and variables have values
	o, err := func() ([]byte, error) {
		cmd := exec.Command(binAmb, "ambient", "1", "0", "0", "1", "0", filepath.Join(outs, "probe2"), "show")
		cmd.Env = append(append([]string{}, base...), "MON_CLOCK=1893456000", "MON_ENVVAL=strict")
		return cmd.Output()
	}()
	if f := strings.Fields(string(o)); err != nil || len(f) != 2 || !strings.Contains(probeLog(filepath.Join(outs, "probe2")), "asked: getenv LOOK\nasked: stat /looked-at") || f[1] != "strict" || f[0] < strconv.Itoa(time.Now().Year()+59) {
		harnessError("the instrumented standard library does not take effect: %v %q", err, o)
	}
	var mu sync.Mutex
	askedEnv := map[string]bool{}
	c.Run("surroundings", c.N(56, 1500), func(t *T) {
		seed := strconv.FormatUint(c.Seed*6007+uint64(t.Idx), 10)
		nums := [3]string{"500", "150", "100"}
		want := run(t, surrounding{name: "plain", exe: self, order: "0"}, seed, nums)
		if len(want) != 750 {
			harnessError("a log of %d lines", len(want))
		}
		picks := []surrounding{all[t.Idx%2], all[2+t.Idx%3], all[5+t.Idx%3]}
		for _, s := range picks {
			got := run(t, s, seed, nums)
			for len(got) > 0 && bytes.HasPrefix(got[len(got)-1], []byte("asked: ")) {
				what := string(got[len(got)-1][len("asked: "):])
				got = got[:len(got)-1]
				if k, ok := strings.CutPrefix(what, "getenv "); ok { // the logs show whether it matters
					mu.Lock()
					askedEnv[k] = true
					mu.Unlock()
					continue
				}
				t.Failf("working through objects looks at something else than its arguments: %s", what)
			}
			if len(got) != len(want) {
				t.Failf("%s: a log of %d lines, plain %d", s.name, len(got), len(want))
			}
			for i := range want {
				if bytes.Equal(got[i], want[i]) {
					continue
				}
				n, _ := strconv.ParseUint(seed, 10, 64)
				if i < 500 {
					t.Input(ambientInput(Gen{Rand: caseRand(n, "C25", "input", i), Small: i%5 > 0}))
				}
				t.Failf("the outcome in surroundings %q differs from the plain one: %s", s.name, fieldsDiff(string(got[i]), string(want[i])))
			}
			t.CountN("lines-compared:"+s.name, int64(len(want)))
		}
		for _, l := range want {
			k, _, _ := bytes.Cut(l, []byte(" "))
			if len(k) > 0 && k[0] > '9' && len(k) < 10 {
				t.Count("line:" + string(k))
			}
			t.CountN("event:result-compared", int64(bytes.Count(l, []byte("="))))
			t.CountN("event:refused", int64(bytes.Count(l, []byte("=error"))))
		}
		for _, l := range want {
			t.Distinct(l)
		}
		t.Sample(2, clip(want[0], 300))
	})
	var ks []string
	for k := range askedEnv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	c.Extra("variables_asked_for", ks)
	suites := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C23"}
	c.run("32-bit", len(suites), 2, func(t *T) {
		p := suites[t.Idx]
		dir := filepath.Join(c.Work, "b32-"+p)
		os.MkdirAll(dir, 0o755)
		cmd := exec.Command(bin32, "child", p, c.Tier)
		cmd.Env = append(os.Environ(), "MON_WORK="+dir, "TMPDIR="+dir, "GOCOVERDIR=", "GOMEMLIMIT=1500MiB", "MON_DIV="+strconv.Itoa(c.N(12, 1)), "MON_ISOLATED=1")
		if c.Tier == "thorough" {
			cmd.Args[3] = "quick"
		}
		f, _ := os.Create(filepath.Join(dir, "out"))
		cmd.Stdout, cmd.Stderr = f, f
		err := cmd.Run()
		f.Close()
		b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
		var r Result
		if rerr != nil || json.Unmarshal(b, &r) != nil {
			o := tail(filepath.Join(dir, "out"), 3000)
			if strings.Contains(o, "HARNESS-ERROR") || strings.Contains(o, "out of memory") || strings.Contains(o, "cannot allocate memory") || !strings.Contains(o, "goroutine ") {
				harnessError("32-bit run of the monitors of %s: %v %s", p, err, o)
			}
			t.Failf("the monitors of %s crash in the 32-bit build: %v %s", p, err, o)
		}
		if len(r.Violations) > 0 {
			v := r.Violations[0]
			if b, err := hex.DecodeString(v.Input); err == nil && len(b) > 0 {
				t.Input(b)
			}
			t.Failf("in a 32-bit build, monitors of %s, %s case %d: %s", p, v.Suite, v.Case, v.Message)
		}
		t.CountN("32-bit-evaluations:"+p, r.Evals)
		t.Distinct([]byte(p))
		os.RemoveAll(dir)
	})
}

// fieldsDiff shows the results that differ between two lines.
func fieldsDiff(a, b string) string {
	x, y := strings.Fields(a), strings.Fields(b)
	var out []string
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			out = append(out, fmt.Sprintf("%s (plain %s)", clipText(p, 160), clipText(q, 160)))
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, "; ")
}

func probeLog(f string) string {
	b, _ := os.ReadFile(f)
	return string(b)
}
