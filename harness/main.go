package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/coverage"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type check struct {
	level string
	run   func(c *Ctx)
}

var checks = map[string]check{}

func register(id, level string, f func(*Ctx)) { checks[id] = check{level, f} }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func seedEnv() uint64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return uint64(n)
		}
	}
	return 1
}

func main() {
	if len(os.Args) >= 3 && helperMain(os.Args[1:]) {
		return
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: mon check|child PROP TIER [suite:case]")
		os.Exit(2)
	}
	mode, prop, tier := os.Args[1], os.Args[2], os.Args[3]
	only := ""
	if len(os.Args) > 4 {
		only = os.Args[4]
	}
	if _, ok := checks[prop]; !ok {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		os.Exit(2)
	}
	switch mode {
	case "check":
		os.Exit(supervise(prop, tier, only))
	case "child":
		child(prop, tier, only)
	default:
		os.Exit(2)
	}
}

// harnessError ends the run without a verdict.
func harnessError(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", a...)
	os.Exit(3)
}

const (
	caseLimit     = 100 * time.Second // a case running longer is looked at alone
	isolatedLimit = 240 * time.Second
)

func child(prop, tier, only string) {
	if os.Getenv("MON_RACE") == "" && strconv.IntSize == 64 {
		lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	work := os.Getenv("MON_WORK")
	c := NewCtx(prop, tier, seedEnv(), work)
	c.Only = only
	start := time.Now()
	if os.Getenv("MON_ISOLATED") == "" && os.Getenv("MON_PATIENT") == "" {
		go func() {
			for {
				time.Sleep(time.Second)
				c.mu.Lock()
				slots := append(c.inflight[:0:0], c.inflight...)
				c.mu.Unlock()
				for _, s := range slots {
					if f := s.Load(); f != nil && time.Since(f.start) > caseLimit {
						buf := make([]byte, 1<<20)
						buf = buf[:runtime.Stack(buf, true)]
						writeJSON(filepath.Join(work, "stuck.json"), map[string]any{"suite": f.suite, "case": f.idx, "stacks": string(buf)})
						os.Exit(97)
					}
				}
			}
		}()
	}
	checks[prop].run(c)
	c.Extra("workload_s", time.Since(start).Seconds())
	writeJSON(filepath.Join(work, "result.json"), c.Result())
	if os.Getenv("GOCOVERDIR") != "" {
		coverage.WriteCountersDir(os.Getenv("GOCOVERDIR"))
	}
	os.Exit(0)
}

func tail(path string, n int) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	if len(b) > n {
		// keep the head, where the panic message is, and the tail
		return string(b[:n*3/4]) + "\n...\n" + string(b[len(b)-n/4:])
	}
	return string(b)
}

type outcome struct {
	code    int
	killed  bool
	timeout bool
	res     *Result
	stderr  string
}

func runChild(work, prop, tier, only string, limit time.Duration, isolated bool) outcome {
	os.MkdirAll(work, 0o755)
	so, _ := os.Create(filepath.Join(work, "stdout"))
	se, _ := os.Create(filepath.Join(work, "stderr"))
	args := []string{"child", prop, tier}
	if only != "" {
		args = append(args, only)
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout, cmd.Stderr = so, se
	cov := filepath.Join(work, "cov")
	os.MkdirAll(cov, 0o755)
	cmd.Env = append(os.Environ(), "MON_WORK="+work, "GOCOVERDIR="+cov, "GOTRACEBACK=all")
	if isolated {
		cmd.Env = append(cmd.Env, "MON_ISOLATED=1")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		harnessError("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var o outcome
	select {
	case <-done:
	case <-time.After(limit):
		o.timeout = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
	}
	so.Close()
	se.Close()
	o.stderr = tail(filepath.Join(work, "stderr"), 40000)
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	o.code = cmd.ProcessState.ExitCode()
	o.killed = ws.Signaled() && ws.Signal() == syscall.SIGKILL
	if b, err := os.ReadFile(filepath.Join(work, "result.json")); err == nil {
		r := &Result{}
		if json.Unmarshal(b, r) == nil {
			o.res = r
		}
	}
	return o
}

func supervise(prop, tier, only string) int {
	start := time.Now()
	vd := verifDir()
	work, err := os.MkdirTemp("", "mon-"+prop+"-")
	if err != nil {
		harnessError("%v", err)
	}
	if os.Getenv("MON_KEEP") == "" {
		defer os.RemoveAll(work)
	}
	limit := 700 * time.Second
	if tier == "thorough" {
		limit = 8 * time.Hour
	}
	o := runChild(filepath.Join(work, "main"), prop, tier, only, limit, false)
	var viol []Violation
judge:
	switch {
	case o.code == 0 && o.res != nil:
		viol = o.res.Violations
	case o.code == 3:
		fmt.Fprintln(os.Stderr, o.stderr)
		return 2
	case o.code == 97:
		var st struct {
			Suite  string `json:"suite"`
			Case   int    `json:"case"`
			Stacks string `json:"stacks"`
		}
		b, _ := os.ReadFile(filepath.Join(work, "main", "stuck.json"))
		json.Unmarshal(b, &st)
		// The machine may just be slow: look at the case alone.
		oo := runChild(filepath.Join(work, "alone"), prop, tier, fmt.Sprintf("%s:%d", st.Suite, st.Case), isolatedLimit, true)
		v := Violation{Property: prop, Suite: st.Suite, Case: st.Case, Seed: seedEnv(), Tier: tier}
		switch {
		case oo.timeout:
			v.Message = fmt.Sprintf("did not finish in %v on its own", isolatedLimit)
			v.Stack = oo.stderr
			viol = append(viol, v)
		case oo.res != nil && len(oo.res.Violations) > 0:
			viol = oo.res.Violations
		case oo.code != 0:
			v.Message = fmt.Sprintf("crashed, exit %d", oo.code)
			v.Stack = oo.stderr
			viol = append(viol, v)
		default:
			if os.Getenv("MON_PATIENT") != "" {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: case %s:%d was slow once but finishes alone\n", st.Suite, st.Case)
				return 2
			}
			// It was only slow; once more, without looking at the clock.
			fmt.Fprintf(os.Stderr, "case %s:%d was slow once but finishes alone, starting again\n", st.Suite, st.Case)
			os.Setenv("MON_PATIENT", "1")
			if tier != "thorough" {
				limit = 850*time.Second - time.Since(start)
			}
			os.RemoveAll(filepath.Join(work, "main"))
			o = runChild(filepath.Join(work, "main"), prop, tier, only, limit, false)
			goto judge
		}
	case o.killed:
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: the run was killed from outside")
		return 2
	case o.timeout:
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: run exceeded %v\n%s\n", limit, o.stderr)
		return 2
	default:
		v := Violation{Property: prop, Suite: "(process)", Case: -1, Seed: seedEnv(), Tier: tier,
			Message: fmt.Sprintf("process crashed, exit %d", o.code), Stack: o.stderr}
		viol = append(viol, v)
	}
	if o.res == nil {
		o.res = &Result{Rule: "run ended early", Samples: []any{"none"}}
	}
	for _, k := range o.res.Known {
		fmt.Println(k)
	}
	if only == "" {
		cov := map[string]any{
			"evaluations":         o.res.Evals,
			"distinct_nontrivial": o.res.Distinct,
			"rule":                o.res.Rule,
			"samples":             o.res.Samples,
			"events":              o.res.Counters,
			"suites":              o.res.Suites,
		}
		if len(o.res.Samples) == 0 {
			cov["samples"] = []any{}
		}
		if o.res.Exhaustive {
			cov["exhaustive"] = true
		}
		for k, v := range o.res.Extra {
			cov[k] = v
		}
		if sc := statementCoverage(filepath.Join(work, "main", "cov")); sc != nil {
			cov["repo_statements_reached"] = sc
		}
		seed := int64(seedEnv())
		ev := map[string]any{
			"property": prop, "tier": tier, "seed": seed, "level": checks[prop].level,
			"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
			"assumptions": o.res.Assume,
		}
		if o.res.Assume == nil {
			ev["assumptions"] = []string{}
		}
		writeJSON(filepath.Join(vd, "evidence", prop+".json"), ev)
	}
	if len(viol) > 0 {
		for i, v := range viol {
			p := filepath.Join(vd, "replay", fmt.Sprintf("%s-%s-%d-%d.json", prop, strings.Map(func(r rune) rune {
				if r == '/' || r == ' ' || r == '(' || r == ')' {
					return '_'
				}
				return r
			}, v.Suite), v.Case, i))
			writeJSON(p, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			m := v.Message
			if len(m) > 600 {
				m = m[:600] + "..."
			}
			fmt.Printf("  %s case %d: %s\n", v.Suite, v.Case, m)
			if i >= 4 {
				break
			}
		}
		return 1
	}
	if o.res.Evals == 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing was observed")
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", prop, tier, o.res.Evals, o.res.Distinct, time.Since(start).Seconds())
	return 0
}

// statementCoverage says which share of the repository's hand-written
// statements the run executed, per file.
func statementCoverage(dir string) map[string]string {
	out := filepath.Join(dir, "txt")
	cmd := exec.Command("go", "tool", "covdata", "textfmt", "-i="+dir, "-o="+out)
	cmd.Dir = dir
	if o, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "coverage: %v %s\n", err, o)
		return nil
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil
	}
	type st struct{ all, hit int }
	m := map[string]*st{}
	for _, l := range strings.Split(string(b), "\n") {
		f, rest, ok := strings.Cut(l, ".go:")
		if !ok {
			continue
		}
		var pos string
		var n, hit int
		if k, _ := fmt.Sscan(rest, &pos, &n, &hit); k != 3 {
			continue
		}
		if !strings.HasPrefix(f, "github.com/ipfs/go-ipld-git/") {
			continue
		}
		f = filepath.Base(f) + ".go"
		if m[f] == nil {
			m[f] = &st{}
		}
		m[f].all += n
		if hit > 0 {
			m[f].hit += n
		}
	}
	r := map[string]string{}
	var names []string
	for f := range m {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		r[f] = fmt.Sprintf("%d/%d", m[f].hit, m[f].all)
	}
	if len(r) == 0 {
		return nil
	}
	return r
}
