package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// finding is one line of the committed known-findings file:
//
//	finding: property=C01 id=K1 probe=roundtrip input=<hex> observed=<text> what=<text>
type finding struct {
	prop, id, probe, observed, what string
	input                           []byte
}

func loadFindings() []finding {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		harnessError("known findings: %v", err)
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l, what, _ := strings.Cut(l, " what=")
		k := finding{what: what}
		for _, kv := range strings.Fields(l)[1:] {
			n, v, _ := strings.Cut(kv, "=")
			switch n {
			case "property":
				k.prop = v
			case "id":
				k.id = v
			case "probe":
				k.probe = v
			case "observed":
				k.observed = v
			case "input":
				b, err := hex.DecodeString(v)
				if err != nil {
					harnessError("known findings: %v", err)
				}
				k.input = b
			}
		}
		out = append(out, k)
	}
	return out
}

// runFindings runs the probes of the listed findings of a property. A probe
// returns what it observed ("ok" if the property holds for that input). The
// exact listed observation is the known finding; any other one but "ok" is a
// new violation.
func (c *Ctx) runFindings(probes map[string]func(t *T, input []byte) string) {
	var mine []finding
	for _, k := range loadFindings() {
		if k.prop == c.Prop {
			mine = append(mine, k)
		}
	}
	c.RunSeq("known-findings", len(mine), func(t *T) {
		k := mine[t.Idx]
		t.Input(k.input)
		p := probes[k.probe]
		if p == nil {
			harnessError("no probe %q", k.probe)
		}
		got := p(t, k.input)
		switch got {
		case "ok":
			t.Count("known-finding-no-longer-fails:" + k.id)
		case k.observed:
			t.Count("known-finding-observed:" + k.id)
			c.Note("KNOWN-FINDING: property=%s %s: %s", c.Prop, k.id, k.what)
		default:
			t.Failf("known finding %s (%s): observed %s, listed %s", k.id, k.what, got, k.observed)
		}
	})
}

// probeRoundTrip observes decode-then-encode on one input.
func probeRoundTrip(t *T, in []byte) string {
	n, err := parse(in)
	if err != nil {
		return "decode-error"
	}
	out, err := encode(n)
	if err != nil {
		return "encode-error"
	}
	if string(out) == string(in) {
		return "ok"
	}
	h := sha256.Sum256(out)
	return fmt.Sprintf("output-sha256-%x", h[:8])
}
