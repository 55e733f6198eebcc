package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// archiveObjects are the loose objects of the repository's test archive, by id.
func archiveObjects() map[string][]byte {
	out := map[string][]byte{}
	f, err := os.Open(filepath.Join(repoDir(), "testdata.tar.gz"))
	if err != nil {
		return out
	}
	defer f.Close()
	gz, err := gzip.NewReader(f)
	if err != nil {
		return out
	}
	tr := tar.NewReader(gz)
	for {
		h, err := tr.Next()
		if err != nil {
			return out
		}
		p := strings.Split(h.Name, "/")
		if h.Typeflag != tar.TypeReg || len(p) != 4 || p[1] != "objects" || len(p[2]) != 2 {
			continue
		}
		zr, err := zlib.NewReader(tr)
		if err != nil {
			continue
		}
		b, err := io.ReadAll(zr)
		if err != nil {
			continue
		}
		out[p[2]+p[3]] = b
	}
}

// Git is a scratch git repository.
type Git struct {
	Dir   string
	Index string // "": the repository's own
}

func newGit(c *Ctx, name string) *Git {
	d := filepath.Join(c.Work, name)
	if err := os.MkdirAll(d, 0o755); err != nil {
		harnessError("%v", err)
	}
	g := &Git{Dir: d}
	g.must(nil, "init", "-q", "-b", "main", ".")
	g.must(nil, "config", "core.symlinks", "false")
	g.must(nil, "config", "gc.auto", "0")
	return g
}

func (g *Git) cmd(in []byte, args ...string) ([]byte, error) {
	cmd := exec.Command("git", args...)
	cmd.Dir = g.Dir
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = append(os.Environ(), "HOME="+g.Dir, "GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CEILING_DIRECTORIES="+filepath.Dir(g.Dir),
		"GIT_DIR="+filepath.Join(g.Dir, ".git"), "GIT_WORK_TREE="+g.Dir,
		"GIT_AUTHOR_NAME=A U Thor", "GIT_AUTHOR_EMAIL=author@example.com", "GIT_AUTHOR_DATE=1503667703 +0200",
		"GIT_COMMITTER_NAME=C O Mitter", "GIT_COMMITTER_EMAIL=committer@example.com", "GIT_COMMITTER_DATE=1503667704 -0530", "LC_ALL=C")
	if g.Index != "" {
		cmd.Env = append(cmd.Env, "GIT_INDEX_FILE="+g.Index)
	}
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		return out, fmt.Errorf("git %v: %v: %s", args, err, se.String())
	}
	return out, nil
}

func (g *Git) must(in []byte, args ...string) string {
	out, err := g.cmd(in, args...)
	if err != nil {
		harnessError("%v", err)
	}
	return strings.TrimSuffix(string(out), "\n")
}

// object reads every listed object from git, with its header restored.
func (g *Git) objects(ids []string) map[string][]byte {
	out, err := g.cmd([]byte(strings.Join(ids, "\n")+"\n"), "cat-file", "--batch")
	if err != nil {
		harnessError("%v", err)
	}
	res := map[string][]byte{}
	for len(out) > 0 {
		i := bytes.IndexByte(out, '\n')
		f := strings.Fields(string(out[:i]))
		out = out[i+1:]
		if len(f) != 3 {
			continue
		}
		var n int
		fmt.Sscan(f[2], &n)
		raw := append([]byte(f[1]+" "+f[2]+"\x00"), out[:n]...)
		res[f[0]] = raw
		out = out[n+1:]
	}
	return res
}

// allIDs lists every object in the repository.
func (g *Git) allIDs() []string {
	s := g.must(nil, "cat-file", "--batch-all-objects", "--batch-check=%(objectname)")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}
