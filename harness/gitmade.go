package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// helperMain runs the modes the checks start as processes of their own.
func helperMain(args []string) bool {
	switch args[0] {
	case "race":
		raceMain(args[1:])
		return true
	case "ambient":
		ambientMain(args[1:])
		return true
	case "trace":
		traceMain(args[1:])
		return true
	}
	return false
}

// gitRepo makes a repository with git's own commands: nested trees, symlinks,
// executables, submodule entries, branches, merges, octopus merges, merges of
// annotated tags, tags of every kind of object, other commit encodings.
func gitRepo(c *Ctx, name string, k int) *Git {
	g := newGit(c, name)
	r := caseRand(c.Seed, "gitrepo", name, k)
	gen := Gen{Rand: r, Clean: true}
	var fi bytes.Buffer
	mark := 0
	blob := func(data string) int {
		mark++
		fmt.Fprintf(&fi, "blob\nmark :%d\ndata %d\n%s\n", mark, len(data), data)
		return mark
	}
	var commits []int
	names := []string{"a", "b.txt", "dir/x", "dir/y z", "dir/sub/deep/er/f", "dir.go", "dir0", "z", "ümlaut/日本", "with space/q", "tree", "parents", "0", "1", "hash/mode", "mode", "5", "12", "007", "-1", "nr/3", "nr/4", "nr/1/2"}
	ncommits := 20 + 10*k
	for i := 0; i < ncommits; i++ {
		var files []string
		for j := r.IntN(5); j >= 0; j-- {
			n := pick(r, names)
			if i > 3 && r.IntN(12) == 0 {
				files = append(files, "D "+n)
				continue
			}
			if r.IntN(15) == 0 {
				files = append(files, fmt.Sprintf("M 160000 %040x sub%d", 0x1234567+i, r.IntN(3)))
				continue
			}
			b := blob(gen.message())
			mode := pick(r, []string{"100644", "100755", "120000", "100644"})
			files = append(files, fmt.Sprintf("M %s :%d %s", mode, b, n))
		}
		mark++
		msg := gen.message()
		au, co := gen.person(), gen.person()
		au.Name, co.Name = cleanName(au.Name), cleanName(co.Name)
		au.Email, co.Email = strings.TrimSpace(au.Email), strings.TrimSpace(co.Email)
		branch := pick(r, []string{"main", "dev", "topic"})
		fmt.Fprintf(&fi, "commit refs/heads/%s\nmark :%d\nauthor %s\ncommitter %s\n", branch, mark, au.Line(), co.Line())
		if r.IntN(5) == 0 {
			fi.WriteString("encoding ISO-8859-1\n")
		}
		fmt.Fprintf(&fi, "data %d\n%s\n", len(msg), msg)
		if len(commits) > 0 {
			from := commits[len(commits)-1-r.IntN(min(len(commits), 4))]
			fmt.Fprintf(&fi, "from :%d\n", from)
			used := map[int]bool{from: true}
			for m := r.IntN(8) - 4; m > 0; m-- {
				x := pick(r, commits)
				if !used[x] {
					used[x] = true
					fmt.Fprintf(&fi, "merge :%d\n", x)
				}
			}
		}
		for _, f := range files {
			fi.WriteString(f + "\n")
		}
		fi.WriteString("\n")
		commits = append(commits, mark)
		if r.IntN(4) == 0 {
			m := gen.message() + "."
			ta := gen.person()
			ta.Name = cleanName(ta.Name)
			ta.Email = strings.TrimSpace(ta.Email)
			fmt.Fprintf(&fi, "tag ft%d\nfrom :%d\ntagger %s\ndata %d\n%s\n", i, mark, ta.Line(), len(m), m)
		}
	}
	g.must(fi.Bytes(), "-c", "core.protectNTFS=false", "fast-import", "--quiet", "--force")
	// tags of every kind of object, tag of a tag
	g.must(nil, "tag", "-a", "-m", "a tree", "t-tree", "main^{tree}")
	b := g.must([]byte("tagged blob\n"), "hash-object", "-w", "--stdin")
	g.must(nil, "tag", "-a", "-m", "a blob\n\nbody", "t-blob", b)
	g.must(nil, "tag", "-a", "-m", "a commit", "t-commit", "main")
	g.must(nil, "tag", "-a", "-m", "a tag", "t-tag", "t-commit")
	// merge commits that embed the merged tags, made by git merge
	g.must(nil, "checkout", "-q", "-f", "main")
	for i := 0; i < 2; i++ {
		g.must(nil, "checkout", "-q", "-f", "-b", fmt.Sprintf("side%d", i), "main")
		os.WriteFile(filepath.Join(g.Dir, "side"+strconv.Itoa(i)), []byte("x\n"), 0o644)
		g.must(nil, "add", "side"+strconv.Itoa(i))
		g.must(nil, "commit", "-q", "-m", "side")
		g.must(nil, "tag", "-a", "-m", fmt.Sprintf("side %d\n\nwith\n\nlines\n", i), fmt.Sprintf("ts%d", i))
	}
	g.must(nil, "checkout", "-q", "-f", "main")
	g.must(nil, "-c", "core.editor=true", "merge", "-q", "--no-ff", "--no-edit", "ts0", "ts1")
	g.must(nil, "checkout", "-q", "-f", "-b", "again", "main")
	os.WriteFile(filepath.Join(g.Dir, "again"), []byte("x\n"), 0o644)
	g.must(nil, "add", "again")
	g.must(nil, "commit", "-q", "-m", "again", "--allow-empty-message")
	g.must(nil, "tag", "-a", "-m", "again", "ta")
	g.must(nil, "checkout", "-q", "-f", "main")
	g.must(nil, "-c", "core.editor=true", "merge", "-q", "--no-ff", "--no-edit", "ta")
	g.must(nil, "commit", "-q", "--allow-empty", "--allow-empty-message", "-m", "")
	return g
}

func cleanName(s string) string {
	s = strings.TrimSpace(s)
	if s == "" {
		return "N"
	}
	return s
}

// gitMade is every object of some repositories made by git.
func gitMade(c *Ctx, n int) map[string][]byte {
	out := map[string][]byte{}
	if c.Only != "" && !strings.HasPrefix(c.Only, "git-made") {
		return out
	}
	for k := 0; k < n; k++ {
		g := gitRepo(c, fmt.Sprintf("made%d", k), k)
		for id, raw := range g.objects(g.allIDs()) {
			out[id] = raw
		}
	}
	return out
}
