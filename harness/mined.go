package main

import (
	"encoding/hex"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
)

// Texts and numbers that mean something to git or to those who work with it. A
// codec must not treat any of them in a special way.
var meaningful = []string{
	"refs/heads/main", "refs/tags/v1.0", "HEAD", "master", "v1.0", "v0.0.0-20200101000000-abcdef123456", "origin",
	"UTF-8", "utf-8", "UTF8", "ISO-8859-1", "latin1", "SHIFT-JIS", "ASCII", "none", "none@none", "(none)", "(no author)", "unknown", "root", "root@localhost", "nobody",
	"dependabot[bot]", "12345+user@users.noreply.github.com", "noreply@github.com", "GitHub", "git@github.com:a/b.git",
	"Signed-off-by: A <a@b>", "Co-authored-by: A <a@b>", "Change-Id: I0123456789", "git-svn-id: svn://x@1 uuid", "Merge branch 'x'", "fixup! x", "squash! x", "Revert \"x\"", "[skip ci]", "WIP",
	"# a comment", "#", "# ------------------------ >8 ------------------------", "---", "diff --git a/x b/x", "\ufefftext", "\ufeff", "text\x00", "text ", "text\t", " text", "\ttext", "text\r",
	"-----BEGIN SSH SIGNATURE-----", "-----BEGIN SIGNED MESSAGE-----", "-----BEGIN CERTIFICATE-----", "-----END PGP SIGNATURE-----", "-----BEGIN PGP SIGNATURE-----", "Version: GnuPG v2", "Comment: x", "gpgsig", "gpgsig-sha256",
	".git", ".gitmodules", ".gitattributes", ".gitignore", ".mailmap", ".DS_Store", "README.md", "Makefile", "go.mod", "node_modules", "CON", "aux", "a:b", "~", "a~1", "-", "--", "-x", "*", "?",
	"NaN", "true", "false", "nil", "<nil>", "undefined", "None", "0x0", "1e9", "+0", "00", "0000000000000000000000000000000000000000",
	"e\u0301", "\u00e9", "\u212b", "\u00c5", "\u200b", "\u200d", "\u202e", "\u00ad", "ﬁ", "Ⅷ", "İ", "ı", "ǅ", "ſ",
	"4b825dc642cb6eb9a060e54bf8d69288fbee4904", "e69de29bb2d1d6434b8b29ae775ad8c2e48c5391", "ffffffffffffffffffffffffffffffffffffffff",
}

// ambient says that this process works in odd surroundings for C25: its inputs must
// not depend on them, so nothing is read from the source.
var ambient bool

// mined are the texts and numbers that the source of the repository mentions:
// whatever the code treats in a special way is likely to be among them. They only
// direct the generators.
var mined = sync.OnceValue(func() (m struct {
	texts []string
	nums  []int64
	shas  []Sha
}) {
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	if ambient {
		dir = ""
	}
	texts, nums := map[string]bool{}, map[int64]bool{}
	for _, n := range []int64{0, 1, 16, 100, 128, 256, 1000, 1024, 4096, 65536} {
		nums[n] = true
	}
	for _, s := range meaningful {
		texts[s] = true
	}
	var files []string
	if dir != "" {
		files, _ = filepath.Glob(filepath.Join(dir, "*.go"))
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		t, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case ast.Expr:
				v := constantOf(x)
				switch v.Kind() {
				case constant.String:
					// not the error texts of the generated code
					if s := constant.StringVal(v); s != "" && len(s) <= 200 && !strings.Contains(s, "ipldgit.") && !strings.Contains(s, "invalid state") && !strings.Contains(s, "misuse") {
						texts[s] = true
					}
				case constant.Int:
					if i, ok := constant.Int64Val(v); ok {
						nums[i] = true
					}
				}
			}
			return true
		})
	}
	for _, s := range sortedKeys(texts) { // and the parts of what has parts
		if k, v, ok := strings.Cut(strings.TrimSpace(s), " "); ok {
			texts[k], texts[v], texts[strings.TrimSpace(s)] = true, true, true
		}
	}
	delete(texts, "")
	for s := range texts {
		m.texts = append(m.texts, s)
		if b, err := hex.DecodeString(s); err == nil && len(b) == 20 {
			m.shas = append(m.shas, Sha(b))
		}
	}
	for i := range nums {
		m.nums = append(m.nums, i)
	}
	sort.Strings(m.texts)
	sort.Slice(m.nums, func(i, j int) bool { return m.nums[i] < m.nums[j] })
	sort.Slice(m.shas, func(i, j int) bool { return string(m.shas[i][:]) < string(m.shas[j][:]) })
	return
})

// constantOf is the value of a constant expression made of literals.
func constantOf(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if x.Kind == token.CHAR {
			if i, ok := constant.Int64Val(v); ok {
				return constant.MakeString(string(rune(i)))
			}
		}
		return v
	case *ast.ParenExpr:
		return constantOf(x.X)
	case *ast.BinaryExpr:
		a, b := constantOf(x.X), constantOf(x.Y)
		if a.Kind() != constant.Int || b.Kind() != constant.Int {
			break
		}
		switch x.Op {
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(b); ok && s < 70 {
				return constant.Shift(a, x.Op, uint(s))
			}
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return constant.MakeUnknown()
}

// special is one of the texts above, rarely, without the bytes that would end the
// field it is for.
func (g Gen) special(percent int, bad string) (string, bool) {
	if g.Clean || !g.p(percent) {
		return "", false
	}
	s := cutBytes(pick(g.Rand, mined().texts), bad)
	if g.UTF8 && !utf8.ValidString(s) {
		return "", false
	}
	switch g.IntN(12) {
	case 0:
		s += s
	case 1:
		s = strings.ToUpper(s)
	case 2, 3:
		s = cutBytes(s+" "+g.word(), bad)
	case 4:
		s = cutBytes(s+g.word(), bad)
	case 5:
		s = strings.TrimPrefix(s, " ")
	case 6:
		if i := g.IntN(len(s) + 1); utf8.ValidString(s[:i]) {
			s = s[:i]
		}
	}
	return s, true
}

// number is a number the source mentions, or one next to it, at most max.
func (g Gen) number(max int64) (int64, bool) {
	n := pick(g.Rand, mined().nums) + int64(g.IntN(3)) - 1
	return n, n >= 0 && n <= max
}
