package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
)

// Gen draws well-formed git objects, with a bias to what codecs get wrong:
// lengths around buffer sizes, carriage returns, repeated spaces, near-miss
// keywords, header text inside messages, formatting verbs, many items.
type Gen struct {
	*rand.Rand
	// Clean restricts the values to those `git hash-object` accepts and that
	// are valid UTF-8.
	Clean bool
	// UTF8 restricts text to valid UTF-8.
	UTF8 bool
	// Small keeps objects short.
	Small bool
}

func (g Gen) p(percent int) bool { return g.IntN(100) < percent }

func pick[E any](r *rand.Rand, s []E) E { return s[r.IntN(len(s))] }

func (g Gen) length() int {
	if !g.Small && g.p(2) {
		if n, ok := g.number(1 << 17); ok {
			return int(n)
		}
	}
	r := g.IntN(100)
	switch {
	case g.Small:
		return g.IntN(24)
	case r < 62:
		return g.IntN(40)
	case r < 85:
		return g.IntN(300)
	case r < 97:
		base := pick(g.Rand, []int{16, 64, 128, 256, 512, 1024, 2048, 4096, 4096, 4096, 8192, 16384})
		return max(0, base-40+g.IntN(80))
	default:
		return g.IntN(20000)
	}
}

func (g Gen) bigLength() int {
	if g.Small {
		return g.IntN(64)
	}
	if g.p(3) {
		return pick(g.Rand, []int{65536, 32768, 131072}) - 40 + g.IntN(80)
	}
	return g.length()
}

var words = []string{
	"a", "B", "John", "Doe", "van", "der", "O'Neil", "x@y.z", "johndoe@example.com", "%s", "%d%%", "%!v(", "%x", "100%",
	"tree", "parent", "author", "committer", "encoding", "mergetag", "object", "gpgsig", "tagger", "type", "tag", "commit",
	"-----BEGIN", "PGP", "SIGNATURE-----", "\\n", "\"q\"", "'", "`", "&", "(c)", "#1", "0", "-1", "+0000", "1503667703", "\t", "\r", "\v", "\x1b[0m", "\x7f",
	"Łukasz", "日本語", "🚀", "é", "ß", "\u00a0", "\u2028", "\ufeff", "null", "/", "..", ",", ".", "=", "{}", "[]",
}
var rawWords = []string{"\xe9", "\xff\xfe", "\xc3", "J\xf6rg", "\x80\x81", "\xed\xa0\x80"}
var cleanWords = []string{"a", "B", "John", "Doe", "van", "der", "O'Neil", "Łukasz", "日本語", "🚀", "%s", "100%", "tree", "author", "tagger", "(c)", "#1", "&", "x.y", "null", "=", "{}", "-1", "+0000"}

func (g Gen) word() string {
	if g.Clean {
		return pick(g.Rand, cleanWords)
	}
	if s, ok := g.special(3, "\n\x00"); ok && s != "" {
		return s
	}
	r := g.IntN(100)
	switch {
	case r < 60:
		return pick(g.Rand, words)
	case r < 75 && !g.UTF8:
		if g.p(40) { // any bytes that do not end a line or text
			b := make([]byte, 1+g.IntN(9))
			for i := range b {
				for b[i] == 0 || b[i] == '\n' {
					b[i] = byte(g.Uint32())
				}
			}
			return string(b)
		}
		return pick(g.Rand, rawWords)
	default:
		n := 1 + g.IntN(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.@+"[g.IntN(47)]
		}
		return string(b)
	}
}

// line is text without a newline, of about n bytes.
func (g Gen) line(n int) string {
	var sb strings.Builder
	if n > 2000 && g.p(50) {
		// one unbroken run
		c := pick(g.Rand, []string{"a", "x", "0", ".", " "})
		sb.WriteString(g.word())
		sb.WriteString(strings.Repeat(c, n))
		sb.WriteString(g.word())
		return sb.String()[:n]
	}
	for sb.Len() < n {
		sb.WriteString(g.word())
		if sb.Len() >= n {
			break
		}
		sb.WriteString(strings.Repeat(" ", 1+g.IntN(100)/90))
	}
	return sb.String()
}

func cutBad(s, bad string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(bad, r) {
			return 'x'
		}
		return r
	}, s)
}

// cutBytes replaces bytes without touching invalid UTF-8.
func cutBytes(s, bad string) string {
	b := []byte(s)
	for i, c := range b {
		if strings.IndexByte(bad, c) >= 0 {
			b[i] = 'x'
		}
	}
	return string(b)
}

func (g Gen) name() string {
	if g.p(6) {
		return ""
	}
	if s, ok := g.special(3, "<>\n\x00"); ok {
		return strings.TrimLeft(s, " ")
	}
	n := 1 + g.IntN(4)
	if g.p(4) && !g.Small {
		n = g.length() / 4
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(' ')
			for g.p(7) {
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(g.word())
	}
	if g.p(5) {
		sb.WriteString(strings.Repeat(" ", 1+g.IntN(3)))
	}
	s := cutBytes(sb.String(), "<>\n\x00")
	s = strings.TrimLeft(s, " ")
	if g.Clean {
		s = strings.Trim(s, " ")
	}
	return s
}

func (g Gen) email() string {
	if g.p(5) {
		return ""
	}
	if s, ok := g.special(3, "<>\n\x00"); ok {
		return s
	}
	var s string
	switch g.IntN(6) {
	case 0:
		s = g.name() + ", " + g.name()
	case 1:
		s = g.word() + "@" + g.word() + strings.Repeat(" ", g.IntN(3)) + g.word()
	case 2:
		s = strings.Repeat(" ", g.IntN(3)) + g.word() + strings.Repeat(" ", g.IntN(3))
	case 3:
		if g.Small {
			s = "x@y"
		} else {
			s = g.line(g.length())
		}
	default:
		s = g.word() + "@" + g.word() + ".com"
	}
	return cutBytes(s, "<>\n\x00")
}

func (g Gen) person() *Person {
	p := &Person{Name: g.name(), Email: g.email()}
	if g.Clean {
		p.Date = strconv.Itoa(g.IntN(2000000000))
		p.TZ = fmt.Sprintf("%c%02d%02d", "+-"[g.IntN(2)], g.IntN(14), g.IntN(60))
		return p
	}
	if g.p(12) {
		return p
	}
	switch g.IntN(11) {
	case 10:
		n, _ := g.number(0)
		p.Date = strconv.FormatInt(n, 10)
	case 0:
		p.Date = "0"
	case 1:
		p.Date = "-" + strconv.Itoa(g.IntN(100000))
	case 2:
		p.Date = strings.Repeat("9", 1+g.IntN(40))
	case 3:
		p.Date = "00" + strconv.Itoa(g.IntN(1000))
	default:
		p.Date = strconv.FormatInt(g.Int64N(4000000000), 10)
	}
	if g.p(10) {
		return p
	}
	switch g.IntN(8) {
	case 0:
		p.TZ = pick(g.Rand, []string{"0", "+0", "-0", "-0000", "+051800", "--700", "+1", "UTC", "Z", "-7777777"})
	default:
		p.TZ = fmt.Sprintf("%c%02d%02d", "+-"[g.IntN(2)], g.IntN(15), g.IntN(60))
	}
	return p
}

// tagger is a person that is not entirely empty.
func (g Gen) tagger() *Person {
	p := g.person()
	if *p == (Person{}) {
		p.Name = "T"
	}
	return p
}

func (g Gen) sha() (s Sha) {
	for i := range s {
		s[i] = byte(g.Uint32())
	}
	switch g.IntN(12) {
	case 0:
		s = Sha{}
	case 1:
		for i := range s {
			s[i] = 0xff
		}
	case 2: // bytes that mean something elsewhere
		for i := range s {
			s[i] = " \n\x00\r/<>"[g.IntN(7)]
		}
	case 3:
		s[0], s[19] = 0, 0
	case 4:
		if g.p(40) {
			s = pick(g.Rand, mined().shas)
		}
	}
	if g.Clean && s == (Sha{}) {
		s[3] = 7
	}
	return
}

func (g Gen) message() string {
	if g.p(8) {
		return ""
	}
	var sb strings.Builder
	if s, ok := g.special(3, ""); ok {
		sb.WriteString(s + pick(g.Rand, []string{"\n", "", " ", "\n\n"}))
	}
	n := 1 + g.IntN(4)
	if g.p(8) && !g.Small {
		n = g.IntN(60)
	}
	if g.p(2) && sb.Len() > 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		switch g.IntN(14) {
		case 0:
			sb.WriteString("\n")
		case 1:
			sb.WriteString("\n\n\n")
		case 2:
			sha := g.sha()
			sb.WriteString(pick(g.Rand, []string{"tree ", "parent ", "object ", "mergetag object "}) + hex.EncodeToString(sha[:]) + "\n")
		case 3:
			sb.WriteString("author " + g.person().Line() + "\n")
		case 4:
			sb.WriteString("gpgsig -----BEGIN PGP SIGNATURE-----\n \n abc\n -----END PGP SIGNATURE-----\n")
		case 5:
			sb.WriteString("-----BEGIN PGP SIGNATURE-----\n\niQ==\n-----END PGP SIGNATURE-----\n")
		case 6:
			sb.WriteString(g.line(g.bigLength()))
		case 7:
			sb.WriteString(g.line(g.length()) + "\r\n")
		case 8:
			if !g.Clean {
				sb.WriteString(pick(g.Rand, []string{"\x00", "a\x00b\n", "\x00\n", "\r", "\t", " ", " \n", "\x1a"}))
			}
		default:
			sb.WriteString(g.line(g.length()) + "\n")
		}
	}
	if s, ok := g.special(3, ""); ok {
		sb.WriteString(s + pick(g.Rand, []string{"\n", ""}))
	}
	return sb.String()
}

// sig is the raw lines inside a PGP armour of a gpgsig header.
func (g Gen) sig() string {
	var sb strings.Builder
	switch g.IntN(6) {
	case 0:
		sb.WriteString(" Version: " + cutBytes(g.line(g.length()), "\n") + "\n")
		if g.p(50) {
			sb.WriteString(" Comment: " + pick(g.Rand, []string{"GPGTools", "-----END PGP SIGNATURE-----", "https://x.y", ""}) + "\n")
		}
		sb.WriteString(" \n")
	case 1:
		sb.WriteString(" Comment: " + cutBytes(g.line(g.length()), "\n") + "\n \n")
	case 2:
		sb.WriteString(" Version: GnuPG v1\n")
		if g.p(50) {
			sb.WriteString(" \n")
		}
	default:
		sb.WriteString(" \n")
	}
	n := g.IntN(14)
	if g.p(5) && !g.Small {
		n = g.IntN(300)
	}
	for i := 0; i < n; i++ {
		l := 64
		if g.p(4) && !g.Small {
			l = g.length()
		}
		b := make([]byte, l)
		for j := range b {
			b[j] = "ABCDEFabcdef0123456789+/"[g.IntN(24)]
		}
		sb.WriteString(" " + string(b) + "\n")
		if s, ok := g.special(3, "\n"); ok && s != "-----END PGP SIGNATURE-----" {
			sb.WriteString(" " + s + "\n")
		}
		if g.p(2) && !g.Clean { // nothing says what the lines hold
			if l := pick(g.Rand, []string{"", "", "-----END PGP SIGNATURE----- ", "-----END PGP SIGNATURE-----\r", " -----END PGP SIGNATURE-----", "-----END PGP SIGNATURE-----x", "-----END PGP SIGNATURE----", "-----END PGP MESSAGE-----", "-----END SSH SIGNATURE-----", "-----BEGIN PGP SIGNATURE-----", "-----end pgp signature-----", "=abcd"}); l != "" {
				sb.WriteString(" " + l + "\n")
			} else {
				sb.WriteString(" " + strings.ReplaceAll(cutBytes(g.line(g.length()), "\n"), "-----END", "-----") + "\n")
			}
		}
	}
	sb.WriteString(" =" + g.word4() + "\n")
	return sb.String()
}

func (g Gen) word4() string {
	b := make([]byte, 4)
	for j := range b {
		b[j] = "ABCDEFabcdef0123456789+/"[g.IntN(24)]
	}
	return string(b)
}

var recognised = []string{"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object "}

func (g Gen) headerLine() string {
	key := pick(g.Rand, []string{"HG:rename-source", "HG:extra", "gpgsig-sha256", "treeish", "parents", "authored-by", "committers", "encodings", "x", "change-id", "Tree", "PARENT", "mergetags", "jj:trees", "branch", "revision", "tree-x", "Author", "message", "tagger", "object", "type", "tag"})
	if g.p(10) {
		return key
	}
	if k, ok := g.special(4, "\n"); ok && k != "" && k[0] != ' ' {
		key = k
	}
	v, ok := g.special(5, "\n")
	if !ok {
		v = cutBytes(g.line(g.length()), "\n")
	}
	if g.Clean {
		v = strings.ReplaceAll(v, "\x00", "")
	}
	line := key + " " + v
	for _, r := range recognised {
		if strings.HasPrefix(line, r) || line == "gpgsig -----BEGIN PGP SIGNATURE-----" {
			return "x" + line
		}
	}
	return line
}

// otherGroup is one unrecognised header with its continuation lines.
func (g Gen) otherGroup() []string {
	if g.p(20) { // a signature of another kind
		kind := pick(g.Rand, []string{"SSH SIGNATURE", "SIGNED MESSAGE", "PGP MESSAGE"})
		l := []string{"gpgsig -----BEGIN " + kind + "-----"}
		if !g.Clean && g.p(50) { // nearly a PGP signature
			kind = "PGP SIGNATURE"
			l[0] = pick(g.Rand, []string{"gpgsig-sha256 -----BEGIN PGP SIGNATURE-----", "gpgsig -----BEGIN PGP SIGNATURE----- ", "gpgsig -----BEGIN PGP SIGNATURE-----\r", "gpgsig  -----BEGIN PGP SIGNATURE-----", "gpgsig", "gpgsig ", "gpgsig -----BEGIN PGP SIGNATURE----", "GPGSIG -----BEGIN PGP SIGNATURE-----", "gpgsig -----BEGIN PGP SIGNATURE-----x", "gpgsig\t-----BEGIN PGP SIGNATURE-----", "gpgsig -----BEGIN RSA SIGNATURE-----"})
			if g.p(50) {
				l = append(l, " ")
			}
		}
		for i := g.IntN(5); i >= 0; i-- {
			l = append(l, " "+g.word4()+g.word4())
		}
		return append(l, " -----END "+kind+"-----")
	}
	l := []string{g.headerLine()}
	for g.p(30) {
		switch g.IntN(4) {
		case 0:
			l = append(l, " ")
		case 1:
			l = append(l, " "+pick(g.Rand, []string{"type commit", "tag x", "tagger A <b> 1 +0000", "-----END PGP SIGNATURE-----", "tree 0", "mergetag object x"}))
		default:
			v, ok := g.special(15, "\n")
			if !ok {
				v = cutBytes(g.line(g.length()), "\n")
			}
			l = append(l, " "+v)
		}
	}
	return l
}

func (g Gen) objType() string {
	if g.p(2) && !g.Clean {
		return ""
	}
	if s, ok := g.special(2, "\n"); ok {
		return s
	}
	return pick(g.Rand, []string{"commit", "commit", "tree", "blob", "tag"})
}

func (g Gen) tagName() string {
	if g.Clean {
		return pick(g.Rand, []string{"v1", "v1.0-rc1", "日本", "release/1.2", "a%d", "tagger"}) + strconv.Itoa(g.IntN(1000))
	}
	if s, ok := g.special(4, "\n"); ok || g.p(1) {
		return s
	}
	switch g.IntN(8) {
	case 0:
		return cutBytes(g.line(max(1, g.length())), "\n")
	case 1:
		return g.word() + " " + g.word()
	default:
		return pick(g.Rand, []string{"v1", "v1.0-rc1", "日本", "release/1.2", "%d", "tagger", "v\r", "tag x", "a  b", "v1 "}) + strconv.Itoa(g.IntN(1000))
	}
}

func (g Gen) tag() *Tag {
	t := &Tag{Object: g.sha(), Type: g.objType(), Name: g.tagName(), Tagger: g.tagger()}
	if g.p(12) && !g.Clean {
		t.Tagger = nil
	}
	t.Message = g.message()
	if t.Message == "" {
		t.NoBody = true
	}
	return t
}

func (g Gen) mergeTag() Tag {
	t := Tag{Object: g.sha(), Type: g.objType(), Name: g.tagName(), Tagger: g.tagger()}
	if g.p(12) && !g.Clean {
		t.Tagger = nil
	}
	m := g.message()
	if m != "" {
		var sb strings.Builder
		for _, l := range strings.Split(strings.TrimSuffix(m, "\n"), "\n") {
			sb.WriteString(" " + l + "\n")
		}
		t.Message = sb.String()
	}
	return t
}

func (g Gen) count(small, many int) int {
	r := g.IntN(100)
	if !g.Small && r == 99 && g.p(40) {
		if n, ok := g.number(5000); ok {
			return int(n)
		}
	}
	switch {
	case r < 45 || g.Small:
		return g.IntN(2)
	case r < 93:
		return g.IntN(small + 1)
	default:
		return g.IntN(many + 1)
	}
}

func (g Gen) commit() *Commit {
	c := &Commit{Tree: g.sha(), Author: g.person(), Committer: g.person(), Message: g.message()}
	for i := g.count(4, 120); i > 0; i-- {
		c.Parents = append(c.Parents, g.sha())
	}
	if n := len(c.Parents); n > 0 && g.p(8) { // the same parent again, next to it or elsewhere
		c.Parents = append(c.Parents, c.Parents[g.IntN(n)])
	}
	if n := len(c.Parents); n > 0 && g.p(4) {
		c.Parents[g.IntN(n)] = c.Tree
	}
	if g.p(25) {
		p := *c.Author
		c.Committer = &p
	}
	if g.p(25) {
		e := pick(g.Rand, []string{"ISO-8859-1", "UTF-8", "latin1", "x y", "%s", ""})
		if g.p(10) && !g.Clean {
			e = cutBytes(g.line(g.length()), "\n")
		}
		if s, ok := g.special(20, "\n"); ok {
			e = s
		}
		if g.Clean && e == "" {
			e = "latin1"
		}
		c.Encoding = &e
	}
	if !g.Clean {
		if g.p(3) {
			c.Author = nil
		}
		if g.p(3) {
			c.Committer = nil
		}
	}
	if g.p(35) {
		for i := 1 + g.count(3, 20); i > 0; i-- {
			c.MergeTags = append(c.MergeTags, g.mergeTag())
		}
		if g.p(20) { // one of them again, perhaps with one thing changed
			m := c.MergeTags[g.IntN(len(c.MergeTags))]
			switch g.IntN(6) {
			case 0:
				m.Object = g.sha()
			case 1:
				m.Name = g.tagName()
			case 2:
				m.Tagger = g.tagger()
			}
			k := g.IntN(len(c.MergeTags) + 1)
			c.MergeTags = append(c.MergeTags[:k], append([]Tag{m}, c.MergeTags[k:]...)...)
		}
		if n := len(c.Parents); n > 0 && g.p(30) { // as git does it: the tag of a merged parent
			c.MergeTags[0].Object = c.Parents[n-1]
		}
	}
	if g.p(35) {
		s := g.sig()
		c.Sig = &s
		switch {
		case g.p(25):
			c.Other = append(c.Other, " ")
		case g.p(8): // a second signature after the first
			c.Other = append(c.Other, " -----BEGIN PGP SIGNATURE-----", " ", " "+g.word4(), " -----END PGP SIGNATURE-----")
		}
	}
	if g.p(35) {
		for i := 1 + g.count(4, 30); i > 0; i-- {
			o := g.otherGroup()
			c.Other = append(c.Other, o...)
			if g.p(10) {
				c.Other = append(c.Other, o...)
			}
		}
	}
	return c
}

// shuffled gives the commit's extra headers another order.
func (g Gen) shuffled(c *Commit) {
	var groups [][]byte
	for range c.MergeTags {
		groups = append(groups, []byte{'m'})
	}
	var cur []byte
	var og [][]byte
	sig := []byte{}
	if c.Sig != nil {
		sig = []byte{'s'}
	}
	i := 0
	for ; i < len(c.Other) && strings.HasPrefix(c.Other[i], " ") && c.Sig != nil; i++ {
		sig = append(sig, 'o')
	}
	nlead := len(sig)
	for ; i < len(c.Other); i++ {
		if !strings.HasPrefix(c.Other[i], " ") && cur != nil {
			og = append(og, cur)
			cur = nil
		}
		cur = append(cur, 'o')
	}
	if cur != nil {
		og = append(og, cur)
	}
	// continuation lines of the signature are the first others, so keep the
	// signature before every other group unless it has none
	if nlead <= 1 {
		if nlead == 1 {
			groups = append(groups, sig)
		}
		groups = append(groups, og...)
		g.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	} else {
		g.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
		k := g.IntN(len(groups) + 1)
		a := append([][]byte{}, groups[:k]...)
		a = append(a, sig)
		rest := append(append([][]byte{}, groups[k:]...), og...)
		g.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		groups = append(a, rest...)
	}
	// All 'o' groups have different lengths but are written in order of
	// c.Other, so a shuffled order must move the lines too.
	c.Layout = nil
	var others []string
	lead := max(0, nlead-1)
	others = append(others, c.Other[:lead]...)
	var ogl [][]string
	at := lead
	for _, x := range og {
		ogl = append(ogl, c.Other[at:at+len(x)])
		at += len(x)
	}
	// match groups by identity of their backing arrays
	used := make([]bool, len(og))
	for _, gr := range groups {
		c.Layout = append(c.Layout, gr...)
		if gr[0] == 'o' {
			for k := range og {
				if !used[k] && &og[k][0] == &gr[0] {
					used[k] = true
					others = append(others, ogl[k]...)
				}
			}
		}
	}
	c.Other = others
}

var modes = []string{"100644", "100755", "40000", "120000", "160000"}

func (g Gen) entryName() string {
	var s string
	if g.p(4) { // a number can be taken for a position
		return pick(g.Rand, []string{strconv.Itoa(g.IntN(40)), strconv.Itoa(g.IntN(5)), "-1", "+1", "007", "00", "1e1", "0x1"})
	}
	if s, ok := g.special(4, "/\x00"); ok && s != "" {
		return s
	}
	switch g.IntN(10) {
	case 0:
		s = g.line(1 + g.length())
	case 1:
		s = g.word() + " " + g.word()
	case 2:
		s = g.word() + "\n" + g.word()
	case 3:
		if g.Clean {
			s = "x"
		} else {
			s = pick(g.Rand, []string{" ", "  ", " a", "a ", "\n", "\r", "mode", "hash", "0", "100644 x", "..", "%s"})
		}
	default:
		s = g.word()
	}
	if !g.p(20) || strings.Trim(s, " ") == "" || g.Clean {
		s += strconv.Itoa(g.IntN(100000))
	}
	if g.p(10) {
		s += pick(g.Rand, []string{".go", ".c", "/", " "})
	}
	s = cutBytes(s, "/\x00")
	if g.Clean {
		if len(s) > 1000 {
			s = s[len(s)-1000:]
		}
		s = strings.Trim(cutBytes(s, "\\~"), ". ")
	}
	return s
}

// relatedName is a name that is easily taken for another one.
func (g Gen) relatedName(s string) string {
	var r string
	switch g.IntN(10) {
	case 0:
		r = strings.ToUpper(s)
	case 1:
		r = strings.ToLower(s)
	case 2:
		r = s + pick(g.Rand, []string{" ", ".", "-", "0", "\n", "\r", "\x01", "\xff", "~1"})
	case 3:
		r = s[:g.IntN(len(s)+1)]
	case 4:
		r = s + s
	case 5:
		r = pick(g.Rand, []string{" ", ".", "0", "-", "\xef\xbb\xbf"}) + s
	case 6:
		r = strings.ReplaceAll(s, "é", "e\u0301")
	case 7:
		r = s + ".go"
	case 8:
		r = strings.TrimSpace(s)
	default:
		r = pick(g.Rand, []string{"a", "b", "A", "B", "mode", "hash", "tree", "parents", "0", "1", "-1", "x.go", "x", "x-", "é", "e\u0301", "README", "readme", "Readme"})
	}
	if g.Clean {
		r = strings.Trim(cutBytes(strings.ToValidUTF8(r, "x"), "\\~/\x00"), ". ")
		if len(r) > 1000 {
			r = r[:1000]
		}
		if strings.EqualFold(r, ".git") || strings.ContainsAny(r, "\n\r") {
			r = "r"
		}
	}
	return r
}

func (g Gen) tree() *Tree {
	tr := &Tree{}
	n := g.IntN(8)
	switch r := g.IntN(100); {
	case g.Small:
		n = g.IntN(4)
	case r < 6:
		n = g.IntN(400)
	case r < 7:
		n = g.IntN(3000)
	case r < 8 && g.p(40):
		if k, ok := g.number(5000); ok {
			n = int(k)
		}
	}
	seen := map[string]bool{}
	for len(tr.Entries) < n {
		e := Entry{Mode: pick(g.Rand, modes), Name: g.entryName(), Hash: g.sha()}
		if !g.Clean && g.p(5) { // modes of old trees
			e.Mode = pick(g.Rand, []string{"100664", "040000", "0100644", "100640", "100600"})
		}
		if k := len(tr.Entries); k > 0 {
			o := tr.Entries[g.IntN(k)]
			if g.p(15) {
				e.Hash = o.Hash
			}
			if g.p(15) {
				e.Name = g.relatedName(o.Name)
			}
		}
		if e.Name == "" || seen[e.Name] {
			continue
		}
		seen[e.Name] = true
		tr.Entries = append(tr.Entries, e)
	}
	sort.Slice(tr.Entries, func(i, j int) bool { return gitKey(tr.Entries[i]) < gitKey(tr.Entries[j]) })
	return tr
}

func gitKey(e Entry) string {
	if e.Mode == "40000" {
		return e.Name + "/"
	}
	return e.Name
}

// oddTree is a tree git would not write but whose bytes are a tree: any order,
// any mode text without a space, any name without a NUL.
func (g Gen) oddTree() *Tree {
	tr := g.tree()
	g.Shuffle(len(tr.Entries), func(i, j int) { tr.Entries[i], tr.Entries[j] = tr.Entries[j], tr.Entries[i] })
	for i := range tr.Entries {
		if g.p(20) {
			tr.Entries[i].Mode = pick(g.Rand, []string{"0100644", "", "0", "100664", "x", "\x00", "\n", "777777777", "\xff", "-1"})
			if s, ok := g.special(30, " \x00"); ok {
				tr.Entries[i].Mode = s
			}
		}
	}
	if len(tr.Entries) > 0 && g.p(20) {
		tr.Entries[g.IntN(len(tr.Entries))].Name = ""
	}
	seen := map[string]bool{}
	for _, e := range tr.Entries {
		seen[e.Name] = true
	}
	for i := range tr.Entries {
		if !g.p(8) {
			continue
		}
		n := pick(g.Rand, []string{"/", "a/b", "a/", "/a", ".", "..", ".git", ".GIT", "git~1", "../x", "\\", "C:", "a//b", "mode/hash", "//"})
		if g.p(50) {
			n = g.word() + "/" + g.word()
		}
		n = cutBytes(n, "\x00")
		if !seen[n] {
			seen[n] = true
			tr.Entries[i].Name = n
		}
	}
	return tr
}

func (g Gen) blob() *Blob {
	n := g.bigLength()
	b := make([]byte, n)
	switch g.IntN(4) {
	case 0:
		for i := range b {
			b[i] = byte(g.Uint32())
		}
	case 1:
		copy(b, g.line(n))
	case 2:
		copy(b, bytes.Repeat([]byte("blob 3\x00abc"), n/10+1))
	case 3:
	}
	if t, ok := g.special(6, ""); ok && len(t) <= n {
		copy(b[pick(g.Rand, []int{0, n - len(t)}):], t)
	}
	return &Blob{b}
}

func (g Gen) object() Object {
	switch g.IntN(10) {
	case 0, 1:
		return g.blob()
	case 2, 3, 4:
		return g.tree()
	case 5, 6:
		return g.tag()
	default:
		return g.commit()
	}
}

func G(t *T) Gen { return Gen{Rand: t.Rand} }

// features counts which dimensions of the input space a case touched.
func features(t *T, o Object, raw []byte) {
	t.Count("kind:" + o.Kind())
	if len(raw) > 4096 {
		t.Count("feat:over-4096-bytes")
	}
	switch o := o.(type) {
	case *Commit:
		if len(o.Parents) == 0 {
			t.Count("feat:root-commit")
		}
		if len(o.Parents) > 2 {
			t.Count("feat:octopus")
		}
		if o.Sig != nil {
			t.Count("feat:pgp-signature")
		}
		if len(o.MergeTags) == 1 {
			t.Count("feat:mergetag")
		}
		if len(o.MergeTags) > 1 {
			t.Count("feat:several-mergetags")
		}
		if len(o.Other) > 0 {
			t.Count("feat:unrecognised-headers")
		}
		if o.Encoding != nil {
			t.Count("feat:encoding")
		}
		if o.Author == nil || o.Committer == nil {
			t.Count("feat:person-absent")
		}
		if o.Message == "" {
			t.Count("feat:empty-message")
		}
		if bytes.IndexByte(raw, '\r') >= 0 {
			t.Count("feat:carriage-return")
		}
		for _, l := range bytes.Split(raw, []byte{'\n'}) {
			if len(l) >= 4096 {
				t.Count("feat:line-over-4096")
				break
			}
		}
	case *Tag:
		if o.Tagger == nil {
			t.Count("feat:taggerless-tag")
		}
		if o.NoBody {
			t.Count("feat:tag-without-body")
		}
	case *Tree:
		if len(o.Entries) == 0 {
			t.Count("feat:empty-tree")
		}
		if len(o.Entries) > 100 {
			t.Count("feat:tree-over-100")
		}
	case *Blob:
		if len(o.Data) == 0 {
			t.Count("feat:empty-blob")
		}
	}
}
