package main

import (
	"bytes"
	"encoding/hex"
	"strconv"
	"strings"
)

var dict = []string{
	"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object ", "mergetag ", "gpgsig -----BEGIN PGP SIGNATURE-----\n", "gpgsig ", " -----END PGP SIGNATURE-----\n",
	"object ", "type ", "tag ", "tagger ", " type ", " tag ", " tagger ", " \n", "\n", "\n\n", " ", "  ", "<", ">", "<>", " <", "> ", "\x00", "\r", "\r\n", "author", "author <", "author >", "author  ", "tagger <a", "committer <> ", "40000 ", "100644 a\x00",
	"tree \n", "parent \n", "object \n", "mergetag object \n", "author \n", "tagger \n", " tagger \n", "encoding \n", " Version: ", " Comment: ", "%s%d%n", "\xff",
}

// mutate changes bytes of an object, keeping its size field right most of the
// time so that the change reaches the parser behind it.
func mutate(g Gen, raw []byte) []byte {
	i := bytes.IndexByte(raw, 0)
	head, body := append([]byte{}, raw[:i]...), append([]byte{}, raw[i+1:]...)
	for k := g.IntN(4); k >= 0; k-- {
		at := func() int { return g.IntN(len(body) + 1) }
		switch g.IntN(11) {
		case 0:
			if len(body) > 0 {
				body[g.IntN(len(body))] = byte(g.Uint32())
			}
		case 1:
			if len(body) > 0 {
				body[g.IntN(len(body))] = " \n\x00\r<>0f"[g.IntN(8)]
			}
		case 2: // delete a range
			a, b := at(), at()
			if a > b {
				a, b = b, a
			}
			if g.p(70) && b > a+8 {
				b = a + g.IntN(8)
			}
			body = append(body[:a], body[b:]...)
		case 3, 4: // insert a token
			a := at()
			body = append(body[:a], append([]byte(pick(g.Rand, dict)), body[a:]...)...)
		case 5: // insert a token at a line start
			a := at()
			if j := bytes.IndexByte(body[a:], '\n'); j >= 0 {
				a += j + 1
			}
			body = append(body[:a], append([]byte(pick(g.Rand, dict)), body[a:]...)...)
		case 6, 7: // drop, repeat or move whole lines
			ls := bytes.SplitAfter(body, []byte{'\n'})
			x, y := g.IntN(len(ls)), g.IntN(len(ls))
			switch g.IntN(4) {
			case 0:
				ls = append(ls[:x], ls[x+1:]...)
			case 1:
				ls = append(ls[:x], append([][]byte{ls[y]}, ls[x:]...)...)
			case 2:
				ls[x], ls[y] = ls[y], ls[x]
			case 3: // cut a line
				if len(ls[x]) > 0 {
					ls[x] = append(append([]byte{}, ls[x][:g.IntN(len(ls[x]))]...), '\n')
				}
			}
			body = bytes.Join(ls, nil)
		case 8:
			body = body[:at()]
		case 9: // splice with another object
			o := Gen{Rand: g.Rand, Small: true}.object().Body()
			a := at()
			body = append(body[:a], o[g.IntN(len(o)+1):]...)
		case 10: // hex of another length
			s := g.sha()
			h := hex.EncodeToString(s[:])
			if j := bytes.IndexByte(body, ' '); j >= 0 {
				body = append(body[:j+1], append([]byte(h[:g.IntN(41)]), body[j+1:]...)...)
			}
		}
	}
	kind, _, _ := strings.Cut(string(head), " ")
	if g.p(5) {
		kind = pick(g.Rand, []string{"tree", "commit", "blob", "tag", "", "Tree", "tagg", "tree\x00", "ta g"})
	}
	size := strconv.Itoa(len(body))
	if g.p(12) {
		size = pick(g.Rand, []string{"", "-1", "0", "1", "x", "99999999999999999999", "9223372036854775807", "4611686018427387904", "+1", "00", strconv.Itoa(len(body) + 1), strconv.Itoa(len(body) - 1)})
	}
	out := []byte(kind + " " + size + "\x00")
	if g.p(2) {
		out = out[:len(out)-1]
	}
	return append(out, body...)
}
