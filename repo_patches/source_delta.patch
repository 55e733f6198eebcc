From 75ecc73dfe99b69b16418a0dd9566925b39b125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:15 +0000
Subject: [PATCH 01/15] fix: read commit and tag header lines whole

bufio.Reader.ReadLine hands out a line longer than its buffer in pieces and
drops a carriage return before the newline, so long header lines were split
and mergetag or other lines ending in CR re-encoded to a different hash.
---
 commit.go     |  6 +++---
 helper.go     | 16 ++++++++++++++++
 personinfo.go | 12 ++++++------
 tag.go        |  6 +++---
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/commit.go b/commit.go
index 44e133e..d61a643 100644
--- a/commit.go
+++ b/commit.go
@@ -25,7 +25,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -125,7 +125,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, _, err := rd.ReadLine()
+	line, err := readLine(rd)
 	if err != nil {
 		return out, err
 	}
@@ -145,7 +145,7 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
diff --git a/helper.go b/helper.go
index 602cefe..bd4abf0 100644
--- a/helper.go
+++ b/helper.go
@@ -51,3 +51,19 @@ func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 
 	return strconv.Atoi(lstr)
 }
+
+// readLine returns the next line without its trailing newline. Unlike
+// bufio.Reader.ReadLine it does not split a line that outgrows the reader's
+// buffer, keeps a carriage return before the newline, which is part of the
+// line's content, and reports a read error instead of deferring it.
+func readLine(rd *bufio.Reader) ([]byte, error) {
+	line, err := rd.ReadBytes('\n')
+	if err == io.EOF && len(line) > 0 {
+		// the last line of an object need not be terminated
+		return line, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	return line[:len(line)-1], nil
+}
diff --git a/personinfo.go b/personinfo.go
index be7e182..3b646a6 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -17,7 +17,7 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	at := 1
 
 	var pi _PersonInfo
-	var name string
+	var name strings.Builder
 
 	for {
 		if at == len(parts) {
@@ -28,14 +28,14 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 			if part[0] == '<' {
 				break
 			}
-			name += string(part) + " "
-		} else if len(name) > 0 {
-			name += " "
+			name.WriteString(string(part) + " ")
+		} else if name.Len() > 0 {
+			name.WriteString(" ")
 		}
 		at++
 	}
-	if len(name) != 0 {
-		pi.name = _String{name[:len(name)-1]}
+	if name.Len() != 0 {
+		pi.name = _String{name.String()[:name.Len()-1]}
 	}
 
 	var email strings.Builder
diff --git a/tag.go b/tag.go
index ff6c544..9608438 100644
--- a/tag.go
+++ b/tag.go
@@ -26,7 +26,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -82,7 +82,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	}
 	out.object = _Link{cidlink.Link{Cid: objCid}}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -106,7 +106,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 			// repeated string concatenation would copy it on every line.
 			var msg strings.Builder
 			for {
-				line, _, err := rd.ReadLine()
+				line, err := readLine(rd)
 				if err != nil {
 					out.message.x = msg.String()
 					return nil, nil, err
-- 
2.43.0


From 5dd145f7612e4a4e27290bb562dd7e7b8b78bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 02/15] fix: end a mergetag without a message at the next
 commit header

readMergeTag skipped over every line it did not know while it looked for the
blank line that starts the message, so the headers and the message of a commit
that carries a mergetag without one were lost.
---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 9608438..8c82647 100644
--- a/tag.go
+++ b/tag.go
@@ -91,6 +91,9 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 		}
 
 		switch {
+		case !bytes.HasPrefix(line, []byte(" ")):
+			// a tag without a message ends at the commit's next header
+			return &out, line, nil
 		case bytes.HasPrefix(line, []byte(" type ")):
 			out.typ = _String{string(line[1+tagTypePrefixLen:])}
 		case bytes.HasPrefix(line, []byte(" tag ")):
-- 
2.43.0


From eeb91a801bf9b5f9b7c36ad61aa0cf072c4e3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:54 +0000
Subject: [PATCH 03/15] fix: decode consecutive mergetags without recursion

Every mergetag added a stack frame, so a commit with enough of them overflowed
the goroutine stack, which is fatal to the process and cannot be recovered.
---
 commit.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commit.go b/commit.go
index d61a643..b9a95d0 100644
--- a/commit.go
+++ b/commit.go
@@ -43,6 +43,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 }
 
 func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
+next:
 	switch {
 	case bytes.HasPrefix(line, []byte("tree ")):
 		sha, err := hex.DecodeString(string(line[5:]))
@@ -98,10 +99,9 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
 		if rest != nil {
-			err = decodeCommitLine(c, rest, rd)
-			if err != nil {
-				return err
-			}
+			// Not a recursive call: its depth would be up to the input.
+			line = rest
+			goto next
 		}
 	case bytes.HasPrefix(line, []byte("gpgsig ")):
 		sig, err := decodeGpgSig(rd)
-- 
2.43.0


From 7c5c3610ce697e765fec7dfd00ac6686a3f2ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:56 +0000
Subject: [PATCH 04/15] fix: reject a tree that ends in the middle of an entry

DecodeTreeEntry reported the end of the input as io.EOF wherever it came, and
DecodeTree takes that for the end of the tree, so a cut-off tree was accepted
without its last entry.
---
 tree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tree.go b/tree.go
index 42959c1..24373d2 100644
--- a/tree.go
+++ b/tree.go
@@ -47,12 +47,18 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	data, err := rd.ReadString(' ')
 	if err != nil {
+		if err == io.EOF && len(data) > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 	data = data[:len(data)-1]
 
 	name, err := rd.ReadString(0)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 	name = name[:len(name)-1]
@@ -60,6 +66,9 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	sha := make([]byte, 20)
 	_, err = io.ReadFull(rd, sha)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return "", nil, err
 	}
 
-- 
2.43.0


From 4fd547cf4462577fad61274f894ac0b072508e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 05/15] fix: hold every object to its declared size

Only a blob that was too short was rejected: trees, commits and tags were
accepted with any size in their header, a blob with bytes after its body or with
a sign or leading zeros in its size was too, and all of these re-encoded to a
different hash. git rejects such objects as corrupt.
---
 blob.go   |  3 +++
 commit.go |  3 ++-
 helper.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 tag.go    |  2 +-
 tree.go   |  3 ++-
 5 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/blob.go b/blob.go
index 16f7a8d..5e6db93 100644
--- a/blob.go
+++ b/blob.go
@@ -39,6 +39,9 @@ func DecodeBlob(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 		return io.ErrUnexpectedEOF
 	}
+	if err := checkEOF(rd); err != io.EOF {
+		return err
+	}
 
 	return na.AssignBytes(buf.Bytes())
 }
diff --git a/commit.go b/commit.go
index b9a95d0..4028cf1 100644
--- a/commit.go
+++ b/commit.go
@@ -17,7 +17,8 @@ const prefixMergetag = 16 // the length of "mergetag object "
 
 // DecodeCommit fills a NodeAssembler (from `Type.Commit__Repr.NewBuilder()`) from a stream of bytes
 func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	rd, err := readBody(rd)
+	if err != nil {
 		return err
 	}
 
diff --git a/helper.go b/helper.go
index bd4abf0..abb1898 100644
--- a/helper.go
+++ b/helper.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"errors"
+	"fmt"
 	"io"
 	"strconv"
 
@@ -49,7 +50,57 @@ func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	}
 	lstr = lstr[:len(lstr)-1]
 
-	return strconv.Atoi(lstr)
+	n, err := strconv.Atoi(lstr)
+	if err != nil {
+		return 0, err
+	}
+	// git writes plain decimal digits; a sign or padding would not survive
+	// re-encoding
+	if strconv.Itoa(n) != lstr {
+		return 0, fmt.Errorf("invalid object size: %q", lstr)
+	}
+	return n, nil
+}
+
+// readBody reads the size at the head of an object and returns a reader over the
+// body that follows, which fails unless the body has exactly that size.
+func readBody(rd *bufio.Reader) (*bufio.Reader, error) {
+	n, err := readNullTerminatedNumber(rd)
+	if err != nil {
+		return nil, err
+	}
+	if n < 0 {
+		return nil, fmt.Errorf("invalid object size: %d", n)
+	}
+	return bufio.NewReader(&bodyReader{rd: rd, left: n}), nil
+}
+
+type bodyReader struct {
+	rd   *bufio.Reader
+	left int
+}
+
+func (b *bodyReader) Read(p []byte) (int, error) {
+	if b.left == 0 {
+		return 0, checkEOF(b.rd)
+	}
+	if len(p) > b.left {
+		p = p[:b.left]
+	}
+	n, err := b.rd.Read(p)
+	b.left -= n
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
+// checkEOF returns io.EOF if the reader is at its end.
+func checkEOF(rd *bufio.Reader) error {
+	if _, err := rd.ReadByte(); err != nil {
+		return err
+	}
+	return errors.New("object is longer than its declared size")
 }
 
 // readLine returns the next line without its trailing newline. Unlike
diff --git a/tag.go b/tag.go
index 8c82647..fdf7dd0 100644
--- a/tag.go
+++ b/tag.go
@@ -18,7 +18,7 @@ const tagTypePrefixLen = 5   // "prefix 'type '"
 
 // DecodeTag fills a NodeAssembler (from `Type.Tag__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	_, err := rd.ReadString(0)
+	rd, err := readBody(rd)
 	if err != nil {
 		return err
 	}
diff --git a/tree.go b/tree.go
index 24373d2..36aa4f3 100644
--- a/tree.go
+++ b/tree.go
@@ -12,7 +12,8 @@ import (
 
 // DecodeTree fills a NodeAssembler (from `Type.Tree__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	rd, err := readBody(rd)
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From c4d7d1e4e8fd5fb460a216288e0af72761da4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 06/15] fix: encode a commit without an author or committer

Both are optional in the schema and DecodeCommit leaves them absent when the
object has none, but encodeCommit dereferenced them and panicked.
---
 commit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index 4028cf1..74aca52 100644
--- a/commit.go
+++ b/commit.go
@@ -176,8 +176,12 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	for _, p := range c.parents.x {
 		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
 	}
-	fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
-	fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	if c.author.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
+	}
+	if c.committer.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	}
 	if c.encoding.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
-- 
2.43.0


From 98b239ad953877f71f8c6311dad51708fadb8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 07/15] fix: encode commits held in nodes of other types

AssignNode of the generated assembler for an optional person dereferences nil
unless it is given one of its own nodes, so Encode panicked on every commit with
an author that came as a representation node, as ipld.Encode passes it, or as a
generic node, for example one read from DAG-JSON.
---
 commit.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/commit.go b/commit.go
index 74aca52..2dd37d6 100644
--- a/commit.go
+++ b/commit.go
@@ -163,12 +163,56 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	return out, nil
 }
 
-func encodeCommit(n ipld.Node, w io.Writer) error {
+// asCommit converts any node of a commit's shape to a Commit.
+func asCommit(n ipld.Node) (Commit, error) {
+	if c, ok := n.(Commit); ok {
+		return c, nil
+	}
 	ci := Type.Commit__Repr.NewBuilder()
-	if err := ci.AssignNode(n); err != nil {
+	ma, err := ci.BeginMap(n.Length())
+	if err != nil {
+		return nil, err
+	}
+	for mi := n.MapIterator(); !mi.Done(); {
+		k, v, err := mi.Next()
+		if err != nil {
+			return nil, err
+		}
+		if v.IsAbsent() {
+			continue
+		}
+		key, err := k.AsString()
+		if err != nil {
+			return nil, err
+		}
+		va, err := ma.AssembleEntry(key)
+		if err != nil {
+			return nil, err
+		}
+		if key == "author" || key == "committer" {
+			// The assembler of an optional person panics on a node of any other
+			// type than its own, see encodeTag for the same conversion.
+			pi := Type.PersonInfo__Repr.NewBuilder()
+			if err := pi.AssignNode(v); err != nil {
+				return nil, err
+			}
+			v = pi.Build()
+		}
+		if err := va.AssignNode(v); err != nil {
+			return nil, err
+		}
+	}
+	if err := ma.Finish(); err != nil {
+		return nil, err
+	}
+	return ci.Build().(Commit), nil
+}
+
+func encodeCommit(n ipld.Node, w io.Writer) error {
+	c, err := asCommit(n)
+	if err != nil {
 		return fmt.Errorf("not a Commit: %T %w", n, err)
 	}
-	c := ci.Build().(Commit)
 
 	buf := new(bytes.Buffer)
 
@@ -204,7 +248,7 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	// fmt.Printf("encode commit len: %d \n", buf.Len())
 	//	fmt.Printf("out: %s\n", string(buf.Bytes()))
-	_, err := fmt.Fprintf(w, "commit %d\x00", buf.Len())
+	_, err = fmt.Fprintf(w, "commit %d\x00", buf.Len())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 20c96129df181fe5b785ef4c06b09b2af92bcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 08/15] fix: recognise a tag whose first key is its message

Encode told generic tags from commits by their first key, but a tag in the key
order of DAG-JSON, as in the README, starts with message, which both have, and
was refused as not being a commit.
---
 marshal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marshal.go b/marshal.go
index d2610e5..733fc32 100644
--- a/marshal.go
+++ b/marshal.go
@@ -42,6 +42,13 @@ func Encode(n ipld.Node, w io.Writer) error {
 			"tagger",
 			"text":
 			return encodeTag(n, w)
+		case "message":
+			// Tags and commits both have one, and it comes first in a tag read
+			// from a codec that sorts its keys. Only a tag has an object.
+			if _, err := n.LookupByString("object"); err == nil {
+				return encodeTag(n, w)
+			}
+			return encodeCommit(n, w)
 		default:
 			return encodeCommit(n, w)
 		}
-- 
2.43.0


From bb043ede814dadc0489841afffcb083b1ab77516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 09/15] fix: return an error for list nodes instead of
 panicking

No git object is a list: Encode passed it to encodeTree, which dereferenced the
map iterator that a list does not have.
---
 marshal.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 733fc32..de5d334 100644
--- a/marshal.go
+++ b/marshal.go
@@ -23,8 +23,6 @@ func Encode(n ipld.Node, w io.Writer) error {
 	switch n.Kind() {
 	case ipld.Kind_Bytes:
 		return encodeBlob(n, w)
-	case ipld.Kind_List:
-		return encodeTree(n, w)
 	case ipld.Kind_Map:
 		k, _, err := n.MapIterator().Next()
 		if err != nil {
-- 
2.43.0


From 9e115e3e4dfa05f0c0d125dbc3e1b751d6699d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 10/15] fix: refuse to encode links that are not git hashes

cidToSha takes the last 20 bytes of whatever hash a link holds: Encode panicked
on a shorter one, wrote part of a longer one and wrote an empty hash for a
missing one or a link of another type.
---
 commit.go | 14 ++++++++++++++
 tag.go    |  3 +++
 tree.go   |  3 +++
 util.go   | 13 +++++++++++++
 4 files changed, 33 insertions(+)

diff --git a/commit.go b/commit.go
index 2dd37d6..5dfbc51 100644
--- a/commit.go
+++ b/commit.go
@@ -214,6 +214,20 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		return fmt.Errorf("not a Commit: %T %w", n, err)
 	}
 
+	if err := checkLink(c.tree.x); err != nil {
+		return err
+	}
+	for _, p := range c.parents.x {
+		if err := checkLink(p.x); err != nil {
+			return err
+		}
+	}
+	for _, mtag := range c.mergetag.x {
+		if err := checkLink(mtag.object.x); err != nil {
+			return err
+		}
+	}
+
 	buf := new(bytes.Buffer)
 
 	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(c.tree.sha()))
diff --git a/tag.go b/tag.go
index fdf7dd0..c8f0750 100644
--- a/tag.go
+++ b/tag.go
@@ -136,6 +136,9 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	if err := checkLink(objLnk); err != nil {
+		return err
+	}
 
 	tt, err := n.LookupByString("type")
 	if err != nil {
diff --git a/tree.go b/tree.go
index 36aa4f3..5f391ce 100644
--- a/tree.go
+++ b/tree.go
@@ -133,6 +133,9 @@ func encodeTreeEntry(name string, n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	if err := checkLink(hal); err != nil {
+		return err
+	}
 	_, err = w.Write(cidToSha(hal.(cidlink.Link).Cid))
 	if err != nil {
 		return err
diff --git a/util.go b/util.go
index e41d58a..2cbf179 100644
--- a/util.go
+++ b/util.go
@@ -25,6 +25,19 @@ func shaToCid(sha []byte) (cid.Cid, error) {
 	return cid.NewCidV1(cid.GitRaw, h), nil
 }
 
+// checkLink returns an error unless the link holds the hash of a git object, which
+// it must before any of the functions below can turn it back into one.
+func checkLink(l ipld.Link) error {
+	cl, ok := l.(cidlink.Link)
+	if !ok || !cl.Cid.Defined() {
+		return fmt.Errorf("not a link to a git object: %v", l)
+	}
+	if p := cl.Cid.Prefix(); p.MhType != mh.SHA1 || p.MhLength != gitSHALen {
+		return fmt.Errorf("not a link to a git object: %s", cl.Cid)
+	}
+	return nil
+}
+
 func cidToSha(c cid.Cid) []byte {
 	h := c.Hash()
 	return h[len(h)-20:]
-- 
2.43.0


From 72fdd0528efb74460a16229735bcddc4bf99982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:43 +0000
Subject: [PATCH 11/15] fix: do not invent a tagger for tags that have none

Tags made by early versions of git have no tagger line. They decode to an empty
tagger, which was then written out as one without name or email.
---
 commit.go | 5 ++++-
 tag.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index 5dfbc51..7b36ef0 100644
--- a/commit.go
+++ b/commit.go
@@ -247,7 +247,10 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
-		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
+		if mtag.tagger != (_PersonInfo{}) {
+			fmt.Fprintf(buf, " tagger %s\n", mtag.tagger.GitString())
+		}
+		fmt.Fprint(buf, " \n")
 		fmt.Fprintf(buf, "%s", mtag.message.x)
 	}
 	if c.signature.m == schema.Maybe_Value {
diff --git a/tag.go b/tag.go
index c8f0750..34095e6 100644
--- a/tag.go
+++ b/tag.go
@@ -183,7 +183,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		if !ok {
 			return fmt.Errorf("could not parse tagger person info %v", tagger)
 		}
-		fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		// A tag that was decoded without a tagger has an empty one.
+		if *parsed != (_PersonInfo{}) {
+			fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		}
 	}
 	if messageStr != "" {
 		fmt.Fprintf(buf, "\n%s", messageStr)
-- 
2.43.0


From 891cd40d69e577920e514b49ee1f92b4fbc2867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 12/15] fix: keep commit signatures that are not PGP signatures

decodeGpgSig only understands PGP armour, so a commit signed with an SSH or
X.509 key could not be decoded at all, and any other armour line was replaced on
re-encoding. Keep those headers as they are among the other lines instead.
---
 commit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit.go b/commit.go
index 7b36ef0..bb1f79f 100644
--- a/commit.go
+++ b/commit.go
@@ -104,7 +104,7 @@ next:
 			line = rest
 			goto next
 		}
-	case bytes.HasPrefix(line, []byte("gpgsig ")):
+	case string(line) == "gpgsig -----BEGIN PGP SIGNATURE-----":
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
 			return err
-- 
2.43.0


From 500579d496cfd1f60833837e71568bf3ef868871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:53 +0000
Subject: [PATCH 13/15] fix: refuse to decode a commit or tag into a tree

The assembler of a tree panics when it is assigned a map that is not a tree.
That happens when a link that claims to lead to a tree, such as a commit's,
leads to a commit or tag.
---
 commit.go |  2 +-
 helper.go | 11 +++++++++++
 tag.go    |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index bb1f79f..703291a 100644
--- a/commit.go
+++ b/commit.go
@@ -40,7 +40,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
-	return na.AssignNode(&c)
+	return assignObject(na, &c)
 }
 
 func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
diff --git a/helper.go b/helper.go
index abb1898..40d0107 100644
--- a/helper.go
+++ b/helper.go
@@ -43,6 +43,17 @@ func ParseObjectFromBuffer(b []byte) (ipld.Node, error) {
 	return ParseObject(bytes.NewReader(b))
 }
 
+// assignObject hands a decoded object that is not a tree to the assembler. A link
+// may claim to lead to a tree and not do so, and the assembler of a tree panics on
+// any other map.
+func assignObject(na ipld.NodeAssembler, n ipld.Node) error {
+	switch na.Prototype() {
+	case Type.Tree, Type.Tree__Repr:
+		return fmt.Errorf("not a tree: %T", n)
+	}
+	return na.AssignNode(n)
+}
+
 func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	lstr, err := rd.ReadString(0)
 	if err != nil {
diff --git a/tag.go b/tag.go
index 34095e6..703b7b1 100644
--- a/tag.go
+++ b/tag.go
@@ -69,7 +69,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
-	return na.AssignNode(&out)
+	return assignObject(na, &out)
 }
 
 // readMergeTag works for tags within commits like DecodeTag
-- 
2.43.0


From 0af302d879dd71c1e3498f3d05270181a695e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:57 +0000
Subject: [PATCH 14/15] fix: accept a body whose last bytes arrive together
 with the end of input

---
 helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helper.go b/helper.go
index 40d0107..d1184d1 100644
--- a/helper.go
+++ b/helper.go
@@ -101,6 +101,9 @@ func (b *bodyReader) Read(p []byte) (int, error) {
 	n, err := b.rd.Read(p)
 	b.left -= n
 	if err == io.EOF {
+		if b.left == 0 {
+			return n, nil
+		}
 		err = io.ErrUnexpectedEOF
 	}
 	return n, err
-- 
2.43.0


From 136494531702b6badb49cdbb240371fd41abffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:25 +0000
Subject: [PATCH 15/15] fix: a tag whose tagger could not be read was encoded
 without it

---
 tag.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tag.go b/tag.go
index 703b7b1..2906f21 100644
--- a/tag.go
+++ b/tag.go
@@ -4,12 +4,14 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
 
 	"github.com/ipld/go-ipld-prime"
 	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
+	"github.com/ipld/go-ipld-prime/schema"
 )
 
 const tagObjectPrefixLen = 7 // "prefix 'object '"
@@ -168,6 +170,14 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	}
 
 	tagger, taggerErr := n.LookupByString("tagger")
+	if taggerErr != nil {
+		// A missing tagger is left out, one that cannot be read is an error.
+		var notExists ipld.ErrNotExists
+		var noSuchField schema.ErrNoSuchField
+		if !errors.As(taggerErr, &notExists) && !errors.As(taggerErr, &noSuchField) {
+			return taggerErr
+		}
+	}
 
 	buf := new(bytes.Buffer)
 	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(sha(objLnk)))
-- 
2.43.0

