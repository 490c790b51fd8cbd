From 2fd5167174ce715472610b04fc05e495201fc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:55 +0000
Subject: [PATCH 01/15] fix: read header lines whole and report read errors
 inside them

bufio.Reader.ReadLine splits lines longer than its buffer, drops a carriage
return before the newline, and returns the partial line with no error when a
read fails in the middle of it, so that a source that recovers afterwards
yields a node with a line cut in two.
---
 commit.go     |  6 +++---
 helper.go     | 16 ++++++++++++++++
 personinfo.go | 12 +++++++-----
 tag.go        |  6 +++---
 4 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/commit.go b/commit.go
index 44e133e..d61a643 100644
--- a/commit.go
+++ b/commit.go
@@ -25,7 +25,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		parents: _Commit_Link_List{[]_Commit_Link{}},
 	}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -125,7 +125,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	out := _GpgSig{}
 
-	line, _, err := rd.ReadLine()
+	line, err := readLine(rd)
 	if err != nil {
 		return out, err
 	}
@@ -145,7 +145,7 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			out.x = sig.String()
 			return out, err
diff --git a/helper.go b/helper.go
index 602cefe..21ec18c 100644
--- a/helper.go
+++ b/helper.go
@@ -42,6 +42,22 @@ func ParseObjectFromBuffer(b []byte) (ipld.Node, error) {
 	return ParseObject(bytes.NewReader(b))
 }
 
+// readLine returns the next line of rd without its newline. Unlike
+// bufio.Reader.ReadLine it returns a line of any length whole, keeps a carriage
+// return before the newline, and reports a read error when it happens instead
+// of returning the part of the line that arrived before it. A last line that
+// has no newline is returned as it is.
+func readLine(rd *bufio.Reader) ([]byte, error) {
+	line, err := rd.ReadBytes('\n')
+	if err == io.EOF && len(line) > 0 {
+		return line, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	return line[:len(line)-1], nil
+}
+
 func readNullTerminatedNumber(rd *bufio.Reader) (int, error) {
 	lstr, err := rd.ReadString(0)
 	if err != nil {
diff --git a/personinfo.go b/personinfo.go
index be7e182..efd3e91 100644
--- a/personinfo.go
+++ b/personinfo.go
@@ -17,7 +17,9 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 	at := 1
 
 	var pi _PersonInfo
-	var name string
+	// Built like the email below: repeated concatenation would copy the whole
+	// name for every part of the line.
+	var nameBuf strings.Builder
 
 	for {
 		if at == len(parts) {
@@ -28,13 +30,13 @@ func parsePersonInfo(line []byte) (PersonInfo, error) {
 			if part[0] == '<' {
 				break
 			}
-			name += string(part) + " "
-		} else if len(name) > 0 {
-			name += " "
+			nameBuf.WriteString(string(part) + " ")
+		} else if nameBuf.Len() > 0 {
+			nameBuf.WriteString(" ")
 		}
 		at++
 	}
-	if len(name) != 0 {
+	if name := nameBuf.String(); len(name) != 0 {
 		pi.name = _String{name[:len(name)-1]}
 	}
 
diff --git a/tag.go b/tag.go
index ff6c544..9608438 100644
--- a/tag.go
+++ b/tag.go
@@ -26,7 +26,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	out := _Tag{}
 
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -82,7 +82,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 	}
 	out.object = _Link{cidlink.Link{Cid: objCid}}
 	for {
-		line, _, err := rd.ReadLine()
+		line, err := readLine(rd)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -106,7 +106,7 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 			// repeated string concatenation would copy it on every line.
 			var msg strings.Builder
 			for {
-				line, _, err := rd.ReadLine()
+				line, err := readLine(rd)
 				if err != nil {
 					out.message.x = msg.String()
 					return nil, nil, err
-- 
2.43.0


From 3c99a91aff045b6093fb227a6ed7083bf63f02b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 02/15] fix: hold every object to the length its header
 declares

Trees, commits and tags ignored the declared size, so a stream cut short
between or even inside tree entries or lines decoded to a smaller object
without an error, and blobs ignored whatever followed them, which also left
the checksum of a compressed blob unverified.
---
 blob.go   |  3 +++
 commit.go |  7 ++++++-
 helper.go | 34 ++++++++++++++++++++++++++++++++++
 tag.go    |  6 +++++-
 tree.go   | 15 ++++++++++++++-
 5 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/blob.go b/blob.go
index 16f7a8d..0bed9c9 100644
--- a/blob.go
+++ b/blob.go
@@ -39,6 +39,9 @@ func DecodeBlob(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 		return io.ErrUnexpectedEOF
 	}
+	if err := expectEOF(rd); err != nil {
+		return err
+	}
 
 	return na.AssignBytes(buf.Bytes())
 }
diff --git a/commit.go b/commit.go
index d61a643..0f8b7e8 100644
--- a/commit.go
+++ b/commit.go
@@ -17,7 +17,8 @@ const prefixMergetag = 16 // the length of "mergetag object "
 
 // DecodeCommit fills a NodeAssembler (from `Type.Commit__Repr.NewBuilder()`) from a stream of bytes
 func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	rd, finish, err := openBody(rd)
+	if err != nil {
 		return err
 	}
 
@@ -39,6 +40,10 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if err := finish(); err != nil {
+		return err
+	}
+
 	return na.AssignNode(&c)
 }
 
diff --git a/helper.go b/helper.go
index 21ec18c..f639b54 100644
--- a/helper.go
+++ b/helper.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"errors"
+	"fmt"
 	"io"
 	"strconv"
 
@@ -42,6 +43,39 @@ func ParseObjectFromBuffer(b []byte) (ipld.Node, error) {
 	return ParseObject(bytes.NewReader(b))
 }
 
+// openBody reads the size that ends an object's header and returns a reader over
+// the body it declares, and a function to call once the body has been decoded,
+// which fails unless the stream held exactly that many bytes.
+func openBody(rd *bufio.Reader) (*bufio.Reader, func() error, error) {
+	size, err := readNullTerminatedNumber(rd)
+	if err != nil {
+		return nil, nil, err
+	}
+	if size < 0 {
+		return nil, nil, fmt.Errorf("invalid object size: %d", size)
+	}
+	body := &io.LimitedReader{R: rd, N: int64(size)}
+	finish := func() error {
+		if body.N > 0 {
+			return io.ErrUnexpectedEOF
+		}
+		return expectEOF(rd)
+	}
+	return bufio.NewReader(body), finish, nil
+}
+
+// expectEOF fails unless rd is at the end of its stream.
+func expectEOF(rd *bufio.Reader) error {
+	_, err := rd.ReadByte()
+	if err == io.EOF {
+		return nil
+	}
+	if err == nil {
+		return errors.New("trailing data after object")
+	}
+	return err
+}
+
 // readLine returns the next line of rd without its newline. Unlike
 // bufio.Reader.ReadLine it returns a line of any length whole, keeps a carriage
 // return before the newline, and reports a read error when it happens instead
diff --git a/tag.go b/tag.go
index 9608438..a67fe6d 100644
--- a/tag.go
+++ b/tag.go
@@ -18,7 +18,7 @@ const tagTypePrefixLen = 5   // "prefix 'type '"
 
 // DecodeTag fills a NodeAssembler (from `Type.Tag__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	_, err := rd.ReadString(0)
+	rd, finish, err := openBody(rd)
 	if err != nil {
 		return err
 	}
@@ -69,6 +69,10 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		}
 	}
 
+	if err := finish(); err != nil {
+		return err
+	}
+
 	return na.AssignNode(&out)
 }
 
diff --git a/tree.go b/tree.go
index 42959c1..ae7f587 100644
--- a/tree.go
+++ b/tree.go
@@ -12,7 +12,8 @@ import (
 
 // DecodeTree fills a NodeAssembler (from `Type.Tree__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
-	if _, err := readNullTerminatedNumber(rd); err != nil {
+	rd, finish, err := openBody(rd)
+	if err != nil {
 		return err
 	}
 
@@ -37,6 +38,9 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 			return err
 		}
 	}
+	if err := finish(); err != nil {
+		return err
+	}
 	if err := ma.Finish(); err != nil {
 		return err
 	}
@@ -46,12 +50,18 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 // DecodeTreeEntry fills a NodeAssembler (from `Type.TreeEntry__Repr.NewBuilder()`) from a stream of bytes
 func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 	data, err := rd.ReadString(' ')
+	if err == io.EOF && data != "" {
+		return "", nil, io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return "", nil, err
 	}
 	data = data[:len(data)-1]
 
 	name, err := rd.ReadString(0)
+	if err == io.EOF {
+		return "", nil, io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return "", nil, err
 	}
@@ -59,6 +69,9 @@ func DecodeTreeEntry(rd *bufio.Reader) (string, ipld.Node, error) {
 
 	sha := make([]byte, 20)
 	_, err = io.ReadFull(rd, sha)
+	if err == io.EOF {
+		return "", nil, io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return "", nil, err
 	}
-- 
2.43.0


From 98da0167c67184600cf1ebc54a10454dc2d07483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 03/15] fix: encode commits that have no author or committer

Both are optional in the schema and decode as absent, but encoding such a
commit dereferenced a nil person.
---
 commit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index 0f8b7e8..e132110 100644
--- a/commit.go
+++ b/commit.go
@@ -180,8 +180,12 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 	for _, p := range c.parents.x {
 		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
 	}
-	fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
-	fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	if c.author.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
+	}
+	if c.committer.m == schema.Maybe_Value {
+		fmt.Fprintf(buf, "committer %s\n", c.committer.v.GitString())
+	}
 	if c.encoding.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
-- 
2.43.0


From f72fe26ef41fd473eb5c4996a89c8faa7b14b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 04/15] fix: reject commits without a tree and tags without an
 object

The schema requires both links. Such objects decoded to nodes whose link is
nil, which panics in callers that follow it.
---
 commit.go | 4 ++++
 tag.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/commit.go b/commit.go
index e132110..71e8b03 100644
--- a/commit.go
+++ b/commit.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -43,6 +44,9 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	if err := finish(); err != nil {
 		return err
 	}
+	if c.tree.x == nil {
+		return errors.New("commit has no tree")
+	}
 
 	return na.AssignNode(&c)
 }
diff --git a/tag.go b/tag.go
index a67fe6d..966b2d9 100644
--- a/tag.go
+++ b/tag.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -72,6 +73,9 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	if err := finish(); err != nil {
 		return err
 	}
+	if out.object.x == nil {
+		return errors.New("tag has no object")
+	}
 
 	return na.AssignNode(&out)
 }
-- 
2.43.0


From 3dc4f89ca9419130b4c310d7ca1e0cc0e58d8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:48 +0000
Subject: [PATCH 05/15] fix: encode tags that have no tagger as they were

Tags made by early versions of git have no tagger line. They decode to an
empty person, which was encoded as "tagger  <>" and changed the hash.
---
 commit.go | 6 ++++--
 tag.go    | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index 71e8b03..7929870 100644
--- a/commit.go
+++ b/commit.go
@@ -197,8 +197,10 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
-		fmt.Fprintf(buf, " tagger %s\n \n", mtag.tagger.GitString())
-		fmt.Fprintf(buf, "%s", mtag.message.x)
+		if mtag.tagger != (_PersonInfo{}) {
+			fmt.Fprintf(buf, " tagger %s\n", mtag.tagger.GitString())
+		}
+		fmt.Fprintf(buf, " \n%s", mtag.message.x)
 	}
 	if c.signature.m == schema.Maybe_Value {
 		fmt.Fprintln(buf, "gpgsig -----BEGIN PGP SIGNATURE-----")
diff --git a/tag.go b/tag.go
index 966b2d9..6d2a08d 100644
--- a/tag.go
+++ b/tag.go
@@ -185,7 +185,10 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		if !ok {
 			return fmt.Errorf("could not parse tagger person info %v", tagger)
 		}
-		fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		// A tag without a tagger line decodes to an empty tagger.
+		if *parsed != (_PersonInfo{}) {
+			fmt.Fprintf(buf, "tagger %s\n", parsed.GitString())
+		}
 	}
 	if messageStr != "" {
 		fmt.Fprintf(buf, "\n%s", messageStr)
-- 
2.43.0


From 93f7fbb8927ffc2c00c943818a25c2c9962c9c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 06/15] fix: keep signatures that are not PGP signatures

The gpgsig header of an SSH or X.509 signed commit was rejected, or taken for
a PGP signature and encoded with other begin and end lines. Keep its lines as
they are among the other header lines, as gpgsig-sha256 is.
---
 commit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit.go b/commit.go
index 7929870..4619b84 100644
--- a/commit.go
+++ b/commit.go
@@ -112,7 +112,7 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 				return err
 			}
 		}
-	case bytes.HasPrefix(line, []byte("gpgsig ")):
+	case bytes.Equal(line, []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		sig, err := decodeGpgSig(rd)
 		if err != nil {
 			return err
-- 
2.43.0


From 3f10259c3ccd8dc5aacf57e668b84ec14c250431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 07/15] fix: decode consecutive merge tags without recursion

Each merge tag of a commit added a stack frame, so a commit with enough of
them overflowed the stack, which cannot be recovered from.
---
 commit.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commit.go b/commit.go
index 4619b84..3d5fc79 100644
--- a/commit.go
+++ b/commit.go
@@ -52,6 +52,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 }
 
 func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
+again:
 	switch {
 	case bytes.HasPrefix(line, []byte("tree ")):
 		sha, err := hex.DecodeString(string(line[5:]))
@@ -106,11 +107,10 @@ func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
 
 		c.mergetag.x = append(c.mergetag.x, *mt)
 
+		// Not a recursive call: a commit can hold any number of merge tags.
 		if rest != nil {
-			err = decodeCommitLine(c, rest, rd)
-			if err != nil {
-				return err
-			}
+			line = rest
+			goto again
 		}
 	case bytes.Equal(line, []byte("gpgsig -----BEGIN PGP SIGNATURE-----")):
 		sig, err := decodeGpgSig(rd)
-- 
2.43.0


From d0c7823a9053a3a6440d6fd49639ed9275da7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:43 +0000
Subject: [PATCH 08/15] fix: report a failed lookup of the tagger when encoding
 a tag

Any error was taken to mean that there is no tagger, so a tag node that could
not be read encoded, successfully, without one.
---
 tag.go  |  3 +++
 util.go | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/tag.go b/tag.go
index 6d2a08d..ccf17d2 100644
--- a/tag.go
+++ b/tag.go
@@ -170,6 +170,9 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	}
 
 	tagger, taggerErr := n.LookupByString("tagger")
+	if taggerErr != nil && !isNotFound(taggerErr) {
+		return taggerErr
+	}
 
 	buf := new(bytes.Buffer)
 	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(sha(objLnk)))
diff --git a/util.go b/util.go
index e41d58a..ec9ee0c 100644
--- a/util.go
+++ b/util.go
@@ -1,11 +1,13 @@
 package ipldgit
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/ipfs/go-cid"
 	"github.com/ipld/go-ipld-prime"
 	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
+	"github.com/ipld/go-ipld-prime/schema"
 	mh "github.com/multiformats/go-multihash"
 )
 
@@ -30,6 +32,14 @@ func cidToSha(c cid.Cid) []byte {
 	return h[len(h)-20:]
 }
 
+// isNotFound tells whether a lookup failed because the node does not have what
+// was looked for, rather than because it could not be read.
+func isNotFound(err error) bool {
+	var notExists ipld.ErrNotExists
+	var noSuchField schema.ErrNoSuchField
+	return errors.As(err, &notExists) || errors.As(err, &noSuchField)
+}
+
 func sha(l ipld.Link) []byte {
 	cl, ok := l.(cidlink.Link)
 	if !ok {
-- 
2.43.0


From 81a329fc4a72ce8fc1d7525c1536ed6077edd537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:45 +0000
Subject: [PATCH 09/15] fix: refuse to encode links that do not name a git
 object

A link that carries no 20-byte SHA-1 was encoded as the last 20 bytes of
whatever hash it has, as nothing at all, or panicked.
---
 commit.go | 20 ++++++++++++++++----
 tag.go    |  7 ++++++-
 tree.go   |  6 +++++-
 util.go   | 46 +++++++++++++++++++++-------------------------
 4 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/commit.go b/commit.go
index 3d5fc79..56391e1 100644
--- a/commit.go
+++ b/commit.go
@@ -180,9 +180,17 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	buf := new(bytes.Buffer)
 
-	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(c.tree.sha()))
+	treeSha, err := c.tree.sha()
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(buf, "tree %s\n", hex.EncodeToString(treeSha))
 	for _, p := range c.parents.x {
-		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(p.sha()))
+		parentSha, err := p.sha()
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "parent %s\n", hex.EncodeToString(parentSha))
 	}
 	if c.author.m == schema.Maybe_Value {
 		fmt.Fprintf(buf, "author %s\n", c.author.v.GitString())
@@ -194,7 +202,11 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 		fmt.Fprintf(buf, "encoding %s\n", c.encoding.v.x)
 	}
 	for _, mtag := range c.mergetag.x {
-		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(mtag.object.sha()))
+		objSha, err := mtag.object.sha()
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(buf, "mergetag object %s\n", hex.EncodeToString(objSha))
 		fmt.Fprintf(buf, " type %s\n", mtag.typ.x)
 		fmt.Fprintf(buf, " tag %s\n", mtag.tag.x)
 		if mtag.tagger != (_PersonInfo{}) {
@@ -214,7 +226,7 @@ func encodeCommit(n ipld.Node, w io.Writer) error {
 
 	// fmt.Printf("encode commit len: %d \n", buf.Len())
 	//	fmt.Printf("out: %s\n", string(buf.Bytes()))
-	_, err := fmt.Fprintf(w, "commit %d\x00", buf.Len())
+	_, err = fmt.Fprintf(w, "commit %d\x00", buf.Len())
 	if err != nil {
 		return err
 	}
diff --git a/tag.go b/tag.go
index ccf17d2..77e105e 100644
--- a/tag.go
+++ b/tag.go
@@ -142,6 +142,11 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 		return err
 	}
 
+	objSha, err := sha(objLnk)
+	if err != nil {
+		return err
+	}
+
 	tt, err := n.LookupByString("type")
 	if err != nil {
 		return err
@@ -175,7 +180,7 @@ func encodeTag(n ipld.Node, w io.Writer) error {
 	}
 
 	buf := new(bytes.Buffer)
-	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(sha(objLnk)))
+	fmt.Fprintf(buf, "object %s\n", hex.EncodeToString(objSha))
 	fmt.Fprintf(buf, "type %s\n", ttStr)
 	fmt.Fprintf(buf, "tag %s\n", tagStr)
 	if taggerErr == nil && !tagger.IsNull() {
diff --git a/tree.go b/tree.go
index ae7f587..9a74101 100644
--- a/tree.go
+++ b/tree.go
@@ -136,7 +136,11 @@ func encodeTreeEntry(name string, n ipld.Node, w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.Write(cidToSha(hal.(cidlink.Link).Cid))
+	haSha, err := sha(hal)
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(haSha)
 	if err != nil {
 		return err
 	}
diff --git a/util.go b/util.go
index ec9ee0c..43cbae7 100644
--- a/util.go
+++ b/util.go
@@ -12,8 +12,7 @@ import (
 )
 
 // gitSHALen is the length of a git object hash. A reference of any other length
-// cannot name a git object, and cidToSha assumes this width when it turns a CID
-// back into one.
+// cannot name a git object.
 const gitSHALen = 20
 
 func shaToCid(sha []byte) (cid.Cid, error) {
@@ -27,9 +26,18 @@ func shaToCid(sha []byte) (cid.Cid, error) {
 	return cid.NewCidV1(cid.GitRaw, h), nil
 }
 
-func cidToSha(c cid.Cid) []byte {
-	h := c.Hash()
-	return h[len(h)-20:]
+func cidToSha(c cid.Cid) ([]byte, error) {
+	if !c.Defined() {
+		return nil, errors.New("undefined CID is not a git object")
+	}
+	h, err := mh.Decode(c.Hash())
+	if err != nil {
+		return nil, err
+	}
+	if h.Code != mh.SHA1 || len(h.Digest) != gitSHALen {
+		return nil, fmt.Errorf("CID is not a git object: %s", c)
+	}
+	return h.Digest, nil
 }
 
 // isNotFound tells whether a lookup failed because the node does not have what
@@ -40,34 +48,22 @@ func isNotFound(err error) bool {
 	return errors.As(err, &notExists) || errors.As(err, &noSuchField)
 }
 
-func sha(l ipld.Link) []byte {
+func sha(l ipld.Link) ([]byte, error) {
 	cl, ok := l.(cidlink.Link)
 	if !ok {
-		return nil
+		return nil, fmt.Errorf("link is not a git object: %v", l)
 	}
 	return cidToSha(cl.Cid)
 }
 
-func (l Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
+func (l Link) sha() ([]byte, error) {
+	return sha(l.x)
 }
 
-func (l Tree_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
+func (l Tree_Link) sha() ([]byte, error) {
+	return sha(l.x)
 }
 
-func (l Commit_Link) sha() []byte {
-	cl, ok := l.x.(cidlink.Link)
-	if !ok {
-		return nil
-	}
-	return cidToSha(cl.Cid)
+func (l Commit_Link) sha() ([]byte, error) {
+	return sha(l.x)
 }
-- 
2.43.0


From 4688ec564d22128f9dc2f8cc5177b4a2752e3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:58 +0000
Subject: [PATCH 10/15] fix: recognise untyped nodes by their shape when
 encoding

The first key of a map decided, so tags with their message first, as dag-json
orders them, were taken for commits, trees could not be encoded at all, and
lists panicked.
---
 marshal.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/marshal.go b/marshal.go
index d2610e5..5a025c9 100644
--- a/marshal.go
+++ b/marshal.go
@@ -23,29 +23,32 @@ func Encode(n ipld.Node, w io.Writer) error {
 	switch n.Kind() {
 	case ipld.Kind_Bytes:
 		return encodeBlob(n, w)
-	case ipld.Kind_List:
-		return encodeTree(n, w)
 	case ipld.Kind_Map:
-		k, _, err := n.MapIterator().Next()
-		if err != nil {
+		// The one link that every commit and every tag has tells them apart;
+		// in a tree all values are maps.
+		if isCommit, err := hasLink(n, "tree"); err != nil {
 			return err
+		} else if isCommit {
+			return encodeCommit(n, w)
 		}
-		repKey, err := k.AsString()
-		if err != nil {
+		if isTag, err := hasLink(n, "object"); err != nil {
 			return err
-		}
-		switch repKey {
-		case
-			"object",
-			"type",
-			"tag",
-			"tagger",
-			"text":
+		} else if isTag {
 			return encodeTag(n, w)
-		default:
-			return encodeCommit(n, w)
 		}
+		return encodeTree(n, w)
 	default:
 		return fmt.Errorf("unrecognized object type: %T", n.Prototype())
 	}
 }
+
+func hasLink(n ipld.Node, key string) (bool, error) {
+	v, err := n.LookupByString(key)
+	if err != nil {
+		if isNotFound(err) {
+			return false, nil
+		}
+		return false, err
+	}
+	return v.Kind() == ipld.Kind_Link, nil
+}
-- 
2.43.0


From 1597d39e478a53f5a3cea2d91a67de2686355eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 11/15] fix: end a merge tag that has no message at the next
 header

The rest of the commit, message included, was taken for unknown lines of the
tag and dropped.
---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 77e105e..d92519a 100644
--- a/tag.go
+++ b/tag.go
@@ -99,6 +99,9 @@ func readMergeTag(hash []byte, rd *bufio.Reader) (Tag, []byte, error) {
 		}
 
 		switch {
+		case !bytes.HasPrefix(line, []byte(" ")):
+			// The tag has no message and the commit goes on.
+			return &out, line, nil
 		case bytes.HasPrefix(line, []byte(" type ")):
 			out.typ = _String{string(line[1+tagTypePrefixLen:])}
 		case bytes.HasPrefix(line, []byte(" tag ")):
-- 
2.43.0


From b8f4f0a451edc5633fd95eebffced27efee9f1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:36 +0000
Subject: [PATCH 12/15] fix: encode commits given as representation or generic
 maps

Encode panicked on every commit that was not the decoded node itself and had
an author or a committer.
---
 commit.go | 11 +++++++----
 util.go   | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/commit.go b/commit.go
index 56391e1..f0210b2 100644
--- a/commit.go
+++ b/commit.go
@@ -172,11 +172,14 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 }
 
 func encodeCommit(n ipld.Node, w io.Writer) error {
-	ci := Type.Commit__Repr.NewBuilder()
-	if err := ci.AssignNode(n); err != nil {
-		return fmt.Errorf("not a Commit: %T %w", n, err)
+	c, ok := n.(Commit)
+	if !ok {
+		ci := Type.Commit__Repr.NewBuilder()
+		if err := copyNode(ci, n); err != nil {
+			return fmt.Errorf("not a Commit: %T %w", n, err)
+		}
+		c = ci.Build().(Commit)
 	}
-	c := ci.Build().(Commit)
 
 	buf := new(bytes.Buffer)
 
diff --git a/util.go b/util.go
index 43cbae7..67ac185 100644
--- a/util.go
+++ b/util.go
@@ -48,6 +48,53 @@ func isNotFound(err error) bool {
 	return errors.As(err, &notExists) || errors.As(err, &noSuchField)
 }
 
+// copyNode fills na with the content of n. The AssignNode methods of the
+// generated assemblers cannot be used for this: given a map that is not of
+// their own type they panic, because they do not begin a map before they fill
+// it.
+func copyNode(na ipld.NodeAssembler, n ipld.Node) error {
+	switch n.Kind() {
+	case ipld.Kind_Map:
+		ma, err := na.BeginMap(n.Length())
+		if err != nil {
+			return err
+		}
+		for itr := n.MapIterator(); !itr.Done(); {
+			k, v, err := itr.Next()
+			if err != nil {
+				return err
+			}
+			if v.IsAbsent() {
+				continue
+			}
+			if err := ma.AssembleKey().AssignNode(k); err != nil {
+				return err
+			}
+			if err := copyNode(ma.AssembleValue(), v); err != nil {
+				return err
+			}
+		}
+		return ma.Finish()
+	case ipld.Kind_List:
+		la, err := na.BeginList(n.Length())
+		if err != nil {
+			return err
+		}
+		for itr := n.ListIterator(); !itr.Done(); {
+			_, v, err := itr.Next()
+			if err != nil {
+				return err
+			}
+			if err := copyNode(la.AssembleValue(), v); err != nil {
+				return err
+			}
+		}
+		return la.Finish()
+	default:
+		return na.AssignNode(n)
+	}
+}
+
 func sha(l ipld.Link) ([]byte, error) {
 	cl, ok := l.(cidlink.Link)
 	if !ok {
-- 
2.43.0


From 53a2c44d0c5a6a04faa692532dd247ed70f310dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 13/15] fix: decode an object into an assembler for something
 else without panicking

Decode, DecodeCommit, DecodeTag and DecodeTree handed the decoded node to
AssignNode of whatever assembler they were given. The generated Tree and
Commit assemblers and basicnode's map assembler panic when AssignNode is
given a map that is not of their own type, so loading a commit whose tree
link names a commit or a tag, with the prototype its link asks for, brought
the program down.
---
 commit.go |  2 +-
 tag.go    |  2 +-
 tree.go   |  2 +-
 util.go   | 14 ++++++++++++++
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/commit.go b/commit.go
index f0210b2..fbbaa10 100644
--- a/commit.go
+++ b/commit.go
@@ -48,7 +48,7 @@ func DecodeCommit(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return errors.New("commit has no tree")
 	}
 
-	return na.AssignNode(&c)
+	return assign(na, &c)
 }
 
 func decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) error {
diff --git a/tag.go b/tag.go
index d92519a..a51a12a 100644
--- a/tag.go
+++ b/tag.go
@@ -77,7 +77,7 @@ func DecodeTag(na ipld.NodeAssembler, rd *bufio.Reader) error {
 		return errors.New("tag has no object")
 	}
 
-	return na.AssignNode(&out)
+	return assign(na, &out)
 }
 
 // readMergeTag works for tags within commits like DecodeTag
diff --git a/tree.go b/tree.go
index 9a74101..9468842 100644
--- a/tree.go
+++ b/tree.go
@@ -44,7 +44,7 @@ func DecodeTree(na ipld.NodeAssembler, rd *bufio.Reader) error {
 	if err := ma.Finish(); err != nil {
 		return err
 	}
-	return na.AssignNode(t.Build())
+	return assign(na, t.Build().(Tree))
 }
 
 // DecodeTreeEntry fills a NodeAssembler (from `Type.TreeEntry__Repr.NewBuilder()`) from a stream of bytes
diff --git a/util.go b/util.go
index 67ac185..7f13348 100644
--- a/util.go
+++ b/util.go
@@ -7,6 +7,7 @@ import (
 	"github.com/ipfs/go-cid"
 	"github.com/ipld/go-ipld-prime"
 	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
+	"github.com/ipld/go-ipld-prime/node/basicnode"
 	"github.com/ipld/go-ipld-prime/schema"
 	mh "github.com/multiformats/go-multihash"
 )
@@ -95,6 +96,19 @@ func copyNode(na ipld.NodeAssembler, n ipld.Node) error {
 	}
 }
 
+// assign hands the decoded object n to na, which need not be an assembler for
+// that type of object: what a link leads to is only known once it is decoded.
+func assign(na ipld.NodeAssembler, n schema.TypedNode) error {
+	switch p := na.Prototype(); p {
+	case n.Prototype(), n.Representation().Prototype():
+		return na.AssignNode(n)
+	case Type.Commit, Type.Commit__Repr, Type.Tree, Type.Tree__Repr, basicnode.Prototype.Map:
+		return copyNode(na, n)
+	default:
+		return na.AssignNode(n)
+	}
+}
+
 func sha(l ipld.Link) ([]byte, error) {
 	cl, ok := l.(cidlink.Link)
 	if !ok {
-- 
2.43.0


From 35f31ea914d8e7623e2079a778ad7d2b05efa353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 14/15] fix: decode signatures with any armor header, not just
 Version and Comment

---
 commit.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/commit.go b/commit.go
index fbbaa10..b1d3bf4 100644
--- a/commit.go
+++ b/commit.go
@@ -144,10 +144,10 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	var sig strings.Builder
 
 	if string(line) != " " {
-		if strings.HasPrefix(string(line), " Version: ") || strings.HasPrefix(string(line), " Comment: ") {
+		if isArmorHeader(string(line)) {
 			sig.WriteString(string(line) + "\n")
 		} else {
-			return out, fmt.Errorf("expected first line of sig to be a single space or version")
+			return out, fmt.Errorf("expected first line of sig to be a single space or an armor header")
 		}
 	} else {
 		sig.WriteString(" \n")
@@ -171,6 +171,13 @@ func decodeGpgSig(rd *bufio.Reader) (_GpgSig, error) {
 	return out, nil
 }
 
+// isArmorHeader tells whether a line of a signature is an armor header, such as
+// "Version: GnuPG v2" or "Charset: utf-8" (RFC 4880, section 6.2).
+func isArmorHeader(line string) bool {
+	key, _, ok := strings.Cut(strings.TrimPrefix(line, " "), ": ")
+	return ok && strings.HasPrefix(line, " ") && key != "" && !strings.Contains(key, " ")
+}
+
 func encodeCommit(n ipld.Node, w io.Writer) error {
 	c, ok := n.(Commit)
 	if !ok {
-- 
2.43.0


From 3ed94583bc772fdd9fa721d8dfe96c0cdfae0f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 15/15] fix: Encode reports a write that was cut short without
 an error

---
 marshal.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/marshal.go b/marshal.go
index 5a025c9..e7af648 100644
--- a/marshal.go
+++ b/marshal.go
@@ -9,6 +9,7 @@ import (
 
 // Encode serializes a git node to a raw binary form.
 func Encode(n ipld.Node, w io.Writer) error {
+	w = fullWriter{w}
 	switch n.Prototype() {
 	case Type.Blob, Type.Blob__Repr:
 		return encodeBlob(n, w)
@@ -52,3 +53,17 @@ func hasLink(n ipld.Node, key string) (bool, error) {
 	}
 	return v.Kind() == ipld.Kind_Link, nil
 }
+
+// fullWriter fails a write that took less than it was given, also if the writer
+// itself does not say so.
+type fullWriter struct {
+	w io.Writer
+}
+
+func (f fullWriter) Write(p []byte) (int, error) {
+	n, err := f.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
-- 
2.43.0

