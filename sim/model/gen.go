package model

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"verif.local/gitsim/core"
)

// Gen draws git objects from a run's choices. Profile fields vary per run.
type Gen struct {
	*core.Chooser
	Big    bool // allow sizes beyond the usual buffer sizes
	Huge   bool // allow sizes up to about a megabyte
	Devs   bool // also draw objects of the known lossy kinds
	IDs    []ID // ids to refer to; random ids when empty
	Simple bool
	last   ID
}

func (g *Gen) ID() ID {
	if len(g.IDs) > 0 && g.Chance(3, 4) {
		return g.IDs[g.Intn(len(g.IDs))]
	}
	var id ID
	defer func() { g.last = id }()
	switch g.Weighted(12, 2, 2, 2, 1, 2) {
	case 5: // one that differs from the last in one place only
		id = g.last
		id[g.Intn(20)] ^= 1 << g.Intn(8)
	case 4: // the empty tree and the empty blob, which git knows without storing them
		hex.Decode(id[:], []byte([]string{"4b825dc642cb6eb9a060e54bf8d69288fbee4904", "e69de29bb2d1d6434b8b29ae775ad8c2e48c5391"}[g.Intn(2)]))
	case 0:
		r := g.Sub()
		for i := range id {
			id[i] = byte(r.Uint64())
		}
	case 1: // zero
	case 2:
		for i := range id {
			id[i] = 0xff
		}
	case 3: // bytes that look like separators
		const sep = "\x00 \n\r<>\t/0"
		r := g.Sub()
		for i := range id {
			id[i] = sep[r.Intn(len(sep))]
		}
	}
	return id
}

// size draws a length with emphasis on small values and on the boundaries of
// common buffers.
func (g *Gen) Size() int {
	switch g.Weighted(20, 12, 6, 6, 2, 1) {
	case 5:
		limit := 3000
		if g.Big {
			limit = 70000
		}
		if g.Huge {
			limit = 1200000
		}
		if n, ok := g.Near(limit); ok {
			return n
		}
		return g.Intn(24)
	case 0:
		return g.Intn(24)
	case 1:
		return g.Intn(300)
	case 2:
		return g.Intn(3000)
	case 3:
		if !g.Big {
			return g.Intn(600)
		}
		base := []int{16, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}[g.Intn(12)]
		return max(0, base+g.Range(-40, 40))
	}
	if !g.Huge {
		return g.Intn(1000)
	}
	switch g.Intn(3) {
	case 0:
		return 65536 + g.Intn(70000)
	case 1:
		return 128*1024 + g.Range(-20, 20)
	}
	return 1<<20 + g.Range(-20, 20)
}

var words = []string{"a", "Jane", "Doe", "von", "O'Neil", "&", "Łukasz", "Jürgen", "\xe9\xff", "李", "x.y", "J.", "\"q\"", "tree", "author", "%s", "%d", "\t", "0", "-", "+0100", "123456", "\\", "😀", "ab\x01c", "\r"}

// text draws a line fragment without newline, and without any of bad.
func (g *Gen) Text(maxLen int, bad string) string {
	var s string
	switch g.Weighted(12, 6, 4, 4, 1) {
	case 4:
		s = g.Word()
		if g.Chance(1, 3) {
			s += words[g.Intn(len(words))]
		}
		if g.Chance(1, 3) {
			s = words[g.Intn(len(words))] + " " + s
		}
	case 0:
		s = words[g.Intn(3)]
	case 1:
		n := 1 + g.Intn(5)
		parts := make([]string, n)
		for i := range parts {
			parts[i] = words[g.Intn(len(words))]
		}
		sep := []string{" ", "  ", "   "}[g.Weighted(6, 1, 1)]
		s = strings.Join(parts, sep)
	case 2:
		n := g.Intn(40)
		r := g.Sub()
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + r.Intn(95))
		}
		s = string(b)
	case 3:
		n := g.Size()
		r := g.Sub()
		b := make([]byte, n)
		mode := g.Intn(3)
		for i := range b {
			switch mode {
			case 0:
				b[i] = "abcdefghij klmnop"[r.Intn(17)]
			case 1:
				b[i] = byte(1 + r.Intn(255))
			case 2:
				b[i] = 'x'
			}
		}
		s = string(b)
	}
	if strings.ContainsAny(s, "\n"+bad) || strings.IndexByte(s, 0) >= 0 {
		s = strings.Map(func(r rune) rune {
			if r == '\n' || r == 0 || strings.ContainsRune(bad, r) {
				return '_'
			}
			return r
		}, toValid(s))
	}
	if len(s) > maxLen {
		s = s[:maxLen]
	}
	return s
}

// toValid makes a string safe for strings.Map, which would replace invalid
// bytes.
func toValid(s string) string { return strings.ToValidUTF8(s, "?") }

// Person draws a person as git writes one: no leading blank in the name.
func (g *Gen) Person() *Person {
	p := &Person{Name: "A", Email: "a@b", Date: "1", TZ: "+0000"}
	switch g.Weighted(5, 4, 1) {
	case 0:
		p.Name = []string{"A", "Some One", "Łukasz Magiera"}[g.Intn(3)]
	case 1:
		p.Name = strings.TrimLeft(g.Text(20000, "<>"), " ")
		if strings.TrimRight(p.Name, " ") == "" {
			p.Name = ""
		}
	case 2:
		p.Name = ""
	}
	if p.Name != "" && g.Chance(1, 12) {
		p.Name += strings.Repeat(" ", 1+g.Intn(3))
	}
	switch g.Weighted(5, 3, 1, 1) {
	case 0:
		p.Email = "a@b.c"
	case 1:
		p.Email = g.Text(9000, "<>")
	case 2:
		p.Email = ""
	case 3:
		p.Email = []string{" a@b", "a@b ", "a  b", " ", "  ", "a@b, c@d", "a@b,  c@d  "}[g.Intn(7)]
	}
	switch g.Weighted(8, 2, 2, 2, 1) {
	case 0:
		p.Date = fmt.Sprint(g.Intn(1 << 31))
	case 1:
		p.Date = "0"
	case 2:
		p.Date = fmt.Sprint(-g.Intn(1 << 30))
	case 3:
		p.Date = fmt.Sprint(int64(1)<<31 + int64(g.Intn(1<<30))*1000) // after 2038
	case 4:
		p.Date = []string{"18446744073709551615", "007", "9223372036854775808", "-0", "1e5", "2147483647", "2147483648", "4294967296", "253402300800", "-1"}[g.Intn(10)]
		if g.Chance(1, 2) {
			if n, ok := g.Int(); ok {
				p.Date = fmt.Sprint(n)
			}
		}
	}
	switch g.Weighted(6, 3, 1, 1, 1) {
	case 0:
		p.TZ = "+0200"
	case 1:
		p.TZ = fmt.Sprintf("%c%02d%02d", "+-"[g.Intn(2)], g.Intn(15), g.Intn(60))
	case 2:
		p.TZ = []string{"-0000", "+051800", "-7", "+1400", "--700", "+0545", "UTC", "+000", "+0000\r", "-051800", "+12345678"}[g.Intn(11)]
	case 3:
		p.TZ = ""
	case 4:
		p.Date, p.TZ = "", ""
	}
	return p
}

// Message draws free text.
func (g *Gen) Message() string {
	switch g.Weighted(10, 8, 4, 6, 4, 4, 2) {
	case 6:
		m := g.Word()
		switch g.Intn(3) {
		case 1:
			m += "\n" + g.Text(300, "")
		case 2:
			m = g.Text(300, "") + "\n" + m + "\n"
		}
		return m
	case 0:
		return "msg\n"
	case 1:
		n := g.Intn(6)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(g.Text(6000, ""))
			b.WriteString([]string{"\n", "\n\n", "\r\n", "", " \n"}[g.Weighted(6, 2, 1, 1, 1)])
		}
		return b.String()
	case 2:
		return []string{"", "\n", "\n\n", "no newline", " ", "\r\n", "\x00", "a\x00b\n", "\nleading", "tree \n", "tail\r", "%s %d %!\n", "x\x00", "x\n\x00\x00"}[g.Intn(14)]
	case 3: // text that looks like headers
		return []string{
			"tree 0123\nparent x\nauthor y\n\nobject z\n",
			"tag v1\ntype commit\ntagger A <a@b> 1 +0000\n",
			"\n\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n abc\n -----END PGP SIGNATURE-----\n",
			"mergetag object 0123\n type commit\n \n x\n",
			"subject\n\n-----BEGIN PGP SIGNATURE-----\n\nabc=\n-----END PGP SIGNATURE-----\n",
			"blob 3\x00abc",
		}[g.Intn(6)]
	case 4:
		n := g.Size()
		r := g.Sub()
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Uint64())
		}
		return string(b)
	}
	n := g.Size()
	r := g.Sub()
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz    \n"[r.Intn(31)]
	}
	return string(b)
}

var otherKeys = []string{"HG:extra", "HG:rename-source hg", "change-id", "gpgsig-sha256", "treeish", "parents", "authority", "committers", "encodings", "jj:trees", "mergetags", "mergetag", "x", "tree", "author", "gpgsig", "gpgsigs -----BEGIN PGP SIGNATURE-----", "svn-id", "message", "signature", "object", "tagger A <a@b> 1 +0000", "tag x", "type x"}

// Others draws extra header lines. afterTag: the first one follows a merge tag,
// whose message it would continue if it began with a blank.
func (g *Gen) Others(afterTag bool) []string {
	var out []string
	n := g.Count(1 + g.Intn(3))
	for i := 0; i < n; i++ {
		switch g.Weighted(4, 2, 2, 1) {
		case 0:
			k := otherKeys[g.Intn(len(otherKeys))]
			if g.Chance(1, 8) {
				l := g.Word()
				if g.Chance(1, 2) {
					l += " " + g.Text(100, "")
				}
				if otherLine(l, afterTag && len(out) == 0) {
					out = append(out, l)
				}
				continue
			}
			switch {
			case g.Chance(1, 4):
			case k == "tree" || k == "author" || k == "gpgsig" || k == "mergetag":
				// with a value these would be the headers themselves
			default:
				k += " " + g.Text(9000, "")
			}
			out = append(out, k)
		case 1: // a signature that is not PGP
			kind := []string{"SSH SIGNATURE", "SIGNED MESSAGE", "PGP MESSAGE"}[g.Intn(3)]
			out = append(out, "gpgsig -----BEGIN "+kind+"-----")
			for j := g.Intn(4); j >= 0; j-- {
				out = append(out, " "+g.Text(200, ""))
			}
			out = append(out, " -----END "+kind+"-----")
		case 2: // continued header
			out = append(out, "gpgsig-sha256 -----BEGIN PGP SIGNATURE-----", " ", " "+g.Text(90, ""), " -----END PGP SIGNATURE-----")
		case 3:
			if (len(out) == 0 && afterTag) || g.Chance(1, 2) {
				out = append(out, "k "+g.Text(50, ""))
			} else {
				out = append(out, " "+g.Text(50, ""))
			}
		}
	}
	return out
}

func (g *Gen) sig() []string {
	out := []string{}
	switch g.Weighted(10, 4, 4, 2) {
	case 0:
		out = append(out, "")
	case 3: // any armor header may come first
		out = append(out, []string{"Charset: utf-8", "Hash: SHA256", "MessageID: 0123456789", "Key: a: b c", "X-y: ", "Charset:  x"}[g.Intn(6)])
		if g.Chance(1, 2) {
			out = append(out, "Version: 1", "Hash: SHA1")
		}
		if g.Chance(3, 4) {
			out = append(out, "")
		}
	case 1:
		out = append(out, "Version: GnuPG v2", "")
	case 2:
		out = append(out, "Comment: "+g.Text(100, ""))
		if g.Chance(1, 2) {
			out = append(out, "Comment: x", "Version: 1")
		}
		if g.Chance(1, 2) {
			out = append(out, "")
		}
	}
	n := g.Intn(12)
	if g.Chance(1, 10) {
		n = g.Count(g.Intn(300))
	}
	r := g.Sub()
	for i := 0; i < n; i++ {
		l := make([]byte, 64)
		for j := range l {
			l[j] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[r.Intn(64)]
		}
		out = append(out, string(l))
	}
	if g.Chance(1, 2) {
		out = append(out, "=AbC4")
	}
	if g.Chance(1, 8) {
		if l := g.Text(9000, ""); l != "-----END PGP SIGNATURE-----" {
			out = append(out, l)
		}
	}
	if len(out) > 1 && g.Chance(1, 24) { // another block begins before this one ends
		l := []string{"-----BEGIN PGP SIGNATURE-----", "-----BEGIN PGP MESSAGE-----", "", "gpgsig -----BEGIN PGP SIGNATURE-----"}[g.Intn(4)]
		i := len(out) - g.Intn(2)
		out = append(out[:i:i], append([]string{l}, out[i:]...)...)
	}
	return out
}

// Types of tag targets.
var Types = []string{"commit", "tree", "blob", "tag"}

func (g *Gen) mergeTag() MergeTag {
	m := MergeTag{Object: g.ID(), Type: Types[g.Weighted(8, 1, 1, 1)], Tag: "v1", Tagger: &Person{"T", "t@t", "2", "-0330"}}
	if g.Chance(1, 3) {
		m.Tag = g.Text(6000, "")
	}
	switch g.Weighted(3, 3, 1) {
	case 1:
		m.Tagger = g.Person()
		if *m.Tagger == (Person{}) {
			m.Tagger = nil
		}
	case 2:
		m.Tagger = nil
	}
	n := g.Count(g.Intn(5))
	for i := 0; i < n; i++ {
		switch g.Weighted(4, 2, 1, 1) {
		case 0:
			m.Lines = append(m.Lines, g.Text(9000, ""))
		case 1:
			m.Lines = append(m.Lines, "")
		case 2:
			m.Lines = append(m.Lines, "crlf\r")
		case 3:
			m.Lines = append(m.Lines, "-----BEGIN PGP SIGNATURE-----", "", "abc", "-----END PGP SIGNATURE-----")
		}
	}
	if g.Devs && g.Chance(1, 16) {
		m.Extra = []string{"gpgsig-sha256 x"}
	}
	if g.Devs && g.Chance(1, 16) {
		m.NoBlank, m.Lines = true, nil
	}
	return m
}

var encodings = []string{"UTF-8", "utf-8", "UTF8", "utf8", "US-ASCII", "latin1", "CP1252", "SHIFT_JIS", "binary", "none", "i18n.commitEncoding"}

// Commit draws a commit.
func (g *Gen) Commit() *Object {
	o := &Object{Type: "commit", Tree: g.ID()}
	switch g.Weighted(4, 3, 3, 1, 1) {
	case 0:
		o.Parents = []ID{g.ID()}
	case 1:
	case 2:
		o.Parents = []ID{g.ID(), g.ID()}
	case 3:
		for i := g.Count(g.Intn(20)); i >= 0; i-- {
			o.Parents = append(o.Parents, g.ID())
		}
	case 4:
		if g.Big {
			for i := g.Intn(200); i >= 0; i-- {
				o.Parents = append(o.Parents, g.ID())
			}
		}
	}
	o.Author, o.Committer = g.Person(), g.Person()
	if g.Chance(1, 4) {
		o.Encoding = "ISO-8859-1"
		switch g.Weighted(4, 2, 2, 1) {
		case 3: // what git writes if it is configured to an empty one
			o.Encoding, o.BlankEncoding = "", true
		case 1:
			o.Encoding = encodings[g.Intn(len(encodings))]
		case 2:
			o.Encoding = "x" + g.Text(5000, "")
			if w := g.Word(); w != "" && !strings.ContainsAny(w, "\n\x00") && g.Chance(1, 2) {
				o.Encoding = w
			}
		}
	}
	if g.Chance(1, 3) {
		n := 1 + g.Weighted(5, 3, 1)
		if g.Big && g.Chance(1, 10) {
			n = 1 + g.Count(g.Intn(12))
		}
		for i := 0; i < n; i++ {
			o.MergeTags = append(o.MergeTags, g.mergeTag())
		}
	}
	if g.Chance(1, 3) {
		o.Sig = g.sig()
	}
	if g.Chance(1, 3) {
		o.Other = g.Others(len(o.MergeTags) > 0 && o.Sig == nil)
	}
	if o.Sig != nil && g.Chance(1, 5) {
		// GitHub leaves a blank continuation line after the signature.
		o.Other = append([]string{" "}, o.Other...)
	}
	if g.Devs && o.Sig != nil && g.Chance(1, 10) {
		o.OtherBefore = []string{"HG:extra x"}
	}
	o.Message = g.Message()
	return o
}

// Tag draws an annotated tag.
func (g *Gen) Tag() *Object {
	o := &Object{Type: "tag", Target: g.ID(), TargetType: Types[g.Intn(4)], TagName: "v1.0"}
	if g.Chance(1, 2) {
		o.TagName = g.Text(6000, "")
	}
	o.Tagger = g.Person()
	if g.Chance(1, 8) || *o.Tagger == (Person{}) {
		o.Tagger = nil
	}
	o.Message = g.Message()
	if o.Message == "" {
		o.NoBlank = true
		if g.Devs && g.Chance(1, 4) {
			o.NoBlank = false
		}
	}
	if g.Devs && g.Chance(1, 30) {
		o.TagExtra = []string{"gpgsig-sha256 x"}
	}
	return o
}

var modes = []string{"100644", "40000", "100755", "120000", "160000", "100664", "40755", "644", "100600", "040000", "0100644"}

// Tree draws a tree in git's order.
func (g *Gen) TreeObj() *Object {
	o := &Object{Type: "tree"}
	n := 0
	switch g.Weighted(6, 2, 2, 1) {
	case 0:
		n = g.Intn(6)
	case 1:
		n = g.Count(g.Intn(40))
	case 2:
		n = 0
	case 3:
		if g.Big {
			n = g.Intn(400)
		}
		if g.Huge && g.Chance(1, 4) {
			n = 1000 + g.Intn(3000)
		}
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var name string
		switch g.Weighted(6, 3, 2, 2) {
		case 0:
			name = fmt.Sprintf("file%d", g.Intn(4*n+1))
		case 1:
			name = strings.ReplaceAll(g.Text(5000, ""), "/", "_")
		case 2:
			name = []string{"mode", "hash", "tree", "object", "tag", "message", "parents", "0", "1", "-1", " ", "a b", "a.b", "a-b", "a", ".git", "..", "100644", "40000 x", "\xff\xfe", "é", "\u0065\u0301", "\r", "\n", "\t", "%s"}[g.Intn(26)]
		case 3:
			name = []string{"foo", "foo.txt", "foo-bar", "foo0", "foobar", "Foo"}[g.Intn(6)]
		}
		if name == "" || seen[name] || len(name) > 5000 {
			name = fmt.Sprintf("n%d", i)
			if seen[name] {
				continue
			}
		}
		seen[name] = true
		o.Entries = append(o.Entries, Entry{modes[g.Weighted(12, 8, 4, 2, 2, 2, 2, 2, 2, 1, 1)], name, g.ID()})
	}
	key := func(e Entry) string {
		if IsDir(e.Mode) {
			return e.Name + "/"
		}
		return e.Name
	}
	sort.SliceStable(o.Entries, func(i, j int) bool { return key(o.Entries[i]) < key(o.Entries[j]) })
	return o
}

// Blob draws a blob.
func (g *Gen) BlobObj() *Object {
	n := g.Size()
	r := g.Sub()
	b := make([]byte, n)
	switch g.Weighted(4, 4, 4, 1) {
	case 3: // a constant of the code, alone or at an end of something
		w := g.Word()
		switch g.Intn(4) {
		case 0:
			b = []byte(w)
		case 1:
			b = append([]byte(w), b...)
		case 2:
			b = append(b, w...)
		case 3:
			b = g.OtherType()
		}
	case 0:
		for i := range b {
			b[i] = byte(r.Uint64())
		}
	case 1:
		for i := range b {
			b[i] = "abc \n\x00"[r.Intn(6)]
		}
	case 2:
		c := byte(r.Uint64())
		for i := range b {
			b[i] = c
		}
	}
	return &Object{Type: "blob", Data: b}
}

// OtherType draws what a blob may hold as well: an object, or a body of one.
func (g *Gen) OtherType() []byte {
	o := g.Object()
	if g.Chance(1, 2) {
		return o.Body()
	}
	return o.Bytes()
}

// Object draws any object.
func (g *Gen) Object() *Object {
	switch g.Weighted(5, 3, 4, 2) {
	case 0:
		return g.Commit()
	case 1:
		return g.Tag()
	case 2:
		return g.TreeObj()
	}
	return g.BlobObj()
}

// NewGen draws a run's size profile.
func NewGen(c *core.Chooser) *Gen {
	g := &Gen{Chooser: c}
	switch c.Weighted(5, 4, 1) {
	case 1:
		g.Big = true
	case 2:
		g.Big, g.Huge = true, true
	}
	return g
}

// IsDir: an entry of this mode is a tree.
func IsDir(mode string) bool { return strings.HasPrefix(strings.TrimLeft(mode, "0"), "40") }
