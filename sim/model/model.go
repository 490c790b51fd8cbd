// Package model is the reference: an independent description of git objects,
// how git writes them, and what a decoded node must say. It shares no code with
// the library under test.
package model

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"strings"
)

type ID [20]byte

func (i ID) Hex() string { return hex.EncodeToString(i[:]) }

// Person is the text of an author, committer or tagger line.
type Person struct {
	Name, Email, Date, TZ string // Date "" means the line ends after the e-mail
}

func (p *Person) Line() string {
	s := p.Name + " <" + p.Email + ">"
	if p.Date != "" {
		s += " " + p.Date
		if p.TZ != "" {
			s += " " + p.TZ
		}
	}
	return s
}

// MergeTag is a tag object embedded in a merge commit.
type MergeTag struct {
	Object    ID
	Type, Tag string
	Tagger    *Person
	Extra     []string // header lines other than the four known ones
	NoBlank   bool     // the tag has no blank line and no message
	Lines     []string // lines of the tag's message
}

// Object is one git object.
type Object struct {
	Type string // "blob", "tree", "commit", "tag"

	// blob
	Data []byte

	// tree
	Entries []Entry

	// commit
	Tree          ID
	Parents       []ID
	Author        *Person
	Committer     *Person
	Encoding      string
	BlankEncoding bool // an encoding line with nothing on it
	MergeTags     []MergeTag
	Sig           []string // lines between BEGIN and END, without the leading space; nil: none
	Other         []string // remaining header lines, in order, after the signature
	OtherBefore   []string // remaining header lines that precede the signature
	Message       string

	// tag (Message and Author-less)
	Target     ID
	TargetType string
	TagName    string
	Tagger     *Person
	TagExtra   []string // header lines other than the four known ones
	NoBlank    bool     // no blank line and no message
}

type Entry struct {
	Mode, Name string
	ID         ID
}

// Body is the object without its header, as git writes it.
func (o *Object) Body() []byte {
	var b bytes.Buffer
	switch o.Type {
	case "blob":
		b.Write(o.Data)
	case "tree":
		for _, e := range o.Entries {
			b.WriteString(e.Mode)
			b.WriteByte(' ')
			b.WriteString(e.Name)
			b.WriteByte(0)
			b.Write(e.ID[:])
		}
	case "commit":
		line := func(parts ...string) {
			for _, p := range parts {
				b.WriteString(p)
			}
			b.WriteByte('\n')
		}
		line("tree ", o.Tree.Hex())
		for _, p := range o.Parents {
			line("parent ", p.Hex())
		}
		if o.Author != nil {
			line("author ", o.Author.Line())
		}
		if o.Committer != nil {
			line("committer ", o.Committer.Line())
		}
		if o.HasEncoding() {
			line("encoding ", o.Encoding)
		}
		for _, m := range o.MergeTags {
			line("mergetag object ", m.Object.Hex())
			line(" type ", m.Type)
			line(" tag ", m.Tag)
			if m.Tagger != nil {
				line(" tagger ", m.Tagger.Line())
			}
			for _, x := range m.Extra {
				line(" ", x)
			}
			if !m.NoBlank {
				line(" ")
				for _, l := range m.Lines {
					line(" ", l)
				}
			}
		}
		for _, l := range o.OtherBefore {
			line(l)
		}
		if o.Sig != nil {
			line("gpgsig -----BEGIN PGP SIGNATURE-----")
			for _, l := range o.Sig {
				line(" ", l)
			}
			line(" -----END PGP SIGNATURE-----")
		}
		for _, l := range o.Other {
			line(l)
		}
		b.WriteByte('\n')
		b.WriteString(o.Message)
	case "tag":
		fmt.Fprintf(&b, "object %s\ntype %s\ntag %s\n", o.Target.Hex(), o.TargetType, o.TagName)
		if o.Tagger != nil {
			b.WriteString("tagger " + o.Tagger.Line() + "\n")
		}
		for _, l := range o.TagExtra {
			b.WriteString(l + "\n")
		}
		if !o.NoBlank {
			b.WriteString("\n" + o.Message)
		}
	}
	return b.Bytes()
}

// Frame puts a git header before a body.
func Frame(typ string, body []byte) []byte {
	h := fmt.Sprintf("%s %d\x00", typ, len(body))
	return append([]byte(h), body...)
}

// Bytes is the whole object as hashed by git.
func (o *Object) Bytes() []byte { return Frame(o.Type, o.Body()) }

// IDOf is the git object id of a framed object.
func IDOf(b []byte) ID { return sha1.Sum(b) }

func (o *Object) ID() ID { return IDOf(o.Bytes()) }

// Deviant describes an input on which the library is known to lose something
// its data model has no place for, and exactly what it then writes instead.
// It returns "" for every other object.
func (o *Object) Deviant() (finding string, out []byte) {
	switch {
	case o.Type == "tag" && len(o.TagExtra) > 0:
		c := *o
		c.TagExtra = nil
		if c.Message == "" {
			c.NoBlank = true
		}
		return "KF2", c.Bytes()
	case o.Type == "tag" && !o.NoBlank && o.Message == "":
		c := *o
		c.NoBlank = true
		return "KF1", c.Bytes()
	case o.Type == "commit":
		c := *o
		f := ""
		if len(o.OtherBefore) > 0 && o.Sig != nil {
			f = "KF3"
			c.OtherBefore = nil
			c.Other = append(append([]string{}, o.OtherBefore...), o.Other...)
		}
		c.MergeTags = append([]MergeTag{}, o.MergeTags...)
		for i := range c.MergeTags {
			m := &c.MergeTags[i]
			if len(m.Extra) > 0 {
				f, m.Extra = "KF4", nil
			}
			if m.NoBlank {
				f, m.NoBlank = "KF5", false
			}
		}
		if f != "" {
			return f, c.Bytes()
		}
	}
	return "", nil
}

// ---- expected node content

type VKind int

const (
	VMap VKind = iota
	VList
	VString
	VBytes
	VLink
)

// Val is the expected content of a node at representation level.
type Val struct {
	Kind VKind
	Keys []string
	Vals []*Val
	S    string
	B    []byte
	L    ID
}

func str(s string) *Val { return &Val{Kind: VString, S: s} }
func lnk(i ID) *Val     { return &Val{Kind: VLink, L: i} }

func (v *Val) put(k string, x *Val) {
	v.Keys = append(v.Keys, k)
	v.Vals = append(v.Vals, x)
}

// Get returns the value under a key, or nil.
func (v *Val) Get(k string) *Val {
	for i, x := range v.Keys {
		if x == k {
			return v.Vals[i]
		}
	}
	return nil
}

func PersonVal(p *Person) *Val {
	if p == nil {
		p = &Person{}
	}
	v := &Val{Kind: VMap}
	v.put("date", str(p.Date))
	v.put("timezone", str(p.TZ))
	v.put("email", str(p.Email))
	v.put("name", str(p.Name))
	return v
}

func TagVal(target ID, typ, name string, tagger *Person, msg string) *Val {
	v := &Val{Kind: VMap}
	v.put("object", lnk(target))
	v.put("type", str(typ))
	v.put("tag", str(name))
	v.put("tagger", PersonVal(tagger))
	v.put("message", str(msg))
	return v
}

// Expect is the content the decoded node must have, optional fields that the
// object lacks left out, in schema (or tree) order.
func (o *Object) Expect() *Val {
	switch o.Type {
	case "blob":
		return &Val{Kind: VBytes, B: o.Bytes()}
	case "tree":
		v := &Val{Kind: VMap}
		for _, e := range o.Entries {
			x := &Val{Kind: VMap}
			x.put("mode", str(e.Mode))
			x.put("hash", lnk(e.ID))
			v.put(e.Name, x)
		}
		return v
	case "tag":
		return TagVal(o.Target, o.TargetType, o.TagName, o.Tagger, o.Message)
	}
	v := &Val{Kind: VMap}
	v.put("tree", lnk(o.Tree))
	ps := &Val{Kind: VList}
	for _, p := range o.Parents {
		ps.Vals = append(ps.Vals, lnk(p))
	}
	v.put("parents", ps)
	v.put("message", str(o.Message))
	if o.Author != nil {
		v.put("author", PersonVal(o.Author))
	}
	if o.Committer != nil {
		v.put("committer", PersonVal(o.Committer))
	}
	if o.HasEncoding() {
		v.put("encoding", str(o.Encoding))
	}
	if o.Sig != nil {
		var b strings.Builder
		for _, l := range o.Sig {
			b.WriteString(" " + l + "\n")
		}
		v.put("signature", str(b.String()))
	}
	ms := &Val{Kind: VList}
	for _, m := range o.MergeTags {
		var b strings.Builder
		for _, l := range m.Lines {
			b.WriteString(" " + l + "\n")
		}
		ms.Vals = append(ms.Vals, TagVal(m.Object, m.Type, m.Tag, m.Tagger, b.String()))
	}
	v.put("mergetag", ms)
	ot := &Val{Kind: VList}
	for _, l := range o.OtherBefore {
		ot.Vals = append(ot.Vals, str(l))
	}
	for _, l := range o.Other {
		ot.Vals = append(ot.Vals, str(l))
	}
	v.put("other", ot)
	return v
}

// CommitFields are all fields of a commit in schema order; the optional ones
// are marked.
var CommitFields = []string{"tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other"}
var CommitOptional = map[string]bool{"author": true, "committer": true, "encoding": true, "signature": true}

// HasEncoding tells whether a commit has an encoding line.
func (o *Object) HasEncoding() bool { return o.Encoding != "" || o.BlankEncoding }
