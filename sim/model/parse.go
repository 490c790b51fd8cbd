package model

import (
	"bytes"
	"encoding/hex"
	"strconv"
	"strings"
)

// Reading is what bytes say, read by the rules git writes objects by.
type Reading struct {
	Bad   string  // not an object under any reading: why
	Obj   *Object // the object they hold; nil if the rules do not settle it
	Exact bool    // git itself could have written them
}

// Read reads a framed object.
func Read(b []byte) Reading {
	sp := bytes.IndexByte(b, ' ')
	if sp < 0 {
		return Reading{Bad: "no type word"}
	}
	typ := string(b[:sp])
	switch typ {
	case "commit", "tree", "tag", "blob":
	default:
		return Reading{Bad: "unknown type"}
	}
	nul := bytes.IndexByte(b[sp:], 0)
	if nul < 0 {
		return Reading{Bad: "header without end"}
	}
	num, body := string(b[sp+1:sp+nul]), b[sp+nul+1:]
	size, err := strconv.ParseInt(num, 10, 64)
	if err != nil || size < 0 {
		return Reading{Bad: "size is not a number"}
	}
	if size != int64(len(body)) {
		return Reading{Bad: "wrong size"}
	}
	var r Reading
	switch typ {
	case "blob":
		r = Reading{Obj: &Object{Type: "blob", Data: body}, Exact: true}
	case "tree":
		r = readTree(body)
	case "commit":
		r = readCommit(body)
	case "tag":
		r = readTag(body)
	}
	if r.Obj != nil && (!bytes.Equal(r.Obj.Bytes(), b) || r.Obj.nobody()) {
		r.Exact = false
	}
	if typ == "blob" && !r.Exact {
		r.Obj = nil // the node of a blob holds its header
	}
	return r
}

// nobody: a tagger of whom nothing is given, which the library's nodes do not
// tell from no tagger; git always gives a date.
func (o *Object) nobody() bool {
	none := func(p *Person) bool { return p != nil && *p == Person{} }
	for _, m := range o.MergeTags {
		if none(m.Tagger) {
			return true
		}
	}
	return none(o.Tagger)
}

func readTree(b []byte) Reading {
	o := &Object{Type: "tree"}
	exact := true
	seen := map[string]bool{}
	for len(b) > 0 {
		sp := bytes.IndexByte(b, ' ')
		if sp < 0 {
			return Reading{Bad: "entry without name"}
		}
		mode := string(b[:sp])
		nul := bytes.IndexByte(b[sp:], 0)
		if nul < 0 {
			return Reading{Bad: "entry name without end"}
		}
		name := string(b[sp+1 : sp+nul])
		b = b[sp+nul+1:]
		if len(b) < 20 {
			return Reading{Bad: "entry without whole id"}
		}
		var id ID
		copy(id[:], b)
		b = b[20:]
		if seen[name] {
			return Reading{Bad: "entry name twice"}
		}
		seen[name] = true
		if len(mode) < 3 || len(mode) > 7 || strings.Trim(mode, "01234567") != "" || name == "" || strings.Contains(name, "/") {
			exact = false
		}
		o.Entries = append(o.Entries, Entry{mode, name, id})
	}
	return Reading{Obj: o, Exact: exact}
}

// lines hands out the lines of a header.
type lines struct {
	b   []byte
	cut bool // the last line had no newline
}

func (l *lines) next() (string, bool) {
	if len(l.b) == 0 {
		return "", false
	}
	i := bytes.IndexByte(l.b, '\n')
	if i < 0 {
		s := string(l.b)
		l.b, l.cut = nil, true
		return s, true
	}
	s := string(l.b[:i])
	l.b = l.b[i+1:]
	return s, true
}

func readID(s string) (id ID, ok bool) {
	if len(s) != 40 {
		return id, false
	}
	_, err := hex.Decode(id[:], []byte(s))
	return id, err == nil
}

// readPerson reads the text after the keyword. bad: not a person under any
// reading; otherwise p is nil if the rules do not settle what it says.
func readPerson(s string) (p *Person, bad bool) {
	lt, gt := strings.IndexByte(s, '<'), strings.IndexByte(s, '>')
	if lt < 0 || gt < 0 {
		return nil, true
	}
	p = &Person{}
	if gt < lt || (lt > 0 && s[lt-1] != ' ') || strings.Count(s, "<") != 1 || strings.Count(s, ">") != 1 {
		return nil, false
	}
	if lt > 0 {
		p.Name = s[:lt-1]
	}
	p.Email = s[lt+1 : gt]
	if p.Name != "" && (p.Name[0] == ' ' || strings.TrimSpace(p.Name) == "") {
		return nil, false
	}
	if rest := s[gt+1:]; rest != "" {
		f := strings.Split(rest, " ")
		if f[0] != "" || len(f) > 3 || len(f) < 2 || f[1] == "" || (len(f) == 3 && f[2] == "") {
			return nil, false
		}
		p.Date = f[1]
		if len(f) == 3 {
			p.TZ = f[2]
		}
	}
	if p.Line() != s && " "+s != p.Line() {
		return nil, false
	}
	return p, false
}

func readCommit(body []byte) Reading {
	in := &lines{b: body}
	o := &Object{Type: "commit"}
	bad := func(why string) Reading { return Reading{Bad: why} }
	unsettled := Reading{}
	if !hasLine(body, "tree ") {
		unsettled = bad("no tree") // whatever else it is
	}
	const (
		tree = iota
		parent
		author
		committer
		encoding
		mergetag
		sig
		other
	)
	at, hasTree, odd := -1, false, false
	var line string
	var ok, again bool
	// step enforces git's order; every header but parents, merge tags and the
	// rest comes once.
	step := func(k int) bool {
		if k < at || (k == at && k != parent && k != mergetag && k != other) {
			return false
		}
		at = k
		return true
	}
	for {
		if !again {
			line, ok = in.next()
		}
		again = false
		if !ok { // no blank line and no message
			if !hasTree {
				return bad("no tree")
			}
			return Reading{Obj: o}
		}
		key := func(k string) (string, bool) { return strings.CutPrefix(line, k) }
		if line == "" && !in.cut {
			if !hasTree {
				return bad("no tree")
			}
			o.Message = string(in.b)
			return Reading{Obj: o, Exact: o.Author != nil && o.Committer != nil && !odd}
		}
		if v, is := key("tree "); is {
			id, good := readID(v)
			if !good {
				return bad("tree id")
			}
			if !step(tree) {
				return unsettled
			}
			o.Tree, hasTree = id, true
		} else if v, is := key("parent "); is {
			id, good := readID(v)
			if !good {
				return bad("parent id")
			}
			if !step(parent) {
				return unsettled
			}
			o.Parents = append(o.Parents, id)
		} else if v, is := key("author "); is {
			p, notOne := readPerson(v)
			if notOne {
				return bad("author")
			}
			if p == nil || !step(author) {
				return unsettled
			}
			o.Author = p
		} else if v, is := key("committer "); is {
			p, notOne := readPerson(v)
			if notOne {
				return bad("committer")
			}
			if p == nil || !step(committer) {
				return unsettled
			}
			o.Committer = p
		} else if v, is := key("encoding "); is {
			if !step(encoding) {
				return unsettled
			}
			o.Encoding, o.BlankEncoding = v, v == ""
		} else if v, is := key("mergetag object "); is {
			id, good := readID(v)
			if !good {
				return bad("merge tag id")
			}
			if !step(mergetag) {
				return unsettled
			}
			m := MergeTag{Object: id}
			for i, k := range []string{" type ", " tag ", " tagger "} {
				line, ok = in.next()
				v, is := strings.CutPrefix(line, k)
				if !ok || (!is && i < 2) {
					return unsettled
				}
				switch {
				case i == 0:
					m.Type = v
				case i == 1:
					m.Tag = v
				case is:
					p, notOne := readPerson(v)
					if notOne {
						return bad("merge tag's tagger")
					}
					if p == nil {
						return unsettled
					}
					m.Tagger = p
					line, ok = in.next()
				}
			}
			if !ok || line != " " || in.cut {
				return unsettled
			}
			for {
				line, ok = in.next()
				if !ok || in.cut {
					return unsettled
				}
				if line == "" || line[0] != ' ' {
					break
				}
				m.Lines = append(m.Lines, line[1:])
			}
			o.MergeTags = append(o.MergeTags, m)
			again = true
		} else if line == "gpgsig -----BEGIN PGP SIGNATURE-----" {
			end := -1
			var all []string
			for {
				l, ok := in.next()
				if !ok {
					break
				}
				if l == " -----END PGP SIGNATURE-----" {
					end = len(all)
					break
				}
				all = append(all, l)
			}
			if end < 0 {
				return bad("signature without end")
			}
			if !step(sig) || end == 0 || in.cut {
				return unsettled
			}
			if l := all[0]; l != " " {
				k, _, is := strings.Cut(strings.TrimPrefix(l, " "), ": ")
				if !is || k == "" || strings.Trim(k, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-") != "" {
					odd = true // may be refused
				}
			}
			o.Sig = []string{}
			for _, l := range all {
				if l == "" || l[0] != ' ' {
					return unsettled
				}
				o.Sig = append(o.Sig, l[1:])
			}
		} else {
			if !step(other) {
				return unsettled
			}
			o.Other = append(o.Other, line)
		}
	}
}

func readTag(body []byte) Reading {
	in := &lines{b: body}
	o := &Object{Type: "tag", NoBlank: true}
	at := -1
	object := false
	unsettled := Reading{}
	if !hasLine(body, "object ") {
		unsettled = Reading{Bad: "no object"}
	}
	for {
		line, ok := in.next()
		if !ok || (line == "" && !in.cut) {
			if !object {
				return Reading{Bad: "no object"}
			}
			if at < 2 {
				return unsettled
			}
			if ok {
				o.NoBlank, o.Message = false, string(in.b)
			}
			f, _ := o.Deviant()
			return Reading{Obj: o, Exact: f == ""}
		}
		k, v, _ := strings.Cut(line, " ")
		i := map[string]int{"object": 0, "type": 1, "tag": 2, "tagger": 3}
		n, is := i[k]
		if !is || len(line) == len(k) {
			return unsettled
		}
		switch n {
		case 0:
			id, good := readID(v)
			if !good {
				return Reading{Bad: "object id"}
			}
			o.Target, object = id, true
		case 1:
			o.TargetType = v
		case 2:
			o.TagName = v
		case 3:
			p, notOne := readPerson(v)
			if notOne {
				return Reading{Bad: "tagger"}
			}
			if p == nil {
				return unsettled
			}
			o.Tagger = p
		}
		if n <= at || (n != at+1 && !(n == 3 && at == 2)) {
			return unsettled
		}
		at = n
	}
}

// hasLine tells whether some line of b is the keyword and an id.
func hasLine(b []byte, key string) bool {
	for len(b) > 0 {
		line, rest, _ := bytes.Cut(b, []byte("\n"))
		if v, is := bytes.CutPrefix(line, []byte(key)); is {
			if _, good := readID(string(v)); good {
				return true
			}
		}
		b = rest
	}
	return false
}
