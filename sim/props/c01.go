package props

import (
	"bytes"
	"context"
	"reflect"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C01", Run: runC01, Quick: 150000, Claim: "exploration",
		Rule:       "a run draws git objects from the reference grammar, decodes each through drawn routes and read schedules and encodes the nodes back in drawn forms; non-trivial: at least one decode was fed in more than one piece",
		NonTrivial: func(st map[string]int64) bool { return st["partial_reads"] > 0 },
	})
	register(&Scenario{
		ID: "C02", Run: runC02, Quick: 60000, Claim: "exploration",
		Rule:       "a run draws git objects, decodes each through a drawn route and read schedule and compares every accessor of the node with the reference model; non-trivial: at least one decode was fed in more than one piece",
		NonTrivial: func(st map[string]int64) bool { return st["partial_reads"] > 0 },
	})
}

func describe(s *core.Sim, o *model.Object) []byte {
	b := o.Bytes()
	s.Event("object %s %s, %d bytes", o.Type, model.IDOf(b).Hex(), len(b))
	s.Stats["objects:"+o.Type]++
	return b
}

func runC01(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	if s.Chance(1, 10) {
		nested(s, g)
	}
	g.Devs = true
	if s.Chance(1, 600) {
		age(s, g)
	}
	vast(s, g, "C01")
	for k := 1 + s.Intn(3); k > 0; k-- {
		o := g.Object()
		data := describe(s, o)
		finding, dev := o.Deviant()
		// right tells whether an encoding is right, or wrong in the recorded way.
		right := func(out []byte) bool {
			return bytes.Equal(out, data) || finding != "" && bytes.Equal(out, dev) && known(finding)
		}
		for j := 1 + s.Intn(3); j > 0; j-- {
			d := drawDec(s, data, allRoutes())
			res := Do(s, d)
			if !res.OK() {
				s.Fail("refused", "%s (%s) of a well-formed %s: %s\nobject: %s", routeNames[d.Route], d.D, o.Type, res, core.Q(data))
			}
			n := res.Node
			// encode in one or two of the forms a caller can hold
			for i := 1 + s.Intn(2); i > 0; i-- {
				m, form := encodeForm(s, n, o)
				var out []byte
				if form == "link" {
					ls := cidlink.DefaultLinkSystem()
					var lnk datamodel.Link
					var err error
					oc := s.Call(0, func() { lnk, err = ls.ComputeLink(gitLP, m) })
					if oc.Panic != nil || err != nil {
						s.Fail("link", "ComputeLink of a decoded %s: err %v panic %v\nobject: %s", o.Type, err, oc.Panic, core.Q(data))
					}
					if lnk != datamodel.Link(Link(model.IDOf(data))) && !(finding != "" && lnk == datamodel.Link(Link(model.IDOf(dev))) && known(finding)) {
						s.Fail("link", "ComputeLink gives %v, the object's id is %s\nobject: %s", lnk, model.IDOf(data).Hex(), core.Q(data))
					}
					continue
				}
				if form == "registry" {
					w := seam.NewSink(s)
					f, err := mc.LookupEncoder(0x78)
					if err != nil {
						s.Fail("registry", "no encoder registered for git-raw: %v", err)
					}
					oc := s.Call(0, func() { err = f(m, w) })
					if oc.Panic != nil || err != nil {
						s.Fail("encode-refused", "registered encoder: err %v panic %v\nobject: %s", err, oc.Panic, core.Q(data))
					}
					out = w.Got
				} else {
					e := Encode(s, m, nil)
					if !e.OK() {
						s.Fail("encode-refused", "Encode of a %s (%s, decoded by %s): %s\nobject: %s", o.Type, form, routeNames[d.Route], e, core.Q(data))
					}
					out = e.Out
				}
				if !right(out) {
					s.Fail("not-identical", "%s decoded by %s %s and encoded (%s): %s", o.Type, routeNames[d.Route], d.D, form, core.FirstDiff(out, data))
				}
			}
		}
	}
}

// encodeForm draws the form in which a node is handed to the encoder.
func encodeForm(s *core.Sim, n datamodel.Node, o *model.Object) (datamodel.Node, string) {
	switch s.Weighted(5, 2, 2, 1, 1, 1) {
	case 1:
		if tn, ok := n.(schema.TypedNode); ok {
			return tn.Representation(), "representation"
		}
	case 2:
		return generic(s, o), "generic"
	case 3:
		return n, "link"
	case 4:
		return n, "registry"
	case 5:
		nb := basicnode.Prototype.Any.NewBuilder()
		tn, ok := n.(schema.TypedNode)
		if ok {
			if err := datamodel.Copy(tn.Representation(), nb); err == nil {
				return nb.Build(), "generic copy"
			}
		}
	}
	return n, "as decoded"
}

// generic is the object's content as a plain map, as a caller who does not use
// the typed builders may hand it in: fields in any order, and a tag that has no
// tagger says so in any of three ways.
func generic(s *core.Sim, o *model.Object) datamodel.Node {
	if o.Type == "tag" && o.Tagger == nil {
		x := toX(o.Expect())
		for i, k := range x.keys {
			if k != "tagger" {
				continue
			}
			switch s.Intn(3) {
			case 1:
				x.keys = append(x.keys[:i:i], x.keys[i+1:]...)
				x.subs = append(x.subs[:i:i], x.subs[i+1:]...)
			case 2:
				x.subs[i].raw = datamodel.Null
			}
			break
		}
		return x.node(fieldOrder(s, o))
	}
	return Basic(o.Expect(), fieldOrder(s, o))
}

// fieldOrder draws permutations of the fields, but not of a tree's entries.
func fieldOrder(s *core.Sim, o *model.Object) func(int) []int {
	sh := Shuffled(s)
	first := o.Type == "tree"
	return func(n int) []int {
		if first {
			first = false
			return InOrder(n)
		}
		return sh(n)
	}
}

func runC02(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	if s.Chance(1, 600) {
		age(s, g)
	}
	vast(s, g, "C02")
	for k := 1 + s.Intn(3); k > 0; k-- {
		o := g.Object()
		data := describe(s, o)
		d := drawDec(s, data, allRoutes())
		res := Do(s, d)
		if !res.OK() {
			s.Fail("refused", "%s of a well-formed %s: %s\nobject: %s", routeNames[d.Route], o.Type, res, core.Q(data))
		}
		if bad := MatchAll(res.Node, o); bad != "" {
			s.Fail("content", "%s decoded by %s %s: %s\nobject: %s", o.Type, routeNames[d.Route], d.D, bad, core.Q(data))
		}
		var bad string
		oc := s.Call(0, func() { bad = typedAccess(res.Node, o) })
		if oc.Panic != nil {
			s.Fail("accessor-panic", "typed accessors of a %s panic: %v at %s", o.Type, oc.Panic, core.FirstFrame(oc.Stack))
		}
		if bad != "" {
			s.Fail("accessor", "%s: %s\nobject: %s", o.Type, bad, core.Q(data))
		}
		// equality and a generic copy
		ref := Basic(o.Expect(), InOrder)
		var repr datamodel.Node = res.Node
		if tn, ok := repr.(schema.TypedNode); ok {
			repr = tn.Representation()
		}
		if len(data) < 4000 {
			if !datamodel.DeepEqual(repr, ref) {
				s.Fail("deep-equal", "the representation of a %s is not DeepEqual to its content\nobject: %s", o.Type, core.Q(data))
			}
			nb := basicnode.Prototype.Any.NewBuilder()
			var err error
			oc = s.Call(0, func() { err = datamodel.Copy(repr, nb) })
			if err != nil || oc.Panic != nil {
				s.Fail("copy", "copying a %s: err %v panic %v", o.Type, err, oc.Panic)
			}
			if a, b := Text(nb.Build()), Text(ref); a != b {
				s.Fail("copy", "a generic copy of a %s says %s, want %s", o.Type, clip(a), clip(b))
			}
		}
		if o.Type == "tree" && len(o.Entries) > 0 && s.Chance(1, 3) {
			checkTreeEntry(s, o)
		}
	}
}

// typedAccess checks the typed accessors against the object.
func typedAccess(n datamodel.Node, o *model.Object) string {
	v := o.Expect()
	m := &matcher{}
	person := func(path string, p ipldgit.PersonInfo, want *model.Person) {
		if want == nil {
			want = &model.Person{}
		} else if l := p.GitString(); l != want.Line() {
			m.fail(path, "GitString %s, want %s", clip(l), clip(want.Line()))
		}
		if p.FieldName().String() != want.Name || p.FieldEmail().String() != want.Email || p.FieldDate().String() != want.Date || p.FieldTimezone().String() != want.TZ {
			m.fail(path, "typed person fields %q %q %q %q, want %q", p.FieldName().String(), p.FieldEmail().String(), p.FieldDate().String(), p.FieldTimezone().String(), *want)
		}
	}
	lnk := func(path string, l datamodel.Link, want model.ID) {
		if l != datamodel.Link(Link(want)) {
			m.fail(path, "typed link %v, want %v", l, Link(want))
		}
	}
	tag := func(path string, t ipldgit.Tag, target model.ID, typ, name string, tagger *model.Person, msg string) {
		lnk(path+"/object", t.FieldObject().Link(), target)
		if t.FieldType().String() != typ || t.FieldTag().String() != name || t.FieldMessage().String() != msg {
			m.fail(path, "typed tag fields %q %q %q", t.FieldType().String(), t.FieldTag().String(), clip(t.FieldMessage().String()))
		}
		person(path+"/tagger", t.FieldTagger(), tagger)
	}
	switch n := n.(type) {
	case ipldgit.Blob:
		if !bytes.Equal(n.Bytes(), v.B) {
			m.fail("", "Bytes(): %s", core.FirstDiff(n.Bytes(), v.B))
		}
	case ipldgit.Tag:
		tag("", n, o.Target, o.TargetType, o.TagName, o.Tagger, o.Message)
	case ipldgit.Tree:
		i := 0
		for it := n.Iterator(); !it.Done(); i++ {
			k, e := it.Next()
			if i >= len(o.Entries) || k.String() != o.Entries[i].Name {
				m.fail("", "typed iterator gives %q at %d", k.String(), i)
				break
			}
			w := o.Entries[i]
			for _, x := range []ipldgit.TreeEntry{e, n.Lookup(k), n.LookupMaybe(k).Must()} {
				if x == nil {
					m.fail(w.Name, "typed lookup finds nothing")
					break
				}
				if x.FieldMode().String() != w.Mode {
					m.fail(w.Name, "typed mode %q, want %q", x.FieldMode().String(), w.Mode)
				}
				lnk(w.Name, x.FieldHash().Link(), w.ID)
			}
			if m.bad != "" {
				break
			}
		}
		k, e := n.Iterator(), ipldgit.TreeEntry(nil)
		for range o.Entries {
			k.Next()
		}
		if _, e = k.Next(); e != nil || !k.Done() {
			m.fail("", "typed iterator gives more than %d entries", len(o.Entries))
		}
		if m.bad == "" && i != len(o.Entries) {
			m.fail("", "typed iterator gives %d entries, want %d", i, len(o.Entries))
		}
	case ipldgit.Commit:
		lnk("tree", n.FieldTree().Link(), o.Tree)
		if np := n.FieldTree().LinkTargetNodePrototype(); np != datamodel.NodePrototype(ipldgit.Type.Tree) && np != datamodel.NodePrototype(ipldgit.Type.Tree__Repr) {
			m.fail("tree", "link target prototype %T", np)
		}
		i := 0
		for it := n.FieldParents().Iterator(); !it.Done(); i++ {
			_, p := it.Next()
			if i >= len(o.Parents) {
				m.fail("parents", "too many parents")
				break
			}
			lnk("parents", p.Link(), o.Parents[i])
			lnk("parents", n.FieldParents().Lookup(int64(i)).Link(), o.Parents[i])
			if np := p.LinkTargetNodePrototype(); np != datamodel.NodePrototype(ipldgit.Type.Commit) && np != datamodel.NodePrototype(ipldgit.Type.Commit__Repr) {
				m.fail("parents", "link target prototype %T", np)
			}
		}
		if i != len(o.Parents) {
			m.fail("parents", "%d parents, want %d", i, len(o.Parents))
		}
		if n.FieldMessage().String() != o.Message {
			m.fail("message", "typed message %s", clip(n.FieldMessage().String()))
		}
		for _, x := range []struct {
			name string
			p    ipldgit.MaybePersonInfo
			w    *model.Person
		}{{"author", n.FieldAuthor(), o.Author}, {"committer", n.FieldCommitter(), o.Committer}} {
			if x.p.Exists() != (x.w != nil) || x.p.IsAbsent() != (x.w == nil) || x.p.IsNull() {
				m.fail(x.name, "exists %v absent %v, want exists %v", x.p.Exists(), x.p.IsAbsent(), x.w != nil)
			} else if x.w != nil {
				person(x.name, x.p.Must(), x.w)
				m.match(x.name, x.p.AsNode(), v.Get(x.name), "", nodeLevel(x.p.AsNode()))
			} else if !x.p.AsNode().IsAbsent() {
				m.fail(x.name, "the node of an absent person is not absent")
			}
		}
		enc := n.FieldEncoding()
		if enc.Exists() != o.HasEncoding() || enc.Exists() && enc.Must().String() != o.Encoding {
			m.fail("encoding", "typed encoding differs")
		} else if x := enc.AsNode(); x.IsAbsent() == enc.Exists() {
			m.fail("encoding", "the node of the encoding is absent: %v", x.IsAbsent())
		}
		sig := n.FieldSignature()
		if sig.Exists() != (o.Sig != nil) || sig.Exists() && sig.Must().String() != v.Get("signature").S {
			m.fail("signature", "typed signature differs")
		} else if x := sig.AsNode(); x.IsAbsent() == sig.Exists() {
			m.fail("signature", "the node of the signature is absent: %v", x.IsAbsent())
		}
		past := func(name string, absent bool, none bool) {
			if !absent || !none {
				m.fail(name, "typed lookup past the end: absent %v, nil %v", absent, none)
			}
		}
		np, nm, no := int64(len(o.Parents)), int64(len(o.MergeTags)), int64(len(v.Get("other").Vals))
		past("parents", gone(n.FieldParents().LookupMaybe(np)), n.FieldParents().Lookup(np) == nil)
		past("mergetag", gone(n.FieldMergetag().LookupMaybe(nm)), n.FieldMergetag().Lookup(nm) == nil)
		past("other", gone(n.FieldOther().LookupMaybe(no)), n.FieldOther().Lookup(no) == nil)
		for i := int64(0); i < min(np, 20); i++ {
			if p := n.FieldParents().LookupMaybe(i); !p.Exists() || p.Must().Link() != datamodel.Link(Link(o.Parents[i])) {
				m.fail("parents", "LookupMaybe(%d) differs", i)
			}
		}
		for i := int64(0); i < min(nm, 20); i++ {
			if t := n.FieldMergetag().LookupMaybe(i); !t.Exists() || t.Must().FieldTag().String() != o.MergeTags[i].Tag || n.FieldMergetag().Lookup(i).FieldTag().String() != o.MergeTags[i].Tag {
				m.fail("mergetag", "lookup of %d differs", i)
			}
		}
		for i := int64(0); i < min(no, 20); i++ {
			w := v.Get("other").Vals[i].S
			if t := n.FieldOther().LookupMaybe(i); !t.Exists() || t.Must().String() != w || n.FieldOther().Lookup(i).String() != w {
				m.fail("other", "lookup of %d differs", i)
			}
		}
		i = 0
		for it := n.FieldMergetag().Iterator(); !it.Done(); i++ {
			_, t := it.Next()
			if i >= len(o.MergeTags) {
				m.fail("mergetag", "too many merge tags")
				break
			}
			w := o.MergeTags[i]
			tag("mergetag", t, w.Object, w.Type, w.Tag, w.Tagger, v.Get("mergetag").Vals[i].Get("message").S)
		}
		if i != len(o.MergeTags) {
			m.fail("mergetag", "%d merge tags, want %d", i, len(o.MergeTags))
		}
		i = 0
		ot := v.Get("other")
		for it := n.FieldOther().Iterator(); !it.Done(); i++ {
			_, l := it.Next()
			if i >= len(ot.Vals) || l.String() != ot.Vals[i].S {
				m.fail("other", "typed line %d is %s", i, clip(l.String()))
				break
			}
		}
		if m.bad == "" && i != len(ot.Vals) {
			m.fail("other", "%d lines, want %d", i, len(ot.Vals))
		}
	}
	return m.bad
}

// gone: there is no such value, told in one of two ways.
func gone(m interface{ IsAbsent() bool }) bool {
	return reflect.ValueOf(m).IsNil() || m.IsAbsent()
}

// checkTreeEntry feeds single entries to the exported entry decoder.
func checkTreeEntry(s *core.Sim, o *model.Object) {
	var raw []byte
	for _, e := range o.Entries {
		raw = append(raw, e.Mode+" "+e.Name+"\x00"...)
		raw = append(raw, e.ID[:]...)
	}
	src := seam.NewSource(s, raw, seam.DrawDelivery(s.Chooser, Marks(raw)))
	rd := bufioReader(s, src)
	for i, e := range o.Entries {
		var name string
		var n datamodel.Node
		var err error
		oc := s.Call(0, func() { name, n, err = ipldgit.DecodeTreeEntry(rd) })
		if err != nil || oc.Panic != nil {
			s.Fail("entry", "DecodeTreeEntry of entry %d: err %v panic %v", i, err, oc.Panic)
		}
		v := &model.Object{Type: "tree", Entries: []model.Entry{e}}
		if name != e.Name {
			s.Fail("entry", "DecodeTreeEntry gives name %q, want %q", name, e.Name)
		}
		if bad := Match(n, v.Expect().Vals[0], "entry", nodeLevel(n)); bad != "" {
			s.Fail("entry", "DecodeTreeEntry of %q: %s", e.Name, bad)
		}
	}
}

// checkLoadCtx is shared by the link system scenarios.
func lctx() linking.LinkContext { return linking.LinkContext{Ctx: context.Background()} }
