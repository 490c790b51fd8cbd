package props

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C07", Run: runC07, Quick: 400000, Claim: "exploration",
		Rule:       "a run either lets every access to a node fail in turn (up to 80 accesses; a drawn sample beyond) while it is encoded, or encodes a node that is not a git object (a drawn defect in a drawn place), or encodes one content in several forms and field orders; non-trivial: at least one access failed or one defect was present",
		NonTrivial: func(st map[string]int64) bool { return st["probe:access-failed"]+st["probe:defect"] > 0 },
	})
}

func runC07(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	if s.Chance(1, 8) {
		nested(s, g)
	}
	switch s.Weighted(5, 4, 1) {
	case 0:
		faultyNode(s, g)
	case 1:
		notGit(s, g)
	case 2:
		o := g.Object()
		data := describe(s, o)
		for k := 0; k < 3; k++ {
			e := Encode(s, generic(s, o), nil)
			if !e.OK() || !bytes.Equal(e.Out, data) {
				s.Fail("form", "a generic map with the content of a %s encodes differently: %s %s", o.Type, e, core.FirstDiff(e.Out, data))
			}
		}
	}
}

func faultyNode(s *core.Sim, g *model.Gen) {
	o := g.Object()
	data := describe(s, o)
	var base datamodel.Node
	form := ""
	switch s.Weighted(3, 2, 3) {
	case 0:
		base, form = mustDecode(s, o, data), "typed"
	case 1:
		n := mustDecode(s, o, data)
		base, form = n.(schema.TypedNode).Representation(), "representation"
	case 2:
		base, form = generic(s, o), "generic"
	}
	inj := seam.NewErr(s.Chooser)
	if s.Chance(1, 5) {
		inj = seam.OddErr(s.Chooser, true)
	}
	var read error
	if s.Chance(1, 4) {
		read = seam.AbsentLike(s.Chooser)
	}
	run := func(at int, sticky bool) (*Enc, *seam.NodeFaults) {
		f := &seam.NodeFaults{S: s, At: at, Sticky: sticky, Err: inj, Read: read}
		return Encode(s, seam.Wrap(base, f), nil), f
	}
	e, f := run(-1, false)
	if !e.OK() || !bytes.Equal(e.Out, data) {
		s.Fail("form", "a %s node that forwards every access to a %s encodes differently: %s %s", form, o.Type, e, core.FirstDiff(e.Out, data))
	}
	total := f.N
	var points []int
	if total <= 80 && len(data) < 4000 {
		points = InOrder(total)
		s.Probe("all-accesses")
	} else {
		for i := 0; i < 12; i++ {
			points = append(points, s.Intn(total))
		}
		points = append(points, 0, total-1)
	}
	sticky := s.Chance(1, 3)
	for _, at := range points {
		e, f := run(at, sticky)
		if e.Broke() {
			s.Fail("panic", "Encode of a %s %s whose access %d (%s) fails: %s", form, o.Type, at, f.Where, e)
		}
		if f.Failed == 0 {
			continue
		}
		s.Probe("access-failed")
		if e.Err == nil {
			s.Fail("absorbed", "Encode of a %s %s succeeds although access %d of %d (%s) failed; output: %s", form, o.Type, at, total, f.Where, core.FirstDiff(e.Out, data))
		}
		if !isInjected(e.Err) && !errors.Is(e.Err, inj) {
			s.Fail("not-wrapped", "Encode of a %s %s whose access %d (%s) fails with %q reports %q", form, o.Type, at, f.Where, inj, e.Err)
		}
		if len(e.Out) != 0 {
			s.Fail("wrote", "Encode of a %s %s whose access %d (%s) fails wrote %d bytes: %s", form, o.Type, at, f.Where, len(e.Out), core.Q(e.Out))
		}
	}
}

type oddLink struct{}

func (oddLink) Prototype() datamodel.LinkPrototype { return nil }
func (oddLink) String() string                     { return "odd" }
func (oddLink) Binary() string                     { return "odd" }

// badLink draws a link that does not name a git object by its SHA-1.
func badLink(s *core.Sim) datamodel.Link {
	mk := func(codec uint64, code, n byte, digest []byte) datamodel.Link {
		b := append([]byte{code, n}, digest...)
		return cidlink.Link{Cid: cid.NewCidV1(codec, b)}
	}
	d := bytes.Repeat([]byte{7}, 64)
	switch s.Intn(9) {
	case 0:
		return mk(0x78, 0x12, 32, d[:32]) // sha2-256
	case 1:
		return mk(0x78, 0x00, 5, d[:5]) // identity
	case 2:
		return mk(0x78, 0x00, 20, d[:20]) // identity, 20 bytes
	case 3:
		return mk(0x78, 0x11, 19, d[:19]) // sha1, cut
	case 4:
		return cidlink.Link{} // undefined
	case 5:
		return oddLink{}
	case 6:
		return cidlink.Link{Cid: cid.NewCidV0(append([]byte{0x12, 32}, d[:32]...))}
	case 7:
		return mk(0x71, 0x13, 64, d[:64]) // sha2-512
	}
	return mk(0x78, 0x11, 0, nil)
}

// xval is a model value or a raw node in its place.
type xval struct {
	*model.Val
	raw  datamodel.Node
	keys []string
	subs []*xval
}

func toX(v *model.Val) *xval {
	x := &xval{Val: v}
	for i, y := range v.Vals {
		if v.Kind == model.VMap {
			x.keys = append(x.keys, v.Keys[i])
		}
		x.subs = append(x.subs, toX(y))
	}
	return x
}

func (x *xval) node(order func(int) []int) datamodel.Node {
	if x.raw != nil {
		return x.raw
	}
	nb := basicnode.Prototype.Any.NewBuilder()
	switch x.Kind {
	case model.VMap:
		ma, _ := nb.BeginMap(int64(len(x.subs)))
		for _, i := range order(len(x.subs)) {
			a, err := ma.AssembleEntry(x.keys[i])
			if err != nil {
				panic(err)
			}
			if err := a.AssignNode(x.subs[i].node(order)); err != nil {
				panic(err)
			}
		}
		ma.Finish()
	case model.VList:
		la, _ := nb.BeginList(int64(len(x.subs)))
		for _, y := range x.subs {
			la.AssembleValue().AssignNode(y.node(order))
		}
		la.Finish()
	default:
		return Basic(x.Val, InOrder)
	}
	return nb.Build()
}

func notGit(s *core.Sim, g *model.Gen) {
	var n datamodel.Node
	what := ""
	switch s.Weighted(6, 2, 2) {
	case 0: // a git object with one defect
		var o *model.Object
		for {
			o = g.Object()
			if o.Type != "blob" && (o.Type != "tree" || len(o.Entries) > 0) {
				break
			}
			if s.Chance(1, 4) {
				o = &model.Object{Type: "tag", Target: g.ID(), TargetType: "commit", TagName: "v", Message: "m\n"}
				break
			}
		}
		describe(s, o)
		x := toX(o.Expect())
		what = o.Type + " with " + spoil(s, o, x)
		n = x.node(fieldOrder(s, o))
		if o.Type == "tree" && s.Chance(1, 3) {
			k := []datamodel.Node{basicnode.NewInt(5), basicnode.NewBytes([]byte("x")), emptyMap(), basicnode.NewLink(Link(g0)), datamodel.Null, emptyList()}[s.Intn(6)]
			n = &oddKey{Node: Basic(o.Expect(), InOrder), at: s.Intn(len(o.Entries)), key: k}
			what = fmt.Sprintf("tree with a %s for an entry's name", k.Kind())
			break
		}
		// the same as a typed node, where the builders let it be built
		if s.Chance(1, 2) {
			if tn := buildTyped(s, o.Type, n); tn != nil {
				n = tn
				what = "typed " + what
				if s.Chance(1, 2) {
					n = tn.(schema.TypedNode).Representation()
				}
			}
		}
	case 1: // some other node
		vals := []datamodel.Node{basicnode.NewInt(1), basicnode.NewBool(true), basicnode.NewFloat(1.5), basicnode.NewString("tree"), basicnode.NewLink(Link(g.ID())), datamodel.Null, datamodel.Absent}
		i := s.Intn(len(vals) + 2)
		if i < len(vals) {
			n = vals[i]
			what = fmt.Sprintf("a %s", n.Kind())
			break
		}
		nb := basicnode.Prototype.Any.NewBuilder()
		if i == len(vals) {
			la, _ := nb.BeginList(1)
			for k := s.Intn(3); k > 0; k-- {
				la.AssembleValue().AssignString("x")
			}
			la.Finish()
			what = "a list"
		} else {
			ma, _ := nb.BeginMap(1)
			k := []string{"tree", "object", "x", "", "mode", "hash"}[s.Intn(6)]
			a, _ := ma.AssembleEntry(k)
			a.AssignNode(vals[s.Intn(4)])
			ma.Finish()
			what = "a map of " + k
		}
		n = nb.Build()
	case 2: // a part of a git object
		o := g.Commit()
		o.MergeTags = append(o.MergeTags, model.MergeTag{Object: g.ID(), Type: "commit", Tag: "x", Tagger: o.Author})
		d := describe(s, o)
		c, ok := mustDecode(s, o, d).(ipldgit.Commit)
		if !ok {
			s.Fail("type", "a decoded commit is not a Commit")
		}
		t := &model.Object{Type: "tree", Entries: []model.Entry{{Mode: "100644", Name: "a", ID: g.ID()}}}
		tr, ok := mustDecode(s, t, t.Bytes()).(ipldgit.Tree)
		if !ok {
			s.Fail("type", "a decoded tree is not a Tree")
		}
		_, te := tr.Iterator().Next()
		parts := []datamodel.Node{c.FieldTree(), c.FieldParents(), c.FieldMessage(), c.FieldAuthor().Must(), c.FieldMergetag(), c.FieldOther(), te}
		n = parts[s.Intn(len(parts))]
		if s.Chance(1, 2) {
			n = n.(schema.TypedNode).Representation()
		}
		what = fmt.Sprintf("a bare %T", n)
	}
	s.Probe("defect")
	s.Event("not git: %s", what)
	e := Encode(s, n, nil)
	if e.Broke() {
		s.Fail("panic", "Encode of %s: %s", what, e)
	}
	if e.Err == nil {
		s.Fail("accepted", "Encode of %s succeeds with %s", what, core.Q(e.Out))
	}
	if len(e.Out) != 0 {
		s.Fail("wrote", "Encode of %s fails (%v) after writing %s", what, e.Err, core.Q(e.Out))
	}
}

// buildTyped assembles a typed node from a generic one, or returns nil if the
// assembler refuses.
func buildTyped(s *core.Sim, typ string, n datamodel.Node) (out datamodel.Node) {
	nb := Proto(typ, s.Chance(1, 2)).NewBuilder()
	var err error
	oc := s.Call(0, func() { err = deepAssign(nb, n) })
	if err != nil || oc.Panic != nil {
		return nil
	}
	return nb.Build()
}

// deepAssign copies without relying on AssignNode of recursive kinds.
func deepAssign(na datamodel.NodeAssembler, n datamodel.Node) error {
	switch n.Kind() {
	case datamodel.Kind_Map:
		ma, err := na.BeginMap(n.Length())
		if err != nil {
			return err
		}
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				return err
			}
			if v.IsAbsent() {
				continue
			}
			ks, err := k.AsString()
			if err != nil {
				return err
			}
			a, err := ma.AssembleEntry(ks)
			if err != nil {
				return err
			}
			if err := deepAssign(a, v); err != nil {
				return err
			}
		}
		return ma.Finish()
	case datamodel.Kind_List:
		la, err := na.BeginList(n.Length())
		if err != nil {
			return err
		}
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				return err
			}
			if err := deepAssign(la.AssembleValue(), v); err != nil {
				return err
			}
		}
		return la.Finish()
	}
	return na.AssignNode(n)
}

// spoil puts one defect into x that no reading of the data model can excuse.
func spoil(s *core.Sim, o *model.Object, x *xval) string {
	// the places where something can be wrong
	type place struct {
		parent *xval
		i      int
		path   string
		opt    bool // may be missing
	}
	var all, links []place
	var walk func(y *xval, path string)
	walk = func(y *xval, path string) {
		for i, z := range y.subs {
			p := fmt.Sprintf("%s/%d", path, i)
			opt := y.Kind == model.VList
			if y.Kind == model.VMap {
				p = path + "/" + y.keys[i]
				if path == "" {
					switch {
					case o.Type == "tree":
						opt = true
					case o.Type == "commit":
						opt = model.CommitOptional[y.keys[i]]
					case o.Type == "tag":
						opt = y.keys[i] == "tagger"
					}
				}
			}
			all = append(all, place{y, i, p, opt})
			if z.Kind == model.VLink {
				links = append(links, place{y, i, p, opt})
			}
			walk(z, p)
		}
	}
	walk(x, "")
	if len(links) > 0 && s.Chance(2, 5) {
		p := links[s.Intn(len(links))]
		l := badLink(s)
		p.parent.subs[p.i] = &xval{raw: basicnode.NewLink(l)}
		return fmt.Sprintf("a link to %v at %s", linkText(l), p.path)
	}
	for try := 0; ; try++ {
		p := all[s.Intn(len(all))]
		z := p.parent.subs[p.i]
		if try > 20 {
			p = links[0]
			z = p.parent.subs[p.i]
		}
		if s.Chance(1, 2) && p.parent.Kind == model.VMap && !p.opt {
			p.parent.subs = append(p.parent.subs[:p.i:p.i], p.parent.subs[p.i+1:]...)
			p.parent.keys = append(p.parent.keys[:p.i:p.i], p.parent.keys[p.i+1:]...)
			return "no " + p.path
		}
		// another kind
		cands := []datamodel.Node{basicnode.NewInt(5), basicnode.NewBool(true), basicnode.NewFloat(0.5), basicnode.NewString("x"), basicnode.NewBytes([]byte("x")), basicnode.NewLink(Link(g0)), emptyMap(), emptyList(), datamodel.Null}
		c := cands[s.Intn(len(cands))]
		kinds := map[model.VKind]datamodel.Kind{model.VMap: datamodel.Kind_Map, model.VList: datamodel.Kind_List, model.VString: datamodel.Kind_String, model.VBytes: datamodel.Kind_Bytes, model.VLink: datamodel.Kind_Link}
		if c.Kind() == kinds[z.Kind] {
			continue
		}
		if c.Kind() == datamodel.Kind_Null && p.path == "/tagger" {
			continue // a null tagger is taken as none
		}
		// a link where the key decides between kinds of object is a different defect
		if o.Type == "tree" && c.Kind() == datamodel.Kind_Link && (p.path == "/tree" || p.path == "/object") {
			continue
		}
		p.parent.subs[p.i] = &xval{raw: c}
		return fmt.Sprintf("a %s at %s", c.Kind(), p.path)
	}
}

// oddKey is a map one of whose keys is not a string.
type oddKey struct {
	datamodel.Node
	at  int
	key datamodel.Node
}

type oddKeys struct {
	datamodel.MapIterator
	n *oddKey
	i int
}

func (n *oddKey) MapIterator() datamodel.MapIterator { return &oddKeys{n.Node.MapIterator(), n, 0} }

func (it *oddKeys) Next() (datamodel.Node, datamodel.Node, error) {
	k, v, err := it.MapIterator.Next()
	if err == nil && it.i == it.n.at {
		k = it.n.key
	}
	it.i++
	return k, v, err
}

var g0 = model.ID{1, 2, 3}

func linkText(l datamodel.Link) string {
	if c, ok := l.(cidlink.Link); ok && !c.Cid.Defined() {
		return "an undefined CID"
	}
	return l.String()
}

func emptyMap() datamodel.Node {
	nb := basicnode.Prototype.Any.NewBuilder()
	ma, _ := nb.BeginMap(0)
	ma.Finish()
	return nb.Build()
}
func emptyList() datamodel.Node {
	nb := basicnode.Prototype.Any.NewBuilder()
	ma, _ := nb.BeginList(0)
	ma.Finish()
	return nb.Build()
}
