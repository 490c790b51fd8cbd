package props

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/ipld/go-ipld-prime/datamodel"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"

	ipldgit "github.com/ipfs/go-ipld-git"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C14", Run: runC14, Quick: 50000, Claim: "exploration",
		Rule:       "a run assembles 1-4 drawn objects through the public builders (typed or representation, builders reset and reused), each map by entry calls, key/value calls or whole-node assignment, fields in drawn order, with refused steps (wrong kinds, unknown and repeated fields, early finishes) at drawn places and sources that fail part way; non-trivial: at least one step was refused or one source failed",
		NonTrivial: func(st map[string]int64) bool { return st["probe:refused-step"]+st["probe:source-failed"] > 0 },
		Stub:       "nodes given to AssignNode, some failing part way",
	})
}

var errStartOver = errors.New("start over")

type assembly struct {
	s       *core.Sim
	calm    bool // no refused steps, failing sources or foreign whole nodes
	what    string
	sources int
}

func (a *assembly) bad(class, format string, args ...any) {
	a.s.Fail(class, "assembling %s: %s", a.what, fmt.Sprintf(format, args...))
}

// accept is for a call that must succeed.
func (a *assembly) accept(path, call string, err error) {
	if err != nil {
		a.bad("refused", "%s at %s: %v", call, path, err)
	}
}

// refuse is for a call that must not.
func (a *assembly) refuse(path, call string, err error) {
	a.s.Probe("refused-step")
	a.s.Stats["refused_steps"]++
	if err == nil {
		a.bad("accepted", "%s at %s is accepted", call, path)
	}
}

var kindOf = map[model.VKind]datamodel.Kind{model.VMap: datamodel.Kind_Map, model.VList: datamodel.Kind_List, model.VString: datamodel.Kind_String, model.VBytes: datamodel.Kind_Bytes, model.VLink: datamodel.Kind_Link}

// wrongKinds offers the assembler values of other kinds.
func (a *assembly) wrongKinds(na datamodel.NodeAssembler, path string, k model.VKind) {
	if a.calm {
		return
	}
	for a.s.Chance(1, 8) {
		var err error
		var call string
		switch c := a.s.Intn(10); {
		case c == 0 && k != model.VMap:
			call = "BeginMap"
			_, err = na.BeginMap(1)
		case c == 1 && k != model.VList:
			call = "BeginList"
			_, err = na.BeginList(1)
		case c == 2 && k != model.VString:
			call = "AssignString"
			err = na.AssignString("x")
		case c == 3 && k != model.VBytes:
			call = "AssignBytes"
			err = na.AssignBytes([]byte("x"))
		case c == 4 && k != model.VLink:
			call = "AssignLink"
			err = na.AssignLink(Link(model.ID{1}))
		case c == 5:
			call = "AssignInt"
			err = na.AssignInt(1)
		case c == 6:
			call = "AssignBool"
			err = na.AssignBool(true)
		case c == 7:
			call = "AssignFloat"
			err = na.AssignFloat(1)
		case c == 8:
			call = "AssignNull"
			err = na.AssignNull()
		case c == 9:
			n := []datamodel.Node{basicnode.NewInt(1), basicnode.NewBool(true), datamodel.Null, basicnode.NewFloat(0.5)}[a.s.Intn(4)]
			call = fmt.Sprintf("AssignNode(%s)", n.Kind())
			err = na.AssignNode(n)
		default:
			continue
		}
		a.s.Event("%s: %s refused %v", path, call, err != nil)
		a.refuse(path, call, err)
	}
}

// whole assigns a value in one AssignNode. It reports done=false if the caller
// should assemble it piece by piece.
func (a *assembly) whole(na datamodel.NodeAssembler, v *model.Val, typ, path string, src datamodel.Node) (done bool, err error) {
	s := a.s
	var n datamodel.Node
	how := ""
	var nf *seam.NodeFaults
	foreign := true
	switch s.Weighted(4, 3, 2, 2, 3) {
	case 0:
		if src == nil {
			return false, nil
		}
		n, how, foreign = src, "typed node", false
	case 4:
		if n, err = a.apart(na, v, typ, path, src); err != nil {
			return false, err
		}
		how, foreign = "a part built on its own", false
	case 1:
		n, how = Basic(v, orderFor(s, typ)), "generic node"
	case 2:
		tn, ok := src.(schema.TypedNode)
		if !ok {
			return false, nil
		}
		n, how = tn.Representation(), "representation"
	case 3:
		inner := Basic(v, orderFor(s, typ))
		if src != nil && s.Chance(1, 2) {
			inner = src
			// The typed view shows the optional fields a commit does not have as
			// absent values, which no assembler is required to take from a node
			// of another package. The representation leaves them out.
			if tn, ok := src.(schema.TypedNode); ok && typ == "commit" {
				inner = tn.Representation()
			}
		}
		nf = &seam.NodeFaults{S: s, At: s.Intn(12), Err: seam.NewErr(s.Chooser), Sticky: s.Chance(1, 2)}
		n, how = seam.Wrap(inner, nf), "failing node"
	}
	if a.calm && foreign {
		return false, nil
	}
	oc := s.Call(0, func() { err = na.AssignNode(n) })
	s.Event("%s: AssignNode(%s) err %v panic %v", path, how, err != nil, oc.Panic != nil)
	s.Stats["whole_nodes"]++
	if oc.Panic != nil {
		msg := fmt.Sprint(oc.Panic)
		if foreign && typ == "tree" && len(v.Vals) > 0 && strings.Contains(msg, "assignment to entry in nil map") && known("KF7") {
			return false, errStartOver
		}
		if foreign && strings.Contains(msg, "nil pointer dereference") {
			if typ == "commit" && (v.Get("author") != nil || v.Get("committer") != nil) && known("KF8") {
				return false, errStartOver
			}
			if typ == "maybe-person" && known("KF8") {
				return false, errStartOver
			}
		}
		a.bad("panic", "AssignNode(%s) at %s panics: %v at %s", how, path, oc.Panic, core.FirstFrame(oc.Stack))
	}
	if nf != nil && nf.Failed > 0 {
		s.Probe("source-failed")
		if err == nil {
			a.bad("absorbed", "AssignNode at %s succeeds although its source failed (%s, %v)", path, nf.Where, nf.Err)
		}
		if !isInjected(err) {
			a.bad("not-wrapped", "AssignNode at %s: its source failed with %v, the error is %v", path, nf.Err, err)
		}
		return false, errStartOver
	}
	a.accept(path, "AssignNode("+how+")", err)
	return true, nil
}

// apart builds a value with a builder of the assembler's own prototype, and
// checks it as it stands.
func (a *assembly) apart(na datamodel.NodeAssembler, v *model.Val, typ, path string, src datamodel.Node) (datamodel.Node, error) {
	s := a.s
	p := na.Prototype()
	if p == nil {
		a.bad("no-prototype", "the assembler at %s has no prototype", path)
	}
	nb := p.NewBuilder()
	if s.Chance(1, 4) {
		// a builder that has built something else before
		if err := a.fill(nb, v, typ, path+" (before)", src); err == nil {
			nb.Build()
		}
		nb.Reset()
	}
	if err := a.fill(nb, v, typ, path+" (apart)", src); err != nil {
		return nil, err
	}
	n := nb.Build()
	s.Stats["parts_built_apart"]++
	s.Event("%s: built apart", path)
	mt := typ
	if mt == "maybe-person" {
		mt = "person"
	}
	if n == nil {
		a.bad("differs", "the part at %s built on its own is no node", path)
	}
	if bad := Match(n, v, mt, nodeLevel(n)); bad != "" {
		a.bad("differs", "the part at %s built on its own is not what was assembled: %s", path, bad)
	}
	if tn, ok := n.(schema.TypedNode); ok {
		if bad := Match(tn.Representation(), v, mt, vPlain); bad != "" {
			a.bad("differs", "the representation of the part at %s built on its own is not what was assembled: %s", path, bad)
		}
	}
	return n, nil
}

// leaf makes a node of a single value by the types' own constructors.
func leaf(s *core.Sim, v *model.Val) (n datamodel.Node, how string, err error) {
	switch v.Kind {
	case model.VString:
		if s.Chance(1, 3) {
			n, err = ipldgit.Type.GpgSig.FromString(v.S)
			return n, "GpgSig.FromString", err
		}
		n, err = ipldgit.Type.String.FromString(v.S)
		return n, "String.FromString", err
	case model.VLink:
		switch s.Intn(3) {
		case 0:
			n, err = ipldgit.Type.Tree_Link.FromLink(Link(v.L))
			return n, "Tree_Link.FromLink", err
		case 1:
			n, err = ipldgit.Type.Commit_Link.FromLink(Link(v.L))
			return n, "Commit_Link.FromLink", err
		}
		n, err = ipldgit.Type.Link.FromLink(Link(v.L))
		return n, "Link.FromLink", err
	}
	n, err = ipldgit.Type.Blob.FromBytes(append([]byte(nil), v.B...))
	return n, "Blob.FromBytes", err
}

// orderFor: only structs may be given in any order.
func orderFor(s *core.Sim, typ string) func(int) []int {
	if typ == "tree" || typ == "list" || typ == "mergetag" {
		return InOrder
	}
	return Shuffled(s)
}

var required = map[string][]string{
	"commit":       {"tree", "parents", "message", "mergetag", "other"},
	"tag":          {"object", "type", "tag", "tagger", "message"},
	"person":       {"date", "timezone", "email", "name"},
	"maybe-person": {"date", "timezone", "email", "name"},
	"entry":        {"mode", "hash"},
}

func childOf(typ, k string) string {
	switch {
	case typ == "tree":
		return "entry"
	case typ == "commit" && (k == "author" || k == "committer"):
		return "maybe-person"
	case typ == "tag" && k == "tagger":
		return "person"
	case typ == "commit" && k == "mergetag":
		return "mergetag"
	case typ == "commit" && (k == "parents" || k == "other"):
		return "list"
	case typ == "mergetag":
		return "tag"
	}
	return ""
}

// fill assembles v into na. src is a typed node of the same content, or nil.
func (a *assembly) fill(na datamodel.NodeAssembler, v *model.Val, typ, path string, src datamodel.Node) error {
	s := a.s
	a.wrongKinds(na, path, v.Kind)
	if s.Chance(1, 4) {
		done, err := a.whole(na, v, typ, path, src)
		if done || err != nil {
			return err
		}
	}
	if v.Kind != model.VMap && v.Kind != model.VList && s.Chance(1, 6) {
		n, how, err := leaf(s, v)
		a.accept(path, how, err)
		if bad := Match(n, v, "", nodeLevel(n)); bad != "" {
			a.bad("differs", "%s at %s: %s", how, path, bad)
		}
		a.accept(path, "AssignNode of "+how, na.AssignNode(n))
		return nil
	}
	switch v.Kind {
	case model.VString:
		a.accept(path, "AssignString", na.AssignString(v.S))
		return nil
	case model.VLink:
		a.accept(path, "AssignLink", na.AssignLink(Link(v.L)))
		return nil
	case model.VBytes:
		a.accept(path, "AssignBytes", na.AssignBytes(append([]byte(nil), v.B...)))
		return nil
	case model.VList:
		la, err := na.BeginList([]int64{int64(len(v.Vals)), -1, 0, int64(len(v.Vals)) * 2, 1}[s.Intn(5)])
		a.accept(path, "BeginList", err)
		for i, x := range v.Vals {
			var sub datamodel.Node
			if src != nil {
				sub, _ = src.LookupByIndex(int64(i))
			}
			if err := a.fill(la.AssembleValue(), x, childOf(typ, ""), fmt.Sprintf("%s/%d", path, i), sub); err != nil {
				return err
			}
		}
		a.accept(path, "Finish", la.Finish())
		return nil
	}
	ma, err := na.BeginMap([]int64{int64(len(v.Vals)), -1, 0, int64(len(v.Vals)) * 2, 1}[s.Intn(5)])
	a.accept(path, "BeginMap", err)
	idx := orderFor(s, typ)(len(v.Vals))
	have := map[string]bool{}
	for n, i := range idx {
		k := v.Keys[i]
		p := path + "/" + k
		if !a.calm {
			a.refusedSteps(ma, v, typ, path, idx[:n], have)
		}
		var va datamodel.NodeAssembler
		if s.Chance(1, 2) {
			va, err = ma.AssembleEntry(k)
			a.accept(p, "AssembleEntry", err)
		} else {
			ka := ma.AssembleKey()
			if !a.calm {
				if err := a.refusedKeys(ma, ka, v, typ, path, idx[:n]); err != nil {
					return err
				}
			}
			if s.Chance(1, 3) {
				kn := basicnode.NewString(k)
				if s.Chance(1, 2) {
					kn, _ = ipldgit.Type.String.FromString(k)
				}
				err = ka.AssignNode(kn)
			} else {
				err = ka.AssignString(k)
			}
			a.accept(p, "AssembleKey", err)
			va = ma.AssembleValue()
		}
		var sub datamodel.Node
		if src != nil {
			if sub, _ = src.LookupByString(k); sub != nil && sub.IsAbsent() {
				sub = nil
			}
		}
		if err := a.fill(va, v.Vals[i], childOf(typ, k), p, sub); err != nil {
			return err
		}
		have[k] = true
	}
	a.accept(path, "Finish", ma.Finish())
	return nil
}

// refusedSteps tries what the schema forbids between two entries.
func (a *assembly) refusedSteps(ma datamodel.MapAssembler, v *model.Val, typ, path string, given []int, have map[string]bool) {
	s := a.s
	missing := 0
	for _, k := range required[typ] {
		if !have[k] {
			missing++
		}
	}
	for s.Chance(1, 6) {
		step := s.Intn(3)
		if missing == 1 && s.Chance(1, 2) {
			step = 2
		}
		switch step {
		case 0: // unknown
			if typ != "tree" {
				k := []string{"nosuch", "", "Tree", "tree ", "author\x00", "hash", "tagger", "mode", "parents", "email", "object"}[s.Intn(11)]
				if legalField(typ, k) {
					continue
				}
				_, err := ma.AssembleEntry(k)
				s.Event("%s: unknown entry %q refused %v", path, k, err != nil)
				a.refuse(path, fmt.Sprintf("AssembleEntry(%q)", k), err)
			}
		case 1: // repeated
			if len(given) > 0 {
				k := v.Keys[given[s.Intn(len(given))]]
				_, err := ma.AssembleEntry(k)
				s.Event("%s: repeated entry %q refused %v", path, k, err != nil)
				a.refuse(path, fmt.Sprintf("repeated AssembleEntry(%q)", k), err)
			}
		case 2: // too early
			if missing > 0 {
				err := ma.Finish()
				s.Event("%s: early finish refused %v", path, err != nil)
				a.refuse(path, fmt.Sprintf("Finish with %d required fields missing", missing), err)
			}
		}
	}
}

func legalField(typ, k string) bool {
	for _, x := range required[typ] {
		if x == k {
			return true
		}
	}
	return typ == "commit" && model.CommitOptional[k]
}

// refusedKeys tries forbidden keys on a key assembler, which then takes a legal
// one.
func (a *assembly) refusedKeys(ma datamodel.MapAssembler, ka datamodel.NodeAssembler, v *model.Val, typ, path string, given []int) error {
	s := a.s
	for s.Chance(1, 6) {
		switch s.Intn(3) {
		case 0:
			if typ != "tree" {
				k := []string{"nosuch", "", "Hash", "trees"}[s.Intn(4)]
				a.refuse(path, fmt.Sprintf("key %q", k), ka.AssignString(k))
			}
		case 1:
			if len(given) == 0 {
				continue
			}
			k := v.Keys[given[s.Intn(len(given))]]
			if typ != "tree" {
				a.refuse(path, fmt.Sprintf("repeated key %q", k), ka.AssignString(k))
				continue
			}
			if !s.Chance(1, 6) {
				continue
			}
			// The tree's key assembler does not look (KF9); whenever the
			// repetition is refused, at the key, the value or the end, all is well.
			err := ka.AssignString(k)
			if err == nil {
				va := ma.AssembleValue()
				err = va.AssignNode(Basic(v.Get(k), InOrder))
			}
			if err == nil {
				err = ma.Finish()
			}
			s.Probe("refused-step")
			s.Event("%s: repeated key %q refused %v", path, k, err != nil)
			if err == nil && !known("KF9") {
				a.bad("accepted", "repeated key %q at %s is accepted", k, path)
			}
			return errStartOver
		case 2:
			a.refuse(path, "an integer as key", ka.AssignInt(1))
		}
	}
	return nil
}

func runC14(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	g.Huge = false
	builders := map[string]datamodel.NodeBuilder{}
	var kept []*held
	for k := 1 + s.Intn(4); k > 0; k-- {
		o := g.Object()
		if len(o.Entries) > 80 {
			o.Entries = o.Entries[:80]
		}
		if o.Type == "commit" && s.Chance(1, 6) { // optional fields left out, as the schema allows
			if s.Chance(2, 3) {
				o.Committer = nil
			}
			if s.Chance(1, 2) {
				o.Author = nil
			}
			s.Probe("no-person")
		}
		data := describe(s, o)
		v := o.Expect()
		repr := s.Chance(1, 2)
		key := fmt.Sprint(o.Type, repr)
		nb := builders[key]
		if nb == nil || s.Chance(1, 3) {
			nb = Proto(o.Type, repr).NewBuilder()
			builders[key] = nb
		} else {
			nb.Reset()
			s.Fault("builder-reset")
		}
		var src datamodel.Node
		if s.Chance(1, 2) {
			src = mustDecode(s, o, data)
		}
		a := &assembly{s: s, what: "a " + o.Type}
		if repr {
			a.what += " (representation)"
		}
		n := a.build(nb, v, o, src)
		if bad := MatchAll(n, o); bad != "" {
			s.Fail("differs", "%s assembled by hand is not the one decoded: %s\nobject: %s", a.what, bad, core.Q(data))
		}
		e := Encode(s, n, nil)
		if !e.OK() || !bytes.Equal(e.Out, data) {
			s.Fail("differs", "%s assembled by hand encodes to %s: %s", a.what, e, core.FirstDiff(e.Out, data))
		}
		kept = append(kept, &held{o: o, data: data, n: n, how: a.what})
	}
	for _, h := range kept {
		if bad := MatchAll(h.n, h.o); bad != "" {
			s.Fail("differs", "%s assembled by hand changed while its builder was reused: %s", h.how, bad)
		}
	}
}

func (a *assembly) build(nb datamodel.NodeBuilder, v *model.Val, o *model.Object, src datamodel.Node) datamodel.Node {
	s := a.s
	for attempt := 0; ; attempt++ {
		a.calm = attempt >= 3
		var err error
		oc := s.Call(0, func() { err = a.fill(nb, v, o.Type, "", src) })
		if oc.Panic != nil {
			a.bad("panic", "panics: %v at %s", oc.Panic, core.FirstFrame(oc.Stack))
		}
		if err == nil {
			break
		}
		s.Event("start over")
		nb.Reset()
	}
	var n datamodel.Node
	if oc := s.Call(0, func() { n = nb.Build() }); oc.Panic != nil {
		a.bad("panic", "Build panics: %v", oc.Panic)
	}
	return n
}
