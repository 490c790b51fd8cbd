package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"

	ipldgit "github.com/ipfs/go-ipld-git"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C17", Run: runC17, Quick: 120000, Claim: "exploration",
		Rule:       "a run draws a repository on a simulated disk and a history of edits, each at the end of a drawn path of links, made with the generic transform over the real link system (nodes loaded typed, as representation or generic) while storage fails, fills up and crashes; after each crash the edit is made again; non-trivial: an edit replaced at least two objects and a storage fault or crash took effect",
		NonTrivial: func(st map[string]int64) bool { return st["probe:faulted"] > 0 && st["probe:deep"] > 0 },
		Stub:       "the disk (page cache, sync, rename, crash) under the link system's storage",
	})
}

// hop is one link on the way from the root to the object that is edited.
type hop struct {
	id    model.ID // the object the link stands in
	where []datamodel.PathSegment
	set   func(o *model.Object, to model.ID) // puts another link there
}

// edit is a change to one object.
type edit struct {
	what  string
	where []datamodel.PathSegment
	value func() datamodel.Node // nil: remove
	apply func(o *model.Object)
}

type amend struct {
	s    *core.Sim
	g    *model.Gen
	r    *repo
	disk *seam.Disk
	ds   *diskStore
	ls   *linking.LinkSystem
	live map[model.ID]bool // durable, and must stay so

	writes, reads int // operations of the current attempt
	failWrite     int // the attempt's failing write, or -1
	failRead      int
	hit           bool
	wf            seam.WriteFaults
	readErr       error
	src           *seam.Source
}

func cloneObj(o *model.Object) *model.Object {
	c := *o
	c.Entries = append([]model.Entry(nil), o.Entries...)
	c.Parents = append([]model.ID(nil), o.Parents...)
	c.Other = append([]string(nil), o.Other...)
	c.MergeTags = append([]model.MergeTag(nil), o.MergeTags...)
	for _, p := range []**model.Person{&c.Author, &c.Committer, &c.Tagger} {
		if *p != nil {
			q := **p
			*p = &q
		}
	}
	return &c
}

func segs(xs ...string) []datamodel.PathSegment {
	var out []datamodel.PathSegment
	for _, x := range xs {
		out = append(out, datamodel.PathSegmentOfString(x))
	}
	return out
}

func runC17(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	g.Huge, g.Big = false, g.Big && s.Chance(1, 6)
	a := &amend{s: s, g: g, r: drawRepo(s, g), live: map[model.ID]bool{}}
	// Objects the library is known to lose something of are left out.
	var roots []model.ID
	for _, id := range a.r.order {
		ok := true
		for x := range a.r.reach([]model.ID{id}) {
			if f, _ := a.r.objs[x].Deviant(); f != "" {
				ok = false
			}
		}
		if ok && a.r.objs[id].Type != "blob" {
			roots = append(roots, id)
		}
	}
	if len(roots) == 0 {
		return
	}
	a.disk = seam.NewDisk(s, "disk")
	a.ds = &diskStore{s: s, d: a.disk, sync: true}
	a.ds.next = func() seam.WriteFaults {
		a.writes++
		if a.writes-1 == a.failWrite {
			return a.wf
		}
		return seam.WriteFaults{FailAt: -1}
	}
	a.ds.read = func(string) (seam.Delivery, func(*seam.Source)) {
		a.reads++
		d := seam.DrawDelivery(s.Chooser, nil)
		if a.reads-1 == a.failRead {
			at := s.Intn(30)
			return d, func(r *seam.Source) { a.src = r; r.FailAt, r.FailN, r.Err = at, 1+s.Intn(2), a.readErr }
		}
		return d, nil
	}
	a.failWrite, a.failRead = -1, -1
	a.ls = a.ds.system()
	for _, id := range a.r.order {
		a.disk.Put(id.Hex(), a.r.data[id])
		a.live[id] = true
	}
	root := roots[len(roots)-1-min(len(roots)-1, s.Intn(4))]
	for k := 1 + s.Intn(4); k > 0; k-- {
		if next, ok := a.edit(root); ok {
			root = next
		}
	}
	// Everything ever acknowledged is there and says what it said.
	a.disk.Crash(false)
	for _, id := range a.r.order {
		if a.live[id] {
			b, ok := a.disk.Get(id.Hex())
			if !ok || !bytes.Equal(b, a.r.data[id]) {
				panic("disk model lost a synced file")
			}
		}
	}
	if f, _ := a.r.objs[root].Deviant(); f == "" {
		n, err := a.load(root, Proto(a.r.objs[root].Type, false))
		if err != nil {
			s.Fail("refused", "loading the last root %s: %v", root.Hex(), err)
		}
		if t := Text(n); t != a.r.text[root] {
			s.Fail("altered", "the last root says %s", diffText(t, a.r.text[root]))
		}
	}
}

func (a *amend) load(id model.ID, np datamodel.NodePrototype) (n datamodel.Node, err error) {
	oc := a.s.Call(0, func() { n, err = a.ls.Load(lctx(), Link(id), np) })
	if oc.Panic != nil {
		a.s.Fail("panic", "loading %s %s panics: %v at %s", a.r.objs[id].Type, id.Hex(), oc.Panic, core.FirstFrame(oc.Stack))
	}
	return
}

// full tells whether a commit has all optional fields. The typed view of others
// has absent ones, which the generic transform cannot copy.
func full(o *model.Object) bool {
	return o.Type != "commit" || o.Author != nil && o.Committer != nil && o.HasEncoding() && o.Sig != nil
}

// proto draws what to load an object as.
func (a *amend) proto(id model.ID) datamodel.NodePrototype {
	o := a.r.objs[id]
	switch k := a.s.Weighted(4, 2, 2, 2); {
	case o.Type == "blob" || k == 3 && full(o):
		return basicnode.Prototype.Any
	case k == 2 || !full(o):
		return basicnode.Prototype.Map
	default:
		return Proto(o.Type, k == 1)
	}
}

func hasBlank(o *model.Object) bool { return o.Type != "tag" || !o.NoBlank }

// path draws a way from root down to an object to edit.
func (a *amend) path(root model.ID) (hops []hop, at model.ID) {
	s := a.s
	at = root
	for depth := 0; depth < 10; depth++ {
		o := a.r.objs[at]
		var next []func()
		add := func(typ string, to model.ID, where []datamodel.PathSegment, set func(*model.Object, model.ID)) {
			if t := a.r.objs[to]; t == nil || t.Type == "blob" || typ != "" && t.Type != typ {
				return
			}
			next = append(next, func() { hops = append(hops, hop{at, where, set}); at = to })
		}
		switch o.Type {
		case "commit":
			add("tree", o.Tree, segs("tree"), func(o *model.Object, to model.ID) { o.Tree = to })
			for i, p := range o.Parents {
				add("commit", p, append(segs("parents"), datamodel.PathSegmentOfInt(int64(i))), func(o *model.Object, to model.ID) { o.Parents[i] = to })
			}
			for i, m := range o.MergeTags {
				add("", m.Object, segs("mergetag", fmt.Sprint(i), "object"), func(o *model.Object, to model.ID) { o.MergeTags[i].Object = to })
			}
		case "tag":
			add("", o.Target, segs("object"), func(o *model.Object, to model.ID) { o.Target = to })
		case "tree":
			for i, e := range o.Entries {
				if e.Mode != "160000" {
					add("", e.ID, segs(e.Name, "hash"), func(o *model.Object, to model.ID) { o.Entries[i].ID = to })
				}
			}
		}
		if len(next) == 0 || s.Chance(1, 4) {
			break
		}
		next[s.Intn(len(next))]()
	}
	return hops, at
}

// text is a string node from somewhere.
func (a *amend) text(x string) func() datamodel.Node {
	k := a.s.Intn(3)
	return func() datamodel.Node {
		switch k {
		case 1:
			nb := ipldgit.Type.String.NewBuilder()
			if err := nb.AssignString(x); err != nil {
				panic(err)
			}
			return nb.Build()
		case 2:
			nb := ipldgit.Type.String__Repr.NewBuilder()
			if err := nb.AssignString(x); err != nil {
				panic(err)
			}
			n := nb.Build()
			if tn, ok := n.(schema.TypedNode); ok {
				n = tn.Representation()
			}
			return n
		}
		return basicnode.NewString(x)
	}
}

func (a *amend) link(id model.ID) func() datamodel.Node {
	k := a.s.Intn(2)
	return func() datamodel.Node {
		if k == 1 {
			nb := ipldgit.Type.Link.NewBuilder()
			if err := nb.AssignLink(Link(id)); err != nil {
				panic(err)
			}
			return nb.Build()
		}
		return basicnode.NewLink(Link(id))
	}
}

func (a *amend) any(kinds ...string) model.ID {
	var ids []model.ID
	for _, k := range kinds {
		ids = append(ids, a.r.kind[k]...)
	}
	if len(ids) == 0 || a.s.Chance(1, 4) {
		return a.g.ID() // an object that is not here
	}
	return ids[a.s.Intn(len(ids))]
}

// person draws a change to one field of a person line.
func (a *amend) person(field string, get func(*model.Object) *model.Person, o *model.Object) []edit {
	p := get(o)
	if p == nil {
		return nil
	}
	q := a.g.Person()
	if p.Date == "" && (p.Name == "" || p.Email == "") {
		return nil // might come to a person of whom nothing is known
	}
	if p.Date == "" && (q.Name == "" || q.Email == "") {
		q.Name, q.Email = "A U Thor", "a@u"
	}
	out := []edit{
		{"name", segs(field, "name"), a.text(q.Name), func(o *model.Object) { get(o).Name = q.Name }},
		{"email", segs(field, "email"), a.text(q.Email), func(o *model.Object) { get(o).Email = q.Email }},
	}
	if p.Date != "" && p.TZ != "" && q.Date != "" && q.TZ != "" {
		out = append(out,
			edit{"date", segs(field, "date"), a.text(q.Date), func(o *model.Object) { get(o).Date = q.Date }},
			edit{"timezone", segs(field, "timezone"), a.text(q.TZ), func(o *model.Object) { get(o).TZ = q.TZ }})
	}
	return out
}

// draw draws an edit of one object.
func (a *amend) draw(o *model.Object) edit {
	s, g := a.s, a.g
	var es []edit
	add := func(e edit) { es = append(es, e) }
	message := func() {
		m := g.Message()
		if m == "" || !hasBlank(o) {
			m = "edited\n"
		}
		add(edit{"message", segs("message"), a.text(m), func(o *model.Object) { o.Message, o.NoBlank = m, false }})
	}
	switch o.Type {
	case "commit":
		message()
		t := a.any("tree")
		add(edit{"tree", segs("tree"), a.link(t), func(o *model.Object) { o.Tree = t }})
		p := a.any("commit")
		add(edit{"parent added", segs("parents", "-"), a.link(p), func(o *model.Object) { o.Parents = append(o.Parents, p) }})
		if n := len(o.Parents); n > 0 {
			i := s.Intn(n)
			add(edit{"parent", segs("parents", fmt.Sprint(i)), a.link(p), func(o *model.Object) { o.Parents[i] = p }})
		}
		if o.HasEncoding() {
			add(edit{"encoding", segs("encoding"), a.text("ISO-8859-1"), func(o *model.Object) { o.Encoding, o.BlankEncoding = "ISO-8859-1", false }})
			add(edit{"encoding removed", segs("encoding"), nil, func(o *model.Object) { o.Encoding, o.BlankEncoding = "", false }})
		}
		if o.Sig != nil && (len(o.MergeTags) == 0 || len(o.Other) == 0) { // else a header that begins with a blank could end up in a tag
			add(edit{"signature removed", segs("signature"), nil, func(o *model.Object) { o.Sig = nil }})
		}
		add(edit{"header added", segs("other", "-"), a.text("amended by C17"), func(o *model.Object) { o.Other = append(o.Other, "amended by C17") }})
		es = append(es, a.person("author", func(o *model.Object) *model.Person { return o.Author }, o)...)
		es = append(es, a.person("committer", func(o *model.Object) *model.Person { return o.Committer }, o)...)
	case "tag":
		message()
		add(edit{"tag", segs("tag"), a.text("v9.9"), func(o *model.Object) { o.TagName = "v9.9" }})
		t := a.any(o.TargetType)
		add(edit{"object", segs("object"), a.link(t), func(o *model.Object) { o.Target = t }})
		es = append(es, a.person("tagger", func(o *model.Object) *model.Person { return o.Tagger }, o)...)
	case "tree":
		have := map[string]bool{}
		for _, e := range o.Entries {
			have[e.Name] = true
		}
		spare := g.TreeObj()
		spare.Entries = spare.Entries[:min(len(spare.Entries), 3)]
		if len(spare.Entries) > 0 { // whole entries from another tree
			e := spare.Entries[0]
			entry := func() datamodel.Node {
				n, err := mustDecode(s, spare, spare.Bytes()).LookupByString(e.Name)
				if err != nil {
					panic(err)
				}
				return n
			}
			if !have[e.Name] {
				add(edit{"entry added", segs(e.Name), entry, func(o *model.Object) { o.Entries = append(o.Entries, e) }})
			}
			if n := len(o.Entries); n > 0 {
				i := s.Intn(n)
				add(edit{"entry", segs(o.Entries[i].Name), entry, func(o *model.Object) { o.Entries[i].Mode, o.Entries[i].ID = e.Mode, e.ID }})
			}
		}
		if n := len(o.Entries); n > 0 {
			i := s.Intn(n)
			name := o.Entries[i].Name
			m := []string{"100644", "100755", "120000"}[s.Intn(3)]
			x := a.any("blob", "tree")
			add(edit{"hash", segs(name, "hash"), a.link(x), func(o *model.Object) { o.Entries[i].ID = x }})
			add(edit{"mode", segs(name, "mode"), a.text(m), func(o *model.Object) { o.Entries[i].Mode = m }})
			add(edit{"entry removed", segs(name), nil, func(o *model.Object) { o.Entries = append(o.Entries[:i:i], o.Entries[i+1:]...) }})
		}
	}
	if len(es) == 0 {
		return edit{}
	}
	return es[s.Intn(len(es))]
}

// edit makes one edit, however many attempts it takes.
func (a *amend) edit(root model.ID) (model.ID, bool) {
	s := a.s
	hops, at := a.path(root)
	e := a.draw(a.r.objs[at])
	if e.what == "" {
		return root, false
	}
	var where []datamodel.PathSegment
	for _, h := range hops {
		where = append(where, h.where...)
	}
	where = append(where, e.where...)
	// What git would make of it, from the edited object up.
	o := cloneObj(a.r.objs[at])
	e.apply(o)
	want := []*model.Object{o}
	for i := len(hops) - 1; i >= 0; i-- {
		p := cloneObj(a.r.objs[hops[i].id])
		hops[i].set(p, want[len(want)-1].ID())
		want = append(want, p)
	}
	for _, o := range want {
		if f, _ := o.Deviant(); f != "" {
			return root, false
		}
	}
	newRoot := want[len(want)-1]
	what := fmt.Sprintf("%s of a %s, %d links below a %s", e.what, o.Type, len(hops), newRoot.Type)
	s.Event("edit %s", what)
	if len(hops) > 0 {
		s.Probe("deep")
	}
	path := datamodel.NewPath(where)
	for try := 0; ; try++ {
		a.failWrite, a.failRead, a.src = -1, -1, nil
		if try < 4 && s.Chance(1, 2) {
			switch s.Weighted(4, 3, 1) {
			case 0:
				a.failWrite = s.Intn(len(want))
				a.wf = seam.WriteFaults{FailAt: -1, Err: seam.NewErr(s.Chooser)}
				switch s.Weighted(4, 1, 1, 1) {
				case 0:
					a.wf.FailAt = s.Intn(len(want[a.failWrite].Bytes()))
				case 1:
					a.wf.Sync = true
				case 2:
					a.wf.Rename = true
				case 3:
					a.wf.DirSy = true
				}
			case 1:
				a.failRead, a.readErr = s.Intn(len(want)), seam.NewErr(s.Chooser)
			case 2:
				a.disk.Free = s.Intn(600)
			}
		}
		l, failed, err := a.attempt(root, path, e, what)
		a.failWrite, a.failRead, a.disk.Free = -1, -1, -1
		s.Event("attempt %d: err %v", try, err != nil)
		if failed {
			s.Probe("faulted")
		}
		switch {
		case err == nil && failed:
			s.Fail("absorbed", "changing the %s succeeds although storage failed (%v %v)", what, a.wf.Err, a.readErr)
		case err != nil && !failed:
			s.Fail("refused", "changing the %s at %q: %v\nobject: %s", what, path, err, core.Q(a.r.data[at]))
		}
		if err == nil {
			if want := datamodel.Link(Link(newRoot.ID())); l != want {
				s.Fail("wrong-id", "changing the %s at %q gives root %v, git's is %v\nobject: %s\nwant: %s", what, path, l, want, core.Q(a.r.data[at]), core.Q(o.Bytes()))
			}
		}
		crash := s.Chance(1, 3)
		if crash {
			a.disk.Crash(false)
			s.Probe("faulted")
		}
		a.audit(want, err == nil, crash, what)
		if err == nil {
			break
		}
	}
	for i := range want {
		id := a.r.add(want[i])
		a.live[id] = true
	}
	s.Stats["edits"]++
	s.Stats["objects_replaced"] += int64(len(want))
	return newRoot.ID(), true
}

// attempt makes the edit once and stores the new root.
func (a *amend) attempt(root model.ID, path datamodel.Path, e edit, what string) (l datamodel.Link, failed bool, err error) {
	s := a.s
	ro := a.r.objs[root]
	np := a.proto(root)
	fw, fr := a.failWrite, a.failRead
	if fr >= 0 {
		fr-- // the root's is not among the reads of the transform
	}
	a.failRead = -1
	n, err := a.load(root, np)
	if err != nil {
		s.Fail("refused", "loading %s %s: %v", ro.Type, root.Hex(), err)
	}
	if tn, ok := n.(schema.TypedNode); ok && ro.Type == "tree" && s.Chance(1, 4) {
		n = tn.Representation()
	}
	before := Text(n)
	a.reads, a.writes, a.failWrite, a.failRead = 0, 0, fw, fr
	var dones []*seam.File
	open := a.ls.StorageWriteOpener
	sys := *a.ls
	sys.StorageWriteOpener = func(lc linking.LinkContext) (io.Writer, linking.BlockWriteCommitter, error) {
		w, c, err := open(lc)
		dones = append(dones, a.ds.last)
		return w, c, err
	}
	cfg := &traversal.Config{LinkSystem: sys, LinkTargetNodePrototypeChooser: func(l datamodel.Link, lc linking.LinkContext) (datamodel.NodePrototype, error) {
		id := model.ID(l.(cidlink.Link).Cid.Hash()[2:])
		if tl, ok := lc.LinkNode.(schema.TypedLinkNode); ok && full(a.r.objs[id]) && s.Chance(1, 3) {
			return tl.LinkTargetNodePrototype(), nil
		}
		return a.proto(id), nil
	}}
	var n2 datamodel.Node
	oc := s.Call(0, func() {
		p := traversal.Progress{Cfg: cfg}
		n2, err = p.FocusedTransform(n, path, func(traversal.Progress, datamodel.Node) (datamodel.Node, error) {
			if e.value == nil {
				return nil, nil
			}
			return e.value(), nil
		}, false)
		if err == nil {
			l, err = sys.Store(lctx(), gitLP, n2)
		}
	})
	for _, f := range dones {
		failed = failed || f.F.Hit
	}
	failed = failed || a.src != nil && a.src.Failed > 0
	if oc.Panic != nil {
		s.Fail("panic", "changing the %s at %q panics: %v at %s\nobject: %s", what, path, oc.Panic, core.FirstFrame(oc.Stack), core.Q(a.r.data[root]))
	}
	if t := Text(n); t != before {
		s.Fail("shared", "changing the %s at %q changes the old node: %s", what, path, diffText(t, before))
	}
	return l, failed, err
}

// audit: whatever is on the disk under an object's name is that object, unless
// a crash tore what was never acknowledged.
func (a *amend) audit(want []*model.Object, done, crash bool, what string) {
	s := a.s
	data := map[string][]byte{}
	for id := range a.live {
		data[id.Hex()] = a.r.data[id]
	}
	fresh := map[string][]byte{}
	for _, o := range want {
		b := o.Bytes()
		fresh[model.IDOf(b).Hex()] = b
	}
	for _, name := range a.disk.Names() {
		if strings.HasPrefix(name, "tmp") {
			continue
		}
		b, _ := a.disk.Get(name)
		if old, ok := data[name]; ok {
			if !bytes.Equal(b, old) {
				panic("an old object changed on disk")
			}
			continue
		}
		x, ok := fresh[name]
		switch {
		case !ok:
			s.Fail("invented", "changing the %s leaves an object %s that git would not make: %s", what, name, core.Q(b))
		case !crash && !bytes.Equal(b, x):
			s.Fail("altered", "changing the %s stores %s wrong: %s", what, name, core.FirstDiff(b, x))
		}
	}
	if done {
		for name, x := range fresh {
			if b, ok := a.disk.Get(name); !ok || !bytes.Equal(b, x) {
				s.Fail("incomplete", "changing the %s is acknowledged but %s is missing or wrong: %s", what, name, core.FirstDiff(b, x))
			}
		}
	}
}
