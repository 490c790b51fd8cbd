package props

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"
	"github.com/ipld/go-ipld-prime/traversal"
	"github.com/ipld/go-ipld-prime/traversal/selector"
	selectorparse "github.com/ipld/go-ipld-prime/traversal/selector/parse"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C13", Run: runC13, Quick: 100000, Claim: "exploration",
		Rule:       "a run draws a repository, spreads it over 1-4 peers and has a client clone it by following links from drawn tips over a simulated network (loss, duplication, reordering, delay, corruption, truncation, partitions) while peers and client crash and restart on faulty disks; after a drawn time faults stop and the clone must complete within a bounded time; then paths and selectors are walked on the clone; non-trivial: at least three objects were transferred and a network, disk or crash fault took effect",
		NonTrivial: func(st map[string]int64) bool { return st["transfers"] >= 3 && st["probe:disturbed"] > 0 },
		Stub:       "the network, the peers' and the client's disks, clocks and timers (discrete events)",
	})
}

// repo is the origin: every object, and what git reaches from each.
type repo struct {
	objs  map[model.ID]*model.Object
	data  map[model.ID][]byte
	text  map[model.ID]string
	order []model.ID
	kind  map[string][]model.ID
}

func (r *repo) add(o *model.Object) model.ID {
	b := o.Bytes()
	id := model.IDOf(b)
	if r.objs[id] == nil {
		r.objs[id] = o
		r.data[id] = b
		r.text[id] = Text(Basic(o.Expect(), InOrder))
		r.order = append(r.order, id)
		r.kind[o.Type] = append(r.kind[o.Type], id)
	}
	return id
}

// refs are the objects git reaches directly.
func (r *repo) refs(id model.ID) []model.ID {
	o := r.objs[id]
	var out []model.ID
	switch o.Type {
	case "commit":
		out = append(out, o.Tree)
		out = append(out, o.Parents...)
	case "tag":
		out = append(out, o.Target)
	case "tree":
		for _, e := range o.Entries {
			if e.Mode != "160000" {
				out = append(out, e.ID)
			}
		}
	}
	return out
}

func (r *repo) reach(tips []model.ID) map[model.ID]bool {
	seen := map[model.ID]bool{}
	todo := append([]model.ID(nil), tips...)
	for len(todo) > 0 {
		id := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[id] {
			continue
		}
		seen[id] = true
		todo = append(todo, r.refs(id)...)
	}
	return seen
}

func drawRepo(s *core.Sim, g *model.Gen) *repo {
	r := &repo{map[model.ID]*model.Object{}, map[model.ID][]byte{}, map[model.ID]string{}, nil, map[string][]model.ID{}}
	pick := func(k string) model.ID { return r.kind[k][s.Intn(len(r.kind[k]))] }
	small := func(o *model.Object) *model.Object {
		if len(o.Data) > 6000 {
			o.Data = o.Data[:6000]
		}
		return o
	}
	scale := []int{1, 3, 8}[s.Weighted(5, 3, 1)]
	for k := 1 + s.Intn(4*scale); k > 0; k-- {
		r.add(small(g.BlobObj()))
	}
	for k := 1 + s.Intn(5*scale); k > 0; k-- {
		t := g.TreeObj()
		if len(t.Entries) > 60 {
			t.Entries = t.Entries[:60]
		}
		for i := range t.Entries {
			e := &t.Entries[i]
			switch {
			case e.Mode == "160000":
				// a submodule's commit, which is not here
			case model.IsDir(e.Mode) && len(r.kind["tree"]) > 0:
				e.ID = pick("tree")
			case model.IsDir(e.Mode):
				e.Mode = "100644"
				e.ID = pick("blob")
			default:
				e.ID = pick("blob")
			}
		}
		sortEntries(t.Entries)
		r.add(t)
	}
	for k := 1 + s.Intn(6*scale); k > 0; k-- {
		c := g.Commit()
		c.Tree = pick("tree")
		for i := range c.Parents {
			if len(r.kind["commit"]) == 0 {
				c.Parents = nil
				break
			}
			c.Parents[i] = pick("commit")
		}
		if len(c.Parents) == 0 {
			c.MergeTags = nil
		}
		for i := range c.MergeTags {
			c.MergeTags[i].Object = c.Parents[s.Intn(len(c.Parents))]
		}
		if len(c.Message) > 4000 {
			c.Message = c.Message[:4000]
		}
		r.add(c)
	}
	for k := s.Intn(4); k > 0; k-- {
		t := g.Tag()
		for len(r.kind[t.TargetType]) == 0 {
			t.TargetType = "commit"
		}
		t.Target = pick(t.TargetType)
		r.add(t)
	}
	return r
}

func sortEntries(es []model.Entry) {
	key := func(e model.Entry) string {
		if model.IsDir(e.Mode) {
			return e.Name + "/"
		}
		return e.Name
	}
	sort.SliceStable(es, func(i, j int) bool { return key(es[i]) < key(es[j]) })
}

// linksOf reads the links a program follows out of a decoded node: all of them
// except submodule entries.
func linksOf(n datamodel.Node) (out []datamodel.Link, err error) {
	switch n.Kind() {
	case datamodel.Kind_Link:
		l, err := n.AsLink()
		return []datamodel.Link{l}, err
	case datamodel.Kind_Map:
		if m, err := n.LookupByString("mode"); err == nil && n.Length() == 2 && m.Kind() == datamodel.Kind_String {
			if ms, err := m.AsString(); err != nil || ms == "160000" {
				return nil, err
			}
		}
		for it := n.MapIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				return nil, err
			}
			if v.IsAbsent() {
				continue
			}
			ls, err := linksOf(v)
			if err != nil {
				return nil, err
			}
			out = append(out, ls...)
		}
	case datamodel.Kind_List:
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				return nil, err
			}
			ls, err := linksOf(v)
			if err != nil {
				return nil, err
			}
			out = append(out, ls...)
		}
	}
	return out, nil
}

const (
	ms         = int64(1e6)
	reqTimeout = 400 * ms
)

// peer serves objects from its disk.
type peer struct {
	id      int
	disk    *seam.Disk
	up      bool
	epoch   int
	cut     bool // partitioned from the client
	recode  bool // decodes and re-encodes what it serves
	ls      *linking.LinkSystem
	initial map[model.ID]bool
}

type request struct {
	id    model.ID
	peer  int
	epoch int
	done  bool
}

type clone struct {
	s     *core.Sim
	r     *repo
	peers []*peer
	tips  []model.ID
	need  map[model.ID]bool

	calm                     bool // faults have stopped
	loss, dup, corrupt, slow int  // per cent

	// the client
	up     bool
	epoch  int
	disk   *seam.Disk
	ds     *diskStore
	ls     *linking.LinkSystem
	known  map[model.ID]bool // wanted and present, in this life
	todo   []model.ID
	reqs   map[int]*request
	seq    int
	style  int
	tries  map[model.ID]int
	done   bool
	doneAt int64
}

func runC13(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	g.Huge, g.Big = false, g.Big && s.Chance(1, 4)
	r := drawRepo(s, g)
	c := &clone{s: s, r: r}
	s.Event("repository of %d objects", len(r.order))
	s.Stats["repo_objects"] += int64(len(r.order))
	// tips: commits and tags
	for k := 1 + s.Intn(2); k > 0; k-- {
		if len(r.kind["tag"]) > 0 && s.Chance(1, 2) {
			c.tips = append(c.tips, r.kind["tag"][len(r.kind["tag"])-1-s.Intn(len(r.kind["tag"]))])
		} else {
			n := len(r.kind["commit"])
			c.tips = append(c.tips, r.kind["commit"][n-1-s.Intn(n)])
		}
	}
	c.need = r.reach(c.tips)
	np := 1 + s.Intn(4)
	for i := 0; i < np; i++ {
		p := &peer{id: i, disk: seam.NewDisk(s, fmt.Sprintf("peer%d", i)), up: true, recode: s.Chance(1, 3), initial: map[model.ID]bool{}}
		ds := &diskStore{s: s, d: p.disk, sync: true, next: func() seam.WriteFaults { return seam.WriteFaults{FailAt: -1} },
			read: func(string) (seam.Delivery, func(*seam.Source)) { return seam.Delivery{}, nil }}
		p.ls = ds.system()
		c.peers = append(c.peers, p)
	}
	for _, id := range r.order {
		own := s.Intn(np)
		for i, p := range c.peers {
			if i == own || s.Chance(2, 3) {
				p.disk.Put(id.Hex(), r.data[id])
				p.initial[id] = true
			}
		}
	}
	profile := s.Weighted(1, 4, 3, 3)
	if profile > 0 {
		c.loss, c.dup, c.corrupt, c.slow = s.Intn(40), s.Intn(30), s.Intn(40), s.Intn(30)
	}
	c.style = s.Intn(4)
	c.disk = seam.NewDisk(s, "client")
	c.ds = &diskStore{s: s, d: c.disk, sync: s.Chance(2, 3), next: c.writeFaults, read: c.readFaults}
	c.start()
	faultFor := (200 + int64(s.Intn(8000))) * ms
	if profile >= 2 {
		c.scheduleChaos(faultFor)
	}
	s.After(faultFor, c.heal)
	// Once faults stop: every missing object needs at most one timeout for a
	// request lost before the heal and one round per peer.
	bound := faultFor + int64(len(c.need)+4)*(reqTimeout+100*ms)*int64(np+1) + 20*reqTimeout
	s.RunEvents(bound, 400000, func() bool { return c.done && c.calm })
	if !c.done {
		miss := 0
		for id := range c.need {
			if b, ok := c.disk.Get(id.Hex()); !ok || !bytes.Equal(b, r.data[id]) {
				miss++
			}
		}
		s.Fail("no-progress", "%d ms after faults stopped the clone is not complete: %d of %d objects missing, %d requests open, %d waiting", (s.Now-faultFor)/ms, miss, len(c.need), len(c.reqs), len(c.todo))
	}
	s.Stats["max:completion_ms_after_faults_stop"] = max(s.Stats["max:completion_ms_after_faults_stop"], (c.doneAt-faultFor)/ms)
	c.final()
	c.walk()
}

func (c *clone) disturbed(kind string) {
	c.s.Fault(kind)
	c.s.Probe("disturbed")
}

func (c *clone) writeFaults() seam.WriteFaults {
	f := seam.WriteFaults{FailAt: -1}
	if !c.calm && c.corrupt > 0 && c.s.Intn(100) < 5 {
		f.Err = seam.NewErr(c.s.Chooser)
		switch c.s.Intn(3) {
		case 0:
			f.FailAt = c.s.Intn(200)
		case 1:
			f.Sync = true
		case 2:
			f.Rename = true
		}
	}
	return f
}

func (c *clone) readFaults(string) (seam.Delivery, func(*seam.Source)) {
	d := seam.Delivery{Mode: 2, Size: 100 + c.s.Intn(3000)}
	if !c.calm && c.corrupt > 0 && c.s.Intn(100) < 5 {
		e := seam.NewErr(c.s.Chooser)
		at := c.s.Intn(100)
		return d, func(r *seam.Source) { r.FailAt, r.FailN, r.Err = at, 1, e }
	}
	return d, nil
}

// scheduleChaos draws crashes, partitions and rot until the time faults stop.
func (c *clone) scheduleChaos(until int64) {
	s := c.s
	for k := 1 + s.Intn(8); k > 0; k-- {
		at := int64(s.Intn(int(until/ms))) * ms
		p := c.peers[s.Intn(len(c.peers))]
		switch s.Weighted(3, 3, 3, 2) {
		case 0:
			for1 := int64(1+s.Intn(2000)) * ms
			s.After(at, func() {
				c.disturbed("partition")
				s.Event("partition of peer%d", p.id)
				p.cut = true
				s.After(for1, func() { p.cut = false; s.Event("partition of peer%d heals", p.id) })
			})
		case 1:
			for1 := int64(1+s.Intn(2000)) * ms
			s.After(at, func() {
				if !p.up {
					return
				}
				c.disturbed("peer-crash")
				s.Event("peer%d crashes", p.id)
				p.up = false
				p.epoch++
				p.disk.Crash(false)
				s.After(for1, func() { p.up = true; s.Event("peer%d restarts", p.id) })
			})
		case 2:
			for1 := int64(1+s.Intn(500)) * ms
			s.After(at, func() {
				if !c.up {
					return
				}
				c.disturbed("client-crash")
				s.Event("client crashes")
				c.up = false
				c.epoch++
				c.disk.Crash(false)
				s.After(for1, func() {
					if !c.up {
						s.Event("client restarts")
						c.start()
					}
				})
			})
		case 3:
			s.After(at, func() {
				names := p.disk.Names()
				if len(names) > 0 && !c.calm {
					c.disturbed("peer-rot")
					p.disk.Rot(names[s.Intn(len(names))], false)
				}
			})
		}
	}
}

// heal ends all faults; peers recover what they had.
func (c *clone) heal() {
	c.s.Event("faults stop")
	c.calm = true
	for _, p := range c.peers {
		p.cut, p.up = false, true
		for _, id := range c.r.order {
			if p.initial[id] {
				p.disk.Put(id.Hex(), c.r.data[id])
			}
		}
	}
	if !c.up {
		c.start()
	}
	c.pump()
}

// start boots the client with whatever its disk holds.
func (c *clone) start() {
	c.up = true
	c.known = map[model.ID]bool{}
	c.todo = nil
	c.reqs = map[int]*request{}
	c.tries = map[model.ID]int{}
	c.done = false
	ls := c.ds.system()
	c.ls = ls
	for _, t := range c.tips {
		c.want(t)
	}
	c.pump()
}

func (c *clone) want(id model.ID) {
	if !c.known[id] {
		c.known[id] = true
		c.todo = append(c.todo, id)
	}
}

// protoFor is the prototype the client decodes with, in its style.
func (c *clone) protoFor(id model.ID) datamodel.NodePrototype {
	t := c.r.objs[id].Type
	switch c.style {
	case 0:
		return basicnode.Prototype.Any
	case 1:
		return Proto(t, false)
	case 2:
		return Proto(t, true)
	}
	if c.s.Chance(1, 2) {
		return basicnode.Prototype.Any
	}
	return Proto(t, c.s.Chance(1, 2))
}

// checked loads through the real link system and holds the result against the
// origin.
func (c *clone) checked(ls *linking.LinkSystem, id model.ID, where string) (datamodel.Node, error) {
	var n datamodel.Node
	var err error
	np := c.protoFor(id)
	oc := c.s.Call(0, func() { n, err = ls.Load(lctx(), Link(id), np) })
	if oc.Panic != nil {
		c.s.Fail("panic", "loading %s from %s panics: %v at %s", id.Hex(), where, oc.Panic, core.FirstFrame(oc.Stack))
	}
	if err != nil {
		return nil, err
	}
	var txt string
	if oc := c.s.Call(0, func() { txt = Text(n) }); oc.Panic != nil {
		c.s.Fail("panic", "reading %s from %s panics: %v at %s", id.Hex(), where, oc.Panic, core.FirstFrame(oc.Stack))
	}
	if txt != c.r.text[id] {
		c.s.Fail("altered", "%s %s loaded from %s says %s", c.r.objs[id].Type, id.Hex(), where, diffText(txt, c.r.text[id]))
	}
	return n, nil
}

// follow queues everything a decoded node links to.
func (c *clone) follow(id model.ID, n datamodel.Node) {
	var ls []datamodel.Link
	var err error
	if oc := c.s.Call(0, func() { ls, err = linksOf(n) }); oc.Panic != nil || err != nil {
		c.s.Fail("links", "reading the links of %s %s: %v %v", c.r.objs[id].Type, id.Hex(), oc.Panic, err)
	}
	got := map[model.ID]bool{}
	for _, l := range ls {
		cl, ok := l.(cidlink.Link)
		if !ok || len(cl.Cid.Hash()) != 22 || !cl.Cid.Equals(GitCid(model.ID(cl.Cid.Hash()[2:]))) {
			c.s.Fail("links", "%s %s has link %v, which is not a git link", c.r.objs[id].Type, id.Hex(), l)
		}
		x := model.ID(cl.Cid.Hash()[2:])
		got[x] = true
		if !c.need[x] {
			c.s.Fail("invented", "%s %s links to %s, which git does not reach", c.r.objs[id].Type, id.Hex(), x.Hex())
		}
		c.want(x)
	}
	for _, x := range c.r.refs(id) {
		if !got[x] {
			c.s.Fail("skipped", "%s %s has no link to %s, which git reaches from it", c.r.objs[id].Type, id.Hex(), x.Hex())
		}
	}
}

// pump advances the client: objects found on its own disk are followed, others
// are asked for.
func (c *clone) pump() {
	if !c.up {
		return
	}
	for len(c.todo) > 0 && len(c.reqs) < 6 {
		id := c.todo[0]
		c.todo = c.todo[1:]
		if _, ok := c.disk.Get(id.Hex()); ok {
			n, err := c.checked(c.ls, id, "its disk")
			if err == nil {
				c.s.Stats["found_locally"]++
				c.follow(id, n)
				continue
			}
			if b, _ := c.disk.Get(id.Hex()); bytes.Equal(b, c.r.data[id]) && (c.ds.src == nil || c.ds.src.Failed == 0) {
				c.s.Fail("refused", "%s %s is intact on the client's disk but does not load: %v", c.r.objs[id].Type, id.Hex(), err)
			}
			c.s.Event("client: %s on disk is bad", id.Hex())
		}
		c.ask(id)
	}
	if len(c.todo) == 0 && len(c.reqs) == 0 && !c.done {
		c.done = true
		c.doneAt = c.s.Now
		c.s.Event("client: clone complete")
	}
}

func (c *clone) ask(id model.ID) {
	s := c.s
	c.seq++
	no := c.seq
	p := c.peers[(c.tries[id]+int(id[0]))%len(c.peers)]
	c.tries[id]++
	rq := &request{id: id, peer: p.id, epoch: c.epoch}
	c.reqs[no] = rq
	s.Stats["requests"]++
	s.Event("client: ask peer%d for %s (#%d)", p.id, id.Hex(), no)
	c.send(p, "request", func() { c.serve(p, id, no, rq.epoch) })
	epoch := c.epoch
	s.After(reqTimeout, func() {
		if c.up && c.epoch == epoch && c.reqs[no] == rq {
			delete(c.reqs, no)
			s.Stats["timeouts"]++
			s.Event("client: #%d times out", no)
			c.todo = append(c.todo, id)
			c.pump()
		}
	})
}

// send carries a message between the client and a peer, or does not.
func (c *clone) send(p *peer, what string, deliver func()) {
	s := c.s
	copies := 1
	delay := func() int64 {
		d := int64(1+s.Intn(30)) * ms
		if !c.calm && s.Intn(100) < c.slow {
			d += int64(s.Intn(1500)) * ms
			c.disturbed("net-delay")
		}
		return d
	}
	if p.cut {
		c.disturbed("net-cut")
		return
	}
	if !c.calm && s.Intn(100) < c.loss {
		c.disturbed("net-loss")
		return
	}
	if !c.calm && s.Intn(100) < c.dup {
		copies = 2
		c.disturbed("net-duplicate")
	}
	for ; copies > 0; copies-- {
		s.After(delay(), func() {
			if p.cut {
				return
			}
			deliver()
		})
	}
}

func (c *clone) serve(p *peer, id model.ID, no, epoch int) {
	s := c.s
	if !p.up {
		return
	}
	b, ok := p.disk.Get(id.Hex())
	if ok && p.recode {
		// a peer that keeps nodes rather than bytes
		n, err := c.checked(p.ls, id, fmt.Sprintf("peer%d's disk", p.id))
		if err != nil {
			if bytes.Equal(b, c.r.data[id]) {
				s.Fail("refused", "%s %s is intact on peer%d's disk but does not load: %v", c.r.objs[id].Type, id.Hex(), p.id, err)
			}
			ok = false
		} else {
			e := Encode(s, n, nil)
			if !e.OK() || !bytes.Equal(e.Out, c.r.data[id]) {
				s.Fail("altered", "peer%d re-encodes %s %s: %s %s", p.id, c.r.objs[id].Type, id.Hex(), e, core.FirstDiff(e.Out, c.r.data[id]))
			}
			b = e.Out
		}
	}
	msg := append([]byte(nil), b...)
	if ok && !c.calm && s.Intn(100) < c.corrupt {
		c.s.Probe("disturbed")
		switch s.Intn(4) {
		case 0, 1:
			msg = seam.Damage(s, msg, false)
		case 2:
			msg = seam.Damage(s, msg, true)
		case 3: // another object altogether
			msg = c.r.data[c.r.order[s.Intn(len(c.r.order))]]
			s.Fault("net-wrong-object")
		}
	}
	s.Event("peer%d: answer #%d found %v", p.id, no, ok)
	c.send(p, "answer", func() { c.receive(no, epoch, ok, msg) })
}

func (c *clone) receive(no, epoch int, ok bool, msg []byte) {
	s := c.s
	if !c.up || c.epoch != epoch {
		return
	}
	rq := c.reqs[no]
	if rq == nil {
		s.Stats["late_or_duplicate_answers"]++
		return
	}
	delete(c.reqs, no)
	id := rq.id
	retry := func(why string) {
		s.Event("client: #%d %s", no, why)
		c.todo = append(c.todo, id)
		epoch := c.epoch
		s.After(20*ms, func() {
			if c.epoch == epoch {
				c.pump()
			}
		})
	}
	if !ok {
		retry("not found")
		return
	}
	good := bytes.Equal(msg, c.r.data[id])
	var src *seam.Source
	net := cidlink.DefaultLinkSystem()
	net.StorageReadOpener = func(linking.LinkContext, datamodel.Link) (io.Reader, error) {
		src = seam.NewSource(s, msg, seam.DrawDelivery(s.Chooser, nil))
		src.Quiet = true
		if !c.calm && len(msg) > 0 && s.Intn(100) < c.loss/2 {
			_, setup, _ := drawFault(s, len(msg), nil)
			setup(src)
		}
		return src, nil
	}
	n, err := c.checked(&net, id, "the network")
	broken := src != nil && src.Failed > 0
	if err != nil {
		if good && !broken {
			s.Fail("refused", "%s %s arrived intact but does not load: %v\nobject: %s", c.r.objs[id].Type, id.Hex(), err, core.Q(msg))
		}
		s.Stats["bad_answers"]++
		s.Probe("disturbed")
		retry("bad answer")
		return
	}
	if broken {
		s.Fail("absorbed", "%s %s loads although the connection failed (%v)", c.r.objs[id].Type, id.Hex(), src.Err)
	}
	// keep it
	var l datamodel.Link
	oc := s.Call(0, func() { l, err = c.ls.Store(lctx(), gitLP, n) })
	if oc.Panic != nil {
		s.Fail("panic", "storing %s %s panics: %v at %s", c.r.objs[id].Type, id.Hex(), oc.Panic, core.FirstFrame(oc.Stack))
	}
	if c.ds.last.F.Hit {
		s.Probe("disturbed")
		if err == nil {
			s.Fail("absorbed", "storing %s %s succeeds although the disk failed", c.r.objs[id].Type, id.Hex())
		}
		retry("disk failed")
		return
	}
	if err != nil {
		s.Fail("refused", "storing %s %s: %v", c.r.objs[id].Type, id.Hex(), err)
	}
	if l != datamodel.Link(Link(id)) {
		s.Fail("altered", "%s %s is stored as %v", c.r.objs[id].Type, id.Hex(), l)
	}
	s.Stats["transfers"]++
	c.follow(id, n)
	c.pump()
}

// final: the clone holds exactly what git reaches.
func (c *clone) final() {
	s := c.s
	s.Stats["clones"]++
	for _, id := range c.r.order {
		if !c.need[id] {
			continue
		}
		b, ok := c.disk.Get(id.Hex())
		if !ok {
			s.Fail("skipped", "the finished clone lacks %s %s", c.r.objs[id].Type, id.Hex())
		}
		if !bytes.Equal(b, c.r.data[id]) {
			s.Fail("altered", "the finished clone's %s %s differs: %s", c.r.objs[id].Type, id.Hex(), core.FirstDiff(b, c.r.data[id]))
		}
	}
	for _, name := range c.disk.Names() {
		if strings.HasPrefix(name, "tmp") {
			continue
		}
		b, err := hexID(name)
		if err != nil || !c.need[b] {
			s.Fail("invented", "the finished clone holds %s, which git does not reach", name)
		}
	}
}

func hexID(s string) (id model.ID, err error) {
	if len(s) != 40 {
		return id, fmt.Errorf("bad name %q", s)
	}
	var b []byte
	if _, err = fmt.Sscanf(s, "%x", &b); err == nil {
		copy(id[:], b)
	}
	return id, err
}

// walk resolves paths and a recursive selector over the clone.
func (c *clone) walk() {
	s := c.s
	sys := c.ds.system()
	open := sys.StorageReadOpener
	gitlinks := 0
	loads := map[model.ID]int{}
	sys.StorageReadOpener = func(lc linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		id := model.ID(l.(cidlink.Link).Cid.Hash()[2:])
		if !c.need[id] {
			gitlinks++
			return nil, traversal.SkipMe{}
		}
		loads[id]++
		return open(lc, l)
	}
	cfg := &traversal.Config{LinkSystem: *sys, LinkTargetNodePrototypeChooser: func(l datamodel.Link, lc linking.LinkContext) (datamodel.NodePrototype, error) {
		if tl, ok := lc.LinkNode.(schema.TypedLinkNode); ok && s.Chance(1, 2) {
			return tl.LinkTargetNodePrototype(), nil
		}
		return basicnode.Prototype.Any, nil
	}}
	tip := c.tips[s.Intn(len(c.tips))]
	n, err := c.checked(sys, tip, "the clone")
	if err != nil {
		s.Fail("refused", "loading the tip from the finished clone: %v", err)
	}
	// paths
	for k := 1 + s.Intn(3); k > 0; k-- {
		segs, want := c.drawPath(tip)
		var got datamodel.Node
		oc := s.Call(0, func() {
			p := traversal.Progress{Cfg: cfg}
			got, err = p.Get(n, datamodel.NewPath(segs))
		})
		path := datamodel.NewPath(segs).String()
		s.Event("path %d segments", len(segs))
		if oc.Panic != nil || err != nil {
			s.Fail("path", "resolving %q from %s %s: %v %v", path, c.r.objs[tip].Type, tip.Hex(), oc.Panic, err)
		}
		if txt := Text(got); txt != want {
			s.Fail("path", "%q from %s %s says %s", path, c.r.objs[tip].Type, tip.Hex(), diffText(txt, want))
		}
		s.Stats["paths"]++
	}
	// everything
	if s.Chance(1, 2) {
		sel, err := selector.CompileSelector(selectorparse.CommonSelector_ExploreAllRecursively)
		if err != nil {
			panic(err)
		}
		loads = map[model.ID]int{}
		cfg.LinkVisitOnlyOnce = true
		oc := s.Call(0, func() {
			p := traversal.Progress{Cfg: cfg}
			err = p.WalkAdv(n, sel, func(traversal.Progress, datamodel.Node, traversal.VisitReason) error { return nil })
		})
		if oc.Panic != nil || err != nil {
			s.Fail("walk", "walking everything from %s %s: %v %v", c.r.objs[tip].Type, tip.Hex(), oc.Panic, err)
		}
		reached := c.r.reach([]model.ID{tip})
		for _, id := range c.r.order {
			if reached[id] && id != tip && loads[id] == 0 {
				s.Fail("skipped", "walking everything from %s %s does not visit %s %s", c.r.objs[tip].Type, tip.Hex(), c.r.objs[id].Type, id.Hex())
			}
		}
		s.Stats["walks"]++
	}
}

// drawPath draws a path that exists and what is at its end.
func (c *clone) drawPath(tip model.ID) (segs []datamodel.PathSegment, want string) {
	s := c.s
	seg := func(x string) { segs = append(segs, datamodel.PathSegmentOfString(x)) }
	id := tip
	for depth := 0; depth < 12; depth++ {
		o := c.r.objs[id]
		if s.Chance(1, 6) && depth > 0 {
			break
		}
		var next []func()
		switch o.Type {
		case "commit":
			next = append(next, func() { seg("tree"); id = o.Tree })
			for i := range o.Parents {
				next = append(next, func() {
					seg("parents")
					segs = append(segs, datamodel.PathSegmentOfInt(int64(i)))
					id = o.Parents[i]
				})
			}
			for i := range o.MergeTags {
				next = append(next, func() {
					seg("mergetag")
					seg(fmt.Sprint(i))
					seg("object")
					id = o.MergeTags[i].Object
				})
			}
		case "tag":
			next = append(next, func() { seg("object"); id = o.Target })
		case "tree":
			for _, e := range o.Entries {
				if e.Mode != "160000" && e.Name != "" {
					next = append(next, func() { seg(e.Name); seg("hash"); id = e.ID })
				}
			}
		}
		if len(next) == 0 {
			break
		}
		next[s.Intn(len(next))]()
	}
	return segs, c.r.text[id]
}
