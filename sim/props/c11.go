package props

import (
	"bytes"
	"context"
	"fmt"
	"io"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C11", Run: runC11, Quick: 120000, Claim: "exploration",
		Rule:       "a run is a history of stores, loads (typed, representation, generic, mistyped, raw, as a block), crashes, bit rot and full disks over a simulated disk behind a real link system; non-trivial: a fault took effect on a store, a load or the disk",
		NonTrivial: func(st map[string]int64) bool { return st["probe:faulted"] > 0 },
		Stub:       "the disk (page cache, sync, rename, crash, rot) under the link system's storage",
	})
}

// diskStore is link-system storage on a simulated disk.
type diskStore struct {
	s      *core.Sim
	d      *seam.Disk
	sync   bool // sync file and directory before acknowledging
	next   func() seam.WriteFaults
	read   func(name string) (seam.Delivery, func(*seam.Source))
	last   *seam.File
	src    *seam.Source
	commit datamodel.Link
}

func fileName(l datamodel.Link) string {
	return fmt.Sprintf("%x", []byte(l.(cidlink.Link).Cid.Hash()[2:]))
}

func (ds *diskStore) system() *linking.LinkSystem {
	ls := cidlink.DefaultLinkSystem()
	ls.StorageWriteOpener = func(linking.LinkContext) (io.Writer, linking.BlockWriteCommitter, error) {
		f := ds.d.Create(ds.next())
		ds.last = f
		ds.commit = nil
		return f, func(l datamodel.Link) error {
			ds.commit = l
			if ds.sync {
				if err := f.Sync(); err != nil {
					return err
				}
			}
			if err := f.Rename(fileName(l)); err != nil {
				return err
			}
			if ds.sync {
				return f.SyncDir()
			}
			return nil
		}, nil
	}
	ls.StorageReadOpener = func(_ linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		del, setup := ds.read(fileName(l))
		src, err := ds.d.Open(fileName(l), del)
		if err != nil {
			return nil, err
		}
		if setup != nil {
			setup(src)
		}
		ds.src = src
		return src, nil
	}
	return &ls
}

type c11obj struct {
	o     *model.Object
	data  []byte
	id    model.ID
	name  string
	text  string
	acked bool // durably acknowledged and not damaged by us since
}

func runC11(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	if s.Chance(1, 10) {
		nested(s, g)
	}
	if s.Chance(3, 4) {
		g.Huge = false
	}
	trusted := s.Chance(1, 4)
	disk := seam.NewDisk(s, "disk")
	ds := &diskStore{s: s, d: disk, sync: s.Chance(2, 3)}
	ls := ds.system()
	ls.TrustedStorage = trusted
	var objs []*c11obj
	obj := func() *c11obj {
		if len(objs) > 0 && s.Chance(1, 2) {
			return objs[s.Intn(len(objs))]
		}
		o := g.Object()
		if len(objs) > 0 && s.Chance(1, 4) { // a near twin of one we have
			c := *objs[s.Intn(len(objs))].o
			if c.Type == "blob" {
				c.Data = append([]byte(nil), c.Data...)
				c.Data = append(c.Data, '.')
			} else {
				c.Message += "."
				c.NoBlank = false
			}
			if c.Type != "tree" {
				o = &c
			}
		}
		data := describe(s, o)
		x := &c11obj{o: o, data: data, id: model.IDOf(data), text: Text(Basic(o.Expect(), InOrder))}
		x.name = x.id.Hex()
		for _, y := range objs {
			if y.id == x.id {
				return y
			}
		}
		objs = append(objs, x)
		return x
	}
	ds.next = func() seam.WriteFaults { return seam.WriteFaults{FailAt: -1} }
	healthyRead := func(string) (seam.Delivery, func(*seam.Source)) {
		return seam.DrawDelivery(s.Chooser, nil), nil
	}
	ds.read = healthyRead

	store := func(x *c11obj, faulty bool) {
		n, form := heldNode(s, x.o, x.data)
		f := seam.WriteFaults{FailAt: -1}
		if faulty {
			f.Err = seam.NewErr(s.Chooser)
			switch s.Weighted(4, 1, 1, 1) {
			case 0:
				f.FailAt, f.Atomic = s.Intn(len(x.data)), s.Chance(1, 3)
			case 1:
				f.Sync = true
			case 2:
				f.Rename = true
			case 3:
				f.DirSy = true
			}
		}
		ds.next = func() seam.WriteFaults { return f }
		var l datamodel.Link
		var err error
		oc := s.Call(0, func() { l, err = ls.Store(lctx(), gitLP, n) })
		ds.next = func() seam.WriteFaults { return seam.WriteFaults{FailAt: -1} }
		s.Event("store %s (%s): err %v", x.o.Type, form, err != nil)
		s.Stats["stores"]++
		if oc.Panic != nil {
			s.Fail("panic", "Store of a %s (%s) panics: %v at %s", x.o.Type, form, oc.Panic, core.FirstFrame(oc.Stack))
		}
		if ds.last.F.Hit {
			s.Probe("faulted")
			if err == nil {
				s.Fail("store-absorbed", "Store of a %s (%s) reports success although the disk failed (%v)", x.o.Type, form, f)
			}
			return
		}
		if err != nil {
			s.Fail("store-refused", "Store of a %s (%s) on a healthy disk: %v\nobject: %s", x.o.Type, form, err, core.Q(x.data))
		}
		want := datamodel.Link(Link(x.id))
		if l != want {
			s.Fail("wrong-link", "Store of a %s (%s) gives link %v, the object's is %v\nobject: %s", x.o.Type, form, l, want, core.Q(x.data))
		}
		if b, ok := disk.Get(x.name); !ok || !bytes.Equal(b, x.data) {
			s.Fail("wrong-bytes", "Store of a %s (%s) acknowledged with wrong bytes on disk: %s", x.o.Type, form, core.FirstDiff(b, x.data))
		}
		if ds.sync {
			x.acked = true
		}
	}
	load := func(x *c11obj, faulty bool) {
		content, exists := disk.Get(x.name)
		intact := exists && bytes.Equal(content, x.data)
		ds.src = nil
		ds.read = func(string) (seam.Delivery, func(*seam.Source)) {
			del := seam.DrawDelivery(s.Chooser, Marks(content))
			if faulty && len(content) > 0 {
				_, setup, _ := drawFault(s, len(content), del.Marks)
				return del, setup
			}
			return del, nil
		}
		kind := s.Weighted(4, 2, 2, 2, 1, 2, 2)
		other := model.Types[s.Intn(4)]
		var n datamodel.Node
		var raw []byte
		var err error
		what := ""
		oc := s.Call(0, func() {
			switch kind {
			case 0:
				what = "Load(typed)"
				n, err = ls.Load(lctx(), Link(x.id), Proto(x.o.Type, false))
			case 1:
				what = "Load(repr)"
				n, err = ls.Load(lctx(), Link(x.id), Proto(x.o.Type, true))
			case 2:
				what = "Load(any)"
				n, err = ls.Load(lctx(), Link(x.id), basicnode.Prototype.Any)
			case 3:
				what = "LoadPlusRaw"
				n, raw, err = ls.LoadPlusRaw(lctx(), Link(x.id), Proto(x.o.Type, false))
			case 4:
				what = "LoadRaw"
				raw, err = ls.LoadRaw(lctx(), Link(x.id))
			case 5: // a prototype for something else
				what = "Load(as " + other + ")"
				n, err = ls.Load(lctx(), Link(x.id), Proto(other, s.Chance(1, 2)))
			case 6:
				what = "Load(as map)"
				n, err = ls.Load(lctx(), Link(x.id), basicnode.Prototype.Map)
			}
		})
		ds.read = healthyRead
		s.Event("%s %s: err %v", what, x.o.Type, err != nil)
		s.Stats["loads"]++
		if oc.Panic != nil {
			s.Fail("panic", "%s of a %s panics: %v at %s\ncontent: %s", what, x.o.Type, oc.Panic, core.FirstFrame(oc.Stack), core.Q(content))
		}
		failed := ds.src != nil && ds.src.Failed > 0
		if failed || !intact {
			s.Probe("faulted")
		}
		mistyped := kind == 5 && other != x.o.Type || kind == 6 && x.o.Type == "blob"
		switch {
		case err == nil && failed:
			s.Fail("load-absorbed", "%s of a %s succeeds although reading it failed (%v)", what, x.o.Type, ds.src.Err)
		case err == nil && !exists:
			s.Fail("invented", "%s of a %s that is not on disk succeeds", what, x.o.Type)
		case err != nil && intact && !failed && !mistyped:
			s.Fail("load-refused", "%s of an intact %s from a healthy disk: %v\nobject: %s", what, x.o.Type, err, core.Q(x.data))
		case err == nil && n != nil && mistyped:
			s.Fail("mistyped", "%s of a %s succeeds", what, x.o.Type)
		}
		if err != nil {
			return
		}
		if raw != nil && !bytes.Equal(raw, x.data) {
			s.Fail("altered", "%s of a %s returns other bytes: %s", what, x.o.Type, core.FirstDiff(raw, x.data))
		}
		if n != nil {
			var txt string
			if oc := s.Call(0, func() { txt = Text(n) }); oc.Panic != nil {
				s.Fail("panic", "reading a loaded %s panics: %v", x.o.Type, oc.Panic)
			}
			if txt != x.text {
				s.Fail("altered", "%s of a %s (intact: %v) succeeds with a node that says %s", what, x.o.Type, intact, diffText(txt, x.text))
			}
		}
	}
	block := func(x *c11obj) {
		content, exists := disk.Get(x.name)
		if !exists {
			return
		}
		c, good := drawCid(s, x.id, x.data)
		blk, err := blocks.NewBlockWithCid(content, c)
		if err != nil {
			panic(err)
		}
		var n datamodel.Node
		oc := s.Call(0, func() { n, err = ipldgit.DecodeBlock(blk) })
		s.Event("block %s good cid %v: err %v", c, good, err != nil)
		if oc.Panic != nil {
			s.Fail("panic", "DecodeBlock panics: %v at %s\ncontent: %s", oc.Panic, core.FirstFrame(oc.Stack), core.Q(content))
		}
		s.Stats["blocks"]++
		if !good {
			s.Probe("faulted")
			if err == nil {
				s.Fail("bad-cid", "DecodeBlock accepts a block under CID %s (prefix %v)", c, c.Prefix())
			}
			return
		}
		intact := bytes.Equal(content, x.data)
		if intact && err != nil {
			s.Fail("load-refused", "DecodeBlock of an intact %s: %v\nobject: %s", x.o.Type, err, core.Q(x.data))
		}
		if intact && Text(n) != x.text {
			s.Fail("altered", "DecodeBlock of a %s says %s", x.o.Type, diffText(Text(n), x.text))
		}
		if bytes.HasPrefix(x.data, content) && len(content) < len(x.data) && err == nil {
			s.Fail("altered", "DecodeBlock of the first %d of a %s's %d bytes succeeds", len(content), x.o.Type, len(x.data))
		}
	}
	for k := 4 + s.Intn(16); k > 0; k-- {
		switch s.Weighted(6, 5, 3, 3, 2, 2, 1, 2) {
		case 0:
			store(obj(), false)
		case 1:
			load(obj(), false)
		case 2:
			store(obj(), true)
		case 3:
			load(obj(), true)
		case 4:
			disk.Crash(trusted)
			s.Probe("faulted")
			for _, x := range objs {
				if x.acked {
					if b, ok := disk.Get(x.name); !ok || !bytes.Equal(b, x.data) {
						panic("disk model lost a synced file")
					}
					load(x, false)
				}
			}
		case 5:
			if len(objs) > 0 {
				x := objs[s.Intn(len(objs))]
				if _, ok := disk.Get(x.name); ok {
					disk.Rot(x.name, trusted)
					x.acked = false
					load(x, s.Chance(1, 4))
				}
			}
		case 6:
			if disk.Free < 0 {
				disk.Free = s.Intn(400)
			} else {
				disk.Free = -1
			}
		case 7:
			block(obj())
		}
	}
	// faults stop
	disk.Free = -1
	disk.Crash(trusted)
	for _, x := range objs {
		if x.acked {
			load(x, false)
		}
		store(x, false)
		load(x, false)
	}
}

// drawCid draws the CID of a git object, or one that cannot be.
func drawCid(s *core.Sim, id model.ID, data []byte) (cid.Cid, bool) {
	if s.Chance(1, 3) {
		return GitCid(id), true
	}
	raw := func(b ...byte) cid.Cid {
		_, c, err := cid.CidFromBytes(b)
		if err != nil {
			panic(err)
		}
		return c
	}
	pre := func(ver uint64, codec, mht uint64, l int) cid.Cid {
		c, err := cid.Prefix{Version: ver, Codec: codec, MhType: mht, MhLength: l}.Sum(data)
		if err != nil {
			panic(err)
		}
		return c
	}
	switch s.Intn(7) {
	case 0: // another codec, right hash
		codec := []byte{0x55, 0x70, 0x71, 0x79, 0x77}[s.Intn(5)]
		return raw(append([]byte{1, codec, 0x11, 20}, id[:]...)...), false
	case 1: // sha2-256
		return pre(1, 0x78, 0x12, 32), false
	case 2: // CIDv0
		return pre(0, 0x70, 0x12, 32), false
	case 3: // a truncated sha1
		n := 1 + s.Intn(19)
		return raw(append([]byte{1, 0x78, 0x11, byte(n)}, id[:n]...)...), false
	case 4: // identity
		return raw(append([]byte{1, 0x78, 0x00, 20}, id[:]...)...), false
	case 5: // another 20-byte hash
		return pre(1, 0x78, 0x12, 20), false
	}
	return raw(append([]byte{1, 0x72, 0x12, 20}, id[:]...)...), false
}

var _ = context.Background
