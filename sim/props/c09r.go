package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	blocks "github.com/ipfs/go-block-format"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
)

func init() {
	register(&Scenario{
		ID: "C09R", Property: "C09", Run: runC09R, Quick: 12000, Batch: 32, Claim: "exploration",
		Rule:       "as C09, with the library compiled with the race detector and a scheduler whose switches the detector does not see: every pair of accesses by two tasks that the library itself does not order, one of them a write, is a violation",
		NonTrivial: func(st map[string]int64) bool { return st["switches"] > 2 },
	})
}

// privateReader is a byte source that shares nothing with other tasks.
type privateReader struct {
	s      *core.Sim
	b      []byte
	piece  int
	failAt int
	pos    int
}

var errPrivate = errors.New("read failed")

func (r *privateReader) Read(p []byte) (int, error) {
	r.s.Switch()
	if r.failAt >= 0 && r.pos >= r.failAt {
		return 0, errPrivate
	}
	if r.pos == len(r.b) {
		return 0, io.EOF
	}
	if len(p) > r.piece {
		p = p[:r.piece]
	}
	end := len(r.b)
	if r.failAt >= 0 {
		end = r.failAt
	}
	n := copy(p, r.b[r.pos:end])
	r.pos += n
	return n, nil
}

// runC09R is C09 for the race detector. Tasks share nothing of the simulator's:
// whatever they do is drawn beforehand and whatever they find is compared
// afterwards.
func runC09R(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	g.Huge = false
	draw := func() *held {
		o := g.Object()
		if s.Chance(1, 12) { // a tree large enough to be worth treating otherwise
			o = &model.Object{Type: "tree"}
			n := 30 + s.Intn(300)
			for i := 0; i < n; i++ {
				o.Entries = append(o.Entries, model.Entry{Mode: "100644", Name: fmt.Sprintf("f%d", i), ID: model.ID{byte(i), 1, 2}})
			}
		} else if d := o.Bytes(); len(d) > 3000 {
			o = &model.Object{Type: "blob", Data: []byte("small")}
		}
		return &held{o: o, data: describe(s, o), text: Text(Basic(o.Expect(), InOrder))}
	}
	var shared, pool []*held
	if s.Chance(3, 4) {
		for k := 1 + s.Intn(2); k > 0; k-- {
			h := draw()
			h.n = mustDecode(s, h.o, h.data)
			shared = append(shared, h)
		}
	}
	for k := 1 + s.Intn(3); k > 0; k-- {
		pool = append(pool, draw())
	}
	type op struct {
		kind, piece, failAt int
		repr                bool
		h                   *held
		z                   []byte
		blk                 blocks.Block
		// outcome
		err  error
		text string
		bad  string
		out  []byte
	}
	scripts := make([][]*op, 2+s.Intn(3))
	for t := range scripts {
		for k := 1 + s.Intn(3); k > 0; k-- {
			x := &op{kind: s.Intn(13), piece: []int{4096, 1, 7, 100}[s.Intn(4)], failAt: -1, repr: s.Chance(1, 2)}
			if x.kind >= 7 && x.kind != 11 && len(shared) > 0 {
				x.h = shared[s.Intn(len(shared))]
			} else {
				x.h = pool[s.Intn(len(pool))]
				if x.kind >= 7 && x.kind != 11 {
					x.kind = 0
				}
			}
			switch x.kind {
			case 2:
				x.z = zbytes(x.h.data, 0)
			case 3:
				x.blk, _ = blocks.NewBlockWithCid(x.h.data, GitCid(model.IDOf(x.h.data)))
			case 11:
				n := len(x.h.data)
				if s.Chance(1, 2) {
					x.z = zbytes(x.h.data, 0)
					n = len(x.z)
				}
				x.failAt = s.Intn(n)
			}
			scripts[t] = append(scripts[t], x)
		}
	}
	for t := range scripts {
		script := scripts[t]
		s.Go(fmt.Sprintf("t%d", t), func(*core.Task) {
			for _, x := range script {
				var n datamodel.Node
				var err error
				rd := &privateReader{s: s, b: x.h.data, piece: x.piece, failAt: x.failAt}
				into := func(p datamodel.NodePrototype) {
					nb := p.NewBuilder()
					if err = ipldgit.Decode(nb, rd); err == nil {
						n = nb.Build()
					}
				}
				switch x.kind {
				case 0, 11:
					if x.z != nil {
						rd.b = x.z
						n, err = ipldgit.ParseCompressedObject(rd)
					} else if x.kind == 11 && x.repr {
						into(Proto(x.h.o.Type, false))
					} else {
						n, err = ipldgit.ParseObject(rd)
					}
				case 1:
					n, err = ipldgit.ParseObjectFromBuffer(x.h.data)
				case 2:
					rd.b = x.z
					n, err = ipldgit.ParseCompressedObject(rd)
				case 3:
					n, err = ipldgit.DecodeBlock(x.blk)
				case 4:
					into(Proto(x.h.o.Type, x.repr))
				case 5:
					into(basicnode.Prototype.Any)
				case 6:
					ls := cidlink.DefaultLinkSystem()
					ls.StorageReadOpener = func(linking.LinkContext, datamodel.Link) (io.Reader, error) { return rd, nil }
					n, err = ls.Load(lctx(), Link(model.IDOf(x.h.data)), Proto(x.h.o.Type, x.repr))
				case 12: // every accessor
					n = x.h.n
					x.bad = matchPrivate(n, x.h.o)
				case 7, 8: // encode, read
					n = x.h.n
				case 9: // copy
					nb := Proto(x.h.o.Type, false).NewBuilder()
					if err = nb.AssignNode(x.h.n); err == nil {
						n = nb.Build()
					}
				case 10:
					n = x.h.n
					if enc, e := mc.LookupEncoder(0x78); e == nil {
						var buf bytes.Buffer
						err = enc(n, &buf)
					}
				}
				if err != nil {
					x.err = err
					continue
				}
				if tn, ok := n.(schema.TypedNode); ok && x.repr {
					n = tn.Representation()
				}
				if x.kind != 7 && x.kind != 12 {
					x.text = Text(n)
				}
				var buf bytes.Buffer
				if x.err = ipldgit.Encode(n, &buf); x.err == nil {
					x.out = buf.Bytes()
				}
			}
		})
	}
	s.RunTasksUnordered([]int{40, 8, 200, 1000}[s.Intn(4)], 40000)
	for t, script := range scripts {
		for k, x := range script {
			s.Event("t%d/%d: %d bytes, err %v", t, k, len(x.out), x.err != nil)
			if s.Capped {
				continue
			}
			if x.failAt >= 0 {
				if x.err != errPrivate && !errors.Is(x.err, errPrivate) {
					s.Fail("interference", "t%d: a decode whose source fails gives %v", t, x.err)
				}
				continue
			}
			if x.err != nil {
				s.Fail("interference", "t%d: operation %d on a %s fails: %v", t, x.kind, x.h.o.Type, x.err)
			}
			if x.bad != "" {
				s.Fail("interference", "t%d: reading a shared %s: %s", t, x.h.o.Type, x.bad)
			}
			if x.kind != 7 && x.kind != 12 && x.text != x.h.text {
				s.Fail("interference", "t%d: operation %d on a %s gives %s, alone it gives %s", t, x.kind, x.h.o.Type, clip(x.text), clip(x.h.text))
			}
			if !bytes.Equal(x.out, x.h.data) {
				s.Fail("interference", "t%d: operation %d on a %s: encoding: %s", t, x.kind, x.h.o.Type, core.FirstDiff(x.out, x.h.data))
			}
		}
	}
}
