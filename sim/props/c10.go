package props

import (
	"bufio"
	"bytes"
	"io"
	"strings"

	blocks "github.com/ipfs/go-block-format"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func runC10(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	if s.Chance(1, 10) {
		nested(s, g)
	}
	vast(s, g, "C10")
	large := s.Chance(1, 60) // objects beyond the usual buffer sizes
	if g.Huge = large; large {
		g.Big = true
	}
	var nodes []*held
	buf := make([]byte, 0, 1<<16)
	if large {
		buf = make([]byte, 0, 1<<21)
	}
	// things the caller keeps and reuses
	var rd *bufio.Reader
	builders := map[string]datamodel.NodeBuilder{}
	keep := func(o *model.Object, data []byte, n datamodel.Node, how string) {
		h := &held{o: o, data: data, n: n, how: how, text: Text(Basic(o.Expect(), InOrder))}
		nodes = append(nodes, h)
	}
	check := func(after string, encode bool) {
		for i, h := range nodes {
			var txt string
			if oc := s.Call(0, func() { txt = Text(h.n) }); oc.Panic != nil {
				s.Fail("changed", "after %s, reading node %d (%s, from %s) panics: %v", after, i, h.o.Type, h.how, oc.Panic)
			}
			if txt != h.text {
				s.Fail("changed", "after %s, node %d (%s, from %s) says %s; it must say %s", after, i, h.o.Type, h.how, diffText(txt, h.text), clip(h.text))
			}
			if encode {
				e := Encode(s, h.n, nil)
				if !e.OK() || !bytes.Equal(e.Out, h.data) {
					s.Fail("changed", "after %s, node %d (%s, from %s) encodes differently: %s %s", after, i, h.o.Type, h.how, e, core.FirstDiff(e.Out, h.data))
				}
			}
			s.Probe("rechecked")
		}
	}
	obj := func() (*model.Object, []byte) {
		for {
			o := g.Object()
			if large && s.Chance(1, 2) {
				n, ok := g.Near(1 << 21)
				if !ok || s.Chance(1, 2) {
					n = 1 << 16 << s.Intn(5)
					n += s.Intn(n)
				}
				n = max(n, 1) // KF1 is about empty messages
				x := strings.Repeat("0123456789abcde\n", n/16+1)[:n]
				switch s.Intn(4) {
				case 0:
					o = &model.Object{Type: "tag", Target: g.ID(), TargetType: "commit", TagName: "v1", Tagger: g.Person(), Message: x}
				case 1:
					o = &model.Object{Type: "commit", Tree: g.ID(), Author: g.Person(), Committer: g.Person(), Message: x}
				default:
					o = &model.Object{Type: "blob", Data: []byte(x)}
				}
				s.Probe("large")
			}
			if len(nodes) > 0 && s.Chance(1, 3) {
				// like one we hold, but different
				c := *nodes[s.Intn(len(nodes))].o
				c.Message += "x"
				c.TagName += "x"
				c.NoBlank = false
				if c.Type == "blob" {
					c.Data = bytes.ToUpper(append([]byte("y"), c.Data...))
				}
				if c.Type == "tree" {
					c.Entries = append([]model.Entry(nil), c.Entries...)
					for i := range c.Entries {
						c.Entries[i].ID[3] ^= 0x55
					}
				}
				o = &c
			}
			data := describe(s, o)
			if len(data) <= cap(buf) {
				return o, data
			}
		}
	}
	fail := func(how string, res *Res, data []byte) {
		s.Fail("refused", "%s: %s\nobject: %s", how, res, core.Q(data))
	}
	steps := 3 + s.Intn(10)
	if large {
		steps = 1 + s.Intn(4)
	}
	for k := 0; k < steps; k++ {
		after := ""
		switch s.Weighted(4, 3, 3, 3, 2, 2, 2, 1, 2) {
		case 0: // the caller's buffer, overwritten afterwards
			after = "reusing the input buffer"
			o, data := obj()
			buf = append(buf[:0], data...)
			var n datamodel.Node
			var err error
			var zbuf []byte
			oc := s.Call(0, func() {
				var r io.Reader = bytes.NewBuffer(buf)
				if s.Chance(1, 3) {
					r = bytes.NewReader(buf)
				}
				nb := Proto(o.Type, s.Chance(1, 2)).NewBuilder()
				if s.Chance(1, 4) {
					nb = basicnode.Prototype.Any.NewBuilder()
				}
				switch s.Weighted(3, 3, 2, 2, 1, 1) {
				case 0:
					n, err = ipldgit.ParseObjectFromBuffer(buf)
				case 1:
					blk, e := blocks.NewBlockWithCid(buf, GitCid(model.IDOf(data)))
					if e != nil {
						panic(e)
					}
					n, err = ipldgit.DecodeBlock(blk)
				case 2:
					n, err = ipldgit.ParseObject(r)
				case 3:
					if err = ipldgit.Decode(nb, r); err == nil {
						n = nb.Build()
					}
				case 4:
					zbuf = zbytes(data, s.Intn(10))
					n, err = ipldgit.ParseCompressedObject(bytes.NewBuffer(zbuf))
				case 5:
					ls := cidlink.DefaultLinkSystem()
					ls.TrustedStorage = s.Chance(1, 2)
					ls.StorageReadOpener = func(linking.LinkContext, datamodel.Link) (io.Reader, error) { return r, nil }
					n, err = ls.Load(lctx(), Link(model.IDOf(data)), Proto(o.Type, s.Chance(1, 2)))
				}
			})
			scribble(s, zbuf)
			if err != nil || oc.Panic != nil {
				s.Fail("refused", "decoding from a buffer: err %v panic %v\nobject: %s", err, oc.Panic, core.Q(data))
			}
			keep(o, data, n, "a caller's buffer")
			scribble(s, buf[:cap(buf)])
			s.Fault("buffer-overwritten")
		case 1: // the caller's buffered reader, reset for each object
			after = "reusing the buffered reader"
			o, data := obj()
			src := seam.NewSource(s, data, seam.DrawDelivery(s.Chooser, Marks(data)))
			if rd == nil {
				rd = bufio.NewReaderSize(src, []int{4096, 16, 64, 1 << 16}[s.Intn(4)])
			} else {
				rd.Reset(src)
				s.Fault("reader-reused")
			}
			var n datamodel.Node
			var err error
			oc := s.Call(0, func() {
				if s.Chance(1, 2) {
					n, err = ipldgit.ParseObject(rd)
					return
				}
				typ := o.Type
				if _, err = io.ReadFull(rd, make([]byte, len(typ)+1)); err != nil {
					return
				}
				nb := Proto(typ, s.Chance(1, 2)).NewBuilder()
				switch typ {
				case "commit":
					err = ipldgit.DecodeCommit(nb, rd)
				case "tree":
					err = ipldgit.DecodeTree(nb, rd)
				case "tag":
					err = ipldgit.DecodeTag(nb, rd)
				case "blob":
					err = ipldgit.DecodeBlob(nb, rd)
				}
				if err == nil {
					n = nb.Build()
				}
			})
			if err != nil || oc.Panic != nil {
				s.Fail("refused", "decoding from a reused reader: err %v panic %v\nobject: %s", err, oc.Panic, core.Q(data))
			}
			keep(o, data, n, "a reused reader")
		case 2: // a builder, reset and used again
			after = "resetting and reusing the builder"
			o, data := obj()
			key := o.Type
			if s.Chance(1, 2) {
				key += "!"
			}
			nb := builders[key]
			if nb == nil {
				nb = Proto(o.Type, key != o.Type).NewBuilder()
				builders[key] = nb
			} else {
				nb.Reset()
				s.Fault("builder-reset")
			}
			if s.Chance(1, 3) { // a failing decode into it first
				_, setup, _ := drawFault(s, len(data), nil)
				src := seam.NewSource(s, data, seam.Delivery{})
				setup(src)
				var err error
				oc := s.Call(0, func() { err = ipldgit.Decode(nb, src) })
				if oc.Panic != nil {
					s.Fail("panic", "decode from a failing source into a reused builder: err %v panic %v", err, oc.Panic)
				}
				nb.Reset()
			}
			var err error
			src := seam.NewSource(s, data, seam.DrawDelivery(s.Chooser, Marks(data)))
			oc := s.Call(0, func() { err = ipldgit.Decode(nb, src) })
			if err != nil || oc.Panic != nil {
				s.Fail("refused", "decoding into a reset builder: err %v panic %v\nobject: %s", err, oc.Panic, core.Q(data))
			}
			keep(o, data, nb.Build(), "a reused builder")
			if s.Chance(1, 3) {
				after += ", having written into it when it was finished"
				with := datamodel.Node(basicnode.NewBytes([]byte("other")))
				if h := nodes[s.Intn(len(nodes))]; h.o.Type == o.Type && h.n.Prototype() == nb.Prototype() {
					with = h.n
				}
				poke(s, nb, with)
				s.Fault("finished-builder-written")
			}
			if s.Chance(1, 2) {
				nb.Reset()
			}
		case 3: // any route
			after = "another decode"
			o, data := obj()
			d := drawDec(s, data, allRoutes())
			res := Do(s, d)
			if !res.OK() {
				fail(routeNames[d.Route], res, data)
			}
			keep(o, data, res.Node, routeNames[d.Route])
		case 4: // a failing decode
			after = "a failed decode"
			_, data := obj()
			d := drawDec(s, data, []int{rParse, rTyped, rAny, rDirect})
			_, d.Setup, _ = drawFault(s, len(data), d.D.Marks)
			Do(s, d)
		case 5: // a failing encode
			after = "a failed encode"
			if len(nodes) > 0 {
				h := nodes[s.Intn(len(nodes))]
				inj := seam.NewErr(s.Chooser)
				Encode(s, h.n, func(w *seam.Sink) { w.FailAt, w.FailN, w.Err = s.Intn(len(h.data)), -1, inj })
			}
		case 6: // a copy of a held node, then a change to the copy's builder
			after = "copying a node into a builder"
			if len(nodes) > 0 {
				h := nodes[s.Intn(len(nodes))]
				nb := Proto(h.o.Type, s.Chance(1, 2)).NewBuilder()
				var err error
				oc := s.Call(0, func() { err = nb.AssignNode(h.n) })
				if err != nil || oc.Panic != nil {
					s.Fail("refused", "copying a %s from %s: err %v panic %v", h.o.Type, h.how, err, oc.Panic)
				}
				keep(h.o, h.data, nb.Build(), "a copy")
				nb.Reset()
				if s.Chance(1, 2) {
					_, data := obj()
					s.Call(0, func() { ipldgit.Decode(nb, bytes.NewReader(data)) })
				}
			}
		case 8: // assembled by hand, from parts of a node that is held, perhaps
			after = "assembling a node by hand"
			o, data := obj()
			if len(o.Entries) > 80 || len(data) > 20000 {
				break
			}
			var src datamodel.Node
			if len(nodes) > 0 && s.Chance(1, 2) {
				h := nodes[s.Intn(len(nodes))]
				if len(h.o.Entries) <= 80 && len(h.data) <= 20000 && nodeLevel(h.n) == vTyped {
					o, data, src = h.o, h.data, h.n
				}
			}
			key := o.Type
			if s.Chance(1, 2) {
				key += "!"
			}
			nb := builders[key]
			if nb == nil {
				nb = Proto(o.Type, key != o.Type).NewBuilder()
				builders[key] = nb
			} else {
				nb.Reset()
				s.Fault("builder-reset")
			}
			a := &assembly{s: s, what: "a " + o.Type, calm: s.Chance(1, 2)}
			keep(o, data, a.build(nb, o.Expect(), o, src), "assembled by hand")
			s.Probe("assembled")
		case 7: // a node inside a generic list
			after = "putting a node into a list"
			if len(nodes) > 0 {
				h := nodes[s.Intn(len(nodes))]
				nb := basicnode.Prototype.Any.NewBuilder()
				la, _ := nb.BeginList(1)
				la.AssembleValue().AssignNode(h.n)
				la.Finish()
				x, err := nb.Build().LookupByIndex(0)
				if err != nil {
					s.Fail("refused", "list of nodes: %v", err)
				}
				Text(x)
			}
		}
		if len(nodes) > 0 && s.Chance(1, 400) {
			after += " and a long history"
			age(s, g)
		}
		s.Event("step: %s", after)
		check(after, false)
	}
	check("the whole history", true)
	check("encoding all nodes", false)
}

// poke tries to go on filling an assembler that has finished its node, with
// another node of its own type, say. It may be refused in any way, or panic.
func poke(s *core.Sim, na datamodel.NodeAssembler, with datamodel.Node) {
	for k := 1 + s.Intn(3); k > 0; k-- {
		s.Call(0, func() {
			switch s.Intn(4) {
			case 0:
				na.AssignNode(with)
			case 1:
				na.AssignBytes([]byte("other"))
			case 2:
				na.AssignNull()
			case 3:
				if ma, err := na.BeginMap(1); err == nil {
					ma.AssembleEntry("tree")
				}
			}
		})
	}
}

func scribble(s *core.Sim, b []byte) {
	r := s.Sub()
	x := r.Uint64()
	for i := range b {
		b[i] = byte(x>>(8*(uint(i)%8))) ^ byte(i)
	}
}

func diffText(a, b string) string {
	return core.FirstDiff([]byte(a), []byte(b))
}
