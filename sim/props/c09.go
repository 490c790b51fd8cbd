package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/schema"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C09", Run: runC09, Quick: 150000, Claim: "exploration",
		Rule:       "a run starts 2-5 tasks, each a drawn history of decodes, encodes and node reads (some on shared nodes and a shared link system, some with failing I/O), preempted by the seeded scheduler between any two statements of the library and at every read and write; non-trivial: at least one switch happened inside a library call",
		NonTrivial: func(st map[string]int64) bool { return st["switches"] > 2 },
	})
	register(&Scenario{
		ID: "C10", Run: runC10, Quick: 100000, Claim: "exploration",
		Rule:       "a run is a history of decodes (buffers, readers, buffered readers and builders reused and overwritten), failing decodes and encodes, and builder resets over a growing set of retained nodes, all of which are re-read after every step and re-encoded at the end; non-trivial: some node was re-checked after a later step",
		NonTrivial: func(st map[string]int64) bool { return st["probe:rechecked"] > 0 },
	})
}

type held struct {
	o    *model.Object
	data []byte
	n    datamodel.Node
	text string
	how  string
}

func runC09(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	if s.Chance(1, 3) {
		nested(s, g)
	}
	g.Huge = false
	nt := 2 + s.Intn(4)
	var shared []*held
	for k := 1 + s.Intn(3); k > 0; k-- {
		o := g.Object()
		data := describe(s, o)
		if len(data) > 20000 {
			o = &model.Object{Type: "blob", Data: []byte("small")}
			data = o.Bytes()
		}
		h := &held{o: o, data: data, n: mustDecode(s, o, data)}
		h.text = Text(Basic(o.Expect(), InOrder))
		shared = append(shared, h)
	}
	type op struct {
		kind int
		h    *held
		d    *Dec
		at   int
		inj  error
		look bool
	}
	// a small set of objects used by several tasks, so that shared state has a chance to be confused
	var pool []*held
	for k := 2 + s.Intn(3); k > 0; k-- {
		o := g.Object()
		data := describe(s, o)
		if len(data) > 8000 {
			continue
		}
		pool = append(pool, &held{o: o, data: data, text: Text(Basic(o.Expect(), InOrder))})
	}
	if len(pool) == 0 {
		pool = shared
	}
	ls := cidlink.DefaultLinkSystem()
	ls.StorageReadOpener = func(_ linking.LinkContext, l datamodel.Link) (io.Reader, error) {
		for _, h := range append(append([]*held(nil), shared...), pool...) {
			if l == datamodel.Link(Link(model.IDOf(h.data))) {
				return seam.NewSource(s, h.data, seam.Delivery{Mode: 2, Size: 700}), nil
			}
		}
		return nil, fmt.Errorf("no such object")
	}
	scripts := make([][]op, nt)
	for t := range scripts {
		for k := 1 + s.Intn(4); k > 0; k-- {
			x := op{kind: s.Weighted(6, 3, 2, 2, 2, 2, 1)}
			switch x.kind {
			case 0: // decode
				x.h = pool[s.Intn(len(pool))]
				x.d = drawDec(s, x.h.data, allRoutes())
			case 1: // failing decode
				x.h = pool[s.Intn(len(pool))]
				x.d = drawDec(s, x.h.data, []int{rParse, rTyped, rAny, rDirect, rRegistry, rCompressed})
				n, marks := len(x.h.data), x.d.D.Marks
				if x.d.Route == rCompressed {
					n, marks = len(zbytes(x.h.data, x.d.ZVar)), nil
				}
				x.at, x.d.Setup, x.inj = drawFault(s, n, marks)
			case 2, 3: // encode, read a shared node
				x.h = shared[s.Intn(len(shared))]
				x.look = x.kind == 3 && s.Chance(1, 2)
			case 4: // encode a shared node to a failing destination
				x.h = shared[s.Intn(len(shared))]
				x.at = s.Intn(len(x.h.data))
				x.inj = seam.NewErr(s.Chooser)
			case 5: // load through the shared link system
				x.h = pool[s.Intn(len(pool))]
			case 6: // decode what is cut short
				x.h = pool[s.Intn(len(pool))]
				x.at = s.Intn(len(x.h.data))
				x.d = drawDec(s, x.h.data[:x.at], []int{rParse, rBuffer, rCompressed, rTyped, rAny, rRegistry, rBlock})
			}
			scripts[t] = append(scripts[t], x)
		}
	}
	same := func(task, what string, got string, h *held) {
		if got != h.text {
			s.Fail("interference", "%s: %s of a %s gives %s, alone it gives %s", task, what, h.o.Type, clip(got), clip(h.text))
		}
	}
	for t := range scripts {
		script := scripts[t]
		repr := s.Chance(1, 3)
		s.Go(fmt.Sprintf("t%d", t), func(task *core.Task) {
			for _, x := range script {
				switch x.kind {
				case 0:
					res := Do(s, x.d)
					if !res.OK() {
						s.Fail("interference", "%s: %s of a well-formed %s: %s", task.Name, routeNames[x.d.Route], x.h.o.Type, res)
					}
					var txt string
					if oc := s.Call(0, func() { txt = Text(res.Node) }); oc.Panic != nil {
						s.Fail("interference", "%s: reading a decoded node panics: %v", task.Name, oc.Panic)
					}
					same(task.Name, routeNames[x.d.Route], txt, x.h)
					e := Encode(s, res.Node, nil)
					if !e.OK() || !bytes.Equal(e.Out, x.h.data) {
						s.Fail("interference", "%s: encoding what %s gave: %s %s", task.Name, routeNames[x.d.Route], e, core.FirstDiff(e.Out, x.h.data))
					}
				case 1:
					res := Do(s, x.d)
					if res.Broke() || res.Err == nil && x.d.Src.Failed > 0 || res.Err != nil && !isInjected(res.Err) {
						s.Fail("interference", "%s: %s from a source that fails (%v) after %d bytes: %s", task.Name, routeNames[x.d.Route], x.inj, x.at, res)
					}
				case 6:
					res := Do(s, x.d)
					if res.Broke() || res.Err == nil {
						s.Fail("interference", "%s: %s of the first %d of %d bytes of a %s: %s", task.Name, routeNames[x.d.Route], x.at, len(x.h.data), x.h.o.Type, res)
					}
				case 2:
					n := x.h.n
					if tn, ok := n.(schema.TypedNode); ok && repr {
						n = tn.Representation()
					}
					e := Encode(s, n, nil)
					if !e.OK() || !bytes.Equal(e.Out, x.h.data) {
						s.Fail("interference", "%s: encoding a shared %s: %s %s", task.Name, x.h.o.Type, e, core.FirstDiff(e.Out, x.h.data))
					}
				case 3:
					var txt, bad string
					oc := s.Call(0, func() {
						if x.look { // by every accessor, or by iterating
							bad = matchPrivate(x.h.n, x.h.o)
							txt = x.h.text
						} else {
							txt = Text(x.h.n)
						}
					})
					if oc.Panic != nil {
						s.Fail("interference", "%s: reading a shared node panics: %v", task.Name, oc.Panic)
					}
					if bad != "" {
						s.Fail("interference", "%s: reading a shared %s: %s", task.Name, x.h.o.Type, bad)
					}
					same(task.Name, "reading", txt, x.h)
				case 4:
					e := Encode(s, x.h.n, func(w *seam.Sink) { w.FailAt, w.FailN, w.Err = x.at, -1, x.inj })
					if e.Broke() || e.Err == nil || !isInjected(e.Err) || !bytes.HasPrefix(x.h.data, e.Out) {
						s.Fail("interference", "%s: encoding a shared %s to a destination that fails after %d bytes: %s %s", task.Name, x.h.o.Type, x.at, e, core.FirstDiff(e.Out, x.h.data))
					}
				case 5:
					var n datamodel.Node
					var err error
					oc := s.Call(0, func() { n, err = ls.Load(lctx(), Link(model.IDOf(x.h.data)), Proto(x.h.o.Type, repr)) })
					if err != nil || oc.Panic != nil {
						s.Fail("interference", "%s: loading a %s: err %v panic %v", task.Name, x.h.o.Type, err, oc.Panic)
					}
					var txt string
					if oc := s.Call(0, func() { txt = Text(n) }); oc.Panic != nil {
						s.Fail("interference", "%s: reading a loaded node panics: %v", task.Name, oc.Panic)
					}
					same(task.Name, "LinkSystem.Load", txt, x.h)
				}
			}
		})
	}
	s.RunTasks([]int{40, 8, 200, 1000}[s.Intn(4)], 40000)
}
