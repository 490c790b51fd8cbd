package props

import (
	"bytes"
	"io"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/schema"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C06", Run: runC06, Quick: 300000, Claim: "exploration",
		Rule:       "a run draws an object, holds it in a drawn form (decoded, representation, generic) and encodes it to a history of destinations that fail at every byte position (encodings up to 250 bytes) or at drawn ones, once or for good, with none, part or all of the failing write taken, with healthy encodes in between; non-trivial: at least one write failed",
		NonTrivial: func(st map[string]int64) bool { return st["probe:write-failed"] > 0 },
	})
}

// heldNode draws a node with the content of o in a form a caller may hold.
func heldNode(s *core.Sim, o *model.Object, data []byte) (datamodel.Node, string) {
	switch s.Weighted(4, 2, 2) {
	case 2:
		return generic(s, o), "generic"
	case 1:
		if n := mustDecode(s, o, data); n != nil {
			if tn, ok := n.(schema.TypedNode); ok {
				return tn.Representation(), "representation"
			}
			return n, "decoded"
		}
	}
	return mustDecode(s, o, data), "decoded"
}

// mustDecode decodes a well-formed object from memory.
func mustDecode(s *core.Sim, o *model.Object, data []byte) datamodel.Node {
	res := Do(s, &Dec{Route: rBuffer, Data: data})
	if !res.OK() {
		s.Fail("refused", "decoding a well-formed %s: %s\nobject: %s", o.Type, res, core.Q(data))
	}
	return res.Node
}

func runC06(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	if s.Chance(1, 8) {
		nested(s, g)
	}
	o := g.Object()
	data := describe(s, o)
	n, form := heldNode(s, o, data)
	healthy := func() {
		e := Encode(s, n, nil)
		if !e.OK() {
			s.Fail("healthy", "Encode of a %s (%s) to a healthy destination: %s\nobject: %s", o.Type, form, e, core.Q(data))
		}
		if !bytes.Equal(e.Out, data) {
			s.Fail("healthy", "Encode of a %s (%s) reports success with wrong bytes: %s", o.Type, form, core.FirstDiff(e.Out, data))
		}
	}
	// short: the destination takes less than it is given and does not say so
	short := func(at, failN int) {
		e := Encode(s, n, func(w *seam.Sink) { w.FailAt, w.FailN, w.Silent = at, failN, true })
		if e.Broke() {
			s.Fail("broken", "Encode to a destination that takes %d bytes: %s", at, e)
		}
		s.Probe("write-failed")
		if e.Err == nil && !bytes.Equal(e.Out, data) {
			s.Fail("absorbed", "Encode of a %s (%s) reports success although the destination took less than it was given after %d of %d bytes; it holds %d bytes: %s", o.Type, form, at, len(data), len(e.Out), core.FirstDiff(e.Out, data))
		}
		if !bytes.HasPrefix(data, e.Out) {
			s.Fail("not-prefix", "what the destination took of a %s (%s) is not a prefix of the encoding: %s", o.Type, form, core.FirstDiff(e.Out, data))
		}
	}
	failing := func(at, failN, takes int) {
		if takes == 3 {
			short(at, failN)
			return
		}
		inj := sinkErr(s)
		e := Encode(s, n, func(w *seam.Sink) {
			w.FailAt, w.FailN, w.Atomic, w.Whole, w.Err = at, failN, takes == 1, takes == 2, inj
		})
		if e.Broke() {
			s.Fail("broken", "Encode to a destination failing after %d bytes: %s", at, e)
		}
		if e.Sink.Failed == 0 {
			s.Fail("incomplete", "Encode of a %s (%s) wrote %d of %d bytes and returned %s", o.Type, form, len(e.Out), len(data), e)
		}
		s.Probe("write-failed")
		if e.Err == nil {
			s.Fail("absorbed", "Encode of a %s (%s) reports success although the destination failed (%q, %d times) after %d of %d bytes; it holds %d bytes", o.Type, form, inj, e.Sink.Failed, at, len(data), len(e.Out))
		}
		if !seam.Reported(e.Err, inj) {
			s.Fail("not-wrapped", "Encode of a %s (%s): destination failed with %q, the error is %q", o.Type, form, inj, e.Err)
		}
		if !bytes.HasPrefix(data, e.Out) {
			s.Fail("not-prefix", "what the failing destination took of a %s (%s) is not a prefix of the encoding: %s", o.Type, form, core.FirstDiff(e.Out, data))
		}
	}
	if s.Chance(1, 4) {
		storeFaults(s, o, data, n, form)
	}
	if len(data) <= 250 && s.Chance(1, 2) {
		failN, takes := []int{-1, 1}[s.Intn(2)], s.Weighted(3, 3, 2, 2)
		for at := range data {
			failing(at, failN, takes)
		}
		s.Probe("all-positions")
		healthy()
		return
	}
	for k := 2 + s.Intn(6); k > 0; k-- {
		if s.Chance(1, 4) {
			healthy()
			continue
		}
		at := s.Intn(len(data))
		switch s.Intn(4) {
		case 0:
			at = 0
		case 1: // around the end of the header
			at = min(len(data)-1, max(0, bytes.IndexByte(data, 0)+s.Intn(3)))
		case 2:
			at = len(data) - 1
		}
		failing(at, []int{-1, 1, 2}[s.Intn(3)], s.Weighted(3, 3, 2, 2))
	}
	healthy()
}

func sinkErr(s *core.Sim) error {
	if s.Chance(1, 5) {
		return seam.OddErr(s.Chooser, true)
	}
	return seam.NewErr(s.Chooser)
}

// storeFaults stores through a link system whose storage fails.
func storeFaults(s *core.Sim, o *model.Object, data []byte, n datamodel.Node, form string) {
	inj := sinkErr(s)
	where := s.Intn(3) // open, write, commit
	w := seam.NewSink(s)
	if where == 1 {
		w.FailAt, w.FailN, w.Err = s.Intn(len(data)), []int{-1, 1}[s.Intn(2)], inj
		takes := s.Weighted(3, 3, 2)
		w.Atomic, w.Whole = takes == 1, takes == 2
	}
	committed := 0
	ls := cidlink.DefaultLinkSystem()
	ls.StorageWriteOpener = func(linking.LinkContext) (io.Writer, linking.BlockWriteCommitter, error) {
		if where == 0 {
			s.Fault("storage-open")
			return nil, nil, inj
		}
		return w, func(datamodel.Link) error {
			committed++
			if where == 2 {
				s.Fault("storage-commit")
				return inj
			}
			return nil
		}, nil
	}
	var err error
	oc := s.Call(0, func() { _, err = ls.Store(lctx(), gitLP, n) })
	s.Event("store: err %v", err != nil)
	if oc.Panic != nil {
		s.Fail("broken", "Store of a %s: panic %v", o.Type, oc.Panic)
	}
	if err == nil || !seam.Reported(err, inj) {
		s.Fail("absorbed", "Store of a %s (%s): storage failed (stage %d, %q) but Store returns %v", o.Type, form, where, inj, err)
	}
	if where == 1 && (committed > 0 || !bytes.HasPrefix(data, w.Got)) {
		s.Fail("not-prefix", "Store of a %s (%s): committed %d times after a failed write, %s", o.Type, form, committed, core.FirstDiff(w.Got, data))
	}
}
