package props

import (
	"github.com/ipld/go-ipld-prime/datamodel"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C04", Run: runC04, Quick: 150000, Claim: "exploration",
		Rule: "a run draws an object and decodes it several times through drawn routes with one failure each: a read error (kind, position, transient or lasting, with or without data) or a failing assembler, each followed by a healthy decode; non-trivial: at least one injected failure reached the decoder",
		NonTrivial: func(st map[string]int64) bool {
			return st["probe:read-failed"]+st["probe:assembler-failed"] > 0
		},
	})
}

func streamRoutes() []int {
	var out []int
	for r := 0; r < nRoutes; r++ {
		if routeStreams(r) {
			out = append(out, r)
		}
	}
	return out
}

func runC04(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	if s.Chance(1, 10) {
		nested(s, g)
	}
	if s.Chance(1, 300) {
		age(s, g)
	}
	o := g.Object()
	data := describe(s, o)
	for k := 1 + s.Intn(5); k > 0; k-- {
		if s.Chance(1, 6) {
			assemblerFault(s, o, data)
			continue
		}
		d := drawDec(s, data, streamRoutes())
		n := len(data)
		marks := d.D.Marks
		if d.Route == rCompressed {
			n = len(zbytes(data, d.ZVar))
			marks = nil
		}
		at, setup, inj := drawFault(s, n, marks)
		if s.Chance(1, 6) {
			inj = seam.OddErr(s.Chooser, false)
		}
		d.Setup = func(r *seam.Source) { setup(r); r.Err = inj }
		res := Do(s, d)
		if res.Broke() {
			s.Fail("broken", "%s with %v after %d bytes: %s", routeNames[d.Route], inj, at, res)
		}
		if d.Src.Failed == 0 {
			// the decode ended before it came to the failure
			s.Probe("fault-not-reached")
			if !res.OK() {
				s.Fail("refused", "%s: %s\nobject: %s", routeNames[d.Route], res, core.Q(data))
			}
			continue
		}
		s.Probe("read-failed")
		if res.Err == nil {
			s.Fail("absorbed", "%s %s: the source failed with %q (once: %v) after %d of %d bytes of a %s, but the decode succeeded\nobject: %s", routeNames[d.Route], d.D, inj, d.Src.FailN == 0, at, n, o.Type, core.Q(data))
		}
		if res.Node != nil {
			s.Fail("node-and-error", "%s returned a node together with error %v", routeNames[d.Route], res.Err)
		}
		if !seam.Reported(res.Err, inj) {
			s.Fail("not-wrapped", "%s %s: the source failed with %q after %d of %d bytes of a %s, but the decode reports %q\nobject: %s", routeNames[d.Route], d.D, inj, at, n, o.Type, res.Err, core.Q(data))
		}
		// nothing of it lingers
		if s.Chance(1, 2) {
			d2 := drawDec(s, data, allRoutes())
			res = Do(s, d2)
			if !res.OK() {
				s.Fail("retry", "after a failed decode, %s of the healthy bytes: %s\nobject: %s", routeNames[d2.Route], res, core.Q(data))
			}
			if a, b := Text(res.Node), Text(Basic(o.Expect(), InOrder)); a != b {
				s.Fail("retry", "after a failed decode, %s gives a different node: %s want %s", routeNames[d2.Route], clip(a), clip(b))
			}
		}
	}
}

func assemblerFault(s *core.Sim, o *model.Object, data []byte) {
	d := drawDec(s, data, []int{rTyped, rRepr, rAny, rDirect, rLink, rLinkAny, rLinkTrust, rRegistry})
	d.Map = s.Chance(1, 2)
	at := s.Weighted(6, 1, 1, 1)
	if s.Chance(1, 3) {
		at = s.Intn(60)
	}
	f := &seam.NodeFaults{S: s, At: at, Sticky: s.Chance(1, 2), Err: seam.NewErr(s.Chooser)}
	d.Wrap = func(nb datamodel.NodeBuilder) datamodel.NodeAssembler {
		return &seam.Asm{NodeAssembler: nb, F: f}
	}
	res := Do(s, d)
	if res.Broke() {
		s.Fail("broken", "%s into a failing assembler: %s", routeNames[d.Route], res)
	}
	if f.Failed == 0 {
		if !res.OK() {
			s.Fail("refused", "%s into a healthy assembler: %s\nobject: %s", routeNames[d.Route], res, core.Q(data))
		}
		return
	}
	s.Probe("assembler-failed")
	if res.Err == nil {
		s.Fail("absorbed", "%s: the assembler failed (%s) but the decode of a %s succeeded", routeNames[d.Route], f.Where, o.Type)
	}
	if !isInjected(res.Err) {
		s.Fail("not-wrapped", "%s: the assembler failed (%s, %v) but the decode of a %s reports %q", routeNames[d.Route], f.Where, f.Err, o.Type, res.Err)
	}
}
