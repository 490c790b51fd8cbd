package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"time"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C08", Run: runC08, Quick: 100000, Claim: "exploration",
		Rule:       "a run draws hostile bytes (mutated objects, lying sizes, very long or very many lines, headers, merge tags, entries) and a hostile source (any read sizes, errors, a stall), decodes them counting statements, allocation and stack, and reads and encodes whatever comes back; non-trivial: the decoder got past the header word",
		NonTrivial: func(st map[string]int64) bool { return st["probe:past-header"] > 0 },
	})
}

// hostile draws input made to hurt.
func hostile(s *core.Sim, g *model.Gen) (b []byte, what string) {
	id := strings.Repeat("ab", 20)
	n := 0
	switch s.Weighted(4, 3, 2, 1) {
	case 0:
		n = 1 + s.Intn(20)
	case 1:
		n = 1 + s.Intn(300)
	case 2:
		n = 1 + s.Intn(3000)
	case 3:
		n = 1 + s.Intn(30000)
	}
	if k, ok := g.Near(30000); ok && s.Chance(1, 8) {
		n = k
	}
	rep := func(x string) string { return strings.Repeat(x, n) }
	commit := func(body string) []byte { return model.Frame("commit", []byte("tree "+id+"\n"+body)) }
	tag := func(body string) []byte { return model.Frame("tag", []byte("object "+id+"\n"+body)) }
	switch s.Weighted(10, 4, 4, 3, 3, 3, 3, 3, 2, 2, 2, 2, 6) {
	case 0:
		return drawBytes(s, g), "mutation"
	case 12:
		return repeated(s, g, n), "a piece of an object many times over"
	case 1: // a size that is a lie
		typ := []string{"blob", "tree", "commit", "tag"}[s.Intn(4)]
		size := []string{"1000000000", "1000000000000", "9223372036854775807", "4294967296", "2147483647", "9223372036854775800"}[s.Intn(6)]
		body := make([]byte, s.Intn(100))
		if s.Chance(1, 2) {
			body = g.Object().Body()
		}
		return append([]byte(typ+" "+size+"\x00"), body...), "lying size"
	case 2:
		mt := "mergetag object " + id + "\n"
		v := []string{mt + " type x\n tag y\n \n m\n", mt, mt + " \n", mt + " \n \n", mt + "x\n"}[s.Intn(5)]
		return commit(rep(v) + "\nm\n"), fmt.Sprintf("%d merge tags", n)
	case 3:
		k := []string{"author ", "committer ", "tagger "}[s.Intn(3)]
		p := []string{rep(" "), rep("x "), rep("< "), rep("<x "), "A <" + rep(" "), "A <" + rep("x ") + ">", rep("<"), rep(">"), "<" + rep("a b") + "> 1 2", rep(" ") + "<>", "A <a> " + rep("1 ")}[s.Intn(11)]
		if k == "tagger " {
			return tag("type commit\ntag x\n" + k + p + "\n\nm\n"), "person"
		}
		return commit(k + p + "\n\nm\n"), "person"
	case 4:
		if s.Chance(1, 3) { // many different ones
			v := []string{"parent %040x\n", "x%x y\n", "encoding %x\n", " %x\n", "x %x\n",
				"mergetag object %040x\n type commit\n tag v\n tagger A <a> 1 2\n \n m\n"}[s.Intn(6)]
			var bb strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&bb, v, i)
			}
			return commit(bb.String() + "author A <a> 1 +0000\ncommitter A <a> 1 +0000\n\nm\n"), "many different lines"
		}
		l := []string{"x\n", "\r\n", " \n", "parent " + id + "\n", "encoding x\n", "gpgsig x\n", "author A <a> 1 2\n", "tree " + id + "\n"}[s.Intn(8)]
		return commit(rep(l) + "\nm\n"), "many lines"
	case 5:
		sig := "gpgsig -----BEGIN PGP SIGNATURE-----\n"
		v := []string{sig + " \n" + rep(" x\n"), sig + rep(" Version: \n"), rep(sig), sig + " \n" + rep(" x\n") + " -----END PGP SIGNATURE-----\n\n", sig, sig + " \n", rep(sig + " \n -----END PGP SIGNATURE-----\n")}[s.Intn(7)]
		return commit(v), "signature"
	case 6:
		// all names are different, so that every entry is there to be read
		var bb bytes.Buffer
		mode := []string{"1", "100644", "40000", "160000"}[s.Intn(4)]
		for i := 0; i < n; i++ {
			fmt.Fprintf(&bb, "%s %x\x00%s", mode, i, strings.Repeat("h", 20))
		}
		if s.Chance(1, 4) { // but perhaps the last one
			fmt.Fprintf(&bb, "%s %x\x00%s", mode, s.Intn(n), strings.Repeat("h", 20))
		}
		return model.Frame("tree", bb.Bytes()), "many entries"
	case 7:
		v := []string{rep("x"), "1 " + rep("x"), "1 " + rep("x") + "\x00" + strings.Repeat("h", 20), rep(" "), rep("\x00"), " \x00" + strings.Repeat("h", 20)}[s.Intn(6)]
		return model.Frame("tree", []byte(v)), "tree text"
	case 8:
		l := []string{"x\n", "tag x\n", "type x\n", "object " + id + "\n", "tagger A <a> 1 2\n", " \n"}[s.Intn(6)]
		return tag(rep(l) + "\nm"), "tag lines"
	case 9:
		return []byte(rep([]string{"x", "blob", "9", "\x00", " "}[s.Intn(5)])), "no header"
	case 10:
		return []byte("blob " + rep("1")), "endless size"
	}
	return commit(strings.Repeat("x", n*10) + "\n" + "\n" + rep("m")), "long lines"
}

// repeated has some lines of an object, or part of one, many times over, perhaps
// behind a line made of what the code under test names.
func repeated(s *core.Sim, g *model.Gen, n int) []byte {
	o := g.Object()
	ls := bytes.SplitAfter(o.Body(), []byte("\n"))
	i := s.Intn(len(ls))
	j := min(len(ls), i+1+s.Intn(3))
	var piece []byte
	switch s.Weighted(4, 2, 3) {
	case 0:
		piece = bytes.Join(ls[i:j], nil)
	case 1:
		if l := len(ls[i]); l > 0 {
			k := s.Intn(l)
			piece = append(piece, ls[i][k:k+min(l-k, 1+s.Intn(30))]...)
		}
	case 2:
		piece = []byte([]string{" \n", "\n", " x\n", " \r\n", "x \n", "\t\n", " -\n"}[s.Intn(7)])
	}
	if len(piece) > 200 {
		piece = piece[:200]
	}
	var b []byte
	b = append(b, bytes.Join(ls[:i], nil)...)
	if w := g.Word(); s.Chance(1, 2) {
		b = append(b, " "[s.Intn(2):]...)
		b = append(append(b, w...), '\n')
	}
	for k := 0; k < n && len(b) < 200000; k++ {
		b = append(b, piece...)
	}
	return model.Frame(o.Type, append(b, bytes.Join(ls[i:], nil)...))
}

// Bounds: per delivered byte, and a base.
const (
	stepsPerByte = 40
	stepsBase    = 20000
	workPerByte  = 64
	workBase     = 1 << 18
	allocPerByte = 160
	allocBase    = 1 << 20
	stackPerByte = 4
	stackBase    = 128 << 10
)

func runC08(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	before := runtime.NumGoroutine()
	for k := 1 + s.Intn(2); k > 0; k-- {
		hostileRun(s, g)
	}
	if s.Chance(1, 3) {
		misdirected(s, g)
	}
	// What the library may have started has ended, or is about to.
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i > 2000 {
			s.Fail("left-behind", "decoding has left %d goroutines that do not end", runtime.NumGoroutine()-before)
		}
		time.Sleep(time.Millisecond)
	}
}

// prototypes are all the prototypes a caller can get hold of.
func prototypes() (names []string, ps []datamodel.NodePrototype) {
	v := reflect.ValueOf(ipldgit.Type)
	for i := 0; i < v.NumField(); i++ {
		if p, ok := v.Field(i).Interface().(datamodel.NodePrototype); ok {
			names, ps = append(names, v.Type().Field(i).Name), append(ps, p)
		}
	}
	b := basicnode.Prototype
	names = append(names, "basic Any", "basic Map", "basic List", "basic Bool", "basic Int", "basic Float", "basic String", "basic Bytes", "basic Link")
	ps = append(ps, b.Any, b.Map, b.List, b.Bool, b.Int, b.Float, b.String, b.Bytes, b.Link)
	return
}

var protoNames, protos = prototypes()

// misdirected decodes into whatever prototype the caller has chosen, as a link
// from an untrusted object may make it do.
func misdirected(s *core.Sim, g *model.Gen) {
	var b []byte
	if s.Chance(2, 3) {
		b = g.Object().Bytes()
	} else {
		b = drawBytes(s, g)
	}
	i := s.Intn(len(protos))
	typ := model.Types[s.Intn(4)]
	exported := s.Chance(1, 3)
	if w := typeWord(b); exported && w != "" && s.Chance(1, 2) {
		typ = w
	}
	nb := protos[i].NewBuilder()
	src := seam.NewSource(s, b, seam.DrawDelivery(s.Chooser, Marks(b)))
	src.Quiet = true
	var n datamodel.Node
	var err error
	what := "Decode"
	oc := s.Call(stepsPerByte*uint64(len(b))+stepsBase, func() {
		if exported { // the decoder of a type the object may not have, past its first word
			what = "Decode of a " + typ
			rd := bufio.NewReader(src)
			if sp := bytes.IndexByte(b, ' '); sp >= 0 {
				io.CopyN(io.Discard, rd, int64(sp+1))
			}
			switch typ {
			case "commit":
				err = ipldgit.DecodeCommit(nb, rd)
			case "tree":
				err = ipldgit.DecodeTree(nb, rd)
			case "tag":
				err = ipldgit.DecodeTag(nb, rd)
			case "blob":
				err = ipldgit.DecodeBlob(nb, rd)
			}
		} else {
			err = ipldgit.Decode(nb, src)
		}
		if err == nil {
			n = nb.Build()
		}
	})
	s.Event("%s into %s: err %v", what, protoNames[i], err != nil)
	s.Probe("misdirected")
	if oc.Panic != nil || oc.OverRun {
		s.Fail("panic", "%s into a %s prototype: panic %v at %s, over-run %v\nbytes: %s", what, protoNames[i], oc.Panic, core.FirstFrame(oc.Stack), oc.OverRun, core.Q(b))
	}
	if n == nil {
		return
	}
	s.Probe("misdirected-accepted")
	if oc := s.Call(0, func() { Text(n) }); oc.Panic != nil {
		s.Fail("panic", "reading what %s into a %s prototype gave panics: %v at %s\nbytes: %s", what, protoNames[i], oc.Panic, core.FirstFrame(oc.Stack), core.Q(b))
	}
	if e := Encode(s, n, nil); e.Broke() {
		s.Fail("panic", "encoding what %s into a %s prototype gave: %s\nbytes: %s", what, protoNames[i], e, core.Q(b))
	}
}

func hostileRun(s *core.Sim, g *model.Gen) {
	b, what := hostile(s, g)
	s.Event("hostile %s, %d bytes %x", what, len(b), model.IDOf(b))
	if typeWord(b) != "" {
		s.Probe("past-header")
	}
	d := drawDec(s, b, allRoutes())
	stall := false
	if routeStreams(d.Route) && len(b) > 0 {
		switch s.Weighted(5, 2, 1) {
		case 1:
			n := len(b)
			if d.Route == rCompressed {
				n = len(zbytes(b, d.ZVar))
			}
			_, setup, _ := drawFault(s, n, nil)
			d.Setup = func(r *seam.Source) { setup(r); r.Quiet = true }
		case 2:
			// the link system itself would wait for ever on a stalled source
			if d.Route != rLink && d.Route != rLinkAny && d.Route != rLinkTrust {
				at := s.Intn(len(b))
				stall = true
				d.Setup = func(r *seam.Source) { r.Stall = at; r.Quiet = true }
			}
		}
	}
	if d.Setup == nil {
		d.Setup = func(r *seam.Source) { r.Quiet = true }
	}
	n := uint64(len(b))
	d.Limit = stepsPerByte*n + stepsBase
	d.Raw = nil
	if d.Route == rCompressed {
		d.Raw = zbytes(b, d.ZVar)
	}
	var m0, m1 runtime.MemStats
	s.WatchDepth(uintptr(stackPerByte*n + stackBase))
	runtime.ReadMemStats(&m0)
	work := s.Work
	res := Do(s, d)
	work = s.Work - work
	runtime.ReadMemStats(&m1)
	depth := int64(s.MaxDepth)
	s.WatchDepth(0)
	alloc := m1.TotalAlloc - m0.TotalAlloc
	if r := int64(res.Steps * 10 / (n + 300)); r > s.Stats["max:steps_x10_per_byte"] {
		s.Stats["max:steps_x10_per_byte"] = r
	}
	if r := int64(work * 10 / (n + 300)); r > s.Stats["max:work_x10_per_byte"] {
		s.Stats["max:work_x10_per_byte"] = r
	}
	if alloc > 200<<10 {
		if r := int64((alloc - 200<<10) / (n + 1)); r > s.Stats["max:alloc_per_byte"] {
			s.Stats["max:alloc_per_byte"] = r
		}
	}
	if r := depth; r > s.Stats["max:stack_bytes"] {
		s.Stats["max:stack_bytes"] = r
	}
	if res.Panic != nil {
		s.Fail("panic", "%s of hostile input (%s): %s\nbytes: %s", routeNames[d.Route], what, res, core.Q(b))
	}
	if res.OverRun {
		s.Fail("steps", "%s of %d hostile bytes (%s) executes more than %d statements\nbytes: %s", routeNames[d.Route], n, what, d.Limit, core.Q(b))
	}
	if work > workPerByte*n+workBase {
		s.Fail("work", "%s of %d hostile bytes (%s) has library functions go over %d bytes or elements\nbytes: %s", routeNames[d.Route], n, what, work, core.Q(b))
	}
	if res.TooDeep {
		s.Fail("stack", "%s of %d hostile bytes (%s) uses more than %d bytes of stack\nbytes: %s", routeNames[d.Route], n, what, stackPerByte*n+stackBase, core.Q(b))
	}
	// decompression and the harness's own copies are outside the decoder's control
	if alloc > allocPerByte*n+allocBase {
		s.Fail("memory", "%s of %d hostile bytes (%s) allocates more than %d bytes per byte\nbytes: %s", routeNames[d.Route], n, what, allocPerByte, core.Q(b))
	}
	if stall && res.Err == nil && d.Src.Pos() < len(b) && d.Route != rCompressed {
		s.Fail("stall", "%s succeeds although the source stalled after %d of %d bytes", routeNames[d.Route], d.Src.Pos(), len(b))
	}
	if !res.OK() {
		return
	}
	s.Probe("hostile-accepted")
	node := res.Node
	var txt string
	oc := s.Call(0, func() { txt = Text(node) })
	if oc.Panic != nil {
		s.Fail("panic", "reading what %s made of hostile input (%s) panics: %v at %s\nbytes: %s", routeNames[d.Route], what, oc.Panic, core.FirstFrame(oc.Stack), core.Q(b))
	}
	e := Encode(s, node, nil)
	if e.Broke() {
		s.Fail("panic", "encoding what %s made of hostile input (%s): %s\nbytes: %s", routeNames[d.Route], what, e, core.Q(b))
	}
	_ = txt
}
