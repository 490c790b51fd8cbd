// Package props holds one simulated scenario and oracle per property.
package props

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"slices"
	"strconv"
	"strings"

	blocks "github.com/ipfs/go-block-format"
	"github.com/ipfs/go-cid"
	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	mc "github.com/ipld/go-ipld-prime/multicodec"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/schema"
	mh "github.com/multiformats/go-multihash"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

// Scenario is a property's simulated workload and oracle.
type Scenario struct {
	Claim      string // the level claimed
	ID         string
	Property   string // if not ID
	Batch      int    // runs per process, if not the default
	Run        func(*core.Sim)
	Quick      int // runs in the quick tier
	Rule       string
	NonTrivial func(st map[string]int64) bool
	Real, Stub string
}

const (
	realDefault = "all of /repo's package ipldgit (instrumented copy of the working tree), go-ipld-prime v0.24, go-cid, go-multihash, bufio, compress/zlib"
	stubDefault = "byte sources and sinks, storage, nodes and assemblers handed to the library where faults are injected"
)

// RealText and StubText say what ran real code and what was simulated.
func (s *Scenario) RealText() string {
	if s.Real != "" {
		return s.Real
	}
	return realDefault
}

func (s *Scenario) StubText() string {
	if s.Stub != "" {
		return s.Stub
	}
	return stubDefault
}

var All = map[string]*Scenario{}

func register(s *Scenario) { All[s.ID] = s }

// Known lists the ids of the recorded findings; set by the driver.
var Known = map[string]bool{}

var curSim *core.Sim

// Start is called by the driver before each run.
func Start(s *core.Sim) { curSim = s }

// known reports whether a deviation is a recorded finding, and counts it.
func known(id string) bool {
	if !Known[id] {
		return false
	}
	curSim.Stats["known:"+id]++
	return true
}

// GitCid is the link target for a git object id, made by hand.
func GitCid(id model.ID) cid.Cid {
	// CIDv1, codec git-raw 0x78, multihash sha1 0x11 length 0x14
	b := append([]byte{0x01, 0x78, 0x11, 0x14}, id[:]...)
	_, c, err := cid.CidFromBytes(b)
	if err != nil {
		panic(err)
	}
	return c
}

func Link(id model.ID) cidlink.Link { return cidlink.Link{Cid: GitCid(id)} }

var gitLP = cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: 0x78, MhType: 0x11, MhLength: 20}}

// The decoding routes.
const (
	rParse = iota
	rBuffer
	rCompressed
	rBlock
	rTyped     // Decode into the typed builder
	rRepr      // Decode into the representation builder
	rAny       // Decode into a generic builder
	rDirect    // the exported per-type decoder on a caller's bufio.Reader
	rLink      // LinkSystem.Load, typed
	rLinkAny   // LinkSystem.Load, generic
	rLinkTrust // LinkSystem.Load, trusted storage
	rRegistry  // decoder looked up in the multicodec registry
	nRoutes
)

var routeNames = []string{"ParseObject", "ParseObjectFromBuffer", "ParseCompressedObject", "DecodeBlock", "Decode(typed)", "Decode(repr)", "Decode(any)", "DecodeX(bufio)", "LinkSystem.Load", "LinkSystem.Load(any)", "LinkSystem.Load(trusted)", "registry decoder"}

// routeStreams tells whether the route reads a simulated stream.
func routeStreams(r int) bool { return r != rBuffer && r != rBlock }

func Proto(typ string, repr bool) datamodel.NodePrototype {
	switch typ {
	case "commit":
		if repr {
			return ipldgit.Type.Commit__Repr
		}
		return ipldgit.Type.Commit
	case "tag":
		if repr {
			return ipldgit.Type.Tag__Repr
		}
		return ipldgit.Type.Tag
	case "tree":
		if repr {
			return ipldgit.Type.Tree__Repr
		}
		return ipldgit.Type.Tree
	case "blob":
		if repr {
			return ipldgit.Type.Blob__Repr
		}
		return ipldgit.Type.Blob
	}
	return basicnode.Prototype.Any
}

// typeWord is the word before the first space, if it names a git type.
func typeWord(b []byte) string {
	i := bytes.IndexByte(b, ' ')
	if i < 0 {
		return ""
	}
	switch w := string(b[:i]); w {
	case "commit", "tree", "tag", "blob":
		return w
	}
	return ""
}

// routeApplies: some routes need to know the type beforehand.
func routeApplies(r int, data []byte) bool {
	switch r {
	case rTyped, rRepr, rDirect, rLink, rLinkTrust:
		return typeWord(data) != ""
	}
	return true
}

// Res is what a decode gave.
type Res struct {
	Node datamodel.Node
	Err  error
	core.Outcome
}

func (r *Res) String() string {
	switch {
	case r.OverRun:
		return "did not return within its step budget"
	case r.TooDeep:
		return "used more stack than allowed"
	case r.Panic != nil:
		return fmt.Sprintf("panic: %v at %s", r.Panic, core.FirstFrame(r.Stack))
	case r.Err != nil:
		return "error: " + r.Err.Error()
	}
	return "node"
}

// zbytes is the zlib form of data; level and block structure come from v.
func zbytes(data []byte, v int) []byte {
	var b bytes.Buffer
	level := []int{-1, 0, 1, 9, -2}[v%5]
	w, _ := zlib.NewWriterLevel(&b, level)
	if v/5%2 == 1 {
		for len(data) > 0 {
			n := min(len(data), 1+len(data)/3)
			w.Write(data[:n])
			w.Flush()
			data = data[n:]
		}
	}
	w.Write(data)
	w.Close()
	return b.Bytes()
}

// Dec describes one decode.
type Dec struct {
	Route   int
	Data    []byte // the (uncompressed) bytes the object consists of
	D       seam.Delivery
	Setup   func(*seam.Source) // adds faults
	ZVar    int
	Raw     []byte // for rCompressed: use these compressed bytes instead
	BufSize int    // for rDirect
	Map     bool   // for rAny, rLinkAny: a prototype for maps only
	Limit   uint64
	Wrap    func(datamodel.NodeBuilder) datamodel.NodeAssembler
	CidData []byte // for link routes: the bytes whose hash is the link (default Data)
	Src     *seam.Source
}

// Do performs a decode through the real code.
func Do(s *core.Sim, d *Dec) *Res {
	res := &Res{}
	stream := d.Data
	if d.Route == rCompressed {
		stream = d.Raw
		if stream == nil {
			stream = zbytes(d.Data, d.ZVar)
		}
	}
	var src *seam.Source
	var rd io.Reader
	if routeStreams(d.Route) {
		src = seam.NewSource(s, stream, d.D)
		if d.Setup != nil {
			d.Setup(src)
		}
		d.Src = src
		rd = src.Dressed()
	}
	s.Event("decode via %s %d bytes %s", routeNames[d.Route], len(stream), d.D)
	wrap := func(nb datamodel.NodeBuilder) datamodel.NodeAssembler {
		if d.Wrap != nil {
			return d.Wrap(nb)
		}
		return nb
	}
	fill := func(nb datamodel.NodeBuilder, f func(datamodel.NodeAssembler) error) {
		if res.Err = f(wrap(nb)); res.Err == nil {
			res.Node = nb.Build()
		}
	}
	res.Outcome = s.Call(d.Limit, func() {
		switch d.Route {
		case rParse:
			res.Node, res.Err = ipldgit.ParseObject(rd)
		case rBuffer:
			res.Node, res.Err = ipldgit.ParseObjectFromBuffer(d.Data)
		case rCompressed:
			res.Node, res.Err = ipldgit.ParseCompressedObject(rd)
		case rBlock:
			cd := d.CidData
			if cd == nil {
				cd = d.Data
			}
			blk, err := blocks.NewBlockWithCid(d.Data, GitCid(model.IDOf(cd)))
			if err != nil {
				panic(err)
			}
			res.Node, res.Err = ipldgit.DecodeBlock(blk)
		case rTyped, rRepr, rAny, rRegistry:
			var nb datamodel.NodeBuilder
			dec := ipldgit.Decode
			switch d.Route {
			case rTyped:
				nb = Proto(typeWord(d.Data), false).NewBuilder()
			case rRepr:
				nb = Proto(typeWord(d.Data), true).NewBuilder()
			case rAny:
				nb = anyProto(d).NewBuilder()
			case rRegistry:
				nb = basicnode.Prototype.Any.NewBuilder()
				if w := typeWord(d.Data); w != "" {
					nb = Proto(w, false).NewBuilder()
				}
				f, err := mc.LookupDecoder(0x78)
				if err != nil {
					res.Err = fmt.Errorf("codec 0x78 is not registered: %w", err)
					return
				}
				dec = f
			}
			fill(nb, func(na datamodel.NodeAssembler) error { return dec(na, rd) })
		case rDirect:
			typ := typeWord(d.Data)
			size := d.BufSize
			if size == 0 {
				size = 4096
			}
			rd := bufio.NewReaderSize(rd, size)
			if _, err := io.ReadFull(rd, make([]byte, len(typ)+1)); err != nil {
				res.Err = err
				return
			}
			f := map[string]func(datamodel.NodeAssembler, *bufio.Reader) error{"commit": ipldgit.DecodeCommit, "tag": ipldgit.DecodeTag, "tree": ipldgit.DecodeTree, "blob": ipldgit.DecodeBlob}[typ]
			fill(Proto(typ, false).NewBuilder(), func(na datamodel.NodeAssembler) error { return f(na, rd) })
		case rLink, rLinkAny, rLinkTrust:
			ls := cidlink.DefaultLinkSystem()
			ls.TrustedStorage = d.Route == rLinkTrust
			ls.StorageReadOpener = func(linking.LinkContext, datamodel.Link) (io.Reader, error) { return rd, nil }
			np := Proto(typeWord(d.Data), s != nil && d.BufSize%2 == 1)
			if d.Route == rLinkAny {
				np = anyProto(d)
			}
			cd := d.CidData
			if cd == nil {
				cd = d.Data
			}
			lc := linking.LinkContext{Ctx: context.Background()}
			if d.Wrap != nil {
				nb := np.NewBuilder()
				fill(nb, func(na datamodel.NodeAssembler) error { return ls.Fill(lc, Link(model.IDOf(cd)), na) })
				return
			}
			res.Node, res.Err = ls.Load(lc, Link(model.IDOf(cd)), np)
		}
	})
	if res.OK() && res.Node == nil {
		s.Fail("nil-node", "%s returned neither node nor error", routeNames[d.Route])
	}
	s.Event("-> %s", outcomeName(res))
	s.Stats["decodes"]++
	return res
}

func outcomeName(r *Res) string {
	switch {
	case r.OverRun:
		return "overrun"
	case r.TooDeep:
		return "too deep"
	case r.Panic != nil:
		return "panic"
	case r.Err != nil:
		return "error"
	}
	return "node"
}

// anyProto is the generic prototype to decode into: sometimes one for maps only.
func anyProto(d *Dec) datamodel.NodePrototype {
	if w := typeWord(d.Data); d.Map && w != "" && w != "blob" {
		return basicnode.Prototype.Map
	}
	return basicnode.Prototype.Any
}

// drawDec draws a route and delivery for data.
func drawDec(s *core.Sim, data []byte, routes []int) *Dec {
	r := routes[s.Intn(len(routes))]
	if !routeApplies(r, data) {
		r = rParse
	}
	d := &Dec{Route: r, Data: data}
	d.ZVar = s.Intn(10)
	d.D = seam.DrawDelivery(s.Chooser, Marks(data))
	d.BufSize = []int{4096, 16, 17, 64, 4095, 31, 32, 1024, 65536}[s.Intn(9)]
	return d
}

func allRoutes() []int {
	out := make([]int, nRoutes)
	for i := range out {
		out[i] = i
	}
	return out
}

// Marks lists offsets in an object at which structure changes: ends of header
// words, lines, names and raw ids.
func Marks(b []byte) []int {
	var m []int
	for i := 0; i < len(b) && len(m) < 400; i++ {
		switch b[i] {
		case ' ', 0, '\n', '>':
			m = append(m, i, i+1)
			if b[i] == 0 {
				m = append(m, i+21)
			}
		}
	}
	m = append(m, len(b)-1)
	return m
}

// Enc is the result of an encode.
type Enc struct {
	Out  []byte
	Err  error
	Sink *seam.Sink
	core.Outcome
}

func (r *Enc) String() string {
	switch {
	case r.OverRun:
		return "did not return within its step budget"
	case r.TooDeep:
		return "used more stack than allowed"
	case r.Panic != nil:
		return fmt.Sprintf("panic: %v at %s", r.Panic, core.FirstFrame(r.Stack))
	case r.Err != nil:
		return "error: " + r.Err.Error()
	}
	return fmt.Sprintf("%d bytes", len(r.Out))
}

func (r *Enc) OK() bool { return r.Panic == nil && !r.OverRun && !r.TooDeep && r.Err == nil }

// callersBuffer is a destination that already holds something of the caller's.
func callersBuffer(k int, w *seam.Sink) (io.Writer, func()) {
	const held = "what the caller wrote before"
	take := func(all []byte) {
		if !bytes.HasPrefix(all, []byte(held)) {
			w.Got = append([]byte("(the caller's bytes are gone) "), all...)
			return
		}
		w.Got = all[len(held):]
	}
	if k == 1 {
		b := bytes.NewBufferString(held)
		return b, func() { take(b.Bytes()) }
	}
	b := bufio.NewWriter(w)
	b.WriteString(held)
	return b, func() {
		b.Flush()
		take(w.Got)
	}
}

// Encode encodes through the real code into a simulated sink.
func Encode(s *core.Sim, n datamodel.Node, setup func(*seam.Sink)) *Enc {
	w := seam.NewSink(s)
	if setup != nil {
		setup(w)
	}
	e := &Enc{Sink: w}
	s.Event("encode %T", n)
	var dst io.Writer = w
	collect := func() {}
	if s.Chance(1, 4) {
		dst = seam.DressSink{Sink: w}
		if k := s.Intn(3); k > 0 && w.FailAt < 0 {
			dst, collect = callersBuffer(k, w)
		}
	}
	e.Outcome = s.Call(0, func() { e.Err = ipldgit.Encode(n, dst) })
	collect()
	e.Out = w.Got
	s.Event("-> %d bytes, err %v, panic %v", len(w.Got), e.Err != nil, e.Panic != nil)
	s.Stats["encodes"]++
	return e
}

func (r *Res) OK() bool { return r.Panic == nil && !r.OverRun && !r.TooDeep && r.Err == nil }

// Broke: the call neither returned a value nor an error.
func (o *Res) Broke() bool { return o.Panic != nil || o.OverRun || o.TooDeep }
func (o *Enc) Broke() bool { return o.Panic != nil || o.OverRun || o.TooDeep }

// isInjected: the failure reported is the one injected.
func isInjected(err error) bool { return errors.Is(err, seam.ErrInjected) }

// ---- building nodes from the model, for use as inputs

// Basic builds a generic node with the given content. perm permutes map entries.
func Basic(v *model.Val, order func(n int) []int) datamodel.Node {
	nb := basicnode.Prototype.Any.NewBuilder()
	fillVal(nb, v, order)
	return nb.Build()
}

func fillVal(na datamodel.NodeAssembler, v *model.Val, order func(n int) []int) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch v.Kind {
	case model.VString:
		must(na.AssignString(v.S))
	case model.VBytes:
		must(na.AssignBytes(v.B))
	case model.VLink:
		must(na.AssignLink(Link(v.L)))
	case model.VList:
		la, err := na.BeginList(int64(len(v.Vals)))
		must(err)
		for _, x := range v.Vals {
			fillVal(la.AssembleValue(), x, order)
		}
		must(la.Finish())
	case model.VMap:
		ma, err := na.BeginMap(int64(len(v.Vals)))
		must(err)
		idx := order(len(v.Vals))
		for _, i := range idx {
			ea, err := ma.AssembleEntry(v.Keys[i])
			must(err)
			fillVal(ea, v.Vals[i], order)
		}
		must(ma.Finish())
	}
}

func InOrder(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// Shuffled draws permutations.
func Shuffled(s *core.Sim) func(n int) []int {
	return func(n int) []int {
		out := InOrder(n)
		for i := n - 1; i > 0; i-- {
			j := s.Intn(i + 1) // 0 keeps this one in place
			out[i], out[i-j] = out[i-j], out[i]
		}
		return out
	}
}

// ---- comparing a node with the model

type view int

const (
	vTyped view = iota // type level: optional fields appear as absent
	vPlain             // representation or generic
)

// Match checks every way of reading n against v and returns a description of
// the first disagreement, or "".
func Match(n datamodel.Node, v *model.Val, typ string, lvl view) string {
	m := &matcher{}
	m.match("", n, v, typ, lvl)
	return m.bad
}

type matcher struct {
	bad string
	// private: share nothing with other tasks, so count no findings and do
	// not do what is known to fail
	private bool
}

func (m *matcher) fail(path, format string, args ...any) {
	if m.bad == "" {
		m.bad = "at /" + strings.TrimPrefix(path, "/") + ": " + fmt.Sprintf(format, args...)
	}
}

func clip(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (m *matcher) match(path string, n datamodel.Node, v *model.Val, typ string, lvl view) {
	if m.bad != "" {
		return
	}
	if n == nil {
		m.fail(path, "no node")
		return
	}
	if n.IsAbsent() || n.IsNull() {
		m.fail(path, "absent or null, want a value")
		return
	}
	kinds := map[model.VKind]datamodel.Kind{model.VMap: datamodel.Kind_Map, model.VList: datamodel.Kind_List, model.VString: datamodel.Kind_String, model.VBytes: datamodel.Kind_Bytes, model.VLink: datamodel.Kind_Link}
	if n.Kind() != kinds[v.Kind] {
		m.fail(path, "kind %s, want %s", n.Kind(), kinds[v.Kind])
		return
	}
	// scalars, and refusals of the accessors of other kinds
	if s, err := n.AsString(); v.Kind == model.VString {
		if err != nil || s != v.S {
			m.fail(path, "string %s (err %v), want %s", clip(s), err, clip(v.S))
		}
	} else if err == nil {
		m.fail(path, "AsString on %s succeeded", n.Kind())
	}
	if b, err := n.AsBytes(); v.Kind == model.VBytes {
		if err != nil || !bytes.Equal(b, v.B) {
			m.fail(path, "bytes differ (err %v): %s", err, core.FirstDiff(b, v.B))
		}
	} else if err == nil {
		m.fail(path, "AsBytes on %s succeeded", n.Kind())
	}
	if l, err := n.AsLink(); v.Kind == model.VLink {
		cl, ok := l.(cidlink.Link)
		if err != nil || !ok || !cl.Cid.Equals(GitCid(v.L)) {
			m.fail(path, "link %v (err %v), want %s", l, err, GitCid(v.L))
		}
	} else if err == nil {
		m.fail(path, "AsLink on %s succeeded", n.Kind())
	}
	if _, err := n.AsInt(); err == nil {
		m.fail(path, "AsInt succeeded")
	}
	if _, err := n.AsBool(); err == nil {
		m.fail(path, "AsBool succeeded")
	}
	if _, err := n.AsFloat(); err == nil {
		m.fail(path, "AsFloat succeeded")
	}
	switch v.Kind {
	case model.VMap:
		m.matchMap(path, n, v, typ, lvl)
	case model.VList:
		if n.Length() != int64(len(v.Vals)) {
			m.fail(path, "length %d, want %d", n.Length(), len(v.Vals))
			return
		}
		it := n.ListIterator()
		if it == nil {
			m.fail(path, "no list iterator")
			return
		}
		ct := map[string]string{"mergetag": "tag"}[typ]
		for i, x := range v.Vals {
			p := fmt.Sprintf("%s/%d", path, i)
			if it.Done() {
				m.fail(p, "iterator done early")
				return
			}
			idx, y, err := it.Next()
			if err != nil || idx != int64(i) {
				m.fail(p, "iterator gave index %d, err %v", idx, err)
				return
			}
			m.match(p, y, x, ct, lvl)
			if len(v.Vals) <= 20 || i >= len(v.Vals)-2 || i%13 == 0 {
				y, err = n.LookupByIndex(int64(i))
				if err != nil {
					m.fail(p, "LookupByIndex: %v", err)
					return
				}
				m.match(p, y, x, ct, lvl)
				y, err = n.LookupBySegment(datamodel.PathSegmentOfInt(int64(i)))
				if err != nil {
					m.fail(p, "LookupBySegment: %v", err)
					return
				}
				m.match(p, y, x, ct, lvl)
				y, err = n.LookupByNode(basicnode.NewInt(int64(i)))
				if err != nil {
					m.fail(p, "LookupByNode: %v", err)
					return
				}
				m.match(p, y, x, ct, lvl)
			}
		}
		if !it.Done() {
			m.fail(path, "iterator not done after %d values", len(v.Vals))
		}
		if _, _, err := it.Next(); err == nil {
			m.fail(path, "iterator gives more than %d values", len(v.Vals))
		}
		if _, err := n.LookupByIndex(int64(len(v.Vals))); err == nil {
			m.fail(path, "LookupByIndex past the end succeeded")
		}
		if _, err := n.LookupBySegment(datamodel.PathSegmentOfInt(int64(len(v.Vals)))); err == nil {
			m.fail(path, "LookupBySegment past the end succeeded")
		}
		if _, err := n.LookupByNode(basicnode.NewInt(int64(len(v.Vals)))); err == nil {
			m.fail(path, "LookupByNode past the end succeeded")
		}
		if _, err := n.LookupByNode(basicnode.NewString("x")); err == nil {
			m.fail(path, "LookupByNode with a string that is not a number succeeded")
		}
		if _, err := n.LookupBySegment(datamodel.PathSegmentOfString("x")); err == nil {
			m.fail(path, "LookupBySegment with a segment that is not a number succeeded")
		}
		if _, err := n.LookupByString("0"); err == nil {
			m.fail(path, "LookupByString on a list succeeded")
		}
		for i, what := range []string{"LookupByIndex", "LookupBySegment", "LookupByNode"} {
			if m.private {
				break
			}
			if err := lookupNegative(n, i); err == nil {
				m.fail(path, "%s before the start succeeded", what)
			}
		}
		if n.MapIterator() != nil {
			m.fail(path, "list has a map iterator")
		}
	default:
		if n.MapIterator() != nil || n.ListIterator() != nil || n.Length() != -1 {
			m.fail(path, "scalar can be iterated or has a length")
		}
		if _, err := n.LookupByString("x"); err == nil {
			m.fail(path, "lookup in a scalar succeeded")
		}
	}
}

func (m *matcher) matchMap(path string, n datamodel.Node, v *model.Val, typ string, lvl view) {
	keys := v.Keys
	if typ == "commit" && lvl == vTyped {
		keys = model.CommitFields
	}
	if n.Length() != int64(len(keys)) {
		m.fail(path, "length %d, want %d", n.Length(), len(keys))
		return
	}
	if n.ListIterator() != nil {
		m.fail(path, "map has a list iterator")
	}
	it := n.MapIterator()
	if it == nil {
		m.fail(path, "no map iterator")
		return
	}
	childType := func(k string) string {
		switch {
		case typ == "commit" && k == "mergetag":
			return "mergetag"
		case typ == "tree":
			return "entry"
		}
		return ""
	}
	for i, k := range keys {
		p := path + "/" + k
		want := v.Get(k)
		if typ == "tree" {
			want = v.Vals[i]
		}
		if it.Done() {
			m.fail(p, "iterator done early")
			return
		}
		kn, x, err := it.Next()
		if err != nil {
			m.fail(p, "iterator: %v", err)
			return
		}
		if ks, err := kn.AsString(); err != nil || ks != k {
			m.fail(p, "iterator gave key %s, err %v", clip(ks), err)
			return
		}
		look := []datamodel.Node{x}
		names := []string{"iterator"}
		add := func(name string, y datamodel.Node, err error) {
			if want == nil {
				if err != nil || y == nil {
					m.fail(p, "%s of an absent optional field: %v", name, err)
					y = nil
				}
			} else if err != nil {
				m.fail(p, "%s: %v", name, err)
			}
			if y != nil {
				look = append(look, y)
				names = append(names, name)
			}
		}
		if len(keys) <= 40 || i >= len(keys)-2 || i%17 == 0 {
			y, err := n.LookupByString(k)
			add("LookupByString", y, err)
			y, err = n.LookupBySegment(datamodel.PathSegmentOfString(k))
			add("LookupBySegment", y, err)
			if m.private {
			} else if y, err, skip := lookupForeign(n, typ, k); !skip {
				add("LookupByNode", y, err)
			}
			y, err = n.LookupByNode(kn)
			add("LookupByNode(own key)", y, err)
		}
		for j, y := range look {
			if want == nil {
				if !y.IsAbsent() {
					m.fail(p, "%s gave a value, want absent", names[j])
				}
				continue
			}
			m.match(p, y, want, childType(k), lvl)
			if m.bad != "" {
				m.bad += " (read by " + names[j] + ")"
				return
			}
		}
	}
	if !it.Done() {
		m.fail(path, "iterator not done after %d entries", len(keys))
	}
	if _, _, err := it.Next(); err == nil {
		m.fail(path, "iterator gives more than %d entries", len(keys))
	}
	m.unknown(path, n, v, typ, keys)
	if _, err := n.LookupByIndex(0); err == nil {
		m.fail(path, "LookupByIndex on a map succeeded")
	}
}

// unknown looks up, in every way and twice, keys that the map does not have.
func (m *matcher) unknown(path string, n datamodel.Node, v *model.Val, typ string, keys []string) {
	none := []string{"no such entry \x01", "", "0", "1", fmt.Sprint(len(keys) - 1), "00", "-1"}
	if len(keys) > 0 {
		first, last := keys[0], keys[len(keys)-1]
		none = append(none, first+"x", last+"\x00", last[:max(0, len(last)-1)], strings.ToUpper(first), " "+last, first+"/mode", last+"/")
	}
	none = append(none, model.Names(v, 3)...)
	for _, k := range none {
		if v.Get(k) != nil || typ != "tree" && slices.Contains(keys, k) {
			continue
		}
		for range 2 {
			got := func(how string, y datamodel.Node, err error) {
				if err == nil && (y == nil || !y.IsAbsent()) {
					m.fail(path, "%s of %q, which it does not have, succeeded", how, k)
				}
			}
			y, err := n.LookupByString(k)
			got("LookupByString", y, err)
			y, err = n.LookupBySegment(datamodel.PathSegmentOfString(k))
			got("LookupBySegment", y, err)
			if i, err := strconv.ParseInt(k, 10, 64); err == nil && i >= 0 && k != "00" {
				y, err = n.LookupBySegment(datamodel.PathSegmentOfInt(i))
				got("LookupBySegment by number", y, err)
			}
			if m.private {
			} else if y, err, skip := lookupForeign(n, typ, k); !skip {
				got("LookupByNode", y, err)
			}
		}
		if len(keys) > 40 {
			break
		}
	}
}

// lookupNegative looks up the element before the first, as a path from an
// untrusted place may ask. On the lists of this package that is a recorded
// finding (KF10).
func lookupNegative(n datamodel.Node, how int) (err error) {
	defer func() {
		if r := recover(); r != nil {
			re, ok := r.(runtime.Error)
			if ok && strings.Contains(re.Error(), "index out of range [-1]") && known("KF10") {
				err = re
				return
			}
			panic(r)
		}
	}()
	switch how {
	case 0:
		_, err = n.LookupByIndex(-1)
	case 1:
		_, err = n.LookupBySegment(datamodel.ParsePathSegment("-1"))
	case 2:
		_, err = n.LookupByNode(basicnode.NewInt(-1))
	}
	return err
}

// lookupForeign looks a key up by a string node of another package. On trees
// that is a recorded finding (KF6).
func lookupForeign(n datamodel.Node, typ, k string) (y datamodel.Node, err error, skip bool) {
	if typ == "tree" {
		defer func() {
			if r := recover(); r != nil {
				if r == "todo invalid key type error" && known("KF6") {
					skip = true
					return
				}
				panic(r)
			}
		}()
	}
	y, err = n.LookupByNode(basicnode.NewString(k))
	return
}

// nodeLevel tells which view a decoded node offers.
func nodeLevel(n datamodel.Node) view {
	if _, ok := n.(schema.TypedNode); ok {
		return vTyped
	}
	return vPlain
}

// MatchAll checks a node and, if it is typed, its representation.
func MatchAll(n datamodel.Node, o *model.Object) (bad string) {
	out := curSim.Call(0, func() { bad = matchAll(n, o) })
	if out.Panic != nil {
		return fmt.Sprintf("reading the node panics: %v at %s", out.Panic, core.FirstFrame(out.Stack))
	}
	return bad
}

// matchPrivate is MatchAll for a task that shares nothing, and without what is
// known to fail.
func matchPrivate(n datamodel.Node, o *model.Object) string {
	v := o.Expect()
	m := &matcher{private: true}
	m.match("", n, v, o.Type, nodeLevel(n))
	if tn, ok := n.(schema.TypedNode); ok && m.bad == "" {
		m.match("", tn.Representation(), v, o.Type, vPlain)
		if m.bad == "" {
			m.bad = typedAccess(n, o)
		}
	}
	return m.bad
}

func matchAll(n datamodel.Node, o *model.Object) string {
	v := o.Expect()
	if bad := Match(n, v, o.Type, nodeLevel(n)); bad != "" {
		return bad
	}
	if tn, ok := n.(schema.TypedNode); ok {
		if bad := Match(tn.Representation(), v, o.Type, vPlain); bad != "" {
			return "representation " + bad
		}
	}
	return ""
}

// digest of a node by walking it, for comparing two nodes cheaply.
func walkText(b *strings.Builder, n datamodel.Node) {
	if tn, ok := n.(schema.TypedNode); ok {
		n = tn.Representation()
	}
	switch n.Kind() {
	case datamodel.Kind_Map:
		b.WriteByte('{')
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				fmt.Fprintf(b, "!%v", err)
				break
			}
			ks, _ := k.AsString()
			fmt.Fprintf(b, "%q:", ks)
			walkText(b, v)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case datamodel.Kind_List:
		b.WriteByte('[')
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				fmt.Fprintf(b, "!%v", err)
				break
			}
			walkText(b, v)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case datamodel.Kind_String:
		s, err := n.AsString()
		fmt.Fprintf(b, "%q%v", s, err)
	case datamodel.Kind_Bytes:
		s, err := n.AsBytes()
		fmt.Fprintf(b, "x%x%v", s, err)
	case datamodel.Kind_Link:
		l, err := n.AsLink()
		if l == nil {
			b.WriteString("nil-link")
		} else {
			fmt.Fprintf(b, "@%x%v", l.Binary(), err)
		}
	default:
		b.WriteString(n.Kind().String())
	}
}

// Text is a full rendering of a node's content.
func Text(n datamodel.Node) string {
	var b strings.Builder
	walkText(&b, n)
	return b.String()
}

var _ = mh.SHA1
