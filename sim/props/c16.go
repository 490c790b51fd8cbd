package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/multiformats/go-multihash"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
)

func init() {
	register(&Scenario{
		ID: "C16", Run: runC16, Quick: 150000, Claim: "exploration",
		Rule:       "a run draws an object, damages its bytes (flips, lost, repeated, zeroed or misplaced ranges, aimed at ids, sizes, brackets and ends of parts as well as anywhere; the header's size made to fit again in most cases) and decodes them by several routes under drawn deliveries; non-trivial: the damage left an object that is refused for its structure, or one that is read",
		NonTrivial: func(st map[string]int64) bool { return st["probe:structure"] > 0 || st["probe:settled"] > 0 },
	})
}

// damage changes the bytes of an object as failing storage and links do, aimed
// at what the format depends on.
func damage(s *core.Sim, g *model.Gen, b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return b, "nothing"
	}
	body := bytes.IndexByte(b, 0) + 1
	at := func() int {
		if s.Chance(1, 2) {
			m := Marks(b)
			return min(max(0, m[s.Intn(len(m))]+s.Intn(3)-1), len(b)-1)
		}
		return s.Intn(len(b))
	}
	// field finds a piece of the body that the format depends on.
	field := func(keys ...string) (int, int) {
		var found [][2]int
		for _, k := range keys {
			for i := 0; ; {
				j := bytes.Index(b[i:], []byte(k))
				if j < 0 {
					break
				}
				i += j + len(k)
				e := bytes.IndexByte(b[i:], '\n')
				if e < 0 {
					e = len(b) - i
				}
				found = append(found, [2]int{i, i + e})
			}
		}
		if len(found) == 0 {
			i := at()
			return i, min(len(b), i+1)
		}
		f := found[s.Intn(len(found))]
		return f[0], f[1]
	}
	cut := func(i, j int) { b = append(b[:i:i], b[j:]...) }
	ins := func(i int, x ...byte) { b = append(b[:i:i], append(x, b[i:]...)...) }
	what := ""
	kind := s.Weighted(4, 3, 2, 2, 2, 4, 4, 3, 3, 2, 2)
	switch kind {
	case 0:
		what = "bit flip"
		b[at()] ^= 1 << s.Intn(8)
	case 1:
		what = "lost bytes"
		i := at()
		cut(i, min(len(b), i+1+s.Intn(30)))
	case 2:
		what = "repeated bytes"
		i := at()
		j := min(len(b), i+1+s.Intn(60))
		ins(j, append([]byte(nil), b[i:j]...)...)
	case 3:
		what = "zeroed range"
		i := at()
		for j := min(len(b), i+1+s.Intn(40)); i < j; i++ {
			b[i] = 0
		}
	case 4:
		what = "foreign bytes"
		o := g.Object().Bytes()
		i := at()
		j := s.Intn(len(o) + 1)
		n := min(1+s.Intn(80), len(o)-j, len(b)-i)
		copy(b[i:i+n], o[j:j+n])
	case 5:
		what = "damaged id"
		i, j := field("tree ", "parent ", "object ")
		j = min(j, i+40)
		if i >= j {
			break
		}
		k := i + s.Intn(j-i)
		if s.Chance(1, 3) {
			k = []int{i, j - 1}[s.Intn(2)]
		}
		switch s.Intn(7) {
		case 0:
			b[k] = "gG \x00\n\rxX-~"[s.Intn(10)]
		case 1:
			cut(k, k+1)
		case 2:
			if s.Chance(1, 3) {
				k = j // behind it
			}
			ins(k, "0f\x00 g\r\t\f"[s.Intn(8)])
		case 3:
			cut(k, j)
		case 4:
			ins(j, b[i:j]...)
		case 5: // a whole byte less or more, which still is hex
			cut(i, min(j, i+2*(1+s.Intn(3))))
		case 6:
			ins(j, []byte("0123456789abcdef"[:2*(1+s.Intn(8))])...)
		}
	case 6:
		what = "damaged person"
		i, j := field("author ", "committer ", "tagger ")
		for n := 1 + s.Intn(2); n > 0 && i < j; n-- {
			k := bytes.IndexByte(b[i:j], "<> "[s.Intn(3)])
			if k < 0 {
				continue
			}
			k += i
			switch s.Intn(5) {
			case 0:
				cut(k, k+1)
				j--
			case 1:
				b[k] = "<> x\x00("[s.Intn(6)]
			case 2:
				cut(k, j)
				j = k
			case 3:
				cut(i, k)
				j -= k - i
			case 4:
				ins(k, b[k])
				j++
			}
		}
	case 7:
		what = "lost end"
		i := at()
		if t := bytes.LastIndexByte(b, '\n'); t > body && s.Chance(1, 3) {
			i = t
		}
		if d := s.Intn(60); s.Chance(1, 3) && len(b)-d > body {
			i = len(b) - d
		}
		b = b[:max(i, 0)]
	case 8:
		what = "damaged line"
		ls := bytes.SplitAfter(b[body:], []byte("\n"))
		i := s.Intn(len(ls))
		switch s.Intn(6) {
		case 4, 5: // there twice, one of the two damaged
			if len(ls[i]) < 2 {
				break
			}
			l := append([]byte(nil), ls[i]...)
			k := len(l) - 2
			if s.Chance(2, 3) {
				k = s.Intn(len(l) - 1)
			}
			switch s.Intn(4) {
			case 0:
				l[k] ^= 1 << s.Intn(8)
			case 1:
				l[k] = 'g'
			case 2:
				l = append(l[:k:k], l[k+1:]...)
			case 3:
				l = append(l[:k:k], append([]byte{l[k], l[k]}, l[k+1:]...)...)
			}
			j := i + s.Intn(2)
			ls = append(ls[:j:j], append([][]byte{l}, ls[j:]...)...)
		case 0: // lost
			ls = append(ls[:i:i], ls[i+1:]...)
		case 1: // its newline lost
			ls[i] = bytes.TrimSuffix(ls[i], []byte("\n"))
		case 2: // its keyword damaged
			if len(ls[i]) > 0 {
				ls[i] = append([]byte(nil), ls[i]...)
				ls[i][s.Intn(min(6, len(ls[i])))] ^= 1 << s.Intn(8)
			}
		case 3: // moved
			l := ls[i]
			ls = append(ls[:i:i], ls[i+1:]...)
			j := s.Intn(len(ls) + 1)
			ls = append(ls[:j:j], append([][]byte{l}, ls[j:]...)...)
		}
		b = append(b[:body:body], bytes.Join(ls, nil)...)
	case 9:
		what = "damaged header"
		if body < 2 {
			break
		}
		i := s.Intn(body)
		sp := bytes.IndexByte(b[:body], ' ')
		switch s.Intn(4) {
		case 3: // another size, and perhaps nothing after it
			if sp < 0 {
				break
			}
			size := []string{"-1", "-7", "", "0x0", "1e0", "0.", "9223372036854775808", "-9223372036854775808", "18446744073709551615", " 0", "0 ", "٣", "1_0", "--1"}[s.Intn(14)]
			rest := b[body-1:]
			if s.Chance(1, 2) {
				rest = rest[:1]
			}
			b = append(append(b[:sp+1:sp+1], size...), rest...)
		case 0:
			b[i] ^= 1 << s.Intn(8)
		case 1:
			cut(i, i+1)
		case 2:
			ins(i, "0 -+9\x00a"[s.Intn(7)])
		}
	}
	if kind == 10 {
		what = "replaced byte"
		b[at()] = "/\\.<>:-+ \t\n\r\v\x00\"'=\x7f\xff09"[s.Intn(21)]
	}
	if kind != 9 && s.Chance(7, 8) {
		b = reframe(b)
	}
	return b, what
}

func runC16(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	o := g.Object()
	data := describe(s, o)
	for k := 1 + s.Intn(4); k > 0; k-- {
		b, what := damage(s, g, data)
		s.Fault(strings.ReplaceAll(what, " ", "-"))
		for s.Chance(1, 4) {
			var more string
			b, more = damage(s, g, b)
			what += ", " + more
		}
		want := model.Read(b)
		switch {
		case want.Bad != "":
			s.Probe("refuse:" + strings.ReplaceAll(want.Bad, " ", "-"))
			if want.Bad != "wrong size" {
				s.Probe("structure")
			}
		case want.Obj != nil:
			s.Probe("settled")
			if want.Exact {
				s.Probe("settled-exactly")
			}
		default:
			s.Probe("unsettled")
		}
		for j := 1 + s.Intn(2); j > 0; j-- {
			d := drawDec(s, b, allRoutes())
			res := Do(s, d)
			bad := func(class, format string, args ...any) {
				s.Fail(class, "a %s with %s, %s: %s\nbytes: %s", o.Type, what, routeNames[d.Route], fmt.Sprintf(format, args...), core.Q(b))
			}
			switch {
			case res.Broke():
				bad("broken", "%s", res)
			case res.Err != nil && res.Node != nil:
				bad("broken", "a node and an error")
			case res.Err != nil:
				if want.Exact {
					bad("refused", "the bytes are a whole object again, yet: %v", res.Err)
				}
				continue
			case want.Bad != "":
				bad("accepted", "accepted although broken (%s), as %s", want.Bad, clip(Text(res.Node)))
			}
			if want.Obj != nil {
				if m := MatchAll(res.Node, want.Obj); m != "" {
					bad("misread", "%s", m)
				}
			} else if m := invented(res.Node, b); m != "" {
				bad("invented", "%s", m)
			}
			e := Encode(s, res.Node, nil)
			if e.Broke() {
				bad("broken", "encoding the node: %s", e)
			}
			if want.Exact && (!e.OK() || !bytes.Equal(e.Out, b)) {
				bad("misread", "encodes to %s: %s", e, core.FirstDiff(e.Out, b))
			}
		}
	}
}

// squeeze drops what a lenient reader may drop between the parts of a line.
var squeeze = strings.NewReplacer(" ", "", "\n", "", "\r", "", "<", "", ">", "")

// invented tells of a link or a text in the node that the bytes do not hold.
func invented(n datamodel.Node, b []byte) string {
	if n.Kind() == datamodel.Kind_Bytes {
		x, _ := n.AsBytes()
		if i, j := bytes.IndexByte(x, 0), bytes.IndexByte(b, 0); !bytes.Equal(x[i+1:], b[j+1:]) {
			return "the blob holds other bytes"
		}
		return ""
	}
	text := squeeze.Replace(string(b))
	lower := bytes.ToLower(b)
	var walk func(n datamodel.Node, path string) string
	walk = func(n datamodel.Node, path string) string {
		switch n.Kind() {
		case datamodel.Kind_Link:
			l, _ := n.AsLink()
			cl, ok := l.(cidlink.Link)
			if !ok {
				return path + ": a link of another kind"
			}
			h, err := multihash.Decode(cl.Cid.Hash())
			if err != nil || len(h.Digest) != 20 {
				return path + ": a link that names no object"
			}
			if !bytes.Contains(b, h.Digest) && !bytes.Contains(lower, []byte(hex.EncodeToString(h.Digest))) {
				return fmt.Sprintf("%s: a link to %x, which is not in the bytes", path, h.Digest)
			}
		case datamodel.Kind_String:
			x, _ := n.AsString()
			if !strings.Contains(text, squeeze.Replace(x)) {
				return fmt.Sprintf("%s: %q, which is not in the bytes", path, clip(x))
			}
		case datamodel.Kind_Map:
			for it := n.MapIterator(); !it.Done(); {
				k, v, err := it.Next()
				if err != nil {
					return path + ": " + err.Error()
				}
				ks, _ := k.AsString()
				if path == "" && typeWord(b) == "tree" && !strings.Contains(text, squeeze.Replace(ks)) {
					return fmt.Sprintf("an entry %q, which is not in the bytes", clip(ks))
				}
				if x := walk(v, path+"/"+ks); x != "" {
					return x
				}
			}
		case datamodel.Kind_List:
			for it := n.ListIterator(); !it.Done(); {
				i, v, err := it.Next()
				if err != nil {
					return path + ": " + err.Error()
				}
				if x := walk(v, fmt.Sprintf("%s/%d", path, i)); x != "" {
					return x
				}
			}
		}
		return ""
	}
	return walk(n, "")
}
