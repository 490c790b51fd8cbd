package props

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C03", Run: runC03, Quick: 200000, Claim: "exploration",
		Rule:       "a run draws a byte sequence (a git object, a mutated one, or arbitrary text), decodes it from memory for reference and then through several routes and read schedules; non-trivial: at least one delivery came in more than one piece",
		NonTrivial: func(st map[string]int64) bool { return st["partial_reads"] > 0 },
	})
	register(&Scenario{
		ID: "C05", Run: runC05, Quick: 100000, Claim: "exploration",
		Rule:       "a run draws an object and, for a drawn route and delivery, cuts it at every offset (objects up to 400 bytes) or at the structural and some random offsets (larger), or appends surplus, or changes the declared size; non-trivial: at least one damaged stream got past the header word",
		NonTrivial: func(st map[string]int64) bool { return st["probe:past-header"] > 0 },
	})
}

func bufioReader(s *core.Sim, r io.Reader) *bufio.Reader {
	return bufio.NewReaderSize(r, []int{4096, 16, 17, 64, 4095, 65536}[s.Intn(6)])
}

// reframe gives the body of b (after the first NUL) a header with its true size.
func reframe(b []byte) []byte {
	i := bytes.IndexByte(b, 0)
	sp := bytes.IndexByte(b, ' ')
	if i < 0 || sp < 0 || sp > i {
		return b
	}
	return model.Frame(string(b[:sp]), b[i+1:])
}

// mutate damages a byte sequence in ways a parser may care about.
func mutate(s *core.Sim, g *model.Gen, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + s.Intn(3); k > 0; k-- {
		at := func() int {
			if len(b) == 0 {
				return 0
			}
			if s.Chance(1, 3) {
				m := Marks(b)
				return min(max(0, m[s.Intn(len(m))]), len(b)-1)
			}
			return s.Intn(len(b))
		}
		ins := func(i int, x []byte) {
			b = append(b[:i:i], append(append([]byte(nil), x...), b[i:]...)...)
		}
		special := []string{"\n", " ", "\x00", "<", ">", "\r\n", "\n\n", " \n", "\n ", "tree ", "parent ", "mergetag object ", "gpgsig -----BEGIN PGP SIGNATURE-----\n", " -----END PGP SIGNATURE-----\n", "author ", "tagger ", "object ", "\n \n", "encoding ", "\xff", "A", "0", "\n\x00"}
		switch s.Intn(13) {
		case 12: // a line as long as a buffer, perhaps the last thing there is
			from := bytes.IndexByte(b, 0) + 1
			i := at0(s, b)
			j := bytes.IndexByte(b[i:], '\n')
			if j < 0 {
				break
			}
			j += i
			start := max(bytes.LastIndexByte(b[:j], '\n')+1, from)
			n := []int{16, 32, 64, 512, 4095, 4096, 4096, 4096, 8192, 65536}[s.Intn(10)] + s.Intn(3) - 1
			if s.Chance(1, 3) {
				n -= start - from // the whole body up to here
			}
			if n -= j - start; n > 0 {
				b = append(b[:j:j], append(bytes.Repeat([]byte("x"), n), b[j:]...)...)
				j += n
			}
			if s.Chance(1, 2) {
				b = b[:j]
			}
		case 0:
			if len(b) > 0 {
				b[at()] ^= 1 << s.Intn(8)
			}
		case 1:
			if len(b) > 0 {
				i := at()
				n := min(1+s.Intn(8), len(b)-i)
				b = append(b[:i:i], b[i+n:]...)
			}
		case 2:
			x := special[s.Intn(len(special))]
			if s.Chance(1, 4) {
				x = g.Word()
			}
			ins(at(), []byte(x))
		case 3: // drop, repeat or swap a line
			lines := bytes.SplitAfter(b, []byte("\n"))
			if len(lines) > 2 {
				i, j := s.Intn(len(lines)-1), s.Intn(len(lines)-1)
				switch s.Intn(3) {
				case 0:
					lines = append(lines[:i:i], lines[i+1:]...)
				case 1:
					lines = append(lines[:i:i], append([][]byte{lines[i]}, lines[i:]...)...)
				case 2:
					lines[i], lines[j] = lines[j], lines[i]
				}
				b = bytes.Join(lines, nil)
			}
		case 4: // drop a word
			if i := bytes.IndexByte(b[at0(s, b):], ' '); i >= 0 {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 5: // header size
			if i := bytes.IndexByte(b, 0); i >= 0 {
				sp := bytes.IndexByte(b, ' ')
				if sp >= 0 && sp < i {
					n, _ := strconv.Atoi(string(b[sp+1 : i]))
					k, _ := g.Int()
					x := []string{fmt.Sprint(k), fmt.Sprint(n + 1), fmt.Sprint(n - 1), fmt.Sprint(s.Intn(2*n + 2)), "", "-1", "+" + fmt.Sprint(n), "0" + fmt.Sprint(n), "9223372036854775807", "99999999999999999999", fmt.Sprint(n) + " ", "0x10", "1e3", "-0", " " + fmt.Sprint(n), fmt.Sprint(n) + "\n", strings.Repeat("0", 1+s.Intn(30)) + fmt.Sprint(n), strings.Repeat("0", 4000+s.Intn(200)) + fmt.Sprint(n), "-" + strings.Repeat("0", 1+s.Intn(30)) + fmt.Sprint(n)}[s.Intn(19)]
					b = append([]byte(string(b[:sp+1])+x), b[i:]...)
					return b
				}
			}
		case 6:
			w := []string{"commit", "tree", "tag", "blob", "tags", "Commit", "", "commit\t", "tre", "delta", strings.Repeat("blob", 1+s.Intn(10)), strings.Repeat("tree", 1020+s.Intn(10))}[s.Intn(12)]
			if s.Chance(1, 4) {
				w = g.Word()
			}
			if sp := bytes.IndexByte(b, ' '); sp >= 0 {
				b = append([]byte(w), b[sp:]...)
			}
		case 7: // splice with another object
			o := g.Object().Bytes()
			i, j := at(), 0
			if len(o) > 0 {
				j = s.Intn(len(o))
			}
			b = append(b[:i:i], o[j:]...)
		case 8:
			b = b[:at()]
		case 9: // upper-case hex, or a hex digit too few or many
			i := bytes.Index(b, []byte("tree "))
			if s.Chance(1, 2) {
				i = bytes.Index(b, []byte("object ")) + 2
			}
			if i >= 0 && i+45 < len(b) {
				switch s.Intn(3) {
				case 0:
					copy(b[i+5:], bytes.ToUpper(b[i+5:i+45]))
				case 1:
					b = append(b[:i+44:i+44], b[i+45:]...)
				case 2:
					ins(i+45, []byte("0"))
				}
			}
		case 10:
			b = bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))
		case 11:
			if len(b) > 0 && b[len(b)-1] == '\n' {
				b = b[:len(b)-1]
			}
		}
		if s.Chance(3, 4) {
			b = reframe(b)
		}
	}
	return b
}

func at0(s *core.Sim, b []byte) int {
	if len(b) == 0 {
		return 0
	}
	return s.Intn(len(b))
}

// arbitrary draws bytes that are not derived from a good object.
func arbitrary(s *core.Sim, g *model.Gen) []byte {
	r := s.Sub()
	switch s.Intn(5) {
	case 4: // an object as a repository holds it, compressed
		b := g.Object().Bytes()
		switch s.Intn(4) {
		case 0:
			b = b[bytes.IndexByte(b, 0)+1:] // without its header, as a pack holds it
		case 1:
			var z bytes.Buffer
			w := gzip.NewWriter(&z)
			w.Write(b)
			w.Close()
			return z.Bytes()
		}
		return zbytes(b, s.Intn(10))
	case 0:
		b := make([]byte, s.Intn(64))
		for i := range b {
			b[i] = byte(r.Uint64())
		}
		return b
	case 1:
		typ := []string{"commit", "tree", "tag", "blob"}[s.Intn(4)]
		b := make([]byte, s.Intn(200))
		for i := range b {
			b[i] = " \n\x00<>abc0"[r.Intn(9)]
		}
		return model.Frame(typ, b)
	case 2: // lines from a vocabulary of headers
		typ := []string{"commit", "tag"}[s.Intn(2)]
		voc := []string{"tree 0123456789012345678901234567890123456789", "parent 0123456789012345678901234567890123456789", "author A <a@b> 1 +0000", "committer", "committer A", "author  <> ", "author <", "author >", "author x <a b", "encoding", "encoding ", "mergetag object 0123456789012345678901234567890123456789", "mergetag object ", " type commit", " tag x", " tagger A <a> 1 2", " tagger ", " ", " text", "gpgsig -----BEGIN PGP SIGNATURE-----", " -----END PGP SIGNATURE-----", "", "", "object 0123456789012345678901234567890123456789", "object 12", "type commit", "tag v1", "tagger T <t@t> 3 +0100", "tagger", "tree 12", "\r", "x"}
		var b []byte
		for k := s.Intn(14); k > 0; k-- {
			if s.Chance(1, 8) {
				b = append(b, g.Word()...)
			} else {
				b = append(b, voc[s.Intn(len(voc))]...)
			}
			b = append(b, '\n')
		}
		if len(b) > 0 && s.Chance(1, 4) {
			b = b[:len(b)-1]
		}
		return model.Frame(typ, b)
	}
	return []byte([]string{"", " ", "blob", "blob ", "blob 0\x00", "tree 0\x00", "commit 0\x00", "tag 0\x00", "blob -1\x00", "blob 5\x00", "blob 0", "\x00", "x 1\x00a"}[s.Intn(13)])
}

// drawBytes draws a sequence for the differential scenarios.
func drawBytes(s *core.Sim, g *model.Gen) []byte {
	switch s.Weighted(2, 6, 2) {
	case 0:
		return g.Object().Bytes()
	case 1:
		return mutate(s, g, g.Object().Bytes())
	}
	return arbitrary(s, g)
}

// outcome renders what a decode gave, for comparison.
func outcome(r *Res) string {
	if r.OK() {
		return "node " + Text(r.Node)
	}
	return outcomeName(r)
}

func runC03(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	vast(s, g, "C03")
	b := drawBytes(s, g)
	s.Event("bytes %x len %d", model.IDOf(b), len(b))
	ref := Do(s, &Dec{Route: rBuffer, Data: b})
	if ref.Broke() {
		s.Fail("broken", "ParseObjectFromBuffer: %s\nbytes: %s", ref, core.Q(b))
	}
	want := outcome(ref)
	if ref.OK() {
		s.Probe("accepted")
	} else {
		s.Probe("rejected")
	}
	for k := 2 + s.Intn(5); k > 0; k-- {
		d := drawDec(s, b, allRoutes())
		d.Map = s.Chance(1, 2)
		got := Do(s, d)
		if x := outcome(got); x != want {
			s.Fail("differs", "%s %s gives %s, the same bytes from memory give %s (%s)\nbytes: %s", routeNames[d.Route], d.D, clip(got.String()+" "+x), clip(want), clip(ref.String()), core.Q(b))
		}
	}
}

func runC05(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	vast(s, g, "C05")
	o := g.Object()
	data := describe(s, o)
	try := func(b []byte, what string) {
		d := drawDec(s, b, allRoutes())
		d.Map = s.Chance(1, 2)
		res := Do(s, d)
		if typeWord(b) != "" {
			s.Probe("past-header")
		}
		if res.Broke() {
			s.Fail("broken", "%s of a %s %s: %s", routeNames[d.Route], o.Type, what, res)
		}
		if res.Err == nil || res.Node != nil {
			s.Fail("accepted", "%s %s accepts a %s %s (err %v)\nstream: %s", routeNames[d.Route], d.D, o.Type, what, res.Err, core.Q(b))
		}
	}
	switch s.Weighted(6, 3, 2) {
	case 0:
		var cuts []int
		if len(data) <= 400 && s.Chance(1, 2) {
			for i := range data {
				cuts = append(cuts, i)
			}
			s.Probe("all-cuts")
		} else {
			m := Marks(data)
			for i := 0; i < 8; i++ {
				cuts = append(cuts, s.Intn(len(data)))
				cuts = append(cuts, m[s.Intn(len(m))])
			}
			cuts = append(cuts, len(data)-1)
		}
		for _, c := range cuts {
			if c < 0 || c >= len(data) {
				continue
			}
			s.Fault("truncation")
			try(data[:c], fmt.Sprintf("cut after %d of %d bytes", c, len(data)))
		}
	case 1:
		for k := 1 + s.Intn(4); k > 0; k-- {
			var x []byte
			switch s.Intn(6) {
			case 0:
				x = []byte("\n")
			case 1:
				x = []byte{0}
			case 2:
				x = data
			case 3:
				x = g.Object().Bytes()
			case 4:
				x = make([]byte, 1+s.Intn(9000))
			case 5:
				x = []byte([]string{" ", "\r\n", "100644 x\x00aaaaaaaaaaaaaaaaaaaa", "parent ", "x\n"}[s.Intn(5)])
			}
			if len(x) == 0 {
				continue
			}
			s.Fault("surplus")
			try(append(append([]byte(nil), data...), x...), fmt.Sprintf("followed by %d surplus bytes", len(x)))
		}
	case 2:
		body := o.Body()
		for k := 1 + s.Intn(4); k > 0; k-- {
			var n int
			switch s.Intn(6) {
			case 0:
				n = len(body) + 1
			case 1:
				n = len(body) - 1
			case 2:
				n = s.Intn(2*len(body) + 2)
			case 3:
				n = 0
			case 4:
				n = []int{1 << 62, 1<<63 - 1, 1 << 32, 1 << 31, len(body) + 1<<32}[s.Intn(5)]
			case 5: // no machine word holds it, and what is left of it may fit
				d := new(big.Int).Lsh(big.NewInt(int64(1+s.Intn(3))), []uint{64, 64, 63, 65, 128, 256}[s.Intn(6)])
				d.Add(d, big.NewInt(int64(len(body))))
				if s.Chance(1, 4) {
					d.Neg(d)
					d.Add(d, big.NewInt(2*int64(len(body))))
				}
				s.Fault("wrong-length")
				try(append([]byte(fmt.Sprintf("%s %s\x00", o.Type, d)), body...), fmt.Sprintf("of %d bytes declared as %s", len(body), d))
				continue
			}
			if n == len(body) || n < 0 {
				continue
			}
			s.Fault("wrong-length")
			b := append([]byte(fmt.Sprintf("%s %d\x00", o.Type, n)), body...)
			try(b, fmt.Sprintf("of %d bytes declared as %d", len(body), n))
		}
	}
}

// drawFault sets a source up to fail at a drawn point strictly inside its data.
func drawFault(s *core.Sim, n int, marks []int) (at int, setup func(*seam.Source), err error) {
	at = 0
	if n > 1 {
		if len(marks) > 0 && s.Chance(1, 3) {
			at = marks[s.Intn(len(marks))] + s.Intn(3) - 1
		} else {
			at = s.Intn(n)
		}
		if s.Chance(1, 8) {
			at = n - 1
		}
		at = min(max(at, 0), n-1)
	}
	err = seam.NewErr(s.Chooser)
	failN := []int{-1, 1, 2}[s.Weighted(2, 3, 1)]
	with := s.Chance(1, 3) && at > 0
	return at, func(r *seam.Source) {
		r.FailAt, r.Err, r.FailN, r.WithData = at, err, failN, with
	}, err
}
