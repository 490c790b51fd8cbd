package props

import (
	"bytes"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

// vast handles one object larger than Gen draws, if the code under test names a
// size of that order: near such a limit something may change.
func vast(s *core.Sim, g *model.Gen, prop string) {
	n, ok := g.Vast()
	if !ok {
		return
	}
	r := s.Sub()
	pat := make([]byte, 4096)
	for i := range pat {
		pat[i] = "abcdefgh \nxyz\x00\r0"[r.Uint64()%16]
	}
	text := string(append(bytes.Repeat(pat, n/len(pat)), pat[:n%len(pat)]...))
	var o *model.Object
	switch s.Intn(3) {
	case 0:
		o = &model.Object{Type: "blob", Data: []byte(text)}
	case 1:
		o = &model.Object{Type: "commit", Tree: g.ID(), Author: g.Person(), Committer: g.Person(), Message: text}
	case 2:
		o = &model.Object{Type: "tag", Target: g.ID(), TargetType: "commit", TagName: "v1", Tagger: g.Person(), Message: text}
	}
	data := describe(s, o)
	s.Probe("vast")
	draw := func(b []byte) *Dec {
		d := drawDec(s, b, allRoutes())
		d.D = seam.Delivery{Mode: []int{0, 2}[s.Intn(2)], Size: 1 << 16, EOFWith: s.Chance(1, 2)}
		return d
	}
	if prop == "C05" {
		b := data
		switch s.Intn(3) {
		case 0:
			b = data[:len(data)-1]
		case 1:
			b = data[:len(data)-1-s.Intn(len(data)/2)]
		case 2:
			b = append(data[:len(data):len(data)], 'x')
		}
		if res := Do(s, draw(b)); res.Broke() || res.Err == nil {
			s.Fail("accepted", "a %s of %d bytes with %d of them or more is accepted: %s", o.Type, len(data), len(b), res)
		}
		return
	}
	d := draw(data)
	var own []byte
	if prop == "C10" {
		own = bytes.Clone(data)
		d = draw(own)
		d.Route = rBuffer
	}
	res := Do(s, d)
	scribble(s, own)
	if !res.OK() {
		s.Fail("refused", "%s of a well-formed %s of %d bytes: %s", routeNames[d.Route], o.Type, len(data), res)
	}
	if prop == "C02" {
		if bad := Match(res.Node, o.Expect(), o.Type, nodeLevel(res.Node)); bad != "" {
			s.Fail("content", "a %s of %d bytes: %s", o.Type, len(data), bad)
		}
		return
	}
	if e := Encode(s, res.Node, nil); !e.OK() || !bytes.Equal(e.Out, data) {
		s.Fail("not-identical", "a %s of %d bytes encodes to %d bytes: %s", o.Type, len(data), len(e.Out), core.FirstDiff(e.Out, data))
	}
}
