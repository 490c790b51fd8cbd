package props

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
	"verif.local/gitsim/seam"
)

func init() {
	register(&Scenario{
		ID: "C12", Run: runC12, Quick: 120000, Claim: "exploration",
		Rule:       "a run draws an object and a zlib encoding of it (level, block structure) and decodes damaged forms of it: every bit flip and every cut of a small one, or drawn damage (flips, lost, repeated, zeroed or scrambled ranges, cuts, surplus, forged checksums) and read errors, under drawn deliveries; the oracle inflates the damaged stream to its end first; non-trivial: the oracle found at least one damaged stream to be bad",
		NonTrivial: func(st map[string]int64) bool { return st["probe:bad-stream"] > 0 },
	})
}

// inflate is the oracle: what a complete and correct stream holds. rest is how
// many bytes follow it.
func inflate(z []byte) (data []byte, rest int, err error) {
	br := bytes.NewReader(z) // a ByteReader: zlib takes no more than it needs
	r, err := zlib.NewReader(br)
	if err != nil {
		return nil, 0, err
	}
	data, err = io.ReadAll(io.LimitReader(r, 64<<20))
	if err == nil && len(data) == 64<<20 {
		err = errors.New("too large for the oracle")
	}
	return data, br.Len(), err
}

func runC12(s *core.Sim) {
	g := model.NewGen(s.Chooser)
	o := g.Object()
	data := describe(s, o)
	if len(data) > 200000 {
		o = &model.Object{Type: "blob", Data: data[:100000]}
		data = describe(s, o)
	}
	want := Text(Basic(o.Expect(), InOrder))
	zv := s.Intn(10)
	z := zbytes(data, zv)

	decode := func(z []byte, what string, setup func(*seam.Source), del seam.Delivery) {
		d := &Dec{Route: rCompressed, Data: nil, Raw: z, D: del, Setup: func(r *seam.Source) {
			r.Quiet = true
			if setup != nil {
				setup(r)
			}
		}}
		res := Do(s, d)
		if res.Broke() {
			s.Fail("broken", "ParseCompressedObject of a %s (%s): %s\nstream: %s", o.Type, what, res, core.Q(z))
		}
		if setup != nil && d.Src.Failed > 0 {
			s.Probe("bad-stream")
			if res.Err == nil {
				s.Fail("read-absorbed", "ParseCompressedObject of a %s succeeds although a read failed (%v) after %d of %d bytes", o.Type, d.Src.Err, d.Src.FailAt, len(z))
			}
			if !seam.Reported(res.Err, d.Src.Err) {
				s.Fail("not-wrapped", "ParseCompressedObject of a %s: a read failed with %v, the error is %v", o.Type, d.Src.Err, res.Err)
			}
			return
		}
		plain, rest, err := inflate(z)
		if err != nil {
			s.Probe("bad-stream")
			if res.Err == nil {
				s.Fail("damage-accepted", "ParseCompressedObject of a %s (%s) succeeds although its stream is damaged (%v); intact %d bytes, level/structure %d\nstream: %s", o.Type, what, err, len(data), zv, core.Q(z))
			}
			return
		}
		ref := Do(s, &Dec{Route: rBuffer, Data: plain})
		if ref.Broke() {
			s.Fail("broken", "ParseObjectFromBuffer of what a stream inflates to: %s", ref)
		}
		switch {
		case res.OK() && !ref.OK():
			s.Fail("disagree", "ParseCompressedObject of a %s (%s) succeeds where the inflated bytes give %s", o.Type, what, ref)
		case !res.OK() && ref.OK() && rest == 0:
			s.Fail("disagree", "ParseCompressedObject of a sound stream (%s of a %s) gives %s", what, o.Type, res)
		case res.OK():
			if a, b := Text(res.Node), Text(ref.Node); a != b {
				s.Fail("disagree", "ParseCompressedObject of a %s (%s) says %s", o.Type, what, diffText(a, b))
			}
			if bytes.Equal(plain, data) && Text(res.Node) != want {
				s.Fail("altered", "ParseCompressedObject of a %s says %s", o.Type, diffText(Text(res.Node), want))
			}
		}
	}
	del := func() seam.Delivery {
		m := []int{1, 2, 3, len(z) - 5, len(z) - 4, len(z) - 3, len(z) - 1}
		return seam.DrawDelivery(s.Chooser, m)
	}
	decode(z, "intact", nil, del())
	if len(z) <= 90 && s.Chance(1, 3) {
		dl := del()
		for i := range z {
			for b := 0; b < 8; b++ {
				x := append([]byte(nil), z...)
				x[i] ^= 1 << b
				s.Fault("bit-flip")
				decode(x, fmt.Sprintf("bit %d of byte %d flipped", b, i), nil, dl)
			}
			s.Fault("truncation")
			decode(z[:i], fmt.Sprintf("cut at %d", i), nil, dl)
		}
		s.Probe("all-flips-and-cuts")
		return
	}
	for k := 2 + s.Intn(8); k > 0; k-- {
		switch s.Weighted(5, 3, 3, 2, 1) {
		case 0:
			decode(seam.Damage(s, z, false), "damaged", nil, del())
		case 1: // in the trailer
			x := append([]byte(nil), z...)
			x[len(x)-1-s.Intn(4)] ^= 1 << s.Intn(8)
			s.Fault("checksum-flip")
			decode(x, "checksum damaged", nil, del())
		case 2:
			_, setup, inj := drawFault(s, len(z), nil)
			if s.Chance(1, 6) {
				base := setup
				inj = seam.OddErr(s.Chooser, false)
				setup = func(r *seam.Source) { base(r); r.Err = inj }
			}
			decode(z, "read failure", setup, del())
		case 3: // the checksum is cut off or short
			s.Fault("truncation")
			decode(z[:len(z)-1-s.Intn(min(6, len(z)))], "tail lost", nil, del())
		case 4: // the stream of one object with the checksum of another
			x := append([]byte(nil), z...)
			y := zbytes(append(append([]byte(nil), data...), 'x'), zv)
			copy(x[len(x)-4:], y[len(y)-4:])
			s.Fault("checksum-swap")
			decode(x, "foreign checksum", nil, del())
		}
	}
	decode(z, "intact, afterwards", nil, del())
}
