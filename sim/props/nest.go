package props

import (
	"bytes"
	"errors"
	"io"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
)

// nested has the sources, sinks and nodes of this run call the library themselves
// now and then while the library is using them: a source that decodes what it
// hands out, a destination that encodes an index, a node that is loaded when it
// is read.
func nested(s *core.Sim, g *model.Gen) {
	var hs []*held
	for len(hs) < 3 {
		o := g.Object()
		data := o.Bytes()
		if f, _ := o.Deviant(); f != "" || len(data) > 4000 {
			o = &model.Object{Type: "blob", Data: []byte("small")}
			data = o.Bytes()
		}
		h := &held{o: o, data: data, n: mustDecode(s, o, data)}
		h.text = Text(Basic(o.Expect(), InOrder))
		hs = append(hs, h)
	}
	s.Probe("nesting")
	s.Nest(1+s.Intn(24), func(r *core.RNG) {
		h := hs[r.Intn(len(hs))]
		var n datamodel.Node
		var err error
		var text string
		var out bytes.Buffer
		k := r.Intn(6)
		oc := s.Call(0, func() {
			switch k {
			case 0:
				n, err = ipldgit.ParseObject(bytes.NewReader(h.data))
			case 1:
				n, err = ipldgit.ParseCompressedObject(bytes.NewReader(zbytes(h.data, 0)))
			case 2:
				nb := Proto(h.o.Type, r.Intn(2) == 0).NewBuilder()
				if err = ipldgit.Decode(nb, bytes.NewReader(h.data)); err == nil {
					n = nb.Build()
				}
			case 3:
				n = h.n
			case 4: // one that fails
				if _, err = ipldgit.ParseObject(io.MultiReader(bytes.NewReader(h.data[:r.Intn(len(h.data))]), &privateFail{})); errors.Is(err, errPrivate) {
					n, err = h.n, nil
				} else if err == nil {
					err = errors.New("a failing source is not reported")
				}
			case 5:
				if err = ipldgit.Encode(h.n, &lowSink{room: r.Intn(len(h.data))}); err == nil {
					err = errors.New("a full destination is not reported")
				} else {
					n, err = h.n, nil
				}
			}
			if err == nil {
				text = Text(n)
				err = ipldgit.Encode(n, &out)
			}
		})
		if oc.Panic != nil || oc.OverRun || err != nil || text != h.text || !bytes.Equal(out.Bytes(), h.data) {
			s.Fail("nested", "a call (kind %d, a %s) made from within a reader, writer or node that another call uses: err %v panic %v\nread as %s\nwant    %s\nencodes as %s\nwant       %s", k, h.o.Type, err, oc.Panic, clip(text), clip(h.text), core.Q(out.Bytes()), core.Q(h.data))
		}
	})
}
