package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	ipldgit "github.com/ipfs/go-ipld-git"
	"github.com/ipld/go-ipld-prime/datamodel"

	"verif.local/gitsim/core"
	"verif.local/gitsim/model"
)

// age puts the library through the work of a long-lived process: a great many
// small objects, all different or drawn from few, decoded and encoded; and, in
// some processes, a share of them cut short or encoded into a sink that fails.
// Whatever the library keeps from call to call (caches, pools, arenas, counters)
// has been filled, wrapped and evicted afterwards.
func age(s *core.Sim, g *model.Gen) {
	n := 1 << s.Intn(13)
	if k, ok := g.Near(8192); ok && s.Chance(1, 3) {
		n = k + 1
	}
	variety := uint64(1) << (2 * s.Intn(8)) // how many different ids and names there are
	kind := s.Intn(5)                       // one kind of object, or all
	failing := s.Intn(3)                    // out of 3
	links := 1 + s.Intn(12)
	where := s.Intn(3) // where the failures are: in the first bytes, at the very start, anywhere
	r := s.Sub()
	s.Event("aging: %d objects of kind %d, variety %d, %d links each, %d of 3 fail (%d)", n, kind, variety, links, failing, where)
	s.Probe("aged")
	s.Stats["aging_objects"] += int64(n)
	var body, data []byte
	for i := 0; i < n; i++ {
		id := func() []byte {
			x := core.NewRNG(r.Uint64() % variety)
			b := make([]byte, 20)
			for j := range b {
				b[j] = byte(x.Uint64())
			}
			return b
		}
		word := func() string { return fmt.Sprintf("n%x", r.Uint64()%variety) }
		person := func() string {
			return fmt.Sprintf("%s <%s@x> %d +%02d00", word(), word(), r.Uint64()%variety, r.Uint64()%12)
		}
		body = body[:0]
		k := kind
		if k == 4 {
			k = i % 4
		}
		switch k {
		case 0:
			for j := 0; j < links; j++ {
				body = append(fmt.Appendf(body, "100644 %d%s\x00", j, word()), id()...)
			}
		case 1:
			body = fmt.Appendf(body, "tree %x\n", id())
			for j := 1; j < links; j++ {
				body = fmt.Appendf(body, "parent %x\n", id())
			}
			body = fmt.Appendf(body, "author %s\ncommitter %s\n", person(), person())
			if i%2 == 1 {
				body = fmt.Appendf(body, "encoding %s\n", word())
			}
			body = fmt.Appendf(body, "\n%s\n", word())
		case 2:
			body = fmt.Appendf(body, "object %x\ntype commit\ntag %s\ntagger %s\n\n%s\n", id(), word(), person(), word())
		case 3:
			body = append(body, bytes.Repeat([]byte(word()), links*links)...)
		}
		data = append(fmt.Appendf(data[:0], "%s %d\x00", [...]string{"tree", "commit", "tag", "blob"}[k], len(body)), body...)
		fails := int(r.Uint64()%3) < failing
		in := data
		if fails && i%2 == 0 {
			in = data[:int(r.Uint64()%uint64([]int{12, 1, len(data)}[where]))%len(data)]
			var src io.Reader = bytes.NewReader(in)
			want := error(nil)
			if i%4 == 0 {
				src, want = io.MultiReader(src, &privateFail{}), errPrivate
			}
			var err error
			oc := s.Call(0, func() {
				if i%8 < 4 {
					_, err = ipldgit.ParseObject(src)
				} else {
					err = ipldgit.Decode(Proto([...]string{"tree", "commit", "tag", "blob"}[k], true).NewBuilder(), src)
				}
			})
			if oc.Panic != nil || err == nil || want != nil && !errors.Is(err, want) {
				s.Fail("aged", "object %d of a long history, cut to %d of %d bytes: err %v panic %v\nobject: %s", i, len(in), len(data), err, oc.Panic, core.Q(data))
			}
			continue
		}
		var nd datamodel.Node
		var err error
		var out bytes.Buffer
		oc := s.Call(0, func() {
			switch i % 3 {
			case 0:
				nd, err = ipldgit.ParseObjectFromBuffer(in)
			case 1:
				nd, err = ipldgit.ParseObject(bytes.NewReader(in))
			case 2:
				nb := Proto([...]string{"tree", "commit", "tag", "blob"}[k], i%2 == 0).NewBuilder()
				if err = ipldgit.Decode(nb, bytes.NewReader(in)); err == nil {
					nd = nb.Build()
				}
			}
			if err != nil {
				return
			}
			if fails {
				if e := ipldgit.Encode(nd, &lowSink{room: int(r.Uint64()%uint64([]int{12, 1, len(data)}[where])) % len(data)}); e == nil {
					err = fmt.Errorf("encoding into a full sink succeeds")
				}
				return
			}
			err = ipldgit.Encode(nd, &out)
		})
		if oc.Panic != nil || err != nil {
			s.Fail("aged", "object %d of a long history: err %v panic %v\nobject: %s", i, err, oc.Panic, core.Q(data))
		}
		if !fails && !bytes.Equal(out.Bytes(), data) {
			s.Fail("aged", "object %d of a long history comes back different: %s\nobject: %s", i, core.FirstDiff(out.Bytes(), data), core.Q(data))
		}
	}
}

// privateFail fails.
type privateFail struct{}

func (*privateFail) Read([]byte) (int, error) { return 0, errPrivate }

// lowSink is full after room bytes.
type lowSink struct{ room int }

func (l *lowSink) Write(p []byte) (int, error) {
	if len(p) > l.room {
		n := l.room
		l.room = 0
		return n, io.ErrShortWrite
	}
	l.room -= len(p)
	return len(p), nil
}
