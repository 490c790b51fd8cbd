// Package seam holds the simulated ends of every interface through which the
// code under test meets the outside: byte sources, byte sinks, nodes being read
// and assemblers being filled.
package seam

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"

	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/schema"

	"verif.local/gitsim/core"
)

// ErrInjected is the identity of an injected failure; every kind wraps it.
var ErrInjected = errors.New("injected fault")

type fault struct {
	kind string
	also error
}

func (f *fault) Error() string { return "injected " + f.kind }
func (f *fault) Is(t error) bool {
	return t == ErrInjected || f.also != nil && errors.Is(f.also, t)
}
func (f *fault) As(t any) bool   { return f.also != nil && errors.As(f.also, t) }
func (f *fault) Timeout() bool   { return f.kind == "timeout" }
func (f *fault) Temporary() bool { return f.kind == "timeout" || f.kind == "eintr" }

// The kinds of error a source or sink meets in practice.
var errKinds = []*fault{
	{"eio", syscall.EIO},
	{"timeout", os.ErrDeadlineExceeded},
	{"eintr", syscall.EINTR},
	{"closed", io.ErrClosedPipe},
	{"reset", syscall.ECONNRESET},
	{"enospc", syscall.ENOSPC},
	{"canceled", context.Canceled},
	{"deadline", context.DeadlineExceeded},
	{"no-progress", io.ErrNoProgress},
	{"short-write", io.ErrShortWrite},
	{"buffer-full", bufio.ErrBufferFull},
	{"not-exist", fs.ErrNotExist},
	{"checksum", zlib.ErrChecksum},
}

// NewErr draws a fresh error value.
func NewErr(c *core.Chooser) error {
	k := errKinds[c.Intn(len(errKinds))]
	return &fault{k.kind, k.also}
}

// AbsentLike draws an error that wraps what a node says when it does not have
// something. From anything but a lookup it is a failure like any other: what was
// being read is there.
func AbsentLike(c *core.Chooser) error {
	return &fault{"absent-like", []error{
		datamodel.ErrNotExists{Segment: datamodel.PathSegmentOfString("x")},
		schema.ErrNoSuchField{Field: datamodel.PathSegmentOfString("x")},
		datamodel.ErrIteratorOverread{},
		io.EOF,
		datamodel.ErrWrongKind{TypeName: "x", MethodName: "x"},
	}[c.Intn(5)]}
}

// OddErr draws one of the bare errors of the standard library, which code may
// take for something it knows: mostly one that looks like an end of stream and is
// not, a connection cut short. (One that wraps io.EOF is not drawn for a source:
// io.Reader forbids it, and code that tests for the end with errors.Is is as right
// as code that uses ==.)
func OddErr(c *core.Chooser, sink bool) error {
	if sink {
		return []error{io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, syscall.EPIPE, os.ErrClosed, os.ErrDeadlineExceeded, syscall.EAGAIN, io.ErrNoProgress, context.Canceled}[c.Intn(10)]
	}
	return []error{io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer, os.ErrClosed, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, context.Canceled}[c.Weighted(8, 1, 1, 1, 1, 1, 1, 1, 1)]
}

// Reported tells whether err tells the caller about the injected failure inj.
func Reported(err, inj error) bool {
	if _, ok := inj.(*fault); ok {
		return errors.Is(err, ErrInjected)
	}
	return errors.Is(err, inj)
}

// ErrKind names the kind for statistics.
func ErrKind(err error) string {
	if f, ok := err.(*fault); ok {
		return f.kind
	}
	if err == io.ErrUnexpectedEOF {
		return "unexpected-eof"
	}
	return "bare"
}

// Delivery is how a source hands out its bytes.
type Delivery struct {
	Mode     int  // 0 all at once, 1 one byte at a time, 2 fixed size, 3 random sizes, 4 cut near Marks
	Size     int  // for mode 2, bound for mode 3
	EOFWith  bool // end of stream together with the last bytes
	Empty    int  // per cent of reads that return (0, nil)
	Scribble bool // overwrite the unused part of the read buffer
	Marks    []int
	Dress    int // what else the reader can do
}

// DrawDelivery draws a delivery. marks are offsets worth cutting at.
func DrawDelivery(c *core.Chooser, marks []int) Delivery {
	d := Delivery{Mode: c.Weighted(3, 2, 3, 4, 4), Marks: marks}
	d.Size = []int{7, 1, 2, 3, 13, 16, 19, 20, 21, 64, 100, 511, 512, 513, 1000, 4095, 4096, 4097, 8192, 32768}[c.Intn(20)]
	d.EOFWith = c.Chance(1, 3)
	if c.Chance(1, 4) {
		d.Empty = 5 + c.Intn(40)
	}
	d.Scribble = c.Chance(1, 3)
	d.Dress = drawDress(c)
	return d
}

func (d Delivery) String() string {
	return fmt.Sprintf("{mode %d size %d eofWith %v empty %d%% scribble %v dress %d}", d.Mode, d.Size, d.EOFWith, d.Empty, d.Scribble, d.Dress)
}

// Source is a simulated reader.
type Source struct {
	S    *core.Sim
	D    Delivery
	data []byte
	pos  int

	FailAt   int // deliver this many bytes, then fail with Err; -1: never
	Err      error
	FailN    int  // how many reads fail; <0: all later ones
	WithData bool // return the last bytes before the failure together with it
	Failed   int  // failures delivered
	Reads    int
	Stall    int // at this offset return (0,nil) many times, then time out; -1: never
	stalled  int
	emptyRun int
	rng      *core.RNG
	Quiet    bool
	Closed   bool
}

// NewSource makes a healthy source of data.
func NewSource(s *core.Sim, data []byte, d Delivery) *Source {
	return &Source{S: s, D: d, data: data, FailAt: -1, Stall: -1, rng: s.Sub()}
}

func (r *Source) chunk(max int) int {
	n := max
	switch r.D.Mode {
	case 1:
		n = 1
	case 2:
		n = r.D.Size
	case 3:
		n = 1 + r.rng.Intn(r.D.Size+1)
	case 4:
		// up to the next mark, or a few bytes around it
		for _, m := range r.D.Marks {
			m += r.rng.Intn(5) - 2
			if m > r.pos {
				n = m - r.pos
				break
			}
		}
		if r.rng.Intn(4) == 0 {
			n = 1 + r.rng.Intn(8)
		}
	}
	if n < 1 {
		n = 1
	}
	return min(n, max)
}

// Read implements io.Reader within the letter of its contract.
func (r *Source) Read(p []byte) (n int, err error) {
	r.S.Switch()
	r.Reads++
	if r.Reads > 1<<22 {
		r.S.Fail("read-loop", "the decoder keeps reading after %d reads (position %d of %d)", r.Reads, r.pos, len(r.data))
	}
	defer func() {
		if !r.Quiet {
			if err != nil {
				r.S.Event("read %d -> %d %v", len(p), n, err)
			} else {
				r.S.Event("read %d -> %d", len(p), n)
			}
		}
		if r.D.Scribble && n >= 0 {
			for i := n; i < len(p) && i < n+64; i++ {
				p[i] = byte(0xA5 ^ i)
			}
			if len(p) > n+64 {
				p[len(p)-1] = 0x5A
			}
		}
	}()
	if len(p) == 0 {
		return 0, nil
	}
	if r.Stall >= 0 && r.pos >= r.Stall {
		r.stalled++
		if r.stalled == 1 {
			r.S.Fault("stall")
		}
		if r.stalled > 3000 {
			return 0, &fault{"timeout", os.ErrDeadlineExceeded}
		}
		return 0, nil
	}
	if r.FailAt >= 0 && r.pos >= r.FailAt && r.FailN != 0 {
		r.Failed++
		r.FailN--
		r.S.Fault("read-error-" + ErrKind(r.Err))
		return 0, r.Err
	}
	if r.D.Empty > 0 && r.emptyRun < 20 && r.rng.Intn(100) < r.D.Empty {
		r.emptyRun++
		r.S.Stats["empty_reads"]++
		return 0, nil
	}
	r.emptyRun = 0
	rest := len(r.data) - r.pos
	if rest == 0 {
		return 0, io.EOF
	}
	lim := rest
	if r.FailAt >= 0 && r.FailN != 0 && r.FailAt > r.pos {
		lim = min(lim, r.FailAt-r.pos)
	}
	if r.Stall > r.pos {
		lim = min(lim, r.Stall-r.pos)
	}
	n = r.chunk(min(lim, len(p)))
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	r.S.Stats["reads"]++
	if r.pos < len(r.data) {
		r.S.Stats["partial_reads"]++
	}
	if r.FailAt >= 0 && r.pos == r.FailAt && r.FailN != 0 && r.WithData {
		r.Failed++
		if !r.bulk() {
			r.FailN--
		}
		r.S.Fault("read-error-with-data-" + ErrKind(r.Err))
		return n, r.Err
	}
	if r.pos == len(r.data) && r.D.EOFWith {
		return n, io.EOF
	}
	return n, nil
}

// bulk tells whether the source is in what a decoder may take in one go, a blob
// or a message. bufio.Reader.WriteTo, which io.Copy uses, loses an error that came
// with data unless the next read fails too; so there it does.
func (r *Source) bulk() bool {
	i := bytes.Index(r.data, []byte("\n\n"))
	if bytes.HasPrefix(r.data, []byte("blob ")) {
		i = bytes.IndexByte(r.data, 0)
	}
	return i >= 0 && r.pos > i
}

// Pos is how many bytes have been delivered.
func (r *Source) Pos() int { return r.pos }

func (r *Source) Close() error { r.Closed = true; return nil }

// Sink is a simulated writer.
type Sink struct {
	S      *core.Sim
	Got    []byte
	FailAt int // accept this many bytes, then fail; -1: never
	FailN  int // how many writes fail; <0: all
	Err    error
	Atomic bool // a failing write accepts nothing of its data
	Whole  bool // a failing write accepts all of its data
	Silent bool // a failing write says how much it accepted and nothing else
	Failed int
	Writes int
}

func NewSink(s *core.Sim) *Sink { return &Sink{S: s, FailAt: -1} }

func (w *Sink) Write(p []byte) (n int, err error) {
	w.S.Switch()
	w.Writes++
	defer func() { w.S.Event("write %d -> %d %v", len(p), n, err) }()
	if w.FailAt >= 0 && w.FailN != 0 && len(w.Got)+len(p) > w.FailAt {
		n = w.FailAt - len(w.Got)
		switch {
		case w.Whole:
			n = len(p)
		case w.Atomic || n < 0:
			n = 0
		}
		w.Got = append(w.Got, p[:n]...)
		w.Failed++
		w.FailN--
		if w.Silent {
			w.S.Fault("silent-short-write")
			return n, nil
		}
		if n == len(p) {
			w.S.Fault("late-write-error-" + ErrKind(w.Err))
		} else if n > 0 {
			w.S.Fault("short-write-" + ErrKind(w.Err))
		} else {
			w.S.Fault("write-error-" + ErrKind(w.Err))
		}
		return n, w.Err
	}
	w.Got = append(w.Got, p...)
	return len(p), nil
}
