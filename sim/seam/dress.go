package seam

import (
	"bufio"
	"bytes"
	"io"
	"os"

	"verif.local/gitsim/core"
)

// The other interfaces a reader may offer besides Read; code that asks for them
// must behave as code that does not.
const (
	DressPlain    = iota
	DressBufio    // the caller's own buffered reader
	DressByte     // io.ByteScanner
	DressWriterTo // io.WriterTo
	DressBuffer   // *bytes.Buffer (only where nothing fails)
	DressReader   // *bytes.Reader, already read up to the object
	DressFile     // io.ReadSeeker and io.ReaderAt, the object not at its start
	DressLen      // has a Len, which tells what has arrived so far
	nDress
)

type byteSource struct {
	*Source
	last int // the last byte read, -1: none
	back bool
}

func (b *byteSource) Read(p []byte) (int, error) {
	if b.back && len(p) > 0 {
		b.back = false
		p[0] = byte(b.last)
		return 1, nil
	}
	n, err := b.Source.Read(p)
	if n > 0 {
		b.last = int(p[n-1])
	}
	return n, err
}

func (b *byteSource) ReadByte() (byte, error) {
	var p [1]byte
	for i := 0; i < 100; i++ {
		n, err := b.Read(p[:])
		if n == 1 { // an error that came with it is lasting
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (b *byteSource) UnreadByte() error {
	if b.last < 0 || b.back {
		return bufio.ErrInvalidUnreadByte
	}
	b.back = true
	return nil
}

type writerToSource struct{ *Source }

func (w writerToSource) WriteTo(dst io.Writer) (total int64, err error) {
	buf := make([]byte, 1024)
	for {
		n, err := w.Source.Read(buf)
		if n > 0 {
			m, werr := dst.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// fileSource is an open file that has been read up to where the object begins.
type fileSource struct {
	*Source
	before string // what precedes the object
	off    int    // position before the object; >= len(before): in it
}

func (f *fileSource) Read(p []byte) (int, error) {
	if f.off < len(f.before) {
		n := copy(p, f.before[f.off:])
		f.off += n
		return n, nil
	}
	return f.Source.Read(p)
}

func (f *fileSource) Seek(to int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		if f.off < len(f.before) {
			to += int64(f.off)
		} else {
			to += int64(len(f.before) + f.Source.pos)
		}
	case io.SeekEnd:
		to += int64(len(f.before) + len(f.Source.data))
	}
	if to < 0 {
		return 0, os.ErrInvalid
	}
	f.off = min(int(to), len(f.before))
	f.Source.pos = min(max(0, int(to)-len(f.before)), len(f.Source.data))
	return to, nil
}

func (f *fileSource) ReadAt(p []byte, at int64) (n int, err error) {
	off, pos := f.off, f.Source.pos
	defer func() { f.off, f.Source.pos = off, pos }()
	if _, err := f.Seek(at, io.SeekStart); err != nil {
		return 0, err
	}
	for empty := 0; n < len(p) && err == nil; {
		var m int
		m, err = f.Read(p[n:])
		n += m
		if m > 0 {
			empty = 0
		} else if empty++; empty > 4000 {
			err = io.ErrNoProgress
		}
	}
	if n == len(p) {
		err = nil
	}
	return n, err
}

// lenSource is a buffer that someone else still fills.
type lenSource struct{ *Source }

func (l lenSource) Len() int { return l.rng.Intn(len(l.data) - l.pos + 1) }

// Dressed is the source as the reader that its delivery asks for.
func (r *Source) Dressed() io.Reader {
	if r.D.Dress != DressPlain && r.FailN > 0 {
		// io.ReadFull drops an error that comes with the last byte it needs, and
		// without a buffer between them nobody keeps it.
		r.WithData = false
	}
	switch r.D.Dress {
	case DressBufio:
		return bufio.NewReaderSize(r, []int{4096, 16, 31, 64, 512, 65536}[r.rng.Intn(6)])
	case DressByte:
		return &byteSource{Source: r, last: -1}
	case DressWriterTo:
		return writerToSource{r}
	case DressLen:
		return lenSource{r}
	case DressFile:
		f := &fileSource{Source: r, before: "seen"}
		f.off = len(f.before)
		return f
	case DressBuffer:
		if r.FailAt < 0 && r.Stall < 0 {
			r.pos = len(r.data)
			b := bytes.NewBuffer(append([]byte("seen"), r.data...))
			b.Next(4)
			return b
		}
	case DressReader:
		if r.FailAt < 0 && r.Stall < 0 {
			r.pos = len(r.data)
			b := bytes.NewReader(append([]byte("seen"), r.data...))
			b.Seek(4, io.SeekStart)
			return b
		}
	}
	return r
}

func drawDress(c *core.Chooser) int {
	if c.Chance(2, 3) {
		return DressPlain
	}
	return 1 + c.Intn(nDress-1)
}

// DressSink offers more than Write, as files, buffers and sockets do. Whatever
// way the bytes come in, they fail alike.
type DressSink struct{ *Sink }

func (d DressSink) WriteString(x string) (int, error) { return d.Write([]byte(x)) }
func (d DressSink) WriteByte(b byte) error            { _, err := d.Write([]byte{b}); return err }
func (d DressSink) ReadFrom(r io.Reader) (total int64, err error) {
	buf := make([]byte, 700)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := d.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}
