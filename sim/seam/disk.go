package seam

import (
	"errors"
	"fmt"
	"os"
	"sort"

	"verif.local/gitsim/core"
)

// Disk is a simulated disk with a page cache: what has not been synced may be
// lost, in part or whole, in a crash; renames need a directory sync to be
// durable.
type Disk struct {
	S     *core.Sim
	Name  string
	files map[string]*inode // the directory as running programs see it
	dur   map[string]*inode // the directory as it would be after a crash
	n     int

	Free int // bytes left before ENOSPC; <0: plenty
}

type inode struct {
	data   []byte
	synced int  // the first so many bytes are on the platter
	rotten bool // damaged since it was written
}

func NewDisk(s *core.Sim, name string) *Disk {
	return &Disk{S: s, Name: name, files: map[string]*inode{}, dur: map[string]*inode{}, Free: -1}
}

// WriteFaults says how the next file's writes, sync and rename fail.
type WriteFaults struct {
	FailAt int // after so many bytes; -1: not
	Atomic bool
	Sync   bool
	Rename bool
	DirSy  bool
	Err    error
	Hit    bool
}

// File is a file being written.
type File struct {
	d    *Disk
	name string
	ino  *inode
	F    WriteFaults
}

func (d *Disk) Create(f WriteFaults) *File {
	d.n++
	name := fmt.Sprintf("tmp%d", d.n)
	ino := &inode{}
	d.files[name] = ino
	d.S.Event("%s: create %s", d.Name, name)
	return &File{d: d, name: name, ino: ino, F: f}
}

func (f *File) Write(p []byte) (n int, err error) {
	f.d.S.Switch()
	n = len(p)
	if f.F.FailAt >= 0 && len(f.ino.data)+n > f.F.FailAt {
		n = max(0, f.F.FailAt-len(f.ino.data))
		if f.F.Atomic {
			n = 0
		}
		err = f.F.Err
		f.F.Hit = true
		f.d.S.Fault("disk-write-" + ErrKind(err))
	} else if f.d.Free >= 0 && n > f.d.Free {
		n = f.d.Free
		err = &fault{"enospc", errKinds[5].also}
		f.F.Hit = true
		f.d.S.Fault("disk-full")
	}
	f.ino.data = append(f.ino.data, p[:n]...)
	if f.d.Free >= 0 {
		f.d.Free -= n
	}
	f.d.S.Event("%s: write %s %d -> %d %v", f.d.Name, f.name, len(p), n, err)
	return n, err
}

// Len is how much has been written.
func (f *File) Len() int      { return len(f.ino.data) }
func (f *File) Bytes() []byte { return f.ino.data }

func (f *File) Sync() error {
	if f.F.Sync {
		f.F.Hit = true
		f.d.S.Fault("disk-fsync")
		return f.F.Err
	}
	f.ino.synced = len(f.ino.data)
	return nil
}

// Rename moves the file to its final name, atomically for running programs.
func (f *File) Rename(to string) error {
	if f.F.Rename {
		f.F.Hit = true
		f.d.S.Fault("disk-rename")
		return f.F.Err
	}
	f.d.files[to] = f.ino
	delete(f.d.files, f.name)
	f.name = to
	f.d.S.Event("%s: rename to %s", f.d.Name, to)
	return nil
}

// SyncDir makes all names durable.
func (f *File) SyncDir() error {
	if f.F.DirSy {
		f.F.Hit = true
		f.d.S.Fault("disk-dirsync")
		return f.F.Err
	}
	f.d.dur = map[string]*inode{}
	for k, v := range f.d.files {
		f.d.dur[k] = v
	}
	return nil
}

// ErrNotFound: no such file.
var ErrNotFound = errors.New("no such object")

// Open returns a source over a file's content.
func (d *Disk) Open(name string, del Delivery) (*Source, error) {
	ino := d.files[name]
	if ino == nil {
		return nil, fmt.Errorf("%w: %w: %s", ErrNotFound, os.ErrNotExist, name)
	}
	return NewSource(d.S, append([]byte(nil), ino.data...), del), nil
}

// Get is the current content, for the oracle.
func (d *Disk) Get(name string) ([]byte, bool) {
	ino := d.files[name]
	if ino == nil {
		return nil, false
	}
	return ino.data, true
}

// Put places a durable file, bypassing everything (initial content).
func (d *Disk) Put(name string, data []byte) {
	ino := &inode{data: append([]byte(nil), data...), synced: len(data)}
	d.files[name] = ino
	d.dur[name] = ino
}

func (d *Disk) Remove(name string) {
	delete(d.files, name)
	delete(d.dur, name)
}

// Names lists the files in order.
func (d *Disk) Names() []string {
	var out []string
	for k := range d.files {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Crash loses what was not durable. onlyPrefix restricts tearing to lost tails.
func (d *Disk) Crash(onlyPrefix bool) {
	d.S.Fault("crash")
	d.S.Event("%s: crash", d.Name)
	names := map[string]bool{}
	for k := range d.files {
		names[k] = true
	}
	for k := range d.dur {
		names[k] = true
	}
	var keys []string
	for k := range names {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	next := map[string]*inode{}
	for _, k := range keys {
		a, b := d.dur[k], d.files[k]
		ino := a
		if a != b {
			// The rename may or may not have reached the disk.
			if d.S.Chance(1, 2) {
				ino = b
			}
		}
		if ino == nil {
			d.S.Event("%s: %s is gone", d.Name, k)
			continue
		}
		if ino.synced < len(ino.data) {
			d.tear(k, ino, onlyPrefix)
		}
		ino.synced = len(ino.data)
		next[k] = ino
	}
	d.files = next
	d.dur = map[string]*inode{}
	for k, v := range next {
		d.dur[k] = v
	}
}

func (d *Disk) tear(name string, ino *inode, onlyPrefix bool) {
	n := len(ino.data) - ino.synced
	kinds := 4
	if onlyPrefix {
		kinds = 3
	}
	switch d.S.Intn(kinds) {
	case 0: // everything made it
	case 1: // nothing did
		ino.data = ino.data[:ino.synced]
		ino.rotten = true
		d.S.Fault("lost-write")
	case 2: // a prefix did
		ino.data = ino.data[:ino.synced+d.S.Intn(n)]
		ino.rotten = true
		d.S.Fault("torn-write")
	case 3: // the length is right, the tail is zeros
		at := ino.synced + d.S.Intn(n)
		x := append([]byte(nil), ino.data...)
		clear(x[at:])
		ino.data = x
		ino.rotten = true
		d.S.Fault("zeroed-tail")
	}
	d.S.Event("%s: %s torn to %d bytes", d.Name, name, len(ino.data))
}

// Rot damages a file. onlyPrefix: by losing its tail.
func (d *Disk) Rot(name string, onlyPrefix bool) {
	ino := d.files[name]
	if ino == nil {
		return
	}
	x := Damage(d.S, ino.data, onlyPrefix)
	d.S.Event("%s: %s rots", d.Name, name)
	ino.data, ino.rotten, ino.synced = x, true, len(x)
}

// Damage draws a corruption of b, always different from b unless b is empty.
func Damage(s *core.Sim, b []byte, onlyPrefix bool) []byte {
	x := append([]byte(nil), b...)
	if len(x) == 0 {
		if onlyPrefix {
			return x
		}
		return []byte{0}
	}
	k := 1
	if !onlyPrefix {
		k = s.Intn(7)
	}
	at := s.Intn(len(x))
	switch k {
	case 0:
		x[at] ^= 1 << s.Intn(8)
		s.Fault("bit-flip")
	case 1:
		x = x[:at]
		s.Fault("truncation")
	case 2:
		n := 1 + s.Intn(len(x)-at)
		same := true
		for i := at; i < at+n; i++ {
			same = same && x[i] == 0
			x[i] = 0
		}
		if same {
			x[at] = 0xff
		}
		s.Fault("zeroed-range")
	case 3:
		n := 1 + s.Intn(min(40, len(x)-at))
		y := append([]byte(nil), x[:at+n]...)
		y = append(y, x[at:]...)
		x = y
		s.Fault("repeated-range")
	case 4:
		n := 1 + s.Intn(min(40, len(x)-at))
		x = append(x[:at:at], x[at+n:]...)
		s.Fault("lost-range")
	case 5:
		x = append(x, b[:1+s.Intn(len(b))]...)
		s.Fault("surplus")
	case 6:
		r := s.Sub()
		n := 1 + s.Intn(min(600, len(x)-at))
		for i := at; i < at+n; i++ {
			x[i] = byte(r.Uint64())
		}
		if string(x) == string(b) {
			x[at] ^= 1
		}
		s.Fault("scrambled-range")
	}
	if string(x) == string(b) { // a repeated pattern
		x[at%len(x)] ^= 0x10
	}
	return x
}
