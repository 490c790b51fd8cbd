package core

import (
	"encoding/hex"
	"fmt"
	"runtime/debug"
	"strings"
	"time"

	"verif.local/gitsim/simhook"
)

// Violation is a property found broken in a run.
type Violation struct {
	Class  string // stable name of what was broken, used while minimising
	Detail string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Detail }

// abort unwinds a run.
type abort struct{ v *Violation }

// Sim is one simulated run.
type Sim struct {
	*Chooser
	Keep  bool // keep the text of the event log, not just its hash
	Log   []string
	hash  uint64
	Evts  uint64
	Now   int64 // simulated nanoseconds
	Stats map[string]int64
	viol  *Violation

	Steps     uint64 // statements of the code under test executed
	Work      uint64 // bytes and elements that counted library calls went over
	stepLimit uint64
	evtLimit  uint64 // events; a loop around reads or writes runs few statements

	depthLimit uintptr // stack bytes; 0: not watched
	MaxDepth   uintptr

	tasks   []*Task
	cur     *Task
	schedCh chan *Task
	quantum int
	qscale  int
	qseq    uint64
	g       uintptr // the goroutine of the run

	preempts, ioSwitches int64 // counted by tasks, folded into Stats afterwards

	Capped           bool // RunTasksUnordered was cut short
	unordered, dying bool
	token            uint32 // the task to run, plus one; 0: the scheduler

	waitStep uint64
	waitFrom time.Time

	nest    func(*RNG) // what sources, sinks and nodes do of their own accord now and then
	nestRng *RNG
	nestN   int
	nestOne int // at one in so many accesses
	nesting bool

	q   eventHeap
	seq uint64
}

func NewSim(c *Chooser, keep bool) *Sim {
	return &Sim{Chooser: c, Keep: keep, hash: 14695981039346656037, Stats: map[string]int64{}}
}

// Event appends to the run's event log. It never draws a choice.
func (s *Sim) Event(format string, args ...any) {
	s.Evts++
	if s.evtLimit != 0 && s.Evts > s.evtLimit && s.cur == nil && getg() == s.g {
		s.evtLimit = 0
		panic(stepPanic{})
	}
	line := fmt.Sprintf(format, args...)
	h := s.hash
	for i := 0; i < len(line); i++ {
		h = (h ^ uint64(line[i])) * 1099511628211
	}
	s.hash = (h ^ '\n') * 1099511628211
	if s.Keep {
		if s.q != nil || s.Now != 0 {
			line = fmt.Sprintf("[%d.%06ds] %s", s.Now/1e9, s.Now%1e9/1000, line)
		}
		if len(s.Log) < 20000 {
			s.Log = append(s.Log, line)
		}
	}
}

// LogHash is the hash of the event log so far.
func (s *Sim) LogHash() uint64 { return s.hash }

// Fault counts an injected fault that actually took effect.
func (s *Sim) Fault(kind string) { s.Stats["fault:"+kind]++ }

// Probe counts a condition that the workload is meant to reach.
func (s *Sim) Probe(name string) { s.Stats["probe:"+name]++ }

// Fail records a violation and ends the run (or the task that calls it).
func (s *Sim) Fail(class, format string, args ...any) {
	v := &Violation{class, fmt.Sprintf(format, args...)}
	if s.viol == nil {
		s.viol = v
		s.Event("VIOLATION %s", v.Error())
	}
	panic(abort{v})
}

// Run executes the scenario and returns the violation it found, if any.
func Run(s *Sim, scenario func(*Sim)) (v *Violation) {
	defer func() {
		simhook.Hook, simhook.BlockHook, simhook.ChooseHook, simhook.WorkHook = nil, nil, nil, nil
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				v = a.v
				return
			}
			st := string(debug.Stack())
			if f := FirstFrame(st); f != "" { // a panic of the code under test
				v = &Violation{"panic", fmt.Sprintf("%v at %s", r, f)}
				return
			}
			panic(fmt.Sprintf("simulator bug: %v\n%s", r, st))
		}
		if s.viol != nil {
			v = s.viol
		}
	}()
	s.g = getg()
	simhook.Hook = s.hook
	simhook.BlockHook = s.blockHook
	simhook.ChooseHook = s.chooseHook
	simhook.WorkHook = s.workHook
	scenario(s)
	return s.viol
}

//go:norace
func (s *Sim) hook(uint32) {
	if s.cur != nil {
		s.yieldPoint()
		return
	}
	if getg() != s.g {
		return
	}
	s.Steps++
	if s.depthLimit != 0 {
		if d := stackDepth(s.g); d > s.MaxDepth {
			s.MaxDepth = d
			if d > s.depthLimit {
				s.depthLimit = 0
				panic(depthPanic{})
			}
		}
	}
	if s.stepLimit != 0 && s.Steps > s.stepLimit {
		s.stepLimit = 0
		panic(stepPanic{})
	}
}

// workHook counts what standard library functions go over.
//
//go:norace
func (s *Sim) workHook(n int) {
	if s.cur == nil && getg() == s.g {
		s.Work += uint64(n)
	}
}

//go:norace
func (s *Sim) blockHook() bool {
	if s.cur == nil {
		if s.stepLimit != 0 && getg() == s.g {
			s.waiting()
		}
		return false
	}
	return s.block()
}

// waiting is called while the only thread waits for a lock. Something the code
// under test has started may release it; if nothing does for long, nothing will.
func (s *Sim) waiting() {
	if now := time.Now(); s.waitStep != s.Steps+1 {
		s.waitStep, s.waitFrom = s.Steps+1, now
	} else if now.Sub(s.waitFrom) > 5*time.Second {
		s.waitStep = 0
		panic(stepPanic{})
	}
}

//go:norace
func (s *Sim) chooseHook(n int) int {
	if s.unordered {
		return 0
	}
	g := s.g
	if s.cur != nil {
		g = s.cur.g
	}
	if getg() != g {
		return 0
	}
	return s.Intn(n)
}

type stepPanic struct{}
type depthPanic struct{}

// WatchDepth bounds the stack that later calls may use, in bytes (0: stop).
func (s *Sim) WatchDepth(limit uintptr) {
	s.MaxDepth = 0
	if limit != 0 {
		limit += stackDepth(getg())
	}
	s.depthLimit = limit
}

// Nest makes the seams that the library reads and writes through call f now and
// then, as a source that is itself computed, a sink that encodes, or a lazily
// loaded node does.
func (s *Sim) Nest(oneIn int, f func(*RNG)) {
	s.nest, s.nestOne, s.nestRng = f, oneIn, s.Sub()
}

// maybeNest is called at every access through a seam. It does not nest twice.
func (s *Sim) maybeNest(nesting *bool) {
	if s.nest == nil || *nesting || s.nestN >= 60 || s.nestRng.Intn(s.nestOne) != 0 {
		return
	}
	*nesting = true
	s.nestN++
	s.Stats["nested_calls"]++
	s.Event("nested:")
	s.nest(s.nestRng)
	s.Event("nested end")
	*nesting = false
}

// Outcome of a call into the code under test.
type Outcome struct {
	Panic   any
	Stack   string
	OverRun bool // exceeded its step budget
	TooDeep bool // exceeded its stack budget
	Steps   uint64
}

// Call runs f, which calls the code under test, catching panics and bounding
// the statements it executes (0: a large default).
func (s *Sim) Call(limit uint64, f func()) (o Outcome) {
	if limit == 0 {
		limit = 200e6
	}
	start := s.Steps
	if s.cur == nil {
		sl, el := s.stepLimit, s.evtLimit
		defer func() { s.stepLimit, s.evtLimit = sl, el }()
		s.stepLimit = s.Steps + limit
		s.evtLimit = s.Evts + 10e6
	}
	defer func() {
		o.Steps = s.Steps - start
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abort, killed:
				panic(r)
			case stepPanic:
				o.OverRun = true
			case depthPanic:
				o.TooDeep = true
			default:
				o.Panic = r
				o.Stack = string(debug.Stack())
			}
		}
	}()
	f()
	return
}

// Q abbreviates bytes for messages.
func Q(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q...(%d bytes)...%q", b[:100], len(b), b[len(b)-40:])
	}
	return fmt.Sprintf("%q", b)
}

// Hex abbreviates binary data.
func Hex(b []byte) string { return hex.EncodeToString(b) }

// FirstDiff describes where two byte strings part.
func FirstDiff(got, want []byte) string {
	n := min(len(got), len(want))
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	if i == n && len(got) == len(want) {
		return "equal"
	}
	lo := max(0, i-24)
	return fmt.Sprintf("first difference at byte %d (got %d bytes, want %d): got %q want %q", i, len(got), len(want),
		got[lo:min(len(got), i+24)], want[lo:min(len(want), i+24)])
}

// FirstFrame picks the first stack line inside the code under test.
func FirstFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "go-ipld-git.") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}
