package core

import (
	"fmt"
	"runtime/debug"
	"strings"
)

// Task is a simulated thread: a goroutine that runs only while it holds the
// scheduler's token.
type Task struct {
	ID     int
	Name   string
	g      uintptr
	resume chan bool
	done   bool
	blocks int
	fn     func(*Task)
	crash  string

	nesting bool
}

// Go adds a task; RunTasks starts it.
func (s *Sim) Go(name string, fn func(*Task)) *Task {
	t := &Task{ID: len(s.tasks), Name: name, resume: make(chan bool), fn: fn}
	s.tasks = append(s.tasks, t)
	return t
}

// Current is the task holding the token, if any.
func (s *Sim) Current() *Task { return s.cur }

// RunTasks runs all tasks to completion under the seeded scheduler. qscale is
// the typical number of statements between preemptions.
func (s *Sim) RunTasks(qscale int, maxSwitches int) {
	s.schedCh = make(chan *Task)
	s.qscale = qscale
	for _, t := range s.tasks {
		go func() {
			t.g = getg()
			if !<-t.resume {
				t.done = true
				s.schedCh <- t
				return
			}
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case abort, killed:
					default:
						t.crash = fmt.Sprintf("%v\n%s", r, debug.Stack())
					}
				}
				t.done = true
				s.schedCh <- t
			}()
			t.fn(t)
		}()
	}
	live := append([]*Task(nil), s.tasks...)
	switches := 0
	last := -1
	stuck := 0
	for len(live) > 0 {
		i := s.Intn(len(live))
		t := live[i]
		s.quantum = s.drawQuantum()
		s.qseq = 0
		s.Event("run %s", t.Name)
		if last >= 0 && last != t.ID {
			s.Stats["switches"]++
		}
		last = t.ID
		s.cur = t
		b := t.blocks
		t.resume <- true
		<-s.schedCh
		s.cur = nil
		s.Event("ran %s %d", t.Name, s.qseq)
		if t.crash != "" {
			if f := FirstFrame(t.crash); f != "" && s.viol == nil {
				s.viol = &Violation{"panic", t.crash[:strings.IndexByte(t.crash, '\n')] + " at " + f}
			} else {
				panic("simulator bug in task: " + t.crash)
			}
		}
		if t.done {
			live = append(live[:i], live[i+1:]...)
			stuck = 0
		} else if t.blocks != b {
			stuck++
		} else {
			stuck = 0
		}
		switches++
		if s.viol != nil || switches > maxSwitches || stuck > 2000 {
			if s.viol == nil {
				if stuck > 2000 {
					s.viol = &Violation{"deadlock", "every task waits for a lock that none releases"}
				} else {
					s.Stats["probe:switch-cap"]++
				}
			}
			s.killAll(live)
			break
		}
	}
	s.tasks = nil
	s.foldCounts()
}

func (s *Sim) foldCounts() {
	s.Stats["preemptions"] += s.preempts
	s.Stats["io_switches"] += s.ioSwitches
	s.preempts, s.ioSwitches = 0, 0
}

type killed struct{}

func (s *Sim) killAll(live []*Task) {
	for _, t := range live {
		s.cur = t
		t.resume <- false
		<-s.schedCh
		for !t.done { // a recover() in the code under test may swallow the kill
			t.resume <- false
			<-s.schedCh
		}
	}
	s.cur = nil
}

func (s *Sim) drawQuantum() int {
	switch s.Weighted(4, 4, 2, 1) {
	case 0:
		return 1 << 30 // until it blocks or ends
	case 1:
		return 1 + s.Intn(s.qscale)
	case 2:
		return 1 + s.Intn(8)
	}
	return 1 + s.Intn(8*s.qscale)
}

// yieldPoint is called at every statement of the code under test.
//
//go:norace
func (s *Sim) yieldPoint() {
	t := s.cur
	if t == nil || getg() != t.g {
		return
	}
	s.Steps++
	s.qseq++
	s.quantum--
	if s.quantum > 0 {
		return
	}
	s.preempts++
	s.park(t)
}

//go:norace
func (s *Sim) park(t *Task) {
	if s.unordered {
		st(&s.token, 0)
		s.await(t)
		return
	}
	s.schedCh <- t
	if !<-t.resume {
		panic(killed{})
	}
}

// Switch gives up the token at an I/O point, if in a task.
//
//go:norace
func (s *Sim) Switch() {
	t := s.cur
	if t == nil {
		if s.nest != nil && getg() == s.g {
			s.maybeNest(&s.nesting)
		}
		return
	}
	if getg() != t.g {
		return
	}
	s.ioSwitches++
	s.park(t)
	if s.nest != nil {
		s.maybeNest(&t.nesting)
	}
}

//go:norace
func (s *Sim) block() bool {
	t := s.cur
	if t == nil || getg() != t.g {
		return false
	}
	t.blocks++
	s.park(t)
	return true
}
