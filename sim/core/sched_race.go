package core

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

// ld and st access the token. They are written in assembly, and the functions
// that tasks and scheduler share are not instrumented, so that handing the token
// from one task to the next does not order the tasks' memory accesses in the
// eyes of the race detector: only the synchronisation of the code under test
// does.
func ld(p *uint32) uint32
func st(p *uint32, v uint32)

// RunTasksUnordered is RunTasks for the race detector: the same seeded scheduler
// with a hand-over that the detector does not see.
//
//go:norace
func (s *Sim) RunTasksUnordered(qscale, maxSwitches int) {
	s.qscale = qscale
	s.unordered = true
	var wg sync.WaitGroup // orders every task before what follows, but no task before another
	for _, t := range s.tasks {
		wg.Add(1)
		go s.taskUnordered(t, &wg)
	}
	live := append([]*Task(nil), s.tasks...)
	last, switches, stuck := -1, 0, 0
	for len(live) > 0 {
		i := s.Intn(len(live))
		t := live[i]
		s.quantum = s.drawQuantum()
		s.qseq = 0
		s.Event("run %s", t.Name)
		if last >= 0 && last != t.ID {
			s.Stats["switches"]++
		}
		last = t.ID
		b := t.blocks
		s.give(t)
		s.Event("ran %s %d", t.Name, s.qseq)
		if t.crash != "" {
			if f := FirstFrame(t.crash); f != "" {
				if s.viol == nil {
					s.viol = &Violation{"panic", t.crash[:strings.IndexByte(t.crash, '\n')] + " at " + f}
				}
			} else {
				panic("simulator bug in task: " + t.crash)
			}
		}
		switch {
		case t.done:
			live = append(live[:i], live[i+1:]...)
			stuck = 0
		case t.blocks != b:
			stuck++
		default:
			stuck = 0
		}
		switches++
		if s.viol != nil || switches > maxSwitches || stuck > 2000 {
			if s.viol == nil && stuck > 2000 {
				s.viol = &Violation{"deadlock", "every task waits for a lock that none releases"}
			}
			s.dying, s.Capped = true, true
			for _, t := range live {
				for !t.done {
					s.give(t)
				}
			}
			break
		}
	}
	wg.Wait()
	s.tasks, s.unordered, s.dying = nil, false, false
	s.foldCounts()
}

//go:norace
func (s *Sim) give(t *Task) {
	s.cur = t
	st(&s.token, uint32(t.ID+1))
	for ld(&s.token) != 0 {
		runtime.Gosched()
	}
	s.cur = nil
}

//go:norace
func (s *Sim) taskUnordered(t *Task, wg *sync.WaitGroup) {
	defer wg.Done()
	t.g = getg()
	defer s.endUnordered(t)
	s.await(t)
	t.fn(t)
}

//go:norace
func (s *Sim) endUnordered(t *Task) {
	if r := recover(); r != nil {
		switch r.(type) {
		case abort, killed:
		default:
			t.crash = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}
	t.done = true
	st(&s.token, 0)
}

//go:norace
func (s *Sim) await(t *Task) {
	for ld(&s.token) != uint32(t.ID+1) {
		runtime.Gosched()
	}
	if s.dying {
		panic(killed{})
	}
}
