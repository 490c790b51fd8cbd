package core

import "container/heap"

type event struct {
	at  int64
	seq uint64
	f   func()
}
type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// After schedules f in d simulated nanoseconds.
func (s *Sim) After(d int64, f func()) {
	s.seq++
	heap.Push(&s.q, event{s.Now + d, s.seq, f})
}

// RunEvents processes events in time order until none is left, the time limit
// is reached, or stop says so. It returns the number processed.
func (s *Sim) RunEvents(until int64, maxEvents int, stop func() bool) int {
	n := 0
	for len(s.q) > 0 && n < maxEvents {
		if s.q[0].at > until {
			s.Now = until
			break
		}
		ev := heap.Pop(&s.q).(event)
		s.Now = ev.at
		ev.f()
		n++
		if stop != nil && stop() {
			break
		}
	}
	return n
}
