package vk

import (
	"crypto/rand"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Switch is one forced preemption: thread T is interrupted at its At-th point.
type Switch struct{ T, At int }

// Sched runs two threads under a fixed schedule. Control is handed over only at points
// (Point is called before every statement of the instrumented code and at ideal-group
// operations), at the end of a thread, or when the running thread blocks.
type Sched struct {
	First  int
	Sw     []Switch
	Count  [2]int
	Free   bool // the schedule was given up because the running thread blocked
	ch     [2]chan struct{}
	freeCh chan struct{}
	free   atomic.Bool
	prog   atomic.Int64
	cur    atomic.Int64
	gid    [2]atomic.Int64
	done   [2]atomic.Bool
	nsw    int
	str    [2]*Stream
	base   int // goroutines while both threads exist
}

// Gid is the id of the calling goroutine.
func Gid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := strings.TrimPrefix(string(b[:n]), "goroutine ")
	if i := strings.IndexByte(s, ' '); i > 0 {
		s = s[:i]
	}
	id, _ := strconv.ParseInt(s, 10, 64)
	return id
}

func (s *Sched) who() int {
	// Only the current thread runs, unless the code under test starts goroutines.
	n := s.base
	for t := range s.done {
		if s.done[t].Load() {
			n--
		}
	}
	if !s.free.Load() && runtime.NumGoroutine() == n {
		return int(s.cur.Load())
	}
	id := Gid()
	for t := range s.gid {
		if s.gid[t].Load() == id {
			return t
		}
	}
	return -1
}

// Point is the scheduling point.
func (s *Sched) Point() {
	if s.free.Load() {
		return
	}
	t := s.who()
	if t < 0 { // a goroutine started by the code under test
		return
	}
	s.prog.Add(1)
	i := s.Count[t]
	s.Count[t]++
	if s.nsw < len(s.Sw) && s.Sw[s.nsw].T == t && s.Sw[s.nsw].At == i && !s.done[1-t].Load() {
		s.nsw++
		s.cur.Store(int64(1 - t))
		s.ch[1-t] <- struct{}{}
		s.wait(t)
	}
}

func (s *Sched) wait(t int) {
	select {
	case <-s.ch[t]:
	case <-s.freeCh:
	}
}

// Read is the randomness: every thread has its own stream.
func (s *Sched) Read(p []byte) (int, error) {
	t := s.who()
	if t < 0 {
		t = int(s.cur.Load())
	}
	return s.str[t].Read(p)
}

// ErrStuck is returned when the threads do not finish even without the schedule.
var ErrStuck = Errf("threads block each other")

// Run executes the two threads; seeds give their randomness.
func (s *Sched) Run(seeds [2]uint64, f [2]func()) error {
	s.freeCh = make(chan struct{})
	fin := make(chan int, 2)
	for t := range f {
		s.ch[t] = make(chan struct{}, 1)
		s.str[t] = NewStream(seeds[t])
	}
	old := rand.Reader
	rand.Reader = s
	defer func() { rand.Reader = old }()
	ready := make(chan struct{}, 2)
	for t := range f {
		go func(t int) {
			s.gid[t].Store(Gid())
			ready <- struct{}{}
			s.wait(t)
			f[t]()
			s.gid[t].Store(-1)
			s.done[t].Store(true)
			s.prog.Add(1)
			if !s.done[1-t].Load() {
				s.cur.Store(int64(1 - t))
				select {
				case s.ch[1-t] <- struct{}{}:
				default:
				}
			}
			fin <- t
		}(t)
	}
	<-ready
	<-ready
	s.base = runtime.NumGoroutine()
	s.cur.Store(int64(s.First))
	s.ch[s.First] <- struct{}{}
	left, last, still := 2, int64(-1), 0
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for left > 0 {
		select {
		case <-fin:
			left--
		case <-tick.C:
			if p := s.prog.Load(); p != last {
				last, still = p, 0
				continue
			}
			still++
			if still >= 3 && !s.free.Load() {
				s.Free = true
				s.free.Store(true)
				close(s.freeCh)
			}
			if still > 600 {
				return ErrStuck
			}
		}
	}
	return nil
}
