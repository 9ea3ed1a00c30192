package main

import (
	"runtime/debug"

	"github.com/bluenviron/mediacommon/v2/verifhook"
)

// Simulated threads: goroutines of which exactly one is runnable at any time.
// The instrumented statement counter is the preemption point, and which thread
// goes on is drawn from the choice source.

type simThread struct {
	id    int
	wake  chan struct{}
	done  bool
	viol  *Violation
	disc  bool
	steps uint64
}

type scheduler struct {
	e        *Env
	ths      []*simThread
	cur      *simThread
	finished chan struct{}
	mean     int
	budget   int
	switches int
	// other and flip: mean changes to other, and back, once every flip times
	other, flip int
	// lockstep, when not zero, makes the threads advance by that number of statements in turn;
	// the first coarse times they advance by 64 statements. With stagger, they are not abreast afterwards.
	lockstep, coarse int
	stagger          bool
	// global, when not zero, is how many times more a switch is made shortly after the use of a package-level variable
	global int
}

func (s *scheduler) arm() {
	if s.budget <= 0 {
		verifhook.Countdown = 0
		return
	}
	s.budget--
	if s.lockstep > 0 {
		verifhook.Countdown = int64(s.lockstep)
		if s.coarse > 0 {
			s.coarse--
			s.budget++
			verifhook.Countdown = 64
			if s.stagger && s.coarse < len(s.ths) {
				verifhook.Countdown = 1 + int64(s.e.N(300))
			}
		}
		return
	}
	if s.flip > 0 && s.e.P(1, s.flip) {
		s.mean, s.other = s.other, s.mean
	}
	verifhook.Countdown = int64(1 + s.e.N(s.mean))
}

func (s *scheduler) runnable() []*simThread {
	var l []*simThread
	for _, t := range s.ths {
		if !t.done {
			l = append(l, t)
		}
	}
	return l
}

// preempt is called by the running thread.
func (s *scheduler) preempt() {
	me := s.cur
	l := s.runnable()
	// 0 = stay on the current thread
	k := 0
	if verifhook.Waiting {
		verifhook.Waiting = false
		if len(l) > 1 {
			k = 1 + s.e.N(len(l)-1)
		}
	} else if s.lockstep > 0 {
		k = 1
	} else {
		k = s.e.N(len(l))
	}
	i := 0
	for j, t := range l {
		if t == me {
			i = j
		}
	}
	next := l[(i+k)%len(l)]
	s.arm()
	if next == me {
		return
	}
	s.switches++
	s.e.mix(uint64(next.id)<<32 | verifhook.Steps&0xffffffff)
	s.cur = next
	next.wake <- struct{}{}
	<-me.wake
}

func (s *scheduler) exit() {
	me := s.cur
	me.done = true
	l := s.runnable()
	if len(l) == 0 {
		verifhook.Countdown = 0
		verifhook.Preempt = nil
		verifhook.Global = nil
		s.finished <- struct{}{}
		return
	}
	next := l[s.e.N(len(l))]
	s.e.mix(uint64(next.id))
	s.cur = next
	s.arm()
	next.wake <- struct{}{}
}

// RunThreads runs the functions as simulated threads; returns the number of context switches.
func (e *Env) RunThreads(s *scheduler, fns []func()) int {
	s.e, s.finished = e, make(chan struct{})
	for i, fn := range fns {
		t := &simThread{id: i, wake: make(chan struct{})}
		s.ths = append(s.ths, t)
		go func() {
			<-t.wake
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(verifhook.StepLimit); ok {
							verifhook.Limit = ^uint64(0)
						}
						t.viol, t.disc = e.classify(r, string(debug.Stack()))
					}
				}()
				fn()
			}()
			s.exit()
		}()
	}
	verifhook.Preempt = s.preempt
	verifhook.Global = nil
	if s.global > 0 {
		verifhook.Global = func() {
			if s.global > 0 && verifhook.Preempt != nil && e.P(3, 4) {
				s.global--
				verifhook.Countdown = int64(1 + e.N(8))
			}
		}
	}
	s.cur = s.ths[0]
	s.arm()
	s.ths[0].wake <- struct{}{}
	<-s.finished
	for _, t := range s.ths {
		if t.viol != nil {
			panic(t.viol)
		}
		if t.disc {
			panic(discard{})
		}
	}
	return s.switches
}
