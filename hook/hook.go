// Package verifhook is what instrumented code calls. It exists only in the
// build overlay of the simulator; the shipped repository does not contain it.
package verifhook

import (
	"reflect"
	"sync"
)

// StepLimit is the panic value raised when a run exceeds its step budget.
type StepLimit struct{}

var (
	// Steps counts executed hooks in the current run.
	Steps uint64
	// Limit is the step budget.
	Limit uint64 = ^uint64(0)
	// Countdown, when positive, is decremented at each hook; Preempt is called when it reaches zero.
	Countdown int64
	// Preempt is the simulator's scheduler entry.
	Preempt func()
	// Global is called before statements that use package-level variables.
	Global func()
	// Hits counts executions per hook id (repository ids only).
	Hits [1 << 16]uint32
	// Edges is an AFL-style edge map of the current run.
	Edges [1 << 15]uint8

	prev uint32
)

// S is called before every statement.
func S(id uint32) {
	Steps++
	if Steps > Limit {
		panic(StepLimit{})
	}
	if id < RepoIDs {
		Hits[id&0xffff]++
		h := (id * 2654435761) >> 3
		Edges[(prev^h)&0x7fff] |= 1
		prev = h >> 1
	}
	if Countdown > 0 {
		Countdown--
		if Countdown == 0 && Preempt != nil {
			Preempt()
		}
	}
}

// G is called instead of S before statements that use package-level variables.
func G(id uint32) {
	if Global != nil {
		Global()
	}
	S(id)
}

// Reset prepares for a new run.
func Reset(limit uint64) {
	Steps = 0
	Limit = limit
	Countdown = 0
	prev = 0
	Edges = [1 << 15]uint8{}
}

// Waiting is true while Preempt is called by a thread that cannot go on.
var Waiting bool

func yield() {
	if Preempt != nil {
		Waiting = true
		Preempt()
	}
}

type tryLocker interface {
	sync.Locker
	TryLock() bool
}

type tryRLocker interface {
	RLock()
	TryRLock() bool
}

// Lock acquires a lock cooperatively.
func Lock(p any) {
	for range 3 {
		if t, ok := p.(tryLocker); ok {
			for !t.TryLock() {
				S(0)
				yield()
			}
			return
		}
		if l, ok := p.(sync.Locker); ok {
			l.Lock()
			return
		}
		v := reflect.ValueOf(p)
		if v.Kind() != reflect.Pointer {
			break
		}
		p = v.Elem().Interface()
	}
	reflect.ValueOf(p).MethodByName("Lock").Call(nil)
}

// RLock acquires a read lock cooperatively.
func RLock(p any) {
	for range 3 {
		if t, ok := p.(tryRLocker); ok {
			for !t.TryRLock() {
				S(0)
				yield()
			}
			return
		}
		v := reflect.ValueOf(p)
		if v.Kind() != reflect.Pointer {
			break
		}
		p = v.Elem().Interface()
	}
	reflect.ValueOf(p).MethodByName("RLock").Call(nil)
}

// Do runs x.Do(f). What a sync.Once protects is executed without interruption,
// since a thread that waits for it would block the one real thread that runs.
func Do(p any, f any) {
	if fn, ok := f.(func()); ok {
		switch o := p.(type) {
		case *sync.Once:
			o.Do(atomically(fn))
			return
		case **sync.Once:
			(*o).Do(atomically(fn))
			return
		}
	}
	for v := reflect.ValueOf(p); ; v = v.Elem() {
		if m := v.MethodByName("Do"); m.IsValid() {
			a := reflect.ValueOf(f)
			if t := m.Type().In(0); !a.IsValid() {
				a = reflect.Zero(t)
			} else if !a.Type().AssignableTo(t) && a.CanConvert(t) {
				a = a.Convert(t)
			}
			m.Call([]reflect.Value{a})
			return
		}
	}
}

func atomically(f func()) func() {
	return func() {
		cd, pr := Countdown, Preempt
		Countdown, Preempt = 0, nil
		defer func() { Countdown, Preempt = cd, pr }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(atomically(f)) }

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	return sync.OnceValue(func() (v T) {
		atomically(func() { v = f() })()
		return
	})
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	return sync.OnceValues(func() (v1 T1, v2 T2) {
		atomically(func() { v1, v2 = f() })()
		return
	})
}
