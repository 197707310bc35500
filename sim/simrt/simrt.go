// Package simrt is the simulator's hook into the code under test: every
// statement of the instrumented decoder calls Y, every make() passes through A.
// Only one goroutine of a simulation runs at a time (the scheduler hands a
// baton around), so plain variables are enough.
package simrt

import "time"

// N counts down to the next simulator event.
var N int64 = 1 << 62

// Slow is called when N drops below zero; it must set N again.
var Slow = func() { N = 1 << 62 }

// Alloc is the number of slice elements requested since it was reset.
var Alloc int64

// AllocLimit is the simulated memory size in elements.
var AllocLimit int64 = 1 << 62

// OOM is what an allocation beyond AllocLimit panics with.
type OOM struct{ Want, Had int64 }

// Held counts the critical sections the running decoder is in; nobody else
// can run meanwhile.
var Held int

func Hold() { Held++ }

// Blocked is what waiting for a lock panics with that nobody will release.
type Blocked struct{}

// Acquire takes a lock on behalf of the running decoder. Nobody else runs
// meanwhile and nobody is suspended inside a critical section, so a lock that
// is not free stays so.
func Acquire[F any](lock F) F {
	take, ok := any(lock).(func())
	if !ok {
		Held++
		return lock
	}
	got := make(chan struct{})
	go func() {
		take()
		close(got)
	}()
	t := time.NewTimer(3 * time.Second)
	select {
	case <-got:
	case <-t.C:
		panic(Blocked{})
	}
	t.Stop()
	Held++
	return any(func() {}).(F)
}
func Release() { Held-- }

// Site is the scheduler point that called Slow.
var Site int

// Y is a scheduler point.
func Y(site int) {
	N--
	if N < 0 {
		Site = site
		Slow()
	}
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// AllocHook is called at every allocation.
var AllocHook func()

// A charges an allocation of n elements.
func A[T integer](n T) T {
	if AllocHook != nil {
		AllocHook()
	}
	if n > 0 {
		if Alloc+int64(n) > AllocLimit || Alloc+int64(n) < 0 {
			panic(OOM{int64(n), Alloc})
		}
		Alloc += int64(n)
	}
	return n
}
