// Package zzsched runs goroutines one at a time, and switches between them at
// the scheduling points a schedule names. Handing over is invisible to the race
// detector, which therefore sees only the synchronisation of the program.
package zzsched

import (
	"sync"
	"syscall"
	"time"
	"unsafe"
)

const (
	maxThreads = 4
	maxTrace   = 1 << 20
)

// Switch hands over to a thread at a step.
type Switch struct{ Step, To int }

// Point is a scheduling point that was passed.
type Point struct {
	ID     int32
	Thread int8
	Kind   byte // p, g or s
}

var (
	active, free bool
	deadlock     bool
	cur, n       int
	turn         [maxThreads]uint32
	done         [maxThreads]bool
	blocked      [maxThreads]bool
	step         int
	trace        [maxTrace]Point
	sched        [8]Switch
	nsched, next int
	switched     int
)

//go:norace
func futexWait(p *uint32) {
	syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(p)), 0|128, 0, 0, 0, 0)
}

//go:norace
func futexWake(p *uint32) {
	syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(p)), 1|128, 1, 0, 0, 0)
}

//go:norace
func wait(i int) {
	for turn[i] == 0 {
		futexWait(&turn[i])
	}
	turn[i] = 0
}

//go:norace
func give(i int) {
	cur = i
	turn[i] = 1
	futexWake(&turn[i])
}

//go:norace
func switchTo(to int) {
	self := cur
	switched++
	give(to)
	wait(self)
}

//go:norace
func point(kind byte, id int32) {
	if !active || free {
		return
	}
	if step < maxTrace {
		trace[step] = Point{id, int8(cur), kind}
	}
	step++
	if next < nsched && sched[next].Step == step-1 {
		to := sched[next].To
		next++
		if to != cur && !done[to] && !blocked[to] {
			switchTo(to)
		}
	}
}

// P is a point before a statement.
//
//go:norace
func P(id int32) { point('p', id) }

// G is a point before a statement that mentions shared variables.
//
//go:norace
func G(id int32) { point('g', id) }

// S is a point before a synchronisation.
//
//go:norace
func S() { point('s', 0) }

// Block hands over because the current thread cannot go on. It returns false
// if threads are not controlled.
//
//go:norace
func Block() bool {
	if !active || free {
		return false
	}
	blocked[cur] = true
	for i := 0; i < n; i++ {
		if !done[i] && !blocked[i] {
			switchTo(i)
			return true
		}
	}
	deadlock = true
	release()
	select {}
}

// Wake lets the blocked threads try again.
//
//go:norace
func Wake() {
	for i := range blocked {
		blocked[i] = false
	}
}

//go:norace
func release() {
	free = true
	for i := 0; i < n; i++ {
		turn[i] = 1
		futexWake(&turn[i])
	}
}

//go:norace
func finish(i int) {
	done[i] = true
	if free {
		return
	}
	for k := 0; k < n; k++ {
		if !done[k] && !blocked[k] {
			give(k)
			return
		}
	}
	for k := 0; k < n; k++ {
		if !done[k] {
			deadlock = true
			release()
			return
		}
	}
}

//go:norace
func start(k int, s []Switch) {
	n, step, next, nsched, switched = k, 0, 0, len(s), 0
	copy(sched[:], s)
	free, deadlock = false, false
	for i := range done {
		done[i], blocked[i], turn[i] = false, false, 0
	}
	cur = 0
	active = true
}

//go:norace
func stop() { active = false }

//go:norace
func progress() (int, bool, int) { return step, deadlock, switched }

// Result tells how an execution went.
type Result struct {
	Steps    int
	Switches int
	Deadlock bool // no thread can go on
	Stuck    bool // threads do not end
	Free     bool // threads blocked outside of what is controlled
}

// Run executes threads under a schedule. The trace is available until the next run.
func Run(threads []func(), s []Switch) Result {
	start(len(threads), s)
	var wg sync.WaitGroup
	wg.Add(len(threads))
	for i, f := range threads {
		go thread(&wg, i, f)
	}
	ended := make(chan bool)
	go func() {
		wg.Wait()
		close(ended)
	}()
	give(0)
	var r Result
	last, quiet := -1, 0
	for {
		t := time.NewTimer(2 * time.Second)
		select {
		case <-ended:
			t.Stop()
			stop()
			st, _, sw := progress()
			r.Steps, r.Switches = st, sw
			return r
		case <-t.C:
		}
		st, dl, sw := progress()
		r.Steps, r.Switches = st, sw
		if dl {
			r.Deadlock = true
			stop()
			return r
		}
		if st == last {
			quiet++
		}
		last = st
		if quiet == 3 && !r.Free {
			r.Free = true
			release()
		}
		if quiet > 15 {
			r.Stuck = true
			stop()
			return r
		}
	}
}

func thread(wg *sync.WaitGroup, i int, f func()) {
	wait(i)
	f()
	finish(i) // before Done, as the next run may start after it
	wg.Done()
}

// Trace returns the points passed by the last run.
//
//go:norace
func Trace() []Point {
	k := step
	if k > maxTrace {
		k = maxTrace
	}
	out := make([]Point, k)
	for i := 0; i < k; i++ {
		out[i] = trace[i]
	}
	return out
}
