//go:build go1.23

// Package sched runs the threads of a concurrent program one at a time and
// leaves to its caller which goes on at every point of the program.
//
// The points are calls of P, which cmd/instr puts before the statements of
// the code under test, and the operations of package zzsync, which takes the
// place of package sync there. The scheduler passes control in a way the race
// detector does not see, so that the detector knows the order the program
// itself makes and no other: it reports two accesses that are ordered by the
// schedule only.
package sched

import (
	"fmt"
	"runtime/debug"
)

// Kinds of points.
const (
	Stmt   = 0 // any statement
	Shared = 1 // a statement that names a variable of the package or of an enclosing function
	Sync   = 2 // an operation of package zzsync
)

const (
	evPoint = iota
	evWait
	evDone
)

const maxThreads = 4

// The state of the one run there is at a time. It is read and written by the
// thread in control and, when no thread is, by Run, always in functions the
// race detector does not look at.
var (
	active  bool
	cur     int
	budget  int // preemptions left
	epoch   int
	minKind int
	steps   int
	since   int // steps at the last switch
	event   int
	waiting [maxThreads]bool
	done    [maxThreads]bool
	resume  [maxThreads]chan struct{}
	toMain  chan struct{}
)

// Chooser makes the choices: those of Script and then always 0. Record is
// called for all of them when the run is over.
type Chooser interface {
	Script() []int32
	Record(n, choice int)
}

const maxChoices = 1 << 21

type choice struct{ n, v int32 }

var (
	script []int32
	taken  [maxChoices]choice
	nTaken int
	target int // of a preemption
)

//go:norace
func choose(n int) int {
	v := 0
	if nTaken < len(script) {
		v = int(script[nTaken])
		if v >= n {
			v = n - 1
		}
	}
	if nTaken == maxChoices {
		return 0
	}
	taken[nTaken] = choice{int32(n), int32(v)}
	nTaken++
	return v
}

//go:norace
func start(s []int32) { script, nTaken = s, 0 }

//go:norace
func count() int { return nTaken }

//go:norace
func nth(i int) (n, v int) { return int(taken[i].n), int(taken[i].v) }

const (
	fairAfter = 1 << 17
	maxSteps  = 1 << 22
)

// P is a point of the program.
//
//go:norace
func P(kind int) {
	if !active {
		return
	}
	steps++
	if steps-since < fairAfter && (budget == 0 || kind < minKind) {
		return
	}
	ts, n := enabled(cur)
	if n == 0 {
		return
	}
	if unfair() { // as in a loop that waits for another thread
		target = ts[0]
	} else if k := choose(n + 1); k > 0 {
		budget--
		target = ts[k-1]
	} else {
		return
	}
	yield(evPoint)
}

// Wait is called by a thread that cannot go on before another calls Release.
//
//go:norace
func Wait() {
	if active {
		yield(evWait)
	}
}

// Release lets all waiting threads try again.
//
//go:norace
func Release() {
	for i := range waiting {
		waiting[i] = false
	}
}

// Epoch returns the number of the run.
//
//go:norace
func Epoch() int { return epoch }

// Active tells whether threads are run.
//
//go:norace
func Active() bool { return active }

//go:norace
func yield(ev int) {
	me := cur
	event = ev
	hide()
	toMain <- struct{}{}
	<-resume[me]
	unhide()
}

//go:norace
func begin(n, preemptions, kind int) {
	cur, budget, minKind, steps, since = 0, preemptions, kind, 0, 0
	toMain = make(chan struct{})
	for i := 0; i < maxThreads; i++ {
		waiting[i], done[i] = false, i >= n
		resume[i] = make(chan struct{})
	}
	epoch++
	active = true
}

//go:norace
func end() { active = false }

//go:norace
func enter(i int) {
	c := resume[i]
	hide()
	<-c
	unhide()
}

//go:norace
func leave() {
	event = evDone
	hide()
	toMain <- struct{}{}
	unhide()
}

// give passes control to thread i and waits for it to come back.
//
//go:norace
func give(i int) (ev, n int) {
	if i != cur {
		since = steps
	}
	cur = i
	c := resume[i]
	hide()
	c <- struct{}{}
	<-toMain
	unhide()
	return event, steps
}

//go:norace
func mark(i, ev int) {
	switch ev {
	case evWait:
		waiting[i] = true
	case evDone:
		done[i] = true
		for j := range waiting {
			waiting[j] = false
		}
	}
}

//go:norace
func enabled(except int) (ts [maxThreads]int, n int) {
	for i := range done {
		if i != except && !done[i] && !waiting[i] {
			ts[n] = i
			n++
		}
	}
	return ts, n
}

//go:norace
func allDone() bool {
	for i := range done {
		if !done[i] {
			return false
		}
	}
	return true
}

//go:norace
func unfair() bool { return steps-since >= fairAfter }

//go:norace
func preemptTo() int { return target }

// Run runs the threads with up to the given number of preemptions at points
// of the given kind or higher. Which thread goes on first, at a preemption,
// or when one waits or ends, is chosen. It returns the number of points and
// of switches, and what went wrong, if anything.
func Run(c Chooser, preemptions, kind int, bodies ...func()) (points, switches int, problem string) {
	begin(len(bodies), preemptions, kind)
	start(c.Script())
	defer func() {
		for i := range count() {
			c.Record(nth(i))
		}
	}()
	panics := make([]string, len(bodies))
	ended := make(chan struct{}, len(bodies)) // the order the detector sees
	for i, body := range bodies {
		go func() {
			enter(i)
			defer func() {
				if r := recover(); r != nil {
					panics[i] = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
				ended <- struct{}{}
				leave()
			}()
			body()
		}()
	}
	next := choose(len(bodies))
	for {
		ev, n := give(next)
		points = n
		if n > maxSteps {
			end()
			return points, switches, "the threads do not end"
		}
		mark(next, ev)
		if allDone() {
			break
		}
		switch ev {
		case evPoint:
			next = preemptTo()
			switches++
		default:
			ts, n := enabled(-1)
			if n == 0 {
				end()
				return points, switches, "deadlock"
			}
			next = ts[choose(n)]
			switches++
		}
	}
	end()
	for range bodies {
		<-ended
	}
	for _, p := range panics {
		if p != "" {
			return points, switches, p
		}
	}
	return points, switches, ""
}
