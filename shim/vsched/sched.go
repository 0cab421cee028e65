package vsched

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
)

// The scheduler. Exactly one managed thread runs at a time; every call of P is
// a point at which the explorer may switch to another enabled thread. An
// execution is determined by its deviations: at point n, run thread t instead.
//
// Outside an execution (sequential mode) P only counts steps, so that endless
// loops and endless recursions of the code under test become a deterministic
// StepLimit panic.

// StepLimitError is the panic value when a (sequential) execution exceeds its
// budget of steps.
type StepLimitError struct{ Steps int }

func (e StepLimitError) Error() string {
	return fmt.Sprintf("no termination within %d steps", e.Steps)
}

// DeadlockError is the panic value when a sequential execution blocks on a lock
// it can never get.
type DeadlockError struct{ What string }

func (e DeadlockError) Error() string { return "blocked forever on " + e.What }

type abortToken struct{}

// Dev is one scheduling decision that differs from the default.
type Dev struct {
	Point int
	To    int
}

// Seg says which other threads could have run from point From on.
type Seg struct {
	From   int
	Run    int    // running thread
	Others uint32 // mask of enabled threads other than Run
	Free   bool   // the switch at exactly this point is not a preemption
	Dflt   int    // thread chosen by default at a free point
}

// Result of one execution.
type Result struct {
	Points   int
	Segs     []Seg
	Hash     uint64
	Err      string // deadlock, livelock, divergence
	Panics   []string
	Switches int
}

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	ready   func() bool // nil: enabled
	what    string
	unwind  bool
	spun    bool // gave way while waiting; others that did not go first
	body    func()
	panicv  string
	started bool
	polls   int
	mapOf   func() interface{} // the Go map it is about to use
	mapW    bool               // ... and change
}

var (
	active   bool
	aborting bool
	left     = 2_000_000 // steps left; negative during an execution
	limit    = 2_000_000

	// NoWait are threads that must never wait for another one (a mask).
	NoWait uint32

	threads []*thread
	cur     *thread
	pt      int
	nextDev int
	devs    []Dev
	devi    int
	res     *Result
	runLen  int
	mainCh  chan struct{}
	lastSeg Seg
	hash    uint64
	maxPts  int
	horizon int
)

// Coarse: switch at synchronisation operations (site 0) only.
var Coarse bool

// Begin starts a sequential execution with the given step budget.
func Begin(lim int) { left, limit = lim, lim }

// Steps of the current sequential execution.
func Steps() int { return limit - left }

// P is a scheduling point.
func P(site int) {
	left--
	if left < 0 {
		point(site)
	}
}

// M is a scheduling point right before a statement that uses a Go map. Two
// goroutines that can take such a step at the same time, one of them changing
// the map, end the program ("concurrent map writes").
func M(site int, write bool, f func() interface{}) {
	if !active || aborting {
		P(site)
		return
	}
	t := cur
	if p := mapPtr(f); p != 0 {
		for _, o := range threads {
			if o != t && !o.done && o.mapOf != nil && (write || o.mapW) && mapPtr(o.mapOf) == p {
				fail("concurrent use of a Go map by threads %d and %d @ %s", o.id, t.id, Where("panic(\n\n"+string(debug.Stack())))
				abortHere()
				return
			}
		}
	}
	t.mapOf, t.mapW = f, write
	defer func() { t.mapOf = nil }()
	P(site)
}

// MV is M after the evaluation of the value that is stored in the map.
func MV[T any](v T, site int, f func() interface{}) T {
	M(site, true, f)
	return v
}

func mapPtr(f func() interface{}) (p uintptr) {
	defer func() { recover() }()
	x := f()
	if reflect.TypeOf(x).Kind() != reflect.Map {
		return 0
	}
	return reflect.ValueOf(x).Pointer()
}

func overrun() {
	left = limit
	panic(StepLimitError{limit})
}

func point(site int) {
	if !active {
		overrun()
	}
	if aborting {
		abortHere()
		return
	}
	if Coarse && site != 0 {
		runLen++
		if runLen > horizon {
			spin("horizon")
		}
		return
	}
	pt++
	hash = (hash ^ uint64(site)) * 1099511628211
	if pt == nextDev {
		deviate()
		return
	}
	runLen++
	if runLen > horizon {
		spin("horizon")
	}
}

func abortHere() {
	if cur != nil && !cur.unwind {
		cur.unwind = true
		panic(abortToken{})
	}
}

func othersMask() (m uint32) {
	for _, t := range threads {
		if t != cur && !t.done && (t.ready == nil || t.ready()) {
			m |= 1 << uint(t.id)
		}
	}
	return
}

// note records the alternatives available from the next point on.
func note() {
	m := othersMask()
	if lastSeg.Run == cur.id && lastSeg.Others == m && !lastSeg.Free {
		return
	}
	lastSeg = Seg{From: pt + 1, Run: cur.id, Others: m}
	res.Segs = append(res.Segs, lastSeg)
}

// Fresh: a new operation of a thread of NoWait begins.
func Fresh() {
	if active && cur != nil && NoWait&(1<<uint(cur.id)) != 0 {
		runLen, cur.polls = 0, 0
	}
}

// Changed must be called when an operation may have enabled another thread.
func Changed() {
	if active && !aborting {
		note()
	}
}

func fail(f string, a ...interface{}) {
	if res.Err == "" {
		res.Err = fmt.Sprintf(f, a...)
	}
	aborting = true
	nextDev = -1
}

func deviate() {
	d := devs[devi]
	devi++
	setNext()
	if d.To < 0 || d.To >= len(threads) || threads[d.To] == cur || threads[d.To].done || (threads[d.To].ready != nil && !threads[d.To].ready()) {
		fail("divergence: point %d cannot run thread %d", d.Point, d.To)
		abortHere()
		return
	}
	switchTo(threads[d.To])
}

func setNext() {
	if devi < len(devs) {
		nextDev = devs[devi].Point
	} else {
		nextDev = -1
	}
}

func switchTo(t *thread) {
	me := cur
	res.Switches++
	cur = t
	t.ready = nil
	runLen = 0
	note()
	t.wake <- struct{}{}
	if me != nil && !me.done {
		<-me.wake
		if aborting {
			abortHere()
		}
	}
}

// freePoint: the current thread gives up the processor (blocked, yielding or
// finished); which thread runs next is a choice that costs no preemption.
func freePoint(selfOK bool) {
	pt++
	hash = (hash ^ 0xffff) * 1099511628211
	m := othersMask()
	if m == 0 {
		if selfOK {
			runLen = 0
			return
		}
		if cur.done {
			all := true
			for _, t := range threads {
				if !t.done {
					all = false
				}
			}
			if all {
				mainCh <- struct{}{}
				return
			}
		}
		var w []string
		for _, t := range threads {
			if !t.done {
				w = append(w, fmt.Sprintf("thread %d waits for %s", t.id, t.what))
			}
		}
		sort.Strings(w)
		fail("deadlock: %v", w)
		if cur.done {
			abortNext()
			return
		}
		abortHere()
		return
	}
	if selfOK {
		// fairness: a thread that spins is not chosen again before the others
		// had their turn, because only they can end its waiting
		cur.spun = true
		var f uint32
		for _, t := range threads {
			if m&(1<<uint(t.id)) != 0 && !t.spun {
				f |= 1 << uint(t.id)
			}
		}
		if f != 0 {
			m = f
		} else {
			for _, t := range threads {
				t.spun = false
			}
		}
	} else {
		for _, t := range threads {
			t.spun = false
		}
	}
	// default: next thread id in cyclic order
	d := -1
	for k := 1; k <= len(threads); k++ {
		j := (cur.id + k) % len(threads)
		if m&(1<<uint(j)) != 0 {
			d = j
			break
		}
	}
	lastSeg = Seg{From: pt, Run: cur.id, Others: m, Free: true, Dflt: d}
	res.Segs = append(res.Segs, lastSeg)
	if pt == nextDev {
		deviate()
		return
	}
	switchTo(threads[d])
}

// mustNotWait ends the execution when the thread is one of NoWait: it is about
// to wait for something only another thread can do.
func mustNotWait(what string) bool {
	if NoWait&(1<<uint(cur.id)) == 0 {
		return false
	}
	fail("thread %d waits for another thread (%s) which may have been stopped @ %s", cur.id, what, Where("panic(\n\n"+string(debug.Stack())))
	abortHere()
	return true
}

func spin(why string) {
	if mustNotWait("no end of the loop") {
		return
	}
	if pt > maxPts {
		fail("livelock: no progress after %d points (%s)", pt, why)
		abortHere()
		return
	}
	freePoint(true)
}

// Yield is called by code that waits by polling (a failed TryLock).
func Yield() {
	if !active {
		P(0)
		return
	}
	if aborting {
		abortHere()
		return
	}
	if pt > maxPts {
		fail("livelock: no progress after %d points (polling)", pt)
		abortHere()
		return
	}
	if NoWait&(1<<uint(cur.id)) != 0 {
		// a failed attempt is no waiting, trying again and again is
		if cur.polls++; cur.polls > 50 {
			mustNotWait("polling")
		}
		return
	}
	freePoint(true)
}

// Block waits until ready() holds.
func Block(what string, ready func() bool) {
	if !active {
		if !ready() {
			panic(DeadlockError{what})
		}
		return
	}
	for !ready() {
		if aborting {
			abortHere()
			return
		}
		if mustNotWait(what) {
			return
		}
		cur.ready, cur.what = ready, what
		me := cur
		freePoint(false)
		me.ready = nil
	}
}

// Go starts a managed thread (a plain goroutine outside an execution).
func Go(f func()) {
	if !active {
		go f()
		return
	}
	spawn(f)
	Changed()
}

func spawn(f func()) *thread {
	t := &thread{id: len(threads), wake: make(chan struct{}, 1), body: f}
	threads = append(threads, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortToken); !ok && !aborting {
					res.Panics = append(res.Panics, fmt.Sprintf("thread %d: panic: %v @ %s", t.id, r, where(string(debug.Stack()))))
					t.panicv = fmt.Sprint(r)
				}
			}
			t.done = true
			if aborting {
				abortNext()
				return
			}
			if len(res.Panics) > 0 {
				aborting = true
				nextDev = -1
				abortNext()
				return
			}
			freePoint(false)
		}()
		if aborting {
			return
		}
		Grow()
		t.body()
	}()
	return t
}

// Grow makes the stack of a new goroutine big enough that it is not moved during
// the run: the code under test keeps relative addresses in pointers for a moment,
// which the runtime refuses when it copies a stack.
//
//go:noinline
func Grow() {
	var a [192 << 10]byte
	sink(&a)
}

//go:noinline
func sink(a *[192 << 10]byte) { a[0], a[len(a)-1] = 1, 1 }

// abortNext lets the next unfinished thread unwind; the last one ends the run.
func abortNext() {
	for _, t := range threads {
		if !t.done {
			cur = t
			t.wake <- struct{}{}
			return
		}
	}
	mainCh <- struct{}{}
}

// Run executes the bodies as threads under the given deviations.
func Run(bodies []func(), dv []Dev, max int) *Result {
	res = &Result{}
	threads = nil
	cur, pt, devi, runLen = nil, 0, 0, 0
	hash = 14695981039346656037
	devs = dv
	maxPts = max
	horizon = 4000
	aborting = false
	mainCh = make(chan struct{}, 1)
	lastSeg = Seg{Run: -1}
	setNext()
	for _, b := range bodies {
		spawn(b)
	}
	// which thread starts is a free choice: a pseudo thread gives up at point 1
	cur = &thread{id: len(threads) - 1, done: true}
	active = true
	left = -1
	freePoint(false)
	<-mainCh
	active = false
	left, limit = 2_000_000, 2_000_000
	if devi < len(devs) && res.Err == "" && len(res.Panics) == 0 {
		res.Err = fmt.Sprintf("divergence: %d of %d deviations used", devi, len(devs))
	}
	res.Points = pt
	res.Hash = hash
	return res
}

// Now is the current point (a logical clock for histories).
func Now() int { return pt }

// Active tells whether a scheduled execution is running.
func Active() bool { return active }

// Aborting tells whether the current execution is being torn down.
func Aborting() bool { return aborting }

// T counts a step at a place that needs no scheduling decision (function entry,
// loop iteration).
func T() {
	left--
	if left < 0 {
		tick()
	}
}

func tick() {
	if !active {
		overrun()
	}
	if aborting {
		abortHere()
		return
	}
	runLen++
	if runLen > horizon {
		spin("horizon")
	}
}
