package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

type evKind int

const (
	evStart evKind = iota
	evLock
	evRWAnnounce
	evRWLock
	evRLock
	evUnlock
	evSys
	evHash
	evTime
	evRand
	evWait
	evOp
)

type event struct {
	kind evKind
	p    unsafe.Pointer
}

// choicePoint is one scheduling decision.
type choicePoint struct {
	enabled        []int // the running thread first, if enabled, then ascending
	runningEnabled bool
	choice         int
}

// Sched runs threads one at a time. At every point the running thread takes
// the next decision and hands over.
type Sched struct {
	s       *Session
	threads []*Thread
	prefix  []int
	points  []choicePoint
	fine    bool // clock and random reads are scheduling points as well

	steps    int
	finished chan struct{}
	verdict  string // deadlock, livelock, divergence
	diverged bool
	aborting bool
	maxSteps int
	stamp    int // logical time for call and return events
}

// Execution is the outcome of one schedule.
type Execution struct {
	points   []choicePoint
	verdict  string
	diverged bool
	steps    int
	panics   []interface{}
	hung     bool
}

// pointsBuf is reused from one execution to the next.
var pointsBuf []choicePoint

// RunThreads runs the bodies under the schedule prefix; afterwards choice 0 is
// taken at every point.
func RunThreads(s *Session, bodies []func(t *Thread), prefix []int, fine bool, maxSteps int) *Execution {
	sc := &Sched{s: s, prefix: prefix, fine: fine, finished: make(chan struct{}), maxSteps: maxSteps, points: pointsBuf[:0]}
	if cap(sc.points) < maxSteps+1 {
		pointsBuf = make([]choicePoint, 0, maxSteps+1)
		sc.points = pointsBuf
	}
	s.sched = sc
	s.maxEvents = 1 << 60
	panics := make([]interface{}, len(bodies))
	var wg sync.WaitGroup
	for i := range bodies {
		t := s.NewThread(i + 1)
		t.resume = make(chan struct{}, 1)
		t.pending = event{kind: evStart}
		sc.threads = append(sc.threads, t)
	}
	for i := range bodies {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t := sc.threads[i]
			raceDisable()
			<-t.resume
			raceEnable()
			if !sc.aborting {
				panics[i] = t.Do(func() { bodies[i](t) })
			}
			raceDisable()
			sc.exit(t)
			raceEnable()
		}(i)
	}
	// The first decision.
	raceDisable()
	if n := sc.decide(nil); n != nil {
		n.resume <- struct{}{}
	}
	timer := time.NewTimer(60 * time.Second)
	ex := &Execution{panics: panics}
	select {
	case <-sc.finished:
	case <-timer.C:
		ex.hung = true
		sc.verdict = "an operation does not finish: it neither returns nor reaches a scheduling point"
	}
	timer.Stop()
	raceEnable()
	if !ex.hung {
		joined := make(chan struct{})
		go func() { wg.Wait(); close(joined) }()
		if sc.verdict == "" {
			<-joined
		} else {
			// Unwound threads may be stuck on real locks: leave them.
			select {
			case <-joined:
			case <-time.After(2 * time.Second):
			}
		}
	}
	s.sched = nil
	s.maxEvents = 200000
	ex.points, ex.verdict, ex.diverged, ex.steps = sc.points, sc.verdict, sc.diverged, sc.steps
	return ex
}

func (sc *Sched) enabled(t *Thread) bool {
	if t.done {
		return false
	}
	e := t.pending
	switch e.kind {
	case evLock:
		l := sc.s.lock(e.p)
		return l.writer == nil && l.nread == 0 && l.waiting == nil
	case evRWAnnounce:
		l := sc.s.lock(e.p)
		return l.writer == nil && l.waiting == nil
	case evRWLock:
		l := sc.s.lock(e.p)
		return l.nread == 0
	case evRLock:
		l := sc.s.lock(e.p)
		return l.writer == nil && l.waiting == nil
	case evWait:
		return sync.VerifWGCount(e.p) == 0
	}
	return true
}

// decide picks the next thread; running is the thread that takes the decision
// (nil at the start and when it has ended). It returns nil at the end.
func (sc *Sched) decide(running *Thread) *Thread {
	sc.steps++
	if sc.steps > sc.maxSteps {
		sc.fail(fmt.Sprintf("livelock: more than %d steps", sc.maxSteps))
		return nil
	}
	var cp choicePoint
	if running != nil && sc.enabled(running) {
		cp.enabled = append(cp.enabled, running.id)
		cp.runningEnabled = true
	}
	alive := 0
	for _, t := range sc.threads {
		if !t.done {
			alive++
		}
		if t != running && sc.enabled(t) {
			cp.enabled = append(cp.enabled, t.id)
		}
	}
	if len(cp.enabled) == 0 {
		if alive > 0 {
			var w []string
			for _, t := range sc.threads {
				if !t.done {
					w = append(w, strconv.Itoa(t.id))
				}
			}
			sc.fail("deadlock: threads " + strings.Join(w, ", ") + " wait for locks forever")
		} else {
			close(sc.finished)
		}
		return nil
	}
	i := len(sc.points)
	if i < len(sc.prefix) {
		cp.choice = sc.prefix[i]
		if cp.choice >= len(cp.enabled) {
			sc.diverged = true
			cp.choice = 0
		}
	}
	sc.points = append(sc.points, cp)
	return sc.threads[cp.enabled[cp.choice]-1]
}

// fail ends the execution: every thread is unwound.
func (sc *Sched) fail(why string) {
	sc.verdict = why
	sc.aborting = true
	for _, t := range sc.threads {
		if !t.done {
			select {
			case t.resume <- struct{}{}:
			default:
			}
		}
	}
	close(sc.finished)
}

// point is a scheduling point of the running thread t with the given next
// event. It returns when t is to perform it.
func (sc *Sched) point(t *Thread, e event) {
	if sc.aborting {
		return
	}
	t.pending = e
	n := sc.decide(t)
	if n == nil {
		panic(abort{sc.verdict})
	}
	if n != t {
		n.resume <- struct{}{}
		<-t.resume
		if sc.aborting {
			panic(abort{sc.verdict})
		}
	}
}

func (sc *Sched) exit(t *Thread) {
	t.done = true
	if sc.aborting {
		return
	}
	if n := sc.decide(nil); n != nil {
		n.resume <- struct{}{}
	}
}

func (sc *Sched) lockEvent(t *Thread, kind int, p unsafe.Pointer) {
	t.lastRand = false
	if sc.aborting {
		return
	}
	switch kind {
	case sync.VerifMutexLock:
		sc.point(t, event{evLock, p})
		sc.s.lock(p).writer = t
	case sync.VerifRWLock:
		sc.point(t, event{evRWAnnounce, p})
		l := sc.s.lock(p)
		l.waiting = t
		sc.point(t, event{evRWLock, p})
		l.waiting = nil
		l.writer = t
	case sync.VerifRWRLock:
		sc.point(t, event{evRLock, p})
		sc.s.lock(p).nread++
	case sync.VerifMutexUnlock, sync.VerifRWUnlock:
		l := sc.s.lock(p)
		l.writer = nil
		sc.s.unlocked(l)
		sc.point(t, event{evUnlock, p})
	case sync.VerifRWRUnlock:
		l := sc.s.lock(p)
		l.nread--
		sc.s.unlocked(l)
		sc.point(t, event{evUnlock, p})
	case sync.VerifWGWait:
		sc.point(t, event{evWait, p})
	}
}

func (sc *Sched) tryLock(t *Thread, kind int, p unsafe.Pointer) bool {
	t.lastRand = false
	if sc.aborting {
		return false
	}
	sc.point(t, event{kind: evUnlock, p: p})
	l := sc.s.lock(p)
	if l.writer != nil || l.waiting != nil || (l.nread > 0 && kind != sync.VerifRWRLock) {
		return false
	}
	if kind == sync.VerifRWRLock {
		l.nread++
	} else {
		l.writer = t
	}
	return true
}

// OpBoundary is a scheduling point between two operations of a thread. It
// returns a logical time stamp.
func (sc *Sched) OpBoundary(t *Thread) int {
	raceDisable()
	t.inHook = true
	sc.point(t, event{kind: evOp})
	t.inHook = false
	sc.stamp++
	n := sc.stamp
	raceEnable()
	return n
}

// Stamp returns a logical time stamp without a scheduling point.
func (sc *Sched) Stamp() int {
	sc.stamp++
	return sc.stamp
}

// Explore enumerates all schedules with at most bound preemptions. run executes
// one schedule; visit judges it and says whether to go on.
func Explore(bound int, run func(prefix []int) *Execution, visit func(ex *Execution, choices []int) bool) (schedules int, complete bool) {
	// Executions with fewer preemptions first.
	stacks := make([][][]int, bound+1)
	stacks[0] = [][]int{nil}
	for level := 0; level <= bound; {
		if len(stacks[level]) == 0 {
			level++
			continue
		}
		n := len(stacks[level]) - 1
		prefix := stacks[level][n]
		stacks[level] = stacks[level][:n]
		ex := run(prefix)
		schedules++
		choices := make([]int, len(ex.points))
		for i, p := range ex.points {
			choices[i] = p.choice
		}
		if len(ex.points) < len(prefix) && ex.verdict == "" {
			ex.diverged = true
		}
		if !visit(ex, choices) {
			return schedules, false
		}
		if ex.diverged {
			continue
		}
		cost := 0
		for i, p := range ex.points {
			if i >= len(prefix) {
				c := cost
				if p.runningEnabled {
					c++
				}
				if c <= bound {
					for alt := len(p.enabled) - 1; alt >= 1; alt-- {
						stacks[c] = append(stacks[c], append(append(make([]int, 0, i+1), choices[:i]...), alt))
					}
				}
			}
			if p.runningEnabled && p.choice != 0 {
				cost++
			}
		}
	}
	return schedules, true
}

// Preemptions counts the preemptions of an execution.
func (ex *Execution) Preemptions() int {
	n := 0
	for _, p := range ex.points {
		if p.runningEnabled && p.choice != 0 {
			n++
		}
	}
	return n
}

func choiceString(ch []int) string {
	var b strings.Builder
	for i, c := range ch {
		if i > 0 {
			b.WriteByte('.')
		}
		b.WriteString(strconv.Itoa(c))
	}
	return b.String()
}

func parseChoices(s string) []int {
	var out []int
	if s == "" {
		return out
	}
	for _, p := range strings.Split(s, ".") {
		n, _ := strconv.Atoi(p)
		out = append(out, n)
	}
	return out
}

var _ = runtime.GOMAXPROCS
