package main

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/crypto/bcrypt"
)

// Thread is a controlled goroutine. The runtime takes it for a pprof label
// set, hence the first field.
type Thread struct {
	labels []struct{ K, V string }

	s      *Session
	id     int
	goid   uint64
	inHook bool

	rnd      uint64 // state of the thread's own random stream
	lastRand bool
	hashes   int
	fault    func(i int, c *syscall.VerifCall, path string) *Fault // this thread's faults

	// scheduling (sched.go)
	resume  chan struct{}
	pending event
	done    bool
	blocked bool
	aborted bool
}

// Session is one controlled execution.
type Session struct {
	// A slice, not a map: the runtime reports the map accesses of the hooks to
	// the race detector.
	locks  []*lockState
	sched  *Sched
	dev    *Device
	events int
	// maxEvents bounds the hook events of one operation: more is a livelock.
	maxEvents int

	now, tick int64
	realTime  bool

	script   func(t *Thread, n uint64) (uint64, bool) // scripted randomness
	script8  func(t *Thread, b []byte) bool           // scripted random bytes
	realRand bool

	realHash  bool
	hashCosts []int
	onHash    func(password []byte, cost int)

	childMu sync.Mutex
}

type lockState struct {
	p       unsafe.Pointer
	writer  *Thread
	nread   int
	waiting *Thread // writer that has announced itself
}

// abort is the panic value with which a hook ends an operation that can never
// finish.
type abort struct{ why string }

func (a abort) String() string { return a.why }

var vclock0 = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano()

func NewSession() *Session {
	return &Session{
		locks: make([]*lockState, 0, 256), hashCosts: make([]int, 0, 512), now: vclock0, tick: 1000, maxEvents: 200000,
	}
}

// NewThread returns a sequential thread of the session.
func (s *Session) NewThread(id int) *Thread {
	return &Thread{s: s, id: id, rnd: uint64(id)*0x9e3779b97f4a7c15 + 12345}
}

// Do runs f on the calling goroutine as the controlled thread t. It returns
// the panic value, if any.
func (t *Thread) Do(f func()) (p interface{}) {
	t.goid = runtime.VerifGoid()
	t.inHook = false
	old := runtime.VerifLabel()
	runtime.VerifSetLabel(unsafe.Pointer(t))
	t.s.events = 0
	defer func() {
		runtime.VerifSetLabel(old)
		if x := recover(); x != nil {
			p = x
		}
	}()
	f()
	return nil
}

// current returns the controlled thread on whose behalf the caller runs, and
// whether the caller is a goroutine started by it.
func current() (t *Thread, child bool) {
	t = (*Thread)(runtime.VerifLabel())
	if t == nil {
		return nil, false
	}
	if runtime.VerifGoid() != t.goid {
		return t, true
	}
	if t.inHook {
		return nil, false
	}
	return t, false
}

func (s *Session) event() {
	s.events++
	if s.events > s.maxEvents {
		panic(abort{fmt.Sprintf("livelock: more than %d events in one operation", s.maxEvents)})
	}
}

func (s *Session) lock(p unsafe.Pointer) *lockState {
	for _, l := range s.locks {
		if l.p == p {
			return l
		}
	}
	l := &lockState{p: p}
	s.locks = append(s.locks, l)
	return l
}

// unlocked forgets a lock that nobody holds: its memory may be reused.
func (s *Session) unlocked(l *lockState) {
	if l.writer != nil || l.nread > 0 || l.waiting != nil {
		return
	}
	for i, x := range s.locks {
		if x == l {
			n := len(s.locks) - 1
			s.locks[i] = s.locks[n]
			s.locks = s.locks[:n]
			return
		}
	}
}

func installHooks() {
	sync.VerifNoPool = raceBuild
	sync.VerifLock = hookLock
	sync.VerifTry = hookTry
	syscall.VerifSys = hookSys
	time.VerifNow = hookNow
	mrand.VerifRand = hookRand
	mrand2.VerifRand = hookRand
	crand.VerifSetRead(hookRead)
	bcrypt.VerifHash = hookHash
}

var forceRealHash atomic.Bool

func hookLock(kind int, p unsafe.Pointer) {
	t, child := current()
	if t == nil || child {
		return
	}
	raceDisable()
	t.inHook = true
	defer leaveHook(t)
	s := t.s
	if s.sched != nil {
		s.sched.lockEvent(t, kind, p)
		return
	}
	s.event()
	l := s.lock(p)
	switch kind {
	case sync.VerifMutexLock, sync.VerifRWLock:
		if l.writer != nil || l.nread > 0 {
			panic(abort{"deadlock: the operation waits for a lock that is never released"})
		}
		l.writer = t
	case sync.VerifRWRLock:
		if l.writer != nil {
			panic(abort{"deadlock: the operation waits for a lock that is never released"})
		}
		l.nread++
	case sync.VerifMutexUnlock, sync.VerifRWUnlock:
		l.writer = nil
		s.unlocked(l)
	case sync.VerifRWRUnlock:
		l.nread--
		s.unlocked(l)
	}
}

func hookTry(kind int, p unsafe.Pointer) (decided, ok bool) {
	t, child := current()
	if t == nil || child {
		return false, false
	}
	raceDisable()
	t.inHook = true
	defer leaveHook(t)
	s := t.s
	if s.sched != nil {
		return true, s.sched.tryLock(t, kind, p)
	}
	s.event()
	l := s.lock(p)
	if l.writer != nil || (l.nread > 0 && kind != sync.VerifRWRLock) {
		return true, false
	}
	if kind == sync.VerifRWRLock {
		l.nread++
	} else {
		l.writer = t
	}
	return true, true
}

func leaveHook(t *Thread) {
	t.inHook = false
	raceEnable()
}

func hookSys(c *syscall.VerifCall, do func()) {
	t, child := current()
	if t == nil {
		do()
		return
	}
	s := t.s
	if child {
		s.childMu.Lock()
		defer s.childMu.Unlock()
		if s.dev != nil {
			s.dev.call(t, c, do)
		} else {
			do()
		}
		return
	}
	raceDisable()
	t.inHook = true
	defer leaveHook(t)
	t.lastRand = false
	if s.sched != nil {
		s.sched.point(t, event{kind: evSys})
	} else {
		s.event()
	}
	if s.dev != nil {
		s.dev.call(t, c, do)
	} else {
		do()
	}
}

func hookNow() (int64, bool) {
	t, child := current()
	if t == nil || child || t.s.realTime {
		return 0, false
	}
	s := t.s
	s.event()
	if s.sched != nil && s.sched.fine {
		raceDisable()
		t.inHook = true
		s.sched.point(t, event{kind: evTime})
		t.inHook = false
		raceEnable()
	}
	s.now += s.tick
	return s.now, true
}

func (t *Thread) next() uint64 {
	t.rnd += 0x9e3779b97f4a7c15
	z := t.rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hookRand(n uint64) (uint64, bool) {
	t, child := current()
	if t == nil || child || t.s.realRand {
		return 0, false
	}
	s := t.s
	s.event()
	if s.sched != nil && s.sched.fine && !t.lastRand {
		raceDisable()
		t.inHook = true
		s.sched.point(t, event{kind: evRand})
		t.inHook = false
		raceEnable()
	}
	t.lastRand = true
	if s.script != nil {
		if v, ok := s.script(t, n); ok {
			if n > 0 {
				v %= n
			}
			return v, true
		}
	}
	v := t.next()
	if n > 0 {
		v %= n
	}
	return v, true
}

func hookRead(b []byte) bool {
	t, child := current()
	if t == nil || child || t.s.realRand {
		return false
	}
	s := t.s
	s.event()
	if s.script8 != nil && s.script8(t, b) {
		return true
	}
	var w [8]byte
	for i := range b {
		if i%8 == 0 {
			binary.LittleEndian.PutUint64(w[:], t.next())
		}
		b[i] = w[i%8]
	}
	return true
}

// standIn computes what replaces the bcrypt kernel: a function of exactly what
// bcrypt depends on, the first 72 bytes of the password and a zero byte
// repeated, the cost and the salt.
func standIn(password []byte, cost int, salt []byte) []byte {
	key := append(append([]byte{}, password...), 0)
	buf := make([]byte, 0, 128)
	for i := 0; i < 72; i++ {
		buf = append(buf, key[i%len(key)])
	}
	buf = append(buf, byte(cost))
	buf = append(buf, salt...)
	h := sha256.Sum256(buf)
	return h[:]
}

func hookHash(password []byte, cost int, salt []byte) []byte {
	t, child := current()
	if t == nil {
		if forceRealHash.Load() {
			return nil
		}
		return standIn(password, cost, salt)
	}
	s := t.s
	if !child {
		raceDisable()
		t.inHook = true
		t.lastRand = false
		if s.sched != nil {
			s.sched.point(t, event{kind: evHash})
		} else {
			s.event()
		}
		if len(s.hashCosts) == cap(s.hashCosts) {
			s.hashCosts = s.hashCosts[:0]
		}
		s.hashCosts = append(s.hashCosts, cost)
		t.hashes++
		if s.onHash != nil {
			s.onHash(password, cost)
		}
		t.inHook = false
		raceEnable()
	}
	if s.realHash {
		return nil
	}
	return standIn(password, cost, salt)
}
