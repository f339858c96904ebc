#!/usr/bin/env python3
"""Generate, in BUILD, the hooked copies of standard-library files and of
golang.org/x/crypto against which the code under test is compiled, and the
overlay.json that go build -overlay takes.

usage: gen.py BUILD REPO GOROOT XCRYPTO_DIR

Every patch asserts that it applies exactly once: a different Go version would
fail loudly rather than run without hooks."""
import json, os, re, shutil, sys

build, repo, goroot, xcrypto = sys.argv[1:5]
src = os.path.join(goroot, "src")
out = os.path.join(build, "overlay")
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
replace = {}


def emit(rel_target, text, target=None):
    name = rel_target.replace("/", "__")
    path = os.path.join(out, name)
    with open(path, "w") as f:
        f.write(text)
    replace[target or os.path.join(src, rel_target)] = path


def read(rel):
    with open(os.path.join(src, rel)) as f:
        return f.read()


def sub1(text, old, new):
    n = text.count(old)
    if n != 1:
        sys.exit("overlay: %d matches (want 1) for:\n%s" % (n, old))
    return text.replace(old, new)


# --- runtime: identify goroutines -----------------------------------------
emit("runtime/verif.go", '''package runtime

import (
	"internal/runtime/maps"
	"unsafe"
)

// VerifMapOrder makes iterations over maps start at the places of a script,
// one after the other, and at the last one when it is used up; nil restores
// chance. VerifMapIters returns how many there were.
func VerifMapOrder(script []uint64) { maps.VerifScript, maps.VerifIters = script, 0 }

func VerifMapIters() int { return maps.VerifIters }

// VerifGoid returns the id of the calling goroutine.
func VerifGoid() uint64 { return getg().goid }

// VerifLabel returns the label of the calling goroutine, which it inherited
// from the goroutine that started it.
func VerifLabel() unsafe.Pointer { return getg().labels }

// VerifSetLabel sets the label of the calling goroutine.
func VerifSetLabel(p unsafe.Pointer) { getg().labels = p }
''')

# --- maps: order of iteration ------------------------------------------------
emit("internal/runtime/maps/verif.go", '''package maps

// VerifScript says where iterations start.
var VerifScript []uint64

// VerifIters counts iterations while there is a script.
var VerifIters int

func verifOffset() uint64 {
	s := VerifScript
	if s == nil {
		return rand()
	}
	i := VerifIters
	VerifIters++
	if i >= len(s) {
		i = len(s) - 1
	}
	return s[i]
}
''')
t = read("internal/runtime/maps/table.go")
t = sub1(t, "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n", "\tit.entryOffset = verifOffset()\n\tit.dirOffset = it.entryOffset\n")
emit("internal/runtime/maps/table.go", t)

# --- sync: scheduling points and lock model --------------------------------
emit("sync/verif.go", '''package sync

import "unsafe"

// VerifLock is called before an operation that may block (even kinds) and
// after one that releases (odd kinds), on the calling goroutine. For the Try
// kinds it is called with ok.
var VerifLock func(kind int, p unsafe.Pointer)

// VerifTry is called before and after TryLock and TryRLock. before: it reports
// whether the attempt is decided by the model, and how.
var VerifTry func(kind int, p unsafe.Pointer) (decided, ok bool)

const (
	VerifMutexLock = iota
	VerifMutexUnlock
	VerifRWLock
	VerifRWUnlock
	VerifRWRLock
	VerifRWRUnlock
	VerifWGWait
	VerifWGAdd
)

// VerifWGCount returns the counter of a wait group.
func VerifWGCount(p unsafe.Pointer) int {
	return int(int32((*WaitGroup)(p).state.Load() >> 32))
}
''')

t = read("sync/mutex.go")
t = sub1(t, "func (m *Mutex) Lock() {\n\tm.mu.Lock()\n}",
 "func (m *Mutex) Lock() {\n\tif h := VerifLock; h != nil {\n\t\th(VerifMutexLock, unsafe.Pointer(m))\n\t}\n\tm.mu.Lock()\n}")
t = sub1(t, "func (m *Mutex) Unlock() {\n\tm.mu.Unlock()\n}",
 "func (m *Mutex) Unlock() {\n\tm.mu.Unlock()\n\tif h := VerifLock; h != nil {\n\t\th(VerifMutexUnlock, unsafe.Pointer(m))\n\t}\n}")
t = sub1(t, "func (m *Mutex) TryLock() bool {\n\treturn m.mu.TryLock()\n}",
 "func (m *Mutex) TryLock() bool {\n\tif h := VerifTry; h != nil {\n\t\tif decided, ok := h(VerifMutexLock, unsafe.Pointer(m)); decided {\n\t\t\tif ok {\n\t\t\t\tm.mu.Lock()\n\t\t\t}\n\t\t\treturn ok\n\t\t}\n\t}\n\treturn m.mu.TryLock()\n}")
t = sub1(t, "import (\n\tisync \"internal/sync\"\n)", "import (\n\tisync \"internal/sync\"\n\t\"unsafe\"\n)")
emit("sync/mutex.go", t)

t = read("sync/rwmutex.go")
# The writer mutex inside an RWMutex is not a lock of its own.
for a, b in (("rw.w.Lock()", "rw.w.mu.Lock()"), ("rw.w.Unlock()", "rw.w.mu.Unlock()"), ("rw.w.TryLock()", "rw.w.mu.TryLock()")):
    if a not in t:
        sys.exit("overlay: no " + a)
    t = t.replace(a, b)
for fn, kind in (("RLock", "VerifRWRLock"), ("Lock", "VerifRWLock")):
    t = sub1(t, "func (rw *RWMutex) %s() {\n" % fn,
      "func (rw *RWMutex) %s() {\n\tif h := VerifLock; h != nil {\n\t\th(%s, unsafe.Pointer(rw))\n\t}\n" % (fn, kind))
for fn, kind in (("RUnlock", "VerifRWRUnlock"), ("Unlock", "VerifRWUnlock")):
    t = sub1(t, "func (rw *RWMutex) %s() {\n" % fn,
      "func (rw *RWMutex) %s() {\n\trw.verif%s()\n\tif h := VerifLock; h != nil {\n\t\th(%s, unsafe.Pointer(rw))\n\t}\n}\n\nfunc (rw *RWMutex) verif%s() {\n" % (fn, fn, kind, fn))
for fn, kind, lock in (("TryRLock", "VerifRWRLock", "RLock"), ("TryLock", "VerifRWLock", "Lock")):
    t = sub1(t, "func (rw *RWMutex) %s() bool {\n" % fn,
      "func (rw *RWMutex) %s() bool {\n\tif h := VerifTry; h != nil {\n\t\tif decided, ok := h(%s, unsafe.Pointer(rw)); decided && !ok {\n\t\t\treturn false\n\t\t}\n\t}\n" % (fn, kind))
emit("sync/rwmutex.go", t)

t = read("sync/waitgroup.go")
t = sub1(t, "func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\tif h := VerifLock; h != nil {\n\t\th(VerifWGWait, unsafe.Pointer(wg))\n\t}\n")
emit("sync/waitgroup.go", t)

# A pool takes its global lock while the thread is pinned: not a place to switch.
t = read("sync/pool.go")
t = sub1(t, "\tallPoolsMu.Lock()", "\tallPoolsMu.mu.Lock()")
t = sub1(t, "defer allPoolsMu.Unlock()", "defer allPoolsMu.mu.Unlock()")
# Optionally a pool keeps nothing: reuse would order accesses for the race
# detector that the code under test does not order.
t = sub1(t, "func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif VerifNoPool {\n\t\treturn\n\t}\n")
t = sub1(t, "func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif VerifNoPool {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n")
t += "\n// VerifNoPool makes pools keep nothing.\nvar VerifNoPool bool\n"
emit("sync/pool.go", t)

# --- syscall: every file-system call ---------------------------------------
emit("syscall/verif.go", '''package syscall

// VerifCall is one file-system call.
type VerifCall struct {
	Name        string
	Fd, Fd2     int
	Path, Path2 string
	Flags       int
	Mode        uint32
	Buf         []byte
	Off         int64
	N           int
	Err         error
}

// VerifSys, when set, runs instead of every file-system call; do performs the
// call with the (possibly shortened) buffer and sets N and Err.
var VerifSys func(c *VerifCall, do func())

// VerifRead performs a plain read or write for the harness.
func VerifRealWrite(fd int, p []byte) (int, error) { return verif_write(fd, p) }
''')
t = read("syscall/zsyscall_linux_amd64.go")


def wrap(t, name, params, results, fields, do, ret):
    head = "func %s(%s) (%s) {\n" % (name, params, results)
    return sub1(t, head, '''func %s(%s) (%s) {
	h := VerifSys
	if h == nil {
		return verif_%s
	}
	c := &VerifCall{Name: "%s", %s}
	h(c, func() { %s })
	return %s
}

func verif_%s(%s) (%s) {
''' % (name, params, results, call(name, params), name.lower(), fields, do, ret, name, params, results))


def call(name, params):
    names = [p.split()[0] for p in params.split(", ")]
    return "%s(%s)" % (name, ", ".join(names))


E = "c.Err"
NE = "c.N, c.Err"
t = wrap(t, "openat", "dirfd int, path string, flags int, mode uint32", "fd int, err error",
         "Fd: dirfd, Path: path, Flags: flags, Mode: mode", "c.N, c.Err = verif_openat(dirfd, path, flags, mode)", NE)
t = wrap(t, "write", "fd int, p []byte", "n int, err error", "Fd: fd, Buf: p", "c.N, c.Err = verif_write(fd, c.Buf)", NE)
t = wrap(t, "pwrite", "fd int, p []byte, offset int64", "n int, err error", "Fd: fd, Buf: p, Off: offset", "c.N, c.Err = verif_pwrite(fd, c.Buf, offset)", NE)
t = wrap(t, "read", "fd int, p []byte", "n int, err error", "Fd: fd, Buf: p", "c.N, c.Err = verif_read(fd, c.Buf)", NE)
t = wrap(t, "pread", "fd int, p []byte, offset int64", "n int, err error", "Fd: fd, Buf: p, Off: offset", "c.N, c.Err = verif_pread(fd, c.Buf, offset)", NE)
t = wrap(t, "Fsync", "fd int", "err error", "Fd: fd", "c.Err = verif_Fsync(fd)", E)
t = wrap(t, "Fdatasync", "fd int", "err error", "Fd: fd", "c.Err = verif_Fdatasync(fd)", E)
t = wrap(t, "Renameat", "olddirfd int, oldpath string, newdirfd int, newpath string", "err error",
         "Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath", "c.Err = verif_Renameat(olddirfd, oldpath, newdirfd, newpath)", E)
t = wrap(t, "unlinkat", "dirfd int, path string, flags int", "err error", "Fd: dirfd, Path: path, Flags: flags", "c.Err = verif_unlinkat(dirfd, path, flags)", E)
t = wrap(t, "Mkdirat", "dirfd int, path string, mode uint32", "err error", "Fd: dirfd, Path: path, Mode: mode", "c.Err = verif_Mkdirat(dirfd, path, mode)", E)
t = wrap(t, "Ftruncate", "fd int, length int64", "err error", "Fd: fd, Off: length", "c.Err = verif_Ftruncate(fd, length)", E)
t = wrap(t, "Truncate", "path string, length int64", "err error", "Fd: _AT_FDCWD, Path: path, Off: length", "c.Err = verif_Truncate(path, length)", E)
t = wrap(t, "Close", "fd int", "err error", "Fd: fd", "c.Err = verif_Close(fd)", E)
t = wrap(t, "Fchmod", "fd int, mode uint32", "err error", "Fd: fd, Mode: mode", "c.Err = verif_Fchmod(fd, mode)", E)
t = wrap(t, "fchmodat", "dirfd int, path string, mode uint32", "err error", "Fd: dirfd, Path: path, Mode: mode", "c.Err = verif_fchmodat(dirfd, path, mode)", E)
t = wrap(t, "linkat", "olddirfd int, oldpath string, newdirfd int, newpath string, flags int", "err error",
         "Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath, Flags: flags", "c.Err = verif_linkat(olddirfd, oldpath, newdirfd, newpath, flags)", E)
t = wrap(t, "symlinkat", "oldpath string, newdirfd int, newpath string", "err error",
         "Fd2: newdirfd, Path: oldpath, Path2: newpath", "c.Err = verif_symlinkat(oldpath, newdirfd, newpath)", E)
t = wrap(t, "fstatat", "fd int, path string, stat *Stat_t, flags int", "err error",
         "Fd: fd, Path: path, Flags: flags", "c.Err = verif_fstatat(fd, path, stat, flags)", E)
t = wrap(t, "Fstat", "fd int, stat *Stat_t", "err error",
         "Fd: fd", "c.Err = verif_Fstat(fd, stat)", E)
emit("syscall/zsyscall_linux_amd64.go", t)

# Environment variables can be given other values.
t = read("syscall/env_unix.go")
t = sub1(t, """	envLock.RLock()
	defer envLock.RUnlock()

	i, ok := env[key]
""", """	if f := VerifEnv; f != nil {
		if value, ok := f(key); ok {
			return value, true
		}
	}
	envLock.RLock()
	defer envLock.RUnlock()

	i, ok := env[key]
""")
t += """
// VerifEnv, if set, is asked for environment variables first.
var VerifEnv func(key string) (string, bool)
"""
emit("syscall/env_unix.go", t)

t = read("os/sys.go")
t = sub1(t, """	return hostname()
""", """	if f := syscall.VerifEnv; f != nil {
		if value, ok := f("(hostname)"); ok {
			return value, nil
		}
	}
	return hostname()
""")
t = t.replace("package os\n", "package os\n\nimport \"syscall\"\n", 1)
emit("os/sys.go", t)

# internal/syscall/unix: the same calls made by os.Root, os.RemoveAll, ...
t = read("internal/syscall/unix/at.go")


def uwrap(t, name, params, result, fields, do, ret):
    head = "func %s(%s) %s {\n" % (name, params, result)
    return sub1(t, head, '''func %s(%s) %s {
	h := syscall.VerifSys
	if h == nil {
		return verif_%s
	}
	c := &syscall.VerifCall{Name: "%s", %s}
	h(c, func() { %s })
	return %s
}

func verif_%s(%s) %s {
''' % (name, params, result, call(name, params), name.lower(), fields, do, ret, name, params, result))


t = uwrap(t, "Unlinkat", "dirfd int, path string, flags int", "error", "Fd: dirfd, Path: path, Flags: flags", "c.Err = verif_Unlinkat(dirfd, path, flags)", E)
t = uwrap(t, "Openat", "dirfd int, path string, flags int, perm uint32", "(int, error)", "Fd: dirfd, Path: path, Flags: flags, Mode: perm", "c.N, c.Err = verif_Openat(dirfd, path, flags, perm)", NE)
t = uwrap(t, "Mkdirat", "dirfd int, path string, mode uint32", "error", "Fd: dirfd, Path: path, Mode: mode", "c.Err = verif_Mkdirat(dirfd, path, mode)", E)
t = uwrap(t, "Renameat", "olddirfd int, oldpath string, newdirfd int, newpath string", "error", "Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath", "c.Err = verif_Renameat(olddirfd, oldpath, newdirfd, newpath)", E)
t = uwrap(t, "Linkat", "olddirfd int, oldpath string, newdirfd int, newpath string, flag int", "error", "Fd: olddirfd, Path: oldpath, Fd2: newdirfd, Path2: newpath, Flags: flag", "c.Err = verif_Linkat(olddirfd, oldpath, newdirfd, newpath, flag)", E)
emit("internal/syscall/unix/at.go", t)

# copy_file_range would move data past the write hook: refuse it, so that
# io.Copy falls back to read and write.
t = read("internal/syscall/unix/copy_file_range_unix.go")
t = sub1(t, "flags int) (n int, err error) {\n", "flags int) (n int, err error) {\n\tif syscall.VerifSys != nil {\n\t\treturn 0, syscall.ENOSYS\n\t}\n")
emit("internal/syscall/unix/copy_file_range_unix.go", t)

# --- time: a virtual clock ---------------------------------------------------
t = read("time/time.go")
t = sub1(t, "func Now() Time {\n", '''func Now() Time {
	if h := VerifNow; h != nil {
		if ns, ok := h(); ok {
			return Unix(ns/1e9, ns%1e9)
		}
	}
''')
t += "\n// VerifNow, when set, supplies the time in nanoseconds since 1970.\nvar VerifNow func() (int64, bool) = verifStart()\n"
emit("time/time.go", t)
# A process can be told when it starts, before any package is initialized.
emit("time/verif.go", '''package time

import "syscall"

func verifStart() func() (int64, bool) {
	s, ok := syscall.Getenv("VERIF_START")
	if !ok {
		return nil
	}
	var now int64
	for i := 0; i < len(s); i++ {
		now = now*10 + int64(s[i]-'0')
	}
	return func() (int64, bool) {
		now += 1000
		return now, true
	}
}
''')

# --- math/rand, math/rand/v2, crypto/rand: chosen randomness ----------------
t = read("math/rand/rand.go")
t = sub1(t, "func (r *Rand) Int63() int64 { return r.src.Int63() }", '''func (r *Rand) Int63() int64 {
	if h := VerifRand; h != nil {
		if v, ok := h(0); ok {
			return int64(v >> 1)
		}
	}
	return r.src.Int63()
}''')
t = sub1(t, "func (r *Rand) Uint64() uint64 {\n", '''func (r *Rand) Uint64() uint64 {
	if h := VerifRand; h != nil {
		if v, ok := h(0); ok {
			return v
		}
	}
''')
for fn, ty in (("Int63n", "int64"), ("Int31n", "int32")):
    t = sub1(t, 'panic("invalid argument to %s")\n\t}\n' % fn, '''panic("invalid argument to %s")
	}
	if h := VerifRand; h != nil {
		if v, ok := h(uint64(n)); ok {
			return %s(v)
		}
	}
''' % (fn, ty))
t += "\n// VerifRand, when set, supplies a number below n (any number if n is 0).\nvar VerifRand func(n uint64) (uint64, bool)\n"
emit("math/rand/rand.go", t)

t = read("math/rand/v2/rand.go")
t = sub1(t, "func (r *Rand) uint64n(n uint64) uint64 {\n", '''func (r *Rand) uint64n(n uint64) uint64 {
	if h := VerifRand; h != nil && n > 0 {
		if v, ok := h(n); ok {
			return v
		}
	}
''')
t = sub1(t, "func (r *Rand) uint32n(n uint32) uint32 {\n", '''func (r *Rand) uint32n(n uint32) uint32 {
	if h := VerifRand; h != nil && n > 0 {
		if v, ok := h(uint64(n)); ok {
			return uint32(v)
		}
	}
''')
t += "\n// VerifRand, when set, supplies a number below n.\nvar VerifRand func(n uint64) (uint64, bool)\n"
emit("math/rand/v2/rand.go", t)

t = read("crypto/internal/rand/rand.go")
t = sub1(t, "func (r reader) Read(b []byte) (n int, err error) {\n", '''func (r reader) Read(b []byte) (n int, err error) {
	if h := VerifRead; h != nil {
		if h(b) {
			return len(b), nil
		}
	}
''')
t += "\n// VerifRead, when set, fills b and reports whether it did.\nvar VerifRead func(b []byte) bool\n"
emit("crypto/internal/rand/rand.go", t)
t = read("crypto/rand/rand.go")
t = sub1(t, "func Read(b []byte) (n int, err error) {\n", '''func Read(b []byte) (n int, err error) {
	if h := rand.VerifRead; h != nil {
		if h(b) {
			return len(b), nil
		}
	}
''')
t += "\n// VerifSetRead sets the function that supplies randomness.\nfunc VerifSetRead(f func(b []byte) bool) { rand.VerifRead = f }\n"
emit("crypto/rand/rand.go", t)

# --- golang.org/x/crypto with a cheap bcrypt kernel --------------------------
xdst = os.path.join(build, "xcrypto")
shutil.rmtree(xdst, ignore_errors=True)
shutil.copytree(xcrypto, xdst, ignore=shutil.ignore_patterns("*_test.go", "testdata"))
for d, dirs, files in os.walk(xdst):
    os.chmod(d, 0o755)
    for f in files:
        os.chmod(os.path.join(d, f), 0o644)
p = os.path.join(xdst, "bcrypt", "bcrypt.go")
t = open(p).read()
t = sub1(t, "func bcrypt(password []byte, cost int, salt []byte) ([]byte, error) {\n", '''// VerifHash is called for every hash computation. It may return a stand-in
// for the bcrypt kernel; nil means the real one.
var VerifHash func(password []byte, cost int, salt []byte) []byte

func bcrypt(password []byte, cost int, salt []byte) ([]byte, error) {
	if h := VerifHash; h != nil {
		if b := h(password, cost, salt); b != nil {
			return base64Encode(b[:maxCryptedHashSize]), nil
		}
	}
''')
open(p, "w").write(t)

# --- a bridge to the internal packages of the code under test ----------------
with open(os.path.join(out, "bridge.go"), "w") as f:
    f.write('''// Package verifbridge gives the harness access to internal packages.
package verifbridge

import "github.com/greenpau/go-identity/internal/tag"

// TagOptions are the options of the tag checker.
type TagOptions = tag.Options

// GetTagCompliance is the tag checker.
func GetTagCompliance(resource interface{}, opts *TagOptions) ([]string, error) {
	return tag.GetTagCompliance(resource, opts)
}
''')
replace[os.path.join(repo, "pkg/verifbridge/bridge.go")] = os.path.join(out, "bridge.go")

with open(os.path.join(build, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1)
