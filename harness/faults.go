package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"syscall"
)

// faultPlan returns a persistent fault: as long as it lasts, nothing can be
// saved.
func faultPlan(name string) func(i int, c *syscall.VerifCall, path string) *Fault {
	switch name {
	case "enospc": // the disk is full: every write fails
		return func(i int, c *syscall.VerifCall, path string) *Fault {
			if c.Name == "write" || c.Name == "pwrite" {
				return &Fault{Name: name, Err: syscall.ENOSPC, Short: -1}
			}
			return nil
		}
	case "short": // writes end half-way, then the disk is full
		return func(i int, c *syscall.VerifCall, path string) *Fault {
			if c.Name == "write" || c.Name == "pwrite" {
				return &Fault{Name: name, Short: len(c.Buf) / 2, Then: syscall.ENOSPC}
			}
			return nil
		}
	case "erofs": // the file system is read-only
		return func(i int, c *syscall.VerifCall, path string) *Fault {
			if mutating(c.Name, c.Flags) || c.Name == "openat" && c.Flags&syscall.O_ACCMODE != syscall.O_RDONLY {
				return &Fault{Name: name, Err: syscall.EROFS, Short: -1}
			}
			return nil
		}
	}
	panic("unknown fault plan " + name)
}

// variants lists the ways in which a call may fail.
func variants(ev *FSEvent, few bool) []Fault {
	e := func(errs ...syscall.Errno) []Fault {
		var out []Fault
		for _, x := range errs {
			out = append(out, Fault{Name: x.Error(), Err: x, Short: -1})
			if few {
				break
			}
		}
		return out
	}
	switch ev.Name {
	case "openat":
		if ev.Flags&syscall.O_CREAT != 0 {
			return e(syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS, syscall.EIO)
		}
		return e(syscall.EACCES, syscall.EMFILE, syscall.EIO)
	case "write", "pwrite":
		out := e(syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG)
		n := ev.N
		for _, s := range []int{n / 2, 0, 1, n - 1} {
			if s < 0 || s >= n {
				continue
			}
			out = append(out, Fault{Name: fmt.Sprintf("%d bytes written, then ENOSPC", s), Short: s, Then: syscall.ENOSPC})
			if !few {
				out = append(out, Fault{Name: fmt.Sprintf("only %d bytes written", s), Short: s})
				out = append(out, Fault{Name: fmt.Sprintf("%d bytes written, then EIO", s), Short: s, Then: syscall.EIO})
			} else {
				break
			}
		}
		return out
	case "read", "pread":
		return e(syscall.EIO)
	case "fsync", "fdatasync":
		return e(syscall.EIO, syscall.ENOSPC, syscall.EDQUOT)
	case "close":
		return e(syscall.EIO, syscall.ENOSPC)
	case "renameat", "linkat", "symlinkat":
		return e(syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS)
	case "unlinkat":
		return e(syscall.EIO, syscall.EACCES)
	case "fchmod", "fchmodat":
		return e(syscall.EPERM, syscall.EIO)
	case "mkdirat":
		return e(syscall.EACCES, syscall.ENOSPC, syscall.EROFS)
	case "ftruncate", "truncate":
		return e(syscall.EIO, syscall.ENOSPC)
	case "fstat", "fstatat":
		return e(syscall.EIO, syscall.EACCES)
	}
	return e(syscall.EIO)
}

// injection is one fault at one call; Rest makes it persistent.
type injection struct {
	At   int
	F    Fault
	Rest bool
	Kind string
}

func (in injection) String() string {
	s := fmt.Sprintf("call %d (%s): %s", in.At, in.Kind, in.F.Name)
	if in.Rest {
		s += ", and so do all later changes"
	}
	return s
}

func planOf(ins []injection) func(i int, c *syscall.VerifCall, path string) *Fault {
	return func(i int, c *syscall.VerifCall, path string) *Fault {
		for k := range ins {
			in := &ins[k]
			if i == in.At {
				f := in.F
				return &f
			}
			if in.Rest && i > in.At && (mutating(c.Name, c.Flags) || c.Name == "fsync") {
				f := in.F
				f.Short = -1
				if f.Err == nil {
					f.Err = syscall.EIO
				}
				return &f
			}
		}
		return nil
	}
}

// FaultCase is an operation to be run under every fault.
type FaultCase struct {
	Name    string
	Prelude []Op
	Op      Op
	Un      *Universe
	Setup   func(r *Run) // before the database is opened
	Bound   int          // number of faults per execution
	From    *crowd       // the state to start from
	Policy  *mPolicy
	Judge   func(v *V, key string, ins []injection, log []FSEvent)
}

// EnumerateFaults calls judge for every choice of at most bound faults in the
// file-system calls of an operation. exec runs the operation with the given
// plan and returns its calls.
func EnumerateFaults(c *Ctx, v *V, bound int, exec func(ins []injection) []FSEvent) {
	var rec func(ins []injection)
	rec = func(ins []injection) {
		if c.Expired() || v.Failed() {
			return
		}
		log := exec(ins)
		v.Count("evaluations", 1)
		v.Count("fs_calls", len(log))
		if len(ins) > 0 {
			hit := 0
			for _, ev := range log {
				if ev.Fault != "" {
					hit++
				}
			}
			if hit > 0 {
				v.State("distinct_nontrivial", v.id+fmt.Sprint(ins))
			}
		}
		if len(ins) >= bound || len(ins) > 0 && ins[len(ins)-1].Rest {
			return
		}
		from := 0
		if len(ins) > 0 {
			from = ins[len(ins)-1].At + 1
		}
		for i := from; i < len(log); i++ {
			if log[i].Fault != "" {
				continue
			}
			for _, f := range variants(&log[i], len(ins) > 0) {
				kind := log[i].Name + " " + filepath.Base(log[i].Path)
				next := append(append([]injection{}, ins...), injection{At: i, F: f, Kind: kind})
				rec(next)
				if len(ins) == 0 && (mutating(log[i].Name, log[i].Flags) || log[i].Name == "fsync") {
					next = append(append([]injection{}, ins...), injection{At: i, F: f, Kind: kind, Rest: true})
					rec(next)
				}
			}
		}
	}
	rec(nil)
}

// stateOf is everything exported of a database.
func stateOf(w *World) string { return jsonOf(w.db) }

// stateOnDisk is the same of a database opened from the file.
func (w *World) stateOnDisk() (string, string) {
	db := w.db
	defer func() { w.db = db }()
	if o := w.Open(); !o.OK() {
		return "", "reopening the file: " + o.String()
	}
	return stateOf(w), ""
}

func describeFaults(ins []injection) string {
	if len(ins) == 0 {
		return "without faults"
	}
	var l []string
	for _, in := range ins {
		l = append(l, in.String())
	}
	return "with faults: " + strings.Join(l, "; ")
}

// firstDiff shows where two states differ.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		to := i + 100
		if to > len(s) {
			to = len(s)
		}
		if from > len(s) {
			return ""
		}
		return s[from:to]
	}
	return fmt.Sprintf("before: ...%s\n   now: ...%s", cut(a), cut(b))
}

// FaultOp explores one operation of the database under all faults.
func (c *Ctx) FaultOp(fc FaultCase) {
	c.Case(fc.Name, func(v *V) {
		EnumerateFaults(c, v, fc.Bound, func(ins []injection) []FSEvent {
			r, bad := c.newRunFrom(fc.From, fc.Policy, fc.Prelude, fc.Un)
			defer r.w.Close()
			key := ""
			for _, in := range ins {
				key += fmt.Sprintf("%d %s %s %v;", in.At, in.Kind[:strings.IndexByte(in.Kind, ' ')], in.F.Name, in.Rest)
			}
			fail := func(f string, a ...interface{}) {
				v.Fail(key, "after the history\n%s\n%s %s:\n%s", traceString(r.trace), fc.Op, describeFaults(ins), fmt.Sprintf(f, a...))
			}
			if bad != "" {
				fail("%s", bad)
				return nil
			}
			before := stateOf(r.w)
			beforeFiles := fileContents(r.w.root)
			d := r.w.s.dev
			d.log, d.record = nil, true
			d.fault = planOf(ins)
			o := r.w.Exec(fc.Op)
			d.fault, d.record = nil, false
			log := d.log
			for _, f := range d.fds {
				if f == nil {
					continue
				}
				f.then = nil
			}
			res := r.m.Clone().Apply(fc.Op)
			if o.Panic != "" {
				fail("the operation does not return normally: %s", o.Panic)
				return log
			}
			if o.OK() {
				if !res.OK {
					fail("the operation succeeds though it must be refused")
					return log
				}
				r.trace = append(r.trace, fc.Op)
				r.m.Apply(fc.Op)
				if x := r.observe(); x != "" {
					fail("success was reported, but the database differs from the model:\n%s", x)
				} else if x := r.observeReopened(); x != "" {
					fail("success was reported, but the reopened database differs from the model:\n%s", x)
				} else if disk, x := r.w.stateOnDisk(); x != "" || disk != stateOf(r.w) && fc.Op.K != "copy" {
					fail("success was reported, but memory and file differ: %s\n%s", x, firstDiff(stateOf(r.w), disk))
				}
				if fc.Op.K == "copy" {
					checkCopy(r, fc.Op, fail)
				}
				return log
			}
			if len(ins) == 0 && res.OK {
				fail("%s", o)
				return log
			}
			// The operation failed: nothing may have changed.
			if now := stateOf(r.w); now != before {
				fail("%s was reported, but the state in memory has changed:\n%s", o, firstDiff(before, now))
				return log
			}
			if x := r.observe(); x != "" {
				fail("%s was reported, but the database behaves differently:\n%s", o, x)
				return log
			}
			if disk, x := r.w.stateOnDisk(); x != "" || disk != before {
				fail("%s was reported, but the file has changed: %s\n%s", o, x, firstDiff(before, disk))
				return log
			}
			if x := r.observeReopened(); x != "" {
				fail("%s was reported, but the reopened database behaves differently:\n%s", o, x)
				return log
			}
			if fc.Op.K == "copy" {
				p := r.w.target(fc.Op.Path)
				if old, now := beforeFiles[p], fileContents(r.w.root)[p]; old != now {
					fail("%s was reported, but the target file has changed:\n%s", o, firstDiff(old, now))
					return log
				}
			}
			if !res.OK {
				return log
			}
			// Once the cause is gone, the same operation succeeds.
			r.trace = append(r.trace, fc.Op)
			r.m.Apply(fc.Op)
			if o := r.w.Exec(fc.Op); !o.OK() {
				fail("after the failure the same operation is repeated without faults: %s", o)
			} else if x := r.observe(); x != "" {
				fail("after the failure the operation was repeated, and the database differs from the model:\n%s", x)
			} else if x := r.observeReopened(); x != "" {
				fail("after the failure the operation was repeated, and the reopened database differs from the model:\n%s", x)
			}
			if v.WantSample() && len(ins) > 0 {
				v.Sample(map[string]interface{}{"operation": fc.Op.String(), "faults": describeFaults(ins), "outcome": o.String(), "calls": len(log)})
			}
			return log
		})
	})
}

// checkCopy verifies that the target of a copy is a complete database.
func checkCopy(r *Run, op Op, fail func(f string, a ...interface{})) {
	db := r.w.db
	defer func() { r.w.db = db }()
	if o := r.w.OpenAt(r.w.target(op.Path)); !o.OK() {
		fail("success was reported, but the copy cannot be opened: %s", o)
		return
	}
	if x := r.observe(); x != "" {
		fail("success was reported, but the copy differs from the source:\n%s", x)
	}
}
