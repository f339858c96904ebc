package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"
)

func init() {
	register(&Property{
		ID: "C39", Level: "fault_enumeration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "every operation of a menu in every initial state, and opening a database in every way, under every choice of at most two faults in the file-system calls (one in large states); after each, the descriptors, goroutines and files that were not there before. And every kind of operation repeated thousands of times with ever other texts, with the memory in use before and after. Non-trivial: executions in which an injected fault was hit",
		Assumptions: []string{"goroutines may take up to a second to end after an operation", "memory of the amount of a megabyte may be kept for good, such as in a cache of bounded size"},
		Run:         runC39,
	})
}

// descriptors are the files the process has open.
func descriptors() map[string]int {
	out := map[string]int{}
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		fatalf("%v", err)
	}
	names, _ := d.Readdirnames(-1)
	d.Close()
	for _, n := range names {
		if t, err := os.Readlink("/proc/self/fd/" + n); err == nil && strings.HasPrefix(t, "/") && !strings.HasPrefix(t, "/proc/") && !strings.HasPrefix(t, "/dev/") || strings.HasPrefix(t, "/dev/shm/") {
			out[t]++
		}
	}
	return out
}

// A remains is what was there before an operation.
type remains struct {
	fds        map[string]int
	files      map[string]string
	goroutines int
}

func (w *World) remains() *remains {
	return &remains{descriptors(), fileContents(w.root), runtime.NumGoroutine()}
}

// left says what an operation has left behind. Files whose removal failed, and
// those in may, are allowed.
func (w *World) left(r *remains, log []FSEvent, may ...string) string {
	for i, f := range w.s.dev.fds {
		if f != nil {
			return fmt.Sprintf("the file %s is still open (descriptor %d)", f.path, i)
		}
	}
	for p, n := range descriptors() {
		if n > r.fds[p] {
			return fmt.Sprintf("the file %s is still open", p)
		}
	}
	for end := time.Now().Add(time.Second); runtime.NumGoroutine() > r.goroutines; {
		if time.Now().After(end) {
			return fmt.Sprintf("%d goroutines are running instead of %d", runtime.NumGoroutine(), r.goroutines)
		}
		time.Sleep(time.Millisecond)
	}
	ok := map[string]bool{}
	for _, p := range may {
		ok[p] = true
	}
	for _, ev := range log {
		if ev.Name == "unlinkat" && ev.Err != nil {
			ok[ev.Path] = true
		}
	}
	var names []string
	for p := range fileContents(w.root) {
		if _, there := r.files[p]; !there && !ok[p] {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	if len(names) > 0 {
		return "files were left: " + strings.Join(names, ", ")
	}
	return ""
}

func runC39(c *Ctx) {
	bound := 2
	if c.Thorough {
		bound = 3
	}
	execute := func(v *V, w *World, op Op, what string, ins []injection) []FSEvent {
		d := w.s.dev
		r := w.remains()
		d.log, d.record, d.fault = nil, true, planOf(ins)
		o := w.Exec(op)
		d.fault, d.record = nil, false
		log := d.log
		key := what
		for _, in := range ins {
			key += fmt.Sprintf(" %d %s", in.At, in.F.Name)
		}
		may := []string{w.path}
		if op.K == "copy" {
			p := w.target(op.Path)
			may = append(may, p)
			if t, err := filepath.EvalSymlinks(p); err == nil {
				may = append(may, t)
			}
		}
		if o.Panic != "" {
			v.Fail(key, "%s %s: %s", op, describeFaults(ins), o)
		} else if x := w.left(r, log, may...); x != "" {
			v.Fail(key, "%s %s, which ended with %s:\n%s", op, describeFaults(ins), o, x)
		} else if len(ins) == 0 && (!o.OK() || !saves(op.K)) && op.K != "copy" && op.K != "reopen" {
			for _, ev := range log {
				if mutating(ev.Name, ev.Flags) {
					v.Fail(key, "%s, which ended with %s, touched the file system: %s", op, o, ev)
					break
				}
			}
		}
		for i := range d.fds {
			d.fds[i] = nil
		}
		return log
	}
	enumerate := func(name string, from *crowd, prelude []Op, op Op, un *Universe, bound int, setup func(w *World)) {
		if op.Path == "loop" {
			bound = 0 // thousands of calls to find the loop
		}
		c.Case(name, func(v *V) {
			var st *prepared
			if from == nil {
				st = c.prepare(prelude, un)
			}
			EnumerateFaults(c, v, bound, func(ins []injection) []FSEvent {
				var w *World
				if from == nil {
					w = c.start(st)
				} else {
					r, bad := from.run(c, un)
					if bad != "" {
						fatalf("%s", bad)
					}
					w = r.w
				}
				defer w.Close()
				if setup != nil {
					setup(w)
				}
				return execute(v, w, op, name, ins)
			})
		})
	}
	un := wideUniverse()
	menu := append(changes(), opSave, opReopen, Op{K: "copy", Path: "copy.json"}, Op{K: "copy", Path: "old.json"}, Op{K: "copy", Path: "link.json"}, Op{K: "copy", Path: "dangling.json"}, Op{K: "copy", Path: "adir"},
		Op{K: "copy", Path: "missing/x.json"}, Op{K: "copy", Path: "loop"}, Op{K: "copy", Path: "old.json/x.json"})
	setup := func(w *World) {
		at := func(n string) string { return filepath.Join(w.root, n) }
		writeFile(at("old.json"), []byte("{}"))
		os.Mkdir(at("adir"), 0700)
		os.Mkdir(at("real"), 0700)
		writeFile(at("real/one.json"), []byte("{}"))
		os.Symlink("real/one.json", at("link.json"))
		os.Symlink("real/two.json", at("dangling.json"))
		os.Symlink("loop", at("loop"))
	}
	for i, op := range menu {
		enumerate(fmt.Sprintf("faults/%d", i), nil, populated(), op, un, bound, setup)
		enumerate(fmt.Sprintf("sparse/%d", i), nil, sparse(), op, un, 1, setup)
	}
	for i, op := range append(refusals(), concurrentReaders()...) {
		enumerate(fmt.Sprintf("still/%d", i), nil, populated(), op, un, bound, setup)
	}
	for _, cr := range c.crowdList() {
		for i, op := range append(menu[:len(menu):len(menu)], crowdOps(cr)...) {
			enumerate(fmt.Sprintf("crowd-%s/%d", cr.name, i), cr, nil, op, crowdUniverse(cr), 1, setup)
		}
	}
	openingLeaves(c, bound)
	keptMemory(c)
}

// saves says whether an operation that succeeds saves the database.
func saves(k string) bool {
	switch k {
	case "adduser", "changepw", "addpk", "delpk", "addapi", "delapi", "addmfa", "delmfa", "save":
		return true
	}
	return false
}

// openingLeaves opens databases in every way, under faults.
func openingLeaves(c *Ctx, bound int) {
	good := c.prepare(populated(), wideUniverse()).file
	texts := map[string]string{
		"genuine": string(good), "empty": "", "object": "{}", "truncated": string(good[:len(good)/2]), "no policy": `{"version":"1.0.0","revision":3,"users":[]}`, "array": "[]", "deep": strings.Repeat("[", 20000),
		"twice": strings.Replace(string(good), `"bob@`, `"alice@`, 1), "blank": "  \n", "null": "null", "long": string(good) + strings.Repeat(" ", 300000),
	}
	for _, name := range sortedNames(texts) {
		c.Case("open/"+name, func(v *V) {
			EnumerateFaults(c, v, bound, func(ins []injection) []FSEvent {
				w := NewWorld(c.Scratch)
				defer w.Close()
				writeFile(w.path, []byte(texts[name]))
				return openUnder(v, w, w.path, name, ins)
			})
		})
	}
	for _, p := range []string{"users.json", "a/b/c/users.json", "adir", "adir/x.json", "file/x.json", "loop", "dangling", "dangling-deep", "link"} {
		c.Case("open-path/"+p, func(v *V) {
			EnumerateFaults(c, v, bound, func(ins []injection) []FSEvent {
				w := NewWorld(c.Scratch)
				defer w.Close()
				at := func(n string) string { return filepath.Join(w.root, n) }
				os.Mkdir(at("adir"), 0700)
				writeFile(at("file"), []byte("{}"))
				writeFile(at("other.json"), good)
				os.Symlink("loop", at("loop"))
				os.Symlink("adir/new.json", at("dangling"))
				os.Symlink("nowhere/new.json", at("dangling-deep"))
				os.Symlink("other.json", at("link"))
				return openUnder(v, w, at(p), p, ins, at("adir/new.json"))
			})
		})
	}
}

func openUnder(v *V, w *World, path, what string, ins []injection, may ...string) []FSEvent {
	d := w.s.dev
	r := w.remains()
	d.log, d.record, d.fault = nil, true, planOf(ins)
	o := w.OpenAt(path)
	d.fault, d.record = nil, false
	log := d.log
	key := what
	for _, in := range ins {
		key += fmt.Sprintf(" %d %s", in.At, in.F.Name)
	}
	if o.Panic != "" {
		v.Fail(key, "opening %s %s: %s", path, describeFaults(ins), o)
	} else if x := w.left(r, log, append(may, path)...); x != "" {
		v.Fail(key, "opening %s %s, which ended with %s:\n%s", path, describeFaults(ins), o, x)
	}
	for i := range d.fds {
		d.fds[i] = nil
	}
	return log
}

// keptMemory repeats operations, with other texts every time, that leave the
// contents of the database as they were.
func keptMemory(c *Ctx) {
	// Texts of valid length, and long ones.
	text := func(i int, long bool) string {
		s := fmt.Sprintf("text-%012d-%012d", i, i)
		if long {
			s += strings.Repeat("x", 4000)
		}
		return s
	}
	type routine struct {
		name string
		n    int
		ops  func(i int) []Op
	}
	var l []routine
	for _, long := range []bool{false, true} {
		n, m, tag := 20000, 5000, ""
		if long {
			n, m, tag = 2000, 1000, "-long"
		}
		add := func(name string, n int, f func(s string) []Op) {
			l = append(l, routine{name + tag, n, func(i int) []Op { return f(text(i, long)) }})
		}
		add("login", n, func(s string) []Op { return []Op{{K: "auth", Name: s, Pw: pwA}} })
		add("password", n/2, func(s string) []Op { return []Op{{K: "auth", Name: "alice", Pw: s}} })
		add("identify", n, func(s string) []Op { return []Op{{K: "identify", Name: s}, {K: "identify", Name: s + "@" + dom}} })
		add("user", n, func(s string) []Op {
			return []Op{{K: "getuser", Name: s, Email: s + "@" + dom}, {K: "getusers", Name: s, Email: "alice@" + dom}, {K: "getpk", Name: "alice", Email: s, Usage: "ssh"}}
		})
		add("usage", n, func(s string) []Op {
			return []Op{on("alice", Op{K: "getpk", Usage: s}), on("alice", Op{K: "getapi", Usage: s})}
		})
		add("lookup", n, func(s string) []Op { return []Op{{K: "lookup", Ref: 0, Payload: "=" + s}} })
		add("refused-user", n/2, func(s string) []Op {
			return []Op{{K: "adduser", Name: s, Email: "alice@" + dom, Pw: pwA}, {K: "adduser", Name: "alice", Email: s + "@" + dom, Pw: pwA}, {K: "adduser", Name: s, Email: s, Pw: "x"}}
		})
		add("refused-change", n/2, func(s string) []Op { return []Op{on("alice", Op{K: "changepw", Old: s, Pw: pwB})} })
		add("refused-key", n/2, func(s string) []Op {
			return []Op{on("alice", Op{K: "addpk", Usage: "ssh", Payload: "garbage", Comment: s}), on("alice", Op{K: "addapi", Usage: "ssh", Comment: s}), on("alice", Op{K: "addmfa", Payload: "totpBad", Comment: s})}
		})
		add("api-key", m, func(s string) []Op {
			return []Op{on("alice", Op{K: "addapi", Usage: "api", Comment: s}), {K: "delapi-last"}}
		})
		add("token", m, func(s string) []Op {
			return []Op{on("alice", Op{K: "addmfa", Payload: "totpC", Comment: s}), {K: "delmfa-last"}}
		})
		add("key", m, func(s string) []Op {
			return []Op{on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh", Comment: s}), {K: "delpk-last"}}
		})
	}
	l = append(l,
		routine{"listings", 4000, func(i int) []Op { return concurrentReaders() }},
		routine{"change", 1500, func(i int) []Op {
			return []Op{on("alice", Op{K: "changepw", Old: pwA, Pw: text(i, false)}), on("alice", Op{K: "changepw", Old: text(i, false), Pw: pwA})}
		}},
		routine{"save", 2000, func(i int) []Op { return []Op{opSave} }},
		routine{"reopen", 3000, func(i int) []Op { return []Op{opReopen} }},
		routine{"copy", 2000, func(i int) []Op { return []Op{{K: "copy", Path: "copy.json"}} }},
	)
	for _, z := range l {
		n := z.n
		if c.Thorough {
			n *= 3
		}
		c.Case("memory/"+z.name, func(v *V) {
			w := c.start(c.prepare(populated(), wideUniverse()))
			defer w.Close()
			exec := func(i int) bool {
				for _, op := range z.ops(i) {
					var o Outcome
					if k := strings.TrimSuffix(op.K, "-last"); k != op.K {
						op = on("alice", Op{K: k})
						switch k {
						case "delapi":
							op.Ref = len(w.apiIDs) - 1
						case "delmfa":
							op.Ref = len(w.mfaIDs) - 1
						default:
							op.Ref = len(w.pkIDs) - 1
						}
						if o = w.Exec(op); !o.OK() {
							v.Fail(z.name, "%s: %s", op, o)
							return false
						}
						// The harness forgets them too.
						w.pkIDs, w.apiIDs, w.mfaIDs, w.secrets = w.pkIDs[:min(len(w.pkIDs), 8)], w.apiIDs[:min(len(w.apiIDs), 8)], w.mfaIDs[:min(len(w.mfaIDs), 8)], w.secrets[:min(len(w.secrets), 8)]
						continue
					}
					o = w.Exec(op)
					if o.Panic != "" || (z.name == "save" || z.name == "change" || z.name == "copy" || z.name == "reopen") && !o.OK() {
						v.Fail(z.name, "%s: %s", op, o)
						return false
					}
				}
				v.Count("repetitions", 1)
				return true
			}
			inUse := func() int64 {
				var m runtime.MemStats
				runtime.GC()
				runtime.GC()
				runtime.ReadMemStats(&m)
				return int64(m.HeapAlloc)
			}
			for i := 0; i < 20; i++ {
				if !exec(i) {
					return
				}
			}
			before := inUse()
			for i := 20; i < 20+n; i++ {
				if c.Expired() || !exec(i) {
					return
				}
			}
			after := inUse()
			v.Sample(map[string]interface{}{"routine": z.name, "repetitions": n, "bytes before": before, "bytes after": after})
			if after-before > 1<<18 {
				v.Fail(z.name, "repeating %s %d times, with other texts every time, took %d bytes of memory, which had been %d", z.ops(0), n, after-before, before)
			}
		})
	}
}
