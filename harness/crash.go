package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// A model of what a file system keeps over a crash. File data becomes durable
// by fsync of the file; until then any part of it may be lost or torn. Entries
// of directories become durable, in order, by fsync of the directory; until
// then any suffix of them may be lost.

type wop struct {
	truncate bool
	off      int64
	data     []byte
}

type inode struct {
	id      int
	durable []byte
	pending []wop
	sync    bool // opened with O_SYNC
}

func applyWop(b []byte, w wop) []byte {
	if w.truncate {
		if int64(len(b)) > w.off {
			return append([]byte{}, b[:w.off]...)
		}
		out := make([]byte, w.off)
		copy(out, b)
		return out
	}
	n := int64(len(b))
	if e := w.off + int64(len(w.data)); e > n {
		n = e
	}
	out := make([]byte, n)
	copy(out, b)
	copy(out[w.off:], w.data)
	return out
}

func (n *inode) volatile() []byte {
	b := n.durable
	for _, w := range n.pending {
		b = applyWop(b, w)
	}
	return b
}

// outcomes lists the contents an inode may have after a crash.
func (n *inode) outcomes() (_ [][]byte, complete bool) {
	complete = true
	type cand struct{ b []byte }
	cur := []cand{{n.durable}}
	for _, w := range n.pending {
		var next []cand
		seen := map[string]bool{}
		add := func(b []byte) {
			if seen[string(b)] {
				return
			}
			if len(next) == 200 {
				complete = false
				return
			}
			seen[string(b)] = true
			next = append(next, cand{b})
		}
		for _, c := range cur {
			add(c.b) // lost
			add(applyWop(c.b, w))
			if w.truncate {
				continue
			}
			l := len(w.data)
			for _, k := range []int{1, l / 2, l - 1} {
				if k > 0 && k < l {
					add(applyWop(c.b, wop{off: w.off, data: w.data[:k]}))
					zero := make([]byte, l)
					copy(zero, w.data[:k])
					add(applyWop(c.b, wop{off: w.off, data: zero}))
					// The tail without the head.
					tail := make([]byte, l)
					copy(tail[k:], w.data[k:])
					add(applyWop(c.b, wop{off: w.off, data: tail}))
				}
			}
			add(applyWop(c.b, wop{off: w.off, data: make([]byte, l)}))
		}
		cur = next
	}
	var out [][]byte
	for _, c := range cur {
		out = append(out, c.b)
	}
	return out, complete
}

type dirOp struct {
	kind string // link, unlink, rename, mkdir
	path string
	to   string
	ino  int
	sym  string
}

type crashFS struct {
	inodes  map[int]*inode
	nextIno int
	durable map[string]entry // path to entry
	pending []dirOp
	fds     map[int]int // descriptor to inode, 0 for directories
	fdPath  map[int]string
}

type entry struct {
	ino int
	dir bool
	sym string
}

func newCrashFS(root string) *crashFS {
	fs := &crashFS{inodes: map[int]*inode{}, durable: map[string]entry{}, fds: map[int]int{}, fdPath: map[int]string{}, nextIno: 1}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		switch {
		case fi.IsDir():
			fs.durable[p] = entry{dir: true}
		case fi.Mode()&os.ModeSymlink != 0:
			s, _ := os.Readlink(p)
			fs.durable[p] = entry{sym: s}
		default:
			b, _ := os.ReadFile(p)
			fs.durable[p] = entry{ino: fs.newInode(b)}
		}
		return nil
	})
	return fs
}

func (fs *crashFS) newInode(b []byte) int {
	n := fs.nextIno
	fs.nextIno++
	fs.inodes[n] = &inode{id: n, durable: b}
	return n
}

func applyDirOp(m map[string]entry, op dirOp) {
	switch op.kind {
	case "link":
		m[op.path] = entry{ino: op.ino}
	case "symlink":
		m[op.path] = entry{sym: op.sym}
	case "mkdir":
		m[op.path] = entry{dir: true}
	case "unlink":
		delete(m, op.path)
	case "rename":
		if e, ok := m[op.path]; ok {
			if e.dir {
				var under []string
				for p := range m {
					if strings.HasPrefix(p, op.path+"/") {
						under = append(under, p)
					}
				}
				for _, p := range under {
					m[op.to+p[len(op.path):]] = m[p]
					delete(m, p)
				}
			}
			delete(m, op.path)
			m[op.to] = e
		}
	}
}

func (fs *crashFS) dirs(prefix int) map[string]entry {
	m := map[string]entry{}
	for k, v := range fs.durable {
		m[k] = v
	}
	for _, op := range fs.pending[:prefix] {
		applyDirOp(m, op)
	}
	return m
}

func (fs *crashFS) lookup(m map[string]entry, p string) (string, entry, bool) {
	for n := 0; n < 10; n++ {
		e, ok := m[p]
		if !ok {
			return p, e, false
		}
		if e.sym == "" {
			return p, e, true
		}
		if filepath.IsAbs(e.sym) {
			p = filepath.Clean(e.sym)
		} else {
			p = filepath.Join(filepath.Dir(p), e.sym)
		}
	}
	return p, entry{}, false
}

// apply performs an observed call. It reports calls the model does not know.
func (fs *crashFS) apply(ev FSEvent) string {
	if ev.Err != nil {
		return ""
	}
	now := fs.dirs(len(fs.pending))
	switch ev.Name {
	case "openat":
		p, e, ok := fs.lookup(now, ev.Path)
		if !ok && ev.Flags&syscall.O_CREAT != 0 {
			e = entry{ino: fs.newInode(nil)}
			fs.pending = append(fs.pending, dirOp{kind: "link", path: p, ino: e.ino})
			ok = true
		}
		if !ok {
			return "an unknown file was opened: " + ev.Path
		}
		fs.fds[ev.N], fs.fdPath[ev.N] = e.ino, p
		if e.ino != 0 {
			n := fs.inodes[e.ino]
			if ev.Flags&syscall.O_TRUNC != 0 && len(n.volatile()) > 0 {
				n.pending = append(n.pending, wop{truncate: true})
			}
			n.sync = ev.Flags&(syscall.O_SYNC|syscall.O_DSYNC) != 0
		}
	case "write", "pwrite":
		n := fs.inodes[fs.fds[ev.Fd]]
		if n == nil {
			return "a write to an unknown file"
		}
		n.pending = append(n.pending, wop{off: ev.Off, data: ev.Data})
		if n.sync {
			n.durable, n.pending = n.volatile(), nil
		}
	case "ftruncate":
		if n := fs.inodes[fs.fds[ev.Fd]]; n != nil {
			n.pending = append(n.pending, wop{truncate: true, off: ev.Off})
		}
	case "truncate":
		if _, e, ok := fs.lookup(now, ev.Path); ok && e.ino != 0 {
			n := fs.inodes[e.ino]
			n.pending = append(n.pending, wop{truncate: true, off: ev.Off})
		}
	case "fsync", "fdatasync":
		if n := fs.inodes[fs.fds[ev.Fd]]; n != nil {
			n.durable, n.pending = n.volatile(), nil
			return ""
		}
		dir := fs.fdPath[ev.Fd]
		var left []dirOp
		for _, op := range fs.pending {
			if filepath.Dir(op.path) == dir || op.to != "" && filepath.Dir(op.to) == dir {
				applyDirOp(fs.durable, op)
			} else {
				left = append(left, op)
			}
		}
		fs.pending = left
	case "close":
		delete(fs.fds, ev.Fd)
		delete(fs.fdPath, ev.Fd)
	case "renameat":
		fs.pending = append(fs.pending, dirOp{kind: "rename", path: ev.Path, to: ev.Path2})
	case "linkat":
		if _, e, ok := fs.lookup(now, ev.Path); ok {
			fs.pending = append(fs.pending, dirOp{kind: "link", path: ev.Path2, ino: e.ino})
		}
	case "symlinkat":
		fs.pending = append(fs.pending, dirOp{kind: "symlink", path: ev.Path, sym: ev.Path2})
	case "unlinkat":
		fs.pending = append(fs.pending, dirOp{kind: "unlink", path: ev.Path})
	case "mkdirat":
		fs.pending = append(fs.pending, dirOp{kind: "mkdir", path: ev.Path})
	}
	return ""
}

// image is a directory tree after a crash.
type image struct {
	dirs  []string
	files map[string][]byte
	syms  map[string]string
	what  string
}

func (im *image) key() string {
	var l []string
	for p, b := range im.files {
		l = append(l, p+"\x00"+string(b))
	}
	for p, s := range im.syms {
		l = append(l, p+"\x01"+s)
	}
	sort.Strings(l)
	return strings.Join(l, "\x02")
}

// images calls f for every state the file system may be in after a crash now.
func (fs *crashFS) images(f func(im *image) bool) (complete bool) {
	complete = true
	for prefix := 0; prefix <= len(fs.pending); prefix++ {
		m := fs.dirs(prefix)
		im := &image{files: map[string][]byte{}, syms: map[string]string{}}
		var inos []int
		seen := map[int]bool{}
		paths := map[int][]string{}
		var all []string
		for p := range m {
			all = append(all, p)
		}
		sort.Strings(all)
		for _, p := range all {
			e := m[p]
			switch {
			case e.dir:
				im.dirs = append(im.dirs, p)
			case e.sym != "":
				im.syms[p] = e.sym
			default:
				if !seen[e.ino] {
					seen[e.ino] = true
					inos = append(inos, e.ino)
				}
				paths[e.ino] = append(paths[e.ino], p)
			}
		}
		count, tooMany := 0, false
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(inos) {
				count++
				if count > 3000 {
					complete, tooMany = false, true
					return false
				}
				im.what = fmt.Sprintf("%d of %d pending directory changes reached the disk", prefix, len(fs.pending))
				return f(im)
			}
			outcomes, all := fs.inodes[inos[i]].outcomes()
			if !all {
				complete = false
			}
			for _, b := range outcomes {
				for _, p := range paths[inos[i]] {
					im.files[p] = b
				}
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		if !rec(0) && !tooMany {
			return true
		}
	}
	return complete
}

// volatileDiff compares the model with the real directory.
func (fs *crashFS) volatileDiff(root string) string {
	real := newCrashFS(root)
	m := fs.dirs(len(fs.pending))
	for p, e := range real.durable {
		x, ok := m[p]
		if !ok {
			return "the model does not know " + p
		}
		if e.dir != x.dir || e.sym != x.sym {
			return "the model has another kind of file at " + p
		}
		if e.ino != 0 && string(real.inodes[e.ino].durable) != string(fs.inodes[x.ino].volatile()) {
			return "the model has other contents at " + p
		}
	}
	for p := range m {
		if _, ok := real.durable[p]; !ok {
			return "the model has a file that does not exist: " + p
		}
	}
	return ""
}

// materialise writes an image to a directory; paths are moved from root.
func (im *image) materialise(root, to string) {
	os.MkdirAll(to, 0700)
	rel := func(p string) string { return to + p[len(root):] }
	for _, d := range im.dirs {
		os.MkdirAll(rel(d), 0700)
	}
	for p, b := range im.files {
		os.MkdirAll(filepath.Dir(rel(p)), 0700)
		writeFile(rel(p), b)
	}
	for p, s := range im.syms {
		os.Symlink(s, rel(p))
	}
}

// CrashCase is a history whose every crash is examined.
type CrashCase struct {
	Name    string
	Prelude []Op
	History []Op
	Un      *Universe
	Path    string // relative path of the database, if not the usual one
	File    string // contents of the file before it is opened
	Create  bool   // opening the database is part of the history
	Setup   func(w *World)
	From    *crowd // the state to start from
}

func (c *Ctx) Crashes(cc CrashCase) {
	c.Case(cc.Name, func(v *V) {
		w := NewWorld(c.Scratch)
		defer func() { w.Close() }()
		if cc.Path != "" {
			w.path = filepath.Join(w.root, cc.Path)
		}
		if cc.File != "" {
			writeFile(w.path, []byte(cc.File))
		}
		if cc.Setup != nil {
			cc.Setup(w)
		}
		m := NewModel()
		fail := func(f string, a ...interface{}) {
			v.Fail("", "%s", fmt.Sprintf(f, a...))
		}
		if cc.From != nil {
			w.Close()
			r, bad := cc.From.run(c, cc.Un)
			if bad != "" {
				fail("%s", bad)
				return
			}
			w, m = r.w, r.m
		}
		if !cc.Create {
			if o := w.Open(); !o.OK() {
				fail("opening: %s", o)
				return
			}
			for _, op := range cc.Prelude {
				if bad := compareResult(op, m.Apply(op), w.Exec(op)); bad != "" {
					fail("%s: %s", op, bad)
					return
				}
			}
		}
		type step struct {
			end   int // index of the first event after the operation
			op    Op
			model *Model // afterwards
		}
		fs := newCrashFS(w.root)
		before := fileContents(w.root)
		d := w.s.dev
		d.log, d.record = nil, true
		initial := m.Clone()
		existed := cc.File != ""
		if !cc.Create {
			existed = true
		}
		var steps []step
		if cc.Create {
			o := w.Open()
			if !o.OK() {
				fail("opening: %s", o)
				return
			}
			steps = append(steps, step{len(d.log), Op{K: "open"}, m.Clone()})
		}
		for _, op := range cc.History {
			if bad := compareResult(op, m.Apply(op), w.Exec(op)); bad != "" {
				fail("%s: %s", op, bad)
				return
			}
			steps = append(steps, step{len(d.log), op, m.Clone()})
		}
		d.record = false
		log := d.log
		// Replay the calls on the model and examine every crash.
		checked := map[string]bool{}
		var copies []string
		for _, op := range cc.History {
			if op.K == "copy" {
				copies = append(copies, op.Path)
			}
		}
		cur := 0
		for k := 0; k <= len(log); k++ {
			if k > 0 {
				if bad := fs.apply(log[k-1]); bad != "" {
					fatalf("the model of the file system does not follow the calls: %s", bad)
				}
			}
			for cur < len(steps) && steps[cur].end <= k {
				cur++
			}
			// cur operations are acknowledged, the next one is in flight.
			acked := initial
			if cur > 0 {
				acked = steps[cur-1].model
			}
			allowed := []*Model{acked}
			if cur < len(steps) && steps[cur].op.K != "copy" {
				allowed = append(allowed, steps[cur].model)
			}
			mayMiss := !existed && cur == 0
			v.Count("crash_points", 1)
			ok := fs.images(func(im *image) bool {
				key := fmt.Sprint(cur, "|") + im.key()
				if checked[key] {
					return true
				}
				checked[key] = true
				v.Count("evaluations", 1)
				v.State("distinct_nontrivial", cc.Name+im.key())
				where := "before the first operation"
				if k > 0 {
					where = "after " + log[k-1].String()
				}
				inflight := "no operation in flight"
				if cur < len(steps) {
					inflight = "in flight: " + steps[cur].op.String()
				}
				desc := fmt.Sprintf("history:\n%s\ncrash at call %d (%s), %d operations acknowledged, %s; %s", traceString(cc.History), k, where, cur, inflight, im.what)
				bad := c.judgeImage(w, im, allowed, mayMiss, cc.Un)
				if bad == "" {
					for _, p := range copies {
						bad = c.judgeCopy(w, im, p, before[filepath.Join(w.root, p)], cc.Un, cur, len(steps), func(i int) (Op, *Model) { return steps[i].op, steps[i].model })
						if bad != "" {
							break
						}
					}
				}
				if bad != "" {
					v.Fail(fmt.Sprintf("%d", k), "%s\n%s", desc, bad)
					return false
				}
				return true
			})
			if !ok {
				v.Incomplete("too many images for one crash point")
			}
			if v.Failed() || c.Expired() {
				return
			}
		}
		if bad := fs.volatileDiff(w.root); bad != "" {
			fatalf("the model of the file system differs from the real one: %s", bad)
		}
		v.Count("conformance_checks", 1)
		if v.WantSample() {
			var l []string
			for _, ev := range log {
				l = append(l, strings.ReplaceAll(ev.String(), w.root, ""))
			}
			v.Sample(map[string]interface{}{"history": traceString(cc.History), "calls": l})
		}
	})
}

// judgeImage opens the database of an image.
func (c *Ctx) judgeImage(w *World, im *image, allowed []*Model, mayMiss bool, un *Universe) string {
	n := NewWorld(c.Scratch)
	defer n.Close()
	im.materialise(w.root, n.root)
	n.path = n.root + w.path[len(w.root):]
	n.pkIDs, n.apiIDs, n.mfaIDs, n.secrets = w.pkIDs, w.apiIDs, w.mfaIDs, w.secrets
	if _, err := os.Stat(n.path); err != nil {
		if mayMiss {
			return ""
		}
		return "the file is gone"
	}
	if o := n.Open(); !o.OK() {
		return "the file cannot be opened: " + o.String()
	}
	diff := ""
	for _, m := range allowed {
		secrets := n.secrets
		n.secrets = secrets[:m.nAPI]
		d := diffLines(m.Lines(un), n.Lines(un))
		n.secrets = secrets
		if d == "" {
			// It keeps working.
			mm := m.Clone()
			op := Op{K: "adduser", Name: "survivor", Email: "survivor@example.com", Pw: "survivor-password"}
			if bad := compareResult(op, mm.Apply(op), n.Exec(op)); bad != "" {
				return "the recovered database does not accept a user: " + bad
			}
			return ""
		}
		diff += "\n" + d
	}
	return "the file holds neither of the states that are allowed:" + diff
}

// judgeCopy opens the target of a copy in an image.
func (c *Ctx) judgeCopy(w *World, im *image, target, before string, un *Universe, acked, total int, step func(i int) (Op, *Model)) string {
	n := NewWorld(c.Scratch)
	defer n.Close()
	im.materialise(w.root, n.root)
	n.pkIDs, n.apiIDs, n.mfaIDs, n.secrets = w.pkIDs, w.apiIDs, w.mfaIDs, w.secrets
	p := filepath.Join(n.root, target)
	// The models the target may hold: that of the last acknowledged copy, or
	// of one in flight.
	var allowed []*Model
	missing := true
	for i := 0; i < total && i <= acked; i++ {
		op, m := step(i)
		if op.K != "copy" || op.Path != target {
			continue
		}
		if i < acked {
			allowed = []*Model{m}
			missing = false
		} else {
			allowed = append(allowed, m)
		}
	}
	if before != "" && missing {
		// Something was there before.
		missing = false
		if got, err := os.ReadFile(p); err == nil && string(got) == before {
			return ""
		}
	}
	if _, err := os.Stat(p); err != nil {
		if missing {
			return ""
		}
		return "the target of the copy is gone"
	}
	if o := n.OpenAt(p); !o.OK() {
		return "the target of the copy cannot be opened: " + o.String()
	}
	diff := ""
	for _, m := range allowed {
		secrets := n.secrets
		n.secrets = secrets[:m.nAPI]
		d := diffLines(m.Lines(un), n.Lines(un))
		n.secrets = secrets
		if d == "" {
			return ""
		}
		diff += "\n" + d
	}
	return "the target of the copy holds neither of the states that are allowed:" + diff
}
