package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// Program is what several threads do on one database.
type Program struct {
	Name    string
	Prelude []Op
	Threads [][]Op
	Bound   int
	Fine    bool
	Un      *Universe
}

func (p *Program) String() string {
	var l []string
	for i, ops := range p.Threads {
		var x []string
		for _, op := range ops {
			x = append(x, op.String())
		}
		l = append(l, fmt.Sprintf("  thread %d: %s", i+1, strings.Join(x, "; ")))
	}
	return strings.Join(l, "\n")
}

// prepared is the state after a prelude: what a fresh world starts from.
type prepared struct {
	file                          []byte
	pkIDs, apiIDs, mfaIDs, secret []string
	now                           int64
}

var preparedStates = map[string]*prepared{}

func (c *Ctx) prepare(prelude []Op, un *Universe) *prepared {
	key := traceString(prelude)
	if p := preparedStates[key]; p != nil {
		return p
	}
	r, bad := c.newRun(nil, prelude, un)
	if bad != "" {
		fatalf("prelude: %s", bad)
	}
	defer r.w.Close()
	b, err := os.ReadFile(r.w.path)
	if err != nil {
		fatalf("prelude: %v", err)
	}
	p := &prepared{b, r.w.pkIDs, r.w.apiIDs, r.w.mfaIDs, r.w.secrets, r.w.s.now}
	preparedStates[key] = p
	return p
}

// start opens a fresh world in the prepared state.
func (c *Ctx) start(p *prepared) *World {
	w := c.blank(p)
	if o := w.Open(); !o.OK() {
		fatalf("opening the prepared database: %s", o)
	}
	return w
}

// blank is a fresh world in the prepared state, whose database is not open.
func (c *Ctx) blank(p *prepared) *World {
	w := NewWorld(c.Scratch)
	w.s.now = p.now
	w.pkIDs, w.apiIDs, w.mfaIDs, w.secrets = p.pkIDs, p.apiIDs, p.mfaIDs, p.secret
	writeFile(w.path, p.file)
	return w
}

// call is one operation of a thread in an execution.
type call struct {
	op        Op
	r         *requests.Request
	out       string
	from, to  int
	started   bool
	completed bool
}

// maskTimes replaces time stamps (RFC 3339, UTC): the property does not speak
// about them, and the virtual clock differs between schedules.
func maskTimes(s string) string {
	const form = "dddd-dd-ddTdd:dd:dd"
	var b strings.Builder
	last := 0
	for i := 0; i+len(form) < len(s); i++ {
		if s[i+4] != '-' || s[i+10] != 'T' {
			continue
		}
		ok := true
		for j := 0; j < len(form) && ok; j++ {
			if form[j] == 'd' {
				ok = s[i+j] >= '0' && s[i+j] <= '9'
			} else {
				ok = s[i+j] == form[j]
			}
		}
		if !ok {
			continue
		}
		k := i + len(form)
		if s[k] == '.' {
			for k++; k < len(s) && s[k] >= '0' && s[k] <= '9'; k++ {
			}
		}
		if k < len(s) && s[k] == 'Z' {
			b.WriteString(s[last:i] + "(time)")
			last, i = k+1, k
		}
	}
	if last == 0 {
		return s
	}
	return b.String() + s[last:]
}

// perform executes one operation on the calling goroutine, which is under
// control already.
func (w *World) perform(op Op, r *requests.Request) string {
	switch op.K {
	case "copy":
		return okString(w.db.Copy(w.target(op.Path)))
	case "save":
		return okString(w.db.Save())
	case "count":
		return fmt.Sprintf("%d", w.db.GetUserCount())
	case "getpath":
		return strings.TrimPrefix(w.db.GetPath(), w.root)
	}
	err := dispatch(w.db, op.K, r)
	return okString(err) + fmt.Sprintf(" %d ", r.Response.Code) + maskTimes(dump(r.Response.Payload)) +
		fmt.Sprintf(" %q %q %q %q %q %v %v %v", r.User.Username, r.User.Email, r.User.FullName, r.User.Roles, r.User.Challenges, r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal)
}

func okString(err error) string {
	if err != nil {
		return "refused"
	}
	return "ok"
}

// final renders the state in memory and in the files.
func (w *World) final(un *Universe) string {
	var b strings.Builder
	memory, err := json.Marshal(w.db)
	if err != nil {
		return err.Error()
	}
	b.WriteString(maskTimes(string(memory)))
	for _, l := range w.Lines(un) {
		b.WriteString("\n" + l)
	}
	files := fileContents(w.root)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	db := w.db
	for _, n := range names {
		base, text := filepath.Base(n), maskTimes(files[n])
		b.WriteString("\n" + base + ": " + text)
		// What a reopened file shows depends on its contents only.
		key := fmt.Sprintf("%p", un) + text
		lines, ok := reopenedLines[key]
		if !ok {
			var other *identity.Database
			o := w.Call(func() error {
				var err error
				other, err = identity.NewDatabase(n)
				return err
			})
			if o.OK() {
				w.db = other
				lines = strings.Join(w.Lines(un), "\n")
				w.db = db
			} else {
				lines = o.String()
			}
			if len(reopenedLines) > 2000 {
				reopenedLines = map[string]string{}
			}
			reopenedLines[key] = lines
		}
		b.WriteString("\nreopened " + base + ":\n" + lines)
	}
	return b.String()
}

var reopenedLines = map[string]string{}

// orders lists the interleavings of whole operations: the sequential
// executions. Each is a list of thread indices.
func orders(threads [][]Op) [][]int {
	var out [][]int
	pos := make([]int, len(threads))
	n := 0
	for _, t := range threads {
		n += len(t)
	}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == n {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := range threads {
			if pos[i] < len(threads[i]) {
				pos[i]++
				rec(append(cur, i))
				pos[i]--
			}
		}
	}
	rec(nil)
	return out
}

// outcome is what a client can see of an execution.
type outcome struct {
	results [][]string
	final   string
}

func (o *outcome) key() string { return fmt.Sprintf("%q", o.results) + o.final }

// build makes the threads and requests of one execution.
func (p *Program) build(w *World) ([]*Thread, [][]*call) {
	var threads []*Thread
	var calls [][]*call
	for i, ops := range p.Threads {
		t := w.s.NewThread(i + 1)
		threads = append(threads, t)
		var l []*call
		for _, op := range ops {
			l = append(l, &call{op: op, r: op.request(w)})
		}
		calls = append(calls, l)
	}
	return threads, calls
}

func (w *World) doCall(t *Thread, cl *call) {
	if cl.op.Fault != "" {
		t.fault = faultPlan(cl.op.Fault)
	}
	cl.out = w.perform(cl.op, cl.r)
	t.fault = nil
}

// sequential executes one order on the real code.
func (p *Program) sequential(c *Ctx, st *prepared, order []int) (*outcome, string) {
	w := c.start(st)
	defer w.Close()
	threads, calls := p.build(w)
	pos := make([]int, len(threads))
	o := &outcome{}
	for _, i := range order {
		cl := calls[i][pos[i]]
		pos[i]++
		beat()
		if x := threads[i].Do(func() { w.doCall(threads[i], cl) }); x != nil {
			return nil, fmt.Sprintf("thread %d, %s: does not return normally even without concurrency: %v", i+1, cl.op, x)
		}
	}
	for _, l := range calls {
		var rs []string
		for _, cl := range l {
			rs = append(rs, cl.out)
		}
		o.results = append(o.results, rs)
	}
	o.final = w.final(p.Un)
	return o, ""
}

// Linearizable explores all schedules of a program.
func (c *Ctx) Linearizable(v *V, p *Program) {
	st := c.prepare(p.Prelude, p.Un)
	ords := orders(p.Threads)
	seq := map[string][][]int{}
	for _, ord := range ords {
		o, bad := p.sequential(c, st, ord)
		if bad != "" {
			v.Fail("sequential", "%s\n%s", p, bad)
			return
		}
		seq[o.key()] = append(seq[o.key()], ord)
	}
	v.Count("sequential_orders", len(ords))
	var w *World
	var calls [][]*call
	run := func(prefix []int) *Execution {
		w = c.start(st)
		var bodies []func(t *Thread)
		_, calls = p.build(w)
		for i := range p.Threads {
			l := calls[i]
			bodies = append(bodies, func(t *Thread) {
				for _, cl := range l {
					cl.from = w.s.sched.OpBoundary(t)
					cl.started = true
					w.doCall(t, cl)
					cl.to = w.s.sched.Stamp()
					cl.completed = true
				}
			})
		}
		beat()
		return RunThreads(w.s, bodies, prefix, p.Fine, 3000)
	}
	visit := func(ex *Execution, choices []int) bool {
		ww := w
		defer ww.Close()
		v.Count("transitions", ex.steps)
		v.Count("traces_validated_against_impl", 1)
		where := func() string {
			var l []string
			for i, x := range calls {
				for _, cl := range x {
					s := fmt.Sprintf("  thread %d: [%d,%d] %s = %s", i+1, cl.from, cl.to, cl.op, cl.out)
					if !cl.completed {
						s = fmt.Sprintf("  thread %d: [%d,?] %s", i+1, cl.from, cl.op)
					}
					l = append(l, s)
				}
			}
			return fmt.Sprintf("%s\nschedule %s (%d preemptions)\n%s", p, choiceString(choices), ex.Preemptions(), strings.Join(l, "\n"))
		}
		if ex.diverged {
			v.Count("diverged", 1)
			v.Incomplete("a schedule could not be replayed")
			return true
		}
		if ex.verdict != "" {
			v.Fail(choiceString(choices), "%s\n%s", where(), ex.verdict)
			return false
		}
		for i, x := range ex.panics {
			if x != nil {
				v.Fail(choiceString(choices), "%s\nthread %d panics: %v", where(), i+1, x)
				return false
			}
		}
		o := &outcome{}
		for _, l := range calls {
			var rs []string
			for _, cl := range l {
				rs = append(rs, cl.out)
			}
			o.results = append(o.results, rs)
		}
		o.final = ww.final(p.Un)
		key := o.key()
		v.State("states", p.Name+key)
		if ex.Preemptions() > 0 {
			v.Count("preempted_schedules", 1)
		}
		matching := seq[key]
		for _, ord := range matching {
			if respects(ord, calls) {
				return true
			}
		}
		if len(matching) > 0 {
			v.Fail(choiceString(choices), "%s\nthe outcome is only that of orders that contradict real time, such as %v", where(), matching[0])
			return false
		}
		d := ""
		for k, ord := range seq {
			d = fmt.Sprintf("the outcome is that of no sequential order of the operations; compared with the order %v:\n%s", ord[0], diffText(k, key))
			break
		}
		v.Fail(choiceString(choices), "%s\n%s", where(), d)
		return false
	}
	n, complete := Explore(p.Bound, run, func(ex *Execution, choices []int) bool {
		if c.Expired() {
			w.Close()
			return false
		}
		return visit(ex, choices)
	})
	v.Count("schedules", n)
	if !complete && !v.Failed() {
		v.Incomplete("budget used up")
	}
	if v.WantSample() && len(p.Threads) > 1 {
		v.Sample(map[string]interface{}{"program": strings.Split(p.String(), "\n"), "schedules": n, "preemption_bound": p.Bound, "sequential_outcomes": len(seq)})
	}
}

// respects reports whether an order agrees with the real-time order of calls.
func respects(ord []int, calls [][]*call) bool {
	pos := make([]int, len(calls))
	var seq []*call
	for _, i := range ord {
		seq = append(seq, calls[i][pos[i]])
		pos[i]++
	}
	for a := range seq {
		for b := a + 1; b < len(seq); b++ {
			if seq[b].to < seq[a].from {
				return false
			}
		}
	}
	return true
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from, to := i-120, i+200
		if from < 0 {
			from = 0
		}
		if to > len(s) {
			to = len(s)
		}
		return s[from:to]
	}
	return "  sequential: ..." + cut(a) + "\n  concurrent: ..." + cut(b)
}
