package main

import (
	"fmt"
	"strings"
)

// Seq is a full tree of operation sequences: every sequence over the alphabet
// up to the depth is executed on a fresh database, live, after the prelude,
// and compared with the reference model after every operation, live and after
// reopening the file.
type Seq struct {
	Name     string
	Policy   *mPolicy // written to the file before it is first opened
	Prelude  []Op
	Alphabet []Op
	Depth    int
	Un       *Universe
	NoReopen bool
	// Check is evaluated after the last operation of every sequence.
	Check func(v *V, r *Run, op Op, res Result, o Outcome)
	// Before is called before the last operation of every sequence.
	Before func(r *Run)
	// Step, if set, replaces the execution of the operations after the prelude.
	Step func(r *Run, op Op) string
	// From is the state to start from, before the prelude.
	From *crowd
	// Start is called on the fresh world before the prelude.
	Start func(r *Run)
	// Skip prunes sequences.
	Skip func(trace []Op) bool
	// Reuse makes all operations use one request.
	Reuse bool
	// Dedup expands only one sequence for every model state.
	Dedup bool
}

// Run is one execution of a sequence.
type Run struct {
	w     *World
	m     *Model
	trace []Op
	un    *Universe
	data  map[string]interface{}
}

func traceString(ops []Op) string {
	var l []string
	for i, op := range ops {
		if len(ops) > 60 && i == 10 {
			l = append(l, "  ...")
		}
		if len(ops) > 60 && i >= 10 && i < len(ops)-40 {
			continue
		}
		l = append(l, fmt.Sprintf("  %d. %s", i+1, op))
	}
	return strings.Join(l, "\n")
}

// compareResult compares the outcome of an operation with the model.
func compareResult(op Op, res Result, o Outcome) string {
	if o.Panic != "" {
		return "the operation does not return normally: " + o.Panic
	}
	if res.OK != o.OK() {
		want := "refused"
		if res.OK {
			want = "successful"
		}
		return fmt.Sprintf("expected to be %s, got %s", want, o)
	}
	if (op.K == "auth" || op.K == "authkey") && o.Code != res.Code {
		return fmt.Sprintf("expected response code %d, got %d", res.Code, o.Code)
	}
	if op.K == "lookup" && res.OK {
		if got := o.Req.User.Username + "|" + o.Req.User.Email; got != res.User {
			return fmt.Sprintf("expected the key to authenticate %s, got %s", res.User, got)
		}
	}
	return ""
}

// step executes one operation on both sides.
func (r *Run) step(op Op) (Result, Outcome, string) {
	r.trace = append(r.trace, op)
	if op.K == "look" {
		return Result{OK: true}, Outcome{}, r.observe()
	}
	res := r.m.Apply(op)
	o := r.w.Exec(op)
	return res, o, compareResult(op, res, o)
}

// newRun starts a world with the policy and the prelude applied.
func (c *Ctx) newRun(policy *mPolicy, prelude []Op, un *Universe) (*Run, string) {
	return c.newRunReusing(policy, prelude, un, false)
}

func (c *Ctx) newRunReusing(policy *mPolicy, prelude []Op, un *Universe, reuse bool) (*Run, string) {
	r := &Run{w: NewWorld(c.Scratch), m: NewModel(), un: un, data: map[string]interface{}{}}
	r.w.reuse = reuse
	if policy != nil {
		r.m.Policy = *policy
		writePolicyFile(r.w.path, *policy)
	}
	if o := r.w.Open(); !o.OK() {
		return r, "opening the database: " + o.String()
	}
	for _, op := range prelude {
		if _, _, bad := r.step(op); bad != "" {
			return r, bad
		}
	}
	return r, ""
}

// observe compares the database with the model.
func (r *Run) observe() string { return diffLines(r.m.Lines(r.un), r.w.Lines(r.un)) }

// observeReopened compares a second database opened from the same file.
func (r *Run) observeReopened() string {
	db := r.w.db
	defer func() { r.w.db = db }()
	if o := r.w.Open(); !o.OK() {
		return "reopening the file: " + o.String()
	}
	return r.observe()
}

// Explore enumerates the sequences of s.
func (c *Ctx) Explore(s *Seq) {
	if s.Dedup {
		c.exploreDedup(s)
		return
	}
	var rec func(v *V, idx []int)
	node := func(v *V, idx []int) bool {
		return c.runSeq(v, s, idx)
	}
	ops := func(idx []int) []Op {
		var l []Op
		for _, i := range idx {
			l = append(l, s.Alphabet[i])
		}
		return l
	}
	rec = func(v *V, idx []int) {
		if c.Expired() {
			return
		}
		if s.Skip != nil && s.Skip(ops(idx)) {
			return
		}
		if !node(v, idx) || len(idx) >= s.Depth {
			return
		}
		for j := range s.Alphabet {
			rec(v, append(append([]int{}, idx...), j))
		}
	}
	// A case for every prefix of two operations.
	c.Case(s.Name+"/", func(v *V) { node(v, nil) })
	for i := range s.Alphabet {
		if s.Depth < 1 || s.Skip != nil && s.Skip(ops([]int{i})) {
			continue
		}
		c.Case(fmt.Sprintf("%s/%d", s.Name, i), func(v *V) { node(v, []int{i}) })
	}
	if s.Depth < 2 {
		return
	}
	for i := range s.Alphabet {
		if s.Skip != nil && s.Skip(ops([]int{i})) {
			continue
		}
		for j := range s.Alphabet {
			c.Case(fmt.Sprintf("%s/%d.%d", s.Name, i, j), func(v *V) { rec(v, []int{i, j}) })
		}
	}
}

// runSeq executes one sequence; only the last operation is new.
func (c *Ctx) runSeq(v *V, s *Seq, idx []int) bool {
	r := &Run{}
	bad := ""
	if s.From != nil {
		r, bad = s.From.run(c, s.Un)
		r.w.reuse = s.Reuse
		if s.Start != nil {
			s.Start(r)
		}
		for _, op := range s.Prelude {
			if bad == "" {
				_, _, bad = r.step(op)
			}
		}
	} else if s.Start != nil {
		r = &Run{w: NewWorld(c.Scratch), m: NewModel(), un: s.Un, data: map[string]interface{}{}}
		if s.Policy != nil {
			r.m.Policy = *s.Policy
			writePolicyFile(r.w.path, *s.Policy)
		}
		s.Start(r)
		if o := r.w.Open(); !o.OK() {
			bad = "opening the database: " + o.String()
		}
		for _, op := range s.Prelude {
			if bad == "" {
				_, _, bad = r.step(op)
			}
		}
	} else {
		r, bad = c.newRunReusing(s.Policy, s.Prelude, s.Un, s.Reuse)
	}
	defer r.w.Close()
	fail := func(what string) bool {
		v.Fail(choiceString(idx), "after the history\n%s\n%s", traceString(r.trace), what)
		return false
	}
	if bad != "" {
		return fail(bad)
	}
	var op Op
	var res Result
	var o Outcome
	for n, i := range idx {
		op = s.Alphabet[i]
		if n == len(idx)-1 && s.Before != nil {
			s.Before(r)
		}
		if s.Step != nil {
			r.trace = append(r.trace, op)
			bad = s.Step(r, op)
		} else {
			res, o, bad = r.step(op)
		}
		if bad != "" {
			return fail(bad)
		}
	}
	if len(idx) > 0 {
		v.Count("transitions", 1)
	}
	v.Count("traces_validated_against_impl", 1)
	v.State("states", s.Name+r.m.Key())
	if d := r.observe(); d != "" {
		return fail("the database differs from the model:\n" + d)
	}
	if !s.NoReopen {
		if d := r.observeReopened(); d != "" {
			return fail("the reopened database differs from the model:\n" + d)
		}
	}
	if s.Check != nil {
		n := v.n
		s.Check(v, r, op, res, o)
		if v.n != n {
			return false
		}
	}
	if len(idx) == s.Depth && v.WantSample() {
		v.Sample(map[string]interface{}{"family": s.Name, "history": strings.Split(traceString(r.trace), "\n"), "last": o.String()})
	}
	return true
}

// exploreDedup is a breadth-first search over model states: from every model
// state reached one sequence is extended by every operation.
func (c *Ctx) exploreDedup(s *Seq) {
	type nd struct{ idx []int }
	seen := map[string]bool{}
	m := NewModel()
	if s.Policy != nil {
		m.Policy = *s.Policy
	}
	for _, op := range s.Prelude {
		m.Apply(op)
	}
	seen[m.Key()] = true
	frontier := []nd{{nil}}
	c.Case(s.Name+"/", func(v *V) { c.runSeq(v, s, nil) })
	for d := 0; d < s.Depth; d++ {
		var next []nd
		for _, n := range frontier {
			base := NewModel()
			if s.Policy != nil {
				base.Policy = *s.Policy
			}
			for _, op := range s.Prelude {
				base.Apply(op)
			}
			for _, i := range n.idx {
				base.Apply(s.Alphabet[i])
			}
			for j := range s.Alphabet {
				idx := append(append([]int{}, n.idx...), j)
				mm := base.Clone()
				mm.Apply(s.Alphabet[j])
				if k := mm.Key(); !seen[k] {
					seen[k] = true
					next = append(next, nd{idx})
				}
			}
			c.Case(s.Name+"/"+choiceString(n.idx)+".*", func(v *V) {
				for j := range s.Alphabet {
					if c.Expired() {
						return
					}
					c.runSeq(v, s, append(append([]int{}, n.idx...), j))
				}
			})
		}
		frontier = next
	}
}

// writePolicyFile writes a database file without users and the given policy.
func writePolicyFile(path string, p mPolicy) {
	doc := obj{
		"version":  "1.0.0",
		"policy":   policyDoc(p),
		"revision": 0,
		"users":    nil,
	}
	writeFile(path, []byte(jsonOf(doc)))
}

func policyDoc(p mPolicy) obj {
	return obj{
		"user":     obj{"min_length": p.UserMin, "max_length": p.UserMax},
		"password": obj{"keep_versions": p.Keep, "min_length": p.PwMin, "max_length": p.PwMax},
	}
}
