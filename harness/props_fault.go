package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
)

// populated is a history after which every operation has something to do.
func populated() []Op {
	out := []Op{uAlice, uBob}
	out = append(out, belongings("alice")...)
	out = append(out, belongings("bob")...)
	return append(out, on("alice", Op{K: "addmfa", Payload: "u2fA", Comment: "key of alice"}), on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaB:sshc"}))
}

// changes are the operations that save the database.
func changes() []Op {
	return []Op{
		uCarol,
		{K: "adduser", Name: "dave", Email: "dave@example.com", Pw: pwC, Full: "Smith, Dave", Roles: []string{"a", "b/c"}},
		on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}),
		on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaC:pem", Comment: "new"}),
		on("alice", Op{K: "addpk", Usage: "gpg", Payload: "pgpB", Comment: "new"}),
		on("alice", Op{K: "delpk", Ref: 0}),
		on("alice", Op{K: "delpk", Ref: 1}),
		on("alice", Op{K: "delpk", Ref: 4}),
		on("alice", Op{K: "addapi", Usage: "api", Comment: "new"}),
		on("alice", Op{K: "delapi", Ref: 0}),
		on("alice", Op{K: "addmfa", Payload: "totpC", Comment: "new"}),
		on("alice", Op{K: "addmfa", Payload: "u2fB", Comment: "new"}),
		on("alice", Op{K: "delmfa", Ref: 0}),
		on("alice", Op{K: "delmfa", Ref: 2}),
	}
}

// refusals are operations that must be refused, for every reason there is.
func refusals() []Op {
	l := []Op{
		addUser("bob", "new@example.com", pwC), addUser("newuser", "BOB@example.com", pwC), addUser("ne", "new@example.com", pwC),
		addUser(strings.Repeat("n", 51), "new@example.com", pwC), addUser("newuser", "new@example.com", "1234567"), addUser("newuser", "new@example.com", strings.Repeat("p", 129)),
		addUser("newuser", "new@example.com", "        "), addUser("newuser", "new@example.com", "password\x00"), addUser("newuser", "newexample.com", pwC), addUser("newuser", "", pwC), addUser("", "new@example.com", pwC), addUser("newuser", "new@example.com", ""),
		{K: "adduser", Name: "newuser", Email: "new@example.com", Pw: pwC, Roles: []string{"admin", ""}},
		{K: "adduser", Name: "newuser", Email: "new@example.com", Pw: pwC, Roles: []string{"admin", "org/"}},
		{K: "adduser", Name: "newuser", Email: "new@example.com", Pw: pwC, Full: "Cher"},
		on("alice", Op{K: "deluser"}),
		on("alice", Op{K: "changepw", Old: pwB, Pw: "changed-password"}), on("alice", Op{K: "changepw", Old: pwA, Pw: "short"}),
		on("alice", Op{K: "changepw", Old: pwA, Pw: strings.Repeat("p", 129)}), on("alice", Op{K: "changepw", Old: pwA, Pw: "         "}), on("alice", Op{K: "changepw", Old: pwA, Pw: "password\x00"}),
		on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaA:pem"}), on("alice", Op{K: "addpk", Usage: "gpg", Payload: "pgpA"}), on("alice", Op{K: "addpk", Usage: "ssh", Payload: "garbage"}),
		on("alice", Op{K: "addpk", Usage: "gpg", Payload: "rsaC:ssh"}), on("alice", Op{K: "addpk", Usage: "ssh", Payload: "pgpB"}), on("alice", Op{K: "addpk", Usage: "", Payload: "rsaC:ssh"}), on("alice", Op{K: "addpk", Usage: "gpg", Payload: "pgpAB"}),
		on("alice", Op{K: "delpk", Ref: -1}), on("alice", Op{K: "delpk", Ref: 2}), on("bob", Op{K: "delpk", Ref: 0}),
		on("alice", Op{K: "addapi", Usage: "api"}), on("alice", Op{K: "addapi", Usage: "ssh", Comment: "c"}), on("alice", Op{K: "delapi", Ref: -1}), on("alice", Op{K: "delapi", Ref: 1}),
		on("alice", Op{K: "addmfa", Payload: "totpA", Comment: "other"}), on("alice", Op{K: "addmfa", Payload: "totpC", Comment: "app of alice"}), on("alice", Op{K: "addmfa", Payload: "totpBad", Comment: "x"}),
		on("alice", Op{K: "addmfa", Payload: "totpAlgo", Comment: "x"}), on("alice", Op{K: "addmfa", Payload: "u2fBad", Comment: "x"}), on("alice", Op{K: "addmfa", Payload: "none", Comment: "x"}), on("alice", Op{K: "addmfa", Payload: "u2fA", Comment: "y"}),
		on("alice", Op{K: "delmfa", Ref: -1}), on("alice", Op{K: "delmfa", Ref: 1}),
		{K: "auth", Name: "alice", Pw: pwB}, {K: "auth", Name: "nobody", Pw: pwB}, {K: "auth", Name: "alice", Pw: ""}, {K: "authkey", Name: "bob", Payload: "u2fA"}, {K: "authkey", Name: "nobody", Payload: "u2fA"},
		{K: "lookup", Ref: 0, Payload: "p40"}, {K: "lookup", Ref: 0, Payload: "prefix"}, {K: "lookup", Ref: 0, Payload: "empty"},
	}
	// Every operation with a mismatching identity.
	for _, op := range changes() {
		if op.K == "adduser" {
			continue
		}
		op.Email = "bob@example.com"
		l = append(l, op)
	}
	for _, k := range []string{"getuser", "getusers", "getpk", "getapi", "getmfa", "deluser"} {
		l = append(l, Op{K: k, Name: "alice", Email: "bob@example.com", Usage: "ssh"}, Op{K: k})
	}
	return l
}

func wideUniverse() *Universe {
	return &Universe{
		Pairs:  [][2]string{{"alice", "alice@example.com"}, {"bob", "bob@example.com"}, {"carol", "carol@example.com"}, {"dave", "dave@example.com"}, {"newuser", "new@example.com"}, {"alice", "bob@example.com"}},
		Logins: []string{"alice", "bob@example.com", "carol", "dave@example.com", "newuser"}, Pws: []string{pwA, pwB, pwC, "changed-password"}, Keys: []string{"u2fA", "u2fB"}, Alts: []string{"p40"},
	}
}

func init() {
	register(&Property{
		ID: "C07", Level: "fault_enumeration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule: "every saving operation in every initial state under every choice of at most two faults (three for thorough, error menus cut) in its file-system calls: every call, every error of a menu, every short write, once or persistently; plus every refusal. Non-trivial: executions in which an injected fault was hit",
		Run: func(c *Ctx) {
			un := wideUniverse()
			// Refused requests change nothing, alone and in pairs.
			for i, op := range refusals() {
				c.FaultOp(FaultCase{Name: "refused/" + itoa(i), Prelude: populated(), Op: op, Un: un, Bound: 0})
			}
			for i, op := range refusals() {
				c.FaultOp(FaultCase{Name: "refused-empty/" + itoa(i), Op: op, Un: un, Bound: 0})
			}
			ops := append(changes(), opSave, Op{K: "copy", Path: "copy.json"}, Op{K: "copy", Path: "old.json"})
			for i, op := range ops {
				setup := populated()
				if op.K == "copy" && op.Path == "old.json" {
					setup = append([]Op{uCarol, {K: "copy", Path: "old.json"}}, setup...)
				}
				bound := 2
				if c.Thorough {
					bound = 3
				}
				c.FaultOp(FaultCase{Name: fmt.Sprintf("faults/%d/%s", i, op.K), Prelude: setup, Op: op, Un: un, Bound: bound})
			}
			// A user who has as many earlier passwords as are kept.
			for _, keep := range []int{1, 2, 3, 10} {
				pol := &mPolicy{3, 50, 8, 128, keep}
				pre := append([]Op{uAlice}, belongings("alice")...)
				old := pwA
				for i := 0; i <= keep+1; i++ {
					pw := []string{pwB, pwC, pwA}[i%3]
					pre = append(pre, on("alice", Op{K: "changepw", Old: old, Pw: pw}))
					old = pw
				}
				for i, op := range []Op{on("alice", Op{K: "changepw", Old: old, Pw: "changed-password"}), on("alice", Op{K: "addapi", Usage: "api", Comment: "k"}), on("alice", Op{K: "changepw", Old: "not this", Pw: "changed-password"})} {
					c.FaultOp(FaultCase{Name: fmt.Sprintf("faults/kept-%d/%d", keep, i), Policy: pol, Prelude: pre, Op: op, Un: un, Bound: 1})
				}
			}
			c.FaultOp(FaultCase{Name: "faults/first-user", Op: uAlice, Un: un, Bound: 2})
			for _, cr := range c.crowdList() {
				crun := crowdUniverse(cr)
				for i, op := range refusals() {
					c.FaultOp(FaultCase{Name: fmt.Sprintf("crowd-%s/refused/%d", cr.name, i), From: cr, Op: op, Un: crun})
				}
				for i, op := range append(ops[:len(ops):len(ops)], crowdOps(cr)...) {
					c.FaultOp(FaultCase{Name: fmt.Sprintf("crowd-%s/faults/%d", cr.name, i), From: cr, Op: op, Un: crun, Bound: 1})
				}
			}
			// Sequences in which failures and successes alternate.
			chg := func(old, pw string) Op { return on("alice", Op{K: "changepw", Old: old, Pw: pw}) }
			key := on("alice", Op{K: "addapi", Usage: "api", Comment: "k"})
			tok := on("alice", Op{K: "addmfa", Payload: "totpA", Comment: "t"})
			pk := on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaA:ssh", Comment: "p"})
			alpha := []Op{faulty(chg(pwA, "changed-password"), "short"), chg(pwA, "changed-password"), faulty(key, "enospc"), key, faulty(tok, "enospc"), tok, faulty(pk, "short"), pk,
				faulty(uBob, "enospc"), uBob, faulty(on("alice", Op{K: "delapi", Ref: 0}), "erofs"), on("alice", Op{K: "delapi", Ref: 0}), faulty(opSave, "enospc"), opReopen}
			depth := 3
			if c.Thorough {
				depth = 4
			}
			c.Explore(&Seq{Name: "mixed", Prelude: []Op{uAlice}, Alphabet: alpha, Depth: depth, Un: un})
			faultyOpen(c)
		},
	})

	register(&Property{
		ID: "C25", Level: "model_checking", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule: "every sequence of changes, copies to several targets, failing copies and reopenings up to the depth; after each, the source, its file and every copy are compared with the model of the moment they were made",
		Run:  runC25,
	})
}

// faultyOpen: creating a database, or completing the policy of an existing
// file, under every fault.
func faultyOpen(c *Ctx) {
	type start struct {
		name string
		path string
		file string
	}
	noPolicy := `{"version":"1.0.0","revision":3,"users":[]}`
	for _, st := range []start{{"new", "users.json", ""}, {"nested", "a/b/users.json", ""}, {"defaults", "users.json", noPolicy}} {
		c.Case("open/"+st.name, func(v *V) {
			bound := 2
			EnumerateFaults(c, v, bound, func(ins []injection) []FSEvent {
				w := NewWorld(c.Scratch)
				defer w.Close()
				w.path = filepath.Join(w.root, st.path)
				if st.file != "" {
					writeFile(w.path, []byte(st.file))
				}
				d := w.s.dev
				d.record = true
				d.fault = planOf(ins)
				o := w.Open()
				d.fault, d.record = nil, false
				log := d.log
				d.fds = [1024]*openFile{}
				fail := func(f string, a ...interface{}) {
					v.Fail(st.name+describeFaults(ins), "opening %s %s:\n%s", st.path, describeFaults(ins), fmt.Sprintf(f, a...))
				}
				if o.Panic != "" {
					fail("%s", o)
					return log
				}
				if !o.OK() {
					if len(ins) == 0 {
						fail("%s", o)
						return log
					}
					b, err := os.ReadFile(w.path)
					if st.file != "" && (err != nil || string(b) != st.file) {
						fail("%s was reported, but the file has changed to %q", o, b)
						return log
					}
					if o = w.Open(); !o.OK() {
						fail("opening again without faults: %s", o)
						return log
					}
				}
				m := NewModel()
				un := &Universe{Pairs: pairsOf("alice"), Logins: []string{"alice"}, Pws: []string{pwA}}
				m.Apply(uAlice)
				if o := w.Exec(uAlice); !o.OK() {
					fail("the database opened does not accept a user: %s", o)
				} else if x := diffLines(m.Lines(un), w.Lines(un)); x != "" {
					fail("the database differs from the model:\n%s", x)
				} else if o := w.Open(); !o.OK() {
					fail("reopening: %s", o)
				} else if x := diffLines(m.Lines(un), w.Lines(un)); x != "" {
					fail("the reopened database differs from the model:\n%s", x)
				}
				return log
			})
		})
	}
}

func runC25(c *Ctx) {
	un := wideUniverse()
	for i, target := range []string{"copy.json", "old.json", "old.json"} {
		prelude := populated()
		if i == 1 {
			prelude = append([]Op{uCarol, {K: "copy", Path: "old.json"}}, prelude...)
		}
		if i == 2 {
			prelude = append(prelude, Op{K: "copy", Path: "old.json"}, uCarol)
		}
		c.FaultOp(FaultCase{Name: "faults/" + itoa(i), Prelude: prelude, Op: Op{K: "copy", Path: target}, Un: un, Bound: 2})
	}
	alpha := []Op{
		{K: "copy", Path: "one.json"}, {K: "copy", Path: "two.json"}, {K: "copy", Path: "link.json"},
		faulty(Op{K: "copy", Path: "one.json"}, "enospc"), faulty(Op{K: "copy", Path: "two.json"}, "short"),
		{K: "copy", Path: "missing/dir/x.json"}, {K: "copy", Path: "adir"},
		uCarol, on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}), on("alice", Op{K: "addapi", Usage: "api", Comment: "n"}), on("alice", Op{K: "delapi", Ref: 0}),
		faulty(uCarol, "enospc"), opSave, opReopen, {K: "edit-copy", Path: "one.json"},
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	copies := &Seq{Name: "copies", Prelude: populated()[:6], Alphabet: alpha, Depth: depth, Un: un,
		Start: func(r *Run) {
			os.Mkdir(filepath.Join(r.w.root, "adir"), 0700)
			os.Symlink("real.json", filepath.Join(r.w.root, "link.json"))
			writeFile(filepath.Join(r.w.root, "real.json"), []byte("{}"))
			r.data["copies"] = map[string]*Model{}
		},
		Step: func(r *Run, op Op) string {
			copies := r.data["copies"].(map[string]*Model)
			file, _ := os.ReadFile(r.w.path)
			path := ""
			if o := r.w.Exec(Op{K: "getpath"}); o.OK() {
				path = o.Payload.(string)
			}
			if path != r.w.path {
				return "the path of the source is " + path
			}
			switch op.K {
			case "copy":
				target := r.w.target(op.Path)
				before, _ := os.ReadFile(target)
				o := r.w.Exec(op)
				bad := op.Fault != "" || op.Path == "adir" || strings.HasPrefix(op.Path, "missing/")
				if o.Panic != "" {
					return o.String()
				}
				if !bad && !o.OK() {
					return "copying to " + op.Path + ": " + o.String()
				}
				if (op.Fault != "" || op.Path == "adir") && o.OK() {
					return "copying to " + op.Path + " succeeded"
				}
				if now, _ := os.ReadFile(r.w.path); string(now) != string(file) {
					return "copying changed the file of the source"
				}
				if o.OK() {
					copies[op.Path] = r.m.Clone()
				} else if now, _ := os.ReadFile(target); string(now) != string(before) {
					return "a failed copy changed the target"
				}
				return ""
			case "edit-copy":
				m := copies[op.Path]
				if m == nil {
					return ""
				}
				db := r.w.db
				defer func() { r.w.db = db }()
				if o := r.w.OpenAt(r.w.target(op.Path)); !o.OK() {
					return "opening the copy: " + o.String()
				}
				x := on("bob", Op{K: "adduser", Pw: pwC})
				x.Name, x.Email = "mallory", "mallory@example.com"
				if bad := compareResult(x, m.Apply(x), r.w.Exec(x)); bad != "" {
					return "adding a user to the copy: " + bad
				}
				if now, _ := os.ReadFile(r.w.path); string(now) != string(file) {
					return "a change of the copy changed the file of the source"
				}
				return ""
			}
			res := r.m.Apply(op)
			return compareResult(op, res, r.w.Exec(op))
		},
		Check: func(v *V, r *Run, op Op, res Result, o Outcome) {
			copies := r.data["copies"].(map[string]*Model)
			for p, m := range copies {
				db, secrets := r.w.db, r.w.secrets
				r.w.secrets = secrets[:m.nAPI]
				o := r.w.OpenAt(r.w.target(p))
				bad := ""
				if !o.OK() {
					bad = o.String()
				} else {
					bad = diffLines(m.Lines(un), r.w.Lines(un))
				}
				r.w.db, r.w.secrets = db, secrets
				if bad != "" {
					v.Fail("copy "+p, "after\n%s\nthe copy at %s differs from what was copied:\n%s", traceString(r.trace), p, bad)
				}
			}
		},
	}
	c.Explore(copies)
	for _, cr := range c.crowdList() {
		x := *copies
		x.Name, x.Prelude, x.From, x.Depth, x.Un = "crowd-"+cr.name, nil, cr, 2, crowdUniverse(cr)
		x.Alphabet = append([]Op{alpha[0], alpha[2], alpha[3], alpha[7], alpha[9]}, crowdOps(cr)...)
		if len(x.Alphabet) > 9 {
			x.Alphabet = x.Alphabet[:9]
		}
		c.Explore(&x)
	}
	// Paths with a tilde, onto itself, and deep equality of the copy.
	c.Case("paths", func(v *V) {
		r, bad := c.newRun(nil, populated(), un)
		defer r.w.Close()
		if bad != "" {
			v.Fail("", "%s", bad)
			return
		}
		os.Setenv("HOME", r.w.root)
		for _, p := range []string{"~/tilde.json", "plain.json", filepath.Base(r.w.path)} {
			o := r.w.Exec(Op{K: "copy", Path: p})
			v.Count("transitions", 1)
			if !o.OK() {
				v.Fail(p, "copying to %s: %s", p, o)
				continue
			}
			real := p
			if strings.HasPrefix(p, "~/") {
				real = p[2:]
			}
			if _, err := os.Stat(filepath.Join(r.w.root, real)); err != nil {
				v.Fail(p, "copying to %s: %v", p, err)
				continue
			}
			db := r.w.db
			if o := r.w.OpenAt(filepath.Join(r.w.root, real)); !o.OK() {
				v.Fail(p, "opening the copy %s: %s", p, o)
			} else {
				if x := r.observe(); x != "" {
					v.Fail(p, "the copy %s differs:\n%s", p, x)
				}
				if a, b := sansTime(db), sansTime(r.w.db); a != b {
					v.Fail(p, "the copy %s differs from the source:\n%s", p, firstDiff(a, b))
				}
			}
			r.w.db = db
		}
	})
	// Whatever became of the target meanwhile, and however it is spelt.
	for _, state := range []string{"as is", "removed", "garbage", "empty", "cut", "foreign", "older"} {
		c.Case("targets/"+state, func(v *V) {
			for i, spell := range []string{"%s/%s", "%s/./%s", "%s//%s", "%s/adir/../%s", "~%.0s/%s", "%s/self-%s", "save"} {
				for _, other := range []bool{false, true} {
					if spell == "save" && other {
						continue
					}
					r, bad := c.newRun(nil, populated(), un)
					if bad != "" {
						v.Fail("", "%s", bad)
						return
					}
					os.Setenv("HOME", r.w.root)
					os.Mkdir(filepath.Join(r.w.root, "adir"), 0700)
					real := r.w.path
					older, _ := os.ReadFile(real)
					if res := r.m.Apply(uCarol); compareResult(uCarol, res, r.w.Exec(uCarol)) != "" {
						v.Fail("", "adding a user: %s", r.trace)
					}
					whole, _ := os.ReadFile(real)
					if other {
						real = filepath.Join(r.w.root, "other.json")
						writeFile(real, whole)
					}
					os.Symlink(filepath.Base(real), filepath.Join(r.w.root, "self-"+filepath.Base(real)))
					switch state {
					case "removed":
						os.Remove(real)
					case "garbage":
						writeFile(real, []byte(strings.Repeat("garbage\n", 5000)))
					case "empty":
						writeFile(real, nil)
					case "cut":
						writeFile(real, whole[:len(whole)/2])
					case "foreign":
						writeFile(real, []byte(`{"version":"1.0.0","users":[]}`))
					case "older":
						writeFile(real, older)
					}
					var o Outcome
					what := fmt.Sprintf("%d to its own path", i)
					if other {
						what = fmt.Sprintf("%d to another path", i)
					}
					if spell == "save" {
						what = "save"
						o = r.w.Exec(opSave)
					} else {
						o = r.w.Exec(Op{K: "copy", Path: fmt.Sprintf(spell, r.w.root, filepath.Base(real))})
					}
					v.Count("transitions", 1)
					v.State("states", fmt.Sprint(state, what))
					if !o.OK() {
						v.Fail(what, "the file %s: copying %s: %s", state, what, o)
					} else if o := r.w.OpenAt(real); !o.OK() {
						v.Fail(what, "the file %s: opening what was copied %s: %s", state, what, o)
					} else if x := r.observe(); x != "" {
						v.Fail(what, "the file %s: what was copied %s differs:\n%s", state, what, x)
					}
					r.w.Close()
				}
			}
		})
	}
}

// sansTime is everything exported of a database except its own revision and
// modification time.
func sansTime(db *identity.Database) string {
	m := mapOf(toTree(db))
	delete(m, "revision")
	delete(m, "last_modified")
	return jsonOf(m)
}
