package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

// secretRun executes operations and watches, at every file-system call, the
// permissions of everything below the scratch directory, and after every
// operation the contents of all files and listings.
type secretRun struct {
	*Run
	bad    string
	before map[string]os.FileMode
	allow  os.FileMode // bits of group and others that a new file may have
	pws    []string
	hashes map[string]string // salt -> hash
}

func modesBelow(root string) map[string]os.FileMode {
	out := map[string]os.FileMode{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != root && fi.Mode()&os.ModeSymlink == 0 {
			out[p] = fi.Mode()
		}
		return nil
	})
	return out
}

func (s *secretRun) watch(what string) {
	if s.bad != "" {
		return
	}
	for p, m := range modesBelow(s.w.root) {
		rel := strings.TrimPrefix(p, s.w.root+"/")
		old, existed := s.before[p]
		switch {
		case existed && m.Perm()&^old.Perm() != 0:
			s.bad = fmt.Sprintf("%s: the permissions of %s are widened from %o to %o", what, rel, old.Perm(), m.Perm())
		case !existed && m.IsDir() && m.Perm()&077 != 0:
			s.bad = fmt.Sprintf("%s: the directory %s is created with permissions %o", what, rel, m.Perm())
		case !existed && !m.IsDir() && m.Perm()&077&^s.allow != 0:
			s.bad = fmt.Sprintf("%s: the file %s has permissions %o", what, rel, m.Perm())
		}
	}
}

func forbidden(text string) []string {
	var out []string
	for _, t := range []string{text, strings.ToLower(text), strings.ToUpper(text), reverse(text)} {
		out = append(out, t, base64.RawStdEncoding.EncodeToString([]byte(t)), base64.RawURLEncoding.EncodeToString([]byte(t)), hex.EncodeToString([]byte(t)))
	}
	return out
}

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

// leak looks for a secret in a text.
func (s *secretRun) leak(text string) string {
	for _, p := range s.pws {
		for _, f := range forbidden(p) {
			if strings.Contains(text, f) {
				return fmt.Sprintf("the password %q (as %q)", p, f)
			}
		}
	}
	for _, k := range s.w.secrets {
		if len(k) < 24+20 {
			continue
		}
		for i := 24; i+20 <= len(k); i += 4 {
			for _, f := range forbidden(k[i : i+20])[:1] {
				if strings.Contains(text, f) {
					return fmt.Sprintf("a part of the API key %q (as %q)", k, f)
				}
			}
		}
		if h := hex.EncodeToString([]byte(k)); strings.Contains(text, h[48:]) {
			return fmt.Sprintf("the API key %q in hexadecimal", k)
		}
		if h := base64.StdEncoding.EncodeToString([]byte(k)); strings.Contains(text, h[32:]) {
			return fmt.Sprintf("the API key %q in base64", k)
		}
	}
	return ""
}

var bcryptForm = regexp.MustCompile(`^\$2[abxy]?\$([0-9]{2})\$([./A-Za-z0-9]{22})[./A-Za-z0-9]{31}$`)

func (s *secretRun) inspect(what string) {
	if s.bad != "" {
		return
	}
	for p, text := range fileContents(s.w.root) {
		rel := strings.TrimPrefix(p, s.w.root+"/")
		if l := s.leak(text); l != "" {
			s.bad = fmt.Sprintf("%s: the file %s holds %s", what, rel, l)
			return
		}
		doc, err := s.w.File(p)
		if err != nil {
			continue
		}
		inFile := map[string]bool{}
		check := func(kind, h string) {
			m := bcryptForm.FindStringSubmatch(h)
			switch {
			case m == nil:
				s.bad = fmt.Sprintf("%s: %s in %s is not a bcrypt hash: %q", what, kind, rel, h)
			case m[1] < "10":
				s.bad = fmt.Sprintf("%s: %s in %s has cost %s", what, kind, rel, m[1])
			case inFile[m[2]]:
				s.bad = fmt.Sprintf("%s: %s in %s shares the salt %s with another one", what, kind, rel, m[2])
			case s.hashes[m[2]] != "" && s.hashes[m[2]] != h:
				s.bad = fmt.Sprintf("%s: %s in %s has the salt %s of an earlier hash", what, kind, rel, m[2])
			default:
				inFile[m[2]] = true
				s.hashes[m[2]] = h
			}
		}
		for _, u := range listOf(doc["users"]) {
			for _, x := range listOf(mapOf(u)["passwords"]) {
				h, _ := mapOf(x)["hash"].(string)
				check("a password", h)
			}
			for _, x := range listOf(mapOf(u)["api_keys"]) {
				h, _ := mapOf(x)["payload"].(string)
				check("an API key", h)
			}
		}
	}
	for _, u := range s.m.Users {
		for _, op := range []Op{{K: "getusers"}, {K: "getuser"}, {K: "getapi"}, {K: "getpk", Usage: "ssh"}, {K: "getmfa"}, {K: "identify"}} {
			op.Name, op.Email = u.Name, u.Email
			o := s.w.Exec(op)
			text := dump(o.Payload)
			if o.Req != nil && op.K == "identify" {
				text += dump(o.Req.User)
			}
			if l := s.leak(text); l != "" {
				s.bad = fmt.Sprintf("%s: the result of %s holds %s", what, op, l)
				return
			}
		}
	}
}

// do executes one operation under observation.
func (s *secretRun) do(op Op) (Outcome, Result) {
	s.before = modesBelow(s.w.root)
	target := s.w.path
	if op.K == "copy" {
		target = s.w.target(op.Path)
	}
	s.allow = 0
	if fi, err := os.Stat(target); err == nil {
		s.allow = fi.Mode().Perm() & 077
	}
	if op.K == "adduser" || op.K == "changepw" {
		s.pws = append(s.pws, op.Pw)
	}
	s.w.s.dev.after = func(ev *FSEvent) {
		s.watch(ev.Name + " during " + op.String())
	}
	o := s.w.Exec(op)
	s.w.s.dev.after = nil
	s.watch("after " + op.String())
	res := Result{OK: true}
	if op.K != "copy" && op.K != "open" {
		res = s.m.Clone().Apply(op)
	}
	if o.OK() && op.K != "copy" {
		s.m.Apply(op)
	}
	s.inspect("after " + op.String())
	return o, res
}

type secretStart struct {
	name string
	path string
	mode os.FileMode // of the existing file; 0 if there is none
	link bool
}

func (c *Ctx) newSecretRun(st secretStart) (*secretRun, Outcome) {
	s := &secretRun{Run: &Run{w: NewWorld(c.Scratch), m: NewModel(), data: map[string]interface{}{}}, hashes: map[string]string{}}
	s.w.path = filepath.Join(s.w.root, st.path)
	if st.mode != 0 {
		writePolicyFile(s.w.path, s.m.Policy)
		if err := os.Chmod(s.w.path, st.mode); err != nil {
			fatalf("%v", err)
		}
	}
	if st.link {
		os.Mkdir(filepath.Join(s.w.root, "real"), 0700)
		os.Rename(s.w.path, filepath.Join(s.w.root, "real", "target.json"))
		os.Symlink("real/target.json", s.w.path)
	}
	for i, m := range []os.FileMode{0600, 0640, 0604, 0660} {
		p := filepath.Join(s.w.root, fmt.Sprintf("old%d.json", i))
		writeFile(p, []byte("{}"))
		os.Chmod(p, m)
	}
	return s, s.open()
}

func (s *secretRun) open() Outcome {
	s.before = modesBelow(s.w.root)
	s.allow = 0
	if fi, err := os.Stat(s.w.path); err == nil {
		s.allow = fi.Mode().Perm() & 077
	}
	s.w.s.dev.after = func(ev *FSEvent) { s.watch(ev.Name + " during opening") }
	o := s.w.Open()
	s.w.s.dev.after = nil
	s.watch("after opening")
	s.inspect("after opening")
	return o
}

func init() {
	register(&Property{
		ID: "C12", Level: "model_checking", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule: "every sequence of operations up to the depth from every initial file and permission, with umask 0, 022 and 077, and every operation under every choice of at most one fault (thorough: two); permissions of every file and directory are read after every single file-system call, all files and listings are searched for every secret after every operation",
		Assumptions: []string{"a secret is looked for as text, in either case, reversed, in base64 and in hexadecimal; other reversible encodings are excluded by the form of the stored hash only",
			"the bcrypt kernel is replaced by a stand-in which is validated against it; cost and salt are those the code passes"},
		Run: runC12,
	})
}

func runC12(c *Ctx) {
	starts := []secretStart{
		{name: "new", path: "users.json"}, {name: "nested", path: "a/b/users.json"}, {name: "0600", path: "users.json", mode: 0600},
		{name: "0640", path: "users.json", mode: 0640}, {name: "0604", path: "users.json", mode: 0604}, {name: "0666", path: "users.json", mode: 0666},
		{name: "0400", path: "users.json", mode: 0400}, {name: "link", path: "users.json", mode: 0600, link: true}, {name: "link-0640", path: "users.json", mode: 0640, link: true},
	}
	same := addUser("bob", "bob@"+dom, pwA)
	key := on("alice", Op{K: "addapi", Usage: "api", Comment: "k"})
	alpha := []Op{
		same, uCarol, addUser("eve", "eve@"+dom, "short"), addUser("alice", "new@"+dom, "another-Password-9"),
		on("alice", Op{K: "changepw", Old: pwA, Pw: pwB}), on("alice", Op{K: "changepw", Old: pwA, Pw: pwA}), on("alice", Op{K: "changepw", Old: pwB, Pw: pwC}),
		key, on("alice", Op{K: "addapi", Usage: "api", Comment: "off", Disabled: true}), on("bob", Op{K: "addapi", Usage: "api", Comment: "k"}), on("alice", Op{K: "delapi", Ref: 0}),
		faulty(on("alice", Op{K: "changepw", Old: pwA, Pw: pwB}), "short"), faulty(key, "enospc"), faulty(uCarol, "short"),
		{K: "copy", Path: "new.json"}, {K: "copy", Path: "old0.json"}, {K: "copy", Path: "old1.json"}, {K: "copy", Path: "old2.json"}, {K: "copy", Path: "old3.json"},
		faulty(Op{K: "copy", Path: "other.json"}, "short"), opSave, opReopen,
		on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaA:pem"}), on("alice", Op{K: "addmfa", Payload: "totpA", Comment: "t"}),
	}
	// Many secrets.
	many := map[string]func(i int) Op{
		"users": func(i int) Op { return addUser("user"+itoa(i), "user"+itoa(i)+"@"+dom, "Secret-password-"+itoa(i)) },
		"keys":  func(i int) Op { return on("alice", Op{K: "addapi", Usage: "api", Comment: "k", Disabled: i%9 == 4}) },
		"changes": func(i int) Op {
			if i == 1 {
				return on("alice", Op{K: "changepw", Old: pwA, Pw: "Secret-password-1"})
			}
			return on("alice", Op{K: "changepw", Old: "Secret-password-" + itoa(i-1), Pw: "Secret-password-" + itoa(i)})
		},
		"long": func(i int) Op {
			n := uint(10 + i%8)
			return Op{K: "adduser", Name: "user" + itoa(i), Email: "user" + itoa(i) + "@" + dom, Pw: "Secret-password-" + itoa(i), Full: "Long, " + strings.Repeat("x", 1<<n), Roles: []string{strings.Repeat("y", 1<<n)}}
		},
	}
	for _, k := range sortedNames(many) {
		op := many[k]
		c.Case("many/"+k, func(v *V) {
			s, o := c.newSecretRun(starts[0])
			defer s.w.Close()
			if o.OK() {
				o, _ = s.do(uAlice)
			}
			n := c.size(70, 300)
			if k == "long" {
				n = 20
			}
			for i := 1; i <= n && o.OK() && s.bad == "" && !c.Expired(); i++ {
				s.trace = append(s.trace, op(i))
				o, _ = s.do(op(i))
				v.Count("transitions", 1)
				v.State("states", k+itoa(i))
				if i%20 == 7 && o.OK() && s.bad == "" {
					s.do(Op{K: "copy", Path: "new.json"})
				}
			}
			if !o.OK() && s.bad == "" {
				s.bad = o.String()
			}
			if s.bad != "" {
				v.Fail(k, "after\n%s\n%s", traceString(s.trace), s.bad)
			}
			v.Count("traces_validated_against_impl", 1)
		})
	}
	for _, umask := range []int{0, 022, 077} {
		for _, st := range starts {
			depth := 2
			if st.name == "new" || st.name == "0640" || c.Thorough {
				depth = 3
			}
			name := fmt.Sprintf("%s/%03o", st.name, umask)
			run := func(v *V, idx []int) bool {
				old := syscall.Umask(umask)
				defer syscall.Umask(old)
				s, o := c.newSecretRun(st)
				defer s.w.Close()
				fail := func(what string) bool {
					v.Fail(choiceString(idx), "file %s, umask %03o, after\n%s\n%s", st.name, umask, traceString(s.trace), what)
					return false
				}
				if !o.OK() {
					return fail("opening: " + o.String())
				}
				ops := []Op{uAlice}
				for _, i := range idx {
					ops = append(ops, alpha[i])
				}
				for _, op := range ops {
					if s.bad != "" {
						break
					}
					s.trace = append(s.trace, op)
					o, res := s.do(op)
					if o.Panic != "" || op.Fault == "" && o.OK() != res.OK {
						return fail(o.String())
					}
				}
				v.Count("transitions", 1)
				v.Count("traces_validated_against_impl", 1)
				v.State("states", name+s.m.Key())
				if s.bad != "" {
					return fail(s.bad)
				}
				if len(idx) == depth && v.WantSample() {
					v.Sample(map[string]interface{}{"file": st.name, "umask": fmt.Sprintf("%03o", umask), "history": strings.Split(traceString(s.trace), "\n"), "hashes": len(s.hashes)})
				}
				return true
			}
			var rec func(v *V, idx []int)
			rec = func(v *V, idx []int) {
				if c.Expired() || !run(v, idx) || len(idx) >= depth || umask != 0 && len(idx) >= 1 {
					return
				}
				for j := range alpha {
					rec(v, append(append([]int{}, idx...), j))
				}
			}
			c.Case(name, func(v *V) { run(v, nil) })
			for i := range alpha {
				c.Case(name+"/"+itoa(i), func(v *V) { rec(v, []int{i}) })
			}
			if umask != 0 {
				continue
			}
			bound := 1
			if c.Thorough {
				bound = 2
			}
			for i, op := range append([]Op{uCarol, {K: "open"}}, alpha...) {
				if op.Fault != "" {
					continue
				}
				c.Case(fmt.Sprintf("faults/%s/%d", st.name, i), func(v *V) {
					old := syscall.Umask(umask)
					defer syscall.Umask(old)
					EnumerateFaults(c, v, bound, func(ins []injection) []FSEvent {
						s, o := c.newSecretRun(st)
						defer s.w.Close()
						s.trace = append(s.trace, uAlice)
						if o.OK() {
							o, _ = s.do(uAlice)
						}
						if !o.OK() {
							v.Fail("", "%s", o)
							return nil
						}
						d := s.w.s.dev
						d.n, d.log, d.record, d.fault = 0, nil, true, planOf(ins)
						what := op.String()
						if op.K == "open" {
							if len(ins) == 0 || st.mode == 0 {
								os.Remove(s.w.path)
							}
							d.n = 0
							o = s.open()
						} else {
							// The listings that follow read no files.
							o, _ = s.do(op)
						}
						d.fault, d.record = nil, false
						if o.Panic != "" {
							s.bad = o.String()
						}
						if s.bad != "" {
							v.Fail(describeFaults(ins), "file %s, after\n%s\n%s %s:\n%s", st.name, traceString(s.trace), what, describeFaults(ins), s.bad)
						}
						return d.log
					})
				})
			}
		}
	}
}
