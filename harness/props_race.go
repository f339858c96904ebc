package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
)

// A raceBody prepares, before the threads start, what one thread does.
type raceBody struct {
	name  string
	make  func(w *World, res map[string]interface{}) func(t *Thread)
	reads bool // it reads results of operations before the threads start
	alone bool // it uses no open database
}

// earlier collects results of operations before the threads start.
func (w *World) earlier() map[string]interface{} {
	out := map[string]interface{}{}
	for _, x := range []struct{ name, k, usage string }{{"user", "getuser", ""}, {"users", "getusers", ""}, {"pk", "getpk", "ssh"}, {"gpg", "getpk", "gpg"}, {"api", "getapi", "api"}, {"mfa", "getmfa", ""}} {
		o := w.Exec(on("alice", Op{K: x.k, Usage: x.usage}))
		if !o.OK() {
			fatalf("%s: %s", x.k, o)
		}
		out[x.name] = o.Payload
	}
	r := requests.NewRequest()
	r.User.Username = "alice"
	r.Flags.Enabled = true
	w.Call(func() error { return w.db.IdentifyUser(r) })
	out["identified"] = r
	return out
}

func opBody(op Op) raceBody {
	return raceBody{name: op.String(), make: func(w *World, res map[string]interface{}) func(t *Thread) {
		r := op.request(w)
		return func(t *Thread) {
			if op.Fault != "" {
				t.fault = faultPlan(op.Fault)
			}
			switch op.K {
			case "copy":
				w.db.Copy(w.target(op.Path))
			case "save":
				w.db.Save()
			case "count":
				w.db.GetUserCount()
			case "getpath":
				w.db.GetPath()
			default:
				dispatch(w.db, op.K, r)
				dump(r.Response.Payload)
				dump(r)
			}
			t.fault = nil
		}
	}}
}

// readBodies read results that were returned before.
func readBodies() []raceBody {
	var l []raceBody
	for _, n := range []string{"user", "users", "pk", "gpg", "api", "mfa", "identified"} {
		l = append(l, raceBody{reads: true, name: "read the earlier result " + n, make: func(w *World, res map[string]interface{}) func(t *Thread) {
			x := res[n]
			return func(t *Thread) { dump(x) }
		}})
		if n != "identified" {
			l = append(l, raceBody{reads: true, name: "encode the earlier result " + n, make: func(w *World, res map[string]interface{}) func(t *Thread) {
				x := res[n]
				return func(t *Thread) { json.Marshal(x) }
			}})
		}
	}
	user := func(name string, f func(u *identity.User)) {
		l = append(l, raceBody{reads: true, name: "earlier user: " + name, make: func(w *World, res map[string]interface{}) func(t *Thread) {
			u := res["user"].(*identity.User)
			return func(t *Thread) { f(u) }
		}})
	}
	user("VerifyPassword", func(u *identity.User) { u.VerifyPassword(pwA) })
	user("claims", func(u *identity.User) {
		u.GetMailClaim()
		u.GetNameClaim()
		u.GetRolesClaim()
		u.GetChallenges()
		u.GetFullName()
		u.GetMetadata()
		u.HasRole("admin")
		u.HasRoles()
		u.HasEmailAddresses()
		u.GetFlags(requests.NewRequest())
	})
	user("VerifyWebAuthnRequest", func(u *identity.User) {
		r := requests.NewRequest()
		r.WebAuthn.Request, r.WebAuthn.Challenge = assertionFor("u2fA")
		u.VerifyWebAuthnRequest(r)
	})
	user("LookupAPIKey", func(u *identity.User) {
		r := requests.NewRequest()
		r.Key.Payload, r.Key.Prefix = strings.Repeat("k", 72), strings.Repeat("k", 24)
		u.LookupAPIKey(r)
	})
	user("Valid", func(u *identity.User) { u.Valid() })
	token := func(name, typ string, f func(k *identity.MfaToken)) {
		l = append(l, raceBody{reads: true, name: "earlier token: " + name, make: func(w *World, res map[string]interface{}) func(t *Thread) {
			for _, k := range res["mfa"].(*identity.MfaTokenBundle).Get() {
				if k.Type == typ {
					return func(t *Thread) { f(k) }
				}
			}
			fatalf("no token of type %s", typ)
			return nil
		}})
	}
	token("ValidateCode", "totp", func(k *identity.MfaToken) { k.ValidateCode("000000") })
	token("ValidateCodeWithTime", "totp", func(k *identity.MfaToken) { k.ValidateCodeWithTime("000000", time.Unix(1e9, 0)) })
	token("WebAuthnRequest", "u2f", func(k *identity.MfaToken) {
		a, _ := assertionFor("u2fA")
		k.WebAuthnRequest(a)
	})
	return l
}

// constructors are what several threads may use at once without sharing a
// database.
func constructors() []raceBody {
	var l []raceBody
	add := func(name string, f func(w *World)) {
		l = append(l, raceBody{alone: name != "policy summaries", name: name, make: func(w *World, res map[string]interface{}) func(t *Thread) {
			return func(t *Thread) { f(w) }
		}})
	}
	add("NewPassword", func(w *World) {
		p, err := identity.NewPassword(pwA)
		if err == nil {
			p.Match(pwA)
		}
	})
	add("NewPasswordWithOptions", func(w *World) {
		identity.NewPasswordWithOptions(pwA, "generic", "bcrypt", map[string]interface{}{"cost": 9})
	})
	add("GetRandomString", func(w *World) { identity.GetRandomString(20) })
	add("GetRandomStringFromRange", func(w *World) { identity.GetRandomStringFromRange(10, 20) })
	add("NewID", func(w *World) { identity.NewID() })
	add("NewRandomString", func(w *World) { identity.NewRandomString(16) })
	add("NewUser", func(w *World) { dump(identity.NewUser("someone")) })
	add("NewUserWithRoles", func(w *World) {
		u, err := identity.NewUserWithRoles("someone", pwA, "someone@"+dom, "Smith, John", []string{"admin", "a/b"})
		if err == nil {
			u.Valid()
			u.AddRole("c")
			u.AddEmailAddress("other@" + dom)
			u.AddPassword(pwB, 2)
		}
	})
	key := func(usage, payload string) func(w *World) {
		return func(w *World) {
			r := requests.NewRequest()
			r.Key.Usage, r.Key.Payload, r.Key.Comment = usage, fixtureKey(payload), "c"
			identity.NewPublicKey(r)
		}
	}
	add("NewPublicKey ssh", key("ssh", "rsaA:ssh"))
	add("NewPublicKey pem", key("ssh", "rsaA:pem"))
	add("NewPublicKey gpg", key("gpg", "pgpA"))
	add("NewAPIKey", func(w *World) {
		r := requests.NewRequest()
		r.Key.Usage, r.Key.Payload, r.Key.Prefix, r.Key.Comment = "api", "hash", "prefix", "c"
		if k, err := identity.NewAPIKey(r); err == nil {
			k.Match("x")
		}
	})
	for _, spec := range []string{"totpA", "totpB", "totpD", "u2fA", "u2fB"} {
		spec := spec
		l = append(l, raceBody{alone: true, name: "NewMfaToken " + spec, make: func(w *World, res map[string]interface{}) func(t *Thread) {
			r := requests.NewRequest()
			fillMfa(r, Op{Payload: spec}, time.Unix(0, w.s.now).UTC())
			r.MfaToken.Comment = "c"
			return func(t *Thread) {
				k, err := identity.NewMfaToken(r)
				if err == nil && k.Type == "totp" {
					k.ValidateCode("123456")
				}
			}
		}})
	}
	add("parsers", func(w *World) {
		identity.NewEmailAddress("x@" + dom)
		identity.ParseName("Smith, John")
		identity.NewRole("a/b")
		identity.NewEmailAddress("bad")
		identity.ParseName("x")
		identity.NewRole("")
	})
	add("errors", func(w *World) {
		e := errors.ErrAddUser.WithArgs("x", fmt.Errorf("y"))
		_ = e.Error()
		_ = errors.ErrAddUser.Error()
	})
	add("provisioning codes", func(w *World) {
		c := qr.NewCode()
		c.Secret, c.Type, c.Label, c.Period, c.Issuer, c.Digits, c.Algorithm = "secretsecretsecret", "totp", "label", 30, "issuer", 6, "SHA1"
		c.Build()
		c.Get()
		c.GetEncoded()
	})
	add("policy summaries", func(w *World) {
		w.db.GetUsernamePolicySummary()
		w.db.GetUsernamePolicyRegex()
		w.db.GetPasswordPolicySummary()
		w.db.GetPasswordPolicyRegex()
	})
	add("credit cards", func(w *World) {
		cc := identity.NewCreditCard()
		cc.AddIssuer("chase")
		cc.AddAssociation("visa")
	})
	add("open another database", func(w *World) {
		identity.NewDatabase(filepath.Join(w.root, "another.json"))
	})
	add("open the same file", func(w *World) { identity.NewDatabase(w.path) })
	return l
}

// raceReport returns the reports of the race detector since the last call.
func raceReport(from *int64) string {
	base := ""
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(kv, "log_path="); ok {
			base = v
		}
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", base, os.Getpid()))
	if err != nil {
		return ""
	}
	if *from > int64(len(b)) {
		*from = 0
	}
	s := string(b[*from:])
	*from = int64(len(b))
	return s
}

// ofHarness reports whether a race report is about an access by the harness:
// one of its two accesses is in the harness itself.
func ofHarness(report string) bool {
	lines := strings.Split(report, "\n")
	for i, l := range lines {
		if !strings.Contains(l, " by goroutine ") && !strings.Contains(l, " by main goroutine") {
			continue
		}
		// The first frame outside the runtime.
		for j := i + 1; j+1 < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
			f := strings.TrimSpace(lines[j])
			if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") {
				continue
			}
			if strings.HasPrefix(f, "main.") {
				return true
			}
			break
		}
	}
	return false
}

var raceLogPos int64

// RaceFree explores all schedules of the threads and asks the race detector
// after each. Cold, the threads find a database that was opened just before,
// and otherwise one that has answered every query.
func (c *Ctx) RaceFree(v *V, bodies []raceBody, bound int, cold bool) {
	c.raceFree(v, c.prepare(populated(), concurrentUniverse()), bodies, bound, cold, false)
}

func (c *Ctx) raceFree(v *V, st *prepared, bodies []raceBody, bound int, cold, fresh bool) {
	c.raceRuns(v, st, nil, bodies, bound, cold, fresh)
}

func (c *Ctx) raceAfter(v *V, st *prepared, change Op, bodies []raceBody, bound int) {
	c.raceRuns(v, st, &change, bodies, bound, false, false)
}

func (c *Ctx) raceRuns(v *V, st *prepared, change *Op, bodies []raceBody, bound int, cold, fresh bool) {
	var names []string
	for i, b := range bodies {
		names = append(names, fmt.Sprintf("  thread %d: %s", i+1, b.name))
	}
	if change != nil {
		names = append(names, "  after "+change.String())
	}
	var w *World
	run := func(prefix []int) *Execution {
		if cold && bodies[0].alone && bodies[1].alone {
			w = c.blank(st)
		} else {
			w = c.start(st)
		}
		w.s.realRand = true
		var res map[string]interface{}
		if !cold {
			res = w.earlier()
		}
		if change != nil {
			for _, op := range concurrentReaders() {
				w.Exec(op)
			}
			w.Exec(*change)
		}
		var fs []func(t *Thread)
		for _, b := range bodies {
			f := b.make(w, res)
			fs = append(fs, func(t *Thread) {
				w.s.sched.OpBoundary(t)
				f(t)
			})
		}
		beat()
		return RunThreads(w.s, fs, prefix, false, 3000)
	}
	before := raceErrors()
	visit := func(ex *Execution, choices []int) bool {
		w.Close()
		if c.Expired() {
			return false
		}
		v.Count("transitions", ex.steps)
		v.Count("traces_validated_against_impl", 1)
		v.State("states", v.id+choiceString(choices))
		if ex.diverged {
			v.Count("diverged", 1)
			return true
		}
		where := fmt.Sprintf("%s\nschedule %s", strings.Join(names, "\n"), choiceString(choices))
		if ex.verdict != "" {
			v.Fail(choiceString(choices), "%s\n%s", where, ex.verdict)
			return false
		}
		for i, x := range ex.panics {
			if x != nil {
				v.Fail(choiceString(choices), "%s\nthread %d panics: %v", where, i+1, x)
				return false
			}
		}
		if now := raceErrors(); now != before {
			before = now
			for _, rep := range strings.Split(raceReport(&raceLogPos), "==================") {
				if !strings.Contains(rep, "DATA RACE") {
					continue
				}
				if ofHarness(rep) {
					v.Count("harness_races", 1)
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Println(rep)
					}
					continue
				}
				v.Fail(choiceString(choices), "%s\n%s", where, rep)
				return false
			}
		}
		return true
	}
	// One execution first: what is initialised once must not shift the points.
	if ex := run(nil); !visit(ex, nil) || fresh {
		return
	}
	n, complete := Explore(bound, run, visit)
	v.Count("schedules", n)
	if !complete && !v.Failed() {
		v.Incomplete("budget used up")
	}
	if v.WantSample() && n > 20 {
		v.Sample(map[string]interface{}{"threads": names, "schedules": n, "preemption_bound": bound})
	}
}

func init() {
	register(&Property{
		ID: "C11", Level: "model_checking", Quick: 420 * time.Second, Thorough: 13 * minute, Race: true,
		Rule: "every pair of operations, constructors and readers of earlier results, with all schedules up to the preemption bound executed under the race detector, on a database that has answered every query and on one that was just opened; after every change and every refusal of a menu, every pair of queries; every body with itself, and every pair of constructors (every ordered pair for thorough), also in a process of its own, for what is initialised at first use. Scheduling introduces no ordering of its own: only the synchronisation of the code under test counts",
		Run:  runC11,
	})
}

func runC11(c *Ctx) {
	if !raceBuild {
		fatalf("not a race build")
	}
	var all []raceBody
	for _, op := range concurrentAlphabet() {
		all = append(all, opBody(op))
	}
	for _, op := range concurrentReaders() {
		all = append(all, opBody(op))
	}
	all = append(all, readBodies()...)
	all = append(all, constructors()...)
	c.Case("self-test", selfTestRace)
	bound := 1
	if c.Thorough {
		bound = 2
	}
	for i := range all {
		for j := i; j < len(all); j++ {
			c.Case(fmt.Sprintf("pair/%d.%d", i, j), func(v *V) { c.RaceFree(v, []raceBody{all[i], all[j]}, bound, false) })
			if !all[i].reads && !all[j].reads {
				c.Case(fmt.Sprintf("cold/%d.%d", i, j), func(v *V) { c.RaceFree(v, []raceBody{all[i], all[j]}, bound-1, true) })
			}
		}
	}
	// What is brought up to date by the first reader after a change, or after a
	// refusal, on a database that has answered every query.
	refused := []Op{
		on("alice", Op{K: "addpk", Usage: "ssh", Payload: "garbage"}), on("alice", Op{K: "changepw", Old: pwB, Pw: "changed-password"}), on("alice", Op{K: "delmfa", Ref: -1}),
		on("alice", Op{K: "delapi", Ref: -1}), {K: "auth", Name: "alice", Pw: pwB}, {K: "lookup", Ref: 0, Payload: "prefix"}, {K: "authkey", Name: "nobody", Payload: "u2fA"},
	}
	changes := append(append([]Op{}, concurrentAlphabet()...), refused...)
	var asked []raceBody
	for _, op := range concurrentReaders() {
		asked = append(asked, opBody(op))
	}
	n := len(asked)
	asked = append(asked, readBodies()...)
	for k, m := range changes {
		for i := 0; i < n; i++ {
			for j := i; j < len(asked); j++ {
				if j >= n && !c.Thorough {
					break
				}
				c.Case(fmt.Sprintf("after/%d/%d.%d", k, i, j), func(v *V) {
					st := c.prepare(populated(), concurrentUniverse())
					c.raceAfter(v, st, m, []raceBody{asked[i], asked[j]}, bound-1)
				})
			}
		}
	}
	// What is initialised at its first use: each pair in a process of its own,
	// which has done nothing but open the database, if the pair needs one.
	st := &freshState{}
	for i := range all {
		for j := range all {
			if all[i].reads || all[j].reads {
				continue
			}
			if i != j && !c.Thorough && !(all[i].alone && all[j].alone && i < j) {
				continue
			}
			c.Case(fmt.Sprintf("fresh/%d.%d", i, j), func(v *V) { c.freshProcess(v, st, []raceBody{all[i], all[j]}) })
		}
	}
}

// A freshState is where a process of its own finds the prepared database.
type freshState struct{ path string }

type preparedJSON struct {
	File                          []byte
	PkIDs, APIIDs, MfaIDs, Secret []string
	Now                           int64
}

const freshEnv = "VERIF_FRESH"

// freshProcess executes the bodies in a process of their own.
func (c *Ctx) freshProcess(v *V, fs *freshState, bodies []raceBody) {
	if p := os.Getenv(freshEnv); p != "" {
		var x preparedJSON
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, &x)
		}
		if err != nil {
			fatalf("fresh process: %v", err)
		}
		c.raceFree(v, &prepared{x.File, x.PkIDs, x.APIIDs, x.MfaIDs, x.Secret, x.Now}, bodies, 0, true, true)
		return
	}
	if fs.path == "" {
		st := c.prepare(populated(), concurrentUniverse())
		b, err := json.Marshal(preparedJSON{st.file, st.pkIDs, st.apiIDs, st.mfaIDs, st.secret, st.now})
		if err != nil {
			fatalf("%v", err)
		}
		fs.path = filepath.Join(c.Scratch, "fresh.json")
		writeFile(fs.path, b)
	}
	self, _ := os.Executable()
	dir := filepath.Join(c.Scratch, "fresh")
	os.RemoveAll(dir)
	if err := os.Mkdir(dir, 0700); err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	out := filepath.Join(dir, "out")
	cmd := exec.Command(self, "-prop", c.Prop, "-tier", tier, "-verif", c.Verif, "-scratch", dir, "-out", out, "-case", v.id)
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "GORACE=") {
			cmd.Env = append(cmd.Env, kv)
		}
	}
	cmd.Env = append(cmd.Env, freshEnv+"="+fs.path, "GORACE=log_path="+filepath.Join(dir, "race")+" exitcode=0 atexit_sleep_ms=0 history_size=4")
	text, err := cmd.CombinedOutput()
	where := fmt.Sprintf("in a process of their own\n  thread 1: %s\n  thread 2: %s", bodies[0].name, bodies[1].name)
	var stats Stats
	b, e := os.ReadFile(out)
	if e == nil {
		e = json.Unmarshal(b, &stats)
	}
	if err != nil || e != nil {
		v.Fail("fresh", "%s\nthe process ends with %v, %v\n%s", where, err, e, tail(text, 3000))
		return
	}
	if stats.Cases != 1 {
		fatalf("fresh process: %d cases", stats.Cases)
	}
	for _, x := range stats.Violations {
		v.Fail("fresh", "in a process of their own\n%s", x.Detail)
		return
	}
	for _, k := range []string{"transitions", "traces_validated_against_impl", "diverged", "harness_races"} {
		if n := stats.Counters[k]; n > 0 {
			v.Count(k, int(n))
		}
	}
	v.State("states", v.id)
	v.Count("fresh_processes", 1)
}

// selfTestRace: the race detector must see an unordered pair of accesses in
// instrumented code, and accept an ordered one.
func selfTestRace(v *V) {
	s := NewSession()
	shared := &identity.APIKey{}
	var mu sync.Mutex
	before := raceErrors()
	ex := RunThreads(s, []func(t *Thread){
		func(t *Thread) { s.sched.OpBoundary(t); shared.Disable() },
		func(t *Thread) { s.sched.OpBoundary(t); shared.Disable() },
	}, nil, false, 100)
	if ex.verdict != "" {
		v.Fail("", "self-test: %s", ex.verdict)
		return
	}
	if raceErrors() == before {
		fatalf("self-test: the race detector missed a race")
	}
	raceReport(&raceLogPos)
	// Accesses that the code itself orders are no race.
	before = raceErrors()
	ordered := func(t *Thread) {
		s.sched.OpBoundary(t)
		mu.Lock()
		shared.Disable()
		mu.Unlock()
	}
	if ex = RunThreads(s, []func(t *Thread){ordered, ordered}, nil, false, 100); ex.verdict != "" {
		v.Fail("", "self-test: %s", ex.verdict)
		return
	}
	if raceErrors() != before {
		fatalf("self-test: the race detector reports ordered accesses: %s", raceReport(&raceLogPos))
	}
	v.Count("self_tests", 1)
}
