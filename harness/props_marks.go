package main

import (
	"fmt"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C31", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "for every kind of credential, every assignment of the marks (none, disabled, expired, both) to three credentials of one user and one of another in the file, and every pair of marked credentials of different kinds, each followed by every operation of a menu (sequences of two for thorough) and by reopening; and every subset of the credentials of a record disabled by their method. After every step every credential of both users is tried",
		Assumptions: []string{"when a password other than the latest is not marked, whether it authenticates is left open until the password is changed", "whether expired keys and tokens are listed is left open"},
		Run:         runC31,
	})
}

const (
	markDisabled = 1
	markExpired  = 2
)

var markNames = []string{"none", "disabled", "expired", "disabled+expired"}

type cred struct {
	kind string // passwords, api_keys, mfa_tokens, public_keys
	n    int    // position in the file
	spec string
	ref  int // ordinal for the operations
	mark int
	gone bool
	open bool // what must happen is left open
}

type markedUser struct {
	name  string
	creds []*cred
}

// markWorld makes the file that all assignments start from.
func (c *Ctx) markWorld() (*Run, []*markedUser, string) {
	a := func(op Op) Op { return on("alice", op) }
	b := func(op Op) Op { return on("bob", op) }
	ops := []Op{uAlice, uBob,
		a(Op{K: "changepw", Old: pwA, Pw: "second-Password"}), a(Op{K: "changepw", Old: "second-Password", Pw: "third-Password"}),
		a(Op{K: "addapi", Usage: "api", Comment: "k0"}), a(Op{K: "addapi", Usage: "api", Comment: "k1"}), a(Op{K: "addapi", Usage: "api", Comment: "k2"}), b(Op{K: "addapi", Usage: "api", Comment: "k3"}),
		a(Op{K: "addmfa", Payload: "u2fA", Comment: "t0"}), a(Op{K: "addmfa", Payload: "totpA", Comment: "t1"}), a(Op{K: "addmfa", Payload: "u2fB", Comment: "t2"}), b(Op{K: "addmfa", Payload: "u2fC", Comment: "t3"}),
		a(Op{K: "addpk", Usage: "ssh", Payload: "rsaA:ssh"}), a(Op{K: "addpk", Usage: "ssh", Payload: "rsaB:ssh"}), a(Op{K: "addpk", Usage: "gpg", Payload: "pgpA"}), b(Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh"}),
	}
	r, bad := c.newRun(nil, ops, nil)
	users := []*markedUser{{name: "alice"}, {name: "bob"}}
	add := func(u int, kind string, ref int, specs ...string) {
		for i, s := range specs {
			users[u].creds = append(users[u].creds, &cred{kind: kind, n: i, spec: s, ref: ref + i})
		}
	}
	add(0, "passwords", 0, "third-Password", "second-Password", pwA)
	add(0, "api_keys", 0, "0", "1", "2")
	add(0, "mfa_tokens", 0, "u2fA", "totpA", "u2fB")
	add(0, "public_keys", 0, "rsaA", "rsaB", "pgpA")
	add(1, "passwords", 0, pwB)
	add(1, "api_keys", 3, "3")
	add(1, "mfa_tokens", 3, "u2fC")
	add(1, "public_keys", 3, "rsaC")
	users[0].creds[1].mark, users[0].creds[2].mark = 3, 3
	return r, users, bad
}

func pick(users []*markedUser, u int, kind string, n int) *cred {
	for _, x := range users[u].creds {
		if x.kind == kind && x.n == n {
			return x
		}
	}
	return nil
}

// writeMarks puts the marks into the file.
func (w *World) writeMarks(users []*markedUser, at string) {
	w.editFile(func(doc map[string]interface{}) {
		for i, u := range users {
			rec := mapOf(listOf(doc["users"])[i])
			for _, x := range u.creds {
				e := mapOf(listOf(rec[x.kind])[x.n])
				for bit, name := range map[int]string{markDisabled: "disabled", markExpired: "expired"} {
					delete(e, name)
					if x.mark&bit != 0 {
						e[name] = true
						if at != "" {
							e[name+"_at"] = at
						}
					}
				}
				if x.kind == "passwords" {
					x.open = x.n > 0 && x.mark == 0
				}
			}
		}
	})
}

// probeMarks tries every credential.
func (r *Run) probeMarks(v *V, users []*markedUser) string {
	for _, u := range users {
		listed := map[string]bool{}
		list := func(k, usage string) string {
			o := r.w.Exec(on(u.name, Op{K: k, Usage: usage}))
			if !o.OK() {
				return fmt.Sprintf("%s for %s: %s", k, u.name, o)
			}
			switch b := o.Payload.(type) {
			case *identity.PublicKeyBundle:
				for _, x := range b.Get() {
					listed["public_keys"+materialOf(x.Fingerprint)] = true
				}
			case *identity.APIKeyBundle:
				for _, x := range b.Get() {
					listed["api_keys"+strings.TrimPrefix(x.Comment, "k")] = true
				}
			case *identity.MfaTokenBundle:
				for _, x := range b.Get() {
					s := x.Secret
					if x.Type == "u2f" {
						s = strings.TrimPrefix(x.Parameters["u2f_id"], "id-")
					} else if s == mfaSpecs["totpA"].Secret {
						s = "totpA"
					}
					listed["mfa_tokens"+s] = true
				}
			default:
				return fmt.Sprintf("%s for %s: payload of type %T", k, u.name, b)
			}
			return ""
		}
		for _, l := range [][2]string{{"getpk", "ssh"}, {"getpk", "gpg"}, {"getapi", "api"}, {"getmfa", ""}} {
			if bad := list(l[0], l[1]); bad != "" {
				return bad
			}
		}
		for _, x := range u.creds {
			if x.open {
				continue
			}
			v.Count("tried", 1)
			want := x.mark == 0 && !x.gone
			what := fmt.Sprintf("%s of %s, %s (marked %s, deleted %v)", x.kind, u.name, x.spec, markNames[x.mark], x.gone)
			var o Outcome
			switch x.kind {
			case "passwords":
				o = r.w.Exec(Op{K: "auth", Name: u.name, Pw: x.spec})
			case "api_keys":
				o = r.w.Exec(Op{K: "lookup", Ref: x.ref})
				if o.OK() && o.Req.User.Username != u.name {
					return what + ": authenticates " + o.Req.User.Username
				}
			case "mfa_tokens":
				if x.spec == "totpA" {
					o = Outcome{}
					if !want {
						o.Err = errNotTried
					}
					break
				}
				o = r.w.Exec(Op{K: "authkey", Name: u.name, Payload: x.spec})
			case "public_keys":
				if !want {
					o.Err = errNotTried
				}
			}
			if o.Panic != "" || o.OK() != want {
				return fmt.Sprintf("%s: expected to authenticate: %v, got %s", what, want, o)
			}
			if x.kind == "passwords" {
				continue
			}
			if in := listed[x.kind+x.spec]; in && (x.gone || x.mark&markDisabled != 0) || !in && want {
				return fmt.Sprintf("%s: listed: %v", what, in)
			}
		}
	}
	return ""
}

var errNotTried = fmt.Errorf("not tried")

// markOps is what may happen between; each predicts its outcome.
type markOp struct {
	op     Op
	expect func(users []*markedUser) (known, ok bool)
}

func markOps() []markOp {
	yes := func([]*markedUser) (bool, bool) { return true, true }
	a := func(op Op) Op { return on("alice", op) }
	del := func(k, kind string, n int) markOp {
		return markOp{a(Op{K: k, Ref: n}), func(u []*markedUser) (bool, bool) {
			x := pick(u, 0, kind, n)
			ok := !x.gone
			x.gone = true
			return true, ok
		}}
	}
	change := func(old int, next string) markOp {
		return markOp{a(Op{K: "changepw", Old: []string{"third-Password", "second-Password", pwA}[old], Pw: next}), func(u []*markedUser) (bool, bool) {
			x := pick(u, 0, "passwords", old)
			if x.open {
				for _, p := range u[0].creds {
					p.open = p.open || p.kind == "passwords"
				}
				return false, false
			}
			if x.mark != 0 || x.gone {
				return true, false
			}
			for _, p := range u[0].creds {
				if p.kind == "passwords" {
					p.mark |= 3
					p.open = false
				}
			}
			u[0].creds = append(u[0].creds, &cred{kind: "passwords", n: 9, spec: next})
			return true, true
		}}
	}
	return []markOp{
		{opReopen, yes},
		{Op{K: "save"}, yes},
		{addUser("carol", "carol@example.com", pwC), func(u []*markedUser) (bool, bool) { return false, false }},
		change(0, "fourth-Password"), change(1, "fifth-Password"),
		del("delapi", "api_keys", 0), del("delapi", "api_keys", 1), del("delmfa", "mfa_tokens", 0), del("delmfa", "mfa_tokens", 2), del("delpk", "public_keys", 1),
		{a(Op{K: "addapi", Usage: "api", Comment: "new"}), yes},
		{a(Op{K: "addmfa", Payload: "totpB", Comment: "new"}), func([]*markedUser) (bool, bool) { return false, false }},
		{on("bob", Op{K: "addmfa", Payload: "u2fA", Comment: "new"}), func([]*markedUser) (bool, bool) { return false, false }},
		{on("bob", Op{K: "addpk", Usage: "ssh", Payload: "rsaA:ssh"}), func([]*markedUser) (bool, bool) { return false, false }},
		{a(Op{K: "identify"}), yes},
	}
}

func runC31(c *Ctx) {
	ops := markOps()
	kinds := []string{"passwords", "api_keys", "mfa_tokens", "public_keys"}
	// check runs the menu after an assignment of marks.
	check := func(v *V, what string, set func(users []*markedUser), depth int, at string) bool {
		var walk func(seq []int) bool
		walk = func(seq []int) bool {
			if c.Expired() {
				return false
			}
			r, users, bad := c.markWorld()
			defer r.w.Close()
			hist := what
			fail := func(s string) bool {
				v.Fail(hist, "marks: %s\n%s", hist, s)
				return false
			}
			if bad != "" {
				return fail(bad)
			}
			set(users)
			r.w.writeMarks(users, at)
			if o := r.w.Open(); !o.OK() {
				return fail("opening the file: " + o.String())
			}
			for i, j := range append([]int{-1}, seq...) {
				if j >= 0 {
					hist += "; " + ops[j].op.String()
					v.Count("transitions", 1)
					known, ok := ops[j].expect(users)
					o := r.w.Exec(ops[j].op)
					if o.Panic != "" || known && o.OK() != ok {
						return fail(fmt.Sprintf("expected to succeed: %v, got %s", ok, o))
					}
				}
				if i < len(seq) {
					continue
				}
				if bad := r.probeMarks(v, users); bad != "" {
					return fail(bad)
				}
				if o := r.w.Open(); !o.OK() {
					return fail("reopening the file: " + o.String())
				}
				if bad := r.probeMarks(v, users); bad != "" {
					return fail("after reopening: " + bad)
				}
			}
			v.Count("traces_validated_against_impl", 1)
			v.State("states", hist)
			if len(seq) < depth {
				for j := range ops {
					if !walk(append(append([]int{}, seq...), j)) {
						return false
					}
				}
			}
			return true
		}
		ok := walk(nil)
		if ok && v.WantSample() {
			v.Sample(map[string]interface{}{"marks": what, "depth": depth})
		}
		return ok
	}
	depth := 1
	if c.Thorough {
		depth = 2
	}
	for _, kind := range kinds {
		for n := 0; n < 256; n++ {
			d := depth
			if n>>6 != 0 && n&63 != 0 {
				d = depth - 1
			}
			what := kind
			for i := 0; i < 4; i++ {
				what += "/" + markNames[n>>(2*i)&3]
			}
			c.Case(what, func(v *V) {
				set := func(users []*markedUser) {
					for i := 0; i < 3; i++ {
						pick(users, 0, kind, i).mark = n >> (2 * i) & 3
					}
					pick(users, 1, kind, 0).mark = n >> 6 & 3
				}
				// A mark holds whatever the time that comes with it.
				for _, at := range []string{"", zeroTime, fileTime2, "2099-01-02T03:04:05Z"} {
					dd := d
					if at != "" && dd > 0 {
						dd--
					}
					what := what
					if at != "" {
						what += " at " + at
					}
					if !check(v, what, set, dd, at) {
						return
					}
				}
			})
		}
	}
	for i, k1 := range kinds {
		for _, k2 := range kinds[i+1:] {
			c.Case("pair/"+k1+"/"+k2, func(v *V) {
				for n := 0; n < 81; n++ {
					n1, m1, n2, m2 := n%3, n/3%3+1, n/9%3, n/27%3+1
					what := fmt.Sprintf("%s #%d %s, %s #%d %s", k1, n1, markNames[m1], k2, n2, markNames[m2])
					if !check(v, what, func(users []*markedUser) {
						pick(users, 0, k1, n1).mark = m1
						pick(users, 0, k2, n2).mark = m2
					}, depth-1, "") {
						return
					}
				}
			})
		}
	}
	c.markCrowds()
	// The credentials of a record, disabled by their method.
	for set := 0; set < 1<<8; set++ {
		c.Case(fmt.Sprintf("method/%d", set), func(v *V) {
			w := NewWorld(c.Scratch)
			defer w.Close()
			rw := &recWorld{w: w, u: map[string]*identity.User{}, m: map[string]*mRec{"a": {}}, hashes: map[string]string{}}
			var bad string
			o := w.Call(func() error {
				u := identity.NewUser("alice")
				rw.u["a"] = u
				for _, op := range []Op{{K: "pw", Pw: recPws[0]}, {K: "api", Payload: "one", Usage: "api", Comment: "1"}, {K: "api", Payload: "two", Usage: "api", Comment: "2"}, {K: "api", Payload: "six", Usage: "api", Comment: "3"},
					{K: "mfa", Payload: "u2fA", Comment: "1"}, {K: "mfa", Payload: "totpA", Comment: "2"}, {K: "mfa", Payload: "u2fB", Comment: "3"}, {K: "pk", Payload: "rsaA:ssh", Usage: "ssh"}} {
					op.Name = "a"
					if err := rw.run(op); err != nil {
						return err
					}
				}
				start := time.Now().UTC()
				marked := func(i int) bool { return set>>i&1 != 0 }
				type times struct{ expiredAt, disabledAt time.Time }
				var at []times
				var flags []bool
				if marked(0) {
					u.Passwords[0].Disable()
				}
				p := u.Passwords[0]
				flags, at = append(flags, p.Disabled, p.Expired), append(at, times{p.ExpiredAt, p.DisabledAt})
				for i, k := range u.APIKeys {
					if marked(1 + i) {
						k.Disable()
					}
					flags, at = append(flags, k.Disabled, k.Expired), append(at, times{k.ExpiredAt, k.DisabledAt})
				}
				for i, k := range u.MfaTokens {
					if marked(4 + i) {
						k.Disable()
					}
					flags, at = append(flags, k.Disabled, k.Expired), append(at, times{k.ExpiredAt, k.DisabledAt})
				}
				k := u.PublicKeys[0]
				if marked(7) {
					k.Disable()
				}
				flags, at = append(flags, k.Disabled, k.Expired), append(at, times{k.ExpiredAt, k.DisabledAt})
				end := time.Now().UTC()
				for i, f := range flags {
					if f != marked(i/2) {
						bad = fmt.Sprintf("the marks are %v", flags)
						return nil
					}
				}
				for i, t := range at {
					for _, x := range []time.Time{t.expiredAt, t.disabledAt} {
						if marked(i) && (x.Before(start) || x.After(end)) || !marked(i) && !x.IsZero() {
							bad = fmt.Sprintf("credential %d is marked at %v, between %v and %v", i, x, start, end)
							return nil
						}
					}
				}
				check := func(what string, got, want bool) {
					if got != want && bad == "" {
						bad = fmt.Sprintf("%s authenticates: %v", what, got)
					}
				}
				check("the password", u.VerifyPassword(recPws[0]) == nil, !marked(0))
				for i, s := range []string{"one", "two", "six"} {
					r := requests.NewRequest()
					r.Key.Payload = apiSecret(s)
					r.Key.Prefix = r.Key.Payload[:24]
					check("API key "+s, u.LookupAPIKey(r) == nil, !marked(1+i))
				}
				for i, s := range []string{"u2fA", "u2fB"} {
					r := requests.NewRequest()
					r.WebAuthn.Request, r.WebAuthn.Challenge = assertionFor(s)
					check("security key "+s, u.VerifyWebAuthnRequest(r) == nil, !marked(4+2*i))
				}
				r := requests.NewRequest()
				u.GetFlags(r)
				check("flag of app token", r.Flags.MfaApp, !marked(5))
				check("flag of security key", r.Flags.MfaUniversal, !marked(4) || !marked(6))
				return nil
			})
			v.Count("transitions", 1)
			v.Count("traces_validated_against_impl", 1)
			v.State("states", fmt.Sprint("method", set))
			if !o.OK() {
				bad = o.String()
			}
			if bad != "" {
				v.Fail("", "credentials %08b (password, three API keys, security key, app token, security key, public key from the right) disabled: %s", set, bad)
			}
		})
	}
}

// markCrowds marks single credentials, and all but one, of large states.
func (c *Ctx) markCrowds() {
	for _, cr := range c.crowdList() {
		for _, kind := range []string{"passwords", "api_keys", "mfa_tokens"} {
			for part := 0; part < 16; part++ {
				c.Case(fmt.Sprintf("crowd/%s/%s/%d", cr.name, kind, part), func(v *V) { c.markCrowd(v, cr, kind, part) })
			}
		}
	}
}

func (c *Ctx) markCrowd(v *V, cr *crowd, kind string, part int) {
	r, bad := cr.run(c, &Universe{Sections: sections()})
	r.w.Close()
	if bad != "" {
		v.Fail("", "%s", bad)
		return
	}
	// The credentials: where they are in the file and how each is tried.
	type place struct {
		user, n int
		on      bool
		try     Op
	}
	var l []place
	for i, u := range r.m.Users {
		switch kind {
		case "passwords":
			l = append(l, place{i, 0, true, Op{K: "auth", Name: u.Name, Pw: u.Pws[0]}})
		case "api_keys":
			for n, k := range u.APIs {
				l = append(l, place{i, n, !k.Disabled, Op{K: "lookup", Ref: k.Ord}})
			}
		case "mfa_tokens":
			for n, k := range u.Mfas {
				if sp := mfaSpecs[k.Spec]; sp.Type == "u2f" {
					l = append(l, place{i, n, !k.Disabled, Op{K: "authkey", Name: u.Name, Payload: sp.Key}})
				}
			}
		}
	}
	step := 1
	if len(l) > 300 {
		step = len(l) / 100
	}
	for i := part * step; i < len(l); i += 16 * step {
		for _, others := range []bool{false, true} {
			for mark := 1; mark <= 3; mark++ {
				if c.Expired() {
					return
				}
				if others && mark != 1+i%3 {
					continue
				}
				what := fmt.Sprintf("%s: number %d of %d %s marked %s", cr.name, i, len(l), kind, markNames[mark])
				if others {
					what += ", the others only"
				}
				marked := func(j int) bool { return (j == i) != others }
				r, _ := cr.run(c, &Universe{Sections: sections()})
				r.w.editFile(func(doc map[string]interface{}) {
					for j, p := range l {
						e := mapOf(listOf(mapOf(listOf(doc["users"])[p.user])[kind])[p.n])
						for bit, name := range map[int]string{markDisabled: "disabled", markExpired: "expired"} {
							if marked(j) && mark&bit != 0 {
								e[name] = true
							}
						}
					}
				})
				try := func() string {
					for j, p := range l {
						if j != i && j != i-1 && j != i+1 && j != 0 && j != len(l)-1 && j != len(l)-1-i {
							continue
						}
						// Security keys of a user may be one and the same.
						want := false
						for k, q := range l {
							want = want || q.on && !marked(k) && (k == j || kind == "mfa_tokens" && q.try.Name == p.try.Name && q.try.Payload == p.try.Payload)
						}
						v.Count("tried", 1)
						if o := r.w.Exec(p.try); o.Panic != "" || o.OK() != want {
							return fmt.Sprintf("%s\nnumber %d (%s): expected to authenticate: %v, got %s", what, j, p.try, want, o)
						}
					}
					return ""
				}
				bad := ""
				for k, op := range []Op{opReopen, on("bob", Op{K: "addapi", Usage: "api", Comment: "new"}), opReopen} {
					o := r.w.Exec(op)
					v.Count("transitions", 1)
					if !o.OK() {
						bad = op.String() + ": " + o.String()
					} else if k != 1 || mark == 1 {
						bad = try()
					}
					if bad != "" {
						break
					}
				}
				r.w.Close()
				v.Count("traces_validated_against_impl", 1)
				v.State("states", what)
				if bad != "" {
					v.Fail(what, "%s", bad)
					return
				}
			}
		}
	}
}
