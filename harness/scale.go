package main

import (
	"fmt"
	"os"
	"strings"
)

// Sizes: thresholds hide in numbers of users and credentials, lengths of
// texts and sizes of files that short histories never reach. Growths are
// histories that pass through every size up to a bound, checked at each;
// crowds are large states from which the alphabets of the properties start.

// sizes is what the rules of the properties say of them.
var sizes = map[string]string{}

func init() {
	for _, id := range []string{"C01", "C03", "C04", "C05", "C06", "C23"} {
		sizes[id] = ". And long histories through every size up to a bound, checked at each"
	}
	for _, id := range []string{"C02", "C07", "C09", "C16", "C21", "C22", "C24", "C25", "C31", "C33", "C34"} {
		sizes[id] = ". And the same, one operation deep, from large states (many users, many keys and tokens, long texts)"
	}
	sizes["C08"] = ". And the same from large states, and texts of lengths around powers of two in every field"
	sizes["C12"] = ". And long histories that store many secrets"
	sizes["C30"] = ". And records of many parts"
}

// growth is one long history.
type growth struct {
	name    string
	policy  *mPolicy
	prelude []Op
	n       int                        // sizes 1 to n
	op      func(r *Run, i int) []Op   // the operations that lead to size i
	after   func(n int) []Op           // operations once it has grown
	un      func(r *Run) *Universe     // observed after every operation
	all     func(r *Run) *Universe     // observed at some sizes, reopened
	check   func(r *Run, i int) string // evaluated at every size
	checkV  func(v *V, r *Run, i int)
	start   func(r *Run)
}

// landmark says whether a size is worth a full comparison.
func landmark(i, n int) bool {
	if i <= 4 || i == n {
		return true
	}
	for p := 8; p <= 1<<17; p *= 2 {
		if i >= p-1 && i <= p+1 {
			return true
		}
	}
	return i%100 == 0 || i%100 == 1
}

func (c *Ctx) Grow(gs ...*growth) {
	for _, g := range gs {
		c.Case("grow/"+g.name, func(v *V) { c.grow(v, g) })
	}
}

func (c *Ctx) grow(v *V, g *growth) {
	r := &Run{w: NewWorld(c.Scratch), m: NewModel(), data: map[string]interface{}{}}
	defer func() { r.w.Close() }()
	i := 0
	fail := func(what string) {
		v.Fail(fmt.Sprintf("%s at size %d", g.name, i), "at size %d, after the history\n%s\n%s", i, traceString(r.trace), what)
	}
	if g.policy != nil {
		r.m.Policy = *g.policy
		writePolicyFile(r.w.path, *g.policy)
	}
	if g.start != nil {
		g.start(r)
	}
	if o := r.w.Open(); !o.OK() {
		fail("opening the database: " + o.String())
		return
	}
	do := func(op Op) bool {
		r.un = &Universe{Sections: sections()}
		_, _, bad := r.step(op)
		v.Count("transitions", 1)
		if bad == "" && g.un != nil {
			r.un = g.un(r)
			bad = r.observe()
		}
		if bad != "" {
			fail(bad)
		}
		return bad == ""
	}
	full := func() bool {
		if g.all == nil {
			return true
		}
		r.un = g.all(r)
		bad := r.observe()
		if bad == "" {
			if bad = r.observeReopened(); bad != "" {
				bad = "reopened: " + bad
			}
		}
		if bad != "" {
			fail(bad)
			return false
		}
		v.Count("traces_validated_against_impl", 1)
		return true
	}
	for _, op := range g.prelude {
		if !do(op) {
			return
		}
	}
	for i = 1; i <= g.n; i++ {
		if c.Expired() {
			return
		}
		for _, op := range g.op(r, i) {
			if !do(op) {
				return
			}
		}
		v.State("states", fmt.Sprintf("%s %d", g.name, i))
		if g.check != nil {
			if bad := g.check(r, i); bad != "" {
				fail(bad)
				return
			}
		}
		if g.checkV != nil {
			if g.checkV(v, r, i); v.Failed() {
				return
			}
		}
		if landmark(i, g.n) && !full() {
			return
		}
		if len(r.trace) > 2000 {
			r.trace = r.trace[1000:]
		}
	}
	i = g.n
	if g.after == nil {
		v.Count("traces_validated_against_impl", 1)
		return
	}
	for k, op := range g.after(g.n) {
		if c.Expired() {
			return
		}
		if !do(op) {
			return
		}
		v.State("states", fmt.Sprintf("%s after %d", g.name, k))
		if landmark(k, -1) && !full() {
			return
		}
	}
	full()
}

// deletions are the orders in which n things of a user are deleted.
var deletions = map[string]func(n int) []int{
	"front": func(n int) (l []int) {
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		return
	},
	"back": func(n int) (l []int) {
		for i := n - 1; i >= 0; i-- {
			l = append(l, i)
		}
		return
	},
	"middle": func(n int) (l []int) {
		for i, j := n/2-1, n/2; i >= 0 || j < n; i, j = i-1, j+1 {
			if j < n {
				l = append(l, j)
			}
			if i >= 0 {
				l = append(l, i)
			}
		}
		return
	},
	"odd": func(n int) (l []int) {
		for i := 1; i < n; i += 2 {
			l = append(l, i)
		}
		for i := 0; i < n; i += 2 {
			l = append(l, i)
		}
		return
	},
}

func (c *Ctx) size(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

func memberN(i int) (name, email, pw string) {
	return fmt.Sprintf("user%03d", i), fmt.Sprintf("mail%03d@example.com", i), fmt.Sprintf("password-%d", i)
}

// growUsers adds one user after another.
func (c *Ctx) growUsers() {
	n := c.size(270, 1100)
	one := func(i int) []Op {
		name, email, pw := memberN(i)
		op := addUser(name, email, pw)
		if i%3 == 0 {
			op.Roles, op.Full = []string{"role" + itoa(i), "org/r"}, "Last, First"
		}
		return []Op{op}
	}
	some := func(ids ...int) *Universe {
		un := &Universe{Sections: sections("user", "ident", "auth", "count"), Pws: []string{"password-1"}}
		for _, i := range ids {
			if i < 1 {
				continue
			}
			name, email, pw := memberN(i)
			un.Pairs = append(un.Pairs, [2]string{name, email}, [2]string{strings.ToUpper(name), email})
			un.Logins = append(un.Logins, name, strings.ToUpper(email))
			un.Pws = append(un.Pws, pw)
		}
		return un
	}
	c.Grow(&growth{name: "users", n: n, op: func(r *Run, i int) []Op {
		l := one(i)
		// Taken names are refused at every size.
		name, email, _ := memberN(1 + i/2)
		if i > 1 {
			l = append(l, addUser(strings.ToUpper(name), "free@example.com", pwA), addUser("free-name", strings.ToUpper(email), pwA))
		}
		return l
	}, un: func(r *Run) *Universe { return some(1, len(r.m.Users)/2, len(r.m.Users), len(r.m.Users)+1) },
		all: func(r *Run) *Universe {
			un := &Universe{Sections: sections("user", "ident", "count")}
			for i := 1; i <= len(r.m.Users)+1; i++ {
				name, email, _ := memberN(i)
				un.Pairs = append(un.Pairs, [2]string{strings.ToUpper(name), email})
				un.Logins = append(un.Logins, name, email)
			}
			return un
		}, check: func(r *Run, i int) string {
			if !landmark(i, n) {
				return ""
			}
			un := some(i)
			un.Pairs, un.Sections = un.Pairs[:1], sections("users")
			if d := diffLines(r.m.Lines(un), r.w.Lines(un)); d != "" {
				return d
			}
			seen := map[string]bool{}
			for _, u := range r.m.Users {
				x := r.w.Snapshot(u.Name, u.Email)
				if x == nil || x.ID == "" || seen[x.ID] {
					return "user " + u.Name + " is missing or has the ID of another"
				}
				seen[x.ID] = true
			}
			for j := 1; j <= i; j++ {
				name, email, pw := memberN(j)
				for _, op := range []Op{{K: "auth", Name: name, Pw: pw}, {K: "auth", Name: email, Pw: pw}, {K: "auth", Name: name, Pw: pw + "x"}} {
					if bad := compareResult(op, r.m.Apply(op), r.w.Exec(op)); bad != "" {
						return op.String() + ": " + bad
					}
				}
			}
			return ""
		}})
}

func aliceAPI(i int) Op {
	return on("alice", Op{K: "addapi", Usage: "api", Comment: "key " + itoa(i), Disabled: i%11 == 5})
}

func (c *Ctx) growAPIKeys() {
	n := c.size(140, 1030)
	un := &Universe{Pairs: pairsOf("alice", "bob"), Sections: sections("api")}
	all := &Universe{Pairs: pairsOf("alice", "bob"), Sections: sections("api", "lookup")}
	for _, name := range sortedNames(deletions) {
		order := deletions[name]
		g := &growth{name: "api-keys-" + name, n: n, prelude: []Op{uAlice, uBob},
			op: func(r *Run, i int) []Op {
				op := aliceAPI(i)
				if i%7 == 3 {
					op = on("bob", op)
				}
				return []Op{op}
			},
			un: func(r *Run) *Universe { return un }, all: func(r *Run) *Universe { return all },
			after: func(n int) (l []Op) {
				for _, i := range order(n) {
					op := on("alice", Op{K: "delapi", Ref: i})
					if (i+1)%7 == 3 {
						op = on("bob", op)
					}
					l = append(l, op)
					if i%40 == 17 {
						l = append(l, opReopen)
					}
				}
				return
			}}
		if !c.Thorough {
			g.all, g.un = g.un, g.all // every key at every size
		} else {
			g.un = func(r *Run) *Universe { return &Universe{Pairs: all.Pairs[:1], Sections: sections("api")} }
		}
		c.Grow(g)
	}
}

func alicePK(i int) Op {
	form := []string{":ssh", ":pem"}[i%2]
	return on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsa#" + itoa(i) + form, Comment: "key " + itoa(i), Disabled: i%11 == 5})
}

func (c *Ctx) growPublicKeys() {
	n := c.size(140, 600)
	un := &Universe{Pairs: pairsOf("alice", "bob"), Sections: sections("pk", "user")}
	for _, name := range sortedNames(deletions) {
		order := deletions[name]
		c.Grow(&growth{name: "public-keys-" + name, n: n, prelude: []Op{uAlice, uBob, on("alice", Op{K: "addpk", Usage: "gpg", Payload: "pgpA"})},
			op: func(r *Run, i int) []Op {
				l := []Op{alicePK(i)}
				// What is there is refused in the other form, what was there for another user is not.
				again := alicePK(1 + i/2)
				again.Payload = strings.NewReplacer(":ssh", ":pem", ":pem", ":ssh").Replace(again.Payload)
				l = append(l, again)
				if i%7 == 3 {
					l = append(l, on("bob", again))
				}
				return l
			},
			un: func(r *Run) *Universe { return un }, all: func(r *Run) *Universe { return un },
			after: func(n int) (l []Op) {
				ref := 1
				var refs []int
				for i := 1; i <= n; i++ {
					refs = append(refs, ref)
					ref++
					if i%7 == 3 {
						ref++
					}
				}
				for k, i := range order(n) {
					l = append(l, on("alice", Op{K: "delpk", Ref: refs[i]}))
					if k%40 == 17 {
						l = append(l, opReopen)
					}
				}
				return
			}})
	}
}

func aliceToken(i int) Op {
	return on("alice", Op{K: "addmfa", Payload: "num" + itoa(i), Comment: "token " + itoa(i), Disabled: i%11 == 5})
}

func (c *Ctx) growTokens() {
	n := c.size(140, 600)
	un := &Universe{Pairs: pairsOf("alice", "bob"), Logins: []string{"alice", "bob"}, Keys: []string{"u2fA", "u2fB"}, Sections: sections("mfa", "ident", "authkey", "user")}
	for _, name := range sortedNames(deletions) {
		order := deletions[name]
		c.Grow(&growth{name: "tokens-" + name, n: n, prelude: []Op{uAlice, uBob, on("bob", Op{K: "addmfa", Payload: "totpA", Comment: "token 1"})},
			op: func(r *Run, i int) []Op {
				secret, comment := aliceToken(1+i/2), aliceToken(1+i/2)
				secret.Comment, comment.Payload = "another comment", "totpD"
				if i == 1 {
					secret.Payload, comment.Comment = "totpBad", "x"
				}
				if i == 1 {
					return []Op{aliceToken(i), secret}
				}
				return []Op{aliceToken(i), secret, comment}
			},
			un: func(r *Run) *Universe { return un }, all: func(r *Run) *Universe { return un },
			after: func(n int) (l []Op) {
				for k, i := range order(n) {
					l = append(l, on("alice", Op{K: "delmfa", Ref: i + 1}))
					if k%40 == 17 {
						l = append(l, opReopen)
					}
				}
				return
			}})
	}
}

// growPasswords changes the password again and again.
func (c *Ctx) growPasswords(every bool) {
	n := c.size(270, 1100)
	for _, keep := range []int{1, 10, 300} {
		for _, reopen := range []int{0, 13} {
			c.Grow(&growth{name: fmt.Sprintf("passwords-%d-%d", keep, reopen), n: n, policy: &mPolicy{3, 50, 8, 128, keep}, prelude: []Op{addUser("alice", "alice@example.com", "password-0"), uBob},
				op: func(r *Run, i int) []Op {
					chg := func(old, now int) Op {
						return on("alice", Op{K: "changepw", Old: "password-" + itoa(old), Pw: "password-" + itoa(now)})
					}
					l := []Op{chg(i-1, i), chg(i-1, i+1)}
					if i > 20 {
						l = append(l, chg(i-11, i+1))
					}
					if reopen > 0 && i%reopen == 0 {
						l = append(l, opReopen)
					}
					return l
				},
				check: func(r *Run, i int) string {
					if !every && !landmark(i, n) {
						return ""
					}
					for j := 0; j <= i+1; j++ {
						op := Op{K: "auth", Name: "alice", Pw: "password-" + itoa(j)}
						if every || j < 2 || j > i-keep-3 || j > i-30 {
							if bad := compareResult(op, r.m.Apply(op), r.w.Exec(op)); bad != "" {
								return op.String() + ": " + bad
							}
						}
					}
					return ""
				}})
		}
	}
}

// --- crowds --------------------------------------------------------------------

// crowd is a large state, kept as a file and a model.
type crowd struct {
	name  string
	build []Op

	file                  []byte
	m                     *Model
	pk, api, mfa, secrets []string
	now                   int64
	rnd                   uint64
	bad                   string
}

var crowds = map[string]*crowd{}

// crowdOf is populated() and what the name says.
func crowdOf(name string, n int) *crowd {
	key := name + itoa(n)
	if crowds[key] != nil {
		return crowds[key]
	}
	cr := &crowd{name: key, build: populated()}
	add := func(op Op) { cr.build = append(cr.build, op) }
	for i := 1; i <= n; i++ {
		if name == "users" || name == "all" {
			u, email, pw := memberN(i)
			add(Op{K: "adduser", Name: u, Email: email, Pw: pw, Full: "Last, First", Roles: []string{"r", "o/r"}})
		}
		if name == "keys" || name == "all" {
			add(aliceAPI(i))
			add(alicePK(i))
			add(aliceToken(i))
		}
	}
	if name == "texts" {
		long := strings.Repeat("0123456789abcdef", n*64) // n KiB
		add(Op{K: "adduser", Name: "longuser", Email: "long@example.com", Pw: pwC, Full: "L" + long + ", F", Roles: []string{"r" + long, "o/" + long}})
		add(on("alice", Op{K: "addapi", Usage: "api", Comment: long}))
		add(on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsa#1:ssh", Comment: long}))
		add(on("alice", Op{K: "addmfa", Payload: "num1", Comment: long}))
	}
	crowds[key] = cr
	return cr
}

// run starts a world in the state.
func (cr *crowd) run(c *Ctx, un *Universe) (*Run, string) {
	if cr.m == nil {
		r, bad := c.newRun(nil, cr.build, &Universe{Sections: sections()})
		defer r.w.Close()
		cr.m, cr.bad = r.m, bad
		cr.pk, cr.api, cr.mfa, cr.secrets = r.w.pkIDs, r.w.apiIDs, r.w.mfaIDs, r.w.secrets
		cr.now, cr.rnd = r.w.s.now, r.w.t.rnd
		b, err := os.ReadFile(r.w.path)
		if err != nil && bad == "" {
			cr.bad = err.Error()
		}
		cr.file = b
	}
	r := &Run{w: NewWorld(c.Scratch), m: cr.m.Clone(), un: un, data: map[string]interface{}{}}
	if cr.bad != "" {
		return r, cr.name + ": " + cr.bad
	}
	cl := func(l []string) []string { return append([]string{}, l...) }
	r.w.pkIDs, r.w.apiIDs, r.w.mfaIDs, r.w.secrets = cl(cr.pk), cl(cr.api), cl(cr.mfa), cl(cr.secrets)
	r.w.s.now, r.w.t.rnd = cr.now, cr.rnd
	writeFile(r.w.path, cr.file)
	if o := r.w.Open(); !o.OK() {
		return r, cr.name + ": opening the file: " + o.String()
	}
	r.trace = append(r.trace, Op{K: "open", Path: fmt.Sprintf("the state %s of %d bytes", cr.name, len(cr.file))})
	return r, ""
}

// newRunFrom starts in a large state, if one is given.
func (c *Ctx) newRunFrom(cr *crowd, policy *mPolicy, prelude []Op, un *Universe) (*Run, string) {
	if cr != nil {
		return cr.run(c, un)
	}
	return c.newRun(policy, prelude, un)
}

// crowdList are the large states of the tier.
func (c *Ctx) crowdList() []*crowd {
	l := []*crowd{crowdOf("users", 140), crowdOf("keys", 140), crowdOf("texts", 70)}
	if c.Thorough {
		l = append(l, crowdOf("users", 1100), crowdOf("keys", 600), crowdOf("texts", 1100), crowdOf("all", 40))
	}
	return l
}

// crowdOps are operations on the late parts of a large state.
func crowdOps(cr *crowd) []Op {
	var l []Op
	ord := [3]int{4, 2, 3} // of public keys, API keys and tokens after populated()
	last := 0
	for _, op := range cr.build[len(populated()):] {
		switch op.K {
		case "addpk":
			ord[0]++
		case "addapi":
			ord[1]++
		case "addmfa":
			ord[2]++
		case "adduser":
			last++
		}
	}
	if cr.build[len(cr.build)-1].K == "addmfa" {
		for _, back := range []int{1, 2, 13} {
			l = append(l, on("alice", Op{K: "delpk", Ref: ord[0] - back + 1}), on("alice", Op{K: "delapi", Ref: ord[1] - back}), on("alice", Op{K: "delmfa", Ref: ord[2] - back}))
		}
	}
	if last > 1 {
		for _, i := range []int{1, last / 2, last} {
			name, email, pw := memberN(i)
			l = append(l, Op{K: "changepw", Name: name, Email: email, Old: pw, Pw: "changed-password"}, Op{K: "addapi", Name: name, Email: email, Usage: "api", Comment: "new"})
		}
	}
	return l
}

// Crowds explores an alphabet, one operation deep, from every large state.
func (c *Ctx) Crowds(alpha []Op, s Seq) {
	for _, cr := range c.crowdList() {
		x := s
		x.Name, x.From, x.Depth = "crowd-"+cr.name, cr, 1
		x.Alphabet = append(append([]Op{}, alpha...), crowdOps(cr)...)
		if x.Un == nil {
			x.Un = crowdUniverse(cr)
		}
		c.Explore(&x)
	}
}

func crowdUniverse(cr *crowd) *Universe {
	un := &Universe{Pairs: pairsOf("alice", "bob", "carol"), Logins: []string{"alice", "BOB@example.com", "carol", "nobody"}, Pws: []string{pwA, pwB, "changed-password"}, Keys: []string{"u2fA", "u2fB"}}
	for _, i := range []int{1, 64, 140} {
		name, email, pw := memberN(i)
		un.Pairs, un.Logins, un.Pws = append(un.Pairs, [2]string{name, email}), append(un.Logins, name), append(un.Pws, pw)
	}
	return un
}

// plainText says whether a text has only letters, digits and inner spaces.
func plainText(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isAlnum(s[i]) && (s[i] != ' ' || i == 0 || i == len(s)-1) {
			return false
		}
	}
	return s != ""
}

// lengthCases stores texts of every length in every text field.
func (c *Ctx) lengthCases(pairs [][2]string) {
	fields := []string{"role", "fullname", "api", "ssh", "gpg", "totp-comment", "totp-secret", "u2f-comment", "u2f-challenge", "ssh-own"}
	long := strings.Repeat("The quick brown fox 0123456789 ", 1<<16)
	for _, field := range fields {
		for n, ls := 0, c.lengths(); n < len(ls); n += 20 {
			c.Case(fmt.Sprintf("length/%s/%d", field, ls[n]), func(v *V) {
				for _, l := range ls[n:min(n+20, len(ls))] {
					text := long[:l-1] + "x"
					textCase(c, v, field, text, pairs)
				}
			})
		}
	}
	c.Case("length/email", func(v *V) {
		for _, l := range c.lengths() {
			w := NewWorld(c.Scratch)
			email := strings.Repeat("mailbox.", l/8+1)[:l-1] + "x@example.com"
			if o := w.Open(); !o.OK() {
				fatalf("%s", o)
			}
			v.Count("transitions", 1)
			v.State("states", "email"+itoa(l))
			if o := w.Exec(addUser("alice", email, pwA)); !o.OK() {
				v.Fail(itoa(l), "adding a user with an address of %d bytes: %s", len(email), o)
			}
			live := everything(w, [][2]string{{"alice", email}, {"alice", email[1:]}})
			if o := w.Open(); !o.OK() {
				v.Fail(itoa(l), "reopening with an address of %d bytes: %s", len(email), o)
			} else if now := everything(w, [][2]string{{"alice", email}, {"alice", email[1:]}}); now != live {
				v.Fail(itoa(l), "with an address of %d bytes the reopened database differs:\n%s", len(email), firstDiff(live, now))
			} else if o := w.Exec(Op{K: "auth", Name: strings.ToUpper(email), Pw: pwA}); !o.OK() {
				v.Fail(itoa(l), "logging in with an address of %d bytes: %s", len(email), o)
			}
			w.Close()
		}
	})
}

// lengths of texts around the sizes of buffers.
func (c *Ctx) lengths() []int {
	var l []int
	for i := 1; i <= 130; i++ {
		l = append(l, i)
	}
	most := 1 << 16
	if c.Thorough {
		most = 1 << 20
	}
	for p := 256; p <= most; p *= 2 {
		l = append(l, p-2, p-1, p, p+1, p+2)
	}
	return append(l, 1000, 10000, 100000)
}
