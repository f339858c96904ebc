package main

import (
	stderrors "errors"
	"fmt"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C30", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "all sequences of up to three changes (four over a smaller menu for thorough) of two user records through the methods of User, over a menu of accepted, refused and repeated values of every kind; after every sequence all accessors of both records are compared with a reference, and a change that must have no effect with the record before it. NewUserWithRoles over the product of menus of its five arguments",
		Assumptions: []string{"requests are well-formed as the database hands them on: API key texts are hashes with distinct prefixes", "with disabled tokens only, the challenges are left open", "the bcrypt kernel is replaced by a hash of exactly its inputs"},
		Run:         runC30,
	})
}

// mRec is the reference for one record.
type mRec struct {
	Username string
	Emails   []string
	Names    []string
	Roles    []string
	Pws      []string
	PKs      []mRecKey
	APIs     []mRecKey
	Mfas     []mRecKey
	Rev      int
}

type mRecKey struct {
	Ord      int
	Spec     string
	Usage    string
	Comment  string
	Disabled bool
}

// recRole splits the text of a role.
func recRole(s string) (org, name string, ok bool) {
	s = strings.TrimSpace(s)
	i := strings.IndexByte(s, '/')
	if i < 0 {
		return "", s, s != ""
	}
	return s[:i], s[i+1:], s[i+1:] != ""
}

func roleText(s string) (string, bool) {
	org, name, ok := recRole(s)
	if org != "" {
		name = org + "/" + name
	}
	return name, ok
}

// refPersonName is the canonical form of a name of two parts.
func refPersonName(s string) (string, bool) {
	for i, sep := range []string{",", " "} {
		p := strings.Split(s, sep)
		if len(p) != 2 {
			continue
		}
		a, b := strings.TrimSpace(p[i]), strings.TrimSpace(p[1-i])
		if a == "" || b == "" {
			return "", false
		}
		return a + ", " + b, true
	}
	return "", false
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// apply changes the reference; ord is the ordinal of an object it may create.
// It tells whether the operation succeeds and whether it changes anything.
func (m *mRec) apply(op Op, ord int) (ok, changed bool) {
	setPw := func(pw string, keep int) bool {
		if strings.TrimSpace(pw) == "" || strings.Contains(pw, "\x00") {
			return false
		}
		if keep < 1 {
			keep = 9
		}
		old := m.Pws
		if len(old) > keep {
			old = old[:keep]
		}
		m.Pws = append([]string{pw}, old...)
		return true
	}
	del := func(l []mRecKey) ([]mRecKey, bool) {
		var out []mRecKey
		for _, k := range l {
			if k.Ord != op.Ref {
				out = append(out, k)
			}
		}
		return out, len(out) != len(l)
	}
	switch op.K {
	case "pw":
		ok = setPw(op.Pw, op.Ref)
		changed = ok
	case "change":
		if ok = len(m.Pws) > 0 && op.Old == m.Pws[0] && setPw(op.Pw, op.Ref); ok {
			changed = true
		}
	case "email":
		if !strings.Contains(op.Email, "@") || strings.Contains(op.Email, " ") {
			return
		}
		ok = true
		if !has(m.Emails, op.Email) {
			m.Emails, changed = append(m.Emails, op.Email), true
		}
	case "name":
		n, good := refPersonName(op.Full)
		if !good {
			return
		}
		ok = true
		if !has(m.Names, n) {
			m.Names, changed = append(m.Names, n), true
		}
	case "role", "roles":
		for _, s := range op.Roles {
			if _, good := roleText(s); !good {
				return
			}
		}
		ok = true
		for _, s := range op.Roles {
			if t, _ := roleText(s); !has(m.Roles, t) {
				m.Roles, changed = append(m.Roles, t), true
				m.Rev++
			}
		}
		if changed {
			m.Rev--
		}
	case "pk":
		fx := pkFixtureByName(op.Payload)
		if fx.Mat == "" || fx.Usage != op.Usage {
			return
		}
		for _, k := range m.PKs {
			if pkFixtureByName(k.Spec).Mat == fx.Mat {
				return
			}
		}
		m.PKs, ok, changed = append(m.PKs, mRecKey{ord, op.Payload, op.Usage, wantPKComment(fx, op.Comment), op.Disabled}), true, true
	case "api":
		if op.Usage != "api" || op.Comment == "" || op.Payload == "" {
			return
		}
		m.APIs, ok, changed = append(m.APIs, mRecKey{ord, op.Payload, op.Usage, op.Comment, op.Disabled}), true, true
	case "mfa":
		if !mfaSpecs[op.Payload].Valid {
			return
		}
		for _, k := range m.Mfas {
			if k.Spec == op.Payload || k.Comment == op.Comment {
				return
			}
		}
		m.Mfas, ok, changed = append(m.Mfas, mRecKey{ord, op.Payload, "", op.Comment, op.Disabled}), true, true
	case "delpk":
		m.PKs, ok = del(m.PKs)
		changed = ok
	case "delapi":
		m.APIs, ok = del(m.APIs)
		changed = ok
	case "delmfa":
		m.Mfas, ok = del(m.Mfas)
		changed = ok
	}
	if changed {
		m.Rev++
	}
	return
}

// recWorld runs changes of two records.
type recWorld struct {
	w   *World
	u   map[string]*identity.User
	m   map[string]*mRec
	ids []string
	// The hash of every API key text.
	hashes map[string]string
}

// apiSecret is the text of an API key; its first 24 characters are the prefix.
func apiSecret(name string) string { return strings.Repeat(name, 40)[:72] }

func (rw *recWorld) run(op Op) error {
	u := rw.u[op.Name]
	r := requests.NewRequest()
	r.User.Password, r.User.OldPassword = op.Pw, op.Old
	r.Key.Comment, r.Key.Usage, r.Key.Disabled = op.Comment, op.Usage, op.Disabled
	r.MfaToken.Comment, r.MfaToken.Disabled = op.Comment, op.Disabled
	id := refID(rw.ids, op.Ref)
	switch op.K {
	case "pw":
		return u.AddPassword(op.Pw, op.Ref)
	case "change":
		return u.ChangePassword(r, op.Ref)
	case "email":
		return u.AddEmailAddress(op.Email)
	case "name":
		n, err := identity.ParseName(op.Full)
		if err != nil {
			return err
		}
		return u.AddName(n)
	case "role":
		return u.AddRole(op.Roles[0])
	case "roles":
		return u.AddRoles(op.Roles)
	case "pk":
		r.Key.Payload = fixtureKey(op.Payload)
		return u.AddPublicKey(r)
	case "api":
		if op.Payload != "" {
			s := apiSecret(op.Payload)
			if rw.hashes[s] == "" {
				h, err := identity.NewPassword(s)
				if err != nil {
					fatalf("hash: %v", err)
				}
				rw.hashes[s] = h.Hash
			}
			r.Key.Payload, r.Key.Prefix = rw.hashes[s], s[:24]
		}
		return u.AddAPIKey(r)
	case "mfa":
		fillMfa(r, op, time.Unix(0, rw.w.s.now).UTC())
		return u.AddMfaToken(r)
	case "delpk":
		r.Key.ID = id
		return u.DeletePublicKey(r)
	case "delapi":
		r.Key.ID = id
		return u.DeleteAPIKey(r)
	case "delmfa":
		r.MfaToken.ID = id
		return u.DeleteMfaToken(r)
	}
	panic("unknown change " + op.K)
}

// created returns the IDs of the keys and tokens of a record.
func recIDs(u *identity.User) (out []string) {
	for _, k := range u.PublicKeys {
		out = append(out, k.ID)
	}
	for _, k := range u.APIKeys {
		out = append(out, k.ID)
	}
	for _, k := range u.MfaTokens {
		out = append(out, k.ID)
	}
	return
}

var recPws = []string{"first-Password-1", "second-Password-2", "third-Password-3", " first-Password-1", "", " ", "first-Password-1\x00"}
var recRoles = []string{"admin", "corp/admin", "/admin", " admin ", "corp/a/b", "corp/", "", "Admin", "corp", "a/b", "corp/admin/"}

// lines renders all that the accessors of a record report, and what the
// reference expects.
func (rw *recWorld) lines(name string, before time.Time) (got, want []string) {
	u, m := rw.u[name], rw.m[name]
	add := func(what string, g, w interface{}) {
		got = append(got, fmt.Sprintf("%s %v", what, g))
		want = append(want, fmt.Sprintf("%s %v", what, w))
	}
	first := func(l []string) string {
		if len(l) > 0 {
			return l[0]
		}
		return ""
	}
	add("username", u.Username, m.Username)
	add("id length", len(u.ID), 36)
	add("revision", u.Revision, m.Rev)
	var emails, names, roles []string
	for _, e := range u.EmailAddresses {
		emails = append(emails, e.ToString())
	}
	for _, n := range u.Names {
		names = append(names, n.GetFullName())
	}
	for _, r := range u.Roles {
		roles = append(roles, r.String())
	}
	add("addresses", emails, m.Emails)
	add("has addresses", u.HasEmailAddresses(), len(m.Emails) > 0)
	add("mail claim", u.GetMailClaim(), first(m.Emails))
	primary := ""
	if u.EmailAddress != nil {
		primary = u.EmailAddress.Address
	}
	add("address", primary, first(m.Emails))
	add("names", names, m.Names)
	primary = ""
	if u.Name != nil {
		primary = u.Name.ToString()
	}
	add("name", primary, first(m.Names))
	add("name claim", u.GetNameClaim(), first(m.Names))
	add("full name", u.GetFullName(), first(m.Names))
	add("roles", roles, m.Roles)
	add("has roles", u.HasRoles(), len(m.Roles) > 0)
	add("roles claim", u.GetRolesClaim(), m.Roles)
	for _, s := range append(append([]string{}, recRoles...), m.Roles...) {
		t, ok := roleText(s)
		add(fmt.Sprintf("has role %q", s), u.HasRole(s), ok && has(m.Roles, t))
	}
	// Passwords.
	add("passwords", len(u.Passwords), len(m.Pws))
	for i, p := range u.Passwords {
		add(fmt.Sprintf("password %d disabled, expired", i), fmt.Sprint(p.Disabled, p.Expired, !p.DisabledAt.IsZero(), !p.ExpiredAt.IsZero()), fmt.Sprint(i > 0, i > 0, i > 0, i > 0))
		if i < len(m.Pws) {
			for _, s := range recPws {
				add(fmt.Sprintf("password %d match %q", i, s), p.Match(s), s == m.Pws[i])
			}
		}
	}
	for _, s := range recPws {
		err := u.VerifyPassword(s)
		ok := len(m.Pws) > 0 && s == m.Pws[0]
		add(fmt.Sprintf("verify %q", s), err == nil, ok)
		if err != nil {
			doc := errors.ErrUserPasswordInvalid
			if len(m.Pws) == 0 {
				doc = errors.ErrUserPasswordNotFound
			}
			add(fmt.Sprintf("verify %q error", s), stderrors.Is(err, doc), true)
		}
	}
	valid := error(nil)
	switch {
	case m.Username == "":
		valid = errors.ErrUsernameEmpty
	case len(m.Pws) == 0:
		valid = errors.ErrUserPasswordNotFound
	}
	add("valid", u.Valid(), valid)
	// Keys and tokens.
	var g, x []string
	for _, k := range u.PublicKeys {
		g = append(g, fmt.Sprintf("{%s %s %s %q %v}", lastIndex(rw.ids, k.ID), k.Usage, materialOf(k.Fingerprint), k.Comment, k.Disabled))
	}
	for _, k := range m.PKs {
		x = append(x, fmt.Sprintf("{#%d %s %s %q %v}", k.Ord, k.Usage, pkFixtureByName(k.Spec).Mat, k.Comment, k.Disabled))
	}
	add("public keys", g, x)
	g, x = nil, nil
	for _, k := range u.APIKeys {
		g = append(g, fmt.Sprintf("{%s %s %s %q %v}", lastIndex(rw.ids, k.ID), k.Usage, k.Prefix, k.Comment, k.Disabled))
	}
	for _, k := range m.APIs {
		x = append(x, fmt.Sprintf("{#%d %s %s %q %v}", k.Ord, k.Usage, apiSecret(k.Spec)[:24], k.Comment, k.Disabled))
	}
	add("api keys", g, x)
	for _, s := range []string{"one", "two", "six"} {
		for _, alt := range []string{"", "p40", "prefixpad"} {
			r := requests.NewRequest()
			r.Key.Payload = alterKey(apiSecret(s), alt, nil)
			r.Key.Prefix = r.Key.Payload[:24]
			ok := false
			for _, k := range m.APIs {
				ok = ok || k.Spec == s && !k.Disabled && alt == ""
			}
			add(fmt.Sprintf("lookup %s %s", s, alt), u.LookupAPIKey(r) == nil, ok)
		}
	}
	g, x = nil, nil
	app, key := false, false
	for _, k := range u.MfaTokens {
		g = append(g, fmt.Sprintf("{%s %s %q %v}", lastIndex(rw.ids, k.ID), k.Type, k.Comment, k.Disabled))
	}
	for _, k := range m.Mfas {
		x = append(x, fmt.Sprintf("{#%d %s %q %v}", k.Ord, mfaSpecs[k.Spec].Type, k.Comment, k.Disabled))
		if !k.Disabled {
			app = app || mfaSpecs[k.Spec].Type == "totp"
			key = key || mfaSpecs[k.Spec].Type == "u2f"
		}
	}
	add("tokens", g, x)
	r := requests.NewRequest()
	u.GetFlags(r)
	add("flags", fmt.Sprint(r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal), fmt.Sprint(app || key, app, key))
	ch := []string{"password"}
	if app || key {
		ch = append(ch, "mfa")
	}
	if app || key || len(m.Mfas) == 0 {
		add("challenges", u.GetChallenges(), ch)
	}
	for _, f := range []string{"u2fA", "u2fB"} {
		ok, any := false, false
		for _, k := range m.Mfas {
			ok = ok || mfaSpecs[k.Spec].Key == mfaSpecs[f].Key && mfaSpecs[k.Spec].Type == "u2f" && !k.Disabled
			any = any || mfaSpecs[k.Spec].Type == "u2f"
		}
		if any {
			r := requests.NewRequest()
			r.WebAuthn.Request, r.WebAuthn.Challenge = assertionFor(f)
			add("assertion "+f, u.VerifyWebAuthnRequest(r) == nil, ok)
		}
	}
	md := u.GetMetadata()
	add("metadata", fmt.Sprintf("%s %s %s %s %v %v %d %q %v %q", md.ID, md.Username, md.Email, md.Name, md.Created, md.LastModified, md.Revision, md.Title, md.Enabled, md.Avatar),
		fmt.Sprintf("%s %s %s %s %v %v %d %q %v %q", u.ID, m.Username, first(m.Emails), first(m.Names), u.Created, u.LastModified, m.Rev, "", false, ""))
	return
}

func (rw *recWorld) diff() string {
	bad := ""
	o := rw.w.Call(func() error {
		for _, n := range []string{"a", "b"} {
			got, want := rw.lines(n, time.Time{})
			if d := diffLines(want, got); d != "" {
				bad = "the record " + n + " differs:\n" + d
				return nil
			}
		}
		return nil
	})
	if o.Panic != "" {
		return "reading the records: " + o.Panic
	}
	return bad
}

// recImage is all of a record, times and IDs included.
func recImage(u *identity.User) string { return dump(u) }

func runC30(c *Ctx) {
	a := func(op Op) Op { op.Name = "a"; return op }
	b := func(op Op) Op { op.Name = "b"; return op }
	role := func(s ...string) Op { return Op{K: "role", Roles: s} }
	menu := []Op{
		a(Op{K: "pw", Pw: recPws[0]}), a(Op{K: "pw", Pw: recPws[1], Ref: 1}), a(Op{K: "pw", Pw: recPws[2], Ref: 2}), a(Op{K: "pw", Pw: " "}), a(Op{K: "pw", Pw: recPws[6], Ref: 2}),
		a(Op{K: "change", Old: recPws[0], Pw: recPws[1], Ref: 2}), a(Op{K: "change", Old: recPws[1], Pw: recPws[0], Ref: 1}), a(Op{K: "change", Old: recPws[0], Pw: ""}), a(Op{K: "change", Old: "wrong", Pw: recPws[2]}),
		a(Op{K: "email", Email: "a@example.com"}), a(Op{K: "email", Email: "A@example.com"}), a(Op{K: "email", Email: "b@example.org"}), a(Op{K: "email", Email: "zed@ex.co"}), a(Op{K: "email", Email: "a@mail.example.com"}), a(Op{K: "email", Email: "not an address"}), a(Op{K: "email", Email: ""}),
		a(Op{K: "name", Full: "Smith, John"}), a(Op{K: "name", Full: "John Smith"}), a(Op{K: "name", Full: "Doe, Jane"}), a(Op{K: "name", Full: "Ng, Al"}), a(Op{K: "name", Full: "Nobody"}),
		a(role("admin")), a(role("corp/admin")), a(role("/admin")), a(role(" admin ")), a(role("corp/a/b")), a(role("corp/")), a(role("")), a(role("Admin")),
		a(Op{K: "roles", Roles: []string{"corp", "admin", "corp"}}), a(Op{K: "roles", Roles: []string{"a/b", ""}}), a(Op{K: "roles"}),
		a(Op{K: "pk", Payload: "rsaA:ssh", Usage: "ssh", Comment: "k"}), a(Op{K: "pk", Payload: "rsaA:pem", Usage: "ssh"}), a(Op{K: "pk", Payload: "rsaB:sshc", Usage: "ssh", Disabled: true}), a(Op{K: "pk", Payload: "pgpA", Usage: "gpg"}), a(Op{K: "pk", Payload: "junk", Usage: "ssh"}),
		a(Op{K: "api", Payload: "one", Usage: "api", Comment: "k"}), a(Op{K: "api", Payload: "two", Usage: "api", Comment: "k"}), a(Op{K: "api", Payload: "six", Usage: "api", Comment: "off", Disabled: true}), a(Op{K: "api", Payload: "two", Usage: "ssh", Comment: "k"}), a(Op{K: "api", Payload: "", Usage: "api", Comment: "k"}), a(Op{K: "api", Payload: "two", Usage: "api"}),
		a(Op{K: "mfa", Payload: "totpA", Comment: "t"}), a(Op{K: "mfa", Payload: "totpA", Comment: "other"}), a(Op{K: "mfa", Payload: "totpB", Comment: "t"}), a(Op{K: "mfa", Payload: "u2fA", Comment: "u"}), a(Op{K: "mfa", Payload: "u2fB", Comment: "v", Disabled: true}), a(Op{K: "mfa", Payload: "totpBad", Comment: "w"}),
		a(Op{K: "delpk", Ref: 0}), a(Op{K: "delapi", Ref: 0}), a(Op{K: "delmfa", Ref: 0}), a(Op{K: "delpk", Ref: 1}), a(Op{K: "delapi", Ref: 1}), a(Op{K: "delmfa", Ref: 1}), a(Op{K: "delpk", Ref: -1}), a(Op{K: "delapi", Ref: -2}), a(Op{K: "delmfa", Ref: -3}),
		b(Op{K: "pw", Pw: recPws[0]}), b(Op{K: "email", Email: "a@example.com"}), b(Op{K: "name", Full: "Smith, John"}), b(role("admin")), b(Op{K: "pk", Payload: "rsaA:ssh", Usage: "ssh", Comment: "k"}), b(Op{K: "api", Payload: "one", Usage: "api", Comment: "k"}), b(Op{K: "mfa", Payload: "totpA", Comment: "t"}), b(Op{K: "delapi", Ref: 0}),
	}
	hashes := map[string]string{}
	fresh := func(w *World, name string) *recWorld {
		rw := &recWorld{w: w, u: map[string]*identity.User{}, m: map[string]*mRec{"a": {Username: name}, "b": {Username: "bob"}}, hashes: hashes}
		w.Call(func() error {
			rw.u["a"], rw.u["b"] = identity.NewUser(name), identity.NewUser("bob")
			return nil
		})
		return rw
	}
	seq := func(v *V, w *World, name string, ops []Op) bool {
		rw := fresh(w, name)
		v.Count("traces_validated_against_impl", 1)
		fail := func(what string) bool {
			v.Fail(traceString(ops), "the records \"%s\" and \"bob\" after\n%s\n%s", name, traceString(ops), what)
			return false
		}
		for i, op := range ops {
			last := i == len(ops)-1
			u := rw.u[op.Name]
			image, other := "", ""
			if last {
				image = recImage(u)
				other = recImage(rw.u[string("ba"[op.Name[0]-'a'])])
			}
			before := u.LastModified
			known := recIDs(u)
			// The ID of an OpenPGP key is its own: the latest one counts.
			ref := op
			if strings.HasPrefix(op.K, "del") && op.Ref >= 0 && op.Ref < len(rw.ids) {
				for j := op.Ref; j < len(rw.ids); j++ {
					if rw.ids[j] == rw.ids[op.Ref] {
						ref.Ref = j
					}
				}
			}
			ok, changed := rw.m[op.Name].apply(ref, len(rw.ids))
			o := w.Call(func() error { return rw.run(op) })
			if o.Panic != "" || o.OK() != ok {
				return fail(fmt.Sprintf("the last change: expected success: %v, got %s", ok, o))
			}
			if ok && (op.K == "pk" || op.K == "api" || op.K == "mfa") {
				n := 0
				for _, id := range recIDs(u) {
					if !has(known, id) {
						rw.ids = append(rw.ids, id)
						n++
					}
				}
				if n != 1 {
					return fail(fmt.Sprintf("the last change made %d objects", n))
				}
			}
			if !last {
				continue
			}
			v.Count("transitions", 1)
			if changed {
				if !u.LastModified.After(before) {
					return fail(fmt.Sprintf("the time of modification was %v and is %v", before, u.LastModified))
				}
			} else if now := recImage(u); now != image {
				return fail("the last change must have no effect, but\nbefore: " + image + "\n   now: " + now)
			}
			if now := recImage(rw.u[string("ba"[op.Name[0]-'a'])]); now != other {
				return fail("the other record changed\nbefore: " + other + "\n   now: " + now)
			}
		}
		v.State("states", fmt.Sprintf("%+v|%+v", *rw.m["a"], *rw.m["b"]))
		if d := rw.diff(); d != "" {
			return fail(d)
		}
		if len(ops) > 0 && v.WantSample() {
			v.Sample(map[string]interface{}{"history": strings.Split(traceString(ops), "\n")})
		}
		return true
	}
	// Records of many parts.
	var long []Op
	for i := 0; i < 150; i++ {
		n := itoa(i)
		long = append(long, a(Op{K: "email", Email: "mail" + n + "@example.com"}), a(Op{K: "email", Email: "mail" + itoa(i/2) + "@example.com"}), a(Op{K: "name", Full: "Last" + string(rune('A'+i%26)) + n + ", First"}), a(Op{K: "name", Full: "First Last" + string(rune('A'+i/2%26)) + itoa(i/2)}),
			a(role("role"+n)), a(role("org/role"+n)), a(role("role"+itoa(i/2))),
			a(Op{K: "pk", Payload: "rsa#" + n + ":ssh", Usage: "ssh", Comment: "k"}), a(Op{K: "pk", Payload: "rsa#" + itoa(i/2) + ":pem", Usage: "ssh"}),
			a(Op{K: "mfa", Payload: "num" + n, Comment: "t" + n}), a(Op{K: "mfa", Payload: "num" + itoa(i/2), Comment: "again"}), a(Op{K: "mfa", Payload: "totpD", Comment: "t" + itoa(i/2)}))
		if i == 10 {
			long = append(long, b(role("admin")), a(Op{K: "pw", Pw: recPws[0]}))
		}
	}
	// Texts that resemble each other, two and three of a kind.
	alike := map[string][]Op{}
	for _, s := range []string{"Smith, John", "SMITH, JOHN", "smith, john", "John Smith", "Smith,John", "John, Smith", "Smith, Johnny", "Smithy, John", "Smith, J", "S, mithJohn", "Smith, Jo\u017fn", "\u017fmith, John", "Smith , John"} {
		alike["name"] = append(alike["name"], a(Op{K: "name", Full: s}))
	}
	for _, s := range []string{"a.b@example.com", "A.B@example.com", "a.b@EXAMPLE.com", "ab@example.com", "a.b+c@example.com", "a.b@example.co", "a.b@mail.example.com", "a-b@example.com", "a.b@examplecom", "b@example.com"} {
		alike["email"] = append(alike["email"], a(Op{K: "email", Email: s}))
	}
	for _, s := range []string{"corp/admin", "Corp/admin", "corp/Admin", "corp/admin/", "corp /admin", "corp/ admin", "corp//admin", "corpadmin", "admin/corp", "admin", "corp", " corp/admin ", "corp/\u0430dmin"} {
		alike["role"] = append(alike["role"], a(role(s)))
	}
	for i, s := range []string{"one", "One", "one ", " one", "on", "", "o\u0308ne"} {
		alike["mfa"] = append(alike["mfa"], a(Op{K: "mfa", Payload: []string{"totpA", "totpB", "u2fA"}[i%3], Comment: s}), a(Op{K: "mfa", Payload: []string{"totpB", "u2fA", "totpC"}[i%3], Comment: s}))
		alike["api"] = append(alike["api"], a(Op{K: "api", Payload: "one", Usage: "api", Comment: s}), a(Op{K: "api", Payload: "One", Usage: "api", Comment: s}))
	}
	for _, kind := range []string{"name", "email", "role", "mfa", "api"} {
		l := alike[kind]
		for i := range l {
			c.Case("alike/"+kind+"/"+itoa(i), func(v *V) {
				w := NewWorld(c.Scratch)
				defer w.Close()
				for j := range l {
					if !seq(v, w, "alice", []Op{l[i], l[j]}) {
						return
					}
					for k := range l {
						if !c.Thorough && (i+j+k)%3 != 0 {
							continue
						}
						if !seq(v, w, "alice", []Op{l[i], l[j], l[k]}) {
							return
						}
					}
				}
			})
		}
	}
	for n := 1; n < len(long); n += c.size(29, 7) {
		c.Case("many/"+itoa(n), func(v *V) {
			w := NewWorld(c.Scratch)
			defer w.Close()
			for i := 0; i < 3 && n+i <= len(long); i++ {
				h := long[: n+i : n+i]
				if !seq(v, w, "alice", h) {
					return
				}
				for _, ref := range []int{0, n / 24, n / 12} {
					for _, k := range []string{"delpk", "delmfa"} {
						if !seq(v, w, "alice", append(h, a(Op{K: k, Ref: ref}))) {
							return
						}
					}
				}
			}
		})
	}
	for _, name := range []string{"alice", ""} {
		c.Case(fmt.Sprintf("none/%q", name), func(v *V) {
			w := NewWorld(c.Scratch)
			defer w.Close()
			seq(v, w, name, nil)
			for _, op := range menu {
				seq(v, w, name, []Op{op})
			}
		})
	}
	small := menu
	if c.Thorough {
		small = nil
		for i, op := range menu {
			if i%3 != 2 || op.K == "pw" || op.K == "change" {
				small = append(small, op)
			}
		}
	}
	for i := range menu {
		for j := range menu {
			c.Case(fmt.Sprintf("seq/%d.%d", i, j), func(v *V) {
				w := NewWorld(c.Scratch)
				defer w.Close()
				if !seq(v, w, "alice", []Op{menu[i], menu[j]}) {
					return
				}
				for _, op := range menu {
					if c.Expired() || !seq(v, w, "alice", []Op{menu[i], menu[j], op}) {
						return
					}
					if !c.Thorough {
						continue
					}
					for _, op2 := range small {
						if c.Expired() || !seq(v, w, "alice", []Op{menu[i], menu[j], op, op2}) {
							return
						}
					}
				}
			})
		}
	}
	// A whole user at once.
	names := []string{"alice", "", "Alice Smith", "a@b"}
	pws := []string{recPws[0], "", "  ", recPws[6], "x"}
	emails := []string{"a@example.com", "", "no address", "A@B"}
	fulls := []string{"", "  ", "Smith, John", " John Smith ", "Nobody", ",", "a, b, c"}
	lists := [][]string{nil, {}, {"admin"}, {"admin", "admin"}, {"admin", "/admin", "corp/admin"}, {""}, {"admin", ""}, {"corp/"}, {"admin", " corp/a/b ", "Admin"}}
	for _, name := range names {
		c.Case(fmt.Sprintf("whole/%q", name), func(v *V) {
			w := NewWorld(c.Scratch)
			defer w.Close()
			for _, pw := range pws {
				for _, email := range emails {
					for _, full := range fulls {
						for _, roles := range lists {
							v.Count("transitions", 1)
							rw := fresh(w, name)
							what := fmt.Sprintf("NewUserWithRoles(%q, %q, %q, %q, %q)", name, pw, email, full, roles)
							m := rw.m["a"]
							good := name != ""
							steps := []Op{{K: "pw", Pw: pw}, {K: "email", Email: email}, {K: "roles", Roles: roles}}
							if f := strings.TrimSpace(full); f != "" {
								steps = append(steps, Op{K: "name", Full: f})
							}
							for _, op := range steps {
								ok, _ := m.apply(op, 0)
								good = good && ok
							}
							m.Rev = 0
							var u *identity.User
							given := append([]string{}, roles...)
							o := w.Call(func() (err error) {
								u, err = identity.NewUserWithRoles(name, pw, email, full, roles)
								return err
							})
							if o.Panic != "" || o.OK() != good || (u != nil) != good {
								v.Fail(what, "%s: %s, a record: %v; expected success: %v", what, o, u != nil, good)
								return
							}
							if fmt.Sprint(given) != fmt.Sprint(append([]string{}, roles...)) {
								v.Fail(what, "%s: changed its argument to %q", what, roles)
								return
							}
							if !good {
								continue
							}
							v.State("states", fmt.Sprintf("%+v", *m))
							rw.u["a"] = u
							if d := rw.diff(); d != "" {
								v.Fail(what, "%s: %s", what, d)
								return
							}
						}
					}
				}
			}
		})
	}
}
