package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"reflect"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C36", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "every operation of a menu in a world of two users with keys and tokens, under the default and a permissive policy, with every field of its own and every pair of them set to every value of a menu of hostile texts, numbers and lists; after a refusal the database and the file must be as before, after an acceptance the users must be unique and the reopened database must equal the live one, and after both the others must be able to log in and to change the database. Two users with every pair of hostile names, addresses and roles. Every method of every record (zero and genuine) and every constructor with every such value for every argument. All genuine keys, registrations and assertions with a piece of every place and of several lengths missing or repeated, every beginning of the first line of an armored key with every end of the last one, and all texts of up to 5 characters (7 for thorough) of an alphabet of nine as names, roles and addresses",
		Assumptions: []string{"a request or another argument is never nil", "the ends of a range of lengths are not negative", "lengths up to 64 KiB (1 MiB for thorough)"},
		Run:         runC36,
	})
}

// hostileTexts are texts that tend to be handled badly.
func hostileTexts(big int) []string {
	b64 := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	return []string{
		"", " ", "\t", "\x00", "a\x00b", "\xff", "bob\xff", "\xc3", "\xed\xa0\x80", "\u2028", "\u202e", "\ufeff", "\ufffd", "é", "K", "İ", "\n", "a\nb", "\"", "\\", "\\ufffd", "<>&", "%s%n%d%!", "../../etc/passwd", "~/x", "/",
		"@", "@b.cc", "a@", "a@b", "a@b@c.dd", "\xff@example.com", "a b@example.com", "-1", "0", "7", "9999999999999999999999", "null", "true", "[]", "{}", "[", "{", "''", ",", ",,", "a,", ",b", "a, b", "/x", "x/", "x/y/z", "*",
		strings.Repeat("a", 51), strings.Repeat("é", 26), strings.Repeat("a", 72), strings.Repeat("a", 73), strings.Repeat("a", 129), strings.Repeat("\xff", 100), strings.Repeat("@", 100), strings.Repeat(" ", 300), strings.Repeat("0", 300), strings.Repeat("a", big), strings.Repeat("\x00", 1000), strings.Repeat(",", 1000),
		b64(""), b64("null"), b64("[]"), b64("{}"), b64("7"), b64("\"x\""), b64("{"), b64(strings.Repeat("[", 20000)), b64(strings.Repeat("{\"id\":", 2000)), b64("\xff\x00"), b64("{\"id\":null,\"type\":7,\"response\":[]}"), "====", "AA=A",
		"ssh-rsa", "ssh-rsa ", "ssh-rsa AAAA", "ssh-rsa AAAAB3NzaC1yc2E=", "ssh-ed25519 AAAA x", "ssh-rsa " + b64(strings.Repeat("\xff", 64)),
		"-----BEGIN RSA PUBLIC KEY-----", "-----BEGIN RSA PUBLIC KEY-----\n-----END RSA PUBLIC KEY-----", "-----BEGIN RSA PUBLIC KEY-----\nMAA=\n-----END RSA PUBLIC KEY-----", "-----BEGIN PGP PUBLIC KEY BLOCK-----", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n-----END PGP PUBLIC KEY BLOCK-----", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\nxsBN\n-----END PGP PUBLIC KEY BLOCK-----",
		"ssh", "gpg", "api", "totp", "u2f", "sha1", "sha512", "md5", "bcrypt",
	}
}

func hostileInts() []int {
	return []int{0, -1, 1, 4, 6, 9, 10, 29, 30, 180, 181, 300, 1000, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63}
}

func hostileLists() [][]string {
	many := make([]string, 3000)
	for i := range many {
		many[i] = "r" + itoa(i%100)
	}
	return [][]string{nil, {}, {""}, {" "}, {"/"}, {"a/"}, {"/a"}, {"a/b/c"}, {"x", "x"}, {"x", "X"}, {"\xff"}, {"\xff", "\xfe"}, {"\x00"}, {strings.Repeat("a", 1<<12)}, many, {"a", "", "b"}, {"\ufffd", "a/\ufffd"}, {"a/b", "a/ b"}}
}

// hostileFor are the hostile values of a field; few asks for the sharpest only.
func hostileFor(c *Ctx, f reqField, few bool) []interface{} {
	var out []interface{}
	switch f.kind {
	case reflect.String:
		big := 1 << 16
		if c.Thorough {
			big = 1 << 20
		}
		l := hostileTexts(big)
		if few {
			l = []string{"", " ", "\x00", "\xff", "bob", "é", "@", "BOB@" + dom, "a, b", "{}", strings.Repeat("a", 51), strings.Repeat("a", 3000), "ssh-rsa AAAA", base64.StdEncoding.EncodeToString([]byte("{}")), "7", "ssh", "totp", "u2f"}
		}
		for _, s := range l {
			out = append(out, s)
		}
	case reflect.Int:
		for _, n := range hostileInts() {
			out = append(out, n)
		}
	case reflect.Slice:
		for i, l := range hostileLists() {
			if few && i%3 != 2 {
				continue
			}
			out = append(out, l)
		}
	case reflect.Bool:
		out = append(out, true, false)
	}
	return out
}

func shown(x interface{}) string {
	s := fmt.Sprintf("%q", fmt.Sprint(x))
	if len(s) > 70 {
		s = fmt.Sprintf("%s... (%d bytes)", s[:60], len(fmt.Sprint(x)))
	}
	return s
}

// hostileOps are the operations to be given hostile values.
func hostileOps() (prelude, ops []Op) {
	prelude, menu, _ := requestMenu()
	seen := map[string]bool{}
	for _, op := range menu {
		if op.Fault != "" || op.K == "deluser" {
			continue
		}
		// One of each kind, and of the kinds of keys and tokens.
		k := op.K + "/" + op.Usage
		if op.K == "addmfa" {
			k += "/" + mfaSpecs[op.Payload].Type
		}
		if op.K == "auth" && op.Pw == "" {
			k += "none"
		}
		if !seen[k] {
			seen[k] = true
			ops = append(ops, op)
		}
	}
	return prelude, ops
}

// hostile executes operations with hostile values.
type hostile struct {
	c       *Ctx
	v       *V
	policy  *mPolicy
	prelude []Op
	fields  []reqField
	w       *World
	state   string // of the world before the operation
	file    string
}

func (h *hostile) world() bool {
	if h.w != nil {
		h.w.Close()
	}
	r, bad := h.c.newRun(h.policy, h.prelude, nil)
	h.w = r.w
	if bad != "" {
		h.v.Fail("", "%s", bad)
		return false
	}
	h.state, h.file = h.now()
	return true
}

func (h *hostile) now() (state, file string) {
	b, err := os.ReadFile(h.w.path)
	return dump(h.w.db.Users) + stateOf(h.w), fmt.Sprintf("%v %s", err, b)
}

// everyone are the users with their addresses.
func everyone(w *World) [][2]string {
	var out [][2]string
	for _, u := range w.db.Users {
		a := ""
		if u.EmailAddress != nil {
			a = u.EmailAddress.Address
		}
		out = append(out, [2]string{u.Username, a})
	}
	return out
}

// works tells what is wrong with the database apart from what an operation did.
func (h *hostile) works(op Op, changed bool) string {
	w := h.w
	can := func(op Op, want bool) string {
		o := w.Exec(op)
		if o.Panic != "" || o.OK() != want {
			return fmt.Sprintf("%s: %s", op, o)
		}
		return ""
	}
	steps := []Op{{K: "auth", Name: "bob", Pw: pwB}}
	if op.K != "changepw" {
		steps = append(steps, Op{K: "auth", Name: "ALICE", Pw: pwA})
	}
	refused := []Op{addUser("bob", "zed@"+dom, pwC), on("bob", Op{K: "delapi", Ref: -1})}
	if changed {
		steps = append(steps, addUser("zed", "zed@"+dom, pwC), Op{K: "auth", Name: "zed", Pw: pwC}, on("bob", Op{K: "addapi", Usage: "api", Comment: "later"}), Op{K: "lookup", Ref: len(w.secrets)}, on("bob", Op{K: "getapi", Usage: "api"}), Op{K: "reopen"}, Op{K: "lookup", Ref: len(w.secrets)}, Op{K: "auth", Name: "zed@" + dom, Pw: pwC}, Op{K: "save"})
	}
	for _, s := range steps {
		if bad := can(s, true); bad != "" {
			return bad
		}
	}
	for _, s := range refused {
		if bad := can(s, false); bad != "" {
			return bad
		}
	}
	return ""
}

// whole tells how the database differs from itself reopened.
func (h *hostile) whole() string {
	if bad := inconsistent(h.w.db); bad != "" {
		return bad
	}
	pairs := everyone(h.w)
	live := everything(h.w, pairs)
	db := h.w.db
	if o := h.w.Open(); !o.OK() {
		h.w.db = db
		return "reopening: " + o.String()
	}
	if again := everything(h.w, pairs); again != live {
		return "after reopening: " + firstDiff(live, again)
	}
	return ""
}

// try executes an operation with some fields replaced.
func (h *hostile) try(op Op, set map[int]interface{}) bool {
	if h.c.Expired() || h.w == nil && !h.world() {
		return false
	}
	h.v.Count("transitions", 1)
	h.v.Count("traces_validated_against_impl", 1)
	r := op.request(h.w)
	what := ""
	for i := range h.fields {
		if x, ok := set[i]; ok {
			reflect.ValueOf(r).Elem().FieldByIndex(h.fields[i].idx).Set(reflect.ValueOf(x))
			what += fmt.Sprintf(", %s = %s", h.fields[i].name, shown(x))
		}
	}
	what = strings.TrimPrefix(what, ", ")
	key := op.String() + " with " + what
	h.v.State("states", key)
	fail := func(f string, a ...interface{}) bool {
		h.v.Fail(key, "in a database made by\n%s\nthe operation\n  %s\nwith %s: %s", traceString(h.prelude), op, what, fmt.Sprintf(f, a...))
		return false
	}
	h.w.s.dev.n = 0
	o := h.w.Call(func() error { return dispatch(h.w.db, op.K, r) })
	if o.Panic != "" {
		return fail("%s", o)
	}
	state, file := h.now()
	same := state == h.state && file == h.file
	if !o.OK() || NewModel().readOnly(op) {
		if o.OK() {
			h.v.Count("accepted", 1)
		} else {
			h.v.Count("refused", 1)
		}
		if !same {
			return fail("%s, but the database or its file has changed: %s", o, firstDiff(h.state+h.file, state+file))
		}
		if bad := h.works(op, false); bad != "" {
			return fail("%s, and then: %s", o, bad)
		}
		return true
	}
	h.v.Count("accepted", 1)
	if bad := h.whole(); bad != "" {
		return fail("is accepted, and then: %s", bad)
	}
	if bad := h.works(op, true); bad != "" {
		return fail("is accepted, and then: %s", bad)
	}
	if bad := h.whole(); bad != "" {
		return fail("is accepted, and then, after further operations: %s", bad)
	}
	return h.world()
}

func runC36(c *Ctx) {
	fields := requestFields()
	prelude, ops := hostileOps()
	wide := &mPolicy{UserMin: 1, UserMax: 100000, PwMin: 1, PwMax: 100000, Keep: 3}
	for pi, policy := range []*mPolicy{nil, wide} {
		for oi, op := range ops {
			if policy != nil && op.K != "adduser" && op.K != "changepw" {
				continue
			}
			names := ownFields(op)
			var own []int
			for i, f := range fields {
				if names[f.name] {
					own = append(own, i)
				}
			}
			for n, i := range own {
				id := fmt.Sprintf("op/%d/%d/%s/", pi, oi, fields[i].name)
				c.Case(id+"alone", func(v *V) {
					h := &hostile{c: c, v: v, policy: policy, prelude: prelude, fields: fields}
					for _, x := range hostileFor(c, fields[i], false) {
						if !h.try(op, map[int]interface{}{i: x}) {
							break
						}
					}
					if h.w != nil {
						h.w.Close()
					}
					if v.WantSample() {
						v.Sample(map[string]interface{}{"operation": op.String(), "field": fields[i].name})
					}
				})
				for _, j := range own[n+1:] {
					c.Case(id+fields[j].name, func(v *V) {
						h := &hostile{c: c, v: v, policy: policy, prelude: prelude, fields: fields}
						defer func() {
							if h.w != nil {
								h.w.Close()
							}
						}()
						for _, x := range hostileFor(c, fields[i], !c.Thorough) {
							for _, y := range hostileFor(c, fields[j], true) {
								if !h.try(op, map[int]interface{}{i: x, j: y}) {
									return
								}
							}
						}
					})
				}
			}
		}
	}
	hostileTwice(c, wide)
	hostileRecords(c)
	tornTexts(c)
	shortTexts(c)
}

// tornTexts gives everything that is parsed every way of a genuine text with a
// piece missing or repeated.
func tornTexts(c *Ctx) {
	const dash = "-----"
	encode := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	key := func(usage string) func(w *World, text string) error {
		return func(w *World, text string) error {
			r := requests.NewRequest()
			r.Key.Usage, r.Key.Payload, r.Key.Comment = usage, text, "c"
			_, err := identity.NewPublicKey(r)
			return err
		}
	}
	register := func(wrap func(string) string) func(w *World, text string) error {
		return func(w *World, text string) error {
			r := requests.NewRequest()
			r.MfaToken.Type, r.MfaToken.Comment = "u2f", "c"
			r.WebAuthn.Register, r.WebAuthn.Challenge = wrap(text), "x"
			_, err := identity.NewMfaToken(r)
			return err
		}
	}
	assert := func(wrap func(string) string) func(w *World, text string) error {
		return func(w *World, text string) error {
			r := requests.NewRequest()
			fillMfa(r, Op{K: "addmfa", Payload: "u2fA"}, time.Unix(0, NewSession().now).UTC())
			t, err := identity.NewMfaToken(r)
			if err != nil {
				fatalf("%v", err)
			}
			_, err = t.WebAuthnRequest(wrap(text))
			return err
		}
	}
	plain := func(s string) string { return s }
	request, _ := assertionFor("u2fA")
	decoded, err := base64.StdEncoding.DecodeString(request)
	if err != nil {
		fatalf("%v", err)
	}
	doc := jsonOf(registerDoc("u2fA"))
	rsaText, pgpText := fixtureKey("rsaA:ssh"), fixtureKey("pgpA")
	pemText := fixtureKey("rsaA:pem")
	kinds := []struct {
		name, head, tail string
		step             int
		parse            func(w *World, text string) error
	}{
		{"ssh", rsaText, rsaText, 1, key("ssh")},
		{"pem", pemText, pemText, 1, key("ssh")},
		{"pgp", pgpText, pgpText, 1, key("gpg")},
		{"ssh-lines", dash + "BEGIN RSA PUBLIC KEY" + dash, dash + "END RSA PUBLIC KEY" + dash, 0, key("ssh")},
		{"pgp-lines", dash + "BEGIN PGP PUBLIC KEY BLOCK" + dash, dash + "END PGP PUBLIC KEY BLOCK" + dash, 0, key("gpg")},
		{"ssh-type", "ssh-rsa ", "\tssh-rsa AAAA= c", 0, key("ssh")},
		{"register", doc, doc, 1, register(encode)},
		{"register-text", encode(doc), encode(doc), 7, register(plain)},
		{"assertion", string(decoded), string(decoded), 1, assert(encode)},
		{"assertion-text", request, request, 7, assert(plain)},
	}
	for _, k := range kinds {
		const parts = 4
		for part := 0; part < parts; part++ {
			c.Case(fmt.Sprintf("torn/%s/%d", k.name, part), func(v *V) {
				w := NewWorld(c.Scratch)
				defer w.Close()
				try := func(text string) bool {
					if c.Expired() {
						return false
					}
					v.Count("transitions", 1)
					v.Count("traces_validated_against_impl", 1)
					v.State("states", k.name+text)
					if o := w.Call(func() error { return k.parse(w, text) }); o.Panic != "" {
						v.Fail(fmt.Sprintf("%s %.200q", k.name, text), "%s: parsing %q: %s", k.name, text, o)
						return false
					} else if o.OK() {
						v.Count("accepted", 1)
					} else {
						v.Count("refused", 1)
					}
					return true
				}
				for i := part; i <= len(k.head); i += parts {
					if k.step == 0 {
						// Every beginning with every end.
						for j := 0; j <= len(k.tail); j++ {
							for _, glue := range []string{"", "\n", "\n\n", " "} {
								if !try(k.head[:i] + glue + k.tail[j:]) {
									return
								}
							}
						}
						continue
					}
					if i%k.step != 0 && !c.Thorough {
						continue
					}
					// The end is missing, the beginning is, or a piece in the
					// middle; a piece is there twice.
					texts := []string{k.head[:i], k.head[i:]}
					for _, n := range []int{1, 2, 5, 40} {
						if i+n <= len(k.head) {
							texts = append(texts, k.head[:i]+k.head[i+n:], k.head[:i+n]+k.head[i:])
						}
					}
					for _, text := range texts {
						if !try(text) {
							return
						}
					}
				}
			})
		}
	}
}

// shortTexts gives the parsers of names, roles and addresses every short text.
func shortTexts(c *Ctx) {
	alphabet := []string{"a", "B", " ", ",", "/", "@", ".", "-", "é"}
	depth := 5
	if c.Thorough {
		depth = 7
	}
	parsers := []struct {
		name  string
		parse func(s string) (string, error)
	}{
		{"ParseName", func(s string) (string, error) {
			n, err := identity.ParseName(s)
			if err == nil {
				return n.GetFullName() + n.GetNameClaim() + n.ToString(), nil
			}
			return "", err
		}},
		{"NewRole", func(s string) (string, error) {
			r, err := identity.NewRole(s)
			if err == nil {
				return r.String(), nil
			}
			return "", err
		}},
		{"NewEmailAddress", func(s string) (string, error) {
			e, err := identity.NewEmailAddress(s)
			if err == nil {
				return e.ToString() + e.Domain, nil
			}
			return "", err
		}},
		{"User", func(s string) (string, error) {
			u := identity.NewUser(s)
			if err := u.AddRole(s); err != nil {
				return "", err
			}
			u.HasRole(s)
			if err := u.AddEmailAddress(s); err != nil {
				return "", err
			}
			return u.GetMailClaim(), nil
		}},
	}
	for _, p := range parsers {
		for i, a := range alphabet {
			for j, b := range alphabet {
				c.Case(fmt.Sprintf("short/%s/%d/%d", p.name, i, j), func(v *V) {
					w := NewWorld(c.Scratch)
					defer w.Close()
					var rec func(s string, n int) bool
					rec = func(s string, n int) bool {
						v.Count("transitions", 1)
						v.Count("traces_validated_against_impl", 1)
						v.State("states", p.name+s)
						o := w.Call(func() error { _, err := p.parse(s); return err })
						if o.Panic != "" {
							v.Fail(p.name+" "+s, "%s of %q: %s", p.name, s, o)
							return false
						}
						if n == 0 {
							return !c.Expired()
						}
						for _, x := range alphabet {
							if !rec(s+x, n-1) {
								return false
							}
						}
						return true
					}
					rec(a+b, depth-2)
				})
			}
		}
	}
}

// hostileTwice adds two users with hostile names, addresses and roles.
func hostileTwice(c *Ctx, policy *mPolicy) {
	names := []string{"a", "A", "a ", " a", "a\x00", "\x00", "\xff", "\xfe", "\ufffd", "a\xff", "é", "É", "e\u0301", "K", "k", "ſ", "s", "S", "İ", "i", "I", "ı", "a@b.cc", "x@" + dom, "@", "..", "\n", "ß", "SS", strings.Repeat("a", 5000)}
	mails := []string{"x@" + dom, "X@" + dom, "x@b.cc", "k@" + dom, "K@" + dom, "\xff@" + dom, "x @" + dom, "x@example.com ", "a", "x.y@" + dom, "x+y@" + dom, "\"x\"@" + dom, "x@[127.0.0.1]", "x@é.com", "é@" + dom}
	run := func(v *V, a, b Op) {
		w := NewWorld(c.Scratch)
		defer w.Close()
		writePolicyFile(w.path, *policy)
		if o := w.Open(); !o.OK() {
			v.Fail("", "%s", o)
			return
		}
		h := &hostile{c: c, v: v, w: w}
		key := fmt.Sprintf("%s, %s", shown(a.Name+" "+a.Email+strings.Join(a.Roles, " ")), shown(b.Name+" "+b.Email+strings.Join(b.Roles, " ")))
		v.Count("transitions", 2)
		v.Count("traces_validated_against_impl", 1)
		v.State("states", key)
		var in []Op
		for _, op := range []Op{a, b} {
			o := w.Exec(op)
			if o.Panic != "" {
				v.Fail(key, "%s: %s", op, o)
				return
			}
			if o.OK() {
				in = append(in, op)
			}
			if bad := h.whole(); bad != "" {
				v.Fail(key, "after adding\n  %s\n  %s\n%s", a, b, bad)
				return
			}
		}
		for _, op := range in {
			for _, n := range []string{op.Name, op.Email} {
				if o := w.Exec(Op{K: "auth", Name: n, Pw: op.Pw}); !o.OK() {
					v.Fail(key, "after adding\n  %s\n  %s\nthe user %q cannot log in: %s", a, b, n, o)
					return
				}
			}
		}
		v.Count("users_in", len(in))
	}
	for i, x := range names {
		c.Case("names/"+itoa(i), func(v *V) {
			for _, y := range names {
				if c.Expired() || v.Failed() {
					return
				}
				run(v, addUser(x, "one@"+dom, pwA), addUser(y, "two@"+dom, pwB))
			}
		})
		c.Case("names-mails/"+itoa(i), func(v *V) {
			for _, y := range mails {
				if c.Expired() || v.Failed() {
					return
				}
				run(v, addUser(x, "one@"+dom, pwA), addUser("two", y, pwB))
				run(v, addUser("two", y, pwB), addUser(x, "one@"+dom, pwA))
				run(v, addUser(x, y, pwA), addUser("two", "two@"+dom, pwB))
			}
		})
	}
	for i, x := range mails {
		c.Case("mails/"+itoa(i), func(v *V) {
			for _, y := range mails {
				if c.Expired() || v.Failed() {
					return
				}
				run(v, addUser("one", x, pwA), addUser("two", y, pwB))
			}
		})
	}
	c.Case("roles", func(v *V) {
		for _, x := range hostileLists() {
			for _, y := range hostileLists() {
				if c.Expired() || v.Failed() {
					return
				}
				a, b := addUser("one", "one@"+dom, pwA), addUser("two", "two@"+dom, pwB)
				a.Roles, b.Roles = x, y
				run(v, a, b)
			}
		}
	})
}

// hostileRecords calls the methods of records and the constructors.
func hostileRecords(c *Ctx) {
	fields := requestFields()
	keyRequest := func(usage, payload string) *requests.Request {
		r := requests.NewRequest()
		r.Key.Usage, r.Key.Payload, r.Key.Comment = usage, payload, "c"
		r.User.Username, r.User.Password, r.User.OldPassword = "alice", pwB, pwA
		return r
	}
	tokenRequest := func(spec string) *requests.Request {
		r := requests.NewRequest()
		fillMfa(r, Op{K: "addmfa", Payload: spec}, time.Unix(0, NewSession().now).UTC())
		r.MfaToken.Comment = "c " + spec
		return r
	}
	// Requests on which the hostile values are put.
	bases := func() []*requests.Request {
		as := requests.NewRequest()
		as.WebAuthn.Request, as.WebAuthn.Challenge = assertionFor("u2fA")
		return []*requests.Request{requests.NewRequest(), keyRequest("ssh", fixtureKey("rsaA:ssh")), keyRequest("gpg", fixtureKey("pgpA")), keyRequest("api", strings.Repeat("k", 72)), tokenRequest("totpA"), tokenRequest("u2fA"), as}
	}
	reqs := func(few bool) []func() *requests.Request {
		var out []func() *requests.Request
		for b := range bases() {
			out = append(out, func() *requests.Request { return bases()[b] })
			for _, f := range fields {
				if f.kind != reflect.String && f.kind != reflect.Int || few && !c.Thorough && !strings.HasPrefix(f.name, "User.") {
					continue
				}
				for _, x := range hostileFor(c, f, f.name == "User.Username" || f.name == "User.Email" || f.name == "User.FullName") {
					out = append(out, func() *requests.Request {
						r := bases()[b]
						reflect.ValueOf(r).Elem().FieldByIndex(f.idx).Set(reflect.ValueOf(x))
						return r
					})
				}
			}
		}
		return out
	}
	must := func(x interface{}, err error) interface{} {
		if err != nil {
			fatalf("%v", err)
		}
		return x
	}
	// The genuine records are made anew for every call.
	records := []struct {
		name string
		make func() interface{}
	}{
		{"User/zero", func() interface{} { return &identity.User{} }},
		{"User/new", func() interface{} {
			return must(identity.NewUserWithRoles("alice", pwA, "alice@"+dom, "Smith, Alice", []string{"admin", "org/user"}))
		}},
		{"User/full", func() interface{} {
			u := must(identity.NewUserWithRoles("alice", pwA, "alice@"+dom, "Smith, Alice", []string{"admin"})).(*identity.User)
			for i, r := range bases()[1:6] {
				var err error
				switch i {
				case 0, 1:
					err = u.AddPublicKey(r)
				case 2:
					err = u.AddAPIKey(r)
				default:
					err = u.AddMfaToken(r)
				}
				if err != nil {
					fatalf("%d: %v", i, err)
				}
			}
			return u
		}},
		{"APIKey/zero", func() interface{} { return &identity.APIKey{} }},
		{"APIKey/new", func() interface{} { return must(identity.NewAPIKey(bases()[3])) }},
		{"APIKeyBundle", func() interface{} { return identity.NewAPIKeyBundle() }},
		{"PublicKey/zero", func() interface{} { return &identity.PublicKey{} }},
		{"PublicKey/new", func() interface{} { return must(identity.NewPublicKey(bases()[1])) }},
		{"PublicKeyBundle", func() interface{} { return identity.NewPublicKeyBundle() }},
		{"MfaToken/zero", func() interface{} { return &identity.MfaToken{} }},
		{"MfaToken/totp", func() interface{} { return must(identity.NewMfaToken(bases()[4])) }},
		{"MfaToken/u2f", func() interface{} { return must(identity.NewMfaToken(bases()[5])) }},
		{"MfaTokenBundle", func() interface{} { return identity.NewMfaTokenBundle() }},
		{"UserMetadataBundle", func() interface{} { return identity.NewUserMetadataBundle() }},
		{"Password/zero", func() interface{} { return &identity.Password{} }},
		{"Password/new", func() interface{} { return must(identity.NewPassword(pwA)) }},
		{"EmailAddress/zero", func() interface{} { return &identity.EmailAddress{} }},
		{"Name/zero", func() interface{} { return identity.NewName() }},
		{"Role/zero", func() interface{} { return &identity.Role{} }},
		{"CreditCard", func() interface{} { return identity.NewCreditCard() }},
		{"Code", func() interface{} { return qr.NewCode() }},
	}
	funcs := []struct {
		name string
		f    interface{}
	}{
		{"NewPublicKey", identity.NewPublicKey}, {"NewAPIKey", identity.NewAPIKey}, {"NewMfaToken", identity.NewMfaToken}, {"NewPassword", identity.NewPassword},
		{"NewEmailAddress", identity.NewEmailAddress}, {"ParseName", identity.ParseName}, {"NewRole", identity.NewRole}, {"NewUser", identity.NewUser}, {"NewUserWithRoles", identity.NewUserWithRoles},
		{"NewPasswordWithOptions", identity.NewPasswordWithOptions}, {"GetRandomString", identity.GetRandomString}, {"GetRandomStringFromRange", identity.GetRandomStringFromRange}, {"NewRandomString", identity.NewRandomString},
	}
	// args are the values for a parameter; at most a few if there are others.
	args := func(t reflect.Type, few bool) []func() reflect.Value {
		var out []func() reflect.Value
		add := func(x interface{}) { out = append(out, func() reflect.Value { return reflect.ValueOf(x) }) }
		switch t {
		case reflect.TypeOf(""):
			l := hostileTexts(1 << 16)
			if few {
				l = []string{"", " ", "\x00", "\xff", "bob", "a, b", "a@b.cc", strings.Repeat("a", 3000), pwA}
			}
			for _, s := range l {
				add(s)
			}
		case reflect.TypeOf(0):
			for _, n := range []int{0, 1, -1, 2, 8, 255, 256, 1000, 1 << 16, -1 << 31, -1 << 63} {
				add(n)
			}
		case reflect.TypeOf([]string{}):
			for _, l := range hostileLists() {
				add(l)
			}
		case reflect.TypeOf(map[string]interface{}{}):
			for _, m := range []map[string]interface{}{nil, {}, {"cost": 4}, {"cost": nil}, {"cost": "x"}, {"cost": -1}, {"cost": 1 << 40}, {"cost": 10.5}, {"x": 1}} {
				add(m)
			}
		case reflect.TypeOf(time.Time{}):
			for _, x := range []time.Time{{}, time.Unix(0, 0), time.Unix(-1<<40, 0), time.Unix(1<<40, 0), time.Unix(1<<62, 0), time.Unix(29, 0)} {
				add(x)
			}
		case reflect.TypeOf(requests.NewRequest()):
			for _, f := range reqs(few) {
				out = append(out, func() reflect.Value { return reflect.ValueOf(f()) })
			}
		case reflect.TypeOf(&identity.Name{}):
			add(identity.NewName())
			add(&identity.Name{First: "\xff", Last: strings.Repeat("x", 3000)})
			add(&identity.Name{First: "Alice", Last: "Smith"})
		default:
			if t.Kind() == reflect.Ptr {
				add(reflect.New(t.Elem()).Interface())
			}
		}
		return out
	}
	// calls enumerates all calls of a function after the given receiver.
	calls := func(t reflect.Type, first int, try func(in []reflect.Value) bool) {
		n := t.NumIn() - first
		lists := make([][]func() reflect.Value, n)
		for i := range lists {
			lists[i] = args(t.In(first+i), n > 1)
		}
		idx := make([]int, n)
		for {
			in := make([]reflect.Value, n)
			for i := range in {
				if len(lists[i]) == 0 {
					return
				}
				in[i] = lists[i][idx[i]]()
			}
			if !try(in) {
				return
			}
			i := n - 1
			for ; i >= 0; i-- {
				if idx[i]++; idx[i] < len(lists[i]) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				return
			}
		}
	}
	describe := func(in []reflect.Value) string {
		var l []string
		for _, x := range in {
			if r, ok := x.Interface().(*requests.Request); ok {
				s := ""
				for _, f := range fields {
					y := reflect.ValueOf(r).Elem().FieldByIndex(f.idx)
					if !y.IsZero() {
						s += fmt.Sprintf(" %s=%s", f.name, shown(y.Interface()))
					}
				}
				l = append(l, "{"+strings.TrimSpace(s)+"}")
				continue
			}
			l = append(l, shown(x.Interface()))
		}
		return strings.Join(l, ", ")
	}
	call := func(v *V, w *World, what string, f reflect.Value, rcv interface{}, in []reflect.Value) bool {
		v.Count("transitions", 1)
		v.Count("traces_validated_against_impl", 1)
		desc := describe(in)
		v.State("states", what+desc)
		before := ""
		if rcv != nil {
			before = dump(rcv)
		}
		var out []reflect.Value
		o := w.Call(func() error { out = f.Call(in); return nil })
		key := fmt.Sprintf("%s(%s)", what, desc)
		if len(key) > 300 {
			key = key[:300]
		}
		if o.Panic != "" {
			v.Fail(key, "%s(%s): %s", what, desc, o)
			return false
		}
		if n := len(out); n > 0 && out[n-1].Type().Name() == "error" && !out[n-1].IsNil() {
			v.Count("refused", 1)
			if rcv != nil {
				if after := dump(rcv); after != before {
					v.Fail(key, "%s(%s) reports %q, but has changed the record: %s", what, desc, out[n-1].Interface(), firstDiff(before, after))
					return false
				}
			}
			return true
		}
		v.Count("accepted", 1)
		if n := len(out); n == 2 && out[0].Kind() == reflect.Ptr && out[0].IsNil() {
			v.Fail(key, "%s(%s) gives neither a result nor an error", what, desc)
			return false
		}
		return true
	}
	for _, rec := range records {
		typ := recordType(rec.name)
		for m := 0; m < typ.NumMethod(); m++ {
			meth := typ.Method(m)
			c.Case("record/"+rec.name+"/"+meth.Name, func(v *V) {
				w := NewWorld(c.Scratch)
				defer w.Close()
				calls(meth.Type, 1, func(in []reflect.Value) bool {
					if c.Expired() {
						return false
					}
					var rcv interface{}
					if o := w.Call(func() error { rcv = rec.make(); return nil }); o.Panic != "" {
						v.Fail("", "making %s: %s", rec.name, o)
						return false
					}
					return call(v, w, rec.name+"."+meth.Name, reflect.ValueOf(rcv).Method(m), rcv, in)
				})
			})
		}
	}
	for _, fn := range funcs {
		c.Case("func/"+fn.name, func(v *V) {
			w := NewWorld(c.Scratch)
			defer w.Close()
			calls(reflect.TypeOf(fn.f), 0, func(in []reflect.Value) bool {
				if fn.name == "GetRandomStringFromRange" && (in[0].Int() < 0 || in[1].Int() < 0) {
					return true
				}
				return !c.Expired() && call(v, w, fn.name, reflect.ValueOf(fn.f), nil, in)
			})
		})
	}
}

func recordType(name string) reflect.Type {
	name, _, _ = strings.Cut(name, "/")
	return map[string]reflect.Type{
		"User": reflect.TypeOf(&identity.User{}), "APIKey": reflect.TypeOf(&identity.APIKey{}), "APIKeyBundle": reflect.TypeOf(&identity.APIKeyBundle{}), "PublicKey": reflect.TypeOf(&identity.PublicKey{}), "PublicKeyBundle": reflect.TypeOf(&identity.PublicKeyBundle{}),
		"MfaToken": reflect.TypeOf(&identity.MfaToken{}), "MfaTokenBundle": reflect.TypeOf(&identity.MfaTokenBundle{}), "UserMetadataBundle": reflect.TypeOf(&identity.UserMetadataBundle{}), "Password": reflect.TypeOf(&identity.Password{}), "EmailAddress": reflect.TypeOf(&identity.EmailAddress{}),
		"Name": reflect.TypeOf(&identity.Name{}), "Role": reflect.TypeOf(&identity.Role{}), "CreditCard": reflect.TypeOf(&identity.CreditCard{}), "Code": reflect.TypeOf(&qr.Code{}),
	}[name]
}
