package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

func init() {
	register(&Property{
		ID: "C35", Level: "exploration", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule:        "records of credentials used without a database. Security keys: fresh, read back, and with every parameter left out, blanked or exchanged, each judging every deviation of every part of a request (and pairs of them in the thorough tier) one after the other with the genuine request in between. One-time-password tokens with every member damaged. Passwords: every text x algorithm x purpose x parameters of a menu, each matched against every text, and every truncation and character change of its hash. API keys: every combination of members of a request",
		Assumptions: []string{"re-encodings of the same signature are not explored", "texts that agree in the first 72 bytes are not told apart"},
		Run:         runC35,
	})
}

// keyRec is a security key record, and what it must accept: requests with this
// ID signed by this key for this relying party.
type keyRec struct {
	name   string
	tok    *identity.MfaToken
	id     string
	signer string // "" if none
	rp     string // hex
}

// accepts is the reference for the direct use of a record.
func (k *keyRec) accepts(w *wreq) bool {
	if w.bad || k.signer == "" || w.signer != k.signer || w.noHash {
		return false
	}
	id, ok := w.id.(string)
	switch w.challenge.(type) {
	case string, absentType, nil:
	default:
		return false
	}
	cross := w.cross == absent || w.cross == false || w.cross == nil
	return ok && id == k.id && w.ctype == "webauthn.get" && cross && len(w.auth) >= 37 && hex.EncodeToString(w.auth[:32]) == k.rp && w.auth[32]&1 == 1 &&
		(!w.oldAuth || string(w.auth) == string(genuineAuthData())) && (!w.oldCli || w.clientText() == w.genuineC)
}

func newToken(w *World, spec string) (*identity.MfaToken, error) {
	var k *identity.MfaToken
	o := w.Call(func() error {
		r := requests.NewRequest()
		fillMfa(r, Op{K: "addmfa", Payload: spec, Comment: "c"}, time.Unix(0, w.s.now).UTC())
		var err error
		k, err = identity.NewMfaToken(r)
		return err
	})
	if !o.OK() {
		return nil, fmt.Errorf("%s", o)
	}
	return k, nil
}

// readBack is the record as it comes back from its JSON form.
func readBack(k *identity.MfaToken) *identity.MfaToken {
	out := &identity.MfaToken{}
	if err := json.Unmarshal([]byte(jsonOf(k)), out); err != nil {
		fatalf("token: %v", err)
	}
	return out
}

func keyRecords(w *World) ([]keyRec, error) {
	var out []keyRec
	made := map[string]*identity.MfaToken{}
	for _, n := range []string{"u2fA", "u2fB", "u2fC"} {
		k, err := newToken(w, n)
		if err != nil {
			return nil, err
		}
		made[n] = k
	}
	for _, n := range []string{"u2fA", "u2fB"} {
		out = append(out, keyRec{"fresh " + n, made[n], "id-" + n, n, rpHash()}, keyRec{"read " + n, readBack(made[n]), "id-" + n, n, rpHash()})
	}
	add := func(name string, edit func(k *keyRec)) {
		k := keyRec{name, readBack(made["u2fA"]), "id-u2fA", "u2fA", rpHash()}
		edit(&k)
		out = append(out, k)
	}
	b := made["u2fB"].Parameters
	for _, p := range []string{"u2f_id", "key_type", "key_algo", "curve_xcoord", "curve_ycoord", "rp_id_hash"} {
		none := func(k *keyRec) {
			if x, ok := k.tok.Parameters[p]; ok && p == "u2f_id" {
				k.id = x // it is another record then
			} else {
				k.signer = ""
			}
		}
		add("without "+p, func(k *keyRec) { delete(k.tok.Parameters, p); none(k) })
		if p != "u2f_id" {
			add("blank "+p, func(k *keyRec) { k.tok.Parameters[p] = ""; none(k) })
		}
		add("other "+p, func(k *keyRec) { k.tok.Parameters[p] = "x"; none(k) })
		add("longer "+p, func(k *keyRec) { k.tok.Parameters[p] += "0"; none(k) })
		add("shorter "+p, func(k *keyRec) { s := k.tok.Parameters[p]; k.tok.Parameters[p] = s[:len(s)-1]; none(k) })
		if p != "key_type" && p != "key_algo" && p != "rp_id_hash" {
			add("exchanged "+p, func(k *keyRec) {
				k.tok.Parameters[p] = b[p]
				none(k) // the point is not on the curve
			})
		}
	}
	add("another key", func(k *keyRec) {
		for _, p := range []string{"curve_xcoord", "curve_ycoord"} {
			k.tok.Parameters[p] = b[p]
		}
		k.signer = "u2fB"
	})
	add("zero coordinates", func(k *keyRec) {
		for _, p := range []string{"curve_xcoord", "curve_ycoord"} {
			k.tok.Parameters[p] = base64.StdEncoding.EncodeToString(make([]byte, 32))
		}
		k.signer = ""
	})
	add("coordinates exchanged", func(k *keyRec) {
		p := k.tok.Parameters
		p["curve_xcoord"], p["curve_ycoord"] = p["curve_ycoord"], p["curve_xcoord"]
		k.signer = ""
	})
	add("another party", func(k *keyRec) {
		k.rp = strings.Repeat("00", 32)
		k.tok.Parameters["rp_id_hash"] = k.rp
	})
	add("no parameters", func(k *keyRec) { k.tok.Parameters, k.signer = nil, "" })
	for _, t := range []string{"totp", "", "U2F", "u2f ", "none"} {
		add(fmt.Sprintf("type %q", t), func(k *keyRec) { k.tok.Type, k.signer = t, "" })
	}
	add("no flags", func(k *keyRec) { k.tok.Flags = nil })
	add("counter", func(k *keyRec) { k.tok.SignatureCounter = 1 << 31 })
	return out, nil
}

// requestData says how the parts of an accepted request were read, and how they
// are.
func requestData(r *identity.WebAuthnAuthenticateRequest, w *wreq) (got, want string) {
	if r == nil || r.ClientData == nil || r.AuthData == nil {
		return "no data", "data"
	}
	flags := map[string]bool{}
	for i, n := range []string{"UP", "RFU1", "UV", "RFU2a", "RFU2b", "RFU2c", "AT", "ED"} {
		flags[n] = w.auth[32]>>i&1 == 1
	}
	count := uint32(w.auth[33])<<24 | uint32(w.auth[34])<<16 | uint32(w.auth[35])<<8 | uint32(w.auth[36])
	text := func(x interface{}) string { s, _ := x.(string); return s }
	want = fmt.Sprint(text(w.id), "public-key", text(w.ctype), text(w.challenge), "https://localhost", false, hex.EncodeToString(w.auth[:32]), flags, count)
	got = fmt.Sprint(r.ID, r.Type, r.ClientData.Type, r.ClientData.Challenge, r.ClientData.Origin, r.ClientData.CrossOrigin, r.AuthData.RelyingPartyID, r.AuthData.Flags, r.AuthData.SignatureCounter)
	return
}

func runC35(c *Ctx) {
	world := func() *World { return NewWorld(c.Scratch) }
	single, pairs := deviations(true), deviations(false)
	recs, err := keyRecords(world())
	if err != nil {
		c.Case("records", func(v *V) { v.Fail("", "registering a key: %v", err) })
		return
	}
	for ri := range recs {
		name := recs[ri].name
		// records makes them anew, for another case may have used them.
		records := func(v *V, w *World) *keyRec {
			l, err := keyRecords(w)
			if err != nil {
				v.Fail("", "registering a key: %v", err)
				return nil
			}
			return &l[ri]
		}
		try := func(v *V, w *World, k *keyRec, q *wreq, what string, one bool) bool {
			text, want := q.build(), k.accepts(q)
			before := dump(k.tok)
			var r *identity.WebAuthnAuthenticateRequest
			o := w.Call(func() error {
				var err error
				r, err = k.tok.WebAuthnRequest(text)
				return err
			})
			v.Count("evaluations", 1)
			if one || want {
				v.Count("distinct_nontrivial", 1)
			}
			fail := func(f string, a ...interface{}) bool {
				v.Fail(name+" "+what, "the security key record %q (%s), asked with a request signed by %s, deviations: %s: %s\nrequest %s", name, before, q.signer, what, fmt.Sprintf(f, a...), text)
				return false
			}
			if o.Panic != "" || o.OK() != want {
				return fail("expected to be accepted: %v; got %s", want, o)
			}
			if after := dump(k.tok); after != before {
				return fail("the record has changed: %s", firstDiff(before, after))
			}
			if want {
				if got, exp := requestData(r, q); got != exp {
					return fail("the request is reported as\n%s, but it is\n%s", got, exp)
				}
			}
			return true
		}
		c.Case("key/"+name, func(v *V) {
			w := world()
			defer w.Close()
			k := records(v, w)
			if k == nil {
				return
			}
			mine := func(signer string) *wreq {
				q := genuine("alice", signer)
				if k.signer != "" {
					q.id = k.id
					b, _ := hex.DecodeString(k.rp)
					copy(q.auth, b)
				}
				return q
			}
			for _, signer := range []string{"u2fA", "u2fB", "u2fC"} {
				if !try(v, w, k, mine(signer), "none", true) || !try(v, w, k, genuine("alice", signer), "as first made", true) {
					return
				}
				for _, d := range single {
					// The texts near the right ones: for the fresh record and its own key.
					if strings.HasSuffix(d.dim, " near") && (signer != k.signer || !c.Thorough && name != "fresh u2fA") {
						continue
					}
					q := mine(signer)
					d.apply(q)
					if c.Expired() || !try(v, w, k, q, d.dim+": "+d.name, true) {
						return
					}
					if signer == k.signer && !try(v, w, k, mine(signer), "none, after one with "+d.dim+": "+d.name, false) {
						return
					}
				}
			}
			if v.WantSample() {
				v.Sample(map[string]interface{}{"record": name, "deviations": len(single), "accepts": k.signer})
			}
		})
		if k := &recs[ri]; k.signer == "" || !c.Thorough && name != "fresh u2fA" {
			continue
		}
		for i, d := range pairs {
			c.Case(fmt.Sprintf("key/%s/pair/%d", name, i), func(v *V) {
				w := world()
				defer w.Close()
				k := records(v, w)
				if k == nil {
					return
				}
				for _, e := range pairs[i+1:] {
					if e.dim == d.dim || d.dim == "forged" && e.dim == "edit" {
						continue
					}
					q := genuine("alice", k.signer)
					q.id = k.id
					b, _ := hex.DecodeString(k.rp)
					copy(q.auth, b)
					d.apply(q)
					e.apply(q)
					if c.Expired() || !try(v, w, k, q, d.dim+": "+d.name+" + "+e.dim+": "+e.name, false) {
						return
					}
				}
			})
		}
	}

	// Several records asked in turn: none must answer for another.
	c.Case("key/turns", func(v *V) {
		w := world()
		defer w.Close()
		l, err := keyRecords(w)
		if err != nil {
			v.Fail("", "registering a key: %v", err)
			return
		}
		for i := range l {
			for j := range l {
				for _, n := range []int{i, j, i} {
					k := &l[n]
					for _, signer := range []string{"u2fA", "u2fB"} {
						q := genuine("alice", signer)
						q.id = k.id
						v.Count("evaluations", 1)
						o := w.Call(func() error { _, err := k.tok.WebAuthnRequest(q.build()); return err })
						if o.Panic != "" || o.OK() != k.accepts(q) {
							v.Fail(k.name+" turn", "the security key records %q and %q asked in turn: for a request signed by %s %q answers %s, expected to be accepted: %v", l[i].name, l[j].name, signer, k.name, o, k.accepts(q))
							return
						}
					}
				}
			}
		}
	})

	// One-time passwords.
	c.Case("codes", func(v *V) {
		w := world()
		defer w.Close()
		w.s.tick = 0
		tok, err := newToken(w, "totpA")
		if err != nil {
			v.Fail("", "%v", err)
			return
		}
		sec := time.Unix(0, w.s.now).Unix()
		right := func(algo string, d int) string {
			if algo != "sha256" && algo != "sha512" {
				algo = "sha1"
			}
			return refTOTP([]byte(tok.Secret), algo, d, uint64(sec)/30)
		}
		for _, typ := range []string{"totp", "u2f", "", "TOTP", "hotp"} {
			for _, algo := range []string{"sha1", "sha256", "sha512", "SHA1", "sha224", "md5", "", "sha-1"} {
				for _, digits := range []int{-6, -1, 0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 20, 400} {
					for _, period := range []int{30, 0, -1, -30, 1 << 40} {
						k := readBack(tok)
						k.Type, k.Algorithm, k.Digits, k.Period = typ, algo, digits, period
						before := dump(k)
						d := digits
						if d < 1 || d > 9 {
							d = 6
						}
						fit := (algo == "sha1" || algo == "sha256" || algo == "sha512") && digits >= 4 && digits <= 8
						for _, code := range []string{right(algo, d), right(algo, 6), right(algo, 8), "", " ", "0", "0000", "000000", strings.Repeat("0", 20), "١٢٣٤", "-00001", "+00001", "%!d", "\x00\x00\x00\x00\x00\x00"} {
							v.Count("evaluations", 2)
							now := w.Call(func() error { return k.ValidateCode(code) })
							at := w.Call(func() error { return k.ValidateCodeWithTime(code, time.Unix(sec, 0)) })
							what := fmt.Sprintf("type %q, algorithm %q, %d digits, period %d, code %q", typ, algo, digits, period, code)
							if now.Panic != "" || at.Panic != "" || dump(k) != before {
								v.Fail(what, "%s: %s, at a given time %s; record %s, before %s", what, now, at, dump(k), before)
								return
							}
							want := typ == "totp" && fit && period == 30 && code == right(algo, digits) && len(code) == digits
							if want {
								v.Count("distinct_nontrivial", 1)
							}
							if want && (!now.OK() || !at.OK()) || now.OK() && (typ != "totp" || !fit) || at.OK() && !fit ||
								period == 30 && now.OK() && !want && !nearCode(tok.Secret, algo, digits, uint64(sec)/30, code) {
								v.Fail(what, "%s: %s, at a given time %s; the right code is %s", what, now, at, right(algo, d))
								return
							}
						}
					}
				}
			}
		}
	})

	// Passwords.
	texts := []string{"", " ", "\t\n", "a", "A", "password", "Password", "password ", " password", "passwor", "passwordd", "pass word", "pässword", "pa\u0308ssword", "密码密码密码", "pass\x00word", "password\x00", "\x00", "pass\nword",
		strings.Repeat("x", 71), strings.Repeat("x", 72), strings.Repeat("x", 70) + "yy", "\xff\xfe\xfd", "$2a$10$abcdefghijklmnopqrstuv", "%s%d", "\"'\\"}
	blank := func(s string) bool { return strings.TrimSpace(s) == "" || strings.IndexByte(s, 0) >= 0 }
	params := []map[string]interface{}{nil, {}, {"Cost": 12}, {"other": "x"}}
	for _, x := range []interface{}{-1, 0, 4, 7, 8, 9, 10, 11, 12, 31, 32, 1 << 20} {
		params = append(params, map[string]interface{}{"cost": x})
	}
	for _, x := range []interface{}{"10", 10.0, nil, int64(10), true, []int{10}} {
		params = append(params, map[string]interface{}{"cost": x})
	}
	for ti, s := range texts {
		c.Case(fmt.Sprintf("password/%d", ti), func(v *V) {
			w := world()
			defer w.Close()
			w.s.tick = 0
			hashes := map[string]bool{}
			for _, algo := range []string{"bcrypt", "", "BCRYPT", "bcrypt ", "sha256", "plain"} {
				for _, purpose := range []string{"generic", "", "lost & found"} {
					for pi, p := range params {
						var k *identity.Password
						o := w.Call(func() error {
							var err error
							k, err = identity.NewPasswordWithOptions(s, purpose, algo, p)
							return err
						})
						v.Count("evaluations", 1)
						cost, ok := 0, true
						if x, exists := p["cost"]; exists {
							cost, ok = x.(int)
						}
						if cost < 8 {
							cost = 10
						}
						want := ok && !blank(s) && algo == "bcrypt" && cost <= 31
						what := fmt.Sprintf("password %q, purpose %q, algorithm %q, parameters %v", s, purpose, algo, p)
						if o.Panic != "" || o.OK() != want || want == (k == nil) {
							v.Fail(what, "%s: %s, record %v; expected to be accepted: %v", what, o, k, want)
							return
						}
						if !want {
							continue
						}
						v.Count("distinct_nontrivial", 1)
						hc, err := bcrypt.Cost([]byte(k.Hash))
						if err != nil || hc != cost || k.Cost != cost || k.Purpose != purpose || k.Algorithm != algo || !k.CreatedAt.Equal(time.Unix(0, w.s.now)) || k.Disabled || k.Expired || len(s) > 4 && strings.Contains(jsonOf(k), s) || hashes[k.Hash] {
							v.Fail(what, "%s: the record is %s", what, jsonOf(k))
							return
						}
						hashes[k.Hash] = true
						before := jsonOf(k)
						for _, t := range texts {
							if pi > 3 && purpose != "" && t != s {
								continue
							}
							v.Count("evaluations", 1)
							var got bool
							o := w.Call(func() error { got = k.Match(t); return nil })
							if o.Panic != "" || got != (t == s) || jsonOf(k) != before {
								v.Fail(what+" "+t, "%s: Match(%q) is %v %s", what, t, got, o.Panic)
								return
							}
						}
					}
				}
			}
			if blank(s) {
				return
			}
			// NewPassword, and an API key with the same hash.
			var p *identity.Password
			o := w.Call(func() error { var err error; p, err = identity.NewPassword(s); return err })
			if !o.OK() || p.Purpose != "generic" || p.Algorithm != "bcrypt" || p.Cost != 10 || !p.Match(s) {
				v.Fail("NewPassword", "NewPassword(%q): %s %s", s, o, jsonOf(p))
				return
			}
			match := func(hash, t string) (pw, key bool, bad string) {
				v.Count("evaluations", 2)
				o := w.Call(func() error {
					pw, key = (&identity.Password{Algorithm: "bcrypt", Cost: 10, Hash: hash}).Match(t), (&identity.APIKey{Payload: hash}).Match(t)
					return nil
				})
				return pw, key, o.Panic
			}
			for _, t := range append([]string{p.Hash, p.Hash[:len(p.Hash)-1], p.Hash + " "}, texts...) {
				if pw, key, bad := match(p.Hash, t); bad != "" || pw != (s == t) || key != (s == t) && !blank(t) {
					v.Fail("match", "the hash of %q matches %q as password: %v, as API key: %v %s", s, t, pw, key, bad)
					return
				}
			}
			// Damaged hashes match nothing.
			for i := 0; i <= len(p.Hash); i++ {
				l := []string{p.Hash[:i], p.Hash[i:] + "x", p.Hash[:i] + " " + p.Hash[i:]}
				if i == 0 || i == len(p.Hash) {
					l = []string{"", "x", " ", s}
				}
				// The salt is the 22 characters after the cost; its last one has spare bits. The dollar before them is not looked at.
				if i >= 4 && i < len(p.Hash) && i != 6 && i != 28 {
					for _, x := range []byte{'.', 'A', '$', '1', 0, 0xff, p.Hash[i] ^ 1, p.Hash[i] ^ 0x20} {
						if x != p.Hash[i] && (i > 6 || x != '$' && (x < '0' || x > '9')) {
							l = append(l, p.Hash[:i]+string([]byte{x})+p.Hash[i+1:])
						}
					}
				}
				for _, h := range l {
					for _, t := range []string{s, "", h} {
						if pw, key, bad := match(h, t); bad != "" || pw || key {
							v.Fail("damaged", "%q as the hash of a password or API key (that of %q is %q) matches %q: %v, %v %s", h, s, p.Hash, t, pw, key, bad)
							return
						}
					}
				}
			}
		})
	}
	c.Case("password/real", func(v *V) {
		w := world()
		defer w.Close()
		w.s.realHash = true
		for i, s := range texts {
			if blank(s) {
				continue
			}
			p, o := (*identity.Password)(nil), Outcome{}
			o = w.Call(func() error {
				var err error
				p, err = identity.NewPasswordWithOptions(s, "generic", "bcrypt", map[string]interface{}{"cost": 8})
				return err
			})
			if !o.OK() {
				v.Fail("real", "%q: %s", s, o)
				return
			}
			for j, t := range texts {
				if (i+j)%3 != 0 && i != j && !c.Thorough {
					continue
				}
				v.Count("evaluations", 1)
				var got bool
				w.Call(func() error { got = p.Match(t); return nil })
				if got != (s == t) {
					v.Fail("real", "the password %q matches %q: %v", s, t, got)
					return
				}
			}
		}
	})

	// API keys.
	c.Case("api", func(v *V) {
		w := world()
		defer w.Close()
		w.s.tick = 0
		seen := map[string]bool{}
		l := []string{"", " ", "api", "x", "API", "a long text with \"quotes\" and \x00"}
		for _, usage := range append([]string{"ssh", "api "}, l...) {
			for _, payload := range l {
				for _, comment := range l {
					for _, prefix := range l {
						for _, off := range []bool{false, true} {
							r := requests.NewRequest()
							r.Key.Usage, r.Key.Payload, r.Key.Comment, r.Key.Prefix, r.Key.Disabled = usage, payload, comment, prefix, off
							var k *identity.APIKey
							o := w.Call(func() error { var err error; k, err = identity.NewAPIKey(r); return err })
							v.Count("evaluations", 1)
							want := usage == "api" && payload != "" && comment != ""
							what := fmt.Sprintf("API key with usage %q, payload %q, comment %q, prefix %q, disabled %v", usage, payload, comment, prefix, off)
							if o.Panic != "" || o.OK() != want || want == (k == nil) {
								v.Fail(what, "%s: %s; expected to be accepted: %v", what, o, want)
								return
							}
							if !want {
								continue
							}
							v.Count("distinct_nontrivial", 1)
							now := time.Unix(0, w.s.now)
							if k.Usage != usage || k.Payload != payload || k.Comment != comment || k.Prefix != prefix || k.Disabled != off || k.Expired || !k.CreatedAt.Equal(now) || off != k.DisabledAt.Equal(now) || len(k.ID) != 40 || seen[k.ID] {
								v.Fail(what, "%s: the record is %s", what, jsonOf(k))
								return
							}
							seen[k.ID] = true
						}
					}
				}
			}
		}
		// Disabling any credential marks it, once and for all.
		now := func() time.Time { return time.Unix(0, w.s.now) }
		t, err := newToken(w, "totpA")
		if err != nil {
			v.Fail("", "%v", err)
			return
		}
		p, a, pk := &identity.Password{Hash: "h"}, &identity.APIKey{ID: "i"}, &identity.PublicKey{ID: "j"}
		for i := 0; i < 3; i++ {
			w.s.now += 1e9
			o := w.Call(func() error { t.Disable(); p.Disable(); a.Disable(); pk.Disable(); return nil })
			v.Count("evaluations", 4)
			var got, want []string
			for _, x := range []struct {
				d, e   bool
				da, ea time.Time
			}{{t.Disabled, t.Expired, t.DisabledAt, t.ExpiredAt}, {p.Disabled, p.Expired, p.DisabledAt, p.ExpiredAt}, {a.Disabled, a.Expired, a.DisabledAt, a.ExpiredAt}, {pk.Disabled, pk.Expired, pk.DisabledAt, pk.ExpiredAt}} {
				got = append(got, fmt.Sprint(x.d, x.e, x.da.UTC(), x.ea.UTC()))
				want = append(want, fmt.Sprint(true, true, now().UTC(), now().UTC()))
			}
			if o.Panic != "" || strings.Join(got, "; ") != strings.Join(want, "; ") || p.Hash != "h" || a.ID != "i" || pk.ID != "j" {
				v.Fail("disable", "after Disable (%d times): %s %q, expected %q", i+1, o, got, want)
				return
			}
		}
	})
}

// nearCode tells whether a code is that of the periods around n.
func nearCode(secret, algo string, digits int, n uint64, code string) bool {
	for _, k := range []uint64{n - 1, n, n + 1} {
		if refTOTP([]byte(secret), algo, digits, k) == strings.TrimSpace(code) {
			return true
		}
	}
	return false
}
