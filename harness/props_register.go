package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C15", Level: "exploration", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule:        "every replacement of every member of a complete registration by every value of a menu (absent, null, every JSON type, boundary values), alone and in pairs, every truncation of its text, every challenge of a menu, every list of transports up to three; and the registration of 1800 keys, among them such with leading zero bytes. What is accepted must satisfy the reference predicate and authenticate. Non-trivial: registrations accepted",
		Assumptions: []string{"duplicate or differently cased JSON members and other alphabets of base64 are not explored"},
		Run:         runC15,
	})
}

type edit struct {
	path string
	name string
	val  interface{}
}

func clone(x interface{}) interface{} {
	var out interface{}
	json.Unmarshal([]byte(jsonOf(x)), &out)
	return out
}

// apply sets a member; it reports false if the parent is gone.
func (e edit) apply(doc map[string]interface{}) bool {
	parts := strings.Split(e.path, ".")
	m := doc
	for _, p := range parts[:len(parts)-1] {
		next, ok := m[p].(map[string]interface{})
		if !ok {
			return false
		}
		m = next
	}
	if e.val == absent {
		delete(m, parts[len(parts)-1])
	} else {
		m[parts[len(parts)-1]] = clone(e.val)
	}
	return true
}

func registrationEdits() []edit {
	var out []edit
	add := func(path string, vals ...interface{}) {
		for _, v := range vals {
			name := "absent"
			if v != absent {
				name = jsonOf(v)
				if len(name) > 60 {
					name = name[:60]
				}
			}
			out = append(out, edit{path, name, v})
		}
	}
	kinds := []interface{}{absent, nil, "", "text", 0, -1, 1.5, true, []interface{}{}, []interface{}{nil}, obj{}, obj{"a": 1}}
	x, y := fixtures["u2fA"]["x"], fixtures["u2fA"]["y"]
	xb, yb := fixtures["u2fB"]["x"], fixtures["u2fB"]["y"]
	raw, _ := base64.StdEncoding.DecodeString(x)
	enc := base64.StdEncoding.EncodeToString
	flip := append([]byte{}, raw...)
	flip[31] ^= 1
	add("id", kinds...)
	add("id", "i", "an id with spaces ", "ключ", strings.Repeat("long", 200), "id-u2fA\n", "\u0000")
	add("type", kinds...)
	add("type", "public-key ", "PUBLIC-KEY", "public_key", "password")
	add("transports", kinds...)
	add("transports", []interface{}{""}, []interface{}{"usb", ""}, []interface{}{"usb", "hybrid"}, []interface{}{"USB"}, []interface{}{"usb "}, []interface{}{1}, []interface{}{"usb", nil}, "usb", []interface{}{[]interface{}{"usb"}}, []interface{}{"smart-card"}, []interface{}{"internal", "ble", "nfc", "usb", "cable"})
	add("success", kinds...)
	add("attestationObject", kinds...)
	add("attestationObject.fmt", kinds...)
	add("attestationObject.attStmt", kinds...)
	add("attestationObject.attStmt.alg", nil, "x", 1e300, 1<<40)
	add("attestationObject.attStmt.x5c", nil, "x", []interface{}{}, []interface{}{1})
	add("attestationObject.authData", kinds...)
	add("attestationObject.authData.rpIdHash", kinds...)
	add("attestationObject.authData.rpIdHash", " ", strings.Repeat("0", 64))
	add("attestationObject.authData.flags", kinds...)
	add("attestationObject.authData.flags", obj{"UP": "yes"}, obj{"UP": nil}, obj{"": true})
	add("attestationObject.authData.signatureCounter", absent, nil, 0, -1, 1<<32-1, 1<<32, 1.5, "7", true)
	add("attestationObject.authData.extensions", kinds...)
	add("attestationObject.authData.credentialData", kinds...)
	add("attestationObject.authData.credentialData.aaguid", absent, nil, 1, "")
	add("attestationObject.authData.credentialData.credentialId", absent, nil, 1, "")
	pk := "attestationObject.authData.credentialData.publicKey"
	add(pk, kinds...)
	add(pk+".key_type", kinds...)
	add(pk+".key_type", 1, 2, 2.0, 3, 4, "2", "ec2", 2.0000001, -2, []interface{}{2}, 1e300)
	add(pk+".algorithm", kinds...)
	add(pk+".algorithm", -7.0, 7, -8, -35, -36, -257, "-7", "es256", -7.5, []interface{}{-7})
	add(pk+".curve_type", kinds...)
	add(pk+".curve_type", 1, 2, 3, 6, "1", "p256", []interface{}{1})
	for i, n := range []string{".curve_x", ".curve_y"} {
		own, other := x, y
		foreign := xb
		if i == 1 {
			own, other, foreign = y, x, yb
		}
		add(pk+n, kinds...)
		add(pk+n, other, foreign, own[:len(own)-4], own+"AAAA", "!"+own[1:], own[1:], enc(make([]byte, 32)), enc(raw[:31]), enc(append([]byte{1}, raw...)), enc(flip), "////////////////////////////////////////////////////////////////"[:43]+"=", enc(nil), "AA==", strings.Repeat("A", 4000))
	}
	add("clientData", kinds...)
	add("device", kinds...)
	add("unknown", 1)
	return out
}

// refRegistration is the reference predicate on a parsed registration.
func refRegistration(d interface{}) bool {
	m := mapOf(d)
	if s, _ := m["id"].(string); s == "" {
		return false
	}
	if m["type"] != "public-key" {
		return false
	}
	switch l := m["transports"].(type) {
	case nil:
	case []interface{}:
		for _, t := range l {
			if t != "usb" && t != "nfc" && t != "ble" && t != "internal" {
				return false
			}
		}
	default:
		return false
	}
	a := mapOf(mapOf(m["attestationObject"])["authData"])
	if s, _ := a["rpIdHash"].(string); s == "" {
		return false
	}
	if _, ok := a["flags"].(map[string]interface{}); !ok {
		return false
	}
	k := mapOf(mapOf(a["credentialData"])["publicKey"])
	if k["key_type"] != 2.0 || k["algorithm"] != -7.0 || k["curve_type"] != 1.0 {
		return false
	}
	var c [2]*big.Int
	for i, n := range []string{"curve_x", "curve_y"} {
		s, _ := k[n].(string)
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil || len(b) != 32 {
			return false
		}
		c[i] = new(big.Int).SetBytes(b)
	}
	// y^2 = x^3 - 3x + b, below p.
	p := elliptic.P256().Params()
	if c[0].Cmp(p.P) >= 0 || c[1].Cmp(p.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(c[1], c[1])
	r := new(big.Int).Exp(c[0], big.NewInt(3), p.P)
	r.Sub(r, new(big.Int).Mul(big.NewInt(3), c[0])).Add(r, p.B)
	return l.Sub(l, r).Mod(l, p.P).Sign() == 0
}

// registrar registers keys of alice.
type registrar struct {
	w *World
	n int
}

func (g *registrar) add(text, challenge, comment string) Outcome {
	r := requests.NewRequest()
	r.User.Username, r.User.Email = "alice", "alice@"+dom
	r.MfaToken.Type, r.MfaToken.Comment = "u2f", comment
	r.WebAuthn.Register, r.WebAuthn.Challenge = text, challenge
	return g.w.Call(func() error { return g.w.db.AddMfaToken(r) })
}

func (g *registrar) drop(comment string) Outcome {
	t := g.w.mfaToken("alice", comment)
	if t == nil {
		return Outcome{Err: fmt.Errorf("the token is not listed")}
	}
	r := requests.NewRequest()
	r.User.Username, r.User.Email = "alice", "alice@"+dom
	r.MfaToken.ID = t.ID
	return g.w.Call(func() error { return g.w.db.DeleteMfaToken(r) })
}

// login authenticates alice with a key.
func (g *registrar) login(id string, key *ecdsa.PrivateKey) Outcome {
	client, auth := genuineClient("login-challenge"), genuineAuthData()
	h := sha256.Sum256([]byte(client))
	d := sha256.Sum256(append(append([]byte{}, auth...), h[:]...))
	sig, err := key.Sign(nil, d[:], crypto.SHA256)
	if err != nil {
		fatalf("sign: %v", err)
	}
	text := b64s(jsonOf(obj{"id": id, "type": "public-key", "auth_data_encoded": b64s(string(auth)), "client_data_encoded": b64s(client), "signature_encoded": b64s(string(sig))}))
	r := requests.NewRequest()
	r.User.Username = "alice"
	r.WebAuthn.Request, r.WebAuthn.Challenge = text, "login-challenge"
	return g.w.Call(func() error { return g.w.db.AuthenticateUser(r) })
}

// try registers a text and judges the outcome.
func (g *registrar) try(v *V, what, text, challenge string, doc interface{}, must, reopen bool) bool {
	w := g.w
	may := doc != nil && challenge != "" && refRegistration(doc)
	g.n++
	comment := fmt.Sprintf("key %d", g.n)
	o := g.add(text, challenge, comment)
	v.Count("evaluations", 1)
	fail := func(f string, a ...interface{}) bool {
		v.Fail(what, "registration with challenge %q, %s:\n%s\n%s", challenge, what, fmt.Sprintf(f, a...), tail([]byte(text), 3000))
		return false
	}
	switch {
	case o.Panic != "":
		return fail("%s", o)
	case o.OK() && !may:
		return fail("accepted, though it is not a complete, supported registration")
	case !o.OK() && must:
		return fail("expected to be accepted: %s", o)
	case !o.OK():
		return true
	}
	v.Count("distinct_nontrivial", 1)
	m := mapOf(doc)
	a := mapOf(mapOf(m["attestationObject"])["authData"])
	k := mapOf(mapOf(a["credentialData"])["publicKey"])
	f := fixtures["u2fA"]
	id, _ := m["id"].(string)
	for round := 0; round < 2; round++ {
		if round == 1 {
			if !reopen {
				break
			}
			if o := w.Open(); !o.OK() {
				return fail("reopening: %s", o)
			}
		}
		if a["rpIdHash"] == rpHash() && k["curve_x"] == f["x"] && k["curve_y"] == f["y"] {
			v.Count("evaluations", 1)
			if o := g.login(id, privKey("u2fA")); !o.OK() {
				return fail("accepted, but the key does not authenticate (reopened: %v): %s", round == 1, o)
			}
		}
	}
	if o := g.drop(comment); !o.OK() {
		return fail("deleting the key again: %s", o)
	}
	return true
}

func runC15(c *Ctx) {
	edits := registrationEdits()
	start := func(v *V) *registrar {
		r, bad := c.newRun(nil, []Op{uAlice, uBob}, nil)
		if bad != "" {
			v.Fail("", "%s", bad)
			r.w.Close()
			return nil
		}
		return &registrar{w: r.w}
	}
	base := func() map[string]interface{} { return clone(registerDoc("u2fA")).(map[string]interface{}) }
	c.Case("genuine", func(v *V) {
		g := start(v)
		if g == nil {
			return
		}
		defer g.w.Close()
		all := []string{"usb", "nfc", "ble", "internal"}
		lists := [][]interface{}{{}}
		for _, a := range all {
			lists = append(lists, []interface{}{a})
			for _, b := range all {
				if a == b {
					continue
				}
				lists = append(lists, []interface{}{a, b})
				for _, d := range all {
					if d != a && d != b {
						lists = append(lists, []interface{}{a, b, d})
					}
				}
			}
		}
		lists = append(lists, []interface{}{"usb", "nfc", "ble", "internal"})
		for _, l := range lists {
			d := base()
			d["transports"] = l
			if !g.try(v, fmt.Sprintf("transports %v", l), b64s(jsonOf(d)), "c", d, true, true) {
				return
			}
		}
		for _, ch := range []string{"c", " ", "challenge", strings.Repeat("x", 5000), "вызов"} {
			if !g.try(v, "genuine", b64s(jsonOf(base())), ch, base(), true, true) {
				return
			}
		}
		for _, id := range []string{"i", "ключ", "a b", strings.Repeat("z", 1000)} {
			d := base()
			d["id"] = id
			if !g.try(v, "id "+id, b64s(jsonOf(d)), "c", d, true, true) {
				return
			}
		}
		g.try(v, "genuine", b64s(jsonOf(base())), "", base(), false, false)
		v.Sample(base())
	})
	c.Case("text", func(v *V) {
		g := start(v)
		if g == nil {
			return
		}
		defer g.w.Close()
		text := jsonOf(base())
		for i := 0; i < len(text); i++ {
			if c.Expired() || !g.try(v, fmt.Sprintf("JSON cut after %d bytes", i), b64s(text[:i]), "c", nil, false, false) {
				return
			}
		}
		b := b64s(text)
		for i := 0; i < len(b); i++ {
			if i%4 != 0 || i == 0 {
				if !g.try(v, fmt.Sprintf("base64 cut after %d bytes", i), b[:i], "c", nil, false, false) {
					return
				}
			}
			if !g.try(v, fmt.Sprintf("base64 garbage at %d", i), b[:i]+"!"+b[i+1:], "c", nil, false, false) {
				return
			}
		}
		for _, s := range []string{"", text, b64s(b), b64s("null"), b64s("[]"), b64s("{}"), b64s("1"), b64s("true"), b64s(`""`), b64s("[" + text + "]"), b64s(text + text), b64s(strings.Repeat("[", 30000)), b64s(strings.Repeat(`{"a":`, 20000)), b64s("\xff\xfe"), b64s(" "), "====", "\x00"} {
			for _, ch := range []string{"c", ""} {
				if !g.try(v, fmt.Sprintf("text %.40q", s), s, ch, nil, false, false) {
					return
				}
			}
		}
	})
	for i, e := range edits {
		c.Case(fmt.Sprintf("edit/%d", i), func(v *V) {
			g := start(v)
			if g == nil {
				return
			}
			defer g.w.Close()
			d := base()
			if !e.apply(d) {
				return
			}
			what := e.path + " = " + e.name
			for _, ch := range []string{"c", ""} {
				if !g.try(v, what, b64s(jsonOf(d)), ch, d, false, true) {
					return
				}
			}
			for j := range edits {
				f := edits[j]
				if f.path == e.path || j < i && !strings.HasPrefix(f.path, e.path+".") && !strings.HasPrefix(e.path, f.path+".") {
					continue
				}
				d := base()
				if !e.apply(d) || !f.apply(d) {
					continue
				}
				if c.Expired() || !g.try(v, what+", "+f.path+" = "+f.name, b64s(jsonOf(d)), "c", d, false, c.Thorough) {
					return
				}
				if !c.Thorough {
					continue
				}
				for k := j + 1; k < len(edits); k++ {
					h := edits[k]
					if h.path == e.path || h.path == f.path || (j+k)%7 != 0 && !strings.Contains(h.path, "publicKey") {
						continue
					}
					d := base()
					if !e.apply(d) || !f.apply(d) || !h.apply(d) {
						continue
					}
					if c.Expired() || !g.try(v, what+", "+f.path+" = "+f.name+", "+h.path+" = "+h.name, b64s(jsonOf(d)), "c", d, false, false) {
						return
					}
				}
			}
		})
	}
	// Keys d*G, among them coordinates with leading zero bytes.
	n := elliptic.P256().Params().N
	count := 1800
	if c.Thorough {
		count = 9000
	}
	for from := 0; from < count; from += 30 {
		c.Case(fmt.Sprintf("keys/%d", from), func(v *V) {
			g := start(v)
			if g == nil {
				return
			}
			defer g.w.Close()
			for i := from; i < from+30; i++ {
				d := big.NewInt(int64(i + 1))
				if i%2 == 1 {
					d = new(big.Int).Sub(n, d)
				}
				key := &ecdsa.PrivateKey{D: d}
				key.Curve = elliptic.P256()
				key.X, key.Y = key.Curve.ScalarBaseMult(d.Bytes())
				xb, yb := make([]byte, 32), make([]byte, 32)
				key.X.FillBytes(xb)
				key.Y.FillBytes(yb)
				if xb[0] == 0 || yb[0] == 0 {
					v.Count("leading_zero_keys", 1)
				}
				doc := base()
				pk := mapOf(mapOf(mapOf(mapOf(doc["attestationObject"])["authData"])["credentialData"])["publicKey"])
				pk["curve_x"], pk["curve_y"] = base64.StdEncoding.EncodeToString(xb), base64.StdEncoding.EncodeToString(yb)
				id := fmt.Sprintf("key-%d", i)
				doc["id"] = id
				o := g.add(b64s(jsonOf(doc)), "challenge "+id, id)
				v.Count("evaluations", 1)
				v.Count("distinct_nontrivial", 1)
				if !o.OK() {
					v.Fail(id, "the key %v of P-256 (x %x, y %x) is not accepted: %s", d, xb, yb, o)
					return
				}
				for round := 0; round < 2; round++ {
					if o := g.login(id, key); !o.OK() {
						v.Fail(id, "the key %v of P-256 (x %x, y %x) does not authenticate (reopened: %v): %s", d, xb, yb, round == 1, o)
						return
					}
					if round == 0 && i%5 == 0 {
						if o := g.w.Open(); !o.OK() {
							v.Fail(id, "reopening: %s", o)
							return
						}
					}
				}
			}
		})
	}
}
