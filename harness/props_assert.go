package main

import (
	"crypto"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/greenpau/go-identity/pkg/requests"
)

// A WebAuthn request, taken apart. The zero value of every deviation is the
// genuine request of a key.
type wreq struct {
	login  string
	issued string

	id        interface{} // nil: absent
	ctype     interface{}
	challenge interface{}
	cross     interface{}
	client    func(doc obj) string // other rendering of the client data
	auth      []byte

	signer   string
	oldAuth  bool // the signature is one over the genuine authenticator data
	oldCli   bool
	noHash   bool // over the client data and not their hash
	mutate   func(sig []byte) []byte
	edit     func(doc obj)
	wrap     func(text string) string
	bad      bool // malformed whatever the rest is
	key      string
	genuineC string
}

type deviation struct {
	dim, name string
	apply     func(w *wreq)
}

func detSign(key string, msg []byte) []byte {
	d := sha256.Sum256(msg)
	sig, err := privKey(key).Sign(nil, d[:], crypto.SHA256)
	if err != nil {
		fatalf("sign: %v", err)
	}
	return sig
}

func (w *wreq) clientText() string {
	doc := obj{"origin": "https://localhost"}
	set := func(k string, v interface{}) {
		if v != absent {
			doc[k] = v
		}
	}
	set("type", w.ctype)
	set("challenge", w.challenge)
	set("crossOrigin", w.cross)
	if w.client != nil {
		return w.client(doc)
	}
	return jsonOf(doc)
}

type absentType struct{}

var absent = absentType{}

var detCache = map[string][]byte{}

// build renders the request.
func (w *wreq) build() string {
	client := w.clientText()
	auth, cli := w.auth, client
	if w.oldAuth {
		auth = genuineAuthData()
	}
	if w.oldCli {
		cli = w.genuineC
	}
	h := sha256.Sum256([]byte(cli))
	tail := h[:]
	if w.noHash {
		tail = []byte(cli)
	}
	k := w.signer + "|" + string(auth) + "|" + string(tail)
	sig := detCache[k]
	if sig == nil {
		sig = detSign(w.signer, append(append([]byte{}, auth...), tail...))
		if len(detCache) > 20000 {
			detCache = map[string][]byte{}
		}
		detCache[k] = sig
	}
	if w.mutate != nil {
		sig = w.mutate(append([]byte{}, sig...))
	}
	b64 := base64.StdEncoding.EncodeToString
	doc := obj{"type": "public-key", "auth_data_encoded": b64(w.auth), "client_data_encoded": b64([]byte(client)), "signature_encoded": b64(sig)}
	if w.id != absent {
		doc["id"] = w.id
	}
	if w.edit != nil {
		w.edit(doc)
	}
	text := b64([]byte(jsonOf(doc)))
	if w.wrap != nil {
		text = w.wrap(text)
	}
	return text
}

// valid is the reference: keys are the enabled security keys of each login.
func (w *wreq) valid(keys map[string][]string) bool {
	if w.bad {
		return false
	}
	id, _ := w.id.(string)
	key := ""
	for _, k := range keys[w.login] {
		if sp := mfaSpecs[k]; sp.id() == id {
			key = sp.Key
		}
	}
	cross := w.cross == absent || w.cross == false || w.cross == nil
	h := sha256.Sum256([]byte(rpID))
	return key != "" && w.ctype == "webauthn.get" && w.challenge == w.issued && cross && w.issued != "" &&
		len(w.auth) >= 37 && string(w.auth[:32]) == string(h[:]) && w.auth[32]&1 == 1 &&
		w.signer == key && (!w.oldAuth || string(w.auth) == string(genuineAuthData())) && (!w.oldCli || w.clientText() == w.genuineC) && !w.noHash
}

func genuine(login, key string) *wreq {
	w := &wreq{login: login, issued: "login-challenge", id: "id-" + key, ctype: "webauthn.get", challenge: "login-challenge", cross: false, auth: genuineAuthData(), signer: key, key: key}
	w.genuineC = w.clientText()
	return w
}

// challengeTexts are texts that are the same to a lenient reader: with other
// padding, alphabets, white space, case, escapes or encodings.
func challengeTexts() []string {
	l := []string{"bG9n", "bG9n=", "bG9n==", "=bG9n", "bG9", "bG9nbG9n", "bg9n", "BG9N", " bG9n", "bG9n\t", "bG9n\n", "bG 9n", "bG9n\x00", "bG9n\x00x", "\ufeffbG9n", "bG9n%3D", "bG9n.", "\"bG9n\"", "log", "6c6f67", "",
		"-_-_", "+/+/", "%2B%2F+/", "+ + ", "é", "e\u0301", "É", "\u212a", "K", "k", "0", "00", "0.0", "+0", "null"}
	long := strings.Repeat("abcd", 16)
	return append(l, long, long+"e", "x"+long[1:], long[:63]+"x", long[:31]+"x"+long[32:])
}

// deviations is the menu; full adds what is tried alone only.
func deviations(full bool) []deviation {
	var out []deviation
	add := func(dim, name string, f func(w *wreq)) { out = append(out, deviation{dim, name, f}) }
	for _, id := range []interface{}{absent, "", nil, 5, "id-u2fA", "id-u2fB", "id-u2fC", "id-u2f", "id-u2fA ", "ID-u2fA", "id-u2fA\x00", []interface{}{"id-u2fA"}} {
		add("id", fmt.Sprint(id), func(w *wreq) { w.id = id })
	}
	for _, t := range []interface{}{absent, "", nil, "webauthn.create", "WEBAUTHN.GET", " webauthn.get", "webauthn.get ", "webauthn.getx", "get", 1, true, []interface{}{"webauthn.get"}} {
		add("type", fmt.Sprint(t), func(w *wreq) { w.ctype = t })
	}
	for _, x := range []interface{}{absent, "", nil, "other-challenge", "login-challeng", "login-challengee", "LOGIN-CHALLENGE", " login-challenge", "login-challenge ", "login-challenge\x00", 1, base64.RawURLEncoding.EncodeToString([]byte("other"))} {
		add("challenge", fmt.Sprint(x), func(w *wreq) { w.challenge = x })
	}
	for _, x := range []string{"", "other-challenge", "login-challeng", "login-challenge ", "Login-challenge"} {
		add("issued", x, func(w *wreq) { w.issued = x })
	}
	if full {
		// Every text of a menu issued, every text of it signed.
		l := challengeTexts()
		for i, a := range l {
			for j, b := range l {
				if i != j {
					add("challenges", fmt.Sprintf("%q for %q", b, a), func(w *wreq) { w.issued, w.challenge = a, b })
				}
			}
			if a != "" {
				add("challenges", fmt.Sprintf("%q itself", a), func(w *wreq) { w.issued, w.challenge = a, a })
			}
		}
	}
	for _, x := range []interface{}{absent, nil, true, "false", "true", 0, 1} {
		add("cross", fmt.Sprintf("%T %v", x, x), func(w *wreq) {
			w.cross = x
			switch x.(type) {
			case string, int:
				w.bad = true
			}
		})
	}
	for i, f := range []func(doc obj) string{
		func(doc obj) string { doc["tokenBinding"] = obj{"status": "supported"}; return jsonOf(doc) },
		func(doc obj) string { b, _ := json.MarshalIndent(doc, " ", "\t"); return "\n" + string(b) + "\n" },
		func(doc obj) string { return jsonOf(doc) + "x" },
		func(doc obj) string { return "[" + jsonOf(doc) + "]" },
		func(doc obj) string { return "null" },
		func(doc obj) string { return "" },
		func(doc obj) string { return "{}" },
		func(doc obj) string { s := jsonOf(doc); return s[:len(s)-1] },
		func(doc obj) string { return jsonOf(jsonOf(doc)) },
		func(doc obj) string { return jsonOf(obj{"clientData": doc}) },
	} {
		add("client", itoa(i), func(w *wreq) { w.client = f; w.bad = w.bad || i >= 2 })
	}
	auth := func(name string, f func(b []byte) []byte) {
		add("auth", name, func(w *wreq) { w.auth = f(genuineAuthData()) })
	}
	auth("other rp", func(b []byte) []byte { h := sha256.Sum256([]byte("localhost.example.com")); copy(b, h[:]); return b })
	auth("flags 00", func(b []byte) []byte { b[32] = 0; return b })
	auth("flags fe", func(b []byte) []byte { b[32] = 0xfe; return b })
	auth("flags 04", func(b []byte) []byte { b[32] = 4; return b })
	auth("flags 05", func(b []byte) []byte { b[32] = 5; return b })
	auth("flags ff", func(b []byte) []byte { b[32] = 0x3f; return b })
	auth("counter 0", func(b []byte) []byte { copy(b[33:], "\x00\x00\x00\x00"); return b })
	auth("counter max", func(b []byte) []byte { copy(b[33:], "\xff\xff\xff\xff"); return b })
	auth("extensions", func(b []byte) []byte { b[32] = 0x81; return append(b, 0xa0) })
	auth("empty", func(b []byte) []byte { return nil })
	auth("36 bytes", func(b []byte) []byte { return b[:36] })
	auth("shifted", func(b []byte) []byte { return append([]byte{0}, b...) })
	auth("zero rp", func(b []byte) []byte { copy(b, make([]byte, 32)); return b })
	for _, k := range []string{"u2fA", "u2fB", "u2fC"} {
		add("signer", k, func(w *wreq) { w.signer = k })
	}
	add("signer", "old auth", func(w *wreq) { w.oldAuth = true })
	add("signer", "old client", func(w *wreq) { w.oldCli = true })
	add("signer", "unhashed", func(w *wreq) { w.noHash = true })
	mut := func(name string, f func(s []byte) []byte) {
		add("sig", name, func(w *wreq) { w.mutate = f; w.bad = true })
	}
	mut("empty", func(s []byte) []byte { return nil })
	mut("zero", func(s []byte) []byte { return make([]byte, len(s)) })
	mut("cut", func(s []byte) []byte { return s[:len(s)-1] })
	mut("longer", func(s []byte) []byte { return append(s, 0) })
	mut("half", func(s []byte) []byte { return s[:len(s)/2] })
	mut("flip", func(s []byte) []byte { s[len(s)-1] ^= 1; return s })
	mut("r=s=0", func(s []byte) []byte { return []byte{0x30, 6, 2, 1, 0, 2, 1, 0} })
	mut("r=s=1", func(s []byte) []byte { return []byte{0x30, 6, 2, 1, 1, 2, 1, 1} })
	mut("r=s=n", func(s []byte) []byte {
		n, _ := new(big.Int).SetString("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16)
		b := append([]byte{2, 33, 0}, n.Bytes()...)
		return append(append([]byte{0x30, 70}, b...), b...)
	})
	enc := func(name string, f func(doc obj)) {
		add("edit", name, func(w *wreq) { w.edit = f; w.bad = true })
	}
	for _, f := range []string{"auth_data_encoded", "client_data_encoded", "signature_encoded"} {
		enc("no "+f, func(doc obj) { delete(doc, f) })
		enc("empty "+f, func(doc obj) { doc[f] = "" })
		enc("blank "+f, func(doc obj) { doc[f] = "   " })
		enc("null "+f, func(doc obj) { doc[f] = nil })
		enc("number "+f, func(doc obj) { doc[f] = 7 })
		enc("object "+f, func(doc obj) { doc[f] = obj{"a": 1} })
		enc("garbage "+f, func(doc obj) { doc[f] = "!" + doc[f].(string) })
		enc("cut "+f, func(doc obj) { s := doc[f].(string); doc[f] = s[:max(0, len(s)-5)] })
		enc("short "+f, func(doc obj) { doc[f] = "QQ==" })
		enc("swapped "+f, func(doc obj) {
			for _, g := range []string{"signature_encoded", "client_data_encoded", "auth_data_encoded"} {
				if g != f {
					doc[f] = doc[g]
				}
			}
		})
	}
	// Members that are not the encoded data have no say.
	add("forged", "client_data", func(w *wreq) {
		old := w.edit
		w.edit = func(doc obj) {
			if old != nil {
				old(doc)
			}
			doc["client_data"] = obj{"type": "webauthn.get", "challenge": w.issued, "crossOrigin": false}
		}
	})
	add("forged", "auth_data", func(w *wreq) {
		old := w.edit
		w.edit = func(doc obj) {
			if old != nil {
				old(doc)
			}
			doc["auth_data"] = obj{"rpIdHash": rpHash(), "flags": obj{"UP": true}}
		}
	})
	wrap := func(name string, f func(s string) string) {
		add("wrap", name, func(w *wreq) { w.wrap = f; w.bad = true })
	}
	wrap("null", func(s string) string { return b64s("null") })
	wrap("list", func(s string) string { return b64s("[]") })
	wrap("object", func(s string) string { return b64s("{}") })
	wrap("text", func(s string) string { return b64s(`"x"`) })
	wrap("plain", func(s string) string { b, _ := base64.StdEncoding.DecodeString(s); return string(b) })
	wrap("twice", func(s string) string { return b64s(s) })
	wrap("junk", func(s string) string { return "!!!" })
	wrap("prefixed", func(s string) string { return "%" + s })
	wrap("deep", func(s string) string { return b64s(strings.Repeat("[", 20000)) })
	wrap("invalid utf8", func(s string) string { return b64s("{\"id\":\"\xff\xfe\"}") })
	if !full {
		return out
	}
	near := func(dim, base string, f func(w *wreq, t string)) {
		for _, t := range distinct(edits(base), decorations(base)) {
			if dim != "issued near" && !utf8.ValidString(t) {
				continue // no JSON document holds it
			}
			add(dim, fmt.Sprintf("%q", t), func(w *wreq) { f(w, t) })
		}
	}
	near("id near", "id-u2fA", func(w *wreq, t string) { w.id = t })
	near("type near", "webauthn.get", func(w *wreq, t string) { w.ctype = t })
	near("challenge near", "login-challenge", func(w *wreq, t string) { w.challenge = t })
	near("issued near", "login-challenge", func(w *wreq, t string) { w.issued = t })
	for i := 0; i < 32; i++ {
		for _, bit := range []byte{1, 0x80} {
			auth(fmt.Sprintf("rp byte %d ^ %x", i, bit), func(b []byte) []byte { b[i] ^= bit; return b })
		}
	}
	for i := 0; i < 256; i++ {
		if i&0xc0 != 0 {
			continue // announces more data
		}
		auth(fmt.Sprintf("flags %02x", i), func(b []byte) []byte { b[32] = byte(i); return b })
	}
	for i := 1; i < 37; i++ {
		auth(fmt.Sprintf("%d bytes only", i), func(b []byte) []byte { return b[:i] })
	}
	for i := 0; i < 70; i++ {
		for bit := 0; bit < 8; bit++ {
			mut(fmt.Sprintf("byte %d bit %d", i, bit), func(s []byte) []byte { s[i%len(s)] ^= 1 << bit; return s })
		}
		mut(fmt.Sprintf("%d bytes", i), func(s []byte) []byte { return s[:i%len(s)] })
	}
	for i := 1; i < 400; i++ {
		wrap(fmt.Sprintf("cut %d", i), func(s string) string { return s[:max(0, len(s)-i)] })
		wrap(fmt.Sprintf("json cut %d", i), func(s string) string {
			b, _ := base64.StdEncoding.DecodeString(s)
			return base64.StdEncoding.EncodeToString(b[:max(0, len(b)-i)])
		})
	}
	for _, n := range []int{1, 5, 20, 100} {
		for i := 0; i < n; i++ {
			add("client", fmt.Sprintf("altered after signing %d/%d", i, n), func(w *wreq) {
				w.edit = func(doc obj) {
					b, _ := base64.StdEncoding.DecodeString(doc["client_data_encoded"].(string))
					b[(i*len(b)/n)%len(b)] ^= 0x20
					doc["client_data_encoded"] = base64.StdEncoding.EncodeToString(b)
				}
				w.bad = true
			})
		}
	}
	return out
}

func b64s(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func init() {
	register(&Property{
		ID: "C14", Level: "exploration", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule:        "in every state of a menu of key histories (own, two, disabled, deleted, added again, another user's, marked in the file), live and reopened, for every login and key: every deviation of every part of a request alone (including every bit of the signature, every truncation, every flag byte) and every pair of deviations of different parts; the reference is the conjunction of what the statement lists. Non-trivial: requests accepted, and requests that deviate in one part only",
		Assumptions: []string{"re-encodings of the same signature (negated s), duplicate or differently cased JSON members and line breaks inside base64 are not explored"},
		Run:         runC14,
	})
}

type keyState struct {
	name string
	ops  []Op
	keys map[string][]string // enabled keys by login
	mark func(doc map[string]interface{})
}

func keyStates() []keyState {
	a := func(p string) Op { return on("alice", Op{K: "addmfa", Payload: p, Comment: p}) }
	b := func(p string) Op { return on("bob", Op{K: "addmfa", Payload: p, Comment: p}) }
	off := func(op Op) Op { op.Disabled = true; return op }
	del := func(ref int) Op { return on("alice", Op{K: "delmfa", Ref: ref}) }
	own := func(alice, bob []string) map[string][]string {
		return map[string][]string{"alice": alice, "ALICE@Example.com": alice, "bob": bob}
	}
	token := func(doc map[string]interface{}, i int) map[string]interface{} {
		return mapOf(listOf(mapOf(listOf(doc["users"])[0])["mfa_tokens"])[i])
	}
	return []keyState{
		{"one each", []Op{a("u2fA"), b("u2fB")}, own([]string{"u2fA"}, []string{"u2fB"}), nil},
		{"two", []Op{a("u2fA"), a("u2fB"), b("u2fC")}, own([]string{"u2fA", "u2fB"}, []string{"u2fC"}), nil},
		{"disabled", []Op{off(a("u2fA")), b("u2fB")}, own(nil, []string{"u2fB"}), nil},
		{"disabled first", []Op{off(a("u2fA")), a("u2fB"), b("u2fA")}, own([]string{"u2fB"}, []string{"u2fA"}), nil},
		{"deleted", []Op{a("u2fA"), b("u2fB"), del(0)}, own(nil, []string{"u2fB"}), nil},
		{"deleted one", []Op{a("u2fA"), a("u2fB"), b("u2fC"), del(0)}, own([]string{"u2fB"}, []string{"u2fC"}), nil},
		{"again", []Op{a("u2fA"), b("u2fB"), del(0), a("u2fA")}, own([]string{"u2fA"}, []string{"u2fB"}), nil},
		{"after app", []Op{a("totpA"), a("u2fA"), b("totpB")}, own([]string{"u2fA"}, nil), nil},
		{"foreign", []Op{b("u2fA")}, own(nil, []string{"u2fA"}), nil},
		{"none", nil, own(nil, nil), nil},
		// Keys of other coordinates under the same ID.
		{"twins", []Op{a("u2fA"), b("u2fTwin")}, own([]string{"u2fA"}, []string{"u2fTwin"}), nil},
		{"disabled twin", []Op{off(a("u2fTwin")), a("u2fA"), b("u2fC")}, own([]string{"u2fA"}, []string{"u2fC"}), nil},
		{"deleted twin", []Op{a("u2fTwin"), b("u2fC"), del(0), a("u2fA")}, own([]string{"u2fA"}, []string{"u2fC"}), nil},
		{"marked", []Op{a("u2fA"), a("u2fB"), b("u2fC")}, own([]string{"u2fB"}, []string{"u2fC"}), func(doc map[string]interface{}) { token(doc, 0)["disabled"] = true }},
		{"retyped", []Op{a("u2fA"), a("u2fB"), b("u2fC")}, own([]string{"u2fB"}, []string{"u2fC"}), func(doc map[string]interface{}) { token(doc, 0)["type"] = "totp" }},
	}
}

func runC14(c *Ctx) {
	single, pairs := deviations(true), deviations(false)
	logins := []string{"alice", "ALICE@Example.com", "bob", "nobody", "nobody@example.com", ""}
	for _, st := range keyStates() {
		for round := 0; round < 2; round++ {
			if st.mark != nil && round == 0 {
				continue
			}
			world := func(v *V) *World {
				r, bad := c.newRun(nil, append([]Op{uAlice, uBob}, st.ops...), nil)
				if bad != "" {
					v.Fail("", "%s: %s", st.name, bad)
					r.w.Close()
					return nil
				}
				if st.mark != nil {
					r.w.editFile(st.mark)
				}
				if round == 1 {
					if o := r.w.Open(); !o.OK() {
						v.Fail("", "%s: reopening: %s", st.name, o)
						r.w.Close()
						return nil
					}
				}
				return r.w
			}
			try := func(v *V, w *World, q *wreq, what string, one bool) bool {
				text := q.build()
				want := q.valid(st.keys)
				req := requests.NewRequest()
				req.User.Username = q.login
				req.WebAuthn.Request, req.WebAuthn.Challenge = text, q.issued
				o := w.Call(func() error { return w.db.AuthenticateUser(req) })
				v.Count("evaluations", 1)
				if want || one {
					v.Count("distinct_nontrivial", 1)
				}
				code := 400
				if want {
					code = 200
				}
				if o.Panic != "" || o.OK() != want || req.Response.Code != code {
					v.Fail(what, "keys: %s (reopened: %v), request for %q signed by %s, deviations: %s\nexpected to be accepted: %v; got %s with code %d\nissued challenge %q, request %s",
						st.name, round == 1, q.login, q.signer, what, want, o, req.Response.Code, q.issued, text)
					return false
				}
				return true
			}
			name := fmt.Sprintf("%s/%d", st.name, round)
			c.Case(name+"/single", func(v *V) {
				w := world(v)
				if w == nil {
					return
				}
				defer w.Close()
				for _, login := range logins {
					for _, key := range []string{"u2fA", "u2fB", "u2fC"} {
						if c.Expired() || !try(v, w, genuine(login, key), "none "+login+" "+key, true) {
							return
						}
						if login != "alice" && login != "bob" {
							continue
						}
						for _, d := range single {
							if strings.HasSuffix(d.dim, " near") && !c.Thorough && (login != "alice" || key != "u2fA" || st.name != "one each" && st.name != "two") {
								continue
							}
							q := genuine(login, key)
							d.apply(q)
							if !try(v, w, q, login+" "+key+" "+d.dim+": "+d.name, true) {
								return
							}
						}
					}
				}
				if v.WantSample() {
					q := genuine("alice", "u2fA")
					v.Sample(map[string]interface{}{"keys": st.name, "deviations": len(single), "request": q.build(), "accepted": q.valid(st.keys)})
				}
			})
			if round == 0 && st.mark == nil && !c.Thorough && st.name != "one each" && st.name != "two" {
				continue
			}
			for i, d := range pairs {
				c.Case(fmt.Sprintf("%s/pair/%d", name, i), func(v *V) {
					w := world(v)
					if w == nil {
						return
					}
					defer w.Close()
					for j := 0; j < len(pairs); j++ {
						e := pairs[j]
						if e.dim == d.dim || j < i && !(d.dim == "forged" || e.dim == "forged") {
							continue
						}
						if c.Expired() {
							return
						}
						for _, key := range []string{"u2fA", "u2fB"} {
							q := genuine("alice", key)
							d.apply(q)
							if e.dim == "edit" && d.dim == "forged" {
								continue
							}
							e.apply(q)
							if !try(v, w, q, key+" "+d.dim+": "+d.name+" + "+e.dim+": "+e.name, false) {
								return
							}
						}
					}
				})
			}
		}
	}
}
