package main

import (
	"encoding/base64"
	"encoding/hex"
	stderrors "errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

func init() {
	register(&Property{
		ID: "C38", Level: "fault_enumeration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "the text of every error, at every level of wrapping, and all output of: every operation of the menus of accepted and of refused operations; every saving operation with every failure of every system call (two failures for thorough); every operation with each of its own fields set to secrets of every shape; opening a genuine file with each value replaced by each of a menu, with all records of a kind disabled or expired, cut at every byte, and with every failing system call, and all operations on what could be opened; and the constructors and methods of records with secrets of every shape. The texts are searched for all secrets in use",
		Assumptions: []string{"a secret is looked for as text, in either case, reversed, in base64 and in hexadecimal, and in Go syntax", "results are not errors: GetUser gives the whole record"},
		Run:         runC38,
	})
}

// ears collects what the code under test says.
type ears struct {
	c      *Ctx
	v      *V
	w      *World
	secret map[string]string // text to kind
}

func newEars(c *Ctx, v *V, w *World) *ears {
	e := &ears{c: c, v: v, w: w, secret: map[string]string{}}
	for _, p := range []string{pwA, pwB, pwC} {
		e.know("the password", p)
	}
	for _, s := range []string{"totpA", "totpB", "totpC", "totpBad", "totpAlgo", "u2fA", "u2fB", "u2fC"} {
		sp := mfaSpecs[s]
		e.know("the secret of a token", sp.Secret)
	}
	return e
}

// know adds a secret. Texts of less than 5 bytes are found by chance.
func (e *ears) know(kind, s string) {
	t := strings.TrimSpace(s)
	if len(t) >= 5 {
		e.secret[s] = kind
	}
	if len(t) >= 16 && strings.HasPrefix(kind, "what was given as ") {
		e.secret[t[len(t)-8:]] = "the end of " + kind
		// The beginning of an API key is its prefix, and no secret.
		if !strings.Contains(kind, "Key.Payload") && !strings.Contains(kind, "a secret") {
			e.secret[t[:8]] = "the beginning of " + kind
		}
	}
}

// knowFile adds the hashes and token secrets of the database.
func (e *ears) knowState() {
	if e.w.db == nil {
		return
	}
	for _, u := range e.w.db.Users {
		if u == nil {
			continue
		}
		for _, p := range u.Passwords {
			if p != nil && bcryptForm.MatchString(p.Hash) {
				e.know("the hash of a password", p.Hash)
				e.know("a part of the hash of a password", p.Hash[29:])
			}
		}
		for _, k := range u.APIKeys {
			if k != nil && bcryptForm.MatchString(k.Payload) {
				e.know("the hash of an API key", k.Payload)
				e.know("a part of the hash of an API key", k.Payload[29:])
			}
		}
		for _, k := range u.MfaTokens {
			if k != nil && k.Type == "totp" {
				e.know("the secret of a token", k.Secret)
			}
		}
	}
	for _, s := range e.w.secrets {
		if len(s) > 48 {
			e.know("an API key", s)
			e.know("a part of an API key", s[24:48])
			e.know("a part of an API key", s[len(s)-20:])
		}
	}
}

// found tells which secret is in a text.
func (e *ears) found(text string) string {
	if text == "" {
		return ""
	}
	lower := strings.ToLower(text)
	for s, kind := range e.secret {
		t := strings.TrimSpace(s)
		q := fmt.Sprintf("%q", t)
		q = q[1 : len(q)-1]
		for _, f := range []string{t, q, reverse(t), base64.RawStdEncoding.EncodeToString([]byte(t)), base64.RawURLEncoding.EncodeToString([]byte(t)), hex.EncodeToString([]byte(t)), fmt.Sprint([]byte(t))} {
			if strings.Contains(text, f) || strings.Contains(lower, strings.ToLower(f)) {
				return fmt.Sprintf("%s %.80q (as %.80q)", kind, s, f)
			}
		}
	}
	return ""
}

// words are all renderings of an error.
func words(err error) string {
	s := ""
	for ; err != nil; err = stderrors.Unwrap(err) {
		s += fmt.Sprintf("%s\n%v\n%+v\n%#v\n", err, err, err, err)
	}
	return s
}

// listen runs code under test and searches what it says.
func (e *ears) listen(key, what string, f func() error) Outcome {
	e.v.Count("transitions", 1)
	e.v.Count("traces_validated_against_impl", 1)
	e.v.State("states", key)
	var o Outcome
	said := overheard(e.w.root, func() { o = e.w.Call(f) })
	e.knowState()
	if bad := e.found(words(o.Err) + o.Panic); bad != "" {
		e.v.Fail(key, "%s\nreports %.300q, in which there is %s", what, o.String(), bad)
	}
	if bad := e.found(said); bad != "" {
		e.v.Fail(key, "%s\nwrites to the standard output or error %.300q, in which there is %s", what, said, bad)
	}
	if o.Err != nil {
		e.v.Count("errors", 1)
	}
	return o
}

// fullLog writes everything to the standard error.
var fullLog = zap.New(zapcore.NewCore(zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig()), zapcore.AddSync(os.Stderr), zapcore.DebugLevel))

func loggedRequest() *requests.Request {
	r := requests.NewRequest()
	r.Logger = fullLog
	return r
}

// overheard captures the standard output and error of the process.
func overheard(dir string, f func()) string {
	p := filepath.Join(dir, ".overheard")
	file, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		fatalf("%v", err)
	}
	os.Remove(p)
	defer file.Close()
	var saved [3]int
	for fd := 1; fd <= 2; fd++ {
		n, err := syscall.Dup(fd)
		if err != nil {
			fatalf("%v", err)
		}
		saved[fd] = n
		if err := syscall.Dup2(int(file.Fd()), fd); err != nil {
			fatalf("%v", err)
		}
	}
	defer func() {
		for fd := 1; fd <= 2; fd++ {
			syscall.Dup2(saved[fd], fd)
			syscall.Close(saved[fd])
		}
	}()
	f()
	file.Seek(0, io.SeekStart)
	b, _ := io.ReadAll(file)
	return string(b)
}

// exec executes an operation and listens.
func (e *ears) exec(key, what string, op Op, alter func(r *requests.Request)) Outcome {
	e.know("the password", op.Pw)
	e.know("the former password", op.Old)
	if op.K == "lookup" {
		if s := e.w.lookupText(op); len(s) > 44 {
			e.know("the presented API key", s)
			e.know("a part of the presented API key", s[24:44])
		}
	}
	e.knowState()
	switch op.K {
	case "reopen":
		return e.listen(key, what, func() error {
			db, err := identity.NewDatabase(e.w.path)
			if err == nil {
				e.w.db = db
			}
			return err
		})
	case "copy":
		return e.listen(key, what, func() error { return e.w.db.Copy(e.w.target(op.Path)) })
	case "save":
		return e.listen(key, what, func() error { return e.w.db.Save() })
	}
	r := op.request(e.w)
	r.Logger = fullLog
	if alter != nil {
		alter(r)
	}
	if op.Fault != "" {
		e.w.s.dev.fault = faultPlan(op.Fault)
		e.w.s.dev.n = 0
		defer func() { e.w.s.dev.fault = nil }()
	}
	o := e.listen(key, what, func() error { return dispatch(e.w.db, op.K, r) })
	o.Req, o.Code, o.Payload = r, r.Response.Code, r.Response.Payload
	return o
}

// secretShapes are secrets of every shape, which nothing else resembles.
func secretShapes() []string {
	return []string{
		"Zq7#x", "Zq7#Xy-Secret-Word", "  Zq7#Xy Secret Word  ", "Zq7#Xy\x00Secret", "Zq7#Xy-%s%d%v%!", "Zq7#Xy\nSecret", "Zq7#Xy\xffSecret", "Zq7#XyÄÖ", "Zq7#Xy/Secret", "Zq7#Xy@secret.com", "{\"Zq7#Xy\":1}", "[\"Zq7#Xy\"]", "\"Zq7#Xy\"", "Zq7#Xy:$2a$10$",
		"Zq7#" + strings.Repeat("Long", 12), "Zq7#" + strings.Repeat("Long", 18), "Zq7#" + strings.Repeat("Long", 40), "Zq7#" + strings.Repeat("Long", 3000), "94729", "9472918", "94729183", "9472918365", "-94729183",
		base64.StdEncoding.EncodeToString([]byte("Zq7#Xy-Secret")), base64.StdEncoding.EncodeToString([]byte("{\"Zq7#Xy\":\"Secret\"}")), base64.StdEncoding.EncodeToString([]byte("\"Zq7#Xy\"")), base64.StdEncoding.EncodeToString([]byte("{\"id\":\"Zq7#Xy\",\"type\":\"Zq7#Xy\"}")),
	}
}

// secretFields are the fields that hold secrets, by operation.
func secretFields(op Op) []string {
	switch op.K {
	case "adduser":
		return []string{"User.Password"}
	case "changepw":
		return []string{"User.Password", "User.OldPassword"}
	case "auth", "authkey":
		return []string{"User.Password", "WebAuthn.Challenge"}
	case "lookup":
		return []string{"Key.Payload"}
	case "addmfa":
		return []string{"MfaToken.Secret", "MfaToken.Passcode", "WebAuthn.Challenge"}
	}
	return nil
}

func runC38(c *Ctx) {
	zap.ReplaceGlobals(fullLog)
	prelude, menu, _ := requestMenu()
	fields := requestFields()
	world := func(v *V, prelude []Op) *ears {
		r, bad := c.newRun(nil, prelude, nil)
		if bad != "" {
			v.Fail("", "%s", bad)
			r.w.Close()
			return nil
		}
		return newEars(c, v, r.w)
	}
	// Plain operations, and their repetition.
	wide := append(append([]Op{}, menu...), Op{K: "save"}, Op{K: "copy", Path: "c.json"}, Op{K: "copy", Path: "no/such/../place.json"}, Op{K: "reopen"}, faulty(Op{K: "save"}, "enospc"), faulty(Op{K: "copy", Path: "c.json"}, "short"))
	for _, op := range menu {
		if op.Fault == "" && !op.Disabled && (op.K == "addpk" || op.K == "addapi" || op.K == "addmfa") {
			op.Disabled = true
			wide = append(wide, op)
		}
	}
	for i, op := range wide {
		c.Case("menu/"+itoa(i), func(v *V) {
			for _, next := range append([]Op{op}, wide...) {
				if c.Expired() || v.Failed() {
					return
				}
				e := world(v, prelude)
				if e == nil {
					return
				}
				for n, x := range []Op{op, next} {
					key := fmt.Sprintf("%s then %s: %d", op, next, n)
					e.exec(key, traceString([]Op{op, next}), x, nil)
				}
				e.w.Close()
			}
		})
	}
	for i, op := range append(refusals(), changes()...) {
		c.Case("populated/"+itoa(i), func(v *V) {
			for _, start := range [][]Op{populated(), nil} {
				e := world(v, start)
				if e == nil {
					return
				}
				e.exec(op.String(), op.String(), op, nil)
				e.w.Close()
			}
		})
	}
	// Failing system calls.
	bound := 1
	if c.Thorough {
		bound = 2
	}
	for i, op := range append(changes(), Op{K: "save"}, Op{K: "copy", Path: "c.json"}, Op{K: "reopen"}) {
		c.Case("faults/"+itoa(i), func(v *V) {
			EnumerateFaults(c, v, bound, func(ins []injection) []FSEvent {
				e := world(v, populated())
				if e == nil {
					return nil
				}
				defer e.w.Close()
				d := e.w.s.dev
				d.n, d.log, d.record, d.fault = 0, nil, true, planOf(ins)
				e.exec(op.String()+" "+describeFaults(ins), op.String()+" "+describeFaults(ins), op, nil)
				d.fault, d.record = nil, false
				return d.log
			})
		})
	}
	// Secrets of every shape.
	for i, op := range menu {
		sf := secretFields(op)
		for _, name := range sf {
			c.Case(fmt.Sprintf("secret/%d/%s", i, name), func(v *V) {
				var f reqField
				for _, x := range fields {
					if x.name == name {
						f = x
					}
				}
				for _, s := range secretShapes() {
					if c.Expired() || v.Failed() {
						return
					}
					e := world(v, prelude)
					if e == nil {
						return
					}
					e.know("what was given as "+name, s)
					what := fmt.Sprintf("%s with %s = %.60q", op, name, s)
					e.exec(what, what, op, func(r *requests.Request) { reflect.ValueOf(r).Elem().FieldByIndex(f.idx).SetString(s) })
					// The secret may have been stored by now.
					for _, next := range []Op{on("alice", Op{K: "addmfa", Payload: "totpC", Comment: "new"}), {K: "reopen"}, {K: "auth", Name: "alice", Pw: pwB}, on("alice", Op{K: "changepw", Old: pwB, Pw: pwA})} {
						e.exec(what+", then "+next.String(), what+", then "+next.String(), next, nil)
					}
					e.w.Close()
				}
				if v.WantSample() {
					v.Sample(map[string]interface{}{"operation": op.String(), "field": name})
				}
			})
		}
	}
	c.quietFiles(prelude)
	c.quietRecords()
}

// quietFiles opens damaged files.
func (c *Ctx) quietFiles(prelude []Op) {
	r, bad := c.newRun(nil, prelude, nil)
	defer r.w.Close()
	if bad != "" {
		c.Case("file", func(v *V) { v.Fail("", "%s", bad) })
		return
	}
	base, err := os.ReadFile(r.w.path)
	if err != nil {
		fatalf("%v", err)
	}
	secrets := append([]string{}, r.w.secrets...)
	var doc interface{}
	unmarshal(base, &doc)
	open := func(v *V, e *ears, key, what string, b []byte, all bool) {
		writeFile(e.w.path, b)
		e.w.db = nil
		o := e.exec(key, what, Op{K: "reopen"}, nil)
		if !o.OK() || !all {
			return
		}
		for _, op := range []Op{{K: "auth", Name: "alice", Pw: pwA}, {K: "auth", Name: "bob", Pw: pwA}, {K: "authkey", Name: "alice", Payload: "u2fA"}, {K: "lookup", Ref: 0}, {K: "lookup", Ref: 1},
			on("alice", Op{K: "getuser"}), on("alice", Op{K: "changepw", Old: pwA, Pw: pwC}), on("bob", Op{K: "changepw", Old: pwA, Pw: pwC}), on("alice", Op{K: "addmfa", Payload: "totpA", Comment: "t"}), addUser("alice", "zed@"+dom, pwC), on("alice", Op{K: "addapi", Usage: "api"})} {
			e.exec(key+", then "+op.String(), what+", then "+op.String(), op, nil)
		}
	}
	start := func(v *V) *ears {
		w := NewWorld(c.Scratch)
		w.secrets = append([]string{}, secrets...)
		e := newEars(c, v, w)
		writeFile(w.path, base)
		if o := w.Open(); !o.OK() {
			fatalf("%s", o)
		}
		e.knowState()
		// What is in the file is secret however the file is damaged.
		walk(doc, nil, func(p jpath, x interface{}) {
			s, ok := x.(string)
			if n := p.String(); ok && (strings.HasSuffix(n, "/hash") || strings.HasSuffix(n, "/payload") && strings.Contains(n, "api_keys") || strings.HasSuffix(n, "/secret") && strings.Contains(s, "secret")) {
				e.know("what was in the file at "+n, s)
			}
		})
		return e
	}
	var paths []jpath
	walk(doc, nil, func(p jpath, x interface{}) { paths = append(paths, p) })
	for i, p := range paths {
		c.Case("file/"+itoa(i), func(v *V) {
			e := start(v)
			defer func() { e.w.Close() }()
			was, _ := getAt(doc, p)
			s, _ := was.(string)
			vals := []interface{}{nil, true, 7, -1.5, "", "x", []interface{}{}, obj{}, []interface{}{was}, obj{"x": was}}
			if s != "" {
				vals = append(vals, s+"x", s[:len(s)-1], s[:len(s)/2], "x"+s, s+s, strings.ToUpper(s), strings.Replace(s, "$2a$", "$9z$", 1), strings.Replace(s, "$10$", "$99$", 1), strings.Replace(s, "$", "", 1))
			}
			for j, x := range vals {
				if c.Expired() || v.Failed() {
					return
				}
				key := fmt.Sprintf("%s #%d", p, j)
				open(v, e, key, fmt.Sprintf("opening a file with %s at %s", shown(x), p), []byte(jsonOf(setAt(doc, p, x))), true)
			}
		})
	}
	// Records that are no longer in use.
	_, menu, _ := requestMenu()
	for _, list := range []string{"passwords", "public_keys", "api_keys", "mfa_tokens"} {
		for k, flags := range [][]string{{"disabled"}, {"expired"}, {"disabled", "expired"}} {
			c.Case(fmt.Sprintf("file/stale/%s/%d", list, k), func(v *V) {
				d := doc
				for i := 0; i < 2; i++ {
					for j := 0; ; j++ {
						p := jpath{"users", i, list, j}
						if _, ok := getAt(doc, p); !ok {
							break
						}
						for _, f := range flags {
							d = setAt(d, append(append(jpath{}, p...), f), true)
						}
					}
				}
				for _, op := range menu {
					if c.Expired() || v.Failed() {
						return
					}
					e := start(v)
					what := fmt.Sprintf("%s in a database whose %s are %s", op, list, strings.Join(flags, " and "))
					open(v, e, what, what, []byte(jsonOf(d)), false)
					if e.w.db == nil {
						fatalf("%s: not opened", what)
					}
					e.exec(what, what, op, nil)
					e.w.Close()
				}
			})
		}
	}
	const parts = 16
	for k := 0; k < parts; k++ {
		c.Case("file/cut/"+itoa(k), func(v *V) {
			e := start(v)
			defer func() { e.w.Close() }()
			for n := k; n < len(base); n += parts {
				if c.Expired() || v.Failed() {
					return
				}
				if !c.Thorough && n%3 == 2 {
					continue
				}
				open(v, e, "cut "+itoa(n), fmt.Sprintf("opening a file of which only %d bytes are left", n), base[:n], false)
				b := append([]byte{}, base...)
				for _, x := range []byte{0, '"', '{', 0xff} {
					b[n] = x
					open(v, e, fmt.Sprintf("byte %d %d", n, x), fmt.Sprintf("opening a file in which byte %d is %d", n, x), b, false)
				}
			}
		})
	}
}

// quietRecords gives secrets to constructors and methods of records.
func (c *Ctx) quietRecords() {
	shapes := secretShapes()
	c.Case("records", func(v *V) {
		w := NewWorld(c.Scratch)
		defer w.Close()
		for _, s := range shapes {
			if c.Expired() || v.Failed() {
				return
			}
			e := newEars(c, v, w)
			e.know("what was given as a secret", s)
			run := func(what string, f func() error) {
				what = fmt.Sprintf("%s with %.60q", what, s)
				e.listen(what, what, f)
			}
			run("NewPassword", func() error { _, err := identity.NewPassword(s); return err })
			for _, algo := range []string{"bcrypt", "", "md5"} {
				for _, cost := range []interface{}{nil, 4, 99, "x"} {
					run(fmt.Sprintf("NewPasswordWithOptions %s %v", algo, cost), func() error {
						_, err := identity.NewPasswordWithOptions(s, "generic", algo, map[string]interface{}{"cost": cost})
						return err
					})
				}
			}
			run("NewUserWithRoles", func() error {
				_, err := identity.NewUserWithRoles("jane", s, "jane@"+dom, "Smith, Jane", nil)
				return err
			})
			run("NewUserWithRoles with a bad address", func() error { _, err := identity.NewUserWithRoles("jane", s, "x", "", nil); return err })
			var u *identity.User
			w.Call(func() error {
				u, _ = identity.NewUserWithRoles("jane", pwA, "jane@"+dom, "", nil)
				return nil
			})
			run("User.VerifyPassword", func() error { return u.VerifyPassword(s) })
			run("User.AddPassword", func() error { return u.AddPassword(s, 3) })
			for _, which := range []int{0, 1} {
				run(fmt.Sprintf("User.ChangePassword %d", which), func() error {
					r := loggedRequest()
					r.User.Password, r.User.OldPassword = s, s
					if which == 1 {
						r.User.OldPassword = pwA
					}
					return u.ChangePassword(r, 3)
				})
			}
			for _, usage := range []string{"api", "ssh", ""} {
				for _, comment := range []string{"", "c"} {
					run("NewAPIKey "+usage+comment, func() error {
						r := loggedRequest()
						r.Key.Payload, r.Key.Usage, r.Key.Comment = s, usage, comment
						_, err := identity.NewAPIKey(r)
						return err
					})
					run("User.LookupAPIKey "+usage+comment, func() error {
						r := loggedRequest()
						r.Key.Payload, r.Key.Usage, r.Key.Comment, r.Key.Prefix = s, usage, comment, "p"
						return u.LookupAPIKey(r)
					})
				}
			}
			for _, algo := range []string{"sha1", "sha256", "sha512", "md5", ""} {
				for _, n := range []int{0, 6, 99} {
					for _, period := range []int{0, 30, 999} {
						for _, code := range []string{"", "123456", s} {
							run(fmt.Sprintf("NewMfaToken %s %d %d %d", algo, n, period, len(code)), func() error {
								r := loggedRequest()
								r.MfaToken.Type, r.MfaToken.Secret, r.MfaToken.Algorithm, r.MfaToken.Digits, r.MfaToken.Period, r.MfaToken.Passcode = "totp", s, algo, n, period, code
								_, err := identity.NewMfaToken(r)
								return err
							})
							run(fmt.Sprintf("MfaToken.ValidateCode %s %d %d %d", algo, n, period, len(code)), func() error {
								t := &identity.MfaToken{Type: "totp", Secret: s, Algorithm: algo, Digits: n, Period: period}
								return t.ValidateCode(code)
							})
							run(fmt.Sprintf("MfaToken.ValidateCodeWithTime %s %d %d %d", algo, n, period, len(code)), func() error {
								t := &identity.MfaToken{Type: "totp", Secret: s, Algorithm: algo, Digits: n, Period: period}
								return t.ValidateCodeWithTime(code, time.Unix(1e9, 0))
							})
						}
						for _, typ := range []string{"", "totp", "hotp", "x"} {
							run(fmt.Sprintf("Code.Build %s %s %d %d", typ, algo, n, period), func() error {
								q := &qr.Code{Type: typ, Secret: s, Algorithm: algo, Label: "l", Digits: n, Period: period}
								return q.Build()
							})
							run(fmt.Sprintf("Code.Build without a label %s %s %d %d", typ, algo, n, period), func() error {
								q := &qr.Code{Type: typ, Secret: s, Algorithm: algo, Digits: n, Period: period}
								return q.Build()
							})
						}
					}
				}
			}
			for _, typ := range []string{"totp", "u2f"} {
				run("MfaToken.WebAuthnRequest "+typ, func() error {
					t := &identity.MfaToken{Type: typ, Secret: s, Parameters: map[string]string{"u2f_id": "x"}}
					req, _ := assertionFor("u2fA")
					_, err := t.WebAuthnRequest(req)
					return err
				})
			}
		}
	})
}
