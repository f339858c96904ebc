package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C32", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "every operation of a menu (accepted, refused, and failing to save) in a world of two users with keys and tokens, executed once with a request that carries only what the operation needs and once for every other field of the request and every value of a menu for it, all other fields at once, and pairs of them; result, response, remaining request, database, file and the answers to all queries afterwards must be the same. Time and randomness are the same in both executions",
		Assumptions: []string{"the texts of errors are not compared", "User.Disabled, and Query.ID of DeleteUser, may come to matter"},
		Run:         runC32,
	})
}

// reqField is a leaf of a request.
type reqField struct {
	name string
	idx  []int
	kind reflect.Kind
}

func requestFields() []reqField {
	var out []reqField
	var rec func(t reflect.Type, name string, idx []int)
	rec = func(t reflect.Type, name string, idx []int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			n := strings.TrimPrefix(name+"."+f.Name, ".")
			at := append(append([]int{}, idx...), i)
			switch f.Type.Kind() {
			case reflect.Struct:
				rec(f.Type, n, at)
			case reflect.String, reflect.Bool, reflect.Int, reflect.Interface:
				out = append(out, reqField{n, at, f.Type.Kind()})
			case reflect.Slice:
				if f.Type.Elem().Kind() == reflect.String {
					out = append(out, reqField{n, at, reflect.Slice})
				}
			}
		}
	}
	rec(reflect.TypeOf(requests.Request{}), "", nil)
	return out
}

// ownFields are the fields that an operation is documented to use.
func ownFields(op Op) map[string]bool {
	who := "User.Username User.Email "
	s := ""
	switch op.K {
	case "adduser":
		s = who + "User.Password User.FullName User.Roles User.Disabled"
	case "deluser":
		s = who + "Query.ID"
	case "getusers", "getuser", "getmfa":
		s = who
	case "auth", "authkey":
		s = "User.Username User.Password WebAuthn.Request WebAuthn.Challenge"
		if op.K == "auth" && op.Pw != "" {
			// The password decides.
			s = "User.Username User.Password"
		}
	case "addpk":
		s = who + "Key.Comment Key.Usage Key.Payload Key.Disabled"
	case "delpk", "delapi":
		s = who + "Key.ID"
	case "getpk", "getapi":
		s = who + "Key.Usage"
	case "addapi":
		s = who + "Key.Comment Key.Usage Key.Disabled"
	case "lookup":
		s = "Key.Payload"
	case "changepw":
		s = who + "User.Password User.OldPassword"
	case "identify":
		s = "User.Username Flags.Enabled"
	case "addmfa":
		s = who + "MfaToken.Comment MfaToken.Type MfaToken.Disabled "
		switch mfaSpecs[op.Payload].Type {
		case "totp":
			s += "MfaToken.Secret MfaToken.Algorithm MfaToken.Period MfaToken.Digits MfaToken.Passcode"
		case "u2f":
			s += "WebAuthn.Register WebAuthn.Challenge"
		}
	case "delmfa":
		s = who + "MfaToken.ID"
	}
	out := map[string]bool{}
	for _, f := range strings.Fields(s) {
		out[f] = true
	}
	return out
}

// exchange is what one execution of an operation shows.
type exchange struct {
	outcome, after string
	req            map[string]string
}

func fieldText(v reflect.Value) string { return dump(v.Interface()) }

// requestMenu is a world of two users with keys and tokens, and operations on
// it: accepted, refused, and failing to save.
func requestMenu() (prelude, ops []Op, un *Universe) {
	a := func(op Op) Op { return on("alice", op) }
	b := func(op Op) Op { return on("bob", op) }
	prelude = []Op{
		uAlice, uBob,
		a(Op{K: "addpk", Payload: "rsaA:ssh", Usage: "ssh", Comment: "k"}), b(Op{K: "addpk", Payload: "rsaB:ssh", Usage: "ssh", Comment: "k"}), a(Op{K: "addpk", Payload: "pgpA", Usage: "gpg"}),
		a(Op{K: "addapi", Usage: "api", Comment: "one"}), b(Op{K: "addapi", Usage: "api", Comment: "two"}), a(Op{K: "addapi", Usage: "api", Comment: "three"}), a(Op{K: "addapi", Usage: "api", Comment: "off", Disabled: true}),
		a(Op{K: "addmfa", Payload: "totpA", Comment: "t"}), b(Op{K: "addmfa", Payload: "totpB", Comment: "t"}), a(Op{K: "addmfa", Payload: "u2fA", Comment: "u"}), b(Op{K: "addmfa", Payload: "u2fB", Comment: "u"}),
	}
	un = &Universe{
		Pairs: [][2]string{{"alice", "alice@" + dom}, {"bob", "bob@" + dom}, {"carol", "carol@" + dom}}, Logins: []string{"alice", "bob@" + dom, "carol", "x"},
		Pws: []string{pwA, pwB, pwC}, Keys: []string{"u2fA", "u2fB", "u2fC"},
	}
	ops = []Op{
		addUser("carol", "carol@"+dom, pwC), {K: "adduser", Name: "carol", Email: "carol@" + dom, Pw: pwC, Full: "Smith, Carol", Roles: []string{"admin", "corp/user"}}, addUser("alice", "other@"+dom, pwC), addUser("carol", "carol@"+dom, "short"),
		a(Op{K: "deluser"}), a(Op{K: "getusers"}), a(Op{K: "getuser"}), {K: "getuser", Name: "alice", Email: "bob@" + dom}, {K: "getusers", Name: "x", Email: "alice@" + dom},
		{K: "auth", Name: "alice", Pw: pwA}, {K: "auth", Name: "BOB@" + dom, Pw: pwB}, {K: "auth", Name: "alice", Pw: pwB}, {K: "auth", Name: "carol", Pw: pwA}, {K: "auth", Name: "alice"},
		{K: "authkey", Name: "alice", Payload: "u2fA"}, {K: "authkey", Name: "alice", Payload: "u2fB"}, {K: "authkey", Name: "carol", Payload: "u2fA"},
		a(Op{K: "addpk", Payload: "rsaC:ssh", Usage: "ssh", Comment: "new"}), a(Op{K: "addpk", Payload: "pgpB", Usage: "gpg"}), a(Op{K: "addpk", Payload: "rsaA:pem", Usage: "ssh"}), a(Op{K: "addpk", Payload: "rsaC:sshc", Usage: "ssh", Disabled: true}),
		a(Op{K: "delpk", Ref: 0}), b(Op{K: "delpk", Ref: 0}), a(Op{K: "delpk", Ref: 2}), a(Op{K: "delpk", Ref: -2}),
		a(Op{K: "getpk", Usage: "ssh"}), a(Op{K: "getpk", Usage: "gpg"}), b(Op{K: "getpk"}),
		a(Op{K: "addapi", Usage: "api", Comment: "new"}), a(Op{K: "addapi", Usage: "api", Comment: "off", Disabled: true}), a(Op{K: "addapi", Usage: "api"}), a(Op{K: "addapi", Comment: "c"}),
		a(Op{K: "delapi", Ref: 0}), b(Op{K: "delapi", Ref: 1}), b(Op{K: "delapi", Ref: 0}), a(Op{K: "delapi", Ref: -2}),
		a(Op{K: "getapi", Usage: "api"}), a(Op{K: "getapi", Usage: "ssh"}),
		{K: "lookup", Ref: 0}, {K: "lookup", Ref: 1}, {K: "lookup", Ref: 3}, {K: "lookup", Ref: 0, Payload: "p40"}, {K: "lookup", Ref: 0, Payload: "empty"}, {K: "lookup", Ref: 0, Payload: "prefix"},
		a(Op{K: "changepw", Old: pwA, Pw: pwC}), a(Op{K: "changepw", Old: pwB, Pw: pwC}), a(Op{K: "changepw", Old: pwA, Pw: "x"}),
		{K: "identify", Name: "alice"}, {K: "identify", Name: "BOB@" + dom}, {K: "identify", Name: "nobody"},
		a(Op{K: "addmfa", Payload: "totpC", Comment: "new"}), a(Op{K: "addmfa", Payload: "u2fC", Comment: "new"}), a(Op{K: "addmfa", Payload: "totpBad", Comment: "new"}), a(Op{K: "addmfa", Payload: "u2fBad", Comment: "new"}), a(Op{K: "addmfa", Payload: "totpC", Comment: "t"}), a(Op{K: "addmfa", Payload: "none", Comment: "new"}),
		a(Op{K: "delmfa", Ref: 0}), b(Op{K: "delmfa", Ref: 0}), a(Op{K: "delmfa", Ref: 2}), a(Op{K: "delmfa", Ref: -2}),
		a(Op{K: "getmfa"}), {K: "getmfa", Name: "alice", Email: "bob@" + dom},
	}
	for _, op := range append([]Op{}, ops...) {
		switch op.K {
		case "adduser", "addpk", "delpk", "addapi", "delapi", "changepw", "addmfa", "delmfa":
			op.Fault = "enospc"
			ops = append(ops, op)
		}
	}
	return
}

func runC32(c *Ctx) {
	fields := requestFields()
	prelude, ops, un := requestMenu()
	readOnly := func(op Op) bool { return NewModel().readOnly(op) }
	world := func(v *V) *World {
		r, bad := c.newRun(nil, prelude, nil)
		if bad != "" {
			v.Fail("", "%s", bad)
			r.w.Close()
			return nil
		}
		return r.w
	}
	// values lists the values of a field, given what exists.
	values := func(w *World, f reqField) []interface{} {
		switch f.kind {
		case reflect.Bool:
			return []interface{}{true}
		case reflect.Int:
			return []interface{}{1, -1, 6, 30, 200, 400, 500}
		case reflect.Slice:
			return []interface{}{[]string{}, []string{"admin"}, []string{"password", "mfa"}, []string{"", "corp/"}}
		case reflect.Interface:
			return []interface{}{"text", w.secrets[1], 7}
		}
		return []interface{}{
			"x", " ", "\x00", "alice", "bob", "carol", "alice@" + dom, "bob@" + dom, "ALICE", pwA, pwB, pwC, "ssh", "gpg", "api", "totp", "u2f", "new", "one", "t", "sha1", "md5", "123456", "challenge-A",
			refID(w.pkIDs, 0), refID(w.pkIDs, 1), refID(w.apiIDs, 0), refID(w.apiIDs, 1), refID(w.apiIDs, 2), refID(w.mfaIDs, 0), refID(w.mfaIDs, 1), refID(w.mfaIDs, 2),
			w.secrets[0], w.secrets[1], w.secrets[0][:24], w.secrets[1][:24], w.secrets[2][:24], fixtureKey("rsaA:ssh"), fixtureKey("rsaC:ssh"),
		}
	}
	// run executes an operation with some fields set.
	run := func(w *World, op Op, dirty map[int]interface{}) exchange {
		r := op.request(w)
		for i, x := range dirty {
			reflect.ValueOf(r).Elem().FieldByIndex(fields[i].idx).Set(reflect.ValueOf(x))
		}
		if op.Fault != "" {
			w.s.dev.fault = faultPlan(op.Fault)
			defer func() { w.s.dev.fault = nil }()
		}
		w.s.dev.n = 0
		o := w.Call(func() error { return dispatch(w.db, op.K, r) })
		w.s.dev.fault = nil
		e := exchange{req: map[string]string{}}
		e.outcome = fmt.Sprintf("success: %v", o.OK())
		if o.Panic != "" {
			e.outcome = "panic: " + o.Panic
		}
		for _, f := range fields {
			e.req[f.name] = fieldText(reflect.ValueOf(r).Elem().FieldByIndex(f.idx))
		}
		return e
	}
	after := func(w *World, op Op) string {
		b, err := os.ReadFile(w.path)
		s := fmt.Sprintf("%s\n%v %s\n", stateOf(w), err, b)
		if !readOnly(op) {
			s += strings.Join(w.Lines(un), "\n")
		}
		return s
	}
	for oi, op := range ops {
		own := ownFields(op)
		var free []int
		for i, f := range fields {
			if !own[f.name] && f.name != "User.Disabled" {
				free = append(free, i)
			}
		}
		// judge runs the operation with fields set and compares.
		judge := func(v *V, w *World, clean exchange, dirty map[int]interface{}) bool {
			v.Count("transitions", 1)
			v.Count("traces_validated_against_impl", 1)
			got := run(w, op, dirty)
			var what []string
			for i, x := range dirty {
				what = append(what, fmt.Sprintf("%s = %.60q", fields[i].name, fmt.Sprint(x)))
			}
			sort.Strings(what)
			key := op.String() + " with " + strings.Join(what, ", ")
			v.State("states", key)
			fail := func(f string, a ...interface{}) bool {
				v.Fail(key, "in a database made by\n%s\nthe operation\n  %s\nwith a request in which other fields are set (%s) differs from the same with a plain request:\n%s", traceString(prelude), op, strings.Join(what, ", "), fmt.Sprintf(f, a...))
				return false
			}
			if got.outcome != clean.outcome {
				return fail("%s, and not %s", got.outcome, clean.outcome)
			}
			for i, f := range fields {
				g, p := got.req[f.name], clean.req[f.name]
				x, set := dirty[i]
				if g != p && !(set && g == dump(x)) {
					return fail("it leaves %s as %s, and not %s", f.name, g, p)
				}
			}
			got.after = after(w, op)
			if got.after != clean.after {
				return fail("afterwards: %s", firstDiff(clean.after, got.after))
			}
			return true
		}
		// part explores a part of the assignments.
		part := func(v *V, each func(w *World, try func(dirty map[int]interface{}) bool)) {
			w := world(v)
			if w == nil {
				return
			}
			clean := run(w, op, nil)
			clean.after = after(w, op)
			defer func() { w.Close() }()
			if !readOnly(op) || op.Fault != "" {
				w.Close()
				if w = world(v); w == nil {
					return
				}
			}
			each(w, func(dirty map[int]interface{}) bool {
				if c.Expired() || !judge(v, w, clean, dirty) {
					return false
				}
				if !readOnly(op) || op.Fault != "" {
					w.Close()
					n := world(v)
					if n == nil {
						return false
					}
					w = n
				}
				return true
			})
		}
		for _, i := range free {
			c.Case(fmt.Sprintf("op/%d/%s", oi, fields[i].name), func(v *V) {
				part(v, func(w *World, try func(map[int]interface{}) bool) {
					for _, x := range values(w, fields[i]) {
						if !try(map[int]interface{}{i: x}) {
							return
						}
					}
				})
				if v.WantSample() {
					v.Sample(map[string]interface{}{"operation": op.String(), "field": fields[i].name})
				}
			})
		}
		c.Case(fmt.Sprintf("op/%d/all", oi), func(v *V) {
			part(v, func(w *World, try func(map[int]interface{}) bool) {
				for k := 0; k < 40; k++ {
					dirty := map[int]interface{}{}
					for _, i := range free {
						vals := values(w, fields[i])
						dirty[i] = vals[k%len(vals)]
					}
					if !try(dirty) {
						return
					}
				}
			})
		})
		if op.Fault != "" && !c.Thorough {
			continue
		}
		for n, i := range free {
			if fields[i].kind != reflect.String && fields[i].kind != reflect.Bool {
				continue
			}
			c.Case(fmt.Sprintf("op/%d/pair/%s", oi, fields[i].name), func(v *V) {
				part(v, func(w *World, try func(map[int]interface{}) bool) {
					for _, j := range free[n+1:] {
						vi, vj := values(w, fields[i]), values(w, fields[j])
						for k := range vi {
							if !c.Thorough && (k%4 != j%4 || !readOnly(op) && k%32 != j%32) {
								continue
							}
							for l, y := range vj {
								// In part the same text twice, and texts that belong together.
								d := l - k
								if d != 0 && d != 2 && d != 3 && d != -2 && d != -3 && !(c.Thorough && (readOnly(op) || (l+k)%5 == 0)) {
									continue
								}
								if d != 0 && !c.Thorough && (l+i)%5 != 0 {
									continue
								}
								if !try(map[int]interface{}{i: vi[k], j: y}) {
									return
								}
							}
						}
					}
				})
			})
		}
	}
}

// readOnly tells whether an operation never changes the database.
func (m *Model) readOnly(op Op) bool {
	switch op.K {
	case "getusers", "getuser", "getpk", "getapi", "getmfa", "auth", "authkey", "lookup", "identify", "deluser", "look", "count", "getpath":
		return true
	}
	return false
}
