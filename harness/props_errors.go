package main

import (
	stderrors "errors"
	"fmt"
	"io"
	"path/filepath"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C27", Level: "exploration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "every tuple of up to three arguments (four for thorough) of a menu for every documented error and for formats of every shape; every refusal of every operation in populated, small and empty databases, and every operation under every fault of its file-system calls, with errors.Is against the documented error of the operation and of no other operation. Non-trivial: errors obtained",
		Assumptions: []string{"the documented errors are those of pkg/errors named after the operation"},
		Run:         runC27,
	})
}

// documented maps an operation to its documented error.
var documented = map[string]errors.StandardError{
	"adduser": errors.ErrAddUser, "deluser": errors.ErrDeleteUser, "getusers": errors.ErrGetUsers, "getuser": errors.ErrGetUser, "auth": errors.ErrAuthFailed, "authkey": errors.ErrAuthFailed,
	"addpk": errors.ErrAddPublicKey, "delpk": errors.ErrDeletePublicKey, "getpk": errors.ErrGetPublicKeys, "addapi": errors.ErrAddAPIKey, "delapi": errors.ErrDeleteAPIKey, "getapi": errors.ErrGetAPIKeys,
	"addmfa": errors.ErrAddMfaToken, "delmfa": errors.ErrDeleteMfaToken, "getmfa": errors.ErrGetMfaTokens, "changepw": errors.ErrChangeUserPassword, "save": errors.ErrDatabaseCommit, "copy": errors.ErrDatabaseCommit,
}

// otherErrors are documented errors of everything else.
var otherErrors = []errors.StandardError{
	errors.ErrNewDatabase, errors.ErrNewDatabaseInvalidUser, errors.ErrNewDatabaseDuplicateUser, errors.ErrNewDatabaseDuplicateUserID, errors.ErrNewDatabaseDuplicateEmail, errors.ErrNewDatabaseDuplicateAPIKey,
	errors.ErrLookupAPIKeyPayloadEmpty, errors.ErrLookupAPIKeyFailed, errors.ErrLookupAPIKeyMalformedPayload, errors.ErrEmailAddressInvalid, errors.ErrRoleEmpty, errors.ErrParseNameFailed,
	errors.ErrCreditCardUnsupportedIssuer, errors.ErrCreditCardUnsupportedAssociation, errors.ErrUserIDInvalidLength, errors.ErrUsernameEmpty, errors.ErrPasswordEmpty, errors.ErrPasswordGenerate, errors.ErrPasswordUnsupportedAlgorithm,
	errors.ErrMfaTokenInvalidPeriod, errors.ErrMfaTokenInvalidDigits, errors.ErrMfaTokenInvalidPasscode, errors.ErrWebAuthnRegisterPublicKeyTypeAlgorithmUnsupported, errors.ErrPublicKeyInvalidUsage, errors.ErrPublicKeyParse,
}

func allErrors() []errors.StandardError {
	seen := map[errors.StandardError]bool{}
	var out []errors.StandardError
	for _, e := range otherErrors {
		if !seen[e] {
			seen[e] = true
			out = append(out, e)
		}
	}
	for _, e := range documented {
		if !seen[e] {
			seen[e] = true
			out = append(out, e)
		}
	}
	return out
}

type customError struct{ s string }

func (e customError) Error() string { return e.s }

type pointerError struct{ s string }

func (e *pointerError) Error() string { return "pointer " + e.s }

func runC27(c *Ctx) {
	formats := allErrors()
	for _, f := range []string{"", "plain", "%v", "%v %v", "%s: %q", "%d", "%[2]v %[1]v", "100%", "%w", "%%", "%5.2f|%v", "é %v", "%!v", "%v\n%v"} {
		formats = append(formats, errors.StandardError(f))
	}
	type arg struct {
		name string
		v    interface{}
		err  bool
		null bool
	}
	var np *int
	args := []arg{
		{"error", stderrors.New("cause"), true, false}, {"nil", nil, false, true}, {"text", "some text", false, false}, {"empty", "", false, false}, {"number", 42, false, false}, {"standard", errors.ErrRoleEmpty, true, false},
		{"nested", errors.ErrParseNameFailed.WithArgs("x"), true, false}, {"wrapped", fmt.Errorf("wrap: %w", io.EOF), true, false}, {"format", "%s %d %!", false, false}, {"custom", customError{"custom"}, true, false}, {"pointer", &pointerError{"p"}, true, false},
		{"nil pointer", np, false, false}, {"slice", []string{"a", "b"}, false, false}, {"format error", stderrors.New("100%s"), true, false}, {"empty error", customError{""}, true, false},
	}
	most := 3
	if c.Thorough {
		most = 4
	}
	for fi, f := range formats {
		c.Case(fmt.Sprintf("args/%d", fi), func(v *V) {
			var rec func(l []arg)
			rec = func(l []arg) {
				if v.Failed() || c.Expired() {
					return
				}
				v.Count("evaluations", 1)
				var in []interface{}
				var names []string
				hasErr, hasNil := false, false
				for _, a := range l {
					in = append(in, a.v)
					names = append(names, a.name)
					hasErr = hasErr || a.err
					hasNil = hasNil || a.null
				}
				given := append([]interface{}{}, in...)
				err := f.WithArgs(given...)
				what := fmt.Sprintf("%q with the arguments %q", string(f), names)
				switch {
				case err == nil && (hasErr || !hasNil):
					v.Fail("args", "%s gives no error", what)
				case err != nil && hasNil && !hasErr:
					v.Fail("args", "%s gives an error, though its cause is nil", what)
				case err != nil:
					v.State("distinct_nontrivial", what)
					if !stderrors.Is(err, f) || !stderrors.Is(fmt.Errorf("outer: %w", err), f) {
						v.Fail("args", "%s is not recognised as itself", what)
					}
					if got, want := err.Error(), fmt.Sprintf(string(f), in...); got != want {
						v.Fail("args", "%s is rendered as %q, not %q", what, got, want)
					}
					if err.Error() != err.Error() {
						v.Fail("args", "%s is rendered in two ways", what)
					}
					var se errors.StandardError
					if !stderrors.As(err, &se) || se != f {
						v.Fail("args", "%s is taken for %q", what, string(se))
					}
					for _, g := range formats {
						if g != f && stderrors.Is(err, g) {
							for _, a := range l {
								if e, ok := a.v.(error); ok && stderrors.Is(e, g) {
									g = f // the cause may be recognisable, too
								}
							}
							if g != f {
								v.Fail("args", "%s is taken for %q", what, string(g))
							}
						}
					}
				}
				if len(l) < most {
					for _, a := range args {
						rec(append(l[:len(l):len(l)], a))
					}
				}
			}
			rec(nil)
			if f.Error() != string(f) || !stderrors.Is(f, f) {
				v.Fail("plain", "%q is rendered as %q", string(f), f.Error())
			}
		})
	}

	// recognise compares the error of a refusal.
	recognise := func(v *V, what string, op Op, o Outcome) {
		v.Count("evaluations", 1)
		if o.Panic != "" {
			v.Fail("panic", "%s: %s", what, o)
			return
		}
		if o.Err == nil {
			return
		}
		v.State("distinct_nontrivial", what)
		want, ok := documented[op.K]
		if op.K == "lookup" {
			s := o.Req.Key.Payload
			want, ok = errors.ErrLookupAPIKeyFailed, true
			if s == "" {
				want = errors.ErrLookupAPIKeyPayloadEmpty
			} else if len(s) < 72 {
				want = errors.ErrLookupAPIKeyMalformedPayload
			}
		}
		if !ok {
			v.Fail("refused", "%s is refused: %s", what, o)
			return
		}
		if !stderrors.Is(o.Err, want) {
			v.Fail(op.K, "%s: the error %q is not recognised as %q", what, o.Err, string(want))
			return
		}
		for k, e := range documented {
			if e != want && stderrors.Is(o.Err, e) {
				v.Fail(op.K, "%s: the error %q is recognised as that of %s", what, o.Err, k)
			}
		}
		if o.Err.Error() == "" || strings.Contains(o.Err.Error(), "%!") {
			v.Fail(op.K, "%s: the error is rendered as %q", what, o.Err)
		}
		if v.WantSample() {
			v.Sample(map[string]interface{}{"operation": op.String(), "error": o.Err.Error()})
		}
	}
	un := &Universe{Sections: sections()}
	ops := append(refusals(), changes()...)
	ops = append(ops, opSave, Op{K: "copy", Path: "copy.json"}, Op{K: "copy", Path: "."}, Op{K: "copy", Path: "no/such/folder/x.json"}, Op{K: "lookup", Ref: 0})
	for _, k := range []string{"getuser", "getusers", "getpk", "getapi", "getmfa", "deluser", "addpk", "delpk", "addapi", "delapi", "addmfa", "delmfa", "changepw"} {
		for _, id := range [][2]string{{"alice", "alice@example.com"}, {"alice", ""}, {"", "alice@example.com"}, {"nobody", "alice@example.com"}, {"alice", "nobody@example.com"}, {"nobody", "nobody@example.com"}, {"bob", "alice@example.com"}, {"alice@example.com", "alice"}} {
			op := Op{K: k, Name: id[0], Email: id[1], Usage: "ssh", Payload: "rsaA:pem", Ref: -1}
			if k == "addmfa" {
				op.Payload = "totpA"
			}
			ops = append(ops, op)
		}
	}
	preludes := map[string][]Op{"empty": nil, "small": {uAlice}, "populated": populated()}
	for _, name := range sortedNames(preludes) {
		prelude := preludes[name]
		for i, op := range ops {
			c.Case(fmt.Sprintf("refusals/%s/%d", name, i), func(v *V) {
				r, bad := c.newRun(nil, prelude, un)
				defer r.w.Close()
				if bad != "" {
					v.Fail("", "%s", bad)
					return
				}
				for n := 0; n < 2; n++ {
					recognise(v, fmt.Sprintf("%s (%s)", op, name), op, r.w.Exec(op))
				}
			})
		}
	}
	// Failures of the file system.
	faulted := append(changes(), opSave, Op{K: "copy", Path: "copy.json"})
	for i, op := range faulted {
		bound := 1
		if c.Thorough {
			bound = 2
		}
		c.Case(fmt.Sprintf("faults/%d", i), func(v *V) {
			EnumerateFaults(c, v, bound, func(ins []injection) []FSEvent {
				r, bad := c.newRun(nil, populated(), un)
				defer r.w.Close()
				if bad != "" {
					v.Fail("", "%s", bad)
					return nil
				}
				d := r.w.s.dev
				d.log, d.record = nil, true
				d.fault = planOf(ins)
				o := r.w.Exec(op)
				d.fault, d.record = nil, false
				recognise(v, fmt.Sprintf("%s %s", op, describeFaults(ins)), op, o)
				return d.log
			})
		})
	}
	opening(c)
	parsing(c)
}

// opening: the errors of NewDatabase.
func opening(c *Ctx) {
	family := []errors.StandardError{errors.ErrNewDatabase, errors.ErrNewDatabaseInvalidUser, errors.ErrNewDatabaseDuplicateUser, errors.ErrNewDatabaseDuplicateUserID, errors.ErrNewDatabaseDuplicateEmail, errors.ErrNewDatabaseDuplicateAPIKey}
	isOnly := func(v *V, what string, o Outcome, want errors.StandardError) {
		v.Count("evaluations", 1)
		v.State("distinct_nontrivial", what)
		if o.Panic != "" || o.Err == nil {
			v.Fail("open", "%s: %s", what, o)
			return
		}
		for _, e := range family {
			if stderrors.Is(o.Err, e) != (e == want) {
				v.Fail("open", "%s: the error %q should be recognised as %q", what, o.Err, string(want))
				return
			}
		}
	}
	user := func(id, name, mail, prefix string) string {
		return fmt.Sprintf(`{"id":"%s","username":"%s","email_addresses":[{"address":"%s"}],"passwords":[{"hash":"x"}],"api_keys":[{"prefix":"%s"}]}`, id, name, mail, prefix)
	}
	id := func(n int) string { return fmt.Sprintf("%08d-0000-4000-8000-000000000000", n) }
	first := user(id(1), "alice", "alice@example.com", "p1")
	files := map[string]struct {
		users string
		want  errors.StandardError
	}{
		"same username":             {first + "," + user(id(2), "alice", "bob@example.com", "p2"), errors.ErrNewDatabaseDuplicateUser},
		"same username, other case": {first + "," + user(id(2), "ALICE", "bob@example.com", "p2"), errors.ErrNewDatabaseDuplicateUser},
		"same id":                   {first + "," + user(id(1), "bob", "bob@example.com", "p2"), errors.ErrNewDatabaseDuplicateUserID},
		"same address":              {first + "," + user(id(2), "bob", "Alice@example.com", "p2"), errors.ErrNewDatabaseDuplicateEmail},
		"same prefix":               {first + "," + user(id(2), "bob", "bob@example.com", "p1"), errors.ErrNewDatabaseDuplicateAPIKey},
		"short id":                  {user("1", "alice", "alice@example.com", "p1"), errors.ErrNewDatabaseInvalidUser},
		"no name":                   {user(id(1), "", "alice@example.com", "p1"), errors.ErrNewDatabaseInvalidUser},
		"null":                      {"null", errors.ErrNewDatabaseInvalidUser},
		"no password":               {`{"id":"` + id(1) + `","username":"alice"}`, errors.ErrNewDatabaseInvalidUser},
	}
	c.Case("open", func(v *V) {
		w := NewWorld(c.Scratch)
		defer w.Close()
		for what, f := range files {
			writeFile(w.path, []byte(`{"version":"1","users":[`+f.users+`]}`))
			isOnly(v, what, w.Open(), f.want)
		}
		for _, s := range []string{"", "x", "[]", `{"users":1}`, `{`, "null x", "\xff"} {
			writeFile(w.path, []byte(s))
			isOnly(v, fmt.Sprintf("the text %q", s), w.Open(), errors.ErrNewDatabase)
		}
		isOnly(v, "a directory", w.OpenAt(w.root), errors.ErrNewDatabase)
		writeFile(filepath.Join(w.root, "f"), nil)
		isOnly(v, "below a file", w.OpenAt(filepath.Join(w.root, "f", "x.json")), errors.ErrNewDatabase)
		isOnly(v, "below a file, deeper", w.OpenAt(filepath.Join(w.root, "f", "g", "x.json")), errors.ErrNewDatabase)
	})
	for _, text := range []string{"", `{"version":"1.0.0","revision":3,"users":[]}`, `{"version":"1","users":[` + first + `]}`} {
		c.Case(fmt.Sprintf("open faults/%d", len(text)), func(v *V) {
			EnumerateFaults(c, v, 2, func(ins []injection) []FSEvent {
				w := NewWorld(c.Scratch)
				defer w.Close()
				if text != "" {
					writeFile(w.path, []byte(text))
				} else {
					w.path = filepath.Join(w.root, "a", "b", "users.json")
				}
				d := w.s.dev
				d.log, d.record = nil, true
				d.fault = planOf(ins)
				o := w.Open()
				d.fault, d.record = nil, false
				if o.Panic != "" {
					v.Fail("open", "%s: %s", describeFaults(ins), o)
				} else if o.Err != nil {
					isOnly(v, fmt.Sprintf("opening %q %s", text, describeFaults(ins)), o, errors.ErrNewDatabase)
				}
				return d.log
			})
		})
	}
}

// parsing: the errors of the constructors.
func parsing(c *Ctx) {
	c.Case("parsers", func(v *V) {
		try := func(what string, want errors.StandardError, err error) {
			v.Count("evaluations", 1)
			if err == nil {
				return
			}
			v.State("distinct_nontrivial", what)
			if !stderrors.Is(err, want) {
				v.Fail("parsers", "%s: the error %q is not recognised as %q", what, err, string(want))
			}
		}
		var alphabet = []string{"a", "@", ".", ",", "/", " ", "%", "\x00"}
		for n := 0; n <= 4; n++ {
			strs(alphabet, n, "", func(s string) {
				_, err := identity.NewEmailAddress(s)
				try(fmt.Sprintf("address %q", s), errors.ErrEmailAddressInvalid, err)
				_, err = identity.ParseName(s)
				try(fmt.Sprintf("name %q", s), errors.ErrParseNameFailed, err)
				_, err = identity.NewRole(s)
				try(fmt.Sprintf("role %q", s), errors.ErrRoleEmpty, err)
				try(fmt.Sprintf("roles %q", s), errors.ErrRoleEmpty, identity.NewUser("a").AddRoles([]string{"a", s}))
				try(fmt.Sprintf("user address %q", s), errors.ErrEmailAddressInvalid, identity.NewUser("a").AddEmailAddress(s))
				cc := identity.NewCreditCard()
				try(fmt.Sprintf("issuer %q", s), errors.ErrCreditCardUnsupportedIssuer, cc.AddIssuer(s))
				try(fmt.Sprintf("association %q", s), errors.ErrCreditCardUnsupportedAssociation, cc.AddAssociation(s))
			})
		}
		for _, blank := range []string{"", " ", "\t\n"} {
			_, err := identity.NewPassword(blank)
			if err == nil {
				v.Fail("parsers", "the password %q is accepted", blank)
			}
			try("blank password", errors.ErrPasswordEmpty, err)
		}
		for _, algo := range []string{"md5", "BCRYPT", "%s"} {
			_, err := identity.NewPasswordWithOptions("password", "generic", algo, nil)
			if err == nil {
				v.Fail("parsers", "the algorithm %q is accepted", algo)
			}
			try("algorithm "+algo, errors.ErrPasswordUnsupportedAlgorithm, err)
		}
		_, err := identity.NewPasswordWithOptions("password", "generic", "", nil)
		try("no algorithm", errors.ErrPasswordEmptyAlgorithm, err)
		for _, x := range []struct {
			usage, payload string
			want           errors.StandardError
		}{
			{"", "x", errors.ErrPublicKeyInvalidUsage}, {"api", fixtures["rsaA"]["pem"], errors.ErrPublicKeyInvalidUsage}, {"ssh", "", errors.ErrPublicKeyEmptyPayload}, {"gpg", "", errors.ErrPublicKeyEmptyPayload},
			{"ssh", "garbage", errors.ErrPublicKeyUsageUnsupported}, {"gpg", "garbage", errors.ErrPublicKeyUsageUnsupported}, {"ssh", fixtures["pgpA"]["armor"], errors.ErrPublicKeyUsagePayloadMismatch},
			{"gpg", fixtures["rsaA"]["pem"], errors.ErrPublicKeyUsagePayloadMismatch}, {"gpg", fixtures["rsaA"]["ssh"], errors.ErrPublicKeyUsagePayloadMismatch}, {"ssh", "ssh-rsa AAAA", errors.ErrPublicKeyParse}, {"ssh", "ssh-rsa ----", errors.ErrPublicKeyParse},
			{"ssh", "RSA PUBLIC KEY", errors.ErrPublicKeyBlockType}, {"ssh", strings.ReplaceAll(fixtures["rsaA"]["pem"], "RSA PUBLIC KEY", "RSA PUBLIC KEYS"), errors.ErrPublicKeyBlockType}, {"gpg", "-----BEGIN PGP PUBLIC KEY BLOCK-----", errors.ErrPublicKeyParse},
		} {
			r := requests.NewRequest()
			r.Key.Usage, r.Key.Payload = x.usage, x.payload
			_, err := identity.NewPublicKey(r)
			if err == nil {
				v.Fail("parsers", "the public key %q is accepted for %q", x.payload, x.usage)
			}
			try(fmt.Sprintf("public key %q %q", x.usage, x.payload), x.want, err)
		}
		for _, u := range []struct {
			u    *identity.User
			want errors.StandardError
		}{{nil, errors.ErrUserNull}, {&identity.User{}, errors.ErrUserIDInvalidLength}, {identity.NewUser(""), errors.ErrUsernameEmpty}, {identity.NewUser("alice"), errors.ErrUserPasswordNotFound}} {
			err := u.u.Valid()
			if err == nil {
				v.Fail("parsers", "the user %v is valid", u.u)
			}
			try(fmt.Sprintf("user %v", u.u), u.want, err)
		}
	})
}
