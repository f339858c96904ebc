package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C16", Level: "exploration", Quick: 420 * time.Second, Thorough: 14 * minute,
		Rule:        "a full database file in which every member and element is replaced by every value of a menu, removed, duplicated, or exchanged for what another user has there (for thorough: every pair of such changes of identifying members); every truncation of its text (for thorough: every byte replaced by every one of a menu); special files and paths; every fault while opening. What is accepted must be consistent and is subjected to every operation for every user. Non-trivial: files that are accepted",
		Assumptions: []string{"the bcrypt kernel is replaced, so a file that demands an enormous cost is not waited for", "special files other than directories and links are not explored"},
		Run:         runC16,
	})
}

// baseFile is the text of a database with three users and everything in it.
func baseFile(c *Ctx) ([]byte, []string) {
	r, bad := c.newRun(nil, append(populated(),
		Op{K: "adduser", Name: "dave", Email: "dave@example.com", Pw: pwC, Full: "Smith, Dave", Roles: []string{"a", "b/c"}},
		on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}),
		on("alice", Op{K: "addapi", Usage: "api", Comment: "off", Disabled: true})), wideUniverse())
	defer r.w.Close()
	if bad != "" {
		fatalf("base file: %s", bad)
	}
	b, err := os.ReadFile(r.w.path)
	if err != nil {
		fatalf("%v", err)
	}
	return b, r.w.secrets
}

// A node of a JSON tree: the path of keys and indices.
type jpath []interface{}

func (p jpath) String() string {
	s := ""
	for _, x := range p {
		s += fmt.Sprintf("/%v", x)
	}
	return s
}

func walk(v interface{}, p jpath, f func(p jpath, v interface{})) {
	cp := append(jpath{}, p...)
	f(cp, v)
	switch x := v.(type) {
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			walk(x[k], append(cp, k), f)
		}
	case []interface{}:
		for i := range x {
			walk(x[i], append(cp, i), f)
		}
	}
}

func getAt(v interface{}, p jpath) (interface{}, bool) {
	for _, k := range p {
		switch x := v.(type) {
		case map[string]interface{}:
			w, ok := x[k.(string)]
			if !ok {
				return nil, false
			}
			v = w
		case []interface{}:
			i, isInt := k.(int)
			if !isInt || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

// setAt returns the tree with the value at the path replaced; absent removes
// it.
func setAt(v interface{}, p jpath, val interface{}) interface{} {
	if len(p) == 0 {
		return val
	}
	switch x := v.(type) {
	case map[string]interface{}:
		k, ok := p[0].(string)
		if !ok {
			return v
		}
		out := map[string]interface{}{}
		for n, y := range x {
			out[n] = y
		}
		if len(p) == 1 && val == absent {
			delete(out, k)
		} else {
			out[k] = setAt(out[k], p[1:], val)
		}
		return out
	case []interface{}:
		i, ok := p[0].(int)
		if !ok || i >= len(x) {
			return v
		}
		out := append([]interface{}{}, x...)
		if len(p) == 1 && val == absent {
			return append(out[:i:i], out[i+1:]...)
		}
		out[i] = setAt(out[i], p[1:], val)
		return out
	}
	return v
}

// mutation is one change of the base document.
type mutation struct {
	name string
	f    func(doc interface{}) interface{}
}

func replace(p jpath, val interface{}) mutation {
	n := "absent"
	if val != absent {
		n = jsonOf(val)
		if len(n) > 50 {
			n = n[:50]
		}
	}
	return mutation{p.String() + "=" + n, func(doc interface{}) interface{} { return setAt(doc, p, val) }}
}

func openMutations(doc interface{}) []mutation {
	var out []mutation
	kinds := []interface{}{absent, nil, "", "x", "é\u0000", strings.Repeat("y", 36), strings.Repeat("z", 5000), 0, -1, 1, 1.5, 1e30, json.Number("9223372036854775807"), true, false,
		[]interface{}{}, []interface{}{nil}, []interface{}{nil, nil}, []interface{}{"x"}, []interface{}{obj{}}, obj{}, obj{"x": nil}, obj{"id": 7}, "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999+14:00"}
	walk(doc, nil, func(p jpath, v interface{}) {
		for _, k := range kinds {
			out = append(out, replace(p, k))
		}
		if s, ok := v.(string); ok {
			for _, t := range []string{strings.ToUpper(s), strings.Title(s), s + s, " " + s, s + "\n"} {
				out = append(out, replace(p, t))
			}
			if len(s) > 1 {
				out = append(out, replace(p, s[:len(s)-1]), replace(p, s[1:]))
			}
			for _, t := range []string{"$2a$31$abcdefghijklmnopqrstuuABCDEFGHIJKLMNOPQRSTUVWXYZ01234", "$2a$10$", "$2a$10$short", "$9z$10$abcdefghijklmnopqrstuuABCDEFGHIJKLMNOPQRSTUVWXYZ01234", "%s%d%!", "alice", "ALICE", "bob@example.com", "Bob", "u2f", "totp", "bcrypt", "rsa", "gpg", "api"} {
				out = append(out, replace(p, t))
			}
		}
		if l, ok := v.([]interface{}); ok {
			for i := range l {
				i := i
				for _, at := range []string{"end", "front", "twice"} {
					at := at
					out = append(out, mutation{fmt.Sprintf("%s/%d duplicated at the %s", p, i, at), func(doc interface{}) interface{} {
						x := l[i]
						switch at {
						case "end":
							return setAt(doc, p, append(append([]interface{}{}, l...), x))
						case "front":
							return setAt(doc, p, append([]interface{}{x}, l...))
						}
						return setAt(doc, p, append(append([]interface{}{}, l...), x, x))
					}})
				}
			}
			rev := []interface{}{}
			for i := range l {
				rev = append(rev, l[len(l)-1-i])
			}
			out = append(out, replace(p, rev))
		}
		// What the other users have at the same place.
		if len(p) >= 2 && p[0] == "users" {
			n := len(listOf(mapOf(doc)["users"]))
			for u := 0; u < n; u++ {
				q := append(jpath{"users", u}, p[2:]...)
				if u == p[1] {
					continue
				}
				w, ok := getAt(doc, q)
				if !ok {
					continue
				}
				out = append(out, mutation{fmt.Sprintf("%s as at %s", p, q), func(doc interface{}) interface{} { return setAt(doc, p, w) }})
				if s, ok := w.(string); ok {
					out = append(out, replace(p, strings.ToUpper(s)), replace(p, strings.Title(s)))
				}
				a, ok1 := v.([]interface{})
				b, ok2 := w.([]interface{})
				if ok1 && ok2 {
					out = append(out, mutation{fmt.Sprintf("%s with the elements of %s", p, q), func(doc interface{}) interface{} {
						return setAt(doc, p, append(append([]interface{}{}, a...), b...))
					}})
					out = append(out, mutation{fmt.Sprintf("%s moved to %s", p, q), func(doc interface{}) interface{} {
						return setAt(setAt(doc, q, append(append([]interface{}{}, b...), a...)), p, []interface{}{})
					}})
				}
			}
		}
	})
	return out
}

// identifying reports whether a path is that of a member on which the
// uniqueness of a database depends.
func identifying(p string) bool {
	for _, s := range []string{"/id", "/username", "/address", "/prefix"} {
		if strings.Contains(p, s+"=") || strings.Contains(p, s+" as at") {
			return !strings.Contains(p, "/public_keys/") && !strings.Contains(p, "/mfa_tokens/") && !strings.Contains(p, "api_keys/0/id") && !strings.Contains(p, "api_keys/1/id")
		}
	}
	return strings.Contains(p, "duplicated") && (strings.HasPrefix(p, "/users/0 ") || strings.Contains(p, "email_addresses") || strings.Contains(p, "api_keys"))
}

type opener struct {
	w       *World
	secrets []string
}

// try opens a text and judges the result. It reports whether it was accepted.
func (g *opener) try(v *V, key string, text []byte) bool {
	w := g.w
	for p := range fileContents(w.root) {
		os.Remove(p)
	}
	writeFile(w.path, text)
	w.s.hashCosts = w.s.hashCosts[:0]
	o := w.Open()
	v.Count("evaluations", 1)
	fail := func(f string, a ...interface{}) {
		shown := string(text)
		if len(shown) > 300 {
			shown = shown[:300] + "..."
		}
		v.Fail(key, "file: %s\n%s\n%s", key, fmt.Sprintf(f, a...), shown)
	}
	if o.Panic != "" {
		fail("opening: %s", o)
		return false
	}
	if !o.OK() {
		if b, err := os.ReadFile(w.path); err != nil || string(b) != string(text) {
			fail("opening fails (%s), but the file has changed", o)
		}
		return false
	}
	v.State("distinct_nontrivial", key)
	if bad := inconsistent(w.db); bad != "" {
		fail("accepted, but %s", bad)
		return true
	}
	if bad := g.exercise(v); bad != "" {
		fail("accepted, but %s", bad)
		return true
	}
	if bad := inconsistent(w.db); bad != "" {
		fail("after the operations %s", bad)
	} else if o := w.Open(); !o.OK() {
		fail("accepted, but after the operations the database cannot be reopened: %s", o)
	}
	return true
}

// inconsistent looks for duplicates.
func inconsistent(db *identity.Database) string {
	ids, names, mails, prefixes := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	dup := func(m map[string]bool, k string) bool {
		was := m[k]
		m[k] = true
		return was
	}
	for _, u := range db.Users {
		if u == nil {
			return "there is a null user"
		}
		if dup(ids, u.ID) {
			return "two users have the ID " + u.ID
		}
		if dup(names, strings.ToLower(u.Username)) {
			return "two users have the username " + u.Username
		}
		for _, a := range u.EmailAddresses {
			if a == nil {
				return "there is a null address"
			}
			if dup(mails, strings.ToLower(a.Address)) {
				return "the address " + a.Address + " occurs twice"
			}
		}
		for _, k := range u.APIKeys {
			if k == nil {
				return "there is a null API key"
			}
			if dup(prefixes, k.Prefix) {
				return "two API keys have the prefix " + k.Prefix
			}
		}
	}
	return ""
}

// exercise calls every operation for every user and reports a crash.
func (g *opener) exercise(v *V) string {
	w := g.w
	bad := ""
	call := func(what string, f func() error) {
		if bad != "" {
			return
		}
		o := w.Call(f)
		v.Count("transitions", 1)
		if o.Panic != "" {
			bad = fmt.Sprintf("%s crashes: %s", what, o.Panic)
		}
	}
	call("a policy summary", func() error {
		w.db.GetUsernamePolicySummary()
		w.db.GetUsernamePolicyRegex()
		w.db.GetPasswordPolicySummary()
		w.db.GetPasswordPolicyRegex()
		w.db.GetUserCount()
		return nil
	})
	users := append([]*identity.User{}, w.db.Users...)
	for i, u := range users {
		emails := []string{""}
		for _, a := range u.EmailAddresses {
			emails = append(emails, a.Address)
		}
		if len(emails) > 1 {
			emails = emails[1:]
		}
		if len(emails) > 2 {
			emails = emails[:2]
		}
		for _, email := range emails {
			tag := fmt.Sprintf(" for user %d (%.40q, %.40q)", i, u.Username, email)
			op := func(op Op, fill func(r *requests.Request)) *requests.Request {
				op.Name, op.Email = u.Username, email
				r := op.request(w)
				if fill != nil {
					fill(r)
				}
				call(op.K+tag, func() error { return dispatch(w.db, op.K, r) })
				return r
			}
			op(Op{K: "getusers"}, nil)
			if s, ok := op(Op{K: "getuser"}, nil).Response.Payload.(*identity.User); ok && s != nil {
				call("reading the user"+tag, func() error {
					s.GetFullName()
					s.GetNameClaim()
					s.GetMailClaim()
					s.GetRolesClaim()
					s.GetChallenges()
					s.HasRole("admin")
					s.GetMetadata()
					json.Marshal(s)
					return s.Valid()
				})
			}
			for _, name := range []string{u.Username, email} {
				for _, x := range []Op{{K: "identify"}, {K: "auth", Pw: pwB}, {K: "auth", Pw: ""}, {K: "authkey", Payload: "u2fA"}} {
					op(x, func(r *requests.Request) { r.User.Username = name })
				}
			}
			for _, s := range g.secrets {
				op(Op{K: "lookup"}, func(r *requests.Request) { r.Key.Payload = s })
			}
			for _, usage := range []string{"ssh", "gpg"} {
				if b, ok := op(Op{K: "getpk", Usage: usage}, nil).Response.Payload.(*identity.PublicKeyBundle); ok {
					for _, k := range b.Get() {
						op(Op{K: "delpk", Usage: usage}, func(r *requests.Request) { r.Key.ID = k.ID })
					}
				}
			}
			op(Op{K: "addpk", Usage: "ssh", Payload: "rsaC:pem", Comment: "new"}, nil)
			op(Op{K: "addapi", Usage: "api", Comment: "new"}, nil)
			op(Op{K: "addmfa", Payload: "totpC", Comment: "new app"}, nil)
			op(Op{K: "addmfa", Payload: "u2fB", Comment: "new key"}, nil)
			if b, ok := op(Op{K: "getapi", Usage: "api"}, nil).Response.Payload.(*identity.APIKeyBundle); ok {
				for _, k := range b.Get() {
					op(Op{K: "delapi", Usage: "api"}, func(r *requests.Request) { r.Key.ID = k.ID })
				}
			}
			if b, ok := op(Op{K: "getmfa"}, nil).Response.Payload.(*identity.MfaTokenBundle); ok {
				for _, k := range b.Get() {
					call("reading a token"+tag, func() error {
						if k.Type == "totp" {
							k.ValidateCode("123456")
						}
						return nil
					})
					op(Op{K: "delmfa"}, func(r *requests.Request) { r.MfaToken.ID = k.ID })
				}
			}
			for _, old := range []string{pwA, pwB, "changed-password"} {
				op(Op{K: "changepw", Old: old, Pw: "another-password"}, nil)
			}
			op(Op{K: "deluser"}, nil)
			op(Op{K: "adduser", Pw: pwC}, nil)
			op(Op{K: "adduser", Pw: pwC}, func(r *requests.Request) { r.User.Username += "new" })
			if bad != "" {
				return bad
			}
		}
	}
	call("adding a user", func() error {
		r := requests.NewRequest()
		r.User.Username, r.User.Email, r.User.Password = "newcomer", "newcomer@example.com", pwC
		return w.db.AddUser(r)
	})
	call("copying", func() error { return w.db.Copy(filepath.Join(w.root, "copy.json")) })
	call("saving", func() error { return w.db.Save() })
	return bad
}

func runC16(c *Ctx) {
	base, secrets := baseFile(c)
	var doc interface{}
	unmarshal(base, &doc)
	newOpener := func() *opener { return &opener{w: NewWorld(c.Scratch), secrets: secrets} }
	text := func(d interface{}) []byte {
		b, err := json.MarshalIndent(d, "", "  ")
		if err != nil {
			fatalf("%v", err)
		}
		return b
	}

	// Files that have to be accepted.
	c.Case("complete", func(v *V) {
		g := newOpener()
		defer g.w.Close()
		must := map[string][]byte{"as written": base, "reordered": text(doc), "compact": []byte(jsonOf(doc))}
		walk(doc, nil, func(p jpath, x interface{}) {
			if _, ok := x.(map[string]interface{}); ok && !strings.HasSuffix(p.String(), "parameters") && !strings.HasSuffix(p.String(), "flags") {
				must["unknown member in "+p.String()] = text(setAt(doc, append(append(jpath{}, p...), "unknown_member"), obj{"x": []interface{}{1, nil}}))
			}
		})
		keys := make([]string, 0, len(must))
		for k := range must {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if !g.try(v, k, must[k]) && !v.Failed() {
				v.Fail(k, "a complete file (%s) is refused", k)
			}
		}
	})

	muts := openMutations(doc)
	const chunk = 64
	for from := 0; from < len(muts); from += chunk {
		to := from + chunk
		if to > len(muts) {
			to = len(muts)
		}
		part := muts[from:to]
		c.Case("change/"+itoa(from/chunk), func(v *V) {
			g := newOpener()
			defer g.w.Close()
			for _, m := range part {
				if c.Expired() {
					return
				}
				ok := g.try(v, m.name, text(m.f(doc)))
				if ok && v.WantSample() {
					v.Sample(map[string]interface{}{"file": m.name, "accepted": ok})
				}
			}
		})
	}
	var ids []mutation
	for _, m := range muts {
		if identifying(m.name) {
			ids = append(ids, m)
		}
	}
	// Pairs of changes: quick takes those which give one user what another
	// has, thorough all changes of identifying members.
	if !c.Thorough {
		var few []mutation
		for _, m := range ids {
			if strings.Contains(m.name, " as at ") || strings.Contains(m.name, "duplicated at the end") {
				few = append(few, m)
			}
		}
		ids = few
	}
	for i := range ids {
		c.Case("pair/"+itoa(i), func(v *V) {
			g := newOpener()
			defer g.w.Close()
			for j := i + 1; j < len(ids); j++ {
				if c.Expired() {
					return
				}
				g.try(v, ids[i].name+" and "+ids[j].name, text(ids[j].f(ids[i].f(doc))))
			}
		})
	}

	// Truncations, and for thorough all replacements of a byte.
	const span = 512
	for from := 0; from < len(base); from += span {
		c.Case("truncated/"+itoa(from/span), func(v *V) {
			g := newOpener()
			defer g.w.Close()
			for n := from; n < from+span && n < len(base); n++ {
				if c.Expired() {
					return
				}
				if g.try(v, "truncated to "+itoa(n), base[:n]) && strings.TrimSpace(string(base[n:])) != "" {
					v.Fail(itoa(n), "the file truncated to %d of %d bytes is accepted", n, len(base))
				}
			}
		})
		if !c.Thorough {
			continue
		}
		c.Case("byte/"+itoa(from/span), func(v *V) {
			g := newOpener()
			defer g.w.Close()
			for n := from; n < from+span && n < len(base); n++ {
				for _, b := range []string{"", "\"", "\\", "{", "}", "[", "]", ",", ":", "0", "-", "e", " ", "\x00", "\xff", "é"} {
					if c.Expired() {
						return
					}
					if b == base0(base, n) {
						continue
					}
					g.try(v, fmt.Sprintf("byte %d replaced by %q", n, b), append(append(append([]byte{}, base[:n]...), b...), base[n+1:]...))
				}
			}
		})
	}

	c.Case("special", func(v *V) {
		g := newOpener()
		defer g.w.Close()
		deep := strings.Repeat("[", 20000) + strings.Repeat("]", 20000)
		user := jsonOf(listOf(mapOf(doc)["users"])[0])
		bob := jsonOf(listOf(mapOf(doc)["users"])[1])
		other := func(id string) string {
			return strings.Replace(user, mapOf(listOf(mapOf(doc)["users"])[0])["id"].(string), id, 1)
		}
		for i, s := range []string{
			"", " ", "\n", "null", "true", "0", "\"\"", "[]", "{}", "{", "}", "{}{}", "[{}]", "{\"users\":null}", "{\"users\":{}}", "{\"users\":[null]}", "{\"users\":[{}]}", "{\"users\":[[]]}", "{\"users\":\"\"}",
			"\xef\xbb\xbf{}", string(base) + string(base), string(base) + "x", string(base) + "\x00", "x" + string(base), deep, "{\"users\":" + deep + "}", "{\"x\":" + deep + "}",
			// Members that occur twice, and member names in another case.
			"{\"users\":[" + user + "],\"users\":[" + user + "," + user + "]}", "{\"users\":[" + user + "],\"Users\":[" + bob + "," + user + "]}", "{\"users\":[" + user + "," + bob + "],\"users\":[{\"username\":\"bob\"}]}",
			"{\"users\":[" + user + "," + bob + "],\"USERS\":[{\"email_addresses\":[{\"address\":\"bob@example.com\"}]}]}", "{\"users\":[" + user + "],\"users\":null}", "{\"users\":[" + user + "],\"users\":[null]}",
			"{\"USERS\":[" + user + "," + other("00000000-0000-4000-8000-000000000000") + "]}",
			"{\"policy\":{},\"policy\":null,\"users\":[" + bob + "]}", "{\"revision\":18446744073709551615,\"users\":[" + bob + "]}", "{\"revision\":-1}", "{\"revision\":18446744073709551616}", "{\"last_modified\":\"x\"}",
			"{\"path\":\"/nonexistent/x\",\"mu\":null,\"refUsername\":{\"alice\":null},\"users\":[" + bob + "]}",
		} {
			g.try(v, "special/"+itoa(i), []byte(s))
		}
	})

	// Large files, in which what must be unique occurs again anywhere.
	for _, cr := range c.crowdList() {
		for k := -1; k < 20; k++ {
			c.Case(fmt.Sprintf("crowd/%s/%d", cr.name, k), func(v *V) {
				r, bad := cr.run(c, &Universe{})
				r.w.Close()
				if bad != "" {
					v.Fail("", "%s", bad)
					return
				}
				g := &opener{w: NewWorld(c.Scratch), secrets: cr.secrets}
				defer g.w.Close()
				var doc interface{}
				unmarshal(cr.file, &doc)
				if k < 0 {
					if !g.try(v, cr.name, cr.file) && !v.Failed() {
						v.Fail("", "the file %s is refused", cr.name)
					}
					return
				}
				list := []jpath{{"users"}, {"users", 0, "api_keys"}}[k/10]
				x, _ := getAt(doc, list)
				n := len(listOf(x))
				p := [][2]int{{0, n - 1}, {n - 2, n - 1}, {n / 2, n - 1}, {1, n / 2}, {n - 1, 0}, {63, 64}, {64, 65}, {98, 101}, {3, 128}, {100, n - 1}}[k%10]
				if p[0] < 0 || p[1] < 0 || p[0] >= n || p[1] >= n || p[0] == p[1] {
					return
				}
				for _, f := range []string{"id", "username", "email_address", "email_addresses", "prefix", "api_keys", ""} {
					from, to := append(append(jpath{}, list...), p[0]), append(append(jpath{}, list...), p[1])
					if f != "" {
						from, to = append(from, f), append(to, f)
					}
					y, ok := getAt(doc, from)
					if !ok || f != "" && y == nil {
						continue
					}
					if c.Expired() {
						return
					}
					if s, ok := y.(string); ok && f == "username" {
						y = swapCase(s)
					}
					what := fmt.Sprintf("%s: %s as at %s", cr.name, to, from)
					if g.try(v, what, text(setAt(doc, to, y))) && !(len(list) > 1 && f == "id") && f != "email_address" && f != "api_keys" {
						v.Fail(what, "a file is accepted in which %s is the same as %s", to, from)
					}
				}
			})
		}
	}
	c.Case("paths", func(v *V) { pathCases(c, v) })

	// Faults while opening.
	noPolicy := setAt(doc, jpath{"policy"}, absent)
	files := []struct {
		name string
		text []byte
	}{
		{"complete", base}, {"no policy", text(noPolicy)},
		{"no policy, duplicate", text(setAt(noPolicy, jpath{"users", 1, "username"}, "ALICE"))},
		{"garbage", base[:len(base)/2]},
	}
	for _, f := range files {
		c.Case("faults/"+f.name, func(v *V) {
			EnumerateFaults(c, v, 2, func(ins []injection) []FSEvent {
				w := NewWorld(c.Scratch)
				defer w.Close()
				writeFile(w.path, f.text)
				d := w.s.dev
				d.record = true
				d.fault = planOf(ins)
				o := w.Open()
				d.fault, d.record = nil, false
				log := d.log
				b, err := os.ReadFile(w.path)
				if o.Panic != "" {
					v.Fail(describeFaults(ins), "opening a file (%s) %s: %s", f.name, describeFaults(ins), o)
				} else if !o.OK() && (err != nil || string(b) != string(f.text)) {
					v.Fail(describeFaults(ins), "opening a file (%s) %s fails (%s), and the file is changed", f.name, describeFaults(ins), o)
				} else if o.OK() && (f.name == "garbage" || strings.Contains(f.name, "duplicate")) {
					v.Fail(describeFaults(ins), "opening a file (%s) %s succeeds", f.name, describeFaults(ins))
				} else if !o.OK() && len(ins) == 0 && f.name != "garbage" && !strings.Contains(f.name, "duplicate") {
					v.Fail("", "opening a file (%s): %s", f.name, o)
				} else if o.OK() {
					if n := len(w.db.Users); n != 3 {
						v.Fail(describeFaults(ins), "opening a file (%s) %s succeeds with %d of 3 users", f.name, describeFaults(ins), n)
					}
				}
				return log
			})
		})
	}
}

func base0(b []byte, n int) string { return string(b[n : n+1]) }

// pathCases: paths which are no files.
func pathCases(c *Ctx, v *V) {
	w := NewWorld(c.Scratch)
	defer w.Close()
	cwd, _ := os.Getwd()
	dir := filepath.Join(w.root, "cwd")
	os.Mkdir(dir, 0700)
	os.Chdir(dir)
	defer os.Chdir(cwd)
	w.s.dev.cwd = dir
	home := os.Getenv("HOME")
	os.Setenv("HOME", w.root)
	defer os.Setenv("HOME", home)
	at := func(s string) string { return filepath.Join(w.root, s) }
	os.Mkdir(at("adir"), 0700)
	writeFile(at("file"), []byte("{}"))
	os.Symlink("adir", at("link-to-dir"))
	os.Symlink("loop", at("loop"))
	for _, p := range []string{
		at("adir"), at("adir") + "/", at("adir") + "/.", at("link-to-dir"), at("loop"), at("loop/x"), at("file/x.json"), at("file/sub/x.json"), at("file") + "/", ".", "..", "/", "~", "~/", "~/adir",
		at("nul\x00name"), at(strings.Repeat("n", 300)), at("sub/" + strings.Repeat("n", 300)), at(strings.Repeat("d/", 2500) + "x"), at("new/dir") + "/",
	} {
		before := fileContents(w.root)
		o := w.OpenAt(p)
		v.Count("evaluations", 1)
		name := p
		if len(name) > 80 {
			name = name[:80] + "..."
		}
		name = strconv.Quote(strings.Replace(name, w.root, "DIR", 1))
		if o.Panic != "" {
			v.Fail(name, "opening %s: %s", name, o)
		} else if o.OK() {
			v.Fail(name, "opening %s succeeds", name)
		}
		now := fileContents(w.root)
		for f, b := range before {
			if now[f] != b {
				v.Fail(name, "opening %s changed %s", name, f)
			}
		}
	}
	// Without a home directory, there is nothing relative to it.
	os.Setenv("HOME", "")
	for _, p := range []string{"~/x.json", "~", "~/", "~/new/x.json", "~x.json", "~/adir"} {
		before := fileContents(w.root)
		o := w.OpenAt(p)
		v.Count("evaluations", 1)
		if o.Panic != "" || o.OK() {
			v.Fail("homeless "+p, "opening %s without a home directory: %s", p, o)
		}
		if now := fileContents(w.root); fmt.Sprint(now) != fmt.Sprint(before) {
			v.Fail("homeless "+p, "opening %s without a home directory changed files", p)
		}
		if _, err := os.Lstat(filepath.Join(dir, "~")); err == nil {
			v.Fail("homeless "+p, "opening %s without a home directory created a file or directory named ~", p)
			os.RemoveAll(filepath.Join(dir, "~"))
		}
	}
	os.Setenv("HOME", w.root)
	// And paths which are.
	for _, p := range []string{at("new1.json"), at("n/e/w/2.json"), "new3.json", "./new4.json", "../new5.json", "~/new6.json", at("adir/../new7.json"), at("with space é.json"), at("link-to-dir/new8.json"), at("~new9.json")} {
		for i := 0; i < 2; i++ {
			o := w.OpenAt(p)
			v.Count("evaluations", 1)
			if !o.OK() {
				v.Fail(p, "opening %s (time %d): %s", p, i+1, o)
				continue
			}
			r := requests.NewRequest()
			r.User.Username, r.User.Email, r.User.Password = "alice", "alice@example.com", pwA
			o = w.Call(func() error { return w.db.AddUser(r) })
			if o.OK() != (i == 0) || o.Panic != "" {
				v.Fail(p, "%s, opened for time %d, adding the same user: %s", p, i+1, o)
			}
		}
	}
}
