package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// wideAlphabet has at least one successful operation of every kind.
func wideAlphabet() []Op {
	return append(changes(), []Op{
		on("bob", Op{K: "changepw", Old: pwB, Pw: pwA}), on("bob", Op{K: "delpk", Ref: 1}), on("bob", Op{K: "addapi", Usage: "api", Comment: "off", Disabled: true}),
		on("bob", Op{K: "addmfa", Payload: "u2fC", Comment: "off", Disabled: true}), on("bob", Op{K: "addpk", Usage: "ssh", Payload: "rsaA:pem", Disabled: true}),
		opSave, opReopen, faulty(uCarol, "enospc"), {K: "copy", Path: "copy.json"},
	}...)
}

// fullUser adds to a user of the file everything the file format has room for.
func fullUser(doc map[string]interface{}) {
	u := mapOf(listOf(doc["users"])[0])
	u["enabled"], u["human"], u["title"] = true, true, "Dr. <b> & \"Co\""
	name := obj{"first": "Al\u00efce", "last": "O'Neil", "middle": "M", "preferred": "Al", "nickname": true}
	u["name"] = name
	u["names"] = []interface{}{name, obj{"first": "B", "last": "C", "legal": true, "confirmed": true}}
	u["organization"] = obj{"id": 7, "name": "Corp"}
	u["organizations"] = []interface{}{obj{"id": 7, "name": "Corp"}}
	u["street_address"] = []interface{}{obj{"street": "1 Main", "city": "X", "state": "Y", "zip_code": "Z", "confirmed": true, "residential": true}}
	u["lockout"] = obj{"enabled": true, "start_time": "2020-01-01T00:00:00Z", "end_time": "2021-01-01T00:00:00.123456789Z"}
	u["avatar"] = obj{"title": "t", "path": "/a/b.png"}
	em := mapOf(listOf(u["email_addresses"])[0])
	em["confirmed"] = true
	listOf(u["email_addresses"])[0] = em
	u["email_addresses"] = append(listOf(u["email_addresses"]), obj{"address": "second@example.com", "domain": "example.com"})
	u["roles"] = []interface{}{obj{"name": "r", "organization": "o"}, obj{"name": "s"}}
	for _, k := range listOf(u["api_keys"]) {
		mapOf(k)["description"], mapOf(k)["tags"] = "d", "x"
	}
	for _, k := range listOf(u["public_keys"]) {
		mapOf(k)["description"] = "d"
	}
	pol := mapOf(doc["policy"])
	mapOf(pol["password"])["require_number"] = true
	mapOf(pol["password"])["block_reuse"] = true
	mapOf(pol["user"])["allow_uppercase"] = true
}

func init() {
	register(&Property{
		ID: "C08", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule: "every sequence over an alphabet with an operation of every kind up to the depth; after each, the live database, the reopened one and the one reopened again are compared in every query, authentication and stored attribute; plus every text of a menu in every text field, and home-relative paths",
		Run:  runC08,
	})
	register(&Property{
		ID: "C21", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule: "every sequence over an alphabet of changes, refusals, failures and queries up to the depth, monitoring revisions and modification times of the database, the file and every user on every step",
		Run:  runC21,
	})
	register(&Property{
		ID: "C23", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule: "every sequence of password changes (right, wrong, refused, failing) and reopenings up to the depth for each bound, and long chains; every stored hash is compared with the list of passwords of the model",
		Run:  runC23,
	})
	register(&Property{
		ID: "C24", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule: "results of every query taken before every operation of every sequence up to the depth, compared in everything readable with what they were when returned",
		Run:  runC24,
	})
}

// payloads runs every query and returns the results.
func (w *World) payloads(pairs [][2]string) []interface{} {
	var out []interface{}
	for _, p := range pairs {
		for _, q := range []Op{{K: "getuser"}, {K: "getusers"}, {K: "getpk", Usage: "ssh"}, {K: "getpk", Usage: "gpg"}, {K: "getapi", Usage: "api"}, {K: "getmfa"}} {
			q.Name, q.Email = p[0], p[1]
			o := w.Exec(q)
			if o.OK() {
				out = append(out, o.Payload)
			} else {
				out = append(out, o.String())
			}
		}
		o := w.Exec(Op{K: "identify", Name: p[0]})
		if o.OK() {
			out = append(out, o.Req.User, o.Req.Flags)
		} else {
			out = append(out, o.String())
		}
	}
	return out
}

func dumpAll(l []interface{}) string {
	var s []string
	for _, x := range l {
		s = append(s, dump(x))
	}
	return strings.Join(s, "\n")
}

func policyTexts(db *identity.Database) string {
	return fmt.Sprintf("%q %q %q %q", db.GetUsernamePolicySummary(), db.GetUsernamePolicyRegex(), db.GetPasswordPolicySummary(), db.GetPasswordPolicyRegex())
}

func everything(w *World, pairs [][2]string) string {
	s := dumpAll(w.payloads(pairs))
	o := w.Call(func() error { s += "\n" + policyTexts(w.db); return nil })
	s += "\n" + dump(w.db.Policy) + "\n" + w.db.Version + "\n" + dump(w.db.Users)
	return s + o.String()
}

func runC08(c *Ctx) {
	un := wideUniverse()
	pairs := pairsOf("alice", "bob", "carol", "dave")
	deep := func(v *V, r *Run, op Op, res Result, o Outcome) {
		live := everything(r.w, pairs)
		db := r.w.db
		path := r.w.path
		defer func() { r.w.db = db }()
		for n := 1; n <= 3; n++ {
			if o := r.w.OpenAt(path); !o.OK() {
				v.Fail(choiceStringOps(r), "after\n%s\nopening the file for the %d. time: %s", traceString(r.trace), n, o)
				return
			}
			if now := everything(r.w, pairs); now != live {
				v.Fail(choiceStringOps(r), "after\n%s\nthe database opened for the %d. time differs from the live one:\n%s", traceString(r.trace), n, firstDiff(live, now))
				return
			}
		}
		if o := r.w.Exec(Op{K: "getpath"}); o.Payload != path {
			v.Fail(choiceStringOps(r), "the path is %v", o.Payload)
		}
	}
	alpha := wideAlphabet()
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.Explore(&Seq{Name: "wide", Prelude: populated(), Alphabet: alpha, Depth: depth, Un: un, Check: deep})
	c.Explore(&Seq{Name: "empty", Alphabet: append([]Op{uAlice, uBob}, alpha...), Depth: depth, Un: un, Check: deep})
	c.Crowds(alpha, Seq{Check: deep})
	c.lengthCases(pairs)
	// Files with every attribute the format has room for.
	for i, op := range alpha {
		c.Case("attributes/"+itoa(i), func(v *V) {
			r, bad := c.newRun(nil, populated(), un)
			defer r.w.Close()
			if bad != "" {
				v.Fail("", "%s", bad)
				return
			}
			r.w.editFile(fullUser)
			if o := r.w.Open(); !o.OK() {
				v.Fail("", "opening a file with all attributes: %s", o)
				return
			}
			want, err := r.w.File(r.w.path)
			if err != nil {
				fatalf("%v", err)
			}
			if op.Fault == "" {
				if o := r.w.Exec(op); !o.OK() {
					v.Fail("", "%s: %s", op, o)
					return
				}
			} else {
				r.w.Exec(op)
			}
			v.Count("transitions", 1)
			v.Count("traces_validated_against_impl", 1)
			deep(v, r, op, Result{}, Outcome{})
			// What the operation did not concern is still in the file.
			if op.K != "copy" {
				got, err := r.w.File(r.w.path)
				if err != nil {
					v.Fail("", "%v", err)
					return
				}
				for _, k := range []string{"enabled", "human", "title", "name", "names", "organization", "organizations", "street_address", "email_address", "email_addresses", "lockout", "avatar", "roles", "id", "username", "created"} {
					a, b := mapOf(listOf(want["users"])[0])[k], mapOf(listOf(got["users"])[0])[k]
					if !contains(b, a) {
						v.Fail("", "after %s the attribute %s of a user changed from %s to %s", op, k, jsonOf(a), jsonOf(b))
					}
				}
				if a, b := jsonOf(want["policy"]), jsonOf(got["policy"]); a != b {
					v.Fail("", "after %s the policy changed from %s to %s", op, a, b)
				}
			}
		})
	}
	// Texts.
	texts := []string{"plain", "\"quoted\"", "back\\slash", "<a>&amp;", "ümläut-日本", "emoji 😀", "u2028\u2028x", "tab\tnew\nline", "ctrl\x01\x7f", "'sq' `bq`", "%s %d %!v", strings.Repeat("long ", 2000),
		"trailing ", " leading", "\u00a0nbsp\u00a0", "e\u0301 combining", "\ufeffbom", "\ufffd replacement", "null", "{}", "\xff invalid",
		// Texts that are escapes in some notation.
		`\u0026 x`, `\u003cb\u003e`, `\\u0026`, `a\nb\tc`, `\"x\"`, `\ud800`, `\x41 \101`, `&lt;&#38;&amp;`, "%41%00%2B+", "=?utf-8?q?x?=", "$HOME ${HOME} $(id)", "{{.}} {{x}}", "a\r\nb\rc", "x\u0085y\u2029z", "\u00ad\u200b\u202e", "YQ==", "~/x", "../../x", "x: y # z", "true", "0123", "1e3"}
	fields := []string{"username", "password", "role", "fullname", "api", "ssh", "gpg", "totp-comment", "totp-secret", "u2f-comment", "u2f-challenge"}
	for _, field := range fields {
		for _, text := range texts {
			label := text
			if len(label) > 16 {
				label = label[:16]
			}
			c.Case(fmt.Sprintf("text/%s/%s", field, quote(label)), func(v *V) { textCase(c, v, field, text, pairs) })
		}
	}
	// Home-relative paths.
	for i, p := range []string{"~/users.json", "~/deep/er/users.json", "~users.json"} {
		c.Case("home/"+itoa(i), func(v *V) {
			r := &Run{w: NewWorld(c.Scratch), m: NewModel(), un: un, data: map[string]interface{}{}}
			defer r.w.Close()
			os.Setenv("HOME", r.w.root)
			real := filepath.Join(r.w.root, p[1:])
			cwd, _ := os.Getwd()
			if o := r.w.OpenAt(p); !o.OK() {
				v.Fail("", "opening %s: %s", p, o)
				return
			}
			for _, op := range []Op{uAlice, on("alice", Op{K: "addapi", Usage: "api", Comment: "k"})} {
				if _, _, bad := r.step(op); bad != "" {
					v.Fail("", "%s: %s", p, bad)
				}
				if _, err := os.Stat(real); err != nil {
					v.Fail("", "%s: %v", p, err)
				}
				if _, err := os.Stat(filepath.Join(cwd, "~")); err == nil {
					v.Fail("", "a file or directory named ~ was created")
				}
				live := everything(r.w, pairs)
				for _, q := range []string{p, real, p} {
					if o := r.w.OpenAt(q); !o.OK() {
						v.Fail("", "reopening %s: %s", q, o)
						return
					}
					if x := r.observe(); x != "" {
						v.Fail("", "%s: %s", q, x)
					}
					if now := everything(r.w, pairs); now != live {
						v.Fail("", "%s reopened as %s differs:\n%s", p, q, firstDiff(live, now))
					}
				}
				r.w.OpenAt(p)
			}
			// The file stays the same when the home directory does not.
			for _, home := range []string{filepath.Join(r.w.root, "elsewhere"), ""} {
				os.Setenv("HOME", home)
				if _, _, bad := r.step(on("alice", Op{K: "addapi", Usage: "api", Comment: "home " + home})); bad != "" {
					v.Fail("", "%s, with the home directory %q: %s", p, home, bad)
				}
				live := everything(r.w, pairs)
				db := r.w.db
				if o := r.w.OpenAt(real); !o.OK() {
					v.Fail("", "reopening %s: %s", real, o)
				} else if now := everything(r.w, pairs); now != live {
					v.Fail("", "%s, changed with the home directory %q, differs when reopened:\n%s", p, home, firstDiff(live, now))
				}
				r.w.db = db
				if _, err := os.Lstat(filepath.Join(r.w.root, "elsewhere")); err == nil {
					v.Fail("", "files were created in the new home directory")
				}
			}
			os.Setenv("HOME", r.w.root)
			// Saving goes to the same file.
			before, _ := os.ReadFile(real)
			if o := r.w.Exec(opSave); !o.OK() {
				v.Fail("", "saving %s: %s", p, o)
			}
			if after, _ := os.ReadFile(real); string(before) == string(after) {
				v.Fail("", "saving did not write %s", real)
			}
		})
	}
	danglingLinks(c, un)
	// Symbolic links and relative paths.
	c.Case("link", func(v *V) {
		r := &Run{w: NewWorld(c.Scratch), m: NewModel(), un: un, data: map[string]interface{}{}}
		defer r.w.Close()
		os.Mkdir(filepath.Join(r.w.root, "real"), 0700)
		link := filepath.Join(r.w.root, "link.json")
		os.Symlink("real/users.json", link)
		if o := r.w.OpenAt(filepath.Join(r.w.root, "real/users.json")); !o.OK() {
			v.Fail("", "%s", o)
			return
		}
		if o := r.w.OpenAt(link); !o.OK() {
			v.Fail("", "%s", o)
			return
		}
		for _, op := range []Op{uAlice, uBob} {
			if _, _, bad := r.step(op); bad != "" {
				v.Fail("", "%s", bad)
			}
			for _, p := range []string{filepath.Join(r.w.root, "real/users.json"), link} {
				if o := r.w.OpenAt(p); !o.OK() {
					v.Fail("", "%s: %s", p, o)
				} else if x := r.observe(); x != "" {
					v.Fail("", "%s: %s", p, x)
				}
			}
		}
	})
}

// danglingLinks opens the database through links to a file that does not exist
// yet, and copies to such a link.
func danglingLinks(c *Ctx, un *Universe) {
	for _, kind := range []string{"relative", "absolute", "chain", "through a linked directory"} {
		for round := 0; round < 2; round++ {
			c.Case(fmt.Sprintf("dangling/%s/%d", kind, round), func(v *V) {
				r := &Run{w: NewWorld(c.Scratch), m: NewModel(), un: un, data: map[string]interface{}{}}
				defer r.w.Close()
				os.Mkdir(filepath.Join(r.w.root, "real"), 0700)
				os.Mkdir(filepath.Join(r.w.root, "links"), 0700)
				real, link := filepath.Join(r.w.root, "real/other.json"), filepath.Join(r.w.root, "links/link.json")
				switch kind {
				case "relative":
					os.Symlink("../real/other.json", link)
				case "absolute":
					os.Symlink(real, link)
				case "chain":
					os.Symlink("../real/other.json", filepath.Join(r.w.root, "links/second"))
					os.Symlink("second", link)
				default:
					os.Symlink("../real", filepath.Join(r.w.root, "links/dir"))
					os.Symlink("dir/other.json", link)
				}
				var o Outcome
				if round == 0 {
					o = r.w.OpenAt(link)
				} else {
					if o = r.w.Open(); o.OK() {
						for _, op := range []Op{uAlice, uBob} {
							if _, _, bad := r.step(op); bad != "" {
								v.Fail(kind, "%s", bad)
							}
						}
						o = r.w.Call(func() error { return r.w.db.Copy(link) })
					}
				}
				if !o.OK() {
					v.Fail(kind, "%s", o)
					return
				}
				check := func() {
					for _, p := range []string{real, link} {
						if o := r.w.OpenAt(p); !o.OK() {
							v.Fail(kind, "%s: %s", p, o)
						} else if x := r.observe(); x != "" {
							v.Fail(kind, "%s: %s", p, x)
						}
					}
					if s, err := os.Readlink(link); err != nil || s == "" {
						v.Fail(kind, "the link has been replaced: %v", err)
					}
				}
				check()
				if round == 0 {
					for _, op := range []Op{uAlice, uBob} {
						if _, _, bad := r.step(op); bad != "" {
							v.Fail(kind, "%s", bad)
						}
						check()
					}
				}
			})
		}
	}
}

// textCase stores a text in a field and compares the reopened database.
func textCase(c *Ctx, v *V, field, text string, pairs [][2]string) {
	w := NewWorld(c.Scratch)
	defer w.Close()
	if o := w.Open(); !o.OK() {
		v.Fail("", "%s", o)
		return
	}
	name, pw, full := "alice", pwA, ""
	var roles []string
	switch field {
	case "username":
		name = text
		if len(name) > 50 {
			name = name[:50]
		}
	case "password":
		pw = text + "padding1"
		if len(pw) > 128 {
			pw = pw[:72]
		}
	case "role":
		roles = []string{text, "org/" + text}
	case "fullname":
		full = "L" + text + ", F" + text
	}
	u := Op{K: "adduser", Name: name, Email: "alice@example.com", Pw: pw, Full: full, Roles: roles}
	var ops []Op
	at := func(op Op) Op {
		op.Name, op.Email = name, "alice@example.com"
		return op
	}
	ops = append(ops, u)
	switch field {
	case "api":
		ops = append(ops, at(Op{K: "addapi", Usage: "api", Comment: text}))
	case "ssh":
		ops = append(ops, at(Op{K: "addpk", Usage: "ssh", Payload: "rsaA:ssh", Comment: text}))
	case "ssh-own":
		ops = append(ops, at(Op{K: "addpk", Usage: "ssh", Payload: fixtureKey("rsaA:ssh") + " " + text}))
	case "gpg":
		ops = append(ops, at(Op{K: "addpk", Usage: "gpg", Payload: "pgpA", Comment: text}))
	case "totp-comment":
		ops = append(ops, at(Op{K: "addmfa", Payload: "totpA", Comment: text}))
	case "u2f-comment":
		ops = append(ops, at(Op{K: "addmfa", Payload: "u2fA", Comment: text}))
	case "totp-secret":
		mfaSpecs["tmp"] = mfaSpec{Type: "totp", Secret: text, Algo: "sha1", Period: 30, Digits: 6, Valid: true}
		ops = append(ops, at(Op{K: "addmfa", Payload: "tmp", Comment: "c"}))
	case "u2f-challenge":
		mfaSpecs["tmp"] = mfaSpec{Type: "u2f", Key: "u2fA", Chal: text, Valid: true}
		ops = append(ops, at(Op{K: "addmfa", Payload: "tmp", Comment: "c"}))
	}
	pr := [][2]string{{name, "alice@example.com"}}
	look := func() string {
		s := everything(w, pr)
		for _, q := range []Op{{K: "auth", Name: name, Pw: pw}, {K: "auth", Name: "alice@example.com", Pw: pw}} {
			o := w.Exec(q)
			s += fmt.Sprintf("\nauthenticates: %v", o.OK())
		}
		return s
	}
	before := look()
	stored := false
	for _, op := range ops {
		o := w.Exec(op)
		v.Count("transitions", 1)
		if o.Panic != "" {
			v.Fail("", "%s with %q: %s", field, text, o)
			return
		}
		if !o.OK() && op.K == "adduser" && len(ops) > 1 {
			fatalf("%s", o)
		}
		if o.OK() {
			v.Count("texts_stored", 1)
			stored = op.K != "adduser" || field == "role" || field == "fullname"
		}
	}
	live := look()
	_ = before
	// The text must be there.
	if stored && plainText(text) && !strings.Contains(live, text) {
		v.Fail("", "%s is %.100q of %d bytes, which is nowhere in what the database holds", field, text, len(text))
		return
	}
	v.State("states", field+text)
	v.Count("traces_validated_against_impl", 1)
	for n := 0; n < 2; n++ {
		if o := w.Open(); !o.OK() {
			v.Fail("", "%s is %q: reopening: %s", field, text, o)
			return
		}
		if now := look(); now != live {
			v.Fail("", "%s is %q: the reopened database differs from the live one:\n%s", field, text, firstDiff(live, now))
			return
		}
	}
}

// --- C21 -------------------------------------------------------------------

type revs struct {
	db    uint64
	mod   time.Time
	users map[string][2]int64
}

func revisions(w *World, users []*mUser) revs {
	x := revs{db: w.db.Revision, mod: w.db.LastModified, users: map[string][2]int64{}}
	for _, u := range users {
		if s := w.Snapshot(u.Name, u.Email); s != nil {
			x.users[u.Name] = [2]int64{int64(s.Revision), s.LastModified.UnixNano()}
		}
	}
	return x
}

func fileRevision(p string) (uint64, time.Time) {
	b, err := os.ReadFile(p)
	if err != nil {
		return 0, time.Time{}
	}
	var d struct {
		Revision     uint64    `json:"revision"`
		LastModified time.Time `json:"last_modified"`
	}
	unmarshal(b, &d)
	return d.Revision, d.LastModified
}

func runC21(c *Ctx) {
	un := &Universe{Sections: sections("count")}
	queries := []Op{
		on("alice", Op{K: "getuser"}), on("alice", Op{K: "getusers"}), on("alice", Op{K: "getpk", Usage: "ssh"}), on("alice", Op{K: "getapi", Usage: "api"}), on("alice", Op{K: "getmfa"}),
		{K: "auth", Name: "alice", Pw: pwA}, {K: "auth", Name: "alice", Pw: "wrong-password"}, {K: "authkey", Name: "alice", Payload: "u2fA"}, {K: "identify", Name: "alice"}, {K: "lookup", Ref: 0}, {K: "lookup", Ref: 1}, {K: "count"}, {K: "getpath"},
	}
	alpha := append(wideAlphabet(), queries...)
	alpha = append(alpha, on("alice", Op{K: "changepw", Old: pwB, Pw: "changed-password"}), on("alice", Op{K: "delapi", Ref: -1}), on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaA:pem"}),
		on("alice", Op{K: "addmfa", Payload: "totpA", Comment: "z"}), faulty(on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}), "enospc"),
		faulty(on("alice", Op{K: "delapi", Ref: 0}), "short"), faulty(opSave, "enospc"), faulty(Op{K: "copy", Path: "copy.json"}, "enospc"))
	monitor := func(v *V, r *Run, op Op, res Result, o Outcome) {
		old := r.data["revs"].(revs)
		now := revisions(r.w, r.m.Users)
		fail := func(f string, a ...interface{}) {
			v.Fail(choiceStringOps(r), "after\n%s\n%s", traceString(r.trace), fmt.Sprintf(f, a...))
		}
		target := ""
		switch {
		case !o.OK():
		case op.K == "adduser", op.K == "save":
			target = r.w.path
		case op.K == "copy":
			target = r.w.target(op.Path)
		case strings.HasPrefix(op.K, "add"), strings.HasPrefix(op.K, "del"), op.K == "changepw":
			target = r.w.path
		}
		if op.K == "reopen" {
			if rev, mod := fileRevision(r.w.path); now.db != rev || !mod.Equal(now.mod) {
				fail("the reopened database has revision %d of %s, its file %d of %s", now.db, now.mod, rev, mod)
			}
		} else if target != "" {
			rev, mod := fileRevision(target)
			if now.db <= old.db || rev <= old.db {
				fail("the revision was %d; now it is %d in memory and %d in the file written", old.db, now.db, rev)
			}
			if now.mod.Before(old.mod) || mod.Before(old.mod) || !now.mod.After(old.mod) {
				fail("the modification time was %s; now it is %s in memory and %s in the file written", old.mod, now.mod, mod)
			}
		} else if now.db != old.db || !now.mod.Equal(old.mod) {
			fail("the operation changed nothing, but the revision went from %d of %s to %d of %s", old.db, old.mod, now.db, now.mod)
		}
		for n, a := range old.users {
			b := now.users[n]
			if target != "" && op.K != "adduser" && op.K != "save" && op.K != "copy" && strings.EqualFold(op.Name, n) {
				if b[0] <= a[0] || b[1] <= a[1] {
					fail("user %s was changed; revision %d of %d became %d of %d", n, a[0], a[1], b[0], b[1])
				}
			} else if a != b {
				fail("user %s was not changed, but revision %d of %d became %d of %d", n, a[0], a[1], b[0], b[1])
			}
		}
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	slow := func(r *Run) { r.w.s.tick = int64(time.Second) }
	before := func(r *Run) { r.data["revs"] = revisions(r.w, r.m.Users) }
	seq := Seq{Name: "revisions", Start: slow, Prelude: populated(), Alphabet: alpha, Depth: depth, Un: un, NoReopen: true, Before: before,
		Check: func(v *V, r *Run, op Op, res Result, o Outcome) {
			if op.K != "" {
				monitor(v, r, op, res, o)
			}
		}}
	c.Explore(&seq)
	seq.Prelude = nil
	c.Crowds(alpha, seq)
	// High revisions, in the file from the start or reached.
	for i := 0; i < 2*15; i++ {
		rev := []uint64{0, 127, 255, 256, 999, 32767, 65535, 1<<24 - 1, 1<<31 - 1, 1<<32 - 1, 1<<53 - 1, 1 << 53, 1<<63 - 1, 1 << 63, 1<<64 - 100}[i/2]
		of := []string{"database", "users"}[i%2]
		if of == "users" && rev >= 1<<63-1 {
			rev = 1<<63 - 100 - rev%2
		}
		c.Case("high/"+of+"/"+itoa(i/2), func(v *V) {
			for _, op := range alpha {
				cr := *crowdOf("none", 0)
				r, bad := cr.run(c, un)
				if bad == "" {
					slow(r)
					b, _ := os.ReadFile(r.w.path)
					pad := map[string]string{"database": "  ", "users": "      "}[of]
					was := regexp.MustCompile(`(?m)^` + pad + `"revision": [0-9]+`)
					if !was.Match(b) {
						fatalf("no revision in the file")
					}
					writeFile(r.w.path, was.ReplaceAll(b, []byte(fmt.Sprintf(`%s"revision": %d`, pad, rev))))
					bad = r.w.Open().String()
				}
				if bad != "ok" {
					v.Fail("", "a file of revision %d: %s", rev, bad)
					r.w.Close()
					return
				}
				for n := 0; n < 2; n++ {
					before(r)
					if x := r.data["revs"].(revs); n == 0 && of == "database" && x.db != rev {
						v.Fail("", "a file of revision %d is opened as one of revision %d", rev, x.db)
					} else if n == 0 && of == "users" {
						for _, u := range r.m.Users {
							if s := r.w.Snapshot(u.Name, u.Email); s == nil || s.Revision != int(rev) {
								v.Fail("", "a file in which user %s has revision %d is opened as %+v", u.Name, rev, s)
							}
						}
					}
					res, o, bad := r.step(op)
					v.Count("transitions", 1)
					v.State("states", fmt.Sprint(rev, op, n))
					if n == 0 && bad != "" {
						v.Fail("", "revision %d: %s: %s", rev, op, bad)
					}
					monitor(v, r, op, res, o)
				}
				r.w.Close()
			}
		})
	}
	n := c.size(700, 70000)
	c.Case("many", func(v *V) {
		r, bad := c.newRun(nil, []Op{uAlice, uBob}, un)
		defer r.w.Close()
		slow(r)
		r.m.nAPI = 1 << 30 // in effect: not followed
		cur, keys := pwA, 0
		for i := 0; i < n && bad == "" && !v.Failed() && !c.Expired(); i++ {
			var op Op
			switch i % 6 {
			case 0, 3:
				next := "password-" + itoa(i%12)
				op, cur = on("alice", Op{K: "changepw", Old: cur, Pw: next}), next
			case 1:
				op, keys = on("alice", Op{K: "addapi", Usage: "api", Comment: "k"}), keys+1
			case 2:
				op = on("alice", Op{K: "delapi", Ref: keys - 1})
			case 4:
				op = opSave
			case 5:
				op = on("alice", Op{K: "getuser"})
			}
			before(r)
			o := r.w.Exec(op)
			r.trace = append(r.trace[max(0, len(r.trace)-30):], op)
			v.Count("transitions", 1)
			if !o.OK() {
				v.Fail("many", "operation %d, %s: %s", i, op, o)
				return
			}
			monitor(v, r, op, Result{}, o)
			if i%500 == 0 {
				r.w.apiIDs, r.w.secrets, keys = nil, nil, 0
				r.w.s.hashCosts = r.w.s.hashCosts[:0]
			}
		}
		v.Count("traces_validated_against_impl", 1)
	})
}

// --- C23 -------------------------------------------------------------------

func historyCheck(v *V, r *Run, what string) {
	for _, u := range r.m.Users {
		s := r.w.Snapshot(u.Name, u.Email)
		if s == nil {
			v.Fail(what, "%s: no such user %s", what, u.Name)
			return
		}
		fail := func(f string, a ...interface{}) {
			v.Fail(what, "after\n%s\n%s: %s", traceString(r.trace), u.Name, fmt.Sprintf(f, a...))
		}
		if len(s.Passwords) != len(u.Pws) {
			fail("%d passwords are kept, expected %d", len(s.Passwords), len(u.Pws))
			return
		}
		for i, p := range s.Passwords {
			if i == 0 && (p.Disabled || p.Expired) {
				fail("the current password is marked disabled %v, expired %v", p.Disabled, p.Expired)
			}
			if i > 0 && (!p.Disabled || !p.Expired) {
				fail("earlier password %d is marked disabled %v, expired %v", i, p.Disabled, p.Expired)
			}
			if i > 0 && (p.DisabledAt.IsZero() || p.ExpiredAt.IsZero()) {
				fail("earlier password %d has no time of its end", i)
			}
			match := false
			if o := r.w.Call(func() error { match = p.Match(u.Pws[i]); return nil }); !o.OK() || !match {
				fail("password %d is not the one expected", i)
			}
		}
	}
}

func runC23(c *Ctx) {
	un := &Universe{Logins: []string{"alice"}, Pws: []string{"password-0", "password-1", "password-2", "password-3", "password-4"}, Sections: sections("auth")}
	chg := func(old, pw string) Op { return on("alice", Op{K: "changepw", Old: old, Pw: pw}) }
	for _, keep := range []int{1, 2, 3, 10} {
		pol := &mPolicy{3, 50, 8, 128, keep}
		// Operations given by the model's current password.
		ops := []Op{{K: "to", Pw: "password-1"}, {K: "to", Pw: "password-2"}, {K: "to", Pw: "password-0"}, {K: "fail", Pw: "password-3"}, {K: "wrong", Pw: "password-4"}, {K: "refused", Pw: "short"}, opReopen}
		depth := 4
		if c.Thorough {
			depth = 6
		}
		c.Explore(&Seq{Name: "history" + itoa(keep), Policy: pol, Prelude: []Op{addUser("alice", "alice@example.com", "password-0"), uBob}, Alphabet: ops, Depth: depth, Un: un,
			Step: func(r *Run, op Op) string {
				cur := r.m.Users[0].Pws[0]
				var x Op
				switch op.K {
				case "to":
					x = chg(cur, op.Pw)
				case "fail":
					x = faulty(chg(cur, op.Pw), "enospc")
				case "wrong":
					x = chg(cur+"x", op.Pw)
				case "refused":
					x = chg(cur, op.Pw)
				default:
					x = op
				}
				r.trace[len(r.trace)-1] = x
				return compareResult(x, r.m.Apply(x), r.w.Exec(x))
			},
			Check: func(v *V, r *Run, op Op, res Result, o Outcome) { historyCheck(v, r, choiceStringOps(r)) },
		})
	}
	for _, keep := range []int{0, 1, 5, 10, 25} {
		for _, every := range []int{0, 1, 4} {
			c.Case(fmt.Sprintf("chain/%d/%d", keep, every), func(v *V) {
				pol := mPolicy{3, 50, 8, 128, keep}
				r := &Run{w: NewWorld(c.Scratch), m: NewModel(), un: un, data: map[string]interface{}{}}
				defer r.w.Close()
				r.m.Policy = pol
				writePolicyFile(r.w.path, pol)
				if keep == 0 {
					r.m.Policy.Keep = 10
				}
				r.w.Open()
				prev := "password-0"
				if _, _, bad := r.step(addUser("alice", "alice@example.com", prev)); bad != "" {
					v.Fail("", "%s", bad)
					return
				}
				r.step(uBob)
				for n := 1; n <= 28; n++ {
					pw := fmt.Sprintf("password-%d", n)
					if _, _, bad := r.step(chg(prev, pw)); bad != "" {
						v.Fail(itoa(n), "%s", bad)
						return
					}
					v.Count("transitions", 1)
					v.State("states", fmt.Sprint(keep, n))
					prev = pw
					if every > 0 && n%every == 0 {
						if o := r.w.Open(); !o.OK() {
							v.Fail(itoa(n), "reopening: %s", o)
							return
						}
					}
					historyCheck(v, r, itoa(n))
					if v.Failed() {
						return
					}
				}
				v.Count("traces_validated_against_impl", 1)
			})
		}
	}
	for _, keep := range []int{1, 10, 100, 300} {
		n := c.size(320, 1100)
		c.Grow(&growth{name: "history-" + itoa(keep), policy: &mPolicy{3, 50, 8, 128, keep}, n: n, prelude: []Op{addUser("alice", "alice@example.com", "password-0"), uBob},
			op: func(r *Run, i int) []Op {
				l := []Op{chg("password-"+itoa(i-1), "password-"+itoa(i)), chg("password-"+itoa(i-1), "password-x")}
				if i%50 == 49 {
					l = append(l, opReopen)
				}
				return l
			},
			checkV: func(v *V, r *Run, i int) { historyCheck(v, r, itoa(i)) }})
	}
	// A file that keeps more than the policy allows.
	for keep := 1; keep <= 3; keep++ {
		c.Case("lowered/"+itoa(keep), func(v *V) {
			r, bad := c.newRun(nil, []Op{addUser("alice", "alice@example.com", "password-0"), chg("password-0", "password-1"), chg("password-1", "password-2"), chg("password-2", "password-3"), chg("password-3", "password-4"), chg("password-4", "password-1")}, un)
			defer r.w.Close()
			if bad != "" {
				v.Fail("", "%s", bad)
				return
			}
			r.w.editFile(func(doc map[string]interface{}) {
				mapOf(mapOf(doc["policy"])["password"])["keep_versions"] = keep
			})
			if o := r.w.Open(); !o.OK() {
				v.Fail("", "%s", o)
				return
			}
			r.m.Policy.Keep = keep
			if _, _, bad := r.step(chg("password-1", "password-3")); bad != "" {
				v.Fail("", "%s", bad)
			}
			v.Count("transitions", 1)
			historyCheck(v, r, "lowered")
			if x := r.observe(); x != "" {
				v.Fail("", "%s", x)
			}
		})
	}
	// Users that are built outside of a database keep ten entries at most.
	c.Case("user", func(v *V) {
		w := NewWorld(c.Scratch)
		defer w.Close()
		var u *identity.User
		o := w.Call(func() error {
			var err error
			u, err = identity.NewUserWithRoles("alice", "password-0", "alice@example.com", "", nil)
			return err
		})
		if !o.OK() {
			v.Fail("", "%s", o)
			return
		}
		for n := 1; n < 30; n++ {
			o := w.Call(func() error {
				r := requests.NewRequest()
				r.User.OldPassword, r.User.Password = fmt.Sprintf("password-%d", n-1), fmt.Sprintf("password-%d", n)
				return u.ChangePassword(r, 3)
			})
			v.Count("transitions", 1)
			if !o.OK() {
				v.Fail(itoa(n), "%s", o)
				return
			}
			want := n
			if want > 3 {
				want = 3
			}
			if len(u.Passwords) != want+1 {
				v.Fail(itoa(n), "%d passwords are kept, expected %d", len(u.Passwords), want+1)
			}
		}
	})
}

// --- C24 -------------------------------------------------------------------

type taken struct {
	when string
	l    []interface{}
	s    string
}

func runC24(c *Ctx) {
	pairs := [][2]string{{"alice", "alice@example.com"}, {"bob", "bob@example.com"}}
	alpha := append(wideAlphabet(), on("bob", Op{K: "delapi", Ref: 1}), on("bob", Op{K: "delmfa", Ref: 1}), on("bob", Op{K: "delpk", Ref: 2}), on("alice", Op{K: "addapi", Usage: "api", Comment: "n2"}),
		Op{K: "identify", Name: "alice"}, Op{K: "auth", Name: "alice", Pw: pwA}, Op{K: "authkey", Name: "alice", Payload: "u2fA"})
	take := func(r *Run) string {
		t := taken{when: itoa(len(r.trace)), l: r.w.payloads(pairs)}
		t.s = dumpAll(t.l)
		if again := dumpAll(r.w.payloads(pairs)); again != t.s {
			return "two results of the same queries differ:\n" + firstDiff(t.s, again)
		}
		l, _ := r.data["taken"].([]taken)
		r.data["taken"] = append(l, t)
		return ""
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for pi, prelude := range [][]Op{{uAlice, uBob}, populated()} {
		seq := Seq{Name: "results" + itoa(pi), Prelude: prelude, Alphabet: alpha, Depth: depth, Un: &Universe{Sections: sections("count")}, NoReopen: true,
			Step: func(r *Run, op Op) string {
				if x := take(r); x != "" {
					return x
				}
				res := r.m.Apply(op)
				o := r.w.Exec(op)
				if x := compareResult(op, res, o); x != "" {
					return x
				}
				for _, t := range r.data["taken"].([]taken) {
					if now := dumpAll(t.l); now != t.s {
						return "a result returned before has changed:\n" + firstDiff(t.s, now)
					}
				}
				// The results of the operation itself.
				if o.Req != nil {
					l := []interface{}{o.Req.User, o.Req.Key, o.Req.MfaToken, o.Req.WebAuthn, o.Req.Flags, o.Req.Response.Payload}
					r.data["taken"] = append(r.data["taken"].([]taken), taken{"result", l, dumpAll(l)})
				}
				return ""
			},
		}
		c.Explore(&seq)
		if pi == 1 {
			seq.Prelude = nil
			c.Crowds(alpha, seq)
		}
	}
}
