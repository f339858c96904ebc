package main

import (
	"strings"
	"time"

	"github.com/greenpau/go-identity/pkg/requests"
)

// The users of the explorations.
const (
	dom = "example.com"
	pwA = "alice-Password-1"
	pwB = "bob-Password-1"
	pwC = "carol-Password-1"
)

func addUser(name, email, pw string) Op {
	return Op{K: "adduser", Name: name, Email: email, Pw: pw}
}

func on(name string, op Op) Op {
	op.Name, op.Email = name, name+"@"+dom
	return op
}

func faulty(op Op, plan string) Op {
	op.Fault = plan
	return op
}

func alterCase(op Op) Op {
	op.Name, op.Email = swapCase(op.Name), swapCase(op.Email)
	return op
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z' && i%2 == 0:
			b[i] = c - 32
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		}
	}
	return string(b)
}

var (
	opReopen = Op{K: "reopen"}
	opSave   = Op{K: "save"}
	opLook   = Op{K: "look"}

	uAlice = Op{K: "adduser", Name: "alice", Email: "alice@" + dom, Pw: pwA, Full: "Smith, Alice", Roles: []string{"admin", "org/staff"}}
	uBob   = addUser("bob", "bob@"+dom, pwB)
	uCarol = addUser("carol", "carol@"+dom, pwC)
)

// foldedNames are names that are the same under some notions of letter case
// and not under others.
func foldedNames() []string {
	return []string{"sams", "ſams", "SAMS", "Kims", "kims", "ida", "İda", "ıda", "IDA", "ǆoni", "ǅoni", "Ǆoni", "straße", "STRAẞE", "strasse", "nikoσ", "nikoς", "NIKOΣ", "µtor", "μtor", "i̇da"}
}

// foldedPairs are those of each name with itself and with its neighbours.
func foldedPairs() (out [][2]string) {
	l := foldedNames()
	for i, a := range l {
		for j, b := range l {
			if j-i <= 2 && i-j <= 2 {
				out = append(out, [2]string{a, b + "@" + dom})
			}
		}
	}
	return
}

func sections(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func pairsOf(names ...string) [][2]string {
	var out [][2]string
	for _, n := range names {
		out = append(out, [2]string{n, n + "@" + dom})
	}
	return out
}

const minute = time.Minute

func init() {
	register(&Property{
		ID: "C01", Level: "model_checking", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule:        "every sequence of the alphabet up to the depth, executed on the real database and compared with the list model after every operation, live and reopened",
		Assumptions: []string{"names are the same without regard to letter case if their lower-case forms are the same"},
		Run: func(c *Ctx) {
			un := &Universe{
				Pairs: [][2]string{
					{"bob", "bob@example.com"}, {"BoB", "BOB@example.COM"}, {"bob", "other@example.com"}, {"carol", "bob@example.com"},
					{"bob@example.com", "mail@example.com"}, {"eve@corp.io", "eve@corp.io"}, {"abc", "a@b.c"}, {"Änne", "aenne@example.com"},
					{"änNE", "Aenne@Example.com"}, {"bob@example.com", "bob@example.com"}, {"bob", "bob"}, {"dave", "dave@example.com"}, {"", ""},
				},
				Logins: []string{"bob", "BOB", "bob@example.com", "bOB@Example.COM", "other@example.com", "carol", "mail@example.com", "eve@corp.io",
					"EVE@corp.IO", "abc", "ABC", "a@b.c", "A@B.C", "Änne", "änne", "aenne@example.com", "dave", "dave@example.com", "bo", "bob@", "bob@example",
					"bob@example.com ", " bob", "bob ", "@example.com", "example.com", "", "@", "nobody", "nobody@localhost", "bobb", "eve", "bob@example.comm"},
				Pws:      []string{"pw-one-111", "pw-two-222", "pw-three-3", "pw-four-44", "pw-five-55", "pw-six-666", "pw-seven-7"},
				Sections: sections("users", "user", "ident", "auth", "count"),
			}
			alpha := []Op{
				addUser("bob", "bob@example.com", "pw-one-111"),
				addUser("BOB", "other@example.com", "pw-two-222"),
				addUser("carol", "Bob@Example.com", "pw-three-3"),
				addUser("bob@example.com", "mail@example.com", "pw-four-44"),
				addUser("eve@corp.io", "eve@corp.io", "pw-five-55"),
				addUser("abc", "a@b.c", "pw-six-666"),
				addUser("Änne", "aenne@example.com", "pw-seven-7"),
				faulty(addUser("carol", "carol@example.com", "pw-two-222"), "enospc"),
				faulty(addUser("bob", "bob@example.com", "pw-two-222"), "short"),
				{K: "adduser", Name: "bob", Email: "bob@example.com", Pw: "pw-two-222", Roles: []string{"admin", ""}},
				{K: "deluser", Name: "bob", Email: "bob@example.com"},
				opReopen, opLook,
			}
			depth := 4
			if c.Thorough {
				depth = 5
			}
			ids := func(r *Run) map[string]string {
				out := map[string]string{}
				for _, u := range r.m.Users {
					if x := r.w.Snapshot(u.Name, u.Email); x != nil {
						out[u.Name] = x.ID
					}
				}
				return out
			}
			c.Explore(&Seq{Name: "users", Alphabet: alpha, Depth: depth, Un: un,
				Before: func(r *Run) { r.data["ids"] = ids(r) },
				Check: func(v *V, r *Run, op Op, res Result, o Outcome) {
					now := ids(r)
					old, _ := r.data["ids"].(map[string]string)
					for n, id := range old {
						if now[n] != id {
							v.Fail(choiceStringOps(r), "user %s had the ID %q and now has %q after\n%s", n, id, now[n], traceString(r.trace))
						}
					}
					seen := map[string]string{}
					for n, id := range now {
						if id == "" || seen[id] != "" {
							v.Fail(choiceStringOps(r), "users %s and %s share the ID %q after\n%s", n, seen[id], id, traceString(r.trace))
						}
						seen[id] = n
					}
				},
			})
			// Letters whose upper, lower, title and folded forms differ.
			names := foldedNames()
			fun := &Universe{Pairs: foldedPairs(), Pws: []string{pwA, pwB}, Sections: sections("users", "user", "ident", "auth", "count")}
			var falpha []Op
			for i, n := range names {
				fun.Logins = append(fun.Logins, n, n+"@"+dom)
				falpha = append(falpha, addUser(n, n+"@"+dom, []string{pwA, pwB}[i%2]))
			}
			c.Explore(&Seq{Name: "folds", Alphabet: append(falpha, addUser("other", names[0]+"@"+dom, pwC), addUser("other", names[1]+"@"+dom, pwC), opReopen), Depth: 2, Un: fun})
			c.growUsers()
			similarNames(c)
			// From a populated state, with everything a user may own.
			c.Explore(&Seq{Name: "populated", Prelude: append([]Op{uAlice, uCarol}, belongings("alice")...), Depth: 2, Un: &Universe{
				Pairs: append(pairsOf("alice", "bob", "carol"), [2]string{"alice", "carol@example.com"}), Logins: un.Logins[:9], Pws: []string{pwA, pwB, pwC, "pw-one-111"},
				Sections: sections("users", "user", "ident", "auth", "count", "lookup"),
			}, Alphabet: append(alpha, addUser("alice@example.com", "x@example.com", pwB), addUser("ALICE", "x@example.com", pwB), addUser("xxx", "ALICE@example.com", pwB),
				on("alice", Op{K: "changepw", Old: pwA, Pw: "pw-one-111"}), on("alice", Op{K: "addapi", Usage: "api", Comment: "k2"}), on("alice", Op{K: "delapi", Ref: 0}), opSave)})
		},
	})

	register(&Property{
		ID: "C02", Level: "model_checking", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule:        "every operation for every pair of a username and an address (matching, mismatching, unknown, altered in case) and every object reference, in sequences up to the depth, against the list model, observing all data of all users",
		Assumptions: []string{"names are the same without regard to letter case if their lower-case forms are the same"},
		Run: func(c *Ctx) {
			prelude := append([]Op{uAlice, uBob, uCarol}, belongings("alice")...)
			prelude = append(prelude, belongings("bob")...)
			var idPairs = [][2]string{{"alice", "alice@example.com"}, {"alice", "bob@example.com"}, {"bob", "alice@example.com"}, {"ALICE", "Alice@Example.com"},
				{"nobody", "alice@example.com"}, {"alice", "nobody@example.com"}, {"alice@example.com", "alice"}, {"alice", ""}, {"", "alice@example.com"}, {"alice@example.com", "alice@example.com"}, {"", ""}, {"carol", "carol@example.com"},
				{"alice", "alice"}, {"alice", "bob"}, {"alice ", "alice@example.com"}, {"alice", " alice@example.com"}, {"alice", "alice@example.co"}, {"alic", "alice@example.com"}, {"alice", "example.com"}, {"alice", "alice@"}}
			var alpha []Op
			for i, p := range idPairs {
				full := i < 4
				add := func(op Op) {
					op.Name, op.Email = p[0], p[1]
					alpha = append(alpha, op)
				}
				for _, old := range []string{pwA, pwB} {
					add(Op{K: "changepw", Old: old, Pw: "changed-password"})
				}
				add(Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh", Comment: "new"})
				add(Op{K: "addapi", Usage: "api", Comment: "new"})
				add(Op{K: "addmfa", Payload: "totpD", Comment: "new"})
				for ref := 0; ref < 2; ref++ {
					add(Op{K: "delapi", Ref: ref})
					add(Op{K: "delmfa", Ref: ref})
				}
				add(Op{K: "delpk", Ref: 0})
				add(Op{K: "delpk", Ref: 2})
				if i == 0 {
					for ref := -8; ref < 0; ref++ {
						add(Op{K: "delpk", Ref: ref})
						add(Op{K: "delapi", Ref: ref})
						add(Op{K: "delmfa", Ref: ref})
					}
				}
				if full {
					add(Op{K: "delpk", Ref: 1}) // the same OpenPGP key, hence ID, as the other user's
				}
				add(Op{K: "deluser"})
			}
			un := &Universe{Pairs: [][2]string{{"alice", "alice@example.com"}, {"bob", "bob@example.com"}, {"carol", "carol@example.com"}, {"alice", "bob@example.com"},
				{"bob", "ALICE@example.com"}, {"ALICE", "Alice@Example.com"}, {"alice@example.com", "alice"}, {"", ""}, {"alice", ""}, {"", "alice@example.com"},
				{"nobody", "alice@example.com"}, {"alice", "nobody@example.com"}, {"bob@example.com", "bob@example.com"},
				{"alice", "alice"}, {"bob", "alice"}, {"alice ", "alice@example.com"}, {"alice", "alice@example.com "}, {"alice", "alice@example.co"}, {"alic", "alice@example.com"}, {"alice", "example.com"}},
				Logins: []string{"alice", "bob@example.com", "CAROL"}, Pws: []string{pwA, pwB, pwC, "changed-password"}, Keys: []string{"u2fA"}}
			// One operation, everything observed.
			c.Explore(&Seq{Name: "one", Prelude: prelude, Alphabet: alpha, Depth: 1, Un: un})
			// Letters whose upper, lower, title and folded forms differ.
			var fpre, falpha []Op
			for i, n := range foldedNames() {
				if i%2 == 0 || i%4 == 1 {
					fpre = append(fpre, addUser(n, n+"@"+dom, pwA), on(n, Op{K: "addapi", Usage: "api", Comment: "c"}))
				}
			}
			for _, p := range foldedPairs() {
				for _, op := range []Op{{K: "changepw", Old: pwA, Pw: "changed-password"}, {K: "addapi", Usage: "api", Comment: "new"}, {K: "addmfa", Payload: "totpC", Comment: "new"}, {K: "delapi", Ref: 0}, {K: "addpk", Usage: "ssh", Payload: "rsaC:ssh"}} {
					op.Name, op.Email = p[0], p[1]
					falpha = append(falpha, op)
				}
			}
			c.Explore(&Seq{Name: "folds", Prelude: fpre, Alphabet: falpha, Depth: 1, Un: &Universe{Pairs: foldedPairs(), Logins: foldedNames(), Pws: []string{pwA, "changed-password"}}})
			// Two operations, from the pairs that can have an effect or
			// could be confused.
			un2 := &Universe{Pairs: un.Pairs[:4], Logins: un.Logins, Pws: un.Pws, Keys: un.Keys}
			var alpha2 []Op
			for _, op := range alpha {
				if op.Name == "alice" && op.Email != "" && op.Email != "nobody@example.com" || c.Thorough && op.Email != "" {
					alpha2 = append(alpha2, op)
				}
			}
			alpha2 = append(alpha2, on("bob", Op{K: "delapi", Ref: 1}), on("bob", Op{K: "delmfa", Ref: 1}), on("bob", Op{K: "delpk", Ref: 2}), on("bob", Op{K: "delpk", Ref: 1}),
				on("bob", Op{K: "delapi", Ref: 0}), on("bob", Op{K: "addapi", Usage: "api", Comment: "b2"}), on("bob", Op{K: "changepw", Old: pwB, Pw: pwA}), opReopen)
			c.Explore(&Seq{Name: "two", Prelude: prelude, Alphabet: alpha2, Depth: 2, Un: un2})
			c.Explore(&Seq{Name: "reuse", Reuse: true, Prelude: prelude, Alphabet: alpha2, Depth: 2, Un: un2, NoReopen: true})
			c.Crowds(alpha2, Seq{Un: un2})
			similarPairs(c)
			// Deeper, extending one sequence per model state.
			if c.Thorough {
				c.Explore(&Seq{Name: "three", Prelude: prelude, Alphabet: alpha2, Depth: 3, Un: un2, Dedup: true})
			}
		},
	})

	register(&Property{
		ID: "C03", Level: "model_checking", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule: "every sequence of password changes (right, wrong, refused, failing) up to the depth; after each, every text of a menu of variations is tried with every login; plus every pair of a set password and a tried text",
		Run:  runC03,
	})

	register(&Property{
		ID: "C04", Level: "model_checking", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule: "every sequence of key additions, deletions and other operations up to the depth; after each, every key text ever returned and every alteration of it is looked up and every listing compared with the model",
		Run: func(c *Ctx) {
			alts := []string{"first", "p23", "p24", "p40", "p71", "cut71", "prefix", "prefixpad", "upper", "lower", "pre-space", "mixed", "empty"}
			un := &Universe{Pairs: [][2]string{{"alice", "alice@example.com"}, {"bob", "bob@example.com"}, {"alice", "bob@example.com"}}, Alts: alts, Sections: sections("api", "lookup")}
			add := func(n, comment string) Op { return on(n, Op{K: "addapi", Usage: "api", Comment: comment}) }
			alpha := []Op{
				add("alice", "one"),
				add("alice", "two"),
				add("bob", "one"),
				on("alice", Op{K: "addapi", Usage: "api", Comment: "off", Disabled: true}),
				on("alice", Op{K: "delapi", Ref: 0}),
				on("alice", Op{K: "delapi", Ref: 1}),
				on("alice", Op{K: "delapi", Ref: 2}),
				on("bob", Op{K: "delapi", Ref: 0}),
				on("bob", Op{K: "delapi", Ref: 1}),
				faulty(add("alice", "lost"), "enospc"),
				faulty(on("alice", Op{K: "delapi", Ref: 0}), "enospc"),
				on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}),
				opReopen,
			}
			extra := []Op{
				on("alice", Op{K: "delapi", Ref: -1}), on("alice", Op{K: "delapi", Ref: -2}), on("alice", Op{K: "delapi", Ref: -3}), on("alice", Op{K: "delapi", Ref: -4}),
				on("alice", Op{K: "delapi", Ref: -5}), on("alice", Op{K: "delapi", Ref: -6}), on("alice", Op{K: "delapi", Ref: -7}), on("alice", Op{K: "delapi", Ref: -8}),
				on("alice", Op{K: "addapi", Usage: "ssh", Comment: "one"}),
				on("alice", Op{K: "addapi", Usage: "api", Comment: ""}),
				on("bob", Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh"}),
				uCarol, opLook, opSave,
			}
			depth := 4
			if c.Thorough {
				depth = 5
			}
			c.Explore(&Seq{Name: "keys", Prelude: []Op{uAlice, uBob}, Alphabet: alpha, Depth: depth, Un: un})
			c.Explore(&Seq{Name: "more", Prelude: []Op{uAlice, uBob, add("alice", "a"), add("alice", "b"), add("bob", "c"), add("alice", "d")},
				Alphabet: append(append([]Op{}, alpha...), extra...), Depth: 2, Un: un})
			c.Explore(&Seq{Name: "reuse", Reuse: true, Prelude: []Op{uAlice, uBob, add("alice", "a"), add("alice", "b"), add("bob", "c")},
				Alphabet: append(append([]Op{}, alpha...), Op{K: "lookup", Ref: 0}, Op{K: "lookup", Ref: 1}, Op{K: "lookup", Ref: 2}, on("alice", Op{K: "getapi", Usage: "api"}),
					on("bob", Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh"})), Depth: depth - 1, Un: un})
			expiredKeys(c)
			c.growAPIKeys()
			similarKeys(c)
		},
	})

	register(&Property{
		ID: "C05", Level: "model_checking", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule: "every sequence of additions (every encoding of the same keys), deletions, failures and reopenings up to the depth against the list model",
		Run: func(c *Ctx) {
			un := &Universe{Pairs: pairsOf("alice", "bob"), Sections: sections("pk", "user")}
			add := func(n, usage, payload, comment string) Op {
				return on(n, Op{K: "addpk", Usage: usage, Payload: payload, Comment: comment})
			}
			alpha := []Op{
				add("alice", "ssh", "rsaA:pem", "one"),
				add("alice", "ssh", "rsaA:ssh", "two"),
				add("alice", "ssh", "rsaB:sshc", "three"),
				add("bob", "ssh", "rsaA:ssh", ""),
				add("alice", "gpg", "pgpA", "mine"),
				add("bob", "gpg", "pgpA", ""),
				on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaB:pem", Disabled: true}),
				on("alice", Op{K: "delpk", Ref: 0}),
				on("alice", Op{K: "delpk", Ref: 1}),
				on("alice", Op{K: "delpk", Ref: 2}),
				on("bob", Op{K: "delpk", Ref: 1}),
				faulty(add("alice", "ssh", "rsaA:ssh", "lost"), "enospc"),
				faulty(on("alice", Op{K: "delpk", Ref: 0}), "enospc"),
				opReopen,
			}
			extra := []Op{
				add("alice", "gpg", "pgpB", ""),
				add("alice", "gpg", "pgpAB", ""),
				add("alice", "gpg", "rsaC:ssh", ""),
				add("alice", "ssh", "pgpB", ""),
				add("alice", "ssh", "garbage", ""),
				add("alice", "ssh", "", ""),
				add("alice", "api", "rsaC:ssh", ""),
				add("alice", "", "rsaC:ssh", ""),
				add("alice", "ssh", "rsaC:sshc", "given"),
				add("alice", "ssh", "rsaC:sshd", "given"),
				add("alice", "ssh", "rsaC:pem", " given  with\tspaces "),
				on("alice", Op{K: "delpk", Ref: -1}), on("alice", Op{K: "delpk", Ref: -2}), on("alice", Op{K: "delpk", Ref: -3}), on("alice", Op{K: "delpk", Ref: -4}),
				on("alice", Op{K: "delpk", Ref: -5}), on("alice", Op{K: "delpk", Ref: -6}), on("alice", Op{K: "delpk", Ref: -7}), on("alice", Op{K: "delpk", Ref: -8}),
				on("alice", Op{K: "delpk", Ref: 3}),
				opLook, opSave,
			}
			depth := 4
			if c.Thorough {
				depth = 5
			}
			c.Explore(&Seq{Name: "keys", Prelude: []Op{uAlice, uBob}, Alphabet: alpha, Depth: depth, Un: un})
			c.Explore(&Seq{Name: "more", Prelude: []Op{uAlice, uBob, add("alice", "ssh", "rsaA:ssh", "x"), add("alice", "gpg", "pgpA", ""), add("bob", "ssh", "rsaB:ssh", ""), add("alice", "ssh", "rsaB:ssh", "y")},
				Alphabet: append(append([]Op{}, alpha...), extra...), Depth: 2, Un: un})
			c.Explore(&Seq{Name: "reuse", Reuse: true, Prelude: []Op{uAlice, uBob, add("alice", "ssh", "rsaC:ssh", "x")},
				Alphabet: append(append([]Op{}, alpha...), on("alice", Op{K: "addapi", Usage: "api", Comment: "k"}), on("bob", Op{K: "getpk", Usage: "ssh"})), Depth: depth - 2, Un: un})
			c.growPublicKeys()
		},
	})

	register(&Property{
		ID: "C06", Level: "model_checking", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule: "every sequence of token registrations, deletions, failures and reopenings up to the depth against the list model; identification, listings and key logins compared after each",
		Run: func(c *Ctx) {
			un := &Universe{Pairs: pairsOf("alice", "bob"), Logins: []string{"alice", "bob@example.com", "Alice@Example.com", "nobody"}, Keys: []string{"u2fA", "u2fB"},
				Sections: sections("mfa", "ident", "authkey", "user")}
			add := func(n, spec, comment string) Op {
				return on(n, Op{K: "addmfa", Payload: spec, Comment: comment})
			}
			alice := uAlice
			alice.Roles = []string{"admin", "corp/editor", "admin"}
			alice.Full = "Smith, Alice"
			alpha := []Op{
				add("alice", "totpA", "one"),
				add("alice", "totpB", "one"),
				add("alice", "totpA", "two"),
				add("alice", "u2fA", "key"),
				add("bob", "totpA", "one"),
				on("alice", Op{K: "addmfa", Payload: "totpB", Comment: "off", Disabled: true}),
				on("alice", Op{K: "addmfa", Payload: "u2fA", Comment: "keyoff", Disabled: true}),
				on("alice", Op{K: "delmfa", Ref: 0}),
				on("alice", Op{K: "delmfa", Ref: 1}),
				on("bob", Op{K: "delmfa", Ref: 0}),
				on("bob", Op{K: "delmfa", Ref: 1}),
				faulty(add("alice", "totpC", "lost"), "enospc"),
				faulty(on("alice", Op{K: "delmfa", Ref: 0}), "enospc"),
				opReopen,
			}
			extra := []Op{
				add("alice", "totpC", "c"), add("alice", "totpD", "d"), add("alice", "u2fB", "b"), add("alice", "u2fC", "c2"),
				add("alice", "totpBad", "x"), add("alice", "totpAlgo", "y"), add("alice", "u2fBad", "z"), add("alice", "none", "w"),
				add("alice", "u2fSame", "same"), add("alice", "totpSame", "same"), add("alice", "u2fTwin", "twin"),
				on("alice", Op{K: "delmfa", Ref: 2}), on("alice", Op{K: "delmfa", Ref: -1}), on("alice", Op{K: "delmfa", Ref: -2}), on("alice", Op{K: "delmfa", Ref: -3}), on("alice", Op{K: "delmfa", Ref: -4}),
				on("alice", Op{K: "delmfa", Ref: -5}), on("alice", Op{K: "delmfa", Ref: -6}), on("alice", Op{K: "delmfa", Ref: -7}), on("alice", Op{K: "delmfa", Ref: -8}), opLook, opSave,
				on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}), uCarol,
			}
			depth := 4
			if c.Thorough {
				depth = 5
			}
			c.Explore(&Seq{Name: "tokens", Prelude: []Op{alice, uBob}, Alphabet: alpha, Depth: depth, Un: un})
			c.Explore(&Seq{Name: "more", Prelude: []Op{alice, uBob, add("alice", "totpA", "a"), add("alice", "u2fA", "k"), add("bob", "u2fB", "kb"), add("alice", "totpB", "b")},
				Alphabet: append(append([]Op{}, alpha...), extra...), Depth: 2, Un: un})
			// Comments that resemble each other are different comments.
			alike := []Op{on("alice", Op{K: "delmfa", Ref: 0}), opReopen}
			for i, s := range []string{"one", "One", "ONE", "one ", " one", "one\t", "on", "one one", "o ne", "\u00f6ne", "o\u0308ne", "\uff4fne", "", " ", "one\u200b"} {
				alike = append(alike, add("alice", []string{"totpB", "totpC", "u2fA"}[i%3], s), add("alice", []string{"totpC", "u2fA", "totpB"}[i%3], s))
			}
			c.Explore(&Seq{Name: "comments", Prelude: []Op{alice, uBob, add("alice", "totpA", "one")}, Alphabet: alike, Depth: 2, Un: un})
			c.Explore(&Seq{Name: "reuse", Reuse: true, Prelude: []Op{alice, uBob, add("alice", "totpC", "a"), add("bob", "u2fB", "kb")},
				Alphabet: append(append([]Op{}, alpha...), Op{K: "authkey", Name: "bob", Payload: "u2fB"}, on("bob", Op{K: "getmfa"}), Op{K: "identify", Name: "alice"}), Depth: depth - 2, Un: un})
			c.growTokens()
		},
	})
}

// belongings gives a user a key of each kind.
func belongings(n string) []Op {
	if n == "alice" {
		return []Op{
			on(n, Op{K: "addpk", Usage: "ssh", Payload: "rsaA:ssh", Comment: "ssh of alice"}),
			on(n, Op{K: "addpk", Usage: "gpg", Payload: "pgpA", Comment: ""}),
			on(n, Op{K: "addapi", Usage: "api", Comment: "api of alice"}),
			on(n, Op{K: "addmfa", Payload: "totpA", Comment: "app of alice"}),
		}
	}
	return []Op{
		on(n, Op{K: "addpk", Usage: "ssh", Payload: "rsaB:ssh", Comment: "ssh of " + n}),
		on(n, Op{K: "addpk", Usage: "gpg", Payload: "pgpA", Comment: ""}),
		on(n, Op{K: "addapi", Usage: "api", Comment: "api of " + n}),
		on(n, Op{K: "addmfa", Payload: "totpB", Comment: "app of " + n}),
	}
}

func choiceStringOps(r *Run) string {
	s := ""
	for _, op := range r.trace {
		s += op.String() + "; "
	}
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func runC03(c *Ctx) {
	const p1, p2, p3 = "first-Password", "second-Password", " third Password "
	variants := []string{p1, p2, p3, "", "third Password", " third Password", "third Password ", "FIRST-PASSWORD", "first-password", "first-Passwor", "first-Passwordd",
		" first-Password", "first-Password ", "first-Password\n", "first -Password", "second-password", "second-Passwor", pwB, "\tfirst-Password", "third  Password", "x"}
	un := &Universe{Logins: []string{"alice", "ALICE@example.com", "bob"}, Pws: variants, Sections: sections("auth")}
	chg := func(old, pw string) Op { return on("alice", Op{K: "changepw", Old: old, Pw: pw}) }
	alpha := []Op{
		chg(p1, p2), chg(p2, p3), chg(p3, p1), chg(p2, p1), chg(p1, p1),
		chg(p2, "short"), chg("", p2), chg("first-password", p2), chg(pwB, p2),
		faulty(chg(p1, p2), "enospc"), faulty(chg(p2, p3), "short"),
		on("bob", Op{K: "changepw", Old: pwB, Pw: p1}),
		opReopen,
	}
	depth := 4
	if c.Thorough {
		depth = 5
		alpha = append(alpha, opLook)
	}
	prelude := []Op{addUser("alice", "alice@example.com", p1), uBob}
	c.Explore(&Seq{Name: "changes", Prelude: prelude, Alphabet: alpha, Depth: depth, Un: un})
	// A changed password, with every variation presented as the current one.
	var tries []Op
	for _, p := range variants {
		tries = append(tries, chg(p, "completely-new"))
	}
	c.Explore(&Seq{Name: "old", Prelude: append(append([]Op{}, prelude...), chg(p1, p3)), Alphabet: tries, Depth: 1,
		Un: &Universe{Logins: un.Logins, Pws: append([]string{"completely-new"}, variants...), Sections: sections("auth")}})
	// A password that is given decides alone, whatever assertion comes along.
	c.Case("with-assertion", func(v *V) {
		r, bad := c.newRun(nil, append(append([]Op{}, prelude...), on("alice", Op{K: "addmfa", Payload: "u2fA", Comment: "k"})), un)
		defer r.w.Close()
		if bad != "" {
			v.Fail("", "%s", bad)
			return
		}
		for _, pw := range append([]string{" ", "\t", "\x00", "nil", "null", "password", strings.Repeat("x", 200)}, variants...) {
			for _, login := range []string{"alice", "ALICE@example.com", "bob", "nobody"} {
				for _, assertion := range []string{"u2fA", "u2fB", "garbage", ""} {
					q := requests.NewRequest()
					q.User.Username, q.User.Password = login, pw
					switch assertion {
					case "u2fA", "u2fB":
						q.WebAuthn.Request, q.WebAuthn.Challenge = assertionFor(assertion)
					default:
						q.WebAuthn.Request, q.WebAuthn.Challenge = assertion, assertion
					}
					alice := strings.HasPrefix(strings.ToLower(login), "alice")
					want := alice && pw == p1 || login == "bob" && pw == pwB
					if pw == "" {
						want = alice && assertion == "u2fA"
					}
					o := r.w.Call(func() error { return r.w.db.AuthenticateUser(q) })
					v.Count("transitions", 1)
					if o.OK() != want || q.Response.Code != map[bool]int{true: 200, false: 400}[want] {
						v.Fail("", "login of %s with password %q and assertion %q: %s, code %d, expected success: %v", login, pw, assertion, o, q.Response.Code, want)
						return
					}
				}
			}
		}
	})
	// Every pair of a password and a text.
	long := ""
	for i := 0; i < 9; i++ {
		long += "abcdefgh"
	}
	base := []string{"abcdefgh", "abcdefgH", "abcdefghabcdefgh", "abcdefgh ", " abcdefgh", "abcd efgh", "abcdefg\u00e9", "abcdefge\u0301", "\x00abcdefg", "abcdefgh\x00",
		"abcdefgh\x00abcdefgh", "\xffabcdefg", "\xfeabcdefg", "        a", "pässwörter", "PÄSSWÖRTER", long[:71], long[:72], long[:70] + "X", long[:71] + "X", "12345678", "012345678", "+12345678"}
	single := func(s string) []string {
		out := []string{s + "x", "x" + s, s + s, s[:len(s)-1], s[1:]}
		for i := 0; i < len(s) && i < 72; i += 1 + len(s)/24 {
			out = append(out, s[:i]+string(rune(s[i]^0x20))+s[i+1:], s[:i]+s[i+1:])
		}
		return out
	}
	for i, p := range base {
		for _, via := range []string{"add", "change"} {
			c.Case("pairs/"+via+"/"+itoa(i), func(v *V) {
				set := p
				if len(set) < 8 || strings.IndexByte(set, 0) >= 0 {
					return // refused; see C17
				}
				var ops []Op
				if via == "add" {
					ops = []Op{addUser("alice", "alice@example.com", set), uBob}
				} else {
					ops = []Op{addUser("alice", "alice@example.com", p1), uBob, chg(p1, set)}
				}
				r, bad := c.newRun(nil, ops, un)
				defer r.w.Close()
				if bad != "" {
					v.Fail("", "%s", bad)
					return
				}
				texts := append(append([]string{}, base...), single(set)...)
				texts = append(texts, variants...)
				for pass := 0; pass < 2; pass++ {
					for _, q := range texts {
						if len(q) > 72 && len(set) >= 72 && q[:72] == set[:72] {
							continue // beyond 72 bytes nothing is promised
						}
						for _, login := range []string{"alice", "alice@example.com"} {
							op := Op{K: "auth", Name: login, Pw: q}
							res, o, bad := r.step(op)
							v.Count("transitions", 1)
							v.State("states", set+"\x00\x01"+q)
							_ = res
							_ = o
							if bad != "" {
								v.Fail(quote(set)+" "+quote(q), "the password is %q; logging in as %s with %q: %s", set, login, q, bad)
							}
						}
						r.trace = r.trace[:0]
					}
					v.Count("traces_validated_against_impl", 1)
					if o := r.w.Open(); !o.OK() {
						v.Fail("", "reopening: %s", o)
						return
					}
				}
			})
		}
	}
	realBcrypt(c)
	similarPasswords(c)
	c.growPasswords(true)
}
