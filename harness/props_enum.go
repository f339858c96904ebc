package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C22", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "in every state of the tree of histories: every guess of a menu, for every existing user under every reference, and for every unknown name of a menu; response code and the sequence of hash computations with their costs are compared, and identifications of unknown names with one another over all states",
		Assumptions: []string{"passwords were set through the database; passwords of a cost chosen in the file by hand are not considered", "the work of a hash computation is its cost parameter"},
		Run:         runC22,
	})
}

// guesses is the menu of tried passwords.
func guesses() []string {
	out := []string{"", " ", "\t\n ", "\u00a0", "\u3000 ", "x", "12345678", pwA, pwB, pwC, pwA + " ", " " + pwA, pwA + "\x00", "\x00", "\x00" + pwA, pwA + "\x00x", strings.ToUpper(pwA), pwA[1:], "new-Password-1", "new-Password-2", "not\nset", "пароль и пароль", "\xff\xfe bad", "nobody", "alice", "alice@example.com"}
	for _, n := range []int{7, 8, 9, 71, 72, 73, 127, 128, 129, 1000, 100000} {
		out = append(out, strings.Repeat("g", n))
	}
	return out
}

// unknownNames is the menu of names nobody has.
func unknownNames() []string {
	return []string{"", " ", "nobody", "nobody@localhost", "nobody@example.com", "root", "dave", "dave@example.com", "alic", "alicee", "alice ", " alice", "alice\x00", "alice@example.co", "alice@example.com ", "@example.com", "@", "alice@", "alice@@example.com", "alice@bob", "alice/x", "\xff", "алиса", "alice\nbob", strings.Repeat("n", 51), strings.Repeat("n", 10000), strings.Repeat("n", 300) + "@example.com", "admin' --", "*", "%"}
}

func runC22(c *Ctx) {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	alice := func(op Op) Op { return on("alice", op) }
	alphabet := []Op{uAlice, uBob, addUser("carol", "Carol@Example.com", pwC), addUser("x@y", "xy@example.com", pwC),
		alice(Op{K: "changepw", Old: pwA, Pw: "new-Password-1"}), alice(Op{K: "changepw", Old: "new-Password-1", Pw: pwA}), alice(Op{K: "changepw", Old: "wrong-one", Pw: "new-Password-2"}),
		alice(Op{K: "addmfa", Payload: "totpA"}), alice(Op{K: "addmfa", Payload: "u2fA"}), on("bob", Op{K: "addapi", Usage: "api", Comment: "k"}),
		faulty(uBob, "enospc"), opReopen}
	// What an unknown name is identified as: that of an empty database.
	fixed := ""
	w := NewWorld(c.Scratch)
	defer w.Close()
	if w.Open().OK() {
		req := requests.NewRequest()
		req.User.Username = "dave"
		w.Call(func() error { return w.db.IdentifyUser(req) })
		b, _ := json.Marshal(req)
		fixed = string(b)
	}
	probe := func(v *V, r *Run, op Op, res Result, o Outcome) {
		if r.w.db == nil {
			return
		}
		try := func(name, guess string) (int, []int, Outcome) {
			req := requests.NewRequest()
			req.User.Username, req.User.Password = name, guess
			r.w.s.hashCosts = r.w.s.hashCosts[:0]
			o := r.w.Call(func() error { return r.w.db.AuthenticateUser(req) })
			v.Count("logins", 1)
			return req.Response.Code, append([]int{}, r.w.s.hashCosts...), o
		}
		type refs struct{ name, ref string }
		var known []refs
		for _, u := range r.m.Users {
			for _, s := range []string{u.Name, u.Email, swapCase(u.Name), swapCase(u.Email)} {
				known = append(known, refs{u.Name, s})
			}
		}
		names := unknownNames()
		if len(r.trace) > 1 && !c.Thorough {
			names = names[:12]
		}
		for _, x := range []string{"alice", "bob", "carol", "carol@example.com", "bob@example.com", "x@y"} {
			if r.m.find(x) == nil {
				names = append(names, x)
			}
		}
		for _, g := range guesses() {
			var code0 int
			var costs0 []int
			who0 := ""
			compare := func(what string, code int, costs []int, o Outcome) bool {
				if o.Panic != "" || o.Err == nil {
					v.Fail("login", "%s with the password %.40q: %s", what, g, o)
					return false
				}
				if who0 == "" {
					who0, code0, costs0 = what, code, costs
					return true
				}
				if code != code0 || fmt.Sprint(costs) != fmt.Sprint(costs0) {
					v.Fail("login", "the password %.40q: for %s code %d and hashes of cost %v, for %s code %d and hashes of cost %v\n%s", g, who0, code0, costs0, what, code, costs, traceString(r.trace))
					return false
				}
				return true
			}
			for _, k := range known {
				u := r.m.find(k.name)
				if pwEqual(u.Pws[0], g) {
					continue
				}
				code, costs, o := try(k.ref, g)
				if !compare("the user "+k.ref, code, costs, o) {
					return
				}
			}
			for _, n := range names {
				if r.m.find(n) != nil {
					continue
				}
				code, costs, o := try(n, g)
				if !compare(fmt.Sprintf("the unknown %.60q", n), code, costs, o) {
					return
				}
			}
			if code0 != 400 {
				v.Fail("login", "the code of a refused login is %d", code0)
				return
			}
			if len(costs0) == 0 && strings.TrimSpace(g) != "" && !strings.Contains(g, "\x00") {
				v.Fail("login", "no hash is computed for the password %.40q", g)
				return
			}
		}
		for _, n := range names {
			if r.m.find(n) != nil {
				continue
			}
			for variant := 0; variant < 3; variant++ {
				req := requests.NewRequest()
				if variant == 2 {
					req = dirtyRequest(n)
				}
				req.User.Username = n
				req.Flags.Enabled = variant > 0
				o := r.w.Call(func() error { return r.w.db.IdentifyUser(req) })
				v.Count("identifications", 1)
				req.Flags.Enabled = false
				b, _ := json.Marshal(req)
				if !o.OK() || req.User.Username != "nobody" || req.User.Email != "nobody@localhost" || req.User.FullName != "" || len(req.User.Roles) != 0 || fmt.Sprint(req.User.Challenges) != "[password]" {
					v.Fail("identify", "the unknown %.60q is identified as %s: %s", n, b, o)
					return
				}
				if string(b) != fixed {
					v.Fail("identify", "the unknown %.60q is identified as %s, in an empty database as %s", n, b, fixed)
					return
				}
			}
		}
	}
	c.Explore(&Seq{Name: "empty", Alphabet: alphabet, Depth: depth, Un: &Universe{Sections: sections()}, Check: probe})
	c.Explore(&Seq{Name: "users", Prelude: []Op{uAlice, uBob}, Alphabet: alphabet, Depth: depth, Un: &Universe{Sections: sections()}, Check: probe})
	c.Crowds(alphabet[:6], Seq{Un: &Universe{Sections: sections()}, Check: probe})
}
