package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
	"unicode"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C20", Level: "exploration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "every string up to a length over an alphabet with one member of each character class, for addresses, names and roles, every byte at every position of well-formed texts, and host labels of all lengths around the limit; every list of up to four roles of a menu, and every combination of address, name and roles of menus, added to a database and identified, before and after reopening. Non-trivial: accepted texts and lists",
		Assumptions: []string{"names with a tab, two spaces or two commas, and roles that begin with a slash, may be accepted or refused", "texts are at most a few hundred bytes long"},
		Run:         runC20,
	})
}

// strs calls f with every string of exactly n members of an alphabet.
func strs(alphabet []string, n int, prefix string, f func(string)) {
	if n == 0 {
		f(prefix)
		return
	}
	for _, a := range alphabet {
		strs(alphabet, n-1, prefix+a, f)
	}
}

// enumerate splits the strings up to a length into cases by their beginning.
func enumerate(c *Ctx, name string, alphabet []string, most int, f func(v *V, s string)) {
	const head = 2
	c.Case(name+"/short", func(v *V) {
		for n := 0; n < head; n++ {
			strs(alphabet, n, "", func(s string) { f(v, s) })
		}
	})
	strs(alphabet, head, "", func(p string) {
		c.Case(fmt.Sprintf("%s/%q", name, p), func(v *V) {
			for n := 0; n <= most-head; n++ {
				strs(alphabet, n, p, func(s string) {
					if v.Failed() || c.Expired() {
						return
					}
					f(v, s)
				})
				beat()
			}
		})
	})
}

func checkEmail(v *V, s string) {
	v.Count("evaluations", 1)
	var m *identity.EmailAddress
	var err error
	p := protect(func() { m, err = identity.NewEmailAddress(s) })
	want := refEmail(s)
	switch {
	case p != "":
		v.Fail("email", "the address %q: %s", s, p)
	case (err == nil) != want || (m == nil) == (err == nil):
		v.Fail("email", "the address %q: %v, %v", s, m, err)
	case want:
		v.Count("accepted", 1)
		v.State("distinct_nontrivial", "e"+s)
		_, domain, _ := strings.Cut(s, "@")
		if m.Address != s || m.Domain != domain || m.ToString() != s {
			v.Fail("email", "the address %q is read as %+v", s, *m)
		}
		if v.WantSample() {
			v.Sample(map[string]interface{}{"address": s, "domain": m.Domain})
		}
	}
}

// nameWanted says whether a full name has to be accepted (1), refused (-1) or
// either.
func nameWanted(s string) (want int, last, first string) {
	commas := strings.Count(s, ",")
	odd, inner := false, 0
	for _, r := range s {
		if r == ' ' {
			inner++
		} else if unicode.IsSpace(r) || r == unicode.ReplacementChar {
			odd = true
		}
	}
	switch {
	case commas == 1:
		l, f, _ := strings.Cut(s, ",")
		l, f = strings.Trim(l, " "), strings.Trim(f, " ")
		if odd {
			return 0, "", ""
		}
		if l == "" || f == "" {
			return -1, "", ""
		}
		return 1, l, f
	case commas > 1 && inner == 0 && !odd:
		return -1, "", ""
	case commas > 1:
		return 0, "", ""
	case odd:
		return 0, "", ""
	case inner == 0:
		return -1, "", ""
	case inner == 1:
		f, l, _ := strings.Cut(s, " ")
		if l == "" || f == "" {
			return -1, "", ""
		}
		return 1, l, f
	case len(strings.Fields(s)) > 2:
		return -1, "", ""
	}
	return 0, "", ""
}

func checkName(v *V, s string) {
	v.Count("evaluations", 1)
	var n *identity.Name
	var err error
	p := protect(func() { n, err = identity.ParseName(s) })
	want, last, first := nameWanted(s)
	switch {
	case p != "":
		v.Fail("name", "the name %q: %s", s, p)
	case (n == nil) == (err == nil):
		v.Fail("name", "the name %q: %v, %v", s, n, err)
	case want > 0 && err != nil || want < 0 && err == nil:
		v.Fail("name", "the name %q: %+v, %v", s, n, err)
	case want > 0:
		v.State("distinct_nontrivial", "n"+s)
		full := last + ", " + first
		if n.Last != last || n.First != first || n.GetFullName() != full || n.GetNameClaim() != full || n.ToString() != full {
			v.Fail("name", "the name %q is read as %+v, %q", s, *n, n.GetFullName())
			return
		}
		again, err := identity.ParseName(full)
		if err != nil || again.GetFullName() != full {
			v.Fail("name", "%q, rendered from %q, is not read back: %v", full, s, err)
		}
		if v.WantSample() {
			v.Sample(map[string]interface{}{"name": s, "full": n.GetFullName()})
		}
	}
}

func checkRole(v *V, s string) {
	v.Count("evaluations", 1)
	var r *identity.Role
	var err error
	p := protect(func() { r, err = identity.NewRole(s) })
	want, ok := refRole(s)
	if p != "" {
		v.Fail("role", "the role %q: %s", s, p)
		return
	}
	if (r == nil) == (err == nil) {
		v.Fail("role", "the role %q: %v, %v", s, r, err)
		return
	}
	if strings.HasPrefix(strings.TrimSpace(s), "/") {
		return
	}
	if ok != (err == nil) {
		v.Fail("role", "the role %q: %+v, %v", s, r, err)
		return
	}
	if !ok {
		return
	}
	v.State("distinct_nontrivial", "r"+s)
	org, name, found := strings.Cut(want, "/")
	if !found {
		org, name = "", want
	}
	if r.String() != want || r.Organization != org || r.Name != name {
		v.Fail("role", "the role %q is read as %+v, %q", s, *r, r.String())
	}
	// Reading the rendering changes nothing.
	if again, err := identity.NewRole(r.String()); err != nil || *again != *r {
		v.Fail("role", "the rendering %q of the role %q is read as %+v, %v", r, s, again, err)
	}
	if v.WantSample() {
		v.Sample(map[string]interface{}{"role": s, "organisation": org, "name": name})
	}
}

func runC20(c *Ctx) {
	depth := 6
	if c.Thorough {
		depth = 7
	}
	enumerate(c, "email", []string{"a", "Z", "0", "-", ".", "@", "_", "+", " ", ",", "\n", "é", "\x80"}, depth, checkEmail)
	enumerate(c, "email2", []string{"a", "-", ".", "@", "9"}, depth+3, checkEmail)
	var bytes []string
	for b := 0; b < 256; b++ {
		bytes = append(bytes, string([]byte{byte(b)}))
	}
	menu := append(append([]string{}, bytes...), "é", "日", "\u00a0", "\u200b", "ａ", "ſ", "K", "İ", "\u2028", "@@", "..", "--", "a@", "")
	c.Case("email bytes", func(v *V) {
		for _, t := range []string{"a@b", "ab@cd.ef", "x.y+z@a-b.c-d.org"} {
			for i := 0; i <= len(t); i++ {
				for _, m := range menu {
					checkEmail(v, t[:i]+m+t[i:])
					if i < len(t) {
						checkEmail(v, t[:i]+m+t[i+1:])
						for j := i + 1; j < len(t) && c.Thorough; j++ {
							for _, k := range menu {
								checkEmail(v, t[:i]+m+t[i+1:j]+k+t[j+1:])
							}
						}
					}
				}
			}
		}
	})
	c.Case("email lengths", func(v *V) {
		label := func(n int) []string {
			if n < 1 {
				return []string{""}
			}
			x := strings.Repeat("a", n)
			out := []string{x, strings.Repeat("1", n), x[:n-1] + "-", "-" + x[1:]}
			if n > 2 {
				out = append(out, "a"+strings.Repeat("-", n-2)+"a", "a-"+strings.Repeat("b", n-3)+"a", "A"+strings.Repeat("z", n-3)+"-9")
			}
			return out
		}
		for _, n := range []int{0, 1, 2, 3, 4, 61, 62, 63, 64, 65, 66, 126, 127, 128} {
			for _, l := range label(n) {
				for _, m := range []int{0, 1, 2, 62, 63, 64} {
					for _, k := range label(m) {
						for _, s := range []string{"u@" + l + "." + k, "u@" + k + ".x." + l, "u@" + l, l + "@" + k} {
							checkEmail(v, s)
						}
					}
				}
			}
		}
		for _, n := range []int{1, 2, 63, 64, 65, 254, 255, 256, 300} {
			checkEmail(v, strings.Repeat("a", n)+"@b")
			checkEmail(v, "a@"+strings.Repeat("b.", n)+"c")
			checkEmail(v, strings.Repeat("a.", n)+"@b")
		}
	})
	enumerate(c, "name", []string{"a", "B", ",", " ", ".", "-", "'", "é", "\t", "\u00a0"}, depth, checkName)
	enumerate(c, "name2", []string{"a", ",", " ", "b"}, depth+3, checkName)
	c.Case("name bytes", func(v *V) {
		for _, t := range []string{"John Smith", "Smith, John", "van der Berg, Anna Maria", "A B", "A,B"} {
			for i := 0; i <= len(t); i++ {
				for _, m := range menu {
					checkName(v, t[:i]+m+t[i:])
					if i < len(t) {
						checkName(v, t[:i]+m+t[i+1:])
					}
				}
			}
		}
	})
	enumerate(c, "role", []string{"a", "B", "/", " ", "\t", "é", ",", "."}, depth+1, checkRole)
	c.Case("role bytes", func(v *V) {
		for _, t := range []string{"admin", "org/admin", "org/unit/admin", "a/b"} {
			for i := 0; i <= len(t); i++ {
				for _, m := range menu {
					checkRole(v, t[:i]+m+t[i:])
					if i < len(t) {
						checkRole(v, t[:i]+m+t[i+1:])
					}
				}
			}
		}
	})

	// Lists of roles on a user.
	roles := []string{"a", "b", "org/a", "org/b", "gro/a", " a ", "org/a/b", "A", "", " ", "org/", "a b"}
	most := 4
	if c.Thorough {
		most = 5
	}
	for i := range roles {
		c.Case(fmt.Sprintf("role lists/%d", i), func(v *V) {
			var walk func(list []string)
			walk = func(list []string) {
				checkRoles(v, list, roles)
				if len(list) < most && !v.Failed() && !c.Expired() {
					for _, r := range roles {
						walk(append(list[:len(list):len(list)], r))
					}
				}
			}
			walk([]string{roles[i]})
		})
	}
	addresses(c, most)

	// Through a database.
	lists := [][]string{nil, {}, {"viewer"}, {"viewer", "viewer"}, {"org/admin", "viewer", "org/admin"}, {"b", "a", "c"}, {"a", "org/a", "A"}, {" a", "a "}, {"x", ""}, {"org/"}, {"x/y/z", "y/z", "z"}, {"10", "9", "8", "7", "6", "5", "4", "3", "2", "1", "0"}}
	fulls := []string{"", " ", "John Smith", "Smith, John", " Smith,John ", "van der Berg, Anna Maria", "Cher", "Smith,", ",", "ß Ø", "x , y", "O'Neil, \"Q\" <x>"}
	mails := []string{"a@b", "John.Smith@Example.COM", "x+y=z@a-b.c", "a@b\n", "no at", "a@-b", "a@b.", "!#$%&'*+/=?^_`{|}~-@x.y"}
	for i, mail := range mails {
		for j, full := range fulls {
			c.Case(fmt.Sprintf("database/%d/%d", i, j), func(v *V) {
				w := NewWorld(c.Scratch)
				defer w.Close()
				for _, list := range lists {
					identified(v, w, mail, full, list)
				}
			})
		}
	}
}

// checkRoles gives a list of roles to a user.
func checkRoles(v *V, list, menu []string) {
	v.Count("evaluations", 1)
	var want []string
	seen := map[string]bool{}
	ok := true
	for _, s := range list {
		r, good := refRole(s)
		if !good {
			ok = false
			break
		}
		if !seen[r] {
			seen[r] = true
			want = append(want, r)
		}
	}
	u := identity.NewUser("alice")
	given := append([]string{}, list...)
	err := u.AddRoles(given)
	if (err == nil) != ok {
		v.Fail("roles", "the roles %q: %v", list, err)
		return
	}
	if fmt.Sprint(given) != fmt.Sprint(list) {
		v.Fail("roles", "the list %q became %q", list, given)
	}
	if !ok {
		return
	}
	v.State("distinct_nontrivial", "l"+strings.Join(list, "|"))
	if got := u.GetRolesClaim(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) || u.HasRoles() != (len(want) > 0) {
		v.Fail("roles", "the roles %q became %q", list, got)
	}
	for _, m := range menu {
		r, good := refRole(m)
		if u.HasRole(m) != (good && seen[r]) {
			v.Fail("roles", "with the roles %q, HasRole(%q) is %v", list, m, u.HasRole(m))
		}
	}
}

// addresses gives lists of addresses and of names to a user.
func addresses(c *Ctx, most int) {
	mails := []string{"a@b", "A@b", "c@d", "bad", ""}
	names := []string{"John Smith", "Smith, John", "Smith,John", "Jane Roe"}
	c.Case("address lists", func(v *V) {
		var walk func(list []string)
		walk = func(list []string) {
			v.Count("evaluations", 1)
			u := identity.NewUser("alice")
			var want []string
			for _, s := range list {
				dup := false
				for _, x := range want {
					dup = dup || x == s
				}
				err := u.AddEmailAddress(s)
				if (err == nil) != refEmail(s) {
					v.Fail("addresses", "adding %q of %q: %v", s, list, err)
					return
				}
				if err == nil && !dup {
					want = append(want, s)
				}
				var got []string
				for _, e := range u.EmailAddresses {
					got = append(got, e.Address)
				}
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) || u.HasEmailAddresses() != (len(want) > 0) {
					v.Fail("addresses", "the addresses %q became %q", list, got)
					return
				}
				claim := ""
				if len(want) > 0 {
					claim = want[0]
				}
				if u.GetMailClaim() != claim || (u.EmailAddress == nil) != (claim == "") || claim != "" && u.EmailAddress.Address != claim {
					v.Fail("addresses", "the address of %q is %q", list, u.GetMailClaim())
					return
				}
			}
			v.State("distinct_nontrivial", "m"+strings.Join(list, "|"))
			if len(list) < most && !v.Failed() {
				for _, s := range mails {
					walk(append(list[:len(list):len(list)], s))
				}
			}
		}
		walk(nil)
	})
	c.Case("name lists", func(v *V) {
		var walk func(list []string)
		walk = func(list []string) {
			v.Count("evaluations", 1)
			u := identity.NewUser("alice")
			var want []string
			for _, s := range list {
				n, err := identity.ParseName(s)
				if err != nil {
					v.Fail("names", "%q: %v", s, err)
					return
				}
				full := n.GetFullName()
				dup := false
				for _, x := range want {
					dup = dup || x == full
				}
				if !dup {
					want = append(want, full)
				}
				if err := u.AddName(n); err != nil {
					v.Fail("names", "adding %q of %q: %v", s, list, err)
					return
				}
				var got []string
				for _, e := range u.Names {
					got = append(got, e.GetFullName())
				}
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) || u.GetNameClaim() != want[0] || u.GetFullName() != want[0] {
					v.Fail("names", "the names %q became %q, %q", list, got, u.GetFullName())
					return
				}
			}
			if len(list) == 0 && (u.GetNameClaim() != "" || u.GetFullName() != "") {
				v.Fail("names", "a user without name is %q", u.GetNameClaim())
			}
			v.State("distinct_nontrivial", "f"+strings.Join(list, "|"))
			if len(list) < most && !v.Failed() {
				for _, s := range names {
					walk(append(list[:len(list):len(list)], s))
				}
			}
		}
		walk(nil)
	})
}

// identified adds a user and identifies it.
func identified(v *V, w *World, mail, full string, roles []string) {
	writeFile(w.path, []byte(`{"version":"1"}`))
	if o := w.Open(); !o.OK() {
		v.Fail("", "%s", o)
		return
	}
	v.Count("evaluations", 1)
	what := fmt.Sprintf("address %q, name %q, roles %q", mail, full, roles)
	ok := refEmail(mail)
	var want []string
	for _, s := range roles {
		r, good := refRole(s)
		ok = ok && good
		dup := false
		for _, x := range want {
			dup = dup || x == r
		}
		if !dup {
			want = append(want, r)
		}
	}
	claim := ""
	if s := strings.TrimSpace(full); s != "" {
		k, last, first := nameWanted(s)
		if k == 0 {
			fatalf("the name %q is not decided", full)
		}
		ok = ok && k > 0
		claim = last + ", " + first
	}
	o := w.Call(func() error {
		r := requests.NewRequest()
		r.User.Username, r.User.Email, r.User.Password, r.User.FullName = "alice", mail, "secret password", full
		r.User.Roles = append([]string{}, roles...)
		return w.db.AddUser(r)
	})
	if o.Panic != "" || o.OK() != ok {
		v.Fail("adduser", "%s: %s", what, o)
		return
	}
	if !ok {
		return
	}
	v.State("distinct_nontrivial", what)
	for i := 0; i < 2; i++ {
		for _, ref := range []string{"alice", "ALICE", mail, strings.ToUpper(mail)} {
			r := requests.NewRequest()
			r.User.Username = ref
			o := w.Call(func() error { return w.db.IdentifyUser(r) })
			if !o.OK() || r.User.Username != "alice" || r.User.Email != mail || r.User.FullName != claim || fmt.Sprintf("%q", r.User.Roles) != fmt.Sprintf("%q", want) {
				v.Fail("identify", "%s: identified by %q as %q, %q, %q, %q: %s", what, ref, r.User.Username, r.User.Email, r.User.FullName, r.User.Roles, o)
				return
			}
		}
		r := requests.NewRequest()
		r.User.Username, r.User.Email = "alice", mail
		w.Call(func() error { return w.db.GetUsers(r) })
		if b, isBundle := r.Response.Payload.(*identity.UserMetadataBundle); !isBundle || b.Size() != 1 || b.Get()[0].Email != mail || b.Get()[0].Username != "alice" || claim != "" && b.Get()[0].Name != claim {
			x, _ := json.Marshal(r.Response.Payload)
			v.Fail("list", "%s: listed as %s", what, x)
			return
		}
		if i == 0 {
			if o := w.Open(); !o.OK() {
				v.Fail("reopen", "%s: %s", what, o)
				return
			}
		}
	}
}
