package main

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C17", Level: "exploration", Quick: 420 * time.Second, Thorough: 10 * minute,
		Rule:        "every policy with limits from a small range (and larger ones) x every length around the limits x one- to four-byte characters, for new users, changed passwords and reopened databases; every subset of limits left out of the file x all flags; every combination of limits and flags x every short string over a class alphabet for the descriptions. Non-trivial: requests whose length is within one of a limit",
		Assumptions: []string{"limits of zero (not told apart from left out ones) and negative limits are not explored"},
		Run:         runC17,
	})
}

// textOf makes a text of n bytes from characters of one width.
const padded = 5

func textOf(n, width int, pw bool) string {
	units := []string{"", "b", "é", "€", "😀"}
	if pw && width == 1 {
		s := strings.Repeat("Aa1!Bb2#", n/8+1)
		return s[:n]
	}
	if width == padded {
		// With white space around it, which counts.
		if n < 3 {
			return strings.Repeat("b", n)
		}
		return " " + textOf(n-2, 1, pw) + " "
	}
	s := strings.Repeat(units[width], n/width)
	return s + strings.Repeat("a", n-len(s))
}

type limits struct{ umin, umax, pmin, pmax int }

func (l limits) doc() obj {
	return policyDoc(mPolicy{l.umin, l.umax, l.pmin, l.pmax, 5})
}

func inside(n, lo, hi int) bool { return lo <= n && n <= hi }

func near(n, lo, hi int) bool { return n-lo <= 1 && lo-n <= 1 || n-hi <= 1 && hi-n <= 1 }

func around(lo, hi int) []int {
	seen := map[int]bool{}
	var out []int
	for _, n := range []int{lo - 2, lo - 1, lo, lo + 1, (lo + hi) / 2, hi - 1, hi, hi + 1, hi + 2, 2*hi + 1} {
		if n >= 0 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

// lengthCase tries every length of name and password with one policy.
func lengthCase(c *Ctx, v *V, l limits, names, pws []int, widths []int) {
	w := NewWorld(c.Scratch)
	defer w.Close()
	doc := obj{"version": "1.0.0", "policy": l.doc(), "revision": 1}
	for _, wd := range widths {
		for _, n := range names {
			for _, p := range pws {
				if c.Expired() || v.Failed() {
					return
				}
				name, pw := textOf(n, wd, false), textOf(p, wd, true)
				writeFile(w.path, []byte(jsonOf(doc)))
				if o := w.Open(); !o.OK() {
					v.Fail("", "opening a database with limits %+v: %s", l, o)
					return
				}
				what := fmt.Sprintf("limits %+v, a user with a name of %d bytes (%.20q) and a password of %d bytes", l, n, name, p)
				r := requests.NewRequest()
				r.User.Username, r.User.Email, r.User.Password = name, "user@example.com", pw
				o := w.Call(func() error { return w.db.AddUser(r) })
				want := inside(n, l.umin, l.umax) && inside(p, l.pmin, l.pmax)
				v.Count("evaluations", 1)
				if near(n, l.umin, l.umax) || near(p, l.pmin, l.pmax) {
					v.State("distinct_nontrivial", what)
				}
				if o.Panic != "" || o.OK() != want {
					v.Fail(what, "%s: %s", what, o)
					return
				}
				if v.WantSample() && want {
					v.Sample(map[string]interface{}{"request": what, "outcome": o.String()})
				}
			}
		}
	}
	// Changes of the password, live and reopened.
	if l.pmin > l.pmax || l.umin > l.umax {
		return
	}
	name := textOf(l.umin, 1, false)
	cur := textOf(l.pmin, 1, true)
	for _, reopen := range []bool{false, true} {
		writeFile(w.path, []byte(jsonOf(doc)))
		if o := w.Open(); !o.OK() {
			v.Fail("", "opening: %s", o)
			return
		}
		r := requests.NewRequest()
		r.User.Username, r.User.Email, r.User.Password = name, "user@example.com", cur
		if o := w.Call(func() error { return w.db.AddUser(r) }); !o.OK() {
			v.Fail("", "limits %+v: adding a user: %s", l, o)
			return
		}
		now := cur
		for _, wd := range widths {
			for _, p := range pws {
				if reopen {
					if o := w.Open(); !o.OK() {
						v.Fail("", "limits %+v: reopening: %s", l, o)
						return
					}
				}
				next := textOf(p, wd, true)
				r := requests.NewRequest()
				r.User.Username, r.User.Email, r.User.OldPassword, r.User.Password = name, "user@example.com", now, next
				o := w.Call(func() error { return w.db.ChangeUserPassword(r) })
				v.Count("evaluations", 1)
				what := fmt.Sprintf("limits %+v, change to a password of %d bytes (reopened: %v)", l, p, reopen)
				if near(p, l.pmin, l.pmax) {
					v.State("distinct_nontrivial", what)
				}
				if o.Panic != "" || o.OK() != inside(p, l.pmin, l.pmax) {
					v.Fail(what, "%s: %s", what, o)
					return
				}
				if o.OK() {
					now = next
				}
			}
		}
		// Saving has kept what was configured.
		f, err := w.File(w.path)
		if err != nil {
			v.Fail("", "%v", err)
			return
		}
		if bad := policyDiff(mapOf(toTree(l.doc())), mapOf(f["policy"])); bad != "" {
			v.Fail("saved", "limits %+v: after saving, the policy in the file has %s", l, bad)
			return
		}
	}
}

// policyDiff compares the members of a configured policy with those saved.
func policyDiff(want, got map[string]interface{}) string {
	for _, part := range []string{"user", "password"} {
		for k, x := range mapOf(want[part]) {
			if y := mapOf(got[part])[k]; jsonOf(x) != jsonOf(y) {
				return fmt.Sprintf("%s.%s = %s instead of %s", part, k, jsonOf(y), jsonOf(x))
			}
		}
	}
	return ""
}

func runC17(c *Ctx) {
	small := 3
	if c.Thorough {
		small = 4
	}
	var names []int
	for n := 0; n <= small+2; n++ {
		names = append(names, n)
	}
	for a := 1; a <= small; a++ {
		for b := 1; b <= small; b++ {
			c.Case(fmt.Sprintf("small/%d-%d", a, b), func(v *V) {
				for p := 1; p <= small; p++ {
					for q := 1; q <= small; q++ {
						lengthCase(c, v, limits{a, b, p, q}, names, names, []int{1})
					}
				}
			})
		}
	}
	for _, l := range []limits{{3, 50, 8, 128}, {1, 1, 1, 1}, {50, 50, 128, 128}, {10, 20, 72, 72}, {2, 255, 70, 75}, {1, 300, 1, 1000}, {8, 128, 3, 50}, {5, 6, 7, 8}, {6, 5, 8, 7}, {4, 9, 12, 64}, {100, 1000, 73, 73}} {
		c.Case(fmt.Sprintf("large/%+v", l), func(v *V) {
			lengthCase(c, v, l, around(l.umin, l.umax), around(l.pmin, l.pmax), []int{1, 2, 3, 4, padded})
		})
	}
	c.Case("defaults", func(v *V) { defaultCases(c, v) })
	for flags := 0; flags < 64; flags++ {
		c.Case("texts/"+itoa(flags), func(v *V) { policyDescr(c, v, flags) })
	}
}

// defaultCases: limits left out of the file.
func defaultCases(c *Ctx, v *V) {
	type member struct {
		part, name string
		def, own   int
	}
	members := []member{{"user", "min_length", 3, 5}, {"user", "max_length", 50, 20}, {"password", "keep_versions", 10, 4}, {"password", "min_length", 8, 10}, {"password", "max_length", 128, 40}}
	flags := []member{{"user", "allow_non_alpha_numeric", 0, 0}, {"user", "allow_uppercase", 0, 0}, {"password", "require_uppercase", 0, 0}, {"password", "require_lowercase", 0, 0}, {"password", "require_number", 0, 0},
		{"password", "require_non_alpha_numeric", 0, 0}, {"password", "block_reuse", 0, 0}}
	w := NewWorld(c.Scratch)
	defer w.Close()
	for mask := 0; mask < 1<<len(members); mask++ {
		for fl := -1; fl <= len(flags); fl++ {
			for form := 0; form < 3; form++ {
				doc := obj{"version": "1.0.0", "revision": 1}
				user, pw := obj{}, obj{}
				parts := map[string]obj{"user": user, "password": pw}
				want := map[string]interface{}{"user": map[string]interface{}{}, "password": map[string]interface{}{}}
				vals := map[string]int{}
				for i, m := range members {
					n := m.def
					if mask>>i&1 == 1 {
						parts[m.part][m.name] = m.own
						n = m.own
					}
					vals[m.part+"."+m.name] = n
					mapOf(want[m.part])[m.name] = float64(n)
				}
				for i, m := range flags {
					on := fl == len(flags) || fl == i
					if on {
						parts[m.part][m.name] = true
					}
					mapOf(want[m.part])[m.name] = on
				}
				pol := obj{}
				for n, p := range parts {
					if form == 0 || len(p) > 0 {
						pol[n] = p
					}
				}
				if form != 2 || len(pol) > 0 {
					doc["policy"] = pol
				}
				text := jsonOf(doc)
				writeFile(w.path, []byte(text))
				for i := 0; i < 2; i++ {
					v.Count("evaluations", 1)
					if o := w.Open(); !o.OK() {
						v.Fail(text, "opening %s (time %d): %s", text, i+1, o)
						return
					}
					if bad := policyDiff(want, mapOf(mapOf(toTree(w.db))["policy"])); bad != "" {
						v.Fail(text, "opening %s (time %d): the policy has %s", text, i+1, bad)
						return
					}
					if bad := textsAgree(w, vals); bad != "" {
						v.Fail(text, "opening %s (time %d): %s", text, i+1, bad)
						return
					}
					r := requests.NewRequest()
					n := vals["user.min_length"]
					if i == 1 {
						n = vals["user.max_length"]
					}
					r.User.Username, r.User.Email, r.User.Password = textOf(n, 1, false), "u"+itoa(i)+"@example.com", textOf(vals["password.max_length"], 1, true)
					if o := w.Call(func() error { return w.db.AddUser(r) }); !o.OK() {
						v.Fail(text, "with %s: a user within the limits: %s", text, o)
						return
					}
					f, err := w.File(w.path)
					if err != nil {
						v.Fail(text, "%v", err)
						return
					}
					if bad := policyDiff(want, mapOf(f["policy"])); bad != "" {
						v.Fail(text, "opening %s (time %d), adding a user: the policy in the file has %s", text, i+1, bad)
						return
					}
				}
				if form > 0 || fl >= 0 {
					continue
				}
				// The lengths, as they behave.
				for _, n := range []int{vals["user.min_length"], vals["user.max_length"]} {
					for _, p := range []int{vals["password.min_length"], vals["password.max_length"]} {
						for d := -1; d <= 1; d++ {
							for e := -1; e <= 1; e++ {
								writeFile(w.path, []byte(text))
								if o := w.Open(); !o.OK() {
									v.Fail(text, "%s", o)
									return
								}
								r := requests.NewRequest()
								r.User.Username, r.User.Email, r.User.Password = textOf(n+d, 1, false), "u@example.com", textOf(p+e, 1, true)
								o := w.Call(func() error { return w.db.AddUser(r) })
								ok := inside(n+d, vals["user.min_length"], vals["user.max_length"]) && inside(p+e, vals["password.min_length"], vals["password.max_length"])
								v.Count("evaluations", 1)
								v.State("distinct_nontrivial", fmt.Sprint(text, n+d, p+e))
								if o.Panic != "" || o.OK() != ok {
									v.Fail(text, "with %s, a name of %d and a password of %d bytes: %s", text, n+d, p+e, o)
									return
								}
							}
						}
					}
				}
				// The number of passwords kept.
				writeFile(w.path, []byte(text))
				w.Open()
				r := requests.NewRequest()
				pwOf := func(i int) string { return fmt.Sprintf("password-%03d-%s", i, "Aa1!") }
				r.User.Username, r.User.Email, r.User.Password = "abcdefgh", "u@example.com", pwOf(0)
				if o := w.Call(func() error { return w.db.AddUser(r) }); !o.OK() {
					v.Fail(text, "%s", o)
					return
				}
				for i := 1; i < 14; i++ {
					r := requests.NewRequest()
					r.User.Username, r.User.Email, r.User.OldPassword, r.User.Password = "abcdefgh", "u@example.com", pwOf(i-1), pwOf(i)
					if o := w.Call(func() error { return w.db.ChangeUserPassword(r) }); !o.OK() {
						v.Fail(text, "%s", o)
						return
					}
				}
				if u := w.Snapshot("abcdefgh", "u@example.com"); u == nil || len(u.Passwords) != vals["password.keep_versions"]+1 {
					v.Fail(text, "with %s, after 13 changes the user does not have the current and %d earlier passwords", text, vals["password.keep_versions"])
					return
				}
			}
		}
	}
	// A new database has the defaults, and says so.
	os.Remove(w.path)
	if o := w.Open(); !o.OK() {
		v.Fail("new", "%s", o)
	} else if bad := textsAgree(w, map[string]int{"user.min_length": 3, "user.max_length": 50, "password.min_length": 8, "password.max_length": 128}); bad != "" {
		v.Fail("new", "new database: %s", bad)
	}
}

var rangeRe = regexp.MustCompile(`(\d+)-(\d+)`)

// textsAgree compares the limits stated by the four descriptions.
func textsAgree(w *World, vals map[string]int) string {
	bad := ""
	o := w.Call(func() error {
		for _, d := range []struct {
			part, text string
			off        int
		}{
			{"user", w.db.GetUsernamePolicySummary(), 0}, {"password", w.db.GetPasswordPolicySummary(), 0},
		} {
			m := rangeRe.FindStringSubmatch(d.text)
			lo, hi := vals[d.part+".min_length"], vals[d.part+".max_length"]
			if m == nil || m[1] != strconv.Itoa(lo) || m[2] != strconv.Itoa(hi) {
				bad = fmt.Sprintf("limits %d and %d are described as %q", lo, hi, d.text)
			}
		}
		return nil
	})
	if o.Panic != "" {
		return o.String()
	}
	return bad
}

// A pattern with look-ahead assertions at its start, which Go's regexp package
// does not know, evaluated by hand.
type pattern struct {
	ahead []*regexp.Regexp
	rest  *regexp.Regexp
}

func parsePattern(s string) (*pattern, error) {
	p := &pattern{}
	rest, ok := strings.CutPrefix(s, "^")
	if !ok {
		return nil, fmt.Errorf("not anchored")
	}
	for strings.HasPrefix(rest, "(?=") {
		depth, i := 0, 0
		for ; i < len(rest); i++ {
			if rest[i] == '(' {
				depth++
			} else if rest[i] == ')' {
				if depth--; depth == 0 {
					break
				}
			}
		}
		if i == len(rest) {
			return nil, fmt.Errorf("unbalanced")
		}
		re, err := regexp.Compile("^" + rest[3:i])
		if err != nil {
			return nil, err
		}
		p.ahead = append(p.ahead, re)
		rest = rest[i+1:]
	}
	re, err := regexp.Compile("^" + rest)
	if err != nil {
		return nil, err
	}
	p.rest = re
	return p, nil
}

func (p *pattern) match(s string) bool {
	for _, re := range p.ahead {
		if !re.MatchString(s) {
			return false
		}
	}
	return p.rest.MatchString(s)
}

// policyDescr checks the four descriptions for all small limits with one
// choice of flags.
func policyDescr(c *Ctx, v *V, flags int) {
	bit := func(i int) bool { return flags>>i&1 == 1 }
	upper, nonAlpha := bit(0), bit(1)
	reqU, reqL, reqN, reqX := bit(2), bit(3), bit(4), bit(5)
	top := 4
	if c.Thorough {
		top = 5
	}
	var words []string
	alphabet := "aZ7-_. !"
	var gen func(s string)
	gen = func(s string) {
		words = append(words, s)
		if len(s) <= top {
			for _, ch := range alphabet {
				gen(s + string(ch))
			}
		}
	}
	gen("")
	w := NewWorld(c.Scratch)
	defer w.Close()
	pairs := [][2]int{{8, 128}, {3, 50}, {12, 13}, {20, 9}}
	for lo := 1; lo <= top; lo++ {
		for hi := lo; hi <= top; hi++ {
			pairs = append(pairs, [2]int{lo, hi})
		}
	}
	hasWord := func(text, word string) bool {
		return regexp.MustCompile(`(^|[\s,])` + regexp.QuoteMeta(word) + `([\s,.]|$)`).MatchString(text)
	}
	for _, l := range pairs {
		if c.Expired() || v.Failed() {
			return
		}
		lo, hi := l[0], l[1]
		pol := obj{"user": obj{"min_length": lo, "max_length": hi, "allow_uppercase": upper, "allow_non_alpha_numeric": nonAlpha},
			"password": obj{"min_length": lo, "max_length": hi, "keep_versions": 3, "require_uppercase": reqU, "require_lowercase": reqL, "require_number": reqN, "require_non_alpha_numeric": reqX}}
		writeFile(w.path, []byte(jsonOf(obj{"version": "1", "policy": pol})))
		if o := w.Open(); !o.OK() {
			v.Fail("", "%s", o)
			return
		}
		var us, ur, ps, pr string
		o := w.Call(func() error {
			us, ur, ps, pr = w.db.GetUsernamePolicySummary(), w.db.GetUsernamePolicyRegex(), w.db.GetPasswordPolicySummary(), w.db.GetPasswordPolicyRegex()
			return nil
		})
		what := jsonOf(pol)
		if !o.OK() {
			v.Fail(what, "%s", o)
			return
		}
		v.Count("evaluations", 4)
		v.State("distinct_nontrivial", what)
		if bad := textsAgree(w, map[string]int{"user.min_length": lo, "user.max_length": hi, "password.min_length": lo, "password.max_length": hi}); bad != "" {
			v.Fail(what, "policy %s: %s", what, bad)
			return
		}
		for _, x := range []struct {
			text, word string
			want       bool
		}{
			{us, "lowercase", !upper}, {us, "alpha-numeric", !nonAlpha},
			{ps, "uppercase", reqU}, {ps, "lowercase", reqL}, {ps, "numbers", reqN}, {ps, "non alpha-numeric", reqX},
		} {
			if hasWord(x.text, x.word) != x.want {
				v.Fail(what, "policy %s is described as %q", what, x.text)
				return
			}
		}
		up, err := parsePattern(ur)
		pp, err2 := parsePattern(pr)
		if err != nil || err2 != nil {
			if lo <= hi {
				v.Fail(what, "policy %s: patterns %q, %q: %v %v", what, ur, pr, err, err2)
			}
			// With the limits crossed there is no valid pattern, and nothing
			// to match.
			if lo > hi && strings.Contains(ur, fmt.Sprintf("{%d,%d}", lo-1, hi-1)) && strings.Contains(pr, fmt.Sprintf("{%d,%d}", lo, hi)) {
				continue
			}
			if v.Failed() {
				return
			}
			continue
		}
		list := words
		if lo > top || hi > top {
			list = nil
			for _, n := range around(lo, hi) {
				if n > 0 {
					list = append(list, "a"+strings.Repeat("b", n-1), textOf(n, 1, true), strings.Repeat("Z", n), "a"+strings.Repeat(".", n-1), "a"+strings.Repeat("7", n-1))
				}
			}
		}
		for _, s := range list {
			// A username starts with a letter.
			ok := inside(len(s), lo, hi) && s != ""
			for i, ch := range s {
				switch {
				case ch >= 'a' && ch <= 'z', ch >= 'A' && ch <= 'Z' && upper:
				case ch >= '0' && ch <= '9' && i > 0:
				case strings.ContainsRune("-_.", ch) && nonAlpha && i > 0:
				default:
					ok = false
				}
			}
			if up.match(s) != ok {
				v.Fail(what, "policy %s: the pattern %q for usernames: %q matches: %v", what, ur, s, !ok)
				return
			}
			// A required class has to be there; whether once or twice is left
			// to the pattern.
			ok, sure := inside(len(s), lo, hi), true
			for _, x := range []struct {
				req bool
				in  string
			}{{reqU, "ABZ"}, {reqL, "ab"}, {reqN, "127"}, {reqX, "!#"}} {
				if !x.req {
					continue
				}
				switch n := countAny(s, x.in); {
				case n == 0:
					ok = false
				case n == 1:
					sure = false
				}
			}
			if got := pp.match(s); got && !ok || !got && ok && sure {
				v.Fail(what, "policy %s: the pattern %q for passwords: %q matches: %v", what, pr, s, got)
				return
			}
			v.Count("evaluations", 2)
		}
	}
}

func countAny(s, set string) int {
	n := 0
	for _, ch := range s {
		if strings.ContainsRune(set, ch) {
			n++
		}
	}
	return n
}
