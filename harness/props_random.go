package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C26", Level: "fault_enumeration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "random strings for every length and range of a domain under every constant outcome and a menu of varying ones; user IDs for every constant and every single-byte outcome; adding a user under every sequence of identifiers drawn from two existing ones and fresh ones up to a length, and stuck for ever; adding an API key while the source repeats an existing key for every number of draws, then another key, then fresh ones, and stuck for ever; for keys of the same and of other users, disabled and deleted ones, live and reopened; the texts made by processes for every pair of a menu of starting times. Non-trivial: executions in which an existing identifier was drawn",
		Assumptions: []string{"negative bounds of ranges are not explored", "the sources themselves do not fail: Go's do not return errors"},
		Run:         runC26,
	})
}

var (
	reAlnum = regexp.MustCompile(`^[A-Za-z0-9]*$`)
	reUUID  = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)
)

// outcomes are scripts of random numbers.
func outcomes(wide bool) map[string]func(i int, n uint64) uint64 {
	out := map[string]func(i int, n uint64) uint64{
		"last":      func(i int, n uint64) uint64 { return n - 1 },
		"all ones":  func(i int, n uint64) uint64 { return ^uint64(0) },
		"counting":  func(i int, n uint64) uint64 { return uint64(i) },
		"first max": func(i int, n uint64) uint64 { return map[bool]uint64{true: n - 1}[i == 0] },
		"alternate": func(i int, n uint64) uint64 { return uint64(i%2) * (n - 1) },
		"high bit":  func(i int, n uint64) uint64 { return 1 << 63 },
	}
	k := uint64(4)
	if wide {
		k = 256
	}
	for j := uint64(0); j < k; j++ {
		out[fmt.Sprintf("constant %d", j)] = func(i int, n uint64) uint64 { return j }
	}
	return out
}

func runC26(c *Ctx) {
	most := 40
	if c.Thorough {
		most = 130
	}
	withScript := func(w *World, f func(i int, n uint64) uint64) {
		i := 0
		w.s.script = func(t *Thread, n uint64) (uint64, bool) {
			i++
			return f(i-1, n), true
		}
		w.s.script8 = func(t *Thread, b []byte) bool {
			for j := range b {
				b[j] = byte(f(i, 256))
				i++
			}
			return true
		}
	}
	scripts := outcomes(c.Thorough)
	for _, name := range sortedNames(scripts) {
		f := scripts[name]
		c.Case("strings/"+name, func(v *V) {
			w := NewWorld(c.Scratch)
			defer w.Close()
			check := func(what, s string, lo, hi int, o Outcome) {
				v.Count("evaluations", 1)
				v.State("distinct_nontrivial", what)
				if o.Panic != "" || len(s) < lo || len(s) > hi || !reAlnum.MatchString(s) {
					v.Fail("strings", "%s with the outcomes %q is %q: %s", what, name, s, o)
				}
			}
			var lengths []int
			for n := -3; n <= most; n++ {
				lengths = append(lengths, n)
			}
			lengths = append(lengths, 255, 256, 1000, 65537, -1000000)
			for _, n := range lengths {
				var s string
				want := func(def int) int {
					if n < 1 {
						return def
					}
					return n
				}
				withScript(w, f)
				o := w.Call(func() error { s = identity.GetRandomString(n); return nil })
				check(fmt.Sprintf("GetRandomString(%d)", n), s, want(40), want(40), o)
				withScript(w, f)
				o = w.Call(func() error { s = identity.NewRandomString(n); return nil })
				check(fmt.Sprintf("NewRandomString(%d)", n), s, want(32), want(32), o)
			}
			for a := 0; a <= most; a++ {
				for b := 0; b <= most; b++ {
					lo, hi := a, b-1
					if a == b {
						hi = a
					} else if a > b {
						lo, hi = b, a-1
					}
					var s string
					withScript(w, f)
					o := w.Call(func() error { s = identity.GetRandomStringFromRange(a, b); return nil })
					check(fmt.Sprintf("GetRandomStringFromRange(%d, %d)", a, b), s, lo, hi, o)
				}
			}
		})
	}
	// Every outcome of the draw that decides the length, and of every letter.
	c.Case("strings/draws", func(v *V) {
		w := NewWorld(c.Scratch)
		defer w.Close()
		for _, r := range [][2]int{{72, 96}, {96, 72}, {0, 1}, {1, 0}, {5, 6}, {1, 64}, {0, 300}} {
			for at := 0; at < 100; at++ {
				for x := uint64(0); x < 300; x++ {
					if at > 0 && x > 62 {
						break
					}
					withScript(w, func(i int, n uint64) uint64 {
						if i == at {
							return x
						}
						return 7
					})
					var s string
					o := w.Call(func() error { s = identity.GetRandomStringFromRange(r[0], r[1]); return nil })
					v.Count("evaluations", 1)
					lo, hi := min(r[0], r[1]), max(r[0], r[1])
					if o.Panic != "" || len(s) < lo || len(s) >= hi || !reAlnum.MatchString(s) {
						v.Fail("draws", "GetRandomStringFromRange(%d, %d) with draw %d = %d is %q: %s", r[0], r[1], at, x, s, o)
						return
					}
				}
			}
		}
	})
	c.Case("ids", func(v *V) {
		w := NewWorld(c.Scratch)
		defer w.Close()
		for pos := -1; pos < 16; pos++ {
			for _, bg := range []byte{0, 0x55, 0xff} {
				for x := 0; x < 256; x++ {
					w.s.script8 = func(t *Thread, b []byte) bool {
						for j := range b {
							b[j] = bg
							if j == pos || pos < 0 {
								b[j] = byte(x)
							}
						}
						return true
					}
					var id string
					o := w.Call(func() error { id = identity.NewID(); return nil })
					v.Count("evaluations", 1)
					v.State("distinct_nontrivial", id)
					if o.Panic != "" || !reUUID.MatchString(id) {
						v.Fail("ids", "with byte %d = %#x (others %#x) NewID gives %q: %s", pos, x, bg, id, o)
						return
					}
				}
			}
		}
	})
	userIDs(c)
	keyPrefixes(c)
	startTimes(c)
}

// emitRandom runs in a process of its own: it prints texts that are to be
// random, and those of a new database in dir.
func emitRandom(dir string) {
	fmt.Println("text", identity.GetRandomString(40))
	fmt.Println("text", identity.NewRandomString(32))
	fmt.Println("text", identity.GetRandomStringFromRange(32, 64))
	fmt.Println("text", identity.NewID())
	db, err := identity.NewDatabase(filepath.Join(dir, "users.json"))
	for i := 0; i < 2 && err == nil; i++ {
		r := requests.NewRequest()
		r.User.Username, r.User.Email, r.User.Password = "user"+itoa(i), "user"+itoa(i)+"@example.com", pwA
		if err = db.AddUser(r); err != nil {
			break
		}
		r.Key.Usage, r.Key.Comment = "api", "k"
		if err = db.AddAPIKey(r); err == nil {
			fmt.Println("text", r.Response.Payload)
		}
	}
	if err != nil {
		fmt.Println("error", err)
		return
	}
	for _, u := range db.Users {
		fmt.Println("text", u.ID)
		for _, k := range u.APIKeys {
			fmt.Println("text", k.ID)
		}
	}
}

// startTimes: processes which start at different times, every pair of them.
func startTimes(c *Ctx) {
	const ms = int64(1000000)
	c.Case("start-times", func(v *V) {
		seen := map[string]string{}
		for _, base := range []int64{1893456000 * 1000 * ms, 1900000000*1000*ms + 999*ms} {
			for _, d := range []int64{0, 1, 2, 10, 100, 999, 1000, 1001, 60000, 3600000, 86400000, 31536000000} {
				cmd := exec.Command(os.Args[0])
				dir, err := os.MkdirTemp(c.Scratch, "emit")
				if err != nil {
					v.Fail("", "%v", err)
					return
				}
				start := base + d*ms
				cmd.Env = append(os.Environ(), "VERIF_EMIT="+dir, "VERIF_START="+strconv.FormatInt(start, 10))
				out, err := cmd.Output()
				os.RemoveAll(dir)
				v.Count("evaluations", 1)
				if err != nil || strings.Contains(string(out), "error") {
					v.Fail("", "a process started at %d: %v\n%s", start, err, out)
					return
				}
				for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
					if before, ok := seen[l]; ok {
						v.Fail("", "a process started at %s and one started at %d both made the %s", before, start, l)
						return
					}
					seen[l] = strconv.FormatInt(start, 10)
				}
				v.State("distinct_nontrivial", string(out))
			}
		}
	})
}

// identifiers returns the user IDs and key prefixes, and what repeats.
func identifiers(w *World) (ids []string, dup string) {
	seen := map[string]bool{}
	for _, u := range w.db.Users {
		if seen[strings.ToLower(u.ID)] {
			dup = "the user ID " + u.ID
		}
		seen[strings.ToLower(u.ID)] = true
		ids = append(ids, u.ID)
		for _, k := range u.APIKeys {
			if seen["key "+k.Prefix] {
				dup = "the key prefix " + k.Prefix
			}
			seen["key "+k.Prefix] = true
		}
	}
	return
}

// userIDs: adding a user while the source repeats identifiers.
func userIDs(c *Ctx) {
	var draw [2][]byte
	for i := range draw {
		draw[i] = []byte(strings.Repeat(string(rune('1'+i)), 64))
	}
	depth := 7
	if c.Thorough {
		depth = 12
	}
	setup := func(v *V) *World {
		w := NewWorld(c.Scratch)
		if o := w.Open(); !o.OK() {
			v.Fail("", "%s", o)
		}
		for i, op := range []Op{uAlice, uBob} {
			w.s.script8 = func(t *Thread, b []byte) bool { copy(b, draw[i]); return true }
			if o := w.Exec(op); !o.OK() {
				v.Fail("", "%s: %s", op, o)
			}
		}
		w.s.script8 = nil
		if ids, dup := identifiers(w); len(ids) != 2 || dup != "" {
			v.Fail("", "two users: %q %s", ids, dup)
		}
		return w
	}
	// A pattern names the outcome of each read: 0 and 1 repeat, 2 is fresh. Its
	// last outcome repeats for ever.
	run := func(v *V, w *World, pattern []int) {
		v.Count("evaluations", 1)
		before := fileContents(w.root)
		i, repeats := 0, 0
		w.s.script8 = func(t *Thread, b []byte) bool {
			p := pattern[min(i, len(pattern)-1)]
			i++
			if p == 2 {
				return false
			}
			repeats++
			copy(b, draw[p])
			return true
		}
		o := w.Exec(uCarol)
		w.s.script8 = nil
		what := fmt.Sprint(pattern)
		if repeats > 0 {
			v.State("distinct_nontrivial", what)
		}
		fail := func(f string, a ...interface{}) {
			v.Fail("users", "adding a user with the draws %v (0 and 1 repeat the IDs of users, 2 is fresh): %s", pattern, fmt.Sprintf(f, a...))
		}
		if o.Panic != "" {
			fail("%s", o)
			return
		}
		if o.Err == nil && v.WantSample() {
			v.Sample(map[string]interface{}{"draws": pattern, "reads": i, "outcome": o.String()})
		}
		for n := 0; n < 2; n++ {
			ids, dup := identifiers(w)
			want := 2
			if o.OK() {
				want = 3
			}
			if dup != "" || len(ids) != want {
				fail("%s; then the users are %q, twice: %s", o, ids, dup)
				return
			}
			for _, id := range ids {
				if !reUUID.MatchString(id) {
					fail("the ID %q", id)
				}
			}
			for _, x := range [][2]string{{"alice", pwA}, {"bob", pwB}, {"carol", pwC}} {
				if x[0] == "carol" && !o.OK() {
					continue
				}
				if a := w.Exec(Op{K: "auth", Name: x[0], Pw: x[1]}); !a.OK() {
					fail("%s; then %s: %s", o, x[0], a)
					return
				}
				if u := w.Snapshot(x[0], x[0]+"@example.com"); u == nil || u.Username != x[0] {
					fail("%s; then %s cannot be retrieved", o, x[0])
					return
				}
			}
			if !o.OK() && jsonOf(fileContents(w.root)) != jsonOf(before) {
				fail("%s, but the file has changed", o)
				return
			}
			if n == 0 {
				if x := w.Open(); !x.OK() {
					fail("%s; then reopening: %s", o, x)
					return
				}
			}
		}
		if !o.OK() {
			if x := w.Exec(uCarol); !x.OK() {
				fail("%s; then, with good randomness: %s", o, x)
			}
		}
	}
	for first := 0; first < 27; first++ {
		c.Case(fmt.Sprintf("users/%d", first), func(v *V) {
			var rec func(p []int)
			rec = func(p []int) {
				if v.Failed() || c.Expired() {
					return
				}
				w := setup(v)
				if !v.Failed() {
					run(v, w, p)
				}
				w.Close()
				if len(p) < depth {
					for x := 0; x < 3; x++ {
						// The last outcome repeats: extending by it is no new pattern
						// unless something else follows.
						rec(append(p[:len(p):len(p)], x))
					}
				}
			}
			rec([]int{first / 9, first / 3 % 3, first % 3})
		})
	}
}

// keyPrefixes: adding an API key while the source repeats earlier keys.
func keyPrefixes(c *Ctx) {
	add := func(name, comment string) Op { return on(name, Op{K: "addapi", Usage: "api", Comment: comment}) }
	step := 7
	if c.Thorough {
		step = 1
	}
	states := []struct {
		name    string
		prelude []Op // the first key is drawn from zeros, the second from ones
		gone    bool // the first key is deleted
	}{
		{"own", []Op{add("alice", "a"), add("alice", "b")}, false},
		{"others", []Op{add("bob", "a"), add("bob", "b")}, false},
		{"mixed", []Op{add("bob", "a"), add("alice", "b"), opReopen}, false},
		{"disabled", []Op{on("bob", Op{K: "addapi", Usage: "api", Comment: "a", Disabled: true}), add("alice", "b")}, false},
		{"disabled, reopened", []Op{on("bob", Op{K: "addapi", Usage: "api", Comment: "a", Disabled: true}), on("alice", Op{K: "addapi", Usage: "api", Comment: "b", Disabled: true}), opReopen}, false},
		{"deleted", []Op{add("alice", "a"), add("bob", "b"), on("alice", Op{K: "delapi", Ref: 0})}, true},
		{"failed", []Op{add("bob", "a"), add("alice", "b"), faulty(add("alice", "c"), "enospc"), faulty(on("bob", Op{K: "delapi", Ref: 0}), "enospc")}, false},
	}
	for _, st := range states {
		run := func(v *V, m1, m2 int, fill uint64) {
			v.Count("evaluations", 1)
			w := NewWorld(c.Scratch)
			defer w.Close()
			fail := func(f string, a ...interface{}) {
				v.Fail("keys", "keys: %s; adding a key when the source repeats the first key for %d draws, then the second up to draw %d, then is fresh: %s", st.name, m1, m2, fmt.Sprintf(f, a...))
			}
			if o := w.Open(); !o.OK() {
				fail("%s", o)
				return
			}
			keys := 0
			type owner struct{ name, text string }
			var good []owner
			for _, op := range append([]Op{uAlice, uBob}, st.prelude...) {
				if op.K == "addapi" {
					val := []uint64{0, fill, fill + 1}[keys%3]
					keys++
					w.s.script = func(t *Thread, n uint64) (uint64, bool) { return val, true }
				}
				o := w.Exec(op)
				w.s.script = nil
				if o.OK() == (op.Fault != "") {
					fail("%s: %s", op, o)
					return
				}
				if op.K == "addapi" && o.OK() && !op.Disabled && !(st.gone && keys == 1) {
					s, _ := o.Payload.(string)
					good = append(good, owner{op.Name, s})
				}
			}
			before := fileContents(w.root)
			d := 0
			w.s.script = func(t *Thread, n uint64) (uint64, bool) {
				d++
				switch {
				case d <= m1:
					return 0, true
				case d <= m2:
					return fill, true
				}
				return 0, false
			}
			op := add("alice", "new")
			o := w.Exec(op)
			w.s.script = nil
			if m2 > 0 || m1 > 0 {
				v.State("distinct_nontrivial", fmt.Sprint(st.name, m1, m2))
			}
			if o.Panic != "" {
				fail("%s", o)
				return
			}
			if o.OK() {
				s, _ := o.Payload.(string)
				if len(s) < 72 || len(s) > 96 || !reAlnum.MatchString(s) {
					fail("the key is %q", s)
					return
				}
				good = append(good, owner{"alice", s})
			} else if jsonOf(fileContents(w.root)) != jsonOf(before) {
				fail("%s, but the file has changed", o)
				return
			}
			if v.WantSample() {
				v.Sample(map[string]interface{}{"keys": st.name, "draws of the first": m1, "draws up to the second": m2, "draws": d, "outcome": o.String()})
			}
			for n := 0; n < 2; n++ {
				if _, dup := identifiers(w); dup != "" {
					fail("%s; then there is twice %s", o, dup)
					return
				}
				for _, g := range good {
					r := requests.NewRequest()
					r.Key.Payload = g.text
					x := w.Call(func() error { return w.db.LookupAPIKey(r) })
					if !x.OK() || r.User.Username != g.name {
						fail("%s; then the key %q of %s authenticates %q: %s", o, g.text, g.name, r.User.Username, x)
						return
					}
				}
				if n == 0 {
					if x := w.Open(); !x.OK() {
						fail("%s; then reopening: %s", o, x)
						return
					}
				}
			}
			if !o.OK() {
				if x := w.Exec(op); !x.OK() {
					fail("%s; then, with good randomness: %s", o, x)
				}
			}
		}
		const limit = 1500
		for from := 0; from < limit; from += 100 {
			c.Case(fmt.Sprintf("keys/%s/%d", st.name, from), func(v *V) {
				for m := from; m < from+100; m++ {
					if v.Failed() || c.Expired() {
						return
					}
					if m < 200 || m%step == 0 {
						run(v, m, 0, 1)
						run(v, 0, m, 1)
					}
					if m%step == 0 {
						for _, more := range []int{24, 72, 73, 97, 200, 500, 1100} {
							run(v, m, m+more, 1)
						}
					}
				}
			})
		}
		c.Case("keys/"+st.name+"/stuck", func(v *V) {
			for _, x := range [][2]int{{1 << 40, 0}, {0, 1 << 40}, {24, 1 << 40}, {73, 1 << 40}, {500, 1 << 40}} {
				for _, fill := range []uint64{1, 23, 61} {
					run(v, x[0], x[1], fill)
				}
			}
		})
	}
}
