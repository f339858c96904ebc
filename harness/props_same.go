package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C34", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "every operation of a menu, and pairs of them, after the same history, executed once under plain circumstances and once for every other of a list: each order in which the runtime may iterate over small maps, alone and at each single iteration, local time zones, working directories, environment variables (also every variable at once, whatever its name), file creation masks, another database used in between, reopening before every operation. Results, responses, requests, state, file and all later answers must be the same. Time and randomness are the same in all executions",
		Assumptions: []string{"the texts of errors are not compared", "maps have at most eight entries: all their orders are the rotations of one; larger ones are iterated in the same number of ways but not in all"},
		Run:         runC34,
	})
}

// circumstance is something outside a history that must not matter to it.
type circumstance struct {
	name   string
	enter  func(dir string) (leave func()) // holds during calls
	order  []uint64                        // order of iterations over maps
	other  bool                            // another database is used in between
	reopen bool                            // before every operation the database is opened anew
}

func circumstances() []circumstance {
	var out []circumstance
	for i := uint64(1); i < 8; i++ {
		out = append(out, circumstance{name: fmt.Sprintf("maps/%d", i), order: []uint64{i}})
	}
	zone := func(l *time.Location) func(string) func() {
		return func(string) func() {
			old := time.Local
			time.Local = l
			return func() { time.Local = old }
		}
	}
	for _, z := range []struct {
		name string
		off  int
	}{{"east", 14 * 3600}, {"west", -12 * 3600}, {"odd", 5*3600 + 45*60}, {"seconds", -(4*3600 + 56*60 + 2)}} {
		out = append(out, circumstance{name: "zone/" + z.name, enter: zone(time.FixedZone("XYZ", z.off))})
	}
	if l, err := time.LoadLocation("America/New_York"); err == nil {
		out = append(out, circumstance{name: "zone/new-york", enter: zone(l)})
	}
	out = append(out,
		circumstance{name: "directory", enter: func(dir string) func() {
			cwd, err := os.Getwd()
			if err != nil || os.Chdir(dir) != nil {
				fatalf("working directory: %v", err)
			}
			return func() { os.Chdir(cwd) }
		}},
		circumstance{name: "environment", enter: func(dir string) func() {
			old := map[string]*string{}
			for _, k := range []string{"HOME", "USER", "TZ", "LANG", "TMPDIR", "DEBUG", "GODEBUG"} {
				if v, ok := os.LookupEnv(k); ok {
					old[k] = &v
				} else {
					old[k] = nil
				}
			}
			for _, k := range []string{"HOME", "TMPDIR"} {
				os.Setenv(k, dir)
			}
			os.Setenv("USER", "bob")
			os.Setenv("TZ", "Asia/Tokyo")
			os.Setenv("LANG", "tr_TR.UTF-8")
			os.Setenv("DEBUG", "1")
			return func() {
				for k, v := range old {
					if v == nil {
						os.Unsetenv(k)
					} else {
						os.Setenv(k, *v)
					}
				}
			}
		}},
	)
	// Every environment variable (but those of the Go runtime) has the same
	// value, whatever its name.
	for i, val := range []string{"", "0", "1", "12", "true", "false", "production", "~/x.json", "a,b;c"} {
		out = append(out, circumstance{name: fmt.Sprintf("variables/%d", i), enter: func(string) func() {
			syscall.VerifEnv = func(key string) (string, bool) {
				switch key {
				case "HOME", "TMPDIR", "GODEBUG", "ZONEINFO", "TZ":
					return "", false
				}
				return val, true
			}
			return func() { syscall.VerifEnv = nil }
		}})
	}
	for _, m := range []int{0, 0022, 0077} {
		out = append(out, circumstance{name: fmt.Sprintf("umask/%03o", m), enter: func(string) func() {
			old := syscall.Umask(m)
			return func() { syscall.Umask(old) }
		}})
	}
	return append(out,
		circumstance{name: "other", other: true},
		circumstance{name: "reopened", reopen: true},
		circumstance{name: "all", other: true, reopen: true, order: []uint64{5}, enter: zone(time.FixedZone("XYZ", -9*3600))},
	)
}

// plain are the circumstances with which others are compared.
var plain = circumstance{name: "plain", order: []uint64{0}, enter: func(string) func() {
	old := time.Local
	time.Local = time.UTC
	return func() { time.Local = old }
}}

// under calls f under circumstances and returns how many iterations over maps
// there were.
func (z *circumstance) under(dir string, f func()) (n int) {
	if z.enter != nil {
		defer z.enter(dir)()
	}
	order := z.order
	if order == nil {
		order = plain.order
	}
	runtime.VerifMapOrder(order)
	defer func() {
		n = runtime.VerifMapIters()
		runtime.VerifMapOrder(nil)
	}()
	f()
	return
}

// renamer makes names and texts which no execution in this process has used,
// and takes them back in what it shows.
type renamer struct{ tag string }

var renamers int

func newRenamer() renamer {
	renamers++
	n, t := renamers, "zq"
	for i := 0; i < 5; i++ {
		t += string(rune('a' + n%26))
		n /= 26
	}
	return renamer{t}
}

func (r renamer) text(s string) string {
	for _, n := range []string{"alice", "bob", "carol", "ALICE", "BOB"} {
		if strings.HasPrefix(s, n) {
			if n == strings.ToUpper(n) {
				return n + strings.ToUpper(r.tag) + s[len(n):]
			}
			return n + r.tag + s[len(n):]
		}
	}
	if s == "" {
		return ""
	}
	return s + r.tag
}

func (r renamer) op(op Op) Op {
	if op.K == "adduser" && strings.HasPrefix(op.Email, "other@") {
		op.Email = r.tag + op.Email
	}
	op.Name, op.Full, op.Comment = r.text(op.Name), r.text(op.Full), r.text(op.Comment)
	if !strings.Contains(op.Email, r.tag) {
		op.Email = r.text(op.Email)
	}
	var roles []string
	for _, x := range op.Roles {
		roles = append(roles, r.text(x))
	}
	op.Roles = roles
	return op
}

func (r renamer) universe(un Universe) *Universe {
	var pairs [][2]string
	for _, p := range un.Pairs {
		pairs = append(pairs, [2]string{r.text(p[0]), r.text(p[1])})
	}
	var logins []string
	for _, l := range un.Logins {
		logins = append(logins, r.text(l))
	}
	un.Pairs, un.Logins = pairs, logins
	return &un
}

func (r renamer) back(s string) string {
	if r.tag == "" {
		return s
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, r.tag, ""), strings.ToUpper(r.tag), "")
}

// foreign are operations on another database that resemble an operation: the
// same with the users exchanged, and the same with other texts.
func foreign(op Op) []Op {
	a, b := op, op
	for _, p := range []*string{&a.Name, &a.Email} {
		switch {
		case strings.Contains(*p, "alice"):
			*p = strings.Replace(*p, "alice", "bob", 1)
		case strings.Contains(*p, "bob"):
			*p = strings.Replace(*p, "bob", "alice", 1)
		}
	}
	a.Fault, b.Fault = "", ""
	b.Full, b.Comment = strings.ToUpper(op.Full), strings.ToUpper(op.Comment)
	b.Roles = nil
	for _, r := range op.Roles {
		b.Roles = append(b.Roles, strings.ToUpper(r))
	}
	if b.K == "adduser" {
		b.Name, b.Email, b.Pw = strings.ToUpper(op.Name), strings.ToUpper(op.Email), "another-"+op.Pw
	}
	return []Op{b, a}
}

// lived is what is seen of a history.
type lived struct {
	what  []string // per operation
	iters []int
	end   []string
}

func runC34(c *Ctx) {
	prelude, ops, un := requestMenu()
	for _, n := range []string{"pgpM", "pgpN", "pgpAB"} {
		ops = append(ops, on("alice", Op{K: "addpk", Payload: n, Usage: "gpg"}))
	}
	// live runs a history, from a large state if one is given.
	live := func(v *V, z circumstance, from *crowd, history []Op) lived {
		v.Count("traces_validated_against_impl", 1)
		var out lived
		w, un := NewWorld(c.Scratch), un
		if from != nil {
			r, bad := from.run(c, nil)
			w.Close()
			if w, un = r.w, crowdUniverse(from); bad != "" {
				fatalf("%s", bad)
			}
		}
		defer func() { w.Close() }()
		dir := filepath.Join(w.root, "elsewhere")
		os.MkdirAll(dir, 0700)
		var o *World
		if z.other {
			o = NewWorld(c.Scratch)
			defer o.Close()
			o.Open()
		}
		as := renamer{}
		if z.other {
			as = newRenamer()
			un = as.universe(*un)
		}
		n := 0
		w.around = func(f func()) { n += z.under(dir, f) }
		w.t.rnd, w.s.now = 7, vclock0
		if bad := w.Open(); !bad.OK() {
			out.what = append(out.what, bad.String())
			return out
		}
		for i, op := range history {
			plainly := op
			if z.other {
				op = as.op(op)
			}
			v.Count("transitions", 1)
			if o != nil {
				o.s.now = vclock0 + int64(i)*1e9
				for _, x := range foreign(op) {
					o.Exec(x)
				}
			}
			if z.reopen {
				if bad := w.Open(); !bad.OK() {
					out.what = append(out.what, bad.String())
					return out
				}
			}
			w.t.rnd, w.s.now, n = uint64(i)*1000003+11, vclock0+int64(i+1)*1e9, 0
			r := w.Exec(op)
			line := fmt.Sprintf("%d. %s\n", i, plainly)
			switch {
			case r.Panic != "":
				line += "panic: " + r.Panic
			default:
				line += fmt.Sprintf("success: %v, code %d", r.OK(), r.Code)
			}
			if r.Req != nil {
				line += "\nrequest afterwards: " + dump(r.Req)
			}
			out.iters = append(out.iters, n)
			out.what = append(out.what, as.back(line))
			if i+2 < len(history) {
				continue
			}
			b, err := os.ReadFile(w.path)
			mode := os.FileMode(0)
			if fi, err := os.Stat(w.path); err == nil {
				mode = fi.Mode()
			}
			out.what[i] += fmt.Sprintf("\nstate: %s\nfile: %v %v\n%s", stateOf(w), mode, err, b)
			// The form in which values print must be the same, too.
			out.what[i] = as.back(out.what[i] + fmt.Sprintf("\nas JSON: %s", jsonOf(r.Payload)))
		}
		w.t.rnd, w.s.now = 99, vclock0+int64(len(history)+1)*1e9
		for _, l := range w.Lines(un) {
			out.end = append(out.end, as.back(l))
		}
		return out
	}
	zs := circumstances()
	// differs says what differs between two lives.
	differs := func(p, g lived) string {
		for i := range p.what {
			if i >= len(g.what) {
				return "it ended early"
			}
			if p.what[i] != g.what[i] {
				return fmt.Sprintf("at the operation\n  %s\n%s", strings.SplitN(p.what[i], "\n", 2)[0], firstDiff(p.what[i], g.what[i]))
			}
		}
		return diffLines(p.end, g.end)
	}
	judge := func(v *V, z circumstance, from *crowd, history []Op, p lived) bool {
		g := live(v, z, from, history)
		key := z.name
		own := history
		if from == nil {
			own = history[len(prelude):]
		} else {
			key += " in " + from.name
		}
		for _, op := range own {
			key += " / " + op.String()
		}
		v.State("states", key)
		if d := differs(p, g); d != "" {
			v.Fail(key, "the history\n%s\nwith the same time and randomness differs between plain circumstances and %q: %s", traceString(history), z.name, d)
			return false
		}
		return true
	}
	with := func(l ...Op) []Op { return append(append([]Op{}, prelude...), l...) }
	for i, op := range ops {
		c.Case(fmt.Sprintf("op/%d", i), func(v *V) {
			h := with(op)
			p := live(v, plain, nil, h)
			for _, z := range zs {
				if c.Expired() || !judge(v, z, nil, h, p) {
					return
				}
			}
			if v.WantSample() {
				v.Sample(map[string]interface{}{"operation": op.String(), "iterations over maps": p.iters})
			}
			// Each single iteration of the last operation in another order.
			last := 0
			if len(p.iters) == len(h) {
				last = p.iters[len(h)-1]
			}
			if last > 40 {
				last = 40
			}
			for k := 0; k < last; k++ {
				for off := uint64(1); off < 8; off++ {
					if !c.Thorough && off != 1 && off != 4 {
						continue
					}
					order := make([]uint64, k+2)
					order[k] = off
					if c.Expired() || !judge(v, circumstance{name: fmt.Sprintf("map iteration %d at %d", k, off), order: order}, nil, h, p) {
						return
					}
				}
			}
		})
	}
	for i, x := range ops {
		c.Case(fmt.Sprintf("pair/%d", i), func(v *V) {
			for j, y := range ops {
				if !c.Thorough && (i+j)%2 != 0 {
					continue
				}
				h := with(x, y)
				p := live(v, plain, nil, h)
				for k, z := range zs {
					if !c.Thorough && k%5 != (i+j/4)%5 && z.name != "all" {
						continue
					}
					if c.Expired() || !judge(v, z, nil, h, p) {
						return
					}
				}
			}
		})
	}
	// From large states.
	for _, cr := range []*crowd{crowdOf("all", c.size(12, 40))} {
		for i, op := range ops {
			c.Case(fmt.Sprintf("crowd-%s/%d", cr.name, i), func(v *V) {
				h := []Op{op}
				p := live(v, plain, cr, h)
				for k, z := range zs {
					if z.other || !c.Thorough && z.name != "all" && (k+i)%3 != 0 {
						continue
					}
					if c.Expired() || !judge(v, z, cr, h, p) {
						return
					}
				}
			})
		}
	}
	// Values that are parsed outside of a database.
	parse := func(name string, f func(g *World) string) {
		c.Case("value/"+name, func(v *V) {
			v.Count("traces_validated_against_impl", 1)
			g := NewWorld(c.Scratch)
			defer g.Close()
			iters := 0
			get := func(z circumstance) string {
				v.Count("transitions", 1)
				g.t.rnd, g.s.now, iters = 5, vclock0, 0
				g.around = func(h func()) { iters += z.under(g.root, h) }
				return f(g)
			}
			p := get(plain)
			last := iters
			if strings.HasPrefix(p, "the comment must") {
				v.Fail(name, "%s: %s", name, p)
				return
			}
			try := func(z circumstance) bool {
				v.State("states", name+" "+z.name)
				if x := get(z); x != p {
					v.Fail(name+" "+z.name, "%s differs between plain circumstances and %q: %s", name, z.name, firstDiff(p, x))
					return false
				}
				return true
			}
			for _, z := range zs {
				if !try(z) {
					return
				}
			}
			for k := 0; k < last && k < 200; k++ {
				for off := uint64(1); off < 8; off++ {
					order := make([]uint64, k+2)
					order[k] = off
					if !try(circumstance{name: fmt.Sprintf("map iteration %d at %d", k, off), order: order}) {
						return
					}
				}
			}
		})
	}
	for _, n := range []string{"rsaA:ssh", "rsaA:pem", "rsaB:sshc", "pgpA", "pgpB", "pgpM", "pgpN", "pgpD", "pgpE", "pgpAB", "linux", "nonsense"} {
		parse("key "+n, func(g *World) string {
			var k *identity.PublicKey
			usage := "ssh"
			if strings.HasPrefix(n, "pgp") || n == "linux" {
				usage = "gpg"
			}
			o := g.Call(func() error {
				r := requests.NewRequest()
				r.Key.Payload, r.Key.Usage = fixtureKey(n), usage
				var err error
				k, err = identity.NewPublicKey(r)
				return err
			})
			if p := fixtures[n]["primary"]; p != "" && (k == nil || !strings.HasPrefix(k.Comment, p+",")) {
				return "the comment must show the primary identity " + p + ": " + jsonOf(k)
			}
			return fmt.Sprint(o.OK(), o.Panic) + jsonOf(k) + dump(k)
		})
	}
	var specs []string
	for n := range mfaSpecs {
		specs = append(specs, n)
	}
	sort.Strings(specs)
	for _, n := range specs {
		spec := mfaSpecs[n]
		parse("token "+n, func(g *World) string {
			var k *identity.MfaToken
			o := g.Call(func() error {
				r := requests.NewRequest()
				fillMfa(r, Op{K: "addmfa", Payload: n, Comment: "c"}, time.Unix(0, vclock0).UTC())
				var err error
				k, err = identity.NewMfaToken(r)
				return err
			})
			return fmt.Sprint(spec.Type, o.OK(), o.Panic) + jsonOf(k) + dump(k)
		})
	}
	for _, n := range []string{"Smith, Carol", "Carol Smith", "Dr. Carol Anne Smith, Jr."} {
		parse("name "+n, func(g *World) string {
			var k *identity.Name
			o := g.Call(func() error { var err error; k, err = identity.ParseName(n); return err })
			return fmt.Sprint(o.OK(), o.Panic) + jsonOf(k)
		})
	}
	for _, n := range [][2]string{{"Citigroup", "Visa"}, {"capone", "mastercard"}, {"american express", "American Express"}, {"x", "Discover"}} {
		parse("card "+n[0]+"/"+n[1], func(g *World) string {
			var k *identity.CreditCard
			o := g.Call(func() error {
				k = identity.NewCreditCard()
				err := k.AddIssuer(n[0])
				if err == nil {
					err = k.AddAssociation(n[1])
				}
				return err
			})
			return fmt.Sprint(o.OK(), o.Panic) + jsonOf(k) + dump(k)
		})
	}
}
