package main

import (
	"fmt"
	"os"
	"reflect"
	"regexp"
	"strings"
	"time"
)

func init() {
	register(&Property{
		ID: "C37", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "every operation of a menu and every pair of them (accepted, refused, failing to save) in a world of two users with keys and tokens, executed once with requests and results left alone and once with everything that can be reached from them overwritten, including the lists up to their capacity: as soon as the operation has returned, or only after the next one. Results, database, file, all queries, a later save and the reopened database must be the same. Every result of every query is overwritten while another result of every query is held, which must stay as it was. All histories of four changes of one user (five for thorough) with a result of every query held since each and then overwritten",
		Assumptions: []string{"time and randomness are the same in both executions", "unexported fields of results are reached through their methods Get and Add only"},
		Run:         runC37,
	})
}

// scribble overwrites everything that can be reached from a value.
func scribble(x interface{}) {
	if x == nil {
		return
	}
	scribbleValue(reflect.ValueOf(x), map[uintptr]bool{})
}

func scribbleValue(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			scribbleValue(v.Elem(), seen)
		}
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		// Bundles give access to their list.
		if get := v.MethodByName("Get"); get.IsValid() && get.Type().NumIn() == 0 && get.Type().NumOut() == 1 && get.Type().Out(0).Kind() == reflect.Slice {
			scribbleValue(get.Call(nil)[0], seen)
			if add := v.MethodByName("Add"); add.IsValid() && add.Type().NumIn() == 1 && add.Type().In(0).Kind() == reflect.Ptr {
				for i := 0; i < 5; i++ {
					add.Call([]reflect.Value{reflect.New(add.Type().In(0).Elem())})
				}
			}
		}
		scribbleValue(v.Elem(), seen)
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			if v.CanSet() {
				v.Set(reflect.ValueOf(t.Add(-1234567 * time.Second)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribbleValue(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			scribbleValue(v.Index(i), seen)
		}
		for i := 0; i < full.Len(); i++ {
			e := full.Index(i)
			switch e.Kind() {
			case reflect.Ptr:
				if i >= v.Len() || i%2 == 1 {
					e.Set(reflect.New(e.Type().Elem()))
				} else {
					e.Set(reflect.Zero(e.Type()))
				}
			default:
				scribbleValue(e, seen)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			n := reflect.New(v.Type().Elem()).Elem()
			n.Set(v.MapIndex(k))
			scribbleValue(n, seen)
			v.SetMapIndex(k, n)
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scribbled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("scribbled " + v.String())
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 7)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() + 7)
	}
}

var longNumbers = regexp.MustCompile("[0-9]{5,}")

// shownBy is what the caller of an operation sees.
func shownBy(w *World, o Outcome) string {
	// Paths of scratch directories and names of temporary files differ.
	s := longNumbers.ReplaceAllString(strings.ReplaceAll(o.String(), w.root, "ROOT"), "#") + " " + itoa(o.Code)
	if o.Req != nil {
		s += " " + dump(*o.Req)
	}
	return s + " " + dump(o.Payload)
}

// scribbleOutcome overwrites the request and the result of an operation.
func scribbleOutcome(o Outcome) {
	scribble(o.Payload)
	if o.Req != nil {
		scribble(o.Req)
	}
}

// scribbledDocument: what the results hold of a file with every member.
func scribbledDocument(c *Ctx) {
	whole, _ := richDoc()
	enabled := func(l []interface{}) {
		for _, e := range l {
			mapOf(e)["disabled"] = false
		}
	}
	a := func(op Op) Op { return on("alice", op) }
	ops := []Op{a(Op{K: "getuser"}), a(Op{K: "getusers"}), a(Op{K: "getpk", Usage: "ssh"}), a(Op{K: "getpk", Usage: "gpg"}), a(Op{K: "getapi", Usage: "api"}), a(Op{K: "getmfa"}), {K: "identify", Name: "alice"}, {K: "auth", Name: "alice", Pw: pwA}}
	for i, x := range ops {
		c.Case("document/"+itoa(i), func(v *V) {
			for _, y := range ops {
				doc := cloneDoc(whole)
				u := mapOf(listOf(doc["users"])[0])
				for _, k := range []string{"public_keys", "api_keys", "mfa_tokens"} {
					enabled(listOf(u[k]))
				}
				w := NewWorld(c.Scratch)
				w.s.realHash = true
				writeFile(w.path, []byte(render(doc, false, false, true, 0)))
				if o := w.Open(); !o.OK() {
					v.Fail("", "opening: %s\n%s", o, jsonOf(doc))
					w.Close()
					return
				}
				image := func() string {
					if o := w.Exec(opSave); !o.OK() {
						return "saving: " + o.String()
					}
					got, err := w.File(w.path)
					if err != nil {
						return err.Error()
					}
					delete(got, "revision")
					delete(got, "last_modified")
					return jsonOf(got)
				}
				before := image()
				for _, op := range []Op{x, y} {
					o := w.Exec(op)
					v.Count("transitions", 1)
					if !o.OK() {
						v.Fail(op.String(), "%s: %s", op, o)
					}
					scribbleOutcome(o)
				}
				v.State("states", x.String()+y.String())
				if now := image(); now != before {
					v.Fail(x.K, "overwriting the results of\n%s\n%s\nchanged the database: %s", x, y, firstDiff(before, now))
				}
				w.Close()
			}
			v.Count("traces_validated_against_impl", len(ops))
		})
	}
}

func runC37(c *Ctx) {
	scribbledDocument(c)
	prelude, ops, un := requestMenu()
	queries := func() []Op {
		var out []Op
		for _, n := range []string{"alice", "bob"} {
			out = append(out, on(n, Op{K: "getusers"}), on(n, Op{K: "getuser"}), on(n, Op{K: "getpk", Usage: "ssh"}), on(n, Op{K: "getpk", Usage: "gpg"}), on(n, Op{K: "getapi", Usage: "api"}), on(n, Op{K: "getmfa"}), Op{K: "identify", Name: n})
		}
		return out
	}()
	// final is what can be seen in the end.
	final := func(w *World) string {
		b, err := os.ReadFile(w.path)
		s := fmt.Sprintf("%s\n%v %s\n", stateOf(w), err, b)
		s += everything(w, un.Pairs) + "\n" + strings.Join(w.Lines(un), "\n")
		o := w.Exec(Op{K: "save"})
		b, err = os.ReadFile(w.path)
		s += fmt.Sprintf("\nsaved: %s %v %s\n", o, err, b)
		o = w.Exec(Op{K: "reopen"})
		return s + o.String() + "\n" + everything(w, un.Pairs) + "\n" + strings.Join(w.Lines(un), "\n")
	}
	// run executes operations; mode says what becomes of requests and results:
	// 0 nothing, 1 overwritten at once, 2 overwritten after the next operation.
	run := func(list []Op, mode int) (out []string) {
		w := NewWorld(c.Scratch)
		defer w.Close()
		if o := w.Open(); !o.OK() {
			return []string{o.String()}
		}
		var last []Outcome
		for i, op := range list {
			var now []Outcome
			o := w.Exec(op)
			now = append(now, o)
			out = append(out, shownBy(w, o))
			if i >= len(prelude) {
				for _, q := range queries {
					if q.Name == op.Name || q.K != "getusers" && q.K != "getuser" {
						now = append(now, w.Exec(q))
					}
				}
			}
			switch mode {
			case 1:
				for _, o := range now {
					scribbleOutcome(o)
				}
			case 2:
				for _, o := range last {
					scribbleOutcome(o)
				}
			}
			last = now
		}
		if mode == 2 {
			for _, o := range last {
				scribbleOutcome(o)
			}
		}
		return append(out, final(w))
	}
	compare := func(v *V, list []Op) {
		clean := run(list, 0)
		key := ""
		for _, op := range list[len(prelude):] {
			key += op.String() + "; "
		}
		v.State("states", key)
		for mode := 1; mode <= 2; mode++ {
			v.Count("transitions", len(list))
			v.Count("traces_validated_against_impl", 1)
			got := run(list, mode)
			when := []string{"", "as soon as it has returned", "after the next operation"}[mode]
			for i := range clean {
				if i >= len(got) || got[i] != clean[i] {
					what := "the final state and file"
					if i < len(list) {
						what = "the outcome of operation " + itoa(i+1)
					}
					g := ""
					if i < len(got) {
						g = got[i]
					}
					v.Fail(key+when, "in\n%s\nwith everything in the request and the result of every operation overwritten %s, %s changes: %s", traceString(list), when, what, firstDiff(clean[i], g))
					return
				}
			}
		}
	}
	for i, a := range ops {
		c.Case(fmt.Sprintf("pair/%d", i), func(v *V) {
			compare(v, append(append([]Op{}, prelude...), a))
			for _, b := range ops {
				if !c.Thorough && a.Fault != "" && b.Fault != "" {
					continue
				}
				if c.Expired() || v.Failed() {
					return
				}
				compare(v, append(append([]Op{}, prelude...), a, b))
			}
			if v.WantSample() {
				v.Sample(map[string]interface{}{"first": a.String()})
			}
		})
	}
	// Two results at a time: overwriting one leaves the other alone.
	c.Case("held", func(v *V) {
		for _, p := range queries {
			for _, q := range queries {
				r, bad := c.newRun(nil, prelude, nil)
				if bad != "" {
					v.Fail("", "%s", bad)
					r.w.Close()
					return
				}
				a := r.w.Exec(p)
				b := r.w.Exec(q)
				before := shownBy(r.w, a)
				scribbleOutcome(b)
				v.Count("transitions", 2)
				v.Count("traces_validated_against_impl", 1)
				v.State("states", "held "+p.String()+q.String())
				if now := shownBy(r.w, a); now != before {
					v.Fail(p.String()+"; "+q.String(), "overwriting the result of\n  %s\nchanges the result of\n  %s\n%s", q, p, firstDiff(before, now))
				}
				r.w.Close()
			}
		}
	})
	// Histories of one user, with results held since any moment.
	al := func(op Op) Op { return on("alice", op) }
	steps := []Op{
		al(Op{K: "addpk", Payload: "rsaA:ssh", Usage: "ssh", Comment: "k"}), al(Op{K: "addpk", Payload: "pgpA", Usage: "gpg"}), al(Op{K: "delpk", Ref: 0}),
		al(Op{K: "addapi", Usage: "api", Comment: "a"}), al(Op{K: "delapi", Ref: 0}),
		al(Op{K: "addmfa", Payload: "totpA", Comment: "t"}), al(Op{K: "addmfa", Payload: "u2fA", Comment: "u"}), al(Op{K: "delmfa", Ref: 0}),
		al(Op{K: "changepw", Old: pwA, Pw: pwC}), al(Op{K: "changepw", Old: pwC, Pw: pwA}),
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	history := func(v *V, list []Op) {
		one := func(hold int) string {
			w := NewWorld(c.Scratch)
			defer w.Close()
			if o := w.Open(); !o.OK() {
				return o.String()
			}
			if o := w.Exec(uAlice); !o.OK() {
				return o.String()
			}
			var held []Outcome
			for i := 0; i <= len(list); i++ {
				for _, q := range queries[:7] {
					o := w.Exec(q)
					if i == hold {
						held = append(held, o)
					}
				}
				if i < len(list) {
					w.Exec(list[i])
				}
			}
			for _, o := range held {
				scribbleOutcome(o)
			}
			b, err := os.ReadFile(w.path)
			return fmt.Sprintf("%s\n%s\n%v %s", stateOf(w), everything(w, un.Pairs[:1]), err, b)
		}
		clean := one(-1)
		for hold := 0; hold <= len(list); hold++ {
			v.Count("transitions", len(list))
			v.Count("traces_validated_against_impl", 1)
			if got := one(hold); got != clean {
				v.Fail(fmt.Sprintf("%s / %d", traceString(list), hold), "after\n%s\noverwriting the results that were obtained before operation %d changes: %s", traceString(list), hold+1, firstDiff(clean, got))
				return
			}
		}
		v.State("states", traceString(list))
	}
	for i := range steps {
		for j := range steps {
			c.Case(fmt.Sprintf("history/%d/%d", i, j), func(v *V) {
				var rec func(list []Op)
				rec = func(list []Op) {
					if c.Expired() || v.Failed() {
						return
					}
					if len(list) == depth {
						history(v, list)
						return
					}
					for _, op := range steps {
						rec(append(append([]Op{}, list...), op))
					}
				}
				rec([]Op{steps[i], steps[j]})
			})
		}
	}
}
