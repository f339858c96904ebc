package main

import (
	"encoding/json"
	"os"
)

// editFile changes the database file behind the back of the database.
func (w *World) editFile(f func(doc map[string]interface{})) {
	doc, err := w.File(w.path)
	if err != nil {
		fatalf("edit: %v", err)
	}
	f(doc)
	b, _ := json.MarshalIndent(doc, "", "  ")
	writeFile(w.path, b)
}

func listOf(v interface{}) []interface{} {
	l, _ := v.([]interface{})
	return l
}

func mapOf(v interface{}) map[string]interface{} {
	m, _ := v.(map[string]interface{})
	return m
}

// expiredKeys: keys marked as disabled or expired in the file never
// authenticate, the others do.
func expiredKeys(c *Ctx) {
	marks := []obj{{"disabled": true}, {"expired": true}, {"disabled": true, "expired": true}, {"expired": true, "expired_at": "2020-01-01T00:00:00Z"}}
	for i, mark := range marks {
		for which := 0; which < 2; which++ {
			c.Case("marked/"+itoa(i)+"/"+itoa(which), func(v *V) {
				add := on("alice", Op{K: "addapi", Usage: "api", Comment: "k"})
				r, bad := c.newRun(nil, []Op{uAlice, add, add}, nil)
				defer r.w.Close()
				if bad != "" {
					v.Fail("", "%s", bad)
					return
				}
				r.w.editFile(func(doc map[string]interface{}) {
					k := mapOf(listOf(mapOf(listOf(doc["users"])[0])["api_keys"])[which])
					for n, x := range mark {
						k[n] = x
					}
				})
				if o := r.w.Open(); !o.OK() {
					v.Fail("", "reopening: %s", o)
					return
				}
				for ref := 0; ref < 2; ref++ {
					o := r.w.Exec(Op{K: "lookup", Ref: ref})
					v.Count("transitions", 1)
					if o.Panic != "" || o.OK() != (ref != which) {
						v.Fail("", "key %d is marked %v in the file; looking up key %d: %s", which, mark, ref, o)
					}
				}
			})
		}
	}
}

// realBcrypt validates the stand-in of the bcrypt kernel, and the code on top
// of it, with the real one.
func realBcrypt(c *Ctx) {
	pairs := [][2]string{
		{"abcdefgh", "abcdefgh"}, {"abcdefgh", "abcdefgH"}, {"abcdefgh", "abcdefgh "}, {" abcdefgh", " abcdefgh"}, {" abcdefgh", "abcdefgh"},
		{"pässwörter", "pässwörter"}, {"pässwörter", "passworter"}, {"abcdefgh", "abcdefgh\x00abcdefgh"}, {"\xffabcdefgh", "\xfeabcdefgh"},
	}
	long := ""
	for i := 0; i < 9; i++ {
		long += "abcdefgh"
	}
	pairs = append(pairs, [2]string{long, long}, [2]string{long, long[:71]}, [2]string{long[:71], long})
	for i, p := range pairs {
		c.Case("real/"+itoa(i), func(v *V) {
			for _, real := range []bool{true, false} {
				w := NewWorld(c.Scratch)
				w.s.realHash = real
				m := NewModel()
				if o := w.Open(); !o.OK() {
					v.Fail("", "opening: %s", o)
				}
				for _, op := range []Op{addUser("alice", "alice@example.com", p[0]), {K: "auth", Name: "alice", Pw: p[1]}, opReopen, {K: "auth", Name: "alice@example.com", Pw: p[1]}} {
					if bad := compareResult(op, m.Apply(op), w.Exec(op)); bad != "" {
						v.Fail("", "password %q, tried %q, real bcrypt %v: %s: %s", p[0], p[1], real, op, bad)
					}
				}
				w.Close()
				if real {
					v.Count("real_bcrypt_traces", 1)
				}
			}
		})
	}
}

var _ = os.Remove
