package main

import (
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"html"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// edits are the texts one byte away from s: each byte left out, changed,
// inserted or swapped with the next, for every value of a byte.
func edits(s string) []string {
	out := map[string]bool{}
	for i := 0; i <= len(s); i++ {
		for b := 0; b < 256; b++ {
			out[s[:i]+string([]byte{byte(b)})+s[i:]] = true
			if i < len(s) {
				out[s[:i]+string([]byte{byte(b)})+s[i+1:]] = true
			}
		}
		if i < len(s) {
			out[s[:i]+s[i+1:]] = true
		}
		if i+1 < len(s) {
			out[s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:]] = true
		}
	}
	delete(out, s)
	return sortedNames(out)
}

// decorations are texts that mean s, or contain it, in some notation.
func decorations(s string) []string {
	out := map[string]bool{}
	add := func(l ...string) {
		for _, t := range l {
			out[t] = true
		}
	}
	for _, p := range []string{"mailto:", "MAILTO:", "acct:", "user:", "user=", "uid=", "uid:", "cn=", "CN=", "u:", "id:", "urn:", "http://", "https://", "//", "/", "./", "~", "@", "+", "-", "_", "=", "#", "!", "&", "%", "*", "$", ":", "domain\\", "EXAMPLE\\", "example.com\\", "example.com/", "example.com!", "localhost\\", "Alice <", "<", "\"", "'", "`", "(", "[", "{",
		"Bearer ", "bearer ", "Basic ", "Token ", "ApiKey ", "api_key=", "key=", "apikey:", "X-API-Key: ", "Authorization: Bearer ", "sk_", "sha-rsa ", "ssh-rsa ", "data:,", "{bcrypt}", "{BCRYPT}", "{plain}", "{PLAIN}", "{CLEARTEXT}", "bcrypt:", "0x", "\ufeff", "\u200b", "\u200e", "\u00a0", "\u3000", "\u202e", "\u00ad", " ", "\t", "\n", "\r\n", "\x00", "\x7f", "\x1b[0m", "a:", "alice:", "alice@example.com:", "x ", "%20", "&nbsp;"} {
		add(p + s)
	}
	for _, p := range []string{"@", "@localhost", "@example.com", "@example.com.", "@EXAMPLE", "@example", ".", "..", "/", "\\", "+tag", "-1", "_", "#", "#1", ";", ",", ", bob", ";bob", "|bob", " bob", "\nbob", "\x00bob", ":", ":x", "?", "?x=y", "&x", "=", "==", "*", "%", "%00", "%20", "%0a", "$", "!", "~", ">", "\"", "'", "`", ")", "]", "}", "(comment)", " (comment)", "\x00", " ", "  ", "\t", "\n", "\r", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u2028", "\u200b", "\u200d", "\ufeff", "\u3000", "\u0301", "\x7f", "\x08", "\x1b[0m", "x\x08", "' --", "' or '1'='1", "\" or \"\"=\"", ".com", ".json", "0", "1", "/x", "/..", ".x"} {
		add(s + p)
	}
	for _, q := range [][2]string{{"\"", "\""}, {"'", "'"}, {"<", ">"}, {"Alice <", ">"}, {"<mailto:", ">"}, {"(", ")"}, {"[", "]"}, {"{", "}"}, {"“", "”"}, {"`", "`"}, {" ", " "}, {"\t", "\n"}, {"/", "/"}, {"%", "%"}, {"*", "*"}, {"^", "$"}, {"(?i)", ""}, {"\x00", "\x00"}, {"<a>", "</a>"}} {
		add(q[0] + s + q[1])
	}
	b := []byte(s)
	add(url.QueryEscape(s), url.PathEscape(s), html.EscapeString(s), strconv.Quote(s), strconv.QuoteToASCII(s), base64.StdEncoding.EncodeToString(b), base64.RawStdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b), base64.RawURLEncoding.EncodeToString(b),
		base32.StdEncoding.EncodeToString(b), hex.EncodeToString(b), strings.ToUpper(hex.EncodeToString(b)), s+s, s+" "+s, s+"\n"+s, s+","+s, s+"@"+s)
	all := func(f string) (x string) {
		for _, c := range b {
			x += fmt.Sprintf(f, c)
		}
		return
	}
	add(all("%%%02x"), all("%%%02X"), all("&#%d;"), all("&#x%x;"), all("\\x%02x"), all("\\u%04x"), all("\\%o"), all("=%02X"), all("%d "), all("%08b"))
	// One character of each in turn.
	for i, c := range b {
		for _, f := range []string{"%%%02x", "%%%02X", "%%25%02x", "&#%d;", "&#x%x;", "\\x%02x", "\\u%04x", "\\%c", "=%02X", "U+%04X", "%c\u0301", "%c\u200b", "%c\u00ad", "%c%c"} {
			t := ""
			if strings.Count(f, "%c") == 2 {
				t = fmt.Sprintf(f, c, c)
			} else {
				t = fmt.Sprintf(f, c)
			}
			add(s[:i] + t + s[i+1:])
		}
		if c > ' ' && c < 0x7f {
			add(s[:i] + string(rune(c)+0xfee0) + s[i+1:]) // full width
		}
		if c >= 'a' && c <= 'z' {
			add(s[:i]+string(rune(c-'a')+0x1d41a)+s[i+1:], s[:i]+string(rune(c-'a')+0x24d0)+s[i+1:])
		}
		if r, ok := lookalikes[c]; ok {
			for _, x := range r {
				add(s[:i] + string(x) + s[i+1:])
			}
		}
		if c == '@' {
			for _, t := range []string{"(at)", " at ", "[at]", "%40", " @ ", "@ ", " @", "＠", "﹫", "@@", "+x@", ".@", "(c)@", "@(c)", "@[", "\"@", "@.", "@www.", "@mail.", "@sub.", "\u200b@", "%", "!"} {
				add(s[:i] + t + s[i+1:])
			}
			add("\""+s[:i]+"\""+s[i:], s[i+1:]+"!"+s[:i], s[i+1:]+"\\"+s[:i], s[:i], s[i:], s[i+1:], s[:i+1], strings.ReplaceAll(s[:i], "", ".")+s[i:], s[:i]+strings.ToUpper(s[i:])+".", "@"+s[i+1:]+":"+s)
		}
	}
	// Other orders, halves and encodings.
	r := []rune(s)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	rot, wide, be, latin := "", "", "", ""
	for _, c := range b {
		switch {
		case c >= 'a' && c <= 'z':
			rot += string(rune((c-'a'+13)%26 + 'a'))
		case c >= 'A' && c <= 'Z':
			rot += string(rune((c-'A'+13)%26 + 'A'))
		default:
			rot += string([]byte{c})
		}
		latin += string(rune(c))
	}
	for _, u := range utf16.Encode([]rune(s)) {
		wide += string([]byte{byte(u), byte(u >> 8)})
		be += string([]byte{byte(u >> 8), byte(u)})
	}
	add(string(r), rot, wide, be, "\xff\xfe"+wide, latin, s[:len(s)/2], s[len(s)/2:], strings.Fields(s + " x")[0], strings.ReplaceAll(s, " ", ""), strings.ReplaceAll(s, "-", ""), strings.ReplaceAll(s, "-", " "), strings.ReplaceAll(s, "-", "_"), strings.ReplaceAll(s, ".", ""), strings.ReplaceAll(s, "@", ""), strings.Map(func(r rune) rune {
		if r < 'a' || r > 'z' {
			return -1
		}
		return r
	}, s))
	// Which of these are s itself in another letter case the model decides.
	delete(out, s)
	return sortedNames(out)
}

// lookalikes are letters that look like others.
var lookalikes = map[byte]string{'a': "аàáäåα", 'b': "Ьḅ", 'c': "сç", 'd': "ԁ", 'e': "еéèё", 'i': "іìíï1l", 'l': "1Iіӏ", 'o': "оο0öó", 'p': "рρ", 's': "ѕ5$ſ", 'x': "х×", 'm': "ṃ", '.': "．。·", '-': "‐–—−_", '0': "oO", '1': "lI", ' ': "\u00a0\u2003\t"}

// sorted distinct texts of several lists.
func distinct(lists ...[]string) []string {
	m := map[string]bool{}
	for _, l := range lists {
		for _, s := range l {
			m[s] = true
		}
	}
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// chunks divides a list.
func chunks(l []string, n int) (out [][]string) {
	for len(l) > n {
		out = append(out, l[:n])
		l = l[n:]
	}
	return append(out, l)
}

// similarBases are users with names and addresses of several forms.
func similarBases() []Op {
	return []Op{uAlice, uBob, addUser("eve@corp.io", "mail@corp.io", pwC), addUser("änne-marie.o_k", "Anne.O+x@sub.example.com", pwB), addUser("j. d'smith", "j_d%s@example.org", pwA), addUser("x-y", "a@b", pwC)}
}

// similarNames: texts close to a username or an address identify nobody.
func similarNames(c *Ctx) {
	pre := similarBases()
	for i, u := range pre {
		for k, base := range []string{u.Name, u.Email} {
			for j, l := range chunks(distinct(edits(base), decorations(base)), 1500) {
				c.Case(fmt.Sprintf("similar/%d-%d-%d", i, k, j), func(v *V) {
					un := &Universe{Logins: l, Pws: []string{u.Pw}, Sections: sections("ident", "auth")}
					r, bad := c.newRun(nil, pre, un)
					defer r.w.Close()
					if bad == "" {
						bad = r.observe()
					}
					if bad == "" {
						bad = r.observeReopened()
					}
					v.Count("transitions", len(l))
					v.Count("traces_validated_against_impl", 1)
					v.State("states", base+itoa(j))
					if bad != "" {
						v.Fail("", "with the texts similar to %q:\n%s", base, bad)
					}
				})
			}
		}
	}
	// Users with similar names and addresses live together.
	for i, u := range pre {
		for _, as := range []string{"name", "address"} {
			base := u.Name
			if as == "address" {
				base = u.Email
			}
			c.Case(fmt.Sprintf("together/%d-%s", i, as), func(v *V) {
				r, bad := c.newRun(nil, pre, nil)
				defer r.w.Close()
				pws := []string{"password-of-zero", "password-of-one", "password-of-two"}
				var logins []string
				for n, t := range decorations(base) {
					if bad != "" {
						break
					}
					if !utf8.ValidString(t) {
						continue // a document of JSON cannot hold it
					}
					op := addUser(t, fmt.Sprintf("u%d@together.example", n), pws[n%3])
					if as == "address" {
						op = addUser(fmt.Sprintf("together%d", n), t, pws[n%3])
					}
					logins = append(logins, op.Name, op.Email)
					var res Result
					res, _, bad = r.step(op)
					v.Count("transitions", 1)
					if res.OK {
						v.State("states", base+"\x00"+t)
					}
				}
				r.trace = r.trace[max(0, len(r.trace)-3):]
				if bad == "" {
					r.un = &Universe{Logins: append(logins, base), Pws: append(pws, u.Pw), Sections: sections("ident", "auth", "count")}
					bad = r.observe()
				}
				if bad == "" {
					bad = r.observeReopened()
				}
				v.Count("traces_validated_against_impl", 1)
				if bad != "" {
					v.Fail("", "users with the %ss similar to %q together:\n%s\n%s", as, base, traceString(r.trace), bad)
				}
			})
		}
	}
}

// similarPairs: operations with a username or an address which is only close
// to the right one are refused.
func similarPairs(c *Ctx) {
	pre := append(similarBases(), on("alice", Op{K: "addapi", Usage: "api", Comment: "c"}), on("alice", Op{K: "addmfa", Payload: "totpA"}), on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaA:ssh"}))
	for i, u := range similarBases() {
		for k, base := range []string{u.Name, u.Email} {
			for j, l := range chunks(distinct(edits(base), decorations(base)), 1200) {
				c.Case(fmt.Sprintf("similar/%d-%d-%d", i, k, j), func(v *V) {
					r, bad := c.newRun(nil, pre, nil)
					defer r.w.Close()
					if bad != "" {
						v.Fail("", "%s", bad)
						return
					}
					for _, t := range l {
						p := [2]string{u.Name, t}
						if k == 0 {
							p = [2]string{t, u.Email}
						}
						same := r.m.pair(p[0], p[1]) != nil
						ops := []Op{{K: "getuser"}, {K: "getusers"}, {K: "getpk", Usage: "ssh"}, {K: "getapi", Usage: "api"}, {K: "getmfa"}, {K: "changepw", Old: u.Pw, Pw: u.Pw}}
						if !same {
							ops = append(ops, Op{K: "addapi", Usage: "api", Comment: "n"}, Op{K: "addmfa", Payload: "totpC"}, Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh"}, Op{K: "delapi"}, Op{K: "delmfa"}, Op{K: "delpk"})
						}
						for _, op := range ops {
							op.Name, op.Email = p[0], p[1]
							_, _, bad := r.step(op)
							v.Count("transitions", 1)
							if bad != "" {
								v.Fail(op.K, "%s: %s", op, bad)
								return
							}
						}
						r.trace = r.trace[:0]
					}
					v.State("states", base+itoa(j))
					v.Count("traces_validated_against_impl", 1)
				})
			}
		}
	}
}

// similarPasswords: texts close to a password are not the password.
func similarPasswords(c *Ctx) {
	for i, base := range []string{"first-Password", " Päss wörd % + \u00a0", "12345678", "a\"b\\c&d<e>f'%00", strings.Repeat("long-", 14) + "xy"} {
		for j, l := range chunks(distinct(edits(base), decorations(base)), 4000) {
			c.Case(fmt.Sprintf("similar/%d-%d", i, j), func(v *V) {
				r, bad := c.newRun(nil, []Op{addUser("alice", "alice@"+dom, "former-password"), on("alice", Op{K: "changepw", Old: "former-password", Pw: base}), uBob}, nil)
				defer r.w.Close()
				if bad != "" {
					v.Fail("", "%s", bad)
					return
				}
				texts := append([]string{base}, l...)
				if u := r.w.Snapshot("alice", "alice@"+dom); u != nil {
					for _, p := range u.Passwords {
						texts = append(texts, decorations(p.Hash)...)
						texts = append(texts, p.Hash)
					}
				}
				for n, t := range texts {
					if len(t) > 72 && pwEqual(t, base) {
						continue
					}
					ops := []Op{{K: "auth", Name: "alice", Pw: t}, {K: "auth", Name: "alice@" + dom, Pw: t}}
					if n > 0 && n%16 == 0 {
						ops = append(ops, on("alice", Op{K: "changepw", Old: t, Pw: "changed-password"}))
					}
					for _, op := range ops {
						_, _, bad := r.step(op)
						v.Count("transitions", 1)
						if bad != "" {
							v.Fail(quote(t), "the password is %q; %s: %s", base, op, bad)
							return
						}
					}
					r.trace = r.trace[:0]
				}
				v.State("states", base+itoa(j))
				v.Count("traces_validated_against_impl", 1)
			})
		}
	}
}

// similarKeys: texts close to that of an API key are no key, and texts close to
// an ID are no ID.
func similarKeys(c *Ctx) {
	pre := append([]Op{uAlice, uBob}, belongings("alice")...)
	pre = append(pre, belongings("bob")...)
	un := &Universe{Pairs: pairsOf("alice", "bob"), Sections: sections("api", "pk", "mfa", "lookup"), Alts: []string{"first"}}
	part := func(name string, texts func(w *World) []string, try func(r *Run, t string) string) {
		const parts = 8
		for j := 0; j < parts; j++ {
			c.Case(fmt.Sprintf("similar/%s-%d", name, j), func(v *V) {
				r, bad := c.newRun(nil, pre, un)
				defer r.w.Close()
				if bad != "" {
					v.Fail("", "%s", bad)
					return
				}
				for n, t := range texts(r.w) {
					if n%parts != j {
						continue
					}
					v.Count("transitions", 1)
					if bad := try(r, t); bad != "" {
						v.Fail(name, "%s", bad)
						return
					}
				}
				if x := r.observe(); x != "" {
					v.Fail(name, "after all texts similar to one:\n%s", x)
				} else if x := r.observeReopened(); x != "" {
					v.Fail(name, "after all texts similar to one, reopened:\n%s", x)
				}
				v.State("states", name+itoa(j))
				v.Count("traces_validated_against_impl", 1)
			})
		}
	}
	part("key", func(w *World) []string { return distinct(edits(w.secrets[0]), decorations(w.secrets[0])) }, func(r *Run, t string) string {
		if pwEqual(t, r.w.secrets[0]) {
			return ""
		}
		_, _, bad := r.step(Op{K: "lookup", Payload: "=" + t})
		r.trace = r.trace[:0]
		if bad != "" {
			return fmt.Sprintf("the key is %q; looking up %q: %s", r.w.secrets[0], t, bad)
		}
		return ""
	})
	for _, k := range []string{"delpk", "delapi", "delmfa"} {
		ids := func(w *World) []string {
			switch k {
			case "delpk":
				return w.pkIDs
			case "delapi":
				return w.apiIDs
			}
			return w.mfaIDs
		}
		part(k, func(w *World) []string { return distinct(edits(ids(w)[0]), decorations(ids(w)[0])) }, func(r *Run, t string) string {
			for _, id := range ids(r.w) {
				if t == id {
					return ""
				}
			}
			op := on("alice", Op{K: k})
			q := op.request(r.w)
			q.Key.ID, q.MfaToken.ID = t, t
			o := r.w.Call(func() error { return dispatch(r.w.db, k, q) })
			if o.OK() || o.Panic != "" {
				return fmt.Sprintf("the ID is %q; %s with %q: %s", ids(r.w)[0], k, t, o)
			}
			return ""
		})
	}
}
