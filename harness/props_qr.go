package main

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
)

func init() {
	register(&Property{
		ID: "C19", Level: "exploration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule: "the full products of (type, label, issuer) over every single byte, every pair of reserved characters and a menu of longer texts, of secrets of every length up to a bound filled with and containing every byte value, and of (type, algorithm in every letter case, digits, period, counter, secret length) at and beyond the limits; the text is read by an independent decoder and, where the type is totp, the codes of the decoded parameters are tried on a token with the described parameters",
		Assumptions: []string{"the label is form-encoded (a space is a plus sign), as the project's tests have it", "a counter of a totp code is carried when positive; a negative one is not explored",
			"the secret of six bytes or more may be any bytes; texts of the code after a failed Build are only required to be empty if none was built before"},
		Run: runC19,
	})
}

// formDecode decodes percent escapes and plus signs.
func formDecode(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			b.WriteByte(' ')
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return "", false
			}
			b.WriteByte(byte(n))
			i += 2
		default:
			if s[i] <= ' ' || s[i] >= 0x7f || strings.IndexByte("\"<>\\^`{|}/?#[]", s[i]) >= 0 {
				return "", false
			}
			b.WriteByte(s[i])
		}
	}
	return b.String(), true
}

// base32Decode decodes unpadded RFC 4648 base 32 in upper case.
func base32Decode(s string) (string, bool) {
	var out []byte
	var acc, bits uint
	s = strings.TrimRight(s, "=")
	for i := 0; i < len(s); i++ {
		var d uint
		switch {
		case s[i] >= 'A' && s[i] <= 'Z':
			d = uint(s[i] - 'A')
		case s[i] >= '2' && s[i] <= '7':
			d = uint(s[i]-'2') + 26
		default:
			return "", false
		}
		acc = acc<<5 | d
		bits += 5
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	return string(out), acc == 0 && bits < 5
}

// readOTPAuth reads an otpauth URI.
func readOTPAuth(s string) (typ, label string, params map[string]string, err error) {
	rest, ok := strings.CutPrefix(s, "otpauth://")
	if !ok {
		return "", "", nil, fmt.Errorf("it is no otpauth URI")
	}
	path, query, ok := strings.Cut(rest, "?")
	if !ok {
		return "", "", nil, fmt.Errorf("it has no query")
	}
	typ, label, ok = strings.Cut(path, "/")
	if !ok {
		return "", "", nil, fmt.Errorf("it has no path")
	}
	if label, ok = formDecode(label); !ok {
		return "", "", nil, fmt.Errorf("the label is not encoded")
	}
	params = map[string]string{}
	for _, kv := range strings.Split(query, "&") {
		k, x, ok := strings.Cut(kv, "=")
		if !ok {
			return "", "", nil, fmt.Errorf("the parameter %q has no value", kv)
		}
		if _, dup := params[k]; dup {
			return "", "", nil, fmt.Errorf("the parameter %s is there twice", k)
		}
		if params[k], ok = formDecode(x); !ok {
			return "", "", nil, fmt.Errorf("the parameter %s is not encoded", k)
		}
	}
	if u, e := url.Parse(s); e != nil || u.Scheme != "otpauth" || u.Host != typ || u.Fragment != "" || u.User != nil {
		return "", "", nil, fmt.Errorf("it does not parse as a URI: %v", e)
	}
	return typ, label, params, nil
}

// codeWanted says whether a description is valid.
func codeWanted(d qr.Code) bool {
	algo := strings.ToLower(d.Algorithm)
	return d.Label != "" && (d.Type == "totp" || d.Type == "hotp" && d.Counter >= 1) && len(d.Secret) >= 6 &&
		(algo == "" || algo == "sha1" || algo == "sha256" || algo == "sha512") &&
		(d.Digits == 0 || d.Digits >= 4 && d.Digits <= 8) && (d.Period == 0 || d.Period >= 30 && d.Period <= 180)
}

// provision builds a code and compares.
func provision(v *V, d qr.Code, times []int64) {
	v.Count("evaluations", 1)
	what := fmt.Sprintf("%q", fmt.Sprint(d.Type, "|", d.Label, "|", d.Issuer, "|", d.Secret, "|", d.Algorithm, "|", d.Digits, "|", d.Period, "|", d.Counter))
	fail := func(f string, a ...interface{}) { v.Fail(what, "%+v: %s", d, fmt.Sprintf(f, a...)) }
	code := qr.NewCode()
	code.Type, code.Label, code.Issuer, code.Secret, code.Algorithm, code.Digits, code.Period, code.Counter = d.Type, d.Label, d.Issuer, d.Secret, d.Algorithm, d.Digits, d.Period, d.Counter
	var err error
	if p := protect(func() { err = code.Build() }); p != "" {
		fail("%s", p)
		return
	}
	if want := codeWanted(d); want != (err == nil) {
		fail("Build: %v", err)
		return
	} else if !want {
		if code.Get() != "" || code.GetEncoded() != "" {
			fail("refused, and there is the text %q", code.Get())
		}
		return
	}
	v.State("distinct_nontrivial", what)
	text := code.Get()
	if raw, e := base64.StdEncoding.DecodeString(code.GetEncoded()); e != nil || string(raw) != text {
		fail("the text is %q, encoded %q", text, code.GetEncoded())
	}
	typ, label, params, e := readOTPAuth(text)
	if e != nil {
		fail("%q: %s", text, e)
		return
	}
	num := func(k string, want int) {
		if got, ok := params[k]; want == 0 && ok || want != 0 && got != strconv.Itoa(want) {
			fail("%q: %s is %q", text, k, got)
		}
	}
	digits, period := d.Digits, d.Period
	if digits == 0 {
		digits = 6
	}
	if period == 0 {
		period = 30
	}
	if typ != d.Type || label != d.Label || params["issuer"] != d.Issuer || !strings.EqualFold(params["algorithm"], d.Algorithm) {
		fail("%q: type %q, label %q, issuer %q, algorithm %q", text, typ, label, params["issuer"], params["algorithm"])
	}
	secret, ok := base32Decode(params["secret"])
	if !ok || secret != d.Secret || strings.Contains(params["secret"], "=") {
		fail("%q: the secret is %q", text, params["secret"])
	}
	num("digits", digits)
	num("period", period)
	num("counter", d.Counter)
	if v.Failed() {
		return
	}
	before := text
	if e := code.Build(); e != nil || code.Get() != before {
		fail("built again: %v, %q", e, code.Get())
	}
	if v.WantSample() {
		v.Sample(map[string]interface{}{"text": text})
	}
	// An authenticator set up with it.
	if typ != "totp" {
		return
	}
	algo := strings.ToLower(params["algorithm"])
	ref := algo
	if ref == "" {
		ref = "sha1"
	}
	tok := &identity.MfaToken{ID: "x", Type: "totp", Secret: d.Secret, Algorithm: strings.ToLower(d.Algorithm), Digits: digits, Period: period}
	if tok.Algorithm == "" {
		tok.Algorithm = "sha1"
	}
	for _, at := range times {
		got := refTOTP([]byte(secret), ref, digits, uint64(at)/uint64(period))
		if e := tok.ValidateCodeWithTime(got, time.Unix(at, 0)); e != nil {
			fail("%q: the code %s of an authenticator is refused: %v", text, got, e)
		}
	}
}

// protect runs f and returns the panic, if any.
func protect(f func()) (p string) {
	defer func() {
		if x := recover(); x != nil {
			p = fmt.Sprintf("panic: %v", x)
		}
	}()
	f()
	return ""
}

func letterCases(s string) []string {
	var letters []int
	for i := range s {
		if s[i] >= 'a' && s[i] <= 'z' {
			letters = append(letters, i)
		}
	}
	var out []string
	for m := 0; m < 1<<len(letters); m++ {
		b := []byte(s)
		for j, i := range letters {
			if m>>j&1 == 1 {
				b[i] -= 'a' - 'A'
			}
		}
		out = append(out, string(b))
	}
	return out
}

func runC19(c *Ctx) {
	c.Case("reference", func(v *V) {
		for _, x := range [][2]string{{"", ""}, {"MY", "f"}, {"MZXQ", "fo"}, {"MZXW6", "foo"}, {"MZXW6YQ", "foob"}, {"MZXW6YTB", "fooba"}, {"MZXW6YTBOI", "foobar"}} {
			if got, ok := base32Decode(x[0]); !ok || got != x[1] {
				v.Fail("", "base32 of the reference: %q", x[0])
			}
		}
		v.Count("evaluations", 7)
	})
	times := []int64{1900000000, 1900000029}
	base := qr.Code{Type: "totp", Label: "app", Secret: "c71ca4c68bc14ec5b4ab8d3c3b63802c"}

	// Labels and issuers.
	var bytes []string
	for b := 0; b < 256; b++ {
		bytes = append(bytes, string([]byte{byte(b)}))
	}
	reserved := strings.Split("%+ &=?#/:@;,!$'()*[]\"<>\\^`{|}~-._\n\t", "")
	var pairs []string
	for _, a := range reserved {
		for _, b := range reserved {
			pairs = append(pairs, a+b)
		}
	}
	menu := []string{"", "Authp", "Example Co:alice@example.com", "a b", "%41", "%", "%zz", "a&secret=AAAA", "a?x=y#z", "../x", "//", "приложение", "日本語 アプリ", "🔑", "\xff\xfe", "\x00", "a+b=c&d", "100% safe & sound", strings.Repeat("long label ", 40), " ", "label\r\n", "&digits=8", "%2F", "secret", "é̀", "\u202e"}
	for _, typ := range []string{"totp", "hotp"} {
		try := func(v *V, label, issuer string) {
			d := base
			d.Type, d.Label, d.Issuer = typ, label, issuer
			if typ == "hotp" {
				d.Counter = 1
			}
			provision(v, d, times[:1])
		}
		parts := map[string][]string{"bytes": bytes, "pairs": pairs, "menu": menu}
		for _, part := range sortedNames(parts) {
			list := parts[part]
			c.Case("texts/"+typ+"/"+part, func(v *V) {
				for _, s := range list {
					for _, f := range []func(string) string{func(s string) string { return s }, func(s string) string { return "x" + s }, func(s string) string { return s + "x" }, func(s string) string { return "ab" + s + "cd" }} {
						if c.Expired() || v.Failed() {
							return
						}
						try(v, f(s), "")
						try(v, "app", f(s))
						try(v, f(s), f(s))
					}
				}
			})
		}
		for i := range reserved {
			c.Case(fmt.Sprintf("products/%s/%d", typ, i), func(v *V) {
				for _, b := range append(append([]string{}, reserved...), menu...) {
					try(v, "x"+reserved[i], b)
					try(v, reserved[i]+"x", b+"y")
				}
			})
		}
		for i := range menu {
			c.Case(fmt.Sprintf("menus/%s/%d", typ, i), func(v *V) {
				for _, b := range menu {
					try(v, menu[i], b)
				}
			})
		}
		if c.Thorough {
			for b := 0; b < 256; b++ {
				c.Case(fmt.Sprintf("bytes2/%s/%d", typ, b), func(v *V) {
					for a := 0; a < 256; a++ {
						try(v, bytes[b]+bytes[a], "")
						try(v, "app", bytes[b]+bytes[a])
						try(v, bytes[b], bytes[a])
					}
				})
			}
		}
	}

	// Secrets.
	most := 24
	if c.Thorough {
		most = 140
	}
	for n := 0; n <= most; n++ {
		c.Case(fmt.Sprintf("secrets/%d", n), func(v *V) {
			for b := 0; b < 256; b++ {
				if c.Expired() || v.Failed() {
					return
				}
				d := base
				d.Secret = strings.Repeat(bytes[b], n)
				provision(v, d, times[:1])
				for _, i := range []int{0, 1, n / 2, n - 1} {
					if i < 0 || i >= n {
						continue
					}
					s := []byte("0123456789abcdefghijklmnopqrstuvwxyz" + strings.Repeat("K", 140))[:n]
					s[i] = byte(b)
					d.Secret = string(s)
					provision(v, d, times[:1])
				}
			}
		})
	}

	// Parameters.
	algos := []string{"", "sha224", "sha384", "md5", "sha", "sha-1", "sha1 ", " sha1", "sha12", "sha2560", "sha512/256", "ｓｈａ１"}
	for _, a := range []string{"sha1", "sha256", "sha512"} {
		algos = append(algos, letterCases(a)...)
	}
	big := 1 << 40
	digits := []int{0, -big, -1, 1, 3, 4, 5, 6, 7, 8, 9, 10, big}
	periods := []int{0, -big, -30, -1, 1, 15, 29, 30, 31, 59, 60, 61, 90, 179, 180, 181, 300, big}
	if c.Thorough {
		for p := 2; p < 200; p++ {
			periods = append(periods, p)
		}
	}
	for _, typ := range []string{"totp", "hotp", "", "TOTP", "Hotp", "totp ", "steam", "totp/x"} {
		for _, algo := range algos {
			c.Case(fmt.Sprintf("parameters/%s/%s", typ, algo), func(v *V) {
				for _, dg := range digits {
					for _, p := range periods {
						for _, ct := range []int{0, 1, 2, 10, 1<<31 - 1, big, -1, -big} {
							if ct < 0 && typ == "totp" {
								continue
							}
							if c.Expired() || v.Failed() {
								return
							}
							for _, sec := range []string{"secret", "secre", base.Secret} {
								d := qr.Code{Type: typ, Label: "app", Secret: sec, Algorithm: algo, Digits: dg, Period: p, Counter: ct}
								provision(v, d, times)
							}
						}
					}
				}
				for _, d := range []qr.Code{{Type: typ, Secret: base.Secret, Algorithm: algo, Counter: 1}, {Type: typ, Label: "app", Algorithm: algo, Counter: 1}, {Type: typ, Algorithm: algo}} {
					provision(v, d, nil)
				}
			})
		}
	}
}
