package main

import (
	"fmt"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Property{
		ID: "C13", Level: "exploration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "the full product of algorithms, digits 4-8, periods, secrets, times (every offset class of consecutive periods around several epochs) and candidate texts (the codes of seven periods with every single-digit alteration and every white-space variant; all 10^4 texts for four digits), and the full product of registration parameters and passcodes; each candidate is judged by an implementation of RFC 6238 that is checked against the vectors of its appendix",
		Assumptions: []string{"times in the first two periods of 1970, and before, are not explored", "surrounding white space is space, tab, CR and LF"},
		Run:         runC13,
	})
}

// rfcVectors checks the reference itself.
func rfcVectors() string {
	seed := "1234567890123456789012345678901234567890123456789012345678901234"
	for _, x := range []struct {
		t    uint64
		algo string
		n    int
		want string
	}{
		{59, "sha1", 20, "94287082"}, {59, "sha256", 32, "46119246"}, {59, "sha512", 64, "90693936"},
		{1111111109, "sha1", 20, "07081804"}, {1111111109, "sha256", 32, "68084774"}, {1111111109, "sha512", 64, "25091201"},
		{1111111111, "sha1", 20, "14050471"}, {1111111111, "sha256", 32, "67062674"}, {1111111111, "sha512", 64, "99943326"},
		{1234567890, "sha1", 20, "89005924"}, {1234567890, "sha256", 32, "91819424"}, {1234567890, "sha512", 64, "93441116"},
		{2000000000, "sha1", 20, "69279037"}, {2000000000, "sha256", 32, "90698825"}, {2000000000, "sha512", 64, "38618901"},
		{20000000000, "sha1", 20, "65353130"}, {20000000000, "sha256", 32, "77737706"}, {20000000000, "sha512", 64, "47863826"},
	} {
		if got := refTOTP([]byte(seed[:x.n]), x.algo, 8, x.t/30); got != x.want {
			return fmt.Sprintf("the reference gives %s for %+v", got, x)
		}
	}
	return ""
}

func trimBlank(s string) string { return strings.Trim(s, " \t\r\n") }

// candidates are the texts tried around a period.
func candidates(codes []string, wide bool) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for i, c := range codes {
		add(c)
		if !wide && (i < 2 || i > 4) {
			continue
		}
		for _, s := range []string{" " + c, c + " ", "\t" + c + "\r\n", "  " + c + "  "} {
			add(s)
		}
		for _, s := range []string{c[:len(c)-1], c[1:], "0" + c, c + "0", strings.TrimLeft(c, "0"), c[:1] + " " + c[1:], c[:len(c)/2] + " " + c[len(c)/2:], "+" + c[1:], "-" + c[1:], c[:len(c)-1] + "\n", c + c, c + "\x00", "\x00" + c, "x" + c[1:], reverse(c), c + ".0", "0x" + c[2:]} {
			add(s)
		}
		for p := range c {
			for d := byte(1); d < 10; d++ {
				if !wide && d != 1 && d != 5 {
					continue
				}
				b := []byte(c)
				b[p] = '0' + (b[p]-'0'+d)%10
				add(string(b))
			}
		}
	}
	for _, s := range []string{"", " ", "0", "0000", "00000", "000000", "0000000", "00000000", "000000000", "abcdef", "１２３４５６", "٠٠٠٠"} {
		add(s)
	}
	return out
}

func runC13(c *Ctx) {
	secrets := []string{"12345678901234567890", "a", "", "JBSWY3DPEHPK3PXP", "c71ca4c68bc14ec5b4ab8d3c3b63802c", strings.Repeat("k", 63), strings.Repeat("k", 64), strings.Repeat("k", 65),
		strings.Repeat("0123456789abcdef", 8), strings.Repeat("0123456789abcdef", 8) + "x", "sécrèt-ключ", " padded secret ", "abc\x00def"}
	periods := []int{30, 31, 60, 89, 90, 300}
	epochs := []int64{2, 37037036, 1 << 31, 1<<32 - 4, 66666666}
	span := int64(8)
	if c.Thorough {
		span = 40
		periods = []int{30, 31, 45, 59, 60, 61, 89, 90, 120, 180, 240, 299, 300}
	}
	c.Case("vectors", func(v *V) {
		if bad := rfcVectors(); bad != "" {
			v.Fail("", "%s", bad)
		}
		v.Count("evaluations", 18)
	})
	for _, algo := range []string{"sha1", "sha256", "sha512"} {
		for digits := 4; digits <= 8; digits++ {
			for _, period := range periods {
				c.Case(fmt.Sprintf("validate/%s/%d/%d", algo, digits, period), func(v *V) {
					for si, secret := range secrets {
						validateProduct(c, v, secret, algo, digits, period, epochs, span, si < 2 || c.Thorough)
					}
				})
			}
			c.Case(fmt.Sprintf("exhaustive/%s/%d", algo, digits), func(v *V) { exhaustiveCodes(v, secrets[0], algo, digits, c.Thorough) })
		}
	}
	for si, secret := range secrets {
		c.Case(fmt.Sprintf("mixed/%d", si), func(v *V) { mixedTokens(v, secret) })
	}
	similarCodes(c)
	registration(c)
}

// mixedTokens asks tokens of one secret and different parameters in turn.
func mixedTokens(v *V, secret string) {
	t := NewSession().NewThread(0)
	type token struct {
		algo           string
		digits, period int
		tok            *identity.MfaToken
	}
	var tokens []token
	for _, algo := range []string{"sha1", "sha256", "sha512"} {
		for digits := 4; digits <= 8; digits++ {
			for _, period := range []int{30, 60, 300} {
				tokens = append(tokens, token{algo, digits, period, &identity.MfaToken{ID: "x", Type: "totp", Secret: secret, Algorithm: algo, Period: period, Digits: digits}})
			}
		}
	}
	for step := 1; step < len(tokens); step += 2 { // every token after every kind of other
		for i := range tokens {
			k := tokens[i*step%len(tokens)]
			for _, n := range []int64{50000000, 50000001} {
				code := refTOTP([]byte(secret), k.algo, k.digits, uint64(n))
				for _, wrong := range []bool{false, true} {
					text := code
					if wrong {
						text = refTOTP([]byte(secret), k.algo, k.digits, uint64(n+5))
					}
					want := text == code
					for j := n - 1; j <= n+1; j++ {
						want = want || text == refTOTP([]byte(secret), k.algo, k.digits, uint64(j))
					}
					var err error
					if p := t.Do(func() { err = k.tok.ValidateCodeWithTime(text, time.Unix(n*int64(k.period)+3, 0)) }); p != nil {
						v.Fail(quote(text), "%q: panic: %v", text, p)
						return
					}
					v.Count("evaluations", 1)
					v.Count("distinct_nontrivial", 1)
					if (err == nil) != want {
						v.Fail(quote(text), "secret %q, %s, %d digits, period %d s, number %d, after other tokens of the secret: %q is expected to be valid: %v, got %v", secret, k.algo, k.digits, k.period, n, text, want, err)
						return
					}
				}
			}
		}
	}
}

// similarCodes tries all texts close to a right code.
func similarCodes(c *Ctx) {
	for _, algo := range []string{"sha1", "sha256", "sha512"} {
		for digits := 4; digits <= 8; digits++ {
			for i, secret := range []string{"12345678901234567890", "JBSWY3DPEHPK3PXP"} {
				c.Case(fmt.Sprintf("similar/%s/%d/%d", algo, digits, i), func(v *V) {
					tok := &identity.MfaToken{ID: "x", Type: "totp", Secret: secret, Algorithm: algo, Period: 30, Digits: digits}
					t := NewSession().NewThread(0)
					const k = 50000001
					right := map[string]bool{}
					for j := k - 1; j <= k+1; j++ {
						right[refTOTP([]byte(secret), algo, digits, uint64(j))] = true
					}
					var texts []string
					for _, code := range sortedNames(right) {
						texts = append(texts, distinct(edits(code), decorations(code))...)
					}
					texts = append(texts, decorations(secret)...)
					texts = append(texts, secret)
					for _, text := range texts {
						var err error
						if p := t.Do(func() { err = tok.ValidateCodeWithTime(text, time.Unix(k*30+7, 0)) }); p != nil {
							v.Fail(quote(text), "%q: panic: %v", text, p)
							return
						}
						v.Count("evaluations", 1)
						if trimBlank(text) != strings.TrimSpace(text) {
							continue // between kinds of white space the property does not decide
						}
						if want := right[trimBlank(text)]; (err == nil) != want {
							v.Fail(quote(text), "secret %q, %s, %d digits, period number %d: %q is expected to be valid: %v, got %v", secret, algo, digits, k, text, want, err)
							return
						}
					}
				})
			}
		}
	}
}

// validateProduct tries every candidate at every time.
func validateProduct(c *Ctx, v *V, secret, algo string, digits, period int, epochs []int64, span int64, wide bool) {
	tok := &identity.MfaToken{ID: "x", Type: "totp", Secret: secret, Algorithm: algo, Period: period, Digits: digits}
	s := NewSession()
	t := s.NewThread(0)
	s.tick = 0
	for _, e := range epochs {
		if e*int64(period) > 250000000000 {
			continue
		}
		for k := e; k < e+span; k++ {
			if c.Expired() {
				return
			}
			beat()
			var codes []string
			for j := k - 3; j <= k+3; j++ {
				if j >= 0 {
					codes = append(codes, refTOTP([]byte(secret), algo, digits, uint64(j)))
				} else {
					codes = append(codes, strings.Repeat("9", digits))
				}
			}
			right := map[string]bool{codes[2]: true, codes[3]: true, codes[4]: true}
			texts := candidates(codes, wide && k == e)
			for _, off := range []time.Duration{0, time.Duration(period) * time.Second / 2, time.Duration(period)*time.Second - time.Nanosecond} {
				at := time.Unix(k*int64(period), 0).Add(off)
				for n, text := range texts {
					if n%4 != 0 && off != 0 && k != e {
						continue
					}
					// Two ways to ask, and the time zone does not matter.
					var err error
					x := at.UTC()
					if n%2 == 1 {
						x = at.In(time.FixedZone("z", 20700))
					}
					s.now = at.UnixNano()
					if p := t.Do(func() {
						if n%3 == 0 && at.Unix() < 9000000000 {
							err = tok.ValidateCode(text)
						} else {
							err = tok.ValidateCodeWithTime(text, x)
						}
					}); p != nil {
						v.Fail(fmt.Sprintf("%q %d %q", secret, at.UnixNano(), text), "secret %q, %s, %d digits, period %d, at %v: %q: panic: %v", secret, algo, digits, period, at.UTC(), text, p)
						return
					}
					want := right[trimBlank(text)]
					v.Count("evaluations", 1)
					if want {
						v.Count("distinct_nontrivial", 1)
					}
					if (err == nil) != want {
						v.Fail(fmt.Sprintf("%q %d %q", secret, at.UnixNano(), text), "secret %q, %s, %d digits, period %d, at %v (Unix %d, period number %d): %q is expected to be valid: %v, got: %v (codes of the periods from %d: %q)",
							secret, algo, digits, period, at.UTC(), at.Unix(), k, text, want, err, k-3, codes)
						return
					}
				}
			}
		}
	}
	if v.WantSample() {
		v.Sample(map[string]interface{}{"secret": secret, "algorithm": algo, "digits": digits, "period": period, "epochs": epochs, "consecutive periods": span})
	}
}

// exhaustiveCodes tries every text of four digits (for more digits, every text
// whose first digits are those of a right code).
func exhaustiveCodes(v *V, secret, algo string, digits int, thorough bool) {
	tok := &identity.MfaToken{ID: "x", Type: "totp", Secret: secret, Algorithm: algo, Period: 30, Digits: digits}
	s := NewSession()
	t := s.NewThread(0)
	times := []uint64{100, 50000001}
	if thorough {
		times = []uint64{100, 101, 102, 103, 50000001, 50000002, 50000003}
	}
	for _, k := range times {
		right := map[string]bool{}
		for j := k - 1; j <= k+1; j++ {
			right[refTOTP([]byte(secret), algo, digits, j)] = true
		}
		head := refTOTP([]byte(secret), algo, digits, k)[:digits-4]
		for i := 0; i < 10000; i++ {
			if i%1000 == 0 {
				beat()
			}
			text := head + fmt.Sprintf("%04d", i)
			var err error
			if p := t.Do(func() { err = tok.ValidateCodeWithTime(text, time.Unix(int64(k)*30+7, 0)) }); p != nil {
				v.Fail(text, "panic: %v", p)
				return
			}
			v.Count("evaluations", 1)
			if (err == nil) != right[text] {
				v.Fail(fmt.Sprintf("%d %s", k, text), "secret %q, %s, %d digits, period number %d: %q is expected to be valid: %v, got %v", secret, algo, digits, k, text, right[text], err)
				return
			}
		}
	}
}

// registration tries the product of parameters and passcodes.
func registration(c *Ctx) {
	algos := []string{"", "sha1", "SHA1", "sha256", "SHA512", "md5", "sha224", "sha3", "none"}
	periods := []int{-30, -1, 0, 1, 29, 30, 31, 60, 299, 300, 301, 3600, 1 << 31}
	digits := []int{-6, -1, 0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 64}
	for _, algo := range algos {
		for _, period := range periods {
			c.Case(fmt.Sprintf("register/%s/%d", algo, period), func(v *V) {
				r, bad := c.newRun(nil, []Op{uAlice}, nil)
				defer r.w.Close()
				if bad != "" {
					v.Fail("", "%s", bad)
					return
				}
				for _, d := range digits {
					if c.Expired() || v.Failed() {
						return
					}
					registerProduct(v, r, algo, period, d)
				}
			})
		}
	}
}

func registerProduct(v *V, r *Run, algo string, period, digits int) {
	w := r.w
	effAlgo, effDigits := strings.ToLower(algo), digits
	okAlgo := effAlgo == "" || effAlgo == "sha1" || effAlgo == "sha256" || effAlgo == "sha512"
	if effAlgo == "" || !okAlgo {
		effAlgo = "sha1"
	}
	if digits == 0 {
		effDigits = 6
	}
	supported := okAlgo && period >= 30 && period <= 300 && effDigits >= 4 && effDigits <= 8
	cd, cp := effDigits, int64(period) // with which to compute codes
	if cd < 1 || cd > 10 {
		cd = 6
	}
	if cp < 1 {
		cp = 30
	}
	secret := fmt.Sprintf("secret of %s %d %d", algo, period, digits)
	for _, off := range []int64{0, cp / 2, cp - 1} {
		n := 1893456000 / cp
		now := time.Unix(n*cp+off, 0)
		code := func(k int64) string { return refTOTP([]byte(secret), effAlgo, cd, uint64(n+k)) }
		texts := []string{"", "12", strings.Repeat("0", cd), " "}
		for k := int64(-5); k <= 5; k++ {
			texts = append(texts, code(k), code(k)[1:], code(k)+"1")
		}
		for _, text := range texts {
			must := supported && (text == code(0) || text == code(-1))
			may := false
			for k := int64(-2); k <= 2; k++ {
				if supported && trimBlank(text) == code(k) {
					may = true
				}
			}
			w.s.now = now.UnixNano()
			req := requests.NewRequest()
			req.User.Username, req.User.Email = "alice", "alice@"+dom
			req.MfaToken.Type, req.MfaToken.Comment = "totp", "comment "+secret
			req.MfaToken.Secret, req.MfaToken.Algorithm, req.MfaToken.Period, req.MfaToken.Digits, req.MfaToken.Passcode = secret, algo, period, digits, text
			o := w.Call(func() error { return w.db.AddMfaToken(req) })
			v.Count("evaluations", 1)
			key := fmt.Sprintf("%d %d %q", digits, off, text)
			what := fmt.Sprintf("registering algorithm %q, period %d, digits %d, %d s into the period, passcode %q", algo, period, digits, off, text)
			if o.Panic != "" || must && !o.OK() || !may && o.OK() {
				v.Fail(key, "%s: expected to be accepted: %v (allowed: %v), got %s", what, must, may, o)
				return
			}
			if !o.OK() {
				continue
			}
			v.Count("distinct_nontrivial", 1)
			// The stored token validates what the parameters say, live and reopened.
			for round := 0; round < 2; round++ {
				tok := w.mfaToken("alice", "comment "+secret)
				if tok == nil {
					v.Fail(key, "%s: accepted, but not listed (reopened: %v)", what, round == 1)
					return
				}
				if tok.Algorithm != effAlgo || tok.Period != period || tok.Digits != effDigits || tok.Secret != secret {
					v.Fail(key, "%s: stored as %s %d %d %q", what, tok.Algorithm, tok.Period, tok.Digits, tok.Secret)
					return
				}
				for k := int64(-4); k <= 4; k++ {
					var err error
					w.s.now = now.UnixNano()
					w.Call(func() error { err = tok.ValidateCode(code(k)); return nil })
					want := code(k) == code(-1) || code(k) == code(0) || code(k) == code(1)
					v.Count("evaluations", 1)
					if (err == nil) != want {
						v.Fail(key, "%s: the stored token is expected to accept the code of period %+d: %v, got %v (reopened: %v)", what, k, want, err, round == 1)
						return
					}
				}
				if round == 0 {
					if o := w.Open(); !o.OK() {
						v.Fail(key, "reopening: %s", o)
						return
					}
				}
			}
			req = requests.NewRequest()
			req.User.Username, req.User.Email = "alice", "alice@"+dom
			req.MfaToken.ID = w.mfaToken("alice", "comment "+secret).ID
			if o := w.Call(func() error { return w.db.DeleteMfaToken(req) }); !o.OK() {
				v.Fail(key, "deleting the token: %s", o)
				return
			}
		}
	}
}

// mfaToken returns the listed token with the given comment.
func (w *World) mfaToken(user, comment string) *identity.MfaToken {
	o := w.Exec(on(user, Op{K: "getmfa"}))
	b, _ := o.Payload.(*identity.MfaTokenBundle)
	if b == nil {
		return nil
	}
	for _, t := range b.Get() {
		if t.Comment == comment {
			return t
		}
	}
	return nil
}
