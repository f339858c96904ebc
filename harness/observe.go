package main

import (
	"fmt"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func lastIndex(ids []string, id string) string {
	for i := len(ids) - 1; i >= 0; i-- {
		if ids[i] == id {
			return fmt.Sprintf("#%d", i)
		}
	}
	return "#? " + id
}

func short(s string) string {
	if len(s) > 8 {
		return s[:8]
	}
	return s
}

// Lines observes the database under test.
func (w *World) Lines(un *Universe) []string {
	// Observations use requests of their own.
	defer func(reuse bool) { w.reuse = reuse }(w.reuse)
	w.reuse = false
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	if un.has("count") {
		o := w.Exec(Op{K: "count"})
		if o.OK() {
			add("count %d", o.Payload)
		} else {
			add("count %s", o)
		}
	}
	get := func(k, usage string, p [2]string) (interface{}, string) {
		o := w.Exec(Op{K: k, Name: p[0], Email: p[1], Usage: usage})
		if o.Panic != "" {
			return nil, o.String()
		}
		if o.Err != nil {
			if o.Payload != nil {
				return nil, "refused but returned a payload"
			}
			return nil, "refused"
		}
		return o.Payload, ""
	}
	for _, p := range un.Pairs {
		tag := p[0] + "+" + p[1]
		if un.has("users") {
			v, bad := get("getusers", "", p)
			if b, ok := v.(*identity.UserMetadataBundle); ok && b != nil {
				var l []string
				for _, x := range b.Get() {
					l = append(l, fmt.Sprintf("{%s %s %s}", x.Username, x.Email, x.Name))
				}
				if b.Size() != len(l) {
					bad = fmt.Sprintf("Size() is %d for %d entries", b.Size(), len(l))
				} else {
					add("users %s %s", tag, strings.Join(l, ","))
				}
			} else if bad == "" {
				bad = fmt.Sprintf("payload of type %T", v)
			}
			if bad != "" {
				add("users %s %s", tag, bad)
			}
		}
		if un.has("user") {
			v, bad := get("getuser", "", p)
			if u, ok := v.(*identity.User); ok && u != nil {
				email := ""
				if len(u.EmailAddresses) == 1 && u.EmailAddress != nil && u.EmailAddress.Address == u.EmailAddresses[0].Address {
					email = u.EmailAddress.Address
					if !strings.HasSuffix(email, "@"+u.EmailAddress.Domain) {
						email += " in domain " + u.EmailAddress.Domain
					}
				} else {
					email = fmt.Sprintf("%d addresses", len(u.EmailAddresses))
				}
				roles := []string{}
				for _, r := range u.Roles {
					roles = append(roles, r.String())
				}
				add("user %s %s %s %s roles=%q pws=%d pk=%d api=%d mfa=%d", tag, u.Username, email, u.GetFullName(), roles, len(u.Passwords), len(u.PublicKeys), len(u.APIKeys), len(u.MfaTokens))
			} else {
				if bad == "" {
					bad = fmt.Sprintf("payload of type %T", v)
				}
				add("user %s %s", tag, bad)
			}
		}
		if un.has("pk") {
			refusedAll := true
			var lines []string
			for _, usage := range []string{"ssh", "gpg", "api"} {
				v, bad := get("getpk", usage, p)
				if b, ok := v.(*identity.PublicKeyBundle); ok && b != nil {
					var l []string
					for _, k := range b.Get() {
						ord := "gpg"
						if usage != "gpg" {
							ord = lastIndex(w.pkIDs, k.ID)
						}
						extra := ""
						if k.Usage != usage || k.Disabled || k.Expired {
							extra = fmt.Sprintf(" usage=%s disabled=%v expired=%v", k.Usage, k.Disabled, k.Expired)
						}
						l = append(l, fmt.Sprintf("{%s %s %s %q%s}", ord, k.Type, materialOf(k.Fingerprint), k.Comment, extra))
					}
					if b.Size() != len(l) {
						l = append(l, fmt.Sprintf("Size() is %d", b.Size()))
					}
					refusedAll = false
					lines = append(lines, fmt.Sprintf("pk %s %s %s", tag, usage, strings.Join(l, ",")))
				} else {
					if bad != "refused" {
						refusedAll = false
						if bad == "" {
							bad = fmt.Sprintf("payload of type %T", v)
						}
					}
					lines = append(lines, fmt.Sprintf("pk %s %s %s", tag, usage, bad))
				}
			}
			if refusedAll {
				add("pk %s refused", tag)
			} else {
				out = append(out, lines...)
				// Of usages that no key has there are no keys.
				for _, usage := range []string{"SSH", "Gpg", "", "ssh "} {
					if v, _ := get("getpk", usage, p); v != nil {
						if b, ok := v.(*identity.PublicKeyBundle); !ok || b != nil && b.Size() > 0 {
							add("pk %s %q is not empty", tag, usage)
						}
					}
				}
			}
		}
		if un.has("api") {
			v, bad := get("getapi", "api", p)
			if b, ok := v.(*identity.APIKeyBundle); ok && b != nil {
				var l []string
				for _, k := range b.Get() {
					extra := ""
					if k.Disabled || k.Expired {
						extra = fmt.Sprintf(" disabled=%v expired=%v", k.Disabled, k.Expired)
					}
					l = append(l, fmt.Sprintf("{%s %s %q%s}", lastIndex(w.apiIDs, k.ID), k.Usage, k.Comment, extra))
				}
				if b.Size() != len(l) {
					l = append(l, fmt.Sprintf("Size() is %d", b.Size()))
				}
				add("api %s %s", tag, strings.Join(l, ","))
				v, bad = get("getapi", "ssh", p)
				if b, ok := v.(*identity.APIKeyBundle); ok && b != nil && b.Size() == 0 {
					add("api %s other ", tag)
				} else {
					add("api %s other %v %s", tag, v, bad)
				}
				for _, usage := range []string{"API", "", "api "} {
					if v, _ := get("getapi", usage, p); v != nil {
						if b, ok := v.(*identity.APIKeyBundle); !ok || b != nil && b.Size() > 0 {
							add("api %s %q is not empty", tag, usage)
						}
					}
				}
			} else {
				if bad == "" {
					bad = fmt.Sprintf("payload of type %T", v)
				}
				add("api %s %s", tag, bad)
			}
		}
		if un.has("mfa") {
			v, bad := get("getmfa", "", p)
			if b, ok := v.(*identity.MfaTokenBundle); ok && b != nil {
				var l []string
				for _, k := range b.Get() {
					l = append(l, fmt.Sprintf("{%s %s %q}", lastIndex(w.mfaIDs, k.ID), tokenParams(k), k.Comment))
				}
				if b.Size() != len(l) {
					l = append(l, fmt.Sprintf("Size() is %d", b.Size()))
				}
				add("mfa %s %s", tag, strings.Join(l, ","))
			} else {
				if bad == "" {
					bad = fmt.Sprintf("payload of type %T", v)
				}
				add("mfa %s %s", tag, bad)
			}
		}
	}
	for _, n := range un.Logins {
		if un.has("ident") {
			add("ident %s %s", n, w.identLine(n))
		}
		if un.has("auth") {
			for _, p := range un.Pws {
				o := w.Exec(Op{K: "auth", Name: n, Pw: p})
				if o.Panic != "" {
					add("auth %s %q %s", n, p, o)
				} else {
					add("auth %s %q %v %d", n, p, o.OK(), o.Code)
				}
			}
		}
		if un.has("authkey") {
			for _, k := range un.Keys {
				o := w.Exec(Op{K: "authkey", Name: n, Payload: k})
				if o.Panic != "" {
					add("authkey %s %s %s", n, k, o)
				} else {
					add("authkey %s %s %v %d", n, k, o.OK(), o.Code)
				}
			}
		}
	}
	if un.has("lookup") {
		for i := range w.secrets {
			for _, alt := range append([]string{""}, un.Alts...) {
				o := w.Exec(Op{K: "lookup", Ref: i, Payload: alt})
				if o.Panic != "" {
					add("lookup #%d %s %s", i, alt, o)
					continue
				}
				user := ""
				if o.OK() {
					user = o.Req.User.Username + "|" + o.Req.User.Email
				}
				add("lookup #%d %s %v %s", i, alt, o.OK(), user)
			}
		}
	}
	return out
}

func (w *World) identLine(n string) string {
	o := w.Exec(Op{K: "identify", Name: n})
	if !o.OK() {
		return o.String()
	}
	r := o.Req
	ch := fmt.Sprint(r.User.Challenges)
	// With disabled tokens only, the property leaves the challenges open.
	if ch == "[password mfa]" && !r.Flags.MfaApp && !r.Flags.MfaUniversal {
		ch = "[unspecified]"
	}
	line := fmt.Sprintf("%s %s name=%s roles=%v %s app=%v key=%v", r.User.Username, r.User.Email, r.User.FullName, r.User.Roles, ch, r.Flags.MfaApp, r.Flags.MfaUniversal)
	// The same with a request that carries the answers of another identification.
	d := dirtyRequest(n)
	d.Flags.Enabled = true
	again := w.Call(func() error { return w.db.IdentifyUser(d) })
	if !again.OK() || jsonOf(d.User) != jsonOf(r.User) || jsonOf(d.Flags) != jsonOf(r.Flags) {
		line += fmt.Sprintf(" but after another identification %s: %s %s", again, jsonOf(d.User), jsonOf(d.Flags))
	}
	return line
}

// dirtyRequest is a request for a user in whose fields are left the answers to
// the identification of another user.
func dirtyRequest(n string) *requests.Request {
	r := requests.NewRequest()
	r.User.Username, r.User.Email, r.User.FullName = n, "other@example.com", "Other, One"
	r.User.Roles, r.User.Challenges = []string{"other/role"}, []string{"password", "mfa", "other"}
	r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal = true, true, true
	return r
}

func tokenParams(k *identity.MfaToken) string {
	s := ""
	if k.Type == "u2f" {
		p := k.Parameters
		s = fmt.Sprintf("u2f secret=%q id=%s type=%s rp=%s tr=%s x=%s y=%s count=%d UP=%v AT=%v UV=%v", k.Secret, p["u2f_id"], p["u2f_type"], short(p["rp_id_hash"]),
			p["u2f_transports"], short(p["curve_xcoord"]), short(p["curve_ycoord"]), k.SignatureCounter, k.Flags["UP"], k.Flags["AT"], k.Flags["UV"])
	} else {
		s = fmt.Sprintf("%s secret=%q %s %d %d", k.Type, k.Secret, k.Algorithm, k.Period, k.Digits)
	}
	if k.Disabled || k.Expired {
		s += fmt.Sprintf(" disabled=%v expired=%v", k.Disabled, k.Expired)
	}
	return s
}

// diffLines compares an observation with the prediction. An "[unspecified]"
// challenge list agrees with both forms.
func diffLines(want, got []string) string {
	n := len(want)
	if len(got) > n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(want) {
			a = want[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a == b {
			continue
		}
		if strings.Contains(a, "[unspecified]") && strings.Replace(a, "[unspecified]", "[password]", 1) == b {
			continue
		}
		return fmt.Sprintf("expected: %s\n     got: %s", a, b)
	}
	return ""
}

var _ = time.Now
var _ = requests.NewRequest
