package main

import (
	"fmt"
	"sort"
	"strings"
)

// Op is one operation with its arguments.
type Op struct {
	K        string
	Name     string
	Email    string
	Pw       string
	Old      string
	Full     string
	Roles    []string
	Comment  string
	Usage    string
	Payload  string
	Disabled bool
	Ref      int // ordinal of an object; negative: no object, see refID
	Path     string
	Fault    string
}

func (op Op) String() string {
	var b strings.Builder
	b.WriteString(op.K)
	f := func(n, v string) {
		if len(v) > 300 {
			fmt.Fprintf(&b, " %s=%q... (%d bytes)", n, v[:40], len(v))
		} else if v != "" {
			fmt.Fprintf(&b, " %s=%q", n, v)
		}
	}
	f("user", op.Name)
	f("email", op.Email)
	f("old", op.Old)
	f("pw", op.Pw)
	f("name", op.Full)
	if len(op.Roles) > 20 {
		fmt.Fprintf(&b, " roles=%d of them", len(op.Roles))
	} else if len(op.Roles) > 0 {
		fmt.Fprintf(&b, " roles=%q", op.Roles)
	}
	f("comment", op.Comment)
	f("usage", op.Usage)
	f("payload", op.Payload)
	if op.Disabled {
		b.WriteString(" disabled")
	}
	switch op.K {
	case "delpk", "delapi", "delmfa", "lookup":
		fmt.Fprintf(&b, " #%d", op.Ref)
	}
	f("path", op.Path)
	f("fault", op.Fault)
	return b.String()
}

// The reference model: plain lists.

type mPK struct {
	Ord      int
	ID       string
	Usage    string
	Mat      string
	Type     string
	Comment  string
	Disabled bool
}

type mAPI struct {
	Ord      int
	Comment  string
	Disabled bool
}

type mMfa struct {
	Ord      int
	Spec     string
	Comment  string
	Disabled bool
}

type mUser struct {
	Name, Email, Full string
	Roles             []string
	Pws               []string // current first
	PKs               []mPK
	APIs              []mAPI
	Mfas              []mMfa
}

type mPolicy struct {
	UserMin, UserMax, PwMin, PwMax, Keep int
}

// Model is the state of the reference model.
type Model struct {
	Users  []*mUser
	Policy mPolicy
	// Ordinals of created objects, for references.
	nPK, nAPI, nMfa int
	owner           []string // owner (user name) of API key by ordinal
	pkIDs           []string
}

func NewModel() *Model { return &Model{Policy: mPolicy{3, 50, 8, 128, 10}} }

// Clone returns a deep copy.
func (m *Model) Clone() *Model {
	c := *m
	c.Users = nil
	for _, u := range m.Users {
		v := *u
		v.Roles = append([]string{}, u.Roles...)
		v.Pws = append([]string{}, u.Pws...)
		v.PKs = append([]mPK{}, u.PKs...)
		v.APIs = append([]mAPI{}, u.APIs...)
		v.Mfas = append([]mMfa{}, u.Mfas...)
		c.Users = append(c.Users, &v)
	}
	c.owner = append([]string{}, m.owner...)
	c.pkIDs = append([]string{}, m.pkIDs...)
	return &c
}

// Key is a canonical form of the state.
func (m *Model) Key() string {
	var b strings.Builder
	for _, u := range m.Users {
		fmt.Fprintf(&b, "%+v;", *u)
	}
	fmt.Fprintf(&b, "%v %d %d %d", m.Policy, m.nPK, m.nAPI, m.nMfa)
	return b.String()
}

// sameName compares without regard to letter case: texts are the same if
// their lower-case forms are. Other letters that only fold onto each other
// (long s and s, the two small sigmas) are different.
func sameName(a, b string) bool { return strings.ToLower(a) == strings.ToLower(b) }

func (m *Model) byName(s string) *mUser {
	for _, u := range m.Users {
		if sameName(u.Name, s) {
			return u
		}
	}
	return nil
}

func (m *Model) byEmail(s string) *mUser {
	for _, u := range m.Users {
		if sameName(u.Email, s) {
			return u
		}
	}
	return nil
}

// find resolves a login name.
func (m *Model) find(s string) *mUser {
	if u := m.byName(s); u != nil {
		return u
	}
	return m.byEmail(s)
}

func (m *Model) pair(name, email string) *mUser {
	u := m.byName(name)
	if u == nil || u != m.byEmail(email) {
		return nil
	}
	return u
}

// pwEqual compares passwords as far as the property goes: 72 bytes.
func pwEqual(a, b string) bool {
	if len(a) > 72 {
		a = a[:72]
	}
	if len(b) > 72 {
		b = b[:72]
	}
	return a == b
}

func (m *Model) pwOK(s string) bool {
	return len(s) >= m.Policy.PwMin && len(s) <= m.Policy.PwMax && strings.TrimSpace(s) != "" && strings.IndexByte(s, 0) < 0
}

func (u *mUser) setPw(s string, keep int) {
	u.Pws = append([]string{s}, u.Pws...)
	if len(u.Pws) > keep+1 {
		u.Pws = u.Pws[:keep+1]
	}
}

// Result is what the model says about an operation.
type Result struct {
	OK      bool
	Code    int    // for authentication
	User    string // for lookup and identify
	Skipped bool   // the model does not decide this operation
}

// Apply performs an operation. Operations with injected faults change nothing
// and must fail if they would otherwise have written.
func (m *Model) Apply(op Op) Result {
	if op.Fault != "" {
		switch op.K {
		case "look", "reopen", "auth", "authkey", "lookup", "identify", "getpk", "getapi", "getmfa", "getuser", "getusers", "count":
			// Nothing is written: the fault has no occasion.
		default:
			return Result{OK: false}
		}
	}
	switch op.K {
	case "reopen", "save", "copy", "count", "getpath", "look":
		return Result{OK: true}
	case "adduser":
		if len(op.Name) < m.Policy.UserMin || len(op.Name) > m.Policy.UserMax || !m.pwOK(op.Pw) {
			return Result{}
		}
		if !refEmail(op.Email) {
			return Result{}
		}
		var roles []string
		for _, r := range op.Roles {
			c, ok := refRole(r)
			if !ok {
				return Result{}
			}
			dup := false
			for _, x := range roles {
				if x == c {
					dup = true
				}
			}
			if !dup {
				roles = append(roles, c)
			}
		}
		full := ""
		if strings.TrimSpace(op.Full) != "" {
			f, ok := refName(strings.TrimSpace(op.Full))
			if !ok {
				return Result{}
			}
			full = f
		}
		for _, u := range m.Users {
			for _, n := range []string{op.Name, op.Email} {
				if sameName(u.Name, n) || sameName(u.Email, n) {
					return Result{}
				}
			}
		}
		u := &mUser{Name: op.Name, Email: op.Email, Full: full, Roles: roles}
		u.setPw(op.Pw, m.Policy.Keep)
		m.Users = append(m.Users, u)
		return Result{OK: true}
	case "auth":
		u := m.find(op.Name)
		if u == nil || op.Pw == "" || !pwEqual(u.Pws[0], op.Pw) {
			return Result{Code: 400}
		}
		return Result{OK: true, Code: 200}
	case "authkey":
		u := m.find(op.Name)
		if u != nil {
			for _, k := range u.Mfas {
				if sp := mfaSpecs[k.Spec]; !k.Disabled && sp.Key == op.Payload && sp.ID == "" {
					return Result{OK: true, Code: 200}
				}
			}
		}
		return Result{Code: 400}
	case "identify":
		return Result{OK: true}
	case "lookup":
		for _, u := range m.Users {
			for _, k := range u.APIs {
				if k.Ord == op.Ref && !k.Disabled && op.Payload == "" {
					return Result{OK: true, Code: 200, User: u.Name + "|" + u.Email}
				}
			}
		}
		return Result{}
	}
	u := m.pair(op.Name, op.Email)
	if u == nil {
		return Result{}
	}
	switch op.K {
	case "getusers", "getuser", "getpk", "getapi", "getmfa":
		return Result{OK: true}
	case "deluser":
		return Result{}
	case "changepw":
		if !m.pwOK(op.Pw) || !pwEqual(u.Pws[0], op.Old) {
			return Result{}
		}
		u.setPw(op.Pw, m.Policy.Keep)
		return Result{OK: true}
	case "addpk":
		fx := pkFixtureByName(op.Payload)
		if fx.Mat == "" || op.Usage != fx.Usage {
			return Result{}
		}
		for _, k := range u.PKs {
			if k.Mat == fx.Mat {
				return Result{}
			}
		}
		id := fmt.Sprintf("#%d", m.nPK)
		if fx.Usage == "gpg" {
			id = "gpg:" + fx.Mat
		}
		u.PKs = append(u.PKs, mPK{m.nPK, id, op.Usage, fx.Mat, fx.Type, wantPKComment(fx, op.Comment), op.Disabled})
		m.pkIDs = append(m.pkIDs, id)
		m.nPK++
		return Result{OK: true}
	case "delpk":
		for i, k := range u.PKs {
			if op.Ref >= 0 && op.Ref < len(m.pkIDs) && m.pkIDs[op.Ref] == k.ID {
				u.PKs = append(append([]mPK{}, u.PKs[:i]...), u.PKs[i+1:]...)
				return Result{OK: true}
			}
		}
		return Result{}
	case "addapi":
		if op.Usage != "api" || op.Comment == "" {
			return Result{}
		}
		u.APIs = append(u.APIs, mAPI{m.nAPI, op.Comment, op.Disabled})
		m.owner = append(m.owner, u.Name)
		m.nAPI++
		return Result{OK: true}
	case "delapi":
		for i, k := range u.APIs {
			if k.Ord == op.Ref {
				u.APIs = append(append([]mAPI{}, u.APIs[:i]...), u.APIs[i+1:]...)
				return Result{OK: true}
			}
		}
		return Result{}
	case "addmfa":
		sp := mfaSpecs[op.Payload]
		if !sp.Valid {
			return Result{}
		}
		for _, k := range u.Mfas {
			if k.Comment == op.Comment || specSecret(k.Spec) == specSecret(op.Payload) {
				return Result{}
			}
		}
		u.Mfas = append(u.Mfas, mMfa{m.nMfa, op.Payload, op.Comment, op.Disabled})
		m.nMfa++
		return Result{OK: true}
	case "delmfa":
		for i, k := range u.Mfas {
			if k.Ord == op.Ref {
				u.Mfas = append(append([]mMfa{}, u.Mfas[:i]...), u.Mfas[i+1:]...)
				return Result{OK: true}
			}
		}
		return Result{}
	}
	panic("model: unknown operation " + op.K)
}

func specSecret(spec string) string {
	sp := mfaSpecs[spec]
	if sp.Type == "u2f" {
		return sp.Chal
	}
	return sp.Secret
}

// --- reference parsers -------------------------------------------------------

func isAlnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// refEmail is the HTML5 e-mail grammar, written as a scanner.
func refEmail(s string) bool {
	at := strings.IndexByte(s, '@')
	if at < 1 {
		return false
	}
	for i := 0; i < at; i++ {
		if !isAlnum(s[i]) && !strings.ContainsRune(".!#$%&'*+/=?^_`{|}~-", rune(s[i])) {
			return false
		}
	}
	for _, label := range strings.Split(s[at+1:], ".") {
		if len(label) < 1 || len(label) > 63 {
			return false
		}
		for i := 0; i < len(label); i++ {
			if !isAlnum(label[i]) && !(label[i] == '-' && i > 0 && i < len(label)-1) {
				return false
			}
		}
	}
	return true
}

// refRole returns the canonical text of a role.
func refRole(s string) (string, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return "", false
	}
	org, name, found := strings.Cut(s, "/")
	if !found {
		return s, true
	}
	if name == "" {
		return "", false
	}
	if org == "" {
		return name, true
	}
	return org + "/" + name, true
}

// refName returns the rendering of a full name "Last, First" or "First Last".
func refName(s string) (string, bool) {
	if strings.Count(s, ",") == 1 {
		i := strings.Index(s, ",")
		l, f := strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+1:])
		return l + ", " + f, l != "" && f != ""
	}
	if strings.Count(s, " ") == 1 {
		f, l, _ := strings.Cut(s, " ")
		return l + ", " + f, l != "" && f != ""
	}
	return "", false
}

// --- observation -------------------------------------------------------------

// Universe says what to observe.
type Universe struct {
	Pairs    [][2]string // name and address for the getters
	Logins   []string
	Pws      []string
	Alts     []string // alterations of key texts to look up
	Keys     []string // security keys to authenticate with
	Sections map[string]bool
}

func (un *Universe) has(s string) bool { return un.Sections == nil || un.Sections[s] }

// Lines is what the model predicts for an observation.
func (m *Model) Lines(un *Universe) []string {
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	if un.has("count") {
		add("count %d", len(m.Users))
	}
	for _, p := range un.Pairs {
		u := m.pair(p[0], p[1])
		tag := p[0] + "+" + p[1]
		if u == nil {
			for _, s := range []string{"users", "user", "pk", "api", "mfa"} {
				if un.has(s) {
					add("%s %s refused", s, tag)
				}
			}
			continue
		}
		if un.has("users") {
			var l []string
			for _, x := range m.Users {
				l = append(l, fmt.Sprintf("{%s %s %s}", x.Name, x.Email, x.Full))
			}
			add("users %s %s", tag, strings.Join(l, ","))
		}
		if un.has("user") {
			add("user %s %s %s %s roles=%q pws=%d pk=%d api=%d mfa=%d", tag, u.Name, u.Email, u.Full, u.Roles, len(u.Pws), len(u.PKs), len(u.APIs), len(u.Mfas))
		}
		if un.has("pk") {
			for _, usage := range []string{"ssh", "gpg", "api"} {
				var l []string
				for _, k := range u.PKs {
					if k.Usage == usage && !k.Disabled {
						l = append(l, fmt.Sprintf("{%s %s %s %q}", pkOrd(usage, k.Ord), k.Type, k.Mat, k.Comment))
					}
				}
				add("pk %s %s %s", tag, usage, strings.Join(l, ","))
			}
		}
		if un.has("api") {
			var l []string
			for _, k := range u.APIs {
				if !k.Disabled {
					l = append(l, fmt.Sprintf("{#%d api %q}", k.Ord, k.Comment))
				}
			}
			add("api %s %s", tag, strings.Join(l, ","))
			add("api %s other ", tag)
		}
		if un.has("mfa") {
			var l []string
			for _, k := range u.Mfas {
				if !k.Disabled {
					l = append(l, fmt.Sprintf("{#%d %s %q}", k.Ord, specParams(k.Spec), k.Comment))
				}
			}
			add("mfa %s %s", tag, strings.Join(l, ","))
		}
	}
	for _, n := range un.Logins {
		u := m.find(n)
		if un.has("ident") {
			if u == nil {
				add("ident %s nobody nobody@localhost name= roles=[] [password] app=false key=false", n)
			} else {
				enabled, app, key := 0, false, false
				for _, k := range u.Mfas {
					if !k.Disabled {
						enabled++
						if mfaSpecs[k.Spec].Type == "totp" {
							app = true
						} else {
							key = true
						}
					}
				}
				ch := "[password]"
				if enabled > 0 {
					ch = "[password mfa]"
				} else if len(u.Mfas) > 0 {
					ch = "[unspecified]"
				}
				add("ident %s %s %s name=%s roles=%v %s app=%v key=%v", n, u.Name, u.Email, u.Full, u.Roles, ch, app, key)
			}
		}
		if un.has("auth") {
			for _, p := range un.Pws {
				r := m.Apply(Op{K: "auth", Name: n, Pw: p})
				add("auth %s %q %v %d", n, p, r.OK, r.Code)
			}
		}
		if un.has("authkey") {
			for _, k := range un.Keys {
				r := m.Apply(Op{K: "authkey", Name: n, Payload: k})
				add("authkey %s %s %v %d", n, k, r.OK, r.Code)
			}
		}
	}
	if un.has("lookup") {
		for i := 0; i < m.nAPI; i++ {
			for _, alt := range append([]string{""}, un.Alts...) {
				r := m.Apply(Op{K: "lookup", Ref: i, Payload: alt})
				add("lookup #%d %s %v %s", i, alt, r.OK, r.User)
			}
		}
	}
	return out
}

func pkOrd(usage string, ord int) string {
	if usage == "gpg" {
		return "gpg"
	}
	return fmt.Sprintf("#%d", ord)
}

// specParams are the parameters a token must have.
func specParams(spec string) string {
	sp := mfaSpecs[spec]
	if sp.Type == "u2f" {
		f := fixtures[sp.Key]
		return fmt.Sprintf("u2f secret=%q id=%s type=public-key rp=%s tr=usb,nfc x=%s y=%s count=7 UP=true AT=true UV=false", sp.Chal, sp.id(), rpHash()[:8], f["x"][:8], f["y"][:8])
	}
	algo, digits := strings.ToLower(sp.Algo), sp.Digits
	if algo == "" {
		algo = "sha1"
	}
	if digits == 0 {
		digits = 6
	}
	return fmt.Sprintf("totp secret=%q %s %d %d", sp.Secret, algo, sp.Period, digits)
}

var _ = sort.Strings
