package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

//go:embed fixtures/base-revision.json
var baseRevision []byte

//go:embed fixtures/base-revision-keys.json
var baseKeysJSON []byte

func init() {
	register(&Property{
		ID: "C33", Level: "model_checking", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "(written) after every history up to the depth, the file is compared member by member with a document that the reference model gives; (read) files assembled by hand for every state of a product of credentials, in several renderings, are opened and answer as the reference model does, refuse what they hold already, and after a save hold every member they held; (kept) a file with every member of the format at once, and with each one alone, through every operation of a menu; (earlier) a file written by the pinned revision",
		Assumptions: []string{"members other than those of the format are tolerated in both directions", "revision and last_modified are C21's"},
		Run:         runC33,
	})
}

// pred is a requirement on a member that the model does not determine.
type pred func(v interface{}) bool

// zeroMember reports whether a member has the value that stands for absence.
func zeroMember(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == "" || x == zeroTime
	case bool:
		return !x
	case float64:
		return x == 0
	case int:
		return x == 0
	case []interface{}:
		return len(x) == 0
	case map[string]interface{}:
		for _, y := range x {
			if !zeroMember(y) {
				return false
			}
		}
		return true
	}
	return false
}

const zeroTime = "0001-01-01T00:00:00Z"

// matchDoc compares a member with what is wanted.
func matchDoc(want, got interface{}, at string) string {
	bad := func() string { return fmt.Sprintf("%s: expected %s, got %s", at, jsonOf(want), jsonOf(got)) }
	switch x := want.(type) {
	case pred:
		if !x(got) {
			return fmt.Sprintf("%s: unexpected value %s", at, jsonOf(got))
		}
		return ""
	case map[string]interface{}:
		y, ok := got.(map[string]interface{})
		if !ok {
			if got == nil && zeroMember(want) {
				return ""
			}
			return fmt.Sprintf("%s: expected an object, got %s", at, jsonOf(got))
		}
		var names []string
		for k := range x {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if d := matchDoc(x[k], y[k], at+"."+k); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		y, ok := got.([]interface{})
		if !ok && got != nil {
			return bad()
		}
		if len(x) != len(y) {
			return fmt.Sprintf("%s: expected %d elements, got %s", at, len(x), jsonOf(got))
		}
		for i := range x {
			if d := matchDoc(x[i], y[i], fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	case int:
		want = float64(x)
	}
	if zeroMember(want) && zeroMember(got) {
		return ""
	}
	if a, ok := want.(string); ok {
		if b, ok := got.(string); ok && a != b {
			t1, e1 := time.Parse(time.RFC3339Nano, a)
			t2, e2 := time.Parse(time.RFC3339Nano, b)
			if e1 == nil && e2 == nil && t1.Equal(t2) {
				return ""
			}
		}
	}
	if want != got {
		return bad()
	}
	return ""
}

var reID = regexp.MustCompile(`^[A-Za-z0-9-]{16,}$`)
var reBcrypt = regexp.MustCompile(`^\$2[ab]\$10\$[./A-Za-z0-9]{53}$`)

// fileDoc is the document that a state of the model stands for.
func (w *World) fileDoc(m *Model) obj {
	isID := pred(func(v interface{}) bool { s, ok := v.(string); return ok && reID.MatchString(s) })
	isHash := pred(func(v interface{}) bool { s, ok := v.(string); return ok && reBcrypt.MatchString(s) })
	isTime := pred(func(v interface{}) bool {
		s, _ := v.(string)
		t, err := time.Parse(time.RFC3339Nano, s)
		return err == nil && t.UnixNano() >= vclock0 && t.UnixNano() <= w.s.now
	})
	isNumber := pred(func(v interface{}) bool { _, ok := v.(float64); return ok || v == nil })
	marks := func(e obj, disabled, expired bool) obj {
		e["created_at"] = isTime
		e["disabled"], e["expired"] = disabled, expired
		e["disabled_at"], e["expired_at"] = zeroTime, zeroTime
		if disabled {
			e["disabled_at"] = isTime
		}
		if expired {
			e["expired_at"] = isTime
		}
		return e
	}
	users := []interface{}{}
	for _, u := range m.Users {
		addr := obj{"address": u.Email, "domain": u.Email[strings.LastIndex(u.Email, "@")+1:], "confirmed": false}
		d := obj{
			"id": isID, "enabled": false, "human": false, "username": u.Name, "title": "", "name": nil, "names": nil, "organization": nil, "organizations": nil,
			"street_address": nil, "email_address": addr, "email_addresses": []interface{}{addr}, "lockout": nil, "avatar": nil,
			"created": isTime, "last_modified": isTime, "revision": isNumber,
		}
		if u.Full != "" {
			l, f, _ := strings.Cut(u.Full, ", ")
			n := obj{"first": f, "last": l, "middle": "", "preferred": "", "nickname": false, "confirmed": false, "primary": false, "legal": false, "alias": false}
			d["name"], d["names"] = n, []interface{}{n}
		}
		roles := []interface{}{}
		for _, r := range u.Roles {
			org, name, found := strings.Cut(r, "/")
			if !found {
				org, name = "", r
			}
			roles = append(roles, obj{"name": name, "organization": org})
		}
		pws := []interface{}{}
		for i := range u.Pws {
			pws = append(pws, marks(obj{"purpose": "generic", "algorithm": "bcrypt", "hash": isHash, "cost": 10}, i > 0, i > 0))
		}
		pks := []interface{}{}
		for _, k := range u.PKs {
			sha, md := wantFingerprint(k.Mat)
			e := obj{"id": isID, "usage": k.Usage, "type": k.Type, "fingerprint": sha, "fingerprint_md5": md, "comment": k.Comment}
			if k.Usage == "gpg" {
				e["id"] = sha[len(sha)-16:]
				e["payload"], e["openssh"] = strings.TrimSpace(fixtures[k.Mat]["armor"]), ""
			} else {
				e["payload"], e["openssh"] = pred(func(v interface{}) bool {
					s, _ := v.(string)
					return strings.TrimSpace(s) == strings.TrimSpace(fixtures[k.Mat]["pem"])
				}), fixtures[k.Mat]["wire"]
			}
			pks = append(pks, marks(e, k.Disabled, false))
		}
		apis := []interface{}{}
		for _, k := range u.APIs {
			prefix := ""
			if k.Ord < len(w.secrets) && len(w.secrets[k.Ord]) > 24 {
				prefix = w.secrets[k.Ord][:24]
			}
			apis = append(apis, marks(obj{"id": isID, "prefix": prefix, "usage": "api", "comment": k.Comment, "payload": isHash}, k.Disabled, false))
		}
		mfas := []interface{}{}
		for _, k := range u.Mfas {
			mfas = append(mfas, marks(tokenDoc(k, isID), k.Disabled, false))
		}
		d["roles"], d["passwords"], d["public_keys"], d["api_keys"], d["mfa_tokens"] = roles, pws, pks, apis, mfas
		users = append(users, d)
	}
	p := m.Policy
	return obj{
		"version": "1.1.6", "revision": isNumber, "last_modified": isTime, "users": users,
		"policy": obj{
			"password": obj{"keep_versions": p.Keep, "min_length": p.PwMin, "max_length": p.PwMax, "require_uppercase": false, "require_lowercase": false,
				"require_number": false, "require_non_alpha_numeric": false, "block_reuse": false, "block_password_change": false},
			"user": obj{"min_length": p.UserMin, "max_length": p.UserMax, "allow_non_alpha_numeric": false, "allow_uppercase": false},
		},
	}
}

func tokenDoc(k mMfa, id interface{}) obj {
	sp := mfaSpecs[k.Spec]
	e := obj{"id": id, "type": sp.Type, "algorithm": "", "comment": k.Comment, "secret": specSecret(k.Spec), "period": 0, "digits": 0, "device": nil, "parameters": nil, "flags": nil, "signature_counter": 0}
	if sp.Type == "totp" {
		e["algorithm"], e["period"], e["digits"] = strings.ToLower(sp.Algo), sp.Period, sp.Digits
		if sp.Algo == "" {
			e["algorithm"] = "sha1"
		}
		if sp.Digits == 0 {
			e["digits"] = 6
		}
		return e
	}
	f := fixtures[sp.Key]
	e["parameters"] = obj{"curve_type": "p256", "curve_xcoord": f["x"], "curve_ycoord": f["y"], "key_algo": "es256", "key_type": "ec2", "rp_id_hash": rpHash(),
		"u2f_id": sp.id(), "u2f_transports": "usb,nfc", "u2f_type": "public-key"}
	e["flags"] = obj{"AT": true, "ED": false, "RFU1": false, "RFU2a": false, "RFU2b": false, "RFU2c": false, "UP": true, "UV": false}
	e["signature_counter"] = 7
	return e
}

// --- assembled files ----------------------------------------------------------

// Hashes made by another implementation of bcrypt, at the lowest cost.
var fileHashes = map[string]string{
	pwA: "$2b$04$abcdefghijklmnopqrstuu/qbqADNKZJbylyAFefNGHlpFDPyUrg6",
	pwB: "$2b$04$abcdefghijklmnopqrstuuGoba0IToTT/Lf7pazSRTb3Ppc60entu",
	pwC: "$2b$04$abcdefghijklmnopqrstuuI0L7bGI9Q6XPdt9MO83shpA9rCPeVkK",
}

var fileKeys = []struct{ text, hash string }{
	{strings.Repeat("K", 30) + "one-key-" + strings.Repeat("k", 40), "$2b$04$abcdefghijklmnopqrstuuu8WjijPpZ5dhaK6BAWmXzbl1w5oFwHW"},
	{strings.Repeat("L", 30) + "two-key-" + strings.Repeat("l", 40), "$2b$04$abcdefghijklmnopqrstuuBn3UOsB40m8mOAbJmnRXECn5MciXVaG"},
}

const fileTime, fileTime2 = "2029-05-06T07:08:09.123456789Z", "2029-06-07T08:09:10Z"

// assembled is a file made by hand, and what it means.
type assembled struct {
	doc     obj
	m       *Model
	pk      []string
	api     []string
	mfa     []string
	secrets []string
}

func stamp(e obj, disabled, expired bool) obj {
	e["created_at"] = fileTime
	e["disabled"], e["expired"] = disabled, expired
	e["disabled_at"], e["expired_at"] = zeroTime, zeroTime
	if disabled {
		e["disabled_at"] = fileTime2
	}
	if expired {
		e["expired_at"] = fileTime2
	}
	return e
}

// assemble makes the document of a state of the model.
func assemble(m *Model, prefixed bool) *assembled {
	a := &assembled{m: m}
	users := []interface{}{}
	for n, u := range m.Users {
		addr := obj{"address": u.Email, "domain": u.Email[strings.LastIndex(u.Email, "@")+1:]}
		d := obj{"id": fmt.Sprintf("0000000%d-0000-4000-8000-000000000000", n), "username": u.Name, "email_address": addr, "email_addresses": []interface{}{addr},
			"created": fileTime, "last_modified": fileTime2, "revision": 3 + n}
		if u.Full != "" {
			l, f, _ := strings.Cut(u.Full, ", ")
			d["name"], d["names"] = obj{"first": f, "last": l}, []interface{}{obj{"first": f, "last": l}}
		}
		var roles, pws, pks, apis, mfas []interface{}
		for _, r := range u.Roles {
			if org, name, found := strings.Cut(r, "/"); found {
				roles = append(roles, obj{"name": name, "organization": org})
			} else {
				roles = append(roles, obj{"name": r})
			}
		}
		for i, p := range u.Pws {
			pws = append(pws, stamp(obj{"purpose": "generic", "algorithm": "bcrypt", "hash": fileHashes[p], "cost": 4}, i > 0, i > 0))
		}
		for _, k := range u.PKs {
			sha, md := wantFingerprint(k.Mat)
			e := obj{"id": fmt.Sprintf("%040d", 100+k.Ord), "usage": k.Usage, "type": k.Type, "fingerprint": sha, "fingerprint_md5": md, "comment": k.Comment}
			if k.Usage == "gpg" {
				e["id"], e["payload"] = sha[len(sha)-16:], strings.TrimSpace(fixtures[k.Mat]["armor"])
			} else {
				e["payload"], e["openssh"] = fixtures[k.Mat]["pem"], fixtures[k.Mat]["wire"]
				if prefixed {
					e["fingerprint"] = "SHA256:" + sha
				}
			}
			a.pk = append(a.pk, e["id"].(string))
			pks = append(pks, stamp(e, k.Disabled, false))
		}
		for _, k := range u.APIs {
			key := fileKeys[k.Ord]
			id := fmt.Sprintf("%040d", 200+k.Ord)
			a.api, a.secrets = append(a.api, id), append(a.secrets, key.text)
			apis = append(apis, stamp(obj{"id": id, "prefix": key.text[:24], "usage": "api", "comment": k.Comment, "payload": key.hash}, k.Disabled, false))
		}
		for _, k := range u.Mfas {
			id := fmt.Sprintf("%040d", 300+k.Ord)
			a.mfa = append(a.mfa, id)
			mfas = append(mfas, stamp(tokenDoc(k, id), k.Disabled, false))
		}
		for name, l := range map[string][]interface{}{"roles": roles, "passwords": pws, "public_keys": pks, "api_keys": apis, "mfa_tokens": mfas} {
			if len(l) > 0 {
				d[name] = l
			}
		}
		users = append(users, d)
	}
	a.doc = obj{"version": "1.1.6", "revision": 41, "last_modified": fileTime2, "users": users, "policy": filePolicy()}
	return a
}

func filePolicy() obj {
	return obj{
		"password": obj{"keep_versions": 10, "min_length": 8, "max_length": 128, "require_uppercase": false, "require_lowercase": false,
			"require_number": false, "require_non_alpha_numeric": false, "block_reuse": false, "block_password_change": false},
		"user": obj{"min_length": 3, "max_length": 50, "allow_non_alpha_numeric": false, "allow_uppercase": false},
	}
}

// render writes a document as text: members in ascending or descending order,
// with or without white space, with or without members of zero value and
// members that are not of the format.
func render(v interface{}, desc, explicit, blank bool, depth int) string {
	nl := ""
	if blank {
		nl = "\r\n" + strings.Repeat("\t ", depth+1)
	}
	switch x := v.(type) {
	case map[string]interface{}:
		var names []string
		for k, y := range x {
			if explicit || !zeroMember(y) {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		if desc {
			sort.Sort(sort.Reverse(sort.StringSlice(names)))
		}
		var l []string
		for _, k := range names {
			l = append(l, jsonOf(k)+":"+render(x[k], desc, explicit, blank, depth+1))
		}
		_, params := x["u2f_id"]
		_, flags := x["UP"]
		if explicit && !params && !flags {
			l = append(l, `"later_addition":{"a":[1,null,"x"]}`)
		}
		return "{" + nl + strings.Join(l, ","+nl) + "}"
	case []interface{}:
		var l []string
		for _, y := range x {
			l = append(l, render(y, desc, explicit, blank, depth+1))
		}
		return "[" + strings.Join(l, ","+nl) + nl + "]"
	}
	return jsonOf(v)
}

var fileRenderings = []struct {
	name                  string
	desc, explicit, blank bool
	prefixed              bool
}{
	{"compact", false, false, false, false},
	{"reversed", true, false, true, true}, // and without the algorithm of passwords
	{"explicit", false, true, true, false},
	{"explicit-prefixed", true, true, false, true},
}

// early leaves out what the earliest files did not have.
func early(doc obj) obj {
	doc = cloneDoc(doc)
	for _, u := range listOf(doc["users"]) {
		for _, p := range listOf(mapOf(u)["passwords"]) {
			delete(mapOf(p), "algorithm")
		}
	}
	return doc
}

// read opens an assembled file and compares; dups are refused additions.
func (c *Ctx) readAssembled(v *V, a *assembled, text string, un *Universe) string {
	w := NewWorld(c.Scratch)
	defer w.Close()
	w.s.realHash = true
	writeFile(w.path, []byte(text))
	if o := w.Open(); !o.OK() {
		return "opening: " + o.String()
	}
	v.Count("transitions", 1)
	w.pkIDs, w.apiIDs, w.mfaIDs, w.secrets = a.pk, a.api, a.mfa, a.secrets
	if d := diffLines(a.m.Lines(un), w.Lines(un)); d != "" {
		return d
	}
	w.s.realHash = false // for speed
	// What is there is not accepted again.
	for _, u := range a.m.Users {
		for _, k := range u.PKs {
			for _, f := range map[string][]string{"ssh": {":ssh", ":pem"}, "gpg": {""}}[k.Usage] {
				if o := w.Exec(Op{K: "addpk", Name: u.Name, Email: u.Email, Usage: k.Usage, Payload: k.Mat + f}); o.OK() || o.Panic != "" {
					return fmt.Sprintf("adding the key %s%s of %s again: %s", k.Mat, f, u.Name, o)
				}
			}
		}
		for _, k := range u.Mfas {
			if o := w.Exec(Op{K: "addmfa", Name: u.Name, Email: u.Email, Payload: k.Spec, Comment: "again"}); o.OK() || o.Panic != "" {
				return fmt.Sprintf("adding the token %s of %s again: %s", k.Spec, u.Name, o)
			}
		}
		if o := w.Exec(addUser(strings.ToUpper(u.Name), "x@x.org", pwC)); o.OK() || o.Panic != "" {
			return fmt.Sprintf("adding %s again: %s", u.Name, o)
		}
		if o := w.Exec(addUser("dave", u.Email, pwC)); o.OK() || o.Panic != "" {
			return fmt.Sprintf("adding %s again: %s", u.Email, o)
		}
	}
	if o := w.Exec(Op{K: "save"}); !o.OK() {
		return "save: " + o.String()
	}
	if d := w.keeps(a.doc); d != "" {
		return "after a save: " + d
	}
	// Deletion by the IDs of the file.
	for _, u := range a.m.Users {
		for _, k := range u.APIs {
			if o := w.Exec(Op{K: "delapi", Name: u.Name, Email: u.Email, Ref: k.Ord}); !o.OK() {
				return fmt.Sprintf("deleting API key %d: %s", k.Ord, o)
			}
			if o := w.Exec(Op{K: "lookup", Ref: k.Ord}); o.OK() || o.Panic != "" {
				return fmt.Sprintf("looking up the deleted API key %d: %s", k.Ord, o)
			}
		}
		for _, k := range u.PKs {
			if o := w.Exec(Op{K: "delpk", Name: u.Name, Email: u.Email, Ref: k.Ord}); !o.OK() {
				return fmt.Sprintf("deleting public key %d: %s", k.Ord, o)
			}
		}
		for _, k := range u.Mfas {
			if o := w.Exec(Op{K: "delmfa", Name: u.Name, Email: u.Email, Ref: k.Ord}); !o.OK() {
				return fmt.Sprintf("deleting token %d: %s", k.Ord, o)
			}
		}
	}
	return ""
}

// keeps compares the file with a document that it must contain.
func (w *World) keeps(doc obj) string {
	got, err := w.File(w.path)
	if err != nil {
		return err.Error()
	}
	want := obj{}
	for k, x := range doc {
		if k != "revision" && k != "last_modified" {
			want[k] = x
		}
	}
	return matchDoc(want, got, "")
}

// richDoc is a document with every member of the format.
func richDoc() (obj, *assembled) {
	name := func(n string) obj {
		return obj{"first": "First" + n, "last": "Last" + n, "middle": "M", "preferred": "P", "nickname": true, "confirmed": true, "primary": true, "legal": true, "alias": true}
	}
	org := func(n string, id int) obj {
		return obj{"id": id, "name": n, "aliases": []interface{}{n + "1", n + "2"}}
	}
	m := NewModel()
	m.Users = []*mUser{{Name: "alice", Email: "alice@example.com", Full: "Smith, Alice", Roles: []string{"admin", "corp/user"}, Pws: []string{pwA, pwB},
		PKs:  []mPK{{Ord: 0, Usage: "ssh", Mat: "rsaA", Type: "ssh-rsa", Comment: "c"}, {Ord: 1, Usage: "gpg", Mat: "pgpA", Type: "rsa", Comment: "d", Disabled: true}},
		APIs: []mAPI{{0, "one", false}, {1, "two", true}},
		Mfas: []mMfa{{0, "totpA", "t", false}, {1, "u2fA", "u", true}}}}
	a := assemble(m, true)
	doc := a.doc
	u := mapOf(listOf(doc["users"])[0])
	u["enabled"], u["human"], u["title"] = true, true, "Dr."
	u["name"], u["names"] = name("1"), []interface{}{name("1"), name("2")}
	u["organization"], u["organizations"] = org("o", 7), []interface{}{org("o", 7), org("p", 8)}
	u["street_address"] = []interface{}{obj{"street": "s", "city": "c", "state": "st", "zip_code": "01234", "confirmed": true, "current": true, "domicile": true, "residential": true, "commercial": true}}
	// Addresses as the base revision reads them: the first is the address.
	u["email_address"] = obj{"address": "alice@example.com", "domain": "example.com", "confirmed": true}
	u["email_addresses"] = []interface{}{obj{"address": "alice@example.com", "domain": "example.com", "confirmed": true}, obj{"address": "alice@example.org", "domain": "example.org"}}
	u["lockout"] = obj{"enabled": true, "start_time": fileTime, "end_time": fileTime2}
	u["avatar"] = obj{"title": "t", "body": "b", "path": "p", "config": obj{"ColorModel": nil, "Width": 3, "Height": 4}}
	for _, k := range []string{"passwords", "public_keys", "api_keys", "mfa_tokens"} {
		for i, e := range listOf(u[k]) {
			stamp(mapOf(e), i > 0, i > 0)
		}
	}
	mapOf(listOf(u["mfa_tokens"])[0])["device"] = obj{"name": "n", "vendor": "v", "type": "t"}
	doc["policy"] = obj{
		"password": obj{"keep_versions": 9, "min_length": 7, "max_length": 100, "require_uppercase": true, "require_lowercase": true,
			"require_number": true, "require_non_alpha_numeric": true, "block_reuse": true, "block_password_change": true},
		"user": obj{"min_length": 2, "max_length": 40, "allow_non_alpha_numeric": true, "allow_uppercase": true},
	}
	return doc, a
}

func cloneDoc(v interface{}) obj {
	var out obj
	unmarshal([]byte(jsonOf(v)), &out)
	return out
}

// leafPaths lists the members of a document that are values.
func leafPaths(v interface{}, at []interface{}) [][]interface{} {
	var out [][]interface{}
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range docKeys(x) {
			out = append(out, leafPaths(x[k], append(append([]interface{}{}, at...), k))...)
		}
	case []interface{}:
		for i := range x {
			out = append(out, leafPaths(x[i], append(append([]interface{}{}, at...), i))...)
		}
	default:
		out = append(out, at)
	}
	return out
}

func docKeys(m obj) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func runC33(c *Ctx) {
	c.fileWritten()
	c.fileRead()
	c.fileKept()
	c.fileEarlier()
}

func (c *Ctx) fileWritten() {
	a := func(op Op) Op { return on("alice", op) }
	b := func(op Op) Op { return on("bob", op) }
	alphabet := []Op{
		{K: "adduser", Name: "Carol", Email: "Carol@Mail.Example.ORG", Pw: pwC, Full: "Carol King", Roles: []string{"corp/user", "admin", "/viewer"}},
		a(Op{K: "addpk", Usage: "ssh", Payload: "rsaA:ssh", Comment: "c"}), a(Op{K: "addpk", Usage: "ssh", Payload: "rsaA:pem", Disabled: true}),
		b(Op{K: "addpk", Usage: "ssh", Payload: "rsaB:sshc", Comment: "d"}), a(Op{K: "addpk", Usage: "gpg", Payload: "pgpA"}), b(Op{K: "addpk", Usage: "gpg", Payload: "pgpB", Comment: "x", Disabled: true}),
		a(Op{K: "addapi", Usage: "api", Comment: "k"}), b(Op{K: "addapi", Usage: "api", Comment: "l", Disabled: true}),
		a(Op{K: "addmfa", Payload: "totpA", Comment: "t"}), a(Op{K: "addmfa", Payload: "totpB", Comment: "v", Disabled: true}), b(Op{K: "addmfa", Payload: "totpC", Comment: "t"}),
		a(Op{K: "addmfa", Payload: "u2fA", Comment: "u"}), b(Op{K: "addmfa", Payload: "u2fB", Comment: "u", Disabled: true}),
		a(Op{K: "changepw", Old: pwA, Pw: pwC}), a(Op{K: "delpk", Ref: 0}), b(Op{K: "delpk", Ref: 1}), a(Op{K: "delapi", Ref: 0}), a(Op{K: "delmfa", Ref: 0}), opReopen,
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for _, p := range []*mPolicy{nil, {2, 30, 5, 100, 1}} {
		name := "written"
		if p != nil {
			name, depth = "written-policy", depth-1
		}
		seq := Seq{Name: name, Policy: p, Prelude: []Op{uAlice, uBob}, Alphabet: alphabet, Depth: depth, Un: &Universe{Sections: map[string]bool{"count": true}}, NoReopen: true,
			Check: func(v *V, r *Run, op Op, res Result, o Outcome) {
				got, err := r.w.File(r.w.path)
				if err != nil {
					v.Fail("", "after\n%s\nthe file: %v", traceString(r.trace), err)
					return
				}
				if d := matchDoc(r.w.fileDoc(r.m), got, ""); d != "" {
					v.Fail("", "after\n%s\nthe file differs from the format: %s", traceString(r.trace), d)
				}
			}}
		c.Explore(&seq)
		if p == nil {
			seq.Prelude = nil
			c.Crowds(wideAlphabet()[:16], seq)
		}
	}
}

func (c *Ctx) fileRead() {
	un := &Universe{
		Pairs:  [][2]string{{"alice", "alice@example.com"}, {"bob", "bob@example.com"}},
		Logins: []string{"alice", "bob@example.com"}, Pws: []string{pwA, pwB}, Keys: []string{"u2fA", "u2fB"},
		Sections: map[string]bool{"count": true, "users": true, "user": true, "pk": true, "api": true, "mfa": true, "ident": true, "auth": true, "authkey": true, "lookup": true},
	}
	rolesMenu := [][]string{nil, {"admin"}, {"corp/user", "admin"}}
	oldTolerance := tolerateFingerprintPrefix
	tolerateFingerprintPrefix = true
	defer func() { tolerateFingerprintPrefix = oldTolerance }()
	for shape := 0; shape < 24; shape++ {
		pws, roles, full, bob := 1+shape&1, rolesMenu[shape/8], shape>>1&1 == 1, shape>>2&1 == 1
		for creds := 0; creds < 512; creds += 64 {
			id := fmt.Sprintf("read/%d.%d", shape, creds/64)
			c.Case(id, func(v *V) {
				for sub := 0; sub < 64; sub++ {
					n := creds + sub
					m := NewModel()
					u := &mUser{Name: "alice", Email: "alice@example.com", Roles: roles, Pws: []string{pwA, pwB}[:pws]}
					if full {
						u.Full = "Smith, Alice"
					}
					bit := func(i int) bool { return n>>i&1 == 1 }
					if bit(0) {
						u.PKs = append(u.PKs, mPK{Ord: m.nPK, ID: "a", Usage: "ssh", Mat: "rsaA", Type: "ssh-rsa", Comment: "c"})
						m.nPK++
					}
					if bit(1) {
						u.PKs = append(u.PKs, mPK{Ord: m.nPK, ID: "b", Usage: "ssh", Mat: "rsaB", Type: "ssh-rsa", Disabled: true})
						m.nPK++
					}
					if bit(2) {
						u.PKs = append(u.PKs, mPK{Ord: m.nPK, ID: "c", Usage: "gpg", Mat: "pgpA", Type: "rsa", Comment: "d"})
						m.nPK++
					}
					for i := 0; i < 2; i++ {
						if bit(3 + i) {
							u.APIs = append(u.APIs, mAPI{m.nAPI, "k" + itoa(i), i == 1})
							m.owner = append(m.owner, u.Name)
							m.nAPI++
						}
					}
					for i, s := range []string{"totpA", "totpB", "u2fA", "u2fB"} {
						if bit(5 + i) {
							u.Mfas = append(u.Mfas, mMfa{m.nMfa, s, "t" + itoa(i), i%2 == 1})
							m.nMfa++
						}
					}
					m.Users = []*mUser{u}
					if bob {
						w := &mUser{Name: "bob", Email: "bob@example.com", Pws: []string{pwB}}
						if bit(0) {
							w.PKs = []mPK{{Ord: m.nPK, ID: "z", Usage: "ssh", Mat: "rsaA", Type: "ssh-rsa", Comment: "z"}}
							m.nPK++
						}
						m.Users = append(m.Users, w)
					}
					for i, f := range fileRenderings {
						if !c.Thorough && (n+i+shape)%2 != 0 {
							continue
						}
						if c.Expired() {
							return
						}
						a := assemble(m, f.prefixed)
						shown := a.doc
						if f.name == "reversed" {
							shown = early(shown)
						}
						text := render(shown, f.desc, f.explicit, f.blank, 0)
						v.State("states", text)
						v.Count("traces_validated_against_impl", 1)
						un := *un
						if !bob { // unknown users are C22's, and slow
							un.Logins = un.Logins[:1]
						}
						if d := c.readAssembled(v, a, text, &un); d != "" {
							v.Fail(f.name, "the file\n%s\nwith the state %s: %s", text, m.Key(), d)
							return
						}
					}
				}
				if v.WantSample() {
					v.Sample(map[string]interface{}{"family": "read", "case": id})
				}
			})
		}
	}
}

// fileKept passes a document with everything through every operation.
func (c *Ctx) fileKept() {
	a := func(op Op) Op { return on("alice", op) }
	ops := []Op{{K: "save"}, opReopen, addUser("carol", "carol@mail.org", "third-Password-3"), a(Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh"}), a(Op{K: "addapi", Usage: "api", Comment: "new"}),
		a(Op{K: "addmfa", Payload: "totpC", Comment: "new"}), a(Op{K: "delapi", Ref: -1}), a(Op{K: "identify"}), {K: "auth", Name: "alice", Pw: pwA}, a(Op{K: "getuser"}), {K: "copy", Path: "copy.json"}}
	whole, rich := richDoc()
	check := func(v *V, what string, doc obj, seq []Op) bool {
		w := NewWorld(c.Scratch)
		defer w.Close()
		writeFile(w.path, []byte(render(doc, false, false, true, 0)))
		if o := w.Open(); !o.OK() {
			v.Fail(what, "%s: opening: %s\n%s", what, o, jsonOf(doc))
			return false
		}
		for _, op := range append(append([]Op{}, seq...), Op{K: "save"}) {
			v.Count("transitions", 1)
			if o := w.Exec(op); o.Panic != "" {
				v.Fail(what, "%s: %s: %s", what, op, o)
				return false
			}
		}
		// Lists may have grown: the user of the document has what it had.
		got, err := w.File(w.path)
		if err != nil {
			v.Fail(what, "%s: the file: %v", what, err)
			return false
		}
		want := cloneDoc(doc)
		delete(want, "revision")
		delete(want, "last_modified")
		if l := listOf(want["users"]); len(l) > 0 {
			wu, gl := mapOf(l[0]), listOf(got["users"])
			delete(wu, "revision")
			delete(wu, "last_modified")
			if len(gl) > 0 {
				got["users"] = gl[:1]
				gu := mapOf(gl[0])
				for _, k := range []string{"public_keys", "api_keys", "mfa_tokens"} {
					if n := len(listOf(wu[k])); len(listOf(gu[k])) > n {
						gu[k] = listOf(gu[k])[:n]
					}
				}
			}
		}
		if d := matchDoc(want, got, ""); d != "" {
			v.Fail(what, "%s: after %s the file has changed: %s", what, traceString(seq), d)
			return false
		}
		v.Count("traces_validated_against_impl", 1)
		v.State("states", what)
		return true
	}
	// What the members of a complete document mean.
	for _, how := range []string{"as written", "second name first", "third address", "no name", "not enabled", "no lockout", "future lockout", "other usages", "no usages", "bare", "old", "later", "zero dates", "no dates", "other version", "no version", "many revisions", "marks 0", "marks 1", "marks 2", "marks 3", "marks 4", "marks 5", "marks 6", "marks 7", "marks 8", "marks 9", "marks 10", "marks 11", "marks 12", "marks 13", "marks 14", "marks 15"} {
		c.Case("meaning/"+how, func(v *V) {
			doc := cloneDoc(whole)
			u := mapOf(listOf(doc["users"])[0])
			full, mails, enabled := "Last1, First1", []string{"alice@example.com", "alice@example.org"}, true
			title, avatar, u2f, allOff := "Dr.", "p", false, false
			dates := func(at string) {
				m := mapOf(listOf(u["mfa_tokens"])[1])
				m["disabled"], m["expired"] = false, false
				u2f = true
				var walk func(x interface{})
				walk = func(x interface{}) {
					switch y := x.(type) {
					case map[string]interface{}:
						for k, z := range y {
							switch k {
							case "created_at", "expired_at", "disabled_at", "created", "last_modified", "start_time", "end_time":
								if at == "" {
									delete(y, k)
								} else {
									y[k] = at
								}
							default:
								walk(z)
							}
						}
					case []interface{}:
						for _, z := range y {
							walk(z)
						}
					}
				}
				walk(map[string]interface{}(doc))
			}
			switch how {
			case "second name first":
				l := listOf(u["names"])
				u["names"] = []interface{}{l[1], l[0]}
			case "third address":
				u["email_addresses"] = append(listOf(u["email_addresses"]), obj{"address": "A.Smith@Mail.example.net", "domain": "Mail.example.net", "confirmed": true})
				mails = append(mails, "A.Smith@Mail.example.net")
			case "no name":
				delete(u, "name")
				delete(u, "names")
				full = ""
			case "not enabled":
				u["enabled"], u["human"] = false, false
				enabled = false
			case "no lockout":
				delete(u, "lockout")
			case "future lockout":
				u["lockout"] = obj{"enabled": true, "start_time": "2019-01-01T00:00:00Z", "end_time": "2099-01-01T00:00:00Z"}
			case "other usages":
				mapOf(listOf(u["api_keys"])[0])["usage"] = "rest"
				mapOf(listOf(u["public_keys"])[0])["usage"] = "sign"
			case "no usages":
				delete(mapOf(listOf(u["api_keys"])[0]), "usage")
				delete(mapOf(listOf(u["api_keys"])[0]), "comment")
				delete(mapOf(listOf(u["public_keys"])[0]), "usage")
			case "bare":
				for _, k := range []string{"title", "avatar", "organization", "organizations", "street_address", "lockout", "human", "revision"} {
					delete(u, k)
				}
				title, avatar = "", ""
			case "old":
				dates("1999-12-31T23:59:59Z")
			case "later":
				dates("2099-12-31T23:59:59Z")
			case "zero dates":
				dates(zeroTime)
			case "no dates":
				dates("")
			case "other version":
				doc["version"] = "99.0.1"
			case "no version":
				delete(doc, "version")
			case "marks 0", "marks 1", "marks 2", "marks 3", "marks 4", "marks 5", "marks 6", "marks 7", "marks 8", "marks 9", "marks 10", "marks 11", "marks 12", "marks 13", "marks 14", "marks 15":
				n, _ := strconv.Atoi(how[len("marks "):])
				allOff = n&5 == 5
				for i, e := range listOf(u["mfa_tokens"]) {
					mapOf(e)["disabled"], mapOf(e)["expired"] = n>>uint(2*i)&1 == 1, n>>uint(2*i+1)&1 == 1
					if i == 1 {
						u2f = n>>uint(2*i)&3 == 0
					}
				}
			case "many revisions":
				doc["revision"], u["revision"] = 1<<40, 1<<30
			}
			w := NewWorld(c.Scratch)
			defer w.Close()
			w.s.realHash = true
			writeFile(w.path, []byte(render(doc, false, false, true, 0)))
			for round := 0; round < 2; round++ {
				if o := w.Open(); !o.OK() {
					v.Fail("", "%s: opening: %s\n%s", how, o, jsonOf(doc))
					return
				}
				expect := func(what, got, want string) {
					v.Count("transitions", 1)
					if got != want {
						v.Fail(what, "%s, opening %d: %s: %s, expected %s\n%s", how, round, what, got, want, jsonOf(doc))
					}
				}
				for i, key := range rich.secrets {
					r := requests.NewRequest()
					r.Key.Payload = key
					o := w.Call(func() error { return w.db.LookupAPIKey(r) })
					expect(fmt.Sprintf("lookup of API key %d", i), fmt.Sprintf("%v %q %q", o.OK(), r.User.Username, r.User.Email),
						map[bool]string{true: fmt.Sprintf("true %q %q", "alice", mails[0]), false: `false "" ""`}[i == 0])
				}
				// Listed are the enabled keys with exactly the usage.
				for _, usage := range []string{"api", "API", "rest", "ssh", "SSH", "Ssh", "gpg", "GPG", "sign", "Sign", "", " ", "s", "ssh ", " api"} {
					for _, kind := range []string{"public_keys", "api_keys"} {
						want, got := "", ""
						for _, e := range listOf(u[kind]) {
							m := mapOf(e)
							x, _ := m["usage"].(string)
							if off, _ := m["disabled"].(bool); x == usage && !off {
								want += fmt.Sprint(m["id"], " ")
							}
						}
						r := requests.NewRequest()
						r.User.Username, r.User.Email, r.Key.Usage = "alice", mails[0], usage
						o := w.Call(func() error {
							if kind == "api_keys" {
								return w.db.GetAPIKeys(r)
							}
							return w.db.GetPublicKeys(r)
						})
						switch b := r.Response.Payload.(type) {
						case *identity.PublicKeyBundle:
							for _, k := range b.Get() {
								got += k.ID + " "
							}
						case *identity.APIKeyBundle:
							for _, k := range b.Get() {
								got += k.ID + " "
							}
						}
						if !o.OK() {
							got = o.String()
						}
						expect(kind+" of usage "+strconv.Quote(usage), got, want)
					}
				}
				// Flags and challenges tell of the tokens that are enabled.
				{
					r := requests.NewRequest()
					r.User.Username, r.Flags.Enabled = "alice", true
					o := w.Call(func() error { return w.db.IdentifyUser(r) })
					app, key := false, false
					for _, e := range listOf(u["mfa_tokens"]) {
						m := mapOf(e)
						if off, _ := m["disabled"].(bool); !off {
							app, key = app || m["type"] == "totp", key || m["type"] == "u2f"
						}
					}
					expect("flags", fmt.Sprint(o.OK(), r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal), fmt.Sprint(true, app || key, app, key))
				}
				expect("login with a security key", fmt.Sprint(w.Exec(Op{K: "authkey", Name: "alice", Payload: "u2fA"}).OK()), fmt.Sprint(u2f))
				logins := []string{"alice", "ALICE"}
				for _, m := range mails {
					logins = append(logins, m, strings.ToUpper(m))
				}
				for _, l := range logins {
					r := requests.NewRequest()
					r.User.Username = l
					o := w.Call(func() error { return w.db.IdentifyUser(r) })
					if allOff { // unspecified
						r.User.Challenges = []string{"password", "mfa"}
					}
					expect("identification of "+l, fmt.Sprintf("%s %q %q %q %q %q", o, r.User.Username, r.User.Email, r.User.FullName, r.User.Roles, r.User.Challenges),
						fmt.Sprintf("%s %q %q %q %q %q", Outcome{}, "alice", mails[0], full, []string{"admin", "corp/user"}, []string{"password", "mfa"}))
					for _, pw := range []string{pwA, pwB} {
						r := requests.NewRequest()
						r.User.Username, r.User.Password = l, pw
						o := w.Call(func() error { return w.db.AuthenticateUser(r) })
						expect("login of "+l+" with "+pw, fmt.Sprint(o.OK(), r.Response.Code), fmt.Sprint(pw == pwA, map[bool]int{true: 200, false: 400}[pw == pwA]))
					}
					// Only the user's username and any address of his make a pair.
					for _, n := range []string{"alice", l} {
						r := requests.NewRequest()
						r.User.Username, r.User.Email = n, l
						o := w.Call(func() error { return w.db.GetUsers(r) })
						want := strings.EqualFold(n, "alice") && strings.Contains(l, "@")
						q := requests.NewRequest()
						q.User.Username, q.User.Email = n, l
						if o := w.Call(func() error { return w.db.GetUser(q) }); o.OK() && want {
							if d := matchDoc(cloneDoc(u), cloneDoc(q.Response.Payload), ""); d != "" {
								v.Fail("user "+l, "%s, opening %d: the user for %s and %s differs from the document: %s\n%s", how, round, n, l, d, jsonOf(doc))
							}
						}
						expect("users for "+n+" and "+l, fmt.Sprint(o.OK()), fmt.Sprint(want))
						if b, ok := r.Response.Payload.(*identity.UserMetadataBundle); ok && want {
							expect("number of users", fmt.Sprint(b.Size(), len(b.Get())), "1 1")
							for _, m := range b.Get() {
								expect("the entry for "+n+" and "+l, fmt.Sprintf("%q %q %q %q %q %v", m.Username, m.Email, m.Name, m.Title, m.Avatar, m.Enabled),
									fmt.Sprintf("%q %q %q %q %q %v", "alice", mails[0], full, title, avatar, enabled))
							}
						}
					}
				}
				if o := w.Exec(Op{K: "save"}); !o.OK() {
					v.Fail("", "%s: saving: %s", how, o)
				}
			}
			v.Count("traces_validated_against_impl", 2)
			v.State("states", how)
		})
	}
	c.Case("kept/all", func(v *V) {
		for i, x := range ops {
			check(v, fmt.Sprintf("all members, %d", i), whole, []Op{x})
			for j, y := range ops {
				check(v, fmt.Sprintf("all members, %d, %d", i, j), whole, []Op{x, y})
			}
		}
	})
	// Every value left out alone, or altered alone.
	generic := cloneDoc(whole)
	paths := leafPaths(generic, nil)
	for n, p := range paths {
		at := fmt.Sprint(p...)
		c.Case(fmt.Sprintf("kept/%d", n), func(v *V) {
			for _, how := range []string{"without", "other"} {
				doc := cloneDoc(whole)
				var x interface{} = doc
				skip := false
				for i, k := range p {
					last := i == len(p)-1
					switch key := k.(type) {
					case string:
						if !last {
							x = mapOf(x)[key]
						} else if how == "without" {
							delete(mapOf(x), key)
						} else {
							switch y := mapOf(x)[key].(type) {
							case bool:
								mapOf(x)[key] = !y
							case float64:
								mapOf(x)[key] = y + 1
							default:
								skip = true
							}
						}
					case int:
						if last {
							skip = true
						} else {
							x = listOf(x)[key]
						}
					}
				}
				if !skip && !essential(at, how) {
					check(v, how+" "+at, doc, nil)
				}
			}
		})
	}
}

// essential members are such that a file that lacks them may be refused or
// completed, which is C16's and C17's.
func essential(at, how string) bool {
	if strings.Contains(at, "policy") {
		return how == "without" || strings.Contains(at, "length") || strings.Contains(at, "keep")
	}
	for _, s := range []string{"version", "username", "email_address", "usersid", "users0id", "roles"} {
		if strings.Contains(at, s) && how == "without" {
			return true
		}
	}
	return how == "without" && !strings.Contains(at, "name") && !strings.Contains(at, "title") && !strings.Contains(at, "street") && !strings.Contains(at, "lockout") && !strings.Contains(at, "organization") && !strings.Contains(at, "avatar") && !strings.Contains(at, "_at")
}

// fileEarlier opens a file that the pinned revision wrote.
func (c *Ctx) fileEarlier() {
	m := NewModel()
	pk := func(ord int, id, usage, mat, comment string, off bool) mPK {
		return mPK{ord, id, usage, mat, map[string]string{"ssh": "ssh-rsa", "gpg": "rsa"}[usage], comment, off}
	}
	m.Users = []*mUser{
		{Name: "alice", Email: "alice@example.com", Full: "Smith, Alice", Roles: []string{"admin", "corp/user"}, Pws: []string{pwA, pwB},
			PKs:  []mPK{pk(0, "#0", "ssh", "rsaA", "k", false), pk(1, "gpg:pgpA", "gpg", "pgpA", wantPKComment(pkFixtureByName("pgpA"), ""), false)},
			APIs: []mAPI{{0, "one", false}, {2, "off", true}},
			Mfas: []mMfa{{0, "totpA", "t", false}, {1, "u2fA", "u", false}}},
		{Name: "bob", Email: "bob@example.com", Pws: []string{pwB},
			PKs:  []mPK{pk(2, "#2", "ssh", "rsaB", "off", true), pk(3, "#3", "ssh", "rsaC", "own comment", false)},
			APIs: []mAPI{{1, "two", false}},
			Mfas: []mMfa{{2, "totpB", "t", true}, {3, "u2fB", "u", false}, {4, "totpC", "v", false}}},
	}
	m.nPK, m.nAPI, m.nMfa = 4, 3, 5
	var doc obj
	unmarshal(baseRevision, &doc)
	a := &assembled{doc: doc, m: m}
	ids := func(u int, kind string) []string {
		var l []string
		for _, e := range listOf(mapOf(listOf(doc["users"])[u])[kind]) {
			l = append(l, mapOf(e)["id"].(string))
		}
		return l
	}
	api := append(ids(0, "api_keys"), ids(1, "api_keys")...)
	a.pk, a.api, a.mfa = append(ids(0, "public_keys"), ids(1, "public_keys")...), []string{api[0], api[2], api[1]}, append(ids(0, "mfa_tokens"), ids(1, "mfa_tokens")...)
	if err := json.Unmarshal(baseKeysJSON, &a.secrets); err != nil {
		fatalf("fixtures: %v", err)
	}
	for _, what := range []string{"lists", "passwords", "lookup"} {
		un := &Universe{Pairs: [][2]string{{"alice", "alice@example.com"}, {"bob", "bob@example.com"}}, Logins: []string{"alice", "Bob"}, Pws: []string{pwA, pwB}, Keys: []string{"u2fA", "u2fB"}}
		switch what {
		case "lists":
			un.Sections = map[string]bool{"count": true, "users": true, "user": true, "pk": true, "api": true, "mfa": true, "ident": true, "authkey": true}
		case "passwords":
			un.Sections = map[string]bool{"auth": true}
		case "lookup":
			un.Sections = map[string]bool{"lookup": true}
		}
		for i, f := range fileRenderings[:3] {
			c.Case("earlier/"+what+"/"+f.name, func(v *V) {
				tolerateFingerprintPrefix = true
				defer func() { tolerateFingerprintPrefix = false }()
				text := string(baseRevision)
				if i > 0 {
					text = render(doc, f.desc, f.explicit, f.blank, 0)
				}
				v.State("states", text)
				v.Count("traces_validated_against_impl", 1)
				if d := c.readAssembled(v, a, text, un); d != "" {
					v.Fail("", "the file of the pinned revision (%s): %s", f.name, d)
				}
			})
		}
	}
}
