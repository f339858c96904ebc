package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// World is one database under test with its scratch directory.
type World struct {
	root string
	path string
	db   *identity.Database
	s    *Session
	t    *Thread

	pkIDs, apiIDs, mfaIDs []string // by creation ordinal, "" if the creation failed
	secrets               []string // API keys in clear, by creation ordinal

	// One request is used for all operations, each of which sets what it
	// needs and finds in the rest what the previous ones left there.
	reuse bool
	req   *requests.Request

	// around, if set, calls its argument under special circumstances.
	around func(f func())
}

// Outcome of an operation.
type Outcome struct {
	Err     error
	Panic   string
	Code    int
	Payload interface{}
	Req     *requests.Request
}

func (o Outcome) OK() bool { return o.Err == nil && o.Panic == "" }

func (o Outcome) String() string {
	switch {
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Err != nil:
		return "error: " + o.Err.Error()
	}
	return "ok"
}

var worldSeq int

// NewWorld makes a scratch directory; the database is not yet opened.
func NewWorld(base string) *World {
	worldSeq++
	root := filepath.Join(base, fmt.Sprintf("c%d", worldSeq))
	if err := os.MkdirAll(root, 0700); err != nil {
		fatalf("scratch: %v", err)
	}
	w := &World{root: root, path: filepath.Join(root, "users.json"), s: NewSession()}
	w.t = w.s.NewThread(0)
	w.s.dev = NewDevice(root)
	return w
}

// Close removes the scratch directory.
func (w *World) Close() { os.RemoveAll(w.root) }

// Call runs f as code under test.
func (w *World) Call(f func() error) Outcome {
	beat()
	var o Outcome
	do := func() {
		if p := w.t.Do(func() { o.Err = f() }); p != nil {
			o.Panic = fmt.Sprint(p)
		}
	}
	if w.around != nil {
		w.around(do)
	} else {
		do()
	}
	return o
}

// Open opens (or creates) the database at the world's path.
func (w *World) Open() Outcome {
	return w.OpenAt(w.path)
}

// OpenAt opens the database at a path and makes it the current one.
func (w *World) OpenAt(p string) Outcome {
	var db *identity.Database
	o := w.Call(func() error {
		var err error
		db, err = identity.NewDatabase(p)
		return err
	})
	if o.OK() && db == nil {
		o.Panic = "NewDatabase returned neither a database nor an error"
	}
	if o.OK() {
		w.db = db
	}
	return o
}

func (op Op) request(w *World) *requests.Request {
	r := requests.NewRequest()
	if w.reuse {
		if w.req == nil {
			w.req = r
		}
		fresh := r
		r = w.req
		r.User, r.Flags, r.WebAuthn = fresh.User, fresh.Flags, fresh.WebAuthn
		if op.K == "addmfa" {
			r.MfaToken = fresh.MfaToken
		}
	}
	r.User.Username = op.Name
	r.User.Email = op.Email
	r.User.Password = op.Pw
	r.User.OldPassword = op.Old
	r.User.FullName = op.Full
	r.User.Roles = append([]string{}, op.Roles...)
	r.Key.Comment = op.Comment
	r.Key.Usage = op.Usage
	r.Key.Disabled = op.Disabled
	r.MfaToken.Comment = op.Comment
	r.MfaToken.Disabled = op.Disabled
	switch op.K {
	case "addpk":
		r.Key.Payload = fixtureKey(op.Payload)
	case "delpk":
		r.Key.ID = refID(w.pkIDs, op.Ref)
	case "delapi":
		r.Key.ID = refID(w.apiIDs, op.Ref)
	case "delmfa":
		r.MfaToken.ID = refID(w.mfaIDs, op.Ref)
	case "lookup":
		r.Key.Payload = w.lookupText(op)
	case "addmfa":
		fillMfa(r, op, time.Unix(0, w.s.now).UTC())
	case "identify":
		r.Flags.Enabled = true
	case "authkey":
		r.User.Password = ""
		r.WebAuthn.Request, r.WebAuthn.Challenge = assertionFor(op.Payload)
	}
	return r
}

func refID(ids []string, ref int) string {
	if ref >= 0 && ref < len(ids) && ids[ref] != "" {
		return ids[ref]
	}
	// Texts which are no ID but resemble one.
	if ref < -2 && len(ids) > 0 && len(ids[0]) > 4 {
		switch id := ids[0]; ref {
		case -3:
			return id[:len(id)-1]
		case -4:
			return id[:4]
		case -5:
			return id + "0"
		case -6:
			if s := swapCase(id); s != id {
				return s
			}
		case -7:
			return " " + id + " "
		case -8:
			return id[1:]
		}
	}
	if ref == -2 {
		return ""
	}
	return "0123456789012345678901234567890123456789"
}

// lookupText is the key text an Op presents: the plaintext of key Ref, altered
// as Payload says.
func (w *World) lookupText(op Op) string {
	s := ""
	if op.Ref >= 0 && op.Ref < len(w.secrets) {
		s = w.secrets[op.Ref]
	}
	return alterKey(s, op.Payload, w.secrets)
}

// Exec runs one operation against the database under test.
func (w *World) Exec(op Op) Outcome {
	if op.Fault != "" {
		w.s.dev.fault = faultPlan(op.Fault)
		defer func() { w.s.dev.fault = nil }()
	}
	w.s.dev.n = 0
	switch op.K {
	case "reopen":
		o := w.Open()
		return o
	case "reopencopy":
		return w.OpenAt(filepath.Join(w.root, op.Path))
	case "copy":
		return w.Call(func() error { return w.db.Copy(w.target(op.Path)) })
	case "save":
		return w.Call(func() error { return w.db.Save() })
	case "count":
		var n int
		o := w.Call(func() error { n = w.db.GetUserCount(); return nil })
		o.Payload = n
		return o
	case "getpath":
		var p string
		o := w.Call(func() error { p = w.db.GetPath(); return nil })
		o.Payload = p
		return o
	}
	r := op.request(w)
	o := w.Call(func() error { return dispatch(w.db, op.K, r) })
	o.Req, o.Code, o.Payload = r, r.Response.Code, r.Response.Payload
	w.track(op, o)
	return o
}

func (w *World) target(p string) string {
	if strings.HasPrefix(p, "~") || strings.HasPrefix(p, "/") {
		return p
	}
	return filepath.Join(w.root, p)
}

func dispatch(db *identity.Database, k string, r *requests.Request) error {
	switch k {
	case "adduser":
		return db.AddUser(r)
	case "deluser":
		return db.DeleteUser(r)
	case "getusers":
		return db.GetUsers(r)
	case "getuser":
		return db.GetUser(r)
	case "auth", "authkey":
		return db.AuthenticateUser(r)
	case "addpk":
		return db.AddPublicKey(r)
	case "delpk":
		return db.DeletePublicKey(r)
	case "getpk":
		return db.GetPublicKeys(r)
	case "addapi":
		return db.AddAPIKey(r)
	case "delapi":
		return db.DeleteAPIKey(r)
	case "getapi":
		return db.GetAPIKeys(r)
	case "lookup":
		return db.LookupAPIKey(r)
	case "changepw":
		return db.ChangeUserPassword(r)
	case "identify":
		return db.IdentifyUser(r)
	case "addmfa":
		return db.AddMfaToken(r)
	case "delmfa":
		return db.DeleteMfaToken(r)
	case "getmfa":
		return db.GetMfaTokens(r)
	}
	panic("unknown operation " + k)
}

// track records the ID (and text) of an object the operation created. The
// ordinal is consumed only when the operation succeeded, as in the model.
func (w *World) track(op Op, o Outcome) {
	if !o.OK() {
		return
	}
	switch op.K {
	case "addpk", "addapi", "addmfa":
	default:
		return
	}
	u := w.Snapshot(op.Name, op.Email)
	if u == nil {
		return
	}
	fresh := func(known []string, ids []string) string {
		for i := len(ids) - 1; i >= 0; i-- {
			seen := false
			for _, k := range known {
				if k == ids[i] {
					seen = true
				}
			}
			if !seen {
				return ids[i]
			}
		}
		if len(ids) > 0 {
			return ids[len(ids)-1]
		}
		return ""
	}
	var ids []string
	switch op.K {
	case "addpk":
		for _, k := range u.PublicKeys {
			ids = append(ids, k.ID)
		}
		w.pkIDs = append(w.pkIDs, fresh(w.pkIDs, ids))
	case "addapi":
		for _, k := range u.APIKeys {
			ids = append(ids, k.ID)
		}
		w.apiIDs = append(w.apiIDs, fresh(w.apiIDs, ids))
		s, _ := o.Payload.(string)
		w.secrets = append(w.secrets, s)
	case "addmfa":
		for _, k := range u.MfaTokens {
			ids = append(ids, k.ID)
		}
		w.mfaIDs = append(w.mfaIDs, fresh(w.mfaIDs, ids))
	}
}

// Snapshot returns the user as GetUser reports it.
func (w *World) Snapshot(name, email string) *identity.User {
	r := requests.NewRequest()
	r.User.Username, r.User.Email = name, email
	o := w.Call(func() error { return w.db.GetUser(r) })
	if !o.OK() {
		return nil
	}
	u, _ := r.Response.Payload.(*identity.User)
	return u
}

// File returns the parsed database file.
func (w *World) File(p string) (map[string]interface{}, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	return m, nil
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func writeFile(path string, b []byte) {
	if err := os.WriteFile(path, b, 0600); err != nil {
		fatalf("scratch: %v", err)
	}
}

// fileContents reads all files below a directory.
func fileContents(root string) map[string]string {
	out := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out[p] = string(b)
		}
		return nil
	})
	return out
}
