package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/md5"
	"crypto/rand"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	_ "embed"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"math/big"
	"strings"
	"time"

	"github.com/greenpau/go-identity/pkg/requests"
)

//go:embed fixtures/keys.json
var keysJSON []byte

//go:embed fixtures/pgp.json
var pgpJSON []byte

var fixtures map[string]map[string]string

func loadFixtures() {
	for _, b := range [][]byte{keysJSON, pgpJSON} {
		if err := json.Unmarshal(b, &fixtures); err != nil {
			fatalf("fixtures: %v", err)
		}
	}
}

// pkFixture is a public key in one textual form, with what it must be
// recognised as.
type pkFixture struct {
	Text    string
	Usage   string // the usage it fits
	Mat     string // name of the key material; "" if malformed
	Type    string
	Comment string // comment carried by the text itself
}

// fixtureKey returns the text of a public key fixture.
func fixtureKey(name string) string { return pkFixtureByName(name).Text }

func pkFixtureByName(name string) pkFixture {
	base, form, _ := strings.Cut(name, ":")
	if strings.HasPrefix(base, "rsa#") {
		numbered(base)
	}
	f := fixtures[base]
	switch {
	case strings.HasPrefix(base, "rsa"):
		p := pkFixture{Usage: "ssh", Mat: base, Type: "ssh-rsa"}
		switch form {
		case "pem":
			p.Text = f["pem"]
		case "ssh":
			p.Text = f["ssh"]
		case "sshc":
			p.Text = f["ssh"] + " own comment"
			p.Comment = "own comment"
		case "sshd":
			p.Comment = "two  spaces,\ta tab, \"quotes\" & <ключ>"
			p.Text = f["ssh"] + "  " + p.Comment + " \r\n"
		}
		return p
	case base == "pgpAB": // two keys in one block
		return pkFixture{Text: f["armor"]}
	case strings.HasPrefix(base, "pgp"):
		return pkFixture{Usage: "gpg", Mat: base, Type: "rsa", Text: f["armor"]}
	}
	return pkFixture{Text: name}
}

// fingerprints of key material, computed here and not by the code under test.
func wantFingerprint(mat string) (sha, md string) {
	if strings.HasPrefix(mat, "pgp") {
		return fixtures[mat]["fp"], ""
	}
	wire, _ := base64.StdEncoding.DecodeString(fixtures[mat]["wire"])
	h := sha256.Sum256(wire)
	m := md5.Sum(wire)
	var parts []string
	for _, x := range m {
		parts = append(parts, fmt.Sprintf("%02x", x))
	}
	return base64.RawStdEncoding.EncodeToString(h[:]), strings.Join(parts, ":")
}

// tolerateFingerprintPrefix admits fingerprints as earlier revisions wrote them.
var tolerateFingerprintPrefix bool

func materialOf(fp string) string {
	if tolerateFingerprintPrefix {
		fp = strings.TrimPrefix(fp, "SHA256:")
	}
	if len(materials) == 0 {
		for _, n := range []string{"rsaA", "rsaB", "rsaC", "pgpA", "pgpB"} {
			sha, _ := wantFingerprint(n)
			materials[sha] = n
		}
	}
	if n := materials[fp]; n != "" {
		return n
	}
	return "unknown key " + fp
}

// materials are the names of key material by fingerprint.
var materials = map[string]string{}

// numbered makes the fixture of a numbered RSA key, rsa#0 and so on.
func numbered(name string) {
	if fixtures[name] != nil {
		return
	}
	h := sha256.Sum256([]byte(name))
	n := number(1024, 0)
	n.SetBytes(append(append([]byte{0xc1}, h[:]...), n.Bytes()[33:]...)).SetBit(n, 0, 1)
	e := big.NewInt(65537)
	wire := base64.StdEncoding.EncodeToString(rsaWire(n, e))
	fixtures[name] = map[string]string{"ssh": "ssh-rsa " + wire, "wire": wire, "pem": pemText("RSA PUBLIC KEY", spki(n, e), 64, "\n")}
	materialOf("")
	sha, _ := wantFingerprint(name)
	materials[sha] = name
}

// wantPKComment is the comment a stored key must have.
func wantPKComment(fx pkFixture, comment string) string {
	if strings.HasPrefix(fx.Mat, "pgp") {
		c := fmt.Sprintf("%s, algo RSA, created %s", fixtures[fx.Mat]["identity"], time.Date(2021, 8, 1, 12, 0, 0, 0, time.UTC))
		if comment != "" {
			return comment + " (" + c + ")"
		}
		return c
	}
	if fx.Comment != "" {
		return fx.Comment
	}
	return comment
}

// --- MFA -------------------------------------------------------------------

// refTOTP is RFC 6238 on top of RFC 4226, written from the RFCs.
func refTOTP(secret []byte, algo string, digits int, counter uint64) string {
	var h func() hash.Hash
	switch algo {
	case "sha256":
		h = sha256.New
	case "sha512":
		h = sha512.New
	default:
		h = sha1.New
	}
	var msg [8]byte
	binary.BigEndian.PutUint64(msg[:], counter)
	m := hmac.New(h, secret)
	m.Write(msg[:])
	sum := m.Sum(nil)
	off := sum[len(sum)-1] & 0x0f
	v := uint64(sum[off]&0x7f)<<24 | uint64(sum[off+1])<<16 | uint64(sum[off+2])<<8 | uint64(sum[off+3])
	mod := uint64(1)
	for i := 0; i < digits; i++ {
		mod *= 10
	}
	s := fmt.Sprintf("%d", v%mod)
	for len(s) < digits {
		s = "0" + s
	}
	return s
}

// mfaSpec describes an MFA token to register.
type mfaSpec struct {
	Type   string
	Secret string
	Algo   string
	Period int
	Digits int
	Pass   string // "" valid; otherwise how it is wrong
	Key    string // u2f: fixture
	ID     string // u2f: of the credential; "" for that of the fixture
	Chal   string
	Valid  bool
}

var mfaSpecs = map[string]mfaSpec{
	"totpA":    {Type: "totp", Secret: "secretAAAAAAAAAA", Algo: "sha1", Period: 30, Digits: 6, Valid: true},
	"totpB":    {Type: "totp", Secret: "secretBBBBBBBBBB", Algo: "SHA256", Period: 60, Digits: 8, Valid: true},
	"totpC":    {Type: "totp", Secret: "secretCCCCCCCCCC", Algo: "", Period: 300, Digits: 0, Valid: true},
	"totpD":    {Type: "totp", Secret: "SECRETaaaaaaaaaa", Algo: "sha512", Period: 31, Digits: 4, Valid: true},
	"totpBad":  {Type: "totp", Secret: "secretDDDDDDDDDD", Algo: "sha1", Period: 30, Digits: 6, Pass: "wrong"},
	"totpAlgo": {Type: "totp", Secret: "secretEEEEEEEEEE", Algo: "md5", Period: 30, Digits: 6},
	"u2fA":     {Type: "u2f", Key: "u2fA", Chal: "challenge-A", Valid: true},
	"u2fB":     {Type: "u2f", Key: "u2fB", Chal: "challenge-B", Valid: true},
	"u2fC":     {Type: "u2f", Key: "u2fC", Chal: "challenge-C", Valid: true},
	// Another key under the ID of the first.
	"u2fTwin": {Type: "u2f", Key: "u2fB", ID: "id-u2fA", Chal: "challenge-T", Valid: true},
	// Tokens with the secret of a token of the other type.
	"u2fSame":  {Type: "u2f", Key: "u2fC", Chal: "secretAAAAAAAAAA", Valid: true},
	"totpSame": {Type: "totp", Secret: "challenge-A", Algo: "sha1", Period: 30, Digits: 6, Valid: true},
	"u2fBad":   {Type: "u2f", Key: "", Chal: "challenge-D"},
	"none":     {Type: ""},
}

func init() {
	for i := 0; i < 1200; i++ {
		sp := mfaSpec{Type: "totp", Secret: fmt.Sprintf("numbered-secret-%d", i), Algo: []string{"sha1", "sha256", "sha512"}[i%3], Period: 30 + i%4*10, Digits: 4 + i%5, Valid: true}
		if i%10 == 9 {
			sp = mfaSpec{Type: "u2f", Key: "u2fA", Chal: fmt.Sprintf("numbered-challenge-%d", i), Valid: true}
		}
		mfaSpecs["num"+itoa(i)] = sp
	}
}

func fillMfa(r *requests.Request, op Op, now time.Time) {
	sp, ok := mfaSpecs[op.Payload]
	if !ok {
		panic("no such MFA token: " + op.Payload)
	}
	r.MfaToken.Type = sp.Type
	switch sp.Type {
	case "totp":
		r.MfaToken.Secret = sp.Secret
		r.MfaToken.Algorithm = sp.Algo
		r.MfaToken.Period = sp.Period
		r.MfaToken.Digits = sp.Digits
		d := sp.Digits
		if d == 0 {
			d = 6
		}
		algo := strings.ToLower(sp.Algo)
		n := uint64(now.Unix()) / uint64(sp.Period)
		r.MfaToken.Passcode = refTOTP([]byte(sp.Secret), algo, d, n)
		if sp.Pass != "" {
			r.MfaToken.Passcode = wrongCode(sp, n, d)
		}
	case "u2f":
		r.WebAuthn.Challenge = sp.Chal
		if sp.Key == "" {
			r.WebAuthn.Register = base64.StdEncoding.EncodeToString([]byte("{}"))
		} else {
			r.WebAuthn.Register = base64.StdEncoding.EncodeToString([]byte(jsonOf(sp.register())))
		}
	}
}

// id is the ID of the credential of a security key.
func (sp mfaSpec) id() string {
	if sp.ID != "" {
		return sp.ID
	}
	return "id-" + sp.Key
}

// register is the registration of a security key.
func (sp mfaSpec) register() obj {
	doc := registerDoc(sp.Key)
	doc["id"] = sp.id()
	return doc
}

// wrongCode is a code that no period near n produces.
func wrongCode(sp mfaSpec, n uint64, d int) string {
	near := map[string]bool{}
	for k := n - 3; k <= n+3; k++ {
		near[refTOTP([]byte(sp.Secret), strings.ToLower(sp.Algo), d, k)] = true
	}
	for i := 0; ; i++ {
		c := fmt.Sprintf("%0*d", d, i)
		if !near[c] {
			return c
		}
	}
}

type obj = map[string]interface{}

const rpID = "localhost"

func rpHash() string {
	h := sha256.Sum256([]byte(rpID))
	return hex.EncodeToString(h[:])
}

// registerDoc is a complete registration of a key.
func registerDoc(key string) obj {
	f := fixtures[key]
	return obj{
		"id": "id-" + key, "type": "public-key", "transports": []interface{}{"usb", "nfc"}, "success": true,
		"attestationObject": obj{
			"fmt":     "fido-u2f",
			"attStmt": obj{"alg": 0, "sig": "AAAA", "x5c": []interface{}{"AAAA"}},
			"authData": obj{
				"rpIdHash": rpHash(), "signatureCounter": 7,
				"flags": obj{"UP": true, "UV": false, "AT": true, "ED": false, "RFU1": false, "RFU2a": false, "RFU2b": false, "RFU2c": false},
				"credentialData": obj{
					"aaguid": "AAAA", "credentialId": "AAAA",
					"publicKey": obj{"key_type": 2, "algorithm": -7, "curve_type": 1, "curve_x": f["x"], "curve_y": f["y"]},
				},
				"extensions": obj{},
			},
		},
		"clientData": obj{"type": "webauthn.create", "challenge": "c", "origin": "https://localhost", "crossOrigin": false},
		"device":     obj{"name": "n", "type": "t"},
	}
}

func privKey(key string) *ecdsa.PrivateKey {
	f := fixtures[key]
	d, _ := base64.StdEncoding.DecodeString(f["d"])
	x, _ := base64.StdEncoding.DecodeString(f["x"])
	y, _ := base64.StdEncoding.DecodeString(f["y"])
	k := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(d)}
	k.Curve = elliptic.P256()
	k.X, k.Y = new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)
	return k
}

// assertion describes a WebAuthn request; the zero value of every deviation is
// the genuine one.
type assertion struct {
	Key      string // signs
	ID       string
	Client   string // client data JSON
	AuthData []byte
	Sig      []byte
	Omit     string
	Extra    obj
}

func genuineClient(challenge string) string {
	return `{"type":"webauthn.get","challenge":"` + challenge + `","origin":"https://localhost","crossOrigin":false}`
}

func genuineAuthData() []byte {
	h := sha256.Sum256([]byte(rpID))
	b := append([]byte{}, h[:]...)
	b = append(b, 0x01)
	return append(b, 0, 0, 0, 9)
}

func newAssertion(key, challenge string) *assertion {
	return &assertion{Key: key, ID: "id-" + key, Client: genuineClient(challenge), AuthData: genuineAuthData()}
}

func sign(key string, authData []byte, client string) []byte {
	ch := sha256.Sum256([]byte(client))
	d := sha256.Sum256(append(append([]byte{}, authData...), ch[:]...))
	sig, err := ecdsa.SignASN1(rand.Reader, privKey(key), d[:])
	if err != nil {
		fatalf("sign: %v", err)
	}
	return sig
}

var sigCache = map[string][]byte{}

func (a *assertion) doc() obj {
	sig := a.Sig
	if sig == nil {
		k := a.Key + "|" + string(a.AuthData) + "|" + a.Client
		sig = sigCache[k]
		if sig == nil {
			sig = sign(a.Key, a.AuthData, a.Client)
			sigCache[k] = sig
		}
	}
	b64 := base64.StdEncoding.EncodeToString
	d := obj{
		"id": a.ID, "type": "public-key",
		"auth_data_encoded":   b64(a.AuthData),
		"client_data_encoded": b64([]byte(a.Client)),
		"signature_encoded":   b64(sig),
	}
	for k, v := range a.Extra {
		d[k] = v
	}
	if a.Omit != "" {
		delete(d, a.Omit)
	}
	return d
}

func (a *assertion) encode() string {
	return base64.StdEncoding.EncodeToString([]byte(jsonOf(a.doc())))
}

// assertionFor returns a genuine request signed by a key, with its challenge.
func assertionFor(key string) (request, challenge string) {
	return newAssertion(key, "login-challenge").encode(), "login-challenge"
}

// alterKey derives from a key text another text to look up.
func alterKey(s, how string, all []string) string {
	if strings.HasPrefix(how, "=") {
		return how[1:]
	}
	flip := func(b byte) byte {
		if b == 'a' {
			return 'b'
		}
		return 'a'
	}
	at := func(i int) string {
		if i >= len(s) {
			return s + "x"
		}
		return s[:i] + string(flip(s[i])) + s[i+1:]
	}
	switch how {
	case "":
		return s
	case "first":
		return at(0)
	case "p23":
		return at(23)
	case "p24":
		return at(24)
	case "p40":
		return at(40)
	case "p71":
		return at(71)
	case "cut71":
		if len(s) > 71 {
			return s[:71]
		}
		return ""
	case "prefix":
		if len(s) > 24 {
			return s[:24]
		}
		return ""
	case "upper":
		return strings.ToUpper(s)
	case "lower":
		return strings.ToLower(s)
	case "pre-space":
		return " " + s
	case "mixed":
		// The prefix of this key with the rest of another one.
		for _, o := range all {
			if o != s && len(o) >= 72 && len(s) >= 24 {
				return s[:24] + o[24:]
			}
		}
		return at(30)
	case "prefixpad":
		if len(s) >= 24 {
			return s[:24] + strings.Repeat("x", 48)
		}
		return ""
	case "empty":
		return ""
	}
	panic("unknown alteration " + how)
}
