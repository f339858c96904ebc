package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	_ "embed"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

//go:embed fixtures/linux_gpg_pub.pem
var linuxGPG string

func init() {
	register(&Property{
		ID: "C18", Level: "exploration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule:        "every key of a menu (RSA keys of many sizes and exponents, EC, Ed25519, OpenPGP keys) in every encoding x comment x white space x usage, added to a database; and every truncation, deletion, and replacement of a byte by every one of a menu (for thorough: all 256 values), and insertion, in each encoding. What is accepted must have the type and the fingerprints of the material as parsed by an independent parser. Non-trivial: texts that are accepted",
		Assumptions: []string{"keys with an exponent other than 3, 17 and 65537 or below 1024 bits, other PEM labels, several PEM blocks and text around them may be accepted or refused"},
		Run:         runC18,
	})
}

// keyTruth is what an independent reading of a text says.
type keyTruth struct {
	must   int // 1 accept, -1 refuse, 0 either
	typ    string
	fp     string
	md5    string
	wire   string
	reason string
}

func mpint(n *big.Int) []byte {
	b := n.Bytes()
	if len(b) > 0 && b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return b
}

func sshString(b []byte) []byte {
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
}

func rsaWire(n, e *big.Int) []byte {
	out := sshString([]byte("ssh-rsa"))
	out = append(out, sshString(mpint(e))...)
	return append(out, sshString(mpint(n))...)
}

func rsaTruth(n, e *big.Int, must bool) keyTruth {
	wire := rsaWire(n, e)
	s := sha256.Sum256(wire)
	m := md5.Sum(wire)
	var parts []string
	for _, x := range m {
		parts = append(parts, fmt.Sprintf("%02x", x))
	}
	t := keyTruth{typ: "ssh-rsa", fp: base64.RawStdEncoding.EncodeToString(s[:]), md5: strings.Join(parts, ":"), wire: base64.StdEncoding.EncodeToString(wire)}
	small := e.IsInt64() && (e.Int64() == 3 || e.Int64() == 17 || e.Int64() == 65537)
	if must && small && n.BitLen() >= 1024 && n.BitLen() <= 8192 && n.Bit(0) == 1 {
		t.must = 1
	}
	return t
}

func refused(why string) keyTruth { return keyTruth{must: -1, reason: why} }

// readWire reads the SSH wire form of an RSA key.
func readWire(b []byte) (n, e *big.Int, ok, canonical bool) {
	var parts [][]byte
	for len(b) >= 4 {
		l := int(binary.BigEndian.Uint32(b))
		if l < 0 || l > len(b)-4 {
			return nil, nil, false, false
		}
		parts = append(parts, b[4:4+l])
		b = b[4+l:]
	}
	if len(b) != 0 || len(parts) != 3 || string(parts[0]) != "ssh-rsa" {
		return nil, nil, false, false
	}
	for _, p := range parts[1:] {
		if len(p) == 0 || p[0]&0x80 != 0 {
			return nil, nil, false, false
		}
	}
	e, n = new(big.Int).SetBytes(parts[1]), new(big.Int).SetBytes(parts[2])
	return n, e, true, bytes.Equal(mpint(e), parts[1]) && bytes.Equal(mpint(n), parts[2])
}

var oidRSA = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 1, 1}

// readDER reads a SubjectPublicKeyInfo or a bare RSA key.
func readDER(b []byte) (n, e *big.Int, ok, strict bool) {
	var info struct {
		Alg struct {
			OID    asn1.ObjectIdentifier
			Params asn1.RawValue `asn1:"optional"`
		}
		Key asn1.BitString
	}
	var key struct{ N, E *big.Int }
	rest, err := asn1.Unmarshal(b, &info)
	if err == nil {
		if !info.Alg.OID.Equal(oidRSA) {
			return nil, nil, false, false
		}
		strict = len(rest) == 0 && bytes.Equal(info.Alg.Params.FullBytes, []byte{5, 0}) && info.Key.BitLength == 8*len(info.Key.Bytes)
		rest, err = asn1.Unmarshal(info.Key.Bytes, &key)
		if err != nil || key.N.Sign() <= 0 || key.E.Sign() <= 0 {
			return nil, nil, false, false
		}
		return key.N, key.E, true, strict && len(rest) == 0
	}
	if _, err := asn1.Unmarshal(b, &key); err != nil || key.N.Sign() <= 0 || key.E.Sign() <= 0 {
		return nil, nil, false, false
	}
	return key.N, key.E, true, false
}

// readPGP finds the first public-key packet of an armored block and reports
// how many primary keys there are.
func readPGP(text string) (t keyTruth, primaries int) {
	_, body, ok := strings.Cut(text, "-----BEGIN PGP PUBLIC KEY BLOCK-----")
	if !ok {
		return refused("no armor"), 0
	}
	body, _, ok = strings.Cut(body, "-----END PGP PUBLIC KEY BLOCK-----")
	if !ok {
		return refused("no end of the armor"), 0
	}
	var b64 strings.Builder
	header := true
	for _, l := range strings.Split(body, "\n")[1:] {
		l = strings.TrimSpace(l)
		if header {
			header = l != ""
			continue
		}
		if strings.HasPrefix(l, "=") {
			break
		}
		b64.WriteString(l)
	}
	raw, err := base64.StdEncoding.DecodeString(b64.String())
	if err != nil {
		return keyTruth{reason: "base64"}, 0
	}
	for len(raw) > 2 {
		var tag, l int
		h := raw[0]
		if h&0x80 == 0 {
			return
		}
		if h&0x40 != 0 { // new format
			tag = int(h & 63)
			switch o := int(raw[1]); {
			case o < 192:
				l, raw = o, raw[2:]
			case o < 224 && len(raw) > 3:
				l, raw = (o-192)<<8+int(raw[2])+192, raw[3:]
			case o == 255 && len(raw) > 6:
				l, raw = int(binary.BigEndian.Uint32(raw[2:])), raw[6:]
			default:
				return
			}
		} else {
			tag = int(h>>2) & 15
			switch h & 3 {
			case 0:
				l, raw = int(raw[1]), raw[2:]
			case 1:
				if len(raw) < 4 {
					return
				}
				l, raw = int(binary.BigEndian.Uint16(raw[1:])), raw[3:]
			case 2:
				if len(raw) < 6 {
					return
				}
				l, raw = int(binary.BigEndian.Uint32(raw[1:])), raw[5:]
			default:
				l, raw = len(raw)-1, raw[1:]
			}
		}
		if l < 0 || l > len(raw) {
			return
		}
		if tag == 6 {
			if primaries == 0 && l > 6 && raw[0] == 4 {
				buf := append([]byte{0x99, byte(l >> 8), byte(l)}, raw[:l]...)
				s := sha1.Sum(buf)
				t.fp = hex.EncodeToString(s[:])
				t.typ = map[byte]string{1: "rsa", 2: "rsa", 3: "rsa", 17: "dsa", 18: "ecdh", 19: "ecdsa"}[raw[5]]
			}
			primaries++
		}
		raw = raw[l:]
	}
	return
}

// truthOf judges a text that may be mutated: what is refused for sure, and
// what the material is if it is accepted.
func truthOf(text, usage string) keyTruth {
	if usage != "ssh" && usage != "gpg" {
		return refused("unknown usage")
	}
	trimmed := strings.TrimSpace(text)
	if usage == "gpg" {
		if strings.HasPrefix(trimmed, "ssh-rsa") {
			return refused("an OpenSSH key for gpg")
		}
		t, n := readPGP(text)
		if n > 1 {
			// Corruption can turn a subkey into a key without a name,
			// which a reader may skip.
			t.must = 0
			return t
		}
		if t.must == 0 && n == 0 && t.reason == "" {
			return refused("no key packet")
		}
		return t
	}
	if strings.HasPrefix(trimmed, "ssh-") || strings.HasPrefix(trimmed, "ecdsa-") {
		f := strings.FieldsFunc(trimmed, func(r rune) bool { return r == ' ' || r == '\t' })
		if len(f) < 2 || f[0] != "ssh-rsa" {
			return refused("not an RSA key")
		}
		// Line breaks inside the text: base64 may ignore them or not.
		raw, err := base64.StdEncoding.DecodeString(strings.TrimSpace(f[1]))
		if err != nil {
			return refused("base64")
		}
		n, e, ok, canonical := readWire(raw)
		if !ok {
			return refused("the wire form is malformed")
		}
		strict := canonical && base64.StdEncoding.EncodeToString(raw) == f[1] && strings.HasPrefix(trimmed, "ssh-rsa ") && !strings.ContainsAny(trimmed, "\n\r\v\f\x85\u00a0")
		return rsaTruth(n, e, strict)
	}
	block, rest := pem.Decode([]byte(trimmed))
	if block == nil {
		return refused("no PEM block")
	}
	n, e, ok, strict := readDER(block.Bytes)
	if !ok {
		return refused("no RSA key in the PEM block")
	}
	return rsaTruth(n, e, strict && block.Type == "RSA PUBLIC KEY" && strings.HasPrefix(trimmed, "-----BEGIN") && strings.TrimSpace(string(rest)) == "" && len(block.Headers) == 0)
}

type keyTester struct {
	w *World
}

// parse gives a text to NewPublicKey and compares.
func (g *keyTester) parse(v *V, what, text, usage string, want keyTruth) *identity.PublicKey {
	var k *identity.PublicKey
	o := g.w.Call(func() error {
		r := requests.NewRequest()
		r.Key.Payload, r.Key.Usage, r.Key.Comment = text, usage, "given"
		var err error
		k, err = identity.NewPublicKey(r)
		return err
	})
	v.Count("evaluations", 1)
	fail := func(f string, a ...interface{}) {
		v.Fail(what, "%s, usage %q: %s\n%q", what, usage, fmt.Sprintf(f, a...), text)
	}
	if o.Panic != "" {
		fail("%s", o)
		return nil
	}
	if !o.OK() {
		if want.must > 0 {
			fail("a well-formed key is refused: %s", o)
		}
		return nil
	}
	if k == nil {
		fail("neither a key nor an error")
		return nil
	}
	v.State("distinct_nontrivial", what+usage)
	if want.must < 0 {
		fail("accepted though %s", want.reason)
		return k
	}
	if bad := keyDiff(k, want); bad != "" {
		fail("%s", bad)
	}
	return k
}

func keyDiff(k *identity.PublicKey, want keyTruth) string {
	if want.fp == "" {
		return ""
	}
	for _, x := range [][3]string{{"type", k.Type, want.typ}, {"fingerprint", k.Fingerprint, want.fp}, {"MD5 fingerprint", k.FingerprintMD5, want.md5}, {"OpenSSH text", k.OpenSSH, want.wire}} {
		if x[1] != x[2] {
			return fmt.Sprintf("the recorded %s is %q, that of the key is %q", x[0], x[1], x[2])
		}
	}
	return ""
}

// number makes an odd number of exactly the given bits.
func number(bits int, seed byte) *big.Int {
	b := make([]byte, (bits+7)/8)
	h := sha256.Sum256([]byte{seed})
	for i := range b {
		if i%32 == 0 {
			h = sha256.Sum256(h[:])
		}
		b[i] = h[i%32]
	}
	n := new(big.Int).SetBytes(b)
	n.And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
	n.SetBit(n, bits-1, 1)
	return n.SetBit(n, 0, 1)
}

func spki(n, e *big.Int) []byte {
	key, _ := asn1.Marshal(struct{ N, E *big.Int }{n, e})
	type alg struct {
		OID    asn1.ObjectIdentifier
		Params asn1.RawValue
	}
	b, err := asn1.Marshal(struct {
		Alg alg
		Key asn1.BitString
	}{alg{oidRSA, asn1.RawValue{Tag: 5}}, asn1.BitString{Bytes: key, BitLength: 8 * len(key)}})
	if err != nil {
		fatalf("asn1: %v", err)
	}
	return b
}

func wrapText(s string, n int, eol string) string {
	var b strings.Builder
	for len(s) > n {
		b.WriteString(s[:n] + eol)
		s = s[n:]
	}
	return b.String() + s + eol
}

func pemText(label string, der []byte, width int, eol string) string {
	return "-----BEGIN " + label + "-----" + eol + wrapText(base64.StdEncoding.EncodeToString(der), width, eol) + "-----END " + label + "-----" + eol
}

// encodings of an RSA key that have to be accepted.
func encodings(n, e *big.Int) map[string]string {
	out := map[string]string{}
	der := spki(n, e)
	for _, eol := range []string{"\n", "\r\n"} {
		for _, width := range []int{64, 76, 1 << 20} {
			t := pemText("RSA PUBLIC KEY", der, width, eol)
			out[fmt.Sprintf("pem %d %q", width, eol)] = t
			out[fmt.Sprintf("pem %d %q without final newline", width, eol)] = strings.TrimSpace(t)
			out[fmt.Sprintf("pem %d %q in white space", width, eol)] = " \t" + eol + eol + t + eol + " " + eol
		}
	}
	wire := "ssh-rsa " + base64.StdEncoding.EncodeToString(rsaWire(n, e))
	for _, pre := range []string{"", " ", "\n", "\t ", "\r\n\r\n"} {
		for _, post := range []string{"", "\n", "\r\n", " ", "\t", " \n\n"} {
			for _, comment := range []string{"", "user@host", "two words", "  spaced   out", "RSA PUBLIC KEY", "my RSA PUBLIC KEY at work", "-----BEGIN PGP PUBLIC KEY BLOCK-----", "-----BEGIN RSA PUBLIC KEY-----", "ключ 🔑", "ssh-rsa AAAA", "=", "a=b,c\"d"} {
				s := wire
				if comment != "" {
					s += " " + comment
				}
				out[fmt.Sprintf("openssh %q %q %q", pre, comment, post)] = pre + s + post
			}
		}
	}
	out["openssh tab comment"] = wire + "\tcomment"
	out["openssh double space"] = strings.Replace(wire, " ", "  ", 1)
	return out
}

func runC18(c *Ctx) {
	tester := func() *keyTester { return &keyTester{NewWorld(c.Scratch)} }

	// All encodings of keys of all sizes.
	type rsaKey struct {
		name string
		n, e *big.Int
	}
	var keys []rsaKey
	for _, n := range []string{"rsaA", "rsaB", "rsaC"} {
		wire, _ := base64.StdEncoding.DecodeString(fixtures[n]["wire"])
		m, e, ok, canonical := readWire(wire)
		if !ok || !canonical {
			fatalf("fixture %s", n)
		}
		keys = append(keys, rsaKey{n, m, e})
	}
	bits := []int{1024, 1025, 1536, 2041, 2047, 2048, 3072, 4096}
	if c.Thorough {
		bits = append(bits, 1031, 1032, 1033, 2040, 2049, 3071, 3073, 4095, 4097, 8192)
	}
	for i, b := range bits {
		for j, e := range []int64{3, 17, 65537} {
			keys = append(keys, rsaKey{fmt.Sprintf("rsa%d e=%d", b, e), number(b, byte(7*i+j)), big.NewInt(e)})
		}
	}
	for i, b := range []int{8, 64, 512, 768, 1023, 16384} {
		keys = append(keys, rsaKey{fmt.Sprintf("odd size rsa%d", b), number(b, byte(100+i)), big.NewInt(65537)})
	}
	for i, e := range []string{"1", "2", "4", "65539", "16777215", "16777217", "2147483647", "2147483649", "4294967297", "18446744073709551617"} {
		x, _ := new(big.Int).SetString(e, 10)
		keys = append(keys, rsaKey{"odd exponent " + e, number(2048, byte(150+i)), x})
	}
	for _, k := range keys {
		c.Case("encodings/"+k.name, func(v *V) {
			g := tester()
			defer g.w.Close()
			want := rsaTruth(k.n, k.e, true)
			for what, text := range encodings(k.n, k.e) {
				t := want
				if strings.Contains(what, "tab comment") {
					t.must = 0
				}
				if x := truthOf(text, "ssh"); x.fp != want.fp {
					fatalf("the reference does not read %s: %+v", what, x)
				}
				got := g.parse(v, k.name+": "+what, text, "ssh", t)
				if got != nil && v.WantSample() {
					v.Sample(map[string]interface{}{"key": k.name, "encoding": what, "fingerprint": got.Fingerprint})
				}
				if v.Failed() {
					return
				}
				for _, usage := range []string{"gpg", "", "SSH", "ssh ", "api", "rsa"} {
					g.parse(v, k.name+": "+what, text, usage, refused("the usage does not fit"))
				}
			}
			// Other forms: accepted or not, the material is the same.
			der := spki(k.n, k.e)
			loose := want
			loose.must = 0
			bare, _ := asn1.Marshal(struct{ N, E *big.Int }{k.n, k.e})
			good := pemText("RSA PUBLIC KEY", der, 64, "\n")
			for what, text := range map[string]string{
				"PKCS#1":       pemText("RSA PUBLIC KEY", bare, 64, "\n"),
				"label":        pemText("PUBLIC KEY", der, 64, "\n"),
				"headers":      strings.Replace(good, "KEY-----\n", "KEY-----\nComment: x\nProc-Type: 4\n\n", 1),
				"text before":  "my key\n" + good,
				"text after":   good + "my key\n",
				"twice":        good + good,
				"trailing DER": pemText("RSA PUBLIC KEY", append(append([]byte{}, der...), 0), 64, "\n"),
				"indented":     strings.ReplaceAll(good, "\n", "\n  "),
			} {
				g.parse(v, k.name+": "+what, text, "ssh", loose)
			}
			// Never a key.
			wire := base64.StdEncoding.EncodeToString(rsaWire(k.n, k.e))
			for what, text := range map[string]string{
				"private label":    pemText("RSA PRIVATE KEY", der, 64, "\n") + "RSA PUBLIC KEY",
				"certificate":      pemText("CERTIFICATE", der, 64, "\n"),
				"no begin":         good[5:],
				"other type":       "ssh-dss " + wire,
				"type only":        "ssh-rsa",
				"type and space":   "ssh-rsa ",
				"type and comment": "ssh-rsa  comment",
				"no type":          wire,
				"wire of another":  "ssh-rsa " + fixtures["ed"]["wire"],
				"wire of EC":       "ssh-rsa " + fixtures["ec"]["wire"],
				"trailing wire":    "ssh-rsa " + base64.StdEncoding.EncodeToString(append(rsaWire(k.n, k.e), 0)),
			} {
				if what == "certificate" || what == "private label" || what == "no begin" {
					// An RSA key all the same: only a crash would be wrong.
					g.parse(v, k.name+": "+what, text, "ssh", loose)
					continue
				}
				g.parse(v, k.name+": "+what, text, "ssh", refused("it is no RSA key"))
			}
		})
	}
	c.Case("other", func(v *V) {
		g := tester()
		defer g.w.Close()
		for _, usage := range []string{"ssh", "gpg", "", "x"} {
			for what, text := range map[string]string{
				"empty": "", "blank": " \n", "nul": "\x00", "word": "RSA PUBLIC KEY", "pgp word": "BEGIN PGP PUBLIC KEY BLOCK", "pem ends": "-----BEGIN RSA PUBLIC KEY-----\n-----END RSA PUBLIC KEY-----", "pem begin": "-----BEGIN RSA PUBLIC KEY-----",
				"armor begin": "-----BEGIN PGP PUBLIC KEY BLOCK-----", "armor ends": "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n-----END PGP PUBLIC KEY BLOCK-----", "armor ends touching": "-----BEGIN PGP PUBLIC KEY BLOCK----------END PGP PUBLIC KEY BLOCK-----", "armor overlapping": "-----BEGIN PGP PUBLIC KEY BLOCK-----END PGP PUBLIC KEY BLOCK-----",
				"ec ssh": fixtures["ec"]["ssh"], "ed ssh": fixtures["ed"]["ssh"], "ec pem": fixtures["ec"]["pem"], "ed pem": fixtures["ed"]["pem"],
				"two PGP keys": fixtures["pgpAB"]["armor"], "two PGP blocks": fixtures["pgpA"]["armor"] + fixtures["pgpB"]["armor"], "two PGP blocks and a line": fixtures["pgpA"]["armor"] + "\n" + fixtures["pgpB"]["armor"], "the same PGP block twice": fixtures["pgpA"]["armor"] + "\n" + fixtures["pgpA"]["armor"],
				"PGP and PEM": fixtures["pgpA"]["armor"] + "\n" + fixtures["rsaA"]["pem"],
			} {
				g.parse(v, what, text, usage, refused("it is no supported key"))
			}
		}
	})

	// OpenPGP keys.
	for _, n := range []string{"pgpA", "pgpB", "linux", "pgpM", "pgpN", "pgpD", "pgpE"} {
		c.Case("armor/"+n, func(v *V) {
			g := tester()
			defer g.w.Close()
			armor := linuxGPG
			if n != "linux" {
				armor = fixtures[n]["armor"]
			}
			armor = strings.TrimSpace(strings.ReplaceAll(armor, "\r", "")) + "\n"
			want, num := readPGP(armor)
			if num != 1 || want.fp == "" || n != "linux" && want.fp != fixtures[n]["fp"] {
				fatalf("fixture %s: %+v %d", n, want, num)
			}
			want.must = 1
			lines := strings.Split(strings.TrimSpace(armor), "\n")
			first := 1
			for lines[first] != "" {
				first++
			}
			body := strings.Join(lines[first+1:], "\n") + "\n"
			data, sum, _ := strings.Cut(body, "\n=")
			for what, text := range map[string]string{
				"plain": armor, "no newline": strings.TrimSpace(armor), "white space": " \t\n\n" + armor + "\n \n", "CRLF": strings.ReplaceAll(armor, "\n", "\r\n"),
				"no headers": lines[0] + "\n\n" + body, "headers": lines[0] + "\nVersion: GnuPG v2\nComment: RSA PUBLIC KEY\nComment: https://example.com\n\n" + body, "ssh comment": lines[0] + "\nComment: ssh-rsa AAAA\n\n" + body,
				"narrow": lines[0] + "\n\n" + wrapText(strings.ReplaceAll(data, "\n", ""), 48, "\n") + "=" + sum, "wide": lines[0] + "\n\n" + wrapText(strings.ReplaceAll(data, "\n", ""), 76, "\n") + "=" + sum,
			} {
				k := g.parse(v, n+": "+what, text, "gpg", want)
				if k != nil && (!strings.HasPrefix(k.Comment, "given (") || n != "linux" && !strings.Contains(k.Comment, fixtures[n]["identity"])) {
					v.Fail(what, "%s: the comment is %q", what, k.Comment)
				}
				for _, usage := range []string{"ssh", "", "GPG", "pgp"} {
					g.parse(v, n+": "+what, text, usage, refused("the usage does not fit"))
				}
			}
			// Nothing else may be around it.
			for what, x := range map[string]string{"a word": "x", "a line": "Key of Bob\n", "a colon": "Key:\n\n", "a dash": "-", "NUL": "\x00", "an SSH key": fixtures["rsaA"]["ssh"] + "\n", "a PEM key": fixtures["rsaA"]["pem"], "a byte order mark": "\ufeff"} {
				g.parse(v, n+": "+what+" before", x+armor, "gpg", refused("there is text before it"))
				g.parse(v, n+": "+what+" after", armor+x, "gpg", refused("there is text after it"))
				g.parse(v, n+": "+what+" around", x+armor+x, "gpg", refused("there is text around it"))
			}
		})
	}

	// The same through a database: what is listed, and what is the same key.
	c.Case("database", func(v *V) { pubkeysInDatabase(c, v) })

	// Mutated texts.
	texts := map[string][2]string{}
	for _, n := range []string{"rsaA", "rsaB"} {
		texts[n+" pem"] = [2]string{fixtures[n]["pem"], "ssh"}
		texts[n+" ssh"] = [2]string{fixtures[n]["ssh"] + " own comment", "ssh"}
	}
	small := number(1024, 99)
	texts["rsa1024 pem"] = [2]string{pemText("RSA PUBLIC KEY", spki(small, big.NewInt(3)), 64, "\n"), "ssh"}
	texts["rsa1024 ssh"] = [2]string{"ssh-rsa " + base64.StdEncoding.EncodeToString(rsaWire(small, big.NewInt(3))), "ssh"}
	texts["pgpA"] = [2]string{fixtures["pgpA"]["armor"], "gpg"}
	names := []string{"rsaA pem", "rsaA ssh", "rsaB pem", "rsaB ssh", "rsa1024 pem", "rsa1024 ssh", "pgpA"}
	menu := []byte("AB/+=a0- \n\t\r:\x00\xff")
	if c.Thorough {
		menu = nil
		for i := 0; i < 256; i++ {
			menu = append(menu, byte(i))
		}
	}
	for _, n := range names {
		text, usage := texts[n][0], texts[n][1]
		orig := truthOf(text, usage)
		const span = 64
		for from := 0; from < len(text); from += span {
			c.Case(fmt.Sprintf("mutated/%s/%d", n, from/span), func(v *V) {
				g := tester()
				defer g.w.Close()
				try := func(what, s string) {
					if c.Expired() || v.Failed() {
						return
					}
					t := truthOf(s, usage)
					if usage == "gpg" && t.fp != "" && t.fp != orig.fp {
						t = refused("the self-signature cannot match")
					}
					g.parse(v, what, s, usage, t)
				}
				for i := from; i < from+span && i < len(text); i++ {
					try(fmt.Sprintf("%s truncated to %d", n, i), text[:i])
					try(fmt.Sprintf("%s from %d", n, i), text[i:])
					try(fmt.Sprintf("%s without byte %d", n, i), text[:i]+text[i+1:])
					for _, b := range menu {
						if text[i] != b {
							try(fmt.Sprintf("%s byte %d = %q", n, i, b), text[:i]+string([]byte{b})+text[i+1:])
						}
						if usage != "gpg" || !c.Thorough {
							try(fmt.Sprintf("%s with %q at %d", n, b, i), text[:i]+string([]byte{b})+text[i:])
						}
					}
				}
			})
		}
	}
	// Mutated bytes below the encoding: the wire form and the DER form.
	wire := rsaWire(small, big.NewInt(3))
	der := spki(small, big.NewInt(3))
	for _, x := range []struct {
		name string
		raw  []byte
		text func(b []byte) string
	}{
		{"wire", wire, func(b []byte) string { return "ssh-rsa " + base64.StdEncoding.EncodeToString(b) + " c" }},
		{"der", der, func(b []byte) string { return pemText("RSA PUBLIC KEY", b, 64, "\n") }},
	} {
		for from := 0; from < len(x.raw); from += 16 {
			c.Case(fmt.Sprintf("raw/%s/%d", x.name, from/16), func(v *V) {
				g := tester()
				defer g.w.Close()
				for i := from; i < from+16 && i < len(x.raw); i++ {
					for b := 0; b < 256; b++ {
						if c.Expired() || v.Failed() {
							return
						}
						for k, m := range [][]byte{
							append(append(append([]byte{}, x.raw[:i]...), byte(b)), x.raw[i+1:]...),
							append(append(append([]byte{}, x.raw[:i]...), byte(b)), x.raw[i:]...),
						} {
							s := x.text(m)
							g.parse(v, fmt.Sprintf("%s byte %d = %d (%d)", x.name, i, b, k), s, "ssh", truthOf(s, "ssh"))
						}
					}
					for k, m := range [][]byte{x.raw[:i], append(append([]byte{}, x.raw[:i]...), x.raw[i+1:]...)} {
						s := x.text(m)
						g.parse(v, fmt.Sprintf("%s cut at %d (%d)", x.name, i, k), s, "ssh", truthOf(s, "ssh"))
					}
				}
			})
		}
	}
}

// pubkeysInDatabase adds every pair of encodings of every pair of keys.
func pubkeysInDatabase(c *Ctx, v *V) {
	type enc struct {
		key, usage, text string
		want             keyTruth
	}
	var all []enc
	for _, n := range []string{"rsaA", "rsaB"} {
		wire, _ := base64.StdEncoding.DecodeString(fixtures[n]["wire"])
		m, e, _, _ := readWire(wire)
		es := encodings(m, e)
		for _, what := range []string{`pem 64 "\n"`, `pem 76 "\r\n"`, `pem 1048576 "\n" without final newline`, `pem 64 "\n" in white space`, `openssh "" "" ""`, `openssh "\n" "two words" "\r\n"`, `openssh "" "RSA PUBLIC KEY" ""`} {
			if es[what] == "" {
				fatalf("no encoding %s", what)
			}
			all = append(all, enc{n, "ssh", es[what], rsaTruth(m, e, true)})
		}
	}
	for _, n := range []string{"pgpA", "pgpB"} {
		t, _ := readPGP(fixtures[n]["armor"])
		all = append(all, enc{n, "gpg", fixtures[n]["armor"], t}, enc{n, "gpg", "\n" + strings.ReplaceAll(fixtures[n]["armor"], "\n", "\r\n"), t})
	}
	w := NewWorld(c.Scratch)
	defer w.Close()
	for i, a := range all {
		for j, b := range all {
			if c.Expired() || v.Failed() {
				return
			}
			writeFile(w.path, []byte(`{"version":"1"}`))
			if o := w.Open(); !o.OK() {
				v.Fail("", "%s", o)
				return
			}
			w.Exec(uAlice)
			what := fmt.Sprintf("%d %d", i, j)
			add := func(x enc) Outcome {
				r := requests.NewRequest()
				r.User.Username, r.User.Email = "alice", "alice@example.com"
				r.Key.Payload, r.Key.Usage = x.text, x.usage
				v.Count("evaluations", 1)
				return w.Call(func() error { return w.db.AddPublicKey(r) })
			}
			if o := add(a); !o.OK() {
				v.Fail(what, "adding %q: %s", a.text, o)
				return
			}
			o := add(b)
			v.State("distinct_nontrivial", what)
			if o.Panic != "" || o.OK() != (a.key != b.key) {
				v.Fail(what, "after adding %q, adding %q: %s", a.text, b.text, o)
				return
			}
			for reopened := 0; reopened < 2; reopened++ {
				var got []*identity.PublicKey
				for _, usage := range []string{"ssh", "gpg"} {
					r := requests.NewRequest()
					r.User.Username, r.User.Email, r.Key.Usage = "alice", "alice@example.com", usage
					w.Call(func() error { return w.db.GetPublicKeys(r) })
					if l, ok := r.Response.Payload.(*identity.PublicKeyBundle); ok && l != nil {
						got = append(got, l.Get()...)
					}
				}
				want := []enc{a}
				if a.key != b.key {
					want = append(want, b)
				}
				if len(got) != len(want) {
					v.Fail(what, "%d keys are listed instead of %d", len(got), len(want))
					return
				}
				for _, x := range want {
					found := false
					for _, k := range got {
						found = found || k.Usage == x.usage && keyDiff(k, x.want) == ""
					}
					if !found {
						v.Fail(what, "the key %s is not listed with its material: %s", x.key, jsonOf(got))
						return
					}
				}
				if o := w.Open(); !o.OK() {
					v.Fail(what, "reopening: %s", o)
					return
				}
			}
		}
	}
}
