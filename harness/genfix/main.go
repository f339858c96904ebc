// Command genfix writes fixtures/keys.json: the key material the harness uses.
// It was run once; the file is committed.
package main

import (
	"bytes"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"os"
	"strings"
	"time"

	"golang.org/x/crypto/openpgp"
	"golang.org/x/crypto/openpgp/armor"
	"golang.org/x/crypto/openpgp/packet"
	"golang.org/x/crypto/ssh"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	out := map[string]map[string]string{}
	for _, n := range []string{"rsaA", "rsaB", "rsaC"} {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		must(err)
		der, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
		must(err)
		sk, err := ssh.NewPublicKey(&k.PublicKey)
		must(err)
		out[n] = map[string]string{
			"pem":   string(pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der})),
			"pkcs1": string(pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: x509.MarshalPKCS1PublicKey(&k.PublicKey)})),
			"spki":  string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})),
			"ssh":   strings.TrimSpace(string(ssh.MarshalAuthorizedKey(sk))),
			"wire":  base64.StdEncoding.EncodeToString(sk.Marshal()),
		}
	}
	for _, n := range []string{"ed", "ec"} {
		var pub interface{}
		if n == "ed" {
			p, _, err := ed25519.GenerateKey(rand.Reader)
			must(err)
			pub = p
		} else {
			p, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			must(err)
			pub = &p.PublicKey
		}
		der, err := x509.MarshalPKIXPublicKey(pub)
		must(err)
		sk, err := ssh.NewPublicKey(pub)
		must(err)
		out[n] = map[string]string{
			"pem":  string(pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der})),
			"ssh":  strings.TrimSpace(string(ssh.MarshalAuthorizedKey(sk))),
			"wire": base64.StdEncoding.EncodeToString(sk.Marshal()),
		}
	}
	_ = dsa.Sign
	now := time.Date(2021, 8, 1, 12, 0, 0, 0, time.UTC)
	var all bytes.Buffer
	aw, err := armor.Encode(&all, openpgp.PublicKeyType, nil)
	must(err)
	for _, n := range []string{"pgpA", "pgpB"} {
		e, err := openpgp.NewEntity("User "+n, "", n+"@example.com", &packet.Config{RSABits: 2048, Time: func() time.Time { return now }})
		must(err)
		var buf bytes.Buffer
		w, err := armor.Encode(&buf, openpgp.PublicKeyType, nil)
		must(err)
		must(e.Serialize(w))
		must(w.Close())
		must(e.Serialize(aw))
		var id string
		for _, u := range e.Identities {
			id = u.Name
		}
		out[n] = map[string]string{
			"armor":    buf.String(),
			"fp":       hex.EncodeToString(e.PrimaryKey.Fingerprint[:]),
			"identity": id,
		}
	}
	must(aw.Close())
	out["pgpAB"] = map[string]string{"armor": all.String()}
	for _, n := range []string{"u2fA", "u2fB", "u2fC"} {
		var k *ecdsa.PrivateKey
		for {
			k, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			must(err)
			// Coordinates and the scalar with full length, and for one
			// key an x coordinate that starts with a zero byte.
			full := k.X.BitLen() > 248 && k.Y.BitLen() > 248 && k.D.BitLen() > 248
			if n == "u2fC" {
				full = k.X.BitLen() <= 248 && k.Y.BitLen() > 248 && k.D.BitLen() > 248
			}
			if full {
				break
			}
		}
		b := func(x []byte) string {
			return base64.StdEncoding.EncodeToString(append(make([]byte, 32-len(x)), x...))
		}
		out[n] = map[string]string{"d": b(k.D.Bytes()), "x": b(k.X.Bytes()), "y": b(k.Y.Bytes())}
	}
	b, err := json.MarshalIndent(out, "", " ")
	must(err)
	must(os.WriteFile("fixtures/keys.json", append(b, '\n'), 0644))
}
