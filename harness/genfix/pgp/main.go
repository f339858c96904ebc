// Command pgp makes fixtures/pgp.json: PGP keys with several identities and
// of other algorithms. Run it in the harness directory.
package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"os"
	"time"

	"golang.org/x/crypto/openpgp"
	"golang.org/x/crypto/openpgp/armor"
	"golang.org/x/crypto/openpgp/packet"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var now = time.Date(2021, 8, 1, 12, 0, 0, 0, time.UTC)

func identity(e *openpgp.Entity, name, email string, primary bool) {
	cfg := &packet.Config{Time: func() time.Time { return now }}
	uid := packet.NewUserId(name, "", email)
	p := primary
	id := &openpgp.Identity{Name: uid.Id, UserId: uid, SelfSignature: &packet.Signature{
		CreationTime: now, SigType: packet.SigTypePositiveCert, PubKeyAlgo: e.PrimaryKey.PubKeyAlgo, Hash: crypto.SHA256,
		IsPrimaryId: &p, FlagsValid: true, FlagSign: true, FlagCertify: true, IssuerKeyId: &e.PrimaryKey.KeyId,
	}}
	must(id.SelfSignature.SignUserId(uid.Id, e.PrimaryKey, e.PrivateKey, cfg))
	e.Identities[uid.Id] = id
}

func main() {
	out := map[string]map[string]string{}
	cfg := &packet.Config{RSABits: 2048, Time: func() time.Time { return now }}
	emit := func(n string, e *openpgp.Entity) {
		var buf bytes.Buffer
		w, err := armor.Encode(&buf, openpgp.PublicKeyType, nil)
		must(err)
		must(e.Serialize(w))
		must(w.Close())
		out[n] = map[string]string{"armor": buf.String(), "fp": hex.EncodeToString(e.PrimaryKey.Fingerprint[:])}
	}
	// Several identities; the second is the primary one.
	e, err := openpgp.NewEntity("Andrew M", "", "m1@example.com", cfg)
	must(err)
	f := false
	for _, id := range e.Identities {
		id.SelfSignature.IsPrimaryId = &f
		must(id.SelfSignature.SignUserId(id.UserId.Id, e.PrimaryKey, e.PrivateKey, cfg))
	}
	identity(e, "Zoe M", "m2@example.com", true)
	identity(e, "Mike M", "m3@example.com", false)
	emit("pgpM", e)
	out["pgpM"]["primary"] = "Zoe M <m2@example.com>"
	// Several identities, all of one rank.
	e, err = openpgp.NewEntity("Nora N", "", "n1@example.com", cfg)
	must(err)
	for _, id := range e.Identities {
		id.SelfSignature.IsPrimaryId = &f
		must(id.SelfSignature.SignUserId(id.UserId.Id, e.PrimaryKey, e.PrivateKey, cfg))
	}
	for _, n := range []string{"Abel N", "Carl N", "Zack N"} {
		identity(e, n, n[:1]+"@example.com", false)
	}
	emit("pgpN", e)
	// Other algorithms.
	var d dsa.PrivateKey
	must(dsa.GenerateParameters(&d.Parameters, rand.Reader, dsa.L2048N256))
	must(dsa.GenerateKey(&d, rand.Reader))
	e = &openpgp.Entity{PrimaryKey: packet.NewDSAPublicKey(now, &d.PublicKey), PrivateKey: packet.NewDSAPrivateKey(now, &d), Identities: map[string]*openpgp.Identity{}}
	identity(e, "User pgpD", "pgpD@example.com", true)
	emit("pgpD", e)
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	e = &openpgp.Entity{PrimaryKey: packet.NewECDSAPublicKey(now, &k.PublicKey), PrivateKey: packet.NewECDSAPrivateKey(now, k), Identities: map[string]*openpgp.Identity{}}
	identity(e, "User pgpE", "pgpE@example.com", true)
	emit("pgpE", e)
	b, err := json.MarshalIndent(out, "", " ")
	must(err)
	must(os.WriteFile("fixtures/pgp.json", append(b, '\n'), 0644))
}
