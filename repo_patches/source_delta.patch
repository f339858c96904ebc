From daec7cd69cd8fbacd63dda3ac0a69117f7dc5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 01/44] fix: do not authenticate with a disabled or expired API
 key

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index 87e0e15..161246f 100644
--- a/user.go
+++ b/user.go
@@ -444,6 +444,9 @@ func (user *User) DeleteAPIKey(r *requests.Request) error {
 func (user *User) LookupAPIKey(r *requests.Request) error {
 	for _, k := range user.APIKeys {
 		if k.Prefix == r.Key.Prefix {
+			if k.Disabled || k.Expired {
+				return errors.ErrLookupAPIKeyFailed
+			}
 			if k.Match(r.Key.Payload) {
 				return nil
 			}
-- 
2.43.0


From 5a6bf152b755637e76f987c79b937bd45345530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 02/44] fix: take the read lock in GetPath, because Copy
 changes the path while it writes

---
 database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database.go b/database.go
index 19b834e..60a24b8 100644
--- a/database.go
+++ b/database.go
@@ -244,6 +244,8 @@ func (db *Database) checkPasswordPolicyCompliance(s string) error {
 
 // GetPath returns the path  to Database.
 func (db *Database) GetPath() string {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	return db.path
 }
 
-- 
2.43.0


From b467132becc8be80d555b46bc161a48aae51f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 03/44] fix: guard the shared random source against concurrent
 use

---
 random.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/random.go b/random.go
index 750127d..41e6e37 100644
--- a/random.go
+++ b/random.go
@@ -16,6 +16,7 @@ package identity
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
@@ -26,7 +27,13 @@ var seed *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()),
 )
 
+// seedMu guards seed: unlike the functions of math/rand, an instance of
+// rand.Rand is not safe for concurrent use.
+var seedMu sync.Mutex
+
 func gen(length int, charset string) string {
+	seedMu.Lock()
+	defer seedMu.Unlock()
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seed.Intn(len(charset))]
-- 
2.43.0


From 759d1ed45062b9f73512a5d651b9addc72443b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 04/44] fix: do not panic on a random string range of a single
 length

---
 random.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/random.go b/random.go
index 41e6e37..c035a8b 100644
--- a/random.go
+++ b/random.go
@@ -53,6 +53,9 @@ func GetRandomString(i int) string {
 // random lenght is bounded by a and b.
 func GetRandomStringFromRange(a, b int) string {
 	var i int
+	if a == b {
+		return gen(a, charset)
+	}
 	if a > b {
 		i = rand.Intn(a-b) + b
 	} else {
-- 
2.43.0


From 43a0d21d490ee72351a9343605a2fa8a729edf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 05/44] fix: guard the lazily derived WebAuthn public key
 against concurrent authentication

---
 mfa_token.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 8980581..c57bb31 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -31,6 +31,7 @@ import (
 	"math"
 	"math/big"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/greenpau/go-identity/pkg/errors"
@@ -291,6 +292,10 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 	return p, nil
 }
 
+// pubkeyMu guards the lazy derivation of the public key of MfaToken: users
+// authenticate concurrently.
+var pubkeyMu sync.Mutex
+
 // WebAuthnRequest processes WebAuthn requests.
 func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest, error) {
 	switch p.Type {
@@ -307,10 +312,8 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 
 	switch p.Parameters["key_type"] {
 	case "ec2":
-		if p.pubkey == nil {
-			if err := p.derivePublicKey(p.Parameters); err != nil {
-				return nil, err
-			}
+		if err := p.ensurePublicKey(); err != nil {
+			return nil, err
 		}
 	default:
 		return nil, errors.ErrWebAuthnRequest.WithArgs("unsupported key type")
@@ -506,6 +509,17 @@ func generateMfaCode(secret, algo string, digits int, ts uint64) (string, error)
 	return fmt.Sprintf(wrap, mod), nil
 }
 
+func (p *MfaToken) ensurePublicKey() error {
+	pubkeyMu.Lock()
+	defer pubkeyMu.Unlock()
+	if p.pubkey == nil {
+		if err := p.derivePublicKey(p.Parameters); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (p *MfaToken) derivePublicKey(params map[string]string) error {
 	for _, reqParam := range []string{"curve_xcoord", "curve_ycoord", "key_algo"} {
 		if _, exists := params[reqParam]; !exists {
-- 
2.43.0


From 8f680ccbcec8db0322231ae0e465edbfffecdf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 06/44] fix: reject WebAuthn registrations with mistyped public
 key fields instead of panicking

---
 mfa_token.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index c57bb31..4a7caa6 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -224,11 +224,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#key-type
 		var keyType string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["key_type"]; exists {
-			switch v.(float64) {
-			case 2:
+			switch v {
+			case float64(2):
 				keyType = "ec2"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyTypeNotFound
@@ -237,11 +237,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#algorithms
 		var keyAlgo string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["algorithm"]; exists {
-			switch v.(float64) {
-			case -7:
+			switch v {
+			case float64(-7):
 				keyAlgo = "es256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmNotFound
@@ -250,18 +250,26 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#elliptic-curves
 		var curveType, curveXcoord, curveYcoord string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; exists {
-			switch v.(float64) {
-			case 1:
+			switch v {
+			case float64(1):
 				curveType = "p256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-			curveXcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x", "not a string")
+			}
+			curveXcoord = coord
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_y"]; exists {
-			curveYcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("y", "not a string")
+			}
+			curveYcoord = coord
 		}
 
 		switch keyType {
-- 
2.43.0


From 85114be8d1638aa9aec5e545a9622108c7d9f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 07/44] fix: generate another API key on a prefix collision
 instead of looping forever

---
 database.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database.go b/database.go
index 60a24b8..28cd21d 100644
--- a/database.go
+++ b/database.go
@@ -559,6 +559,11 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 		}
 		keyPrefix := string(s[:24])
 		if _, exists := db.refAPIKey[keyPrefix]; exists {
+			if failCount > 10 {
+				return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, "failed generating unique key")
+			}
+			failCount++
+			s = GetRandomStringFromRange(72, 96)
 			continue
 		}
 		r.Response.Payload = s
-- 
2.43.0


From 682a723f240a6bcf99f044dacdb801f08f858b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 08/44] fix: refuse to add a user when no unused user id was
 found

---
 database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database.go b/database.go
index 28cd21d..42e1ed8 100644
--- a/database.go
+++ b/database.go
@@ -273,6 +273,9 @@ func (db *Database) AddUser(r *requests.Request) error {
 			break
 		}
 	}
+	if _, exists := db.refID[user.ID]; exists {
+		return errors.ErrAddUser.WithArgs(r.User.Username, "user id already in use")
+	}
 	username := strings.ToLower(user.Username)
 	if _, exists := db.refUsername[username]; exists {
 		return errors.ErrAddUser.WithArgs(username, "username already in use")
-- 
2.43.0


From ef8e65a270a91eed99ac3ec2096b4c7f963acb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 09/44] fix: give an SSH key the same fingerprint in PEM and in
 OpenSSH form

---
 public_key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 147edc7..f840552 100644
--- a/public_key.go
+++ b/public_key.go
@@ -163,6 +163,7 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 	}
 	p.FingerprintMD5 = ssh.FingerprintLegacyMD5(publicKey)
 	p.Fingerprint = ssh.FingerprintSHA256(publicKey)
+	p.Fingerprint = strings.ReplaceAll(p.Fingerprint, "SHA256:", "")
 
 	// Convert OpenSSH key to RSA PUBLIC KEY
 	switch publicKey.Type() {
@@ -270,6 +271,6 @@ func (p *PublicKey) parsePublicKeyRSA() error {
 	p.Fingerprint = ssh.FingerprintSHA256(publicKey)
 	p.Fingerprint = strings.ReplaceAll(p.Fingerprint, "SHA256:", "")
 	p.OpenSSH = string(ssh.MarshalAuthorizedKey(publicKey))
-	p.OpenSSH = strings.TrimLeft(p.OpenSSH, p.Type+" ")
+	p.OpenSSH = strings.TrimSpace(strings.TrimLeft(p.OpenSSH, p.Type+" "))
 	return nil
 }
-- 
2.43.0


From 307d42ad5d115e253bbea0a4b92d5e7ddd17b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 10/44] fix: reject OpenSSH and PGP keys whose usage does not
 match the payload

---
 public_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public_key.go b/public_key.go
index f840552..2b7146d 100644
--- a/public_key.go
+++ b/public_key.go
@@ -129,6 +129,9 @@ func (p *PublicKey) parse() error {
 }
 
 func (p *PublicKey) parsePublicKeyOpenSSH() error {
+	if p.Usage != "ssh" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	// Attempt parsing as authorized OpenSSH keys.
 	payloadBytes := bytes.TrimSpace([]byte(p.Payload))
 	i := bytes.IndexAny(payloadBytes, " \t")
@@ -194,6 +197,9 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 
 func (p *PublicKey) parsePublicKeyPGP() error {
 	var user, algo, comment string
+	if p.Usage != "gpg" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	p.Payload = strings.TrimSpace(p.Payload)
 	for _, w := range []string{"BEGIN", "END"} {
 		s := fmt.Sprintf("-----%s PGP PUBLIC KEY BLOCK-----", w)
-- 
2.43.0


From 0d74b06811b55f763d6f056a75db1ab633ed1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 11/44] fix: hash the password as given, so that the same
 password verifies

---
 password.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 7e81482..b9fe29d 100644
--- a/password.go
+++ b/password.go
@@ -70,8 +70,7 @@ func (p *Password) Disable() {
 }
 
 func (p *Password) hash(s string) error {
-	s = strings.TrimSpace(s)
-	if s == "" {
+	if strings.TrimSpace(s) == "" {
 		return errors.ErrPasswordEmpty
 	}
 	switch p.Algorithm {
-- 
2.43.0


From 668309d01a021b58419fa6dd4914668e17c5d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 12/44] fix: find users with short usernames and short email
 addresses

---
 database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index 42e1ed8..e662a54 100644
--- a/database.go
+++ b/database.go
@@ -406,7 +406,7 @@ func (db *Database) getUserByID(s string) (*User, error) {
 
 // getUserByUsername returns a user by username
 func (db *Database) getUserByUsername(s string) (*User, error) {
-	if len(s) < 2 {
+	if len(s) < 1 {
 		return nil, errors.ErrDatabaseUserNotFound
 	}
 	s = strings.ToLower(s)
@@ -420,7 +420,7 @@ func (db *Database) getUserByUsername(s string) (*User, error) {
 // getUserByEmailAddress returns a liast of users associated with a specific email
 // address.
 func (db *Database) getUserByEmailAddress(s string) (*User, error) {
-	if len(s) < 6 {
+	if len(s) < 3 {
 		return nil, errors.ErrDatabaseUserNotFound
 	}
 	s = strings.ToLower(s)
-- 
2.43.0


From 73d8b112967709459bc0d8f226110b31ff18d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 13/44] fix: keep no more previous passwords than the policy
 allows

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 161246f..6e9e0d9 100644
--- a/user.go
+++ b/user.go
@@ -162,7 +162,7 @@ func (user *User) AddPassword(s string, keepVersions int) error {
 				p.Disable()
 			}
 			passwords = append(passwords, p)
-			if i > keepVersions {
+			if i+1 >= keepVersions {
 				break
 			}
 		}
-- 
2.43.0


From d9ba83f6594e446685a627dd07ac41bed9a603ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 14/44] fix: reject roles without a name

---
 role.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/role.go b/role.go
index dbdded7..0beee38 100644
--- a/role.go
+++ b/role.go
@@ -39,6 +39,9 @@ func NewRole(s string) (*Role, error) {
 	}
 	role.Organization = parts[0]
 	role.Name = strings.Join(parts[1:], "/")
+	if role.Name == "" {
+		return nil, errors.ErrRoleEmpty
+	}
 	return role, nil
 }
 
-- 
2.43.0


From 7192e92bb5d190fdbf61735ac61dcc81c7269f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 15/44] fix: report null entries of a database file as an error
 instead of panicking

---
 pkg/errors/database.go |  2 ++
 user.go                | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 89755c4..267c0e9 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -57,6 +57,8 @@ const (
 
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
 	ErrUsernameEmpty       StandardError = "username is empty"
+	ErrUserNull            StandardError = "user is null"
+	ErrUserNullEntry       StandardError = "null entry in user %s"
 
 	ErrEmailAddressInvalid StandardError = "invalid email address"
 	ErrRoleEmpty           StandardError = "role name is empty"
diff --git a/user.go b/user.go
index 6e9e0d9..c0b822e 100644
--- a/user.go
+++ b/user.go
@@ -133,6 +133,9 @@ func NewUserWithRoles(username, password, email, fullName string, roles []string
 
 // Valid returns true if a user conforms to a standard.
 func (user *User) Valid() error {
+	if user == nil {
+		return errors.ErrUserNull
+	}
 	if len(user.ID) != 36 {
 		return errors.ErrUserIDInvalidLength.WithArgs(len(user.ID))
 	}
@@ -142,6 +145,36 @@ func (user *User) Valid() error {
 	if len(user.Passwords) < 1 {
 		return errors.ErrUserPasswordNotFound
 	}
+	for _, entry := range user.EmailAddresses {
+		if entry == nil {
+			return errors.ErrUserNullEntry.WithArgs("email addresses")
+		}
+	}
+	for _, entry := range user.Passwords {
+		if entry == nil {
+			return errors.ErrUserNullEntry.WithArgs("passwords")
+		}
+	}
+	for _, entry := range user.PublicKeys {
+		if entry == nil {
+			return errors.ErrUserNullEntry.WithArgs("public keys")
+		}
+	}
+	for _, entry := range user.APIKeys {
+		if entry == nil {
+			return errors.ErrUserNullEntry.WithArgs("api keys")
+		}
+	}
+	for _, entry := range user.MfaTokens {
+		if entry == nil {
+			return errors.ErrUserNullEntry.WithArgs("mfa tokens")
+		}
+	}
+	for _, entry := range user.Roles {
+		if entry == nil {
+			return errors.ErrUserNullEntry.WithArgs("roles")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From da6a31804d3d55c05a3d527326529544abf59eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 16/44] fix: resolve usernames that contain an at sign, and
 keep them distinct from email addresses

---
 database.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index e662a54..1451766 100644
--- a/database.go
+++ b/database.go
@@ -280,6 +280,9 @@ func (db *Database) AddUser(r *requests.Request) error {
 	if _, exists := db.refUsername[username]; exists {
 		return errors.ErrAddUser.WithArgs(username, "username already in use")
 	}
+	if _, exists := db.refEmailAddress[username]; exists {
+		return errors.ErrAddUser.WithArgs(username, "username already in use as email address")
+	}
 
 	emailAddresses := []string{}
 	for _, email := range user.EmailAddresses {
@@ -287,6 +290,9 @@ func (db *Database) AddUser(r *requests.Request) error {
 		if _, exists := db.refEmailAddress[emailAddress]; exists {
 			return errors.ErrAddUser.WithArgs(emailAddress, "email address already in use")
 		}
+		if _, exists := db.refUsername[emailAddress]; exists {
+			return errors.ErrAddUser.WithArgs(emailAddress, "email address already in use as username")
+		}
 		emailAddresses = append(emailAddresses, emailAddress)
 	}
 
@@ -389,7 +395,9 @@ func (db *Database) AuthenticateUser(r *requests.Request) error {
 // getUser return User by either email address or username.
 func (db *Database) getUser(s string) (*User, error) {
 	if strings.Contains(s, "@") {
-		return db.getUserByEmailAddress(s)
+		if user, err := db.getUserByEmailAddress(s); err == nil {
+			return user, nil
+		}
 	}
 	return db.getUserByUsername(s)
 }
-- 
2.43.0


From 69156882531fc8d8722b781950ec899d4337dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 17/44] fix: expand the home directory in the database path
 when writing, as when reading

---
 database.go            | 10 +++++++++-
 internal/utils/file.go |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index 1451766..02731f5 100644
--- a/database.go
+++ b/database.go
@@ -112,6 +112,10 @@ type Database struct {
 
 // NewDatabase return an instance of Database.
 func NewDatabase(fp string) (*Database, error) {
+	fp, err := utils.ExpandHomePath(fp)
+	if err != nil {
+		return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+	}
 	db := &Database{
 		mu:              &sync.RWMutex{},
 		path:            fp,
@@ -457,9 +461,13 @@ func (db *Database) Save() error {
 func (db *Database) Copy(fp string) error {
 	db.mu.Lock()
 	defer db.mu.Unlock()
+	fp, err := utils.ExpandHomePath(fp)
+	if err != nil {
+		return errors.ErrDatabaseCommit.WithArgs(fp, err)
+	}
 	path := db.path
 	db.path = fp
-	err := db.commit()
+	err = db.commit()
 	db.path = path
 	return err
 }
diff --git a/internal/utils/file.go b/internal/utils/file.go
index d4072cb..92d16f4 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -20,8 +20,13 @@ import (
 	"path/filepath"
 )
 
+// ExpandHomePath expands home directory.
+func ExpandHomePath(fp string) (string, error) {
+	return expandHomePath(fp)
+}
+
 func expandHomePath(fp string) (string, error) {
-	if fp[0] != '~' {
+	if fp == "" || fp[0] != '~' {
 		return fp, nil
 	}
 	hd, err := os.UserHomeDir()
-- 
2.43.0


From 43d70810aaf4ffd16424e43e8fffc1953e811861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 18/44] fix: do not rewrite a database file that is rejected
 when opening it

---
 database.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database.go b/database.go
index 02731f5..ff6b0b4 100644
--- a/database.go
+++ b/database.go
@@ -124,6 +124,7 @@ func NewDatabase(fp string) (*Database, error) {
 		refEmailAddress: make(map[string]*User),
 		refAPIKey:       make(map[string]*User),
 	}
+	var changed bool
 	fileInfo, err := os.Stat(fp)
 	if err != nil {
 		if !os.IsNotExist(err) {
@@ -148,11 +149,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if err := json.Unmarshal(b, db); err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-		if changed := db.enforceDefaultPolicy(); changed {
-			if err := db.commit(); err != nil {
-				return nil, errors.ErrNewDatabase.WithArgs(fp, err)
-			}
-		}
+		changed = db.enforceDefaultPolicy()
 	}
 
 	// db.mu = &sync.RWMutex{}
@@ -191,6 +188,11 @@ func NewDatabase(fp string) (*Database, error) {
 			db.refAPIKey[apiKey.Prefix] = user
 		}
 	}
+	if changed {
+		if err := db.commit(); err != nil {
+			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+		}
+	}
 	return db, nil
 }
 
-- 
2.43.0


From c00a1a5b52d7822068c9aa8a3b57aa5fd5a3a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 19/44] fix: replace the database file atomically, so that a
 crash while saving does not lose it

---
 database.go            |  3 +--
 internal/utils/file.go | 53 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index ff6b0b4..666364d 100644
--- a/database.go
+++ b/database.go
@@ -21,7 +21,6 @@ import (
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
 	"github.com/greenpau/versioned"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -482,7 +481,7 @@ func (db *Database) commit() error {
 	if err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
-	if err := ioutil.WriteFile(db.path, []byte(data), 0600); err != nil {
+	if err := utils.WriteFileBytes(db.path, []byte(data), 0600); err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	return nil
diff --git a/internal/utils/file.go b/internal/utils/file.go
index 92d16f4..ce113e9 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -37,6 +37,59 @@ func expandHomePath(fp string) (string, error) {
 	return fp, nil
 }
 
+// WriteFileBytes replaces the contents of a file atomically: after a crash the
+// file holds either its previous or its new contents. It creates the file with
+// the provided permissions, and keeps the permissions of an existing file.
+func WriteFileBytes(fp string, b []byte, perm os.FileMode) error {
+	// Replace the file a symbolic link points to, and not the link.
+	if target, err := filepath.EvalSymlinks(fp); err == nil {
+		fp = target
+	}
+	existing, err := os.OpenFile(fp, os.O_WRONLY, 0)
+	if err == nil {
+		fileInfo, err := existing.Stat()
+		existing.Close()
+		if err != nil {
+			return err
+		}
+		if !fileInfo.Mode().IsRegular() {
+			return ioutil.WriteFile(fp, b, perm)
+		}
+		perm = fileInfo.Mode().Perm()
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+
+	dir := filepath.Dir(fp)
+	fh, err := ioutil.TempFile(dir, "."+filepath.Base(fp)+".*")
+	if err != nil {
+		return err
+	}
+	_, err = fh.Write(b)
+	if err == nil {
+		err = fh.Chmod(perm)
+	}
+	if err == nil {
+		err = fh.Sync()
+	}
+	if closeErr := fh.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(fh.Name(), fp)
+	}
+	if err != nil {
+		os.Remove(fh.Name())
+		return err
+	}
+	// The contents are in place: persist the directory entry at best effort.
+	if dh, err := os.Open(dir); err == nil {
+		dh.Sync()
+		dh.Close()
+	}
+	return nil
+}
+
 // ReadFileBytes expands home directory and reads a file.
 func ReadFileBytes(fp string) ([]byte, error) {
 	var err error
-- 
2.43.0


From 94b00e0305d86d37bd97e67f5cde1420e8eb3d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 20/44] fix: undo the change in memory when saving it fails

---
 database.go | 25 +++++++++++++++++++++++++
 user.go     |  3 +++
 2 files changed, 28 insertions(+)

diff --git a/database.go b/database.go
index 666364d..7905dca 100644
--- a/database.go
+++ b/database.go
@@ -309,6 +309,12 @@ func (db *Database) AddUser(r *requests.Request) error {
 	db.Users = append(db.Users, user)
 
 	if err := db.commit(); err != nil {
+		delete(db.refUsername, username)
+		delete(db.refID, user.ID)
+		for _, emailAddress := range emailAddresses {
+			delete(db.refEmailAddress, emailAddress)
+		}
+		db.Users = db.Users[:len(db.Users)-1]
 		return errors.ErrAddUser.WithArgs(username, err)
 	}
 	return nil
@@ -475,13 +481,16 @@ func (db *Database) Copy(fp string) error {
 
 // commit writes the database contents to a file.
 func (db *Database) commit() error {
+	revision, lastModified := db.Revision, db.LastModified
 	db.Revision++
 	db.LastModified = time.Now().UTC()
 	data, err := json.MarshalIndent(db, "", "  ")
 	if err != nil {
+		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	if err := utils.WriteFileBytes(db.path, []byte(data), 0600); err != nil {
+		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	return nil
@@ -510,10 +519,12 @@ func (db *Database) AddPublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
+	previous := *user
 	if err := user.AddPublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		*user = previous
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -549,10 +560,12 @@ func (db *Database) DeletePublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.ID, err)
 	}
+	previous := *user
 	if err := user.DeletePublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		*user = previous
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -566,6 +579,7 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	previous := *user
 	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
 	for {
@@ -597,6 +611,8 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	}
 
 	if err := db.commit(); err != nil {
+		*user = previous
+		delete(db.refAPIKey, r.Key.Prefix)
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -610,11 +626,14 @@ func (db *Database) DeleteAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.ID, err)
 	}
+	previous := *user
 	if err := user.DeleteAPIKey(r); err != nil {
 		return err
 	}
 	delete(db.refAPIKey, r.Key.Prefix)
 	if err := db.commit(); err != nil {
+		*user = previous
+		db.refAPIKey[r.Key.Prefix] = user
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -653,11 +672,13 @@ func (db *Database) ChangeUserPassword(r *requests.Request) error {
 	if err := db.checkPasswordPolicyCompliance(r.User.Password); err != nil {
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
+	previous := *user
 	if err := user.ChangePassword(r, db.Policy.Password.KeepVersions); err != nil {
 		return err
 	}
 	// if db.Policy.Password.KeepVersions
 	if err := db.commit(); err != nil {
+		*user = previous
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
 	return nil
@@ -720,10 +741,12 @@ func (db *Database) AddMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
+	previous := *user
 	if err := user.AddMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		*user = previous
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
 	return nil
@@ -756,10 +779,12 @@ func (db *Database) DeleteMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
+	previous := *user
 	if err := user.DeleteMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		*user = previous
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
 	return nil
diff --git a/user.go b/user.go
index c0b822e..46c5230 100644
--- a/user.go
+++ b/user.go
@@ -192,6 +192,9 @@ func (user *User) AddPassword(s string, keepVersions int) error {
 	if len(user.Passwords) > 0 {
 		for i, p := range user.Passwords {
 			if !p.Disabled {
+				// Leave the entry itself alone: the change may not be saved.
+				disabled := *p
+				p = &disabled
 				p.Disable()
 			}
 			passwords = append(passwords, p)
-- 
2.43.0


From e000f1037cb3f3cf440eabb0585c2fcb63dd658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 21/44] fix: return a snapshot of a user, which subsequent
 operations do not change

---
 database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 7905dca..5791447 100644
--- a/database.go
+++ b/database.go
@@ -344,7 +344,9 @@ func (db *Database) GetUser(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrGetUsers.WithArgs(err)
 	}
-	r.Response.Payload = user
+	// Hand out a snapshot: the user itself changes with subsequent operations.
+	snapshot := *user
+	r.Response.Payload = &snapshot
 	return nil
 }
 
-- 
2.43.0


From da2a89fe68a478427448446433fc786d4cf844a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 22/44] fix: reject passwords with NUL bytes, which bcrypt does
 not tell apart

---
 password.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/password.go b/password.go
index b9fe29d..bdd1c6d 100644
--- a/password.go
+++ b/password.go
@@ -75,6 +75,10 @@ func (p *Password) hash(s string) error {
 	}
 	switch p.Algorithm {
 	case "bcrypt":
+		if strings.IndexByte(s, 0) >= 0 {
+			// bcrypt takes a NUL byte for the end of the password.
+			return errors.ErrPasswordGenerate.WithArgs("password contains NUL byte")
+		}
 		if p.Cost < 8 {
 			p.Cost = 10
 		}
@@ -92,6 +96,9 @@ func (p *Password) hash(s string) error {
 
 // Match returns true when the provided password matches the user.
 func (p *Password) Match(s string) bool {
+	if strings.IndexByte(s, 0) >= 0 {
+		return false
+	}
 	if err := bcrypt.CompareHashAndPassword([]byte(p.Hash), []byte(s)); err == nil {
 		return true
 	}
-- 
2.43.0


From 9270655ee0ade4d8312393e2e1c79bd3fbe9bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 23/44] fix: reject WebAuthn registrations without a usable
 P-256 public key

---
 mfa_token.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mfa_token.go b/mfa_token.go
index 4a7caa6..e3b640e 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -256,6 +256,8 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			default:
 				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
 			}
+		} else {
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs("curve type not found")
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
 			coord, ok := v.(string)
@@ -289,6 +291,10 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		p.Parameters["curve_type"] = curveType
 		p.Parameters["curve_xcoord"] = curveXcoord
 		p.Parameters["curve_ycoord"] = curveYcoord
+		// A key that is not a point on the curve never authenticates.
+		if err := p.derivePublicKey(p.Parameters); err != nil {
+			return nil, err
+		}
 		//return nil, fmt.Errorf("XXX: %v", r.AttestationObject.AttestationStatement.Certificates)
 		//return nil, fmt.Errorf("XXX: %v", r.AttestationObject.AuthData.CredentialData)
 	case "":
@@ -549,6 +555,9 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 		i.SetBytes(b)
 		coords = append(coords, i)
 	}
+	if !elliptic.P256().IsOnCurve(coords[0], coords[1]) {
+		return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x, y", "not a point on the curve")
+	}
 
 	switch params["key_algo"] {
 	case "es256":
-- 
2.43.0


From bc7e9b7c9c58ee6254c7015423b53731721d4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 24/44] fix: refuse WebAuthn authentication without an issued
 challenge

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index 46c5230..7e2dc1a 100644
--- a/user.go
+++ b/user.go
@@ -313,6 +313,9 @@ func (user *User) VerifyPassword(s string) error {
 
 // VerifyWebAuthnRequest authenticated WebAuthn requests.
 func (user *User) VerifyWebAuthnRequest(r *requests.Request) error {
+	if r.WebAuthn.Challenge == "" {
+		return errors.ErrWebAuthnChallengeNotFound
+	}
 	req, err := unpackWebAuthnRequest(r.WebAuthn.Request)
 	if err != nil {
 		return err
-- 
2.43.0


From 9ddf3e4bcdbe9515c745477e1b6747bddac8a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 25/44] fix: accept OpenSSH keys whatever their comment and
 surrounding white space

---
 public_key.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public_key.go b/public_key.go
index 2b7146d..f5ef222 100644
--- a/public_key.go
+++ b/public_key.go
@@ -118,12 +118,12 @@ func (p *PublicKey) parse() error {
 		return errors.ErrPublicKeyEmptyPayload
 	}
 	switch {
-	case strings.Contains(p.Payload, "RSA PUBLIC KEY"):
-		return p.parsePublicKeyRSA()
-	case strings.HasPrefix(p.Payload, "ssh-rsa "):
+	case strings.HasPrefix(strings.TrimSpace(p.Payload), "ssh-rsa "):
 		return p.parsePublicKeyOpenSSH()
 	case strings.Contains(p.Payload, "BEGIN PGP PUBLIC KEY BLOCK"):
 		return p.parsePublicKeyPGP()
+	case strings.Contains(p.Payload, "RSA PUBLIC KEY"):
+		return p.parsePublicKeyRSA()
 	}
 	return errors.ErrPublicKeyUsageUnsupported.WithArgs(p.Usage)
 }
-- 
2.43.0


From 22781ba2a6a59ad8bf7d723fabaa476c82ded7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 26/44] fix: record the canonical OpenSSH text of a public key

---
 public_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index f5ef222..06b11a3 100644
--- a/public_key.go
+++ b/public_key.go
@@ -149,7 +149,6 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 			comment = bytes.TrimSpace(payloadBase64[i:])
 			payloadBase64 = payloadBase64[:i]
 		}
-		p.OpenSSH = string(payloadBase64)
 	}
 	k := make([]byte, base64.StdEncoding.DecodedLen(len(payloadBase64)))
 	n, err := base64.StdEncoding.Decode(k, payloadBase64)
@@ -161,6 +160,7 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 		return errors.ErrPublicKeyParse.WithArgs(err)
 	}
 	p.Type = publicKey.Type()
+	p.OpenSSH = base64.StdEncoding.EncodeToString(publicKey.Marshal())
 	if string(comment) != "" {
 		p.Comment = string(comment)
 	}
-- 
2.43.0


From 251ba318b7fd943aa675d3db583d29da1d663c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 27/44] fix: refuse keys other than RSA in an RSA PUBLIC KEY
 block

---
 public_key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/public_key.go b/public_key.go
index 06b11a3..649ba12 100644
--- a/public_key.go
+++ b/public_key.go
@@ -272,6 +272,9 @@ func (p *PublicKey) parsePublicKeyRSA() error {
 	if err != nil {
 		return fmt.Errorf("failed ssh.NewPublicKey: %s", err)
 	}
+	if publicKey.Type() != "ssh-rsa" {
+		return errors.ErrPublicKeyTypeUnsupported.WithArgs(publicKey.Type())
+	}
 	p.Type = publicKey.Type()
 	p.FingerprintMD5 = ssh.FingerprintLegacyMD5(publicKey)
 	p.Fingerprint = ssh.FingerprintSHA256(publicKey)
-- 
2.43.0


From f00ede96d9a108bf95bc6e4137f7506a7501c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 28/44] fix: refuse more than one PGP public key block

---
 public_key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/public_key.go b/public_key.go
index 649ba12..a2f96ed 100644
--- a/public_key.go
+++ b/public_key.go
@@ -206,6 +206,9 @@ func (p *PublicKey) parsePublicKeyPGP() error {
 		if (w == "BEGIN" && !strings.HasPrefix(p.Payload, s)) || (w == "END" && !strings.HasSuffix(p.Payload, s)) {
 			return errors.ErrPublicKeyParse.WithArgs(fmt.Errorf("%s PGP PUBLIC KEY BLOCK not found", w))
 		}
+		if n := strings.Count(p.Payload, s); n != 1 {
+			return errors.ErrPublicKeyParse.WithArgs(fmt.Errorf("%s PGP PUBLIC KEY BLOCK found %d times", w, n))
+		}
 	}
 	kr, err := openpgp.ReadArmoredKeyRing(bytes.NewBufferString(p.Payload))
 	if err != nil {
-- 
2.43.0


From 2a213b147ae9636abdac7583b14ee1ebbad1f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 29/44] fix: refuse OpenSSH RSA keys whose modulus is not
 positive

---
 public_key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/public_key.go b/public_key.go
index a2f96ed..a53b533 100644
--- a/public_key.go
+++ b/public_key.go
@@ -179,6 +179,9 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 		cryptoKey := parsedPublicKey.(ssh.CryptoPublicKey)
 		publicCryptoKey := cryptoKey.CryptoPublicKey()
 		rsaKey := publicCryptoKey.(*rsa.PublicKey)
+		if rsaKey.N.Sign() <= 0 {
+			return errors.ErrPublicKeyParse.WithArgs(fmt.Errorf("RSA modulus is not a positive number"))
+		}
 		rsaKeyASN1, err := x509.MarshalPKIXPublicKey(rsaKey)
 		if err != nil {
 			return errors.ErrPublicKeyParse.WithArgs(err)
-- 
2.43.0


From 65ffebc1a34fef961584695dbf54f016223a40b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 30/44] fix: refuse full names of which one part is missing

---
 name.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/name.go b/name.go
index 83d31db..686f498 100644
--- a/name.go
+++ b/name.go
@@ -77,6 +77,9 @@ func ParseName(s string) (*Name, error) {
 		if len(arr) == 2 {
 			n.Last = strings.TrimSpace(arr[x])
 			n.First = strings.TrimSpace(arr[y])
+			if n.Last == "" || n.First == "" {
+				break
+			}
 			return n, nil
 		}
 	}
-- 
2.43.0


From a187e45d25566010dd379ece3fa7899ae1add1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 31/44] fix: compute no hash for a blank password of an
 existing user, as for an unknown one

---
 password.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/password.go b/password.go
index bdd1c6d..dc073f0 100644
--- a/password.go
+++ b/password.go
@@ -96,7 +96,8 @@ func (p *Password) hash(s string) error {
 
 // Match returns true when the provided password matches the user.
 func (p *Password) Match(s string) bool {
-	if strings.IndexByte(s, 0) >= 0 {
+	// No password is hashed that is blank or contains a NUL byte, see hash.
+	if strings.TrimSpace(s) == "" || strings.IndexByte(s, 0) >= 0 {
 		return false
 	}
 	if err := bcrypt.CompareHashAndPassword([]byte(p.Hash), []byte(s)); err == nil {
-- 
2.43.0


From 5e339100f242615c47799dbbb8bba82054f52775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 32/44] fix: report failures of GetUser as ErrGetUser

---
 database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 5791447..70bf889 100644
--- a/database.go
+++ b/database.go
@@ -342,7 +342,7 @@ func (db *Database) GetUser(r *requests.Request) error {
 	defer db.mu.RUnlock()
 	user, err := db.validateUserIdentity(r.User.Username, r.User.Email)
 	if err != nil {
-		return errors.ErrGetUsers.WithArgs(err)
+		return errors.ErrGetUser.WithArgs(r.User.Username, err)
 	}
 	// Hand out a snapshot: the user itself changes with subsequent operations.
 	snapshot := *user
-- 
2.43.0


From 89f014d85df952165fb7dab3b939e5e0f7c9942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 33/44] fix: give random strings of a negative length the
 default length

---
 uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid.go b/uuid.go
index 42b8011..865b07d 100644
--- a/uuid.go
+++ b/uuid.go
@@ -28,7 +28,7 @@ func NewID() string {
 // NewRandomString returns a random string.
 func NewRandomString(length int) string {
 	chars := []rune("abcdefghijklmnopqrstuvwxyz0123456789")
-	if length == 0 {
+	if length < 1 {
 		length = 32
 	}
 	var b strings.Builder
-- 
2.43.0


From 5df22d8c95fae54edd9d4f2a5b0a50d5a7d9107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 34/44] fix: tell exported fields from unexported ones by more
 than their first byte

---
 internal/tag/tag.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tag/tag.go b/internal/tag/tag.go
index e6f187a..c9e59c2 100644
--- a/internal/tag/tag.go
+++ b/internal/tag/tag.go
@@ -19,7 +19,6 @@ import (
 	"github.com/iancoleman/strcase"
 	"reflect"
 	"strings"
-	"unicode"
 )
 
 // Options stores compliance check options.
@@ -54,7 +53,7 @@ func GetTagCompliance(resource interface{}, opts *Options) ([]string, error) {
 	requiredTags := []string{"json", "xml", "yaml"}
 	for i := 0; i < rr.NumField(); i++ {
 		resourceField := rr.Field(i)
-		if !unicode.IsUpper(rune(resourceField.Name[0])) {
+		if resourceField.PkgPath != "" {
 			// Skip internal fields.
 			continue
 		}
-- 
2.43.0


From a852c7dc088d14a12151f7e8091f003172f91a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 35/44] fix: clear the answers of a previous identification

---
 database.go | 6 ++++++
 user.go     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/database.go b/database.go
index 70bf889..7db675c 100644
--- a/database.go
+++ b/database.go
@@ -695,6 +695,12 @@ func (db *Database) IdentifyUser(r *requests.Request) error {
 	if err != nil {
 		r.User.Username = "nobody"
 		r.User.Email = "nobody@localhost"
+		r.User.FullName = ""
+		r.User.Roles = nil
+		if r.Flags.Enabled {
+			// Nobody has a token.
+			new(User).GetFlags(r)
+		}
 		r.User.Challenges = []string{"password"}
 		return nil
 	}
diff --git a/user.go b/user.go
index 7e2dc1a..a53f9dc 100644
--- a/user.go
+++ b/user.go
@@ -535,6 +535,9 @@ func (user *User) DeleteMfaToken(r *requests.Request) error {
 
 // GetFlags populates request context with metadata about a user.
 func (user *User) GetFlags(r *requests.Request) {
+	r.Flags.MfaConfigured = false
+	r.Flags.MfaApp = false
+	r.Flags.MfaUniversal = false
 	for _, token := range user.MfaTokens {
 		if token.Disabled {
 			continue
-- 
2.43.0


From 9113dab8f196203c44bba0d3b7855beff9da7607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 36/44] fix: count the first name as a change of the user

---
 user.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/user.go b/user.go
index a53f9dc..d2a2684 100644
--- a/user.go
+++ b/user.go
@@ -397,6 +397,7 @@ func (user *User) AddName(name *Name) error {
 	if len(user.Names) == 0 {
 		user.Name = name
 		user.Names = append(user.Names, name)
+		user.Revise()
 		return nil
 	}
 	for _, n := range user.Names {
-- 
2.43.0


From 3c06e1d8992c0d6633c7be31b1c01e1c27306753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 37/44] fix: add no roles when one of them is malformed

---
 user.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/user.go b/user.go
index d2a2684..70e287c 100644
--- a/user.go
+++ b/user.go
@@ -266,6 +266,11 @@ func (user *User) HasRole(s string) bool {
 
 // AddRoles adds roles to a user identity.
 func (user *User) AddRoles(roles []string) error {
+	for _, role := range roles {
+		if _, err := NewRole(role); err != nil {
+			return err
+		}
+	}
 	for _, role := range roles {
 		if err := user.AddRole(role); err != nil {
 			return err
-- 
2.43.0


From 8dbe6b703fd0b8eb55fbda71c4a86472e29ae905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 38/44] fix: refuse expired security keys

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 70e287c..c07ac9c 100644
--- a/user.go
+++ b/user.go
@@ -326,7 +326,7 @@ func (user *User) VerifyWebAuthnRequest(r *requests.Request) error {
 		return err
 	}
 	for _, token := range user.MfaTokens {
-		if token.Disabled {
+		if token.Disabled || token.Expired {
 			continue
 		}
 		if token.Type != "u2f" {
-- 
2.43.0


From 36d27c20c93a2a73253c8f04c96bff69bb5262dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 39/44] fix: recognise an SSH key that is stored with a
 prefixed fingerprint

---
 user.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index c07ac9c..d91bdb7 100644
--- a/user.go
+++ b/user.go
@@ -425,7 +425,8 @@ func (user *User) AddPublicKey(r *requests.Request) error {
 		if k.Type != key.Type {
 			continue
 		}
-		if k.Fingerprint != key.Fingerprint {
+		// Earlier versions stored the fingerprint of an SSH key with a prefix.
+		if strings.TrimPrefix(k.Fingerprint, "SHA256:") != key.Fingerprint {
 			continue
 		}
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, "already exists")
-- 
2.43.0


From d67f1fd3854b03f663c3e12bbd0e19190fca6ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 40/44] fix: choose the identity shown for a PGP key by its
 mark and name, not by chance

---
 public_key.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index a53b533..85b0585 100644
--- a/public_key.go
+++ b/public_key.go
@@ -245,9 +245,15 @@ func (p *PublicKey) parsePublicKeyPGP() error {
 	default:
 		return errors.ErrPublicKeyParse.WithArgs(fmt.Errorf("PGP keyring entry has unsupported public key algo %v", pk.PubKeyAlgo))
 	}
+	// The identities are in a map. Prefer the primary one, otherwise take the
+	// first one by name.
+	var found, primary bool
 	for _, u := range kr[0].Identities {
-		user = u.Name
-		break
+		sig := u.SelfSignature
+		isPrimary := sig != nil && sig.IsPrimaryId != nil && *sig.IsPrimaryId
+		if !found || (isPrimary && !primary) || (isPrimary == primary && u.Name < user) {
+			user, primary, found = u.Name, isPrimary, true
+		}
 	}
 	comment = fmt.Sprintf("%s, algo %s, created %s", user, algo, pk.CreationTime.UTC())
 	if p.Comment != "" {
-- 
2.43.0


From bc0494672f6acfbb564a0d499f9a91d4800a60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 41/44] fix: refuse a password cost that is no integer instead
 of crashing

---
 password.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/password.go b/password.go
index dc073f0..f4c012a 100644
--- a/password.go
+++ b/password.go
@@ -51,7 +51,11 @@ func NewPasswordWithOptions(s, purpose, algo string, params map[string]interface
 
 	if params != nil {
 		if v, exists := params["cost"]; exists {
-			p.Cost = v.(int)
+			cost, ok := v.(int)
+			if !ok {
+				return nil, errors.ErrPasswordGenerate.WithArgs("cost is not an integer")
+			}
+			p.Cost = cost
 		}
 	}
 
-- 
2.43.0


From 896088cc853ee247a45019a327bef629ec3a1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 42/44] fix: hand out copies of users, keys and tokens, not the
 records of the database

---
 api_key.go      |  8 ++++++++
 database.go     | 11 +++++------
 email.go        |  8 ++++++++
 image.go        |  8 ++++++++
 location.go     |  8 ++++++++
 lockout.go      |  8 ++++++++
 mfa_token.go    | 26 ++++++++++++++++++++++++++
 name.go         |  8 ++++++++
 organization.go |  9 +++++++++
 password.go     |  8 ++++++++
 public_key.go   |  8 ++++++++
 role.go         |  8 ++++++++
 user.go         | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 13 files changed, 159 insertions(+), 6 deletions(-)

diff --git a/api_key.go b/api_key.go
index d13510a..5c29bde 100644
--- a/api_key.go
+++ b/api_key.go
@@ -108,3 +108,11 @@ func (p *APIKey) Match(s string) bool {
 	}
 	return false
 }
+
+func (p *APIKey) clone() *APIKey {
+	if p == nil {
+		return nil
+	}
+	c := *p
+	return &c
+}
diff --git a/database.go b/database.go
index 7db675c..f16a1a5 100644
--- a/database.go
+++ b/database.go
@@ -344,9 +344,8 @@ func (db *Database) GetUser(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrGetUser.WithArgs(r.User.Username, err)
 	}
-	// Hand out a snapshot: the user itself changes with subsequent operations.
-	snapshot := *user
-	r.Response.Payload = &snapshot
+	// Hand out a copy: the user itself changes with subsequent operations.
+	r.Response.Payload = user.clone()
 	return nil
 }
 
@@ -548,7 +547,7 @@ func (db *Database) GetPublicKeys(r *requests.Request) error {
 		if k.Disabled {
 			continue
 		}
-		bundle.Add(k)
+		bundle.Add(k.clone())
 	}
 	r.Response.Payload = bundle
 	return nil
@@ -657,7 +656,7 @@ func (db *Database) GetAPIKeys(r *requests.Request) error {
 		if k.Disabled {
 			continue
 		}
-		bundle.Add(k)
+		bundle.Add(k.clone())
 	}
 	r.Response.Payload = bundle
 	return nil
@@ -773,7 +772,7 @@ func (db *Database) GetMfaTokens(r *requests.Request) error {
 		if token.Disabled {
 			continue
 		}
-		bundle.Add(token)
+		bundle.Add(token.clone())
 	}
 	r.Response.Payload = bundle
 	return nil
diff --git a/email.go b/email.go
index 1ee7f24..e6d4832 100644
--- a/email.go
+++ b/email.go
@@ -63,3 +63,11 @@ func (m *EmailAddress) Primary() bool {
 func (m *EmailAddress) ToString() string {
 	return m.Address
 }
+
+func (m *EmailAddress) clone() *EmailAddress {
+	if m == nil {
+		return nil
+	}
+	c := *m
+	return &c
+}
diff --git a/image.go b/image.go
index 948d462..dcbf09a 100644
--- a/image.go
+++ b/image.go
@@ -31,3 +31,11 @@ type Image struct {
 func NewImage() *Image {
 	return &Image{}
 }
+
+func (i *Image) clone() *Image {
+	if i == nil {
+		return nil
+	}
+	c := *i
+	return &c
+}
diff --git a/location.go b/location.go
index 3c8b4ea..324f366 100644
--- a/location.go
+++ b/location.go
@@ -31,3 +31,11 @@ type Location struct {
 func NewLocation() *Location {
 	return &Location{}
 }
+
+func (l *Location) clone() *Location {
+	if l == nil {
+		return nil
+	}
+	c := *l
+	return &c
+}
diff --git a/lockout.go b/lockout.go
index 09cfefe..01d44d2 100644
--- a/lockout.go
+++ b/lockout.go
@@ -31,3 +31,11 @@ type LockoutState struct {
 func NewLockoutState() *LockoutState {
 	return &LockoutState{}
 }
+
+func (l *LockoutState) clone() *LockoutState {
+	if l == nil {
+		return nil
+	}
+	c := *l
+	return &c
+}
diff --git a/mfa_token.go b/mfa_token.go
index e3b640e..926621a 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -604,3 +604,29 @@ func (r *WebAuthnAuthenticateRequest) unpackAuthData(b []byte) error {
 	r.AuthData = data
 	return nil
 }
+
+func (p *MfaToken) clone() *MfaToken {
+	if p == nil {
+		return nil
+	}
+	pubkeyMu.Lock()
+	c := *p
+	pubkeyMu.Unlock()
+	if p.Device != nil {
+		device := *p.Device
+		c.Device = &device
+	}
+	if p.Parameters != nil {
+		c.Parameters = make(map[string]string)
+		for k, v := range p.Parameters {
+			c.Parameters[k] = v
+		}
+	}
+	if p.Flags != nil {
+		c.Flags = make(map[string]bool)
+		for k, v := range p.Flags {
+			c.Flags[k] = v
+		}
+	}
+	return &c
+}
diff --git a/name.go b/name.go
index 686f498..cb1ae81 100644
--- a/name.go
+++ b/name.go
@@ -85,3 +85,11 @@ func ParseName(s string) (*Name, error) {
 	}
 	return nil, errors.ErrParseNameFailed.WithArgs(s)
 }
+
+func (n *Name) clone() *Name {
+	if n == nil {
+		return nil
+	}
+	c := *n
+	return &c
+}
diff --git a/organization.go b/organization.go
index 7607ded..b21b141 100644
--- a/organization.go
+++ b/organization.go
@@ -25,3 +25,12 @@ type Organization struct {
 func NewOrganization() *Organization {
 	return &Organization{}
 }
+
+func (o *Organization) clone() *Organization {
+	if o == nil {
+		return nil
+	}
+	c := *o
+	c.Aliases = append([]string(nil), o.Aliases...)
+	return &c
+}
diff --git a/password.go b/password.go
index f4c012a..1d191f9 100644
--- a/password.go
+++ b/password.go
@@ -109,3 +109,11 @@ func (p *Password) Match(s string) bool {
 	}
 	return false
 }
+
+func (p *Password) clone() *Password {
+	if p == nil {
+		return nil
+	}
+	c := *p
+	return &c
+}
diff --git a/public_key.go b/public_key.go
index 85b0585..926ed68 100644
--- a/public_key.go
+++ b/public_key.go
@@ -295,3 +295,11 @@ func (p *PublicKey) parsePublicKeyRSA() error {
 	p.OpenSSH = strings.TrimSpace(strings.TrimLeft(p.OpenSSH, p.Type+" "))
 	return nil
 }
+
+func (p *PublicKey) clone() *PublicKey {
+	if p == nil {
+		return nil
+	}
+	c := *p
+	return &c
+}
diff --git a/role.go b/role.go
index 0beee38..1eea5f3 100644
--- a/role.go
+++ b/role.go
@@ -52,3 +52,11 @@ func (r *Role) String() string {
 	}
 	return r.Organization + "/" + r.Name
 }
+
+func (r *Role) clone() *Role {
+	if r == nil {
+		return nil
+	}
+	c := *r
+	return &c
+}
diff --git a/user.go b/user.go
index d91bdb7..475ead8 100644
--- a/user.go
+++ b/user.go
@@ -604,6 +604,53 @@ func (user *User) GetChallenges() []string {
 	return challenges
 }
 
+// clone returns a copy of the user which shares no data with it.
+func (user *User) clone() *User {
+	c := *user
+	c.Name = user.Name.clone()
+	c.Names = nil
+	for _, entry := range user.Names {
+		c.Names = append(c.Names, entry.clone())
+	}
+	c.Organization = user.Organization.clone()
+	c.Organizations = nil
+	for _, entry := range user.Organizations {
+		c.Organizations = append(c.Organizations, entry.clone())
+	}
+	c.StreetAddress = nil
+	for _, entry := range user.StreetAddress {
+		c.StreetAddress = append(c.StreetAddress, entry.clone())
+	}
+	c.EmailAddress = user.EmailAddress.clone()
+	c.EmailAddresses = nil
+	for _, entry := range user.EmailAddresses {
+		c.EmailAddresses = append(c.EmailAddresses, entry.clone())
+	}
+	c.Passwords = nil
+	for _, entry := range user.Passwords {
+		c.Passwords = append(c.Passwords, entry.clone())
+	}
+	c.PublicKeys = nil
+	for _, entry := range user.PublicKeys {
+		c.PublicKeys = append(c.PublicKeys, entry.clone())
+	}
+	c.APIKeys = nil
+	for _, entry := range user.APIKeys {
+		c.APIKeys = append(c.APIKeys, entry.clone())
+	}
+	c.MfaTokens = nil
+	for _, entry := range user.MfaTokens {
+		c.MfaTokens = append(c.MfaTokens, entry.clone())
+	}
+	c.Lockout = user.Lockout.clone()
+	c.Avatar = user.Avatar.clone()
+	c.Roles = nil
+	for _, entry := range user.Roles {
+		c.Roles = append(c.Roles, entry.clone())
+	}
+	return &c
+}
+
 // Revise increments revision number and last modified timestamp.
 func (user *User) Revise() {
 	user.Revision++
-- 
2.43.0


From b15fa0ed5c12f11bcc00ce42fea2769d9cf6ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 43/44] fix: refuse texts that the database file cannot hold

---
 pkg/errors/database.go |  1 +
 user.go                | 30 ++++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 267c0e9..597cf04 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -59,6 +59,7 @@ const (
 	ErrUsernameEmpty       StandardError = "username is empty"
 	ErrUserNull            StandardError = "user is null"
 	ErrUserNullEntry       StandardError = "null entry in user %s"
+	ErrTextInvalid         StandardError = "text is not valid UTF-8"
 
 	ErrEmailAddressInvalid StandardError = "invalid email address"
 	ErrRoleEmpty           StandardError = "role name is empty"
diff --git a/user.go b/user.go
index 475ead8..8723c82 100644
--- a/user.go
+++ b/user.go
@@ -19,6 +19,7 @@ import (
 	"github.com/greenpau/go-identity/pkg/requests"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 // UserMetadata is metadata associated with a user.
@@ -175,6 +176,26 @@ func (user *User) Valid() error {
 			return errors.ErrUserNullEntry.WithArgs("roles")
 		}
 	}
+	texts := []string{user.Username}
+	for _, entry := range user.Names {
+		if entry != nil {
+			texts = append(texts, entry.First, entry.Last)
+		}
+	}
+	for _, entry := range user.Roles {
+		texts = append(texts, entry.Organization, entry.Name)
+	}
+	return checkText(texts...)
+}
+
+// checkText returns an error if any of the texts is not valid UTF-8, because
+// the database file cannot hold it: it would read back as a different text.
+func checkText(texts ...string) error {
+	for _, s := range texts {
+		if !utf8.ValidString(s) {
+			return errors.ErrTextInvalid
+		}
+	}
 	return nil
 }
 
@@ -421,6 +442,9 @@ func (user *User) AddPublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
+	if err := checkText(key.Comment, key.Payload); err != nil {
+		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
+	}
 	for _, k := range user.PublicKeys {
 		if k.Type != key.Type {
 			continue
@@ -461,6 +485,9 @@ func (user *User) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	if err := checkText(key.Comment); err != nil {
+		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
+	}
 	user.APIKeys = append(user.APIKeys, key)
 	user.Revise()
 	return nil
@@ -508,6 +535,9 @@ func (user *User) AddMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
+	if err := checkText(token.Comment, token.Secret); err != nil {
+		return errors.ErrAddMfaToken.WithArgs(err)
+	}
 	for _, k := range user.MfaTokens {
 		if k.Secret == token.Secret {
 			return errors.ErrAddMfaToken.WithArgs(errors.ErrDuplicateMfaTokenSecret)
-- 
2.43.0


From 34d03ce7e853fd5003e856687b85ac3bd88edb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:57 +0000
Subject: [PATCH 44/44] fix: write through a symbolic link whose target does
 not exist yet

---
 internal/utils/file.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/internal/utils/file.go b/internal/utils/file.go
index ce113e9..7112501 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -37,14 +37,35 @@ func expandHomePath(fp string) (string, error) {
 	return fp, nil
 }
 
+// followSymlinks returns the path of the file a symbolic link points to, which
+// may not exist yet.
+func followSymlinks(fp string) string {
+	for i := 0; i < 40; i++ {
+		if target, err := filepath.EvalSymlinks(fp); err == nil {
+			return target
+		}
+		target, err := os.Readlink(fp)
+		if err != nil {
+			break
+		}
+		if !filepath.IsAbs(target) {
+			dir, err := filepath.EvalSymlinks(filepath.Dir(fp))
+			if err != nil {
+				break
+			}
+			target = filepath.Join(dir, target)
+		}
+		fp = target
+	}
+	return fp
+}
+
 // WriteFileBytes replaces the contents of a file atomically: after a crash the
 // file holds either its previous or its new contents. It creates the file with
 // the provided permissions, and keeps the permissions of an existing file.
 func WriteFileBytes(fp string, b []byte, perm os.FileMode) error {
 	// Replace the file a symbolic link points to, and not the link.
-	if target, err := filepath.EvalSymlinks(fp); err == nil {
-		fp = target
-	}
+	fp = followSymlinks(fp)
 	existing, err := os.OpenFile(fp, os.O_WRONLY, 0)
 	if err == nil {
 		fileInfo, err := existing.Stat()
-- 
2.43.0

