From d3fa1aa5e772c8ca56001f673dbcaad8ccb5699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 01/15] fix: hash the password as supplied instead of a trimmed
 copy

---
 password.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 7e81482..b9fe29d 100644
--- a/password.go
+++ b/password.go
@@ -70,8 +70,7 @@ func (p *Password) Disable() {
 }
 
 func (p *Password) hash(s string) error {
-	s = strings.TrimSpace(s)
-	if s == "" {
+	if strings.TrimSpace(s) == "" {
 		return errors.ErrPasswordEmpty
 	}
 	switch p.Algorithm {
-- 
2.43.0


From 32af5a06c606e5d8c2d318b40efda86fa4126724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 02/15] fix: refuse lookups with disabled or expired API keys

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index 87e0e15..161246f 100644
--- a/user.go
+++ b/user.go
@@ -444,6 +444,9 @@ func (user *User) DeleteAPIKey(r *requests.Request) error {
 func (user *User) LookupAPIKey(r *requests.Request) error {
 	for _, k := range user.APIKeys {
 		if k.Prefix == r.Key.Prefix {
+			if k.Disabled || k.Expired {
+				return errors.ErrLookupAPIKeyFailed
+			}
 			if k.Match(r.Key.Payload) {
 				return nil
 			}
-- 
2.43.0


From 79c73c569db44764ea895e5144e2c873cc191e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 03/15] fix: generate another API key when its prefix is
 already in use

---
 database.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 19b834e..b7d6d8b 100644
--- a/database.go
+++ b/database.go
@@ -544,9 +544,9 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
-	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
 	for {
+		s := GetRandomStringFromRange(72, 96)
 		hk, err := NewPassword(s)
 		if err != nil {
 			if failCount > 10 {
@@ -557,6 +557,10 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 		}
 		keyPrefix := string(s[:24])
 		if _, exists := db.refAPIKey[keyPrefix]; exists {
+			if failCount > 10 {
+				return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, "key prefix already in use")
+			}
+			failCount++
 			continue
 		}
 		r.Response.Payload = s
-- 
2.43.0


From 9e4312511f07e78e58895b904c25673924f3950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 04/15] fix: do not panic on unexpected value types in a
 webauthn public key

---
 mfa_token.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 8980581..6e41b81 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -223,8 +223,8 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#key-type
 		var keyType string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["key_type"]; exists {
-			switch v.(float64) {
-			case 2:
+			switch v {
+			case float64(2):
 				keyType = "ec2"
 			default:
 				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(v)
@@ -236,8 +236,8 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#algorithms
 		var keyAlgo string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["algorithm"]; exists {
-			switch v.(float64) {
-			case -7:
+			switch v {
+			case float64(-7):
 				keyAlgo = "es256"
 			default:
 				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(v)
@@ -249,18 +249,26 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#elliptic-curves
 		var curveType, curveXcoord, curveYcoord string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; exists {
-			switch v.(float64) {
-			case 1:
+			switch v {
+			case float64(1):
 				curveType = "p256"
 			default:
 				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(v)
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-			curveXcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x", "not a string")
+			}
+			curveXcoord = coord
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_y"]; exists {
-			curveYcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("y", "not a string")
+			}
+			curveYcoord = coord
 		}
 
 		switch keyType {
-- 
2.43.0


From 0631e46da9dc61e68064a22b587982ef4b7e369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 05/15] fix: read the database path under the lock

---
 database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database.go b/database.go
index b7d6d8b..8d2a7b7 100644
--- a/database.go
+++ b/database.go
@@ -244,6 +244,8 @@ func (db *Database) checkPasswordPolicyCompliance(s string) error {
 
 // GetPath returns the path  to Database.
 func (db *Database) GetPath() string {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	return db.path
 }
 
-- 
2.43.0


From b06ca208e199729df4d523543adfb21f5e0ca74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 06/15] fix: do not modify an MFA token while authenticating
 under a read lock

---
 mfa_token.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 6e41b81..ecb630d 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -61,7 +61,6 @@ type MfaToken struct {
 	Parameters       map[string]string `json:"parameters,omitempty" xml:"parameters,omitempty" yaml:"parameters,omitempty"`
 	Flags            map[string]bool   `json:"flags,omitempty" xml:"flags,omitempty" yaml:"flags,omitempty"`
 	SignatureCounter uint32            `json:"signature_counter,omitempty" xml:"signature_counter,omitempty" yaml:"signature_counter,omitempty"`
-	pubkey           *ecdsa.PublicKey
 }
 
 // MfaDevice is the hardware device associated with MfaToken.
@@ -313,13 +312,14 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 		}
 	}
 
+	var pubkey *ecdsa.PublicKey
 	switch p.Parameters["key_type"] {
 	case "ec2":
-		if p.pubkey == nil {
-			if err := p.derivePublicKey(p.Parameters); err != nil {
-				return nil, err
-			}
+		k, err := p.derivePublicKey(p.Parameters)
+		if err != nil {
+			return nil, err
 		}
+		pubkey = k
 	default:
 		return nil, errors.ErrWebAuthnRequest.WithArgs("unsupported key type")
 	}
@@ -420,7 +420,7 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 	// Verify signature.
 	signedData := append(authDataBytes, clientDataHash[:]...)
 	crt := &x509.Certificate{
-		PublicKey: p.pubkey,
+		PublicKey: pubkey,
 	}
 
 	switch p.Parameters["key_algo"] {
@@ -514,10 +514,10 @@ func generateMfaCode(secret, algo string, digits int, ts uint64) (string, error)
 	return fmt.Sprintf(wrap, mod), nil
 }
 
-func (p *MfaToken) derivePublicKey(params map[string]string) error {
+func (p *MfaToken) derivePublicKey(params map[string]string) (*ecdsa.PublicKey, error) {
 	for _, reqParam := range []string{"curve_xcoord", "curve_ycoord", "key_algo"} {
 		if _, exists := params[reqParam]; !exists {
-			return errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
+			return nil, errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
 		}
 	}
 
@@ -526,10 +526,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 		coord := "curve_" + ltr + "coord"
 		b, err := base64.StdEncoding.DecodeString(params[coord])
 		if err != nil {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
 		}
 		if len(b) != 32 {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
 		}
 		i := new(big.Int)
 		i.SetBytes(b)
@@ -538,11 +538,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 
 	switch params["key_algo"] {
 	case "es256":
-		p.pubkey = &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}
+		return &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}, nil
 	default:
-		return errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
+		return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
 	}
-	return nil
 }
 
 func (r *WebAuthnAuthenticateRequest) unpackAuthData(b []byte) error {
-- 
2.43.0


From c3503312bf8fe13fb5d6434c08a04167e73f36ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 07/15] fix: refuse database files with empty user or
 credential entries

---
 database.go            |  3 +++
 pkg/errors/database.go |  1 +
 user.go                | 40 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+)

diff --git a/database.go b/database.go
index 8d2a7b7..827723b 100644
--- a/database.go
+++ b/database.go
@@ -156,6 +156,9 @@ func NewDatabase(fp string) (*Database, error) {
 	db.Version = app.Version
 
 	for _, user := range db.Users {
+		if user == nil {
+			return nil, errors.ErrNewDatabase.WithArgs(fp, "found empty user entry")
+		}
 		if err := user.Valid(); err != nil {
 			return nil, errors.ErrNewDatabaseInvalidUser.WithArgs(user, err)
 		}
diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 89755c4..7d968c8 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -57,6 +57,7 @@ const (
 
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
 	ErrUsernameEmpty       StandardError = "username is empty"
+	ErrUserEntryEmpty      StandardError = "found empty %s entry"
 
 	ErrEmailAddressInvalid StandardError = "invalid email address"
 	ErrRoleEmpty           StandardError = "role name is empty"
diff --git a/user.go b/user.go
index 161246f..2e8f02e 100644
--- a/user.go
+++ b/user.go
@@ -142,6 +142,46 @@ func (user *User) Valid() error {
 	if len(user.Passwords) < 1 {
 		return errors.ErrUserPasswordNotFound
 	}
+	return user.validEntries()
+}
+
+// validEntries returns an error if any of the user's records is empty.
+func (user *User) validEntries() error {
+	for _, p := range user.Passwords {
+		if p == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("password")
+		}
+	}
+	for _, e := range user.EmailAddresses {
+		if e == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("email address")
+		}
+	}
+	for _, n := range user.Names {
+		if n == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("name")
+		}
+	}
+	for _, r := range user.Roles {
+		if r == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("role")
+		}
+	}
+	for _, k := range user.PublicKeys {
+		if k == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("public key")
+		}
+	}
+	for _, k := range user.APIKeys {
+		if k == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("api key")
+		}
+	}
+	for _, t := range user.MfaTokens {
+		if t == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("mfa token")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From d039b5e3f22e891f68841a4b37396123afff3a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 08/15] fix: support a random string range with equal bounds

---
 random.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/random.go b/random.go
index 750127d..0f8f65f 100644
--- a/random.go
+++ b/random.go
@@ -48,6 +48,8 @@ func GetRandomStringFromRange(a, b int) string {
 	var i int
 	if a > b {
 		i = rand.Intn(a-b) + b
+	} else if a == b {
+		i = a
 	} else {
 		i = rand.Intn(b-a) + a
 	}
-- 
2.43.0


From 895efaf26cc97a8aa4ff00f5f84d3890c82ffed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 09/15] fix: read the database from the path it is written to

---
 database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/database.go b/database.go
index 827723b..fd4d8be 100644
--- a/database.go
+++ b/database.go
@@ -17,7 +17,6 @@ package identity
 import (
 	"encoding/json"
 	"fmt"
-	"github.com/greenpau/go-identity/internal/utils"
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
 	"github.com/greenpau/versioned"
@@ -137,7 +136,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if fileInfo.IsDir() {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, "path points to a directory")
 		}
-		b, err := utils.ReadFileBytes(fp)
+		b, err := ioutil.ReadFile(fp)
 		if err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-- 
2.43.0


From c48d97a6d84e2c6ee1b930852d068df796778d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 10/15] fix: refuse a new user when no unused user id was found

---
 database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database.go b/database.go
index fd4d8be..97a759c 100644
--- a/database.go
+++ b/database.go
@@ -275,6 +275,9 @@ func (db *Database) AddUser(r *requests.Request) error {
 			break
 		}
 	}
+	if _, exists := db.refID[user.ID]; exists {
+		return errors.ErrAddUser.WithArgs(user.Username, "user id already in use")
+	}
 	username := strings.ToLower(user.Username)
 	if _, exists := db.refUsername[username]; exists {
 		return errors.ErrAddUser.WithArgs(username, "username already in use")
-- 
2.43.0


From 14e0c3d7612788e1180243cbeab823e57a89c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 11/15] fix: find users by short usernames and email addresses

---
 database.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/database.go b/database.go
index 97a759c..3967868 100644
--- a/database.go
+++ b/database.go
@@ -408,9 +408,6 @@ func (db *Database) getUserByID(s string) (*User, error) {
 
 // getUserByUsername returns a user by username
 func (db *Database) getUserByUsername(s string) (*User, error) {
-	if len(s) < 2 {
-		return nil, errors.ErrDatabaseUserNotFound
-	}
 	s = strings.ToLower(s)
 	user, exists := db.refUsername[s]
 	if exists && user != nil {
@@ -422,9 +419,6 @@ func (db *Database) getUserByUsername(s string) (*User, error) {
 // getUserByEmailAddress returns a liast of users associated with a specific email
 // address.
 func (db *Database) getUserByEmailAddress(s string) (*User, error) {
-	if len(s) < 6 {
-		return nil, errors.ErrDatabaseUserNotFound
-	}
 	s = strings.ToLower(s)
 	user, exists := db.refEmailAddress[s]
 	if exists && user != nil {
-- 
2.43.0


From e046cf0fe556cd38f31505800128e4395732b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 12/15] fix: compare email addresses of a user ignoring letter
 case

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 2e8f02e..24aebd7 100644
--- a/user.go
+++ b/user.go
@@ -225,7 +225,7 @@ func (user *User) AddEmailAddress(s string) error {
 		return nil
 	}
 	for _, e := range user.EmailAddresses {
-		if email.Address == e.Address {
+		if strings.ToLower(email.Address) == strings.ToLower(e.Address) {
 			return nil
 		}
 	}
-- 
2.43.0


From c70cc8c6997aeef34f2d0ce89c9e788508d345a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 13/15] fix: refuse passcodes of tokens without a positive
 period

---
 mfa_token.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mfa_token.go b/mfa_token.go
index ecb630d..ace929f 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -466,6 +466,9 @@ func (p *MfaToken) ValidateCodeWithTime(code string, ts time.Time) error {
 	if len(code) != p.Digits {
 		return errors.ErrMfaTokenInvalidPasscode.WithArgs("digits length mismatch")
 	}
+	if p.Period < 1 {
+		return errors.ErrMfaTokenInvalidPeriod.WithArgs(p.Period)
+	}
 	tp := uint64(math.Floor(float64(ts.Unix()) / float64(p.Period)))
 	tps := []uint64{}
 	tps = append(tps, tp)
-- 
2.43.0


From a1c1042e42604ec9e7c9ac2256ac9c1848932782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 14/15] fix: guard the source of random strings against
 concurrent use

GetRandomString and GetRandomStringFromRange share one rand.Rand, which is
not safe for concurrent use: two databases adding API keys at the same time
can crash with an index out of range or issue equal keys.
---
 random.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/random.go b/random.go
index 0f8f65f..d64185e 100644
--- a/random.go
+++ b/random.go
@@ -16,6 +16,7 @@ package identity
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
@@ -26,8 +27,13 @@ var seed *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()),
 )
 
+// seedMu guards seed: unlike the global source, it is not safe for concurrent use.
+var seedMu sync.Mutex
+
 func gen(length int, charset string) string {
 	b := make([]byte, length)
+	seedMu.Lock()
+	defer seedMu.Unlock()
 	for i := range b {
 		b[i] = charset[seed.Intn(len(charset))]
 	}
-- 
2.43.0


From a12ec8ae8b964ecaf2f04b9306933c5d6e5cea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 15/15] fix: refuse a U2F registration whose public key
 parameters are null

---
 mfa_token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index ace929f..bc78559 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -226,7 +226,7 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			case float64(2):
 				keyType = "ec2"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyTypeNotFound
@@ -239,7 +239,7 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			case float64(-7):
 				keyAlgo = "es256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmNotFound
@@ -252,7 +252,7 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			case float64(1):
 				curveType = "p256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-- 
2.43.0

