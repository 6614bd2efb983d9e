package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

func compare(h, s string) bool { return bcrypt.CompareHashAndPassword([]byte(h), []byte(s)) == nil }

func b64Decode(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }

// junk is a string a request may carry.
func (w *world) junk() string {
	switch w.Intn(9) {
	case 0:
		return ""
	case 1:
		return w.text()
	case 2:
		return strings.Repeat(w.pick("a", "@", "/", " ", "\x00", "\xff"), w.Intn(200))
	case 3:
		return b64([]byte(w.pick("null", "[]", "{}", "1", `{"id":null}`, `{"id":1}`, `{"id":"keyid-a","client_data_encoded":"bnVsbA==","auth_data_encoded":"AAAA","signature_encoded":"AAAA"}`, `{"id":"a","type":"public-key","attestationObject":{"authData":{"rpIdHash":"x","flags":{},"credentialData":{"publicKey":{"key_type":2,"algorithm":-7,"curve_x":1,"curve_y":{}}}}}}`)))
	case 4:
		return w.pick(userPool...)
	case 5:
		return w.pick(mailPool...)
	case 6:
		k := pubs[w.Intn(len(pubs))].payload
		i := w.Intn(len(k) + 1)
		return k[:i] + w.pick("", "!", " ", "\n") + k[min(len(k), i+w.Intn(3)):]
	case 7:
		return w.pick("ssh-rsa ", "ssh-rsa \t", "ssh-rsa  AAAA", "ssh-rsa AAAAC3NzaC1lZDI1NTE5AAAAIAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "RSA PUBLIC KEY", "-----BEGIN RSA PUBLIC KEY-----\n-----END RSA PUBLIC KEY-----", "-----BEGIN PGP PUBLIC KEY BLOCK----------END PGP PUBLIC KEY BLOCK-----", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n=AAAA\n-----END PGP PUBLIC KEY BLOCK-----", "BEGIN PGP PUBLIC KEY BLOCK")
	}
	return w.word(w.Intn(120))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (w *world) num() int {
	return []int{0, 1, -1, 4, 6, 8, 9, 30, 300, 301, 1 << 30, -1 << 31, 1 << 62, -1 << 63, w.Intn(1000)}[w.Intn(15)]
}

// nasty makes any request of any operation.
func (w *world) nasty() {
	r := requests.NewRequest()
	if w.Intn(4) > 0 {
		r.User.Username, r.User.Email = w.who()
	} else {
		r.User.Username, r.User.Email = w.junk(), w.junk()
	}
	r.User.Password, r.User.OldPassword, r.User.FullName = w.pick(w.junk(), "secretpw1"), w.pick(w.junk(), "secretpw1"), w.junk()
	for i := w.Intn(3); i > 0; i-- {
		r.User.Roles = append(r.User.Roles, w.junk())
	}
	r.Query.ID = w.junk()
	r.Key.ID, r.Key.Prefix, r.Key.Comment, r.Key.Usage, r.Key.Payload = w.junk(), w.junk(), w.pick("c", w.junk()), w.pick("ssh", "gpg", "api", w.junk()), w.junk()
	r.Key.Disabled = w.Intn(2) == 0
	t := &r.MfaToken
	t.ID, t.Comment, t.Type, t.Secret, t.Algorithm, t.Passcode = w.junk(), w.junk(), w.pick("totp", "u2f", w.junk()), w.junk(), w.pick("sha1", "sha512", "", w.junk()), w.pick("000000", "1234", w.junk())
	t.Period, t.Digits = w.num(), w.num()
	r.WebAuthn.Register, r.WebAuthn.Challenge, r.WebAuthn.Request = w.junk(), w.junk(), w.junk()
	if w.Intn(2) == 0 {
		r.WebAuthn.Register, _, _, _, _ = w.registration()
	}
	if w.Intn(3) == 0 {
		r.Key.Payload = w.pick("", apis[0].plain[:24]) + w.word(w.pickInt(w.Intn(80), w.Intn(80), 20+w.Intn(6), 70+w.Intn(4)))
	}
	r.Flags.Enabled = w.Intn(2) == 0
	db := w.db
	name := w.pick("AddUser", "AuthenticateUser", "AuthenticateUser", "IdentifyUser", "ChangeUserPassword", "LookupAPIKey", "AddAPIKey", "DeleteAPIKey", "AddPublicKey", "AddPublicKey", "DeletePublicKey", "AddMfaToken", "AddMfaToken", "DeleteMfaToken", "GetUser", "GetUsers", "GetPublicKeys", "GetAPIKeys", "GetMfaTokens", "DeleteUser")
	if name == "AuthenticateUser" && w.Intn(2) == 0 {
		r.User.Password = ""
		r.User.Username = w.login()
	}
	if name == "AddUser" && strings.Contains(r.User.Username, "@") {
		return
	}
	f := map[string]func(*requests.Request) error{"AddUser": db.AddUser, "AuthenticateUser": db.AuthenticateUser, "IdentifyUser": db.IdentifyUser, "ChangeUserPassword": db.ChangeUserPassword, "LookupAPIKey": db.LookupAPIKey, "AddAPIKey": db.AddAPIKey, "DeleteAPIKey": db.DeleteAPIKey, "AddPublicKey": db.AddPublicKey, "DeletePublicKey": db.DeletePublicKey, "AddMfaToken": db.AddMfaToken, "DeleteMfaToken": db.DeleteMfaToken, "GetUser": db.GetUser, "GetUsers": db.GetUsers, "GetPublicKeys": db.GetPublicKeys, "GetAPIKeys": db.GetAPIKeys, "GetMfaTokens": db.GetMfaTokens, "DeleteUser": db.DeleteUser}[name]
	writes := strings.HasPrefix(name, "Add") || strings.HasPrefix(name, "Delete") || strings.HasPrefix(name, "Change")
	bin := false
	b, _ := json.Marshal(r)
	var back requests.Request
	if json.Unmarshal(b, &back); !same(back.User, r.User) || !same(back.Key, r.Key) || !same(back.MfaToken, r.MfaToken) || !same(back.WebAuthn, r.WebAuthn) {
		bin = true // not valid UTF-8
	}
	if writes && bin {
		if w.guarded(name, func() { f(r) }) {
			w.dead = true // what is saved differs from what is in memory
		}
		return
	}
	w.do(name, r, writes, func() error { return f(r) })
	if writes {
		// keys issued or deleted here are not followed
		s := snapshot(w.db)
		for _, k := range w.keys {
			found := false
			for _, u := range s.Users {
				for _, a := range u.APIKeys {
					found = found || a.ID == k.id
				}
			}
			if !found {
				k.erased = true
			}
		}
	}
}

// openNasty opens a damaged database file.
func (w *world) openNasty() {
	base := w.file
	if w.Intn(2) == 0 {
		if d, _ := w.stat(w.path); d != "" {
			base = d
		}
	}
	var v interface{}
	data := base
	switch w.Intn(6) {
	case 0:
		data = data[:w.Intn(len(data)+1)]
	case 1:
		data = w.pick("", "null", "[]", "{}", "1", `"x"`, `{"users":null}`, `{"users":[null]}`, `{"users":[{}]}`, `{"users":{}}`, `{"policy":null}`, "\xff", `{"Users":[{"id":"000000000000000000000000000000000000","username":"a","passwords":[null]}]}`)
	default:
		if json.Unmarshal([]byte(base), &v) != nil {
			return
		}
		for i := 1 + w.Intn(3); i > 0; i-- {
			v = w.mutate(v, 0)
		}
		b, _ := json.Marshal(v)
		data = string(b)
	}
	p := filepath.Join(w.dir, fmt.Sprintf("nasty%d.json", w.Intn(1000000)))
	if err := os.WriteFile(p, []byte(data), 0600); err != nil {
		return
	}
	defer os.Remove(p)
	w.ops = append(w.ops, "NewDatabase of "+clipTo(data, 6000))
	var db *identity.Database
	var err error
	if !w.guarded("NewDatabase of "+clipTo(data, 3000), func() { db, err = identity.NewDatabase(p) }) {
		return
	}
	w.count(fmt.Sprintf("damaged file opened=%v", err == nil))
	w.must("C16", (db == nil) == (err != nil), "result", "NewDatabase returns database %v and error %v", db != nil, err)
	if err != nil || db == nil {
		w.ops = w.ops[:len(w.ops)-1]
		return
	}
	if bad := snapshot(db).clashes(); bad != "" {
		p := "C01"
		if strings.HasPrefix(bad, "api key prefix") {
			p = "C06"
		}
		w.must(p, false, "openclash", "a file is opened although %s", bad)
		return
	}
	if len(db.Users) == 0 || w.prop != "C16" {
		w.ops = w.ops[:len(w.ops)-1]
		return
	}
	// use it
	old, oldPath := w.db, w.path
	w.db, w.path = db, p
	for i := 0; i < 12 && !w.dead && !w.over(); i++ {
		switch w.Intn(5) {
		case 0:
			w.identifyAny()
		default:
			w.nasty()
		}
	}
	w.db, w.path = old, oldPath
	w.dead = true
}

func (w *world) identifyAny() {
	r := requests.NewRequest()
	r.User.Username, r.Flags.Enabled = w.login(), true
	w.guarded("IdentifyUser", func() { w.db.IdentifyUser(r) })
	w.guarded("GetUserCount", func() { w.db.GetUserCount() })
}

// mutate damages a JSON value somewhere.
func (w *world) mutate(v interface{}, depth int) interface{} {
	repl := func() interface{} {
		return []interface{}{nil, nil, nil, "", "x", 0.0, -1.0, 1e300, 2.0, true, []interface{}{}, []interface{}{nil}, map[string]interface{}{}, map[string]interface{}{"id": nil}}[w.Intn(14)]
	}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) == 0 || depth > 0 && w.Intn(8) == 0 {
			return repl()
		}
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sortStrings(ks)
		k := ks[w.Intn(len(ks))]
		if _, ok := x["users"]; ok && depth == 0 && w.Intn(4) > 0 {
			k = "users"
		}
		switch w.Intn(12) {
		case 0:
			delete(x, k)
		default:
			x[k] = w.mutate(x[k], depth+1)
		}
		return x
	case []interface{}:
		if len(x) == 0 {
			return repl()
		}
		i := w.Intn(len(x))
		switch w.Intn(12) {
		case 0:
			return append(x, nil)
		case 1:
			return append(x, x[i])
		case 2:
			return repl()
		}
		x[i] = w.mutate(x[i], depth+1)
		return x
	}
	if w.Intn(3) == 0 {
		return v
	}
	return repl()
}
func sortStrings(s []string) { sort.Strings(s) }
