package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/greenpau/go-identity"
	"golang.org/x/crypto/bcrypt"
	"golang.org/x/crypto/openpgp"
	"golang.org/x/crypto/openpgp/armor"
	"golang.org/x/crypto/ssh"
)

// ---- material shared by all workers ----

type secret struct{ plain, hash string }

// pubkey is public key material in one format.
type pubkey struct {
	name, payload, usage string
	rsaBlock             bool
	comment              string // a comment in the payload
	pgp                  bool
}

type authKey struct {
	priv *ecdsa.PrivateKey
	x, y string
}

var (
	once      sync.Once
	passwords []secret
	apis      []secret
	pubs      []pubkey
	akeys     []authKey
)

func hash4(s string) string {
	h, err := bcrypt.GenerateFromPassword([]byte(s), 4)
	if err != nil {
		panic(err)
	}
	return string(h)
}

func material() {
	for _, p := range []string{"secretpw1", "Secretpw1", "secretpw1 ", "anotherpw", "p\u00e4ssw\u00f6rd", "\tsecretpw1", "12345678", "bcrypthash"} {
		passwords = append(passwords, secret{p, hash4(p)})
	}
	for i, p := range []string{"K", "k", "Zq", "9x", "Mm"} {
		s := strings.Repeat(p, 96)[:72+i]
		apis = append(apis, secret{s, hash4(s)})
	}
	// the same prefix as the first, another key
	s := apis[0].plain[:24] + strings.Repeat("d", 50)
	apis = append(apis, secret{s, hash4(s)})
	for i := 0; i < 3; i++ {
		k, err := rsa.GenerateKey(crand.Reader, 1024)
		if err != nil {
			panic(err)
		}
		der, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
		n := fmt.Sprintf("rsa%d", i)
		blk := string(pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der}))
		pubs = append(pubs, pubkey{n + "/pem", blk, "ssh", true, "", false}, pubkey{n + "/pem", "\n " + blk + "\n", "ssh", true, "", false})
		sk, err := ssh.NewPublicKey(&k.PublicKey)
		if err != nil {
			panic(err)
		}
		line := strings.TrimSpace(string(ssh.MarshalAuthorizedKey(sk)))
		pubs = append(pubs, pubkey{n + "/ssh", line, "ssh", false, "", false}, pubkey{n + "/ssh", line + " user@host x", "ssh", false, "user@host x", false})
	}
	if e, err := openpgp.NewEntity("Jane", "test", "jane@example.com", nil); err == nil {
		for _, id := range e.Identities {
			id.SelfSignature.SignUserId(id.UserId.Id, e.PrimaryKey, e.PrivateKey, nil)
		}
		var b bytes.Buffer
		if w, err := armor.Encode(&b, openpgp.PublicKeyType, nil); err == nil {
			e.Serialize(w)
			w.Close()
			pubs = append(pubs, pubkey{"pgp0", b.String(), "gpg", false, "", true})
		}
	}
	for i := 0; i < 3; i++ {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			panic(err)
		}
		var x, y [32]byte
		k.X.FillBytes(x[:])
		k.Y.FillBytes(y[:])
		akeys = append(akeys, authKey{k, base64.StdEncoding.EncodeToString(x[:]), base64.StdEncoding.EncodeToString(y[:])})
	}
}

// ---- snapshots ----

var timeType = reflect.TypeOf(time.Time{})

// clone copies a value deeply, its exported fields only; empty lists and maps become nil.
func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(clone(v.Elem()))
		return p
	case reflect.Slice:
		if v.Len() == 0 {
			return reflect.Zero(v.Type())
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(clone(v.Index(i)))
		}
		return s
	case reflect.Map:
		if v.Len() == 0 {
			return reflect.Zero(v.Type())
		}
		m := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			m.SetMapIndex(k, clone(v.MapIndex(k)))
		}
		return m
	case reflect.Struct:
		if v.Type() == timeType {
			t := v.Interface().(time.Time).Round(0).UTC()
			return reflect.ValueOf(t)
		}
		s := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				s.Field(i).Set(clone(v.Field(i)))
			}
		}
		return s
	}
	return v
}

// snap is a copy of the exported state of a database.
type snap struct {
	Version  string
	Policy   identity.Policy
	Revision uint64
	Modified time.Time
	Users    []*identity.User
}

func snapshot(db *identity.Database) *snap {
	s := &snap{Version: db.Version, Policy: db.Policy, Revision: db.Revision, Modified: db.LastModified.Round(0).UTC()}
	if len(db.Users) > 0 {
		s.Users = clone(reflect.ValueOf(db.Users)).Interface().([]*identity.User)
	}
	return s
}

func same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	if len(b) > 1500 {
		b = append(b[:1500], "..."...)
	}
	return string(b)
}

// ---- the reference: what the users of a snapshot mean ----

func lower(s string) string { return strings.ToLower(s) }

func (s *snap) byName(n string) int {
	for i, u := range s.Users {
		if lower(u.Username) == lower(n) {
			return i
		}
	}
	return -1
}

func (s *snap) byMail(m string) int {
	for i, u := range s.Users {
		for _, e := range u.EmailAddresses {
			if lower(e.Address) == lower(m) {
				return i
			}
		}
	}
	return -1
}

func (s *snap) byLogin(x string) int {
	if strings.Contains(x, "@") {
		return s.byMail(x)
	}
	return s.byName(x)
}

// byBoth is the user named by both the username and the address.
func (s *snap) byBoth(n, m string) int {
	i := s.byName(n)
	if i >= 0 && s.byMail(m) == i {
		return i
	}
	return -1
}

func mailOf(u *identity.User) string {
	if len(u.EmailAddresses) == 0 {
		return ""
	}
	return u.EmailAddresses[0].Address
}

func nameOf(n *identity.Name) string {
	if n == nil {
		return ""
	}
	s := n.Last
	if n.First != "" {
		s += ", " + n.First
	}
	return s
}

func rolesOf(u *identity.User) []string {
	var out []string
	for _, r := range u.Roles {
		if r.Organization == "" {
			out = append(out, r.Name)
		} else {
			out = append(out, r.Organization+"/"+r.Name)
		}
	}
	return out
}

// ---- a world: one database and what is known about it ----

type world struct {
	*Run
	db    *identity.Database
	path  string
	file  string // initial content
	ops   []string
	known map[string]string // hash -> secret
	keys  map[string]*issued
	seq   int
	dead  bool
}

// issued is an API key the database issued.
type issued struct {
	plain, user, id  string
	disabled, erased bool
}

func (w *world) replay() interface{} {
	ops := w.ops
	if len(ops) > 60 {
		ops = ops[len(ops)-60:]
	}
	return map[string]interface{}{"file": w.file, "operations": ops}
}

// must records a failure of a property.
func (w *world) must(prop string, ok bool, key, f string, a ...interface{}) bool {
	if ok {
		return true
	}
	if w.prop == prop {
		w.check(false, key, w.replay(), f, a...)
	}
	w.dead = true // the state may be off from here on
	return false
}

var (
	userPool = []string{"alice", "Alice", "ALICE", "bob", "Bob", "carol", "dave", "erin", "frank42", "al", "x", "bobbob", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\u00c9ve", "\u00e9ve", "nobody", "abc", "ab"}
	mailPool = []string{"alice@example.com", "Alice@Example.COM", "bob@example.com", "BOB@example.com", "bob@corp.io", "carol@a.b", "dave@x.org", "al@e.cc", "c@d", "nobody@localhost", "a@b"}
	rolePool = []string{"admin", "user", "org/admin", "org/a/b", " viewer ", "org/admin", "Org/admin"}
	fullPool = []string{"", "", "Smith, John", "John Smith", "  Doe,Jane ", "Doe, "}
)

func (w *world) secretPlain(h string) (string, bool) { s, ok := w.known[h]; return s, ok }

// matches tells whether a stored hash is that of s.
func (w *world) matches(h, s string) bool {
	if p, ok := w.known[h]; ok {
		if len(p) <= 72 && len(s) <= 72 {
			return p == s
		}
	}
	return bcrypt.CompareHashAndPassword([]byte(h), []byte(s)) == nil
}

func (w *world) id36() string {
	w.seq++
	return w.pick("00000000", "00000000", "abcdef00", "ABCDEF00") + fmt.Sprintf("-0000-0000-0000-%012d", w.seq)
}

func (w *world) when() time.Time {
	return time.Date(2020+w.Intn(5), time.Month(1+w.Intn(12)), 1+w.Intn(28), w.Intn(24), w.Intn(60), w.Intn(60), w.Intn(1000000000), time.UTC)
}

func (w *world) craftPassword(rank int) *identity.Password {
	s := passwords[w.Intn(len(passwords))]
	w.known[s.hash] = s.plain
	p := &identity.Password{Purpose: "generic", Algorithm: w.pick("bcrypt", "bcrypt", ""), Hash: s.hash, Cost: w.pickInt(10, 10, 10, 8, 9, 12, 0, 4), CreatedAt: w.when()}
	switch w.Intn(6) {
	case 0:
		p.Disabled, p.DisabledAt = true, w.when()
	case 1:
		p.Expired, p.ExpiredAt = true, w.when()
	case 2:
		if rank > 0 {
			p.Disabled, p.DisabledAt, p.Expired, p.ExpiredAt = true, w.when(), true, w.when()
		}
	}
	return p
}

func (w *world) craftToken() *identity.MfaToken {
	t := &identity.MfaToken{ID: w.word(40), Comment: w.pick("phone", "key", "old") + w.word(2), CreatedAt: w.when(), Flags: map[string]bool{}, Parameters: map[string]string{}}
	if w.Intn(2) == 0 {
		t.Type, t.Algorithm, t.Secret, t.Period, t.Digits = "totp", w.pick("sha1", "sha256", "sha512"), w.word(12), 30+w.Intn(30), 4+w.Intn(5)
	} else {
		k := akeys[w.Intn(len(akeys))]
		t.Type, t.Secret, t.SignatureCounter = "u2f", w.word(20), uint32(w.Intn(5))
		t.Parameters = map[string]string{"u2f_id": w.pick("keyid-a", "keyid-b", "keyid-c"), "u2f_type": "public-key", "u2f_transports": "usb", "key_type": "ec2", "key_algo": "es256", "curve_type": "p256", "curve_xcoord": k.x, "curve_ycoord": k.y, "rp_id_hash": rpHash(w.pick("example.com", "localhost"))}
		t.Flags = map[string]bool{"UP": true}
	}
	if w.Intn(3) == 0 {
		t.Disabled, t.DisabledAt = true, w.when()
	}
	if w.Intn(3) == 0 {
		t.Expired, t.ExpiredAt = true, w.when()
	}
	return t
}

// likeID is an ID like another one.
func (w *world) likeID(s string) string {
	switch n := len(s); w.Intn(6) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return s[w.Intn(n+1):]
	case 3:
		return s[:w.Intn(n+1)]
	case 4:
		return s + w.pick(" ", "x", "0")
	}
	return s
}

// craftUser makes a user record; the pools make clashes between users possible unless fresh names are asked for.
func (w *world) craftUser(n int, clash bool) *identity.User {
	var name, mail string
	if clash {
		name, mail = w.pick(userPool[:7]...), w.pick(mailPool[:7]...)
	} else {
		name, mail = []string{"Alice", "bob", "carol", "x"}[n], []string{"alice@example.com", "bob@example.com", "Carol@a.b", "c@d"}[n]
	}
	u := &identity.User{ID: w.id36(), Username: name, Enabled: w.Intn(2) == 0, Human: w.Intn(2) == 0, Title: w.pick("", "Dr.", "\u65e5\u672c <&>"), Created: w.when(), LastModified: w.when(), Revision: w.Intn(9)}
	d := func(m string) string { return m[strings.Index(m, "@")+1:] }
	addr := &identity.EmailAddress{Address: mail, Domain: d(mail), Confirmed: w.Intn(2) == 0}
	if w.Intn(5) > 0 {
		u.EmailAddress = &identity.EmailAddress{Address: mail, Domain: d(mail)}
	}
	u.EmailAddresses = []*identity.EmailAddress{addr}
	if w.Intn(3) == 0 {
		m2 := fmt.Sprintf("Second%d@example.com", n)
		if clash {
			m2 = w.pick(mailPool[:7]...)
		}
		u.EmailAddresses = append(u.EmailAddresses, &identity.EmailAddress{Address: m2, Domain: d(m2), Confirmed: w.Intn(2) == 0})
	}
	if w.Intn(2) == 0 {
		u.Name = &identity.Name{First: w.pick("Ann", ""), Last: w.pick("Lee", "O'Hara", ""), Middle: w.pick("", "M"), Preferred: w.pick("", "P"), Nickname: w.Intn(2) == 0, Legal: w.Intn(2) == 0}
		u.Names = []*identity.Name{{First: u.Name.First, Last: u.Name.Last}}
	}
	if w.Intn(3) == 0 {
		u.Avatar = &identity.Image{Path: "/a" + w.word(3)}
	}
	for i, k := 0, 1+w.Intn(3); i < k; i++ {
		u.Passwords = append(u.Passwords, w.craftPassword(i))
	}
	if w.Intn(20) == 0 {
		for i := 0; i < 14; i++ {
			u.Passwords = append(u.Passwords, w.craftPassword(i+1))
		}
	}
	for i, k := 0, w.Intn(4); i < k; i++ {
		r := &identity.Role{Name: w.pick("admin", "user", "viewer") + fmt.Sprint(i), Organization: w.pick("", "org", "corp")}
		u.Roles = append(u.Roles, r)
	}
	for i, k := 0, w.Intn(3); i < k; i++ {
		u.PublicKeys = append(u.PublicKeys, &identity.PublicKey{ID: w.word(40), Usage: w.pick("ssh", "gpg"), Type: "ssh-rsa", Fingerprint: w.word(43), Comment: w.pick("", "c"), Payload: "p", OpenSSH: w.word(5), Disabled: w.Intn(3) == 0, CreatedAt: w.when()})
	}
	if len(u.PublicKeys) == 2 && w.Intn(4) == 0 {
		u.PublicKeys[1].ID = u.PublicKeys[0].ID
	}
	for i := range apis {
		if !clash && i%4 != n {
			continue
		}
		if w.Intn(3) > 0 {
			continue
		}
		s := apis[i]
		if !clash && i == 5 {
			continue // clashes with the first one
		}
		w.known[s.hash] = s.plain
		k := &identity.APIKey{ID: w.word(40), Prefix: s.plain[:24], Usage: w.pick("api", "api", "api", "other"), Comment: "c", Payload: s.hash, CreatedAt: w.when()}
		switch w.Intn(5) {
		case 0:
			k.Disabled, k.DisabledAt = true, w.when()
		case 1:
			k.Expired, k.ExpiredAt = true, w.when()
		}
		u.APIKeys = append(u.APIKeys, k)
	}
	k := w.Intn(3)
	if w.Intn(8) == 0 {
		k = 5 + w.Intn(4)
	}
	for i := 0; i < k; i++ {
		u.MfaTokens = append(u.MfaTokens, w.craftToken())
	}
	// IDs that resemble one another
	for i := 1; i < k && w.Intn(3) == 0; i++ {
		u.MfaTokens[i].ID = w.likeID(u.MfaTokens[i-1].ID)
	}
	for i := 1; i < len(u.PublicKeys) && w.Intn(3) == 0; i++ {
		u.PublicKeys[i].ID = w.likeID(u.PublicKeys[i-1].ID)
	}
	for i := 1; i < len(u.APIKeys) && w.Intn(3) == 0; i++ {
		u.APIKeys[i].ID = w.likeID(u.APIKeys[i-1].ID)
	}
	return u
}

func (w *world) craftPolicy() identity.Policy {
	var p identity.Policy
	n := func(xs ...int) int { return xs[w.Intn(len(xs))] }
	p.User.MinLength, p.User.MaxLength = n(0, 0, 1, 2, 3, 4, -1), n(0, 0, 5, 7, 50, 20)
	p.Password.MinLength, p.Password.MaxLength, p.Password.KeepVersions = n(0, 0, 8, 6, 9, -2), n(0, 0, 9, 10, 72, 128), n(0, 0, 1, 2, 3, 5, -1)
	b := func() bool { return w.Intn(2) == 0 }
	p.User.AllowNonAlphaNumeric, p.User.AllowUppercase = b(), b()
	p.Password.RequireUppercase, p.Password.RequireLowercase, p.Password.RequireNumber, p.Password.RequireNonAlphaNumeric = b(), b(), b(), b()
	p.Password.BlockReuse, p.Password.BlockPasswordChange = b(), b()
	return p
}

// guarded runs f and tells how it ended; an operation that does not end is a failure of the locking.
func (w *world) guarded(what string, f func()) bool {
	type end struct {
		p     interface{}
		stack string
	}
	done := make(chan end, 1)
	go func() {
		var e end
		defer func() { done <- e }()
		defer func() {
			if p := recover(); p != nil {
				e.p, e.stack = p, stack()
			}
		}()
		f()
	}()
	select {
	case e := <-done:
		if e.p != nil {
			w.must("C16", false, "panic", "%s panics: %v\n%s", what, e.p, e.stack)
			return false
		}
	case <-time.After(30 * time.Second):
		w.must("C11", false, "hang", "%s does not return", what)
		return false
	}
	return true
}

func stack() string {
	b := make([]byte, 4096)
	return string(b[:runtime.Stack(b, false)])
}

// open opens the file and checks what opening promises about it.
func (w *world) open(path string, in *snap) (*identity.Database, error) {
	var db *identity.Database
	var err error
	if !w.guarded("NewDatabase", func() { db, err = identity.NewDatabase(path) }) {
		return nil, fmt.Errorf("panic")
	}
	return db, err
}

// start makes a new world with a database.
func (r *Run) start() *world {
	once.Do(material)
	w := &world{Run: r, known: map[string]string{}, keys: map[string]*issued{}}
	w.seq = r.Intn(1000) * 1000
	w.path = filepath.Join(r.dir, fmt.Sprintf("db%d.json", r.Intn(1000000)))
	d := &identity.Database{Version: "1.0.0", Policy: w.craftPolicy(), Revision: uint64(w.Intn(50)), LastModified: w.when()}
	clash := w.Intn(6) == 0
	for i, k := 0, 1+w.Intn(4); i < k; i++ {
		d.Users = append(d.Users, w.craftUser(i, clash))
	}
	if clash && len(d.Users) > 1 && w.Intn(4) == 0 {
		d.Users[1].ID = d.Users[0].ID
	}
	if len(d.Users) > 1 && w.Intn(4) == 0 {
		d.Users[0].ID = "abcdef00-0000-0000-0000-00000000000a"
		d.Users[1].ID = "ABCDEF00-0000-0000-0000-00000000000A"
	}
	if n := len(d.Users); !clash && n > 1 && w.Intn(6) == 0 {
		// a clash in one respect only
		i := w.Intn(n - 1)
		u, v := d.Users[i], d.Users[i+1+w.Intn(n-1-i)]
		any := func(s string) string { return w.pick(s, strings.ToUpper(s), strings.ToLower(s), strings.Title(s)) }
		switch w.Intn(4) {
		case 0:
			v.ID = u.ID
		case 1:
			v.Username = any(u.Username)
		case 2:
			if len(u.EmailAddresses) > 0 && len(v.EmailAddresses) > 0 {
				v.EmailAddresses[w.Intn(len(v.EmailAddresses))].Address = any(u.EmailAddresses[w.Intn(len(u.EmailAddresses))].Address)
			}
		case 3:
			if len(u.APIKeys) > 0 && len(v.APIKeys) > 0 {
				v.APIKeys[w.Intn(len(v.APIKeys))].Prefix = u.APIKeys[w.Intn(len(u.APIKeys))].Prefix
			}
		}
	}
	b, err := json.MarshalIndent(d, "", " ")
	if err != nil {
		panic(err)
	}
	w.file = string(b)
	os.WriteFile(w.path, b, 0600)
	in := snapshot(d)
	r.count("open")
	db, err := w.open(w.path, in)
	if w.dead {
		return w
	}
	bad := in.clashes()
	if bad == "" && in.twice() {
		w.dead = true
		return w
	}
	if bad == "" {
		if !w.must("C01", err == nil, "open", "a file without clashes is refused: %v", err) || !w.must("C10", err == nil, "open", "the file is refused: %v", err) {
			return w
		}
	} else {
		w.dead = true
		which := "C01"
		if strings.HasPrefix(bad, "api key prefix") {
			which = "C06"
		}
		w.must(which, err != nil, "openclash", "a file is opened although %s", bad)
		return w
	}
	if err != nil || !w.must("C16", db != nil, "nil", "NewDatabase returns neither a database nor an error") {
		w.dead = true
		return w
	}
	w.db = db
	w.opened(in, db)
	return w
}

// opened checks a database against what was in the file it was opened from.
func (w *world) opened(in *snap, db *identity.Database) {
	out := snapshot(db)
	or := func(x, d int) int {
		if x == 0 {
			return d
		}
		return x
	}
	p := in.Policy
	p.User.MinLength, p.User.MaxLength = or(p.User.MinLength, 3), or(p.User.MaxLength, 50)
	p.Password.MinLength, p.Password.MaxLength, p.Password.KeepVersions = or(p.Password.MinLength, 8), or(p.Password.MaxLength, 128), or(p.Password.KeepVersions, 10)
	w.must("C12", same(out.Policy, p), "defaults", "policy %+v is opened as %+v, want %+v", in.Policy, out.Policy, p)
	if p == in.Policy {
		w.must("C10", same(out.Policy, p) && out.Revision == in.Revision && out.Modified.Equal(in.Modified), "header", "the policy, revision or time changes: %+v, %d, %s", out.Policy, out.Revision, out.Modified)
	}
	c := clone(reflect.ValueOf(in.Users)).Interface().([]*identity.User)
	for _, u := range c {
		for _, q := range u.Passwords {
			if q.Algorithm == "" {
				q.Algorithm = "bcrypt"
			}
		}
	}
	if len(c) != len(out.Users) {
		w.must("C10", false, "users", "%d users are saved, %d opened", len(c), len(out.Users))
		return
	}
	for i := range c {
		w.must("C10", same(c[i], out.Users[i]), "user", "a saved user is opened altered:\nsaved  %s\nopened %s", js(c[i]), js(out.Users[i]))
	}
}

// twice tells whether a user has an e-mail address twice.
func (s *snap) twice() bool {
	for _, u := range s.Users {
		m := map[string]bool{}
		for _, e := range u.EmailAddresses {
			if m[lower(e.Address)] {
				return true
			}
			m[lower(e.Address)] = true
		}
	}
	return false
}

// clashes describes a clash between users or keys.
func (s *snap) clashes() string {
	names, ids, mails, keys := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, u := range s.Users {
		if names[lower(u.Username)] {
			return "two users have the username " + u.Username
		}
		names[lower(u.Username)] = true
		if ids[u.ID] {
			return "two users have the ID " + u.ID
		}
		ids[u.ID] = true
	}
	for _, u := range s.Users {
		own := map[string]bool{}
		for _, e := range u.EmailAddresses {
			if mails[lower(e.Address)] {
				return "two users have the e-mail address " + e.Address
			}
			own[lower(e.Address)] = true
		}
		for m := range own {
			mails[m] = true
		}
	}
	for _, u := range s.Users {
		for _, k := range u.APIKeys {
			if keys[k.Prefix] {
				return "api key prefix " + k.Prefix + " occurs twice"
			}
			keys[k.Prefix] = true
		}
	}
	return ""
}
