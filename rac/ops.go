package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C14", "C16", "C18", "C20", "C21", "C22"} {
		p := p
		drivers[p] = func(r *Run) { racMachine(r, weights[p]) }
	}
	machine := drivers["C20"]
	drivers["C20"] = func(r *Run) {
		racCost(r)
		machine(r)
	}
	old := drivers["C17"]
	drivers["C17"] = func(r *Run) {
		end := r.deadline
		r.deadline = time.Now().Add(time.Until(end) / 2)
		old(r)
		r.deadline = end
		racMachine(r, weights["C17"])
	}
}

// what each property makes the driver do more often
var weights = map[string]map[string]int{
	"C01": {"AddUser": 10, "Reopen": 6, "Identify": 4},
	"C02": {"Authenticate": 20, "ChangePassword": 3, "Reopen": 2},
	"C03": {"WebAuthn": 60},
	"C05": {"ChangePassword": 12, "Authenticate": 6},
	"C06": {"LookupAPIKey": 20, "AddAPIKey": 8, "DeleteAPIKey": 8, "Reopen": 3},
	"C07": {"DeletePublicKey": 8, "DeleteAPIKey": 8, "DeleteMfaToken": 8},
	"C08": {"AddPublicKey": 8, "AddAPIKey": 4, "AddMfaToken": 8},
	"C09": {"Save": 6, "Copy": 6, "AddUser": 2},
	"C10": {"Reopen": 20},
	"C12": {"AddUser": 12, "ChangePassword": 8, "Policy": 6, "Reopen": 2},
	"C14": {"AddMfaToken": 40},
	"C16": {"Nasty": 20, "OpenNasty": 20, "WebAuthn": 6, "AddMfaToken": 6, "AddPublicKey": 6},
	"C17": {"AddUser": 10, "Identify": 10},
	"C18": {"Identify": 20},
	"C20": {"AddUser": 4, "ChangePassword": 4, "AddAPIKey": 6},
	"C21": {"Listing": 20},
}

type op struct {
	name string
	f    func(w *world)
}

var ops = []op{
	{"AddUser", (*world).addUser}, {"Authenticate", (*world).authenticate}, {"WebAuthn", (*world).webauthn}, {"Identify", (*world).identify},
	{"ChangePassword", (*world).changePassword}, {"LookupAPIKey", (*world).lookupKey}, {"AddAPIKey", (*world).addAPIKey}, {"DeleteAPIKey", (*world).deleteAPIKey},
	{"AddPublicKey", (*world).addPublicKey}, {"DeletePublicKey", (*world).deletePublicKey}, {"AddMfaToken", (*world).addMfaToken}, {"DeleteMfaToken", (*world).deleteMfaToken},
	{"Listing", (*world).listing}, {"Save", (*world).save}, {"Copy", (*world).copyTo}, {"Reopen", (*world).reopen}, {"Policy", (*world).policy}, {"Nasty", (*world).nasty}, {"OpenNasty", (*world).openNasty}, {"DeleteUser", (*world).deleteUser},
}

func racMachine(r *Run, weight map[string]int) {
	for !r.over() {
		w := r.start()
		if !w.dead {
			w.lookups()
		}
		for i, k := 0, 4+r.Intn(30); i < k && !w.dead && !r.over(); i++ {
			total := 0
			for _, o := range ops {
				total += 1 + weight[o.name]
			}
			n := r.Intn(total)
			for _, o := range ops {
				n -= 1 + weight[o.name]
				if n < 0 {
					r.count(o.name)
					o.f(w)
					break
				}
			}
			if !w.dead && r.Intn(4) == 0 {
				w.lookups()
			}
		}
		os.Remove(w.path)
	}
}

// who picks a username and an address: mostly those of one user.
func (w *world) who() (string, string) {
	us := w.db.Users
	u := us[w.Intn(len(us))]
	n, m := u.Username, "x@y"
	if len(u.EmailAddresses) > 0 {
		m = u.EmailAddresses[w.Intn(len(u.EmailAddresses))].Address
	}
	switch w.Intn(10) {
	case 0:
		v := us[w.Intn(len(us))]
		if len(v.EmailAddresses) > 0 {
			m = v.EmailAddresses[w.Intn(len(v.EmailAddresses))].Address
		}
	case 1:
		n = w.pick(userPool...)
	case 2:
		m = w.pick(mailPool...)
	case 3:
		n, m = m, n
	case 4:
		n, m = w.pick("", n), w.pick("", m)
	}
	return w.caseOf(n), w.caseOf(m)
}

func (w *world) caseOf(s string) string {
	switch w.Intn(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

func (w *world) request() *requests.Request {
	r := requests.NewRequest()
	r.User.Username, r.User.Email = w.who()
	return r
}

// stat is what is on disk.
func (w *world) stat(path string) (string, os.FileMode) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", 0
	}
	fi, err := os.Stat(path)
	if err != nil {
		return "", 0
	}
	return string(b), fi.Mode()
}

// call is one operation with what was before and after.
type call struct {
	w            *world
	what         string
	before       *snap
	after        *snap
	disk0, disk1 string
	blocked      bool // the file cannot be written
	removed      bool
	err          error
	ok           bool // it returned
	user         int  // index of the user named by both, before
}

// do runs an operation and checks what holds of all of them.
func (w *world) do(what string, r *requests.Request, writes bool, f func() error) *call {
	c := &call{w: w, what: what, user: -1}
	if r != nil {
		b, _ := json.Marshal(r)
		w.ops = append(w.ops, what+" "+clipTo(string(b), 700))
	} else {
		w.ops = append(w.ops, what)
	}
	c.before = snapshot(w.db)
	if r != nil {
		c.user = c.before.byBoth(r.User.Username, r.User.Email)
	}
	if writes {
		switch w.Intn(25) {
		case 0:
			os.Remove(w.path)
			os.Mkdir(w.path, 0700)
			c.blocked = true
			w.ops = append(w.ops, "(the file cannot be written)")
		case 1, 2, 3:
			os.Remove(w.path)
			c.removed = true
			w.ops = append(w.ops, "(the file has been removed)")
		}
	}
	c.disk0, _ = w.stat(w.path)
	if !w.guarded(what, func() { c.err = f() }) {
		w.dead = true
		return c
	}
	locked := make(chan bool, 1)
	go func() { w.db.GetUserCount(); locked <- true }()
	select {
	case <-locked:
	case <-time.After(20 * time.Second):
		w.must("C11", false, "leftlocked", "after %s the database stays locked", what)
		w.dead = true
		return c
	}
	c.ok = true
	c.after = snapshot(w.db)
	var mode os.FileMode
	c.disk1, mode = w.stat(w.path)
	if c.blocked {
		os.Remove(w.path)
		if writes {
			w.must("C09", c.err != nil, "notwritten", "%s returns no error although the database file could not be written", what)
		}
		w.dead = true // memory and disk differ from here on
		return c
	}
	if c.err != nil {
		w.must("C22", same(c.before, c.after), "changed", "%s is refused (%v) and changes the database:\nbefore %s\nafter  %s", what, c.err, js(c.before), js(c.after))
		w.must("C22", c.disk0 == c.disk1, "wrote", "%s is refused (%v) and writes the database file", what, c.err)
		if w.prop == "C22" {
			w.lookups()
		}
		return c
	}
	if !writes {
		for _, p := range []string{"C22", "C02", "C18", "C21"} {
			w.must(p, same(c.before, c.after), "changed", "%s changes the database:\nbefore %s\nafter  %s", what, js(c.before), js(c.after))
		}
		return c
	}
	// C09
	w.must("C09", w.onDisk(c.disk1) == "", "disk", "after %s: %s", what, w.onDisk(c.disk1))
	w.must("C09", c.after.Revision > c.before.Revision, "revision", "%s leaves the revision at %d (was %d)", what, c.after.Revision, c.before.Revision)
	if c.removed {
		w.must("C09", mode.Perm()&0077 == 0 && mode.Perm()&0600 == 0600, "mode", "%s creates the file with mode %s", what, mode)
	}
	w.must("C01", len(c.after.Users) == len(c.before.Users) || what == "AddUser", "users", "%s changes the number of users", what)
	if bad := c.after.clashes(); bad != "" {
		if strings.HasPrefix(bad, "api key prefix") {
			w.must("C06", false, "clash", "after %s, %s", what, bad)
		} else {
			w.must("C01", false, "clash", "after %s, %s", what, bad)
		}
	}
	return c
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// onDisk compares a file's content with the database.
func (w *world) onDisk(data string) string {
	var d identity.Database
	if err := json.Unmarshal([]byte(data), &d); err != nil {
		return fmt.Sprintf("the file does not hold a database: %v (%q)", err, clipTo(data, 200))
	}
	a, b := snapshot(&d), snapshot(w.db)
	if !same(a, b) {
		return fmt.Sprintf("the file does not hold the state:\nfile   %s\nmemory %s", js(a), js(b))
	}
	return ""
}

// onlyUser checks that an operation changed no user but the named one, and nothing else of the database.
func (c *call) onlyUser() bool {
	if !c.ok {
		return false
	}
	w := c.w
	if c.err == nil {
		if !w.must("C04", c.user >= 0, "identity", "%s is carried out although no user has both the username and the address", c.what) {
			return false
		}
	}
	if len(c.before.Users) != len(c.after.Users) {
		w.must("C04", false, "users", "%s changes the number of users", c.what)
		return false
	}
	for i := range c.before.Users {
		if i == c.user && (c.err == nil || c.blocked) {
			continue
		}
		w.must("C04", same(c.before.Users[i], c.after.Users[i]), "others", "%s changes another user:\nbefore %s\nafter  %s", c.what, js(c.before.Users[i]), js(c.after.Users[i]))
	}
	w.must("C04", c.before.Policy == c.after.Policy, "policy", "%s changes the policy", c.what)
	return c.err == nil
}

// except checks that of the named user nothing but a field changed.
func (c *call) except(field string) (*identity.User, *identity.User) {
	a, b := c.before.Users[c.user], c.after.Users[c.user]
	x, y := *a, *b
	for _, p := range []*identity.User{&x, &y} {
		f := reflect.ValueOf(p).Elem().FieldByName(field)
		f.Set(reflect.Zero(f.Type()))
		p.Revision, p.LastModified = 0, time.Time{}
	}
	c.w.must("C04", same(x, y), "record", "%s changes more of the user than its %s:\nbefore %s\nafter  %s", c.what, field, js(a), js(b))
	return a, b
}

// lookups checks that every name and address resolves as it should.
func (w *world) lookups() {
	s := snapshot(w.db)
	check := func(x string) {
		r := requests.NewRequest()
		r.User.Username = x
		var err error
		if !w.guarded("IdentifyUser", func() { err = w.db.IdentifyUser(r) }) {
			w.dead = true
			return
		}
		i := s.byLogin(x)
		got := r.User.Username
		if i >= 0 {
			for _, p := range []string{"C01", "C22", "C10"} {
				w.must(p, err == nil && got == s.Users[i].Username && r.User.Email == mailOf(s.Users[i]), "lookup", "%q resolves to %q (%s, error %v), want %q (%s)", x, got, r.User.Email, err, s.Users[i].Username, mailOf(s.Users[i]))
			}
		} else {
			for _, p := range []string{"C01", "C22", "C10"} {
				w.must(p, err == nil && got == "nobody" && r.User.Email == "nobody@localhost", "lookup", "%q resolves to %q (%s, error %v), want nobody", x, got, r.User.Email, err)
			}
		}
	}
	for _, u := range s.Users {
		if !strings.Contains(u.Username, "@") {
			check(w.caseOf(u.Username))
		}
		for _, e := range u.EmailAddresses {
			check(w.caseOf(e.Address))
		}
	}
	check(w.pick(userPool...))
	check(w.pick(mailPool...))
	check(w.pick("", "@", "ghost", "ghost@example.com"))
}

// ---- the operations ----

func (w *world) addUser() {
	r := requests.NewRequest()
	r.User.Username, r.User.Email = w.pick(userPool...), w.pick(mailPool...)
	if w.Intn(2) == 0 {
		r.User.Username, r.User.Email = "u"+strings.ToLower(w.word(2+w.Intn(4))), strings.ToLower(w.word(3))+"@n.io"
	}
	p := w.db.Policy
	switch w.Intn(8) {
	case 0:
		r.User.Username = strings.Repeat("n", bound(p.User.MinLength+w.Intn(3)-1))
	case 1:
		r.User.Username = strings.Repeat("n", bound(p.User.MaxLength+w.Intn(3)-1))
	}
	r.User.Password = w.newPassword()
	r.User.FullName = w.pick(fullPool...)
	for i, k := 0, w.Intn(5); i < k; i++ {
		r.User.Roles = append(r.User.Roles, w.pick(rolePool...))
	}
	switch w.Intn(14) {
	case 0:
		r.User.Email = w.email()
	case 1:
		r.User.Roles = append(r.User.Roles, w.pick("", " ", "\t"))
	case 2:
		r.User.FullName = w.text()
	case 3:
		r.User.Password = strings.Repeat(" ", bound(p.Password.MinLength))
	}
	name, mail, pw := r.User.Username, r.User.Email, r.User.Password
	roles := append([]string(nil), r.User.Roles...)
	c := w.do("AddUser", r, true, func() error { return w.db.AddUser(r) })
	if !c.ok || c.err != nil {
		return
	}
	b := c.before
	w.must("C01", b.byName(name) < 0 && b.byMail(mail) < 0, "taken", "AddUser accepts the username %q with the address %q, one of which is taken", name, mail)
	w.must("C12", len(name) >= p.User.MinLength && len(name) <= p.User.MaxLength && len(pw) >= p.Password.MinLength && len(pw) <= p.Password.MaxLength, "limits", "AddUser accepts a username of %d and a password of %d bytes under %+v", len(name), len(pw), p)
	n := len(b.Users)
	if !w.must("C01", len(c.after.Users) == n+1 && same(c.after.Users[:n], b.Users[:n:n]) || n == 0, "others", "AddUser changes the other users") || len(c.after.Users) != n+1 {
		w.dead = true
		return
	}
	u := c.after.Users[n]
	w.must("C01", u.Username == name && mailOf(u) == mail && len(u.EmailAddresses) == 1 && len(u.ID) == 36, "record", "AddUser of %q, %q stores %s", name, mail, js(u))
	if !w.must("C20", len(u.Passwords) == 1, "password", "%d passwords of the new user", len(u.Passwords)) {
		return
	}
	w.storedHash(u.Passwords[0].Hash, pw, "AddUser")
	w.must("C02", !u.Passwords[0].Disabled && !u.Passwords[0].Expired, "disabled", "the password of a new user is disabled")
	w.must("C20", strings.TrimSpace(pw) != "", "blank", "AddUser accepts the blank password %q", pw)
	w.known[u.Passwords[0].Hash] = pw
	var want []string
	for _, s := range roles {
		s = strings.TrimSpace(s)
		dup := false
		for _, x := range want {
			dup = dup || x == s
		}
		if !dup {
			want = append(want, s)
		}
		w.must("C17", s != "", "blank", "AddUser accepts a blank role")
		w.must("C17", w.db.Users[n].HasRole(s), "hasrole", "the new user does not have the granted role %q", s)
	}
	w.must("C17", same(rolesOf(u), want), "roles", "AddUser with roles %q stores %q", roles, rolesOf(u))
}

func bound(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// newPassword is a password near the limits.
func (w *world) newPassword() string {
	p := w.db.Policy.Password
	switch w.Intn(7) {
	case 0:
		return w.word(bound(p.MinLength + w.Intn(3) - 1))
	case 1:
		n := bound(p.MaxLength + w.Intn(3) - 1)
		if n > 74 {
			n = 74
		}
		return w.word(n)
	case 2:
		return " " + w.word(8) + w.pick(" ", "\t", "\n")
	}
	return passwords[w.Intn(len(passwords))].plain
}

// racCost makes passwords of every kind and cost.
func racCost(r *Run) {
	for i := 0; i < 40 && !r.over(); i++ {
		c, s, algo := r.Intn(14)-2, r.pick("secret", "secret", " padded ", "", "\t "), r.pick("bcrypt", "bcrypt", "bcrypt", "", "md5")
		params := map[string]interface{}{"cost": c}
		if c == -2 {
			params = nil
		}
		p, err := identity.NewPasswordWithOptions(s, "generic", algo, params)
		r.count("NewPasswordWithOptions")
		in := map[string]interface{}{"secret": s, "algorithm": algo, "cost": c}
		if err != nil || !r.check(strings.TrimSpace(s) != "" && algo == "bcrypt", "refuse", in, "NewPasswordWithOptions accepts the secret %q with the algorithm %q", s, algo) {
			continue
		}
		h := p.Hash
		r.check(strings.HasPrefix(h, "$2") && len(h) == 60 && h[4:6] >= "08", "cost", in, "NewPasswordWithOptions with cost %d stores the hash %q of a lower cost", c, h)
		r.check(compare(h, s), "mismatch", in, "NewPasswordWithOptions stores a hash that does not match %q as supplied", s)
	}
}

// storedHash checks a stored hash of a secret.
func (w *world) storedHash(h, s, what string) {
	if w.prop != "C20" && w.prop != "C02" {
		return
	}
	w.must("C20", strings.HasPrefix(h, "$2") && h != s, "nohash", "%s stores %q for the secret %q", what, h, s)
	w.must("C20", strings.HasPrefix(h, "$2") && len(h) == 60 && h[4:6] >= "08", "cost", "%s stores the hash %q of a lower cost", what, h)
	w.must("C20", compare(h, s), "mismatch", "%s stores a hash that does not match the secret %q as supplied", what, s)
	w.must("C02", compare(h, s), "mismatch", "%s stores a hash that does not match the password %q as supplied", what, s)
	if t := strings.TrimSpace(s); t != s {
		w.must("C20", !compare(h, t), "trimmed", "%s stores a hash of the trimmed secret %q", what, s)
	}
}

func (w *world) login() string {
	n, m := w.who()
	return w.pick(n, m)
}

func (w *world) authenticate() {
	r := requests.NewRequest()
	r.User.Username = w.login()
	s := snapshot(w.db)
	i := s.byLogin(r.User.Username)
	r.User.Password = w.pick(passwords[w.Intn(len(passwords))].plain, passwords[w.Intn(len(passwords))].plain, "wrong", "")
	if i >= 0 && w.Intn(3) > 0 {
		u := s.Users[i]
		if p := u.Passwords[w.Intn(len(u.Passwords))]; true {
			if x, ok := w.known[p.Hash]; ok {
				r.User.Password = x
			} else {
				r.User.Password = p.Hash
			}
			if w.Intn(10) == 0 {
				r.User.Password = p.Hash
			}
		}
		switch w.Intn(12) {
		case 0:
			r.User.Password += " "
		case 1:
			r.User.Password = strings.TrimSpace(r.User.Password)
		case 2:
			r.User.Password = strings.ToUpper(r.User.Password)
		}
	}
	pw, id := r.User.Password, r.User.Username
	if w.Intn(6) == 0 {
		r.WebAuthn.Request = w.pick("e30=", "x")
	}
	hasWeb := r.WebAuthn.Request != ""
	want := false
	if i >= 0 && pw != "" {
		for _, p := range s.Users[i].Passwords {
			if !p.Disabled && !p.Expired && w.matches(p.Hash, pw) {
				want = true
			}
		}
	}
	code := w.pick("0", "200")
	if code == "200" {
		r.Response.Code = 200 // left over from before
	}
	c := w.do("AuthenticateUser", r, false, func() error { return w.db.AuthenticateUser(r) })
	if !c.ok {
		return
	}
	w.must("C02", same(c.before, c.after), "state", "AuthenticateUser changes the identities")
	if pw == "" && hasWeb {
		w.must("C03", c.err != nil, "unsigned", "a WebAuthn login without assertion is accepted")
		return
	}
	w.must("C02", (c.err == nil) == want, "auth", "AuthenticateUser(%q, %q): want accepted=%v, got %v", id, pw, want, c.err)
	if want {
		w.must("C02", r.Response.Code == 200, "code", "AuthenticateUser(%q, %q) succeeds with code %d", id, pw, r.Response.Code)
	} else {
		w.must("C02", r.Response.Code == 400, "code", "AuthenticateUser(%q, %q) fails with code %d", id, pw, r.Response.Code)
	}
}

func (w *world) webauthn() {
	s := snapshot(w.db)
	i := w.Intn(len(s.Users))
	for k := 0; k < 4 && len(s.Users[i].MfaTokens) == 0; k++ {
		i = w.Intn(len(s.Users))
	}
	u := s.Users[i]
	r := requests.NewRequest()
	r.User.Username = u.Username
	a, challenge := w.assertFor(u)
	if w.Intn(10) == 0 && len(s.Users) > 1 {
		i = w.Intn(len(s.Users))
		u = s.Users[i]
		r.User.Username = u.Username
	}
	if strings.Contains(r.User.Username, "@") {
		return
	}
	var cb, ab, sig []byte
	r.WebAuthn.Request, cb, ab, sig = a.payload()
	r.WebAuthn.Challenge = challenge
	c := w.do("AuthenticateUser", r, false, func() error { return w.db.AuthenticateUser(r) })
	if !c.ok {
		return
	}
	want := accepted(u, a, challenge, cb, ab, sig)
	w.count(fmt.Sprintf("assertion acceptable=%v accepted=%v", want, c.err == nil))
	if c.err == nil {
		w.must("C03", want, "accepted", "a WebAuthn login is accepted for the assertion %+v (request challenge %q, client data %s, tokens %s)", *a, challenge, cb, js(u.MfaTokens))
	}
}

func (w *world) identify() {
	r := requests.NewRequest()
	r.User.Username = w.login()
	s := snapshot(w.db)
	i := s.byLogin(r.User.Username)
	if w.Intn(8) == 0 {
		r.User.Username, i = "ghost", -1
	}
	r.Flags.Enabled = w.Intn(2) == 0
	id, fl := r.User.Username, r.Flags.Enabled
	c := w.do("IdentifyUser", r, false, func() error { return w.db.IdentifyUser(r) })
	if !c.ok || !w.must("C18", c.err == nil, "error", "IdentifyUser(%q) fails: %v", id, c.err) {
		return
	}
	if i < 0 {
		w.must("C18", r.User.Username == "nobody" && r.User.Email == "nobody@localhost" && same(r.User.Challenges, []string{"password"}) && r.User.FullName == "" && len(r.User.Roles) == 0 && !r.Flags.MfaApp && !r.Flags.MfaUniversal && !r.Flags.MfaConfigured, "unknown", "IdentifyUser(%q) of an unknown user reports %s %s", id, js(r.User), js(r.Flags))
		return
	}
	u := s.Users[i]
	ch := []string{"password"}
	if len(u.MfaTokens) > 0 {
		ch = append(ch, "mfa")
	}
	w.must("C18", r.User.Username == u.Username && r.User.Email == mailOf(u), "identity", "IdentifyUser(%q) reports %s, want %s %s", id, js(r.User), u.Username, mailOf(u))
	w.must("C18", r.User.FullName == nameOf(u.Name), "name", "IdentifyUser(%q) reports the name %q, want %q", id, r.User.FullName, nameOf(u.Name))
	for _, p := range []string{"C18", "C17"} {
		w.must(p, same(r.User.Roles, rolesOf(u)), "roles", "IdentifyUser(%q) reports the roles %q, want %q", id, r.User.Roles, rolesOf(u))
	}
	w.must("C18", same(r.User.Challenges, ch), "challenges", "IdentifyUser(%q) reports the challenges %q, want %q", id, r.User.Challenges, ch)
	w.must("C18", r.User.Password == "" && r.User.OldPassword == "", "secret", "IdentifyUser(%q) reports a password", id)
	if fl {
		var app, uni, any bool
		for _, t := range u.MfaTokens {
			if !t.Disabled {
				any = true
				app = app || t.Type == "totp"
				uni = uni || t.Type == "u2f"
			}
		}
		w.must("C18", r.Flags.MfaApp == app && r.Flags.MfaUniversal == uni && r.Flags.MfaConfigured == any, "flags", "IdentifyUser(%q) reports %s for the tokens %s", id, js(r.Flags), js(u.MfaTokens))
	}
}

func (w *world) changePassword() {
	r := w.request()
	s := snapshot(w.db)
	i := s.byBoth(r.User.Username, r.User.Email)
	r.User.OldPassword, r.User.Password = passwords[w.Intn(len(passwords))].plain, w.newPassword()
	if i >= 0 && w.Intn(4) > 0 {
		ps := s.Users[i].Passwords
		if x, ok := w.known[ps[w.Intn(len(ps))].Hash]; ok {
			r.User.OldPassword = x
		}
	}
	switch w.Intn(12) {
	case 0:
		r.User.Password = strings.Repeat(" ", bound(w.db.Policy.Password.MinLength))
	case 1:
		r.User.OldPassword = ""
	}
	old, pw := r.User.OldPassword, r.User.Password
	live := false
	if i >= 0 {
		for _, p := range s.Users[i].Passwords {
			live = live || !p.Disabled && !p.Expired && w.matches(p.Hash, old)
		}
	}
	c := w.do("ChangeUserPassword", r, true, func() error { return w.db.ChangeUserPassword(r) })
	if !c.onlyUser() {
		if c.ok && !c.blocked && c.err != nil {
			w.must("C05", same(c.before, c.after), "refused", "a refused password change changes the user's records")
		}
		return
	}
	a, b := c.except("Passwords")
	pol := s.Policy.Password
	w.must("C12", len(pw) >= pol.MinLength && len(pw) <= pol.MaxLength, "limits", "ChangeUserPassword accepts a password of %d bytes under %+v", len(pw), pol)
	w.must("C05", live, "old", "ChangeUserPassword accepts the old password %q, records %s", old, js(a.Passwords))
	keep := pol.KeepVersions
	if keep < 1 {
		keep = 9
	}
	n := len(a.Passwords)
	if !w.must("C05", len(b.Passwords) >= 1 && len(b.Passwords) <= keep+3 && len(b.Passwords) <= n+1 && (len(b.Passwords) == n+1 || len(b.Passwords) >= keep), "history", "%d password records are kept of %d with KeepVersions %d", len(b.Passwords), n, pol.KeepVersions) {
		return
	}
	w.must("C20", strings.TrimSpace(pw) != "", "blank", "ChangeUserPassword accepts the blank password %q", pw)
	w.storedHash(b.Passwords[0].Hash, pw, "ChangeUserPassword")
	w.known[b.Passwords[0].Hash] = pw
	w.must("C05", !b.Passwords[0].Disabled && !b.Passwords[0].Expired, "new", "the new password record is disabled: %s", js(b.Passwords[0]))
	if w.prop == "C05" {
		w.must("C05", compare(b.Passwords[0].Hash, pw), "new", "the new password is not accepted")
	}
	for j := 1; j < len(b.Passwords); j++ {
		w.must("C05", b.Passwords[j].Disabled && b.Passwords[j].Hash == a.Passwords[j-1].Hash && b.Passwords[j].CreatedAt.Equal(a.Passwords[j-1].CreatedAt), "older", "retained record %d is %s, want %s disabled", j, js(b.Passwords[j]), js(a.Passwords[j-1]))
	}
}

func (w *world) lookupKey() {
	s := snapshot(w.db)
	var plains []string
	for _, u := range s.Users {
		for _, k := range u.APIKeys {
			if x, ok := w.known[k.Payload]; ok {
				plains = append(plains, x)
			}
		}
	}
	for _, k := range w.keys {
		plains = append(plains, k.plain)
	}
	r := requests.NewRequest()
	r.Key.Payload = apis[w.Intn(len(apis))].plain
	if len(plains) > 0 && w.Intn(4) > 0 {
		r.Key.Payload = plains[w.Intn(len(plains))]
	}
	switch w.Intn(8) {
	case 0:
		r.Key.Payload = r.Key.Payload[:24] + strings.Repeat("0", len(r.Key.Payload)-24)
	case 1:
		r.Key.Payload = w.pick("", r.Key.Payload[:24], r.Key.Payload[:71], r.Key.Payload+"x", r.Key.Payload[:w.Intn(72)])
	}
	pl := r.Key.Payload
	c := w.do("LookupAPIKey", r, false, func() error { return w.db.LookupAPIKey(r) })
	if !c.ok {
		return
	}
	var owners []int
	for i, u := range s.Users {
		for _, k := range u.APIKeys {
			if len(pl) >= 24 && (k.Prefix == pl[:24] || w.prop == "C06") && !k.Disabled && !k.Expired && w.matches(k.Payload, pl) {
				owners = append(owners, i)
			}
		}
	}
	if c.err == nil {
		ok := false
		for _, i := range owners {
			ok = ok || s.Users[i].Username == r.User.Username && mailOf(s.Users[i]) == r.User.Email
		}
		w.must("C06", ok, "lookup", "LookupAPIKey(%q) reports %q, %q; its owners are %v", pl, r.User.Username, r.User.Email, owners)
	}
	if k, ok := w.keys[pl]; ok {
		live := !k.disabled && !k.erased
		w.must("C06", (c.err == nil) == live, "issued", "the issued key %q (disabled %v, deleted %v) is looked up with %v", pl, k.disabled, k.erased, c.err)
		if c.err == nil {
			w.must("C06", r.User.Username == k.user, "owner", "the key of %q is looked up as that of %q", k.user, r.User.Username)
		}
	}
}

// added checks what holds of every added credential.
func added(c *call, field string, n, m int, keep func(i int) bool) bool {
	w := c.w
	if !w.must("C08", m == n+1, "count", "%s leaves %d entries of %d", c.what, m, n) {
		return false
	}
	for i := 0; i < n; i++ {
		w.must("C08", keep(i), "others", "%s changes the existing entry %d", c.what, i)
	}
	return !w.dead
}

func (w *world) addAPIKey() {
	r := w.request()
	r.Key.Usage, r.Key.Comment, r.Key.Disabled = w.pick("api", "api", "api", "api", "", "ssh"), w.pick("c1", "c2", "c3", ""), w.Intn(4) == 0
	q := r.Key
	c := w.do("AddAPIKey", r, true, func() error { return w.db.AddAPIKey(r) })
	if !c.onlyUser() {
		return
	}
	a, b := c.except("APIKeys")
	if !added(c, "APIKeys", len(a.APIKeys), len(b.APIKeys), func(i int) bool { return same(a.APIKeys[i], b.APIKeys[i]) }) {
		w.dead = true
		return
	}
	k := b.APIKeys[len(b.APIKeys)-1]
	w.must("C08", k.Usage == q.Usage && k.Comment == q.Comment && k.Disabled == q.Disabled && !k.Expired, "record", "AddAPIKey of %s stores %s", js(q), js(k))
	plain, ok := r.Response.Payload.(string)
	if !w.must("C20", ok && len(plain) >= 72, "issued", "AddAPIKey returns the payload %v", r.Response.Payload) || !ok || len(plain) < 24 {
		w.dead = true
		return
	}
	w.storedHash(k.Payload, plain, "AddAPIKey")
	w.must("C20", !strings.Contains(c.disk1, plain), "plain", "the database file holds the plain API key")
	w.must("C06", k.Prefix == plain[:24], "prefix", "the prefix of the issued key %q is %q", plain, k.Prefix)
	w.known[k.Payload] = plain
	w.keys[plain] = &issued{plain: plain, user: a.Username, id: k.ID, disabled: q.Disabled}
}

// removed checks what holds of every deletion.
func (w *world) removed(c *call, id string, a, b interface{}, idOf func(v interface{}) string, exists bool) {
	if !c.ok || c.blocked {
		return
	}
	if !exists {
		w.must("C07", c.err != nil, "missing", "%s of %q succeeds although there is no such entry", c.what, id)
		w.must("C07", same(c.before, c.after), "refused", "%s of %q is refused and changes the database", c.what, id)
		return
	}
	if c.err != nil {
		w.must("C07", same(c.before, c.after), "refused", "%s of %q is refused and changes the database", c.what, id)
		return
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	var want []interface{}
	for i := 0; i < x.Len(); i++ {
		if e := x.Index(i).Interface(); idOf(e) != id {
			want = append(want, e)
		}
	}
	ok := y.Len() == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = same(want[i], y.Index(i).Interface())
	}
	w.must("C07", ok, "removed", "%s of %q leaves %s of %s", c.what, id, js(b), js(a))
}

func (w *world) targetID(ids []string) string {
	if len(ids) > 0 && w.Intn(5) > 0 {
		return ids[w.Intn(len(ids))]
	}
	return w.pick("", w.word(40), "x")
}

func (w *world) deleteAPIKey() {
	r := w.request()
	s := snapshot(w.db)
	i := s.byBoth(r.User.Username, r.User.Email)
	var ids []string
	for j, u := range s.Users {
		for _, k := range u.APIKeys {
			if j == i || w.Intn(6) == 0 {
				ids = append(ids, k.ID)
			}
		}
	}
	r.Key.ID = w.targetID(ids)
	if w.Intn(4) == 0 && len(s.Users) > 0 {
		// a prefix the caller has no business to name
		u := s.Users[w.Intn(len(s.Users))]
		if len(u.APIKeys) > 0 {
			r.Key.Prefix = u.APIKeys[0].Prefix
		}
	}
	id := r.Key.ID
	c := w.do("DeleteAPIKey", r, true, func() error { return w.db.DeleteAPIKey(r) })
	var a, b []*identity.APIKey
	exists := false
	if c.onlyUser() {
		x, y := c.except("APIKeys")
		a, b = x.APIKeys, y.APIKeys
	}
	if i >= 0 {
		for _, k := range s.Users[i].APIKeys {
			if k.ID == id {
				exists = true
				if c.err == nil {
					if x, ok := w.known[k.Payload]; ok && w.keys[x] != nil {
						w.keys[x].erased = true
					}
				}
			}
		}
	}
	w.removed(c, id, a, b, func(v interface{}) string { return v.(*identity.APIKey).ID }, exists)
}

func (w *world) addPublicKey() {
	k := pubs[w.Intn(len(pubs))]
	r := w.request()
	r.Key.Usage, r.Key.Comment, r.Key.Payload, r.Key.Disabled = k.usage, w.pick("", "c1", "my key"), k.payload, w.Intn(4) == 0
	if !k.rsaBlock && !k.pgp && w.Intn(4) == 0 {
		r.Key.Usage = "gpg"
	}
	switch w.Intn(12) {
	case 0:
		r.Key.Usage = w.pick("", "api", "SSH", "gpg")
	case 1:
		r.Key.Payload = w.pick("", "ssh-rsa", "ssh-rsa ", "ssh-rsa AAAA", "RSA PUBLIC KEY", k.payload[:len(k.payload)/2], "x"+k.payload)
	}
	q := r.Key
	c := w.do("AddPublicKey", r, true, func() error { return w.db.AddPublicKey(r) })
	if !c.onlyUser() {
		return
	}
	a, b := c.except("PublicKeys")
	if !added(c, "PublicKeys", len(a.PublicKeys), len(b.PublicKeys), func(i int) bool { return same(a.PublicKeys[i], b.PublicKeys[i]) }) {
		return
	}
	n := b.PublicKeys[len(b.PublicKeys)-1]
	com := n.Comment == q.Comment
	if k.comment != "" && q.Payload == k.payload {
		com = n.Comment == k.comment
	} else if k.pgp {
		com = strings.HasPrefix(n.Comment, q.Comment)
	}
	w.must("C08", n.Usage == q.Usage && com && n.Disabled == q.Disabled && !n.Expired, "record", "AddPublicKey of %s stores %s", js(q), js(n))
	w.must("C08", n.Type != "" && n.Fingerprint != "", "type", "AddPublicKey of %s stores %s", js(q), js(n))
	for _, o := range a.PublicKeys {
		w.must("C08", o.Type != n.Type || o.Fingerprint != n.Fingerprint, "duplicate", "AddPublicKey stores %s although the user has %s", js(n), js(o))
		w.must("C08", o.Payload != n.Payload || o.OpenSSH != n.OpenSSH || o.Type != n.Type, "again", "AddPublicKey stores %s although the user has %s", js(n), js(o))
	}
}

func (w *world) deletePublicKey() {
	r := w.request()
	s := snapshot(w.db)
	i := s.byBoth(r.User.Username, r.User.Email)
	var ids []string
	for j, u := range s.Users {
		for _, k := range u.PublicKeys {
			if j == i || w.Intn(6) == 0 {
				ids = append(ids, k.ID)
			}
		}
	}
	r.Key.ID = w.targetID(ids)
	id := r.Key.ID
	c := w.do("DeletePublicKey", r, true, func() error { return w.db.DeletePublicKey(r) })
	var a, b []*identity.PublicKey
	exists := false
	if c.onlyUser() {
		x, y := c.except("PublicKeys")
		a, b = x.PublicKeys, y.PublicKeys
	}
	if i >= 0 {
		for _, k := range s.Users[i].PublicKeys {
			exists = exists || k.ID == id
		}
	}
	w.removed(c, id, a, b, func(v interface{}) string { return v.(*identity.PublicKey).ID }, exists)
}

func (w *world) addMfaToken() {
	r := w.request()
	t := &r.MfaToken
	t.Comment, t.Disabled = w.pick("phone", "key", "tablet", "", "phoneab"), w.Intn(4) == 0
	t.Type = w.pick("totp", "totp", "u2f", "u2f", "", "hotp")
	sound := false
	var want map[string]string
	var flags map[string]bool
	var counter uint32
	digits, alg := 0, ""
	var first, last bool // of the passcode before and after the call
	off := int64(w.Intn(5)) - 2
	period := 30
	switch t.Type {
	case "totp":
		t.Secret, t.Algorithm, t.Period, t.Digits = w.pick("topsecret", "othersecret", w.word(20)), w.pick("", "sha1", "SHA1", "sha256", "Sha512"), 30+w.Intn(271), w.pickInt(0, 4, 6, 8)
		sound = true
		switch w.Intn(10) {
		case 0:
			t.Algorithm, sound = w.pick("md5", "sha384", "sha-1", " sha1"), false
		case 1:
			t.Period, sound = w.pickInt(29, 0, -30, 301, 3600), false
		case 2:
			t.Digits, sound = w.pickInt(3, 9, -6, 1), false
		}
		digits, alg = t.Digits, strings.ToLower(t.Algorithm)
		if digits == 0 {
			digits = 6
		}
		if alg == "" {
			alg = "sha1"
		}
		if t.Period > 0 {
			period = t.Period
		}
		d := digits
		if d < 1 || d > 9 {
			d = 6
		}
		t.Passcode = totp(t.Secret, alg, d, uint64(time.Now().Unix()/int64(period)-1+off))
		if w.Intn(8) == 0 {
			t.Passcode = w.pick("", "000000", "1234", t.Passcode+"0", " "+t.Passcode)
		}
	case "u2f":
		r.WebAuthn.Challenge = w.pick(w.word(20), w.word(20), "samechallenge", "topsecret", "")
		r.WebAuthn.Register, sound, want, flags, counter = w.registration()
		if r.WebAuthn.Challenge == "" || r.WebAuthn.Register == "" {
			sound = false
		}
	}
	q, ch := *t, r.WebAuthn.Challenge
	ok := func(at time.Time) bool {
		return totpOK(q.Secret, alg, digits, period, q.Passcode, at.Add(-time.Duration(period)*time.Second))
	}
	first = ok(time.Now())
	c := w.do("AddMfaToken", r, true, func() error { return w.db.AddMfaToken(r) })
	last = ok(time.Now())
	if !c.onlyUser() {
		return
	}
	a, b := c.except("MfaTokens")
	w.must("C14", sound, "sound", "AddMfaToken accepts %s, registration %s", js(q), unb64(r.WebAuthn.Register))
	if q.Type == "totp" {
		w.must("C14", first || last, "passcode", "AddMfaToken accepts the passcode of %s", js(q))
	}
	if !added(c, "MfaTokens", len(a.MfaTokens), len(b.MfaTokens), func(i int) bool { return same(a.MfaTokens[i], b.MfaTokens[i]) }) {
		return
	}
	n := b.MfaTokens[len(b.MfaTokens)-1]
	w.must("C08", n.Comment == q.Comment && n.Type == q.Type && n.Disabled == q.Disabled && !n.Expired, "record", "AddMfaToken of %s stores %s", js(q), js(n))
	for _, o := range a.MfaTokens {
		w.must("C08", o.Secret != n.Secret && o.Comment != n.Comment, "duplicate", "AddMfaToken stores %s although the user has %s", js(n), js(o))
	}
	if q.Type == "totp" {
		w.must("C14", n.Secret == q.Secret && n.Algorithm == alg && n.Digits == digits && n.Period == q.Period && len(n.Parameters) == 0, "kept", "AddMfaToken of %s stores %s", js(q), js(n))
	} else {
		if len(flags) == 0 {
			flags = nil
		}
		w.must("C14", n.Secret == ch && same(n.Parameters, want) && same(n.Flags, flags) && n.SignatureCounter == counter, "recorded", "AddMfaToken of the registration %s stores %s, want the parameters %s, flags %s, counter %d", unb64(r.WebAuthn.Register), js(n), js(want), js(flags), counter)
	}
}

func (w *world) pickInt(xs ...int) int { return xs[w.Intn(len(xs))] }

func (w *world) deleteMfaToken() {
	r := w.request()
	s := snapshot(w.db)
	i := s.byBoth(r.User.Username, r.User.Email)
	var ids []string
	for j, u := range s.Users {
		for _, k := range u.MfaTokens {
			if j == i || w.Intn(6) == 0 {
				ids = append(ids, k.ID)
			}
		}
	}
	r.MfaToken.ID = w.targetID(ids)
	id := r.MfaToken.ID
	c := w.do("DeleteMfaToken", r, true, func() error { return w.db.DeleteMfaToken(r) })
	var a, b []*identity.MfaToken
	exists := false
	if c.onlyUser() {
		x, y := c.except("MfaTokens")
		a, b = x.MfaTokens, y.MfaTokens
	}
	if i >= 0 {
		for _, k := range s.Users[i].MfaTokens {
			exists = exists || k.ID == id
		}
	}
	w.removed(c, id, a, b, func(v interface{}) string { return v.(*identity.MfaToken).ID }, exists)
}

func (w *world) listing() {
	r := w.request()
	r.Key.Usage = w.pick("ssh", "gpg", "api", "api", "ssh", "", "other")
	s := snapshot(w.db)
	i := s.byBoth(r.User.Username, r.User.Email)
	kind := w.pick("GetPublicKeys", "GetAPIKeys", "GetMfaTokens", "GetUsers", "GetUser")
	f := map[string]func(*requests.Request) error{"GetPublicKeys": w.db.GetPublicKeys, "GetAPIKeys": w.db.GetAPIKeys, "GetMfaTokens": w.db.GetMfaTokens, "GetUsers": w.db.GetUsers, "GetUser": w.db.GetUser}[kind]
	usage := r.Key.Usage
	c := w.do(kind, r, false, func() error { return f(r) })
	if !c.ok {
		return
	}
	if c.err != nil {
		w.must("C21", i < 0, "refused", "%s is refused for an existing user: %v", kind, c.err)
		w.must("C04", r.Response.Payload == nil, "payload", "%s is refused and returns data", kind)
		return
	}
	if !w.must("C04", i >= 0, "identity", "%s is carried out although no user has both the username %q and the address %q", kind, r.User.Username, r.User.Email) {
		return
	}
	u := s.Users[i]
	var want, got []interface{}
	size := 0
	switch kind {
	case "GetPublicKeys":
		b, ok := r.Response.Payload.(*identity.PublicKeyBundle)
		if !w.must("C21", ok && b != nil, "type", "%s returns %T", kind, r.Response.Payload) {
			return
		}
		for _, k := range b.Get() {
			got = append(got, k)
		}
		size = b.Size()
		for _, k := range u.PublicKeys {
			if !k.Disabled && k.Usage == usage {
				want = append(want, k)
			}
		}
	case "GetAPIKeys":
		b, ok := r.Response.Payload.(*identity.APIKeyBundle)
		if !w.must("C21", ok && b != nil, "type", "%s returns %T", kind, r.Response.Payload) {
			return
		}
		for _, k := range b.Get() {
			got = append(got, k)
		}
		size = b.Size()
		for _, k := range u.APIKeys {
			if !k.Disabled && k.Usage == usage {
				want = append(want, k)
			}
		}
	case "GetMfaTokens":
		b, ok := r.Response.Payload.(*identity.MfaTokenBundle)
		if !w.must("C21", ok && b != nil, "type", "%s returns %T", kind, r.Response.Payload) {
			return
		}
		for _, k := range b.Get() {
			got = append(got, k)
		}
		size = b.Size()
		for _, k := range u.MfaTokens {
			if !k.Disabled {
				want = append(want, k)
			}
		}
	case "GetUsers":
		b, ok := r.Response.Payload.(*identity.UserMetadataBundle)
		if !w.must("C21", ok && b != nil, "type", "%s returns %T", kind, r.Response.Payload) {
			return
		}
		for _, k := range b.Get() {
			got = append(got, k)
		}
		size = b.Size()
		for _, x := range s.Users {
			m := &identity.UserMetadata{ID: x.ID, Enabled: x.Enabled, Username: x.Username, Title: x.Title, Name: nameOf(x.Name), Created: x.Created, LastModified: x.LastModified, Revision: x.Revision}
			if x.EmailAddress != nil {
				m.Email = x.EmailAddress.Address
			}
			if x.Avatar != nil {
				m.Avatar = x.Avatar.Path
			}
			want = append(want, m)
		}
	case "GetUser":
		x, ok := r.Response.Payload.(*identity.User)
		w.must("C04", ok && x != nil && same(clone(reflect.ValueOf(x)).Interface(), u), "user", "GetUser for %q, %q returns %s", r.User.Username, r.User.Email, js(r.Response.Payload))
		return
	}
	ok := len(got) == len(want)
	for j := 0; ok && j < len(got); j++ {
		ok = same(clone(reflect.ValueOf(got[j])).Interface(), want[j])
	}
	w.must("C21", ok, "listing", "%s for %q (usage %q) returns %s, want %s", kind, u.Username, usage, js(got), js(want))
	w.must("C21", size == len(got), "size", "%s returns %d entries and the size %d", kind, len(got), size)
	if kind != "GetUsers" && !ok {
		// entries of somebody else
		for _, g := range got {
			mine := false
			for _, x := range want {
				mine = mine || same(clone(reflect.ValueOf(g)).Interface(), x)
			}
			w.must("C04", mine, "listing", "%s for %q returns %s", kind, u.Username, js(g))
		}
	}
}

func (w *world) save() {
	w.do("Save", nil, true, func() error { return w.db.Save() })
}

func (w *world) copyTo() {
	to := filepath.Join(w.dir, fmt.Sprintf("copy%d.json", w.Intn(1000000)))
	defer os.Remove(to)
	before := w.db.GetPath()
	c := w.do("Copy", nil, false, func() error { return nil })
	if !c.ok {
		return
	}
	blocked := w.Intn(5) == 0
	if blocked {
		os.Mkdir(to, 0700)
	}
	rev := w.db.Revision
	var err error
	if !w.guarded("Copy", func() { err = w.db.Copy(to) }) {
		return
	}
	w.must("C09", w.db.GetPath() == before && before == w.path, "copypath", "Copy to %s leaves the database's path at %s", to, w.db.GetPath())
	if blocked {
		w.must("C09", err != nil, "copyfail", "Copy to a path that cannot be written returns no error")
		disk, _ := w.stat(w.path)
		w.must("C09", disk == c.disk1, "copyother", "Copy writes the database's own file")
		return
	}
	if !w.must("C09", err == nil, "copyerr", "Copy fails: %v", err) {
		return
	}
	data, mode := w.stat(to)
	w.must("C09", w.onDisk(data) == "", "copydisk", "after Copy: %s", w.onDisk(data))
	w.must("C09", mode.Perm()&0077 == 0 && mode.Perm()&0600 == 0600, "copymode", "Copy creates the file with mode %s", mode)
	w.must("C09", w.db.Revision > rev, "copyrev", "Copy leaves the revision at %d", rev)
	disk, _ := w.stat(w.path)
	w.must("C09", disk == c.disk1, "copyother", "Copy writes the database's own file")
}

// reopen goes on with the database opened from its file.
func (w *world) reopen() {
	w.save()
	if w.dead {
		return
	}
	w.ops = append(w.ops, "reopen")
	s := snapshot(w.db)
	var db *identity.Database
	var err error
	if !w.guarded("NewDatabase", func() { db, err = identity.NewDatabase(w.path) }) {
		return
	}
	if !w.must("C10", err == nil && db != nil, "reopen", "the saved database is refused: %v", err) || db == nil || err != nil {
		w.dead = true
		return
	}
	n := snapshot(db)
	n.Version, s.Version = "", ""
	w.must("C10", same(n, s), "altered", "the saved database is opened altered:\nsaved  %s\nopened %s", js(s), js(n))
	w.db = db
	w.lookups()
}

func (w *world) policy() {
	p := w.db.Policy
	var a, b, c, d string
	if !w.guarded("policy summaries", func() {
		a, b, c, d = w.db.GetUsernamePolicySummary(), w.db.GetUsernamePolicyRegex(), w.db.GetPasswordPolicySummary(), w.db.GetPasswordPolicyRegex()
	}) {
		return
	}
	w.must("C12", strings.Contains(a, fmt.Sprintf(" %d-%d character", p.User.MinLength, p.User.MaxLength)), "usersummary", "policy %+v is advertised as %q", p.User, a)
	w.must("C12", strings.HasSuffix(b, fmt.Sprintf("{%d,%d}$", p.User.MinLength-1, p.User.MaxLength-1)), "userregex", "policy %+v is advertised as %q", p.User, b)
	w.must("C12", strings.Contains(c, fmt.Sprintf(" %d-%d character", p.Password.MinLength, p.Password.MaxLength)), "passwordsummary", "policy %+v is advertised as %q", p.Password, c)
	w.must("C12", strings.HasSuffix(d, fmt.Sprintf("{%d,%d}$", p.Password.MinLength, p.Password.MaxLength)), "passwordregex", "policy %+v is advertised as %q", p.Password, d)
	for _, x := range []struct {
		on   bool
		frag string
	}{{p.Password.RequireUppercase, "(?=.*[A-Z])"}, {p.Password.RequireLowercase, "[a-z]"}, {p.Password.RequireNumber, "[0-9]"}, {p.Password.RequireNonAlphaNumeric, "[~!@#$&*]"}} {
		w.must("C12", strings.Contains(d, x.frag) == x.on, "passwordclasses", "policy %+v is advertised as %q", p.Password, d)
	}
	w.must("C12", strings.Contains(b, "A-Z") == p.User.AllowUppercase && strings.Contains(a, "lowercase") == !p.User.AllowUppercase, "usercase", "policy %+v is advertised as %q, %q", p.User, a, b)
}

func (w *world) deleteUser() {
	r := w.request()
	c := w.do("DeleteUser", r, true, func() error { return w.db.DeleteUser(r) })
	if c.ok && c.err == nil {
		w.must("C04", c.user >= 0, "identity", "DeleteUser is carried out although no user has both the username and the address")
		w.dead = true
	}
}

func unb64(s string) string {
	b, err := b64Decode(s)
	if err != nil {
		return s
	}
	return string(b)
}
