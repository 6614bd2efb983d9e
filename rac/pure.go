package main

import (
	"encoding/base32"
	"encoding/base64"
	stderrors "errors"
	"fmt"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/errors"
	"github.com/greenpau/go-identity/pkg/qr"
)

func init() {
	drivers["C15"] = racQR
	drivers["C19"] = racErrors
	drivers["C23"] = racRandom
	drivers["C24"] = racNames
	drivers["C17"] = racRoles
}

// C15
func racQR(r *Run) {
	algs := []string{"", "sha1", "SHA1", "sha256", "Sha256", "sha512", "SHA512", "sha384", "md5", "sha", "sha1 ", " sha1", "SHA-1", "1"}
	types := []string{"totp", "hotp", "TOTP", "", "otp", "Hotp"}
	for !r.over() {
		c := &qr.Code{}
		switch r.Intn(4) {
		case 0:
		case 1:
			c.Label = r.text()
		default:
			c.Label = "user" + r.text()
		}
		c.Secret = r.word(r.Intn(12))
		if r.Intn(3) > 0 {
			c.Secret = r.pick("secret", "s\u00e9cr\u00e9", "ab", "\u65e5\u672c", "") + r.text()
		}
		c.Issuer = r.text()
		c.Algorithm = algs[r.Intn(len(algs))]
		c.Type = types[r.Intn(3)]
		if r.Intn(8) == 0 {
			c.Type = types[r.Intn(len(types))]
		}
		c.Digits = []int{0, 4, 5, 6, 7, 8, 3, 9, -1, 10}[r.Intn(10)]
		if r.Intn(3) > 0 {
			c.Digits = []int{0, 4, 6, 8}[r.Intn(4)]
		}
		c.Period = []int{0, 30, 29, 31, 180, 181, 60, -30, 1}[r.Intn(9)]
		if r.Intn(3) > 0 {
			c.Period = []int{0, 30, 31, 180}[r.Intn(4)]
		}
		c.Counter = []int{0, 0, 1, 2, 100, -1, -100}[r.Intn(7)]
		in := *c
		alg := strings.ToLower(c.Algorithm)
		ok := c.Label != "" && len(c.Secret) >= 6 && (c.Digits == 0 || c.Digits >= 4 && c.Digits <= 8) && (c.Period == 0 || c.Period >= 30 && c.Period <= 180) &&
			(c.Type == "totp" || c.Type == "hotp" && c.Counter >= 1) && (alg == "" || alg == "sha1" || alg == "sha256" || alg == "sha512")
		err := c.Build()
		r.count(fmt.Sprintf("valid=%v", ok))
		if !r.check((err == nil) == ok, "accept", in, "Build of %+v: valid %v, error %v", in, ok, err) {
			return
		}
		if err != nil {
			r.check(c.Get() == "" && c.GetEncoded() == "", "nocode", in, "failed Build of %+v produced %q %q", in, c.Get(), c.GetEncoded())
			continue
		}
		want := "otpauth://" + in.Type + "/" + url.QueryEscape(in.Label) + "?secret=" + base32.StdEncoding.WithPadding(base32.NoPadding).EncodeToString([]byte(in.Secret))
		if in.Issuer != "" {
			want += "&issuer=" + url.QueryEscape(in.Issuer)
		}
		if alg != "" {
			want += "&algorithm=" + alg
		}
		d, p := in.Digits, in.Period
		if d == 0 {
			d = 6
		}
		if p == 0 {
			p = 30
		}
		want += "&digits=" + strconv.Itoa(d)
		if in.Counter > 0 {
			want += "&counter=" + strconv.Itoa(in.Counter)
		}
		want += "&period=" + strconv.Itoa(p)
		r.check(c.Get() == want, "uri", in, "Build of %+v: got %q, want %q", in, c.Get(), want)
		r.check(c.GetEncoded() == base64.StdEncoding.EncodeToString([]byte(want)), "encoded", in, "Build of %+v: encoded form %q", in, c.GetEncoded())
	}
}

// C19
func racErrors(r *Run) {
	base := stderrors.New("inner")
	for !r.over() {
		e := errors.StandardError(r.pick("plain", "with %s", "with %v and %v", "%d %s", "", "wrap: %v", "%w", "100%"))
		n := r.Intn(5)
		var args []interface{}
		anyNil, anyErr := false, false
		desc := ""
		for i := 0; i < n; i++ {
			switch r.Intn(8) {
			case 6, 7:
				inner := errors.StandardError("inner %v").WithArgs(base)
				for r.Intn(3) == 0 {
					inner = errors.StandardError("outer %v").WithArgs(inner, r.Intn(3))
				}
				args = append(args, inner)
				anyErr = true
				desc += " error-with-arguments"
			case 0:
				args = append(args, nil)
				anyNil = true
				desc += " nil"
			case 1:
				args = append(args, base)
				anyErr = true
				desc += " error"
			case 2:
				args = append(args, errors.StandardError("std"))
				anyErr = true
				desc += " StandardError"
			case 3:
				args = append(args, fmt.Errorf("w: %w", base))
				anyErr = true
				desc += " wrapped"
			case 4:
				args = append(args, r.text())
				desc += " string"
			default:
				args = append(args, r.Intn(10))
				desc += " int"
			}
		}
		got := e.WithArgs(args...)
		r.count(fmt.Sprintf("args=%d nil=%v err=%v", n, anyNil, anyErr))
		in := map[string]string{"error": string(e), "args": desc}
		if !anyNil || anyErr {
			if !r.check(got != nil, "lost", in, "%q.WithArgs(%s) is nil", string(e), desc) {
				return
			}
		} else {
			r.check(got == nil, "kept", in, "%q.WithArgs(%s) is not nil", string(e), desc)
		}
		if got != nil {
			r.check(stderrors.Is(got, e), "class", in, "%q.WithArgs(%s) does not unwrap to it", string(e), desc)
		}
	}
}

var alnumRe = regexp.MustCompile(`^[a-zA-Z0-9]*$`)

// C23
func racRandom(r *Run) {
	for !r.over() {
		n := r.Intn(200) - 20
		if r.Intn(10) == 0 {
			n = r.Intn(5000)
		}
		s := identity.GetRandomString(n)
		want := n
		if n < 1 {
			want = 40
		}
		r.count("GetRandomString")
		r.check(len(s) == want && alnumRe.MatchString(s), "string", n, "GetRandomString(%d) = %q", n, s)
		a, b := 1+r.Intn(40), 1+r.Intn(40)
		switch r.Intn(4) {
		case 0:
			b = a
		case 1:
			b = a + 1
		}
		t := identity.GetRandomStringFromRange(a, b)
		lo, hi := a, b
		if lo > hi {
			lo, hi = hi, lo
		}
		r.count("GetRandomStringFromRange")
		r.check(len(t) >= lo && len(t) <= hi && alnumRe.MatchString(t), "range", []int{a, b}, "GetRandomStringFromRange(%d, %d) = %q", a, b, t)
		m := r.Intn(100)
		want = m
		if m == 0 {
			want = 32
		}
		u := identity.NewRandomString(m)
		r.count("NewRandomString")
		r.check(len(u) == want && alnumRe.MatchString(u), "uuid", m, "NewRandomString(%d) = %q", m, u)
		if r.Intn(20) == 0 {
			var wg sync.WaitGroup
			bad := make([]string, 4)
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := 0; i < 10; i++ {
						s, t, u := identity.GetRandomString(n), identity.GetRandomStringFromRange(a, b), identity.NewRandomString(m)
						if !alnumRe.MatchString(s+t+u) || n > 0 && len(s) != n || len(t) < lo || len(t) > hi || len(u) != want {
							bad[g] = fmt.Sprintf("GetRandomString(%d) = %q, GetRandomStringFromRange(%d, %d) = %q, NewRandomString(%d) = %q", n, s, a, b, t, m, u)
						}
						identity.NewID()
					}
				}(g)
			}
			wg.Wait()
			for _, x := range bad {
				r.check(x == "", "concurrent", nil, "generated at the same time: %s", x)
			}
			r.count("generated at the same time")
		}
		id := identity.NewID()
		r.check(len(id) > 0, "id", nil, "NewID() is empty")
	}
}

var emailRe = regexp.MustCompile("^[a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?(?:\\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*$")

func (r *Run) email() string {
	s := r.pick("a", "b", "jsmith", "J.Smith", "x+y", "o'n", "web_admin") + r.pick("@", "@", "@", "@", "", "@@", " @") + r.pick("a.com", "example.COM", "localhost", "a-b.io", "a.b.c", "-a.com", "a-.com", "a..b", "é.com", "ſ.com", "K.com", "", strings.Repeat("a", 63)+".com", strings.Repeat("a", 64)+".com", "a."+strings.Repeat("b", 63)+r.pick("", ".c"), "a."+strings.Repeat("b", 64)+r.pick("", ".c"), "a.b-"+strings.Repeat("b", 60+r.Intn(4)))
	if r.Intn(10) == 0 {
		s = r.text() + s
	}
	if r.Intn(10) == 0 {
		s += r.pick(" ", "\n", ".", "@", "x")
	}
	return s
}

// C24
func racNames(r *Run) {
	for !r.over() {
		s := r.email()
		e, err := identity.NewEmailAddress(s)
		ok := emailRe.MatchString(s)
		r.count(fmt.Sprintf("email valid=%v", ok))
		if !r.check((err == nil) == ok, "email", s, "NewEmailAddress(%q): error %v", s, err) {
			return
		}
		if err == nil {
			i := strings.LastIndexByte(s, '@')
			r.check(e.Address == s && e.Domain == s[i+1:] && !e.Primary() && !e.Confirmed, "emailparts", s, "NewEmailAddress(%q) = %+v", s, e)
		}
		// names
		n := ""
		for i, k := 0, r.Intn(7); i < k; i++ {
			n += r.pick("Smith", "John", ",", " ", ",", " ", "é", "\t", "x")
		}
		cc, sc := strings.Count(n, ","), strings.Count(n, " ")
		nm, err := identity.ParseName(n)
		ok = cc == 1 || sc == 1
		r.count(fmt.Sprintf("name valid=%v", ok))
		if !r.check((err == nil) == ok, "name", n, "ParseName(%q): error %v", n, err) {
			return
		}
		if err == nil {
			var first, last string
			if cc == 1 {
				i := strings.Index(n, ",")
				last, first = strings.TrimSpace(n[:i]), strings.TrimSpace(n[i+1:])
			} else {
				i := strings.Index(n, " ")
				first, last = strings.TrimSpace(n[:i]), strings.TrimSpace(n[i+1:])
			}
			r.check(nm.First == first && nm.Last == last && nm.Middle == "" && nm.Preferred == "" && !nm.Nickname && !nm.Confirmed && !nm.Primary && !nm.Legal && !nm.Alias, "nameparts", n, "ParseName(%q) = %+v", n, nm)
			full := nm.GetFullName()
			if cc == 1 && first != "" {
				b, err := identity.ParseName(full)
				r.check(err == nil && b.First == nm.First && b.Last == nm.Last, "roundtrip", n, "ParseName(%q) gives %+v, formatted %q, parsed again %+v %v", n, nm, full, b, err)
			}
		}
		// addresses of a user
		u := &identity.User{}
		var added []string
		for i, k := 0, 1+r.Intn(5); i < k; i++ {
			a := r.pick("A@b.com", "a@b.com", "a@B.com", "c@d.org", "C@D.org", "x@y.z", "bad")
			dup := false
			for _, p := range added {
				dup = dup || strings.EqualFold(p, a)
			}
			err := u.AddEmailAddress(a)
			want := emailRe.MatchString(a) && !dup
			r.count("AddEmailAddress")
			added2 := append(append([]string(nil), added...), a)
			if !r.check((err == nil) == want || dup && err == nil, "addemail", added2, "AddEmailAddress(%q) after %q: error %v", a, added, err) {
				return
			}
			if want {
				added = append(added, a)
			}
			if !r.check(len(u.EmailAddresses) == len(added), "emailcount", added2, "after adding %q the user has %d addresses", added2, len(u.EmailAddresses)) {
				return
			}
			for j, x := range u.EmailAddresses {
				r.check(x.Address == added[j], "emailorder", added2, "address %d is %+v, want %q", j, x, added[j])
			}
			if len(added) > 0 {
				r.check(u.GetMailClaim() == added[0] && u.EmailAddress != nil && u.EmailAddress.Address == added[0], "primary", added2, "mail claim %q, want %q", u.GetMailClaim(), added[0])
			}
		}
	}
}

// C17
func racRoles(r *Run) {
	parse := func(s string) (org, name string, ok bool) {
		s = strings.TrimSpace(s)
		if s == "" {
			return "", "", false
		}
		if i := strings.Index(s, "/"); i >= 0 {
			return s[:i], s[i+1:], true
		}
		return "", s, true
	}
	type role struct{ org, name string }
	for !r.over() {
		u := &identity.User{}
		var have []role
		var granted []string
		var hist []string
		pool := []string{"admin", "user", "org/admin", "org/user", "admin/org", "org/a/b", " admin ", "org/", "a", "Org/admin", " ", "", "\t", "org/ admin", "user/"}
		for i, k := 0, 1+r.Intn(8); i < k; i++ {
			s := pool[r.Intn(len(pool))]
			if r.Intn(6) == 0 {
				s = r.text()
				for strings.HasPrefix(strings.TrimSpace(s), "/") {
					s = strings.TrimLeft(strings.TrimSpace(s), "/")
				}
			}
			hist = append(hist, s)
			org, name, ok := parse(s)
			in := false
			for _, h := range have {
				in = in || h == role{org, name}
			}
			before := u.HasRole(s)
			err := u.AddRole(s)
			r.count("AddRole")
			if ok {
				r.check(before == in, "before", hist, "HasRole(%q) = %v after granting %q", s, before, hist[:i])
			}
			if !r.check(ok || err != nil, "blank", hist, "AddRole(%q): error %v", s, err) {
				return
			}
			if ok && !in {
				if !r.check(err == nil, "refused", hist, "AddRole(%q) after %q: error %v", s, hist[:i], err) {
					return
				}
				have = append(have, role{org, name})
				granted = append(granted, strings.TrimSpace(s))
			}
			if ok {
				r.check(u.HasRole(s), "has", hist, "HasRole(%q) is false after granting %q", s, hist)
			}
			if !r.check(len(u.Roles) == len(have), "count", hist, "%d roles stored after granting %q, want %d", len(u.Roles), hist, len(have)) {
				return
			}
			for j, h := range have {
				r.check(u.Roles[j].Name == h.name && u.Roles[j].Organization == h.org, "stored", hist, "role %d after granting %q is %+v, want %+v", j, hist, *u.Roles[j], h)
			}
			claim := u.GetRolesClaim()
			if !r.check(len(claim) == len(granted), "claims", hist, "roles claim %q after granting %q", claim, hist) {
				return
			}
			for j := range granted {
				r.check(claim[j] == granted[j], "claim", hist, "roles claim %q after granting %q", claim, hist)
			}
			// an arbitrary query
			q := pool[r.Intn(len(pool))]
			if qo, qn, ok := parse(q); ok {
				in := false
				for _, h := range have {
					in = in || h == role{qo, qn}
				}
				r.check(u.HasRole(q) == in, "query", append(hist, "?"+q), "HasRole(%q) = %v after granting %q", q, !in, hist)
			}
		}
	}
}
