package main

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"strings"
	"time"

	"github.com/greenpau/go-identity"
)

func init() { drivers["C13"] = racTotp }

func hmacSum(alg string, key, msg []byte) []byte {
	var f func() hash.Hash
	switch alg {
	case "sha1":
		f = sha1.New
	case "sha256":
		f = sha256.New
	default:
		f = sha512.New
	}
	m := hmac.New(f, key)
	m.Write(msg)
	return m.Sum(nil)
}

// C13
func racTotp(r *Run) {
	for !r.over() {
		t := &identity.MfaToken{Type: "totp", Secret: r.pick("", "secret", "12345678901234567890", "\u65e5\u672c\x00", r.word(r.Intn(200))), Algorithm: r.pick("sha1", "sha256", "sha512", "sha1", "sha256", "sha512", "", "SHA1", "md5"), Digits: 4 + r.Intn(5), Period: []int{30, 30, 60, 1, 7, 300, 3600, 86400}[r.Intn(8)]}
		switch r.Intn(12) {
		case 0:
			t.Digits = []int{0, 3, 9, -1, 10}[r.Intn(5)]
		case 1:
			t.Period = []int{0, -1, -30}[r.Intn(3)]
		}
		var sec int64
		switch r.Intn(5) {
		case 0:
			sec = int64(r.Intn(200))
		case 1:
			sec = r.Int63n(253402300799)
		case 2:
			p := int64(t.Period)
			if p < 1 {
				p = 30
			}
			sec = p*r.Int63n(253402300799/p-2) + int64(r.Intn(3)) - 1
			if sec < 0 {
				sec = 0
			}
		case 3:
			sec = 253402300799 - int64(r.Intn(100))
		default:
			sec = 1600000000 + r.Int63n(1000000)
		}
		at := time.Unix(sec, int64(r.Intn(1000000000))).UTC()
		d := t.Digits
		if d < 1 || d > 10 {
			d = 6
		}
		p := int64(t.Period)
		if p < 1 {
			p = 30
		}
		alg := t.Algorithm
		off := int64(r.Intn(7)) - 3
		st := uint64(sec/p + off)
		code := ""
		switch r.Intn(8) {
		case 0:
			code = r.pick("", "1", "0000", "000000", "00000000", "abcd", "12345678", "+123", "-001")
		case 1:
			c := []byte(totp(t.Secret, alg, d, st))
			c[r.Intn(len(c))] = byte('0' + r.Intn(10))
			code = string(c)
		case 2:
			code = totp(t.Secret, alg, d, st)
			code = code[r.Intn(2):]
			if r.Intn(2) == 0 {
				code = "0" + code
			}
		default:
			code = totp(t.Secret, alg, d, st)
		}
		if r.Intn(5) == 0 {
			code = r.pick(" ", "\t", "\n", "\u00a0") + code + r.pick("", " ", "\r\n")
		}
		if sec/p == 0 {
			// there is no step before the first one
			if strings.TrimSpace(code) == totp(t.Secret, alg, d, ^uint64(0)) {
				continue
			}
		}
		ok := totpOK(t.Secret, t.Algorithm, t.Digits, t.Period, code, at)
		err := t.ValidateCodeWithTime(code, at)
		r.count(fmt.Sprintf("%v offset=%d", ok, off))
		in := map[string]interface{}{"secret": t.Secret, "algorithm": t.Algorithm, "digits": t.Digits, "period": t.Period, "code": code, "time": at}
		if !r.check((err == nil) == ok, "totp", in, "validating %q with %s (secret %q, digits %d, period %d) at %s: want accepted=%v, got %v", code, t.Algorithm, t.Secret, t.Digits, t.Period, at, ok, err) {
			return
		}
		// the present
		if r.Intn(4) == 0 && t.Period > 0 {
			n1 := time.Now()
			c := totp(t.Secret, alg, d, uint64(n1.Unix()/p+off))
			err := t.ValidateCode(c)
			n2 := time.Now()
			a, b := totpOK(t.Secret, t.Algorithm, t.Digits, t.Period, c, n1), totpOK(t.Secret, t.Algorithm, t.Digits, t.Period, c, n2)
			if a == b {
				in["code"], in["time"] = c, "now"
				r.check((err == nil) == a, "totpnow", in, "validating %q now: want accepted=%v, got %v", c, a, err)
			}
		}
	}
}
