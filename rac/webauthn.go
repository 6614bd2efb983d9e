package main

import (
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"encoding/asn1"

	"github.com/greenpau/go-identity"
)

func rpHash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])
}

var b64 = base64.StdEncoding.EncodeToString

// assertion is a WebAuthn assertion before it is encoded.
type assertion struct {
	ID, Challenge, Type, Origin string
	Cross                       bool
	RP                          []byte
	Flags                       byte
	Tail                        []byte
	Key                         int
	SignOther                   int // what the signature is made over
	Damage                      int
	RawClient                   string
}

func (a *assertion) payload() (string, []byte, []byte, []byte) {
	client := map[string]interface{}{"challenge": a.Challenge, "type": a.Type, "origin": a.Origin, "crossOrigin": a.Cross}
	cb, _ := json.Marshal(client)
	if a.RawClient != "" {
		cb = []byte(a.RawClient)
	}
	ab := append(append([]byte(nil), a.RP...), a.Flags)
	var c [4]byte
	binary.BigEndian.PutUint32(c[:], 7)
	ab = append(append(ab, c[:]...), a.Tail...)
	ch := sha256.Sum256(cb)
	signed := append(append([]byte(nil), ab...), ch[:]...)
	switch a.SignOther {
	case 1:
		signed = append([]byte(nil), ab...)
	case 2:
		signed = append([]byte(nil), ch[:]...)
	case 3:
		signed = append(append([]byte(nil), ab...), cb...)
	case 4:
		signed = append(append([]byte(nil), ch[:]...), ab...)
	case 5:
		signed = append(append([]byte(nil), signed...), 0)
	}
	d := sha256.Sum256(signed)
	sig, err := ecdsa.SignASN1(rand.Reader, akeys[a.Key].priv, d[:])
	if err != nil {
		panic(err)
	}
	switch a.Damage {
	case 1:
		sig[len(sig)-1] ^= 1
	case 2:
		sig, _ = asn1.Marshal(struct{ R, S *big.Int }{big.NewInt(0), big.NewInt(0)})
	case 3:
		sig = []byte{}
	case 4:
		sig = []byte{0x30}
	}
	m := map[string]interface{}{"id": a.ID, "type": "public-key", "client_data_encoded": b64(cb), "signature_encoded": b64(sig), "auth_data_encoded": b64(ab)}
	switch a.Damage {
	case 5:
		delete(m, "signature_encoded")
	case 6:
		delete(m, "client_data_encoded")
	case 7:
		delete(m, "auth_data_encoded")
	case 8:
		m["client_data_encoded"] = b64(cb) + "!"
	case 9:
		m["auth_data_encoded"] = b64(ab[:36])
	case 10:
		// unverified members that must not be taken for the signed ones
		m["client_data"] = client
		m["auth_data"] = map[string]interface{}{"rpIdHash": hex.EncodeToString(a.RP), "flags": map[string]bool{"UP": true}}
	case 11:
		m["client_data_encoded"] = b64([]byte("null"))
	}
	b, _ := json.Marshal(m)
	p := b64(b)
	if a.Damage == 12 {
		p = p[:len(p)/2]
	}
	return p, cb, ab, sig
}

// accepted is the reference: may this assertion log the user in.
func accepted(u *identity.User, a *assertion, challenge string, cb, ab, sig []byte) bool {
	if a.Damage != 0 && a.Damage != 10 && a.Damage != 1 && a.Damage != 2 {
		return false
	}
	var c struct {
		Type        string `json:"type"`
		Challenge   string `json:"challenge"`
		CrossOrigin bool   `json:"crossOrigin"`
	}
	if json.Unmarshal(cb, &c) != nil {
		return false
	}
	if len(ab) < 37 {
		return false
	}
	ch := sha256.Sum256(cb)
	d := sha256.Sum256(append(append([]byte(nil), ab...), ch[:]...))
	for _, t := range u.MfaTokens {
		if t.Disabled || t.Type != "u2f" || t.Parameters["u2f_id"] != a.ID {
			continue
		}
		ok := false
		for i := range akeys {
			if akeys[i].x == t.Parameters["curve_xcoord"] && akeys[i].y == t.Parameters["curve_ycoord"] {
				ok = ecdsa.VerifyASN1(&akeys[i].priv.PublicKey, d[:], sig)
			}
		}
		if ok && c.Type == "webauthn.get" && !c.CrossOrigin && c.Challenge == challenge && hex.EncodeToString(ab[:32]) == t.Parameters["rp_id_hash"] && ab[32]&1 == 1 {
			return true
		}
	}
	return false
}

// assertFor makes an assertion for a user, most of them right in all but one respect.
func (w *world) assertFor(u *identity.User) (*assertion, string) {
	a := &assertion{ID: w.pick("keyid-a", "keyid-b", "keyid-c", ""), Challenge: w.word(20), Type: "webauthn.get", Origin: "https://localhost", Flags: 1 | byte(w.Intn(256))&^2, Key: w.Intn(len(akeys))}
	h := sha256sum(w.pick("example.com", "localhost", "evil.com"))
	a.RP = h
	var ts []*identity.MfaToken
	for _, t := range u.MfaTokens {
		if t.Type == "u2f" {
			ts = append(ts, t)
		}
	}
	if len(ts) > 0 && w.Intn(8) > 0 {
		t := ts[w.Intn(len(ts))]
		a.ID = t.Parameters["u2f_id"]
		if b, err := hex.DecodeString(t.Parameters["rp_id_hash"]); err == nil && len(b) == 32 {
			a.RP = b
		}
		for i := range akeys {
			if akeys[i].x == t.Parameters["curve_xcoord"] {
				a.Key = i
			}
		}
	}
	challenge := a.Challenge
	if w.Intn(3) > 0 {
		switch w.Intn(14) {
		case 0:
			a.Type = w.pick("webauthn.create", "", "WEBAUTHN.GET", "webauthn.get ")
		case 1:
			a.Cross = true
		case 2:
			challenge = w.pick("", w.word(20), strings.ToUpper(challenge), challenge+" ", challenge[:19])
		case 3:
			a.RP = sha256sum(w.pick("example.com", "localhost", "evil.com"))
		case 4:
			a.Flags &^= 1
		case 5:
			a.Key = w.Intn(len(akeys))
		case 6:
			a.SignOther = 1 + w.Intn(5)
		case 7, 8, 9:
			a.Damage = 1 + w.Intn(12)
		case 10:
			a.ID = w.pick("keyid-a", "keyid-b", "keyid-c", "", "KEYID-A")
		case 11:
			a.Tail = []byte(w.word(w.Intn(40)))
		case 12:
			a.Flags = 4
		case 13:
			a.RawClient = w.pick(`{"type":"webauthn.get","challenge":"`+challenge+`","Type":"x"}`, `{"type":"webauthn.get","challenge":"`+challenge+`"}`, `{"challenge":"`+challenge+`"}`, `[]`, `{"type":"webauthn.get"}`, `{"type":"webauthn.get","challenge":"`+challenge+`","crossOrigin":true,"crossOrigin":false}`)
		}
		if w.Intn(6) == 0 {
			a.Damage = 10
		}
	}
	return a, challenge
}

func sha256sum(s string) []byte { h := sha256.Sum256([]byte(s)); return h[:] }

// registerPayload is a registration, sound or with one defect.
func (w *world) registration() (payload string, sound bool, want map[string]string, flags map[string]bool, counter uint32) {
	k := akeys[w.Intn(len(akeys))]
	pk := map[string]interface{}{"key_type": 2, "algorithm": -7, "curve_type": 1, "curve_x": k.x, "curve_y": k.y}
	flags = map[string]bool{"UP": w.Intn(2) == 0, "UV": w.Intn(2) == 0}
	counter = uint32(w.Intn(100))
	rp := rpHash("example.com")
	auth := map[string]interface{}{"rpIdHash": rp, "flags": flags, "signatureCounter": counter, "credentialData": map[string]interface{}{"aaguid": "x", "credentialId": "y", "publicKey": pk}}
	tr := [][]string{nil, {"usb"}, {"nfc", "ble"}, {"internal"}}[w.Intn(4)]
	m := map[string]interface{}{"id": "keyid-" + w.pick("a", "b", "n"), "type": "public-key", "transports": tr, "attestationObject": map[string]interface{}{"authData": auth, "fmt": "none"}}
	sound = true
	want = map[string]string{"u2f_id": m["id"].(string), "u2f_type": "public-key", "u2f_transports": strings.Join(tr, ","), "rp_id_hash": rp, "key_type": "ec2", "key_algo": "es256", "curve_type": "p256", "curve_xcoord": k.x, "curve_ycoord": k.y}
	cd := auth["credentialData"].(map[string]interface{})
	if w.Intn(2) == 0 {
		sound = false
		switch w.Intn(22) {
		case 0:
			m["id"] = ""
		case 1:
			m["type"] = w.pick("", "publickey", "Public-Key")
		case 2:
			m["transports"] = []string{"usb", w.pick("", "wifi", "USB")}
		case 3:
			delete(m, "attestationObject")
		case 4:
			m["attestationObject"] = map[string]interface{}{"fmt": "none"}
		case 5:
			auth["rpIdHash"] = ""
		case 6:
			delete(auth, "flags")
		case 7:
			delete(auth, "credentialData")
		case 8:
			delete(cd, "publicKey")
		case 9:
			pk["key_type"] = []interface{}{1, 3, "2", nil, true, 2.5}[w.Intn(6)]
		case 10:
			delete(pk, "key_type")
		case 11:
			pk["algorithm"] = []interface{}{-8, 7, "-7", nil, -257}[w.Intn(5)]
		case 12:
			delete(pk, "algorithm")
		case 13:
			pk["curve_type"] = []interface{}{2, 3, "1", nil}[w.Intn(4)]
		case 14:
			pk["curve_x"] = []interface{}{1, nil, []int{1}, true}[w.Intn(4)]
		case 15:
			pk["curve_y"] = []interface{}{1, nil, map[string]int{}, false}[w.Intn(4)]
		case 16:
			delete(pk, "curve_type")
			want["curve_type"] = ""
			sound = true
		case 17:
			cd["publicKey"] = nil
		case 18:
			auth["flags"] = nil
		case 19:
			delete(pk, "curve_x")
			want["curve_xcoord"] = ""
			sound = true
		case 20:
			auth["flags"] = map[string]bool{}
			flags = map[string]bool{}
			sound = true
		case 21:
			m["attestationObject"] = nil
		}
	}
	b, _ := json.Marshal(m)
	payload = b64(b)
	if w.Intn(20) == 0 {
		payload, sound = w.pick(payload[:len(payload)/2]+"*", "null", b64([]byte("null")), b64([]byte("[]")), b64([]byte(`{"id":1}`)), "", "%"), false
	}
	return
}

// totp is the RFC 6238 code of a secret for a time step.
func totp(secret, alg string, digits int, step uint64) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], step)
	sum := hmacSum(alg, []byte(secret), b[:])
	off := int(sum[len(sum)-1] & 15)
	v := uint64(binary.BigEndian.Uint32(sum[off:off+4]) & 0x7fffffff)
	m := uint64(1)
	for i := 0; i < digits; i++ {
		m *= 10
	}
	return fmt.Sprintf("%0*d", digits, v%m)
}

// totpOK is the reference for validating a code.
func totpOK(secret, alg string, digits, period int, code string, at time.Time) bool {
	code = strings.TrimSpace(code)
	if period < 1 || digits < 4 || digits > 8 || (alg != "sha1" && alg != "sha256" && alg != "sha512") || at.Unix() < 0 {
		return false
	}
	st := uint64(at.Unix() / int64(period))
	for _, d := range []uint64{0, 1, ^uint64(0)} {
		if code == totp(secret, alg, digits, st+d) {
			return true
		}
	}
	return false
}
