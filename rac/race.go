package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() { drivers["C11"] = racLocks }

// C11: operations run at the same time; the driver is built with the race detector, which ends it when two of them
// touch the same state without the lock. An operation that does not return holds the lock.
func racLocks(r *Run) {
	// first one after another: an operation that leaves the lock held stops the next one
	end := r.deadline
	r.deadline = time.Now().Add(time.Until(end) / 4)
	racMachine(r, nil)
	r.deadline = end
	for !r.over() {
		w := r.start()
		if w.dead || len(w.db.Users) == 0 {
			continue
		}
		s := snapshot(w.db)
		p := w.db.Policy
		done := make(chan bool)
		var wg sync.WaitGroup
		var mu sync.Mutex
		pending := map[int]string{}
		for g := 0; g < 4; g++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(g int) {
				defer wg.Done()
				// panics are for C16
				defer func() { recover() }()
				for i := 0; i < 25; i++ {
					name, f := concurrentOp(rr, s, w.db, p, w.dir)
					mu.Lock()
					pending[g] = name
					mu.Unlock()
					f()
				}
			}(g)
		}
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			mu.Lock()
			var at []string
			for _, n := range pending {
				at = append(at, n)
			}
			mu.Unlock()
			r.check(false, "hang", map[string]interface{}{"file": w.file, "operations": at}, "operations running at the same time do not return: %s", strings.Join(at, ", "))
			return
		}
		r.count("100 concurrent operations")
		os.Remove(w.path)
	}
}

func concurrentOp(rr *rand.Rand, s *snap, db *identity.Database, pol identity.Policy, dir string) (string, func()) {
	r := requests.NewRequest()
	u := s.Users[rr.Intn(len(s.Users))]
	r.User.Username, r.User.Email = u.Username, mailOf(u)
	r.User.Password = passwords[rr.Intn(len(passwords))].plain
	r.User.OldPassword = passwords[rr.Intn(len(passwords))].plain
	k := pubs[rr.Intn(len(pubs))]
	call := func(n string, f func(*requests.Request) error) (string, func()) { return n, func() { f(r) } }
	n := rr.Intn(26)
	if (n == 0 || n == 5 || n == 10) && rr.Intn(4) > 0 {
		n += 11 // hashing is slow
	}
	switch n {
	case 0:
		r.User.Username, r.User.Email = fmt.Sprintf("user%d", rr.Intn(100)), fmt.Sprintf("user%d@x.yz", rr.Intn(100))
		return call("AddUser", db.AddUser)
	case 1:
		return call("GetUsers", db.GetUsers)
	case 2:
		return call("GetUser", db.GetUser)
	case 3, 4:
		return call("AuthenticateUser", db.AuthenticateUser)
	case 5:
		return call("ChangeUserPassword", db.ChangeUserPassword)
	case 6, 7:
		r.Flags.Enabled = true
		return call("IdentifyUser", db.IdentifyUser)
	case 8, 9:
		r.Key.Payload = apis[rr.Intn(len(apis))].plain
		return call("LookupAPIKey", db.LookupAPIKey)
	case 10:
		r.Key.Usage, r.Key.Comment = "api", "c"
		return call("AddAPIKey", db.AddAPIKey)
	case 11:
		if len(u.APIKeys) > 0 {
			r.Key.ID = u.APIKeys[0].ID
		}
		return call("DeleteAPIKey", db.DeleteAPIKey)
	case 12:
		r.Key.Usage = "api"
		return call("GetAPIKeys", db.GetAPIKeys)
	case 13, 14:
		r.Key.Usage, r.Key.Payload = k.usage, k.payload
		return call("AddPublicKey", db.AddPublicKey)
	case 15:
		if len(u.PublicKeys) > 0 {
			r.Key.ID = u.PublicKeys[0].ID
		}
		return call("DeletePublicKey", db.DeletePublicKey)
	case 16:
		r.Key.Usage = k.usage
		return call("GetPublicKeys", db.GetPublicKeys)
	case 17:
		t := &r.MfaToken
		t.Type, t.Comment, t.Secret, t.Period, t.Digits = "totp", fmt.Sprint(rr.Intn(100)), fmt.Sprint("s", rr.Intn(100)), 30, 6
		t.Passcode = totp(t.Secret, "sha1", 6, uint64(time.Now().Unix()/30-1))
		return call("AddMfaToken", db.AddMfaToken)
	case 18:
		if len(u.MfaTokens) > 0 {
			r.MfaToken.ID = u.MfaTokens[0].ID
		}
		return call("DeleteMfaToken", db.DeleteMfaToken)
	case 19:
		return call("GetMfaTokens", db.GetMfaTokens)
	case 20:
		return "GetUserCount", func() { db.GetUserCount() }
	case 21:
		return "GetPath", func() { db.GetPath() }
	case 22:
		return "Save", func() { db.Save() }
	case 23:
		to := filepath.Join(dir, fmt.Sprintf("cc%d.json", rr.Intn(1000000)))
		return "Copy", func() { db.Copy(to); os.Remove(to) }
	case 24:
		return "policy", func() {
			db.GetUsernamePolicySummary()
			db.GetUsernamePolicyRegex()
			db.GetPasswordPolicySummary()
			db.GetPasswordPolicyRegex()
		}
	}
	// WebAuthn
	r.User.Password = ""
	for _, t := range u.MfaTokens {
		if t.Type == "u2f" {
			a := &assertion{ID: t.Parameters["u2f_id"], Challenge: "c", Type: "webauthn.get", Flags: 1, RP: sha256sum("example.com")}
			r.WebAuthn.Request, _, _, _ = a.payload()
			r.WebAuthn.Challenge = "c"
		}
	}
	return call("AuthenticateUser", db.AuthenticateUser)
}
