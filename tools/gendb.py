head='''
func identity.(*Database).{op}(db, r) (err)
requires inv: inv(db) && apart(db) && keys(db)
requires request: r != nil
requires room: db.Revision < 18446744073709551615
let u = db.refUsername[lower(r.User.Username)]
let n = old(len(u.{F}))
ensures [C04] refused-unless-both-name-the-user: imp(err == nil, old(exists(i, 0, len(db.Users), db.Users[i] == u && byBoth(u, r))))
ensures [C04] touches-only-that-user: unchangedbut(old(u), User) && forall(i, 0, len(db.Users), imp(db.Users[i] != old(u), keptslice(db.Users[i].{F}){others}))
ensures [C04] touches-only-its-records: keptslice(db.Users) && graphunchangedbut(db, "identity.User.{F}", "identity.User.Revision", "identity.User.LastModified", "E:*identity.{T}", "identity.Database.Revision", "identity.Database.LastModified"{regions})
'''
mid='''ensures [C22] refused-without-change: imp(err != nil, iofailed() || graphunchanged(db))
ensures [C22] refused-without-writing: imp(err != nil, iofailed() || wrote() == 0)
ensures [C09] on-disk-when-done: imp(err == nil, written(db) && db.Revision > old(db.Revision))
ensures [C01] keeps-the-invariant: inv(db) && apart(db)
ensures [C01,C06] keeps-the-key-index: keys(db)
'''
keymaps=', "MD:map[string]*identity.User", "MV:map[string]*identity.User"'
def h(op,F,T,extra='',others='',regions=''):
    return head.format(op=op,F=F,T=T,extra=extra,others=others,regions=regions)
out='''// Operations on the credentials of a user: C01, C04, C07, C08, C09, C22
// (generated by tools/gendb.py)

// credentials of different users are kept in different arrays
pred apartPub(db) := forall(i, 0, len(db.Users), forall(j, 0, len(db.Users), imp(i != j && base(db.Users[i].PublicKeys) != 0, base(db.Users[i].PublicKeys) != base(db.Users[j].PublicKeys))))
pred apartApi(db) := forall(i, 0, len(db.Users), forall(j, 0, len(db.Users), imp(i != j && base(db.Users[i].APIKeys) != 0, base(db.Users[i].APIKeys) != base(db.Users[j].APIKeys))))
pred apartMfa(db) := forall(i, 0, len(db.Users), forall(j, 0, len(db.Users), imp(i != j && base(db.Users[i].MfaTokens) != 0, base(db.Users[i].MfaTokens) != base(db.Users[j].MfaTokens))))
pred apartPwd(db) := forall(i, 0, len(db.Users), forall(j, 0, len(db.Users), imp(i != j && base(db.Users[i].Passwords) != 0, base(db.Users[i].Passwords) != base(db.Users[j].Passwords))))
pred ownPwd(db) := forall(i, 0, len(db.Users), j, 0, len(db.Users), k, 0, len(db.Users[i].Passwords), l, 0, len(db.Users[j].Passwords), imp(i != j, db.Users[i].Passwords[k] != db.Users[j].Passwords[l]))
pred apart(db) := apartPub(db) && apartApi(db) && apartMfa(db) && apartPwd(db) && ownPwd(db)
// API key prefixes are different
pred keysApart(db) := forall(i, 0, len(db.Users), forall(j, 0, len(db.Users[i].APIKeys), forall(k, 0, len(db.Users[i].APIKeys), imp(j != k, db.Users[i].APIKeys[j].Prefix != db.Users[i].APIKeys[k].Prefix))))
pred keys(db) := keysFound(db) && keysApart(db)
// the comment of a new public key: an OpenSSH payload may carry its own, that of a PGP key is completed
pred commentOf(k, comment, payload) := ite(contains(payload, "RSA PUBLIC KEY"), k.Comment == comment, ite(prefixof(payload, "ssh-rsa "), k.Comment == comment || k.Comment != "", prefixof(k.Comment, comment)))
pred written(db) := wrote() == 1 && persisted(db) && writepath() == db.path && writeperm() == 384

func identity.NewPublicKey(r) (k, err)
lemma
modifies fresh(PublicKey)
requires request: r != nil
ensures [C08] as-requested: imp(err == nil, k != nil && fresh(k) && k.Usage == r.Key.Usage && k.Disabled == r.Key.Disabled && !k.Expired)
ensures [C08] comment-as-requested: imp(err == nil, commentOf(k, r.Key.Comment, r.Key.Payload))
'''
out+=h('AddPublicKey','PublicKeys','PublicKey')
out+='''ensures [C08] appends-one-as-requested: imp(err == nil, len(old(u).PublicKeys) == n+1 && fresh(old(u).PublicKeys[n]) && old(u).PublicKeys[n].Usage == old(r.Key.Usage) && old(u).PublicKeys[n].Disabled == old(r.Key.Disabled) && !old(u).PublicKeys[n].Expired && commentOf(old(u).PublicKeys[n], old(r.Key.Comment), old(r.Key.Payload)))
ensures [C08] keeps-the-others: imp(err == nil, forall(j, 0, n, old(u).PublicKeys[j] == old(u.PublicKeys[j]))) && unchanged(PublicKey)
ensures [C08] refuses-duplicates: imp(err == nil, forall(j, 0, n, old(u).PublicKeys[j].Type != old(u).PublicKeys[n].Type || old(u).PublicKeys[j].Fingerprint != old(u).PublicKeys[n].Fingerprint))
ensures [C08] refused-without-change: imp(err != nil, iofailed() || graphunchanged(db))
'''+mid
for op,F,T,idf in (('DeletePublicKey','PublicKeys','PublicKey','r.Key.ID'),('DeleteMfaToken','MfaTokens','MfaToken','r.MfaToken.ID'),('DeleteAPIKey','APIKeys','APIKey','r.Key.ID')):
    api=op=='DeleteAPIKey'
    out+=h(op,F,T,regions=', "MD:map[string]*identity.User", "MV:map[string]*identity.User"' if api else '')
    out+='''ensures [C07] removes-exactly-the-entries: imp(err == nil, filteredto(old(u).{F}, u.{F}, k, k.ID != {idf}, n))
ensures [C07] keeps-the-records: unchanged({T})
ensures [C07] refused-if-there-is-none: imp(old(forall(j, 0, len(u.{F}), u.{F}[j].ID != {idf})), err != nil)
ensures [C07] refused-without-change: imp(err != nil, iofailed() || graphunchanged(db))
loopinv filtered: filteredto(acc, u.{F}, k, k.ID != {idf}, iter)
loopinv present: forall(j, 0, len(acc), acc[j] != nil)
loopinv found: flag == exists(j, 0, iter, u.{F}[j].ID == {idf})
loopinv atmost: len(acc) <= iter
loopinv shorter: (len(acc) < iter) == exists(j, 0, iter, u.{F}[j].ID == {idf})
'''.format(F=F,T=T,idf=idf)+mid
    if api: out+='''ensures [C06] no-key-with-that-id-remains: imp(err == nil, forall(j, 0, len(old(u).APIKeys), old(u).APIKeys[j].ID != old(r.Key.ID)))
loopinv prefix: imp(flag, exists(k, 0, iter, u.APIKeys[k].ID == r.Key.ID && u.APIKeys[k].Prefix == r.Key.Prefix))
loopinv picked: imp(pick != nil, exists(k, 0, iter, u.APIKeys[k].ID == r.Key.ID && u.APIKeys[k] == pick))
loopinv pickedprefix: exists(k, 0, iter, u.APIKeys[k].ID == r.Key.ID) == exists(k, 0, iter, u.APIKeys[k].ID == r.Key.ID && u.APIKeys[k].Prefix == spick)
loopinv storedprefix: imp(exists(k, 0, iter, u.APIKeys[k].ID == r.Key.ID), exists(k, 0, iter, u.APIKeys[k].ID == r.Key.ID && u.APIKeys[k].Prefix == r.Key.Prefix))
loopinv prefixshort: imp(len(acc) < iter, exists(k, 0, iter, u.APIKeys[k].ID == r.Key.ID && u.APIKeys[k].Prefix == r.Key.Prefix))
loopinv from: forall(j, 0, len(acc), exists(k, 0, iter, acc[j] == u.APIKeys[k] && u.APIKeys[k].ID != r.Key.ID))
loopinv apart: forall(j, 0, len(acc), forall(k, 0, len(acc), imp(j != k, acc[j].Prefix != acc[k].Prefix)))
'''
out+='''
func identity.NewAPIKey(r) (k, err)
lemma
modifies fresh(APIKey)
requires request: r != nil
ensures [C08] as-requested: imp(err == nil, k != nil && fresh(k) && k.Usage == r.Key.Usage && k.Comment == r.Key.Comment && k.Disabled == r.Key.Disabled && !k.Expired && k.Prefix == r.Key.Prefix && k.Payload == r.Key.Payload)
'''
out+=h('AddAPIKey','APIKeys','APIKey',regions=keymaps)
out+='''ensures [C08] appends-one-as-requested: imp(err == nil, len(old(u).APIKeys) == n+1 && fresh(old(u).APIKeys[n]) && old(u).APIKeys[n].Usage == old(r.Key.Usage) && old(u).APIKeys[n].Comment == old(r.Key.Comment) && old(u).APIKeys[n].Disabled == old(r.Key.Disabled) && !old(u).APIKeys[n].Expired)
ensures [C08] keeps-the-others: imp(err == nil, forall(j, 0, n, old(u).APIKeys[j] == old(u.APIKeys[j]))) && unchanged(APIKey)
ensures [C20] stores-only-a-hash: imp(err == nil, istype(r.Response.Payload, string) && hashed(old(u).APIKeys[n].Payload, stringof(r.Response.Payload)))
ensures [C06] issued-key-can-be-looked-up: imp(err == nil, istype(r.Response.Payload, string) && len(stringof(r.Response.Payload)) >= 72 && old(u).APIKeys[n].Prefix == substr(stringof(r.Response.Payload), 0, 24) && bcrypt_ok(old(u).APIKeys[n].Payload, stringof(r.Response.Payload)))
'''+mid
out+='''
func identity.NewMfaToken(r) (k, err)
lemma
option private=C14
modifies fresh(MfaToken); r.MfaToken.Algorithm
requires request: r != nil
ensures [C08] as-requested: imp(err == nil, k != nil && fresh(k) && k.Type == r.MfaToken.Type && k.Comment == r.MfaToken.Comment && k.Disabled == r.MfaToken.Disabled && !k.Expired)
ensures [C14] type: imp(err == nil, k.Type == "totp" || k.Type == "u2f")
ensures [C14] totp-parameters: imp(err == nil && k.Type == "totp", totpOf(k, old(r.MfaToken.Secret), old(r.MfaToken.Algorithm), r.MfaToken.Period, r.MfaToken.Digits))
ensures [C14] totp-passcode-of-one-period-ago: imp(err == nil && k.Type == "totp", attime(t, passcode(k.Secret, k.Algorithm, k.Period, k.Digits, trim(r.MfaToken.Passcode), unix(t) - k.Period)))
ensures [C14] u2f-registration: imp(err == nil && k.Type == "u2f", b64ok(r.WebAuthn.Register) && jsonvalid(WebAuthnRegisterRequest, b64dec(r.WebAuthn.Register)) && registration(b64dec(r.WebAuthn.Register)))
ensures [C14] u2f-records-exactly-these: imp(err == nil && k.Type == "u2f", u2fOf(k, r.WebAuthn.Challenge, b64dec(r.WebAuthn.Register)))
ensures [C14] u2f-records-the-flags: imp(err == nil && k.Type == "u2f", forallstr(f, has(k.Flags, f) == jsonhaskey(b64dec(r.WebAuthn.Register), "attestationObject.authData.flags", f) && k.Flags[f] == jsonflag(b64dec(r.WebAuthn.Register), "attestationObject.authData.flags", f)))
ensures [C14] otherwise-no-token: imp(err != nil, k == nil)
loopinv copied: forallstr(f, has(macc, f) == visited(f))
loopinv flags: forallstr(f, imp(visited(f), jsonhaskey(b64dec(r.WebAuthn.Register), "attestationObject.authData.flags", f) && macc[f] == jsonflag(b64dec(r.WebAuthn.Register), "attestationObject.authData.flags", f)))
'''
out+=h('AddMfaToken','MfaTokens','MfaToken')
out+='''ensures [C08] appends-one-as-requested: imp(err == nil, len(old(u).MfaTokens) == n+1 && fresh(old(u).MfaTokens[n]) && old(u).MfaTokens[n].Type == old(r.MfaToken.Type) && old(u).MfaTokens[n].Comment == old(r.MfaToken.Comment) && old(u).MfaTokens[n].Disabled == old(r.MfaToken.Disabled) && !old(u).MfaTokens[n].Expired)
ensures [C08] keeps-the-others: imp(err == nil, forall(j, 0, n, old(u).MfaTokens[j] == old(u.MfaTokens[j]))) && unchanged(MfaToken)
ensures [C14] stores-only-sound-tokens: imp(err == nil, ite(old(r.MfaToken.Type) == "totp", soundTotp(old(u).MfaTokens[n], r), soundU2f(old(u).MfaTokens[n], r)))
ensures [C08] refuses-duplicates: imp(err == nil, forall(j, 0, n, old(u).MfaTokens[j].Secret != old(u).MfaTokens[n].Secret && old(u).MfaTokens[j].Comment != old(u).MfaTokens[n].Comment))
ensures [C08] refused-without-change: imp(err != nil, iofailed() || graphunchanged(db))
'''+mid
open('/verif/contracts/dbkeys.gspec','w').write(out)
