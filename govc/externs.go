package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var byteT types.Type = types.Typ[types.Uint8]
var stringT types.Type = types.Typ[types.String]

// extErrT stands for the dynamic type of errors made by external code.
var extErrT, extHashT, extObjT types.Type

func init() {
	pkg := types.NewPackage("ext", "ext")
	mk := func(name string) *types.Named {
		return types.NewNamed(types.NewTypeName(0, pkg, name, nil), types.NewStruct(nil, nil), nil)
	}
	meth := func(n *types.Named, name string, params, res []*types.Var) {
		tup := func(vs []*types.Var) *types.Tuple { return types.NewTuple(vs...) }
		recv := types.NewVar(0, pkg, "", types.NewPointer(n))
		n.AddMethod(types.NewFunc(0, pkg, name, types.NewSignatureType(recv, nil, nil, tup(params), tup(res), false)))
	}
	v := func(t types.Type) *types.Var { return types.NewVar(0, pkg, "", t) }
	e := mk("err")
	meth(e, "Error", nil, []*types.Var{v(stringT)})
	extErrT = types.NewPointer(e)
	h := mk("hash")
	errT := types.Universe.Lookup("error").Type()
	bs := types.NewSlice(types.Universe.Lookup("byte").Type())
	meth(h, "Write", []*types.Var{v(bs)}, []*types.Var{v(types.Typ[types.Int]), v(errT)})
	meth(h, "Sum", []*types.Var{v(bs)}, []*types.Var{v(bs)})
	meth(h, "Reset", nil, nil)
	meth(h, "Size", nil, []*types.Var{v(types.Typ[types.Int])})
	meth(h, "BlockSize", nil, []*types.Var{v(types.Typ[types.Int])})
	extHashT = types.NewPointer(h)
	extObjT = types.NewPointer(mk("obj"))
}

func isExtType(t types.Type) bool { return t == extErrT || t == extHashT || t == extObjT }

// extErr is a non-nil error made by external code.
func (u *Unit) extErr(st *State) *Term {
	c := u.c
	return c.MkIf(c.Int(u.e.tag(extErrT)), u.alloc(st))
}

// errIf: nil if ok, an error otherwise.
func (u *Unit) errIf(st *State, ok *Term) *Term { return u.c.Ite(ok, u.c.NilIf(), u.extErr(st)) }

func (u *Unit) strToBytes(st *State, s *Term) *Term {
	return u.newSlice(st, byteT, u.c.App("bytes_of", arr(SInt, SInt), s), u.c.StrLen(s))
}

func (u *Unit) bstr(st *State, v Val) *Term { return u.bytesToStr(st, u.term(v), byteT) }

// varargs returns the elements of a variadic slice of known length.
func (u *Unit) varargs(st *State, s Val) ([]*Term, bool) {
	c := u.c
	sl := u.term(s)
	n, ok := c.SLen(sl).litInt()
	if !ok || n > 32 {
		return nil, false
	}
	it := types.NewInterfaceType(nil, nil)
	var out []*Term
	for i := int64(0); i < n; i++ {
		p := &Ptr{Elem: true, Base: c.SBase(sl), Idx: c.Idx(c.SOff(sl), c.Int(i)), Root: it, T: it}
		out = append(out, u.term(u.load(st, p, it)))
	}
	return out, true
}

var pureDet = map[string]bool{"strings": true, "strconv": true, "bytes": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"net/url": true, "encoding/hex": true, "encoding/base64": true, "encoding/base32": true, "encoding/binary": true, "math": true, "math/bits": true, "fmt": true, "errors": true, "reflect": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/md5": true, "crypto/sha512": true, "sort": true, "time": true, "html": true, "math/big": false}

// results that are never nil
var nonNil = map[string]bool{"crypto/elliptic.P256": true, "bytes.NewBufferString": true, "bytes.NewBuffer": true, "bytes.NewReader": true, "strings.NewReader": true, "regexp.MustCompile": true,
	"time.LoadLocation": true, "math/big.NewInt": true}

func (u *Unit) extern(st *State, name string, fn *ssa.Function, args []Val, dest ssa.Value, in ssa.Instruction) []*State {
	c := u.c
	u.trusted[name] = true
	ret := func(vs ...Val) []*State { u.setRes(st, dest, vs...); return nil }
	T := func(i int) *Term { return u.term(args[i]) }
	switch name {
	case "strings.TrimSpace":
		return ret(c.App("trim", SStr, T(0)))
	case "strings.ToLower":
		return ret(c.App("lower", SStr, T(0)))
	case "strings.Contains":
		return ret(c.App("contains", SBool, T(0), T(1)))
	case "strings.HasPrefix":
		return ret(c.App("prefixof", SBool, T(0), T(1)))
	case "strings.HasSuffix":
		return ret(c.App("suffixof", SBool, T(0), T(1)))
	case "strings.EqualFold":
		return ret(c.Eq(c.App("lower", SStr, T(0)), c.App("lower", SStr, T(1))))
	case "strings.Index", "strings.IndexByte":
		s, sub := T(0), T(1)
		if name == "strings.IndexByte" {
			if v, ok := sub.litInt(); ok {
				sub = c.Str(string([]byte{byte(v)}))
			} else {
				sub = c.App("bytestr", SStr, sub)
			}
		}
		r := c.App("indexof", SInt, s, sub)
		st.assume(c.Le(c.Int(-1), r), c.Eq(c.Le(c.Int(0), r), c.App("contains", SBool, s, sub)), c.Le(c.Add(r, c.StrLen(sub)), c.StrLen(s)))
		return ret(r)
	case "strings.Split", "strings.SplitN":
		s, sep := T(0), T(1)
		a := c.App("splitarr", arr(SInt, SStr), s, sep)
		n := c.App("splitcount", SInt, s, sep)
		if name == "strings.SplitN" {
			lim := T(2)
			if k, ok := lim.litInt(); !ok || k > 0 {
				a = c.App("splitnarr", arr(SInt, SStr), s, sep, lim)
				n0 := n
				n = c.App("splitncount", SInt, s, sep, lim)
				st.assume(c.Implies(c.Lt(c.Int(0), lim), c.And(c.Le(n, lim), c.Le(c.Int(1), n), c.Eq(n, c.Ite(c.Le(n0, lim), n0, lim)))))
			}
		}
		sl := u.newSlice(st, stringT, a, n)
		st.assume(c.Le(c.Int(0), n))
		if sep.Op == "str" && sep.Name != "" {
			st.assume(c.Le(c.Int(1), n))
		}
		return ret(sl)
	case "strings.Join":
		sl := T(0)
		a := u.elemArr(st, stringT, "", stringT, c.SBase(sl))
		if n, ok := c.SLen(sl).litInt(); ok && n <= 12 {
			var ps []*Term
			for i := int64(0); i < n; i++ {
				if i > 0 {
					ps = append(ps, T(1))
				}
				ps = append(ps, c.Select(a, c.Idx(c.SOff(sl), c.Int(i))))
			}
			if len(ps) == 0 {
				return ret(c.Str(""))
			}
			return ret(c.Concat(ps...))
		}
		return ret(c.App("joinarr", SStr, a, c.SOff(sl), c.SLen(sl), T(1)))
	case "strings.Replace", "strings.ReplaceAll":
		return ret(c.App("x:"+name, SStr, u.scalars(st, args)...))
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		b := u.objRef(args[0])
		r := u.ghostRegion(st, "G:builder", SStr)
		x := T(1)
		switch fn.Name() {
		case "WriteRune":
			x = c.App("runestr", SStr, x)
		case "WriteByte":
			x = c.App("bytestr", SStr, x)
		case "Write":
			x = u.bstr(st, args[1])
		}
		u.setGhostStr(st, "G:builder", b, c.Concat(c.Select(r, b), x))
		if fn.Name() == "WriteByte" {
			return ret(c.NilIf())
		}
		return ret(c.StrLen(x), c.NilIf())
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return ret(c.Select(u.ghostRegion(st, "G:builder", SStr), u.objRef(args[0])))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return ret(c.StrLen(c.Select(u.ghostRegion(st, "G:builder", SStr), u.objRef(args[0]))))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		u.setGhostStr(st, "G:builder", u.objRef(args[0]), c.Str(""))
		return nil
	case "fmt.Sprintf":
		return ret(u.sprintf(st, T(0), args[1]))
	case "fmt.Sprint", "fmt.Sprintln":
		if vs, ok := u.varargs(st, args[0]); ok {
			return ret(c.App("x:"+name, SStr, vs...))
		}
	case "fmt.Errorf", "errors.New":
		e := u.extErr(st)
		wrapped := c.NilIf()
		if name == "fmt.Errorf" {
			if f := T(0); f.Op == "str" {
				if vs, ok := u.varargs(st, args[1]); ok {
					k := 0
					for i := 0; i+1 < len(f.Name); i++ {
						if f.Name[i] != '%' {
							continue
						}
						i++
						if f.Name[i] == '%' {
							continue
						}
						for i < len(f.Name) && strings.IndexByte("+-# 0123456789.", f.Name[i]) >= 0 {
							i++
						}
						if i < len(f.Name) && f.Name[i] == 'w' && k < len(vs) {
							wrapped = vs[k]
						}
						k++
					}
				}
			}
		}
		u.setGhostStr(st, "G:unwrap", c.IVal(e), wrapped)
		return ret(e)
	case "errors.Unwrap":
		x := T(0)
		if n, ok := c.ITag(x).litInt(); ok {
			if n == 0 {
				return ret(c.NilIf())
			}
			t := u.e.tagType(n)
			if t == extErrT {
				return ret(c.Select(u.ghostRegion(st, "G:unwrap", SIface), c.IVal(x)))
			}
			if t != nil && !isExtType(t) {
				ms := u.e.prog.MethodSets.MethodSet(t)
				if sel := ms.Lookup(nil, "Unwrap"); sel != nil {
					if m := u.e.prog.MethodValue(sel); m != nil && u.e.inRepo(m) {
						return u.static(st, m, []Val{u.unbox(st, x, t)}, nil, dest, in)
					}
				}
				return ret(c.NilIf())
			}
		}
		r := c.App("unwrapof", SIface, x)
		return ret(r)
	case "errors.Is":
		return ret(c.App("errors.Is", SBool, T(0), T(1)))
	case "time.Now":
		x := c.Fresh("now", STime)
		u.clock(st, x)
		st.nows = append(st.nows[:len(st.nows):len(st.nows)], x)
		return ret(x)
	case "(time.Time).UTC":
		return ret(c.App("utc", STime, T(0)))
	case "(time.Time).Add":
		return ret(c.App("timeadd", STime, T(0), T(1)))
	case "(time.Time).Unix":
		return ret(c.App("unix", SInt, T(0)))
	case "(time.Time).IsZero":
		return ret(c.App("timeiszero", SBool, T(0)))
	case "math.Floor":
		x := T(0)
		if x.Op == "to_real" {
			return ret(x)
		}
		return ret(c.App("floor", SReal, x))
	case "math.Pow10":
		return ret(c.App("pow10", SReal, T(0)))
	case "math.Pow":
		if b := T(0); b.Op == "real" && b.Name == "10" {
			if e := T(1); e.Op == "to_real" {
				return ret(c.App("pow10", SReal, e.Args[0]))
			}
		}
	case "math/rand.Intn", "(*math/rand.Rand).Intn", "math/rand.Int63n", "(*math/rand.Rand).Int63n", "math/rand.Int31n", "(*math/rand.Rand).Int31n":
		n := u.term(args[len(args)-1])
		u.check(st, "panic", "rand.Intn argument must be positive", in, c.Lt(c.Int(0), n))
		x := c.Fresh("rand", SInt)
		st.assume(c.Le(c.Int(0), x), c.Lt(x, n))
		return ret(x)
	case "math/rand.New":
		return ret(u.alloc(st))
	case "math/rand.NewSource":
		if s, ok := dest.Type().Underlying().(*types.Interface); ok && s != nil {
			return ret(c.MkIf(c.Int(u.e.tag(types.NewPointer(dest.Type()))), u.alloc(st)))
		}
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		u.lockOp(st, fn.Name(), u.objRef(args[0]), in)
		return nil
	case "golang.org/x/crypto/bcrypt.CompareHashAndPassword":
		h, p := u.bstr(st, args[0]), u.bstr(st, args[1])
		return ret(u.errIf(st, c.App("bcrypt_ok", SBool, h, p)))
	case "golang.org/x/crypto/bcrypt.GenerateFromPassword":
		p := u.bstr(st, args[0])
		ok := c.Fresh("bcrypt_gen", SBool)
		h := c.Fresh("bcrypt_hash", SStr)
		cost := T(1)
		eff := c.Ite(c.Lt(cost, c.Int(4)), c.Int(10), cost)
		st.assume(c.Implies(ok, c.And(c.App("bcrypt_ok", SBool, h, p), c.App("is_bcrypt", SBool, h), c.Eq(c.App("bcrypt_cost", SInt, h), eff), c.Eq(c.StrLen(h), c.Int(60)), c.Le(cost, c.Int(31)))))
		s := u.strToBytes(st, h)
		return ret(c.Ite(ok, s, c.NilSlice()), u.errIf(st, ok))
	case "golang.org/x/crypto/bcrypt.Cost":
		h := u.bstr(st, args[0])
		ok := c.App("is_bcrypt", SBool, h)
		return ret(c.Ite(ok, c.App("bcrypt_cost", SInt, h), c.Int(0)), u.errIf(st, ok))
	case "(*encoding/base64.Encoding).DecodeString":
		enc := u.encName(T(0))
		s := T(1)
		ok := c.App("b64ok"+enc, SBool, s)
		d := c.App("b64dec"+enc, SStr, s)
		sl := u.strToBytes(st, d)
		return ret(sl, u.errIf(st, ok))
	case "(*encoding/base64.Encoding).DecodedLen":
		if u.encName(T(0)) == "" {
			return ret(c.Mul(c.Int(3), c.Div(T(1), c.Int(4))))
		}
		n := c.App("b64dlen"+u.encName(T(0)), SInt, T(1))
		st.assume(c.Le(c.Int(0), n))
		return ret(n)
	case "(*encoding/base64.Encoding).Decode":
		// fills the destination
		enc := u.encName(T(0))
		src := u.bstr(st, args[2])
		dst := T(1)
		if enc == "" {
			u.check(st, "panic", "destination too short in Decode", in, c.Le(c.Mul(c.Int(3), c.Div(c.SLen(T(2)), c.Int(4))), c.SLen(dst)))
		} else {
			u.check(st, "panic", "destination too short in Decode", in, c.Le(c.App("b64dlen"+enc, SInt, c.SLen(T(2))), c.SLen(dst)))
		}
		ok := c.App("b64ok"+enc, SBool, src)
		d := c.App("b64dec"+enc, SStr, src)
		k := c.Fresh("decoded", SInt)
		row := c.Fresh("decoded", arr(SInt, SInt))
		rn := elemRegion(byteT, "")
		u.region(st, rn, byteT, 2, SInt)
		i := c.FreshBVar("i", SInt)
		st.assume(c.Forall([]*Term{i}, c.And(c.Le(c.Int(0), c.Select(row, i)), c.Le(c.Select(row, i), c.Int(255))), []*Term{c.Select(row, i)}))
		st.assume(c.Le(c.Int(0), k), c.Le(k, c.SLen(dst)), c.Implies(ok, c.And(c.Eq(k, c.StrLen(d)), c.mkEqRaw(c.App("bytes2str", SStr, row, c.SOff(dst), k), d))))
		u.setRegion(st, rn, c.SBase(dst), row)
		return ret(k, u.errIf(st, ok))
	case "golang.org/x/crypto/ssh.ParsePublicKey":
		w := u.bstr(st, args[0])
		ok := c.App("sshok", SBool, w)
		k := c.MkIf(c.App("sshtag", SInt, w), c.App("sshref", SInt, w))
		st.assume(c.Implies(ok, c.And(c.Lt(c.Int(0), c.ITag(k)), c.Eq(c.App("sshtype", SStr, k), c.App("sshwiretype", SStr, w)))))
		st.assume(c.Implies(c.Eq(c.App("sshtype", SStr, k), c.Str("ssh-rsa")), c.App("impl_ssh.CryptoPublicKey", SBool, c.ITag(k))))
		return ret(c.Ite(ok, k, c.NilIf()), u.errIf(st, ok))
	case "(*encoding/base64.Encoding).EncodeToString":
		return ret(c.App("b64enc"+u.encName(T(0)), SStr, u.bstr(st, args[1])))
	case "(*encoding/base32.Encoding).EncodeToString":
		e := T(0)
		n := c.Select(u.ghostRegion(st, "G:b32enc", SStr), e)
		return ret(c.App("b32enc", SStr, n, u.bstr(st, args[1])))
	case "(encoding/base32.Encoding).WithPadding":
		e := u.alloc(st)
		nm := c.App("b32opaque", SStr, e)
		if in != nil {
			// StdEncoding without padding is recognised by its source
			if call, ok := in.(*ssa.Call); ok {
				if ld, ok := call.Call.Args[0].(*ssa.UnOp); ok {
					if ld2, ok := ld.X.(*ssa.UnOp); ok {
						if g, ok := ld2.X.(*ssa.Global); ok {
							nm = c.App("b32with", SStr, c.Str(g.String()), T(1))
						}
					}
				}
			}
		}
		u.setGhostStr(st, "G:b32enc", e, nm)
		return ret(e)
	case "net/url.QueryEscape":
		return ret(c.App("queryescape", SStr, T(0)))
	case "net/url.PathEscape":
		return ret(c.App("pathescape", SStr, T(0)))
	case "strconv.Itoa":
		return ret(c.App("itoa", SStr, T(0)))
	case "encoding/hex.EncodeToString":
		return ret(c.App("hexstr", SStr, u.bstr(st, args[0])))
	case "strconv.FormatInt":
		if T(1).isInt(10) {
			return ret(c.App("itoa", SStr, T(0)))
		}
	case "crypto/hmac.New":
		alg := c.Str("?")
		if f, ok := args[0].(*FuncV); ok && f.Fn != nil {
			alg = c.Str(extName(f.Fn))
		} else {
			alg = c.App("hashfn", SStr, T(0))
		}
		r := u.alloc(st)
		u.setGhostStr(st, "G:hashalg", r, alg)
		u.setGhostStr(st, "G:hashkey", r, u.bstr(st, args[1]))
		u.setGhostStr(st, "G:hashdata", r, c.Str(""))
		return ret(c.MkIf(c.Int(u.e.tag(extHashT)), r))
	case "(encoding/binary.bigEndian).PutUint64":
		b := u.term(args[len(args)-2])
		x := u.term(args[len(args)-1])
		u.check(st, "panic", "index out of range in PutUint64", in, c.Le(c.Int(8), c.SLen(b)))
		n := elemRegion(byteT, "")
		u.region(st, n, byteT, 2, SInt)
		s8 := c.App("be64", SStr, x)
		if c.SLen(b).isInt(8) && c.SOff(b).isInt(0) {
			u.setRegion(st, n, c.SBase(b), c.App("bytes_of", arr(SInt, SInt), s8))
		} else {
			in := c.Select(st.heap[n], c.SBase(b))
			for i := int64(0); i < 8; i++ {
				in = c.Store(in, c.Idx(c.SOff(b), c.Int(i)), c.App("strbyte", SInt, s8, c.Int(i)))
			}
			u.setRegion(st, n, c.SBase(b), in)
		}
		return nil
	case "(encoding/binary.bigEndian).Uint32":
		b := u.term(args[len(args)-1])
		u.check(st, "panic", "index out of range in Uint32", in, c.Le(c.Int(4), c.SLen(b)))
		a := u.elemArr(st, byteT, "", byteT, c.SBase(b))
		var ps []*Term
		for i := int64(0); i < 4; i++ {
			x := c.Select(a, c.Idx(c.SOff(b), c.Int(i)))
			u.typedLoad(st, x, byteT)
			ps = append(ps, c.MulC(pow2(int(8*(3-i))), x))
		}
		return ret(c.Add(ps...))
	case "crypto/sha256.Sum256":
		return ret(c.App("bytes_of", arr(SInt, SInt), c.App("sha256", SStr, u.bstr(st, args[0]))))
	case "crypto/subtle.ConstantTimeCompare":
		return ret(c.Ite(c.Eq(u.bstr(st, args[0]), u.bstr(st, args[1])), c.Int(1), c.Int(0)))
	case "bytes.Equal":
		return ret(c.Eq(u.bstr(st, args[0]), u.bstr(st, args[1])))
	case "crypto/hmac.Equal":
		return ret(c.Eq(u.bstr(st, args[0]), u.bstr(st, args[1])))
	case "(*regexp.Regexp).MatchString":
		re := c.Select(u.ghostRegion(st, "G:regex", SStr), T(0))
		for _, p := range st.pc {
			if p.Op == "=" && p.Args[0].Sort == SStr {
				if p.Args[0].Op == "str" && p.Args[1] == re {
					re = p.Args[0]
				} else if p.Args[1].Op == "str" && p.Args[0] == re {
					re = p.Args[1]
				}
			}
		}
		if re.Op == "str" {
			if n, ok := regexPred(re.Name); ok {
				return ret(c.App(n, SBool, T(1)))
			}
		}
		return ret(c.App("rematch", SBool, re, T(1)))
	case "regexp.MustCompile":
		r := u.alloc(st)
		u.setGhostStr(st, "G:regex", r, T(0))
		return ret(r)
	case "encoding/json.Unmarshal":
		return u.jsonUnmarshal(st, args, dest, in)
	case "encoding/json.MarshalIndent", "encoding/json.Marshal":
		ok := c.Fresh("marshal_ok", SBool)
		d := c.Fresh("json_text", SStr)
		if n, ok := c.ITag(T(0)).litInt(); ok {
			if t := u.e.tagType(n); t == nil {
			} else if pt, ok := t.Underlying().(*types.Pointer); ok && u.sharedT[typeKey(pt.Elem())] {
				u.sharedAccess(st, pt.Elem(), "", u.term(u.unbox(st, T(0), u.e.tagType(n))), false)
			}
		}
		u.snapshot(st, d, T(0))
		u.note(st, "marshal_failed", c.Not(ok))
		s := u.strToBytes(st, d)
		return ret(c.Ite(ok, s, c.NilSlice()), u.errIf(st, ok))
	case "io/ioutil.WriteFile", "os.WriteFile":
		ok := c.Fresh("write_ok", SBool)
		p := T(0)
		d := u.bstr(st, u.underPath(st, u.term(args[1])))
		n := u.ghostVar(st, "G:writes", SInt)
		u.setGhostVar(st, "G:writes", c.Add(n, c.Int(1)))
		u.setGhostVar(st, "G:writepath", p)
		u.setGhostVar(st, "G:writeperm", T(2))
		u.setGhostVar(st, "G:writedata", d)
		u.note(st, "write_failed", c.Not(ok))
		return ret(u.errIf(st, ok))
	case "io/ioutil.ReadFile", "os.ReadFile":
		ok := c.Fresh("read_ok", SBool)
		d := c.App("filedata", SStr, T(0))
		s := u.strToBytes(st, d)
		u.setGhostVar(st, "G:readpath", T(0))
		u.note(st, "open_failed", c.Not(ok))
		return ret(c.Ite(ok, s, c.NilSlice()), u.errIf(st, ok))
	case "os.Stat", "os.Lstat":
		ok := c.Fresh("stat_ok", SBool)
		fi := c.MkIf(c.Int(u.e.tag(extObjT)), u.alloc(st))
		e := u.errIf(st, ok)
		u.statErr = append(u.statErr, e)
		u.note(st, "open_failed", c.And(c.Not(ok), c.Not(c.App("x:os.IsNotExist", SBool, e))))
		return ret(c.Ite(ok, fi, c.NilIf()), e)
	case "os.IsNotExist", "os.IsExist":
		r := c.App("x:"+name, SBool, T(0))
		st.assume(c.Implies(r, c.Not(c.Eq(T(0), c.NilIf()))))
		return ret(r)
	case "os.MkdirAll", "os.Mkdir":
		ok := c.Fresh("mkdir_ok", SBool)
		u.note(st, "open_failed", c.Not(ok))
		return ret(u.errIf(st, ok))
	case "path/filepath.Dir":
		return ret(c.App("filepath.Dir", SStr, T(0)))
	case "path/filepath.Join":
		sl := T(0)
		a := u.elemArr(st, stringT, "", stringT, c.SBase(sl))
		return ret(c.App("filepath.Join", SStr, a, c.SOff(sl), c.SLen(sl)))
	case "github.com/satori/go.uuid.NewV4":
		return ret(c.Fresh("uuid", arr(SInt, SInt)))
	case "(github.com/satori/go.uuid.UUID).String":
		x := c.App("uuidstr", SStr, T(0))
		st.assume(c.Eq(c.StrLen(x), c.Int(36)))
		return ret(x)
	case "(*math/big.Int).SetBytes":
		u.setGhostStr(st, "G:bigint", u.objRef(args[0]), u.bstr(st, args[1]))
		return ret(args[0])
	case "crypto/elliptic.P256":
		return ret(c.MkIf(c.Int(u.e.tag(extObjT)), c.Sym("global:P256", SInt)))
	case "(*crypto/x509.Certificate).CheckSignature":
		crt := u.toPtr(args[0], fn.Signature.Recv().Type())
		ct := crt.T
		pk := u.loadLeaf(st, crt, ".PublicKey", fieldType(ct, "PublicKey"))
		var key []*Term
		key = append(key, T(1), u.bstr(st, args[2]), u.bstr(st, args[3]))
		nm := "x509ok"
		if n, ok := c.ITag(pk).litInt(); ok {
			if t := u.e.tagType(n); t != nil && typeKey(t) == "*ecdsa.PublicKey" {
				pp := u.toPtr(c.IVal(pk), t)
				get := func(f string) *Term { return u.loadLeaf(st, pp, "."+f, fieldType(pp.T, f)) }
				bi := u.ghostRegion(st, "G:bigint", SStr)
				key = append([]*Term{get("Curve"), c.Select(bi, get("X")), c.Select(bi, get("Y"))}, key...)
				nm = "ecdsaok"
			}
		}
		if nm == "x509ok" {
			key = append(key, pk)
		}
		return ret(u.errIf(st, c.App(nm, SBool, key...)))
	}
	return u.externDefault(st, name, fn, args, dest, in)
}

func fieldType(t types.Type, f string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	panic(unsup("field " + f))
}

func (u *Unit) encName(enc *Term) string {
	if enc.Op == "select" {
		enc = enc.Args[1]
	}
	s := show(enc)
	if strings.Contains(s, "base64.StdEncoding") {
		return ""
	}
	return ":" + s
}

func (u *Unit) objRef(v Val) *Term {
	switch v := v.(type) {
	case *Ptr:
		return u.ptrTerm(v)
	case *Term:
		return v
	}
	panic(unsup("receiver"))
}

// note remembers that an environment failure may have happened on this path.
func (u *Unit) note(st *State, name string, cond *Term) {
	r := u.ghostVar(st, "G:"+name, SBool)
	u.setGhostVar(st, "G:"+name, u.c.Or(r, cond))
}

// scalars flattens arguments for an uninterpreted function application.
func (u *Unit) scalars(st *State, args []Val) []*Term {
	c := u.c
	var out []*Term
	for _, a := range args {
		switch a := a.(type) {
		case *Term:
			out = append(out, a)
		case *StructV:
			var ks []string
			for k := range a.F {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				out = append(out, a.F[k])
			}
		case *FuncV, *Ptr:
			out = append(out, u.term(a))
		default:
			out = append(out, c.Fresh("arg", SInt))
		}
	}
	return out
}

func (u *Unit) externDefault(st *State, name string, fn *ssa.Function, args []Val, dest ssa.Value, in ssa.Instruction) []*State {
	c := u.c
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	sig := fn.Signature
	det := pureDet[pkg]
	// arguments as terms
	var key []*Term
	if det {
		var ptypes []types.Type
		if sig.Recv() != nil {
			ptypes = append(ptypes, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ptypes = append(ptypes, sig.Params().At(i).Type())
		}
		for i, a := range args {
			if i >= len(ptypes) {
				det = false
				break
			}
			t := ptypes[i]
			if isByteSlice(t) {
				key = append(key, u.bstr(st, a))
				continue
			}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				if isStruct(sl.Elem()) {
					det = false
					break
				}
				x := u.term(a)
				key = append(key, u.elemArr(st, sl.Elem(), "", sl.Elem(), c.SBase(x)), c.SOff(x), c.SLen(x))
				continue
			}
			if _, ok := a.(*Term); !ok {
				if _, ok := a.(*StructV); !ok {
					det = false
					break
				}
			}
			key = append(key, u.scalars(st, []Val{a})...)
		}
	}
	// a callee outside the repository may write through pointers to repository structs it receives
	for i, a := range args {
		pi := i
		if sig.Recv() != nil {
			pi--
		}
		var t types.Type
		if pi >= 0 && pi < sig.Params().Len() {
			t = sig.Params().At(pi).Type()
		}
		_ = a
		if t != nil {
			if p, ok := t.Underlying().(*types.Pointer); ok && u.repoType(p.Elem()) {
				panic(unsup("external call " + name + " with a repository pointer"))
			}
		}
	}
	// a callee outside the repository may fill the byte slices it receives
	for i, a := range args {
		pi := i
		if sig.Recv() != nil {
			pi--
		}
		if pi < 0 || pi >= sig.Params().Len() || !isByteSlice(sig.Params().At(pi).Type()) || readsOnly(pkg, fn.Name()) {
			continue
		}
		rn := elemRegion(byteT, "")
		u.region(st, rn, byteT, 2, SInt)
		row := c.Fresh("filled", arr(SInt, SInt))
		k := c.FreshBVar("i", SInt)
		st.assume(c.Forall([]*Term{k}, c.And(c.Le(c.Int(0), c.Select(row, k)), c.Le(c.Select(row, k), c.Int(255))), []*Term{c.Select(row, k)}))
		u.setRegion(st, rn, c.SBase(u.term(a)), row)
	}
	res := sig.Results()
	if res.Len() == 0 {
		return nil
	}
	var out []Val
	var okT *Term
	hasErr := types.TypeString(res.At(res.Len()-1).Type(), nil) == "error"
	if hasErr {
		if det {
			okT = c.App("ok:"+name, SBool, key...)
		} else {
			okT = c.Fresh("ok", SBool)
		}
	}
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if hasErr && i == res.Len()-1 {
			out = append(out, u.errIf(st, okT))
			continue
		}
		nm := fmt.Sprintf("x:%s:%d", name, i)
		if det && !isStruct(t) {
			if isByteSlice(t) {
				out = append(out, u.strToBytes(st, c.App(nm, SStr, key...)))
				continue
			}
			if sl, ok := t.Underlying().(*types.Slice); ok && !isStruct(sl.Elem()) {
				n := c.App(nm+":len", SInt, key...)
				st.assume(c.Le(c.Int(0), n))
				out = append(out, u.newSlice(st, sl.Elem(), c.App(nm, arr(SInt, mustSort(sl.Elem())), key...), n))
				continue
			}
			switch t.Underlying().(type) {
			case *types.Basic:
				x := c.App(nm, mustSort(t), key...)
				st.assume(u.typeFact(x, t, st.next))
				out = append(out, x)
				continue
			}
			if isTime(t) {
				out = append(out, c.App(nm, STime, key...))
				continue
			}
		}
		switch t.Underlying().(type) {
		case *types.Pointer:
			r := u.alloc(st)
			var x *Term = r
			if hasErr {
				x = c.Ite(okT, r, c.Int(0))
			} else if !nonNil[name] {
				b := c.Fresh("nonnil", SBool)
				x = c.Ite(b, r, c.Int(0))
			}
			out = append(out, x)
		case *types.Interface:
			it := t.Underlying().(*types.Interface)
			f := u.freshVal(st, "ext", t).(*Term)
			if hasErr && it.NumMethods() > 0 {
				st.assume(c.Implies(okT, c.Lt(c.Int(0), c.ITag(f))))
			} else if nonNil[name] {
				st.assume(c.Lt(c.Int(0), c.ITag(f)))
			}
			st.assume(c.Lt(c.IVal(f), st.next))
			out = append(out, f)
		case *types.Slice:
			// a fresh slice of unknown contents
			elem := t.Underlying().(*types.Slice).Elem()
			r := u.alloc(st)
			n := c.Fresh("n", SInt)
			st.assume(c.Le(c.Int(0), n))
			for _, l := range leaves(elem) {
				rn := elemRegion(elem, l.path)
				u.region(st, rn, l.t, 2, SInt)
				a := c.Fresh("ext:"+rn, arr(SInt, l.sort))
				u.setRegion(st, rn, r, a)
				if _, ok := l.t.Underlying().(*types.Pointer); ok && l.path == "" {
					i := c.FreshBVar("i", SInt)
					st.assume(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.Lt(c.Int(0), c.Select(a, i))), []*Term{c.Select(a, i)}))
					u.assumed["records in a slice returned by "+name+" are present"] = true
				}
			}
			out = append(out, c.MkSlice(r, c.Int(0), n, n))
		default:
			out = append(out, u.freshVal(st, "ext", t))
		}
	}
	u.setRes(st, dest, out...)
	return nil
}

func (u *Unit) repoType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), u.e.mod)
}

func (u *Unit) sprintf(st *State, f *Term, va Val) *Term {
	c := u.c
	vs, ok := u.varargs(st, va)
	if !ok {
		return c.Fresh("sprintf", SStr)
	}
	// dynamic zero padding: "%0" + itoa(d) + "d"
	if f.Op == "concat" && len(f.Args) == 3 && len(vs) == 1 && f.Args[0].Op == "str" && f.Args[0].Name == "%0" && f.Args[2].Op == "str" && f.Args[2].Name == "d" && f.Args[1].Op == "app" && f.Args[1].Name == "itoa" {
		if x, ok := u.intArg(vs[0]); ok {
			return c.App("zpad", SStr, f.Args[1].Args[0], x)
		}
	}
	if f.Op != "str" {
		return c.App("sprintf", SStr, append([]*Term{f}, vs...)...)
	}
	var parts []*Term
	s := f.Name
	k := 0
	lit := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i])
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return c.App("sprintf", SStr, append([]*Term{f}, vs...)...)
		}
		verb := s[i+1 : j+1]
		i = j
		if verb == "%" {
			lit += "%"
			continue
		}
		if k >= len(vs) {
			return c.App("sprintf", SStr, append([]*Term{f}, vs...)...)
		}
		a := vs[k]
		k++
		var x *Term
		switch {
		case verb == "s" || verb == "v":
			if y, ok := u.strArg(a); ok {
				x = y
			} else if y, ok := u.intArg(a); ok && verb == "v" {
				x = c.App("itoa", SStr, y)
			} else {
				x = c.App("fmt:"+verb, SStr, a)
			}
		case verb == "d":
			if y, ok := u.intArg(a); ok {
				x = c.App("itoa", SStr, y)
			} else {
				x = c.App("fmt:d", SStr, a)
			}
		case verb == "x":
			if n, ok := c.ITag(a).litInt(); ok {
				if t := u.e.tagType(n); t != nil && isByteSlice(t) {
					sl := u.term(u.unbox(st, a, t))
					x = c.App("hexstr", SStr, u.bytesToStr(st, sl, byteT))
				} else if y, ok := u.strArg(a); ok {
					x = c.App("hexstr", SStr, y)
				}
			}
			if x == nil {
				x = c.App("fmt:x", SStr, a)
			}
		case len(verb) > 2 && verb[0] == '0' && verb[len(verb)-1] == 'd':
			w, ok1 := atoi(verb[1 : len(verb)-1])
			y, ok2 := u.intArg(a)
			if ok1 && ok2 {
				x = c.App("zpad", SStr, c.Int(w), y)
			} else {
				x = c.App("fmt:"+verb, SStr, a)
			}
		default:
			x = c.App("fmt:"+verb, SStr, a)
		}
		if lit != "" {
			parts = append(parts, c.Str(lit))
			lit = ""
		}
		parts = append(parts, x)
	}
	if lit != "" {
		parts = append(parts, c.Str(lit))
	}
	if len(parts) == 0 {
		return c.Str("")
	}
	return c.Concat(parts...)
}

// strArg: the interface holds a plain string.
func (u *Unit) strArg(a *Term) (*Term, bool) {
	n, ok := u.c.ITag(a).litInt()
	if !ok {
		return nil, false
	}
	t := u.e.tagType(n)
	if t == nil || typeKey(t) != "string" {
		return nil, false
	}
	return u.rawUnbox(a, SStr), true
}

func (u *Unit) intArg(a *Term) (*Term, bool) {
	n, ok := u.c.ITag(a).litInt()
	if !ok {
		return nil, false
	}
	t := u.e.tagType(n)
	if t == nil || !isIntT(t) {
		return nil, false
	}
	if _, named := t.(*types.Named); named {
		return nil, false
	}
	return u.rawUnbox(a, SInt), true
}

func (u *Unit) rawUnbox(a *Term, s Sort) *Term {
	return u.c.App("unbox_"+boxName(s), s, u.c.IVal(a))
}

// ---- method calls on interface values of unknown or external type ----

func (u *Unit) invoke(st *State, cc *ssa.CallCommon, recv *Term, args []Val, dest ssa.Value, in ssa.Instruction) []*State {
	c := u.c
	name := cc.Method.FullName()
	ret := func(vs ...Val) []*State { u.setRes(st, dest, vs...); return nil }
	u.trusted["interface method "+name] = true
	if name == "(io/fs.FileInfo).IsDir" {
		r := c.App("is_dir", SBool, c.IVal(recv))
		u.note(st, "open_failed", r)
		return ret(r)
	}
	if n, ok := c.ITag(recv).litInt(); ok && u.e.tagType(n) == extHashT {
		r := c.IVal(recv)
		data := c.Select(u.ghostRegion(st, "G:hashdata", SStr), r)
		switch cc.Method.Name() {
		case "Write":
			x := u.bstr(st, args[0])
			u.setGhostStr(st, "G:hashdata", r, c.Concat(data, x))
			return ret(c.SLen(u.term(args[0])), c.NilIf())
		case "Reset":
			u.setGhostStr(st, "G:hashdata", r, c.Str(""))
			return nil
		case "Sum":
			alg := c.Select(u.ghostRegion(st, "G:hashalg", SStr), r)
			key := c.Select(u.ghostRegion(st, "G:hashkey", SStr), r)
			s := c.App("hmacsum", SStr, alg, key, data)
			if !c.SLen(u.term(args[0])).isInt(0) {
				s = c.Concat(u.bstr(st, args[0]), s)
			}
			return ret(u.strToBytes(st, s))
		case "Size":
			alg := c.Select(u.ghostRegion(st, "G:hashalg", SStr), r)
			return ret(c.StrLen(c.App("hmacsum", SStr, alg, c.Str(""), c.Str(""))))
		}
	}
	switch name {
	case "(error).Error":
		return ret(c.App("errmsg", SStr, recv))
	case "(golang.org/x/crypto/ssh.PublicKey).Type":
		return ret(c.App("sshtype", SStr, recv))
	case "(golang.org/x/crypto/ssh.PublicKey).Marshal":
		w := c.App("sshwire", SStr, recv)
		st.assume(c.Eq(c.App("sshwiretype", SStr, w), c.App("sshtype", SStr, recv)))
		return ret(u.strToBytes(st, w))
	case "(golang.org/x/crypto/ssh.CryptoPublicKey).CryptoPublicKey":
		v := u.freshVal(st, "inv", dest.Type())
		if p := u.e.prog.ImportedPackage("crypto/rsa"); p != nil && p.Type("PublicKey") != nil {
			st.assume(c.Implies(c.Eq(c.App("sshtype", SStr, recv), c.Str("ssh-rsa")), c.Eq(c.ITag(v.(*Term)), c.Int(u.e.tag(types.NewPointer(p.Type("PublicKey").Type()))))))
		}
		return ret(v)
	}
	if dest != nil {
		if tp, ok := dest.Type().(*types.Tuple); !ok || tp.Len() > 0 {
			if isByteSlice(dest.Type()) {
				return ret(u.strToBytes(st, c.Fresh("bytes", SStr)))
			}
			v := u.freshVal(st, "inv", dest.Type())
			u.set(st, dest, v)
		}
	}
	return nil
}

// ---- lock ----

func (u *Unit) lockOp(st *State, op string, ref *Term, in ssa.Instruction) {
	c := u.c
	if u.syncs {
		k := ref.String()
		h := map[string]int{}
		for x, m := range st.held {
			h[x] = m
		}
		switch op {
		case "Lock", "RLock":
			u.check(st, "lock", op+" while the lock is held", in, c.Bool(h[k] == 0))
			h[k] = 2
			if op == "RLock" {
				h[k] = 1
			}
		case "Unlock":
			u.check(st, "lock", "Unlock of a lock not held exclusively", in, c.Bool(h[k] == 2))
			delete(h, k)
		case "RUnlock":
			u.check(st, "lock", "RUnlock of a lock not held for reading", in, c.Bool(h[k] == 1))
			delete(h, k)
		}
		st.held = h
		return
	}
	if ref.Op == "int" && ref.Int.Sign() < 0 {
		return // a package variable
	}
	if u.lemma && u.prop == "C11" {
		panic(unsup("a function with a helper contract uses a lock"))
	}
	if !u.locks || u.lockRef == nil {
		return
	}
	if ref != u.lockRef {
		u.check(st, "lock", op+" of a lock that is not the database's", in, c.Eq(ref, u.lockRef))
	}
	switch op {
	case "Lock":
		u.check(st, "lock", "Lock while the lock is held", in, c.Bool(st.lock == 0))
		st.lock = 2
	case "RLock":
		u.check(st, "lock", "RLock while the lock is held", in, c.Bool(st.lock == 0))
		st.lock = 1
	case "Unlock":
		u.check(st, "lock", "Unlock of a lock not held exclusively", in, c.Bool(st.lock == 2))
		st.lock = 0
	case "RUnlock":
		u.check(st, "lock", "RUnlock of a lock not held for reading", in, c.Bool(st.lock == 1))
		st.lock = 0
	}
}

// sharedAccess records the obligation that the lock is held at an access to shared state.
func (u *Unit) sharedAccess(st *State, root types.Type, path string, base *Term, write bool) {
	if !u.locks || st.quiet > 0 || len(st.frames) == 0 {
		return
	}
	k := typeKey(root)
	if !u.sharedT[k] || k == "identity.Database" && path == ".mu" {
		return
	}
	if base.Op == "int" && base.Int.Sign() < 0 {
		return
	}
	if k == "identity.Database" && strings.HasPrefix(path, ".Policy") {
		// fixed once the database is open
		if write {
			u.guarded(st, "write of the policy", base, false)
		}
		return
	}
	u.lockedAccess(st, k+path, base, write)
}

// sharedElem: the same for entries of a slice or map that holds shared records.
func (u *Unit) sharedElem(st *State, elem types.Type, what string, base *Term, write bool) {
	if !u.locks || st.quiet > 0 || len(st.frames) == 0 {
		return
	}
	p, ok := elem.Underlying().(*types.Pointer)
	if !ok || !u.sharedT[typeKey(p.Elem())] {
		return
	}
	u.lockedAccess(st, what+" of "+typeKey(elem), base, write)
}

// sharedCall: the same for a call decided by the callee's contract.
func (u *Unit) sharedCall(st *State, sp *FuncSpec, fn *ssa.Function, args []Val) {
	if !u.locks || st.quiet > 0 {
		return
	}
	for i, p := range fn.Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok || !u.sharedT[typeKey(pt.Elem())] {
			continue
		}
		write := false
		for _, m := range sp.Modifies {
			if !strings.HasPrefix(m, "fresh(") && regexp.MustCompile(`\b`+regexp.QuoteMeta(sp.Params[i])+`\b`).MatchString(m) {
				write = true
			}
		}
		u.lockedAccess(st, "state passed to "+sp.Key, u.term(args[i]), write)
	}
}

func (u *Unit) lockedAccess(st *State, what string, base *Term, write bool) {
	if write {
		u.guarded(st, "write of "+what+" without the lock", base, st.lock == 2)
	} else {
		u.guarded(st, "read of "+what+" without the lock", base, st.lock >= 1)
	}
}

func (u *Unit) guarded(st *State, name string, base *Term, ok bool) {
	c := u.c
	f := st.top()
	var in ssa.Instruction
	if f.ip > 0 && f.ip <= len(f.block.Instrs) {
		in = f.block.Instrs[f.ip-1]
	}
	if ok {
		u.lockOK++
		return
	}
	// the entry heap holds objects below next0; objects made by this call are still private
	goal := c.Le(u.next0, base)
	u.check(st, "lock", name, in, goal)
}

// syncUse records the obligation that state which outlives the call (made before it began) is used only while a lock of
// a package variable is held, and always the same one.
func (u *Unit) syncUse(st *State, what, key string, base *Term, mode int) {
	if st.quiet > 0 || len(st.frames) == 0 {
		return
	}
	c := u.c
	if base.Op != "int" && u.provable(st, c.Le(u.next0, base)) {
		return
	}
	held := map[string]bool{}
	for k, m := range st.held {
		if m >= mode {
			held[k] = true
		}
	}
	u.guarded(st, what+" without a lock", base, len(held) > 0)
	if len(held) > 0 && u.e.syncWith(key, held) {
		u.guarded(st, what+" under different locks", base, false)
	}
}

func (u *Unit) provable(st *State, t *Term) bool {
	return t.Op == "true" || st.pcset[t] || !u.feasible(st, u.c.Not(t))
}

// syncWith intersects the locks under which a piece of state is used; it reports whether none is left.
func (e *Engine) syncWith(key string, held map[string]bool) bool {
	e.lmu.Lock()
	defer e.lmu.Unlock()
	if e.syncHeld == nil {
		e.syncHeld = map[string]map[string]bool{}
	}
	o, ok := e.syncHeld[key]
	if !ok {
		e.syncHeld[key] = held
		return false
	}
	n := map[string]bool{}
	for k := range o {
		if held[k] {
			n[k] = true
		}
	}
	e.syncHeld[key] = n
	return len(n) == 0
}

// syncExtern: random generators are state that their methods change.
func (u *Unit) syncExtern(st *State, fn *ssa.Function, args []Val) {
	n := extName(fn)
	switch {
	case strings.HasPrefix(n, "(*math/rand.Rand)."):
		r := u.term(args[0])
		u.syncUse(st, "use of a random generator", "rand "+r.String(), r, 2)
	case n == "math/rand.New":
		r := u.c.IVal(u.term(args[0]))
		u.syncUse(st, "use of a random source", "source "+r.String(), r, 2)
	}
}

// ---- JSON ----

type snap struct {
	heap map[string]*Term
	next *Term
	obj  *Term
	text *Term
	ok   *Term
}

// snapshot remembers the heap that a JSON text was made from.
func (u *Unit) snapshot(st *State, text *Term, v *Term) {
	n := map[*Term]*snap{}
	for k, x := range st.snaps {
		n[k] = x
	}
	h := map[string]*Term{}
	for k, x := range st.heap {
		h[k] = x
	}
	n[text] = &snap{heap: h, next: st.next, obj: v}
	st.snaps = n
}

func (u *Unit) jsonUnmarshal(st *State, args []Val, dest ssa.Value, in ssa.Instruction) []*State {
	c := u.c
	text := u.bstr(st, args[0])
	tgt := u.term(args[1])
	n, ok := c.ITag(tgt).litInt()
	if !ok {
		panic(unsup("json.Unmarshal into unknown type"))
	}
	pt := u.e.tagType(n)
	p, isp := pt.Underlying().(*types.Pointer)
	if !isp || !isStruct(p.Elem()) {
		panic(unsup("json.Unmarshal into " + typeKey(pt)))
	}
	T := p.Elem()
	key := typeKey(T)
	okT := c.App("json_ok:"+key, SBool, text)
	if key == "identity.Database" {
		u.decodeDatabase(st, c.IVal(tgt), T, text, okT)
	} else {
		u.decodeStruct(st, &Ptr{Base: c.IVal(tgt), Root: T, T: T}, T, "json:", text, 0)
	}
	u.setRes(st, dest, u.errIf(st, okT))
	return nil
}

func jsonName(tag string, f *types.Var) (string, bool) {
	const k = `json:"`
	i := strings.Index(tag, k)
	if i < 0 {
		return f.Name(), true
	}
	v := tag[i+len(k):]
	j := strings.IndexByte(v, '"')
	v = v[:j]
	if v == "-" {
		return "", false
	}
	v = strings.Split(v, ",")[0]
	if v == "" {
		return f.Name(), true
	}
	return v, true
}

// decodeStruct: every exported field becomes a function of the text, its JSON path and its previous value.
func (u *Unit) decodeStruct(st *State, p *Ptr, T types.Type, fname string, text *Term, depth int) {
	c := u.c
	if depth > 6 {
		panic(unsup("json nesting"))
	}
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		nm, ok := jsonName(s.Tag(i), f)
		if !ok {
			continue
		}
		fp := *p
		fp.Path = p.Path + "." + f.Name()
		fp.T = f.Type()
		fn := fname + nm
		old := func() *Term { return u.loadLeaf(st, p, "."+f.Name(), f.Type()) }
		mk := func(fn string, srt Sort, old *Term) *Term {
			fn += ":" + boxName(srt)
			if old.isLit() {
				if old.isInt(0) || old == c.False || old == c.Str("") {
					return c.App(fn, srt, text)
				}
			}
			return c.App(fn+"!", srt, text, old)
		}
		switch ft := f.Type().Underlying().(type) {
		case *types.Basic:
			o := old()
			x := mk(fn, o.Sort, o)
			st.assume(u.typeFact(x, f.Type(), st.next))
			u.storeLeaf(st, p, "."+f.Name(), f.Type(), x)
		case *types.Pointer:
			if !isStruct(ft.Elem()) {
				u.storeLeaf(st, p, "."+f.Name(), f.Type(), u.freshVal(st, "json", f.Type()).(*Term))
				continue
			}
			o := old()
			if !o.isInt(0) {
				panic(unsup("json into a set pointer"))
			}
			r := u.newObj(st, ft.Elem())
			u.decodeStruct(st, &Ptr{Base: r, Root: ft.Elem(), T: ft.Elem()}, ft.Elem(), fn+".", text, depth+1)
			has := c.App("has:"+fn, SBool, text)
			u.storeLeaf(st, p, "."+f.Name(), f.Type(), c.Ite(has, r, c.Int(0)))
		case *types.Slice:
			if isStruct(ft.Elem()) {
				panic(unsup("json slice of structs"))
			}
			n := c.App("len:"+fn, SInt, text)
			has := c.App("has:"+fn, SBool, text)
			st.assume(c.Le(c.Int(0), n))
			sl := u.newSlice(st, ft.Elem(), c.App("elems:"+fn, arr(SInt, mustSort(ft.Elem())), text), n)
			u.storeLeaf(st, p, "."+f.Name(), f.Type(), c.Ite(has, sl, c.NilSlice()))
		case *types.Map:
			has := c.App("has:"+fn, SBool, text)
			m := u.alloc(st)
			ks := mustSort(ft.Key())
			dn, _ := u.mapDom(st, f.Type())
			u.setRegion(st, dn, m, c.App("dom:"+fn, arr(ks, SBool), text))
			names, ls := u.mapVals(st, f.Type())
			for i, l := range ls {
				a := c.App("vals:"+fn+l.path, arr(ks, l.sort), text)
				u.setRegion(st, names[i], m, a)
				if l.sort == SIface {
					u.jsonVals[a] = true
				}
			}
			u.storeLeaf(st, p, "."+f.Name(), f.Type(), c.Ite(has, m, c.Int(0)))
		case *types.Interface:
			x := c.App(fn+":iface", SIface, text)
			u.storeLeaf(st, p, "."+f.Name(), f.Type(), x)
		case *types.Struct:
			if isTime(f.Type()) {
				u.storeLeaf(st, p, "."+f.Name(), f.Type(), c.App(fn+":time", STime, text, old()))
				continue
			}
			u.decodeStruct(st, &fp, f.Type(), fn+".", text, depth+1)
		default:
			panic(unsup("json field " + fn))
		}
	}
}

// graphTypes lists the struct types reachable from t through exported fields, with the regions they occupy.
func (e *Engine) graphTypes(t types.Type) []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch x := t.Underlying().(type) {
		case *types.Pointer:
			walk(x.Elem())
		case *types.Slice:
			walk(x.Elem())
		case *types.Map:
			walk(x.Elem())
		case *types.Struct:
			if isTime(t) || seen[typeKey(t)] {
				return
			}
			n, ok := t.(*types.Named)
			if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.mod) {
				return
			}
			seen[typeKey(t)] = true
			out = append(out, t)
			for i := 0; i < x.NumFields(); i++ {
				if f := x.Field(i); f.Exported() {
					walk(f.Type())
				}
			}
		}
	}
	walk(t)
	return out
}

type gregion struct {
	name string
	t    types.Type
	nest int
	key  Sort
	exp  bool
}

// graphRegions: the heap regions that hold the exported graph below t.
func (e *Engine) graphRegions(t types.Type) []gregion {
	var out []gregion
	seen := map[string]bool{}
	add := func(g gregion) {
		if !seen[g.name] {
			seen[g.name] = true
			out = append(out, g)
		}
	}
	for _, s := range e.graphTypes(t) {
		for _, l := range leaves(s) {
			add(gregion{objRegion(s, l.path), l.t, 1, SInt, l.exp})
			if !l.exp {
				continue
			}
			switch x := l.t.Underlying().(type) {
			case *types.Slice:
				for _, l2 := range leaves(x.Elem()) {
					add(gregion{elemRegion(x.Elem(), l2.path), l2.t, 2, SInt, true})
				}
			case *types.Map:
				ks := mustSort(x.Key())
				add(gregion{"MD:" + typeKey(l.t.Underlying()), types.Typ[types.Bool], 2, ks, true})
				for _, l2 := range leaves(x.Elem()) {
					add(gregion{"MV:" + typeKey(l.t.Underlying()) + l2.path, l2.t, 2, ks, true})
				}
			}
		}
	}
	return out
}

// decodeDatabase: everything below the database is replaced by freshly allocated objects of unknown contents.
func (u *Unit) decodeDatabase(st *State, db *Term, T types.Type, text, ok *Term) {
	c := u.c
	nn := c.Fresh("next", SInt)
	c.symFact[nn] = []*Term{c.Le(st.next, nn)}
	c.lower[nn] = st.next
	st.assume(c.Le(st.next, nn))
	old := st.next
	oldHeap := map[string]*Term{}
	regs := u.e.graphRegions(T)
	for _, g := range regs {
		r := u.region(st, g.name, g.t, g.nest, g.key)
		oldHeap[g.name] = r
		if !g.exp {
			// unexported fields of decoded objects are zero
			h := c.Fresh("Hd:"+g.name, r.Sort)
			x := c.FreshBVar("x", SInt)
			st.assume(c.Forall([]*Term{x}, c.Eq(c.Select(h, x), c.Ite(c.And(c.Le(old, x), c.Lt(x, nn)), u.zeroTerm(g.t), c.Select(r, x))), []*Term{c.Select(h, x)}))
			u.noteWrite(st, g.name, c.Int(0))
			st.heap[g.name] = h
			u.registerBase(h, u.reginfo[g.name], nn)
			continue
		}
		h := c.Fresh("Hd:"+g.name, r.Sort)
		x := c.FreshBVar("x", SInt)
		isDB := strings.HasPrefix(g.name, "identity.Database.")
		var keep *Term
		if isDB {
			keep = c.And(c.Lt(x, old), c.Not(c.Eq(x, db)))
		} else {
			keep = c.Lt(x, old)
		}
		st.assume(c.Forall([]*Term{x}, c.Implies(keep, c.Eq(c.Select(h, x), c.Select(r, x))), []*Term{c.Select(h, x)}))
		u.noteWrite(st, g.name, db)
		st.heap[g.name] = h
		u.registerBase(h, u.reginfo[g.name], nn)
	}
	st.next = nn
	st.decoded = &snap{heap: map[string]*Term{}, next: nn, obj: db, text: text, ok: ok}
	for _, g := range regs {
		st.decoded.heap[g.name] = st.heap[g.name]
	}
	st.decodedOld = old
	for _, f := range u.decodeAssume {
		f(st, db, old)
	}
}

// clock states what is assumed about a reading of the clock: it lies between 2 January 1970 and the year 9999.
func (u *Unit) clock(st *State, x *Term) {
	s := u.c.App("unix", SInt, x)
	st.assume(u.c.Le(u.c.Int(86400), s), u.c.Le(s, u.c.Int(253402300799)))
}

var readers = map[string]bool{"strings": true, "bytes": true, "regexp": true, "strconv": true, "crypto/subtle": true, "crypto/sha1": true, "crypto/sha256": true, "crypto/sha512": true, "crypto/md5": true, "crypto/hmac": true,
	"golang.org/x/crypto/ssh": true, "crypto/x509": true, "encoding/pem": true, "encoding/json": true, "fmt": true, "unicode/utf8": true, "math/big": true, "encoding/asn1": true, "golang.org/x/crypto/bcrypt": true}

// readsOnly: the function does not write to the byte slices it receives.
func readsOnly(pkg, name string) bool {
	if readers[pkg] {
		return true
	}
	switch name {
	case "EncodeToString", "DecodeString", "Uint16", "Uint32", "Uint64":
		return true
	}
	return strings.HasPrefix(name, "New") || strings.HasPrefix(name, "Write")
}
