package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C10", "must-facts on every success return of RemoveEncryptionWrapping (an authenticator over the received structure succeeded, the named algorithm is the negotiated one) and at every keystream application; provenance of the returned plaintext; the vendored CCM compares the recomputed tag.", c10)
	reg("C26", "conditional constant propagation: for every hash and HMAC type constant, what the computing and verifying functions compute and compare; unknown types cannot succeed.", c26)
	reg("C27", "conditional constant propagation per key type, key encoding and signature type: must-facts on success of the verifiers, provenance of the signed structure, and agreement of the signer's and the verifier's digest.", c27)
	reg("C28", "conditional constant propagation per cipher suite through encryption, decryption and deliberate corruption, compared with the frozen parameter table of FDO 1.1 and with each other.", c28)
	reg("C30", "conditional constant propagation per key-exchange suite and role; sibling comparison of the derived shared secret and context after exchanging the two sides' contributions.", c30)
}

// ---------- helpers ----------

func (c *Ctx) need(key string) *ssa.Function {
	f := c.A.p.fn(key)
	if f == nil {
		c.missing("function " + key)
	}
	return f
}

// withField: the given term with one field replaced.
func withField(t *Term, st types.Type, over map[string]*Term) *Term {
	s, ok := deref(st).Underlying().(*types.Struct)
	if !ok {
		return t
	}
	var kvs []*Term
	tn := typeBase(st)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == "_" {
			continue
		}
		n := tn + "." + f.Name()
		v := over[n]
		if v == nil {
			v = projField(t, n, f.Type())
		}
		kvs = append(kvs, mk("kv", n, f.Type(), v))
	}
	return mk("lit", "struct", st, kvs...)
}

func kInt(v string, t types.Type) *Term { return mk("const", v, t) }

// oneOf names the possible values of an algorithm identifier plus one that is none of them.
const otherAlg = "-424242"

func sumOf(newFn string, data M, key M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "hsum" || len(t.Args) != 2 || !a.is(t.Args[1], data) {
			return false
		}
		h := t.Args[0]
		if key == nil {
			return h.Name == newFn && len(h.Args) == 0
		}
		return h.Name == "crypto/hmac.New" && len(h.Args) == 2 && h.Args[0].Op == "func" && h.Args[0].Name == newFn && a.is(h.Args[1], key)
	}
}

var digest = map[int]struct{ sum, new string }{
	256: {"crypto/sha256.Sum256", "crypto/sha256.New"},
	384: {"crypto/sha512.Sum384", "crypto/sha512.New384"},
}

func digestOf(bits int, data M) M {
	d := digest[bits]
	return Or(Res(d.sum, 0, data), sumOf(d.new, data, nil))
}

func hmacOf(bits int, data, key M) M { return sumOf(digest[bits].new, data, key) }

func constName(c *Ctx, pkg, name string) string {
	v, ok := c.A.p.constVal(pkg, name)
	if !ok {
		c.missing("constant " + pkg + "." + name)
	}
	return v
}

// errTypeParam: index of the parameter of the named type.
func paramOfType(f *ssa.Function, name string) int {
	for i, p := range f.Params {
		if typeBase(p.Type()) == name {
			return i
		}
	}
	return -1
}

// ---------- C26 ----------

func c26(c *Ctx) {
	types26 := []struct {
		name string
		bits int
		mac  bool
	}{{"HASH_SHA256", 256, false}, {"HASH_SHA384", 384, false}, {"HASH_HMAC_SHA256", 256, true}, {"HASH_HMAC_SHA384", 384, true}}
	check := func(fn string, verify, mac bool) {
		f := c.need("core/shared." + fn)
		if f == nil {
			return
		}
		data := M(Same(paramOfTerm(f, 0)))
		var ei = errResult(f)
		run := func(tv string) (*Analyzer, *Term) {
			args := make([]*Term, len(f.Params))
			i := paramOfType(f, "HashOrHmac")
			if i < 0 {
				i = paramOfType(f, "HashType")
				if i >= 0 {
					args[i] = kInt(tv, f.Params[i].Type())
				}
			} else {
				ht := hashTypeOf(c)
				args[i] = withField(paramOfTerm(f, i), f.Params[i].Type(), map[string]*Term{"HashOrHmac.Type": kInt(tv, ht)})
			}
			if i < 0 {
				c.missing("type parameter of " + fn)
				return nil, nil
			}
			return c.A.spec(f, args), args[i]
		}
		for _, ty := range types26 {
			tv := constName(c, "core/shared", ty.name)
			sa, arg := run(tv)
			if sa == nil {
				return
			}
			ok := sa.feasible(f, ei, "nil")
			where := fn + " with " + ty.name
			if ty.mac != mac {
				c.ob("dispatch", where, !ok, f.Pos(), "%s must refuse this type", fn)
				continue
			}
			c.ob("dispatch", where, ok, f.Pos(), "%s must support this type", fn)
			if !ok {
				continue
			}
			want := digestOf(ty.bits, data)
			if mac {
				want = hmacOf(ty.bits, data, Same(paramOfTerm(f, len(f.Params)-1)))
			}
			if verify {
				fs := sa.summary(f, ei, "nil")
				got := sa.holds(fs, "eq", Same(projField(arg, "HashOrHmac.Hash", nil)), want)
				c.ob("verified-value", where, got != nil, f.Pos(), "success requires that the received value equals the one recomputed from the data%s", map[bool]string{true: " and the secret"}[mac])
				continue
			}
			r := sa.okResult(f, 0)
			good := r != nil && sa.is(projField(r, "HashOrHmac.Type", nil), K(tv)) && sa.is(projField(r, "HashOrHmac.Hash", nil), want)
			s := "<none>"
			if r != nil {
				s = trunc(r.String())
			}
			c.ob("computed-value", where, good, f.Pos(), "result: %s", s)
		}
		sa, _ := run(otherAlg)
		if sa != nil {
			c.ob("dispatch", fn+" with an unknown type", !sa.feasible(f, ei, "nil"), f.Pos(), "an unknown type must be an error")
		}
	}
	check("GenerateFdoHash", false, false)
	check("GenerateFdoHmac", false, true)
	check("VerifyHash", true, false)
	check("VerifyHMac", true, true)
	c.min("dispatch", 20)
	c.min("verified-value", 4)
	c.min("computed-value", 4)
}

func hashTypeOf(c *Ctx) types.Type {
	if ip := c.A.p.Short["core/shared"]; ip != nil {
		if o := ip.Types.Scope().Lookup("HashType"); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Int]
}

func namedType(c *Ctx, pkg, name string) types.Type {
	if ip := c.A.p.Short[pkg]; ip != nil {
		if o := ip.Types.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Int]
}

var _ = token.NoPos

// ---------- C30 ----------

// kexSpec: FDO 1.1 section 3.6.1 per key-exchange suite.
var kexSpecs = []struct {
	name, method string
	w, rnd       int    // coordinate width, random length
	group        string // curve or DH group
}{
	{"ECDH256", "ecdh", 32, 16, "crypto/elliptic.P256"},
	{"ECDH384", "ecdh", 48, 48, "crypto/elliptic.P384"},
	{"DHKEXid14", "dh", 0, 0, "14"},
	{"DHKEXid15", "dh", 0, 0, "15"},
	{"ASYMKEX2048", "asym", 0, 32, ""},
	{"ASYMKEX3072", "asym", 0, 96, ""},
}

// fixedW: the integer m as exactly w bytes.
func fixedW(m M, w int) M {
	return func(a *Analyzer, t *Term) bool {
		switch {
		case t.Op == "call" && t.Name == "core/shared.i2osp":
			return a.is(t.Args[0], Or(m, Res("math/big.(Int).Bytes", 0, m))) && a.is(t.Args[1], K(itoa(w)))
		case t.Op == "call" && t.Name == "math/big.(Int).FillBytes":
			n, ok := a.lenOf(t.Args[1])
			return ok && n == int64(w) && a.is(t.Args[0], m)
		case t.Op == "out" && t.Name == "math/big.(Int).FillBytes":
			if ar, ok := t.T.Underlying().(*types.Array); ok && ar.Len() == int64(w) {
				return a.is(t.Args[0], m)
			}
		}
		return false
	}
}

// len16: a two-byte big-endian length.
func len16(n int) M {
	return func(a *Analyzer, t *Term) bool {
		if !strings.HasPrefix(t.Name, "encoding/binary.(bigEndian).") || len(t.Args) == 0 {
			return false
		}
		last := a.constOf(t.Args[len(t.Args)-1])
		switch {
		case t.Op == "out" && strings.HasSuffix(t.Name, ".PutUint16"):
			if ar, ok := t.T.Underlying().(*types.Array); !ok || ar.Len() != 2 {
				return false
			}
			return last.Op == "const" && last.Name == itoa(n)
		case t.Op == "call" && strings.HasSuffix(t.Name, ".AppendUint16"):
			return last.Op == "const" && last.Name == itoa(n) && isEmptyTerm(t.Args[1])
		}
		return false
	}
}

func concatOf(ms ...M) M {
	return func(a *Analyzer, t *Term) bool {
		ps := flatConcat(a, t, 0)
		if len(ps) != len(ms) {
			return false
		}
		for i := range ms {
			if !a.is(ps[i], ms[i]) {
				return false
			}
		}
		return true
	}
}

func c30(c *Ctx) {
	g := c.need("core/shared.GenerateXABKeyExchange")
	d := c.need("core/shared.DeriveSessionKey")
	if g == nil || d == nil {
		return
	}
	gi, di, dev := paramOfType(g, "KexSuiteName"), paramOfType(d, "KeXParams"), -1
	for i, p := range d.Params {
		if isBool(p.Type()) {
			dev = i
		}
	}
	if gi < 0 || di < 0 || dev < 0 || len(d.Params) != 4 || len(g.Params) != 2 {
		c.missing("parameters of the key exchange functions")
		return
	}
	kt := g.Params[gi].Type()
	pubKey := Same(paramOfTerm(g, 1-gi))
	gen := func(suite string) *Analyzer {
		args := make([]*Term, len(g.Params))
		args[gi] = kInt(suite, kt)
		return c.A.spec(g, args)
	}
	der := func(suite string, device bool, assume ...asm) (*Analyzer, *Term) {
		kx := withField(paramOfTerm(d, di), d.Params[di].Type(), map[string]*Term{"KeXParams.KexSuit": kInt(suite, kt)})
		args := make([]*Term, len(d.Params))
		args[di], args[dev] = kx, kInt(fmt.Sprint(device), types.Typ[types.Bool])
		return c.A.spec(d, args, assume...), kx
	}
	ge, de := errResult(g), errResult(d)
	var xbI, pkI int
	for i, p := range d.Params {
		if i == di || i == dev {
			continue
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			xbI = i
		} else {
			pkI = i
		}
	}
	xB, ownerKey := Same(paramOfTerm(d, xbI)), Same(paramOfTerm(d, pkI))
	for _, s := range kexSpecs {
		ga := gen(s.name)
		ok := ga.feasible(g, ge, "nil")
		c.ob("supported", "generation: "+s.name, ok, g.Pos(), "every defined suite must be supported")
		if !ok {
			continue
		}
		r := ga.okResult(g, 0)
		gf := func(n string) *Term { return projField(r, "KeXParams."+n, nil) }
		c.prov2(ga, "generate", s.name+": suite name", g, gf("KexSuit"), K(s.name), "the suite the contribution was made for")
		var priv, pub M
		switch s.method {
		case "ecdh":
			key := Res("crypto/ecdsa.GenerateKey", 0, Res(s.group, 0))
			key = Or(key)
			coord := func(n string) M {
				return fixedW(Or(Fld("PublicKey."+n, Or(key, Fld("PrivateKey.PublicKey", key))), Fld("PrivateKey."+n, key)), s.w)
			}
			dd := Fld("PrivateKey.D", key)
			priv = Or(Res("math/big.(Int).Bytes", 0, dd), fixedW(dd, s.w))
			pub = concatOf(len16(s.w), coord("X"), len16(s.w), coord("Y"), len16(s.rnd), Res("core/shared.NewRandomBuffer", 0, K(itoa(s.rnd))))
		case "dh":
			group := Res("github.com/fido-alliance/dhkx.GetGroup", 0, K(s.group))
			key := Res("github.com/fido-alliance/dhkx.(DHGroup).GeneratePrivateKey", 0, group)
			num := func(n string) M { return Res("math/big.(Int).Bytes", 0, Fld("DHKey."+n, key)) }
			inst := fieldsM("DHKexPrivateKey", map[string]M{"X": num("X"), "Y": num("Y"), "GroupID": K(s.group)})
			priv = Or(Res("core/shared.(DHKexPrivateKey).MarshalCbor", 0, expanded(inst)), Marshal(expanded(inst)))
			pub = Res("github.com/fido-alliance/dhkx.(DHKey).MarshalPublicKey", 0, key)
		case "asym":
			priv = Res("core/shared.NewRandomBuffer", 0, K(itoa(s.rnd)))
			pub = nil
			// without an owner key: the random itself; with one: encrypted to it
			for _, with := range []bool{false, true} {
				args := make([]*Term, len(g.Params))
				args[gi] = kInt(s.name, kt)
				want, lbl := M(priv), "owner contribution"
				if with {
					pt := paramOfTerm(g, 1-gi)
					args[1-gi] = mk("lit", "ptr", pt.T, mk("kv", "", nil, pt))
					want, lbl = Res("core/shared.WrapOAEP", 0, priv, Has(pubKey)), "device contribution"
				} else {
					args[1-gi] = nilConst(g.Params[1-gi].Type())
				}
				sa := c.A.spec(g, args)
				c.prov2(sa, "generate", s.name+": "+lbl, g, projField(sa.okResult(g, 0), "KeXParams.XAKeyExchange", nil), want, "the random of the suite's length (encrypted to the owner key when one is given)")
			}
		}
		c.prov2(ga, "generate", s.name+": private part", g, gf("Private"), priv, "the private part matching the contribution")
		if pub != nil {
			c.prov2(ga, "generate", s.name+": contribution", g, gf("XAKeyExchange"), pub, "fixed-width fields, length-prefixed, in specified order, of the same key")
		}
		for _, device := range []bool{true, false} {
			role := map[bool]string{true: "device", false: "owner"}[device]
			sa, kx := der(s.name, device)
			where := s.name + " (" + role + ")"
			ok := sa.feasible(d, de, "nil")
			c.ob("supported", "derivation: "+where, ok, d.Pos(), "every defined suite must be supported")
			if !ok {
				continue
			}
			own, ownPriv := Same(projField(kx, "KeXParams.XAKeyExchange", nil)), Same(projField(kx, "KeXParams.Private", nil))
			r := sa.okResult(d, 0)
			shse, ctx := projField(r, "SessionKeyInfo.ShSe", nil), projField(r, "SessionKeyInfo.ContextRand", nil)
			switch s.method {
			case "ecdh":
				w, n := s.w, 6+2*s.w+s.rnd
				big := func(lo, hi int) M { return bigOf(bytesRange(xB, lo, hi, n)) }
				sc := Or(ownPriv, Res("math/big.(Int).Bytes", 0, bigOf(ownPriv)), fixedW(bigOf(ownPriv), w))
				sh := func(a *Analyzer, t *Term) bool {
					return t.Op == "call" && t.Name == "invoke.Curve.ScalarMult" && t.Idx == 0 && len(t.Args) == 4 &&
						a.is(t.Args[0], Res(s.group, 0)) && a.is(t.Args[1], big(2, 2+w)) && a.is(t.Args[2], big(4+w, 4+2*w)) && a.is(t.Args[3], sc)
				}
				rnd := func(x M) M { return bytesRange(x, 6+2*w, n, n) }
				first, second := rnd(own), rnd(xB)
				if !device {
					first, second = second, first
				}
				c.prov2(sa, "derive", where+": shared secret", d, shse, concatOf(fixedW(sh, w), first, second), "the x coordinate of own private · peer point in fixed width, then the device's random, then the owner's")
				c.prov2(sa, "derive", where+": context", d, ctx, emptyM, "no context randomness")
				fs := sa.summary(d, de, "nil")
				c.ob("derive", where+": length", sa.holds(fs, "eq", Res("len", 0, xB), K(itoa(n))) != nil, d.Pos(), "success requires the peer's contribution to have exactly %d bytes", n)
			case "dh":
				inst := expandedOnce("core/shared.(DHKexPrivateKey).GetDHKEXPrivateKeyInst", Or(Out("DHKexPrivateKey", ownPriv), Has(ownPriv)))
				cmp := Res("github.com/fido-alliance/dhkx.(DHGroup).ComputeKey", 0, Fld("DHKey.Group", inst), Res("github.com/fido-alliance/dhkx.NewPublicKey", 0, xB), inst)
				c.prov2(sa, "derive", where+": shared secret", d, shse, Res("github.com/fido-alliance/dhkx.(DHKey).MarshalPublicKey", 0, cmp), "the key computed from own private part and the peer's public value in own group")
				c.prov2(sa, "derive", where+": context", d, ctx, emptyM, "no context randomness")
			case "asym":
				if device {
					c.prov2(sa, "derive", where+": shared secret", d, shse, ownPriv, "the device's random")
					c.prov2(sa, "derive", where+": context", d, ctx, xB, "the owner's random")
				} else {
					c.prov2(sa, "derive", where+": shared secret", d, shse, Res("core/shared.UnwrapOAEP", 0, xB, ownerKey), "the device's random, decrypted")
					c.prov2(sa, "derive", where+": context", d, ctx, ownPriv, "the owner's random")
				}
			}
		}
	}
	c.ob("unknown", "generation", !gen("not a suite").feasible(g, ge, "nil"), g.Pos(), "an unknown suite must be an error")
	for _, device := range []bool{true, false} {
		sa, _ := der("not a suite", device)
		c.ob("unknown", fmt.Sprintf("derivation (device=%v)", device), !sa.feasible(d, de, "nil"), d.Pos(), "an unknown suite must be an error")
	}
	c30dh(c)
	c30oaep(c)
	c30kdf(c)
	c30use(c, g, d, gi, di, dev, xbI, pkI)
	c.min("supported", 18)
	c.min("generate", 16)
	c.min("derive", 28)
}

func nilConst(t types.Type) *Term { return mk("const", "nil", t) }

// expanded applies m to what a helper call returns.
func expanded(m M) M {
	return func(a *Analyzer, t *Term) bool {
		if m(a, t) {
			return true
		}
		for i := 0; i < 4; i++ {
			x := a.expand(t)
			if x == nil || x.Key() == t.Key() {
				return false
			}
			if t = x; m(a, t) {
				return true
			}
		}
		return false
	}
}

// expandedOnce: a call of the named function whose receiver satisfies m.
func expandedOnce(key string, m M) M { return Res(key, 0, m) }

// c30dh: the stored Diffie-Hellman key is rebuilt field by field.
func c30dh(c *Ctx) {
	if f := c.need("core/shared.(DHKexPrivateKey).GetDHKEXPrivateKeyInst"); f != nil {
		h := Same(paramOfTerm(f, 0))
		r := c.nonNilResult(f, 0)
		fld := func(n string) *Term { return projField(r, "DHKey."+n, nil) }
		c.prov("dh-key", "private exponent", f.Pos(), fld("X"), bigOf(Fld("DHKexPrivateKey.X", h)), "the stored exponent")
		c.prov("dh-key", "public value", f.Pos(), fld("Y"), bigOf(Fld("DHKexPrivateKey.Y", h)), "the stored public value")
		c.prov("dh-key", "group", f.Pos(), fld("Group"), Res("github.com/fido-alliance/dhkx.GetGroup", 0, Fld("DHKexPrivateKey.GroupID", h)), "the stored group")
	}
	if f := c.need("core/shared.(DHKexPrivateKey).UnmarshalCbor"); f != nil && len(f.Params) == 2 {
		n := 0
		for _, e := range c.callsTo(f, "core/shared.(CBOR_CUSTOM_TAGS).Unmarshal") {
			n++
			c.prov("dh-key", "decoding source", e.Instr.Pos(), e.Args[1], Same(paramOfTerm(f, 1)), "the stored encoding")
		}
		c.ob("dh-key", "decoding", n > 0, f.Pos(), "the stored key is decoded")
	}
	if f := c.need("core/shared.(DHKexPrivateKey).MarshalCbor"); f != nil {
		c.prov("dh-key", "encoding", f.Pos(), c.A.results(f, 0), Marshal(Same(paramOfTerm(f, 0))), "the encoded key")
	}
}

// c30oaep: encryption and decryption of the asymmetric contribution agree.
func c30oaep(c *Ctx) {
	type side struct {
		f    *ssa.Function
		call *Effect
	}
	get := func(fn, callee string) *side {
		f := c.need("core/shared." + fn)
		if f == nil {
			return nil
		}
		es := c.callsTo(f, callee)
		c.ob("oaep", fn, len(es) == 1, f.Pos(), "%d calls of %s", len(es), callee)
		if len(es) != 1 {
			return nil
		}
		c.prov("oaep", fn+": result", f.Pos(), c.nonNilResult(f, 0), Res(callee, 0), "the library's result")
		return &side{f, es[0]}
	}
	w, u := get("WrapOAEP", "crypto/rsa.EncryptOAEP"), get("UnwrapOAEP", "crypto/rsa.DecryptOAEP")
	if w == nil || u == nil || len(w.call.Args) < 5 || len(u.call.Args) < 5 {
		return
	}
	same := func(i int, what string) {
		x, y := stripSites(w.call.Args[i]), stripSites(u.call.Args[i])
		ok := x == y || isEmptyTerm(w.call.Args[i]) && isEmptyTerm(u.call.Args[i])
		c.ob("oaep", "agreeing "+what, ok, w.call.Instr.Pos(), "%s and %s", trunc(w.call.Args[i].String()), trunc(u.call.Args[i].String()))
	}
	same(0, "hash")
	same(4, "label")
	c.prov("oaep", "hash", w.call.Instr.Pos(), w.call.Args[0], Or(Res("crypto/sha256.New", 0), func(a *Analyzer, t *Term) bool {
		return t.Op == "hnew" && t.Name == "crypto/sha256.New"
	}), "SHA-256")
	c.prov("oaep", "plaintext", w.call.Instr.Pos(), w.call.Args[3], Same(paramOfTerm(w.f, 0)), "the message")
	c.prov("oaep", "ciphertext", u.call.Instr.Pos(), u.call.Args[3], Same(paramOfTerm(u.f, 0)), "the ciphertext")
	c.prov("oaep", "public key", w.call.Instr.Pos(), w.call.Args[2], Has(Fld("FdoPublicKey.PkBody", Same(paramOfTerm(w.f, 1)))), "the owner's key")
	c.prov("oaep", "private key", u.call.Instr.Pos(), u.call.Args[2], Same(paramOfTerm(u.f, 1)), "the owner's key")
}

// c30kdf: SP 800-108 counter mode as FDO 1.1 section 4.4 profiles it.
func c30kdf(c *Ctx) {
	f := c.need("core/shared.Sp800108CounterKDF")
	if f == nil {
		return
	}
	ai := paramOfType(f, "HashType")
	ei := errResult(f)
	if ai < 0 || len(f.Params) != 4 {
		c.missing("parameters of Sp800108CounterKDF")
		return
	}
	size, key, ctx := Same(paramOfTerm(f, 0)), Same(paramOfTerm(f, 2)), Same(paramOfTerm(f, 3))
	for _, h := range []struct {
		name string
		bits int
	}{{"HASH_HMAC_SHA256", 256}, {"HASH_HMAC_SHA384", 384}} {
		args := make([]*Term, 4)
		args[ai] = kInt(constName(c, "core/shared", h.name), f.Params[ai].Type())
		sa := c.A.spec(f, args)
		ok := sa.feasible(f, ei, "nil")
		c.ob("kdf", h.name+": supported", ok, f.Pos(), "the suites use this PRF")
		if !ok {
			continue
		}
		bitLen := func(a *Analyzer, t *Term) bool {
			return t.Op == "bin" && (t.Name == "*" && (a.is(t.Args[0], size) && a.is(t.Args[1], K("8")) || a.is(t.Args[1], size) && a.is(t.Args[0], K("8"))) ||
				t.Name == "<<" && a.is(t.Args[0], size) && a.is(t.Args[1], K("3")))
		}
		block := func(a *Analyzer, t *Term) bool {
			if t.Op != "hsum" || len(t.Args) < 2 {
				return false
			}
			hn := t.Args[0]
			if hn.Name != "crypto/hmac.New" || len(hn.Args) != 2 || hn.Args[0].Name != digest[h.bits].new || !a.is(hn.Args[1], key) {
				return false
			}
			bs := byteList(a, t.Args[1:])
			if bs == nil || len(bs) != 1+len("FIDO-KDF")+1+len("AutomaticOnboardTunnel")+1+2 {
				return false
			}
			if bs[0].Op != "idx" || !strings.HasPrefix(bs[0].Name, "1@") {
				return false
			}
			for i, ch := range []byte("FIDO-KDF\x00AutomaticOnboardTunnel") {
				if bs[1+i].Op != "const" || bs[1+i].Name != itoa(int(ch)) {
					return false
				}
			}
			n := len(bs)
			return a.is(bs[n-3], ctx) && hiByte(a, bs[n-2], bitLen) && loByte(a, bs[n-1], bitLen)
		}
		r := sa.okResult(f, 0)
		m := func(a *Analyzer, t *Term) bool {
			if t.Op == "slice" && a.is(t.Args[1], K("0")) && a.is(t.Args[2], size) {
				return a.is(t.Args[0], concatAll(block))
			}
			return false
		}
		c.prov2(sa, "kdf", h.name+": derived key", f, r, m, "the leading bytes of PRF(key, [i] ‖ label ‖ 0 ‖ context ‖ context randomness ‖ [bit length]) for i = 1, 2, …")
		c.ob("kdf", h.name+": every block is taken", c.noSkipIn(f, false), f.Pos(), "no iteration may be skipped")
	}
	args := make([]*Term, 4)
	args[ai] = kInt(otherAlg, f.Params[ai].Type())
	c.ob("kdf", "unknown PRF", !c.A.spec(f, args).feasible(f, ei, "nil"), f.Pos(), "an unknown PRF must be an error")
}

// byteList flattens written pieces into byte terms; a piece of unknown length stays one term.
func byteList(a *Analyzer, ws []*Term) []*Term {
	var out []*Term
	var add func(t *Term, d int)
	add = func(t *Term, d int) {
		if d > 8 {
			out = append(out, t)
			return
		}
		if t.Op == "prev" {
			add(t.Args[0], d+1)
			return
		}
		if k := a.constOf(t); k.Op == "const" && constOfTerm(k) != nil && constOfTerm(k).Kind() == constant.String {
			for _, ch := range []byte(constant.StringVal(constOfTerm(k))) {
				out = append(out, kInt(itoa(int(ch)), types.Typ[types.Byte]))
			}
			return
		}
		if t.Op == "lit" && t.Name == "array" {
			for _, kv := range t.Args {
				b := a.constOf(kv.Args[0])
				if b.Op == "zero" {
					b = kInt("0", types.Typ[types.Byte])
				}
				out = append(out, b)
			}
			return
		}
		if t.Op == "call" && t.Name == "append" || t.Op == "call" && t.Name == "slices.Concat" {
			if ps := flatConcat(a, t, 0); len(ps) != 1 {
				for _, p := range ps {
					add(p, d+1)
				}
				return
			}
		}
		if ar := arrLen(t.T); t.Op == "out" && strings.HasSuffix(t.Name, "(bigEndian).PutUint16") && ar == 2 {
			v := t.Args[len(t.Args)-1]
			out = append(out, mk("bin", ">>", v.T, v, kInt("8", types.Typ[types.Int])), v)
			return
		}
		if t.Op == "zero" && t.T != nil {
			if ar, ok := t.T.Underlying().(*types.Array); ok && ar.Len() < 64 {
				for i := int64(0); i < ar.Len(); i++ {
					out = append(out, kInt("0", types.Typ[types.Byte]))
				}
				return
			}
		}
		out = append(out, t)
	}
	for _, w := range ws {
		add(w, 0)
	}
	return out
}

func masked(a *Analyzer, t *Term) *Term {
	if t.Op == "bin" && t.Name == "&" && a.is(t.Args[1], K("255")) {
		return t.Args[0]
	}
	return t
}

func loByte(a *Analyzer, t *Term, m M) bool { return a.is(masked(a, t), m) }
func hiByte(a *Analyzer, t *Term, m M) bool {
	t = masked(a, t)
	return t.Op == "bin" && t.Name == ">>" && a.is(t.Args[1], K("8")) && a.is(t.Args[0], m)
}

func c30use(c *Ctx, g, d *ssa.Function, gi, di, dev, xbI, pkI int) {
	gk, dk := fnKey(g), fnKey(d)
	nOwner, nDev := 0, 0
	for _, h := range handlers(c, fdoMsgs...) {
		for _, e := range c.callsTo(h, gk) {
			nOwner++
			c.prov("use", "owner contribution: suite", e.Instr.Pos(), e.Args[gi], Fld("HelloDevice60.KexSuiteName", Out("HelloDevice60", nil)), "the suite the device asked for")
			c.prov("use", "owner contribution: no owner key", e.Instr.Pos(), e.Args[1-gi], K("nil"), "the owner's random is sent in the clear")
		}
		for _, e := range c.callsTo(h, dk) {
			nOwner++
			c.prov("use", "owner derivation: own part", e.Instr.Pos(), e.Args[di], Fld("SessionEntry.XAKex", doSess()), "the contribution stored for this session")
			c.prov("use", "owner derivation: peer part", e.Instr.Pos(), e.Args[xbI], Has(Fld("TO2ProveDevicePayload.XBKeyExchange", nil)), "the device's contribution")
			c.prov("use", "owner derivation: role", e.Instr.Pos(), e.Args[dev], K("false"), "the owner's role")
		}
	}
	kexOf := Res(gk, 0)
	if h := c.handler(60); h != nil {
		for _, e := range c.callsTo(h, "core/do/dbs.(SessionDB).NewSessionEntry") {
			nOwner++
			c.prov("use", "owner contribution: stored", e.Instr.Pos(), fieldOf(e.Args[1], "SessionEntry.XAKex"), kexOf, "the generated contribution")
		}
	}
	for _, f := range c.deviceSteps() {
		me := paramOf(fnKey(f), 0)
		for _, e := range c.callsTo(f, gk) {
			nDev++
			c.prov("use", "device contribution: suite", e.Instr.Pos(), e.Args[gi], Fld("To2Requestor.KexSuiteName", me), "the negotiated suite")
			c.prov("use", "device contribution: owner key", e.Instr.Pos(), e.Args[1-gi], Fld("To2Requestor.ProveOVHdr61PubKey", me), "the owner key the owner proved")
		}
		for _, e := range c.callsTo(f, dk) {
			nDev++
			c.prov("use", "device derivation: own part", e.Instr.Pos(), e.Args[di], kexOf, "the contribution just generated")
			c.prov("use", "device derivation: peer part", e.Instr.Pos(), e.Args[xbI], Fld("To2Requestor.XAKex", me), "the owner's contribution")
			c.prov("use", "device derivation: role", e.Instr.Pos(), e.Args[dev], K("true"), "the device's role")
		}
	}
	if nOwner < 3 || nDev < 2 {
		c.missing("uses of the key exchange")
	}
}

// ---------- C27 ----------

// bytesRange: bytes lo to hi of a value of which the length is checked to be total elsewhere (0: not known).
func bytesRange(x M, lo, hi, total int) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "slice" || !a.is(t.Args[0], x) {
			return false
		}
		l, ok1 := a.indexIn(t.Args[1], x, total)
		h, ok2 := a.indexIn(t.Args[2], x, total)
		return ok1 && ok2 && l == int64(lo) && h == int64(hi)
	}
}

// indexIn: a position in a value of the given length, when it is a constant or computed from the length.
func (a *Analyzer) indexIn(t *Term, x M, total int) (int64, bool) {
	if total > 0 && (t.Op == "const" && t.Name == "end" || t.Op == "call" && t.Name == "len" && len(t.Args) == 1 && a.is(t.Args[0], x)) {
		return int64(total), true
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		p, ok1 := a.indexIn(t.Args[0], x, total)
		q, ok2 := a.indexIn(t.Args[1], x, total)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.Name {
		case "+":
			return p + q, true
		case "-":
			return p - q, true
		case "*":
			return p * q, true
		case "/":
			if q != 0 {
				return p / q, true
			}
		}
		return 0, false
	}
	if c := constOfTerm(a.constOf(t)); c != nil {
		n, err := strconv.ParseInt(c.ExactString(), 10, 64)
		return n, err == nil
	}
	return 0, false
}

// bigOf: a big integer set from these bytes.
func bigOf(x M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op == "out" && t.Name == "math/big.(Int).SetBytes" && len(t.Args) == 1 {
			return a.is(t.Args[0], x)
		}
		return t.Op == "call" && t.Name == "math/big.(Int).SetBytes" && len(t.Args) == 2 && a.is(t.Args[1], x)
	}
}

var sigSpecs = []struct {
	pk, sg string
	bits   int // digest
	w      int // width of r and s; 0: RSA
	rsa    int // modulus size
	hash   string
}{
	{"SECP256R1", "StSECP256R1", 256, 32, 0, ""},
	{"SECP384R1", "StSECP384R1", 384, 48, 0, ""},
	{"RSA2048RESTR", "StRSA2048", 256, 0, 2048, "SHA256"},
	{"RSAPKCS", "StRSA3072", 384, 0, 3072, "SHA384"},
}

func cryptoHash(bits int) string {
	if bits == 256 {
		return "5"
	}
	return "6"
}

func c27(c *Ctx) {
	f := c.need("core/shared.VerifySignature")
	if f != nil && len(f.Params) == 4 {
		pay, sig, key := Same(paramOfTerm(f, 0)), Same(paramOfTerm(f, 1)), Same(paramOfTerm(f, 2))
		for _, s := range sigSpecs {
			pk := constName(c, "core/shared", s.pk)
			args := []*Term{nil, nil, nil, kInt(pk, f.Params[3].Type())}
			if s.w > 0 {
				sa := c.A.spec(f, args)
				ok := sa.feasible(f, 0, "nil")
				c.ob("key-type", "VerifySignature with "+s.pk, ok, f.Pos(), "this key type must be supported")
				if !ok {
					continue
				}
				fs := sa.summary(f, 0, "nil")
				g := sa.req(fs, Req{Kind: "true", A: Res("crypto/ecdsa.Verify", 0, key, digestOf(s.bits, pay), bigOf(bytesRange(sig, 0, s.w, 2*s.w)), bigOf(bytesRange(sig, s.w, 2*s.w, 2*s.w)))})
				c.ob("key-operation", "VerifySignature with "+s.pk, g != nil, f.Pos(), "success requires the ECDSA check of the SHA-%d digest of the payload with both halves of the signature under the given key", s.bits)
				ln := sa.req(fs, Req{Kind: "eq", A: func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "len" && a.is(t.Args[0], sig) }, B: K(itoa(2 * s.w))})
				c.ob("key-operation", "VerifySignature with "+s.pk+": length", ln != nil, f.Pos(), "success requires a signature of exactly %d bytes", 2*s.w)
				continue
			}
			for _, r := range sigSpecs {
				if r.rsa == 0 {
					continue
				}
				sa := c.A.spec(f, args, asm{func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "math/big.(Int).BitLen" }, kInt(itoa(r.rsa), types.Typ[types.Int])},
					asm{func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "crypto/rsa.(PublicKey).Size" }, kInt(itoa(r.rsa/8), types.Typ[types.Int])})
				where := fmt.Sprintf("VerifySignature with %s and a %d-bit key", s.pk, r.rsa)
				ok := sa.feasible(f, 0, "nil")
				if !ok {
					if s.pk == "RSAPKCS" || r.rsa == 2048 {
						c.ob("key-type", where, false, f.Pos(), "this key type must be supported")
					}
					continue
				}
				fs := sa.summary(f, 0, "nil")
				g := sa.req(fs, Req{Kind: "nil", A: Res("crypto/rsa.VerifyPKCS1v15", 0, key, K(cryptoHash(r.bits)), digestOf(r.bits, pay), sig)})
				c.ob("key-operation", where, g != nil, f.Pos(), "success requires the PKCS#1 v1.5 check of the SHA-%d digest of the payload under the given key", r.bits)
			}
			sa := c.A.spec(f, args, asm{func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "math/big.(Int).BitLen" }, kInt("512", types.Typ[types.Int])})
			c.ob("key-type", "VerifySignature with "+s.pk+" and another modulus size", !sa.feasible(f, 0, "nil"), f.Pos(), "unsupported modulus sizes must be an error")
		}
		for _, o := range []string{otherAlg, constName(c, "core/shared", "RSAPSS")} {
			sa := c.A.spec(f, []*Term{nil, nil, nil, kInt(o, f.Params[3].Type())})
			c.ob("key-type", "VerifySignature with unsupported type "+o, !sa.feasible(f, 0, "nil"), f.Pos(), "unsupported key types must be an error")
		}
	}
	// COSE layer
	f = c.need("core/shared.VerifyCoseSignature")
	if f != nil && len(f.Params) == 2 {
		cs, pkp := paramOfTerm(f, 0), paramOfTerm(f, 1)
		body := M(Same(projField(pkp, "FdoPublicKey.PkBody", nil)))
		tbs := sig1(Same(projField(cs, "CoseSignature.Protected", nil)), Same(projField(cs, "CoseSignature.Payload", nil)))
		vs := func(key M) Req {
			return Req{Kind: "nil", A: Res("core/shared.VerifySignature", 0, tbs, Same(projField(cs, "CoseSignature.Signature", nil)), key, Same(projField(pkp, "FdoPublicKey.PkType", nil)))}
		}
		pkix := func(b M) M { return Res("crypto/x509.ParsePKIXPublicKey", 0, b) }
		chain := Res("core/shared.VerifyCertificateChain", 0, body)
		leaf := func(a *Analyzer, t *Term) bool {
			return t.Op == "index" && a.is(t.Args[0], chain) && a.is(t.Args[1], K("0"))
		}
		encs := []struct {
			name string
			key  M
			more []Req
		}{
			{"X509", pkix(body), []Req{{Name: "key decoded", Kind: "nil", A: Res("crypto/x509.ParsePKIXPublicKey", 1, body)}}},
			{"X5CHAIN", Fld("Certificate.PublicKey", leaf), []Req{{Name: "chain verified", Kind: "nil", A: Res("core/shared.VerifyCertificateChain", 1, body)}}},
			{"COSEKEY", pkix(Res("core/shared.CoseKeyToX509", 0, Same(pkp))), []Req{{Name: "key decoded", Kind: "nil", A: Res("core/shared.CoseKeyToX509", 1, Same(pkp))}}},
		}
		et := namedType(c, "core/shared", "FdoPkEnc")
		for _, e := range encs {
			sa := c.A.spec(f, []*Term{nil, withField(pkp, f.Params[1].Type(), map[string]*Term{"FdoPublicKey.PkEnc": kInt(constName(c, "core/shared", e.name), et)})})
			// in the specialised run the whole key is a literal; compare its fields
			ok := sa.feasible(f, 0, "nil")
			c.ob("key-encoding", "VerifyCoseSignature with "+e.name, ok, f.Pos(), "this key encoding must be supported")
			if !ok {
				continue
			}
			fs := sa.summary(f, 0, "nil")
			if e.name == "COSEKEY" {
				e.key = pkix(Res("core/shared.CoseKeyToX509", 0))
				e.more = []Req{{Name: "key decoded", Kind: "nil", A: Res("core/shared.CoseKeyToX509", 1)}}
			}
			c.ob("cose-verify", e.name+": signature check", sa.req(fs, vs(e.key)) != nil, f.Pos(), "success requires VerifySignature over the received protected header and payload, with the received signature, the key given and its type")
			for _, r := range e.more {
				c.ob("cose-verify", e.name+": "+r.Name, sa.req(fs, r) != nil, f.Pos(), "%s on every success", r.Name)
			}
		}
		for _, o := range []string{otherAlg, constName(c, "core/shared", "Crypto")} {
			sa := c.A.spec(f, []*Term{nil, withField(pkp, f.Params[1].Type(), map[string]*Term{"FdoPublicKey.PkEnc": kInt(o, et)})})
			c.ob("key-encoding", "VerifyCoseSignature with unsupported encoding "+o, !sa.feasible(f, 0, "nil"), f.Pos(), "unsupported key encodings must be an error")
		}
	}
	f = c.need("core/shared.VerifyCoseSignatureWithCertificate")
	if f != nil && len(f.Params) == 3 {
		fs := c.A.summary(f, 0, "nil")
		k := func(a *Analyzer, t *Term) bool {
			return a.is(projField(t, "FdoPublicKey.PkType", nil), Same(paramOfTerm(f, 1))) && a.is(projField(t, "FdoPublicKey.PkEnc", nil), K(constName(c, "core/shared", "X5CHAIN"))) && a.is(projField(t, "FdoPublicKey.PkBody", nil), Same(paramOfTerm(f, 2)))
		}
		c.ob("cose-verify", "VerifyCoseSignatureWithCertificate", c.A.req(fs, Req{Kind: "nil", A: Res("core/shared.VerifyCoseSignature", 0, Same(paramOfTerm(f, 0)), k)}) != nil, f.Pos(), "success requires VerifyCoseSignature with the given certificates as an X5CHAIN key of the given type")
	}
	f = c.need("core/shared.NewSig1Payload")
	if f != nil && len(f.Params) == 2 {
		sa := c.A.spec(f, nil)
		r := sa.okResult(f, 0)
		m := func(a *Analyzer, t *Term) bool {
			g := func(n string) *Term { return projField(t, "CoseSignatureStructure."+n, nil) }
			return a.is(g("Context"), K("Signature1")) && a.is(g("Protected"), Same(paramOfTerm(f, 0))) && a.is(g("Payload"), Same(paramOfTerm(f, 1))) && isEmptyTerm(g("ExternalAAD"))
		}
		c.ob("signed-structure", "NewSig1Payload", r != nil && sa.is(r, Marshal(m)), f.Pos(), "the encoded structure is [\"Signature1\", protected, empty, payload]: %s", trunc(r.String()))
	}
	c27chain(c)
	c27sign(c)
	c.min("key-operation", 5)
	c.min("cose-verify", 5)
	c.min("chain", 4)
	c.min("signer", 8)
}

func sig1(prot, pay M) M { return Res("core/shared.NewSig1Payload", 0, prot, pay) }

func c27chain(c *Ctx) {
	f := c.need("core/shared.VerifyCertificateChain")
	if f == nil || len(f.Params) != 1 {
		return
	}
	ch := M(Same(paramOfTerm(f, 0)))
	at := func(i M) M {
		return func(a *Analyzer, t *Term) bool { return t.Op == "index" && a.is(t.Args[0], ch) && a.is(t.Args[1], i) }
	}
	lenCh := func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "len" && a.is(t.Args[0], ch) }
	last := func(a *Analyzer, t *Term) bool {
		return t.Op == "bin" && t.Name == "-" && a.is(t.Args[0], lenCh) && a.is(t.Args[1], K("1"))
	}
	leaf := Res("crypto/x509.ParseCertificate", 0, at(K("0")))
	root := Res("crypto/x509.ParseCertificate", 0, at(last))
	fs := c.A.summary(f, 1, "nil")
	if fs == nil {
		fs = newFS()
	}
	const vn = "crypto/x509.(Certificate).Verify"
	var roots *Term
	opts := func(a *Analyzer, t *Term) bool {
		r := projField(t, "VerifyOptions.Roots", nil)
		if r.Op != "call" || r.Name != "crypto/x509.NewCertPool" {
			return false
		}
		roots = r
		return true
	}
	g := c.A.req(fs, Req{Kind: "nil", A: Res(vn, 1, leaf, opts)})
	c.ob("chain", "leaf verified", g != nil, f.Pos(), "success requires Certificate.Verify of the first certificate to succeed against a fresh root pool")
	rootOK := false
	if roots != nil {
		rootOK = true
		n := 0
		for _, e := range c.callsTo(f, "crypto/x509.(CertPool).AddCert", "crypto/x509.(CertPool).AppendCertsFromPEM") {
			if e.Args[0].Key() != roots.Key() {
				continue
			}
			n++
			if !c.A.is(e.Args[1], root) {
				rootOK = false
			}
		}
		rootOK = rootOK && n > 0
	}
	c.ob("chain", "root pool", rootOK, f.Pos(), "the root pool holds the last certificate only")
	c.ob("chain", "root is a CA", c.A.req(fs, Req{Kind: "true", A: Fld("Certificate.IsCA", root)}) != nil, f.Pos(), "success requires the last certificate to be a CA certificate")
	long := c.A.req(fs, Req{Or: []Req{{Kind: "le", A: K("2"), B: lenCh}, {Kind: "lt", A: K("1"), B: lenCh}}})
	c.ob("chain", "length", long != nil, f.Pos(), "success requires at least two certificates")
	sa := c.A.spec(f, nil)
	r := sa.okResult(f, 0)
	verified := func(a *Analyzer, t *Term) bool {
		return t.Op == "index" && a.is(t.Args[0], Res(vn, 0)) && a.is(t.Args[1], K("0"))
	}
	c.ob("chain", "returned chain", r != nil && sa.is(r, verified), f.Pos(), "the returned chain is a verified chain (leaf first)")
}

func c27sign(c *Ctx) {
	f := c.need("core/shared.GenerateCoseSignature")
	if f == nil {
		return
	}
	pi, si := -1, paramOfType(f, "SgType")
	hi := paramOfType(f, "ProtectedHeader")
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Interface); ok {
			pi = i
		}
	}
	if pi < 0 || si < 0 || hi < 0 {
		c.missing("parameters of GenerateCoseSignature")
		return
	}
	pay, key := Same(paramOfTerm(f, 0)), Same(paramOfTerm(f, pi))
	for _, s := range sigSpecs {
		args := make([]*Term, len(f.Params))
		sv := constName(c, "core/shared", s.sg)
		args[si] = kInt(sv, f.Params[si].Type())
		sa := c.A.spec(f, args)
		ok := sa.feasible(f, 1, "nil")
		c.ob("signer", s.sg+": supported", ok, f.Pos(), "this signature type must be supported")
		if !ok {
			continue
		}
		r := sa.okResult(f, 0)
		g := func(n string) *Term { return projField(r, "CoseSignature."+n, nil) }
		prot := Marshal(func(a *Analyzer, t *Term) bool { return a.is(projField(t, "ProtectedHeader.Alg", nil), K(sv)) })
		c.prov2(sa, "signer", s.sg+": protected header", f, g("Protected"), prot, "the encoded header naming the signature type")
		c.prov2(sa, "signer", s.sg+": payload", f, g("Payload"), pay, "the payload given")
		tbs := sig1(prot, pay)
		if s.w == 0 {
			c.prov2(sa, "signer", s.sg+": signature", f, g("Signature"), Res("crypto/rsa.SignPKCS1v15", 0, nil, key, K(cryptoHash(s.bits)), digestOf(s.bits, tbs)), "the PKCS#1 v1.5 signature of the digest the verifier uses")
			continue
		}
		sg := func(i int) M { return Res("crypto/ecdsa.Sign", i, nil, key, digestOf(s.bits, tbs)) }
		fixed := func(i int) M {
			return Or(func(a *Analyzer, t *Term) bool {
				return t.Op == "call" && t.Name == "core/shared.i2osp" && a.is(t.Args[0], Res("math/big.(Int).Bytes", 0, sg(i))) && a.is(t.Args[1], K(itoa(s.w)))
			}, func(a *Analyzer, t *Term) bool {
				if t.Op == "out" && t.Name == "math/big.(Int).FillBytes" && len(t.Args) == 1 && a.is(t.Args[0], sg(i)) {
					ar, ok := t.T.Underlying().(*types.Array)
					return ok && ar.Len() == int64(s.w)
				}
				if t.Op != "call" || t.Name != "math/big.(Int).FillBytes" || !a.is(t.Args[0], sg(i)) {
					return false
				}
				n, ok := a.lenOf(t.Args[1])
				return ok && n == int64(s.w)
			})
		}
		both := func(a *Analyzer, t *Term) bool {
			ps := flatConcat(a, t, 0)
			return len(ps) == 2 && a.is(ps[0], fixed(0)) && a.is(ps[1], fixed(1))
		}
		c.prov2(sa, "signer", s.sg+": signature", f, g("Signature"), both, "the two ECDSA integers, padded to equal width, over the digest the verifier uses")
	}
	args := make([]*Term, len(f.Params))
	args[si] = kInt(otherAlg, f.Params[si].Type())
	c.ob("signer", "unknown type", !c.A.spec(f, args).feasible(f, 1, "nil"), f.Pos(), "an unknown signature type must be an error")
}

// prov2: provenance under a specialised analysis.
func (c *Ctx) prov2(sa *Analyzer, rule, construct string, f *ssa.Function, t *Term, m M, what string) {
	s := "<none>"
	if t != nil {
		s = trunc(t.String())
	}
	if t != nil && sa.is(t, m) {
		c.ob(rule, construct, true, f.Pos(), "%s: %s", what, s)
	} else {
		c.ob(rule, construct, false, f.Pos(), "expected %s, but the value is %s", what, s)
	}
}

// ---------- C10 and C28 ----------

// suiteSpec: parameters of FDO 1.1 (section 3.6.2 and 4.4) per cipher suite; the frozen oracle of C28.
type suiteSpec struct {
	name           string
	mode           string // gcm ccm ctr cbc
	sek, svk, sevk int
	iv, tag        int
	kdf, hmac      string // hash type constants
	must           bool   // supported by this tool
}

var suites = []suiteSpec{
	{"CIPHER_A128GCM", "gcm", 0, 0, 16, 12, 0, "HASH_HMAC_SHA256", "HASH_HMAC_SHA256", true},
	{"CIPHER_A256GCM", "gcm", 0, 0, 32, 12, 0, "HASH_HMAC_SHA256", "HASH_HMAC_SHA384", true},
	{"CIPHER_AES_CCM_16_128_128", "ccm", 0, 0, 16, 13, 16, "HASH_HMAC_SHA256", "HASH_HMAC_SHA256", true},
	{"CIPHER_AES_CCM_16_128_256", "ccm", 0, 0, 32, 13, 16, "HASH_HMAC_SHA256", "HASH_HMAC_SHA384", true},
	{"CIPHER_AES_CCM_64_128_128", "ccm", 0, 0, 16, 7, 16, "HASH_HMAC_SHA256", "HASH_HMAC_SHA256", true},
	{"CIPHER_AES_CCM_64_128_256", "ccm", 0, 0, 32, 7, 16, "HASH_HMAC_SHA256", "HASH_HMAC_SHA384", true},
	{"CIPHER_COSE_AES128_CTR", "ctr", 16, 32, 0, 16, 0, "HASH_HMAC_SHA256", "HASH_HMAC_SHA256", true},
	{"CIPHER_COSE_AES256_CTR", "ctr", 32, 64, 0, 16, 0, "HASH_HMAC_SHA384", "HASH_HMAC_SHA384", false},
	{"CIPHER_COSE_AES128_CBC", "cbc", 16, 32, 0, 16, 0, "HASH_HMAC_SHA256", "HASH_HMAC_SHA256", false},
	{"CIPHER_COSE_AES256_CBC", "cbc", 32, 64, 0, 16, 0, "HASH_HMAC_SHA384", "HASH_HMAC_SHA384", false},
}

// the code points the specification assigns
var suiteIDs = map[string]string{"CIPHER_A128GCM": "1", "CIPHER_A256GCM": "3", "CIPHER_AES_CCM_16_128_128": "30", "CIPHER_AES_CCM_16_128_256": "31",
	"CIPHER_AES_CCM_64_128_128": "32", "CIPHER_AES_CCM_64_128_256": "33", "CIPHER_COSE_AES128_CBC": "-17760703", "CIPHER_COSE_AES128_CTR": "-17760704",
	"CIPHER_COSE_AES256_CBC": "-17760705", "CIPHER_COSE_AES256_CTR": "-17760706"}

type suiteM struct {
	s              suiteSpec
	id, kdfA, hmac string
	ssh, ctx       M
	loose          bool // any sizes: only the structure matters
}

func newSuiteM(c *Ctx, s suiteSpec, sk *Term) suiteM {
	return suiteM{s: s, id: constName(c, "core/shared", s.name), kdfA: constName(c, "core/shared", s.kdf), hmac: constName(c, "core/shared", s.hmac),
		ssh: Same(projField(sk, "SessionKeyInfo.ShSe", nil)), ctx: Same(projField(sk, "SessionKeyInfo.ContextRand", nil))}
}

func (m suiteM) n(v int) M {
	if m.loose {
		return nil
	}
	return K(itoa(v))
}

func (m suiteM) kdf(n int) M {
	if m.loose {
		return Res("core/shared.Sp800108CounterKDF", 0, nil, nil, m.ssh, m.ctx)
	}
	return Res("core/shared.Sp800108CounterKDF", 0, K(itoa(n)), K(m.kdfA), m.ssh, m.ctx)
}

func (m suiteM) aead() M {
	blk := Res("crypto/aes.NewCipher", 0, m.kdf(m.s.sevk))
	if m.s.mode == "gcm" {
		return Res("crypto/cipher.NewGCM", 0, blk)
	}
	return Res("core/shared/ccm.NewCCM", 0, blk, m.n(m.s.tag), m.n(m.s.iv))
}

func (m suiteM) svk() M {
	if m.loose {
		k := m.kdf(0)
		return func(a *Analyzer, t *Term) bool {
			return t.Op == "slice" && a.is(t.Args[0], k) && a.is(t.Args[1], K("0"))
		}
	}
	return sliceOr(m.kdf(m.s.svk+m.s.sek), 0, m.s.svk)
}
func (m suiteM) sek() M { return sliceOr(m.kdf(m.s.svk+m.s.sek), m.s.svk, m.s.svk+m.s.sek) }

func sliceOr(x M, lo, hi int) M {
	b := bytesRange(x, lo, hi, 0)
	return func(a *Analyzer, t *Term) bool {
		if b(a, t) {
			return true
		}
		// open-ended tail of a value of known size
		return t.Op == "slice" && a.is(t.Args[0], x) && a.is(t.Args[1], K(itoa(lo))) && a.is(t.Args[2], K("end"))
	}
}

func fieldsM(owner string, fs map[string]M) M {
	return func(a *Analyzer, t *Term) bool {
		for n, m := range fs {
			x := projField(t, owner+"."+n, nil)
			if !a.is(x, m) {
				return false
			}
		}
		return true
	}
}

func emptyM(a *Analyzer, t *Term) bool { return isEmptyTerm(t) }

func (m suiteM) aad(prot M) M {
	return Marshal(fieldsM("AEAD_Enc_Structure", map[string]M{"Context": K("Encrypt0"), "Protected": prot, "ExternalAad": emptyM}))
}

func invokeRes(method string, idx int, args ...M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "call" || t.Idx != idx || len(t.Name) < len(method)+8 || t.Name[:7] != "invoke." || t.Name[len(t.Name)-len(method)-1:] != "."+method {
			return false
		}
		for i, m := range args {
			if m != nil && (i >= len(t.Args) || !a.is(t.Args[i], m)) {
				return false
			}
		}
		return true
	}
}

func algHeader(id string) M {
	return func(a *Analyzer, t *Term) bool { return a.is(projField(t, "ProtectedHeader.Alg", nil), intRef(id)) }
}

func intRef(id string) M {
	return Or(K(id), Res("core/shared.GetIntRef", 0, K(id)))
}

func (m suiteM) open(emb M) M {
	return func(a *Analyzer, t *Term) bool {
		return invokeRes("Open", t.Idx, m.aead(), emptyM, Fld("UnprotectedHeader.AESIV", Fld("EMB_ETMInnerBlock.Unprotected", emb)), Fld("EMB_ETMInnerBlock.Ciphertext", emb), m.aad(Fld("EMB_ETMInnerBlock.Protected", emb)))(a, t)
	}
}

func macStruct(prot, ct M) M {
	return Marshal(fieldsM("COSEMacStructure", map[string]M{"Context": K("MAC0"), "Protected": prot, "ExternalAAD": emptyM, "Ciphertext": ct}))
}

// streamed: some executed keystream application writes out from in.
func streamed(sa *Analyzer, fs *FactSet, out *Term, stream, in M) bool {
	for _, f := range fs.list() {
		if f.Kind != "called" || len(f.A.Args) != 3 || !invokeRes("XORKeyStream", 0)(sa, f.A) {
			continue
		}
		if f.A.Args[1].Key() == out.Key() && sa.is(f.A.Args[0], stream) && sa.is(f.A.Args[2], in) {
			return true
		}
	}
	return false
}

func specSuite(c *Ctx, f *ssa.Function, id string) *Analyzer {
	i := paramOfType(f, "CipherSuiteName")
	if i < 0 {
		c.missing("cipher suite parameter of " + fnShort(f))
		return nil
	}
	args := make([]*Term, len(f.Params))
	args[i] = kInt(id, f.Params[i].Type())
	return c.A.spec(f, args)
}

func skParam(f *ssa.Function) *Term {
	if i := paramOfType(f, "SessionKeyInfo"); i >= 0 {
		return paramOfTerm(f, i)
	}
	return mk("opaque", "no session key", nil)
}

// onSuccess expands single-callee delegation: the facts and value of a dispatch function's successful return.
func c10(c *Ctx) {
	f := c.need("core/shared.RemoveEncryptionWrapping")
	if f == nil {
		return
	}
	enc := Same(paramOfTerm(f, 0))
	ei := errResult(f)
	n := 0
	for _, s := range suites {
		m := newSuiteM(c, s, skParam(f))
		m.loose = true // sizes are C28's
		sa := specSuite(c, f, m.id)
		if sa == nil {
			return
		}
		if !sa.feasible(f, ei, "nil") {
			continue
		}
		n++
		fs := sa.summary(f, ei, "nil")
		r := sa.okResult(f, 0)
		outer := Out("ETMOuterBlock", enc)
		var alg Req
		if s.mode == "gcm" || s.mode == "ccm" {
			emb := Out("EMB_ETMInnerBlock", enc)
			ph := Out("ProtectedHeader", Fld("EMB_ETMInnerBlock.Protected", emb))
			alg = Req{Kind: "eq", A: Fld("ProtectedHeader.Alg", ph), B: K(m.id)}
			op := m.open(emb)
			ok := false
			for _, x := range fs.list() {
				if x.Kind == "nil" && x.A.Op == "call" && x.A.Idx == 1 && sa.is(x.A, op) {
					ok = true
				}
			}
			c.ob("authenticated", s.name, ok, f.Pos(), "success requires the AEAD to open the received ciphertext, with the received nonce and the received protected header as associated data, under the derived key")
			c.prov2(sa, "plaintext", s.name, f, r, func(a *Analyzer, t *Term) bool { return t.Idx == 0 && op(a, t) }, "what the AEAD opened")
		} else {
			emb := Out("EMB_ETMInnerBlock", Fld("ETMOuterBlock.Payload", outer))
			ph := Out("ProtectedHeader", Fld("EMB_ETMInnerBlock.Protected", emb))
			alg = Req{Kind: "eq", A: Fld("ProtectedHeader.Alg", ph), B: K(m.id)}
			tag := fieldsM("HashOrHmac", map[string]M{"Hash": Fld("ETMOuterBlock.Tag", outer)})
			mac := Res("core/shared.VerifyHMac", 0, macStruct(Out("ProtectedHeader", Fld("ETMOuterBlock.Protected", outer)), Fld("ETMOuterBlock.Payload", outer)), tag, m.svk())
			c.ob("authenticated", s.name, sa.req(fs, Req{Kind: "nil", A: mac}) != nil, f.Pos(), "success requires the MAC over the received MAC structure to verify under the derived verification key")
			ok := false
			if r != nil {
				for _, x := range append([]*Term{r}, c.expandAll(sa, r)...) {
					if streamed(sa, fs, x, nil1, Fld("EMB_ETMInnerBlock.Ciphertext", emb)) {
						ok = true
					}
				}
			}
			c.ob("plaintext", s.name, ok, f.Pos(), "the plaintext is the decryption of the authenticated inner ciphertext")
		}
		c.ob("negotiated-algorithm", s.name, sa.req(fs, alg) != nil, f.Pos(), "success requires the algorithm named in the message to be the negotiated one")
	}
	// nothing is decrypted before the MAC verified
	for _, e := range c.A.effects(f, func(in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		return ok && cc.Common().IsInvoke() && (cc.Common().Method.Name() == "XORKeyStream" || cc.Common().Method.Name() == "CryptBlocks")
	}, nil) {
		c.guard("mac-then-decrypt", "keystream in "+fnShort(e.Fn), e, []Req{{Name: "MAC verified", Kind: "nil", A: Res("core/shared.VerifyHMac", 0)}})
	}
	g := c.need("core/shared/ccm.(ccm).Open")
	if g != nil {
		fs := c.A.summary(g, 1, "nil")
		ctp, ad, no := Same(paramOfTerm(g, 3)), Same(paramOfTerm(g, 4)), Same(paramOfTerm(g, 2))
		var pt *Term
		ok := fs != nil && c.A.req(fs, Req{Kind: "eq", A: func(a *Analyzer, t *Term) bool { return t.Op == "make" }, B: func(a *Analyzer, t *Term) bool {
			if t.Op == "call" && t.Name == "core/shared/ccm.(ccm).tag" && t.Idx == 0 && len(t.Args) == 4 && a.is(t.Args[1], no) && a.is(t.Args[3], ad) {
				pt = t.Args[2]
				return true
			}
			return false
		}}) != nil
		r := c.A.okResult(g, 0)
		same := pt != nil && r != nil && r.Op == "call" && r.Name == "append" && len(r.Args) == 2 && r.Args[1].Key() == pt.Key()
		c.ob("ccm", "Open: plaintext", same, g.Pos(), "what is returned is the text the tag was recomputed over")
		dec := fs != nil && pt != nil && streamed(c.A, fs, pt, nil1, func(a *Analyzer, t *Term) bool { return t.Op == "slice" && a.is(t.Args[0], ctp) })
		c.ob("ccm", "Open: decryption", dec, g.Pos(), "that text is the decryption of the received ciphertext")
		c.ob("ccm", "Open", ok, g.Pos(), "success requires the received tag to equal the tag recomputed over the decrypted text")
		c.ob("ccm", "Open: tag computed", fs != nil && c.A.req(fs, Req{Kind: "nil", A: Res("core/shared/ccm.(ccm).tag", 1)}) != nil, g.Pos(), "success requires the tag computation to succeed")
	}
	if n < 7 {
		c.missing(fmt.Sprintf("decryption of the seven supported suites (found %d)", n))
	}
	c.min("authenticated", 7)
	c.min("mac-then-decrypt", 1)
}

func nil1(a *Analyzer, t *Term) bool { return true }

func (c *Ctx) expandAll(sa *Analyzer, t *Term) []*Term {
	var out []*Term
	for i := 0; i < 6; i++ {
		x := sa.expand(t)
		if x == nil || x.Key() == t.Key() {
			return out
		}
		out = append(out, x)
		t = x
	}
	return out
}

func c28(c *Ctx) {
	ef, df, zf := c.need("core/shared.AddEncryptionWrapping"), c.need("core/shared.RemoveEncryptionWrapping"), c.need("core/shared.Conf_Fuzz_AddWrapping")
	if ef == nil || df == nil || zf == nil {
		return
	}
	for _, s := range suites {
		id := constName(c, "core/shared", s.name)
		c.ob("code-point", s.name, id == suiteIDs[s.name], ef.Pos(), "code point %s, the specification assigns %s", id, suiteIDs[s.name])
		var can [3]bool
		var sas [3]*Analyzer
		for i, f := range []*ssa.Function{ef, df, zf} {
			sas[i] = specSuite(c, f, id)
			if sas[i] == nil {
				return
			}
			can[i] = sas[i].feasible(f, errResult(f), "nil")
		}
		if !can[0] && !can[1] && !s.must {
			c.ob("supported", s.name, !can[2], ef.Pos(), "refused by encryption, decryption and corruption alike")
			continue
		}
		c.ob("supported", s.name, can[0] && can[1] && can[2], ef.Pos(), "encryption %v, decryption %v, deliberate corruption %v", can[0], can[1], can[2])
		if s.mode == "cbc" {
			continue
		}
		// encryption
		plainOf := func(f *ssa.Function) M { return Same(paramOfTerm(f, 0)) }
		seal := func(sa *Analyzer, f *ssa.Function) M {
			m := newSuiteM(c, s, skParam(f))
			return func(a *Analyzer, t *Term) bool {
				return invokeRes("Seal", 0, m.aead(), emptyM, randBuf(s.iv), plainOf(f), m.aad(Marshal(algHeader(id))))(a, t)
			}
		}
		mac := func(sa *Analyzer, f *ssa.Function) M {
			m := newSuiteM(c, s, skParam(f))
			return func(a *Analyzer, t *Term) bool {
				return Res("core/shared.GenerateFdoHmac", 0, macStruct(algHeader(m.hmac), m.innerBlock(nil)), K(m.hmac), m.svk())(a, t)
			}
		}
		if can[0] {
			r := sas[0].okResult(ef, 0)
			m := newSuiteM(c, s, skParam(ef))
			if s.mode == "ctr" {
				fs := sas[0].summary(ef, errResult(ef), "nil")
				ct := func(a *Analyzer, t *Term) bool {
					return streamed(a, fs, t, Res("crypto/cipher.NewCTR", 0, Res("crypto/aes.NewCipher", 0, m.sek()), randBuf(s.iv)), plainOf(ef))
				}
				ob := fieldsM("ETMOuterBlock", map[string]M{"Protected": Marshal(algHeader(m.hmac)), "Payload": m.innerBlock(ct), "Tag": Fld("HashOrHmac.Hash", mac(sas[0], ef))})
				c.prov2(sas[0], "encrypt", s.name, ef, r, Marshal(ob), "the encrypt-then-MAC structure with this suite's parameters")
			} else {
				c.prov2(sas[0], "encrypt", s.name, ef, r, m.innerBlock(seal(sas[0], ef)), "the AEAD structure with this suite's parameters")
			}
		}
		// decryption parameters
		if can[1] {
			m := newSuiteM(c, s, skParam(df))
			fs := sas[1].summary(df, errResult(df), "nil")
			if s.mode == "ctr" {
				ok := false
				for _, x := range fs.list() {
					if x.Kind == "called" && invokeRes("XORKeyStream", 0, Res("crypto/cipher.NewCTR", 0, Res("crypto/aes.NewCipher", 0, m.sek())))(sas[1], x.A) {
						ok = true
					}
				}
				c.ob("decrypt", s.name+": key and mode", ok, df.Pos(), "counter mode under this suite's encryption key")
				c.ob("decrypt", s.name+": MAC", sas[1].req(fs, Req{Kind: "nil", A: Res("core/shared.VerifyHMac", 0, nil, fieldsM("HashOrHmac", map[string]M{"Type": K(m.hmac)}), m.svk())}) != nil, df.Pos(), "MAC with this suite's algorithm and verification key")
			} else {
				ok := false
				for _, x := range fs.list() {
					if x.Kind == "nil" && invokeRes("Open", 1, m.aead())(sas[1], x.A) {
						ok = true
					}
				}
				c.ob("decrypt", s.name, ok, df.Pos(), "opens with this suite's key length, tag and nonce parameters")
			}
		}
		if can[2] {
			r := sas[2].okResult(zf, 0)
			if s.mode == "ctr" {
				c.ob("corrupt", s.name, r != nil && sas[2].hasSub(r, mac(sas[2], zf), 0), zf.Pos(), "starts from a genuine message of this suite")
			} else {
				c.ob("corrupt", s.name, r != nil && sas[2].hasSub(r, seal(sas[2], zf), 0), zf.Pos(), "starts from a genuine message of this suite")
			}
		}
	}
	for _, f := range []*ssa.Function{ef, df, zf} {
		if sa := specSuite(c, f, otherAlg); sa != nil {
			c.ob("supported", "unknown suite in "+fnShort(f), !sa.feasible(f, errResult(f), "nil"), f.Pos(), "an unknown suite must be an error")
		}
	}
	c.min("encrypt", 7)
	c.min("decrypt", 7)
	c.min("corrupt", 7)
}

func randBuf(n int) M { return Res("core/shared.NewRandomBuffer", 0, K(itoa(n))) }

// innerBlock: the encoded inner structure naming this suite, with a nonce of this suite's length.
func (m suiteM) innerBlock(ct M) M {
	f := map[string]M{"Protected": Marshal(algHeader(m.id)), "Unprotected": fieldsM("UnprotectedHeader", map[string]M{"AESIV": randBuf(m.s.iv)})}
	if ct != nil {
		f["Ciphertext"] = ct
	}
	return Marshal(fieldsM("EMB_ETMInnerBlock", f))
}
