package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C29", "extraction of the constant tables and lists from the package initialiser; pairwise consistency and coverage; conditional constant propagation through the functions that select by type; frozen assigned numbers.", c29)
	reg("C31", "who-may-call rule over every reference to a random source; provenance of every random-reader argument; content of the generators' results; provenance of every stored nonce, secret and identifier.", c31)
}

// ---------- C29 ----------

// listOf: the constant elements of a package-level array or slice written by its initialiser only; nil otherwise.
func (p *Prog) listOf(name string) []string {
	i := strings.LastIndex(name, ".")
	ip := p.Short[name[:i]]
	if ip == nil {
		return nil
	}
	sp := p.SSA.Package(ip.Types)
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name[i+1:]].(*ssa.Global)
	ini := sp.Func("init")
	if g == nil || ini == nil || p.writtenElsewhere(g) {
		return nil
	}
	var base ssa.Value = g
	n := 0
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				n++
				switch v := st.Val.(type) {
				case *ssa.Slice:
					base = v.X
				case *ssa.UnOp:
					base = v.X
				}
			}
		}
	}
	if n > 1 || n == 0 && base != ssa.Value(g) {
		return nil
	}
	an := newAnalyzer(p)
	m := map[string]string{}
	ln := int64(-1)
	if ar, ok := deref(base.Type()).Underlying().(*types.Array); ok {
		ln = ar.Len()
	}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != base {
				continue
			}
			k := constOfTerm(an.at(st.Val, st))
			ix, isC := ia.Index.(*ssa.Const)
			if k == nil || !isC {
				return nil
			}
			m[ix.Value.ExactString()] = k.ExactString()
		}
	}
	if int64(len(m)) != ln {
		return nil
	}
	var out []string
	for i := 0; i < len(m); i++ {
		out = append(out, m[itoa(i)])
	}
	return out
}

func c29(c *Ctx) {
	const P = "core/shared."
	tab := func(n string) map[string]*Term {
		m := c.A.p.tableOf(P + n)
		if len(m) == 0 {
			c.missing("constant table " + P + n)
		}
		return m
	}
	list := func(n string) []string {
		l := c.A.p.listOf(P + n)
		if len(l) == 0 {
			c.missing("constant list " + P + n)
		}
		return l
	}
	pos := func(n string) (p token.Pos) {
		if ip := c.A.p.Short["core/shared"]; ip != nil {
			if o := ip.Types.Scope().Lookup(n); o != nil {
				p = o.Pos()
			}
		}
		return
	}
	k := func(t *Term) string {
		if t == nil {
			return "<absent>"
		}
		if v := constOfTerm(t); v != nil {
			return v.ExactString()
		}
		return t.String()
	}
	in := func(l []string, x string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	// assigned numbers
	for _, cn := range []struct{ n, v string }{
		{"HASH_SHA256", "-16"}, {"HASH_SHA384", "-43"}, {"HASH_HMAC_SHA256", "5"}, {"HASH_HMAC_SHA384", "6"},
		{"RSA2048RESTR", "1"}, {"RSAPKCS", "5"}, {"RSAPSS", "6"}, {"SECP256R1", "10"}, {"SECP384R1", "11"},
		{"Crypto", "0"}, {"X509", "1"}, {"X5CHAIN", "2"}, {"COSEKEY", "3"},
		{"StSECP256R1", "-7"}, {"StSECP384R1", "-35"}, {"StRSA2048", "-257"}, {"StRSA3072", "-258"}, {"StEPID10", "90"}, {"StEPID11", "91"},
		{"KEX_ECDH256", `ECDH256`}, {"KEX_ECDH384", `ECDH384`}, {"KEX_DHKEXid14", `DHKEXid14`}, {"KEX_DHKEXid15", `DHKEXid15`}, {"KEX_ASYMKEX2048", `ASYMKEX2048`}, {"KEX_ASYMKEX3072", `ASYMKEX3072`},
	} {
		v, ok := c.A.p.constVal("core/shared", cn.n)
		if !ok {
			c.missing("constant " + cn.n)
			continue
		}
		c.ob("assigned-number", cn.n, strings.Trim(v, `"`) == cn.v, pos(cn.n), "value %s, the standard assigns %s", v, cn.v)
	}
	n0 := len(c.obls)
	sg := list("SgTypeList")
	dev := list("DeviceSgTypeList")
	hh, pk, sgOf, kx, h2h, o2d := tab("SgToHashHmacMap"), tab("SgTypeToFdoPkType"), tab("PkToSgType"), tab("SgTypeToKexSuitName"), tab("HmacToHashAlg"), tab("SgType_OwnerToDeviceAttestation")
	kxAll, hAll, pkAll := list("KexSuitNames"), list("HashHmacAlgs"), list("FdoPkType_List")
	if len(c.obls) > n0 {
		return
	}
	name := func(v string) string {
		for _, n := range []string{"StSECP256R1", "StSECP384R1", "StRSA2048", "StRSA3072", "StEPID10", "StEPID11"} {
			if constName(c, "core/shared", n) == v {
				return n
			}
		}
		return v
	}
	cv := func(n string) string { return constName(c, "core/shared", n) }
	fld := func(t *Term, f string) string {
		if t == nil {
			return "<absent>"
		}
		return k(c.A.constOf(projField(t, "HashHmacTypes."+f, nil)))
	}
	strong := map[string]string{cv("StSECP256R1"): "256", cv("StSECP384R1"): "384", cv("StRSA2048"): "256", cv("StRSA3072"): "384"}
	hash := map[string]string{"256": cv("HASH_SHA256"), "384": cv("HASH_SHA384")}
	hmac := map[string]string{"256": cv("HASH_HMAC_SHA256"), "384": cv("HASH_HMAC_SHA384")}
	for _, s := range []string{"StSECP256R1", "StSECP384R1", "StRSA2048", "StRSA3072"} {
		c.ob("supported", s, in(sg, cv(s)), pos("SgTypeList"), "the list of signature types %v contains every implemented type", sg)
	}
	wantPk := map[string]string{cv("StSECP256R1"): cv("SECP256R1"), cv("StSECP384R1"): cv("SECP384R1"), cv("StRSA2048"): cv("RSA2048RESTR"), cv("StRSA3072"): cv("RSAPKCS")}
	wantKx := map[string][]string{cv("StSECP256R1"): {"ECDH256"}, cv("StSECP384R1"): {"ECDH384"}, cv("StRSA2048"): {"DHKEXid14", "ASYMKEX2048"}, cv("StRSA3072"): {"DHKEXid15", "ASYMKEX3072"}}
	for _, s := range sg {
		n := name(s)
		c.ob("covered", n+": hash and HMAC", hh[s] != nil, pos("SgToHashHmacMap"), "a supported signature type needs an entry")
		c.ob("covered", n+": key type", pk[s] != nil, pos("SgTypeToFdoPkType"), "a supported signature type needs an entry")
		c.ob("covered", n+": key exchange", kx[s] != nil, pos("SgTypeToKexSuitName"), "a supported signature type needs an entry")
		c.ob("covered", n+": device attestation", o2d[s] != nil, pos("SgType_OwnerToDeviceAttestation"), "a supported signature type needs an entry")
	}
	for _, s := range sortedKeys(hh) {
		h, m := fld(hh[s], "HashType"), fld(hh[s], "HmacType")
		c.ob("pair", name(s)+": HMAC and hash", k(h2h[m]) == h, pos("SgToHashHmacMap"), "hash %s, HMAC %s, and the HMAC's hash is %s", h, m, k(h2h[m]))
		if w := strong[s]; w != "" {
			c.ob("strength", name(s)+": hash", h == hash[w] && m == hmac[w], pos("SgToHashHmacMap"), "hash %s and HMAC %s; the type goes with SHA-%s", h, m, w)
		}
	}
	for _, s := range sortedKeys(pk) {
		c.ob("inverse", name(s)+" and its key type", k(sgOf[k(pk[s])]) == s, pos("PkToSgType"), "the key type %s maps back to %s", k(pk[s]), k(sgOf[k(pk[s])]))
		c.ob("strength", name(s)+": key type", wantPk[s] == "" || k(pk[s]) == wantPk[s], pos("SgTypeToFdoPkType"), "key type %s", k(pk[s]))
		c.ob("listed", name(s)+": key type", in(pkAll, k(pk[s])), pos("FdoPkType_List"), "key type %s", k(pk[s]))
	}
	for _, s := range sortedKeys(sgOf) {
		c.ob("inverse", "key type "+s, k(pk[k(sgOf[s])]) == s, pos("SgTypeToFdoPkType"), "the signature type %s maps back to %s", k(sgOf[s]), k(pk[k(sgOf[s])]))
	}
	for _, s := range sortedKeys(kx) {
		v := strings.Trim(k(kx[s]), `"`)
		c.ob("listed", name(s)+": key exchange", in(kxAll, k(kx[s])), pos("SgTypeToKexSuitName"), "suite %s", v)
		c.ob("strength", name(s)+": key exchange", wantKx[s] == nil || in(wantKx[s], v), pos("SgTypeToKexSuitName"), "suite %s; the type goes with %v", v, wantKx[s])
	}
	sort.Strings(kxAll)
	want := []string{`"ASYMKEX2048"`, `"ASYMKEX3072"`, `"DHKEXid14"`, `"DHKEXid15"`, `"ECDH256"`, `"ECDH384"`}
	c.ob("supported", "key-exchange suites", fmt.Sprint(kxAll) == fmt.Sprint(want), pos("KexSuitNames"), "listed: %v", kxAll)
	for _, h := range []string{"HASH_SHA256", "HASH_SHA384", "HASH_HMAC_SHA256", "HASH_HMAC_SHA384"} {
		c.ob("supported", h, in(hAll, cv(h)), pos("HashHmacAlgs"), "listed: %v", hAll)
	}
	for w := range hash {
		c.ob("pair", "HMAC-SHA-"+w, k(h2h[hmac[w]]) == hash[w], pos("HmacToHashAlg"), "its hash is %s", k(h2h[hmac[w]]))
	}
	for _, d := range dev {
		c.ob("device", name(d)+" is a signature type", in(sg, d), pos("DeviceSgTypeList"), "listed: %v", sg)
	}
	for _, s := range sg {
		v := k(o2d[s])
		c.ob("device", name(s)+": attestation type", in(dev, v), pos("SgType_OwnerToDeviceAttestation"), "a device key of type %s", name(v))
		c.ob("strength", name(s)+": attestation type", strong[v] == strong[s], pos("SgType_OwnerToDeviceAttestation"), "a device key of type %s", name(v))
	}
	// selection by functions
	if f := c.need(P + "NegotiateHashHmacTypes"); f != nil && len(f.Params) == 2 {
		for _, d := range sg {
			for _, o := range sg {
				sa := c.A.spec(f, []*Term{kInt(d, f.Params[0].Type()), kInt(o, f.Params[1].Type())})
				r := sa.okResult(f, 0)
				g := func(n string) string { return k(sa.constOf(projField(r, "HashHmacTypes."+n, nil))) }
				h, m := g("HashType"), g("HmacType")
				ok := k(h2h[m]) == h
				if d == cv("StSECP384R1") || o == cv("StSECP384R1") {
					ok = ok && h == hash["384"]
				}
				if d == o {
					ok = ok && h == hash[strong[d]]
				}
				c.ob("negotiate", name(d)+" device, "+name(o)+" owner", ok, f.Pos(), "hash %s and HMAC %s must be a pair, as strong as the keys", h, m)
			}
		}
	}
	if f := c.need(P + "GetDeviceSgType"); f != nil && len(f.Params) == 2 {
		for _, s := range sg {
			sa := c.A.spec(f, []*Term{kInt(k(pk[s]), f.Params[0].Type()), kInt(fld(hh[s], "HashType"), f.Params[1].Type())})
			r := sa.okResult(f, 0)
			got := "<error>"
			if r != nil {
				got = k(sa.constOf(r))
			}
			c.ob("negotiate", "GetDeviceSgType: "+name(s), got == s, f.Pos(), "the type's key and hash select %s", name(got))
		}
		sa := c.A.spec(f, []*Term{kInt("99", f.Params[0].Type()), nil})
		c.ob("negotiate", "GetDeviceSgType: unknown key type", !sa.feasible(f, 1, "nil"), f.Pos(), "an unknown key type must be an error")
	}
	if f := c.need(P + "(SigInfo).IsValid"); f != nil {
		for _, s := range sg {
			arg := withField(paramOfTerm(f, 0), f.Params[0].Type(), map[string]*Term{"SigInfo.SgType": kInt(s, namedType(c, "core/shared", "SgType"))})
			sa := c.A.spec(f, []*Term{arg})
			r := sa.okResult(f, 0)
			c.ob("negotiate", "SigInfo.IsValid: "+name(s), r != nil && k(sa.constOf(r)) == "true", f.Pos(), "a supported type is accepted")
		}
		arg := withField(paramOfTerm(f, 0), f.Params[0].Type(), map[string]*Term{"SigInfo.SgType": kInt("12345", namedType(c, "core/shared", "SgType"))})
		sa := c.A.spec(f, []*Term{arg})
		r := sa.okResult(f, 0)
		c.ob("negotiate", "SigInfo.IsValid: unknown", r != nil && k(sa.constOf(r)) == "false", f.Pos(), "an unknown type is refused")
	}
	c.min("covered", 16)
	c.min("negotiate", 20)
	c.min("assigned-number", 25)
}

// ---------- C31 ----------

func calleePkg(cc *ssa.CallCommon) string {
	if f := cc.StaticCallee(); f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func (c *Ctx) eachInstr(do func(f *ssa.Function, in ssa.Instruction)) {
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				do(f, in)
			}
		}
	}
}

var cryptoReader M = func(a *Analyzer, t *Term) bool { return t.Op == "global" && t.Name == "crypto/rand.Reader" }

// filledRandom: the value is a buffer that crypto/rand has filled completely on every path to at.
func (c *Ctx) filledRandom(f *ssa.Function, v ssa.Value, at ssa.Instruction) bool {
	root := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.Slice:
				if x.Low != nil && !isConst(x.Low, "0") {
					return v
				}
				if _, isArr := deref(x.X.Type()).Underlying().(*types.Array); isArr {
					v = x.X
					continue
				}
				return v
			case *ssa.UnOp:
				if x.Op == token.MUL {
					v = x.X
					continue
				}
				return v
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Convert:
				v = x.X
				continue
			}
			return v
		}
	}
	r := root(v)
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n, _ := calleeName(call.Common())
			dst := -1
			switch n {
			case "crypto/rand.Read":
				dst = 0
			case "io.ReadFull":
				if cryptoReader(c.A, c.A.at(call.Call.Args[0], call)) {
					dst = 1
				}
			}
			if dst < 0 || root(call.Call.Args[dst]) != r {
				continue
			}
			if b.Dominates(at.Block()) && (b != at.Block() || before(b, i, at)) {
				return true
			}
		}
	}
	// copied from a random buffer
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "copy" || root(call.Call.Args[0]) != r {
				continue
			}
			if !b.Dominates(at.Block()) || b == at.Block() && !before(b, i, at) {
				continue
			}
			dl, ok1 := bufLen(c.A, call.Call.Args[0])
			sl, ok2 := bufLen(c.A, call.Call.Args[1])
			src := c.A.at(call.Call.Args[1], call)
			if ok1 && ok2 && sl >= dl && (c.A.is(src, randomCall) || c.filledRandom(f, call.Call.Args[1], call)) {
				return true
			}
		}
	}
	return false
}

func before(b *ssa.BasicBlock, i int, at ssa.Instruction) bool {
	for j, x := range b.Instrs {
		if x == at {
			return i < j
		}
	}
	return false
}

func bufLen(a *Analyzer, v ssa.Value) (int64, bool) {
	if s, ok := v.(*ssa.Slice); ok && (s.Low == nil || isConst(s.Low, "0")) && s.High == nil {
		if ar, ok := deref(s.X.Type()).Underlying().(*types.Array); ok {
			return ar.Len(), true
		}
	}
	t := a.val(v)
	if n, ok := a.lenOf(t); ok {
		return n, true
	}
	if t.Op == "slice" && len(t.Args) == 3 {
		hi := constOfTerm(t.Args[2])
		if hi != nil && isConstTerm(t.Args[1], "0") {
			n := int64(0)
			fmt.Sscan(hi.ExactString(), &n)
			return n, true
		}
	}
	return 0, false
}

func isConstTerm(t *Term, v string) bool { return t.Op == "const" && t.Name == v }

var randomCall M = Or(Res("core/shared.NewRandomBuffer", 0), Res("core/shared.NewFdoNonce", 0))

var uuidRandom = []string{"github.com/google/uuid.NewRandom", "github.com/google/uuid.New", "github.com/google/uuid.NewString"}

func fromUUID(a *Analyzer, t *Term) bool {
	return Has(func(a *Analyzer, t *Term) bool {
		for _, n := range uuidRandom {
			if t.Op == "call" && t.Name == n {
				return true
			}
		}
		return false
	})(a, t)
}

// c31forward: v flows only into the correlation identifier of an error message.
func onlyCorrelationID(v ssa.Value, d int) bool {
	if d > 8 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Convert:
			if !onlyCorrelationID(x, d+1) {
				return false
			}
		case *ssa.ChangeType:
			if !onlyCorrelationID(x, d+1) {
				return false
			}
		case *ssa.Phi:
			if !onlyCorrelationID(x, d+1) {
				return false
			}
		case *ssa.BinOp:
			if !onlyCorrelationID(x, d+1) {
				return false
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != "FdoError.EMErrorCID" {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func c31(c *Ctx) {
	const S = "core/shared."
	// who may use what
	nr := 0
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if op == nil || *op == nil {
				continue
			}
			fn, ok := (*op).(*ssa.Function)
			if !ok || fn.Pkg == nil && fn.Object() == nil {
				continue
			}
			pp := ""
			if fn.Pkg != nil {
				pp = fn.Pkg.Pkg.Path()
			} else if fn.Object().Pkg() != nil {
				pp = fn.Object().Pkg().Path()
			}
			switch {
			case pp == "math/rand" || pp == "math/rand/v2":
				call, isCall := in.(*ssa.Call)
				nr++
				c.ob("generator", fnShort(f)+" uses "+fn.String(), isCall && onlyCorrelationID(call, 0), in.Pos(), "a non-cryptographic generator may only supply the correlation identifier of an error message")
			case pp == "github.com/google/uuid" && (strings.HasPrefix(fn.Name(), "NewUUID") || strings.HasPrefix(fn.Name(), "NewDCE") || fn.Name() == "NewMD5" || fn.Name() == "NewSHA1" || fn.Name() == "NewHash" || fn.Name() == "SetRand" || fn.Name() == "NewRandomFromReader" || strings.HasPrefix(fn.Name(), "NewV6")):
				nr++
				ok := false
				if call, isCall := in.(*ssa.Call); isCall && fn.Name() == "NewRandomFromReader" {
					ok = c.A.is(c.A.at(call.Call.Args[0], call), cryptoReader)
				}
				c.ob("generator", fnShort(f)+" uses "+fn.String(), ok, in.Pos(), "identifiers must be random")
			}
		}
		if st, ok := in.(*ssa.Store); ok {
			if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
				c.ob("generator", fnShort(f)+" replaces "+g.Name(), false, st.Pos(), "the operating system's random source must not be replaced")
			}
		}
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		cc := call.Common()
		pp := calleePkg(cc)
		if !strings.HasPrefix(pp, "crypto/") && !strings.HasPrefix(pp, "golang.org/x/crypto") && pp != "github.com/fido-alliance/dhkx" {
			return
		}
		sig := cc.Signature()
		off := 0
		if sig.Recv() != nil {
			off = 1
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if types.TypeString(sig.Params().At(i).Type(), nil) != "io.Reader" || i+off >= len(cc.Args) {
				continue
			}
			t := c.A.at(cc.Args[i+off], in)
			n, _ := calleeName(cc)
			ok := c.A.is(t, cryptoReader)
			if t.Op == "const" && t.Name == "nil" {
				switch n {
				case "github.com/fido-alliance/dhkx.(DHGroup).GeneratePrivateKey", "crypto/rsa.SignPKCS1v15", "crypto/rsa.DecryptPKCS1v15", "crypto/rsa.DecryptOAEP":
					ok = true // the library's default is the operating system's source, or no randomness is used
				}
			}
			c.ob("random-reader", fnShort(f)+" → "+shortKey(n), ok, in.Pos(), "random source: %s", trunc(t.String()))
		}
	})
	c.min("random-reader", 12)
	// generators
	ret := func(fn string, do func(f *ssa.Function, r *ssa.Return)) {
		f := c.need(S + fn)
		if f == nil {
			return
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				do(f, r)
			}
		}
	}
	ret("NewRandomBuffer", func(f *ssa.Function, r *ssa.Return) {
		ok := c.filledRandom(f, r.Results[0], r)
		t := c.A.at(r.Results[0], r)
		n := t.Op == "make" && c.A.is(t.Args[0], Same(paramOfTerm(f, 0)))
		c.ob("buffer", "NewRandomBuffer", ok && n, r.Pos(), "the result has the requested length and is filled from the random source on every path: %s", trunc(t.String()))
	})
	ret("NewFdoNonce", func(f *ssa.Function, r *ssa.Return) {
		ok := c.filledRandom(f, r.Results[0], r)
		c.ob("buffer", "NewFdoNonce", ok, r.Pos(), "all sixteen bytes come from the random source on every path")
	})
	for _, g := range []string{"NewFdoGuid", "NewFdoGuid_FIDO"} {
		ret(g, func(f *ssa.Function, r *ssa.Return) {
			t := c.A.at(r.Results[0], r)
			c.ob("buffer", g, c.A.hasSub(t, fromUUID, 0), r.Pos(), "a random UUID: %s", trunc(t.String()))
		})
	}
	if f := c.need(S + "NewRandomInt"); f != nil {
		es := c.callsTo(f, "crypto/rand.Int")
		c.ob("buffer", "NewRandomInt", len(es) > 0 && c.A.hasSub(c.A.results(f, 0), Res("crypto/rand.Int", 0, cryptoReader), 0), f.Pos(), "a random number in the range")
	}
	if f := c.need(S + "NewHmacKey"); f != nil {
		for _, h := range []struct {
			n    string
			w    int
			size string
		}{{"HASH_HMAC_SHA256", 32, "crypto/sha256.New"}, {"HASH_HMAC_SHA384", 48, "crypto/sha512.New384"}} {
			sa := c.A.spec(f, []*Term{kInt(constName(c, "core/shared", h.n), f.Params[0].Type())})
			c.prov2(sa, "secret", "HMAC secret of "+h.n, f, sa.okResult(f, 0), Res(S+"NewRandomBuffer", 0, Or(K(itoa(h.w)), invokeRes("Size", 0, Or(Res(h.size, 0), func(a *Analyzer, t *Term) bool { return t.Op == "hnew" && t.Name == h.size })))), "a random buffer of the hash's size")
		}
	}
	// secrets, identifiers and nonces where they are stored
	stored := map[string]int{}
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		name := fieldName(fa.X.Type(), fa.Field)
		t := c.A.at(st.Val, st)
		where := fnShort(f) + ": " + name
		switch name {
		case "WawDeviceCredential.DCHmacSecret":
			stored[name]++
			c.prov("secret", where, st.Pos(), t, Or(Res(S+"NewHmacKey", 0), Res(S+"NewRandomBuffer", 0)), "a random secret")
		case "WawDeviceCredential.DCGuid":
			stored[name]++
			c.prov("secret", where, st.Pos(), t, Or(Res(S+"NewFdoGuid_FIDO", 0), Res(S+"NewFdoGuid", 0), Fld("TO2SetupDevicePayload.ReplacementGuid", nil)), "a random identifier, or the replacement the owner assigned")
		case "WawDeviceCredential.DCPrivateKeyDer":
			stored[name]++
			c.prov("secret", where, st.Pos(), t, Res(S+"MarshalPrivateKey", 0, Or(Res(S+"GenerateVoucherKeypair", 0), Res(S+"GeneratePKIXECKeypair", 0), Res(S+"GeneratePKIXRSAKeypair", 0))), "a freshly generated key")
		case "To2Requestor.NonceTO2ProveOV60", "To2Requestor.NonceTO2SetupDv64":
			stored[name]++
			c.prov("nonce", where, st.Pos(), t, Res(S+"NewFdoNonce", 0), "a fresh nonce")
		}
		if typeBase(deref(fa.Type())) == "FdoNonce" {
			stored["nonce"]++
			ok := c.A.is(t, func(a *Analyzer, t *Term) bool {
				return t.Op == "call" && t.Name == S+"NewFdoNonce" || (t.Op == "field" || t.Op == "param" || t.Op == "out") && typeBaseOf(t.T) == "FdoNonce"
			})
			c.ob("nonce", where, ok, st.Pos(), "a nonce is fresh, received or recalled: %s", trunc(t.String()))
		}
	})
	for _, n := range []string{"WawDeviceCredential.DCHmacSecret", "WawDeviceCredential.DCGuid", "WawDeviceCredential.DCPrivateKeyDer", "To2Requestor.NonceTO2ProveOV60", "To2Requestor.NonceTO2SetupDv64"} {
		if stored[n] == 0 {
			c.missing("store of " + n)
		}
	}
	fresh := func(msg int, fn, field string) {
		h := c.handler(msg)
		if h == nil {
			return
		}
		es := c.callsTo(h, fn)
		if len(es) == 0 {
			c.missing("session creation in the handler of " + itoa(msg))
		}
		for _, e := range es {
			c.prov("nonce", "session of message "+itoa(msg), e.Instr.Pos(), fieldOf(e.Args[1], "SessionEntry."+field), Res(S+"NewFdoNonce", 0), "a fresh nonce per session")
		}
	}
	fresh(20, "core/rv.(SessionDB).NewSessionEntry", "NonceTO0Sign")
	fresh(30, "core/rv.(SessionDB).NewSessionEntry", "NonceTO1Proof")
	fresh(60, "core/do/dbs.(SessionDB).NewSessionEntry", "NonceTO2ProveDv61")
	for _, fn := range []string{"core/rv.(SessionDB).NewSessionEntry", "core/do/dbs.(SessionDB).NewSessionEntry", "dbs.(SessionDB).NewSessionEntry"} {
		f := c.need(fn)
		if f == nil {
			continue
		}
		r := c.nonNilResult(f, 0)
		for _, x := range alts(r) {
			if isEmptyTerm(x) {
				continue
			}
			c.ob("identifier", fnShort(f)+": session identifier", c.A.hasSub(x, fromUUID, 0) || c.A.hasSub(x, Res(S+"NewRandomBuffer", 0), 0), f.Pos(), "unguessable: %s", trunc(x.String()))
		}
	}
	c.min("identifier", 3)
	n := 0
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok || !calleeIs(call, "golang.org/x/crypto/scrypt.Key") {
			return
		}
		n++
		t := c.A.at(call.Call.Args[1], call)
		ok = c.A.is(t, func(a *Analyzer, t *Term) bool {
			if t.Op == "call" && t.Name == S+"NewRandomBuffer" {
				k := constOfTerm(a.constOf(t.Args[0]))
				v := 0
				if k != nil {
					fmt.Sscan(k.ExactString(), &v)
				}
				return v >= 8
			}
			return t.Op == "slice" && t.Args[0].Op == "param"
		})
		c.ob("salt", fnShort(f), ok, in.Pos(), "a random salt, or the one stored with the hash: %s", trunc(t.String()))
	})
}
