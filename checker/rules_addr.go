package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C44", "conditional constant propagation through the URL-to-address functions for every scheme, port and host class; element-by-element provenance of the rendezvous directive; evaluation of the transport mapping.", c44)
	reg("C45", "provenance, outside negative tests, of everything the device and owner clients send (peer, message number, session token, body), of the token they keep, and of what the posting function puts on the wire.", c45)
}

func callTo(name string) M {
	return func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == name }
}

func callToIdx(name string, k int) M {
	return func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == name && t.Idx == k }
}

var (
	kNil  = mk("const", "nil", types.Universe.Lookup("error").Type())
	kSome = mk("lit", "some", nil)
)

func kStr(s string) *Term { return mk("const", s, types.Typ[types.String]) }

// notSet: a nil pointer.
func notSet(a *Analyzer, t *Term) bool {
	return t.Op == "const" && t.Name == "nil" || t.Op == "zero" && t.T != nil && func() bool { _, ok := t.T.Underlying().(*types.Pointer); return ok }()
}

func c44(c *Ctx) {
	f := c.need("core/shared.UrlToTOAddrEntry")
	if f == nil {
		return
	}
	in := Same(paramOfTerm(f, 0))
	u := Res("net/url.Parse", 0, in)
	scheme := Fld("URL.Scheme", nil)
	hostCall := "net/url.(URL).Hostname"
	host := Res(hostCall, 0, u)
	portM := Res("net/url.(URL).Port", 0, u)
	perr := callToIdx("net/url.Parse", 1)
	sch := func(s string) asm { return asm{scheme, kStr(s)} }
	okURL := asm{perr, kNil}
	port := func(s string) asm { return asm{callTo("net/url.(URL).Port"), kStr(s)} }
	hostV := func(s string) asm { return asm{callTo(hostCall), kStr(s)} }
	ip := func(t *Term) asm { return asm{callTo("net.ParseIP"), t} }
	numOK := asm{callToIdx("strconv.ParseUint", 1), kNil}
	get := func(sa *Analyzer, n string) *Term {
		r := sa.okResult(f, 0)
		if r == nil {
			return nil
		}
		return projField(r, "RVTO2AddrEntry."+n, nil)
	}
	for _, s := range []struct{ name, prot, port string }{{"http", constName(c, "core/shared", "ProtHTTP"), "80"}, {"https", constName(c, "core/shared", "ProtHTTPS"), "443"}} {
		sa := c.A.spec(f, nil, okURL, sch(s.name), port(""))
		c.prov2(sa, "transport", s.name, f, get(sa, "RVProtocol"), K(s.prot), "the transport of the scheme")
		c.prov2(sa, "port", s.name+" without a port", f, get(sa, "RVPort"), K(s.port), "the default port of the scheme")
		sa = c.A.spec(f, nil, okURL, sch(s.name), port("8080"), numOK)
		c.prov2(sa, "port", s.name+" with a port", f, get(sa, "RVPort"), Or(Res("strconv.ParseUint", 0, K("8080"), K("10"), K("16")), Res("strconv.ParseUint", 0, portM, K("10"), K("16"))), "the port in the URL, at most 16 bits wide")
		c.prov2(sa, "transport", s.name+" with a port", f, get(sa, "RVProtocol"), K(s.prot), "the transport of the scheme")
		sa = c.A.spec(f, nil, okURL, sch(s.name), ip(kNil))
		c.prov2(sa, "host", s.name+" with a host name: DNS", f, get(sa, "RVDNS"), host, "the URL's host name")
		c.prov2(sa, "host", s.name+" with a host name: IP", f, get(sa, "RVIP"), notSet, "no IP address")
		sa = c.A.spec(f, nil, okURL, sch(s.name), ip(kSome))
		c.prov2(sa, "host", s.name+" with an IP address: IP", f, get(sa, "RVIP"), Or(Res("core/shared.FdoIPAddressFromString", 0, host), Res("core/shared.FdoIPAddressFromBytes", 0, Has(host))), "the URL's IP address")
		c.prov2(sa, "host", s.name+" with an IP address: DNS", f, get(sa, "RVDNS"), notSet, "no host name")
	}
	refuse := func(what string, as ...asm) {
		c.ob("refusal", what, !c.A.spec(f, nil, as...).feasible(f, 1, "nil"), f.Pos(), "an address is produced for %s", what)
	}
	refuse("text that is no URL", asm{perr, kSome})
	refuse("another scheme", okURL, sch("ftp"))
	refuse("no scheme", okURL, sch(""))
	refuse("a URL without a host", okURL, hostV(""))
	refuse("a malformed or too large port", okURL, port("70000"), asm{callToIdx("strconv.ParseUint", 1), kSome})
	c.ob("supported", "http and https URLs", c.A.spec(f, nil, okURL, sch("https")).feasible(f, 1, "nil") && c.A.spec(f, nil, okURL, sch("http")).feasible(f, 1, "nil"), f.Pos(), "no address is produced")

	// IP addresses
	if g := c.need("core/shared.FdoIPAddressFromString"); g != nil {
		p := Res("net.ParseIP", 0, Same(paramOfTerm(g, 0)))
		to4, to16 := "net.(IP).To4", "net.(IP).To16"
		of := func(n string) M { return Or(Res("core/shared.FdoIPAddressFromBytes", 0, Res(n, 0, p)), Res(n, 0, p)) }
		sa := c.A.spec(g, nil, asm{callTo("net.ParseIP"), kNil})
		c.ob("refusal", "text that is no IP address", !sa.feasible(g, 1, "nil"), g.Pos(), "an address is produced")
		sa = c.A.spec(g, nil, asm{callTo(to4), kNil})
		c.prov2(sa, "address bytes", "IPv6", g, sa.okResult(g, 0), Or(of(to16), K("nil")), "the 16 bytes of the address")
		pos := c.A.spec(g, nil)
		r := pos.okResult(g, 0)
		all := r != nil
		has4 := false
		for _, x := range alts(r) {
			is4 := c.A.is(x, of(to4))
			has4 = has4 || is4
			all = all && (is4 || c.A.is(x, of(to16)))
		}
		c.ob("address bytes", "IPv4", all && has4, g.Pos(), "an IPv4 address is given as its 4 bytes: %s", trunc(r.String()))
		// the 16-byte form only when there is no 4-byte form
		for _, e := range c.A.effects(g, func(in ssa.Instruction) bool { return calleeIs(in, "core/shared.FdoIPAddressFromBytes") }, nil) {
			if c.A.is(e.Args[0], Res(to16, 0, p)) {
				c.guard("address bytes", "16-byte form", e, []Req{{Name: "the address has no 4-byte form", Kind: "nil", A: Res(to4, 0, p)}})
			}
		}
	}
	if g := c.need("core/shared.FdoIPAddressFromBytes"); g != nil {
		ln := func(n string) asm {
			return asm{func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "len" }, kInt(n, types.Typ[types.Int])}
		}
		for _, n := range []string{"4", "16"} {
			sa := c.A.spec(g, nil, ln(n))
			c.prov2(sa, "address bytes", n+" bytes", g, sa.okResult(g, 0), Same(paramOfTerm(g, 0)), "the bytes given")
		}
		for _, n := range []string{"0", "3", "5", "15", "17"} {
			c.ob("refusal", n+" address bytes", !c.A.spec(g, nil, ln(n)).feasible(g, 1, "nil"), g.Pos(), "a malformed address is accepted")
		}
	}

	// rendezvous directives
	g := c.need("core/shared.UrlToRvDirective")
	ni := c.need("core/shared.NewRendezvousInstr")
	if g == nil || ni == nil {
		return
	}
	entry := Res("core/shared.UrlToTOAddrEntry", 0, Same(paramOfTerm(g, 0)))
	ef := func(n string) M { return Fld("RVTO2AddrEntry."+n, entry) }
	c.prov("instruction", "key", ni.Pos(), projField(c.A.results(ni, 0), "RendezvousInstr.Key", nil), Same(paramOfTerm(ni, 0)), "the key given")
	c.prov("instruction", "value", ni.Pos(), projField(c.A.results(ni, 0), "RendezvousInstr.Value", nil), Marshal(Same(paramOfTerm(ni, 1))), "the encoded value")
	for _, s := range []struct{ name, tp, rp string }{{"http", "ProtHTTP", "RVProtHttp"}, {"https", "ProtHTTPS", "RVProtHttps"}} {
		for _, dns := range []bool{true, false} {
			nm, addr, where := kNil, kSome, s.name+" and an IP address"
			if dns {
				nm, addr, where = kSome, kNil, s.name+" and a host name"
			}
			tp := constName(c, "core/shared", s.tp)
			sa := c.A.spec(g, nil, asm{callToIdx("core/shared.UrlToTOAddrEntry", 1), kNil}, asm{ef("RVProtocol"), kInt(tp, types.Typ[types.Uint16])}, asm{ef("RVDNS"), nm}, asm{ef("RVIP"), addr})
			some := func(a *Analyzer, t *Term) bool { return t.Key() == kSome.Key() }
			got, ok := rvInstrs(sa, sa.okResult(g, 0))
			c.ob("directive", where+": elements", ok, g.Pos(), "the instruction list is not understood: %s", trunc(sa.okResult(g, 0).String()))
			if !ok {
				continue
			}
			key := func(n string) string { return constName(c, "core/shared", n) }
			want := map[string]M{key("RVProtocol"): K(constName(c, "core/shared", s.rp)), key("RVDevPort"): ef("RVPort"), key("RVOwnerPort"): ef("RVPort")}
			if dns {
				want[key("RVDns")] = some
			} else {
				want[key("RVIPAddress")] = some
			}
			for k, m := range want {
				var vs []*Term
				for _, x := range got {
					if x[0].Name == k {
						vs = append(vs, x[1])
					}
				}
				good := len(vs) > 0
				for _, x := range vs {
					good = good && sa.is(x, m)
				}
				c.ob("directive", where+": instruction "+k, good, g.Pos(), "the directive must carry this part of the address")
			}
			other := map[bool]string{true: key("RVIPAddress"), false: key("RVDns")}[dns]
			for _, x := range got {
				if x[0].Name == other {
					c.ob("directive", where+": instruction "+other, false, g.Pos(), "the directive names an address that the URL does not have")
				}
			}
		}
	}
	c.ob("refusal", "a URL without an address", !c.A.spec(g, nil, asm{callToIdx("core/shared.UrlToTOAddrEntry", 1), kSome}).feasible(g, 1, "nil"), g.Pos(), "a directive is produced although the URL was refused")
	if l := c.need("core/shared.UrlsToRendezvousInfo"); l != nil {
		one := Res("core/shared.UrlToRvDirective", 0, elemOf(Same(paramOfTerm(l, 0))))
		el := func(a *Analyzer, t *Term) bool {
			return t.Op == "lit" && t.Name == "array" && len(t.Args) == 1 && len(t.Args[0].Args) == 1 && a.is(t.Args[0].Args[0], one)
		}
		r := c.nonNilResult(l, 0)
		if !c.filledByIndex(l, one) {
			c.prov("list", "rendezvous info", l.Pos(), r, concatAll(Or(el, one)), "one directive per URL")
			c.ob("list", "no URL skipped", c.noSkip(l), l.Pos(), "a path round the loop adds no directive")
		}
	}
	c.min("directive", 10)
	c.min("host", 8)
}

// filledByIndex: f returns a slice as long as its first parameter, whose element i is set, in every iteration of a loop
// over that parameter, to what m accepts for element i.
func (c *Ctx) filledByIndex(f *ssa.Function, m M) bool {
	var ms *ssa.MakeSlice
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || errorExit(b) || len(r.Results) == 0 {
			continue
		}
		x, ok := bare(r.Results[0]).(*ssa.MakeSlice)
		if !ok || ms != nil && x != ms {
			return false
		}
		ms = x
	}
	if ms == nil || !c.A.is(c.A.val(ms.Len), Res("len", 0, Same(paramOfTerm(f, 0)))) {
		return false
	}
	good := true
	eachInstr(f, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok || bare(ia.X) != ssa.Value(ms) {
			return
		}
		n++
		v := c.A.at(st.Val, st)
		good = good && c.A.is(v, m) && c.A.hasSub(v, elemAt(f, c.A.val(ia.Index)), 0)
		for _, l := range loopsOf(f) {
			good = good && l.body[st.Block()] && c.A.loopRange(l.header) != nil
			for _, p := range l.header.Preds {
				good = good && (!l.header.Dominates(p) || st.Block().Dominates(p))
			}
		}
	})
	return good && n == 1 && len(loopsOf(f)) == 1
}

func elemAt(f *ssa.Function, i *Term) M {
	return func(a *Analyzer, t *Term) bool {
		return t.Op == "index" && len(t.Args) == 2 && a.is(t.Args[0], Same(paramOfTerm(f, 0))) && t.Args[1].Key() == i.Key()
	}
}

// rvInstrs: the (key, value) pairs of a list of instructions built in place.
func rvInstrs(a *Analyzer, t *Term) (out [][2]*Term, ok bool) {
	if t == nil {
		return nil, false
	}
	ok = true
	var w func(t *Term, d int)
	w = func(t *Term, d int) {
		switch {
		case d > 10:
			ok = false
		case t.Op == "phi":
			for _, x := range t.Args {
				w(x, d+1)
			}
		case t.Op == "zero" || t.Op == "const" && t.Name == "nil" || t.Op == "make":
		case t.Op == "call" && t.Name == "append" && len(t.Args) == 2:
			w(t.Args[0], d+1)
			w(t.Args[1], d+1)
		case t.Op == "slice":
			w(t.Args[0], d+1)
		case t.Op == "lit" && t.Name == "array":
			for _, kv := range t.Args {
				w(kv.Args[0], d+1)
			}
		case t.Op == "call" && t.Name == "core/shared.NewRendezvousInstr" && len(t.Args) == 2:
			k := a.constOf(t.Args[0])
			ok = ok && k.Op == "const"
			v := t.Args[1]
			if x := a.constOf(v); x.Op == "const" {
				v = x
			}
			out = append(out, [2]*Term{k, v})
		default:
			if x := a.expand(t); x != nil && x.Key() != t.Key() {
				w(x, d+1)
			} else {
				ok = false
			}
		}
	}
	w(t, 0)
	return out, ok
}

// ---------- C45 ----------

func c45(c *Ctx) {
	a := c.A
	const (
		tokPeer = "SRVEntry.AccessToken"
		enc     = "core/shared.AddEncryptionWrapping"
		gcs     = "core/shared.GenerateCoseSignature"
	)
	type client struct {
		typ, peer, token string
		steps            []int
	}
	clients := []client{
		{"To0Requestor", "srvEntry", "authzHeader", []int{20, 22}},
		{"To1Requestor", "rvEntry", "authzHeader", []int{30, 32}},
		{"To2Requestor", "SrvEntry", "AuthzHeader", []int{60, 62, 64, 66, 68, 70}},
	}
	for _, cl := range clients {
		for i, m := range cl.steps {
			f := c.step(m)
			if f == nil {
				continue
			}
			name := "message " + itoa(m)
			h := paramOf(fnKey(f), 0)
			fld := func(n string) M { return Fld(cl.typ+"."+n, h) }
			peer := fld(cl.peer)
			body := c.clientBody(m, f, fld)
			n := 0
			for _, e := range c.callsTo(f, sendPost) {
				n++
				p := e.Instr.Pos()
				c.prov("peer", name, p, e.Args[0], peer, "the peer the client was made for")
				if i == 0 {
					c.prov("session token sent", name, p, e.Args[3], Or(Fld(tokPeer, peer), fld(cl.token), K("nil")), "the peer's access token")
				} else {
					c.prov("session token sent", name, p, e.Args[3], fld(cl.token), "the token of the session")
				}
				if body != nil {
					c.prov("body", name, p, e.Args[2], body, "the data of this step")
				}
			}
			c.ob("one request", name, n == 1, f.Pos(), "%d requests are sent by this step", n)
			// the token kept
			tok := Res(sendPost, 1, nil, K(itoa(m)))
			stores := c.fieldStores(f, cl.typ, cl.token)
			kept := i == len(cl.steps)-1
			for _, e := range stores {
				c.prov("session token kept", name, e.Instr.Pos(), storeVal(c, e), tok, "the token of the answer")
				kept = kept || c.onEveryAccept(f, e, tok)
			}
			c.ob("session token kept", name+": on every accepting path", kept, f.Pos(), "an accepted answer's token is not remembered")
		}
		// construction
		for _, f := range c.P.Funcs {
			if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || typeBase(deref(f.Signature.Results().At(0).Type())) != cl.typ {
				continue
			}
			pi := paramOfType(f, "SRVEntry")
			if pi < 0 {
				continue
			}
			r := a.results(f, 0)
			c.prov("construction", cl.typ+" peer", f.Pos(), projField(r, cl.typ+"."+cl.peer, nil), Same(paramOfTerm(f, pi)), "the peer given")
			for _, x := range []struct{ field, ty string }{{"voucherDBEntry", "VoucherDBEntry"}, {"credential", "WawDeviceCredential"}, {"Credential", "WawDeviceCredential"}, {"KexSuiteName", "KexSuiteName"}, {"CipherSuiteName", "CipherSuiteName"}} {
				k := paramOfType(f, x.ty)
				if k < 0 || !hasField(deref(f.Signature.Results().At(0).Type()), "", x.field) {
					continue
				}
				c.prov("construction", cl.typ+" "+x.field, f.Pos(), projField(r, cl.typ+"."+x.field, nil), Same(paramOfTerm(f, k)), "the value given")
			}
		}
	}
	// arguments given to steps
	arg := func(msg, k int, m M, what string) {
		f := c.step(msg)
		if f == nil {
			return
		}
		for _, ci := range c.allCallSites(fnKey(f)) {
			as := ci.Common().Args
			if k < len(as) {
				c.prov("step argument", "message "+itoa(msg)+" from "+fnShort(ci.Parent()), ci.Pos(), a.at(as[k], ci), m, what)
			}
		}
	}
	if s := c.step(20); s != nil {
		arg(22, 1, Fld("HelloAck21.NonceTO0Sign", Res(fnKey(s), 0)), "the nonce of message 21")
	}
	if s := c.step(30); s != nil {
		arg(32, 1, Res(fnKey(s), 0), "the accepted message 31")
	}
	c.credentialReuse()
	c.sendOnWire()
	c.min("body", 9)
	c.min("session token kept", 18)
}

// onEveryAccept: the store, or the test of the token that leads to it, is passed on the way to every return of an
// accepted message.
func (c *Ctx) onEveryAccept(f *ssa.Function, e *Effect, tok M) bool {
	if c.A.req(e.Facts, Req{Kind: "eq", A: tok, B: K("")}) != nil {
		return false
	}
	top := e.Top
	if top == nil {
		top = e.Instr
	}
	if top.Parent() != f {
		return false
	}
	bs := []*ssa.BasicBlock{top.Block()}
	if c.A.req(e.Facts, Req{Or: []Req{{Kind: "ne", A: tok, B: K("")}, {Kind: "lt", A: K("0"), B: func(a *Analyzer, t *Term) bool {
		return t.Op == "call" && t.Name == "len" && a.is(t.Args[0], tok)
	}}}}) != nil {
		if d := top.Block().Idom(); d != nil {
			bs = append(bs, d)
		}
	}
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 || isNilConst(r.Results[0]) || !c.A.returnsOK(b) {
			continue
		}
		if c.A.is(c.A.at(r.Results[0], r), isZeroM) {
			continue
		}
		n++
		dom := false
		for _, x := range bs {
			dom = dom || x.Dominates(b)
		}
		if !dom {
			return false
		}
	}
	return n > 0
}

// clientBody: what the body of the client's message is made of.
func (c *Ctx) clientBody(m int, f *ssa.Function, fld func(string) M) M {
	const enc, gcs = "core/shared.AddEncryptionWrapping", "core/shared.GenerateCoseSignature"
	cred := fld("Credential")
	if m < 60 {
		cred = fld("credential")
	}
	cf := func(n string) M { return Fld("WawDeviceCredential."+n, cred) }
	key := Res("core/shared.ExtractPrivateKey", 0, cf("DCPrivateKeyDer"))
	wrap := func(m M) M { return Res(enc, 0, Marshal(m), fld("SessionKey"), fld("CipherSuiteName")) }
	switch m {
	case 20:
		return Marshal(func(a *Analyzer, t *Term) bool { return typeBaseOf(t.T) == "Hello20" || t.Name == "Hello20" })
	case 22:
		db := fld("voucherDBEntry")
		v := Fld("VoucherDBEntry.Voucher", db)
		to0d := Marshal(fieldsM("To0d", map[string]M{
			"OwnershipVoucher": v,
			"WaitSeconds":      func(a *Analyzer, t *Term) bool { return positiveConst(t) },
			"NonceTO0Sign":     Same(paramOfTerm(f, 1)),
		}))
		hash := func(a *Analyzer, t *Term) bool {
			return a.is(t, Res("core/shared.GenerateFdoHash", 0, to0d)) && len(t.Args) > 1 && a.is(t.Args[1], func(a *Analyzer, t *Term) bool {
				return t.Op == "lookup" && a.is(t.Args[1], Fld("HashOrHmac.Type", Fld("OwnershipVoucher.OVHeaderHMac", v)))
			})
		}
		addr := Res("core/shared.UrlToTOAddrEntry", 0, ctxVal("FDO_SERVICE_URL"))
		entry := func(a *Analyzer, t *Term) bool {
			for _, n := range []string{"RVIP", "RVDNS", "RVPort", "RVProtocol"} {
				if !a.is(projField(t, "RVTO2AddrEntry."+n, nil), Or(Fld("RVTO2AddrEntry."+n, addr), Fld("RVTO2AddrEntry."+n, Res("core/do/to0.(To0Requestor).getRVTO2AddrEntry", 0)))) {
					return false
				}
			}
			return true
		}
		if g := c.P.fn("core/do/to0.(To0Requestor).getRVTO2AddrEntry"); g != nil {
			c.prov("owner address", "owner address", g.Pos(), c.nonNilResult(g, 0), addr, "the address of the configured service URL")
		}
		blob := Marshal(fieldsM("To1dBlobPayload", map[string]M{
			"To1dRV": func(a *Analyzer, t *Term) bool {
				t = strip(t)
				return t.Op == "lit" && t.Name == "array" && len(t.Args) == 1 && a.is(t.Args[0].Args[0], entry)
			},
			"To1dTo0dHash": hash,
		}))
		for _, e := range c.callsTo(f, gcs) {
			p := e.Instr.Pos()
			c.prov("owner's signature", "signed", p, e.Args[0], blob, "the owner address and the hash of the to0d bytes sent")
			c.prov("owner's signature", "key", p, e.Args[3], Res("core/shared.ExtractPrivateKey", 0, Fld("VoucherDBEntry.PrivateKeyX509", db)), "the private key stored with the voucher")
			c.prov("owner's signature", "algorithm", p, e.Args[4], Res("core/shared.GetDeviceSgType", 0, Fld("FdoPublicKey.PkType", Res("core/shared.(OwnershipVoucher).GetFinalOwnerPublicKey", 0, v))), "the algorithm of the voucher's last owner key")
		}
		c.min("owner's signature", 3)
		return Marshal(fieldsM("OwnerSign22", map[string]M{"To0d": to0d, "To1d": tokenM(gcs)}))
	case 30:
		return Marshal(fieldsM("HelloRV30", map[string]M{"Guid": cf("DCGuid"), "EASigInfo": cf("DCSigInfo")}))
	case 32:
		ack := Same(paramOfTerm(f, 1))
		for _, e := range c.callsTo(f, gcs) {
			p := e.Instr.Pos()
			c.prov("device's token", "message 32 payload", p, e.Args[0], Marshal(fieldsM("EATPayloadBase", map[string]M{
				"EatNonce": Fld("HelloRVAck31.NonceTO1Proof", ack),
				"EatUEID":  Res("core/shared.GenerateEatGuid", 0, cf("DCGuid")),
			})), "the nonce of message 31 and the device's GUID")
			c.prov("device's token", "message 32 key", p, e.Args[3], key, "the device's key")
			c.prov("device's token", "message 32 algorithm", p, e.Args[4], Fld("SigInfo.SgType", Or(Fld("HelloRVAck31.EBSigInfo", ack), cf("DCSigInfo"))), "the agreed signature type")
		}
		c.min("device's token", 4)
		return Marshal(tokenM(gcs))
	case 60:
		return Marshal(fieldsM("HelloDevice60", map[string]M{
			"MaxDeviceMessageSize": func(a *Analyzer, t *Term) bool {
				return positiveConst(t) || t.Op == "global" && positiveConst(c.globalInit(t.Name))
			},
			"Guid": cf("DCGuid"), "NonceTO2ProveOV": Res("core/shared.NewFdoNonce", 0), "EASigInfo": cf("DCSigInfo"),
			"KexSuiteName": fld("KexSuiteName"), "CipherSuiteName": fld("CipherSuiteName"),
		}))
	case 62:
		return Marshal(fieldsM("GetOVNextEntry62", map[string]M{"GetOVNextEntry": Same(paramOfTerm(f, 1))}))
	case 64:
		for _, e := range c.callsTo(f, gcs) {
			p := e.Instr.Pos()
			c.prov("device's token", "message 64 algorithm", p, e.Args[4], Fld("SigInfo.SgType", cf("DCSigInfo")), "the device's signature type")
		}
		return Marshal(tokenM(gcs))
	case 66:
		return wrap(fieldsM("DeviceServiceInfoReady66", map[string]M{"ReplacementHMac": Or(notSet, fld("OvHmac"))}))
	case 68:
		return wrap(Same(paramOfTerm(f, 1)))
	case 70:
		return wrap(fieldsM("Done70", map[string]M{"NonceTO2ProveDv": fld("NonceTO2ProveDv61")}))
	}
	return nil
}

// credentialReuse: the replacement HMAC is withheld exactly when the owner keeps the device's credential.
func (c *Ctx) credentialReuse() {
	f, g := c.step(66), c.step(64)
	if f == nil || g == nil {
		return
	}
	h := paramOf(fnKey(f), 0)
	reuse := Fld("To2Requestor.CredentialReuse", h)
	for _, v := range []string{"true", "false"} {
		sa := c.A.spec(f, nil, asm{reuse, mk("const", v, types.Typ[types.Bool])})
		want, what := M(notSet), "no replacement HMAC"
		if v == "false" {
			want, what = Fld("To2Requestor.OvHmac", h), "a replacement HMAC"
		}
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			if !calleeIs(in, kMarshal) || sa.sp.deadB[in.Block()] {
				return
			}
			t := sa.at(in.(ssa.CallInstruction).Common().Args[1], in)
			if typeBaseOf(t.T) != "DeviceServiceInfoReady66" && !(t.Op == "lit" && len(t.Args) > 0 && projField(t, "DeviceServiceInfoReady66.ReplacementHMac", nil) != nil) {
				return
			}
			n++
			c.prov2(sa, "credential reuse", "message 66 with credential reuse "+v, f, projField(t, "DeviceServiceInfoReady66.ReplacementHMac", nil), want, what)
		})
		c.ob("credential reuse", "message 66 encoded with credential reuse "+v, n > 0, f.Pos(), "the encoding of message 66 was not found")
	}
	for _, e := range c.fieldStores(g, "To2Requestor", "CredentialReuse") {
		c.prov("credential reuse", "decision", e.Instr.Pos(), storeVal(c, e), Res("core/shared.(TO2SetupDevicePayload).IsCredentialReuse", 0, nil, Fld("WawDeviceCredential.DCGuid", Fld("To2Requestor.Credential", paramOf(fnKey(g), 0)))), "whether the owner kept the device's identity")
	}
	if x := c.need("core/shared.(TO2SetupDevicePayload).IsCredentialReuse"); x != nil {
		c.summaryHas("credential reuse", x, 0, "true", []Req{{Name: "same identity", Kind: "eq", A: Fld("TO2SetupDevicePayload.ReplacementGuid", Same(paramOfTerm(x, 0))), B: Same(paramOfTerm(x, 1))}})
		c.summaryHas("credential reuse", x, 0, "false", []Req{{Name: "another identity", Kind: "ne", A: Fld("TO2SetupDevicePayload.ReplacementGuid", Same(paramOfTerm(x, 0))), B: Same(paramOfTerm(x, 1))}})
	}
	c.min("credential reuse", 6)
}

// sendOnWire: the posting function sends what it is given and hands back what it received.
func (c *Ctx) sendOnWire() {
	f := c.need(sendPost)
	if f == nil {
		return
	}
	entry, cmd, body, tok := Same(paramOfTerm(f, 0)), Same(paramOfTerm(f, 1)), Same(paramOfTerm(f, 2)), Same(paramOfTerm(f, 3))
	isReq := func(in ssa.Instruction) bool {
		return calleeIs(in, "net/http.NewRequest", "net/http.NewRequestWithContext")
	}
	base := unquote(constName(c, "core/shared", "FDO_101_URL_BASE"))
	num := Res("core/shared.(FdoCmd).ToString", 0, cmd)
	for _, e := range c.A.effects(f, isReq, nil) {
		as := e.Args
		if calleeIs(e.Instr, "net/http.NewRequestWithContext") {
			as = as[1:]
		}
		p := e.Instr.Pos()
		c.prov("request on the wire", "method", p, as[0], K("POST"), "POST")
		parts := func(ms ...M) M {
			return func(a *Analyzer, t *Term) bool {
				if t.Op != "lit" || t.Name != "array" || len(t.Args) != len(ms) {
					return false
				}
				for i, m := range ms {
					if !a.is(t.Args[i].Args[0], m) {
						return false
					}
				}
				return true
			}
		}
		srv := Fld("SRVEntry.SrvURL", entry)
		first := Or(Res("net/url.(URL).JoinPath", 0, Res("net/url.Parse", 0, srv), parts(K(base), num)), Res("net/url.JoinPath", 0, srv, parts(K(base), num)))
		whole := Or(first, Res("net/url.(URL).JoinPath", 0, first, parts(num)), Res("net/url.JoinPath", 0, first, parts(num)))
		c.prov("request on the wire", "address", p, as[1], Or(whole, Res("net/url.(URL).String", 0, whole)), "the peer's URL, the protocol's base path and the message number")
		c.prov("request on the wire", "body", p, as[2], Or(Res("bytes.NewBuffer", 0, body), Res("bytes.NewReader", 0, body)), "the bytes given")
	}
	for _, e := range c.A.effects(f, func(in ssa.Instruction) bool { return calleeIs(in, "net/http.(Header).Set", "net/http.(Header).Add") }, nil) {
		p := e.Instr.Pos()
		switch {
		case c.A.is(e.Args[1], K("Authorization")):
			c.prov("request on the wire", "token", p, e.Args[2], tok, "the token given")
		case c.A.is(e.Args[1], K("Content-Type")):
			c.prov("request on the wire", "content type", p, e.Args[2], K("application/cbor"), "CBOR")
		}
	}
	// with a token to send
	sa := c.A.spec(f, nil, asm{tok, kStr("token")})
	for _, e := range sa.effects(f, func(in ssa.Instruction) bool { return calleeIs(in, "net/http.(Client).Do") }, nil) {
		set := func(k string) M {
			return func(a *Analyzer, t *Term) bool {
				return t.Op == "call" && (t.Name == "net/http.(Header).Set" || t.Name == "net/http.(Header).Add") && len(t.Args) == 3 && a.is(t.Args[1], K(k))
			}
		}
		c.guard("request on the wire", "sending", e, []Req{
			{Name: "the token is attached if there is one", Kind: "called", A: set("Authorization")},
			{Name: "the content type is attached", Kind: "called", A: set("Content-Type")},
		})
	}
	resp := Res("net/http.(Client).Do", 0)
	ok := func(k int, m M, what string) {
		c.prov("answer handed back", what, f.Pos(), c.A.okOf(f, k), m, what)
	}
	ok(0, Res("io.ReadAll", 0, Has(Fld("Response.Body", resp))), "the answer's body")
	ok(1, Res("net/http.(Header).Get", 0, Fld("Response.Header", resp), K("Authorization")), "the answer's Authorization header")
	ok(2, Fld("Response.StatusCode", resp), "the answer's status")
	c.min("request on the wire", 6)
	c.min("answer handed back", 3)
}

// okOf: result k over the returns without an error.
func (a *Analyzer) okOf(f *ssa.Function, k int) *Term {
	ei := errResult(f)
	var as []*Term
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(r.Results) || ei >= 0 && errorExit(b) {
			continue
		}
		if ei >= 0 {
			if n, known := a.nilTerm(a.at(r.Results[ei], r), 0); known && !n {
				continue
			}
		}
		as = append(as, a.at(r.Results[k], r))
	}
	if len(as) == 0 {
		return nil
	}
	return phiOf(as, nil)
}
