package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C35", "value provenance of every part of a generated voucher, and loop-carried provenance (what reaches each entry from the one before) over the entry-generating loops.", c35)
}

const (
	genSign   = "core/shared.GenerateCoseSignature"
	genKeys   = "core/shared.GenerateVoucherKeypair"
	genHash   = "core/shared.GenerateFdoHash"
	mfgUpdate = "core/shared.(WawDeviceCredential).UpdateWithManufacturerCred"
	privBytes = "core/shared.MarshalPrivateKey"
	credType  = "WawDeviceCredential"
)

// genEntry: a function that makes one voucher entry, and which of its parameters play which part.
type genEntry struct {
	f                                       *ssa.Function
	prevHash, hdrHash, key, sg, pub, newKey int
}

func paramIdx(f *ssa.Function, t *Term) int {
	t = strip(t)
	if t.Op == "test" && len(t.Args) > 0 {
		t = strip(t.Args[0])
	}
	if t.Op == "param" && strings.HasPrefix(t.Name, fnKey(f)+":") {
		return t.Idx
	}
	return -1
}

// ordinary: the alternatives of a value that are not selected by a conformance test.
func ordinary(t *Term) []*Term {
	var out []*Term
	for _, x := range alts(t) {
		if x.Op == "test" && len(alts(t)) > 1 {
			continue
		}
		out = append(out, x)
	}
	return out
}

func one(t *Term) *Term {
	if t == nil {
		return nil
	}
	o := ordinary(t)
	if len(o) != 1 {
		return t
	}
	return strip(o[0])
}

func c35(c *Ctx) {
	a := c.A
	// entry makers
	makers := map[*ssa.Function]*genEntry{}
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || !strings.HasPrefix(fnKey(f), "core/device.") || typeBase(lastResultBut(f)) != "CoseSignature" {
			continue
		}
		for _, e := range a.effects(f, func(in ssa.Instruction) bool { return calleeIs(in, genSign) }, nil) {
			g := c.entryMaker(f, e)
			if g != nil {
				makers[f] = g
			}
		}
	}
	if len(makers) == 0 {
		c.missing("a function that makes one voucher entry")
		return
	}
	n := 0
	for _, r := range c.P.Funcs {
		if r.Parent() != nil || !strings.HasPrefix(fnKey(r), "core/device.") || r.Signature.Results().Len() != 2 || typeBase(deref(r.Signature.Results().At(0).Type())) != "DeviceCredAndVoucher" {
			continue
		}
		n++
		c.voucherMaker(r, makers)
	}
	if n == 0 {
		c.missing("a function that generates a voucher with its device credential")
	}
	c.keyPairs()
	c.credUpdates()
	c.min("voucher content", 14)
	c.min("header content", 12)
	c.min("entry content", 12)
	c.min("entry chain", 12)
}

func lastResultBut(f *ssa.Function) types.Type {
	r := f.Signature.Results()
	if r.Len() < 3 {
		return types.Typ[types.Int]
	}
	return deref(r.At(r.Len() - 2).Type())
}

// entryMaker checks what one entry contains and returns.
func (c *Ctx) entryMaker(f *ssa.Function, e *Effect) *genEntry {
	g := &genEntry{f: f, pub: -1, newKey: -1}
	p := e.Instr.Pos()
	nm := fnShort(f)
	var pl *Term
	if m := one(e.Args[0]); m.Op == "call" && strings.HasSuffix(m.Name, ".Marshal") && len(m.Args) == 2 {
		pl = m.Args[1]
	}
	if pl == nil || fieldOf(pl, "OVEntryPayload.OVEPubKey") == nil {
		return nil
	}
	g.prevHash = paramIdx(f, one(fieldOf(pl, "OVEntryPayload.OVEHashPrevEntry")))
	g.hdrHash = paramIdx(f, one(fieldOf(pl, "OVEntryPayload.OVEHashHdrInfo")))
	g.key = paramIdx(f, e.Args[3])
	g.sg = paramIdx(f, e.Args[4])
	c.ob("entry content", nm+": previous hash, header hash, key and algorithm", g.prevHash >= 0 && g.hdrHash >= 0 && g.prevHash != g.hdrHash && g.key >= 0 && g.sg >= 0, p,
		"the entry is signed with the key given, over the two hashes given: payload %s, key %s, algorithm %s", trunc(pl.String()), e.Args[3], e.Args[4])
	pub := one(fieldOf(pl, "OVEntryPayload.OVEPubKey"))
	alg := fieldOf(e.Args[1], "ProtectedHeader.Alg")
	c.ob("entry content", nm+": algorithm announced", g.sg >= 0 && alg != nil && c.A.hasSub(alg, func(a *Analyzer, t *Term) bool { return paramIdx(f, t) == g.sg }, 0), p, "the algorithm the entry is signed with: %v", alg)
	res := f.Signature.Results()
	priv := c.nonNilResult(f, 0)
	bytes := c.nonNilResult(f, 1)
	// the private key returned is that of the public key in the entry
	switch {
	case pub.Op == "call" && pub.Name == genKeys && pub.Idx == 1:
		c.prov("entry content", nm+": private key returned", f.Pos(), priv, Res(genKeys, 0, Same(pub.Args[0])), "the private half of the key pair whose public half is in the entry")
		c.prov("entry content", nm+": private key bytes returned", f.Pos(), bytes, Res(privBytes, 0, Res(genKeys, 0, Same(pub.Args[0])), Same(pub.Args[0])), "its encoding")
	default:
		g.pub, g.newKey = paramIdx(f, pub), -1
		if priv != nil {
			g.newKey = paramIdx(f, one(priv))
		}
		c.ob("entry content", nm+": private key returned", g.pub >= 0 && g.newKey >= 0, f.Pos(), "the private key that was given for the public key in the entry: %v", priv)
		c.prov("entry content", nm+": private key bytes returned", f.Pos(), bytes, Res(privBytes, 0, Same(priv)), "its encoding")
	}
	c.prov("entry content", nm+": entry returned", f.Pos(), c.nonNilResult(f, res.Len()-2), Res(genSign, 0), "the signed entry")
	sig := []Req{
		{Name: "payload encoded", Kind: "nil", A: Res("core/shared.(CBOR_CUSTOM_TAGS).Marshal", 1)},
		{Name: "entry signed", Kind: "nil", A: Res(genSign, 1)},
		{Name: "private key encoded", Kind: "nil", A: Res(privBytes, 1)},
	}
	if g.pub < 0 {
		sig = append(sig, Req{Name: "key pair generated", Kind: "nil", A: Res(genKeys, 2)})
	}
	c.summaryHas("entry content", f, res.Len()-1, "nil", sig)
	return g
}

// voucherMaker checks one voucher generator.
func (c *Ctx) voucherMaker(r *ssa.Function, makers map[*ssa.Function]*genEntry) {
	a := c.A
	nm := fnShort(r)
	p := r.Pos()
	di := -1
	for i, q := range r.Params {
		if typeBase(q.Type()) == credType {
			di = i
		}
	}
	if di < 0 {
		c.missing("the device credential given to " + nm)
		return
	}
	cred := func(field string) M {
		return func(a *Analyzer, t *Term) bool {
			if t.Op != "field" || t.Name != credType+"."+field {
				return false
			}
			return c.fromParam(t.Args[0], r, di, 0)
		}
	}
	stored := func(rule, owner, field, what string, m M) *Term {
		var last *Term
		n := 0
		for _, e := range c.fieldStores(r, owner, field) {
			if len(a.testGuards(e.Instr.Parent())[e.Instr.Block()]) > 0 {
				continue
			}
			n++
			last = one(storeVal(c, e))
			if m != nil {
				c.prov(rule, nm+": "+owner+"."+field, e.Instr.Pos(), last, m, what)
			}
		}
		c.ob(rule, nm+": "+owner+"."+field+" set", n == 1, p, "set once (%d)", n)
		return last
	}
	prot, _ := c.P.constVal("core/shared", "ProtVer101")
	const vt, ht = "OwnershipVoucher", "OwnershipVoucherHeader"
	mfg := stored("header content", ht, "OVPublicKey", "a generated manufacturer key", Res(genKeys, 1))
	stored("header content", ht, "OVHProtVer", "1.1", K(prot))
	stored("header content", ht, "OVGuid", "the device's GUID", cred("DCGuid"))
	stored("header content", ht, "OVDeviceInfo", "the device's description", cred("DCDeviceInfo"))
	stored("header content", ht, "OVRvInfo", "the rendezvous information given", func(a *Analyzer, t *Term) bool {
		i := paramIdx(r, t)
		return i >= 0 && typeBase(r.Params[i].Type()) == "RendezvousInfo"
	})
	stored("header content", ht, "OVDevCertChainHash", "the device's certificate chain hash", cred("DCCertificateChainHash"))
	hdrB := stored("voucher content", vt, "OVHeaderTag", "the encoded header", Marshal(func(a *Analyzer, t *Term) bool { return t.T != nil && typeBase(deref(t.T)) == ht }))
	stored("voucher content", vt, "OVProtVer", "1.1", K(prot))
	stored("voucher content", vt, "OVDevCertChain", "the device's certificate chain", cred("DCCertificateChain"))
	hm := stored("voucher content", vt, "OVHeaderHMac", "the HMAC the credential makes over this header", Res(mfgUpdate, 0, nil, Same(hdrB), Same(mfg)))
	stored("voucher content", "DeviceCredAndVoucher", "WawDeviceCredential", "the device credential given, as updated for this voucher", func(a *Analyzer, t *Term) bool { return c.fromParam(t, r, di, 0) })
	if owner := len(a.effects(r, func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		return ok && makers[ci.Call.StaticCallee()] != nil && makers[ci.Call.StaticCallee()].pub >= 0
	}, nil)); owner > 0 {
		// the keys were given: later users pick the key exchange by their algorithm
		stored("voucher content", "VoucherDBEntry", "SgType", "the algorithm of the owner keys", func(a *Analyzer, t *Term) bool { return samePairArg(t, mfg) })
	}
	if hm != nil && hm.Op == "call" && len(hm.Args) > 0 {
		c.ob("voucher content", nm+": HMAC made by the device credential", c.fromParam(hm.Args[0], r, di, 0), p, "made with the credential given")
	}
	c.summaryHas("voucher content", r, 1, "nil", []Req{
		{Name: "manufacturer key generated", Kind: "nil", A: Res(genKeys, 2)},
		{Name: "header encoded", Kind: "nil", A: func(a *Analyzer, t *Term) bool {
			return hdrB != nil && t.Op == "call" && t.Idx == 1 && stripSites(withIdx(t, 0, nil)) == stripSites(hdrB)
		}},
		{Name: "HMAC made", Kind: "nil", A: Res(mfgUpdate, 1)},
	})
	// ---- entries ----
	var sites []*Effect
	for _, e := range a.effects(r, func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		return ok && makers[ci.Call.StaticCallee()] != nil
	}, nil) {
		sites = append(sites, e)
	}
	if len(sites) == 0 {
		c.missing("entries made by " + nm)
		return
	}
	l := sites[0].Instr.Parent()
	tr := sites[0].tr
	var lp *loopInfo
	for _, x := range loopsOf(l) {
		if x.body[sites[0].Instr.Block()] {
			x := x
			if lp == nil || len(x.body) < len(lp.body) {
				lp = &x
			}
		}
	}
	if lp == nil {
		c.missing("the loop that makes the entries in " + nm)
		return
	}
	top := &frame{f: l, tr: tr}
	term := func(v fval) *Term { return v.fr.tr(a.at(v.v, v.at)) }
	// isSite: v is result idx of an entry made
	isSite := func(v fval, idx int) (*ssa.Call, bool) {
		ex, ok := bare(v.v).(*ssa.Extract)
		if !ok {
			return nil, false
		}
		ci, ok := ex.Tuple.(*ssa.Call)
		if !ok || makers[ci.Call.StaticCallee()] == nil {
			return nil, false
		}
		if idx < 0 {
			idx += ci.Call.StaticCallee().Signature.Results().Len()
		}
		return ci, ex.Index == idx
	}
	stop := func(f *ssa.Function) bool { return makers[f] != nil || fnKey(f) == genHash || fnKey(f) == genKeys }
	hashOf := func(m M) M { return Res(genHash, 0, m, cred("DCHashAlg")) }
	hdrBytes := func(a *Analyzer, t *Term) bool {
		parts := flatConcat(a, t, 0)
		return len(parts) == 2 && a.is(parts[0], Same(hdrB)) && a.is(parts[1], func(a *Analyzer, t *Term) bool {
			return t.Op == "call" && strings.HasSuffix(t.Name, ".Marshal") && len(t.Args) == 2 && a.is(t.Args[1], Same(hm))
		})
	}
	hdrHash := hashOf(hdrBytes)
	info := hashOf(func(a *Analyzer, t *Term) bool {
		parts := flatConcat(a, t, 0)
		return len(parts) == 2 && a.is(parts[0], cred("DCGuid")) && a.is(parts[1], cred("DCDeviceInfo"))
	})
	// accumulated entries
	var list *ssa.Phi
	for _, in := range lp.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			if s, ok := phi.Type().Underlying().(*types.Slice); ok && typeBase(s.Elem()) == "CoseSignature" {
				list = phi
			}
		}
	}
	if list == nil {
		c.missing("the list of entries in " + nm)
		return
	}
	good := true
	for i, e := range list.Edges {
		pb := lp.header.Preds[i]
		if !lp.header.Dominates(pb) {
			good = good && isEmptyTerm(strip(a.at(e, pb.Instrs[len(pb.Instrs)-1])))
			continue
		}
		for _, lf := range c.origins(fval{e, top, pb.Instrs[len(pb.Instrs)-1]}, lp, stop) {
			ap, ok := lf.v.(*ssa.Call)
			if !ok {
				good = false
				continue
			}
			b, ok := ap.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || ap.Call.Args[0] != ssa.Value(list) {
				good = false
				continue
			}
			els := sliceElems(ap.Call.Args[1])
			good = good && len(els) == 1
			for _, x := range els {
				for _, y := range c.origins(fval{derefOf(x), lf.fr, ap}, lp, stop) {
					_, ok := isSite(y, -2)
					good = good && ok
				}
			}
		}
	}
	c.ob("entry chain", nm+": every entry is appended", good, list.Pos(), "the list starts empty and every iteration appends the entry it made")
	carries := 0
	for _, e := range c.fieldStores(r, "OwnershipVoucher", "OVEntryArray") {
		st := e.Instr.(*ssa.Store)
		carries++
		os := c.origins(fval{st.Val, &frame{f: r, tr: func(t *Term) *Term { return t }}, st}, nil, stop)
		ok := len(os) > 0
		for _, o := range os {
			ok = ok && o.v == ssa.Value(list)
		}
		c.ob("entry chain", nm+": the voucher carries these entries", ok, st.Pos(), "the voucher's entries are the accumulated list")
	}
	c.ob("entry chain", nm+": the voucher carries entries", carries > 0, p, "the accumulated list is stored in the voucher")
	// prevEntry: the entry made by the iteration before
	prevEntry := func(v fval) bool {
		ld, ok := bare(v.v).(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		ix, ok := ld.X.(*ssa.IndexAddr)
		if !ok || c.lift(fval{ix.X, v.fr, ix}).v != ssa.Value(list) {
			return false
		}
		bo, ok := ix.Index.(*ssa.BinOp)
		if !ok || bo.Op != token.SUB {
			return false
		}
		if k, ok := bo.Y.(*ssa.Const); !ok || k.Int64() != 1 {
			return false
		}
		n := c.lift(fval{bo.X, v.fr, bo})
		if ci, ok := n.v.(*ssa.Call); ok {
			b, ok := ci.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len" && c.lift(fval{ci.Call.Args[0], n.fr, ci}).v == ssa.Value(list)
		}
		return countsUp(n.v, lp)
	}
	// entryHash: the hash of an entry made; fresh: by this iteration, otherwise by the one before
	hashed := func(v fval) []fval {
		ex, ok := bare(v.v).(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return nil
		}
		ci, ok := ex.Tuple.(*ssa.Call)
		if !ok || !calleeIs(ci, genHash) || !a.is(term(fval{ci.Call.Args[1], v.fr, ci}), cred("DCHashAlg")) {
			return nil
		}
		return c.origins(fval{ci.Call.Args[0], v.fr, ci}, lp, stop)
	}
	entryBytes := func(o fval, fresh bool) bool {
		mx, ok := o.v.(*ssa.Extract)
		if !ok || mx.Index != 0 {
			return false
		}
		ms, ok := mx.Tuple.(*ssa.Call)
		if !ok || !isMarshal(ms) {
			return false
		}
		x := c.lift(fval{bare(ms.Call.Args[len(ms.Call.Args)-1]), o.fr, ms})
		if !fresh {
			return prevEntry(x)
		}
		_, ok = isSite(c.lift(fval{derefOf(x.v), x.fr, ms}), -2)
		return ok
	}
	entryHash := func(v fval, fresh bool) bool {
		os := hashed(v)
		for _, o := range os {
			if !entryBytes(o, fresh) {
				return false
			}
		}
		return len(os) > 0
	}
	for _, e := range sites {
		ci := e.Instr.(*ssa.Call)
		g := makers[ci.Call.StaticCallee()]
		sn := fmt.Sprintf("%s: %s", nm, fnShort(g.f))
		if e.Instr.Parent() != l || !lp.body[ci.Block()] {
			c.ob("entry chain", sn+": made in the loop", false, ci.Pos(), "an entry is made outside the loop that chains the entries")
			continue
		}
		c.errorUsed(g.f, ci)
		arg := func(i int) fval { return fval{ci.Call.Args[i], top, ci} }
		// header information
		c.prov("entry chain", sn+": header information hash", ci.Pos(), one(e.Args[g.hdrHash]), info, "the hash of GUID and device information")
		// signing key
		ok := c.carried(arg(g.key), lp, stop, func(v fval) bool { return samePair(a, term(v), mfg) },
			func(v fval) bool { _, ok := isSite(v, 0); return ok })
		c.ob("entry chain", sn+": signing key", ok, ci.Pos(), "the manufacturer's key for the first entry, then the key of the entry before")
		// hash of what precedes
		ok, first, other := true, false, false
		for _, lf := range c.origins(arg(g.prevHash), lp, stop) {
			phi, _ := lf.v.(*ssa.Phi)
			switch {
			case phi != nil && phi.Block() == lp.header:
				ok = ok && c.carried(lf, lp, stop, func(v fval) bool { return a.is(one(term(v)), hdrHash) }, func(v fval) bool { return entryHash(v, true) })
				first, other = true, true
			case a.is(one(term(lf)), hdrHash):
				ok = ok && c.firstOnly(lf, list, lp, true)
				first = true
			case entryHash(lf, false):
				ok = ok && c.firstOnly(lf, list, lp, false)
				other = true
			default:
				os := hashed(lf)
				for _, o := range os {
					switch {
					case a.is(one(term(o)), hdrBytes):
						ok = ok && c.firstOnly(o, list, lp, true)
						first = true
					case entryBytes(o, false):
						ok = ok && c.firstOnly(o, list, lp, false)
						other = true
					default:
						ok = false
					}
				}
				ok = ok && len(os) > 0
			}
		}
		if g.pub >= 0 {
			first = true
		}
		c.ob("entry chain", sn+": hash of what precedes", ok && first && other, ci.Pos(), "of the header with its HMAC for the first entry, of the entry before for every other")
		// algorithm
		ok = c.carried(arg(g.sg), lp, stop, func(v fval) bool { return samePairArg(term(v), mfg) }, func(v fval) bool { return samePairArg(term(v), mfg) })
		c.ob("entry chain", sn+": signature algorithm", ok, ci.Pos(), "that of the signing key: %s", e.Args[g.sg])
		if g.pub >= 0 {
			pi, ki := paramIdx(r, one(e.Args[g.pub])), paramIdx(r, one(e.Args[g.newKey]))
			c.ob("entry chain", sn+": final owner key", pi >= 0 && ki >= 0 && pi != ki, ci.Pos(), "the key pair given: public %s, private %s", e.Args[g.pub], e.Args[g.newKey])
			c.ob("entry chain", sn+": final owner is last", c.lastIteration(ci, lp), ci.Pos(), "given to the last entry only")
		}
	}
	// the key returned is that of the last entry
	n := 0
	for _, e := range c.fieldStores(r, "VoucherDBEntry", "PrivateKeyX509") {
		st := e.Instr.(*ssa.Store)
		n++
		os := c.origins(fval{st.Val, &frame{f: r, tr: func(t *Term) *Term { return t }}, st}, nil, stop)
		ok := len(os) > 0
		for _, o := range os {
			phi, _ := o.v.(*ssa.Phi)
			ok = ok && phi != nil && phi.Block() == lp.header && c.lastKey(phi, top, lp, stop, isSite)
		}
		c.ob("entry chain", nm+": private key of the last entry", ok, st.Pos(), "the private key returned belongs to the last entry made")
	}
	c.ob("entry chain", nm+": private key kept", n > 0, p, "the voucher is stored with a private key")
}

// A value inside a chain of calls.
type frame struct {
	f    *ssa.Function
	call *ssa.Call
	up   *frame
	tr   func(*Term) *Term
}

type fval struct {
	v  ssa.Value
	fr *frame
	at ssa.Instruction
}

// lift replaces parameters by the arguments given and loads of locals by what was stored in them.
func (c *Ctx) lift(v fval) fval {
	for i := 0; i < 10; i++ {
		v.v = bare(v.v)
		p, ok := v.v.(*ssa.Parameter)
		if !ok || v.fr.call == nil {
			break
		}
		for k, q := range v.fr.f.Params {
			if q == p {
				v = fval{v.fr.call.Call.Args[k], v.fr.up, v.fr.call}
				break
			}
		}
	}
	return v
}

// origins: where a value comes from, outside negative tests: through the branches of the loop body and through the
// functions of this repository that return it.
func (c *Ctx) origins(v fval, lp *loopInfo, stop func(*ssa.Function) bool) []fval {
	a := c.A
	var out []fval
	seen := map[string]bool{}
	var w func(v fval, d int)
	w = func(v fval, d int) {
		v = c.lift(v)
		k := fmt.Sprintf("%p/%p", v.v, v.fr)
		if seen[k] || d > 40 {
			return
		}
		seen[k] = true
		if v.v.Parent() != nil {
			if in, ok := v.v.(ssa.Instruction); ok && len(a.testGuards(v.v.Parent())[in.Block()]) > 0 {
				return
			}
		}
		switch x := v.v.(type) {
		case *ssa.Phi:
			hdr := false
			for _, l := range loopsOf(x.Parent()) {
				hdr = hdr || l.header == x.Block()
			}
			if hdr {
				break
			}
			for i, e := range x.Edges {
				p := x.Block().Preds[i]
				if len(a.edgeTests(p, x.Block())) > 0 {
					continue
				}
				w(fval{e, v.fr, p.Instrs[len(p.Instrs)-1]}, d+1)
			}
			return
		case *ssa.Extract:
			if ci, ok := x.Tuple.(*ssa.Call); ok {
				f := ci.Call.StaticCallee()
				if f != nil && len(f.Blocks) > 0 && inRepo(f) && !stop(f) && !strings.HasSuffix(fnKey(f), ".Marshal") {
					fr := c.enter(ci, f, v.fr)
					for _, b := range f.Blocks {
						r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
						if !ok || len(a.testGuards(f)[b]) > 0 || errorExit(b) && isZeroM(a, a.at(r.Results[x.Index], r)) {
							continue
						}
						w(fval{r.Results[x.Index], fr, r}, d+1)
					}
					return
				}
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && len(f.Blocks) > 0 && inRepo(f) && !stop(f) && f.Signature.Results().Len() == 1 {
				fr := c.enter(x, f, v.fr)
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(a.testGuards(f)[b]) == 0 {
						w(fval{r.Results[0], fr, r}, d+1)
					}
				}
				return
			}
		}
		out = append(out, v)
	}
	w(v, 0)
	return out
}

func (c *Ctx) enter(ci *ssa.Call, f *ssa.Function, up *frame) *frame {
	a := c.A
	return &frame{f: f, call: ci, up: up, tr: func(t *Term) *Term {
		var args []*Term
		for _, x := range ci.Call.Args {
			args = append(args, a.at(x, ci))
		}
		return up.tr(subst(t, f, args))
	}}
}

// sliceElems: what a variadic argument built in place holds.
func sliceElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				out = append(out, st.Val)
			}
		}
	}
	return out
}

func derefOf(v ssa.Value) ssa.Value {
	v = bare(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if _, ok := u.X.(*ssa.IndexAddr); !ok {
			return u.X
		}
	}
	return v
}

// countsUp: an index that starts at the first element and steps by one.
func countsUp(v ssa.Value, lp *loopInfo) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != lp.header {
		return false
	}
	for i, e := range phi.Edges {
		if !lp.header.Dominates(lp.header.Preds[i]) {
			if !isConst(e, "0") {
				return false
			}
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != v || !isConst(bo.Y, "1") {
			return false
		}
	}
	return true
}

// carried: the value is entry() on entering the loop and back() on every way back to its start; or entry() throughout when
// both admit it.
func (c *Ctx) carried(v fval, lp *loopInfo, stop func(*ssa.Function) bool, entry, back func(fval) bool) bool {
	os := c.origins(v, lp, stop)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		phi, ok := o.v.(*ssa.Phi)
		if !ok || phi.Block() != lp.header {
			if !entry(o) || !back(o) {
				return false
			}
			continue
		}
		for i, e := range phi.Edges {
			p := lp.header.Preds[i]
			for _, x := range c.origins(fval{e, o.fr, p.Instrs[len(p.Instrs)-1]}, lp, stop) {
				if lp.header.Dominates(p) {
					if !back(x) {
						return false
					}
				} else if !entry(x) {
					return false
				}
			}
		}
	}
	return true
}

// samePair: t is the private half of the pair whose public half is pub.
func samePair(a *Analyzer, t, pub *Term) bool {
	t, pub = one(t), one(pub)
	return t != nil && pub != nil && t.Op == "call" && pub.Op == "call" && t.Name == genKeys && pub.Name == genKeys && t.Idx == 0 && pub.Idx == 1 && len(t.Args) > 0 && len(pub.Args) > 0 && t.Args[0].Key() == pub.Args[0].Key()
}

// samePairArg: t is the algorithm the pair of pub was generated for.
func samePairArg(t, pub *Term) bool {
	t, pub = one(t), one(pub)
	return t != nil && pub != nil && pub.Op == "call" && pub.Name == genKeys && len(pub.Args) > 0 && t.Key() == pub.Args[0].Key()
}

// firstOnly: where the value is chosen it is known whether this is the first iteration.
func (c *Ctx) firstOnly(v fval, list *ssa.Phi, lp *loopInfo, first bool) bool {
	at := v.at
	for fr := v.fr; ; fr = fr.up {
		for b := at.Block(); b != nil && b != lp.header; b = b.Idom() {
			d := b.Idom()
			if d == nil || len(b.Preds) != 1 || b.Preds[0] != d {
				continue
			}
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			x := c.lift(fval{bo.X, fr, iff}).v
			ln := false
			if ci, ok := x.(*ssa.Call); ok {
				b, ok := ci.Call.Value.(*ssa.Builtin)
				ln = ok && b.Name() == "len" && c.lift(fval{ci.Call.Args[0], fr, ci}).v == ssa.Value(list)
			}
			if !ln && !countsUp(x, lp) {
				continue
			}
			taken := d.Succs[0] == b
			var isFirst bool
			switch {
			case bo.Op == token.EQL && isConst(bo.Y, "0"), bo.Op == token.LSS && isConst(bo.Y, "1"), bo.Op == token.LEQ && isConst(bo.Y, "0"):
				isFirst = taken
			case bo.Op == token.NEQ && isConst(bo.Y, "0"), bo.Op == token.GTR && isConst(bo.Y, "0"), bo.Op == token.GEQ && isConst(bo.Y, "1"):
				isFirst = !taken
			default:
				continue
			}
			if isFirst == first {
				return true
			}
		}
		if fr.call == nil {
			return false
		}
		at = fr.call
	}
}

// lastIteration: the instruction is reached in the last iteration only.
func (c *Ctx) lastIteration(in ssa.Instruction, lp *loopInfo) bool {
	iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || !countsUp(cond.X, lp) {
		return false
	}
	isLast := func(bo *ssa.BinOp) (bool, bool) {
		match := func(x, y ssa.Value) bool {
			// i, n-1
			if x == cond.X {
				if s, ok := y.(*ssa.BinOp); ok && s.Op == token.SUB && s.X == cond.Y && isConst(s.Y, "1") {
					return true
				}
			}
			// i+1, n
			if s, ok := x.(*ssa.BinOp); ok && s.Op == token.ADD && s.X == cond.X && isConst(s.Y, "1") && y == cond.Y {
				return true
			}
			return false
		}
		if match(bo.X, bo.Y) {
			switch bo.Op {
			case token.EQL, token.GEQ:
				return true, true
			case token.NEQ, token.LSS:
				return false, true
			}
		}
		if match(bo.Y, bo.X) {
			switch bo.Op {
			case token.EQL, token.LEQ:
				return true, true
			case token.NEQ, token.GTR:
				return false, true
			}
		}
		return false, false
	}
	for b := in.Block(); b != nil && b != lp.header; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(b.Preds) != 1 || b.Preds[0] != d {
			continue
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cd, neg := i.Cond, false
		if u, ok := cd.(*ssa.UnOp); ok && u.Op == token.NOT {
			cd, neg = u.X, true
		}
		bo, ok := cd.(*ssa.BinOp)
		if !ok {
			continue
		}
		if last, ok := isLast(bo); ok && (last == !neg) == (d.Succs[0] == b) {
			return true
		}
	}
	return false
}

// lastKey: the header phi ends up with the encoded private key of the last entry made.
func (c *Ctx) lastKey(phi *ssa.Phi, fr *frame, lp *loopInfo, stop func(*ssa.Function) bool, isSite func(fval, int) (*ssa.Call, bool)) bool {
	some := false
	for i, e := range phi.Edges {
		p := lp.header.Preds[i]
		if !lp.header.Dominates(p) {
			continue
		}
		var self bool
		var sites []fval
		for _, x := range c.origins(fval{e, fr, p.Instrs[len(p.Instrs)-1]}, lp, stop) {
			if x.v == ssa.Value(phi) {
				self = true
				continue
			}
			if _, ok := isSite(x, 1); !ok {
				return false
			}
			sites = append(sites, x)
		}
		for _, ci := range sites {
			some = true
			if self && !c.lastIteration(ci.at, lp) {
				// kept from an earlier entry when a later one is made
				return false
			}
		}
	}
	return some
}

// fromParam: t is the parameter, possibly after the credential's own updates.
func (c *Ctx) fromParam(t *Term, f *ssa.Function, i, d int) bool {
	if t == nil || d > 6 {
		return false
	}
	t = strip(t)
	if t.Op == "param" {
		return t.Idx == i && strings.HasPrefix(t.Name, fnKey(f)+":")
	}
	if t.T != nil && typeBase(deref(t.T)) == credType {
		switch t.Op {
		case "call", "out", "mut", "after", "phi":
			return true
		}
	}
	for _, x := range alts(t) {
		if x != t && !c.fromParam(x, f, i, d+1) {
			return false
		}
	}
	return t.Op == "phi"
}

// keyPairs: the generated pairs belong together, are of the kind asked for, and encode the private key given.
func (c *Ctx) keyPairs() {
	a := c.A
	f, mp := c.P.fn(genKeys), c.P.fn(privBytes)
	if f == nil || mp == nil {
		c.missing(genKeys + ", " + privBytes)
		return
	}
	const ec, rsa = "crypto/ecdsa.GenerateKey", "crypto/rsa.GenerateKey"
	for _, k := range []struct {
		sg, pk string
		priv   M
	}{
		{"-7", "10", Res(ec, 0, Res("crypto/elliptic.P256", 0))},
		{"-35", "11", Res(ec, 0, Res("crypto/elliptic.P384", 0))},
		{"-257", "1", Res(rsa, 0, nil, K("2048"))},
		{"-258", "5", Res(rsa, 0, nil, K("3072"))},
	} {
		kc := mk("const", k.sg, f.Params[0].Type())
		sp := a.spec(f, []*Term{kc})
		pr, pub := sp.made(f, 0), sp.made(f, 1)
		c.ob("key pairs", "algorithm "+k.sg+": private key", pr != nil && sp.is(pr, k.priv), f.Pos(), "generated with the curve or size of the algorithm: %v", pr)
		body := one(fieldOf(pub, "FdoPublicKey.PkBody"))
		ok := pr != nil && body != nil && sp.is(body, Res("crypto/x509.MarshalPKIXPublicKey", 0, func(a *Analyzer, t *Term) bool {
			return t.Op == "field" && strings.HasSuffix(t.Name, ".PublicKey") && strip(t.Args[0]).Key() == pr.Key()
		}))
		c.ob("key pairs", "algorithm "+k.sg+": public key", ok, f.Pos(), "the encoded public half of the private key: %v", body)
		pt := one(fieldOf(pub, "FdoPublicKey.PkType"))
		c.ob("key pairs", "algorithm "+k.sg+": public key type", pt != nil && sp.is(pt, K(k.pk)), f.Pos(), "%s: %v", k.pk, pt)
		en := one(fieldOf(pub, "FdoPublicKey.PkEnc"))
		c.ob("key pairs", "algorithm "+k.sg+": public key encoding", en != nil && sp.is(en, K("1")), f.Pos(), "X.509: %v", en)
		sm := a.spec(mp, []*Term{nil, kc})
		c.ob("key pairs", "algorithm "+k.sg+": private key encoding", sm.made(mp, 0) != nil && sm.is(sm.made(mp, 0), Res("crypto/x509.MarshalPKCS8PrivateKey", 0, func(a *Analyzer, t *Term) bool { return paramIdx(mp, t) == 0 })), mp.Pos(), "PKCS#8 of the key given: %v", sm.made(mp, 0))
	}
	c.min("key pairs", 20)
}

// made: result k, expanded through the functions it is passed on from, nil alternatives dropped.
func (a *Analyzer) made(f *ssa.Function, k int) *Term {
	r := a.results(f, k)
	for i := 0; r != nil && i < 6; i++ {
		var keep []*Term
		for _, x := range alts(r) {
			if x.Op == "lit" || !isZeroM(a, x) {
				keep = append(keep, strip(x))
			}
		}
		if len(keep) == 0 {
			return nil
		}
		r = phiOf(keep, r.T)
		if r.Op != "call" || r.Fn == nil || !inRepo(r.Fn) {
			return r
		}
		n := a.spec(r.Fn, r.Args).results(r.Fn, r.Idx)
		if n == nil {
			return r
		}
		r = n
	}
	return r
}

// credUpdates: what the device's credential takes on for a voucher.
func (c *Ctx) credUpdates() {
	f, g := c.P.fn(mfgUpdate), c.P.fn("core/shared.(WawDeviceCredential).UpdateToNewHashHmacTypes")
	if f == nil || g == nil {
		c.missing("the credential's own updates")
		return
	}
	self := func(f *ssa.Function, field string) M {
		return func(a *Analyzer, t *Term) bool {
			return t.Op == "field" && t.Name == credType+"."+field && paramIdx(f, t.Args[0]) == 0
		}
	}
	par := func(f *ssa.Function, i int) M { return func(a *Analyzer, t *Term) bool { return paramIdx(f, t) == i } }
	c.prov("credential", fnShort(f)+": HMAC", f.Pos(), c.nonNilResult(f, 0), Res("core/shared.GenerateFdoHmac", 0, par(f, 1), self(f, "DCHmacAlg"), self(f, "DCHmacSecret")), "of the header, with the device's secret and algorithm")
	want := map[string]M{
		"DCPubKeyHash": Res(genHash, 0, Marshal(par(f, 2)), self(f, "DCHashAlg")),
	}
	c.credStores(f, want)
	nt := func(field string) M {
		return func(a *Analyzer, t *Term) bool {
			return t.Op == "field" && t.Name == "HashHmacTypes."+field && paramIdx(g, t.Args[0]) == 1
		}
	}
	c.credStores(g, map[string]M{
		"DCHashAlg":    nt("HashType"),
		"DCHmacAlg":    nt("HmacType"),
		"DCHmacSecret": Res("core/shared.NewHmacKey", 0, nt("HmacType")),
		"DCCertificateChainHash": Res("core/shared.ComputeOVDevCertChainHash", 0, self(g, "DCCertificateChain"), Or(nt("HashType"), func(a *Analyzer, t *Term) bool {
			return t.Op == "lookup" && len(t.Args) == 2 && nt("HmacType")(a, strip(t.Args[1]))
		})),
	})
	c.min("credential", 6)
}

func (c *Ctx) credStores(f *ssa.Function, want map[string]M) {
	for field, m := range want {
		n := 0
		for _, e := range c.fieldStores(f, credType, field) {
			n++
			c.prov("credential", fnShort(f)+": "+field, e.Instr.Pos(), storeVal(c, e), m, "what the voucher calls for")
		}
		c.ob("credential", fnShort(f)+": "+field+" set", n > 0, f.Pos(), "%d stores", n)
	}
}

func isMarshal(ci *ssa.Call) bool {
	n, _ := calleeName(&ci.Call)
	return strings.HasSuffix(n, ".Marshal")
}

// bare strips conversions that keep the value.
func bare(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}
