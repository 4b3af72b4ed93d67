package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C04", "must-facts on every nil return of OwnershipVoucher.Validate, over the receiver and the header decoded from it; the certificate-chain digest covers every certificate.", c04)
	reg("C05", "per-element must-facts on every nil return of Validate (hash of predecessor and signature under predecessor's key for each entry), loop-carried predecessor state is always the previous element, and the final owner key is the last entry's.", c05)
}

const vValidate = "core/shared.(OwnershipVoucher).Validate"

func paramOf(fn string, i int) M {
	return func(a *Analyzer, t *Term) bool {
		return t.Op == "param" && t.Idx == i && len(t.Name) > len(fn) && t.Name[:len(fn)+1] == fn+":"
	}
}

func hdrOf(v M) M {
	return Or(Res("core/shared.(OwnershipVoucher).GetOVHeader", 0, v), Out("OwnershipVoucherHeader", Fld("OwnershipVoucher.OVHeaderTag", v)))
}

func c04(c *Ctx) {
	f := c.P.fn(vValidate)
	if f == nil {
		c.missing(vValidate)
		return
	}
	h := paramOf(vValidate, 0)
	hdr := hdrOf(h)
	chain := Fld("OwnershipVoucher.OVDevCertChain", h)
	want := Fld("OwnershipVoucherHeader.OVDevCertChainHash", hdr)
	const cc = "core/shared.ComputeOVDevCertChainHash"
	comp := Res(cc, 0, chain, Fld("HashOrHmac.Type", want))
	lenOf := func(m M) M {
		return func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "len" && a.is(t.Args[0], m) }
	}
	nonempty := func(name string, m M) Req {
		return Req{Name: name, Or: []Req{
			{Kind: "ne", A: lenOf(m), B: K("0")}, {Kind: "lt", A: K("0"), B: lenOf(m)}, {Kind: "le", A: K("1"), B: lenOf(m)},
			{Kind: "ne", A: m, B: Or(K(""), isZeroM)},
		}}
	}
	c.summaryHas("voucher-valid", f, 0, "nil", []Req{
		{Name: "voucher protocol version 101", Kind: "eq", A: Fld("OwnershipVoucher.OVProtVer", h), B: K("101")},
		{Name: "header protocol version 101", Kind: "eq", A: Fld("OwnershipVoucherHeader.OVHProtVer", hdr), B: K("101")},
		{Name: "certificate chain present", Kind: "nonnil", A: chain},
		nonempty("rendezvous info non-empty", Fld("OwnershipVoucherHeader.OVRvInfo", hdr)),
		nonempty("device info non-empty", Fld("OwnershipVoucherHeader.OVDeviceInfo", hdr)),
		{Name: "header decodes", Or: []Req{
			{Kind: "nil", A: Res("core/shared.(OwnershipVoucher).GetOVHeader", 1, h)},
			{Kind: "nil", A: Res("core/shared.(CBOR_CUSTOM_TAGS).Unmarshal", 0, nil, Fld("OwnershipVoucher.OVHeaderTag", h))}}},
		{Name: "certificate chain digest computed", Kind: "nil", A: Res(cc, 1, chain)},
		{Name: "certificate chain digest present in header", Kind: "nonnil", A: want},
		{Name: "certificate chain digest equals the header's", Kind: "eq", A: Fld("HashOrHmac.Hash", comp), B: Fld("HashOrHmac.Hash", want)},
	})
	// digest covers the concatenation of every certificate
	g := c.P.fn(cc)
	if g == nil {
		c.missing(cc)
		return
	}
	p0 := paramOf(cc, 0)
	elem := elemOf(p0)
	for _, e := range c.callsTo(g, "core/shared.GenerateFdoHash") {
		c.prov("chain-digest", "digest type", e.Instr.Pos(), e.Args[1], paramOf(cc, 1), "the requested type")
		ok := false
		why := trunc(e.Args[0].String())
		ok = c.A.is(e.Args[0], concatAll(elem)) && c.noSkip(g)
		c.ob("chain-digest", "digest input", ok, e.Instr.Pos(), "input %s must be the concatenation of every certificate", why)
	}
	c.min("chain-digest", 2)
	c.prov("chain-digest", "returned digest", g.Pos(), c.nonNilResult(g, 0), Res("core/shared.GenerateFdoHash", 0), "the computed digest")
}

// elemOf: an element of a list matching m, at a non-constant index.
func elemOf(m M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op == "index" && len(t.Args) == 2 {
			return a.is(t.Args[0], m) && t.Args[1].Op == "idx"
		}
		return t.Op == "elem" && a.is(t.Args[0], m)
	}
}

// concatAll: an accumulation of elements by append in a loop, bytes.Join of the list, or a buffer.
func concatAll(elem M) M {
	return func(a *Analyzer, t *Term) bool {
		ok := false
		var w func(t *Term, d int) bool
		w = func(t *Term, d int) bool {
			if d > 12 {
				return false
			}
			switch {
			case isEmptyTerm(t), t.Op == "loop":
				return true
			case t.Op == "prev":
				return w(t.Args[0], d+1)
			case t.Op == "call" && t.Name == "bytes.Join" && len(t.Args) == 2 && isEmptyTerm(t.Args[1]):
				return w(t.Args[0], d+1)
			case t.Op == "phi":
				for _, x := range t.Args {
					if !w(x, d+1) {
						return false
					}
				}
				return true
			case t.Op == "call" && t.Name == "append" && len(t.Args) == 2:
				if !w(t.Args[0], d+1) {
					return false
				}
				x := t.Args[1]
				if x.Op == "lit" && len(x.Args) == 1 {
					x = x.Args[0]
					if x.Op == "kv" {
						x = x.Args[0]
					}
				}
				if a.is(x, elem) {
					ok = true
					return true
				}
			}
			return false
		}
		return w(t, 0) && ok
	}
}

// noSkip: the loops of f have no path from header back to header avoiding the accumulation, and leave only through the header
// or by an error return.
func (c *Ctx) noSkip(f *ssa.Function) bool { return c.noSkipIn(f, true) }

// noSkipIn: ranged also requires every loop to run over all of a list.
func (c *Ctx) noSkipIn(f *ssa.Function, ranged bool) bool {
	ok := true
	for _, l := range loopsOf(f) {
		if ranged && c.A.loopRange(l.header) == nil {
			ok = false
		}
		for _, in := range l.header.Instrs {
			phi, isPhi := in.(*ssa.Phi)
			if !isPhi || !carriesState(phi.Type()) {
				continue
			}
			for i, e := range phi.Edges {
				if !l.header.Dominates(l.header.Preds[i]) {
					continue
				}
				for _, leaf := range phiLeaves(e, l) {
					if leaf == ssa.Value(phi) {
						ok = false
					}
				}
			}
		}
		// a buffer written in the loop is written on every way round
		for b := range l.body {
			for _, in := range b.Instrs {
				call, isCall := in.(*ssa.Call)
				if !isCall || !isBufferWrite(call) {
					continue
				}
				base, _, _ := splitAddr(call.Call.Args[0])
				if def, isIn := base.(ssa.Instruction); isIn && l.body[def.Block()] {
					continue
				}
				for _, p := range l.header.Preds {
					if l.header.Dominates(p) && !b.Dominates(p) {
						ok = false
					}
				}
			}
		}
		// a break: a block in the loop other than the header with a successor outside that is not an exit
		for b := range l.body {
			if b == l.header {
				continue
			}
			for _, s := range b.Succs {
				if !l.body[s] && !errorExit(s) {
					ok = false
				}
			}
		}
	}
	return ok
}

func errorExit(b *ssa.BasicBlock) bool {
	if len(b.Succs) != 0 {
		return false
	}
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok {
		_, p := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return p
	}
	if len(r.Results) == 0 {
		return false
	}
	last := r.Results[len(r.Results)-1]
	return last.Type().String() == "error" && !isNilConst(stripIface(last))
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func loopsOf(f *ssa.Function) []loopInfo {
	var out []loopInfo
	for _, h := range f.Blocks {
		body := map[*ssa.BasicBlock]bool{}
		for _, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			body[h] = true
			var w func(b *ssa.BasicBlock)
			w = func(b *ssa.BasicBlock) {
				if body[b] {
					return
				}
				body[b] = true
				for _, q := range b.Preds {
					w(q)
				}
			}
			w(p)
		}
		if len(body) > 0 {
			out = append(out, loopInfo{h, body})
		}
	}
	return out
}

// carriesState: types whose loop-carried values hold data (not counters, flags or errors).
func carriesState(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String
	case *types.Interface:
		return false
	}
	return true
}

// phiLeaves resolves v through phis inside the loop body (not header phis).
func phiLeaves(v ssa.Value, l loopInfo) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value)
	w = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok && l.body[p.Block()] && p.Block() != l.header {
			for _, e := range p.Edges {
				w(e)
			}
			return
		}
		out = append(out, v)
	}
	w(v)
	return out
}

// carriedFresh: every loop-carried data value of f's loops is replaced, on every way back to the header, by one computed
// in the current iteration.
func (c *Ctx) carriedFresh(rule string, f *ssa.Function) {
	for _, l := range loopsOf(f) {
		for _, in := range l.header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !carriesState(phi.Type()) {
				continue
			}
			bad := ""
			for i, e := range phi.Edges {
				if !l.header.Dominates(l.header.Preds[i]) {
					continue
				}
				for _, leaf := range phiLeaves(e, l) {
					if p, ok := leaf.(*ssa.Phi); ok && p.Block() == l.header {
						bad = p.Comment
					}
				}
			}
			c.ob(rule, fnShort(f)+": carried "+phi.Comment, bad == "", phi.Pos(), "a path back to the loop head keeps an older value (%s)", bad)
		}
		// variables living in memory
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || l.body[b] || !carriesState(deref(al.Type())) {
					continue
				}
				stores := map[*ssa.BasicBlock]bool{}
				loads := false
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && l.body[st.Block()] {
						stores[st.Block()] = true
					} else if l.body[r.Block()] {
						loads = true
					}
				}
				if len(stores) == 0 || !loads {
					continue
				}
				// can the header be reached again without passing a store?
				seen := map[*ssa.BasicBlock]bool{}
				bad := false
				var w func(x *ssa.BasicBlock)
				w = func(x *ssa.BasicBlock) {
					if stores[x] || seen[x] || !l.body[x] {
						return
					}
					seen[x] = true
					for _, s := range x.Succs {
						if s == l.header {
							bad = true
						}
						w(s)
					}
				}
				w(l.header)
				c.ob(rule, fnShort(f)+": carried "+al.Comment, !bad, al.Pos(), "a path back to the loop head keeps an older value")
			}
		}
	}
}

type valCase struct {
	v  ssa.Value
	t  *Term
	fs *FactSet
}

// casesOf: the values a merge brings together, each with what is known where it is chosen. Values carried round a loop
// are one case.
func (c *Ctx) casesOf(f *ssa.Function, v ssa.Value, in ssa.Instruction, fs *FactSet, d int) []valCase {
	phi, ok := v.(*ssa.Phi)
	if ok {
		for _, p := range phi.Block().Preds {
			if phi.Block().Dominates(p) {
				ok = false
			}
		}
	}
	if !ok || d > 5 {
		return []valCase{{v, c.A.at(v, in), fs}}
	}
	ff := c.A.funcFacts(f)
	var out []valCase
	for i, e := range phi.Edges {
		p := phi.Block().Preds[i]
		ef := c.A.edgeFacts(ff, p, phi.Block())
		if ef == nil {
			continue
		}
		ef = ef.clone()
		ef.addAll(fs)
		out = append(out, c.casesOf(f, e, p.Instrs[len(p.Instrs)-1], ef, d+1)...)
	}
	return out
}

// byIteration: where one call serves the first entry and the later ones, the header's bytes and key are chosen for the
// first and the predecessor's for the others.
func (c *Ctx) byIteration(rule string, f *ssa.Function, isFirst, isLater Req) {
	hk := Fld("OwnershipVoucherHeader.OVPublicKey", Out("OwnershipVoucherHeader", nil))
	for k, i := range map[string]int{"core/shared.VerifyHash": 0, "core/shared.VerifyCoseSignature": 1} {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || !calleeIs(in, k) {
				return
			}
			local := c.A.factsAt(f, in)
			if local == nil {
				return
			}
			cs := c.casesOf(f, call.Call.Args[i], in, local, 0)
			if len(cs) < 2 {
				return
			}
			for _, x := range cs {
				want, when := isLater, "a later entry"
				if isHdrConcat(c.A, x.t, nil) || c.A.is(x.t, hk) {
					want, when = isFirst, "the first entry"
				}
				c.ob(rule, fnShort(f)+": "+shortKey(k)+" chosen for "+when, c.A.req(x.fs, want) != nil, call.Pos(), "%s", trunc(x.t.String()))
			}
		})
	}
}

func c05(c *Ctx) {
	f := c.P.fn(vValidate)
	if f == nil {
		c.missing(vValidate)
		return
	}
	h := paramOf(vValidate, 0)
	isIdx := func(a *Analyzer, t *Term) bool { return t.Op == "idx" && strings.HasPrefix(t.Name, "0@") }
	// loose forms used inside the loop, whatever the parameters of its function are called
	entries := func(list M) (first, later, both [2]M) {
		elem := elemOf(list)
		pl := func(e M) M { return Out("OVEntryPayload", Fld("CoseSignature.Payload", e)) }
		prevElem := func(a *Analyzer, t *Term) bool {
			if t.Op == "prev" {
				return a.is(t.Args[0], elem)
			}
			return t.Op == "index" && len(t.Args) == 2 && a.is(t.Args[0], list) && t.Args[1].Op == "bin" && t.Args[1].Name == "-" && t.Args[1].Args[0].Op == "idx" && K("1")(a, t.Args[1].Args[1])
		}
		prevKey := func(a *Analyzer, t *Term) bool {
			if t.Op == "prev" {
				return a.is(t.Args[0], Fld("OVEntryPayload.OVEPubKey", pl(elem)))
			}
			return a.is(t, Fld("OVEntryPayload.OVEPubKey", pl(prevElem)))
		}
		orZero := func(m M) M {
			return func(a *Analyzer, t *Term) bool {
				if t.Op == "phi" {
					n := 0
					for _, x := range t.Args {
						if isZeroM(a, x) {
							continue
						}
						if !a.is(x, m) {
							return false
						}
						n++
					}
					return n > 0
				}
				return m(a, t)
			}
		}
		hb := func(a *Analyzer, t *Term) bool { return isHdrConcat(a, t, nil) }
		hk := Fld("OwnershipVoucherHeader.OVPublicKey", Out("OwnershipVoucherHeader", nil))
		prevBytes := func(a *Analyzer, t *Term) bool {
			if t.Op == "prev" {
				return a.is(t.Args[0], Marshal(elem))
			}
			return Marshal(orZero(prevElem))(a, t)
		}
		return [2]M{hb, hk}, [2]M{orZero(prevBytes), orZero(prevKey)}, [2]M{phiBoth(hb, Or(prevBytes, isZeroM)), phiBoth(hk, Or(prevKey, isZeroM))}
	}
	list := func(a *Analyzer, t *Term) bool {
		return t.T != nil && (typeBaseOf(t.T) == "OVEntryArray" || t.T.String() == "[]CoseSignature")
	}
	elem := elemOf(list)
	pay := Out("OVEntryPayload", Fld("CoseSignature.Payload", elem))
	first, later, both := entries(list)
	vh := func(m M) Req {
		return Req{Kind: "nil", A: Res("core/shared.VerifyHash", 0, m, Fld("OVEntryPayload.OVEHashPrevEntry", pay))}
	}
	vs := func(m M) Req { return Req{Kind: "nil", A: Res("core/shared.VerifyCoseSignature", 0, elem, m)} }
	isFirst := Req{Or: []Req{{Kind: "eq", A: isIdx, B: K("0")}, {Kind: "le", A: isIdx, B: K("0")}, {Kind: "lt", A: isIdx, B: K("1")}}}
	isLater := Req{Or: []Req{{Kind: "ne", A: isIdx, B: K("0")}, {Kind: "lt", A: K("0"), B: isIdx}, {Kind: "le", A: K("1"), B: isIdx}}}
	c.A.tagMemo = map[string][]string{}
	c.A.tags = []Tag{
		{Name: "hash", Conj: [][]Req{{isFirst, vh(first[0])}, {isLater, vh(later[0])}, {vh(both[0])}}},
		{Name: "sig", Conj: [][]Req{{isFirst, vs(first[1])}, {isLater, vs(later[1])}, {vs(both[1])}}},
	}
	s := c.A.summary(f, 0, "nil")
	arr := Fld("OwnershipVoucher.OVEntryArray", h)
	for _, t := range [][2]string{{"hash", "every entry's hash of its predecessor verified"}, {"sig", "every entry's signature verified under its predecessor's key"}} {
		ok := c.allTag(s, t[0], arr)
		c.ob("entry-chain", t[1], ok, f.Pos(), "on every nil return of Validate, for every element of the voucher's entry list: %v", ok)
	}
	// and in the voucher's own terms
	tag, hmac := Fld("OwnershipVoucher.OVHeaderTag", h), Fld("OwnershipVoucher.OVHeaderHMac", h)
	loopFns := map[*ssa.Function]bool{}
	_, lt, _ := entries(arr)
	hb := func(a *Analyzer, t *Term) bool { return isHdrConcat(a, t, []M{tag, hmac}) }
	hk := Fld("OwnershipVoucherHeader.OVPublicKey", hdrOf(h))
	hk2 := Fld("OwnershipVoucherHeader.OVPublicKey", Out("OwnershipVoucherHeader", tag))
	seen := map[string]bool{}
	for _, e := range c.callsTo(f, "core/shared.VerifyHash") {
		if k := c.P.pos(e.Instr.Pos()); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		for _, x := range alts(e.Args[0]) {
			c.prov("entry-operands", "hashed bytes", e.Instr.Pos(), x, Or(hb, lt[0], isZeroM), "header||HMAC of this voucher, or the previous entry")
		}
		loopFns[e.Fn] = true
	}
	for _, e := range c.callsTo(f, "core/shared.VerifyCoseSignature") {
		if k := c.P.pos(e.Instr.Pos()); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		for _, x := range alts(e.Args[1]) {
			c.prov("entry-operands", "verification key", e.Instr.Pos(), x, Or(hk, hk2, lt[1], isZeroM), "the header's key of this voucher, or the previous entry's")
		}
		loopFns[e.Fn] = true
	}
	for g := range loopFns {
		c.byIteration("entry-operands", g, isFirst, isLater)
		c.carriedFresh("carried-state", g)
	}
	// the decoded payloads are checked for decoding errors
	// final owner key
	const gf = "core/shared.(OwnershipVoucher).GetFinalOwnerPublicKey"
	g := c.P.fn(gf)
	if g == nil {
		c.missing(gf)
		return
	}
	gl := Fld("OwnershipVoucher.OVEntryArray", paramOf(gf, 0))
	last := func(a *Analyzer, t *Term) bool {
		if t.Op != "index" || !a.is(t.Args[0], gl) {
			return false
		}
		i := t.Args[1]
		return i.Op == "bin" && i.Name == "-" && i.Args[0].Op == "call" && i.Args[0].Name == "len" && a.is(i.Args[0].Args[0], gl) && i.Args[1].Op == "const" && i.Args[1].Name == "1"
	}
	var rt *Term
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 2 {
			if !errNonNil(r.Results[1]) {
				rt = c.A.at(r.Results[0], r)
				c.prov("final-key", "returned key", r.Pos(), rt, Fld("OVEntryPayload.OVEPubKey", Out("OVEntryPayload", Fld("CoseSignature.Payload", last))), "the key in the last entry")
			}
		}
	}
	lenGL := func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "len" && a.is(t.Args[0], gl) }
	c.summaryHas("final-key", g, 1, "nil", []Req{
		{Name: "entries non-empty", Or: []Req{{Kind: "ne", A: lenGL, B: K("0")}, {Kind: "lt", A: K("0"), B: lenGL}, {Kind: "le", A: K("1"), B: lenGL}}},
		{Name: "last entry decodes", Kind: "nil", A: Res("core/shared.(CBOR_CUSTOM_TAGS).Unmarshal", 0, nil, Fld("CoseSignature.Payload", last))},
	})
	c.min("final-key", 3)
	c.min("entry-operands", 2)
}

// errNonNil: the value is a freshly made error.
func errNonNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		n, _ := calleeName(x.Common())
		return definitelyNonNil(n)
	case *ssa.MakeInterface:
		return true
	}
	return false
}

func phiBoth(x, y M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "phi" {
			return false
		}
		nx, ny := 0, 0
		for _, e := range t.Args {
			switch {
			case a.is(e, x):
				nx++
			case a.is(e, y):
				ny++
			default:
				return false
			}
		}
		return nx > 0 && ny > 0
	}
}

// isHdrConcat: header bytes followed by the encoding of the HMAC.
func isHdrConcat(a *Analyzer, t *Term, ms []M) bool {
	parts := flatConcat(a, t, 0)
	if len(parts) != 2 {
		return false
	}
	if ms == nil {
		return a.is(parts[1], Marshal(func(a *Analyzer, t *Term) bool { return t.T != nil && typeBaseOf(t.T) == "HashOrHmac" })) && parts[0].Op != "call"
	}
	return a.is(parts[0], ms[0]) && a.is(parts[1], Marshal(ms[1]))
}
