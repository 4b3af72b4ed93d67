package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C11", "must-facts on every accepting return of the device's message-60 step (signature, nonce, signature info, hello hash, header HMAC), and provenance of every requestor field that later steps use.", c11)
	reg("C12", "must-facts on every accepting return of the device's message-64 and message-70 steps; provenance of the nonces and keys they send, remember and compare.", c12)
	reg("C13", "must-facts at every call of the device's message-64 step, from every root: all entries fetched under the requested number, the chain verified, the last entry's key equal to the key of message 61.", c13)
}

const (
	sendPost = "core/shared.SendCborPost"
	kMarshal = "core/shared.(CBOR_CUSTOM_TAGS).Marshal"
)

// step: the device-side function sending the message.
func (c *Ctx) step(msg int) *ssa.Function {
	for _, f := range c.deviceSteps() {
		for _, e := range c.callsTo(f, sendPost) {
			if constMsg(e.Args[1]) == msg {
				return f
			}
		}
	}
	c.missing("device step sending message " + itoa(msg))
	return nil
}

func respOf(msg int) M { return Res(sendPost, 0, nil, K(itoa(msg))) }

// errNil: some error result of the callee was found nil for matching arguments.
func errNil(name, key string, idx int, args ...M) Req {
	return Req{Name: name, Kind: "nil", A: Res(key, idx, args...)}
}

// fieldStores: every store to a field of the named struct reachable from f, as effects.
func (c *Ctx) fieldStores(f *ssa.Function, owner, field string) []*Effect {
	return c.A.effects(f, func(in ssa.Instruction) bool { return isFieldStore(in, owner, field) }, nil)
}

func isFieldStore(in ssa.Instruction, owner, field string) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	return ok && typeBase(deref(fa.X.Type())) == owner && fieldName(deref(fa.X.Type()), fa.Field) == owner+"."+field
}

// onlyStoredBy: no function outside the closure of f stores the field (composite literals with the zero value aside).
func (c *Ctx) onlyStoredBy(rule, owner, field string, f *ssa.Function) {
	reach := map[*ssa.Function]bool{}
	var dfs func(g *ssa.Function)
	dfs = func(g *ssa.Function) {
		if reach[g] {
			return
		}
		reach[g] = true
		for _, x := range callees(g) {
			if inRepo(x) {
				dfs(x)
			}
		}
	}
	dfs(f)
	c.eachInstr(func(g *ssa.Function, in ssa.Instruction) {
		if !isFieldStore(in, owner, field) || reach[g] {
			return
		}
		st := in.(*ssa.Store)
		if isZeroM(c.A, c.A.at(st.Val, in)) {
			return
		}
		c.ob(rule, owner+"."+field+" written in "+fnShort(g), false, in.Pos(), "only %s may set it", fnShort(f))
	})
}

func storeVal(c *Ctx, e *Effect) *Term {
	st := e.Instr.(*ssa.Store)
	return e.tr(c.A.at(st.Val, st))
}

func c11(c *Ctx) {
	f := c.step(60)
	if f == nil {
		return
	}
	h := paramOf(fnKey(f), 0)
	r61 := respOf(60)
	msg := Out("CoseSignature", r61)
	unp := Fld("CoseSignature.Unprotected", msg)
	key := Fld("UnprotectedHeader.CUPHOwnerPubKey", unp)
	nonce := Fld("UnprotectedHeader.CUPHNonce", unp)
	pay := Out("TO2ProveOVHdrPayload", Fld("CoseSignature.Payload", msg))
	cred := Fld("To2Requestor.Credential", h)
	sig := Fld("WawDeviceCredential.DCSigInfo", cred)
	var sent *Term
	for _, e := range c.callsTo(f, sendPost) {
		sent = e.Args[2]
		hello := fieldsM("HelloDevice60", map[string]M{
			"Guid":            Fld("WawDeviceCredential.DCGuid", cred),
			"NonceTO2ProveOV": Res("core/shared.NewFdoNonce", 0),
			"KexSuiteName":    Fld("To2Requestor.KexSuiteName", h),
			"CipherSuiteName": Fld("To2Requestor.CipherSuiteName", h),
			"EASigInfo":       sig,
		})
		c.prov("hello", "message 60 sent", e.Instr.Pos(), sent, Marshal(hello), "the device's identity, a fresh nonce and its own parameters")
	}
	if sent == nil {
		c.missing("sending of message 60")
		return
	}
	var fresh *Term
	if hx := untest(sent); hx != nil {
		for _, x := range alts(hx) {
			if x.Op == "call" && x.Name == kMarshal && len(x.Args) > 1 {
				fresh = fieldOf(x.Args[1], "HelloDevice60.NonceTO2ProveOV")
			}
		}
	}
	if fresh == nil {
		c.missing("nonce of message 60")
		return
	}
	sigEq := func(fld string) Req {
		return Req{Kind: "eq", A: Fld("SigInfo."+fld, Fld("TO2ProveOVHdrPayload.EBSigInfo", pay)), B: Fld("SigInfo."+fld, sig)}
	}
	hash := Fld("TO2ProveOVHdrPayload.HelloDeviceHash", pay)
	mac := Fld("TO2ProveOVHdrPayload.HMac", pay)
	c.summaryHas("accept-61", f, 0, "true", []Req{
		errNil("answer received", sendPost, 3, nil, K("60")),
		errNil("answer decoded", "core/shared.(CBOR_CUSTOM_TAGS).Unmarshal", 0, nil, r61),
		{Name: "owner key present", Kind: "nonnil", A: key},
		{Name: "nonce for message 64 present", Kind: "nonnil", A: nonce},
		errNil("signature verified under the carried owner key", "core/shared.VerifyCoseSignature", 0, msg, key),
		{Name: "echoed nonce equals the one sent", Kind: "eq", A: Fld("TO2ProveOVHdrPayload.NonceTO2ProveOV", pay), B: Same(fresh)},
		func() Req { r := sigEq("SgType"); r.Name = "signature type matches the device's"; return r }(),
		func() Req { r := sigEq("Info"); r.Name = "signature info matches the device's"; return r }(),
		errNil("header HMAC verified with the device secret", "core/shared.VerifyHMac", 0, Fld("TO2ProveOVHdrPayload.OVHeader", pay), mac, Fld("WawDeviceCredential.DCHmacSecret", cred)),
		errNil("hello hash matches the bytes sent", "core/shared.VerifyHash", 0, Same(sent), hash),
	})
	// an accepting return is a nil-error return
	c.prov("accept-61", "accepted payload", f.Pos(), c.nonNilResult(f, 0), pay, "the payload under the verified signature")
	for fld, m := range map[string]struct {
		m    M
		what string
	}{
		"ProveOVHdr61PubKey": {key, "the key whose signature is verified"},
		"NonceTO2ProveDv61":  {nonce, "the nonce of message 61"},
		"XAKex":              {Fld("TO2ProveOVHdrPayload.XAKeyExchange", pay), "the owner's contribution"},
		"OvHmac":             {mac, "the verified HMAC"},
		"NonceTO2ProveOV60":  {Same(fresh), "the nonce sent"},
	} {
		n := 0
		for _, e := range c.fieldStores(f, "To2Requestor", fld) {
			n++
			c.prov("remember", "To2Requestor."+fld, e.Instr.Pos(), storeVal(c, e), m.m, m.what)
		}
		if n == 0 && fld != "NonceTO2ProveOV60" && fld != "OvHmac" {
			c.missing("store of To2Requestor." + fld)
		}
		c.onlyStoredBy("remember", "To2Requestor", fld, f)
	}
	c.min("accept-61", 10)
	c.min("remember", 3)
	c.min("hello", 1)
}

func c12(c *Ctx) {
	f, g := c.step(64), c.step(70)
	if f == nil || g == nil {
		return
	}
	h := paramOf(fnKey(f), 0)
	cred := Fld("To2Requestor.Credential", h)
	const derive, gen = "core/shared.DeriveSessionKey", "core/shared.GenerateXABKeyExchange"
	own := Res(gen, 0)
	key := Res(derive, 0)
	r65 := respOf(64)
	body := Res("core/shared.RemoveEncryptionWrapping", 0, r65, key, Fld("To2Requestor.CipherSuiteName", h))
	setup := Out("CoseSignature", body)
	pay := Out("TO2SetupDevicePayload", Fld("CoseSignature.Payload", setup))
	// what is sent
	const gcs = "core/shared.GenerateCoseSignature"
	var nonce *Term
	for _, e := range c.callsTo(f, gcs) {
		nonce = fieldOf(e.Args[2], "UnprotectedHeader.EUPHNonce")
		c.prov("token", "setup nonce sent", e.Instr.Pos(), nonce, Res("core/shared.NewFdoNonce", 0), "a fresh nonce")
		c.prov("token", "signed payload", e.Instr.Pos(), e.Args[0], Marshal(fieldsM("EATPayloadBase", map[string]M{
			"EatNonce": Fld("To2Requestor.NonceTO2ProveDv61", h),
			"EatFDO":   Val("TO2ProveDevicePayload.XBKeyExchange", Fld("KeXParams.XAKeyExchange", own)),
			"EatUEID":  Res("core/shared.GenerateEatGuid", 0, Fld("WawDeviceCredential.DCGuid", cred)),
		})), "the nonce of message 61, the device's contribution and its GUID")
		c.prov("token", "signing key", e.Instr.Pos(), e.Args[3], Res("core/shared.ExtractPrivateKey", 0, Fld("WawDeviceCredential.DCPrivateKeyDer", cred)), "the device's key")
	}
	if nonce == nil {
		c.missing("signing of the device's token")
		return
	}
	for _, e := range c.callsTo(f, sendPost) {
		c.prov("token", "message 64 sent", e.Instr.Pos(), e.Args[2], Marshal(tokenM(gcs)), "the signed token")
	}
	sig := Fld("TO2SetupDevicePayload.ReplacementOwner2Key", pay)
	c.summaryHas("accept-65", f, 0, "true", []Req{
		errNil("answer received", sendPost, 3, nil, K("64")),
		errNil("session key derived", derive, 1),
		errNil("decrypted with the derived session key", "core/shared.RemoveEncryptionWrapping", 1, r65, key, Fld("To2Requestor.CipherSuiteName", h)),
		errNil("decoded", "core/shared.(CBOR_CUSTOM_TAGS).Unmarshal", 0, nil, body),
		errNil("signature verified under the owner key it names", "core/shared.VerifyCoseSignature", 0, setup, sig),
		{Name: "setup nonce equals the one sent", Kind: "eq", A: Fld("TO2SetupDevicePayload.NonceTO2SetupDv", pay), B: Same(nonce)},
	})
	c.prov("accept-65", "accepted payload", f.Pos(), c.nonNilResult(f, 0), pay, "the payload under the verified signature")
	for _, e := range c.fieldStores(f, "To2Requestor", "NonceTO2SetupDv64") {
		c.prov("remember", "setup nonce", e.Instr.Pos(), storeVal(c, e), Same(nonce), "the nonce sent")
	}
	for _, e := range c.fieldStores(f, "To2Requestor", "SessionKey") {
		c.prov("remember", "session key", e.Instr.Pos(), storeVal(c, e), key, "the derived key")
	}
	c.onlyStoredBy("remember", "To2Requestor", "NonceTO2SetupDv64", f)
	c.onlyStoredBy("remember", "To2Requestor", "SessionKey", f)
	// 70
	h = paramOf(fnKey(g), 0)
	r71 := respOf(70)
	k71, s71 := Fld("To2Requestor.SessionKey", h), Fld("To2Requestor.CipherSuiteName", h)
	body = Res("core/shared.RemoveEncryptionWrapping", 0, r71, k71, s71)
	done := Out("Done271", body)
	c.summaryHas("accept-71", g, 0, "true", []Req{
		errNil("answer received", sendPost, 3, nil, K("70")),
		errNil("decrypted with the session key", "core/shared.RemoveEncryptionWrapping", 1, r71, k71, s71),
		{Name: "decoded", Or: []Req{
			{Kind: "nil", A: Res("core/shared.(CBOR_CUSTOM_TAGS).Unmarshal", 0, nil, body)},
			{Kind: "nil", A: Res("core/shared.TryCborUnmarshal", 1, body)}}},
		{Name: "setup nonce echoed", Kind: "eq", A: Fld("Done271.NonceTO2SetupDv", done), B: Fld("To2Requestor.NonceTO2SetupDv64", h)},
	})
	c.prov("accept-71", "accepted message", g.Pos(), c.nonNilResult(g, 0), done, "the decrypted message 71")
	for _, e := range c.callsTo(g, "core/shared.AddEncryptionWrapping") {
		c.prov("done", "message 70", e.Instr.Pos(), e.Args[0], Marshal(Val("Done70.NonceTO2ProveDv", Fld("To2Requestor.NonceTO2ProveDv61", h))), "the nonce of message 61")
	}
	c.min("token", 4)
	c.min("accept-65", 7)
	c.min("accept-71", 5)
	c.min("remember", 2)
	c.min("done", 1)
}

// tokenM: the result of a signing call, or that result with its signature replaced by a negative test.
func tokenM(gcs string) M {
	base := Res(gcs, 0)
	return func(a *Analyzer, t *Term) bool {
		if base(a, t) {
			return true
		}
		if t.Op == "lit" && t.Name != "array" {
			for _, fld := range []string{"Protected", "Unprotected", "Payload", "Signature"} {
				if !a.is(projField(t, "CoseSignature."+fld, nil), Fld("CoseSignature."+fld, base)) {
					return false
				}
			}
			return true
		}
		return false
	}
}

// roots: functions of the module from which key is reachable and which nothing in the module calls statically.
func (c *Ctx) roots(key string) []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						called[unwrapBound(g)] = true
					}
				}
			}
		}
	}
	reach := map[*ssa.Function]int{}
	var dfs func(f *ssa.Function) bool
	dfs = func(f *ssa.Function) bool {
		if v, ok := reach[f]; ok {
			return v == 1
		}
		reach[f] = 0
		r := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if calleeIs(in, key) {
					r = true
				}
			}
		}
		for _, g := range callees(f) {
			if inRepo(g) && dfs(g) {
				r = true
			}
		}
		if r {
			reach[f] = 1
		}
		return r
	}
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if !called[f] && dfs(f) {
			out = append(out, f)
		}
	}
	return out
}

func c13(c *Ctx) {
	s64, s60, s62 := c.step(64), c.step(60), c.step(62)
	if s64 == nil || s60 == nil || s62 == nil {
		return
	}
	k60, k62 := fnKey(s60), fnKey(s62)
	pay := Res(k60, 0)
	hdr, mac := Fld("TO2ProveOVHdrPayload.OVHeader", pay), Fld("TO2ProveOVHdrPayload.HMac", pay)
	entry := Fld("OVNextEntry63.OVEntry", Res(k62, 0))
	list := concatAll(Or(entry, func(a *Analyzer, t *Term) bool {
		return t.Op == "lit" && t.Name == "array" && len(t.Args) == 1 && a.is(t.Args[0].Args[0], entry)
	}))
	last := func(a *Analyzer, t *Term) bool {
		if t.Op != "index" || !a.is(t.Args[0], list) {
			return false
		}
		i := t.Args[1]
		return i.Op == "bin" && i.Name == "-" && isConstTerm(i.Args[1], "1") && i.Args[0].Op == "call" && i.Args[0].Name == "len" && a.is(i.Args[0].Args[0], list)
	}
	pk := Res("core/shared.(CoseSignature).GetOVEntryPubKey", 0, last)
	var key61 M = func(a *Analyzer, t *Term) bool {
		return t.Op == "field" && t.Name == "To2Requestor.ProveOVHdr61PubKey" || Fld("UnprotectedHeader.CUPHOwnerPubKey", nil)(a, t)
	}
	sites := map[ssa.Instruction]bool{}
	for _, r := range c.roots(fnKey(s64)) {
		for _, e := range c.callsTo(r, fnKey(s64)) {
			sites[e.Instr] = true
			c.guard("before-64", "message 64 from "+fnShort(r), e, []Req{
				errNil("message 61 accepted", k60, 2),
				errNil("entry chain verified against header and HMAC of message 61", "core/shared.(OVEntryArray).VerifyEntries", 0, list, hdr, mac),
				{Name: "last entry's key equals the key of message 61", Or: []Req{
					{Kind: "nil", A: Res("core/shared.(FdoPublicKey).Equal", 0, key61, pk)},
					{Kind: "nil", A: Res("core/shared.(FdoPublicKey).Equal", 0, pk, key61)}}},
			})
		}
	}
	for _, ci := range c.allCallSites(fnKey(s64)) {
		if !sites[ci] {
			c.ob("before-64", "message 64 in "+fnShort(ci.Parent()), false, ci.Pos(), "call site not reached from any analysed root")
		}
	}
	// the fetch loops: in every function that collects entries
	for _, ci := range c.allCallSites(k62) {
		if l := c.collects(ci.Parent(), ci); l != nil {
			c.fetchLoop(ci.Parent(), ci, l, pay, k62)
		}
	}
	c.min("before-64", 12)
	c.min("fetch", 12)
}

// innermost loop around an instruction.
func innerLoop(f *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	var best *loopInfo
	for _, l := range loopsOf(f) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			x := l
			best = &x
		}
	}
	return best
}

// collects: the innermost loop around the fetch carries a list of entries.
func (c *Ctx) collects(f *ssa.Function, ci ssa.CallInstruction) *loopInfo {
	l := innerLoop(f, ci.Block())
	if l == nil {
		return nil
	}
	list := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && typeBase(s.Elem()) == "CoseSignature"
	}
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok && list(phi.Type()) {
			return l
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && list(st.Val.Type()) {
				return l
			}
		}
	}
	return nil
}

const verifyEntries = "core/shared.(OVEntryArray).VerifyEntries"

// reachesCall: can control starting at b run into a call of key (directly or in a callee) before the function ends?
func (c *Ctx) reachesCall(b *ssa.BasicBlock, key string) bool {
	rs := c.A.reachSet("calls:"+key, func(in ssa.Instruction) bool { return calleeIs(in, key) })
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock) bool
	w = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if calleeIs(in, key) {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && rs[g] {
					return true
				}
			}
		}
		for _, s := range b.Succs {
			if w(s) {
				return true
			}
		}
		return false
	}
	return w(b)
}

// forCallers: t, a term of f, is m, or is once the arguments of every call are put in for f's parameters.
func (c *Ctx) forCallers(f *ssa.Function, t *Term, m M) bool {
	if c.A.is(t, m) {
		return true
	}
	if !c.A.isHelper(f) {
		return false
	}
	sites := c.allCallSites(fnKey(f))
	for _, ci := range sites {
		var args []*Term
		for _, x := range ci.Common().Args {
			args = append(args, c.A.at(x, ci))
		}
		u := subst(t, f, args)
		if u.Key() == t.Key() || !c.forCallers(ci.Parent(), u, m) {
			return false
		}
	}
	return len(sites) > 0
}

// returnsOK: control at b can reach a return that does not report an error.
func (a *Analyzer) returnsOK(b *ssa.BasicBlock) bool {
	k := errResult(b.Parent())
	for x := range blocksFrom(b) {
		r, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
		if ok && (k < 0 || !errorExit(x)) && !(k >= 0 && a.factsAt(b.Parent(), r) != nil && a.factsAt(b.Parent(), r).m[mkFact("nonnil", a.at(r.Results[k], r), nil).Key()] != nil) {
			return true
		}
	}
	return false
}

func blocksFrom(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return seen
}

func (c *Ctx) fetchLoop(f *ssa.Function, ci ssa.CallInstruction, l *loopInfo, pay M, k62 string) {
	a := c.A
	name := fnKey(f)
	num := a.at(ci.Common().Args[1], ci)
	cnt := Fld("TO2ProveOVHdrPayload.NumOVEntries", pay)
	c.ob("fetch", name+": number asked for", num.Op == "idx", ci.Pos(), "the loop's counter, from 0 in steps of 1: %s", trunc(num.String()))
	okb := false
	for _, s := range l.header.Succs {
		if l.body[s] {
			continue
		}
		fs := a.edgeFacts(a.funcFacts(f), l.header, s)
		if fs == nil {
			continue
		}
		for _, x := range fs.list() {
			switch {
			case x.Kind == "le" && x.B.Op == "idx", x.Kind == "eq" && x.B.Op == "idx":
				okb = okb || c.forCallers(f, x.A, cnt)
			case x.Kind == "eq" && x.A.Op == "idx":
				okb = okb || c.forCallers(f, x.B, cnt)
			}
		}
		if t := a.loopRange(l.header); t != nil && c.forCallers(f, t, cnt) {
			okb = true
		}
	}
	c.ob("fetch", name+": all entries are fetched", okb, ci.Pos(), "the loop must run until its counter reaches the number of entries of message 61")
	// early exits do not go on to the verification of the chain
	early := false
	for b := range l.body {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] && (c.reachesCall(s, verifyEntries) || a.isHelper(f) && a.returnsOK(s)) {
				early = true
			}
		}
	}
	c.ob("fetch", name+": the loop is not left early", !early, ci.Pos(), "leaving the loop early must not go on to the verification of the entries collected so far")
	skip := false
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok || !carriesState(phi.Type()) {
			continue
		}
		for i, e := range phi.Edges {
			if l.header.Dominates(l.header.Preds[i]) {
				for _, leaf := range phiLeaves(e, *l) {
					skip = skip || leaf == ssa.Value(phi)
				}
			}
		}
	}
	c.ob("fetch", name+": no entry is left out", !skip, ci.Pos(), "every iteration appends the fetched entry")
	ok, seen := true, 0
	for _, p := range l.header.Preds {
		if !l.header.Dominates(p) {
			continue
		}
		seen++
		fs := a.outFacts(a.funcFacts(f), p)
		if a.req(fs, Req{Kind: "eq", A: Fld("OVNextEntry63.OVEntryNum", Res(k62, 0)), B: Same(num)}) == nil || a.req(fs, Req{Kind: "nil", A: Res(k62, 2)}) == nil {
			ok = false
		}
	}
	c.ob("fetch", name+": number received equals number asked for", ok && seen > 0, ci.Pos(), "on every iteration, and the fetch succeeded")
}
