package main

import (
	"strings"
)

var (
	reqBody = Has(Fld("Request.Body", nil))
	bearer  = Res("core/shared.ExtractAuthorizationHeader", 1)
)

func sessEntry(pkg string) M {
	return Res(pkg+".(SessionDB).GetSessionEntry", 0, nil, bearer)
}

func c01tags() []Tag {
	return []Tag{{Name: "addr", Alts: []Req{
		{Kind: "nonnil", A: Fld("RVTO2AddrEntry.RVDNS", nil)},
		{Kind: "nonnil", A: Fld("RVTO2AddrEntry.RVIP", nil)},
	}}}
}

func init() {
	reg("C01", "must-facts at every call that stores a registration and at every success answer of the handler of message 22; the store is called from nowhere else; the TO0 session nonce is fresh and the one sent.", c01)
	reg("C02", "provenance of the stored key, value and lifetime, of the answered wait time, and of the record a lookup returns.", c02)
	reg("C03", "must-facts at every success answer of the handlers of messages 30 and 32, provenance of the redirect and of the session content.", c03)
}

func ownerSignTerms() (os, to0d, to1d, pl, ov M) {
	os = Out("OwnerSign22", reqBody)
	to0d = Out("To0d", Fld("OwnerSign22.To0d", os))
	to1d = Fld("OwnerSign22.To1d", os)
	pl = Out("To1dBlobPayload", Fld("CoseSignature.Payload", to1d))
	ov = Fld("To0d.OwnershipVoucher", to0d)
	return
}

// to0Reqs: what TO0.OwnerSign must have established.
func to0Reqs() []Req {
	sess := sessEntry("core/rv")
	os, to0d, to1d, pl, ov := ownerSignTerms()
	key := Res("core/shared.(OwnershipVoucher).GetFinalOwnerPublicKey", 0, ov)
	return []Req{
		{Name: "session exists", Kind: "nil", A: Res("core/rv.(SessionDB).GetSessionEntry", 1, nil, bearer)},
		{Name: "session is a TO0 session", Kind: "eq", A: Fld("SessionEntry.Protocol", sess), B: K("0")},
		{Name: "nonce of to0d equals session nonce", Kind: "eq", A: Fld("To0d.NonceTO0Sign", to0d), B: Fld("SessionEntry.NonceTO0Sign", sess)},
		{Name: "voucher validated", Kind: "nil", A: Res("core/shared.(OwnershipVoucher).Validate", 0, ov)},
		{Name: "final owner key obtained", Kind: "nil", A: Res("core/shared.(OwnershipVoucher).GetFinalOwnerPublicKey", 1, ov)},
		{Name: "to1d signature verified under final owner key", Kind: "nil", A: Res("core/shared.VerifyCoseSignature", 0, to1d, key)},
		{Name: "to0d hash matches to1d", Kind: "nil", A: Res("core/shared.VerifyHash", 0, Fld("OwnerSign22.To0d", os), Fld("To1dBlobPayload.To1dTo0dHash", pl))},
	}
}

func c01(c *Ctx) {
	c.A.tags = c01tags()
	h := c.handler(22)
	h20 := c.handler(20)
	if h == nil || h20 == nil {
		return
	}
	_, _, _, pl, _ := ownerSignTerms()
	reqs := to0Reqs()
	effs := c.callsTo(h, "core/rv.(OwnerSignDB).Save")
	if len(effs) == 0 {
		c.missing("store of the registration in the handler of message 22")
	}
	sa := c.successAnswers(h)
	if len(sa) == 0 {
		c.missing("success answer of message 22")
	}
	chk := func(name string, e *Effect) {
		c.guard("to0-guards", name, e, reqs)
		ok := c.allTag(e.Facts, "addr", Fld("To1dBlobPayload.To1dRV", pl))
		c.ob("to0-guards", name+": every address entry names DNS or IP", ok, e.Instr.Pos(), "every element of to1d's address list passed the DNS/IP test on every path to this point: %v", ok)
	}
	for _, e := range effs {
		chk("store", e)
	}
	for _, e := range sa {
		chk("success answer", e)
		c.guard("to0-guards", "success answer", e, []Req{{Name: "registration stored", Kind: "nil", A: Res("core/rv.(OwnerSignDB).Save", 0)}})
	}
	c.onlyCallers("store-callers", "core/rv.(OwnerSignDB).Save", handlers(c, 22))
	// session creation in message 20
	ns := c.callsTo(h20, "core/rv.(SessionDB).NewSessionEntry")
	if len(ns) == 0 {
		c.missing("session creation in the handler of message 20")
	}
	for _, e := range ns {
		s := e.Args[1]
		c.prov("to0-session", "new session protocol", e.Instr.Pos(), fieldOf(s, "SessionEntry.Protocol"), Or(K("0"), isZeroM), "TO0")
		nonce := fieldOf(s, "SessionEntry.NonceTO0Sign")
		c.prov("to0-session", "new session nonce", e.Instr.Pos(), nonce, Res("core/shared.NewFdoNonce", 0), "a fresh nonce")
		for _, w := range c.answerBodies(h20) {
			c.prov("to0-session", "nonce sent to the owner", w.Instr.Pos(), w.Args[1], Marshal(Val("HelloAck21.NonceTO0Sign", Same(nonce))), "the encoded message 21 carrying the session's nonce")
		}
	}
	c.min("to0-guards", 17)
	c.min("to0-session", 3)
	c.min("store-callers", 1)
}

// allTag: the named per-element test was passed for every element of a list matching r.
func (c *Ctx) allTag(fs *FactSet, tag string, r M) bool {
	for _, f := range fs.list() {
		if f.Kind == "all:tag:"+tag && c.A.is(f.R, r) {
			return true
		}
	}
	return false
}

func c02(c *Ctx) {
	h := c.handler(22)
	if h == nil {
		return
	}
	os, to0d, _, _, ov := ownerSignTerms()
	hdr := Or(Res("core/shared.(OwnershipVoucher).GetOVHeader", 0, ov), Out("OwnershipVoucherHeader", Fld("OwnershipVoucher.OVHeaderTag", ov)))
	want := Fld("To0d.WaitSeconds", to0d)
	maxv, ok := c.P.constVal("core/rv", "ServerWaitSeconds")
	if !ok {
		c.missing("core/rv.ServerWaitSeconds")
		return
	}
	effs := c.callsTo(h, "core/rv.(OwnerSignDB).Save")
	var ttlTerm *Term
	for _, e := range effs {
		c.prov("stored-key", "GUID", e.Instr.Pos(), e.Args[1], Fld("OwnershipVoucherHeader.OVGuid", hdr), "the GUID of the verified voucher header")
		c.prov("stored-value", "registration", e.Instr.Pos(), e.Args[2], os, "the decoded request")
		ttlTerm = e.Args[3]
		okm := c.minOf(callArg(e, 3), e.Instr, e.tr, want, K(maxv), 0)
		c.ob("wait-time", "stored lifetime is the lesser of request and maximum", okm, e.Instr.Pos(), "lifetime argument: %s; server maximum %s s", trunc(e.Args[3].String()), maxv)
	}
	if ttlTerm == nil {
		c.missing("store of the registration in the handler of message 22")
		return
	}
	ab := c.answerBodies(h)
	if len(ab) == 0 {
		c.missing("answer of message 22")
	}
	for _, w := range ab {
		c.prov("wait-time", "answered wait time", w.Instr.Pos(), w.Args[1], Marshal(Val("AcceptOwner23.WaitSeconds", Same(ttlTerm))), "the encoded message 23 with the stored lifetime")
	}
	// storage layer
	save := c.P.fn("core/rv.(OwnerSignDB).Save")
	get := c.P.fn("core/rv.(OwnerSignDB).Get")
	if save == nil || get == nil {
		c.missing("core/rv OwnerSignDB Save/Get")
		return
	}
	pkey := func(f string, i int) M {
		return func(a *Analyzer, t *Term) bool {
			return t.Op == "param" && t.Idx == i && strings.HasPrefix(t.Name, f+":")
		}
	}
	skey := "core/rv.(OwnerSignDB).Save"
	gkey := "core/rv.(OwnerSignDB).Get"
	var prefix string
	for _, e := range c.callsTo(save, "github.com/dgraph-io/badger/v4.(Txn).SetEntry", "github.com/dgraph-io/badger/v4.(Txn).Set") {
		ent := c.badgerEntry(e)
		p := keyPrefix(c.A, ent.Key, pkey(skey, 1))
		c.ob("stored-key", "record key is prefix + GUID", p != "", e.Instr.Pos(), "key %s", trunc(ent.Key.String()))
		prefix = p
		c.prov("stored-value", "record value", e.Instr.Pos(), ent.Val, Marshal(pkey(skey, 2)), "the encoded registration")
		okT := ent.TTL != nil && c.A.is(ent.TTL, func(a *Analyzer, t *Term) bool {
			return t.Op == "bin" && t.Name == "*" && len(t.Args) == 2 && (K("1000000000")(a, t.Args[0]) && a.is(t.Args[1], pkey(skey, 3)) || K("1000000000")(a, t.Args[1]) && a.is(t.Args[0], pkey(skey, 3)))
		})
		c.ob("stored-ttl", "record lifetime is the given number of seconds", okT, e.Instr.Pos(), "TTL %v", ent.TTL)
	}
	c.min("stored-ttl", 1)
	gets := c.callsTo(get, "github.com/dgraph-io/badger/v4.(Txn).Get")
	for _, e := range gets {
		p := keyPrefix(c.A, e.Args[1], pkey(gkey, 1))
		c.ob("lookup-key", "lookup key is the same prefix + GUID", p != "" && p == prefix, e.Instr.Pos(), "key %s, stored under prefix %q", trunc(e.Args[1].String()), prefix)
	}
	c.min("lookup-key", 1)
	c.prov("lookup-value", "returned record", get.Pos(), c.nonNilResult(get, 0), Out("OwnerSign22", Has(Res("github.com/dgraph-io/badger/v4.(Txn).Get", 0))), "the record decoded from the stored bytes")
	c.summaryHas("lookup-value", get, 1, "nil", []Req{
		{Name: "record found", Kind: "nil", A: Res("github.com/dgraph-io/badger/v4.(Txn).Get", 1)},
		{Name: "record decoded", Kind: "nil", A: CallAny(".Unmarshal")},
	})
}

// to1Reqs: what TO1.ProveToRV must have established, and the registration it answers with.
func to1Reqs() ([]Req, M) {
	sess := sessEntry("core/rv")
	tok := Out("CoseSignature", reqBody)
	pl := Out("EATPayloadBase", Fld("CoseSignature.Payload", tok))
	reg := Res("core/rv.(OwnerSignDB).Get", 0, nil, Fld("SessionEntry.Guid", sess))
	to0d := Out("To0d", Fld("OwnerSign22.To0d", reg))
	chain := Fld("OwnershipVoucher.OVDevCertChain", Fld("To0d.OwnershipVoucher", to0d))
	isLookup := func(a *Analyzer, t *Term) bool {
		return (t.Op == "lookup") && len(t.Args) == 2 && Fld("SigInfo.SgType", Fld("SessionEntry.EASigInfo", sess))(a, t.Args[1]) && t.Args[0].Op == "global" && t.Args[0].Name == "core/shared.SgTypeToFdoPkType"
	}
	reqs := []Req{
		{Name: "session exists", Kind: "nil", A: Res("core/rv.(SessionDB).GetSessionEntry", 1, nil, bearer)},
		{Name: "session is a TO1 session", Kind: "eq", A: Fld("SessionEntry.Protocol", sess), B: K("1")},
		{Name: "token nonce equals session nonce", Kind: "eq", A: Fld("EATPayloadBase.EatNonce", pl), B: Fld("SessionEntry.NonceTO1Proof", sess)},
		{Name: "registration of the session's GUID found", Kind: "nil", A: Res("core/rv.(OwnerSignDB).Get", 1, nil, Fld("SessionEntry.Guid", sess))},
		{Name: "token signature verified under the registered voucher's device chain", Kind: "nil", A: Res("core/shared.VerifyCoseSignatureWithCertificate", 0, tok, isLookup, chain)},
	}
	return reqs, reg
}

func c03(c *Ctx) {
	h30, h32 := c.handler(30), c.handler(32)
	if h30 == nil || h32 == nil {
		return
	}
	reqs, reg := to1Reqs()
	sa := c.successAnswers(h32)
	if len(sa) == 0 {
		c.missing("success answer of message 32")
	}
	for _, e := range sa {
		c.guard("to1-guards", "redirect answer", e, reqs)
	}
	for _, w := range c.answerBodies(h32) {
		ok := Marshal(Fld("OwnerSign22.To1d", reg))
		c.corruptible("redirect-content", "redirect sent", w, 1, ok, "the to1d registered for the session's GUID")
	}
	sa = c.successAnswers(h30)
	if len(sa) == 0 {
		c.missing("success answer of message 30")
	}
	hello := Out("HelloRV30", reqBody)
	ns := c.callsTo(h30, "core/rv.(SessionDB).NewSessionEntry")
	if len(ns) == 0 {
		c.missing("session creation in the handler of message 30")
	}
	found := Req{Name: "registration for the GUID exists", Kind: "nil", A: Res("core/rv.(OwnerSignDB).Get", 1, nil, Fld("HelloRV30.Guid", hello))}
	for _, e := range ns {
		c.guard("to1-hello", "session creation", e, []Req{found})
		s := e.Args[1]
		nonce := fieldOf(s, "SessionEntry.NonceTO1Proof")
		c.prov("to1-session", "protocol", e.Instr.Pos(), fieldOf(s, "SessionEntry.Protocol"), K("1"), "TO1")
		c.prov("to1-session", "nonce", e.Instr.Pos(), nonce, Res("core/shared.NewFdoNonce", 0), "a fresh nonce")
		c.prov("to1-session", "GUID", e.Instr.Pos(), fieldOf(s, "SessionEntry.Guid"), Fld("HelloRV30.Guid", hello), "the requested GUID")
		c.prov("to1-session", "signature info", e.Instr.Pos(), fieldOf(s, "SessionEntry.EASigInfo"), Fld("HelloRV30.EASigInfo", hello), "the requested signature info")
		for _, w := range c.answerBodies(h30) {
			c.corruptible("to1-session", "nonce sent to the device", w, 1, Marshal(Val("HelloRVAck31.NonceTO1Proof", Same(nonce))), "message 31 carrying the session's nonce")
		}
	}
	for _, e := range sa {
		c.guard("to1-hello", "answer 31", e, []Req{found, {Name: "session stored", Kind: "nil", A: Res("core/rv.(SessionDB).NewSessionEntry", 1)}})
	}
	c.min("to1-guards", 5)
	c.min("to1-session", 5)
	c.min("to1-hello", 3)
	c.min("redirect-content", 1)
}
