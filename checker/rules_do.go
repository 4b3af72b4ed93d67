package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C06", "must-facts at every success answer of the owner-service handlers: the session's last answered message was an allowed predecessor, and the session was durably advanced to this answer's number; served entry numbers are within the voucher's list.", c06)
	reg("C07", "must-facts at session-key derivation, session-key storage and the success answer of the handler of message 64; provenance of the setup data and of the remembered nonce.", c07)
	reg("C08", "must-facts at the success answer, run completion and interop event of the handler of message 70 and at the success answer of message 60; provenance of the new session's fields.", c08)
	reg("C09", "provenance of every body decoded from and every body written to the peer for messages 65 to 71, on the owner-service and on the device side.", c09)
}

var prevAllowed = map[int][]int{62: {61, 63}, 64: {63}, 66: {65}, 68: {67, 69}, 70: {69}}

const (
	doUpdate = "core/do/dbs.(SessionDB).UpdateSessionEntry"
	doNew    = "core/do/dbs.(SessionDB).NewSessionEntry"
)

func doSess() M { return sessEntry("core/do/dbs") }

// plainBody: the request body after decryption under the session's key.
func plainBody() M {
	return Res("core/shared.RemoveEncryptionWrapping", 0, reqBody, Fld("SessionEntry.SessionKey", doSess()), Fld("SessionEntry.CipherSuiteName", doSess()))
}

func aew(plain, key, suite M) M {
	return Res("core/shared.AddEncryptionWrapping", 0, plain, key, suite)
}

func c06(c *Ctx) {
	sess := doSess()
	for _, m := range []int{62, 64, 66, 68, 70} {
		var alts []Req
		for _, p := range prevAllowed[m] {
			alts = append(alts, Req{Kind: "eq", A: Fld("SessionEntry.PrevCMD", sess), B: K(strconv.Itoa(p))})
		}
		c.A.tags = append(c.A.tags, Tag{Name: "pred" + itoa(m), Alts: alts})
	}
	for _, m := range []int{60, 62, 64, 66, 68, 70} {
		h := c.handler(m)
		if h == nil {
			continue
		}
		sa := c.successAnswers(h)
		if len(sa) == 0 {
			c.missing("success answer of message " + itoa(m))
		}
		for _, e := range sa {
			if m != 60 {
				ok := hasTag(e.Facts, "pred"+itoa(m))
				c.ob("predecessor", "answer to "+itoa(m), ok, e.Instr.Pos(), "session's previous command must be one of %v on every path to this answer", prevAllowed[m])
				c.guard("session-found", "answer to "+itoa(m), e, []Req{{Name: "session exists", Kind: "nil", A: Res("core/do/dbs.(SessionDB).GetSessionEntry", 1, nil, bearer)}})
			}
			want := K(strconv.Itoa(m + 1))
			switch m {
			case 60:
				c.guard("advance", "answer to 60", e, []Req{{Name: "session stored with previous command 61", Kind: "nil", A: Res(doNew, 1, nil, Val("SessionEntry.PrevCMD", want))}})
			case 70:
			default:
				c.guard("advance", "answer to "+itoa(m), e, []Req{{Name: "session advanced to " + itoa(m+1), Kind: "nil", A: Res(doUpdate, 0, nil, bearer, Val("SessionEntry.PrevCMD", want))}})
			}
		}
		// no session write advances to another message's number
		for _, e := range c.callsTo(h, doUpdate) {
			c.prov("advance", "session update in handler of "+itoa(m)+": number", e.Instr.Pos(), fieldOf(e.Args[2], "SessionEntry.PrevCMD"), Or(K(strconv.Itoa(m+1)), Fld("SessionEntry.PrevCMD", sess)), "the number of this handler's answer")
			c.prov("advance", "session update in handler of "+itoa(m)+": record", e.Instr.Pos(), e.Args[1], bearer, "the presented session")
			if m != 60 && m != 70 {
				ok := hasTag(e.Facts, "pred"+itoa(m))
				c.ob("predecessor", "session update by "+itoa(m), ok, e.Instr.Pos(), "session's previous command must be one of %v on every path to this write", prevAllowed[m])
			}
		}
	}
	// bounds of the served entry
	if h := c.handler(62); h != nil {
		req := Out("GetOVNextEntry62", reqBody)
		num := Fld("GetOVNextEntry62.GetOVNextEntry", req)
		list := Fld("OwnershipVoucher.OVEntryArray", Fld("SessionEntry.Voucher", sess))
		lenL := func(a *Analyzer, t *Term) bool { return t.Op == "call" && t.Name == "len" && a.is(t.Args[0], list) }
		lenL1 := func(a *Analyzer, t *Term) bool {
			return t.Op == "bin" && t.Name == "-" && a.is(t.Args[0], lenL) && K("1")(a, t.Args[1])
		}
		n := Fld("SessionEntry.NumOVEntries", sess)
		effs := c.A.effects(h, func(in ssa.Instruction) bool {
			ia, ok := in.(*ssa.IndexAddr)
			return ok && isNamed(ia.X.Type(), "OVEntryArray")
		}, nil)
		if len(effs) == 0 {
			c.missing("use of the requested entry number in the handler of message 62")
		}
		for _, e := range effs {
			ia := e.Instr.(*ssa.IndexAddr)
			idx := e.tr(c.A.at(ia.Index, ia))
			if !c.A.is(e.tr(c.A.at(ia.X, ia)), list) {
				continue
			}
			c.prov("entry-bounds", "index served", ia.Pos(), idx, num, "the requested entry number")
			c.guard("entry-bounds", "entry served", e, []Req{{Name: "requested number is an existing entry", Or: []Req{
				{Kind: "lt", A: num, B: lenL}, {Kind: "le", A: num, B: lenL1}, {Kind: "lt", A: num, B: n}}}})
		}
		for _, w := range c.answerBodies(h) {
			ent := func(a *Analyzer, t *Term) bool {
				return t.Op == "index" && a.is(t.Args[0], list) && a.is(t.Args[1], num)
			}
			c.prov("entry-bounds", "entry answered", w.Instr.Pos(), w.Args[1], Marshal(Val("OVNextEntry63.OVEntry", ent)), "the requested entry of the session's voucher")
			c.prov("entry-bounds", "number answered", w.Instr.Pos(), w.Args[1], Marshal(Val("OVNextEntry63.OVEntryNum", num)), "the requested number")
		}
		c.min("entry-bounds", 4)
	}
	if h := c.handler(60); h != nil {
		for _, e := range c.callsTo(h, doNew) {
			v := fieldOf(e.Args[1], "SessionEntry.Voucher")
			ent := Fld("OwnershipVoucher.OVEntryArray", Same(v))
			c.prov("entry-bounds", "entry count remembered", e.Instr.Pos(), fieldOf(e.Args[1], "SessionEntry.NumOVEntries"), func(a *Analyzer, t *Term) bool {
				return t.Op == "call" && t.Name == "len" && a.is(t.Args[0], ent)
			}, "the length of the session voucher's entry list")
		}
	}
	c.min("predecessor", 9)
	c.min("advance", 5)
}

func hasTag(fs *FactSet, tag string) bool { _, ok := fs.m[tagFact(tag).Key()]; return ok }

func isNamed(t types.Type, name string) bool { return t != nil && typeBase(t) == name }

func c07(c *Ctx) {
	h := c.handler(64)
	if h == nil {
		return
	}
	sess := doSess()
	tok := Out("CoseSignature", reqBody)
	eat := Out("EATPayloadBase", Fld("CoseSignature.Payload", tok))
	vch := Fld("SessionEntry.Voucher", sess)
	isLookup := func(a *Analyzer, t *Term) bool {
		return t.Op == "lookup" && len(t.Args) == 2 && t.Args[0].Op == "global" && t.Args[0].Name == "core/shared.SgTypeToFdoPkType" && a.is(t.Args[1], Fld("SigInfo.SgType", Fld("SessionEntry.EASigInfo", sess)))
	}
	priv := Res("core/shared.ExtractPrivateKey", 0, Fld("SessionEntry.PrivateKeyDER", sess))
	dk := func(i int) M {
		return Res("core/shared.DeriveSessionKey", i, Fld("SessionEntry.XAKex", sess), Fld("TO2ProveDevicePayload.XBKeyExchange", Fld("EATPayloadBase.EatFDO", eat)), K("false"), priv)
	}
	reqs := []Req{
		{Name: "session exists", Kind: "nil", A: Res("core/do/dbs.(SessionDB).GetSessionEntry", 1, nil, bearer)},
		{Name: "signature verified under the session voucher's device chain", Kind: "nil", A: Res("core/shared.VerifyCoseSignatureWithCertificate", 0, tok, isLookup, Fld("OwnershipVoucher.OVDevCertChain", vch))},
		{Name: "signed nonce equals the session's", Kind: "eq", A: Fld("EATPayloadBase.EatNonce", eat), B: Fld("SessionEntry.NonceTO2ProveDv61", sess)},
	}
	n := 0
	for _, e := range c.callsTo(h, "core/shared.DeriveSessionKey") {
		c.guard("device-proof", "session key derivation", e, reqs)
		n++
	}
	upd := c.callsTo(h, doUpdate)
	nonce := Fld("UnprotectedHeader.EUPHNonce", Fld("CoseSignature.Unprotected", tok))
	for _, e := range upd {
		c.guard("device-proof", "session update", e, reqs)
		c.prov("setup-data", "stored session key", e.Instr.Pos(), fieldOf(e.Args[2], "SessionEntry.SessionKey"), dk(0), "the key derived from the session's key exchange and the signed contribution")
		c.prov("setup-data", "remembered setup nonce", e.Instr.Pos(), fieldOf(e.Args[2], "SessionEntry.NonceTO2SetupDv64"), nonce, "the device's setup nonce")
	}
	for _, e := range c.successAnswers(h) {
		c.guard("device-proof", "success answer", e, append(append([]Req(nil), reqs...), Req{Name: "session key derived", Kind: "nil", A: dk(1)},
			Req{Name: "session stored", Kind: "nil", A: Res(doUpdate, 0, nil, bearer, Val("SessionEntry.SessionKey", dk(0)))}))
	}
	hdr := hdrOf(vch)
	for _, w := range c.answerBodies(h) {
		pl := func(f string, m M) M {
			return aew(Marshal(Res("core/shared.GenerateCoseSignature", 0, Marshal(Val("TO2SetupDevicePayload."+f, m)), nil, nil, priv, Fld("SessionEntry.SignatureSgType", sess))), dk(0), Fld("SessionEntry.CipherSuiteName", sess))
		}
		p := w.Instr.Pos()
		c.prov("setup-data", "GUID", p, w.Args[1], pl("ReplacementGuid", Fld("SessionEntry.Guid", sess)), "the session's GUID, signed by the owner and encrypted")
		c.prov("setup-data", "rendezvous info", p, w.Args[1], pl("RendezvousInfo", Fld("OwnershipVoucherHeader.OVRvInfo", hdr)), "the voucher's rendezvous info")
		c.prov("setup-data", "owner key", p, w.Args[1], pl("ReplacementOwner2Key", Res("core/shared.(OwnershipVoucher).GetFinalOwnerPublicKey", 0, vch)), "the voucher's final owner key")
		c.prov("setup-data", "setup nonce", p, w.Args[1], pl("NonceTO2SetupDv", nonce), "the device's setup nonce")
	}
	if n == 0 {
		c.missing("session key derivation in the handler of message 64")
	}
	c.min("device-proof", 11)
	c.min("setup-data", 6)
}

// done70Reqs: what TO2.Done must have established.
func done70Reqs() []Req {
	sess := doSess()
	done := Out("Done70", plainBody())
	reqs := []Req{
		{Name: "session exists", Kind: "nil", A: Res("core/do/dbs.(SessionDB).GetSessionEntry", 1, nil, bearer)},
		{Name: "body decrypted under the session key", Kind: "nil", A: Res("core/shared.RemoveEncryptionWrapping", 1, reqBody, Fld("SessionEntry.SessionKey", sess), Fld("SessionEntry.CipherSuiteName", sess))},
		{Name: "nonce equals the session's", Kind: "eq", A: Fld("Done70.NonceTO2ProveDv", done), B: Fld("SessionEntry.NonceTO2ProveDv61", sess)},
	}
	return reqs
}

func c08(c *Ctx) {
	h := c.handler(70)
	sess := doSess()
	if h != nil {
		reqs := done70Reqs()
		effs := c.successAnswers(h)
		if len(effs) == 0 {
			c.missing("success answer of message 70")
		}
		for _, e := range effs {
			c.guard("done-proof", "success answer", e, reqs)
		}
		for k, name := range map[string]string{
			"core/shared/testcom/listener.(RequestListenerRunnerInst).CompleteTestRun": "run completion",
			"core/shared.SubmitIopLoggerEvent":                                         "interop event",
		} {
			for _, e := range c.callsTo(h, k) {
				c.guard("done-proof", name, e, reqs)
			}
		}
		for _, w := range c.answerBodies(h) {
			c.prov("done-answer", "answer 71", w.Instr.Pos(), w.Args[1], aew(Marshal(Val("Done271.NonceTO2SetupDv", Fld("SessionEntry.NonceTO2SetupDv64", sess))), Fld("SessionEntry.SessionKey", sess), Fld("SessionEntry.CipherSuiteName", sess)), "message 71 with the session's setup nonce, encrypted")
		}
		// a completed run or an interop event happens nowhere else in the owner service
		c.min("done-proof", 9)
		c.min("done-answer", 1)
	}
	h = c.handler(60)
	if h == nil {
		return
	}
	hello := Out("HelloDevice60", reqBody)
	const vget = "core/do/dbs.(VoucherDB).Get"
	found := Req{Name: "voucher of the GUID found", Kind: "nil", A: Res(vget, 1, nil, Fld("HelloDevice60.Guid", hello))}
	ent := Res(vget, 0, nil, Fld("HelloDevice60.Guid", hello))
	vch := Fld("VoucherDBEntry.Voucher", ent)
	fk := Res("core/shared.(OwnershipVoucher).GetFinalOwnerPublicKey", 0, vch)
	ns := c.callsTo(h, doNew)
	if len(ns) == 0 {
		c.missing("session creation in the handler of message 60")
	}
	for _, e := range ns {
		c.guard("hello", "session creation", e, []Req{found})
		p := e.Instr.Pos()
		f := func(n string) *Term { return fieldOf(e.Args[1], "SessionEntry."+n) }
		nonce := f("NonceTO2ProveDv61")
		c.prov("hello-session", "protocol", p, f("Protocol"), K("2"), "TO2")
		c.prov("hello-session", "device nonce", p, nonce, Res("core/shared.NewFdoNonce", 0), "a fresh nonce")
		c.prov("hello-session", "key exchange", p, f("XAKex"), Res("core/shared.GenerateXABKeyExchange", 0, Fld("HelloDevice60.KexSuiteName", hello)), "a fresh key exchange of the requested suite")
		c.prov("hello-session", "signature info", p, f("EASigInfo"), Fld("HelloDevice60.EASigInfo", hello), "the requested signature info")
		c.prov("hello-session", "cipher suite", p, f("CipherSuiteName"), Fld("HelloDevice60.CipherSuiteName", hello), "the requested cipher suite")
		c.prov("hello-session", "GUID", p, f("Guid"), Fld("HelloDevice60.Guid", hello), "the requested GUID")
		c.prov("hello-session", "voucher", p, f("Voucher"), vch, "the voucher stored for the GUID")
		c.prov("hello-session", "owner private key", p, f("PrivateKeyDER"), Fld("VoucherDBEntry.PrivateKeyX509", ent), "the key stored with the voucher")
		c.prov("hello-session", "owner signature type", p, f("SignatureSgType"), func(a *Analyzer, t *Term) bool {
			return t.Op == "lookup" && t.Args[0].Op == "global" && t.Args[0].Name == "core/shared.PkToSgType" && a.is(t.Args[1], Fld("FdoPublicKey.PkType", fk))
		}, "the type of the voucher's final owner key")
		for _, w := range c.answerBodies(h) {
			q := w.Instr.Pos()
			gen := func(payload, unprot M) M {
				return Marshal(Res("core/shared.GenerateCoseSignature", 0, payload, nil, unprot, Res("core/shared.ExtractPrivateKey", 0, Fld("VoucherDBEntry.PrivateKeyX509", ent)), Same(f("SignatureSgType"))))
			}
			c.prov("hello-answer", "nonce sent", q, w.Args[1], gen(nil, Val("UnprotectedHeader.CUPHNonce", Same(nonce))), "the session's nonce in a message signed with the stored owner key")
			c.prov("hello-answer", "owner key sent", q, w.Args[1], gen(nil, Val("UnprotectedHeader.CUPHOwnerPubKey", fk)), "the voucher's final owner key")
			fld := func(n string, m M) M { return gen(Marshal(Val("TO2ProveOVHdrPayload."+n, m)), nil) }
			c.prov("hello-answer", "header", q, w.Args[1], fld("OVHeader", Fld("OwnershipVoucher.OVHeaderTag", vch)), "the voucher's header")
			c.prov("hello-answer", "header HMAC", q, w.Args[1], fld("HMac", Fld("OwnershipVoucher.OVHeaderHMac", vch)), "the voucher's header HMAC")
			c.prov("hello-answer", "echoed nonce", q, w.Args[1], fld("NonceTO2ProveOV", Fld("HelloDevice60.NonceTO2ProveOV", hello)), "the device's nonce")
			c.prov("hello-answer", "signature info", q, w.Args[1], fld("EBSigInfo", Fld("HelloDevice60.EASigInfo", hello)), "the device's signature info")
			c.prov("hello-answer", "key exchange", q, w.Args[1], fld("XAKeyExchange", func(a *Analyzer, t *Term) bool {
				return t.Op == "field" && t.Name == "KeXParams.XAKeyExchange" && stripSites(t.Args[0]) == stripSites(f("XAKex"))
			}), "the session's key-exchange contribution")
			c.prov("hello-answer", "hello hash", q, w.Args[1], fld("HelloDeviceHash", Res("core/shared.GenerateFdoHash", 0, reqBody)), "the hash of the received body")
			c.prov("hello-answer", "number of entries", q, w.Args[1], fld("NumOVEntries", func(a *Analyzer, t *Term) bool {
				return t.Op == "call" && t.Name == "len" && a.is(t.Args[0], Fld("OwnershipVoucher.OVEntryArray", vch))
			}), "the length of the voucher's entry list")
		}
	}
	for _, e := range c.successAnswers(h) {
		c.guard("hello", "success answer", e, []Req{found, {Name: "session stored", Kind: "nil", A: Res(doNew, 1)}})
	}
	c.min("hello", 3)
	c.min("hello-session", 9)
	c.min("hello-answer", 9)
}

func c09(c *Ctx) {
	sess := doSess()
	key, suite := Fld("SessionEntry.SessionKey", sess), Fld("SessionEntry.CipherSuiteName", sess)
	for _, m := range []int{66, 68, 70} {
		h := c.handler(m)
		if h == nil {
			continue
		}
		n := 0
		for _, e := range c.callsTo(h, "core/shared.(CBOR_CUSTOM_TAGS).Unmarshal") {
			if !c.A.hasSub(e.Args[1], reqBodyRaw, 0) || inChain(e, "core/shared.RemoveEncryptionWrapping") {
				continue
			}
			n++
			c.prov("owner-decode", "body of message "+itoa(m), e.Instr.Pos(), e.Args[1], plainBody(), "the decrypted body")
		}
		if n == 0 {
			c.missing("decoding of the body of message " + itoa(m))
		}
		for _, e := range c.successAnswers(h) {
			c.guard("owner-decode", "answer to "+itoa(m), e, []Req{{Name: "decryption succeeded", Kind: "nil", A: Res("core/shared.RemoveEncryptionWrapping", 1, reqBody, key, suite)}})
		}
	}
	for _, m := range []int{64, 66, 68, 70} {
		h := c.handler(m)
		if h == nil {
			continue
		}
		k := key
		if m == 64 {
			k = Res("core/shared.DeriveSessionKey", 0)
		}
		ab := c.answerBodies(h)
		if len(ab) == 0 {
			c.missing("answer to message " + itoa(m))
		}
		for _, w := range ab {
			c.prov("owner-encode", "answer to "+itoa(m), w.Instr.Pos(), w.Args[1], aew(nil, k, suite), "ciphertext under the session's key and suite")
			c.guard("owner-encode", "answer to "+itoa(m), w, []Req{{Name: "encryption succeeded", Kind: "nil", A: Res("core/shared.AddEncryptionWrapping", 1, nil, k, suite)}})
		}
	}
	c.min("owner-decode", 6)
	c.min("owner-encode", 8)
	// device side
	const send = "core/shared.SendCborPost"
	dk := func(f *ssa.Function, n string) M {
		return Or(Fld("To2Requestor."+n, paramOf(fnKey(f), 0)), Res("core/shared.DeriveSessionKey", 0))
	}
	cnt := map[string]int{}
	for _, f := range c.deviceSteps() {
		for _, e := range c.callsTo(f, send) {
			msg := constMsg(e.Args[1])
			if msg < 64 {
				continue
			}
			dkey, dsuite := dk(f, "SessionKey"), Fld("To2Requestor.CipherSuiteName", paramOf(fnKey(f), 0))
			if msg > 64 {
				c.prov("device-encode", "message "+itoa(msg), e.Instr.Pos(), e.Args[2], aew(nil, dkey, dsuite), "ciphertext under the session key and suite")
				cnt["enc"+itoa(msg)]++
			}
			for _, d := range c.callsTo(f, "core/shared.(CBOR_CUSTOM_TAGS).Unmarshal") {
				if !c.A.hasSub(d.Args[1], Res(send, 0), 0) || inChain(d, "core/shared.RemoveEncryptionWrapping") || inChain(d, "core/shared.DecodeErrorResponse") || inChain(d, "ExpectAnyFdoError") || inChain(d, "confCheckResponse") || !successUse(c, f, d) {
					continue
				}
				pb := Res("core/shared.RemoveEncryptionWrapping", 0, Res(send, 0), dkey, dsuite)
				c.prov("device-decode", "answer to message "+itoa(msg), d.Instr.Pos(), d.Args[1], Or(pb, Fld("CoseSignature.Payload", Out("CoseSignature", pb))), "the decrypted answer")
				cnt["dec"+itoa(msg)]++
			}
		}
	}
	for _, k := range []string{"enc66", "enc68", "enc70", "dec64", "dec66", "dec68", "dec70"} {
		if cnt[k] == 0 {
			c.missing("device step " + k)
		}
	}
}

// successUse: is what this call decodes into anything but an error body?
func successUse(c *Ctx, f *ssa.Function, d *Effect) bool {
	// decoding into FdoError is the error-answer path
	ci := d.Instr.(ssa.CallInstruction)
	args := ci.Common().Args
	v := args[len(args)-1]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	return !isNamed(deref(v.Type()), "FdoError")
}

var reqBodyRaw M = Fld("Request.Body", nil)

func inChain(e *Effect, part string) bool {
	for _, k := range e.Chain {
		if k == part || len(k) > len(part) && k[len(k)-len(part):] == part {
			return true
		}
	}
	return false
}

func constMsg(t *Term) int {
	if t != nil && t.Op == "const" {
		n, err := strconv.Atoi(t.Name)
		if err == nil {
			return n
		}
	}
	return -1
}

// deviceSteps: exported methods of the TO1/TO2 requestors that send a message.
func (c *Ctx) deviceSteps() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Signature.Recv() == nil {
			continue
		}
		r := typeBase(f.Signature.Recv().Type())
		if r != "To2Requestor" && r != "To1Requestor" && r != "To0Requestor" {
			continue
		}
		if f.Object() != nil && f.Object().Exported() {
			out = append(out, f)
		}
	}
	return out
}
