package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C46", "conditional constant propagation through the owner's handlers of messages 66 and 68 for every phase of the exchange (who sends, how much is left), must-facts before what follows the exchange, and provenance of what the devices send.", c46)
}

func kBool(v string) *Term { return mk("const", v, types.Typ[types.Bool]) }

// plainAnswers: the values an encrypted answer is the encoding of, corruptions for negative tests aside.
func plainAnswers(a *Analyzer, f *ssa.Function) (out []*Term) {
	for _, e := range a.effects(f, func(in ssa.Instruction) bool { return calleeIs(in, "core/shared.AddEncryptionWrapping") }, nil) {
		for _, x := range alts(e.Args[0]) {
			if x.Op == "test" {
				x = untest(x)
			}
			if x.Op == "call" && strings.HasSuffix(x.Name, ".(CBOR_CUSTOM_TAGS).Marshal") && len(x.Args) == 2 {
				out = append(out, x.Args[1])
			}
		}
	}
	return
}

func c46(c *Ctx) {
	f, r66 := c.handler(68), c.handler(66)
	if f == nil || r66 == nil {
		return
	}
	upd := "core/do/dbs.(SessionDB).UpdateSessionEntry"
	vds := "core/do/to2.ValidateDeviceSIMs"
	more := Fld("DeviceServiceInfo68.IsMoreServiceInfo", nil)
	sess := func(n string) M { return Fld("SessionEntry."+n, nil) }
	ln := func(a *Analyzer, t *Term) bool {
		return t.Op == "call" && t.Name == "len" && len(t.Args) == 1 && a.is(t.Args[0], sess("OwnerSIMs"))
	}
	phase := func(m, ctr, n, fin string) []asm {
		as := []asm{{more, kBool(m)}, {sess("OwnerSIMsFinishedSending"), kBool(fin)}}
		if ctr != "" {
			as = append(as, asm{sess("OwnerSIMsSendCounter"), kInt(ctr, types.Typ[types.Uint16])}, asm{ln, kInt(n, types.Typ[types.Int])})
		}
		return as
	}
	updates := func(sa *Analyzer) []*Effect {
		return sa.effects(f, func(in ssa.Instruction) bool { return calleeIs(in, upd) }, nil)
	}
	sent := Fld("DeviceServiceInfo68.ServiceInfo", nil)
	allSims := M(func(a *Analyzer, t *Term) bool {
		return t.Op == "call" && t.Name == "append" && len(t.Args) == 2 && a.is(t.Args[0], sess("DeviceSIMs")) && (a.is(t.Args[1], sent) || t.Args[1].Op == "slice" && a.is(t.Args[1].Args[0], sent))
	})
	allSims = Or(allSims, func(a *Analyzer, t *Term) bool {
		ok := false
		for _, x := range alts(t) {
			for x.Op == "prev" {
				x = x.Args[0]
			}
			switch {
			case x.Op == "loop", a.is(x, sess("DeviceSIMs")):
			case x.Op == "call" && x.Name == "append" && len(x.Args) == 2 && oneElem(elemOf(sent))(a, x.Args[1]) && (x.Args[0].Op == "loop" || x.Args[0].Op == "prev" || x.Args[0].Op == "phi" || a.is(x.Args[0], sess("DeviceSIMs"))):
				ok = true
			default:
				return false
			}
		}
		return ok
	})
	empty := func(a *Analyzer, t *Term) bool { return isEmptyTerm(t) || notSetSlice(t) }

	// one message per phase
	check := func(where string, as []asm, done, moreOut, ctr, fin string, info M) {
		sa := c.A.spec(f, nil, as...)
		answers := plainAnswers(sa, f)
		c.ob("answer", where+": understood", len(answers) > 0, f.Pos(), "no encoded answer is found")
		each := func(n string, m M, what string) {
			var all []*Term
			for _, x := range answers {
				for _, y := range alts(x) {
					all = append(all, projField(y, "OwnerServiceInfo69."+n, nil))
				}
			}
			ok, bad := len(all) > 0, "<none>"
			for _, x := range all {
				if x != nil {
					x = boolOf(sa.constOf(x))
				}
				if x == nil || !sa.is(x, m) {
					ok = false
					bad = trunc(fmt.Sprint(x))
				}
			}
			c.ob("answer", where+": "+n, ok, f.Pos(), "expected %s, but the value is %s", what, bad)
		}
		each("IsDone", K(done), done)
		each("IsMoreServiceInfo", K(moreOut), moreOut)
		each("ServiceInfo", info, "this phase's owner service info")
		ups := updates(sa)
		c.ob("progress", where+": recorded", len(ups) > 0, f.Pos(), "the session is not updated")
		for _, e := range ups {
			get := func(n string) *Term { return projField(e.Args[2], "SessionEntry."+n, nil) }
			helper := func(a *Analyzer, t *Term) bool { // set by a helper the session was handed to: not followed
				return t.Op == "field" && t.Args[0].Op == "out" && t.Args[0].Fn != nil && c.A.isHelper(t.Args[0].Fn)
			}
			c.prov2(sa, "progress", where+": device service info", f, get("DeviceSIMs"), Or(allSims, helper), "what the device sent so far, then what it sends now")
			cm := sess("OwnerSIMsSendCounter")
			if ctr != "" {
				cm = K(ctr)
			}
			c.prov2(sa, "progress", where+": messages sent", f, get("OwnerSIMsSendCounter"), Or(cm, helper, func(a *Analyzer, t *Term) bool { return ctr != "" && a.constOf(t).Name == ctr }), "the number of owner messages sent")
			fm := flagIs(fin)
			if fin == "false" {
				fm = Or(fm, sess("OwnerSIMsFinishedSending"))
			}
			c.prov2(sa, "progress", where+": finished", f, get("OwnerSIMsFinishedSending"), Or(fm, helper), fin)
			c.prov2(sa, "progress", where+": owner service info", f, get("OwnerSIMs"), Or(sess("OwnerSIMs"), helper), "what is to be sent does not change")
		}
	}
	check("device has more", phase("true", "", "", "false"), "false", "false", "", "false", empty)
	for _, x := range []struct{ ctr, n, next, done string }{{"0", "0", "1", "true"}, {"0", "1", "1", "true"}, {"0", "2", "1", "false"}, {"1", "2", "2", "true"}, {"1", "3", "2", "false"}, {"2", "3", "3", "true"}, {"254", "256", "255", "false"}, {"255", "256", "256", "true"}} {
		not := map[string]string{"true": "false", "false": "true"}[x.done]
		info := M(func(a *Analyzer, t *Term) bool {
			one := func(v *Term) bool {
				return v.Op == "lit" && len(v.Args) == 1 && len(v.Args[0].Args) == 1 && func() bool {
					e := v.Args[0].Args[0]
					return e.Op == "index" && len(e.Args) == 2 && a.is(e.Args[0], sess("OwnerSIMs")) && (a.is(e.Args[1], sess("OwnerSIMsSendCounter")) || a.constOf(e.Args[1]).Name == x.ctr)
				}()
			}
			if t.Op == "slice" && len(t.Args) > 2 && a.is(t.Args[0], sess("OwnerSIMs")) {
				lo, hi := t.Args[1], t.Args[2]
				return (a.is(lo, sess("OwnerSIMsSendCounter")) || a.constOf(lo).Name == x.ctr) && a.constOf(hi).Name == x.next
			}
			if t.Op == "slice" {
				t = t.Args[0]
			}
			return one(t) || t.Op == "call" && t.Name == "append" && len(t.Args) == 2 && empty(a, t.Args[0]) && one(t.Args[1])
		})
		if x.n == "0" {
			info = empty
		}
		check(fmt.Sprintf("%s of %s owner messages sent", x.ctr, x.n), phase("false", x.ctr, x.n, "false"), x.done, not, x.next, x.done, info)
	}
	for _, m := range []string{"true", "false"} {
		sa := c.A.spec(f, nil, phase(m, "", "", "true")...)
		c.ob("end", "after the owner has finished, device has more: "+m, len(updates(sa)) == 0 && len(plainAnswers(sa, f)) == 0, f.Pos(), "service info is still exchanged")
	}

	// the device's service info is validated before the owner sends anything
	sa := c.A.spec(f, nil, append(phase("false", "0", "2", "false"), asm{callToIdx(vds, 1), kSome})...)
	c.ob("validation", "refused device service info", len(updates(sa)) == 0 && len(plainAnswers(sa, f)) == 0, f.Pos(), "the owner answers although the device's service info is not valid")
	sa = c.A.spec(f, nil, phase("false", "0", "2", "false")...)
	n := 0
	for _, e := range sa.effects(f, func(in ssa.Instruction) bool { return calleeIs(in, vds) }, nil) {
		n++
		c.prov2(sa, "validation", "what is validated", f, e.Args[1], allSims, "all service info of the device, including this message's")
	}
	c.ob("validation", "service info is validated", n > 0, f.Pos(), "no call")
	if v := c.need(vds); v != nil {
		list := Same(paramOfTerm(v, 1))
		delta := "core/shared.(SIM_IDS).FindDelta"
		dl := func(k string) asm {
			return asm{func(a *Analyzer, t *Term) bool {
				return t.Op == "call" && t.Name == "len" && len(t.Args) == 1 && callTo(delta)(a, t.Args[0])
			}, kInt(k, types.Typ[types.Int])}
		}
		c.ob("mandatory", "missing mandatory service info", !c.A.spec(v, nil, dl("1")).feasible(v, 1, "nil"), v.Pos(), "accepted although mandatory service info is missing")
		sv := c.A.spec(v, nil, dl("0"))
		c.prov2(sv, "mandatory", "decoded", v, sv.okResult(v, 0), Res("core/shared.DecodeSims", 0, list), "the decoded service info")
		c.ob("mandatory", "complete service info", sv.feasible(v, 1, "nil"), v.Pos(), "refused although nothing is missing")
		key := Fld("ServiceInfoKV.ServiceInfoKey", elemOf(list))
		n := 0
		for _, e := range c.A.effects(v, func(in ssa.Instruction) bool { return calleeIs(in, delta) }, nil) {
			n++
			c.prov("mandatory", "required identifiers", e.Instr.Pos(), e.Args[0], globalOf("core/shared.MANDATORY_SIMS"), "the mandatory identifiers")
			keys := Or(Res("core/shared.(SIMS).GetSimIDs", 0, addrOrSelf(list)))
			if !c.A.is(e.Args[1], keys) {
				c.prov("mandatory", "identifiers given", e.Instr.Pos(), e.Args[1], concatAll(key), "the identifiers of all service info")
				c.ob("mandatory", "no identifier skipped", c.noSkip(e.Fn), e.Instr.Pos(), "a path round the loop adds nothing")
			}
		}
		c.ob("mandatory", "compared", n > 0, v.Pos(), "the identifiers are not compared")
	}
	if g := c.need("core/shared.(SIM_IDS).FindDelta"); g != nil {
		cont := "core/shared.(SIM_IDS).Contains"
		me := elemOf(Same(paramOfTerm(g, 0)))
		for _, e := range c.A.effects(g, func(in ssa.Instruction) bool { return calleeIs(in, cont) }, nil) {
			c.prov("difference", "looked up in", e.Instr.Pos(), e.Args[0], addrOrSelf(Same(paramOfTerm(g, 1))), "the identifiers given")
			c.prov("difference", "looked up", e.Instr.Pos(), e.Args[1], me, "each required identifier")
		}
		no := c.A.spec(g, nil, asm{callTo(cont), kBool("false")})
		c.prov2(no, "difference", "missing identifiers", g, no.results(g, 0), concatAll(me), "every required identifier that is not there")
		c.ob("difference", "no missing identifier skipped", no.liveNoSkip(g), g.Pos(), "a path round the loop adds nothing")
		if h := c.need(cont); h != nil {
			fs := c.A.summary(h, 0, "true")
			el, id := elemOf(Same(paramOfTerm(h, 0))), Same(paramOfTerm(h, 1))
			ne := c.A.spec(h, nil, asm{func(a *Analyzer, t *Term) bool {
				return t.Op == "bin" && t.Name == "==" && len(t.Args) == 2 && (a.is(t.Args[0], el) && a.is(t.Args[1], id) || a.is(t.Args[1], el) && a.is(t.Args[0], id))
			}, kBool("false")})
			c.ob("difference", "Contains", c.A.holds(fs, "eq", elemOf(Same(paramOfTerm(h, 0))), Same(paramOfTerm(h, 1))) != nil || !ne.feasible(h, 0, "true") || c.A.is(c.A.results(h, 0), Res("slices.Contains", 0, addrOrSelf(Same(paramOfTerm(h, 0))), Same(paramOfTerm(h, 1)))), h.Pos(), "an identifier counts as present only when it is equal to one of the list")
		}
	}
	// the mandatory identifiers of FDO 1.1, and that our device sends them
	mand := []string{"devmod:active", "devmod:os", "devmod:arch", "devmod:version", "devmod:device", "devmod:sep", "devmod:bin", "devmod:nummodules", "devmod:modules"}
	got := c.P.listOf("core/shared.MANDATORY_SIMS")
	have := map[string]bool{}
	for _, x := range got {
		have[unquote(x)] = true
	}
	for _, x := range mand {
		c.ob("identifiers", x, have[x], f.Pos(), "%s is not required", x)
	}
	if d := c.need("core/shared.GetDeviceOSSims"); d != nil {
		has := map[string]bool{}
		walkTerm(c.A.results(d, 0), 0, func(t *Term) {
			if t.Op == "kv" && t.Name == "ServiceInfoKV.ServiceInfoKey" && len(t.Args) == 1 {
				has[unquote(c.A.constOf(t.Args[0]).Name)] = true
			}
		})
		for _, x := range mand {
			c.ob("device", "sends "+x, has[x], d.Pos(), "the virtual device does not send mandatory service info")
		}
	}
	if d := c.need("core/shared.DecodeSims"); d != nil {
		for _, x := range []struct{ id, field string }{{"devmod:active", "ACTIVE"}, {"devmod:os", "OS"}, {"devmod:arch", "ARCH"}, {"devmod:version", "VERSION"}, {"devmod:device", "DEVICE"}, {"devmod:sep", "SEP"}, {"devmod:bin", "BIN"}, {"devmod:nummodules", "NUMMODULES"}, {"devmod:modules", "MODULES"}} {
			es := c.fieldStores(d, "RESULT_SIMS", "SIM_DEVMOD_"+x.field)
			c.ob("decoded", x.field+" set", len(es) > 0, d.Pos(), "nothing is decoded for %s", x.id)
			for _, e := range es {
				c.guard("decoded", x.field, e, []Req{{Name: "its identifier", Kind: "eq", A: Fld("ServiceInfoKV.ServiceInfoKey", nil), B: func(a *Analyzer, t *Term) bool { return t.Op == "const" && unquote(t.Name) == x.id }}})
			}
		}
	}

	// message 66: what will be sent, and the negotiated size
	for _, e := range c.A.effects(r66, func(in ssa.Instruction) bool { return calleeIs(in, upd) }, nil) {
		c.prov("start", "owner service info", e.Instr.Pos(), projField(e.Args[2], "SessionEntry.OwnerSIMs", nil), Res("core/do/to2.(DoTo2).GetOwnerSIMs", 0, nil, sess("Guid")), "the owner's service info for this device")
	}
	max := Fld("DeviceServiceInfoReady66.MaxOwnerServiceInfoSz", nil)
	for _, x := range []struct {
		what string
		v    *Term
		m    M
	}{{"asked for", kSome, kSomeOr(max)}, {"not asked for", kNil, K(constName(c, "core/do/to2", "MAX_DEVICE_SERVICE_INFO_SIZE"))}} {
		sa := c.A.spec(r66, nil, asm{max, x.v})
		n := 0
		for _, y := range plainAnswers(sa, r66) {
			n++
			c.prov2(sa, "start", "size "+x.what, r66, projField(y, "OwnerServiceInfoReady67.MaxDeviceServiceInfoSz", nil), x.m, "the device's size if it gives one, else the default")
		}
		c.ob("start", "size "+x.what+": understood", n > 0, r66.Pos(), "no encoded answer is found")
		for _, e := range sa.effects(r66, func(in ssa.Instruction) bool { return calleeIs(in, upd) }, nil) {
			c.prov2(sa, "start", "size kept "+x.what, r66, projField(e.Args[2], "SessionEntry.MaxDeviceServiceInfoSz", nil), x.m, "the size that is answered")
		}
	}
	// the owner's service info: the token configured for this device only
	if g := c.need("core/do/to2.(DoTo2).GetOwnerSIMs"); g != nil {
		guid := Same(paramOfTerm(g, 1))
		mapping := Res("core/do/to2.(DoTo2).getEnvInteropSimsMapping", 0)
		n := 0
		walkTerm(c.nonNilResult(g, 0), 0, func(t *Term) {
			if t.Op != "kv" || t.Name != "ServiceInfoKV.ServiceInfoVal" {
				return
			}
			v := strip(t.Args[0])
			if c.A.is(v, func(a *Analyzer, t *Term) bool { return a.constOf(t).Op == "const" }) || v.Op == "global" {
				return
			}
			n++
			c.prov("owner", "configured token", g.Pos(), v, func(a *Analyzer, t *Term) bool {
				return t.Op == "lookup" && len(t.Args) == 2 && a.is(t.Args[0], mapping) && a.is(t.Args[1], guid)
			}, "the token configured for the device's GUID")
		})
		c.ob("owner", "token sent", n > 0, g.Pos(), "no configured token is sent")
		sa := c.A.spec(g, nil, asm{func(a *Analyzer, t *Term) bool {
			return t.Op == "lookupok" && len(t.Args) == 2 && a.is(t.Args[0], mapping)
		}, kBool("false")})
		c.prov2(sa, "owner", "no token configured", g, sa.okResult(g, 0), empty, "no owner service info")
	}

	// the devices
	step := "core/device/to2.(To2Requestor).DeviceServiceInfo68"
	mine := CallAny("core/shared.GetDeviceOSSims")
	for _, key := range []string{"..main$9", "testexec.preExecuteTo2_70", "testexec.executeTo2_68"} {
		d := c.need(key)
		if d == nil {
			continue
		}
		es := c.A.effects(d, func(in ssa.Instruction) bool { return calleeIs(in, step) }, nil)
		sends, asks := 0, 0
		for _, e := range es {
			if !c.A.is(e.Args[2], func(a *Analyzer, t *Term) bool {
				return t.Op == "const" && unquote(t.Name) == unquote(constName(c, "core/shared/testcom", "NULL_TEST"))
			}) {
				continue
			}
			info := projField(e.Args[1], "DeviceServiceInfo68.ServiceInfo", nil)
			more := projField(e.Args[1], "DeviceServiceInfo68.IsMoreServiceInfo", nil)
			info, more = ordinaryOnly(info), ordinaryOnly(more)
			if info != nil && empty(c.A, info) {
				asks++
				c.prov("device", "asking for owner service info, "+key, e.Instr.Pos(), more, flagIs("false"), "the device has no more to send")
				continue
			}
			sends++
			c.prov("device", "service info sent, "+key, e.Instr.Pos(), info, oneElem(elemOf(mine)), "each of the device's service info")
			c.prov("device", "more to send, "+key, e.Instr.Pos(), more, always(mine), "the owner's turn only comes after everything is sent")
			c.ob("device", "none skipped, "+key, everyTurn(e.Instr), e.Instr.Pos(), "a path round the loop sends nothing")
		}
		c.ob("device", "sends its service info, "+key, sends > 0, d.Pos(), "no call")
		c.ob("device", "asks for the owner's service info, "+key, asks > 0, d.Pos(), "no call")
	}
	isDone := Fld("OwnerServiceInfo69.IsDone", nil)
	done := "core/device/to2.(To2Requestor).Done70"
	for _, key := range []string{"..main$9", "testexec.executeTo2_70"} {
		d := c.need(key)
		if d == nil {
			continue
		}
		n := 0
		for _, e := range c.A.effects(d, func(in ssa.Instruction) bool { return calleeIs(in, done) }, nil) {
			n++
			c.guard("done", "Done70 in "+key, e, []Req{{Name: "owner is done", Kind: "true", A: isDone}})
		}
		c.ob("done", "Done70 in "+key+" is sent", n > 0, d.Pos(), "no call")
	}
}

// ordinaryOnly: t without the values it only takes in negative tests.
func ordinaryOnly(t *Term) *Term {
	if t == nil || t.Op != "phi" {
		return t
	}
	var keep []*Term
	for _, x := range t.Args {
		if x.Op != "test" {
			keep = append(keep, x)
		}
	}
	if len(keep) == 0 {
		return t
	}
	return phiOf(keep, nil)
}

// boolOf: the zero value of a flag is false.
func boolOf(t *Term) *Term {
	if t.Op == "zero" && (t.T == nil || types.Identical(t.T.Underlying(), types.Typ[types.Bool])) {
		return kBool("false")
	}
	return t
}

func flagIs(v string) M {
	return func(a *Analyzer, t *Term) bool { return boolOf(a.constOf(t)).Name == v }
}

func kSomeOr(m M) M {
	return func(a *Analyzer, t *Term) bool { return t == kSome || t.Key() == kSome.Key() || a.is(t, m) }
}

// oneElem: a list of exactly one value matching m.
func oneElem(m M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op == "slice" {
			t = t.Args[0]
		}
		if t.Op != "lit" || len(t.Args) != 1 {
			return false
		}
		x := t.Args[0]
		if x.Op == "kv" {
			x = x.Args[0]
		}
		return a.is(x, m)
	}
}

// always: true, or a comparison of the index of a walk over list with the length of the list which holds on every turn.
func always(list M) M {
	return func(a *Analyzer, t *Term) bool {
		if a.constOf(t).Name == "true" {
			return true
		}
		if t.Op != "bin" || len(t.Args) != 2 {
			return false
		}
		op, x, y := t.Name, t.Args[0], t.Args[1]
		if sw := map[string]string{">": "<", ">=": "<=", "!=": "!="}[op]; sw != "" && y.Op != "call" {
			op, x, y = sw, y, x
		}
		if y.Op != "call" || y.Name != "len" || !a.is(y.Args[0], list) {
			return false
		}
		if x.Op == "idx" {
			return op == "<" || op == "<=" || op == "!="
		}
		return op == "<=" && x.Op == "bin" && x.Name == "+" && (x.Args[0].Op == "idx" && a.is(x.Args[1], K("1")) || x.Args[1].Op == "idx" && a.is(x.Args[0], K("1")))
	}
}

// everyTurn: every turn of the innermost loop round in executes it.
func everyTurn(in ssa.Instruction) bool {
	var l *loopInfo
	for _, x := range loopsOf(in.Parent()) {
		if x.body[in.Block()] && (l == nil || len(x.body) < len(l.body)) {
			y := x
			l = &y
		}
	}
	if l == nil {
		return true
	}
	for _, p := range l.header.Preds {
		if l.header.Dominates(p) && !in.Block().Dominates(p) {
			return false
		}
	}
	return true
}

func notSetSlice(t *Term) bool {
	if t == nil || t.Op != "zero" {
		return false
	}
	if t.T == nil {
		return true
	}
	_, ok := t.T.Underlying().(*types.Slice)
	return ok
}

func walkTerm(t *Term, d int, f func(*Term)) {
	if t == nil || d > 12 {
		return
	}
	f(t)
	for _, x := range t.Args {
		walkTerm(x, d+1, f)
	}
}

// addrOrSelf: m, or the address of m.
func addrOrSelf(m M) M {
	return func(a *Analyzer, t *Term) bool {
		return a.is(t, m) || t.Op == "addr" && len(t.Args) == 1 && a.is(t.Args[0], m)
	}
}

func globalOf(name string) M {
	return addrOrSelf(func(a *Analyzer, t *Term) bool { return t.Op == "global" && t.Name == name })
}

// liveNoSkip: like noSkip, on the paths the assumptions leave.
func (a *Analyzer) liveNoSkip(f *ssa.Function) bool {
	for _, l := range loopsOf(f) {
		for _, in := range l.header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !carriesState(phi.Type()) {
				continue
			}
			for i, e := range phi.Edges {
				p := l.header.Preds[i]
				if l.header.Dominates(p) && !a.dead(p, l.header) && a.livePhi(e) == ssa.Value(phi) {
					return false
				}
			}
		}
	}
	return true
}
