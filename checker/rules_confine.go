package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C19", "effect analysis: every call of a corruption helper and every random source of the protocol packages against the test identifiers that guard it; provenance of the active identifier; no lasting state altered under a test.", c19)
}

// corruptionFns: functions that exist to damage data: the Conf_ helpers, and any function that takes and returns the
// same kind of data, draws random numbers and is used under a negative test somewhere.
func (c *Ctx) corruptionFns() map[*ssa.Function]bool {
	a := c.A
	out := map[*ssa.Function]bool{}
	random := a.reachSet("random source", func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n, _ := calleeName(ci.Common())
		return n == randBuffer || n == "core/shared.NewRandomInt" || strings.HasPrefix(n, "crypto/rand.")
	})
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Signature.Results().Len() == 0 || f.Signature.Recv() != nil {
			continue
		}
		rt := f.Signature.Results().At(0).Type()
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			continue
		}
		if strings.HasPrefix(fnKey(f), confPrefix) {
			out[f] = true
			continue
		}
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
			continue
		}
		same := false
		for _, p := range f.Params {
			same = same || types.Identical(deref(p.Type()), deref(rt))
		}
		if !same || !random[f] {
			continue
		}
		for _, s := range c.allCallSites(fnKey(f)) {
			if len(a.testGuards(s.Parent())[s.Block()]) > 0 {
				out[f] = true
			}
		}
	}
	return out
}

// confined: functions that run only under a negative test (or inside a corruption helper).
func (c *Ctx) confined(bad map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range bad {
		out[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.Funcs {
			if out[f] || f.Parent() != nil {
				continue
			}
			sites, complete := c.A.staticSites(f)
			if !complete || len(sites) == 0 {
				continue
			}
			all := true
			for _, s := range sites {
				all = all && (out[s.Parent()] || len(c.A.testGuards(s.Parent())[s.Block()]) > 0)
			}
			if all {
				out[f] = true
				ch = true
			}
		}
	}
	return out
}

// protocolPkg: the packages that put together protocol messages.
func protocolPkg(f *ssa.Function) bool {
	k := fnKey(f)
	for _, p := range []string{"core/rv.", "core/do.", "core/do/to0.", "core/do/to2.", "core/device/to1.", "core/device/to2."} {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

func c19(c *Ctx) {
	a := c.A
	bad := c.corruptionFns()
	conf := c.confined(bad)
	if len(bad) < 10 {
		c.missing("the corruption helpers")
	}
	guarded := func(in ssa.Instruction) bool {
		return conf[in.Parent()] || len(a.testGuards(in.Parent())[in.Block()]) > 0
	}
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			// a corruption helper that is passed on escapes the analysis of its calls
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && bad[g] {
					c.ob("corruption call", fnShort(f)+" passes "+fnShort(g), guarded(in), in.Pos(), "a corruption helper is passed on outside a negative test")
				}
			}
			return
		}
		n, g := calleeName(ci.Common())
		if bad[g] {
			c.ob("corruption call", fmt.Sprintf("%s calls %s", fnShort(f), fnShort(g)), guarded(in), in.Pos(), "the call does not depend on a negative test identifier being selected")
			return
		}
		for _, x := range ci.Common().Args {
			if h, ok := x.(*ssa.Function); ok && bad[h] {
				c.ob("corruption call", fnShort(f)+" passes "+fnShort(h), guarded(in), in.Pos(), "a corruption helper is passed on outside a negative test")
			}
		}
		if !protocolPkg(f) {
			return
		}
		switch n {
		case "core/shared.NewFdoNonce":
			ok := guarded(in) || c.remembered(ci)
			c.ob("random content", fmt.Sprintf("%s calls %s", fnShort(f), shortKey(n)), ok, in.Pos(), "a fresh nonce that is not kept in the session or the requestor, outside a negative test")
		case randBuffer, "core/shared.NewRandomInt", "core/shared.NewFdoGuid", "core/shared.NewRandomString", "core/shared.NewFdoGuid_FIDO", "crypto/rand.Read", "crypto/rand.Int", "io.ReadFull":
			c.ob("random content", fmt.Sprintf("%s calls %s", fnShort(f), shortKey(n)), guarded(in), in.Pos(), "random data outside a negative test")
		default:
			if strings.HasPrefix(n, "math/rand") {
				c.ob("random content", fmt.Sprintf("%s calls %s", fnShort(f), n), guarded(in), in.Pos(), "random data outside a negative test")
			}
		}
	})
	c.min("corruption call", 40)
	c.min("random content", 8)

	// what goes out when no test is selected
	clean := func(construct string, e *Effect) {
		if guarded(e.Top) || guarded(e.Instr) {
			return // runs only under a negative test
		}
		pos := e.Instr.Pos()
		var found *Term
		for _, t := range e.Args {
			if x := c.corruptIn(t, bad, map[*Term]bool{}, 0); x != nil {
				found = x
			}
		}
		s := ""
		if found != nil {
			s = trunc(found.String())
		}
		c.ob("ordinary message", construct, found == nil, pos, "corrupted data without a negative test: %s", s)
	}
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		if h := c.handler(m); h != nil {
			for _, e := range a.effects(h, isRespWrite, nil) {
				clean(fmt.Sprintf("answer to %d", m), e)
			}
			for _, e := range a.effects(h, isHeaderSet, nil) {
				clean(fmt.Sprintf("headers of the answer to %d", m), e)
			}
		}
		if s := c.step(m); s != nil {
			for _, e := range c.callsTo(s, sendPost) {
				clean(fmt.Sprintf("request %d", m), e)
			}
		}
	}
	c.min("ordinary message", 20)

	// what lasts beyond the message
	for _, f := range c.P.Funcs {
		if !protocolPkg(f) {
			continue
		}
		for b := range a.testGuards(f) {
			for _, in := range b.Instrs {
				c.lasting(f, in)
			}
		}
	}
	for f := range bad {
		c.inputKept(f)
	}
	c.min("input kept", 10)
	c.activeIDs()
	c.forwardedIDs()
	c.vouchersByID()
}

// remembered: a nonce is stored in a session entry or in a requestor.
func (c *Ctx) remembered(ci ssa.CallInstruction) bool {
	v, ok := ci.(*ssa.Call)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value) bool
	w = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				base, path, _ := splitAddr(x.Addr)
				if len(path) > 0 {
					t := strings.SplitN(path[0], ".", 2)[0]
					if t == "SessionEntry" || strings.HasSuffix(t, "Requestor") {
						return true
					}
				}
				if al, ok := base.(*ssa.Alloc); ok && len(path) == 0 {
					// a local variable: its uses
					for _, q := range *al.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok && w(u) {
							return true
						}
					}
				}
			case *ssa.Phi, *ssa.ChangeType, *ssa.Convert:
				if w(x.(ssa.Value)) {
					return true
				}
			}
		}
		return false
	}
	if w(v) {
		return true
	}
	return false
}

// corruptIn: a corruption reached without a negative test inside what is sent.
func (c *Ctx) corruptIn(t *Term, bad map[*ssa.Function]bool, seen map[*Term]bool, d int) *Term {
	if t == nil || seen[t] || t.Op == "test" || d > 60 {
		return nil
	}
	seen[t] = true
	if t.Op == "call" || t.Op == "out" {
		if bad[t.Fn] {
			return t
		}
		switch t.Name {
		case randBuffer, "core/shared.NewRandomInt", "core/shared.NewFdoGuid", "core/shared.NewRandomString":
			return t
		}
	}
	for _, x := range t.Args {
		if y := c.corruptIn(x, bad, seen, d+1); y != nil {
			return y
		}
	}
	return nil
}

// lasting: an instruction run under a negative test must not alter what outlives the message.
func (c *Ctx) lasting(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		base, path, _ := splitAddr(x.Addr)
		if _, ok := base.(*ssa.Alloc); ok {
			return
		}
		tn := typeBase(deref(base.Type()))
		if _, ok := base.(*ssa.Global); ok {
			c.ob("state kept", fnShort(f)+" "+tn, false, in.Pos(), "a package variable is altered under a negative test")
			return
		}
		if tn == "SessionEntry" || strings.HasSuffix(tn, "Requestor") || strings.HasPrefix(tn, "RequestListener") || strings.HasSuffix(tn, "DBEntry") {
			c.ob("state kept", fmt.Sprintf("%s %s", fnShort(f), strings.Join(path, "/")), false, in.Pos(), "data of the session, the listener or the requestor is altered under a negative test, and is used after it")
		}
	case ssa.CallInstruction:
		n, g := calleeName(x.Common())
		if g == nil || !inRepo(g) || strings.Contains(n, "RespondFDOError") {
			return
		}
		if c.A.reachSet("badger write", func(in ssa.Instruction) bool {
			return calleeIs(in, bdg+".(*Txn).SetEntry", bdg+".(*Txn).Set", bdg+".(*Txn).Delete", bdg+".(Txn).SetEntry", bdg+".(Txn).Set", bdg+".(Txn).Delete")
		})[g] {
			c.ob("state kept", fmt.Sprintf("%s calls %s", fnShort(f), fnShort(g)), false, in.Pos(), "something is stored under a negative test")
		}
	}
}

// inputKept: a corruption helper builds new data; it does not write into the data it was given.
func (c *Ctx) inputKept(f *ssa.Function) {
	a := c.A
	ok := true
	var at token.Pos = f.Pos()
	own := func(v ssa.Value, in ssa.Instruction) bool {
		for _, x := range alts(a.at(v, in)) {
			y := x
			for y.Op == "field" || y.Op == "slice" || y.Op == "index" || y.Op == "prev" || y.Op == "test" {
				y = y.Args[0]
			}
			if y.Op == "param" {
				return false
			}
		}
		return true
	}
	c.eachInstrOf(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			switch y := x.Addr.(type) {
			case *ssa.IndexAddr:
				if _, isSlice := y.X.Type().Underlying().(*types.Slice); isSlice && !own(y.X, in) {
					ok, at = false, in.Pos()
				}
			default:
				base, _, _ := splitAddr(x.Addr)
				if _, isParam := base.(*ssa.Parameter); isParam {
					ok, at = false, in.Pos()
				}
			}
		case *ssa.MapUpdate:
			if !own(x.Map, in) {
				ok, at = false, in.Pos()
			}
		case *ssa.Call:
			n, _ := calleeName(&x.Call)
			if (n == "copy" || n == "crypto/rand.Read" || n == "io.ReadFull" || n == "clear") && len(x.Call.Args) > 0 {
				k := 0
				if n == "io.ReadFull" {
					k = 1
				}
				if !own(x.Call.Args[k], in) {
					ok, at = false, in.Pos()
				}
			}
		}
	})
	c.ob("input kept", fnShort(f), ok, at, "the helper writes into the data it was given, which the sender keeps using")
}

// activeIDs: the identifier that a handler compares with the negative tests is the one the listener of this device
// hands out for this protocol.
func (c *Ctx) activeIDs() {
	a := c.A
	neg := a.negTests()
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		h := c.handler(m)
		if h == nil {
			continue
		}
		proto := "RequestListenerInst.To2"
		switch {
		case m < 30:
			proto = "RequestListenerInst.To0"
		case m < 60:
			proto = "RequestListenerInst.To1"
		}
		chk := func(t *Term, in ssa.Instruction) {
			ok := true
			for _, x := range alts(t) {
				x = strip(x)
				if x.Op == "const" && unquote(x.Name) == nullTest {
					continue
				}
				if x.Op == "zero" || x.Op == "const" && unquote(x.Name) == "" {
					continue
				}
				if strings.HasSuffix(x.Name, "RequestListenerRunnerInst).GetNextTestID") && len(x.Args) == 1 && c.runnerOf(x.Args[0], proto) {
					continue
				}
				ok = false
			}
			c.ob("active identifier", fmt.Sprintf("message %d", m), ok, in.Pos(), "the active test is neither none nor the next one of the device's listener for this protocol: %s", trunc(t.String()))
		}
		c.eachInstrOf(h, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.BinOp:
				for i, o := range []ssa.Value{x.X, x.Y} {
					k, ok := o.(*ssa.Const)
					if !ok || !isTestIDType(o.Type()) || k.Value == nil || !neg[unquote(k.Value.ExactString())] {
						continue
					}
					other := x.Y
					if i == 1 {
						other = x.X
					}
					chk(a.at(other, in), in)
				}
			case *ssa.Call:
				_, g := calleeName(&x.Call)
				if g == nil || !inRepo(g) || testIDParam(g) < 0 || testIDParam(g) >= len(x.Call.Args) || strings.Contains(fnKey(g), "testcom") {
					return
				}
				chk(a.at(x.Call.Args[testIDParam(g)], in), in)
			}
		})
	}
	c.min("active identifier", 26)
	// the listener consulted is the one of the device that sent the message
	for _, m := range []int{30, 32, 60, 62, 64, 66, 68, 70} {
		h := c.handler(m)
		if h == nil {
			continue
		}
		for _, e := range c.callsTo(h, noListenerEntry) {
			c.prov("device's listener", fmt.Sprintf("message %d", m), e.Instr.Pos(), e.Args[1], Or(Fld("HelloRV30.Guid", nil), Fld("HelloDevice60.Guid", nil), Fld("SessionEntry.Guid", nil)), "the listener is looked up by the identifier of the device that sent the message")
		}
	}
	c.min("device's listener", 8)
	// the runner: only while a run is in progress, and only from the stage expected next
	f := c.P.fn("core/shared/testcom/listener.(RequestListenerRunnerInst).GetNextTestID")
	if f == nil {
		c.missing("GetNextTestID")
		return
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, x := range alts(a.at(r.Results[0], r)) {
			if x.Op == "const" && unquote(x.Name) == nullTest {
				continue
			}
			fs := a.factsAt(f, r)
			running := a.holds(fs, "true", Fld("RequestListenerRunnerInst.Running", nil), nil) != nil
			stage := x.Op == "index" && len(x.Args) == 2 && a.is(x.Args[0], func(a *Analyzer, t *Term) bool {
				return t.Op == "lookup" && len(t.Args) == 2 && a.is(t.Args[0], Fld("RequestListenerRunnerInst.Tests", nil)) && a.is(t.Args[1], Fld("RequestListenerRunnerInst.ExpectedCmd", nil))
			})
			c.ob("handed out", "next identifier", running && stage, r.Pos(), "an identifier is handed out while no run is in progress, or not from the catalogue of the expected stage: %s", trunc(x.String()))
		}
	}
	c.min("handed out", 1)
}

// runnerOf: a runner is the one of this protocol, possibly after its own methods have updated it.
func (c *Ctx) runnerOf(t *Term, proto string) bool {
	n := 0
	for _, x := range alts(t) {
		x = strip(x)
		switch {
		case x.Op == "field" && x.Name == proto:
			n++
		case x.Op == "out" && x.Idx == 0 && strings.Contains(x.Name, "RequestListenerRunnerInst)."):
		default:
			return false
		}
	}
	return n > 0
}

// forwardedIDs: outside the test executors and the listeners' handlers, steps and generators are run without a test.
func (c *Ctx) forwardedIDs() {
	a := c.A
	isHandler := map[*ssa.Function]bool{}
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		isHandler[c.handler(m)] = true
	}
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || isHandler[f] {
			return
		}
		k := fnKey(f)
		if strings.HasPrefix(k, "testexec.") || strings.Contains(k, "core/shared/testcom") {
			return
		}
		_, g := calleeName(ci.Common())
		if g == nil || !inRepo(g) || strings.Contains(fnKey(g), "core/shared/testcom") {
			return
		}
		i := testIDParam(g)
		if i < 0 || i >= len(ci.Common().Args) {
			return
		}
		t := a.at(ci.Common().Args[i], in)
		ok = true
		for _, x := range alts(t) {
			x = strip(x)
			own := x.Op == "param" && isTestIDType(x.T) && testIDParam(f) >= 0
			ok = ok && (own || x.Op == "const" && unquote(x.Name) == nullTest)
		}
		if conf := a.testGuards(f)[in.Block()]; len(conf) > 0 {
			ok = true
		}
		c.ob("forwarded identifier", fmt.Sprintf("%s calls %s", fnShort(f), fnShort(g)), ok, in.Pos(), "outside a test run the function is given a test identifier: %s", trunc(t.String()))
	})
	c.min("forwarded identifier", 20)
}

// vouchersByID: prepared vouchers are filed under the identifier they were generated with, and looked up by it.
func (c *Ctx) vouchersByID() {
	a := c.A
	g := c.P.fn("core/shared/testcom/request.(TestVouchers).GetVoucher")
	if g == nil {
		c.missing("GetVoucher")
		return
	}
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || errorExit(b) {
			continue
		}
		fs := a.factsAt(g, r)
		ok = a.holds(fs, "eq", func(a *Analyzer, t *Term) bool { return t.Op == "range" && t.Name == "1" || t.Op == "lookupok" }, ParamT("FDOTestID")) != nil ||
			a.is(a.at(r.Results[0], r), Has(func(a *Analyzer, t *Term) bool {
				return t.Op == "lookup" && len(t.Args) == 2 && a.is(t.Args[1], ParamT("FDOTestID"))
			}))
		c.ob("voucher by identifier", "lookup", ok, r.Pos(), "a voucher filed under another identifier is returned")
	}
	for _, ci := range c.allCallSites(fnKey(g)) {
		t := a.at(ci.Common().Args[testIDParam(g)], ci.(ssa.Instruction))
		c.ob("voucher by identifier", fnShort(ci.Parent()), a.is(t, K("\""+nullTest+"\"")) || a.is(t, K(nullTest)), ci.Pos(), "the voucher used to set up a protocol run is %s", trunc(t.String()))
	}
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isTestIDType(mu.Key.Type()) || !strings.Contains(mu.Value.Type().String(), "DeviceCredAndVoucher") {
			return
		}
		key := a.at(mu.Key, in)
		n := 0
		ok = true
		for _, v := range sliceElems(mu.Value) {
			for _, id := range c.generatedWith(a.at(v, in), 0) {
				n++
				ok = ok && id.Key() == key.Key()
			}
		}
		c.ob("voucher by identifier", "filed in "+fnShort(f), ok && n > 0, in.Pos(), "a voucher filed under %s was generated with another identifier", trunc(key.String()))
	})
	c.min("voucher by identifier", 8)
}

// generatedWith: the identifiers given to the generators of the vouchers in a term.
func (c *Ctx) generatedWith(t *Term, d int) []*Term {
	if t == nil || d > 8 {
		return nil
	}
	if t.Op == "call" && t.Fn != nil && inRepo(t.Fn) && strings.Contains(fmt.Sprint(t.Fn.Signature.Results()), "DeviceCredAndVoucher") {
		if i := testIDParam(t.Fn); i >= 0 && i < len(t.Args) {
			return []*Term{t.Args[i]}
		}
	}
	var out []*Term
	for _, x := range t.Args {
		out = append(out, c.generatedWith(x, d+1)...)
	}
	return out
}
