package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C36", "use-def and must-fact analysis of the error result of every call to a storage, signature, hash, MAC, voucher or decryption operation.", c36)
}

// guardedOp: operations whose errors must not be lost.
func (c *Ctx) guardedOps() map[*ssa.Function]string {
	out := map[*ssa.Function]string{}
	store := c.A.reachSet("storage", func(in ssa.Instruction) bool {
		return calleeIs(in, bdg+".(DB).NewTransaction", bdg+".(DB).Update", bdg+".(DB).View", bdg+".(DB).DropPrefix")
	})
	for _, f := range c.P.Funcs {
		if errResult(f) < 0 || f.Parent() != nil {
			continue
		}
		k := fnKey(f)
		n := f.Name()
		switch {
		case f.Signature.Recv() != nil && func() bool {
			m, _ := deref(f.Signature.Recv().Type()).(*types.Named)
			return m != nil && holdsDB(m)
		}() && store[f]:
			out[f] = "storage"
		case strings.HasPrefix(k, "core/device.") && (strings.HasPrefix(n, "GenerateOvEntry") || strings.HasPrefix(n, "NewVirtualDeviceAndVoucher")):
			out[f] = "voucher"
		case strings.HasPrefix(k, "core/shared.") && (strings.HasPrefix(n, "Verify") || strings.HasPrefix(n, "GenerateCoseSignature") || n == "GetOVHeader" || n == "GetFinalOwnerPublicKey" || n == "Validate" && voucherRecv(f) ||
			strings.HasPrefix(n, "decrypt") || strings.HasPrefix(n, "Decrypt") || strings.HasPrefix(n, "encrypt") || strings.HasPrefix(n, "AddEncryptionWrapping") || strings.HasPrefix(n, "RemoveEncryptionWrapping") || strings.HasPrefix(n, "DeriveSessionKey") || strings.HasPrefix(n, "GenerateXABKeyExchange")):
			out[f] = "crypto"
		}
	}
	return out
}

func c36(c *Ctx) {
	ops := c.guardedOps()
	n := map[string]int{}
	for _, k := range sortedFns(ops) {
		f := c.P.fn(k)
		for _, ci := range c.allCallSites(k) {
			n[ops[f]]++
			c.errorUsed(f, ci)
		}
	}
	c.successAfterFailure(ops)
	c.min("error not discarded", 150)
	c.min("result used only after the error check", 60)
	c.min("failure is not reported as success", 50)
	c.samp = append(c.samp, fmt.Sprintf("%d storage and %d cryptographic call sites of %d operations", n["storage"], n["crypto"], len(ops)))
}

func sortedFns[V any](m map[*ssa.Function]V) []string {
	ks := map[string]bool{}
	for f := range m {
		ks[fnKey(f)] = true
	}
	return sortedKeys(ks)
}

// errorUsed: the error of one call is looked at, and the other results are used only where it is known to be nil.
func (c *Ctx) errorUsed(op *ssa.Function, ci ssa.CallInstruction) {
	f := ci.Parent()
	where := fmt.Sprintf("%s in %s", fnKey(op), fnKey(f))
	call, ok := ci.(*ssa.Call)
	if !ok {
		c.ob("error not discarded", where, false, ci.Pos(), "called by go or defer")
		return
	}
	k := errResult(op)
	var ev ssa.Value
	var comp []*ssa.Extract
	if op.Signature.Results().Len() == 1 {
		ev = call
	} else {
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				if e.Index == k {
					ev = e
				} else {
					comp = append(comp, e)
				}
			}
		}
	}
	if ev == nil || len(*ev.Referrers()) == 0 {
		// an operation that cannot fail for the arguments given
		var args []*Term
		for _, x := range call.Call.Args {
			args = append(args, c.A.at(x, call))
		}
		if !c.A.spec(op, args).feasible(op, k, "nonnil") {
			c.ob("error not discarded", where, true, ci.Pos(), "it cannot fail for these arguments")
			return
		}
		if fnKey(op) == noListenerEntry && len(comp) == 1 {
			c.ob("error not discarded", where, true, ci.Pos(), "no entry means that the device is not under test; the pointer is examined instead")
			return
		}
		c.ob("error not discarded", where, false, ci.Pos(), "the error is dropped")
		return
	}
	c.ob("error not discarded", where, true, ci.Pos(), "examined")
	et := c.A.val(ev)
	for _, x := range comp {
		for _, u := range *x.Referrers() {
			if _, dbg := u.(*ssa.DebugRef); dbg {
				continue
			}
			if r, isRet := u.(*ssa.Return); isRet {
				_ = r
				continue
			}
			var fs []*FactSet
			if phi, isPhi := u.(*ssa.Phi); isPhi {
				for i, e := range phi.Edges {
					if e == ssa.Value(x) {
						fs = append(fs, c.A.edgeFacts(c.A.funcFacts(f), phi.Block().Preds[i], phi.Block()))
					}
				}
			} else {
				fs = append(fs, c.A.factsAt(f, u))
			}
			good := true
			if st, isSt := u.(*ssa.Store); isSt {
				if al, ok := st.Addr.(*ssa.Alloc); ok && st.Val == ssa.Value(x) {
					c.localUses(where, f, st, al, et)
					continue
				}
			}
			for _, s := range fs {
				good = good && s != nil && c.A.holds(s, "nil", Same(et), nil) != nil
			}
			c.ob("result used only after the error check", where, good, u.Pos(), "used by %T", u)
		}
	}
}

// successAfterFailure: on no path does a function report success, or a handler start a success answer, after an operation failed.
func (c *Ctx) successAfterFailure(ops map[*ssa.Function]string) {
	starts := c.successStarts()
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		if calleeIs(in, "api/commonapi.RespondSuccess", "api/commonapi.RespondSuccessStruct") {
			starts[in] = true
		}
	})
	isOp := func(in ssa.Instruction) *ssa.Function {
		call, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		g := tsCallee(call)
		if g == nil || ops[g] == "" || fnKey(g) == noListenerEntry {
			return nil
		}
		return g
	}
	run := c.A.newTS(&tsRule{
		name:    "C36",
		isEvent: func(in ssa.Instruction) bool { return isOp(in) != nil || starts[in] },
		opaque: func(f *ssa.Function) bool {
			return ops[f] != "" || f.Package() != nil && pkgQual(f.Package().Pkg) == "testexec" // executors record failures as test results
		},
		event: func(in ssa.Instruction, st string) []tsOutcome {
			if g := isOp(in); g != nil {
				k := errResult(g)
				if tolerated[fnKey(g)+" in "+fnKey(in.Parent())] != "" {
					return []tsOutcome{{st: st, res: map[int]int8{k: clNil}}, {st: st, res: map[int]int8{k: clNon}}}
				}
				return []tsOutcome{{st: st, res: map[int]int8{k: clNil}}, {st: "F", res: map[int]int8{k: clNon}}}
			}
			if starts[in] {
				v := ""
				if st == "F" {
					v = "a success answer is given although an operation failed"
				}
				return []tsOutcome{{st: st, viol: v}}
			}
			return nil
		},
	})
	roots := map[*ssa.Function]bool{}
	for _, m := range fdoMsgs {
		if h := c.handler(m); h != nil {
			roots[h] = true
		}
	}
	for _, r := range c.routes() {
		if r.Handler != nil && strings.HasPrefix(r.Pattern, "/api/") {
			roots[r.Handler] = true
		}
	}
	for _, f := range c.P.Funcs {
		if errResult(f) < 0 || pkgQual(f.Package().Pkg) == "." {
			continue // command line actions report by logging
		}
		eachInstr(f, func(in ssa.Instruction) {
			if isOp(in) != nil {
				roots[f] = true
			}
		})
	}
	for _, k := range sortedFns(roots) {
		f := c.P.fn(k)
		if f == nil {
			continue
		}
		e := errResult(f)
		for _, x := range run.exits(f, "0") {
			if e >= 0 && x.st == "F" && x.res != nil && x.res[e] != clNon {
				run.violate(f, x.pos, "success is returned although an operation failed")
			}
		}
		c.ob("failure is not reported as success", k, true, f.Pos(), "all paths examined")
	}
	for _, v := range run.violations() {
		c.ob("failure is not reported as success", fnKey(v.fn)+": "+v.msg, false, v.pos, "a path on which the error of the operation is not nil reaches this point%s", viaText(v))
	}
}

// failures that are an expected outcome
var tolerated = map[string]string{
	"dbs.(UserTestDB).Get in api.(UserAPI).OnPremNoLogin":                                  "the user is created when missing",
	"core/shared/testcom/dbs.(ListenerTestDB).Get in api/testapi.(DeviceTestMgmtAPI).List": "the listing leaves out and logs what cannot be read",
}

const noListenerEntry = "core/shared/testcom/dbs.(ListenerTestDB).GetEntryByFdoGuid"

func voucherRecv(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && typeBase(deref(f.Signature.Recv().Type())) == "OwnershipVoucher"
}

// localUses: a result kept in a local variable is read only where the error is known to be nil.
func (c *Ctx) localUses(where string, f *ssa.Function, st *ssa.Store, al *ssa.Alloc, et *Term) {
	var uses []ssa.Instruction
	for _, u := range *al.Referrers() {
		if u == ssa.Instruction(st) || u.Block() == nil || u.Parent() != f {
			continue
		}
		if _, dbg := u.(*ssa.DebugRef); dbg {
			continue
		}
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			continue
		}
		if l, ok := u.(*ssa.UnOp); ok && onlyReturned(l) {
			continue
		}
		after := u.Block() != st.Block() && st.Block().Dominates(u.Block())
		if u.Block() == st.Block() {
			for _, in := range st.Block().Instrs {
				if in == ssa.Instruction(st) {
					after = true
				}
				if in == u {
					break
				}
			}
		}
		if after {
			uses = append(uses, u)
		}
	}
	for _, u := range uses {
		c.ob("result used only after the error check", where, c.A.holds(c.A.factsAt(f, u), "nil", Same(et), nil) != nil, u.Pos(), "read by %T", u)
	}
}

func onlyReturned(l *ssa.UnOp) bool {
	for _, r := range *l.Referrers() {
		switch r.(type) {
		case *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
