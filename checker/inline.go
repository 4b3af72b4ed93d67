package main

import (
	_ "embed"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules name functions of the analysed program (a signature check, a storage call, a protocol step) and treat a
// call to one as a unit. known.txt lists the functions that existed when the rules were written. A function not in the
// list is one nobody's rule can name: code moved out of a known function, or a new convenience. Its calls are replaced
// by what it returns and by what it stores through its pointer parameters, so that moving code into a helper leaves
// the terms as they were.

//go:embed known.txt
var knownFuncs string

var knownSet map[string]bool

func (a *Analyzer) isHelper(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || !inRepo(f) || a.sp != nil {
		return false
	}
	if knownSet == nil {
		knownSet = map[string]bool{}
		for _, l := range strings.Fields(knownFuncs) {
			knownSet[l] = true
		}
	}
	return !knownSet[fnKey(f)] && f.Synthetic == ""
}

// inlined: result k of a call to a helper, in the caller's terms. Errors and verdicts stay calls: the facts a caller
// learns from them come from the helper's summary.
func (a *Analyzer) inlined(c *ssa.Call, k int, ty types.Type) *Term {
	f := c.Call.StaticCallee()
	if !a.isHelper(f) || k >= f.Signature.Results().Len() || isErrorType(ty) || a.inlining > 8 {
		return nil
	}
	if b, ok := ty.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return nil
	}
	a.inlining++
	defer func() { a.inlining-- }()
	ei := errResult(f)
	var as []*Term
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(r.Results) {
			continue
		}
		t := a.at(r.Results[k], r)
		if ei >= 0 && errorExit(b) && isZeroM(a, t) || a.refusedExit(c, f, r) && isZeroM(a, t) {
			continue
		}
		if tg := a.testGuards(f)[b]; tg != nil {
			t = testWrap(tg, t)
		}
		as = append(as, t)
	}
	if len(as) == 0 {
		return nil
	}
	t := phiOf(as, ty)
	if containsLoop(t) {
		return nil
	}
	var args []*Term
	for _, x := range c.Call.Args {
		args = append(args, a.at(x, c))
	}
	return a.resolveTests(subst(t, f, args), f, args)
}

// refusedExit: the return hands back a false verdict as its last result, and the caller branches on that verdict.
func (a *Analyzer) refusedExit(c *ssa.Call, f *ssa.Function, r *ssa.Return) bool {
	n := len(r.Results) - 1
	if n < 1 {
		return false
	}
	k, ok := r.Results[n].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Bool || constant.BoolVal(k.Value) {
		return false
	}
	for _, u := range *c.Referrers() {
		e, ok := u.(*ssa.Extract)
		if !ok || e.Index != n {
			continue
		}
		for _, w := range *e.Referrers() {
			switch w := w.(type) {
			case *ssa.If:
				return true
			case *ssa.UnOp:
				if w.Op == token.NOT {
					return true
				}
			}
		}
	}
	return false
}

// helperStores: the values that a helper given a pointer into base leaves at base.path; kill: the old value is gone.
func (a *Analyzer) helperStores(ci ssa.CallInstruction, in ssa.Instruction, base ssa.Value, path []string, tys []types.Type, ty types.Type) (ts []*Term, kill, ok bool) {
	f := ci.Common().StaticCallee()
	if !a.isHelper(f) || a.inlining > 8 {
		return nil, false, false
	}
	if _, isDefer := ci.(*ssa.Defer); isDefer {
		return nil, false, false
	}
	at := -1
	var pre []string
	for i, arg := range ci.Common().Args {
		if _, isPtr := underIface(arg).Type().Underlying().(*types.Pointer); !isPtr && underIface(arg) != base {
			continue
		}
		b2, p2, _ := splitAddr(arg)
		if b2 != base || !hasPrefix(path, p2) {
			continue
		}
		if at >= 0 {
			return nil, false, false
		}
		at, pre = i, p2
	}
	if at < 0 || at >= len(f.Params) {
		return nil, false, false
	}
	a.inlining++
	defer func() { a.inlining-- }()
	p := f.Params[at]
	if arg := ci.Common().Args[at]; types.IsInterface(p.Type()) {
		if a.ifaceTy == nil {
			a.ifaceTy = map[ssa.Value]types.Type{}
		}
		saved := a.ifaceTy[p]
		a.ifaceTy[p] = deref(underIface(arg).Type())
		if arg := a.ifaceTy[underIface(arg)]; arg != nil {
			a.ifaceTy[p] = arg
		}
		defer func() { a.ifaceTy[p] = saved }()
	}
	rest, rt := path[len(pre):], tys[len(pre):]
	ei, onlyOK := errResult(f), okChecked(ci, in)
	var as []*Term
	for _, b := range f.Blocks {
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet {
			continue
		}
		if onlyOK && ei >= 0 && a.surelyFails(f, b, ei) {
			continue
		}
		as = append(as, liftTests(a.load0(p, rest, rt, r, ty)))
	}
	if len(as) == 0 {
		return nil, false, false
	}
	old := a.val(p)
	for i, s := range rest {
		if strings.HasPrefix(s, "[") {
			old = mk("index", "", rt[i], old, a.idxTerm(s))
		} else {
			old = projField(old, s, rt[i])
		}
	}
	var args []*Term
	for _, x := range ci.Common().Args {
		args = append(args, a.at(x, ci.(ssa.Instruction)))
	}
	kill = true
	for _, t := range alts(phiOf(as, ty)) {
		if t.Key() == old.Key() {
			kill = false
			continue
		}
		if containsLoop(t) {
			return nil, false, false
		}
		ts = append(ts, a.resolveTests(subst(t, f, args), f, args))
	}
	return ts, kill, true
}

// okChecked: the instruction is reached only after the call's error has been found to be nil.
func okChecked(ci ssa.CallInstruction, in ssa.Instruction) bool {
	call, ok := ci.(*ssa.Call)
	if !ok || call.Referrers() == nil {
		return false
	}
	var errs []ssa.Value
	if isErrorType(call.Type()) {
		errs = append(errs, call)
	}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && isErrorType(e.Type()) {
			errs = append(errs, e)
		}
	}
	for _, e := range errs {
		for _, r := range *e.Referrers() {
			bo, ok := r.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isNilConst(bo.Y) && !isNilConst(bo.X) {
				continue
			}
			for _, u := range *bo.Referrers() {
				iff, ok := u.(*ssa.If)
				if !ok {
					continue
				}
				s := iff.Block().Succs[0]
				if bo.Op == token.NEQ {
					s = iff.Block().Succs[1]
				}
				if len(s.Preds) == 1 && s.Dominates(in.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// resolveTests replaces, in what a helper returns or stores, the identifiers it was given as parameters by the ones
// that this call passes.
func (a *Analyzer) resolveTests(t *Term, f *ssa.Function, args []*Term) *Term {
	pre := "?" + fnKey(f) + "#"
	memo := map[*Term]*Term{}
	var s func(t *Term) *Term
	s = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.Args))
		ch := false
		for i, x := range t.Args {
			na[i] = s(x)
			ch = ch || na[i] != x
		}
		name := t.Name
		if t.Op == "test" && strings.Contains(name, pre) {
			name = strings.Join(resolveIDs(strings.Split(name, "|"), f, args), "|")
			ch = true
		}
		r := t
		if ch {
			switch t.Op {
			case "phi":
				r = phiOf(na, t.T)
			case "field":
				r = projField(na[0], t.Name, t.T)
			default:
				r = mk(t.Op, name, t.T, na...)
				if r.Op == t.Op {
					r.Fn, r.Idx, r.Site = t.Fn, t.Idx, t.Site
				}
			}
		}
		memo[t] = r
		return r
	}
	return s(t)
}

func resolveIDs(ids []string, f *ssa.Function, args []*Term) []string {
	pre := "?" + fnKey(f) + "#"
	set := map[string]bool{}
	for _, id := range ids {
		if strings.HasPrefix(id, pre) {
			k, err := strconv.Atoi(id[len(pre):])
			if err == nil && k < len(args) {
				switch x := strip(args[k]); x.Op {
				case "const":
					id = strings.Trim(x.Name, "\"")
				case "param":
					id = "?" + strings.SplitN(x.Name, ":", 2)[0] + "#" + strconv.Itoa(x.Idx)
				}
			}
		}
		set[id] = true
	}
	return sortedKeys(set)
}

// closureStores: the values that a function literal run by the call leaves in a variable it captures.
func (a *Analyzer) closureStores(ci ssa.CallInstruction, in ssa.Instruction, base ssa.Value, path []string, tys []types.Type, ty types.Type) (ts []*Term, kill, ok bool) {
	call, isCall := ci.(*ssa.Call)
	if !isCall || a.inlining > 8 {
		return nil, false, false
	}
	mc, _ := call.Call.Value.(*ssa.MakeClosure)
	if g, ok := call.Call.Value.(*ssa.Function); ok {
		mc = boundClosure[g]
	}
	if mc == nil && calleeIs(call, bdg+".(DB).View", bdg+".(DB).Update") && len(call.Call.Args) == 2 {
		mc, _ = call.Call.Args[1].(*ssa.MakeClosure)
	}
	if mc == nil {
		return nil, false, false
	}
	g := mc.Fn.(*ssa.Function)
	var fv *ssa.FreeVar
	for i, b := range mc.Bindings {
		if b == base {
			fv = g.FreeVars[i]
		}
	}
	if fv == nil {
		return nil, false, false
	}
	a.inlining++
	defer func() { a.inlining-- }()
	ei, onlyOK := errResult(g), okChecked(ci, in)
	free := mk("free", fnKey(g)+":"+fv.Name(), fv.Type())
	var args []*Term
	for _, x := range call.Call.Args {
		args = append(args, a.at(x, call))
	}
	kill = true
	for _, b := range g.Blocks {
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet || onlyOK && ei >= 0 && a.surelyFails(g, b, ei) {
			continue
		}
		for _, t := range alts(a.load0(fv, path, tys, r, ty)) {
			if t.Key() == free.Key() || strings.Contains(t.String(), free.String()) {
				kill = false
				continue
			}
			if containsLoop(t) {
				return nil, false, false
			}
			if call.Call.StaticCallee() == g {
				t = subst(t, g, args)
			}
			ts = append(ts, t)
		}
	}
	return ts, kill, true
}

// surelyFails: the return in the block reports an error, whatever happened before.
func (a *Analyzer) surelyFails(f *ssa.Function, b *ssa.BasicBlock, k int) bool {
	if !errorExit(b) {
		return false
	}
	r := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if _, isCall := stripIface(r.Results[k]).(*ssa.Call); !isCall {
		if _, isX := stripIface(r.Results[k]).(*ssa.Extract); !isX {
			if _, isPhi := stripIface(r.Results[k]).(*ssa.Phi); !isPhi {
				return true
			}
		}
	}
	ff := a.funcFacts(f)
	if ff.in[b] == nil {
		return true
	}
	if _, feasible := a.nilFacts(ff, r.Results[k], true, r, 0); !feasible {
		return true
	}
	return a.outFacts(ff, b).m[mkFact("nonnil", a.at(r.Results[k], r), nil).Key()] != nil
}
