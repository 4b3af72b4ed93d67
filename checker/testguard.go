package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conformance negative tests select deliberately wrong behaviour by test identifier. testGuards finds, per block,
// the set of negative test identifiers one of which must be selected for the block to run (nil = runs without one).

func isTestIDType(t types.Type) bool { return typeBase(t) == "FDOTestID" }

func (a *Analyzer) negTests() map[string]bool {
	if a.negIDs != nil {
		return a.negIDs
	}
	a.negIDs = map[string]bool{}
	for _, ip := range a.p.Pkgs {
		sc := ip.Types.Scope()
		for _, n := range sc.Names() {
			c, ok := sc.Lookup(n).(*types.Const)
			if !ok || !isTestIDType(c.Type()) || c.Val().Kind() != constant.String {
				continue
			}
			v := constant.StringVal(c.Val())
			if v == "" || strings.HasSuffix(n, "POSITIVE") || strings.Contains(n, "NULL_TEST") {
				a.negIDs[v] = false
				continue
			}
			if _, ok := a.negIDs[v]; !ok {
				a.negIDs[v] = true
			}
		}
	}
	return a.negIDs
}

type tguard struct {
	bot bool            // not reached yet
	set map[string]bool // nil = unguarded
}

func (a *Analyzer) testGuards(f *ssa.Function) map[*ssa.BasicBlock]map[string]bool {
	if g, ok := a.tgMemo[f]; ok {
		return g
	}
	neg := a.negTests()
	in := map[*ssa.BasicBlock]tguard{}
	for _, b := range f.Blocks {
		in[b] = tguard{bot: true}
	}
	if len(f.Blocks) > 0 {
		in[f.Blocks[0]] = tguard{}
		order := rpo(f)
		for ch := true; ch; {
			ch = false
			for _, b := range order {
				if b == f.Blocks[0] {
					continue
				}
				acc := tguard{bot: true}
				for _, p := range b.Preds {
					e := a.edgeGuard(neg, in, p, b)
					if e.bot {
						continue
					}
					if acc.bot {
						acc = e
					} else if acc.set == nil || e.set == nil {
						acc = tguard{}
					} else {
						u := map[string]bool{}
						for k := range acc.set {
							u[k] = true
						}
						for k := range e.set {
							u[k] = true
						}
						acc = tguard{set: u}
					}
				}
				if old := in[b]; old.bot != acc.bot || len(old.set) != len(acc.set) || (old.set == nil) != (acc.set == nil) {
					in[b] = acc
					ch = true
				}
			}
		}
	}
	out := map[*ssa.BasicBlock]map[string]bool{}
	for b, g := range in {
		if !g.bot && g.set != nil {
			out[b] = g.set
		}
	}
	a.tgMemo[f] = out
	return out
}

func (a *Analyzer) edgeGuard(neg map[string]bool, all map[*ssa.BasicBlock]tguard, p, b *ssa.BasicBlock) tguard {
	in := all[p]
	if in.bot {
		return in
	}
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		if s := a.guardIDs(neg, all, iff.Cond, p.Succs[0] == b, 0); s != nil {
			return tguard{set: s}
		}
	}
	return in
}

// edgeTests: the negative identifiers one of which must be selected for control to pass from p to b.
func (a *Analyzer) edgeTests(p, b *ssa.BasicBlock) map[string]bool {
	all := map[*ssa.BasicBlock]tguard{}
	for x, s := range a.testGuards(p.Parent()) {
		all[x] = tguard{set: s}
	}
	return a.edgeGuard(a.negTests(), all, p, b).set
}

// guardIDs: the negative identifiers one of which must be selected for a condition to have the given value (nil: it
// can have it without one). Conditions kept in variables and moved into predicates are followed.
func (a *Analyzer) guardIDs(neg map[string]bool, all map[*ssa.BasicBlock]tguard, v ssa.Value, want bool, d int) map[string]bool {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.guardIDs(neg, all, x.X, !want, d+1)
		}
	case *ssa.BinOp:
		if (x.Op == token.EQL) != want || x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		if !isTestIDType(x.X.Type()) && !isTestIDType(x.Y.Type()) {
			return nil
		}
		for _, o := range []ssa.Value{x.X, x.Y} {
			s := a.constIDs(o, d)
			if s == nil {
				continue
			}
			for id := range s {
				if !neg[id] {
					return nil
				}
			}
			if p, ok := o.(*ssa.Parameter); ok {
				for i, q := range p.Parent().Params {
					if q == p {
						// which one depends on the call: see resolveTests
						return map[string]bool{fmt.Sprintf("?%s#%d", fnKey(p.Parent()), i): true}
					}
				}
			}
			return s
		}
	case *ssa.Phi:
		out := map[string]bool{}
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != want {
				continue
			}
			s := a.guardIDs(neg, all, e, want, d+1)
			if s == nil {
				g := all[x.Block().Preds[i]]
				if g.bot {
					continue
				}
				s = g.set
			}
			if s == nil {
				// the edge itself may be the guarded one
				p := x.Block().Preds[i]
				if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
					s = a.guardIDs(neg, all, iff.Cond, p.Succs[0] == x.Block(), d+1)
				}
			}
			if s == nil {
				return nil
			}
			for id := range s {
				out[id] = true
			}
		}
		if len(out) > 0 {
			return out
		}
	case *ssa.Call:
		_, f := calleeName(&x.Call)
		if f == nil || !inRepo(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 || a.tgBusy[f] {
			return nil
		}
		has := false
		for _, p := range f.Params {
			has = has || isTestIDType(p.Type())
		}
		if !has {
			return nil
		}
		a.tgBusy[f] = true
		defer delete(a.tgBusy, f)
		tg := a.testGuards(f)
		all2 := map[*ssa.BasicBlock]tguard{}
		for _, b := range f.Blocks {
			all2[b] = tguard{set: tg[b]}
		}
		out := map[string]bool{}
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if k, ok := r.Results[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != want {
				continue
			}
			s := a.guardIDs(neg, all2, r.Results[0], want, d+1)
			if s == nil {
				s = tg[b]
			}
			if s == nil {
				return nil
			}
			var ks []*Term
			for _, y := range x.Call.Args {
				ks = append(ks, constOrParam(y))
			}
			for _, id := range resolveIDs(sortedKeys(s), f, ks) {
				out[id] = true
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	return nil
}

func constOrParam(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				t := mk("param", fnKey(x.Parent())+":"+x.Name(), x.Type())
				t.Idx = i
				return t
			}
		}
	}
	return mk("opaque", v.Name(), v.Type())
}

// constIDs: the constant identifiers a value can be (a constant, or a parameter that is given constants everywhere).
func (a *Analyzer) constIDs(v ssa.Value, d int) map[string]bool {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return map[string]bool{constant.StringVal(x.Value): true}
		}
	case *ssa.Parameter:
		if d > 6 || !isTestIDType(x.Type()) {
			return nil
		}
		f := x.Parent()
		k := -1
		for i, p := range f.Params {
			if p == x {
				k = i
			}
		}
		sites, complete := a.staticSites(f)
		if !complete || len(sites) == 0 || k < 0 {
			return nil
		}
		out := map[string]bool{}
		for _, s := range sites {
			as := s.Common().Args
			if k >= len(as) {
				return nil
			}
			m := a.constIDs(as[k], d+3)
			if m == nil {
				return nil
			}
			for id := range m {
				out[id] = true
			}
		}
		return out
	}
	return nil
}

// staticSites: every call of a function, and whether these are all its uses.
func (a *Analyzer) staticSites(f *ssa.Function) ([]ssa.CallInstruction, bool) {
	if a.tgSites == nil {
		a.tgSites = map[*ssa.Function][]ssa.CallInstruction{}
		a.tgEscapes = map[*ssa.Function]bool{}
		for _, g := range a.p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, isCall := in.(ssa.CallInstruction)
					for _, op := range in.Operands(nil) {
						h, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if isCall && ci.Common().Value == ssa.Value(h) {
							a.tgSites[h] = append(a.tgSites[h], ci)
						} else {
							a.tgEscapes[h] = true
						}
					}
				}
			}
		}
	}
	return a.tgSites[f], !a.tgEscapes[f]
}

func testWrap(set map[string]bool, t *Term) *Term {
	if len(set) == 0 || t.Op == "test" {
		return t
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if t.Op == "phi" {
		var as []*Term
		for _, x := range t.Args {
			as = append(as, testWrap(set, x))
		}
		return phiOf(as, t.T)
	}
	return mk("test", strings.Join(ks, "|"), t.T, t)
}

// untest removes the alternatives that only a negative test selects, when others remain.
func untest(t *Term) *Term {
	if t.Op != "phi" {
		return t
	}
	var keep []*Term
	for _, x := range t.Args {
		if x.Op != "test" {
			keep = append(keep, x)
		}
	}
	if len(keep) == 0 || len(keep) == len(t.Args) {
		return t
	}
	return phiOf(keep, t.T)
}
