package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact is something known to have been established on every path to a program point.
//
//	eq/ne/lt/le(A,B), nil/nonnil(A), true/false(A), called(A)
type Fact struct {
	Kind string
	A, B *Term
	R    *Term     // for "all:" facts: what the loop ranges over
	Or   [][]*Fact // for "or" facts: one of these sets holds
	key  string
}

var orTerm = mk("const", "or", nil)

// orFact: one of the sets of facts holds; nil if that says nothing.
func orFact(alts [][]*Fact) *Fact {
	var ks []string
	for _, c := range alts {
		if len(c) == 0 {
			return nil
		}
		k := ""
		for _, f := range c {
			k += "&" + f.Key()
		}
		ks = append(ks, k)
	}
	if len(alts) < 2 {
		return nil
	}
	sort.Strings(ks)
	return &Fact{Kind: "or", A: orTerm, Or: alts, key: "or|" + strings.Join(ks, "|")}
}

// apart: what sets apart the ways in which something came about, beyond what they have in common.
func apart(ways []*FactSet, common *FactSet) *Fact {
	if len(ways) < 2 || len(ways) > 6 || common == nil {
		return nil
	}
	var alts [][]*Fact
	for _, w := range ways {
		var c []*Fact
		for _, f := range w.list() {
			switch f.Kind {
			case "eq", "ne", "lt", "le", "nil", "nonnil", "true", "false":
				if common.m[f.Key()] == nil && len(c) < 12 {
					c = append(c, f)
				}
			}
		}
		alts = append(alts, c)
	}
	return orFact(alts)
}

// mapFact rewrites the terms of a fact.
func mapFact(f *Fact, tr func(*Term) *Term) *Fact {
	if f.Or != nil {
		var alts [][]*Fact
		same := true
		for _, c := range f.Or {
			var d []*Fact
			for _, x := range c {
				y := mapFact(x, tr)
				same = same && x == y
				d = append(d, y)
			}
			alts = append(alts, d)
		}
		if same {
			return f
		}
		return orFact(alts)
	}
	na := tr(f.A)
	var nb, nr *Term
	if f.B != nil {
		nb = tr(f.B)
	}
	if f.R != nil {
		nr = tr(f.R)
	}
	if na == f.A && nb == f.B && nr == f.R {
		return f
	}
	n := mkFact(f.Kind, na, nb)
	n.R = nr
	return n
}

func (f *Fact) Key() string {
	if f.key == "" {
		f.key = f.Kind + "|" + f.A.Key()
		if f.B != nil {
			f.key += "|" + f.B.Key()
		}
		if f.R != nil {
			f.key += "|over " + f.R.Key()
		}
	}
	return f.key
}

func (f *Fact) String() string {
	if f.Or != nil {
		var cs []string
		for _, c := range f.Or {
			var ds []string
			for _, x := range c {
				ds = append(ds, x.String())
			}
			cs = append(cs, strings.Join(ds, " & "))
		}
		return "(" + strings.Join(cs, " or ") + ")"
	}
	if f.R != nil {
		g := *f
		g.R = nil
		return g.String() + " for each of " + f.R.String()
	}
	if f.B != nil {
		return f.Kind + "(" + f.A.String() + ", " + f.B.String() + ")"
	}
	return f.Kind + "(" + f.A.String() + ")"
}

func mkFact(kind string, a, b *Term) *Fact {
	if b != nil && (kind == "eq" || kind == "ne") && a.Key() > b.Key() {
		a, b = b, a
	}
	return &Fact{Kind: kind, A: a, B: b}
}

type FactSet struct {
	m map[string]*Fact
}

func newFS() *FactSet { return &FactSet{m: map[string]*Fact{}} }
func (s *FactSet) add(f *Fact) {
	s.m[f.Key()] = f
}
func (s *FactSet) addAll(o *FactSet) {
	if o == nil {
		return
	}
	for k, f := range o.m {
		s.m[k] = f
	}
}
func (s *FactSet) clone() *FactSet {
	n := &FactSet{m: make(map[string]*Fact, len(s.m))}
	for k, f := range s.m {
		n.m[k] = f
	}
	return n
}
func (s *FactSet) list() []*Fact {
	var ks []string
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*Fact
	for _, k := range ks {
		r = append(r, s.m[k])
	}
	return r
}

func interFS(a, b *FactSet) *FactSet {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	n := newFS()
	for k, f := range a.m {
		if _, ok := b.m[k]; ok {
			n.m[k] = f
		}
	}
	return n
}

func substFact(f *Fact, fn *ssa.Function, args []*Term) *Fact {
	return mapFact(f, func(t *Term) *Term { return subst(t, fn, args) })
}

func substFS(s *FactSet, fn *ssa.Function, args []*Term) *FactSet {
	n := newFS()
	for _, f := range s.m {
		n.add(substFact(f, fn, args))
	}
	return n
}

// funcFacts: block-entry facts of one function, in terms of its own params.
type funcFacts struct {
	in   map[*ssa.BasicBlock]*FactSet // nil = unreachable (top)
	edge map[[2]*ssa.BasicBlock]*FactSet
}

func (a *Analyzer) funcFacts(f *ssa.Function) *funcFacts {
	if ff, ok := a.ffMemo[f]; ok {
		return ff
	}
	ff := &funcFacts{in: map[*ssa.BasicBlock]*FactSet{}, edge: map[[2]*ssa.BasicBlock]*FactSet{}}
	a.ffMemo[f] = ff
	if len(f.Blocks) == 0 {
		return ff
	}
	// iterate to fixpoint; phi decomposition consults the current (optimistic) in-facts of predecessors
	ff.in[f.Blocks[0]] = newFS()
	order := rpo(f)
	for iter := 0; iter < 30; iter++ {
		changed := false
		for _, b := range order {
			if b == f.Blocks[0] {
				continue
			}
			var acc *FactSet
			var ways []*FactSet
			first, back := true, false
			for _, p := range b.Preds {
				back = back || b.Dominates(p)
				if ff.in[p] == nil {
					continue
				}
				e := a.edgeFacts(ff, p, b)
				if e == nil {
					continue
				}
				ways = append(ways, e)
				if first {
					acc = e
					first = false
				} else {
					acc = interFS(acc, e)
				}
			}
			// what distinguishes the ways here may matter to the callers
			if acc != nil && !back && len(ways) > 1 && len(a.tags) > 0 && a.isHelper(f) {
				if x := apart(ways, acc); x != nil {
					acc.add(x)
				}
			}
			if acc == nil {
				if ff.in[b] != nil {
					ff.in[b] = nil
					changed = true
				}
				continue
			}
			if old := ff.in[b]; old == nil || len(old.m) != len(acc.m) || !sameKeys(old, acc) {
				ff.in[b] = acc
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return ff
}

func sameKeys(a, b *FactSet) bool {
	for k := range a.m {
		if _, ok := b.m[k]; !ok {
			return false
		}
	}
	return true
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(f.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// outFacts: facts at the end of block b (before the branch).
func (a *Analyzer) outFacts(ff *funcFacts, b *ssa.BasicBlock) *FactSet {
	in := ff.in[b]
	if in == nil {
		return nil
	}
	s := in.clone()
	for _, ins := range b.Instrs {
		a.instrFacts(s, ins)
	}
	a.tag(s)
	return s
}

// instrFacts adds what executing ins establishes.
func (a *Analyzer) instrFacts(s *FactSet, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Call:
		ct := a.callTerm(x)
		if ct.Op == "call" {
			s.add(mkFact("called", ct, nil))
			if ct.Fn != nil && inRepo(ct.Fn) && len(ct.Fn.Blocks) > 0 {
				s.addAll(a.calleeFacts(ct, -1, "any"))
			}
		}
	}
}

// edgeFacts: facts at the end of p plus the branch condition taken towards b. nil if infeasible.
func (a *Analyzer) edgeFacts(ff *funcFacts, p, b *ssa.BasicBlock) *FactSet {
	if a.dead(p, b) {
		return nil
	}
	s := a.outFacts(ff, p)
	if s == nil {
		return nil
	}
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		pol := p.Succs[0] == b
		cf, feasible := a.condFacts(ff, iff.Cond, pol, iff, 0)
		if !feasible {
			return nil
		}
		s.addAll(cf)
	}
	if a.sp != nil && contradictory(s) {
		return nil
	}
	a.tag(s)
	a.forall(ff, p, b, s)
	return s
}

// contradictory: the set says one value equals two constants, or equals and differs from the same constant.
func contradictory(s *FactSet) bool {
	type ce struct{ eq, ne map[string]bool }
	m := map[string]*ce{}
	for _, f := range s.m {
		if (f.Kind != "eq" && f.Kind != "ne") || f.A == nil || f.B == nil {
			continue
		}
		x, k := f.A, f.B
		if constOfTerm(x) != nil {
			x, k = k, x
		}
		kv := constOfTerm(k)
		if kv == nil || containsLoop(x) {
			continue
		}
		if xv := constOfTerm(x); xv != nil {
			if same := xv.ExactString() == kv.ExactString(); same != (f.Kind == "eq") {
				return true
			}
			continue
		}
		e := m[x.Key()]
		if e == nil {
			e = &ce{map[string]bool{}, map[string]bool{}}
			m[x.Key()] = e
		}
		if f.Kind == "eq" {
			e.eq[kv.ExactString()] = true
		} else {
			e.ne[kv.ExactString()] = true
		}
		if len(e.eq) > 1 {
			return true
		}
		for v := range e.eq {
			if e.ne[v] {
				return true
			}
		}
	}
	return false
}

// tag adds derived facts.
func (a *Analyzer) tag(s *FactSet) {
	if len(a.tags) == 0 {
		return
	}
	for _, f := range s.list() {
		if strings.HasPrefix(f.Kind, "tag:") || strings.HasPrefix(f.Kind, "all:") {
			continue
		}
		if f.Or != nil {
			// what each alternative establishes
			var acc *FactSet
			for _, c := range f.Or {
				w := newFS()
				for _, x := range c {
					w.add(x)
				}
				a.tag(w)
				acc = interFS(acc, w)
			}
			for _, x := range acc.m {
				if strings.HasPrefix(x.Kind, "tag:") {
					s.add(x)
				}
			}
			continue
		}
		k := f.Key()
		ts, ok := a.tagMemo[k]
		if !ok {
			one := newFS()
			one.add(f)
			for _, t := range a.tags {
				for _, r := range t.Alts {
					if a.req(one, r) != nil {
						ts = append(ts, t.Name)
						break
					}
				}
				for i, cj := range t.Conj {
					for j, r := range cj {
						if a.req(one, r) != nil {
							ts = append(ts, fmt.Sprintf("%s#%d.%d", t.Name, i, j))
						}
					}
				}
			}
			a.tagMemo[k] = ts
		}
		for _, t := range ts {
			s.add(tagFact(t))
		}
	}
	for _, t := range a.tags {
		for i, cj := range t.Conj {
			all := len(cj) > 0
			for j := range cj {
				if _, ok := s.m[tagFact(fmt.Sprintf("%s#%d.%d", t.Name, i, j)).Key()]; !ok {
					all = false
					break
				}
			}
			if all {
				s.add(tagFact(t.Name))
			}
		}
	}
}

func tagFact(t string) *Fact { return &Fact{Kind: "tag:" + t, A: mk("const", t, nil)} }

// loopRange: for a loop header b ending in `if i < len(X)`, with i starting at the first element and
// stepping by one, what it ranges over.
func (a *Analyzer) loopRange(b *ssa.BasicBlock) *Term {
	if len(b.Instrs) == 0 {
		return nil
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 0 {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			return a.val(nx.Iter)
		}
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || (bo.Op != token.LSS && bo.Op != token.NEQ) {
		return nil
	}
	ln, ok := bo.Y.(*ssa.Call)
	if !ok {
		return nil
	}
	if bi, ok := ln.Common().Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return nil
	}
	start := "0"
	var phi *ssa.Phi
	switch i := bo.X.(type) {
	case *ssa.Phi:
		phi = i
	case *ssa.BinOp: // range form: i' = phi(-1, i') + 1
		if p, ok := i.X.(*ssa.Phi); ok && i.Op == token.ADD && isConst(i.Y, "1") {
			phi = p
			start = "-1"
		}
	}
	if phi == nil || phi.Block() != b {
		return nil
	}
	for i, e := range phi.Edges {
		if b.Dominates(b.Preds[i]) {
			st, ok := e.(*ssa.BinOp)
			if !ok || st.Op != token.ADD || !isConst(st.Y, "1") {
				return nil
			}
		} else if !isConst(e, start) {
			return nil
		}
	}
	return a.at(ln.Common().Args[0], ln)
}

// forall: leaving a counting/range loop through its header means every iteration reached the back edge.
func (a *Analyzer) forall(ff *funcFacts, p, b *ssa.BasicBlock, s *FactSet) {
	var latches []*ssa.BasicBlock
	for _, q := range p.Preds {
		if p.Dominates(q) {
			latches = append(latches, q)
		}
	}
	if len(latches) == 0 || len(p.Succs) != 2 || p.Succs[1] != b {
		return
	}
	r := a.loopRange(p)
	if r == nil {
		return
	}
	hin := ff.in[p]
	var acc *FactSet
	for _, l := range latches {
		if ff.in[l] == nil {
			continue
		}
		var e *FactSet
		if l == p {
			e = s
		} else {
			e = a.edgeFacts(ff, l, p)
		}
		acc = interFS(acc, e)
	}
	if acc == nil {
		return
	}
	for k, f := range acc.m {
		if _, ok := hin.m[k]; ok || f.Kind == "called" || f.Kind == "or" || strings.HasPrefix(f.Kind, "all:") {
			continue
		}
		s.add(&Fact{Kind: "all:" + f.Kind, A: f.A, B: f.B, R: r})
	}
}

// condFacts: what is known when value v (a bool) equals pol.
func (a *Analyzer) condFacts(ff *funcFacts, v ssa.Value, pol bool, at ssa.Instruction, depth int) (*FactSet, bool) {
	s := newFS()
	if depth > 12 {
		return s, true
	}
	if a.sp != nil {
		if val, known := a.condConst(v, at, 0); known && val != pol {
			return s, false
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return s, (x.Value.ExactString() == "true") == pol
		}
		return s, !pol
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.condFacts(ff, x.X, !pol, x, depth+1)
		}
	case *ssa.ChangeType:
		return a.condFacts(ff, x.X, pol, x, depth+1)
	case *ssa.Phi:
		return a.phiFacts(ff, x, fmt.Sprint(pol), func(e ssa.Value, at ssa.Instruction) (*FactSet, bool) {
			return a.condFacts(ff, e, pol, at, depth+1)
		})
	case *ssa.BinOp:
		op := x.Op
		if !pol {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			default:
				return s, true
			}
		}
		X, Y := x.X, x.Y
		switch op {
		case token.EQL, token.NEQ:
			// boolean comparison
			if c, ok := Y.(*ssa.Const); ok && c.Value != nil && isBool(c.Type()) {
				return a.condFacts(ff, X, (c.Value.ExactString() == "true") == (op == token.EQL), x, depth+1)
			}
			if c, ok := X.(*ssa.Const); ok && c.Value != nil && isBool(c.Type()) {
				return a.condFacts(ff, Y, (c.Value.ExactString() == "true") == (op == token.EQL), x, depth+1)
			}
			if isNilConst(Y) {
				return a.nilFacts(ff, X, op == token.EQL, x, depth+1)
			}
			if isNilConst(X) {
				return a.nilFacts(ff, Y, op == token.EQL, x, depth+1)
			}
			if phi, c := asPhi(X), asConst(Y); phi != nil && c != nil {
				cf, ok := a.constFacts(ff, phi, c, op == token.EQL, x, depth+1)
				if !ok {
					return s, false
				}
				s.addAll(cf)
			} else if phi, c := asPhi(Y), asConst(X); phi != nil && c != nil {
				cf, ok := a.constFacts(ff, phi, c, op == token.EQL, x, depth+1)
				if !ok {
					return s, false
				}
				s.addAll(cf)
			}
			ta, tb := a.at(X, x), a.at(Y, x)
			// three-way comparators
			for _, pr := range [][2]*Term{{ta, tb}, {tb, ta}} {
				c, k := pr[0], pr[1]
				if c.Op == "call" && len(c.Args) >= 2 && k.Op == "const" {
					switch c.Name {
					case "bytes.Compare", "strings.Compare":
						if k.Name == "0" {
							s.add(mkFact(eqKind(op), c.Args[0], c.Args[1]))
						}
					case "crypto/subtle.ConstantTimeCompare":
						if k.Name == "1" {
							s.add(mkFact(eqKind(op), c.Args[0], c.Args[1]))
						}
						if k.Name == "0" {
							o := token.EQL
							if op == token.EQL {
								o = token.NEQ
							}
							s.add(mkFact(eqKind(o), c.Args[0], c.Args[1]))
						}
					}
				}
			}
			s.add(mkFact(eqKind(op), ta, tb))
			return s, true
		case token.LSS:
			s.add(mkFact("lt", a.at(X, x), a.at(Y, x)))
		case token.GTR:
			s.add(mkFact("lt", a.at(Y, x), a.at(X, x)))
		case token.LEQ:
			s.add(mkFact("le", a.at(X, x), a.at(Y, x)))
		case token.GEQ:
			s.add(mkFact("le", a.at(Y, x), a.at(X, x)))
		}
		return s, true
	}
	t := a.at(v, at)
	kind := "false"
	if pol {
		kind = "true"
	}
	s.add(mkFact(kind, t, nil))
	if t.Op == "call" {
		if len(t.Args) >= 2 && isEqualFn(t.Name) {
			k := "ne"
			if pol {
				k = "eq"
			}
			s.add(mkFact(k, t.Args[0], t.Args[1]))
		}
		if len(t.Args) == 2 && strings.HasPrefix(t.Name, "slices.Contains") && !strings.HasPrefix(t.Name, "slices.ContainsFunc") && t.Args[0].Op == "lit" {
			var alts [][]*Fact
			for _, kv := range t.Args[0].Args {
				alts = append(alts, []*Fact{mkFact("eq", t.Args[1], kv.Args[0])})
				if !pol {
					s.add(mkFact("ne", t.Args[1], kv.Args[0]))
				}
			}
			if pol && len(alts) == 1 {
				s.add(alts[0][0])
			} else if f := orFact(alts); pol && f != nil {
				s.add(f)
			}
		}
		if t.Fn != nil && inRepo(t.Fn) && len(t.Fn.Blocks) > 0 {
			s.addAll(a.calleeFacts(t, t.Idx, kind))
		}
	}
	return s, true
}

func eqKind(op token.Token) string {
	if op == token.EQL {
		return "eq"
	}
	return "ne"
}

func isEqualFn(n string) bool {
	switch n {
	case "bytes.Equal", "reflect.DeepEqual", "crypto/hmac.Equal", "slices.Equal", "strings.EqualFold":
		return true
	}
	return strings.HasSuffix(n, ").Equal") && !strings.HasPrefix(n, "core/")
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool || ok && b.Kind() == types.UntypedBool
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && isNillable(c.Type())
}

// phiFacts intersects what each feasible incoming edge implies.
//
// A loop-carried value that reaches itself with the same outcome contributes no edge of its own: the value had that
// outcome in an earlier iteration. Only tags (statements that a comparison has been made) survive that step, since
// other facts may speak of what a loop variable was then.
func (a *Analyzer) phiFacts(ff *funcFacts, phi *ssa.Phi, kind string, each func(e ssa.Value, at ssa.Instruction) (*FactSet, bool)) (*FactSet, bool) {
	if k, busy := a.phiBusy[phi]; busy {
		if k != kind {
			return newFS(), true
		}
		a.phiRecur++
		return nil, false
	}
	if a.phiBusy == nil {
		a.phiBusy = map[*ssa.Phi]string{}
	}
	a.phiBusy[phi] = kind
	defer delete(a.phiBusy, phi)
	recur := a.phiRecur
	var acc *FactSet
	var ways []*FactSet
	any := false
	for i, e := range phi.Edges {
		pred := phi.Block().Preds[i]
		cf, ok := each(e, pred.Instrs[len(pred.Instrs)-1])
		if !ok {
			continue
		}
		var ef *FactSet
		if ff.in[pred] == nil {
			continue // unreachable (or not yet reached: optimistic)
		}
		ef = a.edgeFacts(ff, pred, phi.Block())
		if ef == nil {
			continue
		}
		ef.addAll(cf)
		a.tag(ef)
		any = true
		acc = interFS(acc, ef)
		ways = append(ways, ef)
	}
	if !any {
		return newFS(), true
	}
	if f := apart(ways, acc); f != nil && a.sp == nil {
		acc.add(f)
	}
	if a.phiRecur != recur {
		for k, f := range acc.m {
			if !strings.HasPrefix(f.Kind, "tag:") {
				delete(acc.m, k)
			}
		}
	}
	return acc, true
}

// asPhi: a value that one of several paths chose, here or in the function that returned it.
func asPhi(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Phi:
			return x
		case *ssa.Extract, *ssa.Call:
			return x
		}
		return nil
	}
}

func asConst(v ssa.Value) *ssa.Const {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && !isBool(c.Type()) {
		return c
	}
	return nil
}

// constFacts: what is known when v ==/!= the constant k, v being chosen by the paths that lead to it.
func (a *Analyzer) constFacts(ff *funcFacts, v ssa.Value, k *ssa.Const, eq bool, at ssa.Instruction, depth int) (*FactSet, bool) {
	s := newFS()
	if depth > 12 {
		return s, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != k.Value.Kind() {
			return s, true
		}
		return s, constant.Compare(x.Value, token.EQL, k.Value) == eq
	case *ssa.ChangeType:
		return a.constFacts(ff, x.X, k, eq, at, depth+1)
	case *ssa.Phi:
		return a.phiFacts(ff, x, fmt.Sprint("const ", eq, k.Value.ExactString()), func(e ssa.Value, at ssa.Instruction) (*FactSet, bool) {
			return a.constFacts(ff, e, k, eq, at, depth+1)
		})
	case *ssa.Extract, *ssa.Call:
		call, idx := callResult(v)
		if call == nil || a.sp != nil || !a.isHelper(call.Call.StaticCallee()) {
			return s, true
		}
		g := call.Call.StaticCallee()
		kind := fmt.Sprint("const ", eq, k.Value.ExactString())
		if a.kConst == nil {
			a.kConst = map[string]*ssa.Const{}
		}
		a.kConst[kind] = k
		sm := a.summary(g, idx, kind)
		if a.never[sumKey{g, idx, kind}] {
			return s, false
		}
		if sm != nil {
			var args []*Term
			for _, x := range call.Call.Args {
				args = append(args, a.at(x, call))
			}
			s.addAll(substFS(sm, g, args))
		}
	}
	return s, true
}

// callResult: the call that produced v, and which of its results v is.
func callResult(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		if x.Call.Signature().Results().Len() == 1 {
			return x, 0
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

// nilFacts: what is known when v ==/!= nil.
func (a *Analyzer) nilFacts(ff *funcFacts, v ssa.Value, isNil bool, at ssa.Instruction, depth int) (*FactSet, bool) {
	s := newFS()
	if depth > 12 {
		return s, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return s, (x.Value == nil) == isNil
	case *ssa.Phi:
		return a.phiFacts(ff, x, fmt.Sprint("nil ", isNil), func(e ssa.Value, at ssa.Instruction) (*FactSet, bool) {
			return a.nilFacts(ff, e, isNil, at, depth+1)
		})
	case *ssa.MakeInterface:
		if isNil {
			return s, false
		}
		return s, true
	case *ssa.ChangeInterface:
		return a.nilFacts(ff, x.X, isNil, at, depth+1)
	case *ssa.ChangeType:
		return a.nilFacts(ff, x.X, isNil, at, depth+1)
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice:
		if isNil {
			return s, false
		}
		return s, true
	}
	if call, idx := callResult(v); call != nil && a.sp == nil && a.isHelper(call.Call.StaticCallee()) && !isErrorType(v.Type()) {
		// a helper's result stands for its value: what its being nil says of the helper
		g := call.Call.StaticCallee()
		kind := "nonnil"
		if isNil {
			kind = "nil"
		}
		sm := a.summary(g, idx, kind)
		if a.never[sumKey{g, idx, kind}] {
			return s, false
		}
		if sm != nil {
			var args []*Term
			for _, x := range call.Call.Args {
				args = append(args, a.at(x, call))
			}
			s.addAll(substFS(sm, g, args))
		}
	}
	t := a.at(v, at)
	if a.sp != nil {
		if n, known := a.nilTerm(t, 0); known && n != isNil {
			return s, false
		}
	}
	fs, ok := a.nilTermFacts(t, isNil)
	s.addAll(fs)
	return s, ok
}

// nilTested: every way to b takes the branch of a test of v that finds it nil (isNil) or not nil.
func nilTested(v ssa.Value, b *ssa.BasicBlock, isNil bool) bool {
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != p || p.Succs[0] == p.Succs[1] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
			continue
		}
		if (bo.Op == token.EQL && (p.Succs[0] == d) == isNil) || (bo.Op == token.NEQ && (p.Succs[1] == d) == isNil) {
			return true
		}
	}
	return false
}

func (a *Analyzer) nilTermFacts(t *Term, isNil bool) (*FactSet, bool) {
	s := newFS()
	kind := "nonnil"
	if isNil {
		kind = "nil"
	}
	switch t.Op {
	case "const":
		return s, (t.Name == "nil") == isNil
	case "test":
		return a.nilTermFacts(t.Args[0], isNil)
	case "phi":
		var acc *FactSet
		any := false
		for _, x := range t.Args {
			fs, ok := a.nilTermFacts(x, isNil)
			if !ok {
				continue
			}
			any = true
			acc = interFS(acc, fs)
		}
		s.add(mkFact(kind, t, nil))
		if any {
			s.addAll(acc)
		}
		return s, any
	case "global":
		if isNil && a.p.errorGlobal(t.Name) {
			return s, false
		}
	case "call":
		if definitelyNonNil(t.Name) {
			return s, !isNil
		}
	}
	s.add(mkFact(kind, t, nil))
	if t.Op == "call" && t.Fn != nil && inRepo(t.Fn) && len(t.Fn.Blocks) > 0 {
		s.addAll(a.calleeFacts(t, t.Idx, kind))
		if a.never[sumKey{t.Fn, t.Idx, kind}] {
			return s, false
		}
	}
	if g := txnBody(t); g != nil && isNil {
		// the database runs the function and reports its error
		s.addAll(a.summary(g, 0, "nil"))
	}
	return s, true
}

// txnBody: the function that a call of DB.View or DB.Update runs.
func txnBody(t *Term) *ssa.Function {
	if t.Op == "call" && (t.Name == bdg+".(DB).View" || t.Name == bdg+".(DB).Update") && len(t.Args) == 2 && t.Args[1].Op == "func" && t.Args[1].Fn != nil && len(t.Args[1].Fn.Blocks) > 0 {
		return t.Args[1].Fn
	}
	return nil
}

func definitelyNonNil(name string) bool {
	return name == "errors.New" || name == "fmt.Errorf"
}

// calleeFacts: what a call's outcome class implies, in the caller's terms.
func (a *Analyzer) calleeFacts(t *Term, k int, kind string) *FactSet {
	if a.sp != nil {
		if c := a.child(t); c != nil {
			if sm := c.summary(t.Fn, k, kind); sm != nil {
				return sm
			}
		}
		return newFS()
	}
	if sm := a.summary(t.Fn, k, kind); sm != nil {
		return substFS(sm, t.Fn, t.Args)
	}
	return newFS()
}

type sumKey struct {
	f    *ssa.Function
	k    int
	kind string
}

// summary: the facts that hold whenever f returned with result k in class kind (nil/nonnil/true/false) — or on
// every return, for kind "any" — in terms of f's parameters.
func (a *Analyzer) summary(f *ssa.Function, k int, kind string) *FactSet {
	key := sumKey{f, k, kind}
	if s, ok := a.sumMemo[key]; ok {
		return s
	}
	if a.sumBusy[key] || len(a.sumBusy) > 24 {
		return nil
	}
	a.sumBusy[key] = true
	defer delete(a.sumBusy, key)
	saved, savedPhi := a.busy, a.phiBusy
	a.busy, a.phiBusy = map[ssa.Value]bool{}, map[*ssa.Phi]string{}
	defer func() { a.busy, a.phiBusy = saved, savedPhi }()
	a.visitedF[f] = true
	ff := a.funcFacts(f)
	var acc *FactSet
	var ways []*FactSet
	any := false
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 || ff.in[b] == nil {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		s := a.outFacts(ff, b)
		if kind != "any" {
			if k < 0 || k >= len(r.Results) {
				continue
			}
			var cf *FactSet
			feasible := true
			v := r.Results[k]
			switch kind {
			case "nil", "nonnil":
				cf, feasible = a.nilFacts(ff, v, kind == "nil", r, 0)
				if feasible {
					// contradiction with what is already known at this return
					opp := "nonnil"
					if kind == "nonnil" {
						opp = "nil"
					}
					t := a.at(v, r)
					if _, bad := s.m[mkFact(opp, t, nil).Key()]; bad {
						feasible = false
					}
					if nilTested(v, b, kind != "nil") {
						feasible = false
					}
				}
			case "true", "false":
				cf, feasible = a.condFacts(ff, v, kind == "true", r, 0)
			default:
				cf, feasible = a.constFacts(ff, v, a.kConst[kind], strings.HasPrefix(kind, "const true"), r, 0)
			}
			if !feasible {
				continue
			}
			s.addAll(cf)
			a.tag(s)
		}
		any = true
		acc = interFS(acc, s)
		ways = append(ways, s)
	}
	if any && a.isHelper(f) {
		if f := apart(ways, acc); f != nil {
			acc = acc.clone()
			acc.add(f)
		}
	}
	if !any {
		acc = newFS()
		if a.sp == nil && len(f.Blocks) > 0 {
			a.never[key] = true
		}
	}
	if a.sp != nil {
		a.sp.any[key] = any
	}
	a.sumMemo[key] = acc
	return acc
}

// factsAt: facts established on every path from f's entry to just before ins.
func (a *Analyzer) factsAt(f *ssa.Function, ins ssa.Instruction) *FactSet {
	ff := a.funcFacts(f)
	b := ins.Block()
	in := ff.in[b]
	if in == nil {
		return nil
	}
	s := in.clone()
	for _, x := range b.Instrs {
		if x == ins {
			break
		}
		a.instrFacts(s, x)
	}
	a.tag(s)
	return s
}

// ---------- context sensitive effect traversal ----------

// Effect is an occurrence of an effect instruction reached from an entry through a chain of calls.
type Effect struct {
	Instr ssa.Instruction
	Fn    *ssa.Function
	Facts *FactSet
	Args  []*Term // for calls: actual arguments in entry terms (receiver first)
	Call  *Term
	Chain []string
	Top   ssa.Instruction // the instruction of the entry function that leads here
	tr    func(*Term) *Term
}

// Translate brings a term of the effect's own function into entry terms.
func (e *Effect) Translate(t *Term) *Term { return e.tr(t) }

type effectPred func(in ssa.Instruction) bool

// reachSet: module functions that contain (transitively) an instruction satisfying pred.
func (a *Analyzer) reachSet(name string, pred effectPred) map[*ssa.Function]bool {
	if name != "" {
		if m, ok := a.reach[name]; ok {
			return m
		}
	}
	m := map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					m[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range a.p.Funcs {
			if m[f] {
				continue
			}
			for _, g := range callees(f) {
				if m[g] {
					m[f] = true
					ch = true
					break
				}
			}
		}
	}
	if name != "" {
		a.reach[name] = m
	}
	return m
}

var calleesMemo = map[*ssa.Function][]*ssa.Function{}

// callees: static callees, closures created, and method values bound in f.
func callees(f *ssa.Function) []*ssa.Function {
	if c, ok := calleesMemo[f]; ok {
		return c
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				add(unwrapBound(c.Common().StaticCallee()))
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					add(unwrapBound(v))
				case *ssa.MakeClosure:
					add(unwrapBound(v.Fn.(*ssa.Function)))
				}
			}
		}
	}
	calleesMemo[f] = out
	return out
}

// unwrapBound maps synthetic bound-method wrappers/thunks to the method itself.
func unwrapBound(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if f.Synthetic != "" && f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			if g := f.Prog.FuncValue(fo); g != nil {
				return g
			}
		}
	}
	return f
}

// effects enumerates every occurrence of pred reachable from entry with the facts that must hold there.
// opaque functions are not entered.
func (a *Analyzer) effects(entry *ssa.Function, pred effectPred, opaque func(*ssa.Function) bool) []*Effect {
	reach := a.reachSet("", pred)
	var out []*Effect
	var visit func(f *ssa.Function, facts *FactSet, tr func(*Term) *Term, stack []*ssa.Function, top ssa.Instruction)
	visit = func(f *ssa.Function, inherited *FactSet, tr func(*Term) *Term, stack []*ssa.Function, top ssa.Instruction) {
		a.visitedF[f] = true
		stack = append(stack, f)
		ff := a.funcFacts(f)
		for _, b := range f.Blocks {
			if ff.in[b] == nil {
				continue
			}
			for _, in := range b.Instrs {
				isEff := pred(in)
				at := top
				if at == nil {
					at = in
				}
				var sub *ssa.Function
				var args []*Term
				if c, ok := in.(ssa.CallInstruction); ok {
					g := unwrapBound(c.Common().StaticCallee())
					if isEff || (g != nil && inRepo(g) && reach[g]) {
						for _, x := range c.Common().Args {
							args = append(args, tr(a.at(x, in)))
						}
						if c.Common().IsInvoke() {
							args = append([]*Term{tr(a.at(c.Common().Value, in))}, args...)
						}
					}
					if g != nil && inRepo(g) && reach[g] && len(g.Blocks) > 0 {
						sub = g
					}
				} else if mc, ok := in.(*ssa.MakeClosure); ok {
					g := unwrapBound(mc.Fn.(*ssa.Function))
					if inRepo(g) && reach[g] && !onlyCalled(mc) {
						sub = g
					}
				}
				if !isEff && sub == nil {
					continue
				}
				local := a.factsAt(f, in)
				if local == nil {
					continue
				}
				facts := inherited.clone()
				for _, x := range local.m {
					facts.add(mapFact(x, tr))
				}
				if len(stack) > 1 {
					a.tag(facts)
				}
				if isEff {
					var ch []string
					for _, s := range stack {
						ch = append(ch, fnKey(s))
					}
					e := &Effect{Instr: in, Fn: f, Facts: facts, Args: args, Chain: ch, Top: at, tr: tr}
					narrowNil(e)
					out = append(out, e)
				}
				if sub != nil && (opaque == nil || !opaque(sub)) {
					rec := false
					for _, s := range stack {
						if s == sub {
							rec = true
						}
					}
					if rec || len(stack) > 12 {
						continue
					}
					ar := args
					sf := sub
					ntr := func(t *Term) *Term { return subst(t, sf, ar) }
					if _, ok := in.(*ssa.MakeClosure); ok {
						// closure params stay symbolic; captured values are resolved in the parent's terms
						ntr = tr
					} else if sub.Parent() != nil {
						outer := tr
						ntr = func(t *Term) *Term { return subst(outer(t), sf, ar) }
					}
					visit(sub, facts, ntr, stack, at)
				}
			}
		}
	}
	visit(entry, newFS(), func(t *Term) *Term { return t }, nil, nil)
	return out
}

// onlyCalled: a closure that is called where it is visible and never handed on.
func onlyCalled(mc *ssa.MakeClosure) bool {
	if localClosures[mc] {
		return true
	}
	n := 0
	for _, r := range *mc.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if x.Call.Value != ssa.Value(mc) {
				return false
			}
			for _, y := range x.Call.Args {
				if y == ssa.Value(mc) {
					return false
				}
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

// useFacts: facts that hold wherever the value that in makes or stores is used, its paths to the uses considered; nil if nothing is known.
func (a *Analyzer) useFacts(in ssa.Instruction, depth int) *FactSet {
	if depth > 4 {
		return nil
	}
	f := in.Parent()
	ff := a.funcFacts(f)
	var out *FactSet
	n := 0
	meet := func(s *FactSet) {
		if s == nil {
			return
		}
		if n++; n == 1 {
			out = s
		} else {
			out = interFS(out, s)
		}
	}
	if st, ok := in.(*ssa.Store); ok {
		addr := st.Addr
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			addr = fa.X
		}
		al, ok := addr.(*ssa.Alloc)
		if !ok {
			return nil
		}
		over := func(x ssa.Instruction) bool {
			s2, ok := x.(*ssa.Store)
			if !ok || s2 == st {
				return false
			}
			if s2.Addr == ssa.Value(al) {
				return true
			}
			f1, ok1 := st.Addr.(*ssa.FieldAddr)
			f2, ok2 := s2.Addr.(*ssa.FieldAddr)
			return ok1 && ok2 && f2.X == ssa.Value(al) && f1.Field == f2.Field
		}
		// does the stored value survive to the end of block b?
		var lives func(b *ssa.BasicBlock, upto ssa.Instruction, seen map[*ssa.BasicBlock]bool) bool
		lives = func(b *ssa.BasicBlock, upto ssa.Instruction, seen map[*ssa.BasicBlock]bool) bool {
			i := len(b.Instrs)
			if upto != nil {
				for i = 0; b.Instrs[i] != upto; i++ {
				}
			}
			for i--; i >= 0; i-- {
				if b.Instrs[i] == ssa.Instruction(st) {
					return true
				}
				if over(b.Instrs[i]) {
					return false
				}
			}
			for _, p := range b.Preds {
				if !seen[p] {
					seen[p] = true
					if lives(p, nil, seen) {
						return true
					}
				}
			}
			return false
		}
		for _, r := range *al.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			if s2, ok := r.(*ssa.Store); ok && s2.Addr == ssa.Value(al) {
				continue
			}
			if fa, ok := r.(*ssa.FieldAddr); ok {
				w := true
				for _, u := range *fa.Referrers() {
					s2, isSt := u.(*ssa.Store)
					_, isDbg := u.(*ssa.DebugRef)
					w = w && (isDbg || isSt && s2.Addr == ssa.Value(fa))
				}
				if w {
					continue
				}
			}
			if ff.in[r.Block()] == nil || !lives(r.Block(), r, map[*ssa.BasicBlock]bool{}) {
				continue
			}
			s := a.factsAt(f, r)
			if s == nil {
				continue
			}
			for b := r.Block(); b != nil && b != st.Block(); b = b.Idom() {
				var w *FactSet
				some, all := false, true
				for _, p := range b.Preds {
					if !lives(p, nil, map[*ssa.BasicBlock]bool{}) {
						all = false
						continue
					}
					e := a.edgeFacts(ff, p, b)
					if e == nil {
						continue
					}
					if !some {
						w, some = e, true
					} else {
						w = interFS(w, e)
					}
				}
				if !all && some {
					s.addAll(w)
				}
				cut := false
				for _, x := range b.Instrs {
					cut = cut || over(x)
				}
				if cut {
					break
				}
			}
			if ld, ok := r.(*ssa.UnOp); ok {
				if m := a.useFacts(ld, depth+1); m != nil {
					s.addAll(m)
				}
			}
			meet(s)
		}
		return out
	}
	v, ok := in.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for i, e := range r.Edges {
				if e != v {
					continue
				}
				s := a.edgeFacts(ff, r.Block().Preds[i], r.Block())
				if s == nil {
					continue
				}
				if m := a.useFacts(r, depth+1); m != nil {
					s = s.clone()
					s.addAll(m)
				}
				meet(s)
			}
		case *ssa.Store:
			s := a.factsAt(f, r)
			if s == nil {
				continue
			}
			if r.Val == v {
				if m := a.useFacts(r, depth+1); m != nil {
					s.addAll(m)
				}
			}
			meet(s)
		default:
			meet(a.factsAt(f, r))
		}
	}
	return out
}

// used: the effect with the facts that hold where the value it makes is used.
func (a *Analyzer) used(e *Effect) {
	s := a.useFacts(e.Instr, 0)
	if s == nil {
		return
	}
	fs := e.Facts.clone()
	for _, x := range s.m {
		fs.add(mapFact(x, e.tr))
	}
	e.Facts = fs
}

var errGlobalMemo = map[string]bool{}

// errorGlobal: a package-level error that its initialiser creates and nothing reassigns.
func (p *Prog) errorGlobal(name string) bool {
	if v, ok := errGlobalMemo[name]; ok {
		return v
	}
	errGlobalMemo[name] = false
	i := strings.LastIndex(name, ".")
	ip := p.Short[name[:i]]
	if ip == nil {
		return false
	}
	sp := p.SSA.Package(ip.Types)
	if sp == nil {
		return false
	}
	g, _ := sp.Members[name[i+1:]].(*ssa.Global)
	ini := sp.Func("init")
	if g == nil || ini == nil {
		return false
	}
	n, good := 0, 0
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				n++
				if c, ok := st.Val.(*ssa.Call); ok {
					if nm, _ := calleeName(c.Common()); definitelyNonNil(nm) {
						good++
					}
				}
			}
		}
	}
	errGlobalMemo[name] = n == 1 && good == 1 && !p.writtenElsewhere(g)
	return errGlobalMemo[name]
}

// narrowNil: an alternative nil of a value that is known not to be nil here is no alternative of it.
func narrowNil(e *Effect) {
	to := map[string]*Term{}
	for _, f := range e.Facts.m {
		if f.Kind != "nonnil" || f.A.Op != "phi" {
			continue
		}
		var as []*Term
		for _, x := range f.A.Args {
			if !(x.Op == "const" && x.Name == "nil" || x.Op == "zero" && x.T != nil && isNillable(x.T)) {
				as = append(as, x)
			}
		}
		if len(as) > 0 && len(as) < len(f.A.Args) {
			to[f.A.Key()] = phiOf(as, f.A.T)
		}
	}
	if len(to) == 0 {
		return
	}
	memo := map[*Term]*Term{}
	var nar func(t *Term) *Term
	nar = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		r := t
		if x, ok := to[t.Key()]; ok {
			r = x
		} else {
			var as []*Term
			ch := false
			for _, x := range t.Args {
				y := nar(x)
				ch = ch || y != x
				as = append(as, y)
			}
			if ch {
				n := *t
				n.key, n.Args = "", as
				r = &n
			}
		}
		memo[t] = r
		return r
	}
	fs := newFS()
	for _, f := range e.Facts.m {
		na, nb, nr := nar(f.A), nar(f.B), nar(f.R)
		if na == f.A && nb == f.B && nr == f.R {
			fs.add(f)
			continue
		}
		n := mkFact(f.Kind, na, nb)
		n.R = nr
		fs.add(n)
	}
	e.Facts = fs
	for i, x := range e.Args {
		e.Args[i] = nar(x)
	}
	tr := e.tr
	e.tr = func(t *Term) *Term { return nar(tr(t)) }
}
