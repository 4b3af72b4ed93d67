package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Specialisation: the analysis of one function under given argument terms (typically with one enumeration parameter
// bound to a constant). Conditions that become constant prune the control-flow graph, calls to module functions are
// analysed under the actual arguments, and lookups in constant package-level tables are resolved. This is conditional
// constant propagation over provenance terms; it decides what a dispatch on an algorithm identifier selects.

type asm struct {
	m M
	v *Term
}

type specState struct {
	fn       *ssa.Function
	args     []*Term
	assume   []asm
	deadB    map[*ssa.BasicBlock]bool
	deadE    map[[2]*ssa.BasicBlock]bool
	children map[string]*Analyzer
	depth    int
	any      map[sumKey]bool
	stack    map[string]bool
}

// spec analyses f under the given argument terms; a nil argument stays the symbolic parameter.
func (a *Analyzer) spec(f *ssa.Function, args []*Term, assume ...asm) *Analyzer {
	n := newAnalyzer(a.p)
	n.visitedF = a.visitedF
	n.visitedF[f] = true
	full := make([]*Term, len(f.Params))
	for i := range f.Params {
		if i < len(args) && args[i] != nil {
			full[i] = args[i]
		} else {
			full[i] = paramOfTerm(f, i)
		}
	}
	depth := 0
	var st map[string]bool
	if a.sp != nil {
		depth = a.sp.depth + 1
		assume = append(append([]asm(nil), a.sp.assume...), assume...)
		st = a.sp.stack
	}
	ns := map[string]bool{fnKey(f): true}
	for k := range st {
		ns[k] = true
	}
	n.sp = &specState{fn: f, args: full, assume: assume, depth: depth, children: map[string]*Analyzer{}, any: map[sumKey]bool{}, stack: ns}
	n.prune()
	return n
}

func paramOfTerm(f *ssa.Function, i int) *Term {
	t := mk("param", fnKey(f)+":"+f.Params[i].Name(), f.Params[i].Type())
	t.Idx = i
	return t
}

// child is the specialised analysis of the callee of call term t; nil where it is not entered.
func (a *Analyzer) child(t *Term) *Analyzer {
	if a.sp == nil || t.Fn == nil || !inRepo(t.Fn) || len(t.Fn.Blocks) == 0 || a.sp.depth > 6 || a.sp.stack[fnKey(t.Fn)] {
		return nil
	}
	var sb strings.Builder
	sb.WriteString(fnKey(t.Fn))
	for _, x := range t.Args {
		sb.WriteString("|" + x.Key())
	}
	k := sb.String()
	if c, ok := a.sp.children[k]; ok {
		return c
	}
	a.sp.children[k] = nil
	c := a.spec(t.Fn, t.Args)
	a.sp.children[k] = c
	return c
}

func (a *Analyzer) dead(p, b *ssa.BasicBlock) bool {
	return a.sp != nil && (a.sp.deadB[p] || a.sp.deadE[[2]*ssa.BasicBlock{p, b}]) || a.fatal(p)
}

// fatal: the block does not pass control on.
func (a *Analyzer) fatal(b *ssa.BasicBlock) bool {
	r, ok := a.fatalB[b]
	if !ok {
		r = endsInFatal(b)
		a.fatalB[b] = r
	}
	return r
}

func (a *Analyzer) reset() {
	a.vals, a.loads = map[ssa.Value]*Term{}, map[string]*Term{}
	a.ffMemo, a.sumMemo, a.retMemo = map[*ssa.Function]*funcFacts{}, map[sumKey]*FactSet{}, map[string]*Term{}
	a.sp.any = map[sumKey]bool{}
}

func (a *Analyzer) prune() {
	f := a.sp.fn
	a.sp.deadB, a.sp.deadE = map[*ssa.BasicBlock]bool{}, map[[2]*ssa.BasicBlock]bool{}
	for round := 0; round < 8; round++ {
		live := map[*ssa.BasicBlock]bool{}
		deadE := map[[2]*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{f.Blocks[0]}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if live[b] {
				continue
			}
			live[b] = true
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v, known := a.condConst(iff.Cond, iff, 0); known {
					d := b.Succs[1]
					if !v {
						d = b.Succs[0]
					}
					if b.Succs[0] != b.Succs[1] {
						deadE[[2]*ssa.BasicBlock{b, d}] = true
					}
				}
			}
			for _, s := range b.Succs {
				if !deadE[[2]*ssa.BasicBlock{b, s}] {
					work = append(work, s)
				}
			}
		}
		deadB := map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			if !live[b] {
				deadB[b] = true
			}
		}
		same := len(deadB) == len(a.sp.deadB) && len(deadE) == len(a.sp.deadE)
		a.sp.deadB, a.sp.deadE = deadB, deadE
		a.reset()
		if same {
			return
		}
	}
}

// condConst evaluates a branch condition under the specialisation.
func (a *Analyzer) condConst(v ssa.Value, at ssa.Instruction, d int) (val, known bool) {
	if d > 10 {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
		return false, x.Value == nil
	case *ssa.UnOp:
		if x.Op == token.NOT {
			val, known = a.condConst(x.X, x, d+1)
			return !val, known
		}
	case *ssa.Phi:
		first := true
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			if a.dead(pred, x.Block()) {
				continue
			}
			v2, k2 := a.condConst(e, pred.Instrs[len(pred.Instrs)-1], d+1)
			if !k2 || (!first && v2 != val) {
				return false, false
			}
			val, first = v2, false
		}
		return val, !first
	case *ssa.BinOp:
		var isNil, other ssa.Value
		if isNilConst(x.Y) {
			isNil, other = x.Y, x.X
		} else if isNilConst(x.X) {
			isNil, other = x.X, x.Y
		}
		if isNil != nil {
			n, k := a.nilness(a.at(other, x), other)
			if !k {
				return false, false
			}
			return n == (x.Op == token.EQL), true
		}
		if val, known = a.evalCmp(x.Op, a.constOf(a.at(x.X, x)), a.constOf(a.at(x.Y, x))); known {
			return
		}
	}
	t := a.constOf(a.at(v, at))
	if t.Op == "const" && (t.Name == "true" || t.Name == "false") {
		return t.Name == "true", true
	}
	return false, false
}

// constOf: t, expanded as far as needed to be a constant.
func (a *Analyzer) constOf(t *Term) *Term {
	for i := 0; i < 6; i++ {
		if t.Op == "const" {
			return t
		}
		x := a.expand(t)
		if x == nil || x.Key() == t.Key() {
			return t
		}
		t = x
	}
	return t
}

func (a *Analyzer) evalCmp(op token.Token, x, y *Term) (bool, bool) {
	cx, cy := constOfTerm(x), constOfTerm(y)
	if cx == nil || cy == nil || cx.Kind() != cy.Kind() {
		return false, false
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.Compare(cx, op, cy), true
	}
	return false, false
}

func constOfTerm(t *Term) constant.Value {
	if t.Op == "zero" && t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return constant.MakeInt64(0)
			case b.Info()&types.IsString != 0:
				return constant.MakeString("")
			case b.Info()&types.IsBoolean != 0:
				return constant.MakeBool(false)
			}
		}
		return nil
	}
	if t.Op != "const" || t.T == nil {
		return nil
	}
	b, ok := t.T.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsString != 0:
		return constant.MakeString(t.Name)
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(t.Name == "true")
	case b.Info()&types.IsInteger != 0:
		v := constant.MakeFromLiteral(strings.TrimPrefix(t.Name, "-"), token.INT, 0)
		if v.Kind() != constant.Int {
			return nil
		}
		if strings.HasPrefix(t.Name, "-") {
			v = constant.UnaryOp(token.SUB, v, 0)
		}
		return v
	}
	return nil
}

// nilness of a value under the specialisation.
func (a *Analyzer) nilness(t *Term, v ssa.Value) (isNil, known bool) {
	switch v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.FieldAddr, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice:
		return false, true
	}
	return a.nilTerm(t, 0)
}

func (a *Analyzer) nilTerm(t *Term, d int) (isNil, known bool) {
	if d > 6 {
		return
	}
	switch t.Op {
	case "const":
		return t.Name == "nil", true
	case "zero":
		if t.T != nil && isNillable(t.T) {
			return true, true
		}
	case "lit", "make", "func":
		return false, true
	case "phi":
		for i, x := range t.Args {
			n, k := a.nilTerm(x, d+1)
			if !k || (i > 0 && n != isNil) {
				return false, false
			}
			isNil = n
		}
		return isNil, len(t.Args) > 0
	case "call":
		if definitelyNonNil(t.Name) {
			return false, true
		}
		if c := a.child(t); c != nil {
			canNil, canNon := c.feasible(t.Fn, t.Idx, "nil"), c.feasible(t.Fn, t.Idx, "nonnil")
			if canNil != canNon {
				return canNil, true
			}
		}
	}
	return false, false
}

// feasible: can f return with result k in the class?
func (a *Analyzer) feasible(f *ssa.Function, k int, kind string) bool {
	a.summary(f, k, kind)
	return a.sp.any[sumKey{f, k, kind}]
}

// okResult: result k over the returns on which f's error result (if any) can be nil.
func (a *Analyzer) okResult(f *ssa.Function, k int) *Term {
	ei := errResult(f)
	var alts []*Term
	ff := a.funcFacts(f)
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || ff.in[b] == nil || k >= len(r.Results) {
			continue
		}
		if ei >= 0 && ei != k {
			if _, can := a.nilFacts(ff, r.Results[ei], true, r, 0); !can {
				continue
			}
			t := a.at(r.Results[ei], r)
			if _, bad := a.outFacts(ff, b).m[mkFact("nonnil", t, nil).Key()]; bad {
				continue
			}
			if n, known := a.nilTerm(t, 0); known && !n {
				continue
			}
		}
		alts = append(alts, a.at(r.Results[k], r))
	}
	if len(alts) == 0 {
		return nil
	}
	return phiOf(alts, nil)
}

// fix applies the assumed values and folds constants.
func (a *Analyzer) fix(t *Term) *Term {
	if a.sp == nil {
		return t
	}
	switch t.Op {
	case "param", "field", "call", "lookup", "lookupok", "bin", "index", "un":
	default:
		return t
	}
	for _, s := range a.sp.assume {
		if s.m(a, t) {
			return s.v
		}
	}
	switch t.Op {
	case "lookup", "lookupok":
		tab := a.table(t.Args[0])
		if tab == nil {
			return t
		}
		k := constOfTerm(a.constOf(t.Args[1]))
		if k == nil {
			return t
		}
		v, ok := tab[k.ExactString()]
		if t.Op == "lookupok" {
			return mk("const", fmt.Sprint(ok), types.Typ[types.Bool])
		}
		if !ok {
			return mk("zero", typeBaseOf(t.T), t.T)
		}
		return v
	case "bin":
		x, y := constOfTerm(t.Args[0]), constOfTerm(t.Args[1])
		if x == nil || y == nil || x.Kind() != constant.Int || y.Kind() != constant.Int {
			return t
		}
		var op token.Token
		switch t.Name {
		case "+":
			op = token.ADD
		case "-":
			op = token.SUB
		case "*":
			op = token.MUL
		default:
			for o := token.EQL; o <= token.GEQ; o++ {
				if o.String() == t.Name {
					return mk("const", fmt.Sprint(constant.Compare(x, o, y)), types.Typ[types.Bool])
				}
			}
			return t
		}
		return mk("const", wrapInt(constant.BinaryOp(x, op, y), t.T).ExactString(), t.T)
	case "un":
		if k := constOfTerm(t.Args[0]); t.Name == "!" && k != nil && k.Kind() == constant.Bool {
			return mk("const", fmt.Sprint(!constant.BoolVal(k)), types.Typ[types.Bool])
		}
	case "call":
		if t.Name == "len" && len(t.Args) == 1 {
			if n, ok := a.lenOf(t.Args[0]); ok {
				return mk("const", fmt.Sprint(n), types.Typ[types.Int])
			}
		}
	}
	return t
}

// wrapInt: x in the unsigned type t.
func wrapInt(x constant.Value, t types.Type) constant.Value {
	if t == nil {
		return x
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	bits := map[types.BasicKind]uint{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32}[b.Kind()]
	if bits == 0 || x.Kind() != constant.Int {
		return x
	}
	m := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	if constant.Sign(x) < 0 {
		return x
	}
	return constant.BinaryOp(x, token.REM, m)
}

// lenOf: the statically known length of a byte string term.
func (a *Analyzer) lenOf(t *Term) (int64, bool) {
	switch t.Op {
	case "make":
		if len(t.Args) == 1 {
			if k := constOfTerm(t.Args[0]); k != nil {
				return constant.Int64Val(k)
			}
		}
	case "slice":
		lo, hi := constOfTerm(t.Args[1]), constOfTerm(t.Args[2])
		if lo != nil && hi != nil && lo.Kind() == constant.Int && hi.Kind() == constant.Int {
			return constant.Int64Val(constant.BinaryOp(hi, token.SUB, lo))
		}
	case "call":
		if t.Name == "core/shared.NewRandomBuffer" {
			if k := constOfTerm(t.Args[0]); k != nil {
				return constant.Int64Val(k)
			}
		}
		if t.Name == "math/big.(Int).FillBytes" {
			return a.lenOf(t.Args[1])
		}
	}
	return 0, false
}

// table resolves a package-level map that is filled by its initialiser only.
func (a *Analyzer) table(t *Term) map[string]*Term {
	if t.Op != "global" {
		return nil
	}
	return a.p.tableOf(t.Name)
}

var tableMemo = map[string]map[string]*Term{}

// tableOf: constant-key string -> value term, for a package-level map written by its initialiser only; nil otherwise.
func (p *Prog) tableOf(name string) map[string]*Term {
	if m, ok := tableMemo[name]; ok {
		return m
	}
	tableMemo[name] = nil
	i := strings.LastIndex(name, ".")
	ip := p.Short[name[:i]]
	if ip == nil {
		return nil
	}
	sp := p.SSA.Package(ip.Types)
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name[i+1:]].(*ssa.Global)
	ini := sp.Func("init")
	if g == nil || ini == nil {
		return nil
	}
	if _, ok := deref(g.Type()).Underlying().(*types.Map); !ok {
		return nil
	}
	var mv ssa.Value
	n := 0
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				mv = st.Val
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	if p.writtenElsewhere(g) {
		return nil
	}
	an := newAnalyzer(p)
	m := map[string]*Term{}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || mu.Map != mv {
				continue
			}
			k := constOfTerm(an.at(mu.Key, mu))
			if k == nil {
				return nil
			}
			m[k.ExactString()] = an.at(mu.Value, mu)
		}
	}
	tableMemo[name] = m
	return m
}

// writtenElsewhere: the global, or the map it holds, is modified outside its initialiser.
func (p *Prog) writtenElsewhere(g *ssa.Global) bool {
	for _, f := range p.Funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op != ssa.Value(g) {
						continue
					}
					if readByCall(in, g) {
						continue
					}
					u, ok := in.(*ssa.UnOp)
					if !ok || u.Op != token.MUL || changesLoaded(u) {
						return true
					}
				}
			}
		}
	}
	return false
}

// changesLoaded: the map or list loaded by u is changed through it.
func changesLoaded(u *ssa.UnOp) bool {
	for _, r := range *u.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == ssa.Value(u) {
				return true
			}
		case *ssa.IndexAddr:
			if addrStored(r, 0) {
				return true
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
				return true
			}
		}
	}
	return false
}

// readByCall: in passes the address v to a function of the repository that only loads through it.
func readByCall(in ssa.Instruction, v ssa.Value) bool {
	call, ok := in.(*ssa.Call)
	if !ok || call.Call.Value == v {
		return false
	}
	g := call.Call.StaticCallee()
	if g == nil || !inRepo(g) || len(g.Blocks) == 0 || len(call.Call.Args) != len(g.Params) {
		return false
	}
	for i, x := range call.Call.Args {
		if x != v {
			continue
		}
		for _, r := range *g.Params[i].Referrers() {
			u, ok := r.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || changesLoaded(u) {
				return false
			}
		}
	}
	return true
}

// hashStream: for h.Sum(x) on a hash created in the same function, the term hsum(constructor, key…; data…).
func (a *Analyzer) hashStream(c *ssa.Call) *Term {
	cc := c.Common()
	if !cc.IsInvoke() || cc.Method.Name() != "Sum" {
		return nil
	}
	recv := cc.Value
	if _, ok := recv.(*ssa.Phi); ok && a.sp != nil {
		// one live alternative under the specialisation
		recv = a.livePhi(recv)
	}
	mk0, ok := recv.(*ssa.Call)
	if !ok {
		return nil
	}
	name, _ := calleeName(mk0.Common())
	if name == "dyn" {
		ft := a.at(mk0.Call.Value, mk0)
		if ft.Op != "func" {
			return nil
		}
		name = ft.Name
	}
	if !strings.HasSuffix(name, ".New") && !strings.HasSuffix(name, ".New384") && !strings.HasSuffix(name, ".New512") {
		return nil
	}
	var writes, resets []ssa.Instruction
	var uses func(v ssa.Value) bool
	seen := map[ssa.Value]bool{}
	uses = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if a.sp != nil && a.sp.deadB[r.Block()] {
				continue
			}
			switch r := r.(type) {
			case *ssa.Phi:
				if !uses(r) {
					return false
				}
			case *ssa.Call:
				if !r.Call.IsInvoke() || !seen[r.Call.Value] {
					return false
				}
				switch r.Call.Method.Name() {
				case "Write":
					writes = append(writes, r)
				case "Reset":
					resets = append(resets, r)
				case "Sum", "Size", "BlockSize":
				default:
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	if !uses(recv) {
		return nil
	}
	order := map[*ssa.BasicBlock]int{}
	for i, b := range rpo(c.Parent()) {
		order[b] = i
	}
	before := func(x, y ssa.Instruction) bool {
		if x.Block() == y.Block() {
			return siteNo(x) < siteNo(y)
		}
		return x.Block().Dominates(y.Block())
	}
	var ws []ssa.Instruction
	for _, w := range writes {
		if before(w, c) {
			ws = append(ws, w)
		} else if len(resets) == 0 && reachable(w.Block(), c.Block()) && w.Block() != c.Block() {
			return nil // written on some paths only
		}
	}
	// repeated rounds must be separated by a Reset after the Sum
	if reachableStrict(c.Block(), c.Block()) && len(ws) > 0 {
		ok := false
		for _, r := range resets {
			if r.Block() == c.Block() {
				ok = true
			}
		}
		inLoop := false
		for _, w := range ws {
			if reachableStrict(w.Block(), w.Block()) {
				inLoop = true
			}
		}
		if inLoop && !ok {
			return nil
		}
	}
	for i := 1; i < len(ws); i++ {
		for j := i; j > 0 && before(ws[j], ws[j-1]); j-- {
			ws[j], ws[j-1] = ws[j-1], ws[j]
		}
	}
	args := []*Term{}
	for _, x := range mk0.Call.Args {
		args = append(args, a.at(x, mk0))
	}
	t := mk("hnew", name, c.Type(), args...)
	all := []*Term{t}
	for _, w := range ws {
		all = append(all, a.at(w.(*ssa.Call).Call.Args[0], w))
	}
	sum := mk("hsum", "", c.Type(), all...)
	if len(cc.Args) == 1 {
		if k, ok := cc.Args[0].(*ssa.Const); !ok || k.Value != nil {
			if pre := a.at(cc.Args[0], c); !isEmptyTerm(pre) { // Sum appends
				return mk("call", "append", c.Type(), pre, sum)
			}
		}
	}
	return sum
}

func (a *Analyzer) livePhi(v ssa.Value) ssa.Value {
	for i := 0; i < 6; i++ {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return v
		}
		var one ssa.Value
		n := 0
		for j, e := range ph.Edges {
			if !a.dead(ph.Block().Preds[j], ph.Block()) && e != ssa.Value(ph) {
				one = e
				n++
			}
		}
		if n != 1 {
			return v
		}
		v = one
	}
	return v
}

func reachable(x, y *ssa.BasicBlock) bool { return x == y || reachableStrict(x, y) }

func reachableStrict(x, y *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), x.Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == y {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}
