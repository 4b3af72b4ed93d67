package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a symbolic provenance expression for a value: where it came from, with
// pointers and conversions made transparent and memory loads resolved to their reaching stores.
type Term struct {
	Op   string // const param free global call field index phi bin un zero out lit make lookup slice func loop opaque elem range
	Name string
	Args []*Term
	T    types.Type
	Fn   *ssa.Function // call: static callee (if any)
	Idx  int           // call: result index; param: index
	Site ssa.Instruction
	key  string
	size int
}

const maxTermSize = 4000

func mk(op, name string, t types.Type, args ...*Term) *Term {
	sz := 1
	for _, a := range args {
		sz += a.size
	}
	tm := &Term{Op: op, Name: name, Args: args, T: t, size: sz}
	if sz > maxTermSize {
		tm = &Term{Op: "opaque", Name: "big:" + op + ":" + name, T: t, size: 1}
	}
	return tm
}

func (t *Term) Key() string {
	if t.key != "" {
		return t.key
	}
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('~')
	sb.WriteString(t.Name)
	if t.Op == "call" || t.Op == "out" || t.Op == "param" {
		fmt.Fprintf(&sb, "#%d", t.Idx)
	}
	if t.Op == "field" && t.T != nil {
		// name carries owner already
	}
	if t.Site != nil {
		fmt.Fprintf(&sb, "@%s/%d", fnKey(t.Site.Parent()), siteNo(t.Site))
	}
	if len(t.Args) > 0 {
		sb.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.Key())
		}
		sb.WriteByte(')')
	}
	t.key = sb.String()
	return t.key
}

// String is the human form: no call sites.
func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.Name
	case "param":
		return t.Name
	case "field":
		n := t.Name
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = n[i+1:]
		}
		return t.Args[0].str(d+1) + "." + n
	case "call":
		n := t.Name
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		if t.Idx > 0 {
			return fmt.Sprintf("%s(%s)#%d", n, as(), t.Idx)
		}
		return n + "(" + as() + ")"
	case "out":
		n := t.Name
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return typeBaseOf(t.T) + "<-" + n + "(" + as() + ")"
	case "prev":
		return "prev[" + as() + "]"
	case "test":
		return "intest[" + as() + "]"
	case "phi":
		return "{" + strings.ReplaceAll(as(), ", ", "|") + "}"
	}
	if len(t.Args) == 0 {
		return t.Op + ":" + t.Name
	}
	return t.Op + ":" + t.Name + "(" + as() + ")"
}

func typeBaseOf(t types.Type) string {
	if t == nil {
		return "?"
	}
	return typeBase(t)
}

var siteNos = map[ssa.Instruction]int{}

func siteNo(in ssa.Instruction) int {
	if n, ok := siteNos[in]; ok {
		return n
	}
	n := 0
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			siteNos[i] = n
			n++
		}
	}
	return siteNos[in]
}

// Analyzer holds the caches.
type Analyzer struct {
	relBounds func(t *Term) []*lin // what relations between fields say about a number
	p         *Prog
	vals      map[ssa.Value]*Term
	busy      map[ssa.Value]bool
	phiBusy   map[*ssa.Phi]string // values under evaluation and the outcome asked for
	phiRecur  int
	loads     map[string]*Term
	modMemo   map[modKey]map[string]bool
	sumMemo   map[sumKey]*FactSet
	kConst    map[string]*ssa.Const
	ifaceTy   map[ssa.Value]types.Type // interface parameters of helpers: the type of the object they were given a pointer to
	never     map[sumKey]bool
	sumBusy   map[sumKey]bool
	ffMemo    map[*ssa.Function]*funcFacts
	reach     map[string]map[*ssa.Function]bool
	retMemo   map[string]*Term
	retBusy   map[string]bool
	visitedF  map[*ssa.Function]bool
	tags      []Tag
	tagMemo   map[string][]string
	fatalB    map[*ssa.BasicBlock]bool
	negIDs    map[string]bool
	tgMemo    map[*ssa.Function]map[*ssa.BasicBlock]map[string]bool
	tgBusy    map[*ssa.Function]bool
	inlining  int
	bufBusy   map[*ssa.Call]bool
	tgSites   map[*ssa.Function][]ssa.CallInstruction
	tgEscapes map[*ssa.Function]bool
	sp        *specState
}

func newAnalyzer(p *Prog) *Analyzer {
	return &Analyzer{p: p, vals: map[ssa.Value]*Term{}, busy: map[ssa.Value]bool{}, loads: map[string]*Term{}, modMemo: map[modKey]map[string]bool{},
		sumMemo: map[sumKey]*FactSet{}, never: map[sumKey]bool{}, sumBusy: map[sumKey]bool{}, ffMemo: map[*ssa.Function]*funcFacts{}, reach: map[string]map[*ssa.Function]bool{},
		retMemo: map[string]*Term{}, retBusy: map[string]bool{}, visitedF: map[*ssa.Function]bool{}, tagMemo: map[string][]string{}, fatalB: map[*ssa.BasicBlock]bool{}, tgMemo: map[*ssa.Function]map[*ssa.BasicBlock]map[string]bool{}, tgBusy: map[*ssa.Function]bool{}}
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if isNillable(c.Type()) {
			return mk("const", "nil", c.Type())
		}
		return mk("zero", typeBase(c.Type()), c.Type())
	}
	v := c.Value
	if v.Kind() == constant.String {
		return mk("const", constant.StringVal(v), c.Type())
	}
	return mk("const", v.ExactString(), c.Type())
}

func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// val gives the term for a non-address value.
func (a *Analyzer) val(v ssa.Value) *Term {
	if t, ok := a.vals[v]; ok {
		return t
	}
	if a.busy[v] {
		return mk("loop", v.Name()+"@"+fnKey(v.Parent()), v.Type())
	}
	a.busy[v] = true
	t := a.fix(a.val0(v))
	if cv, ok := v.(*ssa.Convert); ok && a.sp != nil && t.Op == "const" {
		if k := constOfTerm(t); k != nil && k.Kind() == constant.Int {
			if w := wrapInt(k, cv.Type()); constant.Compare(w, token.NEQ, k) {
				t = mk("const", w.ExactString(), cv.Type())
			}
		}
	}
	delete(a.busy, v)
	if len(a.busy) == 0 || !containsLoop(t) {
		a.vals[v] = t
	}
	return t
}

func containsLoop(t *Term) bool {
	if t.Op == "loop" {
		return true
	}
	for _, x := range t.Args {
		if containsLoop(x) {
			return true
		}
	}
	return false
}

func (a *Analyzer) val0(v ssa.Value) *Term {
	if st, b := induction(v); b != nil {
		return mk("idx", fmt.Sprintf("%s@%s#%d", st, fnKey(v.Parent()), b.Index), v.Type())
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				if a.sp != nil && v.Parent() == a.sp.fn {
					return a.sp.args[i]
				}
				t := mk("param", fnKey(v.Parent())+":"+v.Name(), v.Type())
				t.Idx = i
				return t
			}
		}
	case *ssa.FreeVar:
		if t := a.freeVar(v); t != nil {
			return t
		}
		return mk("free", fnKey(v.Parent())+":"+v.Name(), v.Type())
	case *ssa.Global:
		return mk("global", pkgKey(v.Pkg.Pkg)+"."+v.Name(), v.Type())
	case *ssa.Function:
		t := mk("func", fnKey(v), v.Type())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return mk("func", v.Name(), v.Type())
	case *ssa.ChangeType:
		return a.at(v.X, v)
	case *ssa.Convert:
		return a.at(v.X, v)
	case *ssa.MultiConvert:
		return a.at(v.X, v)
	case *ssa.ChangeInterface:
		return a.at(v.X, v)
	case *ssa.MakeInterface:
		return a.at(v.X, v)
	case *ssa.SliceToArrayPointer:
		return a.at(v.X, v)
	case *ssa.TypeAssert:
		if v.CommaOk {
			return mk("assert", types.TypeString(v.AssertedType, pkgQual), v.Type(), a.at(v.X, v))
		}
		return a.at(v.X, v)
	case *ssa.Extract:
		switch tup := v.Tuple.(type) {
		case *ssa.Call:
			if t := a.inlined(tup, v.Index, v.Type()); t != nil {
				return t
			}
			t := a.callTerm(tup)
			return withIdx(t, v.Index, v.Type())
		case *ssa.TypeAssert:
			if v.Index == 0 {
				return a.at(tup.X, tup)
			}
			return mk("assertok", types.TypeString(tup.AssertedType, pkgQual), v.Type(), a.at(tup.X, tup))
		case *ssa.Lookup:
			x := a.at(tup.X, tup)
			i := a.at(tup.Index, tup)
			if v.Index == 0 {
				return mk("lookup", "", v.Type(), x, i)
			}
			return mk("lookupok", "", v.Type(), x, i)
		case *ssa.Next:
			return mk("range", fmt.Sprint(v.Index), v.Type(), a.val(tup.Iter))
		case *ssa.UnOp:
			return mk("recv", fmt.Sprint(v.Index), v.Type(), a.val(tup.X))
		}
		return mk("extract", fmt.Sprint(v.Index), v.Type(), a.val(v.Tuple))
	case *ssa.Range:
		return a.at(v.X, v)
	case *ssa.Call:
		if t := a.inlined(v, 0, v.Type()); t != nil {
			return t
		}
		if t := a.bufferRead(v); t != nil {
			return t
		}
		return withIdx(a.callTerm(v), 0, v.Type())
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return a.load(v.X, v, v.Type())
		}
		return mk("un", v.Op.String(), v.Type(), a.val(v.X))
	case *ssa.BinOp:
		return mk("bin", v.Op.String(), v.Type(), a.at(v.X, v), a.at(v.Y, v))
	case *ssa.Field:
		return a.field(a.val(v.X), fieldName(v.X.Type(), v.Field), v.Type())
	case *ssa.Index:
		return mk("index", "", v.Type(), a.at(v.X, v), a.at(v.Index, v))
	case *ssa.Lookup:
		return mk("lookup", "", v.Type(), a.at(v.X, v), a.at(v.Index, v))
	case *ssa.Slice:
		x := a.at(v.X, v)
		if (v.Low == nil || isConst(v.Low, "0")) && v.High == nil {
			return x
		}
		lo, hi := mk("const", "0", types.Typ[types.Int]), mk("const", "end", types.Typ[types.Int])
		if v.Low != nil {
			lo = a.val(v.Low)
		}
		if v.High != nil {
			hi = a.val(v.High)
		}
		return sliceOf(x, lo, hi, v.Type())
	case *ssa.Phi:
		return a.phi(v)
	case *ssa.MakeSlice:
		t := mk("make", "slice", v.Type(), a.val(v.Len))
		t.Site = v
		return t
	case *ssa.MakeMap:
		t := mk("make", "map", v.Type())
		t.Site = v
		return t
	case *ssa.MakeChan:
		t := mk("make", "chan", v.Type())
		t.Site = v
		return t
	case *ssa.MakeClosure:
		t := mk("func", fnKey(v.Fn.(*ssa.Function)), v.Type())
		t.Fn = v.Fn.(*ssa.Function)
		return t
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
		// address with no use point: resolve at its own definition
		return a.at(v, v.(ssa.Instruction))
	}
	return mk("opaque", fmt.Sprintf("%T:%s@%s", v, v.Name(), fnKey(v.Parent())), v.Type())
}

// freeVar resolves a closure's captured variable to its binding when it has exactly one creation site.
func (a *Analyzer) freeVar(v *ssa.FreeVar) *Term {
	b, mc := freeBinding(v)
	if b == nil {
		return nil
	}
	return a.at(b, mc)
}

func freeBinding(v *ssa.FreeVar) (ssa.Value, ssa.Instruction) {
	f := v.Parent()
	par := f.Parent()
	if par == nil {
		return nil, nil
	}
	idx := -1
	for i, fv := range f.FreeVars {
		if fv == v {
			idx = i
		}
	}
	var found ssa.Value
	var site ssa.Instruction
	n := 0
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				found = mc.Bindings[idx]
				site = mc
				n++
			}
		}
	}
	if n == 1 {
		return found, site
	}
	return nil, nil
}

func pkgQual(p *types.Package) string { return pkgKey(p) }

// withTags gives a fresh analyzer that also derives the given facts.
func (a *Analyzer) withTags(ts ...Tag) *Analyzer {
	n := newAnalyzer(a.p)
	n.tags = ts
	n.visitedF = a.visitedF
	return n
}

func isConst(v ssa.Value, s string) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == s
}

func withIdx(t *Term, i int, ty types.Type) *Term {
	if t.Op != "call" {
		if t.Op == "tuple" && i < len(t.Args) {
			return t.Args[i]
		}
		return t
	}
	n := *t
	n.Idx = i
	n.T = ty
	n.key = ""
	return &n
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	return typeBase(t) + "." + st.Field(i).Name()
}

// field projects field f out of term t, simplifying literals and phis.
func (a *Analyzer) field(t *Term, f string, ty types.Type) *Term {
	return projField(t, f, ty)
}

func projField(t *Term, f string, ty types.Type) *Term {
	switch t.Op {
	case "lit":
		for _, x := range t.Args {
			if x.Op == "kv" && x.Name == f {
				return x.Args[0]
			}
		}
		if t.Name == "struct" {
			return mk("zero", typeBaseOf(ty), ty)
		}
	case "zero":
		return mk("zero", typeBaseOf(ty), ty)
	case "prev":
		return prevOf(projField(t.Args[0], f, ty))
	case "test":
		return mk("test", t.Name, ty, projField(t.Args[0], f, ty))
	case "phi":
		var as []*Term
		for _, x := range t.Args {
			// a nil alternative has no fields
			if x.Op == "const" && x.Name == "nil" || x.Op == "zero" && x.T != nil && isNillable(x.T) {
				continue
			}
			as = append(as, projField(x, f, ty))
		}
		if len(as) == 0 {
			break
		}
		return phiOf(as, ty)
	}
	return mk("field", f, ty, t)
}

func phiOf(as []*Term, ty types.Type) *Term {
	m := map[string]*Term{}
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == "phi" {
			for _, x := range t.Args {
				flat(x)
			}
			return
		}
		m[t.Key()] = t
	}
	for _, t := range as {
		flat(t)
	}
	// a "loop" back reference adds nothing if there is any other alternative
	if len(m) > 1 {
		for k, t := range m {
			if t.Op == "loop" {
				delete(m, k)
			}
		}
	}
	if len(m) == 1 {
		for _, t := range m {
			return t
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*Term
	for _, k := range ks {
		out = append(out, m[k])
	}
	return mk("phi", "", ty, out...)
}

func (a *Analyzer) phi(v *ssa.Phi) *Term {
	var as []*Term
	g := a.testGuards(v.Parent())
	for i, e := range v.Edges {
		pred := v.Block().Preds[i]
		if e == ssa.Value(v) || a.dead(pred, v.Block()) {
			continue
		}
		at := ssa.Instruction(v)
		if _, ok := e.(*ssa.MakeSlice); ok {
			at = pred.Instrs[len(pred.Instrs)-1]
		}
		t := a.at(e, at)
		if v.Block().Dominates(pred) {
			t = prevOf(t)
		}
		if g[v.Block()] == nil {
			t = testWrap(a.edgeTests(pred, v.Block()), t)
		}
		as = append(as, t)
	}
	return phiOf(as, v.Type())
}

// prevOf marks a value carried around a loop back edge: the value from an earlier iteration.
func prevOf(t *Term) *Term {
	switch t.Op {
	case "prev", "const", "param", "loop", "global", "zero", "free":
		return t
	case "phi":
		var as []*Term
		for _, x := range t.Args {
			as = append(as, prevOf(x))
		}
		return phiOf(as, t.T)
	}
	return mk("prev", "", t.T, t)
}

// at gives the term for v as used by instruction in; addresses denote the content at that point.
func (a *Analyzer) at(v ssa.Value, in ssa.Instruction) *Term {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
		return a.load(x, in, deref(v.Type()))
	case *ssa.Global:
		return a.val(v)
	case *ssa.FreeVar:
		return a.val(v)
	case *ssa.MakeInterface:
		return a.at(x.X, in)
	case *ssa.ChangeType:
		return a.at(x.X, in)
	case *ssa.Phi:
		return a.val(v)
	case *ssa.Slice:
		// a buffer filled in after it was sliced
		if al := filledBuf(x); al != nil && in != nil && in.Parent() == al.Parent() {
			c := a.load(al, in, deref(al.Type()))
			if c.Op == "out" {
				return c
			}
		}
	}
	if ms, ok := v.(*ssa.MakeSlice); ok && in != nil {
		if t := a.filledSlice(ms, in); t != nil {
			return t
		}
	}
	// pointer values obtained elsewhere: if the pointee has been locally modified, take the content
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok && in != nil && in.Parent() == v.Parent() {
			if a.hasFieldStores(v) {
				return a.load(v, in, p.Elem())
			}
		}
	}
	return a.val(v)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// splitAddr decomposes an address into base value and field path.
func splitAddr(addr ssa.Value) (ssa.Value, []string, []types.Type) {
	var path []string
	var tys []types.Type
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			path = append([]string{fieldName(x.X.Type(), x.Field)}, path...)
			tys = append([]types.Type{deref(x.Type())}, tys...)
			addr = x.X
			continue
		case *ssa.IndexAddr:
			path = append([]string{"[" + idxName(x.Index) + "]"}, path...)
			tys = append([]types.Type{deref(x.Type())}, tys...)
			addr = x.X
			continue
		case *ssa.ChangeType:
			addr = x.X
			continue
		case *ssa.MakeInterface:
			addr = x.X
			continue
		case *ssa.Slice:
			if (x.Low == nil || isConst(x.Low, "0")) && (x.High == nil || filledBuf(x) != nil) {
				// array[:] shares storage
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					addr = x.X
					continue
				}
			}
		}
		return addr, path, tys
	}
}

// filledBuf: v is all of a fixed-size local array that is passed to a function filling its argument.
func filledBuf(v *ssa.Slice) *ssa.Alloc {
	al, ok := v.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || v.Referrers() == nil || v.Low != nil && !isConst(v.Low, "0") || v.High != nil && !isConst(v.High, fmt.Sprint(arr.Len())) {
		return nil
	}
	for _, r := range *v.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			for i, x := range c.Call.Args {
				if x == ssa.Value(v) && fills(c.Common(), i) {
					return al
				}
			}
		}
	}
	return nil
}

// filledSlice: the content of a made slice of constant length that one call, before in, has filled.
func (a *Analyzer) filledSlice(ms *ssa.MakeSlice, in ssa.Instruction) *Term {
	n, ok := ms.Len.(*ssa.Const)
	if ms.Referrers() == nil || in.Parent() != ms.Parent() {
		return nil
	}
	if t := a.filledParts(ms, in); t != nil {
		return t
	}
	if !ok {
		return nil
	}
	var by *ssa.Call
	at := -1
	for _, r := range *ms.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			return nil
		case *ssa.Call:
			for i, x := range r.Call.Args {
				if x == ssa.Value(ms) && fills(&r.Call, i) {
					if by != nil {
						return nil
					}
					by, at = r, i
				}
			}
		}
	}
	if by == nil || by == in || !(by.Block() == in.Block() && siteNo(by) < siteNo(in) || by.Block() != in.Block() && by.Block().Dominates(in.Block())) {
		return nil
	}
	var ats []*Term
	for j, o := range by.Call.Args {
		if j != at {
			ats = append(ats, a.at(o, by))
		}
	}
	name, fn := calleeName(&by.Call)
	t := mk("out", name, types.NewArray(types.Typ[types.Byte], n.Int64()), ats...)
	t.Fn, t.Idx, t.Site = fn, at, by
	return t
}

// filledParts: the content of a made slice whose parts, one after the other, calls before in have filled.
func (a *Analyzer) filledParts(ms *ssa.MakeSlice, in ssa.Instruction) *Term {
	type part struct {
		lo, hi int64
		t      *Term
	}
	num := func(v ssa.Value, at ssa.Instruction, none int64) int64 {
		if v == nil {
			return none
		}
		if x := constOfTerm(a.constOf(a.at(v, at))); x != nil && x.Kind() == constant.Int {
			n, _ := constant.Int64Val(x)
			return n
		}
		return -1
	}
	var ps []part
	var size int64
	for _, r := range *ms.Referrers() {
		sl, ok := r.(*ssa.Slice)
		if !ok || sl.Referrers() == nil {
			if _, ok := r.(*ssa.IndexAddr); ok {
				return nil
			}
			continue
		}
		if len(ps) == 0 {
			if size = num(ms.Len, ms, -1); size <= 0 || size > 1<<16 {
				return nil
			}
		}
		for _, u := range *sl.Referrers() {
			by, ok := u.(*ssa.Call)
			if !ok {
				if _, ok := u.(*ssa.IndexAddr); ok {
					return nil
				}
				continue
			}
			for at, x := range by.Call.Args {
				if x != ssa.Value(sl) || !fills(&by.Call, at) {
					continue
				}
				if by == in || !(by.Block() == in.Block() && siteNo(by) < siteNo(in) || by.Block() != in.Block() && by.Block().Dominates(in.Block())) {
					return nil
				}
				p := part{lo: num(sl.Low, sl, 0), hi: num(sl.High, sl, size)}
				if p.lo < 0 || p.hi <= p.lo {
					return nil
				}
				var ats []*Term
				for j, o := range by.Call.Args {
					if j != at {
						ats = append(ats, a.at(o, by))
					}
				}
				name, fn := calleeName(&by.Call)
				p.t = mk("out", name, types.NewArray(types.Typ[types.Byte], p.hi-p.lo), ats...)
				p.t.Fn, p.t.Idx, p.t.Site = fn, at, by
				ps = append(ps, p)
			}
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].lo < ps[j].lo })
	var t *Term
	end := int64(0)
	for _, p := range ps {
		if p.lo != end {
			return nil
		}
		end = p.hi
		if t == nil {
			t = p.t
		} else {
			t = mk("call", "append", ms.Type(), t, p.t)
		}
	}
	if len(ps) < 2 || end != size {
		return nil
	}
	return t
}

// fills: the callee overwrites all of its i-th argument, a byte slice, from its other arguments.
func fills(cc *ssa.CallCommon, i int) bool {
	n, _ := calleeName(cc)
	if strings.HasPrefix(n, "encoding/binary.(") && strings.Contains(n, ").PutUint") || n == "math/big.(Int).FillBytes" {
		return i == 1
	}
	return false
}

func idxName(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return c.Value.ExactString()
	}
	n := fmt.Sprintf("?%s@%p", v.Name(), v)
	idxVals[n] = v
	return n
}

var idxVals = map[string]ssa.Value{}

// idxTerm: the index denoted by a path step "[..]".
func (a *Analyzer) idxTerm(step string) *Term {
	s := strings.Trim(step, "[]")
	if v := idxVals[s]; v != nil {
		in, _ := v.(ssa.Instruction)
		return a.at(v, in)
	}
	return mk("const", s, types.Typ[types.Int])
}

// induction: v is the index of a counting loop (steps by one from a constant): its first value.
func induction(v ssa.Value) (string, *ssa.BasicBlock) {
	step := func(p *ssa.Phi) (string, bool) {
		start := ""
		for i, e := range p.Edges {
			if p.Block().Dominates(p.Block().Preds[i]) {
				st, ok := e.(*ssa.BinOp)
				if !ok || st.Op != token.ADD || st.X != ssa.Value(p) || !isConst(st.Y, "1") {
					return "", false
				}
			} else {
				c, ok := e.(*ssa.Const)
				if !ok || c.Value == nil || start != "" && start != c.Value.ExactString() {
					return "", false
				}
				start = c.Value.ExactString()
			}
		}
		back := false
		for _, q := range p.Block().Preds {
			back = back || p.Block().Dominates(q)
		}
		return start, back && start != ""
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if s, ok := step(x); ok && s != "-1" {
			return s, x.Block()
		}
	case *ssa.BinOp:
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD && isConst(x.Y, "1") && x.Block() == p.Block() {
			if s, ok := step(p); ok && s == "-1" {
				return "0", p.Block()
			}
		}
	}
	return "", nil
}

func (a *Analyzer) hasFieldStores(base ssa.Value) bool {
	refs := base.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if fa, ok := r.(*ssa.FieldAddr); ok {
			if addrStored(fa, 0) {
				return true
			}
		}
		if st, ok := r.(*ssa.Store); ok && st.Addr == base {
			return true
		}
	}
	return false
}

func addrStored(v ssa.Value, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if x.X == v && addrStored(x, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == v && addrStored(x, d+1) {
				return true
			}
		}
	}
	return false
}

func hasPrefix(p, pre []string) bool {
	if len(pre) > len(p) {
		return false
	}
	for i := range pre {
		if !pathEq(p[i], pre[i]) {
			return false
		}
	}
	return true
}

func pathEq(x, y string) bool { return x == y }

// load resolves the content of addr as seen by instruction `in`.
func (a *Analyzer) load(addr ssa.Value, in ssa.Instruction, ty types.Type) *Term {
	base, path, tys := splitAddr(addr)
	if fv, ok := base.(*ssa.FreeVar); ok {
		// captured variable: content at closure creation
		if b, mc := freeBinding(fv); b != nil {
			if al, ok := b.(*ssa.Alloc); ok {
				base = al
				in = mc
				_ = al
			}
		}
	}
	key := fmt.Sprintf("%p|%s|%p", base, strings.Join(path, "/"), in)
	if t, ok := a.loads[key]; ok {
		if t == nil {
			return mk("loop", key, ty)
		}
		return t
	}
	a.loads[key] = nil
	t := a.fix(a.load0(base, path, tys, in, ty))
	if containsLoop(t) && len(a.busy) > 0 {
		delete(a.loads, key)
	} else {
		a.loads[key] = t
	}
	return t
}

func (a *Analyzer) load0(base ssa.Value, path []string, tys []types.Type, in ssa.Instruction, ty types.Type) *Term {
	al, isAlloc := base.(*ssa.Alloc)
	// whole struct with field stores: project every field
	if st, ok := ty.Underlying().(*types.Struct); ok && a.fieldStoresUnder(base, path) {
		var kvs []*Term
		tn := typeBase(ty)
		same := true
		var whole *Term
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fn := tn + "." + f.Name()
			if f.Name() == "_" {
				continue
			}
			fp := append(append([]string(nil), path...), fn)
			ft := append(append([]types.Type(nil), tys...), f.Type())
			var x *Term
			if _, ok := f.Type().Underlying().(*types.Struct); ok && a.fieldStoresUnder(base, fp) {
				x = liftTests(a.load0(base, fp, ft, in, f.Type()))
			} else {
				x = a.reaching(base, fp, ft, in, f.Type())
			}
			// detect "every field is field f of the same whole"
			if x.Op == "field" && x.Name == fn && (whole == nil || whole.Key() == x.Args[0].Key()) {
				whole = x.Args[0]
			} else {
				same = false
			}
			kvs = append(kvs, mk("kv", fn, f.Type(), x))
		}
		if same && whole != nil {
			return whole
		}
		t := mk("lit", "struct", ty, kvs...)
		return t
	}
	// array literal: elements stored by constant index, used whole
	if isAlloc {
		if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok && len(path) == 0 && arr.Len() <= 64 && a.fieldStoresUnder(base, path) {
			var els []*Term
			for i := int64(0); i < arr.Len(); i++ {
				els = append(els, mk("kv", fmt.Sprintf("[%d]", i), arr.Elem(), a.reaching(base, []string{fmt.Sprintf("[%d]", i)}, []types.Type{arr.Elem()}, in, arr.Elem())))
			}
			return mk("lit", "array", ty, els...)
		}
	}
	return a.reaching(base, path, tys, in, ty)
}

// liftTests: a struct literal some of whose fields have alternatives that only a negative test selects, as the
// ordinary struct and the altered ones.
func liftTests(t *Term) *Term {
	if t.Op != "lit" || t.Name != "struct" {
		return t
	}
	collapse := func(kvs []*Term) *Term {
		var whole *Term
		for _, kv := range kvs {
			x := kv.Args[0]
			if x.Op != "field" || x.Name != kv.Name || whole != nil && whole.Key() != x.Args[0].Key() {
				return mk("lit", "struct", t.T, kvs...)
			}
			whole = x.Args[0]
		}
		if whole == nil {
			return t
		}
		return whole
	}
	var plain []*Term
	var out []*Term
	for i, kv := range t.Args {
		u := untest(kv.Args[0])
		plain = append(plain, mk("kv", kv.Name, kv.T, u))
		if u == kv.Args[0] {
			continue
		}
		for _, x := range kv.Args[0].Args {
			if x.Op == "test" {
				as := append([]*Term(nil), t.Args...)
				as[i] = mk("kv", kv.Name, kv.T, x.Args[0])
				out = append(out, mk("test", x.Name, t.T, mk("lit", "struct", t.T, as...)))
			}
		}
	}
	if len(out) == 0 {
		return t
	}
	return phiOf(append([]*Term{collapse(plain)}, out...), t.T)
}

// fieldStoresUnder: is there any store strictly below base.path?
func (a *Analyzer) fieldStoresUnder(base ssa.Value, path []string) bool {
	fn := base.Parent()
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				b2, p2, _ := splitAddr(st.Addr)
				if b2 == base && len(p2) > len(path) && hasPrefix(p2, path) {
					return true
				}
			}
			if ci, ok := i.(ssa.CallInstruction); ok && a.isHelper(ci.Common().StaticCallee()) {
				for j, arg := range ci.Common().Args {
					if _, ok := arg.Type().Underlying().(*types.Pointer); !ok {
						continue
					}
					b2, p2, _ := splitAddr(arg)
					if b2 != base || !hasPrefix(p2, path) {
						continue
					}
					m := a.mods(ci.Common().StaticCallee(), j)
					if len(m) > 0 && !m["*"] {
						return true
					}
				}
			}
		}
	}
	return false
}

// reaching does a backward reaching-definition search from `in`.
func (a *Analyzer) reaching(base ssa.Value, path []string, tys []types.Type, in ssa.Instruction, ty types.Type) *Term {
	var alts []*Term
	seen := map[*ssa.BasicBlock]bool{}
	proj := func(t *Term, rest []string, rt []types.Type) *Term {
		for i, f := range rest {
			if strings.HasPrefix(f, "[") {
				if t.Op == "lit" {
					found := false
					for _, x := range t.Args {
						if x.Name == f {
							t = x.Args[0]
							found = true
							break
						}
					}
					if found {
						continue
					}
				}
				t = mk("index", "", rt[i], t, a.idxTerm(f))
			} else {
				t = projField(t, f, rt[i])
			}
		}
		return t
	}
	baseTerm := func() *Term {
		switch b := base.(type) {
		case *ssa.Alloc:
			return mk("zero", typeBase(deref(b.Type())), deref(b.Type()))
		case *ssa.FreeVar:
			return mk("free", fnKey(b.Parent())+":"+b.Name(), b.Type())
		}
		return a.val(base)
	}
	tg := a.testGuards(in.Parent())
	wrap := func(b *ssa.BasicBlock, t *Term) *Term {
		if tg[in.Block()] == nil && tg[b] != nil {
			return testWrap(tg[b], t)
		}
		return t
	}
	baseDef, _ := base.(ssa.Instruction)
	var walk func(b *ssa.BasicBlock, i int, back bool)
	walk = func(b *ssa.BasicBlock, i int, back bool) {
		n0 := len(alts)
		defer func() {
			if back {
				for j := n0; j < len(alts); j++ {
					alts[j] = prevOf(alts[j])
				}
			}
		}()
		for ; i >= 0; i-- {
			ins := b.Instrs[i]
			if baseDef != nil && ins == baseDef {
				alts = append(alts, proj(baseTerm(), path, tys))
				return
			}
			switch x := ins.(type) {
			case *ssa.Store:
				b2, p2, _ := splitAddr(x.Addr)
				if b2 != base {
					continue
				}
				if hasPrefix(path, p2) {
					alts = append(alts, wrap(b, proj(a.at(x.Val, x), path[len(p2):], tys[len(p2):])))
					return
				}
				// store of an unknown index: weak update
				if len(p2) == len(path) && len(path) > 0 && weakMatch(path, p2) {
					alts = append(alts, wrap(b, a.at(x.Val, x)))
				}
			case ssa.CallInstruction:
				if t := a.bufferWrite(x, base, path, ty); t != nil {
					alts = append(alts, wrap(b, t))
					return
				}
				ts, kill, ok := a.helperStores(x, in, base, path, tys, ty)
				if !ok {
					ts, kill, ok = a.closureStores(x, in, base, path, tys, ty)
				}
				if ok {
					for _, t := range ts {
						alts = append(alts, wrap(b, t))
					}
					if kill {
						return
					}
					continue
				}
				if t, kill := a.callDefines(x, base, path, tys, ty); t != nil {
					alts = append(alts, wrap(b, t))
					if kill {
						return
					}
				}
			}
		}
		if len(b.Preds) == 0 {
			alts = append(alts, proj(baseTerm(), path, tys))
			return
		}
		for _, p := range b.Preds {
			if !seen[p] && !a.dead(p, b) {
				seen[p] = true
				walk(p, len(p.Instrs)-1, b.Dominates(p))
			}
		}
	}
	blk := in.Block()
	idx := 0
	for i, x := range blk.Instrs {
		if x == in {
			idx = i
		}
	}
	if baseDef != nil && baseDef == in {
		idx = idx + 1
	}
	walk(blk, idx-1, false)
	if len(alts) == 0 {
		return proj(baseTerm(), path, tys)
	}
	return phiOf(alts, ty)
}

// bufferWrite: a write to a bytes.Buffer or strings.Builder leaves the old contents followed by what is written.
func (a *Analyzer) bufferWrite(c ssa.CallInstruction, base ssa.Value, path []string, ty types.Type) *Term {
	call, ok := c.(*ssa.Call)
	if !ok || len(path) != 0 || !isBufferWrite(call) {
		return nil
	}
	if b2, p2, _ := splitAddr(call.Call.Args[0]); b2 != base || len(p2) != 0 {
		return nil
	}
	if a.bufBusy[call] {
		return mk("loop", call.Name()+"@"+fnKey(call.Parent()), ty)
	}
	if a.bufBusy == nil {
		a.bufBusy = map[*ssa.Call]bool{}
	}
	a.bufBusy[call] = true
	defer delete(a.bufBusy, call)
	old := a.reaching(base, nil, nil, call, ty)
	return mk("call", "append", ty, old, a.at(call.Call.Args[1], call))
}

func isBufferWrite(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) != 2 {
		return false
	}
	switch fnKey(f) {
	case "bytes.(Buffer).Write", "bytes.(Buffer).WriteString", "strings.(Builder).WriteString", "strings.(Builder).Write":
		return true
	}
	return false
}

// bufferRead: the contents of a buffer whose writes are all in sight.
func (a *Analyzer) bufferRead(v *ssa.Call) *Term {
	f := v.Call.StaticCallee()
	if f == nil || len(v.Call.Args) != 1 {
		return nil
	}
	switch fnKey(f) {
	case "bytes.(Buffer).Bytes", "bytes.(Buffer).String", "strings.(Builder).String":
	default:
		return nil
	}
	t := a.at(v.Call.Args[0], v)
	var conv func(t *Term, d int) *Term
	conv = func(t *Term, d int) *Term {
		if d > 40 {
			return nil
		}
		switch {
		case t.Op == "zero":
			return mk("const", "nil", v.Type())
		case t.Op == "loop":
			return mk("loop", t.Name, v.Type())
		case t.Op == "call" && (t.Name == "bytes.NewBuffer" || t.Name == "bytes.NewBufferString") && len(t.Args) == 1:
			return t.Args[0]
		case t.Op == "call" && t.Name == "append" && len(t.Args) == 2:
			x := conv(t.Args[0], d+1)
			if x == nil {
				return nil
			}
			return mk("call", "append", v.Type(), x, t.Args[1])
		case t.Op == "prev":
			if x := conv(t.Args[0], d+1); x != nil {
				return prevOf(x)
			}
		case t.Op == "phi":
			var as []*Term
			for _, x := range t.Args {
				y := conv(x, d+1)
				if y == nil {
					return nil
				}
				as = append(as, y)
			}
			return phiOf(as, v.Type())
		}
		return nil
	}
	return conv(t, 0)
}

func weakMatch(p, q []string) bool {
	for i := range p {
		if p[i] == q[i] {
			continue
		}
		if strings.HasPrefix(p[i], "[") && strings.HasPrefix(q[i], "[") && (strings.Contains(p[i], "?") || strings.Contains(q[i], "?")) {
			continue
		}
		return false
	}
	return true
}

// callDefines: does this call (re)define base.path through a pointer argument?
func (a *Analyzer) callDefines(c ssa.CallInstruction, base ssa.Value, path []string, tys []types.Type, ty types.Type) (*Term, bool) {
	cc := c.Common()
	args := cc.Args
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() != "copy" {
			return nil, false
		}
		args = args[:1]
	}
	if _, ok := c.(*ssa.Defer); ok {
		return nil, false
	}
	for i, arg := range args {
		isCopyDst := false
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			isCopyDst = true
		}
		if _, ok := underIface(arg).Type().Underlying().(*types.Pointer); !ok && !isCopyDst && !fills(cc, i) && (a.ifaceTy[base] == nil || underIface(arg) != base) {
			continue
		}
		b2, p2, _ := splitAddr(arg)
		if b2 != base {
			continue
		}
		// pointer to base.p2 is handed to the callee
		if !hasPrefix(path, p2) && !hasPrefix(p2, path) {
			continue
		}
		callee := cc.StaticCallee()
		if callee != nil && inRepo(callee) && len(callee.Blocks) > 0 {
			mods := a.mods(callee, i)
			if mods["*"] {
				// whole object defined by callee
			} else if len(path) > len(p2) {
				if !mods[path[len(p2)]] {
					continue
				}
			} else if len(mods) == 0 {
				continue
			}
		} else if callee != nil && !inRepo(callee) && isPureExternal(callee, i) {
			continue
		} else if cc.IsInvoke() && cc.Method.Name() == "Marshal" {
			continue
		}
		name, fn := calleeName(cc)
		var ats []*Term
		for j, o := range cc.Args {
			if j == i {
				continue
			}
			ats = append(ats, a.at(o, c.(ssa.Instruction)))
		}
		wholeTy := deref(underIface(arg).Type())
		if ot := a.ifaceTy[base]; ot != nil && len(p2) == 0 {
			wholeTy = ot
		}
		if fills(cc, i) && len(p2) == 0 {
			if _, isArr := deref(base.Type()).Underlying().(*types.Array); isArr {
				wholeTy = deref(base.Type()) // the buffer, with its length
			}
		}
		t := mk("out", name, wholeTy, ats...)
		t.Fn = fn
		t.Idx = i
		t.Site = c.(ssa.Instruction)
		if len(path) >= len(p2) {
			for k, f := range path[len(p2):] {
				if strings.HasPrefix(f, "[") {
					t = mk("index", "", tys[len(p2)+k], t, a.idxTerm(f))
				} else {
					t = projField(t, f, tys[len(p2)+k])
				}
			}
			return t, true
		}
		return t, false
	}
	return nil, false
}

func underIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// isPureExternal: the external function only reads what argument arg points to.
func isPureExternal(f *ssa.Function, arg int) bool {
	k := fnKey(f)
	if arg == 0 && f.Signature.Recv() != nil {
		n := f.Name()
		for _, p := range []string{"Error", "String", "Public", "Equal", "Sign", "Verify", "Curve", "Size", "Discard", "Commit", "Get", "Bytes", "CheckSignature", "Value"} {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
	}
	for _, p := range []string{"fmt.", "log.", "errors.", "reflect.", "crypto/", "encoding/hex.", "encoding/base64."} {
		if strings.HasPrefix(k, p) {
			return !strings.HasPrefix(k, "fmt.Sscan") && k != "errors.As"
		}
	}
	return false
}

type modKey struct {
	f *ssa.Function
	i int
}

// mods: which first-level fields of parameter i's pointee does f (transitively) store to; "*" = whole.
func (a *Analyzer) mods(f *ssa.Function, i int) map[string]bool {
	k := modKey{f, i}
	if m, ok := a.modMemo[k]; ok {
		return m
	}
	m := map[string]bool{}
	a.modMemo[k] = m
	if i >= len(f.Params) {
		return m
	}
	var base ssa.Value = f.Params[i]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				b2, p2, _ := splitAddr(x.Addr)
				if b2 == base {
					if len(p2) == 0 {
						m["*"] = true
					} else {
						m[p2[0]] = true
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				for j, arg := range cc.Args {
					u := underIface(arg)
					if _, ok := u.Type().Underlying().(*types.Pointer); !ok {
						if _, ok := u.Type().Underlying().(*types.Interface); !ok {
							continue
						}
					}
					b2, p2, _ := splitAddr(arg)
					if b2 != base {
						continue
					}
					callee := cc.StaticCallee()
					if callee != nil && inRepo(callee) && len(callee.Blocks) > 0 {
						for s := range a.mods(callee, j) {
							if len(p2) > 0 {
								m[p2[0]] = true
							} else {
								m[s] = true
							}
						}
					} else if callee != nil && isPureExternal(callee, j) || cc.IsInvoke() && cc.Method.Name() == "Marshal" {
						continue
					} else {
						if len(p2) > 0 {
							m[p2[0]] = true
						} else {
							m["*"] = true
						}
					}
				}
			}
		}
	}
	return m
}

func calleeName(cc *ssa.CallCommon) (string, *ssa.Function) {
	if cc.IsInvoke() {
		return "invoke." + typeBase(cc.Value.Type()) + "." + cc.Method.Name(), nil
	}
	if f := cc.StaticCallee(); f != nil {
		return fnKey(f), f
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name(), nil
	}
	if u, ok := cc.Value.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return "globalfn." + pkgKey(g.Pkg.Pkg) + "." + g.Name(), nil
		}
	}
	return "dyn", nil
}

func (a *Analyzer) callTerm(c *ssa.Call) *Term {
	cc := c.Common()
	name, fn := calleeName(cc)
	if t := a.hashStream(c); t != nil {
		return t
	}
	var ats []*Term
	if cc.IsInvoke() {
		ats = append(ats, a.at(cc.Value, c))
	}
	for _, x := range cc.Args {
		ats = append(ats, a.at(x, c))
	}
	// transparent helpers
	switch name {
	case "bytes.Clone", "slices.Clone", "strings.Clone":
		return ats[0]
	}
	t := mk("call", name, c.Type(), ats...)
	t.Fn = fn
	if t.Op == "call" && !isDeterministic(name) {
		t.Site = c
	}
	return t
}

func isDeterministic(name string) bool {
	switch name {
	case "len", "cap", "append", "min", "max", "bytes.Equal", "string", "encoding/hex.EncodeToString":
		return true
	}
	return false
}

// results gives a term for result k of function f, in terms of f's params (alternatives over returns).
func (a *Analyzer) results(f *ssa.Function, k int) *Term {
	key := fmt.Sprintf("%s#%d", fnKey(f), k)
	if t, ok := a.retMemo[key]; ok {
		return t
	}
	if a.retBusy[key] {
		return nil
	}
	a.retBusy[key] = true
	defer delete(a.retBusy, key)
	var alts []*Term
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 || (a.sp != nil && a.sp.deadB[b]) {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(r.Results) {
			alts = append(alts, a.at(r.Results[k], r))
		}
	}
	if len(alts) == 0 {
		a.retMemo[key] = nil
		return nil
	}
	t := phiOf(alts, nil)
	a.retMemo[key] = t
	return t
}

// subst replaces f's params by args.
func subst(t *Term, f *ssa.Function, args []*Term) *Term {
	if t == nil {
		return nil
	}
	memo := map[*Term]*Term{}
	pre := fnKey(f) + ":"
	var s func(t *Term) *Term
	s = func(t *Term) *Term {
		if len(t.Args) == 0 {
			if t.Op == "param" && strings.HasPrefix(t.Name, pre) && t.Idx < len(args) {
				return args[t.Idx]
			}
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.Args))
		for i, x := range t.Args {
			na[i] = s(x)
			if na[i] != x {
				ch = true
			}
		}
		r := t
		if ch {
			if t.Op == "field" {
				r = projField(na[0], t.Name, t.T)
			} else if t.Op == "phi" {
				r = phiOf(na, t.T)
			} else {
				n := mk(t.Op, t.Name, t.T, na...)
				if n.Op == t.Op {
					n.Fn, n.Idx, n.Site = t.Fn, t.Idx, t.Site
				}
				r = n
			}
		}
		memo[t] = r
		return r
	}
	return s(t)
}

// expand replaces a call to a module helper by what it returns (nil-only alternatives removed); nil if impossible.
func (a *Analyzer) expand(t *Term) *Term {
	switch t.Op {
	case "call":
		if t.Fn == nil || !inRepo(t.Fn) || len(t.Fn.Blocks) == 0 {
			return nil
		}
		if a.sp != nil {
			if c := a.child(t); c != nil {
				return c.okResult(t.Fn, t.Idx)
			}
			return nil
		}
		r := a.results(t.Fn, t.Idx)
		if r == nil {
			return nil
		}
		r = subst(r, t.Fn, t.Args)
		if r.Op == "phi" {
			var keep []*Term
			for _, x := range r.Args {
				if x.Op == "zero" || (x.Op == "const" && x.Name == "nil") || (x.Op == "lit" && len(x.Args) == 0) || isZeroLit(x) {
					continue
				}
				keep = append(keep, x)
			}
			if len(keep) > 0 {
				r = phiOf(keep, t.T)
			}
		}
		return r
	case "field":
		e := a.expand(t.Args[0])
		if e == nil {
			return nil
		}
		return projField(e, t.Name, t.T)
	}
	return nil
}

func isZeroLit(t *Term) bool {
	if t.Op == "zero" {
		return true
	}
	if t.Op != "lit" {
		return false
	}
	for _, x := range t.Args {
		if x.Op == "kv" && !isZeroLit(x.Args[0]) {
			return false
		}
	}
	return true
}

// sliceOf: a piece; a piece of a piece with constant bounds is a piece of the whole.
func sliceOf(x, lo, hi *Term, ty types.Type) *Term {
	if x.Op == "slice" && len(x.Args) == 3 {
		num := func(t *Term) (int64, bool) {
			if t.Op != "const" {
				return 0, false
			}
			n, err := strconv.ParseInt(t.Name, 10, 64)
			return n, err == nil
		}
		if a, ok := num(x.Args[1]); ok {
			if c, ok := num(lo); ok {
				l := mk("const", strconv.FormatInt(a+c, 10), types.Typ[types.Int])
				if d, ok := num(hi); ok {
					return mk("slice", "", ty, x.Args[0], l, mk("const", strconv.FormatInt(a+d, 10), types.Typ[types.Int]))
				}
				if hi.Op == "const" && hi.Name == "end" {
					return mk("slice", "", ty, x.Args[0], l, x.Args[2])
				}
			}
		}
	}
	return mk("slice", "", ty, x, lo, hi)
}
