package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C14", "must-fact analysis with a linear-arithmetic prover over every operation that can panic (dereference, index, slice, type assertion, division, panicking library call), at the operation or in every calling context.", c14)
}

// ---------- linear forms ----------

type lin struct {
	m  map[string]int64
	at map[string]*Term
	k  int64
}

func newLin(k int64) *lin { return &lin{m: map[string]int64{}, at: map[string]*Term{}, k: k} }

func (l *lin) add(o *lin, c int64) *lin {
	r := newLin(l.k + c*o.k)
	for k, v := range l.m {
		r.m[k] = v
		r.at[k] = l.at[k]
	}
	for k, v := range o.m {
		r.m[k] += c * v
		r.at[k] = o.at[k]
		if r.m[k] == 0 {
			delete(r.m, k)
			delete(r.at, k)
		}
	}
	return r
}

func (l *lin) key() string {
	var ks []string
	for k, v := range l.m {
		ks = append(ks, fmt.Sprintf("%d*%s", v, k))
	}
	sort.Strings(ks)
	return strings.Join(ks, "+") + "+" + strconv.FormatInt(l.k, 10)
}

func (l *lin) String() string {
	var ks []string
	for k, v := range l.m {
		ks = append(ks, fmt.Sprintf("%d*%s", v, trunc(l.at[k].String())))
	}
	sort.Strings(ks)
	return strings.Join(ks, " + ") + " + " + strconv.FormatInt(l.k, 10)
}

func intConst(t *Term) (int64, bool) {
	if t.Op == "zero" {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return 0, true
		}
		return 0, false
	}
	if t.Op != "const" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Name, 10, 64)
	return n, err == nil
}

func unsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func atom(t *Term) *lin {
	l := newLin(0)
	k := t.Key()
	l.m[k] = 1
	l.at[k] = t
	return l
}

// unwrapTerm drops the wrappers that do not change the value.
func unwrapTerm(t *Term) *Term {
	for i := 0; i < 10; i++ {
		u := strip(untest(t))
		if u == t {
			break
		}
		t = u
	}
	return t
}

func (a *Analyzer) linOf(t *Term, d int) *lin {
	t = unwrapTerm(t)
	if n, ok := intConst(t); ok {
		return newLin(n)
	}
	if d > 12 {
		return atom(t)
	}
	switch {
	case t.Op == "bin" && (t.Name == "+" || t.Name == "-") && len(t.Args) == 2:
		if t.Name == "-" && unsigned(t.T) {
			return atom(t) // may wrap
		}
		c := int64(1)
		if t.Name == "-" {
			c = -1
		}
		return a.linOf(t.Args[0], d+1).add(a.linOf(t.Args[1], d+1), c)
	case t.Op == "bin" && t.Name == "*" && len(t.Args) == 2:
		x, y := a.linOf(t.Args[0], d+1), a.linOf(t.Args[1], d+1)
		if len(x.m) == 0 {
			return newLin(0).add(y, x.k)
		}
		if len(y.m) == 0 {
			return newLin(0).add(x, y.k)
		}
	case t.Op == "call" && t.Name == "len" && len(t.Args) == 1:
		return a.lenOfTerm(t.Args[0], d+1)
	}
	return atom(t)
}

// lenOfTerm: the length of a slice, string or array term.
func (a *Analyzer) lenOfTerm(t *Term, d int) *lin {
	t = unwrapTerm(t)
	self := func() *lin { return atom(mk("call", "len", types.Typ[types.Int], t)) }
	if d > 12 {
		return self()
	}
	if n := arrLen(t.T); n >= 0 {
		return newLin(n)
	}
	switch {
	case t.Op == "const":
		if t.Name == "nil" {
			return newLin(0)
		}
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return newLin(int64(len(unquote(t.Name))))
		}
	case t.Op == "zero":
		return newLin(0)
	case t.Op == "lit" && (t.Name == "array" || t.Name == "slice"):
		max := int64(-1)
		for _, kv := range t.Args {
			n, err := strconv.ParseInt(strings.Trim(kv.Name, "[]"), 10, 64)
			if err != nil {
				return self()
			}
			if n > max {
				max = n
			}
		}
		return newLin(max + 1)
	case t.Op == "make" && t.Name == "slice" && len(t.Args) == 1:
		return a.linOf(t.Args[0], d+1)
	case t.Op == "slice" && len(t.Args) == 3:
		lo := a.linOf(t.Args[1], d+1)
		if t.Args[2].Op == "const" && t.Args[2].Name == "end" {
			return a.lenOfTerm(t.Args[0], d+1).add(lo, -1)
		}
		return a.linOf(t.Args[2], d+1).add(lo, -1)
	case t.Op == "call" && t.Name == "append" && len(t.Args) == 2:
		return a.lenOfTerm(t.Args[0], d+1).add(a.lenOfTerm(t.Args[1], d+1), 1)
	case t.Op == "global":
		if v := a.p.sliceInit(t.Name); v >= 0 {
			return newLin(v)
		}
	case t.Op == "bin" && t.Name == "+":
		return a.lenOfTerm(t.Args[0], d+1).add(a.lenOfTerm(t.Args[1], d+1), 1)
	}
	return self()
}

func arrLen(t types.Type) int64 {
	if t == nil {
		return -1
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if ar, ok := t.Underlying().(*types.Array); ok {
		return ar.Len()
	}
	return -1
}

// bounds: what always holds of an atom, as linear forms that are >= 0.
func (a *Analyzer) bounds(t *Term) []*lin {
	var out []*lin
	self := atom(t)
	switch {
	case t.Op == "call" && (t.Name == "len" || t.Name == "cap"):
		lo := int64(0)
		x := unwrapTerm(t.Args[0])
		switch {
		case x.Op == "call" && (x.Name == "strings.Split" || x.Name == "strings.SplitN"):
			lo = 1
		case x.Op == "call" && x.Name == verifyCert && x.Idx == 0, x.Op == "index" && isVerified(x):
			lo = 1 // at least one chain, of at least one certificate, when it succeeds
		}
		out = append(out, self.add(newLin(lo), -1))
	case t.Op == "idx":
		if n, err := strconv.ParseInt(strings.SplitN(t.Name, "@", 2)[0], 10, 64); err == nil {
			out = append(out, self.add(newLin(n), -1))
		}
	case t.Op == "range" && t.Name == "1":
		out = append(out, self)
		if len(t.Args) == 1 {
			out = append(out, a.lenOfTerm(t.Args[0], 0).add(self, -1).add(newLin(1), -1))
		}
	case t.Op == "call" && strings.HasSuffix(t.Name, "big.(Int).Int64") && len(t.Args) == 1:
		r := unwrapTerm(t.Args[0])
		if r.Op == "call" && r.Name == "crypto/rand.Int" && r.Idx == 0 && len(r.Args) == 2 {
			out = append(out, self)
			if n := a.bigOf(r.Args[1]); n != nil {
				out = append(out, n.add(self, -1).add(newLin(1), -1))
			}
		}
	case t.Op == "field" && isInt(t.T):
		// an entry of a constant table, or its zero value
		x := unwrapTerm(t.Args[0])
		if x.Op == "lookup" && unwrapTerm(x.Args[0]).Op == "global" {
			if tab := a.p.tableOf(unwrapTerm(x.Args[0]).Name); tab != nil {
				lo, hi, ok := int64(0), int64(0), true
				for _, e := range tab {
					n, isK := intConst(unwrapTerm(projField(e, t.Name, t.T)))
					ok = ok && isK
					if n < lo {
						lo = n
					}
					if n > hi {
						hi = n
					}
				}
				if ok {
					out = append(out, self.add(newLin(lo), -1), newLin(hi).add(self, -1))
				}
			}
		}
	case t.Op == "bin" && t.Name == "%":
		if n, ok := intConst(t.Args[1]); ok && n > 0 {
			out = append(out, newLin(n-1).add(self, -1))
		}
	}
	if t.Op == "bin" && t.Name == "/" && len(t.Args) == 2 {
		if k, ok := intConst(unwrapTerm(t.Args[1])); ok && k > 0 && a.evidentlyNonNeg(t.Args[0], 0) {
			out = append(out, self, a.linOf(t.Args[0], 0).add(self, -k))
		}
	}
	switch t.Name {
	case "invoke.Hash.Size", "invoke.Hash.BlockSize", "invoke.Block.BlockSize": // of the standard library's constructors
		if t.Op == "call" {
			out = append(out, self.add(newLin(1), -1))
		}
	}
	if a.relBounds != nil {
		out = append(out, a.relBounds(t)...)
	}
	if unsigned(t.T) || t.Op == "param" && unsigned(t.T) {
		out = append(out, self)
		switch t.T.Underlying().(*types.Basic).Kind() {
		case types.Uint8:
			out = append(out, newLin(255).add(self, -1))
		case types.Uint16:
			out = append(out, newLin(65535).add(self, -1))
		}
	}
	return out
}

func (a *Analyzer) evidentlyNonNeg(t *Term, d int) bool {
	t = unwrapTerm(t)
	if n, ok := intConst(t); ok {
		return n >= 0
	}
	switch {
	case d > 6:
	case t.Op == "call" && (t.Name == "len" || t.Name == "cap"):
		return true
	case t.Op == "bin" && (t.Name == "/" || t.Name == "+" || t.Name == "*") && len(t.Args) == 2:
		return a.evidentlyNonNeg(t.Args[0], d+1) && a.evidentlyNonNeg(t.Args[1], d+1)
	}
	return false
}

const verifyCert = "crypto/x509.(Certificate).Verify"

// isVerified: a chain that certificate verification has returned, or one of its certificates.
func isVerified(t *Term) bool {
	for t.Op == "index" {
		t = unwrapTerm(t.Args[0])
	}
	return t.Op == "call" && t.Name == verifyCert && t.Idx == 0
}

// bigOf: the integer that a big.Int was set to.
func (a *Analyzer) bigOf(t *Term) *lin {
	t = unwrapTerm(t)
	if t.Op == "call" && len(t.Args) >= 1 {
		switch {
		case strings.HasSuffix(t.Name, "big.(Int).SetInt64"), strings.HasSuffix(t.Name, "big.(Int).SetUint64"), strings.HasSuffix(t.Name, "big.NewInt"):
			return a.linOf(t.Args[len(t.Args)-1], 0)
		}
	}
	return nil
}

// sliceInit: the number of elements of a package-level slice that is set once, by its initialiser; -1 otherwise.
func (p *Prog) sliceInit(name string) int64 {
	i := strings.LastIndex(name, ".")
	ip := p.Short[name[:i]]
	if ip == nil {
		return -1
	}
	sp := p.SSA.Package(ip.Types)
	if sp == nil {
		return -1
	}
	g, _ := sp.Members[name[i+1:]].(*ssa.Global)
	ini := sp.Func("init")
	if g == nil || ini == nil || p.writtenElsewhere(g) {
		return -1
	}
	out, n := int64(-1), 0
	eachInstr(ini, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || st.Addr != ssa.Value(g) {
			return
		}
		n++
		if sl, ok := st.Val.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
			out = arrLen(sl.X.Type())
		}
	})
	if n != 1 {
		return -1
	}
	return out
}

type prover struct {
	a     *Analyzer
	ineqs []*lin
	nes   []*lin
	steps int
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (a *Analyzer) prover(fs *FactSet) *prover {
	p := &prover{a: a}
	for _, f := range fs.list() {
		if f.B == nil {
			continue
		}
		switch f.Kind {
		case "lt":
			p.ineqs = append(p.ineqs, a.linOf(f.B, 0).add(a.linOf(f.A, 0), -1).add(newLin(1), -1))
		case "le":
			p.ineqs = append(p.ineqs, a.linOf(f.B, 0).add(a.linOf(f.A, 0), -1))
		case "eq", "ne":
			x, y := f.A, f.B
			if !isInt(x.T) && !isInt(y.T) {
				if k := y; k.Op != "const" {
					x, y = y, x
				}
				if b, ok := y.T.Underlying().(*types.Basic); y.Op == "const" && ok && b.Info()&types.IsString != 0 {
					d := a.lenOfTerm(x, 0)
					if f.Kind == "eq" {
						d = d.add(newLin(int64(len(unquote(y.Name)))), -1)
						p.ineqs = append(p.ineqs, d, newLin(0).add(d, -1))
					} else if unquote(y.Name) == "" {
						p.nes = append(p.nes, d)
					}
				}
				continue
			}
			d := a.linOf(x, 0).add(a.linOf(y, 0), -1)
			if f.Kind == "eq" {
				p.ineqs = append(p.ineqs, d, newLin(0).add(d, -1))
			} else {
				p.nes = append(p.nes, d)
			}
		}
	}
	return p
}

// nonneg: g >= 0 follows.
func (p *prover) nonneg(g *lin) bool {
	p.steps = 0
	return p.prove(g, 0, map[string]bool{})
}

func (p *prover) prove(g *lin, d int, seen map[string]bool) bool {
	if len(g.m) == 0 {
		return g.k >= 0
	}
	k := g.key()
	if d > 6 || seen[k] || p.steps > 4000 {
		return false
	}
	p.steps++
	seen[k] = true
	var atoms []string
	for x := range g.m {
		atoms = append(atoms, x)
	}
	sort.Strings(atoms)
	ineqs := p.ineqs
	for _, x := range atoms {
		ineqs = append(ineqs[:len(ineqs):len(ineqs)], p.a.bounds(g.at[x])...)
	}
	// an inequality that cancels an atom
	for _, x := range atoms {
		c := g.m[x]
		for _, q := range ineqs {
			if qc := q.m[x]; qc != 0 && (qc > 0) == (c > 0) && c%qc == 0 {
				if p.prove(g.add(q, -c/qc), d+1, seen) {
					return true
				}
			}
		}
	}
	// strictness from a difference
	for _, n := range p.nes {
		g1 := g.add(newLin(1), 1)
		if g1.key() == n.key() || g1.key() == newLin(0).add(n, -1).key() {
			if p.prove(g1, d+1, seen) {
				return true
			}
		}
	}
	// alternatives and helper results
	for _, x := range atoms {
		t := g.at[x]
		var as []*Term
		inLen := t.Op == "call" && t.Name == "len"
		y := t
		if inLen {
			y = unwrapTerm(t.Args[0])
		}
		if y.Op == "phi" {
			as = y.Args
		} else if e := p.a.expand(y); e != nil && e.Key() != y.Key() {
			as = alts(e)
		}
		if len(as) == 0 || len(as) > 12 {
			continue
		}
		ok := true
		for _, r := range as {
			var l *lin
			if inLen {
				l = p.a.lenOfTerm(r, 0)
			} else {
				l = p.a.linOf(r, 0)
			}
			g2 := g.add(atom(t), -g.m[x]).add(l, g.m[x])
			if !p.prove(g2, d+1, map[string]bool{}) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// ---------- operations that can panic ----------

type panicOp struct {
	in   ssa.Instruction
	f    *ssa.Function
	kind string
	what string
}

type panics struct {
	busyFn  map[*ssa.Function]bool
	c       *Ctx
	a       *Analyzer
	decoded map[string]bool
	// parameters that the server or the caller of an entry passes: never nil
	entryParam map[string]bool
	specs      map[string]*Analyzer
	sends      map[*ssa.Function]bool // functions that talk to a server
	lists      map[string][]string
	validated  map[string]bool // fields of a voucher that are not nil once it has been validated
}

// decodedTypes: struct types that are filled in by decoding, with what they are made of.
func (c *Ctx) decodedTypes() map[string]bool {
	out := map[string]bool{}
	var add func(t types.Type, d int)
	add = func(t types.Type, d int) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem(), d)
			return
		case *types.Slice:
			add(u.Elem(), d)
			return
		case *types.Array:
			add(u.Elem(), d)
			return
		case *types.Map:
			add(u.Elem(), d)
			return
		case *types.Named:
			k := typeBase(u)
			if out[k] || u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
				return
			}
			out[k] = true
			add(u.Underlying(), d+1)
			return
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				add(u.Field(i).Type(), d+1)
			}
		}
	}
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		n, _ := calleeName(ci.Common())
		if !strings.Contains(n, "Unmarshal") && !strings.Contains(n, "Decode") {
			return
		}
		for _, x := range ci.Common().Args {
			if mi, ok := x.(*ssa.MakeInterface); ok {
				add(mi.X.Type(), 0)
			}
		}
	})
	return out
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

// evidentlyNonNil: addresses of variables and elements, and made values.
func evidentlyNonNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeInterface, *ssa.Function, *ssa.Builtin, *ssa.MakeChan:
		return true
	case *ssa.Slice:
		return true
	case *ssa.ChangeType:
		return evidentlyNonNil(x.X)
	case *ssa.ChangeInterface:
		return evidentlyNonNil(x.X)
	case *ssa.Parameter:
		// a method's receiver: decided where the method is called
		return x.Parent().Signature.Recv() != nil && x.Parent().Params[0] == x
	}
	return false
}

// derefs: the pointer or interface value that an instruction needs.
func derefs(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return x.X
		}
	case *ssa.FieldAddr:
		return x.X
	case *ssa.IndexAddr:
		if isPtr(x.X.Type()) {
			return x.X
		}
	case *ssa.Store:
		return x.Addr
	case *ssa.MapUpdate:
		return x.Map
	case *ssa.Slice:
		if isPtr(x.X.Type()) {
			return x.X
		}
	case ssa.CallInstruction:
		cm := x.Common()
		if cm.IsInvoke() {
			return cm.Value
		}
		if g := cm.StaticCallee(); g != nil && g.Signature.Recv() != nil && isPtr(g.Signature.Recv().Type()) && len(cm.Args) > 0 {
			return cm.Args[0]
		}
	}
	return nil
}

var fatalCalls = map[string]bool{
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"os.Exit": true, "runtime.Goexit": true, "log.(Logger).Fatal": true, "log.(Logger).Fatalf": true, "log.(Logger).Fatalln": true,
	"log.(Logger).Panic": true, "log.(Logger).Panicf": true, "log.(Logger).Panicln": true,
}

// opsOf: the operations of f that can panic.
func opsOf(f *ssa.Function) []panicOp {
	var out []panicOp
	eachInstr(f, func(in ssa.Instruction) {
		add := func(kind, what string) { out = append(out, panicOp{in, f, kind, what}) }
		if v := derefs(in); v != nil && !evidentlyNonNil(v) {
			add("nil", valueText(v))
		}
		switch x := in.(type) {
		case *ssa.IndexAddr:
			if n := arrLen(x.X.Type()); n >= 0 {
				if k, ok := x.Index.(*ssa.Const); ok && k.Int64() >= 0 && k.Int64() < n {
					return
				}
			}
			add("index", valueText(x.X))
		case *ssa.Index:
			add("index", valueText(x.X))
		case *ssa.Lookup:
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				add("index", valueText(x.X))
			}
		case *ssa.Slice:
			if x.Low != nil || x.High != nil || x.Max != nil {
				add("slice", valueText(x.X))
			}
		case *ssa.SliceToArrayPointer:
			add("slice", valueText(x.X))
		case *ssa.TypeAssert:
			if !x.CommaOk {
				add("assertion", valueText(x.X)+".("+types.TypeString(x.AssertedType, pkgQual)+")")
			}
		case *ssa.BinOp:
			if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
				if k, ok := x.Y.(*ssa.Const); !ok || constant.Sign(k.Value) == 0 {
					add("division", valueText(x.Y))
				}
			}
		case *ssa.MakeSlice:
			if _, ok := x.Len.(*ssa.Const); !ok {
				add("make", valueText(x.Len))
			}
		case *ssa.Panic:
			add("panic", "panic")
		case ssa.CallInstruction:
			n, _ := calleeName(x.Common())
			if _, dfr := in.(*ssa.Defer); dfr {
				return
			}
			switch {
			case fatalCalls[n]:
				add("exit", n)
			case precond[n] != nil:
				add("call", n)
			}
		}
	})
	return out
}

func valueText(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return valueText(x.X)
	case *ssa.FieldAddr:
		n := fieldName(deref(x.X.Type()), x.Field)
		return n
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field)
	case *ssa.Extract:
		return valueText(x.Tuple)
	case *ssa.Call:
		n, _ := calleeName(&x.Call)
		return shortKey(n) + "()"
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return v.Name()
	case *ssa.Const:
		return x.String()
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.BinOp:
		return valueText(x.X) + x.Op.String() + valueText(x.Y)
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.ChangeType:
		return valueText(x.X)
	case *ssa.Convert:
		return valueText(x.X)
	case *ssa.MakeInterface:
		return valueText(x.X)
	case *ssa.Slice:
		return valueText(x.X)
	case *ssa.IndexAddr:
		return valueText(x.X) + "[]"
	case *ssa.TypeAssert:
		return valueText(x.X)
	case *ssa.Lookup:
		return valueText(x.X) + "[]"
	}
	return typeBase(v.Type())
}

type libCond struct {
	args []int // the arguments it is about
	ok   func(p *panics, e *Effect) (bool, string)
}

// precond: library calls that panic unless their arguments satisfy a condition.
var precond = map[string]*libCond{
	"crypto/rand.Int": {[]int{1}, func(p *panics, e *Effect) (bool, string) {
		n := p.a.bigOf(e.Args[1])
		if n == nil {
			return false, "the bound is not known to be positive"
		}
		return p.a.prover(e.Facts).nonneg(n.add(newLin(1), -1)), "the bound " + n.String() + " is not known to be positive"
	}},
	"crypto/cipher.NewCTR":          {[]int{1}, lenIs(1, 16, "BlockSize")},
	"crypto/cipher.NewCBCEncrypter": {[]int{1}, lenIs(1, 16, "BlockSize")},
	"crypto/cipher.NewCBCDecrypter": {[]int{1}, lenIs(1, 16, "BlockSize")},
	"invoke.AEAD.Open":              {[]int{2}, lenIs(2, 12, "NonceSize")},
	"invoke.AEAD.Seal":              {[]int{2}, lenIs(2, 12, "NonceSize")},
	"invoke.Curve.ScalarMult":       {[]int{1, 2}, onCurve},
	"invoke.Curve.Add":              {[]int{1, 2}, onCurve},
	"invoke.Curve.Double":           {[]int{1, 2}, onCurve},
	"crypto/elliptic.Marshal":       {[]int{1, 2}, onCurve},
}

// lenIs: argument i has n elements, or as many as the named method of argument 0 says.
func lenIs(i int, n int64, size string) func(p *panics, e *Effect) (bool, string) {
	return func(p *panics, e *Effect) (bool, string) {
		l := p.a.lenOfTerm(e.Args[i], 0)
		q := p.a.prover(e.Facts)
		d := l.add(newLin(n), -1)
		if q.nonneg(d) && q.nonneg(newLin(0).add(d, -1)) {
			return true, ""
		}
		x := unwrapTerm(e.Args[i])
		return p.a.holds(e.Facts, "eq", func(a *Analyzer, t *Term) bool {
			return t.Op == "call" && t.Name == "len" && unwrapTerm(t.Args[0]).Key() == x.Key()
		}, func(a *Analyzer, t *Term) bool {
			return t.Op == "call" && strings.HasSuffix(t.Name, "."+size)
		}) != nil, fmt.Sprintf("its length %s is not known to be %s", l, size)
	}
}

func onCurve(p *panics, e *Effect) (bool, string) {
	return p.a.holds(e.Facts, "true", func(a *Analyzer, t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Name, "Curve.IsOnCurve") && len(t.Args) == 3 && t.Args[1].Key() == e.Args[1].Key() && t.Args[2].Key() == e.Args[2].Key()
	}, nil) != nil, "the point is not known to be on the curve"
}

// ok decides an operation under the facts fs, with terms brought into the context by tr.
func (p *panics) ok(op panicOp, fs *FactSet, tr func(*Term) *Term) (bool, string) {
	a := p.a
	at := func(v ssa.Value) *Term { return tr(a.at(v, op.in)) }
	pr := func() *prover { return a.prover(fs) }
	switch op.kind {
	case "nil":
		v := derefs(op.in)
		return p.nonNil(op.f, v, op.in, fs, tr, 0), "it can be nil: " + trunc(at(v).String())
	case "index":
		var x, i ssa.Value
		switch y := op.in.(type) {
		case *ssa.IndexAddr:
			x, i = y.X, y.Index
		case *ssa.Index:
			x, i = y.X, y.Index
		case *ssa.Lookup:
			x, i = y.X, y.Index
		}
		n := newLin(arrLen(x.Type()))
		if n.k < 0 {
			n = a.lenOfTerm(at(x), 0)
		}
		idx := a.linOf(at(i), 0)
		q := pr()
		if !q.nonneg(n.add(idx, -1).add(newLin(1), -1)) {
			return false, fmt.Sprintf("index %s, length %s", idx, n)
		}
		if !unsigned(i.Type()) && !q.nonneg(idx) {
			return false, "negative index: " + idx.String()
		}
		return true, ""
	case "slice":
		x, ok := op.in.(*ssa.Slice)
		if !ok {
			s := op.in.(*ssa.SliceToArrayPointer)
			n := a.lenOfTerm(at(s.X), 0)
			return pr().nonneg(n.add(newLin(arrLen(s.Type())), -1)), "length " + n.String()
		}
		n := newLin(arrLen(x.X.Type()))
		if n.k < 0 {
			n = a.lenOfTerm(at(x.X), 0)
		}
		lo, hi := newLin(0), n
		if x.Low != nil {
			lo = a.linOf(at(x.Low), 0)
		}
		if x.High != nil {
			hi = a.linOf(at(x.High), 0)
		}
		q := pr()
		switch {
		case !q.nonneg(lo):
			return false, "negative bound: " + lo.String()
		case !q.nonneg(hi.add(lo, -1)):
			return false, fmt.Sprintf("bounds %s to %s", lo, hi)
		case x.High != nil && !q.nonneg(n.add(hi, -1)):
			return false, fmt.Sprintf("up to %s, length %s", hi, n)
		}
		return true, ""
	case "assertion":
		x := op.in.(*ssa.TypeAssert)
		if d := dynType(x.X); d != nil && types.AssignableTo(d, x.AssertedType) {
			return true, ""
		}
		t := at(x.X)
		want := types.TypeString(x.AssertedType, pkgQual)
		return p.asserted(t, want, fs), "its type is not known: " + trunc(t.String())
	case "division":
		x := op.in.(*ssa.BinOp)
		d := a.linOf(at(x.Y), 0)
		q := pr()
		return q.nonneg(d.add(newLin(1), -1)) || q.nonneg(newLin(-1).add(d, -1)), "the divisor is not known to differ from 0"
	case "make":
		x := op.in.(*ssa.MakeSlice)
		n := a.linOf(at(x.Len), 0)
		return unsigned(x.Len.Type()) || pr().nonneg(n), "the length is not known to be non-negative: " + n.String()
	case "call":
		n, _ := calleeName(op.in.(ssa.CallInstruction).Common())
		e := &Effect{Instr: op.in, Fn: op.f, Facts: fs, tr: tr}
		cm := op.in.(ssa.CallInstruction).Common()
		if cm.IsInvoke() {
			e.Args = append(e.Args, at(cm.Value))
		}
		for _, y := range cm.Args {
			e.Args = append(e.Args, at(y))
		}
		return precond[n].ok(p, e)
	}
	return false, "it is reached"
}

// asserted: every value t can be has the type.
func (p *panics) asserted(t *Term, want string, fs *FactSet) bool {
	t = unwrapTerm(t)
	if t.Op == "phi" {
		for _, x := range t.Args {
			if !p.asserted(x, want, fs) {
				return false
			}
		}
		return len(t.Args) > 0
	}
	if p.a.holds(fs, "true", func(a *Analyzer, x *Term) bool {
		return x.Op == "assertok" && x.Name == want && x.Args[0].Key() == t.Key()
	}, nil) != nil {
		return true
	}
	if t.Op == "call" && t.Name == "invoke.Context.Value" && len(t.Args) == 2 && unwrapTerm(t.Args[1]).Op == "const" {
		return true // the keys of the configuration and their types are decided by C33
	}
	if t.T != nil && !isIface(t.T) {
		return types.TypeString(t.T, pkgQual) == want
	}
	if e := p.a.expand(t); e != nil && e.Key() != t.Key() {
		return p.asserted(e, want, fs)
	}
	return false
}

// nonNil: the value is not nil at the instruction.
func (p *panics) nonNil(f *ssa.Function, v ssa.Value, at ssa.Instruction, fs *FactSet, tr func(*Term) *Term, d int) bool {
	if d > 8 {
		return false
	}
	if evidentlyNonNil(v) || branchNonNil(v, at) {
		return true
	}
	a := p.a
	t := tr(a.at(v, at))
	if p.knownNonNil(t, fs) {
		return true
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return p.nonNil(f, x.X, at, fs, tr, d+1)
	case *ssa.ChangeInterface:
		return p.nonNil(f, x.X, at, fs, tr, d+1)
	case *ssa.Phi:
		ff := a.funcFacts(f)
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			if ff.in[pred] == nil {
				continue
			}
			ef := a.edgeFacts(ff, pred, x.Block())
			if ef == nil || e == ssa.Value(x) {
				continue
			}
			// what the callers have established still holds
			all := fs.clone()
			for _, q := range ef.list() {
				g := &Fact{Kind: q.Kind, A: tr(q.A), R: q.R}
				if q.B != nil {
					g.B = tr(q.B)
				}
				all.add(g)
			}
			if !p.nonNil(f, e, pred.Instrs[len(pred.Instrs)-1], all, tr, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return p.result(&x.Call, 0, x, fs, tr, d)
	case *ssa.Extract:
		switch tup := x.Tuple.(type) {
		case *ssa.Call:
			return p.result(&tup.Call, x.Index, tup, fs, tr, d)
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return a.holds(fs, "true", Same(tr(mk("assertok", types.TypeString(tup.AssertedType, pkgQual), nil, a.at(tup.X, tup)))), nil) != nil
			}
		}
	case *ssa.TypeAssert:
		return true // a nil value does not pass it
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && !p.decoded[typeBase(deref(fa.X.Type()))] {
			return true // put there by the program itself
		}
		if g, ok := x.X.(*ssa.Global); ok && g != nil {
			return true // initialised by the program or a library
		}
	}
	return p.termNonNil(t, fs, d)
}

// fromStore: read back from the program's own storage.
func (p *panics) fromStore(t *Term, d int) bool {
	if t.Op == "call" && strings.HasPrefix(t.Name, bdg+".(Txn).Get") || t.Op == "call" && strings.HasPrefix(t.Name, bdg+".(Item).") {
		return true
	}
	for _, x := range t.Args {
		if d < 30 && p.fromStore(x, d+1) {
			return true
		}
	}
	if d < 30 && t.Op == "call" && t.Fn != nil && inRepo(t.Fn) {
		if e := p.a.expand(t); e != nil && e.Key() != t.Key() {
			return p.fromStore(e, d+1)
		}
	}
	return false
}

func (p *panics) knownNonNil(t *Term, fs *FactSet) bool {
	if fs.m[mkFact("nonnil", t, nil).Key()] != nil {
		return true
	}
	return p.a.holds(fs, "nonnil", Same(unwrapTerm(t)), nil) != nil
}

func (p *panics) termNonNil(t *Term, fs *FactSet, d int) bool {
	t = unwrapTerm(t)
	if d > 8 {
		return false
	}
	if p.knownNonNil(t, fs) {
		return true
	}
	switch t.Op {
	case "phi":
		for _, x := range t.Args {
			if !p.termNonNil(x, fs, d+1) {
				return false
			}
		}
		return len(t.Args) > 0
	case "lit", "make", "func", "out", "global":
		return true
	case "zero":
		return t.T != nil && !isPtr(t.T) && !isIface(t.T)
	case "const":
		return t.Name != "nil"
	case "param":
		return p.entryParam[t.Name] || t.Idx == 0 && t.Fn == nil && strings.Contains(t.Name, ").")
	case "field":
		if strings.HasPrefix(t.Name, "Request.") {
			return true // of the HTTP request
		}
		if i := strings.LastIndex(t.Name, "."); i > 0 && !p.decoded[t.Name[:i]] {
			return true
		}
		if t.T != nil && !isPtr(t.T) && !isIface(t.T) {
			return true
		}
		if p.validated[t.Name] && p.fromStore(t, 0) {
			return true // a voucher that is stored has been validated (C01, C02, C07)
		}
	case "call":
		if t.Fn != nil && inRepo(t.Fn) {
			return p.repoResult(t.Fn, t.Idx, t, fs)
		}
		return p.libResult(t, fs)
	case "index":
		if isVerified(t) {
			return true
		}
		if b := unwrapTerm(t.Args[0]); b.Op == "call" && b.Fn != nil && inRepo(b.Fn) {
			// an element of what certificate verification returned
			ok, n := true, 0
			if e := p.a.expand(b); e != nil {
				for _, x := range alts(e) {
					if x = unwrapTerm(x); x.Op == "zero" || x.Op == "const" {
						continue // has no elements
					}
					n++
					ok = ok && isVerified(x)
				}
			}
			return ok && n > 0
		}
	}
	if t.T != nil && !isPtr(t.T) && !isIface(t.T) {
		if _, isMap := t.T.Underlying().(*types.Map); !isMap {
			return true
		}
	}
	return false
}

// repoResult: a result of one of the program's own functions.
func (p *panics) repoResult(g *ssa.Function, i int, t *Term, fs *FactSet) bool {
	a := p.a
	k := errResult(g)
	if k >= 0 && k != i {
		if a.holds(fs, "nil", func(a *Analyzer, x *Term) bool {
			return x.Op == "call" && x.Fn == g && x.Idx == k && (x.Site == t.Site || t.Site == nil)
		}, nil) == nil {
			return false
		}
		return a.nonNilOnSuccess(g, i, k, 0) || p.underTest(g, i, k, t, fs) || a.isHelper(g) && p.nonNilReturns(g, i, k)
	}
	// what is known at the use about the call's other results
	var conds []int
	for j := 0; j < g.Signature.Results().Len(); j++ {
		if b, ok := g.Signature.Results().At(j).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			if a.holds(fs, "true", func(a *Analyzer, x *Term) bool {
				return x.Op == "call" && x.Fn == g && x.Idx == j && (x.Site == t.Site || t.Site == nil)
			}, nil) != nil {
				conds = append(conds, j)
			}
		}
	}
	ff := a.funcFacts(g)
returns:
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || ff.in[b] == nil {
			continue
		}
		for _, j := range conds {
			if k, ok := r.Results[j].(*ssa.Const); ok && k.Value != nil && !constant.BoolVal(k.Value) {
				continue returns
			}
			if a.outFacts(ff, b).m[mkFact("false", a.at(r.Results[j], r), nil).Key()] != nil {
				continue returns
			}
		}
		if !p.nonNil(g, r.Results[i], r, a.outFacts(ff, b), func(t *Term) *Term { return t }, 3) {
			return false
		}
	}
	return true
}

// nonNilReturns: result i is not nil wherever the function returns a nil error.
func (p *panics) nonNilReturns(g *ssa.Function, i, k int) bool {
	if p.busyFn[g] {
		return false
	}
	p.busyFn[g] = true
	defer delete(p.busyFn, g)
	a := p.a
	ff := a.funcFacts(g)
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || ff.in[b] == nil {
			continue
		}
		fs := a.outFacts(ff, b)
		more, feasible := a.nilFacts(ff, r.Results[k], true, r, 0)
		if !feasible || fs.m[mkFact("nonnil", a.at(r.Results[k], r), nil).Key()] != nil {
			continue
		}
		fs = fs.clone()
		fs.addAll(more)
		if !p.nonNil(g, r.Results[i], r, fs, func(t *Term) *Term { return t }, 3) {
			return false
		}
	}
	return true
}

// byCases: a parameter of the function is one of some constants, chosen by the entry function; the operation is in order,
// or not reached, for each.
func (p *panics) byCases(e *ssa.Function, op panicOp, ef *Effect) bool {
	f := op.in.Parent()
	for i := range f.Params {
		phi := p.chosen(e, ef.tr(paramOfTerm(f, i)))
		if phi == nil {
			continue
		}
		all := true
		for _, k := range phiConsts(phi) {
			c := p.a.at(k, phi)
			key := fmt.Sprint(fnKey(f), "|", i, "|", c.Key())
			sp := p.specs[key]
			if sp == nil {
				args := make([]*Term, len(f.Params))
				args[i] = c
				sp = p.a.spec(f, args)
				p.specs[key] = sp
			}
			if sp.sp.deadB[op.in.Block()] {
				continue
			}
			fs, ok := p.a.constFacts(p.a.funcFacts(e), phi, k, true, phi, 0)
			if !ok {
				continue
			}
			fs = fs.clone()
			fs.addAll(ef.Facts)
			if ok, _ := p.ok(op, fs, ef.tr); !ok {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// chosen: the phi of e that t stands for, if all it can be are constants.
func (p *panics) chosen(e *ssa.Function, t *Term) *ssa.Phi {
	t = unwrapTerm(t)
	if t.Op != "phi" {
		return nil
	}
	for _, x := range t.Args {
		if unwrapTerm(x).Op != "const" {
			return nil
		}
	}
	for _, b := range e.Blocks {
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok && len(phiConsts(phi)) > 0 && unwrapTerm(p.a.at(phi, phi)).Key() == t.Key() {
				return phi
			}
		}
	}
	return nil
}

// phiConsts: the constants that meet in the phi; none if something else does too.
func phiConsts(phi *ssa.Phi) []*ssa.Const {
	var out []*ssa.Const
	seen := map[ssa.Value]bool{}
	ok := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				ok = false
				return
			}
			for _, y := range out {
				if constant.Compare(x.Value, token.EQL, y.Value) {
					return
				}
			}
			out = append(out, x)
		case *ssa.Phi:
			for _, y := range x.Edges {
				walk(y)
			}
		default:
			ok = false
		}
	}
	walk(phi)
	if !ok {
		return nil
	}
	return out
}

// underTest: as nonNilOnSuccess, for the test that the function is called with.
func (p *panics) underTest(g *ssa.Function, i, k int, t *Term, fs *FactSet) bool {
	j := testIDParam(g)
	if j < 0 || j >= len(t.Args) {
		return false
	}
	var ids []string
	for _, y := range alts(t.Args[j]) {
		y = unwrapTerm(y)
		switch l := isListElem(y); {
		case y.Op == "const":
			ids = append(ids, y.Name)
		case l != "":
			for _, x := range p.lists[l] {
				if !p.c.excluded(fs, y, x) {
					ids = append(ids, x)
				}
			}
		default:
			return false
		}
	}
	for _, x := range ids {
		key := fnKey(g) + "|" + x
		sp := p.specs[key]
		if sp == nil {
			args := make([]*Term, len(g.Params))
			args[j] = mk("const", x, g.Params[j].Type())
			sp = p.a.spec(g, args)
			p.specs[key] = sp
		}
		if !sp.nonNilOnSuccess(g, i, k, 0) {
			return false
		}
	}
	return len(ids) > 0
}

// libResult: a result of a library function, named by its term.
func (p *panics) libResult(t *Term, fs *FactSet) bool {
	call, ok := t.Site.(*ssa.Call)
	if !ok {
		return false
	}
	res := call.Call.Signature().Results()
	last := res.Len() - 1
	if last <= 0 || !isErrorType(res.At(last).Type()) || t.Idx == last {
		return false
	}
	return infallible[t.Name] || p.a.holds(fs, "nil", func(a *Analyzer, x *Term) bool {
		return x.Op == "call" && x.Site == t.Site && x.Idx == last && x.Name == t.Name
	}, nil) != nil
}

// mayReturnNil: library functions whose only result can be nil.
var mayReturnNil = map[string]bool{"encoding/pem.Decode": true, "context.(Context).Value": true, "invoke.Context.Value": true, "net/http.(Request).Context": false}

// result: result i of a call.
func (p *panics) result(cm *ssa.CallCommon, i int, call *ssa.Call, fs *FactSet, tr func(*Term) *Term, d int) bool {
	a := p.a
	n, g := calleeName(cm)
	if g != nil && inRepo(g) && len(g.Blocks) > 0 {
		t := tr(a.at(call, call))
		if call.Referrers() != nil {
			for _, r := range *call.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == i {
					t = tr(a.val(e))
				}
			}
		}
		t = unwrapTerm(t)
		if t.Op != "call" || t.Fn != g {
			if p.termNonNil(t, fs, d+1) {
				return true
			}
			t = tr(withIdx(a.callTerm(call), i, g.Signature.Results().At(i).Type()))
			if t.Op != "call" || t.Fn != g {
				return false
			}
		}
		return p.repoResult(g, i, t, fs)
	}
	if mayReturnNil[n] {
		return false
	}
	res := cm.Signature().Results()
	if res.Len() > 1 {
		last := res.Len() - 1
		if isErrorType(res.At(last).Type()) && last != i {
			for _, r := range *call.Referrers() {
				e, ok := r.(*ssa.Extract)
				if ok && e.Index == last {
					if infallible[n] {
						return true
					}
					t := tr(a.val(e))
					return fs.m[mkFact("nil", t, nil).Key()] != nil || a.holds(fs, "nil", Same(t), nil) != nil
				}
			}
			return infallible[n]
		}
	}
	return true
}

// branchNonNil: a branch on v != nil dominates the instruction.
func branchNonNil(v ssa.Value, at ssa.Instruction) bool {
	for b := at.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(b.Preds) != 1 || b.Preds[0] != d {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
			continue
		}
		if bo.Op == token.NEQ && d.Succs[0] == b || bo.Op == token.EQL && d.Succs[1] == b {
			return true
		}
	}
	return false
}

// infallible: library calls whose error cannot occur for the arguments used here.
var infallible = map[string]bool{
	"crypto/rand.Int": true, // the reader of crypto/rand does not fail
	"github.com/fxamacker/cbor/v2.(EncOptions).EncModeWithTags": true, // options and tags are constant
	"github.com/fxamacker/cbor/v2.(DecOptions).DecModeWithTags": true,
	"github.com/monnand/dhkx.GetGroup":                          true, // for the constant groups 14 and 15
}

// entryCount: a session's NumOVEntries is the number of entries of its voucher.
func (c *Ctx) entryCount() func(t *Term) []*lin {
	n, good := 0, 0
	h := c.handler(60)
	all := map[ssa.Instruction]bool{}
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		if isFieldStore(in, "SessionEntry", "NumOVEntries") {
			all[in] = true
		}
	})
	vs := c.fieldStores(h, "SessionEntry", "Voucher")
	for _, e := range c.fieldStores(h, "SessionEntry", "NumOVEntries") {
		delete(all, e.Instr)
		n++
		v := c.A.linOf(storeVal(c, e), 0)
		for _, w := range vs {
			if w.Instr.(*ssa.Store).Addr.(*ssa.FieldAddr).X != e.Instr.(*ssa.Store).Addr.(*ssa.FieldAddr).X {
				continue
			}
			l := c.A.lenOfTerm(projField(storeVal(c, w), "OwnershipVoucher.OVEntryArray", nil), 0)
			if v.key() == l.key() {
				good++
			}
		}
	}
	if n == 0 || good != n || len(all) > 0 {
		return nil
	}
	return func(t *Term) []*lin {
		if t.Op != "field" || t.Name != "SessionEntry.NumOVEntries" {
			return nil
		}
		v := mk("field", "SessionEntry.Voucher", nil, t.Args[0])
		return []*lin{c.A.lenOfTerm(mk("field", "OwnershipVoucher.OVEntryArray", nil, v), 0).add(atom(t), -1)}
	}
}

func c14(c *Ctx) {
	a := c.A
	a.relBounds = c.entryCount()
	p := &panics{busyFn: map[*ssa.Function]bool{}, c: c, a: a, decoded: c.decodedTypes(), entryParam: map[string]bool{}, specs: map[string]*Analyzer{}, lists: c.listGlobals()}
	entries, cli, sends := c.peerEntries()
	p.sends = sends
	for _, e := range entries {
		for i := range e.Params {
			p.entryParam[paramOfTerm(e, i).Name] = true
		}
	}
	p.validated = map[string]bool{}
	if f := c.P.fn("core/shared.(OwnershipVoucher).Validate"); f != nil {
		if fs := a.summary(f, 0, "nil"); fs != nil {
			for _, x := range fs.list() {
				if x.Kind == "nonnil" && x.A.Op == "field" && len(x.A.Args) == 1 && x.A.Args[0].Op == "param" {
					p.validated[x.A.Name] = true
				}
			}
		}
	}
	inScope := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if inScope[f] || !inRepo(f) || len(f.Blocks) == 0 {
			return
		}
		inScope[f] = true
		for _, g := range callees(f) {
			dfs(g)
		}
	}
	for _, e := range entries {
		dfs(e)
	}
	id := func(t *Term) *Term { return t }
	open := map[ssa.Instruction][]panicOp{}
	n := 0
	rule := map[string]string{"nil": "dereference", "index": "index in bounds", "slice": "slice in bounds", "assertion": "type assertion", "division": "division", "make": "allocation", "panic": "explicit panic", "exit": "process exit", "call": "panicking library call"}
	for _, f := range c.P.Funcs {
		if !inScope[f] {
			continue
		}
		a.visitedF[f] = true
		for _, op := range opsOf(f) {
			fs := a.factsAt(f, op.in)
			if fs == nil {
				continue
			}
			n++
			if ok, _ := p.ok(op, fs, id); ok {
				c.ob(rule[op.kind], fnShort(f)+" "+op.what, true, op.in.Pos(), "")
				continue
			}
			open[op.in] = append(open[op.in], op)
		}
	}
	// what cannot be decided in the function itself, in every context
	bad := map[ssa.Instruction]map[string]string{}
	reached := map[ssa.Instruction]bool{}
	for _, e := range entries {
		for _, ef := range a.effects(e, func(in ssa.Instruction) bool { return len(open[in]) > 0 }, nil) {
			reached[ef.Instr] = true
			for _, op := range open[ef.Instr] {
				if op.kind == "exit" && cli[e] {
					continue // a command of the tool ends with its process
				}
				if !p.peerOp(op, ef) {
					continue
				}
				if ok, why := p.ok(op, ef.Facts, ef.tr); !ok && !p.byCases(e, op, ef) {
					if bad[op.in] == nil {
						bad[op.in] = map[string]string{}
					}
					if bad[op.in][op.kind] == "" {
						bad[op.in][op.kind] = why + " (" + strings.Join(ef.Chain, " > ") + ")"
					}
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			for _, op := range open[in] {
				why := bad[in][op.kind]
				c.ob(rule[op.kind], fnShort(f)+" "+op.what, why == "", in.Pos(), "%s", why)
			}
		})
	}
	c.min("dereference", 1)
}

// peerOp: what can go wrong with the operation depends on what a peer has sent.
func (p *panics) peerOp(op panicOp, ef *Effect) bool {
	if op.kind == "panic" || op.kind == "exit" {
		// what decides whether it is reached
		for b := op.in.Block(); b != nil; b = b.Idom() {
			d := b.Idom()
			if d == nil || len(b.Preds) != 1 || b.Preds[0] != d {
				continue
			}
			if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && d.Succs[0] != d.Succs[1] {
				vs := []ssa.Value{iff.Cond}
				if bo, ok := iff.Cond.(*ssa.BinOp); ok {
					vs = []ssa.Value{bo.X, bo.Y}
				}
				for _, v := range vs {
					if p.fromPeer(ef.tr(p.a.at(v, iff)), map[string]bool{}, 0) {
						return true
					}
				}
				return false
			}
		}
		return true
	}
	at := func(v ssa.Value) *Term { return ef.tr(p.a.at(v, op.in)) }
	if op.kind == "nil" {
		v := derefs(op.in)
		if typeBase(v.Type()) == "FDOTestState" {
			return false // that a step reports a verdict is decided by C17 and C18
		}
		return p.fromPeer(at(v), map[string]bool{}, 0)
	}
	var ts []*Term
	add := func(v ssa.Value) {
		if v != nil {
			l := p.a.linOf(at(v), 0)
			for _, t := range l.at {
				ts = append(ts, t)
			}
		}
	}
	addLen := func(v ssa.Value) {
		if arrLen(v.Type()) < 0 {
			for _, t := range p.a.lenOfTerm(at(v), 0).at {
				ts = append(ts, t)
			}
		}
	}
	switch x := op.in.(type) {
	case *ssa.IndexAddr:
		add(x.Index)
		addLen(x.X)
	case *ssa.Index:
		add(x.Index)
		addLen(x.X)
	case *ssa.Lookup:
		add(x.Index)
		addLen(x.X)
	case *ssa.Slice:
		add(x.Low)
		add(x.High)
		addLen(x.X)
	case *ssa.BinOp:
		add(x.Y)
	case *ssa.MakeSlice:
		add(x.Len)
	case ssa.CallInstruction:
		n, _ := calleeName(x.Common())
		vs := x.Common().Args
		if x.Common().IsInvoke() {
			vs = append([]ssa.Value{x.Common().Value}, vs...)
		}
		for _, i := range precond[n].args {
			ts = append(ts, at(vs[i]))
		}
	default:
		for _, v := range op.in.Operands(nil) {
			if *v != nil {
				if _, ok := (*v).(*ssa.Function); !ok {
					ts = append(ts, at(*v))
				}
			}
		}
	}
	for _, t := range ts {
		if p.fromPeer(t, map[string]bool{}, 0) {
			return true
		}
	}
	return false
}

// ownRecords: what the program keeps about its tests and users; nothing in them is taken from a peer's message.
var ownRecords = map[string]bool{"RequestListenerInst": true, "RequestListenerRunnerInst": true, "ListenerTestRun": true, "RequestTestInst": true, "UserTestDBEntry": true, "MainConfig": true, "KeXParams": true}

func (p *panics) fromPeer(t *Term, seen map[string]bool, d int) bool {
	if t == nil || d > 40 {
		return false
	}
	t = unwrapTerm(t)
	k := t.Key()
	if seen[k] {
		return false
	}
	seen[k] = true
	switch t.Op {
	case "param":
		return t.T != nil && typeBase(deref(t.T)) == "Request"
	case "field":
		if strings.HasPrefix(t.Name, "Request.") {
			return true // of the HTTP request
		}
		if i := strings.LastIndex(t.Name, "."); i > 0 && ownRecords[t.Name[:i]] {
			return false
		}
	case "lookup":
		// an entry of a constant table
		if x := unwrapTerm(t.Args[0]); x.Op == "global" && p.a.p.tableOf(x.Name) != nil {
			return false
		}
	case "call":
		switch {
		case strings.HasSuffix(t.Name, ".Marshal"), strings.HasSuffix(t.Name, ".Hash.Sum"), strings.HasSuffix(t.Name, ").Sum"):
			return false // made by the program itself
		case t.Fn != nil && p.sends[t.Fn]:
			return true
		}
		if t.T != nil {
			if sl, ok := t.T.Underlying().(*types.Slice); ok && ownRecords[typeBase(sl.Elem())] {
				return false
			}
			if pt, ok := t.T.Underlying().(*types.Pointer); ok {
				if sl, ok := pt.Elem().Underlying().(*types.Slice); ok && ownRecords[typeBase(sl.Elem())] {
					return false
				}
			}
		}
		if t.Fn != nil && inRepo(t.Fn) && len(t.Fn.Blocks) > 0 {
			if e := p.a.expand(t); e != nil && e.Key() != k {
				return p.fromPeer(e, seen, d+1)
			}
		}
	case "out":
		if t.Fn != nil && p.sends[t.Fn] {
			return true
		}
	}
	for _, x := range t.Args {
		if p.fromPeer(x, seen, d+1) {
			return true
		}
	}
	return false
}

// peerEntries: where data of a peer enters: the protocol and API handlers, the test executors, and the commands that talk
// to servers (the second result tells those apart).
func (c *Ctx) peerEntries() ([]*ssa.Function, map[*ssa.Function]bool, map[*ssa.Function]bool) {
	seen := map[*ssa.Function]bool{}
	cli := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		add(c.handler(m))
	}
	rs := c.apiRoutes()
	var ps []string
	for pat := range rs {
		ps = append(ps, pat)
	}
	sort.Strings(ps)
	for _, pat := range ps {
		add(rs[pat])
	}
	for _, f := range c.P.Funcs {
		if f.Parent() == nil && strings.HasPrefix(fnKey(f), "testexec.") && token.IsExported(f.Name()) {
			add(f)
		}
	}
	sends := map[*ssa.Function]bool{}
	if f := c.P.fn("core/shared.SendCborPost"); f != nil {
		sends[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.Funcs {
			if sends[f] {
				continue
			}
			eachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok && !sends[f] {
					if g := ci.Common().StaticCallee(); calleeIs(in, "core/shared.SendCborPost") || g != nil && sends[unwrapBound(g)] {
						sends[f], ch = true, true
					}
				}
			})
		}
	}
	for _, f := range c.P.Funcs {
		if f.Parent() != nil && fnPkg(f).Name() == "main" && sends[f] {
			add(f)
			cli[f] = true
		}
	}
	return out, cli, sends
}
