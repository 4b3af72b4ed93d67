package main

import (
	"fmt"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- routes ----------

type Route struct {
	Pattern string
	Handler *ssa.Function
	Pos     token.Pos
	In      *ssa.Function
}

// routes finds every registration of a handler with net/http or the mux router, by constant pattern.
func (c *Ctx) routes() []Route {
	var out []Route
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				n, _ := calleeName(call.Common())
				if !strings.HasSuffix(n, ".HandleFunc") && !strings.HasSuffix(n, ".HandlerFunc") && !strings.HasSuffix(n, ".Handle") && !strings.HasSuffix(n, ".Handler") {
					continue
				}
				if strings.HasPrefix(n, "net/http.HandlerFunc") {
					continue
				}
				args := call.Common().Args
				if len(args) < 2 {
					continue
				}
				pat := "?"
				h := args[len(args)-1]
				if len(args) >= 2 {
					p := args[len(args)-2]
					if pt := c.A.at(p, call); pt.Op == "const" {
						pat = pt.Name
					} else if pt.Op == "call" && strings.HasSuffix(pt.Name, ".PathPrefix") && len(pt.Args) > 0 {
						pat = pt.Args[len(pt.Args)-1].Name + "*"
					}
				}
				out = append(out, Route{Pattern: pat, Handler: handlerFn(h), Pos: call.Pos(), In: f})
			}
		}
	}
	return out
}

func handlerFn(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return unwrapBound(x)
	case *ssa.MakeClosure:
		return unwrapBound(x.Fn.(*ssa.Function))
	case *ssa.ChangeType:
		return handlerFn(x.X)
	case *ssa.MakeInterface:
		return handlerFn(x.X)
	}
	return nil
}

// handler returns the function serving the FDO message number.
func (c *Ctx) handler(msg int) *ssa.Function {
	want := "/fdo/101/msg/" + strconv.Itoa(msg)
	var got *ssa.Function
	for _, r := range c.routes() {
		if r.Pattern == want && r.Handler != nil {
			got = r.Handler
		}
	}
	if got == nil {
		c.missing("handler of route " + want)
	}
	return got
}

var fdoMsgs = []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}

// ---------- effects ----------

func isWriteHeader(in ssa.Instruction) bool {
	return calleeIs(in, "invoke.ResponseWriter.WriteHeader")
}
func isRespWrite(in ssa.Instruction) bool {
	return calleeIs(in, "invoke.ResponseWriter.Write")
}

func statusOf(t *Term) (int, bool) {
	if t != nil && t.Op == "const" {
		n, err := strconv.Atoi(t.Name)
		return n, err == nil
	}
	return 0, false
}

func calledFact(fs *FactSet, name string) bool {
	for _, f := range fs.m {
		if f.Kind == "called" && f.A.Op == "call" && f.A.Name == name {
			return true
		}
	}
	return false
}

// successAnswers: every point reachable from entry where a non-error answer is started.
func (c *Ctx) successAnswers(entry *ssa.Function) []*Effect {
	var out []*Effect
	for _, e := range c.A.effects(entry, func(in ssa.Instruction) bool { return isWriteHeader(in) || isRespWrite(in) }, nil) {
		if isWriteHeader(e.Instr) {
			if len(e.Args) == 2 {
				bad := true
				for _, x := range alts(e.Args[1]) {
					if n, ok := statusOf(x); !ok || n < 400 {
						bad = false
					}
				}
				if bad {
					continue
				}
			}
			out = append(out, e)
			continue
		}
		if !calledFact(e.Facts, "invoke.ResponseWriter.WriteHeader") {
			out = append(out, e)
		}
	}
	return out
}

func alts(t *Term) []*Term {
	if t.Op == "phi" {
		return t.Args
	}
	return []*Term{t}
}

// callsTo: effects that are calls to one of the keys.
func (c *Ctx) callsTo(entry *ssa.Function, keys ...string) []*Effect {
	return c.A.effects(entry, func(in ssa.Instruction) bool { return calleeIs(in, keys...) }, nil)
}

// allCallSites of a callee in the module.
func (c *Ctx) allCallSites(keys ...string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && calleeIs(in, keys...) {
					out = append(out, ci)
				}
			}
		}
	}
	return out
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	return k
}

func fnShort(f *ssa.Function) string {
	k := fnKey(f)
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

// guard: every requirement must hold at the effect.
func (c *Ctx) guard(rule, construct string, e *Effect, reqs []Req) {
	for _, r := range reqs {
		f := c.A.req(e.Facts, r)
		if f != nil {
			c.ob(rule, construct+": "+r.Name, true, e.Instr.Pos(), "established by %s", trunc(f.String()))
		} else {
			c.ob(rule, construct+": "+r.Name, false, e.Instr.Pos(), "a path from %s reaches this point without establishing it (via %s)", shortKey(e.Chain[0]), strings.Join(shortKeys(e.Chain), " > "))
		}
	}
}

func shortKeys(ks []string) []string {
	var o []string
	for _, k := range ks {
		o = append(o, shortKey(k))
	}
	return o
}

func trunc(s string) string {
	if len(s) > 240 {
		return strings.ToValidUTF8(s[:240], "") + "…"
	}
	return s
}

// provenance: the term must match.
func (c *Ctx) prov(rule, construct string, pos token.Pos, t *Term, m M, what string) {
	if t != nil && c.A.is(t, m) {
		c.ob(rule, construct, true, pos, "%s: %s", what, trunc(t.String()))
		return
	}
	s := "<none>"
	if t != nil {
		s = trunc(t.String())
	}
	c.ob(rule, construct, false, pos, "expected %s, but the value is %s", what, s)
}

// summaryHas: on every return of f with result k in class kind, the requirement holds.
func (c *Ctx) summaryHas(rule string, f *ssa.Function, k int, kind string, reqs []Req) {
	fs := c.A.summary(f, k, kind)
	if fs == nil {
		fs = newFS()
	}
	for _, r := range reqs {
		g := c.A.req(fs, r)
		if g != nil {
			c.ob(rule, fnShort(f)+": "+r.Name, true, f.Pos(), "holds on every return with result %d %s: %s", k, kind, trunc(g.String()))
		} else {
			c.ob(rule, fnShort(f)+": "+r.Name, false, f.Pos(), "%s can return with result %d %s without it", shortKey(fnKey(f)), k, kind)
		}
	}
}

func errResult(f *ssa.Function) int {
	rs := f.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if rs.At(i).Type().String() == "error" {
			return i
		}
	}
	return -1
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func itoa(i int) string { return fmt.Sprint(i) }

// fieldOf: value of field name in a struct-valued term (literal, projected or decoded).
func fieldOf(t *Term, name string) *Term { return projField(t, name, nil) }

// onlyCallers: every call site of key lies in a function reached from one of the entries.
func (c *Ctx) onlyCallers(rule, key string, entries []*ssa.Function) {
	ok := map[*ssa.Function]bool{}
	for _, e := range entries {
		var dfs func(f *ssa.Function)
		dfs = func(f *ssa.Function) {
			if ok[f] {
				return
			}
			ok[f] = true
			for _, g := range callees(f) {
				if inRepo(g) {
					dfs(g)
				}
			}
		}
		dfs(e)
	}
	for _, ci := range c.allCallSites(key) {
		c.ob(rule, shortKey(key)+" called from "+fnShort(ci.Parent()), ok[ci.Parent()], ci.Pos(), "call sites outside the checked entry points bypass the checks")
	}
}

// answerBodies: every write of a success answer's body reachable from entry.
func (c *Ctx) answerBodies(entry *ssa.Function) []*Effect {
	var out []*Effect
	for _, e := range c.A.effects(entry, isRespWrite, nil) {
		isErr := false
		for _, f := range e.Facts.m {
			if f.Kind == "called" && f.A.Op == "call" && f.A.Name == "invoke.ResponseWriter.WriteHeader" && len(f.A.Args) == 2 {
				bad := true
				for _, x := range alts(f.A.Args[1]) {
					if n, ok := statusOf(x); !ok || n < 400 {
						bad = false
					}
				}
				if bad {
					isErr = true
				}
			}
		}
		if !isErr {
			out = append(out, e)
		}
	}
	return out
}

// Marshal matches the CBOR encoding of a value satisfying m.
func Marshal(m M) M { return Res("core/shared.(CBOR_CUSTOM_TAGS).Marshal", 0, nil, m) }

// Val wraps a field requirement on a struct-valued term, literal or not.
func Val(name string, m M) M {
	return func(a *Analyzer, t *Term) bool {
		switch t.Op {
		case "lit", "phi", "out", "call", "field", "param", "lookup", "index":
		default:
			return false
		}
		if t.Op == "lit" {
			for _, kv := range t.Args {
				if kv.Name == name {
					return a.is(kv.Args[0], m)
				}
			}
			return false
		}
		if t.Op == "phi" {
			return false
		}
		return a.is(projField(t, name, nil), m)
	}
}

func isZeroM(a *Analyzer, t *Term) bool {
	return t.Op == "zero" || t.Op == "const" && (t.Name == "nil" || t.Name == "0" || t.Name == "false" || t.Name == "") || isZeroLit(t)
}

func EqT(x *Term) M { return Same(x) }

// minOf: is v, used at instruction `at`, the lesser of a value matching A and one matching B?
func (c *Ctx) minOf(v ssa.Value, at ssa.Instruction, tr func(*Term) *Term, A, B M, d int) bool {
	if d > 6 {
		return false
	}
	a := c.A
	le := func(fs *FactSet, x, y M) bool {
		for _, f := range fs.list() {
			if f.Kind != "lt" && f.Kind != "le" && f.Kind != "eq" {
				continue
			}
			fa, fb := tr(f.A), tr(f.B)
			if a.is(fa, x) && a.is(fb, y) || f.Kind == "eq" && a.is(fa, y) && a.is(fb, x) {
				return true
			}
		}
		return false
	}
	pick := func(v ssa.Value, at ssa.Instruction, fs *FactSet) bool {
		t := tr(a.at(v, at))
		if fs == nil {
			return true // unreachable
		}
		return a.is(t, A) && le(fs, A, B) || a.is(t, B) && le(fs, B, A)
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.minOf(x.X, x, tr, A, B, d+1)
	case *ssa.ChangeType:
		return c.minOf(x.X, x, tr, A, B, d+1)
	case *ssa.Phi:
		ff := a.funcFacts(x.Parent())
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			last := p.Instrs[len(p.Instrs)-1]
			if pick(e, last, a.edgeFacts(ff, p, x.Block())) || c.minOf(e, last, tr, A, B, d+1) {
				continue
			}
			return false
		}
		return len(x.Edges) > 0
	case *ssa.Call:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "min" && len(cc.Args) == 2 {
			t0, t1 := tr(a.at(cc.Args[0], x)), tr(a.at(cc.Args[1], x))
			return a.is(t0, A) && a.is(t1, B) || a.is(t0, B) && a.is(t1, A)
		}
		g := cc.StaticCallee()
		if g == nil || !inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		var args []*Term
		for _, y := range cc.Args {
			args = append(args, tr(a.at(y, x)))
		}
		ntr := func(t *Term) *Term { return subst(t, g, args) }
		ff := a.funcFacts(g)
		n := 0
		for _, b := range g.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || ff.in[b] == nil {
				continue
			}
			n++
			fs := a.outFacts(ff, b)
			okp := false
			t := ntr(a.at(r.Results[0], r))
			for _, f := range fs.list() {
				_ = f
			}
			le2 := func(x, y M) bool {
				for _, f := range fs.list() {
					if f.Kind != "lt" && f.Kind != "le" && f.Kind != "eq" {
						continue
					}
					fa, fb := ntr(f.A), ntr(f.B)
					if a.is(fa, x) && a.is(fb, y) || f.Kind == "eq" && a.is(fa, y) && a.is(fb, x) {
						return true
					}
				}
				return false
			}
			if a.is(t, A) && le2(A, B) || a.is(t, B) && le2(B, A) {
				okp = true
			}
			if !okp && !c.minOf(r.Results[0], r, ntr, A, B, d+1) {
				return false
			}
		}
		return n > 0
	case *ssa.UnOp:
		// a variable with several stores: each store must pick the lesser
		return c.minStores(x, tr, A, B, d)
	}
	return false
}

func (c *Ctx) minStores(x *ssa.UnOp, tr func(*Term) *Term, A, B M, d int) bool { return false }

func handlers(c *Ctx, msgs ...int) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range msgs {
		if h := c.handler(m); h != nil {
			out = append(out, h)
		}
	}
	return out
}

// callArg gives the i-th actual argument (receiver first) of a call effect as an SSA value.
func callArg(e *Effect, i int) ssa.Value {
	ci := e.Instr.(ssa.CallInstruction)
	cc := ci.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		return cc.Args[i-1]
	}
	return cc.Args[i]
}

// corruptible: the value must match on everything except alternatives a negative test selects.
func (c *Ctx) corruptible(rule, construct string, e *Effect, arg int, m M, what string) {
	c.prov(rule, construct, e.Instr.Pos(), e.Args[arg], m, what)
}

type entryTerms struct{ Key, Val, TTL *Term }

const bdg = "github.com/dgraph-io/badger/v4"

// badgerEntry decomposes what a Set/SetEntry call writes.
func (c *Ctx) badgerEntry(e *Effect) entryTerms {
	if calleeIs(e.Instr, bdg+".(Txn).Set") {
		return entryTerms{Key: e.Args[1], Val: e.Args[2]}
	}
	var out entryTerms
	t := e.Args[1]
	for i := 0; i < 12 && t != nil; i++ {
		if t.Op != "call" {
			x := c.A.expand(t)
			if x == nil {
				break
			}
			t = x
			continue
		}
		switch t.Name {
		case bdg + ".(Entry).WithTTL":
			out.TTL = t.Args[1]
			t = t.Args[0]
			continue
		case bdg + ".(Entry).WithMeta", bdg + ".(Entry).WithDiscard":
			t = t.Args[0]
			continue
		case bdg + ".NewEntry":
			out.Key, out.Val = t.Args[0], t.Args[1]
			return out
		}
		x := c.A.expand(t)
		if x == nil {
			break
		}
		t = x
	}
	if t != nil && t.Op == "lit" {
		out.Key, out.Val = fieldOf(t, "Entry.Key"), fieldOf(t, "Entry.Value")
	}
	if out.Key == nil {
		out.Key = mk("opaque", "unknown entry", nil)
	}
	return out
}

// keyPrefix: if the key is constant-prefix ++ id (id matching m), the prefix.
func keyPrefix(a *Analyzer, t *Term, id M) string {
	pre, rest, ok := splitKey(a, t, 0)
	if !ok || pre == "" {
		return ""
	}
	if len(rest) == 1 && a.is(rest[0], id) {
		return pre
	}
	return ""
}

// splitKey flattens append/+ concatenations into a constant prefix and the remaining parts.
func splitKey(a *Analyzer, t *Term, d int) (string, []*Term, bool) {
	if d > 10 {
		return "", nil, false
	}
	parts := flatConcat(a, t, 0)
	pre := ""
	i := 0
	for i < len(parts) && parts[i].Op == "const" {
		pre += parts[i].Name
		i++
	}
	return pre, parts[i:], true
}

func flatConcat(a *Analyzer, t *Term, d int) []*Term {
	if d > 12 {
		return []*Term{t}
	}
	switch {
	case t.Op == "call" && t.Name == "append" && len(t.Args) == 2:
		return append(flatConcat(a, t.Args[0], d+1), flatConcat(a, t.Args[1], d+1)...)
	case t.Op == "bin" && t.Name == "+":
		return append(flatConcat(a, t.Args[0], d+1), flatConcat(a, t.Args[1], d+1)...)
	case isEmptyTerm(t):
		return nil
	case t.Op == "call" && (t.Name == "slices.Concat" || t.Name == "bytes.Join"):
		if t.Name == "slices.Concat" && len(t.Args) == 1 && t.Args[0].Op == "lit" {
			var out []*Term
			for _, kv := range t.Args[0].Args {
				out = append(out, flatConcat(a, kv.Args[0], d+1)...)
			}
			return out
		}
	case t.Op == "lit" && t.Name == "array":
		return []*Term{t}
	}
	if x := a.expand(t); x != nil && x.Key() != t.Key() {
		if r := flatConcat(a, x, d+1); len(r) != 1 || r[0].Op == "const" {
			return r
		}
	}
	return []*Term{t}
}

// nonNilResult: term of result k over returns, nil/zero alternatives dropped.
func (c *Ctx) nonNilResult(f *ssa.Function, k int) *Term {
	r := c.A.results(f, k)
	if r == nil || r.Op != "phi" {
		return r
	}
	var keep []*Term
	for _, x := range r.Args {
		if !isZeroM(c.A, x) {
			keep = append(keep, x)
		}
	}
	if len(keep) == 0 {
		return r
	}
	return phiOf(keep, r.T)
}

// eachInstr visits every instruction of a function.
func eachInstr(f *ssa.Function, visit func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			visit(in)
		}
	}
}
