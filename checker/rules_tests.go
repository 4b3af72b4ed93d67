package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C17", "exhaustiveness: every catalogue constant against the test-selected alternatives of what the handler, step or voucher generator of that stage sends; path-sensitive taint over the corruption helpers.", c17)
}

const (
	nullTest     = "NULL_TEST"
	listenerPos  = "FIDO_LISTENER_POSITIVE"
	tcom         = "core/shared/testcom."
	randBuffer   = "core/shared.NewRandomBuffer"
	getVANDV     = "dbs.(DeviceBaseDB).GetVANDV"
	confPrefix   = "core/shared.Conf_"
	testIDStates = "FDOTestState"
)

// testIDsIn: the negative test identifiers that select an alternative of a value differing from what is used otherwise.
func (c *Ctx) testIDsIn(t *Term, out map[string]bool, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "test" {
		for _, id := range strings.Split(t.Name, "|") {
			out[id] = true
		}
	}
	if t.Op == "phi" {
		plain := map[string]bool{}
		for _, x := range t.Args {
			if x.Op != "test" {
				plain[x.Key()] = true
			}
		}
		for _, x := range t.Args {
			if x.Op == "test" && len(x.Args) > 0 && plain[x.Args[0].Key()] {
				continue // the same value as without the test
			}
			c.testIDsIn(x, out, seen)
		}
		return
	}
	for _, x := range t.Args {
		c.testIDsIn(x, out, seen)
	}
}

func (c *Ctx) testIDs(ts ...*Term) map[string]bool {
	out := map[string]bool{}
	for _, t := range ts {
		c.testIDsIn(t, out, map[*Term]bool{})
	}
	return out
}

// sentBy: the identifiers that alter what a handler answers with, or what a device step sends.
func (c *Ctx) answerIDs(f *ssa.Function) map[string]bool {
	var ts []*Term
	for _, e := range c.A.effects(f, isRespWrite, nil) {
		ts = append(ts, e.Args[1])
	}
	for _, e := range c.A.effects(f, isHeaderSet, nil) {
		ts = append(ts, e.Args...)
	}
	return c.testIDs(ts...)
}

func (c *Ctx) requestIDs(f *ssa.Function) map[string]bool {
	var ts []*Term
	for _, e := range c.callsTo(f, sendPost) {
		ts = append(ts, e.Args[1:]...)
	}
	return c.testIDs(ts...)
}

// idList: the constant identifiers of a list value, in order.
func (c *Ctx) idList(v ssa.Value, env map[*ssa.Parameter]ssa.Value, d int) ([]string, bool) {
	if d > 8 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if y, ok := env[x]; ok {
			return c.idList(y, nil, d+1)
		}
	case *ssa.ChangeType:
		return c.idList(x.X, env, d+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if ar, ok := deref(g.Type()).Underlying().(*types.Slice); ok && isTestIDType(ar.Elem()) {
				l := c.P.listOf(pkgQual(g.Pkg.Pkg) + "." + g.Name())
				return unquoteAll(l), l != nil || c.P.emptyList(g)
			}
		}
	case *ssa.Const:
		return nil, x.IsNil()
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return c.idList(x.X, env, d+1)
		}
		arr, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		out := make([]string, arr.Len())
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			i, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, q := range *ia.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok {
					continue
				}
				k := constOfTerm(c.A.at(st.Val, st))
				if k == nil || i.Int64() >= int64(len(out)) {
					return nil, false
				}
				out[i.Int64()] = unquote(k.ExactString())
			}
		}
		for _, s := range out {
			if s == "" {
				return nil, false
			}
		}
		return out, true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			var out []string
			for _, y := range x.Call.Args {
				l, ok := c.idList(y, env, d+1)
				if !ok {
					return nil, false
				}
				out = append(out, l...)
			}
			return out, true
		}
		name, f := calleeName(&x.Call)
		if name == "slices.Concat" && len(x.Call.Args) == 1 {
			var out []string
			for _, y := range sliceElems(x.Call.Args[0]) {
				l, ok := c.idList(y, env, d+1)
				if !ok {
					return nil, false
				}
				out = append(out, l...)
			}
			return out, true
		}
		if name == "slices.Clone" {
			return c.idList(x.Call.Args[0], env, d+1)
		}
		if f != nil && inRepo(f) && len(f.Blocks) == 1 {
			r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
			if ok && len(r.Results) == 1 {
				ne := map[*ssa.Parameter]ssa.Value{}
				for i, p := range f.Params {
					a := x.Call.Args[i]
					if q, ok := a.(*ssa.Parameter); ok && env[q] != nil {
						a = env[q]
					}
					ne[p] = a
				}
				return c.idList(r.Results[0], ne, d+1)
			}
		}
	}
	return nil, false
}

func unquote(s string) string { return strings.Trim(s, "\"") }

func unquoteAll(l []string) []string {
	var out []string
	for _, x := range l {
		out = append(out, unquote(x))
	}
	return out
}

// emptyList: a package-level slice that is never given elements.
func (p *Prog) emptyList(g *ssa.Global) bool {
	if p.writtenElsewhere(g) {
		return false
	}
	ini := g.Pkg.Func("init")
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(g) {
				continue
			}
			sl, ok := st.Val.(*ssa.Slice)
			if !ok {
				return false
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			arr, ok := deref(al.Type()).Underlying().(*types.Array)
			return ok && arr.Len() == 0
		}
	}
	return true
}

// listGlobals: the package-level catalogues of test identifiers.
func (c *Ctx) listGlobals() map[string][]string {
	out := map[string][]string{}
	for _, ip := range c.P.Pkgs {
		sp := c.P.SSA.Package(ip.Types)
		if sp == nil {
			continue
		}
		for n, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			sl, ok := deref(g.Type()).Underlying().(*types.Slice)
			if !ok || !isTestIDType(sl.Elem()) {
				continue
			}
			k := pkgQual(ip.Types) + "." + n
			if l := c.P.listOf(k); l != nil {
				out["global:"+k] = unquoteAll(l)
			}
		}
	}
	return out
}

func isListElem(t *Term) string {
	t = strip(t)
	if (t.Op == "index" || t.Op == "elem") && len(t.Args) > 0 && t.Args[0].Op == "global" {
		return "global:" + t.Args[0].Name
	}
	return ""
}

// reaching: the identifiers that one call can be given, with the catalogue each is taken from.
func (c *Ctx) reachingIDs(t *Term, fs *FactSet, lists map[string][]string) map[string]string {
	out := map[string]string{}
	var w func(t *Term, only []string)
	w = func(t *Term, only []string) {
		for _, x := range alts(t) {
			x = strip(x)
			if x.Op == "prev" && len(x.Args) == 1 {
				x = strip(x.Args[0])
			}
			switch {
			case x.Op == "test" && len(x.Args) == 1:
				w(x.Args[0], strings.Split(x.Name, "|"))
			case x.Op == "phi":
				w(x, only)
			case x.Op == "const":
				out[unquote(x.Name)] = ""
			case isListElem(x) != "":
				l := isListElem(x)
				ids := lists[l]
				if only != nil {
					ids = only
				}
				for _, id := range ids {
					if !c.excluded(fs, x, id) {
						out[id] = l
					}
				}
			}
		}
	}
	w(t, nil)
	return out
}

// excluded: the facts rule out that x is the identifier.
func (c *Ctx) excluded(fs *FactSet, x *Term, id string) bool {
	same := func(t *Term) bool { return t != nil && stripSites(t) == stripSites(x) }
	for _, f := range fs.m {
		if f.Kind != "eq" && f.Kind != "ne" || f.B == nil {
			continue
		}
		var k *Term
		if same(f.A) {
			k = f.B
		} else if same(f.B) {
			k = f.A
		}
		if k == nil || k.Op != "const" {
			continue
		}
		if f.Kind == "eq" && unquote(k.Name) != id || f.Kind == "ne" && unquote(k.Name) == id {
			return true
		}
	}
	return false
}

// testIDParam: the index of the parameter that takes a test identifier.
func testIDParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isTestIDType(p.Type()) {
			return i
		}
	}
	return -1
}

func c17(c *Ctx) {
	a := c.A
	neg := a.negTests()
	lists := c.listGlobals()
	if len(lists) < 18 {
		c.missing("the test catalogues")
	}
	declared := 0
	for _, n := range neg {
		if n {
			declared++
		}
	}
	if declared < 60 {
		c.missing("the test identifiers")
	}
	// device and owner listeners: which identifiers each stage hands out
	stages := map[int]bool{}
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || typeBase(mu.Key.Type()) != "FdoCmd" {
			return
		}
		sl, ok := mu.Value.Type().Underlying().(*types.Slice)
		if !ok || !isTestIDType(sl.Elem()) {
			return
		}
		m := constMsg(a.at(mu.Key, in))
		ids, ok := c.idList(mu.Value, nil, 0)
		where := fmt.Sprintf("stage %d of %s", m, fnShort(f))
		c.ob("stage catalogue", where, ok, in.Pos(), "the list of test identifiers of the stage is not a fixed catalogue")
		if !ok {
			return
		}
		h := c.handler(m)
		if h == nil {
			return
		}
		stages[m] = true
		n := 0
		for i, id := range ids {
			if id == listenerPos {
				n++
				c.ob("stage ends", where+" "+id, i == len(ids)-1, in.Pos(), "the positive test completes the stage, so it must be the last of its catalogue")
			}
		}
		c.ob("stage ends", where, n == 1, in.Pos(), "the catalogue of a stage must contain the positive test once")
		real := c.answerIDs(h)
		has := map[string]bool{}
		for _, id := range ids {
			has[id] = true
			if id == listenerPos {
				continue
			}
			c.ob("listener test", where+" "+id, neg[id] && real[id], h.Pos(), "the handler of message %d sends the same answer for this identifier as without a test", m)
		}
		for _, id := range sortedKeys(real) {
			c.ob("offered", fmt.Sprintf("%s answer to %d", id, m), has[id], in.Pos(), "the handler of message %d reacts to an identifier that the catalogue of its stage does not offer", m)
		}
	})
	for _, m := range []int{30, 32, 60, 62, 64, 66, 68, 70} {
		c.ob("stage catalogue", fmt.Sprintf("stage %d", m), stages[m], token.NoPos, "no catalogue for the stage of message %d", m)
	}

	// requestor tests: what the executors run
	gens := map[string]map[string]bool{}
	both := map[string]int{}
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Signature.Results().Len() != 2 || typeBase(deref(f.Signature.Results().At(0).Type())) != "DeviceCredAndVoucher" || testIDParam(f) < 0 || !strings.HasPrefix(fnKey(f), "core/device.") {
			continue
		}
		ids := c.voucherIDs(f)
		gens[fnShort(f)] = ids
		for id := range ids {
			both[id]++
		}
	}
	if len(gens) < 2 {
		c.missing("the voucher generators")
	}
	type use struct {
		m  int
		e  *Effect
		ok bool
	}
	used := map[string][]use{} // list + "/" + id -> step calls
	voucherUse := map[string]bool{}
	stepOf := map[*ssa.Function]int{}
	sends := map[int]map[string]bool{}
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		if f := c.step(m); f != nil {
			stepOf[f] = m
			sends[m] = c.requestIDs(f)
		}
	}
	for _, f := range c.P.Funcs {
		if !strings.HasPrefix(fnKey(f), "testexec.") || f.Parent() != nil {
			continue
		}
		for _, e := range a.effects(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n, g := calleeName(ci.Common())
			_, isStep := stepOf[g]
			return isStep || n == getVANDV
		}, nil) {
			n, g := calleeName(e.Instr.(ssa.CallInstruction).Common())
			k := -1
			if g != nil {
				k = testIDParam(g)
			}
			if k < 0 || k >= len(e.Args) {
				continue
			}
			for id, l := range c.reachingIDs(e.Args[k], e.Facts, lists) {
				if n == getVANDV {
					if l != "" {
						voucherUse[l+"/"+id] = true
					}
					continue
				}
				if l == "" {
					// a constant: the catalogue it belongs to
					for ln, ids := range lists {
						for _, x := range ids {
							if x == id {
								used[ln+"/"+id] = append(used[ln+"/"+id], use{stepOf[g], e, true})
							}
						}
					}
					continue
				}
				used[l+"/"+id] = append(used[l+"/"+id], use{stepOf[g], e, true})
			}
		}
	}
	sentFor := map[int]map[string]bool{}
	n := 0
	for _, l := range sortedKeys(lists) {
		if strings.Contains(l, "LISTENER") || c.listenerList(lists[l]) {
			continue
		}
		for _, id := range lists[l] {
			us := used[l+"/"+id]
			if !neg[id] {
				continue
			}
			n++
			where := strings.TrimPrefix(l, "global:core/shared/testcom.") + " " + id
			c.ob("executed", where, len(us) > 0, token.NoPos, "no executor runs a protocol step under this identifier")
			done, judged := false, true
			via := ""
			for _, u := range us {
				if sentFor[u.m] == nil {
					sentFor[u.m] = map[string]bool{}
				}
				sentFor[u.m][id] = true
				g := u.e.Instr.(ssa.CallInstruction).Common()
				_, sf := calleeName(g)
				k := testIDParam(sf)
				switch {
				case sends[u.m][id]:
					done, via = true, "step"
				case voucherUse[l+"/"+id] && both[id] > 0:
					done, via = both[id] == len(gens), "voucher"
				}
				for i, x := range u.e.Args {
					if i != k && i > 0 && c.testIDs(x)[id] {
						done, via = true, "executor"
					}
				}
				rs, ok := c.responseCheck(sf, id)
				if rs {
					done, via = true, "response check"
				}
				judged = judged && ok
			}
			if len(us) == 0 {
				continue
			}
			c.ob("requestor test", where, done, us[0].e.Instr.Pos(), "neither the message sent, the arguments of the step, the voucher (of both generators) nor the check of the answer depends on this identifier %s", via)
			c.ob("judged", where, judged, us[0].e.Instr.Pos(), "the step's response check does not know this identifier")
		}
	}
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		for _, id := range sortedKeys(sends[m]) {
			c.ob("offered", fmt.Sprintf("%s request %d", id, m), sentFor[m][id], token.NoPos, "the step of message %d reacts to an identifier that no catalogue run by an executor offers for it", m)
		}
	}
	for _, g := range sortedKeys(gens) {
		for id := range both {
			in := false
			for l, ids := range lists {
				for _, x := range ids {
					in = in || x == id && voucherUse[l+"/"+id]
				}
			}
			c.ob("offered", id+" voucher "+g, in && gens[g][id], token.NoPos, "a voucher test that is not offered, or that only one of the generators realises")
		}
	}
	c.helpersAlter()
	c.min("listener test", 26)
	c.min("requestor test", 37)
	c.min("helper alters", 7)
}

// listenerList: a catalogue of the listener (its identifiers are handed out by a stage).
func (c *Ctx) listenerList(ids []string) bool {
	for _, id := range ids {
		if !strings.Contains(id, "LISTENER") {
			return false
		}
	}
	return true
}

// alteration: what a function alters under one identifier.
type alteration struct {
	res    bool         // its results
	params map[int]bool // what its pointer parameters refer to
}

// voucherIDs: the identifiers that alter the voucher a generator returns.
func (c *Ctx) voucherIDs(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for id, x := range c.alterations(f, 0) {
		if x.res {
			out[id] = true
		}
	}
	return out
}

func (c *Ctx) alterations(f *ssa.Function, d int) map[string]alteration {
	out := map[string]alteration{}
	if d > 5 {
		return out
	}
	ids := map[string]bool{}
	for _, s := range c.A.testGuards(f) {
		for id := range s {
			ids[id] = true
		}
	}
	// what is altered inside the entry makers and other helpers of the generator, reached with its own identifier
	helper := map[ssa.Instruction]map[string]alteration{}
	c.eachInstrOf(f, func(in ssa.Instruction) {
		ci, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		_, g := calleeName(&ci.Call)
		if g == nil || !inRepo(g) || g == f || testIDParam(g) < 0 || len(g.Blocks) == 0 {
			return
		}
		p, ok := ci.Call.Args[testIDParam(g)].(*ssa.Parameter)
		if !ok || !isTestIDType(p.Type()) {
			return
		}
		var ks []*Term
		for _, y := range ci.Call.Args {
			ks = append(ks, constOrParam(y))
		}
		helper[in] = map[string]alteration{}
		for id, x := range c.alterations(g, d+1) {
			for _, r := range resolveIDs([]string{id}, g, ks) {
				helper[in][r] = x
				ids[r] = true
			}
		}
	})
	for id := range ids {
		out[id] = c.flowsToResult(f, id, helper)
	}
	return out
}

func (c *Ctx) eachInstrOf(f *ssa.Function, do func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

// flowsToResult follows, forwards along the control flow, the data altered in the parts of f that run only under the
// identifier (and the results of helpers altered under it), to the values f returns without a failure.
func (c *Ctx) flowsToResult(f *ssa.Function, id string, helper map[ssa.Instruction]map[string]alteration) alteration {
	tg := c.A.testGuards(f)
	under := func(b *ssa.BasicBlock) bool { return len(tg[b]) > 0 && tg[b][id] }
	base := func(v ssa.Value) ssa.Value {
		for i := 0; i < 12; i++ {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			default:
				return v
			}
		}
		return v
	}
	state := map[*ssa.BasicBlock]map[ssa.Value]bool{f.Blocks[0]: {}}
	has := func(t map[ssa.Value]bool, v ssa.Value) bool { return v != nil && (t[v] || t[base(v)]) }
	ei := errResult(f)
	found := alteration{params: map[int]bool{}}
	step := func(b *ssa.BasicBlock, t map[ssa.Value]bool) {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, e := range x.Edges {
					p := b.Preds[i]
					if s := state[p]; s != nil && has(s, e) {
						t[x] = true
					}
					if et := c.A.edgeTests(p, b); et[id] && !under(b) {
						// a value chosen under the identifier that differs from the one used without it
						for j, o := range x.Edges {
							if j != i && o != e && !c.A.edgeTests(b.Preds[j], b)[id] {
								t[x] = true
							}
						}
					}
				}
			case *ssa.Store:
				y := base(x.Addr)
				same := false
				if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL && stripSites(c.A.at(u.X, x)) == stripSites(c.A.at(x.Addr, x)) {
					same = true
				}
				if under(b) && !same || has(t, x.Val) {
					t[y] = true
				} else if y == x.Addr {
					delete(t, y)
				}
			case *ssa.Call:
				if h, ok := helper[in][id]; ok {
					if h.res {
						t[x] = true
					}
					for i := range h.params {
						if i < len(x.Call.Args) {
							t[base(x.Call.Args[i])] = true
						}
					}
				}
				for _, y := range x.Call.Args {
					if has(t, y) {
						t[x] = true
						for _, z := range x.Call.Args {
							if _, isPtr := z.Type().Underlying().(*types.Pointer); isPtr && z != y {
								t[base(z)] = true
							}
						}
					}
				}
			case *ssa.Return:
				if ei > 0 && errorExit(b) && isNilConst(x.Results[0]) {
					continue
				}
				for i, r := range x.Results {
					if i != ei && has(t, r) {
						found.res = true
					}
				}
				for i, p := range f.Params {
					if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr && t[p] {
						found.params[i] = true
					}
				}
			case ssa.Value:
				for _, op := range in.Operands(nil) {
					if *op != nil && has(t, *op) {
						t[x] = true
					}
				}
			}
		}
	}
	for n := 0; n < 40; n++ {
		ch := false
		for _, b := range rpo(f) {
			in := map[ssa.Value]bool{}
			for _, p := range b.Preds {
				for v := range state[p] {
					in[v] = true
				}
			}
			step(b, in)
			if len(in) != len(state[b]) || state[b] == nil {
				state[b] = in
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return found
}

// responseCheck: does the step examine the answer specially for this identifier (special), and does its response
// check know the identifier at all (known)?
func (c *Ctx) responseCheck(step *ssa.Function, id string) (special, known bool) {
	a := c.A
	seen := map[*ssa.Function]bool{}
	var w func(f *ssa.Function, d int)
	w = func(f *ssa.Function, d int) {
		if seen[f] || d > 3 {
			return
		}
		seen[f] = true
		isCheck := typeBase(lastResult(f)) == testIDStates
		tg := a.testGuards(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n, g := calleeName(ci.Common())
				if isCheck {
					if tg[b] != nil && tg[b][id] && len(tg[b]) == 1 {
						known = true
						if decodes(n) {
							special = true
						}
					}
					for _, x := range ci.Common().Args {
						if l, ok := c.idList(x, nil, 0); ok {
							for _, y := range l {
								known = known || y == id
							}
						}
					}
				}
				if g != nil && inRepo(g) && typeBase(lastResult(g)) == testIDStates {
					w(g, d+1)
				}
			}
		}
	}
	w(step, 0)
	return
}

func decodes(n string) bool {
	return strings.HasSuffix(n, ".Unmarshal") || strings.HasSuffix(n, ".TryCborUnmarshal")
}

func lastResult(f *ssa.Function) types.Type {
	r := f.Signature.Results()
	if r.Len() == 0 {
		return types.Typ[types.Int]
	}
	return deref(r.At(r.Len() - 1).Type())
}

// helpersAlter: no corruption helper may return what it was given: on every feasible path the result carries freshly
// randomised content.
func (c *Ctx) helpersAlter() {
	for _, f := range c.P.Funcs {
		if !strings.HasPrefix(fnKey(f), confPrefix) || f.Parent() != nil || f.Signature.Results().Len() == 0 || f.Signature.Params().Len() == 0 {
			continue
		}
		rt := f.Signature.Results().At(0).Type()
		if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			continue
		}
		if f.Signature.Params().Len() == 1 && types.Identical(f.Params[0].Type(), rt) && isScalar(rt) {
			c.exceptHelper(f)
			continue
		}
		paths, bad := c.unaltered(f)
		c.ob("helper alters", fnShort(f), paths > 0 && len(bad) == 0, f.Pos(), "%d paths; a path returns data without fresh random content (%s)", paths, strings.Join(bad, "; "))
	}
}

func isScalar(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// exceptHelper: a function choosing a value other than its argument.
func (c *Ctx) exceptHelper(f *ssa.Function) {
	p := paramOfTerm(f, 0)
	sum := c.A.summary(f, 0, "any")
	if sum != nil {
		for _, fc := range sum.m {
			if fc.Kind == "ne" && fc.B != nil && (fc.A.Key() == p.Key() || fc.B.Key() == p.Key()) {
				c.ob("helper alters", fnShort(f), true, f.Pos(), "the result differs from the argument")
				return
			}
		}
	}
	n := 0
	for _, v := range c.constsOf(f.Params[0].Type()) {
		k := mk("const", v, f.Params[0].Type())
		r := c.A.spec(f, []*Term{k}).results(f, 0)
		if r == nil {
			continue
		}
		n++
		for _, x := range alts(r) {
			kv := constOfTerm(x)
			c.ob("helper alters", fnShort(f)+"("+v+")", kv != nil && kv.ExactString() != v, f.Pos(), "the value chosen instead of %s is %s", v, trunc(x.String()))
		}
	}
	c.ob("helper alters", fnShort(f), n > 0, f.Pos(), "the result is not compared with the value it must differ from")
}

// constsOf: the declared constants of an enumeration type.
func (c *Ctx) constsOf(t types.Type) []string {
	set := map[string]bool{}
	for _, ip := range c.P.Pkgs {
		sc := ip.Types.Scope()
		for _, n := range sc.Names() {
			if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) {
				set[k.Val().ExactString()] = true
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func freshSource(n string) bool {
	switch n {
	case randBuffer, "core/shared.NewRandomInt", "core/shared.NewFdoNonce", "core/shared.NewFdoGuid":
		return true
	}
	return strings.HasPrefix(n, confPrefix) || strings.HasPrefix(n, "github.com/drhodes/golorem.")
}

// unaltered enumerates the acyclic paths of f and follows randomised data along each: values, locals and the memory
// of local variables. Conditions on one value against constants are kept consistent (a value read from a constant
// list equals one of its elements). Paths that return a failure are left out. It returns the number of feasible
// paths and a description of those whose result carries nothing random.
func (c *Ctx) unaltered(f *ssa.Function) (int, []string) {
	type st struct {
		taint map[ssa.Value]bool
		eq    map[ssa.Value]string
		ne    map[ssa.Value]map[string]bool
		errs  map[ssa.Value]bool // error values known to be non-nil
		visit map[*ssa.BasicBlock]int
		conds []string
	}
	n := 0
	var bad []string
	stop := false
	base := func(v ssa.Value) ssa.Value {
		for i := 0; i < 10; i++ {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				// what the signature does not cover is no corruption of it
				if typeBase(deref(x.Type())) == "UnprotectedHeader" && typeBase(deref(x.X.Type())) == "CoseSignature" {
					return nil
				}
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return v
			}
		}
		return v
	}
	ei := errResult(f)
	var run func(b, from *ssa.BasicBlock, s *st)
	run = func(b, from *ssa.BasicBlock, s *st) {
		if stop || s.visit[b] >= 2 || n > 4000 {
			stop = stop || n > 4000
			return
		}
		s.visit[b]++
		defer func() { s.visit[b]-- }()
		t := map[ssa.Value]bool{}
		for k := range s.taint {
			t[k] = true
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == from {
						t[x] = t[x.Edges[i]]
						if v, ok := s.eq[x.Edges[i]]; ok {
							s.eq[x] = v
						}
					}
				}
			case *ssa.Call:
				name, _ := calleeName(&x.Call)
				if freshSource(name) {
					t[x] = true
				}
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
					if t[x.Call.Args[1]] {
						if y := base(x.Call.Args[0]); y != nil {
							t[y] = true
						}
					}
					continue
				}
				for i, y := range x.Call.Args {
					if t[y] || t[base(y)] {
						t[x] = true
						// results written through pointer arguments
						for j, z := range x.Call.Args {
							if _, isPtr := z.Type().Underlying().(*types.Pointer); j != i && isPtr {
								if w := base(z); w != nil {
									t[w] = true
								}
							}
						}
					}
				}
			case *ssa.Store:
				if y := base(x.Addr); y != nil {
					if t[x.Val] || t[base(x.Val)] {
						t[y] = true
					} else if y == x.Addr {
						delete(t, y)
					}
				}
			case *ssa.MapUpdate:
				if t[x.Value] || t[x.Key] {
					t[x.Map] = true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if y := base(x.X); y != nil && t[y] {
						t[x] = true
					}
					if ia, ok := x.X.(*ssa.IndexAddr); ok && t[ia.Index] {
						t[x] = true
					}
				} else if t[x.X] {
					t[x] = true
				}
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Extract, *ssa.Field, *ssa.Slice, *ssa.Index, *ssa.TypeAssert:
				for _, op := range in.Operands(nil) {
					if *op != nil && (t[*op] || t[base(*op)]) {
						t[in.(ssa.Value)] = true
					}
				}
			case *ssa.Return:
				if ei >= 0 {
					ev := x.Results[ei]
					if s.errs[ev] {
						return
					}
					if k, ok := ev.(*ssa.Const); !ok || !k.IsNil() {
						if call, ok := ev.(*ssa.Call); ok {
							if nm, _ := calleeName(&call.Call); nm == "fmt.Errorf" || nm == "errors.New" {
								return
							}
						}
					}
				}
				n++
				r := x.Results[0]
				if !t[r] && !t[base(r)] {
					bad = append(bad, strings.Join(s.conds, ","))
				}
				return
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		iff, isIf := last.(*ssa.If)
		for i, sc := range b.Succs {
			ns := &st{taint: t, eq: map[ssa.Value]string{}, ne: map[ssa.Value]map[string]bool{}, errs: map[ssa.Value]bool{}, visit: s.visit, conds: s.conds}
			for k, v := range s.eq {
				ns.eq[k] = v
			}
			for k, v := range s.ne {
				m := map[string]bool{}
				for kk := range v {
					m[kk] = true
				}
				ns.ne[k] = m
			}
			for k := range s.errs {
				ns.errs[k] = true
			}
			if isIf {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					eq := (bo.Op == token.EQL) == (i == 0)
					x, k := bo.X, bo.Y
					if _, ok := x.(*ssa.Const); ok {
						x, k = k, x
					}
					if kc, ok := k.(*ssa.Const); ok {
						if kc.IsNil() && isErrorType(x.Type()) {
							ns.errs[x] = !eq
						} else if kc.Value != nil {
							kv := kc.Value.ExactString()
							if old, ok := ns.eq[x]; ok && (old == kv) != eq {
								continue
							}
							if eq {
								if ns.ne[x][kv] {
									continue
								}
								ns.eq[x] = kv
							} else {
								if ns.ne[x] == nil {
									ns.ne[x] = map[string]bool{}
								}
								ns.ne[x][kv] = true
							}
							if dom := c.listDomain(x); dom != nil {
								left := 0
								for _, d := range dom {
									if v, ok := ns.eq[x]; ok && v != d || ns.ne[x][d] {
										continue
									}
									left++
								}
								if left == 0 {
									continue
								}
							}
							if eq {
								ns.conds = append(append([]string(nil), s.conds...), kv)
							}
						}
					}
				}
			}
			run(sc, b, ns)
		}
	}
	run(f.Blocks[0], nil, &st{taint: map[ssa.Value]bool{}, eq: map[ssa.Value]string{}, ne: map[ssa.Value]map[string]bool{}, errs: map[ssa.Value]bool{}, visit: map[*ssa.BasicBlock]int{}})
	if stop {
		return 0, []string{"too many paths"}
	}
	return n, bad
}

// listDomain: the elements a value can have that is read from a constant package-level list.
func (c *Ctx) listDomain(v ssa.Value) []string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	l, ok := ia.X.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := l.X.(*ssa.Global)
	if !ok {
		return nil
	}
	return c.P.listOf(pkgQual(g.Pkg.Pkg) + "." + g.Name())
}
