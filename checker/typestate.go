package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive typestate analysis (in the style of ESP): along every control-flow path the analysis carries a state of a
// small automaton plus what the path's branch conditions say about nil-ness, truth and equality with constants of SSA
// values. Calls into the module are summarised per entry state as (exit state, result classes) pairs.

const (
	clUnknown int8 = 0
	clNil     int8 = 1 // nil or false
	clNon     int8 = 2 // non-nil or true
)

type tsOutcome struct {
	st   string
	res  map[int]int8
	viol string
}

type tsRule struct {
	name string
	// isEvent: may this instruction change the state? (used to prune the call graph)
	isEvent func(in ssa.Instruction) bool
	// event: outcomes of the instruction in the given state; nil if it is not an event.
	event func(in ssa.Instruction, st string) []tsOutcome
	// opaque: callee bodies not to be entered (they are events themselves)
	opaque func(f *ssa.Function) bool
	// barrier: entering this block ends the path without an exit (used for scoping), may be nil
	onExit func(f *ssa.Function, ret ssa.Instruction, st string, res []int8)
}

type tsExit struct {
	st  string
	res []int8
	pos ssa.Instruction
}

type tsViol struct {
	pos token.Pos
	fn  *ssa.Function
	msg string
	via string
}

type tsRun struct {
	a     *Analyzer
	r     *tsRule
	rel   map[*ssa.Function]bool
	memo  map[string][]tsExit
	busy  map[string]bool
	viols map[string]tsViol
	steps int
	fns   map[*ssa.Function]bool
	info  map[*ssa.Function]*tsInfo
	stack []ssa.Instruction
}

type envKey struct {
	v ssa.Value
	k string
}

type tsInfo struct {
	watch map[ssa.Value]bool
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (a *Analyzer) newTS(r *tsRule) *tsRun {
	t := &tsRun{a: a, r: r, memo: map[string][]tsExit{}, busy: map[string]bool{}, viols: map[string]tsViol{}, fns: map[*ssa.Function]bool{}, info: map[*ssa.Function]*tsInfo{}}
	t.rel = map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r.isEvent(in) {
					t.rel[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range a.p.Funcs {
			if t.rel[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := tsCallee(ci); g != nil && t.rel[g] && (r.opaque == nil || !r.opaque(g)) {
							if _, isGo := in.(*ssa.Go); !isGo {
								t.rel[f] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	return t
}

func tsCallee(ci ssa.CallInstruction) *ssa.Function {
	g := ci.Common().StaticCallee()
	if g == nil {
		return nil
	}
	return unwrapBound(g)
}

func (t *tsRun) violate(f *ssa.Function, in ssa.Instruction, msg string) {
	p := in.Pos()
	if !p.IsValid() {
		// nearest positioned instruction before
		b := in.Block()
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				p = b.Instrs[i].Pos()
				break
			}
		}
	}
	k := fmt.Sprintf("%d|%s", p, msg)
	if _, ok := t.viols[k]; ok {
		return
	}
	var via []string
	for _, ci := range t.stack {
		via = append(via, fmt.Sprintf("%s (%s)", fnShort(ci.Parent()), t.a.p.pos(ci.Pos())))
	}
	t.viols[k] = tsViol{p, f, msg, strings.Join(via, " > ")}
}

func (t *tsRun) violations() []tsViol {
	var out []tsViol
	for _, k := range sortedKeys(t.viols) {
		out = append(out, t.viols[k])
	}
	return out
}

// condKeys: decompose a boolean SSA value into (key, polarity).
func condKey(v ssa.Value) (envKey, bool, bool) {
	pol := true
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				pol = !pol
				v = x.X
				continue
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				if x.Op == token.NEQ {
					pol = !pol
				}
				l, r := x.X, x.Y
				if _, ok := l.(*ssa.Const); ok {
					l, r = r, l
				}
				if c, ok := r.(*ssa.Const); ok {
					if c.IsNil() {
						return envKey{stripIface(l), "nil"}, pol, true
					}
					if c.Value == nil {
						return envKey{v, "true"}, pol == (x.Op == token.EQL), true
					}
					if isBool(c.Type()) {
						if constant.BoolVal(c.Value) == false {
							pol = !pol
						}
						v = l
						continue
					}
					return envKey{l, "=" + c.Value.ExactString()}, pol, true
				}
				// restore polarity for the generic key
				if x.Op == token.NEQ {
					pol = !pol
				}
			}
		}
		return envKey{v, "true"}, pol, true
	}
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			// a result slot of a function with deferred calls: stored and loaded again around them
			w := slotValue(x)
			if w == nil {
				return v
			}
			v = w
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// slotValue: the value a load from a local reads when it was stored earlier in the same block; nil otherwise.
func slotValue(x *ssa.UnOp) ssa.Value {
	al, ok := x.X.(*ssa.Alloc)
	if !ok || x.Op != token.MUL || al.Heap {
		return nil
	}
	b := x.Block()
	var last ssa.Value
	for _, in := range b.Instrs {
		if in == ssa.Instruction(x) {
			return last
		}
		if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			last = s.Val
		}
	}
	return nil
}

func (t *tsRun) infoOf(f *ssa.Function) *tsInfo {
	if i := t.info[f]; i != nil {
		return i
	}
	in := &tsInfo{watch: map[ssa.Value]bool{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	t.info[f] = in
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	add := func(b *ssa.BasicBlock, v ssa.Value) {
		v = stripIface(v)
		if use[b] == nil {
			use[b] = map[ssa.Value]bool{}
		}
		use[b][v] = true
		in.watch[v] = true
	}
	var addCond func(b *ssa.BasicBlock, v ssa.Value, d int)
	addCond = func(b *ssa.BasicBlock, v ssa.Value, d int) {
		k, _, _ := condKey(v)
		add(b, k.v)
		add(b, v)
	}
	for _, b := range f.Blocks {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			addCond(b, x.Cond, 0)
		case *ssa.Return:
			for _, r := range x.Results {
				add(b, r)
				addCond(b, r, 0)
			}
		}
	}
	// phis feeding watched values
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if !in.watch[phi] {
					continue
				}
				for k, e := range phi.Edges {
					p := b.Preds[k]
					e = stripIface(e)
					if _, isC := e.(*ssa.Const); isC {
						continue
					}
					if !use[p][e] {
						add(p, e)
						if isBool(e.Type()) {
							addCond(p, e, 0)
						}
						ch = true
					}
				}
			}
		}
	}
	// liveness of watched values: value may be used in a block reachable from b (backward propagation, kills ignored)
	for _, b := range f.Blocks {
		in.live[b] = map[ssa.Value]bool{}
		for v := range use[b] {
			in.live[b][v] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, s := range b.Succs {
				for v := range in.live[s] {
					if !in.live[b][v] {
						in.live[b][v] = true
						ch = true
					}
				}
			}
		}
	}
	return in
}

type tsState struct {
	st     string
	env    map[envKey]bool
	defers []*ssa.Defer
}

func (s tsState) key() string {
	var ks []string
	for k, v := range s.env {
		ks = append(ks, fmt.Sprintf("%p%s=%v", k.v, k.k, v))
	}
	sort.Strings(ks)
	var ds []string
	for _, d := range s.defers {
		ds = append(ds, fmt.Sprintf("%p", d))
	}
	return s.st + "|" + strings.Join(ks, ",") + "|" + strings.Join(ds, ",")
}

func (s tsState) with(k envKey, v bool) tsState {
	n := tsState{st: s.st, env: map[envKey]bool{}, defers: s.defers}
	for a, b := range s.env {
		n.env[a] = b
	}
	n.env[k] = v
	return n
}

// classify: nil-ness / truth of a value on this path.
func (t *tsRun) classify(s tsState, v ssa.Value) int8 {
	v = stripIface(v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return clNil
		}
		if isBool(x.Type()) {
			if constant.BoolVal(x.Value) {
				return clNon
			}
			return clNil
		}
		return clUnknown
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function, *ssa.Global:
		return clNon
	case *ssa.Call:
		n, _ := calleeName(x.Common())
		if definitelyNonNil(n) {
			return clNon
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && t.a.p.errorGlobal(pkgQual(g.Pkg.Pkg)+"."+g.Name()) {
			return clNon
		}
	}
	if b, ok := s.env[envKey{v, "nil"}]; ok {
		if b {
			return clNil
		}
		return clNon
	}
	if isBool(v.Type()) {
		if val, ok := t.evalCond(s, v); ok {
			if val {
				return clNon
			}
			return clNil
		}
	}
	return clUnknown
}

func (t *tsRun) evalCond(s tsState, v ssa.Value) (bool, bool) {
	if c, ok := v.(*ssa.Const); ok && isBool(c.Type()) {
		return constant.BoolVal(c.Value), true
	}
	if b, ok := s.env[envKey{v, "true"}]; ok {
		return b, true
	}
	k, pol, _ := condKey(v)
	if b, ok := s.env[k]; ok {
		return b == pol, true
	}
	if c, ok := k.v.(*ssa.Const); ok {
		switch {
		case k.k == "nil":
			return c.IsNil() == pol, true
		case k.k == "true" && isBool(c.Type()):
			return constant.BoolVal(c.Value) == pol, true
		case strings.HasPrefix(k.k, "=") && c.Value != nil:
			return (k.k[1:] == c.Value.ExactString()) == pol, true
		}
	}
	if k.k == "nil" {
		switch t.classify(s, k.v) {
		case clNil:
			return pol, true
		case clNon:
			return !pol, true
		}
	}
	if strings.HasPrefix(k.k, "=") {
		for e, b := range s.env {
			if e.v == k.v && b && strings.HasPrefix(e.k, "=") && e.k != k.k {
				return !pol, true
			}
		}
	}
	return false, false
}

func fatalCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	n, _ := calleeName(c.Common())
	switch n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

func setClass(s tsState, v ssa.Value, c int8) tsState {
	if c == clUnknown {
		return s
	}
	if isBool(v.Type()) {
		return s.with(envKey{v, "true"}, c == clNon)
	}
	return s.with(envKey{stripIface(v), "nil"}, c == clNil)
}

// applyRes records classes of a call's results on its Extracts (or on the call itself).
func (t *tsRun) applyRes(s tsState, c *ssa.Call, res map[int]int8) tsState {
	if len(res) == 0 {
		return s
	}
	if c.Common().Signature().Results().Len() == 1 {
		return setClass(s, c, res[0])
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			s = setClass(s, e, res[e.Index])
		}
	}
	return s
}

const tsCap = 60000

// resultsWith: the other results of the same call that are not nil when the error result e is nil.
func (t *tsRun) resultsWith(e *ssa.Extract) []ssa.Value {
	call, ok := e.Tuple.(*ssa.Call)
	if !ok || !isErrorType(e.Type()) {
		return nil
	}
	g := call.Common().StaticCallee()
	var out []ssa.Value
	for _, r := range *call.Referrers() {
		if o, ok := r.(*ssa.Extract); ok && o != e && isNillable(o.Type()) && t.a.nonNilOnSuccess(g, o.Index, e.Index, 0) {
			out = append(out, o)
		}
	}
	return out
}

// nonNilOnSuccess: result i of g is not nil whenever its error result k is nil.
func (a *Analyzer) nonNilOnSuccess(g *ssa.Function, i, k, depth int) bool {
	if g == nil || len(g.Blocks) == 0 || depth > 6 {
		return false
	}
	ff := a.funcFacts(g)
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || ff.in[b] == nil {
			continue
		}
		fs := a.outFacts(ff, b)
		errT := a.at(r.Results[k], r)
		if _, feasible := a.nilFacts(ff, r.Results[k], true, r, 0); !feasible || fs.m[mkFact("nonnil", errT, nil).Key()] != nil {
			continue
		}
		if fs.m[mkFact("nonnil", a.at(r.Results[i], r), nil).Key()] != nil {
			continue
		}
		switch v := stripIface(r.Results[i]).(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure:
			continue
		case *ssa.Extract:
			call, ok := v.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			// the inner call's own error is nil here
			held := false
			for _, rr := range *call.Referrers() {
				e, ok := rr.(*ssa.Extract)
				if !ok || !isErrorType(e.Type()) {
					continue
				}
				same := stripIface(r.Results[k]) == ssa.Value(e)
				if (same || fs.m[mkFact("nil", a.at(e, r), nil).Key()] != nil) && a.nonNilOnSuccess(call.Common().StaticCallee(), v.Index, e.Index, depth+1) {
					held = true
				}
			}
			if !held {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// exits: the possible ways function f ends when entered in state st.
func (t *tsRun) exits(f *ssa.Function, st string) []tsExit {
	mk := fnKey(f) + "|" + st
	if r, ok := t.memo[mk]; ok {
		return r
	}
	if t.busy[mk] || len(f.Blocks) == 0 {
		return []tsExit{{st: st}}
	}
	t.busy[mk] = true
	defer delete(t.busy, mk)
	t.fns[f] = true
	info := t.infoOf(f)
	type item struct {
		b    *ssa.BasicBlock
		pred *ssa.BasicBlock
		s    tsState
	}
	seen := map[string]bool{}
	var out []tsExit
	outSeen := map[string]bool{}
	work := []item{{f.Blocks[0], nil, tsState{st: st, env: map[envKey]bool{}}}}
	n := 0
	push := func(from, to *ssa.BasicBlock, s tsState) {
		// phis
		if from != nil {
			upd := map[*ssa.Phi]map[string]bool{}
			idx := -1
			for i, p := range to.Preds {
				if p == from {
					idx = i
				}
			}
			ns := tsState{st: s.st, env: map[envKey]bool{}, defers: s.defers}
			for k, v := range s.env {
				ns.env[k] = v
			}
			for _, in := range to.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				m := map[string]bool{}
				e := stripIface(phi.Edges[idx])
				switch c := t.classify(s, e); c {
				case clNil, clNon:
					if isBool(phi.Type()) {
						m["true"] = c == clNon
					} else {
						m["nil"] = c == clNil
					}
				}
				if cst, ok := e.(*ssa.Const); ok && cst.Value != nil && !isBool(cst.Type()) {
					m["="+cst.Value.ExactString()] = true
				}
				for k, v := range s.env {
					if k.v == e {
						m[k.k] = v
					}
				}
				upd[phi] = m
			}
			for phi, m := range upd {
				for k := range ns.env {
					if k.v == ssa.Value(phi) {
						delete(ns.env, k)
					}
				}
				for k, v := range m {
					ns.env[envKey{phi, k}] = v
				}
			}
			s = ns
		}
		for k := range s.env {
			if !info.live[to][k.v] {
				delete(s.env, k)
			}
		}
		key := fmt.Sprintf("%d|%s", to.Index, s.key())
		if seen[key] {
			return
		}
		seen[key] = true
		work = append(work, item{to, from, s})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		t.steps++
		if n > tsCap {
			t.violate(f, f.Blocks[0].Instrs[0], "too many paths to decide")
			break
		}
		cur := []tsState{it.s}
		dead := false
		for _, in := range it.b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if fatalCall(in) {
				dead = true
				break
			}
			// redefinition clears what was known of the value
			for _, v := range defines(in) {
				if !info.watch[v] {
					continue
				}
				for i := range cur {
					for k := range cur[i].env {
						if k.v == v {
							n := tsState{st: cur[i].st, env: map[envKey]bool{}, defers: cur[i].defers}
							for a, b := range cur[i].env {
								if a.v != v {
									n.env[a] = b
								}
							}
							cur[i] = n
							break
						}
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Defer:
				for i := range cur {
					dup := false
					for _, d := range cur[i].defers {
						dup = dup || d == x
					}
					if !dup {
						cur[i].defers = append(append([]*ssa.Defer{}, cur[i].defers...), x)
					}
				}
				continue
			case *ssa.RunDefers:
				for i := range cur {
					ds := cur[i].defers
					cur[i].defers = nil
					states := []tsState{cur[i]}
					for j := len(ds) - 1; j >= 0; j-- {
						var nx []tsState
						for _, s := range states {
							nx = append(nx, t.instr(f, ds[j], s)...)
						}
						states = nx
					}
					if len(states) > 0 {
						cur[i] = states[0]
						cur = append(cur, states[1:]...)
					}
				}
				continue
			case *ssa.Go:
				if t.r.isEvent(x) {
					var nx []tsState
					for _, s := range cur {
						nx = append(nx, t.instr(f, in, s)...)
					}
					cur = nx
				}
				continue
			case *ssa.Return:
				for _, s := range cur {
					res := make([]int8, len(x.Results))
					for k, v := range x.Results {
						res[k] = t.classify(s, v)
					}
					e := tsExit{st: s.st, res: res, pos: x}
					k := fmt.Sprint(e.st, e.res)
					if t.r.onExit != nil {
						t.r.onExit(f, x, s.st, res)
					}
					if !outSeen[k] {
						outSeen[k] = true
						out = append(out, e)
					}
				}
				dead = true
			case *ssa.Panic:
				dead = true
			case *ssa.If:
				for _, s := range cur {
					val, known := t.evalCond(s, x.Cond)
					for k, succ := range it.b.Succs {
						want := k == 0
						if known && val != want {
							continue
						}
						ns := s
						if !known {
							ck, pol, _ := condKey(x.Cond)
							ns = s.with(ck, want == pol)
							if _, isCall := x.Cond.(*ssa.Call); isCall || info.watch[x.Cond] {
								ns = ns.with(envKey{x.Cond, "true"}, want)
							}
							if e, ok := ck.v.(*ssa.Extract); ok && ck.k == "nil" && (want == pol) {
								for _, o := range t.resultsWith(e) {
									if info.watch[o] {
										ns = ns.with(envKey{o, "nil"}, false)
									}
								}
							}
						} else {
							ns = tsState{st: s.st, env: map[envKey]bool{}, defers: s.defers}
							for a, b := range s.env {
								ns.env[a] = b
							}
						}
						push(it.b, succ, ns)
					}
				}
				dead = true
			case *ssa.Jump:
				for _, s := range cur {
					ns := tsState{st: s.st, env: map[envKey]bool{}, defers: s.defers}
					for a, b := range s.env {
						ns.env[a] = b
					}
					push(it.b, it.b.Succs[0], ns)
				}
				dead = true
			default:
				var nx []tsState
				for _, s := range cur {
					nx = append(nx, t.instr(f, in, s)...)
				}
				cur = nx
			}
			if dead {
				break
			}
		}
	}
	t.memo[mk] = out
	return out
}

// instr: effect of one instruction on a path state.
func (t *tsRun) instr(f *ssa.Function, in ssa.Instruction, s tsState) []tsState {
	if outs := t.r.event(in, s.st); outs != nil {
		var nx []tsState
		for _, o := range outs {
			if o.viol != "" {
				t.violate(f, in, o.viol)
			}
			n := s
			n.st = o.st
			if c, ok := in.(*ssa.Call); ok {
				n = t.applyRes(n, c, o.res)
			}
			nx = append(nx, n)
		}
		return nx
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return []tsState{s}
	}
	g := tsCallee(ci)
	if _, isGo := in.(*ssa.Go); isGo || g == nil || !t.rel[g] || !inRepo(g) || t.r.opaque != nil && t.r.opaque(g) {
		return []tsState{s}
	}
	var nx []tsState
	seen := map[string]bool{}
	t.stack = append(t.stack, in)
	exits := t.exits(g, s.st)
	t.stack = t.stack[:len(t.stack)-1]
	for _, e := range exits {
		n := s
		n.st = e.st
		if c, ok := in.(*ssa.Call); ok && e.res != nil {
			m := map[int]int8{}
			for i, r := range e.res {
				m[i] = r
			}
			n = t.applyRes(n, c, m)
		}
		k := n.key()
		if !seen[k] {
			seen[k] = true
			nx = append(nx, n)
		}
	}
	return nx
}

// defines: the values an instruction gives a new value to; a call also defines the parts taken from its results.
func defines(in ssa.Instruction) []ssa.Value {
	v, ok := in.(ssa.Value)
	if !ok {
		return nil
	}
	switch x := in.(type) {
	case *ssa.Extract:
		return nil
	case *ssa.Call:
		out := []ssa.Value{x}
		for _, r := range *x.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				out = append(out, e)
			}
		}
		return out
	}
	if t, ok := v.Type().(*types.Tuple); ok && t.Len() > 0 {
		out := []ssa.Value{v}
		for _, r := range *v.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				out = append(out, e)
			}
		}
		return out
	}
	return []ssa.Value{v}
}

func isErrorType(t types.Type) bool { return t != nil && t.String() == "error" }
