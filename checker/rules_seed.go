package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C38", "typestate and must-fact analysis of the seeding functions: order of the credential writes and the marker write, coverage of every batch and every element, and what the generators send.", c38)
}

const (
	cfgSave  = "dbs.(ConfigDB).Save"
	cfgGet   = "dbs.(ConfigDB).Get"
	credSave = "dbs.(DeviceBaseDB).Save"
	newCred  = "core/shared.NewWawDeviceCredential"
)

func isRecv(t *Term) bool {
	return t.Op == "un" && strings.HasPrefix(t.Name, "<-") || strings.HasPrefix(t.Op, "recv")
}

func c38(c *Ctx) {
	a := c.A
	markers := map[*ssa.Function]bool{}
	for _, ci := range c.allCallSites(cfgSave) {
		markers[ci.Parent()] = true
	}
	run := a.newTS(&tsRule{
		name:    "C38",
		isEvent: func(in ssa.Instruction) bool { return calleeIs(in, cfgSave, credSave) },
		opaque:  func(f *ssa.Function) bool { return fnKey(f) == cfgSave || fnKey(f) == credSave },
		event: func(in ssa.Instruction, st string) []tsOutcome {
			_, plain := in.(*ssa.Call)
			switch {
			case calleeIs(in, credSave):
				switch {
				case !plain:
					return []tsOutcome{{st: "F", viol: "a credential is stored by go or defer"}}
				case st == "D":
					return []tsOutcome{{st: st, viol: "a credential is stored after the marker"}}
				}
				return []tsOutcome{{st: st, res: map[int]int8{0: clNil}}, {st: "F", res: map[int]int8{0: clNon}}}
			case calleeIs(in, cfgSave):
				v := ""
				if st == "F" {
					v = "the marker is stored although storing a credential failed"
				} else if !plain {
					v = "the marker is stored by go or defer"
				}
				return []tsOutcome{{st: "D", res: map[int]int8{0: clNil}, viol: v}, {st: "F", res: map[int]int8{0: clNon}, viol: v}}
			}
			return nil
		},
	})
	if len(markers) == 0 {
		c.missing("a function that stores the main configuration")
	}
	for f := range markers {
		// the seeding entry: the outermost function that both stores credentials and the marker
		for {
			st := a.effects(f, func(in ssa.Instruction) bool { return calleeIs(in, credSave) }, nil)
			up := c.callersOf(f)
			if len(st) > 0 || len(up) != 1 {
				break
			}
			f = up[0]
		}
		c.seeding(f, run)
	}
	for _, v := range run.violations() {
		c.ob("marker after every credential", fnKey(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
	c.min("marker after every credential", 5)
	c.min("generators", 4)
	c.assume("a committed transaction survives a crash; C25 decides that Save commits before it reports success")
}

func (c *Ctx) callersOf(f *ssa.Function) []*ssa.Function {
	m := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, ci := range c.allCallSites(fnKey(f)) {
		if !m[ci.Parent()] {
			m[ci.Parent()] = true
			out = append(out, ci.Parent())
		}
	}
	return out
}

func (c *Ctx) seeding(f *ssa.Function, run *tsRun) {
	a := c.A
	rule := "marker after every credential"
	where := fnKey(f)
	k := errResult(f)
	if k < 0 {
		c.ob(rule, where, false, f.Pos(), "the function has no error result")
		return
	}
	n := 0
	for _, e := range run.exits(f, "0") {
		n++
		if (e.res == nil || e.res[k] != clNon) && e.st != "D" {
			run.violate(f, e.pos, "success is returned without a stored marker")
		}
	}
	c.ob(rule, where, n > 0, f.Pos(), "%d exit states", n)

	// the received batches
	loops := loopsOf(f)
	var recvLoop *loopInfo
	var marks []*Effect
	isMark := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && typeBase(mu.Map.Type()) == "FdoSeedIDs"
	}
	marks = a.effects(f, isMark, nil)
	if len(marks) == 0 {
		c.missing("the marker's list of identifiers in " + where)
	}
	for _, e := range marks {
		mu := e.Instr.(*ssa.MapUpdate)
		val := e.Translate(a.at(mu.Value, mu))
		key := e.Translate(a.at(mu.Key, mu))
		var batch *Term
		ps := flatConcat(a, val, 0)
		if len(ps) > 0 {
			last := strip(ps[len(ps)-1])
			if last.Op == "field" && strings.HasSuffix(last.Name, "Guids") && len(last.Args) == 1 {
				batch = last.Args[0]
			}
		}
		if batch == nil || !isRecv(strip(batch)) {
			c.ob(rule, where+": identifiers recorded", false, mu.Pos(), "recorded identifiers are %s, expected those of a received batch", trunc(val.String()))
			continue
		}
		c.ob(rule, where+": identifiers under the batch's algorithm", a.is(key, Fld("SeedRunResult.DeviceSgType", Same(batch))), mu.Pos(), "key %s", trunc(key.String()))
		c.ob(rule, where+": earlier batches kept", len(ps) == 2 && strings.Contains(ps[0].String(), "lookup") || len(ps) == 2 && ps[0].Op == "lookup", mu.Pos(), "%d parts", len(ps))
		c.ob(rule, where+": batch without an error", a.holds(e.Facts, "nil", Fld("SeedRunResult.Error", Same(batch)), nil) != nil, mu.Pos(), "guarded by the batch's error being nil")
		creds := Fld("SeedRunResult.CredBases", Same(batch))
		c.ob(rule, where+": every credential of the batch", a.holdsAll(e.Facts, "nil", creds, Res(credSave, 0), nil) != nil, mu.Pos(), "for every element of the batch's credentials Save returned no error")
		// what is saved is the element
		for _, s := range c.callsTo(f, credSave) {
			c.prov(rule, where+": what is stored", s.Instr.Pos(), s.Args[1], func(a *Analyzer, t *Term) bool {
				t = strip(t)
				return (t.Op == "index" || t.Op == "elem" || strings.HasPrefix(t.Op, "idx")) && len(t.Args) > 0 && a.is(t.Args[0], creds)
			}, "the element of the received batch")
		}
		recvLoop = innerLoop(f, e.Top.Block())
		if recvLoop == nil {
			c.ob(rule, where+": every batch", false, mu.Pos(), "identifiers are not recorded in a loop")
			continue
		}
		c.ob(rule, where+": every batch", everyIteration(recvLoop, e.Top.Block()), mu.Pos(), "every round of the receiving loop stores its batch")
	}
	c.ob(rule, where+": no round is cut short", c.noSkipIn(f, false), f.Pos(), "loops are left only at their end or with an error")
	if recvLoop == nil {
		return
	}
	for _, e := range c.callsTo(f, cfgSave) {
		b := e.Top.Block()
		c.ob(rule, where+": marker after the receiving loop", recvLoop.header.Dominates(b) && !inAnyLoop(loops, b), e.Instr.Pos(), "the marker is stored once the loop has ended")
		seeds := fieldOf(e.Args[1], "MainConfig.SeededGuids")
		c.ob(rule, where+": marker's content", seeds != nil && !isZeroM(a, seeds), e.Instr.Pos(), "the stored record holds the collected identifiers")
	}
	// one batch is received for every generator started
	recvs, gos := 0, 0
	var rf, gf string
	var gens []*ssa.Go
	var gofs []*ssa.Function
	vis := map[*ssa.Function]bool{}
	for _, e := range a.effects(f, func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.UnOp)
		_, isGo := in.(*ssa.Go)
		return isGo || ok && u.Op == token.ARROW
	}, nil) {
		if g, ok := e.Instr.(*ssa.Go); ok {
			gos++
			gf = c.rounds(f, e.Top.Block())
			gens = append(gens, g)
			if t := g.Call.StaticCallee(); t != nil && !vis[t] {
				vis[t] = true
				gofs = append(gofs, t)
			}
		} else {
			recvs++
			rf = c.rounds(f, e.Top.Block())
		}
	}
	c.ob("generators", where+": as many batches as generators", recvs == 1 && gos == 1 && rf != "" && (rf == gf || rf == "until closed"), f.Pos(), "generators started: %s; batches received: %s", gf, rf)
	for _, g := range gofs {
		c.generator(g)
	}
	if len(gofs) == 0 {
		c.missing("generator functions")
	}
	// seeding runs only without a marker, and its result is passed on
	for _, up := range c.callersOf(f) {
		for _, e := range c.callsTo(up, where) {
			c.guard("seeding is reported", fnKey(up), e, []Req{{Name: "no marker stored", Kind: "nonnil", A: Res(cfgGet, 1)}})
		}
	}
	ur := a.newTS(&tsRule{
		name:    "C38u",
		isEvent: func(in ssa.Instruction) bool { return calleeIs(in, where) },
		opaque:  func(g *ssa.Function) bool { return g == f },
		event: func(in ssa.Instruction, st string) []tsOutcome {
			if !calleeIs(in, where) {
				return nil
			}
			if _, plain := in.(*ssa.Call); !plain {
				return []tsOutcome{{st: "F", viol: "seeding is called by go or defer"}}
			}
			return []tsOutcome{{st: st, res: map[int]int8{k: clNil}}, {st: "F", res: map[int]int8{k: clNon}}}
		},
	})
	todo := c.callersOf(f)
	seen := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		u := todo[0]
		todo = todo[1:]
		if seen[u] {
			continue
		}
		seen[u] = true
		ke := errResult(u)
		n := 0
		for _, e := range ur.exits(u, "0") {
			n++
			if e.st == "F" && (ke < 0 || e.res == nil || e.res[ke] != clNon) {
				ur.violate(u, e.pos, "a failed seeding is not reported")
			}
		}
		c.ob("seeding is reported", fnKey(u), n > 0, u.Pos(), "%d exit states", n)
		todo = append(todo, c.callersOf(u)...)
	}
	for _, v := range ur.violations() {
		c.ob("seeding is reported", fnKey(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
}

func inAnyLoop(ls []loopInfo, b *ssa.BasicBlock) bool {
	for _, l := range ls {
		if l.body[b] {
			return true
		}
	}
	return false
}

// rounds: how often a block runs, as the sorted factors of the bounds of the loops around it; "" if a loop has no recognised bound.
func (c *Ctx) rounds(f *ssa.Function, b *ssa.BasicBlock) string {
	var fs []string
	for _, l := range loopsOf(f) {
		if !l.body[b] {
			continue
		}
		t := c.loopBound(l.header)
		if t == nil {
			if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
				if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 1 {
					if u, ok := ex.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW {
						return "until closed"
					}
				}
			}
			return ""
		}
		fs = append(fs, factors(t)...)
	}
	sort.Strings(fs)
	return strings.Join(fs, " * ")
}

func factors(t *Term) []string {
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if t.Op == "bin" && t.Name == "*" || t.Op == "bin:*" {
		return append(factors(t.Args[0]), factors(t.Args[1])...)
	}
	return []string{stripSites(t)}
}

// loopBound: the number of rounds of a loop counting up from 0 by one, or ranging over a list.
func (c *Ctx) loopBound(h *ssa.BasicBlock) *Term {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	if phi, ok := bo.X.(*ssa.Phi); ok && phi.Block() == h &&
		((bo.Op == token.GTR || bo.Op == token.NEQ) && isConst(bo.Y, "0") || bo.Op == token.GEQ && isConst(bo.Y, "1")) {
		// counting down to 0
		var from *Term
		for i, e := range phi.Edges {
			if h.Dominates(h.Preds[i]) {
				st, ok := e.(*ssa.BinOp)
				if !ok || st.X != ssa.Value(phi) || !(st.Op == token.SUB && isConst(st.Y, "1") || st.Op == token.ADD && isConst(st.Y, "-1")) {
					return nil
				}
			} else if t := c.A.at(e, iff); from == nil || from.Key() == t.Key() {
				from = t
			} else {
				return nil
			}
		}
		return from
	}
	if bo.Op != token.LSS && bo.Op != token.NEQ {
		return nil
	}
	start := "0"
	var phi *ssa.Phi
	switch i := bo.X.(type) {
	case *ssa.Phi:
		phi = i
	case *ssa.BinOp:
		if p, ok := i.X.(*ssa.Phi); ok && i.Op == token.ADD && isConst(i.Y, "1") {
			phi, start = p, "-1"
		}
	}
	if phi == nil || phi.Block() != h {
		return nil
	}
	for i, e := range phi.Edges {
		if h.Dominates(h.Preds[i]) {
			st, ok := e.(*ssa.BinOp)
			if !ok || st.Op != token.ADD || !isConst(st.Y, "1") {
				return nil
			}
		} else if !isConst(e, start) {
			return nil
		}
	}
	return c.A.at(bo.Y, iff)
}

// generator: every path of a generator sends exactly one batch, one that carries an error if a generation failed, and its
// identifiers are those of its credentials.
func (c *Ctx) generator(g *ssa.Function) {
	a := c.A
	rule := "generators"
	where := fnKey(g)
	isErrStore := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && typeBase(deref(fa.X.Type())) == "SeedRunResult" && st.Val.Type().String() == "error"
	}
	isSend := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Send)
		return ok && typeBase(s.X.Type()) == "SeedRunResult"
	}
	run := a.newTS(&tsRule{
		name:    "C38g",
		isEvent: func(in ssa.Instruction) bool { return isErrStore(in) || isSend(in) || calleeIs(in, newCred) },
		opaque:  func(f *ssa.Function) bool { return fnKey(f) == newCred },
		event: func(in ssa.Instruction, st string) []tsOutcome {
			switch {
			case calleeIs(in, newCred):
				return []tsOutcome{{st: st, res: map[int]int8{1: clNil}}, {st: "F" + st[1:], res: map[int]int8{1: clNon}}}
			case isErrStore(in):
				t := strip(a.at(in.(*ssa.Store).Val, in))
				if t.Op == "call" && definitelyNonNil(t.Name) || a.holds(a.factsAt(in.Parent(), in), "nonnil", Same(t), nil) != nil {
					return []tsOutcome{{st: "E" + st[1:]}}
				}
				return []tsOutcome{{st: st}}
			case isSend(in):
				v := ""
				if st[:1] == "F" {
					v = "a batch whose generation failed is sent without an error"
				} else if st[1:] == "1" {
					v = "a second batch is sent"
				}
				return []tsOutcome{{st: st[:1] + "1", viol: v}}
			}
			return nil
		},
	})
	n := 0
	for _, e := range run.exits(g, "00") {
		n++
		if e.st[1:] != "1" {
			run.violate(g, e.pos, "the generator ends without having sent its batch")
		}
	}
	c.ob(rule, where+": one batch", n > 0, g.Pos(), "%d exit states", n)
	for _, v := range run.violations() {
		c.ob(rule, fnKey(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
	// the batch's lists grow together
	type app struct {
		in ssa.Instruction
		el *Term
	}
	lists := map[string][]app{}
	eachInstr(g, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || typeBase(deref(fa.X.Type())) != "SeedRunResult" {
			return
		}
		name := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
		v := a.at(st.Val, st)
		if name == "DeviceSgType" {
			for _, e := range c.callsTo(g, newCred) {
				c.ob(rule, where+": algorithm of the batch", a.is(v, Same(e.Args[0])), st.Pos(), "the batch is labelled with the algorithm its keys are generated for")
			}
		}
		ps := flatConcat(a, v, 0)
		if len(ps) == 2 {
			lists[name] = append(lists[name], app{st, ps[1]})
		}
	})
	gs, cs := lists["Guids"], lists["CredBases"]
	ok := len(gs) == 1 && len(cs) == 1 && gs[0].in.Block() == cs[0].in.Block()
	msg := fmt.Sprintf("%d and %d appends", len(gs), len(cs))
	if ok {
		dev := Res(newCred, 0)
		okG := a.is(gs[0].el, Has(Fld("WawDeviceCredential.DCGuid", dev)))
		okC := a.hasSub(cs[0].el, dev, 0)
		ok = okG && okC
		msg = fmt.Sprintf("identifier %s of credential %s", trunc(gs[0].el.String()), trunc(cs[0].el.String()))
	}
	c.ob(rule, where+": identifiers match the credentials", ok, g.Pos(), "%s", msg)
}
