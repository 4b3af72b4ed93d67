package main

import (
	"fmt"
	"go/token"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C18", "must-fact analysis at every place a verdict is made or recorded: which evidence (status, decoded error, step result) holds there, whose it is, and under which test it is recorded; path search over the executors' loops.", c18)
}

const (
	reportTest  = "core/shared/testcom/dbs.(RequestTestDB).ReportTest"
	passState   = "core/shared/testcom.NewSuccessTestState"
	failState   = "core/shared/testcom.NewFailTestState"
	decodeErr   = "core/shared.DecodeErrorResponse"
	runnerKey   = "core/shared/testcom/listener.(RequestListenerRunnerInst)."
	positiveTst = "FIDO_LISTENER_POSITIVE"
)

func isPass(in ssa.Instruction) bool {
	if calleeIs(in, passState) {
		return true
	}
	if !isFieldStore(in, testIDStates, "Passed") {
		return false
	}
	k, ok := in.(*ssa.Store).Val.(*ssa.Const)
	return !ok || k.Value == nil || k.Value.ExactString() != "false"
}

// judges: the named functions whose result is a verdict on an answer.
func (c *Ctx) judges() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || c.A.isHelper(f) || f.Signature.Results().Len() != 1 || typeBase(lastResult(f)) != testIDStates {
			continue
		}
		if k := fnKey(f); k == passState || k == failState {
			continue
		}
		out = append(out, f)
	}
	return out
}

func paramByType(f *ssa.Function, typ string) *ssa.Parameter {
	for _, p := range f.Params {
		if p.Type().String() == typ {
			return p
		}
	}
	return nil
}

// passEffects: where a passing verdict is made, by the function or the helpers extracted from it.
func (c *Ctx) passEffects(f *ssa.Function, also func(ssa.Instruction) bool) []*Effect {
	es := c.A.effects(f, func(in ssa.Instruction) bool { return isPass(in) || also != nil && also(in) }, func(g *ssa.Function) bool {
		return g != f && !c.A.isHelper(g) && fnKey(g) != passState
	})
	for _, e := range es {
		c.A.used(e)
	}
	return es
}

func c18(c *Ctx) {
	a := c.A
	js := c.judges()
	kind := map[*ssa.Function]string{}
	covered := map[ssa.Instruction]bool{}
	isJudge := map[*ssa.Function]bool{}
	for _, j := range js {
		isJudge[j] = true
	}
	// evidence at a point of a judge: "refused" (an FDO error with a failing status), "answered" (status 200)
	evidence := func(j *ssa.Function, fs *FactSet) (string, string) {
		st, body := paramByType(j, "int"), paramByType(j, "[]byte")
		if st == nil {
			return "", ""
		}
		isSt := Same(ParamTerm(j, st))
		status := a.holds(fs, "eq", isSt, K("200")) != nil
		refused := a.holds(fs, "ne", isSt, K("200")) != nil
		errDec, errNot, dec := false, false, false
		if body != nil {
			isB := Same(ParamTerm(j, body))
			errDec = a.holds(fs, "nil", Res(decodeErr, 1, isB), nil) != nil
			errNot = a.holds(fs, "nonnil", Res(decodeErr, 1, isB), nil) != nil
			dec = a.holds(fs, "nil", Res("core/shared.(CBOR_CUSTOM_TAGS).Unmarshal", 0, nil, isB), nil) != nil
		}
		switch {
		case refused && errDec:
			return "refused", ""
		case status && (body == nil || errNot && dec):
			return "answered", ""
		}
		s := fmt.Sprintf("status is 200: %v, status is not 200: %v, body decodes as an FDO error: %v, does not: %v, body decodes as the answer: %v", status, refused, errDec, errNot, dec)
		return "", s
	}
	called := c.judgesOfSteps(isJudge)
	for _, j := range js {
		if called[j] {
			continue
		}
		for _, e := range c.passEffects(j, nil) {
			covered[e.Instr] = true
			k, why := evidence(j, e.Facts)
			kind[j] = k
			c.ob("evidence of a pass", fnShort(j), k != "", e.Instr.Pos(), "a passing verdict is made without evidence: %s", why)
		}
	}
	lists := c.listGlobals()
	checks := map[string]bool{}
	for _, l := range lists {
		for _, id := range l {
			if strings.Contains(id, "CHECK_RESP") {
				checks[id] = true
			}
		}
	}
	for j := range called {
		idp := testIDParam(j)
		if idp < 0 {
			continue
		}
		id := ParamTerm(j, j.Params[idp])
		st, body := paramByType(j, "int"), paramByType(j, "[]byte")
		for _, e := range c.passEffects(j, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			_, g := calleeName(ci.Common())
			return isJudge[g] && g != j
		}) {
			covered[e.Instr] = true
			k, why := "", ""
			if ci, ok := e.Instr.(ssa.CallInstruction); ok && !isPass(e.Instr) {
				_, g := calleeName(ci.Common())
				k = kind[g]
				same := true
				for i, p := range g.Params {
					switch {
					case isTestIDType(p.Type()):
						same = same && e.Args[i].Key() == id.Key()
					case p.Type().String() == "int":
						same = same && st != nil && e.Args[i].Key() == ParamTerm(j, st).Key()
					case p.Type().String() == "[]byte":
						same = same && body != nil && e.Args[i].Key() == ParamTerm(j, body).Key()
					}
				}
				c.ob("answer judged", fnShort(j)+" calls "+fnShort(g), same, e.Instr.Pos(), "the answer, its status or the test identifier handed on is not the one received")
			} else {
				k, why = evidence(j, e.Facts)
			}
			// which tests get here
			which := ""
			ok := k != ""
			for x := range checks {
				reach := !c.excluded(e.Facts, id, x) && !c.outsideGroup(e.Facts, id, x)
				if k == "refused" && reach {
					ok, which = false, x+" is judged passed when the peer refuses"
				}
			}
			if k == "answered" {
				found := false
				for x := range checks {
					found = found || a.holds(e.Facts, "eq", Same(id), func(a *Analyzer, t *Term) bool { return t.Op == "const" && unquote(t.Name) == x }) != nil
				}
				if !found {
					ok, which = false, "a negative test is judged passed when the peer accepts"
				}
			}
			c.ob("evidence of a pass", fnShort(j), ok, e.Instr.Pos(), "%s %s", which, why)
		}
	}
	c.min("evidence of a pass", 14)

	// steps: the verdict handed back is the one on the answer to this request
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		s := c.step(m)
		if s == nil {
			continue
		}
		own := ParamTerm(s, s.Params[testIDParam(s)])
		n := 0
		for _, e := range a.effects(s, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			_, g := calleeName(ci.Common())
			return called[g]
		}, func(g *ssa.Function) bool { return called[g] }) {
			n++
			_, g := calleeName(e.Instr.(ssa.CallInstruction).Common())
			var post *ssa.Instruction
			ok := true
			for i, p := range g.Params {
				t := e.Args[i]
				var want int
				switch {
				case isTestIDType(p.Type()):
					ok = ok && t.Key() == own.Key()
					continue
				case p.Type().String() == "int":
					want = 2
				case p.Type().String() == "[]byte":
					want = 0
				default:
					continue
				}
				if !a.is(t, Res(sendPost, want)) {
					ok = false
					continue
				}
				if site := strip(t).Site; post == nil {
					post = &site
				} else {
					ok = ok && *post == site
				}
			}
			c.ob("answer judged", fmt.Sprintf("request %d", m), ok, e.Instr.Pos(), "the verdict is not on the answer to this request under the test it was sent for")
		}
		if n == 0 {
			c.missing("verdict on the answer to request " + itoa(m))
		}
		for _, e := range c.passEffects(s, nil) {
			covered[e.Instr] = true
			c.ob("evidence of a pass", fnShort(s), false, e.Instr.Pos(), "a step declares a pass itself")
		}
	}
	c.min("answer judged", 15)

	c.executors(covered, isJudge)
	c.listenerVerdicts(covered)

	// nothing else makes a verdict
	c.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		if !isPass(in) || covered[in] || fnKey(f) == passState {
			return
		}
		c.ob("evidence of a pass", fnShort(f), false, in.Pos(), "a passing verdict is made outside the places that judge answers")
	})
	// what the constructors make
	for k, want := range map[string]string{passState: "true", failState: "false"} {
		f := c.P.fn(k)
		if f == nil {
			c.missing(k)
			continue
		}
		for _, r := range alts(a.results(f, 0)) {
			ok := r.Op == "lit" || r.Op == "zero"
			var p *Term
			if ok {
				p = projField(r, testIDStates+".Passed", nil)
				ok = p.Op == "const" && p.Name == want || p.Op == "zero" && want == "false"
			}
			id := projField(r, testIDStates+".TestID", nil)
			ok = ok && id.Op == "param"
			c.ob("verdict made", fnShort(f), ok, f.Pos(), "the verdict is %s", trunc(r.String()))
		}
	}
	if f := c.P.fn("core/shared/testcom/request.(RequestTestRun).PassingAllTests"); f != nil {
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			k, isK := r.Results[0].(*ssa.Const)
			if isK && k.Value != nil && k.Value.ExactString() == "false" {
				continue
			}
			fs := a.factsAt(f, r)
			good := isK && a.holdsAll(fs, "true", Fld("RequestTestRun.Tests", nil), Fld(testIDStates+".Passed", nil), nil) != nil
			c.ob("verdict made", fnShort(f), good, r.Pos(), "a run is reported passing without every test of it having passed")
		}
	} else {
		c.missing("PassingAllTests")
	}
}

// ParamTerm: the term of a parameter.
func ParamTerm(f *ssa.Function, p *ssa.Parameter) *Term {
	for i, q := range f.Params {
		if q == p {
			return paramOfTerm(f, i)
		}
	}
	return nil
}

// outsideGroup: the facts say that id belongs to a group of tests that x is not in.
func (c *Ctx) outsideGroup(fs *FactSet, id *Term, x string) bool {
	for _, f := range fs.list() {
		if f.Kind != "eq" || f.B == nil {
			continue
		}
		g := f.A
		if g.Key() == id.Key() {
			g = f.B
		}
		if g.Op != "call" || !strings.HasSuffix(g.Name, "testcom.ExpectGroupTests") || len(g.Args) != 2 {
			continue
		}
		l := g.Args[0]
		if l.Op != "global" {
			continue
		}
		in := false
		for _, y := range c.P.listOf(l.Name) {
			in = in || unquote(y) == x
		}
		if !in {
			return true
		}
	}
	return false
}

// judgesOfSteps: the judges that the request steps call.
func (c *Ctx) judgesOfSteps(isJudge map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		s := c.step(m)
		if s == nil {
			continue
		}
		for _, e := range c.A.effects(s, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			_, g := calleeName(ci.Common())
			return isJudge[g]
		}, func(g *ssa.Function) bool { return isJudge[g] }) {
			_, g := calleeName(e.Instr.(ssa.CallInstruction).Common())
			out[g] = true
		}
	}
	return out
}

var testNumber = regexp.MustCompile(`_(\d\d)_`)

// requestOf: the request whose success a positive test is about.
func requestOf(id string) int {
	m := testNumber.FindStringSubmatch(id)
	if m == nil {
		return 0
	}
	n := int(m[1][0]-'0')*10 + int(m[1][1]-'0')
	switch n {
	case 21, 23, 31, 33:
		n--
	}
	return n
}

// judgedEarly: run under this test, the step can return without an error although the request was not answered well.
func (c *Ctx) judgedEarly(s *ssa.Function, id string) bool {
	a := c.A
	p := ParamTerm(s, s.Params[testIDParam(s)])
	for _, b := range s.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || errorExit(b) {
			continue
		}
		fs := a.factsAt(s, r)
		if fs == nil || c.excluded(fs, p, id) {
			continue
		}
		// reached with the status examined, as without any test
		if a.holds(fs, "eq", Res(sendPost, 2), K("200")) == nil || a.holds(fs, "nil", Res(sendPost, 3), nil) == nil {
			return true
		}
	}
	return false
}

func (c *Ctx) executors(covered map[ssa.Instruction]bool, isJudge map[*ssa.Function]bool) {
	a := c.A
	steps := map[*ssa.Function]int{}
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		if s := c.step(m); s != nil {
			steps[s] = m
		}
	}
	inExec := func(f *ssa.Function) bool { return strings.HasPrefix(fnKey(f), "testexec.") }
	opaque := func(g *ssa.Function) bool { return !inExec(g) && !a.isHelper(g) }
	lists := c.listGlobals()
	reported := map[ssa.Instruction]bool{}
	var roots []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Parent() == nil && inExec(f) && token.IsExported(f.Name()) {
			roots = append(roots, f)
		}
	}
	// the test that a step was run under: none, or the one that is reported
	under := func(arg, id *Term, fs *FactSet, positive string) (bool, string) {
		for _, y := range alts(arg) {
			for y.Op == "test" || y.Op == "prev" {
				y = y.Args[0]
			}
			y = strip(y)
			switch {
			case y.Op == "const" && unquote(y.Name) == nullTest:
			case y.Key() == id.Key() || stripSites(y) == stripSites(id):
			case y.Op == "const" && isTestID(unquote(y.Name)) && positive == "" && !c.excluded(fs, id, unquote(y.Name)):
			default:
				return false, trunc(y.String())
			}
		}
		return true, ""
	}
	for _, root := range roots {
		for _, e := range a.effects(root, func(in ssa.Instruction) bool { return calleeIs(in, reportTest) || isPass(in) }, opaque) {
			if isPass(e.Instr) {
				a.used(e)
				covered[e.Instr] = true
				// a verdict of success: of a positive test, after its request succeeded
				id, positive := c.selected(e.Facts, lists)
				construct := fmt.Sprintf("%s %s", fnShort(e.Fn), positive)
				if positive == "" || !strings.Contains(positive, "POSITIVE") {
					c.ob("evidence of a pass", construct, false, e.Instr.Pos(), "a pass is declared outside a positive test")
					continue
				}
				m := requestOf(positive)
				fs := e.Facts
				if st, ok := e.Instr.(*ssa.Store); ok {
					if _, isK := st.Val.(*ssa.Const); !isK {
						more, _ := a.condFacts(a.funcFacts(e.Fn), st.Val, true, st, 0)
						fs = newFS()
						for _, f := range e.Facts.list() {
							fs.add(f)
						}
						if more != nil {
							for _, f := range more.list() {
								g := &Fact{Kind: f.Kind, A: e.tr(f.A)}
								if f.B != nil {
									g.B = e.tr(f.B)
								}
								fs.add(g)
							}
						}
					}
				}
				ok, why := false, fmt.Sprintf("nothing shows that request %d succeeded", m)
				for _, f := range fs.list() {
					if f.Kind != "nil" || f.A.Op != "call" || f.A.Fn == nil || steps[f.A.Fn] != m || f.A.Idx != errResult(f.A.Fn) {
						continue
					}
					arg := f.A.Args[testIDParam(f.A.Fn)]
					good, w := under(arg, id, fs, positive)
					if !good {
						why = "the request was run under " + w
						continue
					}
					if !a.is(arg, K("\""+nullTest+"\"")) && !a.is(arg, K(nullTest)) && c.judgedEarly(f.A.Fn, positive) {
						why = fmt.Sprintf("%s returns no error under %s whatever the peer answers", fnShort(f.A.Fn), positive)
						continue
					}
					ok = true
				}
				switch m {
				case 62:
					ok = a.holds(fs, "nil", Res("core/shared.(OVEntryArray).VerifyEntries", 0), nil) != nil && a.holds(fs, "nil", Res("core/shared.(FdoPublicKey).Equal", 0), nil) != nil
					why = "the entries received were not verified"
					for _, e2 := range a.effects(root, func(in ssa.Instruction) bool {
						ci, isC := in.(ssa.CallInstruction)
						if !isC {
							return false
						}
						_, g := calleeName(ci.Common())
						return steps[g] == 62
					}, opaque) {
						id2, p2 := c.selected(e2.Facts, lists)
						if p2 != positive || id2.Key() != id.Key() {
							continue
						}
						_, g := calleeName(e2.Instr.(ssa.CallInstruction).Common())
						arg := e2.Args[testIDParam(g)]
						if !a.is(arg, K("\""+nullTest+"\"")) && !a.is(arg, K(nullTest)) && c.judgedEarly(g, positive) {
							ok, why = false, fmt.Sprintf("%s returns no error under %s whatever the peer answers", fnShort(g), positive)
						}
					}
				case 68:
					if ok && a.holds(fs, "true", Fld("OwnerServiceInfo69.IsDone", nil), nil) == nil {
						ok, why = false, "the owner did not say that it is done"
					}
				}
				c.ob("evidence of a pass", construct, ok, e.Instr.Pos(), "%s", why)
				continue
			}
			reported[e.Instr] = true
			c.prov("recorded in the run", fnShort(e.Fn), e.Instr.Pos(), e.Args[1], Fld("RequestTestInst.Uuid", nil), "the verdict is recorded in the run being executed")
			id := e.Args[2]
			list := isListElem(id)
			setup := id.Op == "const" && strings.HasSuffix(unquote(id.Name), "_SETUP")
			sel, pos := c.selected(e.Facts, lists)
			if list == "" && id.Op == "const" && sel != nil && unquote(id.Name) == pos {
				list, id = isListElem(sel), sel
			}
			c.ob("recorded under its test", fnShort(e.Fn)+" "+trunc(strings.TrimPrefix(list, "global:core/shared/testcom.")), list != "" || setup, e.Instr.Pos(), "a verdict is recorded under %s, which is not the test being run", trunc(id.String()))
			for _, x := range alts(e.Args[3]) {
				for x.Op == "prev" || x.Op == "test" {
					x = x.Args[0]
				}
				x = strip(x)
				ok, why := false, trunc(x.String())
				switch {
				case x.Op == "lit" || x.Op == "zero" || x.Op == "const" && x.Name == "nil":
					ok = true // what makes it pass is checked where it is made
					if setup && x.Op == "lit" {
						p := projField(x, testIDStates+".Passed", nil)
						ok = p.Op == "zero" || p.Op == "const" && p.Name == "false"
						why = "the set-up is recorded as passed"
					}
				case x.Op == "call" && (x.Name == failState || x.Name == passState):
					ok = x.Name == failState || !setup
					if !setup && x.Args[0].Key() != id.Key() && stripSites(x.Args[0]) != stripSites(id) {
						ok, why = false, "the verdict names the test "+trunc(x.Args[0].String())
					}
				case x.Op == "call" && x.Fn != nil && steps[x.Fn] != 0 && typeBase(deref(x.T)) == testIDStates && !setup:
					ok, why = under(x.Args[testIDParam(x.Fn)], id, e.Facts, "")
					why = "the verdict is on a request that was sent under " + why
				}
				c.ob("verdict recorded", fnShort(e.Fn), ok, e.Instr.Pos(), "%s", why)
			}
		}
	}
	c.min("recorded under its test", 40)
	for _, ci := range c.allCallSites(reportTest) {
		if !reported[ci.(ssa.Instruction)] {
			c.ob("recorded under its test", fnShort(ci.Parent()), false, ci.Pos(), "a verdict is recorded outside the test executors")
		}
	}
	// every test that is run gets a verdict
	reports := a.reachSet("report", func(in ssa.Instruction) bool { return calleeIs(in, reportTest) })
	for _, f := range c.P.Funcs {
		if !inExec(f) {
			continue
		}
		ls := loopsOf(f)
		for i := range ls {
			lp := &ls[i]
			over := c.loopList(f, lp, lists)
			if over == "" {
				continue
			}
			at := c.silentIteration(f, lp, ls, reports)
			pos := f.Pos()
			if at != nil {
				pos = at.Pos()
			}
			c.ob("verdict for every test", fnShort(f)+" "+strings.TrimPrefix(over, "global:core/shared/testcom."), at == nil, pos, "a test of the list can be run without any verdict being recorded")
		}
	}
	c.min("verdict for every test", 11)
}

func isTestID(s string) bool { return strings.HasPrefix(s, "FIDO_") }

// selected: the element of a list of tests that the facts fix, and what it is fixed to.
func (c *Ctx) selected(fs *FactSet, lists map[string][]string) (*Term, string) {
	for _, f := range fs.list() {
		if f.Kind != "eq" || f.B == nil {
			continue
		}
		for _, p := range [][2]*Term{{f.A, f.B}, {f.B, f.A}} {
			if isListElem(p[0]) != "" && p[1].Op == "const" {
				return strip(p[0]), unquote(p[1].Name)
			}
		}
	}
	return nil, ""
}

// loopList: the list of tests that a loop goes through.
func (c *Ctx) loopList(f *ssa.Function, lp *loopInfo, lists map[string][]string) string {
	for b := range lp.body {
		for _, in := range b.Instrs {
			ix, ok := in.(*ssa.IndexAddr)
			if !ok || !isTestIDType(deref(ix.Type())) {
				continue
			}
			t := c.A.at(ix.X, in)
			if t.Op != "global" {
				continue
			}
			if _, ok := lists["global:"+t.Name]; !ok {
				continue
			}
			// the index is this loop's
			for _, in2 := range lp.header.Instrs {
				if phi, ok := in2.(*ssa.Phi); ok {
					if ix.Index == ssa.Value(phi) {
						return "global:" + t.Name
					}
					if bo, ok := ix.Index.(*ssa.BinOp); ok && bo.X == ssa.Value(phi) {
						return "global:" + t.Name
					}
				}
			}
		}
	}
	return ""
}

// silentIteration: the end of a path through the body of a loop (back to its header, or out of the function) on which
// nothing is reported. An inner loop that reports counts as reporting.
func (c *Ctx) silentIteration(f *ssa.Function, lp *loopInfo, all []loopInfo, reports map[*ssa.Function]bool) ssa.Instruction {
	ff := c.A.funcFacts(f)
	says := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if calleeIs(in, reportTest) {
				says[b] = true
			} else if ci, ok := in.(ssa.CallInstruction); ok {
				if _, g := calleeName(ci.Common()); g != nil && reports[g] {
					says[b] = true
				}
			}
		}
	}
	for i := range all {
		in := &all[i]
		if in.header == lp.header || !lp.body[in.header] || len(in.body) >= len(lp.body) {
			continue
		}
		for b := range in.body {
			if says[b] {
				says[in.header] = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad ssa.Instruction
	var w func(b *ssa.BasicBlock)
	w = func(b *ssa.BasicBlock) {
		if seen[b] || bad != nil || says[b] || ff.in[b] == nil {
			return
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		if _, ok := last.(*ssa.Return); ok {
			bad = last
			return
		}
		for _, s := range b.Succs {
			if s == lp.header {
				bad = last
				return
			}
			w(s)
		}
	}
	for _, s := range lp.header.Succs {
		if lp.body[s] {
			w(s)
		}
	}
	return bad
}

// listenerVerdicts: verdicts on the devices that talk to the listeners.
func (c *Ctx) listenerVerdicts(covered map[ssa.Instruction]bool) {
	a := c.A
	current := func(m int) M { return K(itoa(m)) }
	next := map[int]int{30: 32, 60: 62, 62: 64, 64: 66, 66: 68, 68: 70}
	last := Or(Res(runnerKey+"GetLastTestID", 0), Fld("RequestListenerRunnerInst.LastTestID", nil))
	expected := Fld("RequestListenerRunnerInst.ExpectedCmd", nil)
	msgs := []int{30, 32, 60, 62, 64, 66, 68, 70}
	var tags []Tag
	for _, m := range msgs {
		tags = append(tags, Tag{Name: "expected " + itoa(m), Alts: []Req{
			{Kind: "true", A: Res(runnerKey+"CheckExpectedCmd", 0, nil, current(m))},
			{Kind: "true", A: Res(runnerKey+"CheckExpectedCmds", 0)},
			{Kind: "eq", A: expected, B: current(m)},
			{Kind: "eq", A: last, B: K(positiveTst)},
		}})
	}
	a.tagMemo = map[string][]string{}
	a.tags = append(a.tags, tags...)
	for _, m := range msgs {
		h := c.handler(m)
		if h == nil {
			continue
		}
		proto := "RequestListenerInst.To2"
		if m < 60 {
			proto = "RequestListenerInst.To1"
		}
		name := "message " + itoa(m)
		positive := func(fs *FactSet) bool {
			return a.holds(fs, "eq", Or(CallAny("GetNextTestID"), func(a *Analyzer, t *Term) bool {
				return t.Op == "phi" && strings.Contains(t.String(), "GetNextTestID")
			}), K(positiveTst)) != nil
		}
		for _, e := range c.callsTo(h, runnerKey+"PushSuccess") {
			ok := c.runnerRecv(e, proto)
			why := "the verdict goes to another runner"
			if ok && positive(e.Facts) {
				// the request has been examined: whatever is refused after this is the tool's own failure
				for _, r := range c.callsTo(h, "core/shared.RespondFDOError") {
					if !after(e.Top, r.Top) {
						continue
					}
					if a.holds(r.Facts, "nonnil", Res("core/shared/testcom/dbs.(ListenerTestDB).Update", 0), nil) == nil && a.holds(r.Facts, "nonnil", CallAny("EncryptionWrapping", "AddWrapping"), nil) == nil {
						ok, why = false, "the device's request is declared good before it has been examined: "+c.P.pos(r.Instr.Pos())
					}
				}
			} else if ok {
				ok = hasTag(e.Facts, "expected "+itoa(m)) && a.holds(e.Facts, "ne", Fld("RequestListenerRunnerInst.CurrentTestIndex", nil), K("0")) != nil
				why = "neither the stage being tested is the one of this message nor was the last test the positive one, or no test has been run"
			}
			c.ob("device passes", name, ok, e.Instr.Pos(), "%s", why)
		}
		for _, e := range c.callsTo(h, runnerKey+"PushFail") {
			if strings.HasSuffix(fnKey(e.Fn), "Conf_RespondFDOError") {
				continue
			}
			ok := c.runnerRecv(e, proto) && a.holds(e.Facts, "ne", last, K(positiveTst)) != nil &&
				(a.holds(e.Facts, "false", Res(runnerKey+"CheckExpectedCmd", 0), nil) != nil || a.holds(e.Facts, "false", Res(runnerKey+"CheckExpectedCmds", 0), nil) != nil || a.holds(e.Facts, "ne", expected, nil) != nil ||
					// it went on in the session in which it was given the bad answer to this very message
					a.holds(e.Facts, "eq", Fld("SessionEntry.PrevCMD", nil), K(itoa(m+1))) != nil)
			c.ob("device fails", name, ok, e.Instr.Pos(), "the device is failed although it sent the message that is expected")
		}
		for _, e := range c.callsTo(h, runnerKey+"CompleteCmdAndSetNext") {
			ok := c.runnerRecv(e, proto) && positive(e.Facts) && next[m] != 0 && a.is(e.Args[1], current(next[m]))
			c.ob("stage completed", name, ok, e.Instr.Pos(), "the stage is closed before its positive test, or the stage that follows is not message %d", next[m])
		}
		for _, e := range c.callsTo(h, runnerKey+"CompleteTestRun") {
			ok := c.runnerRecv(e, proto) && positive(e.Facts) && next[m] == 0
			c.ob("stage completed", name, ok, e.Instr.Pos(), "the run is closed before the positive test of its last stage")
		}
	}
	c.min("device passes", 14)
	c.min("device fails", 8)
	c.min("stage completed", 8)
	for k, v := range map[string]string{"PushSuccess": passState, "PushFail": failState} {
		f := c.P.fn(runnerKey + k)
		if f == nil {
			c.missing(k)
			continue
		}
		n := 0
		for _, e := range c.passEffects(f, func(in ssa.Instruction) bool { return isFieldStore(in, "ListenerTestRun", "TestRuns") }) {
			in := e.Instr
			if isPass(in) {
				covered[in] = true
			}
			if !isFieldStore(in, "ListenerTestRun", "TestRuns") {
				continue
			}
			n++
			t := storeVal(c, e)
			ok := t.Op == "call" && t.Name == "append" && len(t.Args) == 2 && a.is(t.Args[0], Fld("ListenerTestRun.TestRuns", nil)) && a.is(t.Args[1], Has(Res(v, 0, last)))
			c.ob("verdict made", "runner "+k, ok, in.Pos(), "the verdict added to the run is not the one on the last test: %s", trunc(t.String()))
		}
		if n == 0 {
			c.missing("verdict added by " + k)
		}
	}
	// an error answer fails the device in its own protocol's run
	f := c.P.fn("core/shared/testcom/listener.Conf_RespondFDOError")
	if f == nil {
		c.missing("Conf_RespondFDOError")
		return
	}
	n := 0
	for _, e := range c.callsTo(f, runnerKey+"PushFail") {
		n++
		ok := false
		for i, p := range []string{"To0", "To1", "To2"} {
			if c.runnerRecv(e, "RequestListenerInst."+p) {
				ok = a.holds(e.Facts, "eq", ParamT("FdoToProtocol"), K(itoa(i))) != nil
			}
		}
		c.ob("device fails", "error answer", ok, e.Instr.Pos(), "the failure goes to the runner of another protocol")
	}
	if n < 3 {
		c.missing("failures recorded with error answers")
	}
	// and the failure is stored: by the function itself, or by whoever calls it
	const update = "core/shared/testcom/dbs.(ListenerTestDB).Update"
	stores := a.reachSet("listener update", func(in ssa.Instruction) bool { return calleeIs(in, update) })
	kept, lost := stores[f], token.NoPos
	if !kept {
		kept = true
		for _, ci := range c.allCallSites(fnKey(f)) {
			saved := false
			eachInstr(ci.Parent(), func(in ssa.Instruction) {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				n, g := calleeName(call.Common())
				if n != update && (g == nil || !stores[g]) {
					return
				}
				_, deferred := in.(*ssa.Defer)
				saved = saved || deferred || in.Block() != ci.Block() && ci.Block().Dominates(in.Block()) || in.Block() == ci.Block() && after(ci, in)
			})
			if !saved && kept {
				kept, lost = false, ci.Pos()
			}
		}
	}
	c.ob("failure kept", "error answer", kept, lost, "the failure of the device that goes with an error answer is only recorded in memory: no store follows")
	for _, m := range msgs {
		h := c.handler(m)
		want := 2
		if m < 60 {
			want = 1
		}
		for _, e := range c.callsTo(h, fnKey(f)) {
			c.ob("device fails", "message "+itoa(m)+": error answer", a.is(e.Args[7], c.protoConst(want)), e.Instr.Pos(), "the failure goes to the runner of another protocol")
		}
	}
}

// runnerRecv: the runner a method is called on is this protocol's, whatever has been called on it before.
func (c *Ctx) runnerRecv(e *Effect, proto string) bool {
	if fa, ok := e.Instr.(ssa.CallInstruction).Common().Args[0].(*ssa.FieldAddr); ok {
		return fieldName(deref(fa.X.Type()), fa.Field) == proto
	}
	return c.runnerOf(e.Args[0], proto)
}

func (c *Ctx) protoConst(n int) M {
	v, _ := c.P.constVal("core/shared", fmt.Sprintf("To%d", n))
	return K(v)
}

// after: b can run after x within one call of their function.
func after(x, b ssa.Instruction) bool {
	if x.Parent() != b.Parent() {
		return true
	}
	if x.Block() == b.Block() {
		for _, in := range x.Block().Instrs {
			if in == x {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var w func(q *ssa.BasicBlock) bool
	w = func(q *ssa.BasicBlock) bool {
		for _, s := range q.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if w(s) {
					return true
				}
			}
		}
		return false
	}
	return w(x.Block())
}
