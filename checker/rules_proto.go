package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C15", "path-sensitive typestate over every control-flow path of the ten protocol handlers and the functions they call (answer not started / headers sent / body sent), with nil and boolean correlation; must-facts and provenance at every place an answer is started.", c15)
	reg("C16", "constant provenance, in the handler's own terms, of the message number in every protocol error and of the protocol slot every conformance record is written to; route table completeness.", c16)
	reg("C20", "path-sensitive typestate (clean / changed / answered with an error) over every path of the protocol handlers; mutation summaries decide which calls change listener test state.", c20)
	reg("C21", "path-sensitive typestate (no run / run open) over every path of the conformance executors, deferred calls included.", c21)
}

var runnerType = "RequestListenerRunnerInst"

// runnerCall: a call of a method on a listener test run (the receiver type decides).
func runnerCall(in ssa.Instruction) *ssa.Function {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	g := tsCallee(ci)
	if g == nil || g.Signature.Recv() == nil || typeBase(deref(g.Signature.Recv().Type())) != runnerType {
		return nil
	}
	return g
}

func isHTTPError(in ssa.Instruction) bool { return calleeIs(in, "net/http.Error") }

// recordsFail: the function records a failed test.
func (c *Ctx) recordsFail(in ssa.Instruction) bool {
	g := runnerCall(in)
	return g != nil && c.A.reachSet("failstate", func(i ssa.Instruction) bool {
		return calleeIs(i, "core/shared/testcom.NewFailTestState")
	})[g]
}

// successStarts: the instructions that start a success answer of some protocol handler.
func (c *Ctx) successStarts() map[ssa.Instruction]bool {
	success := map[ssa.Instruction]bool{}
	for _, m := range fdoMsgs {
		if h := c.handler(m); h != nil {
			for _, e := range c.successAnswers(h) {
				success[e.Instr] = true
			}
		}
	}
	return success
}

func c15(c *Ctx) {
	run := c.A.newTS(&tsRule{
		name: "C15",
		isEvent: func(in ssa.Instruction) bool {
			return isWriteHeader(in) || isRespWrite(in) || isHTTPError(in) || c.recordsFail(in)
		},
		event: func(in ssa.Instruction, st string) []tsOutcome {
			pf := strings.TrimLeft(st, "0HB")
			base := strings.TrimSuffix(st, pf)
			switch {
			case isHTTPError(in):
				if base != "0" {
					return []tsOutcome{{st: "B" + pf, viol: "a second answer is started on a path that already answered"}}
				}
				return []tsOutcome{{st: "B" + pf}}
			case isWriteHeader(in):
				if base != "0" {
					return []tsOutcome{{st: "H" + pf, viol: "a second answer is started on a path that already answered"}}
				}
				return []tsOutcome{{st: "H" + pf}}
			case isRespWrite(in):
				if base == "B" {
					return []tsOutcome{{st: "B" + pf, viol: "a second body is written on a path that already answered"}}
				}
				return []tsOutcome{{st: "B" + pf}}
			case c.recordsFail(in):
				return []tsOutcome{{st: base + "f"}}
			}
			return nil
		},
		opaque: func(f *ssa.Function) bool {
			return f.Signature.Recv() != nil && typeBase(deref(f.Signature.Recv().Type())) == runnerType
		},
	})
	for _, m := range fdoMsgs {
		h := c.handler(m)
		if h == nil {
			continue
		}
		n := 0
		for _, e := range run.exits(h, "0") {
			n++
			switch e.st {
			case "0":
				run.violate(h, e.pos, "the handler returns without answering")
			case "H", "Hf":
				run.violate(h, e.pos, "the handler returns after sending headers without a body")
			}
		}
		c.ob("one answer", "handler of message "+itoa(m)+" ends answered", n > 0, h.Pos(), "%d distinct exit states", n)
		// what is answered
		k := 0
		for _, e := range c.A.effects(h, func(in ssa.Instruction) bool { return isWriteHeader(in) }, nil) {
			if contradictory(e.Facts) {
				continue
			}
			k++
			where := fmt.Sprintf("handler of message %d: answer started in %s via %s", m, fnShort(e.Fn), strings.Join(shortKeys(e.Chain), " > "))
			status, lo, hi := e.Args[1], 999, 0
			for _, x := range alts(status) {
				if n, ok := statusOf(x); ok {
					lo, hi = min(lo, n), max(hi, n)
				} else {
					lo = 0
				}
			}
			switch {
			case lo >= 400 && hi < 600:
				c.ob("error answer type", where, c.headerIs(e, "Message-Type", "255") && c.headerIs(e, "Content-Type", "application/cbor"), e.Instr.Pos(), "an error status goes out with Message-Type 255 and Content-Type application/cbor")
			case lo == 200 && hi == 200:
				c.ob("success answer type", where, c.headerIs(e, "Message-Type", strconv.Itoa(m+1)) && c.headerIs(e, "Content-Type", "application/cbor"), e.Instr.Pos(), "status 200 goes out with Message-Type %d and Content-Type application/cbor", m+1)
				c.guardPost(m, e)
			default:
				c.ob("answer status", where, false, e.Instr.Pos(), "status %s is neither 200 nor an error status", trunc(status.String()))
			}
		}
		if k < 2 {
			c.missing("answers of the handler of message " + itoa(m))
		}
		nm := 0
		for _, e := range c.A.effects(h, isHeaderSet, nil) {
			if contradictory(e.Facts) || !c.A.is(e.Args[1], K("Message-Type")) {
				continue
			}
			nm++
			v := c.msgNum(e.Args[2])
			c.ob("message type set", fmt.Sprintf("handler of message %d: header set in %s", m, fnShort(e.Fn)), v == strconv.Itoa(m+1) || v == "255", e.Instr.Pos(), "Message-Type is %s", v)
		}
		// error bodies are protocol errors
		for _, e := range c.A.effects(h, isRespWrite, nil) {
			if contradictory(e.Facts) {
				continue
			}
			st := ""
			for _, f := range e.Facts.m {
				if f.Kind == "called" && f.A.Op == "call" && f.A.Name == "invoke.ResponseWriter.WriteHeader" && len(f.A.Args) == 2 {
					if n, ok := statusOf(f.A.Args[1]); ok && n >= 400 {
						st = "err"
					}
				}
			}
			if st == "err" {
				c.prov("error body", fmt.Sprintf("handler of message %d: %s", m, fnShort(e.Fn)), e.Instr.Pos(), e.Args[1], Marshal(Val("FdoError.EMPrevMsgID", K(itoa(m)))), "the body of an error answer is an encoded protocol error naming this message")
			}
		}
	}
	for _, v := range run.violations() {
		c.ob("one answer", fnShort(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
	c.samp = append(c.samp, fmt.Sprintf("typestate: %d functions, %d block visits", len(run.fns), run.steps))
	c.assume("a handler that ends by panicking is C14's subject; a request body or answer writer that fails mid-write is the transport's")
}

func isHeaderSet(in ssa.Instruction) bool {
	return calleeIs(in, "net/http.(Header).Set", "net/http.(Header).Add")
}

// msgNum: the number a Message-Type header value carries.
func (c *Ctx) msgNum(t *Term) string {
	got := "?"
	c.A.is(t, func(a *Analyzer, x *Term) bool {
		if k := constOfTerm(x); k != nil {
			got = strings.Trim(k.ExactString(), `"`)
			return true
		}
		if x.Op == "call" && strings.HasSuffix(x.Name, ".(FdoCmd).ToString") && len(x.Args) == 1 {
			if k := constOfTerm(a.constOfOr(x.Args[0])); k != nil {
				got = k.ExactString()
				return true
			}
		}
		return false
	})
	return got
}

func (a *Analyzer) constOfOr(t *Term) *Term {
	if k := a.constOf(t); k != nil {
		return k
	}
	return t
}

// headerIs: on every path to the effect the header was set to the value, and to nothing else.
func (c *Ctx) headerIs(e *Effect, name, val string) bool {
	ok := false
	for _, f := range e.Facts.m {
		if f.Kind != "called" || f.A.Op != "call" || f.A.Name != "net/http.(Header).Set" && f.A.Name != "net/http.(Header).Add" || len(f.A.Args) != 3 {
			continue
		}
		if !c.A.is(f.A.Args[1], K(name)) {
			continue
		}
		var good bool
		if name == "Message-Type" {
			good = c.msgNum(f.A.Args[2]) == val
		} else {
			good = c.A.is(f.A.Args[2], K(val))
		}
		if !good {
			return false
		}
		ok = true
	}
	return ok
}

// guardPost: a success answer is given only to POST requests carrying CBOR.
func (c *Ctx) guardPost(m int, e *Effect) {
	c.guard("request headers", fmt.Sprintf("success answer of message %d", m), e, []Req{
		{Name: "method is POST", Kind: "eq", A: Fld("Request.Method", nil), B: K("POST")},
		{Name: "content type is CBOR", Kind: "eq", A: Res("net/http.(Header).Get", 0, Fld("Request.Header", nil), K("Content-Type")), B: K("application/cbor")},
	})
}

func c16(c *Ctx) {
	slot := func(m int) string {
		switch {
		case m < 30:
			return "To0"
		case m < 60:
			return "To1"
		}
		return "To2"
	}
	for _, m := range fdoMsgs {
		h := c.handler(m)
		if h == nil {
			continue
		}
		n := 0
		for _, e := range c.A.effects(h, func(in ssa.Instruction) bool { return calleeIs(in, "core/shared.NewFdoError") }, nil) {
			if contradictory(e.Facts) {
				continue
			}
			n++
			got := "?"
			if k := constOfTerm(c.A.constOfOr(e.Args[1])); k != nil {
				got = k.ExactString()
			}
			c.ob("error names the message", fmt.Sprintf("handler of message %d: protocol error built via %s", m, strings.Join(shortKeys(e.Chain), " > ")), got == itoa(m), e.Instr.Pos(), "the error names message %s", got)
		}
		if n == 0 {
			c.missing("protocol errors of the handler of message " + itoa(m))
		}
		for _, e := range c.A.effects(h, func(in ssa.Instruction) bool {
			g := runnerCall(in)
			return g != nil && len(c.A.mods(g, 0)) > 0
		}, func(f *ssa.Function) bool {
			return f.Signature.Recv() != nil && typeBase(deref(f.Signature.Recv().Type())) == runnerType
		}) {
			if contradictory(e.Facts) {
				continue
			}
			r := e.Args[0]
			ok := c.A.is(r, Fld("RequestListenerInst."+slot(m), nil))
			if _, path, _ := splitAddr(e.Instr.(ssa.CallInstruction).Common().Args[0]); len(path) > 0 {
				ok = strings.HasSuffix("."+path[len(path)-1], "."+slot(m))
			}
			c.ob("conformance record", fmt.Sprintf("handler of message %d: %s via %s", m, fnShort(runnerCall(e.Instr)), strings.Join(shortKeys(e.Chain), " > ")), ok, e.Instr.Pos(), "the record goes to %s", trunc(r.String()))
		}
	}
	// one handler per message, no two messages share one
	seen := map[*ssa.Function]string{}
	for _, r := range c.routes() {
		if !strings.HasPrefix(r.Pattern, "/fdo/101/msg/") {
			continue
		}
		if r.Handler == nil {
			c.ob("routes", r.Pattern, false, r.Pos, "handler not resolved")
			continue
		}
		prev := seen[r.Handler]
		c.ob("routes", r.Pattern, prev == "" || prev == r.Pattern, r.Pos, "served by %s%s", fnShort(r.Handler), map[bool]string{true: " which also serves " + prev, false: ""}[prev != ""])
		seen[r.Handler] = r.Pattern
	}
	// the error structure keeps the number it is given
	f := c.P.fn("core/shared.NewFdoError")
	if f == nil {
		c.missing("core/shared.NewFdoError")
		return
	}
	t := c.A.okResult(f, 0)
	for i, fl := range []string{"FdoError.EMErrorCode", "FdoError.EMPrevMsgID", "FdoError.EMErrorStr"} {
		c.ob("error structure", fl, t != nil && c.A.is(t, Val(fl, Same(paramOfTerm(f, i)))), f.Pos(), "field holds argument %d", i)
	}
	c.min("error names the message", 60)
	c.min("conformance record", 40)
}

func c20(c *Ctx) {
	success := c.successStarts()
	changes := func(in ssa.Instruction) bool {
		if g := runnerCall(in); g != nil {
			return len(c.A.mods(g, 0)) > 0
		}
		if st, ok := in.(*ssa.Store); ok {
			b, p, _ := splitAddr(st.Addr)
			if len(p) > 0 && b != nil {
				tn := typeBase(deref(b.Type()))
				return tn == runnerType && !isRunnerMethod(in.Parent()) || tn == "RequestListenerInst" && strings.HasPrefix(p[0], "To")
			}
		}
		return false
	}
	saves := func(in ssa.Instruction) bool {
		return calleeIs(in, "core/shared/testcom/dbs.(ListenerTestDB).Update", "core/shared/testcom/dbs.(ListenerTestDB).Save")
	}
	run := c.A.newTS(&tsRule{
		name:    "C20",
		isEvent: func(in ssa.Instruction) bool { return changes(in) || saves(in) || isWriteHeader(in) },
		event: func(in ssa.Instruction, st string) []tsOutcome {
			switch {
			case changes(in):
				if st == "E" {
					return []tsOutcome{{st: "E"}}
				}
				return []tsOutcome{{st: "D"}}
			case saves(in):
				if st != "D" {
					return []tsOutcome{{st: st, res: map[int]int8{0: clNil}}, {st: "F" + strings.TrimPrefix(st, "F"), res: map[int]int8{0: clNon}}}
				}
				return []tsOutcome{{st: "C", res: map[int]int8{0: clNil}}, {st: "FD", res: map[int]int8{0: clNon}}}
			case isWriteHeader(in):
				if success[in] {
					switch {
					case strings.HasPrefix(st, "F"):
						return []tsOutcome{{st: "S", viol: "a success answer is sent although storing the test state failed"}}
					case st == "D":
						return []tsOutcome{{st: "S", viol: "a success answer is sent before the changed test state was stored"}}
					}
					return []tsOutcome{{st: "S"}}
				}
				return []tsOutcome{{st: "E"}}
			}
			return nil
		},
		opaque: func(f *ssa.Function) bool {
			return isRunnerMethod(f) || fnKey(f) == "core/shared/testcom/dbs.(ListenerTestDB).Update" || fnKey(f) == "core/shared/testcom/dbs.(ListenerTestDB).Save"
		},
	})
	for _, m := range []int{30, 32, 60, 62, 64, 66, 68, 70} {
		h := c.handler(m)
		if h == nil {
			continue
		}
		n := 0
		for _, e := range run.exits(h, "C") {
			n++
			if e.st == "D" || strings.HasPrefix(e.st, "F") {
				run.violate(h, e.pos, "the handler ends with changed test state not stored and no error answered")
			}
		}
		nc := 0
		for _, e := range c.A.effects(h, func(in ssa.Instruction) bool { return saves(in) }, nil) {
			if contradictory(e.Facts) {
				continue
			}
			nc++
			c.prov("stored listener", fmt.Sprintf("handler of message %d: store via %s", m, strings.Join(shortKeys(e.Chain), " > ")), e.Instr.Pos(), e.Args[1], Res("core/shared/testcom/dbs.(ListenerTestDB).GetEntryByFdoGuid", 0), "the listener whose state changed is the one stored")
		}
		if nc == 0 {
			c.missing("stores of listener test state in the handler of message " + itoa(m))
		}
		c.ob("stored before answer", "handler of message "+itoa(m), n > 0, h.Pos(), "%d exit states, %d stores", n, nc)
	}
	for _, v := range run.violations() {
		c.ob("stored before answer", fnShort(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
	c.samp = append(c.samp, fmt.Sprintf("typestate: %d functions, %d block visits", len(run.fns), run.steps))
	c.assume("a result recorded together with an error answer is reported on that answer's path; its loss is C36's subject")
}

func isRunnerMethod(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && typeBase(deref(f.Signature.Recv().Type())) == runnerType
}

func c21(c *Ctx) {
	const db = "core/shared/testcom/dbs.(RequestTestDB)."
	is := func(in ssa.Instruction, n string) bool { return calleeIs(in, db+n) }
	run := c.A.newTS(&tsRule{
		name: "C21",
		isEvent: func(in ssa.Instruction) bool {
			return is(in, "StartNewRun") || is(in, "FinishRun") || is(in, "ReportTest")
		},
		event: func(in ssa.Instruction, st string) []tsOutcome {
			switch {
			case is(in, "StartNewRun"):
				if st == "open" {
					return []tsOutcome{{st: "open", viol: "a run is started while one is open"}}
				}
				return []tsOutcome{{st: "open"}}
			case is(in, "FinishRun"):
				if st != "open" {
					return []tsOutcome{{st: "closed", viol: "a run is closed that is not open"}}
				}
				return []tsOutcome{{st: "closed"}}
			case is(in, "ReportTest"):
				if st != "open" {
					return []tsOutcome{{st: st, viol: "a result is reported outside an open run"}}
				}
				return []tsOutcome{{st: st}}
			}
			return nil
		},
		opaque: func(f *ssa.Function) bool { return strings.HasPrefix(fnKey(f), db) },
	})
	// entries: functions that contain or reach a start and are not called from another such function
	entries := 0
	for _, f := range c.P.Funcs {
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				direct = direct || is(in, "StartNewRun")
			}
		}
		if !direct {
			continue
		}
		entries++
		n := 0
		for _, e := range run.exits(f, "none") {
			n++
			if e.st == "open" {
				run.violate(f, e.pos, "the executor returns with the run still open")
			}
		}
		c.ob("run closed", fnShort(f), n > 0, f.Pos(), "%d exit states", n)
		for _, k := range []string{"StartNewRun", "FinishRun", "ReportTest"} {
			for _, e := range c.A.effects(f, func(in ssa.Instruction) bool { return is(in, k) }, nil) {
				c.prov("run identity", fnShort(f)+": "+k+" in "+fnShort(e.Fn), e.Instr.Pos(), e.Args[1], Fld("RequestTestInst.Uuid", Same(c.paramByType(f, "RequestTestInst"))), "the run is the one the executor was given")
			}
		}
	}
	if entries < 3 {
		c.missing(fmt.Sprintf("conformance executors (found %d)", entries))
	}
	// every report lies within an executor
	reports := 0
	for _, ci := range c.allCallSites(db+"ReportTest", db+"FinishRun") {
		reports++
		ok := false
		for f := range run.fns {
			ok = ok || f == ci.Parent()
		}
		c.ob("reports inside a run", fnShort(ci.Parent()), ok, ci.Pos(), "reached from an executor that opened a run")
	}
	for _, v := range run.violations() {
		c.ob("run closed", fnShort(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
	c.samp = append(c.samp, fmt.Sprintf("typestate: %d functions, %d block visits", len(run.fns), run.steps))
	c.min("reports inside a run", 20)
	// what the operations do
	for _, s := range []struct{ fn, val string }{{"StartNewRun", "true"}, {"FinishRun", "false"}} {
		f := c.P.fn(db + s.fn)
		if f == nil {
			c.missing(db + s.fn)
			continue
		}
		k := 0
		for _, e := range c.callsTo(f, db+"Save") {
			k++
			c.prov("run marker", s.fn, e.Instr.Pos(), e.Args[1], Val("RequestTestInst.InProgress", K(s.val)), "the stored entry's in-progress mark is "+s.val)
		}
		if k == 0 {
			c.missing("store in " + s.fn)
		}
	}
	c.assume("panics are C14's subject")
}

func (c *Ctx) paramByType(f *ssa.Function, tn string) *Term {
	for i, p := range f.Params {
		if typeBase(deref(p.Type())) == tn {
			return paramOfTerm(f, i)
		}
	}
	return mk("const", "no such parameter", types.Typ[types.Int])
}

func viaText(v tsViol) string {
	if v.via == "" {
		return ""
	}
	return ", called from " + v.via
}
