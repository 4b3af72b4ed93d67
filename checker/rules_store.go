package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C25", "path-sensitive transaction typestate over every function that opens a database transaction; agreement of the key terms, record types and identifiers of all writers, readers and removers of every store.", c25)
	reg("C24", "constant evaluation of the expiry of every session record written, provenance of session identifiers and tokens, success summaries of session lookups.", c24)
	reg("C37", "prefix and key provenance of the deletions of each reset command, loop coverage, transaction typestate, use of the result.", c37)
}

var (
	bdgWrites = []string{bdg + ".(Txn).Set", bdg + ".(Txn).SetEntry", bdg + ".(Txn).Delete"}
)

type storeOp struct {
	Method *ssa.Function // DB method the operation is reached from
	Eff    *Effect
	Kind   string // set, get, delete
	Key    *Term
	Val    *Term
	TTL    *Term
	Pre    string
	Rest   []*Term
	Owner  string
}

// storeOps: every badger operation, seen from the database type's method that performs it.
func (c *Ctx) storeOps() []*storeOp {
	pred := func(in ssa.Instruction) bool {
		return calleeIs(in, append([]string{bdg + ".(Txn).Get"}, bdgWrites...)...)
	}
	var out []*storeOp
	for _, f := range c.P.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Parent() != nil {
			continue
		}
		n, _ := deref(r.Type()).(*types.Named)
		if n == nil || !holdsDB(n) || c.A.isHelper(f) && len(c.sitesOf(f)) > 0 {
			continue
		}
		for _, e := range c.A.effects(f, pred, func(g *ssa.Function) bool {
			// other methods of database types are judged on their own, helpers that return no error are entered
			gr := g.Signature.Recv()
			return gr != nil && !c.A.isHelper(g) && errResult(g) >= 0 && func() bool {
				m, _ := deref(gr.Type()).(*types.Named)
				return m != nil && holdsDB(m) && c.opensTxn(g, 0)
			}()
		}) {
			op := &storeOp{Method: f, Eff: e, Owner: typeQual(n)}
			switch {
			case calleeIs(e.Instr, bdg+".(Txn).Get"):
				op.Kind, op.Key = "get", e.Args[1]
			case calleeIs(e.Instr, bdg+".(Txn).Delete"):
				op.Kind, op.Key = "delete", e.Args[1]
			default:
				ent := c.badgerEntry(e)
				op.Kind, op.Key, op.Val, op.TTL = "set", ent.Key, ent.Val, ent.TTL
			}
			parts := flatConcat(c.A, op.Key, 0)
			for i, p := range parts {
				if k := c.recvFieldConst(n, p); k != nil {
					parts[i] = k
				}
			}
			for i, p := range parts {
				if p.Op != "const" {
					op.Rest = parts[i:]
					break
				}
				op.Pre += p.Name
			}
			out = append(out, op)
		}
	}
	return out
}

func typeQual(n *types.Named) string { return pkgQual(n.Obj().Pkg()) + "." + n.Obj().Name() }

// holdsDB: the type is a struct with a badger handle.
func holdsDB(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "*"+bdg+".DB" {
			return true
		}
	}
	return false
}

func opensTxn(f *ssa.Function) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		found = found || calleeIs(in, bdg+".(DB).NewTransaction", bdg+".(DB).Update", bdg+".(DB).View")
	})
	return found
}

// opensTxn: in f itself, or in a helper it calls.
func (c *Ctx) opensTxn(f *ssa.Function, depth int) bool {
	found := opensTxn(f)
	eachInstr(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok && !found && depth < 3 {
			g := ci.Common().StaticCallee()
			found = g != nil && inRepo(g) && c.A.isHelper(g) && c.opensTxn(g, depth+1)
		}
	})
	return found
}

// recvFieldConst: t is a field of the database type that every construction of that type sets to the same constant.
func (c *Ctx) recvFieldConst(n *types.Named, t *Term) *Term {
	if t.Op != "field" {
		return nil
	}
	st := n.Underlying().(*types.Struct)
	idx := -1
	for i := 0; i < st.NumFields(); i++ {
		if n.Obj().Name()+"."+st.Field(i).Name() == t.Name {
			idx = i
		}
	}
	if idx < 0 {
		return nil
	}
	var got *Term
	for _, f := range c.P.Funcs {
		bad := false
		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fa.Field != idx || !types.Identical(deref(fa.X.Type()), n) {
				return
			}
			v := c.A.at(s.Val, s)
			if v.Op != "const" || got != nil && got.Name != v.Name {
				bad = true
				return
			}
			got = v
		})
		if bad {
			return nil
		}
	}
	return got
}

func c25(c *Ctx) {
	c.txnTypestate(nil)
	ops := c.storeOps()
	byPre := map[string][]*storeOp{}
	for _, o := range ops {
		where := fmt.Sprintf("%s %s in %s", o.Owner, o.Kind, fnShort(o.Method))
		if o.Pre == "" && o.Kind == "delete" && c.isIterKey(o.Key) {
			continue // C37
		}
		c.ob("key has a constant prefix", where, strings.HasSuffix(o.Pre, "-") || o.Pre != "" && len(o.Rest) == 0, o.Eff.Instr.Pos(), "prefix %q", o.Pre)
		byPre[o.Pre] = append(byPre[o.Pre], o)
	}
	pres := sortedKeys(byPre)
	// no prefix is shared or nested across kinds of record
	for i, p := range pres {
		owners := map[string]bool{}
		for _, o := range byPre[p] {
			owners[o.Owner] = true
		}
		names := sortedKeys(owners)
		if len(owners) > 1 {
			c.ob("prefix used by one store", p, strings.HasPrefix(p, "session-"), byPre[p][0].Eff.Instr.Pos(), "used by %s", strings.Join(names, ", "))
			lens := map[int]string{}
			for _, n := range names {
				k := -1
				for _, o := range byPre[p] {
					if o.Owner == n && o.Kind == "set" {
						k = arrayLen(c.recordType(o.Val))
					}
				}
				_, dup := lens[k]
				c.ob("records under a shared prefix differ in shape", p+" "+n, k > 0 && !dup, byPre[p][0].Eff.Instr.Pos(), "encoded as an array of %d fields, so another store's record does not decode as this one", k)
				lens[k] = n
			}
		} else {
			c.ob("prefix used by one store", p, true, byPre[p][0].Eff.Instr.Pos(), "used by %s", strings.Join(names, ", "))
		}
		for _, q := range pres[i+1:] {
			if strings.HasPrefix(q, p) || strings.HasPrefix(p, q) {
				same := byPre[q][0].Owner == byPre[p][0].Owner
				c.ob("prefixes do not nest", p+" / "+q, same, byPre[q][0].Eff.Instr.Pos(), "both belong to %s", byPre[p][0].Owner)
			}
		}
	}
	// reader, writer and remover agree
	for _, p := range pres {
		for _, owner := range ownersOf(byPre[p]) {
			tmpl, rec := "", ""
			var ws, rs int
			for _, o := range byPre[p] {
				if o.Owner != owner || o.Kind != "set" {
					continue
				}
				ws++
				t := keyShape(o.Rest)
				if tmpl == "" {
					tmpl = t
				}
				rt := typeName(c.recordType(o.Val))
				if rec == "" {
					rec = rt
				}
				c.ob("writers agree", owner+" "+fnShort(o.Method), t == tmpl && rt == rec, o.Eff.Instr.Pos(), "key %q + %s, record %s", p, t, rt)
				c.ob("the record stored is the one given", owner+" "+fnShort(o.Method), c.storesParam(o), o.Eff.Instr.Pos(), "value %s", trunc(o.Val.String()))
				if ok, why := c.keyOfRecord(o); true {
					c.ob("the record is stored under its own identifier", owner+" "+fnShort(o.Method), ok, o.Eff.Instr.Pos(), "%s", why)
				}
			}
			for _, o := range byPre[p] {
				if o.Owner != owner || o.Kind == "set" {
					continue
				}
				rs++
				c.ob("reader and remover use the writer's key", owner+" "+fnShort(o.Method), keyShape(o.Rest) == tmpl && c.keyFromParam(o), o.Eff.Instr.Pos(), "key %q + %s", p, keyShape(o.Rest))
				if o.Kind == "get" {
					c.readerReturns(o, rec)
				}
			}
			if ws == 0 {
				c.ob("writers agree", owner+" "+p, false, byPre[p][0].Eff.Instr.Pos(), "records are read or removed here but nothing writes them")
			}
		}
	}
	c.min("writers agree", 14)
	c.min("reader and remover use the writer's key", 14)
	c.min("transaction", 30)
	c.assume("badger commits atomically and durably when Commit returns nil; a full disk or crash inside badger is badger's to handle")
}

func ownersOf(ops []*storeOp) []string {
	m := map[string]bool{}
	for _, o := range ops {
		m[o.Owner] = true
	}
	return sortedKeys(m)
}

// recordType: the type of the record encoded into a stored value; nil if the bytes are stored as they are.
func (c *Ctx) recordType(v *Term) types.Type {
	var out types.Type
	c.A.is(v, func(a *Analyzer, t *Term) bool {
		if t.Op == "call" && strings.HasSuffix(t.Name, ".(CBOR_CUSTOM_TAGS).Marshal") && len(t.Args) == 2 {
			out = t.Args[1].T
			if out != nil {
				if p, ok := out.(*types.Pointer); ok {
					out = p.Elem()
				}
			}
			return true
		}
		return false
	})
	return out
}

func typeName(t types.Type) string {
	if t == nil {
		return "raw bytes"
	}
	return t.String()
}

// arrayLen: number of elements of the CBOR array a struct type encodes to; -1 if it is not encoded as an array.
func arrayLen(t types.Type) int {
	if t == nil {
		return -1
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 || !strings.Contains(st.Tag(0), "toarray") {
		return -1
	}
	n := 0
	for i := 1; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			n++
		}
	}
	return n
}

// keyShape: the identifier part of a key with every source value abstracted.
func keyShape(rest []*Term) string {
	var out []string
	for _, t := range rest {
		s := "id"
		if hasCall(t, "strings.ToLower") {
			s = "lower-case id"
		} else if hasCall(t, "strings.ToUpper") || hasCall(t, "strings.TrimSpace") || hasCall(t, "encoding/hex.EncodeToString") {
			s = "transformed id"
		}
		if t.Op == "const" {
			s = t.Name
		}
		out = append(out, s)
	}
	return strings.Join(out, "+")
}

func hasCall(t *Term, name string) bool {
	if t.Op == "call" && t.Name == name {
		return true
	}
	for _, a := range t.Args {
		if hasCall(a, name) {
			return true
		}
	}
	return false
}

// usesCall: as hasCall, seeing through the program's own functions.
func (c *Ctx) usesCall(t *Term, name string) bool {
	return c.A.hasSub(t, func(a *Analyzer, x *Term) bool { return x.Op == "call" && x.Name == name }, 0)
}

// rootParam: the parameter a term is taken from (fields, conversions and case folding only); "" if none.
func (c *Ctx) rootParam(t *Term) (*Term, []string) {
	var path []string
	for i := 0; i < 12 && t != nil; i++ {
		switch t.Op {
		case "param":
			return t, path
		case "field":
			path = append([]string{t.Name}, path...)
			t = t.Args[0]
			continue
		case "conv":
			t = t.Args[0]
			continue
		case "call":
			if t.Name == "strings.ToLower" && len(t.Args) == 1 {
				t = t.Args[0]
				continue
			}
		}
		x := c.A.expand(t)
		if x == nil || x.Key() == t.Key() {
			return nil, nil
		}
		t = x
	}
	return nil, nil
}

func (c *Ctx) storesParam(o *storeOp) bool {
	v := o.Val
	c.A.is(v, func(a *Analyzer, t *Term) bool {
		if t.Op == "call" && strings.HasSuffix(t.Name, ".(CBOR_CUSTOM_TAGS).Marshal") && len(t.Args) == 2 {
			v = t.Args[1]
			return true
		}
		return false
	})
	p, path := c.rootParam(v)
	return p != nil && len(path) == 0
}

func (c *Ctx) keyFromParam(o *storeOp) bool {
	for _, r := range o.Rest {
		if p, path := c.rootParam(r); p == nil || len(path) != 0 {
			return false
		}
	}
	return true
}

// identifier field of each kind of record
var recordID = map[string]string{
	"voucher-":      "OwnershipVoucherHeader.OVGuid",
	"lstdb-":        "RequestListenerInst.Uuid",
	"rvte-":         "RequestTestInst.Uuid",
	"devbasecreds-": "WawDeviceCredential.DCGuid",
	"usere-":        "UserTestDBEntry.Email",
}

// keyOfRecord: the identifier in the key is the caller's identifier parameter, the record's own identifier, or a fresh random one that is returned.
func (c *Ctx) keyOfRecord(o *storeOp) (bool, string) {
	if len(o.Rest) == 0 {
		return true, "single record"
	}
	if len(o.Rest) != 1 {
		return false, "key has several variable parts"
	}
	id := o.Rest[0]
	if c.A.is(id, Res("github.com/google/uuid.(UUID).String", 0, Res("github.com/google/uuid.NewRandom", 0))) {
		res := c.nonNilResult(o.Method, 0)
		return c.A.is(res, Has(Res("github.com/google/uuid.(UUID).String", 0, Same(id.Args[0])))) || c.mayReturn(o.Method, id), "a fresh random identifier, which is returned"
	}
	if want := recordID[o.Pre]; want != "" && id.Op == "field" {
		ok := c.A.is(id, func(a *Analyzer, t *Term) bool { return t.Op == "field" && t.Name == want })
		return ok, "the record's " + want
	}
	if want := recordID[o.Pre]; want != "" && hasCall(id, "strings.ToLower") {
		return c.A.is(id.Args[0], Fld(want, nil)), "the record's " + want
	}
	p, path := c.rootParam(id)
	if p == nil || len(path) != 0 {
		return false, "identifier " + trunc(id.String())
	}
	return true, "the identifier the caller names"
}

// mayReturn: a successful return hands out the identifier.
func (c *Ctx) mayReturn(f *ssa.Function, id *Term) bool {
	k := errResult(f)
	ok, n := true, 0
	eachInstr(f, func(in ssa.Instruction) {
		r, isRet := in.(*ssa.Return)
		if !isRet || k >= 0 && !isNilConst(stripIface(r.Results[k])) {
			return
		}
		n++
		if !c.A.hasSub(c.A.at(r.Results[0], r), Same(id), 0) {
			ok = false
		}
	})
	return ok && n > 0
}

func (c *Ctx) readerReturns(o *storeOp, rec string) {
	k := errResult(o.Method)
	where := o.Owner + " " + fnShort(o.Method)
	if k < 0 {
		c.ob("an unknown record is an error", where, false, o.Method.Pos(), "the reader returns no error")
		return
	}
	c.summaryHas("an unknown record is an error", o.Method, k, "nil", []Req{
		{Name: where + ": record found", Kind: "nil", A: Res(bdg+".(Txn).Get", 1)},
		{Name: where + ": value read", Kind: "nil", A: Res(bdg+".(Item).ValueCopy", 1, Res(bdg+".(Txn).Get", 0))},
	})
	if rec == "raw bytes" {
		c.prov("the record read is the one stored", where, o.Method.Pos(), c.nonNilResult(o.Method, 0), Res(bdg+".(Item).ValueCopy", 0, Res(bdg+".(Txn).Get", 0)), "the stored bytes")
		return
	}
	n := 0
	for _, e := range c.callsTo(o.Method, "core/shared.(CBOR_CUSTOM_TAGS).Unmarshal") {
		if !c.A.is(e.Args[1], Has(Res(bdg+".(Txn).Get", 0))) || e.Fn != o.Method && opensTxn(e.Fn) && e.Fn != o.Eff.Fn {
			continue
		}
		n++
		t := e.Instr.(ssa.CallInstruction).Common().Args[2]
		if mi, ok := t.(*ssa.MakeInterface); ok {
			t = mi.X
		}
		got := deref(t.Type()).String()
		c.ob("the record read is the one stored", where, got == rec, e.Instr.Pos(), "decoded as %s, written as %s", got, rec)
		c.summaryHas("an unknown record is an error", o.Method, k, "nil", []Req{{Name: where + ": record decoded", Kind: "nil", A: Res("core/shared.(CBOR_CUSTOM_TAGS).Unmarshal", 0, nil, Has(Res(bdg+".(Txn).Get", 0)))}})
	}
	if n == 0 {
		c.ob("the record read is the one stored", where, false, o.Method.Pos(), "no decoding of the stored bytes")
	}
}

func (c *Ctx) isIterKey(t *Term) bool {
	return c.usesCall(t, bdg+".(Item).Key") || c.usesCall(t, bdg+".(Item).KeyCopy")
}

// txnTypestate: transactions are committed before success is reported, and released on every exit.
func (c *Ctx) txnTypestate(only func(f *ssa.Function) bool) {
	is := func(in ssa.Instruction, n ...string) bool {
		for i := range n {
			n[i] = bdg + "." + n[i]
		}
		return calleeIs(in, n...)
	}
	ev := func(in ssa.Instruction) bool {
		return is(in, "(DB).NewTransaction", "(Txn).Set", "(Txn).SetEntry", "(Txn).Delete", "(Txn).Commit", "(Txn).Discard", "(Txn).NewIterator", "(Iterator).Close", "(DB).Update")
	}
	run := c.A.newTS(&tsRule{
		name:    "C25",
		isEvent: ev,
		opaque:  func(f *ssa.Function) bool { return opensTxn(f) },
		event: func(in ssa.Instruction, st string) []tsOutcome {
			if !ev(in) {
				return nil
			}
			t, w, it := st[0:1], st[1:2], st[2:3]
			ok, bad := map[int]int8{0: clNil}, map[int]int8{0: clNon}
			switch {
			case is(in, "(DB).NewTransaction"):
				return []tsOutcome{{st: "o0" + it}}
			case is(in, "(DB).Update"):
				if w == "F" {
					return []tsOutcome{{st: st, res: ok}, {st: st, res: bad}}
				}
				return []tsOutcome{{st: t + "C" + it, res: ok}, {st: t + "F" + it, res: bad}}
			case is(in, "(Txn).Set", "(Txn).SetEntry", "(Txn).Delete"):
				nw := "W"
				if w == "F" {
					nw = "F"
				}
				v := ""
				if w == "C" {
					v = "a write is attempted on a transaction that was already committed"
				}
				return []tsOutcome{{st: t + nw + it, res: ok, viol: v}, {st: t + "F" + it, res: bad}}
			case is(in, "(Txn).Commit"):
				v := ""
				if it == "i" {
					v = "the transaction is committed while an iterator is open, which panics"
				}
				nw := "C"
				if w == "F" {
					nw = "F"
				}
				return []tsOutcome{{st: t + nw + it, res: ok, viol: v}, {st: t + "F" + it, res: bad}}
			case is(in, "(Txn).Discard"):
				v := ""
				if it == "i" {
					v = "the transaction is released while an iterator is open, which panics"
				}
				return []tsOutcome{{st: "c" + w + it, viol: v}}
			case is(in, "(Txn).NewIterator"):
				return []tsOutcome{{st: t + w + "i"}}
			case is(in, "(Iterator).Close"):
				return []tsOutcome{{st: t + w + "0"}}
			}
			return nil
		},
	})
	n := 0
	for _, f := range c.P.Funcs {
		if !opensTxn(f) || only != nil && !only(f) {
			continue
		}
		n++
		k := errResult(f)
		for _, e := range run.exits(f, "-00") {
			if e.st[0:1] == "o" {
				run.violate(f, e.pos, "the function returns without releasing its transaction")
			}
			if e.st[2:3] == "i" {
				run.violate(f, e.pos, "the function returns without closing its iterator")
			}
			if w := e.st[1:2]; w == "W" || w == "F" {
				var cl int8 = clNil
				if k >= 0 && e.res != nil {
					cl = e.res[k]
				}
				if cl != clNon {
					run.violate(f, e.pos, map[string]string{"W": "success is reported although what was written is not committed", "F": "success is reported although a write or the commit failed"}[w])
				}
			}
		}
		c.ob("transaction", fnKey(f), true, f.Pos(), "all exits examined")
		// transactions run by the database itself: the function passed in must report a failed write
		eachInstr(f, func(in ssa.Instruction) {
			if !is(in, "(DB).Update") {
				return
			}
			mc, _ := in.(ssa.CallInstruction).Common().Args[1].(*ssa.MakeClosure)
			if mc == nil {
				c.ob("transaction", fnKey(f)+": function run in a transaction", false, in.Pos(), "not resolved")
				return
			}
			g := mc.Fn.(*ssa.Function)
			for _, e := range run.exits(g, "o00") {
				if e.st[1:2] == "F" && (e.res == nil || e.res[0] != clNon) {
					run.violate(g, e.pos, "a failed write inside the transaction is not reported to it")
				}
			}
		})
	}
	for _, v := range run.violations() {
		c.ob("transaction", fnKey(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
	c.samp = append(c.samp, fmt.Sprintf("typestate: %d functions, %d block visits", len(run.fns), run.steps))
}

var sessionStores = map[string][]int{"core/rv": {20, 22, 30, 32}, "core/do/dbs": {60, 62, 64, 66, 68, 70}, "dbs": nil}

func c24(c *Ctx) {
	const newID = "github.com/google/uuid.NewRandom"
	fresh := Res("github.com/google/uuid.(UUID).String", 0, Res(newID, 0))
	ops := c.storeOps()
	for _, pkg := range sortedKeys(sessionStores) {
		owner := pkg + ".SessionDB"
		var sets, gets, news int
		for _, o := range ops {
			if o.Owner != owner {
				continue
			}
			where := owner + " " + fnShort(o.Method)
			switch o.Kind {
			case "set":
				sets++
				v := int64(0)
				if o.TTL == nil {
				} else if k := constOfTerm(o.TTL); k != nil {
					v, _ = constant.Int64Val(constant.ToInt(k))
				}
				c.ob("session record expires", where, v >= int64(time.Minute) && v <= int64(31*24*time.Hour), o.Eff.Instr.Pos(), "written with time to live %s", time.Duration(v))
				id := o.Rest
				if len(id) == 1 && c.A.is(id[0], fresh) {
					news++
					c.ob("identifier is a fresh random UUID", where, c.mayReturn(o.Method, id[0]), o.Eff.Instr.Pos(), "the returned identifier is the one in the key")
					c.guard("identifier is a fresh random UUID", where, o.Eff, []Req{{Name: "random source did not fail", Kind: "nil", A: Res(newID, 1)}})
				} else {
					p, path := c.rootParam(first(id))
					c.ob("identifier is a fresh random UUID", where, p != nil && len(path) == 0, o.Eff.Instr.Pos(), "updates the session the caller names")
				}
			case "get":
				gets++
				k := errResult(o.Method)
				c.summaryHas("unknown session is an error", o.Method, k, "nil", []Req{
					{Name: where + ": record found", Kind: "nil", A: Res(bdg+".(Txn).Get", 1)},
					{Name: where + ": record decoded", Kind: "nil", A: Res("core/shared.(CBOR_CUSTOM_TAGS).Unmarshal", 0, nil, Has(Res(bdg+".(Txn).Get", 0)))},
				})
			}
		}
		c.ob("session store complete", owner, sets > 0 && gets > 0 && news == 1, token.NoPos, "%d writers (%d creating), %d readers", sets, news, gets)
		if pkg == "dbs" {
			continue
		}
		// who updates what, and the token handed out
		isNew := Res(pkg+".(SessionDB).NewSessionEntry", 0)
		for _, m := range sessionStores[pkg] {
			h := c.handler(m)
			if h == nil {
				continue
			}
			for _, e := range c.callsTo(h, pkg+".(SessionDB).UpdateSessionEntry", pkg+".(SessionDB).GetSessionEntry", pkg+".(SessionDB).DeleteSessionEntry") {
				c.prov("only the presented session is touched", fmt.Sprintf("handler of message %d: %s", m, fnShort(e.Instr.(ssa.CallInstruction).Common().StaticCallee())), e.Instr.Pos(), e.Args[1], Or(bearer, isNew), "the presented or just created session")
			}
			opens := m == 20 || m == 30 || m == 60
			for _, e := range c.A.effects(h, isHeaderSet, nil) {
				if contradictory(e.Facts) || !c.A.is(e.Args[1], K("Authorization")) || !c.A.is(e.Args[0], Res("invoke.ResponseWriter.Header", 0)) {
					continue
				}
				want, what := Or(Res("core/shared.ExtractAuthorizationHeader", 2), Res("net/http.(Header).Get", 0, nil, K("Authorization"))), "the presented token"
				if opens {
					want, what = func(a *Analyzer, t *Term) bool {
						ps := flatConcat(a, t, 0)
						return len(ps) == 2 && ps[0].Op == "const" && ps[0].Name == "Bearer " && a.is(ps[1], isNew)
					}, "Bearer and the new session's identifier"
				}
				c.ob("token handed out", fmt.Sprintf("answer to message %d", m), c.A.is(e.Args[2], Or(want, K(""))) && c.A.may(e.Args[2], want), e.Instr.Pos(), "expected %s; Authorization is %s", what, trunc(e.Args[2].String()))
			}
			if opens {
				for _, e := range c.successAnswers(h) {
					if contradictory(e.Facts) {
						continue
					}
					ok := false
					for _, f := range e.Facts.m {
						if f.Kind == "called" && f.A.Op == "call" && strings.HasPrefix(f.A.Name, "net/http.(Header).") && len(f.A.Args) == 3 && c.A.is(f.A.Args[1], K("Authorization")) {
							ok = true
						}
					}
					c.ob("token handed out", fmt.Sprintf("answer to message %d carries it", m), ok, e.Instr.Pos(), "the header is set before the success answer starts")
				}
			}
		}
	}
	c.tokenSource("bearer token", "core/shared.ExtractAuthorizationHeader")
	c.min("session record expires", 6)
	c.min("token handed out", 10)
	c.assume("UUIDs come from crypto/rand; badger hides expired records")
}

func first(ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	return nil
}

// tokenSource: the session token comes from the request's Authorization header.
func (c *Ctx) tokenSource(rule, key string) {
	f := c.P.fn(key)
	if f == nil {
		c.missing(key)
		return
	}
	c.prov(rule, fnShort(f), f.Pos(), c.nonNilResult(f, 1), Has(Res("net/http.(Header).Get", 0, nil, K("Authorization"))), "the request's Authorization header")
}

// resets: command, store method, record owner and the kinds of record it announces.
var resets = []struct{ key, owner string }{
	{"dbs.(UserTestDB).ResetUsers", "dbs.UserTestDB"},
	{"core/shared/testcom/dbs.(ListenerTestDB).ResetDB", "core/shared/testcom/dbs.ListenerTestDB"},
}

func c37(c *Ctx) {
	ops := c.storeOps()
	known := map[*ssa.Function]bool{}
	for _, r := range resets {
		f := c.P.fn(r.key)
		if f == nil {
			c.missing(r.key)
			continue
		}
		known[f] = true
		c.resetFn(f, r.owner, ops)
		n := 0
		for _, ci := range c.allCallSites(r.key) {
			call, ok := ci.(*ssa.Call)
			n++
			c.ob("result reported", fnShort(f)+" called in "+fnKey(ci.Parent()), ok && c.resultReturned(call), ci.Pos(), "the command's result is the result of the reset")
		}
		if n == 0 {
			c.missing("a command calling " + r.key)
		}
	}
	for _, o := range ops {
		if o.Kind == "delete" && o.Pre == "" && c.isIterKey(o.Key) && !known[o.Method] {
			c.ob("only reset commands delete by iteration", o.Owner+" "+fnShort(o.Method), false, o.Eff.Instr.Pos(), "an iterated deletion outside the reset commands")
		}
	}
	c.txnTypestate(func(f *ssa.Function) bool {
		for g := range known {
			if f == g || c.A.reachSet("C37:"+fnKey(f), func(in ssa.Instruction) bool { return in.Parent() == f })[g] {
				return true
			}
		}
		return false
	})
	c.min("deletes exactly", 4)
	c.min("transaction", 2)
	c.assume("badger iterates every live key with the prefix in the transaction's snapshot")
}

// resultReturned: a call's error result is what the calling function returns.
func (c *Ctx) resultReturned(call *ssa.Call) bool {
	f := call.Parent()
	k := errResult(f)
	if k < 0 {
		return false
	}
	t := c.A.val(call)
	fs := c.A.summary(f, k, "nil")
	if fs != nil && c.A.holds(fs, "nil", Same(t), nil) != nil {
		return true
	}
	res := c.A.results(f, k)
	return res != nil && c.A.is(res, Same(t))
}

func (c *Ctx) resetFn(f *ssa.Function, owner string, ops []*storeOp) {
	a := c.A
	name := fnShort(f)
	// prefix iterated
	its := a.effects(f, func(in ssa.Instruction) bool { return calleeIs(in, bdg+".(Txn).NewIterator") }, nil)
	pre := ""
	for _, e := range its {
		o := e.Args[1]
		p := c.constBytes(f, fieldOf(o, "IteratorOptions.Prefix"))
		limited := p == ""
		if limited {
			// without the option the walk must start at the prefix and stop after it
			for _, s := range c.callsTo(f, bdg+".(Iterator).Seek") {
				p = c.constBytes(f, s.Args[1])
			}
			for _, v := range c.callsTo(f, bdg+".(Iterator).ValidForPrefix") {
				if q := c.constBytes(f, v.Args[1]); q != p {
					p = ""
				}
			}
			if len(c.callsTo(f, bdg+".(Iterator).ValidForPrefix")) == 0 || len(c.callsTo(f, bdg+".(Iterator).Rewind", bdg+".(Iterator).Valid")) != 0 {
				p = ""
			}
		} else {
			for _, s := range c.callsTo(f, bdg+".(Iterator).Seek", bdg+".(Iterator).ValidForPrefix") {
				if c.constBytes(f, s.Args[1]) != p {
					p = ""
				}
			}
		}
		c.ob("deletes exactly", name+": records with a constant prefix", p != "" && (pre == "" || pre == p), e.Instr.Pos(), "iterates keys starting with %q", p)
		rev := fieldOf(o, "IteratorOptions.Reverse")
		c.ob("deletes exactly", name+": forward iteration", rev == nil || a.is(rev, func(a *Analyzer, t *Term) bool { return t.Op == "zero" || isConstTerm(t, "false") }), e.Instr.Pos(), "a reverse iteration starts after the prefix's keys")
		since := fieldOf(o, "IteratorOptions.SinceTs")
		c.ob("deletes exactly", name+": iteration not limited in time", since == nil || a.is(since, func(a *Analyzer, t *Term) bool { return t.Op == "zero" || isConstTerm(t, "0") }), e.Instr.Pos(), "all versions' keys are visited")
		pre = p
	}
	drops := c.callsTo(f, bdg+".(DB).DropPrefix")
	for _, e := range drops {
		p := c.constBytes(f, e.Args[len(e.Args)-1])
		c.ob("deletes exactly", name+": records with a constant prefix", p != "", e.Instr.Pos(), "drops keys starting with %q", p)
		pre = p
	}
	if len(its)+len(drops) == 0 {
		c.ob("deletes exactly", name+": records with a constant prefix", false, f.Pos(), "nothing is iterated")
		return
	}
	covered, n := true, 0
	for _, o := range ops {
		if o.Kind != "set" {
			continue
		}
		in := strings.HasPrefix(o.Pre, pre)
		if o.Owner == owner {
			n++
			covered = covered && in
		} else if in || strings.HasPrefix(pre, o.Pre) {
			c.ob("deletes exactly", name+": no other records", false, f.Pos(), "records %q of %s share the prefix", o.Pre, o.Owner)
		}
	}
	c.ob("deletes exactly", name+": all announced records", covered && n > 0, f.Pos(), "every record written by %s starts with %q", owner, pre)
	if len(drops) > 0 {
		return
	}
	// every key visited is deleted
	del := 0
	for _, o := range ops {
		if o.Method != f || o.Kind != "delete" {
			continue
		}
		del++
		d := o.Eff.Instr
		c.ob("every key visited is deleted", name+": key copied from the iterator", c.usesCall(o.Key, bdg+".(Item).KeyCopy") && !c.usesCall(o.Key, bdg+".(Item).Key"), d.Pos(), "key %s", trunc(o.Key.String()))
		df := d.Parent()
		dl := innerLoop(df, d.Block())
		if dl == nil {
			c.ob("every key visited is deleted", name, false, d.Pos(), "the deletion is not in a loop")
			continue
		}
		c.ob("every key visited is deleted", name+": deletion in every iteration", everyIteration(dl, d.Block()) && c.noSkipIn(df, false), d.Pos(), "no iteration skips it and no exit leaves early with success")
		for _, g := range c.P.Funcs {
			eachInstr(g, func(in ssa.Instruction) {
				if !calleeIs(in, bdg+".(Item).KeyCopy") || g != df && !c.A.reachSet("C37kc:"+fnKey(g), func(x ssa.Instruction) bool { return x.Parent() == g })[f] {
					return
				}
				kl := innerLoop(g, in.Block())
				if kl == nil {
					c.ob("every key visited is deleted", name+": keys collected", false, in.Pos(), "not in a loop")
					return
				}
				c.ob("every key visited is deleted", name+": keys collected", everyIteration(kl, in.Block()) && c.noSkipIn(g, false), in.Pos(), "every visited key is kept")
				if kl.header != dl.header {
					c.ob("every key visited is deleted", name+": the whole list", wholeList(c.A.loopRange(dl.header)), d.Pos(), "the deletion loop runs over the whole list of kept keys")
				}
				conds := true
				for b := range kl.body {
					i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok || kl.body[b.Succs[0]] && kl.body[b.Succs[1]] || errorExit(b.Succs[0]) || errorExit(b.Succs[1]) {
						continue
					}
					call, _ := i.Cond.(*ssa.Call)
					conds = conds && call != nil && calleeIs(call, bdg+".(Iterator).Valid", bdg+".(Iterator).ValidForPrefix")
				}
				c.ob("every key visited is deleted", name+": until the iterator ends", conds, in.Pos(), "the only way out of the walk is the iterator's end")
			})
		}
	}
	c.ob("every key visited is deleted", name+": deletions", del > 0, f.Pos(), "%d deletions", del)
}

// everyIteration: each round of the loop passes through the block.
func everyIteration(l *loopInfo, b *ssa.BasicBlock) bool {
	for _, p := range l.header.Preds {
		if l.body[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// constBytes: the constant a byte string always has, resolving constant fields of the receiver's database type; "" if it has none.
func (c *Ctx) constBytes(f *ssa.Function, t *Term) string {
	if t == nil {
		return ""
	}
	n, _ := deref(f.Signature.Recv().Type()).(*types.Named)
	out := ""
	c.A.is(t, func(a *Analyzer, x *Term) bool {
		for x.Op == "conv" && len(x.Args) == 1 {
			x = x.Args[0]
		}
		if k := c.recvFieldConst(n, x); k != nil {
			x = k
		}
		if x.Op == "const" && x.Name != "nil" {
			out = x.Name
			return true
		}
		return false
	})
	return out
}

// wholeList: a loop's range is a list as built, not a part of one.
func wholeList(t *Term) bool {
	return t != nil && strip(untest(t)).Op != "slice"
}
