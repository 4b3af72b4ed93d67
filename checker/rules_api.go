package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C22", "must-facts at every storage access, test execution and success answer reachable from every registered API route; provenance of every created session and of the session cookie.", c22)
	reg("C23", "provenance of the identifiers and records of every storage access and execution reachable from the API routes, against membership facts on the authenticated user's lists; membership predicates decided from their own success summaries; fields of the stored user record.", c23)
	reg("C43", "path-sensitive typestate counting the answers of every API handler, constant evaluation of error statuses, request-method facts at every write.", c43)
}

var (
	apiAnswers = []string{"api/commonapi.RespondSuccess", "api/commonapi.RespondSuccessStruct", "api/commonapi.RespondError"}
	cookieVal  = Fld("Cookie.Value", Res("net/http.(Request).Cookie", 0, nil, K("session")))
	apiSession = Res("dbs.(SessionDB).GetSessionEntry", 0, nil, cookieVal)
	apiUser    = Res("dbs.(UserTestDB).Get", 0, nil, Fld("SessionEntry.Email", apiSession))
	foundReqs  = []Req{
		{Name: "session cookie present", Kind: "nil", A: Res("net/http.(Request).Cookie", 1, nil, K("session"))},
		{Name: "session found", Kind: "nil", A: Res("dbs.(SessionDB).GetSessionEntry", 1, nil, cookieVal)},
	}
	authReqs = append(append([]Req{}, foundReqs...),
		Req{Name: "session is logged in", Kind: "true", A: Fld("SessionEntry.LoggedIn", apiSession)},
		Req{Name: "user loaded", Kind: "nil", A: Res("dbs.(UserTestDB).Get", 1, nil, Fld("SessionEntry.Email", apiSession))},
	)
)

// dbMethod: the storage method a call names.
func dbMethod(in ssa.Instruction) *ssa.Function {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	g := unwrapBound(ci.Common().StaticCallee())
	if g == nil || !inRepo(g) || g.Signature.Recv() == nil {
		return nil
	}
	n, _ := deref(g.Signature.Recv().Type()).(*types.Named)
	if n == nil || !holdsDB(n) {
		return nil
	}
	return g
}

// drives: calls that start traffic or test executions.
func drives(in ssa.Instruction) *ssa.Function {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	g := unwrapBound(ci.Common().StaticCallee())
	if g == nil || !inRepo(g) {
		return nil
	}
	switch pk := pkgKey(fnPkg(g)); {
	case pk == "testexec", strings.HasPrefix(pk, "core/do/to0"), strings.HasPrefix(pk, "core/device/to"):
		return g
	}
	if fnKey(g) == "core/shared.SendCborPost" {
		return g
	}
	return nil
}

func (c *Ctx) apiRoutes() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, r := range c.routes() {
		if !strings.HasPrefix(r.Pattern, "/api/") {
			continue
		}
		if r.Handler == nil {
			c.ob("routes", r.Pattern, false, r.Pos, "the handler is not a function the analysis can resolve")
			continue
		}
		out[r.Pattern] = r.Handler
	}
	if len(out) < 10 {
		c.missing(fmt.Sprintf("API routes (found %d)", len(out)))
	}
	return out
}

// apiEffects: what a handler does, not entering storage methods and executors.
func (c *Ctx) apiEffects(h *ssa.Function) []*Effect {
	stop := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if n, ok := recvNamed(f); ok && holdsDB(n) {
			stop[f] = true
		}
		switch pk := pkgKey(fnPkg(f)); {
		case pk == "testexec", strings.HasPrefix(pk, "core/"):
			stop[f] = true
		}
	}
	for _, k := range apiAnswers {
		stop[c.P.fn(k)] = true
	}
	var out []*Effect
	for _, e := range c.A.effects(h, func(in ssa.Instruction) bool {
		return dbMethod(in) != nil || drives(in) != nil || calleeIs(in, apiAnswers...) || isWriteHeader(in) || isRespWrite(in) || calleeIs(in, "net/http.SetCookie", "net/http.Error")
	}, func(f *ssa.Function) bool { return stop[f] }) {
		if !contradictory(e.Facts) {
			out = append(out, e)
		}
	}
	return out
}

func recvNamed(f *ssa.Function) (*types.Named, bool) {
	if f.Signature.Recv() == nil {
		return nil, false
	}
	n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
	return n, ok
}

func c22(c *Ctx) {
	routes := c.apiRoutes()
	const newSess = "dbs.(SessionDB).NewSessionEntry"
	mk := c.A.reachSet("C22s", func(in ssa.Instruction) bool { return calleeIs(in, newSess) })
	logins := map[*ssa.Function]bool{}
	for _, pat := range sortedKeys(routes) {
		h := routes[pat]
		c.ob("routes", pat, true, h.Pos(), "served by %s", fnKey(h))
		login := mk[h]
		if login {
			logins[h] = true
		}
		n := 0
		for _, e := range c.apiEffects(h) {
			g := dbMethod(e.Instr)
			k := ""
			if g != nil {
				k = fnKey(g)
			}
			where := pat + ": " + calleeText(e.Instr)
			switch {
			case calleeIs(e.Instr, "api/commonapi.RespondError", "net/http.Error"):
				continue
			case login:
				// decided below
				continue
			case k == "dbs.(SessionDB).GetSessionEntry":
				c.prov("only the caller's session", where, e.Instr.Pos(), e.Args[1], cookieVal, "the session the cookie names")
			case k == "dbs.(UserTestDB).Get":
				c.prov("only the caller's user", where, e.Instr.Pos(), e.Args[1], Fld("SessionEntry.Email", apiSession), "the session's user")
			case k == "dbs.(SessionDB).DeleteSessionEntry":
				n++
				c.prov("only the caller's session", where, e.Instr.Pos(), e.Args[1], cookieVal, "the session the cookie names")
				c.guard("authenticated", where, e, foundReqs)
			case c.logoutOnly(h):
				n++
				c.guard("authenticated", where, e, foundReqs)
			default:
				n++
				c.guard("authenticated", where, e, authReqs)
			}
		}
		c.ob("routes", pat+": effects", n > 0 || login, h.Pos(), "%d effects", n)
	}
	c.ob("sessions are created by the login only", "login routes", len(logins) == 1, token.NoPos, "%d routes create sessions", len(logins))
	// every creation of a session
	for _, ci := range c.allCallSites(newSess, "dbs.(SessionDB).UpdateSessionEntry") {
		f := ci.Parent()
		c.onlyCallers("sessions are created by the login only", fnKey(f), keysOf(logins))
		for h := range logins {
			for _, e := range c.A.effects(h, func(in ssa.Instruction) bool { return in == ci.(ssa.Instruction) }, nil) {
				rec := e.Args[len(e.Args)-1]
				c.prov("sessions belong to the fixed local account", fnKey(f), ci.Pos(), rec, Val("SessionEntry.Email", func(a *Analyzer, t *Term) bool {
					k := constOfTerm(a.constOf(t))
					return k != nil && constant.StringVal(k) != ""
				}), "the account's name is a constant")
			}
		}
	}
	for h := range logins {
		for _, e := range c.apiEffects(h) {
			g := dbMethod(e.Instr)
			where := fnKey(h) + ": " + calleeText(e.Instr)
			switch {
			case calleeIs(e.Instr, "net/http.SetCookie"):
				ck := e.Args[1]
				c.prov("session cookie", where+": value", e.Instr.Pos(), fieldOf(ck, "Cookie.Value"), Res(newSess, 0), "the new session's identifier")
				c.prov("session cookie", where+": not readable by scripts", e.Instr.Pos(), fieldOf(ck, "Cookie.HttpOnly"), K("true"), "HttpOnly")
				c.prov("session cookie", where+": name", e.Instr.Pos(), fieldOf(ck, "Cookie.Name"), K("session"), "the name the handlers read")
				c.guard("session cookie", where, e, []Req{{Name: "session stored", Kind: "nil", A: Res(newSess, 1)}})
			case calleeIs(e.Instr, "api/commonapi.RespondSuccess", "api/commonapi.RespondSuccessStruct"):
				c.guard("login succeeded", where, e, []Req{{Name: "session stored", Kind: "nil", A: Res(newSess, 1)}})
			case g != nil && fnKey(g) == "dbs.(UserTestDB).Save":
				c.guard("login keeps an existing account", where, e, []Req{{Name: "account missing", Kind: "nonnil", A: Res("dbs.(UserTestDB).Get", 1)}})
			}
		}
	}
	c.min("authenticated", 80)
	c.min("session cookie", 4)
	c.assume("gorilla/mux dispatches a request only to the handler registered for its path; C24 decides expiry and unpredictability of session identifiers")
}

func keysOf(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
	return out
}

func calleeText(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return fmt.Sprintf("%T", in)
	}
	n, _ := calleeName(ci.Common())
	return shortKey(n)
}

// logoutOnly: the handler's only storage access besides the session lookup is the removal of a session.
func (c *Ctx) logoutOnly(h *ssa.Function) bool {
	del := false
	for _, e := range c.apiEffects(h) {
		if g := dbMethod(e.Instr); g != nil {
			switch fnKey(g) {
			case "dbs.(SessionDB).DeleteSessionEntry":
				del = true
			case "dbs.(SessionDB).GetSessionEntry":
			default:
				return false
			}
		}
		if drives(e.Instr) != nil {
			return false
		}
	}
	return del
}

// the lists of a user record: element type and the fields that identify a test instance, the stores they are kept in,
// and the executors that may be run on them.
var userLists = []struct {
	list, elem string
	ids        []string
	store      string
	exec       []string
}{
	{"RVTestInsts", "RVTestInst", []string{"To0", "To1"}, "core/shared/testcom/dbs.RequestTestDB", []string{"testexec.ExecuteRVTestsTo0", "testexec.ExecuteRVTestsTo1"}},
	{"DOTestInsts", "DOTestInst", []string{"To2", "ListenerTo0"}, "core/shared/testcom/dbs.RequestTestDB", []string{"testexec.ExecuteDOTestsTo2"}},
	{"DeviceTestInsts", "DeviceTestInst", []string{"ListenerUuid"}, "core/shared/testcom/dbs.ListenerTestDB", nil},
}

func isByteSlice(t types.Type) bool { return t != nil && t.String() == "[]byte" }

func c23(c *Ctx) {
	byteParam := func(a *Analyzer, t *Term) bool { return t.Op == "param" && isByteSlice(t.T) }
	for _, u := range userLists {
		var alts []Req
		for _, id := range u.ids {
			alts = append(alts, Req{Kind: "eq", A: Fld(u.elem+"."+id, Or(elemOf(Fld("UserTestDBEntry."+u.list, ParamT("UserTestDBEntry"))), ParamT(u.elem))), B: byteParam})
		}
		c.A.tags = append(c.A.tags, Tag{Name: "member:" + u.list, Alts: alts})
	}
	// owned: the term is an identifier found in the user's list (by facts), or taken from it
	owned := func(e *Effect, i int) M {
		u := userLists[i]
		list := Fld("UserTestDBEntry."+u.list, apiUser)
		return func(a *Analyzer, t *Term) bool {
			t = strip(t)
			for _, id := range u.ids {
				el := Fld(u.elem+"."+id, elemOf(list))
				if a.is(t, el) || a.holds(e.Facts, "eq", el, Same(t)) != nil {
					return true
				}
			}
			for _, f := range e.Facts.m {
				if f.Kind == "true" && f.A.Op == "call" && c.memberPred(f.A, i) {
					for j, x := range f.A.Args {
						if a.is(x, Same(t)) {
							for l, y := range f.A.Args {
								if l != j && a.is(y, apiUser) {
									return true
								}
							}
						}
					}
				}
			}
			return false
		}
	}
	routes := c.apiRoutes()
	for _, pat := range sortedKeys(routes) {
		h := routes[pat]
		for _, e := range c.apiEffects(h) {
			where := pat + ": " + calleeText(e.Instr)
			if g := drives(e.Instr); g != nil {
				if pkgKey(fnPkg(g)) == "testexec" {
					ok := false
					for i, u := range userLists {
						for _, x := range u.exec {
							if fnKey(g) == x {
								ok = c.A.is(e.Args[0], Res("core/shared/testcom/dbs.(RequestTestDB).Get", 0, nil, owned(e, i)))
							}
						}
					}
					c.ob("own instances only", where, ok, e.Instr.Pos(), "executed on an instance loaded under an identifier found among the user's instances of this kind: %s", trunc(e.Args[0].String()))
				}
				continue
			}
			g := dbMethod(e.Instr)
			if g == nil {
				continue
			}
			n, _ := recvNamed(g)
			store := typeQual(n)
			if store == "dbs.UserTestDB" && g.Name() == "Save" && !c.createsUser(e) {
				c.userRecord(pat, where, e)
				continue
			}
			any := func(a *Analyzer, t *Term) bool {
				for i, u := range userLists {
					if u.store == store && owned(e, i)(a, t) {
						return true
					}
				}
				return false
			}
			isStore := false
			for _, u := range userLists {
				isStore = isStore || u.store == store
			}
			if !isStore {
				continue
			}
			if fnKey(g) == noListenerEntry {
				c.ob("own instances only", where, false, e.Instr.Pos(), "an API request reaches a device's listener by its identifier")
				continue
			}
			for i, p := range g.Params[1:] {
				t := e.Args[i+1]
				switch {
				case isByteSlice(p.Type()):
					c.ob("own instances only", where, c.A.is(t, any), e.Instr.Pos(), "identifier found among the user's instances of the kind kept in this store: %s", trunc(t.String()))
				case p.Type().String() == "[][]byte":
					ok := strip(t).Op == "lit"
					if ok {
						for _, kv := range strip(t).Args {
							ok = ok && len(kv.Args) > 0 && c.A.is(kv.Args[0], any)
						}
					}
					c.ob("own instances only", where, ok, e.Instr.Pos(), "identifiers of the user's instances: %s", trunc(t.String()))
				case typeBase(deref(p.Type())) == "RequestTestInst" || typeBase(deref(p.Type())) == "RequestListenerInst":
					loaded := Res(store[:strings.LastIndex(store, ".")+1]+"("+n.Obj().Name()+").Get", 0, nil, any)
					fresh := Or(c.freshInst("core/shared/testcom/request.NewRequestTestInst"), c.freshInst("core/shared/testcom/listener.NewDevice_RequestListenerInst"))
					uuid := fieldOf(t, typeBase(deref(p.Type()))+".Uuid")
					ok := c.A.is(t, loaded) || c.A.is(t, fresh) || uuid != nil && (c.A.is(uuid, Fld(typeBase(deref(p.Type()))+".Uuid", Or(fresh, loaded))))
					c.ob("own instances only", where, ok, e.Instr.Pos(), "a newly created instance or one loaded as the user's: %s", trunc(t.String()))
				}
			}
		}
	}
	c.min("own instances only", 14)
	c.min("user record", 20)
}

// freshInst: the result of a constructor whose identifier is a fresh random UUID.
func (c *Ctx) freshInst(key string) M {
	f := c.P.fn(key)
	if f == nil {
		return func(*Analyzer, *Term) bool { return false }
	}
	id := fieldOf(c.A.results(f, 0), typeBase(f.Signature.Results().At(0).Type())+".Uuid")
	if id == nil || !c.A.is(id, Res("github.com/google/uuid.(UUID).MarshalBinary", 0, Res("github.com/google/uuid.NewRandom", 0))) {
		return func(*Analyzer, *Term) bool { return false }
	}
	return Res(key, 0)
}

func (c *Ctx) createsUser(e *Effect) bool {
	return c.A.holds(e.Facts, "nonnil", Res("dbs.(UserTestDB).Get", 1), nil) != nil
}

// memberPred: a true result of the called predicate means that the identifier is in the user's list.
func (c *Ctx) memberPred(call *Term, i int) bool {
	g := c.P.fn(call.Name)
	if g == nil || len(g.Blocks) == 0 {
		return false
	}
	var bytesP, userP int
	for _, p := range g.Params {
		if isByteSlice(p.Type()) {
			bytesP++
		} else if typeBase(deref(p.Type())) == "UserTestDBEntry" {
			userP++
		}
	}
	if bytesP != 1 || userP != 1 {
		return false
	}
	tag := tagFact("member:" + userLists[i].list).Key()
	fs := c.A.summary(g, 0, "true")
	if fs == nil {
		return false
	}
	if _, ok := fs.m[tag]; ok {
		return true
	}
	// by a library search with a predicate closure
	for _, f := range fs.m {
		if f.Kind == "true" && f.A.Op == "call" && strings.HasPrefix(f.A.Name, "slices.ContainsFunc") && len(f.A.Args) == 2 && c.A.is(f.A.Args[0], Fld("UserTestDBEntry."+userLists[i].list, ParamT("UserTestDBEntry"))) {
			all, n := true, 0
			for _, a := range g.AnonFuncs {
				if len(a.Params) == 1 && typeBase(a.Params[0].Type()) == userLists[i].elem {
					n++
					s := c.A.summary(a, 0, "true")
					_, ok := s.m[tag]
					all = all && ok
				}
			}
			if all && n > 0 {
				return true
			}
		}
	}
	return false
}

// userRecord: the stored user record is the authenticated user's, and its lists are kept, extended or emptied.
func (c *Ctx) userRecord(pat, where string, e *Effect) {
	a := c.A
	rec := e.Args[1]
	for _, fl := range c.structFields("dbs", "UserTestDBEntry") {
		v := fieldOf(rec, "UserTestDBEntry."+fl)
		own := Fld("UserTestDBEntry."+fl, apiUser)
		ok := v != nil && a.is(v, own)
		how := "kept"
		for _, u := range userLists {
			if u.list != fl || ok || v == nil {
				continue
			}
			ps := flatConcat(a, v, 0)
			if len(ps) == 2 && a.is(ps[0], own) {
				ok = a.hasSub(ps[1], func(a *Analyzer, t *Term) bool { return c.newUserInst(u.elem, t) }, 0)
				how = "extended by a new instance"
			} else if isZeroM(a, v) {
				ok, how = c.emptiesAll(rec), "emptied together with the others"
			}
		}
		s := "<none>"
		if v != nil {
			s = trunc(v.String())
		}
		c.ob("user record", where+": "+fl, ok, e.Instr.Pos(), "%s: %s", how, s)
	}
}

func (c *Ctx) newUserInst(elem string, t *Term) bool {
	if t.Op != "call" {
		return false
	}
	g := c.P.fn(t.Name)
	return g != nil && g.Signature.Results().Len() > 0 && typeBase(g.Signature.Results().At(0).Type()) == elem || t.Op == "lit" && t.T != nil && typeBase(t.T) == elem
}

func (c *Ctx) emptiesAll(rec *Term) bool {
	for _, u := range userLists {
		v := fieldOf(rec, "UserTestDBEntry."+u.list)
		if v == nil || !isZeroM(c.A, v) {
			return false
		}
	}
	return true
}

func (c *Ctx) structFields(pkg, name string) []string {
	var out []string
	ip := c.P.Short[pkg]
	if ip == nil {
		c.missing(pkg + "." + name)
		return nil
	}
	o := ip.Types.Scope().Lookup(name)
	if o == nil {
		c.missing(pkg + "." + name)
		return nil
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		c.missing(pkg + "." + name)
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "_" {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

func c43(c *Ctx) {
	a := c.A
	routes := c.apiRoutes()
	raw := func(in ssa.Instruction) bool { return isRespWrite(in) }
	run := a.newTS(&tsRule{
		name: "C43",
		isEvent: func(in ssa.Instruction) bool {
			return calleeIs(in, append([]string{"net/http.Error"}, apiAnswers...)...) || raw(in)
		},
		opaque: func(f *ssa.Function) bool {
			k := fnKey(f)
			for _, x := range apiAnswers {
				if x == k {
					return true
				}
			}
			return strings.HasPrefix(k, "core/") || strings.HasPrefix(k, "testexec.")
		},
		event: func(in ssa.Instruction, st string) []tsOutcome {
			if !calleeIs(in, append([]string{"net/http.Error"}, apiAnswers...)...) && !raw(in) {
				return nil
			}
			v := ""
			if st == "1" {
				v = "a second answer is given"
			}
			return []tsOutcome{{st: "1", viol: v}}
		},
	})
	for _, pat := range sortedKeys(routes) {
		h := routes[pat]
		n := 0
		for _, e := range run.exits(h, "0") {
			n++
			if e.st != "1" {
				run.violate(h, e.pos, "the request is left without an answer")
			}
		}
		c.ob("one answer", pat, n > 0, h.Pos(), "%d exit states of %s", n, fnKey(h))
		for _, e := range c.apiEffects(h) {
			where := pat + ": " + calleeText(e.Instr)
			if calleeIs(e.Instr, "api/commonapi.RespondError", "net/http.Error") {
				k := constOfTerm(a.constOf(e.Args[2]))
				v := int64(0)
				if k != nil {
					v, _ = constant.Int64Val(constant.ToInt(k))
				}
				c.ob("error status", where, v >= 400 && v < 600, e.Instr.Pos(), "status %d", v)
				continue
			}
			g := dbMethod(e.Instr)
			wr := drives(e.Instr) != nil
			if g != nil {
				wr = wr || c.A.reachSet("C43w", func(in ssa.Instruction) bool { return calleeIs(in, bdgWrites...) })[g]
			}
			if !wr {
				continue
			}
			meth := Fld("Request.Method", nil)
			req := Req{Name: "not a GET request", Kind: "eq", A: meth, B: Or(K("POST"), K("DELETE"))}
			c.guard("changes need POST or DELETE", where, e, []Req{req})
			if g == nil || g.Name() == "Save" {
				if a.holds(e.Facts, "eq", meth, K("POST")) != nil && c.readsBody(h) {
					c.guard("changes need POST or DELETE", where, e, []Req{{Name: "JSON body", Kind: "eq", A: Res("net/http.(Header).Get", 0, nil, K("Content-Type")), B: K("application/json")}})
				}
			}
		}
	}
	for _, v := range run.violations() {
		c.ob("one answer", fnKey(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
	// what the answer helpers write
	for _, k := range apiAnswers {
		f := c.P.fn(k)
		if f == nil {
			c.missing(k)
			continue
		}
		ws := a.effects(f, func(in ssa.Instruction) bool { return isWriteHeader(in) }, nil)
		bs := a.effects(f, isRespWrite, nil)
		c.ob("answer form", fnShort(f), len(ws) == 1 && len(bs) == 1, f.Pos(), "%d statuses, %d bodies", len(ws), len(bs))
		for _, e := range ws {
			last := e.Args[len(e.Args)-1]
			want, what := K("200"), "status 200"
			if strings.HasSuffix(k, "Error") {
				want, what = paramOf(k, 2), "the given status"
			}
			c.prov("answer form", fnShort(f)+": status", e.Instr.Pos(), last, want, what)
		}
		for _, e := range bs {
			c.prov("answer form", fnShort(f)+": body", e.Instr.Pos(), e.Args[1], Res("encoding/json.Marshal", 0), "JSON")
			for _, x := range a.effects(f, isHeaderSet, nil) {
				if a.is(x.Args[1], K("Content-Type")) {
					c.prov("answer form", fnShort(f)+": content type", x.Instr.Pos(), x.Args[2], K("application/json"), "JSON")
				}
			}
		}
	}
	c.min("one answer", 15)
	c.min("error status", 80)
	c.min("changes need POST or DELETE", 15)
}

func (c *Ctx) readsBody(h *ssa.Function) bool {
	return c.A.reachSet("C43b", func(in ssa.Instruction) bool { return calleeIs(in, "io.ReadAll") })[h]
}
