package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C33", "every read of a context value is resolved backwards through parameters, struct fields and calls to the places where contexts are built; the keys and dynamic types stored there are compared with what the reader asserts; provenance of each stored value from its own environment variable.", c33)
	reg("C32", "must-facts and argument provenance at every submission to the interop logger, reachability of the success answer from it, provenance of the submitted request.", c32)
	reg("C39", "provenance of the HTTP client of every outgoing request, path-sensitive typestate of response bodies, status facts on every successful return of a protocol step.", c39)
}

// ---------- configuration values ----------

type cfgVal struct {
	key     types.Type // static type of the key
	typ     types.Type // dynamic type of the value
	val     *Term
	pos     token.Pos
	keyName string
	fn      *ssa.Function // function that stores it
	via     *Term         // the call of that function
}

type cfgCtx struct {
	c       *Ctx
	busy    map[string]bool
	problem []string
	sources map[string]bool
	loops   int
}

// dynType is the dynamic type of an interface value built at v.
func dynType(v ssa.Value) types.Type {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return x.X.Type()
	case *ssa.ChangeInterface:
		return dynType(x.X)
	case *ssa.Phi:
		var t types.Type
		for _, e := range x.Edges {
			d := dynType(e)
			if d == nil || t != nil && !types.Identical(t, d) {
				return nil
			}
			t = d
		}
		return t
	}
	if _, isI := v.Type().Underlying().(*types.Interface); isI {
		return nil
	}
	return v.Type()
}

// merge: what two alternative contexts both provide with the same type.
func merge(a, b map[string]cfgVal) map[string]cfgVal {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	out := map[string]cfgVal{}
	for k, v := range a {
		if w, ok := b[k]; ok && v.typ != nil && w.typ != nil && types.Identical(v.typ, w.typ) {
			out[k] = v
		}
	}
	return out
}

// keys: the configuration values every context denoted by t carries; nil means "no contribution" (recursion).
func (g *cfgCtx) keys(t *Term) map[string]cfgVal {
	t = strip(t)
	k := t.Key()
	if g.busy[k] {
		return nil
	}
	g.busy[k] = true
	defer delete(g.busy, k)
	a := g.c.A
	fail := func(why string) map[string]cfgVal {
		g.problem = append(g.problem, why+": "+trunc(t.String()))
		return map[string]cfgVal{}
	}
	switch t.Op {
	case "phi":
		var out map[string]cfgVal
		var looped []map[string]cfgVal
		for _, x := range t.Args {
			n := g.loops
			ks := g.keys(x)
			if g.loops != n {
				looped = append(looped, ks)
				continue
			}
			out = merge(out, ks)
		}
		// what a loop adds to the context it started from
		for _, ks := range looped {
			for k, v := range ks {
				if out == nil {
					out = map[string]cfgVal{}
				}
				if _, ok := out[k]; !ok {
					out[k] = v
				}
			}
		}
		return out
	case "loop":
		g.loops++
		return nil
	case "prev":
		return g.keys(t.Args[0])
	case "call":
		switch t.Name {
		case "context.WithValue":
			in, ok := t.Site.(ssa.CallInstruction)
			if !ok || len(t.Args) != 3 {
				return fail("unresolved context")
			}
			up := g.keys(t.Args[0])
			out := map[string]cfgVal{}
			for k, v := range up {
				out[k] = v
			}
			kt := strip(t.Args[1])
			args := in.Common().Args
			if kt.Op == "elem" || kt.Op == "phi" {
				// a loop over a list of keys stores every one of them
				var ks []*Term
				for _, e := range kt.Args {
					if e = strip(e); e.Op == "const" {
						ks = append(ks, e)
					} else if e.Op == "lit" {
						for _, kv := range e.Args {
							ks = append(ks, strip(kv.Args[len(kv.Args)-1]))
						}
					}
				}
				for _, k := range ks {
					if k.Op == "const" {
						out[k.Name] = cfgVal{key: dynType(args[1]), typ: dynType(args[2]), val: replaceTerm(t.Args[2], kt, k), pos: in.Pos(), keyName: k.Name, fn: in.Parent()}
					}
				}
				return out
			}
			if kt.Op != "const" {
				return fail("key is not constant")
			}
			out[kt.Name] = cfgVal{key: dynType(args[1]), typ: dynType(args[2]), val: t.Args[2], pos: in.Pos(), keyName: kt.Name, fn: in.Parent()}
			return out
		case "context.Background", "context.TODO":
			g.sources[t.Name] = true
			return map[string]cfgVal{}
		case "context.WithTimeout", "context.WithCancel", "context.WithDeadline", "context.WithoutCancel":
			return g.keys(t.Args[0])
		case "net/http.(Request).Context":
			return fail("the context of an HTTP request carries no configuration")
		}
		if t.Fn != nil && inRepo(t.Fn) && len(t.Fn.Blocks) > 0 {
			r := a.results(t.Fn, t.Idx)
			if r == nil {
				return nil
			}
			ks := g.keys(subst(r, t.Fn, t.Args))
			for k, v := range ks {
				if v.fn == t.Fn && v.via == nil {
					v.via = t
					ks[k] = v
				}
			}
			return ks
		}
		return fail("unknown source of a context")
	case "param":
		i := strings.LastIndex(t.Name, ":")
		if i < 0 {
			return fail("unresolved parameter")
		}
		f := g.c.P.fn(t.Name[:i])
		if f == nil {
			return fail("unresolved parameter")
		}
		var out map[string]cfgVal
		for _, ci := range g.c.sitesOf(f) {
			args := ci.Common().Args
			if t.Idx < len(args) {
				out = merge(out, g.keys(a.at(args[t.Idx], ci)))
			}
		}
		if out == nil && len(g.c.sitesOf(f)) == 0 {
			// not called: contributes nothing (dead code)
			return nil
		}
		return out
	case "field":
		dot := strings.LastIndex(t.Name, ".")
		if dot < 0 {
			return fail("unresolved field")
		}
		owner, fld := t.Name[:dot], t.Name[dot+1:]
		return g.fieldKeys(owner, fld, t)
	}
	return fail("unresolved context")
}

// fieldKeys: what every context stored in the field carries.
func (g *cfgCtx) fieldKeys(owner, fld string, t *Term) map[string]cfgVal {
	var out map[string]cfgVal
	n := 0
	for _, f := range g.c.P.Funcs {
		lits := map[ssa.Value]bool{}
		set := map[ssa.Value]bool{}
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Alloc:
				if typeBase(deref(x.Type())) == owner && (x.Comment == "complit" || strings.HasPrefix(x.Comment, "new")) && hasField(deref(x.Type()), owner, fld) {
					lits[x] = true
				}
			case *ssa.Store:
				if isFieldStore(in, owner, fld) {
					n++
					set[x.Addr.(*ssa.FieldAddr).X] = true
					out = merge(out, g.keys(g.c.A.at(x.Val, in)))
				}
			}
		})
		for l := range lits {
			if !set[l] && !isZeroReturn(l) {
				g.problem = append(g.problem, owner+" is built without its "+fld+" in "+fnKey(f))
				out = map[string]cfgVal{}
			}
		}
	}
	if n == 0 {
		g.problem = append(g.problem, owner+"."+fld+" is never set")
		return map[string]cfgVal{}
	}
	return out
}

func hasField(t types.Type, owner, fld string) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fld {
			return true
		}
	}
	return false
}

// isZeroReturn: an empty composite literal that is only returned or copied as a zero value (no field of it is set).
func isZeroReturn(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.FieldAddr); ok {
			return false
		}
	}
	return true
}

// sitesOf: call instructions of the module that call f directly or as a bound method.
func (c *Ctx) sitesOf(f *ssa.Function) []ssa.CallInstruction {
	if c.siteMemo == nil {
		c.siteMemo = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range c.P.Funcs {
			eachInstr(g, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil {
						h = unwrapBound(h)
						c.siteMemo[h] = append(c.siteMemo[h], ci)
					}
				}
			})
		}
	}
	return c.siteMemo[f]
}

type cfgRead struct {
	in      *ssa.Call
	key     string
	keyType types.Type
	want    types.Type
	commaOk bool
	how     string
	ctx     *Term
}

// cfgReads: the reads of context values in the module.
func (c *Ctx) cfgReads() []cfgRead {
	var out []cfgRead
	for _, f := range c.P.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || !calleeIs(in, "invoke.Context.Value") {
				return
			}
			kv := call.Common().Args[0]
			r := cfgRead{in: call, keyType: dynType(kv)}
			var uses func(v ssa.Value, d int)
			seen := false
			add := func(x cfgRead) { seen = true; out = append(out, c.readsAt(x, kv)...) }
			uses = func(v ssa.Value, d int) {
				for _, ref := range *v.Referrers() {
					x := r
					switch u := ref.(type) {
					case *ssa.TypeAssert:
						x.want, x.commaOk, x.how = u.AssertedType, u.CommaOk, "asserted"
						add(x)
					case *ssa.BinOp:
						o := u.X
						if o == v {
							o = u.Y
						}
						if u.Op == token.EQL || u.Op == token.NEQ {
							if isNilConst(o) {
								continue
							}
							x.want, x.commaOk, x.how = dynType(o), true, "compared"
							add(x)
						}
					case *ssa.Phi:
						if d < 4 {
							uses(u, d+1)
						}
					}
				}
			}
			uses(call, 0)
			if !seen {
				out = append(out, c.readsAt(r, kv)...)
			}
		})
	}
	return out
}

func c33(c *Ctx) {
	envs := c.envNames()
	checked := map[string]bool{}
	all := map[string]cfgVal{}
	for _, r := range c.cfgReads() {
		f := r.in.Parent()
		where := fnShort(f) + ": " + r.key
		ctxT := r.ctx
		if r.key == "" {
			c.ob("read resolves", fnShort(f)+": key", false, r.in.Pos(), "the key is neither a constant nor a parameter that every caller gives a constant")
			continue
		}
		g := &cfgCtx{c: c, busy: map[string]bool{}, sources: map[string]bool{}}
		ks := g.keys(ctxT)
		v, ok := ks[r.key]
		why := "stored at " + c.P.pos(v.pos)
		if !ok {
			why = "no context that reaches this read is known to carry it. " + strings.Join(uniq(g.problem), "; ")
		} else if v.key == nil || r.keyType == nil || !types.Identical(v.key, r.keyType) {
			ok, why = false, "it is stored under a key of another type"
		} else if r.want != nil && (v.typ == nil || !types.Identical(v.typ, r.want)) {
			ok, why = false, "it is stored as another type"
		}
		want := "any type"
		if r.want != nil {
			want = types.TypeString(r.want, nil)
		}
		c.ob("read resolves", where, ok, r.in.Pos(), "%s as %s: %s", r.how, want, why)
		for k, v := range ks {
			if checked[k] {
				continue
			}
			checked[k] = true
			all[k] = v
			c.configValue(k, v, envs)
		}
	}
	c.min("read resolves", 10)
	c.min("stored value", 6)
	// names
	byVal := map[string][]string{}
	for n, v := range envs {
		byVal[v] = append(byVal[v], n)
	}
	for _, v := range sortedKeys(byVal) {
		sort.Strings(byVal[v])
		c.ob("distinct names", v, len(byVal[v]) == 1, token.NoPos, "names one setting: %s", strings.Join(byVal[v], ", "))
	}
	c.requiredSettings(all)
}

func uniq(s []string) []string {
	m := map[string]bool{}
	var o []string
	for _, x := range s {
		if !m[x] && len(o) < 4 {
			o = append(o, x)
		}
		m[x] = true
	}
	return o
}

// envNames: the constants of type CONFIG_ENTRY.
func (c *Ctx) envNames() map[string]string {
	out := map[string]string{}
	for _, p := range c.P.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if k, ok := sc.Lookup(n).(*types.Const); ok && typeBase(k.Type()) == "CONFIG_ENTRY" {
				out[n] = constant.StringVal(k.Val())
			}
		}
	}
	return out
}

// readsAt: the read, or, in a helper that is given the key, one read per call of the helper.
func (c *Ctx) readsAt(r cfgRead, kv ssa.Value) []cfgRead {
	k := strip(c.A.at(kv, r.in))
	r.ctx = c.A.at(r.in.Common().Value, r.in)
	if k.Op == "const" {
		r.key = k.Name
		return []cfgRead{r}
	}
	f := r.in.Parent()
	sites := c.sitesOf(f)
	if k.Op != "param" || len(sites) == 0 {
		return []cfgRead{r}
	}
	var out []cfgRead
	for _, ci := range sites {
		x := r
		var args []*Term
		for _, a := range ci.Common().Args {
			args = append(args, c.A.at(a, ci))
		}
		if kt := strip(subst(k, f, args)); kt.Op == "const" {
			x.key = kt.Name
		}
		x.ctx = subst(r.ctx, f, args)
		out = append(out, x)
	}
	return out
}

// configValue: the stored value is read from the environment variable of its own name, or derived from another stored
// setting, or the default.
func (c *Ctx) configValue(key string, v cfgVal, envs map[string]string) {
	a := c.A
	isEnv := func(name string) M {
		return func(a *Analyzer, t *Term) bool {
			return t.Op == "call" && (t.Name == "os.Getenv" || t.Name == "os.LookupEnv") && len(t.Args) == 1 && a.hasSub(t.Args[0], K(name), 0)
		}
	}
	anyEnv := func(a *Analyzer, t *Term) bool {
		return t.Op == "call" && (t.Name == "os.Getenv" || t.Name == "os.LookupEnv")
	}
	named := false
	for _, x := range envs {
		named = named || x == key
	}
	c.ob("stored value", key+": key", named && v.key != nil && typeBase(v.key) == "CONFIG_ENTRY", v.pos, "stored under a declared configuration name")
	if b, ok := v.typ.(*types.Basic); ok && b.Kind() == types.Bool {
		t := strip(v.val)
		ok := nonEmptyTest(a, t, cfgRef("INTEROP_DASHBOARD_URL"))
		c.ob("stored value", key, ok, v.pos, "true exactly when the dashboard URL is set: %s", trunc(t.String()))
		return
	}
	nEnv, ok := 0, true
	for _, x := range alts(v.val) {
		if a.hasSub(x, isEnv(key), 0) {
			nEnv++
		}
		if a.hasSub(x, anyEnv, 0) {
			// the default service address is built from the port
			if !a.hasSub(x, isEnv(key), 0) && !(key == "FDO_SERVICE_URL" && a.hasSub(x, isEnv("PORT"), 0)) {
				ok = false
			}
		}
	}
	c.ob("stored value", key, ok && nEnv > 0, v.pos, "read from the environment variable of that name: %s", trunc(v.val.String()))
}

// cfgRef: the value a context holds for the key, or the environment variable it is read from.
func cfgRef(key string) M {
	return func(a *Analyzer, t *Term) bool {
		t = strip(t)
		return t.Op == "call" && (t.Name == "invoke.Context.Value" && len(t.Args) == 2 && K(key)(a, strip(t.Args[1])) ||
			t.Name == "os.Getenv" && a.hasSub(t.Args[0], K(key), 0))
	}
}

// nonEmptyTest: t is true exactly when the string m is not empty.
func nonEmptyTest(a *Analyzer, t *Term, m M) bool {
	if t.Op != "bin" || len(t.Args) != 2 {
		return false
	}
	x, y := strip(t.Args[0]), strip(t.Args[1])
	length := func(t *Term) bool { return t.Op == "call" && t.Name == "len" && len(t.Args) == 1 && a.is(t.Args[0], m) }
	zero := func(t *Term) bool { return K("0")(a, t) }
	switch t.Name {
	case "!=":
		return K("")(a, y) && a.is(x, m) || K("")(a, x) && a.is(y, m) || length(x) && zero(y) || length(y) && zero(x)
	case ">":
		return length(x) && zero(y)
	case "<":
		return length(y) && zero(x)
	}
	return false
}

func endsInFatal(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if fatalCall(in) {
			return true
		}
	}
	return false
}

// requiredSettings: with interop enabled the server does not start without the settings it then needs. Decided where the
// setting is stored by a function with a "required" flag: the flag is the interop switch, and under a set flag nothing but
// the (non-empty) environment variable is stored.
func (c *Ctx) requiredSettings(ks map[string]cfgVal) {
	for _, k := range []string{"FDO_SERVICE_URL", "INTEROP_DASHBOARD_RV_AUTHZ", "INTEROP_DASHBOARD_DO_AUTHZ", "INTEROP_DO_TOKEN_MAPPING"} {
		v, ok := ks[k]
		if !ok || v.via == nil {
			continue
		}
		args := make([]*Term, len(v.fn.Params))
		flag := false
		for i, p := range v.fn.Params {
			if !isBool(p.Type()) {
				continue
			}
			t := strip(v.via.Args[i])
			if nonEmptyTest(c.A, t, cfgRef("INTEROP_DASHBOARD_URL")) || c.A.is(t, cfgRef("INTEROP_ENABLED")) {
				flag = true
				args[i] = mk("const", "true", p.Type())
			}
		}
		good, known := flag, false
		sp := c.A.spec(v.fn, args)
		ff := sp.funcFacts(v.fn)
		for _, ci := range c.allCallSites("context.WithValue") {
			if ci.Parent() != v.fn {
				continue
			}
			val := stripIface(ci.Common().Args[2])
			if mi, ok := val.(*ssa.MakeInterface); ok {
				val = stripIface(mi.X)
			}
			phi, ok := val.(*ssa.Phi)
			if !ok {
				continue
			}
			known = true
			for i, e := range phi.Edges {
				p := phi.Block().Preds[i]
				fs := newFS()
				if ff.in[p] != nil {
					fs = sp.edgeFacts(ff, p, phi.Block())
				}
				if ff.in[p] == nil || fs == nil || contradictory(fs) || endsInFatal(p) {
					continue
				}
				t := sp.at(e, p.Instrs[len(p.Instrs)-1])
				isEnv := t.Op == "call" && t.Name == "os.Getenv"
				if !isEnv || sp.holds(fs, "ne", Same(t), K("")) == nil {
					good = false
				}
			}
		}
		if !known {
			continue
		}
		c.ob("required setting", k, good, v.pos, "with interop enabled the value is the non-empty environment variable or the server does not start")
	}
}

// replaceTerm: t with every occurrence of from replaced.
func replaceTerm(t, from, to *Term) *Term {
	if t.Key() == from.Key() {
		return to
	}
	if len(t.Args) == 0 {
		return t
	}
	n := *t
	n.key = ""
	n.Args = nil
	for _, x := range t.Args {
		n.Args = append(n.Args, replaceTerm(x, from, to))
	}
	return &n
}

// ---------- interop events ----------

const submitEvent = "core/shared.SubmitIopLoggerEvent"

// ctxVal: the value of a configuration key, read from any context.
func ctxVal(key string) M {
	return func(a *Analyzer, t *Term) bool {
		t = strip(t)
		return t.Op == "call" && t.Name == "invoke.Context.Value" && len(t.Args) == 2 && K(key)(a, strip(t.Args[1]))
	}
}

func c32(c *Ctx) {
	a := c.A
	sub := c.P.fn(submitEvent)
	if sub == nil {
		c.missing("submission of interop events")
		return
	}
	var ord []Req
	isTestID := func(a *Analyzer, t *Term) bool {
		return t.T != nil && typeBase(t.T) == "FDOTestID" || a.hasSub(t, CallAny("GetNextTestID"), 0) || t.Op == "param"
	}
	ord = append(ord, Req{Kind: "eq", A: K("NULL_TEST"), B: isTestID},
		Req{Kind: "nil", A: Res("core/shared/testcom/dbs.(ListenerTestDB).GetEntryByFdoGuid", 0)})
	a.tagMemo = map[string][]string{}
	a.tags = append(a.tags, Tag{Name: "ordinary traffic", Alts: ord})
	enabled := Req{Name: "interop mode is enabled", Kind: "true", A: ctxVal("INTEROP_ENABLED")}

	h32, h70, h22 := c.handler(32), c.handler(70), c.step(22)
	authz := func(comp, key string) M {
		return Or(Res("core/shared.IopGetAuthz", 0, nil, K(comp)), ctxVal(key))
	}
	to1, _ := to1Reqs()
	rvSess, doS := sessEntry("core/rv"), doSess()
	hdr := Res("core/shared.(OwnershipVoucher).GetOVHeader", 0, Fld("VoucherDBEntry.Voucher", Fld("To0Requestor.voucherDBEntry", nil)))
	type site struct {
		f           *ssa.Function
		name        string
		ordinary    bool
		reqs        []Req
		guid, nonce M
		proto       string
		authz       M
	}
	done := Res("core/device/to2.(To2Requestor).Done70", 2)
	var simOK Req
	sims := Res("core/shared.(SIMS).GetSim", 0, nil, nil)
	simOK = Req{Name: "the owner gave the device a dashboard token", Kind: "true", A: Res("core/shared.(SIMS).GetSim", 1)}
	_, _, _, _, to0ov := ownerSignTerms()
	r22 := c.handler(22)
	stored := Req{Name: "registration stored", Kind: "nil", A: Res("core/rv.(OwnerSignDB).Save", 0)}
	sites := []site{
		{r22, "TO0 at the rendezvous server", false, append(to0Reqs(), stored), Fld("OwnershipVoucherHeader.OVGuid", Res("core/shared.(OwnershipVoucher).GetOVHeader", 0, to0ov)), Fld("SessionEntry.NonceTO0Sign", rvSess), "0", authz("RV", "INTEROP_DASHBOARD_RV_AUTHZ")},
		{h32, "TO1 at the rendezvous server", true, to1, Fld("SessionEntry.Guid", rvSess), Fld("SessionEntry.NonceTO1Proof", rvSess), "1", authz("RV", "INTEROP_DASHBOARD_RV_AUTHZ")},
		{h70, "TO2 at the owner service", true, done70Reqs(), Fld("SessionEntry.Guid", doS), Fld("SessionEntry.NonceTO2SetupDv64", doS), "2", authz("DO", "INTEROP_DASHBOARD_DO_AUTHZ")},
		{h22, "TO0 at the owner service", true, []Req{
			{Name: "an answer was received", Kind: "nil", A: Res(sendPost, 3)},
			{Name: "the answer is not an FDO error", Kind: "nonnil", A: Res("core/shared.DecodeErrorResponse", 1, respOf(22))},
			{Name: "the answer was decoded", Kind: "nil", A: decodeOf(respOf(22))},
		}, Fld("OwnershipVoucherHeader.OVGuid", hdr), nil, "0", authz("DO", "INTEROP_DASHBOARD_DO_AUTHZ")},
	}
	own := map[*ssa.Function]bool{r22: true, h32: true, h70: true, h22: true}
	opq := func(except *ssa.Function) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return own[f] && f != except }
	}
	submits := func(in ssa.Instruction) bool { return calleeIs(in, submitEvent) }
	for _, r := range c.rootsCalling(submitEvent) {
		if own[r] || pkgKey(fnPkg(r)) != "." || len(a.effects(r, submits, opq(r))) == 0 {
			continue
		}
		sites = append(sites, site{r, "TO2 at the device (" + fnShort(r) + ")", false, []Req{
			{Name: "TO2 was completed", Kind: "nil", A: done}, simOK,
		}, Fld("WawDeviceCredential.DCGuid", Fld("To2Requestor.Credential", nil)), Fld("To2Requestor.NonceTO2SetupDv64", nil), "2", sims})
	}
	covered := map[ssa.Instruction]bool{}
	success := c.successStarts()
	for _, s := range sites {
		if s.f == nil {
			continue
		}
		n := 0
		for _, e := range a.effects(s.f, submits, opq(s.f)) {
			n++
			covered[e.Instr] = true
			reqs := s.reqs
			c.guard("event guards", s.name, e, reqs)
			if s.ordinary {
				_, ok := e.Facts.m[tagFact("ordinary traffic").Key()]
				c.ob("event guards", s.name+": ordinary traffic", ok, e.Instr.Pos(), "no conformance test is active for this exchange")
			}
			p := e.Instr.Pos()
			if len(e.Args) == 5 {
				c.prov("event content", s.name+": GUID", p, e.Args[1], s.guid, "the GUID of this exchange")
				c.prov("event content", s.name+": protocol", p, e.Args[2], K(s.proto), "the protocol")
				nonce := s.nonce
				if nonce == nil {
					nonce = func(a *Analyzer, t *Term) bool { return t.Op == "param" && typeBase(t.T) == "FdoNonce" }
				}
				c.prov("event content", s.name+": nonce", p, e.Args[3], nonce, "the nonce of this exchange")
				c.prov("event content", s.name+": credentials", p, e.Args[4], s.authz, "the credentials configured for this component")
			}
		}
		c.ob("one event", s.name, n == 1, s.f.Pos(), "%d places submit an event", n)
		// only when enabled, wherever that is checked
		for _, e := range a.effects(s.f, func(in ssa.Instruction) bool { return isHTTPRequest(in) && reaches(c, sub, in.Parent()) }, func(f *ssa.Function) bool { return fnKey(f) == sendPost || opq(s.f)(f) }) {
			via := false
			for _, k := range e.Chain {
				via = via || k == submitEvent
			}
			if via {
				c.guard("event guards", s.name+": request", e, []Req{enabled})
			}
		}
		// a failing submission changes nothing
		c.afterEvent(s.f, s.name, success, opq(s.f))
	}
	for _, ci := range c.allCallSites(submitEvent) {
		c.ob("event places", fnShort(ci.Parent()), covered[ci], ci.Pos(), "events are submitted only where a protocol step was completed")
	}
	c.min("event places", 4)
	c.min("event guards", 20)
	c.min("event content", 16)
	// the request itself
	for _, e := range a.effects(sub, isHTTPRequest, nil) {
		req := e.Args[len(e.Args)-1]
		p := e.Instr.Pos()
		pl := Marshal(func(a *Analyzer, t *Term) bool {
			g, pr, n := fieldOf(t, "IopLoggerPayload.Guid"), fieldOf(t, "IopLoggerPayload.TOProtocol"), fieldOf(t, "IopLoggerPayload.Nonce")
			return g != nil && pr != nil && n != nil && isParamN(sub, g, 1) && isParamN(sub, pr, 2) && isParamN(sub, n, 3)
		})
		c.ob("event request", "content", a.hasSub(req, pl, 0), p, "the encoded GUID, protocol and nonce given: %s", trunc(req.String()))
		c.ob("event request", "address", a.hasSub(req, ctxVal("INTEROP_DASHBOARD_URL"), 0), p, "sent to the configured dashboard")
	}
	for _, e := range a.effects(sub, func(in ssa.Instruction) bool { return calleeIs(in, "net/http.(Header).Set", "net/http.(Header).Add") }, nil) {
		if len(e.Args) == 3 && K("Authorization")(a, strip(e.Args[1])) {
			c.ob("event request", "credentials", isParamN(sub, e.Args[2], 4), e.Instr.Pos(), "the credentials given: %s", trunc(e.Args[2].String()))
		}
	}
	c.min("event request", 3)
	// credentials by component
	if g := c.P.fn("core/shared.IopGetAuthz"); g != nil {
		for comp, key := range map[string]string{"DO": "INTEROP_DASHBOARD_DO_AUTHZ", "RV": "INTEROP_DASHBOARD_RV_AUTHZ"} {
			sp := a.spec(g, []*Term{nil, mk("const", comp, g.Params[1].Type())})
			r := sp.results(g, 0)
			c.ob("component credentials", comp, r != nil && sp.is(r, ctxVal(key)), g.Pos(), "read from %s: %v", key, r)
		}
	} else {
		c.missing("core/shared.IopGetAuthz")
	}
}

// afterEvent: once an event was submitted, with or without success, the exchange ends as a success, and no second event
// is submitted.
func (c *Ctx) afterEvent(f *ssa.Function, name string, success map[ssa.Instruction]bool, opq func(*ssa.Function) bool) {
	isHandler := false
	for _, p := range f.Params {
		isHandler = isHandler || typeBase(p.Type()) == "ResponseWriter"
	}
	is := func(in ssa.Instruction) bool { return calleeIs(in, submitEvent) }
	run := c.A.newTS(&tsRule{
		name:    "C32",
		isEvent: func(in ssa.Instruction) bool { return is(in) || isWriteHeader(in) || isHTTPError(in) },
		event: func(in ssa.Instruction, st string) []tsOutcome {
			switch {
			case is(in):
				v := ""
				if st != "-" {
					v = "a second event is submitted for one exchange"
				}
				return []tsOutcome{{st: "S", res: map[int]int8{0: clNil}, viol: v}, {st: "S", res: map[int]int8{0: clNon}, viol: v}}
			case st == "S" && (isHTTPError(in) || isWriteHeader(in) && !success[in]):
				return []tsOutcome{{st: "A", viol: "an error answer follows the submission of an event"}}
			case st == "S" && isWriteHeader(in):
				return []tsOutcome{{st: "A"}}
			}
			return nil
		},
		opaque: func(g *ssa.Function) bool { return fnKey(g) == submitEvent || opq(g) },
	})
	n := 0
	k := errResult(f)
	for _, e := range run.exits(f, "-") {
		n++
		if e.st != "S" {
			continue
		}
		if isHandler {
			run.violate(f, e.pos, "the request is left without an answer after an event was submitted")
		} else if k >= 0 && k < len(e.res) && e.res[k] != clNil && pkgKey(fnPkg(f)) != "." {
			run.violate(f, e.pos, "the step reports a failure after an event was submitted")
		}
	}
	vs := run.violations()
	c.ob("event changes nothing", name, n > 0 && len(vs) == 0, f.Pos(), "%d exit states; the answer does not depend on the submission", n)
	for _, v := range vs {
		c.ob("event changes nothing", fnShort(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
	}
}

func isParamN(f *ssa.Function, t *Term, i int) bool {
	t = strip(t)
	return t.Op == "param" && t.Idx == i && strings.HasPrefix(t.Name, fnKey(f)+":")
}

// decodeOf: the error result of decoding m.
func decodeOf(m M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "call" || !strings.HasSuffix(t.Name, "Unmarshal") && !strings.HasSuffix(t.Name, "TryCborUnmarshal") {
			return false
		}
		for _, x := range t.Args {
			if a.is(x, m) {
				return true
			}
		}
		return false
	}
}

func reaches(c *Ctx, from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function) bool
	dfs = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, g := range callees(f) {
			if inRepo(g) && dfs(g) {
				return true
			}
		}
		return false
	}
	return dfs(from)
}

// rootsCalling: functions that reach the callee and are not called by the module themselves.
func (c *Ctx) rootsCalling(key string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		cs := c.sitesOf(f)
		if len(cs) == 0 {
			out = append(out, f)
		}
		for _, ci := range cs {
			up(ci.Parent())
		}
	}
	for _, ci := range c.allCallSites(key) {
		up(ci.Parent())
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
	return out
}

// isHTTPRequest: an outgoing request is made.
func isHTTPRequest(in ssa.Instruction) bool {
	return calleeIs(in, "net/http.(Client).Do", "net/http.(Client).Get", "net/http.(Client).Post", "net/http.(Client).PostForm", "net/http.(Client).Head",
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "invoke.RoundTripper.RoundTrip", "net/http.(Transport).RoundTrip")
}

// globalInit: the value a package variable is initialised with, when nothing else writes it.
func (c *Ctx) globalInit(name string) *Term {
	i := strings.LastIndex(name, ".")
	ip := c.P.Short[name[:i]]
	if ip == nil {
		return nil
	}
	sp := c.P.SSA.Package(ip.Types)
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name[i+1:]].(*ssa.Global)
	ini := sp.Func("init")
	if g == nil || ini == nil || c.P.writtenElsewhere(g) {
		return nil
	}
	var out *Term
	for _, e := range c.A.effects(ini, func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		return ok && st.Addr == ssa.Value(g)
	}, nil) {
		if out != nil {
			return nil
		}
		out = storeVal(c, e)
	}
	return out
}

func returnsResponse(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if typeBase(f.Signature.Results().At(i).Type()) == "Response" {
			return true
		}
	}
	return false
}

// bodyClose: the body of a response (or a reader that could be one) is closed.
func bodyClose(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || !calleeIs(in, "invoke.ReadCloser.Close", "invoke.Closer.Close") || !ci.Common().IsInvoke() {
		return false
	}
	v := stripIface(ci.Common().Value)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return typeBase(deref(fa.X.Type())) == "Response"
		}
	}
	return true
}

func positiveConst(t *Term) bool {
	if t == nil {
		return false
	}
	v := constOfTerm(strip(t))
	return v != nil && v.Kind() == constant.Int && constant.Sign(v) > 0
}

func c39(c *Ctx) {
	a := c.A
	testing := func(a *Analyzer, t *Term) bool {
		return t.T != nil && typeBase(t.T) == "FDOTestID" || t.Op == "param"
	}
	status := Res(sendPost, 2)
	a.tagMemo = map[string][]string{}
	a.tags = append(a.tags,
		Tag{Name: "status examined", Alts: []Req{{Kind: "eq", A: status, B: K("200")}, {Kind: "ne", A: K("NULL_TEST"), B: testing}}},
		Tag{Name: "service status examined", Alts: []Req{{Kind: "eq", A: Fld("Response.StatusCode", nil), B: K("200")}, {Kind: "false", A: ctxVal("INTEROP_ENABLED")}}})
	// time limits
	for _, f := range c.P.Funcs {
		direct := false
		eachInstr(f, func(in ssa.Instruction) {
			direct = direct || isHTTPRequest(in)
			if st, ok := in.(*ssa.Store); ok && isFieldStore(in, "Client", "Timeout") {
				v := a.at(st.Val, st)
				c.ob("time limit", fnShort(f)+": client time limit", positiveConst(v), in.Pos(), "set to %v", v)
			}
		})
		if !direct {
			continue
		}
		for _, e := range a.effects(f, isHTTPRequest, nil) {
			if e.Instr.Parent() != f {
				continue
			}
			c.ob("time limit", fnShort(f), c.bounded(f, e, 0), e.Instr.Pos(), "the client has a positive time limit, or the request a deadline: %s", trunc(fmt.Sprint(e.Args)))
		}
	}
	c.min("time limit", 2)
	// response bodies
	reachesHTTP := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if len(a.effects(f, isHTTPRequest, func(g *ssa.Function) bool { return g != f && !returnsResponse(g) })) > 0 {
			reachesHTTP[f] = true
		}
	}
	for _, f := range c.P.Funcs {
		if !reachesHTTP[f] || returnsResponse(f) {
			continue
		}
		run := a.newTS(&tsRule{
			name:    "C39",
			isEvent: func(in ssa.Instruction) bool { return isHTTPRequest(in) || bodyClose(in) },
			event: func(in ssa.Instruction, st string) []tsOutcome {
				switch {
				case isHTTPRequest(in):
					v := ""
					if st == "open" {
						v = "a response is received while the body of an earlier one is still open"
					}
					return []tsOutcome{{st: "open", res: map[int]int8{0: clNon, 1: clNil}, viol: v}, {st: st, res: map[int]int8{0: clNil, 1: clNon}}}
				case bodyClose(in) && st == "open":
					return []tsOutcome{{st: "closed"}}
				}
				return nil
			},
			opaque: func(g *ssa.Function) bool { return g != f && reachesHTTP[g] && !returnsResponse(g) },
		})
		n := 0
		for _, e := range run.exits(f, "closed") {
			n++
			if e.st == "open" {
				run.violate(f, e.pos, "the function is left with the response's body open")
			}
		}
		vs := run.violations()
		c.ob("bodies released", fnShort(f), n > 0 && len(vs) == 0, f.Pos(), "%d exit states", n)
		for _, v := range vs {
			c.ob("bodies released", fnShort(v.fn)+": "+v.msg, false, v.pos, "a control-flow path reaches this point in that state%s", viaText(v))
		}
	}
	c.min("bodies released", 2)
	// the status is handed on, with the body and headers of the same response
	sp := c.P.fn(sendPost)
	if sp == nil {
		c.missing(sendPost)
		return
	}
	resp := Res("net/http.(Client).Do", 0)
	c.prov("status handed on", "status", sp.Pos(), c.nonNilResult(sp, 2), Fld("Response.StatusCode", resp), "the response's status")
	c.prov("status handed on", "body", sp.Pos(), c.nonNilResult(sp, 0), Res("io.ReadAll", 0, Fld("Response.Body", resp)), "the response's body")
	c.summaryHas("status handed on", sp, 3, "nil", []Req{
		{Name: "a response was received", Kind: "nil", A: Res("net/http.(Client).Do", 1)},
		{Name: "its body was read", Kind: "nil", A: Res("io.ReadAll", 1, Fld("Response.Body", resp))},
	})
	// ... and examined before the answer is used
	steps := map[*ssa.Function]bool{}
	for _, f := range c.deviceSteps() {
		steps[f] = true
	}
	covered := map[ssa.Instruction]bool{}
	isSend := func(in ssa.Instruction) bool { return calleeIs(in, sendPost) }
	for _, f := range c.deviceSteps() {
		es := a.effects(f, isSend, func(g *ssa.Function) bool { return g != f && steps[g] })
		k := errResult(f)
		if len(es) == 0 || k < 0 {
			continue
		}
		for _, e := range es {
			covered[e.Instr] = true
		}
		c.hasTag("status examined", f, k, "status examined", "the answer's status is 200 whenever the step succeeds outside a test")
	}
	for _, ci := range c.allCallSites(sendPost) {
		c.ob("request places", fnShort(ci.Parent()), covered[ci], ci.Pos(), "requests of the protocols are sent by the protocol steps")
	}
	c.min("status examined", 10)
	c.min("request places", 10)
	for _, f := range c.P.Funcs {
		k := errResult(f)
		if f == sp || k < 0 || !reachesHTTP[f] || returnsResponse(f) {
			continue
		}
		c.hasTag("service status examined", f, k, "service status examined", "the service's answer has status 200 whenever the call succeeds")
	}
}

func (c *Ctx) hasTag(rule string, f *ssa.Function, k int, tag, what string) {
	fs := c.A.summary(f, k, "nil")
	ok := fs == nil
	if fs != nil {
		_, ok = fs.m[tagFact(tag).Key()]
	}
	c.ob(rule, fnShort(f), ok, f.Pos(), "%s", what)
}

// bounded: the request has a time limit.
func (c *Ctx) bounded(f *ssa.Function, e *Effect, depth int) bool {
	if depth > 3 || len(e.Args) == 0 {
		return false
	}
	deadline := Res("net/http.NewRequestWithContext", 0, Or(Res("context.WithTimeout", 0), Res("context.WithDeadline", 0)))
	if c.A.is(e.Args[len(e.Args)-1], deadline) {
		return true
	}
	cl := strip(e.Args[0])
	if cl.Op == "param" {
		sites := c.sitesOf(f)
		for _, ci := range sites {
			g := ci.Parent()
			for _, e2 := range c.A.effects(g, func(in ssa.Instruction) bool { return in == e.Instr }, nil) {
				if !c.bounded(g, e2, depth+1) {
					return false
				}
			}
		}
		return len(sites) > 0
	}
	if cl.Op == "call" && cl.Fn != nil && inRepo(cl.Fn) {
		r := c.A.results(cl.Fn, cl.Idx)
		if r == nil {
			return false
		}
		for _, x := range alts(r) {
			if !positiveConst(fieldOf(x, "Client.Timeout")) {
				return false
			}
		}
		return true
	}
	if cl.Op == "global" {
		v := c.globalInit(cl.Name)
		return v != nil && positiveConst(fieldOf(v, "Client.Timeout"))
	}
	for _, x := range alts(cl) {
		if !positiveConst(fieldOf(x, "Client.Timeout")) {
			return false
		}
	}
	return true
}
