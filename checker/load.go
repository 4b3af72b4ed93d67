package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/fido-alliance/iot-fdo-conformance-tools"

// Prog is the resolved program: every non-test package of /repo, type checked, with SSA bodies.
type Prog struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	Short map[string]*packages.Package // package path relative to the module -> package
	Funcs []*ssa.Function              // every function with a body defined in the module (incl. closures)
	byKey map[string]*ssa.Function
	nFile int
}

func loadProg(root string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOENV=off", "CGO_ENABLED=0", "GOWORK=off", "GO111MODULE=on")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: env,
	}
	initial, err := packages.Load(cfg, "./...", "./.build_helper")
	if err != nil {
		return nil, err
	}
	if len(initial) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", root)
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if ov := rangeIntOverlay(initial); len(ov) > 0 {
		cfg.Overlay = ov
		again, err := packages.Load(cfg, "./...", "./.build_helper")
		good := err == nil && len(again) == len(initial)
		for _, p := range again {
			good = good && len(p.Errors) == 0
		}
		if good {
			initial = again
		}
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	p := &Prog{Root: root, SSA: prog, Fset: initial[0].Fset, Pkgs: initial, Short: map[string]*packages.Package{}, byKey: map[string]*ssa.Function{}}
	for _, ip := range initial {
		sp := prog.Package(ip.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ip.PkgPath)
		}
		sp.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(ip.PkgPath, modPath), "/")
		p.Short[rel] = ip
		p.nFile += len(ip.CompiledGoFiles)
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, ip := range initial {
		sp := prog.Package(ip.Types)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := types.NewMethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && inRepo(f) {
							add(f)
						}
					}
				}
			}
		}
	}
	// generic instantiations reached from module code
	for changed := true; changed; {
		changed = false
		for _, f := range append([]*ssa.Function(nil), p.Funcs...) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						g := c.Common().StaticCallee()
						if g != nil && g.Origin() != nil && inRepo(g) && !seen[g] {
							add(g)
							changed = true
						}
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		bindClosures(f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return fnKey(p.Funcs[i]) < fnKey(p.Funcs[j]) })
	for _, f := range p.Funcs {
		p.byKey[fnKey(f)] = f
	}
	return p, nil
}

// localClosures: closures kept in a local variable that is assigned once and only ever called.
var localClosures = map[*ssa.MakeClosure]bool{}

// boundClosure: the one place that makes the closure whose calls bindClosures made static.
var boundClosure = map[*ssa.Function]*ssa.MakeClosure{}

// bindClosures makes the calls of a function variable that is assigned one function, once, static calls of that function.
func bindClosures(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			if _, ok := deref(al.Type()).Underlying().(*types.Signature); !ok {
				continue
			}
			var fn ssa.Value
			var calls []ssa.CallInstruction
			stores, ok := 0, true
			var uses func(v ssa.Value)
			uses = func(v ssa.Value) {
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.DebugRef:
					case *ssa.Store:
						if r.Addr != v {
							ok = false
							continue
						}
						stores++
						fn = r.Val
					case *ssa.UnOp:
						for _, u := range *r.Referrers() {
							ci, isC := u.(ssa.CallInstruction)
							if _, dbg := u.(*ssa.DebugRef); dbg {
								continue
							}
							if !isC || ci.Common().Value != ssa.Value(r) {
								ok = false
								continue
							}
							for _, x := range ci.Common().Args {
								ok = ok && x != ssa.Value(r)
							}
							calls = append(calls, ci)
						}
					case *ssa.MakeClosure:
						g := r.Fn.(*ssa.Function)
						for i, x := range r.Bindings {
							if x == v {
								uses(g.FreeVars[i])
							}
						}
					default:
						ok = false
					}
				}
			}
			uses(al)
			if !ok || stores != 1 {
				continue
			}
			var g *ssa.Function
			switch v := fn.(type) {
			case *ssa.MakeClosure:
				g = v.Fn.(*ssa.Function)
				n := 0
				for _, r := range *v.Referrers() {
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						n++
					}
				}
				if n == 1 && len(calls) > 0 {
					localClosures[v] = true
				}
				boundClosure[g] = v
			case *ssa.Function:
				g = v
			default:
				continue
			}
			for _, ci := range calls {
				ci.Common().Value = g
			}
		}
	}
}

func fnPkg(f *ssa.Function) *types.Package {
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func inRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func inRepo(f *ssa.Function) bool { return f != nil && inRepoPkg(fnPkg(f)) }

// short package name used in keys: path below the module, or the full path for others.
func pkgKey(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Path() == modPath {
		return "."
	}
	return strings.TrimPrefix(p.Path(), modPath+"/")
}

// fnKey gives a stable name: "core/rv.(RvTo0).Handle20Hello", "core/shared.VerifyHash", "bytes.Equal"
func fnKey(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	pk := pkgKey(fnPkg(f))
	if r := f.Signature.Recv(); r != nil {
		return pk + ".(" + typeBase(r.Type()) + ")." + f.Name()
	}
	n := f.Name()
	if f.Origin() != nil {
		n = f.Origin().Name()
	}
	return pk + "." + n
}

func typeBase(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// fn looks a module function up by key, e.g. "core/rv.(RvTo0).Handle20Hello".
func (p *Prog) fn(key string) *ssa.Function { return p.byKey[key] }

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Prog) fnPos(f *ssa.Function) string { return p.pos(f.Pos()) }

// constant value of a package level constant as an exact string
func (p *Prog) constVal(pkg, name string) (string, bool) {
	ip := p.Short[pkg]
	if ip == nil {
		return "", false
	}
	c, ok := ip.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return "", false
	}
	return c.Val().ExactString(), true
}

// syntax file iteration
func (p *Prog) eachFile(f func(pk *packages.Package, file *ast.File)) {
	for _, pk := range p.Pkgs {
		for _, file := range pk.Syntax {
			f(pk, file)
		}
	}
}

// rangeIntOverlay: loops of the form "for i := range n" over an int are analysed as the equivalent
// "for i := 0; i < n; i++", the form whose bounds the analyses read; lines keep their numbers.
func rangeIntOverlay(pkgs []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	k := 0
	for _, pk := range pkgs {
		for _, file := range pk.Syntax {
			type edit struct {
				from, to int
				text     string
			}
			var edits []edit
			var src []byte
			name := pk.Fset.Position(file.Pos()).Filename
			ast.Inspect(file, func(n ast.Node) bool {
				r, ok := n.(*ast.RangeStmt)
				if !ok || r.Value != nil || r.Tok == token.ASSIGN {
					return true
				}
				b, ok := pk.TypesInfo.TypeOf(r.X).Underlying().(*types.Basic)
				if !ok || b.Kind() != types.Int && b.Kind() != types.UntypedInt {
					return true
				}
				if _, named := types.Unalias(pk.TypesInfo.TypeOf(r.X)).(*types.Named); named {
					return true
				}
				v := ""
				if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
					v = id.Name
					obj := pk.TypesInfo.Defs[id]
					assigned := false
					ast.Inspect(r.Body, func(m ast.Node) bool {
						switch x := m.(type) {
						case *ast.AssignStmt:
							for _, l := range x.Lhs {
								if i, ok := l.(*ast.Ident); ok && pk.TypesInfo.Uses[i] == obj {
									assigned = true
								}
							}
						case *ast.IncDecStmt:
							if i, ok := x.X.(*ast.Ident); ok && pk.TypesInfo.Uses[i] == obj {
								assigned = true
							}
						case *ast.UnaryExpr:
							if i, ok := x.X.(*ast.Ident); ok && x.Op == token.AND && pk.TypesInfo.Uses[i] == obj {
								assigned = true
							}
						}
						return true
					})
					if assigned {
						return true
					}
				} else {
					k++
					v = fmt.Sprintf("range__%d", k)
				}
				if src == nil {
					var err error
					if src, err = os.ReadFile(name); err != nil {
						return false
					}
				}
				tf := pk.Fset.File(file.Pos())
				x := string(src[tf.Offset(r.X.Pos()):tf.Offset(r.X.End())])
				edits = append(edits, edit{tf.Offset(r.For) + 3, tf.Offset(r.X.End()), fmt.Sprintf(" %s := 0; %s < (%s); %s++", v, v, x, v)})
				return true
			})
			if len(edits) == 0 || src == nil {
				continue
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			for _, e := range edits {
				src = append(append(append([]byte{}, src[:e.from]...), e.text...), src[e.to:]...)
			}
			out[name] = src
		}
	}
	return out
}
