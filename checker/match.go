package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ssaInstr = ssa.Instruction

// M decides whether a provenance term has a required origin.
type M func(a *Analyzer, t *Term) bool

func calleeIs(in ssa.Instruction, keys ...string) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n, _ := calleeName(c.Common())
	for _, k := range keys {
		if n == k {
			return true
		}
	}
	return false
}

// is: every alternative of t satisfies m, directly or after replacing helper calls by what they return.
func (a *Analyzer) is(t *Term, m M) bool { return a.isD(t, m, 0) }

func (a *Analyzer) isD(t *Term, m M, d int) bool {
	if t == nil || d > 8 {
		return false
	}
	if m(a, t) {
		return true
	}
	if t.Op == "prev" {
		return a.isD(t.Args[0], m, d+1)
	}
	if t.Op == "phi" {
		t = untest(t)
		if t.Op != "phi" {
			return a.isD(t, m, d+1)
		}
		if len(t.Args) == 0 {
			return false
		}
		for _, x := range t.Args {
			if !a.isD(x, m, d+1) {
				return false
			}
		}
		return true
	}
	if s := strip(t); s != t {
		return a.isD(s, m, d+1)
	}
	if e := a.expand(t); e != nil && e.Key() != t.Key() {
		return a.isD(e, m, d+1)
	}
	return false
}

// may: some alternative of t satisfies m.
func (a *Analyzer) may(t *Term, m M) bool { return a.mayD(t, m, 0) }
func (a *Analyzer) mayD(t *Term, m M, d int) bool {
	if t == nil || d > 8 {
		return false
	}
	if m(a, t) {
		return true
	}
	if t.Op == "prev" || t.Op == "test" {
		return a.mayD(t.Args[0], m, d+1)
	}
	if t.Op == "phi" {
		for _, x := range t.Args {
			if a.mayD(x, m, d+1) {
				return true
			}
		}
		return false
	}
	if s := strip(t); s != t {
		return a.mayD(s, m, d+1)
	}
	if e := a.expand(t); e != nil && e.Key() != t.Key() {
		return a.mayD(e, m, d+1)
	}
	return false
}

// strip removes injective re-encodings that preserve equality.
func strip(t *Term) *Term {
	if t.Op == "call" && len(t.Args) >= 1 {
		switch t.Name {
		case "encoding/hex.EncodeToString":
			return t.Args[0]
		case "append": // append([]byte(nil), x...)
			if len(t.Args) == 2 && isEmptyTerm(t.Args[0]) {
				return t.Args[1]
			}
		}
	}
	return t
}

func isEmptyTerm(t *Term) bool {
	if t.Op == "slice" && len(t.Args) == 3 && t.Args[2].Op == "const" && t.Args[2].Name == "0" {
		return true
	}
	return t.Op == "zero" || (t.Op == "const" && t.Name == "nil") || (t.Op == "lit" && len(t.Args) == 0) ||
		(t.Op == "make" && len(t.Args) == 1 && t.Args[0].Op == "const" && t.Args[0].Name == "0")
}

func anyTerm(a *Analyzer, t *Term) bool { return true }

// Fld matches a field read "Type.Field" whose base satisfies base (nil = any).
func Fld(name string, base M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "field" || t.Name != name {
			return false
		}
		return base == nil || a.is(t.Args[0], base)
	}
}

// Out matches an object of the named type filled in by a decoding call (any alternative name for the callee),
// whose source bytes satisfy src (nil = any).
func Out(typ string, src M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "out" || typeBaseOf(t.T) != typ {
			return false
		}
		if src == nil {
			return true
		}
		for _, x := range t.Args {
			if a.is(x, src) {
				return true
			}
		}
		return false
	}
}

// Res matches result idx of a call to key.
func Res(key string, idx int, args ...M) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "call" || t.Name != key || t.Idx != idx {
			return false
		}
		for i, m := range args {
			if m == nil {
				continue
			}
			if i >= len(t.Args) || !a.is(t.Args[i], m) {
				return false
			}
		}
		return true
	}
}

func CallAny(suffixes ...string) M {
	return func(a *Analyzer, t *Term) bool {
		if t.Op != "call" {
			return false
		}
		for _, s := range suffixes {
			if strings.HasSuffix(t.Name, s) {
				return true
			}
		}
		return false
	}
}

func K(v string) M {
	return func(a *Analyzer, t *Term) bool { return t.Op == "const" && t.Name == v }
}

func Or(ms ...M) M {
	return func(a *Analyzer, t *Term) bool {
		for _, m := range ms {
			if m(a, t) {
				return true
			}
		}
		return false
	}
}

// Has: some subterm of t (expanding helpers) satisfies m.
func Has(m M) M {
	return func(a *Analyzer, t *Term) bool { return a.hasSub(t, m, 0) }
}

func (a *Analyzer) hasSub(t *Term, m M, d int) bool {
	if t == nil || d > 14 {
		return false
	}
	if m(a, t) {
		return true
	}
	for _, x := range t.Args {
		if a.hasSub(x, m, d+1) {
			return true
		}
	}
	if d < 8 {
		if e := a.expand(t); e != nil && e.Key() != t.Key() {
			return a.hasSub(e, m, d+1)
		}
	}
	return false
}

// Same matches terms equal to x (call sites ignored).
func Same(x *Term) M {
	k := x.String()
	kk := x.Key()
	_ = k
	return func(a *Analyzer, t *Term) bool { return t.Key() == kk || stripSites(t) == stripSites(x) }
}

func stripSites(t *Term) string {
	var sb strings.Builder
	var w func(t *Term)
	w = func(t *Term) {
		sb.WriteString(t.Op)
		sb.WriteByte('~')
		sb.WriteString(t.Name)
		if t.Op == "call" || t.Op == "out" {
			sb.WriteByte(byte('0' + t.Idx%10))
		}
		sb.WriteByte('(')
		for _, x := range t.Args {
			w(x)
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
	}
	w(t)
	return sb.String()
}

// Param matches the entry's own parameter of the given type name.
func ParamT(typ string) M {
	return func(a *Analyzer, t *Term) bool {
		return t.Op == "param" && t.T != nil && typeBase(t.T) == typ
	}
}

// holds: is there an established fact of this kind about terms matching ma (and mb)?
func (a *Analyzer) holds(fs *FactSet, kind string, ma, mb M) *Fact {
	for _, f := range fs.list() {
		if f.Kind != kind {
			continue
		}
		if f.B == nil {
			if a.is(f.A, ma) {
				return f
			}
			continue
		}
		if mb == nil {
			mb = anyTerm
		}
		if a.is(f.A, ma) && a.is(f.B, mb) {
			return f
		}
		if (kind == "eq" || kind == "ne") && a.is(f.B, ma) && a.is(f.A, mb) {
			return f
		}
	}
	return nil
}

// Req is one obligation at an effect: a named fact that must have been established on every path.
type Req struct {
	Name string
	Kind string // eq ne nil nonnil true false called
	A, B M
	Or   []Req // alternatives
}

func (a *Analyzer) req(fs *FactSet, r Req) *Fact {
	if r.A != nil {
		if f := a.holds(fs, r.Kind, r.A, r.B); f != nil {
			return f
		}
	}
	for _, o := range r.Or {
		if f := a.req(fs, o); f != nil {
			return f
		}
	}
	for _, f := range fs.m {
		if f.Or == nil {
			continue
		}
		all := true
		for _, c := range f.Or {
			w := newFS()
			for _, x := range c {
				w.add(x)
			}
			if a.req(w, r) == nil {
				all = false
				break
			}
		}
		if all {
			return f
		}
	}
	return nil
}

// holdsAll: an established "for every element of <range>" fact.
func (a *Analyzer) holdsAll(fs *FactSet, kind string, r, ma, mb M) *Fact {
	for _, f := range fs.list() {
		if f.Kind != "all:"+kind || f.R == nil || !a.is(f.R, r) {
			continue
		}
		if f.B == nil || mb == nil {
			if a.is(f.A, ma) || (f.B != nil && a.is(f.B, ma)) {
				return f
			}
			continue
		}
		if (a.is(f.A, ma) && a.is(f.B, mb)) || (a.is(f.B, ma) && a.is(f.A, mb)) {
			return f
		}
	}
	return nil
}

// Tag names a derived fact: established when any of the alternatives is.
type Tag struct {
	Name string
	Alts []Req
	Conj [][]Req // each alternative holds when all of its facts do
}

func typeNamed(t types.Type, name string) bool { return t != nil && typeBase(t) == name }
