package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Wire layout (C34): the CBOR shape of every value that a handler or requestor step decodes from, or encodes for, its peer,
// computed from the resolved Go types and struct tags and compared with the frozen CDDL of FDO 1.1. Places are named by
// message number and position, never by Go identifier.

func init() {
	reg("C34", "shape computation: the CBOR layout of every Go type decoded from or encoded for a peer, at its place in its message (found by provenance from the request body, the answer body and the posted payload), against the frozen message definitions of FDO 1.1; tag registrations, assigned numbers and the value type of each rendezvous and devmod entry likewise.", c34)
}

// wt is a CBOR shape.
type wt struct {
	k    string // uint, int, bool, text, bytes, any, null, arr, list, map, tag, other
	n    int64  // bits, byte-string length, tag number
	id   string // guid or nonce
	opt  bool   // nullable
	omit bool   // left out of a map when empty
	args []*wt
	keys []string
}

func (w *wt) String() string {
	s := w.k
	switch w.k {
	case "uint", "int", "bytes":
		if w.id != "" {
			s = w.id
		} else if w.n > 0 {
			s += strconv.FormatInt(w.n, 10)
		}
	case "arr":
		var as []string
		for _, x := range w.args {
			as = append(as, x.String())
		}
		s = "[" + strings.Join(as, " ") + "]"
	case "list":
		s = "[*" + w.args[0].String() + "]"
	case "map":
		var as []string
		for i, x := range w.args {
			o := ""
			if x.omit {
				o = "?"
			}
			as = append(as, w.keys[i]+o+":"+x.String())
		}
		s = "{" + strings.Join(as, " ") + "}"
	case "tag":
		s = fmt.Sprintf("%d(%s)", w.n, w.args[0])
	}
	if w.opt {
		s += "?"
	}
	return s
}

// wireFields lists the fields of a struct that are encoded, with their map keys (empty for a struct encoded as an array).
func wireFields(st *types.Struct) (idx []int, keys []string, omit []bool, arr bool) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("cbor")
		if tag == "" {
			tag = reflect.StructTag(st.Tag(i)).Get("json")
		}
		parts := strings.Split(tag, ",")
		has := func(o string) bool {
			for _, p := range parts[1:] {
				if p == o {
					return true
				}
			}
			return false
		}
		if f.Name() == "_" {
			arr = arr || has("toarray")
			continue
		}
		if !f.Exported() || parts[0] == "-" && len(parts) == 1 {
			continue
		}
		key := parts[0]
		switch {
		case key == "":
			key = "text " + f.Name()
		case !has("keyasint"):
			key = "text " + key
		}
		idx, keys, omit = append(idx, i), append(keys, key), append(omit, has("omitempty") || has("omitzero"))
	}
	return
}

// shape computes the layout of a Go type under the registered tags.
func (w *wire) shape(t types.Type, d int) *wt {
	if d > 12 {
		return &wt{k: "other"}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		x := *w.shape(p.Elem(), d+1)
		x.opt = true
		return &x
	}
	if n, ok := t.(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			switch n.Method(i).Name() {
			case "MarshalCBOR", "UnmarshalCBOR", "MarshalBinary", "UnmarshalBinary":
				return &wt{k: "other"}
			}
		}
		if no, ok := w.tags[typeBase(n)]; ok && !w.plain {
			in := w.shapeU(t, d+1)
			return &wt{k: "tag", n: no, args: []*wt{in}}
		}
	}
	return w.shapeU(t, d)
}

func (w *wire) shapeU(t types.Type, d int) *wt {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		bits := map[types.BasicKind]int64{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64}[u.Kind()]
		switch {
		case i&types.IsBoolean != 0:
			return &wt{k: "bool"}
		case i&types.IsString != 0:
			return &wt{k: "text"}
		case i&types.IsUnsigned != 0:
			return &wt{k: "uint", n: bits}
		case i&types.IsInteger != 0:
			return &wt{k: "int", n: bits}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return &wt{k: "bytes"}
		}
		return &wt{k: "list", args: []*wt{w.shape(u.Elem(), d+1)}}
	case *types.Array:
		if isByte(u.Elem()) {
			return &wt{k: "bytes", n: u.Len(), id: map[string]string{"FdoGuid": "guid", "FdoNonce": "nonce"}[typeBase(t)]}
		}
		out := &wt{k: "arr"}
		for i := int64(0); i < u.Len() && i < 32; i++ {
			out.args = append(out.args, w.shape(u.Elem(), d+1))
		}
		return out
	case *types.Interface:
		return &wt{k: "any"}
	case *types.Struct:
		idx, keys, omit, arr := wireFields(u)
		out := &wt{k: "map"}
		if arr {
			out.k = "arr"
		}
		for j, i := range idx {
			x := *w.shape(u.Field(i).Type(), d+1)
			x.omit = omit[j] && !arr
			out.args = append(out.args, &x)
			if !arr {
				out.keys = append(out.keys, keys[j])
			}
		}
		return out
	}
	return &wt{k: "other"}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// fits: a value of Go shape g is encoded, and decoded, as the definition s says.
func fits(s, g *wt) bool {
	if s.k == "any" {
		return g.k != "other"
	}
	if s.opt != g.opt || s.id != "" && s.id != g.id {
		return false
	}
	switch s.k {
	case "uint":
		return g.k == "uint" && g.n >= s.n || g.k == "int" && g.n > s.n
	case "int":
		return g.k == "int" && g.n >= s.n
	case "bytes":
		return g.k == "bytes" && g.n == s.n
	case "tag":
		return g.k == "tag" && g.n == s.n && fits(s.args[0], g.args[0])
	case "list":
		return g.k == "list" && fits(s.args[0], g.args[0])
	case "arr":
		if g.k != "arr" || len(g.args) != len(s.args) {
			return false
		}
		for i := range s.args {
			if !fits(s.args[i], g.args[i]) {
				return false
			}
		}
		return true
	case "map":
		if g.k != "map" || len(g.args) != len(s.args) {
			return false
		}
		for i, k := range s.keys {
			ok := false
			for j, gk := range g.keys {
				if gk == k {
					x, y := *s.args[i], *g.args[j]
					// an absent entry is left out, never sent as null
					if y.opt && !y.omit {
						return false
					}
					x.opt, y.opt = false, false
					ok = fits(&x, &y)
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return s.k == g.k
}

// parseWT reads a definition: uint16 bytes16 text [..] [*..] {key:..} 18(..) name, each optionally followed by "?".
func parseWT(s string, defs map[string]string) *wt {
	p := &wtParser{s: s, defs: defs}
	x := p.one()
	if x == nil || strings.TrimSpace(p.s) != "" {
		panic("bad wire definition " + s)
	}
	return x
}

type wtParser struct {
	s    string
	defs map[string]string
}

func (p *wtParser) eat(tok string) bool {
	p.s = strings.TrimLeft(p.s, " ")
	if strings.HasPrefix(p.s, tok) {
		p.s = p.s[len(tok):]
		return true
	}
	return false
}

func (p *wtParser) word() string {
	p.s = strings.TrimLeft(p.s, " ")
	i := 0
	for i < len(p.s) && (p.s[i] == '-' || p.s[i] == '_' || p.s[i] >= '0' && p.s[i] <= '9' || p.s[i] >= 'a' && p.s[i] <= 'z' || p.s[i] >= 'A' && p.s[i] <= 'Z') {
		i++
	}
	w := p.s[:i]
	p.s = p.s[i:]
	return w
}

func (p *wtParser) one() *wt {
	var out *wt
	switch {
	case p.eat("[*"):
		out = &wt{k: "list", args: []*wt{p.one()}}
		p.eat("]")
	case p.eat("["):
		out = &wt{k: "arr"}
		for !p.eat("]") {
			out.args = append(out.args, p.one())
		}
	case p.eat("{"):
		out = &wt{k: "map"}
		for !p.eat("}") {
			out.keys = append(out.keys, p.word())
			p.eat(":")
			out.args = append(out.args, p.one())
		}
	default:
		w := p.word()
		if n, err := strconv.Atoi(w); err == nil && p.eat("(") {
			out = &wt{k: "tag", n: int64(n), args: []*wt{p.one()}}
			p.eat(")")
			break
		}
		if d, ok := p.defs[w]; ok {
			out = parseWT(d, p.defs)
			break
		}
		k := strings.TrimRight(w, "0123456789")
		n, _ := strconv.Atoi(w[len(k):])
		out = &wt{k: k, n: int64(n)}
		switch k {
		case "guid", "nonce":
			out.k, out.n, out.id = "bytes", 16, k
		case "uint", "int", "bytes", "text", "bool", "any":
		default:
			panic("bad wire definition " + w)
		}
	}
	if p.eat("?") {
		out.opt = true
	}
	return out
}

// FDO 1.1: the parts messages are made of, and the messages; a/b is what the byte string at position b of a holds.
var fdoDefs = map[string]string{
	"hash":    "[int bytes]",
	"pk":      "[uint uint any]",
	"sigInfo": "[int bytes]",
	"hdr":     "{256:nonce 257:pk -258:bytes -259:nonce 5:bytes}",
	"sig":     "18([bytes hdr bytes bytes])",
	"rvInfo":  "[*[*[uint bytes]]]",
	"addr":    "[bytes? text? uint16 uint]",
	"voucher": "[uint bytes hash certs? [*sig]]",
	"certs":   "[*bytes]",
	"simKV":   "[text bytes]",
	"eat":     "{10:nonce 256:bytes17 -257:[bytes]}",
}

// the order of neighbours that have the same shape; a field of another name is not judged.
var wireOrder = map[string][]string{
	"TO2ProveOVHdrPayload": {"2 HMac", "6 HelloDeviceHash"},
	"OVEntryPayload":       {"0 OVEHashPrevEntry", "1 OVEHashHdrInfo"},
	"OwnerServiceInfo69":   {"0 IsMoreServiceInfo", "1 IsDone"},
	"CoseSignature":        {"2 Payload", "3 Signature"},
	"ETMOuterBlock":        {"2 Payload", "3 Tag"},
}

var wireMsgs = map[string]string{
	"20":       "[]",
	"21":       "[nonce]",
	"22":       "[bytes sig]",
	"22/0":     "[voucher uint32 nonce]",
	"22/0/0/1": "[uint guid rvInfo text pk hash?]",
	"22/1/2":   "[[*addr] hash]",
	"23":       "[uint32]",
	"30":       "[guid sigInfo]",
	"31":       "[nonce sigInfo]",
	"32":       "sig",
	"32/2":     "eat",
	"33":       "sig",
	"33/2":     "[[*addr] hash]",
	"60":       "[uint16 guid nonce text int sigInfo]",
	"61":       "sig",
	"61/2":     "[bytes uint8 hash nonce sigInfo bytes hash uint16]",
	"61/2/0":   "[uint guid rvInfo text pk hash?]",
	"62":       "[uint8]",
	"63":       "[uint8 sig]",
	"63/1/2":   "[hash hash bytes? pk]",
	"64":       "sig",
	"64/2":     "eat",
	"65":       "sig",
	"65/2":     "[rvInfo guid nonce pk]",
	"66":       "[hash? uint16?]",
	"67":       "[uint16?]",
	"68":       "[bool [*simKV]]",
	"69":       "[bool bool [*simKV]]",
	"70":       "[nonce]",
	"71":       "[nonce]",
	// parts found by their type
	"COSE key":         "{1:any 3:any -1:any -2:bytes -3:bytes}",
	"protected header": "{1:int 4:bytes 5:bytes 6:bytes}",
	"Sig_structure":    "[text bytes bytes bytes]",
	"outer block":      "[bytes hdr bytes bytes]",
	"encrypted block":  "16([bytes hdr bytes])",
	"255":              "[uint16 uint8 text any uint]",
}

type wire struct {
	c    *Ctx
	tags map[string]int64
	spec map[string]*wt
	seen map[string]bool
	got  map[string]int
	// the codec in use is the library's own, without tags
	plain bool
}

// isPlain: the library's codec is called directly.
func isPlain(name string) bool {
	return strings.HasSuffix(name, "fxamacker/cbor/v2.Marshal") || strings.HasSuffix(name, "fxamacker/cbor/v2.Unmarshal")
}

const tagCodec = "core/shared.(CBOR_CUSTOM_TAGS)."

func isCodec(name, what string) bool {
	return name == tagCodec+what || name == "core/shared.(*CBOR_CUSTOM_TAGS)."+what || strings.HasSuffix(name, "fxamacker/cbor/v2."+what)
}

func c34(c *Ctx) {
	w := &wire{c: c, tags: map[string]int64{}, spec: map[string]*wt{}, seen: map[string]bool{}, got: map[string]int{}}
	for k, d := range wireMsgs {
		w.spec[k] = parseWT(d, fdoDefs)
	}
	w.codec()
	for _, m := range []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70} {
		h := c.handler(m)
		if h == nil {
			c.missing("handler of message " + itoa(m))
			continue
		}
		c.A.visitedF[h] = true
		for _, e := range w.decodes(h) {
			if p, ok := w.path(e.Args[w.bytesArg(e)], func(t *Term) string {
				if t.Op == "call" && strings.HasSuffix(t.Name, ".ReadAll") && t.Idx == 0 && len(t.Args) == 1 && reqBodyRaw(c.A, untest(t.Args[0])) {
					return itoa(m)
				}
				return ""
			}, 0); ok {
				w.check("decoded by the handler of "+itoa(m), p, w.target(e), e)
			}
		}
		for _, e := range c.answerBodies(h) {
			w.enc(e.Args[len(e.Args)-1], itoa(m+1), "encoded by the handler of "+itoa(m), e, 0)
		}
	}
	for _, f := range c.deviceSteps() {
		c.A.visitedF[f] = true
		for _, s := range c.callsTo(f, "core/shared.SendCborPost") {
			m := constMsg(s.Args[1])
			if m < 0 {
				continue
			}
			w.enc(s.Args[2], itoa(m), "encoded by "+fnShort(f), s, 0)
			for _, e := range w.decodes(f) {
				if p, ok := w.path(e.Args[w.bytesArg(e)], func(t *Term) string {
					if t.Op == "call" && t.Name == "core/shared.SendCborPost" && t.Idx == 0 && len(t.Args) > 1 && constMsg(t.Args[1]) == m {
						return itoa(m + 1)
					}
					return ""
				}, 0); ok {
					w.check("decoded by "+fnShort(f), p, w.target(e), e)
				}
			}
		}
	}
	// error bodies
	for _, f := range c.P.Funcs {
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			n, _ := calleeName(ci.Common())
			if !isCodec(n, "Marshal") && !isCodec(n, "Unmarshal") {
				return
			}
			as := ci.Common().Args
			t := deref(bare(as[len(as)-1]).Type())
			if typeBase(t) == "FdoError" {
				w.plain = isPlain(n)
				w.shapeOb("an error body in "+fnShort(f), "255", t, in.Pos())
				w.plain = false
			}
		})
	}
	var ks []string
	for k := range w.spec {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n := 0
		for g, x := range w.got {
			if g == k {
				n += x
			}
		}
		if n == 0 && k[0] >= '0' && k[0] <= '9' && k != "22/0/0/1" && k != "61/2/0" && k != "63/1/2" && k != "33/2" {
			c.missing("the layout of " + k)
		}
	}
	w.nested()
	w.numbers()
	c.min("message layout", 60)
}

// nested: the parts of a voucher, wherever they are decoded or encoded.
func (w *wire) nested() {
	c := w.c
	for _, x := range []struct{ name, path string }{{"OwnershipVoucherHeader", "22/0/0/1"}, {"OVEntryPayload", "63/1/2"}, {"To1dBlobPayload", "33/2"}, {"CosePublicKey", "COSE key"}, {"ProtectedHeader", "protected header"}, {"CoseSignatureStructure", "Sig_structure"}, {"ETMOuterBlock", "outer block"}, {"EMB_ETMInnerBlock", "encrypted block"}} {
		for _, f := range c.P.Funcs {
			eachInstr(f, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				nm, _ := calleeName(ci.Common())
				if !isCodec(nm, "Marshal") && !isCodec(nm, "Unmarshal") {
					return
				}
				as := ci.Common().Args
				if t := deref(bare(as[len(as)-1]).Type()); typeBase(t) == x.name {
					w.plain = isPlain(nm)
					w.shapeOb(x.name+" in "+fnShort(f), x.path, t, in.Pos())
					w.plain = false
				}
			})
		}
	}
}

func (w *wire) shapeOb(where, path string, t types.Type, pos token.Pos) {
	g := w.shape(deref(t), 0)
	w.got[path]++
	w.c.ob("message layout", where+": "+path, fits(w.spec[path], g), pos, "%s is laid out as %s; message part %s is %s", types.TypeString(t, pkgQual), g, path, w.spec[path])
}

func (w *wire) check(where, path string, t types.Type, e *Effect) {
	if w.spec[path] == nil || t == nil || inChain(e, "core/shared.RemoveEncryptionWrapping") {
		return
	}
	// a judge picks the message by test ID
	if rs := e.Instr.Parent().Signature.Results(); rs.Len() > 0 && typeBase(deref(rs.At(rs.Len()-1).Type())) == "FDOTestState" {
		for _, m := range []string{"21", "23", "31", "33", "61", "63", "65", "67", "69", "71"} {
			if fits(w.spec[m], w.shape(deref(t), 0)) {
				return
			}
		}
	}
	if ci, ok := e.Instr.(ssa.CallInstruction); ok && !w.plain {
		n, _ := calleeName(ci.Common())
		w.plain = isPlain(n)
		defer func() { w.plain = false }()
	}
	k := fmt.Sprint(where, path, t.String(), e.Instr.Pos())
	if w.seen[k] || typeBase(deref(t)) == "FdoError" {
		return
	}
	w.seen[k] = true
	w.shapeOb(where, path, t, e.Instr.Pos())
}

func (w *wire) decodes(f *ssa.Function) []*Effect {
	return w.c.A.effects(f, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n, _ := calleeName(ci.Common())
		return isCodec(n, "Unmarshal")
	}, nil)
}

func (w *wire) bytesArg(e *Effect) int { return len(e.Args) - 2 }

// target: the type decoded into.
func (w *wire) target(e *Effect) types.Type {
	t := e.Args[len(e.Args)-1]
	for _, x := range alts(t) {
		if x = unwrapTerm(x); x.T != nil && !isIface(x.T) {
			return deref(x.T)
		}
	}
	as := e.Instr.(ssa.CallInstruction).Common().Args
	if v := bare(as[len(as)-1]); !isIface(v.Type()) {
		return deref(v.Type())
	}
	return nil
}

// path names the place in a message that the bytes t come from.
func (w *wire) path(t *Term, root func(*Term) string, d int) (string, bool) {
	if t == nil || d > 30 {
		return "", false
	}
	for t.Op == "test" || t.Op == "prev" {
		t = t.Args[0]
	}
	t = unwrapTerm(t)
	if r := root(t); r != "" {
		return r, true
	}
	switch t.Op {
	case "phi":
		for _, x := range t.Args {
			if p, ok := w.path(x, root, d+1); ok {
				return p, true
			}
		}
	case "field":
		p, ok := w.path(t.Args[0], root, d+1)
		if !ok {
			return "", false
		}
		i := w.position(t)
		if i == "" {
			return "", false
		}
		return p + "/" + i, true
	case "out":
		if isCodec(t.Name, "Unmarshal") || strings.HasSuffix(t.Name, ".TryCborUnmarshal") {
			for _, x := range t.Args {
				if p, ok := w.path(x, root, d+1); ok {
					return p, true
				}
			}
		}
	case "call":
		if strings.HasSuffix(t.Name, ".RemoveEncryptionWrapping") && len(t.Args) > 0 {
			return w.path(t.Args[0], root, d+1)
		}
		if t.Fn != nil && inRepo(t.Fn) {
			if e := w.c.A.expand(t); e != nil && e.Key() != t.Key() {
				return w.path(e, root, d+1)
			}
		}
	}
	return "", false
}

// position of the field in the encoding of its struct.
func (w *wire) position(t *Term) string {
	bt := t.Args[0].T
	i := strings.LastIndex(t.Name, ".")
	if i < 0 {
		return ""
	}
	owner, fld := t.Name[:i], t.Name[i+1:]
	if bt == nil || typeBase(deref(bt)) != owner {
		bt = nil
		for _, p := range w.c.P.Short {
			if o, ok := p.Types.Scope().Lookup(owner).(*types.TypeName); ok {
				bt = o.Type()
			}
		}
	}
	if bt == nil {
		return ""
	}
	return fieldPos(bt, fld)
}

func fieldPos(t types.Type, name string) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	idx, keys, _, arr := wireFields(st)
	for j, k := range idx {
		if st.Field(k).Name() == name {
			if arr {
				return itoa(j)
			}
			return keys[j]
		}
	}
	return ""
}

// enc follows what is sent as (part of) a message down to the values that are encoded.
func (w *wire) enc(t *Term, path, where string, e *Effect, d int) {
	if t == nil || d > 20 {
		return
	}
	t = untest(t)
	for _, x := range alts(t) {
		for x.Op == "prev" {
			x = x.Args[0]
		}
		x = unwrapTerm(x)
		if x.Op == "test" {
			continue
		}
		if x.Op != "call" {
			continue
		}
		switch {
		case isCodec(x.Name, "Marshal"):
			v := x.Args[len(x.Args)-1]
			if vt := valueType(v); vt != nil {
				w.plain = isPlain(x.Name)
				w.check(where, path, vt, e)
				w.plain = false
			}
			w.val(v, path, where, e, d+1)
		case strings.HasSuffix(x.Name, ".AddEncryptionWrapping") && len(x.Args) > 0:
			w.enc(x.Args[0], path, where, e, d+1)
		case x.Fn != nil && inRepo(x.Fn):
			if y := w.c.A.expand(x); y != nil && y.Key() != x.Key() {
				w.enc(y, path, where, e, d+1)
			}
		}
	}
}

// val: the encoded byte strings inside a value.
func (w *wire) val(t *Term, path, where string, e *Effect, d int) {
	if t == nil || d > 20 {
		return
	}
	for _, x := range alts(untest(t)) {
		x = unwrapTerm(x)
		if x.Op == "test" {
			continue
		}
		if x.Op == "call" && x.Fn != nil && inRepo(x.Fn) {
			if y := w.c.A.expand(x); y != nil && y.Key() != x.Key() {
				w.val(y, path, where, e, d+1)
			}
			continue
		}
		if x.Op != "lit" || x.Name != "struct" {
			continue
		}
		for _, kv := range x.Args {
			if len(kv.Args) != 1 {
				continue
			}
			i := strings.LastIndex(kv.Name, ".")
			pos := ""
			if x.T != nil && i > 0 {
				pos = fieldPos(x.T, kv.Name[i+1:])
			}
			if pos == "" {
				continue
			}
			w.enc(kv.Args[0], path+"/"+pos, where, e, d+1)
			w.val(kv.Args[0], path+"/"+pos, where, e, d+1)
		}
	}
}

func valueType(t *Term) types.Type {
	for _, x := range alts(untest(t)) {
		if x.Op == "test" {
			continue
		}
		if x = unwrapTerm(x); x.T != nil && !isIface(x.T) {
			return deref(x.T)
		}
	}
	return nil
}

// codec: the tags both directions of the codec register.
func (w *wire) codec() {
	c := w.c
	want := map[string]string{"CoseSignature": "18", "EMB_ETMInnerBlock": "16", "COSEMacStructure": "17"}
	for _, dir := range []struct{ name, mode, call string }{{"Marshal", "EncModeWithTags", "EncTag"}, {"Unmarshal", "DecModeWithTags", "DecTag"}} {
		f := c.P.fn("core/shared.(*CBOR_CUSTOM_TAGS)." + dir.name)
		if f == nil {
			f = c.P.fn(tagCodec + dir.name)
		}
		if f == nil {
			c.missing("codec " + dir.name)
			continue
		}
		c.A.visitedF[f] = true
		got := map[string]bool{}
		for _, e := range c.A.effects(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n, _ := calleeName(ci.Common())
			return strings.HasSuffix(n, ".TagSet.Add")
		}, nil) {
			if len(e.Args) < 4 {
				continue
			}
			wantReq := w.libConst(dir.call + "Required")
			req := projField(e.Args[1], "TagOptions."+dir.call, nil)
			one := func(typ, num *Term) {
				name := ""
				if typ = untest(typ); typ.Op == "call" && strings.HasSuffix(typ.Name, "reflect.TypeOf") && len(typ.Args) == 1 {
					if t := valueType(typ.Args[0]); t != nil {
						name = typeBase(t)
					}
				}
				n, err := strconv.ParseInt(numOf(num), 10, 64)
				if err != nil || name == "" {
					return
				}
				w.tags[name] = n
				got[name] = true
				if x, ok := want[name]; ok {
					c.ob("tag registration", dir.name+" "+name, itoa(int(n)) == x && req != nil && numOf(req) == wantReq, e.Instr.Pos(), "%s carries CBOR tag %s, required by the %s direction (registered %d, option %s)", name, x, dir.name, n, req)
				}
			}
			if len(alts(e.Args[2])) == 1 {
				one(e.Args[2], e.Args[3])
				continue
			}
			// the rows of a table the registration loops over
			for _, fa := range e.Facts.m {
				if fa.Kind != "lt" || fa.B == nil || fa.B.Name != "len" || len(fa.B.Args) != 1 || fa.B.Args[0].Op != "lit" {
					continue
				}
				for _, row := range fa.B.Args[0].Args {
					if len(row.Args) != 1 || row.Args[0].Op != "lit" {
						continue
					}
					var typ, num *Term
					for _, kv := range row.Args[0].Args {
						if len(kv.Args) == 1 && numOf(kv.Args[0]) != "" {
							num = kv.Args[0]
						} else if len(kv.Args) == 1 {
							typ = kv.Args[0]
						}
					}
					if typ != nil && num != nil {
						one(typ, num)
					}
				}
			}
		}
		for _, e := range c.A.effects(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n, _ := calleeName(ci.Common())
			return strings.HasSuffix(n, "."+dir.call[:3]+"Mode."+dir.name) || strings.HasSuffix(n, "fxamacker/cbor/v2."+dir.name)
		}, nil) {
			c.prov("tag registration", "the "+dir.name+" mode", e.Instr.Pos(), e.Args[0], Has(CallAny("github.com/fxamacker/cbor/v2.("+dir.call[:3]+"Options)."+dir.mode)), "a mode built with the registered tags")
		}
		for _, x := range []string{"CoseSignature", "EMB_ETMInnerBlock"} {
			if !got[x] {
				c.ob("tag registration", dir.name+" "+x, false, f.Pos(), "%s is not registered with a tag", x)
			}
		}
	}
}

func numOf(t *Term) string {
	if v := constOfTerm(untest(t)); v != nil {
		return unquote(v.ExactString())
	}
	return ""
}

// libConst: a constant of the CBOR library.
func (w *wire) libConst(name string) string {
	for _, p := range w.c.P.Short["core/shared"].Types.Imports() {
		if strings.HasSuffix(p.Path(), "fxamacker/cbor/v2") {
			if k, ok := p.Scope().Lookup(name).(*types.Const); ok {
				return k.Val().ExactString()
			}
		}
	}
	return "?"
}

// assigned numbers of FDO 1.1, by the type of the constant and its name; other constants are free.
var fdoNumbers = map[string]map[string]string{
	"FdoErrorCode":      {"INVALID_JWT_TOKEN": "1", "INVALID_OWNERSHIP_VOUCHER": "2", "INVALID_OWNER_SIGN_BODY": "3", "INVALID_IP_ADDRESS": "4", "INVALID_GUID": "5", "RESOURCE_NOT_FOUND": "6", "MESSAGE_BODY_ERROR": "100", "INVALID_MESSAGE_ERROR": "101", "CRED_REUSE_ERROR": "102", "INTERNAL_SERVER_ERROR": "500"},
	"RVVariable":        {"RVDevOnly": "0", "RVOwnerOnly": "1", "RVIPAddress": "2", "RVDevPort": "3", "RVOwnerPort": "4", "RVDns": "5", "RVSvCertHash": "6", "RVClCertHash": "7", "RVUserInput": "8", "RVWifiSsid": "9", "RVWifiPw": "10", "RVMedium": "11", "RVProtocol": "12", "RVDelaysec": "13", "RVBypass": "14", "RVExtRV": "15"},
	"RVProtocolValue":   {"RVProtRest": "0", "RVProtHttp": "1", "RVProtHttps": "2", "RVProtTcp": "3", "RVProtTls": "4", "RVProtCoapTcp": "5", "RVProtCoapUdp": "6"},
	"TransportProtocol": {"ProtTCP": "1", "ProtTLS": "2", "ProtHTTP": "3", "ProtCoAP": "4", "ProtHTTPS": "5", "ProtCoAPS": "6"},
	"SIM_ID":            {"SIM_DEVMOD_ACTIVE": "devmod:active", "SIM_DEVMOD_OS": "devmod:os", "SIM_DEVMOD_ARCH": "devmod:arch", "SIM_DEVMOD_VERSION": "devmod:version", "SIM_DEVMOD_DEVICE": "devmod:device", "SIM_DEVMOD_SN": "devmod:sn", "SIM_DEVMOD_PATHSEP": "devmod:pathsep", "SIM_DEVMOD_SEP": "devmod:sep", "SIM_DEVMOD_NL": "devmod:nl", "SIM_DEVMOD_TMP": "devmod:tmp", "SIM_DEVMOD_DIR": "devmod:dir", "SIM_DEVMOD_PROGENV": "devmod:progenv", "SIM_DEVMOD_BIN": "devmod:bin", "SIM_DEVMOD_MUDURL": "devmod:mudurl", "SIM_DEVMOD_NUMMODULES": "devmod:nummodules", "SIM_DEVMOD_MODULES": "devmod:modules"},
}

// the CBOR type of the value of each rendezvous variable and devmod message.
var rvValues = map[string]string{"2": "bytes", "3": "uint16", "4": "uint16", "5": "text", "6": "hash", "7": "hash", "9": "text", "10": "text", "11": "uint8", "12": "uint8", "13": "uint32"}
var devmodValues = map[string]string{"devmod:active": "bool", "devmod:os": "text", "devmod:arch": "text", "devmod:version": "text", "devmod:device": "text", "devmod:pathsep": "text", "devmod:sep": "text", "devmod:nl": "text", "devmod:tmp": "text", "devmod:dir": "text", "devmod:progenv": "text", "devmod:bin": "text", "devmod:mudurl": "text", "devmod:nummodules": "uint"}

func (w *wire) numbers() {
	c := w.c
	sc := c.P.Short["core/shared"].Types.Scope()
	n := 0
	for _, name := range sc.Names() {
		k, ok := sc.Lookup(name).(*types.Const)
		if !ok {
			continue
		}
		if want, ok := fdoNumbers[typeBase(k.Type())][name]; ok {
			n++
			got := unquote(k.Val().ExactString())
			c.ob("assigned number", name, got == want, k.Pos(), "%s is %s; FDO 1.1 assigns %s", name, got, want)
		}
	}
	c.min("assigned number", 40)
	for tn, l := range wireOrder {
		o, ok := sc.Lookup(tn).(*types.TypeName)
		if !ok {
			continue
		}
		for _, x := range l {
			pos, fld, _ := strings.Cut(x, " ")
			if p := fieldPos(o.Type(), fld); p != "" {
				c.ob("message layout", tn+"."+fld, p == pos, o.Pos(), "%s is element %s of %s, found at %s", fld, pos, tn, p)
			}
		}
	}
	// values of rendezvous variables
	for _, f := range c.P.Funcs {
		if c.A.isHelper(f) {
			continue
		}
		for _, e := range c.callsTo(f, "core/shared.NewRendezvousInstr") {
			if e.Top != e.Instr && e.Top.Parent() != f {
				continue
			}
			key := numOf(e.Args[0])
			if d, ok := rvValues[key]; ok {
				w.value("rendezvous variable "+key, d, valueType(e.Args[1]), e, false)
			}
		}
		for _, e := range w.decodes(f) {
			for _, fa := range e.Facts.m {
				if fa.Kind != "eq" {
					continue
				}
				for _, p := range [][2]*Term{{fa.A, fa.B}, {fa.B, fa.A}} {
					if p[0] == nil || p[1] == nil || p[0].Op != "field" {
						continue
					}
					k := numOf(p[1])
					bytes := untest(e.Args[w.bytesArg(e)])
					if p[0].Name == "RendezvousInstr.Key" && bytes.Op == "field" && bytes.Name == "RendezvousInstr.Value" && rvValues[k] != "" {
						w.value("rendezvous variable "+k, rvValues[k], w.target(e), e, true)
					}
					if p[0].Name == "ServiceInfoKV.ServiceInfoKey" && bytes.Op == "field" && bytes.Name == "ServiceInfoKV.ServiceInfoVal" && devmodValues[k] != "" {
						w.value(k, devmodValues[k], w.target(e), e, true)
					}
				}
			}
		}
	}
	c.min("value type", 18)
}

func (w *wire) value(what, def string, t types.Type, e *Effect, dec bool) {
	if t == nil {
		return
	}
	k := fmt.Sprint(what, e.Instr.Pos())
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	g := *w.shape(deref(t), 0)
	s := parseWT(def, fdoDefs)
	if s.k == "bytes" && g.k == "bytes" {
		g.n = 0
	}
	verb := "encoded"
	if dec {
		verb = "decoded"
	}
	w.c.ob("value type", what, fits(s, &g), e.Instr.Pos(), "%s is %s as %s; it is %s", what, verb, &g, s)
}
