package rules

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"verif/checker/core"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
)

func init() {
	register("C20", &Rule{Run: runC20, Explain: "The text the generator emits for a type (found by constant propagation, see C19) is type-checked, brought into SSA form and abstractly interpreted: UnmarshalYAML and UnmarshalYamly over abstract documents whose kinds, keys and nesting are known and whose texts are symbols, with the decoder replaced by its contract (C01, C02, C11, C14). The abstract value left in the target is compared, symbol by symbol, with the value the document describes for the type; errors must be the first one met, documents must be read to their end, nothing may panic.",
		Assume: []string{"decoders keep their contract, decided under C01, C02, C11 and C14", "hand-written methods of field types read exactly one node, or take what they are given", "the family of types and documents is a product of kinds, positions and sizes 0 to 3"}})
}

// ---- abstract documents

type dnode struct {
	kind byte   // 'n' null, 'l' leaf, 's' sequence, 'm' mapping
	key  string // the text, when it is known
	text bool   // the text is known
	kids []*dnode

	pos, end int
}

func leafN() *dnode           { return &dnode{kind: 'l'} }
func nullN() *dnode           { return &dnode{kind: 'n'} }
func seqN(k ...*dnode) *dnode { return &dnode{kind: 's', kids: k} }
func mapN(k ...*dnode) *dnode { return &dnode{kind: 'm', kids: k} }
func keyN(s string) *dnode    { return &dnode{kind: 'l', key: s, text: true} }
func (d *dnode) copyN() *dnode {
	n := *d
	n.kids = nil
	for _, k := range d.kids {
		n.kids = append(n.kids, k.copyN())
	}
	return &n
}

func (d *dnode) flatten(toks *[]*dnode) {
	d.pos = len(*toks)
	*toks = append(*toks, d)
	for _, k := range d.kids {
		k.flatten(toks)
	}
	d.end = len(*toks)
}

func (d *dnode) String() string {
	switch d.kind {
	case 'n':
		return "null"
	case 'l':
		if d.text {
			return strconv.Quote(d.key)
		}
		return "scalar"
	}
	var parts []string
	if d.kind == 's' {
		for _, k := range d.kids {
			parts = append(parts, k.String())
		}
		return "[" + strings.Join(parts, ", ") + "]"
	}
	for i := 0; i+1 < len(d.kids); i += 2 {
		parts = append(parts, d.kids[i].String()+": "+d.kids[i+1].String())
	}
	return "{" + strings.Join(parts, ", ") + "}"
}

// ---- what types mean

// gworld is the package a generated file is part of.
type gworld struct {
	s      *stage
	g      *gcase
	pkg    *types.Package
	ssa    *ssa.Package
	target *types.Named
	// extended: the decoder gives nodes of the engine
	extended bool
	// used: the target already holds a value
	used bool
	// open counts the values an encoder has to tell empty ones from
	open int
}

type gfield struct {
	key     string
	sel     []*types.Var // from the outermost holder to the field
	omit    bool
	t       types.Type
	ordinal int
}

func hasMethod(t types.Type, name string) *types.Signature {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, name)
	if f, ok := obj.(*types.Func); ok && f.Exported() {
		return f.Type().(*types.Signature)
	}
	return nil
}

func isBytes(t types.Type) bool {
	var e types.Type
	switch t := t.Underlying().(type) {
	case *types.Slice:
		e = t.Elem()
	case *types.Array:
		e = t.Elem()
	default:
		return false
	}
	b, ok := types.Unalias(e).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// own says which hand-written method decides about a type: "yamly", "engine", "text" or none.
func (w *gworld) own(t types.Type, verb string) string {
	if types.Identical(t, w.target) {
		return ""
	}
	if hasMethod(t, verb+"Yamly") != nil {
		return "yamly"
	}
	if sig := hasMethod(t, verb+"YAML"); sig != nil {
		goy := false
		if verb == "Unmarshal" {
			_, goy = sig.Params().At(0).Type().(*types.Pointer)
		} else {
			_, goy = sig.Results().At(0).Type().Underlying().(*types.Interface)
		}
		if goy == (w.g.opts.engine == "goyaml") && (verb == "Marshal" || !goy || w.extended) {
			return "engine"
		}
	}
	if hasMethod(t, verb+"Text") != nil {
		return "text"
	}
	return ""
}

// fields lists the entries of a struct's mapping.
func (w *gworld) fields(t types.Type) []gfield {
	s := t.Underlying().(*types.Struct)
	var own, inner []gfield
	merge := func(outer, in []gfield) []gfield {
		out := append([]gfield(nil), outer...)
		for _, f := range in {
			dup := false
			for _, o := range outer {
				dup = dup || o.key == f.key
			}
			if !dup {
				out = append(out, f)
			}
		}
		return out
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := strings.Split(reflect.StructTag(s.Tag(i)).Get("yaml"), ",")
		has := func(o string) bool {
			for _, x := range tag[1:] {
				if x == o {
					return true
				}
			}
			return false
		}
		if has("inline") || f.Anonymous() && w.g.opts.inlined && tag[0] == "" {
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				fs := w.fields(ft)
				for k := range fs {
					fs[k].sel = append([]*types.Var{f}, fs[k].sel...)
				}
				inner = merge(inner, fs)
				continue
			}
		}
		if !unicode.IsUpper([]rune(f.Name())[0]) || len(tag) == 1 && tag[0] == "-" {
			continue
		}
		key := tag[0]
		if key == "" {
			key = f.Name()
		}
		own = append(own, gfield{key: key, sel: []*types.Var{f}, omit: w.g.opts.omitempty || has("omitempty"), t: f.Type()})
	}
	return merge(own, inner)
}

// variants are documents for a type; the first is an ordinary one.
func (w *gworld) variants(t types.Type, depth int) []*dnode {
	if depth > 4 {
		return []*dnode{nullN()}
	}
	switch w.own(t, "Unmarshal") {
	case "yamly", "engine":
		return []*dnode{seqN(leafN(), mapN(leafN(), leafN())), leafN()}
	case "text":
		return []*dnode{leafN(), seqN()}
	}
	if isBytes(t) {
		return []*dnode{leafN(), nullN(), seqN()}
	}
	var out []*dnode
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []*dnode{leafN(), seqN(leafN()), nullN()}
	case *types.Interface:
		if u.NumMethods() > 0 {
			return []*dnode{leafN()}
		}
		return []*dnode{leafN(), mapN(leafN(), seqN(leafN())), nullN()}
	case *types.Slice:
		vs := w.variants(u.Elem(), depth+1)
		out = append(out, seqN(vs[0].copyN(), vs[0].copyN()), seqN(), nullN(), leafN())
		for _, v := range vs[1:] {
			out = append(out, seqN(vs[0].copyN(), v))
		}
	case *types.Array:
		vs := w.variants(u.Elem(), depth+1)
		out = append(out, seqN(vs[0].copyN(), vs[0].copyN()), seqN(vs[0].copyN()), seqN(vs[0].copyN(), vs[0].copyN(), vs[0].copyN()), seqN(), nullN(), leafN())
		for _, v := range vs[1:] {
			out = append(out, seqN(v, vs[0].copyN()), seqN(vs[0].copyN(), vs[0].copyN(), v))
		}
	case *types.Pointer:
		return append(w.variants(u.Elem(), depth), nullN())
	case *types.Map:
		vs := w.variants(u.Elem(), depth+1)
		entry := func(k string, v *dnode) []*dnode { return []*dnode{w.keyNode(u.Key(), k), v.copyN()} }
		out = append(out, mapN(entry("one", vs[0])...))
		if w.textKey(u.Key()) {
			out[0] = mapN(append(entry("one", vs[0]), entry("two", vs[0])...)...)
			for _, v := range vs[1:] {
				out = append(out, mapN(append(entry("one", vs[0]), entry("two", v)...)...))
			}
		} else {
			for _, v := range vs[1:] {
				out = append(out, mapN(entry("one", v)...))
			}
		}
		out = append(out, mapN(), nullN(), leafN())
	case *types.Struct:
		fs := w.fields(t)
		if depth > 2 {
			var all []*dnode
			for _, f := range fs {
				all = append(all, keyN(f.key), w.variants(f.t, depth+1)[0].copyN())
			}
			return []*dnode{mapN(all...), nullN()}
		}
		var vs [][]*dnode
		var all, back []*dnode
		for _, f := range fs {
			v := w.variants(f.t, depth+1)
			vs = append(vs, v)
			all = append(all, keyN(f.key), v[0].copyN())
			back = append([]*dnode{keyN(f.key), v[0].copyN()}, back...)
		}
		out = append(out, mapN(all...))
		for i, f := range fs {
			for _, v := range append(vs[i][1:], nullN()) {
				m := mapN(all...).copyN()
				m.kids[2*i+1] = v.copyN()
				out = append(out, m)
			}
			m := mapN(all...).copyN()
			m.kids = append(m.kids[:2*i:2*i], m.kids[2*i+2:]...)
			out = append(out, m)
			_ = f
		}
		unknown := func(v *dnode) *dnode {
			m := mapN(all...).copyN()
			m.kids = append([]*dnode{keyN("what is this"), v}, m.kids...)
			return m
		}
		out = append(out, mapN(back...), unknown(leafN()), unknown(nullN()), unknown(mapN(keyN("Z"), seqN(leafN()))), mapN(append(append([]*dnode(nil), back...), keyN(""), leafN())...), mapN(), nullN(), leafN(), seqN())
	default:
		return []*dnode{leafN()}
	}
	return out
}

// textKey: keys of the type are read as the document's text.
func (w *gworld) textKey(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0 && w.own(t, "Unmarshal") == ""
}

func (w *gworld) keyNode(t types.Type, k string) *dnode {
	if w.textKey(t) {
		return keyN(k)
	}
	vs := w.variants(t, 3)
	return vs[0].copyN()
}

// dstep is what reading a document comes to: a method that may report an error, or a refusal.
type dstep struct {
	d      *dnode
	method bool
	field  bool // an unknown entry
	impl   bool // an interface without a value
}

// steps lists, in order, the places where reading d into a new value of type t may fail; the last one does when it is no method.
func (w *gworld) steps(t types.Type, d *dnode, out *[]dstep) bool {
	deny := func() bool { *out = append(*out, dstep{d: d}); return false }
	switch w.own(t, "Unmarshal") {
	case "yamly":
		return true
	case "engine":
		*out = append(*out, dstep{d: d, method: true})
		return true
	case "text":
		if d.kind != 'l' {
			return deny()
		}
		*out = append(*out, dstep{d: d, method: true})
		return true
	}
	if isBytes(t) {
		if d.kind == 'n' || d.kind == 'l' {
			return true
		}
		return deny()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if d.kind != 'l' {
			return deny()
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			*out = append(*out, dstep{d: d, impl: true})
			return false
		}
	case *types.Pointer:
		if d.kind != 'n' {
			return w.steps(u.Elem(), d, out)
		}
	case *types.Slice:
		if d.kind == 'n' {
			return true
		}
		if d.kind != 's' {
			return deny()
		}
		for _, k := range d.kids {
			if !w.steps(u.Elem(), k, out) {
				return false
			}
		}
	case *types.Array:
		if d.kind == 'n' {
			return true
		}
		if d.kind != 's' {
			return deny()
		}
		for i, k := range d.kids {
			if int64(i) < u.Len() && !w.steps(u.Elem(), k, out) {
				return false
			}
		}
	case *types.Map:
		if d.kind == 'n' {
			return true
		}
		if d.kind != 'm' {
			return deny()
		}
		for i := 0; i+1 < len(d.kids); i += 2 {
			if !w.steps(u.Key(), d.kids[i], out) || !w.steps(u.Elem(), d.kids[i+1], out) {
				return false
			}
		}
	case *types.Struct:
		if d.kind == 'n' {
			return true
		}
		if d.kind != 'm' {
			return deny()
		}
		fs := w.fields(t)
		for i := 0; i+1 < len(d.kids); i += 2 {
			f, ok := fieldOf(fs, d.kids[i].key)
			if !ok {
				if w.g.opts.disallow {
					*out = append(*out, dstep{d: d.kids[i], field: true})
					return false
				}
				continue
			}
			if d.kids[i+1].kind != 'n' && !w.steps(f.t, d.kids[i+1], out) {
				return false
			}
		}
	}
	return true
}

func fieldOf(fs []gfield, key string) (gfield, bool) {
	for _, f := range fs {
		if f.key == key {
			return f, true
		}
	}
	return gfield{}, false
}

// ---- the decoder by its contract

type drun struct {
	w     *gworld
	toks  []*dnode
	twice string // a leaf read twice, or anything else that must not happen
}

const (
	decBase = "DEC"
	outBase = "OUT"
)

func (r *drun) failed(st *State) bool { _, nilErr := st.Heap["!err"].(Nil); return !nilErr }

func (r *drun) at(st *State) int {
	c, _ := st.Heap["!doc"].(Const)
	n, _ := intOf(c)
	return int(n)
}

func intOf(v Val) (int64, bool) {
	c, ok := v.(Const)
	if !ok || c.V == nil {
		return 0, false
	}
	n, err := strconv.ParseInt(c.V.ExactString(), 10, 64)
	return n, err == nil
}

func (r *drun) fail(st *State, why string) {
	if !r.failed(st) {
		st.Heap["!err"] = errSym(st, "ERR:"+why)
	}
}

func (r *drun) call(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
	ret := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: vs}}, true }
	name := cl.Name()
	short := name[strings.LastIndex(name, ".")+1:]
	if len(cl.Args) > 0 {
		if a, ok := st.Resolve(cl.Args[0]).(Addr); ok && a.Base == decBase && a.Path == "" {
			return r.read(short, cl, st)
		}
		if s, ok := st.Resolve(cl.Args[0]).(Sym); ok && strings.HasPrefix(s.ID, "COLL:") {
			i, _ := strconv.Atoi(s.ID[5:])
			d := r.toks[i]
			switch short {
			case "Size":
				if d.kind == 'm' {
					return ret(Int(int64(len(d.kids)))) // twice the entries: only its being zero is promised
				}
				return ret(Int(int64(len(d.kids))))
			case "HasUnprocessedItems":
				return ret(Bool(!r.failed(st) && r.at(st) < d.end))
			}
		}
	}
	if cl.Fn != nil && cl.Fn.Signature.Recv() == nil && strings.HasPrefix(name, core.Mod+"/engines/") && strings.Contains(name, "/decode.") {
		rs := cl.Fn.Signature.Results()
		src := st.Resolve(cl.Args[0])
		if a, ok := src.(Sym); ok && strings.HasPrefix(a.ID, "Raw@") {
			// what a decoder wrote out is read again
			at, _ := strconv.Atoi(a.ID[4:])
			st.Heap["!doc"] = Int(int64(at))
			if rs.Len() == 1 {
				return ret(Addr{Base: decBase})
			}
			return ret(Addr{Base: decBase}, Nil{})
		}
		st.Heap["!src"] = src
		if rs.Len() == 1 {
			return ret(Addr{Base: decBase})
		}
		bad := st.Clone()
		err := errSym(bad, "ERR:parse")
		return []Outcome{{St: st, Rets: []Val{Addr{Base: decBase}, Nil{}}}, {St: bad, Rets: []Val{Nil{}, err}}}, true
	}
	// hand-written methods
	if cl.Fn != nil && cl.Fn.Signature.Recv() != nil && (short == "UnmarshalYamly" || short == "UnmarshalYAML" || short == "UnmarshalText") {
		rt := cl.Fn.Signature.Recv().Type()
		p, ok := rt.(*types.Pointer)
		if !ok || types.Identical(p.Elem(), r.w.target) {
			return nil, false
		}
		a, ok := st.Resolve(cl.Args[0]).(Addr)
		if p, isSym := st.Resolve(cl.Args[0]).(Sym); isSym && r.w.used {
			a, ok = Addr{Base: "*" + p.ID}, true
		}
		if !ok {
			if _, isNil := st.Resolve(cl.Args[0]).(Nil); isNil {
				return []Outcome{{St: st, Panic: true, Pos: cl.Instr.Pos(), Note: short + " is called on a nil pointer"}}, true
			}
			r.w.s.give("%s of an unknown receiver", short)
			return nil, false
		}
		if short == "UnmarshalYamly" {
			if x, ok := st.Resolve(cl.Args[1]).(Iface); !ok || x.V.Key() != (Addr{Base: decBase}).Key() {
				r.w.s.give("%s with another decoder", short)
				return nil, false
			}
			if !r.failed(st) {
				at := r.at(st)
				if at >= len(r.toks) {
					r.fail(st, "end")
				} else {
					st.StoreCell(a, Sym{ID: fmt.Sprintf("%s@%d", short, at), T: p.Elem()})
					st.Heap["!doc"] = Int(int64(r.toks[at].end))
				}
			}
			return ret()
		}
		arg := keyOf(st, cl.Args[1])
		st.StoreCell(a, Sym{ID: short + "(" + arg + ")", T: p.Elem()})
		return ret(Sym{ID: "UERR(" + arg + ")", T: errType})
	}
	return r.w.s.model(in, cl, st)
}

// keyOf describes a value by what it is made of.
func keyOf(st *State, v Val) string {
	v = st.Resolve(v)
	if s, ok := v.(SliceOf); ok && s.N >= 0 {
		return "bytes"
	}
	return v.Key()
}

func (r *drun) read(m string, cl *Call, st *State) ([]Outcome, bool) {
	ret := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: vs}}, true }
	rs := cl.Common.Signature().Results()
	zero := func() ([]Outcome, bool) {
		var vs []Val
		for i := 0; i < rs.Len(); i++ {
			vs = append(vs, ZeroVal(rs.At(i).Type()))
		}
		return ret(vs...)
	}
	at := r.at(st)
	var d *dnode
	if at < len(r.toks) {
		d = r.toks[at]
	}
	coll := func(i int) Val {
		s := Sym{ID: "COLL:" + strconv.Itoa(i), T: rs.At(0).Type()}
		st.SetNil(s, 2)
		return s
	}
	switch m {
	case "Error":
		return ret(st.Heap["!err"])
	case "AddError":
		e := st.Resolve(cl.Args[1])
		switch st.Nilness(e) {
		case 1:
			return ret()
		case 2:
			if !r.failed(st) {
				st.Heap["!err"] = e
			}
			return ret()
		}
		ok := st.Clone()
		ok.SetNil(e, 1)
		st.SetNil(e, 2)
		if !r.failed(st) {
			st.Heap["!err"] = e
		}
		return []Outcome{{St: ok}, {St: st}}, true
	}
	if r.failed(st) || d == nil {
		if !r.failed(st) && m != "TryNull" {
			r.fail(st, "end")
		}
		if m == "Sequence" || m == "Mapping" {
			r2 := Sym{ID: "COLL:0", T: rs.At(0).Type()}
			st.SetNil(r2, 2)
			return ret(r2)
		}
		return zero()
	}
	take := func(v Val) ([]Outcome, bool) {
		st.Heap["!doc"] = Int(int64(d.end))
		if v == nil {
			return ret()
		}
		return ret(v)
	}
	sym := func(id string) Val {
		v := Sym{ID: fmt.Sprintf("%s@%d", id, at), T: rs.At(0).Type()}
		return v
	}
	switch m {
	case "TryNull":
		if d.kind == 'n' {
			st.Heap["!doc"] = Int(int64(at + 1))
			return ret(Bool(true))
		}
		return ret(Bool(false))
	case "Skip":
		return take(nil)
	case "Any", "Raw", "Node":
		v := sym(m)
		st.SetNil(v, 2)
		return take(v)
	case "Sequence", "Mapping":
		if (m == "Sequence") != (d.kind == 's') || (m == "Mapping") != (d.kind == 'm') {
			r.fail(st, strconv.Itoa(at))
			return ret(coll(0))
		}
		st.Heap["!doc"] = Int(int64(at + 1))
		return ret(coll(at))
	case "Integer", "Unsigned", "Float", "Boolean", "String", "Timestamp":
		if d.kind != 'l' {
			r.fail(st, strconv.Itoa(at))
			return zero()
		}
		if m == "String" && d.text {
			return take(Str(d.key))
		}
		id := m
		if len(cl.Args) > 1 {
			id += "(" + strings.TrimPrefix(st.Resolve(cl.Args[1]).Key(), "#") + ")"
		}
		return take(sym(id))
	}
	r.w.s.give("decoder method %s", m)
	return nil, false
}

// ---- comparing values

// match says how v differs from what d describes for type t.
func (w *gworld) match(st *State, t types.Type, d *dnode, v Val) string {
	v = st.Resolve(v)
	want := func(what string) string {
		return fmt.Sprintf("%s gives %s where %s is expected", d, brief(v.Key()), what)
	}
	is := func(id string) string {
		if s, ok := v.(Struct); ok && len(s.Fields) == 0 {
			return ""
		}
		// a promoted method leaves its mark in the embedded part only
		_, rest, ok := strings.Cut(v.Key(), "$"+id)
		if w.used && !ok {
			_, rest, ok = strings.Cut(v.Key(), id)
		}
		if _, isStruct := v.(Struct); isStruct && !ok {
			_, rest, ok = strings.Cut(v.Key(), "fld<"+id)
		}
		if !ok || rest != "" && rest[0] >= '0' && rest[0] <= '9' {
			return want(id)
		}
		return ""
	}
	zero := func() string {
		if !w.used && !st.IsZero(v) {
			return want("the zero value")
		}
		return ""
	}
	switch w.own(t, "Unmarshal") {
	case "yamly":
		return is(fmt.Sprintf("UnmarshalYamly@%d", d.pos))
	case "engine":
		src := "Raw"
		if w.g.opts.engine == "goyaml" {
			src = "Node"
		}
		return is(fmt.Sprintf("UnmarshalYAML($%s@%d", src, d.pos))
	case "text":
		if d.text {
			return is("UnmarshalText(bytes")
		}
		return is(fmt.Sprintf("UnmarshalText($conv<$String@%d>[]byte", d.pos))
	}
	if isBytes(t) {
		if at, ok := t.Underlying().(*types.Array); ok {
			if d.kind == 'n' {
				return zero()
			}
			s, ok := v.(Struct)
			if !ok {
				s2, ok := v.(Sym)
				if ok && strings.Contains(s2.ID, "copied:") {
					return ""
				}
				return want("the text's bytes")
			}
			for i := int64(0); i < at.Len(); i++ {
				if x, ok := s.Fields[i].(Sym); !ok || !strings.Contains(x.ID, "copied:") {
					return want("the text's bytes")
				}
			}
			return ""
		}
		if d.kind == 'n' {
			if _, ok := v.(Nil); !ok {
				return want("nil")
			}
			return ""
		}
		if s, ok := v.(Sym); !ok || !strings.HasPrefix(s.ID, fmt.Sprintf("conv<$String@%d>", d.pos)) {
			return want("the text's bytes")
		}
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return w.matchBasic(u, d, v, want)
	case *types.Interface:
		return is(fmt.Sprintf("Any@%d", d.pos))
	case *types.Pointer:
		if d.kind == 'n' {
			if _, ok := v.(Nil); !ok {
				return want("nil")
			}
			return ""
		}
		a, ok := v.(Addr)
		if p, isSym := v.(Sym); isSym && w.used && st.Nilness(v) == 2 {
			a, ok = Addr{Base: "*" + p.ID}, true
		}
		if !ok {
			return want("a pointer")
		}
		return w.match(st, u.Elem(), d, st.Load(a, u.Elem()))
	case *types.Slice:
		if d.kind == 'n' {
			if _, ok := v.(Nil); !ok {
				return want("nil")
			}
			return ""
		}
		es, ok := elems(st, v, u.Elem())
		if !ok || len(es) != len(d.kids) {
			return want(fmt.Sprintf("%d elements", len(d.kids)))
		}
		for i, k := range d.kids {
			if m := w.match(st, u.Elem(), k, es[i]); m != "" {
				return m
			}
		}
	case *types.Array:
		if d.kind == 'n' {
			return zero()
		}
		s, ok := v.(Struct)
		if !ok || int64(len(s.Fields)) != u.Len() {
			return want("an array")
		}
		for i := range s.Fields {
			if i < len(d.kids) {
				if m := w.match(st, u.Elem(), d.kids[i], s.Fields[i]); m != "" {
					return m
				}
			} else if !w.used && !st.IsZero(s.Fields[i]) {
				return want("nothing beyond the document's elements")
			}
		}
	case *types.Map:
		if d.kind == 'n' {
			if _, ok := v.(Nil); !ok {
				return want("nil")
			}
			return ""
		}
		ks, ok := st.MapKeys(v)
		if !ok || len(ks) != len(d.kids)/2 {
			return want(fmt.Sprintf("%d entries", len(d.kids)/2))
		}
		for i := 0; i+1 < len(d.kids); i += 2 {
			found := false
			for _, k := range ks {
				if w.match(st, u.Key(), d.kids[i], k) != "" {
					continue
				}
				found = true
				x, _, _ := st.MapLoad(v, k)
				if m := w.match(st, u.Elem(), d.kids[i+1], x); m != "" {
					return m
				}
			}
			if !found {
				return want("an entry for " + d.kids[i].String())
			}
		}
	case *types.Struct:
		if d.kind == 'n' {
			return zero()
		}
		return w.matchStruct(st, t, d, v)
	}
	return ""
}

func brief(s string) string {
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

func (w *gworld) matchStruct(st *State, t types.Type, d *dnode, v Val) string {
	for _, f := range w.fields(t) {
		var node *dnode
		for i := 0; i+1 < len(d.kids); i += 2 {
			if d.kids[i].text && d.kids[i].key == f.key {
				node = d.kids[i+1]
			}
		}
		x, held := w.sel(st, t, v, f)
		if node == nil || node.kind == 'n' {
			if w.used && node == nil && d.pos == 0 && len(f.sel) == 1 {
				for k := range st.Heap {
					if p := outBase + "." + f.sel[0].Name(); k == p || strings.HasPrefix(k, p+".") || strings.HasPrefix(k, p+"[") {
						return fmt.Sprintf("field %s changes, though the document has nothing for it", f.key)
					}
				}
			}
			if !w.used && held && !st.IsZero(x) {
				return fmt.Sprintf("field %s becomes %s, though the document has nothing for it", f.key, brief(x.Key()))
			}
			continue
		}
		if !held {
			return fmt.Sprintf("the holder of field %s stays nil", f.key)
		}
		if m := w.match(st, f.t, node, x); m != "" {
			return "field " + f.key + ": " + m
		}
	}
	// what belongs to no entry is not touched
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		used := false
		for _, f := range w.fields(t) {
			used = used || f.sel[0] == s.Field(i)
		}
		if !used && !w.used && !st.IsZero(st.FieldOf(v, i, t)) {
			return "field " + s.Field(i).Name() + " changes, though no entry belongs to it"
		}
	}
	return ""
}

// closed: no interfaces, arrays or inlined parts, whose contents before would matter.
func closed(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return false
	case *types.Pointer:
		return closed(u.Elem(), depth+1)
	case *types.Slice:
		return closed(u.Elem(), depth+1)
	case *types.Array:
		return false
	case *types.Map:
		return closed(u.Key(), depth+1) && closed(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Embedded() || strings.Contains(u.Tag(i), "inline") || !closed(u.Field(i).Type(), depth+1) {
				return false
			}
		}
	}
	return true
}

// sel selects a field; held is false when a holder is nil.
func (w *gworld) sel(st *State, t types.Type, v Val, f gfield) (Val, bool) {
	for _, h := range f.sel {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			a, ok := st.Resolve(v).(Addr)
			if !ok {
				return nil, false
			}
			t = p.Elem()
			v = st.Load(a, t)
		}
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i) == h {
				v = st.FieldOf(st.Resolve(v), i, t)
			}
		}
		t = h.Type()
	}
	return v, true
}

func (w *gworld) matchBasic(b *types.Basic, d *dnode, v Val, want func(string) string) string {
	var id string
	bits := intBitsOf(b)
	switch {
	case b.Info()&types.IsString != 0:
		if d.text {
			if v.Key() != Str(d.key).Key() {
				return want(strconv.Quote(d.key))
			}
			return ""
		}
		id = "String"
	case b.Info()&types.IsBoolean != 0:
		id = "Boolean"
	case b.Info()&types.IsUnsigned != 0:
		id = fmt.Sprintf("Unsigned(%d)", bits)
	case b.Info()&types.IsInteger != 0:
		id = fmt.Sprintf("Integer(%d)", bits)
	case b.Info()&types.IsFloat != 0:
		id = fmt.Sprintf("Float(%d)", bits)
	}
	s, ok := v.(Sym)
	if !ok {
		return want(id)
	}
	got, convs := s.ID, []string(nil)
	for strings.HasPrefix(got, "conv<") {
		i := strings.LastIndex(got, ">")
		convs = append(convs, got[i+1:])
		got = strings.TrimPrefix(got[5:i], "$")
	}
	for _, c := range convs[min(1, len(convs)):] {
		n := map[string]int{"int8": 8, "uint8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32, "float32": 32}[c]
		if n != 0 && n < max(bits, 1) || n != 0 && bits == 0 {
			return want("a value no conversion shortens")
		}
	}
	ok = got == fmt.Sprintf("%s@%d", id, d.pos)
	if b.Kind() == types.Int || b.Kind() == types.Uint {
		ok = ok || got == fmt.Sprintf("%s@%d", strings.Replace(id, "(0)", "(64)", 1), d.pos)
	}
	if !ok {
		return want(id)
	}
	return ""
}

func intBitsOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32:
		return 32
	case types.Int64, types.Uint64, types.Float64:
		return 64
	}
	return 0
}

// ---- the check

// worlds generates the files of the cases and brings those that compile into SSA form.
func (s *stage) worlds(c *core.Ctx, cases []*gcase) []*gworld {
	const chunk = 16
	out := make([]*gworld, len(cases))
	var jobs []func(*core.Ctx)
	for i := 0; i < len(cases); i += chunk {
		part := cases[i:min(i+chunk, len(cases))]
		jobs = append(jobs, func(c *core.Ctx) {
			w := s.fork(c)
			for _, g := range part {
				g.res = w.generate(g)
			}
		})
	}
	c.Parallel(jobs)
	checks := make([]*checked, len(cases))
	jobs = nil
	for i := range cases {
		i := i
		g := cases[i]
		if !g.res.ok || g.res.failed || g.res.panics != "" {
			c.Rep.Count("types without code", 1)
			continue
		}
		jobs = append(jobs, func(c *core.Ctx) {
			w := s.fork(c)
			checks[i] = w.check(fmt.Sprintf("example.test/gen/%s", g.target), elemDecls+g.decl(), g.res.text)
		})
	}
	c.Parallel(jobs)
	for i, k := range checks {
		if k == nil || len(k.errs) > 0 {
			continue // C19 speaks about these
		}
		sp := c.Prog.CreatePackage(k.pkg, k.files, k.info, true)
		sp.Build()
		s.extra = append(s.extra, k.pkg.Path())
		tn := k.pkg.Scope().Lookup(cases[i].target).(*types.TypeName)
		out[i] = &gworld{s: s, g: cases[i], pkg: k.pkg, ssa: sp, target: tn.Type().(*types.Named)}
	}
	var ws []*gworld
	for _, w := range out {
		if w != nil {
			ws = append(ws, w)
		}
	}
	return ws
}

func c20cases(tier string) []*gcase {
	var out []*gcase
	for _, g := range gcases(tier) {
		if g.fails || g.opts.ptr && !g.opts.inlined {
			continue
		}
		if g.opts.omitempty && g.decls == "" && !strings.Contains(g.def, "map[") && !strings.Contains(g.def, "Dict") {
			continue
		}
		out = append(out, g)
	}
	return out
}

func runC20(c *core.Ctx) {
	s := newStage(c)
	cases := c20cases(c.Tier)
	if err := s.prepare(cases); err != nil {
		c.Rep.Undecide("the types to generate for do not compile: %v", err)
		return
	}
	ws := s.worlds(c, cases)
	var jobs []func(*core.Ctx)
	const chunk = 8
	for i := 0; i < len(ws); i += chunk {
		part := ws[i:min(i+chunk, len(ws))]
		jobs = append(jobs, func(c *core.Ctx) {
			st := s.fork(c)
			for _, w := range part {
				x := *w
				x.s = st
				x.decodes()
				x.holds()
			}
		})
	}
	c.Parallel(jobs)
	c.Rep.Floor("decodes", 120000)
	c.Rep.Floor("decodes into held values", 6)
}

func (w *gworld) decodes() {
	modes := []bool{w.g.opts.engine == "goyaml"}
	if w.g.elem.only == "goyaml" {
		modes = []bool{true, false}
	}
	for _, ext := range modes {
		w.extended = ext
		vs := w.variants(w.target, 0)
		for i, d := range vs {
			w.decode(d.copyN(), false)
			if ext == modes[0] && closed(w.target, 0) && (i == 0 || d.kind == 'm') {
				w.used = true
				w.decode(d.copyN(), false)
				w.used = false
			}
			if i == 0 && ext == modes[0] {
				w.decode(d.copyN(), true)
			}
		}
	}
}

// holds follows a document into an interface field that holds an object with methods of its own.
func (w *gworld) holds() {
	if w.g.pos.name != "value" || !strings.HasPrefix(w.g.def, "struct { F ") || w.g.elem.expr != "any" && w.g.elem.expr != "Both" {
		return
	}
	kinds := []string{"OwnPtr"}
	if w.g.elem.expr == "any" {
		kinds = append(kinds, map[string]string{"yayamls": "Yay", "goyaml": "Goy"}[w.g.opts.engine])
	}
	for _, k := range kinds {
		w.extended = w.g.opts.engine == "goyaml"
		tn, _ := w.pkg.Scope().Lookup(k).(*types.TypeName)
		dt := w.decoderType()
		fn := w.s.c.Prog.LookupMethod(types.NewPointer(w.target), w.pkg, "UnmarshalYamly")
		if tn == nil || dt == nil || fn == nil {
			continue
		}
		d := mapN(keyN("F"), seqN(leafN()), keyN("Z"), leafN())
		r := &drun{w: w}
		d.flatten(&r.toks)
		st := w.s.state()
		w.s.why = ""
		st.Heap["!doc"] = Int(0)
		st.Heap["!err"] = Nil{}
		st.Heap["!zero:"+outBase] = Bool(true)
		st.Heap["!zero:HELD"] = Bool(true)
		st.Heap[outBase+".F"] = Iface{T: types.NewPointer(tn.Type()), V: Addr{Base: "HELD"}}
		in := w.s.interp()
		in.Hooks.Call = r.call
		outs := in.Run(fn, []Val{Addr{Base: outBase}, Iface{T: dt, V: Addr{Base: decBase}}}, st)
		what := fmt.Sprintf("%s holding a *%s (%s)", w.g.name, k, w.g.opts)
		if in.Capped || w.s.why != "" {
			w.s.c.Rep.Undecide("%s: %s %s", what, in.CapWhy, w.s.why)
			continue
		}
		w.s.c.Rep.Ob("decodes into held values")
		good, reports := false, k == "OwnPtr"
		for _, o := range outs {
			if o.Panic {
				w.s.c.Rep.Violate("decodes into held values", what, "", "the generated code panics: %s", o.Note)
				continue
			}
			if st := o.St; st.Nilness(st.Heap["!err"]) == 2 && strings.HasPrefix(st.Heap["!err"].Key(), "$UERR(") {
				reports = true
			} else if st.Nilness(st.Heap["!err"]) == 1 {
				good = true
				if m := w.match(st, tn.Type(), d.kids[1], st.Load(Addr{Base: "HELD"}, tn.Type())); m != "" {
					w.s.c.Rep.Violate("decodes into held values", what, "", "the object does not get its node: %s", m)
				}
				if _, ok := st.Resolve(st.Heap[outBase+".F"]).(Iface); !ok {
					w.s.c.Rep.Violate("decodes into held values", what, "", "the object is replaced")
				}
				if r.at(st) != len(r.toks) {
					w.s.c.Rep.Violate("decodes into held values", what, "", "the document is not read to its end")
				}
			}
		}
		if !reports {
			w.s.c.Rep.Violate("decodes into held values", what, "", "an error of the object's method is not reported")
		}
		if !good {
			w.s.c.Rep.Violate("decodes into held values", what, "", "every path ends in an error")
		}
	}
}

// decoderType is the type of the decoder handed over.
func (w *gworld) decoderType() types.Type {
	e := w.g.opts.engine
	if e == "goyaml" && !w.extended {
		e = "yayamls"
	}
	p := w.s.deps[core.Mod+"/engines/"+e+"/decode"]
	if p == nil {
		return nil
	}
	f, ok := p.Scope().Lookup("NewASTReader").(*types.Func)
	if !ok {
		return nil
	}
	return f.Type().(*types.Signature).Results().At(0).Type()
}

// decode follows one document. engine: through the method of the engine's interface.
func (w *gworld) decode(d *dnode, engine bool) {
	rep := w.s.c.Rep
	r := &drun{w: w}
	d.flatten(&r.toks)
	what := fmt.Sprintf("%s (%s)", w.g.name, w.g.opts)
	mname := "UnmarshalYamly"
	if engine {
		mname = "UnmarshalYAML"
	}
	fn := w.s.c.Prog.LookupMethod(types.NewPointer(w.target), w.pkg, mname)
	dt := w.decoderType()
	if fn == nil || dt == nil {
		rep.Undecide("%s: no %s", what, mname)
		return
	}
	st := w.s.state()
	w.s.why = ""
	st.Heap["!doc"] = Int(0)
	st.Heap["!err"] = Nil{}
	if !w.used {
		st.Heap["!zero:"+outBase] = Bool(true)
	} else {
		what += ", the target holding a value before"
	}
	in := w.s.interp()
	in.Hooks.Call = r.call
	in.MaxSteps = 200000
	args := []Val{Addr{Base: outBase}}
	if engine {
		v := Sym{ID: "DATA", T: fn.Signature.Params().At(0).Type()}
		st.SetNil(v, 2)
		args = append(args, v)
	} else {
		args = append(args, Iface{T: dt, V: Addr{Base: decBase}})
	}
	outs := in.Run(fn, args, st)
	if in.Capped {
		if strings.Contains(in.CapWhy, "step") {
			rep.Violate("decodes", what, "", "%s of %s: the generated code does not come to an end", mname, d)
			return
		}
		w.s.give("%s", in.CapWhy)
	}
	if w.s.why != "" {
		rep.Undecide("%s: %s", what, w.s.why)
		return
	}
	rep.Ob("decodes")
	var steps []dstep
	fine := d.kind == 'n' || w.steps(w.target, d, &steps)
	seen := map[string]bool{}
	for _, o := range outs {
		problem := w.judge(o, d, r, engine, fine, steps, seen)
		if problem != "" {
			rep.Violate("decodes", what, "", "%s of %s: %s", mname, d, problem)
			if os.Getenv("VERIF_DEBUG") == w.g.target {
				fmt.Println(w.g.res.text)
			}
			return
		}
	}
	missing := ""
	for _, s := range steps {
		if s.method && !seen[fmt.Sprint("method@", s.d.pos)] {
			missing = fmt.Sprintf("an error of the method that takes %s (node %d) is not reported", s.d, s.d.pos)
		}
	}
	if engine && w.g.opts.engine == "yayamls" && !seen["parse"] {
		missing = "an error of the reader's constructor is not reported"
	}
	if !seen["end"] {
		missing = "no path reads the document to its end"
	}
	if missing != "" {
		rep.Violate("decodes", what, "", "%s of %s: %s", mname, d, missing)
	}
}

func (w *gworld) judge(o Outcome, d *dnode, r *drun, engine, fine bool, steps []dstep, seen map[string]bool) string {
	if o.Panic {
		return "the generated code panics: " + o.Note
	}
	st := o.St
	err := st.Heap["!err"]
	if engine {
		err = st.Resolve(o.Rets[0])
		if src, ok := st.Heap["!src"].(Sym); !ok || src.ID != "DATA" {
			return "the document is not what the reader is given"
		}
		if s, ok := err.(Sym); ok && s.ID == "ERR:parse" {
			seen["parse"] = true
			return ""
		}
		if err.Key() != st.Resolve(st.Heap["!err"]).Key() {
			return "the decoder's error is not what is returned"
		}
	}
	err = st.Resolve(err)
	switch st.Nilness(err) {
	case 1:
		if !fine {
			return fmt.Sprintf("no error is reported, though %s does not suit the type", steps[len(steps)-1].d)
		}
		if at := r.at(st); at != len(r.toks) {
			return fmt.Sprintf("the document is left at node %d of %d", at, len(r.toks))
		}
		seen["end"] = true
		v := st.Load(Addr{Base: outBase}, w.target)
		if d.kind == 'n' {
			if _, isStruct := w.target.Underlying().(*types.Struct); (!w.used || isStruct) && !st.IsZero(v) {
				return "null gives " + brief(v.Key())
			}
			return ""
		}
		return w.match(st, w.target, d, v)
	case 2:
		key := err.Key()
		for _, s := range steps {
			if s.method && (strings.Contains(key, fmt.Sprintf("@%d>", s.d.pos)) || strings.HasSuffix(key, fmt.Sprintf("@%d)", s.d.pos)) || strings.Contains(key, "UERR(bytes")) && strings.HasPrefix(key, "$UERR(") {
				seen[fmt.Sprint("method@", s.d.pos)] = true
				return ""
			}
			if s.method {
				continue
			}
			seen["end"] = true
			switch {
			case s.field:
				i, ok := err.(Iface)
				if !ok || !strings.HasSuffix(i.T.String(), ".UnknownFieldError") {
					return "the error is " + key + " where an unknown field is to be reported"
				}
				if a, ok := i.V.(Addr); !ok || st.Heap[a.Cell()+".Field"] == nil || st.Resolve(st.Heap[a.Cell()+".Field"]).Key() != Str(s.d.key).Key() {
					return "the unknown field is not named in the error"
				}
				return ""
			case s.impl:
				return ""
			case key == "$ERR:"+strconv.Itoa(s.d.pos):
				return ""
			}
			return fmt.Sprintf("the error is %s where %s does not suit the type", brief(key), s.d)
		}
		return "an error is reported: " + brief(key)
	}
	return ""
}

var _ = core.Mod
