package rules

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"verif/checker/core"

	. "verif/checker/absint"
)

func init() {
	register("C21", &Rule{Run: runC21, Explain: "The text the generator emits for a type (found by constant propagation, see C19) is type-checked, brought into SSA form and abstractly interpreted: MarshalYAML and MarshalYamly over abstract values of the type (nil, empty, one and two elements, scalars as symbols), with the inserter replaced by a record of the calls it gets. On every path the record must be the sequence of insertions the value describes: every field, element and entry once, in order, with its own symbol; null for nil; fields left out exactly when they are to be omitted and the path's facts say they are empty.",
		Assume: []string{"inserters keep their contract, decided under C04, C05 and C06", "hand-written marshalling methods insert one value, or return the text of one", "the family of types and values is a product of kinds, positions and sizes 0 to 2"}})
}

// vnode is an abstract value.
type vnode struct {
	kind byte // 'n' nil or unset, 's' symbol, 'c' elements, 'm' entries, 't' struct, 'p' pointer, 'i' held by an interface
	kids []*vnode
	held types.Type
	id   string
	key  string // a known text
}

func (v *vnode) copyV() *vnode {
	n := *v
	n.kids = nil
	for _, k := range v.kids {
		n.kids = append(n.kids, k.copyV())
	}
	return &n
}

func (v *vnode) String() string {
	var parts []string
	for _, k := range v.kids {
		parts = append(parts, k.String())
	}
	s := strings.Join(parts, ", ")
	switch v.kind {
	case 'n':
		return "nil"
	case 'c':
		return "[" + s + "]"
	case 'm':
		return "map[" + s + "]"
	case 't':
		return "{" + s + "}"
	case 'p':
		return "&" + s
	case 'i':
		return "any(" + v.held.String() + ")"
	}
	if v.key != "" {
		return v.key
	}
	return "x"
}

// values are abstract values of a type; the first is an ordinary one.
func (w *gworld) values(t types.Type, depth int) []*vnode {
	sym := func() *vnode { return &vnode{kind: 's'} }
	null := func() *vnode { return &vnode{kind: 'n'} }
	if w.own(t, "Marshal") != "" && depth > 0 {
		return []*vnode{sym()}
	}
	nils := isNilable(t)
	if depth > 5 {
		if nils {
			return []*vnode{null()}
		}
		if _, ok := t.Underlying().(*types.Basic); ok {
			return []*vnode{sym()}
		}
	}
	if isBytes(t) {
		if nils {
			return []*vnode{sym(), null()}
		}
		return []*vnode{sym()}
	}
	coll := func(vs ...*vnode) *vnode {
		n := &vnode{kind: 'c'}
		for _, v := range vs {
			n.kids = append(n.kids, v.copyV())
		}
		return n
	}
	var out []*vnode
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if o, ok := w.pkg.Scope().Lookup("OwnPtr").(*types.TypeName); ok {
			out = append(out, &vnode{kind: 'i', held: types.NewPointer(o.Type())})
		}
		if u.NumMethods() == 0 {
			if o, ok := w.pkg.Scope().Lookup("Yay").(*types.TypeName); ok {
				out = append(out, &vnode{kind: 'i', held: o.Type()})
			}
			out = append(out, &vnode{kind: 'i', held: types.Typ[types.String]})
		}
		return append(out, null())
	case *types.Pointer:
		for _, v := range w.values(u.Elem(), depth+1) {
			out = append(out, &vnode{kind: 'p', kids: []*vnode{v}})
		}
		return append(out, null())
	case *types.Slice:
		vs := w.values(u.Elem(), depth+1)
		out = append(out, coll(vs[0], vs[0]), coll(), null())
		for _, v := range vs[1:] {
			out = append(out, coll(vs[0], v))
		}
	case *types.Array:
		vs := w.values(u.Elem(), depth+1)
		for _, v := range vs {
			n := coll()
			for i := int64(0); i < u.Len(); i++ {
				if i == u.Len()-1 {
					n.kids = append(n.kids, v.copyV())
				} else {
					n.kids = append(n.kids, vs[0].copyV())
				}
			}
			out = append(out, n)
		}
	case *types.Map:
		vs := w.values(u.Elem(), depth+1)
		entry := func(k string, v *vnode) []*vnode {
			kv := w.values(u.Key(), depth+3)[0].copyV()
			if w.textKey(u.Key()) {
				kv.key = k
			}
			return []*vnode{kv, v.copyV()}
		}
		for _, v := range vs {
			n := &vnode{kind: 'm', kids: entry("one", vs[0])}
			if w.textKey(u.Key()) {
				n.kids = append(n.kids, entry("two", v)...)
			} else {
				n.kids[1] = v.copyV()
			}
			out = append(out, n)
		}
		out = append(out, &vnode{kind: 'm'}, null())
	case *types.Struct:
		n := &vnode{kind: 't'}
		var vs [][]*vnode
		for i := 0; i < u.NumFields(); i++ {
			v := w.values(u.Field(i).Type(), depth+1)
			vs = append(vs, v)
			n.kids = append(n.kids, v[0])
		}
		out = append(out, n)
		if depth <= 2 {
			for i := range vs {
				for _, v := range vs[i][1:] {
					m := n.copyV()
					m.kids[i] = v.copyV()
					out = append(out, m)
				}
			}
		}
	default:
		return []*vnode{sym()}
	}
	return out
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// make is the value in a state.
func (w *gworld) make(st *State, t types.Type, v *vnode, n *int) Val {
	*n++
	v.id = fmt.Sprintf("V%d!", *n)
	switch v.kind {
	case 'n':
		return Nil{}
	case 's':
		if v.key != "" {
			return Str(v.key)
		}
		if isBytes(t) && isNilable(t) {
			st.StoreCell(Addr{v.id, "[0]"}, Sym{ID: v.id + "0", T: types.Typ[types.Uint8]})
			return SliceOf{A: Addr{Base: v.id}, N: 1}
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			s := Struct{T: t}
			for i := int64(0); i < at.Len(); i++ {
				s.Fields = append(s.Fields, Sym{ID: fmt.Sprintf("%s%d", v.id, i), T: at.Elem()})
			}
			return s
		}
		if structOfT(t) != nil {
			return w.explode(st, Sym{ID: v.id, T: t}, t)
		}
		x := Sym{ID: v.id, T: t}
		if w.open++; w.open > 3 {
			// the others are not empty, or every one would double the paths
			st.Assume(zero(x, t), false)
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				st.Assume(Cmp{Op: "==", X: st.Len(x), Y: Int(0)}, false)
			}
		}
		return x
	case 'p':
		e := t.Underlying().(*types.Pointer).Elem()
		x := w.make(st, e, v.kids[0], n)
		st.StoreCell(Addr{Base: v.id}, x)
		return Addr{Base: v.id}
	case 'i':
		p := v.held
		if pt, ok := p.(*types.Pointer); ok {
			st.StoreCell(Addr{Base: v.id}, Sym{ID: v.id, T: pt.Elem()})
			return Iface{T: p, V: Addr{Base: v.id}}
		}
		return Iface{T: p, V: Sym{ID: v.id, T: p}}
	case 'c':
		if s, ok := t.Underlying().(*types.Slice); ok {
			for i, k := range v.kids {
				st.StoreCell(Addr{v.id, fmt.Sprintf("[%d]", i)}, w.make(st, s.Elem(), k, n))
			}
			return SliceOf{A: Addr{Base: v.id}, N: len(v.kids)}
		}
		a := t.Underlying().(*types.Array)
		s := Struct{T: t}
		for _, k := range v.kids {
			s.Fields = append(s.Fields, w.make(st, a.Elem(), k, n))
		}
		return s
	case 'm':
		mt := t.Underlying().(*types.Map)
		m := Sym{ID: v.id, T: t}
		st.SetNil(m, 2)
		st.Heap["!map:"+v.id] = Bool(true)
		for i := 0; i+1 < len(v.kids); i += 2 {
			st.MapStore(m, w.make(st, mt.Key(), v.kids[i], n), w.make(st, mt.Elem(), v.kids[i+1], n))
		}
		return m
	case 't':
		s := t.Underlying().(*types.Struct)
		if s.NumFields() == 0 {
			return ZeroVal(t)
		}
		x := Struct{T: t}
		for i, k := range v.kids {
			x.Fields = append(x.Fields, w.make(st, s.Field(i).Type(), k, n))
		}
		return x
	}
	return Nil{}
}

func structOfT(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// explode gives an opaque struct as the struct of its parts.
func (w *gworld) explode(st *State, s Sym, t types.Type) Val {
	u := structOfT(t)
	if u == nil || u.NumFields() == 0 {
		return s
	}
	x := Struct{T: t}
	for i := 0; i < u.NumFields(); i++ {
		f := st.FieldOf(s, i, t)
		if fs, ok := f.(Sym); ok {
			f = w.explode(st, fs, u.Field(i).Type())
		}
		x.Fields = append(x.Fields, f)
	}
	return x
}

// ---- the inserter as a record

type erun struct{ w *gworld }

const encID = "ENC"

func (r *erun) event(st *State, name string, args ...Val) {
	t, _ := st.Heap["!ev"].(Tuple)
	var vs []Val
	vs = append(vs, t.Vs...)
	for i, a := range args {
		args[i] = st.Resolve(a)
	}
	st.Heap["!ev"] = Tuple{append(vs, Tuple{append([]Val{Str(name)}, args...)})}
}

// content is what a receiver is, or points to.
func content(st *State, v Val, t types.Type) Val {
	v = st.Resolve(v)
	if p, ok := t.(*types.Pointer); ok {
		if a, ok := v.(Addr); ok {
			return st.Load(a, p.Elem())
		}
	}
	return v
}

func (r *erun) call(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
	ret := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: vs}}, true }
	name := cl.Name()
	short := name[strings.LastIndex(name, ".")+1:]
	results := func(id string) ([]Outcome, bool) {
		rs := cl.Common.Signature().Results()
		var vs []Val
		for i := 0; i < rs.Len(); i++ {
			vs = append(vs, Sym{ID: fmt.Sprintf("%s#%d", id, i), T: rs.At(i).Type()})
		}
		return ret(vs...)
	}
	if len(cl.Args) > 0 && (cl.Fn == nil || cl.Fn.Signature.Recv() != nil) && isEnc(st.Resolve(cl.Args[0])) {
		switch {
		case strings.HasPrefix(short, "Insert"), strings.HasPrefix(short, "Start"), strings.HasPrefix(short, "End"):
			args := append([]Val(nil), cl.Args[1:]...)
			for i, a := range args {
				if s, ok := st.Resolve(a).(Sym); ok && strings.HasPrefix(s.ID, "conv<slice(") {
					args[i] = r.bytes(st, s)
				}
			}
			r.event(st, short, args...)
			return ret()
		case short == "EncodeToBytes" || short == "Result":
			r.event(st, "finish")
			return results("FIN")
		}
		r.w.s.give("method %s of the inserter", short)
		return nil, false
	}
	if cl.Fn != nil && cl.Fn.Signature.Recv() == nil && strings.HasPrefix(name, core.Mod+"/engines/") && strings.Contains(name, "/encode.") {
		rt := cl.Fn.Signature.Results().At(0).Type()
		id := encID
		if strings.Contains(rt.String(), "Writer") {
			id = "WRT"
		}
		if _, ok := rt.Underlying().(*types.Interface); ok {
			s := Sym{ID: id, T: rt}
			st.SetNil(s, 2)
			return ret(s)
		}
		return ret(Addr{Base: id})
	}
	if name == core.Mod+".NewEncoder" {
		s := Sym{ID: encID, T: cl.Common.Signature().Results().At(0).Type()}
		st.SetNil(s, 2)
		return ret(s)
	}
	if name == "gopkg.in/yaml.v3.Marshal" {
		i, ok := st.Resolve(cl.Args[0]).(Iface)
		if !ok {
			return results("YM(" + st.Resolve(cl.Args[0]).Key() + ")")
		}
		for {
			if p, ok := i.T.(*types.Pointer); ok {
				i = Iface{T: p.Elem(), V: content(st, i.V, i.T)}
			} else if h, ok := i.V.(Iface); ok {
				i = h
			} else {
				break
			}
		}
		return results("YM(" + i.T.String() + " " + i.V.Key() + ")")
	}
	if cl.Fn != nil && cl.Fn.Signature.Recv() != nil && (short == "MarshalYamly" || short == "MarshalYAML" || short == "MarshalText") {
		rt := cl.Fn.Signature.Recv().Type()
		base := rt
		if p, ok := rt.(*types.Pointer); ok {
			base = p.Elem()
		}
		if _, isNil := st.Resolve(cl.Args[0]).(Nil); isNil && base != rt {
			return []Outcome{{St: st, Panic: true, Pos: cl.Instr.Pos(), Note: short + " is called on a nil pointer"}}, true
		}
		if short == "MarshalYamly" {
			if types.Identical(base, r.w.target) {
				return nil, false
			}
			if !isEnc(st.Resolve(cl.Args[1])) {
				r.w.s.give("MarshalYamly with another inserter")
				return nil, false
			}
			r.event(st, short, content(st, cl.Args[0], rt))
			return ret()
		}
		return results(short + "(" + content(st, cl.Args[0], rt).Key() + ")")
	}
	return r.w.s.model(in, cl, st)
}

// bytes names a text by the bytes it is made of.
func (r *erun) bytes(st *State, s Sym) Val {
	rest := strings.TrimPrefix(s.ID, "conv<slice(&")
	cell, n, ok := strings.Cut(rest, ";")
	if !ok {
		return s
	}
	k := 0
	fmt.Sscanf(n, "%d", &k)
	id := "bytes("
	for i := 0; i < k; i++ {
		var v Val = Sym{ID: "?"}
		if x, ok := st.Heap[fmt.Sprintf("%s[%d]", cell, i)]; ok {
			v = st.Resolve(x)
		}
		id += v.Key() + ","
	}
	return Sym{ID: id + ")", T: s.T}
}

func isEnc(v Val) bool {
	switch v := v.(type) {
	case Sym:
		return v.ID == encID
	case Addr:
		return v.Base == encID && v.Path == ""
	case Iface:
		return isEnc(v.V)
	}
	return false
}

// ---- comparing records

type record struct {
	w  *gworld
	st *State
	ev []Val
	i  int
}

func (r *record) next() (string, []Val) {
	if r.i >= len(r.ev) {
		return "nothing", nil
	}
	t := r.ev[r.i].(Tuple)
	r.i++
	c := t.Vs[0].(Const)
	return strings.Trim(c.V.ExactString(), `"`), t.Vs[1:]
}

func (r *record) want(name string, holds ...string) string {
	n, args := r.next()
	if n != name {
		return fmt.Sprintf("%s is called where %s is expected", n, name)
	}
	if len(holds) == 0 {
		return ""
	}
	var keys []string
	for _, a := range args {
		keys = append(keys, a.Key())
	}
	got := strings.Join(keys, " ")
	for _, h := range holds {
		if !strings.Contains(got, h) {
			return fmt.Sprintf("%s is called with %s where %s is expected", n, brief(got), h)
		}
	}
	return ""
}

// same: the value of a struct type is made of v's symbols.
func leafIDs(v *vnode, out *[]string) {
	if v.kind == 's' && v.key == "" {
		*out = append(*out, v.id)
	}
	for _, k := range v.kids {
		leafIDs(k, out)
	}
}

// encodes says how the record differs from the insertions v describes.
func (r *record) encodes(t types.Type, v *vnode, root bool) string {
	id := "$" + v.id
	if structOfT(t) != nil {
		id = v.id
	}
	if s := structOfT(t); s != nil && s.NumFields() == 0 {
		id = ""
	}
	if !root {
		switch r.w.own(t, "Marshal") {
		case "yamly":
			return r.want("MarshalYamly", id)
		case "engine":
			if r.w.g.opts.engine == "goyaml" {
				return r.want("InsertRaw", "YM(", id, "#0", "#1")
			}
			return r.want("InsertRaw", "MarshalYAML(", id, "#0", "#1")
		case "text":
			return r.want("InsertRawText", "MarshalText(", id, "#0", "#1")
		}
		if types.Identical(t, r.w.target) && r.i < len(r.ev) {
			if n, args := r.next(); n == "InsertRaw" {
				var ids []string
				leafIDs(v, &ids)
				if len(ids) > 0 && !strings.Contains(args[0].Key(), ids[0]) {
					return "another value is inserted"
				}
				return ""
			}
			r.i--
		}
	}
	if v.kind == 'n' {
		if _, ok := t.Underlying().(*types.Interface); ok {
			i := t.Underlying().(*types.Interface)
			if i.NumMethods() == 0 && r.i < len(r.ev) {
				if n, _ := r.next(); n == "InsertRaw" || n == "InsertNull" {
					return ""
				}
				r.i--
			}
		}
		return r.want("InsertNull")
	}
	if isBytes(t) {
		if isNilable(t) {
			return r.want("InsertString", v.id+"0")
		}
		at := t.Underlying().(*types.Array)
		var ids []string
		for i := int64(0); i < at.Len(); i++ {
			ids = append(ids, fmt.Sprintf("%s%d", v.id, i))
		}
		return r.want("InsertString", strings.Join(append([]string{"bytes($"}, ids[0]), ""), ids[len(ids)-1])
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		name := ""
		switch {
		case u.Info()&types.IsString != 0:
			name = "InsertString"
		case u.Info()&types.IsBoolean != 0:
			name = "InsertBoolean"
		case u.Info()&types.IsUnsigned != 0:
			name = "InsertUnsigned"
		case u.Info()&types.IsInteger != 0:
			name = "InsertInteger"
		default:
			name = "InsertFloat"
		}
		if v.key != "" {
			return r.want(name, Str(v.key).Key())
		}
		n, args := r.next()
		if n != name {
			return fmt.Sprintf("%s is called where %s is expected", n, name)
		}
		key := r.st.Resolve(args[0]).Key()
		if c, ok := r.st.Known(Sym{ID: v.id, T: t}); ok && c.Key() == key {
			return ""
		}
		got := key
		for strings.HasPrefix(got, "$conv<") {
			i := strings.LastIndex(got, ">")
			if to := got[i+1:]; to != "float64" && to != "int64" && to != "uint64" && to != "string" && to != "bool" {
				return fmt.Sprintf("%s is called with a value shortened to %s", n, to)
			}
			got = got[6:i]
		}
		if got != "$"+v.id {
			return fmt.Sprintf("%s is called with %s where %s is expected", n, brief(key), v.id)
		}
	case *types.Interface:
		if _, ok := v.held.(*types.Pointer); ok {
			return r.want("MarshalYamly", v.id)
		}
		if r.w.g.opts.engine == "goyaml" {
			return r.want("InsertRaw", "YM("+v.held.String(), v.id, "#0", "#1")
		}
		if _, ok := v.held.(*types.Named); ok {
			return r.want("InsertRaw", "MarshalYAML(", v.id, "#0", "#1")
		}
		n, args := r.next()
		if strings.HasPrefix(n, "Insert") && len(args) > 0 && strings.Contains(args[0].Key(), v.id) {
			return ""
		}
		if n == "InsertRaw" && len(args) == 2 && isNil(args[0]) && isNil(args[1]) {
			return plainLost
		}
		return fmt.Sprintf("%s is called where the value held is expected", n)
	case *types.Pointer:
		return r.encodes(u.Elem(), v.kids[0], false)
	case *types.Slice, *types.Array:
		e := t.Underlying().(interface{ Elem() types.Type }).Elem()
		if m := r.want("StartSequence"); m != "" {
			return m
		}
		for i, k := range v.kids {
			if m := r.encodes(e, k, false); m != "" {
				return fmt.Sprintf("element %d: %s", i, m)
			}
		}
		return r.want("EndSequence")
	case *types.Map:
		if m := r.want("StartMapping"); m != "" {
			return m
		}
		done := map[int]bool{}
		for n := 0; n < len(v.kids)/2; n++ {
			at, found := r.i, false
			msg := ""
			for i := 0; i+1 < len(v.kids) && !found; i += 2 {
				if done[i] {
					continue
				}
				r.i = at
				if msg = r.encodes(u.Key(), v.kids[i], false); msg != "" {
					continue
				}
				found, done[i] = true, true
				if m := r.encodes(u.Elem(), v.kids[i+1], false); m != "" {
					return "entry: " + m
				}
			}
			if !found {
				return "key: " + msg
			}
		}
		return r.want("EndMapping")
	case *types.Struct:
		if m := r.want("StartMapping"); m != "" {
			return m
		}
		for _, f := range r.w.fields(t) {
			ft, fv, ok := selV(t, v, f)
			if !ok {
				continue // a holder is nil
			}
			if f.omit {
				switch r.empty(ft, fv) {
				case 1:
					continue
				case 0:
					return fmt.Sprintf("field %s is inserted without looking whether it is empty", f.key)
				}
			}
			if m := r.want("InsertString", Str(f.key).Key()); m != "" {
				return fmt.Sprintf("field %s: %s", f.key, m)
			}
			if m := r.encodes(ft, fv, false); m != "" {
				return fmt.Sprintf("field %s: %s", f.key, m)
			}
		}
		return r.want("EndMapping")
	}
	return ""
}

// plainLost is the finding about interfaces holding values without methods.
const plainLost = "nothing is inserted for the value"

func isNil(v Val) bool {
	_, ok := v.(Nil)
	return ok
}

// selV selects a field of an abstract value.
func selV(t types.Type, v *vnode, f gfield) (types.Type, *vnode, bool) {
	for _, h := range f.sel {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if v.kind == 'n' {
				return nil, nil, false
			}
			t, v = p.Elem(), v.kids[0]
		}
		s := structOfT(t)
		if v.kind != 't' {
			return nil, nil, false
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i) == h {
				v = v.kids[i]
				break
			}
		}
		t = h.Type()
	}
	return t, v, true
}

// empty: 1 empty, -1 not, 0 unknown on this path.
func (r *record) empty(t types.Type, v *vnode) int {
	if isNilable(t) {
		if _, ok := t.Underlying().(*types.Pointer); !ok && v.kind != 'i' && v.kind != 's' && len(v.kids) == 0 {
			return 1
		}
		if v.kind == 'n' {
			return 1
		}
		return -1
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1
	}
	s := Sym{ID: v.id, T: t}
	if b.Info()&types.IsString != 0 {
		if n := truth(r.st, Cmp{Op: "==", X: r.st.Len(s), Y: Int(0)}); n != 0 {
			return n
		}
	}
	return truth(r.st, zero(s, t))
}

// truth: 1 true, -1 false, 0 unknown.
func truth(st *State, c Val) int {
	switch st.Truth(c) {
	case 1:
		return 1
	case 0:
		return -1
	}
	return 0
}

// zero is the condition that x is its type's zero value.
func zero(x Val, t types.Type) Val {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return Cmp{Op: "==", X: x, Y: Bool(false)}
	}
	return Cmp{Op: "==", X: x, Y: ZeroVal(t)}
}

func c21cases(tier string) []*gcase {
	var out []*gcase
	for _, g := range gcases(tier) {
		if !g.fails {
			out = append(out, g)
		}
	}
	return out
}

func runC21(c *core.Ctx) {
	s := newStage(c)
	cases := c21cases(c.Tier)
	if err := s.prepare(cases); err != nil {
		c.Rep.Undecide("the types to generate for do not compile: %v", err)
		return
	}
	ws := s.worlds(c, cases)
	var jobs []func(*core.Ctx)
	const chunk = 8
	for i := 0; i < len(ws); i += chunk {
		part := ws[i:min(i+chunk, len(ws))]
		jobs = append(jobs, func(c *core.Ctx) {
			st := s.fork(c)
			for _, w := range part {
				x := *w
				x.s = st
				x.encodings()
			}
		})
	}
	c.Parallel(jobs)
	c.Rep.Floor("encodes", 45000)
}

func (w *gworld) encodings() {
	for i, v := range w.values(w.target, 0) {
		w.encode(v.copyV(), false, 0)
		if i == 0 {
			w.encode(v.copyV(), true, 0)
		}
		if strings.Contains(v.String(), "map[") {
			w.encode(v.copyV(), false, 1)
		}
	}
	if w.g.opts.ptr {
		w.encode(&vnode{kind: 'n'}, false, 0)
	}
}

func (w *gworld) encode(v *vnode, engine bool, order int) {
	rep := w.s.c.Rep
	what := fmt.Sprintf("%s (%s)", w.g.name, w.g.opts)
	mname := "MarshalYamly"
	if engine {
		mname = "MarshalYAML"
	}
	var rt types.Type = w.target
	if w.g.opts.ptr {
		rt = types.NewPointer(w.target)
	}
	fn := w.s.c.Prog.LookupMethod(rt, w.pkg, mname)
	if fn == nil {
		rep.Undecide("%s: no %s", what, mname)
		return
	}
	st := w.s.state()
	w.s.why = ""
	st.Heap["!ev"] = Tuple{}
	n := 0
	w.open = 0
	var self Val
	nilSelf := v.kind == 'n' && w.g.opts.ptr && !isNilable(w.target)
	if v.kind == 'n' && w.g.opts.ptr {
		self, nilSelf = Nil{}, true
	} else {
		self = w.make(st, w.target, v, &n)
		if w.g.opts.ptr {
			st.StoreCell(Addr{Base: "SELF"}, self)
			self = Addr{Base: "SELF"}
		}
	}
	args := []Val{self}
	if !engine {
		e := Sym{ID: encID, T: fn.Signature.Params().At(0).Type()}
		st.SetNil(e, 2)
		args = append(args, e)
	}
	r := &erun{w}
	in := w.s.interp()
	in.MapOrder = order
	in.Hooks.Call = r.call
	in.MaxSteps = 200000
	outs := in.Run(fn, args, st)
	if in.Capped {
		if strings.Contains(in.CapWhy, "step") {
			rep.Violate("encodes", what, "", "%s of %s: the generated code does not come to an end", mname, v)
			return
		}
		w.s.give("%s", in.CapWhy)
	}
	if w.s.why != "" {
		rep.Undecide("%s: %s", what, w.s.why)
		return
	}
	rep.Ob("encodes")
	if len(outs) == 0 {
		rep.Violate("encodes", what, "", "%s of %s never ends", mname, v)
	}
	for _, o := range outs {
		problem := ""
		if o.Panic {
			problem = "the generated code panics: " + o.Note
		} else {
			ev, _ := o.St.Heap["!ev"].(Tuple)
			rec := &record{w: w, st: o.St, ev: ev.Vs}
			if nilSelf {
				problem = rec.want("InsertNull")
			} else {
				problem = rec.encodes(w.target, v, true)
			}
			if problem == "" && engine {
				problem = rec.want("finish")
				for i, x := range o.Rets {
					if y := o.St.Resolve(x); problem == "" && !strings.Contains(y.Key(), fmt.Sprintf("FIN#%d", i)) {
						problem = "what the encoder gives is not what is returned"
					}
				}
			}
			if problem == "" && rec.i < len(rec.ev) {
				n, _ := rec.next()
				problem = n + " is called where nothing is left to insert"
			}
		}
		if strings.HasSuffix(problem, plainLost) {
			rep.Violate("held", "interface{} holding a value without marshalling methods (engine "+w.g.opts.engine+")", "", "%s of %s in %s: %s", mname, v, what, problem)
			return
		}
		if problem != "" {
			rep.Violate("encodes", what, "", "%s of %s: %s", mname, v, problem)
			if os.Getenv("VERIF_DEBUG") == w.g.target {
				fmt.Println(w.g.res.text)
			}
			return
		}
	}
}
