package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

// Abstract documents. A rule builds an abstract tree (node kinds and structure known, scalar
// texts symbolic), and applies the abstract transfer function of a decoder operation to it.

type shape struct {
	kind string // text, null, seq, map, alias, stream
	name string // identity of a text, anchor name of an alias
	q    int    // quoting of a text (0 unknown, 1 absent, 2 single, 3 double)
	anc  string // anchor put on the node ("" none)
	tag  bool   // a tag put on the node
	kids []*shape
	to   *shape // target of an alias
}

func text(n string) *shape       { return &shape{kind: "text", name: n} }
func quoted(n string) *shape     { return &shape{kind: "text", name: n, q: 3} }
func null() *shape               { return &shape{kind: "null"} }
func seq(k ...*shape) *shape     { return &shape{kind: "seq", kids: k} }
func mapping(k ...*shape) *shape { return &shape{kind: "map", kids: k} } // k,v,k,v
func anchored(a string, s *shape) *shape {
	n := *s
	n.anc = a
	return &n
}
func tagged(s *shape) *shape           { n := *s; n.tag = true; return &n }
func alias(a string, to *shape) *shape { return &shape{kind: "alias", name: a, to: to} }

func (s *shape) String() string {
	p := ""
	if s.anc != "" {
		p = "&" + s.anc + " "
	}
	if s.tag {
		p += "!tag "
	}
	switch s.kind {
	case "text":
		if s.q > 0 {
			return p + []string{"", "plain ", "'", `"`}[s.q] + s.name + []string{"", "", "'", `"`}[s.q]
		}
		return p + s.name
	case "null":
		return p + "null"
	case "alias":
		return "*" + s.name
	}
	var l []string
	if s.kind == "map" {
		for i := 0; i+1 < len(s.kids); i += 2 {
			l = append(l, s.kids[i].String()+": "+s.kids[i+1].String())
		}
		return p + "{" + strings.Join(l, ", ") + "}"
	}
	for _, k := range s.kids {
		l = append(l, k.String())
	}
	if s.kind == "stream" {
		return "<" + strings.Join(l, " --- ") + ">"
	}
	return p + "[" + strings.Join(l, ", ") + "]"
}

// engine adapts one engine's tree type.
type engine struct {
	c       *core.Ctx
	name    string // package path prefix
	r       *types.Named
	newFn   *ssa.Function // NewASTReader
	multi   *ssa.Function // WithMultipleDenyErrors
	isAST   bool
	yamlPkg *types.Package
	n       int
	nodes   map[string]Val // shape identity -> node value
	globals func(*ssa.Global) (Val, bool)
	capped  string
	deny    types.Type
	reached map[string][]*session
	loose   []string // the aliases of the tree to be serialised whose anchors lie outside of it
}

func engines(c *core.Ctx) []*engine {
	var out []*engine
	dec := ifaceOf(c, root, "Decoder")
	if dec == nil {
		return nil
	}
	g := ConstGlobals(c.Prog, c.Funcs)
	for _, n := range implementers(c, dec) {
		p := n.Obj().Pkg()
		sp := c.SSA[p.Path()]
		if sp == nil {
			continue
		}
		e := &engine{c: c, r: n, name: strings.TrimPrefix(p.Path(), core.Mod+"/"), globals: g}
		for _, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			sig := f.Signature
			if sig.Results().Len() == 1 && isPtrTo(sig.Results().At(0).Type(), n) && sig.Params().Len() >= 1 && !isByteSlice(sig.Params().At(0).Type()) {
				e.newFn = f
			}
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && strings.Contains(f.Name(), "MultipleDeny") {
				e.multi = f
			}
		}
		if e.newFn == nil {
			c.Rep.Undecide("%s: no constructor from a tree", shortType(n))
			continue
		}
		pt := e.newFn.Params[0].Type()
		if ptr, ok := pt.(*types.Pointer); ok {
			if nm, ok := ptr.Elem().(*types.Named); ok {
				e.yamlPkg = nm.Obj().Pkg()
			}
		} else {
			e.isAST = true
		}
		if f := c.Func(root, "DenyError"); f != nil {
			st := NewState()
			errSym(st, "x")
			in := New(c.Prog, Hooks{})
			for _, o := range in.Run(f, []Val{Sym{ID: "x"}}, st) {
				if i, ok := o.Rets[0].(Iface); ok {
					e.deny = i.T
				}
			}
		}
		out = append(out, e)
	}
	return out
}

// copy gives the engine to another goroutine.
func (e *engine) copy(c *core.Ctx) *engine {
	n := *e
	n.c = c
	n.nodes, n.reached, n.capped, n.n = nil, nil, "", 0
	return &n
}

func (e *engine) undecided() {
	if e.capped != "" {
		e.c.Rep.Undecide("%s: %s", e.name, e.capped)
	}
}

func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

const astPkg = core.Mod + "/engines/yayamls/ast"

func (e *engine) interp() *Interp {
	in := New(e.c.Prog, Hooks{Call: e.model})
	in.GlobalInit = e.globals
	in.MaxRec = 8
	in.MaxDepth = 80
	in.MaxSteps = 200000
	in.Hooks.Inline = func(fn *ssa.Function) bool {
		if len(fn.Blocks) == 0 {
			return false
		}
		p := core.FuncPkg(fn)
		if fn.Synthetic != "" && p == nil {
			return true
		}
		if p == nil {
			return false
		}
		if fn.Synthetic != "" {
			return true
		}
		switch p.Path() {
		case core.Mod + "/engines/pkg/schema", core.Mod + "/engines/yayamls/parser":
			return false
		}
		if strings.HasSuffix(p.Path(), "/encode") {
			return false
		}
		return p.Path() == root || strings.HasPrefix(p.Path(), core.Mod+"/")
	}
	return in
}

// model: shared-schema predicates are boolean symbols of their text, conversions fork into
// success and failure, serialisers into bytes and failure.
func (e *engine) model(in *Interp, c *Call, st *State) ([]Outcome, bool) {
	if o, ok := stdModel(in, c, st); ok {
		return o, true
	}
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: v}}, true }
	name := c.Name()
	if name == "errors.Is" {
		v := st.Resolve(c.Args[0])
		if i, ok := v.(Iface); ok && e.deny != nil {
			return one(Bool(types.Identical(i.T, e.deny)))
		}
		if st.Nilness(v) == 1 {
			return one(Bool(false))
		}
		if strings.HasPrefix(v.Key(), "$converr<") || strings.HasPrefix(v.Key(), "$err:") {
			return one(Bool(false))
		}
		return nil, false
	}
	shared := core.Mod + "/engines/pkg/schema."
	isConv := func(sig *types.Signature) bool {
		return sig.Results().Len() == 2 && isErr(sig.Results().At(1).Type())
	}
	if enc := core.Mod + "/engines/yayamls/encode."; strings.HasPrefix(name, enc) {
		switch strings.TrimPrefix(name, enc) {
		case "WithAnchorsKeeper":
			id := "withkeeper<" + c.Args[0].Key() + ">"
			st.TSVal[id] = c.Args[0]
			v := Sym{ID: id, T: c.Common.Signature().Results().At(0).Type()}
			st.SetNil(v, 2)
			return one(v)
		case "NewASTWriter":
			id := "writer<>"
			if os, ok := elems(st, c.Args[0], errType); !ok {
				id = "writer<?>"
			} else {
				for _, o := range os {
					if y, ok := st.Resolve(o).(Sym); ok && strings.HasPrefix(y.ID, "withkeeper<") {
						id = "writer<" + y.ID + ">"
					} else {
						id = "writer<?>"
						break
					}
				}
			}
			v := Sym{ID: id, T: c.Common.Signature().Results().At(0).Type()}
			st.SetNil(v, 2)
			return one(v)
		}
	}
	if len(e.loose) > 0 && c.Fn != nil && c.Fn.Signature.Recv() != nil && strings.HasPrefix(c.Fn.Name(), "Write") {
		if w, ok := st.Resolve(c.Args[0]).(Sym); ok && strings.HasPrefix(w.ID, "writer<") && w.ID != "writer<?>" {
			delete(st.TS, "loose")
			for _, l := range e.loose {
				if !e.resolves(st, w, l) {
					st.TS["loose"] = l
				}
			}
		}
	}
	if name == "gopkg.in/yaml.v3.Marshal" && len(c.Args) == 1 {
		delete(st.TS, "loose")
		if i, ok := st.Resolve(c.Args[0]).(Iface); ok {
			if a, ok := st.Resolve(i.V).(Addr); ok && e.yamlPkg != nil {
				if l := e.looseAlias(st, a, map[string]bool{}, map[string]bool{}); l != "" {
					st.TS["loose"] = l
				}
			}
		}
	}
	switch {
	case strings.HasPrefix(name, shared+"Is"):
		return one(st.Resolve(Sym{ID: "is<" + strings.TrimPrefix(name, shared) + "(" + c.Args[0].Key() + ")>", T: types.Typ[types.Bool]}))
	case strings.HasPrefix(name, shared) && isConv(c.Common.Signature()), c.Fn != nil && !in.Hooks.Inline(c.Fn) && isConv(c.Common.Signature()), c.Fn == nil && isConv(c.Common.Signature()):
		id := strings.TrimPrefix(name, shared) + "("
		for i, a := range c.Args {
			if i > 0 {
				id += ","
			}
			id += a.Key()
		}
		id += ")"
		bad := st.Clone()
		ev := Sym{ID: "converr<" + id + ">", T: errType}
		bad.SetNil(ev, 2)
		bad.TS["conv"] = "err"
		bad.Logf("%s fails", id)
		okv := Sym{ID: "conv<" + id + ">", T: c.Common.Signature().Results().At(0).Type()}
		if _, isSl := okv.T.Underlying().(*types.Slice); isSl {
			st.SetNil(okv, 2)
		}
		return []Outcome{
			{St: st, Rets: []Val{okv, Nil{}}},
			{St: bad, Rets: []Val{ZeroVal(okv.T), ev}},
		}, true
	case strings.HasSuffix(name, ".Node).ShortTag"):
		// the tag is null, or something else
		return one(st.Resolve(Sym{ID: "tag<" + c.Args[0].Key() + ">", T: types.Typ[types.String]}))
	case name == "gopkg.in/yaml.v3.Marshal":
		return nil, false
	}
	return nil, false
}

// resolves says whether a writer replaces an alias by the node its keeper knows (unknown counts as yes).
func (e *engine) resolves(st *State, w Sym, alias string) bool {
	k, ok := st.TSVal[strings.TrimSuffix(strings.TrimPrefix(w.ID, "writer<"), ">")]
	if !ok {
		return false
	}
	i, ok := st.Resolve(k).(Iface)
	if !ok {
		return true
	}
	t := i.T
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	f := e.c.Method(t, "DereferenceAlias")
	if f == nil || f.Signature.Results().Len() != 2 {
		return true
	}
	for _, o := range e.interp().RunAs("deref", f, []Val{i.V, Str(alias)}, st.Clone()) {
		if o.Panic || o.St.Nilness(o.Rets[1]) == 2 {
			return false
		}
	}
	return true
}

// looseOf lists the aliases of s whose anchors are not before them in s.
func looseOf(s *shape) []string {
	var out []string
	met := map[string]bool{}
	var rec func(s *shape)
	rec = func(s *shape) {
		if s.kind == "alias" && !met[s.name] {
			out = append(out, s.name)
			met[s.name] = true
		}
		if s.anc != "" {
			met[s.anc] = true
		}
		for _, k := range s.kids {
			rec(k)
		}
	}
	rec(s)
	return out
}

// looseAlias finds an alias in the tree at a whose node has not been written, with its anchor, before it.
func (e *engine) looseAlias(st *State, a Addr, met, on map[string]bool) string {
	if on[a.Cell()] {
		return ""
	}
	on[a.Cell()] = true
	defer delete(on, a.Cell())
	field := func(f string, t types.Type) Val { return st.Resolve(st.Load(Addr{Base: a.Base, Path: a.Path + "." + f}, t)) }
	kind := field("Kind", types.Typ[types.Uint32]).Key()
	if kind == e.constOf("AliasNode").Key() {
		t, ok := field("Alias", types.Typ[types.UnsafePointer]).(Addr)
		n, _ := strConst(field("Value", types.Typ[types.String]))
		if ok && n != "" && !met[n+" "+t.Cell()] {
			return n
		}
		return ""
	}
	if n, ok := strConst(field("Anchor", types.Typ[types.String])); ok && n != "" {
		for k := range met {
			if strings.HasPrefix(k, n+" ") {
				delete(met, k)
			}
		}
		met[n+" "+a.Cell()] = true
	}
	cs, ok := elems(st, field("Content", types.NewSlice(types.Typ[types.UnsafePointer])), types.Typ[types.UnsafePointer])
	if !ok {
		return ""
	}
	for _, k := range cs {
		if ka, ok := st.Resolve(k).(Addr); ok {
			if l := e.looseAlias(st, ka, met, on); l != "" {
				return l
			}
		}
	}
	return ""
}

func (e *engine) constOf(name string) Val {
	if o, ok := e.yamlPkg.Scope().Lookup(name).(*types.Const); ok {
		return Const{o.Val()}
	}
	return Int(-1)
}

// build creates the abstract tree and returns the node value.
func (e *engine) build(s *shape, st *State) Val {
	if e.nodes == nil {
		e.nodes = map[string]Val{}
	}
	v := e.build1(s, st)
	return v
}

func (e *engine) base(s *shape) string {
	e.n++
	return fmt.Sprintf("N%d", e.n)
}

func (e *engine) build1(s *shape, st *State) Val {
	v := e.build2(s, st)
	if st.TSVal == nil {
		st.TSVal = map[string]Val{}
	}
	st.TSVal["node:"+fmt.Sprintf("%p", s)] = v
	return v
}

func (e *engine) build2(s *shape, st *State) Val {
	if e.isAST {
		inner := e.buildAST(s, st)
		if s.anc == "" && !s.tag {
			return inner
		}
		var tg, an Val = Iface{T: types.NewPointer(e.astType("BasicNode")), V: Addr{Base: "inv"}}, Iface{T: types.NewPointer(e.astType("BasicNode")), V: Addr{Base: "inv"}}
		st.Heap["inv.NodeType"] = Int(0)
		if s.anc != "" {
			an = e.ctor(st, "NewAnchorNode", Str(s.anc))
		}
		if s.tag {
			tg = e.ctor(st, "NewTagNode", Str("!tag"))
		}
		props := e.ctor(st, "NewPropertiesNode", tg, an)
		return e.ctor(st, "NewContentNode", props, inner)
	}
	return e.buildYAML(s, st)
}

func (e *engine) astType(n string) *types.Named { return e.c.Named(astPkg, n) }

// ctor interprets a constructor of the ast package.
func (e *engine) ctor(st *State, name string, as ...Val) Val {
	f := e.c.Func(astPkg, name)
	if f == nil {
		panic("constructor " + name + " is gone")
	}
	e.n++
	in := e.interp()
	outs := in.RunAs(fmt.Sprintf("c%d", e.n), f, as, st)
	if len(outs) != 1 || outs[0].Panic {
		panic("constructor " + name + " has no single abstract result")
	}
	*st = *outs[0].St
	v := outs[0].Rets[0]
	if _, ok := v.(Iface); ok {
		return v
	}
	return Iface{T: f.Signature.Results().At(0).Type(), V: v}
}

// option interprets a constructor of a node option.
func (e *engine) option(st *State, name string, as ...Val) Val {
	f := e.c.Func(astPkg, name)
	if f == nil {
		panic("option " + name + " is gone")
	}
	e.n++
	outs := e.interp().RunAs(fmt.Sprintf("o%d", e.n), f, as, st)
	if len(outs) != 1 || outs[0].Panic {
		panic("option " + name + " has no single abstract result")
	}
	*st = *outs[0].St
	return outs[0].Rets[0]
}

func sliceVal(st *State, base string, vs []Val) Val {
	for i, v := range vs {
		st.Heap[fmt.Sprintf("%s[%d]", base, i)] = v
	}
	return SliceOf{A: Addr{Base: base}, N: len(vs)}
}

func textSym(s *shape) Val {
	if strings.HasPrefix(s.name, "=") {
		return Str(s.name[1:])
	}
	return Sym{ID: "txt:" + s.name, T: types.Typ[types.String]}
}

func (e *engine) buildAST(s *shape, st *State) Val {
	var v Val
	switch s.kind {
	case "text":
		var opts Val = Nil{}
		if s.q != 0 {
			opts = sliceVal(st, e.base(s)+"opt", []Val{e.option(st, "WithQuotingType", Int(int64(s.q)))})
		}
		v = e.ctor(st, "NewTextNode", textSym(s), opts)
	case "null":
		v = e.ctor(st, "NewNullNode")
	case "alias":
		v = e.ctor(st, "NewAliasNode", Str(s.name))
	case "seq", "stream":
		var ks []Val
		for _, k := range s.kids {
			ks = append(ks, e.build1(k, st))
		}
		cn := "NewSequenceNode"
		if s.kind == "stream" {
			cn = "NewStreamNode"
		}
		v = e.ctor(st, cn, sliceVal(st, e.base(s)+"k", ks))
	case "map":
		var ks []Val
		for i := 0; i+1 < len(s.kids); i += 2 {
			ks = append(ks, e.ctor(st, "NewMappingEntryNode", e.build1(s.kids[i], st), e.build1(s.kids[i+1], st)))
		}
		v = e.ctor(st, "NewMappingNode", sliceVal(st, e.base(s)+"k", ks))
	}
	return v
}

func (e *engine) buildYAML(s *shape, st *State) Val {
	b := e.base(s)
	a := Addr{Base: b}
	st.Heap["!zero:"+b] = Nil{}
	if s.anc != "" {
		st.Heap[b+".Anchor"] = Str(s.anc)
		e.nodes[s.anc] = a
	}
	switch s.kind {
	case "text":
		st.Heap[b+".Kind"] = e.constOf("ScalarNode")
		st.Heap[b+".Value"] = textSym(s)
	case "null":
		st.Heap[b+".Kind"] = e.constOf("ScalarNode")
		st.Heap[b+".Value"] = textSym(&shape{name: b})
		st.SetEq(Sym{ID: "tag<" + a.Key() + ">"}, constant.MakeString("!!null"))
	case "alias":
		st.Heap[b+".Kind"] = e.constOf("AliasNode")
		st.Heap[b+".Value"] = Str(s.name)
		if t, ok := e.nodes[s.name]; ok {
			st.Heap[b+".Alias"] = t
		} else if s.to != nil {
			st.Heap[b+".Alias"] = e.buildYAML(s.to, st)
		}
	case "seq":
		st.Heap[b+".Kind"] = e.constOf("SequenceNode")
	case "map":
		st.Heap[b+".Kind"] = e.constOf("MappingNode")
	case "stream":
		st.Heap[b+".Kind"] = e.constOf("DocumentNode")
	}
	var ks []Val
	for _, k := range s.kids {
		ks = append(ks, e.build1(k, st))
	}
	if len(ks) > 0 {
		st.Heap[b+".Content"] = sliceVal(st, b+"k", ks)
	}
	return a
}

// session is one abstract decoder over one abstract document.
type session struct {
	e    *engine
	st   *State
	recv Val
	tree Val
	log  []string
	n    int
}

func (e *engine) open(s *shape, multi bool) []*session {
	e.nodes = nil
	e.n = 0
	st := NewState()
	st.MaxInst = 6
	tree := e.build(s, st)
	var opts Val = Nil{}
	if multi && e.multi != nil {
		in := e.interp()
		o := in.RunAs("opt", e.multi, nil, st)
		if len(o) != 1 {
			return nil
		}
		st = o[0].St
		opts = sliceVal(st, "opts", []Val{o[0].Rets[0]})
	}
	in := e.interp()
	var out []*session
	for _, o := range in.RunAs("new", e.newFn, []Val{tree, opts}, st) {
		if o.Panic {
			out = append(out, nil)
			continue
		}
		out = append(out, &session{e: e, st: o.St, recv: o.Rets[0], tree: tree, log: []string{"document " + s.String()}})
	}
	if in.Capped {
		e.capped = in.CapWhy
	}
	return out
}

type result struct {
	s     *session // state after the operation
	val   Val      // result (nil for none)
	panic string
	err   Val // Error() afterwards
}

// op applies the abstract transfer function of one decoder method.
func (s *session) op(m string, as ...Val) []result {
	fn := s.e.c.Method(s.e.r, m)
	if fn == nil {
		return nil
	}
	in := s.e.interp()
	st := s.st.Clone()
	delete(st.TS, "conv")
	st.Trace = nil
	var out []result
	for _, o := range in.RunAs(fmt.Sprintf("op%d", s.n), fn, append([]Val{s.recv}, as...), st) {
		ns := &session{e: s.e, st: o.St, recv: s.recv, tree: s.tree, log: append(append([]string(nil), s.log...), m), n: s.n + 1}
		if o.Panic {
			out = append(out, result{s: ns, panic: o.Note + " at " + s.e.c.Pos(o.Pos)})
			continue
		}
		var v Val
		if len(o.Rets) > 0 {
			v = o.St.Resolve(o.Rets[0])
		}
		for _, ev := range ns.errors() {
			out = append(out, result{s: ns, val: v, err: ev})
		}
	}
	if in.Capped {
		s.e.capped = in.CapWhy
		return nil
	}
	return out
}

// errors evaluates Error() on a copy.
func (s *session) errors() []Val {
	fn := s.e.c.Method(s.e.r, "Error")
	in := s.e.interp()
	var out []Val
	seen := map[string]bool{}
	for _, o := range in.RunAs(fmt.Sprintf("err%d", s.n), fn, []Val{s.recv}, s.st.Clone()) {
		if o.Panic {
			continue
		}
		v := o.St.Resolve(o.Rets[0])
		if o.St.Nilness(v) == 1 {
			v = Nil{}
		}
		if !seen[v.Key()] {
			seen[v.Key()] = true
			out = append(out, v)
		}
	}
	return out
}

// query calls a method on an interface value and returns the single constant answer, if any.
func (s *session) query(v Val, m string) Val {
	iv, ok := s.st.Resolve(v).(Iface)
	if !ok {
		return nil
	}
	ms := s.e.c.Prog.MethodSets.MethodSet(iv.T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m {
			f := s.e.c.Prog.MethodValue(ms.At(i))
			in := s.e.interp()
			outs := in.RunAs(fmt.Sprintf("q%d", s.n), f, []Val{iv.V}, s.st.Clone())
			if len(outs) == 1 && !outs[0].Panic && len(outs[0].Rets) == 1 {
				return outs[0].St.Resolve(outs[0].Rets[0])
			}
		}
	}
	return nil
}

func (s *session) fact(pred string, t Val) int {
	f, ok := s.st.Facts["is<"+pred+"("+t.Key()+")>"]
	if !ok || f.EqV == nil {
		return -1
	}
	if constant.BoolVal(f.EqV) {
		return 1
	}
	return 0
}

var _ = packages.NeedName

// nullText: 1 the scalar is null, 0 it is not, -1 not asked.
func nullText(s *session, e *engine, k kindCase, t Val) int {
	if e.isAST {
		return s.fact("IsNull", t)
	}
	// the tag symbol of the scalar's node
	for id, f := range s.st.Facts {
		if !strings.HasPrefix(id, "tag<") {
			continue
		}
		node := strings.TrimSuffix(strings.TrimPrefix(id, "tag<&"), ">")
		if v, ok := s.st.Heap[node+".Value"]; !ok || v.Key() != t.Key() {
			continue
		}
		if f.EqV != nil {
			return b2i(constant.StringVal(f.EqV) == "!!null")
		}
		if strings.Contains(f.Neq, `"!!null"`) {
			return 0
		}
	}
	return -1
}
