package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

func init() {
	register("C04", &Rule{
		Run:     runC04,
		Explain: "For each tree builder: abstract interpretation of every Inserter method from every abstract builder state reached by a failing operation sequence (finite family, values symbolic); the error that Result reports must be the one recorded first, no later insertion may replace it or panic, an error argument must be that error, and after Result the builder must behave as a new one.",
		Assume:  []string{"fmt.Errorf/errors.New return non-nil errors"},
	})
	register("C05", &Rule{
		Run:     runC05,
		Explain: "For each tree builder: the abstract transfer functions of the Inserter methods are composed along all operation sequences up to the bound (values symbolic) and the abstract result tree is compared, node by node, with the tree the sequence describes; sequences that describe no tree (mismatched ends, key without value, unfinished collections, second root) must make Result report an error.",
		Assume:  []string{"builder behaviour depends on the open collections, not on absolute length", "schema.From* are functions of their argument (C07)"},
	})
}

type builder struct {
	c       *core.Ctx
	named   *types.Named
	newFn   *ssa.Function
	opts    []*ssa.Function
	globals func(*ssa.Global) (Val, bool)
	isAST   bool
	nodePkg *types.Package
	capped  string
	e       *engine // accessors
}

func builders(c *core.Ctx) []*builder {
	ins := ifaceOf(c, root, "Inserter")
	if ins == nil {
		c.Rep.Violate("anchor", "yamly.Inserter", "", "the Inserter interface is gone")
		return nil
	}
	g := ConstGlobals(c.Prog, c.Funcs)
	var out []*builder
	for _, n := range implementers(c, ins) {
		res := c.Method(n, "Result")
		if res == nil || res.Signature.Results().Len() != 2 {
			continue
		}
		b := &builder{c: c, named: n, globals: g}
		rt := res.Signature.Results().At(0).Type()
		if p, ok := rt.(*types.Pointer); ok {
			if nm, ok := p.Elem().(*types.Named); ok {
				b.nodePkg = nm.Obj().Pkg()
			}
		} else {
			b.isAST = true
		}
		sp := c.SSA[n.Obj().Pkg().Path()]
		var optT types.Type
		for _, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if ok && f.Object() != nil && f.Object().Exported() && f.Signature.Results().Len() == 1 && isPtrTo(f.Signature.Results().At(0).Type(), n) {
				b.newFn = f
				if f.Signature.Variadic() {
					optT = f.Signature.Params().At(f.Signature.Params().Len() - 1).Type().(*types.Slice).Elem()
				}
			}
		}
		if b.newFn == nil {
			c.Rep.Undecide("%s: no constructor", shortType(n))
			continue
		}
		for _, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if ok && optT != nil && f.Object() != nil && f.Object().Exported() && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), optT) {
				b.opts = append(b.opts, f)
			}
		}
		b.e = &engine{c: c, isAST: b.isAST, yamlPkg: b.nodePkg, globals: g, r: n}
		out = append(out, b)
	}
	c.Rep.Count("tree builders", len(out))
	return out
}

func (b *builder) copy(c *core.Ctx) *builder {
	n := *b
	n.c = c
	n.e = b.e.copy(c)
	n.capped = ""
	return &n
}

func (b *builder) interp() *Interp {
	in := New(b.c.Prog, Hooks{Call: b.model})
	in.GlobalInit = b.globals
	in.MaxRec = 8
	in.MaxDepth = 60
	in.Hooks.Inline = func(fn *ssa.Function) bool {
		if len(fn.Blocks) == 0 {
			return false
		}
		p := core.FuncPkg(fn)
		if fn.Synthetic != "" && (p == nil || fn.Synthetic != "package initializer" && !strings.HasPrefix(fn.Synthetic, "instance")) {
			return true
		}
		if p == nil {
			return false
		}
		switch p.Path() {
		case core.Mod + "/engines/pkg/schema", core.Mod + "/engines/yayamls/parser":
			return false
		}
		return p.Path() == root || strings.HasPrefix(p.Path(), core.Mod+"/")
	}
	return in
}

func (b *builder) model(in *Interp, c *Call, st *State) ([]Outcome, bool) {
	if o, ok := stdModel(in, c, st); ok {
		return o, true
	}
	name := c.Name()
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: v}}, true }
	shared := core.Mod + "/engines/pkg/schema."
	argKeys := func() string {
		var ks []string
		for _, a := range c.Args {
			ks = append(ks, st.Resolve(a).Key())
		}
		return strings.Join(ks, ",")
	}
	switch {
	case strings.HasPrefix(name, shared+"From"):
		return one(Sym{ID: "from<" + strings.TrimPrefix(name, shared) + "(" + argKeys() + ")>", T: types.Typ[types.String]})
	case name == "gopkg.in/yaml.v3.Unmarshal":
		bad := st.Clone()
		ev := errSym(bad, "parseerr")
		bad.TS["conv"] = "err"
		ok := st
		if i, isI := c.Args[1].(Iface); isI {
			if a, isA := i.V.(Addr); isA {
				ok.Heap[a.Cell()+".Kind"] = b.e.constOf("DocumentNode")
				ok.Heap[a.Cell()+".Content"] = sliceVal(ok, "rawdoc", []Val{Addr{Base: "rawnode"}})
				ok.Heap["!zero:rawnode"] = Nil{}
				ok.Heap["rawnode.Kind"] = b.e.constOf("ScalarNode")
				ok.Heap["rawnode.Value"] = Sym{ID: "rawtext", T: types.Typ[types.String]}
			}
		}
		return []Outcome{{St: ok, Rets: []Val{Nil{}}}, {St: bad, Rets: []Val{ev}}}, true
	case strings.HasPrefix(name, core.Mod+"/engines/yayamls/parser.Parse"):
		bad := st.Clone()
		ev := errSym(bad, "parseerr")
		bad.TS["conv"] = "err"
		e := *b.e
		node := e.ctor(st, "NewTextNode", Sym{ID: "rawtext", T: types.Typ[types.String]}, Nil{})
		stream := st.Clone()
		sn := e.ctor(stream, "NewStreamNode", sliceVal(stream, "rawdocs", []Val{node, node}))
		stream.TS["conv"] = "stream"
		return []Outcome{{St: st, Rets: []Val{node, Nil{}}}, {St: stream, Rets: []Val{sn, Nil{}}}, {St: bad, Rets: []Val{Nil{}, ev}}}, true
	case name == "strings.ContainsRune" || name == "strings.Contains" || name == "strings.IndexByte" || name == "strings.IndexRune" || name == "strings.ContainsAny" || name == "strings.Index":
		return one(st.Resolve(Sym{ID: name + "<" + argKeys() + ">", T: c.Common.Signature().Results().At(0).Type()}))
	}
	return nil, false
}

// bstate is an abstract builder after some operations.
type bstate struct {
	b    *builder
	st   *State
	recv Val
	log  []string
}

func (b *builder) open(opts ...*ssa.Function) []*bstate {
	st := NewState()
	st.MaxInst = 24
	var ov Val = Nil{}
	if len(opts) > 0 {
		var vs []Val
		for i, f := range opts {
			o := b.interp().RunAs(fmt.Sprintf("opt%d", i), f, nil, st)
			if len(o) != 1 {
				return nil
			}
			st = o[0].St
			vs = append(vs, o[0].Rets[0])
		}
		ov = sliceVal(st, "opts", vs)
	}
	var as []Val
	if b.newFn.Signature.Params().Len() == 1 {
		as = []Val{ov}
	}
	var out []*bstate
	for _, o := range b.interp().RunAs("new", b.newFn, as, st) {
		if !o.Panic {
			out = append(out, &bstate{b: b, st: o.St, recv: o.Rets[0]})
		}
	}
	return out
}

type bresult struct {
	s     *bstate
	panic string
	rets  []Val
}

func (s *bstate) call(m string, as ...Val) []bresult {
	fn := s.b.c.Method(s.b.named, m)
	if fn == nil {
		return nil
	}
	in := s.b.interp()
	var out []bresult
	label := m
	if len(as) > 0 {
		label += "(" + strings.TrimPrefix(as[0].Key(), "$") + ")"
	}
	st := s.st.Clone()
	st.Trace = nil
	delete(st.TS, "conv")
	for _, o := range in.RunAs(fmt.Sprintf("b%d", len(s.log)), fn, append([]Val{s.recv}, as...), st) {
		ns := &bstate{b: s.b, st: o.St, recv: s.recv, log: append(append([]string(nil), s.log...), label)}
		r := bresult{s: ns}
		if o.Panic {
			r.panic = o.Note + " at " + s.b.c.Pos(o.Pos)
		}
		for _, v := range o.Rets {
			r.rets = append(r.rets, o.St.Resolve(v))
		}
		out = append(out, r)
	}
	if in.Capped {
		s.b.capped = in.CapWhy
	}
	return out
}

// want: the tree an operation sequence describes.
type want struct {
	kind string // text, null, seq, map
	text string // key of the text value
	kids []*want
}

func (w *want) String() string {
	if w == nil {
		return "nothing"
	}
	var l []string
	for _, k := range w.kids {
		l = append(l, k.String())
	}
	switch w.kind {
	case "seq":
		return "[" + strings.Join(l, ", ") + "]"
	case "map":
		return "{" + strings.Join(l, ", ") + "}"
	case "null":
		return "null"
	}
	return strings.TrimPrefix(w.text, "$")
}

// model of the builder
type wmodel struct {
	root   *want
	stack  []*want
	failed bool
}

func (m *wmodel) clone() *wmodel {
	n := &wmodel{failed: m.failed}
	cp := map[*want]*want{}
	var dup func(*want) *want
	dup = func(w *want) *want {
		if w == nil {
			return nil
		}
		x := &want{kind: w.kind, text: w.text}
		cp[w] = x
		for _, k := range w.kids {
			x.kids = append(x.kids, dup(k))
		}
		return x
	}
	n.root = dup(m.root)
	for _, s := range m.stack {
		n.stack = append(n.stack, cp[s])
	}
	return n
}

func (m *wmodel) insert(w *want) {
	if m.failed {
		return
	}
	if len(m.stack) == 0 {
		if m.root != nil {
			m.failed = true
			return
		}
		m.root = w
	} else {
		top := m.stack[len(m.stack)-1]
		top.kids = append(top.kids, w)
	}
	if w.kind == "seq" || w.kind == "map" {
		m.stack = append(m.stack, w)
	}
}

func (m *wmodel) end(kind string) {
	if m.failed {
		return
	}
	if len(m.stack) == 0 {
		m.failed = true
		return
	}
	top := m.stack[len(m.stack)-1]
	if top.kind != kind || kind == "map" && len(top.kids)%2 != 0 {
		m.failed = true
		return
	}
	m.stack = m.stack[:len(m.stack)-1]
}

func (m *wmodel) apply(op string, n int) (method string, as []Val) {
	switch op {
	case "S":
		v := Sym{ID: fmt.Sprintf("s%d", n), T: types.Typ[types.String]}
		m.insert(&want{kind: "text", text: v.Key()})
		return "InsertString", []Val{v}
	case "I":
		v := Sym{ID: fmt.Sprintf("i%d", n), T: types.Typ[types.Int64]}
		m.insert(&want{kind: "text", text: "$from<FromInteger(" + v.Key() + ")>"})
		return "InsertInteger", []Val{v}
	case "N":
		m.insert(&want{kind: "null"})
		return "InsertNull", nil
	case "[":
		m.insert(&want{kind: "seq"})
		return "StartSequence", nil
	case "]":
		m.end("seq")
		return "EndSequence", nil
	case "{":
		m.insert(&want{kind: "map"})
		return "StartMapping", nil
	case "}":
		m.end("map")
		return "EndMapping", nil
	}
	panic(op)
}

// accessors of the abstract result tree

func (s *bstate) method(v Val, m string) Val {
	se := &session{e: s.b.e, st: s.st, n: 99}
	return se.query(v, m)
}

// match compares the abstract tree with the described one; "" when equal.
func (s *bstate) match(v Val, w *want) string {
	v = s.st.Resolve(v)
	if s.st.Nilness(v) == 1 {
		return "a node is missing"
	}
	if s.b.isAST {
		tn := s.method(v, "Type")
		c, ok := tn.(Const)
		if !ok {
			return "a node of unknown kind " + v.Key()
		}
		kinds := map[string]string{"TextType": "text", "NullType": "null", "SequenceType": "seq", "MappingType": "map"}
		got := ""
		for cn, k := range kinds {
			if o, ok := s.b.c.Pkgs[astPkg].Types.Scope().Lookup(cn).(*types.Const); ok && o.Val().ExactString() == c.V.ExactString() {
				got = k
			}
		}
		if got != w.kind {
			return fmt.Sprintf("a node of kind %s where %s was inserted", got, w)
		}
		switch w.kind {
		case "text":
			if t := s.method(v, "Text"); t == nil || t.Key() != w.text {
				return fmt.Sprintf("the text %s where %s was inserted", key(t), w)
			}
		case "seq":
			els, known := elems(s.st, s.method(v, "Entries"), types.NewInterfaceType(nil, nil))
			if !known {
				return "?"
			}
			if len(els) != len(w.kids) {
				return fmt.Sprintf("a sequence of %d items where %s was inserted", len(els), w)
			}
			for i, e := range els {
				if why := s.match(e, w.kids[i]); why != "" {
					return why
				}
			}
		case "map":
			els, known := elems(s.st, s.method(v, "Entries"), types.NewInterfaceType(nil, nil))
			if !known {
				return "?"
			}
			if len(els)*2 != len(w.kids) {
				return fmt.Sprintf("a mapping of %d entries where %s was inserted", len(els), w)
			}
			for i, e := range els {
				for j, m := range []string{"Key", "Value"} {
					x := s.method(e, m)
					if x == nil {
						return "an entry without " + m
					}
					if why := s.match(x, w.kids[2*i+j]); why != "" {
						return why
					}
				}
			}
		}
		return ""
	}
	a, ok := v.(Addr)
	if !ok {
		return "?"
	}
	kind := s.st.Load(Addr{Base: a.Base, Path: a.Path + ".Kind"}, types.Typ[types.Uint32])
	got := ""
	for cn, k := range map[string]string{"ScalarNode": "text", "SequenceNode": "seq", "MappingNode": "map"} {
		if s.b.e.constOf(cn).Key() == kind.Key() {
			got = k
		}
	}
	str := func(f string) Val {
		return s.st.Load(Addr{Base: a.Base, Path: a.Path + "." + f}, types.Typ[types.String])
	}
	if got == "text" {
		if tag := str("Tag").Key(); tag == `#"!!null"` {
			got = "null"
		}
	}
	if got != w.kind {
		return fmt.Sprintf("a node of kind %s where %s was inserted", got, w)
	}
	switch w.kind {
	case "null":
		return ""
	case "text":
		if t := str("Value"); t.Key() != w.text {
			return fmt.Sprintf("the text %s where %s was inserted", t.Key(), w)
		}
		return ""
	}
	pt := types.NewPointer(s.b.nodePkg.Scope().Lookup("Node").Type())
	cont := s.st.Resolve(s.st.Load(Addr{Base: a.Base, Path: a.Path + ".Content"}, types.NewSlice(pt)))
	els, known := elems(s.st, cont, pt)
	if !known {
		return "?"
	}
	if len(els) != len(w.kids) {
		return fmt.Sprintf("a collection of %d nodes where %s was inserted", len(els), w)
	}
	for i, e := range els {
		if why := s.match(e, w.kids[i]); why != "" {
			return why
		}
	}
	return ""
}

// plain: 1 the scalar is unquoted, 0 it is quoted, -1 unknown.
func (s *bstate) plain(v Val) int {
	v = s.st.Resolve(v)
	if s.b.isAST {
		q, ok := s.method(v, "QuotingType").(Const)
		if !ok {
			return -1
		}
		sc := s.b.c.Pkgs[astPkg].Types.Scope()
		for _, n := range []string{"SingleQuotingType", "DoubleQuotingType"} {
			if o, ok := sc.Lookup(n).(*types.Const); ok && o.Val().ExactString() == q.V.ExactString() {
				return 0
			}
		}
		return 1
	}
	a, ok := v.(Addr)
	if !ok {
		return -1
	}
	st, ok := s.st.Load(Addr{Base: a.Base, Path: a.Path + ".Style"}, types.Typ[types.Uint32]).(Const)
	if !ok {
		return -1
	}
	for _, n := range []string{"DoubleQuotedStyle", "SingleQuotedStyle"} {
		if s.b.e.constOf(n).Key() == st.Key() {
			return 0
		}
	}
	return 1
}

func (b *builder) bad(rule, m string, s *bstate, format string, args ...any) {
	where := ""
	if f := b.c.Method(b.named, m); f != nil {
		where = b.c.Pos(f.Pos())
	}
	b.c.Rep.Violate(rule, shortType(b.named)+"."+m, where, "after %s: %s", strings.Join(s.log, ", "), fmt.Sprintf(format, args...))
}

// check calls Result on a copy and compares. Returns the errors seen.
func (b *builder) check(s *bstate, m *wmodel) (errs []Val) {
	rep := b.c.Rep
	rs := s.call("Result")
	last := "Result"
	if len(s.log) > 0 {
		last = strings.SplitN(s.log[len(s.log)-1], "(", 2)[0]
	}
	for _, r := range rs {
		rep.Ob("result")
		if r.panic != "" {
			b.bad("result", "Result", s, "Result panics: %s", r.panic)
			continue
		}
		err := r.rets[1]
		isNil := r.s.st.Nilness(err) == 1
		errs = append(errs, err)
		if m.failed || len(m.stack) > 0 {
			if isNil {
				why := "these operations describe no tree"
				if !m.failed {
					why = "a collection is not finished"
				}
				b.bad("result", last, s, "%s, but Result reports no error", why)
			}
			continue
		}
		if m.root == nil {
			continue
		}
		if !isNil {
			b.bad("result", last, s, "Result reports %s although the operations describe the tree %s", err.Key(), m.root)
			continue
		}
		if why := r.s.match(r.rets[0], m.root); why == "?" {
			rep.Undecide("%s: the result of %s has unknown parts", shortType(b.named), strings.Join(s.log, ", "))
		} else if why != "" {
			b.bad("result", last, s, "Result holds %s (the operations describe %s)", why, m.root)
		}
	}
	return errs
}

var builderOps = []string{"S", "N", "[", "]", "{", "}", "I"}

func runC05(c *core.Ctx) {
	depth, extra := 6, 2
	if c.Tier == "thorough" {
		depth, extra = 7, 3
	}
	var jobs []func(*core.Ctx)
	for _, b := range builders(c) {
		b := b
		for _, o1 := range builderOps {
			for _, o2 := range builderOps {
				o1, o2 := o1, o2
				jobs = append(jobs, func(c *core.Ctx) {
					b := b.copy(c)
					var rec func(s *bstate, m *wmodel, pre []string, d, left int)
					rec = func(s *bstate, m *wmodel, pre []string, d, left int) {
						b.check(s, m)
						ops := builderOps
						switch {
						case m.failed:
							// the error must survive whatever would finish the open collections
							if left == 0 || len(pre) > 0 && pre[0] != builderOps[0] {
								return
							}
							ops, pre = []string{"}", "]", "S"}, nil
							left--
						case d == 0:
							return
						case len(pre) > 0:
							ops, pre = pre[:1], pre[1:]
						}
						for _, op := range ops {
							if op == "I" && len(s.log) > 2 {
								continue
							}
							nm := m.clone()
							meth, as := nm.apply(op, len(s.log))
							for _, r := range s.call(meth, as...) {
								if r.panic != "" {
									b.bad("result", meth, r.s, "panics: %s", r.panic)
									continue
								}
								rec(r.s, nm, pre, d-1, left)
							}
						}
					}
					for _, s := range b.open() {
						rec(s, &wmodel{}, []string{o1, o2}, depth, extra)
					}
					if b.capped != "" {
						c.Rep.Undecide("%s: %s", shortType(b.named), b.capped)
					}
				})
			}
		}
		jobs = append(jobs, func(c *core.Ctx) {
			b := b.copy(c)
			b.scalars()
			b.raws()
		})
	}
	c.Parallel(jobs)
	c.Rep.Floor("result", 2000)
	c.Rep.Floor("scalar", 40)
}

// scalars: every Insert method puts its value, encoded by the matching schema function, where the next node belongs.
func (b *builder) scalars() {
	rep := b.c.Rep
	var timeT types.Type
	if f := b.c.Method(b.named, "InsertTimestamp"); f != nil {
		timeT = f.Signature.Params().At(0).Type()
	}
	cases := []struct {
		m, conv string
		t       types.Type
	}{
		{"InsertInteger", "FromInteger", types.Typ[types.Int64]},
		{"InsertUnsigned", "FromUnsignedInteger", types.Typ[types.Uint64]},
		{"InsertBoolean", "FromBoolean", types.Typ[types.Bool]},
		{"InsertFloat", "FromFloat", types.Typ[types.Float64]},
		{"InsertTimestamp", "FromTimestamp", timeT},
		{"InsertString", "", types.Typ[types.String]},
	}
	ctxs := [][]string{{}, {"["}, {"[", "S"}, {"{"}, {"{", "S"}, {"{", "S", "S"}}
	closers := []string{"", "]", "]", "S}", "}", "S}"}
	optSets := [][]*ssa.Function{nil}
	for _, o := range b.opts {
		optSets = append(optSets, []*ssa.Function{o})
	}
	for _, os := range optSets {
		for _, cs := range cases {
			for ci, ctx := range ctxs {
				states := b.open(os...)
				m := &wmodel{}
				for i, op := range ctx {
					meth, as := m.apply(op, i)
					var next []*bstate
					for _, s := range states {
						for _, r := range s.call(meth, as...) {
							if r.panic == "" {
								next = append(next, r.s)
							}
						}
					}
					states = next
				}
				v := Sym{ID: "v", T: cs.t}
				txt := v.Key()
				if cs.conv != "" {
					txt = "$from<" + cs.conv + "(" + v.Key() + ")>"
				}
				m.insert(&want{kind: "text", text: txt})
				var next []*bstate
				for _, s := range states {
					for _, r := range s.call(cs.m, v) {
						if r.panic != "" {
							b.bad("scalar", cs.m, r.s, "panics: %s", r.panic)
							continue
						}
						next = append(next, r.s)
					}
				}
				states = next
				for i, ch := range closers[ci] {
					meth, as := m.apply(string(ch), 50+i)
					var next []*bstate
					for _, s := range states {
						for _, r := range s.call(meth, as...) {
							if r.panic == "" {
								next = append(next, r.s)
							}
						}
					}
					states = next
				}
				for _, s := range states {
					rep.Ob("scalar")
					for _, r := range s.call("Result") {
						if r.panic != "" || r.s.st.Nilness(r.rets[1]) != 1 {
							b.bad("scalar", cs.m, s, "Result reports an error")
							continue
						}
						if why := r.s.match(r.rets[0], m.root); why != "" && why != "?" {
							b.bad("scalar", cs.m, s, "Result holds %s", why)
						}
						if len(ctx) == 0 && len(os) == 0 {
							q := r.s.plain(r.rets[0])
							if cs.m == "InsertString" && q == 1 {
								b.bad("scalar", cs.m, s, "the string is inserted as a plain scalar, which may read back as another type")
							}
							if q == 0 && cs.m != "InsertString" && cs.m != "InsertTimestamp" {
								b.bad("scalar", cs.m, s, "the value is inserted as a quoted scalar, which reads back as a string")
							}
						}
					}
				}
			}
		}
	}
}

// raws: InsertRaw inserts the parsed node, and a parse failure, a stream of several documents or an
// error argument is an error; InsertRawText inserts the text.
func (b *builder) raws() {
	rep := b.c.Rep
	data := Sym{ID: "data", T: types.NewSlice(types.Typ[types.Byte])}
	for _, m := range []string{"InsertRaw", "InsertRawText"} {
		for _, s := range b.open() {
			for _, r := range s.call(m, data, Nil{}) {
				rep.Ob("raw")
				if r.panic != "" {
					b.bad("raw", m, r.s, "panics: %s", r.panic)
					continue
				}
				conv := r.s.st.TS["conv"]
				for _, rr := range r.s.call("Result") {
					if rr.panic != "" {
						continue
					}
					isNil := rr.s.st.Nilness(rr.rets[1]) == 1
					switch {
					case conv == "err" && isNil:
						b.bad("raw", m, r.s, "the data does not parse, but Result reports no error")
					case conv == "stream" && isNil:
						b.bad("raw", m, r.s, "the data is a stream of documents, but Result reports no error")
					case conv == "" && !isNil:
						b.bad("raw", m, r.s, "Result reports %s although the data parses", rr.rets[1].Key())
					case conv == "" && m == "InsertRaw":
						if why := rr.s.match(rr.rets[0], &want{kind: "text", text: "$rawtext"}); why != "" && why != "?" {
							b.bad("raw", m, r.s, "Result holds %s", why)
						}
					}
				}
			}
		}
	}
}

func runC04(c *core.Ctx) {
	var jobs []func(*core.Ctx)
	for _, b := range builders(c) {
		b := b
		// shortest failing sequences
		fails := [][]string{{"]"}, {"}"}, {"[", "}"}, {"{", "]"}, {"{", "S", "}"}, {"S", "S"}, {"[", "]", "S"}, {"{", "S", "[", "}"}, {"[", "{", "]"}, {"N", "["},
			{"E"}, {"[", "E"}, {"{", "S", "E"}, {"T"}, {"[", "T"}, {"{", "S", "T"}}
		for _, f := range fails {
			f := f
			jobs = append(jobs, func(c *core.Ctx) {
				b := b.copy(c)
				b.sticky(f)
			})
		}
		jobs = append(jobs, func(c *core.Ctx) { b.copy(c).reset() })
	}
	c.Parallel(jobs)
	c.Rep.Floor("sticky", 100)
	c.Rep.Floor("reset", 4)
}

var allInserts = []string{"InsertInteger", "InsertUnsigned", "InsertBoolean", "InsertFloat", "InsertString", "InsertTimestamp", "InsertNull", "StartSequence", "EndSequence", "StartMapping", "EndMapping", "InsertRaw", "InsertRawText"}

func (b *builder) run(ops []string) []*bstate {
	states := b.open()
	m := &wmodel{}
	for i, op := range ops {
		var meth string
		var as []Val
		switch op {
		case "E", "T":
			meth = map[string]string{"E": "InsertRaw", "T": "InsertRawText"}[op]
		default:
			meth, as = m.apply(op, i)
		}
		var next []*bstate
		for _, s := range states {
			if op == "E" || op == "T" {
				st := s.st.Clone()
				ev := errSym(st, "ARG")
				s = &bstate{b: b, st: st, recv: s.recv, log: s.log}
				as = []Val{Sym{ID: "data", T: types.NewSlice(types.Typ[types.Byte])}, ev}
			}
			for _, r := range s.call(meth, as...) {
				if r.panic != "" {
					b.bad("sticky", meth, r.s, "panics: %s", r.panic)
					continue
				}
				next = append(next, r.s)
			}
		}
		states = next
	}
	return states
}

func (b *builder) resultErr(s *bstate) (Val, bool) {
	rs := s.call("Result")
	if len(rs) != 1 || rs[0].panic != "" {
		return nil, false
	}
	return rs[0].s.st.Resolve(rs[0].rets[1]), true
}

// sticky: whatever follows a failing sequence, Result keeps reporting that first error.
func (b *builder) sticky(ops []string) {
	rep := b.c.Rep
	for _, s := range b.run(ops) {
		first, ok := b.resultErr(s)
		if !ok {
			rep.Undecide("%s: Result has no single outcome after %v", shortType(b.named), ops)
			continue
		}
		if s.st.Nilness(first) == 1 {
			if last := ops[len(ops)-1]; last == "E" || last == "T" {
				b.bad("sticky", "InsertRaw", s, "the error given to it is lost")
			}
			continue // no error where one is due: decided under C05
		}
		if last := ops[len(ops)-1]; (last == "E" || last == "T") && !strings.Contains(first.Key(), "$ARG") {
			b.bad("sticky", map[string]string{"E": "InsertRaw", "T": "InsertRawText"}[last], s, "Result reports %s instead of the given error", first.Key())
		}
		for _, m := range allInserts {
			fn := b.c.Method(b.named, m)
			if fn == nil {
				continue
			}
			variants := [][]Val{nil}
			sig := fn.Signature
			if sig.Params().Len() > 0 {
				var as []Val
				for i := 0; i < sig.Params().Len(); i++ {
					p := sig.Params().At(i)
					if isErr(p.Type()) {
						as = append(as, Nil{})
					} else {
						as = append(as, Sym{ID: fmt.Sprintf("late%d", i), T: p.Type()})
					}
				}
				variants = [][]Val{as}
				if isErr(sig.Params().At(sig.Params().Len() - 1).Type()) {
					bs := append([]Val(nil), as...)
					bs[len(bs)-1] = Sym{ID: "LATE", T: errType}
					variants = append(variants, bs)
				}
			}
			for _, as := range variants {
				s2 := &bstate{b: b, st: s.st.Clone(), recv: s.recv, log: s.log}
				s2.st.SetNil(Sym{ID: "LATE"}, 2)
				for _, r := range s2.call(m, as...) {
					rep.Ob("sticky")
					if r.panic != "" {
						b.bad("sticky", m, r.s, "panics in a failed builder: %s", r.panic)
						continue
					}
					now, ok := b.resultErr(r.s)
					if ok && now.Key() != first.Key() {
						b.bad("sticky", m, r.s, "Result reports %s instead of the first error %s", now.Key(), first.Key())
					}
				}
			}
		}
	}
}

// reset: after Result (successful or not) the builder builds the next tree like a new one.
func (b *builder) reset() {
	rep := b.c.Rep
	for _, pre := range [][]string{{}, {"S"}, {"[", "S", "]"}, {"{", "S", "S", "}"}, {"["}, {"{", "S"}, {"]"}, {"E"}, {"[", "E"}, {"S", "S"}} {
		for _, s := range b.run(pre) {
			for _, r := range s.call("Result") {
				if r.panic != "" {
					continue
				}
				for _, next := range [][]string{{"S"}, {"[", "S", "]"}, {"{", "S", "N", "}"}, {"]"}, {"["}} {
					rep.Ob("reset")
					states := []*bstate{r.s}
					m := &wmodel{}
					for i, op := range next {
						meth, as := m.apply(op, 20+i)
						var nx []*bstate
						for _, s := range states {
							for _, rr := range s.call(meth, as...) {
								if rr.panic != "" {
									b.bad("reset", meth, rr.s, "panics: %s", rr.panic)
									continue
								}
								nx = append(nx, rr.s)
							}
						}
						states = nx
					}
					for _, s := range states {
						for _, rr := range s.call("Result") {
							if rr.panic != "" {
								b.bad("reset", "Result", s, "panics: %s", rr.panic)
								continue
							}
							isNil := rr.s.st.Nilness(rr.rets[1]) == 1
							wantErr := m.failed || len(m.stack) > 0
							switch {
							case wantErr && isNil:
								b.bad("reset", "Result", s, "no error is reported for the second tree")
							case !wantErr && !isNil:
								b.bad("reset", "Result", s, "the second tree gets the error %s", rr.rets[1].Key())
							case !wantErr:
								if why := rr.s.match(rr.rets[0], m.root); why != "" && why != "?" {
									b.bad("reset", "Result", s, "the second tree holds %s", why)
								}
							}
						}
					}
				}
			}
		}
	}
}
