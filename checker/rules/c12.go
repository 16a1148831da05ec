package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"maps"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

const (
	cmpPkg   = astPkg + "/astcmp"
	printPkg = astPkg + "/astprint"
)

func init() {
	register("C12", &Rule{
		Run:     runC12,
		Explain: "Abstract interpretation of Comparator.Equal for every pair of a family of abstract trees (every node kind, missing parts, every way of nesting the same leaves), channels being queues and each goroutine run where it is started (sound for goroutines that only send): every path must answer true for two builds of one tree and false for different trees, and leave no goroutine blocked on a channel; abstract interpretation of Printer.Print over the same trees, with the destination symbolic: the text left at the destination must have one line for each node, in document order, with its depth, edge, kind and text, also when the printer is used again.",
		Assume:  []string{"trees are made of the kinds the Visitor interface knows", "the quoting style of a text is not part of the comparison"},
	})
}

// ctree is a tree of the ast package; a nil child is a missing part.
type ctree struct {
	kind string
	text string
	kids []*ctree
}

func ct(kind, text string, kids ...*ctree) *ctree { return &ctree{kind, text, kids} }

func (t *ctree) String() string {
	if t == nil {
		return "-"
	}
	s := t.kind
	if t.text != "" || t.leaf() && t.kind != "null" {
		s += fmt.Sprintf("%q", t.text)
	}
	if !t.leaf() {
		var ks []string
		for _, k := range t.kids {
			ks = append(ks, k.String())
		}
		s += "(" + strings.Join(ks, ",") + ")"
	}
	return s
}

func (t *ctree) leaf() bool {
	switch t.kind {
	case "text", "null", "tag", "anchor", "alias":
		return true
	}
	return false
}

var ctors = map[string]string{"stream": "NewStreamNode", "seq": "NewSequenceNode", "map": "NewMappingNode", "entry": "NewMappingEntryNode",
	"content": "NewContentNode", "props": "NewPropertiesNode", "tag": "NewTagNode", "anchor": "NewAnchorNode", "alias": "NewAliasNode", "text": "NewTextNode", "null": "NewNullNode"}

func (e *engine) buildCT(t *ctree, st *State) Val {
	if t == nil {
		return Nil{}
	}
	var ks []Val
	for _, k := range t.kids {
		ks = append(ks, e.buildCT(k, st))
	}
	switch t.kind {
	case "stream", "seq", "map":
		e.n++
		return e.ctor(st, ctors[t.kind], sliceVal(st, fmt.Sprintf("kids%d", e.n), ks))
	case "null":
		return e.ctor(st, ctors[t.kind])
	case "text":
		return e.ctor(st, ctors[t.kind], Str(t.text), Nil{})
	case "tag", "anchor", "alias":
		return e.ctor(st, ctors[t.kind], Str(t.text))
	}
	return e.ctor(st, ctors[t.kind], ks...)
}

// ctrees is the family of trees.
func ctrees(thorough bool) []*ctree {
	a, b, n := ct("text", "a"), ct("text", "b"), ct("null", "")
	var out []*ctree
	for _, k := range []string{"text", "tag", "anchor", "alias"} {
		for _, s := range []string{"a", "b", "A", "a ", "ab", ""} {
			if k == "text" || s == "a" || s == "b" {
				out = append(out, ct(k, s))
			}
		}
	}
	out = append(out, ct("text", "x\ny"), n)
	seq := func(k ...*ctree) *ctree { return ct("seq", "", k...) }
	ent := func(k, v *ctree) *ctree { return ct("entry", "", k, v) }
	tag, anc := ct("tag", "a"), ct("anchor", "a")
	for _, k := range []string{"stream", "seq"} {
		for _, kids := range [][]*ctree{{}, {a}, {b}, {n}, {a, b}, {b, a}, {a, a}, {a, b, a}, {a, b, b}, {seq()}, {seq(), seq()}, {seq(seq())}, {seq(a), b}, {seq(a, b)}, {seq(seq(a), b)}, {a, seq(b)}, {a, seq(), b}, {seq(a, seq()), b}, {a, b, seq()}, {seq(a)}, {seq(b)}, {a, seq(seq(b))}} {
			out = append(out, ct(k, "", kids...))
		}
	}
	props := []*ctree{nil, ct("props", "", tag, nil), ct("props", "", nil, anc), ct("props", "", tag, anc), ct("props", "", ct("tag", "b"), anc), ct("props", "", tag, ct("anchor", "b")), ct("props", "", nil, nil)}
	out = append(out, props[1:]...)
	for _, p := range props {
		for _, c := range []*ctree{nil, a, b, n, seq(a), ct("alias", "a")} {
			if p == nil && c != nil && c != a && !thorough {
				continue
			}
			out = append(out, ct("content", "", p, c))
		}
	}
	vals := []*ctree{nil, a, b, n, seq(a), seq(a, b), ct("content", "", props[3], a), ct("map", "", ent(a, b))}
	var ents []*ctree
	for i, k := range vals {
		for j, v := range vals {
			if thorough || i < 4 && j < 5 || i == j {
				ents = append(ents, ent(k, v))
			}
		}
	}
	out = append(out, ents...)
	out = append(out, ct("map", ""))
	for _, es := range [][]*ctree{{ent(a, b)}, {ent(b, a)}, {ent(a, n)}, {ent(n, a)}, {ent(a, nil)}, {ent(nil, a)}, {ent(a, b), ent(a, b)}, {ent(a, a), ent(b, b)}, {ent(a, b), ent(b, a)}, {ent(b, a), ent(a, b)},
		{ent(a, ct("map", "", ent(b, a))), ent(a, b)}, {ent(a, ct("map", "", ent(b, a), ent(a, b)))}, {ent(a, seq(a)), ent(b, n)}, {ent(a, seq(a, b))}, {ent(a, seq(seq(a), b)), ent(b, a)}} {
		out = append(out, ct("map", "", es...))
	}
	out = append(out, seq(ct("map", "", ent(a, b)), a), seq(ct("map", "", ent(a, b), ent(b, a)), seq(a, seq(b), a), n),
		ct("stream", "", ct("map", "", ent(a, seq(a, b)), ent(ct("content", "", props[3], b), ct("map", "", ent(a, n)))), n, seq(seq(seq(a)), b)))
	return out
}

func runC12(c *core.Ctx) {
	rep := c.Rep
	cn, pn := c.Named(cmpPkg, "Comparator"), c.Named(printPkg, "Printer")
	if cn == nil || pn == nil || c.Func(cmpPkg, "NewComparator") == nil || c.Func(printPkg, "NewPrinter") == nil {
		rep.Violate("anchor", "astcmp.Comparator/astprint.Printer", "", "the comparator or the printer is gone")
		return
	}
	eq, pr := c.Method(cn, "Equal"), c.Method(pn, "Print")
	if eq == nil || pr == nil || eq.Signature.Params().Len() != 2 || pr.Signature.Params().Len() != 2 {
		rep.Undecide("Comparator.Equal or Printer.Print has no body of the known form")
		return
	}
	globals := ConstGlobals(c.Prog, c.Funcs)
	trees := ctrees(c.Tier == "thorough")
	rep.Count("functions", len(c.FuncsOf(astPkg))+len(c.FuncsOf(cmpPkg))+len(c.FuncsOf(printPkg)))
	rep.Count("trees", len(trees))
	compareAll(c, globals, eq, trees)
	printAll(c, globals, pr, trees)
}

func (a *writerAn) start12(c *core.Ctx, pkg, ctor string, st *State) (Val, bool) {
	outs := a.interp().Run(c.Func(pkg, ctor), nil, st)
	if len(outs) != 1 || outs[0].Panic {
		return nil, false
	}
	*st = *outs[0].St
	return outs[0].Rets[0], true
}

func compareAll(c *core.Ctx, globals func(*ssa.Global) (Val, bool), eq *ssa.Function, trees []*ctree) {
	rep := c.Rep
	where := c.Pos(eq.Pos())
	bad := map[string]bool{}
	und := 0
	pair := func(x, y *ctree) {
		same := x.String() == y.String()
		a := &writerAn{c: c, globals: globals}
		a.fresh()
		a.l.wide = true
		st := newWState()
		cmp, ok := a.start12(c, cmpPkg, "NewComparator", st)
		if !ok {
			rep.Undecide("NewComparator has no single abstract result")
			return
		}
		xv := a.e.buildCT(x, st)
		yv := a.e.buildCT(y, st)
		in := a.interp()
		in.Chans = true
		outs := in.Run(eq, []Val{cmp, xv, yv}, st)
		rep.Ob("equal")
		if in.Capped || a.unk != "" || len(outs) == 0 {
			if und < 3 {
				rep.Undecide("Equal(%s, %s): %s %s", x, y, in.CapWhy, a.unk)
			}
			und++
			return
		}
		if len(outs) > 1 {
			for _, o := range outs[1:] {
				if o.Panic || outs[0].Panic || o.St.Resolve(o.Rets[0]).Key() != outs[0].St.Resolve(outs[0].Rets[0]).Key() {
					rep.Undecide("Equal(%s, %s) has no single abstract result", x, y)
					return
				}
			}
		}
		for _, o := range outs {
			if o.Panic {
				if !bad["panic"] {
					bad["panic"] = true
					rep.Violate("equal", "Comparator.Equal", where, "may panic comparing %s with %s: %s", x, y, o.Note)
				}
				continue
			}
			k, known := o.St.Known(o.Rets[0])
			if !known {
				rep.Undecide("Equal(%s, %s) has no known answer", x, y)
				continue
			}
			if got := constant.BoolVal(k.V); got != same && !bad[fmt.Sprint(got)] {
				bad[fmt.Sprint(got)] = true
				rep.Violate("equal", "Comparator.Equal", where, "says %v for %s and %s", got, x, y)
			}
			for k, v := range o.St.Heap {
				if s, ok := v.(Struct); ok && strings.HasPrefix(k, "!chan:") && !bad["blocked"] {
					rep.Ob("blocked")
					if len(s.Fields) > o.St.ChanCap(strings.TrimPrefix(k, "!chan:")) {
						bad["blocked"] = true
						rep.Violate("blocked", "Comparator.Equal", where, "returns from comparing %s with %s while a goroutine still has %d nodes to send", x, y, len(s.Fields))
					}
				}
			}
		}
	}
	for i, x := range trees {
		pair(x, x)
		pair(nil, x)
		pair(x, nil)
		for j, y := range trees {
			if i != j && und < 20 {
				pair(x, y)
			}
		}
	}
	pair(nil, nil)
}

// listing says what printing t must write.
func (t *ctree) listing(name func(kind string) string) string {
	var sb strings.Builder
	line := func(t *ctree, root bool) {
		sb.WriteString("[" + name(t.kind) + "] ")
		if t.leaf() && t.kind != "null" {
			if root {
				sb.WriteString(t.text)
			} else {
				sb.WriteString(strings.ReplaceAll(t.text, "\n", `\n`))
			}
		}
		sb.WriteString("\n")
	}
	var rec func(t *ctree, prefix string)
	rec = func(t *ctree, prefix string) {
		var kids []*ctree
		for _, k := range t.kids {
			if k != nil {
				kids = append(kids, k)
			}
		}
		for i, k := range kids {
			edge, next := "├──", "│   "
			if i == len(kids)-1 {
				edge, next = "└──", "    "
			}
			sb.WriteString(prefix + edge + " ")
			line(k, false)
			rec(k, prefix+next)
		}
	}
	line(t, true)
	rec(t, "")
	return sb.String()
}

func printAll(c *core.Ctx, globals func(*ssa.Global) (Val, bool), pr *ssa.Function, trees []*ctree) {
	rep := c.Rep
	where := c.Pos(pr.Pos())
	mk := func() *writerAn {
		a := &writerAn{c: c, globals: globals}
		a.fresh()
		a.l.wide = true
		a.stringer = func(st *State, i Iface) (string, bool, bool) {
			n, ok := i.T.(*types.Named)
			if !ok {
				return "", false, false
			}
			f := c.Method(n, "String")
			if f == nil {
				return "", false, false
			}
			outs := a.interp().Run(f, []Val{i.V}, st.Clone())
			if len(outs) != 1 || outs[0].Panic {
				return "", true, false
			}
			s, ok := a.l.enc(outs[0].St, outs[0].Rets[0])
			return s, true, ok
		}
		return a
	}
	// the names of the kinds, as the ast package gives them
	names := map[string]string{}
	for kind := range ctors {
		a := mk()
		st := newWState()
		t := ct(kind, "")
		switch kind {
		case "entry", "content", "props":
			t.kids = []*ctree{nil, nil}
		}
		v, ok := a.e.buildCT(t, st).(Iface)
		if !ok {
			rep.Undecide("no node of kind %s", kind)
			return
		}
		nt, _ := v.T.(*types.Pointer)
		var f *ssa.Function
		if nt != nil {
			f = c.Method(nt.Elem(), "Type")
		}
		if f == nil {
			rep.Undecide("no kind of node %s", kind)
			return
		}
		outs := a.interp().Run(f, []Val{v.V}, st)
		if len(outs) != 1 || outs[0].Panic {
			rep.Undecide("no kind of node %s", kind)
			return
		}
		s, _, ok := a.stringer(outs[0].St, Iface{T: f.Signature.Results().At(0).Type(), V: outs[0].Rets[0]})
		if !ok {
			rep.Undecide("no name of kind %s", kind)
			return
		}
		names[kind] = s
	}
	rep.Ob("kinds")
	seen := map[string]string{}
	if nt := c.Named(astPkg, "NodeType"); nt != nil {
		if s, is, ok := mk().stringer(newWState(), Iface{T: nt, V: Int(100)}); is && ok {
			seen[s] = "of no kind"
		}
	}
	seen[""] = "without a name"
	for _, kind := range slices.Sorted(maps.Keys(names)) {
		s := names[kind]
		if o, dup := seen[s]; dup {
			rep.Violate("kinds", "ast.NodeType.String", "", "nodes %s and %s have one name, %q", o, kind, s)
		}
		seen[s] = kind
	}
	bad := map[string]bool{}
	for i, t := range trees {
		a := mk()
		st := newWState()
		p, ok := a.start12(c, printPkg, "NewPrinter", st)
		if !ok {
			rep.Undecide("NewPrinter has no single abstract result")
			return
		}
		dst := Sym{ID: "dst", T: pr.Params[2].Type()}
		st.SetNil(dst, 2)
		for _, u := range []*ctree{t, trees[(i+7)%len(trees)], {kind: "seq", kids: []*ctree{t, {kind: "seq", kids: []*ctree{{kind: "seq", kids: []*ctree{ct("text", "a"), ct("null", "")}}, ct("alias", "a")}}}}} {
			v := a.e.buildCT(u, st)
			delete(st.TS, "dst")
			in := a.interp()
			outs := in.Run(pr, []Val{p, v, dst}, st)
			rep.Ob("listing")
			if in.Capped || a.unk != "" || len(outs) != 1 {
				rep.Undecide("Print(%s): %s %s (%d results)", u, in.CapWhy, a.unk, len(outs))
				break
			}
			o := outs[0]
			if o.Panic {
				if !bad["panic"] {
					rep.Violate("listing", "Printer.Print", where, "may panic printing %s: %s", u, o.Note)
				}
				bad["panic"] = true
				break
			}
			var got strings.Builder
			known := true
			for _, b := range []byte(o.St.TS["dst"]) {
				k, ok := a.l.decByte(b).(Const)
				if !ok {
					known = false
					break
				}
				r, _ := constant.Int64Val(k.V)
				got.WriteRune(rune(r))
			}
			if !known {
				rep.Undecide("Print(%s): the text is not known", u)
				break
			}
			if want := u.listing(func(k string) string { return names[k] }); got.String() != want && !bad["text"] {
				bad["text"] = true
				rep.Violate("listing", "Printer.Print", where, "prints %s as %q instead of %q", u, got.String(), want)
			}
			if o.St.Nilness(o.Rets[0]) != 1 && !bad["err"] {
				bad["err"] = true
				if o.St.Nilness(o.Rets[0]) == 2 {
					rep.Violate("listing", "Printer.Print", where, "fails to print %s", u)
				}
			}
			st = o.St
		}
	}
	// nothing to print or nowhere to print to is an error
	for _, cs := range []struct {
		what string
		n, w bool
	}{{"a nil node", false, true}, {"to a nil destination", true, false}} {
		a := mk()
		st := newWState()
		p, ok := a.start12(c, printPkg, "NewPrinter", st)
		if !ok {
			return
		}
		var n, w Val = Nil{}, Nil{}
		if cs.n {
			n = a.e.buildCT(ct("text", "a"), st)
		}
		if cs.w {
			d := Sym{ID: "dst", T: pr.Params[2].Type()}
			st.SetNil(d, 2)
			w = d
		}
		rep.Ob("refuses")
		for _, o := range a.interp().Run(pr, []Val{p, n, w}, st) {
			if o.Panic || o.St.Nilness(o.Rets[0]) == 1 {
				rep.Violate("refuses", "Printer.Print", where, "printing %s gives no error", cs.what)
			}
		}
	}
}
