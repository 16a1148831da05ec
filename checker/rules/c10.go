package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

func init() {
	register("C10", &Rule{
		Run:     runC10,
		Explain: "Abstract interpretation of the parser's driver and of every exported entry point: a nil error is returned only where no error is recorded and the current token is the end-of-input token; every recorded error reaches the caller; the tree is the one the grammar's start function delivered; the text handed to the lexer is the caller's; the stream is omitted only when it has one document. Plus a must-analysis of the stores to the error list: parsing only appends to it.",
		Assume:  []string{"errors.Join returns nil exactly for a list without errors"},
	})
}

func isNodeErr(sig *types.Signature, node *types.Interface) bool {
	r := sig.Results()
	return r.Len() == 2 && isNodeIface(r.At(0).Type(), node) && types.Identical(r.At(1).Type(), errType)
}

func runC10(c *core.Ctx) {
	rep := c.Rep
	a := newParserAn(c)
	if a == nil {
		rep.Undecide("the parser's types are not found")
		return
	}
	eof := constOf(c, yayaml+"/token", "EOFType")
	if eof == nil {
		rep.Undecide("no EOFType")
		return
	}
	var drivers, entries []*ssa.Function
	for _, fn := range c.Funcs {
		if core.FuncPkg(fn) == nil || core.FuncPkg(fn).Path() != parserPkg || len(fn.Blocks) == 0 || fn.Synthetic != "" || fn.Parent() != nil || !isNodeErr(fn.Signature, a.node) {
			continue
		}
		switch {
		case hasRecvParam(fn, a.named):
			drivers = append(drivers, fn)
		case token.IsExported(fn.Name()) && fn.Signature.Recv() == nil:
			entries = append(entries, fn)
		}
	}
	isDriver := map[*ssa.Function]bool{}
	for _, d := range drivers {
		isDriver[d] = true
	}
	if len(drivers) == 0 || len(entries) == 0 {
		rep.Undecide("no parse driver or no entry points found")
		return
	}
	join := func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
		if cl.Name() != "errors.Join" {
			return nil, false
		}
		n := st.Len(cl.Args[0])
		var outs []Outcome
		if z := st.Clone(); z.Assume(Cmp{Op: "==", X: Int(0), Y: n}, true) {
			outs = append(outs, Outcome{St: z, Rets: []Val{Nil{}}})
		}
		if z := st.Clone(); z.Assume(Cmp{Op: "<=", X: Int(1), Y: n}, true) {
			v := Sym{ID: "joined<" + cl.Args[0].Key() + ">", T: errType}
			z.SetNil(v, 2)
			outs = append(outs, Outcome{St: z, Rets: []Val{v}})
		}
		return outs, true
	}
	_, tokCell := a.steering(map[string]*ssa.Function{})
	for _, d := range drivers {
		in := New(c.Prog, Hooks{})
		nth := 0
		in.Hooks.Inline = func(f *ssa.Function) bool { return len(f.Blocks) > 0 }
		in.Hooks.Call = func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
			if o, ok := join(in, cl, st); ok {
				return o, true
			}
			if cl.Fn != nil && a.isParse[cl.Fn] {
				nth++
				st.Havoc("*P", "parse:"+cl.Site)
				v := Sym{ID: "tree:" + cl.Site, T: cl.Fn.Signature.Results().At(0).Type()}
				st.SetNil(v, 2)
				st.TS["tree"] += v.Key() + ";"
				return []Outcome{{St: st, Rets: []Val{v}}}, true
			}
			if k := accessorOp(cl.Common); k != "" {
				if k == "Rollback" || k == "Next" {
					return []Outcome{{St: st, Rets: []Val{Sym{ID: st.FreshID("tok:" + cl.Site), T: a.tokType}}}}, true
				}
				return []Outcome{{St: st}}, true
			}
			return stdModel(in, cl, st)
		}
		args := []Val{}
		for _, p := range d.Params {
			if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), a.named) {
				args = append(args, Addr{Base: "*P"})
			} else {
				args = append(args, Sym{ID: "P:" + p.Name(), T: p.Type()})
			}
		}
		outs := in.Run(d, args, NewState())
		if in.Capped {
			rep.Undecide("%s: %s", fnName(d), in.CapWhy)
			continue
		}
		for _, o := range outs {
			if o.Panic {
				continue // a nil parser or token source
			}
			rep.Ob("driver")
			where := c.Pos(o.Pos)
			if where == "" {
				where = c.Pos(d.Pos())
			}
			lo, hi, ok := o.St.Interval(a.errsLen(in, o.St))
			switch o.St.Nilness(o.Rets[1]) {
			case 1:
				if !ok || hi != 0 {
					rep.Violate("driver", fnName(d), where, "can return a nil error although errors are recorded")
				}
				tt := o.St.Load(Addr{Base: "*P", Path: strings.TrimPrefix(tokCell, "*P") + ".Type"}, tokenTypeOf(a.tokType))
				if o.St.Truth(Cmp{Op: "==", X: tt, Y: eof}) != 1 {
					rep.Violate("driver", fnName(d), where, "can return a nil error although the current token is not the end of the input")
				}
			case 2:
			default:
				rep.Undecide("%s: the returned error is neither known nil nor known non-nil", fnName(d))
			}
			_ = lo
			trees := strings.Split(strings.TrimSuffix(o.St.TS["tree"], ";"), ";")
			if len(trees) != 1 || trees[0] == "" || (o.St.Nilness(o.Rets[1]) != 2 && o.Rets[0].Key() != trees[0]) {
				rep.Violate("driver", fnName(d), where, "does not return the tree of exactly one run of the grammar")
			}
		}
	}
	for _, e := range entries {
		in := New(c.Prog, Hooks{})
		in.LoopBound = 3 // the options: none, one or two of them
		in.Hooks.Inline = func(f *ssa.Function) bool { return len(f.Blocks) > 0 && c.InRepo(f) }
		var nodeT types.Type = e.Signature.Results().At(0).Type()
		srcs := map[string]string{} // what reached a lexer -> where
		in.Hooks.Call = func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
			if cl.Fn != nil && isDriver[cl.Fn] {
				st.TS["parsed"] += "1"
				t := Sym{ID: "tree", T: nodeT}
				er := Sym{ID: "parse-error", T: errType}
				z := st.Clone()
				z.SetNil(er, 2)
				st.SetNil(t, 2)
				return []Outcome{{St: st, Rets: []Val{t, Nil{}}}, {St: z, Rets: []Val{Sym{ID: "partial-tree", T: nodeT}, er}}}, true
			}
			if o, ok := join(in, cl, st); ok {
				return o, true
			}
			res := cl.Common.Signature().Results()
			for _, arg := range cl.Args {
				if b, ok := argType(cl, arg); ok && b.Kind() == types.String && res.Len() == 1 && hasNext(res.At(0).Type()) {
					srcs[arg.Key()] = c.Pos(cl.Instr.Pos())
					v := Sym{ID: "stream:" + cl.Site, T: res.At(0).Type()}
					st.SetNil(v, 2)
					return []Outcome{{St: st, Rets: []Val{v}}}, true
				}
			}
			if cl.Fn != nil && core.FuncPkg(cl.Fn) != nil && strings.HasSuffix(core.FuncPkg(cl.Fn).Path(), "/strslice") && len(cl.Args) == 1 {
				return []Outcome{{St: st, Rets: []Val{Sym{ID: "text<" + cl.Args[0].Key() + ">", T: res.At(0).Type()}}}}, true
			}
			if strings.HasPrefix(cl.Name(), "(*sync.Pool).") {
				return nil, false
			}
			return stdModel(in, cl, st)
		}
		var args []Val
		var src string
		for _, p := range e.Params {
			v := Val(Sym{ID: "P:" + p.Name(), T: p.Type()})
			switch t := p.Type().Underlying().(type) {
			case *types.Basic:
				if t.Kind() == types.String {
					src = v.Key()
				}
			case *types.Slice:
				if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					src = "$text<" + v.Key() + ">"
				}
			}
			args = append(args, v)
		}
		outs := in.Run(e, args, NewState())
		if in.Capped {
			rep.Undecide("%s: %s", fnName(e), in.CapWhy)
			continue
		}
		for got, where := range srcs {
			rep.Ob("entry")
			if src != "" && got != src && !strings.HasPrefix(got, "$conv") {
				rep.Violate("entry", fnName(e), where, "the text given to the lexer is not the caller's text")
			}
		}
		for _, o := range outs {
			if o.Panic {
				continue
			}
			rep.Ob("entry")
			where := c.Pos(o.Pos)
			if where == "" {
				where = c.Pos(e.Pos())
			}
			if o.St.TS["parsed"] != "1" {
				if o.St.Nilness(o.Rets[1]) != 2 {
					rep.Violate("entry", fnName(e), where, "does not parse exactly once")
				}
				continue
			}
			perr := o.St.Nilness(Sym{ID: "parse-error", T: errType}) == 2
			switch o.St.Nilness(o.Rets[1]) {
			case 1:
				if perr {
					rep.Violate("entry", fnName(e), where, "can return a nil error although parsing reported one")
					continue
				}
				k := o.Rets[0].Key()
				switch {
				case k == "$tree":
				case strings.Contains(k, "$tree") || strings.Contains(k, "tree"):
					// a part of the tree: only when the stream has exactly one document
					if !oneDocument(o.St) {
						rep.Violate("entry", fnName(e), where, "can return a part of the parsed tree (%s) without having established that the stream has exactly one document", short(k))
					}
				default:
					rep.Violate("entry", fnName(e), where, "does not return the parsed tree")
				}
			case 2:
				if !perr {
					rep.Violate("entry", fnName(e), where, "reports an error although parsing succeeded")
				}
			default:
				rep.Undecide("%s: the returned error is neither known nil nor known non-nil", fnName(e))
			}
		}
	}
	errorListKept(a, rep)
	rep.Count("drivers", len(drivers))
	rep.Count("entry points", len(entries))
	rep.Floor("driver", 2)
	rep.Floor("entry", 6)
}

func argType(cl *Call, v Val) (*types.Basic, bool) {
	for i, a := range cl.Args {
		if a.Key() != v.Key() {
			continue
		}
		args := cl.Common.Args
		if cl.Common.IsInvoke() {
			i--
		}
		if i >= 0 && i < len(args) {
			b, ok := args[i].Type().Underlying().(*types.Basic)
			return b, ok
		}
	}
	return nil, false
}

// hasNext: a token stream.
func hasNext(t types.Type) bool {
	ms := types.NewMethodSet(t)
	s := ms.Lookup(nil, "Next")
	if s == nil {
		return false
	}
	sig, ok := s.Obj().Type().(*types.Signature)
	return ok && sig.Results().Len() == 1 && strings.HasSuffix(sig.Results().At(0).Type().String(), "/token.Token")
}

func oneDocument(st *State) bool {
	for k := range st.Facts {
		if strings.HasPrefix(k, "len<") && strings.Contains(k, "tree") {
			if lo, hi, ok := st.Interval(Sym{ID: k, T: types.Typ[types.Int]}); ok && lo == 1 && hi == 1 {
				return true
			}
			if c, ok := st.Resolve(Sym{ID: k, T: types.Typ[types.Int]}).(Const); ok && c.V.ExactString() == "1" {
				return true
			}
		}
	}
	return false
}

func tokenTypeOf(tok types.Type) types.Type {
	if s, ok := tok.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Type" {
				return s.Field(i).Type()
			}
		}
	}
	return types.Typ[types.Int]
}

// errorListKept: in every function from which the grammar's functions are reached, or which they
// reach, the error list is only ever appended to.
func errorListKept(a *parserAn, rep *core.Report) {
	field := strings.TrimPrefix(a.errCell, "*P.")
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || reach[f] || len(f.Blocks) == 0 {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, f := range a.fns {
		visit(f)
	}
	for f := range reach {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), a.named) || structOfNamed(a.named).Field(fa.Field).Name() != field {
					continue
				}
				rep.Ob("errors-kept")
				if !appendsTo(st.Val, field, a, 0) {
					rep.Violate("errors-kept", fnName(f), a.c.Pos(st.Pos()), "the error list is replaced, while parsing, by something other than itself with errors appended")
				}
			}
		}
	}
}

func appendsTo(v ssa.Value, field string, a *parserAn, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return appendsTo(v.Call.Args[0], field, a, depth+1)
		}
		if f := v.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "slices.Grow") || f != nil && strings.HasPrefix(f.String(), "slices.Clip") {
			return appendsTo(v.Call.Args[0], field, a, depth+1)
		}
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), a.named) {
				return structOfNamed(a.named).Field(fa.Field).Name() == field
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != v && !appendsTo(e, field, a, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func constOf(c *core.Ctx, pkg, name string) Val {
	if p := c.Pkgs[pkg]; p != nil {
		if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
			return Const{V: k.Val()}
		}
	}
	return nil
}
