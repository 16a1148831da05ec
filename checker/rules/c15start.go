package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

// putState is the state in which a function leaves what it puts into a pool.
type putState struct {
	st  *State
	v   Iface
	fn  *ssa.Function
	pos token.Pos
}

// parserStart compares the state parsing starts from with new and with pooled parts.
func (w *iso) parserStart() {
	c := w.c
	pt := c.Named(parserPkg, "parser")
	node := c.Named(astPkg, "Node")
	if pt == nil || node == nil {
		w.rep.Undecide("the parser is not found")
		return
	}
	ptr := types.NewPointer(pt)
	starts := func(fn *ssa.Function) bool {
		s := fn.Signature
		return s.Recv() != nil && types.Identical(s.Recv().Type(), ptr) && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), node)
	}
	inlined := func(fn *ssa.Function) bool {
		p := core.FuncPkg(fn)
		return p != nil && len(fn.Blocks) > 0 && (p.Path() == parserPkg || strings.HasPrefix(p.Path(), parserPkg+"/") || p.Path() == accPkg || p.Path() == yayaml+"/token")
	}
	poolKey := func(v ssa.Value) string { return w.place(v) }
	// what is put, and how it looks then
	templates := map[string][]putState{}
	taken := map[string]bool{} // pools objects are taken from, by type
	for _, f := range w.all {
		if core.FuncPkg(f).Path() != parserPkg {
			continue
		}
		eachCall(f, func(ci ssa.CallInstruction) {
			pool, op := w.poolOf(ci)
			if op == "Get" {
				taken[pool] = true
			}
			if op != "Put" || isBufferArg(ci) {
				return
			}
			mi, ok := ci.Common().Args[1].(*ssa.MakeInterface)
			if !ok {
				return
			}
			var args []Val
			for i, p := range f.Params {
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					args = append(args, Addr{Base: fmt.Sprintf("OLD%d", i)})
				} else {
					args = append(args, Sym{ID: fmt.Sprintf("OLD%d", i), T: p.Type()})
				}
			}
			in := New(c.Prog, Hooks{})
			in.Hooks.Inline = inlined
			in.Hooks.Call = func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
				if strings.HasPrefix(cl.Name(), "(*sync.Pool).") {
					if cl.Instr == ci {
						if iv, ok := st.Resolve(cl.Args[1]).(Iface); ok {
							templates[pool] = append(templates[pool], putState{st: st.Clone(), v: iv, fn: f, pos: ci.Pos()})
						}
					}
					return []Outcome{{St: st}}, true
				}
				return stdModel(in, cl, st)
			}
			st := NewState()
			in.Run(f, args, st)
			if in.Capped {
				w.rep.Undecide("%s: %s", core.FuncName(f), in.CapWhy)
			}
			_ = mi
		})
	}
	fixed := w.fixedFields()
	for _, e := range c.FuncsOf(parserPkg) {
		if e.Signature.Recv() != nil || e.Parent() != nil || !token.IsExported(e.Name()) || e.Signature.Results().Len() != 2 || !types.Identical(e.Signature.Results().At(0).Type(), node) || len(e.Blocks) == 0 {
			continue
		}
		type snap struct {
			text map[string]string
		}
		run := func(st *State, from string, t *putState) (out []snap, hit bool, ok bool) {
			in := New(c.Prog, Hooks{})
			in.Hooks.Inline = inlined
			in.Hooks.Call = func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
				one := func(v Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: []Val{v}}}, true }
				switch cl.Name() {
				case "(*sync.Pool).Get":
					key := ""
					if len(cl.Common.Args) > 0 {
						key = poolKey(cl.Common.Args[0]) + "|"
					}
					if t != nil && key == from && st.TS["got"] == "" {
						st.TS["got"] = "1"
						hit = true
						return one(t.v)
					}
					return one(Nil{})
				case "(*sync.Pool).Put":
					return []Outcome{{St: st}}, true
				}
				if cl.Common.IsInvoke() && cl.Common.Method.Name() == "Next" {
					n := len(st.TS["read"])
					st.TS["read"] += "x"
					return one(Sym{ID: fmt.Sprintf("tok:%d", n), T: cl.Common.Signature().Results().At(0).Type()})
				}
				if cl.Fn != nil && starts(cl.Fn) {
					out = append(out, snap{w.show(st, cl.Args[0], pt, fixed)})
					return []Outcome{{St: st, Panic: true, Note: "stop"}}, true
				}
				res := cl.Common.Signature().Results()
				if cl.Fn != nil && core.FuncPkg(cl.Fn) != nil && (strings.HasSuffix(core.FuncPkg(cl.Fn).Path(), "/strslice") || strings.HasSuffix(core.FuncPkg(cl.Fn).Path(), "/lexer")) && res.Len() == 1 {
					v := Sym{ID: "text:" + cl.Site, T: res.At(0).Type()}
					st.SetNil(v, 2)
					return one(v)
				}
				return stdModel(in, cl, st)
			}
			var args []Val
			for _, p := range e.Params {
				v := Sym{ID: "P:" + p.Name(), T: p.Type()}
				if types.IsInterface(p.Type()) {
					st.SetNil(v, 2)
				}
				if _, ok := p.Type().Underlying().(*types.Slice); ok && e.Signature.Variadic() && p == e.Params[len(e.Params)-1] {
					args = append(args, Nil{})
					continue
				}
				args = append(args, v)
			}
			in.Run(e, args, st)
			return out, hit, !in.Capped
		}
		ref, _, ok := run(NewState(), "", nil)
		if !ok || len(ref) == 0 {
			w.rep.Undecide("%s: where parsing starts is not found", core.FuncName(e))
			continue
		}
		w.rep.Ob("parser start")
		same := map[string]map[string]bool{}
		for _, s := range ref {
			for k, v := range s.text {
				if same[k] == nil {
					same[k] = map[string]bool{}
				}
				same[k][v] = true
			}
		}
		var pools []string
		for p := range templates {
			pools = append(pools, p)
		}
		sort.Strings(pools)
		for _, p := range pools {
			for i := range templates[p] {
				t := &templates[p][i]
				got, hit, ok := run(t.st.Clone(), p, t)
				if !ok {
					w.rep.Undecide("%s with a pooled object: not followed to its end", core.FuncName(e))
					continue
				}
				if !hit {
					continue
				}
				w.rep.Ob("parser start")
				for _, s := range got {
					var ks []string
					for k := range s.text {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						v := s.text[k]
						if !same[k][v] && strings.Contains(v, "OLD") {
							w.rep.Violate("parser start", core.FuncName(e), c.Pos(t.pos), "the parser of a later call starts with what an earlier one left in %s", k)
							if os.Getenv("VERIF_DEBUG") != "" {
								fmt.Fprintln(os.Stderr, k, v, same[k])
							}
						}
					}
				}
			}
		}
	}
}

// show lists what parsing can see of the parser.
func (w *iso) show(st *State, v Val, t types.Type, fixed map[string]bool) map[string]string {
	out := map[string]string{}
	var walk func(name string, v Val, t types.Type, depth int)
	var object func(name string, a Addr, t types.Type, depth int)
	object = func(name string, a Addr, t types.Type, depth int) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || depth > 6 {
			walk(name, st.Load(a, t), t, depth)
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if _, nested := s.Field(i).Type().Underlying().(*types.Struct); !nested && fixed[fmt.Sprintf("field %s.%d", t.String(), i)] {
				continue
			}
			object(name+"."+s.Field(i).Name(), Addr{Base: a.Base, Path: a.Path + "." + s.Field(i).Name()}, s.Field(i).Type(), depth+1)
		}
	}
	walk = func(name string, v Val, t types.Type, depth int) {
		v = st.Resolve(v)
		if sv, ok := v.(Struct); ok && depth <= 6 {
			if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == len(sv.Fields) {
				for i := range sv.Fields {
					walk(name+"."+s.Field(i).Name(), sv.Fields[i], s.Field(i).Type(), depth+1)
				}
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if a, ok := v.(Addr); ok && depth <= 6 {
				object(name, a, u.Elem(), depth+1)
				return
			}
			if _, ok := v.(Sym); ok && depth <= 6 {
				object(name, Addr{Base: "*" + v.Key()}, u.Elem(), depth+1)
				return
			}
		case *types.Slice, *types.Map:
			n := 0
			for {
				a, ok := v.(Append)
				if !ok {
					break
				}
				n += len(a.Elems)
				v = st.Resolve(a.X)
			}
			out[name] = fmt.Sprintf("len %s+%d", st.Len(v).Key(), n)
			return
		case *types.Interface, *types.Signature:
			return
		}
		out[name] = v.Key()
	}
	if a, ok := st.Resolve(v).(Addr); ok {
		object("parser", a, t, 0)
	}
	return out
}

// fixedFields: fields that keep what the constructor gave them.
func (w *iso) fixedFields() map[string]bool {
	changed := map[string]bool{}
	all := map[string]bool{}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.Alloc:
				return true
			}
			return false
		}
	}
	for _, f := range w.all {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.FieldAddr:
					all[w.place(i)] = true
				case *ssa.Store:
					if !local(i.Addr) {
						changed[w.place(i.Addr)] = true
						if s, ok := i.Val.Type().Underlying().(*types.Struct); ok {
							for n := 0; n < s.NumFields(); n++ {
								changed[fmt.Sprintf("field %s.%d", i.Val.Type().String(), n)] = true
							}
						}
					}
				case *ssa.MapUpdate:
					if u, ok := i.Map.(*ssa.UnOp); ok && !local(u.X) {
						changed[w.place(u.X)] = true
					}
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "clear" || bi.Name() == "delete") {
						if u, ok := i.Call.Args[0].(*ssa.UnOp); ok && !local(u.X) {
							changed[w.place(u.X)] = true
						}
					}
				}
			}
		}
	}
	out := map[string]bool{}
	for k := range all {
		out[k] = !changed[k]
	}
	return out
}
