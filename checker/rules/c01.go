package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

func init() {
	register("C01", &Rule{
		Run: runC01,
		Explain: "For each implementation of yamly.Decoder: abstract interpretation (path-sensitive dataflow over SSA, callees of the package inlined) of every interface method from the abstract state 'an error is stored', " +
			"checking at each exit that the result is the zero value, that the stored error, position and collected errors are unchanged and that the tree was not visited; of AddError from clean and failed states; of Error() for the presence of every stored error; " +
			"and, for every function that stores the error, that each opened iterator is exhausted on every path to its exit (obligation passed on to callers when a function leaves it to them).",
		Assume: []string{"errors.Join returns an error containing its non-nil arguments", "an iterator whose exhaustion query answered true stays exhausted"},
	})
}

func runC01(c *core.Ctx) {
	rs := readers(c)
	for _, r := range rs {
		r.failedInert()
		r.addErrorFirstWins()
		r.errorReports()
		r.drains()
	}
	c.Rep.Floor("failed-inert", 2*2*14)
	c.Rep.Floor("error-reports", 4)
	c.Rep.Floor("drain", 2)
}

func (r *reader) failed(n int) *State {
	st := r.initial(n)
	e0 := errSym(st, "E0")
	st.Heap[r.sticky] = e0
	return st
}

// failedInert: in a failed decoder each method returns the zero value and changes nothing.
func (r *reader) failedInert() {
	for _, m := range r.methods() {
		fn := r.method(m)
		if fn == nil {
			continue
		}
		for n := 0; n <= 2; n += 2 {
			r.c.Rep.Ob("failed-inert")
			construct := r.short + "." + m
			st := r.failed(n)
			if m == "AddError" {
				errSym(st, "P:"+fn.Params[1].Name())
			}
			before := st.Clone()
			visited := ""
			in := r.interp(Hooks{Call: func(in *Interp, c *Call, st *State) ([]Outcome, bool) {
				if c.Fn == nil && passesRecv(c) || c.Fn != nil && passesNode(c) {
					visited = r.c.Pos(c.Instr.Pos())
					return []Outcome{}, true
				}
				return nil, false
			}})
			outs := in.Run(fn, args(fn, recv, st), st)
			if visited != "" {
				r.c.Rep.Violate("failed-inert", construct, visited, "a failed decoder still visits the tree here")
			}
			if in.Capped {
				r.c.Rep.Undecide("%s: %s", construct, in.CapWhy)
			}
			for _, o := range outs {
				if o.Panic {
					r.c.Rep.Violate("failed-inert", construct, r.c.Pos(o.Pos), "panics on a failed decoder: %s", o.Note)
					continue
				}
				if m != "Error" {
					for i, v := range o.Rets {
						if why := r.notEmptyResult(o.St, v, fn.Signature.Results().At(i).Type()); why != "" {
							r.c.Rep.Violate("failed-inert", construct, r.c.Pos(o.Pos), "a failed decoder returns %s", why)
						}
					}
				}
				for _, ci := range r.cells {
					_, isSlice := ci.t.Underlying().(*types.Slice)
					_, isMap := ci.t.Underlying().(*types.Map)
					if ci.cell != r.sticky && !isSlice && !isMap {
						continue
					}
					a, b := before.Load(cellAddr(ci.cell), ci.t), o.St.Load(cellAddr(ci.cell), ci.t)
					if a.Key() != b.Key() {
						r.c.Rep.Violate("failed-inert", construct, r.c.Pos(o.Pos), "changes %s of a failed decoder (from %s to %s)", strings.TrimPrefix(ci.cell, "R."), a.Key(), b.Key())
					}
				}
			}
		}
	}
}

// notEmptyResult: "" when v is the zero value (or an exhausted, empty CollectionState).
func (r *reader) notEmptyResult(st *State, v Val, t types.Type) string {
	v = st.Resolve(v)
	if st.IsZero(v) {
		if n, ok := t.(*types.Named); ok && n == r.c.Named(root, "CollectionState") {
			return "a nil " + t.String() + " that its caller will call"
		}
		return ""
	}
	iv, ok := v.(Iface)
	if !ok {
		return "the value " + v.Key()
	}
	// an interface value: every method must answer zero
	ms := r.c.Prog.MethodSets.MethodSet(iv.T)
	i, ok := t.Underlying().(*types.Interface)
	if !ok || i.NumMethods() == 0 {
		return "the value " + v.Key()
	}
	for k := 0; k < i.NumMethods(); k++ {
		sel := ms.Lookup(i.Method(k).Pkg(), i.Method(k).Name())
		if sel == nil {
			return "the value " + v.Key()
		}
		mf := r.c.Prog.MethodValue(sel)
		in := r.interp(Hooks{})
		for _, o := range in.Run(mf, []Val{iv.V}, st.Clone()) {
			for _, rv := range o.Rets {
				if !o.St.IsZero(rv) {
					return fmt.Sprintf("a %s whose %s() is not zero", iv.T, i.Method(k).Name())
				}
			}
		}
	}
	return ""
}

func (r *reader) addErrorFirstWins() {
	add := r.method("AddError")
	// a clean decoder: a non-nil error sticks, nil does nothing
	for n := 0; n <= 2; n += 2 {
		for _, nilErr := range []bool{false, true} {
			r.c.Rep.Ob("add-error")
			st := r.initial(n)
			var e Val = Nil{}
			if !nilErr {
				e = errSym(st, "E1")
			}
			before := st.Clone()
			drained := ""
			in := r.interp(Hooks{Call: r.iterModel(&drained)})
			outs := in.Run(add, []Val{recv, e}, st)
			if in.Capped {
				r.c.Rep.Undecide("%s.AddError: %s", r.short, in.CapWhy)
				continue
			}
			for _, o := range outs {
				got := o.St.Load(cellAddr(r.sticky), errType)
				switch {
				case o.Panic:
					r.c.Rep.Violate("add-error", r.short+".AddError", r.c.Pos(o.Pos), "panics: %s", o.Note)
				case nilErr && o.St.Nilness(got) != 1:
					r.c.Rep.Violate("add-error", r.short+".AddError", r.c.Pos(o.Pos), "a nil error makes the decoder fail")
				case nilErr && drained != "":
					r.c.Rep.Violate("add-error", r.short+".AddError", drained, "a nil error exhausts the opened collections")
				case !nilErr && !strings.Contains(got.Key(), "E1"):
					r.c.Rep.Violate("add-error", r.short+".AddError", r.c.Pos(o.Pos), "the added error is not stored on a path")
				}
				if nilErr {
					for _, ci := range r.cells {
						if a, b := before.Load(cellAddr(ci.cell), ci.t), o.St.Load(cellAddr(ci.cell), ci.t); a.Key() != b.Key() {
							r.c.Rep.Violate("add-error", r.short+".AddError", r.c.Pos(o.Pos), "a nil error changes %s", ci.cell)
						}
					}
				}
			}
		}
	}
}

// errorReports: Error() is nil on a clean decoder and contains each stored error.
func (r *reader) errorReports() {
	fn := r.method("Error")
	if fn == nil {
		return
	}
	run := func(label string, prep func(st *State) []string) {
		r.c.Rep.Ob("error-reports")
		st := r.initial(0)
		want := prep(st)
		in := r.interp(Hooks{})
		outs := in.Run(fn, []Val{recv}, st)
		if in.Capped {
			r.c.Rep.Undecide("%s.Error: %s", r.short, in.CapWhy)
			return
		}
		for _, o := range outs {
			if o.Panic || len(o.Rets) == 0 {
				continue
			}
			v := o.St.Resolve(o.Rets[0])
			if len(want) == 0 {
				if o.St.Nilness(v) != 1 {
					r.c.Rep.Violate("error-reports", r.short+".Error", r.c.Pos(o.Pos), "a decoder without errors reports one (%s)", v.Key())
				}
				continue
			}
			for _, w := range want {
				if !strings.Contains(v.Key(), w) {
					r.c.Rep.Violate("error-reports", r.short+".Error", r.c.Pos(o.Pos), "with %s, Error() does not contain the stored error (returns %s)", label, v.Key())
				}
			}
		}
	}
	run("no error", func(st *State) []string { return nil })
	run("a fatal error", func(st *State) []string {
		st.Heap[r.sticky] = errSym(st, "E0")
		return []string{"$E0"}
	})
	for _, ci := range r.cells {
		if !isErrSlice(ci.t) {
			continue
		}
		cell := ci.cell
		run("collected deny errors", func(st *State) []string {
			st.Heap[cell] = SliceOf{A: Addr{Base: "den"}, N: 2}
			st.Heap["den[0]"] = errSym(st, "D0")
			st.Heap["den[1]"] = errSym(st, "D1")
			return []string{"$D0", "$D1"}
		})
		run("collected deny errors and a fatal one", func(st *State) []string {
			st.Heap[r.sticky] = errSym(st, "E0")
			st.Heap[cell] = SliceOf{A: Addr{Base: "den"}, N: 1}
			st.Heap["den[0]"] = errSym(st, "D0")
			return []string{"$D0", "$E0"}
		})
	}
}

// iterModel models the iterators on the route: exhaustion is a typestate.
func (r *reader) iterModel(used *string) func(in *Interp, c *Call, st *State) ([]Outcome, bool) {
	return func(in *Interp, c *Call, st *State) ([]Outcome, bool) {
		if c.Method == nil || c.Fn != nil || len(c.Args) != 1 {
			return nil, false
		}
		id := c.Args[0].Key()
		if !strings.Contains(id, "rt:") {
			return nil, false
		}
		if !boolMethod(c.Common.Value.Type()) {
			return nil, false
		}
		res := c.Method.Type().(*types.Signature).Results()
		if b, ok := res.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if st.TS["empty:"+id] == "1" {
				return []Outcome{{St: st, Rets: []Val{Bool(true)}}}, true
			}
			t := st.Clone()
			t.TS["empty:"+id] = "1"
			return []Outcome{{St: t, Rets: []Val{Bool(true)}}, {St: st, Rets: []Val{Bool(false)}}}, true
		}
		if used != nil {
			*used = r.c.Pos(c.Instr.Pos())
		}
		return []Outcome{{St: st, Rets: []Val{Sym{ID: "next<" + id + ">", T: res.At(0).Type()}}}}, true
	}
}

// drains: whoever stores the sticky error leaves every opened iterator exhausted.
func (r *reader) drains() {
	var rts []routeInfo
	for _, ri := range r.routes() {
		if len(ri.iters) > 0 {
			rts = append(rts, ri)
		}
	}
	if len(rts) == 0 {
		r.c.Rep.Undecide("%s: no opened-collection iterators found", r.short)
		return
	}
	field := r.sticky[strings.LastIndex(r.sticky, ".")+1:]
	pkg := r.named.Obj().Pkg()
	var fns []*ssa.Function
	for _, f := range r.c.FuncsOf(pkg.Path()) {
		fns = append(fns, f)
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	writes := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					if fa, ok := ins.Addr.(*ssa.FieldAddr); ok && isErr(ins.Val.Type()) {
						s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
						if s.Field(fa.Field).Name() == field && r.recvOf(f) {
							writes[f] = true
						}
					}
				case ssa.CallInstruction:
					if g := ins.Common().StaticCallee(); g != nil && core.FuncPkg(g) == pkg {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	isRoot := map[string]bool{}
	for _, m := range r.methods() {
		isRoot[m] = true
	}
	checked := map[*ssa.Function]bool{}
	var check func(f *ssa.Function, depth int)
	check = func(f *ssa.Function, depth int) {
		if checked[f] {
			return
		}
		checked[f] = true
		if len(f.Params) == 0 || !r.recvOf(f) {
			r.c.Rep.Undecide("%s stores the error outside a method of the decoder", core.FuncName(f))
			return
		}
		r.c.Rep.Ob("drain")
		bad, where, capped := r.drainFails(f, rts)
		if capped {
			r.c.Rep.Undecide("%s: drain not decided", core.FuncName(f))
			return
		}
		if bad == "" {
			return
		}
		cs := callers[f]
		if !isRoot[f.Name()] && len(cs) > 0 && depth < 4 {
			for _, g := range cs {
				check(g, depth+1)
			}
			return
		}
		r.c.Rep.Violate("drain", core.FuncName(f), where, "the decoder becomes failed here but %s: a caller looping over the collection would never stop", bad)
	}
	for _, f := range fns {
		if writes[f] {
			check(f, 0)
		}
	}
}

// recvOf: f's first parameter is a pointer to the decoder.
func (r *reader) recvOf(f *ssa.Function) bool {
	if len(f.Params) == 0 {
		return false
	}
	p, ok := f.Params[0].Type().(*types.Pointer)
	return ok && types.Identical(p.Elem(), r.named)
}

func (r *reader) drainFails(f *ssa.Function, rts []routeInfo) (bad, where string, capped bool) {
	for n := 1; n <= 2; n++ {
		st := r.initial(n)
		in := r.interp(Hooks{Call: func(in *Interp, c *Call, st *State) ([]Outcome, bool) {
			if o, ok := r.iterModel(nil)(in, c, st); ok {
				return o, true
			}
			return nil, false
		}})
		in.MaxSteps = 60000
		as := args(f, recv, st)
		for _, a := range as[1:] {
			if s, ok := a.(Sym); ok && s.T != nil && isErr(s.T) {
				st.SetNil(a, 0)
			}
		}
		outs := in.Run(f, as, st)
		if in.Capped {
			return "", "", true
		}
		for _, o := range outs {
			if o.Panic {
				continue
			}
			got := o.St.Load(cellAddr(r.sticky), errType)
			if o.St.Nilness(got) == 1 {
				continue
			}
			for _, ri := range rts {
				cur := o.St.Load(cellAddr(ri.cell), types.NewSlice(ri.elem))
				so, ok := cur.(SliceOf)
				if !ok || !strings.HasPrefix(so.A.Base, "rt:") {
					continue
				}
				for k := 0; k < so.N; k++ {
					for _, it := range ri.iters {
						v := o.St.Load(cellAddr(fmt.Sprintf("%s%s[%d]%s", so.A.Base, so.A.Path, k, it)), nil2iface(ri.elem, it))
						if o.St.Nilness(v) == 1 {
							continue
						}
						if o.St.TS["empty:"+v.Key()] != "1" {
							return fmt.Sprintf("the iterator of open collection %d of %d is left with items", k+1, so.N), r.c.Pos(o.Pos), false
						}
					}
				}
			}
		}
	}
	return "", "", false
}

func nil2iface(t types.Type, path string) types.Type {
	for _, l := range leafCells("", t) {
		if l.cell == path {
			return l.t
		}
	}
	return errType
}
