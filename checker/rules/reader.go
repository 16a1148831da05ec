package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

// Decoder implementations: every named type of the repository whose pointer implements
// yamly.Decoder. The rules below interpret their methods abstractly; which field holds the
// sticky error, which slices hold the position and the collected errors is found from the
// types and from the abstract effect of AddError, never from names.

const root = core.Mod

type reader struct {
	c       *core.Ctx
	named   *types.Named
	short   string
	cells   []cellInfo // leaf cells of the receiver
	sticky  string     // cell of the sticky error
	globals func(*ssa.Global) (Val, bool)
}

type cellInfo struct {
	cell string
	t    types.Type
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

func isErrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErr(s.Elem())
}

func leafCells(prefix string, t types.Type) []cellInfo {
	var out []cellInfo
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, leafCells(prefix+"."+s.Field(i).Name(), s.Field(i).Type())...)
		}
		return out
	}
	return []cellInfo{{prefix, t}}
}

// implementers lists the repository's named types (non-test) whose pointer or value implements iface.
func implementers(c *core.Ctx, iface *types.Interface) []*types.Named {
	var out []*types.Named
	for _, p := range c.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || nm.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nm.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(types.NewPointer(nm), iface) || types.Implements(nm, iface) {
				out = append(out, nm)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func ifaceOf(c *core.Ctx, pkg, name string) *types.Interface {
	n := c.Named(pkg, name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

func shortType(n *types.Named) string {
	return strings.TrimPrefix(n.String(), core.Mod+"/")
}

func readers(c *core.Ctx) []*reader {
	dec := ifaceOf(c, root, "Decoder")
	if dec == nil {
		c.Rep.Violate("anchor", "yamly.Decoder", "", "the Decoder interface is gone")
		return nil
	}
	var out []*reader
	for _, n := range implementers(c, dec) {
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		r := &reader{c: c, named: n, short: shortType(n), globals: ConstGlobals(c.Prog, c.Funcs)}
		r.cells = leafCells("R", n)
		if !r.findSticky() {
			c.Rep.Undecide("%s: AddError stores its error in no field of the decoder", r.short)
			continue
		}
		out = append(out, r)
	}
	c.Rep.Count("decoder implementations", len(out))
	return out
}

// decoderMethods: the reading methods of the Decoder interface plus Node.
func (r *reader) methods() []string {
	dec := ifaceOf(r.c, root, "ExtendedDecoder")
	var out []string
	if d := ifaceOf(r.c, root, "Decoder"); d != nil {
		for i := 0; i < d.NumMethods(); i++ {
			out = append(out, d.Method(i).Name())
		}
	}
	if dec != nil {
		for i := 0; i < dec.NumExplicitMethods(); i++ {
			out = append(out, dec.ExplicitMethod(i).Name())
		}
	}
	sort.Strings(out)
	return out
}

func (r *reader) method(name string) *ssa.Function { return r.c.Method(r.named, name) }

// routeInfo describes a slice-of-struct cell of the receiver and the interface-typed
// components of its elements that can report exhaustion (a bool method without arguments).
type routeInfo struct {
	cell  string
	elem  types.Type
	iters []string // component paths inside the element
}

func boolMethod(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	hasBool, hasNext := false, false
	for k := 0; k < i.NumMethods(); k++ {
		sig := i.Method(k).Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				hasBool = true
			} else {
				hasNext = true
			}
		}
	}
	return hasBool && hasNext && i.NumMethods() == 2
}

func (r *reader) routes() []routeInfo {
	var out []routeInfo
	for _, ci := range r.cells {
		s, ok := ci.t.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		et := s.Elem()
		if p, ok := et.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		}
		if _, ok := et.Underlying().(*types.Struct); !ok {
			continue
		}
		ri := routeInfo{cell: ci.cell, elem: et}
		for _, l := range leafCells("", et) {
			if boolMethod(l.t) {
				ri.iters = append(ri.iters, l.cell)
			}
		}
		out = append(out, ri)
	}
	return out
}

// initial builds a receiver state: no errors, n open points on every route.
func (r *reader) initial(n int) *State {
	st := NewState()
	st.MaxInst = 4
	for _, ci := range r.cells {
		switch {
		case isErr(ci.t), isErrSlice(ci.t):
			st.Heap[ci.cell] = Nil{}
		}
	}
	for _, ri := range r.routes() {
		if n == 0 {
			st.Heap[ri.cell] = Nil{}
			continue
		}
		st.Heap[ri.cell] = SliceOf{A: Addr{Base: "rt:" + ri.cell}, N: n}
	}
	return st
}

func (r *reader) interp(h Hooks) *Interp {
	in := New(r.c.Prog, h)
	in.GlobalInit = r.globals
	pkg := r.named.Obj().Pkg()
	if h.Inline == nil {
		in.Hooks.Inline = func(fn *ssa.Function) bool {
			p := core.FuncPkg(fn)
			return p == pkg || fn.Synthetic != ""
		}
	}
	user := in.Hooks.Call
	in.Hooks.Call = func(in *Interp, c *Call, st *State) ([]Outcome, bool) {
		if user != nil {
			if o, ok := user(in, c, st); ok {
				return o, true
			}
		}
		return stdModel(in, c, st)
	}
	return in
}

// stdModel models the few library calls whose meaning the rules need.
func stdModel(in *Interp, c *Call, st *State) ([]Outcome, bool) {
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: []Val{v}}}, true }
	switch c.Name() {
	case "errors.Join":
		els, known := elems(st, c.Args[0], errType)
		if !known {
			return nil, false
		}
		id := "join<"
		any := false
		for _, e := range els {
			if st.Nilness(e) == 1 {
				continue
			}
			any = true
			id += e.Key() + ";"
		}
		if !any {
			return one(Nil{})
		}
		v := Sym{ID: id + ">", T: errType}
		allUnknown := true
		for _, e := range els {
			if st.Nilness(e) == 2 {
				allUnknown = false
			}
		}
		if !allUnknown {
			st.SetNil(v, 2)
		}
		return one(v)
	case "errors.New", "fmt.Errorf":
		v := Sym{ID: st.FreshID("err:" + c.Site), T: errType}
		st.SetNil(v, 2)
		return one(v)
	}
	return nil, false
}

// elems lists a slice value's elements when they are known.
func elems(st *State, v Val, et types.Type) ([]Val, bool) {
	switch v := st.Resolve(v).(type) {
	case Nil:
		return nil, true
	case SliceOf:
		if v.N < 0 {
			return nil, false
		}
		var out []Val
		for i := 0; i < v.N; i++ {
			out = append(out, st.Load(Addr{Base: v.A.Base, Path: fmt.Sprintf("%s[%d]", v.A.Path, i)}, et))
		}
		return out, true
	case Append:
		if _, ok := v.X.(Nil); ok {
			return v.Elems, true
		}
	}
	return nil, false
}

var recv = Addr{Base: "R"}

func errSym(st *State, id string) Val {
	v := Sym{ID: id, T: errType}
	st.SetNil(v, 2)
	return v
}

func (r *reader) findSticky() bool {
	add := r.method("AddError")
	if add == nil {
		return false
	}
	st := r.initial(0)
	e1 := errSym(st, "E1")
	in := r.interp(Hooks{})
	for _, o := range in.Run(add, []Val{recv, e1}, st) {
		if o.Panic {
			continue
		}
		for _, ci := range r.cells {
			if isErr(ci.t) && strings.Contains(o.St.Load(cellAddr(ci.cell), ci.t).Key(), "E1") {
				r.sticky = ci.cell
				return true
			}
		}
	}
	return false
}

func cellAddr(cell string) Addr {
	i := strings.IndexAny(cell, ".[")
	if i < 0 {
		return Addr{Base: cell}
	}
	return Addr{Base: cell[:i], Path: cell[i:]}
}

func args(fn *ssa.Function, recvVal Val, st *State) []Val {
	var out []Val
	for i, p := range fn.Params {
		if i == 0 && recvVal != nil {
			out = append(out, recvVal)
			continue
		}
		out = append(out, Sym{ID: "P:" + p.Name(), T: p.Type()})
	}
	return out
}

// passesRecv: the decoder itself is handed to the callee.
func passesRecv(c *Call) bool {
	for _, a := range c.Args {
		if i, ok := a.(Iface); ok {
			a = i.V
		}
		if ad, ok := a.(Addr); ok && ad.Base == "R" && ad.Path == "" {
			return true
		}
	}
	return false
}

// passesNode: a node of an open route point is handed to a function of the repository.
func passesNode(c *Call) bool {
	if p := core.FuncPkg(c.Fn); p == nil || !strings.HasPrefix(p.Path(), core.Mod) {
		return false
	}
	for i, a := range c.Args {
		if iv, ok := a.(Iface); ok {
			a = iv.V
		}
		if sy, ok := a.(Sym); ok && strings.Contains(sy.ID, "rt:") && i < len(c.Fn.Params) {
			switch c.Fn.Params[i].Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
				if !boolMethod(c.Fn.Params[i].Type()) {
					return true
				}
			}
		}
	}
	return false
}

func trace(o Outcome) string {
	if len(o.St.Trace) == 0 {
		return ""
	}
	return " [path: " + strings.Join(o.St.Trace, "; ") + "]"
}
