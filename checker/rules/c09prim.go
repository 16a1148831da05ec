package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

// checkpointOps decides that the parser's own checkpoint operations bring back everything that
// steers parsing: the token, and every plain field some other function of the parser reads.
func (a *parserAn) checkpointOps(rep *core.Report) {
	op := map[string]*ssa.Function{}
	for fn, k := range a.prim {
		if len(fn.Params) != 1 || fn.Signature.Results().Len() != 0 {
			continue
		}
		if op[k] != nil {
			rep.Undecide("two operations of kind %s: %s and %s", k, op[k].Name(), fn.Name())
			return
		}
		op[k] = fn
	}
	for _, k := range []string{"SetCheckpoint", "Commit", "Rollback", "Next"} {
		if op[k] == nil {
			rep.Undecide("the parser has no operation of its own for %s", k)
			return
		}
	}
	cells, tokCell := a.steering(op)
	if tokCell == "" {
		rep.Undecide("no token field")
		return
	}
	addr := func(cell string) Addr { return Addr{Base: "*P", Path: strings.TrimPrefix(cell, "*P")} }
	fresh := func(st *State, i int) map[string]string {
		want := map[string]string{}
		for _, l := range cells {
			var v Val
			if sl, ok := l.t.Underlying().(*types.Slice); ok {
				b := fmt.Sprintf("fresh%d%s", i, l.cell)
				for j := 0; j <= i; j++ {
					st.StoreCell(Addr{Base: b, Path: fmt.Sprintf("[%d]", j)}, Sym{ID: fmt.Sprintf("%s%d", b, j), T: sl.Elem()})
				}
				v = SliceOf{A: Addr{Base: b}, N: i + 1}
				want[l.cell] = fmt.Sprint(i + 1)
			} else {
				v = Sym{ID: fmt.Sprintf("fresh%d%s", i, l.cell), T: l.t}
				want[l.cell] = v.Key()
			}
			st.StoreCell(addr(l.cell), v)
		}
		st.StoreCell(addr(tokCell), Sym{ID: fmt.Sprintf("fresh%d:tok", i), T: a.tokType})
		return want
	}
	type step struct {
		op   string
		want int // for Rollback: the round whose values are due
	}
	// S: set, C: commit, R<n>: rollback to round n
	seqs := [][]step{
		{{"SetCheckpoint", 0}, {"Rollback", 0}},
		{{"SetCheckpoint", 0}, {"SetCheckpoint", 0}, {"Rollback", 1}, {"Rollback", 0}},
		{{"SetCheckpoint", 0}, {"SetCheckpoint", 0}, {"Commit", 0}, {"Rollback", 0}},
		{{"SetCheckpoint", 0}, {"Commit", 0}, {"SetCheckpoint", 0}, {"Rollback", 2}},
		{{"SetCheckpoint", 0}, {"Rollback", 0}, {"SetCheckpoint", 0}, {"Rollback", 2}},
	}
	for _, seq := range seqs {
		st := NewState()
		st.Heap["!zero:*P"] = Nil{}
		for _, l := range leafCells("*P", a.named) {
			if _, ok := l.t.Underlying().(*types.Pointer); ok {
				st.StoreCell(addr(l.cell), Addr{Base: "obj:" + l.cell})
			}
		}
		var calls []string
		wants := map[int]map[string]string{}
		desc := ""
		states := []*State{st}
		for i, s := range seq {
			desc += " " + s.op
			var next []*State
			for _, st := range states {
				wants[i] = fresh(st, i)
				calls = nil
				in := New(a.c.Prog, Hooks{})
				in.Hooks.Inline = func(f *ssa.Function) bool { return len(f.Blocks) > 0 }
				in.Hooks.Call = func(in *Interp, c *Call, st *State) ([]Outcome, bool) {
					if k := accessorOp(c.Common); k != "" {
						calls = append(calls, k)
						var r []Val
						if k == "Rollback" || k == "Next" {
							r = []Val{Sym{ID: fmt.Sprintf("given%d:tok", i), T: a.tokType}}
						}
						return []Outcome{{St: st, Rets: r}}, true
					}
					return stdModel(in, c, st)
				}
				outs := in.RunAs(fmt.Sprintf("prim%d", i), op[s.op], []Val{Addr{Base: "*P"}}, st.Clone())
				if in.Capped || len(outs) == 0 {
					rep.Undecide("%s: %s", op[s.op].Name(), in.CapWhy)
					return
				}
				for _, o := range outs {
					if o.Panic {
						rep.Violate("checkpoint", fnName(op[s.op]), a.c.Pos(op[s.op].Pos()), "after%s: panics (%s)", desc, o.Note)
						return
					}
					want := wants[i]
					tokWant := fmt.Sprintf("fresh%d:tok", i)
					if s.op == "Rollback" {
						want = wants[s.want]
						tokWant = fmt.Sprintf("given%d:tok", i)
					}
					rep.Ob("checkpoint")
					if got := o.St.Load(addr(tokCell), a.tokType); !strings.Contains(got.Key(), tokWant) {
						rep.Violate("checkpoint", fnName(op[s.op]), a.c.Pos(op[s.op].Pos()), "after%s the current token is not %s", desc, map[bool]string{true: "the one the token source went back to", false: "left alone"}[s.op == "Rollback"])
						return
					}
					for _, l := range cells {
						got := o.St.Load(addr(l.cell), l.t)
						k := got.Key()
						if _, ok := l.t.Underlying().(*types.Slice); ok {
							n := o.St.Len(got)
							c, ok := n.(Const)
							if !ok {
								continue
							}
							k = c.V.ExactString()
						}
						if k != want[l.cell] {
							rep.Violate("checkpoint", fnName(op[s.op]), a.c.Pos(op[s.op].Pos()), "after%s the parser's %s is not what it was %s", desc, strings.TrimPrefix(l.cell, "*P."), map[bool]string{true: "when the checkpoint was set", false: "before"}[s.op == "Rollback"])
							return
						}
					}
					next = append(next, o.St)
				}
				if len(calls) == 0 || calls[0] != s.op {
					rep.Violate("checkpoint", fnName(op[s.op]), a.c.Pos(op[s.op].Pos()), "does not tell the token source on every path")
					return
				}
			}
			states = next
			if len(states) > 64 {
				rep.Undecide("checkpoint operations: too many paths")
				return
			}
		}
	}
}

// steering lists the plain fields of the parser that functions other than the checkpoint
// operations use, and the token field.
func (a *parserAn) steering(op map[string]*ssa.Function) ([]cellInfo, string) {
	own := map[*ssa.Function]bool{op["SetCheckpoint"]: true, op["Commit"]: true, op["Rollback"]: true}
	used := map[string]bool{}
	mark := func(t types.Type, i int) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			used[fmt.Sprint(t, ".", s.Field(i).Name())] = true
		}
	}
	for _, fn := range a.c.Funcs {
		p := core.FuncPkg(fn)
		if p == nil || !strings.HasPrefix(p.Path(), parserPkg) || own[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.FieldAddr:
					read := false
					for _, r := range *ins.Referrers() {
						if s, ok := r.(*ssa.Store); !ok || s.Addr != ins {
							read = true
						}
					}
					if read {
						mark(ins.X.Type(), ins.Field)
					}
				case *ssa.Field:
					mark(ins.X.Type(), ins.Field)
				}
			}
		}
	}
	var out []cellInfo
	tok := ""
	var walk func(prefix string, t types.Type)
	walk = func(prefix string, t types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			cell := prefix + "." + f.Name()
			if types.Identical(f.Type(), a.tokType) {
				tok = cell
				continue
			}
			if !used[fmt.Sprint(t, ".", f.Name())] || isErrSlice(f.Type()) {
				continue
			}
			switch u := f.Type().Underlying().(type) {
			case *types.Struct:
				walk(cell, f.Type())
			case *types.Basic:
				out = append(out, cellInfo{cell, f.Type()})
			case *types.Slice:
				if _, basic := u.Elem().Underlying().(*types.Basic); basic {
					out = append(out, cellInfo{cell, f.Type()})
				}
			}
		}
	}
	walk("*P", a.named)
	return out, tok
}
