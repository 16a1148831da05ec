package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

func init() {
	register("C06", &Rule{
		Run:     runC06,
		Explain: "Abstract interpretation of every method of the encoder returned by NewEncoder, with the builder and the writer as symbolic interface values whose calls are recorded: each insertion must reach the builder's method of the same name exactly once with the same arguments on every path and nothing else; each encoding method must ask the builder for its result exactly once, return its error (and nothing, with no writer call) when there is one, and otherwise call the matching writer method exactly once with that tree (and destination) and return its results.",
	})
}

func runC06(c *core.Ctx) {
	rep := c.Rep
	ctor := c.Func(root, "NewEncoder")
	enc := ifaceOf(c, root, "Encoder")
	if ctor == nil || enc == nil {
		rep.Violate("anchor", "yamly.NewEncoder", "", "the encoder constructor or the Encoder interface is gone")
		return
	}
	st := NewState()
	bv, wv := Sym{ID: "B", T: ctor.Params[0].Type()}, Sym{ID: "W", T: ctor.Params[1].Type()}
	st.SetNil(bv, 2)
	st.SetNil(wv, 2)
	mk := func(h Hooks) *Interp {
		in := New(c.Prog, h)
		in.Hooks.Inline = func(fn *ssa.Function) bool {
			p := core.FuncPkg(fn)
			return p != nil && p.Path() == root || fn.Synthetic != ""
		}
		return in
	}
	outs := mk(Hooks{}).Run(ctor, []Val{bv, wv}, st)
	if len(outs) != 1 || outs[0].Panic {
		rep.Undecide("NewEncoder has no single abstract result")
		return
	}
	iv, ok := outs[0].Rets[0].(Iface)
	if !ok {
		rep.Undecide("the type NewEncoder returns is not known")
		return
	}
	find := func(name string) *ssa.Function {
		o, _, _ := types.LookupFieldOrMethod(iv.T, true, c.Pkgs[root].Types, name)
		f, _ := o.(*types.Func)
		if f == nil {
			return nil
		}
		return c.Prog.FuncValue(f.Origin())
	}
	ins := ifaceOf(c, root, "Inserter")
	isInserter := map[string]bool{}
	for i := 0; ins != nil && i < ins.NumMethods(); i++ {
		isInserter[ins.Method(i).Name()] = true
	}
	writerOf := map[string]string{"EncodeToString": "WriteString", "EncodeToBytes": "WriteBytes", "EncodeTo": "WriteTo"}
	for i := 0; i < enc.NumMethods(); i++ {
		m := enc.Method(i).Name()
		fn := find(m)
		if fn == nil || len(fn.Blocks) == 0 {
			rep.Undecide("no body for %s", m)
			continue
		}
		construct, where := "Encoder."+m, c.Pos(fn.Pos())
		hook := Hooks{Call: func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
			if !cl.Common.IsInvoke() {
				return stdModel(in, cl, st)
			}
			recv := st.Resolve(cl.Args[0]).Key()
			who := ""
			switch recv {
			case "$B":
				who = "builder"
			case "$W":
				who = "writer"
			default:
				return nil, false
			}
			name := cl.Common.Method.Name()
			var ks []string
			for _, a := range cl.Args[1:] {
				ks = append(ks, st.Resolve(a).Key())
			}
			st.TS["calls"] += fmt.Sprintf("%s.%s(%s);", who, name, strings.Join(ks, ","))
			sig := cl.Common.Signature()
			var rets []Val
			for j := 0; j < sig.Results().Len(); j++ {
				rets = append(rets, Sym{ID: fmt.Sprintf("%s.%s#%d", who, name, j), T: sig.Results().At(j).Type()})
			}
			return []Outcome{{St: st, Rets: rets}}, true
		}}
		in := mk(hook)
		s := outs[0].St.Clone()
		as := []Val{iv.V}
		var argKeys []string
		for _, p := range fn.Params[1:] {
			a := Sym{ID: "arg:" + p.Name(), T: p.Type()}
			as = append(as, a)
			argKeys = append(argKeys, a.Key())
		}
		for _, o := range in.Run(fn, as, s) {
			calls := o.St.TS["calls"]
			if o.Panic {
				rep.Ob("forward")
				rep.Violate("forward", construct, where, "may panic: %s", o.Note)
				continue
			}
			if isInserter[m] {
				rep.Ob("forward")
				if want := fmt.Sprintf("builder.%s(%s);", m, strings.Join(argKeys, ",")); calls != want {
					rep.Violate("forward", construct, where, "a path makes the calls %q instead of %q", calls, want)
				}
				continue
			}
			w, known := writerOf[m]
			if !known {
				rep.Undecide("%s is not a method this rule knows", m)
				continue
			}
			rep.Ob("encode")
			errV := Sym{ID: "builder.Result#1", T: errType}
			failed := o.St.Nilness(errV)
			res := "builder.Result();"
			last := o.St.Resolve(o.Rets[len(o.Rets)-1])
			switch failed {
			case 2:
				if calls != res {
					rep.Violate("encode", construct, where, "the builder failed, but the calls are %q", calls)
				}
				if last.Key() != errV.Key() && !strings.Contains(last.Key(), errV.Key()) {
					rep.Violate("encode", construct, where, "the builder's error is not returned (%s is)", last.Key())
				}
				if len(o.Rets) == 2 && !o.St.IsZero(o.Rets[0]) {
					rep.Violate("encode", construct, where, "the builder failed, but %s is returned", o.Rets[0].Key())
				}
			case 1:
				ks := append([]string(nil), argKeys...)
				ks = append(ks, "$builder.Result#0")
				want := res + fmt.Sprintf("writer.%s(%s);", w, strings.Join(ks, ","))
				if calls != want {
					rep.Violate("encode", construct, where, "the calls are %q instead of %q", calls, want)
					continue
				}
				werr := Sym{ID: fmt.Sprintf("writer.%s#%d", w, len(o.Rets)-1), T: errType}
				if last.Key() != werr.Key() && !(o.St.Nilness(werr) == 1 && o.St.Nilness(last) == 1) && !strings.Contains(last.Key(), werr.Key()) {
					rep.Violate("encode", construct, where, "the writer's error is not returned (%s is)", last.Key())
				}
				if len(o.Rets) == 2 {
					v := o.St.Resolve(o.Rets[0])
					if k := fmt.Sprintf("$writer.%s#0", w); v.Key() != k && !(o.St.Nilness(werr) == 2 && o.St.IsZero(v)) {
						rep.Violate("encode", construct, where, "the result is %s instead of what the writer returned", v.Key())
					}
				}
			default:
				rep.Violate("encode", construct, where, "the builder's error is not looked at (calls %q)", calls)
			}
		}
	}
	rep.Floor("forward", 10)
	rep.Floor("encode", 6)
}
