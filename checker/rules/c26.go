package rules

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

// C26: the checkpointing accessor gives the elements of its stream in order, whatever the
// checkpoints, commits and rollbacks in between. Its operations are interpreted over abstract
// states (elements are symbols named by their place in the stream) until no new state appears,
// up to a number of open checkpoints and of elements held back; the reference is a position and
// a stack of positions.

func init() {
	register("C26", &Rule{
		Run:     runC26,
		Explain: "Abstract interpretation of the checkpointing accessor's operations over states whose elements are symbols; all states reachable with at most 3 open checkpoints and 4 elements read past the oldest one (thorough: 4 and 6) are visited. After every operation: Next gives the element at the current position, Rollback the element before the position of the newest checkpoint, the stream is read in order and exactly once, and SetStream forgets everything.",
		Assume:  []string{"a rollback without an open checkpoint, and one to the very start of the stream, give an unspecified element"},
	})
}

type accState struct {
	base int // where everything read was last delivered with no checkpoint open
	st   *State
	pos  int   // position in the stream
	read int   // elements read from the stream
	cps  []int // positions of the open checkpoints
	gen  int
	ops  string
}

var elemRe = regexp.MustCompile(`elem<(\d+):(\d+)>`)

func runC26(c *core.Ctx) {
	rep := c.Rep
	gen := c.Named(accPkg, "CheckpointingAccessor")
	tok := c.Named(yayaml+"/token", "Token")
	if gen == nil || tok == nil || gen.TypeParams().Len() != 1 {
		rep.Undecide("the checkpointing accessor is not found")
		return
	}
	inst, err := types.Instantiate(nil, gen, []types.Type{tok}, false)
	if err != nil {
		rep.Undecide("the accessor cannot be instantiated: %v", err)
		return
	}
	ptr := types.NewPointer(inst)
	ms := c.Prog.MethodSets.MethodSet(ptr)
	op := map[string]*ssa.Function{}
	for _, n := range []string{"Next", "SetCheckpoint", "Commit", "Rollback", "SetStream"} {
		sel := ms.Lookup(c.Pkgs[accPkg].Types, n)
		if sel == nil {
			rep.Undecide("the accessor has no %s", n)
			return
		}
		op[n] = c.Prog.MethodValue(sel)
		if op[n] == nil || len(op[n].Blocks) == 0 {
			rep.Undecide("%s has no body", n)
			return
		}
	}
	// how many checkpoints may be open and how many elements may be held, per
	// exploration: a broad one, one deep in checkpoints and one deep in elements
	bounds := [][2]int{{3, 4}, {8, 1}, {1, 10}}
	if c.Tier == "thorough" {
		bounds = [][2]int{{4, 6}, {12, 1}, {1, 20}}
	}
	streamT := op["SetStream"].Params[1].Type()
	steps := 0
	var capped string
	// run interprets one operation; ok=false: undecided
	run := func(s accState, name string, args ...Val) (accState, []Val, string) {
		n := s
		n.st = s.st.Clone()
		n.cps = append([]int(nil), s.cps...)
		n.ops = s.ops + " " + name
		wrong := ""
		in := New(c.Prog, Hooks{})
		in.Hooks.Call = func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
			if cl.Common.IsInvoke() && cl.Common.Method.Name() == "Next" {
				recv := st.Resolve(cl.Args[0]).Key()
				if recv != fmt.Sprintf("$stream:%d", n.gen) {
					wrong = "reads from a stream it should have let go of"
				}
				v := Sym{ID: fmt.Sprintf("elem<%d:%d>", n.gen, n.read), T: tok}
				n.read++
				return []Outcome{{St: st, Rets: []Val{v}}}, true
			}
			if o, ok := stdModel(in, cl, st); ok {
				return o, true
			}
			return nil, false
		}
		in.Hooks.Inline = func(f *ssa.Function) bool { return len(f.Blocks) > 0 }
		fn := op[name]
		n.st.MaxInst = 64
		outs := in.RunAs(fmt.Sprintf("op%d", strings.Count(n.ops, " ")), fn, append([]Val{Addr{Base: "A"}}, args...), n.st)
		steps += in.Steps
		if in.Capped {
			capped = in.CapWhy
			return n, nil, "?"
		}
		if len(outs) != 1 {
			capped = fmt.Sprintf("%s has %d outcomes on a known state (after%s)", name, len(outs), n.ops)
			return n, nil, "?"
		}
		if outs[0].Panic {
			return n, nil, "panics (" + outs[0].Note + ")"
		}
		n.st = outs[0].St
		return n, outs[0].Rets, wrong
	}
	zero := NewState()
	zero.Heap["!zero:A"] = Nil{}
	start := accState{st: zero}
	// as the constructor leaves it
	for _, f := range c.Funcs {
		if f.Signature.Recv() == nil && f.Origin() != nil && core.FuncPkg(f.Origin()) != nil && core.FuncPkg(f.Origin()).Path() == accPkg && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), inst) && f.Signature.Params().Len() == 0 && len(f.Blocks) > 0 {
			in := New(c.Prog, Hooks{})
			outs := in.Run(f, nil, start.st.Clone())
			if len(outs) == 1 && !outs[0].Panic {
				start.st = outs[0].St
				start.st.StoreCell(Addr{Base: "A"}, outs[0].Rets[0])
				rep.Count("constructors", 1)
			}
			break
		}
	}
	stream := func(g int) Val {
		v := Sym{ID: fmt.Sprintf("stream:%d", g), T: streamT}
		return v
	}
	violated := map[string]bool{}
	bad := func(name string, s accState, format string, a ...any) {
		what := fmt.Sprintf(format, a...)
		if violated[name+what] {
			return
		}
		violated[name+what] = true
		rep.Violate("sequence", "(*engines/yayamls/pkg/cpaccessor.CheckpointingAccessor)."+name, c.Pos(op[name].Pos()), "after%s: %s", s.ops, what)
	}
	first, _, w := run(start, "SetStream", stream(0))
	if w != "" {
		if w == "?" {
			rep.Undecide("SetStream: %s", capped)
		} else {
			bad("SetStream", first, "%s", w)
		}
		return
	}
	elem := func(rets []Val) (string, bool) {
		if len(rets) != 1 {
			return "", false
		}
		set := map[string]bool{}
		for _, m := range elemRe.FindAllString(rets[0].Key(), -1) {
			set[m] = true
		}
		if len(set) != 1 {
			return rets[0].Key(), false
		}
		for k := range set {
			return k, true
		}
		return "", false
	}
	states := 0
	for _, bound := range bounds {
		maxCP, maxBuf := bound[0], bound[1]
		seen := map[string]bool{}
		queue := []accState{first}
		seen[accKey(first, inst, maxBuf+4)] = true
		for len(queue) > 0 && len(violated) == 0 {
			s := queue[0]
			queue = queue[1:]
			states++
			if states > 60000 {
				capped = "too many states"
				break
			}
			push := func(n accState) {
				k := accKey(n, inst, maxBuf+4)
				if !seen[k] {
					seen[k] = true
					queue = append(queue, n)
				}
			}
			if s.pos == s.read && len(s.cps) == 0 {
				s.base = s.pos
			}
			for _, name := range []string{"Next", "SetCheckpoint", "Commit", "Rollback", "SetStream"} {
				switch name {
				case "Next":
					if s.read-s.base >= maxBuf && s.pos == s.read {
						continue
					}
				case "SetCheckpoint":
					if len(s.cps) >= maxCP {
						continue
					}
				case "Commit", "Rollback":
					if len(s.cps) == 0 && strings.Count(s.ops, " ") > 4 {
						continue
					}
				case "SetStream":
					if s.gen > 0 {
						continue
					}
				}
				var args []Val
				t := s
				if name == "SetStream" {
					args = []Val{stream(s.gen + 1)}
					t.gen++
					t.read, t.pos, t.base, t.cps = 0, 0, 0, nil
				}
				n, rets, w := run(t, name, args...)
				if w == "?" {
					continue
				}
				rep.Ob("sequence")
				if w != "" {
					bad(name, n, "%s", w)
					continue
				}
				switch name {
				case "Next":
					want := fmt.Sprintf("elem<%d:%d>", s.gen, s.pos)
					if got, ok := elem(rets); !ok || got != want {
						bad(name, n, "gives %s instead of the element at the current position, %s", short(got), want)
					}
					n.pos++
				case "SetCheckpoint":
					n.cps = append(n.cps, s.pos)
				case "Commit":
					if len(n.cps) == 0 {
						break
					}
					n.cps = n.cps[:len(n.cps)-1]
				case "Rollback":
					if len(n.cps) == 0 {
						break
					}
					p := n.cps[len(n.cps)-1]
					n.cps = n.cps[:len(n.cps)-1]
					n.pos = p
					if p > 0 {
						want := fmt.Sprintf("elem<%d:%d>", s.gen, p-1)
						if got, ok := elem(rets); !ok || got != want {
							bad(name, n, "gives %s instead of the last element before the checkpoint, %s", short(got), want)
						}
					}
				}
				if name != "Next" && n.read != s.read && name != "SetStream" || n.read > s.read+1 {
					bad(name, n, "reads from the stream out of turn")
				}
				push(n)
			}
		}
	}
	if capped != "" {
		rep.Undecide("%s", capped)
	}
	rep.Count("states", states)
	rep.Count("interpreted steps", steps)
	rep.Floor("sequence", 50)
}

func short(s string) string {
	if len(s) > 60 {
		return "another value"
	}
	return s
}

// accKey identifies a state up to how far the stream has been read.
func accKey(s accState, t types.Type, keep int) string {
	var out []string
	rel := func(k string) string {
		return elemRe.ReplaceAllStringFunc(k, func(m string) string {
			f := elemRe.FindStringSubmatch(m)
			g, i := 0, 0
			fmt.Sscan(f[1], &g)
			fmt.Sscan(f[2], &i)
			if g != s.gen {
				return "elem<gone>"
			}
			d := i - s.pos
			if d < -keep {
				d = -keep
			}
			return fmt.Sprintf("elem<%d>", d)
		})
	}
	for _, l := range leafCells("A", t) {
		v := s.st.Load(Addr{Base: "A", Path: strings.TrimPrefix(l.cell, "A")}, l.t)
		if sl, ok := l.t.Underlying().(*types.Slice); ok {
			n := s.st.Len(v)
			k := "len=" + n.Key()
			if x, ok := v.(SliceOf); ok && x.N >= 0 {
				for i := 0; i < x.N; i++ {
					k += "," + s.st.Load(Addr{Base: x.A.Base, Path: fmt.Sprintf("%s[%d]", x.A.Path, i)}, sl.Elem()).Key()
				}
			} else {
				k += v.Key()
			}
			out = append(out, l.cell+"="+rel(k))
			continue
		}
		out = append(out, l.cell+"="+rel(v.Key()))
	}
	var cp []string
	for _, p := range s.cps {
		cp = append(cp, fmt.Sprint(p-s.pos))
	}
	sort.Strings(out)
	start := s.pos
	if start > 1 {
		start = 1
	}
	return strings.Join(out, ";") + "|" + strings.Join(cp, ",") + "|" + fmt.Sprint(s.read-s.pos, start, s.gen)
}
