package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one abstract result of a function.
type Outcome struct {
	St    *State
	Rets  []Val
	Panic bool
	Pos   token.Pos
	Note  string
}

// Call describes a call to be modelled.
type Call struct {
	Instr  ssa.CallInstruction
	Common *ssa.CallCommon
	Fn     *ssa.Function // resolved callee, nil when unknown
	Method *types.Func   // interface method for unresolved invokes
	Args   []Val         // including receiver first
	FnVal  *Func         // resolved function value (with closure bindings)
	Site   string        // stable identity of the call site in its inlining context
	Frame  *Frame
}

// Name is the callee's full name ("(*pkg.T).M", "pkg.F" or "(pkg.I).M").
func (c *Call) Name() string {
	if c.Fn != nil {
		f := c.Fn
		if f.Origin() != nil {
			f = f.Origin()
		}
		if o := f.Object(); o != nil {
			return o.(*types.Func).FullName()
		}
		return f.String()
	}
	if c.Method != nil {
		return c.Method.FullName()
	}
	if b, ok := c.Common.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

// Hooks customise the interpretation for one rule.
type Hooks struct {
	// Call may model a call; returning ok=false falls through to the default.
	Call func(in *Interp, c *Call, st *State) (outs []Outcome, ok bool)
	// Store observes a store to a heap cell (called before the store).
	Store func(in *Interp, fr *Frame, instr ssa.Instruction, cell string, old, val Val, st *State)
	// Inline says whether a callee with a body should be inlined.
	Inline func(fn *ssa.Function) bool
	// Instr observes every instruction before it is interpreted.
	Instr func(in *Interp, fr *Frame, instr ssa.Instruction, st *State)
	// Branch observes a branch that both ways can be taken, on each of the two states.
	Branch func(in *Interp, fr *Frame, instr ssa.Instruction, cond Val, truth bool, st *State)
	// Block observes the entry of a block (its phis evaluated).
	Block func(in *Interp, fr *Frame, b *ssa.BasicBlock, get func(ssa.Value) Val, st *State)
	Fresh func(site string, t types.Type, c *Call, st *State) Val
}

type Frame struct {
	Fn     *ssa.Function
	ID     string
	Parent *Frame
	depth  int
	defers int
	env    env // at the call being made
	blk    *ssa.BasicBlock
	args   []Val
}

// Abort makes every running interpretation stop at its next step, as if a bound was reached.
var Abort atomic.Bool

type Interp struct {
	Hooks      Hooks
	MaxDepth   int
	MaxSteps   int
	Steps      int
	Capped     bool // a bound was hit: the result is incomplete
	CapWhy     string
	Funcs      map[*ssa.Function]bool // functions interpreted
	globals    map[*ssa.Global]Val
	Prog       *ssa.Program
	GlobalInit func(*ssa.Global) (Val, bool)
	MaxRec     int    // how many active frames of one function may be inlined again
	ForkLookup bool   // a lookup of an unknown key in a known map forks into its entries
	MaxConst   int64  // >0: loop variables beyond this bound collapse to one symbol (default 4096)
	Collect    bool   // what nothing refers to any more is forgotten where paths meet
	Runes      bool   // texts are tracked character by character
	MapOrder   int    // 1: known maps are iterated backwards
	NoLimit    bool   // loops run their course
	Chans      bool   // channels are queues and a goroutine runs where it is started (producers only)
	Endless    string // a function that called itself with the same arguments until the bound
	Deep       bool   // a call was too deep to be followed
	LoopBound  int    // >0: maximum number of times a block may repeat on one path
}

func New(prog *ssa.Program, h Hooks) *Interp {
	return &Interp{Prog: prog, Hooks: h, MaxDepth: 24, MaxSteps: 400000, Funcs: map[*ssa.Function]bool{}}
}

type env map[ssa.Value]Val

func (e env) clone() env {
	n := make(env, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

type deferred struct {
	call *ssa.Defer
	args []Val
	fnv  Val
}

type work struct {
	b, pred *ssa.BasicBlock
	i       int
	e       env
	st      *State
	dfr     []deferred
	visits  map[int]int
}

// ZeroVal is the zero value of t.
func ZeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return Const{constant.MakeInt64(0)}
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return Nil{}
		}
	case *types.Struct:
		s := Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.Fields = append(s.Fields, ZeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 16 {
			s := Struct{T: t}
			for i := int64(0); i < u.Len(); i++ {
				s.Fields = append(s.Fields, ZeroVal(u.Elem()))
			}
			return s
		}
		return Sym{ID: "zeroarr<" + t.String() + ">", T: t}
	case *types.TypeParam:
		return Sym{ID: "zero<" + t.String() + ">", T: t}
	}
	if _, ok := t.(*types.TypeParam); ok {
		return Sym{ID: "zero<" + t.String() + ">", T: t}
	}
	return Nil{}
}

// IsZero reports whether v is certainly the zero value.
func (s *State) IsZero(v Val) bool {
	v = s.Resolve(v)
	switch v := v.(type) {
	case Nil:
		return true
	case Const:
		switch v.V.Kind() {
		case constant.Bool:
			return !constant.BoolVal(v.V)
		case constant.String:
			return constant.StringVal(v.V) == ""
		default:
			return constant.Sign(v.V) == 0
		}
	case Struct:
		for _, f := range v.Fields {
			if !s.IsZero(f) {
				return false
			}
		}
		return true
	case Sym:
		return strings.HasPrefix(v.ID, "zero<") || strings.HasPrefix(v.ID, "zeroarr<")
	}
	return false
}

// FreshID returns a symbol id for the site, distinguishing the first MaxInst instances on a path.
func (st *State) FreshID(site string) string {
	k := "n:" + site
	max := st.MaxInst
	if max == 0 {
		max = 2
	}
	n := 0
	fmt.Sscan(st.Ver[k], &n)
	if n < max {
		n++
		st.Ver[k] = fmt.Sprint(n)
		if n == 1 {
			return site
		}
		return fmt.Sprintf("%s'%d", site, n)
	}
	id := site + "'n"
	st.ForgetSym(id)
	return id
}

func (in *Interp) fresh(st *State, site string, t types.Type) Val {
	if t == nil {
		return Sym{ID: st.FreshID(site)}
	}
	if tt, ok := t.(*types.Tuple); ok {
		id := st.FreshID(site)
		vs := make([]Val, tt.Len())
		for i := range vs {
			st.ForgetSym(fmt.Sprintf("%s.%d", id, i))
			vs[i] = Sym{ID: fmt.Sprintf("%s.%d", id, i), T: tt.At(i).Type()}
		}
		return Tuple{vs}
	}
	return Sym{ID: st.FreshID(site), T: t}
}

func isZeroBase(st *State, base string) bool {
	_, ok := st.Heap["!zero:"+base]
	return ok
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// Load reads cell as type t.
func (st *State) Load(a Addr, t types.Type) Val {
	cell := a.Cell()
	if v, ok := st.Heap[cell]; ok {
		return st.Resolve(v)
	}
	if s := structOf(t); s != nil && s.NumFields() > 0 {
		out := Struct{T: t}
		for i := 0; i < s.NumFields(); i++ {
			out.Fields = append(out.Fields, st.Load(Addr{a.Base, a.Path + "." + s.Field(i).Name()}, s.Field(i).Type()))
		}
		return out
	}
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() > 0 && at.Len() <= 16 && !isZeroBase(st, a.Base) {
		for k := range st.Heap {
			if strings.HasPrefix(k, cell+"[") {
				out := Struct{T: t}
				for i := int64(0); i < at.Len(); i++ {
					out.Fields = append(out.Fields, st.Load(Addr{a.Base, fmt.Sprintf("%s[%d]", a.Path, i)}, at.Elem()))
				}
				return out
			}
		}
	}
	if isZeroBase(st, a.Base) && st.version(cell) == "" {
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 16 {
			out := Struct{T: t}
			for i := int64(0); i < at.Len(); i++ {
				out.Fields = append(out.Fields, st.Load(Addr{a.Base, fmt.Sprintf("%s[%d]", a.Path, i)}, at.Elem()))
			}
			return out
		}
		// a store through an unknown index makes elements unknown
		return ZeroVal(t)
	}
	v := Sym{ID: "cell<" + cell + ">@" + st.version(cell), T: t}
	return st.Resolve(v)
}

// StoreCell writes v to a.
func (st *State) StoreCell(a Addr, v Val) {
	cell := a.Cell()
	if mayNest(v) {
		for k := range st.Heap {
			if len(k) > len(cell) && (k[len(cell)] == '.' || k[len(cell)] == '[') && k[:len(cell)] == cell {
				delete(st.Heap, k)
			}
		}
	}
	if sv, ok := v.(Struct); ok {
		if s := structOf(sv.T); s != nil && s.NumFields() == len(sv.Fields) && s.NumFields() > 0 {
			delete(st.Heap, cell)
			for i := range sv.Fields {
				st.StoreCell(Addr{a.Base, a.Path + "." + s.Field(i).Name()}, sv.Fields[i])
			}
			return
		}
		if at, ok := sv.T.Underlying().(*types.Array); ok && int(at.Len()) == len(sv.Fields) {
			delete(st.Heap, cell)
			for i := range sv.Fields {
				st.StoreCell(Addr{a.Base, fmt.Sprintf("%s[%d]", a.Path, i)}, sv.Fields[i])
			}
			return
		}
	}
	st.Heap[cell] = v
	if s, ok := v.(Sym); ok && s.T != nil {
		if ss := structOf(s.T); ss != nil && ss.NumFields() > 0 {
			// opaque struct: explode into derived symbols
			delete(st.Heap, cell)
			for i := 0; i < ss.NumFields(); i++ {
				st.StoreCell(Addr{a.Base, a.Path + "." + ss.Field(i).Name()}, st.FieldOf(v, i, s.T))
			}
		}
	}
}

// FieldOf selects field i of a struct value.
func (st *State) FieldOf(v Val, i int, t types.Type) Val {
	switch v := v.(type) {
	case Struct:
		if i < len(v.Fields) {
			return st.Resolve(v.Fields[i])
		}
	case Sym:
		if s := structOf(t); s != nil {
			return st.Resolve(Sym{ID: "fld<" + v.ID + ">." + s.Field(i).Name(), T: s.Field(i).Type()})
		}
	}
	return Sym{ID: "fld<" + v.Key() + fmt.Sprintf(">.%d", i)}
}

func (in *Interp) addrOf(v Val) (Addr, bool) {
	switch v := v.(type) {
	case Addr:
		return v, true
	case Sym:
		return Addr{Base: "*" + v.ID}, true
	}
	return Addr{}, false
}

// Run interprets fn with args from st.
func (in *Interp) Run(fn *ssa.Function, args []Val, st *State) []Outcome {
	return in.exec(fn, args, nil, st, nil, fn.String())
}

// RunAs is Run with an explicit identity for the frame, so that symbols created by separate
// runs on one state stay distinct.
func (in *Interp) RunAs(id string, fn *ssa.Function, args []Val, st *State) []Outcome {
	return in.exec(fn, args, nil, st, nil, id)
}

// RunClosure is RunAs for a function value.
func (in *Interp) RunClosure(id string, f Func, args []Val, st *State) []Outcome {
	return in.exec(f.Fn, args, f.Bind, st, nil, id)
}

func (in *Interp) cap(why string) {
	in.Capped = true
	if in.CapWhy == "" {
		in.CapWhy = why
	}
}

func (in *Interp) exec(fn *ssa.Function, args, bind []Val, st *State, parent *Frame, id string) []Outcome {
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	fr := &Frame{Fn: fn, ID: id, Parent: parent, depth: depth, args: args}
	in.Funcs[fn] = true
	e := env{}
	for i, p := range fn.Params {
		if i < len(args) {
			e[p] = args[i]
		} else {
			e[p] = Sym{ID: "param<" + id + ">" + p.Name(), T: p.Type()}
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			e[f] = bind[i]
		} else {
			e[f] = Sym{ID: "free<" + id + ">" + f.Name(), T: f.Type()}
		}
	}
	if len(fn.Blocks) == 0 {
		return []Outcome{{St: st, Rets: in.unknownRets(st, id, fn.Signature)}}
	}
	seen := map[string]bool{}
	outSeen := map[string]bool{}
	var outs []Outcome
	okey := func(o Outcome) string {
		return fmt.Sprint(o.Panic, "|", Tuple{o.Rets}.Key(), "|", o.St.Key())
	}
	var locals []string
	if parent != nil {
		locals = localBases(fr)
	}
	addOut := func(o Outcome) {
		if len(locals) > 0 {
			o.St.dropLocals(locals)
		}
		if len(outs) == 0 {
			outs = append(outs, o)
			return
		}
		if len(outSeen) == 0 {
			outSeen[okey(outs[0])] = true
		}
		k := okey(o)
		if !outSeen[k] {
			outSeen[k] = true
			outs = append(outs, o)
		}
	}
	stack := []work{{b: fn.Blocks[0], e: e, st: st}}
	for len(stack) > 0 {
		w := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		in.Steps++
		if in.Steps > in.MaxSteps {
			in.cap("step bound reached in " + fn.String())
			return outs
		}
		if Abort.Load() {
			in.cap("the time or memory limit of the analysis was reached")
			return outs
		}
		if w.i == 0 {
			// phis first
			if in.LoopBound > 0 {
				nv := map[int]int{}
				for k, v := range w.visits {
					nv[k] = v
				}
				nv[w.b.Index]++
				if nv[w.b.Index] > in.LoopBound {
					continue
				}
				w.visits = nv
			}
			w.e = w.e.clone()
			var pv []Val
			var phis []*ssa.Phi
			for _, ins := range w.b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for pi, p := range w.b.Preds {
					if p == w.pred {
						pv = append(pv, in.val(w.e, phi.Edges[pi], w.st, fr))
						phis = append(phis, phi)
						break
					}
				}
			}
			for i, phi := range phis {
				w.e[phi] = in.limit(pv[i], phi, fr)
			}
			if in.Hooks.Block != nil {
				in.Hooks.Block(in, fr, w.b, func(v ssa.Value) Val { return in.val(w.e, v, w.st, fr) }, w.st)
			}
			// visited check
			if len(w.b.Preds) > 1 && !in.NoLimit {
				if in.Collect {
					in.collect(fr, w)
				}
				k := in.workKey(w)
				if seen[k] {
					continue
				}
				seen[k] = true
			}
		}
		in.runBlock(fr, w, &stack, addOut)
	}
	return outs
}

// localBases: the cells of the frame's variables whose address does not leave it.
func localBases(fr *Frame) []string {
	var out []string
	for _, l := range fr.Fn.Locals {
		if l.Block() == nil {
			continue
		}
		for i, ins := range l.Block().Instrs {
			if ins == ssa.Instruction(l) {
				out = append(out, fmt.Sprintf("a:%s/%d.%d", fr.ID, l.Block().Index, i))
			}
		}
	}
	return out
}

// dropLocals forgets variables of a frame that has returned.
func (st *State) dropLocals(bases []string) {
	of := func(k string) bool {
		for _, b := range bases {
			if strings.HasPrefix(k, b) && (len(k) == len(b) || strings.IndexByte(".['", k[len(b)]) >= 0) {
				return true
			}
		}
		return false
	}
	for k := range st.Heap {
		if of(strings.TrimPrefix(k, "!zero:")) {
			delete(st.Heap, k)
		}
	}
	for k := range st.Ver {
		if of(strings.TrimPrefix(k, "n:")) {
			delete(st.Ver, k)
		}
	}
}

// limit keeps symbols finite: structural ids that grow too long collapse to a per-phi symbol.
func (in *Interp) limit(v Val, phi *ssa.Phi, fr *Frame) Val {
	max := int64(4096)
	if in.NoLimit {
		return v
	}
	if in.MaxConst > 0 {
		max = in.MaxConst
	}
	if s, ok := v.(Sym); ok && in.MaxConst > 0 {
		if _, k := Linear(s); (k > max || k < -max) && inLoop(phi.Block()) {
			return Sym{ID: "phi<" + fr.ID + ":" + phi.Name() + ">", T: phi.Type()}
		}
	}
	if ap, ok := v.(Append); ok && in.MaxConst > 0 && inLoop(phi.Block()) {
		n := 0
		for {
			n += len(ap.Elems)
			x, ok := ap.X.(Append)
			if !ok {
				break
			}
			ap = x
		}
		if n > 1 {
			return Sym{ID: "phi<" + fr.ID + ":" + phi.Name() + ">", T: phi.Type()}
		}
	}
	if s, ok := v.(Sym); ok && len(s.ID) > 400 {
		return Sym{ID: "phi<" + fr.ID + ":" + phi.Name() + ">", T: phi.Type()}
	}
	if c, ok := v.(Const); ok && c.V.Kind() == constant.Int {
		if i, exact := constant.Int64Val(c.V); exact && (i > max || i < -max) && inLoop(phi.Block()) {
			return Sym{ID: "phi<" + fr.ID + ":" + phi.Name() + ">", T: phi.Type()}
		}
	}
	return v
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var q []*ssa.BasicBlock
	q = append(q, b.Succs...)
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		q = append(q, x.Succs...)
	}
	return false
}

func (in *Interp) workKey(w work) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|", w.b.Index)
	var ks []string
	for k, v := range w.e {
		if !liveOut(k, w.b) {
			continue
		}
		ks = append(ks, k.Name()+"="+v.Key())
	}
	sortStrings(ks)
	sb.WriteString(strings.Join(ks, ","))
	sb.WriteString("|")
	sb.WriteString(w.st.Key())
	for _, d := range w.dfr {
		fmt.Fprintf(&sb, "|d%p", d.call)
	}
	return sb.String()
}

var madeAt = regexp.MustCompile(`^(?:(?:ap|a|range):.*/\d+\.\d+|runes|part)(?:'(?:\d+|n))?`)

// collect forgets objects nothing refers to, and that they were ever made.
func (in *Interp) collect(fr *Frame, w work) {
	own := func(k string) (string, bool) {
		k = strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(k, "!zero:"), "!sb:&"), "!str:"), "!rng:")
		for _, p := range []string{"ap:", "a:", "runes", "part", "range:"} {
			if strings.HasPrefix(k, p) {
				if m := madeAt.FindString(k); m != "" {
					return m, true
				}
				return "", false
			}
		}
		return "", false
	}
	var live []string
	for k, v := range w.e {
		if liveOut(k, w.b) {
			live = append(live, v.Key())
		}
	}
	for p := fr.Parent; p != nil; p = p.Parent {
		for k, v := range p.env {
			if liveOut(k, p.blk) {
				live = append(live, v.Key())
			}
		}
	}
	for _, d := range w.dfr {
		for _, a := range d.args {
			live = append(live, a.Key())
		}
	}
	cand := map[string][]string{} // base -> cells
	for k, v := range w.st.Heap {
		if b, ok := own(k); ok {
			cand[b] = append(cand[b], k)
		} else {
			live = append(live, v.Key())
		}
	}
	for len(live) > 0 && len(cand) > 0 {
		l := live[len(live)-1]
		live = live[:len(live)-1]
		for b, cells := range cand {
			if strings.Contains(l, b) {
				for _, c := range cells {
					live = append(live, w.st.Heap[c].Key())
				}
				delete(cand, b)
			}
		}
	}
	for _, cells := range cand {
		for _, c := range cells {
			delete(w.st.Heap, c)
		}
	}
	var all strings.Builder
	for k, v := range w.st.Heap {
		all.WriteString(k)
		all.WriteString(v.Key())
	}
	for k, v := range w.e {
		if liveOut(k, w.b) {
			all.WriteString(v.Key())
		}
	}
	for p := fr.Parent; p != nil; p = p.Parent {
		for k, v := range p.env {
			if liveOut(k, p.blk) {
				all.WriteString(v.Key())
			}
		}
	}
	text := all.String()
	for k := range w.st.Ver {
		if id := strings.TrimPrefix(k, "n:"); id != k && !strings.Contains(text, id) {
			delete(w.st.Ver, k)
		}
	}
	for k := range w.st.Facts {
		if !strings.HasPrefix(k, Kept) && !strings.Contains(text, k) {
			delete(w.st.Facts, k)
		}
	}
}

// liveOut: keep a value in the key only if some referrer can still be reached from b.
func liveOut(v ssa.Value, b *ssa.BasicBlock) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		rb := r.Block()
		if rb == nil {
			continue
		}
		if reach(b, rb) {
			return true
		}
	}
	return false
}

var reachCache sync.Map // *ssa.BasicBlock -> map[*ssa.BasicBlock]bool

func reach(a, b *ssa.BasicBlock) bool {
	v, ok := reachCache.Load(a)
	m, _ := v.(map[*ssa.BasicBlock]bool)
	if !ok {
		m = map[*ssa.BasicBlock]bool{a: true}
		q := []*ssa.BasicBlock{a}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for _, s := range x.Succs {
				if !m[s] {
					m[s] = true
					q = append(q, s)
				}
			}
		}
		reachCache.Store(a, m)
	}
	return m[b]
}

func (in *Interp) unknownRets(st *State, site string, sig *types.Signature) []Val {
	var rs []Val
	id := st.FreshID("ret:" + site)
	for i := 0; i < sig.Results().Len(); i++ {
		rid := fmt.Sprintf("%s.%d", id, i)
		st.ForgetSym(rid)
		rs = append(rs, Sym{ID: rid, T: sig.Results().At(i).Type()})
	}
	return rs
}

func (in *Interp) val(e env, v ssa.Value, st *State, fr *Frame) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				return ZeroVal(v.Type())
			}
			if _, ok := v.Type().Underlying().(*types.Array); ok {
				return ZeroVal(v.Type())
			}
			if _, ok := v.Type().(*types.TypeParam); ok {
				return ZeroVal(v.Type())
			}
			return Nil{}
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.Value.Kind() == constant.Float {
			return Const{constant.ToInt(v.Value)}
		}
		return Const{v.Value}
	case *ssa.Function:
		return Func{Fn: v}
	case *ssa.Global:
		return Addr{Base: "g:" + v.String()}
	case *ssa.Builtin:
		return Sym{ID: "builtin." + v.Name()}
	}
	if x, ok := e[v]; ok {
		return st.Resolve(x)
	}
	return Sym{ID: "undef<" + fr.ID + ":" + v.Name() + ">", T: v.Type()}
}

func (in *Interp) runBlock(fr *Frame, w work, stack *[]work, addOut func(Outcome)) {
	b := w.b
	for i := w.i; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		st, e := w.st, w.e
		if in.Hooks.Instr != nil {
			if _, ok := ins.(*ssa.DebugRef); !ok {
				in.Hooks.Instr(in, fr, ins, st)
			}
		}
		get := func(v ssa.Value) Val { return in.val(e, v, st, fr) }
		site := func() string {
			return fmt.Sprintf("%s/%d.%d", fr.ID, b.Index, i)
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			base := st.FreshID("a:" + site())
			if !in.NoLimit {
				within := func(k string) bool {
					return strings.HasPrefix(k, base) && (len(k) == len(base) || k[len(base)] == '.' || k[len(base)] == '[')
				}
				for k := range st.Heap {
					if within(k) {
						delete(st.Heap, k)
					}
				}
				for k := range st.Ver {
					if within(k) {
						delete(st.Ver, k)
					}
				}
			}
			st.Heap["!zero:"+base] = Nil{}
			e[ins] = Addr{Base: base}
		case *ssa.UnOp:
			x := get(ins.X)
			switch ins.Op {
			case token.ARROW:
				id, q, known := st.ChanQueue(x)
				if !in.Chans || !known || len(q) == 0 && st.TS["closed:"+id] == "" {
					if in.Chans {
						in.Capped, in.CapWhy = true, "a receive with nothing sent so far"
					}
					e[ins] = in.fresh(st, site(), ins.Type())
					break
				}
				var v Val
				ok := len(q) > 0
				if ok {
					v = st.Resolve(q[0])
					st.Heap["!chan:"+id] = Struct{Fields: append([]Val{}, q[1:]...)}
				} else {
					v = ZeroVal(ins.X.Type().Underlying().(*types.Chan).Elem())
				}
				if ins.CommaOk {
					v = Tuple{[]Val{v, Bool(ok)}}
				}
				e[ins] = v
			case token.MUL:
				if g, ok := ins.X.(*ssa.Global); ok && in.GlobalInit != nil {
					if _, has := st.Heap["g:"+g.String()]; !has {
						if v, ok := in.GlobalInit(g); ok {
							e[ins] = v
							break
						}
					}
				}
				if a, ok := in.addrOf(x); ok {
					e[ins] = st.Load(a, ins.Type())
				} else if _, isNil := x.(Nil); isNil {
					addOut(Outcome{St: st, Panic: true, Pos: ins.Pos(), Note: "nil dereference"})
					return
				} else {
					e[ins] = Sym{ID: "load<" + x.Key() + ">", T: ins.Type()}
				}
			case token.NOT:
				switch c := x.(type) {
				case Const:
					e[ins] = Bool(!constant.BoolVal(c.V))
				case Cmp:
					c.Neg = !c.Neg
					e[ins] = c
				default:
					e[ins] = Cmp{Op: "==", X: x, Y: Bool(false)}
				}
			case token.SUB:
				if c, ok := x.(Const); ok {
					e[ins] = Const{constant.UnaryOp(token.SUB, c.V, 0)}
				} else {
					e[ins] = Sym{ID: "neg<" + x.Key() + ">", T: ins.Type()}
				}
			case token.XOR:
				c, ok := x.(Const)
				b, isB := ins.Type().Underlying().(*types.Basic)
				if ok && isB && c.V.Kind() == constant.Int && intBits(b) < 64 {
					if i, exact := constant.Int64Val(c.V); exact {
						e[ins] = Int(truncInt(^i, b))
						break
					}
				}
				e[ins] = in.fresh(st, site(), ins.Type())
			default:
				e[ins] = in.fresh(st, site(), ins.Type())
			}
		case *ssa.BinOp:
			e[ins] = in.binop(st, ins, get(ins.X), get(ins.Y))
		case *ssa.ChangeType:
			e[ins] = get(ins.X)
		case *ssa.ChangeInterface:
			e[ins] = get(ins.X)
		case *ssa.Convert:
			e[ins] = in.convert(st, ins.Type(), ins.X.Type(), get(ins.X))
		case *ssa.MultiConvert:
			e[ins] = Sym{ID: "conv<" + get(ins.X).Key() + ">" + ins.Type().String(), T: ins.Type()}
		case *ssa.MakeInterface:
			x := get(ins.X)
			e[ins] = Iface{T: ins.X.Type(), V: x}
		case *ssa.TypeAssert:
			in.typeAssert(fr, w, ins, get(ins.X), i, stack, addOut)
			return
		case *ssa.FieldAddr:
			x := get(ins.X)
			if _, isNil := x.(Nil); isNil {
				addOut(Outcome{St: st, Panic: true, Pos: ins.Pos(), Note: "nil dereference"})
				return
			}
			a, ok := in.addrOf(x)
			if !ok {
				a = Addr{Base: "*" + x.Key()}
			}
			s := structOf(ins.X.Type().Underlying().(*types.Pointer).Elem())
			a.Path += "." + s.Field(ins.Field).Name()
			e[ins] = a
		case *ssa.Field:
			e[ins] = st.FieldOf(get(ins.X), ins.Field, ins.X.Type())
		case *ssa.IndexAddr:
			x, idx := get(ins.X), get(ins.Index)
			e[ins] = in.indexAddr(x, idx)
		case *ssa.Index:
			x, idx := get(ins.X), get(ins.Index)
			if c, ok := idx.(Const); ok {
				if s, ok := x.(Struct); ok {
					if n, exact := constant.Int64Val(c.V); exact && int(n) < len(s.Fields) {
						e[ins] = s.Fields[n]
						break
					}
				}
			}
			if v, ok := in.charAt(st, x, idx); ok {
				e[ins] = v
				break
			}
			e[ins] = st.Resolve(Sym{ID: "idx<" + x.Key() + "," + idx.Key() + ">", T: ins.Type()})
		case *ssa.Lookup:
			key := get(ins.Index)
			if _, isStr := ins.X.Type().Underlying().(*types.Basic); isStr {
				if v, ok := in.charAt(st, get(ins.X), key); ok {
					e[ins] = v
					break
				}
			}
			if c, ok := st.Known(key); ok {
				key = c
			}
			if in.ForkLookup && in.forkLookup(w, ins, get(ins.X), key, i, stack, fr) {
				return
			}
			if v, found, known := st.mapLoad(get(ins.X), key); known {
				if !found {
					v = ZeroVal(ins.X.Type().Underlying().(*types.Map).Elem())
				}
				if ins.CommaOk {
					e[ins] = Tuple{[]Val{v, Bool(found)}}
				} else {
					e[ins] = v
				}
				break
			}
			if ins.CommaOk {
				e[ins] = in.fresh(st, site(), ins.Type())
			} else {
				x := get(ins.X)
				if _, isStr := ins.X.Type().Underlying().(*types.Basic); isStr {
					e[ins] = st.Resolve(Sym{ID: "idx<" + x.Key() + "," + get(ins.Index).Key() + ">", T: ins.Type()})
				} else {
					e[ins] = in.fresh(st, site(), ins.Type())
				}
			}
		case *ssa.Slice:
			e[ins] = in.slice(st, ins, get)
		case *ssa.MakeSlice:
			v := Sym{ID: st.FreshID("make:" + site()), T: ins.Type()}
			st.SetNil(v, 2)
			l := get(ins.Len)
			if c, ok := l.(Const); ok {
				if n, exact := constant.Int64Val(c.V); exact && (n <= 8 && st.MaxInst > 2 || in.Runes && n <= int64(st.MaxInst)) {
					st.Heap["!zero:"+v.ID] = Nil{}
					e[ins] = SliceOf{A: Addr{Base: v.ID}, N: int(n)}
					break
				}
				st.SetEq(Sym{ID: "len<" + v.ID + ">"}, c.V)
			}
			e[ins] = v
		case *ssa.MakeMap, *ssa.MakeChan:
			v := Sym{ID: st.FreshID("make:" + site()), T: ins.(ssa.Value).Type()}
			st.mapClear(v.ID)
			st.Heap["!map:"+v.ID] = Nil{}
			if _, isChan := ins.(*ssa.MakeChan); isChan && in.Chans {
				st.Heap["!chan:"+v.ID] = Struct{}
				delete(st.TS, "closed:"+v.ID)
				if k, ok := st.Known(get(ins.(*ssa.MakeChan).Size)); ok {
					st.TS["cap:"+v.ID] = k.V.ExactString()
				}
			}
			st.SetNil(v, 2)
			e[ins.(ssa.Value)] = v
		case *ssa.MakeClosure:
			var bs []Val
			for _, x := range ins.Bindings {
				bs = append(bs, get(x))
			}
			e[ins] = Func{Fn: ins.Fn.(*ssa.Function), Bind: bs}
		case *ssa.Extract:
			t := get(ins.Tuple)
			if tt, ok := t.(Tuple); ok && ins.Index < len(tt.Vs) {
				e[ins] = st.Resolve(tt.Vs[ins.Index])
			} else {
				e[ins] = st.Resolve(Sym{ID: fmt.Sprintf("ext<%s>.%d", t.Key(), ins.Index), T: ins.Type()})
			}
		case *ssa.Store:
			av, v := get(ins.Addr), get(ins.Val)
			a, ok := in.addrOf(av)
			if !ok {
				break
			}
			var old Val
			if in.Hooks.Store != nil {
				old = st.Load(a, ins.Val.Type())
				in.Hooks.Store(in, fr, ins, a.Cell(), old, v, st)
			}
			st.StoreCell(a, v)
		case *ssa.MapUpdate:
			st.mapStore(get(ins.Map), get(ins.Key), get(ins.Value))
			if in.Hooks.Store != nil {
				in.Hooks.Store(in, fr, ins, "map:"+get(ins.Map).Key(), nil, get(ins.Value), st)
			}
		case *ssa.Range:
			rid := st.FreshID("range:" + site())
			e[ins] = Sym{ID: rid, T: ins.Type()}
			if b, ok := ins.X.Type().Underlying().(*types.Basic); ok && in.Runes && b.Info()&types.IsString != 0 {
				if rs, ok := st.RunesOf(get(ins.X)); ok {
					st.Heap["!str:"+rid] = Struct{Fields: append([]Val{Int(0)}, rs...)}
				}
			}
			if _, isMap := ins.X.Type().Underlying().(*types.Map); isMap {
				if ks, known := st.MapKeys(get(ins.X)); known {
					if in.MapOrder == 1 {
						slices.Reverse(ks)
					}
					st.Heap["!rng:"+rid] = Struct{Fields: append([]Val{get(ins.X)}, ks...)}
				}
			}
		case *ssa.Next:
			if it, ok := get(ins.Iter).(Sym); ok {
				if r, ok := st.Heap["!str:"+it.ID].(Struct); ok {
					if len(r.Fields) == 1 {
						e[ins] = Tuple{[]Val{Bool(false), Int(0), Int(0)}}
						break
					}
					off := r.Fields[0]
					e[ins] = Tuple{[]Val{Bool(true), off, st.Resolve(r.Fields[1])}}
					var next Val = Sym{ID: st.FreshID("offset:" + it.ID), T: types.Typ[types.Int]}
					if oc, ok := off.(Const); ok {
						if rc, ok := st.Resolve(r.Fields[1]).(Const); ok {
							o, _ := constant.Int64Val(oc.V)
							c, _ := constant.Int64Val(rc.V)
							next = Int(o + int64(len(string(rune(c)))))
						}
					}
					st.Heap["!str:"+it.ID] = Struct{Fields: append([]Val{next}, r.Fields[2:]...)}
					break
				}
				if r, ok := st.Heap["!rng:"+it.ID].(Struct); ok {
					if len(r.Fields) == 1 {
						tt := ins.Type().(*types.Tuple)
						e[ins] = Tuple{[]Val{Bool(false), ZeroVal(tt.At(1).Type()), ZeroVal(tt.At(2).Type())}}
						break
					}
					v, found, known := st.mapLoad(r.Fields[0], r.Fields[1])
					if known && found {
						e[ins] = Tuple{[]Val{Bool(true), st.Resolve(r.Fields[1]), v}}
						st.Heap["!rng:"+it.ID] = Struct{Fields: append([]Val{r.Fields[0]}, r.Fields[2:]...)}
						break
					}
					delete(st.Heap, "!rng:"+it.ID)
				}
			}
			e[ins] = in.fresh(st, site(), ins.Type())
		case *ssa.Select:
			if in.Chans {
				ready := 0
				put := func(s *State, idx int, ok bool, recv Val) {
					rets := []Val{Int(int64(idx)), Bool(ok)}
					for k, c := range ins.States {
						if c.Dir == types.RecvOnly {
							var v Val = ZeroVal(c.Chan.Type().Underlying().(*types.Chan).Elem())
							if k == idx && recv != nil {
								v = recv
							}
							rets = append(rets, v)
						}
					}
					nw := w
					nw.st = s
					nw.e = e.clone()
					nw.e[ins] = Tuple{rets}
					nw.i = i + 1
					*stack = append(*stack, nw)
				}
				if !ins.Blocking {
					put(st.Clone(), -1, false, nil)
					ready++
				}
				for k, c := range ins.States {
					id, q, known := st.ChanQueue(get(c.Chan))
					if !known || c.Dir != types.RecvOnly {
						in.Capped, in.CapWhy = true, "a select on channels that are not known"
						continue
					}
					if len(q) == 0 && st.TS["closed:"+id] == "" {
						continue
					}
					ready++
					s := st.Clone()
					if len(q) > 0 {
						s.Heap["!chan:"+id] = Struct{Fields: append([]Val{}, q[1:]...)}
						put(s, k, true, s.Resolve(q[0]))
					} else {
						put(s, k, false, nil)
					}
				}
				if ready == 0 {
					in.Capped, in.CapWhy = true, "a select with nothing sent so far"
				}
				return
			}
			e[ins] = in.fresh(st, site(), ins.Type())
		case *ssa.Send:
			if !in.Chans {
				break
			}
			id, q, known := st.ChanQueue(get(ins.Chan))
			if !known {
				in.Capped, in.CapWhy = true, "a send on an unknown channel"
				break
			}
			if st.TS["closed:"+id] != "" {
				addOut(Outcome{St: st, Panic: true, Pos: ins.Pos(), Note: "send on a closed channel"})
				return
			}
			st.Heap["!chan:"+id] = Struct{Fields: append(append([]Val{}, q...), get(ins.X))}
		case *ssa.SliceToArrayPointer:
			e[ins] = in.fresh(st, site(), ins.Type())
		case *ssa.Go:
			if in.Chans {
				c := in.mkCall(fr, ins, &ins.Call, e, st, site())
				fr.env, fr.blk = e, w.b
				for _, o := range in.call(fr, c, st, ins.Call.Signature()) {
					if o.Panic {
						addOut(o)
						continue
					}
					nw := w
					nw.st = o.St
					nw.e = e.clone()
					nw.i = i + 1
					*stack = append(*stack, nw)
				}
				return
			}
			if in.Hooks.Call != nil {
				c := in.mkCall(fr, ins, &ins.Call, e, st, site())
				in.Hooks.Call(in, c, st)
			}
		case *ssa.Defer:
			c := in.mkCall(fr, ins, &ins.Call, e, st, site())
			w.dfr = append(append([]deferred(nil), w.dfr...), deferred{call: ins, args: c.Args, fnv: in.calleeVal(e, &ins.Call, st, fr)})
		case *ssa.RunDefers:
			// run deferred calls in reverse, forking on outcomes
			states := []*State{st}
			for d := len(w.dfr) - 1; d >= 0; d-- {
				var next []*State
				for _, s := range states {
					c := &Call{Instr: w.dfr[d].call, Common: &w.dfr[d].call.Call, Args: w.dfr[d].args, Site: fmt.Sprintf("%s/defer%d", fr.ID, d), Frame: fr}
					in.resolve(c, w.dfr[d].fnv)
					for _, o := range in.call(fr, c, s, c.Common.Signature()) {
						next = append(next, o.St)
					}
				}
				states = next
			}
			for _, s := range states {
				nw := w
				nw.st = s
				nw.e = e.clone()
				nw.i = i + 1
				nw.dfr = nil
				*stack = append(*stack, nw)
			}
			return
		case *ssa.Call:
			c := in.mkCall(fr, ins, &ins.Call, e, st, site())
			fr.env, fr.blk = e, w.b
			outs := in.call(fr, c, st, ins.Call.Signature())
			if len(outs) == 1 && !outs[0].Panic {
				w.st = outs[0].St
				e[ins] = retVal(outs[0].Rets, ins.Type())
				continue
			}
			for k := range outs {
				o := outs[len(outs)-1-k]
				if o.Panic {
					addOut(o)
					continue
				}
				nw := w
				nw.st = o.St
				nw.e = e.clone()
				nw.e[ins] = retVal(o.Rets, ins.Type())
				nw.i = i + 1
				*stack = append(*stack, nw)
			}
			return
		case *ssa.Panic:
			addOut(Outcome{St: st, Panic: true, Pos: ins.Pos(), Note: "panic"})
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range ins.Results {
				rs = append(rs, get(r))
			}
			addOut(Outcome{St: st, Rets: rs, Pos: ins.Pos()})
			return
		case *ssa.Jump:
			*stack = append(*stack, work{b: b.Succs[0], pred: b, e: e, st: st, dfr: w.dfr, visits: w.visits})
			return
		case *ssa.If:
			cond := get(ins.Cond)
			if c, ok := cond.(Const); ok && c.V.Kind() == constant.Bool {
				succ := b.Succs[1]
				if constant.BoolVal(c.V) {
					succ = b.Succs[0]
				}
				*stack = append(*stack, work{b: succ, pred: b, e: e, st: st, dfr: w.dfr, visits: w.visits})
				return
			}
			t, f := st.Clone(), st
			tOK, fOK := t.Assume(cond, true), f.Assume(cond, false)
			if tOK && fOK && in.Hooks.Branch != nil {
				in.Hooks.Branch(in, fr, ins, cond, true, t)
				in.Hooks.Branch(in, fr, ins, cond, false, f)
			}
			if fOK {
				*stack = append(*stack, work{b: b.Succs[1], pred: b, e: e, st: f, dfr: w.dfr, visits: w.visits})
			}
			if tOK {
				*stack = append(*stack, work{b: b.Succs[0], pred: b, e: e.clone(), st: t, dfr: w.dfr, visits: w.visits})
			}
			return
		default:
			if v, ok := ins.(ssa.Value); ok {
				e[v] = in.fresh(st, site(), v.Type())
			}
		}
	}
}

func retVal(rs []Val, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return Tuple{}
		}
		return Tuple{rs}
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return Tuple{rs}
}

func (in *Interp) indexAddr(x, idx Val) Val {
	var base Addr
	switch x := x.(type) {
	case Addr:
		base = x
	case SliceOf:
		base = x.A
	case Sym:
		base = Addr{Base: "*" + x.ID}
	default:
		base = Addr{Base: "*<" + x.Key() + ">"}
	}
	k := idx.Key()
	if c, ok := idx.(Const); ok {
		k = c.V.ExactString()
	}
	return Addr{base.Base, base.Path + "[" + k + "]"}
}

func (in *Interp) slice(st *State, ins *ssa.Slice, get func(ssa.Value) Val) Val {
	x := get(ins.X)
	var lo, hi Val
	if ins.Low != nil {
		lo = get(ins.Low)
	}
	if ins.High != nil {
		hi = get(ins.High)
	}
	if a, ok := x.(Addr); ok && lo == nil && hi == nil {
		n := -1
		if p, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				n = int(at.Len())
			}
		}
		return SliceOf{A: a, N: n}
	}
	if a, ok := x.(Addr); ok && (lo == nil || isZeroConst(lo)) {
		if p, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				if hc, ok := hi.(Const); ok && hc.V.Kind() == constant.Int {
					if k, exact := constant.Int64Val(hc.V); exact && 0 <= k && k <= at.Len() {
						return SliceOf{A: a, N: int(k)}
					}
				}
			}
		}
	}
	if lo == nil && hi == nil {
		return x
	}
	if c, ok := x.(Const); ok && c.V.Kind() == constant.String {
		s := constant.StringVal(c.V)
		l, h := int64(0), int64(len(s))
		okc := true
		if lc, is := lo.(Const); is {
			l, _ = constant.Int64Val(lc.V)
		} else if lo != nil {
			okc = false
		}
		if hc, is := hi.(Const); is {
			h, _ = constant.Int64Val(hc.V)
		} else if hi != nil {
			okc = false
		}
		if okc && 0 <= l && l <= h && h <= int64(len(s)) {
			return Str(s[l:h])
		}
	}
	if rs, ok := in.asciiOf(st, x); ok {
		l, h, okc := int64(0), int64(len(rs)), true
		if lc, is := lo.(Const); is {
			l, _ = constant.Int64Val(lc.V)
		} else if lo != nil {
			okc = false
		}
		if hc, is := hi.(Const); is {
			h, _ = constant.Int64Val(hc.V)
		} else if hi != nil {
			okc = false
		}
		if okc && 0 <= l && l <= h && h <= int64(len(rs)) {
			v := Val(Str(""))
			for _, r := range rs[l:h] {
				v = catVals(v, Chr(r))
			}
			return v
		}
	}
	if so, ok := x.(SliceOf); ok && so.N >= 0 {
		l, h := int64(0), int64(so.N)
		okc := true
		if lc, is := lo.(Const); is {
			l, _ = constant.Int64Val(lc.V)
		} else if lo != nil {
			okc = false
		}
		if hc, is := hi.(Const); is {
			h, _ = constant.Int64Val(hc.V)
		} else if hi != nil {
			okc = false
		}
		if okc && l == h && 0 <= h && h <= int64(so.N) && in.Collect {
			return SliceOf{A: Addr{Base: "empty"}, N: 0}
		}
		if okc && l == 0 && h >= 0 && h <= int64(so.N) {
			return SliceOf{A: so.A, N: int(h)}
		}
		if sl, ok := ins.X.Type().Underlying().(*types.Slice); in.Runes && ok && okc && 0 < l && l <= h && h <= int64(so.N) {
			// a copy: rules that set Runes do not write through parts of a slice
			b := st.FreshID("part")
			for k := range st.Heap {
				if strings.HasPrefix(k, b+"[") {
					delete(st.Heap, k)
				}
			}
			for i := l; i < h; i++ {
				st.StoreCell(Addr{b, fmt.Sprintf("[%d]", i-l)}, st.Load(Addr{so.A.Base, fmt.Sprintf("%s[%d]", so.A.Path, i)}, sl.Elem()))
			}
			return SliceOf{A: Addr{Base: b}, N: int(h - l)}
		}
	}
	if _, ok := x.(Nil); ok {
		return x
	}
	if hi != nil && (lo == nil || isZeroConst(lo)) {
		if _, isSlice := ins.X.Type().Underlying().(*types.Pointer); !isSlice {
			if h, ok := hi.(Sym); ok && h.ID == "len<"+strings.TrimPrefix(x.Key(), "$")+">" {
				return x
			}
		}
	}
	if sh, ok := x.(Shrink); ok {
		if _, known := hi.(Const); known && (lo == nil || isZeroConst(lo)) && sh.Lo == nil {
			if sh.Hi != nil && sh.Hi.Key() == hi.Key() {
				return sh // x[:a][:a]
			}
		}
		// collapse repeated shrinking
		if sh.Key() == (Shrink{X: sh.X, Lo: lo, Hi: hi}).Key() || len(sh.Key()) > 200 {
			return Shrink{X: sh.X, Lo: Sym{ID: "?lo"}, Hi: Sym{ID: "?hi"}}
		}
	}
	return Shrink{X: x, Lo: lo, Hi: hi}
}

// asciiOf lists the characters of a text, not a constant, when each takes one byte.
func (in *Interp) asciiOf(st *State, x Val) ([]Val, bool) {
	x = st.Resolve(x)
	switch x.(type) {
	case Concat, Sym:
	default:
		return nil, false
	}
	if !in.Runes {
		return nil, false
	}
	return st.ascii(x)
}

func (st *State) ascii(x Val) ([]Val, bool) {
	rs, ok := st.RunesOf(x)
	if !ok {
		return nil, false
	}
	for _, r := range rs {
		if lo, hi, ok := st.Interval(r); !ok || lo < 0 || hi > 127 {
			return nil, false
		}
	}
	return rs, true
}

// charAt is the byte of a text at a known position.
func (in *Interp) charAt(st *State, x, idx Val) (Val, bool) {
	c, ok := st.Known(idx)
	if !ok || !in.Runes {
		return nil, false
	}
	n, exact := constant.Int64Val(c.V)
	if !exact || n < 0 {
		return nil, false
	}
	if s, ok := st.Resolve(x).(Const); ok && s.V.Kind() == constant.String {
		if t := constant.StringVal(s.V); n < int64(len(t)) {
			return Int(int64(t[n])), true
		}
		return nil, false
	}
	rs, ok := in.asciiOf(st, x)
	if !ok || n >= int64(len(rs)) {
		return nil, false
	}
	return st.Resolve(rs[n]), true
}

// Len is the length of v.
func (st *State) Len(v Val) Val {
	v = st.Resolve(v)
	switch v := v.(type) {
	case Nil:
		return Int(0)
	case Concat:
		if rs, ok := st.ascii(v); ok {
			return Int(int64(len(rs)))
		}
	case Const:
		if v.V.Kind() == constant.String {
			return Int(int64(len(constant.StringVal(v.V))))
		}
	case SliceOf:
		if v.N >= 0 {
			return Int(int64(v.N))
		}
	case Struct:
		return Int(int64(len(v.Fields)))
	case Append:
		s := Sym{ID: "len<" + v.Key() + ">"}
		f := st.Facts[s.ID]
		if !f.HasIv {
			f.HasIv, f.Lo, f.Hi = true, 1, inf
			st.Facts[s.ID] = f
		}
		return st.Resolve(s)
	case Shrink:
		if c, ok := v.Hi.(Const); ok && v.Lo == nil {
			return c
		}
		if c, ok := v.Hi.(Const); ok {
			if l, ok := v.Lo.(Const); ok {
				return Const{constant.BinaryOp(c.V, token.SUB, l.V)}
			}
		}
	case Sym:
		// the bytes of a constant text
		if i := strings.LastIndex(v.ID, ">[]byte"); i > 6 && strings.HasPrefix(v.ID, "conv<#\"") && i+len(">[]byte") == len(v.ID) {
			if x, err := strconv.Unquote(v.ID[len("conv<#"):i]); err == nil {
				return Int(int64(len(x)))
			}
		}
		if rs, ok := st.ascii(v); ok {
			return Int(int64(len(rs)))
		}
		if ks, ok := st.MapKeys(v); ok {
			return Int(int64(len(ks)))
		}
		return st.Resolve(Sym{ID: "len<" + v.ID + ">", T: types.Typ[types.Int]})
	}
	return st.Resolve(Sym{ID: "len<" + v.Key() + ">", T: types.Typ[types.Int]})
}

func (in *Interp) convert(st *State, to, from types.Type, x Val) Val {
	x = st.Resolve(x)
	tb, tok1 := to.Underlying().(*types.Basic)
	fb, tok2 := from.Underlying().(*types.Basic)
	if b, ok := x.(SliceOf); ok && tok1 && tb.Info()&types.IsString != 0 && b.N >= 0 && b.N <= 4096 {
		if sl, ok := from.Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte]) {
			var out []byte
			for i := 0; i < b.N; i++ {
				c, ok := st.Heap[fmt.Sprintf("%s%s[%d]", b.A.Base, b.A.Path, i)].(Const)
				if !ok {
					break
				}
				k, exact := constant.Int64Val(constant.ToInt(c.V))
				if !exact {
					break
				}
				out = append(out, byte(k))
			}
			if len(out) == b.N {
				return Str(string(out))
			}
		}
	}
	if tok1 && tok2 {
		if c, ok := x.(Const); ok {
			switch {
			case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
				if i, exact := constant.Int64Val(c.V); exact {
					return Str(string(rune(i)))
				}
			case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
				if i, exact := constant.Int64Val(c.V); exact {
					return Const{constant.MakeInt64(truncInt(i, tb))}
				}
				return c
			default:
				return c
			}
		}
		if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
			// keep identity when the conversion cannot change the value
			if intBits(tb) >= intBits(fb) && (tb.Info()&types.IsUnsigned == fb.Info()&types.IsUnsigned) {
				return x
			}
			if lo, hi, ok := st.Interval(x); ok && in.Runes && lo >= 0 && hi < 1<<31 && intBits(tb) >= 32 {
				return x
			}
		}
		if tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0 {
			return x
		}
	}
	if _, isNil := x.(Nil); isNil && tok1 && tb.Info()&types.IsString != 0 {
		return Str("")
	}
	if in.Runes {
		if tok1 && tb.Info()&types.IsString != 0 {
			if tok2 && fb.Info()&types.IsInteger != 0 {
				return Chr(x)
			}
			if sl, ok := from.Underlying().(*types.Slice); ok && (isRune(sl.Elem()) || in.asciiSlice(st, x, sl.Elem())) {
				if so, ok := x.(SliceOf); ok && so.N >= 0 {
					var parts []Val
					for i := 0; i < so.N; i++ {
						parts = append(parts, Chr(st.Resolve(st.Load(Addr{so.A.Base, fmt.Sprintf("%s[%d]", so.A.Path, i)}, sl.Elem()))))
					}
					return Cat(parts...)
				}
				if _, ok := x.(Nil); ok {
					return Str("")
				}
			}
		}
		if sl, ok := to.Underlying().(*types.Slice); ok && tok2 && fb.Info()&types.IsString != 0 {
			if rs, ok := st.RunesOf(x); ok && (isRune(sl.Elem()) || st.isASCII(x)) {
				b := st.FreshID("runes")
				for i, r := range rs {
					st.StoreCell(Addr{b, fmt.Sprintf("[%d]", i)}, r)
				}
				return SliceOf{A: Addr{Base: b}, N: len(rs)}
			}
		}
	}
	return st.Resolve(Sym{ID: "conv<" + x.Key() + ">" + to.String(), T: to})
}

func (st *State) isASCII(x Val) bool { _, ok := st.ascii(x); return ok }

// asciiSlice: x is a slice of bytes that are all ASCII.
func (in *Interp) asciiSlice(st *State, x Val, et types.Type) bool {
	so, ok := x.(SliceOf)
	if !ok || so.N < 0 {
		return false
	}
	for i := 0; i < so.N; i++ {
		if lo, hi, ok := st.Interval(st.Resolve(st.Load(Addr{so.A.Base, fmt.Sprintf("%s[%d]", so.A.Path, i)}, et))); !ok || lo < 0 || hi > 127 {
			return false
		}
	}
	return true
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

var chars sync.Map // symbol id -> rune value

// Chr is the text of one character.
func Chr(r Val) Val {
	if c, ok := r.(Const); ok && c.V.Kind() == constant.Int {
		if i, exact := constant.Int64Val(c.V); exact {
			return Str(string(rune(i)))
		}
	}
	id := "chr<" + r.Key() + ">"
	chars.Store(id, r)
	return Sym{ID: id, T: types.Typ[types.String]}
}

// RunesOf splits a text into its characters when they are known.
func (st *State) RunesOf(v Val) ([]Val, bool) {
	switch v := st.Resolve(v).(type) {
	case Const:
		if v.V.Kind() == constant.String {
			var out []Val
			for _, r := range constant.StringVal(v.V) {
				out = append(out, Int(int64(r)))
			}
			return out, true
		}
	case Sym:
		if r, ok := chars.Load(v.ID); ok {
			return []Val{st.Resolve(r.(Val))}, true
		}
	case Concat:
		var out []Val
		for _, p := range v.Parts {
			rs, ok := st.RunesOf(p)
			if !ok {
				return nil, false
			}
			out = append(out, rs...)
		}
		return out, true
	}
	return nil, false
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	default:
		return 64
	}
}

func truncInt(i int64, b *types.Basic) int64 {
	switch b.Kind() {
	case types.Int8:
		return int64(int8(i))
	case types.Uint8:
		return int64(uint8(i))
	case types.Int16:
		return int64(int16(i))
	case types.Uint16:
		return int64(uint16(i))
	case types.Int32:
		return int64(int32(i))
	case types.Uint32:
		return int64(uint32(i))
	}
	return i
}

func (in *Interp) binop(st *State, ins *ssa.BinOp, x, y Val) Val {
	if v, ok := st.Resolve(x).(Sym); ok && ins.Op == token.LSS && strings.HasPrefix(v.ID, "cap<") && isZeroConst(st.Resolve(y)) {
		return Const{constant.MakeBool(false)} // no capacity is negative
	}
	x, y = st.Resolve(x), st.Resolve(y)
	switch ins.Op {
	case token.EQL, token.NEQ:
		c := Cmp{Op: "==", X: x, Y: y, Neg: ins.Op == token.NEQ}
		return in.simplify(st, c)
	case token.LSS:
		return in.simplify(st, Cmp{Op: "<", X: x, Y: y})
	case token.GEQ:
		return in.simplify(st, Cmp{Op: "<", X: x, Y: y, Neg: true})
	case token.LEQ:
		return in.simplify(st, Cmp{Op: "<=", X: x, Y: y})
	case token.GTR:
		return in.simplify(st, Cmp{Op: "<=", X: x, Y: y, Neg: true})
	}
	xc, xok := x.(Const)
	yc, yok := y.(Const)
	isStr := false
	if b, ok := ins.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	if isStr && ins.Op == token.ADD {
		return catVals(x, y)
	}
	if xok && yok {
		switch ins.Op {
		case token.SHL, token.SHR:
			if n, exact := constant.Uint64Val(yc.V); exact && n < 64 {
				return truncConst(constant.Shift(xc.V, ins.Op, uint(n)), ins.Type())
			}
		case token.QUO, token.REM:
			if constant.Sign(yc.V) != 0 {
				op := ins.Op
				if op == token.QUO && xc.V.Kind() == constant.Int {
					op = token.QUO_ASSIGN
				}
				return truncConst(constant.BinaryOp(xc.V, op, yc.V), ins.Type())
			}
		default:
			return truncConst(constant.BinaryOp(xc.V, ins.Op, yc.V), ins.Type())
		}
	}
	// x+0, x-0
	if yok && (ins.Op == token.ADD || ins.Op == token.SUB) && yc.V.Kind() == constant.Int && constant.Sign(yc.V) == 0 {
		return x
	}
	if yok && (ins.Op == token.ADD || ins.Op == token.SUB) && yc.V.Kind() == constant.Int {
		if xs, ok := x.(Sym); ok {
			if d, exact := constant.Int64Val(yc.V); exact {
				if ins.Op == token.SUB {
					d = -d
				}
				if v, ok := addLinear(xs, d, ins.Type()); ok {
					return st.Resolve(v)
				}
			}
		}
	}
	s := Sym{ID: "(" + x.Key() + ins.Op.String() + y.Key() + ")", T: ins.Type()}
	// propagate intervals through +/- const
	if yok && (ins.Op == token.ADD || ins.Op == token.SUB) {
		if lo, hi, ok := st.Interval(x); ok {
			if d, exact := constant.Int64Val(yc.V); exact {
				if ins.Op == token.SUB {
					d = -d
				}
				nlo, nhi := lo, hi
				if lo != -inf {
					nlo = lo + d
				}
				if hi != inf {
					nhi = hi + d
				}
				st.setInterval(s, nlo, nhi)
			}
		}
	}
	return st.Resolve(s)
}

func truncConst(v constant.Value, t types.Type) Val {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if i, exact := constant.Int64Val(v); exact {
			return Const{constant.MakeInt64(truncInt(i, b))}
		}
	}
	return Const{v}
}

func catVals(x, y Val) Val {
	var parts []Val
	add := func(v Val) {
		if c, ok := v.(Concat); ok {
			parts = append(parts, c.Parts...)
		} else {
			parts = append(parts, v)
		}
	}
	add(x)
	add(y)
	var out []Val
	for _, p := range parts {
		if c, ok := p.(Const); ok && c.V.Kind() == constant.String {
			s := constant.StringVal(c.V)
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if pc, ok := out[n-1].(Const); ok {
					out[n-1] = Str(constant.StringVal(pc.V) + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return Concat{out}
}

// Cat concatenates string values.
func Cat(vs ...Val) Val {
	var v Val = Str("")
	for _, x := range vs {
		v = catVals(v, x)
	}
	return v
}

// Linear splits a symbol of the form base+k.
func Linear(v Sym) (base Sym, k int64) {
	if x, ok := linear.Load(v.ID); ok {
		l := x.(linForm)
		return l.base, l.k
	}
	return v, 0
}

type linForm struct {
	base Sym
	k    int64
}

var linear sync.Map // symbol id -> linForm

// addLinear keeps (x+a)+b as x+(a+b); ok is false for the first step, which also carries intervals.
func addLinear(x Sym, d int64, t types.Type) (Val, bool) {
	base, k := Linear(x)
	n := k + d
	if n == 0 {
		return base, true
	}
	id := fmt.Sprintf("(%s+#%d)", base.Key(), n)
	if n < 0 {
		id = fmt.Sprintf("(%s-#%d)", base.Key(), -n)
	}
	linear.Store(id, linForm{base, n})
	if k == 0 {
		return nil, false
	}
	return Sym{ID: id, T: t}, true
}

func (in *Interp) simplify(st *State, c Cmp) Val {
	// boolean compare with constant
	if c.Op == "==" {
		for k := 0; k < 2; k++ {
			if b, ok := c.Y.(Const); ok && b.V.Kind() == constant.Bool {
				if inner, ok := c.X.(Cmp); ok {
					if constant.BoolVal(b.V) == c.Neg {
						inner.Neg = !inner.Neg
					}
					return inner
				}
			}
			c.X, c.Y = c.Y, c.X
		}
	}
	switch st.Truth(c) {
	case 1:
		return Bool(true)
	case 0:
		return Bool(false)
	}
	if c.Op == "==" && in.Runes {
		if t := st.sameText(c.X, c.Y); t != 0 {
			return Bool((t == 1) != c.Neg)
		}
	}
	return c
}

// sameText compares two texts of known characters: 1 same, -1 different, 0 not known.
func (st *State) sameText(x, y Val) int {
	if _, ok := x.(Concat); !ok {
		if _, ok := y.(Concat); !ok {
			sx, okx := x.(Sym)
			sy, oky := y.(Sym)
			if !(okx && strings.HasPrefix(sx.ID, "chr<")) && !(oky && strings.HasPrefix(sy.ID, "chr<")) {
				return 0
			}
		}
	}
	xs, ok1 := st.RunesOf(x)
	ys, ok2 := st.RunesOf(y)
	if !ok1 || !ok2 {
		return 0
	}
	if len(xs) != len(ys) {
		return -1
	}
	res := 1
	for i := range xs {
		switch st.Truth(Cmp{Op: "==", X: xs[i], Y: ys[i]}) {
		case 0:
			return -1
		case 1:
		default:
			res = 0
		}
	}
	return res
}

func (in *Interp) typeAssert(fr *Frame, w work, ins *ssa.TypeAssert, x Val, i int, stack *[]work, addOut func(Outcome)) {
	st := w.st
	push := func(s *State, v Val) {
		nw := w
		nw.st = s
		nw.e = w.e.clone()
		nw.e[ins] = v
		nw.i = i + 1
		*stack = append(*stack, nw)
	}
	mk := func(v Val, ok bool) Val {
		if ins.CommaOk {
			return Tuple{[]Val{v, Bool(ok)}}
		}
		return v
	}
	zero := ZeroVal(ins.AssertedType)
	_, toIface := ins.AssertedType.Underlying().(*types.Interface)
	fail := func(s *State) {
		if ins.CommaOk {
			push(s, mk(zero, false))
		} else {
			addOut(Outcome{St: s, Panic: true, Pos: ins.Pos(), Note: "type assertion"})
		}
	}
	switch x := x.(type) {
	case Nil:
		fail(st)
		return
	case Iface:
		if toIface {
			if types.Implements(x.T, ins.AssertedType.Underlying().(*types.Interface)) {
				push(st, mk(x, true))
			} else {
				fail(st)
			}
			return
		}
		if types.Identical(x.T, ins.AssertedType) {
			push(st, mk(x.V, true))
		} else {
			fail(st)
		}
		return
	}
	// unknown dynamic type: fork, remember the answer
	tk := Sym{ID: "isa<" + x.Key() + ">" + ins.AssertedType.String(), T: types.Typ[types.Bool]}
	t, f := st.Clone(), st
	if f.Assume(tk, false) {
		fail(f)
	}
	if t.Assume(tk, true) {
		t.SetNil(x, 2)
		v := x
		if !toIface {
			v = t.Resolve(Sym{ID: "dyn<" + x.Key() + ">", T: ins.AssertedType})
			if _, ptr := ins.AssertedType.Underlying().(*types.Pointer); ptr {
				t.SetNil(v, 2)
			}
		}
		push(t, mk(v, true))
	}
}

func (in *Interp) calleeVal(e env, cc *ssa.CallCommon, st *State, fr *Frame) Val {
	return in.val(e, cc.Value, st, fr)
}

func (in *Interp) mkCall(fr *Frame, instr ssa.CallInstruction, cc *ssa.CallCommon, e env, st *State, site string) *Call {
	c := &Call{Instr: instr, Common: cc, Site: site, Frame: fr}
	fv := in.calleeVal(e, cc, st, fr)
	if cc.IsInvoke() {
		c.Args = append(c.Args, fv)
	}
	for _, a := range cc.Args {
		c.Args = append(c.Args, in.val(e, a, st, fr))
	}
	in.resolve(c, fv)
	return c
}

func (in *Interp) resolve(c *Call, fv Val) {
	cc := c.Common
	if cc.IsInvoke() {
		c.Method = cc.Method
		if iv, ok := fv.(Iface); ok {
			if sel := in.Prog.MethodSets.MethodSet(iv.T).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				c.Fn = in.Prog.MethodValue(sel)
				if len(c.Args) > 0 {
					c.Args[0] = iv.V
				}
			}
		}
		return
	}
	if f, ok := fv.(Func); ok {
		c.Fn = f.Fn
		c.FnVal = &f
		return
	}
	if f := cc.StaticCallee(); f != nil {
		c.Fn = f
	}
}

func (in *Interp) call(fr *Frame, c *Call, st *State, sig *types.Signature) []Outcome {
	if in.Hooks.Call != nil {
		if outs, ok := in.Hooks.Call(in, c, st); ok {
			return outs
		}
	}
	if b, ok := c.Common.Value.(*ssa.Builtin); ok && !c.Common.IsInvoke() {
		return in.builtin(c, b, st)
	}
	if c.Fn != nil && len(c.Fn.Blocks) > 0 && (in.Hooks.Inline == nil || in.Hooks.Inline(c.Fn)) {
		rec := 0
		for f := fr; f != nil; f = f.Parent {
			if f.Fn == c.Fn {
				rec++
			}
		}
		if rec <= in.MaxRec && fr.depth < in.MaxDepth {
			var bind []Val
			if !c.Common.IsInvoke() {
				// closure bindings travel with the value
				if f, ok := in.lastFuncVal(c); ok {
					bind = f.Bind
				}
			}
			return in.exec(c.Fn, c.Args, bind, st, fr, c.Site)
		}
		in.Deep = true
	}
	if c.Fn != nil && in.Endless == "" {
		// the same call within itself, again and again
		n := 0
		for f := fr; f != nil; f = f.Parent {
			if f.Fn == c.Fn && sameArgs(f.args, c.Args) {
				n++
			}
		}
		if n > 3 {
			in.Endless = c.Fn.String()
		}
	}
	in.HavocArgs(c, st)
	return []Outcome{{St: st, Rets: in.unknownRets(st, c.Site, sig)}}
}

func sameArgs(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key() != b[i].Key() {
			return false
		}
	}
	return true
}

// HavocArgs forgets what an unknown callee may write through its pointer arguments.
func (in *Interp) HavocArgs(c *Call, st *State) {
	for _, a := range c.Args {
		if i, ok := a.(Iface); ok {
			a = i.V
		}
		if ad, ok := a.(Addr); ok && !strings.HasPrefix(ad.Base, "g:") {
			st.Havoc(ad.Cell(), st.FreshID("hv:"+c.Site))
		}
	}
}

// Inline interprets c's callee with hooks active.
func (in *Interp) InlineCall(c *Call, st *State) []Outcome {
	var bind []Val
	if f, ok := in.lastFuncVal(c); ok {
		bind = f.Bind
	}
	return in.exec(c.Fn, c.Args, bind, st, c.Frame, c.Site)
}

// Unknown gives the callee's results as fresh symbols.
func (in *Interp) Unknown(c *Call, st *State) []Val {
	return in.unknownRets(st, c.Site, c.Common.Signature())
}

func (in *Interp) lastFuncVal(c *Call) (Func, bool) {
	if c.FnVal != nil {
		return *c.FnVal, true
	}
	return Func{}, false
}

// copySlice models copy between slices of known lengths.
func (in *Interp) copySlice(c *Call, st *State) ([]Outcome, bool) {
	sl, ok := c.Common.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	dst, ok := st.Resolve(c.Args[0]).(SliceOf)
	if !ok || dst.N < 0 {
		if _, isNil := st.Resolve(c.Args[0]).(Nil); isNil {
			return []Outcome{{St: st, Rets: []Val{Int(0)}}}, true
		}
		return nil, false
	}
	var src []Val
	switch s := st.Resolve(c.Args[1]).(type) {
	case Nil:
	case SliceOf:
		if s.N < 0 {
			return nil, false
		}
		for i := 0; i < s.N; i++ {
			src = append(src, st.Load(Addr{s.A.Base, fmt.Sprintf("%s[%d]", s.A.Path, i)}, sl.Elem()))
		}
	default:
		rs, ok := st.ascii(s)
		if !ok || !in.Runes {
			// what is copied is not known
			for i := 0; i < dst.N; i++ {
				st.StoreCell(Addr{dst.A.Base, fmt.Sprintf("%s[%d]", dst.A.Path, i)}, Sym{ID: st.FreshID("copied:" + c.Site), T: sl.Elem()})
			}
			return nil, false
		}
		src = rs
	}
	n := min(len(src), dst.N)
	for i := 0; i < n; i++ {
		st.StoreCell(Addr{dst.A.Base, fmt.Sprintf("%s[%d]", dst.A.Path, i)}, src[i])
	}
	return []Outcome{{St: st, Rets: []Val{Int(int64(n))}}}, true
}

func (in *Interp) builtin(c *Call, b *ssa.Builtin, st *State) []Outcome {
	if b.Name() == "close" && in.Chans {
		if id, _, known := st.ChanQueue(c.Args[0]); known {
			if st.TS["closed:"+id] != "" {
				return []Outcome{{St: st, Panic: true, Note: "close of a closed channel"}}
			}
			st.TS["closed:"+id] = "1"
			return []Outcome{{St: st}}
		}
		in.Capped, in.CapWhy = true, "a close of an unknown channel"
	}
	one := func(v Val) []Outcome { return []Outcome{{St: st, Rets: []Val{v}}} }
	switch b.Name() {
	case "len":
		return one(st.Len(c.Args[0]))
	case "cap":
		return one(Sym{ID: "cap<" + c.Args[0].Key() + ">", T: types.Typ[types.Int]})
	case "append":
		x := st.Resolve(c.Args[0])
		var elems []Val
		known := true
		switch s := st.Resolve(c.Args[1]).(type) {
		case SliceOf:
			if s.N >= 0 && s.N <= max(16, st.MaxInst) {
				var et types.Type
				if sl, ok := c.Common.Args[0].Type().Underlying().(*types.Slice); ok {
					et = sl.Elem()
				} else {
					et = types.Typ[types.Byte]
				}
				for i := 0; i < s.N; i++ {
					elems = append(elems, st.Load(Addr{s.A.Base, fmt.Sprintf("%s[%d]", s.A.Path, i)}, et))
				}
			} else {
				known = false
			}
		case Nil:
			return one(x)
		case Append:
			elems = append(elems, s.Elems...)
			if _, isNil := s.X.(Nil); !isNil {
				elems = append(elems, s.X)
			}
		default:
			elems = append(elems, s)
			known = false
		}
		if known {
			base, ok := x.(SliceOf)
			if _, isNil := x.(Nil); isNil {
				base, ok = SliceOf{N: 0}, true
			}
			if ok && base.N >= 0 && base.N+len(elems) <= max(12, st.MaxInst) {
				et := c.Common.Args[0].Type().Underlying().(*types.Slice).Elem()
				nb := st.FreshID("ap:" + c.Site)
				var vs []Val
				for i := 0; i < base.N; i++ {
					vs = append(vs, st.Load(Addr{base.A.Base, fmt.Sprintf("%s[%d]", base.A.Path, i)}, et))
				}
				vs = append(vs, elems...)
				if !in.NoLimit {
					for k := range st.Heap {
						if strings.HasPrefix(k, nb) && len(k) > len(nb) && k[len(nb)] == '[' {
							delete(st.Heap, k)
						}
					}
				}
				for i, v := range vs {
					st.StoreCell(Addr{nb, fmt.Sprintf("[%d]", i)}, v)
				}
				return one(SliceOf{A: Addr{Base: nb}, N: len(vs)})
			}
		}
		a := Append{X: x}
		if ax, ok := x.(Append); ok {
			a.X = ax.X
			a.Elems = append(a.Elems, ax.Elems...)
		}
		for _, el := range elems {
			dup := false
			for _, y := range a.Elems {
				if y.Key() == el.Key() {
					dup = true
				}
			}
			if !dup {
				a.Elems = append(a.Elems, el)
			}
		}
		if len(a.Elems) > 12 || len(a.Key()) > 1500 {
			id := st.FreshID("append:" + c.Site)
			s := Sym{ID: id, T: c.Common.Args[0].Type()}
			st.SetNil(s, 2)
			return one(s)
		}
		if !known {
			// appended an unknown slice: may still be empty
			id := "appendu<" + a.Key() + ">"
			return one(Sym{ID: id, T: c.Common.Args[0].Type()})
		}
		return one(a)
	case "copy":
		if outs, ok := in.copySlice(c, st); ok {
			return outs
		}
	case "delete":
		if m, ok := st.Resolve(c.Args[0]).(Sym); ok {
			st.mapDelete(m.ID, c.Args[1])
		}
		return []Outcome{{St: st}}
	case "clear":
		if m, ok := st.Resolve(c.Args[0]).(Sym); ok {
			if _, isMap := c.Common.Args[0].Type().Underlying().(*types.Map); isMap {
				st.mapClear(m.ID)
				st.Heap["!map:"+m.ID] = Nil{} // nothing is left in it
				return []Outcome{{St: st}}
			}
		}
	case "min", "max":
		return one(in.fresh(st, c.Site, c.Common.Signature().Results().At(0).Type()))
	}
	var rs []Val
	sig := c.Common.Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, in.fresh(st, c.Site, sig.Results().At(i).Type()))
	}
	return []Outcome{{St: st, Rets: rs}}
}

func sortStrings(s []string) { sort.Strings(s) }

// ConstGlobals gives the values of package-level variables that only their package's
// initialiser writes: constants, interface values of constants, and (as opaque non-nil
// symbols) anything made by a call such as errors.New.
func ConstGlobals(prog *ssa.Program, funcs []*ssa.Function) func(*ssa.Global) (Val, bool) {
	writers := map[*ssa.Global]int{}
	bad := map[*ssa.Global]bool{}
	vals := map[*ssa.Global]ssa.Value{}
	scan := func(fn *ssa.Function) {
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					if g, ok := ins.Addr.(*ssa.Global); ok {
						writers[g]++
						vals[g] = ins.Val
						if !isInit {
							bad[g] = true
						}
						continue
					}
				case *ssa.UnOp:
					if ins.Op == token.MUL {
						continue
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if _, isFA := ins.(*ssa.FieldAddr); isFA {
							continue
						}
						if _, isIA := ins.(*ssa.IndexAddr); isIA {
							continue
						}
						bad[g] = true // address escapes
					}
				}
			}
		}
	}
	for _, f := range funcs {
		scan(f)
	}
	for _, p := range prog.AllPackages() {
		if f := p.Func("init"); f != nil {
			scan(f)
		}
	}
	return func(g *ssa.Global) (Val, bool) {
		if bad[g] || writers[g] == 0 {
			return nil, false
		}
		var ev func(v ssa.Value) (Val, bool)
		ev = func(v ssa.Value) (Val, bool) {
			switch v := v.(type) {
			case *ssa.Const:
				if v.Value == nil {
					return ZeroVal(v.Type()), true
				}
				return Const{v.Value}, true
			case *ssa.MakeInterface:
				x, ok := ev(v.X)
				if !ok {
					x = Sym{ID: "g:" + g.String() + ".dyn", T: v.X.Type()}
				}
				return Iface{T: v.X.Type(), V: x}, true
			case *ssa.ChangeInterface:
				return ev(v.X)
			case *ssa.UnOp:
				if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
					for _, r := range *al.Referrers() {
						if _, isLoad := r.(*ssa.UnOp); !isLoad {
							if _, isDbg := r.(*ssa.DebugRef); !isDbg {
								return nil, false
							}
						}
					}
					return ZeroVal(v.Type()), true
				}
			case *ssa.Function:
				return Func{Fn: v}, true
			case *ssa.Alloc:
				return Addr{Base: "ga:" + g.String()}, true
			case *ssa.Call:
				if f := v.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
					return Iface{T: v.Type(), V: Sym{ID: "g:" + g.String() + ".err"}}, true
				}
			}
			return nil, false
		}
		if v, ok := ev(vals[g]); ok {
			return v, true
		}
		return nil, false
	}
}

func (st *State) mapClear(id string) {
	for k := range st.Heap {
		if strings.HasPrefix(k, "!m<"+id+">{") || strings.HasPrefix(k, "!k<"+id+">{") {
			delete(st.Heap, k)
		}
	}
}

func (st *State) mapStore(m, k, v Val) {
	s, ok := st.Resolve(m).(Sym)
	if !ok {
		return
	}
	if _, known := st.Heap["!map:"+s.ID]; !known {
		return
	}
	k = st.Resolve(k)
	for hk, ok2 := range st.Heap {
		if strings.HasPrefix(hk, "!k<"+s.ID+">{") && eqVals(ok2, k) == 0 {
			delete(st.Heap, "!map:"+s.ID) // may overwrite: the map is no longer known
			st.mapClear(s.ID)
			return
		}
	}
	st.Heap["!m<"+s.ID+">{"+k.Key()+"}"] = v
	st.Heap["!k<"+s.ID+">{"+k.Key()+"}"] = k
}

func (st *State) mapDelete(id string, k Val) {
	k = st.Resolve(k)
	for hk, ok2 := range st.Heap {
		if strings.HasPrefix(hk, "!k<"+id+">{") && eqVals(ok2, k) == 0 {
			delete(st.Heap, "!map:"+id)
			st.mapClear(id)
			return
		}
	}
	delete(st.Heap, "!m<"+id+">{"+k.Key()+"}")
	delete(st.Heap, "!k<"+id+">{"+k.Key()+"}")
}

func (st *State) mapLoad(m, k Val) (v Val, found, known bool) {
	m = st.Resolve(m)
	if _, isNil := m.(Nil); isNil {
		return nil, false, true
	}
	s, ok := m.(Sym)
	if !ok {
		return nil, false, false
	}
	if _, isMap := st.Heap["!map:"+s.ID]; !isMap {
		return nil, false, false
	}
	k = st.Resolve(k)
	if v, ok := st.Heap["!m<"+s.ID+">{"+k.Key()+"}"]; ok {
		return st.Resolve(v), true, true
	}
	for hk, ok2 := range st.Heap {
		if strings.HasPrefix(hk, "!k<"+s.ID+">{") && eqVals(ok2, k) == 0 {
			return nil, false, false
		}
	}
	return nil, false, true
}

// eqVals: 1 equal, -1 different, 0 unknown.
func eqVals(a, b Val) int {
	if a.Key() == b.Key() {
		return 1
	}
	if ia, ok := a.(Iface); ok {
		if ib, ok := b.(Iface); ok {
			if !types.Identical(ia.T, ib.T) {
				return -1
			}
			return eqVals(ia.V, ib.V)
		}
	}
	switch a.(type) {
	case Const, Addr, Nil:
	default:
		return 0
	}
	switch b.(type) {
	case Const, Addr, Nil:
		return -1
	}
	return 0
}

// mayNest: v may be stored in a cell that has component cells.
func mayNest(v Val) bool {
	switch v := v.(type) {
	case Const, Nil, Addr, Iface, SliceOf, Func, Cmp, Concat, Append, Shrink:
		return false
	case Sym:
		if v.T == nil {
			return true
		}
		switch v.T.Underlying().(type) {
		case *types.Struct, *types.Array:
			return true
		}
		return false
	}
	return true
}

// MapLoad reads a map whose contents are known.
func (st *State) MapLoad(m, k Val) (v Val, found, known bool) { return st.mapLoad(m, k) }

// MapKeys lists the keys of a map whose contents are known.
func (st *State) MapKeys(m Val) ([]Val, bool) {
	m = st.Resolve(m)
	if _, isNil := m.(Nil); isNil {
		return nil, true
	}
	s, ok := m.(Sym)
	if !ok {
		return nil, false
	}
	if _, isMap := st.Heap["!map:"+s.ID]; !isMap {
		return nil, false
	}
	var ks []string
	for hk := range st.Heap {
		if strings.HasPrefix(hk, "!k<"+s.ID+">{") {
			ks = append(ks, hk)
		}
	}
	sort.Strings(ks)
	var out []Val
	for _, k := range ks {
		out = append(out, st.Heap[k])
	}
	return out, true
}

// forkLookup splits a lookup of an unknown key in a map with known constant keys.
func (in *Interp) forkLookup(w work, ins *ssa.Lookup, m, k Val, i int, stack *[]work, fr *Frame) bool {
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	k = w.st.Resolve(k)
	ks, ok := k.(Sym)
	if !ok {
		return false
	}
	keys, known := w.st.MapKeys(m)
	if !known || len(keys) > 64 {
		return false
	}
	push := func(st *State, v Val, found bool) {
		nw := w
		nw.st, nw.e, nw.i = st, w.e.clone(), i+1
		if ins.CommaOk {
			nw.e[ins] = Tuple{[]Val{v, Bool(found)}}
		} else {
			nw.e[ins] = v
		}
		*stack = append(*stack, nw)
	}
	for _, c := range keys {
		if _, ok := c.(Const); !ok {
			return false
		}
	}
	rest := w.st.Clone()
	for _, c := range keys {
		v, found, known := w.st.mapLoad(m, c)
		if !found || !known {
			continue
		}
		cond := Cmp{Op: "==", X: ks, Y: c}
		st := rest.Clone()
		if st.Assume(cond, true) {
			if in.Hooks.Branch != nil {
				in.Hooks.Branch(in, fr, ins, cond, true, st)
			}
			push(st, v, true)
		}
		if !rest.Assume(cond, false) {
			return true
		}
		if in.Hooks.Branch != nil {
			in.Hooks.Branch(in, fr, ins, cond, false, rest)
		}
	}
	push(rest, ZeroVal(mt.Elem()), false)
	return true
}

// InitState abstractly evaluates the variable initialisers (and init functions) of the packages and
// returns the state that holds their global variables. Initialisers of other packages are unknown.
func InitState(prog *ssa.Program, pkgs []*ssa.Package, model func(in *Interp, c *Call, st *State) ([]Outcome, bool)) *State {
	st := NewState()
	st.MaxInst = 4096
	own := map[*ssa.Package]bool{}
	for _, p := range pkgs {
		own[p] = true
	}
	for _, p := range pkgs {
		init := p.Func("init")
		if init == nil {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				et := g.Type().Underlying().(*types.Pointer).Elem()
				st.StoreCell(Addr{Base: "g:" + g.String()}, ZeroVal(et))
			}
		}
		in := New(prog, Hooks{})
		in.Hooks.Call = func(in *Interp, c *Call, st *State) ([]Outcome, bool) {
			if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Signature.Recv() == nil && c.Fn.Synthetic != "" {
				return []Outcome{{St: st}}, true
			}
			if model != nil {
				return model(in, c, st)
			}
			return nil, false
		}
		in.Hooks.Inline = func(fn *ssa.Function) bool { return fn.Pkg != nil && own[fn.Pkg] && len(fn.Blocks) > 0 }
		outs := in.Run(init, nil, st.Clone())
		if len(outs) == 1 && !outs[0].Panic && !in.Capped {
			st = outs[0].St
		}
	}
	st.MaxInst = 0
	return st
}

func isZeroConst(v Val) bool {
	c, ok := v.(Const)
	return ok && c.V != nil && c.V.Kind() == constant.Int && constant.Sign(c.V) == 0
}

// MapStore writes an entry of a map whose contents are known.
func (st *State) MapStore(m, k, v Val) { st.mapStore(m, k, v) }

// ChanQueue gives the values sent on a channel and not yet received.
func (st *State) ChanQueue(v Val) (string, []Val, bool) {
	s, ok := st.Resolve(v).(Sym)
	if !ok {
		return "", nil, false
	}
	q, ok := st.Heap["!chan:"+s.ID].(Struct)
	return s.ID, q.Fields, ok
}

// ChanCap is how many values a channel holds without a receiver.
func (st *State) ChanCap(id string) int {
	n := 0
	if s := st.TS["cap:"+id]; s == "" {
		return 1 << 30
	} else {
		fmt.Sscan(s, &n)
	}
	return n
}
