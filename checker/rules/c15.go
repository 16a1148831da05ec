package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
)

// C15: what one parse, decoder or encoder does is not seen by another. Three analyses over the
// SSA form of all library packages: no memory reachable from a package level variable is written
// after initialisation (unless under a lock); an object that went into a pool is not used
// afterwards, is clean when it goes in, and the parser starts from the same state whether its
// parts are new or from a pool; bytes of the caller are neither written to nor kept.

func init() {
	register("C15", &Rule{
		Run:     runC15,
		Explain: "Interprocedural, field-based reference flow from every package level variable of the library packages to stores, map updates, appends into reused arrays and known mutating calls outside initialisation; typestate of pooled objects (clean when put, no use after put, including deferred puts and helpers that put their argument); abstract interpretation of the parser's entry points with fresh and with pooled parts, whose states must agree when parsing starts; flow of memory shared with the caller through unsafe conversions into tokens, trees and stores.",
		Assume:  []string{"functions of other modules do not keep or change what they are given, except the mutating methods of bytes.Buffer, strings.Builder, sort and slices", "functions called through function values do not write to package level state they are handed", "memory behind a mutex is left to the mutex"},
	})
}

type iso struct {
	c        *core.Ctx
	rep      *core.Report
	initOnly map[*ssa.Function]bool
	callers  map[*ssa.Function][]ssa.CallInstruction
	uses     map[ssa.Value][]ssa.Instruction // of globals
	fieldAt  map[string][]ssa.Value          // loads by kind of place
	impls    map[string][]*ssa.Function      // methods by name
	bind     map[*ssa.FreeVar]ssa.Value
	closures map[*ssa.Function]ssa.Value // what holds the closure: the MakeClosure
	all      []*ssa.Function
	lib      map[*ssa.Function]bool
}

func newIso(c *core.Ctx) *iso {
	w := &iso{c: c, rep: c.Rep, initOnly: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, uses: map[ssa.Value][]ssa.Instruction{},
		fieldAt: map[string][]ssa.Value{}, impls: map[string][]*ssa.Function{}, bind: map[*ssa.FreeVar]ssa.Value{}, closures: map[*ssa.Function]ssa.Value{}, lib: map[*ssa.Function]bool{}}
	for _, f := range c.Funcs {
		p := core.FuncPkg(f)
		if p == nil || p.Name() == "main" || len(f.Blocks) == 0 {
			continue
		}
		w.all = append(w.all, f)
		w.lib[f] = true
	}
	taken := map[*ssa.Function]bool{}
	uses := map[*ssa.Function][]ssa.Instruction{}
	for _, f := range w.all {
		if f.Signature.Recv() != nil && f.Synthetic == "" {
			w.impls[f.Name()] = append(w.impls[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Global:
						w.uses[v] = append(w.uses[v], ins)
					case *ssa.Function:
						uses[v] = append(uses[v], ins)
						ci, ok := ins.(ssa.CallInstruction)
						if !ok || ci.Common().Value != *op || ci.Common().IsInvoke() {
							taken[v] = true
						}
					}
				}
				switch ins := ins.(type) {
				case *ssa.MakeClosure:
					fn := ins.Fn.(*ssa.Function)
					w.closures[fn] = ins
					for i, b := range ins.Bindings {
						if i < len(fn.FreeVars) {
							w.bind[fn.FreeVars[i]] = b
						}
					}
				case *ssa.UnOp:
					if ins.Op == token.MUL {
						if k := w.place(ins.X); k != "" {
							w.fieldAt[k] = append(w.fieldAt[k], ins)
						}
					}
				case *ssa.Lookup:
					w.fieldAt["map "+ins.X.Type().Underlying().String()] = append(w.fieldAt["map "+ins.X.Type().Underlying().String()], ins)
				case *ssa.Field:
					k := fmt.Sprintf("field %s.%d", ins.X.Type().String(), ins.Field)
					w.fieldAt[k] = append(w.fieldAt[k], ins)
				case *ssa.Index:
					if e := elemOf(ins.X.Type()); e != nil {
						w.fieldAt["elem "+e.String()] = append(w.fieldAt["elem "+e.String()], ins)
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						w.callers[f] = append(w.callers[f], ci)
					}
				}
			}
		}
	}
	// functions that only run during initialisation
	once := func(f *ssa.Function) bool {
		rs := uses[f]
		if mc := w.closures[f]; mc != nil && mc.Referrers() != nil {
			rs = *mc.Referrers()
		}
		if len(rs) == 0 {
			return false
		}
		for _, r := range rs {
			ci, ok := r.(ssa.CallInstruction)
			if !ok || !strings.HasPrefix(calleeName(ci), "(*sync.Once).Do") && calleeName(ci) != "sync.OnceFunc" {
				return false
			}
		}
		return true
	}
	for _, f := range w.all {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || once(f) {
			w.initOnly[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.all {
			if w.initOnly[f] {
				continue
			}
			ok := false
			if f.Parent() != nil {
				// a closure called on the spot by an initialiser
				ok = w.initOnly[f.Parent()] && calledOnSpot(w.closures[f], f, w.callers[f])
			} else if f.Signature.Recv() == nil && !taken[f] && !token.IsExported(f.Name()) && len(w.callers[f]) > 0 {
				ok = true
				for _, ci := range w.callers[f] {
					ok = ok && w.initOnly[ci.Parent()]
				}
			}
			if ok {
				w.initOnly[f], changed = true, true
			}
		}
	}
	return w
}

func calledOnSpot(mc ssa.Value, f *ssa.Function, callers []ssa.CallInstruction) bool {
	if mc == nil {
		return len(callers) > 0
	}
	refs := mc.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		ci, ok := r.(ssa.CallInstruction)
		if !ok || ci.Common().Value != mc {
			return false
		}
	}
	return true
}

func calleeName(ci ssa.CallInstruction) string {
	if f := ci.Common().StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		return f.String()
	}
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return ""
}

func elemOf(t types.Type) types.Type {
	switch t := t.Underlying().(type) {
	case *types.Slice:
		return t.Elem()
	case *types.Array:
		return t.Elem()
	case *types.Pointer:
		if a, ok := t.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

// place names the kind of memory an address leads to: all places of a kind are one.
func (w *iso) place(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("field %s.%d", a.X.Type().Underlying().(*types.Pointer).Elem().String(), a.Field)
	case *ssa.IndexAddr:
		if e := elemOf(a.X.Type()); e != nil {
			return "elem " + e.String()
		}
	case *ssa.Alloc:
		return fmt.Sprintf("local %p", a)
	case *ssa.FreeVar:
		if b := w.bind[a]; b != nil {
			return w.place(b)
		}
	case *ssa.Global:
		return "global " + a.String()
	}
	return ""
}

func holdsRefs(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Array:
		return holdsRefs(t.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if holdsRefs(t.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if holdsRefs(t.At(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// reach lists the named types of the memory a variable leads to.
func (w *iso) reach(g *ssa.Global) map[string]bool {
	out := map[string]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		k := t.String()
		if out[k] {
			return
		}
		out[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Elem())
			walk(u.Key())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		}
	}
	walk(g.Type().Underlying().(*types.Pointer).Elem())
	// what its initialisers put behind interfaces
	for _, ins := range w.uses[g] {
		st, ok := ins.(*ssa.Store)
		if !ok || st.Addr != g {
			continue
		}
		if mi, ok := st.Val.(*ssa.MakeInterface); ok {
			walk(mi.X.Type())
		}
	}
	return out
}

var mutators = map[string]bool{
	"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "sort.Strings": true, "sort.Ints": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "maps.Copy": true, "maps.DeleteFunc": true,
}

func mutating(name string) bool {
	if mutators[name] {
		return true
	}
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		if strings.HasPrefix(name, p) {
			switch strings.TrimPrefix(name, p) {
			case "Len", "Cap", "String", "Bytes", "Available":
				return false
			}
			return true
		}
	}
	return strings.HasPrefix(name, "(*math/rand.Rand).") || strings.HasPrefix(name, "(*container/list.List).") && !strings.HasSuffix(name, ".Len")
}

// flow follows everything that refers to memory of one origin.
type flow struct {
	w     *iso
	types map[string]bool // types the memory can have, nil: any
	seen  map[ssa.Value]bool
	kinds map[string]bool
	rets  map[*ssa.Function]map[int]bool
	work  []ssa.Value
	write func(ins ssa.Instruction, how string)
	text  bool // strings are references too
	keep  func(ins ssa.Instruction, place string)
}

func (f *flow) holds(t types.Type) bool {
	if f.text {
		return true
	}
	return holdsRefs(t, 0)
}

func (f *flow) add(v ssa.Value) {
	if v == nil || f.seen[v] || !f.holds(v.Type()) {
		return
	}
	if f.types != nil {
		t := v.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && !types.IsInterface(n) && !f.types[n.String()] {
			return
		}
	}
	f.seen[v] = true
	f.work = append(f.work, v)
}

func (f *flow) addKind(k string) {
	if k == "" || f.kinds[k] {
		return
	}
	f.kinds[k] = true
	for _, v := range f.w.fieldAt[k] {
		f.add(v)
	}
}

func (f *flow) ret(fn *ssa.Function, i int) {
	if f.rets[fn] == nil {
		f.rets[fn] = map[int]bool{}
	}
	if f.rets[fn][i] {
		return
	}
	f.rets[fn][i] = true
	for _, ci := range f.w.callers[fn] {
		v := ci.Value()
		if v == nil {
			continue
		}
		if fn.Signature.Results().Len() == 1 {
			f.add(v)
			continue
		}
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == i {
					f.add(e)
				}
			}
		}
	}
	// through interfaces: not followed back
}

func (f *flow) run() {
	for len(f.work) > 0 {
		v := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		var refs []ssa.Instruction
		if g, ok := v.(*ssa.Global); ok {
			refs = f.w.uses[g]
		} else if r := v.Referrers(); r != nil {
			refs = *r
		}
		for _, ins := range refs {
			f.step(v, ins)
		}
	}
}

func (f *flow) step(v ssa.Value, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.UnOp:
		if ins.Op == token.MUL {
			f.add(ins)
		}
	case *ssa.FieldAddr, *ssa.Field, *ssa.Slice, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Phi, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer, *ssa.TypeAssert:
		f.add(ins.(ssa.Value))
	case *ssa.Extract:
		f.add(ins)
	case *ssa.IndexAddr:
		if ins.X == v {
			f.add(ins)
		}
	case *ssa.Index:
		if ins.X == v && !f.text {
			f.add(ins)
		}
	case *ssa.Lookup:
		if ins.X == v && !f.text {
			f.add(ins)
		}
	case *ssa.Convert:
		// a copy, unless it only renames
		if f.text && types.Identical(ins.X.Type().Underlying(), ins.Type().Underlying()) {
			f.add(ins)
		}
	case *ssa.BinOp:
	case *ssa.Store:
		if ins.Addr == v {
			f.write(ins, "stored to")
		} else {
			k := f.w.place(ins.Addr)
			if f.keep != nil {
				f.keep(ins, k)
			}
			f.addKind(k)
		}
	case *ssa.MapUpdate:
		if ins.Map == v {
			f.write(ins, "stored to")
		}
		if ins.Value == v {
			f.addKind("map " + ins.Map.Type().Underlying().String())
		}
	case *ssa.Return:
		for i, r := range ins.Results {
			if r == v {
				f.ret(ins.Parent(), i)
			}
		}
	case *ssa.MakeClosure:
		fn := ins.Fn.(*ssa.Function)
		for i, b := range ins.Bindings {
			if b == v && i < len(fn.FreeVars) {
				f.add(fn.FreeVars[i])
			}
		}
	case ssa.CallInstruction:
		f.call(v, ins)
	}
}

func (f *flow) call(v ssa.Value, ci ssa.CallInstruction) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "clear":
			if cc.Args[0] == v {
				f.write(ci, b.Name())
			}
		case "append":
			if cc.Args[0] == v {
				if s, ok := v.(*ssa.Slice); ok && s.High != nil {
					f.write(ci, "appended over")
				}
			}
		case "ssa:wrapnilchk":
			if r := ci.Value(); r != nil {
				f.add(r)
			}
		}
		return
	}
	into := func(fn *ssa.Function, args []ssa.Value) {
		for i, a := range args {
			if a == v && i < len(fn.Params) {
				f.add(fn.Params[i])
			}
		}
	}
	if cc.IsInvoke() {
		for _, m := range f.w.impls[cc.Method.Name()] {
			it, ok := cc.Value.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(m.Signature.Recv().Type(), it) {
				continue
			}
			into(m, append([]ssa.Value{cc.Value}, cc.Args...))
		}
		return
	}
	fn := cc.StaticCallee()
	if fn == nil {
		return
	}
	if f.w.lib[fn] {
		into(fn, cc.Args)
		return
	}
	name := calleeName(ci)
	if mutating(name) && len(cc.Args) > 0 && cc.Args[0] == v {
		f.write(ci, "changed by "+name)
	}
	if f.text {
		switch {
		case strings.HasPrefix(name, "strings.Trim"), strings.HasPrefix(name, "strings.Split"), strings.HasPrefix(name, "strings.Cut"), strings.HasPrefix(name, "strings.Fields"), strings.HasPrefix(name, "bytes.Trim"), strings.HasPrefix(name, "bytes.Split"), strings.HasPrefix(name, "bytes.Cut"):
			if r := ci.Value(); r != nil && len(cc.Args) > 0 && cc.Args[0] == v {
				f.add(r)
			}
		}
	}
}

// locked: a lock is taken on every way to ins.
func locked(ins ssa.Instruction) bool {
	b := ins.Block()
	for _, o := range ins.Parent().Blocks {
		for _, i := range o.Instrs {
			ci, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			switch calleeName(ci) {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			default:
				continue
			}
			if o == b {
				for _, j := range b.Instrs {
					if j == i {
						return true
					}
					if j == ins {
						break
					}
				}
			} else if o.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func runC15(c *core.Ctx) {
	w := newIso(c)
	rep := c.Rep
	rep.Count("library functions", len(w.all))
	w.packageState()
	w.pools()
	w.callerBytes()
	rep.Floor("package variables", 10)
	rep.Floor("pooled objects", 6)
}

func (w *iso) packageState() {
	var gs []*ssa.Global
	for _, p := range w.c.SSA {
		if p.Pkg.Name() == "main" || !strings.HasPrefix(p.Pkg.Path(), core.Mod) {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "_" && !strings.HasPrefix(g.Name(), "init$") {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		w.rep.Ob("package variables")
		f := &flow{w: w, types: w.reach(g), seen: map[ssa.Value]bool{}, kinds: map[string]bool{}, rets: map[*ssa.Function]map[int]bool{}}
		f.write = func(ins ssa.Instruction, how string) {
			fn := ins.Parent()
			if w.initOnly[fn] {
				return
			}
			if locked(ins) {
				w.rep.Ob("locked writes")
				return
			}
			// a cell that only holds a copy
			w.rep.Violate("package state", core.FuncName(fn), w.c.Pos(ins.Pos()), "memory of the package level variable %s is %s after initialisation: calls see what others did", strings.TrimPrefix(g.String(), core.Mod+"/"), how)
		}
		f.seen[g] = true
		f.work = append(f.work, g)
		f.run()
		w.rep.Count("values followed", len(f.seen))
	}
}

// ---- pools

func (w *iso) poolOf(ci ssa.CallInstruction) (pool, op string) {
	switch n := calleeName(ci); n {
	case "(*sync.Pool).Get", "(*sync.Pool).Put":
		return w.place(ci.Common().Args[0]) + "|", n[len("(*sync.Pool)."):]
	}
	return "", ""
}

// root is the value v is another name of.
func (w *iso) root(v ssa.Value) ssa.Value {
	for n := 0; n < 40; n++ {
		switch x := v.(type) {
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				v = t.X
				continue
			}
			return v
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			cell := x.X
			if fv, ok := cell.(*ssa.FreeVar); ok && w.bind[fv] != nil {
				cell = w.bind[fv]
			}
			al, ok := cell.(*ssa.Alloc)
			if !ok {
				return v
			}
			var stored ssa.Value
			cnt := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					stored, cnt = s.Val, cnt+1
				}
			}
			if cnt != 1 {
				return al
			}
			v = stored
		default:
			return v
		}
	}
	return v
}

type putSum struct {
	raw bool // the caller has to clean it
}

func isBuffer(v ssa.Value) bool {
	switch v.Type().String() {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

func (w *iso) pools() {
	// functions that put an argument
	puts := map[*ssa.Function]map[int]*putSum{}
	// pools whose every Get cleans first
	cleansOnGet := map[string]bool{}
	gets := map[string]int{}
	for _, f := range w.all {
		eachCall(f, func(ci ssa.CallInstruction) {
			pool, op := w.poolOf(ci)
			if op != "Get" {
				return
			}
			gets[pool]++
			if gets[pool] == 1 {
				cleansOnGet[pool] = true
			}
			if v := ci.Value(); v == nil || !w.cleanedFirst(f, v) {
				cleansOnGet[pool] = false
			}
		})
	}
	// event: what a call does to the pooled object x: "put", "rawput"
	event := func(ci ssa.CallInstruction) (x ssa.Value, raw, ok bool, pool string) {
		if p, op := w.poolOf(ci); op == "Put" {
			return w.root(ci.Common().Args[1]), true, true, p
		}
		fn := ci.Common().StaticCallee()
		if fn == nil {
			return
		}
		for i, s := range puts[fn] {
			if i < len(ci.Common().Args) {
				return w.root(ci.Common().Args[i]), s.raw, true, ""
			}
		}
		return
	}
	for round := 0; round < 4; round++ {
		for _, f := range w.all {
			eachCall(f, func(ci ssa.CallInstruction) {
				x, raw, ok, pool := event(ci)
				if !ok {
					return
				}
				p, isP := x.(*ssa.Parameter)
				if !isP || p.Parent() != f {
					return
				}
				for i, q := range f.Params {
					if q != p {
						continue
					}
					if puts[f] == nil {
						puts[f] = map[int]*putSum{}
					}
					need := raw && !cleansOnGet[pool] && isBuffer(p) && !w.cleanAt(f, p, ci, event)
					puts[f][i] = &putSum{raw: need}
				}
			})
		}
	}
	for _, f := range w.all {
		eachCall(f, func(ci ssa.CallInstruction) {
			x, raw, ok, pool := event(ci)
			if !ok {
				return
			}
			w.rep.Ob("pooled objects")
			if raw && isBuffer(x) || raw && isBufferArg(ci) {
				if p, isP := x.(*ssa.Parameter); !(isP && p.Parent() == f) && !cleansOnGet[pool] && !w.cleanAt(f, x, ci, event) {
					w.rep.Violate("pooled objects", core.FuncName(f), w.c.Pos(ci.Pos()), "a buffer goes back to the pool with text in it")
				}
			}
			w.usedAfter(f, x, ci)
		})
	}
	w.parserStart()
}

func isBufferArg(ci ssa.CallInstruction) bool {
	for _, a := range ci.Common().Args {
		if m, ok := a.(*ssa.MakeInterface); ok && isBuffer(m.X) || isBuffer(a) {
			return true
		}
	}
	return false
}

func eachCall(f *ssa.Function, do func(ssa.CallInstruction)) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				do(ci)
			}
		}
	}
}

// resets: the call empties x.
func (w *iso) resets(ci ssa.CallInstruction, x ssa.Value) bool {
	n := calleeName(ci)
	args := ci.Common().Args
	if len(args) == 0 || w.root(args[0]) != x {
		return false
	}
	switch n {
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		return true
	case "(*bytes.Buffer).Truncate":
		k, ok := args[1].(*ssa.Const)
		return ok && k.Int64() == 0
	}
	return false
}

// cleanedFirst: the first thing done with what Get gave is to empty it.
func (w *iso) cleanedFirst(f *ssa.Function, v ssa.Value) bool {
	var first ssa.CallInstruction
	eachCall(f, func(ci ssa.CallInstruction) {
		if first == nil && ci.Value() != v && w.resets(ci, w.root(v)) {
			if _, d := ci.(*ssa.Defer); !d {
				first = ci
			}
		}
	})
	if first == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ins == first || ins == v.(ssa.Instruction) {
				continue
			}
			switch ins.(type) {
			case *ssa.TypeAssert, *ssa.Extract, *ssa.UnOp, *ssa.Store, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Phi, *ssa.MakeClosure, *ssa.Defer, *ssa.DebugRef:
				continue
			}
			uses := false
			for _, op := range ins.Operands(nil) {
				if op != nil && *op != nil && w.root(*op) == w.root(v) {
					uses = true
				}
			}
			if uses && !before(first, ins) {
				return false
			}
		}
	}
	return true
}

// before: a is executed on every way to b.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// cleanAt: on every way to the put the buffer has been emptied after it was last written to.
func (w *iso) cleanAt(f *ssa.Function, x ssa.Value, put ssa.CallInstruction, event func(ssa.CallInstruction) (ssa.Value, bool, bool, string)) bool {
	const (
		none = iota
		clean
		dirty
	)
	in := map[*ssa.BasicBlock]int{}
	start := none
	if i, ok := x.(ssa.Instruction); !ok || i.Parent() != f {
		start = dirty
	} else if _, ok := x.(*ssa.Alloc); ok {
		start = clean
	}
	in[f.Blocks[0]] = max(start, clean)
	bad := false
	deferred := false
	if d, ok := put.(*ssa.Defer); ok {
		deferred = true
		// a deferred call that empties it and runs before
		eachCall(f, func(ci ssa.CallInstruction) {
			if e, ok := ci.(*ssa.Defer); ok && e != d && w.resets(ci, x) && before(d, e) {
				bad = true // marks: handled
			}
		})
		if bad {
			return true
		}
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		s := in[b]
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok && v == x {
				s = clean
				continue
			}
			if _, ok := ins.(*ssa.RunDefers); ok && deferred && before(put, ins) && s == dirty {
				bad = true
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == x {
					s = clean
				}
				continue
			}
			if _, d := ins.(*ssa.Defer); d {
				continue
			}
			if ci == put {
				if s == dirty {
					bad = true
				}
				continue
			}
			if w.resets(ci, x) {
				s = clean
				continue
			}
			touches := false
			for _, a := range append([]ssa.Value{ci.Common().Value}, ci.Common().Args...) {
				if a != nil && w.root(a) == x {
					touches = true
				}
				if mc, ok := a.(*ssa.MakeClosure); ok {
					for _, bd := range mc.Bindings {
						if al, ok := bd.(*ssa.Alloc); ok && (al == x || w.cellHolds(al, x)) {
							touches = true
						}
					}
				}
			}
			if touches {
				switch calleeName(ci) {
				case "(*bytes.Buffer).Len", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Cap", "(*strings.Builder).String", "(*strings.Builder).Len":
				default:
					s = dirty
				}
			}
		}
		for _, nx := range b.Succs {
			if m := max(in[nx], s); m != in[nx] {
				in[nx] = m
				work = append(work, nx)
			}
		}
	}
	return !bad
}

func (w *iso) cellHolds(al *ssa.Alloc, x ssa.Value) bool {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al && w.root(s.Val) == x {
			return true
		}
	}
	return false
}

// usedAfter reports uses of x after it went into the pool.
func (w *iso) usedAfter(f *ssa.Function, x ssa.Value, put ssa.CallInstruction) {
	if _, ok := x.(*ssa.Const); ok {
		return
	}
	isAlias := w.aliases(f, x)
	report := func(ins ssa.Instruction) {
		p := ins.Pos()
		if p == token.NoPos {
			p = put.Pos()
		}
		w.rep.Violate("use after put", core.FuncName(f), w.c.Pos(p), "what went into the pool is still used: the next one to take it works on the same memory")
	}
	if _, ok := put.(*ssa.Defer); ok {
		w.returned(f, x, report)
		return
	}
	// a put in a deferred closure: what the enclosing function returns
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if v, ok := ins.(ssa.Value); ok && v == x {
				return
			}
			switch s := ins.(type) {
			case *ssa.DebugRef, *ssa.Phi:
				continue
			case *ssa.Store:
				if s.Addr == x {
					return
				}
			case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.UnOp, *ssa.TypeAssert, *ssa.Extract:
				// names only; what uses them counts
				continue
			}
			if ins == put {
				report(ins)
				return
			}
			for _, op := range ins.Operands(nil) {
				if op != nil && isAlias(*op) {
					report(ins)
					return
				}
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				walk(n, 0)
			}
		}
	}
	for i, ins := range put.Block().Instrs {
		if ins == put {
			walk(put.Block(), i+1)
		}
	}
	if f.Parent() != nil && w.closures[f] != nil {
		outer := f.Parent()
		isDeferred := false
		for _, r := range *w.closures[f].Referrers() {
			if d, ok := r.(*ssa.Defer); ok && d.Call.Value == w.closures[f] {
				isDeferred = true
			}
		}
		if isDeferred {
			w.returned(outer, x, report)
		}
	}
}

// aliases: what in f leads to the memory of x.
func (w *iso) aliases(f *ssa.Function, x ssa.Value) func(ssa.Value) bool {
	alias := map[ssa.Value]bool{}
	isAlias := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		return alias[v] || w.root(v) == x
	}
	// memory of a buffer handed out
	eachCall(f, func(ci ssa.CallInstruction) {
		switch calleeName(ci) {
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next", "(*bytes.Buffer).AvailableBuffer":
			if w.root(ci.Common().Args[0]) == x && ci.Value() != nil {
				alias[ci.Value()] = true
			}
		}
	})
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || alias[v] {
					continue
				}
				switch i := ins.(type) {
				case *ssa.Slice:
					if alias[i.X] {
						alias[v], changed = true, true
					}
				case *ssa.UnOp:
					if al, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL {
						for _, r := range *al.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == al && alias[s.Val] {
								alias[v], changed = true, true
							}
						}
					}
				case *ssa.Phi:
					for _, e := range i.Edges {
						if alias[e] {
							alias[v], changed = true, true
						}
					}
				case *ssa.Call:
					// the conversion without a copy
					if fn := i.Call.StaticCallee(); fn != nil && core.FuncPkg(fn) != nil && strings.HasSuffix(core.FuncPkg(fn).Path(), "/strslice") && len(i.Call.Args) == 1 && alias[i.Call.Args[0]] {
						alias[v], changed = true, true
					}
					if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "String" || b.Name() == "SliceData" || b.Name() == "StringData" || b.Name() == "Slice") && len(i.Call.Args) > 0 && alias[i.Call.Args[0]] {
						alias[v], changed = true, true
					}
				}
			}
		}
	}
	return isAlias
}

// returned: f returns x or memory of it, which a deferred call puts into the pool.
func (w *iso) returned(f *ssa.Function, x ssa.Value, report func(ssa.Instruction)) {
	isAlias := w.aliases(f, x)
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok {
				for _, v := range r.Results {
					if isAlias(v) {
						report(r)
					}
				}
			}
		}
	}
}

// ---- memory shared with the caller

func (w *iso) callerBytes() {
	src := []ssa.Value{}
	for _, f := range w.all {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(*ssa.Call); ok {
					if b, ok := ci.Call.Value.(*ssa.Builtin); ok && (b.Name() == "String" || b.Name() == "Slice") {
						src = append(src, ci)
					}
				}
				if cv, ok := ins.(*ssa.Convert); ok {
					if b, ok := cv.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						src = append(src, cv)
					}
				}
			}
		}
	}
	for _, s := range src {
		w.rep.Ob("shared memory")
		fn := s.(ssa.Instruction).Parent()
		f := &flow{w: w, seen: map[ssa.Value]bool{}, kinds: map[string]bool{}, rets: map[*ssa.Function]map[int]bool{}, text: true}
		f.write = func(ins ssa.Instruction, how string) {
			w.rep.Violate("shared memory", core.FuncName(ins.Parent()), w.c.Pos(ins.Pos()), "memory shared with the caller (%s) is %s", core.FuncName(fn), how)
		}
		f.keep = func(ins ssa.Instruction, place string) {
			for _, p := range []string{"field " + core.Mod + "/engines/yayamls/ast.", "field " + core.Mod + "/engines/yayamls/token."} {
				if strings.HasPrefix(place, p) {
					w.rep.Violate("shared memory", core.FuncName(ins.Parent()), w.c.Pos(ins.Pos()), "text of a token or tree is memory of the caller, who may change it (%s)", core.FuncName(fn))
				}
			}
		}
		f.add(s)
		f.run()
		w.rep.Count("values followed", len(f.seen))
	}
}
