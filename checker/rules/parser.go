package rules

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

// Modular typestate analysis of the recursive-descent parser. Every parse function (a function
// over the parser that returns a node) is interpreted abstractly on its own; the parse functions
// it calls are replaced by their summaries (which outcomes they can have: valid or not, tokens
// consumed or not, text buffer changed or not), which are computed as a fixpoint. The state
// tracks the checkpoint stack, the position relative to each checkpoint, the text buffers
// relative to each checkpoint, the lexer mode and the indentation.

const (
	yayaml    = core.Mod + "/engines/yayamls"
	parserPkg = yayaml + "/parser"
	accPkg    = yayaml + "/pkg/cpaccessor"
)

type psum struct { // one outcome of a parse function
	kind     string // invalid, null, other
	consumed bool
	buf      bool // the buffer argument changed
	written  bool // the current token's text is already in the buffer
}

type pviol struct{ rule, fn, where, why string }

type parserAn struct {
	c         *core.Ctx
	named     *types.Named // the parser
	tokType   types.Type
	node      *types.Interface
	fns       []*ssa.Function
	isParse   map[*ssa.Function]bool
	inline    map[*ssa.Function]bool
	prim      map[*ssa.Function]string
	sums      map[*ssa.Function]map[psum]bool
	vals      map[string]Val
	nodeKind  map[string]string
	viol      map[*ssa.Function][]pviol
	leftCalls map[*ssa.Function]map[*ssa.Function]bool
	capped    map[*ssa.Function]string
	paths     int
	loops     map[string]bool
	cur       *ssa.Function
	snapCells []cellInfo
	errCell   string
	dynType   map[string]types.Type
	astInit   *State
	discarded map[string]bool
	uses      map[*ssa.Function]bool
	pathsOf   map[*ssa.Function]int
	users     map[*ssa.Function]map[*ssa.Function]bool
	deadline  time.Time
	track     bool // follow the nodes that parse functions deliver
	lost      []lostNode
	content   map[*ssa.Function]map[*ssa.Function]bool // parse function -> functions that use its node
	siteOf    map[string]siteInfo
}

func hasRecvParam(fn *ssa.Function, n *types.Named) bool {
	for _, p := range fn.Params {
		if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), n) {
			return true
		}
	}
	return false
}

func isNodeIface(t types.Type, node *types.Interface) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && types.Identical(i, node)
}

func hasFuncParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func isBufPtr(t types.Type) bool { return t.String() == "*bytes.Buffer" }

// newParserAn finds the parser: the struct of the parser package with a token and a slice of errors.
func newParserAn(c *core.Ctx) *parserAn {
	sp := c.SSA[parserPkg]
	tok := c.Named(yayaml+"/token", "Token")
	node := ifaceOf(c, astPkg, "Node")
	if sp == nil || tok == nil || node == nil {
		return nil
	}
	a := &parserAn{c: c, tokType: tok, node: node, isParse: map[*ssa.Function]bool{}, inline: map[*ssa.Function]bool{},
		prim: map[*ssa.Function]string{}, vals: map[string]Val{}, nodeKind: map[string]string{}, dynType: map[string]types.Type{}, loops: map[string]bool{}}
	sc := c.Pkgs[parserPkg].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nm, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		s, ok := nm.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		hasTok, errs := false, ""
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), tok) {
				hasTok = true
			}
			if isErrSlice(s.Field(i).Type()) {
				errs = s.Field(i).Name()
			}
		}
		if hasTok && errs != "" {
			a.named = nm
			a.errCell = "*P." + errs
			for _, l := range leafCells("*P", nm) {
				if _, basic := l.t.Underlying().(*types.Basic); basic {
					a.snapCells = append(a.snapCells, l)
				}
			}
			break
		}
	}
	if a.named == nil {
		return nil
	}
	for _, fn := range c.Funcs {
		if core.FuncPkg(fn) == nil || core.FuncPkg(fn).Path() != parserPkg || len(fn.Blocks) == 0 || fn.Parent() != nil || fn.Synthetic != "" || !hasRecvParam(fn, a.named) {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 1 && isNodeIface(res.At(0).Type(), node) {
			a.fns = append(a.fns, fn)
			a.isParse[fn] = true
			if hasFuncParam(fn) {
				a.inline[fn] = true
			}
			continue
		}
		if k := a.primitiveKind(fn); k != "" {
			a.prim[fn] = k
		}
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })
	return a
}

func accessorOp(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil {
		return ""
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	if core.FuncPkg(o) == nil || core.FuncPkg(o).Path() != accPkg {
		// promoted through an embedded pointer: a synthetic wrapper
		if f.Synthetic == "" || f.Signature.Recv() == nil {
			return ""
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					return accessorOp(ci.Common())
				}
			}
		}
		return ""
	}
	switch o.Name() {
	case "Next", "SetCheckpoint", "Commit", "Rollback":
		return o.Name()
	}
	return ""
}

// primitiveKind: a function over the parser that performs exactly one kind of accessor operation itself.
func (a *parserAn) primitiveKind(fn *ssa.Function) string {
	kind := ""
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if k := accessorOp(ci.Common()); k != "" {
				if kind != "" {
					return ""
				}
				kind = k
			}
			if f := ci.Common().StaticCallee(); f != nil && a.isParse[f] {
				return ""
			}
		}
	}
	return kind
}

// position record: consumed since entry, garbage, written, loop headers seen since the last consumed token
type ppos struct {
	c, g, w bool
	h       string // ";"-separated headers visited at this very position
}

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func (p ppos) String() string { return b01(p.c) + b01(p.g) + b01(p.w) + p.h }

func posOf(st *State) ppos {
	s := st.TS["pos"]
	if len(s) < 3 {
		return ppos{}
	}
	return ppos{s[0] == '1', s[1] == '1', s[2] == '1', s[3:]}
}

func setPos(st *State, p ppos) { st.TS["pos"] = p.String() }

func (a *parserAn) remember(v Val) string {
	k := v.Key()
	a.vals[k] = v
	return k
}

const sep = "\x01"
const sep2 = "\x02"
const sep3 = "\x03"

func (a *parserAn) snapshot(st *State) string {
	var out []string
	for _, l := range a.snapCells {
		out = append(out, a.remember(st.Load(Addr{Base: "*P", Path: strings.TrimPrefix(l.cell, "*P")}, l.t)))
	}
	return strings.Join(out, sep2)
}

func (a *parserAn) restore(st *State, snap string) {
	for i, k := range strings.Split(snap, sep2) {
		if i < len(a.snapCells) {
			st.StoreCell(Addr{Base: "*P", Path: strings.TrimPrefix(a.snapCells[i].cell, "*P")}, a.vals[k])
		}
	}
}

// errsKnown: errors are certainly recorded.
func (a *parserAn) errsLen(in *Interp, st *State) Val {
	v := st.Load(Addr{Base: "*P", Path: strings.TrimPrefix(a.errCell, "*P")}, types.NewSlice(errType))
	return st.Len(v)
}

func (a *parserAn) errsKnown(in *Interp, st *State) bool {
	lo, _, ok := st.Interval(a.errsLen(in, st))
	return ok && lo > 0
}

// havocParser forgets the parser's fields (errors only grow).
func (a *parserAn) havocParser(in *Interp, st *State, site string) {
	a.havocParserAs(in, st, st.FreshID("hv:"+site))
}

func (a *parserAn) havocParserAs(in *Interp, st *State, ver string) {
	had := a.errsKnown(in, st)
	none := false
	if _, hi, ok := st.Interval(a.errsLen(in, st)); ok && hi == 0 {
		none = strings.HasPrefix(ver, "loop:")
	}
	st.Havoc("*P", ver)
	// what was known of earlier tokens is of no use, unless a rollback may bring them back
	for k := range st.Facts {
		if strings.Contains(k, "cell<*P.") && !strings.Contains(st.TS["cp"], k) {
			delete(st.Facts, k)
		}
	}
	if had {
		st.Assume(Cmp{Op: "<=", X: Int(1), Y: a.errsLen(in, st)}, true)
	} else if none {
		st.Assume(Cmp{Op: "==", X: Int(0), Y: a.errsLen(in, st)}, true)
	}
}

// havocErrors: the operation may record an error.
func (a *parserAn) havocErrors(in *Interp, st *State, site string) {
	had := a.errsKnown(in, st)
	st.Havoc(a.errCell, "he:"+site)
	if had {
		st.Assume(Cmp{Op: "<=", X: Int(1), Y: a.errsLen(in, st)}, true)
	}
}

func (a *parserAn) bad(rule string, st *State, pos string, format string, args ...any) {
	fn := a.cur
	a.viol[fn] = append(a.viol[fn], pviol{rule, fnName(fn), pos, fmt.Sprintf(format, args...)})
}

func fnName(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		return strings.TrimPrefix(strings.ReplaceAll(o.(*types.Func).FullName(), core.Mod+"/", ""), "")
	}
	return fn.String()
}

func (a *parserAn) where(c *Call) string { return a.c.Pos(c.Instr.Pos()) }

// ---- buffers

func bufID(v Val) string { return v.Key() }

func bufLabel(st *State, id string) string {
	if l, ok := st.TS["b:"+id]; ok {
		return l
	}
	if strings.HasPrefix(id, "&a:") {
		return "empty"
	}
	return "entry"
}

func (a *parserAn) bufUse(in *Interp, st *State, id, where, what string) {
	if st.TS["put:"+id] != "" {
		a.bad("buffer", st, where, "%s uses a text buffer after it went back to the pool", what)
		delete(st.TS, "put:"+id)
	}
	if st.TS["dirty:"+id] != "" && !a.errsKnown(in, st) {
		a.bad("buffer", st, where, "%s happens while the buffer still holds text of a failed alternative", what)
		delete(st.TS, "dirty:"+id)
	}
}

func (a *parserAn) checkpointSet(st *State) {
	if a.track {
		st.TS["lvs"] += "\x00" + st.TS["lv"]
	}
	var bl []string
	for k, v := range st.TS {
		if strings.HasPrefix(k, "b:") {
			bl = append(bl, k+"="+v)
		}
	}
	sort.Strings(bl)
	e := strings.Join([]string{st.TS["pos"], strings.Join(bl, ","), a.snapshot(st)}, sep)
	if st.TS["cp"] != "" {
		e = st.TS["cp"] + "\x00" + e
	}
	st.TS["cp"] = e
}

func cpStack(st *State) []string {
	if st.TS["cp"] == "" {
		return nil
	}
	return strings.Split(st.TS["cp"], "\x00")
}

func (a *parserAn) pop(st *State, what, where string, in *Interp) (string, bool) {
	s := cpStack(st)
	if len(s) == 0 {
		if !a.errsKnown(in, st) {
			a.bad("balance", st, where, "%s without a checkpoint of its own on some path", what)
		}
		return "", false
	}
	st.TS["cp"] = strings.Join(s[:len(s)-1], "\x00")
	if a.track {
		l := st.TS["lvs"]
		if i := strings.LastIndexByte(l, 0); i >= 0 {
			if what == "a rollback" {
				st.TS["lv"] = l[i+1:]
			}
			st.TS["lvs"] = l[:i]
		}
	}
	return s[len(s)-1], true
}

func (a *parserAn) doRollback(in *Interp, st *State, site, where string) {
	e, ok := a.pop(st, "a rollback", where, in)
	if !ok {
		a.havocParser(in, st, site)
		p := posOf(st)
		p.g = true
		setPos(st, p)
		return
	}
	f := strings.SplitN(e, sep, 3)
	st.TS["pos"] = f[0]
	a.restore(st, f[2])
	// what the failed alternative wrote must be removed
	saved := map[string]string{}
	for _, kv := range strings.Split(f[1], ",") {
		if i := strings.Index(kv, "="); i > 0 {
			saved[kv[:i]] = kv[i+1:]
		}
	}
	for k, v := range st.TS {
		if !strings.HasPrefix(k, "b:") {
			continue
		}
		id := strings.TrimPrefix(k, "b:")
		want, had := saved[k]
		if !had {
			if !strings.HasPrefix(id, "$P:") {
				continue // a buffer taken after the checkpoint
			}
			want = "entry"
		}
		if want != v {
			st.TS["dirty:"+id] = want
			st.TS["want:"+id] = want
		}
	}
}

func (a *parserAn) consume(in *Interp, st *State, site, where string) {
	p := posOf(st)
	if p.g && !a.errsKnown(in, st) {
		a.bad("backtrack", st, where, "a token is consumed although a failed alternative's tokens have not been given back")
		p.g = false
	}
	p.c, p.w, p.h = true, false, ""
	setPos(st, p)
	a.havocParser(in, st, site)
}

func (a *parserAn) model(in *Interp, c *Call, st *State) ([]Outcome, bool) {
	none := func() ([]Outcome, bool) { return []Outcome{{St: st}}, true }
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: v}}, true }
	where := ""
	if c.Instr != nil {
		where = a.where(c)
	}
	if a.track {
		a.callUses(c, st)
	}
	if c.Fn != nil {
		k := a.prim[c.Fn]
		direct := false
		if k == "" {
			if k = accessorOp(c.Common); k != "" {
				direct = true
			}
		}
		switch k {
		case "Next":
			a.consume(in, st, c.Site, where)
			if direct {
				v := Sym{ID: st.FreshID("tok:" + c.Site), T: a.tokType}
				return one(v)
			}
			return none()
		case "SetCheckpoint":
			a.checkpointSet(st)
			return none()
		case "Commit":
			a.pop(st, "a commit", where, in)
			return none()
		case "Rollback":
			a.doRollback(in, st, c.Site, where)
			if direct {
				return one(Sym{ID: st.FreshID("tok:" + c.Site), T: a.tokType})
			}
			return none()
		}
	}
	if m := c.Common.Method; c.Common.IsInvoke() && m != nil {
		switch m.Name() {
		case "SetRawMode":
			st.TS["raw"] = "1"
			return none()
		case "UnsetRawMode":
			delete(st.TS, "raw")
			return none()
		}
	}
	if c.Fn != nil && c.Fn.Synthetic != "" && (c.Fn.Name() == "SetRawMode" || c.Fn.Name() == "UnsetRawMode") {
		if c.Fn.Name() == "SetRawMode" {
			st.TS["raw"] = "1"
		} else {
			delete(st.TS, "raw")
		}
		return none()
	}
	if c.Fn != nil && core.FuncPkg(c.Fn) != nil && core.FuncPkg(c.Fn).Path() == astPkg && c.Fn.Signature.Recv() != nil && len(c.Args) > 0 && c.Fn.Name() != "Type" {
		if _, isNil := st.Resolve(c.Args[0]).(Nil); isNil {
			return []Outcome{{St: st, Panic: true, Note: "method of a nil node"}}, true
		}
	}
	// nodes
	if o, ok := a.nodeModel(in, c, st); ok {
		return o, true
	}
	if o, ok := a.bufModel(in, c, st, where); ok {
		return o, true
	}
	switch c.Name() {
	case "(*sync.Pool).Get":
		id := st.FreshID("buf:" + c.Site)
		v := Sym{ID: id, T: types.NewPointer(types.Typ[types.Int])}
		st.SetNil(v, 2)
		var bt types.Type
		for _, imp := range a.c.Pkgs[parserPkg].Types.Imports() {
			if imp.Path() == "bytes" {
				bt = types.NewPointer(imp.Scope().Lookup("Buffer").Type())
			}
		}
		if bt == nil {
			return nil, false
		}
		v.T = bt
		st.TS["b:"+bufID(v)] = "empty"
		delete(st.TS, "put:"+bufID(v))
		delete(st.TS, "dirty:"+bufID(v))
		return one(Iface{T: bt, V: v})
	case "(*sync.Pool).Put":
		x := st.Resolve(c.Args[1])
		if iv, ok := x.(Iface); ok {
			x = iv.V
		}
		id := bufID(x)
		if l := bufLabel(st, id); l != "empty" && strings.HasPrefix(id, "$buf:") {
			a.bad("buffer", st, where, "a text buffer goes back to the pool with text in it")
		}
		st.TS["put:"+id] = "1"
		return none()
	}
	// a question to a token, answered the same way each time
	if c.Fn != nil && core.FuncPkg(c.Fn) != nil && core.FuncPkg(c.Fn).Path() == yayaml+"/token" && c.Fn.Signature.Recv() != nil {
		if o, ok := a.tokenQuestion(c, st); ok {
			return o, true
		}
	}
	// parse functions
	if c.Fn != nil && a.isParse[c.Fn] && !a.inline[c.Fn] {
		// a call whose result is not looked at is judged with the values it is given
		if a.unseen(c) {
			return nil, false
		}
		return a.callSummary(in, c, st, where), true
	}
	if c.Fn != nil {
		p := core.FuncPkg(c.Fn)
		if p != nil && (p.Path() == parserPkg || p.Path() == yayaml+"/token") || c.Fn.Synthetic != "" {
			return nil, false // inlined
		}
	}
	if b, ok := c.Common.Value.(*ssa.Builtin); ok && !c.Common.IsInvoke() {
		if t := c.Common.Signature().Results(); b.Name() == "append" && t.Len() == 1 && !isErrSlice(t.At(0).Type()) && len(c.Args) == 2 {
			// what is gathered in a slice does not matter to this analysis
			if sl, ok := c.Args[1].(SliceOf); ok && strings.HasPrefix(sl.A.Base, "a:") {
				for k := range st.Heap {
					if strings.HasPrefix(k, sl.A.Base+"[") || strings.HasPrefix(k, "!zero:"+sl.A.Base) {
						delete(st.Heap, k)
					}
				}
			}
			v := Sym{ID: "gathered<" + c.Site + ">", T: t.At(0).Type()}
			st.SetNil(v, 2)
			return one(v)
		}
		return nil, false
	}
	if o, ok := stdModel(in, c, st); ok {
		return o, true
	}
	in.HavocArgs(c, st)
	return []Outcome{{St: st, Rets: in.Unknown(c, st)}}, true
}

// unseen: the result of this parse call, or of a call at most two frames up, is discarded.
func (a *parserAn) unseen(c *Call) bool {
	if a.discarded == nil {
		a.discarded = map[string]bool{}
	}
	if v, ok := c.Instr.(ssa.Value); ok {
		if r := v.Referrers(); r != nil && len(*r) == 0 && !a.recursiveCall(c) {
			a.discarded[c.Site] = true
			return true
		}
	}
	for f, d := c.Frame, 0; f != nil && d < 2; f, d = f.Parent, d+1 {
		if a.discarded[f.ID] {
			return !a.recursiveCall(c)
		}
	}
	return false
}

func (a *parserAn) recursiveCall(c *Call) bool {
	for f := c.Frame; f != nil; f = f.Parent {
		if f.Fn == c.Fn {
			return true
		}
	}
	return false
}

func (a *parserAn) tokenQuestion(c *Call, st *State) ([]Outcome, bool) {
	res := c.Fn.Signature.Results()
	if res.Len() != 1 {
		return nil, false
	}
	if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return nil, false
	}
	s, ok := a.tokType.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	id := c.Fn.Name()
	for _, x := range c.Args {
		x = st.Resolve(x)
		if ad, ok := x.(Addr); ok {
			for i := 0; i < s.NumFields(); i++ {
				if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					x = st.Load(Addr{Base: ad.Base, Path: ad.Path + "." + s.Field(i).Name()}, s.Field(i).Type())
				}
			}
		}
		id += "," + x.Key()
	}
	return []Outcome{{St: st, Rets: []Val{st.Resolve(Sym{ID: "ask<" + id + ">", T: types.Typ[types.Bool]})}}}, true
}

func (a *parserAn) callSummary(in *Interp, c *Call, st *State, where string) []Outcome {
	p := posOf(st)
	if a.leftCalls != nil && !p.c {
		m := a.leftCalls[a.cur]
		if m == nil {
			m = map[*ssa.Function]bool{}
			a.leftCalls[a.cur] = m
		}
		m[c.Fn] = true
	}
	a.uses[c.Fn] = true
	known := a.errsKnown(in, st)
	if p.g && !known {
		a.bad("backtrack", st, where, "%s is tried although a failed alternative's tokens have not been given back", c.Fn.Name())
		p.g = false
		setPos(st, p)
	}
	var bufs []string
	for _, x := range c.Args {
		if v := st.Resolve(x); isBufVal(c, x) {
			bufs = append(bufs, bufID(v))
		}
	}
	for _, id := range bufs {
		a.bufUse(in, st, id, where, c.Fn.Name())
		if p.w && !known {
			a.bad("written-twice", st, where, "%s may write the current token's text again", c.Fn.Name())
			p.w = false
			setPos(st, p)
		}
	}
	var keys []psum
	for s := range a.sums[c.Fn] {
		keys = append(keys, s)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	var outs []Outcome
	for _, s := range keys {
		n := st.Clone()
		q := p
		if s.consumed {
			q.c, q.w, q.h = true, false, ""
			a.havocParser(in, n, c.Site)
		} else {
			a.havocErrors(in, n, c.Site)
		}
		if s.written {
			q.w = true
		}
		if s.kind == "invalid" && s.consumed {
			q.g = true
		}
		setPos(n, q)
		for _, id := range bufs {
			if s.buf {
				old := bufLabel(n, id)
				n.TS["b:"+id] = "w:" + c.Site
				if s.kind == "invalid" {
					n.TS["dirty:"+id] = old
				}
			}
		}
		// indentation held in a local variable may have been determined by the callee
		for _, x := range c.Args {
			if ad, ok := n.Resolve(x).(Addr); ok && strings.HasPrefix(ad.Base, "a:") {
				n.Havoc(ad.Cell(), "hi:"+c.Site)
			}
		}
		v := a.sumNode(s.kind)
		if a.track && s.kind == "other" && s.consumed {
			v = a.trackedNode(c, n, where)
		}
		outs = append(outs, Outcome{St: n, Rets: []Val{v}})
	}
	return outs
}

func isBufVal(c *Call, v Val) bool {
	for i, x := range c.Args {
		if x.Key() != v.Key() {
			continue
		}
		sig := c.Fn.Params
		if i < len(sig) && isBufPtr(sig[i].Type()) {
			return true
		}
	}
	return false
}

func (a *parserAn) sumNode(kind string) Val {
	t := a.c.Named(astPkg, "Node")
	v := Sym{ID: "node<sum:" + kind + ">", T: t}
	a.nodeKind[v.ID] = kind
	if kind == "invalid" {
		// of the very type NewInvalidNode gives
		if f := a.c.Func(astPkg, "NewInvalidNode"); f != nil {
			if _, T := a.constructedKind(f, nil); T != nil {
				v.T = T
				return Iface{T: T, V: v}
			}
		}
	}
	return v
}

// initState is the state after the package's initialisation.
func initState(c *core.Ctx, path string) *State {
	sp := c.SSA[path]
	if sp == nil || sp.Func("init") == nil {
		return NewState()
	}
	in := New(c.Prog, Hooks{Call: func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
		if cl.Fn != nil && core.FuncPkg(cl.Fn) != nil && core.FuncPkg(cl.Fn).Path() == path && cl.Fn.Synthetic == "" {
			return nil, false
		}
		if _, ok := cl.Common.Value.(*ssa.Builtin); ok && !cl.Common.IsInvoke() {
			return nil, false
		}
		return []Outcome{{St: st, Rets: in.Unknown(cl, st)}}, true
	}})
	in.LoopBound = 64
	in.MaxSteps = 20000
	var best *State
	for _, o := range in.Run(sp.Func("init"), nil, NewState()) {
		if !o.Panic && (best == nil || len(o.St.Heap) > len(best.Heap)) {
			best = o.St
		}
	}
	if best == nil {
		best = NewState()
	}
	return best
}

// nodeModel: constructors of the ast package, Type and ValidNode on the nodes they give.
func (a *parserAn) nodeModel(in *Interp, c *Call, st *State) ([]Outcome, bool) {
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: []Val{v}}}, true }
	kindOf := func(v Val) string {
		v = st.Resolve(v)
		if iv, ok := v.(Iface); ok {
			v = st.Resolve(iv.V)
		}
		if s, ok := v.(Sym); ok {
			return a.nodeKind[s.ID]
		}
		return ""
	}
	if c.Name() == astPkg+".ValidNode" {
		v := st.Resolve(c.Args[0])
		if _, ok := v.(Nil); ok {
			return one(Bool(false))
		}
		switch kindOf(v) {
		case "invalid":
			return one(Bool(false))
		case "null", "other":
			return one(Bool(true))
		}
		return nil, false
	}
	if (c.Common.IsInvoke() && c.Common.Method.Name() == "Type" || c.Fn != nil && c.Fn.Name() == "Type" && core.FuncPkg(c.Fn) != nil && core.FuncPkg(c.Fn).Path() == astPkg) && len(c.Args) == 1 {
		switch kindOf(c.Args[0]) {
		case "invalid":
			return one(a.nodeTypeConst("InvalidType"))
		case "null":
			return one(a.nodeTypeConst("NullType"))
		case "other":
			v := Sym{ID: st.FreshID("ntype:" + c.Site), T: a.c.Named(astPkg, "NodeType")}
			st.Assume(Cmp{Op: "==", X: v, Y: a.nodeTypeConst("InvalidType")}, false)
			st.Assume(Cmp{Op: "==", X: v, Y: a.nodeTypeConst("NullType")}, false)
			return one(v)
		}
	}
	if c.Fn == nil || core.FuncPkg(c.Fn) == nil || core.FuncPkg(c.Fn).Path() != astPkg || c.Fn.Signature.Recv() != nil || c.Fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	rt := c.Fn.Signature.Results().At(0).Type()
	if !types.Implements(rt, a.node) {
		return nil, false
	}
	id := "node<" + c.Fn.Name()
	var args []Val
	for i, x := range c.Args {
		v := st.Resolve(x)
		if k, ok := v.(Const); ok {
			id += "," + k.Key()
			args = append(args, v)
		} else {
			args = append(args, Sym{ID: fmt.Sprintf("A%d", i), T: c.Fn.Params[i].Type()})
		}
	}
	id += ">"
	kind, ok := a.nodeKind[id]
	if !ok {
		kind, a.dynType[id] = a.constructedKind(c.Fn, args)
		a.nodeKind[id] = kind
	}
	if kind == "" {
		return nil, false
	}
	v := Sym{ID: id, T: rt}
	st.SetNil(v, 2)
	if T := a.dynType[id]; T != nil && types.IsInterface(rt) {
		v.T = T
		return one(Iface{T: T, V: v})
	}
	return one(v)
}

func (a *parserAn) nodeTypeConst(name string) Val {
	p := a.c.Pkgs[astPkg]
	if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
		return Const{V: k.Val()}
	}
	return Sym{ID: "nodetype:" + name}
}

// constructedKind: the kind and type of the node a constructor gives, from its own code.
func (a *parserAn) constructedKind(fn *ssa.Function, args []Val) (string, types.Type) {
	if a.astInit == nil {
		a.astInit = initState(a.c, astPkg)
	}
	in := New(a.c.Prog, Hooks{Call: stdModel})
	in.LoopBound = 2
	kinds := map[string]bool{}
	var dyn types.Type
	for _, o := range in.Run(fn, args, a.astInit.Clone()) {
		if o.Panic {
			continue
		}
		v := o.Rets[0]
		T := fn.Signature.Results().At(0).Type()
		if iv, ok := v.(Iface); ok {
			v, T = iv.V, iv.T
		}
		if dyn != nil && !types.Identical(dyn, T) {
			return "", nil
		}
		dyn = T
		sel := a.c.Prog.MethodSets.MethodSet(T).Lookup(a.c.Pkgs[astPkg].Types, "Type")
		if sel == nil {
			return "", nil
		}
		m := a.c.Prog.MethodValue(sel)
		if m == nil {
			return "", nil
		}
		for _, t := range New(a.c.Prog, Hooks{}).Run(m, []Val{v}, o.St) {
			if t.Panic {
				continue
			}
			k, ok := t.Rets[0].(Const)
			switch {
			case !ok:
				return "", nil
			case k.Key() == a.nodeTypeConst("InvalidType").Key():
				kinds["invalid"] = true
			case k.Key() == a.nodeTypeConst("NullType").Key():
				kinds["null"] = true
			default:
				kinds["other"] = true
			}
		}
	}
	if in.Capped || len(kinds) != 1 {
		return "", nil
	}
	for k := range kinds {
		return k, dyn
	}
	return "", nil
}

func (a *parserAn) bufModel(in *Interp, c *Call, st *State, where string) ([]Outcome, bool) {
	n := c.Name()
	if n == "bytes.NewBuffer" || n == "bytes.NewBufferString" {
		v := Sym{ID: st.FreshID("buf:" + c.Site), T: c.Fn.Signature.Results().At(0).Type()}
		st.SetNil(v, 2)
		l := "w:" + c.Site
		if _, ok := st.Resolve(c.Args[0]).(Nil); ok {
			l = "empty"
		}
		st.TS["b:"+bufID(v)] = l
		return []Outcome{{St: st, Rets: []Val{v}}}, true
	}
	if !strings.HasPrefix(n, "(*bytes.Buffer).") {
		return nil, false
	}
	id := bufID(st.Resolve(c.Args[0]))
	rets := func(st *State) []Val { return in.Unknown(c, st) }
	switch strings.TrimPrefix(n, "(*bytes.Buffer).") {
	case "WriteString", "WriteRune", "WriteByte", "Write":
		a.bufUse(in, st, id, where, "writing")
		p := posOf(st)
		if a.isCurrentText(st, c.Args[1]) {
			if p.w && !a.errsKnown(in, st) {
				a.bad("written-twice", st, where, "the current token's text is written a second time")
			}
			p.w = true
			setPos(st, p)
		}
		st.TS["b:"+id] = "w:" + c.Site
		return []Outcome{{St: st, Rets: rets(st)}}, true
	case "Len":
		l := bufLabel(st, id)
		if l == "empty" {
			return []Outcome{{St: st, Rets: []Val{Int(0)}}}, true
		}
		v := Sym{ID: "buflen<" + id + sep3 + l + ">", T: types.Typ[types.Int]}
		return []Outcome{{St: st, Rets: []Val{v}}}, true
	case "Truncate", "Reset":
		l := "empty"
		if strings.HasSuffix(n, "Truncate") {
			x := st.Resolve(c.Args[1])
			switch x := x.(type) {
			case Const:
				if x.Key() != "#0" {
					l = "unknown:" + c.Site
				}
			case Sym:
				pre := "buflen<" + id + sep3
				if strings.HasPrefix(x.ID, pre) {
					l = strings.TrimSuffix(strings.TrimPrefix(x.ID, pre), ">")
				} else {
					l = "unknown:" + c.Site
				}
			default:
				l = "unknown:" + c.Site
			}
		}
		st.TS["b:"+id] = l
		p := posOf(st)
		p.w = false
		setPos(st, p)
		delete(st.TS, "dirty:"+id)
		if w := st.TS["want:"+id]; w != "" && w != l && !strings.HasPrefix(l, "unknown:") {
			st.TS["dirty:"+id] = w
		} else {
			delete(st.TS, "want:"+id)
		}
		return []Outcome{{St: st, Rets: nil}}, true
	case "String", "Bytes":
		a.bufUse(in, st, id, where, "taking the text")
		return []Outcome{{St: st, Rets: rets(st)}}, true
	}
	return nil, false
}

// isCurrentText: v is the text of the parser's current token.
func (a *parserAn) isCurrentText(st *State, v Val) bool {
	k := st.Resolve(v).Key()
	s := structOfNamed(a.named)
	for i := 0; i < s.NumFields(); i++ {
		if !types.Identical(s.Field(i).Type(), a.tokType) {
			continue
		}
		ts := a.tokType.Underlying().(*types.Struct)
		for j := 0; j < ts.NumFields(); j++ {
			if b, ok := ts.Field(j).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				cur := st.Load(Addr{Base: "*P", Path: "." + s.Field(i).Name() + "." + ts.Field(j).Name()}, ts.Field(j).Type())
				if cur.Key() == k {
					return true
				}
			}
		}
	}
	return false
}

func structOfNamed(n *types.Named) *types.Struct {
	s, _ := n.Underlying().(*types.Struct)
	return s
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (a *parserAn) block(in *Interp, fr *Frame, b *ssa.BasicBlock, get func(ssa.Value) Val, st *State) {
	if !isLoopHeader(b) {
		return
	}
	fn := fr.Fn
	if core.FuncPkg(fn) == nil || core.FuncPkg(fn).Path() != parserPkg {
		return
	}
	id := fmt.Sprintf("%s#%d", fr.ID, b.Index)
	var phis []string
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if bt, ok := phi.Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			phis = append(phis, get(phi).Key())
		}
	}
	a.loops[fnName(fn)+fmt.Sprint(b.Index)] = true
	id += "@" + strings.Join(phis, "|")
	// one version of the parser's fields per loop: what was known of the token before is given up
	a.havocParserAs(in, st, "loop:"+fmt.Sprintf("%s#%d", fr.ID, b.Index))
	if st.TS["cp"] == "" {
		for k := range st.Ver {
			if strings.HasPrefix(k, "n:hv:") {
				delete(st.Ver, k)
			}
		}
	}
	// checkpoints that pile up from round to round
	dk := fmt.Sprintf("d:%s#%d", fr.ID, b.Index)
	cps := cpStack(st)
	var d0 int
	if _, err := fmt.Sscan(st.TS[dk], &d0); err != nil || len(cps) < d0 {
		st.TS[dk] = fmt.Sprint(len(cps))
	} else if len(cps) > d0+2 {
		pos := fn.Pos()
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() {
				pos = ins.Pos()
				break
			}
		}
		if !a.errsKnown(in, st) {
			a.bad("balance", st, a.c.Pos(pos), "every round of a loop can leave a checkpoint open")
		}
		st.TS["cp"] = strings.Join(cps[:d0], "\x00")
	}
	if d := os.Getenv("VERIF_HDR"); d != "" && strings.HasSuffix(fnName(fn), d) {
		var o []string
		for k, v := range st.Facts {
			o = append(o, "F "+k+"="+fmt.Sprint(v))
		}
		for k, v := range st.Heap {
			o = append(o, "H "+k+"="+v.Key())
		}
		for k, v := range st.TS {
			o = append(o, "T "+k+"="+v)
		}
		for k, v := range st.Ver {
			o = append(o, "V "+k+"="+v)
		}
		sort.Strings(o)
		fmt.Fprintln(os.Stderr, "HDR", b.Index, strings.ReplaceAll(strings.Join(o, "\n"), "(*github.com/KSpaceer/yamly/engines/yayamls/parser.parser).", ""))
	}
	p := posOf(st)
	for _, h := range strings.Split(p.h, ";") {
		if h == id {
			if !a.errsKnown(in, st) && a.usesParser(b) {
				pos := fn.Pos()
				for _, ins := range b.Instrs {
					if ins.Pos().IsValid() {
						pos = ins.Pos()
						break
					}
				}
				a.bad("progress", st, a.c.Pos(pos), "a loop can start again without a token having been consumed")
			}
			return
		}
	}
	if p.h != "" {
		p.h += ";"
	}
	p.h += id
	setPos(st, p)
}

// usesParser: the loop calls something over the parser.
func (a *parserAn) usesParser(h *ssa.BasicBlock) bool {
	for _, b := range h.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && (a.prim[f] != "" || a.isParse[f] || hasRecvParam(f, a.named)) {
					return true
				}
			}
		}
	}
	return false
}

// analyse interprets one parse function and returns the summary of its outcomes.
func (a *parserAn) analyse(fn *ssa.Function) map[psum]bool {
	a.cur = fn
	in := New(a.c.Prog, Hooks{Call: a.model, Block: a.block})
	in.Hooks.Inline = func(f *ssa.Function) bool {
		return len(f.Blocks) > 0
	}
	in.MaxSteps = 200000
	in.MaxConst = 4
	if a.track {
		in.MaxSteps = 3000000
		in.Hooks.Store = func(in *Interp, fr *Frame, instr ssa.Instruction, cell string, old, val Val, st *State) {
			a.useNodes(st, val)
		}
	}
	st := NewState()
	st.MaxInst = 1
	setPos(st, ppos{})
	var as []Val
	var bufs []string
	var inds []cellInfo
	for i, p := range fn.Params {
		id := "P"
		if pt, ok := p.Type().(*types.Pointer); !ok || !types.Identical(pt.Elem(), a.named) {
			id = fmt.Sprintf("P:%d", i)
		}
		v := Sym{ID: id, T: p.Type()}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.SetNil(v, 2)
		}
		if isBufPtr(p.Type()) {
			bufs = append(bufs, bufID(v))
			st.TS["b:"+bufID(v)] = "entry"
		}
		if pt, ok := p.Type().(*types.Pointer); ok && id != "P" && !isBufPtr(p.Type()) {
			if nm, ok := pt.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == parserPkg {
				for _, l := range leafCells("*"+id, nm) {
					if bt, ok := l.t.Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
						inds = append(inds, l)
					}
				}
			}
		}
		as = append(as, v)
	}
	entry := map[string]Sym{}
	for _, l := range inds {
		i := strings.Index(l.cell, ".")
		if s, ok := st.Load(Addr{Base: l.cell[:i], Path: l.cell[i:]}, l.t).(Sym); ok {
			entry[l.cell] = s
		}
	}
	sum := map[psum]bool{}
	for _, o := range in.Run(fn, as, st) {
		a.paths++
		pos := a.c.Pos(o.Pos)
		if o.Panic {
			continue // nil results and the like are not this rule's business
		}
		s := o.St
		p := posOf(s)
		kind := a.retKind(s, o.Rets[0])
		known := a.errsKnown(in, s)
		if a.track {
			a.useNodes(s, o.Rets[0])
			if kind != "invalid" && !known {
				a.leftNodes(s, pos)
			}
		}
		if !known {
			if n := len(cpStack(s)); n > 0 {
				a.bad("balance", s, pos, "returns with %d of its own checkpoints left on some path", n)
			}
			if s.TS["raw"] != "" {
				a.bad("rawmode", s, pos, "returns with the lexer left in raw mode")
			}
			for cell, e := range entry {
				i := strings.Index(cell, ".")
				v := s.Load(Addr{Base: cell[:i], Path: cell[i:]}, e.T)
				if vs, ok := v.(Sym); ok {
					if b, k := Linear(vs); k != 0 && b.ID == e.ID {
						a.bad("indentation", s, pos, "returns with the caller's indentation changed by %+d", k)
					}
				}
			}
		}
		changed := false
		for _, id := range bufs {
			if bufLabel(s, id) != "entry" {
				changed = true
			}
			if kind != "invalid" && s.TS["dirty:"+id] != "" && !known {
				a.bad("buffer", s, pos, "succeeds while the buffer still holds text of a failed alternative")
			}
		}
		if kind != "invalid" && p.g && !known {
			a.bad("backtrack", s, pos, "succeeds although a failed alternative's tokens have not been given back")
		}
		ks := []string{kind}
		if kind == "" {
			ks = []string{"invalid", "other", "null"}
		}
		for _, k := range ks {
			sum[psum{k, p.c, changed, p.w && !known}] = true
		}
	}
	if in.Capped {
		a.capped[fn] = in.CapWhy
	}
	return sum
}

func (a *parserAn) retKind(st *State, v Val) string {
	v = st.Resolve(v)
	switch x := v.(type) {
	case Nil:
		return "invalid"
	case Iface:
		if s, ok := st.Resolve(x.V).(Sym); ok {
			if k := a.nodeKind[s.ID]; k != "" {
				return k
			}
		}
		sel := a.c.Prog.MethodSets.MethodSet(x.T).Lookup(a.c.Pkgs[astPkg].Types, "Type")
		if sel != nil {
			outs := New(a.c.Prog, Hooks{}).Run(a.c.Prog.MethodValue(sel), []Val{x.V}, st.Clone())
			if len(outs) == 1 && !outs[0].Panic {
				if k, ok := outs[0].Rets[0].(Const); ok {
					switch k.Key() {
					case a.nodeTypeConst("InvalidType").Key():
						return "invalid"
					case a.nodeTypeConst("NullType").Key():
						return "null"
					}
					return "other"
				}
			}
		}
	case Sym:
		return a.nodeKind[x.ID]
	}
	return ""
}

// fixpoint computes the summaries; a function is analysed again when a summary it uses changed.
func (a *parserAn) fixpoint(dirty map[*ssa.Function]bool) {
	if dirty == nil {
		a.sums = map[*ssa.Function]map[psum]bool{}
		a.viol = map[*ssa.Function][]pviol{}
		a.leftCalls = map[*ssa.Function]map[*ssa.Function]bool{}
		a.capped = map[*ssa.Function]string{}
		a.pathsOf = map[*ssa.Function]int{}
		a.users = map[*ssa.Function]map[*ssa.Function]bool{}
		dirty = map[*ssa.Function]bool{}
		for _, fn := range a.fns {
			dirty[fn] = !a.inline[fn]
		}
	}
	users := a.users // callee -> functions whose analysis used its summary
	for round := 0; round < 60; round++ {
		changed := false
		for _, fn := range a.fns {
			if !dirty[fn] || a.inline[fn] {
				continue
			}
			if !a.deadline.IsZero() && time.Now().After(a.deadline) {
				return
			}
			dirty[fn] = false
			delete(a.viol, fn)
			delete(a.leftCalls, fn)
			delete(a.capped, fn)
			a.uses = map[*ssa.Function]bool{}
			t0, p0 := time.Now(), a.paths
			s := a.analyse(fn)
			a.pathsOf[fn] = a.paths - p0
			if os.Getenv("VERIF_DEBUG") != "" && time.Since(t0) > 300*time.Millisecond {
				fmt.Fprintln(os.Stderr, "round", round, fnName(fn), time.Since(t0), len(s), a.pathsOf[fn])
			}
			for g := range a.uses {
				if users[g] == nil {
					users[g] = map[*ssa.Function]bool{}
				}
				users[g][fn] = true
			}
			old := a.sums[fn]
			diff := len(s) != len(old)
			for k := range s {
				if !old[k] {
					diff = true
				}
			}
			a.sums[fn] = s
			if diff {
				changed = true
				for g := range users[fn] {
					dirty[g] = true
				}
			}
		}
		if !changed {
			a.paths = 0
			for _, n := range a.pathsOf {
				a.paths += n
			}
			return
		}
	}
	for _, fn := range a.fns {
		a.capped[fn] = "summaries do not settle"
	}
}

// run computes summaries; a function that breaks its contract only because it is part of its
// callers (they all keep theirs with its body in place of the call) is no violation.
func (a *parserAn) run() []pviol {
	a.fixpoint(nil)
	first := a.all()
	if os.Getenv("VERIF_DEBUG") != "" {
		seen := map[pviol]bool{}
		for _, v := range first {
			if !seen[v] {
				fmt.Fprintln(os.Stderr, "FIRST", v)
			}
			seen[v] = true
		}
	}
	if len(first) == 0 {
		return nil
	}
	a.deadline = time.Now().Add(60 * time.Second)
	for round := 0; round < 2; round++ {
		dirty := map[*ssa.Function]bool{}
		for fn, vs := range a.viol {
			excusable := false
			for _, v := range vs {
				// text written twice is wrong wherever it happens
				if v.rule != "written-twice" {
					excusable = true
				}
			}
			if excusable && !a.inline[fn] && len(a.users[fn]) > 0 && !a.recursive(fn) {
				a.inline[fn] = true
				for g := range a.users[fn] {
					dirty[g] = true
				}
			}
		}
		if len(dirty) == 0 {
			break
		}
		for fn := range a.inline {
			delete(a.viol, fn)
		}
		a.fixpoint(dirty)
		if time.Now().After(a.deadline) {
			break
		}
		left := a.all()
		excused := true
		for _, v := range left {
			if v.rule != "written-twice" {
				excused = false
			}
		}
		if excused {
			return left
		}
	}
	return first
}

func (a *parserAn) all() []pviol {
	var out []pviol
	for _, fn := range a.fns {
		out = append(out, a.viol[fn]...)
	}
	return out
}

func (a *parserAn) callees(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil {
					out[f] = true
				}
			}
			for _, op := range ins.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok {
					out[f] = true
					for _, bb := range f.Blocks {
						if f.Synthetic == "" {
							break
						}
						for _, i2 := range bb.Instrs {
							if ci, ok := i2.(ssa.CallInstruction); ok {
								if g := ci.Common().StaticCallee(); g != nil {
									out[g] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func (a *parserAn) recursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		for g := range a.callees(f) {
			if g == fn {
				return true
			}
			if seen[g] || core.FuncPkg(g) == nil || core.FuncPkg(g).Path() != parserPkg {
				continue
			}
			// only through functions that would be inlined
			if a.isParse[g] && !a.inline[g] {
				continue
			}
			seen[g] = true
			if visit(g) {
				return true
			}
		}
		return false
	}
	return visit(fn)
}
