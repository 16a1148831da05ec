package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

const lexPkg = yayaml + "/lexer"

func init() {
	register("C23", &Rule{
		Run:     runC23,
		Explain: "The tokenizer's Next, SetRawMode and UnsetRawMode are interpreted abstractly, over unknown characters, from every reachable state (nesting bounded), side by side with the reading rules of the statement; on every path the token's type, text and positions, and through later calls its state, have to be the ones the rules give for every character the path admits. The character stream is interpreted separately: it decodes its text from front to end and then gives the end of input.",
		Assume:  []string{"the checkpointing accessor replays its stream exactly (C26)", "unicode/utf8 decodes correctly"},
	})
}

// lexSpec is the state of the reading rules.
type lexSpec struct {
	stack    string // open contexts: F flow, C comment, H block scalar header, S single, D double quoted, T tag
	esc, raw bool
	prev     string // type of the token before the next character; "" at the start
	row, col int
	next     int // index of the next character to look at
	// inside one call
	start, startRow, startCol int // the pending word, start < 0: none
	rem                       int // characters still belonging to the indicator
	done                      bool
	tok                       specTok
	prep                      specTok // recognised but not delivered
	hasPrep                   bool
}

type specTok struct {
	typ                string
	from, to           int // characters
	row, col, end, enr int
}

func (s lexSpec) key() string { return fmt.Sprintf("%+v", s) }

func (s lexSpec) top() byte {
	if s.stack == "" {
		return 'B'
	}
	return s.stack[len(s.stack)-1]
}

// classify gives the type of the token that begins with character i ("" if it is part of a
// word) and how many characters it has, and updates the contexts.
func (s *lexSpec) classify(i int, is func(i int, cs ...rune) bool) (string, int) {
	const eof = -1
	apart := s.prev == "" || s.prev == "SpaceType" || s.prev == "TabType" || s.prev == "LineBreakType" || s.prev == "BOMType"
	ended := func(j int) bool { return is(j, ' ', '\t', '\n', '\r', eof) }
	push := func(c byte) { s.stack += string(c) }
	pop := func() {
		if s.stack != "" {
			s.stack = s.stack[:len(s.stack)-1]
		}
	}
	if !s.raw {
		switch s.top() {
		case 'B':
			for _, m := range []struct {
				c         rune
				one, many string
			}{{'-', "SequenceEntryType", "DirectiveEndType"}, {'.', "", "DocumentEndType"}} {
				if is(i, m.c) {
					if apart && m.one != "" && ended(i+1) {
						return m.one, 1
					}
					if apart && is(i+1, m.c) && is(i+2, m.c) && ended(i+3) {
						return m.many, 3
					}
					return "", 1
				}
			}
			switch {
			case is(i, '?'):
				if apart && ended(i+1) {
					return "MappingKeyType", 1
				}
				return "", 1
			case is(i, ':'):
				if ended(i + 1) {
					return "MappingValueType", 1
				}
				return "", 1
			}
			for _, m := range []struct {
				c   rune
				typ string
				ctx byte
			}{
				{'[', "SequenceStartType", 'F'}, {'{', "MappingStartType", 'F'}, {'#', "CommentType", 'C'},
				{'&', "AnchorType", 0}, {'*', "AliasType", 0}, {'|', "LiteralType", 'H'}, {'>', "FoldedType", 'H'},
			} {
				if is(i, m.c) {
					if !apart {
						return "", 1
					}
					if m.ctx != 0 {
						push(m.ctx)
					}
					return m.typ, 1
				}
			}
			switch {
			case is(i, '!'):
				push('T')
				return "TagType", 1
			case is(i, '\''):
				push('S')
				return "SingleQuoteType", 1
			case is(i, '"'):
				push('D')
				return "DoubleQuoteType", 1
			case is(i, '%'):
				return "DirectiveType", 1
			}
		case 'F':
			opened := s.prev == "MappingStartType" || s.prev == "SequenceStartType" || s.prev == "CollectEntryType"
			free := apart || opened
			switch {
			case is(i, '?'):
				if free && ended(i+1) {
					return "MappingKeyType", 1
				}
				return "", 1
			case is(i, ':'):
				adjacent := s.prev == "MappingEndType" || s.prev == "SequenceEndType" || s.prev == "CollectEntryType" || s.prev == "DoubleQuoteType" || s.prev == "SingleQuoteType"
				if adjacent || ended(i+1) || is(i+1, ',', '[', ']', '{', '}') {
					return "MappingValueType", 1
				}
				return "", 1
			case is(i, '['), is(i, '{'):
				if !free {
					return "", 1
				}
				push('F')
				if is(i, '[') {
					return "SequenceStartType", 1
				}
				return "MappingStartType", 1
			case is(i, ']'):
				pop()
				return "SequenceEndType", 1
			case is(i, '}'):
				pop()
				return "MappingEndType", 1
			case is(i, '&'), is(i, '*'):
				if !free {
					return "", 1
				}
				if is(i, '&') {
					return "AnchorType", 1
				}
				return "AliasType", 1
			case is(i, '!'):
				push('T')
				return "TagType", 1
			case is(i, '\''), is(i, '"'):
				if !free && s.prev != "MappingValueType" {
					return "", 1
				}
				if is(i, '\'') {
					push('S')
					return "SingleQuoteType", 1
				}
				push('D')
				return "DoubleQuoteType", 1
			case is(i, ','):
				return "CollectEntryType", 1
			}
		case 'H':
			switch {
			case is(i, '-'):
				return "StripChompingType", 1
			case is(i, '+'):
				return "KeepChompingType", 1
			case is(i, '#'):
				if apart {
					push('C')
					return "CommentType", 1
				}
				return "", 1
			}
		case 'S':
			if is(i, '\'') {
				if s.esc {
					s.esc = false
					return "", 1
				}
				if !is(i+1, '\'') {
					pop()
					return "SingleQuoteType", 1
				}
				s.esc = true
				return "", 1
			}
			s.esc = false
		case 'D':
			esc := s.esc
			s.esc = false
			switch {
			case is(i, '\\'):
				s.esc = !esc
				return "", 1
			case is(i, ' '):
				if esc {
					return "", 1
				}
			case is(i, '"'):
				if !esc {
					pop()
					return "DoubleQuoteType", 1
				}
				return "", 1
			}
		case 'T':
			if is(i, '!') {
				return "TagType", 1
			}
		}
	}
	switch {
	case is(i, eof):
		return "EOFType", 1
	case is(i, 0xFEFF):
		return "BOMType", 1
	case is(i, '\r'), is(i, '\n'):
		for s.stack != "" && (s.top() == 'C' || s.top() == 'H' || s.top() == 'T') {
			pop()
		}
		if is(i, '\r') && is(i+1, '\n') {
			return "LineBreakType", 2
		}
		return "LineBreakType", 1
	case is(i, ' '), is(i, '\t'):
		for s.top() == 'T' {
			pop()
		}
		if is(i, ' ') {
			return "SpaceType", 1
		}
		return "TabType", 1
	}
	return "", 1
}

// advance lets the rules look at character s.next; "" or what is wrong with reading it now.
func (s *lexSpec) advance(is func(i int, cs ...rune) bool) string {
	i := s.next
	s.next++
	s.col++
	if s.rem > 0 {
		s.rem--
		s.tok.end++
	} else {
		if s.done {
			return "reads on after the token"
		}
		typ, n := s.classify(i, is)
		if typ == "" {
			if s.start < 0 {
				s.start, s.startRow, s.startCol = i, s.row, s.col
			}
			s.prev = "StringType"
			return ""
		}
		s.done = true
		s.rem = n - 1
		s.tok = specTok{typ: typ, from: i, to: i + n, row: s.row, col: s.col, end: s.col, enr: s.row}
	}
	if s.rem == 0 && s.tok.typ == "LineBreakType" {
		s.row++
		s.col = 0
	}
	return ""
}

// deliver gives the token a call has to return.
func (s *lexSpec) deliver() specTok {
	t := s.tok
	if s.start >= 0 {
		w := specTok{typ: "StringType", from: s.start, to: t.from, row: s.startRow, col: s.startCol, enr: t.row, end: t.col - 1}
		s.prep, s.hasPrep = t, true
		t = w
	}
	s.prev = t.typ
	s.start, s.startRow, s.startCol, s.done, s.rem, s.tok = -1, 0, 0, false, 0, specTok{}
	return t
}

type lexAn struct {
	c       *core.Ctx
	rep     *core.Report
	specs   map[string]lexSpec
	tokT    *types.Named
	typeOf  map[string]string // const key -> name
	forget  bool              // what was looked ahead is forgotten with every character of a word
	word    int               // how many characters of a word are followed
	base    *State            // what the packages' variables hold
	globals func(*ssa.Global) (Val, bool)
	new     *ssa.Function
	op      map[string]*ssa.Function
}

func runeSym(i int) Sym { return Sym{ID: fmt.Sprintf("%s%06d", Kept, i), T: types.Typ[types.Rune]} }

func (a *lexAn) put(st *State, s lexSpec) {
	k := s.key()
	a.specs[k] = s
	st.TS["spec"] = k
}

func (a *lexAn) get(st *State) lexSpec { return a.specs[st.TS["spec"]] }

// forks runs f, which asks about characters, on every way the answers can come out on st.
func forks(st *State, f func(st *State, is func(i int, cs ...rune) bool)) []*State {
	var out []*State
	trails := [][]bool{nil}
	for len(trails) > 0 {
		tr := trails[len(trails)-1]
		trails = trails[:len(trails)-1]
		s := st.Clone()
		n := 0
		dead := false
		ask := func(i int, c rune) bool {
			if dead {
				return false
			}
			touchRune(s, i)
			cond := Cmp{Op: "==", X: runeSym(i), Y: Int(int64(c))}
			switch s.Truth(cond) {
			case 1:
				return true
			case 0:
				return false
			}
			if n == len(tr) {
				trails = append(trails, append(append([]bool(nil), tr...), false))
				tr = append(append([]bool(nil), tr...), true)
			}
			b := tr[n]
			n++
			if !s.Assume(cond, b) {
				dead = true
			}
			return b
		}
		f(s, func(i int, cs ...rune) bool {
			for _, c := range cs {
				if ask(i, c) {
					return true
				}
			}
			return false
		})
		if !dead && afterEnd(s) {
			out = append(out, s)
		}
	}
	return out
}

func touchRune(st *State, i int) {
	v := runeSym(i)
	if _, ok := st.Facts[v.ID]; !ok {
		st.Facts[v.ID] = Fact{HasIv: true, Lo: -1, Hi: 0x10FFFF}
	}
}

// afterEnd: whatever follows the end of input is the end of input.
func afterEnd(st *State) bool {
	var ids []int
	for k := range st.Facts {
		if strings.HasPrefix(k, Kept) && !strings.Contains(k, "<") {
			n := 0
			fmt.Sscanf(strings.TrimPrefix(k, Kept), "%d", &n)
			ids = append(ids, n)
		}
	}
	sort.Ints(ids)
	for _, i := range ids {
		c, ok := st.Known(runeSym(i))
		if !ok || c.Key() != Int(-1).Key() {
			continue
		}
		if _, ok := st.Facts[runeSym(i+1).ID]; ok && !st.Assume(Cmp{Op: "==", X: runeSym(i + 1), Y: Int(-1)}, true) {
			return false
		}
	}
	return true
}

func (a *lexAn) bad(st *State, fn *ssa.Function, format string, as ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Printf("BAD "+format+"\n", as...)
		for k, f := range st.Facts {
			fmt.Printf("   %s %+v\n", k, f)
		}
	}
	what := fmt.Sprintf(format, as...)
	a.rep.Violate("reading", core.FuncName(fn), a.c.Pos(fn.Pos()), "%s%s", what, st.TS["how"])
}

// flush lets the rules catch up with the characters taken.
func (a *lexAn) flush(st *State, upto int, fn *ssa.Function) []*State {
	cur := []*State{st}
	for {
		sp := a.get(cur0(cur))
		if len(cur) == 0 || sp.next >= upto {
			return cur
		}
		var nxt []*State
		for _, s := range cur {
			before := a.get(s)
			for _, n := range forks(s, func(st *State, is func(int, ...rune) bool) {
				sp := a.get(st)
				if w := sp.advance(is); w != "" {
					st.TS["wrong"] = w
				}
				a.put(st, sp)
			}) {
				if w := n.TS["wrong"]; w != "" {
					a.bad(n, fn, "%s: after a %s", w, before.tok.typ)
					continue
				}
				if !a.get(n).done && a.forget {
					for k := range n.Facts {
						if strings.HasPrefix(k, Kept) || strings.Contains(k, "<$"+Kept) {
							delete(n.Facts, k)
						}
					}
				}
				nxt = append(nxt, n)
			}
		}
		cur = nxt
		if len(cur) == 0 {
			return nil
		}
	}
}

func cur0(s []*State) *State {
	if len(s) == 0 {
		return NewState()
	}
	return s[0]
}

func (a *lexAn) model(fn *ssa.Function) func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
	num := func(st *State, k string) int {
		n := 0
		fmt.Sscan(st.TS[k], &n)
		return n
	}
	return func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
		switch accessorOp(cl.Common) {
		case "Next":
			i := num(st, "cur")
			states := []*State{st}
			if st.TS["cps"] == "" {
				states = a.flush(st, i, fn)
			}
			var outs []Outcome
			for _, s := range states {
				if sp := a.get(s); s.TS["cps"] == "" && sp.start >= 0 && !sp.done && i-sp.start > a.word || s.TS["cps"] != "" && i > sp.next+16 {
					continue // beyond the bound
				}
				s.TS["cur"] = fmt.Sprint(i + 1)
				touchRune(s, i)
				outs = append(outs, Outcome{St: s, Rets: []Val{runeSym(i)}})
			}
			return outs, true
		case "SetCheckpoint":
			st.TS["cps"] += "," + st.TS["cur"]
			return []Outcome{{St: st}}, true
		case "Commit":
			if k := strings.LastIndex(st.TS["cps"], ","); k >= 0 {
				st.TS["cps"] = st.TS["cps"][:k]
			}
			return []Outcome{{St: st}}, true
		case "Rollback":
			if k := strings.LastIndex(st.TS["cps"], ","); k >= 0 {
				st.TS["cur"] = st.TS["cps"][k+1:]
				st.TS["cps"] = st.TS["cps"][:k]
			}
			return []Outcome{{St: st, Rets: []Val{runeSym(num(st, "cur") - 1)}}}, true
		}
		if cl.Fn != nil {
			o := cl.Fn
			if o.Origin() != nil {
				o = o.Origin()
			}
			if core.FuncPkg(o) != nil && core.FuncPkg(o).Path() == accPkg && o.Signature.Recv() != nil {
				return []Outcome{{St: st, Rets: in.Unknown(cl, st)}}, true
			}
		}
		if o, ok := textModel(in, cl, st); ok {
			return o, true
		}
		return stdModel(in, cl, st)
	}
}

// textModel models the builders and searches of package strings over known characters.
func textModel(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: v}}, true }
	name := cl.Name()
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		b, ok := cl.Args[0].(Addr)
		if !ok {
			return nil, false
		}
		cell := "!sb:" + b.Key()
		cur, ok := st.Heap[cell]
		if !ok {
			cur = Str("")
		}
		m := name[strings.LastIndex(name, ".")+1:]
		switch m {
		case "WriteRune":
			st.Heap[cell] = Cat(cur, Chr(st.Resolve(cl.Args[1])))
			return one(Sym{ID: st.FreshID("n"), T: types.Typ[types.Int]}, Nil{})
		case "WriteByte":
			st.Heap[cell] = Cat(cur, Chr(st.Resolve(cl.Args[1])))
			return one(Nil{})
		case "WriteString":
			st.Heap[cell] = Cat(cur, st.Resolve(cl.Args[1]))
			return one(Sym{ID: st.FreshID("n"), T: types.Typ[types.Int]}, Nil{})
		case "String":
			return one(cur)
		case "Grow":
			return []Outcome{{St: st}}, true
		case "Len":
			return one(st.Len(cur))
		case "Reset":
			st.Heap[cell] = Str("")
			return []Outcome{{St: st}}, true
		}
		return nil, false
	}
	switch name {
	case "strings.ContainsRune", "strings.IndexRune":
		set, ok := strConst(st.Resolve(cl.Args[0]))
		if !ok {
			return nil, false
		}
		ret := func(st *State, i int) Outcome {
			if name == "strings.IndexRune" {
				return Outcome{St: st, Rets: []Val{Int(int64(i))}}
			}
			return Outcome{St: st, Rets: []Val{Bool(i >= 0)}}
		}
		var outs []Outcome
		rest := st
		for i, c := range set {
			if strings.IndexRune(set, c) != i {
				continue
			}
			cond := Cmp{Op: "==", X: st.Resolve(cl.Args[1]), Y: Int(int64(c))}
			switch rest.Truth(cond) {
			case 1:
				return append(outs, ret(rest, i)), true
			case 0:
				continue
			}
			y := rest.Clone()
			if y.Assume(cond, true) {
				outs = append(outs, ret(y, i))
			}
			if !rest.Assume(cond, false) {
				return outs, true
			}
		}
		return append(outs, ret(rest, -1)), true
	}
	return nil, false
}

// snapshot copies what is reachable from v into a small state with canonical names; the key
// describes it up to texts, far positions and characters.
func snapshot(base, st *State, v Val, t types.Type, clamp int64) (*State, Val, string, bool) {
	n := base.Clone()
	n.MaxInst = st.MaxInst
	seen := map[string]string{}
	var key []string
	full := true
	var copyCell func(from, to Addr, t types.Type)
	var copyVal func(v Val, t types.Type, at string) Val
	copyVal = func(v Val, t types.Type, at string) Val {
		v = st.Resolve(v)
		switch x := v.(type) {
		case Addr:
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				full = false
				return v
			}
			b, ok := seen[x.Key()]
			if !ok {
				b = fmt.Sprintf("O%d", len(seen))
				seen[x.Key()] = b
				copyCell(x, Addr{Base: b}, p.Elem())
			}
			key = append(key, at+"->"+b)
			return Addr{Base: b}
		case SliceOf:
			sl, ok := t.Underlying().(*types.Slice)
			if !ok || x.N < 0 {
				full = false
				return v
			}
			b := fmt.Sprintf("O%d", len(seen))
			seen[b] = b
			for i := 0; i < x.N; i++ {
				copyCell(Addr{x.A.Base, fmt.Sprintf("%s[%d]", x.A.Path, i)}, Addr{b, fmt.Sprintf("[%d]", i)}, sl.Elem())
			}
			key = append(key, fmt.Sprintf("%s#%d", at, x.N))
			return SliceOf{A: Addr{Base: b}, N: x.N}
		case Const:
			if x.V.Kind() == constant.Int {
				i, _ := constant.Int64Val(x.V)
				b, _ := t.Underlying().(*types.Basic)
				if i > clamp && b != nil && b.Kind() == types.Int {
					key = append(key, at+"=many")
					return v
				}
			}
			if x.V.Kind() != constant.String {
				key = append(key, at+"="+x.Key())
			}
		case Nil:
			key = append(key, at+"=nil")
		case Struct:
			for i, f := range x.Fields {
				if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
					copyVal(f, s.Field(i).Type(), at+"."+s.Field(i).Name())
				}
			}
		}
		return v
	}
	copyCell = func(from, to Addr, t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if nt, ok := t.(*types.Named); ok && nt.Obj().Name() == "Position" {
				// positions are compared, but states that only differ in them are taken together
				defer func(n int) { key = key[:n] }(len(key))
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				copyCell(Addr{from.Base, from.Path + "." + f.Name()}, Addr{to.Base, to.Path + "." + f.Name()}, f.Type())
			}
			return
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				copyCell(Addr{from.Base, fmt.Sprintf("%s[%d]", from.Path, i)}, Addr{to.Base, fmt.Sprintf("%s[%d]", to.Path, i)}, u.Elem())
			}
			return
		}
		n.StoreCell(to, copyVal(st.Load(from, t), t, to.Cell()))
	}
	root := copyVal(v, t, "")
	sort.Strings(key)
	return n, root, strings.Join(key, ";"), full
}

func runC23(c *core.Ctx) {
	rep := c.Rep
	a := &lexAn{c: c, rep: rep, specs: map[string]lexSpec{}, typeOf: map[string]string{}, op: map[string]*ssa.Function{}}
	runeStreams(c, rep)
	a.tokT = c.Named(yayaml+"/token", "Token")
	if a.tokT == nil {
		rep.Undecide("no token type")
		return
	}
	a.globals = ConstGlobals(c.Prog, c.Funcs)
	sc := c.Pkgs[yayaml+"/token"].Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && strings.HasSuffix(n, "Type") {
			a.typeOf[Const{k.Val()}.Key()] = n
		}
	}
	a.new = c.Func(lexPkg, "NewTokenizer")
	tz := c.Named(lexPkg, "Tokenizer")
	if a.new == nil || tz == nil {
		rep.Undecide("no tokenizer")
		return
	}
	for _, m := range []string{"Next", "SetRawMode", "UnsetRawMode"} {
		a.op[m] = c.Method(tz, m)
		if a.op[m] == nil {
			rep.Undecide("the tokenizer has no %s", m)
			return
		}
	}
	depth := 2
	a.word = 2
	if c.Tier == "thorough" {
		a.word, depth = 4, 3
	}
	var inits []*ssa.Package
	for _, p := range []string{lexPkg, yayaml + "/token", yayaml + "/yamlchar"} {
		if c.SSA[p] != nil {
			inits = append(inits, c.SSA[p])
		}
	}
	a.base = InitState(c.Prog, inits, stdModel)
	st := a.base.Clone()
	st.MaxInst = 64
	var args []Val
	for i, p := range a.new.Params {
		if i == 0 {
			args = append(args, Sym{ID: "source", T: p.Type()})
		} else {
			args = append(args, Nil{})
		}
	}
	st.TS["cur"] = "0"
	in := a.interp(a.new)
	outs := in.Run(a.new, args, st)
	if len(outs) != 1 || outs[0].Panic || in.Capped {
		rep.Undecide("NewTokenizer: %d outcomes", len(outs))
		return
	}
	seen := map[string]bool{}
	class := map[string]bool{}
	first, ok := a.node(outs[0].St, outs[0].Rets[0], lexSpec{row: 1, start: -1}, "")
	if !ok {
		return
	}
	level := []lexNode{first}
	seen[first.key] = true
	states := 0
	for len(level) > 0 && len(rep.Violations) == 0 {
		next := make([][]lexNode, len(level))
		var jobs []func(*core.Ctx)
		for i, nd := range level {
			states++
			word := a.word - 1
			if k := fmt.Sprint(nd.spec.stack, nd.spec.raw, nd.spec.esc); !class[k] && !nd.spec.hasPrep {
				class[k] = true
				word = a.word
			}
			jobs = append(jobs, func(c *core.Ctx) {
				b := *a
				b.c, b.rep, b.word, b.forget, b.specs = c, core.NewReport("C23"), word, true, map[string]lexSpec{}
				next[i] = b.step(nd)
				if len(b.rep.Violations) > 0 {
					// again, with everything that was looked ahead remembered
					b.rep, b.forget, b.word = core.NewReport("C23"), false, min(word, 2)
					next[i] = b.step(nd)
					if len(b.rep.Violations) == 0 {
						c.Rep.Undecide("a reading in %s only differs when lookahead is forgotten", nd.how)
					}
				}
				c.Rep.Merge(b.rep)
			})
		}
		c.Parallel(jobs)
		level = nil
		for _, ns := range next {
			for _, n := range ns {
				if len(n.spec.stack) > depth || seen[n.key] {
					continue
				}
				seen[n.key] = true
				level = append(level, n)
			}
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("level", len(level), "states", states)
		}
	}
	rep.Count("lexer states", states)
	rep.Floor("reading", 200)
}

type lexNode struct {
	st   *State
	tz   Val
	spec lexSpec
	how  string
	key  string
}

func (a *lexAn) interp(fn *ssa.Function) *Interp {
	in := New(a.c.Prog, Hooks{Call: a.model(fn)})
	in.Hooks.Inline = func(f *ssa.Function) bool { return len(f.Blocks) > 0 }
	in.Runes, in.ForkLookup, in.Collect = true, true, true
	in.MaxSteps = 3000000
	in.GlobalInit = a.globals
	return in
}

func (a *lexAn) node(st *State, tz Val, sp lexSpec, how string) (lexNode, bool) {
	n, r, k, full := snapshot(a.base, st, tz, a.new.Signature.Results().At(0).Type(), 1)
	if !full {
		a.rep.Undecide("the tokenizer's state is not fully known (%s)", how)
		return lexNode{}, false
	}
	cl := sp
	cl.row, cl.col = 0, 0
	cl.next, cl.start = 0, -1
	cl.prep.from, cl.prep.to, cl.prep.col, cl.prep.row, cl.prep.end, cl.prep.enr = 0, 0, 0, 0, 0, 0
	n.TS["cur"] = fmt.Sprint(sp.next)
	return lexNode{n, r, sp, how, k + "|" + cl.key()}, true
}

// step interprets every operation from one state.
func (a *lexAn) step(nd lexNode) []lexNode {
	rep := a.rep
	var out []lexNode
	push := func(st *State, sp lexSpec, how string) {
		if n, ok := a.node(st, nd.tz, sp, how); ok {
			out = append(out, n)
		}
	}
	how := fmt.Sprintf(" (contexts %q, after %s%s)", nd.spec.stack, orStart(nd.spec.prev), map[bool]string{true: ", raw", false: ""}[nd.spec.raw])
	for _, m := range []string{"SetRawMode", "UnsetRawMode"} {
		want := m == "SetRawMode"
		if nd.spec.raw == want {
			continue
		}
		s := nd.st.Clone()
		in := a.interp(a.op[m])
		for _, o := range in.Run(a.op[m], []Val{nd.tz}, s) {
			o.St.TS["how"] = how
			if o.Panic {
				a.bad(o.St, a.op[m], "panics")
				continue
			}
			if o.St.TS["cur"] != fmt.Sprint(nd.spec.next) {
				a.bad(o.St, a.op[m], "reads characters")
				continue
			}
			sp := nd.spec
			sp.raw = want
			push(o.St, sp, nd.how+" "+m)
		}
	}
	next := a.op["Next"]
	s := nd.st.Clone()
	s.TS["how"] = how
	a.put(s, nd.spec)
	in := a.interp(next)
	outs := in.Run(next, []Val{nd.tz}, s)
	rep.Count("interpreted steps", in.Steps)
	if in.Capped {
		rep.Undecide("Next after%s: %s", nd.how, in.CapWhy)
		return out
	}
	for _, o := range outs {
		cur := 0
		fmt.Sscan(o.St.TS["cur"], &cur)
		if o.Panic {
			if len(a.flush(o.St, cur, next)) > 0 {
				a.bad(o.St, next, "panics: %s", o.Note)
			}
			continue
		}
		if o.St.TS["cps"] != "" {
			a.bad(o.St, next, "a lookahead is not undone")
			continue
		}
		for _, f := range a.flush(o.St, cur, next) {
			rep.Ob("reading")
			sp := a.get(f)
			var want specTok
			switch {
			case nd.spec.hasPrep:
				want = nd.spec.prep
				if sp.next != nd.spec.next {
					a.bad(f, next, "reads characters although a %s is still to be delivered", nd.spec.prep.typ)
					continue
				}
				sp.hasPrep, sp.prep, sp.prev = false, specTok{}, want.typ
			case !sp.done || sp.rem > 0:
				what := "a word"
				if sp.done {
					what = "a " + sp.tok.typ
				}
				a.bad(f, next, "returns in the middle of %s", what)
				continue
			default:
				want = sp.deliver()
			}
			if len(o.Rets) == 1 && a.same(f, o.Rets[0], want, next, rep) {
				push(f, sp, nd.how+" "+want.typ)
			}
		}
	}
	return out
}

func orStart(s string) string {
	if s == "" {
		return "the start"
	}
	return s
}

// same compares a token with the one the rules give.
func (a *lexAn) same(st *State, v Val, want specTok, fn *ssa.Function, rep *core.Report) bool {
	str := a.tokT.Underlying().(*types.Struct)
	field := func(v Val, t types.Type, name string) (Val, types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return Nil{}, t
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return st.Resolve(st.FieldOf(v, i, s.Field(i).Type())), s.Field(i).Type()
			}
		}
		return Nil{}, t
	}
	_ = str
	shown := showRunes(st, want)
	ty, _ := field(v, a.tokT, "Type")
	tc, ok := st.Known(ty)
	if !ok {
		rep.Undecide("token type %s", ty.Key())
		return false
	}
	got := a.typeOf[tc.Key()]
	if got != want.typ {
		a.bad(st, fn, "%s is read as %s, not %s", shown, got, want.typ)
		return false
	}
	if want.typ == "EOFType" {
		return true
	}
	or, _ := field(v, a.tokT, "Origin")
	rs, ok := st.RunesOf(or)
	if !ok {
		rep.Undecide("token text %s", short(or.Key()))
		return false
	}
	okText := len(rs) == want.to-want.from
	for i := 0; okText && i < len(rs); i++ {
		w := st.Resolve(runeSym(want.from + i))
		if st.Resolve(rs[i]).Key() != w.Key() {
			x, xo := st.Known(rs[i])
			y, yo := st.Known(w)
			okText = xo && yo && x.Key() == y.Key()
		}
	}
	if !okText {
		a.bad(st, fn, "the text of the %s at %s is not the characters it was read from", want.typ, shown)
		return false
	}
	for _, e := range []struct {
		f        string
		row, col int
	}{{"Start", want.row, want.col}, {"End", want.enr, want.end}} {
		p, pt := field(v, a.tokT, e.f)
		r, _ := field(p, pt, "Row")
		cl, _ := field(p, pt, "Column")
		rc, ok1 := st.Known(r)
		cc, ok2 := st.Known(cl)
		if !ok1 || !ok2 {
			rep.Undecide("position of %s", want.typ)
			continue
		}
		if rc.Key() != Int(int64(e.row)).Key() || cc.Key() != Int(int64(e.col)).Key() {
			a.bad(st, fn, "the %s position of the %s at %s is row %s column %s, not row %d column %d", e.f, want.typ, shown, rc.Key()[1:], cc.Key()[1:], e.row, e.col)
			return false
		}
	}
	return true
}

func showRunes(st *State, t specTok) string {
	s := ""
	for i := t.from; i < t.to; i++ {
		if c, ok := st.Known(runeSym(i)); ok {
			n, _ := constant.Int64Val(c.V)
			if n < 0 {
				s += "<end>"
			} else {
				s += string(rune(n))
			}
		} else {
			s += "·"
		}
	}
	after := ""
	if c, ok := st.Known(runeSym(t.to)); ok {
		n, _ := constant.Int64Val(c.V)
		if n < 0 {
			after = " before the end"
		} else {
			after = fmt.Sprintf(" before %q", rune(n))
		}
	}
	return fmt.Sprintf("%q%s", s, after)
}

// runeStreams checks the streams of characters: they decode their text from front to end.
func runeStreams(c *core.Ctx, rep *core.Report) {
	sc := c.Pkgs[lexPkg]
	if sc == nil {
		return
	}
	for _, name := range sc.Types.Scope().Names() {
		tn, ok := sc.Types.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		next := c.Method(named, "Next")
		if next == nil || next.Signature.Results().Len() != 1 || !types.Identical(next.Signature.Results().At(0).Type(), types.Typ[types.Rune]) && next.Signature.Results().At(0).Type().String() != "rune" {
			continue
		}
		// the constructor
		var ctor *ssa.Function
		for _, f := range c.FuncsOf(lexPkg) {
			if f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && isPtrTo(f.Signature.Results().At(0).Type(), named) && f.Signature.Params().Len() == 1 && len(f.Blocks) > 0 && f.Parent() == nil {
				ctor = f
			}
		}
		if ctor == nil {
			continue
		}
		src := Sym{ID: "src", T: ctor.Params[0].Type()}
		offset := func(st *State, v Val) (int64, bool) {
			o := int64(0)
			for {
				v = st.Resolve(v)
				switch x := v.(type) {
				case Shrink:
					if x.Hi != nil && x.Hi.Key() != st.Len(x.X).Key() {
						return 0, false
					}
					if x.Lo != nil {
						k, ok := st.Resolve(x.Lo).(Const)
						if !ok {
							return 0, false
						}
						i, _ := constant.Int64Val(k.V)
						o += i
					}
					v = x.X
				case Sym:
					if x.ID == "src" {
						return o, true
					}
					return 0, false
				default:
					return 0, false
				}
			}
		}
		in := New(c.Prog, Hooks{})
		in.Hooks.Inline = func(f *ssa.Function) bool { return len(f.Blocks) > 0 }
		in.Hooks.Call = func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
			switch cl.Name() {
			case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
				o, ok := offset(st, cl.Args[0])
				if !ok {
					st.TS["und"] = "decodes " + cl.Args[0].Key()
				}
				st.TS["at"] += fmt.Sprintf(" %d", o)
				var outs []Outcome
				for w := int64(1); w <= 4; w++ {
					n := st.Clone()
					n.TS["pos"] = fmt.Sprint(o + w)
					outs = append(outs, Outcome{St: n, Rets: []Val{Sym{ID: fmt.Sprintf("char@%d", o), T: types.Typ[types.Rune]}, Int(w)}})
				}
				return outs, true
			}
			return stdModel(in, cl, st)
		}
		type nd struct {
			st  *State
			pos int64
			n   int
		}
		outs := in.Run(ctor, []Val{src}, NewState())
		if len(outs) != 1 || outs[0].Panic {
			rep.Undecide("%s: %d outcomes", ctor.Name(), len(outs))
			continue
		}
		strm := outs[0].Rets[0]
		queue := []nd{{outs[0].St, 0, 0}}
		for len(queue) > 0 {
			x := queue[0]
			queue = queue[1:]
			s := x.st.Clone()
			delete(s.TS, "at")
			delete(s.TS, "pos")
			for _, o := range in.RunAs(fmt.Sprintf("next%d", x.n), next, []Val{strm}, s) {
				if in.Capped {
					rep.Undecide("%s: %s", core.FuncName(next), in.CapWhy)
					break
				}
				if u := o.St.TS["und"]; u != "" {
					rep.Undecide("%s: %s", core.FuncName(next), u)
					continue
				}
				rep.Ob("stream")
				bad := func(format string, as ...any) {
					rep.Violate("stream", core.FuncName(next), c.Pos(next.Pos()), "after %d characters: %s", x.n, fmt.Sprintf(format, as...))
				}
				if o.Panic {
					// reading past the end of a known text would be one; an unknown text has no bounds here
					continue
				}
				lo, hi, _ := o.St.Interval(o.St.Len(src))
				at := o.St.TS["at"]
				switch {
				case at == "":
					if k, ok := o.St.Known(o.Rets[0]); !ok || k.Key() != Int(-1).Key() {
						bad("gives %s without decoding anything", o.Rets[0].Key())
					} else if hi > x.pos {
						bad("gives the end of input before the text ends")
					} else if x.n < 3 {
						queue = append(queue, nd{o.St, x.pos, x.n + 1})
					}
				case at != fmt.Sprintf(" %d", x.pos):
					bad("decodes at offset%s instead of %d", at, x.pos)
				case o.Rets[0].Key() != "$"+fmt.Sprintf("char@%d", x.pos):
					bad("gives something else than the character decoded")
				case lo <= x.pos:
					bad("decodes beyond the end of the text")
				default:
					p := int64(0)
					fmt.Sscan(o.St.TS["pos"], &p)
					// a character of this width lies within the text
					if !o.St.Assume(Cmp{Op: "<=", X: Int(p), Y: o.St.Len(src)}, true) {
						continue
					}
					if x.n < 2 {
						queue = append(queue, nd{o.St, p, x.n + 1})
					}
				}
			}
		}
	}
	rep.Floor("stream", 5)
}
