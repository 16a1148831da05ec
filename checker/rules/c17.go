package rules

import (
	"bytes"
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

func init() {
	register("C17", &Rule{
		Run:     runC17,
		Explain: "Abstract interpretation of the tree writer's three methods over abstract trees (structure known, every letter a symbol): the abstract text each path leaves in the result or at the destination is read by an independent reader of YAML's block rules and compared, node by node, with the tree; conversions of quoted texts, the destination and the anchors keeper are symbolic and may fail; the writer is then used again from every state it was left in.",
		Assume:  []string{"yamlchar.ConvertToYAML*QuotedString give the text between the quotes (C08)", "letters stand for themselves in plain texts"},
	})
}

// ---- texts as byte strings: a symbolic letter is a byte >= 0x80

type letters struct {
	ids  map[string]byte
	syms []Val
	wide bool // known characters beyond ASCII are letters too
}

func (l *letters) sym() (Val, bool) {
	if len(l.syms) >= 127 {
		return nil, false
	}
	s := Sym{ID: fmt.Sprintf("%s%06d", Kept, len(l.syms)), T: types.Typ[types.Rune]}
	l.add(s)
	return s, true
}

func (l *letters) add(s Sym) {
	if _, ok := l.ids[s.Key()]; ok {
		return
	}
	l.ids[s.Key()] = byte(0x80 + len(l.syms))
	l.syms = append(l.syms, s)
}

// enc spells a text of known characters.
func (l *letters) enc(st *State, v Val) (string, bool) {
	rs, ok := st.RunesOf(v)
	if !ok {
		return "", false
	}
	var out []byte
	for _, r := range rs {
		b, ok := l.encRune(st, r)
		if !ok {
			return "", false
		}
		out = append(out, b)
	}
	return string(out), true
}

func (l *letters) encRune(st *State, r Val) (byte, bool) {
	if c, ok := st.Known(r); ok {
		i, exact := constant.Int64Val(c.V)
		if l.wide && exact && i >= 0x80 {
			if _, ok := l.ids[c.Key()]; !ok && len(l.syms) < 127 {
				l.ids[c.Key()] = byte(0x80 + len(l.syms))
				l.syms = append(l.syms, c)
			}
			b, ok := l.ids[c.Key()]
			return b, ok
		}
		return byte(i), exact && i >= 0 && i < 0x80
	}
	b, ok := l.ids[st.Resolve(r).Key()]
	return b, ok
}

func (l *letters) dec(s string) Val {
	v := Val(Str(""))
	for i := 0; i < len(s); i++ {
		v = Cat(v, Chr(l.decByte(s[i])))
	}
	return v
}

func (l *letters) decByte(b byte) Val {
	if b >= 0x80 {
		return l.syms[b-0x80]
	}
	return Int(int64(b))
}

// encSlice spells a slice of bytes or runes.
func (l *letters) encSlice(st *State, v Val) (string, bool) {
	switch v := st.Resolve(v).(type) {
	case Nil:
		return "", true
	case SliceOf:
		if v.N < 0 {
			return "", false
		}
		var out []byte
		for i := 0; i < v.N; i++ {
			b, ok := l.encRune(st, st.Load(Addr{Base: v.A.Base, Path: fmt.Sprintf("%s[%d]", v.A.Path, i)}, types.Typ[types.Byte]))
			if !ok {
				return "", false
			}
			out = append(out, b)
		}
		return string(out), true
	}
	return "", false
}

func (l *letters) decSlice(st *State, name, s string) Val {
	b := st.FreshID(name)
	for k := range st.Heap {
		if strings.HasPrefix(k, b+"[") {
			delete(st.Heap, k)
		}
	}
	for i := 0; i < len(s); i++ {
		st.Heap[fmt.Sprintf("%s[%d]", b, i)] = l.decByte(s[i])
	}
	return SliceOf{A: Addr{Base: b}, N: len(s)}
}

// ---- the writer

type writerAn struct {
	c       *core.Ctx
	e       *engine
	w       *types.Named
	newFn   *ssa.Function
	keepOpt *ssa.Function
	globals func(*ssa.Global) (Val, bool)
	l       *letters
	quotes  map[byte]quotedText // first letter of a converted text
	targets map[string]*shape
	nodes   map[string]Val // target nodes
	fail    bool           // conversions and the like may fail
	q       [4]int64       // quoting constants: unknown, absent, single, double
	unk     string

	stringer func(st *State, i Iface) (s string, is, ok bool) // what a value's String method says
}

type quotedText struct {
	double bool
	text   string
	second byte
}

func (a *writerAn) interp() *Interp {
	in := New(a.c.Prog, Hooks{Call: a.model})
	in.GlobalInit = a.globals
	in.MaxRec, in.MaxDepth, in.MaxSteps = 16, 120, 2000000
	in.Runes = true
	in.Hooks.Inline = func(fn *ssa.Function) bool {
		if len(fn.Blocks) == 0 {
			return false
		}
		p := core.FuncPkg(fn)
		if p == nil {
			return fn.Synthetic != ""
		}
		return p.Path() == root || strings.HasPrefix(p.Path(), core.Mod+"/")
	}
	return in
}

// noLetters: the pattern says the same of every letter.
func noLetters(ss ...string) bool {
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			if s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' {
				return false
			}
		}
	}
	return true
}

func (a *writerAn) model(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
	name := cl.Name()
	l := a.l
	fails := func(what string, ok Outcome, zero ...Val) ([]Outcome, bool) {
		if !a.fail || ok.St.TS["failed"] != "" {
			return []Outcome{ok}, true
		}
		bad := ok.St.Clone()
		e := Sym{ID: bad.FreshID("err:" + what), T: errType}
		bad.SetNil(e, 2)
		bad.TS["failed"] = what
		bad.Logf("%s fails", what)
		return []Outcome{ok, {St: bad, Rets: append(zero, e)}}, true
	}
	if cl.Common.IsInvoke() {
		recv := st.Resolve(cl.Args[0]).Key()
		m := cl.Common.Method.Name()
		switch {
		case recv == "$keeper":
			switch m {
			case "StoreAnchor":
				s, _ := strConst(st.Resolve(cl.Args[1]))
				st.TS["keeper"] += "store " + s + ";"
				return []Outcome{{St: st}}, true
			case "BindToLatestAnchor":
				st.TS["keeper"] += "bind " + st.Resolve(cl.Args[1]).Key() + ";"
				return []Outcome{{St: st}}, true
			case "DereferenceAlias":
				s, ok := strConst(st.Resolve(cl.Args[1]))
				n := a.nodes[s]
				if !ok || n == nil {
					return nil, false
				}
				return fails("dereference", Outcome{St: st, Rets: []Val{n, Nil{}}}, Nil{})
			}
		case recv == "$dst" && (m == "Write" || m == "WriteString"):
			s, ok := l.enc(st, cl.Args[1])
			if m == "Write" {
				s, ok = l.encSlice(st, cl.Args[1])
			}
			if !ok {
				return nil, false
			}
			n := Int(int64(len(s)))
			bad := st.Clone()
			a.send(st, s)
			outs, _ := fails("destination", Outcome{St: st, Rets: []Val{n, Nil{}}}, Int(0))
			if len(outs) == 2 {
				outs[1].St.TS["dst"] = bad.TS["dst"]
			}
			return outs, true
		}
	}
	if strings.HasPrefix(name, core.Mod+"/engines/yayamls/yamlchar.ConvertToYAML") {
		s, ok := l.enc(st, cl.Args[0])
		if !ok {
			return nil, false
		}
		double := strings.Contains(name, "Double")
		pair := ""
		for b, q := range a.quotes {
			if q.double == double && q.text == s {
				pair = string([]byte{b, q.second})
			}
		}
		if pair == "" {
			r1, ok1 := l.sym()
			r2, ok2 := l.sym()
			if !ok1 || !ok2 {
				return nil, false
			}
			b1, _ := l.encRune(st, r1)
			b2, _ := l.encRune(st, r2)
			a.quotes[b1] = quotedText{double, s, b2}
			pair = string([]byte{b1, b2})
		}
		for i := 0; i < 2; i++ {
			if s, ok := l.decByte(pair[i]).(Sym); ok {
				if f := st.Facts[s.ID]; !f.HasIv {
					st.Facts[s.ID] = Fact{HasIv: true, Lo: 'a', Hi: 'z'}
				}
			}
		}
		return fails("conversion", Outcome{St: st, Rets: []Val{l.dec(pair), Nil{}}}, Str(""))
	}
	if o, ok := a.textual(in, cl, st, fails); ok {
		return o, true
	}
	switch {
	case strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, "fmt.Errorf"):
		if name == "errors.Is" || name == "errors.As" {
			break
		}
		return stdModel(in, cl, st)
	}
	if o, ok := stdModel(in, cl, st); ok {
		return o, true
	}
	if cl.Fn != nil && !in.Hooks.Inline(cl.Fn) || cl.Fn == nil && !isBuiltin(cl) {
		if a.unk == "" {
			a.unk = name
		}
	}
	return nil, false
}

func isBuiltin(cl *Call) bool { _, ok := cl.Common.Value.(*ssa.Builtin); return ok }

func (a *writerAn) send(st *State, s string) { st.TS["dst"] += s }

// textual models text building and searching over texts of known characters.
func (a *writerAn) textual(in *Interp, cl *Call, st *State, fails func(string, Outcome, ...Val) ([]Outcome, bool)) ([]Outcome, bool) {
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: v}}, true }
	name := cl.Name()
	l := a.l
	num := func(i int) (int, bool) {
		c, ok := st.Known(cl.Args[i])
		if !ok {
			return 0, false
		}
		n, exact := constant.Int64Val(c.V)
		return int(n), exact
	}
	// buffers
	if name == "bytes.NewBuffer" || name == "bytes.NewBufferString" {
		s, ok := l.encSlice(st, cl.Args[0])
		if name == "bytes.NewBufferString" {
			s, ok = l.enc(st, cl.Args[0])
		}
		if !ok {
			return nil, false
		}
		b := st.FreshID("buffer:" + cl.Site)
		st.Heap["!zero:"+b] = Nil{}
		st.Heap["!sb:"+b] = l.dec(s)
		return one(Addr{Base: b})
	}
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		b, ok := st.Resolve(cl.Args[0]).(Addr)
		if !ok {
			return nil, false
		}
		cell := "!sb:" + b.Cell()
		cur, ok := st.Heap[cell]
		if !ok {
			cur = Str("")
		}
		cs, ok := l.enc(st, cur)
		if !ok {
			return nil, false
		}
		put := func(s string) {
			if s == "" {
				return
			}
			for k, v := range st.Heap {
				if strings.HasPrefix(k, "!shares:") && v.Key() == Str("reset "+cell).Key() {
					st.TS["overwritten:"+strings.TrimPrefix(k, "!shares:")] = "1"
				}
			}
			st.Heap[cell] = l.dec(cs + s)
		}
		reset := func(s string) {
			for k, v := range st.Heap {
				if strings.HasPrefix(k, "!shares:") && v.Key() == Str(cell).Key() {
					st.Heap[k] = Str("reset " + cell)
				}
			}
			st.Heap[cell] = l.dec(s)
		}
		switch m := name[strings.LastIndex(name, ".")+1:]; m {
		case "WriteRune", "WriteByte":
			c, ok := l.encRune(st, cl.Args[1])
			if !ok {
				st.Heap[cell] = Sym{ID: st.FreshID("text:" + cl.Site), T: types.Typ[types.String]}
				return nil, false
			}
			put(string([]byte{c}))
			if m == "WriteByte" {
				return one(Nil{})
			}
			return one(Int(1), Nil{})
		case "WriteString", "Write":
			s, ok := l.enc(st, cl.Args[1])
			if m == "Write" {
				s, ok = l.encSlice(st, cl.Args[1])
			}
			if !ok {
				st.Heap[cell] = Sym{ID: st.FreshID("text:" + cl.Site), T: types.Typ[types.String]}
				return nil, false
			}
			put(s)
			return one(Int(int64(len(s))), Nil{})
		case "String":
			return one(cur)
		case "Bytes":
			v := l.decSlice(st, "bytes:"+cl.Site, cs)
			st.Heap["!shares:"+v.(SliceOf).A.Base] = Str(cell)
			delete(st.TS, "overwritten:"+v.(SliceOf).A.Base)
			return one(v)
		case "Grow":
			return []Outcome{{St: st}}, true
		case "Len":
			return one(Int(int64(len(cs))))
		case "Reset":
			reset("")
			return []Outcome{{St: st}}, true
		case "Truncate":
			n, ok := num(1)
			if !ok || n < 0 || n > len(cs) {
				return nil, false
			}
			reset(cs[:n])
			return []Outcome{{St: st}}, true
		case "WriteTo":
			return a.transfer(st, cl.Args[1], cs, reset, fails)
		}
		return nil, false
	}
	switch name {
	case "fmt.Sprintf", "fmt.Fprintf", "fmt.Sprint", "fmt.Fprint":
		args := cl.Args
		if strings.HasPrefix(name, "fmt.F") {
			args = args[1:]
		}
		f := ""
		if strings.HasSuffix(name, "f") {
			c, ok := strConst(st.Resolve(args[0]))
			if !ok {
				return nil, false
			}
			f, args = c, args[1:]
		}
		s, ok := a.format(st, f, strings.HasSuffix(name, "f"), args[0])
		if !ok {
			return nil, false
		}
		if strings.HasPrefix(name, "fmt.F") {
			return a.transfer(st, cl.Args[0], s, func(string) {}, fails)
		}
		return one(l.dec(s))
	case "io.Copy":
		src := st.Resolve(cl.Args[1])
		if i, ok := src.(Iface); ok {
			src = st.Resolve(i.V)
		}
		b, ok := src.(Addr)
		if !ok {
			return nil, false
		}
		cell := "!sb:" + b.Cell()
		cur, ok := st.Heap[cell]
		if !ok {
			return nil, false
		}
		cs, ok := l.enc(st, cur)
		if !ok {
			return nil, false
		}
		return a.transfer(st, cl.Args[0], cs, func(s string) {
			for k, v := range st.Heap {
				if strings.HasPrefix(k, "!shares:") && v.Key() == Str(cell).Key() {
					st.Heap[k] = Str("reset " + cell)
				}
			}
			st.Heap[cell] = l.dec(s)
		}, fails)
	case "io.WriteString":
		s, ok := l.enc(st, cl.Args[1])
		if !ok {
			return nil, false
		}
		outs, ok := a.transfer(st, cl.Args[0], s, func(string) {}, fails)
		return outs, ok
	}
	// searches
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil, false
	}
	pkg, fn := name[:i], name[i+1:]
	if pkg != "strings" && pkg != "bytes" {
		return nil, false
	}
	arg := func(i int) (string, bool) {
		if i >= len(cl.Args) {
			return "", false
		}
		if pkg == "bytes" {
			if _, isStr := cl.Common.Args[i].Type().Underlying().(*types.Basic); !isStr {
				return l.encSlice(st, cl.Args[i])
			}
		}
		return l.enc(st, cl.Args[i])
	}
	back := func(s string) Val {
		if pkg == "bytes" {
			return l.decSlice(st, "part:"+cl.Site, s)
		}
		return l.dec(s)
	}
	many := func(ss []string) ([]Outcome, bool) {
		var vs []Val
		for _, s := range ss {
			vs = append(vs, back(s))
		}
		b := st.FreshID("parts:" + cl.Site)
		return one(sliceVal(st, b, vs))
	}
	s, ok := arg(0)
	if !ok {
		return nil, false
	}
	if fn == "Clone" {
		return one(back(s))
	}
	if fn == "Repeat" {
		n, ok := num(1)
		if !ok || n < 0 || n > 200 {
			return nil, false
		}
		return one(back(strings.Repeat(s, n)))
	}
	if fn == "TrimSpace" {
		return one(back(strings.TrimSpace(s)))
	}
	// one-character arguments
	switch fn {
	case "ContainsRune", "IndexRune", "IndexByte", "LastIndexByte":
		b, ok := l.encRune(st, cl.Args[1])
		if !ok || b >= 0x80 || !noLetters(string(rune(b)), constPart(s)) && b >= 'A' {
			return nil, false
		}
		x := strings.IndexByte(s, b)
		if fn == "LastIndexByte" {
			x = strings.LastIndexByte(s, b)
		}
		if fn == "ContainsRune" {
			return one(Bool(x >= 0))
		}
		return one(Int(int64(x)))
	}
	p, ok := arg(1)
	if !ok || !noLetters(p) {
		return nil, false
	}
	for i := 0; i < len(p); i++ {
		if p[i] >= 0x80 && fn != "Equal" {
			return nil, false
		}
	}
	switch fn {
	case "Contains":
		return one(Bool(strings.Contains(s, p)))
	case "ContainsAny":
		return one(Bool(bytes.ContainsAny([]byte(s), p)))
	case "Index":
		return one(Int(int64(strings.Index(s, p))))
	case "LastIndex":
		return one(Int(int64(strings.LastIndex(s, p))))
	case "IndexAny":
		return one(Int(int64(strings.IndexAny(s, p))))
	case "HasPrefix":
		return one(Bool(strings.HasPrefix(s, p)))
	case "HasSuffix":
		return one(Bool(strings.HasSuffix(s, p)))
	case "Count":
		if p == "" {
			return nil, false
		}
		return one(Int(int64(strings.Count(s, p))))
	case "Split":
		if p == "" {
			return nil, false
		}
		return many(strings.Split(s, p))
	case "SplitAfter":
		if p == "" {
			return nil, false
		}
		return many(strings.SplitAfter(s, p))
	case "SplitN":
		n, ok := num(2)
		if !ok || p == "" {
			return nil, false
		}
		return many(strings.SplitN(s, p, n))
	case "TrimSuffix":
		return one(back(strings.TrimSuffix(s, p)))
	case "TrimPrefix":
		return one(back(strings.TrimPrefix(s, p)))
	case "TrimRight":
		return one(back(trimRight(s, p)))
	case "TrimLeft":
		for s != "" && strings.IndexByte(p, s[0]) >= 0 {
			s = s[1:]
		}
		return one(back(s))
	case "Cut":
		x, y, found := strings.Cut(s, p)
		return one(back(x), back(y), Bool(found))
	case "ReplaceAll":
		r, ok := arg(2)
		if !ok || p == "" {
			return nil, false
		}
		return one(back(strings.ReplaceAll(s, p, r)))
	}
	return nil, false
}

// format formats texts, characters and numbers.
func (a *writerAn) format(st *State, f string, verbs bool, args Val) (string, bool) {
	vs, ok := elems(st, args, types.NewInterfaceType(nil, nil))
	if !ok {
		return "", false
	}
	arg := func(v Val, verb byte) (string, bool) {
		i, ok := st.Resolve(v).(Iface)
		if !ok {
			return "", false
		}
		if a.stringer != nil && (verb == 's' || verb == 'v') {
			if s, is, ok := a.stringer(st, i); is {
				return s, ok
			}
		}
		if b, ok := i.T.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0 && verb != 'd' && verb != 'c':
				return a.l.enc(st, i.V)
			case b.Info()&types.IsInteger != 0 && verb == 'c':
				c, ok := a.l.encRune(st, i.V)
				return string([]byte{c}), ok
			case b.Info()&types.IsInteger != 0 && verb != 's':
				c, ok := st.Known(i.V)
				if !ok {
					return "", false
				}
				return c.V.ExactString(), true
			}
		}
		if _, ok := i.T.Underlying().(*types.Slice); ok && verb == 's' {
			return a.l.encSlice(st, i.V)
		}
		return "", false
	}
	out := ""
	if !verbs {
		if len(vs) != 1 {
			return "", false
		}
		return arg(vs[0], 'v')
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out += f[i : i+1]
			continue
		}
		i++
		switch {
		case i < len(f) && f[i] == '%':
			out += "%"
		case i < len(f) && strings.IndexByte("svdc", f[i]) >= 0 && len(vs) > 0:
			s, ok := arg(vs[0], f[i])
			if !ok {
				return "", false
			}
			out, vs = out+s, vs[1:]
		default:
			return "", false
		}
	}
	return out, len(vs) == 0
}

func trimRight(s, p string) string {
	for s != "" && strings.IndexByte(p, s[len(s)-1]) >= 0 {
		s = s[:len(s)-1]
	}
	return s
}

func constPart(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] < 0x80 {
			out = append(out, s[i])
		}
	}
	return string(out)
}

// transfer sends s to a destination.
func (a *writerAn) transfer(st *State, dst Val, s string, drain func(string), fails func(string, Outcome, ...Val) ([]Outcome, bool)) ([]Outcome, bool) {
	dst = st.Resolve(dst)
	n := Int(int64(len(s)))
	if i, ok := dst.(Iface); ok {
		if b, ok := st.Resolve(i.V).(Addr); ok {
			t := tname(i.T)
			if t == "*strings.Builder" || t == "*bytes.Buffer" {
				cell := "!sb:" + b.Cell()
				cur, ok := st.Heap[cell]
				if !ok {
					cur = Str("")
				}
				st.Heap[cell] = Cat(cur, a.l.dec(s))
				drain("")
				return []Outcome{{St: st, Rets: []Val{n, Nil{}}}}, true
			}
		}
	}
	if dst.Key() != "$dst" {
		return nil, false
	}
	was := st.TS["dst"]
	a.send(st, s)
	drain("")
	outs, ok := fails("destination", Outcome{St: st, Rets: []Val{n, Nil{}}}, Int(0))
	if len(outs) == 2 {
		outs[1].St.TS["dst"] = was
	}
	return outs, ok
}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// ---- abstract trees

var wquote = [4]string{"UnknownQuotingType", "AbsentQuotingType", "SingleQuotingType", "DoubleQuotingType"}

func wt(pat string) *shape  { return &shape{kind: "text", name: pat, q: 1} }
func wu(pat string) *shape  { return &shape{kind: "text", name: pat, q: 0} }
func wq(pat string) *shape  { return &shape{kind: "text", name: pat, q: 3} }
func wqs(pat string) *shape { return &shape{kind: "text", name: pat, q: 2} }

// build makes the abstract node of a shape and records the spelling of its texts.
func (a *writerAn) build(s *shape, st *State, texts map[*shape]string) Val {
	v := a.build1(s, st, texts)
	if s.anc == "" && !s.tag {
		return v
	}
	e := a.e
	inv := Iface{T: types.NewPointer(e.astType("BasicNode")), V: Addr{Base: "inv"}}
	st.Heap["inv.NodeType"] = Int(0)
	var tg, an Val = inv, inv
	if s.anc != "" {
		an = e.ctor(st, "NewAnchorNode", Str(s.anc))
	}
	if s.tag {
		tg = e.ctor(st, "NewTagNode", Str("T"))
	}
	v = e.ctor(st, "NewContentNode", e.ctor(st, "NewPropertiesNode", tg, an), v)
	if s.anc != "" {
		st.TS["content:"+s.anc] = v.Key()
	}
	return v
}

func (a *writerAn) build1(s *shape, st *State, texts map[*shape]string) Val {
	e := a.e
	kids := func(wrap func(i int) Val, n int) Val {
		var vs []Val
		for i := 0; i < n; i++ {
			vs = append(vs, wrap(i))
		}
		return sliceVal(st, e.base(s)+"k", vs)
	}
	switch s.kind {
	case "text":
		v := Val(Str(""))
		for _, r := range s.name {
			x := Val(Int(int64(r)))
			if r >= 'a' && r <= 'z' {
				sy, ok := a.l.sym()
				if !ok {
					panic("too many letters")
				}
				st.Facts[sy.(Sym).ID] = Fact{HasIv: true, Lo: 'a', Hi: 'z'}
				x = sy
			}
			v = Cat(v, Chr(x))
		}
		texts[s], _ = a.l.enc(st, v)
		opt := sliceVal(st, e.base(s)+"opt", []Val{e.option(st, "WithQuotingType", Int(a.q[s.q]))})
		return e.ctor(st, "NewTextNode", v, opt)
	case "none":
		st.Heap["inv.NodeType"] = Int(0)
		return Iface{T: types.NewPointer(e.astType("BasicNode")), V: Addr{Base: "inv"}}
	case "null":
		return e.ctor(st, "NewNullNode")
	case "alias":
		return e.ctor(st, "NewAliasNode", Str(s.name))
	case "seq":
		return e.ctor(st, "NewSequenceNode", kids(func(i int) Val { return a.build(s.kids[i], st, texts) }, len(s.kids)))
	case "stream":
		return e.ctor(st, "NewStreamNode", kids(func(i int) Val { return a.build(s.kids[i], st, texts) }, len(s.kids)))
	case "map":
		return e.ctor(st, "NewMappingNode", kids(func(i int) Val {
			k := a.build(s.kids[2*i], st, texts)
			return e.ctor(st, "NewMappingEntryNode", k, a.build(s.kids[2*i+1], st, texts))
		}, len(s.kids)/2))
	}
	panic("shape " + s.kind)
}

// ---- reading block YAML

type ynode struct {
	kind  string // text, null, seq, map, alias
	text  string
	style byte // p(lain), q(uoted), l(iteral)
	anc   string
	tag   string
	kids  []*ynode
}

type yread struct {
	lines []string
	ln    int // current line
	col   int // current column
}

type yerr string

func (y *yread) fail(format string, as ...any) { panic(yerr(fmt.Sprintf(format, as...))) }

func (y *yread) rest() string {
	if y.ln >= len(y.lines) {
		return ""
	}
	return y.lines[y.ln][y.col:]
}

func indentOf(s string) int { return len(s) - len(strings.TrimLeft(s, " ")) }

// skip moves to the next character that is not white, and says if it crossed a line break.
func (y *yread) skip() (crossed bool) {
	for y.ln < len(y.lines) {
		r := y.rest()
		if t := strings.TrimLeft(r, " "); t != "" {
			y.col += len(r) - len(t)
			return crossed
		}
		y.ln, y.col, crossed = y.ln+1, 0, true
	}
	return true
}

func ind(s string, c byte) bool { return s != "" && s[0] == c && (len(s) == 1 || s[1] == ' ') }

// node reads a node whose parent is indented by n. inline: what precedes on this line lets a
// block collection start here ('-', '?', ':' after '?', or the line's start); same: a sequence may
// be indented as its parent.
func (y *yread) node(n int, inline, same bool) *ynode {
	nd := &ynode{kind: "null"}
	for {
		crossed := y.skip()
		if y.ln >= len(y.lines) {
			return nd
		}
		if crossed {
			inline = true
			r := y.rest()
			if y.col <= n && !(same && y.col == n && ind(r, '-')) {
				return nd
			}
		}
		r := y.rest()
		if (r[0] == '&' || r[0] == '!') && !y.isKey() {
			w := r
			if i := strings.IndexByte(r, ' '); i >= 0 {
				w = r[:i]
			}
			if w[0] == '&' {
				if nd.anc != "" {
					y.fail("two anchors on one node")
				}
				nd.anc = w[1:]
			} else {
				if nd.tag != "" {
					y.fail("two tags on one node")
				}
				nd.tag = w
			}
			y.col += len(w)
			inline = false
			continue
		}
		switch {
		case ind(r, '-'):
			if !inline {
				y.fail("a block sequence starts in the middle of the line %q", y.lines[y.ln])
			}
			y.seq(nd, y.col)
		case ind(r, '?') || ind(r, ':') || y.isKey():
			if !inline {
				y.fail("a block mapping starts in the middle of the line %q", y.lines[y.ln])
			}
			y.mapping(nd, y.col)
		default:
			y.scalar(nd, n)
			if y.ln < len(y.lines) && y.col > 0 {
				if t := strings.TrimLeft(y.rest(), " "); t != "" {
					y.fail("%q follows a complete node", t)
				}
				y.ln, y.col = y.ln+1, 0
			}
			if nd.style == 'p' {
				// a plain text goes on in deeper lines
				sv := *y
				if y.skip(); y.ln < len(y.lines) && y.col > n {
					y.fail("the line %q continues a plain text", y.lines[y.ln])
				}
				*y = sv
			}
		}
		return nd
	}
}

// isKey: the line goes on with an implicit key.
func (y *yread) isKey() bool {
	p := &yread{lines: y.lines, ln: y.ln, col: y.col}
	return p.key() != nil
}

// key reads an implicit key up to behind its colon.
func (y *yread) key() *ynode {
	k := &ynode{kind: "null"}
	for {
		r := strings.TrimLeft(y.rest(), " ")
		y.col = len(y.lines[y.ln]) - len(r)
		if r == "" {
			return nil
		}
		i := strings.IndexByte(r, ' ')
		switch r[0] {
		case '&', '!':
			if i < 0 {
				return nil
			}
			if r[0] == '&' {
				k.anc = r[1:i]
			} else {
				k.tag = r[:i]
			}
			y.col += i
			continue
		case '"', '\'':
			j := strings.IndexByte(r[1:], r[0])
			if j < 0 {
				return nil
			}
			k.kind, k.style, k.text = "text", 'q', r[:j+2]
			y.col += j + 2
		case '[', '{':
			if len(r) < 2 || r[:2] != "[]" && r[:2] != "{}" {
				return nil
			}
			k.kind = map[byte]string{'[': "seq", '{': "map"}[r[0]]
			y.col += 2
		case '|', '>', '-', '?':
			if ind(r, r[0]) || r[0] == '|' || r[0] == '>' {
				return nil
			}
			fallthrough
		default:
			// up to a colon that ends a key
			j := 0
			for j < len(r) && !(r[j] == ':' && (j+1 == len(r) || r[j+1] == ' ')) {
				j++
			}
			if j == len(r) || j == 0 {
				return nil
			}
			k.kind, k.style, k.text = "text", 'p', strings.TrimRight(r[:j], " ")
			y.col += j
			plain(k)
		}
		if y.col < len(y.lines[y.ln]) && y.lines[y.ln][y.col] == ':' && (y.col+1 == len(y.lines[y.ln]) || y.lines[y.ln][y.col+1] == ' ') {
			y.col++
			return k
		}
		return nil
	}
}

func plain(n *ynode) {
	switch {
	case n.text == "null":
		n.kind, n.style = "null", 0
	case n.text[0] == '*':
		n.kind, n.text, n.style = "alias", n.text[1:], 0
	}
}

func (y *yread) seq(nd *ynode, c int) {
	nd.kind = "seq"
	for {
		y.col++
		nd.kids = append(nd.kids, y.node(c, true, false))
		if !y.again(c) || !ind(y.rest(), '-') {
			return
		}
	}
}

// again moves to the next line that is not blank, and says if it is indented by c.
func (y *yread) again(c int) bool {
	if y.ln >= len(y.lines) {
		return false
	}
	if y.col > 0 && strings.TrimLeft(y.rest(), " ") != "" && indentOf(y.lines[y.ln]) != y.col {
		y.fail("%q follows a complete node", y.rest())
	}
	y.skip()
	if y.ln >= len(y.lines) {
		return false
	}
	if y.col > c {
		y.fail("the line %q is indented too much", y.lines[y.ln])
	}
	return y.col == c
}

func (y *yread) mapping(nd *ynode, c int) {
	nd.kind = "map"
	for {
		r := y.rest()
		var k, v *ynode
		switch {
		case ind(r, '?'):
			y.col++
			k = y.node(c, true, false)
			v = &ynode{kind: "null"}
			if y.again(c) && ind(y.rest(), ':') {
				y.col++
				v = y.node(c, true, false)
			}
		case ind(r, ':'):
			y.fail("the line %q has a value without a key", y.lines[y.ln])
		default:
			k = y.key()
			v = y.node(c, false, true)
		}
		nd.kids = append(nd.kids, k, v)
		if !y.again(c) {
			return
		}
		if r := y.rest(); !ind(r, '?') && !ind(r, ':') && !y.isKey() {
			return
		}
	}
}

func (y *yread) scalar(nd *ynode, n int) {
	r := y.rest()
	switch r[0] {
	case '"', '\'':
		j := strings.IndexByte(r[1:], r[0])
		if j < 0 {
			y.fail("the quoted text %q does not end on its line", r)
		}
		nd.kind, nd.style, nd.text = "text", 'q', r[:j+2]
		y.col += j + 2
	case '[', '{':
		if len(r) < 2 || r[:2] != "[]" && r[:2] != "{}" {
			y.fail("%q is not an empty collection", r)
		}
		nd.kind = map[byte]string{'[': "seq", '{': "map"}[r[0]]
		y.col += 2
	case '|':
		y.literal(nd, n)
	case '>':
		y.fail("a folded text loses line breaks: %q", r)
	case '%', '@', '`', ',', ']', '}', '#', '&', '!':
		y.fail("%q cannot start a plain text", r)
	default:
		nd.kind, nd.style, nd.text = "text", 'p', strings.TrimRight(r, " ")
		plain(nd)
		y.col += len(r)
	}
}

func (y *yread) literal(nd *ynode, n int) {
	head := y.rest()[1:]
	chomp := byte(0)
	if head != "" && (head[0] == '-' || head[0] == '+') {
		chomp, head = head[0], head[1:]
	}
	ex := 0
	if head != "" && head[0] >= '1' && head[0] <= '9' {
		ex, head = int(head[0]-'0'), head[1:]
	}
	if chomp == 0 && head != "" && (head[0] == '-' || head[0] == '+') {
		chomp, head = head[0], head[1:]
	}
	if strings.TrimLeft(head, " ") != "" {
		y.fail("%q follows the header of a literal text", head)
	}
	y.ln, y.col = y.ln+1, 0
	in := -1
	if ex > 0 {
		in = max(n, 0) + ex
	}
	blank := 0
	var ls []string
	for ; y.ln < len(y.lines); y.ln++ {
		s := y.lines[y.ln]
		if strings.TrimLeft(s, " ") == "" {
			if in >= 0 && len(s) > in {
				ls = append(ls, s[in:])
				continue
			}
			blank = max(blank, len(s))
			ls = append(ls, "")
			continue
		}
		if in < 0 {
			in = indentOf(s)
			if blank > in {
				y.fail("a blank line before a literal text is indented more than it")
			}
		}
		if indentOf(s) < in || in <= n {
			break
		}
		ls = append(ls, s[in:])
	}
	t := strings.Join(ls, "\n")
	if len(ls) > 0 {
		t += "\n"
	}
	switch chomp {
	case '-':
		t = strings.TrimRight(t, "\n")
	case 0:
		if u := strings.TrimRight(t, "\n"); u != "" {
			t = u + "\n"
		} else {
			t = ""
		}
	}
	nd.kind, nd.style, nd.text = "text", 'l', t
}

// readYAML reads the documents of a text; stream says if there were document marks.
func readYAML(s string) (docs []*ynode, marks bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(yerr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", string(e))
		}
	}()
	lines := strings.Split(s, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	read := func(ls []string) *ynode {
		y := &yread{lines: ls}
		n := y.node(-1, true, false)
		if y.skip(); y.ln < len(y.lines) {
			y.fail("the line %q follows a complete document", y.lines[y.ln])
		}
		return n
	}
	open := false
	var cur []string
	flush := func() {
		if open {
			docs = append(docs, read(cur))
		}
		cur, open = nil, false
	}
	for _, ln := range lines {
		switch {
		case ln == "---" || strings.HasPrefix(ln, "--- "):
			flush()
			marks, open = true, true
			if len(ln) > 3 {
				cur = append(cur, "    "+ln[4:])
			}
		case ln == "...":
			marks = true
			flush()
		default:
			if !open && strings.TrimLeft(ln, " ") == "" && ln == "" && marks {
				continue
			}
			open = true
			cur = append(cur, ln)
		}
	}
	flush()
	return docs, marks, nil
}

// ---- comparing

// differs says how the node read differs from the shape written ("" when it does not).
func (a *writerAn) differs(n *ynode, s *shape, texts map[*shape]string, met map[string]bool, keeper bool) string {
	show := func(n *ynode) string { return showY(n) }
	if s.kind == "alias" && keeper && !met[s.name] {
		return a.differs(n, a.targets[s.name], texts, met, keeper)
	}
	if n.anc != s.anc {
		return fmt.Sprintf("%s has the anchor %q instead of %q", show(n), n.anc, s.anc)
	}
	if s.anc != "" {
		met[s.anc] = true
	}
	if (n.tag != "") != s.tag || s.tag && n.tag != "!!T" {
		return fmt.Sprintf("%s has the tag %q", show(n), n.tag)
	}
	if n.kind != s.kind && !(s.kind == "none" && n.kind == "null") {
		return fmt.Sprintf("%s is read as %s", showS(s), show(n))
	}
	switch s.kind {
	case "alias":
		if n.text != s.name {
			return fmt.Sprintf("the alias %s is read as %s", s.name, show(n))
		}
	case "text":
		want, got := texts[s], n.text
		if n.style == 'q' {
			q, ok := quotedText{}, false
			if len(got) == 4 && got[1] >= 0x80 {
				q, ok = a.quotes[got[1]]
			}
			if !ok || got[2] != q.second {
				if len(got) == 2 {
					q, ok = quotedText{double: got[0] == '"', text: ""}, true
				}
			}
			if !ok {
				return fmt.Sprintf("the quoted text %s was not converted for quotes", showB(got))
			}
			if q.double != (got[0] == '"') {
				return fmt.Sprintf("the text in %c quotes was converted for the other quotes", got[0])
			}
			got = q.text
		}
		if got != want {
			return fmt.Sprintf("the text %s is read as %s", showB(want), showB(got))
		}
		if s.q >= 2 && n.style != 'q' {
			return fmt.Sprintf("the quoted text %s is written without quotes", showB(want))
		}
		if s.q < 2 && n.style != 'p' && want != "" && want[0] != ' ' && !strings.Contains(want, "\n") {
			return fmt.Sprintf("the unquoted text %s is read as a quoted one", showB(want))
		}
	case "seq", "map":
		if len(n.kids) != len(s.kids) {
			return fmt.Sprintf("%s is read as %s", showS(s), show(n))
		}
		for i := range s.kids {
			if d := a.differs(n.kids[i], s.kids[i], texts, met, keeper); d != "" {
				return d
			}
		}
	}
	return ""
}

func showS(s *shape) string {
	if s.kind == "none" {
		return "nothing"
	}
	return strings.ReplaceAll(s.String(), "\n", "↵")
}

func showB(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] >= 0x80:
			fmt.Fprintf(&b, "%c", 'a'+rune(s[i]-0x80)%26)
		case s[i] == '\n':
			b.WriteString("↵")
		default:
			b.WriteByte(s[i])
		}
	}
	return "‹" + b.String() + "›"
}

func showY(n *ynode) string {
	p := ""
	if n.anc != "" {
		p += "&" + n.anc + " "
	}
	if n.tag != "" {
		p += n.tag + " "
	}
	switch n.kind {
	case "text":
		return p + showB(n.text)
	case "alias":
		return p + "*" + n.text
	case "null":
		return p + "null"
	}
	var l []string
	for _, k := range n.kids {
		l = append(l, showY(k))
	}
	if n.kind == "map" {
		return p + "{" + strings.Join(l, ", ") + "}"
	}
	return p + "[" + strings.Join(l, ", ") + "]"
}

// judge compares a text with the shape it should present.
func (a *writerAn) judge(out string, s *shape, texts map[*shape]string, keeper bool) string {
	docs, marks, err := readYAML(out)
	if err != nil {
		return fmt.Sprintf("%s is not read back: %v", showB(out), err)
	}
	want := []*shape{s}
	if s.kind == "stream" {
		want = s.kids
	}
	if len(docs) == 0 && len(want) == 1 && s.kind != "stream" {
		docs = []*ynode{{kind: "null"}}
	}
	if len(docs) != len(want) || s.kind == "stream" && len(want) > 1 && !marks {
		return fmt.Sprintf("%s has %d documents instead of %d", showB(out), len(docs), len(want))
	}
	met := map[string]bool{}
	for i := range want {
		if d := a.differs(docs[i], want[i], texts, met, keeper); d != "" {
			return d + " in " + showB(out)
		}
	}
	return ""
}

// ---- running

type wcase struct {
	s      *shape
	keeper bool
	target *shape // what the keeper knows about the anchor x
}

func (a *writerAn) fresh() {
	a.l = &letters{ids: map[string]byte{}}
	a.quotes = map[byte]quotedText{}
	a.targets, a.nodes = map[string]*shape{}, map[string]Val{}
	a.e = &engine{c: a.c, isAST: true, globals: a.globals}
	a.unk = ""
}

var wmethods = []string{"WriteString", "WriteBytes", "WriteTo"}

// write applies a method to the writer and hands every outcome's text to f.
func (a *writerAn) write(st *State, w Val, m string, node Val, f func(o Outcome, text string, known bool, errv Val)) bool {
	fn := a.c.Method(a.w, m)
	if fn == nil {
		a.c.Rep.Undecide("%s has no body", m)
		return false
	}
	delete(st.TS, "dst")
	args := []Val{w}
	for _, p := range fn.Params[1:] {
		if types.Identical(p.Type(), a.newNode()) {
			args = append(args, node)
		} else {
			d := Sym{ID: "dst", T: p.Type()}
			st.SetNil(d, 2)
			args = append(args, d)
		}
	}
	in := a.interp()
	outs := in.Run(fn, args, st)
	if in.Capped {
		a.c.Rep.Undecide("%s: %s", m, in.CapWhy)
		return false
	}
	for _, o := range outs {
		if o.Panic {
			f(o, "", false, nil)
			continue
		}
		errv := o.St.Resolve(o.Rets[len(o.Rets)-1])
		var text string
		var known bool
		switch m {
		case "WriteString":
			text, known = a.l.enc(o.St, o.Rets[0])
		case "WriteBytes":
			text, known = a.l.encSlice(o.St, o.Rets[0])
		default:
			text, known = o.St.TS["dst"], true
		}
		f(o, text, known, errv)
	}
	return true
}

func (a *writerAn) newNode() types.Type {
	o := a.c.Pkgs[astPkg].Types.Scope().Lookup("Node")
	return o.Type()
}

// start makes a writer.
func (a *writerAn) start(st *State, keeper bool) (Val, bool) {
	var opts Val = Nil{}
	in := a.interp()
	if keeper {
		k := Sym{ID: "keeper", T: a.keepOpt.Params[0].Type()}
		st.SetNil(k, 2)
		outs := in.Run(a.keepOpt, []Val{k}, st)
		if len(outs) != 1 || outs[0].Panic {
			return nil, false
		}
		*st = *outs[0].St
		opts = sliceVal(st, "wopts", []Val{outs[0].Rets[0]})
	}
	var args []Val
	for range a.newFn.Params {
		args = append(args, opts)
	}
	outs := in.Run(a.newFn, args, st)
	if len(outs) != 1 || outs[0].Panic {
		return nil, false
	}
	*st = *outs[0].St
	return outs[0].Rets[0], true
}

func newWState() *State {
	st := NewState()
	st.MaxInst = 4000
	st.TSVal = map[string]Val{}
	return st
}

// run writes the case's tree with every method, and then writes again.
func (a *writerAn) run(cs wcase, methods []string, again []*shape) {
	cs.s = cloneShape(cs.s)
	rep := a.c.Rep
	for _, m := range methods {
		a.fresh()
		a.fail = true
		st := newWState()
		texts := map[*shape]string{}
		if cs.target != nil {
			a.targets["x"] = cs.target
			a.nodes["x"] = a.build(cs.target, st, texts)
		}
		node := a.build(cs.s, st, texts)
		var nodes2 []Val
		for _, s := range again {
			nodes2 = append(nodes2, a.build(s, st, texts))
		}
		w, ok := a.start(st, cs.keeper)
		if !ok {
			rep.Undecide("%s has no single abstract result", a.newFn.Name())
			return
		}
		what := showS(cs.s)
		if cs.keeper {
			what += " with an anchors keeper"
			if cs.target != nil {
				what += " that knows x as " + showS(cs.target)
			}
		}
		fn := a.c.Method(a.w, m)
		construct := fmt.Sprintf("(*%s).%s", a.w.Obj().Name(), m)
		where := ""
		if fn != nil {
			where = a.c.Pos(fn.Pos())
		}
		violate := func(rule, construct, where, format string, as ...any) {
			if a.unk != "" {
				rep.Undecide("%s: nothing is known about %s", m, a.unk)
				return
			}
			rep.Violate(rule, construct, where, format, as...)
		}
		check := func(rule, pre string, o Outcome, s *shape, text string, known bool, errv Val) bool {
			rep.Ob(rule)
			if o.Panic {
				violate(rule, construct, where, "%swriting %s may panic: %s", pre, what, o.Note)
				return false
			}
			failed := o.St.TS["failed"]
			nilness := o.St.Nilness(errv)
			if nilness == 0 {
				rep.Undecide("%s: whether an error is returned is not known (%s)", m, errv.Key())
				return false
			}
			if failed != "" {
				if nilness != 2 {
					violate(rule, construct, where, "%swriting %s: the %s fails, but no error is returned", pre, what, failed)
				} else if text != "" {
					violate(rule, construct, where, "%swriting %s: the %s fails, but %s is written", pre, what, failed, showB(text))
				}
				return true
			}
			if nilness == 2 {
				violate(rule, construct, where, "%swriting %s gives an error although nothing failed", pre, what)
				return false
			}
			if !known {
				if a.unk != "" {
					rep.Undecide("%s: the text written is not known after %s", m, a.unk)
				} else {
					rep.Undecide("%s: the text written for %s is not known", m, what)
				}
				return false
			}
			if d := a.judge(text, s, texts, cs.keeper); d != "" {
				violate(rule, construct, where, "%swriting %s: %s", pre, what, d)
				return false
			}
			return true
		}
		first := 0
		a.write(st, w, m, node, func(o Outcome, text string, known bool, errv Val) {
			first++
			if !check("write", "", o, cs.s, text, known, errv) {
				return
			}
			if cs.keeper && o.St.TS["failed"] == "" {
				if d := a.keeping(cs, o.St); d != "" {
					violate("keeper", construct, where, "writing %s: %s", what, d)
				}
				rep.Ob("keeper")
			}
			failed := o.St.TS["failed"]
			for i, s := range again {
				st2 := o.St.Clone()
				delete(st2.TS, "failed")
				delete(st2.TS, "keeper")
				sv := a.fail
				a.fail = false
				pre := "after a successful write, "
				if failed != "" {
					pre = "after a write whose " + failed + " failed, "
				}
				a.write(st2, w, wmethods[(i+1)%3], nodes2[i], func(o2 Outcome, text2 string, known2 bool, errv2 Val) {
					was := what
					what = showS(s)
					check("reuse", pre, o2, s, text2, known2, errv2)
					what = was
					if m == "WriteBytes" && failed == "" && !o2.Panic {
						if so, ok := o.St.Resolve(o.Rets[0]).(SliceOf); ok && o2.St.TS["overwritten:"+so.A.Base] != "" {
							violate("reuse", construct, where, "the bytes returned are overwritten by the next write")
						}
					}
				})
				a.fail = sv
			}
		})
	}
}

// keeping: every anchor written was announced to the keeper, and its node bound to it before the
// next one was announced.
func (a *writerAn) keeping(cs wcase, st *State) string {
	var want []string
	met := map[string]bool{}
	var walk func(s *shape)
	walk = func(s *shape) {
		if s.kind == "alias" {
			if !met[s.name] && a.targets[s.name] != nil {
				walk(a.targets[s.name])
			}
			return
		}
		if s.anc != "" {
			met[s.anc] = true
			want = append(want, s.anc)
		}
		for _, k := range s.kids {
			walk(k)
		}
	}
	walk(cs.s)
	var got []string
	last := ""
	for _, ev := range strings.Split(st.TS["keeper"], ";") {
		switch {
		case strings.HasPrefix(ev, "store "):
			if last != "" {
				return fmt.Sprintf("the anchor %s is not bound before the next one", last)
			}
			last = strings.TrimPrefix(ev, "store ")
			got = append(got, last)
		case strings.HasPrefix(ev, "bind ") && last != "":
			last = ""
		}
	}
	if last != "" {
		return fmt.Sprintf("the anchor %s is never bound", last)
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("the anchors announced to the keeper are [%s] instead of [%s]", strings.Join(got, " "), strings.Join(want, " "))
	}
	return ""
}

func wscalars() []*shape {
	return []*shape{
		wt("ab"), wt("a b"), wu("ab"), wqs("a"), wq("a"), wq("a\nb"), wqs("a\nb"), wq(""),
		wt("a\nb"), wt("a\nb\n"), wt("a\n\nb"), wt("a\n\n"), wt("a\n b"), wt("\na"), wt(" a"), wt(""), wu("a\nb"), wu(""), wu(" a"),
		null(), seq(), mapping(),
		anchored("y", wt("a")), tagged(wt("a")), anchored("y", tagged(wt("a"))), anchored("y", null()), tagged(wq("a")),
		anchored("y", wt("a\nb")), tagged(wt("a\n")), anchored("y", seq()), tagged(mapping()), alias("z", nil),
	}
}

func wleaves() []*shape {
	return []*shape{wt("ab"), wt("a\nb"), wt("a\nb\n"), wq("a"), null(), seq(), mapping(), anchored("y", wt("a")), tagged(wt("a\nb"))}
}

// wboxes put a node into a collection, followed by a sibling when tail.
func wboxes() []func(s *shape) *shape {
	p := func() *shape { return wt("s") }
	return []func(s *shape) *shape{
		func(s *shape) *shape { return seq(s, p()) },
		func(s *shape) *shape { return seq(p(), s) },
		func(s *shape) *shape { return mapping(p(), s, p(), p()) },
		func(s *shape) *shape { return mapping(p(), p(), p(), s) },
		func(s *shape) *shape { return mapping(s, p(), p(), p()) },
		func(s *shape) *shape { return mapping(p(), p(), s, p()) },
		func(s *shape) *shape { return anchored("u", seq(s, p())) },
		func(s *shape) *shape { return anchored("u", tagged(mapping(p(), s, p(), p()))) },
		func(s *shape) *shape { return tagged(mapping(s, p())) },
		func(s *shape) *shape { return mapping(wq("k"), s) },
		func(s *shape) *shape { return mapping(seq(p(), p()), s) },
		func(s *shape) *shape { return mapping(wt("a\nb"), s) },
	}
}

func hasKeyAlias(s *shape) bool {
	if s.kind == "map" {
		for i := 0; i < len(s.kids); i += 2 {
			if s.kids[i].kind == "alias" {
				return true
			}
		}
	}
	for _, k := range s.kids {
		if hasKeyAlias(k) {
			return true
		}
	}
	return false
}

func runC17(c *core.Ctx) {
	rep := c.Rep
	tw, _ := c.Pkgs[root].Types.Scope().Lookup("TreeWriter").(*types.TypeName)
	if tw == nil {
		rep.Violate("anchor", "yamly.TreeWriter", "", "the TreeWriter interface is gone")
		return
	}
	a := &writerAn{c: c, globals: ConstGlobals(c.Prog, c.Funcs)}
	encPkg := core.Mod + "/engines/yayamls/encode"
	sp := c.SSA[encPkg]
	if sp == nil {
		rep.Violate("anchor", encPkg, "", "the package is gone")
		return
	}
	// the writer: a type with the three writing methods, and its constructor
	for _, n := range sortedMembers(sp) {
		f, ok := sp.Members[n].(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 {
			continue
		}
		if p, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok {
			if nm, ok := p.Elem().(*types.Named); ok && c.Method(nm, "WriteTo") != nil && c.Method(nm, "WriteBytes") != nil {
				a.w, a.newFn = nm, f
			}
		}
		if f.Signature.Params().Len() == 1 && types.IsInterface(f.Signature.Params().At(0).Type()) && f.Signature.Recv() == nil && strings.Contains(f.Name(), "AnchorsKeeper") {
			a.keepOpt = f
		}
	}
	if a.w == nil {
		rep.Violate("anchor", encPkg, "", "no tree writer with a constructor")
		return
	}
	for i, n := range wquote {
		o, ok := c.Pkgs[astPkg].Types.Scope().Lookup(n).(*types.Const)
		if !ok {
			if i == 0 {
				continue
			}
			rep.Undecide("ast.%s is gone", n)
			return
		}
		a.q[i], _ = constant.Int64Val(o.Val())
	}
	writers := 1
	for _, pn := range sortedPkgs(c) {
		p := c.Pkgs[pn]
		if pn == encPkg || !strings.HasSuffix(pn, "/encode") {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if ok && !types.IsInterface(nm) && c.Method(nm, "WriteTo") != nil && c.Method(nm, "WriteBytes") != nil && c.Method(nm, "WriteString") != nil {
				writers++
				delegating(c, nm)
			}
		}
	}
	rep.Count("tree writers", writers)
	rep.Floor("delegate", 6)
	var cases []wcase
	add := func(s *shape) { cases = append(cases, wcase{s: s}) }
	boxes := wboxes()
	for _, s := range wscalars() {
		add(s)
		for _, b := range boxes {
			if x := b(s); !hasKeyAlias(x) {
				add(x)
			}
		}
	}
	for _, b := range boxes {
		for _, b2 := range boxes {
			for _, s := range wleaves() {
				add(b(b2(s)))
			}
		}
	}
	deep := []*shape{wt("a"), wt("a\nb\n")}
	if c.Tier == "thorough" {
		deep = wleaves()
	}
	for i, b := range boxes {
		for j, b2 := range boxes {
			for k, b3 := range boxes {
				if c.Tier != "thorough" && (i+j+k)%3 != 0 {
					continue
				}
				for _, s := range deep {
					add(b(b2(b3(s))))
				}
			}
		}
	}
	docs := []*shape{wt("a"), null(), wt("a\nb\n"), seq(wt("a")), mapping(wt("a"), wt("b")), wq("a"), seq(), mapping(wt("a"), wt("b\nc\n\n")), anchored("y", seq(wt("a")))}
	stream := func(k ...*shape) *shape { return &shape{kind: "stream", kids: k} }
	add(stream())
	for _, d := range docs {
		add(stream(d))
		for _, d2 := range docs {
			add(stream(d, d2))
		}
	}
	add(stream(docs[0], docs[3], docs[4]))
	// aliases of anchors written before, with and without a keeper
	met := []*shape{
		seq(anchored("x", wt("a")), alias("x", nil)),
		mapping(wt("k"), anchored("x", mapping(wt("a"), wt("b"))), wt("l"), alias("x", nil)),
		mapping(anchored("x", wt("k")), alias("x", nil)),
		mapping(wt("k"), anchored("x", seq(wt("a"), anchored("y", null()))), wt("l"), seq(alias("y", nil), alias("x", nil))),
		anchored("x", seq(wt("a"), tagged(wt("b")), alias("x", nil))),
		anchored("x", tagged(mapping(wt("a"), anchored("y", seq(wt("b")))))),
	}
	for _, s := range met {
		add(s)
		cases = append(cases, wcase{s: s, keeper: true, target: seq(wt("t"))})
	}
	targets := []*shape{
		wt("a"), wq("a"), null(), {kind: "none"}, wt("a\nb"), seq(wt("a"), wt("b")), mapping(wt("a"), wt("b"), wt("c"), wt("d")), seq(), mapping(),
		anchored("x", wt("a")), anchored("x", seq(wt("a"), wt("b"))), anchored("x", tagged(mapping(wt("a"), wt("b")))), mapping(wt("a"), seq(anchored("y", wt("b")), alias("y", nil))),
	}
	uses := []func() *shape{
		func() *shape { return alias("x", nil) },
		func() *shape { return seq(alias("x", nil), wt("s")) },
		func() *shape { return mapping(wt("k"), alias("x", nil), wt("l"), wt("s")) },
		func() *shape {
			return mapping(wt("k"), seq(alias("x", nil), alias("x", nil)), wt("l"), alias("x", nil))
		},
		func() *shape { return seq(wt("s"), mapping(wt("k"), alias("x", nil))) },
	}
	for _, t := range targets {
		for _, u := range uses {
			cases = append(cases, wcase{s: u(), keeper: true, target: t})
		}
	}
	again := func() []*shape {
		return []*shape{
			seq(wt("a"), mapping(wt("b"), seq(wt("c")))),
			mapping(wt("a"), wq("b"), wt("c"), wt("d\ne")),
		}
	}
	var jobs []func(*core.Ctx)
	const per = 24
	for i := 0; i < len(cases); i += per {
		part := cases[i:min(i+per, len(cases))]
		off := i
		jobs = append(jobs, func(cc *core.Ctx) {
			b := *a
			b.c = cc
			for j, cs := range part {
				ms := wmethods
				// the methods share what they write; beyond the small shapes one is enough
				if off+j >= 600 {
					ms = wmethods[(off+j)%3 : (off+j)%3+1]
				}
				var ag []*shape
				if size(cs.s) <= 4 || cs.keeper {
					ag = again()
					if cs.keeper {
						ag = append(ag, anchored("x", seq(wt("a"), alias("x", nil))), seq(wt("a"), alias("x", nil)))
					}
				}
				b.run(cs, ms, ag)
			}
		})
	}
	c.Parallel(jobs)
	rep.Count("abstract trees", len(cases))
	rep.Floor("write", len(cases))
	rep.Floor("reuse", 500)
	rep.Floor("keeper", 60)
}

func cloneShape(s *shape) *shape {
	n := *s
	n.kids = nil
	for _, k := range s.kids {
		n.kids = append(n.kids, cloneShape(k))
	}
	return &n
}

func size(s *shape) int {
	n := 1
	for _, k := range s.kids {
		n += size(k)
	}
	return n
}

func sortedPkgs(c *core.Ctx) []string {
	var ns []string
	for n := range c.Pkgs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func sortedMembers(sp *ssa.Package) []string {
	var ns []string
	for n := range sp.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// delegating checks a tree writer that hands its tree to the yaml package: exactly the tree it was
// given goes to the destination, once, and the encoder's error is the writer's.
func delegating(c *core.Ctx, w *types.Named) {
	rep := c.Rep
	for _, m := range wmethods {
		fn := c.Method(w, m)
		if fn == nil || len(fn.Blocks) == 0 {
			rep.Undecide("%s.%s has no body", shortType(w), m)
			continue
		}
		construct, where := fmt.Sprintf("(*%s).%s", shortType(w), m), c.Pos(fn.Pos())
		unk := ""
		yamlp := "gopkg.in/yaml.v3."
		in := New(c.Prog, Hooks{})
		in.Hooks.Inline = func(f *ssa.Function) bool {
			p := core.FuncPkg(f)
			return len(f.Blocks) > 0 && (p == nil && f.Synthetic != "" || p != nil && strings.HasPrefix(p.Path(), core.Mod))
		}
		plain := func(st *State, v Val) Val {
			v = st.Resolve(v)
			if i, ok := v.(Iface); ok {
				v = st.Resolve(i.V)
			}
			return v
		}
		put := func(st *State, dst, s Val) {
			d := plain(st, dst)
			if d.Key() == "$dst" {
				st.TS["dst"] += s.Key() + ";"
				return
			}
			if b, ok := d.(Addr); ok {
				cur, ok := st.Heap["!sb:"+b.Key()]
				if !ok {
					cur = Str("")
				}
				st.Heap["!sb:"+b.Key()] = Cat(cur, s)
			}
		}
		in.Hooks.Call = func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
			one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: v}}, true }
			fails := func(ok Outcome, zero ...Val) ([]Outcome, bool) {
				bad := ok.St.Clone()
				e := Sym{ID: bad.FreshID("encerr"), T: errType}
				bad.SetNil(e, 2)
				bad.TS["failed"] = "1"
				return []Outcome{ok, {St: bad, Rets: append(zero, e)}}, true
			}
			name := cl.Name()
			switch {
			case name == yamlp+"NewEncoder":
				b := st.FreshID("encoder")
				st.Heap["!dst:"+b] = st.Resolve(cl.Args[0])
				return one(Addr{Base: b})
			case strings.HasSuffix(name, "yaml.v3.Encoder).Encode"):
				a, ok := st.Resolve(cl.Args[0]).(Addr)
				if !ok {
					break
				}
				good := st.Clone()
				put(good, st.Heap["!dst:"+a.Base], Sym{ID: "yaml<" + plain(st, cl.Args[1]).Key() + ">", T: types.Typ[types.String]})
				bad := st
				outs, _ := fails(Outcome{St: bad, Rets: []Val{Nil{}}})
				outs[0].St = good
				return outs, true
			case strings.HasSuffix(name, "yaml.v3.Encoder).Close"):
				return one(Nil{})
			case strings.HasSuffix(name, "yaml.v3.Encoder).SetIndent"):
				return []Outcome{{St: st}}, true
			case name == yamlp+"Marshal":
				v := Sym{ID: "bytes<$yaml<" + plain(st, cl.Args[0]).Key() + ">>", T: cl.Common.Signature().Results().At(0).Type()}
				st.SetNil(v, 2)
				return fails(Outcome{St: st, Rets: []Val{v, Nil{}}}, Nil{})
			case strings.HasPrefix(name, "(*bytes.Buffer).Bytes"):
				if b, ok := plain(st, cl.Args[0]).(Addr); ok {
					cur, ok := st.Heap["!sb:"+b.Key()]
					if !ok {
						return one(Nil{})
					}
					return one(Sym{ID: "bytes<" + cur.Key() + ">", T: cl.Common.Signature().Results().At(0).Type()})
				}
			case cl.Common.IsInvoke() && plain(st, cl.Args[0]).Key() == "$dst" && cl.Common.Method.Name() == "Write":
				v := plain(st, cl.Args[1])
				good := st.Clone()
				good.TS["dst"] += "$" + strings.TrimSuffix(strings.TrimPrefix(v.Key(), "$bytes<$"), ">") + ";"
				outs, _ := fails(Outcome{St: st, Rets: []Val{Sym{ID: "n", T: types.Typ[types.Int]}, Nil{}}}, Int(0))
				outs[0].St = good
				return outs, true
			}
			if o, ok := textModel(in, cl, st); ok {
				return o, true
			}
			if o, ok := stdModel(in, cl, st); ok {
				return o, true
			}
			if cl.Fn != nil && !in.Hooks.Inline(cl.Fn) || cl.Fn == nil && !isBuiltin(cl) {
				unk = name
			}
			return nil, false
		}
		st := NewState()
		st.MaxInst = 50
		recv := Sym{ID: "w", T: fn.Params[0].Type()}
		st.SetNil(recv, 2)
		args := []Val{recv}
		for _, p := range fn.Params[1:] {
			id := "tree"
			if types.IsInterface(p.Type()) {
				id = "dst"
			}
			s := Sym{ID: id, T: p.Type()}
			st.SetNil(s, 2)
			args = append(args, s)
		}
		outs := in.Run(fn, args, st)
		for _, o := range outs {
			rep.Ob("delegate")
			if in.Capped || unk != "" {
				rep.Undecide("%s: nothing is known about %s %s", construct, unk, in.CapWhy)
				break
			}
			if o.Panic {
				rep.Violate("delegate", construct, where, "may panic: %s", o.Note)
				continue
			}
			errv := o.St.Resolve(o.Rets[len(o.Rets)-1])
			failed := o.St.TS["failed"] != ""
			if n := o.St.Nilness(errv); n == 0 || failed != (n == 2) {
				rep.Violate("delegate", construct, where, "the encoder's error and the error returned differ (failed: %v, returned %s)", failed, errv.Key())
				continue
			}
			if failed {
				if len(o.Rets) == 2 && !o.St.IsZero(o.Rets[0]) {
					rep.Violate("delegate", construct, where, "the encoder failed, but %s is returned", o.Rets[0].Key())
				}
				continue
			}
			got, want := o.St.TS["dst"], "$yaml<$tree>;"
			switch m {
			case "WriteString":
				got, want = o.St.Resolve(o.Rets[0]).Key(), "$yaml<$tree>"
				if got == "$conv<$bytes<$yaml<$tree>>>string" {
					got = want
				}
			case "WriteBytes":
				got, want = o.St.Resolve(o.Rets[0]).Key(), "$bytes<$yaml<$tree>>"
				if got == "$conv<$yaml<$tree>>[]byte" {
					got = want
				}
			}
			if got != want {
				rep.Violate("delegate", construct, where, "gives %s instead of the encoding of the tree", got)
			}
		}
	}
}
