package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

// C08: the character classes, the escapes of quoted scalars and the conversions between a text
// and its quoted form. The functions of package yamlchar are interpreted over texts whose
// characters are symbols; every path leaves each character in a set, and the productions of the
// YAML specification, written as small automata and transducers, have to give the path's result
// for all characters of those sets.

const charPkg = yayaml + "/yamlchar"

func init() {
	register("C08", &Rule{
		Run:     runC08,
		Explain: "Abstract interpretation of the character predicates, the character sets of texts, and the conversions from and to quoted form, over texts of symbolic characters; on every path the result has to be the one the YAML productions (as automata) give for every character the path admits. Quoting is composed with unquoting and has to give the text back. The cached answers of tokens have to be the ones asked for.",
		Assume:  []string{"strconv, strings and unicode/utf8 behave as documented"},
	})
}

type cset [][2]int64

func charsOf(st *State, v Val) cset {
	lo, hi, ok := st.Interval(st.Resolve(v))
	if !ok {
		lo, hi = 0, 0x10FFFF
	}
	out := cset{{lo, hi}}
	s, ok := st.Resolve(v).(Sym)
	if !ok {
		return out
	}
	var ns []int64
	for _, k := range strings.Split(st.Facts[s.ID].Neq, ";") {
		if n, err := strconv.ParseInt(strings.TrimPrefix(k, "#"), 10, 64); err == nil && strings.HasPrefix(k, "#") {
			ns = append(ns, n)
		}
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	for _, n := range ns {
		l := out[len(out)-1]
		if n < l[0] || n > l[1] {
			continue
		}
		out = out[:len(out)-1]
		if l[0] <= n-1 {
			out = append(out, [2]int64{l[0], n - 1})
		}
		if n+1 <= l[1] {
			out = append(out, [2]int64{n + 1, l[1]})
		}
		if len(out) == 0 {
			return out
		}
	}
	return out
}

func (s cset) meets(lo, hi int64) (int64, bool) {
	for _, r := range s {
		l, h := max(r[0], lo), min(r[1], hi)
		if l <= h {
			return l, true
		}
	}
	return 0, false
}

// blocks are the ranges no production tells apart further.
var charBlocks = func() [][2]int64 {
	cuts := []int64{-1}
	for i := int64(0); i <= 0xA1; i++ {
		cuts = append(cuts, i)
	}
	cuts = append(cuts, 0x2028, 0x2029, 0x202A, 0xD800, 0xE000, 0xFEFF, 0xFF00, 0xFFFD, 0xFFFE, 0x10000, 0x110000)
	var out [][2]int64
	for i := 0; i+1 < len(cuts); i++ {
		out = append(out, [2]int64{cuts[i], cuts[i+1] - 1})
	}
	return out
}()

// picks gives one character for every block the set meets.
func (s cset) picks() []int64 {
	var out []int64
	for _, b := range charBlocks {
		if c, ok := s.meets(b[0], b[1]); ok {
			out = append(out, c)
		}
	}
	return out
}

func isDec(r int64) bool   { return r >= '0' && r <= '9' }
func isHex(r int64) bool   { return isDec(r) || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' }
func isAlpha(r int64) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func isIn(r int64, s string) bool {
	return r >= 0 && strings.ContainsRune(s, rune(r))
}
func isJSON(r int64) bool { return r == 9 || r >= 0x20 && r <= 0x10FFFF }

const (
	flowChars = ",[]{}"
	uriChars  = "-#;/?:@&=+$,_.!~*'()[]"
	tagChars  = "-#;/?:@&=+$_.~*'()"
)

// what the escapes of double quoted scalars stand for
var yamlEscapes = map[int64]int64{'0': 0, 'a': 7, 'b': 8, 't': 9, '\t': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 0x1B, ' ': ' ', '"': '"', '/': '/', '\\': '\\', 'N': 0x85, '_': 0xA0, 'L': 0x2028, 'P': 0x2029}

// a recogniser over states; a state below zero is final: -1 rejects, -2 is left open
type recogniser struct {
	next   func(s int, r int64) int
	accept func(s int) bool
}

func every(f func(r int64) bool) recogniser {
	return recogniser{func(s int, r int64) int {
		if f(r) {
			return 0
		}
		return -1
	}, func(s int) bool { return true }}
}

func percent(f func(r int64) bool) recogniser {
	return recogniser{func(s int, r int64) int {
		switch {
		case s > 0 && isHex(r):
			return s - 1
		case s > 0:
			return -1
		case r == '%':
			return 2
		case f(r):
			return 0
		}
		return -1
	}, func(s int) bool { return s == 0 }}
}

var noFlow = recogniser{func(s int, r int64) int {
	switch {
	case isIn(r, flowChars):
		return -1
	case r <= 0x20, r >= 0x7F && r < 0xA0 && r != 0x85, r == 0xFEFF, r == 0xFFFE, r == 0xFFFF, r >= 0xD800 && r < 0xE000:
		return -2 // blanks, breaks and unprintable characters do not reach these sets
	}
	return 0
}, func(s int) bool { return true }}

var charSets = map[string]recogniser{
	"Decimal":   every(isDec),
	"Word":      every(func(r int64) bool { return isDec(r) || isAlpha(r) || r == '-' }),
	"URI":       percent(func(r int64) bool { return isDec(r) || isAlpha(r) || isIn(r, uriChars) }),
	"Tag":       percent(func(r int64) bool { return isDec(r) || isAlpha(r) || isIn(r, tagChars) }),
	"Anchor":    noFlow,
	"PlainSafe": noFlow,
	"SingleQuoted": {func(s int, r int64) int {
		switch {
		case s == 1 && r != '\'':
			return -1
		case s == 1:
			return 0
		case r == '\'':
			return 1
		case isJSON(r):
			return 0
		}
		return -1
	}, func(s int) bool { return s == 0 }},
	"DoubleQuoted": {func(s int, r int64) int {
		switch {
		case s == 9: // behind a backslash
			switch r {
			case 'x':
				return 2
			case 'u':
				return 4
			case 'U':
				return 8
			}
			if _, ok := yamlEscapes[r]; ok {
				return 0
			}
			return -1
		case s > 0 && isHex(r):
			return s - 1
		case s > 0:
			return -1
		case r == '\\':
			return 9
		case r == '"':
			return -1
		case isJSON(r):
			return 0
		}
		return -1
	}, func(s int) bool { return s == 0 }},
}

var charClasses = map[string]func(r int64) bool{
	"IsDigit":             isDec,
	"IsHexDigit":          isHex,
	"IsASCIILetter":       isAlpha,
	"IsJSONChar":          isJSON,
	"IsFlowIndicatorChar": func(r int64) bool { return isIn(r, flowChars) },
	"IsWhitespaceChar":    func(r int64) bool { return r == ' ' || r == '\t' },
	"IsLineBreakChar":     func(r int64) bool { return r == '\n' || r == '\r' },
	"IsBlankChar":         func(r int64) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' },
}

type charAn struct {
	c       *core.Ctx
	rep     *core.Report
	globals func(*ssa.Global) (Val, bool)
}

func (a *charAn) interp() *Interp {
	in := New(a.c.Prog, Hooks{Call: charModel})
	in.Hooks.Inline = func(f *ssa.Function) bool { return len(f.Blocks) > 0 }
	in.Runes, in.ForkLookup = true, true
	in.MaxSteps = 4000000
	in.GlobalInit = a.globals
	return in
}

// hexDigits names the number whose hexadecimal digits are the given characters.
func hexDigits(st *State, rs []Val) (Val, bool) {
	known := ""
	id := "hex<"
	for _, r := range rs {
		r = st.Resolve(r)
		if c, ok := st.Known(r); ok {
			i, _ := constant.Int64Val(c.V)
			if !isHex(i) {
				return nil, false
			}
			if known != "?" {
				known += string(rune(i))
			}
			id += strings.ToLower(string(rune(i)))
			continue
		}
		for _, p := range charsOf(st, r).picks() {
			if !isHex(p) {
				return nil, false
			}
		}
		known = "?"
		id += "(" + r.Key() + ")"
	}
	if known != "?" {
		n, err := strconv.ParseInt(known, 16, 64)
		return Int(n), err == nil
	}
	return Sym{ID: id + ">", T: types.Typ[types.Int64]}, true
}

func hexRange(st *State, v Val, n int) {
	if s, ok := v.(Sym); ok {
		if f := st.Facts[s.ID]; !f.HasIv {
			st.Facts[s.ID] = Fact{HasIv: true, Lo: 0, Hi: int64(1)<<(4*n) - 1}
		}
	}
}

func charModel(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
	switch cl.Name() {
	case "strconv.ParseInt", "strconv.ParseUint":
		base, ok1 := st.Known(cl.Args[1])
		bits, ok2 := st.Known(cl.Args[2])
		rs, ok3 := st.RunesOf(cl.Args[0])
		if !ok1 || !ok2 || !ok3 || len(rs) == 0 || base.Key() != Int(16).Key() {
			break
		}
		v, ok := hexDigits(st, rs)
		if !ok {
			break
		}
		b, _ := constant.Int64Val(bits.V)
		if b == 0 {
			b = 64
		}
		top := int64(1)<<(b-1) - 1
		if cl.Name() == "strconv.ParseUint" {
			if b == 64 {
				top = 1<<62 - 1
			} else {
				top = int64(1)<<b - 1
			}
		}
		hexRange(st, v, len(rs))
		lo, hi, _ := st.Interval(v)
		var outs []Outcome
		if lo <= top {
			n := st.Clone()
			if n.Assume(Cmp{Op: "<=", X: v, Y: Int(top)}, true) {
				outs = append(outs, Outcome{St: n, Rets: []Val{v, Nil{}}})
			}
		}
		if hi > top {
			n := st.Clone()
			if n.Assume(Cmp{Op: "<=", X: v, Y: Int(top)}, false) {
				e := Sym{ID: n.FreshID("rangeerr"), T: cl.Common.Signature().Results().At(1).Type()}
				n.SetNil(e, 2)
				outs = append(outs, Outcome{St: n, Rets: []Val{Int(top), e}})
			}
		}
		return outs, true
	case "unicode/utf8.ValidRune":
		v := st.Resolve(cl.Args[0])
		var outs []Outcome
		for _, r := range []struct {
			lo, hi int64
			ok     bool
		}{{-1 << 31, -1, false}, {0, 0xD7FF, true}, {0xD800, 0xDFFF, false}, {0xE000, 0x10FFFF, true}, {0x110000, 1<<31 - 1, false}} {
			n := st.Clone()
			if n.Assume(Cmp{Op: "<=", X: Int(r.lo), Y: v}, true) && n.Assume(Cmp{Op: "<=", X: v, Y: Int(r.hi)}, true) {
				if l, h, _ := n.Interval(v); l <= h {
					outs = append(outs, Outcome{St: n, Rets: []Val{Bool(r.ok)}})
				}
			}
		}
		return outs, true
	case "strconv.QuoteRuneToASCII", "strconv.QuoteRune", "strconv.AppendQuoteRuneToASCII":
		if len(cl.Args) != 1 {
			break
		}
		v := st.Resolve(cl.Args[0])
		quote := strconv.QuoteRuneToASCII
		if cl.Name() == "strconv.QuoteRune" {
			quote = strconv.QuoteRune
		}
		set := charsOf(st, v)
		n := int64(0)
		for _, r := range set {
			n += r[1] - r[0] + 1
		}
		if n > 300 {
			break
		}
		var outs []Outcome
		for _, r := range set {
			for i := r[0]; i <= r[1]; i++ {
				y := st.Clone()
				if y.Assume(Cmp{Op: "==", X: v, Y: Int(i)}, true) {
					outs = append(outs, Outcome{St: y, Rets: []Val{Str(quote(rune(i)))}})
				}
			}
		}
		return outs, true
	case "strings.ReplaceAll", "strings.Replace":
		rs, ok := st.RunesOf(cl.Args[0])
		old, ok1 := strConst(st.Resolve(cl.Args[1]))
		new, ok2 := strConst(st.Resolve(cl.Args[2]))
		if cl.Name() == "strings.Replace" {
			if n, ok := st.Known(cl.Args[3]); !ok || n.Key() != Int(-1).Key() {
				break
			}
		}
		if !ok || !ok1 || !ok2 || utf8.RuneCountInString(old) != 1 {
			break
		}
		o, _ := utf8.DecodeRuneInString(old)
		cur := []Outcome{{St: st, Rets: []Val{Str("")}}}
		for _, r := range rs {
			var nxt []Outcome
			for _, x := range cur {
				cond := Cmp{Op: "==", X: x.St.Resolve(r), Y: Int(int64(o))}
				t := x.St.Truth(cond)
				if t != 0 {
					n := x.St.Clone()
					if n.Assume(cond, true) {
						nxt = append(nxt, Outcome{St: n, Rets: []Val{Cat(x.Rets[0], Str(new))}})
					}
				}
				if t != 1 {
					n := x.St.Clone()
					if n.Assume(cond, false) {
						nxt = append(nxt, Outcome{St: n, Rets: []Val{Cat(x.Rets[0], Chr(n.Resolve(r)))}})
					}
				}
			}
			cur = nxt
		}
		return cur, true
	case "math/bits.TrailingZeros16", "math/bits.TrailingZeros32", "math/bits.TrailingZeros64", "math/bits.TrailingZeros", "math/bits.TrailingZeros8", "math/bits.Len16", "math/bits.Len", "math/bits.Len8", "math/bits.Len32", "math/bits.Len64", "math/bits.OnesCount16":
		c, ok := st.Known(cl.Args[0])
		if !ok {
			break
		}
		i, exact := constant.Int64Val(c.V)
		if !exact {
			break
		}
		n := int64(0)
		switch {
		case strings.Contains(cl.Name(), "Trailing"):
			if i == 0 {
				fmt.Sscan(strings.TrimPrefix(cl.Name(), "math/bits.TrailingZeros"), &n)
				if n == 0 {
					n = 64
				}
				break
			}
			for i&1 == 0 {
				i >>= 1
				n++
			}
		case strings.Contains(cl.Name(), "Ones"):
			for ; i != 0; i &= i - 1 {
				n++
			}
		default:
			for ; i != 0; i >>= 1 {
				n++
			}
		}
		return []Outcome{{St: st, Rets: []Val{Int(n)}}}, true
	}
	if o, ok := textModel(in, cl, st); ok {
		return o, true
	}
	return stdModel(in, cl, st)
}

// text makes a text of symbolic ('?') and given characters.
func charText(st *State, pat string) (Val, []Val) {
	var rs []Val
	v := Val(Str(""))
	for i, r := range []rune(pat) {
		x := Val(Int(int64(r)))
		if r == '?' {
			s := runeSym(i)
			st.Facts[s.ID] = Fact{HasIv: true, Lo: 0, Hi: 0x10FFFF}
			x = s
		}
		rs = append(rs, x)
		v = Cat(v, Chr(x))
	}
	return v, rs
}

func showPath(st *State, rs []Val) string {
	var out []string
	for _, r := range rs {
		p := charsOf(st, r).picks()
		switch {
		case len(p) == 0:
			out = append(out, "?")
		default:
			out = append(out, strconv.QuoteRune(rune(p[0])))
			if len(p) > 1 {
				out[len(out)-1] += "…"
			}
		}
	}
	return "[" + strings.Join(out, " ") + "]"
}

func (a *charAn) related(st *State) bool {
	for k, f := range st.Facts {
		if strings.HasPrefix(k, Kept) && (strings.Contains(k, "<") || f.Same != "") {
			return true
		}
	}
	return false
}

// recognise compares a predicate's answer with a recogniser.
func (a *charAn) recognise(fn *ssa.Function, name string, mk func(st *State) ([]Val, []Val), rec recogniser) {
	st := NewState()
	st.MaxInst = 24
	args, rs := mk(st)
	in := a.interp()
	outs := in.Run(fn, args, st)
	a.rep.Count("interpreted steps", in.Steps)
	if in.Capped {
		a.rep.Undecide("%s: %s", name, in.CapWhy)
		return
	}
	for _, o := range outs {
		a.rep.Ob("class")
		if o.Panic {
			a.rep.Violate("class", core.FuncName(fn), a.c.Pos(fn.Pos()), "%s panics for %s: %s", name, showPath(o.St, rs), o.Note)
			continue
		}
		got, ok := o.St.Known(o.Rets[0])
		if !ok {
			switch o.St.Truth(o.Rets[0]) {
			case 1:
				got = Bool(true).(Const)
			case 0:
				got = Bool(false).(Const)
			default:
				// the answer still depends on the characters: both ways have to be right
				for _, b := range []bool{true, false} {
					n := o.St.Clone()
					if n.Assume(o.Rets[0], b) {
						a.judge(fn, name, n, rs, b, rec)
					}
				}
				continue
			}
		}
		a.judge(fn, name, o.St, rs, constant.BoolVal(got.V), rec)
	}
}

func (a *charAn) judge(fn *ssa.Function, name string, st *State, rs []Val, got bool, rec recogniser) {
	type at struct {
		s  int
		by string
	}
	cur := []at{{0, ""}}
	for _, r := range rs {
		ps := charsOf(st, r).picks()
		if len(ps) == 0 {
			return // the path is not feasible
		}
		seen := map[int]bool{}
		var nxt []at
		for _, x := range cur {
			if x.s < 0 {
				if !seen[x.s] {
					seen[x.s] = true
					nxt = append(nxt, x)
				}
				continue
			}
			for _, p := range ps {
				if n := rec.next(x.s, p); !seen[n] {
					seen[n] = true
					nxt = append(nxt, at{n, x.by + string(rune(p))})
				}
			}
		}
		cur = nxt
	}
	for _, x := range cur {
		if x.s == -2 {
			return
		}
	}
	for _, x := range cur {
		want := x.s >= 0 && rec.accept(x.s)
		if want != got {
			if a.related(st) {
				a.rep.Undecide("%s relates characters to each other", name)
				return
			}
			a.rep.Violate("class", core.FuncName(fn), a.c.Pos(fn.Pos()), "%s gives %v for a text such as %q (characters %s), the production says %v", name, got, x.by, showPath(st, rs), want)
			return
		}
	}
}

// an element of a converted text: the character itself, or a number
type outElem struct {
	same Val
	hex  []Val // digits
}

// convert compares an unquoting function with what the escapes stand for.
func (a *charAn) unquote(fn *ssa.Function, pat string, double bool) {
	st := NewState()
	st.MaxInst = 24
	v, rs := charText(st, pat)
	in := a.interp()
	outs := in.Run(fn, []Val{v}, st)
	a.rep.Count("interpreted steps", in.Steps)
	name := fn.Name()
	if in.Capped {
		a.rep.Undecide("%s: %s", name, in.CapWhy)
		return
	}
	for _, o := range outs {
		if o.Panic {
			a.rep.Violate("unquoting", core.FuncName(fn), a.c.Pos(fn.Pos()), "%s panics for %s: %s", name, showPath(o.St, rs), o.Note)
			continue
		}
		a.rep.Ob("unquoting")
		a.unquoted(fn, o, rs, double)
	}
}

func (a *charAn) unquoted(fn *ssa.Function, o Outcome, rs []Val, double bool) {
	name := fn.Name()
	st := o.St
	failed := st.Nilness(o.Rets[1]) == 2
	if !failed && st.Nilness(o.Rets[1]) != 1 {
		a.rep.Undecide("%s: error %s", name, short(o.Rets[1].Key()))
		return
	}
	sets := make([]cset, len(rs))
	for i, r := range rs {
		if sets[i] = charsOf(st, r); len(sets[i]) == 0 {
			return
		}
	}
	bad := func(by []int64, format string, as ...any) {
		if a.related(st) {
			a.rep.Undecide("%s relates characters to each other", name)
			return
		}
		s := ""
		for _, b := range by {
			s += string(rune(b))
		}
		a.rep.Violate("unquoting", core.FuncName(fn), a.c.Pos(fn.Pos()), "%s: %s, for a text such as %q (characters %s)", name, fmt.Sprintf(format, as...), s, showPath(st, rs))
	}
	var got []Val
	if !failed {
		var ok bool
		if got, ok = st.RunesOf(o.Rets[0]); !ok {
			a.rep.Undecide("%s gives %s", name, short(o.Rets[0].Key()))
			return
		}
	}
	// check compares when the text is spent; ok: the text is well formed
	check := func(by []int64, want []outElem, ok bool) bool {
		if !ok {
			if !failed {
				bad(by, "an ill-formed text is converted")
				return false
			}
			return true
		}
		mayFail := false
		for _, w := range want {
			if w.hex == nil {
				continue
			}
			if v, ok := hexDigits(st, w.hex); ok {
				hexRange(st, v, len(w.hex))
				lo, hi, _ := st.Interval(v)
				if hi > 0x10FFFF || lo <= 0xDFFF && hi >= 0xD800 {
					mayFail = true
				}
			}
		}
		if failed {
			if !mayFail {
				bad(by, "a well-formed text is refused")
				return false
			}
			return true
		}
		if len(got) != len(want) {
			bad(by, "gives %d characters instead of %d", len(got), len(want))
			return false
		}
		for i, w := range want {
			g := st.Resolve(got[i])
			gc, gk := st.Known(g)
			exp := w.same
			if w.hex != nil {
				v, ok := hexDigits(st, w.hex)
				if !ok {
					a.rep.Undecide("%s: digits", name)
					return false
				}
				hexRange(st, v, len(w.hex))
				lo, hi, _ := st.Interval(v)
				switch {
				case lo > 0x10FFFF || lo >= 0xD800 && hi <= 0xDFFF:
					exp = Int(0xFFFD) // no character
				default:
					exp = v
				}
			}
			exp = st.Resolve(exp)
			ec, ek := st.Known(exp)
			switch {
			case g.Key() == exp.Key(), gk && ek && gc.Key() == ec.Key():
			case gk && ek:
				bad(by, "character %d is %s instead of %s", i+1, gc.Key(), ec.Key())
				return false
			default:
				_, gr := kept(g)
				if gk || gr || strings.HasPrefix(g.Key(), "$hex<") {
					bad(by, "character %d is %s instead of %s", i+1, showVal(gc, gk, g), showVal(ec, ek, exp))
				} else {
					a.rep.Undecide("%s: character %s", name, short(g.Key()))
				}
				return false
			}
		}
		return true
	}
	// walk goes through the text by the classes of its characters
	var walk func(i int, by []int64, want []outElem) bool
	walk = func(i int, by []int64, want []outElem) bool {
		if i == len(rs) {
			return check(by, want, true)
		}
		// class of a character: how the text goes on
		type cls struct {
			c int64
			k string
		}
		var cs []cls
		seen := map[string]bool{}
		for _, p := range sets[i].picks() {
			k := "plain"
			switch {
			case !double && p == '\'':
				k = "quote"
			case double && p == '"':
				k = "bad"
			case double && p == '\\':
				k = "escape"
			case !isJSON(p):
				k = "bad"
			}
			if !seen[k] {
				seen[k] = true
				cs = append(cs, cls{p, k})
			}
		}
		for _, x := range cs {
			by1 := append(append([]int64(nil), by...), x.c)
			switch x.k {
			case "plain":
				if !walk(i+1, by1, append(append([]outElem(nil), want...), outElem{same: rs[i]})) {
					return false
				}
			case "bad":
				if !check(by1, nil, false) {
					return false
				}
			case "quote":
				if i+1 == len(rs) {
					return check(by1, nil, false)
				}
				for _, p := range sets[i+1].picks() {
					by2 := append(append([]int64(nil), by1...), p)
					if p != '\'' {
						if !check(by2, nil, false) {
							return false
						}
						continue
					}
					if !walk(i+2, by2, append(append([]outElem(nil), want...), outElem{same: Int('\'')})) {
						return false
					}
				}
			case "escape":
				if i+1 == len(rs) {
					return check(by1, nil, false)
				}
				for _, p := range sets[i+1].picks() {
					by2 := append(append([]int64(nil), by1...), p)
					n := map[int64]int{'x': 2, 'u': 4, 'U': 8}[p]
					if n == 0 {
						e, ok := yamlEscapes[p]
						if !ok {
							if !check(by2, nil, false) {
								return false
							}
							continue
						}
						if !walk(i+2, by2, append(append([]outElem(nil), want...), outElem{same: Int(e)})) {
							return false
						}
						continue
					}
					// digits: all of them, or one that is none
					full := true
					for d := 0; d < n && full; d++ {
						if i+2+d >= len(rs) {
							full = false
							if !check(by2, nil, false) {
								return false
							}
							break
						}
						digit := false
						for _, q := range sets[i+2+d].picks() {
							if isHex(q) {
								digit = true
							} else if !check(append(append([]int64(nil), by2...), q), nil, false) {
								return false
							}
						}
						if !digit {
							full = false
						}
					}
					if full {
						if !walk(i+2+n, by2, append(append([]outElem(nil), want...), outElem{hex: rs[i+2 : i+2+n]})) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	walk(0, nil, nil)
}

func showVal(c Const, ok bool, v Val) string {
	if ok {
		return c.Key()
	}
	return short(v.Key())
}

// quoteBack composes quoting with recognising and unquoting.
func (a *charAn) quoteBack(to, from, is *ssa.Function, n int, double bool) {
	st := NewState()
	st.MaxInst = 24
	v, rs := charText(st, strings.Repeat("?", n))
	in := a.interp()
	outs := in.Run(to, []Val{v}, st)
	a.rep.Count("interpreted steps", in.Steps)
	if in.Capped {
		a.rep.Undecide("%s: %s", to.Name(), in.CapWhy)
		return
	}
	bad := func(st *State, format string, as ...any) {
		if a.related(st) {
			a.rep.Undecide("%s relates characters to each other", to.Name())
			return
		}
		a.rep.Violate("quoting", core.FuncName(to), a.c.Pos(to.Pos()), "%s, for the characters %s", fmt.Sprintf(format, as...), showPath(st, rs))
	}
	var work []Outcome
	for _, o := range outs {
		if o.Panic {
			bad(o.St, "quoting panics: %s", o.Note)
			continue
		}
		if o.St.Nilness(o.Rets[1]) != 1 {
			// refusing is fine only for characters the quoted form has no place for
			feasible := true
			for _, r := range rs {
				ok := false
				for _, p := range charsOf(o.St, r).picks() {
					if double || isJSON(p) {
						ok = true
					}
				}
				feasible = feasible && ok
			}
			if feasible && o.St.Nilness(o.Rets[1]) == 2 {
				bad(o.St, "the text is refused")
			}
			continue
		}
		if _, ok := o.St.RunesOf(o.Rets[0]); !ok {
			a.rep.Undecide("%s gives %s", to.Name(), short(o.Rets[0].Key()))
			continue
		}
		work = append(work, o)
	}
	for _, o := range work {
		a.back(to, from, is, rs, o, double, bad)
	}
}

func (a *charAn) back(to, from, is *ssa.Function, rs []Val, o Outcome, double bool, bad func(st *State, format string, as ...any)) {
	in := a.interp()
	q, _ := o.St.RunesOf(o.Rets[0])
	for _, p := range in.RunAs("back", from, []Val{o.Rets[0]}, o.St.Clone()) {
		if in.Capped {
			a.rep.Undecide("%s after %s: %s", from.Name(), to.Name(), in.CapWhy)
			return
		}
		possible := true
		json := true
		for _, r := range rs {
			s := charsOf(p.St, r)
			possible = possible && len(s) > 0
			j := false
			for _, c := range s.picks() {
				j = j || isJSON(c)
			}
			json = json && j
		}
		if !possible || !double && !json {
			continue // such a text has no single quoted form
		}
		a.rep.Ob("quoting")
		switch {
		case p.Panic:
			bad(p.St, "unquoting what was quoted panics: %s", p.Note)
			continue
		case p.St.Nilness(p.Rets[1]) == 2:
			bad(p.St, "what is quoted as %s cannot be unquoted", showPath(p.St, q))
			continue
		}
		got, ok := p.St.RunesOf(p.Rets[0])
		if !ok {
			a.rep.Undecide("%s gives %s", from.Name(), short(p.Rets[0].Key()))
			continue
		}
		same := len(got) == len(rs)
		for i := 0; same && i < len(rs); i++ {
			if g, w := p.St.Resolve(got[i]), p.St.Resolve(rs[i]); g.Key() != w.Key() {
				x, xo := p.St.Known(g)
				y, yo := p.St.Known(w)
				if !xo || !yo {
					if !xo {
						if _, k := kept(g); !k {
							a.rep.Undecide("%s: character %s", from.Name(), short(g.Key()))
							break
						}
					}
					same = false
				} else {
					same = x.Key() == y.Key()
				}
			}
		}
		if !same {
			bad(p.St, "the text comes back as %s from %s", showPath(p.St, got), showPath(p.St, q))
		}
	}
	if is == nil || !double {
		return
	}
	in2 := a.interp()
	for _, p := range in2.RunAs("is", is, []Val{o.Rets[0]}, o.St.Clone()) {
		if in2.Capped || p.Panic {
			return
		}
		a.rep.Ob("quoting")
		if p.St.Truth(p.Rets[0]) == 0 {
			feasible := true
			for _, r := range rs {
				feasible = feasible && len(charsOf(p.St, r)) > 0
			}
			if feasible {
				bad(p.St, "what is quoted as %s is no quoted text", showPath(p.St, q))
			}
		}
	}
}

func kept(v Val) (Sym, bool) {
	s, ok := v.(Sym)
	return s, ok && strings.HasPrefix(s.ID, Kept)
}

func runC08(c *core.Ctx) {
	rep := c.Rep
	a := &charAn{c: c, rep: rep, globals: ConstGlobals(c.Prog, c.Funcs)}
	if c.Pkgs[charPkg] == nil {
		rep.Undecide("no package %s", charPkg)
		return
	}
	deep := c.Tier == "thorough"
	var jobs []func(*core.Ctx)
	do := func(f func(a *charAn)) {
		jobs = append(jobs, func(c *core.Ctx) { f(&charAn{c: c, rep: c.Rep, globals: a.globals}) })
	}
	for name, f := range charClasses {
		fn := c.Func(charPkg, name)
		if fn == nil || fn.Signature.Params().Len() != 1 || !isRuneT(fn.Signature.Params().At(0).Type()) {
			continue
		}
		do(func(a *charAn) {
			a.recognise(fn, name, func(st *State) ([]Val, []Val) {
				s := runeSym(0)
				st.Facts[s.ID] = Fact{HasIv: true, Lo: -1, Hi: 0x10FFFF}
				return []Val{s}, []Val{s}
			}, every(f))
		})
	}
	pats := []string{"", "?", "??", "???"}
	if deep {
		pats = append(pats, "????")
	}
	special := map[string][]string{
		"URI":          {"a%??", "%4%?", "%41?", "?%4"},
		"Tag":          {"a%??", "%4%?", "%41?", "?%4"},
		"SingleQuoted": {"a''?", "?'''?"},
		"DoubleQuoted": {"\\x??", "\\x4?a", "?\\n?", "\\u00??", "\\u??41", "\\u004", "\\U0001F6??", "\\U??0041FF", "\\U0001F60", "\\\\\\?", "\\u1234?", "\\x41\\x?", "\\U0001F600\\?"},
	}
	conforms := c.Func(charPkg, "ConformsCharSet")
	scope := c.Pkgs[charPkg].Types.Scope()
	var names []string
	for n := range charSets {
		names = append(names, n)
	}
	sort.Strings(names)
	found := 0
	for _, n := range names {
		ps := append(append([]string(nil), pats...), special[n]...)
		for _, p := range ps {
			for _, fname := range []string{"Is" + n, "Is" + n + "String"} {
				fn := c.Func(charPkg, fname)
				if fn == nil || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 1 {
					continue
				}
				do(func(a *charAn) {
					a.recognise(fn, fname, func(st *State) ([]Val, []Val) {
						v, rs := charText(st, p)
						return []Val{v}, rs
					}, charSets[n])
				})
			}
			if k, ok := scope.Lookup(n + "CharSetType").(*types.Const); ok && conforms != nil {
				if p == "" {
					found++
				}
				if len(p) > 2 && !deep {
					continue
				}
				do(func(a *charAn) {
					a.recognise(conforms, "ConformsCharSet("+n+")", func(st *State) ([]Val, []Val) {
						v, rs := charText(st, p)
						return []Val{v, Const{V: k.Val()}}, rs
					}, charSets[n])
				})
			}
		}
	}
	if found < len(charSets) {
		rep.Undecide("%d of %d character sets found", found, len(charSets))
	}
	for _, q := range []struct {
		name   string
		double bool
	}{{"Single", false}, {"Double", true}} {
		from := c.Func(charPkg, "ConvertFromYAML"+q.name+"QuotedString")
		to := c.Func(charPkg, "ConvertToYAML"+q.name+"QuotedString")
		is := c.Func(charPkg, "Is"+q.name+"QuotedString")
		if from == nil || to == nil {
			rep.Undecide("no conversions for %s quoted texts", q.name)
			continue
		}
		for _, p := range append(append([]string(nil), pats...), special[q.name+"Quoted"]...) {
			do(func(a *charAn) { a.unquote(from, p, q.double) })
		}
		if q.double {
			for _, p := range []string{"\\x7E", "\\xC3", "\\u00E9", "\\u20aC", "\\uD800", "\\uDFFF", "\\uFFFF", "\\U0001F600", "\\U0010FFFF", "\\U00110000", "\\U80000000", "\\UFFFFFFFF", "\\u12G4", "\\U0000d8ff"} {
				do(func(a *charAn) { a.unquote(from, p, true) })
			}
		}
		n := 2
		if deep && !q.double {
			n = 4
		}
		for i := 0; i <= n; i++ {
			do(func(a *charAn) { a.quoteBack(to, from, is, i, q.double) })
		}
	}
	do(func(a *charAn) { a.tokens(scope) })
	c.Parallel(jobs)
	rep.Floor("class", 100)
	rep.Floor("unquoting", 50)
	rep.Floor("quoting", 30)
}

func isRuneT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// tokens checks that a token's remembered answers are those of its text.
func (a *charAn) tokens(scope *types.Scope) {
	c, rep := a.c, a.rep
	tok := c.Named(yayaml+"/token", "Token")
	if tok == nil {
		rep.Undecide("no token type")
		return
	}
	ms := c.Prog.MethodSets.MethodSet(types.NewPointer(tok))
	sel := ms.Lookup(c.Pkgs[yayaml+"/token"].Types, "ConformsCharSet")
	if sel == nil {
		rep.Undecide("tokens have no ConformsCharSet")
		return
	}
	fn := c.Prog.MethodValue(sel)
	str := tok.Underlying().(*types.Struct)
	hasOrigin := false
	for i := 0; i < str.NumFields(); i++ {
		hasOrigin = hasOrigin || str.Field(i).Name() == "Origin"
	}
	if !hasOrigin {
		rep.Undecide("tokens have no text")
		return
	}
	var names []string
	for n := range charSets {
		if _, ok := scope.Lookup(n + "CharSetType").(*types.Const); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	text := Sym{ID: "text", T: types.Typ[types.String]}
	answer := func(set Val) Sym { return Sym{ID: "conforms<" + set.Key() + ">", T: types.Typ[types.Bool]} }
	hook := func(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
		if cl.Fn != nil && core.FuncPkg(cl.Fn) != nil && core.FuncPkg(cl.Fn).Path() == charPkg && cl.Fn.Signature.Recv() == nil {
			if cl.Fn.Name() == "ConformsCharSet" && len(cl.Args) == 2 {
				if st.Resolve(cl.Args[0]).Key() != text.Key() {
					return []Outcome{{St: st, Rets: []Val{Sym{ID: st.FreshID("other"), T: types.Typ[types.Bool]}}}}, true
				}
				return []Outcome{{St: st, Rets: []Val{st.Resolve(answer(st.Resolve(cl.Args[1])))}}}, true
			}
		}
		return charModel(in, cl, st)
	}
	for _, x := range names {
		for _, y := range names {
			st := NewState()
			st.MaxInst = 24
			at := Addr{Base: "tok"}
			for i := 0; i < str.NumFields(); i++ {
				f := str.Field(i)
				if f.Name() == "Origin" {
					st.StoreCell(Addr{at.Base, "." + f.Name()}, text)
				} else if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					st.StoreCell(Addr{at.Base, "." + f.Name()}, Int(0))
				}
			}
			cur := []*State{st}
			for k, n := range []string{x, y, x, y} {
				set := Const{V: scope.Lookup(n + "CharSetType").(*types.Const).Val()}
				var nxt []*State
				for _, s := range cur {
					in := New(c.Prog, Hooks{Call: hook})
					in.Hooks.Inline = func(f *ssa.Function) bool { return len(f.Blocks) > 0 }
					in.Runes, in.ForkLookup = true, true
					in.GlobalInit = a.globals
					for _, o := range in.RunAs(fmt.Sprintf("ask%d", k), fn, []Val{at, set}, s.Clone()) {
						if in.Capped {
							rep.Undecide("Token.ConformsCharSet: %s", in.CapWhy)
							return
						}
						rep.Ob("remembered")
						if o.Panic {
							rep.Violate("remembered", core.FuncName(fn), c.Pos(fn.Pos()), "asking for %s panics: %s", n, o.Note)
							continue
						}
						want := answer(set)
						got := o.Rets[0]
						right := true
						for _, b := range []bool{true, false} {
							m := o.St.Clone()
							if m.Assume(want, b) && m.Truth(got) != map[bool]int{true: 1, false: 0}[b] {
								if m.Truth(got) < 0 {
									if g := m.Resolve(got); !strings.HasPrefix(g.Key(), "$conforms<") {
										rep.Undecide("Token.ConformsCharSet gives %s", short(g.Key()))
										return
									}
								}
								right = false
							}
						}
						if !right {
							for k := range o.St.Facts {
								if !strings.HasPrefix(k, "conforms<") {
									rep.Undecide("Token.ConformsCharSet depends on %s", short(k))
									return
								}
							}
							if os.Getenv("VERIF_DEBUG") != "" {
								fmt.Println("ANSWER", got.Key(), want.Key(), o.St.Facts)
							}
							rep.Violate("remembered", core.FuncName(fn), c.Pos(fn.Pos()), "asked for %s, after %s, a token gives another answer than its text", n, strings.Join([]string{x, y, x, y}[:k], ", "))
							return
						}
						nxt = append(nxt, o.St)
					}
				}
				cur = nxt
			}
		}
	}
	rep.Floor("remembered", 64)
}
