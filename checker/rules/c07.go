package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/auto"
	"verif/checker/core"
)

const sharedSchema = core.Mod + "/engines/pkg/schema"

func init() {
	register("C07", &Rule{
		Run: runC07,
		Explain: "String analysis of the shared schema: every path of Is*, To* and From* is interpreted abstractly with the text symbolic; its path condition (regular expressions, comparisons, prefixes, lengths, time layouts) is a regular language. " +
			"The language each Is* recognises must be that of the YAML 1.2 core schema; on every part of that language To* must reach a conversion (strconv with a base, infinities, constants, time.Parse with a layout) that is defined and means the same there; From* must write texts of that language that To* maps back. Violations name a text.",
		Assume: []string{"strconv, math and time behave as documented", "texts are valid UTF-8"},
	})
}

type pathCond struct {
	cond  Val
	truth bool
}

type schemaAn struct {
	c       *core.Ctx
	init    *State
	conds   map[string]Val
	preds   map[string]*auto.Lang
	calls   map[string]convCall // result symbol -> conversion
	layouts map[string]*auto.Lang
}

type convCall struct {
	fn   string
	args []Val
}

func (a *schemaAn) fn(name string) *ssa.Function {
	p := a.c.SSA[sharedSchema]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (a *schemaAn) note(st *State, cond Val, truth bool) {
	k := cond.Key()
	a.conds[k] = cond
	st.TS["pc"] += fmt.Sprintf("%v\x01%s\x00", truth, k)
}

func (a *schemaAn) path(st *State) []pathCond {
	var out []pathCond
	for _, l := range strings.Split(st.TS["pc"], "\x00") {
		if p := strings.SplitN(l, "\x01", 2); len(p) == 2 {
			out = append(out, pathCond{a.conds[p[1]], p[0] == "true"})
		}
	}
	return out
}

// reOf: the pattern of a compiled regular expression value.
func reOf(v Val) (string, bool) {
	s, ok := v.(Sym)
	if !ok || !strings.HasPrefix(s.ID, "regexp:") {
		return "", false
	}
	return strings.TrimPrefix(s.ID, "regexp:"), true
}

func strConst(v Val) (string, bool) {
	c, ok := v.(Const)
	if !ok || c.V.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.V), true
}

func (a *schemaAn) pred(id string, l *auto.Lang) Val {
	a.preds[id] = l
	return Sym{ID: id, T: types.Typ[types.Bool]}
}

func regexpModel(in *Interp, c *Call, st *State) ([]Outcome, bool) {
	switch c.Name() {
	case "regexp.MustCompile":
		if p, ok := strConst(st.Resolve(c.Args[0])); ok {
			v := Sym{ID: "regexp:" + p, T: c.Common.Signature().Results().At(0).Type()}
			st.SetNil(v, 2)
			return []Outcome{{St: st, Rets: []Val{v}}}, true
		}
	case "errors.New", "fmt.Errorf":
		return stdModel(in, c, st)
	}
	return nil, false
}

func (a *schemaAn) model(in *Interp, c *Call, st *State) ([]Outcome, bool) {
	if o, ok := regexpModel(in, c, st); ok {
		return o, true
	}
	if o, ok := stdModel(in, c, st); ok {
		return o, true
	}
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: v}}, true }
	arg := func(i int) Val { return st.Resolve(c.Args[i]) }
	name := c.Name()
	isSrc := func(v Val) bool { return v.Key() == "$P:src" }
	switch name {
	case "(*regexp.Regexp).MatchString":
		if p, ok := reOf(arg(0)); ok && isSrc(arg(1)) {
			if l, err := auto.Regexp(p); err == nil {
				return one(a.pred("re<"+p+">", l))
			}
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		if p, ok := strConst(arg(1)); ok && isSrc(arg(0)) {
			var l *auto.Lang
			switch name {
			case "strings.HasPrefix":
				l = auto.Prefix(p)
			case "strings.HasSuffix":
				l = auto.Suffix(p)
			case "strings.EqualFold":
				var sb strings.Builder
				for _, r := range p {
					fmt.Fprintf(&sb, `\x{%x}`, r)
				}
				l = auto.Must(`(?i)\A` + sb.String() + `\z`)
			default:
				l = auto.Contains(p)
			}
			return one(a.pred(name+"<"+p+">", l))
		}
	case "strings.TrimPrefix", "strings.TrimLeft":
		if p, ok := strConst(arg(1)); ok && (name == "strings.TrimPrefix" || len(p) == 1) {
			id := fmt.Sprintf("%s<%s|%q>", name, arg(0).Key(), p)
			a.calls[id] = convCall{name, []Val{arg(0), Str(p)}}
			return one(Sym{ID: id, T: types.Typ[types.String]})
		}
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
		id := fmt.Sprintf("%s<%s>", name, argsKey(st, c.Args))
		a.calls[id] = convCall{name, resolveAll(st, c.Args)}
		return one(Sym{ID: id, T: c.Common.Signature().Results().At(0).Type()}, Sym{ID: "err:" + id, T: errType})
	case "math.Inf", "math.NaN", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool", "strconv.Itoa",
		"(time.Time).Format", "(time.Time).UTC":
		id := fmt.Sprintf("%s<%s>", name, argsKey(st, c.Args))
		a.calls[id] = convCall{name, resolveAll(st, c.Args)}
		return one(Sym{ID: id, T: c.Common.Signature().Results().At(0).Type()})
	case "math.IsInf":
		if s, ok := arg(1).(Const); ok && arg(0).Key() == "$P:src" {
			n, _ := constant.Int64Val(s.V)
			sg := 0
			if n > 0 {
				sg = 1
			} else if n < 0 {
				sg = -1
			}
			return one(Sym{ID: fmt.Sprintf("isinf<%d>", sg), T: types.Typ[types.Bool]})
		}
	case "math.IsNaN":
		if arg(0).Key() == "$P:src" {
			return one(Sym{ID: "isnan", T: types.Typ[types.Bool]})
		}
	case "time.Parse":
		lay, ok := strConst(arg(0))
		if !ok || !isSrc(arg(1)) {
			return nil, false
		}
		id := "time.Parse<" + lay + ">"
		a.calls[id] = convCall{"time.Parse", []Val{Str(lay)}}
		if l, _, ok := layoutLang(lay); ok {
			a.preds["parses<"+lay+">"] = l
		}
		p := Sym{ID: "parses<" + lay + ">", T: types.Typ[types.Bool]}
		var outs []Outcome
		for _, truth := range []bool{true, false} {
			s2 := st.Clone()
			if !s2.Assume(p, truth) {
				continue
			}
			if f := st.Facts[p.ID]; f.Eq == "" {
				a.note(s2, p, truth)
			}
			if truth {
				outs = append(outs, Outcome{St: s2, Rets: []Val{Sym{ID: id, T: c.Common.Signature().Results().At(0).Type()}, Nil{}}})
			} else {
				e := Sym{ID: "err:" + id, T: errType}
				s2.SetNil(e, 2)
				outs = append(outs, Outcome{St: s2, Rets: []Val{Sym{ID: "failed:" + id, T: c.Common.Signature().Results().At(0).Type()}, e}})
			}
		}
		return outs, true
	}
	return nil, false
}

func argsKey(st *State, as []Val) string {
	var ks []string
	for _, x := range as {
		ks = append(ks, st.Resolve(x).Key())
	}
	return strings.Join(ks, ",")
}

func resolveAll(st *State, as []Val) []Val {
	var out []Val
	for _, x := range as {
		out = append(out, st.Resolve(x))
	}
	return out
}

func (a *schemaAn) run(fn *ssa.Function) ([]Outcome, bool) {
	in := New(a.c.Prog, Hooks{Call: a.model})
	in.ForkLookup = true
	in.Hooks.Branch = func(in *Interp, fr *Frame, ins ssa.Instruction, cond Val, truth bool, st *State) {
		a.note(st, cond, truth)
	}
	in.Hooks.Inline = func(f *ssa.Function) bool {
		p := core.FuncPkg(f)
		return p != nil && strings.HasPrefix(p.Path(), core.Mod) && len(f.Blocks) > 0
	}
	st := a.init.Clone()
	st.MaxInst = 32
	var as []Val
	for i, p := range fn.Params {
		id := "P:src"
		if i > 0 {
			id = "P:size"
		}
		as = append(as, Sym{ID: id, T: p.Type()})
	}
	outs := in.Run(fn, as, st)
	return outs, !in.Capped
}

// langOf is the set of texts for which cond holds.
func (a *schemaAn) langOf(st *State, cond Val) (*auto.Lang, bool) {
	switch c := cond.(type) {
	case Const:
		if c.V.Kind() == constant.Bool {
			if constant.BoolVal(c.V) {
				return auto.All(), true
			}
			return auto.None(), true
		}
	case Sym:
		if l, ok := a.preds[c.ID]; ok {
			return l, true
		}
	case Cmp:
		l, ok := a.cmpLang(st, c)
		if !ok {
			return nil, false
		}
		if c.Neg {
			l = l.Not()
		}
		return l, true
	}
	return nil, false
}

func (a *schemaAn) cmpLang(st *State, c Cmp) (*auto.Lang, bool) {
	x, y := c.X, c.Y
	flip := false
	if _, ok := x.(Const); ok {
		x, y, flip = y, x, true
	}
	k, ok := y.(Const)
	if !ok {
		return nil, false
	}
	xs, ok := x.(Sym)
	if !ok {
		if cc, isCmp := x.(Cmp); isCmp && c.Op == "==" && k.V.Kind() == constant.Bool {
			l, ok := a.langOf(st, cc)
			if ok && !constant.BoolVal(k.V) {
				l = l.Not()
			}
			return l, ok
		}
		return nil, false
	}
	if k.V.Kind() == constant.Bool && c.Op == "==" {
		l, ok := a.preds[xs.ID]
		if ok && !constant.BoolVal(k.V) {
			l = l.Not()
		}
		return l, ok
	}
	if xs.ID == "P:src" && c.Op == "==" && k.V.Kind() == constant.String {
		return auto.Words(constant.StringVal(k.V)), true
	}
	if k.V.Kind() != constant.Int {
		return nil, false
	}
	n64, exact := constant.Int64Val(k.V)
	if !exact || n64 < 0 || n64 > 1<<20 {
		return nil, false
	}
	n := int(n64)
	// the interval of the compared number: [lo, hi], hi < 0 unbounded
	lo, hi := n, n
	switch {
	case c.Op == "<" && !flip:
		lo, hi = 0, n-1
	case c.Op == "<=" && !flip:
		lo, hi = 0, n
	case c.Op == "<":
		lo, hi = n+1, -1
	case c.Op == "<=":
		lo, hi = n, -1
	}
	if lo > hi && hi >= 0 || hi < -1 || c.Op != "==" && !flip && hi < 0 {
		return auto.None(), true
	}
	if xs.ID == "len<P:src>" || xs.ID == "len<$P:src>" {
		if n > 64 {
			return nil, false
		}
		return auto.Length(lo, hi), true // bytes and runes agree on ASCII texts
	}
	if strings.HasPrefix(xs.ID, "idx<$P:src,#") {
		i, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(xs.ID, "idx<$P:src,#"), ">"))
		if err != nil || i > 16 || lo > 127 {
			return nil, false
		}
		top := rune(hi)
		if hi < 0 || hi > 127 {
			top = 0x10ffff
		}
		return auto.At(i, rune(lo), top), true
	}
	return nil, false
}

// pathLang is the set of texts that take the path.
func (a *schemaAn) pathLang(st *State) (*auto.Lang, bool) {
	l := auto.All()
	for _, p := range a.path(st) {
		x, ok := a.langOf(st, p.cond)
		if !ok {
			return nil, false
		}
		if !p.truth {
			x = x.Not()
		}
		l = l.And(x)
	}
	return l, true
}

// recognised is the language for which a predicate answers true.
func (a *schemaAn) recognised(fn *ssa.Function) (*auto.Lang, bool) {
	outs, ok := a.run(fn)
	if !ok {
		return nil, false
	}
	total := auto.None()
	for _, o := range outs {
		if o.Panic {
			return nil, false
		}
		l, ok := a.pathLang(o.St)
		if !ok {
			return nil, false
		}
		r, ok := a.langOf(o.St, o.St.Resolve(o.Rets[0]))
		if !ok {
			return nil, false
		}
		total = total.Union(l.And(r))
	}
	return total, true
}

const (
	reDec    = `[-+]?[0-9]+`
	reUDec   = `\+?[0-9]+`
	reOct    = `0o[0-7]+`
	reHex    = `0x[0-9a-fA-F]+`
	reFloat  = `[-+]?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)(?:[eE][-+]?[0-9]+)?`
	rePosInf = `\+?\.(?:inf|Inf|INF)`
	reNegInf = `-\.(?:inf|Inf|INF)`
	reNaN    = `\.(?:nan|NaN|NAN)`
)

func whole(alts ...string) *auto.Lang { return auto.Must(`\A(?:` + strings.Join(alts, "|") + `)\z`) }

var refLayouts = []string{"2006-01-02T15:04:05Z07:00", "2006-01-02T15:04:05.999999999Z07:00", "2006-01-02",
	"2006-1-2T15:4:5.999999999Z07:00", "2006-1-2t15:4:5.999999999-07:00", "2006-1-2 15:4:5.999999999", "2006-1-2"}

func runC07(c *core.Ctx) {
	sp := c.SSA[sharedSchema]
	if sp == nil {
		c.Rep.Undecide("the shared schema package is gone")
		return
	}
	a := &schemaAn{c: c, conds: map[string]Val{}, preds: map[string]*auto.Lang{}, calls: map[string]convCall{}}
	a.init = InitState(c.Prog, []*ssa.Package{sp}, regexpModel)
	rep := c.Rep
	refTime := auto.None()
	for _, l := range refLayouts {
		x, _, _ := layoutLang(l)
		refTime = refTime.Union(x)
	}
	ref := map[string]*auto.Lang{
		"IsNull":            auto.Words("", "~", "null", "Null", "NULL"),
		"IsBoolean":         auto.Words("true", "True", "TRUE", "false", "False", "FALSE"),
		"IsInteger":         whole(reDec, reOct, reHex),
		"IsUnsignedInteger": whole(reUDec, reOct, reHex),
		"IsFloat":           whole(reFloat, rePosInf, reNegInf, reNaN),
		"IsTimestamp":       refTime,
	}
	var names []string
	for n := range ref {
		names = append(names, n)
	}
	sort.Strings(names)
	decided := 0
	for _, n := range names {
		fn := a.fn(n)
		if fn == nil {
			rep.Undecide("%s is gone", n)
			continue
		}
		l, ok := a.recognised(fn)
		if !ok {
			rep.Undecide("%s: its condition is not a regular one the analysis knows", n)
			continue
		}
		rep.Ob("recognised")
		decided++
		if w, extra, differ := l.Diff(ref[n]); differ {
			if extra {
				rep.Violate("recognised", "schema."+n, c.Pos(fn.Pos()), "recognises %q, which is not of that type in the core schema", w)
			} else {
				rep.Violate("recognised", "schema."+n, c.Pos(fn.Pos()), "does not recognise %q", w)
			}
		}
	}
	a.conversions(ref)
	a.encodings(ref)
	c.Rep.Count("schema functions interpreted", decided)
}

// drops: how a value derives from the text by dropping a prefix, per part of the language.
type dropped struct {
	l *auto.Lang
	q string
}

func (a *schemaAn) drops(v Val, l *auto.Lang) ([]dropped, bool) {
	switch v := v.(type) {
	case Sym:
		if v.ID == "P:src" {
			return []dropped{{l, ""}}, true
		}
		cc, ok := a.calls[v.ID]
		if !ok || cc.fn != "strings.TrimPrefix" && cc.fn != "strings.TrimLeft" {
			return nil, false
		}
		p, _ := strConst(cc.args[1])
		in, ok := a.drops(cc.args[0], l)
		if !ok {
			return nil, false
		}
		var out []dropped
		for _, d := range in {
			if cc.fn == "strings.TrimLeft" && !d.l.And(auto.Prefix(d.q+p+p)).Empty() {
				return nil, false
			}
			pre := auto.Prefix(d.q + p)
			out = append(out, dropped{d.l.And(pre), d.q + p}, dropped{d.l.Minus(pre), d.q})
		}
		return out, true
	case Shrink:
		if v.Hi != nil {
			return nil, false
		}
		k, ok := v.Lo.(Const)
		if !ok {
			return nil, false
		}
		n, exact := constant.Int64Val(k.V)
		if !exact || n < 0 || n > 4 {
			return nil, false
		}
		in, ok := a.drops(v.X, l)
		if !ok {
			return nil, false
		}
		var out []dropped
		for _, d := range in {
			rest := d.l
			for _, q := range []string{"0o", "0x", "+", "-", "."} {
				if int64(len(q)) != n {
					continue
				}
				pre := auto.Prefix(d.q + q)
				out = append(out, dropped{rest.And(pre), d.q + q})
				rest = rest.Minus(pre)
			}
			if !rest.Empty() {
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

// meaning: the texts for which strconv's fn gives the YAML value after the prefix q was dropped.
func meaning(fn string, base int64, q string) *auto.Lang {
	none := auto.None()
	canon := `(?:0|[1-9][0-9]*)`
	switch fn {
	case "strconv.ParseInt", "strconv.ParseUint":
		sign := `[-+]?`
		if fn == "strconv.ParseUint" {
			sign = ``
		}
		switch {
		case base == 10 && q == "":
			return whole(sign + `[0-9]+`)
		case base == 10 && q == "+":
			return whole(`\+[0-9]+`)
		case base == 0 && q == "":
			return whole(sign+canon, reOct, reHex)
		case base == 0 && q == "+":
			return whole(`\+` + canon)
		case base == 8 && q == "0o":
			return whole(reOct)
		case base == 16 && q == "0x":
			return whole(reHex)
		}
	case "strconv.ParseFloat":
		switch q {
		case "":
			return whole(reFloat)
		case "+":
			return whole(`\+(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)(?:[eE][-+]?[0-9]+)?`)
		case ".":
			return whole(`\.(?:inf|Inf|INF)`, reNaN)
		}
	}
	return none
}

func (a *schemaAn) conversions(ref map[string]*auto.Lang) {
	rep := a.c.Rep
	for _, t := range []struct{ to, is string }{
		{"ToInteger", "IsInteger"}, {"ToUnsignedInteger", "IsUnsignedInteger"}, {"ToFloat", "IsFloat"}, {"ToBoolean", "IsBoolean"}, {"ToTimestamp", "IsTimestamp"},
	} {
		fn := a.fn(t.to)
		if fn == nil {
			rep.Undecide("%s is gone", t.to)
			continue
		}
		where := a.c.Pos(fn.Pos())
		construct := "schema." + t.to
		outs, ok := a.run(fn)
		if !ok {
			rep.Undecide("%s: bound reached", t.to)
			continue
		}
		success := auto.None()
		precise := true
		for _, o := range outs {
			// conditions on the error of a conversion do not restrict the text
			st := o.St
			errOf := ""
			lang := auto.All()
			good := true
			for _, p := range a.path(st) {
				if id, nilWhen, isErr := a.errCond(p.cond); isErr {
					errOf = id
					if p.truth != nilWhen {
						errOf = "!" + id
					}
					continue
				}
				x, ok := a.langOf(st, p.cond)
				if !ok {
					good = false
					break
				}
				if !p.truth {
					x = x.Not()
				}
				lang = lang.And(x)
			}
			if !good {
				precise = false
				rep.Undecide("%s: a condition is not a regular one the analysis knows", t.to)
				continue
			}
			all := lang
			lang = lang.And(ref[t.is])
			if lang.Empty() && t.to != "ToBoolean" && t.to != "ToTimestamp" {
				continue
			}
			rep.Ob("converts")
			if o.Panic {
				w, _ := lang.Witness()
				rep.Violate("converts", construct, where, "panics on %q: %s", w, o.Note)
				continue
			}
			v, e := st.Resolve(o.Rets[0]), st.Resolve(o.Rets[1])
			bad := func(l *auto.Lang, format string, args ...any) {
				if w, ok := l.Witness(); ok {
					rep.Violate("converts", construct, where, "%q %s", w, fmt.Sprintf(format, args...))
				}
			}
			eNil := st.Nilness(e)
			if strings.HasPrefix(errOf, "!") {
				// the conversion failed: it must be reported
				if eNil == 1 {
					bad(lang, "may fail to convert (out of range, say) without an error being returned")
				}
				continue
			}
			if eNil != 2 {
				success = success.Union(all)
			}
			switch t.to {
			case "ToBoolean":
				truths := auto.Words("true", "True", "TRUE")
				if eNil == 1 {
					bad(all.Minus(ref[t.is]), "is converted although it is no boolean")
					switch v.Key() {
					case "#true":
						bad(lang.Minus(truths), "becomes true")
					case "#false":
						bad(lang.And(truths), "becomes false")
					default:
						// the value is itself a condition of the text
						if x, ok := a.langOf(st, v); ok {
							bad(lang.And(x).Minus(truths), "becomes true")
							bad(lang.Minus(x).And(truths), "becomes false")
						} else {
							rep.Undecide("%s: unknown value %s", t.to, v.Key())
						}
					}
				} else if eNil == 2 {
					bad(lang, "is refused although it is recognised")
				}
				continue
			case "ToTimestamp":
				if eNil == 2 {
					continue
				}
				s, _ := v.(Sym)
				cc, ok := a.calls[s.ID]
				if !ok || cc.fn != "time.Parse" {
					bad(all, "gives %s, which no layout produced", v.Key())
					continue
				}
				lay, _ := strConst(cc.args[0])
				if _, toks, ok := layoutLang(lay); ok {
					if why := layoutMeaning(toks); why != "" {
						bad(all, "is read with the layout %q: %s", lay, why)
					}
				}
				if eNil != 1 {
					precise = false
				}
				continue
			}
			if eNil == 2 {
				bad(lang, "is refused although it is recognised")
				continue
			}
			s, _ := v.(Sym)
			cc, ok := a.calls[s.ID]
			if !ok {
				if _, isC := v.(Const); isC {
					bad(lang, "becomes the constant %s", v.Key())
				} else {
					rep.Undecide("%s: unknown value %s", t.to, v.Key())
				}
				continue
			}
			switch cc.fn {
			case "math.Inf":
				k, ok := cc.args[0].(Const)
				if !ok {
					rep.Undecide("%s: unknown sign", t.to)
					continue
				}
				n, _ := constant.Int64Val(k.V)
				if n >= 0 {
					bad(lang.Minus(whole(rePosInf)), "becomes positive infinity")
				} else {
					bad(lang.Minus(whole(reNegInf)), "becomes negative infinity")
				}
			case "math.NaN":
				bad(lang.Minus(whole(reNaN)), "becomes NaN")
			case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
				if eNil == 1 && errOf == "" {
					bad(lang, "may fail to convert (out of range, say) without an error being returned")
				}
				if eNil == 0 && e.Key() != "$err:"+s.ID {
					rep.Undecide("%s: unknown error %s", t.to, e.Key())
				}
				var base int64
				last := cc.args[len(cc.args)-1]
				if cc.fn != "strconv.ParseFloat" {
					k, ok := cc.args[1].(Const)
					if !ok {
						rep.Undecide("%s: unknown base", t.to)
						continue
					}
					base, _ = constant.Int64Val(k.V)
				}
				if _, isC := last.(Const); isC {
					bad(lang, "is converted with the bit size %s instead of the requested one", last.Key()[1:])
				}
				ds, ok := a.drops(cc.args[0], lang)
				if !ok {
					if _, isC := cc.args[0].(Const); isC {
						bad(lang, "is not what is converted")
					} else {
						rep.Undecide("%s: unknown text %s", t.to, cc.args[0].Key())
					}
					continue
				}
				for _, d := range ds {
					m := meaning(cc.fn, base, d.q)
					how := cc.fn
					if base != 0 || cc.fn != "strconv.ParseFloat" {
						how += fmt.Sprintf(" in base %d", base)
					}
					if d.q != "" {
						how += fmt.Sprintf(" after dropping %q", d.q)
					}
					bad(d.l.Minus(m), "is given to %s, which refuses it or gives another value", how)
				}
			}
		}
		if t.to == "ToTimestamp" && precise {
			rep.Ob("converts")
			if w, ok := ref["IsTimestamp"].Minus(success).Witness(); ok {
				rep.Violate("converts", construct, where, "%q is not converted although it is a timestamp", w)
			}
			if w, ok := success.Minus(ref["IsTimestamp"]).Witness(); ok {
				rep.Violate("converts", construct, where, "%q is converted although it is not recognised as a timestamp", w)
			}
		}
	}
}

// errCond: a comparison of a conversion's error with nil.
func (a *schemaAn) errCond(cond Val) (id string, nilWhen, ok bool) {
	c, is := cond.(Cmp)
	if !is || c.Op != "==" {
		return
	}
	x, y := c.X, c.Y
	if _, n := x.(Nil); n {
		x, y = y, x
	}
	if _, n := y.(Nil); !n {
		return
	}
	s, is := x.(Sym)
	if !is || !strings.HasPrefix(s.ID, "err:") {
		return
	}
	return s.ID, !c.Neg, true
}

func (a *schemaAn) encodings(ref map[string]*auto.Lang) {
	rep := a.c.Rep
	for _, n := range []string{"FromInteger", "FromUnsignedInteger", "FromFloat", "FromBoolean", "FromTimestamp"} {
		fn := a.fn(n)
		if fn == nil {
			rep.Undecide("%s is gone", n)
			continue
		}
		where := a.c.Pos(fn.Pos())
		construct := "schema." + n
		outs, ok := a.run(fn)
		if !ok {
			rep.Undecide("%s: bound reached", n)
			continue
		}
		for _, o := range outs {
			rep.Ob("encodes")
			if o.Panic {
				rep.Violate("encodes", construct, where, "panics: %s", o.Note)
				continue
			}
			st := o.St
			v := st.Resolve(o.Rets[0])
			txt, isConst := strConst(v)
			s, _ := v.(Sym)
			cc, isCall := a.calls[s.ID]
			bad := func(format string, args ...any) {
				rep.Violate("encodes", construct, where, "%s", fmt.Sprintf(format, args...))
			}
			ints := func(i int) (int64, bool) {
				if i >= len(cc.args) {
					return 0, false
				}
				k, ok := cc.args[i].(Const)
				if !ok || k.V.Kind() != constant.Int {
					return 0, false
				}
				return constant.Int64Val(k.V)
			}
			switch n {
			case "FromInteger", "FromUnsignedInteger":
				want := "strconv.FormatInt"
				if n == "FromUnsignedInteger" {
					want = "strconv.FormatUint"
				}
				switch {
				case isConst:
					bad("a path writes the constant %q for unknown values", txt)
				case isCall && (cc.fn == "strconv.FormatInt" || cc.fn == "strconv.FormatUint"):
					if b, ok := ints(1); ok && b != 10 {
						bad("writes integers in base %d, which reads back as another value", b)
					}
					if cc.fn != want {
						bad("uses %s, which gives another value at the ends of the range", cc.fn)
					}
				default:
					rep.Undecide("%s: unknown text %s", n, v.Key())
				}
			case "FromBoolean":
				val := st.Resolve(Sym{ID: "P:src"})
				switch {
				case isConst:
					k := val.Key()
					if k != "#true" && k != "#false" {
						bad("writes %q for both values", txt)
					} else if !auto.Words("true", "True", "TRUE").Has(txt) && k == "#true" || !auto.Words("false", "False", "FALSE").Has(txt) && k == "#false" {
						bad("writes %q for %s", txt, k[1:])
					}
				case isCall && cc.fn == "strconv.FormatBool":
					if cc.args[0].Key() != "$P:src" {
						if _, isC := cc.args[0].(Const); !isC {
							bad("writes another value than the given one (%s)", cc.args[0].Key())
						}
					}
				default:
					rep.Undecide("%s: unknown text %s", n, v.Key())
				}
			case "FromFloat":
				is := func(id string) int { return st.Truth(Sym{ID: id, T: types.Typ[types.Bool]}) }
				pos, neg, any, nan := is("isinf<1>"), is("isinf<-1>"), is("isinf<0>"), is("isnan")
				precise := true
				for _, p := range a.path(st) {
					k := strings.TrimLeft(p.cond.Key(), "!($")
					if !strings.HasPrefix(k, "isinf<") && !strings.HasPrefix(k, "isnan") {
						precise = false
					}
				}
				if !precise {
					rep.Undecide("%s: a condition the analysis does not know", n)
					continue
				}
				switch {
				case isConst:
					switch {
					case pos == 1:
						if !whole(rePosInf).Has(txt) {
							bad("writes %q for positive infinity", txt)
						}
					case neg == 1 || any == 1 && pos == 0:
						if !whole(reNegInf).Has(txt) {
							bad("writes %q for negative infinity", txt)
						}
					case nan == 1:
						if !whole(reNaN).Has(txt) {
							bad("writes %q for NaN", txt)
						}
					case any == 1:
						bad("writes %q for both infinities", txt)
					default:
						bad("a path writes the constant %q for unknown values", txt)
					}
				case isCall && cc.fn == "strconv.FormatFloat":
					if !(any == 0 || pos == 0 && neg == 0) {
						bad("infinity is written by strconv, which the schema does not recognise")
					}
					if nan != 0 {
						bad("NaN is written by strconv, which the schema does not recognise")
					}
					if f, ok := ints(1); ok && f != 'e' && f != 'E' {
						switch f {
						case 'f', 'g', 'G':
							bad("writes floats in the format %q, so a float such as 1 is recognised as an integer", rune(f))
						default:
							bad("writes floats in the format %q, which the schema does not recognise", rune(f))
						}
					}
					if p, ok := ints(2); ok && p != -1 {
						bad("writes floats with the precision %d, which does not keep the value", p)
					}
					if b, ok := ints(3); ok && b != 64 {
						bad("writes floats with bit size %d, which does not keep the value", b)
					}
					if k := cc.args[0].Key(); k != "$P:src" {
						bad("writes another value than the given one (%s)", k)
					}
				default:
					rep.Undecide("%s: unknown text %s", n, v.Key())
				}
			case "FromTimestamp":
				if !isCall || cc.fn != "(time.Time).Format" {
					rep.Undecide("%s: unknown text %s", n, v.Key())
					continue
				}
				recv := cc.args[0]
				if rs, ok := recv.(Sym); ok {
					if u, ok := a.calls[rs.ID]; ok && u.fn == "(time.Time).UTC" {
						recv = u.args[0]
					}
				}
				lay, ok := strConst(cc.args[1])
				if !ok || recv.Key() != "$P:src" {
					rep.Undecide("%s: unknown layout or value", n)
					continue
				}
				l, toks, ok := layoutLang(lay)
				if !ok {
					rep.Undecide("%s: unknown layout %q", n, lay)
					continue
				}
				has := map[string]bool{}
				for _, t := range toks {
					has[t] = true
				}
				for _, t := range []struct{ tok, what string }{{"year", "the year"}, {"month", "the month"}, {"day", "the day"}, {"hour", "the hour"}, {"minute", "the minutes"}, {"second", "the seconds"}, {"frac9", "the nanoseconds"}, {"zone", "the time zone"}} {
					if !has[t.tok] {
						bad("the layout %q loses %s", lay, t.what)
					}
				}
				if w, ok := l.Minus(ref["IsTimestamp"]).Witness(); ok {
					bad("the layout %q writes texts such as %q, which are not recognised", lay, w)
				}
			}
		}
	}
}

// layoutLang is the set of texts that time.Parse accepts for the layout (ranges of the numbers aside)
// and the layout's elements.
func layoutLang(lay string) (*auto.Lang, []string, bool) {
	std := []struct{ text, tok, re string }{
		{"2006", "year", `[0-9]{4}`}, {"January", "", ""}, {"Jan", "", ""}, {"Monday", "", ""}, {"Mon", "", ""}, {"MST", "", ""},
		{"Z07:00:00", "", ""}, {"-07:00:00", "", ""}, {"Z07:00", "zone", `(?:Z|[-+][0-9]{2}:[0-9]{2})`}, {"-07:00", "zone", `[-+][0-9]{2}:[0-9]{2}`},
		{"Z0700", "zone", `(?:Z|[-+][0-9]{4})`}, {"-0700", "zone", `[-+][0-9]{4}`}, {"Z07", "zone", `(?:Z|[-+][0-9]{2})`}, {"-07", "zone", `[-+][0-9]{2}`},
		{"002", "", ""}, {"__2", "", ""}, {"_2", "", ""}, {"PM", "", ""}, {"pm", "", ""},
		{"01", "month", `[0-9]{2}`}, {"02", "day", `[0-9]{2}`}, {"03", "", ""}, {"04", "minute", `[0-9]{2}`}, {"05", "second", `[0-9]{2}`}, {"06", "", ""},
		{"15", "hour", `[0-9]{1,2}`}, {"1", "month", `[0-9]{1,2}`}, {"2", "day", `[0-9]{1,2}`}, {"3", "", ""}, {"4", "minute", `[0-9]{1,2}`}, {"5", "second", `[0-9]{1,2}`},
	}
	var re strings.Builder
	var toks []string
	for i := 0; i < len(lay); {
		rest := lay[i:]
		if (rest[0] == '.' || rest[0] == ',') && len(rest) > 1 && (rest[1] == '9' || rest[1] == '0') {
			j := 1
			for j < len(rest) && rest[j] == rest[1] {
				j++
			}
			if j >= len(rest) || rest[j] < '0' || rest[j] > '9' {
				if len(toks) == 0 || toks[len(toks)-1] != "second" {
					return nil, nil, false
				}
				n := j - 1
				toks = append(toks, fmt.Sprintf("frac%d", n))
				if rest[1] == '9' {
					re.WriteString(`(?:[.,][0-9]+)?`)
				} else {
					fmt.Fprintf(&re, `[.,][0-9]{%d}`, n)
				}
				i += j
				continue
			}
		}
		found := false
		for _, s := range std {
			if strings.HasPrefix(rest, s.text) {
				if s.tok == "" {
					return nil, nil, false
				}
				re.WriteString(s.re)
				toks = append(toks, s.tok)
				i += len(s.text)
				found = true
				break
			}
		}
		if found {
			if toks[len(toks)-1] == "second" {
				// a fraction after the seconds is accepted even when the layout has none
				if i >= len(lay) || !(lay[i] == '.' || lay[i] == ',') {
					re.WriteString(`(?:[.,][0-9]+)?`)
				}
			}
			continue
		}
		if rest[0] == ' ' {
			re.WriteString(` +`)
			toks = append(toks, " ")
		} else {
			fmt.Fprintf(&re, `\x{%x}`, rest[0])
			toks = append(toks, string(rest[0]))
		}
		i++
	}
	l, err := auto.Regexp(`\A` + re.String() + `\z`)
	if err != nil {
		return nil, nil, false
	}
	return l, toks, true
}

// layoutMeaning: "" when the elements stand in the order year, month, day, hour, minute, second.
func layoutMeaning(toks []string) string {
	order := []string{"year", "month", "day", "hour", "minute", "second"}
	i := 0
	for _, t := range toks {
		for _, o := range order {
			if t == o {
				if i >= len(order) || order[i] != t {
					return "its " + t + " stands where the " + order[min(i, len(order)-1)] + " belongs"
				}
				i++
			}
		}
	}
	if i < 3 {
		return "it has no full date"
	}
	return ""
}
