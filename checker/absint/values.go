// Package absint is a small abstract interpreter over go/ssa: a path-sensitive,
// interprocedural (inlining) property simulation with a finite abstract domain
// (nil-ness, boolean/integer constants and intervals, structural symbols, heap cells).
// Rules plug in through Hooks: they model particular callees, observe stores, and read
// the abstract states that reach each exit. Nothing of the analysed program is executed.
package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"hash/maphash"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value; Key must identify it structurally.
type Val interface{ Key() string }

type Const struct{ V constant.Value }

func (c Const) Key() string { return "#" + c.V.ExactString() }

// Nil is the nil pointer/interface/slice/map/func.
type Nil struct{}

func (Nil) Key() string { return "nil" }

// Sym is an unknown value with an identity.
type Sym struct {
	ID string
	T  types.Type
}

func (s Sym) Key() string { return "$" + s.ID }

// Addr is the address of heap cell Base+Path.
type Addr struct{ Base, Path string }

func (a Addr) Key() string  { return "&" + a.Base + a.Path }
func (a Addr) Cell() string { return a.Base + a.Path }

// Struct is a struct (or array) value.
type Struct struct {
	T      types.Type
	Fields []Val
}

func (s Struct) Key() string {
	var sb strings.Builder
	sb.WriteString("{")
	for _, f := range s.Fields {
		sb.WriteString(f.Key())
		sb.WriteString(",")
	}
	sb.WriteString("}")
	return sb.String()
}

type Tuple struct{ Vs []Val }

func (t Tuple) Key() string { return Struct{Fields: t.Vs}.Key() }

// Func is a function value with closure bindings.
type Func struct {
	Fn   *ssa.Function
	Bind []Val
}

func (f Func) Key() string {
	s := "func:" + f.Fn.String()
	for _, b := range f.Bind {
		s += "|" + b.Key()
	}
	return s
}

// Iface is an interface value with known dynamic type.
type Iface struct {
	T types.Type
	V Val
}

func (i Iface) Key() string { return "iface(" + tstr(i.T) + ":" + i.V.Key() + ")" }

// SliceOf is a slice over the cells of an array at Base.
type SliceOf struct {
	A Addr
	N int // -1 unknown
}

func (s SliceOf) Key() string { return fmt.Sprintf("slice(%s;%d)", s.A.Key(), s.N) }

// Append is X with elements added (as a set).
type Append struct {
	X     Val
	Elems []Val
}

func (a Append) Key() string {
	s := "append(" + a.X.Key()
	for _, e := range a.Elems {
		s += "+" + e.Key()
	}
	return s + ")"
}

// Shrink is a reslice x[a:b] of an unknown slice.
type Shrink struct {
	X      Val
	Lo, Hi Val // may be nil
}

func (s Shrink) Key() string {
	k := "slice[" + s.X.Key() + ";"
	if s.Lo != nil {
		k += s.Lo.Key()
	}
	k += ":"
	if s.Hi != nil {
		k += s.Hi.Key()
	}
	return k + "]"
}

// Cmp is a comparison between two values; OP is EQL, LSS or LEQ, Neg negates.
type Cmp struct {
	Op   string // "==", "<", "<="
	X, Y Val
	Neg  bool
}

func (c Cmp) Key() string {
	n := ""
	if c.Neg {
		n = "!"
	}
	return n + "(" + c.X.Key() + c.Op + c.Y.Key() + ")"
}

// Concat is a string concatenation (used by text-emission rules).
type Concat struct{ Parts []Val }

func (c Concat) Key() string {
	s := "cat("
	for _, p := range c.Parts {
		s += p.Key() + ";"
	}
	return s + ")"
}

func Bool(b bool) Val  { return Const{constant.MakeBool(b)} }
func Int(i int64) Val  { return Const{constant.MakeInt64(i)} }
func Str(s string) Val { return Const{constant.MakeString(s)} }
func NewSym(id string, t types.Type) Sym {
	return Sym{ID: id, T: t}
}

// Fact is what is known about a Sym.
type Fact struct {
	Nil    int8 // 0 unknown, 1 nil, 2 non-nil
	Lo, Hi int64
	HasIv  bool
	Eq     string         // exact const key, "" unknown
	EqV    constant.Value // value of Eq
	Neq    string         // sorted, ';'-separated const keys known different
	Same   string         // for kept symbols: the symbol it equals
}

// Kept symbols keep their identity when their value is known, so that what is known about
// them can be forgotten again.
const Kept = "rune:"

func kept(v Val) (Sym, bool) {
	s, ok := v.(Sym)
	return s, ok && strings.HasPrefix(s.ID, Kept)
}

// known is the constant a kept symbol is known to be.
func (s *State) known(v Val) (Const, bool) {
	if k, ok := kept(v); ok {
		f := s.Facts[k.ID]
		if f.Eq != "" {
			return Const{f.EqV}, true
		}
		if f.HasIv && f.Lo == f.Hi {
			return Const{constant.MakeInt64(f.Lo)}, true
		}
	}
	return Const{}, false
}

// Known is v's constant, also when v keeps its identity.
func (s *State) Known(v Val) (Const, bool) {
	v = s.Resolve(v)
	if c, ok := v.(Const); ok {
		return c, true
	}
	return s.known(v)
}

func (f Fact) key() string {
	return fmt.Sprintf("%d/%v:%d,%d/%s/%s/%s", f.Nil, f.HasIv, f.Lo, f.Hi, f.Eq, f.Neq, f.Same)
}

// State is one abstract state.
type State struct {
	Heap  map[string]Val
	Facts map[string]Fact
	TS    map[string]string // rule typestate
	Ver   map[string]string // havoc version by cell prefix
	Trace []string          // diagnostic only: not part of the key

	// TSVal: identities a rule wants to remember (shared between states, not part of the key).
	TSVal map[string]Val

	// MaxInst: how many values created at one site on one path keep separate identities (0: 2).
	MaxInst int
}

func NewState() *State {
	return &State{Heap: map[string]Val{}, Facts: map[string]Fact{}, TS: map[string]string{}, Ver: map[string]string{}}
}

func (s *State) Clone() *State {
	n := &State{
		Heap:  make(map[string]Val, len(s.Heap)),
		Facts: make(map[string]Fact, len(s.Facts)),
		TS:    make(map[string]string, len(s.TS)),
		Ver:   make(map[string]string, len(s.Ver)),
		Trace: append([]string(nil), s.Trace...),

		MaxInst: s.MaxInst,
		TSVal:   s.TSVal,
	}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	for k, v := range s.Facts {
		n.Facts[k] = v
	}
	for k, v := range s.TS {
		n.TS[k] = v
	}
	for k, v := range s.Ver {
		n.Ver[k] = v
	}
	return n
}

// Key identifies the state: an order-independent 128-bit sum over its entries.
func (s *State) Key() string {
	var a, b uint64
	add := func(kind byte, k, v string) {
		h1, h2 := hash2(kind, k, v)
		a += h1
		b += h2
	}
	for k, v := range s.Heap {
		add('H', k, v.Key())
	}
	for k, v := range s.Facts {
		add('F', k, v.key())
	}
	for k, v := range s.TS {
		add('T', k, v)
	}
	for k, v := range s.Ver {
		add('V', k, v)
	}
	return string([]byte{
		byte(a), byte(a >> 8), byte(a >> 16), byte(a >> 24), byte(a >> 32), byte(a >> 40), byte(a >> 48), byte(a >> 56),
		byte(b), byte(b >> 8), byte(b >> 16), byte(b >> 24), byte(b >> 32), byte(b >> 40), byte(b >> 48), byte(b >> 56),
	})
}

var seed1, seed2 = maphash.MakeSeed(), maphash.MakeSeed()

func hash2(kind byte, k, v string) (uint64, uint64) {
	x := maphash.String(seed1, k)
	y := maphash.String(seed2, v)
	m := (x^uint64(kind)*0x9E3779B97F4A7C15)*0xBF58476D1CE4E5B9 + y*0x94D049BB133111EB
	m ^= m >> 29
	n := (y^uint64(kind)*0xD6E8FEB86659FD93)*0x9E3779B97F4A7C15 + (x>>7|x<<57)*0xC2B2AE3D27D4EB4F
	n ^= n >> 31
	return m * 0xFF51AFD7ED558CCD, n * 0xC4CEB9FE1A85EC53
}

var typeStr sync.Map

func tstr(t types.Type) string {
	if s, ok := typeStr.Load(t); ok {
		return s.(string)
	}
	s := t.String()
	typeStr.Store(t, s)
	return s
}

func (s *State) Logf(format string, args ...any) {
	if len(s.Trace) < 60 {
		s.Trace = append(s.Trace, fmt.Sprintf(format, args...))
	}
}

// Resolve substitutes constants known from facts.
func (s *State) Resolve(v Val) Val {
	if sym, ok := v.(Sym); ok {
		f, ok := s.Facts[sym.ID]
		if !ok {
			return v
		}
		if _, ok := kept(v); ok {
			if f.Same != "" {
				return s.Resolve(Sym{ID: f.Same, T: sym.T})
			}
			return v
		}
		if f.Eq != "" {
			return Const{f.EqV}
		}
		if f.Nil == 1 {
			return Nil{}
		}
		if f.HasIv && f.Lo == f.Hi {
			return Int(f.Lo)
		}
	}
	return v
}

// Nilness: 1 nil, 2 non-nil, 0 unknown.
func (s *State) Nilness(v Val) int8 {
	switch v := v.(type) {
	case Nil:
		return 1
	case Sym:
		return s.Facts[v.ID].Nil
	case Iface, Addr, Func, Const, Struct, SliceOf, Concat, Tuple:
		return 2
	case Append:
		return 2
	}
	return 0
}

func (s *State) SetNil(v Val, nilness int8) {
	if sym, ok := v.(Sym); ok {
		f := s.Facts[sym.ID]
		f.Nil = nilness
		s.Facts[sym.ID] = f
	}
}

func (s *State) SetEq(v Val, c constant.Value) {
	if sym, ok := v.(Sym); ok {
		f := s.Facts[sym.ID]
		f.Eq = Const{c}.Key()
		f.EqV = c
		s.Facts[sym.ID] = f
	}
}

// Drop forgets facts about sym and everything derived from it.
func (s *State) ForgetSym(id string) {
	for k := range s.Facts {
		if k == id || strings.Contains(k, "<"+id+">") {
			delete(s.Facts, k)
		}
	}
}

// Havoc forgets every heap cell under prefix; later loads give fresh symbols of version ver.
func (s *State) Havoc(prefix, ver string) {
	for k := range s.Heap {
		if k == prefix || strings.HasPrefix(k, prefix+".") || strings.HasPrefix(k, prefix+"[") {
			delete(s.Heap, k)
		}
	}
	for k := range s.Ver {
		if strings.HasPrefix(k, prefix+".") || strings.HasPrefix(k, prefix+"[") {
			delete(s.Ver, k)
		}
	}
	// facts on symbols of the same version are stale
	for k := range s.Facts {
		if strings.Contains(k, "@"+ver) {
			delete(s.Facts, k)
		}
	}
	s.Ver[prefix] = ver
}

func (s *State) version(cell string) string {
	best, bl := "", -1
	for p, v := range s.Ver {
		if (cell == p || strings.HasPrefix(cell, p+".") || strings.HasPrefix(cell, p+"[")) && len(p) > bl {
			best, bl = v, len(p)
		}
	}
	return best
}

const inf = math.MaxInt64

// Interval returns bounds for an integer value.
func (s *State) Interval(v Val) (lo, hi int64, ok bool) {
	switch v := v.(type) {
	case Const:
		if v.V.Kind() == constant.Int {
			if i, exact := constant.Int64Val(v.V); exact {
				return i, i, true
			}
		}
	case Sym:
		f := s.Facts[v.ID]
		if f.EqV != nil && f.EqV.Kind() == constant.Int {
			if i, exact := constant.Int64Val(f.EqV); exact {
				return i, i, true
			}
		}
		if f.HasIv {
			return f.Lo, f.Hi, true
		}
		if strings.HasPrefix(v.ID, "len<") {
			return 0, inf, true
		}
	}
	return -inf, inf, false
}

func (s *State) setInterval(v Val, lo, hi int64) bool {
	sym, ok := v.(Sym)
	if !ok {
		return lo <= hi
	}
	f := s.Facts[sym.ID]
	clo, chi, _ := s.Interval(v)
	if lo < clo {
		lo = clo
	}
	if hi > chi {
		hi = chi
	}
	// tighten against disequalities at the bounds
	for changed := true; changed && lo <= hi; {
		changed = false
		if f.hasNeq("#" + fmt.Sprint(lo)) {
			lo++
			changed = true
		} else if f.hasNeq("#" + fmt.Sprint(hi)) {
			hi--
			changed = true
		}
	}
	if lo > hi {
		return false
	}
	if lo == -inf && hi == inf {
		return true
	}
	f.HasIv, f.Lo, f.Hi = true, lo, hi
	s.Facts[sym.ID] = f
	return true
}

func (f Fact) hasNeq(k string) bool {
	return f.Neq != "" && strings.Contains(";"+f.Neq+";", ";"+k+";")
}

// Assume refines s with cond==truth; false means the branch is infeasible.
func (s *State) Assume(cond Val, truth bool) bool {
	cond = s.Resolve(cond)
	switch c := cond.(type) {
	case Const:
		if c.V.Kind() == constant.Bool {
			return constant.BoolVal(c.V) == truth
		}
		return true
	case Sym:
		f := s.Facts[c.ID]
		want := constant.MakeBool(truth)
		if f.hasNeq(Const{want}.Key()) {
			return false
		}
		s.SetEq(c, want)
		return true
	case Cmp:
		if c.Neg {
			truth = !truth
		}
		x, y := s.Resolve(c.X), s.Resolve(c.Y)
		switch c.Op {
		case "==":
			return s.assumeEq(x, y, truth)
		case "<", "<=":
			xl, xh, _ := s.Interval(x)
			yl, yh, _ := s.Interval(y)
			strict := int64(0)
			if c.Op == "<" {
				strict = 1
			}
			if truth { // x < y  => x.hi <= y.hi-strict ; y.lo >= x.lo+strict
				if yh != inf {
					if !s.setInterval(x, xl, min64(xh, yh-strict)) {
						return false
					}
				}
				if xl != -inf {
					if !s.setInterval(y, max64(yl, xl+strict), yh) {
						return false
					}
				}
			} else { // x >= y (strict) or x > y
				st := 1 - strict
				if yl != -inf {
					if !s.setInterval(x, max64(xl, yl+st), xh) {
						return false
					}
				}
				if xh != inf {
					if !s.setInterval(y, yl, min64(yh, xh-st)) {
						return false
					}
				}
			}
			return true
		}
	}
	return true
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (s *State) assumeEq(x, y Val, truth bool) bool {
	// nil comparisons
	_, xn := x.(Nil)
	_, yn := y.(Nil)
	if xn || yn {
		o := x
		if xn {
			o = y
		}
		switch s.Nilness(o) {
		case 1:
			return truth
		case 2:
			return !truth
		}
		if truth {
			s.SetNil(o, 1)
		} else {
			s.SetNil(o, 2)
		}
		return true
	}
	if c, ok := s.known(x); ok {
		x = c
	}
	if c, ok := s.known(y); ok {
		y = c
	}
	if xs, ok := kept(x); ok {
		if ys, ok := kept(y); ok && xs.ID != ys.ID {
			fx, fy := s.Facts[xs.ID], s.Facts[ys.ID]
			if fx.hasNeq("$" + ys.ID) {
				return !truth
			}
			if truth {
				// everything known about either holds for both; the later one stands for both
				if xs.ID > ys.ID && len(xs.ID) >= len(ys.ID) || len(xs.ID) > len(ys.ID) {
					xs, ys, fx, fy = ys, xs, fy, fx
				}
				if fx.HasIv && !s.setInterval(ys, fx.Lo, fx.Hi) {
					return false
				}
				fy = s.Facts[ys.ID]
				fy.Neq = joinNeq(fy.Neq, fx.Neq)
				s.Facts[ys.ID] = fy
				s.Facts[xs.ID] = Fact{Same: ys.ID}
				return true
			}
			fx.Neq = joinNeq(fx.Neq, "$"+ys.ID)
			fy.Neq = joinNeq(fy.Neq, "$"+xs.ID)
			s.Facts[xs.ID], s.Facts[ys.ID] = fx, fy
			return true
		}
	}
	xc, xok := x.(Const)
	yc, yok := y.(Const)
	if xok && yok {
		return (xc.Key() == yc.Key()) == truth
	}
	if x.Key() == y.Key() {
		if _, isStruct := x.(Struct); !isStruct {
			return truth
		}
	}
	switch eqVals(x, y) {
	case 1:
		if _, isStruct := x.(Struct); !isStruct {
			return truth
		}
	case -1:
		return !truth
	}
	if xok || yok {
		c, o := xc, y
		if yok {
			c, o = yc, x
		}
		sym, ok := o.(Sym)
		if !ok {
			if _, isI := o.(Iface); isI {
				return true
			}
			return true
		}
		f := s.Facts[sym.ID]
		if truth {
			if f.hasNeq(c.Key()) {
				return false
			}
			if lo, hi, ok := s.Interval(o); ok && c.V.Kind() == constant.Int {
				if i, exact := constant.Int64Val(c.V); exact && (i < lo || i > hi) {
					return false
				}
			}
			s.SetEq(sym, c.V)
			if _, ok := kept(sym); ok && strings.Contains(f.Neq, "$") {
				for _, n := range strings.Split(f.Neq, ";") {
					if strings.HasPrefix(n, "$") && !s.assumeEq(s.Resolve(Sym{ID: n[1:]}), c, false) {
						return false
					}
				}
			}
			return true
		}
		if f.Eq != "" {
			return f.Eq != c.Key()
		}
		if c.V.Kind() == constant.Bool {
			s.SetEq(sym, constant.MakeBool(!constant.BoolVal(c.V)))
			return true
		}
		if !f.hasNeq(c.Key()) {
			l := []string{}
			if f.Neq != "" {
				l = strings.Split(f.Neq, ";")
			}
			l = append(l, c.Key())
			sort.Strings(l)
			f.Neq = strings.Join(l, ";")
		}
		s.Facts[sym.ID] = f
		if c.V.Kind() == constant.Int {
			lo, hi, ok := s.Interval(o)
			if ok {
				return s.setInterval(o, lo, hi)
			}
		}
		return true
	}
	return true
}

func joinNeq(a, b string) string {
	set := map[string]bool{}
	for _, l := range []string{a, b} {
		if l != "" {
			for _, k := range strings.Split(l, ";") {
				set[k] = true
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func (s *State) factClone() *State {
	n := &State{Heap: s.Heap, TS: s.TS, Ver: s.Ver, Facts: make(map[string]Fact, len(s.Facts))}
	for k, v := range s.Facts {
		n.Facts[k] = v
	}
	return n
}

// Truth evaluates cond without refining: 1 true, 0 false, -1 unknown.
func (s *State) Truth(cond Val) int {
	t, f := s.factClone(), s.factClone()
	a, b := t.Assume(cond, true), f.Assume(cond, false)
	switch {
	case a && !b:
		return 1
	case b && !a:
		return 0
	}
	return -1
}
