// Package auto implements regular languages over runes as complete deterministic automata.
// It is the string domain of the schema and emission analyses.
package auto

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

const maxRune = unicode.MaxRune

// Lang is a complete DFA. Class i covers the runes [lo[i], lo[i+1]).
type Lang struct {
	lo    []rune
	trans [][]int32
	acc   []bool
}

func sortRunes(m map[rune]bool) []rune {
	m[0] = true
	var l []rune
	for r := range m {
		if r >= 0 && r <= maxRune {
			l = append(l, r)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (l *Lang) class(r rune) int {
	return sort.Search(len(l.lo), func(i int) bool { return l.lo[i] > r }) - 1
}

func constant(acc bool) *Lang {
	return &Lang{lo: []rune{0}, trans: [][]int32{{0}}, acc: []bool{acc}}
}

// None and All are the empty and the full language.
func None() *Lang { return constant(false) }
func All() *Lang  { return constant(true) }

// Regexp is the set of strings that the regular expression matches (MatchString semantics).
func Regexp(re string) (*Lang, error) {
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	cuts := map[rune]bool{}
	cut := func(a, b rune) { cuts[a] = true; cuts[b+1] = true }
	for _, in := range prog.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				r := in.Rune[0]
				cut(r, r)
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
						cut(f, f)
					}
				}
				break
			}
			for i := 0; i+1 < len(in.Rune); i += 2 {
				cut(in.Rune[i], in.Rune[i+1])
			}
		case syntax.InstRuneAnyNotNL:
			cut('\n', '\n')
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				return nil, fmt.Errorf("unsupported assertion in %q", re)
			}
		}
	}
	l := &Lang{lo: sortRunes(cuts)}
	closure := func(set []uint32, begin, end bool) (map[uint32]bool, bool) {
		seen := map[uint32]bool{}
		match := false
		var visit func(pc uint32)
		visit = func(pc uint32) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				visit(in.Out)
				visit(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				visit(in.Out)
			case syntax.InstMatch:
				match = true
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				if op&syntax.EmptyBeginText != 0 && !begin || op&syntax.EmptyEndText != 0 && !end {
					return
				}
				visit(in.Out)
			}
		}
		for _, pc := range set {
			visit(pc)
		}
		return seen, match
	}
	type state struct {
		set   []uint32
		begin bool
		done  bool
	}
	keyOf := func(s state) string { return fmt.Sprint(s.set, s.begin, s.done) }
	ids := map[string]int32{}
	var states []state
	add := func(s state) int32 {
		k := keyOf(s)
		if id, ok := ids[k]; ok {
			return id
		}
		id := int32(len(states))
		ids[k] = id
		states = append(states, s)
		return id
	}
	add(state{set: []uint32{uint32(prog.Start)}, begin: true})
	for i := 0; i < len(states); i++ {
		s := states[i]
		if len(states) > 20000 {
			return nil, fmt.Errorf("too many states for %q", re)
		}
		row := make([]int32, len(l.lo))
		cl, match := closure(s.set, s.begin, false)
		_, endMatch := closure(s.set, s.begin, true)
		l.acc = append(l.acc, s.done || match || endMatch)
		for c := range l.lo {
			n := state{done: s.done || match}
			if !n.done {
				out := map[uint32]bool{uint32(prog.Start): true}
				for pc := range cl {
					in := prog.Inst[pc]
					switch in.Op {
					case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
						if in.MatchRune(l.lo[c]) {
							out[in.Out] = true
						}
					}
				}
				for pc := range out {
					n.set = append(n.set, pc)
				}
				sort.Slice(n.set, func(a, b int) bool { return n.set[a] < n.set[b] })
			}
			row[c] = add(n)
		}
		l.trans = append(l.trans, row)
	}
	return l.min(), nil
}

// Must is Regexp for expressions known to be supported.
func Must(re string) *Lang {
	l, err := Regexp(re)
	if err != nil {
		panic(err)
	}
	return l
}

// Words is a finite set of strings.
func Words(ws ...string) *Lang {
	l := None()
	for _, w := range ws {
		l = l.Union(word(w, false))
	}
	return l
}

// Prefix is the set of strings that start with p.
func Prefix(p string) *Lang { return word(p, true) }

// Suffix and Contains are the sets of strings that end with or contain p.
func Suffix(p string) *Lang   { return Must(quote(p) + `\z`) }
func Contains(p string) *Lang { return Must(quote(p)) }

func quote(s string) string {
	var b strings.Builder
	for _, r := range s {
		fmt.Fprintf(&b, `\x{%x}`, r)
	}
	return b.String()
}

func word(w string, open bool) *Lang {
	rs := []rune(w)
	cuts := map[rune]bool{}
	for _, r := range rs {
		cuts[r] = true
		cuts[r+1] = true
	}
	l := &Lang{lo: sortRunes(cuts)}
	sink := int32(len(rs) + 1)
	for i := 0; i <= len(rs)+1; i++ {
		row := make([]int32, len(l.lo))
		for c := range row {
			row[c] = sink
			if i < len(rs) && l.lo[c] == rs[i] {
				row[c] = int32(i + 1)
			}
			if i == len(rs) && open {
				row[c] = int32(i)
			}
		}
		l.trans = append(l.trans, row)
		l.acc = append(l.acc, i == len(rs))
	}
	return l
}

// Length is the set of strings of lo to hi runes (hi < 0: no upper bound).
func Length(lo, hi int) *Lang {
	l := &Lang{lo: []rune{0}}
	top := hi + 1
	if hi < 0 {
		top = lo
	}
	for i := 0; i <= top; i++ {
		n := i + 1
		if n > top {
			n = top
		}
		l.trans = append(l.trans, []int32{int32(n)})
		l.acc = append(l.acc, i >= lo && (hi < 0 || i <= hi))
	}
	return l
}

// At is the set of strings whose rune number i is in [a, b].
func At(i int, a, b rune) *Lang {
	l := &Lang{lo: sortRunes(map[rune]bool{a: true, b + 1: true})}
	sink, ok := int32(i+1), int32(i+2)
	for k := 0; k <= i+2; k++ {
		row := make([]int32, len(l.lo))
		for c := range row {
			switch {
			case k < i:
				row[c] = int32(k + 1)
			case k == i:
				row[c] = sink
				if l.lo[c] >= a && l.lo[c] <= b {
					row[c] = ok
				}
			default:
				row[c] = int32(k)
			}
		}
		l.trans = append(l.trans, row)
		l.acc = append(l.acc, k == i+2)
	}
	return l
}

func (l *Lang) Not() *Lang {
	n := &Lang{lo: l.lo, trans: l.trans, acc: make([]bool, len(l.acc))}
	for i, a := range l.acc {
		n.acc[i] = !a
	}
	return n
}

func product(a, b *Lang, f func(x, y bool) bool) *Lang {
	cuts := map[rune]bool{}
	for _, r := range a.lo {
		cuts[r] = true
	}
	for _, r := range b.lo {
		cuts[r] = true
	}
	l := &Lang{lo: sortRunes(cuts)}
	ca, cb := make([]int, len(l.lo)), make([]int, len(l.lo))
	for i, r := range l.lo {
		ca[i], cb[i] = a.class(r), b.class(r)
	}
	ids := map[[2]int32]int32{{0, 0}: 0}
	states := [][2]int32{{0, 0}}
	for i := 0; i < len(states); i++ {
		s := states[i]
		row := make([]int32, len(l.lo))
		for c := range l.lo {
			n := [2]int32{a.trans[s[0]][ca[c]], b.trans[s[1]][cb[c]]}
			id, ok := ids[n]
			if !ok {
				id = int32(len(states))
				ids[n] = id
				states = append(states, n)
			}
			row[c] = id
		}
		l.trans = append(l.trans, row)
		l.acc = append(l.acc, f(a.acc[s[0]], b.acc[s[1]]))
	}
	return l.min()
}

func (l *Lang) And(o *Lang) *Lang   { return product(l, o, func(x, y bool) bool { return x && y }) }
func (l *Lang) Union(o *Lang) *Lang { return product(l, o, func(x, y bool) bool { return x || y }) }
func (l *Lang) Minus(o *Lang) *Lang { return product(l, o, func(x, y bool) bool { return x && !y }) }

// min merges equivalent states (partition refinement) and equivalent classes.
func (l *Lang) min() *Lang {
	n := len(l.trans)
	part := make([]int32, n)
	for i, a := range l.acc {
		if a {
			part[i] = 1
		}
	}
	count := 0
	for {
		ids := map[string]int32{}
		next := make([]int32, n)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.Reset()
			fmt.Fprint(&sb, part[i], ":")
			for _, t := range l.trans[i] {
				fmt.Fprint(&sb, part[t], ",")
			}
			id, ok := ids[sb.String()]
			if !ok {
				id = int32(len(ids))
				ids[sb.String()] = id
			}
			next[i] = id
		}
		part = next
		if len(ids) == count {
			break
		}
		count = len(ids)
	}
	// renumber with the start first
	ren := map[int32]int32{part[0]: 0}
	rep := []int{0}
	for i := 0; i < n; i++ {
		if _, ok := ren[part[i]]; !ok {
			ren[part[i]] = int32(len(rep))
			rep = append(rep, i)
		}
	}
	m := &Lang{}
	var keep []int
	for c := range l.lo {
		same := c > 0
		if same {
			for i := 0; i < n; i++ {
				if part[l.trans[i][c]] != part[l.trans[i][c-1]] {
					same = false
					break
				}
			}
		}
		if !same {
			keep = append(keep, c)
			m.lo = append(m.lo, l.lo[c])
		}
	}
	for _, i := range rep {
		row := make([]int32, len(keep))
		for k, c := range keep {
			row[k] = ren[part[l.trans[i][c]]]
		}
		m.trans = append(m.trans, row)
		m.acc = append(m.acc, l.acc[i])
	}
	return m
}

// Witness is a shortest member; ok is false for the empty language.
func (l *Lang) Witness() (string, bool) {
	type item struct {
		s int32
		w string
	}
	seen := make([]bool, len(l.trans))
	q := []item{{0, ""}}
	seen[0] = true
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if l.acc[x.s] {
			return x.w, true
		}
		for c, t := range l.trans[x.s] {
			if !seen[t] {
				seen[t] = true
				r := l.lo[c]
				hi := rune(maxRune)
				if c+1 < len(l.lo) {
					hi = l.lo[c+1] - 1
				}
				for _, p := range []rune{'a', '0', '1', ' '} {
					if p >= r && p <= hi {
						r = p
						break
					}
				}
				if r == 0 && hi > 0 {
					r = 1
				}
				q = append(q, item{t, x.w + string(r)})
			}
		}
	}
	return "", false
}

func (l *Lang) Empty() bool {
	_, ok := l.Witness()
	return !ok
}

// Diff gives a string in exactly one of the languages.
func (l *Lang) Diff(o *Lang) (w string, inFirst, differ bool) {
	if w, ok := l.Minus(o).Witness(); ok {
		return w, true, true
	}
	if w, ok := o.Minus(l).Witness(); ok {
		return w, false, true
	}
	return "", false, false
}

// Has tests membership.
func (l *Lang) Has(s string) bool {
	st := int32(0)
	for _, r := range s {
		st = l.trans[st][l.class(r)]
	}
	return l.acc[st]
}

// Finite lists the members when there are at most max of them.
func (l *Lang) Finite(max int) ([]string, bool) {
	var out []string
	cur := l
	for len(out) <= max {
		w, ok := cur.Witness()
		if !ok {
			return out, true
		}
		out = append(out, w)
		cur = cur.Minus(word(w, false))
	}
	return nil, false
}
