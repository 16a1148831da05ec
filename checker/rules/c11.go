package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	. "verif/checker/absint"
	"verif/checker/core"
)

func init() {
	register("C11", &Rule{
		Run: runC11,
		Explain: "For each decoder implementation: the abstract transfer functions of the navigation operations (abstract interpretation over SSA) are composed along the document-order walk of every abstract document of a finite family (nesting, siblings, empty collections, nulls, anchors, tags, aliases; scalar texts symbolic), " +
			"and at each step the abstract result must be that very leaf's text, each collection state must tell whether items remain, asking for null of a non-null node must change nothing, and one read past the last leaf must record an error.",
		Assume: []string{"documents up to depth 4; node handling depends on the parent and the open collections, not on absolute depth"},
	})
	register("C14", &Rule{
		Run:     runC14,
		Explain: "For each decoder implementation and each item/value/root position of the abstract documents: the transfer functions of Skip, Any, Raw and Node are applied in place of the walk of that subtree; the abstract result must be the value of exactly that subtree (node identity for Node, the structural value for Any, the serialisation of that node for Raw), no error may be recorded, and the remaining walk must read every following leaf, with the tree's cells left as they were.",
		Assume:  []string{"yaml.Marshal and the engine's writer are functions of the node given to them"},
	})
}

// cell of a text with a constant content.
func ctext(s string) *shape { return &shape{kind: "text", name: "=" + s} }

func navDocs() []*shape {
	t := text
	al := func() *shape { return alias("x", nil) }
	return []*shape{
		t("a"), null(), quoted("a"), anchored("x", t("a")), tagged(t("a")),
		seq(), mapping(),
		seq(t("a")), seq(t("a"), t("b")), seq(t("a"), t("b"), t("c")),
		seq(null(), t("a")), seq(t("a"), null()),
		mapping(t("k"), t("a")), mapping(t("k"), t("a"), t("l"), t("b")), mapping(t("k"), null(), t("l"), t("b")),
		seq(seq(t("a"), t("b")), t("c")), seq(seq(), t("c")), seq(t("a"), seq(t("b")), t("c")), seq(seq(seq(t("a"))), t("b")),
		seq(seq(), seq()), seq(mapping(), t("c")), seq(mapping(t("k"), t("a")), t("c")), seq(t("z"), mapping(t("k"), t("a"), t("l"), t("b"))),
		mapping(t("k"), seq(t("a"), t("b")), t("l"), t("c")), mapping(t("k"), seq(), t("l"), t("c")), mapping(t("k"), mapping(t("m"), t("a")), t("l"), t("c")),
		mapping(t("k"), mapping(), t("l"), t("c")), mapping(t("k"), mapping(t("m"), mapping(t("n"), t("a"))), t("l"), t("c")),
		mapping(t("k"), seq(mapping(t("m"), seq(t("a"))), t("b")), t("l"), t("c")),
		mapping(t("k"), t("a"), t("l"), seq(t("b"), t("c"))), mapping(t("k"), seq(seq(t("a"), t("b")), seq(t("c")))),
		seq(anchored("x", t("a")), al(), t("b")), seq(anchored("x", seq(t("a"), t("b"))), al(), t("c")),
		seq(anchored("x", mapping(t("k"), t("a"))), al(), t("c")), mapping(t("k"), anchored("x", seq(t("a"))), t("l"), al(), t("m"), t("b")),
		mapping(t("k"), anchored("x", t("a")), t("l"), mapping(t("m"), al(), t("n"), t("b"))),
		seq(anchored("x", seq()), al(), t("c")), seq(tagged(seq(t("a"))), tagged(t("b"))), mapping(t("k"), tagged(mapping(t("l"), t("a"))), t("m"), t("b")),
		seq(anchored("x", t("a")), seq(al(), al()), t("b")),
		seq(anchored("x", seq(t("a"))), anchored("x", seq(t("b"))), al(), t("c")),
		seq(seq(anchored("x", t("a")), t("b")), al(), t("c")),
		mapping(t("k"), mapping(t("l"), anchored("x", seq(t("a")))), t("m"), al(), t("n"), t("c")),
		seq(anchored("y", seq(t("a"), anchored("x", t("b")))), al(), t("c")),
		seq(mapping(anchored("x", t("k")), t("a")), al(), t("c")),
		seq(t("z"), seq(anchored("x", seq(t("a"))), al()), t("c")),
		seq(anchored("x", t("a")), mapping(t("k"), seq(al(), anchored("x", t("b")), al())), t("c")),
		mapping(t("l"), seq(mapping(anchored("x", t("k")), t("a"), t("n"), t("b"))), t("m"), al()),
		seq(seq(t("a"), seq(t("b"), mapping(t("k"), t("c")))), mapping(t("l"), seq(t("d"))), t("e")),
	}
}

// targets resolves the aliases of a document (the latest anchor before the alias).
func targets(s *shape, anc map[string]*shape) {
	if s.kind == "alias" {
		if s.to == nil {
			s.to = anc[s.name]
		}
		return
	}
	for _, k := range s.kids {
		targets(k, anc)
	}
	if s.anc != "" {
		anc[s.anc] = s
	}
}

// texts of a document.
func (s *shape) texts(f func(*shape)) {
	if s.kind == "text" {
		f(s)
	}
	for _, k := range s.kids {
		k.texts(f)
	}
}

// settle assumes that every scalar text is plain text: no schema predicate recognises it.
func (s *session) settle(doc *shape) {
	e := s.e
	doc.texts(func(t *shape) {
		v := textSym(t)
		for _, p := range []string{"IsNull", "IsTimestamp", "IsUnsignedInteger", "IsInteger", "IsFloat", "IsBoolean", "IsBinary"} {
			s.st.SetEq(Sym{ID: "is<" + p + "(" + v.Key() + ")>"}, constant.MakeBool(false))
		}
		if sy, ok := v.(Sym); ok {
			s.st.Assume(Cmp{Op: "==", X: sy, Y: Str("<<")}, false)
		}
	})
	if !e.isAST {
		for k, v := range s.st.Heap {
			if strings.HasSuffix(k, ".Kind") && v.Key() == e.constOf("ScalarNode").Key() {
				b := strings.TrimSuffix(k, ".Kind")
				id := "tag<&" + b + ">"
				if _, set := s.st.Facts[id]; !set {
					s.st.SetEq(Sym{ID: id}, constant.MakeString("!!str"))
				}
			}
		}
	}
}

// walk variants
type variant struct {
	at   *shape // the node treated specially (nil: none)
	op   string // Skip, Any, Raw, Node
	null bool   // ask for null before every read
	pos  string
}

type walker struct {
	e    *engine
	rule string
	doc  *shape
	v    variant
	ok   bool
	n    int
}

func (w *walker) bad(s *session, op, format string, args ...any) {
	w.ok = false
	m := w.e.c.Method(w.e.r, op)
	where := ""
	if m != nil {
		where = w.e.c.Pos(m.Pos())
	}
	how := ""
	if w.v.null {
		how = ", asking for null before every read"
	}
	w.e.c.Rep.Violate(w.rule, fmt.Sprintf("%s.%s", shortType(w.e.r), op), where, "%s (operations %s%s): %s", strings.SplitN(s.log[0], " ", 2)[1], strings.Join(s.log[1:], ", "), how, fmt.Sprintf(format, args...))
}

// step applies op and returns the states after it, all without error.
func (w *walker) step(s *session, op string, as ...Val) []result {
	if !w.ok {
		return nil
	}
	rs := s.op(op, as...)
	var out []result
	for _, r := range rs {
		w.n++
		switch {
		case r.panic != "":
			w.bad(r.s, op, "panics: %s", r.panic)
			return nil
		case r.err.Key() != "nil":
			if r.s.st.TS["conv"] == "err" {
				continue // a failed serialisation or conversion: decided under C02
			}
			w.bad(r.s, op, "records the error %s", r.err.Key())
			return nil
		}
		out = append(out, r)
	}
	if len(out) == 0 {
		if w.e.capped == "" && len(rs) == 0 {
			w.bad(s, op, "does not return")
		}
		w.ok = false
	}
	return out
}

func (w *walker) walk(n *shape, ss []*session) []*session {
	var out []*session
	for _, s := range ss {
		if !w.ok {
			return nil
		}
		out = append(out, w.walk1(n, s)...)
	}
	return out
}

func (w *walker) special(n *shape, s *session) []*session {
	var out []*session
	before := w.treeCells(s.st)
	if w.v.op == "Raw" && w.e.isAST && n.kind != "alias" {
		w.e.loose = looseOf(n)
		delete(s.st.TS, "loose")
		defer func() { w.e.loose = nil }()
	}
	for _, r := range w.step(s, w.v.op) {
		switch w.v.op {
		case "Node":
			want := r.s.st.Resolve(s.st.TSVal["node:"+fmt.Sprintf("%p", n)])
			alt := want
			if n.kind == "alias" && n.to != nil {
				if v, ok := s.st.TSVal["node:"+fmt.Sprintf("%p", n.to)]; ok {
					alt = v
				}
			}
			if r.val == nil || !w.sameNode(r.s, r.val, want) && !w.sameNode(r.s, r.val, alt) {
				w.bad(r.s, "Node", "returns %s instead of the node %s at the current position", key(r.val), n)
			}
		case "Any":
			if why := w.anyMatch(r.s.st, r.val, n); why != "" {
				w.bad(r.s, "Any", "the value of %s is wrong: %s", n, why)
			}
		case "Raw":
			if l := r.s.st.TS["loose"]; l != "" {
				w.bad(r.s, "Raw", "serialises %s with the alias %s, whose anchor is not before it in the text", n, l)
				break
			}
			if r.val == nil || r.s.st.IsZero(r.val) {
				w.bad(r.s, "Raw", "returns nothing for %s", n)
			} else if !w.rawOf(r.s, r.val, s, n) {
				w.bad(r.s, "Raw", "returns %s, which is not made from the node %s at the current position", key(r.val), n)
			}
		}
		for c, v := range before {
			if now, ok := r.s.st.Heap[c]; !ok || now.Key() != v.Key() {
				w.bad(r.s, w.v.op, "leaves the tree changed (%s)", strings.TrimLeft(c, "N0123456789k"))
				break
			}
		}
		out = append(out, r.s)
	}
	return out
}

func key(v Val) string {
	if v == nil {
		return "nothing"
	}
	return v.Key()
}

// treeCells: the cells of the document.
func (w *walker) treeCells(st *State) map[string]Val {
	m := map[string]Val{}
	for k, v := range st.Heap {
		if len(k) > 1 && k[0] == 'N' && k[1] >= '0' && k[1] <= '9' {
			m[k] = v
		}
	}
	return m
}

func nodeKey(v Val) string {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	return v.Key()
}

// sameNode: v is the node, or (for a node with properties) its content.
func (w *walker) sameNode(s *session, v, want Val) bool {
	if want == nil {
		return false
	}
	if nodeKey(v) == nodeKey(want) {
		return true
	}
	if w.e.isAST {
		if q := s.query(want, "Content"); q != nil && nodeKey(q) == nodeKey(v) {
			return true
		}
	}
	return false
}

// rawOf: the serialisation mentions the node itself (or the anchored node behind an alias).
func (w *walker) rawOf(r *session, v Val, s *session, n *shape) bool {
	k := v.Key()
	for _, m := range []*shape{n, n.to} {
		if m == nil {
			continue
		}
		nv, ok := s.st.TSVal["node:"+fmt.Sprintf("%p", m)]
		if !ok {
			continue
		}
		if containsKey(k, nodeKey(nv)) {
			return true
		}
		if w.e.isAST {
			if q := s.query(nv, "Content"); q != nil && containsKey(k, nodeKey(q)) {
				return true
			}
		}
	}
	return false
}

// containsKey finds a whole value key within another.
func containsKey(s, k string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], k)
		if j < 0 {
			return false
		}
		e := i + j + len(k)
		if e >= len(s) || !(s[e] >= '0' && s[e] <= '9' || s[e] >= 'a' && s[e] <= 'z' || s[e] == '.' || s[e] == '[') {
			return true
		}
		i = e
	}
}

// anyMatch compares the abstract value of Any with the document.
func (w *walker) anyMatch(st *State, v Val, n *shape) string {
	if n.kind == "alias" {
		return w.anyMatch(st, v, n.to)
	}
	if v == nil {
		return "no value"
	}
	v = st.Resolve(v)
	iv, isI := v.(Iface)
	switch n.kind {
	case "null":
		if st.IsZero(v) {
			return ""
		}
		return "null became " + v.Key()
	case "text":
		if isI && iv.V.Key() == textSym(n).Key() {
			return ""
		}
		return fmt.Sprintf("the text %s became %s", n, v.Key())
	case "seq":
		sl, ok := iv.V.(SliceOf)
		if !isI || !ok {
			if isI && len(n.kids) == 0 {
				if c, ok := st.Len(iv.V).(Const); ok && c.Key() == "#0" {
					return ""
				}
			}
			if _, isApp := iv.V.(Append); isApp {
				return ""
			}
			return fmt.Sprintf("the sequence %s became %s", n, v.Key())
		}
		if sl.N != len(n.kids) {
			return fmt.Sprintf("the sequence %s became a slice of %d elements", n, sl.N)
		}
		for i, k := range n.kids {
			if why := w.anyMatch(st, st.Load(Addr{Base: sl.A.Base, Path: fmt.Sprintf("%s[%d]", sl.A.Path, i)}, types.NewInterfaceType(nil, nil)), k); why != "" {
				return why
			}
		}
		return ""
	case "map":
		want := map[string]*shape{}
		merged(n, want)
		ks, known := st.MapKeys(iv.V)
		if !isI || !known {
			if isI {
				if _, isMap := iv.T.Underlying().(*types.Map); isMap {
					return ""
				}
			}
			return fmt.Sprintf("the mapping %s became %s", n, v.Key())
		}
		if len(ks) != len(want) {
			return fmt.Sprintf("the mapping %s became a map of %d entries", n, len(ks))
		}
		for k, x := range want {
			ev, found, known := st.MapLoad(iv.V, textSym(&shape{name: k}))
			if !known {
				return ""
			}
			if !found {
				return fmt.Sprintf("the key %s is missing", k)
			}
			if why := w.anyMatch(st, ev, x); why != "" {
				return why
			}
		}
		return ""
	}
	return ""
}

// merged lists the entries of a mapping with merge keys applied.
func merged(n *shape, out map[string]*shape) {
	if n.kind == "alias" {
		n = n.to
	}
	for i := 0; i+1 < len(n.kids); i += 2 {
		k := n.kids[i]
		if k.kind == "alias" {
			k = k.to
		}
		if k.name == "=<<" {
			continue
		}
		out[k.name] = n.kids[i+1]
	}
	for i := 0; i+1 < len(n.kids); i += 2 {
		if n.kids[i].name == "=<<" {
			m := map[string]*shape{}
			merged(n.kids[i+1], m)
			for k, v := range m {
				if _, ok := out[k]; !ok {
					out[k] = v
				}
			}
		}
	}
}

func (w *walker) walk1(n *shape, s *session) []*session {
	if w.v.at == n {
		return w.special(n, s)
	}
	if n.kind == "alias" {
		return w.walk1(n.to, s)
	}
	ss := []*session{s}
	if w.v.null && n.kind != "null" {
		ss = nil
		for _, r := range w.step(s, "TryNull") {
			if r.s.st.Truth(r.val) != 0 {
				w.bad(r.s, "TryNull", "answers %s for %s", key(r.val), n)
				return nil
			}
			ss = append(ss, r.s)
		}
	}
	var out []*session
	for _, s := range ss {
		switch n.kind {
		case "text":
			for _, r := range w.step(s, "String") {
				if key(r.val) != textSym(n).Key() {
					w.bad(r.s, "String", "reads %s where %s is next in the document", key(r.val), n)
					return nil
				}
				out = append(out, r.s)
			}
		case "null":
			for _, r := range w.step(s, "TryNull") {
				if r.s.st.Truth(r.val) != 1 {
					w.bad(r.s, "TryNull", "answers %s where a null is next in the document", key(r.val))
					return nil
				}
				out = append(out, r.s)
			}
		case "seq", "map":
			op := "Sequence"
			per := 1
			if n.kind == "map" {
				op, per = "Mapping", 2
			}
			for _, r := range w.step(s, op) {
				cur := []*session{r.s}
				if size := r.s.query(r.val, "Size"); size == nil {
					w.bad(r.s, op, "the state does not tell its size")
					return nil
				} else if c, ok := r.s.st.Resolve(size).(Const); ok {
					if want := len(n.kids) / per; (want == 0) != (c.Key() == "#0") || per == 1 && c.Key() != fmt.Sprintf("#%d", want) {
						w.bad(r.s, op, "the state of %s reports the size %s instead of %d", n, c.Key()[1:], want)
						return nil
					}
				}
				for i := 0; i <= len(n.kids) && w.ok; i += per {
					for _, c := range cur {
						has := c.query(r.val, "HasUnprocessedItems")
						if has == nil {
							w.bad(c, op, "the state does not tell whether items remain after %d of %d", i/per, len(n.kids)/per)
							return nil
						}
						if c.st.Truth(has) != b2i(i < len(n.kids)) {
							w.bad(c, op, "the state of %s answers %s about remaining items after %d of %d", n, has.Key(), i/per, len(n.kids)/per)
							return nil
						}
					}
					if i == len(n.kids) {
						break
					}
					for j := 0; j < per; j++ {
						cur = w.walk(n.kids[i+j], cur)
					}
				}
				out = append(out, cur...)
			}
		}
	}
	return out
}

// run walks the document and then reads once more.
func (w *walker) run() {
	e := w.e
	w.ok = true
	e.c.Rep.Ob(w.rule)
	anc := map[string]*shape{}
	targets(w.doc, anc)
	var ss []*session
	for _, s := range e.open(w.doc, false) {
		if s == nil {
			w.e.c.Rep.Violate(w.rule, shortType(e.r), "", "constructing the decoder panics on %s", w.doc)
			return
		}
		s.settle(w.doc)
		ss = append(ss, s)
	}
	ss = w.walk(w.doc, ss)
	if !w.ok {
		return
	}
	for _, s := range ss {
		for _, op := range []string{"String", "TryNull", "Skip"} {
			for _, r := range s.op(op) {
				if r.panic != "" {
					w.bad(r.s, op, "panics past the end: %s", r.panic)
				} else if r.err.Key() == "nil" {
					w.bad(r.s, op, "records no error past the last node")
				}
			}
		}
	}
}

func runC11(c *core.Ctx) {
	var jobs []func(*core.Ctx)
	for _, e := range engines(c) {
		for i := range navDocs() {
			e, i := e, i
			jobs = append(jobs, func(c *core.Ctx) {
				e := e.copy(c)
				for _, nl := range []bool{false, true} {
					w := &walker{e: e, rule: "walk", doc: navDocs()[i], v: variant{null: nl}}
					w.run()
					c.Rep.Count("abstract steps", w.n)
				}
				e.undecided()
			})
		}
	}
	c.Parallel(jobs)
	c.Rep.Floor("walk", 60)
}

// positions lists the nodes at item, value and root positions.
func positions(s *shape, out *[]*shape) {
	*out = append(*out, s)
	for i, k := range s.kids {
		if s.kind == "map" && i%2 == 0 {
			continue
		}
		positions(k, out)
	}
}

func rekey(s *shape) {
	if s.kind == "map" {
		for i := 0; i < len(s.kids); i += 2 {
			if k := s.kids[i]; k.kind == "text" && !strings.HasPrefix(k.name, "=") {
				k.name = "=" + k.name
			}
		}
	}
	for _, k := range s.kids {
		rekey(k)
	}
}

func subtreeDocs() []*shape {
	k := ctext
	docs := append(navDocs(),
		mapping(k("a"), text("1"), k("<<"), mapping(k("a"), text("2"), k("b"), text("3"))),
		mapping(k("<<"), mapping(k("a"), text("2"), k("b"), text("3")), k("a"), text("1")),
		mapping(k("<<"), mapping(k("a"), mapping(k("b"), text("1"))), k("c"), mapping(k("d"), text("2"))),
		mapping(k("<<"), mapping(k("a"), seq(mapping(k("b"), text("1")), text("3"))), k("c"), text("2")),
		seq(anchored("x", mapping(k("a"), text("1"))), mapping(k("b"), text("2"), k("<<"), alias("x", nil)), text("z")),
	)
	for _, d := range docs {
		rekey(d)
	}
	return docs
}

func runC14(c *core.Ctx) {
	var jobs []func(*core.Ctx)
	for _, e := range engines(c) {
		for i := range subtreeDocs() {
			e, i := e, i
			jobs = append(jobs, func(c *core.Ctx) {
				e := e.copy(c)
				d := subtreeDocs()[i]
				var ps []*shape
				positions(d, &ps)
				for _, p := range ps {
					for _, op := range []string{"Skip", "Any", "Raw", "Node"} {
						if e.c.Method(e.r, op) == nil {
							continue
						}
						w := &walker{e: e, rule: "subtree-" + strings.ToLower(op), doc: d, v: variant{at: p, op: op}}
						w.run()
						c.Rep.Count("abstract steps", w.n)
					}
				}
				e.undecided()
			})
		}
		e := e
		jobs = append(jobs, func(c *core.Ctx) {
			e := e.copy(c)
			e.anyCycles()
			e.undecided()
		}, func(c *core.Ctx) {
			e := e.copy(c)
			e.anyScalars()
			e.undecided()
		})
	}
	c.Parallel(jobs)
	c.Rep.Floor("any-scalar", 30)
	c.Rep.Floor("subtree-skip", 100)
	c.Rep.Floor("subtree-any", 100)
}

// anyCycles: an alias inside the node it refers to is an error, and Any ends.
func (e *engine) anyCycles() {
	k, x := ctext, func() *shape { return alias("x", nil) }
	construct := shortType(e.r) + ".Any"
	where := e.c.Pos(e.c.Method(e.r, "Any").Pos())
	for _, doc := range []*shape{
		anchored("x", seq(x())), anchored("x", mapping(k("k"), x())), anchored("x", seq(k("a"), seq(x()))), anchored("x", mapping(k("k"), mapping(k("l"), x()))),
		anchored("x", seq(mapping(k("k"), seq(x())))), seq(anchored("x", seq(k("a"), x()))), mapping(k("k"), anchored("x", mapping(k("l"), seq(x())))),
		anchored("x", seq(anchored("y", seq(x(), alias("y", nil))))),
	} {
		for _, s := range e.open(doc, false) {
			if s == nil {
				continue
			}
			fn := e.c.Method(e.r, "Any")
			in := e.interp()
			in.MaxRec, in.MaxDepth = 24, 200
			e.c.Rep.Ob("any-cycle")
			outs := in.RunAs("cyc", fn, []Val{s.recv}, s.st.Clone())
			if in.Endless != "" {
				e.c.Rep.Violate("any-cycle", construct, where, "does not end in %s: %s calls itself for ever", doc, in.Endless)
				return
			}
			if in.Deep {
				e.c.Rep.Undecide("%s in %s: calls too deep to be followed", construct, doc)
				return
			}
			if in.Capped {
				e.capped = in.CapWhy
				continue
			}
			for _, o := range outs {
				if o.Panic {
					e.c.Rep.Violate("any-cycle", construct, where, "may panic in %s: %s", doc, o.Note)
					return
				}
				ns := &session{e: e, st: o.St, recv: s.recv, tree: s.tree, n: 1}
				for _, ev := range ns.errors() {
					if ev.Key() == "nil" {
						e.c.Rep.Violate("any-cycle", construct, where, "reports no error in %s", doc)
						return
					}
				}
			}
		}
	}
}

// anyScalars: a scalar becomes the value of the most specific type that recognises its text.
func (e *engine) anyScalars() {
	rep := e.c.Rep
	construct := shortType(e.r) + ".Any"
	where := e.c.Pos(e.c.Method(e.r, "Any").Pos())
	type want struct {
		conv   string
		is     []string // one of them holds
		unless []string // these are known not to hold
	}
	wants := []want{
		{"ToTimestamp", []string{"IsTimestamp"}, nil},
		{"ToUnsignedInteger", []string{"IsUnsignedInteger"}, nil},
		{"ToInteger", []string{"IsInteger"}, []string{"IsUnsignedInteger"}},
		{"ToFloat", []string{"IsFloat"}, []string{"IsInteger", "IsUnsignedInteger"}},
		{"ToBoolean", []string{"IsBoolean"}, nil},
	}
	t := Val(Sym{ID: "txt:a"})
	for _, doc := range []*shape{text("a"), seq(text("a")), mapping(ctext("k"), text("a")), anchored("x", text("a"))} {
		leaf := func(st *State, v Val) Val {
			iv, _ := st.Resolve(v).(Iface)
			switch doc.kind {
			case "seq":
				if sl, ok := iv.V.(SliceOf); ok && sl.N == 1 {
					return st.Load(Addr{Base: sl.A.Base, Path: sl.A.Path + "[0]"}, types.NewInterfaceType(nil, nil))
				}
				return nil
			case "map":
				if x, found, known := st.MapLoad(iv.V, Str("k")); found && known {
					return x
				}
				return nil
			}
			return v
		}
		for _, s := range e.reach(doc, false, nil) {
			for _, r := range s.op("Any") {
				if r.panic != "" || r.err.Key() != "nil" {
					continue // decided under C02
				}
				rep.Ob("any-scalar")
				v := leaf(r.s.st, r.val)
				if v == nil {
					continue // decided by the subtree rule
				}
				v = r.s.st.Resolve(v)
				nul := nullText(r.s, e, kindCase{text: "a"}, t)
				if r.s.st.IsZero(v) {
					if nul != 1 {
						rep.Violate("any-scalar", construct, where, "in %s a text that is not null becomes nil", doc)
					}
					continue
				}
				if nul == 1 {
					rep.Violate("any-scalar", construct, where, "in %s a null text becomes %s", doc, v.Key())
					continue
				}
				iv, ok := v.(Iface)
				if !ok {
					rep.Violate("any-scalar", construct, where, "in %s the text becomes %s", doc, v.Key())
					continue
				}
				k := iv.V.Key()
				if k == t.Key() {
					for _, w := range wants {
						for _, p := range w.is {
							if r.s.fact(p, t) == 1 {
								rep.Violate("any-scalar", construct, where, "in %s a text recognised by %s stays a string", doc, p)
							} else if r.s.fact(p, t) == -1 && p != "IsInteger" && p != "IsUnsignedInteger" {
								rep.Violate("any-scalar", construct, where, "in %s a text becomes a string without asking %s", doc, p)
							}
						}
					}
					continue
				}
				matched := false
				for _, w := range wants {
					if !strings.HasPrefix(k, "$conv<"+w.conv+"("+t.Key()) {
						continue
					}
					matched = true
					if strings.Contains(k, ",") && !strings.HasSuffix(k, ",#64)>") {
						rep.Violate("any-scalar", construct, where, "in %s the text is converted with another size than 64: %s", doc, k)
					}
					one := false
					for _, p := range w.is {
						one = one || r.s.fact(p, t) == 1
					}
					if !one {
						rep.Violate("any-scalar", construct, where, "in %s the text is converted by %s without being recognised as such", doc, w.conv)
					}
					for _, p := range w.unless {
						if r.s.fact(p, t) != 0 {
							rep.Violate("any-scalar", construct, where, "in %s a text is converted by %s although %s may recognise it", doc, w.conv, p)
						}
					}
				}
				if !matched {
					rep.Violate("any-scalar", construct, where, "in %s the text becomes %s", doc, k)
				}
			}
		}
	}
}
