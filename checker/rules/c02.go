package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	. "verif/checker/absint"
	"verif/checker/core"
)

func init() {
	register("C02", &Rule{
		Run: runC02,
		Explain: "For each decoder implementation: the abstract transfer function of every typed read (path-sensitive abstract interpretation over SSA; node kinds and document structure known, scalar texts symbolic, schema predicates kept as boolean facts of the text, conversions forked into success and failure) " +
			"is computed for every node kind, quoting, property and position (root, sequence item, mapping value, second item, behind an alias) and both error modes, and each abstract exit is compared with the contract: accepted iff the schema recognises the text and the conversion succeeds, the value is that conversion of that node's text with the requested bit size, otherwise the zero value and a recorded (denial) error.",
		Assume: []string{"what the shared schema's Is*/To* functions accept is decided under C07", "documents up to the nesting listed; node handling does not depend on depth beyond the parent"},
	})
}

type scalarOp struct {
	op    string
	preds []string
	conv  string
	bits  bool
}

var scalarOps = []scalarOp{
	{"Integer", []string{"IsInteger"}, "ToInteger", true},
	{"Unsigned", []string{"IsInteger", "IsUnsignedInteger"}, "ToUnsignedInteger", true},
	{"Float", []string{"IsFloat"}, "ToFloat", true},
	{"Boolean", []string{"IsBoolean"}, "ToBoolean", false},
	{"Timestamp", []string{"IsTimestamp"}, "ToTimestamp", false},
	{"String", nil, "", false},
}

// place puts shape x at a position and lists the operations that lead to it.
type place struct {
	name string
	doc  func(x *shape) *shape
	pre  []string
}

var places = []place{
	{"root", func(x *shape) *shape { return x }, nil},
	{"item", func(x *shape) *shape { return seq(x, text("z")) }, []string{"Sequence"}},
	{"second item", func(x *shape) *shape { return seq(text("y"), x) }, []string{"Sequence", "Skip"}},
	{"value", func(x *shape) *shape { return mapping(text("k"), x, text("k2"), text("z")) }, []string{"Mapping", "String"}},
	{"nested item", func(x *shape) *shape { return mapping(text("k"), seq(seq(x))) }, []string{"Mapping", "String", "Sequence", "Sequence"}},
	{"after nested", func(x *shape) *shape { return seq(seq(text("y")), x) }, []string{"Sequence", "Sequence", "Skip"}},
	{"after skipped", func(x *shape) *shape { return seq(mapping(text("y"), text("w")), x) }, []string{"Sequence", "Skip"}},
}

// reach applies the leading operations, following the paths without errors.
func (e *engine) reach(s *shape, multi bool, pre []string) []*session {
	key := fmt.Sprint(s, multi, pre)
	if e.reached == nil {
		e.reached = map[string][]*session{}
	}
	if r, ok := e.reached[key]; ok {
		return r
	}
	r := e.reach1(s, multi, pre)
	e.reached[key] = r
	return r
}

func (e *engine) reach1(s *shape, multi bool, pre []string) []*session {
	cur := e.open(s, multi)
	for _, p := range pre {
		var next []*session
		for _, c := range cur {
			if c == nil {
				continue
			}
			for _, r := range c.op(p) {
				if r.panic == "" && r.err != nil && r.err.Key() == "nil" {
					next = append(next, r.s)
				}
			}
		}
		cur = next
	}
	return cur
}

type kindCase struct {
	label string
	x     func() *shape
	text  string // the scalar's text name, "" when no scalar
	q     int
}

func kindCases() []kindCase {
	return []kindCase{
		{"scalar", func() *shape { return text("a") }, "a", 0},
		{"plain scalar", func() *shape { return &shape{kind: "text", name: "a", q: 1} }, "a", 1},
		{"single-quoted scalar", func() *shape { return &shape{kind: "text", name: "a", q: 2} }, "a", 2},
		{"double-quoted scalar", func() *shape { return quoted("a") }, "a", 3},
		{"anchored scalar", func() *shape { return anchored("x", text("a")) }, "a", 0},
		{"tagged scalar", func() *shape { return tagged(text("a")) }, "a", 0},
		{"null", null, "", 0},
		{"sequence", func() *shape { return seq(text("a"), text("b")) }, "", 0},
		{"empty sequence", func() *shape { return seq() }, "", 0},
		{"mapping", func() *shape { return mapping(text("a"), text("b")) }, "", 0},
		{"empty mapping", func() *shape { return mapping() }, "", 0},
		{"anchored sequence", func() *shape { return anchored("x", seq(text("a"))) }, "", 0},
		{"tagged mapping", func() *shape { return tagged(mapping(text("a"), text("b"))) }, "", 0},
		{"anchored null", func() *shape { return anchored("x", null()) }, "", 0},
	}
}

func runC02(c *core.Ctx) {
	var jobs []func(*core.Ctx)
	for _, e := range engines(c) {
		for _, k := range kindCases() {
			e, k := e, k
			jobs = append(jobs, func(c *core.Ctx) {
				e := e.copy(c)
				for _, p := range places {
					for _, multi := range []bool{false, true} {
						for _, op := range scalarOps {
							e.scalarRead(op, k, p, p.doc(k.x()), multi, "")
						}
					}
				}
				e.undecided()
			})
		}
	}
	for _, e := range engines(c) {
		e := e
		jobs = append(jobs, func(c *core.Ctx) {
			e := e.copy(c)
			// through an alias: the read sees the anchored node
			for _, op := range scalarOps {
				for _, k := range kindCases() {
					x := k.x()
					if x.anc != "" || x.tag {
						continue
					}
					doc := seq(anchored("al", x), alias("al", nil))
					e.scalarRead(op, k, place{name: "behind an alias", pre: []string{"Sequence", "Skip"}}, doc, false, "alias")
				}
				// an alias nothing defines
				if e.isAST {
					doc := seq(alias("undefined", nil))
					e.unreadable(op.op, op.bits, doc, []string{"Sequence"}, "an alias without anchor")
				}
			}
			// past the end
			for _, op := range scalarOps {
				e.unreadable(op.op, op.bits, text("a"), []string{"Skip"}, "the end of the document")
				e.unreadable(op.op, op.bits, seq(text("a")), []string{"Sequence", "Skip"}, "the end of the document")
			}
			for _, op := range []string{"Sequence", "Mapping", "Any", "Raw", "Node", "Skip", "TryNull"} {
				if op == "Node" && e.c.Method(e.r, op) == nil {
					continue
				}
				e.unreadable(op, false, text("a"), []string{"Skip"}, "the end of the document")
				e.unreadable(op, false, mapping(text("a"), text("b")), []string{"Mapping", "String", "Skip"}, "the end of the document")
			}
			e.rawFailures()
			e.undecided()
		}, func(c *core.Ctx) {
			e := e.copy(c)
			e.collectionReads()
			e.undecided()
		})
	}
	c.Parallel(jobs)
	c.Rep.Floor("scalar-read", 2000)
	c.Rep.Floor("collection-read", 100)
}

func (e *engine) bitArg(bits bool) []Val {
	if !bits {
		return nil
	}
	return []Val{Sym{ID: "bitSize", T: types.Typ[types.Int]}}
}

func (e *engine) denied(err Val) bool {
	return e.deny != nil && strings.Contains(err.Key(), "iface("+e.deny.String()+":")
}

func (e *engine) scalarRead(op scalarOp, k kindCase, p place, doc *shape, multi bool, via string) {
	rep := e.c.Rep
	construct := fmt.Sprintf("%s.%s", shortType(e.r), op.op)
	bad := func(r result, format string, args ...any) {
		rep.Violate("scalar-read", construct, e.c.Pos(e.c.Method(e.r, op.op).Pos()), "on a %s (%s; operations %s): %s", k.label, p.name, strings.Join(r.s.log, ", "), fmt.Sprintf(format, args...))
	}
	ss := e.reach(doc, multi, p.pre)
	if len(ss) == 0 {
		if e.capped == "" {
			rep.Violate("scalar-read", construct, "", "the position %q of %s cannot be reached without error", p.name, doc)
		}
		return
	}
	for _, s := range ss {
		if s == nil {
			rep.Violate("scalar-read", construct, "", "constructing the decoder panics on %s", doc)
			return
		}
		for _, r := range s.op(op.op, e.bitArg(op.bits)...) {
			rep.Ob("scalar-read")
			if r.panic != "" {
				bad(r, "panics: %s", r.panic)
				continue
			}
			failed := r.err.Key() != "nil"
			zero := r.s.st.IsZero(r.val)
			if failed && !zero {
				bad(r, "records an error and still returns %s", r.val.Key())
				continue
			}
			if k.text == "" {
				// null in goyaml is a scalar whose tag is null; its text may still be numeric
				if k.label == "null" || k.label == "anchored null" {
					if !e.isAST && op.op != "String" {
						continue
					}
				}
				if !failed {
					bad(r, "no error is recorded (returns %s)", r.val.Key())
				} else if !e.denied(r.err) {
					bad(r, "the recorded error does not mark a denial: %s", r.err.Key())
				}
				continue
			}
			t := Val(Sym{ID: "txt:" + k.text})
			if op.op == "String" {
				isNull := nullText(r.s, e, k, t)
				if !failed {
					if r.val.Key() != t.Key() {
						bad(r, "returns %s instead of the node's text", r.val.Key())
					}
					if isNull == 1 && k.q <= 1 && via == "" && k.label != "anchored scalar" && k.label != "tagged scalar" {
						bad(r, "accepts a text that is null")
					}
				} else {
					if isNull != 1 || k.q > 1 && e.isAST {
						bad(r, "is denied although the text is not null (%s)", r.err.Key())
					} else if !e.denied(r.err) {
						bad(r, "the recorded error does not mark a denial: %s", r.err.Key())
					}
				}
				continue
			}
			accepted, known := false, true
			for _, pr := range op.preds {
				switch r.s.fact(pr, t) {
				case 1:
					accepted = true
				case -1:
					known = false
				}
			}
			conv := r.s.st.TS["conv"]
			if !failed {
				if !accepted {
					bad(r, "accepts a text the schema does not recognise as %s", op.op)
					continue
				}
				want := op.conv + "(" + t.Key()
				if op.bits {
					want += ",$bitSize"
				}
				want = "$conv<" + want + ")>"
				if r.val.Key() != want {
					bad(r, "returns %s instead of the converted text (%s)", r.val.Key(), want)
				}
				if conv == "err" {
					bad(r, "a failed conversion is not reported")
				}
				continue
			}
			switch {
			case accepted && conv == "err":
				if !strings.Contains(r.err.Key(), "converr<") {
					bad(r, "the conversion's error is replaced by %s", r.err.Key())
				}
			case accepted:
				bad(r, "is rejected (%s) although the schema recognises the text and the conversion succeeds", r.err.Key())
			case !known && !anyFact(r.s, op.preds, t):
				bad(r, "is rejected without consulting the schema")
			case !e.denied(r.err):
				bad(r, "the recorded error does not mark a denial: %s", r.err.Key())
			}
		}
	}
}

func anyFact(s *session, preds []string, t Val) bool {
	for _, p := range preds {
		if s.fact(p, t) != -1 {
			return true
		}
	}
	return false
}

// unreadable: nothing can be read, so an error is recorded and the result is empty.
func (e *engine) unreadable(op string, bits bool, doc *shape, pre []string, why string) {
	rep := e.c.Rep
	construct := fmt.Sprintf("%s.%s", shortType(e.r), op)
	where := e.c.Pos(e.c.Method(e.r, op).Pos())
	ss := e.reach(doc, false, pre)
	for _, s := range ss {
		if s == nil {
			continue
		}
		for _, r := range s.op(op, e.bitArg(bits)...) {
			rep.Ob("unreadable")
			switch {
			case r.panic != "":
				rep.Violate("unreadable", construct, where, "panics at %s: %s", why, r.panic)
			case r.err.Key() == "nil":
				rep.Violate("unreadable", construct, where, "records no error at %s (operations %s)", why, strings.Join(r.s.log, ", "))
			case r.val != nil && !e.emptyVal(r):
				rep.Violate("unreadable", construct, where, "returns %s at %s", r.val.Key(), why)
			}
		}
	}
}

// emptyVal: zero value, or a collection state without items.
func (e *engine) emptyVal(r result) bool {
	if r.val == nil {
		return true
	}
	if _, ok := r.val.(Iface); ok {
		a, b := r.s.query(r.val, "Size"), r.s.query(r.val, "HasUnprocessedItems")
		if a != nil && b != nil {
			return r.s.st.IsZero(a) && r.s.st.IsZero(b)
		}
	}
	return r.s.st.IsZero(r.val)
}

// collectionReads: Sequence/Mapping accept exactly their kind, TryNull exactly null.
func (e *engine) collectionReads() {
	rep := e.c.Rep
	for _, k := range kindCases() {
		for _, p := range places {
			for _, multi := range []bool{false, true} {
				for _, op := range []string{"Sequence", "Mapping", "TryNull"} {
					construct := fmt.Sprintf("%s.%s", shortType(e.r), op)
					where := e.c.Pos(e.c.Method(e.r, op).Pos())
					x := k.x()
					for _, s := range e.reach(p.doc(x), multi, p.pre) {
						if s == nil {
							continue
						}
						for _, r := range s.op(op) {
							rep.Ob("collection-read")
							ctx := fmt.Sprintf("on a %s (%s): ", k.label, p.name)
							if r.panic != "" {
								rep.Violate("collection-read", construct, where, ctx+"panics: %s", r.panic)
								continue
							}
							failed := r.err.Key() != "nil"
							if op == "TryNull" {
								want := 0
								switch x.kind {
								case "null":
									want = 1
								case "text":
									want = nullText(r.s, e, k, Sym{ID: "txt:" + k.text})
									if e.isAST && k.q > 1 {
										want = 0
									}
								}
								if failed {
									rep.Violate("collection-read", construct, where, ctx+"asking for null records an error")
									continue
								}
								got := r.s.st.Truth(r.val)
								if want != -1 && got != want {
									rep.Violate("collection-read", construct, where, ctx+"TryNull answers %d, expected %d", got, want)
								}
								continue
							}
							match := op == "Sequence" && x.kind == "seq" || op == "Mapping" && x.kind == "map"
							if match {
								if failed {
									rep.Violate("collection-read", construct, where, ctx+"is denied (%s)", r.err.Key())
									continue
								}
								has := r.s.query(r.val, "HasUnprocessedItems")
								if has == nil || r.s.st.Truth(has) != b2i(len(x.kids) > 0) {
									rep.Violate("collection-read", construct, where, ctx+"the state does not tell whether items remain (%d children)", len(x.kids))
								}
								size := r.s.query(r.val, "Size")
								if size == nil {
									rep.Violate("collection-read", construct, where, ctx+"the state has no known size")
									continue
								}
								n := len(x.kids)
								if c, ok := size.(Const); ok {
									i, _ := constant.Int64Val(c.V)
									if x.kind == "seq" && int(i) != n || x.kind == "map" && int(i) != n && int(i) != n/2 {
										rep.Violate("collection-read", construct, where, ctx+"the state's size is %d, the node has %d children", i, n)
									}
								} else {
									rep.Violate("collection-read", construct, where, ctx+"the state's size is %s", size.Key())
								}
								continue
							}
							if !failed || !e.denied(r.err) {
								rep.Violate("collection-read", construct, where, ctx+"is not denied (error %s)", r.err.Key())
							} else if !e.emptyVal(r) {
								rep.Violate("collection-read", construct, where, ctx+"is denied but the state claims items")
							}
						}
					}
				}
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// rawFailures: a failed conversion or serialisation in Any/Raw is recorded and yields nil.
func (e *engine) rawFailures() {
	rep := e.c.Rep
	for _, op := range []string{"Any", "Raw"} {
		construct := fmt.Sprintf("%s.%s", shortType(e.r), op)
		where := e.c.Pos(e.c.Method(e.r, op).Pos())
		for _, doc := range []*shape{text("a"), seq(text("a")), mapping(text("a"), text("b"))} {
			for _, multi := range []bool{false, true} {
				for _, s := range e.reach(doc, multi, nil) {
					for _, r := range s.op(op) {
						rep.Ob("conversion-failure")
						if r.panic != "" {
							rep.Violate("conversion-failure", construct, where, "panics on %s: %s", doc, r.panic)
							continue
						}
						if r.s.st.TS["conv"] == "err" {
							if r.err.Key() == "nil" {
								rep.Violate("conversion-failure", construct, where, "a failed conversion in %s is not recorded", doc)
							} else if !r.s.st.IsZero(r.val) {
								rep.Violate("conversion-failure", construct, where, "a failed conversion in %s yields %s", doc, r.val.Key())
							}
						} else if r.err.Key() != "nil" {
							rep.Violate("conversion-failure", construct, where, "%s is rejected although every conversion succeeds: %s", doc, r.err.Key())
						}
					}
				}
			}
		}
	}
}
