package rules

import (
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

func init() {
	register("C27", &Rule{
		Run:     runC27,
		Explain: "Linear-use analysis of the nodes the parse functions deliver, on top of the parser typestate analysis: a node that was parsed successfully, whose tokens were taken and not given back by a rollback, must become part of what the calling function returns (an argument of a node constructor, an element of a gathered list, or the result) before the function succeeds or the same call is made again, and it must not be placed twice. Only parse functions whose node is used by some caller are content; separators, indentation and the like are not.",
	})
}

type lostNode struct {
	callee, in *ssa.Function
	where, why string
}

var sumRe = regexp.MustCompile(`node<sum:other@([^>]*)>`)

// trackedNode is the node delivered at a call site.
func (a *parserAn) trackedNode(c *Call, st *State, where string) Val {
	id := "node<sum:other@" + strings.NewReplacer("<", "(", ">", ")").Replace(c.Site) + ">"
	a.nodeKind[id] = "other"
	if a.siteOf == nil {
		a.siteOf = map[string]siteInfo{}
	}
	a.siteOf[id] = siteInfo{c.Fn, where}
	if has(strings.Split(st.TS["lv"], "|"), id) {
		a.lost = append(a.lost, lostNode{c.Fn, a.cur, where, "is called again although the node it delivered before has not been used"})
	}
	delete(st.TS, "used:"+id)
	st.TS["lv"] = strings.Trim(without(st.TS["lv"], id)+"|"+id, "|")
	v := Sym{ID: id, T: a.c.Named(astPkg, "Node")}
	st.SetNil(v, 2)
	return v
}

func without(list, id string) string {
	var out []string
	for _, x := range strings.Split(list, "|") {
		if x != id && x != "" {
			out = append(out, x)
		}
	}
	return strings.Join(out, "|")
}

func (a *parserAn) useNodes(st *State, v Val) { a.use(st, v, "") }

func (a *parserAn) use(st *State, v Val, where string) {
	if v == nil {
		return
	}
	k := st.Resolve(v).Key()
	if !strings.Contains(k, "node<sum:other@") {
		return
	}
	for _, id := range sumRe.FindAllString(k, -1) {
		si, ok := a.siteOf[id]
		if !ok {
			continue
		}
		if a.content[si.fn] == nil {
			a.content[si.fn] = map[*ssa.Function]bool{}
		}
		a.content[si.fn][a.cur] = true
		st.TS["lv"] = without(st.TS["lv"], id)
	}
}

type siteInfo struct {
	fn    *ssa.Function
	where string
}

// callUses: a node handed to a call that is not a mere question about it.
func (a *parserAn) callUses(c *Call, st *State) {
	if c.Name() == astPkg+".ValidNode" {
		return
	}
	if c.Common.IsInvoke() && c.Common.Method.Name() == "Type" || c.Fn != nil && c.Fn.Name() == "Type" {
		return // a question to the node
	}
	if c.Fn != nil {
		if a.prim[c.Fn] != "" {
			return
		}
		if p := core.FuncPkg(c.Fn); p != nil && p.Path() == parserPkg && !(a.isParse[c.Fn] && !a.inline[c.Fn]) || c.Fn.Synthetic != "" {
			return // inlined: judged inside
		}
	}
	for _, x := range c.Args {
		a.useNodes(st, x)
	}
}

func (a *parserAn) leftNodes(st *State, pos string) {
	for _, id := range strings.Split(st.TS["lv"], "|") {
		if si, ok := a.siteOf[id]; ok {
			a.lost = append(a.lost, lostNode{si.fn, a.cur, si.where, "is parsed, but its node is not part of what is returned at " + pos})
		}
	}
}

func runC27(c *core.Ctx) {
	rep := c.Rep
	a := newParserAn(c)
	if a == nil {
		rep.Undecide("the parser's types are not found")
		return
	}
	a.fixpoint(nil)
	a.track = true
	a.content = map[*ssa.Function]map[*ssa.Function]bool{}
	capped := map[*ssa.Function]string{}
	for _, fn := range a.fns {
		if a.inline[fn] {
			continue
		}
		a.uses = map[*ssa.Function]bool{}
		delete(a.capped, fn)
		a.analyse(fn)
		if why := a.capped[fn]; why != "" {
			capped[fn] = why
			rep.Undecide("%s: %s", fnName(fn), why)
		} else {
			rep.Ob("function")
		}
	}
	// content: the start function, every function whose node a content function uses, and
	// every function that makes its node of a content function's
	content := map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	for _, fn := range a.fns {
		for g := range a.callees(fn) {
			if g != fn {
				called[g] = true
			}
		}
	}
	for _, fn := range a.fns {
		if !called[fn] {
			content[fn] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for f, us := range a.content {
			for u := range us {
				if content[u] != content[f] {
					content[f], content[u], changed = true, true, true
				}
			}
		}
	}
	rep.Count("content functions", len(content))
	seen := map[string]bool{}
	sort.Slice(a.lost, func(i, j int) bool { return a.lost[i].where+a.lost[i].why < a.lost[j].where+a.lost[j].why })
	for _, l := range a.lost {
		if !content[l.callee] || !content[l.in] || capped[l.in] != "" {
			continue
		}
		k := fnName(l.in) + l.callee.Name()
		if seen[k] {
			continue
		}
		seen[k] = true
		rep.Violate("lost", fnName(l.in), l.where, "%s %s", l.callee.Name(), l.why)
	}
	for range content {
		rep.Ob("content")
	}
	rep.Floor("content", 20)
}
