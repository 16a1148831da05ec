package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
)

func init() {
	register("C09", &Rule{
		Run: func(c *core.Ctx) {
			runParser(c, "balance", "backtrack", "buffer", "rawmode", "indentation", "written-twice")
		},
		Explain: "Modular typestate analysis of the parser over SSA: each parse function is interpreted on its own with summaries of the parse functions it calls (fixpoint). On every path: checkpoints it sets are committed or rolled back exactly once before it returns; after a callee failed having consumed tokens nothing more is parsed, consumed or accepted before a rollback; a text buffer is back at its length of the checkpoint before it is used again; the lexer's raw mode and the caller's indentation are as on entry; no token's text is written twice.",
		Assume:  []string{"the checkpoint operations of the token source behave as decided under C26"},
	})
	register("C24", &Rule{
		Run:     func(c *core.Ctx) { runParser(c, "progress", "left-recursion") },
		Explain: "From the same modular analysis: every loop of the parser consumes a token (net of rollbacks) between two visits of its head, and no cycle of parse functions calls itself without a token consumed in between.",
		Assume:  []string{"consuming the end-of-file token counts as progress"},
	})
}

func runParser(c *core.Ctx, rules ...string) {
	rep := c.Rep
	a := newParserAn(c)
	if a == nil {
		rep.Undecide("the parser's types are not found")
		return
	}
	viol := a.run()
	if has(rules, "balance") {
		a.checkpointOps(rep)
	}
	if has(rules, "left-recursion") {
		viol = append(viol, a.leftRecursion()...)
	}
	n := 0
	for _, fn := range a.fns {
		if a.inline[fn] {
			continue
		}
		n++
		if why := a.capped[fn]; why != "" {
			rep.Undecide("%s: %s", fnName(fn), why)
			continue
		}
		for _, r := range rules {
			rep.Ob(r)
		}
	}
	for _, v := range viol {
		if has(rules, v.rule) {
			rep.Violate(v.rule, v.fn, v.where, "%s", v.why)
		}
	}
	rep.Count("parse functions", n)
	rep.Count("paths", a.paths)
	rep.Count("loops", len(a.loops))
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// leftRecursion: a cycle of parse functions that call each other before any token is consumed.
func (a *parserAn) leftRecursion() []pviol {
	var out []pviol
	state := map[*ssa.Function]int{}
	var path []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		state[f] = 1
		path = append(path, f)
		for _, g := range a.fns {
			if !a.leftCalls[f][g] {
				continue
			}
			switch state[g] {
			case 0:
				visit(g)
			case 1:
				var names []string
				on := false
				for _, x := range path {
					if x == g {
						on = true
					}
					if on {
						names = append(names, x.Name())
					}
				}
				out = append(out, pviol{"left-recursion", fnName(g), a.c.Pos(g.Pos()), "calls itself without consuming a token: " + strings.Join(append(names, g.Name()), " -> ")})
			}
		}
		path = path[:len(path)-1]
		state[f] = 2
	}
	for _, f := range a.fns {
		if state[f] == 0 && !a.inline[f] {
			visit(f)
		}
	}
	return out
}
