// Command checker decides one property of KSpaceer/yamly by static analysis of /repo's
// current source.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"

	"verif/checker/absint"
	"verif/checker/core"
	"verif/checker/rules"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "print notes")
	flag.Parse()
	debug.SetGCPercent(400)
	go watch(*tier)
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: checker [flags] PROPERTY")
		os.Exit(2)
	}
	id := flag.Arg(0)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		run(id, *repo, *verif, *tier, *verbose)
		return
	}
	if id == "all" {
		code := 0
		for _, k := range rules.IDs() {
			if c := run(k, *repo, *verif, *tier, *verbose); c > code {
				code = c
			}
		}
		os.Exit(code)
	}
	os.Exit(run(id, *repo, *verif, *tier, *verbose))
}

// watch stops the interpretations before memory or the time of a check runs out.
func watch(tier string) {
	limit := 400 * time.Second
	if tier != "quick" {
		limit = 800 * time.Second
	}
	start := time.Now()
	for range time.Tick(100 * time.Millisecond) {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 14<<30 || time.Since(start) > limit {
			absint.Abort.Store(true)
		}
	}
}

var cached *core.Ctx

func run(id, repo, verif, tier string, verbose bool) (code int) {
	start := time.Now()
	rule, ok := rules.Registry[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	rep := core.NewReport(id)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					debug.PrintStack()
				}
				rep.Undecide("the analysis could not interpret the source: %v", r)
			}
		}()
		c := cached
		if c == nil {
			var err error
			c, err = core.Load(repo, rep)
			if err != nil {
				rep.Violate("analysis-failed", "load", "", "%v", err)
				return
			}
			cached = c
		} else {
			rep.Analysed["packages"] = len(c.Pkgs)
			rep.Analysed["functions"] = len(c.Funcs)
		}
		c.Rep = rep
		c.Tier = tier
		rule.Run(c)
	}()

	known := core.LoadKnown(filepath.Join(verif, "known_findings.txt"))
	var fresh []core.Violation
	var seenKnown []string
	for _, v := range rep.Violations {
		if txt, ok := known["property="+id+" key="+v.Key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, txt)
			seenKnown = append(seenKnown, v.Key())
			continue
		}
		fresh = append(fresh, v)
	}
	obl := 0
	var rl []string
	for k, n := range rep.Obligations {
		obl += n
		rl = append(rl, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(rl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":    rule.Explain,
		"obligations":    obl,
		"discharged":     obl - len(rep.Violations),
		"rules":          rl,
		"analysed":       rep.Analysed,
		"undecided":      rep.Undecided,
		"known_findings": seenKnown,
		"checker_cmd":    "./check.sh " + id,
		"trusted_base":   []string{"go/types", "golang.org/x/tools/go/ssa", "verif/checker/absint"},
	}
	if len(fresh) > 0 {
		cov["violations"] = fresh
	}
	if len(rep.Notes) > 0 {
		cov["notes"] = rep.Notes
	}
	ev := core.Evidence{Property: id, Tier: tier, Seed: seed, Level: rule.Level, Coverage: cov,
		Assumptions: rule.Assume, WallS: time.Since(start).Seconds(), Violations: len(fresh)}
	if err := core.WriteJSON(filepath.Join(verif, "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations over %d functions, %d undecided, %d violation(s), %d known\n", id, obl, rep.Analysed["functions"], len(rep.Undecided), len(fresh), len(seenKnown))
	if verbose {
		for _, n := range rl {
			fmt.Println("  rule", n)
		}
		for _, n := range rep.Notes {
			fmt.Println("  note", n)
		}
		for _, n := range rep.Undecided {
			fmt.Println("  undecided", n)
		}
	}
	if len(fresh) == 0 {
		return 0
	}
	replay := filepath.Join(verif, "evidence", id+".violation.txt")
	var txt string
	for _, v := range fresh {
		line := fmt.Sprintf("[%s] %s (%s): %s", v.Rule, v.Construct, v.Where, v.Detail)
		fmt.Println(line)
		txt += line + "\n"
	}
	_ = os.WriteFile(replay, []byte(txt), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}
