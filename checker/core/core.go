// Package core loads /repo, and holds what the rules share: the type-checked program, its
// SSA form, obligations, violations, known findings and evidence.
package core

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Mod = "github.com/KSpaceer/yamly"

type Ctx struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	Funcs []*ssa.Function // every function with source in the repository
	Rep   *Report
	Tier  string
}

type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Detail    string `json:"detail"`
}

func (v Violation) Key() string { return v.Rule + " " + v.Construct }

type Report struct {
	Property    string
	Violations  []Violation
	Obligations map[string]int // rule -> discharged or violated obligations
	Undecided   []string
	Analysed    map[string]int
	Notes       []string
	seen        map[string]bool
}

func NewReport(p string) *Report {
	return &Report{Property: p, Obligations: map[string]int{}, Analysed: map[string]int{}, seen: map[string]bool{}}
}

// Ob records one examined obligation.
func (r *Report) Ob(rule string) { r.Obligations[rule]++ }

func (r *Report) Count(what string, n int) { r.Analysed[what] += n }

func (r *Report) Undecide(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if !r.seen["u"+s] {
		r.seen["u"+s] = true
		r.Undecided = append(r.Undecided, s)
	}
}

func (r *Report) Violate(rule, construct, where, format string, args ...any) {
	v := Violation{Rule: rule, Construct: construct, Where: where, Detail: fmt.Sprintf(format, args...)}
	if r.seen[v.Key()] {
		return
	}
	r.seen[v.Key()] = true
	r.Violations = append(r.Violations, v)
}

// Floor demands at least n obligations of a rule (a rule that matches nothing proves nothing).
func (r *Report) Floor(rule string, n int) {
	if r.Obligations[rule] < n && len(r.Undecided) == 0 {
		r.Violate("floor", rule, "", "rule %s examined %d obligations, fewer than the %d confirmed by hand: the code it is about is gone", rule, r.Obligations[rule], n)
	}
}

func env(repo string, extra ...string) []string {
	e := os.Environ()
	e = append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	return append(e, extra...)
}

// Load type-checks every package of the repository and builds SSA.
func Load(repo string, rep *Report) (*Ctx, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  filepath.Join(repo, "test"),
		Fset: fset,
		Env:  env(repo),
	}
	pkgs, err := packages.Load(cfg, Mod+"/...")
	if err != nil {
		return nil, err
	}
	c := &Ctx{Repo: repo, Fset: fset, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, Rep: rep}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	c.Prog = prog
	for i, p := range pkgs {
		c.Pkgs[p.PkgPath] = p
		if spkgs[i] != nil {
			c.SSA[p.PkgPath] = spkgs[i]
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if c.InRepo(fn) {
			c.Funcs = append(c.Funcs, fn)
		}
	}
	sort.Slice(c.Funcs, func(i, j int) bool {
		a, b := c.Funcs[i], c.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	rep.Analysed["packages"] = len(pkgs)
	rep.Analysed["functions"] = len(c.Funcs)
	return c, nil
}

// InRepo: fn has source in the repository's non-test code.
func (c *Ctx) InRepo(fn *ssa.Function) bool {
	p := FuncPkg(fn)
	return p != nil && (p.Path() == Mod || strings.HasPrefix(p.Path(), Mod+"/"))
}

// FuncPkg is the package that declares fn (also for closures and instances).
func FuncPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pos := c.Fset.Position(p)
	rel, err := filepath.Rel(c.Repo, pos.Filename)
	if err != nil {
		rel = pos.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pos.Line)
}

// FuncName is a stable, readable name.
func FuncName(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, Mod+"/", "")
}

// Named finds a named type pkg.name.
func (c *Ctx) Named(pkg, name string) *types.Named {
	p := c.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method finds method m of *T or T.
func (c *Ctx) Method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := c.Prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := c.Prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
	}
	return nil
}

// Func finds a package-level function.
func (c *Ctx) Func(pkg, name string) *ssa.Function {
	p := c.SSA[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// FuncsOf lists the functions (with closures) whose source is in pkg.
func (c *Ctx) FuncsOf(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.Funcs {
		if p := FuncPkg(f); p != nil && p.Path() == pkg && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// Files of a package.
func (c *Ctx) Files(pkg string) []*ast.File {
	if p := c.Pkgs[pkg]; p != nil {
		return p.Syntax
	}
	return nil
}

// Evidence file content.
type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// Known findings: lines "finding: property=<id> key=<rule construct> :: text".
func LoadKnown(path string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		parts := strings.SplitN(l, " :: ", 2)
		if len(parts) != 2 {
			continue
		}
		m[strings.TrimSpace(parts[0])] = parts[1]
	}
	return m
}

func WriteJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

var Start = time.Now()

// Merge adds what another report found.
func (r *Report) Merge(o *Report) {
	for _, v := range o.Violations {
		if !r.seen[v.Key()] {
			r.seen[v.Key()] = true
			r.Violations = append(r.Violations, v)
		}
	}
	for k, n := range o.Obligations {
		r.Obligations[k] += n
	}
	for k, n := range o.Analysed {
		r.Analysed[k] += n
	}
	for _, u := range o.Undecided {
		r.Undecide("%s", u)
	}
	r.Notes = append(r.Notes, o.Notes...)
}

// Parallel runs jobs on copies of the context and merges their reports in order.
func (c *Ctx) Parallel(jobs []func(*Ctx)) {
	reps := make([]*Report, len(jobs))
	sem := make(chan struct{}, 8)
	done := make(chan any, len(jobs))
	for i, j := range jobs {
		reps[i] = NewReport(c.Rep.Property)
		cc := *c
		cc.Rep = reps[i]
		go func(j func(*Ctx)) {
			sem <- struct{}{}
			defer func() {
				r := recover()
				if r != nil && os.Getenv("VERIF_DEBUG") != "" {
					debug.PrintStack()
				}
				<-sem
				done <- r
			}()
			j(&cc)
		}(j)
	}
	var failed any
	for range jobs {
		if r := <-done; r != nil {
			failed = r
		}
	}
	for _, r := range reps {
		c.Rep.Merge(r)
	}
	if failed != nil {
		panic(failed)
	}
}
