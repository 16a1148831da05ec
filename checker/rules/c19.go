package rules

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"verif/checker/core"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

func init() {
	register("C19", &Rule{Run: runC19, Explain: "Constant propagation through the generator's source: package generator and the engines' generator parts are abstractly interpreted over SSA with the type to generate for given as a type-checker type (package reflect is modelled on go/types), which yields the text they emit as a constant; the text is parsed and type-checked together with the type's package and the loaded library packages.",
		Assume: []string{"package reflect describes types as go/types does", "fmt, strings, strconv, bytes, unicode and path functions on constants return what their documentation says", "the family of types (46 element types in 21 positions, 22 struct forms, 2 engines, up to 6 option sets) stands for all types: the generator's text depends only on the kind, name, package, methods and tags it asks reflect for"}})
}

type genOpts struct {
	engine                            string
	omitempty, disallow, ptr, inlined bool
	tags                              string
}

func (o genOpts) String() string {
	out := "engine " + o.engine
	for _, f := range []struct {
		on bool
		n  string
	}{{o.omitempty, "omitempty"}, {o.disallow, "disallow-unknown-fields"}, {o.ptr, "encode-pointer-receiver"}, {o.inlined, "inline-embedded"}, {o.tags != "", "build-tags"}} {
		if f.on {
			out += ", " + f.n
		}
	}
	return out
}

// generated is what the generator makes of a type.
type generated struct {
	text   string
	failed bool // an error was reported
	panics string
	ok     bool
	why    string
}

// gcase is a type to generate code for, under some options.
type gcase struct {
	name   string // of the type's shape
	target string
	def    string
	opts   genOpts
	elem   gelem
	pos    gpos

	decls string // of the target, when def is not all there is
	fails bool   // no code can be made for the type

	drv *ssa.Function
	res generated
}

func (g *gcase) decl() string {
	if g.decls != "" {
		return g.decls + "\n"
	}
	return "type " + g.target + " " + g.def + "\n"
}

// gelem is a type a value can have, whatever holds it.
type gelem struct {
	name, expr string
	key        bool   // may be a map key
	only       string // the engine it is for
	embeds     bool
}

// gpos is a place a value can be in.
type gpos struct{ name, format string }

const elemDecls = `package p
import (
	"time"
	"gopkg.in/yaml.v3"
	"github.com/KSpaceer/yamly"
	"example.test/lib"
	lib2 "example.test/other/lib"
	"example.test/deep/v2"
	"example.test/deep"
	lib3 "example.test/third/lib"
	mydecode "example.test/my/decode"
	myencode "example.test/my/encode"
	myyaml "example.test/my/yaml"
	myyamly "example.test/my/yamly"
	thing "example.test/go-thing.v1"
	"unsafe"
)
type Str string
type Num int16
type UNum uint8
type Flt float32
type Flag bool
type Blob []byte
type Digest [4]byte
type Names []string
type Dict map[string]int
type Rec struct { ID int ` + "`yaml:\"id\"`" + `; Next *Rec; Kids []Rec }
type Empty struct{}
type Own struct { X int }
func (*Own) UnmarshalYamly(yamly.Decoder) {}
func (Own) MarshalYamly(yamly.Inserter) {}
type OwnPtr struct { X int }
func (*OwnPtr) UnmarshalYamly(yamly.Decoder) {}
func (*OwnPtr) MarshalYamly(yamly.Inserter) {}
type OwnNum int
func (*OwnNum) UnmarshalYamly(yamly.Decoder) {}
func (OwnNum) MarshalYamly(yamly.Inserter) {}
type Txt struct { X int }
func (*Txt) UnmarshalText([]byte) error { return nil }
func (Txt) MarshalText() ([]byte, error) { return nil, nil }
type TxtNum int
func (*TxtNum) UnmarshalText([]byte) error { return nil }
func (*TxtNum) MarshalText() ([]byte, error) { return nil, nil }
type Yay struct { X int }
func (*Yay) UnmarshalYAML([]byte) error { return nil }
func (Yay) MarshalYAML() ([]byte, error) { return nil, nil }
type YayNum int
func (*YayNum) UnmarshalYAML([]byte) error { return nil }
func (*YayNum) MarshalYAML() ([]byte, error) { return nil, nil }
type Goy struct { X int }
func (*Goy) UnmarshalYAML(*yaml.Node) error { return nil }
func (Goy) MarshalYAML() (any, error) { return nil, nil }
type GoyNum int
func (*GoyNum) UnmarshalYAML(*yaml.Node) error { return nil }
func (*GoyNum) MarshalYAML() (any, error) { return nil, nil }
type GoyTxt string
func (*GoyTxt) UnmarshalYAML(*yaml.Node) error { return nil }
func (GoyTxt) MarshalYAML() (any, error) { return nil, nil }
func (*GoyTxt) UnmarshalText([]byte) error { return nil }
func (GoyTxt) MarshalText() ([]byte, error) { return nil, nil }
type Both interface { yamly.UnmarshalerYamly; yamly.MarshalerYamly }
var (
	_ time.Time
	_ lib.S
	_ lib2.S
	_ v2.S
	_ deep.V2S
	_ lib3.S
	_ mydecode.S
	_ myencode.S
	_ myyaml.S
	_ myyamly.S
	_ thing.S
	_ unsafe.Pointer
)
`

const libDecls = `package lib
type S struct { A int; b int; C string }
type Kind string
type Code uint16
`

const lib2Decls = `package lib
type S struct { Q bool }
type List []S
`

const lib3Decls = `package lib
type S struct { R []int }
type Kind bool
`

const myDecls = `package %s
type S struct { E int }
type L []S
`

const deepDecls = `package v2
type S struct { V int64 }
`

const shallowDecls = `package deep
type V2S struct { W int64 }
`

// gstructs are types whose fields, rather than whose elements, matter. A definition's target is T.
var gstructs = []struct{ name, decls string }{
	{"field names and options", "type T struct { A int `yaml:\"a\"`; B string `yaml:\"-\"`; C bool `yaml:\"c,omitempty\"`; D []int `yaml:\",omitempty\"`; e int; F *string `yaml:\"f-g\"`; G int `json:\"x\"`; H map[string]int `yaml:\"h,omitempty,flow\"` }"},
	{"names with quotes and escapes", "type T struct { A int `yaml:\"a\\\"b\"`; B int `yaml:\"back\\\\slash\"`; C int `yaml:\"100%d\"`; D int `yaml:\"a b\"` }"},
	{"fields named minus", "type T struct { A int `yaml:\"-,\"`; B string `yaml:\"-\"`; C int `yaml:\",omitempty\"` }"},
	{"names outside ASCII", "type T struct { Été int; B Élan `yaml:\"ключ\"` }\ntype Élan struct { X int }"},
	{"embedded struct", "type T struct { Base; Z int }\ntype Base struct { A int; B []string }"},
	{"embedded pointer", "type T struct { *Base; Z int }\ntype Base struct { A int; B []string }"},
	{"embedded struct with a name", "type T struct { Base `yaml:\"base\"`; Z int }\ntype Base struct { A int }"},
	{"embedded struct, inline", "type T struct { Base `yaml:\",inline\"`; Z int }\ntype Base struct { A int; Z string }"},
	{"unexported embedded struct", "type T struct { base; Z int }\ntype base struct { A int; b int }"},
	{"unexported embedded pointer", "type T struct { *base; Z int }\ntype base struct { A int; b int }"},
	{"embedded string", "type T struct { Str; Z int }"},
	{"embedded imported struct", "type T struct { lib.S; Z int }"},
	{"nested embedded structs", "type T struct { Mid; Z int }\ntype Mid struct { Base; M int }\ntype Base struct { A int }"},
	{"inline struct field", "type T struct { In Base `yaml:\",inline\"`; Z int }\ntype Base struct { A int; B string `yaml:\"bee\"` }"},
	{"inline pointer field", "type T struct { In *Base `yaml:\",inline\"`; Z int }\ntype Base struct { A int }"},
	{"mutually recursive structs", "type T struct { B *B1; Z int }\ntype B1 struct { Back *T; All []T; Own map[string]*B1 }"},
	{"two anonymous structs", "type T struct { A struct { X int }; B struct { X string }; C struct { X int }; D []struct { Y *struct { X bool } } }"},
	{"imported structs of one name", "type T struct { A lib.S; B lib2.S; C *v2.S; D deep.V2S }"},
	{"anonymous struct of imported types", "type T struct { A struct { K lib.Kind `yaml:\"k\"`; L lib2.List; time.Time } }"},
	{"anonymous struct with a backquote in a tag", "type T struct { A struct { X int \"yaml:\\\"a`b\\\"\"; Y *Rec `yaml:\"y\"` }; B []struct { Rec; Z int \"doc:\\\"`\\\"\" } }"},
	{"types of three packages of one name", "type T struct { A map[string]lib.S; B []lib2.S; C [2]lib3.S; D []lib3.Kind; E []lib.Kind; F []lib2.List }"},
	{"packages named like imported ones", "type T struct { A []mydecode.S; B []myencode.S; C []myyaml.S; D []myyamly.S; E []thing.S; F thing.L; G myyaml.L }"},
	{"types that give one function name", "type T struct { A AB; B aB; C A_B; D *a_B; E []AB1 }\ntype AB struct { X1 int }\ntype aB struct { X2 string }\ntype A_B struct { X3 bool }\ntype a_B struct { X4 float64 }\ntype AB1 struct { X5 uint }"},
	{"anonymous structs that differ in their tags", "type T struct { A struct { X int `yaml:\"a\"` }; B []struct { X int `yaml:\"b\"` }; C map[string]struct { X int `yaml:\"c\"` }; D struct { X int } }"},
	{"struct without fields", "type T struct {}"},
	{"struct with only unexported fields", "type T struct { a, b int }"},
	{"one type in many places", "type T struct { A Own1; B *Own1; C []Own1; D map[string]Own1; E [2]Own1 }\ntype Own1 struct { X int }"},
	{"type names that differ in case", "type T struct { A aB; B AB }\ntype aB struct { X int }\ntype AB struct { Y int }"},
}

var gunsupported = []struct{ name, expr string }{
	{"channel", "chan int"}, {"function", "func()"}, {"complex", "complex128"}, {"uintptr", "uintptr"}, {"unsafe pointer", "unsafe.Pointer"}, {"interface with other methods", "interface { Foo() }"},
}

var gelems = []gelem{
	{name: "string", expr: "string", key: true}, {name: "bool", expr: "bool", key: true}, {name: "int", expr: "int", key: true}, {name: "int8", expr: "int8", key: true},
	{name: "int16", expr: "int16", key: true}, {name: "int32", expr: "int32", key: true}, {name: "int64", expr: "int64", key: true}, {name: "uint", expr: "uint", key: true},
	{name: "uint8", expr: "uint8", key: true}, {name: "uint16", expr: "uint16", key: true}, {name: "uint32", expr: "uint32", key: true}, {name: "uint64", expr: "uint64", key: true},
	{name: "float32", expr: "float32", key: true}, {name: "float64", expr: "float64", key: true},
	{name: "named string", expr: "Str", key: true}, {name: "named integer", expr: "Num", key: true}, {name: "named unsigned", expr: "UNum", key: true}, {name: "named float", expr: "Flt"}, {name: "named bool", expr: "Flag"},
	{name: "byte slice", expr: "[]byte"}, {name: "named byte slice", expr: "Blob"}, {name: "byte array", expr: "[4]byte", key: true}, {name: "named byte array", expr: "Digest", key: true},
	{name: "named slice", expr: "Names"}, {name: "named map", expr: "Dict"},
	{name: "struct", expr: "Rec"}, {name: "empty struct", expr: "Empty", key: true}, {name: "anonymous struct", expr: "struct { X int; Y string `yaml:\"why\"` }"},
	{name: "any", expr: "any"}, {name: "time", expr: "time.Time"},
	{name: "yamly methods", expr: "Own"}, {name: "yamly pointer methods", expr: "OwnPtr"}, {name: "number with yamly methods", expr: "OwnNum", key: true},
	{name: "text methods", expr: "Txt", key: true}, {name: "number with text pointer methods", expr: "TxtNum", key: true},
	{name: "engine methods", expr: "Yay", only: "yayamls"}, {name: "number with engine pointer methods", expr: "YayNum", only: "yayamls", key: true},
	{name: "engine methods", expr: "Goy", only: "goyaml"}, {name: "number with engine pointer methods", expr: "GoyNum", only: "goyaml", key: true}, {name: "engine and text methods", expr: "GoyTxt", only: "goyaml", key: true},
	{name: "interface with yamly methods", expr: "Both"},
	{name: "imported struct", expr: "lib.S"}, {name: "imported string", expr: "lib.Kind", key: true}, {name: "second imported struct of that name", expr: "lib2.S"}, {name: "imported slice", expr: "lib2.List"}, {name: "struct of a versioned package", expr: "v2.S"},
}

var gposs = []gpos{
	{"value", "%s"}, {"pointer", "*%s"}, {"pointer to pointer", "**%s"}, {"slice", "[]%s"}, {"array", "[2]%s"}, {"map", "map[string]%s"}, {"map key", "map[%s]int"},
	{"pointer to slice", "*[]%s"}, {"pointer to array", "*[2]%s"}, {"pointer to map", "*map[string]%s"}, {"slice of slices", "[][]%s"}, {"slice of pointers", "[]*%s"},
	{"array of pointers", "[2]*%s"}, {"map of slices", "map[string][]%s"}, {"map of pointers", "map[string]*%s"}, {"slice of maps", "[]map[string]%s"},
	{"array of arrays", "[2][2]%s"}, {"map of maps", "map[string]map[string]%s"}, {"slice of arrays", "[][2]%s"}, {"array of slices", "[2][]%s"},
	{"anonymous struct", "struct { In %s }"},
}

func gcases(tier string) []*gcase {
	var out []*gcase
	n := 0
	add := func(name, def string, e gelem, p gpos, o genOpts) {
		n++
		out = append(out, &gcase{name: name, target: fmt.Sprintf("T%d", n), def: def, opts: o, elem: e, pos: p})
	}
	for _, eng := range []string{"yayamls", "goyaml"} {
		sets := []genOpts{{engine: eng}, {engine: eng, omitempty: true}, {engine: eng, ptr: true}}
		for _, e := range gelems {
			if e.only != "" && e.only != eng {
				continue
			}
			for _, p := range gposs {
				if p.name == "map key" && !e.key {
					continue
				}
				x := fmt.Sprintf(p.format, e.expr)
				for _, o := range sets {
					add(e.name+" as "+p.name, "struct { F "+x+"; Z int }", e, p, o)
					if o.omitempty || p.name == "pointer" || p.name == "pointer to pointer" || strings.HasPrefix(p.name, "pointer to") || p.name == "anonymous struct" {
						continue
					}
					if p.name != "value" || e.expr == strings.ToLower(e.expr) && e.expr != "any" && !strings.HasPrefix(e.expr, "struct") {
						add(e.name+" as "+p.name+", the type itself", x, e, p, o)
					}
				}
			}
		}
		for _, x := range gstructs {
			for _, o := range append(sets, genOpts{engine: eng, inlined: true}, genOpts{engine: eng, inlined: true, ptr: true, omitempty: true}, genOpts{engine: eng, disallow: true, tags: "some,tag"}) {
				add(x.name, "", gelem{}, gpos{}, o)
				g := out[len(out)-1]
				g.decls = rename(x.decls, n)
			}
		}
		for _, u := range gunsupported {
			for _, p := range []gpos{{"field", "%s"}, {"pointer", "*%s"}, {"slice", "[]%s"}, {"map", "map[string]%s"}, {"array", "[2]%s"}} {
				add(u.name+" as "+p.name, "struct { F "+fmt.Sprintf(p.format, u.expr)+" }", gelem{}, p, sets[0])
				out[len(out)-1].fails = true
			}
		}
	}
	for _, eng := range []string{"yayamls", "goyaml"} {
		for _, x := range []string{"map[string]int", "[]int", "*[]int", "any", "Dict"} {
			add("inline option on "+x, "struct { F "+x+" `yaml:\",inline\"` }", gelem{}, gpos{}, genOpts{engine: eng})
			out[len(out)-1].fails = true
		}
	}
	return out
}

var declared = regexp.MustCompile(`(?m)^type ([^ ]+) `)

// rename makes the declared types' names end in n, so that the declarations can stand beside others.
func rename(decls string, n int) string {
	for _, m := range declared.FindAllStringSubmatch(decls, -1) {
		decls = regexp.MustCompile(`(^|[^\pL\d_."])`+m[1]+`([^\pL\d_:]|$)`).ReplaceAllString(decls, fmt.Sprintf("${1}%s%d${2}", m[1], n))
	}
	return decls
}

func (s *stage) fork(c *core.Ctx) *stage {
	n := *s
	n.c = c
	n.types = typeutil.Map{}
	for i, t := range n.byID {
		n.types.Set(t, i)
	}
	n.byID = append([]types.Type(nil), s.byID...)
	return &n
}

// prepare declares the cases' types and the calls that generate code for them.
func (s *stage) prepare(cases []*gcase) error {
	for _, p := range [][2]string{{"example.test/lib", libDecls}, {"example.test/other/lib", lib2Decls}, {"example.test/deep/v2", deepDecls}, {"example.test/deep", shallowDecls}, {"example.test/third/lib", lib3Decls},
		{"example.test/my/decode", fmt.Sprintf(myDecls, "decode")}, {"example.test/my/encode", fmt.Sprintf(myDecls, "encode")}, {"example.test/my/yaml", fmt.Sprintf(myDecls, "yaml")}, {"example.test/my/yamly", fmt.Sprintf(myDecls, "yamly")}, {"example.test/go-thing.v1", fmt.Sprintf(myDecls, "thing")}} {
		if r, _ := s.add(p[0], p[1]); len(r.errs) > 0 {
			return fmt.Errorf("%s", r.errs[0])
		}
	}
	for _, ptr := range []bool{false, true} {
		path := "example.test/p"
		if ptr {
			path = "example.test/pp"
		}
		var decls, stubs, drv strings.Builder
		decls.WriteString(elemDecls)
		stubs.WriteString("package p\n")
		fmt.Fprintf(&drv, "package driver\nimport (\n\"bytes\"\ngenerator %q\npkg %q\n", genPkg, path)
		used := map[string]bool{}
		for _, g := range cases {
			if g.opts.ptr == ptr && !used[g.opts.engine] {
				used[g.opts.engine] = true
				fmt.Fprintf(&drv, "%s %q\n", g.opts.engine, core.Mod+"/engines/"+g.opts.engine)
			}
		}
		fmt.Fprintln(&drv, ")")
		n := 0
		for _, g := range cases {
			if g.opts.ptr != ptr {
				continue
			}
			n++
			decls.WriteString(g.decl())
			recv := g.target
			if ptr {
				recv = "*" + recv
			}
			fmt.Fprintf(&stubs, "func (%s) MarshalYAML() ([]byte, error) { return nil, nil }\nfunc (*%s) UnmarshalYAML([]byte) error { return nil }\ntype Exporter_yamly_%s *%s\n", recv, g.target, g.target, g.target)
			o := g.opts
			fmt.Fprintf(&drv, `func Main_%s() (string, error) {
	var out bytes.Buffer
	g := generator.New("out.go")
	g.SetPkgName("p")
	g.SetPkgPath(%q)
	g.SetEngineGenerator(%s.Generator)
	g.SetBuildTags(%q)
	g.SetOmitempty(%t)
	g.SetDisallowUnknownFields(%t)
	g.SetEncodePointerReceiver(%t)
	g.SetInlineEmbedded(%t)
	g.AddType(pkg.Exporter_yamly_%s(nil))
	err := g.Generate(&out)
	return out.String(), err
}
`, g.target, path, o.engine, o.tags, o.omitempty, o.disallow, o.ptr, o.inlined, g.target)
		}
		if n == 0 {
			continue
		}
		if r, _ := s.add(path, decls.String(), stubs.String()); len(r.errs) > 0 {
			return fmt.Errorf("%s", r.errs[0])
		}
		d, sp := s.add(strings.Replace(path, "/p", "/driver", 1), drv.String())
		if len(d.errs) > 0 {
			return fmt.Errorf("%s", d.errs[0])
		}
		for _, g := range cases {
			if g.opts.ptr == ptr {
				g.drv = sp.Func("Main_" + g.target)
			}
		}
	}
	s.state()
	return nil
}

func (s *stage) generate(g *gcase) generated {
	s.why = ""
	in := s.interp()
	outs := in.Run(g.drv, nil, s.state())
	if in.Capped {
		s.give("%s", in.CapWhy)
	}
	if s.why != "" || len(outs) != 1 {
		s.give("%d outcomes", len(outs))
		return generated{why: s.why}
	}
	if outs[0].Panic {
		return generated{ok: true, panics: outs[0].Note + " at " + s.c.Pos(outs[0].Pos)}
	}
	text, ok := s.str(outs[0].St, outs[0].Rets[0])
	n := outs[0].St.Nilness(outs[0].Rets[1])
	if !ok || n == 0 {
		return generated{why: "the outcome is not known"}
	}
	return generated{text: text, failed: n == 2, ok: true}
}

func (g *gcase) path() string {
	if g.opts.ptr {
		return "example.test/pp"
	}
	return "example.test/p"
}

func runC19(c *core.Ctx) {
	s := newStage(c)
	cases := gcases(c.Tier)
	if err := s.prepare(cases); err != nil {
		c.Rep.Undecide("the types to generate for do not compile: %v", err)
		return
	}
	const chunk = 16
	var jobs []func(*core.Ctx)
	for i := 0; i < len(cases); i += chunk {
		part := cases[i:min(i+chunk, len(cases))]
		jobs = append(jobs, func(c *core.Ctx) {
			w := s.fork(c)
			for _, g := range part {
				w.compiles(g)
			}
		})
	}
	c.Parallel(jobs)
	c.Rep.Floor("compiles", 8000)
	c.Rep.Floor("methods", 8000)
	c.Rep.Floor("refuses", 70)
	c.Rep.Floor("deterministic", 700)
}

func (s *stage) compiles(g *gcase) {
	r := s.c.Rep
	g.res = s.generate(g)
	what := g.name + " (" + g.opts.String() + ")"
	if !g.res.ok {
		r.Undecide("%s: %s", what, g.res.why)
		return
	}
	r.Ob("compiles")
	if g.res.panics != "" {
		r.Violate("compiles", what, "", "the generator panics: %s", g.res.panics)
		return
	}
	if g.fails {
		r.Ob("refuses")
		if !g.res.failed {
			r.Violate("refuses", what, "", "the generator makes code for a type it cannot handle, and reports no error")
		}
		return
	}
	if g.res.failed {
		r.Violate("compiles", what, "", "the generator refuses the type")
		return
	}
	k := s.check(g.path(), elemDecls+g.decl(), g.res.text)
	if len(k.errs) == 0 {
		r.Ob("methods")
		if m := s.lacks(k.pkg, g); m != "" {
			r.Violate("methods", what, "", "the generated file gives the type no %s", m)
		}
	}
	if g.pos.name == "" || g.pos.name == "map key" || g.pos.name == "value" && !g.opts.omitempty {
		s.order = 1
		again := s.generate(g)
		s.order = 0
		if again.ok {
			r.Ob("deterministic")
			if again.text != g.res.text || again.failed {
				r.Violate("deterministic", what, "", "the generated file depends on the order of a map: %s", firstDiff(g.res.text, again.text))
			}
		} else {
			r.Undecide("%s, other map order: %s", what, again.why)
		}
	}
	if len(k.errs) > 0 {
		sort.Strings(k.errs)
		r.Violate("compiles", what, "", "the generated file does not compile: %s", k.errs[0])
		if os.Getenv("VERIF_DEBUG") == g.target {
			fmt.Println(g.res.text)
		}
	}
}

// lacks names a method the generated file has to give the type and does not.
func (s *stage) lacks(p *types.Package, g *gcase) string {
	obj, ok := p.Scope().Lookup(g.target).(*types.TypeName)
	if !ok {
		return "declaration"
	}
	enginePkg := core.Mod + "/engines/yayamls"
	if g.opts.engine == "goyaml" {
		enginePkg = "gopkg.in/yaml.v3"
	}
	ptr := types.NewPointer(obj.Type())
	var enc types.Type = obj.Type()
	if g.opts.ptr {
		enc = ptr
	}
	for _, x := range []struct {
		pkg, iface string
		t          types.Type
	}{{core.Mod, "UnmarshalerYamly", ptr}, {core.Mod, "MarshalerYamly", enc}, {enginePkg, "Unmarshaler", ptr}, {enginePkg, "Marshaler", enc}} {
		q := s.deps[x.pkg]
		if q == nil {
			continue
		}
		i, ok := q.Scope().Lookup(x.iface).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := i.Type().Underlying().(*types.Interface)
		if ok && !types.Implements(x.t, it) {
			return "methods of " + q.Name() + "." + x.iface
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("line %d is %q in one", i+1, x[i])
		}
	}
	return "one has more lines"
}
