package rules

import (
	"fmt"
	"go/build"
	"go/constant"
	"go/format"
	"go/types"
	"io"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/checker/absint"
	"verif/checker/core"
)

const cmdPkg = core.Mod + "/cmd/yamlygen"

func init() {
	register("C22", &Rule{Run: runC22, Explain: "cmd/yamlygen is abstractly interpreted from main with its flags as constants, over an abstract file system (os, os/exec and flag are modelled; one call may fail). When it starts `go run`, the program it has written is type-checked with the stub file it has written, brought into SSA form and interpreted in turn, down to the text it prints. The file left must be, formatted, the text the generator library gives for the type under exactly the options of the command line, must lie where it is to lie, must be built exactly under the tags given, and no other file may remain; wrong uses and failures must end with a status other than 0.",
		Assume: []string{"os, os/exec, flag, go/format, go/parser and the go command (env GOMOD, run) behave as documented", "the directory holds one package besides its tests"}})
}

// cliCase is one use of the command.
type cliCase struct {
	name   string
	typ    string
	flags  map[string]any
	args   []string
	gofile string
	fault  string // the call that fails
	bad    bool   // a wrong use: nothing may be written
	opts   genOpts
	out    string // base name of the file
	mod    string // the module's file
	clause string // in it
	dir    string // it lies in
	uses   string // what else the package says, of the type %[1]s
	path   string // the module's path
}

func (k *cliCase) String() string { return k.name }

const cliDecls = `package p
type Base struct { A int; B *string }
type %[1]s struct { Base; F []string ` + "`yaml:\"f\"`" + `; G map[string]int; H string; I *%[1]s; J [2]float32 }
type VerifExporter *%[1]s
`

const cliBadDecls = `package p
type %s struct { C chan int }
`

func cliCases() []*cliCase {
	var out []*cliCase
	add := func(k *cliCase) {
		if k.typ == "" {
			k.typ = "Conf"
		}
		if k.flags == nil {
			k.flags = map[string]any{}
		}
		if !(k.bad && strings.Contains(k.name, "no type")) {
			k.flags["type"] = k.typ
		}
		if k.out == "" {
			k.out = "conf_yamly.go"
		}
		if k.dir == "" {
			k.dir = "/work"
		}
		switch k.mod {
		case "":
			k.mod = "/work/go.mod"
			if !strings.HasPrefix(k.dir, "/work") {
				k.mod = filepath.Join(k.dir, "go.mod")
			}
		case "none":
			k.mod = ""
		}
		if k.clause == "" {
			k.clause = "module %s\n\ngo 1.21\n"
		}
		if e, ok := k.flags["engine"].(string); ok {
			k.opts.engine = e
		} else {
			k.opts.engine = "goyaml"
		}
		for f, p := range map[string]*bool{"omitempty": &k.opts.omitempty, "disallow-unknown-fields": &k.opts.disallow, "encode-pointer-receiver": &k.opts.ptr, "inline-embedded": &k.opts.inlined} {
			if b, ok := k.flags[f].(bool); ok {
				*p = b
			}
		}
		if t, ok := k.flags["build-tags"].(string); ok {
			k.opts.tags = strings.TrimSpace(t)
		}
		out = append(out, k)
	}
	bools := []string{"omitempty", "disallow-unknown-fields", "encode-pointer-receiver", "inline-embedded"}
	tags := []string{"", "one", "one,two", "one two", " one "}
	n := 0
	for _, e := range []string{"", "goyaml", "yayamls"} {
		for m := 0; m < 16; m++ {
			k := &cliCase{name: "flags", flags: map[string]any{}}
			if e != "" {
				k.flags["engine"] = e
				k.name += " -engine " + e
			}
			for i, b := range bools {
				if m&(1<<i) != 0 {
					k.flags[b] = true
					k.name += " -" + b
				}
			}
			if t := tags[n%len(tags)]; t != "" {
				k.flags["build-tags"] = t
				k.name += fmt.Sprintf(" -build-tags %q", t)
			}
			n++
			add(k)
		}
	}
	for _, n := range [][2]string{{"T", "t"}, {"MyType", "my_type"}, {"HTTPServer", "http_server"}, {"ServeHTTP", "serve_http"}, {"myType", "my_type"}, {"Item2", "item2"}, {"Élan", "élan"}, {"Snake_Case", "snake_case"}} {
		add(&cliCase{name: "type " + n[0], typ: n[0], out: n[1] + "_yamly.go"})
	}
	add(&cliCase{name: "-output", flags: map[string]any{"output": "x_gen.go"}, out: "x_gen.go"})
	add(&cliCase{name: "a directory", args: []string{"sub/dir"}, dir: "/work/sub/dir"})
	add(&cliCase{name: "an absolute directory and -output", args: []string{"/else/where"}, dir: "/else/where", flags: map[string]any{"output": "y.go"}, out: "y.go"})
	add(&cliCase{name: "under go generate", gofile: "conf.go"})
	add(&cliCase{name: "a module of a directory above", args: []string{"."}, mod: "/go.mod"})
	add(&cliCase{name: "quoted module path", args: []string{"sub"}, dir: "/work/sub", clause: "// module other\n\tmodule  \"%s\" // the module\nmodule not/this\n"})
	add(&cliCase{name: "module path in backquotes", clause: "go 1.21\nmodules x\nmodule `%s`\n"})
	add(&cliCase{name: "module clause without line break", clause: "module\t%s"})
	add(&cliCase{name: "a module with a name of one letter", path: "m"})
	add(&cliCase{name: "a package that relies on the methods", uses: "var _ interface { MarshalYAML() ([]byte, error) } = %[1]s{}\nvar _ interface { UnmarshalYAML([]byte) error } = (*%[1]s)(nil)\n"})
	add(&cliCase{name: "a package that relies on the pointer's methods", flags: map[string]any{"encode-pointer-receiver": true}, uses: "func save(x *%[1]s) ([]byte, error) { return x.MarshalYAML() }\nfunc load(x *%[1]s, b []byte) error { return x.UnmarshalYAML(b) }\n"})
	add(&cliCase{name: "a directory under GOPATH", args: []string{"/gopath/src/example.test/in/path"}, dir: "/gopath/src/example.test/in/path", mod: "none"})
	add(&cliCase{name: "neither a module nor under GOPATH", bad: true, mod: "none"})
	add(&cliCase{name: "go.mod without module clause", bad: true, clause: "go 1.21 // %s\n"})
	add(&cliCase{name: "no type", bad: true})
	add(&cliCase{name: "no such engine", bad: true, flags: map[string]any{"engine": "other"}})
	add(&cliCase{name: "output in another directory", bad: true, flags: map[string]any{"output": "../x.go"}})
	add(&cliCase{name: "output in a subdirectory", bad: true, flags: map[string]any{"output": "a/x.go"}})
	add(&cliCase{name: "two directories", bad: true, args: []string{"sub", "sub/dir"}})
	add(&cliCase{name: "a file for a directory", bad: true, args: []string{"file.txt"}})
	add(&cliCase{name: "a type that cannot be handled", fault: "generator"})
	for _, f := range []string{"parser", "os.Chdir", "os.Create", "os.CreateTemp", "os.Rename", "exec", "os.ReadFile", "go/format.Source", "os.WriteFile"} {
		add(&cliCase{name: f + " fails", fault: f})
	}
	return out
}

// ---- the command's surroundings

type cli struct {
	s     *stage
	k     *cliCase
	path  string // of the package
	decls string
	// modtext is the text of go.mod
	modtext string
	failed  bool // the fault has been met
	starts  int
	stub    string
	tags    []string
}

// fs: "!fs:<absolute name>" holds the handle's cell the content is in.
func (w *cli) abs(st *State, name string) string {
	if filepath.IsAbs(name) {
		return filepath.Clean(name)
	}
	cwd, _ := w.s.str(st, st.Heap["!cwd"])
	return filepath.Join(cwd, name)
}

func (w *cli) content(st *State, abs string) (string, bool) {
	h, ok := st.Heap["!fs:"+abs]
	if !ok {
		return "", false
	}
	if x, ok := h.(txt); ok {
		return x.s, true
	}
	cell, _ := bufCell(h)
	if x, ok := st.Heap[cell].(txt); ok {
		return x.s, true
	}
	return "", true
}

func (w *cli) files(st *State) []string {
	var out []string
	for k := range st.Heap {
		if strings.HasPrefix(k, "!fs:") {
			out = append(out, strings.TrimPrefix(k, "!fs:"))
		}
	}
	sort.Strings(out)
	return out
}

var cliDirs = map[string]bool{"/work": true, "/work/sub": true, "/work/sub/dir": true, "/else/where": true, "/gopath/src/example.test/in/path": true}

func (w *cli) call(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
	ret := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: vs}}, true }
	name := cl.Name()
	lost := func() ([]Outcome, bool) {
		w.s.give("%s: what %s does here is not known", w.s.c.Pos(cl.Instr.Pos()), name)
		return nil, false
	}
	newErr := func() Val {
		v := Sym{ID: st.FreshID("fault:" + cl.Site), T: errType}
		st.SetNil(v, 2)
		return v
	}
	str := func(i int) (string, bool) {
		if i >= len(cl.Args) {
			return "", false
		}
		return w.s.str(st, cl.Args[i])
	}
	fails := func(f string) bool {
		if w.k.fault == f && !w.failed {
			w.failed = true
			return true
		}
		return false
	}
	flagVal := func(n string, def Val) Val {
		switch x := w.k.flags[n].(type) {
		case string:
			return Str(x)
		case bool:
			return Bool(x)
		}
		return def
	}
	handle := func(abs string) Val {
		h := Addr{Base: st.FreshID("file:" + cl.Site)}
		st.Heap["!fs:"+abs] = h
		st.Heap["!name:"+h.Base] = Str(abs)
		return h
	}
	switch name {
	case "flag.String", "flag.Bool":
		n, ok := str(0)
		if !ok {
			return lost()
		}
		a := Addr{Base: "flag:" + n}
		st.StoreCell(a, flagVal(n, cl.Args[1]))
		return ret(a)
	case "flag.StringVar", "flag.BoolVar":
		n, ok := str(1)
		a, isA := st.Resolve(cl.Args[0]).(Addr)
		if !ok || !isA {
			return lost()
		}
		st.StoreCell(a, flagVal(n, cl.Args[2]))
		return ret()
	case "flag.Parse", "flag.PrintDefaults":
		return ret()
	case "flag.Args":
		var vs []Val
		for _, a := range w.k.args {
			vs = append(vs, Str(a))
		}
		return ret(sliceVal(st, st.FreshID("args"), vs))
	case "flag.NArg":
		return ret(Int(int64(len(w.k.args))))
	case "flag.Arg":
		c, ok := st.Known(cl.Args[0])
		if !ok {
			return lost()
		}
		i, _ := constant.Int64Val(c.V)
		if i < 0 || int(i) >= len(w.k.args) {
			return ret(Str(""))
		}
		return ret(Str(w.k.args[i]))
	case "os.Exit":
		c, ok := st.Known(cl.Args[0])
		if !ok {
			return lost()
		}
		return []Outcome{{St: st, Panic: true, Pos: cl.Instr.Pos(), Note: "exit " + c.V.String()}}, true
	case "os.Getenv", "os.LookupEnv":
		n, ok := str(0)
		if !ok {
			return lost()
		}
		v := ""
		if n == "GOFILE" {
			v = w.k.gofile
		}
		if n == "GOPATH" {
			v = "/first:/gopath:/last"
		}
		if name == "os.LookupEnv" {
			return ret(Str(v), Bool(v != ""))
		}
		return ret(Str(v))
	case "os.Getwd":
		return ret(st.Heap["!cwd"], Nil{})
	case "os.Chdir":
		n, ok := str(0)
		if !ok {
			return lost()
		}
		if fails(name) || !cliDirs[w.abs(st, n)] {
			return ret(newErr())
		}
		st.Heap["!cwd"] = Str(w.abs(st, n))
		return ret(Nil{})
	case "path/filepath.Abs":
		n, ok := str(0)
		if !ok {
			return lost()
		}
		return ret(Str(w.abs(st, n)), Nil{})
	case "os.Stat", "os.Lstat":
		n, ok := str(0)
		if !ok {
			return lost()
		}
		v := Sym{ID: "stat:" + w.abs(st, n), T: cl.Common.Signature().Results().At(0).Type()}
		st.SetNil(v, 2)
		return ret(v, Nil{})
	case "(io/fs.FileInfo).IsDir":
		v, ok := st.Resolve(cl.Args[0]).(Sym)
		if !ok || !strings.HasPrefix(v.ID, "stat:") {
			return lost()
		}
		return ret(Bool(cliDirs[strings.TrimPrefix(v.ID, "stat:")]))
	case "os.Create", "os.OpenFile":
		n, ok := str(0)
		if !ok {
			return lost()
		}
		if fails(name) || fails("os.Create") {
			return ret(Nil{}, newErr())
		}
		return ret(handle(w.abs(st, n)), Nil{})
	case "os.CreateTemp":
		d, ok1 := str(0)
		p, ok2 := str(1)
		if !ok1 || !ok2 {
			return lost()
		}
		if fails(name) {
			return ret(Nil{}, newErr())
		}
		if i := strings.LastIndex(p, "*"); i >= 0 {
			p = p[:i] + "123" + p[i+1:]
		} else {
			p += "123"
		}
		if d == "" {
			d = "/tmp"
		}
		h := handle(w.abs(st, filepath.Join(d, p)))
		st.Heap["!given:"+h.(Addr).Base] = Str(filepath.Join(d, p))
		return ret(h, Nil{})
	case "(*os.File).Name":
		a, ok := st.Resolve(cl.Args[0]).(Addr)
		if !ok {
			return lost()
		}
		if n, ok := st.Heap["!given:"+a.Base]; ok {
			return ret(n)
		}
		if n, ok := st.Heap["!name:"+a.Base]; ok {
			return ret(n)
		}
		return lost()
	case "(*os.File).Close", "(*os.File).Sync", "os.Chmod":
		return ret(Nil{})
	case "os.Rename":
		a, ok1 := str(0)
		b, ok2 := str(1)
		if !ok1 || !ok2 {
			return lost()
		}
		h, ok := st.Heap["!fs:"+w.abs(st, a)]
		if fails(name) || !ok {
			return ret(newErr())
		}
		delete(st.Heap, "!fs:"+w.abs(st, a))
		st.Heap["!fs:"+w.abs(st, b)] = h
		return ret(Nil{})
	case "os.Remove", "os.RemoveAll":
		a, ok := str(0)
		if !ok {
			return lost()
		}
		if _, ok := st.Heap["!fs:"+w.abs(st, a)]; !ok && name == "os.Remove" {
			return ret(newErr())
		}
		delete(st.Heap, "!fs:"+w.abs(st, a))
		return ret(Nil{})
	case "os.ReadFile":
		a, ok := str(0)
		if !ok {
			return lost()
		}
		if w.abs(st, a) == w.k.mod && w.k.mod != "" {
			return ret(byteVal(st, st.FreshID("mod:"+cl.Site), w.modtext), Nil{})
		}
		x, ok := w.content(st, w.abs(st, a))
		if fails(name) || !ok {
			return ret(Nil{}, newErr())
		}
		return ret(txt{x}, Nil{})
	case "os.WriteFile":
		a, ok1 := str(0)
		x, ok2 := str(1)
		if !ok1 || !ok2 {
			return lost()
		}
		if fails(name) {
			return ret(newErr())
		}
		h := handle(w.abs(st, a))
		cell, _ := bufCell(h)
		st.Heap[cell] = txt{x}
		return ret(Nil{})
	case "go/format.Source":
		x, ok := str(0)
		if !ok {
			return lost()
		}
		b, err := format.Source([]byte(x))
		if fails(name) || err != nil {
			return ret(Nil{}, newErr())
		}
		return ret(txt{string(b)}, Nil{})
	case "(*" + genPkg + "/parser.Parser).Parse":
		if fails("parser") {
			return ret(newErr())
		}
		return nil, false
	case "go/token.NewFileSet":
		return ret(Addr{Base: "FSET"})
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return ret()
	case "go/parser.ParseDir":
		d, ok := str(1)
		if !ok {
			return lost()
		}
		if w.abs(st, d) != w.k.dir {
			return ret(Nil{}, newErr())
		}
		m := Sym{ID: st.FreshID("pkgs:" + cl.Site), T: cl.Common.Signature().Results().At(0).Type()}
		st.SetNil(m, 2)
		st.Heap["!map:"+m.ID] = Nil{}
		for _, f := range [][2]string{{"conf.go", "p"}, {"conf_test.go", "p_test"}, {"readme.md", ""}} {
			if !strings.HasSuffix(f[0], ".go") {
				continue
			}
			if fn, ok := st.Resolve(cl.Args[2]).(Func); ok {
				info := Sym{ID: "info:" + f[0], T: fn.Fn.Signature.Params().At(0).Type()}
				st.SetNil(info, 2)
				outs := in.RunClosure(st.FreshID("filter:"+cl.Site), fn, []Val{info}, st)
				if len(outs) != 1 || outs[0].Panic {
					return lost()
				}
				st = outs[0].St
				take, ok := st.Known(outs[0].Rets[0])
				if !ok {
					return lost()
				}
				if !constant.BoolVal(take.V) {
					continue
				}
			}
			st.MapStore(m, Str(f[1]), Addr{Base: "astpkg:" + f[1]})
		}
		return []Outcome{{St: st, Rets: []Val{m, Nil{}}}}, true
	case "(io/fs.FileInfo).Name":
		v, ok := st.Resolve(cl.Args[0]).(Sym)
		if !ok || !strings.HasPrefix(v.ID, "info:") {
			return lost()
		}
		return ret(Str(strings.TrimPrefix(v.ID, "info:")))
	case "go/ast.Walk":
		v, ok1 := st.Resolve(cl.Args[0]).(Iface)
		n, ok2 := st.Resolve(cl.Args[1]).(Iface)
		if !ok1 || !ok2 {
			return lost()
		}
		a, ok := st.Resolve(n.V).(Addr)
		pt, isP := n.T.(*types.Pointer)
		if !ok || !isP || !strings.HasPrefix(a.Base, "astpkg:") {
			return lost()
		}
		astPkg := pt.Elem().(*types.Named).Obj().Pkg()
		file := astPkg.Scope().Lookup("File").Type()
		fs := file.Underlying().(*types.Struct)
		fv := Struct{T: file}
		for i := 0; i < fs.NumFields(); i++ {
			x := ZeroVal(fs.Field(i).Type())
			if fs.Field(i).Name() == "Name" {
				x = Addr{Base: "ident:" + strings.TrimPrefix(a.Base, "astpkg:")}
			}
			fv.Fields = append(fv.Fields, x)
		}
		fa := Addr{Base: "astfile:" + a.Base}
		st.StoreCell(fa, fv)
		visit := w.s.c.Prog.LookupMethod(v.T, nil, "Visit")
		if visit == nil {
			return lost()
		}
		for _, node := range []Val{n, Iface{T: types.NewPointer(file), V: fa}} {
			outs := in.RunAs(st.FreshID("visit:"+cl.Site), visit, []Val{v.V, node}, st)
			if len(outs) != 1 || outs[0].Panic {
				return lost()
			}
			st = outs[0].St
			if st.Nilness(outs[0].Rets[0]) == 1 {
				break
			}
		}
		return []Outcome{{St: st}}, true
	case "(*go/ast.Ident).String":
		a, ok := st.Resolve(cl.Args[0]).(Addr)
		if !ok || !strings.HasPrefix(a.Base, "ident:") {
			return lost()
		}
		return ret(Str(strings.TrimPrefix(a.Base, "ident:")))
	case "os/exec.Command", "os/exec.CommandContext":
		at := 0
		if name == "os/exec.CommandContext" {
			at = 1
		}
		p, ok := str(at)
		vs, ok2 := elems(st, cl.Args[at+1], types.Typ[types.String])
		if !ok || !ok2 {
			return lost()
		}
		a := Addr{Base: st.FreshID("cmd:" + cl.Site)}
		ct := cl.Common.Signature().Results().At(0).Type().(*types.Pointer).Elem()
		st.StoreCell(a, ZeroVal(ct))
		st.Heap["!cmd:"+a.Base] = Tuple{append([]Val{Str(p)}, vs...)}
		return ret(a)
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
		a, ok := st.Resolve(cl.Args[0]).(Addr)
		if !ok {
			return lost()
		}
		text, good, ok := w.start(st, a, cl)
		if !ok {
			return lost()
		}
		var e Val = Nil{}
		switch {
		case w.starts > 0 && fails("exec"): // not started
			e = newErr()
		case !good: // started, ended with a non-zero status
			e = newErr()
			if xt, ok := cl.Fn.Pkg.Pkg.Scope().Lookup("ExitError").(*types.TypeName); ok {
				e = Iface{T: types.NewPointer(xt.Type()), V: Addr{Base: st.FreshID("exit:" + cl.Site)}}
			}
			fallthrough
		default:
			st.StoreCell(Addr{a.Base, a.Path + ".ProcessState"}, Addr{Base: st.FreshID("state:" + cl.Site)})
		}
		if name != "(*os/exec.Cmd).Run" {
			if len(text) < 200 {
				return ret(byteVal(st, st.FreshID("out:"+cl.Site), text), e)
			}
			return ret(txt{text}, e)
		}
		if cell, ok := bufCell(w.cmdField(st, a, cl, "Stdout")); ok {
			old, _ := st.Heap[cell].(txt)
			st.Heap[cell] = txt{old.s + text}
		}
		return ret(e)
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print":
		return ret(Int(0), Nil{})
	case "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint":
		if i, ok := st.Resolve(cl.Args[0]).(Iface); ok {
			if a, ok := i.V.(Addr); ok && a.Base == "STDERR" {
				return ret(Int(0), Nil{})
			}
		}
	}
	return w.s.model(in, cl, st)
}

func byteVal(st *State, id, text string) Val {
	var vs []Val
	for _, b := range []byte(text) {
		vs = append(vs, Int(int64(b)))
	}
	return sliceVal(st, id, vs)
}

func (w *cli) cmdField(st *State, a Addr, cl *Call, field string) Val {
	ct := cl.Fn.Signature.Recv().Type().(*types.Pointer).Elem()
	s := ct.Underlying().(*types.Struct)
	v := st.Load(a, ct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return st.Resolve(st.FieldOf(v, i, ct))
		}
	}
	return Nil{}
}

// start runs the program the command line names: what it prints, whether it ends well.
func (w *cli) start(st *State, a Addr, cl *Call) (text string, good, ok bool) {
	t, _ := st.Heap["!cmd:"+a.Base].(Tuple)
	var args []string
	for _, v := range t.Vs {
		x, ok := w.s.str(st, v)
		if !ok {
			return "", false, false
		}
		args = append(args, x)
	}
	dir, ok := w.s.str(st, w.cmdField(st, a, cl, "Dir"))
	if !ok {
		return "", false, false
	}
	if len(args) == 3 && filepath.Base(args[0]) == "go" && args[1] == "env" && args[2] == "GOMOD" {
		if w.abs(st, dir) != w.k.dir {
			return "", false, true
		}
		if w.k.mod == "" {
			return "/dev/null\n", true, true
		}
		return w.k.mod + "\n", true, true
	}
	w.starts++
	if len(args) < 3 || filepath.Base(args[0]) != "go" || args[1] != "run" {
		return "", false, true
	}
	w.tags = nil
	file := ""
	for i := 2; i < len(args); i++ {
		switch {
		case args[i] == "-tags" || args[i] == "--tags":
			i++
			w.tags = strings.FieldsFunc(args[i], func(r rune) bool { return r == ',' || r == ' ' })
		case strings.HasPrefix(args[i], "-tags="):
			w.tags = strings.FieldsFunc(args[i][6:], func(r rune) bool { return r == ',' || r == ' ' })
		case strings.HasPrefix(args[i], "-"):
			return "", false, false
		case file == "":
			file = args[i]
		}
	}
	if !strings.HasSuffix(file, ".go") {
		return "", false, true
	}
	abs := w.abs(st, filepath.Join(w.abs(st, dir), file))
	prog, ok := w.content(st, abs)
	if !ok {
		return "", false, true
	}
	// the package consists of what is there and of the files written that are built
	srcs := []string{w.decls}
	for _, f := range w.files(st) {
		x, _ := w.content(st, f)
		if filepath.Dir(f) == w.k.dir && strings.HasSuffix(f, ".go") && f != abs && builds(f, x, w.tags) {
			srcs = append(srcs, x)
			w.stub = x
		}
	}
	n := w.s
	p, _ := n.add(w.path, srcs...)
	if len(p.errs) > 0 {
		w.s.c.Rep.Ob("stub compiles")
		w.s.c.Rep.Violate("stub compiles", w.k.name, "", "the package does not compile with the stub file: %s", p.errs[0])
		return "", false, true
	}
	m, sp := n.add(w.path+"/main", prog)
	if len(m.errs) > 0 {
		w.s.c.Rep.Ob("program compiles")
		w.s.c.Rep.Violate("program compiles", w.k.name, "", "the program that generates the code does not compile: %s", m.errs[0])
		return "", false, true
	}
	in := n.interp()
	in.Hooks.Call = w.call
	s2 := n.state()
	std(s2)
	outs := in.Run(sp.Func("main"), nil, s2)
	if in.Capped || len(outs) != 1 {
		w.s.give("the program has %d outcomes", len(outs))
		return "", false, false
	}
	if x, ok := outs[0].St.Heap["!buf:STDOUT"].(txt); ok {
		text = x.s
	}
	return text, !outs[0].Panic || outs[0].Note == "exit 0", true
}

// std gives the process its standard files.
func std(st *State) {
	st.StoreCell(Addr{Base: "g:os.Stdout"}, Addr{Base: "STDOUT"})
	st.StoreCell(Addr{Base: "g:os.Stderr"}, Addr{Base: "STDERR"})
}

// builds says whether a file with this text belongs to its package under the tags.
func builds(name, text string, tags []string) bool {
	c := build.Default
	c.BuildTags = tags
	c.OpenFile = func(string) (io.ReadCloser, error) { return io.NopCloser(strings.NewReader(text)), nil }
	ok, err := c.MatchFile(filepath.Dir(name), filepath.Base(name))
	return err == nil && ok
}

func runC22(c *core.Ctx) {
	s := newStage(c)
	main := c.SSA[cmdPkg]
	if main == nil || main.Func("main") == nil {
		c.Rep.Undecide("no %s", cmdPkg)
		return
	}
	for i, k := range cliCases() {
		s.cliRun(main, k, i)
	}
	c.Rep.Floor("output", 60)
	c.Rep.Floor("refuses", 8)
	c.Rep.Floor("failures", 10)
}

func (s *stage) cliRun(main *ssa.Package, k *cliCase, n int) {
	rep := s.c.Rep
	w := &cli{s: s, k: k, path: fmt.Sprintf("example.test/cli/p%d", n)}
	if k.path != "" {
		w.path = k.path
	}
	w.modtext = fmt.Sprintf(k.clause, w.path)
	if k.mod == "" {
		w.path = strings.TrimPrefix(k.dir, "/gopath/src/")
	} else {
		w.path += strings.TrimPrefix(k.dir, strings.TrimSuffix(filepath.Dir(k.mod), "/"))
	}
	w.decls = fmt.Sprintf(cliDecls+k.uses, k.typ)
	if k.fault == "generator" {
		w.decls = fmt.Sprintf(cliBadDecls, k.typ)
	}
	s.why = ""
	own := []*ssa.Package{main}
	for _, p := range []string{genPkg + "/parser", genPkg + "/bootstrap"} {
		if x := s.c.SSA[p]; x != nil {
			own = append(own, x)
		}
	}
	st := InitState(s.c.Prog, own, w.call)
	st.MaxInst = 1 << 20
	st.Heap["!cwd"] = Str("/work")
	std(st)
	in := s.interp()
	in.Hooks.Call = w.call
	outs := in.Run(main.Func("main"), nil, st)
	if in.Capped {
		s.give("%s", in.CapWhy)
	}
	if s.why == "" && len(outs) != 1 {
		s.give("%d outcomes", len(outs))
	}
	if s.why != "" {
		rep.Undecide("%s: %s", k, s.why)
		return
	}
	o := outs[0]
	status := "0"
	if o.Panic {
		x, exit := strings.CutPrefix(o.Note, "exit ")
		if !exit {
			rep.Ob("output")
			rep.Violate("output", k.name, s.c.Pos(o.Pos), "the command panics: %s", o.Note)
			return
		}
		status = x
	}
	files := w.files(o.St)
	out := filepath.Join(k.dir, k.out)
	switch {
	case k.bad:
		rep.Ob("refuses")
		if status == "0" {
			rep.Violate("refuses", k.name, "", "the command ends with status 0")
		} else if len(files) > 0 {
			rep.Violate("refuses", k.name, "", "the command leaves %s behind", strings.Join(files, ", "))
		}
		return
	case k.fault != "":
		rep.Ob("failures")
		if k.fault != "generator" && !w.failed {
			return // the call is not made
		}
		if status == "0" {
			rep.Violate("failures", k.name, "", "the command ends with status 0")
		}
		if w.starts > 0 {
			for _, f := range files {
				if f != out {
					rep.Violate("failures", k.name, "", "the command leaves %s behind", f)
				}
			}
		}
		return
	}
	rep.Ob("output")
	if status != "0" {
		rep.Violate("output", k.name, s.c.Pos(o.Pos), "the command ends with status %s", status)
		return
	}
	text, ok := w.content(o.St, out)
	if !ok {
		rep.Violate("output", k.name, "", "no file %s is written, but %s", out, strings.Join(files, ", "))
		return
	}
	for _, f := range files {
		if f != out {
			rep.Violate("output", k.name, "", "the command leaves %s behind", f)
		}
	}
	want, why := w.expected()
	if why != "" {
		rep.Undecide("%s: %s", k, why)
		return
	}
	if text != want {
		rep.Violate("output", k.name, "", "the file is not what the generator gives under these options: %s", differ(text, want))
		return
	}
	rep.Ob("build tags")
	given := strings.FieldsFunc(k.opts.tags, func(r rune) bool { return r == ',' || r == ' ' })
	if !builds(out, text, given) {
		rep.Violate("build tags", k.name, "", "the file is not built under its tags")
	}
	if len(given) > 0 && builds(out, text, nil) {
		rep.Violate("build tags", k.name, "", "the file is built without its tags")
	}
	for _, g := range given {
		one := builds(out, text, []string{g})
		if and := strings.Contains(k.opts.tags, ","); one == and {
			rep.Violate("build tags", k.name, "", "under the tag %s alone the file is built: %t", g, one)
		}
	}
}

// expected is what the generator library gives for the type under the options.
func (w *cli) expected() (text, why string) {
	s, o := w.s, w.k.opts
	_, sp := s.add(w.path+"/driver", fmt.Sprintf(`package driver
import (
	"bytes"
	generator %q
	engine %q
	pkg %q
)
func Main() (string, error) {
	var out bytes.Buffer
	g := generator.New(%q)
	g.SetPkgName("p")
	g.SetPkgPath(%q)
	g.SetEngineGenerator(engine.Generator)
	g.SetBuildTags(%q)
	g.SetOmitempty(%t)
	g.SetDisallowUnknownFields(%t)
	g.SetEncodePointerReceiver(%t)
	g.SetInlineEmbedded(%t)
	g.AddType(pkg.VerifExporter(nil))
	err := g.Generate(&out)
	return out.String(), err
}
`, genPkg, core.Mod+"/engines/"+o.engine, w.path, w.k.out, w.path, o.tags, o.omitempty, o.disallow, o.ptr, o.inlined))
	if sp == nil {
		return "", "the driver does not compile"
	}
	g := &gcase{drv: sp.Func("Main")}
	r := s.generate(g)
	if !r.ok || r.failed || r.panics != "" {
		return "", "the generator's text is not known"
	}
	b, err := format.Source([]byte(r.text))
	if err != nil {
		return "", err.Error()
	}
	return string(b), ""
}

// differ is the first line in which two texts differ.
func differ(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("line %d is %q in the file only", i+1, x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("line %d is %q, not %q", i+1, x[i], y[i])
		}
	}
	return "the file ends early"
}
