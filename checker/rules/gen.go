package rules

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/checker/core"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	. "verif/checker/absint"
)

// The program text a code generator emits, found by constant propagation through its source:
// the generator is interpreted abstractly with the type it is given as a type-checker's type,
// and what it prints is kept as a constant.

const genPkg = core.Mod + "/generator"

// txt is a text that is only ever written, read or compared as a whole.
type txt struct{ s string }

func (t txt) Key() string {
	h := fnv.New64a()
	h.Write([]byte(t.s))
	return fmt.Sprintf("txt<%d:%x>", len(t.s), h.Sum64())
}

type stage struct {
	c     *core.Ctx
	deps  map[string]*types.Package
	types typeutil.Map
	byID  []types.Type
	rt    *types.Named
	init  *State
	order int // of map iterations
	why   string
	extra []string // packages interpreted besides the repository's
}

func newStage(c *core.Ctx) *stage {
	s := &stage{c: c, deps: map[string]*types.Package{}}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if s.deps[p.Path()] != nil {
			return
		}
		s.deps[p.Path()] = p
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, k := range sortedPkgs(c) {
		if c.Pkgs[k].Types != nil {
			visit(c.Pkgs[k].Types)
		}
	}
	s.rt = types.NewNamed(types.NewTypeName(0, types.NewPackage("verif/rt", "rt"), "rtype", nil), types.NewStruct(nil, nil), nil)
	return s
}

var _ = importer.Default

func (s *stage) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if q := s.deps[p]; q != nil && q.Complete() {
		return q, nil
	}
	return nil, fmt.Errorf("package %s is not available", p)
}

type checked struct {
	pkg   *types.Package
	files []*ast.File
	info  *types.Info
	errs  []string
}

// check type-checks a package made of the given files.
func (s *stage) check(pkgPath string, srcs ...string) *checked {
	r := &checked{info: &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}}
	for i, src := range srcs {
		f, err := parser.ParseFile(s.c.Fset, fmt.Sprintf("%s/file%d.go", pkgPath, i), src, parser.SkipObjectResolution)
		if err != nil {
			r.errs = append(r.errs, err.Error())
		}
		if f != nil {
			r.files = append(r.files, f)
		}
	}
	if len(r.errs) > 0 {
		return r
	}
	conf := types.Config{Importer: s, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) { r.errs = append(r.errs, err.Error()) }}
	r.pkg, _ = conf.Check(pkgPath, s.c.Fset, r.files, r.info)
	return r
}

// add type-checks a package, makes it importable and builds its SSA form.
func (s *stage) add(pkgPath string, srcs ...string) (*checked, *ssa.Package) {
	r := s.check(pkgPath, srcs...)
	if len(r.errs) > 0 {
		return r, nil
	}
	s.deps[pkgPath] = r.pkg
	sp := s.c.Prog.CreatePackage(r.pkg, r.files, r.info, true)
	sp.Build()
	s.extra = append(s.extra, pkgPath)
	return r, sp
}

func (s *stage) own(p *types.Package) bool {
	if p.Path() == core.Mod || strings.HasPrefix(p.Path(), core.Mod+"/") {
		return true
	}
	for _, e := range s.extra {
		if e == p.Path() {
			return true
		}
	}
	return false
}

func (s *stage) interp() *Interp {
	in := New(s.c.Prog, Hooks{Call: s.model})
	in.MaxRec, in.MaxDepth, in.MaxSteps = 64, 400, 3000000
	in.Runes, in.Collect = true, true
	in.MapOrder = s.order
	in.NoLimit = true
	in.Hooks.Inline = func(fn *ssa.Function) bool {
		if len(fn.Blocks) == 0 {
			return false
		}
		p := core.FuncPkg(fn)
		if p == nil {
			return fn.Synthetic != ""
		}
		return s.own(p)
	}
	return in
}

// state is a start state in which the generator packages are initialised.
func (s *stage) state() *State {
	if s.init == nil {
		var pkgs []*ssa.Package
		for _, p := range sortedPkgs(s.c) {
			if (p == core.Mod || p == genPkg || strings.HasPrefix(p, core.Mod+"/engines/")) && strings.Count(strings.TrimPrefix(p, core.Mod), "/") <= 2 && s.c.SSA[p] != nil {
				pkgs = append(pkgs, s.c.SSA[p])
			}
		}
		s.init = InitState(s.c.Prog, pkgs, s.model)
	}
	st := s.init.Clone()
	st.MaxInst = 1 << 20
	return st
}

// ---- types as values

func (s *stage) typeVal(t types.Type) Val {
	t = types.Unalias(t)
	id, ok := s.types.At(t).(int)
	if !ok {
		id = len(s.byID)
		s.byID = append(s.byID, t)
		s.types.Set(t, id)
	}
	return Iface{T: s.rt, V: Addr{Base: fmt.Sprintf("rtype:%d", id)}}
}

func (s *stage) typeOf(v Val) (types.Type, bool) {
	i, ok := v.(Iface)
	if !ok || i.T != types.Type(s.rt) {
		return nil, false
	}
	a, ok := i.V.(Addr)
	if !ok {
		return nil, false
	}
	n, err := strconv.Atoi(strings.TrimPrefix(a.Base, "rtype:"))
	if err != nil || n >= len(s.byID) {
		return nil, false
	}
	return s.byID[n], true
}

var basicKinds = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
	types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128,
	types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicKinds[u.Kind()]
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

// rname, rpath, rstring: what package reflect says of a type.
func rname(t types.Type) string {
	switch t := t.(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		case types.UnsafePointer:
			return "Pointer"
		}
		return t.Name()
	case *types.Named:
		n := t.Obj().Name()
		if a := t.TypeArgs(); a.Len() > 0 {
			var as []string
			for i := 0; i < a.Len(); i++ {
				as = append(as, types.TypeString(a.At(i), nil))
			}
			n += "[" + strings.Join(as, ",") + "]"
		}
		return n
	}
	return ""
}

func rpath(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func rstring(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return rname(t)
	case *types.Named:
		if p := t.Obj().Pkg(); p != nil {
			return p.Name() + "." + rname(t)
		}
		return rname(t)
	case *types.Pointer:
		return "*" + rstring(t.Elem())
	case *types.Slice:
		return "[]" + rstring(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), rstring(t.Elem()))
	case *types.Map:
		return "map[" + rstring(t.Key()) + "]" + rstring(t.Elem())
	case *types.Interface:
		if t.NumMethods() == 0 {
			return "interface {}"
		}
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name()+strings.TrimPrefix(types.TypeString(t.Method(i).Type(), (*types.Package).Name), "func"))
		}
		return "interface { " + strings.Join(ms, "; ") + " }"
	case *types.Struct:
		if t.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			l := rstring(f.Type())
			if !f.Embedded() {
				l = f.Name() + " " + l
			}
			if t.Tag(i) != "" {
				l += " " + strconv.Quote(t.Tag(i))
			}
			fs = append(fs, l)
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	}
	return types.TypeString(t, (*types.Package).Name)
}

// ---- what library calls do with constants

var pure = map[string]any{
	"strings.Repeat": strings.Repeat, "strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.Join": strings.Join, "strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.Title": strings.Title,
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Fields": strings.Fields, "strings.EqualFold": strings.EqualFold,
	"strings.Count": strings.Count, "strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix, "strings.Compare": strings.Compare,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.QuoteToASCII": strconv.QuoteToASCII, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatUint": strconv.FormatUint, "strconv.FormatBool": strconv.FormatBool, "strconv.CanBackquote": strconv.CanBackquote,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsSpace": unicode.IsSpace, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower,
	"unicode.ToTitle": unicode.ToTitle, "unicode.IsPunct": unicode.IsPunct,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.ValidString": utf8.ValidString,
	"path/filepath.Base":       filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext, "path/filepath.Join": filepath.Join,
	"path/filepath.Clean": filepath.Clean, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.Split": filepath.Split, "path/filepath.FromSlash": filepath.FromSlash, "path/filepath.ToSlash": filepath.ToSlash, "path.Base": path.Base, "path.Dir": path.Dir, "path.Join": path.Join,
	"path/filepath.Rel": filepath.Rel, "path/filepath.IsLocal": filepath.IsLocal, "path.Clean": path.Clean, "path.IsAbs": path.IsAbs, "strconv.Unquote": strconv.Unquote,
	"bytes.IndexByte": bytes.IndexByte, "bytes.Index": bytes.Index, "bytes.TrimSpace": bytes.TrimSpace, "bytes.HasPrefix": bytes.HasPrefix, "bytes.HasSuffix": bytes.HasSuffix, "bytes.TrimPrefix": bytes.TrimPrefix,
	"bytes.Contains": bytes.Contains, "bytes.Equal": bytes.Equal, "bytes.Trim": bytes.Trim, "bytes.TrimLeft": bytes.TrimLeft, "bytes.TrimRight": bytes.TrimRight, "bytes.TrimSuffix": bytes.TrimSuffix,
	"go/token.IsKeyword": token.IsKeyword, "go/token.IsIdentifier": token.IsIdentifier, "go/token.IsExported": token.IsExported,
	"(reflect.StructTag).Get": reflect.StructTag.Get, "(reflect.StructTag).Lookup": reflect.StructTag.Lookup, "(reflect.Kind).String": reflect.Kind.String,
}

// native turns an abstract value into a Go value of type t, if it is constant.
func (s *stage) native(st *State, v Val, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		str, ok := s.str(st, v)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(str).Convert(t), true
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		c, ok := st.Known(v)
		if !ok {
			return reflect.Value{}, false
		}
		if t.Kind() == reflect.Bool {
			return reflect.ValueOf(constant.BoolVal(c.V)), true
		}
		i, exact := constant.Int64Val(constant.ToInt(c.V))
		return reflect.ValueOf(i).Convert(t), exact
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			str, ok := s.str(st, v)
			return reflect.ValueOf([]byte(str)).Convert(t), ok
		}
		et := types.Type(types.Typ[types.String])
		if t.Elem().Kind() != reflect.String {
			return reflect.Value{}, false
		}
		vs, ok := elems(st, v, et)
		if !ok {
			return reflect.Value{}, false
		}
		out := reflect.MakeSlice(t, 0, len(vs))
		for _, x := range vs {
			e, ok := s.native(st, x, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			out = reflect.Append(out, e)
		}
		return out, true
	}
	return reflect.Value{}, false
}

func (s *stage) abstract(st *State, site string, v reflect.Value) (Val, bool) {
	switch v.Kind() {
	case reflect.String:
		return Str(v.String()), true
	case reflect.Bool:
		return Bool(v.Bool()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Int(v.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Int(int64(v.Uint())), true
	case reflect.Slice:
		var vs []Val
		for i := 0; i < v.Len(); i++ {
			x, ok := s.abstract(st, site, v.Index(i))
			if !ok {
				return nil, false
			}
			vs = append(vs, x)
		}
		return sliceVal(st, st.FreshID("lib:"+site), vs), true
	}
	if v.Kind() == reflect.Interface && v.Type().Name() == "error" {
		if v.IsNil() {
			return Nil{}, true
		}
		e := Sym{ID: st.FreshID("err:" + site), T: errType}
		st.SetNil(e, 2)
		return e, true
	}
	return nil, false
}

func (s *stage) str(st *State, v Val) (string, bool) {
	switch v := st.Resolve(v).(type) {
	case txt:
		return v.s, true
	case Const:
		if v.V.Kind() == constant.String {
			return constant.StringVal(v.V), true
		}
	case Nil:
		return "", true
	case Concat:
		out := ""
		for _, p := range v.Parts {
			x, ok := s.str(st, p)
			if !ok {
				return "", false
			}
			out += x
		}
		return out, true
	case SliceOf:
		vs, ok := elems(st, v, types.Typ[types.Byte])
		if !ok {
			return "", false
		}
		var out []byte
		for _, x := range vs {
			c, ok := st.Known(x)
			if !ok {
				return "", false
			}
			i, _ := constant.Int64Val(c.V)
			out = append(out, byte(i))
		}
		return string(out), true
	}
	if c, ok := st.Known(v); ok && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	if b, ok := st.Resolve(v).(Sym); ok && strings.HasPrefix(b.ID, "conv<#") {
		// the bytes of a constant text
		if x, err := strconv.Unquote(strings.TrimPrefix(b.ID[:max(6, strings.LastIndex(b.ID, ">"))], "conv<#")); err == nil {
			return x, true
		}
	}
	return "", false
}

type named string

func (n named) String() string { return string(n) }

// operand is an argument of a print function.
func (s *stage) operand(st *State, v Val) (any, bool) {
	v = st.Resolve(v)
	if t, ok := s.typeOf(v); ok {
		return named(rstring(t)), true
	}
	i, ok := v.(Iface)
	if !ok {
		if _, isNil := v.(Nil); isNil {
			return nil, true
		}
		return nil, false
	}
	n, isNamed := types.Unalias(i.T).(*types.Named)
	b, ok := i.T.Underlying().(*types.Basic)
	if !ok {
		if sl, ok := i.T.Underlying().(*types.Slice); ok && !isNamed {
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.String {
				x, ok := s.native(st, i.V, reflect.TypeOf([]string(nil)))
				if ok {
					return x.Interface(), true
				}
			}
		}
		return nil, false
	}
	if isNamed && rstring(n) == "reflect.Kind" {
		x, ok := s.native(st, i.V, reflect.TypeOf(reflect.Kind(0)))
		if !ok {
			return nil, false
		}
		return x.Interface(), true
	}
	if isNamed {
		if m, _, _ := types.LookupFieldOrMethod(n, true, nil, "String"); m != nil {
			return nil, false
		}
		if m, _, _ := types.LookupFieldOrMethod(n, true, nil, "Error"); m != nil {
			return nil, false
		}
	}
	switch {
	case b.Info()&types.IsString != 0:
		x, ok := s.str(st, i.V)
		return x, ok
	case b.Info()&types.IsBoolean != 0:
		c, ok := st.Known(i.V)
		if !ok {
			return nil, false
		}
		return constant.BoolVal(c.V), true
	case b.Info()&types.IsInteger != 0:
		c, ok := st.Known(i.V)
		if !ok {
			return nil, false
		}
		k, exact := constant.Int64Val(c.V)
		if !exact {
			return nil, false
		}
		if b.Info()&types.IsUnsigned != 0 {
			return uint64(k), true
		}
		if b.Kind() == types.Int32 || b.Kind() == types.UntypedRune {
			return rune(k), true
		}
		return k, true
	}
	return nil, false
}

func (s *stage) operands(st *State, v Val) ([]any, bool) {
	vs, ok := elems(st, v, types.NewInterfaceType(nil, nil))
	if !ok {
		return nil, false
	}
	var out []any
	for _, x := range vs {
		o, ok := s.operand(st, x)
		if !ok {
			return nil, false
		}
		out = append(out, o)
	}
	return out, true
}

func (s *stage) give(format string, args ...any) {
	if s.why == "" {
		s.why = fmt.Sprintf(format, args...)
	}
}

func bufCell(v Val) (string, bool) {
	if i, ok := v.(Iface); ok {
		n := tname(i.T)
		if n != "*bytes.Buffer" && n != "*strings.Builder" && n != "*os.File" {
			return "", false
		}
		v = i.V
	}
	a, ok := v.(Addr)
	if !ok {
		return "", false
	}
	return "!buf:" + a.Cell(), true
}

func (s *stage) model(in *Interp, cl *Call, st *State) ([]Outcome, bool) {
	ret := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: vs}}, true }
	name := cl.Name()
	if isBuiltin(cl) {
		return nil, false
	}
	if cl.Fn != nil {
		if p := core.FuncPkg(cl.Fn); p != nil && s.own(p) {
			return nil, false
		}
		if core.FuncPkg(cl.Fn) == nil && len(cl.Fn.Blocks) > 0 {
			return nil, false
		}
	}
	lost := func() ([]Outcome, bool) {
		s.give("%s: what %s does here is not known", s.c.Pos(cl.Instr.Pos()), name)
		return nil, false
	}
	if f, ok := pure[name]; ok {
		fv := reflect.ValueOf(f)
		var as []reflect.Value
		if fv.Type().IsVariadic() {
			as = nil
		}
		for i, a := range cl.Args {
			pt := fv.Type().In(i)
			x, ok := s.native(st, a, pt)
			if !ok {
				return lost()
			}
			as = append(as, x)
		}
		var rs []reflect.Value
		if fv.Type().IsVariadic() {
			rs = fv.CallSlice(as)
		} else {
			rs = fv.Call(as)
		}
		var out []Val
		for _, r := range rs {
			v, ok := s.abstract(st, cl.Site, r)
			if !ok {
				return lost()
			}
			out = append(out, v)
		}
		return ret(out...)
	}
	write := func(dst Val, text string) bool {
		cell, ok := bufCell(st.Resolve(dst))
		if !ok {
			return false
		}
		old := ""
		if t, ok := st.Heap[cell].(txt); ok {
			old = t.s
		}
		st.Heap[cell] = txt{old + text}
		return true
	}
	read := func(src Val) (string, bool) {
		cell, ok := bufCell(st.Resolve(src))
		if !ok {
			return "", false
		}
		if t, ok := st.Heap[cell].(txt); ok {
			return t.s, true
		}
		return "", true
	}
	switch name {
	case "fmt.Fprintln", "fmt.Fprint", "fmt.Fprintf":
		var text string
		if name == "fmt.Fprintf" {
			f, ok1 := s.str(st, cl.Args[1])
			as, ok2 := s.operands(st, cl.Args[2])
			if !ok1 || !ok2 {
				return lost()
			}
			text = fmt.Sprintf(f, as...)
		} else {
			as, ok := s.operands(st, cl.Args[1])
			if !ok {
				return lost()
			}
			text = fmt.Sprint(as...)
			if name == "fmt.Fprintln" {
				text = fmt.Sprintln(as...)
			}
		}
		if !write(cl.Args[0], text) {
			if i, ok := st.Resolve(cl.Args[0]).(Iface); ok {
				if sel := s.c.Prog.MethodSets.MethodSet(i.T).Lookup(nil, "Write"); sel != nil {
					if fn := s.c.Prog.MethodValue(sel); fn != nil && len(fn.Blocks) > 0 {
						return in.RunAs(st.FreshID("write:"+cl.Site), fn, []Val{i.V, txt{text}}, st), true
					}
				}
			}
			return lost()
		}
		return ret(Int(int64(len(text))), Nil{})
	case "fmt.Sprint", "fmt.Sprintln":
		as, ok := s.operands(st, cl.Args[0])
		if !ok {
			return lost()
		}
		if name == "fmt.Sprintln" {
			return ret(Str(fmt.Sprintln(as...)))
		}
		return ret(Str(fmt.Sprint(as...)))
	case "fmt.Sprintf":
		f, ok1 := s.str(st, cl.Args[0])
		as, ok2 := s.operands(st, cl.Args[1])
		if !ok1 || !ok2 {
			return lost()
		}
		return ret(Str(fmt.Sprintf(f, as...)))
	case "io.WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(io.Writer).Write", "(io.StringWriter).WriteString", "(*os.File).WriteString", "(*os.File).Write":
		x, ok := s.str(st, cl.Args[1])
		if !ok || strings.HasPrefix(cl.Args[0].Key(), "$fnv:") {
			break
		}
		if !write(cl.Args[0], x) {
			return lost()
		}
		return ret(Int(int64(len(x))), Nil{})
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		c, ok := st.Known(cl.Args[1])
		if !ok {
			return lost()
		}
		k, _ := constant.Int64Val(c.V)
		x := string(rune(k))
		if strings.HasSuffix(name, "Byte") {
			x = string([]byte{byte(k)})
		}
		if !write(cl.Args[0], x) {
			return lost()
		}
		if strings.HasSuffix(name, "Byte") {
			return ret(Nil{})
		}
		return ret(Int(int64(len(x))), Nil{})
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		x, ok := read(cl.Args[0])
		if !ok {
			return lost()
		}
		switch {
		case strings.HasSuffix(name, "Len"):
			return ret(Int(int64(len(x))))
		case strings.HasSuffix(name, "Bytes"):
			return ret(txt{x})
		}
		return ret(Str(x))
	case "(*bytes.Buffer).ReadFrom", "(*bytes.Buffer).WriteTo", "io.Copy":
		from, to := cl.Args[0], cl.Args[1]
		if name != "(*bytes.Buffer).WriteTo" {
			from, to = to, from
		}
		x, ok := read(from)
		if !ok || !write(to, x) {
			return lost()
		}
		cell, _ := bufCell(st.Resolve(from))
		st.Heap[cell] = txt{""}
		return ret(Int(int64(len(x))), Nil{})
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		cell, ok := bufCell(st.Resolve(cl.Args[0]))
		if !ok {
			return lost()
		}
		st.Heap[cell] = txt{""}
		return ret()
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return ret()
	case "hash/fnv.New32", "hash/fnv.New32a", "hash/fnv.New64", "hash/fnv.New64a":
		return ret(Sym{ID: "fnv:" + name + ":" + st.FreshID("h:"+cl.Site)})
	case "strings.NewReplacer":
		x, ok := s.native(st, cl.Args[0], reflect.TypeOf([]string(nil)))
		if !ok {
			return lost()
		}
		id := st.FreshID("replacer:" + cl.Site)
		var vs []Val
		for _, w := range x.Interface().([]string) {
			vs = append(vs, Str(w))
		}
		st.Heap["!rep:"+id] = Tuple{vs}
		return ret(Addr{Base: id})
	case "(*strings.Replacer).Replace":
		if a, ok := cl.Args[0].(Addr); ok {
			if t, ok := st.Heap["!rep:"+a.Base].(Tuple); ok {
				var ws []string
				for _, v := range t.Vs {
					w, _ := s.str(st, v)
					ws = append(ws, w)
				}
				if x, ok := s.str(st, cl.Args[1]); ok {
					return ret(Str(strings.NewReplacer(ws...).Replace(x)))
				}
			}
		}
		return lost()
	case "slices.Sort", "sort.Strings":
		vs, ok := elems(st, cl.Args[0], types.Typ[types.String])
		so, isSl := st.Resolve(cl.Args[0]).(SliceOf)
		if _, isNil := st.Resolve(cl.Args[0]).(Nil); isNil {
			return ret()
		}
		if !ok || !isSl {
			return lost()
		}
		var ss []string
		for _, v := range vs {
			x, ok := s.str(st, v)
			if !ok {
				return lost()
			}
			ss = append(ss, x)
		}
		sort.Strings(ss)
		for i, x := range ss {
			st.StoreCell(Addr{Base: so.A.Base, Path: fmt.Sprintf("%s[%d]", so.A.Path, i)}, Str(x))
		}
		return ret()
	case "slices.Contains", "slices.Index":
		vs, ok := elems(st, cl.Args[0], types.Typ[types.String])
		if !ok {
			return lost()
		}
		at := -1
		for i, v := range vs {
			if st.Resolve(v).Key() == st.Resolve(cl.Args[1]).Key() && at < 0 {
				at = i
			}
		}
		if name == "slices.Contains" {
			return ret(Bool(at >= 0))
		}
		return ret(Int(int64(at)))
	case "errors.New", "fmt.Errorf":
		v := Sym{ID: st.FreshID("err:" + cl.Site), T: errType}
		st.SetNil(v, 2)
		return ret(v)
	case "reflect.TypeOf":
		if i, ok := st.Resolve(cl.Args[0]).(Iface); ok && i.T != types.Type(s.rt) {
			return ret(s.typeVal(i.T))
		}
		return lost()
	case "reflect.TypeFor":
		if cl.Fn != nil && len(cl.Fn.TypeArgs()) == 1 {
			return ret(s.typeVal(cl.Fn.TypeArgs()[0]))
		}
		return lost()
	case "reflect.PtrTo", "reflect.PointerTo", "reflect.SliceOf":
		t, ok := s.typeOf(st.Resolve(cl.Args[0]))
		if !ok {
			return lost()
		}
		if name == "reflect.SliceOf" {
			return ret(s.typeVal(types.NewSlice(t)))
		}
		return ret(s.typeVal(types.NewPointer(t)))
	case "(reflect.StructField).IsExported":
		f := st.Resolve(cl.Args[0])
		if sv, ok := f.(Struct); ok && len(sv.Fields) > 1 {
			if p, ok := s.str(st, sv.Fields[1]); ok {
				return ret(Bool(p == ""))
			}
		}
		return lost()
	}
	if len(cl.Args) > 0 {
		if f, ok := cl.Args[0].(Sym); ok && strings.HasPrefix(f.ID, "fnv:") {
			cell := "!buf:" + f.ID
			old, _ := st.Heap[cell].(txt)
			kind := strings.Split(f.ID, ":")[1]
			switch cl.Method.Name() {
			case "Write":
				x, ok := s.str(st, cl.Args[1])
				if !ok {
					return lost()
				}
				st.Heap[cell] = txt{old.s + x}
				return ret(Int(int64(len(x))), Nil{})
			case "Sum32":
				h := fnv.New32()
				if strings.HasSuffix(kind, "a") {
					h = fnv.New32a()
				}
				h.Write([]byte(old.s))
				return ret(Int(int64(h.Sum32())))
			case "Sum64":
				h := fnv.New64()
				if strings.HasSuffix(kind, "a") {
					h = fnv.New64a()
				}
				h.Write([]byte(old.s))
				return ret(Const{constant.MakeUint64(h.Sum64())})
			}
			return lost()
		}
		if t, ok := s.typeOf(st.Resolve(cl.Args[0])); ok && cl.Method != nil {
			return s.reflection(cl, st, t, lost)
		}
	}
	if cl.Fn == nil && cl.Method == nil {
		return lost()
	}
	if cl.Fn != nil && len(cl.Fn.Blocks) > 0 {
		return nil, false
	}
	return lost()
}

// reflection is what the methods of reflect.Type answer for t.
func (s *stage) reflection(cl *Call, st *State, t types.Type, lost func() ([]Outcome, bool)) ([]Outcome, bool) {
	ret := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: vs}}, true }
	bad := func() ([]Outcome, bool) {
		return []Outcome{{St: st, Panic: true, Pos: cl.Instr.Pos(), Note: "reflect: " + cl.Method.Name() + " of type " + rstring(t)}}, true
	}
	switch cl.Method.Name() {
	case "Kind":
		return ret(Int(int64(kindOf(t))))
	case "Name":
		return ret(Str(rname(t)))
	case "PkgPath":
		return ret(Str(rpath(t)))
	case "String":
		return ret(Str(rstring(t)))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return ret(s.typeVal(u.Elem()))
		case *types.Slice:
			return ret(s.typeVal(u.Elem()))
		case *types.Array:
			return ret(s.typeVal(u.Elem()))
		case *types.Map:
			return ret(s.typeVal(u.Elem()))
		case *types.Chan:
			return ret(s.typeVal(u.Elem()))
		}
		return bad()
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return ret(s.typeVal(u.Key()))
		}
		return bad()
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return ret(Int(u.Len()))
		}
		return bad()
	case "Bits":
		if u, ok := t.Underlying().(*types.Basic); ok {
			return ret(Int(types.SizesFor("gc", "amd64").Sizeof(u) * 8))
		}
		return bad()
	case "Comparable":
		return ret(Bool(types.Comparable(t)))
	case "NumMethod":
		if u, ok := t.Underlying().(*types.Interface); ok {
			return ret(Int(int64(u.NumMethods())))
		}
		n := 0
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return ret(Int(int64(n)))
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return ret(Int(int64(u.NumFields())))
		}
		return bad()
	case "Field":
		u, ok := t.Underlying().(*types.Struct)
		c, okc := st.Known(cl.Args[1])
		if !okc {
			return lost()
		}
		i, _ := constant.Int64Val(c.V)
		if !ok || i < 0 || int(i) >= u.NumFields() {
			return bad()
		}
		ft := cl.Common.Signature().Results().At(0).Type()
		fs, ok := ft.Underlying().(*types.Struct)
		if !ok {
			return lost()
		}
		f := u.Field(int(i))
		out := Struct{T: ft}
		for k := 0; k < fs.NumFields(); k++ {
			var v Val = Sym{ID: fmt.Sprintf("%s.%s", cl.Args[0].Key(), fs.Field(k).Name()), T: fs.Field(k).Type()}
			switch fs.Field(k).Name() {
			case "Name":
				v = Str(f.Name())
			case "PkgPath":
				v = Str("")
				if !f.Exported() {
					v = Str(f.Pkg().Path())
				}
			case "Type":
				v = s.typeVal(f.Type())
			case "Tag":
				v = Str(u.Tag(int(i)))
			case "Anonymous":
				v = Bool(f.Embedded())
			}
			out.Fields = append(out.Fields, v)
		}
		return ret(out)
	case "Implements", "AssignableTo", "ConvertibleTo":
		u, ok := s.typeOf(st.Resolve(cl.Args[1]))
		if !ok {
			return lost()
		}
		switch cl.Method.Name() {
		case "AssignableTo":
			return ret(Bool(types.AssignableTo(t, u)))
		case "ConvertibleTo":
			return ret(Bool(types.ConvertibleTo(t, u)))
		}
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			return bad()
		}
		return ret(Bool(types.Implements(t, it)))
	}
	return lost()
}
