// Command instrument copies the Go module under test and rewrites it so that it runs inside the simulator:
// goroutines, channels, select, locks, clocks and sockets become calls of the simulation runtime, and a
// preemption point is placed in front of every statement.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const simMod = "simverif"

var swap = map[string]string{
	"sync":        simMod + "/simsync",
	"sync/atomic": simMod + "/simatomic",
	"time":        simMod + "/simtime",
	"net":         simMod + "/simnet",
	"context":     simMod + "/simctx",
	"runtime":     simMod + "/simruntime",
	"math/rand":   simMod + "/simrand",
	"os":          simMod + "/simos",
	"fmt":         simMod + "/simfmt",
}

type listed struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "module under test")
	out := flag.String("out", "", "build folder")
	simDir := flag.String("sim", "", "simulator sources")
	race := flag.Bool("race", false, "make the code report its accesses of shared variables")
	flag.Parse()

	must(os.MkdirAll(*out, 0o755))
	mod, module := readMod(filepath.Join(*repo, "go.mod"))

	cmd := exec.Command("go", "list", "-mod=readonly", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,Imports,Standard,Module,Error", "./sttp/...",
		"sync", "sync/atomic", "time", "net", "context", "runtime", "math/rand", "os", "fmt", "iter", "reflect")
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	pkgs := map[string]*listed{}
	var order []*listed
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p listed
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		q := p
		pkgs[p.ImportPath] = &q
		order = append(order, &q)
	}
	exports := func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	}

	// Simulator sources.
	must(filepath.Walk(*simDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*simDir, path)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(*out, rel), 0o755)
		}
		if !strings.HasSuffix(path, ".go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		return writeIfChanged(filepath.Join(*out, rel), b)
	}))
	must(writeIfChanged(filepath.Join(*out, "go.mod"), []byte(mod)))
	if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		must(writeIfChanged(filepath.Join(*out, "go.sum"), b))
	}

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", exports)
	for std, sim := range swap {
		aliases(imp, std, filepath.Join(*out, strings.TrimPrefix(sim, simMod+"/")))
	}

	// Packages under test, and the atomic flag package they use.
	dest := map[string]string{}
	for _, p := range order {
		if p.Module != nil && p.Module.Path == module {
			dest[p.ImportPath] = simMod + "/goapi" + strings.TrimPrefix(p.ImportPath, module)
		} else if p.Module != nil && strings.HasPrefix(p.Module.Path, "github.com/tevino/abool") {
			dest[p.ImportPath] = simMod + "/abool"
		}
	}
	for a, b := range swap {
		dest[a] = b
	}
	n := 0
	for _, p := range order {
		to, ok := dest[p.ImportPath]
		if !ok || p.Standard {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		dir := filepath.Join(*out, strings.TrimPrefix(to, simMod+"/"))
		plain := strings.HasSuffix(p.ImportPath, "/sttp/data/parser")
		rewritePackage(fset, p, dir, dest, exports, plain, *race && p.Module.Path == module, func(path string) bool {
			q := pkgs[path]
			return q != nil && q.Module != nil && q.Module.Path == module
		})
		n++
	}
	fmt.Printf("instrumented %d packages\n", n)
}

func readMod(path string) (string, string) {
	b, err := os.ReadFile(path)
	must(err)
	var out []string
	module := ""
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		switch {
		case len(f) == 2 && f[0] == "module":
			module = f[1]
			out = append(out, "module "+simMod)
		case len(f) == 2 && f[0] == "go":
			out = append(out, "go 1.25")
		case len(f) == 2 && f[0] == "toolchain":
		default:
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n"), module
}

func writeIfChanged(path string, b []byte) error {
	if o, err := os.ReadFile(path); err == nil && bytes.Equal(o, b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// aliases writes re-exports of everything in a standard package that its simulated twin does not define.
func aliases(imp types.Importer, std, dir string) {
	pkg, err := imp.Import(std)
	must(err)
	have := map[string]bool{}
	ents, err := os.ReadDir(dir)
	must(err)
	name := ""
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_alias.go" {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, 0)
		must(err)
		name = f.Name.Name
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport real %q\n\n", name, std)
	used := false
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		default:
			continue
		}
		used = true
	}
	if !used {
		os.Remove(filepath.Join(dir, "zz_alias.go"))
		return
	}
	src, err := format.Source(b.Bytes())
	must(err)
	must(writeIfChanged(filepath.Join(dir, "zz_alias.go"), src))
}

type rewriter struct {
	info  *types.Info
	sizes types.Sizes
	n     int

	origin map[*ast.StarExpr]ast.Expr // the variables behind accesses that were split
	ours   func(string) bool
}

const rt = "simrt__"

func rewritePackage(fset *token.FileSet, p *listed, dir string, dest map[string]string, exports func(string) (io.ReadCloser, error), plain, race bool, ours func(string) bool) {
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		must(err)
		files = append(files, a)
	}
	r := &rewriter{sizes: types.SizesFor("gc", "amd64"), origin: map[*ast.StarExpr]ast.Expr{}, ours: ours}
	if !plain {
		r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", exports), Sizes: r.sizes}
		if _, err := conf.Check(p.ImportPath, fset, files, r.info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
	}
	var q *racer
	if race && !plain {
		q = newRacer(r, fset, files)
	}
	must(os.MkdirAll(dir, 0o755))
	old, _ := os.ReadDir(dir)
	keep := map[string]bool{}
	var zeros []string
	at := map[*ast.Ident]string{}
	inits := 0
	for i, f := range files {
		if !plain {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
						inits++
						d.Name.Name = "simInit__" + strconv.Itoa(inits)
					}
					if d.Body != nil {
						r.walk(reflect.ValueOf(d.Body))
						r.block(&d.Body.List, false)
						if q != nil {
							q.decl(d)
						}
					}
				case *ast.GenDecl:
					if d.Tok == token.VAR {
						r.walk(reflect.ValueOf(d))
					}
				}
			}
			fns, zero := r.initFuncs(f, at)
			f.Decls = append(f.Decls, fns...)
			zeros = append(zeros, zero...)
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				continue
			}
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				path, _ := strconv.Unquote(is.Path.Value)
				to, ok := dest[path]
				if !ok || (plain && swap[path] != "") {
					continue
				}
				is.Path.Value = strconv.Quote(to)
				if is.Name == nil && swap[path] != "" {
					is.Name = ast.NewIdent(path[strings.LastIndex(path, "/")+1:])
				}
				if is.Name == nil && strings.HasPrefix(path, "github.com/tevino/abool") {
					is.Name = ast.NewIdent("abool")
				}
			}
		}
		var b bytes.Buffer
		f.Comments = nil
		must(format.Node(&b, token.NewFileSet(), f))
		src := b.String()
		if !plain {
			src = addRT(src)
		}
		name := p.GoFiles[i]
		keep[name] = true
		must(writeIfChanged(filepath.Join(dir, name), []byte(src)))
	}
	if !plain {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport %s %q\n\nfunc init() {\n", p.Name, rt, simMod+"/simrt")
		for i := 1; i <= inits; i++ {
			fmt.Fprintf(&b, "\tsimInit__%d()\n", i)
		}
		if race {
			fmt.Fprintf(&b, "\t%s.TrackRaces()\n", rt)
		}
		fmt.Fprintf(&b, "\t%s.OnReset(simReset__)\n}\n\nfunc simReset__() {\n", rt)
		for _, z := range zeros {
			fmt.Fprintf(&b, "\t%s.Zero(&%s)\n", rt, z)
		}
		names := map[types.Object]string{}
		for n, fn := range at {
			names[r.info.Defs[n]] = fn
		}
		for _, in := range r.info.InitOrder {
			for _, v := range in.Lhs {
				if fn := names[v]; fn != "" {
					fmt.Fprintf(&b, "\t%s()\n", fn)
					break
				}
			}
		}
		for i := 1; i <= inits; i++ {
			fmt.Fprintf(&b, "\tsimInit__%d()\n", i)
		}
		b.WriteString("}\n")
		must(writeIfChanged(filepath.Join(dir, "zz_reset.go"), b.Bytes()))
		keep["zz_reset.go"] = true
	}
	for _, e := range old {
		if !e.IsDir() && !keep[e.Name()] {
			os.Remove(filepath.Join(dir, e.Name()))
		}
	}
}

func addRT(src string) string {
	i := strings.Index(src, "\npackage ")
	if strings.HasPrefix(src, "package ") {
		i = 0
	} else {
		i++
	}
	j := i + strings.Index(src[i:], "\n")
	return src[:j+1] + "\nimport " + rt + " \"" + simMod + "/simrt\"\n" + src[j+1:] + "\nvar _ = " + rt + ".P\n"
}

// initFuncs gives every package level initialiser a function in its own file that repeats it, so that one process
// can run many independent simulations. Variables without an initialiser are zeroed.
func (r *rewriter) initFuncs(f *ast.File, at map[*ast.Ident]string) (funcs []ast.Decl, zero []string) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if n.Name != "_" {
						zero = append(zero, n.Name)
					}
				}
				continue
			}
			add := func(names []*ast.Ident, rhs ast.Expr) {
				fn := r.tmp("init")
				var lhs []ast.Expr
				blank := true
				for _, n := range names {
					lhs = append(lhs, id(n.Name))
					if n.Name != "_" {
						blank = false
						at[n] = fn
					}
				}
				if blank {
					return
				}
				st := &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}
				funcs = append(funcs, &ast.FuncDecl{Name: id(fn), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{st}}})
			}
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				add(vs.Names, vs.Values[0])
			} else {
				for i, n := range vs.Names {
					add([]*ast.Ident{n}, vs.Values[i])
				}
			}
		}
	}
	return
}

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	declType = reflect.TypeOf((*ast.Decl)(nil)).Elem()
	specType = reflect.TypeOf((*ast.Spec)(nil)).Elem()
	nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// walk rewrites the children of a node (depth first), replacing expressions and statements in place.
func (r *rewriter) walk(v reflect.Value) {
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	if sel, ok := v.Interface().(*ast.SelectStmt); ok {
		r.walkSelect(sel)
		return
	}
	if _, ok := v.Interface().(*ast.Ident); ok {
		return
	}
	e := v.Elem()
	if e.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		switch f.Kind() {
		case reflect.Interface:
			if f.IsNil() {
				continue
			}
			switch f.Type() {
			case exprType:
				r.walk(f)
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			case stmtType:
				r.walk(f)
				st := f.Interface().(ast.Stmt)
				if _, ok := v.Interface().(*ast.LabeledStmt); ok {
					// handled by stmt
				} else if bs, ok := st.(*ast.BlockStmt); ok {
					r.block(&bs.List, false) // else branch
				} else if ss, ok := st.(*ast.SendStmt); ok {
					f.Set(reflect.ValueOf(ast.Stmt(r.send(ss))))
				}
			case declType, specType:
				r.walk(f)
			}
		case reflect.Slice:
			switch f.Type().Elem() {
			case exprType:
				for j := 0; j < f.Len(); j++ {
					x := f.Index(j)
					if x.IsNil() {
						continue
					}
					r.walk(x)
					x.Set(reflect.ValueOf(r.expr(x.Interface().(ast.Expr))))
				}
			case stmtType:
				list := f.Addr().Interface().(*[]ast.Stmt)
				for _, st := range *list {
					r.walk(reflect.ValueOf(st))
				}
				if _, ok := v.Interface().(*ast.BlockStmt); ok {
					continue // block() is called by the owner
				}
				r.block(list, false)
			case specType:
				for j := 0; j < f.Len(); j++ {
					r.walk(f.Index(j))
				}
			default:
				if f.Type().Elem().Kind() == reflect.Ptr && f.Type().Elem().Implements(nodeType) {
					for j := 0; j < f.Len(); j++ {
						r.walk(f.Index(j))
					}
				}
			}
		case reflect.Ptr:
			if f.IsNil() || !f.Type().Implements(nodeType) {
				continue
			}
			r.walk(f)
			if c, ok := f.Interface().(*ast.CallExpr); ok {
				f.Set(reflect.ValueOf(r.expr(c)))
			}
			if b, ok := f.Interface().(*ast.BlockStmt); ok {
				switch v.Interface().(type) {
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					// the list holds clauses
				case *ast.ForStmt, *ast.RangeStmt:
					r.block(&b.List, true)
				default:
					r.block(&b.List, false)
				}
			}
		}
	}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func rtCall(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(rt), Sel: id(fn)}, Args: args}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) builtin(e ast.Expr) string {
	i, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[i].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			fn := "Recv"
			if _, ok := r.typeOf(x).(*types.Tuple); ok {
				fn = "Recv2"
			}
			return rtCall(fn, x.X)
		}
	case *ast.FuncLit:
		// body handled by walk
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			return rtCall("Close", x.Args[0])
		case "len":
			if isChan(r.typeOf(x.Args[0])) {
				return rtCall("ChanLen", x.Args[0])
			}
		case "make":
			t := r.typeOf(x.Args[0])
			if t == nil {
				break
			}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				if _, generic := sl.Elem().(*types.TypeParam); generic {
					break
				}
				size := r.sizes.Sizeof(sl.Elem())
				for i := 1; i < len(x.Args); i++ {
					if tv := r.info.Types[x.Args[i]]; tv.Value == nil || tv.Value.Kind() != constant.Int {
						if _, ok := tv.Type.Underlying().(*types.Basic); ok {
							x.Args[i] = rtCall("MakeLen", x.Args[i], &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(size, 10)})
						}
					}
				}
			}
		}
	}
	return e
}

func (r *rewriter) send(s *ast.SendStmt) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: rtCall("SendTo", s.Chan), Args: []ast.Expr{s.Value}}}
}

func (r *rewriter) tmp(p string) string {
	r.n++
	return "sim_" + p + strconv.Itoa(r.n) + "__"
}

func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func point() ast.Stmt { return &ast.ExprStmt{X: rtCall("P")} }

// block rewrites the statements of a list and puts preemption points in front of them.
func (r *rewriter) block(list *[]ast.Stmt, loop bool) {
	var out []ast.Stmt
	for _, st := range *list {
		switch st.(type) {
		case *ast.EmptyStmt:
		default:
			out = append(out, point())
		}
		out = append(out, r.stmt(st))
	}
	if loop && len(out) == 0 {
		out = append(out, point())
	}
	*list = out
}

func (r *rewriter) stmt(st ast.Stmt) ast.Stmt {
	switch x := st.(type) {
	case *ast.LabeledStmt:
		inner := r.stmt(x.Stmt)
		if _, ok := x.Stmt.(*ast.SelectStmt); ok {
			b := inner.(*ast.BlockStmt)
			last := len(b.List) - 1
			b.List[last] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[last]}
			return b
		}
		x.Stmt = inner
		return x
	case *ast.BlockStmt:
		r.block(&x.List, false)
		return x
	case *ast.SendStmt:
		return r.send(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.RangeStmt:
		t := r.typeOf(x.X)
		if isMap(t) {
			x.X = rtCall("MapIter", x.X)
		} else if isChan(t) {
			x.X = rtCall("RangeChan", x.X)
		}
		return x
	case *ast.IncDecStmt:
		if r.shared(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return r.rmw(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			if x.Tok == token.ASSIGN {
				if s, ok := x.Lhs[0].(*ast.SelectorExpr); ok && r.shared(s) {
					tv, ok := r.info.Types[x.Rhs[0]]
					if ok && (tv.Value != nil || tv.IsNil()) {
						return x
					}
					if _, lit := x.Rhs[0].(*ast.FuncLit); lit || !ok {
						return x
					}
					if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
						return x
					}
					t := r.tmp("v")
					x.Lhs[0] = s
					return &ast.BlockStmt{List: []ast.Stmt{define(t, x.Rhs[0]), point(), &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}}
				}
			} else if x.Tok != token.DEFINE && r.shared(x.Lhs[0]) {
				op, ok := opOf[x.Tok]
				if ok {
					return r.rmw(x.Lhs[0], op, x.Rhs[0])
				}
			}
		}
	}
	return st
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// shared reports whether an lvalue may be visible to other goroutines and is addressable.
func (r *rewriter) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.shared(x.X)
	case *ast.SelectorExpr:
		tv, ok := r.info.Types[e]
		return ok && tv.Addressable()
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil || isMap(t) {
			return false
		}
		tv, ok := r.info.Types[e]
		return ok && tv.Addressable()
	case *ast.Ident:
		o, ok := r.info.Uses[x].(*types.Var)
		return ok && o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
	}
	return false
}

// rmw splits a read-modify-write so that other goroutines can run between the read and the write.
func (r *rewriter) rmw(lv ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	p, v := r.tmp("p"), r.tmp("v")
	star, to := &ast.StarExpr{X: id(p)}, &ast.StarExpr{X: id(p)}
	r.origin[star], r.origin[to] = lv, lv
	return &ast.BlockStmt{List: []ast.Stmt{
		define(p, &ast.UnaryExpr{Op: token.AND, X: lv}),
		define(v, star),
		point(),
		&ast.AssignStmt{Lhs: []ast.Expr{to}, Tok: token.ASSIGN,
			Rhs: []ast.Expr{&ast.BinaryExpr{X: id(v), Op: op, Y: &ast.ParenExpr{X: rhs}}}},
	}}
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: rtCall("Go", fl)}
		}
	}
	var list []ast.Stmt
	fn := call.Fun
	if r.builtin(call.Fun) == "" {
		f := r.tmp("f")
		list = append(list, define(f, call.Fun))
		fn = id(f)
	}
	args := make([]ast.Expr, len(call.Args))
	for i, a := range call.Args {
		tv, ok := r.info.Types[a]
		if ok && (tv.Value != nil || tv.IsNil()) {
			args[i] = a
			continue
		}
		t := r.tmp("a")
		list = append(list, define(t, a))
		args[i] = id(t)
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: fn, Args: args, Ellipsis: call.Ellipsis}}}}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}
	list = append(list, &ast.ExprStmt{X: rtCall("Go", lit)})
	return &ast.BlockStmt{List: list}
}

// walkSelect rewrites the operands and bodies of a select statement but keeps its communication clauses.
func (r *rewriter) walkSelect(s *ast.SelectStmt) {
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			r.walkField(&m.Chan)
			r.walkField(&m.Value)
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			r.walkField(&u.X)
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			r.walkField(&u.X)
			for i := range m.Lhs {
				r.walkField(&m.Lhs[i])
			}
		}
		for _, st := range cc.Body {
			r.walk(reflect.ValueOf(st))
		}
		r.block(&cc.Body, false)
	}
}

func (r *rewriter) walkField(e *ast.Expr) {
	r.walk(reflect.ValueOf(*e))
	*e = r.expr(*e)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var list []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	hasDefault := "false"
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: lit(1)}}, Body: cc.Body})
			continue
		}
		n := r.tmp("c")
		i := len(cases)
		cases = append(cases, id(n))
		body := cc.Body
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			list = append(list, define(n, &ast.CallExpr{Fun: &ast.SelectorExpr{X: rtCall("CS", m.Chan), Sel: id("With")}, Args: []ast.Expr{m.Value}}))
		case *ast.ExprStmt:
			list = append(list, define(n, rtCall("CR", unparen(m.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			list = append(list, define(n, rtCall("CR", unparen(m.Rhs[0]).(*ast.UnaryExpr).X)))
			fn := "Val"
			if len(m.Lhs) == 2 {
				fn = "Val2"
			}
			as := &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: id(n), Sel: id(fn)}}}}
			body = append([]ast.Stmt{as}, body...)
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{lit(i)}, Body: body})
	}
	if len(cases) == 0 && hasDefault == "false" {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: rtCall("BlockForever")}}}
	}
	// A default clause keeps a select that ends its function a terminating statement.
	clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	args := append([]ast.Expr{id(hasDefault)}, cases...)
	list = append(list, &ast.SwitchStmt{Tag: rtCall("Select", args...), Body: &ast.BlockStmt{List: clauses}})
	return &ast.BlockStmt{List: list}
}

func lit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }
