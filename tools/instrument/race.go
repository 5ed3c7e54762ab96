package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
)

// racer makes code report its accesses of variables that goroutines may share: struct fields, package variables,
// variables captured by function literals, values behind pointers and the contents of maps. It runs after all
// other rewriting; nodes made by that have no type information and are left alone.
type racer struct {
	r        *rewriter
	fset     *token.FileSet
	fn       string
	at       token.Pos
	captured map[types.Object]bool
}

type mode int

const (
	rd   mode = iota // the value is read
	base             // only the place matters
)

func newRacer(r *rewriter, fset *token.FileSet, files []*ast.File) *racer {
	q := &racer{r: r, fset: fset, captured: map[types.Object]bool{}}
	written := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o := r.info.Uses[x]; o != nil {
					written[o] = true
				}
			}
			return
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.RangeStmt:
				mark(x.Key)
				mark(x.Value)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			}
			return true
		})
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			fl, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			ast.Inspect(fl.Body, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok {
					v, ok := r.info.Uses[i].(*types.Var)
					if ok && !v.IsField() && !q.global(v) && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) && written[v] {
						q.captured[v] = true
					}
				}
				return true
			})
			return true
		})
	}
	return q
}

func (q *racer) decl(d *ast.FuncDecl) {
	q.fn = d.Name.Name
	if d.Recv != nil && len(d.Recv.List) > 0 {
		t := d.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		q.fn = types.ExprString(t) + "." + q.fn
	}
	q.at = d.Pos()
	q.list(&d.Body.List)
}

func (q *racer) global(o types.Object) bool {
	return o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
}

func (q *racer) site(e ast.Expr) ast.Expr {
	pos := q.at
	if e.Pos().IsValid() {
		pos = e.Pos()
	}
	p := q.fset.Position(pos)
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s|%s|%s:%d", q.name(e), q.fn, filepath.Base(p.Filename), p.Line))}
}

// name describes a variable without naming the expression that leads to it.
func (q *racer) name(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return q.name(x.X)
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		if sel := q.r.info.Selections[x]; sel != nil {
			t := sel.Recv()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				return n.Obj().Name() + "." + x.Sel.Name
			}
		}
		return x.Sel.Name
	case *ast.StarExpr:
		if lv := q.r.origin[x]; lv != nil {
			return q.name(lv)
		}
		return "value of " + q.name(x.X)
	case *ast.IndexExpr:
		return "element of " + q.name(x.X)
	}
	return "value"
}

// local reports whether a place belongs to a variable of the running function that nothing else can see.
func (q *racer) local(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return q.local(x.X)
	case *ast.Ident:
		v, ok := q.r.info.Uses[x].(*types.Var)
		if !ok {
			return true
		}
		return !q.global(v) && !q.captured[v]
	case *ast.SelectorExpr:
		sel := q.r.info.Selections[x]
		if sel == nil {
			return false
		}
		return !sel.Indirect() && q.local(x.X)
	case *ast.IndexExpr:
		if _, ok := under(q.r.typeOf(x.X)).(*types.Array); ok {
			return q.local(x.X)
		}
	}
	return false
}

// elements reports whether accesses of the elements of a type are reported: those of slices, but not of bytes.
func elements(t types.Type) bool {
	sl, ok := t.(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(sl.Elem()).(*types.Basic)
	return !ok || b.Kind() != types.Uint8
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// place reports whether e is a variable whose accesses are reported.
func (q *racer) place(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := q.r.info.Uses[x].(*types.Var)
		return ok && !v.IsField() && (q.captured[v] || q.global(v))
	case *ast.SelectorExpr:
		if sel := q.r.info.Selections[x]; sel != nil {
			return sel.Kind() == types.FieldVal && q.r.info.Types[e].Addressable() && !q.local(e)
		}
		v, ok := q.r.info.Uses[x.Sel].(*types.Var)
		return ok && q.global(v) && q.ours(v.Pkg())
	case *ast.StarExpr:
		if q.r.origin[x] != nil {
			return true
		}
		return q.r.typeOf(x) != nil
	}
	return false
}

func (q *racer) ours(p *types.Package) bool { return q.r.ours(p.Path()) }

func (q *racer) touch(fn string, e ast.Expr, site ast.Expr) ast.Expr {
	if s, ok := e.(*ast.StarExpr); ok {
		return &ast.ParenExpr{X: &ast.StarExpr{X: rtCall(fn, s.X, site)}}
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: rtCall(fn, &ast.UnaryExpr{Op: token.AND, X: e}, site)}}
}

func (q *racer) ex(e ast.Expr, m mode) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := q.r.info.Types[e]; ok && (tv.IsType() || tv.Value != nil || tv.IsBuiltin()) {
		return e
	}
	if e.Pos().IsValid() {
		q.at = e.Pos()
	}
	isPlace := q.place(e)
	site := ast.Expr(nil)
	if isPlace {
		site = q.site(e)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = q.ex(x.X, m)
		return x
	case *ast.SelectorExpr:
		sel := q.r.info.Selections[x]
		if sel == nil {
			break
		}
		_, ptr := under(q.r.typeOf(x.X)).(*types.Pointer)
		switch {
		case sel.Kind() == types.FieldVal && ptr:
			x.X = q.ex(x.X, rd)
		case sel.Kind() == types.FieldVal:
			x.X = q.ex(x.X, base)
		case sel.Kind() == types.MethodVal:
			_, want := sel.Obj().Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
			if want && !ptr {
				x.X = q.ex(x.X, base)
			} else {
				x.X = q.ex(x.X, rd)
			}
		}
	case *ast.IndexExpr:
		t := under(q.r.typeOf(x.X))
		switch t.(type) {
		case *types.Map:
			s := q.site(x)
			x.X, x.Index = q.ex(x.X, rd), q.ex(x.Index, rd)
			if m == rd {
				x.X = rtCall("MR", x.X, s)
			}
		case *types.Array:
			x.X, x.Index = q.ex(x.X, m), q.ex(x.Index, rd)
		case *types.Pointer:
			s := q.site(x)
			x.X, x.Index = q.ex(x.X, rd), q.ex(x.Index, rd)
			if m == rd {
				x.X = rtCall("Rd", x.X, s)
			}
		case *types.Slice, *types.Basic:
			s := q.site(x)
			x.X, x.Index = q.ex(x.X, rd), q.ex(x.Index, rd)
			if m == rd && elements(t) {
				return q.touch("Rd", x, s)
			}
		}
		return x
	case *ast.StarExpr:
		x.X = q.ex(x.X, rd)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			x.X = q.ex(x.X, base)
		} else {
			x.X = q.ex(x.X, rd)
		}
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = q.ex(x.X, rd), q.ex(x.Y, rd)
		return x
	case *ast.CallExpr:
		switch b := q.r.builtin(x.Fun); b {
		case "delete", "clear":
			s := q.site(x.Args[0])
			isM := isMap(q.r.typeOf(x.Args[0]))
			for i := range x.Args {
				x.Args[i] = q.ex(x.Args[i], rd)
			}
			if isM {
				x.Args[0] = rtCall("MW", x.Args[0], s)
			}
			return x
		case "":
			x.Fun = q.ex(x.Fun, rd)
		}
		for i := range x.Args {
			x.Args[i] = q.ex(x.Args[i], rd)
		}
		return x
	case *ast.CompositeLit:
		_, st := under(q.r.typeOf(x)).(*types.Struct)
		if p, ok := under(q.r.typeOf(x)).(*types.Pointer); ok {
			_, st = p.Elem().Underlying().(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !st {
					kv.Key = q.ex(kv.Key, rd)
				}
				kv.Value = q.ex(kv.Value, rd)
			} else {
				x.Elts[i] = q.ex(el, rd)
			}
		}
		return x
	case *ast.FuncLit:
		fn := q.fn
		q.fn += ".func"
		q.list(&x.Body.List)
		q.fn = fn
		return x
	case *ast.SliceExpr:
		if _, ok := under(q.r.typeOf(x.X)).(*types.Array); ok {
			x.X = q.ex(x.X, base)
		} else {
			x.X = q.ex(x.X, rd)
		}
		x.Low, x.High, x.Max = q.ex(x.Low, rd), q.ex(x.High, rd), q.ex(x.Max, rd)
		return x
	case *ast.TypeAssertExpr:
		x.X = q.ex(x.X, rd)
		return x
	}
	if isPlace && m == rd {
		return q.touch("Rd", e, site)
	}
	return e
}

// pure reports whether evaluating a place twice is harmless.
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	}
	return false
}

// target handles the left side of an assignment. The write is reported by a statement after it where there is room
// for one, because the right side may block.
func (q *racer) target(e ast.Expr, post *[]ast.Stmt) ast.Expr {
	if x, ok := e.(*ast.ParenExpr); ok {
		return q.target(x.X, post)
	}
	if x, ok := e.(*ast.IndexExpr); ok {
		switch under(q.r.typeOf(x.X)).(type) {
		case *types.Map:
			site, p := q.site(x), pure(x.X)
			x.X, x.Index = q.ex(x.X, rd), q.ex(x.Index, rd)
			if post != nil && p {
				*post = append(*post, &ast.ExprStmt{X: rtCall("MW", x.X, site)})
			} else {
				x.X = rtCall("MW", x.X, site)
			}
			return x
		case *types.Array:
			x.Index = q.ex(x.Index, rd)
			x.X = q.target(x.X, post)
			return x
		case *types.Pointer:
			s := q.site(x)
			x.X, x.Index = rtCall("Wr", q.ex(x.X, rd), s), q.ex(x.Index, rd)
			return x
		}
		if !elements(under(q.r.typeOf(x.X))) {
			return q.ex(e, base)
		}
	} else if !q.place(e) {
		return q.ex(e, base)
	}
	site, p := q.site(e), pure(e)
	e = q.ex(e, base)
	if post != nil && p {
		var at ast.Expr = &ast.UnaryExpr{Op: token.AND, X: e}
		if s, ok := e.(*ast.StarExpr); ok {
			at = s.X
		}
		*post = append(*post, &ast.ExprStmt{X: rtCall("Wr", at, site)})
		return e
	}
	return q.touch("Wr", e, site)
}

func (q *racer) list(l *[]ast.Stmt) {
	var out []ast.Stmt
	for _, st := range *l {
		var post []ast.Stmt
		q.stmt(st, &post)
		out = append(append(out, st), post...)
	}
	*l = out
}

func (q *racer) block(b *ast.BlockStmt) {
	if b != nil {
		q.list(&b.List)
	}
}

func (q *racer) stmt(st ast.Stmt, post *[]ast.Stmt) {
	switch x := st.(type) {
	case *ast.ExprStmt:
		x.X = q.ex(x.X, rd)
	case *ast.AssignStmt:
		for i := range x.Rhs {
			x.Rhs[i] = q.ex(x.Rhs[i], rd)
		}
		if x.Tok != token.DEFINE {
			for i := range x.Lhs {
				x.Lhs[i] = q.target(x.Lhs[i], post)
			}
		} else {
			// A definition may assign to variables that exist already.
			for _, l := range x.Lhs {
				if i, ok := l.(*ast.Ident); ok && q.r.info.Defs[i] == nil && q.place(i) && post != nil {
					*post = append(*post, &ast.ExprStmt{X: rtCall("Wr", &ast.UnaryExpr{Op: token.AND, X: i}, q.site(i))})
				}
			}
		}
	case *ast.IncDecStmt:
		x.X = q.target(x.X, post)
	case *ast.IfStmt:
		if x.Init != nil {
			q.stmt(x.Init, nil)
		}
		x.Cond = q.ex(x.Cond, rd)
		q.block(x.Body)
		if x.Else != nil {
			q.stmt(x.Else, nil)
		}
	case *ast.ForStmt:
		if x.Init != nil {
			q.stmt(x.Init, nil)
		}
		x.Cond = q.ex(x.Cond, rd)
		if x.Post != nil {
			q.stmt(x.Post, nil)
		}
		q.block(x.Body)
	case *ast.RangeStmt:
		site, all := q.site(x.X), x.Value != nil && elements(under(q.r.typeOf(x.X)))
		x.X = q.ex(x.X, rd)
		if all {
			x.X = rtCall("RS", x.X, site)
		}
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				x.Key = q.target(x.Key, nil)
			}
			if x.Value != nil {
				x.Value = q.target(x.Value, nil)
			}
		}
		q.block(x.Body)
	case *ast.SwitchStmt:
		if x.Init != nil {
			q.stmt(x.Init, nil)
		}
		x.Tag = q.ex(x.Tag, rd)
		q.block(x.Body)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			q.stmt(x.Init, nil)
		}
		q.stmt(x.Assign, nil)
		q.block(x.Body)
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = q.ex(x.List[i], rd)
		}
		q.list(&x.Body)
	case *ast.BlockStmt:
		q.list(&x.List)
	case *ast.LabeledStmt:
		q.stmt(x.Stmt, nil)
	case *ast.DeferStmt:
		q.ex(x.Call, rd)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = q.ex(x.Results[i], rd)
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				for i := range v.Values {
					v.Values[i] = q.ex(v.Values[i], rd)
				}
			}
		}
	}
}
