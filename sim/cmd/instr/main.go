// Command instr writes an instrumented copy of the packages under test and a build overlay for it:
// package sync becomes simsync, shared-memory accesses and statements become scheduling points,
// read-modify-write assignments are split, and map iteration order comes from a seed.
//
//	instr OUTDIR PACKAGE...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

func main() {
	out := os.Args[1]
	pats := os.Args[2:]
	gobin := os.Getenv("VERIF_GO")
	if gobin == "" {
		gobin = "/usr/local/bin/go1.23"
	}
	cmd := exec.Command(gobin, append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles"}, append(pats, "verif/sim/simsync", "verif/sim/simsync/atomic")...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fail(err)
	}
	all := map[string]*pkg{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail(err)
		}
		q := p
		all[p.ImportPath] = &q
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	overlay := map[string]string{}
	for _, path := range pats {
		p := all[path]
		if p == nil {
			fail(fmt.Errorf("package %s not found", path))
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fail(err)
			}
			files = append(files, a)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(path, fset, files, info)
		if err != nil {
			fail(err)
		}
		channels := false // synchronisation the simulated scheduler does not model
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
					channels = true
				case *ast.UnaryExpr:
					channels = channels || n.Op == token.ARROW
				}
				return true
			})
		}
		for i, f := range files {
			in := &instr{pkg: tp, info: info, fset: fset, channels: channels}
			in.file(f, i == 0)
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, f); err != nil {
				fail(fmt.Errorf("%s: %v", p.GoFiles[i], err))
			}
			dst := filepath.Join(out, strings.ReplaceAll(path, "/", "_")+"_"+p.GoFiles[i])
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				fail(err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fail(err)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

const alias = "simsync_"

type instr struct {
	pkg  *types.Package
	info *types.Info
	fset *token.FileSet
	n    int

	channels bool
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func sel(x, s string) ast.Expr {
	return &ast.SelectorExpr{X: id(x), Sel: id(s)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func str(s string) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
}

func (in *instr) file(f *ast.File, first bool) {
	f.Comments = nil
	f.Doc = nil
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			if im.Name == nil {
				im.Name = id("sync")
			}
			im.Path.Value = strconv.Quote("verif/sim/simsync")
		case "sync/atomic":
			if im.Name == nil {
				im.Name = id("atomic")
			}
			im.Path.Value = strconv.Quote("verif/sim/simsync/atomic")
		}
	}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				n.Doc = nil
				if n.Body != nil {
					in.block(n.Body)
				}
				return false
			case *ast.FuncLit:
				in.block(n.Body)
				return false
			case *ast.GenDecl:
				n.Doc = nil
			case *ast.Field:
				n.Doc, n.Comment = nil, nil
			case *ast.ValueSpec:
				n.Doc, n.Comment = nil, nil
			case *ast.TypeSpec:
				n.Doc, n.Comment = nil, nil
			case *ast.ImportSpec:
				n.Doc, n.Comment = nil, nil
			}
			return true
		})
	}
	spec := &ast.ImportSpec{Name: id(alias), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/sim/simsync")}}
	decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{decl}, f.Decls...)
	f.Imports = append(f.Imports, spec)
	// keep the import used
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{sel(alias, "Point")}}}}
	f.Decls = append(f.Decls, use)
	if first {
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{sel(alias, "Instrumented")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id("true")}},
			&ast.AssignStmt{Lhs: []ast.Expr{sel(alias, "Channels")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: sel(alias, "Channels"), Op: token.LOR, Y: id(strconv.FormatBool(in.channels))}}}}}})
	}
}

func (in *instr) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.stmts(b.List)
	}
}

func (in *instr) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		pre, n := in.stmt(s)
		o = append(o, &ast.ExprStmt{X: call(sel(alias, "Point"))})
		o = append(o, pre...)
		o = append(o, n)
	}
	return o
}

// stmt returns statements to run before s and the rewritten s.
func (in *instr) stmt(s ast.Stmt) (pre []ast.Stmt, out ast.Stmt) {
	out = s
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.block(s)
	case *ast.LabeledStmt:
		_, n := in.stmt(s.Stmt)
		s.Stmt = n
	case *ast.IfStmt:
		in.lits(s.Cond)
		acc := in.reads(s.Cond, nil)
		in.block(s.Body)
		if s.Else != nil {
			if e, ok := s.Else.(*ast.IfStmt); ok {
				p, n := in.stmt(e)
				s.Else = &ast.BlockStmt{List: append(p, n)}
			} else {
				in.stmt(s.Else)
			}
		}
		if s.Init != nil {
			p, n := in.stmt(s.Init)
			s.Init = nil
			l := append(p, n)
			l = append(l, acc...)
			out = &ast.BlockStmt{List: append(l, s)}
			return
		}
		pre = acc
	case *ast.ForStmt:
		if s.Init != nil {
			in.lits(s.Init)
		}
		if s.Cond != nil {
			in.lits(s.Cond)
		}
		if s.Post != nil {
			in.lits(s.Post)
		}
		in.block(s.Body)
	case *ast.RangeStmt:
		in.lits(s.X)
		pre = in.reads(s.X, nil)
		if t := in.info.TypeOf(s.X); t != nil {
			if _, ok := t.Underlying().(*types.Map); ok {
				if simple(s.X) {
					pre = append(pre, in.mapAcc(s.X, false)...)
				}
				in.block(s.Body)
				in.mapRange(s)
				return
			}
		}
		in.block(s.Body)
	case *ast.SwitchStmt:
		if s.Init == nil && s.Tag != nil {
			in.lits(s.Tag)
			pre = in.reads(s.Tag, nil)
		}
		in.cases(s.Body)
	case *ast.TypeSwitchStmt:
		in.cases(s.Body)
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = in.stmts(cc.Body)
		}
	case *ast.GoStmt:
		in.lits(s.Call)
		pre = in.reads(s.Call, nil)
		out = in.goStmt(s)
	case *ast.DeferStmt:
		in.lits(s.Call)
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			in.lits(e)
			pre = append(pre, in.reads(e, nil)...)
		}
		for _, e := range s.Lhs {
			in.lits(e)
		}
		if s.Tok == token.DEFINE {
			return
		}
		if len(s.Lhs) == 1 && in.shared(s.Lhs[0]) {
			e := s.Lhs[0]
			rhs := s.Rhs[0]
			if s.Tok != token.ASSIGN {
				pre = append(pre, in.acc(e, false)...)
				op := s.Tok - token.ADD_ASSIGN + token.ADD
				rhs = &ast.BinaryExpr{X: e, Op: op, Y: &ast.ParenExpr{X: rhs}}
				if op == token.SHL || op == token.SHR {
					pre = append(pre, in.acc(e, true)...)
					return
				}
			}
			out = &ast.ExprStmt{X: call(call(sel(alias, "Assign"), &ast.UnaryExpr{Op: token.AND, X: e}, str(in.name(e))), rhs)}
			return
		}
		for _, e := range s.Lhs {
			pre = append(pre, in.lhs(e)...)
		}
	case *ast.IncDecStmt:
		pre = in.lhs(s.X)
	case *ast.ExprStmt:
		in.lits(s.X)
		pre = in.reads(s.X, nil)
		if c, ok := s.X.(*ast.CallExpr); ok {
			if f, ok := c.Fun.(*ast.Ident); ok && (f.Name == "delete" || f.Name == "clear") && len(c.Args) > 0 && in.isMap(c.Args[0]) && simple(c.Args[0]) {
				pre = append(pre, in.mapAcc(c.Args[0], true)...)
			}
		}
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			in.lits(e)
			pre = append(pre, in.reads(e, nil)...)
		}
	case *ast.DeclStmt:
		in.lits(s)
	case *ast.SendStmt:
		in.lits(s.Value)
	}
	return
}

func (in *instr) cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		cc.Body = in.stmts(cc.Body)
	}
}

// lits instruments function literals inside an expression or simple statement.
func (in *instr) lits(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		if f, ok := x.(*ast.FuncLit); ok {
			in.block(f.Body)
			return false
		}
		return true
	})
}

func (in *instr) goStmt(s *ast.GoStmt) ast.Stmt {
	// arguments are evaluated by the caller
	var l []ast.Stmt
	c := *s.Call
	c.Args = append([]ast.Expr(nil), c.Args...)
	for i, a := range c.Args {
		in.n++
		v := fmt.Sprintf("simarg%d_", in.n)
		l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		c.Args[i] = id(v)
	}
	f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &c}}}}
	l = append(l, &ast.ExprStmt{X: call(sel(alias, "Go"), f)})
	return &ast.BlockStmt{List: l}
}

func (in *instr) mapRange(s *ast.RangeStmt) {
	in.n++
	v := fmt.Sprintf("simentry%d_", in.n)
	var l []ast.Stmt
	blank := func(e ast.Expr) bool { i, ok := e.(*ast.Ident); return e == nil || ok && i.Name == "_" }
	if !blank(s.Key) {
		l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{sel(v, "K")}})
	}
	if !blank(s.Value) {
		l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{sel(v, "V")}})
	}
	s.X = call(sel(alias, "Entries"), s.X)
	s.Body.List = append(l, s.Body.List...)
	if len(l) == 0 {
		s.Key, s.Value, s.Tok = nil, nil, token.ILLEGAL
		return
	}
	s.Key, s.Value, s.Tok = id("_"), id(v), token.DEFINE
}

// simple: a path of identifiers, free of side effects.
func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_"
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.ParenExpr:
		return simple(e.X)
	}
	return false
}

func (in *instr) isMap(e ast.Expr) bool {
	t := in.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// shared: a package-level variable of this package or a field reached through a pointer.
func (in *instr) shared(e ast.Expr) bool {
	if !simple(e) {
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.shared(e.X)
	case *ast.Ident:
		v, ok := in.info.Uses[e].(*types.Var)
		return ok && v.Parent() == in.pkg.Scope() && !syncType(v.Type())
	case *ast.SelectorExpr:
		s := in.info.Selections[e]
		if s == nil { // qualified identifier
			v, ok := in.info.Uses[e.Sel].(*types.Var)
			return ok && !v.IsField() && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), modPrefix(in.pkg.Path())) && !syncType(v.Type())
		}
		if s.Kind() != types.FieldVal || syncType(s.Type()) || len(s.Index()) != 1 {
			return false
		}
		if _, ok := in.info.TypeOf(e.X).Underlying().(*types.Pointer); ok {
			return true
		}
		return in.shared(e.X)
	}
	return false
}

func modPrefix(p string) string {
	l := strings.Split(p, "/")
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, "/")
}

func syncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func (in *instr) name(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return in.pkg.Name() + "." + e.Name
	case *ast.SelectorExpr:
		if t := in.info.TypeOf(e.X); t != nil {
			return types.TypeString(t, types.RelativeTo(in.pkg)) + "." + e.Sel.Name
		}
	case *ast.ParenExpr:
		return in.name(e.X)
	}
	return "memory"
}

// guard wraps st in nil checks for the pointers on the path to e.
func (in *instr) guard(e ast.Expr, st ast.Stmt) ast.Stmt {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.SelectorExpr:
			if in.info.Selections[x] != nil {
				if _, ok := in.info.TypeOf(x.X).Underlying().(*types.Pointer); ok {
					st = &ast.IfStmt{Cond: &ast.BinaryExpr{X: x.X, Op: token.NEQ, Y: id("nil")}, Body: &ast.BlockStmt{List: []ast.Stmt{st}}}
				}
			}
			e = x.X
			continue
		}
		return st
	}
}

func (in *instr) acc(e ast.Expr, write bool) []ast.Stmt {
	f := "R"
	if write {
		f = "W"
	}
	return []ast.Stmt{in.guard(e, &ast.ExprStmt{X: call(sel(alias, f), &ast.UnaryExpr{Op: token.AND, X: e}, str(in.name(e)))})}
}

func (in *instr) mapAcc(e ast.Expr, write bool) []ast.Stmt {
	f := "MR"
	if write {
		f = "MW"
	}
	return []ast.Stmt{in.guard(e, &ast.ExprStmt{X: call(sel(alias, f), e, str("the map "+in.name(e)))})}
}

func (in *instr) lhs(e ast.Expr) []ast.Stmt {
	if in.shared(e) {
		return in.acc(e, true)
	}
	if ix, ok := e.(*ast.IndexExpr); ok && simple(ix.X) && in.isMap(ix.X) {
		pre := in.reads(ix.Index, nil)
		if in.shared(ix.X) {
			pre = append(pre, in.acc(ix.X, false)...)
		}
		return append(pre, in.mapAcc(ix.X, true)...)
	}
	if ix, ok := e.(*ast.IndexExpr); ok {
		pre := in.reads(ix.X, nil)
		return append(pre, in.reads(ix.Index, nil)...)
	}
	return nil
}

// reads lists the shared reads of an expression that are evaluated unconditionally, before any call in it.
func (in *instr) reads(n ast.Expr, pre []ast.Stmt) []ast.Stmt {
	var walk func(e ast.Expr)
	stop := false
	walk = func(e ast.Expr) {
		if e == nil || stop {
			return
		}
		if in.shared(e) {
			pre = append(pre, in.acc(e, false)...)
			return
		}
		switch e := e.(type) {
		case *ast.ParenExpr:
			walk(e.X)
		case *ast.SelectorExpr:
			if s := in.info.Selections[e]; s != nil {
				if s.Kind() == types.MethodVal {
					if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
						if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
							if _, isPtr := in.info.TypeOf(e.X).Underlying().(*types.Pointer); !isPtr {
								return // address taken
							}
						}
					}
				}
				walk(e.X)
			}
		case *ast.UnaryExpr:
			if e.Op != token.AND && e.Op != token.ARROW {
				walk(e.X)
			}
		case *ast.StarExpr:
			walk(e.X)
		case *ast.BinaryExpr:
			walk(e.X)
			if e.Op == token.LAND || e.Op == token.LOR {
				stop = true
				return
			}
			walk(e.Y)
		case *ast.CallExpr:
			walk(e.Fun)
			for _, a := range e.Args {
				walk(a)
			}
			if tv, ok := in.info.Types[e.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
				return
			}
			stop = true // what follows is read after the call
		case *ast.IndexExpr:
			if tv, ok := in.info.Types[e.X]; ok && tv.IsValue() {
				walk(e.X)
				if simple(e.X) && in.isMap(e.X) {
					pre = append(pre, in.mapAcc(e.X, false)...)
				}
				walk(e.Index)
			}
		case *ast.SliceExpr:
			walk(e.X)
			walk(e.Low)
			walk(e.High)
		case *ast.TypeAssertExpr:
			walk(e.X)
		case *ast.CompositeLit:
			for _, x := range e.Elts {
				if kv, ok := x.(*ast.KeyValueExpr); ok {
					walk(kv.Value)
				} else {
					walk(x)
				}
			}
		case *ast.KeyValueExpr:
			walk(e.Value)
		}
	}
	walk(n)
	return pre
}
