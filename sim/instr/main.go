// Command instr copies the packages of jart/gosip into a scratch module and
// rewrites them so that every goroutine, channel operation, clock, socket,
// lookup, lock and random number goes to the simulator. It judges nothing and
// knows nothing about particular functions: whatever the working tree contains
// is what gets simulated.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/jart/gosip"

// Standard packages with a simulated counterpart, and what the latter is called.
var simPkgs = map[string]string{
	"net":          "snet",
	"time":         "stime",
	"crypto/rand":  "scrand",
	"math/rand":    "smrand",
	"math/rand/v2": "smrand",
	"sync":         "ssync",
	"log":          "slog",
	"runtime":      "sruntime",
	"context":      "scontext",
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	SFiles     []string
	HFiles     []string
	EmbedFiles []string
	Error      *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 4 {
		die("usage: instr REPO ZSIM OUT")
	}
	repo, zsim, out := os.Args[1], os.Args[2], os.Args[3]
	exported := map[string]map[string]bool{}
	for _, s := range simPkgs {
		if exported[s] == nil {
			exported[s] = exportedNames(filepath.Join(zsim, s))
		}
	}
	args := append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Export,Standard,GoFiles,SFiles,HFiles,EmbedFiles,Error"}, os.Args[4:]...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	done := map[string]*types.Package{}
	imp := impFunc(func(path string) (*types.Package, error) {
		if p := done[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})
	for _, p := range pkgs {
		info := &types.Info{
			Types:     map[ast.Expr]types.TypeAndValue{},
			Uses:      map[*ast.Ident]types.Object{},
			Defs:      map[*ast.Ident]types.Object{},
			Instances: map[*ast.Ident]types.Instance{},
			Implicits: map[ast.Node]types.Object{},
		}
		var files []*ast.File
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
		}
		conf := types.Config{Importer: imp, FakeImportC: true}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("%v", err)
		}
		done[p.ImportPath] = tp
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		dir := filepath.Join(out, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		for i, f := range files {
			rw := &rewriter{info: info, exported: exported, used: map[string]bool{}}
			rw.file(f)
			var b bytes.Buffer
			if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f); err != nil {
				die("%s: %v", p.GoFiles[i], err)
			}
			if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), b.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
		}
		var other []string
		other = append(other, p.SFiles...)
		other = append(other, p.HFiles...)
		other = append(other, p.EmbedFiles...)
		for _, name := range other {
			data, err := os.ReadFile(filepath.Join(p.Dir, name))
			if err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(filepath.Join(dir, name), data, 0o644); err != nil {
				die("%v", err)
			}
		}
	}
}

type impFunc func(path string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

func exportedNames(dir string) map[string]bool {
	r := map[string]bool{}
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil || len(fs) == 0 {
		die("no simulator package in %s", dir)
	}
	for _, name := range fs {
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					r[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						r[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							r[n.Name] = true
						}
					}
				}
			}
		}
	}
	return r
}

type rewriter struct {
	info     *types.Info
	exported map[string]map[string]bool
	used     map[string]bool // simulator packages the file needs
	n        int
}

func (rw *rewriter) tmp() *ast.Ident {
	rw.n++
	return ast.NewIdent("zz" + strconv.Itoa(rw.n))
}

func (rw *rewriter) rt(name string) ast.Expr {
	rw.used["rt"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzrt"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func stmtOf(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func define(l []ast.Expr, r ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
}

func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (rw *rewriter) file(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		rw.any(reflect.ValueOf(d))
	}
	// Which imports are still referred to?
	live := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := rw.info.Uses[id].(*types.PkgName); ok {
				live[pn.Imported().Path()] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			var specs []ast.Spec
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				path, _ := strconv.Unquote(is.Path.Value)
				name := ""
				if is.Name != nil {
					name = is.Name.Name
				}
				if name == "_" || name == "." || live[path] || path == "unsafe" && name == "_" {
					specs = append(specs, s)
				}
			}
			if len(specs) == 0 {
				continue
			}
			g.Specs = specs
			g.Lparen = 1
		}
		decls = append(decls, d)
	}
	var names []string
	for n := range rw.used {
		names = append(names, n)
	}
	sort.Strings(names)
	var pre []ast.Decl
	for _, n := range names {
		pre = append(pre, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("zz" + n),
			Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zsim/" + n)},
		}}})
	}
	f.Decls = append(pre, decls...)
	f.Imports = nil
}

// any rewrites the node v and everything below it, in place.
func (rw *rewriter) any(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch n := v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.Ident, *ast.BasicLit, *ast.ImportSpec:
			return
		case *ast.FuncDecl:
			n.Doc = nil
			rw.any(v.Elem())
			rw.tick(n.Body)
			return
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.CallExpr:
			// Reached for calls held by defer and go.
			rw.callInPlace(n)
			return
		}
		rw.any(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface || f.Kind() == reflect.Slice {
				rw.any(f)
			}
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		switch n := v.Interface().(type) {
		case ast.Expr:
			r := rw.expr(n)
			v.Set(reflect.ValueOf(&r).Elem())
		case ast.Stmt:
			r := rw.stmt(n, nil)
			v.Set(reflect.ValueOf(&r).Elem())
		default:
			rw.any(v.Elem())
		}
	case reflect.Slice:
		if l, ok := v.Interface().([]ast.Stmt); ok {
			v.Set(reflect.ValueOf(rw.list(l)))
			return
		}
		for i := 0; i < v.Len(); i++ {
			rw.any(v.Index(i))
		}
	}
}

func (rw *rewriter) tick(b *ast.BlockStmt) {
	if b != nil {
		b.List = append([]ast.Stmt{stmtOf(call(rw.rt("Tick")))}, b.List...)
	}
}

func (rw *rewriter) children(n any) { rw.any(reflect.ValueOf(n).Elem()) }

func (rw *rewriter) isChan(e ast.Expr) bool {
	t := rw.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (rw *rewriter) builtin(e ast.Expr) string {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := rw.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// callInPlace rewrites a call that has to stay a call.
func (rw *rewriter) callInPlace(n *ast.CallExpr) {
	switch b := rw.builtin(n.Fun); {
	case b == "close":
		n.Args[0] = rw.expr(n.Args[0])
		n.Fun = rw.rt("Close")
		return
	case b == "len" && len(n.Args) == 1 && rw.isChan(n.Args[0]):
		n.Args[0] = rw.expr(n.Args[0])
		n.Fun = rw.rt("Len")
		return
	}
	rw.children(n)
}

func (rw *rewriter) expr(e ast.Expr) ast.Expr {
	switch n := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.FuncLit:
		rw.children(n)
		rw.tick(n.Body)
		return n
	case *ast.CallExpr:
		rw.callInPlace(n)
		return n
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			c := rw.expr(n.X)
			f := "Recv"
			if _, ok := rw.info.TypeOf(n).(*types.Tuple); ok {
				f = "Recv2"
			}
			return call(rw.rt(f), c)
		}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if pn, ok := rw.info.Uses[id].(*types.PkgName); ok {
				if s := simPkgs[pn.Imported().Path()]; s != "" && rw.exported[s][n.Sel.Name] {
					rw.used[s] = true
					return &ast.SelectorExpr{X: ast.NewIdent("zz" + s), Sel: n.Sel}
				}
			}
			return n
		}
	}
	rw.children(e)
	return e
}

func (rw *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if ls, ok := s.(*ast.LabeledStmt); ok {
			inner := ls.Stmt
			switch inner.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.BlockStmt:
				out = append(out, rw.stmt(inner, ls.Label))
			default:
				ls.Stmt = stmtOf(call(rw.rt("Tick")))
				out = append(out, ls, rw.stmt(inner, nil))
			}
			continue
		}
		out = append(out, rw.stmt(s, nil))
	}
	return out
}

func labeled(label *ast.Ident, s ast.Stmt) ast.Stmt {
	if label == nil {
		return s
	}
	return &ast.LabeledStmt{Label: label, Stmt: s}
}

func (rw *rewriter) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch n := s.(type) {
	case *ast.LabeledStmt:
		return rw.stmt(n.Stmt, n.Label)
	case *ast.SendStmt:
		return labeled(label, stmtOf(call(&ast.SelectorExpr{X: call(rw.rt("S_"), rw.expr(n.Chan)), Sel: ast.NewIdent("Send")}, rw.expr(n.Value))))
	case *ast.GoStmt:
		return labeled(label, rw.goStmt(n))
	case *ast.SelectStmt:
		return rw.selectStmt(n, label)
	case *ast.ForStmt:
		rw.children(n)
		rw.tick(n.Body)
		return labeled(label, n)
	case *ast.RangeStmt:
		return rw.rangeStmt(n, label)
	}
	rw.children(s)
	return labeled(label, s)
}

func (rw *rewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return stmtOf(call(rw.rt("Go"), rw.plain(fl)))
	}
	var pre []ast.Stmt
	bi := rw.builtin(c.Fun)
	sig := rw.info.TypeOf(c.Fun)
	inlineFun := bi != ""
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		if _, ok := rw.info.Uses[f].(*types.Func); ok {
			inlineFun = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := rw.info.Uses[id].(*types.PkgName); ok {
				inlineFun = true
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inlineFun = true
	}
	if _, ok := sig.(*types.Signature); !ok && bi == "" {
		if _, ok := sig.Underlying().(*types.Signature); !ok {
			inlineFun = true
		}
	}
	var keep []bool
	for _, a := range c.Args {
		tv := rw.info.Types[a]
		_, tuple := tv.Type.(*types.Tuple)
		b, basic := tv.Type.(*types.Basic)
		keep = append(keep, tv.Value != nil || tv.IsNil() || tuple || tv.IsType() || basic && b.Info()&types.IsUntyped != 0)
	}
	rw.callInPlace(c)
	if !inlineFun {
		t := rw.tmp()
		pre = append(pre, define([]ast.Expr{t}, c.Fun))
		c.Fun = t
	}
	for i := range c.Args {
		if keep[i] {
			continue
		}
		t := rw.tmp()
		pre = append(pre, define([]ast.Expr{t}, c.Args[i]))
		c.Args[i] = t
	}
	ft := &ast.FuncType{Params: &ast.FieldList{}}
	inner := &ast.FuncLit{Type: ft, Body: &ast.BlockStmt{List: []ast.Stmt{stmtOf(c)}}}
	if len(pre) == 0 {
		return stmtOf(call(rw.rt("Go"), inner))
	}
	outer := &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.FuncType{Params: &ast.FieldList{}}}}}},
		Body: &ast.BlockStmt{List: append(pre, &ast.ReturnStmt{Results: []ast.Expr{inner}})},
	}
	return stmtOf(call(rw.rt("Go"), call(outer)))
}

// plain turns a function literal with results into one without.
func (rw *rewriter) plain(fl *ast.FuncLit) ast.Expr {
	hasRes := fl.Type.Results != nil && len(fl.Type.Results.List) > 0
	e := rw.expr(fl)
	if !hasRes {
		return e
	}
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{stmtOf(call(e))}}}
}

func (rw *rewriter) selectStmt(n *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	var cases []ast.Expr
	var def *ast.CaseClause
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			def = &ast.CaseClause{Body: rw.list(cc.Body)}
			continue
		}
		t := rw.tmp()
		clause := &ast.CaseClause{List: []ast.Expr{intLit(len(cases))}}
		field := func(name string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent(name)} }
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			blk.List = append(blk.List, define([]ast.Expr{t}, call(&ast.SelectorExpr{X: call(rw.rt("S_"), rw.expr(s.Chan)), Sel: ast.NewIdent("Case")}, rw.expr(s.Value))))
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			blk.List = append(blk.List, define([]ast.Expr{t}, call(rw.rt("R"), rw.expr(u.X))))
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			blk.List = append(blk.List, define([]ast.Expr{t}, call(rw.rt("R"), rw.expr(u.X))))
			as := &ast.AssignStmt{Tok: s.Tok, Rhs: []ast.Expr{field("V")}}
			for _, l := range s.Lhs {
				as.Lhs = append(as.Lhs, rw.expr(l))
			}
			if len(as.Lhs) == 2 {
				as.Rhs = append(as.Rhs, field("OK"))
			}
			clause.Body = append(clause.Body, as)
		}
		clause.Body = append(clause.Body, rw.list(cc.Body)...)
		cases = append(cases, ast.NewIdent(t.Name))
		sw.Body.List = append(sw.Body.List, clause)
	}
	if def == nil {
		def = &ast.CaseClause{Body: []ast.Stmt{stmtOf(call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))}}
	}
	sw.Body.List = append(sw.Body.List, def)
	sw.Tag = call(rw.rt("Select"), append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)
	blk.List = append(blk.List, labeled(label, sw))
	return blk
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (rw *rewriter) rangeStmt(n *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	t := rw.info.TypeOf(n.X)
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		u = tp.Underlying()
	}
	switch u.(type) {
	case *types.Chan:
		x := rw.expr(n.X)
		key := n.Key
		if key != nil {
			key = rw.expr(key)
		}
		rw.children(n.Body)
		rw.tick(n.Body)
		c, ok, v := rw.tmp(), rw.tmp(), rw.tmp()
		var lhs ast.Expr = v
		var after []ast.Stmt
		if blank(key) {
			lhs = ast.NewIdent("_")
		} else if n.Tok == token.DEFINE {
			after = []ast.Stmt{define([]ast.Expr{key}, v)}
		} else {
			after = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}
		}
		body := []ast.Stmt{
			define([]ast.Expr{lhs, ok}, call(rw.rt("Recv2"), c)),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		body = append(body, after...)
		body = append(body, n.Body)
		return &ast.BlockStmt{List: []ast.Stmt{
			define([]ast.Expr{c}, x),
			labeled(label, &ast.ForStmt{Body: &ast.BlockStmt{List: body}}),
		}}
	case *types.Map:
		x := rw.expr(n.X)
		key, val := n.Key, n.Value
		if key != nil {
			key = rw.expr(key)
		}
		if val != nil {
			val = rw.expr(val)
		}
		rw.children(n.Body)
		rw.tick(n.Body)
		m, k, v, ok := rw.tmp(), rw.tmp(), rw.tmp(), rw.tmp()
		var vl ast.Expr = v
		if blank(val) {
			vl = ast.NewIdent("_")
		}
		body := []ast.Stmt{
			define([]ast.Expr{vl, ok}, &ast.IndexExpr{X: m, Index: k}),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		}
		as := &ast.AssignStmt{Tok: n.Tok}
		if !blank(key) {
			as.Lhs = append(as.Lhs, key)
			as.Rhs = append(as.Rhs, k)
		}
		if !blank(val) {
			as.Lhs = append(as.Lhs, val)
			as.Rhs = append(as.Rhs, v)
		}
		if len(as.Lhs) > 0 {
			body = append(body, as)
		}
		body = append(body, n.Body)
		return &ast.BlockStmt{List: []ast.Stmt{
			define([]ast.Expr{m}, x),
			labeled(label, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call(rw.rt("Keys"), m), Body: &ast.BlockStmt{List: body}}),
		}}
	}
	rw.children(n)
	rw.tick(n.Body)
	return labeled(label, n)
}
