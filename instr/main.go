// Command instr writes an instrumented copy of the packages of the repository
// and the overlay that substitutes them during a build:
//   - a scheduling point before every statement,
//   - sync.Mutex and sync.RWMutex replaced by versions known to the scheduler,
//   - the iteration over every map driven by the scheduler package.
//
// usage: instr REPO OUTDIR < output of "go list -export -deps"
// (lines "importpath|exportfile"). Nothing here depends on the names used by
// the repository.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const schedPath = "verif/verifsched"

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

type pointInfo struct {
	File string
	Line int
}

var points []pointInfo

func main() {
	repo, out := os.Args[1], os.Args[2]
	exports := map[string]string{}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		f := strings.SplitN(sc.Text(), "|", 2)
		if len(f) == 2 {
			exports[f[0]] = f[1]
		}
	}
	overlay := map[string]string{}
	dirs := []string{}
	fatal(filepath.Walk(filepath.Join(repo, "pkg"), func(path string, info os.FileInfo, err error) error {
		if err == nil && info.IsDir() {
			dirs = append(dirs, path)
		}
		return err
	}))
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, dir := range dirs {
		rel, _ := filepath.Rel(repo, dir)
		entries, err := os.ReadDir(dir)
		fatal(err)
		files := []*ast.File{}
		names := []string{}
		for _, e := range entries {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			path := filepath.Join(dir, e.Name())
			src, err := os.ReadFile(path)
			fatal(err)
			if bytes.Contains(src, []byte("//go:build ")) || bytes.Contains(src, []byte("import \"C\"")) {
				continue // left as it is
			}
			f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
			fatal(err)
			files = append(files, f)
			names = append(names, path)
		}
		if len(files) == 0 {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: types:", err) }}
		local := "github.com/rodb-io/rodb/" + filepath.ToSlash(rel)
		_, _ = conf.Check(local, fset, files, info)
		for i, f := range files {
			instrument(fset, f, info, local)
			dst := filepath.Join(out, rel, filepath.Base(names[i]))
			fatal(os.MkdirAll(filepath.Dir(dst), 0o755))
			var buf bytes.Buffer
			f.Comments = nil
			fatal((&printer.Config{Mode: printer.SourcePos | printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, f))
			fatal(os.WriteFile(dst, buf.Bytes(), 0o644))
			overlay[names[i]] = dst
		}
	}
	// The places of the points, for the reports.
	var table bytes.Buffer
	table.WriteString("package verifsched\n\nfunc init() {\n\tPlaces = []string{\n")
	for _, p := range points {
		rel, err := filepath.Rel(repo, p.File)
		if err != nil {
			rel = p.File
		}
		fmt.Fprintf(&table, "\t\t%q,\n", fmt.Sprintf("%s:%d", rel, p.Line))
	}
	table.WriteString("\t}\n}\n")
	tablePath := filepath.Join(out, "places.go")
	fatal(os.WriteFile(tablePath, table.Bytes(), 0o644))
	data, err := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	fatal(err)
	fatal(os.WriteFile(filepath.Join(out, "overlay.json"), data, 0o644))
	fmt.Fprintf(os.Stderr, "instr: %d points in %d files\n", len(points), len(overlay))
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent(name)}
}

func point(fset *token.FileSet, at token.Pos) ast.Stmt {
	p := fset.Position(at)
	points = append(points, pointInfo{p.Filename, p.Line})
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("P"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(points) - 1)}}}}
}

// touches says whether a statement can reach anything shared.
func touches(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false // has its own points
		case *ast.FuncLit:
			return false
		case *ast.CallExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW || x.Op == token.AND {
				found = true
			}
		case *ast.RangeStmt:
			found = true
		}
		return !found
	})
	return found
}

func instrument(fset *token.FileSet, f *ast.File, info *types.Info, local string) {
	usesSync := false
	syncName := "sync"
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			usesSync = true
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	// 1. Mutexes.
	if usesSync {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == syncName && (s.Sel.Name == "Mutex" || s.Sel.Name == "RWMutex") {
					if _, isPkg := info.Uses[id].(*types.PkgName); isPkg {
						id.Name = "verifsched"
					}
				}
			}
			return true
		})
	}
	// 2. Iterations over maps.
	imports := &keyImports{local: local, names: map[string]string{}}
	rewriteList := func(in []ast.Stmt) {
		for i, st := range in {
			label, _ := st.(*ast.LabeledStmt)
			if label != nil {
				st = label.Stmt
			}
			if r, ok := st.(*ast.RangeStmt); ok {
				if repl := rewriteRange(fset, r, info, imports); repl != nil {
					if label != nil {
						last := len(repl.List) - 1
						label.Stmt = repl.List[last]
						repl.List[last] = label
					}
					in[i] = repl
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			rewriteList(b.List)
		case *ast.CaseClause:
			rewriteList(b.Body)
		case *ast.CommClause:
			rewriteList(b.Body)
		}
		return true
	})
	// 3. Scheduling points.
	list := func(in []ast.Stmt) []ast.Stmt {
		out := make([]ast.Stmt, 0, 2*len(in))
		for _, s := range in {
			if touches(s) {
				out = append(out, point(fset, s.Pos()))
			}
			out = append(out, s)
		}
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			skip := false
			for _, s := range b.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					skip = true
				}
			}
			if !skip {
				b.List = list(b.List)
			}
		case *ast.CaseClause:
			b.Body = list(b.Body)
		case *ast.CommClause:
			b.Body = list(b.Body)
		}
		return true
	})
	// 4. The import.
	spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(schedPath)}}
	specs := []ast.Spec{spec}
	for path, name := range imports.names {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	decls := []ast.Decl{}
	for _, sp := range specs {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{sp}})
	}
	f.Decls = append(decls, f.Decls...)
	use := func(typ ast.Expr) ast.Decl {
		return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Type: typ}}}
	}
	f.Decls = append(f.Decls, use(sel("Mutex")))
	if usesSync && syncName != "_" && syncName != "." {
		f.Decls = append(f.Decls, use(&ast.SelectorExpr{X: ast.NewIdent(syncName), Sel: ast.NewIdent("Mutex")}))
	}
}

// rewriteRange turns "for k, v := range m { body }" into
//
//	{
//		verifM := m
//		v, verifOk := verifM[""]
//		_ = verifOk
//		for _, k := range verifsched.Keys(site, verifM) {
//			v, verifOk = verifM[k]
//			if !verifOk { continue }
//			body
//		}
//	}
//
// which is the same iteration in an order that the scheduler package chooses.
//
// (with a conversion of the keys when they are not plain strings).
func rewriteRange(fset *token.FileSet, r *ast.RangeStmt, info *types.Info, imports *keyImports) *ast.BlockStmt {
	tv, ok := info.Types[r.X]
	if !ok || tv.Type == nil {
		return nil
	}
	m, isMap := tv.Type.Underlying().(*types.Map)
	if !isMap {
		return nil
	}
	b, isBasic := m.Key().(*types.Basic)
	plain := isBasic && b.Kind() == types.String
	var keyType ast.Expr
	if !plain {
		text, ok := imports.typeText(m.Key())
		if ok {
			keyType, _ = parser.ParseExpr(text)
		}
		if keyType == nil {
			p := fset.Position(r.Pos())
			fmt.Fprintf(os.Stderr, "instr: %s:%d: the iteration order of %s is not controlled\n", p.Filename, p.Line, tv.Type)
			return nil
		}
	}
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	id := ast.NewIdent
	p := fset.Position(r.Pos())
	site := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))}
	source := "Keys"
	if !plain {
		source = "KeysAny"
	}
	keys := &ast.CallExpr{Fun: sel(source), Args: []ast.Expr{site, id("verifM")}}
	at := func(k ast.Expr) ast.Expr { return &ast.IndexExpr{X: id("verifM"), Index: k} }
	empty := func() ast.Expr {
		if !plain {
			return &ast.StarExpr{X: &ast.CallExpr{Fun: id("new"), Args: []ast.Expr{keyType}}}
		}
		return &ast.BasicLit{Kind: token.STRING, Value: `""`}
	}
	out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("verifM")}, Tok: token.DEFINE, Rhs: []ast.Expr{r.X}}}
	key, value := r.Key, r.Value
	tok := r.Tok
	if tok == token.ILLEGAL {
		tok = token.DEFINE
	}
	loopKey, loopTok := key, tok
	if blank(key) {
		loopKey, loopTok = id("verifK"), token.DEFINE
	}
	var first []ast.Stmt
	if blank(value) {
		first = []ast.Stmt{
			&ast.IfStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("verifOk")}, Tok: token.DEFINE, Rhs: []ast.Expr{at(loopKey)}},
				Cond: &ast.UnaryExpr{Op: token.NOT, X: id("verifOk")},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
			},
		}
	} else {
		if tok == token.DEFINE {
			out = append(out,
				&ast.AssignStmt{Lhs: []ast.Expr{value, id("verifOk")}, Tok: token.DEFINE, Rhs: []ast.Expr{at(empty())}},
			)
		} else {
			out = append(out,
				&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("verifOk")}, Tok: token.DEFINE, Rhs: []ast.Expr{at(empty())}},
			)
		}
		out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id("verifOk")}})
		first = []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{value, id("verifOk")}, Tok: token.ASSIGN, Rhs: []ast.Expr{at(loopKey)}},
			&ast.IfStmt{
				Cond: &ast.UnaryExpr{Op: token.NOT, X: id("verifOk")},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
			},
		}
	}
	if !plain {
		first = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{loopKey, id("_")}, Tok: loopTok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: id("verifI"), Type: keyType}}}}, first...)
		if loopTok == token.DEFINE {
			first = append([]ast.Stmt{first[0], &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{loopKey}}}, first[1:]...)
		}
		loopKey, loopTok = id("verifI"), token.DEFINE
	}
	body := &ast.BlockStmt{List: append(first, r.Body.List...)}
	out = append(out, &ast.RangeStmt{Key: id("_"), Value: loopKey, Tok: loopTok, X: keys, Body: body})
	return &ast.BlockStmt{List: out}
}

// keyImports names the packages needed to write the types of the keys.
type keyImports struct {
	names map[string]string
	local string
}

func (k *keyImports) typeText(t types.Type) (text string, ok bool) {
	named, isNamed := t.(*types.Named)
	if isNamed && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() != k.local && !named.Obj().Exported() {
		return "", false
	}
	ok = true
	text = types.TypeString(t, func(p *types.Package) string {
		if p.Path() == k.local {
			return ""
		}
		name, known := k.names[p.Path()]
		if !known {
			name = fmt.Sprintf("verifT%d", len(k.names))
			k.names[p.Path()] = name
		}
		return name
	})
	return text, ok
}
