// names lists changes that use a wrong variable: each use of a local variable, parameter or field is replaced
// with another one of the same type (in scope, or of the same struct) and adjacent simple statements are swapped.
// Same output format as ../mutate. Usage: names REPO PKGDIR...   (in dependency order)
package main

import (
	"encoding/json"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

type imp struct {
	std  types.Importer
	pkgs map[string]*types.Package
}

func (i imp) Import(p string) (*types.Package, error) {
	if q, ok := i.pkgs[p]; ok {
		return q, nil
	}
	return i.std.Import(p)
}

func main() {
	repo := os.Args[1]
	fset := token.NewFileSet()
	im := imp{importer.ForCompiler(fset, "source", nil), map[string]*types.Package{}}
	var out []mut
	for _, dir := range os.Args[2:] {
		ms, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		var files []*ast.File
		var names []string
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, m, nil, 0)
			if err != nil {
				panic(err)
			}
			files = append(files, f)
			r, _ := filepath.Rel(repo, m)
			names = append(names, r)
		}
		info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
		path := "github.com/tinne26/ggfnt"
		if dir != "." {
			path += "/" + dir
		}
		cfg := types.Config{Importer: im, Error: func(error) {}}
		pkg, _ := cfg.Check(path, fset, files, info)
		im.pkgs[path] = pkg
		for fi, f := range files {
			src, _ := os.ReadFile(filepath.Join(repo, names[fi]))
			add := func(a, b token.Pos, text, kind, fn string) {
				p := fset.Position(a)
				out = append(out, mut{names[fi], p.Offset, fset.Position(b).Offset, text, kind, p.Line, fn})
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || strings.HasPrefix(fd.Name.Name, "debug") || fd.Name.Name == "fullDebugPrint" || fd.Name.Name == "String" && names[fi] == "font.go" {
					continue
				}
				fn := fd.Name.Name
				lhs := map[*ast.Ident]bool{}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						if x.Tok == token.DEFINE {
							for _, l := range x.Lhs {
								if id, ok := l.(*ast.Ident); ok {
									lhs[id] = true
								}
							}
						}
					case *ast.SelectorExpr:
						sel := info.Selections[x]
						if sel == nil || sel.Kind() != types.FieldVal {
							return true
						}
						t := sel.Recv()
						if p, ok := t.Underlying().(*types.Pointer); ok {
							t = p.Elem()
						}
						st, ok := t.Underlying().(*types.Struct)
						if !ok {
							return true
						}
						for i := 0; i < st.NumFields(); i++ {
							g := st.Field(i)
							if g.Name() != x.Sel.Name && types.Identical(g.Type(), sel.Type()) && (g.Exported() || g.Pkg() == pkg) {
								add(x.Sel.Pos(), x.Sel.End(), g.Name(), "field "+x.Sel.Name+"->"+g.Name(), fn)
							}
						}
					case *ast.Ident:
						o, ok := info.Uses[x].(*types.Var)
						if !ok || lhs[x] || o.IsField() || o.Parent() == pkg.Scope() || o.Parent() == nil {
							return true
						}
						seen := map[string]bool{x.Name: true}
						for sc := pkg.Scope().Innermost(x.Pos()); sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
							ns := sc.Names()
							sort.Strings(ns)
							for _, n := range ns {
								q, ok := sc.Lookup(n).(*types.Var)
								if !ok || seen[n] {
									continue
								}
								seen[n] = true
								if q.Pos() < x.Pos() && types.Identical(q.Type(), o.Type()) && n != "_" {
									add(x.Pos(), x.End(), n, "var "+x.Name+"->"+n, fn)
								}
							}
						}
					case *ast.BlockStmt:
						for i := 0; i+1 < len(x.List); i++ {
							a, b := x.List[i], x.List[i+1]
							if simple(a) && simple(b) {
								at := string(src[fset.Position(a.Pos()).Offset:fset.Position(a.End()).Offset])
								bt := string(src[fset.Position(b.Pos()).Offset:fset.Position(b.End()).Offset])
								add(a.Pos(), b.End(), bt+"\n"+at, "swap "+bt, fn)
							}
						}
					}
					return true
				})
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func simple(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.AssignStmt, *ast.ExprStmt, *ast.IncDecStmt:
		return true
	case *ast.IfStmt:
		return len(x.Body.List) == 1
	}
	return false
}
