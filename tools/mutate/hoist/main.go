// hoist lists changes that turn a local variable into a package variable (one per variable, the whole function is
// replaced). Kept values are set anew on every call, so only concurrent callers can notice. A second kind ("reused")
// keeps the memory behind make(...) between calls, so that earlier results can change.
// Same output format as ../mutate. Usage: hoist REPO PKGDIR...   (in dependency order)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

type imp struct {
	std  types.Importer
	pkgs map[string]*types.Package
}

func (i imp) Import(p string) (*types.Package, error) {
	if q, ok := i.pkgs[p]; ok {
		return q, nil
	}
	return i.std.Import(p)
}

type edit struct {
	a, b int
	text string
}

func main() {
	repo := os.Args[1]
	fset := token.NewFileSet()
	im := imp{importer.ForCompiler(fset, "source", nil), map[string]*types.Package{}}
	var out []mut
	for _, dir := range os.Args[2:] {
		ms, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		var files []*ast.File
		var names []string
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, m, nil, 0)
			if err != nil {
				panic(err)
			}
			files = append(files, f)
			r, _ := filepath.Rel(repo, m)
			names = append(names, r)
		}
		info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}}
		path := "github.com/tinne26/ggfnt"
		if dir != "." {
			path += "/" + dir
		}
		cfg := types.Config{Importer: im, Error: func(error) {}}
		pkg, _ := cfg.Check(path, fset, files, info)
		im.pkgs[path] = pkg
		qual := func(p *types.Package) string {
			if p == pkg {
				return ""
			}
			return p.Name()
		}
		for fi, f := range files {
			src, _ := os.ReadFile(filepath.Join(repo, names[fi]))
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Type.TypeParams != nil || strings.HasPrefix(fd.Name.Name, "debug") || fd.Name.Name == "fullDebugPrint" {
					continue
				}
				if fd.Recv != nil { // methods of generic types
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if _, ok := t.(*ast.IndexExpr); ok {
						continue
					}
				}
				from, to := fset.Position(fd.Pos()).Offset, fset.Position(fd.End()).Offset
				emit := func(es []edit, kind, decl string, line int) {
					sort.Slice(es, func(i, j int) bool { return es[i].a < es[j].a })
					var b strings.Builder
					at := from
					for _, e := range es {
						b.Write(src[at:e.a])
						b.WriteString(e.text)
						at = e.b
					}
					b.Write(src[at:to])
					out = append(out, mut{names[fi], from, to, b.String() + "\n" + decl, kind, line, fd.Name.Name})
				}
				off := func(p token.Pos) int { return fset.Position(p).Offset }
				uses := map[types.Object][]edit{}
				n := 0
				g := fmt.Sprintf("zz%d", from)
				ast.Inspect(fd.Body, func(x ast.Node) bool {
					if id, ok := x.(*ast.Ident); ok {
						if o := info.Uses[id]; o != nil {
							uses[o] = append(uses[o], edit{off(id.Pos()), off(id.End()), g})
						}
					}
					return true
				})
				ast.Inspect(fd.Body, func(x ast.Node) bool {
					switch s := x.(type) {
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE || len(s.Lhs) != 1 {
							return true
						}
						id := s.Lhs[0].(*ast.Ident)
						o := info.Defs[id]
						if o == nil || id.Name == "_" {
							return true
						}
						n++
						ty := types.TypeString(o.Type(), qual)
						es := append([]edit{{off(id.Pos()), off(id.End()), g}, {off(s.TokPos), off(s.TokPos) + 2, "="}}, uses[o]...)
						emit(es, "hoisted "+id.Name, "var "+g+" "+ty+"\n", fset.Position(id.Pos()).Line)
					case *ast.DeclStmt:
						gd, ok := s.Decl.(*ast.GenDecl)
						if !ok || gd.Tok != token.VAR || len(gd.Specs) != 1 {
							return true
						}
						vs := gd.Specs[0].(*ast.ValueSpec)
						for i, id := range vs.Names {
							if len(vs.Names) != 1 && len(vs.Values) != 0 {
								continue
							}
							o := info.Defs[id]
							ty := types.TypeString(o.Type(), qual)
							var es []edit
							if len(vs.Names) == 1 {
								v := "*new(" + ty + ")"
								if len(vs.Values) > 0 {
									v = string(src[off(vs.Values[0].Pos()):off(vs.Values[0].End())])
								}
								es = []edit{{off(s.Pos()), off(s.End()), g + " = " + v}}
							} else {
								_ = i
								continue
							}
							emit(append(es, uses[o]...), "hoisted "+id.Name, "var "+g+" "+ty+"\n", fset.Position(id.Pos()).Line)
						}
					case *ast.CallExpr:
						id, ok := s.Fun.(*ast.Ident)
						if !ok || id.Name != "make" || len(s.Args) < 2 {
							return true
						}
						ty := string(src[off(s.Args[0].Pos()):off(s.Args[0].End())])
						if !strings.HasPrefix(ty, "[]") {
							return true
						}
						ln := string(src[off(s.Args[1].Pos()):off(s.Args[1].End())])
						cp := ln
						if len(s.Args) == 3 {
							cp = string(src[off(s.Args[2].Pos()):off(s.Args[2].End())])
						}
						text := fmt.Sprintf("%sReuse(int(%s), int(%s))", g, ln, cp)
						decl := fmt.Sprintf("var %s %s\nfunc %sReuse(n, c int) %s {\n\tif cap(%s) < c || c > 1 << 16 { %s = make(%s, c) }\n\tr := %s[ : n]\n\tclear(r)\n\treturn r\n}\n", g, ty, g, ty, g, g, ty, g)
						emit([]edit{{off(s.Pos()), off(s.End()), text}}, "reused "+ty, decl, fset.Position(s.Pos()).Line)
					}
					return true
				})
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
