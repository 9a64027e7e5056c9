// narrow lists changes of the width of integers: each integer expression is cut to 8 or 16 bits, comparisons are
// made signed, and conversions are moved out of sums and products. With RARE=1 instead: expressions that are off by
// one for few values only.
// Same output format as ../mutate. Usage: narrow REPO PKGDIR...   (in dependency order)
package main

import (
	"encoding/json"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

type imp struct {
	std  types.Importer
	pkgs map[string]*types.Package
}

func (i imp) Import(p string) (*types.Package, error) {
	if q, ok := i.pkgs[p]; ok {
		return q, nil
	}
	return i.std.Import(p)
}

func main() {
	repo := os.Args[1]
	fset := token.NewFileSet()
	im := imp{importer.ForCompiler(fset, "source", nil), map[string]*types.Package{}}
	var out []mut
	for _, dir := range os.Args[2:] {
		ms, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		var files []*ast.File
		var names []string
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, m, nil, 0)
			if err != nil {
				panic(err)
			}
			files = append(files, f)
			r, _ := filepath.Rel(repo, m)
			names = append(names, r)
		}
		info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
		path := "github.com/tinne26/ggfnt"
		if dir != "." {
			path += "/" + dir
		}
		cfg := types.Config{Importer: im, Error: func(error) {}}
		pkg, _ := cfg.Check(path, fset, files, info)
		im.pkgs[path] = pkg
		for fi, f := range files {
			src, _ := os.ReadFile(filepath.Join(repo, names[fi]))
			add := func(a, b token.Pos, text, kind, fn string) {
				p := fset.Position(a)
				out = append(out, mut{names[fi], p.Offset, fset.Position(b).Offset, text, kind, p.Line, fn})
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || strings.HasPrefix(fd.Name.Name, "debug") || fd.Name.Name == "fullDebugPrint" || fd.Name.Name == "String" && names[fi] == "font.go" {
					continue
				}
				fn := fd.Name.Name
				skip := map[ast.Expr]bool{}
				text := func(e ast.Expr) string {
					return string(src[fset.Position(e.Pos()).Offset:fset.Position(e.End()).Offset])
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						for _, l := range x.Lhs {
							skip[l] = true
						}
					case *ast.IncDecStmt:
						skip[x.X] = true
					case *ast.UnaryExpr:
						if x.Op == token.AND {
							skip[x.X] = true
						}
					case *ast.RangeStmt:
						skip[x.Key], skip[x.Value] = true, true
					case *ast.SelectorExpr:
						skip[x.Sel] = true
					case *ast.KeyValueExpr:
						skip[x.Key] = true
					case *ast.CallExpr:
						skip[x.Fun] = true
					}
					e, ok := n.(ast.Expr)
					if !ok || skip[e] {
						return true
					}
					if b, ok := e.(*ast.BinaryExpr); ok {
						switch b.Op {
						case token.LSS, token.GTR, token.LEQ, token.GEQ:
							for _, s := range []string{"int8", "int16"} {
								if ti := info.Types[b.X]; ti.Type != nil && width(ti.Type) > 0 && (info.Types[b.X].Value == nil && info.Types[b.Y].Value == nil) && (s == "int8") == (width(ti.Type) == 8) {
									add(e.Pos(), e.End(), s+"("+text(b.X)+") "+b.Op.String()+" "+s+"("+text(b.Y)+")", "signed", fn)
								}
							}
						case token.ADD, token.SUB, token.MUL:
							cx, ok1 := b.X.(*ast.CallExpr)
							cy, ok2 := b.Y.(*ast.CallExpr)
							if ok1 && ok2 && len(cx.Args) == 1 && len(cy.Args) == 1 && info.Types[cx.Fun].IsType() && info.Types[cy.Fun].IsType() && types.Identical(info.Types[cx.Args[0]].Type, info.Types[cy.Args[0]].Type) {
								add(e.Pos(), e.End(), text(cx.Fun)+"("+text(cx.Args[0])+b.Op.String()+text(cy.Args[0])+")", "convert late", fn)
							} else if ok1 && len(cx.Args) == 1 && info.Types[cx.Fun].IsType() && info.Types[b.Y].Value != nil {
								add(e.Pos(), e.End(), text(cx.Fun)+"("+text(cx.Args[0])+b.Op.String()+text(b.Y)+")", "convert late", fn)
							}
						}
					}
					tv, ok := info.Types[e]
					if !ok || tv.Value != nil || !tv.IsValue() {
						return true
					}
					w := width(tv.Type)
					tn := types.TypeString(tv.Type, func(p *types.Package) string {
						if p == pkg {
							return ""
						}
						return p.Name()
					})
					switch e.(type) {
					case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.BinaryExpr, *ast.IndexExpr:
						if os.Getenv("RARE") != "" {
							if w > 0 {
								for _, at := range []string{"v&63 == 37", "v == 100"} {
									add(e.Pos(), e.End(), "func(v "+tn+") "+tn+" { if "+at+" { return v + 1 }; return v }("+text(e)+")", "off if "+at, fn)
								}
							}
							return true
						}
						if w > 8 {
							add(e.Pos(), e.End(), tn+"(uint8("+text(e)+"))", "to 8 bits", fn)
						}
						if w > 16 {
							add(e.Pos(), e.End(), tn+"(uint16("+text(e)+"))", "to 16 bits", fn)
						}
						if w > 32 {
							add(e.Pos(), e.End(), tn+"(uint32("+text(e)+"))", "to 32 bits", fn)
						}
						if w == 16 {
							add(e.Pos(), e.End(), tn+"(int16("+text(e)+")&0x7FFF)", "to 15 bits", fn)
						}
						if w == 8 {
							add(e.Pos(), e.End(), tn+"("+text(e)+"&0x7F)", "to 7 bits", fn)
						}
					}
					return true
				})
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64:
		return 64
	}
	return 0
}
