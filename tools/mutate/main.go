// mutate lists small changes of Go files as JSON: {file, off, end, text, kind, line}.
// Development aid: used by tools/mutants.py to look for gaps in the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type Mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	root := os.Args[1]
	var out []Mut
	for _, rel := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, rel))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, rel, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		add := func(n ast.Node, a, b token.Pos, t, kind string) {
			out = append(out, Mut{rel, off(a), off(b), t, kind, fset.Position(n.Pos()).Line, fn})
		}
		swaps := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		}
		for _, decl := range f.Decls {
			fd, ok := decl.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						add(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+x.Op.String()+"->"+s)
					}
					if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.SHL || x.Op == token.OR {
						add(x, x.Pos(), x.End(), text(x.X), "drop right operand")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							add(x, x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d->%d", v, v+1))
							if v > 0 {
								add(x, x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%d->%d", v, v-1))
							}
						}
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					add(x, x.Cond.Pos(), x.Cond.End(), "("+c+") == false", "negate if")
					add(x, x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never if")
					add(x, x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always if")
				case *ast.ForStmt:
				case *ast.ExprStmt:
					add(x, x.Pos(), x.End(), "", "delete call")
				case *ast.IncDecStmt:
					add(x, x.Pos(), x.End(), "", "delete inc")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add(x, x.Pos(), x.End(), "", "delete assignment")
					}
				case *ast.DeferStmt:
					add(x, x.Pos(), x.End(), "", "delete defer")
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						add(x, x.Pos(), x.End(), "continue", "break->continue")
					}
					if x.Tok == token.CONTINUE && x.Label == nil {
						add(x, x.Pos(), x.End(), "break", "continue->break")
						add(x, x.Pos(), x.End(), "", "delete continue")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							add(r, r.Pos(), r.End(), "nil", "return nil error")
						}
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							v := "true"
							if id.Name == v {
								v = "false"
							}
							add(r, r.Pos(), r.End(), v, "return "+v)
						}
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
						a := text(x.Args[0])
						switch id.Name {
						case "uint32", "int", "uint64":
							add(x, x.Pos(), x.End(), id.Name+"(uint16("+a+"))", "narrow 16")
							add(x, x.Pos(), x.End(), id.Name+"(uint8("+a+"))", "narrow 8")
						case "uint16", "GlyphIndex", "GlyphMappingKind":
							add(x, x.Pos(), x.End(), id.Name+"(uint8("+a+"))", "narrow 8")
						case "int8":
							add(x, x.Pos(), x.End(), "int8(uint8("+a+") & 0x7F)", "drop sign")
						}
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Clone" && len(x.Args) == 1 {
						add(x, x.Pos(), x.End(), text(x.Args[0]), "no clone")
					}
				}
				return true
			})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
