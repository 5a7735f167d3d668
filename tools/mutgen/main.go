// mutgen writes small syntactic mutants of the Go sources of a directory: one JSON line per mutant
// with the file, the byte range and its replacement.  Used to measure the checks, never by them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	Func     string `json:"func"`
	Line     int    `json:"line"`
	From, To int
	New      string `json:"new"`
	Old      string `json:"old"`
}

func main() {
	dir := os.Args[1]
	files, _ := filepath.Glob(dir + "/*.go")
	sort.Strings(files)
	enc := json.NewEncoder(os.Stdout)
	for _, f := range files {
		b := filepath.Base(f)
		if strings.HasSuffix(b, "_test.go") || b == "test_utils.go" {
			continue
		}
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			put := func(a, z token.Pos, n string) {
				o := string(src[off(a):off(z)])
				if o != n {
					enc.Encode(mut{b, fd.Name.Name, fs.Position(a).Line, off(a), off(z), n, o})
				}
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.SHL: {">>"}}
					for _, a := range alt[x.Op] {
						put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						put(x.Pos(), x.End(), text(x.X))
						put(x.Pos(), x.End(), text(x.Y))
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							put(x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								put(x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					case token.CHAR:
						put(x.Pos(), x.End(), "'\\x01'")
					case token.STRING:
						if len(x.Value) > 2 && !strings.Contains(x.Value, " ") {
							put(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:])
						}
					}
				case *ast.IfStmt:
					put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
					put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
					if x.Init == nil {
						put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
					}
				case *ast.ForStmt:
					if x.Cond != nil {
						put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
							put(s.Pos(), s.End(), "{}")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								put(s.Pos(), s.End(), "_ = 0")
							}
						}
					}
				case *ast.CaseClause:
					if len(x.List) > 0 {
						for _, e := range x.List {
							if len(x.List) > 1 {
								if e == x.List[0] {
									put(x.List[0].Pos(), x.List[1].Pos(), "")
								} else {
									for i := range x.List {
										if x.List[i] == e {
											put(x.List[i-1].End(), e.End(), "")
										}
									}
								}
							}
						}
					}
					for _, s := range x.Body {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
							put(s.Pos(), s.End(), "{}")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								put(s.Pos(), s.End(), "_ = 0")
							}
						}
					}
				case *ast.Ident:
					switch x.Name {
					case "true":
						put(x.Pos(), x.End(), "false")
					case "false":
						put(x.Pos(), x.End(), "true")
					case "IPredSLT":
						put(x.Pos(), x.End(), "IPredULT")
					case "I64":
						put(x.Pos(), x.End(), "I32")
					}
				}
				return true
			})
		}
	}
}
