package main

// Lists mutations of go files: file<TAB>offset<TAB>length<TAB>replacement<TAB>kind
import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Kind string `json:"kind"`
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, _ := os.ReadFile(fn)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, n string, kind string) {
			o, e := off(a), off(b)
			if string(src[o:e]) == n {
				return
			}
			out.Encode(mut{fn, fs.Position(a).Line, o, e - o, n, string(src[o:e]), kind})
		}
		inLog := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				return true
			}
			if inLog[n] {
				return false
			}
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.CallExpr:
				s := string(src[off(x.Pos()):off(x.End())])
				for _, p := range []string{"log.", "fmt.Print", "panic(", "fmt.Sprintf", "errors.", "fmt.Errorf"} {
					if strings.HasPrefix(s, p) {
						return false
					}
				}
				if se, ok := x.Fun.(*ast.SelectorExpr); ok {
					sw := map[string]string{"Sin": "Cos", "Cos": "Sin", "Max": "Min", "Min": "Max", "Floor": "Ceil", "Ceil": "Floor", "Round": "Floor", "FFT": "IFFT", "IFFT": "FFT", "HasPrefix": "Contains"}
					if w, ok := sw[se.Sel.Name]; ok {
						emit(se.Sel.Pos(), se.Sel.End(), w, "call")
					}
					if se.Sel.Name == "Abs" && len(x.Args) == 1 && strings.HasPrefix(s, "math.") {
						emit(x.Pos(), x.End(), string(src[off(x.Lparen):off(x.End())]), "call")
					}
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "real" {
					emit(id.Pos(), id.End(), "imag", "call")
				}
				// swap neighbouring arguments
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					sa, sb := string(src[off(a.Pos()):off(a.End())]), string(src[off(b.Pos()):off(b.End())])
					if sa != sb && len(sa) < 30 && len(sb) < 30 {
						emit(a.Pos(), b.End(), sb+", "+sa, "swapargs")
					}
				}
			case *ast.BinaryExpr:
				sw := map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LSS: {"<="}, token.GTR: {">="}, token.LEQ: {"<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}}
				for _, w := range sw[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), w, "op")
				}
				if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.QUO {
					emit(x.X.End(), x.Y.End(), "", "dropright")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.X.End(), x.Y.End(), "", "dropright")
					emit(x.X.Pos(), x.Y.Pos(), "", "dropleft")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
						}
					}
				}
				if x.Kind == token.FLOAT {
					v, err := strconv.ParseFloat(x.Value, 64)
					if err == nil {
						if v == 0 {
							emit(x.Pos(), x.End(), "1.0", "float")
						} else {
							emit(x.Pos(), x.End(), fmt.Sprintf("%g*1.5", v), "float")
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.SUB || x.Op == token.NOT {
					emit(x.Pos(), x.X.Pos(), "", "unary")
				}
			case *ast.IfStmt:
				if x.Cond != nil {
					s := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
					if !strings.Contains(s, "err") {
						emit(x.Cond.Pos(), x.Cond.End(), "("+s+") || true", "iftrue")
						emit(x.Cond.Pos(), x.Cond.End(), "("+s+") && false", "iffalse")
					}
				}
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					break
				}
				if x.Tok == token.ASSIGN {
					emit(x.Pos(), x.End(), "", "delete")
				} else {
					emit(x.Pos(), x.End(), "", "delete")
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=", "opassign")
					sw := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
					if w, ok := sw[x.Tok]; ok {
						emit(x.TokPos, x.TokPos+2, w, "opassign")
					}
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.IndexExpr:
				s := string(src[off(x.Index.Pos()):off(x.Index.End())])
				sw := map[string]string{"i": "j", "j": "i", "k": "j"}
				if w, ok := sw[s]; ok {
					emit(x.Index.Pos(), x.Index.End(), w, "index")
				}
			case *ast.BranchStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.DeferStmt:
				return false
			}
			return true
		})
	}
}
