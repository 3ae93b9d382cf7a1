// mutate lists small changes to a Go file as JSON lines {"file","start","end","new","op","line"} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	New, Op    string
	Line       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, op, neu string) {
			enc.Encode(mut{file, off(n.Pos()), off(n.End()), neu, op, fset.Position(n.Pos()).Line})
		}
		span := func(a, b token.Pos, op, neu string) {
			enc.Encode(mut{file, off(a), off(b), neu, op, fset.Position(a).Line})
		}
		inMsg := 0
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.CallExpr:
				fn := text(x.Fun)
				if strings.HasPrefix(fn, "fmt.Errorf") || strings.HasPrefix(fn, "errors.New") || strings.HasPrefix(fn, "dlog.") || strings.HasPrefix(fn, "panic") {
					return false
				}
				_ = inMsg
				if len(x.Args) == 1 && (strings.HasSuffix(fn, "ToLower") || strings.HasSuffix(fn, "Clean") || strings.HasSuffix(fn, "TrimSpace") || strings.HasSuffix(fn, "ToUpper") || strings.HasSuffix(fn, "Base")) {
					emit(n, "unwrap", text(x.Args[0]))
				}
			case *ast.BinaryExpr:
				alts := map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.AND_NOT: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
				}
				for _, a := range alts[x.Op] {
					span(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), "binop", a)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(n, "left", text(x.X))
					emit(n, "right", text(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(n, "unnot", text(x.X))
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				emit(x.Cond, "iffalse", "false && ("+c+")")
				emit(x.Cond, "iftrue", "true || ("+c+")")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond, "forfalse", "false && ("+text(x.Cond)+")")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
						emit(s, "delstmt", "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							var b []string
							for i, r := range y.Rhs {
								_ = i
								b = append(b, "_ = "+text(r))
							}
							if len(y.Lhs) == len(y.Rhs) {
								emit(s, "delassign", strings.Join(b, "; "))
							}
						}
					}
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					span(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "emptycase", "")
				}
				if len(x.List) > 1 {
					for i := range x.List {
						var rest []string
						for j, e := range x.List {
							if j != i {
								rest = append(rest, text(e))
							}
						}
						span(x.List[0].Pos(), x.List[len(x.List)-1].End(), "dropcase", strings.Join(rest, ", "))
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						pre := "%d"
						if strings.HasPrefix(x.Value, "0") && len(x.Value) > 1 {
							pre = "0%o"
						}
						emit(n, "int", fmt.Sprintf(pre, v+1))
						if v > 0 {
							emit(n, "int", fmt.Sprintf(pre, v-1))
						}
					}
				case token.STRING:
					v, err := strconv.Unquote(x.Value)
					if err == nil && len(v) < 40 && v != "" {
						emit(n, "str", strconv.Quote(v+"x"))
						emit(n, "str", strconv.Quote(v[1:]))
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low, "slice", text(x.Low)+"+1")
				}
				if x.High != nil {
					emit(x.High, "slice", text(x.High)+"-1")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					t := text(x.Results[0])
					if t == "true" {
						emit(x.Results[0], "ret", "false")
					} else if t == "false" {
						emit(x.Results[0], "ret", "true")
					}
				}
				if k := len(x.Results); k > 0 && text(x.Results[k-1]) == "err" {
					emit(x.Results[k-1], "reterr", "nil")
				}
			case *ast.KeyValueExpr:
				span(x.Pos(), x.End(), "dropkv", "/**/")
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
