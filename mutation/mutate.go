// Command mutate lists syntactic mutants of Go files.
//
//	go run mutate.go FILE... > mutants.jsonl
//
// Each line: {"file", "off", "end", "new", "op", "line", "func", "old"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type Mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Op   string `json:"op"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		fun := ""
		seen := map[string]bool{}
		emit := func(a, b token.Pos, new, op string) {
			o, e := fset.Position(a).Offset, fset.Position(b).Offset
			old := string(src[o:e])
			if old == new {
				return
			}
			k := fmt.Sprint(o, e, new)
			if seen[k] {
				return
			}
			seen[k] = true
			enc.Encode(Mut{filepath.Base(fn), o, e, new, old, op, fset.Position(a).Line, fun})
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		isTrace := func(n ast.Node) bool { return strings.Contains(text(n), "traceEnabled") || strings.Contains(text(n), "zlog") }
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.FuncDecl:
				fun = x.Name.Name
				if x.Recv != nil && len(x.Recv.List) > 0 {
					fun = text(x.Recv.List[0].Type) + "." + fun
				}
			case *ast.IfStmt:
				if c := text(x.Cond); strings.Contains(c, "traceEnabled") {
					return false
				}
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if-false")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if-true")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "for-false")
				}
			case *ast.BinaryExpr:
				repl := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
					token.EQL: {"!=", "<=", ">="}, token.NEQ: {"==", "<", ">"}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
					token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"},
				}[x.Op]
				for _, r := range repl {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "binop")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "drop-right")
					emit(x.Pos(), x.End(), text(x.Y), "drop-left")
				}
				if x.Op == token.ADD || x.Op == token.SUB {
					emit(x.Pos(), x.End(), text(x.X), "drop-right")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					emit(x.Pos(), x.End(), text(x.X), "drop-unary")
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.ExprStmt:
				if !isTrace(x) {
					emit(x.Pos(), x.End(), "", "delete")
				}
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN {
					emit(x.Pos(), x.End(), "", "delete")
					l := make([]string, len(x.Lhs))
					for i := range l {
						l[i] = "_"
					}
					emit(x.Lhs[0].Pos(), x.Lhs[len(x.Lhs)-1].End(), strings.Join(l, ", "), "drop-assign")
				} else if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "delete")
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=", "assign")
				} else if len(x.Lhs) > 1 && text(x.Lhs[len(x.Lhs)-1]) == "err" {
					emit(x.Lhs[len(x.Lhs)-1].Pos(), x.Lhs[len(x.Lhs)-1].End(), "_", "drop-err")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "branch")
						emit(x.Pos(), x.End(), "", "branch-del")
					} else if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "branch")
						emit(x.Pos(), x.End(), "", "branch-del")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					switch text(r) {
					case "err":
						emit(r.Pos(), r.End(), "nil", "ret-nil")
					case "true":
						emit(r.Pos(), r.End(), "false", "ret-bool")
					case "false":
						emit(r.Pos(), r.End(), "true", "ret-bool")
					}
					if c, ok := r.(*ast.CallExpr); ok && (strings.Contains(text(c.Fun), "Errorf") || strings.Contains(text(c.Fun), "errors.New")) {
						emit(r.Pos(), r.End(), "nil", "ret-nil")
					}
				}
				if len(x.Results) == 0 {
					emit(x.Pos(), x.End(), "", "delete")
				}
			case *ast.CaseClause:
				if x.List != nil && len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty-case")
					if len(x.List) > 1 {
						for i := range x.List {
							var rest []string
							for j, y := range x.List {
								if j != i {
									rest = append(rest, text(y))
								}
							}
							emit(x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(rest, ", "), "drop-case")
						}
					} else {
						// the clause no longer matches
						emit(x.Case, x.Body[len(x.Body)-1].End(), "", "drop-clause")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseUint(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "const")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "const")
						}
						if v > 1 {
							emit(x.Pos(), x.End(), "0", "const")
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 && len(x.Value) < 30 && !strings.Contains(x.Value, "%") && !strings.Contains(x.Value, " ") {
					emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"_"+x.Value[len(x.Value)-1:], "string")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
				if r, ok := map[string]string{"LE": "BE", "BE": "LE", "LittleEndian": "BigEndian", "BigEndian": "LittleEndian",
					"Len": "Cap", "IsZero": "IsValid", "Lo": "Hi", "Hi": "Lo",
					"EncodingBin": "EncodingBorsh", "EncodingBorsh": "EncodingCompactU16", "EncodingCompactU16": "EncodingBin",
					"MaxUint16": "MaxUint8", "MaxUint32": "MaxInt32", "MaxInt32": "MaxUint32", "MaxInt64": "MaxInt32",
					"uint32": "uint16", "int32": "int16", "uint64": "uint32", "int64": "int32", "uint16": "uint8", "int16": "int8", "uint8": "int8", "int": "int32",
					"PutUint16": "PutUint32", "Uint32": "Uint16", "Uint64": "Uint32", "Int64": "Int32",
					"order": "LE", "opt": "nil", "fieldOpt": "newDefaultOption()", "option": "nil"}[x.Name]; ok {
					emit(x.Pos(), x.End(), r, "ident")
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 {
					emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap-args")
				}
			case *ast.SliceExpr:
				if x.Max != nil {
					emit(x.High.End(), x.Max.End(), "", "drop-max")
				}
				if x.Low != nil && x.High != nil && x.Max == nil {
					emit(x.Low.Pos(), x.Low.End(), "", "drop-low")
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
