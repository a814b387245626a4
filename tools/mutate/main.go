// mutate lists small source changes of a Go file as JSON lines
// {"line","from","to","text","desc"} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Func, Desc, Text string
	Line, From, To         int
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	fn := ""
	emit := func(from, to token.Pos, text, desc string) {
		enc.Encode(mut{file, fn, desc, text, fs.Position(from).Line, off(from), off(to)})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					use := ""
					for _, l := range x.Lhs {
						_ = l
					}
					emit(x.Pos(), x.End(), use, "delete "+txt(x))
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
				emit(s.Pos(), s.End(), "", "delete "+txt(s))
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "never "+txt(x.Cond))
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")", "always "+txt(x.Cond))
				} else {
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "never "+txt(x.Cond))
				}
			}
			if b, ok := s.(*ast.BranchStmt); ok && b.Label == nil {
				if b.Tok == token.CONTINUE {
					emit(b.Pos(), b.End(), "break", "continue to break")
				} else if b.Tok == token.BREAK {
					emit(b.Pos(), b.End(), "continue", "break to continue")
				}
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok {
			fn = fd.Name.Name
		} else {
			fn = ""
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.StructType:
				for _, fl := range x.Fields.List {
					if fl.Tag != nil {
						emit(fl.Tag.Pos(), fl.Tag.End(), "", "no tag "+fl.Tag.Value)
					}
				}
				return false
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 0 && len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case "+txt(x.List[0]))
				}
				if len(x.List) > 1 {
					emit(x.List[0].Pos(), x.List[1].Pos(), "", "case without "+txt(x.List[0]))
				}
			case *ast.BinaryExpr:
				var to []token.Token
				switch x.Op {
				case token.EQL:
					to = []token.Token{token.NEQ}
				case token.NEQ:
					to = []token.Token{token.EQL}
				case token.LSS:
					to = []token.Token{token.LEQ, token.GEQ}
				case token.LEQ:
					to = []token.Token{token.LSS, token.GTR}
				case token.GTR:
					to = []token.Token{token.GEQ, token.LEQ}
				case token.GEQ:
					to = []token.Token{token.GTR, token.LSS}
				case token.LAND:
					to = []token.Token{token.LOR}
				case token.LOR:
					to = []token.Token{token.LAND}
				case token.ADD:
					to = []token.Token{token.SUB}
				case token.SUB:
					to = []token.Token{token.ADD}
				case token.MUL:
					to = []token.Token{token.QUO}
				case token.QUO:
					to = []token.Token{token.MUL}
				case token.AND:
					to = []token.Token{token.OR}
				case token.OR:
					to = []token.Token{token.AND}
				case token.SHL:
					to = []token.Token{token.SHR}
				case token.SHR:
					to = []token.Token{token.SHL}
				}
				for _, t := range to {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), fmt.Sprintf("%s: %s to %s", txt(x), x.Op, t))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), x.Value+" plus 1")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), x.Value+" minus 1")
						}
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(x.Value[1:], '\''); err == nil && v < 127 {
						emit(x.Pos(), x.End(), strconv.QuoteRune(v+1), x.Value+" changed")
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && len(v) > 0 && x.Value[0] == '"' {
						b := []byte(v)
						b[len(b)-1]++
						emit(x.Pos(), x.End(), strconv.Quote(string(b)), x.Value+" changed")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true to false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false to true")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.X.Pos(), "", "drop ! of "+txt(x))
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "("+txt(x.Low)+")+1", "low+1 of "+txt(x))
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "("+txt(x.High)+")-1", "high-1 of "+txt(x))
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r.Pos(), r.End(), "nil", "return nil for err")
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					emit(x.Pos(), x.End(), txt(x.Args[0]), "no "+txt(x))
				}
			}
			return true
		})
	}
}
