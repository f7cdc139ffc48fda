// mutate lists small source mutations of Go files as JSON lines (development tool, not used by any check):
//   go run /verif/tools/mutate/main.go FILE... > mutants.jsonl
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Func  string `json:"func"`
	Line  int    `json:"line"`
	Col   int    `json:"col"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"},
}

var calls = map[string][]string{
	"Add": {"Sub"}, "Sub": {"Add"}, "And": {"Or"}, "Or": {"And"}, "Xor": {"Or"}, "IsZero": nil,
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			name := fn.Name.Name
			if fn.Recv != nil && len(fn.Recv.List) > 0 {
				t := fn.Recv.List[0].Type
				name = strings.Trim(string(src[off(t.Pos()):off(t.End())]), "*") + "." + name
			}
			emit := func(kind string, from, to token.Pos, repl string) {
				p := fs.Position(from)
				old := string(src[off(from):off(to)])
				if old == repl {
					return
				}
				enc.Encode(mutant{file, name, p.Line, p.Column, off(from), off(to), repl, old, kind})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			isErr := map[ast.Node]bool{}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("int+", x.Pos(), x.End(), strconv.FormatInt(v+1, 10))
							if v > 0 {
								emit("int-", x.Pos(), x.End(), strconv.FormatInt(v-1, 10))
							}
						}
					}
				case *ast.IfStmt:
					emit("ifnot", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
					emit("iffalse", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit("branch", x.Pos(), x.End(), "continue")
					} else if x.Tok == token.CONTINUE && x.Label == nil {
						emit("branch", x.Pos(), x.End(), "break")
					}
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						s := text(c.Fun)
						if !strings.Contains(s, "Print") && !strings.HasPrefix(s, "log.") && s != "panic" && !strings.Contains(s, "Fatal") {
							emit("del", x.Pos(), x.End(), "_ = 0")
						}
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN && len(x.Lhs) == 1 {
						emit("delassign", x.Pos(), x.End(), "_ = "+text(x.Rhs[0]))
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							if id.Name == "err" {
								isErr[r] = true
								emit("nilerr", r.Pos(), r.End(), "nil")
							} else if id.Name == "true" {
								emit("bool", r.Pos(), r.End(), "false")
							} else if id.Name == "false" {
								emit("bool", r.Pos(), r.End(), "true")
							}
						}
					}
				case *ast.DeferStmt:
					emit("deldefer", x.Pos(), x.End(), "_ = 0")
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x.Pos(), x.Pos()+1, "")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit("slice", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
					}
					if x.High != nil {
						emit("slice", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
					}
				case *ast.CallExpr:
					if se, ok := x.Fun.(*ast.SelectorExpr); ok {
						for _, s := range calls[se.Sel.Name] {
							emit("call", se.Sel.Pos(), se.Sel.End(), s)
						}
					}
					// swap adjacent arguments
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						if _, ok := a.(*ast.FuncLit); ok {
							continue
						}
						if _, ok := b.(*ast.FuncLit); ok {
							continue
						}
						if text(a) == text(b) {
							continue
						}
						mid := string(src[off(a.End()):off(b.Pos())])
						emit("swapargs", a.Pos(), b.End(), text(b)+mid+text(a))
					}
				}
				return true
			})
		}
	}
}
