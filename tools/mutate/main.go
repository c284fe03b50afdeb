// Command mutate lists small changes to Go source files, one JSON object per
// line: {"file","start","end","new","what"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
}

var binary = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "testdata") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		fn := ""
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		emit := func(a, b token.Pos, repl, what string) {
			enc.Encode(mutant{rel, off(a), off(b), repl, what, fset.Position(a).Line, fn})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.FuncDecl:
				fn = x.Name.Name
				if x.Recv != nil && len(x.Recv.List) > 0 {
					fn = text(x.Recv.List[0].Type) + "." + fn
				}
			case *ast.CallExpr:
				t := text(x.Fun)
				if t == "fmt.Errorf" || t == "errors.New" || t == "panic" || t == "println" {
					return false
				}
			case *ast.BinaryExpr:
				end := x.OpPos + token.Pos(len(x.Op.String()))
				for _, r := range binary[x.Op] {
					emit(x.OpPos, end, r, x.Op.String()+" -> "+r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "only left operand")
					emit(x.Pos(), x.End(), text(x.Y), "only right operand")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "drop !")
				}
				if x.Op == token.XOR || x.Op == token.SUB {
					emit(x.Pos(), x.End(), text(x.X), "drop "+x.Op.String())
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseUint(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "literal +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "literal -1")
						}
					}
				case token.STRING:
					if strings.Contains(x.Value, "mp4:") {
						tags(x, emit)
					} else if len(x.Value) > 3 {
						emit(x.Pos(), x.Pos()+1, x.Value[:1]+"~", "string changed")
					}
				case token.CHAR:
					emit(x.Pos(), x.End(), "'~'", "character changed")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.IfStmt:
				if x.Init == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "if true")
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if false")
				} else {
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if false")
				}
				if x.Else != nil {
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						emit(b.Pos(), b.End(), "{}", "empty else")
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s, emit, text)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s, emit, text)
				}
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i > 0 {
							emit(x.List[i-1].End(), e.End(), "", "case without "+text(e))
						} else {
							emit(e.Pos(), x.List[1].Pos(), "", "case without "+text(e))
						}
					}
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if i+1 < len(x.Elts) && len(x.Elts) > 3 {
						emit(e.Pos(), x.Elts[i+1].Pos(), "", "element dropped: "+text(e))
					}
				}
			}
			return true
		}
		for _, d := range f.Decls {
			fn = ""
			ast.Inspect(d, walk)
		}
		return nil
	})
}

func stmt(s ast.Stmt, emit func(a, b token.Pos, repl, what string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		emit(s.Pos(), s.End(), "", "statement deleted: "+text(s))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "statement deleted: "+text(s))
		}
	case *ast.BranchStmt:
		if x.Label == nil {
			emit(s.Pos(), s.End(), "", "statement deleted: "+text(s))
		}
	case *ast.IfStmt:
		emit(s.Pos(), s.End(), "", "if deleted")
	case *ast.ReturnStmt:
		if len(x.Results) > 0 {
			l := x.Results[len(x.Results)-1]
			if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
				emit(l.Pos(), l.End(), "nil", "error dropped")
			}
		}
	}
}

var item = regexp.MustCompile(`mp4:"([^"]*)"`)

func tags(x *ast.BasicLit, emit func(a, b token.Pos, repl, what string)) {
	m := item.FindStringSubmatchIndex(x.Value)
	if m == nil {
		return
	}
	body := x.Value[m[2]:m[3]]
	parts := strings.Split(body, ",")
	set := func(ps []string, what string) {
		emit(x.Pos()+token.Pos(m[2]), x.Pos()+token.Pos(m[3]), strings.Join(ps, ","), what)
	}
	for i, p := range parts {
		if i > 0 && !strings.HasPrefix(p, "size") {
			set(append(append([]string{}, parts[:i]...), parts[i+1:]...), "tag without "+p)
		}
		if k, v, ok := strings.Cut(p, "="); ok {
			if n, err := strconv.ParseUint(v, 0, 32); err == nil {
				q := append([]string{}, parts...)
				f := "%d"
				if strings.HasPrefix(v, "0x") {
					f = "0x%06x"
				}
				q[i] = k + "=" + fmt.Sprintf(f, n+1)
				set(q, p+" -> "+q[i])
				if n > 0 {
					q = append([]string{}, parts...)
					q[i] = k + "=" + fmt.Sprintf(f, n-1)
					set(q, p+" -> "+q[i])
				}
			}
		}
	}
}
