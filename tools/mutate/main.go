// mutate rewrites a copy of /repo into one tree that holds many small changes
// ("mutants"), of which the environment variable MUT switches one on. It is a
// development tool to measure the monitors' reach; no check uses it.
//
//	mutate DIR LIST: rewrites the Go files under DIR in place, writes LIST.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

const helper = `package %s

import (
	"os"
	"strconv"
)

var mutM = mutInit()

func mutInit() int {
	n, err := strconv.Atoi(os.Getenv("MUT"))
	if err != nil {
		return -1
	}
	return n
}

type mutNum interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func mutLit[T mutNum](id int, v T) T {
	if mutM == id {
		return v + 1
	}
	if mutM == id+1 {
		return v - 1
	}
	return v
}

func mutAdd[T mutNum](id int, a, b T) T {
	if mutM == id {
		return a - b
	}
	if mutM == id+1 {
		return a
	}
	return a + b
}

func mutSub[T mutNum](id int, a, b T) T {
	if mutM == id {
		return a + b
	}
	if mutM == id+1 {
		return a
	}
	return a - b
}

func mutStr[T ~string](id int, v T) T {
	if mutM == id {
		return v + "~"
	}
	return v
}

func mutBool(id int, v bool) bool {
	if mutM == id {
		return !v
	}
	return v
}

var _ = mutLit[int]
var _ = mutAdd[int]
var _ = mutSub[int]
var _ = mutStr[string]
var _ = mutBool
`

type site struct {
	id   int
	pos  string
	what string
}

var sites []site
var next = 1

func alloc(fset *token.FileSet, p token.Pos, n int, what ...string) int {
	id := next
	pp := fset.Position(p)
	for i := 0; i < n; i++ {
		sites = append(sites, site{id + i, fmt.Sprintf("%s:%d:%d", pp.Filename, pp.Line, pp.Column), what[i]})
	}
	next += n
	return id
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }
func num(n int) ast.Expr        { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)} }
func call(f string, a ...ast.Expr) ast.Expr {
	return &ast.CallExpr{Fun: ident(f), Args: a}
}

func boolSwitch(id int, orig ast.Expr, alts ...ast.Expr) ast.Expr {
	var body []ast.Stmt
	for i, a := range alts {
		body = append(body, &ast.IfStmt{
			Cond: &ast.BinaryExpr{X: ident("mutM"), Op: token.EQL, Y: num(id + i)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{a}}}},
		})
	}
	body = append(body, &ast.ReturnStmt{Results: []ast.Expr{orig}})
	return &ast.CallExpr{Fun: &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ident("bool")}}}},
		Body: &ast.BlockStmt{List: body},
	}}
}

func guard(id int, ss ...ast.Stmt) ast.Stmt {
	return &ast.IfStmt{Cond: &ast.BinaryExpr{X: ident("mutM"), Op: token.NEQ, Y: num(id)}, Body: &ast.BlockStmt{List: ss}}
}

var cmpAlt = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
	token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
}

func isNum(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUntyped == 0 && b.Kind() != types.Uintptr
}

func main() {
	dir, list := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: fset}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		rel, _ := filepath.Rel(dir, filepath.Dir(p.GoFiles[0]))
		switch {
		case rel == ".", rel == "lsp", rel == "dbg", strings.HasPrefix(rel, "cmd/"), strings.HasPrefix(rel, "internal"):
		default:
			continue
		}
		qual := func(o *types.Package) string {
			if o == p.Types {
				return ""
			}
			return "!" + o.Name()
		}
		for i, f := range p.Syntax {
			name := p.GoFiles[i]
			if filepath.Base(name) == "langspec.go" {
				continue
			}
			file(fset, p, f, qual)
			var buf bytes.Buffer
			f.Comments = nil
			if err := format.Node(&buf, fset, f); err != nil {
				panic(err)
			}
			if err := os.WriteFile(name, buf.Bytes(), 0644); err != nil {
				panic(err)
			}
		}
		os.WriteFile(filepath.Join(filepath.Dir(p.GoFiles[0]), "mut_gen.go"), []byte(fmt.Sprintf(helper, p.Name)), 0644)
	}
	sort.Slice(sites, func(i, j int) bool { return sites[i].id < sites[j].id })
	var sb strings.Builder
	for _, s := range sites {
		fmt.Fprintf(&sb, "%d\t%s\t%s\n", s.id, strings.TrimPrefix(s.pos, dir+"/"), s.what)
	}
	os.WriteFile(list, []byte(sb.String()), 0644)
	fmt.Println(len(sites), "mutants")
}

func text(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, n)
	s := strings.Join(strings.Fields(b.String()), " ")
	if len(s) > 100 {
		s = s[:100] + "..."
	}
	return s
}

func file(fset *token.FileSet, p *packages.Package, f *ast.File, qual types.Qualifier) {
	info := p.TypesInfo
	skip := map[ast.Node]bool{}
	txt := map[ast.Node]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.CONST || n.Tok == token.IMPORT || n.Tok == token.TYPE {
				skip[n] = true
			}
		case *ast.ArrayType, *ast.StructType:
			skip[n] = true
		case *ast.CallExpr:
			s := text(fset, n.Fun)
			if s == "errors.New" || s == "fmt.Errorf" || strings.HasSuffix(s, ".trace") || s == "errors.Wrap" || s == "errors.Errorf" || s == "panic" {
				skip[n] = true
			}
		}
		if n != nil {
			switch n.(type) {
			case ast.Expr, ast.Stmt:
				if _, ok := n.(*ast.BlockStmt); !ok {
					txt[n] = text(fset, n)
				}
			}
		}
		return true
	})
	constExpr := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		return !ok || tv.Value != nil
	}
	astutil.Apply(f, func(c *astutil.Cursor) bool {
		return !skip[c.Node()]
	}, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.BinaryExpr:
			if constExpr(n) {
				return true
			}
			switch n.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				if b, ok := info.Types[n].Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
					return true
				}
				var alts []ast.Expr
				var ws []string
				for _, t := range cmpAlt[n.Op] {
					alts = append(alts, &ast.BinaryExpr{X: n.X, Op: t, Y: n.Y})
					ws = append(ws, txt[n]+"  ->  "+t.String())
				}
				id := alloc(fset, n.Pos(), len(alts), ws...)
				c.Replace(boolSwitch(id, n, alts...))
			case token.LAND, token.LOR:
				id := alloc(fset, n.Pos(), 2, txt[n]+"  ->  left only", txt[n]+"  ->  right only")
				c.Replace(boolSwitch(id, n, n.X, n.Y))
			case token.ADD, token.SUB:
				tx, ty := info.Types[n.X], info.Types[n.Y]
				t := info.Types[n].Type
				if !isNum(t) || tx.Type == nil || ty.Type == nil {
					return true
				}
				ts := types.TypeString(t, qual)
				if strings.Contains(ts, "!") {
					return true
				}
				fn := "mutAdd"
				if n.Op == token.SUB {
					fn = "mutSub"
				}
				id := alloc(fset, n.Pos(), 2, txt[n]+"  ->  other sign", txt[n]+"  ->  left only")
				c.Replace(&ast.CallExpr{Fun: &ast.IndexExpr{X: ident(fn), Index: ident(ts)}, Args: []ast.Expr{num(id), n.X, n.Y}})
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT && !constExpr(n) {
				id := alloc(fset, n.Pos(), 1, txt[n]+"  ->  not negated")
				c.Replace(boolSwitch(id, n, n.X))
			}
		case *ast.BasicLit:
			if _, ok := c.Parent().(*ast.ImportSpec); ok {
				return true
			}
			if _, ok := c.Parent().(*ast.Field); ok {
				return true
			}
			tv, ok := info.Types[n]
			if !ok || tv.Type == nil {
				return true
			}
			ts := types.TypeString(tv.Type, qual)
			if strings.Contains(ts, "!") || strings.Contains(ts, "untyped") {
				return true
			}
			// part of a larger constant expression: leave it
			if pe, ok := c.Parent().(ast.Expr); ok {
				if tv, ok := info.Types[pe]; ok && tv.Value != nil {
					return true
				}
			}
			switch n.Kind {
			case token.INT, token.CHAR:
				if !isNum(tv.Type) {
					return true
				}
				id := alloc(fset, n.Pos(), 2, n.Value+"  ->  +1", n.Value+"  ->  -1")
				if n.Value == "0" && tv.Type.Underlying().(*types.Basic).Info()&types.IsUnsigned != 0 {
					// -1 wraps: fine
				}
				c.Replace(&ast.CallExpr{Fun: &ast.IndexExpr{X: ident("mutLit"), Index: ident(ts)}, Args: []ast.Expr{num(id), n}})
			case token.STRING:
				if b, ok := tv.Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
					return true
				}
				id := alloc(fset, n.Pos(), 1, n.Value+"  ->  with ~ appended")
				c.Replace(&ast.CallExpr{Fun: &ast.IndexExpr{X: ident("mutStr"), Index: ident(ts)}, Args: []ast.Expr{num(id), n}})
			}
		case *ast.Ident:
			if n.Name != "true" && n.Name != "false" {
				return true
			}
			if tv, ok := info.Types[n]; !ok || tv.Value == nil {
				return true
			}
			if t := info.Types[n].Type; types.TypeString(t, qual) != "bool" && types.TypeString(t, qual) != "untyped bool" {
				return true
			}
			id := alloc(fset, n.Pos(), 1, n.Name+"  ->  negated ("+txt[c.Parent()]+")")
			c.Replace(call("mutBool", num(id), ident(n.Name)))
		case *ast.IfStmt:
			if n.Cond != nil {
				w := "if " + txtCond(txt, n)
				id := alloc(fset, n.Pos(), 2, w+"  ->  true", w+"  ->  false")
				n.Cond = boolSwitch(id, n.Cond, ident("true"), ident("false"))
			}
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt, *ast.ReturnStmt, *ast.AssignStmt, *ast.DeferStmt, *ast.GoStmt:
			if c.Index() < 0 {
				return true
			}
			if _, ok := c.Parent().(*ast.CommClause); ok && c.Name() == "Comm" {
				return true
			}
			if a, ok := n.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
				return true
			}
			if strings.HasPrefix(txt[n], "_ = x[") {
				return true
			}
			if b, ok := n.(*ast.BranchStmt); ok && (b.Tok == token.FALLTHROUGH || b.Tok == token.GOTO) {
				return true
			}
			id := alloc(fset, n.Pos(), 1, "delete: "+txt[n])
			c.Replace(guard(id, n.(ast.Stmt)))
		case *ast.CaseClause:
			if len(n.Body) == 0 {
				return true
			}
			if b, ok := n.Body[len(n.Body)-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				return true
			}
			w := "default"
			if len(n.List) > 0 {
				w = "case "
				for _, e := range n.List {
					w += txt[e] + " "
				}
			}
			id := alloc(fset, n.Pos(), 1, "skip body of "+w)
			n.Body = []ast.Stmt{guard(id, n.Body...)}
		case *ast.RangeStmt:
			id := alloc(fset, n.Pos(), 1, "first iteration only: "+first(txt[n]))
			n.Body.List = append(n.Body.List, &ast.IfStmt{Cond: &ast.BinaryExpr{X: ident("mutM"), Op: token.EQL, Y: num(id)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		case *ast.FuncDecl:
			if n.Body != nil && n.Type.Results != nil && len(n.Type.Results.List) > 0 {
				n.Body.List = append(n.Body.List, &ast.ExprStmt{X: call("panic", &ast.BasicLit{Kind: token.STRING, Value: `"mutant: missing return"`})})
			}
		case *ast.FuncLit:
			if n.Type.Results != nil && len(n.Type.Results.List) > 0 {
				n.Body.List = append(n.Body.List, &ast.ExprStmt{X: call("panic", &ast.BasicLit{Kind: token.STRING, Value: `"mutant: missing return"`})})
			}
		}
		return true
	})
}

func first(s string) string {
	if i := strings.Index(s, "{"); i > 0 {
		return s[:i]
	}
	return s
}

func txtCond(txt map[ast.Node]string, n *ast.IfStmt) string {
	s := txt[n]
	s = strings.TrimPrefix(s, "if ")
	return first(s)
}
