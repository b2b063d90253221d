package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func init() { checks0["C21"] = checkC21 }

// gfile is a generated parser, taken apart into what has to agree.
type gfile struct {
	fset    *token.FileSet
	consts  map[string]string
	tables  map[string][]int64
	vars    map[string]string
	types   map[string]string
	funcs   map[string]string
	actions map[string]string
	pos     map[string]token.Pos
}

// noop recognises statements without effect.
func noopStmt(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.EmptyStmt:
		return true
	case *ast.BlockStmt:
		for _, y := range x.List {
			if !noopStmt(y) {
				return false
			}
		}
		return true
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
				return false
			}
		}
		for _, r := range x.Rhs {
			if !pureExpr(r) {
				return false
			}
		}
		return true
	case *ast.DeclStmt:
		g, ok := x.Decl.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			return false
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			for _, n := range v.Names {
				if n.Name != "_" {
					return false
				}
			}
			for _, e := range v.Values {
				if !pureExpr(e) {
					return false
				}
			}
		}
		return true
	case *ast.IfStmt:
		if id, ok := x.Cond.(*ast.Ident); ok && id.Name == "false" && x.Else == nil && x.Init == nil {
			return true
		}
		return x.Init == nil && pureExpr(x.Cond) && noopStmt(x.Body) && (x.Else == nil || noopStmt(x.Else))
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) == 0 {
			if f, ok := c.Fun.(*ast.FuncLit); ok {
				return noopStmt(f.Body)
			}
		}
	}
	return false
}

func pureExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, isId := x.Fun.(*ast.Ident); !isId || id.Name != "len" && id.Name != "int" && id.Name != "string" {
				ok = false
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.SliceExpr:
			ok = false
		}
		return ok
	})
	return ok
}

// dropNoops removes no-op statements and integer conversions everywhere.
func dropNoops(n ast.Node) {
	clean := func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if !noopStmt(s) {
				out = append(out, s)
			}
		}
		return out
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = clean(x.List)
		case *ast.CaseClause:
			x.Body = clean(x.Body)
		}
		return true
	})
	var strip func(e ast.Expr) ast.Expr
	strip = func(e ast.Expr) ast.Expr {
		for {
			c, ok := e.(*ast.CallExpr)
			if !ok || len(c.Args) != 1 {
				return e
			}
			id, ok := c.Fun.(*ast.Ident)
			if !ok || id.Name != "int" {
				return e
			}
			e = c.Args[0]
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for i := range x.Rhs {
				x.Rhs[i] = strip(x.Rhs[i])
			}
		case *ast.BinaryExpr:
			x.X, x.Y = strip(x.X), strip(x.Y)
		case *ast.IndexExpr:
			x.Index = strip(x.Index)
		case *ast.CallExpr:
			for i := range x.Args {
				x.Args[i] = strip(x.Args[i])
			}
		case *ast.ReturnStmt:
			for i := range x.Results {
				x.Results[i] = strip(x.Results[i])
			}
		}
		return true
	})
}

func render(fset *token.FileSet, n any) string {
	var b bytes.Buffer
	cfg := printer.Config{Mode: printer.RawFormat}
	if err := cfg.Fprint(&b, token.NewFileSet(), n); err != nil {
		panic(err)
	}
	return strings.Join(strings.Fields(b.String()), " ")
}

func readGenerated(path string) (*gfile, error) {
	g := &gfile{fset: token.NewFileSet(), consts: map[string]string{}, tables: map[string][]int64{}, vars: map[string]string{}, types: map[string]string{}, funcs: map[string]string{}, actions: map[string]string{}, pos: map[string]token.Pos{}}
	f, err := parser.ParseFile(g.fset, path, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	dropNoops(f)
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			name := x.Name.Name
			if x.Recv != nil && len(x.Recv.List) == 1 {
				name = strings.TrimPrefix(render(g.fset, x.Recv.List[0].Type), "*") + "." + name
			}
			g.pos["func "+name] = x.Pos()
			ast.Inspect(x.Body, func(n ast.Node) bool {
				sw, ok := n.(*ast.SwitchStmt)
				if !ok {
					return true
				}
				var rest []ast.Stmt
				isActions := false
				for _, s := range sw.Body.List {
					cc := s.(*ast.CaseClause)
					if len(cc.List) == 1 {
						if l, ok := cc.List[0].(*ast.BasicLit); ok && l.Kind == token.INT && len(cc.Body) > 0 {
							if r := render(g.fset, cc.Body[0]); strings.HasPrefix(r, "yyDollar = ") {
								isActions = true
								var sb strings.Builder
								for _, st := range cc.Body {
									sb.WriteString(render(g.fset, st) + "; ")
								}
								g.actions[l.Value] = sb.String()
								g.pos["action "+l.Value] = cc.Pos()
								continue
							}
						}
					}
					rest = append(rest, s)
				}
				if isActions {
					sw.Body.List = rest
				}
				return true
			})
			g.funcs[name] = render(g.fset, x.Type) + " " + render(g.fset, x.Body)
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch v := s.(type) {
				case *ast.TypeSpec:
					g.types[v.Name.Name] = render(g.fset, v.Type)
					g.pos["type "+v.Name.Name] = v.Pos()
				case *ast.ValueSpec:
					for i, n := range v.Names {
						if i >= len(v.Values) {
							g.vars[n.Name] = render(g.fset, v.Type)
							continue
						}
						e := v.Values[i]
						g.pos["var "+n.Name] = v.Pos()
						if x.Tok == token.CONST {
							g.consts[n.Name] = render(g.fset, e)
							continue
						}
						if cl, ok := e.(*ast.CompositeLit); ok {
							if vals, ok := intList(cl); ok {
								g.tables[n.Name] = vals
								continue
							}
						}
						g.vars[n.Name] = render(g.fset, e)
					}
				}
			}
		}
	}
	return g, nil
}

func intList(cl *ast.CompositeLit) ([]int64, bool) {
	var out []int64
	for _, e := range cl.Elts {
		neg := false
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.SUB {
			neg = true
			e = u.X
		}
		l, ok := e.(*ast.BasicLit)
		if !ok || l.Kind != token.INT {
			return nil, false
		}
		n, err := strconv.ParseInt(l.Value, 0, 64)
		if err != nil {
			return nil, false
		}
		if neg {
			n = -n
		}
		out = append(out, n)
	}
	return out, true
}

// ruleNames maps a production's number to its text, from the y.output report.
func checkC21(c *Check) {
	c.explain = append(c.explain, "The grammar source is compiled again with goyacc (from the module cache) and the result is compared with the compiled parser's syntax tree: every token constant, every parse table, every declaration, every semantic action and the driver, after removing statements without effect, comments and the integer conversions that differ between goyacc versions.")
	c.assume = append(c.assume, "goyacc of golang.org/x/tools is correct")
	bin, _ := os.Executable()
	gy := filepath.Join(filepath.Dir(bin), "goyacc")
	if _, err := os.Stat(gy); err != nil {
		c.require(false, "undecided", "goyacc", "", "goyacc was not built by setup.sh: "+err.Error())
		return
	}
	dir := filepath.Join(repoDir(), "sqlparser")
	tmp, err := os.MkdirTemp("", "c21")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	var ys []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".y") {
			ys = append(ys, e.Name())
		}
	}
	c.require(len(ys) == 1, "grammar-source", "sqlparser/*.y", dir, fmt.Sprintf("expected one grammar source, found %v", ys))
	if len(ys) != 1 {
		return
	}
	cmd := exec.Command(gy, "-o", filepath.Join(tmp, "parser.go"), "-v", filepath.Join(tmp, "y.output"), "-p", "yy", filepath.Join(dir, ys[0]))
	cmd.Dir = tmp
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.require(false, "grammar-compiles", ys[0], dir, "goyacc refuses the grammar: "+short(string(out), 300))
		return
	}
	want, err := readGenerated(filepath.Join(tmp, "parser.go"))
	if err != nil {
		panic(err)
	}
	have, err := readGenerated(filepath.Join(dir, strings.TrimSuffix(ys[0], ".y")+".go"))
	if err != nil {
		c.require(false, "grammar-compiles", "compiled parser", dir, err.Error())
		return
	}
	loc := func(k string) string {
		if p, ok := have.pos[k]; ok {
			ps := have.fset.PositionFor(p, false)
			return fmt.Sprintf("sqlparser/%s:%d", filepath.Base(ps.Filename), ps.Line)
		}
		return "sqlparser/parser.go"
	}
	flag := func(g *gfile) int64 {
		n, _ := strconv.ParseInt(strings.ReplaceAll(g.consts["yyFlag"], " ", ""), 10, 64)
		return n
	}
	wf, hf := flag(want), flag(have)
	c.require(wf < 0 && hf < 0, "constant", "yyFlag", loc("var yyFlag"), "the flag of the parse tables is missing")
	delete(want.consts, "yyFlag")
	delete(have.consts, "yyFlag")
	cmp := func(rule, kind string, w, h map[string]string) {
		for _, k := range keysOf(w, h) {
			a, okw := w[k]
			b, okh := h[k]
			d := ""
			switch {
			case !okw:
				d = "is compiled but not produced by the grammar source"
			case !okh:
				d = "is produced by the grammar source but not compiled"
			case a != b:
				d = "differs from the grammar source: " + diffAt(a, b)
			}
			c.require(d == "", rule, k, loc(kind+" "+k), fmt.Sprintf("%s %s %s", rule, k, d))
		}
	}
	cmp("constant", "var", want.consts, have.consts)
	cmp("type", "type", want.types, have.types)
	cmp("variable", "var", want.vars, have.vars)
	cmp("function", "func", want.funcs, have.funcs)
	cmp("action", "action", want.actions, have.actions)
	cells := 0
	for _, k := range keysOf(want.tables, have.tables) {
		a, b := want.tables[k], have.tables[k]
		cells += len(b)
		d := ""
		if len(a) != len(b) {
			d = fmt.Sprintf("has %d entries, the grammar source gives %d", len(b), len(a))
		} else {
			for i := range a {
				x, y := a[i], b[i]
				if x == wf && y == hf {
					continue
				}
				if x != y {
					d = fmt.Sprintf("entry %d is %d, the grammar source gives %d", i, y, x)
					break
				}
			}
		}
		c.require(d == "", "table", k, loc("var "+k), "parse table "+k+" "+d)
	}
	c.stats["table entries compared"] = cells
	c.floor("semantic actions compared", len(have.actions), 400)
	c.floor("parse tables compared", len(have.tables), 10)
	c.floor("token constants compared", len(have.consts), 150)
}

func keysOf[V any](ms ...map[string]V) []string {
	s := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			s[k] = true
		}
	}
	var o []string
	for k := range s {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 25
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 50
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("source %q, compiled %q", cut(a), cut(b))
}
