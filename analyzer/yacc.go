package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// ---- the grammar source

// production is one alternative of a rule of the grammar.
type production struct {
	lhs    string
	rhs    []string
	action string // Go code; the value of the rule is yyV, of symbol i yyD[i]
	line   int

	midDone bool
}

// readGrammar reads the productions of the yacc source of the SQL parser, with
// the semantic actions that the compiled parser has for them. The agreement of
// the compiled parser with this source is property C21.
func readGrammar() []production {
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "sqlparser", "*.y"))
	if len(fs) != 1 {
		return nil
	}
	b, err := os.ReadFile(fs[0])
	if err != nil {
		return nil
	}
	prods := parseYacc(string(b))
	acts, lens := compiledActions(strings.TrimSuffix(fs[0], ".y") + ".go")
	n := 0
	var bodies []string
	for i := range prods {
		body := ""
		for _, s := range prods[i].rhs {
			if s == "$action" {
				n++
				body += acts[n]
			}
		}
		n++
		if n >= len(lens) || lens[n] != int64(len(prods[i].rhs)) {
			return prods // not the parser of this source: see C21
		}
		bodies = append(bodies, body+acts[n])
	}
	if n != len(lens)-1 {
		return prods
	}
	_, syms := symbolTypes(string(b))
	for i := range prods {
		pr := &prods[i]
		pr.action = compiledRef.ReplaceAllStringFunc(bodies[i], func(s string) string {
			m := compiledRef.FindStringSubmatch(s)
			sym, ref := pr.lhs, "yyV"
			if m[1] != "" {
				k, _ := strconv.Atoi(m[1])
				ref = "yyD[" + m[1] + "]"
				if k < 1 || k > len(pr.rhs) {
					return "yyOther." + m[2]
				}
				sym = pr.rhs[k-1]
			}
			if syms[sym] != m[2] {
				return "yyOther." + m[2]
			}
			return ref
		})
	}
	return prods
}

// a value is referred to by the member of the union that holds it; one that is
// not the declared member of its symbol is not the symbol's value
var compiledRef = regexp.MustCompile(`\b(?:yyVAL|yyDollar\[([0-9]+)\])\.([A-Za-z0-9_]+)`)

// compiledActions gives the semantic actions of a generated parser by number of
// the production, and the length of each production.
func compiledActions(path string) (map[int]string, []int64) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, parser.SkipObjectResolution)
	if err != nil {
		return nil, nil
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	acts := map[int]string{}
	var lens []int64
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ValueSpec:
			if len(x.Names) == 1 && x.Names[0].Name == "yyR2" && len(x.Values) == 1 {
				if cl, ok := x.Values[0].(*ast.CompositeLit); ok {
					lens, _ = intList(cl)
				}
			}
		case *ast.CaseClause:
			if len(x.List) != 1 || len(x.Body) == 0 {
				return true
			}
			l, ok := x.List[0].(*ast.BasicLit)
			if !ok || l.Kind != token.INT {
				return true
			}
			as, ok := x.Body[0].(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 {
				return true
			}
			if id, ok := as.Lhs[0].(*ast.Ident); !ok || id.Name != "yyDollar" {
				return true
			}
			num, _ := strconv.Atoi(l.Value)
			acts[num] = "\n" + string(b[off(as.End()):off(x.End())]) + "\n"
		}
		return true
	})
	return acts, lens
}

var dollar = regexp.MustCompile(`\$\$|\$(<[a-zA-Z]+>)?[0-9]+`)

func goAction(a string) string {
	return dollar.ReplaceAllStringFunc(a, func(s string) string {
		if s == "$$" {
			return "yyV"
		}
		return "yyD[" + strings.TrimLeft(s[strings.LastIndex(s, ">")+1:], "$") + "]"
	})
}

func parseYacc(src string) []production {
	var out []production
	i := strings.Index(src, "\n%%")
	if i < 0 {
		return nil
	}
	line := strings.Count(src[:i], "\n") + 2
	s := src[i+3:]
	pos := 0
	adv := func(n int) {
		line += strings.Count(s[pos:pos+n], "\n")
		pos += n
	}
	skip := func() {
		for pos < len(s) {
			switch {
			case s[pos] == ' ' || s[pos] == '\t' || s[pos] == '\n' || s[pos] == '\r':
				adv(1)
			case strings.HasPrefix(s[pos:], "//"):
				n := strings.IndexByte(s[pos:], '\n')
				if n < 0 {
					n = len(s) - pos
				}
				adv(n)
			case strings.HasPrefix(s[pos:], "/*"):
				n := strings.Index(s[pos:], "*/")
				if n < 0 {
					pos = len(s)
					return
				}
				adv(n + 2)
			default:
				return
			}
		}
	}
	word := regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*`)
	var cur *production
	lhs := ""
	flush := func() {
		if cur != nil {
			out = append(out, *cur)
		}
		cur = nil
	}
	for {
		skip()
		if pos >= len(s) || strings.HasPrefix(s[pos:], "%%") {
			break
		}
		switch ch := s[pos]; {
		case ch == '{':
			st := pos
			d := 0
			for pos < len(s) {
				c := s[pos]
				if strings.HasPrefix(s[pos:], "//") {
					n := strings.IndexByte(s[pos:], '\n')
					if n < 0 {
						n = len(s) - pos
					}
					adv(n)
					continue
				}
				if strings.HasPrefix(s[pos:], "/*") {
					if n := strings.Index(s[pos:], "*/"); n > 0 {
						adv(n + 2)
						continue
					}
				}
				if c == '"' || c == '`' || c == '\'' {
					q := c
					adv(1)
					for pos < len(s) && s[pos] != q {
						if s[pos] == '\\' && q != '`' {
							adv(1)
						}
						adv(1)
					}
				}
				if c == '{' {
					d++
				}
				if c == '}' {
					d--
				}
				adv(1)
				if d == 0 {
					break
				}
			}
			if cur != nil {
				cur.action += goAction(s[st+1 : pos-1])
			}
		case ch == '|':
			flush()
			adv(1)
			cur = &production{lhs: lhs, line: line}
		case ch == ';':
			flush()
			adv(1)
		case ch == '\'':
			n := 3
			if s[pos+1] == '\\' {
				n = 4
			}
			if cur != nil {
				cur.mid()
				cur.rhs = append(cur.rhs, s[pos:pos+n])
			}
			adv(n)
		case ch == '%': // %prec NAME
			adv(1)
			adv(len(word.FindString(s[pos:])))
			skip()
			adv(len(word.FindString(s[pos:])))
		default:
			w := word.FindString(s[pos:])
			if w == "" {
				adv(1)
				continue
			}
			l0 := line
			adv(len(w))
			save, sl := pos, line
			skip()
			if pos < len(s) && s[pos] == ':' {
				flush()
				adv(1)
				lhs = w
				cur = &production{lhs: lhs, line: l0}
				continue
			}
			pos, line = save, sl
			if cur != nil {
				cur.mid()
				cur.rhs = append(cur.rhs, w)
			}
		}
	}
	flush()
	return out
}

// mid counts an action in the middle of a rule as the symbol it is.
func (pr *production) mid() {
	if pr.action != "" && !pr.midDone {
		pr.rhs = append(pr.rhs, "$action")
		pr.midDone = true
	}
}

func (pr *production) String() string { return pr.lhs + ": " + strings.Join(pr.rhs, " ") }

func (pr *production) where() string { return "sqlparser/parser.y:" + strconv.Itoa(pr.line) }
