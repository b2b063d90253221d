package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The semantic actions of the grammar as functions: of the values of the
// symbols of a production, giving the value of the production. They are added
// to the package of the parser in memory, and type-checked and evaluated like
// any other code.

type grammarProg struct {
	*Program
	prods []production
	types map[string]string // symbol -> member of the union
	fn    map[int]*ssa.Function
}

// tag sits before a declared symbol: <bytes>
var tagDecl = regexp.MustCompile(`<([a-zA-Z0-9]+)>`)

func grammarText() (string, error) {
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "sqlparser", "*.y"))
	if len(fs) != 1 {
		return "", fmt.Errorf("sqlparser has %d grammar sources", len(fs))
	}
	b, err := os.ReadFile(fs[0])
	return string(b), err
}

// symbolTypes reads the declarations of the grammar: the union's members and
// the member of each symbol.
func symbolTypes(src string) (members, syms map[string]string) {
	members, syms = map[string]string{}, map[string]string{}
	i := strings.Index(src, "\n%%")
	if i < 0 {
		return
	}
	decl := regexp.MustCompile(`(?s)/\*.*?\*/`).ReplaceAllString(src[:i], "")
	if u := strings.Index(decl, "%union"); u >= 0 {
		j := strings.Index(decl[u:], "\n}")
		for _, l := range strings.Split(decl[u:u+j], "\n")[1:] {
			if f := strings.Fields(l); len(f) >= 2 {
				members[f[0]] = strings.Join(f[1:], " ")
			}
		}
		decl = decl[:u] + decl[u+j:]
	}
	for _, l := range strings.Split(decl, "\n") {
		l = strings.TrimSpace(l)
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		switch f[0] {
		case "%type", "%token", "%left", "%right", "%nonassoc":
		default:
			continue
		}
		m := tagDecl.FindStringSubmatch(f[1])
		if m == nil {
			continue
		}
		for _, s := range f[2:] {
			syms[s] = m[1]
		}
	}
	return
}

var valueRef = regexp.MustCompile(`\byyV\b|\byyD\[([0-9]+)\]`)
var returnNum = regexp.MustCompile(`\breturn [0-9]+\b`)

func (p *Program) loadGrammar() (*grammarProg, error) {
	src, err := grammarText()
	if err != nil {
		return nil, err
	}
	g := &grammarProg{prods: readGrammar(), fn: map[int]*ssa.Function{}}
	members, syms := symbolTypes(src)
	g.types = syms
	var out strings.Builder
	out.WriteString("package sqlparser\n\nvar yyOther yySymType\n")
	for i := range g.prods {
		pr := &g.prods[i]
		fmt.Fprintf(&out, "\nfunc zzProduction%d(", i)
		for k, s := range pr.rhs {
			if t := members[syms[s]]; t != "" {
				fmt.Fprintf(&out, "d%d %s, ", k+1, t)
			}
		}
		rt := members[syms[pr.lhs]]
		if rt == "" {
			rt = "struct{}"
		}
		stale := ""
		if len(pr.rhs) > 0 && syms[pr.rhs[0]] != "" && members[syms[pr.rhs[0]]] == rt {
			stale = "\tr = d1\n"
		} else if members[syms[pr.lhs]] != "" && rt != "struct{}" {
			// what an earlier rule left there
			fmt.Fprintf(&out, "d0 %s, ", rt)
			stale = "\tr = d0\n"
		}
		fmt.Fprintf(&out, "yylex interface{ Error(string) }) (r %s) {\n%s", rt, stale)
		act := valueRef.ReplaceAllStringFunc(pr.action, func(s string) string {
			if s == "yyV" {
				return "r"
			}
			return "d" + valueRef.FindStringSubmatch(s)[1]
		})
		act = returnNum.ReplaceAllString(act, `panic("the statement is refused")`)
		out.WriteString("\tif r := r; false {\n\t\treturn r\n\t}\n")
		out.WriteString(act)
		out.WriteString("\n\treturn r\n}\n")
	}
	if f := os.Getenv("VERIF_PRODS"); f != "" {
		os.WriteFile(f, []byte(out.String()), 0o644)
	}
	q, err := loadProgramWith(p.dir, map[string][]byte{filepath.Join(p.dir, "sqlparser", "zz_productions.go"): []byte(out.String())}, "./sqlparser")
	if err != nil {
		return nil, err
	}
	g.Program = q
	sp := q.pkg("sqlparser")
	for i := range g.prods {
		g.fn[i] = sp.Func("zzProduction" + strconv.Itoa(i))
	}
	return g, nil
}

// flow: a part of the value of a production, and what it is set to.
type flow struct {
	path string // Type.Field.Field, or the left-hand side for plain values
	val  *Term
	g    BDD
}

// symbolOf tells which symbol of the production a term is (or is a part of).
func symbolOf(t *Term) (int, bool) {
	for {
		switch t.op {
		case OSym:
			if strings.HasPrefix(t.str, "$") && t.str != "$lex" {
				k, err := strconv.Atoi(t.str[1:strings.Index(t.str, ":")])
				return k, err == nil
			}
			return 0, false
		case OField, ODeref, OFieldAddr:
			t = t.args[0]
		case OApp:
			if t.str == "assert" || t.str == "index" || strings.HasPrefix(t.str, "conv:") {
				t = t.args[0]
				continue
			}
			return 0, false
		default:
			return 0, false
		}
	}
}

// made is what a production makes: its value and the fields it sets, also of
// objects that its symbols point to.
type made struct {
	val   *Term
	flows []flow
	uses  map[int]bool // symbols that reach the value
	sets  map[int]bool // symbols whose objects are changed
	bad   string
}

func (g *grammarProg) made(i int) made {
	m := made{uses: map[int]bool{}, sets: map[int]bool{}}
	fn := g.fn[i]
	if fn == nil {
		m.bad = "no function"
		return m
	}
	pr := &g.prods[i]
	ev := newEval(g.Program)
	ev.noErr = true
	ev.snapAppend = true
	ev.inline = func(f *ssa.Function) bool { return g.inRepo(f) }
	args := g.symbols(i)
	st := newState()
	res := ev.Call(fn, args, nil, st, 0, fmt.Sprintf("prod%d", i))
	if len(ev.opaque) > 0 {
		m.bad = strings.Join(sortedKeys(ev.opaque), "; ")
	}
	if res.ret == nil {
		m.bad += " no value"
		return m
	}
	a := &act{ev: ev, fn: fn}
	m.val = a.snapshot(res.ret, res.st, 12)
	var leaf func(path string, t *Term, g BDD)
	uses := func(t *Term) {
		walkTerm(t, func(x *Term) bool {
			if k, ok := symbolOf(x); ok {
				m.uses[k] = true
				return false
			}
			return true
		})
	}
	leaf = func(path string, t *Term, g BDD) {
		if t == nil {
			return
		}
		if _, ok := symbolOf(t); ok {
			uses(t)
			m.flows = append(m.flows, flow{path, t, g})
			return
		}
		switch {
		case t.op == OIte:
			leaf(path, t.args[0], bAnd(g, t.bdd))
			leaf(path, t.args[1], bAnd(g, bNot(t.bdd)))
			for _, x := range bSupport(t.bdd) {
				uses(x)
			}
		case t.op == OStruct:
			if t.args[0].op != OZero {
				leaf(path, t.args[0], g)
			}
			for k, f := range t.keys {
				leaf(path+"."+f, t.args[k+1], g)
			}
			if len(t.keys) == 0 && t.args[0].op == OZero {
				m.flows = append(m.flows, flow{path, t.args[0], g})
			}
		case t.op == OIface, t.op == OApp && t.str == "&":
			leaf(path, t.args[0], g)
		case t.op == OList:
			head := true
			for _, x := range t.args {
				if x.op != OItem {
					leaf(path, x, g)
					head = false
					continue
				}
				if head && len(t.args) > 1 {
					leaf(path+"[first]", x.args[0], g)
				} else {
					leaf(path+"[]", x.args[0], g)
				}
			}
			if len(t.args) == 0 {
				m.flows = append(m.flows, flow{path, t, g})
			}
		default:
			m.flows = append(m.flows, flow{path, t, g})
			uses(t)
		}
	}
	root := pr.lhs
	if v := valueOf(m.val); v.op == OStruct && v.typ != nil {
		root = shortType(v.typ.String())
	}
	leaf(root, m.val, True)
	// what was changed through pointers
	cells := map[any]bool{}
	deltaKeys(res.st, st, cells)
	var ptrs []*Term
	for k := range cells {
		if ct, ok := k.(*Term); ok {
			if _, ok := symbolOf(ct); ok {
				ptrs = append(ptrs, ct)
			}
		}
	}
	sort.Slice(ptrs, func(i, j int) bool { return pp(ptrs[i]) < pp(ptrs[j]) })
	for _, ct := range ptrs {
		n, _ := symbolOf(ct)
		v, _ := res.st.get(ct)
		m.sets[n] = true
		x := a.snapshot(v, res.st, 12)
		r := "?"
		if y := valueOf(x); y.typ != nil {
			r = shortType(y.typ.String())
		}
		if x.op == OStruct {
			// only what was changed
			for k, f := range x.keys {
				leaf(r+"."+f, x.args[k+1], True)
			}
		} else {
			leaf(r, x, True)
		}
	}
	return m
}

// valueOf is the object behind interfaces and pointers.
func valueOf(t *Term) *Term {
	for t.op == OIface || t.op == OIte || t.op == OApp && t.str == "&" {
		t = t.args[0]
	}
	return t
}

var symbolRef = regexp.MustCompile(`\$[0-9]+:`)

// origin describes where a value comes from: the symbol with the word before
// it, or a constant or a text made of symbols with the words of the rule; and
// which optional symbols have to be there or not, unless it is the one that the
// value comes from.
func (pr *production) origin(f flow) string {
	t := f.val
	own := 0
	o := ""
	if k, ok := symbolOf(t); ok && k <= len(pr.rhs) {
		own = k
		o = pr.symbol(k)
		if x := fieldsOf(t); x != "" {
			o += "." + x
		}
		for j := k - 2; j >= 0; j-- {
			if w := pr.rhs[j]; isWord(w) {
				o += "@" + w
				break
			}
		}
	} else {
		o = symbolRef.ReplaceAllString(pp(t), "") + "@" + pr.words()
	}
	return o + pr.condition(f.g, own)
}

func (pr *production) words() string {
	var words []string
	for _, w := range pr.rhs {
		if isWord(w) {
			words = append(words, w)
		}
	}
	return strings.Join(words, " ")
}

func (pr *production) condition(g BDD, own int) string {
	out := ""
	for g != True {
		var rest BDD = True
		v := bSupport(g)
		if len(v) == 0 {
			break
		}
		k, ok := symbolOf(v[0])
		yes, no := " if ", " unless "
		if !ok {
			yes, no = " without ", " with "
			if v[0].op != OApp || v[0].str != "isnil" || len(v[0].args) != 1 {
				return out + " if " + symbolRef.ReplaceAllString(ppb(g, 80), "")
			}
			k, ok = symbolOf(v[0].args[0])
		}
		b := atomBDD(v[0])
		switch {
		case !ok:
			return out + " if " + symbolRef.ReplaceAllString(ppb(g, 80), "")
		case implies(g, b):
			out += yes + pr.symbol(k)
			rest = bRestrict(g, v[0], true)
		case implies(g, bNot(b)):
			if k != own || no != " with " {
				out += no + pr.symbol(k)
			}
			rest = bRestrict(g, v[0], false)
		default:
			return out + " if " + symbolRef.ReplaceAllString(ppb(g, 80), "")
		}
		g = rest
	}
	return out
}

func isWord(s string) bool {
	return s != "" && strings.ToUpper(s) == s && s[0] != '\'' && s[0] != '$' && s != "ID" && s != "STRING" && s != "INTEGRAL" && s != "FLOAT"
}

// fieldsOf names the part of a symbol's value that a term is.
func fieldsOf(t *Term) string {
	switch t.op {
	case OField:
		if f := fieldsOf(t.args[0]); f != "" {
			return f + "." + t.str
		}
		return t.str
	case ODeref:
		return fieldsOf(t.args[0])
	case OApp:
		if t.str == "assert" || strings.HasPrefix(t.str, "conv:") {
			return fieldsOf(t.args[0])
		}
	}
	return ""
}

// reach gives the symbols that derivations from the roots can contain, without
// going into those left out.
func (g *grammarProg) reach(roots, leave []string) map[string]bool {
	by := map[string][]int{}
	for i := range g.prods {
		by[g.prods[i].lhs] = append(by[g.prods[i].lhs], i)
	}
	seen := map[string]bool{}
	var visit func(s string)
	visit = func(s string) {
		if seen[s] || len(by[s]) == 0 || has(leave, s) {
			return
		}
		seen[s] = true
		for _, i := range by[s] {
			for _, x := range g.prods[i].rhs {
				visit(x)
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// valued gives the positions of the symbols of a production that carry a value
// of their own: those of declared type that are not keywords.
func (g *grammarProg) valued(i int) (out []int) {
	for k, s := range g.prods[i].rhs {
		if g.types[s] != "" && !isWord(s) && s[0] != '\'' {
			out = append(out, k+1)
		}
	}
	return
}

// symbol names the k-th symbol of a production; the zeroth is what an earlier
// rule left in the place of the value.
func (pr *production) symbol(k int) string {
	if k == 0 {
		return "stale"
	}
	return pr.rhs[k-1]
}

// symbols gives the values of the symbols of a production, to be passed to its
// function.
func (g *grammarProg) symbols(i int) []*Term {
	var args []*Term
	for _, q := range g.fn[i].Params {
		if q.Name() == "yylex" {
			args = append(args, mkSym("$lex", q.Type()))
			continue
		}
		k, _ := strconv.Atoi(q.Name()[1:])
		args = append(args, mkSym(fmt.Sprintf("$%d:%s", k, g.prods[i].symbol(k)), q.Type()))
	}
	return args
}
