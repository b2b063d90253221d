package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks0["C10"] = checkC10 }

// ---- C10: literals and default values

// litKinds are the kinds of literal of the syntax tree by name, with the text a
// default value of that kind has to be written as ("": only an error will do).
func litText(kind string, mode int, v string) []string {
	switch kind {
	case "str":
		if mode == 0 {
			return []string{"'‹" + v + "×'×\\›'"}
		}
		return []string{"'‹" + v + "×'›'"}
	case "int", "float", "valarg":
		return []string{U(v)}
	case "bit":
		return []string{"b'" + U(v) + "'", "B'" + U(v) + "'"}
	case "hexnum":
		return []string{"", U(v)}
	case "hex":
		return []string{"", "X'" + U(v) + "'", "x'" + U(v) + "'"}
	case "bool":
		return []string{"", U(v)}
	}
	return nil
}

func litKey(n string) string {
	n = enumKey(n)
	n = strings.TrimSuffix(strings.TrimPrefix(n, "val"), "val")
	if n == "arg" {
		n = "valarg"
	}
	return n
}

// constructors are the functions that make a literal node from the text of a
// token, with the kind they give it.
func (c *Check) literalConstructors() map[string]string {
	sp := c.p.pkg("sqlparser").Pkg
	vt := sp.Scope().Lookup("ValType")
	out := map[string]string{}
	if vt == nil {
		return out
	}
	kinds := map[int64]string{}
	for n, v := range enumConsts(sp, vt.Type()) {
		kinds[v] = litKey(n)
	}
	for _, f := range c.p.functions("sqlparser") {
		s := f.Signature
		if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 || f.Parent() != nil ||
			s.Params().At(0).Type().String() != "[]byte" || !strings.HasSuffix(s.Results().At(0).Type().String(), "sqlparser.SQLVal") {
			continue
		}
		ev := newEval(c.p)
		in := mkSym("$text", s.Params().At(0).Type())
		res := ev.Call(f, []*Term{in}, nil, newState(), 0, "lit "+f.Name())
		a := &act{ev: ev, fn: f}
		v := mkDeref(a.snapshot(res.ret, res.st, 4), nil)
		k, ok := mkField(v, "Type", nil).intConst()
		if mkField(v, "Type", nil) == tNil { // its zero value
			k, ok = 0, true
		}
		c.require(ok && kinds[k] != "", "constructor-kind", f.Name(), c.p.posStr(f.Pos()), "the kind of the literal is "+short(pp(mkField(v, "Type", nil)), 80))
		txt := mkField(v, "Val", nil)
		c.require(txt == in, "constructor-text", f.Name(), c.p.posStr(f.Pos()), "the text of the literal is "+short(pp(txt), 80)+", not the text of the token")
		if ok {
			out[f.Name()] = kinds[k]
		}
	}
	return out
}

var tokenLit = map[string]string{"STRING": "str", "INTEGRAL": "int", "FLOAT": "float", "HEXNUM": "hexnum", "HEX": "hex", "BIT_LITERAL": "bit", "VALUE_ARG": "valarg"}

// grammarLiterals: a literal token becomes a literal node of its kind with its
// text.
func (c *Check) grammarLiterals(cons map[string]string) {
	prods := readGrammar()
	c.floor("productions of the grammar", len(prods), 800)
	n := 0
	for i := range prods {
		pr := &prods[i]
		f, err := parser.ParseFile(token.NewFileSet(), "", "package p\nfunc f() {\n"+pr.action+"\n}", 0)
		if err != nil {
			c.require(false, "undecided", pr.String(), pr.where(), "the action is not understood: "+err.Error())
			continue
		}
		idx := func(e ast.Expr) int {
			ix, ok := e.(*ast.IndexExpr)
			if !ok {
				return 0
			}
			if id, ok := ix.X.(*ast.Ident); !ok || id.Name != "yyD" {
				return 0
			}
			k := 0
			if l, ok := ix.Index.(*ast.BasicLit); ok {
				fmt.Sscan(l.Value, &k)
			}
			return k
		}
		ast.Inspect(f, func(x ast.Node) bool {
			call, ok := x.(*ast.CallExpr)
			if !ok || len(call.Args) != 1 {
				return true
			}
			id, ok := call.Fun.(*ast.Ident)
			if !ok || cons[id.Name] == "" {
				return true
			}
			arg := call.Args[0]
			if k := idx(arg); k > 0 && k <= len(pr.rhs) {
				want, lit := tokenLit[pr.rhs[k-1]]
				if lit {
					n++
					got := cons[id.Name]
					c.require(got == want, "literal-kind", pr.String(), pr.where(), fmt.Sprintf("a %s token becomes a literal of kind %s", pr.rhs[k-1], got))
				}
				return true
			}
			// a text made of the token's text: nothing of a literal may be taken
			// off or changed
			ast.Inspect(arg, func(y ast.Node) bool {
				if e, ok := y.(ast.Expr); ok {
					if k := idx(e); k > 0 && k <= len(pr.rhs) {
						if _, lit := tokenLit[pr.rhs[k-1]]; lit {
							n++
							c.require(false, "literal-text", pr.String(), pr.where(), "the text of the "+pr.rhs[k-1]+" token is changed")
						}
					}
				}
				return true
			})
			return true
		})
		// the value of a default clause is handed on
		if len(pr.rhs) > 1 && pr.rhs[0] == "DEFAULT" && pr.action != "" {
			for k, s := range pr.rhs {
				if s != "DEFAULT" && strings.ToLower(s) == s && s[0] != '\'' && !strings.HasSuffix(s, "_opt") {
					n++
					c.require(strings.Contains(pr.action, fmt.Sprintf("yyD[%d]", k+1)), "default-handed-on", pr.String(), pr.where(), "the value of the default clause is not used")
				}
			}
		}
	}
	c.floor("literal tokens made into literals", n, 25)
}

// scanners: the digits and letters of a number are all kept, in order.
func (c *Check) scanners() {
	// the function that moves on by one character
	var tk *types.Named
	if o := c.p.pkg("sqlparser").Pkg.Scope().Lookup("Tokenizer"); o != nil {
		tk, _ = o.Type().(*types.Named)
	}
	if tk == nil {
		c.require(false, "coverage", "tokenizer", "", "the tokenizer was not found")
		return
	}
	isTk := func(t types.Type) bool {
		pt, ok := t.(*types.Pointer)
		return ok && types.Identical(pt.Elem(), tk)
	}
	advance := map[*ssa.Function]bool{}
	for _, f := range c.p.functions("sqlparser") {
		if f.Signature.Recv() == nil || !isTk(f.Signature.Recv().Type()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isTk(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "lastChar" {
						if k, isK := st.Val.(*ssa.Const); !isK || constant.Compare(k.Value, token.NEQ, constant.MakeInt64(0)) {
							advance[f] = true
						}
					}
				}
			}
		}
	}
	c.floor("functions that move the tokenizer on", len(advance), 1)
	konst := map[string]int64{}
	for _, n := range []string{"INTEGRAL", "FLOAT", "HEXNUM"} {
		if k := c.p.pkg("sqlparser").Const(n); k != nil {
			konst[n], _ = constant.Int64Val(k.Value.Value)
		}
	}
	// functions that return a number token, and the helpers they call
	num := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if num[f] || advance[f] {
			return
		}
		num[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil && isTk(g.Signature.Recv().Type()) {
						add(g)
					}
				}
			}
		}
	}
	for _, f := range c.p.functions("sqlparser") {
		if f.Signature.Recv() == nil || !isTk(f.Signature.Recv().Type()) || f.Signature.Results().Len() == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if i, _ := constant.Int64Val(k.Value); i == konst["HEXNUM"] && i != 0 {
							if _, isRet := in.(*ssa.Return); isRet {
								add(f)
							} else if _, isPhi := in.(*ssa.Phi); isPhi {
								add(f)
							}
						}
					}
				}
			}
		}
	}
	n := 0
	for _, f := range sortFns(num) {
		for _, b := range f.Blocks {
			written := false
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.Name() == "WriteByte" && len(ci.Common().Args) == 2 && readsLast(ci.Common().Args[1], isTk) {
					written = true
				}
				if advance[g] {
					n++
					c.require(written, "number-text", f.Name()+": "+blockName(f, ci), c.p.posStr(ci.Pos()), "a character of a number is read without being kept")
					written = false
				}
			}
		}
	}
	c.floor("characters of numbers read", n, 1)
	c.floor("functions that scan numbers", len(num), 3)

	// backslashes in string literals
	m := 0
	for _, f := range c.p.functions("sqlparser") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				gl, ok := ia.X.(*ssa.Global)
				if !ok || !strings.Contains(gl.Name(), "Decode") {
					continue
				}
				m++
				c.require(dependsOnMode(b, isTk), "backslash-escapes", "string literals", c.p.posStr(ia.Pos()), "backslashes in string literals are taken as escapes in every dialect, though only MySQL has them")
			}
		}
	}
	c.floor("escape sequences decoded", m, 1)
	c.escapes()
}

// mysqlEscapes is MySQL's table of escape sequences.
var mysqlEscapes = map[int64]int64{0: '0', '\'': '\'', '"': '"', '\b': 'b', '\n': 'n', '\r': 'r', '\t': 't', 26: 'Z', '\\': '\\'}

// escapes: how the characters of a string literal are written in expressions.
func (c *Check) escapes() {
	n, e := 0, 0
	fs := append([]*ssa.Function{}, c.p.functions("sqlparser/dependency/sqltypes")...)
	if f := c.p.fn("sqlparser/dependency/sqltypes", "init"); f != nil {
		fs = append(fs, f)
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					k, ok1 := constOf(x.Key)
					v, ok2 := constOf(x.Value)
					if f.Name() == "init" && ok1 && ok2 && x.Map.Type().String() == "map[byte]byte" {
						n++
						c.require(mysqlEscapes[k] == v && v != 0, "escape-table", fmt.Sprint(k), c.p.posStr(x.Pos()), fmt.Sprintf("character %d is escaped as \\%c", k, rune(v)))
					}
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if x.Common().IsInvoke() || g == nil || g.Name() != "WriteByte" || len(x.Common().Args) != 2 {
						continue
					}
					if k, ok := constOf(x.Common().Args[1]); ok && k == '\\' {
						e++
						c.require(false, "backslash-written", "string literals", c.p.posStr(x.Pos()), "strings in expressions are written with backslash escapes in every dialect, though only MySQL has them: 'it''s' becomes 'it\\'s'")
					}
				}
			}
		}
	}
	c.floor("escape sequences", n, 9)
	c.floor("places that write escapes", e, 0)
}

func constOf(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k.Value)
}

func blockName(f *ssa.Function, ci ssa.CallInstruction) string {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == ci.Common().StaticCallee() {
				n++
				if c == ci {
					return fmt.Sprintf("%s #%d", ci.Common().StaticCallee().Name(), n)
				}
			}
		}
	}
	return "?"
}

func sortFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// readsLast: the value is the tokenizer's current character.
func readsLast(v ssa.Value, isTk func(types.Type) bool) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return readsLast(x.X, isTk)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return isTk(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "lastChar"
			}
		}
	}
	return false
}

// dependsOnMode: a branch on the dialect dominates the block.
func dependsOnMode(b *ssa.BasicBlock, isTk func(types.Type) bool) bool {
	var reads func(v ssa.Value, d int) bool
	reads = func(v ssa.Value, d int) bool {
		if d > 6 || v == nil {
			return false
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && isTk(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "mode" {
				return true
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil && reads(*op, d+1) {
					return true
				}
			}
		}
		return false
	}
	for d := b; d != nil; d = d.Idom() {
		if i := d.Idom(); i != nil {
			if br, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If); ok && reads(br.Cond, 0) {
				return true
			}
		}
	}
	return false
}

// renderedLiterals: what a literal default of the schema becomes in the
// definition of an added column: parsed, converted, written.
func (c *Check) renderedLiterals() {
	fn := c.p.converter()
	if fn == nil {
		c.require(false, "coverage", "converter", "", "the function that converts one parsed statement was not found")
		return
	}
	sp := c.p.pkg("sqlparser").Pkg
	kinds := map[string]int64{}
	if vt := sp.Scope().Lookup("ValType"); vt != nil {
		kinds = enumConsts(sp, vt.Type())
	}
	c.floor("kinds of literal", len(kinds), 8)
	from := colSrc + "Type.Default.Value"
	for m := range modeNames {
		v, _, _, _ := c.p.converted(fn, m, "create")
		if v == nil {
			c.require(false, "literal", modeNames[m], c.p.posStr(fn.Pos()), "a CREATE TABLE statement is not converted")
			continue
		}
		val, why := part(v, "table.columns[].defaultDef*.value", from)
		if val == nil {
			c.require(false, "literal", modeNames[m], c.p.posStr(fn.Pos()), why)
			continue
		}
		cc := newCanon()
		content := mkDeref(val, nil)
		ab := absent(from)
		for _, kn := range keysOf(kinds) {
			lit := mkSym("$lit", nil)
			sub := map[*Term]*Term{psym(from + ".Type"): mkInt(kinds[kn]), psym(from + ".Val"): lit}
			fields := map[string]*Term{}
			st := c.p.schemaType("Value").Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				n := st.Field(i).Name()
				t := restrictTerm(substTerm(cc.term(mkField(content, n, nil)), sub), bNot(ab))
				fields[n] = pickLive(t)
			}
			want := litText(litKey(kn), m, "lit")
			if want == nil {
				c.require(false, "literal", modeNames[m]+"/"+kn, "sqlparser", "a kind of literal this check knows nothing about")
				continue
			}
			s := &textScene{
				name: "literal " + kn, modes: "mpsx", groups: columnGroups(),
				build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
					k := p.plainColumn("k.name", 0)
					x := p.freeColumn("d", 1, 1, map[string]*Term{"x.defaultDef.value": ptrTo(p, "Value", fields)})
					d, cu := p.tablesWith(m, cols(k, x), cols(k))
					return d, cu, otherNames("k.name", "x.name")
				},
			}
			c.literalScene(s, m, kn, want)
		}
	}
}

// pickLive drops the alternatives that cannot be.
func pickLive(t *Term) *Term {
	for _, k := range cases(t) {
		if k.text.op != OUndef && !unsat(k.g) {
			return k.text
		}
	}
	return t
}

func (c *Check) literalScene(s *textScene, m int, kn string, want []string) {
	key := modeNames[m] + "/" + kn
	var base *config
	for _, cf := range s.configs(m) {
		if cf.name == "plain" {
			base = &cf
			break
		}
	}
	// the plain column, with a default
	cf := config{name: "plain", ch: base.ch, sub: map[*Term]*Term{}, care: True}
	for g, a := range base.ch {
		if g == "default" {
			continue
		}
		for _, gr := range s.groups {
			if gr.name == g {
				for _, al := range s.alts(gr, m) {
					if al.name == a {
						cf.assume(al.set)
					}
				}
			}
		}
	}
	cf.assume("d.has:x.defaultDef")
	d, cu, care := s.build(c.p, m)
	run := c.p.planForCare(m, d, cu, true, care)
	r := &textRun{s: s, mode: m, run: run, care: care}
	cond := bAnd(substBDD(care, cf.sub), substBDD(cf.care, cf.sub))
	failed := bNot(isNilBDD(restrictTerm(substTerm(run.err, cf.sub), cond)))
	switch {
	case implies(cond, failed):
		c.require(has(want, ""), "literal", key, "schema", "a default value of kind "+kn+" is refused")
		return
	case !unsat(bAnd(cond, failed)):
		c.require(false, "literal", key, "schema", "whether a default value of kind "+kn+" is refused depends on "+short(ppb(bAnd(cond, failed), 6), 200))
		return
	}
	got, prob := r.statements(cf)
	ok := prob == "" && len(got) == 1
	if ok {
		ok = false
		for _, w := range want {
			if w != "" && hasClause(got[0], "DEFAULT "+w) {
				ok = true
			}
		}
	}
	c.require(ok, "literal", key, "schema", fmt.Sprintf("a default value of kind %s is written as %s %s, not as %q", kn, got, short(prob, 200), want))
}

// hasClause: the words of the clause appear, followed by nothing that belongs
// to them.
func hasClause(stmt, clause string) bool {
	i := strings.Index(stmt, clause)
	if i < 0 {
		return false
	}
	rest := stmt[i+len(clause):]
	return rest == "" || rest[0] == ' ' || rest[0] == ')' || rest[0] == ','
}

// defaultClauses: wherever a definition with a default value is written.
func (c *Check) defaultClauses() {
	n := 0
	c.p.textCases("C10", func(t *textCase) {
		x := "d.x"
		cl := wantDefault(t.mode, x, t.cf.ch)
		if cl == "" || t.prob != "" {
			if t.prob != "" && t.cf.ch["default"] != "" {
				c.require(false, "default-clause", t.where(), "schema", t.text())
			}
			return
		}
		need, have := 0, 0
		for _, w := range t.want {
			if hasClause(w, cl) {
				need++
			}
		}
		for _, g := range t.got {
			if hasClause(g, cl) {
				have++
			}
		}
		if need == 0 {
			return
		}
		n++
		c.require(have >= need, "default-clause", t.where()+"/"+t.cf.ch["default"], "schema", fmt.Sprintf("the default value is not written as %s: %s", cl, t.text()))
	})
	c.floor("definitions with a default value", n, 150)
}

// refusedDefaults: kinds of default value that cannot be written stop the run
// wherever one would have to be written.
func (c *Check) refusedDefaults() {
	n := 0
	for _, s := range textScenes {
		hasDef := false
		for _, g := range s.groups {
			hasDef = hasDef || g.name == "default" && strings.Contains(g.alts[len(g.alts)-1].set, "d.x.defaultDef.value")
		}
		if !hasDef {
			continue
		}
		for m := range modeNames {
			if !hasMode(s.modes, m) || s.only != "" && s.only != "C10" {
				continue
			}
			d, cu, care := s.build(c.p, m)
			vt := mkSym("$d.x.defaultDef.value.valueType", nil)
			care = bAll(care, condBDD("d.has:x.defaultDef"), condBDD("d.has:x.defaultDef.value"))
			run := c.p.planForCare(m, d, cu, true, care)
			for _, k := range []int64{3, 4, 7} {
				cond := bAnd(care, eqBDD(vt, mkInt(k)))
				// statements that write a default value
				cond2 := substBDD(cond, map[*Term]*Term{vt: mkInt(k)})
				if unsat(cond2) {
					continue
				}
				n++
				l := restrictTerm(substTerm(run.list, map[*Term]*Term{vt: mkInt(k)}), cond2)
				e := restrictTerm(substTerm(run.err, map[*Term]*Term{vt: mkInt(k)}), cond2)
				okc := bAnd(cond2, isNilBDD(e))
				bad := ""
				if !unsat(okc) {
					for _, q := range listParts(restrictTerm(l, okc)) {
						for _, it := range itemsOf(q) {
							if txt := renderText(it); strings.Contains(txt, "DEFAULT") && !strings.Contains(txt, "DROP DEFAULT") {
								bad = txt
							}
						}
					}
				}
				c.require(bad == "", "refused-default", modeNames[m]+"/"+s.name+fmt.Sprintf("/kind %d", k), "schema", "a default value of a kind that cannot be written is written as "+short(bad, 200))
			}
		}
	}
	c.floor("plans with default values that cannot be written", n, 10)
}

func condBDD(w string) BDD { return toBDD(condSym(w)) }

func itemsOf(t *Term) []*Term {
	switch t.op {
	case OItem:
		return []*Term{t.args[0]}
	case OIte, OList:
		var out []*Term
		for _, a := range t.args {
			out = append(out, itemsOf(a)...)
		}
		return out
	}
	return nil
}

func checkC10(c *Check) {
	c.explain = append(c.explain, "Every literal token of the grammar becomes a literal node of its kind holding the token's text (grammar actions, constructors, number scanner); every kind of literal node is converted and written as the default value of an added column, evaluated symbolically end to end per dialect, and must be the token's text with exactly the dialect's quoting, or an error; every statement that writes a default value, in every planned change and combination of attributes, holds that clause; and no kind that cannot be written is ever written.")
	c.assume = append(c.assume, "the decoding of string literals in scanString (delimiters and look-ahead) is not modelled beyond its escape table")
	cons := c.literalConstructors()
	c.floor("literal constructors", len(cons), 7)
	c.grammarLiterals(cons)
	c.scanners()
	c.literalTokens()
	c.renderedLiterals()
	c.defaultClauses()
	c.refusedDefaults()
}

// literalTokens: the kinds of token that the characters a literal starts with
// give, and the sign of a number.
func (c *Check) literalTokens() {
	l := c.p.lexer()
	if l == nil || l.scan == nil {
		c.require(false, "coverage", "tokenizer", "", "the tokenizer was not found")
		return
	}
	where := c.p.posStr(l.scan.Pos())
	n := 0
	for m, k := range c.p.modeConsts() {
		kinds, scans := c.p.dispatch(l, k, false), c.p.dispatch(l, k, true)
		is := func(ch int, got, want string) {
			n++
			c.require(got == want, "literal-token", modeNames[m]+"/"+string(rune(ch)), where, fmt.Sprintf("a token that starts with %q is one of %s, not of %s", rune(ch), got, want))
		}
		is('.', kinds('.'), "'.'|FLOAT|LEX_ERROR")
		is('0', kinds('0'), "FLOAT|HEXNUM|INTEGRAL|LEX_ERROR")
		for ch := '1'; ch <= '9'; ch++ {
			is(int(ch), kinds(int(ch)), "FLOAT|INTEGRAL|LEX_ERROR")
		}
		is('\'', kinds('\''), "LEX_ERROR|STRING")
		for _, ch := range "xX" {
			got := strings.Split(scans(int(ch)), "|")
			n++
			c.require(has(got, "scan HEX") && !has(got, "scan BIT_LITERAL"), "literal-token", modeNames[m]+"/"+string(ch), where, "x'..' is not a hexadecimal literal: "+strings.Join(got, "|"))
		}
		for _, ch := range "bB" {
			got := strings.Split(scans(int(ch)), "|")
			n++
			c.require(has(got, "scan BIT_LITERAL") && !has(got, "scan HEX"), "literal-token", modeNames[m]+"/"+string(ch), where, "b'..' is not a bit literal: "+strings.Join(got, "|"))
		}
		r := l.run(int(k))
		for _, d := range []int64{'0', '5', '9'} {
			tok, text := r.at('-', d)
			n++
			if strings.Contains(tok+text, "loopout") {
				continue // the dispatch has a loop of its own: only the kinds above
			}
			c.require(strings.HasPrefix(tok, "scan ") && strings.Contains(tok, "INTEGRAL"), "signed-number", modeNames[m], where, "a minus in front of a digit does not start a number: "+tok)
			c.require(signText.MatchString(text), "signed-number-text", modeNames[m], where, "the text of a number with a minus is "+text)
		}
	}
	c.stats["literal starts"] = n
}

var signText = regexp.MustCompile(`^[^'0-9]*(‹45›|"-"|'-')[^0-9]*scan`)
