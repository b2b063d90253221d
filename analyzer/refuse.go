package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks0["C15"] = checkC15 }

// ---- C15: what cannot be handled is refused, never ignored

// refused: under the assumption every outcome is an error.
func refused(errT *Term, alive, care BDD) bool {
	return unsat(bAll(care, alive, isNilBDD(errT)))
}

// parsedKinds: the statement types of the parsed tree.
func (p *Program) parsedKinds() []types.Type {
	sp := p.pkg("sqlparser")
	st := sp.Type("Statement")
	if st == nil {
		return nil
	}
	it, ok := st.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	return implementers(sp, it)
}

func implementers(sp *ssa.Package, it *types.Interface) []types.Type {
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []types.Type
	for _, n := range names {
		t, ok := sp.Members[n].(*ssa.Type)
		if !ok || types.IsInterface(t.Type()) {
			continue
		}
		if types.Implements(t.Type(), it) {
			out = append(out, t.Type())
		} else if pt := types.NewPointer(t.Type()); types.Implements(pt, it) {
			out = append(out, pt)
		}
	}
	return out
}

// convOf evaluates the conversion of a parsed statement, errors included.
func (p *Program) convOf(fn *ssa.Function, mode int, stmt *Term, set func(*State)) Result {
	ev := p.convEval()
	ev.noErr = false
	st := newState()
	if set != nil {
		set(st)
	}
	ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
		if !isParse(name, rtyp) {
			return nil, false
		}
		return tuple(stmt, tNil), true
	}
	return ev.Call(fn, p.convArgs(fn, mode), nil, st, 0, "conv")
}

func checkC15(c *Check) {
	p := c.p
	fn := p.converter()
	if !c.require(fn != nil, "undecided", "converter", "", "the function that converts one statement was not found") {
		return
	}
	at := p.posStr(fn.Pos())
	dt := p.pkg("sqlparser").Type("DDL").Type()

	// -- statements: every kind of the grammar is converted or refused
	actions := p.parsedActions()
	c.floor("actions of the grammar", len(actions), 12)
	handled := map[string]bool{}
	for m, mn := range modeNames {
		free := mkSym("$action", types.Typ[types.String])
		stmt := mkSym("$stmt", types.NewPointer(dt))
		put := func(a *Term) func(*State) {
			return func(st *State) { st.set(stmt, mkUpdate(mkDeref(stmt, dt), "Action", a, dt)) }
		}
		for _, a := range actions {
			res := p.convOf(fn, m, mkIface(stmt, stmt.typ), put(mkStrC(a)))
			ret, err := mkField(res.ret, "0", nil), mkField(res.ret, "1", nil)
			if refused(err, True, True) {
				continue
			}
			handled[a] = true
			// success gives an object
			ok := true
			for _, v := range cases(ret) {
				if unsat(bAnd(v.g, isNilBDD(err))) {
					continue
				}
				if v.text.op != OIface {
					ok = false
				}
			}
			c.require(ok, "statement-becomes-an-object", mn+"/"+a, at, "a parsed "+a+" statement is neither turned into an object nor refused: "+short(pp(ret), 100))
		}
		// an action nothing is known of
		res := p.convOf(fn, m, mkIface(stmt, stmt.typ), put(free))
		care := True
		for a := range handled {
			care = bAnd(care, bNot(strSet(free, a)))
		}
		c.require(refused(mkField(res.ret, "1", nil), True, care), "unknown-refused", mn+"/unknown action", at, "a DDL statement of a kind that is not handled is not refused")
		n := 0
		for _, t := range p.parsedKinds() {
			if d, ok := t.(*types.Pointer); ok && types.Identical(d.Elem(), dt) {
				continue
			}
			n++
			res := p.convOf(fn, m, mkIface(mkSym("$other", t), t), nil)
			c.require(refused(mkField(res.ret, "1", nil), True, True), "unknown-refused", mn+"/"+shortType(t.String()), at, "a statement that is no DDL is not refused")
		}
		c.floor("other statements in "+mn, n, 14)
		res = p.convOf(fn, m, tNil, nil)
		c.require(refused(mkField(res.ret, "1", nil), True, True), "unknown-refused", mn+"/no statement", at, "an empty statement is not refused")
	}
	c.stats["actions converted"] = len(handled)
	for _, a := range []string{"create", "create index", "add index", "add foreign key", "create policy", "create view", "create trigger", "add primary key"} {
		c.require(handled[a], "statement-becomes-an-object", a, at, "statements of this kind are refused altogether")
	}
	c.skippedTails(handled)
	c.strictParse()
	c.statementList(fn)
	c.plannedKinds(fn)
	c.refusedParts()
	c.explain = append(c.explain,
		"the converter of one statement is evaluated for every action constant of the parsed tree, for an action that is none of them, and for every other statement type: it returns an object or an error",
		"grammar: the productions that skip the rest of the statement (their last symbol forces the end of the input) build only statements the converter refuses",
		"the strict parse succeeds only where the generated parser does, and never hands out a partially parsed statement",
		"every piece of the schema text that is not blank is converted, in order, and its object is part of the result",
		"the planner is evaluated for every kind of object against an empty database, a missing table, a second definition of the same name: it plans a statement or refuses")
	c.assume = append(c.assume,
		"triggers may belong to views, so a trigger of an unknown table is not asked to be refused",
		"an object is identified by its name; duplicates inside one CREATE TABLE statement are left to the database")
}

// skippedTails: productions that throw the rest of the statement away.
func (c *Check) skippedTails(handled map[string]bool) {
	p := c.p
	// functions that force the end of the input
	force := map[string]bool{}
	for _, f := range p.functions("sqlparser") {
		if f.Signature.Recv() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "ForceEOF" {
						if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) {
							force[f.Name()] = true
						}
					}
				}
			}
		}
	}
	prods := readGrammar()
	c.floor("productions of the grammar", len(prods), 800)
	body := func(pr *production) *ast.File {
		f, err := parser.ParseFile(token.NewFileSet(), "", "package p\nfunc f() {\n"+pr.action+"\n}", 0)
		if err != nil {
			c.require(false, "undecided", pr.String(), pr.where(), "the action is not understood: "+err.Error())
			return nil
		}
		return f
	}
	skips := map[string]bool{}
	direct := map[int]bool{}
	for i := range prods {
		pr := &prods[i]
		f := body(pr)
		if f == nil {
			continue
		}
		ast.Inspect(f, func(x ast.Node) bool {
			if call, ok := x.(*ast.CallExpr); ok {
				if id, ok := call.Fun.(*ast.Ident); ok && force[id.Name] {
					direct[i] = true
				}
			}
			return true
		})
		if direct[i] {
			skips[pr.lhs] = true
		}
	}
	c.floor("rules that skip the rest of a statement", len(skips), 2)
	// what uses them, up to a statement
	n := 0
	for ch := true; ch; {
		ch = false
		for i := range prods {
			pr := &prods[i]
			if skips[pr.lhs] {
				continue
			}
			for _, s := range pr.rhs {
				if skips[s] && !buildsStatement(body(pr)) && strings.TrimSpace(pr.action) == "" {
					skips[pr.lhs] = true
					ch = true
				}
			}
		}
	}
	sc := p.pkg("sqlparser").Pkg.Scope()
	for i := range prods {
		pr := &prods[i]
		uses := false
		for _, s := range pr.rhs {
			uses = uses || skips[s]
		}
		if !uses {
			continue
		}
		f := body(pr)
		if f == nil {
			continue
		}
		n++
		lits := 0
		ast.Inspect(f, func(x ast.Node) bool {
			cl, ok := x.(*ast.CompositeLit)
			if !ok {
				return true
			}
			id, ok := cl.Type.(*ast.Ident)
			if !ok {
				return true
			}
			if id.Name != "DDL" {
				lits++
				return true
			}
			act, known := "", false
			for _, e := range cl.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				if k, ok := kv.Key.(*ast.Ident); !ok || k.Name != "Action" {
					continue
				}
				switch v := kv.Value.(type) {
				case *ast.Ident:
					if k, ok := sc.Lookup(v.Name).(*types.Const); ok && k.Val().Kind() == constant.String {
						act, known = constant.StringVal(k.Val()), true
					}
				case *ast.BasicLit:
					act, known = strings.Trim(v.Value, `"`), true
				}
			}
			lits++
			c.require(known && !handled[act], "skipped-tail-refused", pr.String(), pr.where(), fmt.Sprintf("the rest of the statement is skipped and the statement is handled as a complete one (%q)", act))
			return true
		})
		c.require(lits > 0, "skipped-tail-refused", pr.String()+"/value", pr.where(), "the rest of the statement is skipped, and what becomes of it is not known")
	}
	c.floor("productions that skip the rest", n, 25)
}

func buildsStatement(f *ast.File) bool {
	r := false
	if f != nil {
		ast.Inspect(f, func(x ast.Node) bool {
			if _, ok := x.(*ast.CompositeLit); ok {
				r = true
			}
			return true
		})
	}
	return r
}

// strictParse: the parse function of the converter.
func (c *Check) strictParse() {
	p := c.p
	fn := p.converter()
	ev := p.convEval()
	entry := map[string]bool{}
	ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
		if isParse(name, rtyp) {
			entry[name] = true
		}
		return nil, false
	}
	for m := range modeNames {
		ev.Call(fn, p.convArgs(fn, m), nil, newState(), 0, "conv")
	}
	c.floor("parse functions", len(entry), 1)
	l := p.lexer()
	for e := range entry {
		f := p.fn("sqlparser", e[strings.LastIndex(e, ".")+1:])
		if f == nil {
			continue
		}
		ev := newEval(p)
		ev.inline = func(g *ssa.Function) bool {
			return fnPkg(g) == modPath+"/sqlparser" && l.leaf[g] == "" && !l.advance[g] && g.Name() != "yyParse"
		}
		rc := mkSym("$yyParse", types.Typ[types.Int])
		n := 0
		ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
			if strings.HasSuffix(name, "sqlparser.yyParse") {
				n++
				for _, a := range args {
					q := stripIface(a)
					v, ok := st.get(q)
					if !ok {
						continue
					}
					t := derefType(q.typ)
					for _, f := range []string{"ParseTree", "partialDDL"} {
						v = mkUpdate(v, f, mkSym("$"+f, nil), t)
					}
					st.set(q, v)
				}
				return rc, true
			}
			return nil, false
		}
		var args []*Term
		for i, q := range f.Params {
			args = append(args, mkSym(fmt.Sprintf("$a%d", i), q.Type()))
		}
		res := ev.Call(f, args, nil, newState(), 0, "parse")
		err := mkField(res.ret, "1", nil)
		at := p.posStr(f.Pos())
		c.require(n == 1, "strict-parse", "parser called", at, "the generated parser is not called exactly once")
		c.require(refused(err, True, bNot(eqBDD(rc, mkInt(0)))), "strict-parse", "syntax error", at, "a statement the parser does not accept is not reported as an error")
		ok := true
		for _, v := range cases(mkField(res.ret, "0", nil)) {
			if unsat(bAnd(v.g, eqBDD(rc, mkInt(0)))) || unsat(bAnd(v.g, isNilBDD(err))) {
				continue
			}
			if v.text != mkSym("$ParseTree", nil) {
				ok = false
			}
		}
		c.require(ok, "strict-parse", "tree", at, "what is returned is not the tree of the parser: "+short(pp(mkField(res.ret, "0", nil)), 120))
	}
}

// statementList: the schema text becomes one object per statement.
func (c *Check) statementList(conv *ssa.Function) {
	p := c.p
	n := 0
	for f := range p.ddlProducers() {
		if len(f.Blocks) == 0 {
			continue
		}
		calls := false
		for _, g := range callees(f) {
			calls = calls || g == conv
		}
		if !calls {
			continue
		}
		n++
		at := p.posStr(f.Pos())
		ev := newEval(p)
		ev.inline = func(g *ssa.Function) bool { return p.inlineNoParser(g) && g != conv }
		ev.pureFns = map[string]bool{conv.String(): true}
		ev.noErr = true
		var args []*Term
		for _, q := range f.Params {
			if isStringType(q.Type()) {
				args = append(args, mkSym("$text", q.Type()))
			} else {
				args = append(args, mkSym("$mode", q.Type()))
			}
		}
		res := ev.Call(f, args, nil, newState(), 0, "list")
		okb := isNilBDD(mkField(res.ret, "1", nil))
		var em []Emission
		for _, e := range emissions(mkField(res.ret, "0", nil)) {
			if !unsat(bAnd(e.g, okb)) {
				em = append(em, e)
			}
		}
		if !c.require(len(em) == 1 && len(em[0].loops) == 1 && !em[0].prior, "every-statement-converted", "one object each", at, fmt.Sprintf("the objects are not made one per statement of the text: %s", short(pp(mkField(res.ret, "0", nil)), 200))) {
			continue
		}
		e := em[0]
		call, txt := (*Term)(nil), (*Term)(nil)
		if e.item.op == OField && e.item.args[0].op == OApp {
			call = e.item.args[0]
			for i, q := range conv.Params {
				if isStringType(q.Type()) && i < len(call.args) {
					txt = call.args[i]
				}
			}
		}
		if !c.require(call != nil && txt != nil && strings.HasSuffix(call.str, conv.String()), "every-statement-converted", "the object", at, "what is collected is not the converted statement: "+short(pp(e.item), 120)) {
			continue
		}
		// the only statements left out are blank
		skip := bAnd(bNot(e.g), okb)
		c.require(implies(skip, strSet(txt, "")) || implies(skip, strSet(mkApp("strings.TrimSpace", nil, txt), "")), "every-statement-converted", "left out", at, "a statement that is not blank is left out: "+ppb(skip, 3))
		// what happens to the text before it is read
		var walk func(t *Term)
		walk = func(t *Term) {
			switch {
			case t.op == OSym:
			case t.op == OElem || t.op == OBElem:
				walk(e.loops[0].args[0])
			case t.op == OApp && t.str == "strings.TrimSpace":
				walk(t.args[0])
			case t.op == OApp && t.str == "strings.Split":
				sep, ok := t.args[1].strConst()
				c.require(ok && sep == ";", "raw-text", "separator", at, "the text is split at "+pp(t.args[1]))
				walk(t.args[0])
			case t.op == OApp && strings.HasPrefix(t.str, "(*regexp.Regexp).ReplaceAll") && len(t.args) == 3:
				c.require(false, "raw-text", "removed "+p.regexpText(t.args[0]), at, "the text is edited before it is read by the tokenizer, within string literals too")
				to, ok := t.args[2].strConst()
				c.require(ok && to == "", "raw-text", "replacement", at, "text of the schema is replaced by "+pp(t.args[2]))
				walk(t.args[1])
			default:
				c.require(false, "raw-text", "edited", at, "the text is edited before it is read by the tokenizer: "+short(pp(t), 120))
			}
		}
		walk(txt)
	}
	c.floor("functions that read a schema text", n, 1)
}

// regexpText is the pattern of a compiled regular expression.
func (p *Program) regexpText(t *Term) string {
	if t.op == OApp && strings.HasPrefix(t.str, "regexp.MustCompile") && len(t.args) == 1 {
		if s, ok := t.args[0].strConst(); ok {
			return s
		}
	}
	// a package variable: what it is initialised with
	text := pp(t)
	for _, pk := range p.prog.AllPackages() {
		in := pk.Func("init")
		if in == nil || !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, b := range in.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || !strings.Contains(text+"(", g.String()+"(") {
					continue
				}
				if call, ok := st.Val.(*ssa.Call); ok && len(call.Call.Args) == 1 {
					if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						return constant.StringVal(k.Value)
					}
				}
			}
		}
	}
	return "?"
}

// ---- the planner

// nameOf: where the objects of a kind keep their name, and whether they
// belong to a table.
var kindRules = map[string]struct {
	name  string
	table bool
	lens  map[string]int
}{
	"CreateTable":   {"table.name", false, nil},
	"CreateIndex":   {"index.name", true, map[string]int{"x.index.columns": 1, "x.index.included": 1, "x.index.options": 1}},
	"AddIndex":      {"index.name", true, map[string]int{"x.index.columns": 1, "x.index.included": 1, "x.index.options": 1}},
	"AddPrimaryKey": {"index.name", true, map[string]int{"x.index.columns": 1, "x.index.included": 1, "x.index.options": 1}},
	"AddForeignKey": {"foreignKey.constraintName", true, map[string]int{"x.foreignKey.indexColumns": 1, "x.foreignKey.referenceColumns": 1}},
	"AddPolicy":     {"policy.name", true, map[string]int{"x.policy.roles": 1}},
	"View":          {"name", false, nil},
	"Trigger":       {"name", false, map[string]int{"x.body": 1}},
}

// kindItem is a free object of a kind with the given name.
func (p *Program) kindItem(kind, side string, tag int64, mode int, name *Term) *Term {
	r := kindRules[kind]
	if kind == "CreateTable" {
		return p.createTable(side, mode, cols(p.freeColumn(side, tag, 0, nil)))
	}
	b := p.textBuilder(side, tag, map[string]*Term{"x." + r.name: name, "x.tableName": mkStrC(tableName(mode))}, r.lens)
	t := p.schemaType(kind)
	pt := types.NewPointer(t)
	return mkIface(mkApp("&", pt, b.val("x", t)), pt)
}

func (c *Check) plannedKinds(conv *ssa.Function) {
	p := c.p
	it, ok := conv.Signature.Results().At(0).Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	kinds := implementers(p.pkg("schema"), it)
	c.floor("kinds of objects", len(kinds), 8)
	at := p.posStr(p.fn("schema", "GenerateIdempotentDDLs").Pos())
	name := mkSym("$x.name", nil)
	care := bNot(strSet(name, ""))
	ref := func(m int, d, cur []*Term) (*planRun, bool) {
		r := p.planForCare(m, d, cur, true, care)
		return r, refused(r.err, True, care)
	}
	for m, mn := range modeNames {
		table := func(side string) *Term { return p.createTable(side, m, cols(p.plainColumn("k.name", 0))) }
		for _, t := range kinds {
			kind := shortKind(t)
			key := mn + "/" + kind
			rule, ok := kindRules[kind]
			if !c.require(ok, "undecided", "kind "+kind, at, "a kind of object no rule is known for") {
				continue
			}
			x := func(side string, tag int64) *Term { return p.kindItem(kind, side, tag, m, name) }
			base := []*Term{table("t")}
			if kind == "CreateTable" {
				base = nil
			}
			// a new object is planned
			r, all := ref(m, append(base, x("d", 1)), nil)
			planned := False
			for _, e := range r.em {
				if e.item.op == OUndef || (len(base) > 0 && e.item == mkSym("$t.statement", nil)) {
					continue
				}
				if len(e.loops) == 0 && !e.prior {
					planned = bOr(planned, e.g)
				}
			}
			c.require(all || implies(bAnd(care, isNilBDD(r.err)), planned), "planned-or-refused", key, at, "a desired object that does not exist is neither planned nor refused")
			if !all {
				c.stats["kinds planned"]++
			}
			// a second one of that name
			_, all = ref(m, append(base, x("d", 1), x("e", 2)), nil)
			c.require(all, "twice-refused", key+"/new", at, "two objects of the same name are not refused")
			_, all = ref(m, append(base, x("d", 1), x("e", 2)), append(base, x("d", 3)))
			c.require(all, "twice-refused", key+"/existing", at, "two objects of the same name are not refused where the object exists")
			if !rule.table {
				continue
			}
			// no such table
			_, all = ref(m, []*Term{x("d", 1)}, nil)
			c.require(all, "missing-table-refused", key+"/nowhere", at, "an object of a table that does not exist is not refused")
			_, all = ref(m, []*Term{x("d", 1)}, []*Term{table("c")})
			c.require(all, "missing-table-refused", key+"/not desired", at, "an object of a table that is not part of the schema is not refused")
			_, all = ref(m, nil, []*Term{x("c", 1)})
			c.require(all, "missing-table-refused", key+"/current", at, "an object of the current schema whose table is missing is not refused")
		}
		// an index of the table's definition and a statement of the same name
		ix := p.textBuilder("i", 5, map[string]*Term{"x.name": name}, map[string]int{"x.columns": 1, "x.included": 1, "x.options": 1}).val("x", p.schemaType("Index"))
		f := cols(p.plainColumn("k.name", 0))
		f["indexes"] = items(ix)
		_, all := ref(m, []*Term{p.createTable("t", m, f), p.kindItem("CreateIndex", "d", 1, m, name)}, nil)
		c.require(all, "twice-refused", mn+"/index of the table and CreateIndex", at, "two indexes of the same name are not refused")
		_, all = ref(m, []*Term{p.createTable("t", m, f), p.kindItem("CreateIndex", "d", 1, m, name)}, []*Term{table("c")})
		c.require(all, "twice-refused", mn+"/index of the existing table and CreateIndex", at, "two indexes of the same name are not refused where the table exists")
		// a kind nobody knows
		u := mkIface(mkSym("$u", types.NewPointer(p.schemaType("Table"))), types.NewPointer(p.schemaType("Table")))
		_, all = ref(m, []*Term{u}, nil)
		c.require(all, "unknown-refused", mn+"/planned kind", at, "an object of an unknown kind is not refused")
		_, all = ref(m, nil, []*Term{u})
		c.require(all, "unknown-refused", mn+"/current kind", at, "an object of an unknown kind in the current schema is not refused")
	}
}

func shortKind(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// refusedParts: attributes of a column the planner has no words for.
func (c *Check) refusedParts() {
	p := c.p
	enum := func(path string, named string) {
		t, found := p.schemaType(named).(*types.Named)
		if !found {
			return
		}
		consts := enumConsts(p.pkg("schema").Pkg, t)
		c.floor("values of "+named, len(consts), 4)
		at := p.posStr(p.fn("schema", "GenerateIdempotentDDLs").Pos())
		for m, mn := range modeNames {
			run := func(v int64) (*planRun, *Term, BDD) {
				x := p.freeColumn("d", 1, 1, map[string]*Term{path: mkInt(v)})
				d, cur := p.tablesWith(m, cols(p.plainColumn("k.name", 0), x), cols(p.plainColumn("k.name", 0)))
				care := bNot(eqBDD(mkSym("$k.name", nil), mkSym("$x.name", nil)))
				if strings.HasPrefix(path, "x.defaultDef") {
					care = bAll(care, p.textBuilder("d", 1, nil, nil).has("x.defaultDef"), p.textBuilder("d", 1, nil, nil).has("x.defaultDef.value"))
				}
				r := p.planForCare(m, d, cur, true, care)
				return r, r.list, care
			}
			max := int64(0)
			none := (*Term)(nil)
			for _, v := range consts {
				if v > max {
					max = v
				}
			}
			r, l, care := run(0)
			none = restrictTerm(l, bAnd(care, isNilBDD(r.err)))
			for _, n := range sortedKeys(consts) {
				v := consts[n]
				r, l, care := run(v)
				if v == 0 || refused(r.err, True, care) {
					continue
				}
				c.require(restrictTerm(l, bAnd(care, isNilBDD(r.err))) != none, "value-written-or-refused", mn+"/"+n, at, "the plan is the same as without this attribute, and it is not refused")
			}
			r, _, care = run(max + 1)
			c.require(refused(r.err, True, care), "unknown-refused", mn+"/"+named, at, "a value of "+named+" that is not known is not refused")
		}
	}
	enum("x.keyOption", "ColumnKeyOption")
	enum("x.defaultDef.value.valueType", "ValueType")
}
