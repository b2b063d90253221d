package main

import (
	"fmt"
	"go/types"
)

// ---- the other kinds of objects

// someColumns: two unchanged columns of the enclosing table.
func someColumns(p *Program) *Term {
	t := p.schemaType("Column")
	mkc := func(n string, pos int64) *Term {
		return structOf(t, map[string]*Term{"name": mkStrC(n), "typeName": mkStrC("bigint"), "position": mkInt(pos)})
	}
	return items(mkc("id", 0), mkc("val", 1))
}

// effective direction of an index column.
func effDir(b *builder, path string) *Term {
	d := b.get(path)
	return mkIte(strSet(d, ""), mkStrC("asc"), d)
}

// indexCare: what is assumed of an index that is not the primary key.
func indexCare(kb, d, c *builder) BDD {
	care := bNot(eqBDD(kb.get("k.name"), mkSym("$x.name", nil)))
	for _, b := range []*builder{d, c} {
		care = bAnd(care, bNot(toBDD(b.get("x.primary"))))
	}
	return bAll(care, bNot(toBDD(kb.get("k.primary"))))
}

func indexSetup(x *pair) {
	x.both("x.name", mkSym("$x.name", nil))
	for _, q := range []string{"x.columns", "x.included", "x.options"} {
		if _, ok := x.d.lens[q]; !ok {
			x.len(q, 2)
		}
	}
}

func kIndex(p *Program, x *pair) (*builder, *Term) {
	kb := p.kBuilder()
	kb.lens["k.columns"], kb.lens["k.included"], kb.lens["k.options"] = 1, 1, 1
	return kb, kb.val("k", p.schemaType("Index"))
}

func distinctOptions(x *pair) BDD {
	return bAnd(bNot(eqBDD(x.d.get("x.options[0].optionName"), x.d.get("x.options[1].optionName"))),
		bNot(eqBDD(x.c.get("x.options[0].optionName"), x.c.get("x.options[1].optionName"))))
}

var indexAttrs = []attr{
	{name: "uniqueness", modes: "mpx", paths: []string{"x.unique"}, when: differs("x.unique")},
	{name: "first column", modes: "mpx", paths: []string{"x.columns"}, when: differs("x.columns[0].column")},
	{name: "second column", modes: "mpx", paths: []string{"x.columns"}, when: differs("x.columns[1].column")},
	{name: "added column", modes: "mpx", paths: []string{"x.columns"}, setup: func(x *pair) { x.c.lens["x.columns"], x.d.lens["x.columns"] = 1, 2 }, when: func(x *pair) BDD { return True }},
	{name: "removed column", modes: "mpx", paths: []string{"x.columns"}, setup: func(x *pair) { x.c.lens["x.columns"], x.d.lens["x.columns"] = 2, 1 }, when: func(x *pair) BDD { return True }},
	{name: "direction", modes: "mpx", paths: []string{"x.columns"}, when: func(x *pair) BDD {
		ne := func(i int) BDD {
			q := fmt.Sprintf("x.columns[%d].direction", i)
			return bNot(eqBDD(effDir(x.d, q), effDir(x.c, q)))
		}
		return bOr(ne(0), ne(1))
	}},
	{name: "column length", modes: "m", paths: []string{"x.columns"}, when: func(x *pair) BDD {
		return bAll(x.d.has("x.columns[0].length"), x.c.has("x.columns[0].length"), x.ne("x.columns[0].length"))
	}},
	{name: "condition", modes: "p", paths: []string{"x.where"}, when: differs("x.where")},
	{name: "included column", modes: "x", paths: []string{"x.included"}, when: func(x *pair) BDD { return bOr(x.ne("x.included[0]"), x.ne("x.included[1]")) }},
	{name: "added included column", modes: "x", paths: []string{"x.included"}, setup: func(x *pair) { x.c.lens["x.included"], x.d.lens["x.included"] = 1, 2 }, when: func(x *pair) BDD { return True }},
	{name: "removed included column", modes: "x", paths: []string{"x.included"}, setup: func(x *pair) { x.c.lens["x.included"], x.d.lens["x.included"] = 2, 1 }, when: func(x *pair) BDD { return True }},
	{name: "option value", modes: "mx", paths: []string{"x.options"}, setup: func(x *pair) {
		for i := 0; i < 2; i++ {
			x.both(fmt.Sprintf("x.options[%d].optionName", i), mkSym(fmt.Sprintf("$x.option%d", i), nil))
		}
	}, when: func(x *pair) BDD {
		r := distinctOptions(x)
		for i := 0; i < 2; i++ {
			q := fmt.Sprintf("x.options[%d].value", i)
			r = bAll(r, x.d.has(q), x.c.has(q), bNot(isConstBDD(x.d.get(q+".valueType"), 2)))
		}
		return bAnd(r, bOr(x.ne("x.options[0].value.raw"), x.ne("x.options[1].value.raw")))
	}},
	{name: "added option", modes: "mx", paths: []string{"x.options"}, setup: func(x *pair) {
		x.c.lens["x.options"], x.d.lens["x.options"] = 1, 2
		x.both("x.options[0].optionName", mkStrC("one"))
		x.both("x.options[1].optionName", mkStrC("two"))
	}, when: func(x *pair) BDD { return True }},
	{name: "clustering", modes: "x", paths: []string{"x.clustered"}, when: differs("x.clustered")},
	{name: "partition", modes: "x", paths: []string{"x.partition"}, when: differs("x.partition.partitionName")},
	{name: "index type", modes: "m", paths: []string{"x.indexType"}, when: differs("x.indexType")},
}

var indexQuiet = []quietCase{
	{name: "ascending left out", modes: "mpx", paths: []string{"x.columns"}, setup: func(x *pair) {
		for i := 0; i < 2; i++ {
			q := fmt.Sprintf("x.columns[%d]", i)
			x.both(q+".column", mkSym("$"+q, nil))
			x.both(q+".length", tNil)
		}
		x.ends("x.columns[0].direction", mkStrC(""), mkStrC("asc"))
		x.ends("x.columns[1].direction", mkStrC("asc"), mkStrC(""))
	}},
	{name: "options the database adds", modes: "mx", paths: []string{"x.options"}, setup: func(x *pair) {
		x.d.lens["x.options"], x.c.lens["x.options"] = 0, 2
	}},
	{name: "order of options", modes: "mx", paths: []string{"x.options"}, setup: func(x *pair) {
		t := x.p.schemaType("IndexOption")
		k := x.p.kBuilder()
		a, b := k.val("o0", t), k.val("o1", t)
		x.ends("x.options", items(a, b), items(b, a))
	}, when: func(x *pair) BDD {
		return bNot(eqBDD(mkSym("$k.o0.optionName", nil), mkSym("$k.o1.optionName", nil)))
	}},
}

// An index listed in CREATE TABLE.
var sceneTableIndex = scene{
	name: "index of a table", modes: "mpx", setup: indexSetup, quiet: indexQuiet, attrs: forModes("m", indexAttrs),
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) {
		t := p.schemaType("Index")
		kb, k := kIndex(p, x)
		df, cf := x.tables(map[string]*Term{"columns": someColumns(p)})
		df["indexes"], cf["indexes"] = items(k, x.d.val("x", t)), items(k, x.c.val("x", t))
		return []*Term{p.createTable("d", x.mode, df)}, []*Term{p.createTable("c", x.mode, cf)}, bAnd(indexCare(kb, x.d, x.c), distinctOptions(x))
	},
}

// An index made by a statement of its own.
var sceneIndex = scene{
	name: "index", modes: "mpsx", setup: indexSetup, quiet: indexQuiet, attrs: indexAttrs[:len(indexAttrs)-1],
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) { return indexStmts(p, x, "CreateIndex") },
}

var sceneAddIndex = scene{
	name: "index added to a table", modes: "m", setup: indexSetup, quiet: indexQuiet, attrs: forModes("m", indexAttrs[:len(indexAttrs)-1]),
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) { return indexStmts(p, x, "AddIndex") },
}

func indexStmts(p *Program, x *pair, kind string) ([]*Term, []*Term, BDD) {
	t := p.schemaType("Index")
	kb, k := kIndex(p, x)
	df, cf := x.tables(map[string]*Term{"columns": someColumns(p)})
	st := func(side, n string, v *Term, kind string) *Term {
		return p.stmtTerm(kind, map[string]*Term{"statement": mkSym("$"+side+".index.statement"+n, nil), "tableName": mkStrC(tableName(x.mode)), "index": v})
	}
	return []*Term{p.createTable("d", x.mode, df), st("d", "k", k, kind), st("d", "", x.d.val("x", t), kind)},
		[]*Term{p.createTable("c", x.mode, cf), st("c", "k", k, "CreateIndex"), st("c", "", x.c.val("x", t), "CreateIndex")},
		bAnd(indexCare(kb, x.d, x.c), distinctOptions(x))
}

func forModes(modes string, as []attr) []attr {
	var out []attr
	for _, a := range as {
		m := ""
		for _, r := range a.modes {
			for _, q := range modes {
				if r == q {
					m += string(r)
				}
			}
		}
		a.modes = m
		if m != "" {
			out = append(out, a)
		}
	}
	return out
}

// The primary key, as an index of the table.
var scenePrimary = scene{
	name: "primary key", modes: "mpx",
	setup: func(x *pair) {
		indexSetup(x)
		x.d.lens["x.included"], x.c.lens["x.included"] = 0, 0
		x.d.lens["x.options"], x.c.lens["x.options"] = 0, 0
		x.both("x.primary", tTrue)
		x.both("x.unique", tTrue)
		x.both("x.where", mkStrC(""))
	},
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) {
		t := p.schemaType("Index")
		df, cf := x.tables(map[string]*Term{"columns": someColumns(p)})
		if x.df["indexes"] == nil {
			df["indexes"] = items(x.d.val("x", t))
		}
		if x.cf["indexes"] == nil {
			cf["indexes"] = items(x.c.val("x", t))
		}
		return []*Term{p.createTable("d", x.mode, df)}, []*Term{p.createTable("c", x.mode, cf)}, True
	},
	attrs: append(pick(indexAttrs, "first column", "second column", "added column", "removed column"),
		attr{name: "presence (added)", modes: "mpx", setup: func(x *pair) { x.cf["indexes"] = tEmptyList }, when: func(x *pair) BDD { return True }, verbs: []string{"primary key", "ADD "}},
		attr{name: "presence (removed)", modes: "mp", setup: func(x *pair) { x.df["indexes"] = tEmptyList }, when: func(x *pair) BDD { return True }, verbs: []string{"DROP"}},
	),
	quiet: []quietCase{
		{name: "written on the column", modes: "mp", setup: func(x *pair) {
			ct := x.p.schemaType("Column")
			col := func(k int64) *Term {
				return items(structOf(ct, map[string]*Term{"name": mkStrC("id"), "typeName": mkStrC("bigint"), "keyOption": mkInt(k), "notNull": mkPtr(tTrue, types.Typ[types.Bool])}))
			}
			x.df["columns"], x.cf["columns"] = col(keyPrimary), col(0)
			x.df["indexes"] = tEmptyList
			ic := structOf(x.p.schemaType("IndexColumn"), map[string]*Term{"column": mkStrC("id")})
			x.cf["indexes"] = items(structOf(x.p.schemaType("Index"), map[string]*Term{"name": mkSym("$pk", nil), "indexType": mkStrC("primary key"), "primary": tTrue, "unique": tTrue, "columns": items(ic)}))
		}},
	},
}

func pick(as []attr, names ...string) []attr {
	var out []attr
	for _, a := range as {
		for _, n := range names {
			if a.name == n {
				out = append(out, a)
			}
		}
	}
	return out
}

var sceneForeignKey = scene{
	name: "foreign key", modes: "mpx",
	setup: func(x *pair) {
		x.both("x.constraintName", mkSym("$x.name", nil))
		x.len("x.indexColumns", 2)
		x.len("x.referenceColumns", 2)
	},
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) {
		t := p.schemaType("ForeignKey")
		kb := p.kBuilder()
		kb.lens["k.indexColumns"], kb.lens["k.referenceColumns"] = 1, 1
		k := kb.val("k", t)
		df, cf := x.tables(map[string]*Term{"columns": someColumns(p)})
		df["foreignKeys"], cf["foreignKeys"] = items(k, x.d.val("x", t)), items(k, x.c.val("x", t))
		nm := mkSym("$x.name", nil)
		return []*Term{p.createTable("d", x.mode, df)}, []*Term{p.createTable("c", x.mode, cf)},
			bAll(bNot(eqBDD(kb.get("k.constraintName"), nm)), bNot(strSet(nm, "")), bNot(strSet(kb.get("k.constraintName"), "")))
	},
	attrs: []attr{
		{name: "action on update", modes: "mpx", paths: []string{"x.onUpdate"}, when: actionDiffers("x.onUpdate")},
		{name: "action on delete", modes: "mpx", paths: []string{"x.onDelete"}, when: actionDiffers("x.onDelete")},
		{name: "not for replication", modes: "x", paths: []string{"x.notForReplication"}, when: differs("x.notForReplication")},
		{name: "column", modes: "mpx", paths: []string{"x.indexColumns"}, when: differs("x.indexColumns[0]")},
		{name: "referenced table", modes: "mpx", paths: []string{"x.referenceName"}, when: differs("x.referenceName")},
		{name: "referenced column", modes: "mpx", paths: []string{"x.referenceColumns"}, when: differs("x.referenceColumns[0]")},
	},
	quiet: []quietCase{
		{name: "no action on update", modes: "px", paths: []string{"x.onUpdate"}, setup: func(x *pair) { x.ends("x.onUpdate", mkStrC(""), mkStrC("NO ACTION")) }},
		{name: "no action on delete", modes: "px", paths: []string{"x.onDelete"}, setup: func(x *pair) { x.ends("x.onDelete", mkStrC(""), mkStrC("NO ACTION")) }},
		{name: "explicit no action on update", modes: "px", paths: []string{"x.onUpdate"}, setup: func(x *pair) { x.ends("x.onUpdate", mkStrC("NO ACTION"), mkStrC("")) }},
		{name: "explicit no action on delete", modes: "px", paths: []string{"x.onDelete"}, setup: func(x *pair) { x.ends("x.onDelete", mkStrC("NO ACTION"), mkStrC("")) }},
	},
}

func actionDiffers(path string) func(x *pair) BDD {
	return func(x *pair) BDD {
		eff := func(b *builder) *Term {
			v := b.get(path)
			if x.mode == 1 || x.mode == 3 {
				return mkIte(strSet(v, ""), mkStrC("NO ACTION"), v)
			}
			return v
		}
		return bNot(eqBDD(eff(x.d), eff(x.c)))
	}
}

func lower(t *Term) *Term {
	if r := pureFold["strings.ToLower"]([]*Term{t}); r != nil {
		return r
	}
	return mkApp("strings.ToLower", types.Typ[types.String], t)
}
func lowerDiffers(path string) func(x *pair) BDD {
	return func(x *pair) BDD { return bNot(eqBDD(lower(x.d.get(path)), lower(x.c.get(path)))) }
}

var scenePolicy = scene{
	name: "policy", modes: "p",
	setup: func(x *pair) {
		x.both("x.name", mkSym("$x.name", nil))
		if _, ok := x.d.lens["x.roles"]; !ok {
			x.len("x.roles", 1)
		}
	},
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) {
		t := p.schemaType("Policy")
		kb := p.kBuilder()
		kb.lens["k.roles"] = 1
		k := kb.val("k", t)
		df, cf := x.tables(map[string]*Term{"columns": someColumns(p)})
		st := func(side, n string, v *Term) *Term {
			return p.stmtTerm("AddPolicy", map[string]*Term{"statement": mkSym("$"+side+".policy.statement"+n, nil), "tableName": mkStrC(tableName(x.mode)), "policy": v})
		}
		return []*Term{p.createTable("d", x.mode, df), st("d", "k", k), st("d", "", x.d.val("x", t))},
			[]*Term{p.createTable("c", x.mode, cf), st("c", "k", k), st("c", "", x.c.val("x", t))},
			bNot(eqBDD(kb.get("k.name"), mkSym("$x.name", nil)))
	},
	attrs: []attr{
		{name: "scope", modes: "p", paths: []string{"x.scope"}, when: lowerDiffers("x.scope")},
		{name: "permissiveness", modes: "p", paths: []string{"x.permissive"}, when: lowerDiffers("x.permissive")},
		{name: "using", modes: "p", paths: []string{"x.using"}, when: func(x *pair) BDD {
			par := mkStr(mkStrC("("), x.c.get("x.using"), mkStrC(")"))
			return bAnd(lowerDiffers("x.using")(x), bNot(eqBDD(par, x.d.get("x.using"))))
		}},
		{name: "with check", modes: "p", paths: []string{"x.withCheck"}, when: func(x *pair) BDD {
			par := mkStr(mkStrC("("), x.c.get("x.withCheck"), mkStrC(")"))
			return bAnd(lowerDiffers("x.withCheck")(x), bNot(eqBDD(par, x.d.get("x.withCheck"))))
		}},
		{name: "role", modes: "p", paths: []string{"x.roles"}, when: lowerDiffers("x.roles[0]")},
		{name: "added role", modes: "p", paths: []string{"x.roles"}, setup: func(x *pair) { x.c.lens["x.roles"], x.d.lens["x.roles"] = 1, 2 }, when: func(x *pair) BDD { return True }},
		{name: "removed role", modes: "p", paths: []string{"x.roles"}, setup: func(x *pair) { x.c.lens["x.roles"], x.d.lens["x.roles"] = 2, 1 }, when: func(x *pair) BDD { return True }},
		{name: "later attributes when using is only parenthesised", modes: "p", paths: []string{"x.using", "x.withCheck"}, setup: func(x *pair) {
			u := mkSym("$u", nil)
			x.ends("x.using", mkStr(mkStrC("("), u, mkStrC(")")), u)
		}, when: func(x *pair) BDD {
			par := mkStr(mkStrC("("), x.c.get("x.withCheck"), mkStrC(")"))
			return bAnd(lowerDiffers("x.withCheck")(x), bNot(eqBDD(par, x.d.get("x.withCheck"))))
		}},
	},
	quiet: []quietCase{
		{name: "letter case", modes: "p", setup: func(x *pair) {
			x.ends("x.permissive", mkStrC("permissive"), mkStrC("PERMISSIVE"))
			x.ends("x.scope", mkStrC("all"), mkStrC("ALL"))
			x.ends("x.using", mkStrC("a = 1"), mkStrC("A = 1"))
			x.ends("x.withCheck", mkStrC("a = 1"), mkStrC("A = 1"))
			x.ends("x.roles[0]", mkStrC("public"), mkStrC("PUBLIC"))
		}},
		{name: "parentheses", modes: "p", setup: func(x *pair) {
			u := mkSym("$u", nil)
			x.ends("x.using", mkStr(mkStrC("("), u, mkStrC(")")), u)
		}},
	},
}

var sceneView = scene{
	name: "view", modes: "mpsx",
	setup: func(x *pair) { x.both("x.name", mkSym("$x.name", nil)) },
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) {
		st := func(b *builder, n string) *Term {
			return p.stmtTerm("View", map[string]*Term{"statement": mkSym("$"+n+".statement", nil), "name": b.get(n + ".name"), "definition": b.get(n + ".definition")})
		}
		kb := p.kBuilder()
		return []*Term{st(kb, "k"), st(x.d, "x")}, []*Term{st(kb, "k"), st(x.c, "x")},
			bNot(eqBDD(kb.get("k.name"), mkSym("$x.name", nil)))
	},
	attrs: []attr{{name: "definition", modes: "mpsx", paths: []string{"x.definition"}, when: lowerDiffers("x.definition")}},
	quiet: []quietCase{{name: "letter case", modes: "mpsx", setup: func(x *pair) {
		x.ends("x.definition", mkStrC("select a from t"), mkStrC("SELECT A FROM t"))
	}}},
}

var sceneTrigger = scene{
	name: "trigger", modes: "mpsx",
	setup: func(x *pair) {
		x.both("x.name", mkSym("$x.name", nil))
		if _, ok := x.d.lens["x.body"]; !ok {
			x.len("x.body", 2)
		}
	},
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) {
		t := p.schemaType("Trigger")
		pt := types.NewPointer(t)
		wrap := func(v *Term) *Term { return mkIface(mkApp("&", pt, v), pt) }
		kb := p.kBuilder()
		kb.lens["k.body"] = 1
		k := kb.val("k", t)
		return []*Term{wrap(k), wrap(x.d.val("x", t))}, []*Term{wrap(k), wrap(x.c.val("x", t))},
			bNot(eqBDD(kb.get("k.name"), mkSym("$x.name", nil)))
	},
	attrs: []attr{
		{name: "time", modes: "mx", paths: []string{"x.time"}, when: differs("x.time")},
		{name: "event", modes: "mx", paths: []string{"x.event"}, when: differs("x.event")},
		{name: "table", modes: "mx", paths: []string{"x.tableName"}, when: differs("x.tableName")},
		{name: "body", modes: "mx", paths: []string{"x.body"}, setup: func(x *pair) {
			x.ends("x.body[0]", mkStrC("insert a"), mkStrC("insert b"))
			x.both("x.body[1]", mkStrC("x"))
		}, when: func(x *pair) BDD { return True }},
		{name: "last statement", modes: "mx", paths: []string{"x.body"}, setup: func(x *pair) {
			x.ends("x.body[1]", mkStrC("insert a"), mkStrC("insert b"))
			x.both("x.body[0]", mkStrC("x"))
		}, when: func(x *pair) BDD { return True }},
		{name: "added statement", modes: "mx", paths: []string{"x.body"}, setup: func(x *pair) { x.c.lens["x.body"], x.d.lens["x.body"] = 1, 2 }, when: func(x *pair) BDD { return True }},
		{name: "removed statement", modes: "mx", paths: []string{"x.body"}, setup: func(x *pair) { x.c.lens["x.body"], x.d.lens["x.body"] = 2, 1 }, when: func(x *pair) BDD { return True }},
	},
	quiet: []quietCase{{name: "blanks and letter case", modes: "mx", setup: func(x *pair) {
		x.ends("x.body[0]", mkStrC("insert into a values (1, 2)"), mkStrC("INSERT INTO a values(1,2)"))
	}}},
}

// The order of columns (MySQL).
var sceneOrder = scene{
	name: "column order", modes: "m",
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) {
		t := p.schemaType("Column")
		col := func(n string, pos int64) *Term {
			b := p.kBuilder()
			b.set[n+".position"] = mkInt(pos)
			b.set[n+".keyOption"] = mkInt(0)
			return b.val(n, t)
		}
		order := func(s string) *Term {
			var l []*Term
			for i, r := range s {
				l = append(l, col(string(r), int64(i)))
			}
			return items(l...)
		}
		d, c := x.d.get("order").str, x.c.get("order").str
		care := True
		for _, q := range [][2]string{{"a", "b"}, {"a", "c"}, {"b", "c"}} {
			care = bAnd(care, bNot(eqBDD(mkSym("$k."+q[0]+".name", nil), mkSym("$k."+q[1]+".name", nil))))
		}
		return []*Term{p.createTable("d", x.mode, map[string]*Term{"columns": order(d)})}, []*Term{p.createTable("c", x.mode, map[string]*Term{"columns": order(c)})}, care
	},
	setup: func(x *pair) { x.both("order", mkSym("abc", nil)) },
	attrs: []attr{orderCase("ab", "ba"), orderCase("acb", "abc"), orderCase("bac", "abc"), orderCase("cab", "abc"), orderCase("bca", "abc"), orderCase("cba", "abc")},
}

func orderCase(d, c string) attr {
	return attr{name: d + " for " + c, modes: "m", setup: func(x *pair) { x.ends("order", mkSym(d, nil), mkSym(c, nil)) }, when: func(x *pair) BDD { return True }, verbs: []string{"CHANGE COLUMN"}}
}
