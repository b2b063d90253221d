package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- C12: a statement is planned exactly where desired and current differ
//
// The planner is summarised for a pair of objects whose attributes are free.
// Two kinds of obligation are decided on the guards of the statements in the
// resulting plan: no guard is satisfiable when the attributes are the same
// (or differ only in a documented spelling), and whenever one attribute
// differs some statement is planned - also when other attributes differ too.

// attr is an attribute the tool manages: the paths it is made of, and when it
// counts as different.
type attr struct {
	name  string
	modes string // one of "mpsx" per dialect: m mysql, p postgres, s sqlite3, x mssql
	paths []string
	when  func(x *pair) BDD
	setup func(x *pair)
	verbs []string // statements that may carry the change when others differ as well; empty: any
}

const modeLetters = "mpsx"

// scene is a kind of object in its context.
type scene struct {
	name  string
	modes string
	// build gives the two statement lists and what is assumed of them.
	build func(p *Program, x *pair) (desired, current []*Term, care BDD)
	setup func(x *pair)
	attrs []attr
	quiet []quietCase
}

// quietCase is a difference in spelling only.
type quietCase struct {
	name  string
	modes string
	paths []string
	setup func(x *pair)
	when  func(x *pair) BDD
}

func tableName(mode int) string {
	if mode == 1 {
		return "public.tbl"
	}
	return "tbl"
}

func (p *Program) tableTerm(mode int, fields map[string]*Term) *Term {
	fs := map[string]*Term{"name": mkStrC(tableName(mode))}
	for k, v := range fields {
		fs[k] = v
	}
	return structOf(p.schemaType("Table"), fs)
}

func (p *Program) createTable(side string, mode int, fields map[string]*Term) *Term {
	return p.stmtTerm("CreateTable", map[string]*Term{
		"statement": mkSym("$"+side+".statement", nil),
		"table":     p.tableTerm(mode, fields),
	})
}

func (p *Program) kBuilder() *builder {
	return &builder{p: p, side: sideName("k"), tag: 9, set: map[string]*Term{}, lens: map[string]int{}}
}

func isConstBDD(t *Term, vs ...int64) BDD {
	r := False
	for _, v := range vs {
		r = bOr(r, eqBDD(t, mkInt(v)))
	}
	return r
}

// strSet: the term is one of the words.
func strSet(t *Term, ws ...string) BDD {
	r := False
	for _, w := range ws {
		r = bOr(r, eqBDD(t, mkStrC(w)))
	}
	return r
}

var typeWords = []string{"bool", "boolean", "tinyint", "int", "integer", "char", "character", "varchar", "character varying", "serial", "bigserial", "enum"}

const keyPrimary, keyUnique, keyUniqueKey = 1, 3, 4

// flag is the value of an optional boolean: present and true.
func flagOf(b *builder, path string) BDD {
	return bAnd(b.has(path), toBDD(b.get(path)))
}

func hasDefault(b *builder, path string) BDD {
	return bAll(b.has(path), b.has(path+".value"),
		bNot(bAnd(isConstBDD(b.get(path+".value.valueType"), 5), strSet(b.get(path+".value.raw"), "null"))))
}

func differs(path string) func(x *pair) BDD { return func(x *pair) BDD { return x.ne(path) } }

// optDiffers: one side lacks the optional part, or both have it and its
// content differs.
func optDiffers(path string, parts ...string) func(x *pair) BDD {
	return func(x *pair) BDD {
		d, c := x.d.has(path), x.c.has(path)
		in := False
		for _, q := range parts {
			in = bOr(in, x.ne(path+"."+q))
		}
		return bOr(bXor(d, c), bAll(d, c, in))
	}
}

func bXor(a, b BDD) BDD { return bNot(bIff(a, b)) }

var sceneColumn = scene{
	name: "column", modes: "mpx",
	build: func(p *Program, x *pair) ([]*Term, []*Term, BDD) {
		t := p.schemaType("Column")
		nm := mkSym("$x.name", nil)
		x.both("x.name", nm)
		if x.d.set["x.position"] == nil {
			x.both("x.position", mkInt(1))
		}
		kb := p.kBuilder()
		kb.set["k.position"] = mkInt(0)
		for q, v := range x.k {
			kb.set[q] = v
		}
		k := kb.val("k", t)
		df, cf := x.tables(nil)
		df["columns"], cf["columns"] = items(k, x.d.val("x", t)), items(k, x.c.val("x", t))
		d, c := p.createTable("d", x.mode, df), p.createTable("c", x.mode, cf)
		care := bNot(eqBDD(kb.get("k.name"), nm))
		// a primary key column of the database is not nullable
		for _, b := range []*builder{kb, x.c} {
			r := "x"
			if b == kb {
				r = "k"
			}
			care = bAnd(care, bOr(bNot(isConstBDD(b.get(r+".keyOption"), keyPrimary)), flagOf(b, r+".notNull")))
		}
		// whether a column is the primary key is not what is compared here
		if x.mode != 0 {
			care = bAnd(care, bIff(isConstBDD(x.d.get("x.keyOption"), keyPrimary), isConstBDD(x.c.get("x.keyOption"), keyPrimary)))
		}
		return []*Term{d}, []*Term{c}, care
	},
	attrs: []attr{
		{name: "type", modes: "mp", paths: []string{"x.typeName"}, when: func(x *pair) BDD {
			return bAll(x.ne("x.typeName"), bNot(strSet(x.d.get("x.typeName"), typeWords...)), bNot(strSet(x.c.get("x.typeName"), typeWords...)))
		}, verbs: []string{"CHANGE COLUMN", "TYPE"}},
		{name: "enum value", modes: "mp", paths: []string{"x.enumValues"}, setup: func(x *pair) { x.len("x.enumValues", 2) },
			when: func(x *pair) BDD { return bOr(x.ne("x.enumValues[0]"), x.ne("x.enumValues[1]")) }, verbs: []string{"CHANGE COLUMN", "TYPE"}},
		{name: "added enum value", modes: "mp", paths: []string{"x.enumValues"}, setup: func(x *pair) { x.d.lens["x.enumValues"], x.c.lens["x.enumValues"] = 2, 1 },
			when: func(x *pair) BDD { return True }, verbs: []string{"CHANGE COLUMN", "TYPE"}},
		{name: "removed enum value", modes: "mp", paths: []string{"x.enumValues"}, setup: func(x *pair) { x.d.lens["x.enumValues"], x.c.lens["x.enumValues"] = 1, 2 },
			when: func(x *pair) BDD { return True }, verbs: []string{"CHANGE COLUMN", "TYPE"}},
		{name: "length", modes: "mp", paths: []string{"x.length"}, when: func(x *pair) BDD {
			return bAll(x.d.has("x.length"), x.c.has("x.length"), x.ne("x.length.intVal"), x.ne("x.length.raw"))
		}, verbs: []string{"CHANGE COLUMN", "TYPE"}},
		{name: "scale", modes: "mp", paths: []string{"x.scale"}, when: func(x *pair) BDD {
			return bAll(x.d.has("x.scale"), x.c.has("x.scale"), x.ne("x.scale.intVal"), x.ne("x.scale.raw"))
		}, verbs: []string{"CHANGE COLUMN", "TYPE"}},
		{name: "array", modes: "p", paths: []string{"x.array"}, when: differs("x.array"), verbs: []string{"TYPE"}},
		{name: "unsigned", modes: "m", paths: []string{"x.unsigned"}, when: differs("x.unsigned"), verbs: []string{"CHANGE COLUMN"}},
		{name: "timezone", modes: "mp", paths: []string{"x.timezone"}, when: differs("x.timezone"), verbs: []string{"CHANGE COLUMN", "TYPE"}},
		{name: "not null", modes: "mp", paths: []string{"x.notNull"}, when: func(x *pair) BDD {
			d, c := flagOf(x.d, "x.notNull"), flagOf(x.c, "x.notNull")
			if x.mode == 1 {
				ser := func(b *builder) BDD {
					return bAnd(bNot(b.has("x.notNull")), strSet(b.get("x.typeName"), "serial", "bigserial"))
				}
				d, c = bOr(d, ser(x.d)), bOr(c, ser(x.c))
			}
			pk := bOr(isConstBDD(x.d.get("x.keyOption"), keyPrimary), isConstBDD(x.c.get("x.keyOption"), keyPrimary))
			return bAnd(bXor(d, c), bNot(pk))
		}, verbs: []string{"CHANGE COLUMN", "NOT NULL"}},
		{name: "not null of a member of a unique index", modes: "p", paths: []string{"x.notNull"}, setup: func(x *pair) {
			bothIndexed(x, "$ux", false, mkSym("$x.name", nil))
			x.both("x.keyOption", mkInt(0))
			x.both("x.typeName", mkStrC("bigint"))
		}, when: func(x *pair) BDD { return bXor(flagOf(x.d, "x.notNull"), flagOf(x.c, "x.notNull")) }, verbs: []string{"NOT NULL"}},
		{name: "not null beside the primary key", modes: "p", paths: []string{"x.notNull"}, setup: func(x *pair) {
			x.k["k.name"] = mkSym("$k.name", nil)
			x.k["k.notNull"] = mkPtr(tTrue, types.Typ[types.Bool])
			bothIndexed(x, "$pk", true, mkSym("$k.name", nil))
			x.both("x.keyOption", mkInt(0))
			x.both("x.typeName", mkStrC("bigint"))
		}, when: func(x *pair) BDD { return bXor(flagOf(x.d, "x.notNull"), flagOf(x.c, "x.notNull")) }, verbs: []string{"NOT NULL"}},
		{name: "check", modes: "mpx", paths: []string{"x.check"}, when: optDiffers("x.check", "definition", "notForReplication"), verbs: []string{"CHANGE COLUMN", "CONSTRAINT"}},
		{name: "check no inherit", modes: "p", paths: []string{"x.checkNoInherit"}, when: func(x *pair) BDD {
			return bAll(x.ne("x.checkNoInherit"), x.d.has("x.check"), x.c.has("x.check"))
		}, verbs: []string{"CONSTRAINT"}},
		{name: "character set", modes: "m", paths: []string{"x.charset"}, when: func(x *pair) BDD {
			return bAnd(x.ne("x.charset"), bNot(strSet(x.d.get("x.charset"), "")))
		}, verbs: []string{"CHANGE COLUMN"}},
		{name: "collation", modes: "m", paths: []string{"x.collate"}, when: func(x *pair) BDD {
			return bAnd(x.ne("x.collate"), bNot(strSet(x.d.get("x.collate"), "")))
		}, verbs: []string{"CHANGE COLUMN"}},
		{name: "on update", modes: "m", paths: []string{"x.onUpdate"}, when: optDiffers("x.onUpdate", "raw"), verbs: []string{"CHANGE COLUMN"}},
		{name: "default", modes: "mpx", paths: []string{"x.defaultDef"}, when: func(x *pair) BDD {
			d, c := hasDefault(x.d, "x.defaultDef"), hasDefault(x.c, "x.defaultDef")
			fl := isConstBDD(x.d.get("x.defaultDef.value.valueType"), 2)
			return bOr(bXor(d, c), bAll(d, c, x.ne("x.defaultDef.value.raw"), bNot(fl)))
		}, verbs: []string{"CHANGE COLUMN", "DEFAULT", "CONSTRAINT"}},
		{name: "default number", modes: "mpx", paths: []string{"x.defaultDef"}, setup: func(x *pair) {
			x.ends("x.defaultDef.value.raw", mkStrC("2.5"), mkStrC("1.5"))
			x.both("x.defaultDef.value.valueType", mkInt(2))
		}, when: func(x *pair) BDD {
			return bAll(x.d.has("x.defaultDef"), x.c.has("x.defaultDef"), x.d.has("x.defaultDef.value"), x.c.has("x.defaultDef.value"))
		}, verbs: []string{"CHANGE COLUMN", "DEFAULT", "CONSTRAINT"}},
		{name: "default digits", modes: "mpx", paths: []string{"x.defaultDef"}, setup: func(x *pair) {
			x.ends("x.defaultDef.value.raw", mkStrC("0.5"), mkStrC("0.55"))
			x.both("x.defaultDef.value.valueType", mkInt(2))
		}, when: func(x *pair) BDD {
			return bAll(x.d.has("x.defaultDef"), x.c.has("x.defaultDef"), x.d.has("x.defaultDef.value"), x.c.has("x.defaultDef.value"))
		}, verbs: []string{"CHANGE COLUMN", "DEFAULT", "CONSTRAINT"}},
		{name: "unique", modes: "m", paths: []string{"x.keyOption"}, when: func(x *pair) BDD {
			return bAnd(isConstBDD(x.d.get("x.keyOption"), keyUnique, keyUniqueKey), isConstBDD(x.c.get("x.keyOption"), 0))
		}, verbs: []string{"ADD UNIQUE"}},
		{name: "auto increment", modes: "m", paths: []string{"x.autoIncrement"}, when: differs("x.autoIncrement"), verbs: []string{"CHANGE COLUMN"}},
		{name: "identity", modes: "px", paths: []string{"x.identity"}, when: optDiffers("x.identity", "behavior", "notForReplication"), verbs: []string{"IDENTITY", "GENERATED", "DROP COLUMN", "ADD "}},
	},
	quiet: []quietCase{
		{name: "default null", modes: "mpx", paths: []string{"x.defaultDef"}, when: func(x *pair) BDD {
			return bAnd(bNot(hasDefault(x.d, "x.defaultDef")), bNot(hasDefault(x.c, "x.defaultDef")))
		}},
		{name: "length left out", modes: "mp", paths: []string{"x.length"}, when: func(x *pair) BDD {
			return bOr(bNot(x.d.has("x.length")), bNot(x.c.has("x.length")))
		}},
		{name: "character set left out", modes: "m", paths: []string{"x.charset"}, when: func(x *pair) BDD { return strSet(x.d.get("x.charset"), "") }},
		{name: "collation left out", modes: "m", paths: []string{"x.collate"}, when: func(x *pair) BDD { return strSet(x.d.get("x.collate"), "") }},
		{name: "nullability left out", modes: "mp", paths: []string{"x.notNull"}, when: func(x *pair) BDD {
			return bAnd(bNot(flagOf(x.d, "x.notNull")), bNot(flagOf(x.c, "x.notNull")))
		}, setup: func(x *pair) { x.both("x.typeName", mkStrC("bigint")); x.both("x.keyOption", mkInt(0)) }},
		{name: "primary key implies not null", modes: "m", paths: []string{"x.notNull", "x.keyOption"}, setup: func(x *pair) {
			x.ends("x.keyOption", mkInt(keyPrimary), mkInt(0))
			x.k["k.keyOption"] = mkInt(0)
			it := x.p.schemaType("Index")
			ic := structOf(x.p.schemaType("IndexColumn"), map[string]*Term{"column": mkSym("$x.name", nil)})
			x.cf["indexes"] = items(structOf(it, map[string]*Term{"name": mkStrC("PRIMARY"), "indexType": mkStrC("primary key"), "primary": tTrue, "unique": tTrue, "columns": items(ic)}))
		}, when: func(x *pair) BDD { return flagOf(x.c, "x.notNull") }},
		{name: "nullability of the primary key", modes: "mp", paths: []string{"x.notNull"}, setup: func(x *pair) {
			bothIndexed(x, "PRIMARY", true, mkSym("$x.name", nil))
			x.both("x.keyOption", mkInt(0))
		}, when: func(x *pair) BDD { return flagOf(x.c, "x.notNull") }},
		{name: "nullability of a member of the primary key", modes: "mp", paths: []string{"x.notNull"}, setup: func(x *pair) {
			x.k["k.name"] = mkSym("$k.name", nil)
			x.k["k.notNull"] = mkPtr(tTrue, types.Typ[types.Bool])
			bothIndexed(x, "PRIMARY", true, mkSym("$k.name", nil), mkSym("$x.name", nil))
			x.both("x.keyOption", mkInt(0))
		}, when: func(x *pair) BDD { return flagOf(x.c, "x.notNull") }},
		{name: "nullability of a primary key column", modes: "mp", paths: []string{"x.notNull"}, setup: func(x *pair) {
			x.both("x.keyOption", mkInt(keyPrimary))
			x.k["k.keyOption"] = mkInt(0)
		}, when: func(x *pair) BDD { return flagOf(x.c, "x.notNull") }},
		{name: "trailing zeros of a default", modes: "mpx", paths: []string{"x.defaultDef"}, setup: func(x *pair) {
			x.ends("x.defaultDef.value.raw", mkStrC("0.0"), mkStrC("0.00"))
			x.both("x.defaultDef.value.valueType", mkInt(2))
		}, when: func(x *pair) BDD {
			return bAll(x.d.has("x.defaultDef"), x.c.has("x.defaultDef"), x.d.has("x.defaultDef.value"), x.c.has("x.defaultDef.value"))
		}},
	},
}

// bothIndexed gives the tables of both sides an index over the columns.
func bothIndexed(x *pair, name string, primary bool, cols ...*Term) {
	var ics []*Term
	for _, col := range cols {
		ics = append(ics, structOf(x.p.schemaType("IndexColumn"), map[string]*Term{"column": col}))
	}
	kind, pk := "unique key", tFalse
	if primary {
		kind, pk = "primary key", tTrue
	}
	ix := structOf(x.p.schemaType("Index"), map[string]*Term{"name": mkStrC(name), "indexType": mkStrC(kind), "primary": pk, "unique": tTrue, "columns": items(ics...)})
	x.df["indexes"], x.cf["indexes"] = items(ix), items(ix)
}

var typePairs = []struct {
	modes string
	d, c  string
}{
	{"mp", "int", "integer"}, {"mp", "integer", "int"}, {"mp", "bool", "boolean"}, {"mp", "boolean", "bool"},
	{"mp", "char", "character"}, {"mp", "varchar", "character varying"}, {"p", "character varying", "varchar"},
	{"m", "boolean", "tinyint"}, {"m", "bool", "tinyint"}, {"m", "tinyint", "tinyint"}, {"mp", "bigint", "bigint"},
}

var typeClashes = []struct {
	modes string
	d, c  string
}{
	{"mp", "int", "bigint"}, {"mp", "bigint", "int"}, {"mp", "integer", "bigint"}, {"mp", "bool", "int"}, {"mp", "char", "varchar"},
	{"mp", "varchar", "text"}, {"p", "boolean", "tinyint"}, {"mp", "character", "varchar"}, {"mp", "smallint", "int"}, {"m", "boolean", "int"},
}

func init() {
	for _, q := range typePairs {
		q := q
		sceneColumn.quiet = append(sceneColumn.quiet, quietCase{name: "type " + q.d + " for " + q.c, modes: q.modes, paths: []string{"x.typeName"},
			setup: func(x *pair) { x.ends("x.typeName", mkStrC(q.d), mkStrC(q.c)) }})
	}
	for _, q := range typeClashes {
		q := q
		sceneColumn.attrs = append(sceneColumn.attrs, attr{name: "type " + q.d + " for " + q.c, modes: q.modes, paths: []string{"x.typeName"},
			setup: func(x *pair) { x.ends("x.typeName", mkStrC(q.d), mkStrC(q.c)) },
			when:  func(x *pair) BDD { return True }, verbs: []string{"CHANGE COLUMN", "TYPE"}})
	}
	checks0["C12"] = checkC12
}

var scenes = []*scene{&sceneColumn, &sceneTableIndex, &sceneIndex, &sceneAddIndex, &scenePrimary, &sceneForeignKey, &scenePolicy, &sceneView, &sceneTrigger, &sceneOrder}

func hasMode(modes string, m int) bool { return strings.IndexByte(modes, modeLetters[m]) >= 0 }

// verbOf is the constant text of a statement outside its names.
func verbOf(t *Term) string {
	var sb strings.Builder
	var rec func(t *Term)
	rec = func(t *Term) {
		if s, ok := t.strConst(); ok {
			sb.WriteString(s)
			return
		}
		switch t.op {
		case OStr:
			for _, a := range t.args {
				rec(a)
			}
		case OApp:
			if t.str == "strings.TrimSuffix" || t.str == "strings.TrimSpace" || t.str == "strings.TrimRight" {
				rec(t.args[0])
				return
			}
			sb.WriteString("?")
		case OIte:
			sb.WriteString("⟨")
			rec(t.args[0])
			sb.WriteString("¦")
			rec(t.args[1])
			sb.WriteString("⟩")
		default:
			sb.WriteString("?")
		}
	}
	rec(t)
	return sb.String()
}

func checkC12(c *Check) {
	p := c.p
	var list []*scene
	for _, s := range scenes {
		list = append(list, s)
	}
	plans := 0
	run := func(s *scene, m int, x *pair, when func(x *pair) BDD, setups ...func(x *pair)) (*planRun, BDD) {
		if s.setup != nil {
			s.setup(x)
		}
		for _, f := range setups {
			if f != nil {
				f(x)
			}
		}
		d, cu, care := s.build(p, x)
		if when != nil {
			care = bAnd(care, when(x))
		}
		plans++
		return p.planForCare(m, d, cu, false, care), care
	}
	show := func(r *planRun, care BDD) string {
		var o []string
		for _, e := range r.em {
			g := bAnd(care, e.g)
			if unsat(g) {
				continue
			}
			o = append(o, short(verbOf(e.item), 90)+" when "+short(ppb(bSimplify(e.g, care), 3), 200))
		}
		return strings.Join(o, " ; ")
	}
	silent := func(r *planRun, care BDD) bool {
		for _, e := range r.em {
			if !unsat(bAnd(care, e.g)) {
				return false
			}
		}
		return true
	}
	total := 0
	for _, s := range list {
		for m := range modeNames {
			if !hasMode(s.modes, m) {
				continue
			}
			where := modeNames[m] + "/" + s.name
			// the same on both sides
			x := newPair(p, m, true)
			r, care := run(s, m, x, nil)
			if unsat(care) {
				c.require(false, "scene-possible", where, "", "the assumptions of the scene contradict each other")
			}
			c.require(silent(r, care), "quiet-when-equal", where, "schema", "statements planned although desired and current "+s.name+" are the same: "+show(r, care))
			for _, q := range s.quiet {
				if !hasMode(q.modes, m) {
					continue
				}
				x := newPair(p, m, true, q.paths...)
				r, care := run(s, m, x, q.when, q.setup)
				if unsat(care) {
					c.require(false, "scene-possible", where+"/"+q.name, "", "the assumptions of the case contradict each other")
				}
				c.require(silent(r, care), "quiet-when-equivalent", where+"/"+q.name, "schema", "statements planned although "+s.name+" differs only in spelling ("+q.name+"): "+show(r, care))
			}
			for _, a := range s.attrs {
				if !hasMode(a.modes, m) {
					continue
				}
				total++
				x := newPair(p, m, true, a.paths...)
				r, care := run(s, m, x, a.when, a.setup)
				if unsat(care) {
					c.require(false, "scene-possible", where+"/"+a.name, "", "the assumptions of the case contradict each other")
				}
				any := False
				for _, e := range r.em {
					any = bOr(any, e.g)
				}
				ok := implies(care, any)
				det := ""
				if !ok {
					det = fmt.Sprintf("no statement is planned although the %s of a %s differs; unplanned when %s", a.name, s.name, short(ppb(bSimplify(bNot(any), care), 3), 300))
				}
				if !c.require(ok, "planned-when-different", where+"/"+a.name, "schema", det) {
					continue
				}
				// the same with every other attribute free
				x = newPair(p, m, false)
				r, care = run(s, m, x, a.when, a.setup)
				any = False
				for _, e := range r.em {
					v := verbOf(e.item)
					hit := len(a.verbs) == 0
					for _, w := range a.verbs {
						if strings.Contains(v, w) {
							hit = true
						}
					}
					if hit {
						any = bOr(any, e.g)
					}
				}
				ok = implies(care, any)
				det = ""
				if !ok {
					det = fmt.Sprintf("a changed %s of a %s is not acted upon when other attributes differ as well; unplanned when %s", a.name, s.name, short(ppb(bSimplify(bNot(any), care), 3), 300))
				}
				c.require(ok, "planned-among-others", where+"/"+a.name, "schema", det)
			}
		}
	}
	c.stats["plans"] = plans
	c.floor("managed attributes", total, 20)
}
