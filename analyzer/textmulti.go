package main

import "go/types"

// ---- several objects at once: order, and what stays

func (p *Program) indexOf(name, column string, unique, primary bool) *Term {
	b := func(v bool) *Term {
		if v {
			return tTrue
		}
		return tFalse
	}
	return structOf(p.schemaType("Index"), map[string]*Term{"name": mkSym("$"+name, nil), "indexType": mkStrC("INDEX"), "unique": b(unique), "primary": b(primary), "columns": p.keyColumns(column)})
}

func (p *Program) keyColumns(names ...string) *Term {
	var ts []*Term
	for _, n := range names {
		ts = append(ts, structOf(p.schemaType("IndexColumn"), map[string]*Term{"column": mkSym("$"+n, nil)}))
	}
	return items(ts...)
}

func (p *Program) primaryOf(name *Term, columns ...string) *Term {
	return structOf(p.schemaType("Index"), map[string]*Term{"name": name, "indexType": mkStrC("PRIMARY KEY"), "unique": tTrue, "primary": tTrue, "columns": p.keyColumns(columns...)})
}

func (p *Program) foreignOf(name, column string, set map[string]*Term) *Term {
	m := map[string]*Term{"constraintName": mkSym("$"+name, nil), "indexColumns": items(mkSym("$"+column, nil)), "referenceName": mkSym("$r.name", nil), "referenceColumns": items(mkSym("$r.column", nil))}
	for k, v := range set {
		m[k] = v
	}
	return structOf(p.schemaType("ForeignKey"), m)
}

func (p *Program) columnWith(name string, pos int64, set map[string]*Term) *Term {
	m := map[string]*Term{"name": mkSym("$"+name, nil), "typeName": mkStrC("bigint"), "position": mkInt(pos)}
	for k, v := range set {
		m[k] = v
	}
	return structOf(p.schemaType("Column"), m)
}

func addFK(m int, fk, column string) string {
	return alter(m, "ADD CONSTRAINT "+Q(m, fk)+" FOREIGN KEY ("+Q(m, column)+") REFERENCES "+Q(m, "r.name")+" ("+Q(m, "r.column")+")")
}
func dropFK(m int, fk string) string {
	if m == 0 {
		return alter(m, "DROP FOREIGN KEY "+Q(m, fk))
	}
	return alter(m, "DROP CONSTRAINT "+Q(m, fk))
}
func addIndexText(m int, name, column string) string {
	if m == 3 {
		return "CREATE NONCLUSTERED INDEX " + Q(m, name) + " ON " + T(m) + " (" + Q(m, column) + ")"
	}
	return alter(m, "ADD INDEX "+Q(m, name)+" ("+Q(m, column)+")")
}
func dropIndexText(m int, name string) string {
	switch m {
	case 0:
		return alter(m, "DROP INDEX "+Q(m, name))
	case 3:
		return "DROP INDEX " + Q(m, name) + " ON " + T(m)
	}
	return "DROP INDEX " + Q(m, name)
}
func addColumnText(m int, name, after string) string {
	s := "ADD COLUMN "
	if m == 3 {
		s = "ADD "
	}
	s += Q(m, name) + " bigint"
	if m == 0 {
		s += " AFTER " + Q(m, after)
	}
	return alter(m, s)
}

type tbl = map[string]*Term

func fixed(name, modes string, care func() BDD, sides func(p *Program, m int) (d, c tbl), want func(m int) []string) *textScene {
	return &textScene{name: name, modes: modes, want: func(m int, _ chosen) []string { return want(m) },
		build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
			d, c := sides(p, m)
			a, b := p.tablesWith(m, d, c)
			return a, b, care()
		}}
}

func names(ns ...string) func() BDD {
	return func() BDD {
		r := otherNames(ns...)
		for _, n := range ns {
			r = bAnd(r, bNot(strSet(mkSym("$"+n, nil), "", "PRIMARY")))
		}
		return bAnd(r, bNot(strSet(mkSym("$r.name", nil), "")))
	}
}

var fkNames = names("k", "x", "ix", "fx")

var multiScenes = []*textScene{
	fixed("removed column with its index and foreign key", "mpx", fkNames,
		func(p *Program, m int) (tbl, tbl) {
			k := p.plainColumn("k", 0)
			c := cols(k, p.plainColumn("x", 1))
			c["indexes"] = items(p.indexOf("ix", "x", false, false))
			c["foreignKeys"] = items(p.foreignOf("fx", "x", nil))
			return cols(k), c
		},
		func(m int) []string {
			return []string{dropFK(m, "fx"), dropIndexText(m, "ix"), alter(m, "DROP COLUMN "+Q(m, "x"))}
		}),
	fixed("added column with keys", "mpx", fkNames,
		func(p *Program, m int) (tbl, tbl) {
			k := p.plainColumn("k", 0)
			d := cols(k, p.plainColumn("x", 1))
			d["indexes"] = items(p.indexOf("ix", "x", false, false), p.primaryOf(mkStrC("PRIMARY"), "x"))
			d["foreignKeys"] = items(p.foreignOf("fx", "x", nil))
			return d, cols(k)
		},
		func(m int) []string {
			pk := "ADD PRIMARY KEY (" + Q(m, "x") + ")"
			if m == 3 {
				pk = "ADD PRIMARY KEY NONCLUSTERED (" + Q(m, "x") + ")"
			}
			return []string{addColumnText(m, "x", "k"), alter(m, pk), addIndexText(m, "ix", "x"), addFK(m, "fx", "x")}
		}),
	fixed("auto increment that goes with its key", "m", names("k", "x"),
		func(p *Program, m int) (tbl, tbl) {
			c := cols(p.columnWith("k", 0, tbl{"autoIncrement": tTrue, "notNull": mkPtr(tTrue, types.Typ[types.Bool])}))
			c["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "k"))
			return cols(p.columnWith("k", 0, tbl{"notNull": mkPtr(tTrue, types.Typ[types.Bool])})), c
		},
		func(m int) []string {
			return []string{alter(m, "CHANGE COLUMN "+Q(m, "k")+" "+Q(m, "k")+" bigint NOT NULL"), alter(m, "DROP PRIMARY KEY")}
		}),
	fixed("auto increment that comes with its key", "m", names("k", "x"),
		func(p *Program, m int) (tbl, tbl) {
			d := cols(p.columnWith("k", 0, tbl{"autoIncrement": tTrue, "notNull": mkPtr(tTrue, types.Typ[types.Bool])}))
			d["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "k"))
			return d, cols(p.columnWith("k", 0, tbl{"notNull": mkPtr(tTrue, types.Typ[types.Bool])}))
		},
		func(m int) []string {
			return []string{alter(m, "ADD PRIMARY KEY ("+Q(m, "k")+")"), alter(m, "CHANGE COLUMN "+Q(m, "k")+" "+Q(m, "k")+" bigint NOT NULL AUTO_INCREMENT")}
		}),
	fixed("auto increment that comes with an index", "m", names("k", "x", "ix"),
		func(p *Program, m int) (tbl, tbl) {
			d := cols(p.columnWith("k", 0, tbl{"autoIncrement": tTrue, "notNull": mkPtr(tTrue, types.Typ[types.Bool])}))
			d["indexes"] = items(p.indexOf("ix", "k", false, false))
			return d, cols(p.columnWith("k", 0, tbl{"notNull": mkPtr(tTrue, types.Typ[types.Bool])}))
		},
		func(m int) []string {
			return []string{addIndexText(m, "ix", "k"), alter(m, "CHANGE COLUMN "+Q(m, "k")+" "+Q(m, "k")+" bigint NOT NULL AUTO_INCREMENT")}
		}),
	fixed("column placed behind an added one", "m", names("k", "x", "y"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.plainColumn("k", 0), p.plainColumn("x", 1), p.plainColumn("y", 2)), cols(p.plainColumn("k", 0))
		},
		func(m int) []string { return []string{addColumnText(m, "x", "k"), addColumnText(m, "y", "x")} }),
	fixed("removed column with constraints", "x", names("k", "x", "cx", "dx"),
		func(p *Program, m int) (tbl, tbl) {
			k := p.plainColumn("k", 0)
			x := p.columnWith("x", 1, tbl{"check": ptrTo(p, "CheckDefinition", tbl{"definition": mkSym("$cdef", nil), "constraintName": mkSym("$cx", nil)}), "defaultDef": otherDefault(p, "dx")})
			return cols(k), cols(k, x)
		},
		func(m int) []string {
			return []string{alter(m, "DROP CONSTRAINT "+Q(m, "dx")), alter(m, "DROP CONSTRAINT "+Q(m, "cx")), alter(m, "DROP COLUMN "+Q(m, "x"))}
		}),
	// ---- what stays
	fixed("one of two columns removed", "mpsx", names("k", "x", "y"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.plainColumn("k", 0), p.plainColumn("y", 1)), cols(p.plainColumn("k", 0), p.plainColumn("x", 1), p.plainColumn("y", 2))
		},
		func(m int) []string { return []string{alter(m, "DROP COLUMN "+Q(m, "x"))} }),
	fixed("one of two indexes removed", "mpsx", names("k", "x", "ix", "iy"),
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			d["indexes"] = items(p.indexOf("iy", "k", false, false))
			c["indexes"] = items(p.indexOf("ix", "k", false, false), p.indexOf("iy", "k", false, false))
			return d, c
		},
		func(m int) []string { return []string{dropIndexText(m, "ix")} }),
	fixed("the other of two indexes removed", "mpsx", names("k", "x", "ix", "iy"),
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			d["indexes"] = items(p.indexOf("ix", "k", true, false))
			c["indexes"] = items(p.indexOf("ix", "k", true, false), p.indexOf("iy", "k", true, false))
			return d, c
		},
		func(m int) []string { return []string{dropIndexText(m, "iy")} }),
	fixed("one of two foreign keys removed", "mpx", names("k", "x", "fx", "fy"),
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			d["foreignKeys"] = items(p.foreignOf("fy", "k", nil))
			c["foreignKeys"] = items(p.foreignOf("fx", "k", nil), p.foreignOf("fy", "k", nil))
			return d, c
		},
		func(m int) []string { return []string{dropFK(m, "fx")} }),
	fixed("the same objects in another order", "psx", names("k", "x", "ix", "iy", "fx", "fy"),
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0), p.plainColumn("x", 1)), cols(p.plainColumn("x", 0), p.plainColumn("k", 1))
			ix, iy := p.indexOf("ix", "k", false, false), p.indexOf("iy", "k", true, false)
			fx, fy := p.foreignOf("fx", "k", nil), p.foreignOf("fy", "k", nil)
			if m != 2 {
				d["indexes"], c["indexes"] = items(ix, iy), items(iy, ix)
				d["foreignKeys"], c["foreignKeys"] = items(fx, fy), items(fy, fx)
			}
			return d, c
		},
		func(m int) []string { return nil }),
	fixed("keys in another order", "m", names("k", "ix", "iy", "fx", "fy"),
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			ix, iy := p.indexOf("ix", "k", false, false), p.indexOf("iy", "k", true, false)
			fx, fy := p.foreignOf("fx", "k", nil), p.foreignOf("fy", "k", nil)
			d["indexes"], c["indexes"] = items(ix, iy), items(iy, ix)
			d["foreignKeys"], c["foreignKeys"] = items(fx, fy), items(fy, fx)
			return d, c
		},
		func(m int) []string { return nil }),
	fixed("index of a unique column", "mpx", names("k", "x", "ix"),
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.columnWith("k", 0, tbl{"keyOption": mkInt(keyUnique)})), cols(p.columnWith("k", 0, tbl{"keyOption": mkInt(keyUnique)}))
			c["indexes"] = items(p.indexOf("ix", "k", true, false))
			return d, c
		},
		func(m int) []string { return nil }),
	fixed("index of a foreign key", "m", fkNames,
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			d["foreignKeys"] = items(p.foreignOf("fx", "k", nil))
			c["foreignKeys"] = items(p.foreignOf("fx", "k", nil))
			c["indexes"] = items(p.indexOf("fx", "k", false, false))
			return d, c
		},
		func(m int) []string { return nil }),
	fixed("named index of a foreign key", "m", fkNames,
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			d["foreignKeys"] = items(p.foreignOf("fx", "k", tbl{"indexName": mkSym("$ix", nil)}))
			c["foreignKeys"] = items(p.foreignOf("fx", "k", nil))
			c["indexes"] = items(p.indexOf("ix", "k", false, false))
			return d, c
		},
		func(m int) []string { return nil }),
	fixed("primary key of a column", "mpx", names("k", "x", "pk"),
		func(p *Program, m int) (tbl, tbl) {
			nn := mkPtr(tTrue, types.Typ[types.Bool])
			d, c := cols(p.columnWith("k", 0, tbl{"keyOption": mkInt(keyPrimary), "notNull": nn})), cols(p.columnWith("k", 0, tbl{"notNull": nn}))
			c["indexes"] = items(p.primaryOf(currentKeyName(m), "k"))
			return d, c
		},
		func(m int) []string { return nil }),
	fixed("primary key of a table", "mpx", names("k", "x", "pk"),
		func(p *Program, m int) (tbl, tbl) {
			nn := mkPtr(tTrue, types.Typ[types.Bool])
			d, c := cols(p.columnWith("k", 0, tbl{"notNull": nn})), cols(p.columnWith("k", 0, tbl{"notNull": nn}))
			d["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "k"))
			c["indexes"] = items(p.primaryOf(currentKeyName(m), "k"))
			return d, c
		},
		func(m int) []string { return nil }),
	fixed("removed primary key", "mpx", names("k", "x", "pk"),
		func(p *Program, m int) (tbl, tbl) {
			nn := mkPtr(tTrue, types.Typ[types.Bool])
			d, c := cols(p.columnWith("k", 0, tbl{"notNull": nn})), cols(p.columnWith("k", 0, tbl{"notNull": nn}))
			c["indexes"] = items(p.primaryOf(currentKeyName(m), "k"))
			return d, c
		},
		func(m int) []string {
			switch m {
			case 1:
				return []string{alter(m, `DROP CONSTRAINT "tbl_pkey"`)}
			case 3:
				return []string{alter(m, "DROP CONSTRAINT "+Q(m, "pk"))}
			}
			return []string{alter(m, "DROP PRIMARY KEY")}
		}),
	fixed("removed unique key of a column", "mpsx", names("k", "x", "ix"),
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			c["indexes"] = items(p.indexOf("ix", "k", true, false))
			return d, c
		},
		func(m int) []string { return []string{dropIndexText(m, "ix")} }),
	twoTables("one of two tables removed", "mpsx", []string{"u"}, []string{"t", "u"}, func(m int) []string { return []string{"DROP TABLE " + tableText(m, "t")} }),
	twoTables("the other of two tables removed", "mpsx", []string{"t"}, []string{"t", "u"}, func(m int) []string { return []string{"DROP TABLE " + tableText(m, "u")} }),
	twoTables("tables in another order", "mpsx", []string{"u", "t"}, []string{"t", "u"}, func(m int) []string { return nil }),
	twoTables("one of two tables added", "mpsx", []string{"t", "u"}, []string{"t"}, func(m int) []string { return []string{U("u.statement")} }),
	twoTables("tables whose names end alike", "mpsx", []string{"ut"}, []string{"t", "ut"}, func(m int) []string { return []string{"DROP TABLE " + tableText(m, "t")} }),
	twoTables("added table whose name ends alike", "mpsx", []string{"ut", "t"}, []string{"ut"}, func(m int) []string { return []string{U("t.statement")} }),
	twoTables("tables whose names are in capitals", "mpsx", []string{"T", "U"}, []string{"T", "U"}, func(m int) []string { return nil }),
	twoTables("tables whose names differ in case", "mpsx", []string{"T"}, []string{"t", "T"}, func(m int) []string { return []string{"DROP TABLE " + tableText(m, "t")} }),
	twoViews("views whose names differ in case", []string{"V"}, []string{"v", "V"}, func(m int) []string { return []string{"DROP VIEW " + tableText(m, "v")} }),
	twoViews("added view whose name ends alike", []string{"uv", "v"}, []string{"uv"}, func(m int) []string { return []string{U("v.statement")} }),
	twoViews("one of two views removed", []string{"v"}, []string{"w", "v"}, func(m int) []string { return []string{"DROP VIEW " + tableText(m, "w")} }),
	twoViews("the other of two views removed", []string{"w"}, []string{"w", "v"}, func(m int) []string { return []string{"DROP VIEW " + tableText(m, "v")} }),
	twoViews("views in another order", []string{"v", "w"}, []string{"w", "v"}, func(m int) []string { return nil }),
	twoViews("one of two views added", []string{"v", "w"}, []string{"v"}, func(m int) []string { return []string{U("w.statement")} }),
	twoPolicies("one of two policies removed", []string{"p"}, []string{"q", "p"}, func(m int) []string { return []string{"DROP POLICY " + Q(m, "q") + " ON " + T(m)} }),
	twoPolicies("policies in another order", []string{"p", "q"}, []string{"q", "p"}, func(m int) []string { return nil }),
	twoPolicies("one of two policies added", []string{"p", "q"}, []string{"q"}, func(m int) []string { return []string{U("p.statement")} }),
}

func currentKeyName(m int) *Term {
	if m == 3 {
		return mkSym("$pk", nil)
	}
	return mkStrC("PRIMARY")
}

func qualified(m int, n string) string {
	switch m {
	case 1:
		return "public." + n
	case 3:
		return "dbo." + n
	}
	return n
}
func tableText(m int, n string) string {
	switch m {
	case 1:
		return `"public"."` + n + `"`
	case 3:
		return "[dbo].[" + n + "]"
	}
	return "`" + n + "`"
}

func twoTables(name, modes string, d, c []string, want func(m int) []string) *textScene {
	return &textScene{name: name, modes: modes, want: func(m int, _ chosen) []string { return want(m) },
		build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
			mk := func(ns []string) []*Term {
				var out []*Term
				for _, n := range ns {
					t := structOf(p.schemaType("Table"), tbl{"name": mkStrC(qualified(m, n)), "columns": items(p.plainColumn(n+".k", 0), p.plainColumn(n+".l", 1))})
					out = append(out, p.stmtTerm("CreateTable", tbl{"statement": mkSym("$"+n+".statement", nil), "table": t}))
				}
				return out
			}
			care := True
			for _, n := range append(append([]string{}, d...), c...) {
				care = bAnd(care, otherNames(n+".k", n+".l"))
			}
			return mk(d), mk(c), care
		}}
}

func twoViews(name string, d, c []string, want func(m int) []string) *textScene {
	return &textScene{name: name, modes: "mpsx", want: func(m int, _ chosen) []string { return want(m) },
		build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
			mk := func(ns []string) []*Term {
				var out []*Term
				for _, n := range ns {
					out = append(out, p.stmtTerm("View", tbl{"statement": mkSym("$"+n+".statement", nil), "name": mkStrC(qualified(m, n)), "definition": mkSym("$"+n+".definition", nil)}))
				}
				return out
			}
			return mk(d), mk(c), True
		}}
}

func twoPolicies(name string, d, c []string, want func(m int) []string) *textScene {
	return &textScene{name: name, modes: "p", want: func(m int, _ chosen) []string { return want(m) },
		build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
			a, b := p.tablesWith(m, cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0)))
			mk := func(ns []string) []*Term {
				var out []*Term
				for _, n := range ns {
					v := structOf(p.schemaType("Policy"), tbl{"name": mkSym("$"+n, nil), "scope": mkStrC("all"), "permissive": mkStrC("permissive"), "using": mkSym("$"+n+".using", nil), "withCheck": mkSym("$"+n+".check", nil), "roles": items(mkStrC("r"))})
					out = append(out, p.stmtTerm("AddPolicy", tbl{"statement": mkSym("$"+n+".statement", nil), "tableName": mkStrC(tableName(m)), "policy": v}))
				}
				return out
			}
			return append(a, mk(d)...), append(b, mk(c)...), names("p", "q")()
		}}
}

func init() { textScenes = append(textScenes, multiScenes...) }
