package main

import (
	"go/types"
	"strings"
)

// ---- several objects at once: neighbours that look alike

func createIndex(p *Program, m int, table string, ix *Term, name string) *Term {
	return p.stmtTerm("CreateIndex", tbl{"statement": mkSym("$"+name+".statement", nil), "tableName": mkStrC(qualified(m, table)), "index": ix})
}

// tablesOf builds the statements of several tables, each given its fields, followed by other statements.
func (p *Program) tablesOf(m int, order []string, fields map[string]tbl, more ...*Term) []*Term {
	var out []*Term
	for _, n := range order {
		f := tbl{"name": mkStrC(qualified(m, n))}
		for k, v := range fields[n] {
			f[k] = v
		}
		out = append(out, p.stmtTerm("CreateTable", tbl{"statement": mkSym("$"+n+".statement", nil), "table": structOf(p.schemaType("Table"), f)}))
	}
	return append(out, more...)
}

func several(name, modes string, care func() BDD, sides func(p *Program, m int) (d, c []*Term), want func(m int) []string) *textScene {
	return &textScene{name: name, modes: modes, want: func(m int, _ chosen) []string { return want(m) },
		build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
			d, c := sides(p, m)
			return d, c, care()
		}}
}

func about(pid, name, modes string, care func() BDD, sides func(p *Program, m int) (d, c tbl), want func(m int) []string) *textScene {
	s := fixed(name, modes, care, sides, want)
	s.only = pid
	return s
}

func on(m int, table, s string) string { return "ALTER TABLE " + tableText(m, table) + " " + s }
func dropIndexOn(m int, table, name string) string {
	switch m {
	case 0:
		return on(m, table, "DROP INDEX "+Q(m, name))
	case 3:
		return "DROP INDEX " + Q(m, name) + " ON " + tableText(m, table)
	}
	return "DROP INDEX " + Q(m, name)
}
func addIndexOn(m int, table, name, column string) string {
	if m == 3 {
		return "CREATE NONCLUSTERED INDEX " + Q(m, name) + " ON " + tableText(m, table) + " (" + Q(m, column) + ")"
	}
	return on(m, table, "ADD INDEX "+Q(m, name)+" ("+Q(m, column)+")")
}

var moreScenes = []*textScene{
	fixed("one of two columns replaced", "mpsx", names("k", "x", "y"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.plainColumn("k", 0), p.plainColumn("y", 1)), cols(p.plainColumn("k", 0), p.plainColumn("x", 1))
		},
		func(m int) []string {
			return []string{addColumnText(m, "y", "k"), alter(m, "DROP COLUMN "+Q(m, "x"))}
		}),
	fixed("one of two columns replaced by two", "mpsx", names("k", "x", "y", "z"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.plainColumn("k", 0), p.plainColumn("y", 1), p.plainColumn("z", 2)), cols(p.plainColumn("k", 0), p.plainColumn("x", 1))
		},
		func(m int) []string {
			return []string{addColumnText(m, "y", "k"), addColumnText(m, "z", "y"), alter(m, "DROP COLUMN "+Q(m, "x"))}
		}),
	fixed("the only column replaced", "mpsx", names("k", "x"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.plainColumn("k", 0)), cols(p.plainColumn("x", 0))
		},
		func(m int) []string {
			add := addColumnText(m, "k", "")
			if m == 0 {
				add = alter(m, "ADD COLUMN "+Q(m, "k")+" bigint FIRST")
			}
			return []string{add, alter(m, "DROP COLUMN "+Q(m, "x"))}
		}),
	fixed("removed column next to one with constraints", "x", names("k", "x", "cx", "dx"),
		func(p *Program, m int) (tbl, tbl) {
			k := p.columnWith("k", 0, tbl{"check": ptrTo(p, "CheckDefinition", tbl{"definition": mkSym("$cdef", nil), "constraintName": mkSym("$cx", nil)}), "defaultDef": otherDefault(p, "dx")})
			return cols(k), cols(k, p.plainColumn("x", 1))
		},
		func(m int) []string { return []string{alter(m, "DROP COLUMN "+Q(m, "x"))} }),
	fixed("removed unique key next to a unique column", "mpsx", names("k", "x", "ix", "iy"),
		func(p *Program, m int) (tbl, tbl) {
			k := p.columnWith("k", 0, tbl{"keyOption": mkInt(keyUnique)})
			d, c := cols(k, p.plainColumn("x", 1)), cols(k, p.plainColumn("x", 1))
			c["indexes"] = items(p.indexOf("iy", "k", true, false), p.indexOf("ix", "x", true, false))
			return d, c
		},
		func(m int) []string { return []string{dropIndexText(m, "ix")} }),
	fixed("removed index next to a unique column", "mpsx", names("k", "x", "ix", "iy"),
		func(p *Program, m int) (tbl, tbl) {
			k := p.columnWith("k", 0, tbl{"keyOption": mkInt(keyUnique)})
			d, c := cols(k), cols(k)
			c["indexes"] = items(p.indexOf("iy", "k", true, false), p.indexOf("ix", "k", false, false))
			return d, c
		},
		func(m int) []string { return []string{dropIndexText(m, "ix")} }),
	fixed("reference of a column", "px", names("k", "fx"),
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.columnWith("k", 0, tbl{"references": mkSym("$r.name", nil)})), cols(p.plainColumn("k", 0))
			c["foreignKeys"] = items(p.foreignOf("fx", "k", nil))
			return d, c
		},
		func(m int) []string { return nil }),
	fixed("removed foreign key next to a reference", "px",
		func() BDD {
			return bAnd(names("k", "x", "fx", "fy")(), bNot(eqBDD(mkSym("$o.name", nil), mkSym("$r.name", nil))))
		},
		func(p *Program, m int) (tbl, tbl) {
			x := p.plainColumn("x", 1)
			d, c := cols(p.columnWith("k", 0, tbl{"references": mkSym("$o.name", nil)}), x), cols(p.plainColumn("k", 0), x)
			c["foreignKeys"] = items(p.foreignOf("fy", "k", tbl{"referenceName": mkSym("$o.name", nil)}), p.foreignOf("fx", "x", nil))
			return d, c
		},
		func(m int) []string { return []string{dropFK(m, "fx")} }),
	fixed("removed auto increment column", "m", names("k", "x"),
		func(p *Program, m int) (tbl, tbl) {
			c := cols(p.plainColumn("k", 0), p.columnWith("x", 1, tbl{"autoIncrement": tTrue, "notNull": mkPtr(tTrue, types.Typ[types.Bool])}))
			c["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "x"))
			return cols(p.plainColumn("k", 0)), c
		},
		func(m int) []string {
			return []string{alter(m, "CHANGE COLUMN "+Q(m, "x")+" "+Q(m, "x")+" bigint NOT NULL"), alter(m, "DROP PRIMARY KEY"), alter(m, "DROP COLUMN "+Q(m, "x"))}
		}),
	fixed("auto increment that moves to another column", "m", names("k", "x"),
		func(p *Program, m int) (tbl, tbl) {
			nn := mkPtr(tTrue, types.Typ[types.Bool])
			d := cols(p.columnWith("k", 0, tbl{"autoIncrement": tTrue, "notNull": nn}), p.columnWith("x", 1, tbl{"notNull": nn}))
			c := cols(p.columnWith("k", 0, tbl{"notNull": nn}), p.columnWith("x", 1, tbl{"autoIncrement": tTrue, "notNull": nn}))
			d["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "k"))
			c["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "x"))
			return d, c
		},
		func(m int) []string {
			return []string{alter(m, "CHANGE COLUMN "+Q(m, "x")+" "+Q(m, "x")+" bigint NOT NULL"), alter(m, "DROP PRIMARY KEY"), alter(m, "ADD PRIMARY KEY ("+Q(m, "k")+")"),
				alter(m, "CHANGE COLUMN "+Q(m, "k")+" "+Q(m, "k")+" bigint NOT NULL AUTO_INCREMENT")}
		}),
	fixed("primary key of another column", "mp", names("k", "x"),
		func(p *Program, m int) (tbl, tbl) {
			nn := mkPtr(tTrue, types.Typ[types.Bool])
			k, x := p.columnWith("k", 0, tbl{"notNull": nn}), p.columnWith("x", 1, tbl{"notNull": nn})
			d, c := cols(k, x), cols(k, x)
			d["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "x"))
			c["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "k"))
			return d, c
		},
		func(m int) []string {
			drop := "DROP PRIMARY KEY"
			if m == 1 {
				drop = `DROP CONSTRAINT "tbl_pkey"`
			}
			return []string{alter(m, drop), alter(m, "ADD PRIMARY KEY ("+Q(m, "x")+")")}
		}),
	fixed("primary key with a column more", "mp", names("k", "x"),
		func(p *Program, m int) (tbl, tbl) {
			nn := mkPtr(tTrue, types.Typ[types.Bool])
			k, x := p.columnWith("k", 0, tbl{"notNull": nn}), p.columnWith("x", 1, tbl{"notNull": nn})
			d, c := cols(k, x), cols(k, x)
			d["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "k", "x"))
			c["indexes"] = items(p.primaryOf(mkStrC("PRIMARY"), "k"))
			return d, c
		},
		func(m int) []string {
			drop := "DROP PRIMARY KEY"
			if m == 1 {
				drop = `DROP CONSTRAINT "tbl_pkey"`
			}
			return []string{alter(m, drop), alter(m, "ADD PRIMARY KEY ("+Q(m, "k")+", "+Q(m, "x")+")")}
		}),
	// ---- dependencies between what changes
	fixed("changed index of a changed foreign key", "m", fkNames,
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			d["foreignKeys"] = items(p.foreignOf("fx", "k", tbl{"onDelete": mkStrC("CASCADE")}))
			c["foreignKeys"] = items(p.foreignOf("fx", "k", nil))
			d["indexes"], c["indexes"] = items(p.indexOf("ix", "k", true, false)), items(p.indexOf("ix", "k", false, false))
			return d, c
		},
		func(m int) []string {
			return []string{dropFK(m, "fx"), dropIndexText(m, "ix"), addIndexText(m, "ix", "k"), addFK(m, "fx", "k") + " ON DELETE CASCADE"}
		}),
	fixed("changed index of a removed foreign key", "m", fkNames,
		func(p *Program, m int) (tbl, tbl) {
			d, c := cols(p.plainColumn("k", 0)), cols(p.plainColumn("k", 0))
			c["foreignKeys"] = items(p.foreignOf("fx", "k", nil))
			d["indexes"], c["indexes"] = items(p.indexOf("ix", "k", true, false)), items(p.indexOf("ix", "k", false, false))
			return d, c
		},
		func(m int) []string {
			return []string{dropFK(m, "fx"), dropIndexText(m, "ix"), addIndexText(m, "ix", "k")}
		}),
	about("C16", "changed identity of a column with a check", "x", names("k", "l", "cx"),
		func(p *Program, m int) (tbl, tbl) {
			mk := func(repl *Term) *Term {
				one := func(t *Term) *Term { return mkPtr(t, types.Typ[types.Int]) }
				return p.columnWith("k", 0, tbl{"check": ptrTo(p, "CheckDefinition", tbl{"definition": mkSym("$cdef", nil), "constraintName": mkSym("$cx", nil)}),
					"identity": ptrTo(p, "Identity", tbl{"behavior": mkStrC(""), "notForReplication": repl}),
					"sequence": ptrTo(p, "Sequence", tbl{"StartWith": one(mkInt(1)), "IncrementBy": one(mkInt(1))})})
			}
			return cols(mk(tTrue), p.plainColumn("l", 1)), cols(mk(tFalse), p.plainColumn("l", 1))
		},
		func(m int) []string {
			return []string{alter(m, "DROP CONSTRAINT "+Q(m, "cx")), alter(m, "DROP COLUMN "+Q(m, "k")),
				alter(m, "ADD "+Q(m, "k")+" bigint CONSTRAINT "+Q(m, "cx")+" CHECK ("+U("cdef")+") IDENTITY(1,1) NOT FOR REPLICATION")}
		}),
	about("C13", "removed identity of a column", "x", names("k", "l"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.plainColumn("k", 0), p.plainColumn("l", 1)), cols(p.identityColumn("k"), p.plainColumn("l", 1))
		},
		func(m int) []string {
			return []string{alter(m, "DROP COLUMN "+Q(m, "k")), alter(m, "ADD "+Q(m, "k")+" bigint")}
		}),
	about("C16", "added identity of a column", "x", names("k", "l"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.identityColumn("k"), p.plainColumn("l", 1)), cols(p.plainColumn("k", 0), p.plainColumn("l", 1))
		},
		func(m int) []string {
			return []string{alter(m, "DROP COLUMN "+Q(m, "k")), alter(m, "ADD "+Q(m, "k")+" bigint IDENTITY(1,1)")}
		}),
	about("C13", "added column with a named check", "mps", names("k", "x", "cx"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.plainColumn("k", 0), p.columnWith("x", 1, tbl{"check": ptrTo(p, "CheckDefinition", tbl{"definition": mkSym("$cdef", nil), "constraintName": mkSym("$cx", nil)})})), cols(p.plainColumn("k", 0))
		},
		func(m int) []string {
			return []string{strings.Replace(addColumnText(m, "x", "k"), " bigint", " bigint CONSTRAINT "+Q(m, "cx")+" CHECK ("+U("cdef")+")", 1)}
		}),
	about("C13", "added column with a reference", "psx", names("k", "x"),
		func(p *Program, m int) (tbl, tbl) {
			return cols(p.plainColumn("k", 0), p.columnWith("x", 1, tbl{"references": mkSym("$r.name", nil)})), cols(p.plainColumn("k", 0))
		},
		func(m int) []string {
			return []string{addColumnText(m, "x", "k") + " REFERENCES " + Q(m, "r.name")}
		}),
	// ---- two tables with objects of the same name
	several("an index of one of two tables removed", "mpsx", names("k", "ix"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := items(p.plainColumn("k", 0))
			with := tbl{"columns": k, "indexes": items(p.indexOf("ix", "k", false, false))}
			return p.tablesOf(m, []string{"t", "u"}, map[string]tbl{"t": {"columns": k}, "u": with}), p.tablesOf(m, []string{"t", "u"}, map[string]tbl{"t": with, "u": with})
		},
		func(m int) []string { return []string{dropIndexOn(m, "t", "ix")} }),
	several("an index of one of two tables added", "mpx", names("k", "ix"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := items(p.plainColumn("k", 0))
			with := tbl{"columns": k, "indexes": items(p.indexOf("ix", "k", false, false))}
			return p.tablesOf(m, []string{"t", "u"}, map[string]tbl{"t": with, "u": with}), p.tablesOf(m, []string{"t", "u"}, map[string]tbl{"t": with, "u": {"columns": k}})
		},
		func(m int) []string { return []string{addIndexOn(m, "u", "ix", "k")} }),
	several("a column of one of two tables removed", "mpsx", names("k", "x"),
		func(p *Program, m int) ([]*Term, []*Term) {
			one, two := items(p.plainColumn("k", 0)), items(p.plainColumn("k", 0), p.plainColumn("x", 1))
			return p.tablesOf(m, []string{"t", "u"}, map[string]tbl{"t": {"columns": one}, "u": {"columns": two}}), p.tablesOf(m, []string{"t", "u"}, map[string]tbl{"t": {"columns": two}, "u": {"columns": two}})
		},
		func(m int) []string { return []string{on(m, "t", "DROP COLUMN "+Q(m, "x"))} }),
	several("a foreign key of one of two tables removed", "mpx", names("k", "fx"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := items(p.plainColumn("k", 0))
			with := tbl{"columns": k, "foreignKeys": items(p.foreignOf("fx", "k", nil))}
			return p.tablesOf(m, []string{"t", "u"}, map[string]tbl{"t": with, "u": {"columns": k}}), p.tablesOf(m, []string{"t", "u"}, map[string]tbl{"t": with, "u": with})
		},
		func(m int) []string {
			if m == 0 {
				return []string{on(m, "u", "DROP FOREIGN KEY "+Q(m, "fx"))}
			}
			return []string{on(m, "u", "DROP CONSTRAINT "+Q(m, "fx"))}
		}),
	several("a policy of one of two tables removed", "p", names("k", "q"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := tbl{"columns": items(p.plainColumn("k", 0))}
			pol := func(table, st string) *Term {
				v := structOf(p.schemaType("Policy"), tbl{"name": mkSym("$q", nil), "scope": mkStrC("all"), "permissive": mkStrC("permissive"), "using": mkSym("$q.using", nil), "withCheck": mkSym("$q.check", nil), "roles": items(mkStrC("r"))})
				return p.stmtTerm("AddPolicy", tbl{"statement": mkSym("$"+st+".statement", nil), "tableName": mkStrC(qualified(m, table)), "policy": v})
			}
			both := map[string]tbl{"t": k, "u": k}
			return p.tablesOf(m, []string{"t", "u"}, both, pol("u", "b")), p.tablesOf(m, []string{"t", "u"}, both, pol("t", "a"), pol("u", "b"))
		},
		func(m int) []string { return []string{"DROP POLICY " + Q(m, "q") + " ON " + tableText(m, "t")} }),
	several("an index statement of one of two tables removed", "mx", names("k", "ix"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := tbl{"columns": items(p.plainColumn("k", 0))}
			ix := p.indexOf("ix", "k", false, false)
			both := map[string]tbl{"t": k, "u": k}
			return p.tablesOf(m, []string{"t", "u"}, both, createIndex(p, m, "u", ix, "b")), p.tablesOf(m, []string{"t", "u"}, both, createIndex(p, m, "t", ix, "a"), createIndex(p, m, "u", ix, "b"))
		},
		func(m int) []string { return []string{dropIndexOn(m, "t", "ix")} }),
	several("one of two index statements removed", "mpsx", names("k", "ix", "iy"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := map[string]tbl{"t": {"columns": items(p.plainColumn("k", 0))}}
			ix, iy := createIndex(p, m, "t", p.indexOf("ix", "k", false, false), "a"), createIndex(p, m, "t", p.indexOf("iy", "k", true, false), "b")
			return p.tablesOf(m, []string{"t"}, k, iy), p.tablesOf(m, []string{"t"}, k, ix, iy)
		},
		func(m int) []string { return []string{dropIndexOn(m, "t", "ix")} }),
	several("index statements in another order", "mpx", names("k", "ix", "iy"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := map[string]tbl{"t": {"columns": items(p.plainColumn("k", 0))}}
			ix, iy := createIndex(p, m, "t", p.indexOf("ix", "k", false, false), "a"), createIndex(p, m, "t", p.indexOf("iy", "k", true, false), "b")
			return p.tablesOf(m, []string{"t"}, k, iy, ix), p.tablesOf(m, []string{"t"}, k, ix, iy)
		},
		func(m int) []string { return nil }),
	several("one of two index statements added", "mpsx", names("k", "ix", "iy"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := map[string]tbl{"t": {"columns": items(p.plainColumn("k", 0))}}
			ix, iy := createIndex(p, m, "t", p.indexOf("ix", "k", false, false), "a"), createIndex(p, m, "t", p.indexOf("iy", "k", true, false), "b")
			return p.tablesOf(m, []string{"t"}, k, ix, iy), p.tablesOf(m, []string{"t"}, k, iy)
		},
		func(m int) []string { return []string{U("a.statement")} }),
	several("table added with index statements", "mpsx", names("k", "ix", "iy"),
		func(p *Program, m int) ([]*Term, []*Term) {
			k := map[string]tbl{"t": {"columns": items(p.plainColumn("k", 0))}}
			ix, iy := createIndex(p, m, "t", p.indexOf("ix", "k", false, false), "a"), createIndex(p, m, "t", p.indexOf("iy", "k", true, false), "b")
			return p.tablesOf(m, []string{"t"}, k, ix, iy), nil
		},
		func(m int) []string { return []string{U("t.statement"), U("a.statement"), U("b.statement")} }),
	several("index of a table written as a statement", "mpx", names("k", "ix"),
		func(p *Program, m int) ([]*Term, []*Term) {
			ix := p.indexOf("ix", "k", false, false)
			k := map[string]tbl{"t": {"columns": items(p.plainColumn("k", 0))}}
			w := map[string]tbl{"t": {"columns": items(p.plainColumn("k", 0)), "indexes": items(ix)}}
			return p.tablesOf(m, []string{"t"}, w), p.tablesOf(m, []string{"t"}, k, createIndex(p, m, "t", ix, "a"))
		},
		func(m int) []string { return nil }),
	several("index statement written in the table", "mpx", names("k", "ix"),
		func(p *Program, m int) ([]*Term, []*Term) {
			ix := p.indexOf("ix", "k", false, false)
			k := map[string]tbl{"t": {"columns": items(p.plainColumn("k", 0))}}
			w := map[string]tbl{"t": {"columns": items(p.plainColumn("k", 0)), "indexes": items(ix)}}
			return p.tablesOf(m, []string{"t"}, k, createIndex(p, m, "t", ix, "a")), p.tablesOf(m, []string{"t"}, w)
		},
		func(m int) []string { return nil }),
}

func init() { textScenes = append(textScenes, moreScenes...) }

// a column of SQL Server with an identity
func (p *Program) identityColumn(name string) *Term {
	one := func() *Term { return mkPtr(mkInt(1), types.Typ[types.Int]) }
	return p.columnWith(name, 0, tbl{"identity": ptrTo(p, "Identity", tbl{"behavior": mkStrC("")}),
		"sequence": ptrTo(p, "Sequence", tbl{"StartWith": one(), "IncrementBy": one()})})
}
