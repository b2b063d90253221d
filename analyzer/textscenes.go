package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- columns

// columnGroups are the attributes of a column under a prefix such as "d.x" or,
// for the presence symbols, "d.has:x".
func columnGroups(names ...string) []group {
	all := []group{
		{"type", []alt{
			{"plain", "", "d.x.typeName!=words !d.has:x.length !d.has:x.scale"},
			{"length", "", "d.x.typeName!=words d.has:x.length !d.has:x.scale"},
			{"length and scale", "", "d.x.typeName!=words d.has:x.length d.has:x.scale"},
			{"enum", "m", "d.x.typeName='enum' !d.has:x.length !d.has:x.scale"},
			{"word integer", "", "d.x.typeName='integer' !d.has:x.length !d.has:x.scale"},
			{"word bool", "", "d.x.typeName='bool' !d.has:x.length !d.has:x.scale"},
			{"word character", "", "d.x.typeName='character' d.has:x.length !d.has:x.scale"},
			{"word tinyint", "m", "d.x.typeName='tinyint' d.has:x.length !d.has:x.scale"},
			{"word varchar", "p", "d.x.typeName='varchar' d.has:x.length !d.has:x.scale"},
		}},
		{"unsigned", []alt{{"", "", "!d.x.unsigned"}, {"unsigned", "m", "d.x.unsigned"}}},
		{"timezone", []alt{{"", "", "!d.x.timezone"}, {"timezone", "p", "d.x.timezone"}}},
		{"array", []alt{{"", "", "!d.x.array"}, {"array", "p", "d.x.array"}}},
		{"charset", []alt{{"", "", "d.x.charset=''"}, {"charset", "m", "d.x.charset!=''"}}},
		{"collate", []alt{{"", "", "d.x.collate=''"}, {"collate", "", "d.x.collate!=''"}}},
		{"null", []alt{{"", "", "!d.has:x.notNull"}, {"not null", "", "d.has:x.notNull d.x.notNull"}, {"null", "", "d.has:x.notNull !d.x.notNull"}}},
		{"default", []alt{
			{"", "", "!d.has:x.defaultDef"},
			{"string default", "", "d.has:x.defaultDef d.has:x.defaultDef.value d.x.defaultDef.value.valueType=0"},
			{"int default", "", "d.has:x.defaultDef d.has:x.defaultDef.value d.x.defaultDef.value.valueType=1"},
			{"float default", "", "d.has:x.defaultDef d.has:x.defaultDef.value d.x.defaultDef.value.valueType=2"},
			{"word default", "", "d.has:x.defaultDef d.has:x.defaultDef.value d.x.defaultDef.value.valueType=5 d.x.defaultDef.value.raw!=null"},
			{"bit default", "m", "d.has:x.defaultDef d.has:x.defaultDef.value d.x.defaultDef.value.valueType=6"},
		}},
		{"default name", []alt{{"", "", "d.x.defaultDef.constraintName=''"}, {"default name", "x", "d.x.defaultDef.constraintName!=''"}}},
		{"auto increment", []alt{{"", "", "!d.x.autoIncrement"}, {"auto increment", "m", "d.x.autoIncrement"}}},
		{"on update", []alt{{"", "", "!d.has:x.onUpdate"}, {"on update", "m", "d.has:x.onUpdate"}}},
		{"check", []alt{
			{"", "", "!d.has:x.check"},
			{"check", "", "d.has:x.check !d.x.check.notForReplication"},
			{"check not for replication", "x", "d.has:x.check d.x.check.notForReplication"},
		}},
		{"check name", []alt{{"", "", "d.x.check.constraintName=''"}, {"check name", "x", "d.x.check.constraintName!=''"}}},
		{"no inherit", []alt{{"", "", "!d.x.checkNoInherit"}, {"no inherit", "p", "d.x.checkNoInherit"}}},
		{"key", []alt{
			{"", "", "d.x.keyOption=0"},
			{"unique", "", "d.x.keyOption=3"},
			{"unique key", "m", "d.x.keyOption=4"},
			{"primary", "", "d.x.keyOption=1"},
		}},
		{"identity", []alt{
			{"", "", "!d.has:x.identity !d.has:x.sequence"},
			{"identity", "p", "d.has:x.identity d.x.identity.behavior!='' !d.x.identity.notForReplication !d.has:x.sequence"},
			{"identity with sequence", "p", "d.has:x.identity d.x.identity.behavior!='' !d.x.identity.notForReplication d.has:x.sequence d.x.sequence.Name='' d.has:x.sequence.StartWith d.has:x.sequence.IncrementBy !d.has:x.sequence.MinValue !d.has:x.sequence.MaxValue !d.has:x.sequence.Cache !d.x.sequence.NoMinValue !d.x.sequence.NoMaxValue !d.x.sequence.Cycle !d.x.sequence.NoCycle"},
			{"identity", "x", "d.has:x.identity d.x.identity.behavior='' !d.x.identity.notForReplication d.has:x.sequence d.has:x.sequence.StartWith d.has:x.sequence.IncrementBy"},
			{"identity not for replication", "x", "d.has:x.identity d.x.identity.behavior='' d.x.identity.notForReplication d.has:x.sequence d.has:x.sequence.StartWith d.has:x.sequence.IncrementBy"},
		}},
	}
	if len(names) == 0 {
		return all
	}
	var out []group
	for _, g := range all {
		keep := false
		for _, n := range names {
			keep = keep || n == g.name
		}
		if !keep {
			g.alts = g.alts[:1] // absent
		}
		out = append(out, g)
	}
	return out
}

func side(x, path string) string { return x + "." + path }

// dataType of the column under x (such as "d.x").
func wantType(x string, ch chosen) string {
	s := U(x + ".typeName")
	switch ch["type"] {
	case "word integer", "word bool":
		s = ch["type"][5:]
	case "word character", "word tinyint", "word varchar":
		s = ch["type"][5:] + "(" + U(x+".length.raw") + ")"
	case "length":
		s += "(" + U(x+".length.raw") + ")"
	case "length and scale":
		s += "(" + U(x+".length.raw") + ", " + U(x+".scale.raw") + ")"
	case "enum":
		s = "enum(" + U(x+".enumValues[0]") + ", " + U(x+".enumValues[1]") + ")"
	}
	if ch["array"] == "array" {
		s += "[]"
	}
	return s
}

func wantDefault(mode int, x string, ch chosen) string {
	v := x + ".defaultDef.value.raw"
	switch ch["default"] {
	case "string default":
		if mode == 0 {
			return "DEFAULT '‹" + v + "×'×\\›'"
		}
		return "DEFAULT '‹" + v + "×'›'"
	case "int default", "float default", "word default":
		return "DEFAULT " + U(v)
	case "bit default":
		return "DEFAULT b'" + U(v) + "'"
	}
	return ""
}

func wantSequence(x string, parts ...string) string {
	return strings.Join(parts, " ")
}

// wantColumn is a column definition: the name and every attribute chosen.
func wantColumn(mode int, x string, ch chosen, unique bool) string {
	w := []string{Q(mode, "x.name"), wantType(x, ch)}
	add := func(g, a, s string) {
		if ch[g] == a {
			w = append(w, s)
		}
	}
	add("unsigned", "unsigned", "UNSIGNED")
	add("timezone", "timezone", "WITH TIME ZONE")
	add("charset", "charset", "CHARACTER SET "+U(x+".charset"))
	add("collate", "collate", "COLLATE "+U(x+".collate"))
	switch {
	case ch["null"] == "null" && ch["key"] != "primary":
		w = append(w, "NULL")
	case ch["identity"] != "": // implied
	case ch["null"] == "not null" || ch["key"] == "primary":
		w = append(w, "NOT NULL")
	}
	if d := wantDefault(mode, x, ch); d != "" {
		add("default name", "default name", "CONSTRAINT "+Q(mode, x+".defaultDef.constraintName"))
		w = append(w, d)
	}
	add("auto increment", "auto increment", "AUTO_INCREMENT")
	add("on update", "on update", "ON UPDATE "+U(x+".onUpdate.raw"))
	if ch["check"] != "" {
		add("check name", "check name", "CONSTRAINT "+Q(mode, x+".check.constraintName"))
	}
	add("check", "check", "CHECK ("+U(x+".check.definition")+")")
	add("check", "check not for replication", "CHECK NOT FOR REPLICATION ("+U(x+".check.definition")+")")
	add("no inherit", "no inherit", "NO INHERIT")
	if unique {
		add("key", "unique", "UNIQUE")
		add("key", "unique key", "UNIQUE KEY")
	}
	gen := "GENERATED " + U(x+".identity.behavior") + " AS IDENTITY"
	switch ch["identity"] {
	case "identity with sequence":
		w = append(w, gen+" (START WITH "+U(x+".sequence.StartWith")+" INCREMENT BY "+U(x+".sequence.IncrementBy")+")")
	case "identity", "identity not for replication":
		if mode == 1 {
			w = append(w, gen)
			break
		}
		w = append(w, "IDENTITY("+U(x+".sequence.StartWith")+","+U(x+".sequence.IncrementBy")+")")
		if ch["identity"] != "identity" {
			w = append(w, "NOT FOR REPLICATION")
		}
	}
	return strings.Join(w, " ")
}

// the column next to the one in question
func (p *Program) plainColumn(name string, pos int64) *Term {
	return structOf(p.schemaType("Column"), map[string]*Term{"name": mkSym("$"+name, nil), "typeName": mkStrC("bigint"), "position": mkInt(pos)})
}

func (p *Program) freeColumn(side string, tag int64, pos int64, set map[string]*Term) *Term {
	b := p.textBuilder(side, tag, map[string]*Term{"x.name": mkSym("$x.name", nil), "x.position": mkInt(pos)}, map[string]int{"x.enumValues": 2})
	for k, v := range set {
		b.set[k] = v
	}
	return b.val("x", p.schemaType("Column"))
}

func otherNames(ns ...string) BDD {
	r := True
	for i := range ns {
		for j := 0; j < i; j++ {
			r = bAnd(r, bNot(eqBDD(mkSym("$"+ns[i], nil), mkSym("$"+ns[j], nil))))
		}
	}
	return r
}

// pair of tables with the given columns
func (p *Program) tablesWith(mode int, d, c map[string]*Term) ([]*Term, []*Term) {
	return []*Term{p.createTable("d", mode, d)}, []*Term{p.createTable("c", mode, c)}
}

func cols(ts ...*Term) map[string]*Term { return map[string]*Term{"columns": items(ts...)} }

func hasCheckClash(mode int, ch chosen) bool {
	if ch["no inherit"] == "no inherit" && ch["check"] == "" {
		return true // belongs to a check
	}
	if ch["array"] != "" && ch["timezone"] != "" {
		return true // no syntax the parser reads
	}
	if ch["null"] == "null" && (ch["key"] == "primary" || ch["identity"] != "" || ch["auto increment"] != "") {
		return true
	}
	return false
}

func without(ch chosen, groups ...string) chosen {
	o := chosen{}
	for k, v := range ch {
		o[k] = v
	}
	for _, g := range groups {
		o[g] = ""
	}
	return o
}

var textAddColumn = &textScene{
	name: "added column", modes: "mpsx", groups: columnGroups(), skip: hasCheckClash,
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		k := p.plainColumn("k.name", 0)
		d, c := p.tablesWith(m, cols(k, p.freeColumn("d", 1, 1, nil)), cols(k))
		return d, c, otherNames("k.name", "x.name")
	},
	want: func(m int, ch chosen) []string {
		var w []string
		verb := "ALTER TABLE " + T(m) + " ADD COLUMN "
		if m == 3 {
			verb = "ALTER TABLE " + T(m) + " ADD "
		}
		s := verb + wantColumn(m, "d.x", without(ch, "auto increment"), true)
		if m == 0 {
			s += " AFTER " + Q(m, "k.name")
		}
		w = append(w, s)
		if ch["key"] == "primary" {
			w = append(w, "ALTER TABLE "+T(m)+" ADD PRIMARY KEY"+clustered(m)+" ("+Q(m, "x.name")+")")
		}
		if ch["auto increment"] != "" {
			w = append(w, "ALTER TABLE "+T(m)+" CHANGE COLUMN "+Q(m, "x.name")+" "+wantColumn(m, "d.x", ch, false))
		}
		return w
	},
}

func clustered(m int) string {
	if m == 3 {
		return " CLUSTERED"
	}
	return ""
}

var textAddFirst = &textScene{
	name: "added first column", modes: "m", groups: columnGroups("type"),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, c := p.tablesWith(m, cols(p.freeColumn("d", 1, 0, nil), p.plainColumn("k.name", 1)), cols(p.plainColumn("k.name", 0)))
		return d, c, otherNames("k.name", "x.name")
	},
	want: func(m int, ch chosen) []string {
		return []string{"ALTER TABLE " + T(m) + " ADD COLUMN " + wantColumn(m, "d.x", ch, true) + " FIRST"}
	},
}

// A column whose type changes, with everything else about it the same (MySQL
// writes the whole definition again).
func changedColumn(dPos, cPos int64, set map[string]*Term) func(p *Program, m int) ([]*Term, []*Term, BDD) {
	return func(p *Program, m int) ([]*Term, []*Term, BDD) {
		k := p.plainColumn("k.name", 0)
		x := p.freeColumn("d", 1, 1, nil)
		y := p.freeColumn("d", 2, 1, set)
		d, c := p.tablesWith(m, cols(k, x), cols(k, y))
		care := otherNames("k.name", "x.name")
		// the column of the database: a key column is not nullable
		if t, ok := set["x.typeName"]; ok {
			care = bAll(care, bNot(eqBDD(t, mkSym("$d.x.typeName", nil))), bNot(strSet(t, typeWords...)))
		}
		return d, c, care
	}
}

func alter(m int, s string) string { return "ALTER TABLE " + T(m) + " " + s }
func alterColumn(m int, s string) string {
	return alter(m, "ALTER COLUMN "+Q(m, "x.name")+" "+s)
}
func change(m int, ch chosen) string {
	return alter(m, "CHANGE COLUMN "+Q(m, "x.name")+" "+wantColumn(m, "d.x", ch, false))
}

var otherType = map[string]*Term{"x.typeName": mkSym("$c.x.typeName", nil)}

func notNullClash(mode int, ch chosen) bool {
	return hasCheckClash(mode, ch) || ch["key"] == "primary" && ch["null"] != "not null"
}

var textChangeColumn = &textScene{
	name: "changed column", modes: "m", groups: columnGroups(), skip: notNullClash,
	build: changedColumn(1, 1, otherType),
	want:  func(m int, ch chosen) []string { return []string{change(m, ch)} },
}

// A column that moves: to the front, or behind another one.
var textMoveFirst = &textScene{
	name: "column moved to the front", modes: "m", groups: columnGroups(), skip: notNullClash,
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, c := p.tablesWith(m, cols(p.freeColumn("d", 1, 0, nil), p.plainColumn("k.name", 1)), cols(p.plainColumn("k.name", 0), p.freeColumn("d", 2, 1, nil)))
		return d, c, otherNames("k.name", "x.name")
	},
	want: func(m int, ch chosen) []string { return []string{change(m, ch) + " FIRST"} },
}
var textMoveAfter = &textScene{
	name: "column moved behind another", modes: "m", groups: columnGroups("type", "null", "default"), skip: notNullClash,
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, c := p.tablesWith(m, cols(p.plainColumn("k.name", 0), p.freeColumn("d", 1, 1, nil), p.plainColumn("l.name", 2)),
			cols(p.plainColumn("k.name", 0), p.plainColumn("l.name", 1), p.freeColumn("d", 2, 2, nil)))
		return d, c, otherNames("k.name", "l.name", "x.name")
	},
	want: func(m int, ch chosen) []string { return []string{change(m, ch) + " AFTER " + Q(m, "k.name")} },
}

func groupsBut(name string) []group {
	var ns []string
	for _, g := range columnGroups() {
		if g.name != name {
			ns = append(ns, g.name)
		}
	}
	return columnGroups(ns...)
}

// AUTO_INCREMENT comes and goes.
var textAddAuto = &textScene{
	name: "added auto increment", modes: "m", groups: groupsBut("auto increment"), skip: notNullClash,
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		k := p.plainColumn("k.name", 0)
		d, c := p.tablesWith(m, cols(k, p.freeColumn("d", 1, 1, map[string]*Term{"x.autoIncrement": tTrue})), cols(k, p.freeColumn("d", 2, 1, map[string]*Term{"x.autoIncrement": tFalse})))
		return d, c, otherNames("k.name", "x.name")
	},
	want: func(m int, ch chosen) []string {
		w := without(ch)
		w["auto increment"] = "auto increment"
		return []string{change(m, w)}
	},
}
var textDropAuto = &textScene{
	name: "removed auto increment", modes: "m", groups: groupsBut("auto increment"), skip: notNullClash,
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		k := p.plainColumn("k.name", 0)
		d, c := p.tablesWith(m, cols(k, p.freeColumn("d", 1, 1, map[string]*Term{"x.autoIncrement": tFalse})), cols(k, p.freeColumn("d", 2, 1, map[string]*Term{"x.autoIncrement": tTrue})))
		return d, c, otherNames("k.name", "x.name")
	},
	want: func(m int, ch chosen) []string { return []string{change(m, ch)} },
}
var textUniqueColumn = &textScene{
	name: "column made unique", modes: "m", groups: columnGroups("type", "null"),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		k := p.plainColumn("k.name", 0)
		d, c := p.tablesWith(m, cols(k, p.freeColumn("d", 1, 1, map[string]*Term{"x.keyOption": mkInt(keyUnique)})), cols(k, p.freeColumn("d", 2, 1, map[string]*Term{"x.keyOption": mkInt(0)})))
		return d, c, otherNames("k.name", "x.name")
	},
	want: func(m int, ch chosen) []string {
		return []string{alter(m, "ADD UNIQUE KEY "+Q(m, "x.name")+"("+Q(m, "x.name")+")")}
	},
}

// ---- columns of Postgres, changed part by part

var textType = &textScene{
	name: "changed type", modes: "p", groups: columnGroups("type", "array", "timezone", "null", "default", "check", "key"), skip: notNullClash,
	build: changedColumn(1, 1, otherType),
	want: func(m int, ch chosen) []string {
		t := wantType("d.x", ch)
		if ch["timezone"] != "" {
			t += " WITH TIME ZONE"
		}
		return []string{alterColumn(m, "TYPE "+t)}
	},
}

func only(path string, v *Term) func(p *Program, m int) ([]*Term, []*Term, BDD) {
	return changedColumn(1, 1, map[string]*Term{path: v})
}

var textNull = &textScene{
	name: "changed nullability", modes: "p", groups: columnGroups("type", "null", "default", "identity"),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		// the opposite of what is desired
		d, c, care := changedColumn(1, 1, map[string]*Term{"x.notNull": mkPtr(mkIte(bAnd(toBDD(condSym("d.has:x.notNull")), toBDD(condSym("d.x.notNull"))), tFalse, tTrue), types.Typ[types.Bool])})(p, m)
		return d, c, care
	},
	want: func(m int, ch chosen) []string {
		if ch["null"] == "not null" {
			return []string{alterColumn(m, "SET NOT NULL")}
		}
		return []string{alterColumn(m, "DROP NOT NULL")}
	},
}

var textAddIdentity = &textScene{
	name: "added identity", modes: "p", groups: columnGroups("type", "identity"),
	build: only("x.identity", tNil),
	skip:  func(m int, ch chosen) bool { return ch["identity"] == "" },
	want: func(m int, ch chosen) []string {
		s := "ADD GENERATED " + U("d.x.identity.behavior") + " AS IDENTITY"
		if ch["identity"] == "identity with sequence" {
			s += " (START WITH " + U("d.x.sequence.StartWith") + " INCREMENT BY " + U("d.x.sequence.IncrementBy") + ")"
		}
		return []string{alterColumn(m, s)}
	},
}

func ptrTo(p *Program, typ string, fields map[string]*Term) *Term {
	t := p.schemaType(typ)
	return mkApp("&", types.NewPointer(t), structOf(t, fields), mkInt(2))
}

var textSetIdentity = &textScene{
	name: "changed identity", modes: "p", groups: columnGroups("type", "identity"),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		b := mkSym("$c.x.identity.behavior", nil)
		d, c, care := only("x.identity", ptrTo(p, "Identity", map[string]*Term{"behavior": b}))(p, m)
		return d, c, bAll(care, bNot(eqBDD(b, mkSym("$d.x.identity.behavior", nil))))
	},
	skip: func(m int, ch chosen) bool { return ch["identity"] == "" },
	want: func(m int, ch chosen) []string {
		return []string{alterColumn(m, "SET GENERATED "+U("d.x.identity.behavior"))}
	},
}
var textDropIdentity = &textScene{
	name: "removed identity", modes: "p", groups: columnGroups("type", "default"),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		return only("x.identity", ptrTo(p, "Identity", map[string]*Term{"behavior": mkSym("$c.x.identity.behavior", nil)}))(p, m)
	},
	want: func(m int, ch chosen) []string { return []string{alterColumn(m, "DROP IDENTITY IF EXISTS")} },
}

// another default: a text
func otherDefault(p *Program, name string) *Term {
	v := ptrTo(p, "Value", map[string]*Term{"valueType": mkInt(0), "raw": mkSym("$c.x.default", nil), "strVal": mkSym("$c.x.default", nil)})
	return ptrTo(p, "DefaultDefinition", map[string]*Term{"value": v, "constraintName": mkSym("$"+name, nil)})
}

func defaultChanged(add bool) func(p *Program, m int) ([]*Term, []*Term, BDD) {
	return func(p *Program, m int) ([]*Term, []*Term, BDD) {
		o := tNil
		if !add {
			o = otherDefault(p, "c.x.default.name")
		}
		d, c, care := only("x.defaultDef", o)(p, m)
		if !add {
			care = bAll(care, bNot(eqBDD(mkSym("$c.x.default", nil), mkSym("$d.x.defaultDef.value.raw", nil))),
				// a number with further zeros is the same number
				bNot(prefixBDD(mkSym("$c.x.default", nil), "$")))
		}
		return d, c, care
	}
}

// mssql: the default may have a name
func defaultGroups() []group {
	return columnGroups("type", "null", "default", "default name")
}

func wantSetDefault(m int, ch chosen) string {
	d := wantDefault(m, "d.x", ch)
	if m == 1 {
		return alterColumn(m, "SET "+d)
	}
	if ch["default name"] != "" {
		return alter(m, "ADD CONSTRAINT "+Q(m, "d.x.defaultDef.constraintName")+" "+d+" FOR "+Q(m, "x.name"))
	}
	return alter(m, "ADD "+d+" FOR "+Q(m, "x.name"))
}

var textAddDefault = &textScene{
	name: "added default", modes: "px", groups: defaultGroups(), build: defaultChanged(true),
	skip: func(m int, ch chosen) bool { return ch["default"] == "" },
	want: func(m int, ch chosen) []string { return []string{wantSetDefault(m, ch)} },
}
var textChangeDefault = &textScene{
	name: "changed default", modes: "px", groups: defaultGroups(), build: defaultChanged(false),
	skip: func(m int, ch chosen) bool { return ch["default"] == "" || ch["default"] == "float default" },
	want: func(m int, ch chosen) []string {
		if m == 1 {
			return []string{wantSetDefault(m, ch)}
		}
		return []string{alter(m, "DROP CONSTRAINT "+Q(m, "c.x.default.name")), wantSetDefault(m, ch)}
	},
}
var textDropDefault = &textScene{
	name: "removed default", modes: "px", groups: columnGroups("type", "null"), build: defaultChanged(false),
	want: func(m int, ch chosen) []string {
		if m == 1 {
			return []string{alterColumn(m, "DROP DEFAULT")}
		}
		return []string{alter(m, "DROP CONSTRAINT "+Q(m, "c.x.default.name"))}
	},
}

// checks: the name of the constraint is the table's and the column's
func checkName(m int) string {
	return openQuote[m] + "tbl_‹x.name×" + closeQuote[m] + "›_check" + closeQuote[m]
}

func otherCheck(p *Program) *Term {
	return ptrTo(p, "CheckDefinition", map[string]*Term{"definition": mkSym("$c.x.check.definition", nil), "constraintName": mkSym("$c.x.check.constraintName", nil)})
}
func checkChanged(add bool) func(p *Program, m int) ([]*Term, []*Term, BDD) {
	return func(p *Program, m int) ([]*Term, []*Term, BDD) {
		o := tNil
		if !add {
			o = otherCheck(p)
		}
		d, c, care := changedColumn(1, 1, map[string]*Term{"x.check": o, "x.checkNoInherit": tFalse})(p, m)
		return d, c, bAll(care, bNot(eqBDD(mkSym("$c.x.check.definition", nil), mkSym("$d.x.check.definition", nil))))
	}
}
func checkGroups() []group {
	return columnGroups("type", "default", "check", "check name", "no inherit")
}
func wantAddCheck(m int, ch chosen) string {
	n := checkName(m)
	if ch["check name"] != "" {
		n = Q(m, "d.x.check.constraintName")
	}
	s := "ADD CONSTRAINT " + n + " CHECK "
	if ch["check"] == "check not for replication" {
		s += "NOT FOR REPLICATION "
	}
	s += "(" + U("d.x.check.definition") + ")"
	if ch["no inherit"] != "" {
		s += " NO INHERIT"
	}
	return alter(m, s)
}
func wantDropCheck(m int) string {
	n := checkName(m)
	if m == 3 {
		n = Q(m, "c.x.check.constraintName")
	}
	return alter(m, "DROP CONSTRAINT "+n)
}

var textAddCheck = &textScene{
	name: "added check", modes: "px", groups: checkGroups(), build: checkChanged(true),
	skip: func(m int, ch chosen) bool { return ch["check"] == "" },
	want: func(m int, ch chosen) []string { return []string{wantAddCheck(m, ch)} },
}
var textChangeCheck = &textScene{
	name: "changed check", modes: "px", groups: checkGroups(), build: checkChanged(false),
	skip: func(m int, ch chosen) bool { return ch["check"] == "" },
	want: func(m int, ch chosen) []string { return []string{wantDropCheck(m), wantAddCheck(m, ch)} },
}
var textDropCheck = &textScene{
	name: "removed check", modes: "px", groups: columnGroups("type", "default"), build: checkChanged(false),
	want: func(m int, ch chosen) []string { return []string{wantDropCheck(m)} },
}

// ---- identity of SQL Server: the column is made anew

var textMssqlIdentity = &textScene{
	name: "added identity column", modes: "x", groups: columnGroups(), build: only("x.identity", tNil),
	skip: func(m int, ch chosen) bool { return ch["identity"] == "" || hasCheckClash(m, ch) },
	want: func(m int, ch chosen) []string { return []string{alter(m, "ADD "+wantColumn(m, "d.x", ch, true))} },
}
var textMssqlChangeIdentity = &textScene{
	name: "changed identity column", modes: "x", groups: columnGroups("type", "null", "identity"),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		return only("x.identity", ptrTo(p, "Identity", map[string]*Term{"behavior": mkStrC(""), "notForReplication": fromBDD(bNot(toBDD(condSym("d.x.identity.notForReplication"))))}))(p, m)
	},
	skip: func(m int, ch chosen) bool { return ch["identity"] == "" || hasCheckClash(m, ch) },
	want: func(m int, ch chosen) []string {
		return []string{alter(m, "DROP COLUMN "+Q(m, "x.name")), alter(m, "ADD "+wantColumn(m, "d.x", ch, true))}
	},
}

// ---- sequences

func sequenceGroups() []group {
	gs := columnGroups()
	for i := range gs {
		gs[i].alts = gs[i].alts[:1]
		if gs[i].name == "identity" {
			gs[i].alts = []alt{{"identity with sequence", "", "d.has:x.identity d.x.identity.behavior!='' !d.x.identity.notForReplication d.has:x.sequence"}}
		}
	}
	gs = append(gs, group{"sequence name", []alt{{"", "", "d.x.sequence.Name=''"}, {"sequence name", "", "d.x.sequence.Name!=''"}}})
	for _, n := range []string{"StartWith", "IncrementBy", "MinValue", "MaxValue", "Cache"} {
		gs = append(gs, group{n, []alt{{"", "", "!d.has:x.sequence." + n}, {n, "", "d.has:x.sequence." + n}}})
	}
	for _, n := range []string{"NoMinValue", "NoMaxValue", "Cycle", "NoCycle"} {
		gs = append(gs, group{n, []alt{{"", "", "!d.x.sequence." + n}, {n, "", "d.x.sequence." + n}}})
	}
	return gs
}

var textSequence = &textScene{
	name: "sequence of an identity", modes: "p", groups: sequenceGroups(), build: only("x.identity", tNil),
	want: func(m int, ch chosen) []string {
		var w []string
		for _, q := range [][2]string{{"sequence name", "SEQUENCE NAME ‹d.x.sequence.Name›"}, {"StartWith", "START WITH ‹d.x.sequence.StartWith›"}, {"IncrementBy", "INCREMENT BY ‹d.x.sequence.IncrementBy›"},
			{"MinValue", "MINVALUE ‹d.x.sequence.MinValue›"}, {"NoMinValue", "NO MINVALUE"}, {"MaxValue", "MAXVALUE ‹d.x.sequence.MaxValue›"}, {"NoMaxValue", "NO MAXVALUE"},
			{"Cache", "CACHE ‹d.x.sequence.Cache›"}, {"Cycle", "CYCLE"}, {"NoCycle", "NO CYCLE"}} {
			if ch[q[0]] != "" {
				w = append(w, q[1])
			}
		}
		return []string{alterColumn(m, "ADD GENERATED "+U("d.x.identity.behavior")+" AS IDENTITY ("+strings.Join(w, " ")+")")}
	},
}

// ---- indexes

func indexGroups(primary bool) []group {
	gs := []group{
		{"unique", []alt{{"", "", "!d.x.unique"}, {"unique", "", "d.x.unique"}}},
		{"clustered", []alt{{"", "", "!d.x.clustered"}, {"clustered", "x", "d.x.clustered"}}},
		{"length", []alt{{"", "", "!d.has:x.columns[0].length !d.has:x.columns[1].length"}, {"first length", "m", "d.has:x.columns[0].length !d.has:x.columns[1].length"}, {"lengths", "m", "d.has:x.columns[0].length d.has:x.columns[1].length"}}},
		{"direction", []alt{{"", "", "d.x.columns[0].direction='' d.x.columns[1].direction=''"}, {"ascending", "", "d.x.columns[0].direction='asc' d.x.columns[1].direction='asc'"},
			{"first descending", "mx", "d.x.columns[0].direction='desc' d.x.columns[1].direction='asc'"}, {"second descending", "mx", "d.x.columns[0].direction='asc' d.x.columns[1].direction='desc'"}}},
		{"partition", []alt{{"", "", "d.x.partition.partitionName=''"}, {"filegroup", "x", "d.x.partition.partitionName!='' d.x.partition.column=''"}, {"partition", "x", "d.x.partition.partitionName!='' d.x.partition.column!=''"}}},
	}
	if primary {
		gs[0].alts = []alt{{"unique", "", "d.x.unique"}}
		gs[4].alts = gs[4].alts[:1]
	}
	return gs
}

func wantIndexColumns(m int, ch chosen) string {
	c0, c1 := Q(m, "d.x.columns[0].column"), Q(m, "d.x.columns[1].column")
	if ch["length"] != "" {
		c0 += "(" + U("d.x.columns[0].length") + ")"
	}
	if ch["length"] == "lengths" {
		c1 += "(" + U("d.x.columns[1].length") + ")"
	}
	switch ch["direction"] {
	case "first descending":
		c0 += " DESC"
	case "second descending":
		c1 += " DESC"
	}
	return "(" + c0 + ", " + c1 + ")"
}

func wantClustered(ch chosen) string {
	if ch["clustered"] != "" {
		return " CLUSTERED"
	}
	return " NONCLUSTERED"
}

func wantOptions(m int, ch chosen) string {
	switch m {
	case 0:
		return map[string]string{"": "", "block size": " key_block_size ‹d.o.value.raw›", "comment": " comment '‹d.o.value.raw×'×\\›'", "parser": " WITH parser ‹d.o.value.raw›", "method": " USING ‹d.o.value.raw›",
			"two": " USING ‹d.o.value.raw› comment '‹d.q.value.raw×'×\\›'"}[ch["options"]]
	case 3:
		n := U("d.o.optionName")
		return map[string]string{"": "", "number": " WITH (" + n + " = ‹d.o.value.raw›)", "on": " WITH (" + n + " = ON)", "off": " WITH (" + n + " = OFF)",
			"two": " WITH (" + n + " = ‹d.o.value.raw›, ‹d.q.optionName› = ‹d.q.value.raw›)"}[ch["options"]]
	}
	return ""
}

// wantIndex is the statement that adds an index listed in a table.
func wantIndex(m int, ch chosen) string {
	if m == 3 {
		u := ""
		if ch["unique"] != "" {
			u = " UNIQUE"
		}
		part := map[string]string{"": "", "filegroup": " ON " + Q(m, "d.x.partition.partitionName"), "partition": " ON " + Q(m, "d.x.partition.partitionName") + " (" + Q(m, "d.x.partition.column") + ")"}[ch["partition"]]
		return "CREATE" + u + wantClustered(ch) + " INDEX " + Q(m, "x.name") + " ON " + T(m) + " " + wantIndexColumns(m, ch) + wantOptions(m, ch) + part
	}
	return alter(m, "ADD "+U("d.x.indexType")+" "+Q(m, "x.name")+" "+wantIndexColumns(m, ch)+wantOptions(m, ch))
}

func wantDropIndex(m int) string {
	switch m {
	case 0:
		return alter(m, "DROP INDEX "+Q(m, "x.name"))
	case 3:
		return "DROP INDEX " + Q(m, "x.name") + " ON " + T(m)
	}
	return "DROP INDEX " + Q(m, "x.name")
}

// options: none, one of each kind, two
func optionGroup(p *Program, m int) (func(name string) *Term, []string) {
	t := p.schemaType("IndexOption")
	opt := func(o string, name *Term, kind int64, raw *Term) *Term {
		b := p.textBuilder("d", 5, map[string]*Term{}, nil)
		b.set[o+".optionName"] = name
		b.set[o+".value.valueType"] = mkInt(kind)
		if raw != nil {
			b.set[o+".value.raw"] = raw
		}
		v := b.val(o, t)
		return substTerm(v, map[*Term]*Term{condSym("d.has:" + o + ".value"): tTrue})
	}
	if m == 0 {
		return func(n string) *Term {
			switch n {
			case "block size":
				return items(opt("o", mkStrC("key_block_size"), 1, nil))
			case "comment":
				return items(opt("o", mkStrC("comment"), 0, nil))
			case "parser":
				return items(opt("o", mkStrC("parser"), 0, nil))
			case "method":
				return items(opt("o", mkStrC("using"), 5, nil))
			case "two":
				return items(opt("o", mkStrC("using"), 5, nil), opt("q", mkStrC("comment"), 0, nil))
			}
			return tEmptyList
		}, []string{"", "block size", "comment", "parser", "method", "two"}
	}
	if m == 3 {
		return func(n string) *Term {
			nm := mkSym("$d.o.optionName", nil)
			switch n {
			case "number":
				return items(opt("o", nm, 1, nil))
			case "on":
				return items(opt("o", nm, 7, mkStrC("true")))
			case "off":
				return items(opt("o", nm, 7, mkStrC("false")))
			case "two":
				return items(opt("o", nm, 1, nil), opt("q", mkSym("$d.q.optionName", nil), 1, nil))
			}
			return tEmptyList
		}, []string{"", "number", "on", "off", "two"}
	}
	return func(string) *Term { return tEmptyList }, []string{""}
}

// freeIndex is an index of two columns.
func (p *Program) freeIndex(side string, tag int64, primary bool, options *Term, set map[string]*Term) *Term {
	pr := tFalse
	if primary {
		pr = tTrue
	}
	b := p.textBuilder(side, tag, map[string]*Term{"x.name": mkSym("$x.name", nil), "x.primary": pr, "x.where": mkStrC(""), "x.included": tEmptyList, "x.options": options}, map[string]int{"x.columns": 2})
	for k, v := range set {
		b.set[k] = v
	}
	return b.val("x", p.schemaType("Index"))
}

// indexScenes: added, replaced and removed, per set of options.
func indexScenes() []*textScene {
	var out []*textScene
	for _, m := range []int{0, 3} {
		m := m
		_, names := optionNames(m)
		for _, n := range names {
			n := n
			label := ""
			if n != "" {
				label = " with option " + n
			}
			with := func(ch chosen) chosen {
				c := without(ch)
				c["options"] = n
				return c
			}
			mk := func(cur func(p *Program) *Term) func(p *Program, m int) ([]*Term, []*Term, BDD) {
				return func(p *Program, m int) ([]*Term, []*Term, BDD) {
					f, _ := optionGroup(p, m)
					d, c := cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0))
					d["indexes"] = items(p.freeIndex("d", 1, false, f(n), nil))
					care := True
					if cur != nil {
						c["indexes"] = items(cur(p))
						care = bNot(eqBDD(mkSym("$c.y.column", nil), mkSym("$d.x.columns[0].column", nil)))
					}
					a, b := p.tablesWith(m, d, c)
					return a, b, care
				}
			}
			out = append(out, &textScene{name: "added index" + label, modes: modeLetters[m : m+1], groups: indexGroups(false), build: mk(nil),
				want: func(m int, ch chosen) []string { return []string{wantIndex(m, with(ch))} }})
			out = append(out, &textScene{name: "changed index" + label, modes: modeLetters[m : m+1], groups: indexGroups(false),
				build: mk(func(p *Program) *Term {
					ic := structOf(p.schemaType("IndexColumn"), map[string]*Term{"column": mkSym("$c.y.column", nil)})
					return p.freeIndex("d", 2, false, tEmptyList, map[string]*Term{"x.columns": items(ic)})
				}),
				want: func(m int, ch chosen) []string { return []string{wantDropIndex(m), wantIndex(m, with(ch))} }})
		}
	}
	return out
}

func optionNames(m int) (int, []string) {
	if m == 0 {
		return m, []string{"", "block size", "comment", "parser", "method", "two"}
	}
	return m, []string{"", "number", "on", "off", "two"}
}

// An index made by a statement: the statement itself.
var textCreateIndex = &textScene{
	name: "index by statement", modes: "mpsx", groups: indexGroups(false),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, c := p.tablesWith(m, cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0)))
		d = append(d, p.indexStatement(m, "CreateIndex", p.freeIndex("d", 1, false, tEmptyList, nil)))
		return d, c, True
	},
	want: func(m int, ch chosen) []string { return []string{U("d.index.statement")} },
}
var textReplaceIndex = &textScene{
	name: "changed index by statement", modes: "mpsx", groups: indexGroups(false),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, c := p.tablesWith(m, cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0)))
		ic := structOf(p.schemaType("IndexColumn"), map[string]*Term{"column": mkSym("$c.y.column", nil)})
		d = append(d, p.indexStatement(m, "CreateIndex", p.freeIndex("d", 1, false, tEmptyList, nil)))
		c = append(c, p.indexStatement(m, "CreateIndex", p.freeIndex("d", 2, false, tEmptyList, map[string]*Term{"x.columns": items(ic)})))
		return d, c, bNot(eqBDD(mkSym("$c.y.column", nil), mkSym("$d.x.columns[0].column", nil)))
	},
	want: func(m int, ch chosen) []string { return []string{wantDropIndex(m), U("d.index.statement")} },
}

func (p *Program) indexStatement(m int, kind string, ix *Term) *Term {
	return p.stmtTerm(kind, map[string]*Term{"statement": mkSym("$d.index.statement", nil), "tableName": mkStrC(tableName(m)), "index": ix})
}

var textDropIndex = &textScene{
	name: "removed index", modes: "mpsx", groups: indexGroups(false),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, c := p.tablesWith(m, cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0)))
		c = append(c, p.indexStatement(m, "CreateIndex", p.freeIndex("d", 2, false, tEmptyList, nil)))
		return d, c, True
	},
	want: func(m int, ch chosen) []string { return []string{wantDropIndex(m)} },
}

// ---- primary keys

func primaryGroups() []group {
	gs := indexGroups(true)
	return append(gs, group{"name", []alt{{"named", "", "x.name!='' x.name!=PRIMARY"}, {"unnamed", "", "x.name='PRIMARY'"}}})
}

func wantPrimary(m int, ch chosen) string {
	s := "ADD "
	if m == 3 {
		if ch["name"] == "named" {
			s += "CONSTRAINT " + Q(m, "x.name") + " "
		}
		return alter(m, s+U("d.x.indexType")+wantClustered(ch)+" "+wantIndexColumns(m, ch))
	}
	return alter(m, s+U("d.x.indexType")+" "+wantIndexColumns(m, ch))
}

var textAddPrimary = &textScene{
	name: "added primary key", modes: "mpx", groups: primaryGroups(),
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, c := cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0))
		d["indexes"] = items(p.freeIndex("d", 1, true, tEmptyList, nil))
		a, b := p.tablesWith(m, d, c)
		return a, b, True
	},
	want: func(m int, ch chosen) []string { return []string{wantPrimary(m, ch)} },
}

// changedPrimary: the database has its own name for the key, or the same one.
func changedPrimary(same bool) func(p *Program, m int) ([]*Term, []*Term, BDD) {
	return func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, c := cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0))
		ic := structOf(p.schemaType("IndexColumn"), map[string]*Term{"column": mkSym("$c.y.column", nil)})
		d["indexes"] = items(p.freeIndex("d", 1, true, tEmptyList, nil))
		care := bNot(eqBDD(mkSym("$c.y.column", nil), mkSym("$d.x.columns[0].column", nil)))
		n := mkStrC("PRIMARY")
		switch {
		case same:
			n = mkSym("$x.name", nil)
		case m == 3:
			n = mkSym("$c.y.name", nil)
			care = bAnd(care, bNot(eqBDD(n, mkSym("$x.name", nil))))
		}
		c["indexes"] = items(p.freeIndex("d", 2, true, tEmptyList, map[string]*Term{"x.name": n, "x.columns": items(ic)}))
		a, b := p.tablesWith(m, d, c)
		return a, b, care
	}
}

func wantChangedPrimary(name string) func(m int, ch chosen) []string {
	return func(m int, ch chosen) []string {
		drop := alter(m, "DROP PRIMARY KEY")
		switch m {
		case 1:
			drop = alter(m, `DROP CONSTRAINT "tbl_pkey"`)
		case 3:
			drop = alter(m, "DROP CONSTRAINT "+Q(m, name))
		}
		return []string{drop, wantPrimary(m, ch)}
	}
}

var textChangePrimary = &textScene{name: "changed primary key", modes: "mpx", groups: primaryGroups(), build: changedPrimary(false), want: wantChangedPrimary("c.y.name")}
var textRedefinePrimary = &textScene{name: "changed primary key of the same name", modes: "mpx", groups: primaryGroups(), build: changedPrimary(true),
	skip: func(m int, ch chosen) bool { return ch["name"] != "named" }, want: wantChangedPrimary("x.name")}

// ---- foreign keys

var fkGroups = []group{
	{"index name", []alt{{"", "", "d.x.indexName=''"}, {"index name", "m", "d.x.indexName!=''"}}},
	{"on delete", []alt{{"", "", "d.x.onDelete=''"}, {"on delete", "", "d.x.onDelete!=''"}}},
	{"on update", []alt{{"", "", "d.x.onUpdate=''"}, {"on update", "", "d.x.onUpdate!=''"}}},
	{"not for replication", []alt{{"", "", "!d.x.notForReplication"}, {"not for replication", "x", "d.x.notForReplication"}}},
}

func wantForeignKey(m int, ch chosen) string {
	s := "ADD CONSTRAINT " + Q(m, "x.name") + " FOREIGN KEY "
	if ch["index name"] != "" {
		s += Q(m, "d.x.indexName") + " "
	}
	s += "(" + Q(m, "d.x.indexColumns[0]") + "," + Q(m, "d.x.indexColumns[1]") + ") REFERENCES " + Q(m, "d.x.referenceName") + " (" + Q(m, "d.x.referenceColumns[0]") + "," + Q(m, "d.x.referenceColumns[1]") + ")"
	if ch["on delete"] != "" {
		s += " ON DELETE " + U("d.x.onDelete")
	}
	if ch["on update"] != "" {
		s += " ON UPDATE " + U("d.x.onUpdate")
	}
	if ch["not for replication"] != "" {
		s += " NOT FOR REPLICATION"
	}
	return alter(m, s)
}

func wantDropForeignKey(m int) string {
	if m == 0 {
		return alter(m, "DROP FOREIGN KEY "+Q(m, "x.name"))
	}
	return alter(m, "DROP CONSTRAINT "+Q(m, "x.name"))
}

func (p *Program) freeForeignKey(side string, tag int64, set map[string]*Term) *Term {
	b := p.textBuilder(side, tag, map[string]*Term{"x.constraintName": mkSym("$x.name", nil)}, map[string]int{"x.indexColumns": 2, "x.referenceColumns": 2})
	for k, v := range set {
		b.set[k] = v
	}
	return b.val("x", p.schemaType("ForeignKey"))
}

func fkScene(name string, d, c bool, want func(m int, ch chosen) []string) *textScene {
	return &textScene{name: name, modes: "mpx", groups: fkGroups, want: want,
		build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
			df, cf := cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0))
			care := bAnd(bNot(strSet(mkSym("$x.name", nil), "")), bNot(strSet(mkSym("$d.x.referenceName", nil), "")))
			if d {
				df["foreignKeys"] = items(p.freeForeignKey("d", 1, nil))
			}
			if c {
				o := mkSym("$c.x.onDelete", nil)
				cf["foreignKeys"] = items(p.freeForeignKey("d", 2, map[string]*Term{"x.onDelete": o}))
				care = bAll(care, bNot(eqBDD(o, mkSym("$d.x.onDelete", nil))), bNot(strSet(o, "", "NO ACTION")))
			}
			a, b := p.tablesWith(m, df, cf)
			return a, b, care
		}}
}

var textAddFK = fkScene("added foreign key", true, false, func(m int, ch chosen) []string { return []string{wantForeignKey(m, ch)} })
var textChangeFK = fkScene("changed foreign key", true, true, func(m int, ch chosen) []string {
	return []string{wantDropForeignKey(m), wantForeignKey(m, ch)}
})
var textDropFK = fkScene("removed foreign key", false, true, func(m int, ch chosen) []string { return []string{wantDropForeignKey(m)} })

// foreign keys that are statements of their own
func fkStatementScene(name string, d, c, same bool, want func(m int, ch chosen) []string) *textScene {
	return &textScene{name: name, modes: "mpx", groups: fkGroups, want: want,
		build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
			a, b := p.tablesWith(m, cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0)))
			care := bAnd(bNot(strSet(mkSym("$x.name", nil), "")), bNot(strSet(mkSym("$d.x.referenceName", nil), "")))
			stmt := func(side string, fk *Term) *Term {
				return p.stmtTerm("AddForeignKey", map[string]*Term{"statement": mkSym("$"+side+".key.statement", nil), "tableName": mkStrC(tableName(m)), "foreignKey": fk})
			}
			if d {
				a = append(a, stmt("d", p.freeForeignKey("d", 1, nil)))
			}
			if c && same {
				b = append(b, stmt("c", p.freeForeignKey("d", 2, nil)))
			} else if c {
				o := mkSym("$c.x.onDelete", nil)
				b = append(b, stmt("c", p.freeForeignKey("d", 2, map[string]*Term{"x.onDelete": o})))
				care = bAll(care, bNot(eqBDD(o, mkSym("$d.x.onDelete", nil))), bNot(strSet(o, "", "NO ACTION")))
			}
			return a, b, care
		}}
}

var textAddFKStatement = fkStatementScene("added foreign key statement", true, false, false, func(m int, ch chosen) []string { return []string{U("d.key.statement")} })
var textChangeFKStatement = fkStatementScene("changed foreign key statement", true, true, false, func(m int, ch chosen) []string {
	return []string{wantDropForeignKey(m), U("d.key.statement")}
})
var textDropFKStatement = fkStatementScene("removed foreign key statement", false, true, false, func(m int, ch chosen) []string { return []string{wantDropForeignKey(m)} })
var textSameFKStatement = fkStatementScene("unchanged foreign key statement", true, true, true, func(m int, ch chosen) []string { return nil })

// ---- tables and columns that go

var textDropTable = &textScene{
	name: "removed table", modes: "mpsx",
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		_, c := p.tablesWith(m, cols(), cols(p.freeColumn("c", 1, 0, nil)))
		return nil, c, True
	},
	want: func(m int, ch chosen) []string { return []string{"DROP TABLE " + T(m)} },
}
var textAddTable = &textScene{
	name: "added table", modes: "mpsx",
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		d, _ := p.tablesWith(m, cols(p.freeColumn("c", 1, 0, nil)), cols())
		return d, nil, True
	},
	want: func(m int, ch chosen) []string { return []string{U("d.statement")} },
}
var textDropColumn = &textScene{
	name: "removed column", modes: "mpsx",
	groups: []group{{"default", []alt{{"", "", "!c.has:x.defaultDef !c.x.autoIncrement"}, {"default", "", "c.has:x.defaultDef c.x.defaultDef.constraintName='' !c.x.autoIncrement"}, {"named default", "x", "c.has:x.defaultDef c.x.defaultDef.constraintName!='' !c.x.autoIncrement"}}},
		{"check", []alt{{"", "", "!c.has:x.check"}, {"check", "", "c.has:x.check c.x.check.constraintName=''"}, {"named check", "x", "c.has:x.check c.x.check.constraintName!=''"}}},
		{"key", []alt{{"", "", "c.x.keyOption=0"}, {"unique", "m", "c.x.keyOption=3"}}}},
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		k := p.plainColumn("k.name", 0)
		d, c := p.tablesWith(m, cols(k), cols(k, p.freeColumn("c", 1, 1, nil)))
		return d, c, otherNames("k.name", "x.name")
	},
	want: func(m int, ch chosen) []string {
		var w []string
		if ch["default"] == "named default" {
			w = append(w, alter(m, "DROP CONSTRAINT "+Q(m, "c.x.defaultDef.constraintName")))
		}
		if ch["check"] == "named check" {
			w = append(w, alter(m, "DROP CONSTRAINT "+Q(m, "c.x.check.constraintName")))
		}
		return append(w, alter(m, "DROP COLUMN "+Q(m, "x.name")))
	},
}

// ---- views, triggers, policies

func (p *Program) viewStmt(side string) *Term {
	return p.stmtTerm("View", map[string]*Term{"statement": mkSym("$"+side+".statement", nil), "name": mkStrC("vw"), "definition": mkSym("$"+side+".definition", nil)})
}
func viewName(m int) string {
	switch m {
	case 1:
		return `"public"."vw"`
	case 3:
		return "[dbo].[vw]"
	}
	return "`vw`"
}

var textAddView = &textScene{
	name: "added view", modes: "mpsx",
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) { return []*Term{p.viewStmt("d")}, nil, True },
	want:  func(m int, ch chosen) []string { return []string{U("d.statement")} },
}
var textChangeView = &textScene{
	name: "changed view", modes: "mpsx",
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		return []*Term{p.viewStmt("d")}, []*Term{p.viewStmt("c")}, bNot(eqBDD(lower(mkSym("$d.definition", nil)), lower(mkSym("$c.definition", nil))))
	},
	want: func(m int, ch chosen) []string {
		if m == 2 || m == 3 {
			return []string{"DROP VIEW " + viewName(m), "CREATE VIEW " + viewName(m) + " AS " + U("d.definition")}
		}
		return []string{"CREATE OR REPLACE VIEW " + viewName(m) + " AS " + U("d.definition")}
	},
}
var textDropView = &textScene{
	name: "removed view", modes: "mpsx",
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) { return nil, []*Term{p.viewStmt("c")}, True },
	want:  func(m int, ch chosen) []string { return []string{"DROP VIEW " + viewName(m)} },
}

func (p *Program) freeTrigger(side string) *Term {
	t := p.schemaType("Trigger")
	pt := types.NewPointer(t)
	b := p.textBuilder(side, 1, map[string]*Term{"x.name": mkSym("$x.name", nil), "x.tableName": mkStrC("tbl")}, map[string]int{"x.body": 2})
	return mkIface(mkApp("&", pt, b.val("x", t)), pt)
}
func wantTrigger(m int) string {
	body := U("d.x.body[0]") + " " + U("d.x.body[1]")
	if m == 3 {
		return "TRIGGER " + Q(m, "x.name") + " ON [dbo].[tbl] " + U("d.x.time") + " " + U("d.x.event") + " AS " + body
	}
	return "TRIGGER " + Q(m, "x.name") + " " + U("d.x.time") + " " + U("d.x.event") + " ON " + T(m) + " FOR EACH ROW " + body
}

var textAddTrigger = &textScene{
	name: "added trigger", modes: "mx",
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) { return []*Term{p.freeTrigger("d")}, nil, True },
	want:  func(m int, ch chosen) []string { return []string{"CREATE " + wantTrigger(m)} },
}
var textChangeTrigger = &textScene{
	name: "changed trigger", modes: "mx",
	build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
		return []*Term{p.freeTrigger("d")}, []*Term{p.freeTrigger("c")}, bNot(eqBDD(mkSym("$d.x.time", nil), mkSym("$c.x.time", nil)))
	},
	want: func(m int, ch chosen) []string {
		if m == 3 {
			return []string{"CREATE OR ALTER " + wantTrigger(m)}
		}
		return []string{"DROP TRIGGER " + Q(m, "x.name"), "CREATE " + wantTrigger(m)}
	},
}

func (p *Program) policyStmt(m int, side, scope string) *Term {
	b := p.textBuilder(side, 1, map[string]*Term{"x.name": mkSym("$x.name", nil), "x.scope": mkStrC(scope), "x.permissive": mkStrC("permissive"), "x.using": mkStrC("u"), "x.withCheck": mkStrC("w"), "x.roles": items(mkStrC("r"))}, nil)
	return p.stmtTerm("AddPolicy", map[string]*Term{"statement": mkSym("$"+side+".policy.statement", nil), "tableName": mkStrC(tableName(m)), "policy": b.val("x", p.schemaType("Policy"))})
}
func policyScene(name string, d, c bool, want func(m int) []string) *textScene {
	return &textScene{name: name, modes: "p", want: func(m int, ch chosen) []string { return want(m) },
		build: func(p *Program, m int) ([]*Term, []*Term, BDD) {
			a, b := p.tablesWith(m, cols(p.plainColumn("k.name", 0)), cols(p.plainColumn("k.name", 0)))
			if d {
				a = append(a, p.policyStmt(m, "d", "all"))
			}
			if c {
				b = append(b, p.policyStmt(m, "c", "select"))
			}
			return a, b, True
		}}
}
func wantDropPolicy(m int) string { return "DROP POLICY " + Q(m, "x.name") + " ON " + T(m) }

var textAddPolicy = policyScene("added policy", true, false, func(m int) []string { return []string{U("d.policy.statement")} })
var textChangePolicy = policyScene("changed policy", true, true, func(m int) []string { return []string{wantDropPolicy(m), U("d.policy.statement")} })
var textDropPolicy = policyScene("removed policy", false, true, func(m int) []string { return []string{wantDropPolicy(m)} })

var textScenes = append(append([]*textScene{textAddColumn, textAddFirst, textChangeColumn, textMoveFirst, textMoveAfter, textAddAuto, textDropAuto, textUniqueColumn,
	textType, textNull, textAddIdentity, textSetIdentity, textDropIdentity, textAddDefault, textChangeDefault, textDropDefault,
	textAddCheck, textChangeCheck, textDropCheck, textMssqlIdentity, textMssqlChangeIdentity, textSequence}, indexScenes()...),
	textCreateIndex, textReplaceIndex, textDropIndex, textAddPrimary, textChangePrimary, textRedefinePrimary, textAddFK, textChangeFK, textDropFK,
	textAddFKStatement, textChangeFKStatement, textDropFKStatement, textSameFKStatement, textDropTable, textAddTable, textDropColumn, textAddView, textChangeView, textDropView, textAddTrigger, textChangeTrigger,
	textAddPolicy, textChangePolicy, textDropPolicy)

func dbgText(p *Program, name string, n int) {
	for _, s := range textScenes {
		if name != "" && s.name != name {
			continue
		}
		for m := range modeNames {
			if !hasMode(s.modes, m) {
				continue
			}
			r := p.textRun(s, m)
			cs := s.configs(m)
			bad := 0
			for _, cf := range cs {
				got, prob := r.statements(cf)
				want := s.want(m, cf.ch)
				if prob == "" && sameText(strings.Join(got, " ; "), strings.Join(want, " ; ")) {
					continue
				}
				bad++
				if bad > n {
					continue
				}
				fmt.Println("---", s.name, modeNames[m], cf.name, prob)
				for _, g := range got {
					fmt.Println("   got ", g)
				}
				for _, g := range want {
					fmt.Println("   want", g)
				}
			}
			fmt.Println(s.name, modeNames[m], len(cs), "configs", bad, "bad")
		}
	}
	_ = types.Typ
}
