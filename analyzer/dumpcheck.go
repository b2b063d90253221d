package main

import (
	"fmt"
	"go/types"
	"regexp"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks0["C07"] = checkC07 }

// ---- C07: what the dump consists of, in terms of the catalog

// dumpSpec describes the dump of one adapter. Text is built over the rows of
// reference queries.
type dumpSpec struct {
	d     *dumpEval
	depth int
	forms map[string]*sqlForm
}

func (s *dumpSpec) rows(sql string, args ...*Term) *Term {
	q := s.one(sql, args...)
	return mkApp("rows", nil, q)
}

// one is a query for a single row.
func (s *dumpSpec) one(sql string, args ...*Term) *Term {
	f := parseSQL(sql)
	name := f.text
	if o, ok := s.forms[name]; ok && strings.Join(o.conds, ",") != strings.Join(f.conds, ",") {
		name += " where " + strings.Join(f.conds, " and ")
	}
	s.forms[name] = f
	var as []*Term
	for _, k := range f.params {
		as = append(as, args[k])
	}
	return mkApp("query:"+name, nil, as...)
}

func (s *dumpSpec) each(kind string, rows *Term, body func(r *Term) *Term) *Term {
	s.depth++
	e := mkElem(rows, 5000+s.depth, nil)
	t := body(e)
	if kind == "list" {
		if t.op != OList && t.op != OIte {
			t = mkList(mkItem(t))
		}
	}
	r := mkRep(kind, rows, 5000+s.depth, t)
	s.depth--
	return r
}

func (s *dumpSpec) text(rows *Term, body func(r *Term) *Term) *Term { return s.each("str", rows, body) }

// joined: one piece of text per row, separated.
func (s *dumpSpec) joined(rows *Term, sep string, body func(r *Term) *Term) *Term {
	return mkApp("strings.Join", types.Typ[types.String], s.each("list", rows, body), mkStrC(sep))
}

func dcol(r *Term, expr string) *Term { return mkApp("col:"+expr, nil, r) }
func dval(r *Term, expr string) *Term { return mkApp("deref", nil, dcol(r, expr)) }
func dtext(ps ...any) *Term {
	var ts []*Term
	for _, p := range ps {
		switch x := p.(type) {
		case string:
			ts = append(ts, mkStrC(x))
		case *Term:
			ts = append(ts, x)
		}
	}
	return mkStr(ts...)
}
func dif(b BDD, ps ...any) *Term { return mkIte(b, dtext(ps...), tEmptyStr) }
func dis(t *Term) BDD            { return toBDD(t) }
func deq(t *Term, s string) BDD  { return eqBDD(t, mkStrC(s)) }

type dumpPart struct {
	name string
	text *Term // a repetition of statements
}

func (s *dumpSpec) mysql() []dumpPart {
	tables := s.rows("show full tables where Table_Type != 'VIEW'")
	views := s.rows("show full tables where TABLE_TYPE = 'VIEW'")
	triggers := s.rows("show triggers")
	return []dumpPart{
		{"tables", s.each("list", tables, func(r *Term) *Term {
			return dcol(s.one("show create table `{}`", dcol(r, "table")), "definition")
		})},
		{"views", s.each("list", views, func(r *Term) *Term {
			q := s.one("select view_definition from information_schema.views where table_schema = database() and table_name = '{}'", dcol(r, "table"))
			return dtext("CREATE VIEW ", dcol(r, "table"), " AS ", dcol(q, "view_definition"))
		})},
		{"triggers", s.each("list", triggers, func(r *Term) *Term {
			return dtext("CREATE TRIGGER ", dcol(r, "trigger"), " ", dcol(r, "timing"), " ", dcol(r, "event"), " ON ", dcol(r, "table"), " FOR EACH ROW ", dcol(r, "statement"), ";")
		})},
	}
}

func (s *dumpSpec) sqlite3() []dumpPart {
	tables := s.rows("select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite_%'")
	return []dumpPart{
		{"tables", s.each("list", tables, func(r *Term) *Term {
			return dcol(s.one("select sql from sqlite_master where type = 'table' and tbl_name = ?", dcol(r, "tbl_name")), "sql")
		})},
		{"views", s.each("list", s.rows("select sql from sqlite_master where type = 'view'"), func(r *Term) *Term {
			return dcol(r, "sql")
		})},
	}
}

func (s *dumpSpec) postgres() []dumpPart {
	const others = "table_schema not in ('information_schema', 'pg_catalog') and (table_schema != 'public' or table_name != 'pg_buffercache')"
	tables := s.rows("select table_schema, table_name from information_schema.tables where " + others + " and table_type = 'BASE TABLE'")
	views := s.rows("select table_schema, table_name, definition from information_schema.tables join pg_views on table_schema = schemaname and table_name = viewname where " + others + " and table_type = 'VIEW'")
	typ := "case when columns.data_type in ( 'ARRAY' , 'USER-DEFINED' ) then format_type ( pg_attribute.atttypid , pg_attribute.atttypmod ) else columns.data_type end"
	return []dumpPart{
		{"tables", s.each("list", tables, func(t *Term) *Term {
			sc, n := dcol(t, "table_schema"), dcol(t, "table_name")
			columns := s.rows(`select 1 from pg_attribute f join pg_class c on c.oid = f.attrelid join pg_type t on t.oid = f.atttypid
				left join pg_attrdef d on d.adrelid = c.oid and d.adnum = f.attnum
				left join pg_namespace n on n.oid = c.relnamespace
				left join pg_constraint p on p.conrelid = c.oid and f.attnum = any (p.conkey) and array_length(p.conkey, 1) = 1 and p.contype = 'u'
				left join pg_constraint pc on pc.conrelid = c.oid and f.attnum = any (pc.conkey) and pc.contype = 'c'
				left join information_schema.columns s on s.column_name = f.attname and s.table_name = c.relname and s.table_schema = n.nspname
				where c.relkind = 'r'::char and n.nspname = $1 and c.relname = $2 and f.attnum > 0 order by f.attnum`, sc, n)
			pk := s.rows(`select 1 from table_constraints tc
				join key_column_usage kcu on tc.constraint_schema = kcu.constraint_schema and tc.constraint_name = kcu.constraint_name and tc.table_name = kcu.table_name
				where constraint_type = 'PRIMARY KEY' and tc.table_schema = $1 and tc.table_name = $2 order by kcu.ordinal_position`, sc, n)
			indexes := s.rows("select 1 from pg_indexes where schemaname = $1 and tablename = $2", sc, n)
			fks := s.rows(`select 1 from table_constraints tc
				join key_column_usage kcu on tc.constraint_schema = kcu.constraint_schema and tc.constraint_name = kcu.constraint_name and tc.table_name = kcu.table_name
				join constraint_column_usage ccu on tc.constraint_schema = ccu.constraint_schema and tc.constraint_name = ccu.constraint_name
				join referential_constraints rc on tc.constraint_schema = rc.constraint_schema and tc.constraint_name = rc.constraint_name
				where constraint_type = 'FOREIGN KEY' and tc.table_schema = $1 and tc.table_name = $2`, sc, n)
			policies := s.rows("select 1 from pg_policies where schemaname = $1 and tablename = $2", sc, n)
			return mkApp("strings.TrimSuffix", types.Typ[types.String], dtext("CREATE TABLE ", sc, ".", n, " (",
				s.joined(columns, ",", func(r *Term) *Term {
					ty := dcol(r, typ)
					def := dcol(r, "columns.column_default")
					serial := bAll(bNot(isNilBDD(def)), dis(mkApp("strings.HasPrefix", types.Typ[types.Bool], dval(r, "columns.column_default"), mkStrC("nextval("))),
						bOr(deq(ty, "smallint"), bOr(deq(ty, "integer"), deq(ty, "bigint"))))
					length := dcol(r, "columns.character_maximum_length")
					return dtext("\n    \"", dcol(r, "columns.column_name"), "\" ",
						mkIte(bAnd(serial, deq(ty, "smallint")), mkStrC("smallserial"),
							mkIte(bAnd(serial, deq(ty, "integer")), mkStrC("serial"),
								mkIte(bAnd(serial, deq(ty, "bigint")), mkStrC("bigserial"),
									mkIte(deq(ty, "timestamp without time zone"), mkStrC("timestamp"),
										mkIte(deq(ty, "time without time zone"), mkStrC("time"), ty))))),
						dif(bNot(isNilBDD(length)), "(", dval(r, "columns.character_maximum_length"), ")"),
						dif(dis(dcol(r, "case when pg_constraint.contype = 'u' then true else false end")), " UNIQUE"),
						dif(bNot(deq(dcol(r, "columns.is_nullable"), "YES")), " NOT NULL"),
						dif(bAnd(bNot(isNilBDD(def)), bNot(serial)), " DEFAULT ", dval(r, "columns.column_default")),
						dif(bNot(isNilBDD(dcol(r, "columns.identity_generation"))), " GENERATED ", dval(r, "columns.identity_generation"), " AS IDENTITY"),
						dif(bNot(isNilBDD(dcol(r, "case when pg_constraint#2.contype = 'c' then pg_get_constraintdef ( pg_constraint#2.oid , true ) else null end"))), " ", dval(r, "case when pg_constraint#2.contype = 'c' then pg_get_constraintdef ( pg_constraint#2.oid , true ) else null end")),
					)
				}),
				dif(bNot(emptyBDD(pk)), ",\n    PRIMARY KEY (\"", s.joined(pk, "\", \"", func(r *Term) *Term { return dcol(r, "key_column_usage.column_name") }), "\")"),
				"\n);\n",
				s.text(indexes, func(r *Term) *Term {
					return dif(bNot(dis(mkApp("strings.HasSuffix", types.Typ[types.Bool], dcol(r, "indexname"), mkStrC("_pkey")))), dcol(r, "indexdef"), ";\n")
				}),
				s.text(fks, func(r *Term) *Term {
					return dtext("ALTER TABLE ONLY ", dcol(r, "table_constraints.table_schema"), ".", dcol(r, "table_constraints.table_name"), " ADD CONSTRAINT ", dcol(r, "table_constraints.constraint_name"),
						" FOREIGN KEY (", dcol(r, "key_column_usage.column_name"), ") REFERENCES ", dcol(r, "constraint_column_usage.table_schema"), ".", dcol(r, "constraint_column_usage.table_name"), "(", dcol(r, "constraint_column_usage.column_name"), ")",
						" ON UPDATE ", dcol(r, "referential_constraints.update_rule"), " ON DELETE ", dcol(r, "referential_constraints.delete_rule"), ";\n")
				}),
				s.text(policies, func(r *Term) *Term {
					roles := mkApp("strings.TrimSuffix", types.Typ[types.String], mkApp("strings.TrimPrefix", types.Typ[types.String], dcol(r, "roles"), mkStrC("{")), mkStrC("}"))
					valid := func(c string) BDD { return dis(mkApp("field:Valid", nil, dcol(r, c))) }
					str := func(c string) *Term { return mkApp("field:String", nil, dcol(r, c)) }
					return dtext("CREATE POLICY ", dcol(r, "policyname"), " ON ", sc, ".", n, " AS ", dcol(r, "permissive"), " FOR ", dcol(r, "cmd"), " TO ", roles,
						dif(valid("qual"), " USING ", str("qual")), dif(valid("with_check"), " WITH CHECK ", str("with_check")), ";\n")
				})), mkStrC(";\n"))
		})},
		{"views", s.each("list", views, func(r *Term) *Term {
			return dtext("CREATE VIEW ", dcol(r, "table_schema"), ".", dcol(r, "table_name"), " AS ", s.oneLine(dcol(r, "definition"), ""))
		})},
	}
}

// oneLine is the text of a view on one line.
func (s *dumpSpec) oneLine(t *Term, gap string) *Term {
	str := types.Typ[types.String]
	t = mkApp("strings.TrimSpace", str, t)
	t = mkApp("strings.Replace", str, t, mkStrC("\n"), mkStrC(gap), mkInt(-1))
	t = mkApp("strings.TrimSuffix", str, t, mkStrC(";"))
	return mkApp("replace:[ ]+", str, t, mkStrC(" "))
}

func (s *dumpSpec) mssql() []dumpPart {
	tables := s.rows("select schema_name(schema_id), name from sys.objects where type = 'U'")
	views := s.rows("select 1 from sys.views join sys.objects on sys.objects.object_id = sys.views.object_id join sys.schemas on sys.schemas.schema_id = sys.objects.schema_id join sys.sql_modules on sys.sql_modules.object_id = sys.objects.object_id")
	triggers := s.rows("select s.definition from sys.triggers tr join sys.all_sql_modules s on s.object_id = tr.object_id")
	length := "case when types.name in ( 'nchar' , 'nvarchar' ) and columns.max_length > 0 then columns.max_length / 2 else columns.max_length end"
	onoff := func(b BDD) *Term { return mkIte(b, mkStrC("ON"), mkStrC("OFF")) }
	return []dumpPart{
		{"tables", s.each("list", tables, func(t *Term) *Term {
			sc, n := dcol(t, "schema_name ( schema_id )"), dcol(t, "name")
			columns := s.rows(`select 1 from sys.columns c join sys.types tp on c.user_type_id = tp.user_type_id
				left join sys.check_constraints cc on c.object_id = cc.parent_object_id and cc.parent_column_id = c.column_id
				left join sys.identity_columns ic on c.object_id = ic.object_id and ic.column_id = c.column_id
				where c.object_id = object_id('{}.{}', 'U')`, sc, n)
			indexes := s.rows(`select 1 from sys.indexes ind join sys.stats st on ind.object_id = st.object_id and ind.index_id = st.stats_id where ind.object_id = object_id('[{}].[{}]')`, sc, n)
			parts := s.rows(`select 1 from sys.indexes ind join sys.index_columns ic on ind.object_id = ic.object_id and ind.index_id = ic.index_id where ind.object_id = object_id('[{}].[{}]') order by ind.index_id, ic.key_ordinal, ic.index_column_id`, sc, n)
			fks := s.rows(`select 1 from sys.foreign_keys f join sys.foreign_key_columns fc on f.object_id = fc.constraint_object_id where f.parent_object_id = object_id('[{}].[{}]')`, sc, n)
			kind := func(r *Term) *Term {
				k := dcol(r, "indexes.type_desc")
				return dif(bOr(deq(k, "CLUSTERED"), deq(k, "NONCLUSTERED")), " ", k)
			}
			str := types.Typ[types.String]
			part := func(r *Term, included bool) *Term {
				l := s.each("list", parts, func(c *Term) *Term {
					inc := dis(dcol(c, "index_columns.is_included_column"))
					name := dtext("[", dcol(c, "col_name ( index_columns.object_id , index_columns.column_id )"), "]", dif(bAnd(bNot(inc), dis(dcol(c, "index_columns.is_descending_key"))), " DESC"))
					if !included {
						inc = bNot(inc)
					}
					return mkIte(bAnd(inc, eqBDD(dcol(c, "indexes.name"), dcol(r, "indexes.name"))), mkList(mkItem(name)), tEmptyList)
				})
				return l
			}
			options := func(r *Term) *Term {
				o := func(c string) *Term { return onoff(dis(dcol(r, c))) }
				return dtext(" WITH ( PAD_INDEX = ", o("indexes.is_padded"), ", FILLFACTOR = ", dcol(r, "indexes.fill_factor"), ", IGNORE_DUP_KEY = ", o("indexes.ignore_dup_key"),
					", STATISTICS_NORECOMPUTE = ", o("stats.no_recompute"), ", STATISTICS_INCREMENTAL = ", o("stats.is_incremental"),
					", ALLOW_ROW_LOCKS = ", o("indexes.allow_row_locks"), ", ALLOW_PAGE_LOCKS = ", o("indexes.allow_page_locks"), " )")
			}
			primary := func(r *Term) BDD { return dis(dcol(r, "indexes.is_primary_key")) }
			rule := func(r *Term, c string) *Term {
				return mkApp("strings.Replace", str, dcol(r, c), mkStrC("_"), mkStrC(" "), mkInt(-1))
			}
			return mkApp("strings.TrimSuffix", str, dtext("CREATE TABLE ", sc, ".", n, " (",
				s.joined(columns, ",", func(r *Term) *Term {
					ty := dcol(r, "types.name")
					sized := False
					for _, x := range []string{"char", "varchar", "nchar", "nvarchar", "binary", "varbinary"} {
						sized = bOr(sized, deq(ty, x))
					}
					return dtext("\n    ", dcol(r, "columns.name"), " ", ty,
						dif(sized, "(", dcol(r, length), ")"),
						dif(bNot(dis(dcol(r, "columns.is_nullable"))), " NOT NULL"),
						dif(bNot(deq(dcol(r, "columns.default_object_id"), "0")), " CONSTRAINT ", dval(r, "object_name ( columns.default_object_id )"), " DEFAULT ", dval(r, "object_definition ( columns.default_object_id )")),
						dif(dis(dcol(r, "columns.is_identity")), " IDENTITY(", dval(r, "identity_columns.seed_value"), ",", dval(r, "identity_columns.increment_value"), ")", dif(dis(dval(r, "identity_columns.is_not_for_replication")), " NOT FOR REPLICATION")),
						dif(bNot(isNilBDD(dcol(r, "check_constraints.name"))), " CONSTRAINT [", dval(r, "check_constraints.name"), "] CHECK", dif(dis(dval(r, "check_constraints.is_not_for_replication")), " NOT FOR REPLICATION"), " ", dval(r, "check_constraints.definition")))
				}),
				s.text(indexes, func(r *Term) *Term {
					return dif(primary(r), ",\n    CONSTRAINT [", dcol(r, "indexes.name"), "] PRIMARY KEY", kind(r), " (", mkApp("strings.Join", str, part(r, false), mkStrC(", ")), ")", options(r))
				}),
				s.text(fks, func(r *Term) *Term {
					return dtext(",\n    CONSTRAINT [", dcol(r, "foreign_keys.name"), "] FOREIGN KEY ([", dcol(r, "col_name ( foreign_keys.parent_object_id , foreign_key_columns.parent_column_id )"), "]) REFERENCES [", dcol(r, "object_name ( foreign_keys.referenced_object_id )"),
						"] ([", dcol(r, "col_name ( foreign_keys.referenced_object_id , foreign_key_columns.referenced_column_id )"), "]) ON UPDATE ", rule(r, "foreign_keys.update_referential_action_desc"), " ON DELETE ", rule(r, "foreign_keys.delete_referential_action_desc"),
						dif(dis(dcol(r, "foreign_keys.is_not_for_replication")), " NOT FOR REPLICATION"))
				}),
				"\n);\n",
				s.text(indexes, func(r *Term) *Term {
					inc := part(r, true)
					return dif(bNot(primary(r)), "CREATE", dif(dis(dcol(r, "indexes.is_unique")), " UNIQUE"), kind(r), " INDEX [", dcol(r, "indexes.name"), "] ON ", sc, ".", n, " (", mkApp("strings.Join", str, part(r, false), mkStrC(", ")), ")",
						dif(bNot(emptyBDD(inc)), " INCLUDE (", mkApp("strings.Join", str, inc, mkStrC(", ")), ")"), options(r), ";\n")
				})), mkStrC(";\n"))
		})},
		{"views", s.each("list", views, func(r *Term) *Term { return s.oneLine(dcol(r, "sql_modules.definition"), " ") })},
		{"triggers", s.each("list", triggers, func(r *Term) *Term { return dcol(r, "all_sql_modules.definition") })},
	}
}

// ---- comparison

type dumpDiff struct {
	last string // the last constant text both have
	memo map[[3]int]bool
	msg  string
	at   string
}

var (
	dumpSpaces = regexp.MustCompile(`\s+`)
	dumpPunct  = regexp.MustCompile(` ?([(),;]) ?`)
)

func dumpNorm(s string) string {
	return dumpPunct.ReplaceAllString(dumpSpaces.ReplaceAllString(s, " "), "$1")
}

func endsPunct(s string) bool { return s != "" && strings.ContainsRune("(),; ", rune(s[len(s)-1])) }

func (c *dumpDiff) fail(format string, a ...any) bool {
	if c.msg == "" {
		c.msg, c.at = fmt.Sprintf(format, a...), c.last
	}
	return false
}

// same decides whether two texts are equal under the assumption.
func (c *dumpDiff) same(g, w *Term, ctx BDD) bool {
	return c.seq(strParts(g), strParts(w), ctx, "", "")
}

func (c *dumpDiff) seq(g, w []*Term, ctx BDD, gs, ws string) bool {
	if unsat(ctx) {
		return true
	}
	for {
		// constant text at the head
		for len(g) > 0 {
			s, ok := g[0].strConst()
			if !ok {
				break
			}
			gs, g = gs+s, g[1:]
		}
		for len(w) > 0 {
			s, ok := w[0].strConst()
			if !ok {
				break
			}
			ws, w = ws+s, w[1:]
		}
		gs, ws = dumpNorm(gs), dumpNorm(ws)
		i := 0
		for i < len(gs) && i < len(ws) && gs[i] == ws[i] {
			i++
		}
		if i > 0 {
			c.last += gs[:i]
			gs, ws = gs[i:], ws[i:]
		}
		if endsPunct(c.last) {
			if strings.HasPrefix(gs, " ") {
				gs = gs[1:]
				continue
			}
			if strings.HasPrefix(ws, " ") {
				ws = ws[1:]
				continue
			}
		}
		// alternatives
		split := func(first, other []*Term, gFirst bool) bool {
			t := first[0]
			keep := c.last
			for k, x := range t.args {
				b := t.bdd
				if k == 1 {
					b = bNot(b)
				}
				cx := bAnd(ctx, b)
				if unsat(cx) {
					continue
				}
				c.last = keep
				var ok bool
				nf := append(append([]*Term{}, strParts(x)...), first[1:]...)
				if gFirst {
					ok = c.seq(nf, other, cx, gs, ws)
				} else {
					ok = c.seq(other, nf, cx, gs, ws)
				}
				if !ok {
					return false
				}
			}
			return true
		}
		if ws == "" && gs == "" && len(g) > 0 && len(w) > 0 && g[0] == w[0] {
			g, w = g[1:], w[1:]
			c.last += "."
			continue
		}
		if gs == "" && len(g) > 0 && g[0].op == OIte {
			return c.memoized(g, w, gs, ws, ctx, func() bool { return split(g, w, true) })
		}
		if ws == "" && len(w) > 0 && w[0].op == OIte {
			return c.memoized(g, w, gs, ws, ctx, func() bool { return split(w, g, false) })
		}
		gEnd, wEnd := gs == "" && len(g) == 0, ws == "" && len(w) == 0
		if gEnd && wEnd {
			return true
		}
		if gs != "" || ws != "" || gEnd || wEnd {
			if gs == " " && len(g) == 0 && wEnd || ws == " " && len(w) == 0 && gEnd {
				return true
			}
			return c.fail("the text goes on with %s where %s is due (when %s)", headText(gs, g), headText(ws, w), cutText(shortRows(ppb(ctx, 9)), 600))
		}
		a, b := g[0], w[0]
		if !c.term(a, b, ctx) {
			return c.fail("the text has %s where %s is due", headText("", g), headText("", w))
		}
		c.last += "."
		g, w = g[1:], w[1:]
	}
}

func headText(s string, l []*Term) string {
	if s != "" {
		return fmt.Sprintf("%q", s)
	}
	if len(l) == 0 {
		return "nothing"
	}
	return dumpShort(l[0])
}

func dumpShort(t *Term) string {
	s := shortRows(ppd(t, 9))
	return cutText(s, 160)
}

func (c *dumpDiff) memoized(g, w []*Term, gs, ws string, ctx BDD, f func() bool) bool {
	// what the assumption says about parts that are behind is of no interest
	want := map[*Term]bool{}
	for _, l := range [][]*Term{g, w} {
		for _, t := range l {
			walkTerm(t, func(x *Term) bool { want[x] = true; return true })
		}
	}
	for _, a := range bSupport(ctx) {
		if !want[a] {
			ctx = bExists(ctx, a)
		}
	}
	k := [3]int{mkStr(append([]*Term{mkStrC(gs + "|")}, g...)...).id, mkStr(append([]*Term{mkStrC(ws + "|")}, w...)...).id, int(ctx)}
	if r, ok := c.memo[k]; ok {
		return r
	}
	r := f()
	c.memo[k] = r
	return r
}

// term compares two terms that are not constant text.
func (c *dumpDiff) term(a, b *Term, ctx BDD) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		return false
	}
	switch a.op {
	case ORep:
		if a.str != b.str || !c.term(a.args[0], b.args[0], ctx) {
			return false
		}
		gb := b.args[0]
		freshDepth++
		e, ix := mkElem(gb, 7000+freshDepth, nil), mkIdx(gb, 7000+freshDepth)
		x, y := substTerm(a.args[1], openMap(a, e, ix)), substTerm(b.args[1], openMap(b, e, ix))
		if a.str == "str" {
			return c.same(x, y, ctx)
		}
		return c.list(listParts(x), listParts(y), ctx)
	case OApp:
		if a.str != b.str || len(a.args) != len(b.args) {
			return false
		}
		for i := range a.args {
			x, y := a.args[i], b.args[i]
			switch {
			case x == y:
			case x.op == OConst || y.op == OConst:
				return false
			case x.op == OList || y.op == OList:
				if !c.list(listParts(x), listParts(y), ctx) {
					return false
				}
			default:
				if !c.same(x, y, ctx) {
					return false
				}
			}
		}
		return true
	case OStr:
		return c.same(a, b, ctx)
	case OIte:
		return c.same(a, b, ctx)
	}
	return false
}

func (c *dumpDiff) list(g, w []*Term, ctx BDD) bool {
	if unsat(ctx) {
		return true
	}
	for len(g) > 0 || len(w) > 0 {
		if len(g) > 0 && len(w) > 0 && g[0] == w[0] {
			g, w = g[1:], w[1:]
			continue
		}
		for k, l := range [][]*Term{g, w} {
			if len(l) > 0 && l[0].op == OIte {
				for i, x := range l[0].args {
					b := l[0].bdd
					if i == 1 {
						b = bNot(b)
					}
					n := append(append([]*Term{}, listParts(x)...), l[1:]...)
					ok := false
					if k == 0 {
						ok = c.list(n, w, bAnd(ctx, b))
					} else {
						ok = c.list(g, n, bAnd(ctx, b))
					}
					if !ok {
						return false
					}
				}
				return true
			}
		}
		if len(g) == 0 || len(w) == 0 {
			return c.fail("a list has %d items where %d are due (when %s)", len(g), len(w), cutText(shortRows(ppb(ctx, 9)), 600))
		}
		if g[0].op == OItem && w[0].op == OItem {
			if !c.same(g[0].args[0], w[0].args[0], ctx) {
				return false
			}
		} else if !c.term(g[0], w[0], ctx) {
			return c.fail("a list has %s where %s is due", dumpShort(g[0]), dumpShort(w[0]))
		}
		g, w = g[1:], w[1:]
	}
	return true
}

var freshDepth int

func checkC07(c *Check) {
	for _, x := range commands {
		c.dump(x.dialect, x.adapter)
		c.exported(x.cmd)
	}
	c.floor("statement kinds of the dumps", c.stats["parts"], 9)
	c.floor("catalog queries", c.stats["queries"], 18)
	c.explain = append(c.explain, "Each adapter's dump is evaluated as a whole, with the rows of every catalog query as an arbitrary list; the resulting term - repetitions of text over rows, with alternatives on column values - is compared with a description of the dump in terms of the catalog's columns, under every combination of conditions.")
	c.assume = append(c.assume, "what the catalog queries mean to the database server", "names of schemas contain no dot; names of objects are not empty; names of indexes are unique within a table")
}

func (c *Check) dump(dialect, adapter string) {
	d := c.p.dumpOf(adapter)
	if d == nil {
		c.require(false, "dump", dialect, "", "the adapter's dump was not found")
		return
	}
	where := c.p.posStr(c.p.fn("adapter", "DumpDDLs").Pos())
	if !c.require(d.list != nil && d.sep != nil, "dump", dialect, where, "the dump is not a list of statements joined by a separator") {
		return
	}
	sep, ok := d.sep.strConst()
	c.require(ok && dumpNorm(sep) == ";", "separator", dialect, where, fmt.Sprintf("statements are separated by %q", sep))
	s := &dumpSpec{d: d, forms: map[string]*sqlForm{}}
	var want []dumpPart
	ctx := True
	switch dialect {
	case "mysql":
		want = s.mysql()
	case "sqlite3":
		want = s.sqlite3()
	case "postgres":
		want = s.postgres()
	case "mssql":
		want = s.mssql()
	}
	got := listParts(d.list)
	for i, w := range want {
		c.stats["parts"]++
		if i >= len(got) {
			c.require(false, "statements", dialect+"/"+w.name, where, "the dump has no such statements")
			continue
		}
		df := &dumpDiff{memo: map[[3]int]bool{}}
		ok := df.list(got[i:i+1], listParts(w.text), ctx)
		if df.msg == "" {
			df.msg = "the dump has " + dumpShort(got[i])
		}
		c.require(ok, "statements", dialect+"/"+w.name, where, fmt.Sprintf("%s; before: %q", df.msg, tailText(df.at)))
	}
	if len(got) > len(want) {
		c.require(false, "statements", dialect+"/other", where, "the dump has statements beyond those of tables, views and triggers: "+dumpShort(got[len(want)]))
	}
	for _, n := range sortedKeys(s.forms) {
		c.stats["queries"]++
		w, g := s.forms[n], d.queries[n]
		if !c.require(g != nil, "query", dialect+"/"+n, where, "no such query is made") {
			continue
		}
		var miss []string
		for _, x := range w.conds {
			if !slices.Contains(g.conds, x) {
				miss = append(miss, "lacks "+x)
			}
		}
		for _, x := range g.conds {
			if !slices.Contains(w.conds, x) {
				miss = append(miss, "has "+x)
			}
		}
		if len(w.order) > 0 && strings.Join(w.order, ",") != strings.Join(g.order, ",") {
			miss = append(miss, "is not ordered by "+strings.Join(w.order, ", "))
		}
		c.require(len(miss) == 0, "query", dialect+"/"+n, where, "the query "+strings.Join(miss, "; "))
	}
	// a key of several columns has a row for each of them
	walkTerm(d.list, func(x *Term) bool {
		if x.op == ORep && x.str == "str" && x.args[0].op == OApp && x.args[0].str == "rows" {
			q := x.args[0].args[0].str
			if (strings.Contains(q, "key_column_usage") || strings.Contains(q, "foreign_key_columns")) && strings.Contains(pp(x.args[1]), "FOREIGN KEY (") {
				c.require(false, "composite", dialect+"/foreign keys", where, "a foreign key of several columns is dumped as a foreign key for each of its columns, all of the same name")
			}
		}
		return true
	})
	// what the text of the reference leaves out
	atoms := map[string]bool{}
	walkTerm(d.list, func(x *Term) bool {
		if x.op == OApp && (x.str == "strings.HasSuffix" || x.str == "strings.HasPrefix" || x.str == "strings.Contains") && isColumn(x.args[0]) && strings.HasSuffix(x.args[0].str, "name") {
			c.require(false, "left-out", dialect+"/"+strings.TrimPrefix(x.args[0].str, "col:"), where, "whether an object is dumped depends on how it is named: "+dumpShort(x))
		}
		if x.op == OApp && x.str == "eq" {
			atoms[pp(x)] = true
		}
		return true
	})
	if dialect == "mssql" {
		max := false
		for a := range atoms {
			max = max || strings.Contains(a, `"-1"`) && strings.Contains(a, "max_length")
		}
		c.require(max, "length", dialect+"/max", where, "a column of type varchar(max) or varbinary(max) is dumped with the length -1")
	}
	c.require(len(d.bad) == 0, "columns", dialect, where, strings.Join(d.bad, "; "))
}

func tailText(s string) string {
	if len(s) > 60 {
		s = "…" + s[len(s)-60:]
	}
	return s
}

func cutText(s string, n int) string {
	if r := []rune(s); len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

// exported: what --export prints is the dump.
func (c *Check) exported(cmd string) {
	fn, dumper := c.p.fn("cmd/"+cmd, "main"), c.p.fn("adapter", "DumpDDLs")
	if !c.require(fn != nil && dumper != nil, "export", cmd, "", "the command has no main function or there is no dump") {
		return
	}
	where := c.p.posStr(fn.Pos())
	ev := c.p.mainEval()
	ev.noErr = true
	inline := ev.inline
	ev.inline = func(f *ssa.Function) bool { return f != dumper && inline(f) }
	dump := mkSym("$dump", types.Typ[types.String])
	made := 0
	ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
		if name == dumper.String() {
			made++
			return tuple(dump, tNil), true
		}
		return nil, false
	}
	r := &CmdRun{cmd: cmd, ev: ev}
	r.res = ev.Call(fn, nil, nil, newState(), 0, "root")
	r.trace = tEmptyList
	if t, ok := r.res.st.get(traceKey); ok {
		r.trace = t
	}
	exp, ok := r.flagBDD("export")
	if !c.require(ok && made > 0, "export", cmd, where, "no decision of the command depends on --export, or the dump is not made") {
		return
	}
	for _, some := range []bool{true, false} {
		empty := deq(dump, "")
		care := bAll(r.res.alive, exp, empty)
		if some {
			care = bAll(r.res.alive, exp, bNot(empty))
		}
		out := toText(projectList(restrictTerm(r.trace, care), func(x *Term) *Term {
			if evName(x) == "out:stdout" {
				return x.args[0]
			}
			return nil
		}))
		text := restrictTerm(out, care)
		if some {
			ps := strParts(text)
			ok := len(ps) >= 1 && ps[0] == dump
			rest := ""
			for _, x := range ps[min(1, len(ps)):] {
				s, isC := x.strConst()
				ok = ok && isC
				rest += s
			}
			c.require(ok && strings.TrimSpace(rest) == ";", "export", cmd+"/dump", where, "with --export the output is "+short(pp(text), 300)+", not the dump")
		} else {
			s, ok := text.strConst()
			c.require(ok && (strings.TrimSpace(s) == "" || strings.HasPrefix(s, "--")), "export", cmd+"/empty", where, "with --export and an empty database the output is "+short(pp(text), 300))
		}
	}
}
