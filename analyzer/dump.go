package main

// C07: the dump covers everything the catalog queries return.
//
// The dump of each adapter is evaluated with the rows of its queries as
// arbitrary lists; what results is one term that says which text the dump
// contains for which rows. It is compared with a description of the dump in
// terms of the catalog's columns.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

type dumpEval struct {
	p    *Program
	ev   *Eval
	res  Result
	list *Term // the statements of the dump, before they are joined
	sep  *Term

	queries map[string]*sqlForm // symbol -> form
	names   []string
	norm    map[*Term]*Term
	bad     []string
}

// query is the result of a query: the form of the SQL text becomes a symbol,
// the values put into the text or bound to it its arguments.
func (d *dumpEval) query(q, params *Term) *Term {
	text := ""
	var args []*Term
	for _, x := range strParts(q) {
		if s, ok := x.strConst(); ok {
			text += s
		} else {
			text += "{}"
			args = append(args, x)
		}
	}
	for _, x := range listParts(params) {
		if x.op == OItem {
			x = stripIface(x.args[0])
		}
		args = append(args, x)
	}
	f := parseSQL(text)
	name := f.text
	if o, ok := d.queries[name]; ok && (strings.Join(o.items, ",") != strings.Join(f.items, ",") || strings.Join(o.conds, ",") != strings.Join(f.conds, ",")) {
		name += " where " + strings.Join(f.conds, " and ")
	}
	d.queries[name] = f
	var as []*Term
	for _, k := range f.params {
		if k >= len(args) {
			d.bad = append(d.bad, fmt.Sprintf("the query on %s has no value for its parameter %d", name, k+1))
			as = append(as, tUndef)
			continue
		}
		as = append(as, args[k])
	}
	return mkApp("query:"+name, nil, as...)
}

func (p *Program) dumpOf(adapter string) *dumpEval {
	ev := newEval(p)
	d := &dumpEval{p: p, ev: ev, queries: map[string]*sqlForm{}, norm: map[*Term]*Term{}}
	ev.noErr = true
	ev.unroll = true
	ev.inline = p.inlineNoParser
	ev.scanOK = true
	ev.iterObj = map[string]*iterRec{}
	ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
		if t, ok := sqlTypeMethodOf(name); ok {
			switch t {
			case "Query":
				return tuple(d.query(args[1], args[2]), tNil), true
			case "QueryContext":
				return tuple(d.query(args[2], args[3]), tNil), true
			case "QueryRow":
				return d.query(args[1], args[2]), true
			case "QueryRowContext":
				return d.query(args[2], args[3]), true
			case "Err", "Close":
				return tNil, true
			}
		}
		return nil, false
	}
	var recv types.Type
	db := p.pkg("adapter").Type("Database").Type().Underlying().(*types.Interface)
	for _, m := range p.pkg(adapter).Members {
		if t, ok := m.(interface{ Type() types.Type }); ok {
			if n, ok := t.Type().(*types.Named); ok {
				if pt := types.NewPointer(n); types.Implements(pt, db) {
					recv = pt
				}
			}
		}
	}
	fn := p.fn("adapter", "DumpDDLs")
	if recv == nil || fn == nil {
		return nil
	}
	d.res = ev.Call(fn, []*Term{mkIface(mkSym("$db", recv), recv)}, nil, newState(), 0, "dump")
	t := d.normal(mkField(d.res.ret, "0", nil), 0)
	if t.op == OApp && t.str == "strings.Join" {
		d.list, d.sep = t.args[0], t.args[1]
	}
	return d
}

func sqlTypeMethodOf(name string) (string, bool) {
	if !strings.HasPrefix(name, "(*database/sql.") {
		return "", false
	}
	return name[strings.LastIndex(name, ".")+1:], true
}

// normal brings a term to a form in which loops run over rows of queries and
// the columns of a row have the names of what they select.
func (d *dumpEval) normal(t *Term, lvl int) *Term {
	if len(t.args) == 0 && t.bdd <= 1 {
		return t
	}
	if r, ok := d.norm[t]; ok {
		return r
	}
	r := d.normal1(t, lvl)
	d.norm[t] = r
	return r
}

func (d *dumpEval) normalB(b BDD, lvl int) BDD {
	return bMap(b, func(a *Term) BDD { return toBDD(d.normal(a, lvl)) })
}

var colFix = regexp.MustCompile(`^(show [a-z ]+?)( where .*|` + "`.*" + `)?$`)

var showColumns = map[string][]string{
	"show full tables":  {"table", "type"},
	"show create table": {"table", "definition"},
	"show triggers":     {"trigger", "event", "table", "statement", "timing", "created", "sql_mode", "definer", "character_set_client", "collation_connection", "database_collation"},
}

func (d *dumpEval) normal1(t *Term, lvl int) *Term {
	switch t.op {
	case ORep:
		dom := t.args[0]
		depth := 1000 + lvl
		e, ix := mkElem(dom, depth, nil), mkIdx(dom, depth)
		body := substTerm(t.args[1], openMap(t, e, ix))
		nd := d.normal(dom, lvl+1)
		return separated(d.over(t.str, nd, depth, func(ne, nix *Term) *Term {
			m := map[*Term]*Term{e: ne}
			if nix != nil {
				m[ix] = nix
			} else if mentions(body, ix) {
				return nil
			}
			return d.normal(substTerm(body, m), lvl+1)
		}, lvl), 3000+lvl)
	case OExists, OFirst, OFirstIdx:
		dom := t.args[0]
		depth := 1000 + lvl
		e, ix := mkElem(dom, depth, nil), mkIdx(dom, depth)
		b := substBDD(t.bdd, openMap(t, e, ix))
		nd := d.normal(dom, lvl+1)
		if t.op == OExists {
			var ex func(nd *Term, lvl int) BDD
			ex = func(nd *Term, lvl int) BDD {
				if nd.op == OIte {
					return bddIte(nd.bdd, ex(nd.args[0], lvl), ex(nd.args[1], lvl))
				}
				if nd.op != OList {
					ne, nix := mkElem(nd, depth, nil), mkIdx(nd, depth)
					return mkExists(nd, depth, d.normalB(substBDD(b, map[*Term]*Term{e: ne, ix: nix}), lvl+1))
				}
				r := False
				for _, x := range nd.args {
					if x.op == OItem {
						r = bOr(r, d.normalB(substBDD(b, map[*Term]*Term{e: x.args[0]}), lvl+1))
						continue
					}
					if x.op == OIte {
						r = bOr(r, ex(x, lvl))
						continue
					}
					if x.op == ORep {
						dd := 2000 + lvl
						e2 := mkElem(x.args[0], dd, nil)
						items := substTerm(x.args[1], openMap(x, e2, mkIdx(x.args[0], dd)))
						r = bOr(r, mkExists(x.args[0], dd, ex(items, lvl+1)))
						continue
					}
					r = bOr(r, ex(x, lvl))
				}
				return r
			}
			return fromBDD(ex(nd, lvl))
		}
		nb := d.normalB(substBDD(b, map[*Term]*Term{e: mkElem(nd, depth, nil), ix: mkIdx(nd, depth)}), lvl+1)
		return mkFirst(t.op, nd, depth, nb, t.typ)
	}
	if t.op == ODeref && t.args[0].op == OObj {
		if v := d.ev.iterValue(t.args[0]); v != nil {
			return d.normal(v, lvl)
		}
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = d.normal(a, lvl)
	}
	if t.op == ODeref && args[0].op == OObj && args[0] != t.args[0] {
		if v := d.ev.iterValue(args[0]); v != nil {
			return d.normal(v, lvl)
		}
	}
	b := t.bdd
	if b > 1 {
		b = d.normalB(b, lvl)
	}
	if t.op == ODeref && isColumn(args[0]) {
		return mkApp("deref", nil, args[0])
	}
	if t.op == OField && isColumn(args[0]) {
		return mkApp("field:"+t.str, nil, args[0])
	}
	if t.op == OApp {
		switch t.str {
		case "rows":
			return mkApp("rows", nil, args...)
		case "col":
			return d.column(t, args)
		case "strings.Trim": // names come without quotes and surrounding space
			if s, ok := args[1].strConst(); ok && strings.Trim(s, "\" `") == "" {
				return args[0]
			}
		case "strings.SplitN":
			// schema.name: a schema has no dot in its name
			if s, ok := args[1].strConst(); ok && s == "." {
				ps := strParts(args[0])
				if n, ok := args[2].intConst(); ok && n == 2 && len(ps) == 3 {
					if c, ok := ps[1].strConst(); ok && c == "." {
						return mkList(mkItem(ps[0]), mkItem(ps[2]))
					}
				}
			}
		case "eq": // the catalog has no empty names or definitions
			for i, x := range args {
				if y, ok := args[1-i].strConst(); ok && y == "" && (isColumn(x) || x.op == OApp && x.str == "deref") {
					return tFalse
				}
			}
		case "lt": // nor lengths of nothing
			if k, ok := args[0].intConst(); ok && k == 0 {
				if a := args[1]; a.op == OField && a.str == "0" && a.args[0].op == OApp && a.args[0].str == "strconv.Atoi" {
					return tTrue
				}
			}
		case "index":
			return mkIndex(args[0], args[1], t.typ)
		case "(*regexp.Regexp).ReplaceAllString":
			if re := d.p.regexpText(args[0]); re != "?" {
				// anchored, and without anything special: a prefix or suffix
				if lit := strings.TrimPrefix(re, "^"); lit != re && lit == regexp.QuoteMeta(lit) || re == "^{" {
					if s, ok := args[2].strConst(); ok && s == "" {
						return mkApp("strings.TrimPrefix", t.typ, args[1], mkStrC(lit))
					}
				}
				if lit := strings.TrimSuffix(re, "$"); lit != re && lit == regexp.QuoteMeta(lit) || re == "}$" {
					if s, ok := args[2].strConst(); ok && s == "" {
						return mkApp("strings.TrimSuffix", t.typ, args[1], mkStrC(lit))
					}
				}
				return mkApp("replace:"+re, t.typ, args[1:]...)
			}
		case "fmt%d":
			if a := args[0]; a.op == OIte {
				f := func(x *Term) *Term { return d.normal(mkApp("fmt%d", t.typ, x), lvl) }
				return mkIte(a.bdd, f(a.args[0]), f(a.args[1]))
			}
			if a := args[0]; a.op == OField && a.str == "0" && a.args[0].op == OApp && a.args[0].str == "strconv.Atoi" {
				return a.args[0].args[0] // the number as it was written
			}
		}
	}
	return rebuild(t, args, b)
}

// over builds the repetition of a body over a list, through the lists it is
// made of.
func (d *dumpEval) over(kind string, dom *Term, depth int, body func(e, ix *Term) *Term, lvl int) *Term {
	build := func(ps ...*Term) *Term { return mkList(ps...) }
	empty := tEmptyList
	if kind == "str" {
		build, empty = func(ps ...*Term) *Term { return mkStr(ps...) }, tEmptyStr
	}
	if dom == tEmptyList || dom == tNil {
		return empty
	}
	plain := func() *Term {
		b := body(mkElem(dom, depth, nil), mkIdx(dom, depth))
		return mkRep(kind, dom, depth, b)
	}
	if kind != "str" && kind != "list" {
		return plain()
	}
	if dom.op == OIte {
		return mkIte(dom.bdd, d.over(kind, dom.args[0], depth, body, lvl), d.over(kind, dom.args[1], depth, body, lvl))
	}
	if dom.op != OList {
		return plain()
	}
	// one row, one item: positions are those of the rows
	if len(dom.args) == 1 && dom.args[0].op == ORep && dom.args[0].str == "list" {
		x := dom.args[0]
		dd := 2000 + lvl
		e2, i2 := mkElem(x.args[0], dd, nil), mkIdx(x.args[0], dd)
		items := substTerm(x.args[1], openMap(x, e2, i2))
		if p := listParts(items); len(p) == 1 && p[0].op == OItem {
			return mkRep(kind, x.args[0], dd, body(p[0].args[0], i2))
		}
	}
	var out []*Term
	for i, x := range dom.args {
		switch x.op {
		case OItem:
			var ix *Term
			if known := knownLen(dom); known >= 0 {
				ix = mkInt(int64(i))
			}
			r := body(x.args[0], ix)
			if r == nil {
				return plain()
			}
			out = append(out, r)
		case OIte:
			r := d.over(kind, x, depth, func(e, _ *Term) *Term { return body(e, nil) }, lvl)
			if r == nil {
				return plain()
			}
			out = append(out, r)
		case ORep:
			dd := 2000 + lvl
			e2 := mkElem(x.args[0], dd, nil)
			items := substTerm(x.args[1], openMap(x, e2, mkIdx(x.args[0], dd)))
			failed := false
			r := d.over(kind, items, depth+1, func(e, _ *Term) *Term {
				b := body(e, nil)
				if b == nil {
					failed = true
					return empty
				}
				return b
			}, lvl+1)
			if failed {
				return plain()
			}
			out = append(out, mkRep(kind, x.args[0], dd, r))
		default:
			return plain()
		}
	}
	return build(out...)
}

// column names the column of a row by what the query selects there.
func (d *dumpEval) column(t *Term, args []*Term) *Term {
	row := args[0]
	q := row
	for q.op == OElem || q.op == OBElem || q.op == OFirst || q.op == OApp && q.str == "rows" {
		q = q.args[0]
	}
	i, _ := args[1].intConst()
	n, _ := args[2].intConst()
	if q.op != OApp || !strings.HasPrefix(q.str, "query:") {
		return mkApp("col", t.typ, args...)
	}
	name := q.str[6:]
	f := d.queries[name]
	items := f.items
	if len(items) == 0 {
		k := name
		if m := colFix.FindStringSubmatch(name); m != nil {
			k = strings.TrimSpace(m[1])
		}
		items = showColumns[k]
	}
	if int(n) != len(items) {
		d.bad = append(d.bad, fmt.Sprintf("%d values are read from a row of %s, which has %d", n, name, len(items)))
		return mkApp("col", t.typ, args...)
	}
	return mkApp("col:"+items[i], nil, row)
}

func isColumn(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.str, "col:") }

// separated: text with a separator before all but the first piece is the same
// as the pieces joined.
func separated(t *Term, depth int) *Term {
	if t.op != ORep || t.str != "str" {
		return t
	}
	e, ix := mkElem(t.args[0], depth, nil), mkIdx(t.args[0], depth)
	body := substTerm(t.args[1], openMap(t, e, ix))
	if !mentions(body, ix) {
		return t
	}
	later := mkCmpBDD("lt", mkInt(0), ix)
	first, rest := strParts(restrictTerm(body, bNot(later))), strParts(restrictTerm(body, later))
	if len(rest) == 0 {
		return t
	}
	s, ok := rest[0].strConst()
	if !ok {
		return t
	}
	sep, f := s, ""
	n := 0
	if len(first) > 0 {
		if f, ok = first[0].strConst(); ok {
			n = 1
		} else {
			f = ""
		}
	}
	if !strings.HasSuffix(s, f) {
		return t
	}
	sep = strings.TrimSuffix(s, f)
	a, b := mkStr(first[n:]...), mkStr(rest[1:]...)
	if a != b || sep == "" || mentions(a, ix) {
		return t
	}
	return mkApp("strings.Join", types.Typ[types.String], mkRep("list", t.args[0], depth, mkList(mkItem(mkStr(first...)))), mkStrC(sep))
}

// shortRows writes rows without the query they come from.
func shortRows(s string) string {
	var out strings.Builder
	for i := 0; i < len(s); {
		m := shortRow.FindStringIndex(s[i:])
		if m == nil {
			out.WriteString(s[i:])
			break
		}
		out.WriteString(s[i : i+m[0]])
		d, k := 1, i+m[1]
		for ; k < len(s) && d > 0; k++ {
			switch s[k] {
			case '(':
				d++
			case ')':
				d--
			}
		}
		for k < len(s) && s[k] == ')' && strings.HasPrefix(s[i+m[0]:], "(e") {
			k++
			break
		}
		out.WriteString(".")
		i = k
	}
	return out.String()
}

var shortRow = regexp.MustCompile(`\((elem\d+|e\d+∈)\(`)
