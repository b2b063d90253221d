package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks0["C11"] = checkC11 }

// ---- C11: the conversion from the parsed tree to the planner's model

// parsedActions lists the kinds of statement the grammar can produce: the
// constants stored in the Action field of a DDL node.
func (p *Program) parsedActions() []string {
	seen := map[string]bool{}
	for _, f := range p.functions("sqlparser") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(fa.X.Type().String(), "sqlparser.DDL") || fieldName(fa.X.Type(), fa.Field) != "Action" {
					continue
				}
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					seen[constant.StringVal(k.Value)] = true
				}
			}
		}
	}
	return keysOf(seen)
}

// converter finds the function that converts the text of one statement: it
// returns a repository interface and calls the SQL parser.
func (p *Program) converter() *ssa.Function {
	sp := p.pkg("schema")
	var cands []*ssa.Function
	for _, f := range p.functions("schema") {
		res := f.Signature.Results()
		if f.Signature.Recv() != nil || res.Len() != 2 || !isErrorType(res.At(1).Type()) {
			continue
		}
		n, ok := res.At(0).Type().(*types.Named)
		if !ok || n.Obj().Pkg() != sp.Pkg {
			continue
		}
		if _, ok := n.Underlying().(*types.Interface); !ok {
			continue
		}
		// text and dialect only
		okp := true
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if _, b := f.Signature.Params().At(i).Type().Underlying().(*types.Basic); !b {
				okp = false
			}
		}
		if okp {
			cands = append(cands, f)
		}
	}
	called := map[*ssa.Function]bool{}
	for _, f := range cands {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	for _, f := range cands {
		if !called[f] {
			return f
		}
	}
	return nil
}

func (p *Program) convEval() *Eval {
	ev := newEval(p)
	ev.noErr = true
	ev.snapAppend = true
	ev.inline = p.inlineNoParser
	ev.pureFns = map[string]bool{}
	for _, f := range p.functions("sqlparser") {
		ev.pureFns[f.String()] = true
	}
	return ev
}

func (p *Program) convArgs(fn *ssa.Function, mode int) []*Term {
	var args []*Term
	for _, q := range fn.Params {
		if isStringType(q.Type()) {
			args = append(args, mkSym("$text", q.Type()))
		} else {
			args = append(args, mkInt(int64(mode)))
		}
	}
	return args
}

func isParse(name string, rtyp types.Type) bool {
	tp, ok := rtyp.(*types.Tuple)
	return ok && tp.Len() == 2 && isErrorType(tp.At(1).Type()) && strings.HasPrefix(name, modPath+"/sqlparser.Parse")
}

// converted evaluates the conversion of a statement that was parsed to a DDL
// node with the given action: the resulting object's value.
func (p *Program) converted(fn *ssa.Function, mode int, action string) (val *Term, typ types.Type, res Result, ev *Eval) {
	ev = p.convEval()
	st := newState()
	dt := p.pkg("sqlparser").Type("DDL").Type()
	stmt := mkSym("$stmt", types.NewPointer(dt))
	st.set(stmt, mkUpdate(mkDeref(stmt, dt), "Action", mkStrC(action), dt))
	ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
		if !isParse(name, rtyp) {
			return nil, false
		}
		return tuple(mkIface(stmt, stmt.typ), tNil), true
	}
	res = ev.Call(fn, p.convArgs(fn, mode), nil, st, 0, "conv "+action)
	if res.alive == False {
		return nil, nil, res, ev
	}
	r := mkField(res.ret, "0", nil)
	if r.op != OIface {
		return nil, nil, res, ev
	}
	a := &act{ev: ev, fn: fn}
	v := a.snapshot(r, res.st, 12)
	return mkDeref(v.args[0], derefType(r.typ)), r.typ, res, ev
}

// astPath names the part of the parsed tree a term denotes; pointers and the
// things they point to share a name.
func astPath(t *Term) (string, bool) {
	switch t.op {
	case OSym:
		if t.str == "$stmt" {
			return "", true
		}
		if strings.HasPrefix(t.str, "P:") {
			return t.str[2:], true
		}
	case OField:
		if s, ok := astPath(t.args[0]); ok {
			if s == "" {
				return t.str, true
			}
			return s + "." + t.str, true
		}
	case ODeref:
		return astPath(t.args[0])
	case OFieldAddr:
		if s, ok := astPath(t.args[0]); ok {
			if s == "" {
				return t.str, true
			}
			return s + "." + t.str, true
		}
	case OElem, OBElem:
		if s, ok := astPath(t.args[0]); ok {
			return s + "[]", true
		}
	case OApp:
		if t.str == "assert" {
			if s, ok := astPath(t.args[0]); ok {
				return s + "!" + shortType(t.args[1].str), true
			}
		}
		if t.str == "index" {
			if s, ok := astPath(t.args[0]); ok {
				return s + "[]", true
			}
		}
	}
	return "", false
}

func psym(path string) *Term { return mkSym("P:"+path, nil) }

type canonCtx struct {
	memo map[*Term]*Term
	bm   map[BDD]BDD
}

func newCanon() *canonCtx { return &canonCtx{map[*Term]*Term{}, map[BDD]BDD{}} }

func (cc *canonCtx) bdd(b BDD) BDD {
	if r, ok := cc.bm[b]; ok {
		return r
	}
	r := bMap(b, func(a *Term) BDD { return toBDD(cc.term(a)) })
	cc.bm[b] = r
	return r
}

func (cc *canonCtx) term(t *Term) *Term {
	if r, ok := cc.memo[t]; ok {
		return r
	}
	r := cc.term1(t)
	cc.memo[t] = r
	return r
}

func (cc *canonCtx) term1(t *Term) *Term {
	if s, ok := astPath(t); ok && s != "" {
		return psym(s)
	}
	if t.op == OSym || t.op == OConst || t.op == OZero || t.op == OUndef || t.op == OObj {
		return t
	}
	if t.op == OIte {
		return mkIte(cc.bdd(t.bdd), cc.term(t.args[0]), cc.term(t.args[1]))
	}
	args := make([]*Term, len(t.args))
	for i, x := range t.args {
		args[i] = cc.term(x)
	}
	if t.op == OField && t.str == "0" && args[0].op == OApp && args[0].str == "strconv.ParseBool" {
		if x := args[0].args[0]; x.op == OApp && strings.HasPrefix(x.str, "fmt%") {
			return x.args[0]
		}
	}
	if t.op == OApp && t.str == "isnil" {
		return fromBDD(isNilBDD(args[0]))
	}
	if t.op == OApp && t.str == "eq" {
		return fromBDD(eqBDD(args[0], args[1]))
	}
	return mk(Term{op: t.op, str: t.str, n: t.n, bdd: cc.bdd(t.bdd), args: args, typ: t.typ, val: t.val, fn: t.fn, keys: t.keys})
}

// cases lists the alternatives of a value with their conditions.
func cases(t *Term) []variant {
	var out []variant
	var rec func(t *Term, g BDD)
	rec = func(t *Term, g BDD) {
		if g == False {
			return
		}
		if t.op == OIte {
			rec(t.args[0], bAnd(g, t.bdd))
			rec(t.args[1], bAnd(g, bNot(t.bdd)))
			return
		}
		out = append(out, variant{g, t})
	}
	rec(t, True)
	return out
}

// absent is the condition that the part of the tree is not there: it, or a
// part containing it, is nil.
func absent(path string) BDD {
	r := False
	for i := 0; i <= len(path); i++ {
		if i == len(path) || path[i] == '.' || path[i] == '!' {
			if strings.HasSuffix(path[:i], "[]") || path[:i] == "" {
				continue
			}
			r = bOr(r, isNilBDD(psym(path[:i])))
		}
	}
	return r
}

func isDefault(t *Term) bool {
	if t == tNil {
		return true
	}
	if s, ok := t.strConst(); ok {
		return s == ""
	}
	if i, ok := t.intConst(); ok {
		return i == 0
	}
	if b, ok := t.boolConst(); ok {
		return !b
	}
	return t.op == OZero || t.op == OUndef
}

// ident recognises the text of an identifier: X.String() of the tree part.
func ident(t *Term, paths ...string) bool {
	if t.op != OApp || len(t.args) != 1 {
		return false
	}
	if !strings.HasPrefix(t.str, "("+modPath+"/sqlparser.") || !(strings.HasSuffix(t.str, "Ident).String") || strings.HasSuffix(t.str, ").Raw")) {
		return false
	}
	s, ok := astPath(t.args[0])
	return ok && has(paths, s)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type transfer struct {
	to   string // field of the model
	kind string // how it is carried
	from string // part of the tree; several with |
}

var (
	indexTransfers = func(pre, cols, info string) []transfer {
		ts := []transfer{
			{pre + "columns[].column", "ident", cols + "[].Column"},
			{pre + "columns[].length", "optint", cols + "[].Length"},
			{pre + "columns[].direction", "raw", cols + "[].Direction"},
		}
		return ts
	}
	indexSpecTransfers = append([]transfer{
		{"statement", "text", ""},
		{"tableName", "table", "Table"},
		{"index.name", "ident", "IndexSpec.Name"},
		{"index.unique", "bool", "IndexSpec.Unique"},
		{"index.clustered", "bool", "IndexSpec.Clustered"},
		{"index.where", "where", "IndexSpec.Where"},
		{"index.included[]", "ident", "IndexSpec.Included[]"},
		{"index.options[].optionName", "raw", "IndexSpec.Options[].Name"},
		{"index.options[].value", "value", "IndexSpec.Options[].Value"},
		{"index.partition.partitionName", "raw", "IndexSpec.Partition.Name"},
		{"index.partition.column", "raw", "IndexSpec.Partition.Column"},
	}, indexTransfers("index.", "IndexCols", "")...)
	fkTransfers = func(pre, src string) []transfer {
		return []transfer{
			{pre + "constraintName", "ident", src + "ConstraintName"},
			{pre + "indexName", "ident", src + "IndexName"},
			{pre + "indexColumns[]", "ident", src + "IndexColumns[]"},
			{pre + "referenceName", "ident", src + "ReferenceName"},
			{pre + "referenceColumns[]", "ident", src + "ReferenceColumns[]"},
			{pre + "onDelete", "ident", src + "OnDelete"},
			{pre + "onUpdate", "ident", src + "OnUpdate"},
			{pre + "notForReplication", "bool", src + "NotForReplication"},
		}
	}
	colSrc         = "TableSpec.Columns[]."
	tableTransfers = func() []transfer {
		t := colSrc + "Type."
		s := t + "Identity.Sequence."
		c := "table.columns[]."
		ts := []transfer{
			{"statement", "text", ""},
			{"table.name", "table", "NewName"},
			{c + "name", "ident", colSrc + "Name"},
			{c + "position", "pos", "TableSpec.Columns"},
			{c + "typeName", "raw", t + "Type"},
			{c + "unsigned", "bool", t + "Unsigned"},
			{c + "notNull", "optbool", t + "NotNull"},
			{c + "autoIncrement", "bool", t + "Autoincrement"},
			{c + "array", "bool", t + "Array"},
			{c + "defaultDef", "ptr", t + "Default|" + t + "Default.Value"},
			{c + "defaultDef*.constraintName", "ident", t + "Default.ConstraintName"},
			{c + "defaultDef*.value", "value", t + "Default.Value"},
			{c + "length", "value", t + "Length"},
			{c + "scale", "value", t + "Scale"},
			{c + "charset", "raw", t + "Charset"},
			{c + "collate", "collate", t + "Collate"},
			{c + "timezone", "bool", t + "Timezone"},
			{c + "keyOption", "enum", t + "KeyOpt"},
			{c + "onUpdate", "value", t + "OnUpdate"},
			{c + "enumValues", "rawlist", t + "EnumValues"},
			{c + "references", "raw", t + "References"},
			{c + "check", "ptr", t + "Check"},
			{c + "check*.definition", "sql", t + "Check.Where.Expr"},
			{c + "check*.constraintName", "identsql", t + "Check.ConstraintName"},
			{c + "check*.notForReplication", "bool", t + "Check.NotForReplication"},
			{c + "checkNoInherit", "bool", t + "CheckNoInherit"},
			{c + "identity", "ptr", t + "Identity"},
			{c + "identity*.behavior", "upper", t + "Identity.Behavior"},
			{c + "identity*.notForReplication", "bool", t + "Identity.NotForReplication"},
			{c + "sequence", "ptr", t + "Identity|" + t + "Identity.Sequence"},
		}
		for _, f := range []string{"Name", "Type", "OwnedBy"} {
			ts = append(ts, transfer{c + "sequence*." + f, "raw", s + f})
		}
		ts = append(ts, transfer{c + "sequence*.IfNotExists", "bool", s + "IfNotExists"})
		for _, f := range []string{"IncrementBy", "MinValue", "MaxValue", "StartWith", "Cache"} {
			ts = append(ts, transfer{c + "sequence*." + f, "optint", s + f})
		}
		for _, f := range []string{"NoMinValue", "NoMaxValue", "Cycle", "NoCycle"} {
			ts = append(ts, transfer{c + "sequence*." + f, "flag", s + f})
		}
		x := "TableSpec.Indexes[]."
		i := "table.indexes[]."
		ts = append(ts, indexTransfers(i, x+"Columns", "")...)
		ts = append(ts,
			transfer{i + "name", "ident", x + "Info.Name"},
			transfer{i + "indexType", "raw", x + "Info.Type"},
			transfer{i + "primary", "bool", x + "Info.Primary"},
			transfer{i + "unique", "bool", x + "Info.Unique"},
			transfer{i + "clustered", "bool", x + "Info.Clustered"},
			transfer{i + "options[].optionName", "raw", x + "Options[].Name"},
			transfer{i + "options[].value", "value", x + "Options[].Value"},
			transfer{i + "partition.partitionName", "raw", x + "Partition.Name"},
			transfer{i + "partition.column", "raw", x + "Partition.Column"})
		return append(ts, fkTransfers("table.foreignKeys[].", "TableSpec.ForeignKeys[].")...)
	}
)

// transfers: for each kind of statement the model type and what each of its
// parts must be taken from.
var transfers = map[string]struct {
	typ string
	ts  []transfer
}{
	"create":          {"CreateTable", tableTransfers()},
	"create index":    {"CreateIndex", indexSpecTransfers},
	"add index":       {"AddIndex", indexSpecTransfers},
	"add primary key": {"AddPrimaryKey", indexSpecTransfers},
	"add foreign key": {"AddForeignKey", append(fkTransfers("foreignKey.", "ForeignKey."), transfer{"statement", "text", ""}, transfer{"tableName", "table", "Table"})},
	"create policy": {"AddPolicy", []transfer{
		{"statement", "text", ""}, {"tableName", "table", "Table"},
		{"policy.name", "ident", "Policy.Name"}, {"policy.permissive", "ident", "Policy.Permissive"},
		{"policy.scope", "raw", "Policy.Scope"}, {"policy.roles[]", "ident", "Policy.To[]"},
		{"policy.using", "sql", "Policy.Using.Expr"}, {"policy.withCheck", "sql", "Policy.WithCheck.Expr"}}},
	"create view": {"View", []transfer{
		{"statement", "text", ""}, {"name", "ident", "View.Name.Name"}, {"definition", "sql", "View.Definition"}}},
	"create trigger": {"Trigger", []transfer{
		{"statement", "text", ""}, {"name", "ident", "Trigger.Name"}, {"tableName", "ident", "Trigger.TableName.Name"},
		{"time", "raw", "Trigger.Time"}, {"event", "raw", "Trigger.Event"}, {"body[]", "sql", "Trigger.Body[]"}}},
}

// part walks to a part of the model; lists must be carried over element by
// element, unconditionally, from the list of the source path.
func part(v *Term, to, from string) (*Term, string) {
	cc := newCanon()
	fromSegs := strings.Split(from, "[]")
	lists := 0
	for to != "" {
		if strings.HasPrefix(to, "[]") {
			to = strings.TrimPrefix(to[2:], ".")
			want := strings.Join(fromSegs[:lists+1], "[]")
			lists++
			l := fuse(v)
			if l.op == OIte { // nil list under a condition that it is absent
				for _, k := range cases(l) {
					if k.text.op == OList && len(k.text.args) > 0 {
						l = k.text
					}
				}
			}
			if s, ok := astPath(cc.term(l)); ok && s == want {
				v = psym(s + "[]")
				continue
			}
			if l.op != OList || len(l.args) != 1 || l.args[0].op != ORep {
				return nil, "the list is not built element by element from " + want + " (" + short(pp(l), 120) + ")"
			}
			rep := l.args[0]
			if s, ok := astPath(rep.args[0]); !ok || s != want {
				return nil, "the list is built from " + short(pp(cc.term(rep.args[0])), 80) + ", not from " + want
			}
			b := rep.args[1]
			if b.op == OItem {
				b = mk(Term{op: OList, args: []*Term{b}})
			}
			if b.op != OList || len(b.args) != 1 || b.args[0].op != OItem {
				return nil, "not every element of " + want + " is carried over exactly once"
			}
			v = b.args[0].args[0]
			continue
		}
		n := strings.IndexAny(to, ".[*")
		seg := to
		if n >= 0 {
			seg = to[:n]
		}
		to = to[len(seg):]
		v = mkField(v, seg, nil)
		if strings.HasPrefix(to, "*") {
			to = to[1:]
			v = mkDeref(v, nil)
		}
		to = strings.TrimPrefix(to, ".")
	}
	return v, ""
}

// enumConsts lists the constants of a named type by name.
func enumConsts(pkg *types.Package, named types.Type) map[string]int64 {
	out := map[string]int64{}
	for _, n := range pkg.Scope().Names() {
		k, ok := pkg.Scope().Lookup(n).(*types.Const)
		if !ok || !types.Identical(k.Type(), named) {
			continue
		}
		if i, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
			out[n] = i
		}
	}
	return out
}

func enumKey(n string) string {
	n = strings.ToLower(n)
	for _, p := range []string{"columnkeyoption", "colkeyoption", "columnkey", "colkey", "valuetype"} {
		if strings.HasPrefix(n, p) {
			n = n[len(p):]
			break
		}
	}
	n = strings.TrimPrefix(strings.TrimSuffix(n, "val"), "val")
	switch n {
	case "":
		return "key"
	case "arg":
		return "valarg"
	}
	return n
}

func (c *Check) checkTransfer(fn *ssa.Function, mode int, action string, v *Term, tr transfer) {
	key := modeNames[mode] + "/" + action + "/" + tr.to
	where := c.p.posStr(fn.Pos())
	froms := strings.Split(tr.from, "|")
	fail := func(d string) {
		c.require(false, "transfer", key, where, fmt.Sprintf("%s of a parsed %q statement must be taken from %s: %s", tr.to, action, tr.from, d))
	}
	raw, msg := part(v, tr.to, froms[len(froms)-1])
	if msg != "" {
		fail(msg)
		return
	}
	cc := newCanon()
	t := cc.term(raw)
	P := psym(froms[len(froms)-1])
	from := froms[len(froms)-1]
	// every alternative is the source itself, or the zero value where there is no source
	carried := func(ok func(*Term) bool, none BDD) {
		n := 0
		for _, k := range cases(t) {
			if ok(k.text) {
				n++
				continue
			}
			if isDefault(k.text) && implies(k.g, none) {
				continue
			}
			if unsat(k.g) {
				continue
			}
			fail(fmt.Sprintf("it can be %s (when %s)", short(pp(k.text), 420), short(ppb(k.g, 8), 1520)))
			return
		}
		c.require(n > 0, "transfer", key, where, tr.to+" is never taken from "+tr.from)
	}
	truth := func(b BDD) {
		here := bNot(absent(from))
		if !implies(b, toBDD(P)) {
			fail("it can be true although the source is false (" + short(ppb(b, 8), 120) + ")")
			return
		}
		if !implies(bAnd(toBDD(P), here), b) {
			fail("it can be false although the source is true (" + short(ppb(b, 8), 120) + ")")
			return
		}
		c.require(true, "transfer", key, where, "")
	}
	present := func() BDD { return bNot(isNilBDD(t)) }
	isP := func(x *Term) bool { s, ok := astPath(x); return ok && has(froms, s) }
	isVal := func(x *Term) bool { // text of a value, converted to string
		s, ok := astPath(x)
		return ok && s == from+".Val"
	}
	switch tr.kind {
	case "text":
		c.require(t.op == OSym && t.str == "$text", "transfer", key, where, "the statement text is not kept: "+short(pp(t), 100))
	case "ident":
		carried(func(x *Term) bool { return ident(x, froms...) }, bOr(absent(from), emptyIdent(t, froms)))
	case "identsql":
		carried(func(x *Term) bool {
			return ident(x, froms...) || x.op == OApp && x.str == modPath+"/sqlparser.String" && isP(stripIface(x.args[0]))
		}, bOr(absent(from), emptyIdent(t, froms)))
	case "raw", "rawlist":
		carried(isP, absent(from))
	case "bool":
		truth(toBDD(t))
	case "flag":
		b := toBDD(t)
		if implies(b, bNot(isNilBDD(P))) && implies(bAnd(bNot(absent(from)), toBDD(P)), b) {
			c.require(true, "transfer", key, where, "")
		} else {
			fail("it is true when " + short(ppb(b, 8), 120))
		}
	case "optbool":
		if p := present(); !(implies(p, bNot(isNilBDD(P))) && implies(bNot(p), absent(from))) {
			fail("it is present when " + short(ppb(p, 8), 120))
			return
		}
		t = cc.term(mkDeref(raw, nil))
		truth(toBDD(t))
	case "ptr":
		none := False
		for _, f := range froms {
			none = bOr(none, absent(f))
		}
		p := present()
		if !(implies(p, bNot(isNilBDD(psym(froms[0])))) && implies(bNot(p), none)) {
			fail("it is present when " + short(ppb(p, 8), 120))
			return
		}
		c.require(true, "transfer", key, where, "")
	case "optint":
		if p := present(); !implies(bAnd(bNot(p), bNot(absent(from))), False) || !implies(p, bNot(isNilBDD(P))) {
			// a length that is no integer is refused before
			miss := bAnd(bNot(p), bNot(absent(from)))
			bad := false
			for _, a := range bSupport(miss) {
				if !strings.Contains(pp(a), ".Type") && a.str != "isnil" {
					bad = true
				}
			}
			if bad || !implies(p, bNot(isNilBDD(P))) {
				fail("it is present when " + short(ppb(p, 8), 120))
				return
			}
		}
		t = cc.term(mkDeref(raw, nil))
		carried(func(x *Term) bool {
			return x.op == OField && x.str == "0" && x.args[0].op == OApp && (x.args[0].str == "strconv.Atoi" || x.args[0].str == "strconv.ParseInt") && isVal(x.args[0].args[0])
		}, notInt(c.p, from))
	case "upper":
		carried(func(x *Term) bool {
			return isP(x) || x.op == OApp && x.str == "strings.ToUpper" && isP(x.args[0])
		}, absent(from))
	case "sql":
		carried(func(x *Term) bool {
			return x.op == OApp && x.str == modPath+"/sqlparser.String" && isP(stripIface(x.args[0]))
		}, absent(from))
	case "where":
		W := from
		isText := func(x *Term) bool {
			if x.op != OApp || x.str != modPath+"/sqlparser.String" {
				return false
			}
			for _, k := range cases(stripIface(x.args[0])) {
				s, ok := astPath(stripIface(k.text))
				if !ok || s != W+".Expr" && s != W+".Expr!ParenExpr.Expr" {
					return false
				}
				for _, a := range bSupport(k.g) {
					if a.op == OApp && a.str == "istype" && strings.Contains(pp(a), "ParenExpr") && bRestrict(k.g, a, s == W+".Expr") != False {
						return false
					}
				}
			}
			return true
		}
		none := bOr(absent(W), bNot(eqBDD(psym(W+".Type"), mkStrC("where"))))
		carried(isText, none)
	case "collate":
		bin := eqBDD(P, mkStrC("binary"))
		for _, k := range cases(t) {
			if isP(k.text) {
				if !unsat(bAnd(k.g, bin)) {
					fail("the pseudo collation \"binary\" is kept")
					return
				}
				continue
			}
			if !implies(k.g, bin) {
				fail("it is replaced by " + short(pp(k.text), 100) + " although the collation is not the pseudo collation \"binary\"")
				return
			}
			if why := charsetBin(k.text); why != "" {
				fail("the collation for \"binary\": " + why)
				return
			}
		}
		c.require(true, "transfer", key, where, "")
	case "pos":
		ok := (t.op == OIdx || t.op == OBIdx) && len(t.args) == 1
		if ok {
			s, o := astPath(t.args[0])
			ok = o && s == from
		}
		if !ok {
			fail("it is " + short(pp(t), 100))
			return
		}
		c.require(true, "transfer", key, where, "")
	case "table":
		name := func(x *Term) bool { return ident(x, from+".Name") }
		qual := func(x *Term) bool { return ident(x, from+".Qualifier") }
		for _, k := range cases(distribute(t)) {
			ps := strParts(k.text)
			if mode != 1 {
				if len(ps) == 1 && name(ps[0]) {
					continue
				}
				fail("the name is " + short(pp(k.text), 120))
				return
			}
			if len(ps) >= 2 && name(ps[len(ps)-1]) {
				if len(ps) == 2 {
					if s, ok := ps[0].strConst(); ok && s == "public." && implies(k.g, emptyIdent(t, []string{from + ".Qualifier"})) {
						continue
					}
				}
				if len(ps) == 3 && qual(ps[0]) {
					if s, ok := ps[1].strConst(); ok && s == "." {
						continue
					}
				}
			}
			fail("the qualified name is " + short(pp(k.text), 160) + " when " + short(ppb(k.g, 6), 100))
			return
		}
		c.require(true, "transfer", key, where, "")
	case "enum":
		c.enumMap(key, where, t, P, "ColumnKeyOption", "ColumnKeyOption")
	case "value":
		c.valueTransfer(key, where, raw, from)
	default:
		panic("kind " + tr.kind)
	}
}

// emptyIdent: the identifier is empty.
func emptyIdent(t *Term, paths []string) BDD {
	r := False
	walkTerm(t, func(x *Term) bool {
		if ident(x, paths...) {
			r = bOr(r, eqBDD(x, tEmptyStr))
		}
		return true
	})
	return r
}

// notInt: the value is not an integer literal.
func notInt(p *Program, from string) BDD {
	k := p.pkg("sqlparser").Const("IntVal")
	if k == nil {
		return absent(from)
	}
	i, _ := constant.Int64Val(k.Value.Value)
	return bOr(absent(from), bNot(eqBDD(psym(from+".Type"), mkInt(i))))
}

// distribute moves alternatives inside a string to the outside.
func distribute(t *Term) *Term {
	if t.op == OIte {
		return mkIteRaw(t.bdd, distribute(t.args[0]), distribute(t.args[1]))
	}
	if t.op != OStr {
		return t
	}
	for i, p := range t.args {
		if p.op == OIte {
			mkv := func(x *Term) *Term {
				ps := append([]*Term{}, t.args...)
				ps[i] = x
				return distribute(mkStr(ps...))
			}
			return mk(Term{op: OIte, bdd: p.bdd, args: []*Term{mkv(p.args[0]), mkv(p.args[1])}, typ: t.typ})
		}
	}
	return t
}

// charsetBin: the text is the table's character set followed by _bin.
func charsetBin(t *Term) string {
	why := ""
	named := false
	for _, k := range cases(distribute(t)) {
		ps := strParts(k.text)
		if len(ps) == 0 {
			return "it is empty"
		}
		walkTerm(k.text, func(x *Term) bool {
			if s, ok := astPath(x); ok && strings.HasSuffix(s, "Options") {
				named = true
			}
			if x.op == OApp && x.str == "strings.TrimPrefix" {
				if s, ok := x.args[1].strConst(); !ok || s != "charset=" {
					why = "what is taken off the option is not its name"
				}
			}
			if x.op == OFirst {
				for _, a := range bSupport(x.bdd) {
					if strings.Contains(pp(a), `"charset=`) && a.op == OApp && strings.HasSuffix(a.str, ".HasPrefix") && bRestrict(x.bdd, a, false) != False {
						why = "it is not of the option charset="
					}
				}
			}
			return true
		})
		if s, ok := ps[len(ps)-1].strConst(); !ok || !strings.HasSuffix(s, "_bin") {
			return "it does not end in _bin"
		}
		walkTerm(k.text, func(x *Term) bool {
			if x.op == OApp && (x.str == "strings.TrimLeft" || x.str == "strings.TrimRight" || x.str == "strings.Trim") {
				if s, ok := x.args[1].strConst(); ok && len(s) > 1 {
					why = fmt.Sprintf("%s with the set of characters %q removes more than the option's name", x.str, s)
				}
			}
			return true
		})
	}
	if !named && why == "" {
		why = "it does not depend on the options of the table"
	}
	return why
}

// enumMap: each constant of the parser's enumeration becomes the planner's
// constant of the same name.
func (c *Check) enumMap(key, where string, t, P *Term, fromType, toType string) {
	sp, mp := c.p.pkg("sqlparser").Pkg, c.p.pkg("schema").Pkg
	ft, tt := sp.Scope().Lookup(fromType), mp.Scope().Lookup(toType)
	if ft == nil || tt == nil {
		c.require(false, "enum", key, where, "enumeration type not found")
		return
	}
	to := map[string]int64{}
	for n, v := range enumConsts(mp, tt.Type()) {
		to[enumKey(n)] = v
	}
	fc := enumConsts(sp, ft.Type())
	names := make([]string, 0)
	for n := range fc {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r := substTerm(t, map[*Term]*Term{P: mkInt(fc[n])})
		got, ok := r.intConst()
		want, has := to[enumKey(n)]
		c.require(ok && has && got == want, "enum", key+"/"+n, where,
			fmt.Sprintf("the parser's %s (%d) must become the planner's constant of the same meaning (%d), but becomes %s", n, fc[n], want, short(pp(r), 80)))
	}
	c.floor("enum constants "+fromType, len(names), 5)
}

// valueTransfer: a literal is carried with its kind and its text.
func (c *Check) valueTransfer(key, where string, raw *Term, from string) {
	sp, mp := c.p.pkg("sqlparser").Pkg, c.p.pkg("schema").Pkg
	ft, tt := sp.Scope().Lookup("ValType"), mp.Scope().Lookup("ValueType")
	if ft == nil || tt == nil {
		c.require(false, "value", key, where, "value type enumerations not found")
		return
	}
	to := map[string]int64{}
	for n, v := range enumConsts(mp, tt.Type()) {
		to[enumKey(n)] = v
	}
	fc := enumConsts(sp, ft.Type())
	cc := newCanon()
	none := isNilBDD(cc.term(raw))
	content := mkDeref(raw, nil)
	vt, rw := cc.term(mkField(content, "valueType", nil)), cc.term(mkField(content, "raw", nil))
	sv, iv, fv := cc.term(mkField(content, "strVal", nil)), cc.term(mkField(content, "intVal", nil)), cc.term(mkField(content, "floatVal", nil))
	kind := psym(from + ".Type")
	ab := absent(from)
	n := 0
	for name, k := range fc {
		n++
		m := map[*Term]*Term{kind: mkInt(k)}
		kk := key + "/" + name
		if nb := substBDD(none, m); !implies(nb, ab) {
			c.require(false, "value", kk, where, "a literal of kind "+name+" is dropped when "+short(ppb(nb, 6), 100))
			continue
		}
		got, ok := firstInt(restrictTerm(substTerm(vt, m), bNot(ab)))
		c.require(ok && got == to[enumKey(name)], "value", kk, where, fmt.Sprintf("a literal of kind %s gets kind %d (%v), not %d", name, got, ok, to[enumKey(name)]))
		field := func(f string, t *Term, ok func(*Term) bool) {
			t = restrictTerm(substTerm(t, m), bNot(ab))
			good := true
			for _, k := range cases(t) {
				if !ok(k.text) && !unsat(k.g) && k.text.op != OUndef {
					good = false
				}
			}
			c.require(good, "value", kk+"."+f, where, "the "+f+" of a literal of kind "+name+" is "+short(pp(t), 100))
		}
		isText := func(x *Term) bool { s, ok := astPath(x); return ok && s == from+".Val" }
		conv := func(names ...string) func(x *Term) bool {
			return func(x *Term) bool {
				return x.op == OField && x.str == "0" && x.args[0].op == OApp && has(names, x.args[0].str) && isText(x.args[0].args[0])
			}
		}
		field("text", rw, isText)
		switch enumKey(name) {
		case "str":
			field("string", sv, isText)
		case "int":
			field("integer", iv, conv("strconv.Atoi", "strconv.ParseInt"))
		case "float":
			field("number", fv, conv("strconv.ParseFloat"))
		}
	}
	c.floor("literal kinds", n, 8)
}

func firstInt(t *Term) (int64, bool) {
	r, ok := int64(0), false
	for _, k := range cases(t) {
		if k.text.op == OUndef || unsat(k.g) {
			continue
		}
		i, o := k.text.intConst()
		if !o || ok && i != r {
			return 0, false
		}
		r, ok = i, true
	}
	return r, ok
}

func checkC11(c *Check) {
	c.checkGrammar()
	fn := c.p.converter()
	if fn == nil {
		c.require(false, "coverage", "converter", "", "the function that converts one parsed statement was not found")
		return
	}
	acts := c.p.parsedActions()
	c.floor("statement kinds the grammar produces", len(acts), 10)
	for mode := range modeNames {
		n := 0
		for _, a := range keysOf(transfersKeys()) {
			spec := transfers[a]
			if !c.require(has(acts, a), "kind", a, "", "the grammar no longer produces statements of kind "+a) {
				continue
			}
			v, typ, _, _ := c.p.converted(fn, mode, a)
			if !c.require(v != nil && shortType(typ.String()) == spec.typ, "kind", modeNames[mode]+"/"+a, c.p.posStr(fn.Pos()), fmt.Sprintf("a parsed %q statement does not become a %s", a, spec.typ)) {
				continue
			}
			for _, tr := range spec.ts {
				n++
				c.checkTransfer(fn, mode, a, v, tr)
			}
		}
		c.floor("attribute transfers "+modeNames[mode], n, 120)
	}
	c.explain = append(c.explain, "Every rule of the grammar that describes an object is evaluated as a function of the values of its symbols (the semantic actions of the compiled parser, with the constructors they call): each part of the parsed tree is taken from the symbol, or set to the constant, that the reviewed table names for it; every rule whose keywords mean something sets it; no symbol that carries a value is thrown away; no rule leaves what an earlier one left behind.")
	c.explain = append(c.explain, "Each model field's value is computed symbolically from the parsed tree for every kind of statement and dialect; every alternative of it must be the tree part of the same meaning (through a conversion that keeps it), or the zero value exactly where that part is missing; lists are carried element by element; enumerations constant by constant.")
	c.assume = append(c.assume, "sqlparser.String and the identifier String methods render what they are given (claimed separately as C20)")
}

func transfersKeys() map[string]bool {
	m := map[string]bool{}
	for k := range transfers {
		m[k] = true
	}
	return m
}
