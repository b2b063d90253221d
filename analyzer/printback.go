package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Printing what was parsed. The value that a production makes of the values of
// its symbols is printed, symbolically: parts that are symbols stand for
// themselves.

const trackedBuffer = "(*" + modPath + "/sqlparser.TrackedBuffer)"

// nodePrinter evaluates sqlparser.String on what a production makes.
type nodePrinter struct {
	g   *grammarProg
	ev  *Eval
	bad []string
}

func (g *grammarProg) newPrinter() *nodePrinter {
	q := &nodePrinter{g: g}
	ev := newEval(g.Program)
	ev.noErr = true
	ev.snapAppend = true
	ev.inline = func(f *ssa.Function) bool { return g.inRepo(f) }
	ev.unroll = true
	ev.special = map[string]func(a *act, in ssa.Instruction, args []*Term, rtyp types.Type, gd BDD, st *State) (*Term, BDD, *State){
		trackedBuffer + ".Myprintf": q.printf,
		trackedBuffer + ".WriteArg": func(a *act, in ssa.Instruction, args []*Term, rtyp types.Type, gd BDD, st *State) (*Term, BDD, *State) {
			q.write(a, args[0], args[1], gd, st)
			return tuple(), True, st
		},
		"(" + modPath + "/sqlparser/dependency/sqltypes.Value).EncodeSQL": func(a *act, in ssa.Instruction, args []*Term, rtyp types.Type, gd BDD, st *State) (*Term, BDD, *State) {
			val := mkField(args[0], "val", nil)
			if m := args[0]; m.op == OApp && strings.HasSuffix(m.str, ".MakeTrusted") {
				val = m.args[1]
			}
			if w := stripIface(args[1]); strings.HasSuffix(types.TypeString(args[1].typ, nil), "TrackedBuffer") {
				q.write(a, w, mkStr(mkStrC("'"), val, mkStrC("'")), gd, st)
			} else {
				a.bufAppend(w, mkStr(mkStrC("'"), val, mkStrC("'")), gd, st)
			}
			return tuple(), True, st
		},
		modPath + "/sqlparser.formatID": func(a *act, in ssa.Instruction, args []*Term, rtyp types.Type, gd BDD, st *State) (*Term, BDD, *State) {
			q.write(a, args[0], args[1], gd, st)
			return tuple(), True, st
		},
	}
	q.ev = ev
	// a node printed by calling its method
	sn := g.pkg("sqlparser").Type("SQLNode").Type().Underlying().(*types.Interface)
	scope := g.pkg("sqlparser").Pkg.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			obj, _, _ := types.LookupFieldOrMethod(t, true, tn.Pkg(), "Format")
			m, ok := obj.(*types.Func)
			if !ok || !types.Implements(t, sn) {
				continue
			}
			t := t
			if _, ok := t.Underlying().(*types.Interface); ok {
				q.ev.special["invoke "+m.FullName()] = func(a *act, in ssa.Instruction, args []*Term, rtyp types.Type, gd BDD, st *State) (*Term, BDD, *State) {
					al, nst := q.node(a, in, args[0], args[1], instrName(in)+a.unroll, gd, st)
					return tuple(), al, nst
				}
			} else if r := m.Type().(*types.Signature).Recv(); types.Identical(r.Type(), t) {
				q.ev.special[m.FullName()] = func(a *act, in ssa.Instruction, args []*Term, rtyp types.Type, gd BDD, st *State) (*Term, BDD, *State) {
					al, nst := q.node(a, in, mkIface(args[0], t), args[1], instrName(in)+a.unroll, gd, st)
					return tuple(), al, nst
				}
			}
		}
	}
	return q
}

// write appends to a tracked buffer.
func (q *nodePrinter) write(a *act, buf, s *Term, g BDD, st *State) {
	b := a.load(mkFieldAddr(buf, "Buffer", nil), st, nil)
	a.bufAppend(b, s, g, st)
}

// printf is TrackedBuffer.Myprintf: %s a string or bytes, %c a character, %a a
// bind variable, %v a node.
func (q *nodePrinter) printf(a *act, in ssa.Instruction, args []*Term, rtyp types.Type, g BDD, st *State) (*Term, BDD, *State) {
	at := q.g.posStr(in.Pos())
	f, ok := args[1].strConst()
	vals, vok := variadic(a.snapList(args[2], st))
	if !ok || !vok {
		q.bad = append(q.bad, at+": the format is not a constant")
		return tuple(), True, st
	}
	n := 0
	alive := True
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 == len(f) {
			j := strings.IndexByte(f[i:], '%')
			if j <= 0 {
				j = len(f) - i
			}
			q.write(a, args[0], mkStrC(f[i:i+j]), g, st)
			i += j - 1
			continue
		}
		i++
		if n >= len(vals) {
			q.bad = append(q.bad, at+": too few values for the format "+f)
			break
		}
		v := vals[n]
		n++
		switch f[i] {
		case 's', 'a', 'c':
			x := stripIface(v)
			if v.op == OIface {
				if d := acceptsVerb(f[i], v.typ); d != "" {
					q.bad = append(q.bad, at+": "+d)
				}
			}
			if k, ok := x.intConst(); ok && f[i] == 'c' {
				x = mkStrC(string(rune(k)))
			}
			q.write(a, args[0], x, g, st)
		case 'v':
			var al BDD
			al, st = q.node(a, in, v, args[0], fmt.Sprintf("%s.%d", instrName(in)+a.unroll, n), g, st)
			alive = bAnd(alive, al)
		default:
			q.bad = append(q.bad, fmt.Sprintf("%s: the printer has no verb %%%c", at, f[i]))
		}
	}
	if n < len(vals) {
		q.bad = append(q.bad, at+": values that the format does not use")
	}
	return tuple(), alive, st
}

// acceptsVerb: the printer takes the dynamic type of a value as it is.
func acceptsVerb(verb byte, t types.Type) string {
	s := types.TypeString(t, nil)
	switch verb {
	case 's':
		if s != "string" && s != "[]byte" {
			return "%s of a " + shortType(s) + ", which the printer does not take"
		}
	case 'a':
		if s != "string" {
			return "%a of a " + shortType(s) + ", which the printer does not take"
		}
	case 'c':
		if s != "byte" && s != "uint8" && s != "rune" && s != "int32" {
			return "%c of a " + shortType(s) + ", which the printer does not take"
		}
	}
	return ""
}

// node prints a node.
func (q *nodePrinter) node(a *act, in ssa.Instruction, v, buf *Term, label string, g BDD, st *State) (BDD, *State) {
	if v.op == OIface {
		x := v.args[0]
		if _, sym := symbolOf(x); !sym || q.changed(x, st) {
			sn := q.g.pkg("sqlparser").Type("SQLNode").Type().Underlying().(*types.Interface)
			for i := 0; i < sn.NumMethods(); i++ {
				if sn.Method(i).Name() != "Format" {
					continue
				}
				if m := q.g.method(v.typ, sn.Method(i)); m != nil {
					_, al, nst := a.inlined(m, []*Term{x, buf}, nil, label, g, st)
					return al, nst
				}
			}
			q.bad = append(q.bad, "no printer of "+v.typ.String())
		}
		v = x
	}
	q.write(a, buf, mkApp("node", types.Typ[types.String], v), g, st)
	return True, st
}

// changed tells whether the object a symbol points to was changed in place.
func (q *nodePrinter) changed(x *Term, st *State) bool {
	if _, ok := x.typ.(*types.Pointer); !ok {
		return false
	}
	_, ok := st.get(x)
	return ok
}

// printed is the text of what a production makes.
func (q *nodePrinter) printed(i int) (*Term, string) {
	fn := q.g.fn[i]
	if fn == nil {
		return nil, "no function"
	}
	pr := &q.g.prods[i]
	st := newState()
	res := q.ev.Call(fn, q.g.symbols(i), nil, st, 0, fmt.Sprintf("prod%d", i))
	if res.ret == nil || res.ret == tUndef {
		return nil, "no value"
	}
	v := res.ret
	if v == tNil || v.op == OZero && v.typ != nil && isPointer(v.typ) {
		return nil, "nil"
	}
	rt := fn.Signature.Results().At(0).Type()
	if _, ok := rt.Underlying().(*types.Interface); !ok {
		v = mkIface(v, rt)
	}
	return q.text(v, res.st, fmt.Sprintf("print%d:%s", i, pr.lhs)), ""
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// text is what sqlparser.String makes of a node.
func (q *nodePrinter) text(v *Term, st *State, label string) *Term {
	if v.op == OIte {
		return mkIte(v.bdd, q.text(v.args[0], st, label+"+"), q.text(v.args[1], st, label+"-"))
	}
	if _, ok := v.typ.(*types.Interface); v == tNil || v.op == OUndef || ok {
		return tUndef
	}
	res := q.ev.Call(q.g.pkg("sqlparser").Func("String"), []*Term{v}, nil, st, 0, label)
	return res.ret
}

// ---- comparing the text with the rule

// printText writes a printed value with its symbols as $1, $2, …: what a
// statement prints to in which all the optional parts are there. Parts that
// depend on anything else than on being there are written {cond ? a : b}.
func (pr *production) printText(t *Term) string {
	var sb strings.Builder
	for _, x := range strParts(t) {
		sb.WriteString(pr.printPart(x))
	}
	return sb.String()
}

func (pr *production) printPart(x *Term) string {
	if s, ok := x.strConst(); ok {
		return s
	}
	if x.op == OApp && x.str == "node" {
		x = x.args[0]
		if x.op == OIface {
			x = x.args[0]
		}
	}
	if k, ok := symbolOf(x); ok {
		if k > 0 && isWord(pr.rhs[k-1]) {
			return strings.ToLower(pr.rhs[k-1])
		}
		s := fmt.Sprintf("$%d", k)
		switch f := fieldsOf(x); f {
		case "", "val", "v":
		default:
			s += "." + f
		}
		return s
	}
	if d := x; true {
		for d.op == OField || d.op == ODeref || d.op == OIface {
			d = d.args[0]
		}
		if d.op == OBElem {
			if k, ok := symbolOf(d.args[0]); ok {
				return strings.TrimSuffix(strings.TrimSuffix(fmt.Sprintf("$%d:element.%s", k, fieldsOf(x)), ".val"), ".v")
			}
		}
	}
	switch {
	case x.op == OUndef:
		return ""
	case x.op == OIte:
		g := x.bdd
		for _, at := range bSupport(x.bdd) {
			if _, ok := absence(at); ok || at.op == OApp && at.str == "istype" {
				g = bRestrict(g, at, false)
			}
		}
		switch g {
		case True:
			return pr.printText(x.args[0])
		case False:
			return pr.printText(x.args[1])
		}
		l, r := pr.printText(x.args[0]), pr.printText(x.args[1])
		if normalText(l) == normalText(r) {
			return l
		}
		if l > r {
			l, r = r, l
		}
		return "{" + l + " | " + r + "}"
	case x.op == ORep && len(x.args) > 1:
		dom := x.args[0]
		if dom.op != OList {
			k, ok := symbolOf(dom)
			if !ok {
				return "[" + pp(x) + "]"
			}
			el := mk(Term{op: OBElem, args: []*Term{dom}, n: x.n})
			ix := mk(Term{op: OBIdx, args: []*Term{dom}, n: x.n})
			part := func(i int64) string {
				return pr.printText(substTerm(x.args[1], map[*Term]*Term{el: mkSym(fmt.Sprintf("$%d:element", k), nil), ix: mkInt(i)}))
			}
			return repeated(part(0), part(1))
		}
		var sb strings.Builder
		for j, y := range dom.args {
			el := mk(Term{op: OBElem, args: []*Term{dom}, n: x.n})
			ix := mk(Term{op: OBIdx, args: []*Term{dom}, n: x.n})
			if y.op == ORep && len(y.args) > 1 {
				v := y.args[1]
				for v.op == OItem || v.op == OList && len(v.args) == 1 {
					v = v.args[0]
				}
				part := func(i int) string {
					return pr.printText(substTerm(x.args[1], map[*Term]*Term{el: v, ix: mkInt(int64(i))}))
				}
				sb.WriteString(repeated(part(j), part(j+1)))
				continue
			}
			if y.op != OItem {
				sb.WriteString(pr.printPart(y))
				continue
			}
			first := mkInt(int64(j))
			sb.WriteString(pr.printText(substTerm(x.args[1], map[*Term]*Term{el: y.args[0], ix: first})))
		}
		return sb.String()
	case x.op == OApp && strings.HasPrefix(x.str, "conv:"), x.op == OItem:
		return pr.printPart(x.args[0])
	case x.op == OList:
		var l []string
		for _, y := range x.args {
			l = append(l, pr.printPart(y))
		}
		return strings.Join(l, ", ")
	}
	return symbolRef.ReplaceAllString("<"+pp(x)+">", "")
}

// repeated writes a list of which the first and the next element are given:
// what is in front of the list, then the element with what separates it.
func repeated(first, next string) string {
	i, j := len(first), len(next)
	for i > 0 && j > 0 && first[i-1] == next[j-1] {
		i, j = i-1, j-1
	}
	for i < len(first) && first[i] == ' ' {
		i, j = i+1, j+1
	}
	return first[:i] + "[" + next[:j] + "|" + first[i:] + "]"
}

// absence recognises a condition that holds when a part is not there, and gives
// that part.
func absence(at *Term) (*Term, bool) {
	if at.op == OApp && at.str == "isnil" && len(at.args) == 1 {
		return at.args[0], true
	}
	if at.op == OApp && at.str == "eq" && len(at.args) == 2 {
		for i, x := range at.args {
			if x == tEmptyStr || x == tEmptyList || x == tNil {
				return at.args[1-i], true
			}
		}
	}
	return nil, false
}

var gaps = regexp.MustCompile(`\s+`)

func normalText(s string) string {
	s = gaps.ReplaceAllString(" "+s+" ", " ")
	for _, p := range []string{"(", ")", ",", "."} {
		s = strings.ReplaceAll(s, " "+p, p)
		s = strings.ReplaceAll(s, p+" ", p)
	}
	return strings.TrimSpace(s)
}

// ruleText is the text of a production in the same notation.
func (pr *production) ruleText() string {
	var out []string
	for k, s := range pr.rhs {
		switch {
		case s == "$action":
		case s == "openb":
			out = append(out, "(")
		case s == "closeb":
			out = append(out, ")")
		case s[0] == '\'':
			out = append(out, strings.Trim(s, "'"))
		case isWord(s):
			out = append(out, strings.ToLower(s))
		default:
			out = append(out, fmt.Sprintf("$%d", k+1))
		}
	}
	return normalText(strings.Join(out, " "))
}

// printsAs lists the productions whose value is printed in other words than
// they are written in, with what they print to. Reviewed: parts of a list carry
// their separator, the lists their brackets, the optional clauses are introduced
// by what contains them. A production that is not here prints as it is written.
const printsAs = `
select_statement: base_select order_by_opt limit_opt lock_opt  =>  select $1.Comments$1.Cache$1.Distinct$1.Hints$1.SelectExprs from $1.From$1.Where$1.GroupBy$1.Having$2$3$4
select_statement: union_lhs union_op union_rhs order_by_opt limit_opt lock_opt  =>  $1 $2 $3$4$5$6
select_statement: SELECT comment_opt cache_opt NEXT num_val for_from table_name  =>  select $2$3next $5 values from $7
base_select: SELECT comment_opt cache_opt distinct_opt straight_join_opt select_expression_list from_opt where_expression_opt group_by_opt having_opt  =>  select $2$3$4$5$6 from $7 where $8$9 having $10
insert_statement: insert_or_replace comment_opt ignore_opt into_table_name opt_partition_clause insert_data on_dup_opt  =>  $1 $2$3into $4$5$6.Columns $6.Rows$7
insert_statement: insert_or_replace comment_opt ignore_opt into_table_name opt_partition_clause SET update_list on_dup_opt  =>  $1 $2$3into $4$5([,|$7:element.Name.Name])values([,|$7:element.Expr])$8
update_statement: UPDATE comment_opt table_references SET update_list where_expression_opt order_by_opt limit_opt  =>  update $2$3 set $5 where $6$7$8
delete_statement: DELETE comment_opt FROM table_name opt_partition_clause where_expression_opt order_by_opt limit_opt  =>  delete $2from $4$5 where $6$7$8
delete_statement: DELETE comment_opt FROM table_name_list USING table_references where_expression_opt  =>  delete $2$4 from $6 where $7
delete_statement: DELETE comment_opt table_name_list from_or_using table_references where_expression_opt  =>  delete $2$3 from $5 where $6
table_name_list: table_name_list ',' table_name  =>  $1,$3.Qualifier.v.$3.Name.v
opt_partition_clause: PARTITION openb partition_list closeb  =>  $3
length_opt:  =>  nil
length_opt: '(' INTEGRAL ')'  =>  $2
charset_opt: CHARACTER SET ID  =>  $3
charset_opt: CHARACTER SET BINARY  =>  binary
select_expression: expression as_ci_opt  =>  $1 as $2
as_ci_opt: AS col_alias  =>  $2
from_opt: FROM table_references  =>  $2
table_factor: subquery as_opt table_id  =>  $1 as $3
aliased_table_name: table_name as_opt_id index_hint_list  =>  $1 as $2$3
aliased_table_name: table_name PARTITION openb partition_list closeb as_opt_id index_hint_list  =>  $1$4 as $6$7
column_list: sql_id  =>  ($1)
column_list: KEY  =>  (key)
column_list: column_list ',' sql_id  =>  $1,$3)
partition_list: sql_id  =>  partition($1)
partition_list: partition_list ',' sql_id  =>  $1,$3)
join_table: table_reference inner_join table_factor join_condition_opt  =>  $1 $2 $3$4
join_table: table_reference straight_join table_factor on_expression_opt  =>  $1 $2 $3$4
join_table: table_reference outer_join table_reference join_condition  =>  $1 $2 $3$4
join_condition: USING '(' column_list ')'  =>  using $3
as_opt_id: AS table_alias  =>  $2
inner_join: INNER JOIN  =>  join
outer_join: LEFT OUTER JOIN  =>  left join
outer_join: RIGHT OUTER JOIN  =>  right join
natural_join: NATURAL outer_join  =>  {natural left join | natural right join}
into_table_name: INTO table_name  =>  $2
index_hint_list:  =>  nil
index_hint_list: USE INDEX openb column_list closeb  =>  use index([,|$4])
index_hint_list: IGNORE INDEX openb column_list closeb  =>  ignore index([,|$4])
index_hint_list: FORCE INDEX openb column_list closeb  =>  force index([,|$4])
where_expression_opt:  =>  nil
where_expression_opt: WHERE expression  =>  $2
expression: expression IS is_suffix  =>  $1 $3
expression: DEFAULT default_opt  =>  default($2)
default_opt: openb ID closeb  =>  $2
condition: value_expression LIKE value_expression like_escape_opt  =>  $1 like $3 escape $4
condition: value_expression NOT LIKE value_expression like_escape_opt  =>  $1 not like $4 escape $5
is_suffix: NULL  =>  is null
is_suffix: NOT NULL  =>  is not null
is_suffix: TRUE  =>  is true
is_suffix: NOT TRUE  =>  is not true
is_suffix: FALSE  =>  is false
is_suffix: NOT FALSE  =>  is not false
compare: LE  =>  <=
compare: GE  =>  >=
compare: NE  =>  !=
compare: NULL_SAFE_EQUAL  =>  <=>
like_escape_opt:  =>  nil
like_escape_opt: ESCAPE value_expression  =>  $2
value_expression: value_expression MOD value_expression  =>  $1 % $3
value_expression: value_expression SHIFT_LEFT value_expression  =>  $1 << $3
value_expression: value_expression SHIFT_RIGHT value_expression  =>  $1 >> $3
value_expression: column_name JSON_EXTRACT_OP value  =>  $1 -> $3
value_expression: column_name JSON_UNQUOTE_EXTRACT_OP value  =>  $1 ->> $3
value_expression: UNDERSCORE_BINARY value_expression  =>  _binary $2
value_expression: '+' value_expression  =>  +$2
value_expression: '-' value_expression  =>  -$2
value_expression: '~' value_expression  =>  ~$2
value_expression: '!' value_expression  =>  !$2
function_call_keyword: SUBSTR openb column_name FROM value_expression FOR value_expression closeb  =>  substr($3,$5,$7)
function_call_keyword: SUBSTRING openb column_name FROM value_expression FOR value_expression closeb  =>  substr($3,$5,$7)
function_call_keyword: MATCH openb select_expression_list closeb AGAINST openb value_expression match_option closeb  =>  match($3)against($7$8)
function_call_keyword: GROUP_CONCAT openb distinct_opt select_expression_list order_by_opt separator_opt closeb  =>  group_concat($3$4$5$6)
function_call_keyword: CASE expression_opt when_expression_list else_expression_opt END  =>  case $2 [|when $3.Cond then $3.Val ]else $4 end
function_call_nonkeyword: UTC_TIMESTAMP func_datetime_precision_opt  =>  utc_timestamp()
function_call_nonkeyword: UTC_TIME func_datetime_precision_opt  =>  utc_time()
function_call_nonkeyword: UTC_DATE func_datetime_precision_opt  =>  utc_date()
convert_type: BINARY length_opt  =>  binary($2)
convert_type: CHAR length_opt charset_opt  =>  char($2)character set $3
convert_type: CHAR length_opt ID  =>  char($2)$3
convert_type: DATETIME length_opt  =>  datetime($2)
convert_type: DECIMAL decimal_length_opt  =>  decimal($2.Length,$2.Scale)
convert_type: NCHAR length_opt  =>  nchar($2)
convert_type: SIGNED INTEGER  =>  signed
convert_type: TIME length_opt  =>  time($2)
convert_type: UNSIGNED INTEGER  =>  unsigned
simple_convert_type: int_type  =>  $1.Type
simple_convert_type: bool_type  =>  $1.Type
expression_opt:  =>  nil
separator_opt: SEPARATOR STRING  =>  separator '$2'
else_expression_opt:  =>  nil
else_expression_opt: ELSE expression  =>  $2
value: STRING  =>  '$1'
value: HEX  =>  X'hex'
value: BIT_LITERAL  =>  B'bit_literal'
num_val: sql_id  =>  1
num_val: INTEGRAL VALUES  =>  $1
num_val: VALUE_ARG VALUES  =>  value_arg
group_by_opt: GROUP BY expression_list  =>  $3
having_opt:  =>  nil
having_opt: HAVING expression  =>  $2
order_by_opt: ORDER BY order_list  =>  $3
order_list: order  =>  order by $1
order_list: order_list ',' order  =>  $1,$3.Expr $3.Direction
asc_desc_opt:  =>  asc
limit_opt:  =>  nil
insert_data: VALUES tuple_list  =>  into $2
insert_data: select_statement  =>  into $1
insert_data: openb select_statement closeb  =>  into $2
insert_data: openb ins_column_list closeb VALUES tuple_list  =>  into $2 $5
insert_data: openb ins_column_list closeb select_statement  =>  into $2 $4
insert_data: openb ins_column_list closeb openb select_statement closeb  =>  into $2 $5
ins_column_list: sql_id  =>  ($1)
ins_column_list: sql_id '.' sql_id  =>  ($3)
ins_column_list: ins_column_list ',' sql_id  =>  $1,$3)
ins_column_list: ins_column_list ',' sql_id '.' sql_id  =>  $1,$5)
on_dup_opt: ON DUPLICATE KEY UPDATE update_list  =>  $5
tuple_list: tuple_or_empty  =>  values $1
tuple_list: tuple_list ',' tuple_or_empty  =>  $1,([,|$3])
row_tuple: openb expression_list closeb  =>  $2
tuple_expression: row_tuple  =>  {$1 |($1)}
update_list: update_list ',' update_expression  =>  $1,$3.Name.Qualifier.Qualifier.v.$3.Name.Qualifier.Name.v.$3.Name.Name.val = $3.Expr
`

// printedRoots are the symbols whose values the generator prints: expressions of
// checks, policies and partial indexes, definitions of views, bodies of triggers.
var printedRoots = []string{"expression", "select_statement", "trigger_statement"}

func init() { checks0["C20"] = checkC20 }

func checkC20(c *Check) {
	g, err := c.p.loadGrammar()
	if err != nil {
		c.require(false, "coverage", "grammar", "", err.Error())
		return
	}
	as := map[string]string{}
	for _, l := range strings.Split(printsAs, "\n") {
		if k, v, ok := strings.Cut(l, "  =>  "); ok {
			as[strings.TrimSpace(k)] = strings.TrimSpace(v)
		}
	}
	reach := g.reach(printedRoots, []string{"reserved_keyword", "non_reserved_keyword"})
	sn := g.pkg("sqlparser").Type("SQLNode").Type().Underlying().(*types.Interface)
	nullable := g.nullable()
	nodes, words, opts := 0, 0, 0
	for i := range g.prods {
		pr := &g.prods[i]
		if !reach[pr.lhs] || g.fn[i] == nil || g.fn[i].Signature.Results().Len() == 0 {
			continue
		}
		rt := g.fn[i].Signature.Results().At(0).Type()
		name := strings.TrimSpace(pr.String())
		want, ok := as[name]
		if !ok {
			want = pr.ruleText()
		}
		where := fmt.Sprintf("sqlparser/parser.y: %s", name)
		if !types.Implements(rt, sn) {
			if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				got := normalText(pr.printText(g.made(i).val))
				words++
				c.require(got == want, "print", name+" as "+got, where, "the text kept for it is "+quoted(got)+", which is not "+quoted(want))
			}
			continue
		}
		q := g.newPrinter()
		v, bad := q.printed(i)
		got := bad
		if v != nil {
			got = normalText(pr.printText(v))
		}
		nodes++
		c.require(got == want, "print", name+" as "+got, where, "what was parsed by this rule is printed as "+quoted(got)+", which is not "+quoted(want))
		c.require(len(q.bad) == 0, "verb", name, where, strings.Join(q.bad, "; "))
		if v != nil {
			opts += pr.optionalParts(c, nullable, v, name, where)
		}
	}
	c.floor("rules whose value is a node that can be printed", nodes, 240)
	c.floor("rules whose value is a word that is printed", words, 40)
	c.floor("optional parts looked at", opts, 30)
	c.identifierText(g)
	c.listTexts(g)
	c.explain = append(c.explain, fmt.Sprintf("%d grammar rules whose value is a node and %d whose value is a word: the compiled semantic action is evaluated on symbols and printed symbolically through sqlparser.String; the text must be the rule's own or the one in the reviewed table. For %d optional parts, the text without the part must still show every other part.", nodes, words, opts))
	c.assume = append(c.assume, "TrackedBuffer.Myprintf writes literal text, %s strings and bytes, %c characters, %a arguments and %v nodes, and panics on anything else", "nodes that are not made by a grammar rule reachable from an expression or a query are not printed by the generator")
}

func quoted(s string) string { return "`" + s + "`" }

// optionalParts: what is printed when an optional part is not there, or is of a
// particular kind, still has all the other parts.
func (pr *production) optionalParts(c *Check, nullable map[string]bool, v *Term, name, where string) int {
	all := map[string]bool{}
	partsOf(v, nil, all)
	atoms := map[*Term]bool{}
	walkTerm(v, func(t *Term) bool {
		if t.op == OIte {
			for _, a := range bSupport(t.bdd) {
				atoms[a] = true
			}
		}
		return true
	})
	without := map[string]string{}
	for _, l := range strings.Split(printsWithout, "\n") {
		if x := strings.SplitN(l, " | ", 3); len(x) == 3 {
			if x[0] == name {
				without[x[0]+" | "+x[1]] = x[2]
			}
		}
	}
	n := 0
	for a := range atoms {
		x, ok := absence(a)
		own, when := "", "is not there"
		if ok {
			own = partName(x)
		} else if a.op == OApp && a.str == "istype" {
			x, when = a.args[0], "is of the kind "+shortType(a.args[1].str)
		} else {
			continue
		}
		pn := partName(x)
		if pn == "" {
			continue
		}
		if k, _ := symbolOf(stripIface(x)); own != "" && !strings.Contains(own, ".") && !nullable[pr.rhs[k-1]] {
			continue
		}
		n++
		text := normalText(pr.printText(restrictTerm(v, atomBDD(a))))
		key := name + " | " + pn + " " + when
		if want, ok := without[key]; ok {
			delete(without, key)
			c.require(text == want, "missing", key+" as "+text, where, "when "+pn+" "+when+", this is printed as "+quoted(text)+", which is not "+quoted(want))
		} else if own == "" && when != "is of the kind SQLVal" {
			full := normalText(pr.printText(v))
			same := strings.ReplaceAll(text, " ", "") == strings.ReplaceAll(full, " ", "")
			c.require(same, "missing", key+" as "+text, where, "when "+pn+" "+when+", this is printed as "+quoted(text)+", which is not "+quoted(full))
		}
		left := map[string]bool{}
		partsOf(v, a, left)
		for _, p := range sortedKeys(all) {
			if reviewedWithout[name+"|"+pn+" "+when+"|"+p] {
				continue
			}
			if own != "" && (p == own || strings.HasPrefix(p, own+".")) {
				continue
			}
			c.require(left[p], "optional", name+" keeps "+p+" when "+pn+" "+when, where, "when "+pn+" "+when+", "+p+" is not printed")
		}
	}
	if name == "order: expression asc_desc_opt" {
		// a call that is not rand() has a direction like everything else
		t := v
		for a := range atoms {
			for _, x := range a.args {
				if k, ok := x.strConst(); ok && k == "rand" && a.op == OApp && a.str == "eq" {
					t = restrictTerm(t, bNot(atomBDD(a)))
				}
			}
		}
		for a := range atoms {
			if a.op == OApp && a.str == "istype" && a.args[0].op != OIface && strings.HasSuffix(a.args[1].str, ".NullVal") {
				t = restrictTerm(t, bNot(atomBDD(a)))
			}
		}
		text := normalText(pr.printText(t))
		c.require(text == "$1 $2" && t.op != OIte, "missing", name+" | $1 is not rand() as "+text, where, "when the expression is neither NULL nor a call of rand(), this is printed as "+quoted(text)+" under conditions, not always as `$1 $2`")
	}
	for key, want := range without {
		text := normalText(pr.printText(v))
		c.require(text == want, "missing", key+" as "+text, where, "in the case "+key+" this is printed as "+quoted(text)+", which is not "+quoted(want))
	}
	return n
}

// reviewedWithout: a scale comes with a length, ordering by NULL has no direction.
var reviewedWithout = map[string]bool{
	"convert_type: DECIMAL decimal_length_opt|$2.Length is not there|$2.Scale": true,
	"order: expression asc_desc_opt|$1 is of the kind NullVal|$2":              true,
}

// nullable are the symbols that can derive nothing.
func (g *grammarProg) nullable() map[string]bool {
	out := map[string]bool{}
	for again := true; again; {
		again = false
		for i := range g.prods {
			pr := &g.prods[i]
			all := true
			for _, s := range pr.rhs {
				all = all && (s == "$action" || out[s])
			}
			if all && !out[pr.lhs] {
				out[pr.lhs], again = true, true
			}
		}
	}
	return out
}

// printsWithout lists the texts with one part missing or special. Reviewed.
const printsWithout = `
aliased_table_name: table_name PARTITION openb partition_list closeb as_opt_id index_hint_list | $6 is not there | $1$4$7
aliased_table_name: table_name PARTITION openb partition_list closeb as_opt_id index_hint_list | $7 is not there | $1$4 as $6
aliased_table_name: table_name as_opt_id index_hint_list | $2 is not there | $1$3
aliased_table_name: table_name as_opt_id index_hint_list | $3 is not there | $1 as $2
base_select: SELECT comment_opt cache_opt distinct_opt straight_join_opt select_expression_list from_opt where_expression_opt group_by_opt having_opt | $10 is not there | select $2$3$4$5$6 from $7 where $8$9
base_select: SELECT comment_opt cache_opt distinct_opt straight_join_opt select_expression_list from_opt where_expression_opt group_by_opt having_opt | $8 is not there | select $2$3$4$5$6 from $7$9 having $10
condition: value_expression LIKE value_expression like_escape_opt | $4 is not there | $1 like $3
condition: value_expression NOT LIKE value_expression like_escape_opt | $5 is not there | $1 not like $4
convert_type: BINARY length_opt | $2 is not there | binary
convert_type: CHAR length_opt ID | $2 is not there | char $3
convert_type: CHAR length_opt charset_opt | $2 is not there | char character set $3
convert_type: CHAR length_opt charset_opt | $3 is not there | char($2)
convert_type: DATETIME length_opt | $2 is not there | datetime
convert_type: DECIMAL decimal_length_opt | $2.Length is not there | decimal
convert_type: DECIMAL decimal_length_opt | $2.Scale is not there | decimal($2.Length)
convert_type: NCHAR length_opt | $2 is not there | nchar
convert_type: TIME length_opt | $2 is not there | time
delete_statement: DELETE comment_opt FROM table_name opt_partition_clause where_expression_opt order_by_opt limit_opt | $6 is not there | delete $2from $4$5$7$8
delete_statement: DELETE comment_opt FROM table_name_list USING table_references where_expression_opt | $7 is not there | delete $2$4 from $6
delete_statement: DELETE comment_opt table_name_list from_or_using table_references where_expression_opt | $6 is not there | delete $2$3 from $5
expression: DEFAULT default_opt | $2 is not there | default
function_call_keyword: CASE expression_opt when_expression_list else_expression_opt END | $2 is not there | case [|when $3.Cond then $3.Val ]else $4 end
function_call_keyword: CASE expression_opt when_expression_list else_expression_opt END | $4 is not there | case $2 [|when $3.Cond then $3.Val ]end
order: expression asc_desc_opt | $1 is of the kind FuncExpr | {$1 | $1 $2}
order: expression asc_desc_opt | $1 is of the kind NullVal | $1
select_expression: expression as_ci_opt | $2 is not there | $1
value_expression: '-' value_expression | $2 is of the kind UnaryExpr | - $2
update_statement: UPDATE comment_opt table_references SET update_list where_expression_opt order_by_opt limit_opt | $6 is not there | update $2$3 set $5$7$8
`

// partName is the path of a part of a symbol: $3.Name.
func partName(x *Term) string {
	for x.op == OIface || x.op == OItem || x.op == OApp && x.str == "node" {
		x = x.args[0]
	}
	k, ok := symbolOf(x)
	if !ok {
		return ""
	}
	s := fmt.Sprintf("$%d", k)
	switch f := strings.TrimSuffix(strings.TrimSuffix("."+fieldsOf(x), ".v"), ".val"); f {
	case "", ".":
	default:
		s += f
	}
	return s
}

// partsOf collects the parts that a text shows when a condition holds and no
// other part is absent or special.
func partsOf(t, cond *Term, out map[string]bool) {
	for _, x := range strParts(t) {
		switch {
		case x.op == OIte:
			g := x.bdd
			for _, at := range bSupport(g) {
				_, ok := absence(at)
				if at == cond {
					g = bRestrict(g, at, true)
				} else if ok || at.op == OApp && at.str == "istype" {
					g = bRestrict(g, at, false)
				}
			}
			if g != False {
				partsOf(x.args[0], cond, out)
			}
			if g != True {
				partsOf(x.args[1], cond, out)
			}
		case x.op == ORep && len(x.args) > 1:
			if n := partName(x.args[0]); n != "" {
				out[n] = true
			} else {
				for _, y := range x.args[0].args {
					if n := partName(y); n != "" {
						out[n] = true
					}
				}
			}
		default:
			if n := partName(x); n != "" {
				out[n] = true
			}
		}
	}
}

// identifierText: an identifier prints as all its characters, in quotes that are
// doubled inside, and only quotes of the dialect.
func (c *Check) identifierText(g *grammarProg) {
	q := g.newPrinter()
	delete(q.ev.special, modPath+"/sqlparser.formatID")
	for _, fn := range []string{"NewColIdent", "NewTableIdent"} {
		name := mkSym("name", types.Typ[types.String])
		r := q.ev.Call(g.pkg("sqlparser").Func(fn), []*Term{name}, nil, newState(), 0, fn)
		text := q.text(mkIface(r.ret, r.ret.typ), r.st, "print:"+fn)
		bare, escaped := false, false
		for _, v := range cases(text) {
			ps := strParts(v.text)
			switch {
			case len(ps) == 1 && ps[0] == name:
				bare = true
			case len(ps) == 3 && ps[1].op == ORep && escapes(ps, name):
				escaped = true
			default:
				c.require(false, "identifier", fn+" whole", "sqlparser/ast.go", "an identifier can be printed as "+quoted(normalText(pp(v.text))))
			}
		}
		c.plainNames(text, name, fn)
		c.require(bare && escaped, "identifier", fn+" forms", "sqlparser/ast.go", "an identifier is not printed both bare and, where it has to be, in quotes")
		for _, d := range []string{"postgres", "mssql"} {
			c.require(!escaped, "identifier", fn+" quoted for "+d, "sqlparser/ast.go", "an identifier that is a keyword, or is not made of letters and digits, is printed in backquotes, which "+d+" does not take")
		}
		c.require(!bare, "identifier", fn+" upper case for postgres", "sqlparser/ast.go", "an identifier that was quoted because of its capital letters is printed without quotes, and postgres reads it in lower case")
	}
}

// plainNames: a name is printed without quotes only when it is not a keyword and
// every character of it is one that a name is scanned with.
func (c *Check) plainNames(text, name *Term, fn string) {
	for _, v := range cases(text) {
		if ps := strParts(v.text); len(ps) != 1 || ps[0] != name {
			continue
		}
		g := v.g
		var each []*Term
		var word *Term
		for _, a := range bSupport(g) {
			switch {
			case a.op == OExists:
				each = append(each, a)
			case a.op == OApp && a.str == "haskey":
				if k := a.args[1]; k.op == OApp && k.str == "strings.ToLower" && k.args[0] == name && strings.Contains(pp(a.args[0]), "sqlparser.keywords") {
					word = a
				}
			default:
				// the name is neither empty nor a variable of the server
				if a.op == OApp && a.str == "eq" {
					g = bRestrict(g, a, false)
				}
			}
		}
		if !c.require(word != nil && bRestrict(g, word, true) == False, "identifier", fn+" keyword", "sqlparser/ast.go", "a name that is a keyword can be printed without quotes") {
			continue
		}
		for _, ch := range []rune{'a', 'z', 'A', 'Z', '_', '@', '0', '9', ' ', '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>', '?', '[', '\\', ']', '^', '`', '{', '|', '}', '~', '\t', '\n', 0x7f, 0xe9, 0x3042} {
			for pos := int64(0); pos < 2; pos++ {
				letter := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '_' || ch == '@'
				plain := letter || pos > 0 && ch >= '0' && ch <= '9'
				r := bRestrict(g, word, false)
				known := true
				for _, e := range each {
					m := map[*Term]*Term{}
					for _, x := range bSupport(e.bdd) {
						walkTerm(x, func(t *Term) bool {
							if t.op == OApp && len(t.args) == 1 && t.args[0].op == OBElem && t.str == "mapval" {
								m[t] = mkInt(int64(ch))
							} else if t.op == OApp && len(t.args) == 1 && t.args[0].op == OBElem && t.str == "mapkey" {
								m[t] = mkInt(pos)
							} else if t.op == OApp && t.str == "conv:uint16" && t.args[0].op == OApp && t.args[0].str == "mapval" {
								m[t] = mkInt(int64(ch) & 0xffff)
							}
							return true
						})
					}
					holds := substBDD(e.bdd, m)
					known = known && (holds == True || holds == False)
					r = bRestrict(r, e, holds == True)
				}
				c.require(known && (r == False) == !plain, "identifier", fmt.Sprintf("%s %q at %d", fn, ch, pos), "sqlparser/ast.go", fmt.Sprintf("a name with the character %q is printed without quotes: %v", ch, r != False))
			}
		}
	}
}

// escapes: a quote, every character with the quote doubled, a quote.
func escapes(ps []*Term, name *Term) bool {
	l, ok1 := ps[0].strConst()
	r, ok2 := ps[2].strConst()
	if !ok1 || !ok2 || l != r || len(l) != 1 {
		return false
	}
	rep := ps[1]
	b := strParts(rep.args[len(rep.args)-1])
	if len(b) == 2 && b[0].op == OIte {
		b = []*Term{b[1], b[0]}
	}
	if len(b) != 2 || b[1].op != OIte || !strings.Contains(pp(rep.args[0]), name.str) {
		return false
	}
	if b[0].op != OApp || b[0].str != "rune2str" {
		return false
	}
	at := bSupport(b[1].bdd)
	if len(at) != 1 || at[0] != mkApp("eq", nil, mkInt(int64(l[0])), b[0].args[0]) && at[0] != mkApp("eq", nil, b[0].args[0], mkInt(int64(l[0]))) {
		return false
	}
	return b[1].bdd == atomBDD(at[0]) && b[1].args[0] == mkStrC(l) && b[1].args[1] == tEmptyStr ||
		b[1].bdd == bNot(atomBDD(at[0])) && b[1].args[1] == mkStrC(l) && b[1].args[0] == tEmptyStr
}

// How lists are printed, of one, two and three elements: what is in front of
// them, between them and behind them.
var listText = map[string][3]string{
	"Columns":     {"(", ", ", ")"},
	"Comments":    {"", " ", " "},
	"GroupBy":     {" group by ", ", ", ""},
	"OnDup":       {" on duplicate key update ", ", ", ""},
	"OrderBy":     {" order by ", ", ", ""},
	"Partitions":  {" partition (", ", ", ")"},
	"SelectExprs": {"", ", ", ""},
	"SetExprs":    {"", ", ", ""},
	"TableExprs":  {"", ", ", ""},
	"TableNames":  {"", ", ", ""},
	"UpdateExprs": {"", ", ", ""},
	"ValTuple":    {"(", ", ", ")"},
	"Values":      {"values ", ", ", ""},
	"Exprs":       {"", ", ", ""},
}

func (c *Check) listTexts(g *grammarProg) {
	sn := g.pkg("sqlparser").Type("SQLNode").Type().Underlying().(*types.Interface)
	n := 0
	for _, name := range sortedKeys(listText) {
		tm := g.pkg("sqlparser").Type(name)
		if tm == nil {
			continue
		}
		t := tm.Type()
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || !types.Implements(t, sn) {
			continue
		}
		pr := &production{lhs: "list", rhs: []string{"first", "second", "third"}}
		for k := 0; k <= 3; k++ {
			if k == 0 && listText[name][0] != "" && !strings.Contains(name, "By") {
				continue
			}
			var zs []*Term
			want := ""
			for i := 1; i <= k; i++ {
				zs = append(zs, mkSym(fmt.Sprintf("$%d:element", i), sl.Elem()))
				if i > 1 {
					want += listText[name][1]
				}
				want += fmt.Sprintf("$%d", i)
			}
			if k > 0 {
				want = listText[name][0] + want + listText[name][2]
			}
			l := tEmptyList
			if k > 0 {
				l = items(zs...)
			}
			q := g.newPrinter()
			got := pr.printText(q.text(mkIface(l, t), newState(), fmt.Sprintf("list:%s:%d", name, k)))
			n++
			c.require(gaps.ReplaceAllString(got, " ") == want, "list", fmt.Sprintf("%s of %d", name, k), "sqlparser."+name, "a list of "+fmt.Sprint(k)+" is printed as "+quoted(got)+", not as "+quoted(want))
		}
	}
	c.floor("lists printed", n, 40)
}
