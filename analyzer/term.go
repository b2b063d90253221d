package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst  Op = iota
	OZero      // zero value of a struct/array type
	OUndef     // value on an infeasible path
	OSym       // named input
	OGlobal    // address of a package variable
	OObj       // address of an allocated object
	OField
	ODeref
	OFieldAddr
	OElemAddr
	OElem // current element of a loop over args[0]
	OIdx
	OBElem // element bound by an enclosing Rep/Exists/First of height n
	OBIdx
	OFirst
	OFirstIdx
	OExists
	OApp
	OStr
	OList
	OItem
	ORep
	OIte
	OBool
	OTuple
	OStruct
	OIface
	OClosure
	OMu
	OAcc
	OLoopOut
)

var opNames = map[Op]string{OConst: "const", OZero: "zero", OUndef: "undef", OSym: "sym", OGlobal: "global", OObj: "obj", OField: "field", ODeref: "deref", OFieldAddr: "&field", OElemAddr: "&elem", OElem: "elem", OIdx: "idx", OBElem: "belem", OBIdx: "bidx", OFirst: "first", OFirstIdx: "firstidx", OExists: "exists", OApp: "app", OStr: "str", OList: "list", OItem: "item", ORep: "rep", OIte: "ite", OBool: "bool", OTuple: "tuple", OStruct: "struct", OIface: "iface", OClosure: "closure", OMu: "mu", OAcc: "acc", OLoopOut: "loopout"}

type Term struct {
	id   int
	op   Op
	str  string
	n    int
	bdd  BDD
	args []*Term
	typ  types.Type
	val  constant.Value
	fn   *ssa.Function
	keys []string // OStruct override names, parallel to args[1:]
	mb   int      // max bound height used
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	bddMBc   = map[BDD]int{}
)

func bddMB(b BDD) int {
	if b <= 1 {
		return 0
	}
	if r, ok := bddMBc[b]; ok {
		return r
	}
	n := bddNodes[b]
	r := atomTerms[n.v].mb
	if x := bddMB(n.lo); x > r {
		r = x
	}
	if x := bddMB(n.hi); x > r {
		r = x
	}
	bddMBc[b] = r
	return r
}

func mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op))
	sb.WriteString(strconv.Itoa(t.n))
	sb.WriteByte(',')
	sb.WriteString(strconv.Itoa(int(t.bdd)))
	for _, a := range t.args {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, k := range t.keys {
		sb.WriteByte('|')
		sb.WriteString(k)
	}
	sb.WriteByte('#')
	sb.WriteString(t.str)
	if t.fn != nil {
		fmt.Fprintf(&sb, "%p", t.fn)
	}
	k := sb.String()
	if r, ok := termTab[k]; ok {
		return r
	}
	r := new(Term)
	*r = t
	r.id = len(termList)
	switch t.op {
	case OBElem, OBIdx, OExists, OFirst, OFirstIdx, ORep, OLoopOut:
		r.mb = t.n
	}
	for _, a := range t.args {
		if a.mb > r.mb {
			r.mb = a.mb
		}
	}
	if x := bddMB(t.bdd); x > r.mb {
		r.mb = x
	}
	termTab[k] = r
	termList = append(termList, r)
	return r
}

func mkStrC(s string) *Term {
	return mk(Term{op: OConst, str: "s:" + s, val: constant.MakeString(s), typ: types.Typ[types.String]})
}
func mkInt(i int64) *Term {
	return mk(Term{op: OConst, str: "i:" + strconv.FormatInt(i, 10), val: constant.MakeInt64(i), typ: types.Typ[types.Int]})
}
func mkBool(b bool) *Term {
	return mk(Term{op: OConst, str: "b:" + strconv.FormatBool(b), val: constant.MakeBool(b), typ: types.Typ[types.Bool]})
}

var tNil = mk(Term{op: OConst, str: "nil"})
var tUndef = mk(Term{op: OUndef})
var tTrue = mkBool(true)
var tFalse = mkBool(false)
var tEmptyStr = mkStrC("")
var tEmptyList = mk(Term{op: OList})

func mkSym(name string, typ types.Type) *Term { return mk(Term{op: OSym, str: name, typ: typ}) }
func mkApp(name string, typ types.Type, args ...*Term) *Term {
	return mk(Term{op: OApp, str: name, args: args, typ: typ})
}

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return zeroTerm(typ)
	}
	switch v.Kind() {
	case constant.String:
		return mkStrC(constant.StringVal(v))
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.Int:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk(Term{op: OConst, str: "f:" + v.ExactString(), val: v, typ: typ})
		}
		return mk(Term{op: OConst, str: "i:" + v.ExactString(), val: v, typ: typ})
	}
	return mk(Term{op: OConst, str: "f:" + v.ExactString(), val: v, typ: typ})
}

func zeroTerm(typ types.Type) *Term {
	if typ == nil {
		return tNil
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tEmptyStr
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsNumeric != 0:
			return mk(Term{op: OConst, str: "f:0", val: constant.MakeInt64(0), typ: typ})
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk(Term{op: OZero, str: types.TypeString(typ, nil), typ: typ})
	case *types.Slice:
		return tEmptyList
	}
	return tNil
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}
func isStructType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) strConst() (string, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}
func (t *Term) intConst() (int64, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.Int {
		return constant.Int64Val(t.val)
	}
	return 0, false
}
func (t *Term) boolConst() (bool, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}
func (t *Term) isStrLike() bool {
	if t.op == OStr {
		return true
	}
	if t.op == ORep && t.str == "str" {
		return true
	}
	_, ok := t.strConst()
	return ok || (isStringType(t.typ) && t.op != OBool)
}
func (t *Term) isListLike() bool {
	return t.op == OList || (t.op == ORep && t.str == "list") || t.op == OItem
}

// ---- booleans

func toBDD(t *Term) BDD {
	switch t.op {
	case OBool:
		return t.bdd
	case OConst:
		if b, ok := t.boolConst(); ok {
			if b {
				return True
			}
			return False
		}
	case OUndef:
		return False
	case OIte:
		return bddIte(t.bdd, toBDD(t.args[0]), toBDD(t.args[1]))
	}
	return atomBDD(t)
}

func fromBDD(b BDD) *Term {
	switch b {
	case True:
		return tTrue
	case False:
		return tFalse
	}
	n := bddNodes[b]
	if n.lo == False && n.hi == True {
		return atomTerms[n.v]
	}
	return mk(Term{op: OBool, bdd: b, typ: types.Typ[types.Bool]})
}

func mkNot(t *Term) *Term { return fromBDD(bNot(toBDD(t))) }

// ---- if-then-else

func strParts(t *Term) []*Term {
	if t.op == OStr {
		return t.args
	}
	if t == tEmptyStr {
		return nil
	}
	return []*Term{t}
}
func listParts(t *Term) []*Term {
	if t.op == OList {
		return t.args
	}
	return []*Term{t}
}

func boolish(t *Term) bool {
	if t.op == OBool || t.op == OExists {
		return true
	}
	if _, ok := t.boolConst(); ok {
		return true
	}
	return isBoolType(t.typ)
}

func mkIte(b BDD, t, e *Term) *Term {
	if b == True {
		return t
	}
	if b == False {
		return e
	}
	if t == e {
		return t
	}
	if t.op == OUndef {
		return e
	}
	if e.op == OUndef {
		return t
	}
	if boolish(t) && boolish(e) {
		return fromBDD(bddIte(b, toBDD(t), toBDD(e)))
	}
	if t.op == OTuple && e.op == OTuple && len(t.args) == len(e.args) {
		as := make([]*Term, len(t.args))
		for i := range as {
			as[i] = mkIte(b, t.args[i], e.args[i])
		}
		return mk(Term{op: OTuple, args: as})
	}
	if t.op == OStruct || e.op == OStruct {
		return mergeStruct(b, t, e)
	}
	if t.op == OIface && e.op == OIface && t.str == e.str {
		return mkIface(mkIte(b, t.args[0], e.args[0]), t.typ)
	}
	if t.op == OList && e.op == OList && structItems(t) && structItems(e) && len(t.args) == len(e.args) {
		as := make([]*Term, len(t.args))
		for i := range as {
			as[i] = mkItem(mkIte(b, t.args[i].args[0], e.args[i].args[0]))
		}
		return mkList(as...)
	}
	if t.isListLike() || e.isListLike() {
		return factor(b, t, e, listParts, mkList, func(x *Term) bool { return x.op != OConst })
	}
	if (t.op == OStr || e.op == OStr) && t.op != OIface && e.op != OIface {
		return factor(b, t, e, strParts, mkStr, func(x *Term) bool { return true })
	}
	return mkIteRaw(b, t, e)
}

// structItems: a list of known structs.
func structItems(t *Term) bool {
	for _, p := range t.args {
		if p.op != OItem || p.args[0].typ == nil || !isStructType(p.args[0].typ) {
			return false
		}
	}
	return true
}

func mkIteRaw(b BDD, t, e *Term) *Term {
	if b == True || t == e {
		return t
	}
	if b == False {
		return e
	}
	// simplify nested choices
	for t.op == OIte {
		if bImplies(b, t.bdd) {
			t = t.args[0]
		} else if bAnd(b, t.bdd) == False {
			t = t.args[1]
		} else {
			break
		}
	}
	nb := bNot(b)
	for e.op == OIte {
		if bImplies(nb, e.bdd) {
			e = e.args[0]
		} else if bAnd(nb, e.bdd) == False {
			e = e.args[1]
		} else {
			break
		}
	}
	if t == e {
		return t
	}
	if t.op == OIte {
		if t.args[1] == e {
			return mkIteRaw(bAnd(b, t.bdd), t.args[0], e)
		}
		if t.args[0] == e {
			return mkIteRaw(bAnd(b, bNot(t.bdd)), t.args[1], e)
		}
	}
	if e.op == OIte {
		if e.args[0] == t {
			return mkIteRaw(bOr(b, e.bdd), t, e.args[1])
		}
		if e.args[1] == t {
			return mkIteRaw(bOr(b, bNot(e.bdd)), t, e.args[0])
		}
	}
	typ := t.typ
	if typ == nil {
		typ = e.typ
	}
	return mk(Term{op: OIte, bdd: b, args: []*Term{t, e}, typ: typ})
}

func factor(b BDD, t, e *Term, parts func(*Term) []*Term, build func(...*Term) *Term, _ func(*Term) bool) *Term {
	tp, ep := parts(t), parts(e)
	i := 0
	for i < len(tp) && i < len(ep) && tp[i] == ep[i] {
		i++
	}
	j := 0
	for j < len(tp)-i && j < len(ep)-i && tp[len(tp)-1-j] == ep[len(ep)-1-j] {
		j++
	}
	if i == 0 && j == 0 {
		return mkIteRaw(b, t, e)
	}
	mid := mkIte(b, build(tp[i:len(tp)-j]...), build(ep[i:len(ep)-j]...))
	out := append([]*Term{}, tp[:i]...)
	out = append(out, mid)
	out = append(out, tp[len(tp)-j:]...)
	return build(out...)
}

func mergeStruct(b BDD, t, e *Term) *Term {
	bt, be := t, e
	if t.op == OStruct {
		bt = t.args[0]
	}
	if e.op == OStruct {
		be = e.args[0]
	}
	ks := map[string]bool{}
	if t.op == OStruct {
		for _, k := range t.keys {
			ks[k] = true
		}
	}
	if e.op == OStruct {
		for _, k := range e.keys {
			ks[k] = true
		}
	}
	base := mkIte(b, bt, be)
	if base.op == OStruct {
		return mkIteRaw(b, t, e)
	}
	typ := t.typ
	if typ == nil {
		typ = e.typ
	}
	out := base
	var names []string
	for k := range ks {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		ft := fieldType(typ, k)
		out = mkUpdate(out, k, mkIte(b, mkField(t, k, ft), mkField(e, k, ft)), typ)
	}
	return out
}

func fieldType(typ types.Type, k string) types.Type {
	if k == "$buf" {
		return types.Typ[types.String]
	}
	if typ == nil {
		return nil
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == k {
				return u.Field(i).Type()
			}
		}
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// ---- structs

func mkField(base *Term, name string, typ types.Type) *Term {
	switch base.op {
	case OStruct:
		for i, k := range base.keys {
			if k == name {
				return base.args[i+1]
			}
		}
		return mkField(base.args[0], name, typ)
	case OZero:
		if name == "$buf" {
			return tEmptyStr
		}
		return zeroTerm(typ)
	case OUndef:
		return tUndef
	case OIte:
		return mkIte(base.bdd, mkField(base.args[0], name, typ), mkField(base.args[1], name, typ))
	case OTuple:
		if i, err := strconv.Atoi(name); err == nil && i < len(base.args) {
			return base.args[i]
		}
	}
	return mk(Term{op: OField, str: name, args: []*Term{base}, typ: typ})
}

func mkUpdate(base *Term, name string, v *Term, typ types.Type) *Term {
	m := map[string]*Term{}
	b := base
	if base.op == OStruct {
		b = base.args[0]
		for i, k := range base.keys {
			m[k] = base.args[i+1]
		}
		if typ == nil {
			typ = base.typ
		}
	}
	if typ == nil {
		typ = b.typ
	}
	m[name] = v
	var ks []string
	for k, x := range m {
		if mkField(b, k, fieldType(typ, k)) == x {
			continue
		}
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return b
	}
	sort.Strings(ks)
	args := []*Term{b}
	for _, k := range ks {
		args = append(args, m[k])
	}
	return mk(Term{op: OStruct, keys: ks, args: args, typ: typ})
}

func mkIface(v *Term, dyn types.Type) *Term {
	return mk(Term{op: OIface, str: types.TypeString(dyn, nil), args: []*Term{v}, typ: dyn})
}

// ---- strings and lists

func mkStr(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == OStr {
			for _, q := range p.args {
				add(q)
			}
			return
		}
		if s, ok := p.strConst(); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if s0, ok := out[len(out)-1].strConst(); ok {
					out[len(out)-1] = mkStrC(s0 + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return tEmptyStr
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(Term{op: OStr, args: out, typ: types.Typ[types.String]})
}

func mkItem(x *Term) *Term { return mk(Term{op: OItem, args: []*Term{x}}) }

func mkList(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OList {
			out = append(out, p.args...)
		} else if p == tNil {
			continue
		} else {
			out = append(out, p)
		}
	}
	if len(out) == 1 && out[0].op != OItem && out[0].op != ORep {
		return out[0]
	}
	return mk(Term{op: OList, args: out})
}

// ---- loops

func mkElem(dom *Term, depth int, typ types.Type) *Term {
	return mk(Term{op: OElem, args: []*Term{dom}, n: depth, typ: typ})
}
func mkIdx(dom *Term, depth int) *Term {
	return mk(Term{op: OIdx, args: []*Term{dom}, n: depth, typ: types.Typ[types.Int]})
}

// closeTerm binds the current element of (dom,depth) in body at a fresh height.
func closeTerm(dom *Term, depth int, body *Term) (*Term, int) {
	h := body.mb + 1
	b := substTerm(body, bindMap(dom, depth, h))
	return b, h
}
func closeBDD(dom *Term, depth int, c BDD) (BDD, int) {
	h := bddMB(c) + 1
	return substBDD(c, bindMap(dom, depth, h)), h
}
func bindMap(dom *Term, depth, h int) map[*Term]*Term {
	e := mkElem(dom, depth, nil)
	return map[*Term]*Term{
		e:                 mk(Term{op: OBElem, args: []*Term{dom}, n: h, typ: e.typ}),
		mkIdx(dom, depth): mk(Term{op: OBIdx, args: []*Term{dom}, n: h, typ: types.Typ[types.Int]}),
	}
}

func mkRep(kind string, dom *Term, depth int, body *Term) *Term {
	if body == tEmptyStr || body == tEmptyList {
		return body
	}
	if kind == "list" && mkList(body) == mkList(mkItem(mkElem(dom, depth, nil))) && !isStringTerm(dom) {
		return mkList(dom) // a copy, element by element
	}
	b, h := closeTerm(dom, depth, body)
	r := mk(Term{op: ORep, str: kind, args: []*Term{dom, b}, n: h})
	if kind == "list" {
		return mkList(r)
	}
	return r
}

// openRep instantiates the body of a Rep/Exists/First with a given element.
func openMap(t *Term, elem, idx *Term) map[*Term]*Term {
	dom := t.args[0]
	m := map[*Term]*Term{mk(Term{op: OBElem, args: []*Term{dom}, n: t.n}): elem}
	if idx != nil {
		m[mk(Term{op: OBIdx, args: []*Term{dom}, n: t.n})] = idx
	}
	return m
}

func mkExists(dom *Term, depth int, c BDD) BDD {
	if c == False {
		return False
	}
	b, h := closeBDD(dom, depth, c)
	return existsBound(dom, h, b)
}

// existsBound: c mentions BElem(dom,h).
func existsBound(dom *Term, h int, c BDD) BDD {
	if c == False {
		return False
	}
	if dom.op == OList {
		r := False
		for i, p := range dom.args {
			var ix *Term
			if len(dom.args) > 1 {
				ix = mkInt(int64(i))
			}
			r = bOr(r, existsPart(dom, p, h, c, ix))
		}
		return r
	}
	if dom.op == OIte {
		return bddIte(dom.bdd, existsPart(dom, dom.args[0], h, c, nil), existsPart(dom, dom.args[1], h, c, nil))
	}
	if !bddMentions(c, mk(Term{op: OBElem, args: []*Term{dom}, n: h})) && !bddMentions(c, mk(Term{op: OBIdx, args: []*Term{dom}, n: h})) {
		// condition does not depend on the element
		return bAnd(c, bNot(emptyBDD(dom)))
	}
	return miniscope(dom, h, c)
}

// miniscope moves the atoms that do not depend on the element out of the
// quantifier, so that equal conditions have equal representations however the
// surrounding path conditions were conjoined.
func miniscope(dom *Term, h int, c BDD) BDD {
	be := mk(Term{op: OBElem, args: []*Term{dom}, n: h})
	bi := mk(Term{op: OBIdx, args: []*Term{dom}, n: h})
	var indep []*Term
	for _, a := range bSupport(c) {
		if !mentions(a, be) && !mentions(a, bi) {
			indep = append(indep, a)
		}
	}
	if len(indep) == 0 {
		return atomBDD(mk(Term{op: OExists, args: []*Term{dom}, n: h, bdd: c, typ: types.Typ[types.Bool]}))
	}
	memo := map[BDD]BDD{}
	over := false
	var rec func(b BDD) BDD
	rec = func(b BDD) BDD {
		if b == False {
			return False
		}
		if r, ok := memo[b]; ok {
			return r
		}
		if len(memo) > 3000 {
			over = true
		}
		if over {
			return False
		}
		sup := map[*Term]bool{}
		for _, a := range bSupport(b) {
			sup[a] = true
		}
		r := False
		var pick *Term
		for _, a := range indep {
			if sup[a] {
				pick = a
				break
			}
		}
		switch {
		case pick != nil:
			r = bddIte(atomBDD(pick), rec(bRestrict(b, pick, true)), rec(bRestrict(b, pick, false)))
		case b == True:
			r = bNot(emptyBDD(dom))
		default:
			r = renormExists(dom, h, b)
		}
		memo[b] = r
		return r
	}
	r := rec(c)
	if over {
		return atomBDD(mk(Term{op: OExists, args: []*Term{dom}, n: h, bdd: c, typ: types.Typ[types.Bool]}))
	}
	return r
}

// existsPart distributes a quantifier over a part of the list dom; ix names
// the position of the part's element, for terms that depend on the index.
func existsPart(dom, p *Term, h int, c BDD, ix *Term) BDD {
	be := mk(Term{op: OBElem, args: []*Term{dom}, n: h})
	bi := mk(Term{op: OBIdx, args: []*Term{dom}, n: h})
	switch p.op {
	case OItem:
		m := map[*Term]*Term{be: p.args[0]}
		if ix == nil {
			ix = mkInt(0)
		}
		m[bi] = ix
		return substBDD(c, m)
	case OList:
		r := False
		for i, q := range p.args {
			qx := ix
			if len(p.args) > 1 {
				qx = mkInt(int64(i))
				if ix != nil {
					qx = mkApp("pos", types.Typ[types.Int], ix, qx)
				}
			}
			r = bOr(r, existsPart(dom, q, h, c, qx))
		}
		return r
	case OIte:
		return bddIte(p.bdd, existsPart(dom, p.args[0], h, c, ix), existsPart(dom, p.args[1], h, c, ix))
	case ORep:
		// body of the Rep: open with a fresh height above everything
		d2 := p.args[0]
		h2 := bddMB(c)
		if p.mb > h2 {
			h2 = p.mb
		}
		h2 += 1
		nx := mk(Term{op: OBIdx, args: []*Term{d2}, n: h2})
		body := substTerm(p.args[1], openMap(p, mk(Term{op: OBElem, args: []*Term{d2}, n: h2}), nx))
		if ix != nil {
			nx = mkApp("pos", types.Typ[types.Int], ix, nx)
		}
		inner := existsPart(dom, body, h, c, nx)
		// renormalise height
		return renormExists(d2, h2, inner)
	}
	// opaque list
	if p == dom {
		return atomBDD(mk(Term{op: OExists, args: []*Term{dom}, n: h, bdd: c, typ: types.Typ[types.Bool]}))
	}
	c2 := substBDD(c, map[*Term]*Term{be: mk(Term{op: OBElem, args: []*Term{p}, n: h}), bi: mk(Term{op: OBIdx, args: []*Term{p}, n: h})})
	return existsBound(p, h, c2)
}

func renormExists(dom *Term, h int, c BDD) BDD {
	// choose the canonical height: 1 + max height of the rest
	be := mk(Term{op: OBElem, args: []*Term{dom}, n: h})
	bi := mk(Term{op: OBIdx, args: []*Term{dom}, n: h})
	e := mkElem(dom, -1, nil)
	ix := mkIdx(dom, -1)
	c1 := substBDD(c, map[*Term]*Term{be: e, bi: ix})
	return mkExists(dom, -1, c1)
}

func emptyBDD(l *Term) BDD {
	switch l.op {
	case OItem:
		return False
	case OList:
		r := True
		for _, p := range l.args {
			r = bAnd(r, emptyBDD(p))
		}
		return r
	case OIte:
		return bddIte(l.bdd, emptyBDD(l.args[0]), emptyBDD(l.args[1]))
	case ORep:
		if l.str == "str" {
			break
		}
		ne := bNot(emptyBDD(l.args[1]))
		if ne == True {
			return emptyBDD(l.args[0])
		}
		return bNot(existsBound(l.args[0], l.n, ne))
	case OConst:
		if l == tNil {
			return True
		}
		if s, ok := l.strConst(); ok {
			if s == "" {
				return True
			}
			return False
		}
	case OApp:
		if l.str == "make" {
			return mkCmpBDD("eq", l.args[0], mkInt(0))
		}
	}
	return atomBDD(mkApp("empty", types.Typ[types.Bool], l))
}

// ---- comparisons

func isNilBDD(x *Term) BDD {
	switch x.op {
	case OConst:
		if x == tNil {
			return True
		}
		return False
	case OObj, OGlobal, OFieldAddr, OElemAddr, OIface, OClosure, OStruct, OFirst:
		return False
	case OIte:
		return bddIte(x.bdd, isNilBDD(x.args[0]), isNilBDD(x.args[1]))
	case OElem, OBElem:
		return False // element of a list: lists of nil entries are not built here
	case OList:
		if len(x.args) == 0 {
			return True
		}
		if emptyBDD(x) == False {
			return False
		}
		return emptyBDD(x)
	case OApp:
		if nonNilResult[x.str] {
			return False
		}
	case OUndef:
		return False
	}
	return atomBDD(mkApp("isnil", types.Typ[types.Bool], x))
}

var nonNilResult = map[string]bool{"error": true, "make": true, "mkmap": true, "&": true}

func eqBDD(a, b *Term) BDD {
	if a == b {
		return True
	}
	if a == tNil {
		return isNilBDD(b)
	}
	if b == tNil {
		return isNilBDD(a)
	}
	if a.op == OUndef || b.op == OUndef {
		return False
	}
	if z, ok := b.intConst(); ok && z == 0 && a.op == OIdx {
		return bNot(mkCmpBDD("lt", b, a)) // an index is never negative
	}
	if z, ok := a.intConst(); ok && z == 0 && b.op == OIdx {
		return bNot(mkCmpBDD("lt", a, b))
	}
	if a.op == OConst && b.op == OConst {
		if a.val != nil && b.val != nil && a.val.Kind() == b.val.Kind() {
			if a.val.ExactString() == b.val.ExactString() {
				return True
			}
			return False
		}
		return False
	}
	if boolish(a) && boolish(b) {
		return bIff(toBDD(a), toBDD(b))
	}
	if a.op == OIte && (b.op == OConst || b.op == OIte || termSmall(b)) {
		return bddIte(a.bdd, eqBDD(a.args[0], b), eqBDD(a.args[1], b))
	}
	if b.op == OIte && (a.op == OConst || termSmall(a)) {
		return bddIte(b.bdd, eqBDD(a, b.args[0]), eqBDD(a, b.args[1]))
	}
	if a.op == OIface && b.op == OIface {
		if a.str != b.str {
			return False
		}
		return eqBDD(a.args[0], b.args[0])
	}
	if a.op == OApp && b.op == OApp && a.str == "&" && b.str == "&" && (len(a.args) > 1 || len(b.args) > 1) {
		return False // two objects
	}
	if (a.op == OObj || a.op == OGlobal || a.op == OFieldAddr) && (b.op == OObj || b.op == OGlobal) {
		return False
	}
	// string structure
	if a.op == OStr || b.op == OStr {
		ap, bp := strParts(a), strParts(b)
		if a == tEmptyStr || b == tEmptyStr {
			o := ap
			if a == tEmptyStr {
				o = bp
			}
			r := True
			for _, p := range o {
				r = bAnd(r, eqBDD(p, tEmptyStr))
			}
			return r
		}
		for len(ap) > 0 && len(bp) > 0 && ap[0] == bp[0] {
			ap, bp = ap[1:], bp[1:]
		}
		for len(ap) > 0 && len(bp) > 0 && ap[len(ap)-1] == bp[len(bp)-1] {
			ap, bp = ap[:len(ap)-1], bp[:len(bp)-1]
		}
		if len(ap) > 0 && len(bp) > 0 {
			x, xo := ap[0].strConst()
			y, yo := bp[0].strConst()
			if xo && yo {
				if strings.HasPrefix(x, y) && len(bp) > 1 || strings.HasPrefix(y, x) && len(ap) > 1 {
				} else if x != y && (len(ap) > 1 || len(bp) > 1) && !strings.HasPrefix(x, y) && !strings.HasPrefix(y, x) {
					return False
				}
			}
		}
		na, nb := mkStr(ap...), mkStr(bp...)
		if na != a || nb != b {
			return eqBDD(na, nb)
		}
	}
	// length / emptiness
	if z, ok := b.intConst(); ok && z == 0 && a.op == OApp && a.str == "len" {
		return lenZero(a.args[0])
	}
	if z, ok := a.intConst(); ok && z == 0 && b.op == OApp && b.str == "len" {
		return lenZero(b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return atomBDD(mkApp("eq", types.Typ[types.Bool], a, b))
}

func termSmall(t *Term) bool {
	switch t.op {
	case OIte:
		return false
	}
	return true
}

func lenZero(x *Term) BDD {
	if x.isStrLike() {
		return eqBDD(x, tEmptyStr)
	}
	return emptyBDD(x)
}

func mkCmpBDD(op string, a, b *Term) BDD {
	switch op {
	case "eq":
		return eqBDD(a, b)
	case "lt":
		if a.op == OConst && b.op == OConst && a.val != nil && b.val != nil && a.val.Kind() == b.val.Kind() {
			switch a.val.Kind() {
			case constant.Int, constant.Float:
				x, _ := constant.Float64Val(constant.ToFloat(a.val))
				y, _ := constant.Float64Val(constant.ToFloat(b.val))
				if x < y {
					return True
				}
				return False
			case constant.String:
				if constant.StringVal(a.val) < constant.StringVal(b.val) {
					return True
				}
				return False
			}
		}
		if a == b {
			return False
		}
		if z, ok := b.intConst(); ok && z == 1 && a.op == OIdx {
			return eqBDD(a, mkInt(0))
		}
		// 0 < len(x)  and  len(x) < 1
		if z, ok := a.intConst(); ok && z == 0 && b.op == OApp && b.str == "len" {
			return bNot(lenZero(b.args[0]))
		}
		if z, ok := b.intConst(); ok && a.op == OApp && a.str == "len" {
			if z == 1 {
				return lenZero(a.args[0])
			}
			if z <= 0 {
				return False
			}
		}
		if a.op == OIte && b.op == OConst {
			return bddIte(a.bdd, mkCmpBDD(op, a.args[0], b), mkCmpBDD(op, a.args[1], b))
		}
		if b.op == OIte && a.op == OConst {
			return bddIte(b.bdd, mkCmpBDD(op, a, b.args[0]), mkCmpBDD(op, a, b.args[1]))
		}
		// normalise x+c < y+d
		ax, ac := splitAdd(a)
		bx, bc := splitAdd(b)
		if ax != nil && bx != nil && ac != 0 && bc != 0 {
			m := ac
			if bc < m {
				m = bc
			}
			return mkCmpBDD(op, mkAdd(ax, mkInt(ac-m)), mkAdd(bx, mkInt(bc-m)))
		}
	}
	return atomBDD(mkApp(op, types.Typ[types.Bool], a, b))
}

func splitAdd(t *Term) (*Term, int64) {
	if t.op == OApp && t.str == "+" && len(t.args) == 2 {
		if c, ok := t.args[1].intConst(); ok {
			return t.args[0], c
		}
	}
	if t.op == OConst {
		return nil, 0
	}
	return t, 0
}

func mkAdd(a, b *Term) *Term {
	if a.op == OConst && b.op != OConst {
		a, b = b, a
	}
	x, ok1 := a.intConst()
	y, ok2 := b.intConst()
	if ok1 && ok2 {
		return mkInt(x + y)
	}
	if ok2 {
		base, c := splitAdd(a)
		if base != nil {
			if c+y == 0 {
				return base
			}
			return mk(Term{op: OApp, str: "+", args: []*Term{base, mkInt(c + y)}, typ: types.Typ[types.Int]})
		}
	}
	return mk(Term{op: OApp, str: "+", args: []*Term{a, b}, typ: types.Typ[types.Int]})
}

// ---- substitution

type substCtx struct {
	m     map[*Term]*Term
	minID int
	memo  map[*Term]*Term
	bmemo map[BDD]BDD
	amemo map[*Term]BDD
}

func newSubst(m map[*Term]*Term) *substCtx {
	c := &substCtx{m: m, minID: 1 << 60, memo: map[*Term]*Term{}, bmemo: map[BDD]BDD{}, amemo: map[*Term]BDD{}}
	for k := range m {
		if k.id < c.minID {
			c.minID = k.id
		}
	}
	return c
}

func substTerm(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return newSubst(m).term(t)
}
func substBDD(b BDD, m map[*Term]*Term) BDD {
	if len(m) == 0 {
		return b
	}
	return newSubst(m).bddS(b)
}

func (c *substCtx) bddS(b BDD) BDD {
	if b <= 1 {
		return b
	}
	if r, ok := c.bmemo[b]; ok {
		return r
	}
	n := bddNodes[b]
	a := atomTerms[n.v]
	av, ok := c.amemo[a]
	if !ok {
		av = toBDD(c.term(a))
		c.amemo[a] = av
	}
	r := bddIte(av, c.bddS(n.hi), c.bddS(n.lo))
	c.bmemo[b] = r
	return r
}

func (c *substCtx) term(t *Term) *Term {
	if r, ok := c.m[t]; ok {
		return r
	}
	if t.id < c.minID || (len(t.args) == 0 && t.bdd <= 1) {
		return t
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	changed := false
	for i, a := range t.args {
		args[i] = c.term(a)
		if args[i] != a {
			changed = true
		}
	}
	b := t.bdd
	// binders whose domain changed: bound element symbols carry the domain
	if changed && len(t.args) > 0 {
		switch t.op {
		case ORep, OExists, OFirst, OFirstIdx, OLoopOut:
			if args[0] != t.args[0] {
				r := c.rebind(t, args[0])
				c.memo[t] = r
				return r
			}
		}
	}
	b = c.bddS(t.bdd)
	if !changed && b == t.bdd {
		c.memo[t] = t
		return t
	}
	r := rebuild(t, args, b)
	c.memo[t] = r
	return r
}

// rebind substitutes under a binder whose domain changes to nd.
func (c *substCtx) rebind(t *Term, nd *Term) *Term {
	od := t.args[0]
	e := mk(Term{op: OSym, str: fmt.Sprintf("$e%d", freshID())})
	ix := mk(Term{op: OSym, str: fmt.Sprintf("$i%d", freshID())})
	open := openMap(t, e, ix)
	_ = od
	switch t.op {
	case ORep:
		body := substTerm(t.args[1], open)
		body = c.term(body)
		return rebuildRep(t.str, nd, body, e, ix)
	case OExists:
		b := c.bddS(substBDD(t.bdd, open))
		h := bddMB(b) + 1
		b = substBDD(b, map[*Term]*Term{e: mk(Term{op: OBElem, args: []*Term{nd}, n: h}), ix: mk(Term{op: OBIdx, args: []*Term{nd}, n: h})})
		return fromBDD(existsBound(nd, h, b))
	case OFirst, OFirstIdx:
		b := c.bddS(substBDD(t.bdd, open))
		return mkFirstSym(t.op, nd, b, e, ix, t.typ)
	}
	return mk(Term{op: t.op, str: t.str, n: t.n, args: append([]*Term{nd}, t.args[1:]...), bdd: t.bdd, typ: t.typ})
}

func rebuildRep(kind string, nd, body, e, ix *Term) *Term {
	if body == tEmptyStr || body == tEmptyList {
		return body
	}
	h := body.mb + 1
	nb := substTerm(body, map[*Term]*Term{e: mk(Term{op: OBElem, args: []*Term{nd}, n: h}), ix: mk(Term{op: OBIdx, args: []*Term{nd}, n: h})})
	r := mk(Term{op: ORep, str: kind, args: []*Term{nd, nb}, n: h})
	if kind == "list" {
		return mkList(r)
	}
	return r
}

func mkFirstSym(op Op, nd *Term, b BDD, e, ix *Term, typ types.Type) *Term {
	h := bddMB(b) + 1
	b = substBDD(b, map[*Term]*Term{e: mk(Term{op: OBElem, args: []*Term{nd}, n: h}), ix: mk(Term{op: OBIdx, args: []*Term{nd}, n: h})})
	return mk(Term{op: op, args: []*Term{nd}, n: h, bdd: b, typ: typ})
}

// mkFirst: the first element of dom for which c (over Elem(dom,depth)) holds.
func mkFirst(op Op, dom *Term, depth int, c BDD, typ types.Type) *Term {
	b, h := closeBDD(dom, depth, c)
	return mk(Term{op: op, args: []*Term{dom}, n: h, bdd: b, typ: typ})
}

var fresh int

func freshID() int { fresh++; return fresh }

func rebuild(t *Term, args []*Term, b BDD) *Term {
	switch t.op {
	case OField:
		return mkField(args[0], t.str, t.typ)
	case OStr:
		return mkStr(args...)
	case OList:
		return mkList(args...)
	case OItem:
		return mkItem(args[0])
	case OIte:
		return mkIte(b, args[0], args[1])
	case OBool:
		return fromBDD(b)
	case OTuple:
		return mk(Term{op: OTuple, args: args})
	case OStruct:
		r := args[0]
		for i, k := range t.keys {
			r = mkUpdate(r, k, args[i+1], t.typ)
		}
		return r
	case OIface:
		return mkIface(args[0], t.typ)
	case ODeref:
		return mkDeref(args[0], t.typ)
	case ORep:
		if args[1] == tEmptyStr || args[1] == tEmptyList {
			return args[1]
		}
		r := mk(Term{op: ORep, str: t.str, args: args, n: t.n})
		if t.str == "list" {
			return mkList(r)
		}
		return r
	case OExists:
		return fromBDD(existsBound(args[0], t.n, b))
	case OApp:
		return rebuildApp(t, args)
	}
	return mk(Term{op: t.op, str: t.str, n: t.n, bdd: b, args: args, typ: t.typ, val: t.val, fn: t.fn, keys: t.keys})
}

func rebuildApp(t *Term, args []*Term) *Term {
	switch t.str {
	case "eq":
		return fromBDD(eqBDD(args[0], args[1]))
	case "lt":
		return fromBDD(mkCmpBDD("lt", args[0], args[1]))
	case "isnil":
		return fromBDD(isNilBDD(args[0]))
	case "empty":
		return fromBDD(emptyBDD(args[0]))
	case "len":
		return mkLen(args[0])
	case "+":
		return mkAdd(args[0], args[1])
	case "istype":
		return fromBDD(isTypeBDD(args[0], t.typ, args[1].str))
	case "assert":
		return mkAssert(args[0], t.typ)
	case "slice":
		s, ok := args[0].strConst()
		lo, ok1 := args[1].intConst()
		hi, ok2 := args[2].intConst()
		if args[2].op == OSym && args[2].str == "end" {
			hi, ok2 = int64(len(s)), true
		}
		if ok && ok1 && ok2 && lo >= 0 && lo <= hi && hi <= int64(len(s)) {
			return mkStrC(s[lo:hi])
		}
	case "deepequal":
		return fromBDD(deepEqualBDD(args[0], args[1]))
	case "index":
		return mkIndex(args[0], args[1], t.typ)
	case "setidx":
		return setIndex(args[0], args[1], args[2])
	case "lookup", "haskey":
		if r := foldLookup(t, args); r != nil {
			return r
		}
	}
	if strings.HasPrefix(t.str, "conv:") && args[0].op == OConst {
		k, ok := args[0].intConst()
		if ok && (t.str == "conv:byte" || t.str == "conv:uint8") {
			return mkInt(k & 255)
		}
		if ok && strings.HasPrefix(t.str, "conv:int") {
			return args[0]
		}
	}
	if f, ok := pureFold[t.str]; ok {
		if r := f(args); r != nil {
			return r
		}
	}
	return mk(Term{op: OApp, str: t.str, n: t.n, args: args, typ: t.typ, fn: t.fn})
}

func mkDeref(p *Term, typ types.Type) *Term {
	switch p.op {
	case OIte:
		if p.args[0] == tNil {
			return mkDeref(p.args[1], typ)
		}
		if p.args[1] == tNil {
			return mkDeref(p.args[0], typ)
		}
		return mkIte(p.bdd, mkDeref(p.args[0], typ), mkDeref(p.args[1], typ))
	case OUndef:
		return tUndef
	case OConst:
		return tUndef
	case OApp:
		if p.str == "&" {
			return p.args[0]
		}
	case OFieldAddr:
		return mkField(mkDeref(p.args[0], derefType(p.args[0].typ)), p.str, typ)
	case OElemAddr:
		return mkIndex(p.args[0], p.args[1], typ)
	}
	return mk(Term{op: ODeref, args: []*Term{p}, typ: typ})
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// listSlots are the elements of a list of known length, where an element may be
// one or another under a condition.
func listSlots(m *Term) []*Term {
	switch m.op {
	case OItem:
		return []*Term{m.args[0]}
	case OIte:
		a, b := listSlots(m.args[0]), listSlots(m.args[1])
		if a == nil || len(a) != len(b) {
			return nil
		}
		r := make([]*Term, len(a))
		for i := range a {
			r[i] = mkIte(m.bdd, a[i], b[i])
		}
		return r
	case OList:
		r := []*Term{}
		for _, p := range m.args {
			e := listSlots(p)
			if e == nil {
				return nil
			}
			r = append(r, e...)
		}
		return r
	}
	return nil
}

func mkIndex(s, i *Term, typ types.Type) *Term {
	if i.op == OIdx && i.args[0] == s {
		return mkElem(s, i.n, typ)
	}
	if i.op == OBIdx && i.args[0] == s {
		return mk(Term{op: OBElem, args: []*Term{s}, n: i.n, typ: typ})
	}
	if i.op == OFirstIdx && i.args[0] == s {
		return mk(Term{op: OFirst, args: []*Term{s}, n: i.n, bdd: i.bdd, typ: typ})
	}
	if s.op == OIte {
		return mkIte(s.bdd, mkIndex(s.args[0], i, typ), mkIndex(s.args[1], i, typ))
	}
	if k, ok := i.intConst(); ok && s.op == OList {
		all := true
		for j, p := range s.args {
			if p.op != OItem {
				all = false
				break
			}
			if int64(j) == k {
				return p.args[0]
			}
		}
		_ = all
	}
	if k, ok := i.intConst(); ok && s.op == OList {
		if e := listSlots(s); e != nil && k >= 0 && int(k) < len(e) {
			return e[k]
		}
	}
	if s.op == OUndef {
		return tUndef
	}
	return mkApp("index", typ, s, i)
}

func mkLen(x *Term) *Term {
	if s, ok := x.strConst(); ok {
		return mkInt(int64(len(s)))
	}
	switch x.op {
	case OList:
		n := 0
		for _, p := range x.args {
			if p.op != OItem {
				n = -1
				break
			}
			n++
		}
		if n >= 0 {
			return mkInt(int64(n))
		}
		if len(x.args) == 1 && x.args[0].op == ORep && x.args[0].args[1].op == OList {
			b := x.args[0].args[1]
			if len(b.args) == 1 && b.args[0].op == OItem {
				return mkLen(x.args[0].args[0])
			}
		}
	case OApp:
		if x.str == "make" {
			return x.args[0]
		}
	case OIte:
		return mkIte(x.bdd, mkLen(x.args[0]), mkLen(x.args[1]))
	case OConst:
		if x == tNil {
			return mkInt(0)
		}
	}
	return mkApp("len", types.Typ[types.Int], x)
}

func isTypeBDD(x *Term, typ types.Type, name string) BDD {
	switch x.op {
	case OIface:
		if typ != nil {
			if _, isI := typ.Underlying().(*types.Interface); isI {
				if types.Implements(x.typ, typ.Underlying().(*types.Interface)) {
					return True
				}
				return False
			}
		}
		if x.str == name {
			return True
		}
		return False
	case OConst:
		return False
	case OIte:
		return bddIte(x.bdd, isTypeBDD(x.args[0], typ, name), isTypeBDD(x.args[1], typ, name))
	case OUndef:
		return False
	}
	return atomBDD(mk(Term{op: OApp, str: "istype", args: []*Term{x, mk(Term{op: OSym, str: name})}, typ: typ}))
}

func mkAssert(x *Term, typ types.Type) *Term {
	switch x.op {
	case OIface:
		if _, isI := typ.Underlying().(*types.Interface); isI {
			return x
		}
		if types.TypeString(typ, nil) == x.str {
			return x.args[0]
		}
		return tUndef
	case OIte:
		return mkIte(x.bdd, mkAssert(x.args[0], typ), mkAssert(x.args[1], typ))
	case OUndef:
		return tUndef
	}
	return mk(Term{op: OApp, str: "assert", args: []*Term{x, mk(Term{op: OSym, str: types.TypeString(typ, nil)})}, typ: typ})
}

func deepEqualBDD(a, b *Term) BDD {
	if a == b {
		return True
	}
	if a.op == OUndef || b.op == OUndef {
		return False
	}
	if a == tNil {
		a, b = b, a
	}
	if a.op == OIte {
		return bddIte(a.bdd, deepEqualBDD(a.args[0], b), deepEqualBDD(a.args[1], b))
	}
	if b.op == OIte {
		return bddIte(b.bdd, deepEqualBDD(a, b.args[0]), deepEqualBDD(a, b.args[1]))
	}
	if a.op == OIface && b.op == OIface {
		if a.str != b.str {
			return False
		}
		return deepEqualBDD(a.args[0], b.args[0])
	}
	if a.op == OIface {
		a = a.args[0]
	}
	if b.op == OIface {
		b = b.args[0]
	}
	if a == b {
		return True
	}
	pa, pb := a.op == OApp && a.str == "&", b.op == OApp && b.str == "&"
	if pa && pb {
		return deepEqualBDD(a.args[0], b.args[0])
	}
	if pa && b == tNil || pb && a == tNil {
		return False
	}
	if na, nb := knownLen(a), knownLen(b); a.op == OList && b.op == OList && na >= 0 && nb >= 0 {
		if na != nb {
			return False
		}
		r := True
		for i := range a.args {
			r = bAnd(r, deepEqualBDD(a.args[i].args[0], b.args[i].args[0]))
		}
		return r
	}
	if a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ) {
		if st, ok := a.typ.Underlying().(*types.Struct); ok {
			r := True
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				r = bAnd(r, deepEqualBDD(mkField(a, f.Name(), f.Type()), mkField(b, f.Name(), f.Type())))
			}
			return r
		}
		if _, ok := a.typ.Underlying().(*types.Basic); ok {
			return eqBDD(a, b)
		}
	}
	if a.op == OConst && b.op == OConst && a != tNil && b != tNil {
		return eqBDD(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.typ != nil && isBytes(a.typ) || b.typ != nil && isBytes(b.typ) {
		// the same bytes, and none of them nil
		return bAnd(eqBDD(a, b), atomBDD(mkApp("deepequal", types.Typ[types.Bool], a, b)))
	}
	return atomBDD(mkApp("deepequal", types.Typ[types.Bool], a, b))
}

// mentions reports whether t contains x.
func mentions(t, x *Term) bool {
	seen := map[*Term]bool{}
	bs := map[BDD]bool{}
	var rec func(t *Term) bool
	var recB func(b BDD) bool
	recB = func(b BDD) bool {
		if b <= 1 || bs[b] {
			return false
		}
		bs[b] = true
		n := bddNodes[b]
		return rec(atomTerms[n.v]) || recB(n.lo) || recB(n.hi)
	}
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if t.id < x.id || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return recB(t.bdd)
	}
	return rec(t)
}

func bddMentions(b BDD, x *Term) bool {
	for _, a := range bSupport(b) {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// walkTerm visits every distinct subterm, including those inside guards.
func walkTerm(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	bs := map[BDD]bool{}
	var rec func(t *Term)
	var recB func(b BDD)
	recB = func(b BDD) {
		if b <= 1 || bs[b] {
			return
		}
		bs[b] = true
		n := bddNodes[b]
		rec(atomTerms[n.v])
		recB(n.lo)
		recB(n.hi)
	}
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		recB(t.bdd)
	}
	rec(t)
}
func walkBDD(b BDD, f func(*Term) bool) {
	for _, a := range bSupport(b) {
		walkTerm(a, f)
	}
}

func isStringTerm(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
