package main

import (
	"fmt"
	"go/types"
)

// ---- reasoning about guards

// openAtom instantiates the body of an Exists/First with x.
func openAtomBody(t *Term, x, ix *Term) BDD {
	return substBDD(t.bdd, openMap(t, x, ix))
}

// facts returns consequences of the meaning of Exists and First for the
// atoms occurring in b.
// exclusive: one value does not equal two different constants, and has one type.
func exclusive(b BDD) BDD {
	f := True
	byX := map[*Term][]*Term{}
	var order []*Term
	for _, a := range bSupport(b) {
		if a.op != OApp || len(a.args) != 2 || a.str != "eq" && a.str != "istype" {
			continue
		}
		x := a.args[0]
		if a.str == "eq" && a.args[0].op == OConst {
			x = a.args[1]
		} else if a.str == "eq" && a.args[1].op != OConst {
			continue
		}
		if a.str == "istype" && a.typ != nil {
			if _, isI := a.typ.Underlying().(*types.Interface); isI {
				continue
			}
		}
		if len(byX[x]) == 0 {
			order = append(order, x)
		}
		byX[x] = append(byX[x], a)
	}
	for _, x := range order {
		for i, p := range byX[x] {
			for _, q := range byX[x][:i] {
				if p.str == q.str {
					f = bAnd(f, bNot(bAnd(atomBDD(p), atomBDD(q))))
				}
			}
		}
	}
	return f
}

func facts(b BDD) BDD {
	f := True
	exists := map[*Term]bool{}
	firsts := map[*Term]bool{}
	for _, a := range bSupport(b) {
		walkTerm(a, func(t *Term) bool {
			switch t.op {
			case OExists:
				exists[t] = true
			case OFirst, OFirstIdx:
				firsts[t] = true
			}
			return true
		})
	}
	f = bAnd(f, exclusive(b))
	var ex, fs []*Term
	for _, t := range sortedTerms(exists) {
		if t.mb == t.n || true {
			ex = append(ex, t)
		}
	}
	fs = sortedTerms(firsts)
	for _, t := range fs {
		x := mk(Term{op: OFirst, str: t.str, args: t.args, n: t.n, bdd: t.bdd})
		ix := mk(Term{op: OFirstIdx, str: t.str, args: t.args, n: t.n, bdd: t.bdd})
		h := t.n
		e := existsBound(t.args[0], h, t.bdd)
		f = bAnd(f, bOr(bNot(e), openAtomBody(t, x, ix)))
		for _, y := range ex {
			if y.args[0] == t.args[0] {
				f = bAnd(f, bOr(bNot(e), bOr(bNot(openAtomBody(y, x, ix)), atomBDD(y))))
			}
		}
	}
	for i, x := range ex {
		for j, y := range ex {
			if i == j || x.args[0] != y.args[0] {
				continue
			}
			if bodyImplies(x, y) {
				f = bAnd(f, bOr(bNot(atomBDD(x)), atomBDD(y)))
			}
		}
	}
	return f
}

var bodyMemo = map[[2]*Term]bool{}
var bodyDepth int

// bodyImplies: every element satisfying the body of x satisfies that of y.
func bodyImplies(x, y *Term) bool {
	k := [2]*Term{x, y}
	if r, ok := bodyMemo[k]; ok {
		return r
	}
	e := mk(Term{op: OSym, str: fmt.Sprintf("$cmp-elem%d", bodyDepth)})
	ix := mk(Term{op: OSym, str: fmt.Sprintf("$cmp-idx%d", bodyDepth)})
	a, b := openAtomBody(x, e, ix), openAtomBody(y, e, ix)
	r := bImplies(a, b)
	if !r && bodyDepth < 4 {
		bodyDepth++
		r = implies(a, b)
		bodyDepth--
	}
	bodyMemo[k] = r
	return r
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].id < out[j-1].id; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// unsat: the guard cannot be true.
func unsat(b BDD) bool {
	if b == False {
		return true
	}
	f := facts(b)
	if bAnd(b, f) == False {
		return true
	}
	f = bAnd(f, facts(bAnd(b, f)))
	return bAnd(b, f) == False
}

func implies(a, b BDD) bool { return unsat(bAnd(a, bNot(b))) }

// closeLoops existentially closes a condition over the loops around it.
func closeLoops(loops []loopCtx, b BDD) BDD {
	for i := len(loops) - 1; i >= 0; i-- {
		l := loops[i]
		if l.dom.op == OSym { // not over a collection: leave the condition open
			continue
		}
		if bddMentions(b, mkElem(l.dom, l.depth, nil)) || bddMentions(b, mkIdx(l.dom, l.depth)) {
			b = mkExists(l.dom, l.depth, b)
		}
	}
	return b
}

// ---- events

type Emission struct {
	g     BDD
	loops []*Term // enclosing Reps
	item  *Term
	prior bool // inside an iteration before the one that left the loop
	seq   int
}

// emissions linearises a gated list.
func emissions(t *Term) []Emission {
	var out []Emission
	var rec func(t *Term, g BDD, loops []*Term)
	rec = func(t *Term, g BDD, loops []*Term) {
		if g == False {
			return
		}
		switch t.op {
		case OList:
			for _, x := range t.args {
				rec(x, g, loops)
			}
		case OIte:
			rec(t.args[0], bAnd(g, t.bdd), loops)
			rec(t.args[1], bAnd(g, bNot(t.bdd)), loops)
		case ORep:
			rec(t.args[1], g, append(append([]*Term{}, loops...), t))
		case OItem:
			out = append(out, Emission{g: g, loops: loops, item: t.args[0], seq: len(out)})
		case OConst, OUndef:
		case OAcc, OLoopOut: // what happened before the loop, then some iterations
			rec(t.args[1], g, loops)
			out = append(out, Emission{g: g, loops: loops, item: t, prior: true, seq: len(out)})
		default:
			out = append(out, Emission{g: g, loops: loops, item: t, prior: true, seq: len(out)})
		}
	}
	rec(t, True, nil)
	return out
}

func (e Emission) name() string {
	if e.item.op == OApp {
		if len(e.item.str) > 3 && e.item.str[:3] == "ev:" {
			return e.item.str[3:]
		}
		return e.item.str
	}
	return e.item.op2()
}

func (t *Term) op2() string { return opNames[t.op] + ":" + t.str }

// projectList keeps only the items for which keep holds.
func projectList(t *Term, keep func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.op {
		case OList:
			var ps []*Term
			for _, x := range t.args {
				ps = append(ps, rec(x))
			}
			r = mkList(ps...)
		case OIte:
			r = mkIte(t.bdd, rec(t.args[0]), rec(t.args[1]))
		case ORep:
			b := rec(t.args[1])
			if b == tEmptyList {
				r = tEmptyList
			} else {
				e := mk(Term{op: OSym, str: fmt.Sprintf("$p%d", freshID())})
				ix := mk(Term{op: OSym, str: fmt.Sprintf("$q%d", freshID())})
				b = substTerm(b, openMap(t, e, ix))
				r = rebuildRep(t.str, t.args[0], b, e, ix)
			}
		case OItem:
			if x := keep(t.args[0]); x != nil {
				r = mkItem(x)
			} else {
				r = tEmptyList
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// fuse replaces iteration over a list that was itself built by an iteration
// by iteration over the original collection.
func fuse(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	var over func(dom *Term, body func(x *Term) *Term) *Term
	over = func(dom *Term, body func(x *Term) *Term) *Term {
		switch dom.op {
		case OList:
			var ps []*Term
			for _, p := range dom.args {
				ps = append(ps, over(p, body))
			}
			return mkList(ps...)
		case OIte:
			return mkIte(dom.bdd, over(dom.args[0], body), over(dom.args[1], body))
		case OItem:
			return body(dom.args[0])
		case ORep:
			if dom.str != "list" {
				break
			}
			e := mk(Term{op: OSym, str: fmt.Sprintf("$p%d", freshID())})
			ix := mk(Term{op: OSym, str: fmt.Sprintf("$q%d", freshID())})
			inner := over(substTerm(dom.args[1], openMap(dom, e, ix)), body)
			return rebuildRep("list", dom.args[0], inner, e, ix)
		}
		e := mk(Term{op: OSym, str: fmt.Sprintf("$p%d", freshID())})
		ix := mk(Term{op: OSym, str: fmt.Sprintf("$q%d", freshID())})
		return rebuildRep("list", dom, body(e), e, ix)
	}
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.op {
		case OList:
			var ps []*Term
			for _, x := range t.args {
				ps = append(ps, rec(x))
			}
			r = mkList(ps...)
		case OIte:
			r = mkIte(t.bdd, rec(t.args[0]), rec(t.args[1]))
		case ORep:
			if t.str == "list" {
				d := rec(t.args[0])
				switch d.op {
				case OList, OIte, ORep:
					if !mentions(t.args[1], mk(Term{op: OBIdx, args: []*Term{t.args[0]}, n: t.n})) {
						r = over(d, func(x *Term) *Term { return rec(substTerm(t.args[1], openMap(t, x, nil))) })
					}
				default:
					e := mk(Term{op: OSym, str: fmt.Sprintf("$p%d", freshID())})
					ix := mk(Term{op: OSym, str: fmt.Sprintf("$q%d", freshID())})
					r = rebuildRep("list", d, rec(substTerm(t.args[1], openMap(t, e, ix))), e, ix)
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// isPureApp: a value computed from its arguments.
func isPureApp(t *Term) bool {
	if _, ok := pureFold[t.str]; ok {
		return true
	}
	switch t.str {
	case "index", "len", "+", "fmt%d", "strings.Replace", "lookup", "haskey":
		return true
	}
	return false
}

// restrictTerm simplifies t under the assumption that care holds.
func restrictTerm(t *Term, care BDD) *Term {
	type key struct {
		t *Term
		c BDD
	}
	memo := map[key]*Term{}
	var rec func(t *Term, care BDD) *Term
	rec = func(t *Term, care BDD) *Term {
		k := key{t, care}
		if r, ok := memo[k]; ok {
			return r
		}
		r := t
		switch t.op {
		case OIte:
			pos, neg := bAnd(care, t.bdd), bAnd(care, bNot(t.bdd))
			switch {
			case neg == False && pos != False:
				r = rec(t.args[0], care)
			case pos == False && neg != False:
				r = rec(t.args[1], care)
			case pos == False:
			default:
				r = mkIte(bSimplify(t.bdd, care), rec(t.args[0], pos), rec(t.args[1], neg))
			}
		case OBool:
			if bAnd(care, t.bdd) == False {
				r = tFalse
			} else if bAnd(care, bNot(t.bdd)) == False {
				r = tTrue
			} else {
				r = fromBDD(bSimplify(t.bdd, care))
			}
		case OApp:
			if len(t.args) == 0 || !isPureApp(t) {
				break
			}
			var as []*Term
			ch := false
			for _, x := range t.args {
				y := rec(x, care)
				ch = ch || y != x
				as = append(as, y)
			}
			if ch {
				r = rebuild(t, as, t.bdd)
			}
		case OList, OStr, OTuple, OItem, OIface:
			var as []*Term
			for _, x := range t.args {
				as = append(as, rec(x, care))
			}
			r = rebuild(t, as, t.bdd)
		case ORep:
			b := rec(t.args[1], care)
			d := rec(t.args[0], care)
			if b != t.args[1] || d != t.args[0] {
				e := mk(Term{op: OSym, str: fmt.Sprintf("$p%d", freshID())})
				ix := mk(Term{op: OSym, str: fmt.Sprintf("$q%d", freshID())})
				r = rebuildRep(t.str, d, substTerm(b, openMap(t, e, ix)), e, ix)
			}
		}
		memo[k] = r
		return r
	}
	return rec(t, care)
}

// lastError returns the error result of a call, if it has one.
func (c *CallInst) errTerm() *Term {
	if c.sig == nil || c.sig.Len() == 0 {
		return nil
	}
	last := c.sig.At(c.sig.Len() - 1).Type()
	if !isErrorType(last) {
		return nil
	}
	if c.sig.Len() == 1 {
		return c.res
	}
	return mkField(c.res, fmt.Sprint(c.sig.Len()-1), last)
}

func structTags(t types.Type) map[string]string {
	out := map[string]string{}
	if t == nil {
		return out
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		out[st.Field(i).Name()] = st.Tag(i)
	}
	return out
}
