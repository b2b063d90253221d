package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A gated abstract interpreter over SSA: every value is a term over the
// function's inputs in which control dependence appears as if-then-else with a
// canonical guard, loops over collections appear as Rep/Exists/First, and
// side effects appear as a gated event list (the trace). Callees inside the
// repository are inlined context-sensitively.

type State struct {
	parent *State
	depth  int
	m      map[any]*Term
}

type envKey struct {
	act int
	v   ssa.Value
}
type deferKey struct{ act int }
type contentKey struct{ t *Term }
type traceKeyT struct{}

var traceKey = traceKeyT{}

func newState() *State { return &State{m: map[any]*Term{}} }

func (s *State) get(k any) (*Term, bool) {
	for x := s; x != nil; x = x.parent {
		if t, ok := x.m[k]; ok {
			return t, true
		}
	}
	return nil, false
}
func (s *State) set(k any, t *Term) { s.m[k] = t }
func (s *State) fork() *State {
	if s.depth > 40 {
		f := &State{m: map[any]*Term{}}
		var chain []*State
		for x := s; x != nil; x = x.parent {
			chain = append(chain, x)
		}
		for i := len(chain) - 1; i >= 0; i-- {
			for k, v := range chain[i].m {
				f.m[k] = v
			}
		}
		// keep identity for LCA purposes: the flattened copy becomes s
		s.m = f.m
		s.parent = nil
		s.depth = 0
	}
	return &State{parent: s, depth: s.depth + 1, m: map[any]*Term{}}
}

func lca(a, b *State) *State {
	seen := map[*State]bool{}
	for x := a; x != nil; x = x.parent {
		seen[x] = true
	}
	for y := b; y != nil; y = y.parent {
		if seen[y] {
			return y
		}
	}
	return nil
}

func deltaKeys(s, anc *State, out map[any]bool) {
	for x := s; x != nil && x != anc; x = x.parent {
		for k := range x.m {
			out[k] = true
		}
	}
}

type edge struct {
	from, to *ssa.BasicBlock
	g        BDD
	st       *State
}

func (ev *Eval) defaultCell(k any) *Term {
	switch x := k.(type) {
	case *Term:
		if x.op == OObj {
			return nil
		}
		return mkDeref(x, derefType(x.typ))
	case traceKeyT:
		return tEmptyList
	case deferKey:
		return tEmptyList
	}
	return nil
}

func (ev *Eval) mergeEdges(es []edge) (BDD, *State) {
	if len(es) == 1 {
		return es[0].g, es[0].st
	}
	total := False
	for _, e := range es {
		total = bOr(total, e.g)
	}
	anc := es[0].st
	for _, e := range es[1:] {
		anc = lca(anc, e.st)
		if anc == nil {
			break
		}
	}
	ks := map[any]bool{}
	for _, e := range es {
		deltaKeys(e.st, anc, ks)
	}
	var out *State
	if anc != nil {
		out = anc.fork()
	} else {
		out = newState()
	}
	conds := mergeConds(es)
	// deterministic order is irrelevant for hash-consing of results but keep ids stable
	keys := make([]any, 0, len(ks))
	for k := range ks {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
	for _, k := range keys {
		_, isEnv := k.(envKey)
		vals := make([]*Term, len(es))
		miss := false
		for i, e := range es {
			v, ok := e.st.get(k)
			if !ok {
				if isEnv {
					miss = true
					break
				}
				v = ev.defaultCell(k)
			}
			vals[i] = v
		}
		if miss {
			// defined on some paths only: dead at the join unless dominated; keep any
			for _, e := range es {
				if v, ok := e.st.get(k); ok {
					out.set(k, v)
				}
			}
			continue
		}
		out.set(k, foldVals(conds, vals))
	}
	return total, out
}

func mergeConds(es []edge) []BDD {
	conds := make([]BDD, len(es))
	rest := False
	for i := len(es) - 1; i >= 0; i-- {
		rest = bOr(rest, es[i].g)
		conds[i] = bSimplify(es[i].g, rest)
	}
	return conds
}

func foldVals(conds []BDD, vals []*Term) *Term {
	var r *Term
	for i := len(vals) - 1; i >= 0; i-- {
		if vals[i] == nil {
			continue
		}
		if r == nil {
			r = vals[i]
			continue
		}
		r = mkIte(conds[i], vals[i], r)
	}
	if r == nil {
		r = tUndef
	}
	return r
}

func keyRank(k any) (int, int, string) {
	switch x := k.(type) {
	case traceKeyT:
		return 0, 0, ""
	case deferKey:
		return 1, x.act, ""
	case *Term:
		return 2, x.id, ""
	case contentKey:
		return 3, x.t.id, ""
	case envKey:
		return 4, x.act, x.v.Name()
	case muKey:
		_, n, s := keyRank(x.k)
		return 5, n, s + "." + x.f
	}
	return 5, 0, fmt.Sprint(k)
}
func keyLess(a, b any) bool {
	r1, n1, s1 := keyRank(a)
	r2, n2, s2 := keyRank(b)
	if r1 != r2 {
		return r1 < r2
	}
	if n1 != n2 {
		return n1 < n2
	}
	return s1 < s2
}

// ---- evaluator

type Termination struct {
	g     BDD
	kind  string // callee or "panic"
	args  []*Term
	trace *Term
	pos   token.Pos
}

type loopCtx struct {
	dom   *Term
	depth int
}

type accInfo struct{ init, step *Term }

type Eval struct {
	prog        *Program
	stack       []*ssa.Function
	loops       []loopCtx
	acts        map[string]int
	inline      func(*ssa.Function) bool
	fieldStores map[string]map[*Term]bool
	objInit     map[*Term][]*Term // stores into allocated objects (any path)
	accs        map[*Term]accInfo
	escVia      map[*Term][]*Term
	opaque      map[string]int // opaque constructs met, for evidence
	nfuncs      map[*ssa.Function]bool
	steps       int
	notes       []string
	callSites   map[string][]callRec
	urlKeys     map[*Term][]*Term
	pureFns     map[string]bool
	calls       []*CallInst // opaque calls of the final pass, in evaluation order
	gstack      []BDD
	iterObj     map[string]*iterRec // what objects made in a loop hold at the end of their iteration
	iterEff     []*iterRec          // what iterations store to cells reached through their element
	snapAppend  bool                // objects put into a list are taken as they are then
	care        BDD                 // assumed of the inputs
	special     map[string]func(a *act, in ssa.Instruction, args []*Term, rtyp types.Type, g BDD, st *State) (*Term, BDD, *State)
	unroll      bool // unroll loops over lists of known elements
	hook        func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool)
	noErr       bool // paths that end in an error return or a termination are assumed away
	scanOK      bool // reading a row succeeds
}

// CallInst is one call of a function that was not inlined, in its calling
// context: the guard under which it happens and the loops around it (whose
// current elements occur open in guard, arguments and result).
type CallInst struct {
	name  string
	args  []*Term
	res   *Term
	g     BDD
	loops []loopCtx
	exits []BDD // per loop, outermost first: condition under which the iteration leaves it
	fn    *ssa.Function
	pos   token.Pos
	sig   *types.Tuple
}

func (ev *Eval) pathGuard(g BDD) BDD {
	for i := len(ev.gstack) - 1; i >= 0; i-- {
		g = bAnd(ev.gstack[i], g)
	}
	return g
}

type callRec struct {
	pos  token.Pos
	name string
}

func newEval(p *Program) *Eval {
	return &Eval{care: True, prog: p, acts: map[string]int{}, fieldStores: map[string]map[*Term]bool{}, objInit: map[*Term][]*Term{}, accs: map[*Term]accInfo{}, escVia: map[*Term][]*Term{}, opaque: map[string]int{}, nfuncs: map[*ssa.Function]bool{}, callSites: map[string][]callRec{}, urlKeys: map[*Term][]*Term{}}
}

func (ev *Eval) actID(parent int, where string) int {
	k := fmt.Sprintf("%d/%s", parent, where)
	if id, ok := ev.acts[k]; ok {
		return id
	}
	id := len(ev.acts) + 1
	ev.acts[k] = id
	return id
}

type act struct {
	unroll string // iteration of the unrolled loops around
	ev     *Eval
	fn     *ssa.Function
	id     int
	args   map[ssa.Value]*Term
	rets   []retRec
	terms  []Termination
	loops  map[*ssa.BasicBlock]*loopInfo
}

type retRec struct {
	g  BDD
	v  *Term
	st *State
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type Result struct {
	ret   *Term
	st    *State
	alive BDD
	terms []Termination
	rets  []retRec // one per return statement reached
}

// Call evaluates fn on args in st (st is consumed).
func (ev *Eval) Call(fn *ssa.Function, args, free []*Term, st *State, parentAct int, where string) Result {
	ev.nfuncs[fn] = true
	a := &act{ev: ev, fn: fn, args: map[ssa.Value]*Term{}}
	a.id = ev.actID(parentAct, where+"→"+fn.String())
	for i, p := range fn.Params {
		a.args[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		a.args[f] = free[i]
	}
	a.loops = findLoops(fn)
	ev.stack = append(ev.stack, fn)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	a.region(all, fn.Blocks[0], nil, edge{to: fn.Blocks[0], g: True, st: st.fork()})
	ev.stack = ev.stack[:len(ev.stack)-1]
	res := Result{terms: a.terms, rets: a.rets}
	if len(a.rets) == 0 {
		res.alive = False
		res.ret = tUndef
		res.st = st
		return res
	}
	var es []edge
	var vals []*Term
	for _, r := range a.rets {
		es = append(es, edge{g: r.g, st: r.st})
		vals = append(vals, r.v)
	}
	g, s := ev.mergeEdges(es)
	res.alive = g
	res.st = s
	res.ret = foldVals(mergeConds(es), vals)
	return res
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := loops[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return loops
}

// region evaluates the blocks of a region (whole function or loop body) from
// entry; cur is the loop whose body this is (nil for the function).
// It returns the edges leaving the region, including back edges to entry.
func (a *act) region(blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, cur *loopInfo, in edge) (out []edge) {
	// outermost inner loop of each block
	owner := map[*ssa.BasicBlock]*loopInfo{}
	for _, li := range a.loops {
		if cur != nil && li.header == cur.header {
			continue
		}
		if !blocks[li.header] {
			continue
		}
		for b := range li.blocks {
			if o := owner[b]; o == nil || len(li.blocks) > len(o.blocks) {
				owner[b] = li
			}
		}
	}
	rep := func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if o := owner[b]; o != nil {
			return o.header
		}
		return b
	}
	// topological order of the collapsed graph
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		var succs []*ssa.BasicBlock
		if o := owner[b]; o != nil {
			var bs []*ssa.BasicBlock
			for x := range o.blocks {
				bs = append(bs, x)
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
			for _, x := range bs {
				for _, s := range x.Succs {
					if !o.blocks[s] {
						succs = append(succs, s)
					}
				}
			}
		} else {
			succs = b.Succs
		}
		for _, s := range succs {
			if !blocks[s] || s == entry {
				continue
			}
			r := rep(s)
			if !seen[r] {
				dfs(r)
			}
		}
		order = append(order, b)
	}
	dfs(rep(entry))
	pend := map[*ssa.BasicBlock][]edge{rep(entry): {in}}
	emit := func(e edge) {
		if e.g == False {
			return
		}
		if !blocks[e.to] || e.to == entry {
			out = append(out, e)
			return
		}
		pend[rep(e.to)] = append(pend[rep(e.to)], e)
	}
	for i := len(order) - 1; i >= 0; i-- {
		b := order[i]
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		if o := owner[b]; o != nil {
			for _, e := range a.loop(o, es) {
				emit(e)
			}
			continue
		}
		for _, e := range a.block(b, es, b == entry && cur != nil) {
			emit(e)
		}
	}
	return out
}

func (a *act) block(b *ssa.BasicBlock, es []edge, skipPhi bool) []edge {
	ev := a.ev
	g, st := ev.mergeEdges(es)
	if len(es) > 1 || true {
		st = st.fork()
	}
	if !skipPhi {
		a.evalPhis(b, es, st)
	}
	return a.instrs(b, g, st)
}

func (a *act) evalPhis(b *ssa.BasicBlock, es []edge, st *State) {
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	if len(phis) == 0 {
		return
	}
	conds := mergeConds(es)
	vals := make([]*Term, len(phis))
	for i, p := range phis {
		vs := make([]*Term, len(es))
		for j, e := range es {
			for k, pr := range b.Preds {
				if pr == e.from {
					vs[j] = a.val(p.Edges[k], e.st)
				}
			}
		}
		vals[i] = foldVals(conds, vs)
	}
	for i, p := range phis {
		st.set(envKey{a.id, p}, vals[i])
	}
}

func (a *act) instrs(b *ssa.BasicBlock, g BDD, st *State) []edge {
	ev := a.ev
	for _, in := range b.Instrs {
		ev.steps++
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := toBDD(a.val(x.Cond, st))
			if ev.care != True {
				if bAnd(ev.care, c) == False {
					c = False
				} else if bImplies(ev.care, c) {
					c = True
				}
			}
			var out []edge
			if t := bAnd(g, c); t != False {
				out = append(out, edge{from: b, to: b.Succs[0], g: t, st: st.fork()})
			}
			if f := bAnd(g, bNot(c)); f != False {
				out = append(out, edge{from: b, to: b.Succs[1], g: f, st: st.fork()})
			}
			return out
		case *ssa.Jump:
			return []edge{{from: b, to: b.Succs[0], g: g, st: st}}
		case *ssa.Return:
			var v *Term
			switch len(x.Results) {
			case 0:
				v = mk(Term{op: OTuple})
			case 1:
				v = a.val(x.Results[0], st)
			default:
				var vs []*Term
				for _, r := range x.Results {
					vs = append(vs, a.val(r, st))
				}
				v = mk(Term{op: OTuple, args: vs})
			}
			if ev.noErr && len(x.Results) > 0 && isErrorType(x.Results[len(x.Results)-1].Type()) {
				e := v
				if v.op == OTuple {
					e = v.args[len(v.args)-1]
				}
				g = bAnd(g, isNilBDD(e))
				if g == False || bAnd(g, firstFacts(e)) == False {
					return nil
				}
			}
			a.rets = append(a.rets, retRec{g, v, st})
			return nil
		case *ssa.Panic:
			tr, _ := st.get(traceKey)
			if tr == nil {
				tr = tEmptyList
			}
			a.terms = append(a.terms, Termination{g: g, kind: "panic", args: []*Term{a.val(x.X, st)}, trace: tr, pos: x.Pos()})
			return nil
		default:
			var alive BDD
			alive, st = a.instr(in, g, st)
			if alive != True {
				g = bAnd(g, alive)
				if g == False {
					return nil
				}
			}
		}
	}
	return nil
}

func (a *act) val(v ssa.Value, st *State) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroTerm(x.Type())
		}
		return constTerm(x.Value, x.Type())
	case *ssa.Global:
		return mk(Term{op: OGlobal, str: x.String(), typ: x.Type()})
	case *ssa.Function:
		return mk(Term{op: OClosure, fn: x, typ: x.Type()})
	case *ssa.Builtin:
		return mkSym("builtin:"+x.Name(), x.Type())
	case *ssa.Parameter, *ssa.FreeVar:
		if t, ok := a.args[v]; ok {
			return a.redirect(t, st)
		}
	}
	if t, ok := st.get(envKey{a.id, v}); ok {
		return a.redirect(t, st)
	}
	return mkSym(fmt.Sprintf("undefined:%s:%s", a.fn, v.Name()), v.Type())
}

func (a *act) redirect(t *Term, st *State) *Term {
	if t.op == OApp && t.str == "make" {
		if c, ok := st.get(contentKey{t}); ok {
			return c
		}
	}
	return t
}

// ---- loops

func (a *act) loop(li *loopInfo, es []edge) []edge {
	ev := a.ev
	h := li.header
	G, S := ev.mergeEdges(es)
	S = S.fork()
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	// initial values of the header phis
	init := map[*ssa.Phi]*Term{}
	conds := mergeConds(es)
	for _, p := range phis {
		vs := make([]*Term, len(es))
		for j, e := range es {
			for k, pr := range h.Preds {
				if pr == e.from {
					vs[j] = a.val(p.Edges[k], e.st)
				}
			}
		}
		init[p] = foldVals(conds, vs)
	}
	uid := fmt.Sprintf("L%d.%d", a.id, h.Index)
	// induction variables: phi + 1 on every back edge
	induct := map[*ssa.Phi]bool{}
	for _, p := range phis {
		ok := true
		for k, pr := range h.Preds {
			if !li.blocks[pr] {
				continue
			}
			bo, isb := p.Edges[k].(*ssa.BinOp)
			if !isb || bo.Op != token.ADD || bo.X != ssa.Value(p) {
				ok = false
				break
			}
			c, isc := bo.Y.(*ssa.Const)
			if !isc || c.Value == nil || c.Int64() != 1 {
				ok = false
			}
		}
		if _, isC := init[p].intConst(); ok && isC {
			induct[p] = true
		}
	}
	dom, condVal, condThen := a.loopDomain(li, S, induct, init)
	if dom == nil {
		dom = mkSym("iter:"+uid, nil)
		condVal = nil
	}
	if n := knownLen(dom); ev.unroll && condVal != nil && n >= 0 && n <= 6 {
		return a.unrolled(li, phis, init, G, S, n)
	}
	// fuse iteration over a mapped list
	depth := 0
	for _, l := range ev.loops {
		if l.dom == dom {
			depth++
		}
	}
	ev.loops = append(ev.loops, loopCtx{dom, depth})
	ev.gstack = append(ev.gstack, G)
	callStart := len(ev.calls)
	idx := mkIdx(dom, depth)
	inDom := mkApp("indom", types.Typ[types.Bool], mkSym(uid, nil), idx)
	mus := map[any]*Term{}
	var muKeys []any // cells; struct cells carried field by field use muKey
	preset := func(st *State, val func(mu *Term) *Term) {
		for _, k := range muKeys {
			if fk, ok := k.(muKey); ok {
				cur, ok := st.get(fk.k)
				if !ok {
					cur = ev.defaultCell(fk.k)
				}
				st.set(fk.k, mkUpdate(cur, fk.f, val(mus[k]), cur.typ))
				continue
			}
			st.set(k, val(mus[k]))
		}
	}
	var body []edge
	var termStart = len(a.terms)
	var retStart = len(a.rets)
	for pass := 0; pass < 12; pass++ {
		a.terms = a.terms[:termStart]
		a.rets = a.rets[:retStart]
		ev.calls = ev.calls[:callStart]
		st := S.fork()
		for _, p := range phis {
			k := envKey{a.id, p}
			if induct[p] {
				c, _ := init[p].intConst()
				st.set(k, mkAdd(idx, mkInt(c)))
				continue
			}
			m := mk(Term{op: OMu, str: uid + ":" + p.Name(), args: []*Term{dom}, n: depth, typ: p.Type()})
			mus[k] = m
			st.set(k, m)
		}
		preset(st, func(m *Term) *Term { return m })
		// preset domain condition
		if condVal != nil {
			st.set(envKey{-1, condVal}, inDom)
		}
		base := st
		a.condOverride(condVal, inDom, func() {
			body = a.region(li.blocks, h, li, edge{to: h, g: True, st: st.fork()})
		})
		// newly modified cells?
		changed := false
		var back []edge
		for _, e := range body {
			if e.to == h {
				back = append(back, e)
			}
		}
		for _, e := range back {
			ks := map[any]bool{}
			deltaKeys(e.st, base, ks)
			for k := range ks {
				switch kk := k.(type) {
				case envKey, contentKey:
					continue
				case *Term:
					// objects allocated inside the iteration are not loop-carried
					if _, ok := S.get(k); !ok && kk.op == OObj {
						continue
					}
					if kk.op == OElemAddr && mentions(kk, idx) {
						continue
					}
					if mentions(kk, mkElem(dom, depth, nil)) {
						continue
					}
				}
				if _, ok := mus[k]; ok {
					continue
				}
				v, _ := e.st.get(k)
				old, ok := S.get(k)
				if !ok {
					old = ev.defaultCell(k)
				}
				if v == old {
					continue
				}
				if fs, ok := changedFields(old, v); ok {
					for _, f := range fs {
						fk := muKey{k, f}
						if _, ok := mus[fk]; ok {
							continue
						}
						ft := fieldType(old.typ, f)
						mus[fk] = mk(Term{op: OMu, str: uid + ":" + keyName(k) + "." + f, args: []*Term{dom}, n: depth, typ: ft})
						muKeys = append(muKeys, fk)
						changed = true
					}
					continue
				}
				typ := types.Type(nil)
				if old != nil {
					typ = old.typ
				}
				mus[k] = mk(Term{op: OMu, str: uid + ":" + keyName(k), args: []*Term{dom}, n: depth, typ: typ})
				muKeys = append(muKeys, k)
				changed = true
			}
		}
		sort.Slice(muKeys, func(i, j int) bool { return keyLess(muKeys[i], muKeys[j]) })
		if !changed {
			break
		}
	}
	ev.loops = ev.loops[:len(ev.loops)-1]
	ev.gstack = ev.gstack[:len(ev.gstack)-1]

	// separate edges
	hasDom := condVal != nil
	asIn := func(b BDD) BDD {
		if !hasDom {
			return b
		}
		return bRestrict(b, inDom, condThen)
	}
	var back, early []edge
	var normal *edge
	for _, e := range body {
		e := e
		if e.to == h {
			e.g = asIn(e.g)
			back = append(back, e)
			continue
		}
		if hasDom && asIn(e.g) == False {
			normal = &e
			continue
		}
		e.g = asIn(e.g)
		early = append(early, e)
	}
	E := False
	for _, e := range early {
		E = bOr(E, e.g)
	}
	var rets []retRec
	for _, r := range a.rets[retStart:] {
		r.g = asIn(r.g)
		E = bOr(E, r.g)
		rets = append(rets, r)
	}
	a.rets = a.rets[:retStart]
	var terms []Termination
	for _, t := range a.terms[termStart:] {
		t.g = asIn(t.g)
		if ev.noErr {
			continue
		}
		E = bOr(E, t.g)
		terms = append(terms, t)
	}
	a.terms = a.terms[:termStart]

	// solve the recurrences
	backVal := map[any]*Term{}
	if len(back) > 0 {
		bg, bst := ev.mergeEdges(back)
		bc := mergeConds(back)
		for _, p := range phis {
			if induct[p] {
				continue
			}
			vs := make([]*Term, len(back))
			for j, e := range back {
				for k, pr := range h.Preds {
					if pr == e.from {
						vs[j] = a.val(p.Edges[k], e.st)
					}
				}
			}
			backVal[envKey{a.id, p}] = foldVals(bc, vs)
		}
		for _, k := range muKeys {
			ck, f := k, ""
			if fk, ok := k.(muKey); ok {
				ck, f = fk.k, fk.f
			}
			v, ok := bst.get(ck)
			if !ok {
				v = ev.defaultCell(ck)
			}
			if f != "" {
				v = mkField(v, f, mus[k].typ)
			}
			backVal[k] = v
		}
		_ = bg
	}
	final := map[*Term]*Term{}   // mu -> value after normal exit
	partial := map[*Term]*Term{} // mu -> value inside an iteration
	type solved struct {
		mu, acc, init, step *Term
		kind                string
	}
	var sols []solved
	allKeys := append([]any{}, muKeys...)
	for _, p := range phis {
		if !induct[p] {
			allKeys = append(allKeys, envKey{a.id, p})
		}
	}
	elemT := mkElem(dom, depth, nil)
	simp := func(t *Term) *Term { // the body value on paths that continue the loop
		if hasDom {
			t = substTerm(t, map[*Term]*Term{inDom: mkBool(condThen)})
		}
		return t
	}
	for _, k := range allKeys {
		mu := mus[k]
		var in *Term
		if ek, ok := k.(envKey); ok {
			in = init[ek.v.(*ssa.Phi)]
		} else {
			ck, f := k, ""
			if fk, ok := k.(muKey); ok {
				ck, f = fk.k, fk.f
			}
			var ok bool
			in, ok = S.get(ck)
			if !ok {
				in = ev.defaultCell(ck)
			}
			if f != "" {
				in = mkField(in, f, mu.typ)
			}
		}
		if in == nil {
			in = tUndef
		}
		v, ok := backVal[k]
		if !ok || v == mu {
			final[mu] = in
			partial[mu] = in
			continue
		}
		v = simp(v)
		s := solved{mu: mu, init: in, step: v}
		if isListy(v, mu) {
			s.kind = "list"
		} else if isStry(v, mu) {
			s.kind = "str"
		} else if boolish(v) || boolish(in) {
			s.kind = "bool"
		} else {
			s.kind = "other"
		}
		if v.op == OConst && hasDom && in != tUndef {
			// set to the same constant by every iteration: a separator, a "first" flag
			partial[mu] = mkIte(eqBDD(idx, mkInt(0)), in, v)
			final[mu] = mkIte(emptyBDD(dom), in, v)
			continue
		}
		s.acc = mk(Term{op: OAcc, str: mu.str, args: []*Term{dom, in}, n: depth, typ: mu.typ})
		ev.accs[s.acc] = accInfo{in, v}
		partial[mu] = s.acc
		sols = append(sols, s)
	}
	// structural values of loop-carried cells inside the iteration
	for i := range sols {
		s := &sols[i]
		step := s.step
		others := map[*Term]*Term{}
		for m, p := range partial {
			if m != s.mu {
				others[m] = p
			}
		}
		step = substTerm(step, others)
		switch s.kind {
		case "list", "str":
			build, parts := mkList, listParts
			if s.kind == "str" {
				build, parts = mkStr, strParts
			}
			ps := parts(step)
			if len(ps) > 0 && ps[0] == s.mu {
				rest := substTerm(build(ps[1:]...), map[*Term]*Term{s.mu: s.acc})
				final[s.mu] = build(s.init, mkRep(s.kind, dom, depth, rest))
				ev.accs[s.acc] = accInfo{s.init, rest}
				continue
			}
			if len(ps) > 0 && ps[len(ps)-1] == s.mu {
				rest := substTerm(build(ps[:len(ps)-1]...), map[*Term]*Term{s.mu: s.acc})
				final[s.mu] = build(mkRep("rev"+s.kind, dom, depth, rest), s.init)
				ev.accs[s.acc] = accInfo{s.init, rest}
				continue
			}
		case "bool":
			b := toBDD(step)
			mb := toBDD(s.mu)
			hi := bRestrict(b, s.mu, true)
			lo := bRestrict(b, s.mu, false)
			_ = mb
			if hi == True { // sticky true: found flag
				final[s.mu] = fromBDD(bOr(toBDD(s.init), mkExists(dom, depth, substBDD(lo, map[*Term]*Term{s.mu: tFalse}))))
				continue
			}
			if lo == False { // sticky false: all flag
				final[s.mu] = fromBDD(bAnd(toBDD(s.init), bNot(mkExists(dom, depth, bNot(hi)))))
				continue
			}
		case "other":
			if step.op == OIte && step.args[1] == s.mu && !mentions(step.args[0], s.mu) && !bddMentions(step.bdd, s.mu) {
				// last matching element wins
				l := mkFirst(OFirst, dom, depth, step.bdd, nil)
				l = mk(Term{op: OFirst, str: "last", args: l.args, n: l.n, bdd: l.bdd, typ: elemT.typ})
				li := mk(Term{op: OFirstIdx, str: "last", args: l.args, n: l.n, bdd: l.bdd, typ: types.Typ[types.Int]})
				v := substTerm(step.args[0], map[*Term]*Term{elemT: l, idx: li})
				final[s.mu] = mkIte(mkExists(dom, depth, step.bdd), v, s.init)
				continue
			}
		}
		if s.mu.typ != nil && !mentions(step, s.mu) && s.kind == "other" && hasDom {
			l := mk(Term{op: OFirst, str: "last", args: []*Term{dom}, n: 1, bdd: True, typ: elemT.typ})
			li := mk(Term{op: OFirstIdx, str: "last", args: []*Term{dom}, n: 1, bdd: True, typ: types.Typ[types.Int]})
			final[s.mu] = mkIte(bNot(emptyBDD(dom)), substTerm(step, map[*Term]*Term{elemT: l, idx: li}), s.init)
			continue
		}
		lo := mk(Term{op: OLoopOut, str: s.mu.str, args: []*Term{dom, s.init, s.acc}, n: 1, typ: s.mu.typ})
		final[s.mu] = lo
	}

	// apply partial substitution to everything that happened in the body
	pc := map[*Term]*Term{}
	for m, p := range partial {
		pc[m] = p
	}
	if hasDom {
		pc[inDom] = mkBool(condThen)
	}
	if ev.iterObj != nil && hasDom && len(back) > 0 {
		_, bst := ev.mergeEdges(back)
		ev.recordIter(bst, S, dom, depth, pc)
	}
	E = substBDD(E, pc)
	pcs := newSubst(pc)
	for _, c := range ev.calls[callStart:] {
		c.exits = append([]BDD{E}, c.exits...)
		c.g = pcs.bddS(c.g)
		c.res = pcs.term(c.res)
		for i := range c.args {
			c.args[i] = pcs.term(c.args[i])
		}
	}
	var out []edge
	keepEnv := func(dst *State, src *State, sub map[*Term]*Term) {
		ks := map[any]bool{}
		deltaKeys(src, S, ks)
		sc := newSubst(sub)
		for k := range ks {
			v, _ := src.get(k)
			if ct, ok := k.(*Term); ok {
				// element-wise writes into a list being built or rewritten
				nk := sc.term(ct)
				if nk != ct {
					dst.set(nk, sc.term(v))
					continue
				}
			}
			dst.set(k, sc.term(v))
		}
	}
	exists := mkExists(dom, depth, E)
	if !hasDom {
		exists = E
	}
	// early exits: first iteration for which E holds
	var sigma map[*Term]*Term
	single := len(early)+len(rets)+len(terms) == 1
	if hasDom {
		f := mkFirst(OFirst, dom, depth, E, elemT.typ)
		fi := mkFirst(OFirstIdx, dom, depth, E, types.Typ[types.Int])
		sigma = map[*Term]*Term{elemT: f, idx: fi}
		for m, p := range pc {
			sigma[m] = substTerm(p, map[*Term]*Term{elemT: f, idx: fi})
		}
	} else {
		sigma = map[*Term]*Term{}
		for m, p := range partial {
			if p.op == OAcc {
				p = mk(Term{op: OLoopOut, str: p.str, args: []*Term{dom, p.args[1], p}, n: 1, typ: p.typ})
			}
			sigma[m] = p
		}
	}
	exitGuard := func(i int, g BDD) BDD {
		if !hasDom {
			if single {
				return True
			}
			return atomBDD(mkApp(fmt.Sprintf("loopexit:%s:%d", uid, i), types.Typ[types.Bool]))
		}
		if single {
			return exists
		}
		return bAnd(exists, substBDD(substBDD(g, pc), sigma))
	}
	n := 0
	rest := True
	excl := func(g BDD) BDD {
		if hasDom {
			return g
		}
		// arbitrary but exclusive choice
		n++
		if n == len(early)+len(rets)+len(terms) {
			return rest
		}
		r := bAnd(rest, g)
		rest = bAnd(rest, bNot(g))
		return r
	}
	idxN := 0
	for _, e := range early {
		ng := excl(exitGuard(idxN, e.g))
		idxN++
		st := S.fork()
		keepEnv(st, e.st, sigma)
		out = append(out, edge{from: e.from, to: e.to, g: bAnd(G, ng), st: st})
	}
	for _, r := range rets {
		ng := excl(exitGuard(idxN, r.g))
		idxN++
		st := S.fork()
		keepEnv(st, r.st, sigma)
		a.rets = append(a.rets, retRec{g: bAnd(G, ng), v: substTerm(r.v, sigma), st: st})
	}
	for _, t := range terms {
		ng := excl(exitGuard(idxN, t.g))
		idxN++
		for i := range t.args {
			t.args[i] = substTerm(t.args[i], sigma)
		}
		t.trace = substTerm(t.trace, sigma)
		t.g = bAnd(G, ng)
		a.terms = append(a.terms, t)
	}
	if normal != nil {
		st := S.fork()
		sub := map[*Term]*Term{}
		for m, f := range final {
			sub[m] = f
		}
		keepEnv(st, normal.st, sub)
		// loop-carried cells
		preset(st, func(m *Term) *Term { return final[m] })
		// slices filled element by element
		for _, e := range back {
			ks := map[any]bool{}
			deltaKeys(e.st, S, ks)
			for k := range ks {
				ct, ok := k.(*Term)
				if !ok || ct.op != OElemAddr || !mentions(ct.args[1], idx) {
					continue
				}
				m := ct.args[0]
				v, _ := e.st.get(k)
				v = substTerm(simp(v), partial)
				if builtList(m) {
					n := mkApp("rewritten", m.typ, m, mkSym(uid, nil))
					if ct.args[1] == idx && m == dom {
						if n = mkRep("list", dom, depth, mkItem(v)); len(back) > 1 {
							bv, _ := mergedCell(ev, back, k)
							n = mkRep("list", dom, depth, mkItem(substTerm(simp(bv), partial)))
						}
					}
					a.rewrite(st, m, n)
					continue
				}
				if ct.args[1] != idx {
					continue
				}
				if m.op == OApp && m.str == "make" {
					n := mkRep("list", dom, depth, mkItem(v))
					st.set(contentKey{m}, n)
					a.rewrite(st, m, n)
				}
			}
		}
		out = append(out, edge{from: normal.from, to: normal.to, g: bAnd(G, bNot(exists)), st: st})
	}
	return out
}

// builtList: the value of a slice that the program under analysis built itself.
func builtList(m *Term) bool {
	switch m.op {
	case OList, ORep:
		return true
	case OIte:
		return builtList(m.args[0]) || builtList(m.args[1])
	}
	return false
}

// knownLen is the number of elements of a list whose elements are all known.
func knownLen(l *Term) int {
	if l == nil {
		return -1
	}
	if l == tNil {
		return 0
	}
	if l.op == OItem {
		return 1
	}
	if l.op != OList {
		return -1
	}
	for _, p := range l.args {
		if p.op != OItem {
			return -1
		}
	}
	return len(l.args)
}

// unrolled evaluates a loop over a list of known elements iteration by
// iteration.
func (a *act) unrolled(li *loopInfo, phis []*ssa.Phi, init map[*ssa.Phi]*Term, G BDD, S *State, n int) []edge {
	h := li.header
	var out []edge
	saved := a.unroll
	defer func() { a.unroll = saved }()
	vals := init
	g, st := G, S
	for it := 0; g != False; it++ {
		if it > n {
			panic(fmt.Sprintf("unrolled loop in %s does not end", a.fn))
		}
		a.unroll = fmt.Sprintf("%s~%d.%d", saved, h.Index, it)
		st = st.fork()
		for _, p := range phis {
			st.set(envKey{a.id, p}, vals[p])
		}
		var back []edge
		for _, e := range a.region(li.blocks, h, li, edge{to: h, g: g, st: st}) {
			if e.to == h {
				back = append(back, e)
			} else {
				out = append(out, e)
			}
		}
		if len(back) == 0 {
			break
		}
		bc := mergeConds(back)
		nv := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			vs := make([]*Term, len(back))
			for j, e := range back {
				for k, pr := range h.Preds {
					if pr == e.from {
						vs[j] = a.val(p.Edges[k], e.st)
					}
				}
			}
			nv[p] = foldVals(bc, vs)
		}
		vals = nv
		g, st = a.ev.mergeEdges(back)
	}
	return out
}

// mergedCell is the value of a cell after the iterations that continue.
func mergedCell(ev *Eval, back []edge, k any) (*Term, bool) {
	_, st := ev.mergeEdges(back)
	if v, ok := st.get(k); ok {
		return v, true
	}
	return ev.defaultCell(k), false
}

// rewrite replaces the contents of a slice in every value that holds it:
// a slice is shared by all its copies.
func (a *act) rewrite(st *State, m, n *Term) {
	seen := map[any]bool{}
	var ks []any
	for s := st; s != nil; s = s.parent {
		for k := range s.m {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool { return keyLess(ks[i], ks[j]) })
	sub := newSubst(map[*Term]*Term{m: n})
	for _, k := range ks {
		if ct, ok := k.(*Term); ok && ct.op == OElemAddr && ct.args[0] == m {
			continue
		}
		v, _ := st.get(k)
		if v == nil {
			continue
		}
		if w := sub.term(v); w != v {
			st.set(k, w)
		}
	}
}

// muKey is one field of a struct cell that changes from iteration to iteration.
type muKey struct {
	k any
	f string
}

// changedFields lists the fields in which a struct cell changed, when the rest
// is untouched.
func changedFields(old, v *Term) ([]string, bool) {
	if old == nil || v == nil || !isStructType(old.typ) {
		return nil, false
	}
	st, ok := old.typ.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if mkField(old, f.Name(), f.Type()) != mkField(v, f.Name(), f.Type()) {
			out = append(out, f.Name())
		}
	}
	str := types.Typ[types.String]
	if mkField(old, "$buf", str) != mkField(v, "$buf", str) {
		out = append(out, "$buf")
	}
	if len(out) == 0 {
		return nil, false
	}
	return out, true
}

func keyName(k any) string {
	switch x := k.(type) {
	case traceKeyT:
		return "trace"
	case deferKey:
		return fmt.Sprintf("defer%d", x.act)
	case *Term:
		return fmt.Sprintf("cell%d", x.id)
	}
	return fmt.Sprint(k)
}

func isListy(v, mu *Term) bool {
	ps := listParts(v)
	return v.op == OList && len(ps) > 0 && (ps[0] == mu || ps[len(ps)-1] == mu)
}
func isStry(v, mu *Term) bool {
	return v.op == OStr && (v.args[0] == mu || v.args[len(v.args)-1] == mu)
}

// condOverride makes the loop's domain condition evaluate to the inDom atom.
func (a *act) condOverride(v ssa.Value, t *Term, f func()) {
	if v == nil {
		f()
		return
	}
	old, had := a.args[v]
	a.args[v] = t
	f()
	if had {
		a.args[v] = old
	} else {
		delete(a.args, v)
	}
}

// loopDomain recognises the collection a loop runs over. It returns the
// collection, the SSA condition deciding whether another element exists, and
// the truth value of that condition inside the body.
func (a *act) loopDomain(li *loopInfo, st *State, induct map[*ssa.Phi]bool, init map[*ssa.Phi]*Term) (*Term, ssa.Value, bool) {
	h := li.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, false
	}
	then := true
	if !li.blocks[h.Succs[0]] {
		then = false
	}
	if li.blocks[h.Succs[0]] && li.blocks[h.Succs[1]] {
		return nil, nil, false
	}
	cond := iff.Cond
	if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
		cond = n.X
		then = !then
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && li.blocks[in.Block()]
	}
	switch c := cond.(type) {
	case *ssa.BinOp:
		x, y, op := c.X, c.Y, c.Op
		if op == token.GTR {
			x, y, op = y, x, token.LSS
		}
		if op == token.NEQ || op == token.LSS {
			// i < len(s)
			var p *ssa.Phi
			off := int64(0)
			switch xv := x.(type) {
			case *ssa.Phi:
				p = xv
			case *ssa.BinOp:
				if xv.Op == token.ADD {
					if pp, ok := xv.X.(*ssa.Phi); ok {
						if k, ok := xv.Y.(*ssa.Const); ok && k.Value != nil {
							p, off = pp, k.Int64()
						}
					}
				}
			}
			if p == nil || !induct[p] || !then {
				return nil, nil, false
			}
			start, _ := init[p].intConst()
			if start+off != 0 {
				return nil, nil, false
			}
			var lenOf ssa.Value
			if call, ok := y.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					lenOf = call.Call.Args[0]
				}
			}
			if lenOf != nil {
				s := a.invariant(lenOf, li, st)
				if s == nil {
					return nil, nil, false
				}
				return s, c, true
			}
			if !inLoop(y) {
				return mkApp("range", nil, a.val(y, st)), c, true
			}
		}
	case *ssa.Extract:
		if nx, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && !inLoopV(nx.Iter, li) {
			it := a.val(nx.Iter, st)
			return it, c, then
		}
	case *ssa.Call:
		if f := c.Call.StaticCallee(); f != nil && f.String() == "(*database/sql.Rows).Next" && !inLoop(c.Call.Args[0]) {
			return mkApp("rows", nil, a.val(c.Call.Args[0], st)), c, then
		}
	}
	return nil, nil, false
}

func inLoopV(v ssa.Value, li *loopInfo) bool {
	in, ok := v.(ssa.Instruction)
	return ok && li.blocks[in.Block()]
}

// invariant evaluates an operand of the loop condition before the loop when
// its computation does not depend on the iteration.
func (a *act) invariant(v ssa.Value, li *loopInfo, st *State) *Term {
	in, ok := v.(ssa.Instruction)
	if !ok || !li.blocks[in.Block()] {
		return a.val(v, st)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			ad := a.invariant(x.X, li, st)
			if ad == nil || a.storedIn(li, ad, x.Type()) {
				return nil
			}
			return a.load(ad, st, x.Type())
		}
	case *ssa.FieldAddr:
		b := a.invariant(x.X, li, st)
		if b == nil {
			return nil
		}
		return mkFieldAddr(b, fieldName(x.X.Type(), x.Field), x.Type())
	case *ssa.Field:
		b := a.invariant(x.X, li, st)
		if b == nil {
			return nil
		}
		return mkField(b, fieldName(x.X.Type(), x.Field), x.Type())
	}
	return nil
}

// storedIn reports whether the loop may store to a slice header of this type
// through the same field (a conservative syntactic test).
func (a *act) storedIn(li *loopInfo, addr *Term, typ types.Type) bool {
	for b := range li.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && types.Identical(s.Val.Type(), typ) {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && addr.op == OFieldAddr {
					if fieldName(fa.X.Type(), fa.Field) == addr.str {
						return true
					}
					continue
				}
				if _, ok := s.Addr.(*ssa.Alloc); ok && addr.op == OObj {
					return true
				}
			}
		}
	}
	return false
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := t.(*types.Named); !isNamed {
			t = p.Elem()
		}
	}
	return types.TypeString(t, nil)
}

func mkFieldAddr(p *Term, name string, typ types.Type) *Term {
	if p.op == OIte {
		if p.args[0] == tNil {
			return mkFieldAddr(p.args[1], name, typ)
		}
		if p.args[1] == tNil {
			return mkFieldAddr(p.args[0], name, typ)
		}
		return mkIteRaw(p.bdd, mkFieldAddr(p.args[0], name, typ), mkFieldAddr(p.args[1], name, typ))
	}
	if p.op == OUndef || p == tNil {
		return tUndef
	}
	return mk(Term{op: OFieldAddr, str: name, args: []*Term{p}, typ: typ})
}

// ---- memory

// root splits an address into its root cell and the access path.
func rootOf(addr *Term) (*Term, []string, []types.Type) {
	var path []string
	var typs []types.Type
	for {
		switch addr.op {
		case OFieldAddr:
			path = append([]string{addr.str}, path...)
			typs = append([]types.Type{derefType(addr.typ)}, typs...)
			addr = addr.args[0]
			continue
		case OElemAddr:
			if b := addr.args[0]; b.op == OObj || b.op == OFieldAddr {
				if k, ok := addr.args[1].intConst(); ok {
					path = append([]string{fmt.Sprintf("[%d]", k)}, path...)
				} else {
					path = append([]string{fmt.Sprintf("[t%d]", addr.args[1].id)}, path...)
				}
				typs = append([]types.Type{derefType(addr.typ)}, typs...)
				addr = b
				continue
			}
		}
		return addr, path, typs
	}
}

func (a *act) cell(root *Term, st *State, typ types.Type) *Term {
	if v, ok := st.get(root); ok {
		return v
	}
	if root.op == OElemAddr {
		return mkIndex(root.args[0], root.args[1], typ)
	}
	if root.op == OGlobal {
		return mkApp("global:"+root.str, typ)
	}
	return mkDeref(root, typ)
}

func (a *act) load(addr *Term, st *State, typ types.Type) *Term {
	switch addr.op {
	case OIte:
		if addr.args[0] == tNil {
			return a.load(addr.args[1], st, typ)
		}
		if addr.args[1] == tNil {
			return a.load(addr.args[0], st, typ)
		}
		return mkIte(addr.bdd, a.load(addr.args[0], st, typ), a.load(addr.args[1], st, typ))
	case OUndef, OConst:
		return tUndef
	}
	root, path, typs := rootOf(addr)
	if root.op == OIte {
		return mkDeref(addr, typ)
	}
	rt := typ
	if len(path) > 0 {
		rt = derefType(root.typ)
		if root.op == OElemAddr {
			rt = derefType(root.typ)
		}
	}
	v := a.cell(root, st, rt)
	for i, k := range path {
		v = mkField(v, k, typs[i])
	}
	if v.typ == nil && v.op != OConst && typ != nil && v.op != OList && v.op != OTuple {
		// keep
	}
	return a.redirect(v, st)
}

func (a *act) store(addr, v *Term, st *State, g BDD, pos token.Pos) {
	ev := a.ev
	switch addr.op {
	case OIte:
		for i, p := range addr.args {
			c := addr.bdd
			if i == 1 {
				c = bNot(c)
			}
			if p == tNil || p.op == OUndef {
				continue
			}
			old := a.load(p, st, nil)
			if bAnd(g, c) == False {
				continue
			}
			if bImplies(g, c) {
				a.store(p, v, st, g, pos)
			} else {
				a.store(p, mkIte(c, v, old), st, g, pos)
			}
		}
		return
	case OUndef, OConst:
		return
	}
	root, path, typs := rootOf(addr)
	if root.op == OIte {
		return
	}
	if addr.op == OFieldAddr {
		k := typeName(addr.args[0].typ) + "." + addr.str
		m := ev.fieldStores[k]
		if m == nil {
			m = map[*Term]bool{}
			ev.fieldStores[k] = m
		}
		m[v] = true
	}
	if root.op == OObj {
		ev.objInit[root] = append(ev.objInit[root], v)
	}
	if root.op == OElemAddr && builtList(root.args[0]) && !a.inLoopIndex(root.args[1]) {
		m := root.args[0]
		nv := v
		if len(path) > 0 {
			nv = a.update(a.cell(root, st, derefType(root.typ)), path, typs, derefType(root.typ), v)
		}
		a.rewrite(st, m, setIndex(m, root.args[1], nv))
		return
	}
	if len(path) == 0 {
		st.set(root, v)
		return
	}
	base := a.cell(root, st, derefType(root.typ))
	st.set(root, a.update(base, path, typs, derefType(root.typ), v))
}

// mapValue is the content of a map made here: the entries set so far.
func (a *act) mapValue(m *Term, st *State) *Term {
	if m.op == OApp && m.str == "mkmap" {
		if v, ok := st.get(mkApp("mapval", nil, m)); ok {
			return v
		}
	}
	return m
}

func (a *act) inLoopIndex(i *Term) bool {
	for _, l := range a.ev.loops {
		if mentions(i, mkIdx(l.dom, l.depth)) {
			return true
		}
	}
	return false
}

// setIndex is the list after one element was replaced.
func setIndex(m, i, v *Term) *Term {
	if m.op == OIte {
		return mkIte(m.bdd, setIndex(m.args[0], i, v), setIndex(m.args[1], i, v))
	}
	if k, ok := i.intConst(); ok && m.op == OList {
		if e := listSlots(m); e != nil && int(k) < len(e) {
			e[k] = v
			return items(e...)
		}
		known := int(k) < len(m.args)
		for j := 0; known && j <= int(k); j++ {
			known = m.args[j].op == OItem
		}
		if known {
			args := append([]*Term{}, m.args...)
			args[k] = mkItem(v)
			return mkList(args...)
		}
	}
	return mkApp("setidx", m.typ, m, i, v)
}

func (a *act) update(base *Term, path []string, typs []types.Type, typ types.Type, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	inner := mkField(base, path[0], typs[0])
	return mkUpdate(base, path[0], a.update(inner, path[1:], typs[1:], typs[0], v), typ)
}

// ---- instructions

func (a *act) instr(in ssa.Instruction, g BDD, st *State) (BDD, *State) {
	ev := a.ev
	set := func(v ssa.Value, t *Term) {
		if t.typ == nil && t.op != OConst && t.op != OUndef && t.op != OList && t.op != OItem && t.op != ORep && t.op != OTuple {
			t.typ = v.Type()
		}
		if o, ok := a.args[v]; ok { // overridden loop condition
			st.set(envKey{a.id, v}, o)
			return
		}
		st.set(envKey{a.id, v}, t)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := mk(Term{op: OObj, n: a.id, str: x.Name() + "@" + ev.prog.posStr(x.Pos()) + a.unroll, typ: x.Type(), args: ev.iteration()})
		st.set(o, zeroTerm(derefType(x.Type())))
		set(x, o)
	case *ssa.Store:
		a.store(a.val(x.Addr, st), a.val(x.Val, st), st, g, x.Pos())
	case *ssa.UnOp:
		v := a.val(x.X, st)
		switch x.Op {
		case token.MUL:
			set(x, a.load(v, st, x.Type()))
		case token.NOT:
			set(x, mkNot(v))
		case token.SUB:
			if i, ok := v.intConst(); ok {
				set(x, mkInt(-i))
			} else {
				set(x, mkApp("neg", x.Type(), v))
			}
		default:
			ev.opaque["unop "+x.Op.String()]++
			set(x, mkApp("unop"+x.Op.String(), x.Type(), v, a.site(x)))
		}
	case *ssa.BinOp:
		set(x, a.binop(x, a.val(x.X, st), a.val(x.Y, st)))
	case *ssa.FieldAddr:
		set(x, mkFieldAddr(a.val(x.X, st), fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.Field:
		set(x, mkField(a.val(x.X, st), fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.IndexAddr:
		b := a.val(x.X, st)
		i := a.val(x.Index, st)
		if b.op == OUndef {
			set(x, tUndef)
			break
		}
		if b.op == OIte && i.op == OConst && !builtList(b) {
			set(x, mkIteRaw(b.bdd, mk(Term{op: OElemAddr, args: []*Term{b.args[0], i}, typ: x.Type()}), mk(Term{op: OElemAddr, args: []*Term{b.args[1], i}, typ: x.Type()})))
			break
		}
		set(x, mk(Term{op: OElemAddr, args: []*Term{b, i}, typ: x.Type()}))
	case *ssa.Index:
		set(x, mkIndex(a.val(x.X, st), a.val(x.Index, st), x.Type()))
	case *ssa.Lookup:
		m, k := a.mapValue(a.val(x.X, st), st), a.val(x.Index, st)
		if x.CommaOk {
			v := rebuildApp(&Term{op: OApp, str: "lookup", typ: x.Type().(*types.Tuple).At(0).Type()}, []*Term{m, k})
			ok := rebuildApp(&Term{op: OApp, str: "haskey", typ: types.Typ[types.Bool]}, []*Term{m, k})
			set(x, mk(Term{op: OTuple, args: []*Term{v, ok}}))
		} else if isStringType(x.X.Type()) {
			set(x, mkApp("index", x.Type(), m, k))
		} else {
			set(x, rebuildApp(&Term{op: OApp, str: "lookup", typ: x.Type()}, []*Term{m, k}))
		}
	case *ssa.MapUpdate:
		m, k, v := a.val(x.Map, st), a.val(x.Key, st), a.val(x.Value, st)
		st.set(mkApp("mapcell", nil, m, k), v)
		if c := mkApp("mapval", nil, m); m.op == OApp && m.str == "mkmap" {
			if old, ok := st.get(c); ok && (ev.unroll || len(ev.loops) == 0) {
				st.set(c, mkApp("mapset", nil, old, k, v))
			} else {
				st.set(c, m)
			}
		}
		kk := "map:" + typeName(x.Map.Type())
		if ev.fieldStores[kk] == nil {
			ev.fieldStores[kk] = map[*Term]bool{}
		}
		ev.fieldStores[kk][v] = true
		if m.op == OObj || m.op == OApp && m.str == "mkmap" {
		}
	case *ssa.Slice:
		b := a.val(x.X, st)
		if b.op == OObj { // slice of array object
			c := a.cell(b, st, derefType(b.typ))
			at, _ := derefType(b.typ).Underlying().(*types.Array)
			if at != nil && x.Low == nil && x.High == nil && at.Len() <= 64 {
				var items []*Term
				for i := int64(0); i < at.Len(); i++ {
					items = append(items, mkItem(mkField(c, fmt.Sprintf("[%d]", i), at.Elem())))
				}
				if isBytes(x.Type()) {
					set(x, mkApp("bytes", x.Type(), items...))
				} else {
					set(x, mkList(items...))
				}
				break
			}
		}
		lo, hi := mkInt(0), mkSym("end", nil)
		if x.Low != nil {
			lo = a.val(x.Low, st)
		}
		if x.High != nil {
			hi = a.val(x.High, st)
		}
		if z, ok := lo.intConst(); ok && z == 0 && hi.op == OSym {
			set(x, b)
			break
		}
		if z, ok := hi.intConst(); ok && z == 0 && isSliceType(x.Type()) && !isBytes(x.Type()) {
			set(x, tEmptyList)
			break
		}
		set(x, rebuildApp(&Term{op: OApp, str: "slice", typ: x.Type()}, []*Term{b, lo, hi}))
	case *ssa.MakeSlice:
		n := a.val(x.Len, st)
		if z, ok := n.intConst(); ok && z == 0 {
			set(x, tEmptyList)
		} else if et := x.Type().Underlying().(*types.Slice).Elem(); ok && ev.unroll && z > 0 && z <= 6 && !isBytes(x.Type()) {
			var zs []*Term
			for i := int64(0); i < z; i++ {
				zs = append(zs, zeroTerm(et))
			}
			set(x, items(zs...))
		} else {
			set(x, mkApp("make", x.Type(), n, mkSym(fmt.Sprintf("@%d:%s", a.id, x.Name()), nil)))
		}
	case *ssa.MakeMap:
		m := mkApp("mkmap", x.Type(), mkSym(fmt.Sprintf("@%d:%s%s", a.id, x.Name(), a.unroll), nil))
		st.set(mkApp("mapval", nil, m), mkApp("emptymap", nil))
		set(x, m)
	case *ssa.MakeInterface:
		set(x, mkIface(a.val(x.X, st), x.X.Type()))
	case *ssa.ChangeInterface:
		set(x, a.val(x.X, st))
	case *ssa.ChangeType:
		set(x, a.val(x.X, st))
	case *ssa.Convert:
		v := a.val(x.X, st)
		from, to := x.X.Type(), x.Type()
		switch {
		case isStringType(to) && (isStringType(from) || isBytes(from)), isBytes(to) && (isStringType(from) || isBytes(from)):
			set(x, v)
		case v.op == OConst && v.val != nil:
			set(x, v)
		default:
			set(x, mkApp("conv:"+types.TypeString(to.Underlying(), nil), to, v))
		}
	case *ssa.TypeAssert:
		v := a.val(x.X, st)
		as := mkAssert(v, x.AssertedType)
		if x.CommaOk {
			ok := isTypeBDD(v, x.AssertedType, types.TypeString(x.AssertedType, nil))
			set(x, mk(Term{op: OTuple, args: []*Term{as, fromBDD(ok)}}))
		} else {
			set(x, as)
		}
	case *ssa.Extract:
		t := a.val(x.Tuple, st)
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			_ = nx
			set(x, mkField(t, fmt.Sprint(x.Index), x.Type()))
			break
		}
		set(x, mkField(t, fmt.Sprint(x.Index), x.Type()))
	case *ssa.Range:
		set(x, mkApp("maprange", x.Type(), a.val(x.X, st)))
	case *ssa.Next:
		it := a.val(x.Iter, st)
		var e *Term
		for i := len(ev.loops) - 1; i >= 0; i-- {
			if ev.loops[i].dom == it {
				e = mkElem(it, ev.loops[i].depth, nil)
				break
			}
		}
		if e == nil {
			e = mkApp("next", nil, it, a.site(x))
		}
		tt := x.Type().(*types.Tuple)
		set(x, mk(Term{op: OTuple, args: []*Term{mkApp("mapok", types.Typ[types.Bool], e), mkApp("mapkey", tt.At(1).Type(), e), mkApp("mapval", tt.At(2).Type(), e)}}))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, a.val(b, st))
		}
		set(x, mk(Term{op: OClosure, fn: x.Fn.(*ssa.Function), args: bs, typ: x.Type()}))
	case *ssa.Call:
		t, alive, nst := a.call(x, x.Common(), g, st)
		st = nst
		if _, ok := a.args[x]; !ok {
			st.set(envKey{a.id, x}, t)
		} else {
			st.set(envKey{a.id, x}, a.args[x])
		}
		return alive, st
	case *ssa.Go:
		ev.opaque["go statement"]++
		a.event(st, "go", a.callArgs(x.Common(), st), x.Pos())
	case *ssa.Defer:
		c := x.Common()
		d := mkApp("defer", nil, append([]*Term{mk(Term{op: OSym, str: fmt.Sprintf("deferinstr:%d:%s", a.id, ev.prog.posStr(x.Pos()))})}, a.callArgs(c, st)...)...)
		ev.prog.deferInstr[d] = x
		k := deferKey{a.id}
		old, ok := st.get(k)
		if !ok {
			old = tEmptyList
		}
		st.set(k, mkList(old, mkItem(d)))
	case *ssa.RunDefers:
		k := deferKey{a.id}
		if l, ok := st.get(k); ok {
			var alive BDD
			alive, st = a.runDefers(l, g, st)
			return alive, st
		}
	case *ssa.Send, *ssa.Select:
		ev.opaque["channel operation"]++
	case *ssa.MakeChan:
		set(x, mkApp("chan", x.Type(), a.site(x)))
	default:
		if v, ok := in.(ssa.Value); ok {
			ev.opaque[fmt.Sprintf("%T", in)]++
			set(v, mkApp(fmt.Sprintf("%T", in), v.Type(), a.site(v)))
		}
	}
	return True, st
}

func (a *act) runDefers(l *Term, g BDD, st *State) (BDD, *State) {
	parts := listParts(l)
	alive := True
	for i := len(parts) - 1; i >= 0; i-- {
		p := parts[i]
		var al BDD = True
		switch p.op {
		case OItem:
			d := p.args[0]
			x := a.ev.prog.deferInstr[d]
			if x == nil {
				a.event(st, "defer?", []*Term{d}, token.NoPos)
				continue
			}
			_, al, st = a.callWith(x, x.Common(), d.args[1:], g, st)
		case OList:
			al, st = a.runDefers(p, g, st)
		case OIte:
			s1 := st.fork()
			s2 := st.fork()
			al1, s1 := a.runDefers(p.args[0], bAnd(g, p.bdd), s1)
			al2, s2 := a.runDefers(p.args[1], bAnd(g, bNot(p.bdd)), s2)
			var m *State
			_, m = a.ev.mergeEdges([]edge{{g: p.bdd, st: s1}, {g: bNot(p.bdd), st: s2}})
			st = m.fork()
			al = bddIte(p.bdd, al1, al2)
		case ORep:
			a.event(st, "deferloop", []*Term{p}, token.NoPos)
		}
		alive = bAnd(alive, al)
	}
	return alive, st
}

func (a *act) site(v ssa.Value) *Term {
	args := []*Term{}
	if n := len(a.ev.loops); n > 0 {
		l := a.ev.loops[n-1]
		args = append(args, mkIdx(l.dom, l.depth))
	}
	return mk(Term{op: OSym, str: fmt.Sprintf("@%d%s:%s", a.id, a.unroll, v.Name()), args: args})
}

func (a *act) event(st *State, name string, args []*Term, pos token.Pos) {
	old, ok := st.get(traceKey)
	if !ok {
		old = tEmptyList
	}
	e := mkApp("ev:"+name, nil, args...)
	a.ev.prog.eventPos[e] = pos
	st.set(traceKey, mkList(old, mkItem(e)))
}

func (a *act) binop(x *ssa.BinOp, l, r *Term) *Term {
	if l.op == OUndef || r.op == OUndef {
		if isBoolType(x.Type()) {
			return tFalse
		}
		return tUndef
	}
	switch x.Op {
	case token.ADD:
		if isStringType(x.Type()) {
			return mkStr(l, r)
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return mkAdd(l, r)
		}
	case token.SUB:
		if i, ok := r.intConst(); ok {
			return mkAdd(l, mkInt(-i))
		}
	case token.EQL:
		return fromBDD(eqBDD(l, r))
	case token.NEQ:
		return fromBDD(bNot(eqBDD(l, r)))
	case token.LSS:
		return fromBDD(mkCmpBDD("lt", l, r))
	case token.GTR:
		return fromBDD(mkCmpBDD("lt", r, l))
	case token.LEQ:
		return fromBDD(bNot(mkCmpBDD("lt", r, l)))
	case token.GEQ:
		return fromBDD(bNot(mkCmpBDD("lt", l, r)))
	}
	return mkApp(x.Op.String(), x.Type(), l, r)
}

func (a *act) callArgs(c *ssa.CallCommon, st *State) []*Term {
	var out []*Term
	if c.IsInvoke() {
		out = append(out, a.val(c.Value, st))
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		if c.StaticCallee() == nil {
			out = append(out, a.val(c.Value, st))
		} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			out = append(out, a.val(mc, st))
		}
	}
	for _, x := range c.Args {
		out = append(out, a.val(x, st))
	}
	return out
}

func (a *act) call(in ssa.Value, c *ssa.CallCommon, g BDD, st *State) (*Term, BDD, *State) {
	return a.callWith(in.(ssa.Instruction), c, a.callArgs(c, st), g, st)
}

func (a *act) callWith(in ssa.Instruction, c *ssa.CallCommon, args []*Term, g BDD, st *State) (*Term, BDD, *State) {
	ev := a.ev
	var rtyp types.Type
	if v, ok := in.(ssa.Value); ok {
		rtyp = v.Type()
	} else {
		rtyp = c.Signature().Results()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return a.builtin(in, b.Name(), c, args, rtyp, st), True, st
	}
	var fn *ssa.Function
	var free []*Term
	if c.IsInvoke() {
		recv := args[0]
		for recv.op == OIte { // a nil receiver panics: only the other branch goes on
			if recv.args[0] == tNil || bAnd(g, recv.bdd) == False {
				recv = recv.args[1]
			} else if recv.args[1] == tNil || bImplies(g, recv.bdd) {
				recv = recv.args[0]
			} else {
				break
			}
		}
		args[0] = recv
		if recv.op == OIface {
			if m := ev.prog.method(recv.typ, c.Method); m != nil {
				fn = m
				args = append([]*Term{recv.args[0]}, args[1:]...)
			}
		}
		if fn == nil {
			name := "invoke " + c.Method.FullName()
			if f := ev.special[name]; f != nil {
				return f(a, in, args, rtyp, g, st)
			}
			return a.opaqueCall(in, name, args, rtyp, g, st)
		}
	} else if f := c.StaticCallee(); f != nil {
		fn = f
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			free = args[0].args
			args = args[1:]
		}
	} else {
		f := args[0]
		args = args[1:]
		if f.op == OClosure {
			fn = f.fn
			free = f.args
		} else {
			return a.opaqueCall(in, "dyncall "+types.TypeString(c.Value.Type(), nil), append([]*Term{f}, args...), rtyp, g, st)
		}
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	ev.callSites[name] = append(ev.callSites[name], callRec{in.Pos(), a.fn.String()})
	if f := ev.special[name]; f != nil {
		return f(a, in, args, rtyp, g, st)
	}
	if len(fn.Blocks) > 0 && ev.inline != nil && ev.inline(fn) {
		for _, s := range ev.stack {
			if s == fn {
				ev.opaque["recursion "+name]++
				return mkApp("rec:"+name, rtyp, args...), True, st
			}
		}
		if len(ev.stack) < 60 {
			return a.inlined(fn, args, free, instrName(in)+a.unroll, g, st)
		}
	}
	return a.opaqueCall(in, name, args, rtyp, g, st)
}

// inlined evaluates a call of a known function.
func (a *act) inlined(fn *ssa.Function, args, free []*Term, label string, g BDD, st *State) (*Term, BDD, *State) {
	ev := a.ev
	ev.gstack = append(ev.gstack, g)
	res := ev.Call(fn, args, free, st, a.id, label)
	ev.gstack = ev.gstack[:len(ev.gstack)-1]
	for _, t := range res.terms {
		t.g = bAnd(g, t.g)
		if t.g != False {
			a.terms = append(a.terms, t)
		}
	}
	al := res.alive
	if ev.noErr && al != False {
		al = True
	}
	return res.ret, al, res.st.fork()
}

func instrName(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name()
	}
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("b%d.%d", b.Index, i)
		}
	}
	return "?"
}

func (a *act) builtin(in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term, rtyp types.Type, st *State) *Term {
	switch name {
	case "len":
		return mkLen(a.mapValue(args[0], st))
	case "cap":
		return mkApp("cap", rtyp, args[0])
	case "append":
		if isBytes(rtyp) {
			return mkApp("appendbytes", rtyp, args...)
		}
		if a.ev.snapAppend && len(args) == 2 {
			return mkList(args[0], a.snapshot(args[1], st, 8))
		}
		return mkList(args...)
	case "copy":
		a.ev.opaque["copy"]++
		return mkApp("copy", rtyp, args...)
	case "ssa:wrapnilchk":
		return args[0]
	case "delete":
		if m := args[0]; m.op == OApp && m.str == "mkmap" {
			c := mkApp("mapval", nil, m)
			if old, ok := st.get(c); ok && (a.ev.unroll || len(a.ev.loops) == 0) {
				st.set(c, mkApp("mapdel", nil, old, args[1]))
			} else {
				st.set(c, m)
			}
			return tuple()
		}
		fallthrough
	case "print", "println", "close", "recover":
		a.ev.opaque["builtin "+name]++
		return mkApp(name, rtyp, a.site2(in))
	case "min", "max":
		return mkApp(name, rtyp, args...)
	}
	return mkApp("builtin:"+name, rtyp, args...)
}

func (a *act) site2(in ssa.Instruction) *Term {
	args := []*Term{}
	if n := len(a.ev.loops); n > 0 {
		l := a.ev.loops[n-1]
		args = append(args, mkIdx(l.dom, l.depth))
	}
	return mk(Term{op: OSym, str: fmt.Sprintf("@%d%s:%s", a.id, a.unroll, instrName(in)), args: args})
}

// snapshot replaces pointers to known cells by their current contents.
func (a *act) snapshot(t *Term, st *State, depth int) *Term {
	if depth == 0 {
		return t
	}
	switch t.op {
	case OObj, OApp, OFieldAddr, OFirst, OElem:
		if t.op == OFieldAddr {
			r, _, _ := rootOf(t)
			if r.op == OObj {
				return mkApp("&", t.typ, a.snapshot(a.load(t, st, derefType(t.typ)), st, depth-1))
			}
			return t
		}
		if v, ok := st.get(t); ok {
			return mkApp("&", t.typ, a.snapshot(v, st, depth-1))
		}
		return t
	case OIface:
		return mkIface(a.snapshot(t.args[0], st, depth), t.typ)
	case OStruct:
		r := t.args[0]
		for i, k := range t.keys {
			r = mkUpdate(r, k, a.snapshot(t.args[i+1], st, depth-1), t.typ)
		}
		return r
	case OList, OItem:
		args := make([]*Term, len(t.args))
		ch := false
		for i, x := range t.args {
			args[i] = a.snapshot(x, st, depth)
			ch = ch || args[i] != x
		}
		if ch {
			return rebuild(t, args, t.bdd)
		}
	case OIte:
		x, y := a.snapshot(t.args[0], st, depth), a.snapshot(t.args[1], st, depth)
		if x != t.args[0] || y != t.args[1] {
			return mkIte(t.bdd, x, y)
		}
	}
	return t
}

func collectObjs(t *Term, out map[*Term]bool) {
	switch t.op {
	case OObj:
		out[t] = true
	case OIface, OList, OItem, OIte, OTuple:
		for _, x := range t.args {
			collectObjs(x, out)
		}
	case OFieldAddr, OElemAddr:
		collectObjs(t.args[0], out)
	}
}

func (a *act) opaqueCall(in ssa.Instruction, name string, args []*Term, rtyp types.Type, g BDD, st *State) (*Term, BDD, *State) {
	r, al, nst := a.opaqueCall1(in, name, args, rtyp, g, st)
	ci := &CallInst{name: name, args: append([]*Term{}, args...), res: r, g: a.ev.pathGuard(g), loops: append([]loopCtx{}, a.ev.loops...), fn: a.fn, pos: in.Pos()}
	if c, ok := in.(ssa.CallInstruction); ok {
		ci.sig = c.Common().Signature().Results()
	}
	a.ev.calls = append(a.ev.calls, ci)
	return r, al, nst
}

func (a *act) opaqueCall1(in ssa.Instruction, name string, args []*Term, rtyp types.Type, g BDD, st *State) (*Term, BDD, *State) {
	if a.ev.hook != nil {
		if t, ok := a.ev.hook(name, args, rtyp, st); ok {
			return t, True, st
		}
	}
	if t, ok := a.model(in, name, args, rtyp, g, st); ok {
		return t, True, st
	}
	if terminating[name] {
		tr, ok := st.get(traceKey)
		if !ok {
			tr = tEmptyList
		}
		var sn []*Term
		for _, x := range args {
			sn = append(sn, a.snapshot(x, st, 3))
		}
		a.terms = append(a.terms, Termination{g: g, kind: name, args: sn, trace: tr, pos: in.Pos()})
		return tUndef, False, st
	}
	sn := make([]*Term, len(args))
	for i, x := range args {
		sn[i] = a.snapshot(x, st, 3)
	}
	if isPure(name) || a.ev.pureFns[name] {
		if f, ok := pureFold[name]; ok {
			if r := f(sn); r != nil {
				return r, True, st
			}
		}
		return mkApp(name, rtyp, sn...), True, st
	}
	a.event(st, name, append(append([]*Term{}, sn...), a.site2(in)), in.Pos())
	objs := map[*Term]bool{}
	for _, x := range args {
		collectObjs(x, objs)
		for _, o := range a.ev.escVia[x] {
			objs[o] = true
		}
	}
	res := mkApp(name, rtyp, append(sn, a.site2(in))...)
	for o := range objs {
		t := derefType(o.typ)
		st.set(o, mk(Term{op: OSym, str: fmt.Sprintf("havoc:%s:%s", o.str, a.site2(in).str), typ: t}))
		a.ev.escVia[res] = append(a.ev.escVia[res], o)
	}
	return res, True, st
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d:%d", strings.TrimPrefix(ps.Filename, p.dir+"/"), ps.Line, ps.Column)
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// firstFacts: what is known of the elements "the first for which …" in t.
func firstFacts(t *Term) BDD {
	r := True
	walkTerm(t, func(x *Term) bool {
		if x.op == OFirst && x.str == "" && x.bdd != True {
			r = bAnd(r, substBDD(x.bdd, map[*Term]*Term{mk(Term{op: OBElem, args: []*Term{x.args[0]}, n: x.n}): x}))
		}
		return true
	})
	return r
}
