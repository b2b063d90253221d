package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C19: which characters the tokenizer can be at, at each point of its code
//
// The state at a point is a pair: what holds on the ways to it on which the
// tokenizer has not moved on since the start of the region looked at, and on
// those on which it has. Each half has the characters the current one can be,
// and what is known of the values read so far.

type cset [5]uint64

var allChars = func() cset {
	var s cset
	for i := 0; i <= eofCh; i++ {
		s.add(i)
	}
	return s
}()

func one(i int) cset { var s cset; s.add(i); return s }

func (s *cset) add(i int)     { s[i>>6] |= 1 << (i & 63) }
func (s cset) has(i int) bool { return s[i>>6]>>(i&63)&1 == 1 }
func (s cset) minus(t cset) cset {
	for i := range s {
		s[i] &^= t[i]
	}
	return s
}
func (s cset) empty() bool { return s == cset{} }
func (s cset) and(t cset) cset {
	for i := range s {
		s[i] &= t[i]
	}
	return s
}
func (s cset) or(t cset) cset {
	for i := range s {
		s[i] |= t[i]
	}
	return s
}

type vset map[int64]bool

func (v vset) set() vset {
	out := vset{}
	for k := range v {
		out[k] = true
	}
	return out
}

func charVals(c cset) vset {
	out := vset{}
	for i := 0; i <= eofCh; i++ {
		if c.has(i) {
			out[int64(i)] = true
		}
	}
	return out
}

func valChars(v vset) cset {
	var s cset
	for k := range v {
		if k >= 0 && k <= eofCh {
			s.add(int(k))
		}
	}
	return s
}

// half is one half of a state; nil is unreachable.
type half struct {
	c    cset
	vals map[ssa.Value]vset // what a value can be
	cur  map[ssa.Value]bool // the values that are the current character
	noSp bool               // there is no special comment
}

func newHalf(c cset) *half {
	if c.empty() {
		return nil
	}
	return &half{c: c, vals: map[ssa.Value]vset{}, cur: map[ssa.Value]bool{}}
}

func (h *half) clone() *half {
	if h == nil {
		return nil
	}
	n := &half{c: h.c, vals: map[ssa.Value]vset{}, cur: map[ssa.Value]bool{}, noSp: h.noSp}
	for k, v := range h.vals {
		n.vals[k] = v
	}
	for k := range h.cur {
		n.cur[k] = true
	}
	return n
}

func joinHalf(a, b *half) *half {
	if a == nil {
		return b.clone()
	}
	if b == nil {
		return a.clone()
	}
	n := &half{c: a.c.or(b.c), vals: map[ssa.Value]vset{}, cur: map[ssa.Value]bool{}, noSp: a.noSp && b.noSp}
	for k, v := range a.vals {
		w, ok := b.vals[k]
		if !ok {
			continue
		}
		u := v.set()
		for x := range w {
			u[x] = true
		}
		n.vals[k] = u
	}
	for k := range a.cur {
		if b.cur[k] {
			n.cur[k] = true
		}
	}
	return n
}

func sameHalf(a, b *half) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.c != b.c || a.noSp != b.noSp || len(a.vals) != len(b.vals) || len(a.cur) != len(b.cur) {
		return false
	}
	for k, v := range a.vals {
		w, ok := b.vals[k]
		if !ok || len(v) != len(w) {
			return false
		}
		for x := range v {
			if !w[x] {
				return false
			}
		}
	}
	for k := range a.cur {
		if !b.cur[k] {
			return false
		}
	}
	return true
}

type halves [2]*half

func joinHalves(a, b halves) halves { return halves{joinHalf(a[0], b[0]), joinHalf(a[1], b[1])} }
func (h halves) dead() bool         { return h[0] == nil && h[1] == nil }

// exitHalf is how a function ends in one half: the character, and the first
// result's values (nil when they are not known).
type exitHalf struct {
	c    cset
	rets vset
	top  bool
	any  bool
	noSp bool
}

type flowFrame struct {
	f     *ssa.Function
	moved bool // it had moved on when it made the call it is in
}

type charflow struct {
	p          *Program
	l          *lexer
	c          *Check
	memo       map[string][2]exitHalf
	stack      []flowFrame
	loops      map[string]bool // loops shown to end, by place
	panics     map[string]bool
	recursions map[string]bool
	nctx       int
	mode       *int64                   // the dialect, if it is a given one
	opaque     map[*ssa.Function]string // scanners left out, by what they give
	marks      map[int64]string         // the calls of these, as values returned
	bad        map[string]bool
	quietly    bool
	only       *cset // the characters of the text, if they are given ones
	watch      func(state int, at cset) []watched
}

// watched: instead of whether the tokenizer has moved on, the halves of a state
// are the states of an automaton over the characters it moves past: what
// follows the characters of a set, and the state then.
type watched struct {
	past  cset
	state int
	next  cset
}

type hpart struct {
	state int
	half  *half
}

// parts are the halves of a state; if an automaton is watched, each of them for
// each of the sets of characters that it tells apart.
func (cf *charflow) parts(s halves) []hpart {
	var out []hpart
	for i, h := range s {
		switch {
		case h == nil:
		case cf.watch == nil:
			out = append(out, hpart{i, h})
		default:
			for _, w := range cf.watch(i, h.c) {
				if c := w.past.and(h.c); !c.empty() {
					n := h.clone()
					n.c = c
					for v := range n.cur {
						n.vals[v] = charVals(c)
					}
					out = append(out, hpart{i, n})
				}
			}
		}
	}
	return out
}

func (cf *charflow) advanceWatched(s halves) halves {
	var out halves
	for i, h := range s {
		if h == nil {
			continue
		}
		for _, w := range cf.watch(i, h.c) {
			past := w.past.and(h.c)
			if past.empty() || w.next.empty() {
				continue
			}
			n := h.clone()
			for v := range n.cur {
				n.vals[v] = charVals(past)
			}
			n.cur = map[ssa.Value]bool{}
			n.c = w.next
			out[w.state] = joinHalf(out[w.state], n)
		}
	}
	return out
}

func (cf *charflow) alphabet() cset {
	if cf.only != nil {
		return *cf.only
	}
	return allChars
}

func (cf *charflow) fail(rule, construct, where, detail string) {
	if cf.quietly || cf.bad[rule+"/"+construct] {
		return
	}
	cf.bad[rule+"/"+construct] = true
	cf.c.require(false, rule, construct, where, detail)
}

// recv tells whether a value is the tokenizer the method is called on.
func (cf *charflow) recv(f *ssa.Function, v ssa.Value) bool {
	return len(f.Params) > 0 && v == ssa.Value(f.Params[0]) && cf.l.isTk(v.Type())
}

func (cf *charflow) fieldLoad(f *ssa.Function, v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !cf.recv(f, fa.X) {
		return ""
	}
	return fieldName(fa.X.Type(), fa.Field)
}

// valueSet gives what a value can be in a half.
func (cf *charflow) valueSet(h *half, v ssa.Value) vset {
	if s, ok := h.vals[v]; ok {
		return s
	}
	if k, ok := smallConst(v); ok {
		return vset{k: true}
	}
	rs := cf.roots(h, v, nil, 0)
	if len(rs) != 1 {
		return nil
	}
	out := vset{}
	for x := range h.vals[rs[0]] {
		r, ok := cf.evalAt(v, map[ssa.Value]int64{rs[0]: x}, 0)
		if !ok {
			return nil
		}
		out[r] = true
	}
	return out
}

func smallConst(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0, false
	}
	switch k.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(k.Value) {
			return 1, true
		}
		return 0, true
	case constant.Int:
		return constOf(k)
	}
	return 0, false
}

// roots are the values of known sets an expression is made of.
func (cf *charflow) roots(h *half, v ssa.Value, out []ssa.Value, d int) []ssa.Value {
	if d > 12 {
		return out
	}
	if _, ok := h.vals[v]; ok {
		for _, o := range out {
			if o == v || h.cur[o] && h.cur[v] {
				return out
			}
		}
		return append(out, v)
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return cf.roots(h, x.Y, cf.roots(h, x.X, out, d+1), d+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return cf.roots(h, x.X, out, d+1)
		}
	case *ssa.Convert:
		return cf.roots(h, x.X, out, d+1)
	case *ssa.ChangeType:
		return cf.roots(h, x.X, out, d+1)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && pureInt(g) {
			for _, a := range x.Call.Args {
				out = cf.roots(h, a, out, d+1)
			}
		}
	}
	return out
}

// pureInt: a function of numbers only.
func pureInt(g *ssa.Function) bool {
	if len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 || g.Signature.Recv() != nil {
		return false
	}
	for _, p := range g.Params {
		if _, ok := p.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

func wrapInt(v int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Uint8:
		return v & 0xff
	case types.Uint16:
		return v & 0xffff
	case types.Uint32:
		return v & 0xffffffff
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	}
	return v
}

// evalAt computes an expression of numbers.
func (cf *charflow) evalAt(v ssa.Value, env map[ssa.Value]int64, d int) (int64, bool) {
	if x, ok := env[v]; ok {
		return x, true
	}
	if k, ok := smallConst(v); ok {
		return k, true
	}
	if d > 30 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, ok1 := cf.evalAt(x.X, env, d+1)
		b, ok2 := cf.evalAt(x.Y, env, d+1)
		if !ok1 || !ok2 {
			return 0, false
		}
		return binInt(x.Op, a, b, x.Type())
	case *ssa.UnOp:
		a, ok := cf.evalAt(x.X, env, d+1)
		if !ok {
			return 0, false
		}
		switch x.Op {
		case token.NOT:
			return 1 - a, true
		case token.SUB:
			return wrapInt(-a, x.Type()), true
		}
	case *ssa.Convert:
		a, ok := cf.evalAt(x.X, env, d+1)
		if b, isB := x.Type().Underlying().(*types.Basic); ok && isB && b.Info()&types.IsInteger != 0 {
			return wrapInt(a, x.Type()), true
		}
	case *ssa.ChangeType:
		return cf.evalAt(x.X, env, d+1)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !pureInt(g) {
			return 0, false
		}
		var args []int64
		for _, a := range x.Call.Args {
			k, ok := cf.evalAt(a, env, d+1)
			if !ok {
				return 0, false
			}
			args = append(args, k)
		}
		return cf.runInt(g, args, d+1)
	}
	return 0, false
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func binInt(op token.Token, a, b int64, t types.Type) (int64, bool) {
	switch op {
	case token.ADD:
		return wrapInt(a+b, t), true
	case token.SUB:
		return wrapInt(a-b, t), true
	case token.MUL:
		return wrapInt(a*b, t), true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return a ^ b, true
	case token.EQL:
		return b2i(a == b), true
	case token.NEQ:
		return b2i(a != b), true
	case token.LSS:
		return b2i(a < b), true
	case token.LEQ:
		return b2i(a <= b), true
	case token.GTR:
		return b2i(a > b), true
	case token.GEQ:
		return b2i(a >= b), true
	}
	return 0, false
}

// runInt computes a function of numbers at given arguments.
func (cf *charflow) runInt(g *ssa.Function, args []int64, d int) (int64, bool) {
	if d > 30 || len(args) != len(g.Params) {
		return 0, false
	}
	env := map[ssa.Value]int64{}
	for i, p := range g.Params {
		env[p] = args[i]
	}
	b := g.Blocks[0]
	var prev *ssa.BasicBlock
	for steps := 0; steps < 400; steps++ {
		set := map[ssa.Value]int64{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					if x, ok := cf.evalAt(ph.Edges[i], env, d+1); ok {
						set[ph] = x
					}
				}
			}
		}
		for k, v := range set {
			env[k] = v
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				return cf.evalAt(x.Results[0], env, d+1)
			case *ssa.If:
				k, ok := cf.evalAt(x.Cond, env, d+1)
				if !ok {
					return 0, false
				}
				prev = b
				if k != 0 {
					b = b.Succs[0]
				} else {
					b = b.Succs[1]
				}
			case *ssa.Jump:
				prev, b = b, b.Succs[0]
			case ssa.Value:
				if _, isPhi := x.(*ssa.Phi); isPhi {
					continue
				}
				if k, ok := cf.evalAt(x, env, d+1); ok {
					env[x] = k
				}
			default:
				return 0, false
			}
			if in == b.Instrs[len(b.Instrs)-1] {
				break
			}
		}
	}
	return 0, false
}

// refine gives the half in which a condition is as said.
func (cf *charflow) refine(f *ssa.Function, h *half, cond ssa.Value, want bool) *half {
	if h == nil {
		return nil
	}
	// whether there is a special comment
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
		for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if cf.isSpecial(f, xy[0]) && isNil(xy[1]) {
				absent := (b.Op == token.EQL) == want
				if h.noSp && !absent {
					return nil
				}
				n := h.clone()
				if absent {
					n.noSp = true
				}
				return n
			}
		}
	}
	rs := cf.roots(h, cond, nil, 0)
	if len(rs) == 0 || len(rs) > 2 {
		if k, ok := cf.evalAt(cond, nil, 0); ok && (k != 0) != want {
			return nil
		}
		return h.clone()
	}
	keep := make([]vset, len(rs))
	for i := range keep {
		keep[i] = vset{}
	}
	curRoot := -1
	env := map[ssa.Value]int64{}
	bind := func(i int, x int64) {
		env[rs[i]] = x
		if h.cur[rs[i]] {
			for o := range h.cur {
				env[o] = x
			}
		}
	}
	for i, r := range rs {
		if h.cur[r] {
			curRoot = i
		}
	}
	ok := true
	if len(rs) == 1 {
		for x := range h.vals[rs[0]] {
			bind(0, x)
			k, o := cf.evalAt(cond, env, 0)
			ok = ok && o
			if o && (k != 0) == want {
				keep[0][x] = true
			}
		}
	} else {
		for x := range h.vals[rs[0]] {
			for y := range h.vals[rs[1]] {
				bind(0, x)
				bind(1, y)
				k, o := cf.evalAt(cond, env, 0)
				ok = ok && o
				if o && (k != 0) == want {
					keep[0][x], keep[1][y] = true, true
				}
			}
		}
	}
	if !ok {
		return h.clone()
	}
	n := h.clone()
	for i, r := range rs {
		if len(keep[i]) == 0 {
			return nil
		}
		n.vals[r] = keep[i]
		if i == curRoot {
			n.c = n.c.and(valChars(keep[i]))
			if n.c.empty() {
				return nil
			}
			for o := range n.cur {
				n.vals[o] = charVals(n.c)
			}
		}
	}
	return n
}

func (cf *charflow) isSpecial(f *ssa.Function, v ssa.Value) bool {
	n := cf.fieldLoad(f, v)
	return n != "" && cf.l.isTk(v.Type())
}

// moved: the tokenizer moved on by one character.
func (cf *charflow) moved(h *half) *half {
	if h == nil {
		return nil
	}
	n := h.clone()
	n.cur = map[ssa.Value]bool{}
	if h.c == one(eofCh) {
		n.c = one(eofCh)
	} else {
		n.c = cf.alphabet()
	}
	return n
}

// step takes a state over one instruction.
func (cf *charflow) step(f *ssa.Function, s halves, in ssa.Instruction) halves {
	switch x := in.(type) {
	case *ssa.UnOp:
		if cf.mode != nil && cf.fieldLoad(f, x) == "mode" {
			for i, h := range s {
				if h != nil {
					n := h.clone()
					n.vals[x] = vset{*cf.mode: true}
					s[i] = n
				}
			}
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && cf.only != nil && cf.fieldLoad(f, ia.X) != "" {
			for i, h := range s {
				if h != nil {
					n := h.clone()
					n.vals[x] = charVals(cf.only.minus(one(eofCh)))
					s[i] = n
				}
			}
		}
		if cf.fieldLoad(f, x) == "lastChar" {
			for i, h := range s {
				if h != nil {
					n := h.clone()
					n.vals[x], n.cur[x] = charVals(h.c), true
					s[i] = n
				}
			}
		}
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && cf.recv(f, fa.X) && cf.l.isTk(x.Val.Type()) {
			k, isK := x.Val.(*ssa.Const)
			for i, h := range s {
				if h != nil {
					n := h.clone()
					n.noSp = isK && k.Value == nil
					s[i] = n
				}
			}
		}
	case *ssa.Panic:
		if !s.dead() {
			cf.panics[f.String()] = true
			which := ""
			for _, h := range s {
				if h != nil && h.c == one(eofCh) {
					which = " at the end of the input"
				}
			}
			cf.fail("no-panic", f.Name(), cf.p.posStr(x.Pos()), "the panic can be reached"+which)
		}
		return halves{}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Signature.Recv() == nil || !cf.l.isTk(g.Signature.Recv().Type()) || len(g.Blocks) == 0 {
			return s
		}
		if !cf.recv(f, x.Call.Args[0]) {
			// the tokenizer of a special comment: it moves on instead
			n := joinHalf(s[0], s[1])
			return halves{nil, n}
		}
		if cf.l.advance[g] && cf.watch != nil {
			return cf.advanceWatched(s)
		}
		if cf.l.advance[g] {
			n := joinHalf(cf.moved(s[0]), cf.moved(s[1]))
			return halves{nil, n}
		}
		var out halves
		for _, part := range cf.parts(s) {
			i, h := part.state, part.half
			args := map[int]vset{}
			for k, a := range x.Call.Args[1:] {
				if v := cf.valueSet(h, a); v != nil && len(v) < 300 {
					args[k+1] = v
				}
			}
			if n := len(cf.stack); n > 0 {
				cf.stack[n-1].moved = i == 1
			}
			var ex [2]exitHalf
			if cf.opaque[g] != "" {
				ex = cf.mark(g, x, args)
			} else {
				from := 0
				if cf.watch != nil {
					from = i
				}
				ex = cf.runFrom(g, from, h.c, h.noSp, args)
			}
			for j, e := range ex {
				if !e.any {
					continue
				}
				n := h.clone()
				if j == 1 || cf.watch != nil {
					n.cur = map[ssa.Value]bool{}
				}
				n.c, n.noSp = e.c, e.noSp
				if j == 0 {
					for o := range n.cur {
						n.vals[o] = charVals(n.c)
					}
				}
				delete(n.vals, x)
				for _, r := range *x.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok {
						delete(n.vals, ex)
					}
				}
				if !e.top {
					if _, tuple := x.Type().(*types.Tuple); !tuple {
						n.vals[x] = e.rets
					} else {
						for _, r := range *x.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
								n.vals[ex] = e.rets
							}
						}
					}
				}
				k := max(i, j)
				if cf.watch != nil {
					k = j
				}
				out[k] = joinHalf(out[k], n)
			}
		}
		return out
	}
	return s
}

// edge takes the state at the end of a block into a successor.
func (cf *charflow) edge(f *ssa.Function, s halves, b *ssa.BasicBlock, si int) halves {
	succ := b.Succs[si]
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		for i := range s {
			s[i] = cf.refine(f, s[i], iff.Cond, si == 0)
		}
	}
	pi := -1
	n := 0
	for i, p := range succ.Preds {
		if p == b {
			if n == 0 || len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] && n == si {
				pi = i
			}
			n++
		}
	}
	for i, h := range s {
		if h == nil {
			continue
		}
		o := h.clone()
		for _, in := range succ.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e := ph.Edges[pi]
			delete(o.vals, ph)
			delete(o.cur, ph)
			if v := cf.valueSet(h, e); v != nil {
				o.vals[ph] = v
				if h.cur[e] {
					o.cur[ph] = true
				}
			}
		}
		s[i] = o
	}
	return s
}

// flow computes the states at the start of the blocks of a region from one
// block on. Arrivals at the stop block are kept apart.
func (cf *charflow) flow(f *ssa.Function, in *ssa.BasicBlock, init halves, region map[*ssa.BasicBlock]bool, stop *ssa.BasicBlock) (at map[*ssa.BasicBlock]halves, ends map[*ssa.BasicBlock]halves, back halves) {
	at = map[*ssa.BasicBlock]halves{in: init}
	ends = map[*ssa.BasicBlock]halves{}
	backs := map[[2]int]halves{}
	work := []*ssa.BasicBlock{in}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		b := work[0]
		work = work[1:]
		s := at[b]
		for _, x := range b.Instrs {
			if s.dead() {
				break
			}
			s = cf.step(f, s, x)
		}
		ends[b] = s
		if s.dead() {
			continue
		}
		for i, u := range b.Succs {
			if region != nil && !region[u] {
				continue
			}
			e := cf.edge(f, s, b, i)
			if e.dead() {
				continue
			}
			if u == stop {
				backs[[2]int{b.Index, i}] = e
				continue
			}
			old, had := at[u]
			j := joinHalves(old, e)
			if !had || !sameHalf(j[0], old[0]) || !sameHalf(j[1], old[1]) {
				at[u] = j
				work = append(work, u)
			}
		}
	}
	for _, e := range backs {
		back = joinHalves(back, e)
	}
	return
}

func vkey(v vset) string {
	var ks []int64
	for k := range v {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return fmt.Sprint(ks)
}

// run is what a method does from a current character: how it ends without
// having moved on, and having moved on.
func (cf *charflow) run(f *ssa.Function, c cset, noSp bool, args map[int]vset) [2]exitHalf {
	return cf.runFrom(f, 0, c, noSp, args)
}

func (cf *charflow) runFrom(f *ssa.Function, from int, c cset, noSp bool, args map[int]vset) [2]exitHalf {
	key := f.String() + fmt.Sprint(from, c, noSp)
	for i := range f.Params {
		if v, ok := args[i]; ok {
			key += fmt.Sprint(i) + vkey(v)
		}
	}
	if r, ok := cf.memo[key]; ok {
		return r
	}
	for i, fr := range cf.stack {
		if fr.f != f {
			continue
		}
		// called again by itself: not from where it was, and then it may do
		// anything
		on := false
		for _, g := range cf.stack[i:] {
			on = on || g.moved
		}
		if !on {
			cf.fail("recursion", f.Name(), cf.p.posStr(f.Pos()), "the function calls itself again without having moved on")
		}
		cf.recursions[f.Name()] = true
		return [2]exitHalf{{c: c, top: true, any: true}, {c: cf.alphabet(), top: true, any: true}}
	}
	cf.stack = append(cf.stack, flowFrame{f, false})
	defer func() { cf.stack = cf.stack[:len(cf.stack)-1] }()
	cf.nctx++
	h := newHalf(c)
	if h == nil {
		return [2]exitHalf{}
	}
	h.noSp = noSp
	for i, v := range args {
		if i < len(f.Params) {
			h.vals[f.Params[i]] = v
		}
	}
	var s halves
	s[from] = h
	at, ends, _ := cf.flow(f, f.Blocks[0], s, nil, nil)
	var out [2]exitHalf
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, e := range ends[b] {
			if e == nil {
				continue
			}
			o := &out[i]
			if !o.any {
				o.noSp = true
				o.rets = vset{}
			}
			o.any = true
			o.c = o.c.or(e.c)
			o.noSp = o.noSp && e.noSp
			if len(r.Results) > 0 {
				v := cf.valueSet(e, r.Results[0])
				if v == nil {
					o.top = true
				}
				for x := range v {
					o.rets[x] = true
				}
			} else {
				o.top = true
			}
		}
	}
	cf.loopsOf(f, at)
	cf.memo[key] = out
	return out
}

// loopsOf shows for each loop that a round without moving on is followed by no
// other, and that the loop is left at the end of the input.
func (cf *charflow) loopsOf(f *ssa.Function, at map[*ssa.BasicBlock]halves) {
	for head, region := range natural(f) {
		s, ok := at[head]
		if !ok || s.dead() {
			continue
		}
		where := cf.p.posStr(blockPos(head, f))
		key := f.Name()
		if cf.countingLoop(f, head, region) {
			cf.loops[where+"/"+key] = true
			continue
		}
		all := joinHalf(s[0], s[1])
		// a round that does not move on, at most a few times
		n := all.clone()
		ended := false
		for i := 0; i < 4 && !ended; i++ {
			_, _, back := cf.flow(f, head, halves{n, nil}, region, head)
			n = back[0]
			ended = n == nil
		}
		if !ended {
			cf.fail("progress", key, where, "the loop can go round and round without moving on to the next character")
			continue
		}
		// the end of the input
		e := all.clone()
		ended = false
		if e.c.has(eofCh) {
			e.c = one(eofCh)
			e.noSp = true
			for o := range e.cur {
				e.vals[o] = charVals(e.c)
			}
			for i := 0; i < 4 && !ended; i++ {
				_, _, back := cf.flow(f, head, halves{e, nil}, region, head)
				e = joinHalf(back[0], back[1])
				ended = e == nil
			}
		} else {
			ended = true
		}
		if !ended {
			cf.fail("end-of-input", key, where, "the loop is not left at the end of the input")
			continue
		}
		cf.loops[where+"/"+key] = true
	}
}

func blockPos(b *ssa.BasicBlock, f *ssa.Function) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos() != token.NoPos {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos() != token.NoPos {
				return in.Pos()
			}
		}
	}
	return f.Pos()
}

// natural gives the loops of a function: header and blocks.
func natural(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			r := out[h]
			if r == nil {
				r = map[*ssa.BasicBlock]bool{h: true}
				out[h] = r
			}
			var rec func(x *ssa.BasicBlock)
			rec = func(x *ssa.BasicBlock) {
				if r[x] {
					return
				}
				r[x] = true
				for _, p := range x.Preds {
					rec(p)
				}
			}
			rec(b)
		}
	}
	return out
}

// countingLoop: every round adds to a number that is compared with a bound at
// an exit every round passes.
func (cf *charflow) countingLoop(f *ssa.Function, head *ssa.BasicBlock, region map[*ssa.BasicBlock]bool) bool {
	var latches []*ssa.BasicBlock
	for _, p := range head.Preds {
		if region[p] {
			latches = append(latches, p)
		}
	}
	for b := range region {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || region[b.Succs[0]] == region[b.Succs[1]] {
			continue
		}
		every := true
		for _, l := range latches {
			every = every && b.Dominates(l)
		}
		if !every {
			continue
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				return true // a range
			}
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		lo, hi := cmp.X, cmp.Y
		switch cmp.Op {
		case token.LSS, token.LEQ:
		case token.GTR, token.GEQ:
			lo, hi = hi, lo
		default:
			continue
		}
		if !region[b.Succs[0]] {
			lo, hi = hi, lo // the loop goes on while it is not so
		}
		if cf.grows(f, lo, head, latches, region) && cf.stays(f, hi, region) {
			return true
		}
	}
	return false
}

func addsPositive(v ssa.Value, base func(ssa.Value) bool) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	k, isK := smallConst(b.Y)
	return isK && k > 0 && base(b.X)
}

// grows: a counter, or a field, that every round adds to.
func (cf *charflow) grows(f *ssa.Function, v ssa.Value, head *ssa.BasicBlock, latches []*ssa.BasicBlock, region map[*ssa.BasicBlock]bool) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if k, isK := smallConst(b.Y); isK && k > 0 {
			v = b.X // i+1 < n
		}
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == head {
		for i, p := range head.Preds {
			if region[p] && !addsPositive(ph.Edges[i], func(x ssa.Value) bool { return x == ssa.Value(ph) }) {
				return false
			}
		}
		return true
	}
	name := cf.fieldLoad(f, v)
	if name == "" {
		return false
	}
	done := 0
	for b := range region {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !cf.l.isTk(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != name {
					continue
				}
				if !addsPositive(x.Val, func(y ssa.Value) bool { return cf.fieldLoad(f, y) == name }) {
					return false
				}
				every := true
				for _, l := range latches {
					every = every && b.Dominates(l)
				}
				if every {
					done++
				}
			case ssa.CallInstruction:
				for _, a := range x.Common().Args {
					if cf.l.isTk(a.Type()) {
						return false
					}
				}
			}
		}
	}
	return done > 0
}

// stays: a bound that does not change in the loop.
func (cf *charflow) stays(f *ssa.Function, v ssa.Value, region map[*ssa.BasicBlock]bool) bool {
	if in, ok := v.(ssa.Instruction); !ok || !region[in.Block()] {
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return cf.stays(f, c.Call.Args[0], region)
		}
		return false
	}
	name := cf.fieldLoad(f, v)
	if name == "" {
		return false
	}
	for b := range region {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Store); ok {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == name {
					return false
				}
			}
		}
	}
	return true
}

// mark is what a call of a scanner gives when the scanner is left out.
func (cf *charflow) mark(g *ssa.Function, x *ssa.Call, args map[int]vset) [2]exitHalf {
	d := "scan " + cf.opaque[g]
	for i := range x.Call.Args[1:] {
		v, ok := args[i+1]
		if !ok {
			d += " ?"
			continue
		}
		d += " " + cf.tokens(v)
	}
	k := int64(-1000 - len(cf.marks))
	for m, o := range cf.marks {
		if o == d {
			k = m
		}
	}
	cf.marks[k] = d
	return [2]exitHalf{{}, {c: cf.alphabet(), rets: vset{k: true}, any: true}}
}

// tokens describes token values.
func (cf *charflow) tokens(v vset) string {
	var out []string
	for k := range v {
		switch {
		case cf.marks[k] != "":
			out = append(out, cf.marks[k])
		case cf.l.tokens[k] != "":
			out = append(out, cf.l.tokens[k])
		case k > 32 && k < 127:
			out = append(out, "'"+string(rune(k))+"'")
		default:
			out = append(out, fmt.Sprint(k))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// charRun propagates characters in a dialect, without obligations.
func (p *Program) charRun(l *lexer, mode int64) *charflow {
	return &charflow{p: p, l: l, c: &Check{p: p}, memo: map[string][2]exitHalf{}, loops: map[string]bool{}, panics: map[string]bool{}, recursions: map[string]bool{}, bad: map[string]bool{}, mode: &mode, marks: map[int64]string{}, quietly: true}
}

// dispatch describes what the tokenizer gives at a character in a dialect.
func (p *Program) dispatch(l *lexer, mode int64, scanners bool) func(ch int) string {
	opaque := map[*ssa.Function]string{}
	for f, d := range l.leaf {
		if scanners && !l.reads(f, "mode") {
			opaque[f] = d
		}
	}
	cf := p.charRun(l, mode)
	cf.opaque = opaque
	return func(ch int) string {
		ex := cf.run(l.scan, one(ch), true, nil)
		all := vset{}
		for _, e := range ex {
			if e.top {
				return "something not constant"
			}
			for k := range e.rets {
				all[k] = true
			}
		}
		if len(all) > 1 {
			delete(all, 0) // a forced end
		}
		return cf.tokens(all)
	}
}
