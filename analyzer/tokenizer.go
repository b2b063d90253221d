package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks0["C19"] = checkC19 }

func checkC19(c *Check) {
	c.explain = append(c.explain, "Every loop of the tokenizer moves on in each round and is left at the end of the input, the dispatch gives the end token there and consumes something elsewhere, no panic of the tokenizer can be reached, and every index and slice is within bounds.")
	c.assume = append(c.assume, "the generated parser asks for tokens only through Lex and stops at the end token", "io.Reader.Read reads at most as much as the buffer holds", "stack depth (nested special comments) is not bounded")
	l := c.p.lexer()
	if l == nil || l.scan == nil || len(l.advance) == 0 {
		c.require(false, "coverage", "tokenizer", "", "the tokenizer was not found")
		return
	}
	cf := &charflow{p: c.p, l: l, c: c, memo: map[string][2]exitHalf{}, loops: map[string]bool{}, panics: map[string]bool{}, recursions: map[string]bool{}, bad: map[string]bool{}}
	cf.fields()
	cf.moveOn()
	// the methods called from elsewhere, at any character
	var roots []*ssa.Function
	for _, f := range l.methods {
		if !l.advance[f] && cf.isRoot(f) {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	c.floor("entry points of the tokenizer", len(roots), 3)
	for _, f := range roots {
		cf.run(f, allChars, false, nil)
	}
	// what the dispatch gives without having moved on
	zero := func(e exitHalf) bool {
		if !e.any {
			return true
		}
		if e.top {
			return false
		}
		for k := range e.rets {
			if k != 0 {
				return false
			}
		}
		return true
	}
	ex := cf.run(l.scan, allChars, false, nil)
	where := c.p.posStr(l.scan.Pos())
	c.require(zero(ex[0]), "token-consumes", l.scan.Name(), where, "a token other than the end is given without moving on, so that it is given for ever")
	end := cf.run(l.scan, one(eofCh), true, nil)
	c.require(zero(end[0]) && zero(end[1]) && (end[0].any || end[1].any), "end-token", l.scan.Name(), where, "at the end of the input the token is not the end token")
	for ch := 1; ch < 256; ch++ {
		var s cset
		s.add(ch)
		e := cf.run(l.scan, s, true, nil)
		c.require(zero(e[0]), "token-consumes", fmt.Sprintf("%s/%q", l.scan.Name(), rune(ch)), where, "a token is given for this character without moving on")
	}
	cf.nested()
	cf.bounds()
	for k := range cf.loops {
		c.require(true, "loop", k, "", "")
	}
	c.floor("loops shown to end", len(cf.loops), 8)
	np := 0
	for _, f := range cf.reachable() {
		for _, b := range f.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				np++
				c.require(!cf.panics[f.String()], "panic-unreachable", f.Name(), c.p.posStr(b.Instrs[len(b.Instrs)-1].Pos()), "the panic can be reached")
				if f.Signature.Recv() == nil || !l.isTk(f.Signature.Recv().Type()) {
					c.require(false, "panic-unreachable", f.Name(), c.p.posStr(b.Instrs[len(b.Instrs)-1].Pos()), "a panic outside the tokenizer's methods is not analysed")
				}
			}
		}
		if hasLoop(f) && (f.Signature.Recv() == nil || !l.isTk(f.Signature.Recv().Type())) {
			for head, region := range natural(f) {
				c.require(cf.countingLoop(f, head, region), "loop", f.Name(), c.p.posStr(blockPos(head, f)), "the loop is not shown to end")
			}
		}
	}
	c.stats["states analysed"], c.stats["loops"], c.stats["panics"], c.stats["entry points"] = cf.nctx, len(cf.loops), np, len(roots)
}

// isRoot: called from outside the tokenizer's own methods.
func (cf *charflow) isRoot(f *ssa.Function) bool {
	if token.IsExported(f.Name()) {
		return true
	}
	for _, g := range cf.p.functions("sqlparser") {
		if g.Signature.Recv() != nil && cf.l.isTk(g.Signature.Recv().Type()) {
			continue
		}
		for _, x := range callees(g) {
			if x == f {
				return true
			}
		}
	}
	return false
}

// reachable are the functions of this module the tokenizer calls.
func (cf *charflow) reachable() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] || !strings.HasPrefix(fnPkg(f), modPath) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, g := range callees(f) {
			rec(g)
		}
		for _, g := range f.AnonFuncs {
			rec(g)
		}
	}
	for _, f := range cf.l.methods {
		rec(f)
	}
	return out
}

// storesTo lists the writes of a field of the tokenizer.
func (cf *charflow) storesTo(field string) map[*ssa.Store]*ssa.Function {
	out := map[*ssa.Store]*ssa.Function{}
	for _, f := range cf.p.functions("sqlparser") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && cf.l.isTk(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == field {
						out[st] = f
					}
				}
			}
		}
	}
	return out
}

// fields: what holds of the position and the buffer at all times: the position
// is never beyond the end, the end never beyond the buffer, and the current
// character is set by moving on alone.
func (cf *charflow) fields() {
	c := cf.c
	n := 0
	for st, f := range cf.storesTo("lastChar") {
		n++
		c.require(cf.l.advance[f], "current-character", f.Name(), c.p.posStr(st.Pos()), "the current character is changed other than by moving on")
	}
	for st, f := range cf.storesTo("bufPos") {
		n++
		k, isK := smallConst(st.Val)
		up := false
		if b, ok := st.Val.(*ssa.BinOp); ok && b.Op == token.ADD && cf.fieldLoad(f, b.X) == "bufPos" {
			d, ok := smallConst(b.Y)
			up = ok && d == 1 && cf.below(f, st, "bufPos", "bufSize")
		}
		c.require(isK && k == 0 || up, "position", f.Name(), c.p.posStr(st.Pos()), "the position is not moved on by one under the check that it is before the end")
	}
	for st, f := range cf.storesTo("bufSize") {
		n++
		c.require(cf.sizeOf(f, st.Val), "buffer-size", f.Name(), c.p.posStr(st.Pos()), "the end is not the length of the buffer")
	}
	for st, f := range cf.storesTo("buf") {
		n++
		ok := false
		_, fresh := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
		// the end set with it is its length, or nothing has been read
		ok = fresh
		c.require(ok, "buffer", f.Name(), c.p.posStr(st.Pos()), "the buffer of a tokenizer in use is replaced")
	}
	c.floor("writes of the tokenizer's position and buffer", n, 6)
	// the whole tokenizer is not overwritten
	for _, f := range cf.p.functions("sqlparser") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && types.Identical(st.Val.Type(), cf.l.tk) {
					_, fresh := st.Addr.(*ssa.Alloc)
					c.require(fresh, "overwritten", f.Name(), c.p.posStr(st.Pos()), "a tokenizer in use is overwritten")
				}
			}
		}
	}
}

// sizeOf: the length of what is stored as the buffer, or what a reader says it
// has read into it.
func (cf *charflow) sizeOf(f *ssa.Function, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		k, ok := smallConst(x)
		return ok && k == 0
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			for st, g := range cf.storesTo("buf") {
				if g == f && st.Val == x.Call.Args[0] {
					return true
				}
			}
			return cf.fieldLoad(f, x.Call.Args[0]) == "buf"
		}
	case *ssa.Extract:
		if ca, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && ca.Call.IsInvoke() && ca.Call.Method.Name() == "Read" && len(ca.Call.Args) == 1 {
			return cf.fieldLoad(f, ca.Call.Args[0]) == "buf"
		}
	}
	return false
}

// below: at an instruction it has been checked that one field is less than
// another, and neither has been written since.
func (cf *charflow) below(f *ssa.Function, at ssa.Instruction, lo, hi string) bool {
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := cf.fieldLoad(f, cmp.X), cf.fieldLoad(f, cmp.Y)
		holds := -1
		switch {
		case x == lo && y == hi && cmp.Op == token.LSS, x == hi && y == lo && cmp.Op == token.GTR:
			holds = 0
		case x == lo && y == hi && cmp.Op == token.GEQ, x == hi && y == lo && cmp.Op == token.LEQ:
			holds = 1
		default:
			continue
		}
		succ := b.Succs[holds]
		if len(succ.Preds) != 1 || !succ.Dominates(at.Block()) {
			continue
		}
		// the loads belong to the check
		if !cf.quiet(f, cmp.X.(ssa.Instruction), iff, lo, hi) || !cf.quiet(f, cmp.Y.(ssa.Instruction), iff, lo, hi) {
			continue
		}
		if cf.quietFrom(f, succ, at, b, lo, hi) {
			return true
		}
	}
	return false
}

// writes tells whether an instruction may change one of the fields.
func (cf *charflow) writes(in ssa.Instruction, fields ...string) bool {
	switch x := in.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			return cf.l.isTk(fa.X.Type()) && has(fields, fieldName(fa.X.Type(), fa.Field))
		}
		return types.Identical(x.Val.Type(), cf.l.tk)
	case ssa.CallInstruction:
		for _, a := range x.Common().Args {
			if cf.l.isTk(a.Type()) {
				return true
			}
		}
		if x.Common().IsInvoke() && cf.l.isTk(x.Common().Value.Type()) {
			return true
		}
	}
	return false
}

// quiet: nothing writes the fields between two instructions of one block.
func (cf *charflow) quiet(f *ssa.Function, from, to ssa.Instruction, fields ...string) bool {
	if from.Block() != to.Block() {
		return cf.quietFrom(f, from.Block(), to, nil, fields...) // coarser
	}
	on := false
	for _, in := range from.Block().Instrs {
		if in == to {
			return true
		}
		if on && cf.writes(in, fields...) {
			return false
		}
		if in == from {
			on = true
		}
	}
	return false
}

// quietFrom: nothing writes the fields on the ways from the start of a block to
// an instruction that do not pass another block.
func (cf *charflow) quietFrom(f *ssa.Function, from *ssa.BasicBlock, to ssa.Instruction, not *ssa.BasicBlock, fields ...string) bool {
	fwd := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if fwd[b] || b == not {
			return
		}
		fwd[b] = true
		for _, s := range b.Succs {
			rec(s)
		}
	}
	rec(from)
	bwd := map[*ssa.BasicBlock]bool{}
	var recb func(b *ssa.BasicBlock)
	recb = func(b *ssa.BasicBlock) {
		if bwd[b] || !fwd[b] {
			return
		}
		bwd[b] = true
		if b == from {
			return
		}
		for _, p := range b.Preds {
			recb(p)
		}
	}
	end := to.Block()
	bwd[end] = true
	if end != from {
		for _, p := range end.Preds {
			recb(p)
		}
	}
	cyclic := false // the block itself is on the way again
	for b := range bwd {
		if b != end || end == from {
			continue
		}
		for _, s := range b.Succs {
			if bwd[s] && s != end {
				cyclic = true
			}
		}
	}
	for b := range bwd {
		for _, in := range b.Instrs {
			if in == to && !cyclic {
				break
			}
			if in != to && cf.writes(in, fields...) {
				return false
			}
		}
	}
	return true
}

// moveOn: moving on reads the character at the position, or finds the end.
func (cf *charflow) moveOn() {
	c := cf.c
	for f := range cf.l.advance {
		ev := newEval(c.p)
		tk := mkSym("$tkn", f.Params[0].Type())
		st := newState()
		content := mkUpdate(mkDeref(tk, cf.l.tk), "InStream", tNil, cf.l.tk)
		st.set(tk, content)
		res := ev.Call(f, []*Term{tk}, nil, st, 0, "next")
		v, ok := res.st.get(tk)
		where := c.p.posStr(f.Pos())
		if !ok {
			c.require(false, "moving-on", f.Name(), where, "moving on changes nothing")
			continue
		}
		pos, size := mkField(content, "bufPos", nil), mkField(content, "bufSize", nil)
		before := mkCmpBDD("lt", pos, size)
		ch, np := mkField(v, "lastChar", nil), mkField(v, "bufPos", nil)
		read := true
		for _, k := range cases(ch) {
			if !unsat(bAnd(k.g, before)) {
				x := k.text
				for x.op == OApp && strings.HasPrefix(x.str, "conv:") {
					x = x.args[0]
				}
				read = read && x.op == OApp && x.str == "index" && x.args[0] == mkField(content, "buf", nil) && x.args[1] == pos
			}
			if !unsat(bAnd(k.g, bNot(before))) {
				n, isN := k.text.intConst()
				c.require(isN && n == eofCh || implies(bAnd(k.g, bNot(before)), eqBDD(k.text, mkInt(eofCh))), "moving-on-end", f.Name(), where, "at the end of the buffer the current character is "+short(pp(k.text), 60))
			}
		}
		c.require(read, "moving-on-reads", f.Name(), where, "before the end of the buffer the current character becomes "+short(pp(ch), 200))
		on := true
		for _, k := range cases(np) {
			if !unsat(bAnd(k.g, before)) {
				on = on && pp(k.text) == pp(mkApp("+", pos.typ, pos, mkInt(1)))
			}
		}
		c.require(on, "moving-on-position", f.Name(), where, "before the end of the buffer the position becomes "+short(pp(np), 200))
	}
}

// nested: a special comment's tokens are given while there are any, and then it
// is left.
func (cf *charflow) nested() {
	l, c := cf.l, cf.c
	sf := ""
	stt := l.tk.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if l.isTk(stt.Field(i).Type()) {
			sf = stt.Field(i).Name()
		}
	}
	if sf == "" {
		return
	}
	where := c.p.posStr(l.scan.Pos())
	for _, none := range []bool{true, false} {
		ev := newEval(c.p)
		tk, sp := mkSym("$tkn", l.scan.Params[0].Type()), mkSym("$special", l.scan.Params[0].Type())
		content := mkUpdate(mkUpdate(mkDeref(tk, l.tk), sf, sp, l.tk), "lastChar", mkInt(eofCh), l.tk)
		content = mkUpdate(content, "ForceEOF", tFalse, l.tk)
		st := newState()
		st.set(tk, content)
		calls := 0
		ev.inline = func(f *ssa.Function) bool {
			return fnPkg(f) == modPath+"/sqlparser" && l.leaf[f] == "" && !l.advance[f] && f != l.scan && !hasLoop(f)
		}
		tok := mkInt(0)
		if !none {
			tok = mkInt(42)
		}
		val := mkSym("$val", nil)
		ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
			if name == l.scan.String() && args[0] == sp {
				calls++
				return mk(Term{op: OTuple, args: []*Term{tok, val}}), true
			}
			return nil, false
		}
		ev.care = bNot(isNilBDD(sp))
		res := ev.Call(l.scan, []*Term{tk}, nil, st, 0, "nested")
		v, _ := res.st.get(tk)
		c.require(calls > 0, "special-comment-read", l.scan.Name(), where, "the tokens of a special comment are not given")
		if res.ret == nil || v == nil {
			c.require(false, "special-comment", l.scan.Name(), where, "the dispatch does not return")
			continue
		}
		t, b := mkField(res.ret, "0", nil), mkField(res.ret, "1", nil)
		if none {
			after := mkField(v, sf, nil)
			left := true
			for _, k := range cases(after) {
				if !unsat(bAnd(k.g, ev.care)) && k.text != tNil {
					left = false
				}
			}
			k, ok := t.intConst()
			c.require(left, "special-comment-left", l.scan.Name(), where, "a special comment without further tokens is not left: "+short(pp(after), 100))
			c.require(ok && k == 0, "special-comment-end", l.scan.Name(), where, "behind a special comment at the end of the input the token is "+short(pp(t), 100))
		} else {
			k, ok := restrictTerm(t, ev.care).intConst()
			c.require(ok && k == 42 && restrictTerm(b, ev.care) == val, "special-comment-token", l.scan.Name(), where, "the token of a special comment is not the one given: "+short(pp(t), 100))
		}
	}
}

// bounds: each index and each slice is within what it is taken of.
func (cf *charflow) bounds() {
	c := cf.c
	n := 0
	for _, f := range cf.reachable() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ok, what := true, ""
				switch x := in.(type) {
				case *ssa.IndexAddr:
					ok, what = cf.indexOK(f, x, x.X, x.Index), "index"
				case *ssa.Index:
					ok, what = cf.indexOK(f, x, x.X, x.Index), "index"
				case *ssa.Lookup:
					if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
						ok, what = cf.indexOK(f, x, x.X, x.Index), "index"
					}
				case *ssa.Slice:
					ok, what = cf.sliceOK(f, x), "slice"
				case *ssa.TypeAssert:
					ok, what = x.CommaOk, "type assertion"
				case *ssa.BinOp:
					if x.Op == token.QUO || x.Op == token.REM {
						k, isK := smallConst(x.Y)
						ok, what = isK && k != 0, "division"
					}
				}
				if what != "" {
					n++
					c.require(ok, "bounds", f.Name()+"/"+what, c.p.posStr(in.Pos()), "the "+what+" is not shown to be within bounds: "+in.String())
				}
			}
		}
	}
	c.floor("indexes and slices", n, 5)
	c.stats["indexes, slices, assertions and divisions"] = n
}

func arrayLen(t types.Type) int64 {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func (cf *charflow) indexOK(f *ssa.Function, at ssa.Instruction, x, i ssa.Value) bool {
	if n := arrayLen(x.Type()); n >= 0 {
		if k, ok := smallConst(i); ok {
			return k >= 0 && k < n
		}
		isByte := func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint8
		}
		for cv, ok := i.(*ssa.Convert); ok && !isByte(i.Type()); cv, ok = i.(*ssa.Convert) {
			i = cv.X
		}
		return isByte(i.Type()) && n >= 256
	}
	if cf.fieldLoad(f, x) == "buf" && cf.fieldLoad(f, i) == "bufPos" {
		return cf.below(f, i.(ssa.Instruction), "bufPos", "bufSize") && cf.below(f, x.(ssa.Instruction), "bufPos", "bufSize")
	}
	if ph, ok := i.(*ssa.Phi); ok {
		return cf.rangeIndex(ph, x, at)
	}
	if b, ok := i.(*ssa.BinOp); ok && b.Op == token.ADD { // the index of a range
		if ph, ok := b.X.(*ssa.Phi); ok {
			return cf.rangeIndex(ph, x, at)
		}
	}
	return false
}

// rangeIndex: the index of a loop from 0 (or -1, added to before) to the length.
func (cf *charflow) rangeIndex(ph *ssa.Phi, x ssa.Value, at ssa.Instruction) bool {
	for _, e := range ph.Edges {
		k, isK := smallConst(e)
		if !(isK && k >= -1) && !addsPositive(e, func(v ssa.Value) bool { return v == ssa.Value(ph) }) {
			return false
		}
	}
	for _, b := range ph.Parent().Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS || !b.Succs[0].Dominates(at.Block()) || len(b.Succs[0].Preds) != 1 {
			continue
		}
		ca, ok := cmp.Y.(*ssa.Call)
		if !ok {
			continue
		}
		bi, ok := ca.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" || ca.Call.Args[0] != x {
			continue
		}
		if cmp.X == ssa.Value(ph) {
			for _, e := range ph.Edges {
				if k, isK := smallConst(e); isK && k < 0 {
					return false
				}
			}
			return true
		}
		if addsPositive(cmp.X, func(v ssa.Value) bool { return v == ssa.Value(ph) }) {
			return true
		}
	}
	return false
}

func isLenOf(v, x ssa.Value) bool {
	ca, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := ca.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "len" && ca.Call.Args[0] == x
}

func (cf *charflow) sliceOK(f *ssa.Function, x *ssa.Slice) bool {
	if x.Low == nil && x.High == nil {
		return true
	}
	if n := arrayLen(x.X.Type()); n >= 0 {
		return false
	}
	if cf.fieldLoad(f, x.X) == "buf" {
		hiOK := cf.fieldLoad(f, x.High) == "bufPos" && cf.since(f, x.High.(ssa.Instruction), x)
		lo, isL := x.Low.(ssa.Instruction)
		loOK := x.Low == nil
		if isL && cf.fieldLoad(f, x.Low) == "bufPos" && hiOK {
			loOK = cf.since(f, lo, x.High.(ssa.Instruction))
		}
		return hiOK && loOK
	}
	lo, loK := int64(0), true
	if x.Low != nil {
		lo, loK = smallConst(x.Low)
	}
	if loK && lo == 0 && x.High != nil && cf.within(x.High, x.X, x.Block(), nil, 0) {
		return true
	}
	if x.High == nil && x.Low != nil && cf.within(x.Low, x.X, x.Block(), nil, 0) {
		return true
	}
	// from a number to a number from the end, of an argument long enough
	cut := int64(0)
	if x.High != nil {
		b, ok := x.High.(*ssa.BinOp)
		if !ok || b.Op != token.SUB || !isLenOf(b.X, x.X) {
			return false
		}
		k, isK := smallConst(b.Y)
		if !isK || k < 0 {
			return false
		}
		cut = k
	}
	p, isP := x.X.(*ssa.Parameter)
	if !loK || lo < 0 || !isP {
		return false
	}
	return cf.minArg(f, p, 0) >= lo+cut
}

// minArg: how long an argument is at least, whoever calls.
func (cf *charflow) minArg(f *ssa.Function, p *ssa.Parameter, d int) int64 {
	best := int64(-1)
	for _, g := range cf.reachable() {
		for _, ci := range callsIn(g) {
			if ci.Common().StaticCallee() != f {
				continue
			}
			for i, q := range f.Params {
				if q == p {
					if n := cf.minLen(g, ci.Common().Args[i], ci, d); best < 0 || n < best {
						best = n
					}
				}
			}
		}
	}
	return max(best, 0)
}

// since: between two instructions the position is only moved up.
func (cf *charflow) since(f *ssa.Function, from, to ssa.Instruction) bool {
	if !from.Block().Dominates(to.Block()) {
		return false
	}
	fwd, bwd := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	var rf, rb func(b *ssa.BasicBlock)
	rf = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !fwd[s] && s != from.Block() {
				fwd[s] = true
				rf(s)
			}
		}
	}
	rb = func(b *ssa.BasicBlock) {
		for _, s := range b.Preds {
			if !bwd[s] && b != from.Block() {
				bwd[s] = true
				rb(s)
			}
		}
	}
	fwd[from.Block()], bwd[to.Block()] = true, true
	rf(from.Block())
	rb(to.Block())
	for b := range fwd {
		if !bwd[b] {
			continue
		}
		on := b != from.Block()
		for _, in := range b.Instrs {
			if in == to && b != from.Block() || in == to && on {
				break
			}
			if in == from {
				on = true
				continue
			}
			if !on || !cf.writes(in, "bufPos", "buf") {
				continue
			}
			st, ok := in.(*ssa.Store)
			if !ok || !addsPositive(st.Val, func(v ssa.Value) bool { return cf.fieldLoad(f, v) == "bufPos" }) {
				return false
			}
		}
	}
	return true
}

// within: a number from 0 to the length of a text, at the end of a block (on
// the way to one of its successors).
func (cf *charflow) within(v, s ssa.Value, at *ssa.BasicBlock, to *ssa.BasicBlock, d int) bool {
	if k, ok := smallConst(v); ok {
		return k == 0
	}
	if isLenOf(v, s) {
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok && d < 4 {
		for i, e := range ph.Edges {
			if !cf.within(e, s, ph.Block().Preds[i], ph.Block(), d+1) {
				return false
			}
		}
		return true
	}
	ca, ok := v.(*ssa.Call)
	if !ok || ca.Call.StaticCallee() == nil {
		return false
	}
	g := ca.Call.StaticCallee()
	if strings.HasPrefix(fnPkg(g), modPath) && d < 4 && len(g.Blocks) > 0 && g.Signature.Results().Len() == 1 {
		for i, a := range ca.Call.Args {
			if a != s || i >= len(g.Params) {
				continue
			}
			all := true
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					all = all && cf.within(r.Results[0], g.Params[i], b, nil, d+1)
				}
			}
			return all
		}
	}
	if (fnPkg(g) != "strings" && fnPkg(g) != "bytes") || !strings.Contains(g.Name(), "Index") || ca.Call.Args[0] != s {
		return false
	}
	// it has been checked that it is not -1
	for _, b := range v.Parent().Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.X != v {
			continue
		}
		k, isK := smallConst(cmp.Y)
		if !isK {
			continue
		}
		found := -1
		switch {
		case cmp.Op == token.LSS && (k == 0 || k == 1), cmp.Op == token.LEQ && (k == -1 || k == 0), cmp.Op == token.EQL && k == -1:
			found = 1
		case cmp.Op == token.GEQ && k >= 0, cmp.Op == token.GTR && k >= -1, cmp.Op == token.NEQ && k == -1:
			found = 0
		default:
			continue
		}
		succ := b.Succs[found]
		if b == at && succ == to && b.Succs[1-found] != succ {
			return true
		}
		if len(succ.Preds) == 1 && succ.Dominates(at) {
			return true
		}
	}
	return false
}

// minLen: how long a text is at least.
func (cf *charflow) minLen(f *ssa.Function, v ssa.Value, at ssa.Instruction, d int) int64 {
	if k, ok := v.(*ssa.Const); ok && isStringType(k.Type()) {
		s, ok := constStr(k)
		if ok {
			return int64(len(s))
		}
		return 0
	}
	if p, ok := v.(*ssa.Parameter); ok && d < 4 {
		return cf.minArg(f, p, d+1)
	}
	ca, ok := v.(*ssa.Call)
	if !ok || ca.Call.StaticCallee() == nil || !has([]string{"String", "Bytes"}, ca.Call.StaticCallee().Name()) {
		return 0
	}
	return cf.written(f, ca.Call.Args[0], ca.Block(), ca, 0)
}

func constStr(k *ssa.Const) (string, bool) {
	if k.Value == nil {
		return "", false
	}
	s := k.Value.ExactString()
	if len(s) < 2 || s[0] != '"' {
		return "", false
	}
	return constantString(k), true
}

// written: how much has been written into a buffer at least, on every way to an
// instruction.
func (cf *charflow) written(f *ssa.Function, buf ssa.Value, end *ssa.BasicBlock, at ssa.Instruction, d int) int64 {
	if d > 4 {
		return 0
	}
	amount := func(in ssa.Instruction) int64 {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return 0
		}
		g := ci.Common().StaticCallee()
		if g == nil {
			return 0
		}
		for i, a := range ci.Common().Args {
			if a != buf {
				continue
			}
			switch g.Name() {
			case "WriteByte":
				return 1
			case "WriteString":
				if k, ok := ci.Common().Args[1].(*ssa.Const); ok {
					s, _ := constStr(k)
					return int64(len(s))
				}
				return 0
			case "Write":
				return 0
			}
			if len(g.Blocks) == 0 || i >= len(g.Params) {
				return 0
			}
			best := int64(-1)
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if n := cf.written(g, g.Params[i], b, r, d+1); best < 0 || n < best {
						best = n
					}
				}
			}
			return max(best, 0)
		}
		return 0
	}
	// the least over the ways: distances from the entry
	dist := map[*ssa.BasicBlock]int64{f.Blocks[0]: 0}
	sum := func(b *ssa.BasicBlock, stop ssa.Instruction) int64 {
		n := int64(0)
		for _, in := range b.Instrs {
			if in == stop {
				break
			}
			n += amount(in)
		}
		return n
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			w, ok := dist[b]
			if !ok {
				continue
			}
			w += sum(b, nil)
			for _, s := range b.Succs {
				if o, ok := dist[s]; !ok || w < o {
					dist[s] = w
					changed = true
				}
			}
		}
	}
	w, ok := dist[end]
	if !ok {
		return 0
	}
	return w + sum(end, at)
}

func constantString(k *ssa.Const) string { return constant.StringVal(k.Value) }
