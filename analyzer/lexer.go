package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the tokenizer

// lexer is what the code of the tokenizer consists of: the functions that move
// on by one character, the scanners of one kind of token, and the dispatch.
type lexer struct {
	p       *Program
	tk      *types.Named
	methods []*ssa.Function
	advance map[*ssa.Function]bool
	scan    *ssa.Function            // gives the next token
	leaf    map[*ssa.Function]string // scanners, by the tokens they give
	tokens  map[int64]string
}

func (l *lexer) isTk(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	return ok && types.Identical(pt.Elem(), l.tk)
}

func (l *lexer) tokSig(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() == 2 && isIntType(r.At(0).Type()) && r.At(1).Type().String() == "[]byte"
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func (p *Program) lexer() *lexer {
	sp := p.pkg("sqlparser")
	o := sp.Pkg.Scope().Lookup("Tokenizer")
	if o == nil {
		return nil
	}
	l := &lexer{p: p, advance: map[*ssa.Function]bool{}, leaf: map[*ssa.Function]string{}, tokens: map[int64]string{}}
	l.tk, _ = o.Type().(*types.Named)
	if l.tk == nil {
		return nil
	}
	for _, n := range sp.Pkg.Scope().Names() {
		if k, ok := sp.Pkg.Scope().Lookup(n).(*types.Const); ok && k.Val().Kind() == constant.Int {
			if i, ok := constant.Int64Val(k.Val()); ok && i > 57344 && i < 60000 && strings.ToUpper(n) == n {
				l.tokens[i] = n
			}
		}
	}
	for _, f := range p.functions("sqlparser") {
		if f.Signature.Recv() != nil && l.isTk(f.Signature.Recv().Type()) && f.Parent() == nil && len(f.Blocks) > 0 {
			l.methods = append(l.methods, f)
		}
	}
	// moving on reads the buffer at the position, which it moves
	for _, f := range l.methods {
		if f.Signature.Results().Len() == 0 && f.Signature.Params().Len() == 0 && l.stores(f, "lastChar") && l.stores(f, "bufPos") {
			l.advance[f] = true
		}
	}
	loops := map[*ssa.Function]bool{}
	for _, f := range l.methods {
		loops[f] = hasLoop(f)
	}
	// the dispatch calls most of the others
	best := 0
	for _, f := range l.methods {
		if !l.tokSig(f) || f.Signature.Params().Len() > 0 {
			continue
		}
		set := map[*ssa.Function]bool{}
		for _, g := range callees(f) {
			if l.tokSig(g) {
				set[g] = true
			}
		}
		if len(set) > best {
			best, l.scan = len(set), f
		}
	}
	for _, f := range l.methods {
		if !l.tokSig(f) || f == l.scan {
			continue
		}
		is := loops[f]
		for _, g := range callees(f) {
			if !l.tokSig(g) && !l.advance[g] && g.Signature.Params().Len() > 0 {
				is = is || loops[g]
				for _, h := range callees(g) {
					is = is || loops[h] && !l.tokSig(h) && !l.advance[h] && h.Signature.Params().Len() > 0
				}
			}
		}
		if is {
			l.leaf[f] = strings.Join(l.returned(f), "/")
		}
	}
	return l
}

func (l *lexer) stores(f *ssa.Function, field string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && l.isTk(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == field {
					return true
				}
			}
		}
	}
	return false
}

// reads: the function looks at a field of the tokenizer.
func (l *lexer) reads(f *ssa.Function, field string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && l.isTk(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == field {
					return true
				}
			}
		}
	}
	return false
}

// returned lists the kinds of token a scanner gives.
func (l *lexer) returned(f *ssa.Function) []string {
	set := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	helper := func(v ssa.Value, i int) bool {
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		g := call.Call.StaticCallee()
		if g == nil || fnPkg(g) != modPath+"/sqlparser" || g == l.scan {
			return false
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				rec(r.Results[i])
			}
		}
		return true
	}
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if i, ok := constOf(x); ok {
				n := l.tokens[i]
				if n == "" {
					n = x.Value.String()
				}
				if n != "LEX_ERROR" {
					set[n] = true
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Parameter:
			set["given"] = true
		case *ssa.Extract:
			if !helper(x.Tuple, x.Index) {
				set["looked up"] = true
			}
		case *ssa.Call:
			helper(x, 0)
		case *ssa.Lookup:
			set["looked up"] = true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && len(r.Results) == 2 {
				rec(r.Results[0])
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

const eofCh = 256

// lexRun evaluates the dispatch for one dialect: the scanner calls with their
// guards, over the characters $c0 (the current one), next($c0), ...
type lexRun struct {
	l     *lexer
	ev    *Eval
	calls []*CallInst
	ret   *Term
	end   *Term // the current character afterwards
	care  BDD
}

func charSym(n int) *Term {
	t := mkSym("$c0", types.Typ[types.Uint16])
	for ; n > 0; n-- {
		t = mkApp("next", types.Typ[types.Uint16], t)
	}
	return t
}

func (l *lexer) run(mode int) *lexRun {
	ev := newEval(l.p)
	tk := mkSym("$tkn", l.scan.Params[0].Type())
	content := mkDeref(tk, l.tk)
	st := newState()
	cur := mkUpdate(mkUpdate(content, "lastChar", charSym(0), l.tk), "mode", mkInt(int64(mode)), l.tk)
	cur = mkUpdate(mkUpdate(cur, "specialComment", tNil, l.tk), "ForceEOF", tFalse, l.tk)
	st.set(tk, cur)
	ev.inline = func(f *ssa.Function) bool {
		return fnPkg(f) == modPath+"/sqlparser" && l.leaf[f] == "" && !l.advance[f] && f != l.scan && !hasLoop(f)
	}
	adv := map[string]bool{}
	leaf := map[string]bool{}
	blank := map[string]bool{}
	for f := range l.advance {
		adv[f.String()] = true
	}
	for f := range l.leaf {
		leaf[f.String()] = true
	}
	for _, f := range l.methods {
		if f.Signature.Results().Len() == 0 && f.Signature.Params().Len() == 0 && hasLoop(f) && !l.advance[f] {
			blank[f.String()] = true
		}
	}
	ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
		if adv[name] {
			c, ok := st.get(tk)
			if !ok {
				c = cur
			}
			st.set(tk, mkUpdate(c, "lastChar", nextOf(mkField(c, "lastChar", nil)), l.tk))
			return tNil, true
		}
		if blank[name] { // the current character is the first one that is not blank
			return tNil, true
		}
		if leaf[name] {
			return mkApp("scan:"+name, rtyp, args...), true
		}
		return nil, false
	}
	res := ev.Call(l.scan, []*Term{tk}, nil, st, 0, "lex")
	var end *Term
	if res.st != nil {
		if t, ok := res.st.get(tk); ok {
			end = mkField(t, "lastChar", nil)
		}
	}
	r := &lexRun{l: l, ev: ev, ret: res.ret, end: end, care: bNot(eqBDD(charSym(0), mkInt(0)))}
	for _, ci := range ev.calls {
		if leaf[ci.name] {
			r.calls = append(r.calls, ci)
		}
	}
	return r
}

func nextOf(t *Term) *Term {
	if t.op == OIte {
		return mkIte(t.bdd, nextOf(t.args[0]), nextOf(t.args[1]))
	}
	return mkApp("next", types.Typ[types.Uint16], t)
}

// at gives what the dispatch does on the characters: the token or the scanner
// with its constant arguments, and the text given for a token.
func (r *lexRun) at(cs ...int64) (tok, text string) {
	m := map[*Term]*Term{}
	// the innermost first: each next(...) of a constant is a character of its own
	t := charSym(len(cs) - 1)
	for i := len(cs) - 1; i >= 0; i-- {
		m[charSym(i)] = mkInt(cs[i])
	}
	_ = t
	v := substTerm(r.ret, m)
	return r.describe(mkField(v, "0", nil)), r.describe(mkField(v, "1", nil))
}

func (r *lexRun) describe(t *Term) string {
	if k, ok := t.intConst(); ok {
		if n := r.l.tokens[k]; n != "" {
			return n
		}
		if k > 0 && k < 256 {
			return "'" + string(rune(k)) + "'"
		}
		return "0"
	}
	if t.op == OField && t.args[0].op == OApp && strings.HasPrefix(t.args[0].str, "scan:") {
		a := t.args[0]
		s := ""
		for f, k := range r.l.leaf {
			if "scan:"+f.String() == a.str {
				s = k
			}
		}
		for _, x := range a.args[1:] {
			s += " " + r.describeArg(x)
		}
		return "scan " + s
	}
	return short(pp(t), 100)
}

func (r *lexRun) describeArg(t *Term) string {
	if k, ok := t.intConst(); ok {
		if n := r.l.tokens[k]; n != "" {
			return n
		}
		if k > 32 && k < 127 {
			return "'" + string(rune(k)) + "'"
		}
	}
	return short(pp(t), 40)
}

var _ = token.NoPos
