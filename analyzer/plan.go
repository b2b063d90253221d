package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the planner's summary per dialect

// planRun is the summary of the planner for one dialect: the returned list,
// the returned error, and the terms naming the two parsed inputs.
type planRun struct {
	mode int
	name string
	ev   *Eval
	res  Result
	list *Term
	err  *Term
	em   []Emission
}

var modeNames = []string{"mysql", "postgres", "sqlite3", "mssql"}

// prov gives the set of access paths a term may stand for, rooted at D (the
// desired statements) and C (the current ones).
type provCtx struct {
	ev   *Eval
	memo map[*Term]map[string]bool
	busy map[*Term]bool
}

func newProv(ev *Eval) *provCtx {
	return &provCtx{ev: ev, memo: map[*Term]map[string]bool{}, busy: map[*Term]bool{}}
}

func provUnion(a map[string]bool, bs ...map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range a {
		out[k] = true
	}
	for _, b := range bs {
		for k := range b {
			out[k] = true
		}
	}
	return out
}

func provMap(a map[string]bool, f func(string) string) map[string]bool {
	out := map[string]bool{}
	for k := range a {
		out[f(k)] = true
	}
	return out
}

func shortType(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		return s[i+1:]
	}
	return strings.TrimPrefix(s, "*")
}

func (pc *provCtx) of(t *Term) map[string]bool {
	if r, ok := pc.memo[t]; ok {
		return r
	}
	if pc.busy[t] {
		return nil
	}
	pc.busy[t] = true
	r := pc.of1(t)
	delete(pc.busy, t)
	pc.memo[t] = r
	return r
}

func (pc *provCtx) of1(t *Term) map[string]bool {
	switch t.op {
	case OSym:
		return map[string]bool{t.str: true}
	case OApp:
		if t.str == "assert" {
			n := shortType(t.args[1].str)
			return provMap(pc.of(t.args[0]), func(s string) string { return s + "!" + n })
		}
		if t.str == "index" {
			return pc.elems(t.args[0])
		}
		if strings.HasPrefix(t.str, "pure:") || strings.HasPrefix(t.str, "call:") || len(t.args) >= 2 {
			for _, a := range t.args {
				if a.op == OSym && strings.HasPrefix(a.str, "$desiredSQL") {
					return map[string]bool{"D": true}
				}
				if a.op == OSym && strings.HasPrefix(a.str, "$currentSQL") {
					return map[string]bool{"C": true}
				}
			}
		}
		return nil
	case OField:
		b := t.args[0]
		if b.op == OApp && len(pc.of(b)) == 1 && (pc.of(b)["D"] || pc.of(b)["C"]) && t.str == "0" {
			return pc.of(b)
		}
		if b.op == OIte {
			return provUnion(pc.of(mkField(b.args[0], t.str, t.typ)), pc.of(mkField(b.args[1], t.str, t.typ)))
		}
		return provMap(pc.of(b), func(s string) string { return s + "." + t.str })
	case ODeref:
		return pc.of(t.args[0])
	case OFieldAddr:
		return provMap(pc.of(t.args[0]), func(s string) string { return s + "." + t.str })
	case OElem, OBElem, OFirst:
		return pc.elems(t.args[0])
	case OIte:
		return provUnion(pc.of(t.args[0]), pc.of(t.args[1]))
	case OIface:
		return pc.of(t.args[0])
	case OStruct:
		return pc.of(t.args[0])
	case OObj:
		out := map[string]bool{}
		for _, v := range pc.ev.objInit[t] {
			out = provUnion(out, pc.of(v))
		}
		return out
	case OLoopOut, OAcc:
		out := pc.of(t.args[1])
		if a, ok := pc.ev.accs[t]; ok {
			out = provUnion(out, pc.of(a.step))
		}
		if t.op == OLoopOut {
			out = provUnion(out, pc.of(t.args[2]))
		}
		return out
	case OList:
		out := map[string]bool{}
		for _, p := range t.args {
			out = provUnion(out, pc.of(p))
		}
		return out
	}
	return nil
}

// elems gives the paths of the elements of a collection.
func (pc *provCtx) elems(t *Term) map[string]bool {
	switch t.op {
	case OList:
		out := map[string]bool{}
		for _, p := range t.args {
			out = provUnion(out, pc.elems(p))
		}
		return out
	case OItem:
		return pc.of(t.args[0])
	case ORep:
		return pc.elems(t.args[1])
	case OIte:
		return provUnion(pc.elems(t.args[0]), pc.elems(t.args[1]))
	case OAcc, OLoopOut:
		if pc.busy[t] {
			return nil
		}
		pc.busy[t] = true
		defer delete(pc.busy, t)
		out := pc.elems(t.args[1])
		if a, ok := pc.ev.accs[t]; ok {
			out = provUnion(out, pc.elems(a.step))
		}
		if t.op == OLoopOut {
			out = provUnion(out, pc.elems(t.args[2]))
		}
		return out
	case OConst, OZero, OUndef:
		return nil
	case OField:
		if b := t.args[0]; b.op == OIte {
			return provUnion(pc.elems(mkField(b.args[0], t.str, t.typ)), pc.elems(mkField(b.args[1], t.str, t.typ)))
		}
	}
	return provMap(pc.of(t), func(s string) string { return s + "[]" })
}

func provStr(m map[string]bool) string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return strings.Join(o, "|")
}

// tmpl prints a statement template: constants, and holes by provenance.
func (pc *provCtx) tmpl(t *Term, d int) string {
	if s, ok := t.strConst(); ok {
		return s
	}
	if d <= 0 {
		return "…"
	}
	switch t.op {
	case OStr:
		var sb strings.Builder
		for _, p := range t.args {
			sb.WriteString(pc.tmpl(p, d-1))
		}
		return sb.String()
	case OIte:
		return "⟨" + pc.tmpl(t.args[0], d-1) + "¦" + pc.tmpl(t.args[1], d-1) + "⟩"
	case ORep:
		return "⟦" + pc.tmpl(t.args[1], d-1) + "⟧"
	case OItem:
		return pc.tmpl(t.args[0], d-1)
	}
	if pv := provStr(pc.of(t)); pv != "" {
		return "{" + pv + "}"
	}
	if t.op == OApp {
		var o []string
		for _, a := range t.args {
			o = append(o, pc.tmpl(a, d-1))
		}
		return "{" + t.str + "(" + strings.Join(o, ",") + ")}"
	}
	return "{?" + opNames[t.op] + ":" + short(t.str, 30) + "}"
}

var planMemo = map[int]*planRun{}

// comparisons are the functions of the planner that take objects by value,
// answer yes or no and do nothing else.
func (p *Program) comparisons() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.functions("schema") {
		sig := f.Signature
		if sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool]) {
			continue
		}
		objects := 0
		ok := true
		for i := 0; i < sig.Params().Len(); i++ {
			switch sig.Params().At(i).Type().Underlying().(type) {
			case *types.Struct:
				objects++
			case *types.Basic:
			default:
				ok = false
			}
		}
		if ok && objects > 0 && p.onlyAnswers(f, map[*ssa.Function]bool{}) {
			out[f] = true
		}
	}
	return out
}

// onlyAnswers: the function writes to nothing but its own variables, calls
// only functions that do so too, and does not panic.
func (p *Program) onlyAnswers(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Blocks == nil {
		return isPure(f.String())
	}
	if !p.inRepo(f) {
		return isPure(f.String())
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for a != nil {
					switch y := a.(type) {
					case *ssa.FieldAddr:
						a = y.X
						continue
					case *ssa.IndexAddr:
						a = y.X
						continue
					case *ssa.Slice:
						a = y.X
						continue
					case *ssa.Alloc:
						a = nil
						continue
					}
					return false
				}
			case *ssa.Panic, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" || b.Name() == "delete" {
						return false
					}
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || !p.onlyAnswers(g, seen) {
					return false
				}
			}
		}
	}
	return true
}

func (p *Program) plan(mode int) *planRun {
	if r, ok := planMemo[mode]; ok {
		return r
	}
	ev := p.diffEval()
	fn := p.fn("schema", "GenerateIdempotentDDLs")
	if fn == nil {
		panic("schema.GenerateIdempotentDDLs not found")
	}
	// what a comparison of two objects gives is not looked into here: it may
	// come out either way (which way it has to is decided by C12)
	for f := range p.comparisons() {
		ev.pureFns[f.String()] = true
	}
	inline, left := ev.inline, p.comparisons()
	ev.inline = func(g *ssa.Function) bool { return !left[g] && inline(g) }
	args := []*Term{mkInt(int64(mode))}
	for i, q := range fn.Params[1:] {
		args = append(args, mkSym([]string{"$desiredSQL", "$currentSQL"}[i], q.Type()))
	}
	res := ev.Call(fn, args, nil, newState(), 0, fmt.Sprintf("plan%d", mode))
	r := &planRun{mode: mode, name: modeNames[mode], ev: ev, res: res}
	r.list, r.err = mkField(res.ret, "0", nil), mkField(res.ret, "1", nil)
	r.em = emissions(r.list)
	planMemo[mode] = r
	return r
}
