package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// schemaErrors: in every function of the planner, by itself, a call that failed
// keeps the function from ending without an error. From each call that returns
// an error the paths on which that error is not nil are followed: they have to
// end in a return of it (or of another error made on the way) or in a panic,
// and the call must not be made again with the error still unlooked at.
func (c *Check) schemaErrors() {
	n := 0
	for _, fn := range c.p.functions("schema") {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := "a function value"
				if f := call.Common().StaticCallee(); f != nil {
					name = f.String()
				} else if call.Common().IsInvoke() {
					name = call.Common().Method.FullName()
				}
				if !returnsError(call.Common().Signature()) || exemptError(name) != "" || name == "fmt.Errorf" || name == "errors.New" {
					continue
				}
				if strings.HasPrefix(name, "strconv.") && !returnsError(fn.Signature) {
					// the number of a literal; its text is what counts (C10)
					continue
				}
				n++
				e, dropped := errorOf(call)
				why := "its error is dropped"
				if !dropped {
					why = followError(fn, b, i, call, e)
				}
				c.require(why == "", "error-is-returned", fn.Name()+"/"+strings.ReplaceAll(name, modPath+"/", ""), c.p.posStr(call.Pos()), "this call can fail and "+why)
			}
		}
	}
	c.floor("calls of the planner that can fail", n, 25)
}

func returnsError(s *types.Signature) bool {
	k := s.Results().Len()
	return k > 0 && fmt.Sprint(s.Results().At(k-1).Type()) == "error"
}

// errorOf is the error a call returns.
func errorOf(call ssa.CallInstruction) (ssa.Value, bool) {
	v, ok := call.(ssa.Value)
	if !ok {
		return nil, true
	}
	k := call.Common().Signature().Results().Len()
	if k == 1 {
		return v, len(*v.Referrers()) == 0
	}
	for _, r := range *v.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == k-1 {
			return x, len(*x.Referrers()) == 0
		}
		if _, ok := r.(*ssa.Return); ok {
			return v, false
		}
	}
	return nil, true
}

// followError follows an error that is not nil; it tells how it can get lost.
func followError(fn *ssa.Function, b *ssa.BasicBlock, i int, call ssa.CallInstruction, e ssa.Value) string {
	hasErr := returnsError(fn.Signature)
	type place struct {
		b    *ssa.BasicBlock
		from int
		held map[ssa.Value]bool // values known to be errors
	}
	key := func(p place) string {
		var l []string
		for v := range p.held {
			l = append(l, v.Name())
		}
		sort.Strings(l)
		return fmt.Sprint(p.b.Index, p.from, l)
	}
	// values kept in variables that are not registers
	cell := func(v ssa.Value) ssa.Value {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if al, ok := u.X.(*ssa.Alloc); ok {
				return al
			}
			if fv, ok := u.X.(*ssa.FreeVar); ok {
				return fv
			}
		}
		return v
	}
	var nonNil func(v ssa.Value, held map[ssa.Value]bool, depth int) bool
	nonNil = func(v ssa.Value, held map[ssa.Value]bool, depth int) bool {
		if held[v] || held[cell(v)] {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return true
		case *ssa.ChangeInterface:
			return nonNil(x.X, held, depth+1)
		case *ssa.Call:
			f := x.Common().StaticCallee()
			if f == nil {
				return false
			}
			if n := f.String(); n == "fmt.Errorf" || n == "errors.New" {
				return true
			}
			// a helper that is given the error and hands back an error
			if fmt.Sprint(x.Type()) == "error" {
				for _, a := range x.Call.Args {
					if held[a] {
						return depth < 3 && handsBack(f)
					}
				}
			}
		}
		return false
	}
	seen := map[string]bool{}
	work := []place{{b, i + 1, map[ssa.Value]bool{e: true}}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if k := key(p); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		held := map[ssa.Value]bool{}
		for v := range p.held {
			held[v] = true
		}
		ended := false
		for _, in := range p.b.Instrs[p.from:] {
			switch x := in.(type) {
			case *ssa.Store:
				if held[x.Val] {
					held[x.Addr] = true
				} else if held[x.Addr] {
					delete(held, x.Addr)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && held[x.X] {
					held[x] = true
				}
			case *ssa.Call:
				if x.Common().Value != nil && nonNil(x, held, 0) {
					held[x] = true
				}
				if x == call {
					delete(held, e)
					if len(held) == 0 {
						return "is made again before its error is looked at"
					}
				}
			case *ssa.Panic:
				ended = true
			case *ssa.Return:
				ended = true
				if !hasErr {
					return "the function has no error to return"
				}
				r := x.Results[len(x.Results)-1]
				if t, ok := r.(*ssa.Extract); ok && t.Tuple == e {
					continue
				}
				if !nonNil(r, held, 0) {
					return "the function can end without an error all the same"
				}
			}
		}
		if ended {
			continue
		}
		succs := p.b.Succs
		if f, ok := p.b.Instrs[len(p.b.Instrs)-1].(*ssa.If); ok {
			if isNil, known := nilTest(f.Cond, func(v ssa.Value) bool { return held[v] || held[cell(v)] }); known {
				if isNil {
					succs = succs[1:] // the test for nil fails
				} else {
					succs = succs[:1]
				}
			}
		}
		for _, s := range succs {
			k := 0
			for j, pr := range s.Preds {
				if pr == p.b {
					k = j
				}
			}
			next := map[ssa.Value]bool{}
			for v := range held {
				next[v] = true
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if held[ph.Edges[k]] {
					next[ph] = true
				} else {
					delete(next, ph)
				}
			}
			work = append(work, place{s, 0, next})
		}
	}
	return ""
}

// nilTest: a condition of the form v == nil (true) or v != nil (false).
func nilTest(cond ssa.Value, is func(ssa.Value) bool) (bool, bool) {
	neg := false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	x, ok := cond.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return false, false
	}
	isNil := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && (k.Value == nil || k.Value.Kind() == constant.Unknown)
	}
	if !(is(x.X) && isNil(x.Y) || is(x.Y) && isNil(x.X)) {
		return false, false
	}
	return (x.Op == token.EQL) != neg, true
}

// handsBack: given an error that is not nil, the function returns an error.
func handsBack(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	for _, q := range f.Params {
		if fmt.Sprint(q.Type()) != "error" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					v := r.Results[len(r.Results)-1]
					if k, ok := v.(*ssa.Const); ok && k.Value == nil {
						return false
					}
				}
			}
		}
	}
	return true
}
