package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- the planner's summary specialised to given statements
//
// The planner is summarised once per dialect for all inputs (plan.go). For
// questions about one object the same summary is specialised: the two parsed
// inputs are lists of statements whose kinds are known and whose attributes
// stay free.

// schemaType is a named type of the planner's model.
func (p *Program) schemaType(name string) types.Type {
	t := p.pkg("schema").Type(name)
	if t == nil {
		panic("type schema." + name + " not found")
	}
	return t.Type()
}

func (p *Program) symOf(name, typ string) *Term { return mkSym(name, p.schemaType(typ)) }

// stmtTerm is a parsed statement of the given kind.
func (p *Program) stmtTerm(kind string, fields map[string]*Term) *Term {
	t := p.schemaType(kind)
	v := zeroTerm(t)
	for _, k := range sortedKeys(fields) {
		v = mkUpdate(v, k, fields[k], t)
	}
	pt := types.NewPointer(t)
	return mkIface(mkApp("&", pt, v), pt)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// mkPtr is a pointer to a value.
func mkPtr(v *Term, typ types.Type) *Term { return mkApp("&", types.NewPointer(typ), v) }

func items(ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		ps = append(ps, mkItem(t))
	}
	if len(ps) == 0 {
		return tEmptyList
	}
	return mkList(ps...)
}

// planFor is the plan for the given desired and current statements.
func (p *Program) planFor(mode int, desired, current []*Term, withErr bool) *planRun {
	return p.planForCare(mode, desired, current, withErr, True)
}

// planForCare is planFor under an assumption about the statements.
func (p *Program) planForCare(mode int, desired, current []*Term, withErr bool, care BDD) *planRun {
	ev := p.diffEval()
	ev.care = care
	ev.unroll = true
	ev.noErr = !withErr
	prod := map[string]bool{}
	for f := range p.ddlProducers() {
		prod[f.String()] = true
	}
	seen := 0
	ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
		if !prod[name] {
			return nil, false
		}
		for _, a := range args {
			if a.op == OSym && strings.HasPrefix(a.str, "$desiredSQL") {
				seen |= 1
				return tuple(items(desired...), tNil), true
			}
			if a.op == OSym && strings.HasPrefix(a.str, "$currentSQL") {
				seen |= 2
				return tuple(items(current...), tNil), true
			}
		}
		return nil, false
	}
	fn := p.fn("schema", "GenerateIdempotentDDLs")
	args := []*Term{mkInt(int64(mode))}
	for i, q := range fn.Params[1:] {
		args = append(args, mkSym([]string{"$desiredSQL", "$currentSQL"}[i], q.Type()))
	}
	res := ev.Call(fn, args, nil, newState(), 0, fmt.Sprintf("plan%d", mode))
	r := &planRun{mode: mode, name: modeNames[mode], ev: ev, res: res}
	if seen != 3 {
		panic("the planner does not parse both texts through one function")
	}
	r.list, r.err = mkField(res.ret, "0", nil), mkField(res.ret, "1", nil)
	r.em = emissions(r.list)
	return r
}

// ---- symbolic attributes

// builder makes a value of a model type whose leaves are free, named after
// their access path. Optional parts (pointers) are present or absent freely.
type builder struct {
	p    *Program
	side func(path string) string // whose attribute this is
	tag  int64                    // pointers of different builders differ
	set  map[string]*Term         // values for given paths
	lens map[string]int           // known lengths of lists
}

func sideName(s string) func(string) string { return func(string) string { return s } }

func (b *builder) leaf(path string, t types.Type) *Term {
	return mkSym("$"+b.side(path)+"."+path, t)
}

func (b *builder) has(path string) BDD {
	if v, ok := b.set[path]; ok {
		return bNot(isNilBDD(v))
	}
	return atomBDD(mkSym("$"+b.side(path)+".has:"+path, types.Typ[types.Bool]))
}

func (b *builder) val(path string, t types.Type) *Term {
	if v, ok := b.set[path]; ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		v := mkApp("&", t, b.val(path, u.Elem()), mkInt(b.tag))
		return mkIte(b.has(path), v, tNil)
	case *types.Struct:
		s := zeroTerm(t)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s = mkUpdate(s, f.Name(), b.val(path+"."+f.Name(), f.Type()), t)
		}
		return s
	case *types.Slice:
		if n, ok := b.lens[path]; ok {
			var l []*Term
			for i := 0; i < n; i++ {
				l = append(l, b.val(fmt.Sprintf("%s[%d]", path, i), u.Elem()))
			}
			return items(l...)
		}
	}
	return b.leaf(path, t)
}

// get is the term at a path, as val made it.
func (b *builder) get(path string) *Term {
	if v, ok := b.set[path]; ok {
		return v
	}
	return b.leaf(path, nil)
}

// pair is an object in its desired and its current state. The attributes under
// diff differ freely; every other attribute is the same on both sides.
type pair struct {
	mode   int
	diff   []string // nil: everything
	only   bool     // only what is under diff
	d, c   *builder
	df, cf map[string]*Term // more fields of the enclosing table
	k      map[string]*Term // values of the unchanged companion
	p      *Program
}

func newPair(p *Program, mode int, only bool, diff ...string) *pair {
	x := &pair{mode: mode, diff: diff, only: only, p: p, k: map[string]*Term{}, df: map[string]*Term{}, cf: map[string]*Term{}}
	x.d = &builder{p: p, side: sideName("d"), tag: 1, set: map[string]*Term{}, lens: map[string]int{}}
	x.c = &builder{p: p, side: func(path string) string {
		if !only {
			return "c"
		}
		for _, q := range diff {
			if path == q || strings.HasPrefix(path, q+".") || strings.HasPrefix(path, q+"[") {
				return "c"
			}
		}
		return "d"
	}, tag: 2, set: map[string]*Term{}, lens: map[string]int{}}
	return x
}

// both sets a path on both sides.
func (x *pair) both(path string, v *Term) { x.d.set[path], x.c.set[path] = v, v }
func (x *pair) ends(path string, d, c *Term) {
	x.d.set[path], x.c.set[path] = d, c
}
func (x *pair) eq(path string) BDD { return eqBDD(x.c.get(path), x.d.get(path)) }
func (x *pair) ne(path string) BDD { return bNot(x.eq(path)) }
func (x *pair) len(path string, n int) {
	x.d.lens[path], x.c.lens[path] = n, n
}

func bAll(bs ...BDD) BDD {
	r := True
	for _, b := range bs {
		r = bAnd(r, b)
	}
	return r
}
func bAny(bs ...BDD) BDD {
	r := False
	for _, b := range bs {
		r = bOr(r, b)
	}
	return r
}
func isTrueBDD(t *Term) BDD { return toBDD(t) }

func structOf(t types.Type, fields map[string]*Term) *Term {
	v := zeroTerm(t)
	for _, k := range sortedKeys(fields) {
		v = mkUpdate(v, k, fields[k], t)
	}
	return v
}

// tables adds the fields of the enclosing tables.
func (x *pair) tables(f map[string]*Term) (map[string]*Term, map[string]*Term) {
	d, c := map[string]*Term{}, map[string]*Term{}
	for k, v := range f {
		d[k], c[k] = v, v
	}
	for k, v := range x.df {
		d[k] = v
	}
	for k, v := range x.cf {
		c[k] = v
	}
	return d, c
}
