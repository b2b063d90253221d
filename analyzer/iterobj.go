package main

// Objects made by the iterations of a loop: an object carries the elements of
// the loops it was made in, and what it holds when its iteration is over is
// remembered, as is what later iterations store to cells they reach through
// their own element.

import (
	"sort"
	"strconv"
)

type iterRec struct {
	dom   *Term
	depth int
	elems []*Term // of the loops around, the innermost last
	key   *Term   // the cell
	val   *Term
}

// iteration: the elements of the loops under way.
func (ev *Eval) iteration() []*Term {
	if ev.iterObj == nil {
		return nil
	}
	var r []*Term
	for _, l := range ev.loops {
		r = append(r, mkElem(l.dom, l.depth, nil))
	}
	return r
}

func objID(o *Term) string { return o.str + "#" + strconv.Itoa(o.n) }

func (ev *Eval) recordIter(bst, S *State, dom *Term, depth int, sub map[*Term]*Term) {
	e := mkElem(dom, depth, nil)
	elems := append(ev.iteration(), e)
	ks := map[any]bool{}
	deltaKeys(bst, S, ks)
	var keys []*Term
	for k := range ks {
		if t, ok := k.(*Term); ok && mentions(t, e) {
			keys = append(keys, t)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		v, _ := bst.get(k)
		r := &iterRec{dom, depth, elems, substTerm(k, sub), substTerm(v, sub)}
		if k.op == OObj {
			ev.iterObj[objID(k)] = r
		} else if v != k {
			seen := false // a loop within a loop is evaluated more than once
			for i, o := range ev.iterEff {
				if o.key == r.key && o.dom == r.dom && o.depth == r.depth {
					ev.iterEff[i], seen = r, true
				}
			}
			if !seen {
				ev.iterEff = append(ev.iterEff, r)
			}
		}
	}
}

// iterValue is what an object made in an iteration holds in the end: what it
// held when its iteration was over, and what later loops appended to its lists
// after finding it by a key.
func (ev *Eval) iterValue(o *Term) *Term {
	r := ev.iterObj[objID(o)]
	if r == nil || len(r.elems) != len(o.args) || len(r.key.args) != len(o.args) {
		return nil
	}
	m := map[*Term]*Term{}
	for i, e := range r.key.args {
		m[e] = o.args[i]
	}
	val := r.val
	for _, f := range ev.iterEff {
		if f.key.op != OApp || f.key.str != "lookup" || len(f.elems) != len(r.elems) {
			continue
		}
		outer := true
		for i, e := range f.elems[:len(f.elems)-1] {
			outer = outer && e == r.elems[i]
		}
		k := ev.mapKeyOf(f.key.args[0], r.key)
		if !outer || k == nil {
			continue
		}
		same := eqBDD(f.key.args[1], k)
		old := mkDeref(f.key, derefType(f.key.typ))
		fs, ok := changedFields(old, f.val)
		if !ok {
			return nil
		}
		for _, fl := range fs {
			was := mkField(old, fl, fieldType(old.typ, fl))
			add := appended(mkField(f.val, fl, nil), was)
			if add == nil {
				return nil
			}
			now := mkField(val, fl, nil)
			val = mkUpdate(val, fl, mkList(now, mkRep("list", f.dom, f.depth, mkIte(same, add, tEmptyList))), nil)
		}
	}
	return substTerm(val, m)
}

// mapKeyOf: the key under which a map built by a loop holds the object.
func (ev *Eval) mapKeyOf(m, o *Term) *Term {
	if m.op != OLoopOut || len(m.args) < 3 {
		return nil
	}
	ac, ok := ev.accs[m.args[2]]
	if !ok || ac.step.op != OApp || ac.step.str != "mapset" || ac.step.args[2] != o {
		return nil
	}
	return ac.step.args[1]
}

// appended: what a list has after an older one.
func appended(v, old *Term) *Term {
	if v == old {
		return tEmptyList
	}
	switch v.op {
	case OIte:
		a, b := appended(v.args[0], old), appended(v.args[1], old)
		if a == nil || b == nil {
			return nil
		}
		return mkIte(v.bdd, a, b)
	case OList:
		if v.args[0] == old {
			return mkList(v.args[1:]...)
		}
	}
	return nil
}
