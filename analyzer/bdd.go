package main

import "sort"

// Reduced ordered binary decision diagrams over boolean atoms. A guard is the
// control predicate under which a block is reached / a value is chosen; the
// representation is canonical, so equality and implication are decided by
// construction (no solver is involved).

type BDD int32

const (
	False BDD = 0
	True  BDD = 1
)

type bddNode struct {
	v      int32
	lo, hi BDD
}

var (
	bddNodes  = []bddNode{{1 << 30, 0, 0}, {1 << 30, 1, 1}}
	bddUnique = map[bddNode]BDD{}
	iteCache  = map[[3]BDD]BDD{}
	atomTerms []*Term // variable index -> atom term
	atomIndex = map[*Term]int32{}
)

func bddMk(v int32, lo, hi BDD) BDD {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if r, ok := bddUnique[n]; ok {
		return r
	}
	r := BDD(len(bddNodes))
	bddNodes = append(bddNodes, n)
	bddUnique[n] = r
	return r
}

func bddVar(v int32) BDD { return bddMk(v, False, True) }

func atomBDD(t *Term) BDD {
	i, ok := atomIndex[t]
	if !ok {
		i = int32(len(atomTerms))
		atomTerms = append(atomTerms, t)
		atomIndex[t] = i
	}
	return bddVar(i)
}

func min3(a, b, c int32) int32 {
	if b < a {
		a = b
	}
	if c < a {
		a = c
	}
	return a
}

func bddIte(f, g, h BDD) BDD {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := [3]BDD{f, g, h}
	if r, ok := iteCache[k]; ok {
		return r
	}
	v := min3(bddNodes[f].v, bddNodes[g].v, bddNodes[h].v)
	co := func(x BDD, hi bool) BDD {
		if bddNodes[x].v != v {
			return x
		}
		if hi {
			return bddNodes[x].hi
		}
		return bddNodes[x].lo
	}
	r := bddMk(v, bddIte(co(f, false), co(g, false), co(h, false)), bddIte(co(f, true), co(g, true), co(h, true)))
	iteCache[k] = r
	return r
}

func bNot(a BDD) BDD         { return bddIte(a, False, True) }
func bAnd(a, b BDD) BDD      { return bddIte(a, b, False) }
func bOr(a, b BDD) BDD       { return bddIte(a, True, b) }
func bIff(a, b BDD) BDD      { return bddIte(a, b, bNot(b)) }
func bImplies(a, b BDD) bool { return bAnd(a, bNot(b)) == False }

// bSimplify returns some function that agrees with f wherever care holds
// (Coudert-Madre restrict), preferring fewer atoms.
func bSimplify(f, care BDD) BDD {
	memo := map[[2]BDD]BDD{}
	var rec func(f, c BDD) BDD
	rec = func(f, c BDD) BDD {
		if c == False || c == True || f == True || f == False {
			return f
		}
		k := [2]BDD{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		vf, vc := bddNodes[f].v, bddNodes[c].v
		var r BDD
		if vc < vf {
			r = rec(f, bOr(bddNodes[c].lo, bddNodes[c].hi))
		} else {
			cl, ch := c, c
			if vc == vf {
				cl, ch = bddNodes[c].lo, bddNodes[c].hi
			}
			switch {
			case cl == False:
				r = rec(bddNodes[f].hi, ch)
			case ch == False:
				r = rec(bddNodes[f].lo, cl)
			default:
				r = bddMk(vf, rec(bddNodes[f].lo, cl), rec(bddNodes[f].hi, ch))
			}
		}
		memo[k] = r
		return r
	}
	if care == False {
		return f
	}
	if bImplies(care, f) {
		return True
	}
	if bAnd(care, f) == False {
		return False
	}
	return rec(f, care)
}

func bSupport(f BDD) []*Term {
	seen := map[BDD]bool{}
	vars := map[int32]bool{}
	var rec func(f BDD)
	rec = func(f BDD) {
		if f <= 1 || seen[f] {
			return
		}
		seen[f] = true
		vars[bddNodes[f].v] = true
		rec(bddNodes[f].lo)
		rec(bddNodes[f].hi)
	}
	rec(f)
	var is []int
	for v := range vars {
		is = append(is, int(v))
	}
	sort.Ints(is)
	var out []*Term
	for _, i := range is {
		out = append(out, atomTerms[i])
	}
	return out
}

func bRestrict(f BDD, atom *Term, val bool) BDD {
	i, ok := atomIndex[atom]
	if !ok {
		return f
	}
	memo := map[BDD]BDD{}
	var rec func(f BDD) BDD
	rec = func(f BDD) BDD {
		n := bddNodes[f]
		if f <= 1 || n.v > i {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		var r BDD
		if n.v == i {
			if val {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = bddMk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[f] = r
		return r
	}
	return rec(f)
}

// bExists quantifies an atom away.
func bExists(f BDD, atom *Term) BDD {
	return bOr(bRestrict(f, atom, true), bRestrict(f, atom, false))
}

// bMap rebuilds f with every atom replaced by fn(atom).
func bMap(f BDD, fn func(*Term) BDD) BDD {
	memo := map[BDD]BDD{}
	vm := map[int32]BDD{}
	var rec func(f BDD) BDD
	rec = func(f BDD) BDD {
		if f <= 1 {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := bddNodes[f]
		v, ok := vm[n.v]
		if !ok {
			v = fn(atomTerms[n.v])
			vm[n.v] = v
		}
		r := bddIte(v, rec(n.hi), rec(n.lo))
		memo[f] = r
		return r
	}
	return rec(f)
}

// bPaths enumerates the prime-ish cubes (paths to True), up to max.
func bPaths(f BDD, max int) [][]struct {
	Atom *Term
	Val  bool
} {
	type lit = struct {
		Atom *Term
		Val  bool
	}
	var out [][]lit
	var cur []lit
	var rec func(f BDD)
	rec = func(f BDD) {
		if f == False || len(out) >= max {
			return
		}
		if f == True {
			out = append(out, append([]lit(nil), cur...))
			return
		}
		n := bddNodes[f]
		cur = append(cur, lit{atomTerms[n.v], true})
		rec(n.hi)
		cur[len(cur)-1].Val = false
		rec(n.lo)
		cur = cur[:len(cur)-1]
	}
	rec(f)
	return out
}
