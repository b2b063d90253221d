package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---- package-level maps with constant contents

var constMaps map[string]map[string]*Term

// loadConstMaps finds the global maps that are filled with constants when the
// package is initialised and never changed or handed out afterwards.
func (p *Program) loadConstMaps() {
	constMaps = map[string]map[string]*Term{}
	bad := map[string]bool{}
	mk := map[ssa.Value]*ssa.Global{}
	fns := ssautil.AllFunctions(p.prog)
	for fn := range fns {
		if !p.inRepo(fn) || fn.Name() != "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if m, ok := st.Val.(*ssa.MakeMap); ok {
							if constMaps[g.String()] != nil {
								bad[g.String()] = true
							}
							mk[m] = g
							constMaps[g.String()] = map[string]*Term{}
						}
					}
				}
			}
		}
	}
	for m, g := range mk {
		for _, u := range *m.Referrers() {
			switch x := u.(type) {
			case *ssa.MapUpdate:
				k, ok1 := x.Key.(*ssa.Const)
				v, ok2 := x.Value.(*ssa.Const)
				if !ok1 || !ok2 || x.Map != m || k.Value == nil || v.Value == nil {
					bad[g.String()] = true
					continue
				}
				constMaps[g.String()][constTerm(k.Value, k.Type()).str] = constTerm(v.Value, v.Type())
			case *ssa.Store:
				if x.Addr != ssa.Value(g) {
					bad[g.String()] = true
				}
			default:
				bad[g.String()] = true
			}
		}
	}
	// only read elsewhere
	for fn := range fns {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || constMaps[g.String()] == nil {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						for _, u := range *x.Referrers() {
							switch y := u.(type) {
							case *ssa.Lookup:
							case *ssa.Range:
							case *ssa.Call:
								if bi, ok := y.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
									bad[g.String()] = true
								}
							default:
								bad[g.String()] = true
							}
						}
					case *ssa.Store:
						if fn.Name() != "init" {
							bad[g.String()] = true
						}
					default:
						bad[g.String()] = true
					}
				}
			}
		}
	}
	for g := range bad {
		delete(constMaps, g)
	}
}

// builtMap: entry by entry from an empty map.
func builtMap(m *Term) bool {
	return m.op == OApp && (m.str == "emptymap" || m.str == "mapset" || m.str == "mapdel")
}

func foldLookup(t *Term, args []*Term) *Term {
	if m := args[0]; m.op == OIte && (builtMap(m.args[0]) || builtMap(m.args[1])) {
		return mkIte(m.bdd, rebuildApp(t, []*Term{m.args[0], args[1]}), rebuildApp(t, []*Term{m.args[1], args[1]}))
	} else if builtMap(m) {
		absent := zeroTerm(t.typ)
		if t.str == "haskey" {
			absent = tFalse
		}
		if m.str == "emptymap" {
			return absent
		}
		v := absent
		if m.str == "mapset" {
			v = m.args[2]
			if t.str == "haskey" {
				v = tTrue
			}
		}
		return mkIte(eqBDD(m.args[1], args[1]), v, rebuildApp(t, []*Term{m.args[0], args[1]}))
	}
	if constMaps == nil || args[0].op != OApp || !strings.HasPrefix(args[0].str, "global:") {
		return nil
	}
	m, ok := constMaps[strings.TrimPrefix(args[0].str, "global:")]
	if !ok {
		return nil
	}
	k := args[1]
	if k.op == OIte && termSmall(k) || k.op == OIte {
		a := rebuildApp(t, []*Term{args[0], k.args[0]})
		b := rebuildApp(t, []*Term{args[0], k.args[1]})
		return mkIte(k.bdd, a, b)
	}
	if k.op != OConst {
		if k.op != OSym && len(m) > 24 {
			return nil
		}
		// one case per key
		r := zeroTerm(t.typ)
		if t.str == "haskey" {
			r = tFalse
		}
		for _, s := range sortedKeys(m) {
			if !strings.HasPrefix(s, "s:") {
				return nil
			}
			b := eqBDD(k, mkStrC(s[2:]))
			v := m[s]
			if t.str == "haskey" {
				v = tTrue
			}
			r = mkIte(b, v, r)
		}
		return r
	}
	v, has := m[k.str]
	if t.str == "haskey" {
		return mkBool(has)
	}
	if has {
		return v
	}
	return zeroTerm(t.typ)
}
