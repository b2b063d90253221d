package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

func pp(t *Term) string { return ppd(t, 12) }

func ppd(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d <= 0 {
		return "…"
	}
	r := func(x *Term) string { return ppd(x, d-1) }
	rs := func(xs []*Term) string {
		var o []string
		for _, x := range xs {
			o = append(o, r(x))
		}
		return strings.Join(o, ", ")
	}
	switch t.op {
	case OConst:
		if t == tNil {
			return "nil"
		}
		if s, ok := t.strConst(); ok {
			return strconv.Quote(s)
		}
		return t.str[2:]
	case OZero:
		return "zero"
	case OUndef:
		return "⊥"
	case OSym:
		return t.str
	case OGlobal:
		return "&" + t.str
	case OObj:
		return "obj(" + t.str + ")"
	case OField:
		return r(t.args[0]) + "." + t.str
	case ODeref:
		return "*" + r(t.args[0])
	case OFieldAddr:
		return "&" + r(t.args[0]) + "." + t.str
	case OElemAddr:
		return "&" + r(t.args[0]) + "[" + r(t.args[1]) + "]"
	case OElem:
		return fmt.Sprintf("elem%d(%s)", t.n, r(t.args[0]))
	case OIdx:
		return fmt.Sprintf("idx%d(%s)", t.n, r(t.args[0]))
	case OBElem:
		return fmt.Sprintf("e%d∈(%s)", t.n, r(t.args[0]))
	case OBIdx:
		return fmt.Sprintf("i%d", t.n)
	case OFirst, OFirstIdx:
		return fmt.Sprintf("%s%s[e%d∈%s | %s]", opNames[t.op], t.str, t.n, r(t.args[0]), ppb(t.bdd, d-1))
	case OExists:
		return fmt.Sprintf("∃e%d∈%s. (%s)", t.n, r(t.args[0]), ppb(t.bdd, d-1))
	case OApp:
		return t.str + "(" + rs(t.args) + ")"
	case OStr:
		var o []string
		for _, x := range t.args {
			o = append(o, r(x))
		}
		return strings.Join(o, "+")
	case OList:
		return "[" + rs(t.args) + "]"
	case OItem:
		return "‹" + r(t.args[0]) + "›"
	case ORep:
		return fmt.Sprintf("rep:%s e%d∈%s {%s}", t.str, t.n, r(t.args[0]), r(t.args[1]))
	case OIte:
		return fmt.Sprintf("(%s ? %s : %s)", ppb(t.bdd, d-1), r(t.args[0]), r(t.args[1]))
	case OBool:
		return "{" + ppb(t.bdd, d-1) + "}"
	case OTuple:
		return "(" + rs(t.args) + ")"
	case OStruct:
		var o []string
		for i, k := range t.keys {
			o = append(o, k+":"+r(t.args[i+1]))
		}
		return r(t.args[0]) + "{" + strings.Join(o, ", ") + "}"
	case OIface:
		return r(t.args[0])
	case OClosure:
		return "fn:" + t.fn.String()
	case OMu:
		return "mu:" + t.str
	case OAcc:
		return "acc:" + t.str
	case OLoopOut:
		return "loopout:" + t.str
	}
	return opNames[t.op] + ":" + t.str + "(" + rs(t.args) + ")"
}

func ppb(b BDD, d int) string {
	if b == True {
		return "⊤"
	}
	if b == False {
		return "⊥"
	}
	if d <= 0 {
		return "…"
	}
	paths := bPathsStr(b, d, 6)
	return paths
}

// bPathsStr prints up to max cubes.
func bPathsStr(b BDD, d, max int) string {
	var cubes []string
	var rec func(b BDD, cur []string)
	rec = func(b BDD, cur []string) {
		if len(cubes) > max || b == False {
			return
		}
		if b == True {
			cubes = append(cubes, strings.Join(cur, " ∧ "))
			return
		}
		n := bddNodes[b]
		s := ppd(atomTerms[n.v], d-1)
		rec(n.hi, append(append([]string{}, cur...), s))
		rec(n.lo, append(append([]string{}, cur...), "¬"+s))
	}
	rec(b, nil)
	if len(cubes) > max {
		cubes = append(cubes[:max], "…")
	}
	return strings.Join(cubes, " ∨ ")
}

var _ = sort.Strings

// dumpPlan prints a list term as an indented tree.
func dumpPlan(t *Term, ind string, sb *strings.Builder, depth int) {
	switch t.op {
	case OList:
		for _, p := range t.args {
			dumpPlan(p, ind, sb, depth)
		}
	case OIte:
		fmt.Fprintf(sb, "%sif %s\n", ind, ppb(t.bdd, depth))
		dumpPlan(t.args[0], ind+"  ", sb, depth)
		if t.args[1] != tEmptyList {
			fmt.Fprintf(sb, "%selse\n", ind)
			dumpPlan(t.args[1], ind+"  ", sb, depth)
		}
	case ORep:
		fmt.Fprintf(sb, "%sfor e%d in %s\n", ind, t.n, ppd(t.args[0], depth))
		dumpPlan(t.args[1], ind+"  ", sb, depth)
	case OItem:
		fmt.Fprintf(sb, "%s* %s\n", ind, ppd(t.args[0], depth))
	default:
		fmt.Fprintf(sb, "%s? %s\n", ind, ppd(t, depth))
	}
}
