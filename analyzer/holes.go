package main

import (
	"strings"
)

// holeCtx is a text taken from the schema inside a statement: the constant
// text on either side of it, and the characters doubled in it.
type holeCtx struct {
	core        *Term
	left, right string
	dbl         []string
	apps        []string
}

// holesOf visits every place of a statement template that is filled from the
// schema.
func holesOf(t *Term, left, right string, f func(h holeCtx)) {
	switch t.op {
	case OConst:
		return
	case OItem:
		holesOf(t.args[0], left, right, f)
		return
	case OIte:
		holesOf(t.args[0], left, right, f)
		holesOf(t.args[1], left, right, f)
		return
	case OStr:
		for i, q := range t.args {
			l, r := left, right
			if i > 0 {
				l, _ = t.args[i-1].strConst()
			}
			if i+1 < len(t.args) {
				r, _ = t.args[i+1].strConst()
			}
			holesOf(q, l, r, f)
		}
		return
	case ORep:
		if t.str == "str" || t.str == "list" {
			holesOf(t.args[1], "", "", f)
			return
		}
	case OList:
		for _, q := range t.args {
			holesOf(q, "", "", f)
		}
		return
	}
	h := holeCtx{left: left, right: right}
	for {
		if t.op == OApp && t.str == "strings.Replace" && len(t.args) == 4 {
			a, ok1 := t.args[1].strConst()
			b, ok2 := t.args[2].strConst()
			n, ok3 := t.args[3].intConst()
			if ok1 && ok2 && ok3 && n == -1 && b == a+a {
				h.dbl = append(h.dbl, a)
				t = t.args[0]
				continue
			}
		}
		if t.op == OApp && len(t.args) > 0 {
			switch t.str {
			case "index", "strings.SplitN", "strings.Split", "strings.TrimSpace", "strings.TrimSuffix", "strings.Join", "strings.ToUpper", "strings.ToLower", "fmt%d", "strings.ReplaceAll", "strings.Replace":
				h.apps = append(h.apps, t.str)
				if t.str != "fmt%d" && (t.args[0].op == OStr || t.args[0].op == OIte || t.args[0].op == ORep || t.args[0].op == OList) {
					holesOf(t.args[0], left, right, f)
					return
				}
				t = t.args[0]
				continue
			}
		}
		break
	}
	h.core = t
	f(h)
}

func lastChar(s string) string {
	if s == "" {
		return ""
	}
	return s[len(s)-1:]
}
func firstChar(s string) string {
	if s == "" {
		return ""
	}
	return s[:1]
}

// fieldOf is the name of the field a text comes from.
func fieldOf(t *Term) string {
	for t.op == OApp && len(t.args) > 0 && (t.str == "conv" || t.str == "index") {
		t = t.args[0]
	}
	switch t.op {
	case OField:
		return t.str
	case OElem, ODeref:
		return fieldOf2(t)
	}
	return ""
}

func fieldOf2(t *Term) string {
	if t.op == ODeref {
		return fieldOf(t.args[0])
	}
	return "elem"
}

func init() {
	checks0["DBGHOLES"] = func(c *Check) {
		for m := 0; m < 4; m++ {
			r := c.p.plan(m)
			pc := newProv(r.ev)
			n := map[string]int{}
			for _, e := range r.em {
				holesOf(e.item, "", "", func(h holeCtx) {
					pv := provStr(pc.of(h.core))
					if pv == "" {
						pv = fieldOf(h.core) + "?" + short(pp(h.core), 60)
					}
					pv = strings.ReplaceAll(pv, "!", "!")
					n[lastChar(h.left)+" {"+short(pv, 150)+"} "+firstChar(h.right)+" dbl "+strings.Join(h.dbl, "")+" "+strings.Join(h.apps, ",")]++
				})
			}
			println("=====", modeNames[m])
			for _, k := range sortedKeys(n) {
				println(n[k], k)
			}
		}
	}
}
