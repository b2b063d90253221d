package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() { checks0["C02"] = checkC02 }

var removalVerb = regexp.MustCompile(`(?i)\b(drop|delete|truncate|remove|purge|unset)\b`)

var onDelete = regexp.MustCompile(`(?i)\bon\s+(delete|update)\b`)

func removing(s string) bool { return removalVerb.MatchString(onDelete.ReplaceAllString(s, "")) }

// constText joins the constant parts of a template, holes shown as ◦.
func constText(t *Term) string {
	if s, ok := t.strConst(); ok {
		return s
	}
	switch t.op {
	case OStr:
		var sb strings.Builder
		for _, p := range t.args {
			sb.WriteString(constText(p))
		}
		return sb.String()
	case OIte:
		a, b := constText(t.args[0]), constText(t.args[1])
		if a == b {
			return a
		}
		return "⟨" + a + "¦" + b + "⟩"
	case OApp:
		if w := wrapped(t); w != nil {
			return constText(w)
		}
	}
	return "◦"
}

// wrapped sees through string functions that keep the text.
func wrapped(t *Term) *Term {
	if t.op != OApp || len(t.args) == 0 {
		return nil
	}
	switch t.str {
	case "strings.TrimSuffix", "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.TrimPrefix", "strings.Trim":
		return t.args[0]
	}
	return nil
}

// variants expands the alternatives of a template with their conditions, up
// to a limit; beyond it the remaining alternatives stay inside.
type variant struct {
	g    BDD
	text *Term
}

func checkC02(c *Check) {
	c.explain = append(c.explain, "In each command, the guard of every statement execution is specialised to --skip-drop and to a statement of the form X+\"DROP\"+Y, and to every statement template of the planner whose constant text contains a removing verb in any letter case; it must become unsatisfiable. The preview must mark the same statements differently from executed ones.")
	type removal struct {
		mode int
		t    *Term
		g    BDD
		key  string
	}
	var rem []removal
	for m := 0; m < 4; m++ {
		pr := c.p.plan(m)
		n := 0
		for _, e := range pr.em {
			txt := constText(e.item)
			if !removing(txt) {
				continue
			}
			rem = append(rem, removal{m, e.item, e.g, pr.name + ": " + short(strings.Join(strings.Fields(txt), " "), 90)})
			n++
		}
		c.floor("removing templates ("+pr.name+")", n, []int{10, 10, 2, 10}[m])
	}
	execs := 0
	for _, r := range c.commands(false) {
		mode := -1
		for i, n := range modeNames {
			if n == r.dialect {
				mode = i
			}
		}
		skip, ok := r.flagBDD("skip-drop")
		if !c.require(ok, "flag-honoured", r.cmd+"/skip-drop", "", "no decision of the command depends on --skip-drop") {
			continue
		}
		dry, _ := r.flagBDD("dry-run")
		exp, _ := r.flagBDD("export")
		trace, nm := namePlan(r.trace)
		skip = substBDD(skip, nm)
		elem := mk(Term{op: OSym, str: "$stmt"})
		pre, post := mkSym("$pre", nil), mkSym("$post", nil)
		drop := mkStr(pre, mkStrC("DROP"), post)
		for _, e := range emissions(trace) {
			n := evName(e.item)
			if !isSQL(n) || sqlExecs[method(n)] == 0 {
				continue
			}
			execs++
			m := map[*Term]*Term{}
			inPlan := false
			for _, l := range e.loops {
				if planDom(l.args[0]) {
					inPlan = true
					for k, v := range openMap(l, elem, nil) {
						m[k] = v
					}
				}
			}
			g := substBDD(e.g, m)
			text := substTerm(e.item.args[sqlExecs[method(n)]], m)
			if text.op == OFirst && planDom(text.args[0]) { // the statement at which the loop was left
				inPlan = true
				g = bAnd(g, openAtomBody(text, elem, nil))
				text = elem
			}
			if !inPlan {
				cst, isC := text.strConst()
				okc := isC && !removing(cst) || unsat(bAnd(g, skip))
				c.require(okc, "executed-text", r.cmd+"/"+short(pp(text), 60), r.cmd, "a statement that is not an element of the plan is executed with --skip-drop: "+short(pp(text), 120))
				continue
			}
			// the filter must look at the very text that is executed
			gd := substBDD(g, map[*Term]*Term{elem: drop})
			bad := bAnd(gd, skip)
			c.require(unsat(bad), "drop-filtered", r.cmd+"/"+n, r.cmd, "with --skip-drop, a statement containing DROP is executed when "+ppb(bad, 4))
			for _, x := range rem {
				if x.mode != mode {
					continue
				}
				gx := bAnd(substBDD(g, map[*Term]*Term{elem: x.t}), skip)
				c.require(unsat(gx), "removal-recognised", x.key, r.cmd, fmt.Sprintf("with --skip-drop, %s still executes the planner's removing statement %q: the filter does not recognise it", r.cmd, constText(x.t)))
			}
		}
		// preview: the marking of a skipped statement differs
		ok2 := bAnd(substBDD(r.res.alive, nm), bAnd(bNot(substBDD(exp, nm)), substBDD(dry, nm)))
		for _, v := range []struct {
			what string
			care BDD
		}{{"preview", bAnd(ok2, skip)}} {
			base := restrictTerm(trace, bAnd(ok2, bNot(skip)))
			with := restrictTerm(trace, v.care)
			pick := func(t *Term, care BDD) string {
				var sb strings.Builder
				for _, e := range emissions(t) {
					if evName(e.item) != "out:stdout" {
						continue
					}
					m := map[*Term]*Term{}
					in := false
					for _, l := range e.loops {
						if planDom(l.args[0]) {
							in = true
							for k, v := range openMap(l, drop, nil) {
								m[k] = v
							}
						}
					}
					if !in {
						continue
					}
					if g := bAnd(substBDD(e.g, m), care); !unsat(g) {
						sb.WriteString(pp(restrictTerm(substTerm(e.item.args[0], m), g)))
					}
				}
				return sb.String()
			}
			a, b := pick(base, bAnd(ok2, bNot(skip))), pick(with, v.care)
			c.require(a != b, "preview-marks", r.cmd, r.cmd, "with --dry-run --skip-drop a statement containing DROP is shown exactly like one that would be executed")
		}
	}
	c.floor("execution sites", execs, 4)
}
