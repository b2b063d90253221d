package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

func init() {
	checks0["C09"] = checkC09
	checks0["C13"] = checkC13
	checks0["C14"] = checkC14
	checks0["C16"] = checkC16
}

// ---- what a statement does

// verbWords are the leading words of a statement up to what it does: the table
// it alters and the name of the column are left out.
func verbWords(s string) []string {
	ws := words(s)
	var out []string
	name := func(i int) bool { return i < len(ws) && strings.ContainsAny(ws[i], "\"`[‹.") }
	i := 0
	take := func(n int) {
		for ; n > 0 && i < len(ws); n-- {
			out = append(out, ws[i])
			i++
		}
	}
	if len(ws) > 1 && ws[0] == "ALTER" && ws[1] == "TABLE" {
		i = 3
		if i < len(ws) && ws[i] == "ALTER" {
			take(2)
			i++
		}
		for n := 0; n < 2 && i < len(ws) && !name(i); n++ {
			take(1)
		}
		if i < len(ws) && len(out) > 0 && out[len(out)-1] == "CONSTRAINT" && out[0] == "ADD" {
			i++
			take(1)
		}
		return out
	}
	for n := 0; n < 4 && i < len(ws) && !name(i); n++ {
		take(1)
	}
	return out
}

// isRemoval tells whether a statement takes an object away.
func isRemoval(s string) bool {
	v := verbWords(s)
	if len(v) == 0 {
		return false
	}
	if v[0] == "ALTER" && len(v) > 3 && v[2] == "DROP" {
		return v[3] != "NOT"
	}
	return v[0] == "DROP"
}

// headOf is the kind of a statement.
func headOf(s string) string {
	v := verbWords(s)
	if len(v) == 0 {
		return s // the text of a statement of the schema
	}
	if isRemoval(s) {
		return strings.Join(v, " ")
	}
	return strings.Join(v[:min(len(v), 3)], " ")
}

// textCase is one configuration of one scene: what is planned, what is due.
type textCase struct {
	s         *textScene
	mode      int
	cf        config
	got, want []string
	prob      string
}

func (t *textCase) where() string { return modeNames[t.mode] + "/" + t.s.name }

func (t *textCase) text() string {
	d := func(ss []string) string {
		if len(ss) == 0 {
			return "nothing"
		}
		return strings.Join(ss, " ; ")
	}
	if t.prob != "" {
		return fmt.Sprintf("(%s) %s", t.cf.name, short(t.prob, 400))
	}
	return fmt.Sprintf("(%s) planned: %s -- due: %s", t.cf.name, short(d(t.got), 500), short(d(t.want), 500))
}

func (p *Program) textCases(pid string, f func(t *textCase)) (scenes, cases int) {
	for _, s := range textScenes {
		for m := range modeNames {
			if !hasMode(s.modes, m) || s.only != "" && s.only != pid {
				continue
			}
			scenes++
			r := p.textRun(s, m)
			for _, cf := range s.configs(m) {
				cases++
				t := &textCase{s: s, mode: m, cf: cf, want: s.want(m, cf.ch)}
				t.got, t.prob = r.statements(cf)
				f(t)
			}
		}
	}
	return
}

// multiset difference of statements under a form
func missing(have, need []string, form func(string) string) []string {
	n := map[string]int{}
	for _, h := range have {
		n[form(h)]++
	}
	var out []string
	for _, x := range need {
		k := form(x)
		if n[k] == 0 {
			out = append(out, x)
			continue
		}
		n[k]--
	}
	return out
}

func bareForm(m int) func(string) string {
	return func(s string) string { return strings.Join(words(bare(m, s)), " ") }
}

func sel(ss []string, f func(string) bool) []string {
	var out []string
	for _, s := range ss {
		if f(s) {
			out = append(out, s)
		}
	}
	return out
}

// ---- C13: definitions

func checkC13(c *Check) {
	keep := func(s string) bool { return !isRemoval(s) }
	defs := 0
	ns, nc := c.p.textCases("C13", func(t *textCase) {
		w := sel(t.want, keep)
		defs += len(w)
		if t.prob != "" {
			c.require(false, "definition", t.where(), "schema", t.text())
			return
		}
		g := sel(t.got, keep)
		f := bareForm(t.mode)
		lost, extra := missing(g, w, f), missing(w, g, f)
		det := ""
		if len(lost)+len(extra) > 0 {
			det = "the definition written is not the desired one " + t.text()
		}
		c.require(det == "", "definition", t.where(), "schema", det)
	})
	c.stats["scenes"], c.stats["cases"], c.stats["definitions compared"] = ns, nc, defs
	c.floor("cases", nc, 2500)
	c.explain = append(c.explain, fmt.Sprintf("%d changes (object kind x dialect), planned symbolically once each; %d combinations of attributes; each definition in the plan compared word by word with an independent description of the dialect's syntax (quoting is C09's)", ns, nc))
}

// ---- C14: what is removed

func checkC14(c *Check) {
	n := 0
	ns, nc := c.p.textCases("C14", func(t *textCase) {
		if t.prob != "" {
			c.require(false, "removals", t.where(), "schema", t.text())
			return
		}
		w, g := sel(t.want, isRemoval), sel(t.got, isRemoval)
		n += len(w)
		f := bareForm(t.mode)
		extra, lost := missing(w, g, f), missing(g, w, f)
		c.require(len(extra) == 0, "nothing-else-removed", t.where(), "schema", "removed although the desired schema keeps it: "+strings.Join(extra, " ; ")+" "+t.text())
		c.require(len(lost) == 0, "obsolete-removed", t.where(), "schema", "not removed: "+strings.Join(lost, " ; ")+" "+t.text())
	})
	c.stats["scenes"], c.stats["cases"], c.stats["removals due"] = ns, nc, n
	c.floor("removals due", n, 250)
}

// ---- C16: order

func checkC16(c *Check) {
	multi := 0
	ns, nc := c.p.textCases("C16", func(t *textCase) {
		if len(t.want) < 2 && t.prob == "" && len(t.got) < 2 {
			return
		}
		multi++
		if t.prob != "" {
			c.require(false, "order", t.where(), "schema", t.text())
			return
		}
		c.require(ordered(t.mode, t.got, t.want), "order", t.where(), "schema", "the statements cannot be executed in this order "+t.text())
	})
	c.stats["scenes"], c.stats["cases"], c.stats["plans of several statements"] = ns, nc, multi
	c.floor("plans of several statements", multi, 150)
}

// ordered: the statements that are due and planned appear in the order they
// are due, and whatever has to go before a replacement is there.
func ordered(m int, got, want []string) bool {
	// a statement is recognised by its whole text, or else by its kind
	at := make([]int, len(want))
	used := map[int]bool{}
	for i := range at {
		at[i] = -1
	}
	for _, form := range []func(string) string{bareForm(m), headOf} {
		for i, w := range want {
			for j, g := range got {
				if at[i] < 0 && !used[j] && form(g) == form(w) {
					at[i] = j
					used[j] = true
				}
			}
		}
	}
	last := -1
	for i := range want {
		if at[i] < 0 {
			if isRemoval(want[i]) && i+1 < len(want) {
				for k := i + 1; k < len(want); k++ {
					if at[k] >= 0 && !isRemoval(want[k]) {
						return false // replaced without being dropped first
					}
				}
			}
			continue
		}
		if at[i] < last {
			return false
		}
		last = at[i]
	}
	return true
}

// ---- C09: names

var nameFields = map[string]bool{"name": true, "column": true, "constraintName": true, "indexName": true, "referenceName": true, "indexColumns": true,
	"referenceColumns": true, "partitionName": true, "tableName": true}

// nameField is the schema field a text is, when it is the name of an object.
func nameField(pc *provCtx, t *Term) string {
	pv := provStr(pc.of(t))
	if pv == "" {
		return ""
	}
	var fs []string
	seen := map[string]bool{}
	for _, one := range strings.Split(pv, "|") {
		if i := strings.Index(one, "!"); i >= 0 {
			one = one[i+1:]
		}
		one = strings.ReplaceAll(one, "[]", "")
		parts := strings.Split(one, ".")
		if !nameFields[parts[len(parts)-1]] || strings.Contains(one, "sequence.") {
			return ""
		}
		if !seen[one] {
			seen[one] = true
			fs = append(fs, one)
		}
	}
	sort.Strings(fs)
	return strings.Join(fs, "|")
}

// edges of a text: what it can start and end with; "" where that is not known.
func edgeChars(t *Term, last bool) map[string]bool {
	out := map[string]bool{}
	if s, ok := t.strConst(); ok {
		if s != "" {
			if last {
				out[s[len(s)-1:]] = true
			} else {
				out[s[:1]] = true
			}
		} else {
			out["empty"] = true
		}
		return out
	}
	switch t.op {
	case OIte:
		for _, a := range t.args {
			for k := range edgeChars(a, last) {
				out[k] = true
			}
		}
	case OStr:
		return edgeOf(t.args, last)
	default:
		out["unknown"] = true
	}
	return out
}

func edgeOf(ts []*Term, last bool) map[string]bool {
	out := map[string]bool{}
	for i := range ts {
		q := ts[i]
		if last {
			q = ts[len(ts)-1-i]
		}
		e := edgeChars(q, last)
		empty := e["empty"]
		delete(e, "empty")
		for k := range e {
			out[k] = true
		}
		if !empty {
			return out
		}
	}
	out["empty"] = true
	return out
}

// insideQuotes: the name is followed by a fixed part of the same identifier
func insideQuotes(ctx, q string) bool {
	r := ctx[strings.Index(ctx, "<>")+2:]
	i := strings.Index(r, q)
	return i > 0 && strings.Trim(r[:i], "abcdefghijklmnopqrstuvwxyz_0123456789") == ""
}

func just(m map[string]bool, s string) bool { return len(m) == 1 && m[s] }

func checkC09(c *Check) {
	p := c.p
	// every statement the planner can synthesise
	total := 0
	for m := range modeNames {
		r := p.plan(m)
		pc := newProv(r.ev)
		n := 0
		for _, e := range r.em {
			namesOf(e.item, nil, nil, nil, func(core *Term, dbl []string, before, after map[string]bool, ctx string) {
				f := nameField(pc, core)
				if f == "" {
					return
				}
				n++
				inside := just(after, closeQuote[m]) || insideQuotes(ctx, closeQuote[m])
				ok := just(before, openQuote[m]) && inside && len(dbl) == 1 && dbl[0] == closeQuote[m]
				why := "it is not enclosed in " + openQuote[m] + closeQuote[m]
				if just(before, openQuote[m]) && inside {
					why = "a " + closeQuote[m] + " inside the name is not doubled (doubled: " + strings.Join(dbl, "") + ")"
				}
				c.require(ok, "name-quoted", modeNames[m]+"/"+f+"/"+ctx, "schema", "the name "+f+" stands in a statement ("+ctx+") where "+why)
			})
		}
		total += n
		c.stats["names in statements, "+modeNames[m]] = n
	}
	c.floor("names in statements", total, 250)
	// schema-qualified names: part by part
	ns, nc := p.textCases("C09", func(t *textCase) {
		if t.prob != "" {
			return // the other text checks report it
		}
		f := bareForm(t.mode)
		left := append([]string{}, t.got...)
		for _, w := range t.want {
			for i, g := range left {
				if f(g) != f(w) {
					continue
				}
				left = append(left[:i:i], left[i+1:]...)
				gw, ww := words(g), words(w)
				bad := []string{}
				if len(gw) == len(ww) {
					for k := range gw {
						if gw[k] != ww[k] {
							bad = append(bad, gw[k]+" for "+ww[k])
						}
					}
				} else if strings.Join(gw, " ") != strings.Join(ww, " ") {
					bad = append(bad, g+" for "+w)
				}
				if len(bad) == 0 {
					c.require(true, "statement-quoted", t.where(), "schema", "")
				}
				for _, b := range bad {
					c.require(false, "statement-quoted", t.where()+"/"+b, "schema", "the quoting is not the dialect's "+t.text())
				}
				break
			}
		}
	})
	c.stats["scenes"], c.stats["cases"] = ns, nc
}

// namesOf visits the places of a statement that are filled from the schema,
// with what can stand directly before and after each, and the characters that
// are doubled in it.
func namesOf(t *Term, before, after []*Term, dbl []string, f func(core *Term, dbl []string, before, after map[string]bool, ctx string)) {
	switch t.op {
	case OConst:
		return
	case OItem:
		namesOf(t.args[0], before, after, dbl, f)
		return
	case OIte:
		namesOf(t.args[0], before, after, dbl, f)
		namesOf(t.args[1], before, after, dbl, f)
		return
	case OStr:
		for i, q := range t.args {
			b := append(append([]*Term{}, before...), t.args[:i]...)
			a := append(append([]*Term{}, t.args[i+1:]...), after...)
			namesOf(q, b, a, dbl, f)
		}
		return
	case ORep, OList:
		if t.op == OList {
			for _, q := range t.args {
				namesOf(q, before, after, dbl, f)
			}
			return
		}
		if t.str == "str" || t.str == "list" {
			namesOf(t.args[1], before, after, dbl, f)
			return
		}
	}
	for t.op == OApp && t.str == "strings.Replace" && len(t.args) == 4 {
		a, ok1 := t.args[1].strConst()
		b, ok2 := t.args[2].strConst()
		n, ok3 := t.args[3].intConst()
		if !ok1 || !ok2 || !ok3 || n != -1 || b != a+a {
			break
		}
		dbl = append(append([]string{}, dbl...), a)
		t = t.args[0]
	}
	var leaves func(t *Term)
	leaves = func(t *Term) {
		switch {
		case t.op == OConst:
		case t.op == OIte:
			leaves(t.args[0])
			leaves(t.args[1])
		case t.op == OStr || t.op == ORep || t.op == OList || t.op == OItem:
			// a text built and then changed as a whole
			namesOf(t, before, after, dbl, f)
		case t.op == OApp && len(t.args) > 0 && (t.str == "index" || strings.HasPrefix(t.str, "strings.")):
			leaves(t.args[0])
		default:
			sort.Strings(dbl)
			f(t, dbl, edgeOf(before, true), edgeOf(after, false), around(before, after))
		}
	}
	leaves(t)
}

var alphaWord = regexp.MustCompile(`[A-Za-z]+`)

// around is a short constant context: the nearest words on the left, and what
// stands directly on either side.
func around(before, after []*Term) string {
	l, r := "", ""
	for i := len(before) - 1; i >= 0 && len(l) < 60; i-- {
		l = constText(before[i]) + l
	}
	for i := 0; i < len(after) && len(r) < 20; i++ {
		r += constText(after[i])
	}
	ws := alphaWord.FindAllString(l, -1)
	if len(ws) > 2 {
		ws = ws[len(ws)-2:]
	}
	for len(ws) > 0 && ws[0] != strings.ToUpper(ws[0]) {
		ws = ws[1:]
	}
	near := ""
	if i := strings.LastIndexAny(l, " ◦⟨¦⟩"); i >= 0 {
		near = strings.TrimLeft(l[i:], " ◦⟨¦⟩\x97\xa6\xe2\x9f")
	}
	if i := strings.IndexAny(r, " ◦⟨¦⟩"); i >= 0 {
		r = r[:i]
	}
	return strings.Join(ws, " ") + " " + strings.ToValidUTF8(near, "") + "<>" + r
}
