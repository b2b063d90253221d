package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- the statements a change is written as
//
// A text scene is a change of one object. The planner is summarised once per
// scene and dialect with every attribute of the object free; the summary is
// then specialised to combinations of present and absent attributes, where it
// must be exactly the statements an independent description of the dialect's
// syntax gives: the constant text, with every name and text taken from the
// schema in its place.

// alt is one alternative of a group: what has to be assumed of the attributes.
//
//	has:P / !has:P  the optional part is present / absent
//	P / !P          a flag
//	P=3, P='w'      a constant
//	P!=''           a text that is not empty
type alt struct {
	name  string
	modes string // "" : every dialect of the scene
	set   string // blank-separated
}

// group is an attribute with its alternatives; the first one is its absence.
type group struct {
	name string
	alts []alt
}

// chosen is the alternative taken per group.
type chosen map[string]string

func (ch chosen) is(g, a string) bool { return ch[g] == a }

type textScene struct {
	name   string
	modes  string
	build  func(p *Program, mode int) (desired, current []*Term, care BDD)
	groups []group
	want   func(mode int, ch chosen) []string
	skip   func(mode int, ch chosen) bool
	only   string // the property it is about, where the others have nothing to say
}

// config is a choice for every group.
type config struct {
	name string
	ch   chosen
	sub  map[*Term]*Term
	care BDD
}

func textSym(path string) *Term { return mkSym("$"+path, nil) }

// assume adds the assumptions of one alternative.
func (cf *config) assume(set string) {
	for _, w := range strings.Fields(set) {
		switch {
		case strings.HasPrefix(w, "!"):
			w = w[1:]
			cf.sub[condSym(w)] = tFalse
		case strings.HasSuffix(w, "!=''"):
			cf.care = bAnd(cf.care, bNot(strSet(textSym(strings.TrimSuffix(w, "!=''")), "")))
		case strings.HasSuffix(w, "!=null"):
			cf.care = bAnd(cf.care, bNot(strSet(textSym(strings.TrimSuffix(w, "!=null")), "null")))
		case strings.HasSuffix(w, "!=PRIMARY"):
			cf.care = bAnd(cf.care, bNot(strSet(textSym(strings.TrimSuffix(w, "!=PRIMARY")), "PRIMARY")))
		case strings.HasSuffix(w, "!=words"):
			cf.care = bAnd(cf.care, bNot(strSet(textSym(strings.TrimSuffix(w, "!=words")), typeWords...)))
		case strings.Contains(w, "="):
			i := strings.IndexByte(w, '=')
			v := w[i+1:]
			if strings.HasPrefix(v, "'") {
				cf.sub[textSym(w[:i])] = mkStrC(strings.Trim(v, "'"))
			} else {
				var n int64
				fmt.Sscan(v, &n)
				cf.sub[textSym(w[:i])] = mkInt(n)
			}
		default:
			cf.sub[condSym(w)] = tTrue
		}
	}
}

// condSym is the symbol of a flag or of the presence of an optional part:
// "d.x.unsigned", "d.has:x.length".
func condSym(w string) *Term { return mkSym("$"+w, types.Typ[types.Bool]) }

func (s *textScene) alts(g group, mode int) []alt {
	var out []alt
	for _, a := range g.alts {
		if a.modes == "" || hasMode(a.modes, mode) {
			out = append(out, a)
		}
	}
	return out
}

// configs: nothing, each alternative alone, each pair of alternatives of
// different groups, everything, and everything but one group.
func (s *textScene) configs(mode int) []config {
	var gs []group
	for _, g := range s.groups {
		if as := s.alts(g, mode); len(as) > 0 {
			gs = append(gs, group{g.name, as})
		}
	}
	var out []config
	seen := map[string]bool{}
	add := func(pick map[int]int) {
		cf := config{ch: chosen{}, sub: map[*Term]*Term{}, care: True}
		var on []string
		for i, g := range gs {
			a := g.alts[pick[i]]
			cf.ch[g.name] = a.name
			if pick[i] > 0 {
				on = append(on, a.name)
			}
			cf.assume(a.set)
		}
		cf.name = strings.Join(on, "+")
		if cf.name == "" {
			cf.name = "plain"
		}
		if seen[cf.name] || s.skip != nil && s.skip(mode, cf.ch) {
			return
		}
		seen[cf.name] = true
		out = append(out, cf)
	}
	add(map[int]int{})
	for i, g := range gs {
		for a := 1; a < len(g.alts); a++ {
			add(map[int]int{i: a})
			for j := i + 1; j < len(gs); j++ {
				for b := 1; b < len(gs[j].alts); b++ {
					add(map[int]int{i: a, j: b})
				}
			}
		}
	}
	for k := 1; k <= 3; k++ {
		all := map[int]int{}
		for i, g := range gs {
			if k < len(g.alts) {
				all[i] = k
			} else {
				all[i] = len(g.alts) - 1
			}
		}
		add(all)
		for i := range gs {
			if all[i] > 0 {
				m := map[int]int{}
				for j, v := range all {
					m[j] = v
				}
				m[i] = 0
				add(m)
			}
		}
	}
	return out
}

// ---- rendering

// hole is the place of a text that comes from the schema: its access path, and
// which characters are doubled in it.
func hole(t *Term) string {
	var dbl []string
	for t.op == OApp && t.str == "strings.Replace" && len(t.args) == 4 {
		a, ok1 := t.args[1].strConst()
		b, ok2 := t.args[2].strConst()
		n, ok3 := t.args[3].intConst()
		if !ok1 || !ok2 || !ok3 || n != -1 || b != a+a {
			break
		}
		dbl = append(dbl, a)
		t = t.args[0]
	}
	if t.op == OApp && t.str == "fmt%d" {
		t = t.args[0]
	}
	sort.Strings(dbl)
	s := ""
	switch {
	case t.op == OSym && strings.HasPrefix(t.str, "$"):
		s = strings.TrimPrefix(t.str, "$")
		if strings.HasSuffix(s, ".strVal") { // the text of a string value
			s = strings.TrimSuffix(s, "strVal") + "raw"
		}
	case t.op == OField || t.op == ODeref:
		s = pp(t)
	default:
		s = "?" + short(pp(t), 120)
	}
	for _, d := range dbl {
		s += "×" + d
	}
	return "‹" + s + "›"
}

func renderText(t *Term) string {
	var sb strings.Builder
	for _, q := range strParts(t) {
		if s, ok := q.strConst(); ok {
			sb.WriteString(s)
			continue
		}
		if q.op == OApp && q.str == "strings.TrimSpace" && len(q.args) == 1 {
			sb.WriteString(strings.TrimSpace(renderText(q.args[0])))
			continue
		}
		sb.WriteString(hole(q))
	}
	return sb.String()
}

// words splits a statement into its words: blanks and letter case of the
// constant text do not matter, blanks inside quotes do.
func words(s string) []string {
	var out []string
	var cur strings.Builder
	flush := func() {
		if cur.Len() > 0 {
			out = append(out, cur.String())
			cur.Reset()
		}
	}
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		switch {
		case r == ' ' || r == '\t' || r == '\n' || r == '\r':
			flush()
		case r == '(' || r == ')' || r == ',' || r == '=' || r == ';':
			flush()
			out = append(out, string(r))
		case r == '‹':
			for ; i < len(rs); i++ {
				cur.WriteRune(rs[i])
				if rs[i] == '›' {
					break
				}
			}
		case r == '\'':
			cur.WriteRune(r)
			in := false
			for i++; i < len(rs); i++ {
				cur.WriteRune(rs[i])
				in = in && rs[i] != '›' || rs[i] == '‹'
				if rs[i] == '\'' && !in {
					break
				}
			}
		default:
			cur.WriteString(strings.ToUpper(string(r)))
		}
	}
	flush()
	return out
}

func sameText(a, b string) bool {
	return strings.Join(words(a), " ") == strings.Join(words(b), " ")
}

var openQuote = []string{"`", "\"", "`", "["}
var closeQuote = []string{"`", "\"", "`", "]"}

// Q is a name in the quotes of the dialect, U the same name as it is.
func Q(mode int, path string) string {
	return openQuote[mode] + "‹" + path + "×" + closeQuote[mode] + "›" + closeQuote[mode]
}
func U(path string) string { return "‹" + path + "›" }

// bare takes the quoting of names off, so that what is left is which names
// stand where.
func bare(mode int, s string) string {
	s = strings.ReplaceAll(s, "×"+closeQuote[mode]+"›", "›")
	s = strings.ReplaceAll(s, closeQuote[mode], "")
	if mode == 3 {
		s = strings.ReplaceAll(s, openQuote[mode], "")
	}
	return s
}

// T is the table of the scenes.
func T(mode int) string {
	switch mode {
	case 1:
		return `"public"."tbl"`
	case 3:
		return `[dbo].[tbl]`
	}
	return "`tbl`"
}

// textRun is the summary of one scene for one dialect.
type textRun struct {
	s    *textScene
	mode int
	run  *planRun
	care BDD
}

var textRuns = map[string]*textRun{}

func (p *Program) textRun(s *textScene, mode int) *textRun {
	k := fmt.Sprint(s.name, mode)
	if r, ok := textRuns[k]; ok {
		return r
	}
	d, c, care := s.build(p, mode)
	r := &textRun{s: s, mode: mode, run: p.planForCare(mode, d, c, false, care), care: care}
	textRuns[k] = r
	return r
}

// statements is the plan under a configuration.
func (r *textRun) statements(cf config) ([]string, string) {
	l := substTerm(r.run.list, cf.sub)
	care := bAnd(substBDD(r.care, cf.sub), substBDD(cf.care, cf.sub))
	if unsat(care) {
		return nil, "the assumptions contradict each other: " + ppb(care, 3)
	}
	l = restrictTerm(unfold(restrictTerm(l, care)), care)
	var out []string
	if l == tNil || l == tEmptyList {
		return nil, ""
	}
	for _, q := range listParts(l) {
		if q == tNil || q == tEmptyList {
			continue
		}
		if q.op != OItem {
			return nil, "the statements depend on more than the attributes given: " + short(pp(q), 4000)
		}
		out = append(out, renderText(restrictTerm(q.args[0], care)))
	}
	return out, ""
}

// textBuilder makes the free object of a scene.
func (p *Program) textBuilder(side string, tag int64, set map[string]*Term, lens map[string]int) *builder {
	if set == nil {
		set = map[string]*Term{}
	}
	if lens == nil {
		lens = map[string]int{}
	}
	return &builder{p: p, side: sideName(side), tag: tag, set: set, lens: lens}
}

// unfold instantiates the loops over lists whose elements are known.
func unfold(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			if i > 0 && (t.op == ORep || t.op == OExists || t.op == OFirst || t.op == OFirstIdx) {
				args[i] = a // under the binder
				continue
			}
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			if t.op == ORep || t.op == OExists || t.op == OFirst || t.op == OFirstIdx {
				c := newSubst(map[*Term]*Term{t.args[0]: args[0]})
				r = c.rebind(t, args[0])
			} else {
				r = rebuild(t, args, t.bdd)
			}
		}
		if r.op == OList && len(r.args) == 1 && r.args[0].op == ORep {
			r = r.args[0]
		}
		if r.op == ORep && (r.str == "list" || r.str == "str") {
			if n := knownLen(r.args[0]); n >= 0 {
				var ps []*Term
				d := mkList(r.args[0])
				for i, q := range d.args {
					ps = append(ps, substTerm(r.args[1], openMap(r, q.args[0], mkInt(int64(i)))))
				}
				if r.str == "list" {
					r = mkList(ps...)
				} else {
					r = mkStr(ps...)
				}
				r = rec(r)
			}
		}
		if r.op == ORep && r.str == "list" {
			r = mkList(r)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
