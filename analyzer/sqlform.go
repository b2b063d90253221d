package main

// The form of a catalog query: what is selected, from which relations, under
// which conditions, in which order - independent of aliases, letter case,
// layout and the order of conditions.

import (
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type sqlForm struct {
	items  []string // selected expressions
	from   []string // relations, the optional ones with their conditions
	conds  []string // conjuncts of the inner joins and of the restriction
	order  []string
	params []int // for each placeholder in canonical order its number in the text
	text   string
}

var sqlTok = regexp.MustCompile(`'(?:[^']|'')*'|\[[A-Za-z_ ]+\]|"[^"]+"|\$[0-9]+|[A-Za-z_][A-Za-z_0-9]*|[0-9]+|<>|!=|<=|>=|::|\{\}|\S`)

func parseSQL(q string) *sqlForm {
	f := &sqlForm{}
	var toks []string
	n := 0
	for _, t := range sqlTok.FindAllString(q, -1) {
		switch {
		case t[0] == '\'' || t == "{}":
			for strings.Contains(t, "{}") {
				t = strings.Replace(t, "{}", "\x00"+strconv.Itoa(n)+"\x01", 1)
				n++
			}
			if t[0] != '\'' {
				t = "`" + t
			}
		case t[0] == '[' || t[0] == '"':
			t = strings.ToLower(t[1 : len(t)-1])
		case t == "?" || t[0] == '$' && len(t) > 1:
			k := n
			if t != "?" {
				k, _ = strconv.Atoi(t[1:])
				k--
			} else {
				n++
			}
			t = "\x00" + strconv.Itoa(k) + "\x01"
		case t == "<>":
			t = "!="
		default:
			t = strings.ToLower(t)
		}
		toks = append(toks, t)
	}
	for len(toks) > 0 && toks[len(toks)-1] == ";" {
		toks = toks[:len(toks)-1]
	}
	if len(toks) == 0 || toks[0] != "select" {
		f.text = f.number([]string{strings.Join(toks, " ")})[0]
		return f
	}
	// qualified names are one word
	var w []string
	for i := 0; i < len(toks); i++ {
		if toks[i] == "." && len(w) > 0 && i+1 < len(toks) {
			w[len(w)-1] += "." + toks[i+1]
			i++
			continue
		}
		w = append(w, toks[i])
	}
	// sections
	depth, sec := 0, ""
	secs := map[string][]string{}
	for i := 0; i < len(w); i++ {
		switch w[i] {
		case "(":
			depth++
		case ")":
			depth--
		case "case":
			depth++
		case "end":
			depth--
		}
		if depth == 0 {
			switch w[i] {
			case "select", "from", "where":
				sec = w[i]
				continue
			case "order":
				if i+1 < len(w) && w[i+1] == "by" {
					sec = "order"
					i++
					continue
				}
			}
		}
		secs[sec] = append(secs[sec], w[i])
	}
	// relations
	alias := map[string]string{}
	seen := map[string]int{}
	var conds []string
	type rel struct {
		kind string
		name string
		on   []string
	}
	var rels []rel
	fr := secs["from"]
	isWord := func(s string) bool { return regexp.MustCompile(`^[a-z_][a-z_0-9.]*$`).MatchString(s) }
	kw := map[string]bool{"join": true, "inner": true, "left": true, "outer": true, "on": true, "with": true, "as": true, "using": true, "cross": true, "right": true, "full": true}
	for i := 0; i < len(fr); {
		kind := ""
		for i < len(fr) && (fr[i] == "," || kw[fr[i]] && fr[i] != "on" && fr[i] != "as" && fr[i] != "with") {
			if fr[i] != "join" && fr[i] != "inner" && fr[i] != "outer" && fr[i] != "," {
				kind = fr[i]
			}
			i++
		}
		if i >= len(fr) {
			break
		}
		r := rel{kind: kind, name: fr[i][strings.LastIndex(fr[i], ".")+1:]}
		full := fr[i]
		i++
		if seen[r.name]++; seen[r.name] > 1 {
			r.name += "#" + strconv.Itoa(seen[r.name])
		}
		alias[full], alias[r.name] = r.name, r.name
		if i < len(fr) && fr[i] == "as" {
			i++
		}
		if i < len(fr) && isWord(fr[i]) && !kw[fr[i]] {
			alias[fr[i]] = r.name
			i++
		}
		if i < len(fr) && fr[i] == "with" { // a hint
			for i++; i < len(fr) && fr[i] != ")"; i++ {
			}
			i++
		}
		if i < len(fr) && fr[i] == "on" {
			d := 0
			for i++; i < len(fr); i++ {
				if fr[i] == "(" {
					d++
				}
				if fr[i] == ")" {
					d--
				}
				if d == 0 && (fr[i] == "join" || fr[i] == "inner" || fr[i] == "left" || fr[i] == "cross" || fr[i] == "right" || fr[i] == "full") {
					break
				}
				r.on = append(r.on, fr[i])
			}
		}
		rels = append(rels, r)
	}
	resolve := func(ws []string) string {
		var out []string
		for _, x := range ws {
			if k := strings.LastIndex(x, "."); k > 0 && isWord(x) {
				if a, ok := alias[x[:k]]; ok {
					x = a + x[k:]
				}
			}
			out = append(out, x)
		}
		return strings.Join(out, " ")
	}
	split := func(ws []string, sep string) [][]string {
		var out [][]string
		var cur []string
		d := 0
		for _, x := range ws {
			switch x {
			case "(", "case":
				d++
			case ")", "end":
				d--
			}
			if d == 0 && x == sep {
				out = append(out, cur)
				cur = nil
				continue
			}
			cur = append(cur, x)
		}
		if len(cur) > 0 {
			out = append(out, cur)
		}
		return out
	}
	conj := func(ws []string) []string {
		var out []string
		for _, x := range split(ws, "and") {
			if len(split(x, "=")) == 2 { // an equation has no direction
				p := split(x, "=")
				a, b := resolve(p[0]), resolve(p[1])
				if !strings.ContainsRune(a, 0) && (strings.ContainsRune(b, 0) || a < b) {
					out = append(out, a+" = "+b)
				} else {
					out = append(out, b+" = "+a)
				}
				continue
			}
			out = append(out, resolve(x))
		}
		return out
	}
	for _, r := range rels {
		if r.kind == "" {
			f.from = append(f.from, r.name)
			conds = append(conds, conj(r.on)...)
		} else {
			on := conj(r.on)
			sortMasked(on)
			f.from = append(f.from, r.name)
			conds = append(conds, r.kind+" join "+r.name+" on "+strings.Join(on, " and "))
		}
	}
	sort.Strings(f.from)
	conds = append(conds, conj(secs["where"])...)
	sortMasked(conds)
	f.conds = f.number(conds)
	for _, x := range split(secs["order"], ",") {
		f.order = append(f.order, resolve(x))
	}
	for _, x := range split(secs["select"], ",") {
		if n := len(x); n > 2 && x[n-2] == "as" {
			x = x[:n-2]
		} else if n > 2 && x[1] == "=" && isWord(x[0]) {
			x = x[2:]
		} else if n > 1 && (x[n-2] == ")" || x[n-2] == "end" || n == 2) && isWord(x[n-1]) && x[n-1] != "end" {
			x = x[:n-1]
		}
		f.items = append(f.items, resolve(x))
	}
	f.text = strings.Join(f.from, ",")
	return f
}

var paramMark = regexp.MustCompile("\x00[0-9]+\x01")

func sortMasked(l []string) {
	mask := func(s string) string { return paramMark.ReplaceAllString(s, "{}") }
	sort.SliceStable(l, func(i, j int) bool { return mask(l[i]) < mask(l[j]) })
}

// number renumbers the placeholders in the order of their appearance.
func (f *sqlForm) number(l []string) []string {
	var out []string
	for _, s := range l {
		out = append(out, paramMark.ReplaceAllStringFunc(s, func(m string) string {
			k, _ := strconv.Atoi(m[1 : len(m)-1])
			f.params = append(f.params, k)
			return "{}"
		}))
	}
	return out
}
