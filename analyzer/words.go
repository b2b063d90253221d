package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C23: the words, operators and marks of the text reach the parser as the
// tokens the grammar has for them

func init() { checks0["C23"] = checkC23 }

// The tokens whose name is not their word.
var wordToken = map[string]string{
	"_binary": "UNDERSCORE_BINARY",
	"comment": "COMMENT_KEYWORD",
	"float":   "FLOAT_TYPE",
	"rlike":   "REGEXP",
	"::":      "TYPECAST",
}

// The operators, with their tokens ("" for the character itself).
var operatorToken = map[string]string{
	"=": "", ",": "", ";": "", "(": "", ")": "", "[": "", "]": "", "+": "", "*": "", "%": "", "^": "", "~": "",
	"&": "", "&&": "AND", "|": "", "||": "OR", ".": "", "/": "", "-": "", "->": "JSON_EXTRACT_OP", "->>": "JSON_UNQUOTE_EXTRACT_OP",
	"<": "", "<>": "NE", "<<": "SHIFT_LEFT", "<=": "LE", "<=>": "NULL_SAFE_EQUAL", ">": "", ">=": "GE", ">>": "SHIFT_RIGHT", "!": "", "!=": "NE",
	"?": "VALUE_ARG",
}

// What else begins with the characters of an operator: a number or a comment.
var beginsOther = []string{"-0", "-1", "-2", "-3", "-4", "-5", "-6", "-7", "-8", "-9", ".0", ".1", ".2", ".3", ".4", ".5", ".6", ".7", ".8", ".9", "--", "//", "/*", "#"}

// wordTokens are the tokens that are not written as words or operators.
var valueTokens = []string{"BIT_LITERAL", "COMMENT", "FLOAT", "HEX", "HEXNUM", "ID", "INTEGRAL", "LIST_ARG", "STRING", "UNARY", "UNUSED", "VALUE_ARG"}

func (c *Check) keywordTable(l *lexer) {
	var table map[string]*Term
	name := ""
	for n, m := range constMaps {
		if strings.Contains(n, "/sqlparser.") && len(m) > len(table) {
			table, name = m, n
		}
	}
	c.floor("words", len(table), 300)
	if table == nil {
		return
	}
	g := c.p.pkg("sqlparser").Var(name[strings.LastIndex(name, ".")+1:])
	where := "sqlparser"
	if g != nil {
		where = c.p.posStr(g.Pos())
	}
	used := map[string]bool{}
	for _, pr := range readGrammar() {
		for _, s := range pr.rhs {
			used[s] = true
		}
	}
	named := map[string]bool{}
	for _, n := range l.tokens {
		named[n] = true
	}
	given := map[string][]string{}
	for _, key := range sortedKeys(table) {
		w := strings.TrimPrefix(key, "s:")
		k, ok := table[key].intConst()
		tok := l.tokens[k]
		want := wordToken[w]
		if want == "" {
			want = strings.ToUpper(w)
		}
		if ok && tok != "UNUSED" {
			given[tok] = append(given[tok], w)
			c.require(tok == want, "word", w, where, fmt.Sprintf("the word %q is the token %s", w, tok))
		} else {
			c.require(ok && !used[want], "word", w, where, fmt.Sprintf("the word %q is not the token %s of the grammar", w, want))
		}
		c.require(w == strings.ToLower(w), "word-case", w, where, fmt.Sprintf("the word %q is never found: words are looked up in lower case", w))
	}
	ops := map[string]bool{}
	for _, t := range operatorToken {
		ops[t] = true
	}
	n := 0
	for _, t := range sortedKeys(named) {
		if !used[t] || ops[t] || has(valueTokens, t) {
			continue
		}
		n++
		c.require(len(given[t]) > 0, "token", t, where, fmt.Sprintf("no word gives the token %s, which rules of the grammar begin with or need", t))
	}
	c.floor("tokens of words", n, 200)
}

// longest gives the operator a text begins with.
func longest(s string) string {
	for n := len(s); n > 0; n-- {
		if _, ok := operatorToken[s[:n]]; ok {
			return s[:n]
		}
	}
	return ""
}

func (c *Check) operators(l *lexer) {
	where := c.p.posStr(l.scan.Pos())
	first := map[byte]bool{}
	chars := map[byte]bool{' ': true, 'a': true, '\'': true}
	for o := range operatorToken {
		first[o[0]] = true
		for i := range o {
			chars[o[i]] = true
		}
	}
	var cs []byte
	for b := range chars {
		cs = append(cs, b)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	n, loops := 0, 0
	for m, k := range c.p.modeConsts() {
		r := l.run(int(k))
		all := r.tokenEnd()
		for _, c0 := range cs {
			if !first[c0] || c0 == '[' && m == 3 {
				continue
			}
			bad := ""
			t0 := all.given(0, c0)
			for _, c1 := range cs {
				t1 := t0.given(1, c1)
			texts:
				for _, c2 := range cs {
					s := string([]byte{c0, c1, c2})
					for _, o := range beginsOther {
						if strings.HasPrefix(s, o) {
							continue texts
						}
					}
					op := longest(s)
					want := operatorToken[op]
					if want == "" {
						want = "'" + op + "'"
					}
					tok, end := t1.given(2, c2).known(r)
					if end < 0 {
						loops++
						if t1.given(2, c2).needs(looked) && bad == "" {
							bad = fmt.Sprintf("what %q begins with depends on the character behind it", s)
						}
						continue
					}
					n++
					if (tok != want || end != len(op)) && bad == "" {
						bad = fmt.Sprintf("%q begins with %s of %d characters, not with %s (%q)", s, tok, end, want, op)
					}
				}
			}
			c.require(bad == "", "operator", modeNames[m]+"/"+string(rune(c0)), where, bad)
		}
	}
	c.stats["texts of operators"] = n
	if loops > 0 {
		c.undecided = append(c.undecided, fmt.Sprintf("%d texts of operators: where the token ends was not found out (only the kinds of token are decided)", loops))
	}
}

// tokenEnd is what is known of a token and of where it ends, once some of the
// characters of the text are given.
type tokenEnd struct {
	tok  *Term
	ends []endAt
}

type endAt struct {
	g  BDD
	at int // how many characters the token has, -1 if that is not known
}

const looked = 3 // characters

func (r *lexRun) tokenEnd() tokenEnd {
	t := tokenEnd{tok: mkField(r.ret, "0", nil)}
	var split func(x *Term, g BDD)
	split = func(x *Term, g BDD) {
		if g == False {
			return
		}
		if x.op == OIte {
			split(x.args[0], bAnd(g, x.bdd))
			split(x.args[1], bAnd(g, bNot(x.bdd)))
			return
		}
		at := -1
		for i := 0; i <= looked; i++ {
			if x == charSym(i) {
				at = i
			}
		}
		t.ends = append(t.ends, endAt{g, at})
	}
	if r.end != nil {
		split(r.end, True)
	}
	return t
}

// given is the same for a text that has the character at a place.
func (t tokenEnd) given(i int, ch byte) tokenEnd {
	m := map[*Term]*Term{}
	for j := 0; j <= looked; j++ {
		m[charSym(j)] = charSym(j)
	}
	m[charSym(i)] = mkInt(int64(ch))
	out := tokenEnd{tok: substTerm(t.tok, m)}
	for _, e := range t.ends {
		if g := substBDD(e.g, m); g != False {
			out.ends = append(out.ends, endAt{g, e.at})
		}
	}
	return out
}

// needs: it depends on a character.
func (t tokenEnd) needs(i int) bool {
	on := false
	look := func(x *Term) bool {
		on = on || x == charSym(i)
		return !on
	}
	for _, e := range t.ends {
		for _, a := range bSupport(e.g) {
			walkTerm(a, look)
		}
	}
	walkTerm(t.tok, look)
	return on
}

// known gives the token and its length, -1 if they depend on more.
func (t tokenEnd) known(r *lexRun) (string, int) {
	k, ok := t.tok.intConst()
	if !ok || len(t.ends) == 0 {
		return "", -1
	}
	at := t.ends[0].at
	for _, e := range t.ends {
		if e.at != at {
			return "", -1
		}
	}
	return r.describe(mkInt(k)), at
}

// What a token may be by the character it begins with, in each dialect.
func startOf(mode int, ch int) string {
	switch s := string(rune(ch)); {
	case ch == eofCh:
		return "0"
	case ch == 0 || s == " " || s == "\n" || s == "\r" || s == "\t":
		return "any" // blanks, and the start of the text
	case 'a' <= ch && ch <= 'z' || 'A' <= ch && ch <= 'Z' || s == "_" || s == "@":
		return "any" // a word
	case s == "/":
		return "any" // a special comment has tokens
	case ch == '0':
		return "FLOAT|HEXNUM|INTEGRAL|LEX_ERROR"
	case '1' <= ch && ch <= '9':
		return "FLOAT|INTEGRAL|LEX_ERROR"
	case s == ".":
		return "'.'|FLOAT|LEX_ERROR"
	case s == "'":
		return "LEX_ERROR|STRING"
	case s == "\"":
		if mode == 0 {
			return "LEX_ERROR|STRING"
		}
		return "ID|LEX_ERROR"
	case s == "`":
		if mode == 1 {
			return "LEX_ERROR"
		}
		return "ID|LEX_ERROR"
	case s == "[" && mode == 3:
		return "ID|LEX_ERROR"
	case s == ":":
		if mode == 1 {
			return "LEX_ERROR|TYPECAST|VALUE_ARG"
		}
		return "LEX_ERROR|LIST_ARG|VALUE_ARG"
	case s == "#":
		return "COMMENT"
	case s == "-":
		return "'-'|COMMENT|FLOAT|HEXNUM|INTEGRAL|JSON_EXTRACT_OP|JSON_UNQUOTE_EXTRACT_OP|LEX_ERROR"
	}
	set := map[string]bool{}
	for o, t := range operatorToken {
		if int(o[0]) == ch {
			if t == "" {
				t = "'" + o + "'"
			}
			set[t] = true
		}
	}
	if len(set) == 0 {
		return "LEX_ERROR"
	}
	return strings.Join(sortedKeys(set), "|")
}

func isWordChar(ch int) bool {
	return 'a' <= ch && ch <= 'z' || 'A' <= ch && ch <= 'Z' || '0' <= ch && ch <= '9' || ch == '_' || ch == '@'
}

func (c *Check) starts(l *lexer) {
	where := c.p.posStr(l.scan.Pos())
	for m, k := range c.p.modeConsts() {
		kinds := c.p.dispatch(l, k, false)
		bad := map[string]string{}
		unknown := 0
		for ch := 0; ch <= eofCh; ch++ {
			got, want := kinds(ch), startOf(m, ch)
			c.stats["characters"]++
			if want == "any" {
				if got == "something not constant" {
					continue
				}
			} else if got == want {
				continue
			} else if strings.Contains(got, "not constant") {
				unknown++
				continue
			}
			kind := string(rune(ch))
			if ch < 33 || ch > 126 {
				kind = fmt.Sprint(ch)
			} else if isWordChar(ch) && (ch < '0' || ch > '9') {
				kind = "letter"
			}
			if bad[kind] == "" {
				bad[kind] = fmt.Sprintf("a token that begins with %q is %s, not %s", rune(ch), got, want)
			}
		}
		if unknown > 0 {
			c.undecided = append(c.undecided, fmt.Sprintf("%d characters in mode %s: the kind of token is not constant", unknown, modeNames[m]))
		}
		c.require(len(bad) == 0, "start", modeNames[m], where, firstOf(bad))
		// where a word ends
		cf := c.p.charRun(l, k)
		ends := ""
		for _, in := range []string{"a-z", "A-Z", "_"} {
			var from cset
			for ch := int(in[0]); ch <= int(in[len(in)-1]); ch++ {
				if !strings.ContainsRune("xXbB", rune(ch)) {
					from.add(ch)
				}
			}
			ex := cf.run(l.scan, from, true, nil)
			if !ex[0].c.empty() && ends == "" {
				ends = fmt.Sprintf("a word that begins with one of %s may be empty", in)
			}
			for x := 0; x <= eofCh; x++ {
				if ex[1].c.has(x) == isWordChar(x) && ends == "" {
					if isWordChar(x) {
						ends = fmt.Sprintf("a word that begins with one of %s may end before %q", in, rune(x))
					} else {
						ends = fmt.Sprintf("a word that begins with one of %s does not end before %q", in, rune(x))
					}
				}
			}
		}
		c.require(ends == "", "word-end", modeNames[m], where, ends)
		ends = ""
		var digits cset
		for ch := '1'; ch <= '9'; ch++ {
			digits.add(int(ch))
		}
		e := cf.run(l.scan, digits, true, nil)[1].c
		for x := '0'; x <= '9'; x++ {
			if e.has(int(x)) && ends == "" {
				ends = fmt.Sprintf("a number may end before %q", x)
			}
		}
		for _, x := range ",) ;\n" {
			if !e.has(int(x)) && ends == "" {
				ends = fmt.Sprintf("a number does not end before %q", x)
			}
		}
		c.require(ends == "", "number-end", modeNames[m], where, ends)
	}
}

// quoted and comments: where they end.
func (c *Check) ends(l *lexer) {
	where := c.p.posStr(l.scan.Pos())
	without := func(s cset, chs ...int) cset {
		for _, ch := range chs {
			s = s.minus(one(ch))
		}
		return s
	}
	n := 0
	for m, k := range c.p.modeConsts() {
		run := func(f *ssa.Function, from, only cset) ([2]exitHalf, string) {
			cf := c.p.charRun(l, k)
			cf.only = &only
			ex := cf.run(f, from, true, nil)
			all := vset{}
			for _, e := range ex {
				if e.any && e.top {
					return ex, "unknown"
				}
				for v := range e.rets {
					all[v] = true
				}
			}
			delete(all, 0) // the rest of a statement left out
			return ex, cf.tokens(all)
		}
		kinds := c.p.dispatch(l, k, false)
		bad := ""
		for _, q := range "'\"`[" {
			kind := startOf(m, int(q))
			if !strings.Contains(kind, "|") || kinds(int(q)) != kind {
				continue
			}
			end := int(q)
			if q == '[' {
				end = ']'
			}
			n++
			quote := fmt.Sprintf("a text in %c", q)
			if _, got := run(l.scan, one(int(q)), without(allChars, end)); got != "LEX_ERROR" && bad == "" {
				bad = fmt.Sprintf("%s without %q may be %s", quote, rune(end), got)
			}
			ex, got := run(l.scan, one(int(q)), without(allChars, eofCh))
			want := kind
			if strings.Contains(kind, "STRING") {
				want = "STRING"
			}
			if got != want && bad == "" {
				bad = fmt.Sprintf("%s that ends is %s, not %s", quote, got, want)
			}
			if ex[1].c != without(allChars, eofCh, end) && bad == "" {
				bad = fmt.Sprintf("%s does not end where it has its last %q", quote, rune(end))
			}
		}
		c.require(bad == "", "quoted-end", modeNames[m], where, bad)
		bad = ""
		for _, o := range []struct{ from, only, want string }{
			{"123456789", "0123456789 ,);", "INTEGRAL"},
			{"0", "0123456789 ,);", "INTEGRAL"},
			{"123456789", ".", "FLOAT"},
			{"0", ".", "FLOAT"},
			{"123456789", "e9 ", "FLOAT|INTEGRAL|LEX_ERROR"},
			{"123456789", "E9 ", "FLOAT|INTEGRAL|LEX_ERROR"},
			{"0", "xfF ", "HEXNUM|INTEGRAL|LEX_ERROR"},
			{"0", "XfF ", "HEXNUM|INTEGRAL|LEX_ERROR"},
		} {
			var from, only cset
			for _, ch := range o.from {
				from.add(int(ch))
			}
			for _, ch := range o.only {
				only.add(int(ch))
			}
			n++
			_, got := run(l.scan, from, only)
			lacks := false
			for _, t := range strings.Split(o.want, "|") {
				lacks = lacks || !has(strings.Split(got, "|"), t)
			}
			if got != "unknown" && (lacks || o.want == "INTEGRAL" && got != o.want) && bad == "" {
				bad = fmt.Sprintf("a number of one of %q, and then of characters of %q, is %s, not %s", o.from, o.only, got, o.want)
			}
		}
		c.require(bad == "", "number", modeNames[m], where, bad)
		bad = ""
		for _, f := range sortFns(keysSet(l.leaf)) {
			if f.Signature.Params().Len() > 1 {
				continue
			}
			fw := c.p.posStr(f.Pos())
			ex, got := run(f, without(allChars, '\n'), without(allChars, '\n'))
			switch {
			case got == "COMMENT":
				n++
				cs := ex[0].c.or(ex[1].c)
				c.require(cs == one(eofCh), "comment-end", modeNames[m]+"/line", fw, "a comment of a line may end before the line does")
				var after cset
				after.add('a')
				after.add(eofCh)
				ex, _ = run(f, one('\n'), after)
				c.require(ex[0].c.empty() && ex[1].c.has('a'), "comment-end", modeNames[m]+"/line", fw, "a comment of a line goes on after the line")
			case got == "COMMENT|LEX_ERROR":
				n++
				for _, ch := range "*/" {
					_, got := run(f, without(allChars, int(ch)), without(allChars, int(ch)))
					c.require(got == "LEX_ERROR", "comment-end", modeNames[m]+"/"+string(ch), fw, fmt.Sprintf("a comment without %q may be %s", ch, got))
				}
				_, got := run(f, without(allChars, eofCh), without(allChars, eofCh))
				c.require(got == "COMMENT", "comment-end", modeNames[m]+"/closed", fw, "a closed comment may be "+got)
				// behind the first */ there is nothing, and nowhere else
				cf := c.p.charRun(l, k)
				text := without(allChars, eofCh)
				cf.only = &text
				star, slash, none := one('*'), one('/'), one(eofCh)
				cf.watch = func(state int, at cset) []watched {
					if at == none {
						return []watched{{none, 0, none}}
					}
					if state == 1 {
						return []watched{{slash, 0, none}, {star, 1, text}, {text.minus(slash).minus(star), 0, text}}
					}
					return []watched{{star, 1, text}, {text.minus(star), 0, text}}
				}
				ex := cf.run(f, text, true, nil)
				all := vset{}
				for _, e := range ex {
					for v := range e.rets {
						all[v] = true
					}
				}
				got = cf.tokens(all)
				c.require(ex[0].top || got == "COMMENT" && ex[1].c.empty() && ex[0].c == none, "comment-end", modeNames[m]+"/first", fw, "a comment does not end at its first \"*/\"")
			}
		}
	}
	c.floor("quoted texts and comments", n, 15)
}

func firstOf(m map[string]string) string {
	for _, k := range sortedKeys(m) {
		return m[k]
	}
	return ""
}

// lookups: a word is looked up in lower case, and is an identifier with the
// text as it is written if it is not found.
func (c *Check) lookups(l *lexer) {
	n := 0
	for _, f := range sortFns(keysSet(l.leaf)) {
		if !strings.Contains(l.leaf[f], "looked up") || scans(l, f) {
			continue
		}
		ev := newEval(c.p)
		ev.inline = func(g *ssa.Function) bool { return fnPkg(g) == modPath+"/sqlparser" && !l.advance[g] }
		var args []*Term
		for i, q := range f.Params {
			args = append(args, mkSym(fmt.Sprintf("$p%d", i), q.Type()))
		}
		res := ev.Call(f, args, nil, newState(), 0, "word")
		where := c.p.posStr(f.Pos())
		tok, text := mkField(res.ret, "0", nil), mkField(res.ret, "1", nil)
		idTok := int64(0)
		for k, t := range l.tokens {
			if t == "ID" {
				idTok = k
			}
		}
		var found []*Term // lookup terms
		ok := true
		det := ""
		for _, v := range cases(tok) {
			switch {
			case v.isInt(idTok):
			case v.text.op == OApp && v.text.str == "lookup":
				found = append(found, v.text)
			default:
				ok, det = false, "a word may be the token "+short(pp(v.text), 90)
			}
		}
		c.require(ok && len(found) > 0, "lookup", "token", where, det)
		for _, t := range found {
			n++
			key, same := t.args[1], true
			for _, v := range cases(text) {
				if !lowered(v.text) {
					same = same && loweredOf(key, v.text)
				}
			}
			c.require(lowered(key) && same, "lookup", "key", where, "words are looked up as "+short(pp(key), 120)+", not as the text of the word in lower case")
		}
		// an identifier keeps its text
		for _, v := range cases(text) {
			for _, w := range cases(tok) {
				if !w.isInt(idTok) {
					continue
				}
				g := bAnd(v.g, w.g)
				if unsat(g) {
					continue
				}
				n++
				dual := False
				for _, a := range bSupport(g) {
					if strings.Contains(pp(a), `"dual"`) {
						dual = bOr(dual, bAnd(g, atomBDD(a)))
					}
				}
				c.require(implies(g, dual) || !lowered(v.text), "lookup", "text", where, "the text of an identifier is changed to "+short(pp(v.text), 120))
			}
		}
	}
	c.floor("lookups", n, 2)
}

func (v variant) isInt(k int64) bool { i, ok := v.text.intConst(); return ok && i == k }

func lowered(t *Term) bool {
	low := false
	walkTerm(t, func(x *Term) bool {
		if x.op == OApp && (strings.HasSuffix(x.str, ".ToLower") || strings.HasSuffix(x.str, ".ToUpper")) {
			low = low || strings.HasSuffix(x.str, ".ToLower")
			return false
		}
		return true
	})
	return low
}

// scans: the function scans a token anew.
func scans(l *lexer, f *ssa.Function) bool {
	for _, g := range callees(f) {
		if g == l.scan {
			return true
		}
	}
	return false
}

// loweredOf: nothing but the lower case of a text is made of it.
func loweredOf(t, text *Term) bool {
	apps := map[string]int{}
	walkTerm(text, func(x *Term) bool {
		if x.op == OApp {
			apps[x.str] = 1
		}
		return true
	})
	n, ok := 0, true
	walkTerm(t, func(x *Term) bool {
		switch {
		case x.op != OApp || apps[x.str] > 0 || x.str == "string" || x.str == "bytes" || strings.HasPrefix(x.str, "conv"):
		case strings.HasSuffix(x.str, ".ToLower"):
			n++
		default:
			ok = false
		}
		return true
	})
	return ok && n == 1
}

func keysSet(m map[*ssa.Function]string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

func checkC23(c *Check) {
	c.explain = append(c.explain, "The table of words is compared with the tokens of the grammar, by name; the dispatch of the tokenizer is summarised over the characters it looks at, per dialect, and compared with the longest operator of every text of three characters; the kinds of token of each of the 257 characters a token may begin with, and the characters a word or a number ends before, are found by propagating sets of characters through the scanners.")
	c.assume = append(c.assume, "what a comment or a quoted text contains is not modelled here")
	l := c.p.lexer()
	if l == nil || l.scan == nil {
		c.require(false, "coverage", "tokenizer", "", "the tokenizer was not found")
		return
	}
	c.keywordTable(l)
	c.operators(l)
	c.starts(l)
	c.lookups(l)
	c.ends(l)
}
