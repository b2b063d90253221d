package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks0["C17"] = checkC17 }

// ---- C17: one dialect from end to end

// dialectHeads: the statements of each dialect, by the words they start with
// (the altered table and column left out).
var dialectHeads = map[int]*regexp.Regexp{
	0: regexp.MustCompile(`^(ADD( COLUMN| UNIQUE| INDEX| KEY| PRIMARY| FOREIGN| FULLTEXT| SPATIAL| CONSTRAINT| CHECK)?( .*)?|CHANGE COLUMN|MODIFY COLUMN|DROP (COLUMN|INDEX|KEY|PRIMARY( KEY)?|FOREIGN( KEY)?|TABLE|VIEW|TRIGGER|CONSTRAINT|CHECK)|CREATE( OR REPLACE)? (VIEW|TABLE|TRIGGER)|CREATE OR REPLACE|CREATE (UNIQUE |FULLTEXT |SPATIAL )?INDEX.*)$`),
	1: regexp.MustCompile(`^(ADD( COLUMN| UNIQUE| PRIMARY| FOREIGN| CONSTRAINT| CHECK)?( .*)?|ALTER COLUMN (ADD|SET|TYPE|DROP)( .*)?|DROP (COLUMN|CONSTRAINT|INDEX|TABLE|VIEW|POLICY)|CREATE( OR REPLACE)? (VIEW|TABLE|POLICY)|CREATE OR REPLACE|CREATE (UNIQUE )?INDEX.*)$`),
	2: regexp.MustCompile(`^(ADD COLUMN|DROP (COLUMN|TABLE|VIEW|TRIGGER|INDEX)|CREATE (TABLE|VIEW|TRIGGER)|CREATE (UNIQUE )?INDEX.*)$`),
	3: regexp.MustCompile(`^(ADD( UNIQUE| PRIMARY| FOREIGN| CONSTRAINT| CHECK| DEFAULT)?( .*)?|ALTER COLUMN|DROP (COLUMN|CONSTRAINT|INDEX|TABLE|VIEW|TRIGGER)|CREATE( OR ALTER)? (VIEW|TABLE|TRIGGER)|CREATE OR ALTER|CREATE (UNIQUE )?((NON)?CLUSTERED )?INDEX.*|CREATE UNIQUE (NON)?CLUSTERED)$`),
}

var (
	commonWords = "ADD ALTER TABLE COLUMN CONSTRAINT CHECK DEFAULT NOT NULL PRIMARY KEY FOREIGN REFERENCES UNIQUE INDEX ON DROP CREATE VIEW AS COLLATE SET UPDATE DELETE CASCADE NO ACTION RESTRICT ASC DESC WHERE AND OR"
	// dialectWords: the words the constant text of a dialect's statements is made of.
	dialectWords = map[int]string{
		0: "AFTER FIRST CHANGE MODIFY AUTO_INCREMENT CHARACTER UNSIGNED COMMENT REPLACE TRIGGER FOR EACH ROW BEFORE WITH PARSER USING BTREE HASH FULLTEXT SPATIAL KEY_BLOCK_SIZE",
		1: "GENERATED ALWAYS BY IDENTITY TYPE TIME ZONE WITH WITHOUT SEQUENCE NAME START INCREMENT MINVALUE MAXVALUE CACHE CYCLE OWNED NONE IF EXISTS POLICY PERMISSIVE RESTRICTIVE FOR TO USING INHERIT INCLUDE CONCURRENTLY REPLACE",
		2: "AUTOINCREMENT TRIGGER FOR EACH ROW BEFORE AFTER IF EXISTS BEGIN END",
		3: "CLUSTERED NONCLUSTERED IDENTITY FOR REPLICATION WITH OFF INCLUDE TRIGGER AFTER INSTEAD OF",
	}
	// dialectCatalog: where each dialect's description of itself is read.
	dialectCatalog = map[string]*regexp.Regexp{
		"mysql":    regexp.MustCompile(`(?i)^(information_schema\.\w+)$`),
		"postgres": regexp.MustCompile(`(?i)^((pg_catalog\.)?pg_\w+|information_schema\.\w+|unnest)$`),
		"mssql":    regexp.MustCompile(`(?i)^(sys\.\w+|information_schema\.\w+)$`),
		"sqlite3":  regexp.MustCompile(`(?i)^(sqlite_master|sqlite_schema|pragma_\w+)$`),
	}
	dialectShow  = map[string]bool{"mysql": true}
	placeholders = map[string]*regexp.Regexp{
		"mysql": regexp.MustCompile(`\?`), "postgres": regexp.MustCompile(`\$[0-9]+`),
		"mssql": regexp.MustCompile(`@p[0-9]+`), "sqlite3": regexp.MustCompile(`\?`),
	}
	parserModes = []string{"mysql", "postgres", "sqlite3", "mssql"}
)

// headForms gives the statements a term can be, as far as the words they start
// with are concerned: what is not constant text is a hole, and what follows the
// first parenthesis is left out.
func headForms(t *Term) []string {
	var out []string
	for f := range headSet(t, 0) {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

func headSet(t *Term, depth int) map[string]bool {
	if s, ok := t.strConst(); ok {
		return map[string]bool{s: true}
	}
	if depth > 40 {
		return map[string]bool{"‹x›": true}
	}
	if t.op == OIte {
		out := headSet(t.args[0], depth+1)
		for f := range headSet(t.args[1], depth+1) {
			out[f] = true
		}
		return out
	}
	ps := strParts(t)
	if len(ps) == 1 && ps[0] == t {
		return map[string]bool{"‹x›": true}
	}
	fs := map[string]bool{"": true}
	for _, q := range ps {
		var add map[string]bool
		nf := map[string]bool{}
		for f := range fs {
			if strings.Contains(f, "(") || strings.Count(f, "‹x›") > 4 {
				nf[f] = true
				continue
			}
			if add == nil {
				add = headSet(q, depth+1)
				if len(add)*len(fs) > 512 {
					add = map[string]bool{"‹x›": true}
				}
			}
			for s := range add {
				nf[f+s] = true
			}
		}
		fs = nf
	}
	return fs
}

func (c *Check) modeOf(name string) int {
	for i, n := range modeNames {
		if n == name {
			return i
		}
	}
	return -1
}

// modesPassed: each command plans in its own dialect and opens its own driver.
func (c *Check) modesPassed() {
	np, no := 0, 0
	for _, r := range c.commands(true) {
		plans, opens := 0, 0
		for _, ci := range r.ev.calls {
			switch {
			case strings.HasSuffix(ci.name, "/schema.GenerateIdempotentDDLs"):
				plans++
				k, ok := ci.args[0].intConst()
				c.require(ok && int(k) == c.modeOf(r.dialect), "mode-of-the-plan", r.cmd, c.at(ci), fmt.Sprintf("the planner is called for dialect %s, not %s", short(pp(ci.args[0]), 60), r.dialect))
			case strings.HasSuffix(ci.name, "database/sql.Open"):
				opens++
				s, _ := ci.args[0].strConst()
				c.require(s == connSpec[r.cmd].driver, "driver", r.cmd, c.at(ci), fmt.Sprintf("the driver is %q, not %q", s, connSpec[r.cmd].driver))
			}
			if q := sqlTypeMethod(ci.name); q != "" {
				if k, ok := sqlQueries[q]; ok && k < len(ci.args) {
					c.queryDialect(r, ci, k)
				}
			}
		}
		np += plans
		no += opens
		c.require(plans > 0 && opens > 0, "coverage", r.cmd, "", fmt.Sprintf("%d plans, %d connections found", plans, opens))
	}
	c.stats["planner calls"], c.stats["connections"] = np, no
}

func sqlTypeMethod(name string) string {
	if !strings.HasPrefix(name, "(*database/sql.") {
		return ""
	}
	return name[strings.LastIndex(name, ".")+1:]
}

var fromWord = regexp.MustCompile(`(?is)\b(?:from|join)\s+([a-z_][a-z0-9_.]*)`)

// queryDialect: a catalog query reads this dialect's catalog and marks its
// parameters as this dialect does.
func (c *Check) queryDialect(r *CmdRun, ci *CallInst, k int) {
	for _, alt := range alternatives(ci.args[k]) {
		txt := ""
		for _, q := range strParts(alt) {
			if s, ok := q.strConst(); ok {
				txt += s
			} else {
				txt += "‹x›"
			}
		}
		key := r.dialect + "/" + short(strings.Join(strings.Fields(txt), " "), 60)
		c.stats["catalog queries"]++
		bare := stripQuoted(txt)
		bad := ""
		if regexp.MustCompile(`(?i)^\s*show\b`).MatchString(bare) {
			if !dialectShow[r.dialect] {
				bad = "SHOW"
			}
		} else {
			for _, m := range fromWord.FindAllStringSubmatch(bare, -1) {
				if regexp.MustCompile(`(?i)\bwith\s+` + regexp.QuoteMeta(m[1]) + `\b|,\s*` + regexp.QuoteMeta(m[1]) + `\s+as\s*\(`).MatchString(bare) {
					continue
				}
				if !dialectCatalog[r.dialect].MatchString(m[1]) {
					bad = m[1]
				}
			}
		}
		c.require(bad == "", "catalog", key, c.at(ci), "the query reads "+bad+", which is not "+r.dialect+"'s")
		for d, re := range placeholders {
			ms := re.FindAllString(bare, -1)
			if d == r.dialect || re.String() == placeholders[r.dialect].String() || len(ms) == 0 || d == "mysql" || d == "sqlite3" {
				continue
			}
			c.require(false, "placeholder", key, c.at(ci), "the query has parameters written "+strings.Join(ms, " ")+", which is not "+r.dialect+"'s form")
		}
		set := map[string]bool{}
		all := placeholders[r.dialect].FindAllString(bare, -1)
		for _, m := range all {
			set[m] = true
		}
		n := len(set)
		if r.dialect == "mysql" || r.dialect == "sqlite3" {
			n = len(all)
		}
		if k+1 < len(ci.args) {
			if m := knownLen(ci.args[k+1]); m >= 0 {
				c.require(m == n, "parameters", key, c.at(ci), fmt.Sprintf("the query has %d parameters and is given %d values", n, m))
			}
		}
	}
}

// parserModePassed: both schemas are parsed with the dialect's grammar mode,
// which reaches the tokenizer.
func (c *Check) parserModePassed() {
	fn := c.p.converter()
	if fn == nil {
		c.require(false, "coverage", "converter", "", "the function that converts one parsed statement was not found")
		return
	}
	want := c.p.modeConsts()
	c.floor("grammar modes", len(want), 4)
	n := 0
	var entry []string
	for m := range modeNames {
		ev := c.p.convEval()
		ev.noErr = false
		ev.Call(fn, c.p.convArgs(fn, m), nil, newState(), 0, "mode")
		found := 0
		for _, ci := range ev.calls {
			if !strings.HasPrefix(ci.name, modPath+"/sqlparser.Parse") || unsat(ci.g) {
				continue
			}
			found++
			n++
			got, ok := ci.args[len(ci.args)-1].intConst()
			w, known := want[m]
			c.require(len(ci.args) == 2 && ok && known && got == w, "grammar-mode", modeNames[m], c.at(ci), "the statement is parsed in mode "+short(pp(ci.args[len(ci.args)-1]), 60)+" of the grammar")
			entry = append(entry, ci.name)
		}
		c.require(found > 0, "grammar-mode", modeNames[m]+"/parsed", c.p.posStr(fn.Pos()), "no statement is parsed in this dialect")
	}
	// an unknown dialect is not parsed as one of them
	ev := c.p.convEval()
	ev.noErr = false
	ev.Call(fn, c.p.convArgs(fn, 99), nil, newState(), 0, "mode")
	for _, ci := range ev.calls {
		c.require(!strings.HasPrefix(ci.name, modPath+"/sqlparser.Parse") || unsat(ci.g), "grammar-mode", "unknown dialect", c.at(ci), "an unknown dialect is parsed in some mode")
	}
	c.stats["statements parsed"] = n
	// the mode reaches the tokenizer
	sort.Strings(entry)
	for i, e := range entry {
		if i > 0 && entry[i-1] == e {
			continue
		}
		f := c.p.fn("sqlparser", e[strings.LastIndex(e, ".")+1:])
		if f == nil {
			continue
		}
		c.modeKept(f)
	}
	// conversion of both texts in the same dialect
	for f := range c.p.ddlProducers() {
		if len(f.Blocks) == 0 {
			continue
		}
		for _, ci := range callsIn(f) {
			g := ci.Common().StaticCallee()
			if g != fn {
				continue
			}
			okm := false
			for _, a := range ci.Common().Args {
				if p, ok := a.(*ssa.Parameter); ok && !isStringType(p.Type()) {
					okm = true
				}
			}
			c.require(okm, "mode-handed-on", f.Name(), c.p.posStr(ci.Pos()), "the dialect given is not the one the statement is converted in")
		}
	}
}

func callsIn(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, ci)
			}
		}
	}
	return out
}

// modeKept follows the mode from the parse function into the tokenizer.
func (c *Check) modeKept(f *ssa.Function) {
	l := c.p.lexer()
	ev := newEval(c.p)
	ev.inline = func(g *ssa.Function) bool {
		return fnPkg(g) == modPath+"/sqlparser" && !isParse(g.String(), g.Signature.Results()) && l.leaf[g] == "" && !l.advance[g] && g.Name() != "yyParse"
	}
	mode := mkSym("$mode", nil)
	var args []*Term
	for _, q := range f.Params {
		if isStringType(q.Type()) {
			args = append(args, mkSym("$text", q.Type()))
		} else {
			args = append(args, mode)
		}
	}
	seen := 0
	ev.hook = func(name string, args []*Term, rtyp types.Type, st *State) (*Term, bool) {
		if !strings.HasPrefix(name, modPath+"/sqlparser.") {
			return nil, false
		}
		for _, a := range args {
			v, ok := st.get(stripIface(a))
			if !ok {
				continue
			}
			if m := mkField(v, "mode", nil); m != nil && strings.HasSuffix(name, "sqlparser.yyParse") {
				seen++
				c.require(m == mode, "mode-reaches-the-tokenizer", f.Name(), c.p.posStr(f.Pos()), "the statement is read by a tokenizer that works in mode "+short(pp(m), 60))
			}
		}
		return nil, false
	}
	ev.Call(f, args, nil, newState(), 0, "parse")
	c.require(seen > 0, "mode-reaches-the-tokenizer", f.Name()+"/tokenizer", c.p.posStr(f.Pos()), "the tokenizer the statement is read with was not found")
}

// lexerSpec: what the characters that mean different things in the dialects
// start.
var lexerSpec = []struct {
	ch   int
	what string
	want map[int]string
}{
	{'"', "double quote", map[int]string{0: "scan given '\"' STRING", 1: "scan ID '\"'", 2: "scan ID '\"'", 3: "scan ID '\"'"}},
	{'`', "backtick", map[int]string{0: "scan ID '`'", 1: "LEX_ERROR", 2: "scan ID '`'", 3: "scan ID '`'"}},
	{'[', "bracket", map[int]string{0: "'['", 1: "'['", 2: "'['", 3: "scan ID ']'"}},
	{'\'', "single quote", map[int]string{0: "scan given ''' STRING", 1: "scan given ''' STRING", 2: "scan given ''' STRING", 3: "scan given ''' STRING"}},
}

func checkC17(c *Check) {
	c.explain = append(c.explain, "The dialect a command is for is the dialect of its driver, of its catalog queries, of the planner call, of the grammar mode of both schemas and of the tokenizer behind them, and the statements the planner can emit in a dialect are that dialect's.")
	c.assume = append(c.assume, "policies occur only in schemas of Postgres", "the words of a dialect's statements are those of the tables in analyzer/dialect.go")
	c.modesPassed()
	c.parserModePassed()
	c.specialModes()
	c.lexerModes()
	c.heads()
	c.vocabulary()
}

func (c *Check) lexerModes() {
	l := c.p.lexer()
	if l == nil || l.scan == nil {
		c.require(false, "coverage", "tokenizer", "", "the tokenizer was not found")
		return
	}
	consts := c.p.modeConsts()
	for m, name := range modeNames {
		at := c.p.dispatch(l, consts[m], true)
		for _, sp := range lexerSpec {
			got := at(sp.ch)
			c.require(got == sp.want[m], "token", sp.what+"/"+name, c.p.posStr(l.scan.Pos()), "in "+name+" the character starts "+got+", not "+sp.want[m])
			c.stats["token starts"]++
		}
		cast := has(strings.Split(at(':'), "|"), "TYPECAST")
		c.require(cast == (m == 1), "token", "double colon/"+name, c.p.posStr(l.scan.Pos()), "in "+name+" a colon can start "+at(':'))
	}
}

func (p *Program) modeConsts() map[int]int64 {
	sp := p.pkg("sqlparser")
	out := map[int]int64{}
	if t := sp.Pkg.Scope().Lookup("ParserMode"); t != nil {
		for n, v := range enumConsts(sp.Pkg, t.Type()) {
			for i, d := range parserModes {
				if strings.HasSuffix(strings.ToLower(n), d) {
					out[i] = v
				}
			}
		}
	}
	return out
}

// specialModes: the text of a special comment is read in the mode of the text
// around it.
func (c *Check) specialModes() {
	l := c.p.lexer()
	n := 0
	for _, f := range l.methods {
		for _, ci := range callsIn(f) {
			g := ci.Common().StaticCallee()
			if g == nil || g.Signature.Recv() != nil || g.Signature.Results().Len() != 1 || !l.isTk(g.Signature.Results().At(0).Type()) {
				continue
			}
			for i, a := range ci.Common().Args {
				if nt, ok := g.Params[i].Type().(*types.Named); ok && nt.Obj().Name() == "ParserMode" {
					n++
					ok := false
					if u, isU := a.(*ssa.UnOp); isU {
						if fa, isF := u.X.(*ssa.FieldAddr); isF && fa.X == f.Params[0] && fieldName(fa.X.Type(), fa.Field) == "mode" {
							ok = true
						}
					}
					c.require(ok, "special-comment-mode", f.Name(), c.p.posStr(ci.Pos()), "the text of a special comment is not read in the mode of the text around it")
				}
			}
		}
	}
	c.stats["nested tokenizers"] = n
}

func (c *Check) heads() {
	for m, name := range modeNames {
		n := 0
		for _, em := range c.p.plan(m).em {
			if unsat(em.g) {
				continue
			}
			seen := map[string]bool{}
			for _, f := range headForms(em.item) {
				if strings.HasPrefix(strings.TrimSpace(f), "‹") {
					continue
				}
				h := headOf(f)
				if seen[h] || strings.Contains(h, "POLICY") && m != 1 {
					continue
				}
				seen[h] = true
				n++
				c.require(dialectHeads[m].MatchString(h), "statement", name+"/"+h, "", "the statement "+short(f, 100)+" is not "+name+"'s")
			}
		}
		c.floor("statements of "+name, n, 5)
		c.stats["statement heads"] += n
	}
}

var holeText = regexp.MustCompile(`‹[^›]*›`)
var upperWord = regexp.MustCompile(`\b[A-Z][A-Z_]*\b`)

func (c *Check) vocabulary() {
	for m, name := range modeNames {
		ok := map[string]bool{}
		for _, w := range strings.Fields(commonWords + " " + dialectWords[m]) {
			ok[w] = true
		}
		used := map[string]bool{}
		n := 0
		c.p.textCases("C17", func(t *textCase) {
			if t.mode != m {
				return
			}
			n++
			for _, g := range t.got {
				for _, w := range upperWord.FindAllString(holeText.ReplaceAllString(g, " "), -1) {
					used[w] = true
				}
			}
		})
		for w := range used {
			c.require(ok[w], "word", name+"/"+w, "", "statements for "+name+" use the word "+w+", which its statements do not have")
		}
		c.stats["words"] += len(used)
		c.stats["scenes"] += n
	}
}
