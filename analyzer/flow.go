package main

import (
	"fmt"
	"go/constant"
	"golang.org/x/tools/go/ssa"
	"regexp"
	"strings"
)

// Whole-command analysis: each command's main is evaluated with the adapter
// and the shared Run inlined; the planner is one opaque pure function.

type CmdRun struct {
	cmd, dialect string
	ev           *Eval
	res          Result
	trace        *Term
	flagAtoms    map[string]map[*Term]bool
}

var commands = []struct{ cmd, dialect, adapter string }{
	{"mysqldef", "mysql", "adapter/mysql"}, {"psqldef", "postgres", "adapter/postgres"},
	{"mssqldef", "mssql", "adapter/mssql"}, {"sqlite3def", "sqlite3", "adapter/sqlite3"},
}

func runCommand(p *Program, cmd, dialect string, noErr bool) *CmdRun {
	ev := p.mainEval()
	ev.noErr = noErr
	fn := p.fn("cmd/"+cmd, "main")
	if fn == nil {
		return nil
	}
	r := &CmdRun{cmd: cmd, dialect: dialect, ev: ev}
	r.res = ev.Call(fn, nil, nil, newState(), 0, "root")
	r.trace = tEmptyList
	if t, ok := r.res.st.get(traceKey); ok {
		r.trace = t
	}
	return r
}

func (c *Check) commands(noErr bool) []*CmdRun {
	var out []*CmdRun
	for _, x := range commands {
		r := runCommand(c.p, x.cmd, x.dialect, noErr)
		if !c.require(r != nil, "anchor", "cmd/"+x.cmd+" main", "", "the command has no main function") {
			continue
		}
		c.stats["functions evaluated ("+x.cmd+")"] = len(r.ev.nfuncs)
		c.stats["calls with their guards ("+x.cmd+")"] = len(r.ev.calls)
		c.noOpaque(r.ev, x.cmd)
		out = append(out, r)
	}
	return out
}

// noOpaque: constructs the evaluation cannot follow leave the property undecided.
func (c *Check) noOpaque(ev *Eval, what string) {
	for k, n := range ev.opaque {
		c.stats["opaque: "+k] += n
		if strings.HasPrefix(k, "sort ") {
			continue
		}
		if strings.HasPrefix(k, "go statement") || strings.HasPrefix(k, "channel") || strings.HasPrefix(k, "recursion") {
			c.require(false, "undecided", what+"/"+k, "", "the evaluation cannot follow this construct: "+k)
		}
	}
}

// flagBDD returns the condition that a command line flag was given, as far as
// decisions of this run depend on it.
func (r *CmdRun) flagBDD(long string) (BDD, bool) {
	if r.flagAtoms == nil {
		r.flagAtoms = map[string]map[*Term]bool{}
		seen := map[BDD]bool{}
		note := func(b BDD) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, a := range bSupport(b) {
				if a.op != OField {
					continue
				}
				tag := structTags(a.args[0].typ)[a.str]
				if m := longTag.FindStringSubmatch(tag); m != nil {
					if r.flagAtoms[m[1]] == nil {
						r.flagAtoms[m[1]] = map[*Term]bool{}
					}
					r.flagAtoms[m[1]][a] = true
				}
			}
		}
		for _, ci := range r.ev.calls {
			note(ci.g)
		}
		for _, t := range r.res.terms {
			note(t.g)
		}
		note(r.res.alive)
		for _, e := range emissions(r.trace) {
			note(e.g)
		}
	}
	b := False
	for _, t := range sortedTerms(r.flagAtoms[long]) {
		b = bOr(b, atomBDD(t))
	}
	return b, len(r.flagAtoms[long]) > 0
}

var longTag = regexp.MustCompile(`long:"([^"]*)"`)

func isSQL(name string) bool {
	return strings.HasPrefix(name, "(*database/sql.") || strings.HasPrefix(name, "(database/sql.")
}

func method(name string) string { return name[strings.LastIndexByte(name, '.')+1:] }
func sqlType(name string) string {
	s := strings.TrimPrefix(name, "(*database/sql.")
	return s[:strings.IndexByte(s, ')')]
}

var sqlReaders = map[string]bool{
	"Query": true, "QueryRow": true, "QueryContext": true, "QueryRowContext": true, "Close": true,
	"Next": true, "Scan": true, "Err": true, "Columns": true, "ColumnTypes": true, "NextResultSet": true,
	"Ping": true, "PingContext": true, "Stats": true, "SetMaxOpenConns": true, "SetMaxIdleConns": true,
	"SetConnMaxLifetime": true, "SetConnMaxIdleTime": true, "Driver": true, "Rollback": true,
}
var sqlQueries = map[string]int{"Query": 1, "QueryRow": 1, "QueryContext": 2, "QueryRowContext": 2}
var sqlExecs = map[string]int{"Exec": 1, "ExecContext": 2}

func (c *Check) at(ci *CallInst) string { return c.p.posStr(ci.pos) }

var writeWord = regexp.MustCompile(`(?i)\b(insert|update|delete|merge|truncate|create|alter|drop|grant|revoke|replace\s+into|into|call|exec|execute|set|lock|rename|begin|commit|vacuum|reindex)\b`)
var readStart = regexp.MustCompile(`(?i)^\s*(select|show|with|describe|desc|explain)\b`)
var pragmaRead = regexp.MustCompile(`(?i)^\s*pragma\s+[a-z_]+\s*(\([^=]*\))?\s*;?\s*$`)

// readOnlyText decides whether a query template is a reading statement.
func readOnlyText(t *Term) (bool, string) {
	switch t.op {
	case OIte:
		if ok, s := readOnlyText(t.args[0]); !ok {
			return ok, s
		}
		return readOnlyText(t.args[1])
	}
	ps := strParts(t)
	if len(ps) == 0 {
		return false, "empty statement"
	}
	if ps[0].op == OIte {
		for _, x := range ps[0].args {
			if ok, s := readOnlyText(mkStr(append([]*Term{x}, ps[1:]...)...)); !ok {
				return false, s
			}
		}
		return true, ""
	}
	first, ok := ps[0].strConst()
	if !ok {
		return false, "the statement does not start with a constant text: " + short(pp(t), 120)
	}
	if !readStart.MatchString(first) && !pragmaRead.MatchString(first) {
		return false, "not a reading statement: " + short(first, 80)
	}
	var consts func(t *Term) (string, bool)
	consts = func(t *Term) (string, bool) {
		if s, ok := t.strConst(); ok {
			return s, true
		}
		return "", false
	}
	for i, x := range ps {
		s, ok := consts(x)
		if !ok {
			continue
		}
		s2 := stripQuoted(s)
		if readStart.MatchString(first) && strings.HasPrefix(strings.ToLower(strings.TrimSpace(first)), "show") {
			// "show create table" is reading
			s2 = regexp.MustCompile(`(?i)^\s*show\s+create\b`).ReplaceAllString(s2, "")
		}
		if m := writeWord.FindString(s2); m != "" {
			return false, fmt.Sprintf("the statement contains %q: %s", m, short(s, 100))
		}
		if j := strings.IndexByte(s2, ';'); j >= 0 && (strings.TrimSpace(s2[j+1:]) != "" || i < len(ps)-1) {
			return false, "more than one statement in a query: " + short(s, 100)
		}
	}
	return true, ""
}

func stripQuoted(s string) string {
	return regexp.MustCompile(`'[^']*'|"[^"]*"|`+"`[^`]*`").ReplaceAllString(s, "''")
}

func alternatives(t *Term) []*Term {
	if t.op == OIte {
		return append(alternatives(t.args[0]), alternatives(t.args[1])...)
	}
	return []*Term{t}
}

// ---- C01

func checkC01(c *Check) {
	c.explain = append(c.explain, "Each command's main is evaluated symbolically over SSA (adapter and Run inlined, planner opaque). Every call of the SQL driver is enumerated with the guard under which it happens; calls that can write must be unreachable when the --dry-run or the --export flag of the command line is set, and every query text must be a reading statement.")
	nw, nq := 0, 0
	for _, r := range c.commands(false) {
		dry, ok1 := r.flagBDD("dry-run")
		exp, ok2 := r.flagBDD("export")
		c.require(ok1, "flag-honoured", r.cmd+"/dry-run", "", "no decision of the command depends on --dry-run")
		c.require(ok2, "flag-honoured", r.cmd+"/export", "", "no decision of the command depends on --export")
		for _, ci := range r.ev.calls {
			if !isSQL(ci.name) {
				if strings.HasPrefix(ci.name, "os/exec.") || strings.HasPrefix(ci.name, "invoke (database/sql/driver.") {
					c.require(false, "who-may-call", r.cmd+"/"+ci.name, c.at(ci), "reaches the outside world other than through database/sql")
				}
				continue
			}
			m := method(ci.name)
			if k, ok := sqlQueries[m]; ok && k < len(ci.args) {
				nq++
				for _, alt := range alternatives(ci.args[k]) {
					ok, why := readOnlyText(alt)
					if !ok && sqlType(ci.name) == "Tx" && implies(ci.g, bNot(bOr(dry, exp))) {
						ok = true
					}
					c.require(ok, "query-reads-only", r.dialect+"/"+short(strings.Join(strings.Fields(firstConst(alt)), " "), 60), c.at(ci), why)
				}
				continue
			}
			if sqlReaders[m] {
				continue
			}
			if sqlType(ci.name) == "DB" && (m == "Conn") {
				continue
			}
			nw++
			c.require(unsat(bAnd(ci.g, dry)), "no-write-in-dry-run", r.cmd+"/"+ci.name, c.at(ci), "reachable with --dry-run set, when "+ppb(bAnd(ci.g, dry), 4))
			c.require(unsat(bAnd(ci.g, exp)), "no-write-in-export", r.cmd+"/"+ci.name, c.at(ci), "reachable with --export set, when "+ppb(bAnd(ci.g, exp), 4))
		}
		// dumping must not leave through the plan: the plan is the only source of non-reading text
	}
	c.floor("writing driver calls", nw, 12)
	c.floor("query sites", nq, 19)
}

func firstConst(t *Term) string {
	s := ""
	walkTerm(t, func(x *Term) bool {
		if v, ok := x.strConst(); ok && s == "" {
			s = v
		}
		return s == ""
	})
	return s
}

// ---- plan terms

func isPlanner(name string) bool { return strings.HasPrefix(name, modPath+"/schema.") }

// planDom reports whether a list is the planner's result.
func planDom(t *Term) bool {
	for {
		if t == planSym {
			return true
		}
		switch t.op {
		case OField:
			if t.str == "0" && t.args[0].op == OApp && isPlanner(t.args[0].str) {
				return true
			}
			return false
		case OIte: // alternatives on infeasible paths
			if planDom(t.args[0]) && planDom(t.args[1]) {
				return true
			}
			return false
		default:
			return t.op == OApp && isPlanner(t.str)
		}
	}
}

var planSym = mk(Term{op: OSym, str: "$plan"})

// namePlan replaces the planner's result by one symbol.
func namePlan(t *Term) (*Term, map[*Term]*Term) {
	m := map[*Term]*Term{}
	walkTerm(t, func(x *Term) bool {
		if x.op == ORep && planDom(x.args[0]) {
			m[x.args[0]] = planSym
		}
		return true
	})
	return substTerm(t, m), m
}

func toText(t *Term) *Term {
	switch t.op {
	case OList:
		var ps []*Term
		for _, x := range t.args {
			ps = append(ps, toText(x))
		}
		return mkStr(ps...)
	case OIte:
		return mkIte(t.bdd, toText(t.args[0]), toText(t.args[1]))
	case ORep:
		e := mk(Term{op: OSym, str: fmt.Sprintf("$p%d", freshID())})
		ix := mk(Term{op: OSym, str: fmt.Sprintf("$q%d", freshID())})
		return rebuildRep("str", t.args[0], toText(substTerm(t.args[1], openMap(t, e, ix))), e, ix)
	case OItem:
		return t.args[0]
	case OConst:
		return tEmptyStr
	}
	return t
}

func evName(t *Term) string {
	if t.op == OApp && strings.HasPrefix(t.str, "ev:") {
		return t.str[3:]
	}
	return ""
}

// C02a/C03: the loops over the plan.
func checkC03(c *Check) {
	c.explain = append(c.explain, "The successful execution of each command is evaluated to a gated event list; specialised to --dry-run and to a real run, the text printed for the statements of the plan must be the same term (same statements, order and markings), and in a real run each executed statement must be an element of the plan printed verbatim before, and each unexecuted one must be printed with the Skipped marking.")
	for _, r := range c.commands(false) {
		dry, ok1 := r.flagBDD("dry-run")
		exp, ok2 := r.flagBDD("export")
		if !c.require(ok1 && ok2, "flag-honoured", r.cmd+"/dry-run", "", "no decision of the command depends on --dry-run") {
			continue
		}
		ok := bAnd(r.res.alive, bNot(exp))
		trace, m := namePlan(r.trace)
		c.require(len(m) == 1, "one-plan", r.cmd, "", fmt.Sprintf("the command iterates over %d different plans", len(m)))
		ok = bAnd(substBDD(ok, m), bNot(emptyBDD(planSym)))
		ok = bAnd(ok, facts(ok))
		real := restrictTerm(trace, bAnd(ok, bNot(dry)))
		prev := restrictTerm(trace, bAnd(ok, dry))
		outPlan := func(t *Term) *Term {
			return fuse(projectList(t, func(x *Term) *Term {
				if n := evName(x); n == "out:stdout" {
					return x.args[0]
				}
				return nil
			}))
		}
		planReps := func(t *Term) []Emission {
			var out []Emission
			for _, e := range emissions(t) {
				in := false
				for _, l := range e.loops {
					if planDom(l.args[0]) {
						in = true
					}
				}
				if in {
					out = append(out, e)
				}
			}
			return out
		}
		keepPlan := func(t *Term) *Term { // only the part produced by loops over the plan
			var rec func(t *Term) *Term
			rec = func(t *Term) *Term {
				switch t.op {
				case OList:
					var ps []*Term
					for _, x := range t.args {
						ps = append(ps, rec(x))
					}
					return mkList(ps...)
				case OIte:
					return mkIte(t.bdd, rec(t.args[0]), rec(t.args[1]))
				case ORep:
					if planDom(t.args[0]) {
						return t
					}
				}
				return tEmptyList
			}
			return rec(t)
		}
		po, ro := outPlan(prev), outPlan(real)
		pt, rt := toText(keepPlan(po)), toText(keepPlan(ro))
		np, nr := len(planReps(po)), len(planReps(ro))
		c.stats["statement prints (preview) "+r.cmd] = np
		c.stats["statement prints (apply) "+r.cmd] = nr
		c.require(np > 0 && nr > 0, "prints-plan", r.cmd, "", fmt.Sprintf("the plan is printed by %d places in the preview and %d in the real run", np, nr))
		c.require(pt == rt, "preview-equals-apply", r.cmd, "", "text printed by --dry-run: "+short(pp(pt), 300)+" — text printed by a real run: "+short(pp(rt), 300))
		// executed statements
		var elem = mk(Term{op: OSym, str: "$stmt", typ: nil})
		both := fuse(projectList(real, func(x *Term) *Term {
			n := evName(x)
			if n == "out:stdout" {
				return x
			}
			if isSQL(n) && sqlExecs[method(n)] > 0 {
				return x
			}
			return nil
		}))
		type line struct {
			e    Emission
			text *Term
		}
		var prints, execs []line
		for _, e := range emissions(both) {
			n := evName(e.item)
			inPlan := false
			m := map[*Term]*Term{}
			for _, l := range e.loops {
				if planDom(l.args[0]) {
					inPlan = true
					for k, v := range openMap(l, elem, nil) {
						m[k] = v
					}
				}
			}
			if n == "out:stdout" {
				if inPlan {
					prints = append(prints, line{Emission{g: substBDD(e.g, m), seq: e.seq}, substTerm(e.item.args[0], m)})
				}
				continue
			}
			if !isSQL(n) || sqlExecs[method(n)] == 0 {
				continue
			}
			x := e.item.args[sqlExecs[method(n)]]
			if !c.require(inPlan && substTerm(x, m) == elem, "executes-plan-elements", r.cmd+"/"+n, c.p.posStr(c.p.eventPos[e.item]), "the executed text is not an element of the plan: "+short(pp(x), 200)) {
				continue
			}
			execs = append(execs, line{Emission{g: substBDD(e.g, m), seq: e.seq}, elem})
		}
		c.require(len(execs) > 0, "executes-plan", r.cmd, "", "no statement of the plan is executed in a real run")
		all := False
		for _, x := range execs {
			all = bOr(all, x.e.g)
			// printed verbatim before
			cov := False
			for _, p := range prints {
				if p.e.seq > x.e.seq {
					continue
				}
				ps := strParts(restrictTerm(p.text, x.e.g))
				if len(ps) == 2 && ps[0] == elem {
					if s, ok := ps[1].strConst(); ok && s == ";\n" {
						cov = bOr(cov, p.e.g)
					}
				}
			}
			c.require(implies(x.e.g, cov), "printed-before-executed", r.cmd, "", "a statement is executed without having been printed verbatim before, when "+ppb(bAnd(x.e.g, bNot(cov)), 4))
		}
		// what is not executed is marked
		loopG := True
		for _, p := range prints {
			g := bAnd(p.e.g, bNot(all))
			if unsat(bAnd(g, loopG)) {
				continue
			}
			t := restrictTerm(p.text, bAnd(p.e.g, bNot(all)))
			ps := strParts(t)
			ok := false
			if len(ps) >= 2 {
				s, isC := ps[0].strConst()
				ok = isC && strings.HasPrefix(s, "-- Skipped") && ps[1] == elem
			}
			c.require(ok, "unexecuted-is-marked", r.cmd, "", "a statement that is not executed is printed without the Skipped marking: "+short(pp(t), 200))
		}
	}
}

// ---- C04

func checkC04(c *Check) {
	c.explain = append(c.explain, "On every path of each command (including every failing one) the transaction calls are enumerated with guards: one Begin outside loops; every executed statement goes through that transaction, in one loop over the complete plan that is left when a statement fails; Commit only when no executed statement failed; every way out of the command after Begin has either committed or rolled back.")
	for _, r := range c.commands(false) {
		skip, _ := r.flagBDD("skip-drop")
		var begins, execs, commits []*CallInst
		idx := map[*CallInst]int{}
		for i, ci := range r.ev.calls {
			idx[ci] = i
			if !isSQL(ci.name) {
				continue
			}
			m := method(ci.name)
			switch {
			case m == "Begin" || m == "BeginTx":
				begins = append(begins, ci)
			case sqlExecs[m] > 0:
				execs = append(execs, ci)
			case m == "Commit":
				commits = append(commits, ci)
			case m == "Prepare" || m == "PrepareContext" || m == "Conn":
				c.require(false, "no-other-route", r.cmd+"/"+ci.name, c.at(ci), "statements may reach the database outside the Begin/Exec/Commit protocol")
			}
		}
		if !c.require(len(begins) > 0 && len(execs) > 0, "anchor", r.cmd+"/transaction", "", fmt.Sprintf("%d Begin and %d Exec calls found", len(begins), len(execs))) {
			continue
		}
		for i, b := range begins {
			c.require(len(b.loops) == 0, "one-transaction", r.cmd+"/begin-in-loop", c.at(b), "a transaction is opened inside a loop")
			for _, b2 := range begins[i+1:] {
				c.require(unsat(bAnd(b.g, b2.g)), "one-transaction", r.cmd+"/second-begin", c.at(b2), "two transactions are opened in one run")
			}
		}
		txOf := func(t *Term) *CallInst {
			for _, b := range begins {
				if t == mkField(b.res, "0", nil) {
					return b
				}
			}
			return nil
		}
		failed := False
		for _, x := range execs {
			b := txOf(x.args[0])
			c.require(sqlType(x.name) == "Tx" && b != nil, "exec-through-transaction", r.cmd, c.at(x), "a statement is executed outside the transaction: "+x.name+" on "+short(pp(x.args[0]), 100))
			inPlan := len(x.loops) == 1 && planDom(x.loops[0].dom)
			if !c.require(inPlan, "one-loop-over-plan", r.cmd, c.at(x), "the statement is not executed by one loop over the complete plan") {
				continue
			}
			// every statement when nothing is skipped: the guard depends on the element only under skip-drop
			l := x.loops[0]
			e := mkElem(l.dom, l.depth, nil)
			g := bAnd(x.g, bNot(skip))
			inner := False
			for _, a := range bSupport(g) {
				if mentions(a, e) || mentions(a, mkIdx(l.dom, l.depth)) {
					inner = bOr(inner, bOr(bAnd(g, bNot(bRestrict(g, a, true))), bAnd(g, bNot(bRestrict(g, a, false)))))
				}
			}
			c.require(unsat(inner), "executes-every-statement", r.cmd, c.at(x), "whether a statement is executed depends on more than --skip-drop: "+ppb(g, 4))
			er := x.errTerm()
			f := bAnd(x.g, bNot(isNilBDD(er)))
			c.require(len(x.exits) == 1 && implies(f, x.exits[0]), "stops-at-first-failure", r.cmd, c.at(x), "the loop goes on after a failed statement")
			failed = bOr(failed, closeLoops(x.loops, f))
		}
		ok := False
		for _, m := range commits {
			c.require(txOf(m.args[0]) != nil, "commit-of-the-transaction", r.cmd, c.at(m), "Commit on something that is not the opened transaction")
			c.require(len(m.loops) == 0, "commit-once", r.cmd, c.at(m), "Commit inside a loop")
			c.require(unsat(bAnd(m.g, failed)), "no-commit-after-failure", r.cmd, c.at(m), "Commit is reached although a statement failed: "+ppb(bAnd(m.g, failed), 3))
			ok = bOr(ok, bAnd(m.g, isNilBDD(m.errTerm())))
			for _, x := range execs {
				c.require(idx[x] < idx[m] || unsat(bAnd(closeLoops(x.loops, x.g), m.g)), "commit-after-last-statement", r.cmd, c.at(m), "a statement is executed after Commit")
			}
			for _, m2 := range commits {
				if idx[m2] > idx[m] {
					c.require(unsat(bAnd(m.g, m2.g)), "commit-once", r.cmd, c.at(m2), "Commit is called twice")
				}
			}
		}
		for _, b := range begins {
			c.require(implies(bAnd(r.res.alive, bAnd(b.g, isNilBDD(b.errTerm()))), ok), "success-means-committed", r.cmd, c.at(b), "the run ends successfully although the transaction was not (successfully) committed, when "+short(ppb(bAnd(bAnd(r.res.alive, bAnd(b.g, isNilBDD(b.errTerm()))), bNot(ok)), 4), 400))
		}
		c.stats["transaction calls "+r.cmd] = len(begins) + len(execs) + len(commits)
	}
	c.floor("functions that begin a transaction", c.txReleased(c.units(dbPkgs...)), 1)
}

type outcome struct {
	g     BDD
	trace *Term
	what  string
	pos   string
	ret   *Term
}

// ---- C05 / C06

// calls whose error result carries no information the property is about.
func exemptError(name string) string {
	switch name {
	case "(*database/sql.Tx).Rollback":
		return "a failed rollback adds nothing to the error already being returned"
	case "os.Stat", "os.Lstat":
		return "probe for a socket file"
	case "(*os.File).Stat":
		return "terminal test of standard input"
	}
	if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "io.WriteString") || strings.HasPrefix(name, "(*strings.Builder)") || strings.HasPrefix(name, "(*bytes.Buffer)") {
		return "writing messages"
	}
	if strings.HasSuffix(name, ".Close") {
		return "releasing a resource"
	}
	return ""
}

type fallible struct {
	ci   *CallInst
	err  *Term
	fail BDD // closed over its loops
	open BDD
}

func (r *CmdRun) fallibles() []fallible {
	var out []fallible
	for _, ci := range r.ev.calls {
		e := ci.errTerm()
		if e == nil || exemptError(ci.name) != "" {
			continue
		}
		if strings.HasPrefix(ci.name, "fmt.Errorf") || strings.HasPrefix(ci.name, "errors.") {
			continue
		}
		f := bAnd(ci.g, bNot(isNilBDD(e)))
		if f == False {
			continue
		}
		out = append(out, fallible{ci, e, closeLoops(ci.loops, f), f})
	}
	return out
}

func callKey(ci *CallInst) string {
	s := strings.ReplaceAll(ci.name, modPath+"/", "")
	for _, a := range ci.args {
		if isSQL(ci.name) {
			if k := firstConst(a); k != "" && a.isStrLike() {
				return s + " «" + short(strings.Join(strings.Fields(k), " "), 50) + "»"
			}
		}
	}
	return s
}

func scanKey(c *Check, ci *CallInst) string {
	k := callKey(ci)
	if isSQL(ci.name) && len(ci.args) > 0 {
		if q := queryOf(ci.args[0]); q != "" {
			k += " of «" + q + "»"
		}
	}
	return k
}

// queryOf finds the query text a rows/row value comes from.
func queryOf(t *Term) string {
	for i := 0; i < 10; i++ {
		switch t.op {
		case OField, OElem, OBElem, OFirst:
			t = t.args[0]
		case OApp:
			if isSQL(t.str) {
				if k, ok := sqlQueries[method(t.str)]; ok && k < len(t.args) {
					return short(strings.Join(strings.Fields(firstConst(t.args[k])), " "), 60)
				}
			}
			if len(t.args) == 0 {
				return ""
			}
			t = t.args[0]
		default:
			return ""
		}
	}
	return ""
}

func exitCode(t Termination) (int64, bool) {
	switch t.kind {
	case "os.Exit", "syscall.Exit":
		if len(t.args) > 0 {
			if n, ok := t.args[0].intConst(); ok {
				return n, true
			}
		}
		return 0, false
	case "runtime.Goexit":
		return 0, false
	}
	return 1, true
}

func checkC05(c *Check) {
	c.explain = append(c.explain, "Every call that can report an error (driver, file system, parser, conversions) is enumerated with its guard, in whole-command evaluations of the four commands and in per-function evaluations of the planner package; for each, the assumption that it failed must contradict every successful end of the enclosing unit, i.e. the failure reaches the end of the command or the returned error on every path. After each row loop the rows' own error must have been consulted.")
	n := 0
	for _, r := range c.commands(false) {
		for _, f := range r.fallibles() {
			n++
			bad := bAnd(f.fail, r.res.alive)
			c.require(unsat(bad), "error-reaches-end", r.dialect+"/"+scanKey(c, f.ci), c.at(f.ci), "the command can end successfully although this call failed")
			for _, t := range r.res.terms {
				if code, ok := exitCode(t); ok && code == 0 {
					c.require(unsat(bAnd(f.fail, t.g)), "error-reaches-end", r.dialect+"/"+scanKey(c, f.ci), c.at(f.ci), "the command can exit with status 0 although this call failed")
				}
			}
		}
		c.rowsErr(r)
	}
	c.floor("fallible calls in commands", n, 40)
	c.schemaErrors()
}

// rowsErr: a row loop that ended may have ended because of an error.
func (c *Check) rowsErr(r *CmdRun) {
	n := 0
	for _, ci := range r.ev.calls {
		if ci.name != "(*database/sql.Rows).Next" || len(ci.loops) == 0 {
			continue
		}
		rows := ci.args[0]
		outer := ci.loops[:len(ci.loops)-1]
		// some Err() on the same rows, after the loop, whose failure is fatal
		var g BDD = False
		for _, x := range r.ev.calls {
			if x.name == "(*database/sql.Rows).Err" && x.args[0] == rows {
				e := isNilBDD(x.errTerm())
				g = bOr(g, bAnd(x.g, e))
			}
		}
		n++
		// on success of the command, the loop having been entered implies a nil Err
		q := rows
		reached := True
		if q.op == OField {
			for _, y := range r.ev.calls {
				if y.res == q.args[0] {
					reached = bAnd(y.g, isNilBDD(y.errTerm()))
				}
			}
		}
		bad := closeLoops(outer, bAnd(reached, bNot(g)))
		c.require(unsat(bAnd(bad, r.res.alive)), "rows-error-consulted", r.dialect+"/rows of «"+queryOf(rows)+"»", c.at(ci), "a result set may end early because of an error, but Rows.Err is not consulted before the rows are used as complete")
	}
	c.stats["row loops "+r.cmd] = n
}

func checkC06(c *Check) {
	c.explain = append(c.explain, "For each step (connect, dump, read, parse/plan, apply) of each command: assuming a call of the step failed, no later step's call is reachable, the process cannot end normally or with status 0, and a message is printed; conversely each non-zero termination implies that some call failed or that the command line or standard input was unusable.")
	for _, r := range c.commands(false) {
		fs := r.fallibles()
		idx := map[*CallInst]int{}
		for i, ci := range r.ev.calls {
			idx[ci] = i
		}
		isStep := func(ci *CallInst) bool {
			if isSQL(ci.name) {
				switch method(ci.name) {
				case "Query", "QueryRow", "QueryContext", "QueryRowContext", "Begin", "BeginTx", "Exec", "ExecContext", "Commit":
					return true
				}
				return false
			}
			return isPlanner(ci.name) || strings.HasPrefix(ci.name, "io/ioutil.Read") || ci.name == "os.ReadFile" || ci.name == "io.ReadAll" || ci.name == "database/sql.Open"
		}
		steps := 0
		nonzero := False
		for _, t := range r.res.terms {
			if code, ok := exitCode(t); ok && code != 0 {
				nonzero = bOr(nonzero, t.g)
			}
		}
		for _, f := range fs {
			if isSQL(f.ci.name) && method(f.ci.name) == "Err" || isPlanner(f.ci.name) || isStep(f.ci) || isSQL(f.ci.name) || strings.Contains(f.ci.name, "ParseArgs") || strings.Contains(f.ci.name, "ReadPassword") {
				k := r.dialect + "/" + scanKey(c, f.ci)
				c.require(unsat(bAnd(f.fail, r.res.alive)) && implies(f.fail, nonzero), "failure-exits-non-zero", k, c.at(f.ci), "after this call failed the command can end without a non-zero exit status")
				for _, s := range r.ev.calls {
					if !isStep(s) || idx[s] <= idx[f.ci] || s.g == False {
						continue
					}
					steps++
					// common loops stay open
					n := 0
					for n < len(s.loops) && n < len(f.ci.loops) && s.loops[n] == f.ci.loops[n] {
						n++
					}
					a := closeLoops(f.ci.loops[n:], f.open)
					b := closeLoops(s.loops[n:], s.g)
					ok := unsat(bAnd(a, b))
					c.require(ok, "no-later-step", k+" then "+callKey(s), c.at(s), "this step is still performed after the failure of "+f.ci.name+" at "+c.at(f.ci))
				}
			}
		}
		c.stats["failure/later-step pairs "+r.cmd] = steps
		// converse: no failure, no error exit
		noFail := True
		for _, f := range fs {
			noFail = bAnd(noFail, bNot(f.fail))
		}
		for _, t := range r.res.terms {
			code, ok := exitCode(t)
			c.require(ok, "constant-exit-status", r.cmd+"/"+t.kind, c.p.posStr(t.pos), "exit status is not a constant")
			if !ok || code == 0 {
				continue
			}
			// conditions on the command line or on standard input are usage errors
			g := bAnd(t.g, noFail)
			usage := false
			for _, a := range bSupport(g) {
				s := pp(a)
				if strings.Contains(s, "ParseArgs") || strings.Contains(s, "Mode(") {
					// the exit must depend on it
					if bRestrict(g, a, true) == False || bRestrict(g, a, false) == False {
						usage = true
					}
				}
			}
			c.require(usage || unsat(g), "success-exits-zero", r.cmd+"/"+t.kind+"/"+short(msgKey(t), 40), c.p.posStr(t.pos), "the command exits with an error although no step failed, when "+short(ppb(g, 4), 300))
			// message
			msg := false
			if strings.HasPrefix(t.kind, "log.") && len(t.args) > 0 {
				msg = true
			}
			said := False
			for _, e := range emissions(t.trace) {
				if strings.HasPrefix(evName(e.item), "out:") {
					msg = msg || implies(t.g, e.g)
					if len(e.loops) == 0 {
						said = bOr(said, e.g)
					}
				}
			}
			msg = msg || implies(t.g, said)
			c.require(msg || t.kind == "panic", "failure-has-message", r.cmd+"/"+t.kind+"/"+short(msgKey(t), 40), c.p.posStr(t.pos), "the command exits with an error without a message")
		}
		c.require(r.res.alive != False, "can-succeed", r.cmd, "", "the command never ends successfully")
	}
}

func msgKey(t Termination) string {
	s := ""
	for _, a := range t.args {
		if x := firstConst(a); x != "" {
			s += x
		}
	}
	return strings.TrimSpace(s)
}

// ---- C22

type unit struct {
	fn  *ssa.Function
	ev  *Eval
	res Result
}

// units evaluates every function of the packages by itself, callees inlined.
func (c *Check) units(pkgs ...string) []unit {
	var out []unit
	for _, rel := range pkgs {
		for _, fn := range c.p.functions(rel) {
			ev := c.p.mainEval()
			var args []*Term
			for _, q := range fn.Params {
				args = append(args, mkSym("$"+q.Name(), q.Type()))
			}
			res := ev.Call(fn, args, nil, newState(), 0, "root")
			out = append(out, unit{fn, ev, res})
		}
	}
	return out
}

var dbPkgs = []string{"adapter", "adapter/mysql", "adapter/postgres", "adapter/mssql", "adapter/sqlite3", "."}

func (u unit) outcomes(c *Check) []outcome {
	var out []outcome
	for _, r := range u.res.rets {
		t, ok := r.st.get(traceKey)
		if !ok {
			t = tEmptyList
		}
		out = append(out, outcome{r.g, t, "return", "", r.v})
	}
	for _, t := range u.res.terms {
		out = append(out, outcome{t.g, t.trace, t.kind, c.p.posStr(t.pos), nil})
	}
	return out
}

// acquired lists the calls of the unit that acquire something the unit itself
// must release: those written in it and those of helpers handing it over.
func (u unit) acquired(methods ...string) []*CallInst {
	var out []*CallInst
	for _, ci := range u.ev.calls {
		if !isSQL(ci.name) {
			continue
		}
		hit := false
		for _, m := range methods {
			hit = hit || method(ci.name) == m
		}
		if !hit {
			continue
		}
		if ci.fn != u.fn && ci.fn.Parent() != u.fn {
			owner := false
			rs := ci.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				s := rs.At(i).Type().String()
				if s == "*database/sql.Rows" || s == "*database/sql.Tx" {
					owner = true
				}
			}
			if !owner {
				continue
			}
		}
		out = append(out, ci)
	}
	return out
}

// handsOver: the value itself is (part of) what is returned.
func handsOver(t, val *Term) bool {
	if t == val {
		return true
	}
	switch t.op {
	case OTuple, OIte, OIface, OStruct, OList, OItem:
		for _, x := range t.args {
			if handsOver(x, val) {
				return true
			}
		}
	}
	return false
}

// released checks that on every outcome of the unit, what the call yields has
// been given back by one of the closing methods (or a completed Next loop).
func (c *Check) released(u unit, b *CallInst, closers map[string]bool, rule, key, msg string) {
	val := mkField(b.res, "0", nil)
	for _, o := range u.outcomes(c) {
		if o.ret != nil && handsOver(o.ret, val) {
			continue // handed to the caller
		}
		es := emissions(o.trace)
		for _, e := range es {
			if evName(e.item) != b.name || len(e.item.args) != len(b.res.args) {
				continue
			}
			res := mkApp(b.name, nil, e.item.args...)
			if e.item.args[len(e.item.args)-1] != b.res.args[len(b.res.args)-1] { // another call site
				continue
			}
			v := mkField(res, "0", nil)
			errT := mkField(res, "1", nil)
			cov := False
			for _, x := range es {
				if x.seq <= e.seq {
					continue
				}
				n := evName(x.item)
				if !isSQL(n) || len(x.item.args) == 0 || x.item.args[0] != v {
					continue
				}
				if closers[method(n)] && len(x.loops) <= len(e.loops) {
					cov = bOr(cov, x.g)
				}
				if method(n) == "Next" && !x.prior && len(x.loops) > len(e.loops) {
					if l := x.loops[len(e.loops)]; l.args[0].op == OApp && l.args[0].str == "rows" && l.args[0].args[0] == v {
						cov = bOr(cov, x.g)
					}
				}
			}
			need := bAnd(bAnd(o.g, e.g), isNilBDD(errT))
			w := o.what
			if o.pos != "" {
				w += " " + o.pos
			}
			c.require(implies(need, cov), rule, key, c.at(b), msg+" on the path ending in "+w+" when "+short(ppb(bAnd(need, bNot(cov)), 3), 300))
		}
	}
}

func (c *Check) txReleased(us []unit) int {
	n := 0
	for _, u := range us {
		for _, b := range u.acquired("Begin", "BeginTx") {
			n++
			c.released(u, b, map[string]bool{"Commit": true, "Rollback": true}, "committed-or-rolled-back", fnKey(u.fn), "the transaction is neither committed nor rolled back")
		}
	}
	return n
}

func fnKey(fn *ssa.Function) string { return strings.ReplaceAll(fn.String(), modPath+"/", "") }

func checkC22(c *Check) {
	c.explain = append(c.explain, "Every function that talks to the database is evaluated by itself (callees inlined); on each of its ways out (every return statement and every process exit) the event list is scanned: each successful Query must be followed on that path by Close of its rows or a completed Next loop over them, or hand the rows to the caller; each QueryRow must be scanned; each Begin must be followed by Commit or Rollback; nothing is used after Close.")
	us := c.units(dbPkgs...)
	nq, nr, outs := 0, 0, 0
	for _, u := range us {
		outs += len(u.outcomes(c))
		for _, b := range u.acquired("Query", "QueryContext") {
			nq++
			k := fnKey(u.fn) + "/«" + queryOf(b.res) + "»"
			c.released(u, b, map[string]bool{"Close": true}, "rows-released", k, "the rows are not closed")
			rows := mkField(b.res, "0", nil)
			for _, o := range u.outcomes(c) {
				es := emissions(o.trace)
				for _, x := range es {
					if evName(x.item) == "(*database/sql.Rows).Close" && x.item.args[0] == rows {
						for _, y := range es {
							if y.seq > x.seq && evName(y.item) == "(*database/sql.Rows).Next" && y.item.args[0] == rows {
								c.require(unsat(bAnd(o.g, bAnd(x.g, y.g))), "no-use-after-close", k, c.at(b), "the rows are read after they were closed")
							}
						}
					}
				}
			}
		}
		for _, ci := range u.acquired("QueryRow", "QueryRowContext") {
			nr++
			found := False
			for _, x := range u.ev.calls {
				if x.name == "(*database/sql.Row).Scan" && x.args[0] == ci.res {
					found = bOr(found, x.g)
				}
			}
			c.require(implies(ci.g, found), "row-scanned", fnKey(u.fn)+"/«"+queryOf(ci.res)+"»", c.at(ci), "QueryRow without Scan keeps the connection busy")
		}
	}
	nt := c.txReleased(us)
	c.stats["functions evaluated"] = len(us)
	c.stats["ways out of those functions"] = outs
	c.floor("result sets", nq, 17)
	c.stats["single-row queries"] = nr
	c.floor("transactions", nt, 1)
}

var _ = constant.MakeBool
