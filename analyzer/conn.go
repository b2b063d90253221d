package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func init() { checks0["C18"] = checkC18 }

// ---- C18: connection options

var connSpec = map[string]struct {
	driver, pwEnv string
	env           []string // further environment variables that become connection options
	socket        bool
}{
	"mysqldef":   {"mysql", "MYSQL_PWD", nil, true},
	"psqldef":    {"postgres", "PGPASSWORD", []string{"PGSSLMODE:sslmode", "PGSSLROOTCERT:sslrootcert"}, true},
	"mssqldef":   {"sqlserver", "MSSQL_PWD", nil, false},
	"sqlite3def": {"sqlite3", "", nil, false},
}

// optName gives the command line option a term is the value of.
func optName(t *Term) string {
	if t.op == OField {
		if m := longTag.FindStringSubmatch(structTags(t.args[0].typ)[t.str]); m != nil {
			return m[1]
		}
	}
	return ""
}

// connCanon names the inputs a connection is made of: opt:x, env:x, envset:x,
// prompt, db and the decimal text of a number.
func connCanon(t *Term) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	walkTerm(t, func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if n := optName(x); n != "" {
			m[x] = mkSym("opt:"+n, x.typ)
			return false
		}
		if x.op == OField && x.args[0].op == OApp {
			a := x.args[0]
			switch a.str {
			case "os.LookupEnv":
				k, _ := a.args[0].strConst()
				if x.str == "0" {
					m[x] = mkSym("env:"+k, types.Typ[types.String])
				} else {
					m[x] = mkSym("envset:"+k, types.Typ[types.Bool])
				}
				return false
			case "golang.org/x/term.ReadPassword":
				if x.str == "0" {
					m[x] = mkSym("prompt", types.Typ[types.String])
				}
				return false
			}
		}
		if x.op == OApp && x.str == "index" && len(x.args) == 2 {
			if a := x.args[0]; a.op == OField && a.str == "0" && a.args[0].op == OApp && strings.HasSuffix(a.args[0].str, "go-flags.Parser).ParseArgs") {
				if i, ok := x.args[1].intConst(); ok && i == 0 {
					m[x] = mkSym("db", types.Typ[types.String])
				}
				return false
			}
		}
		return true
	})
	r := substTerm(t, m)
	// decimal text of a number
	n := map[*Term]*Term{}
	walkTerm(r, func(x *Term) bool {
		if x.op == OApp && (x.str == "fmt%d" || x.str == "fmt%v" || x.str == "strconv.Itoa" || x.str == "strconv.FormatInt" || x.str == "strconv.FormatUint") && len(x.args) > 0 {
			a := x.args[0]
			for a.op == OApp && strings.HasPrefix(a.str, "conv:") {
				a = a.args[0]
			}
			if len(x.args) > 1 {
				if b, ok := x.args[1].intConst(); !ok || b != 10 {
					return true
				}
			}
			if a.op == OSym {
				n[x] = mkSym("num:"+a.str, types.Typ[types.String])
			}
		}
		return true
	})
	r = substTerm(r, n)
	n = map[*Term]*Term{}
	walkTerm(r, func(x *Term) bool {
		if x.op == ODeref && x.args[0].op == OApp && x.args[0].str == "mapcell" {
			n[x] = tNil // a key that was not set
		}
		if x.op == OApp && x.str == "net.JoinHostPort" {
			n[x] = mkStr(x.args[0], mkStrC(":"), x.args[1])
		}
		return true
	})
	return substTerm(r, n)
}

// same: the two values agree wherever both apply.
func same(a, b *Term, ctx BDD) (bool, string) {
	for _, x := range cases(distribute(a)) {
		for _, y := range cases(distribute(b)) {
			if x.text == y.text || x.text.op == OUndef {
				continue
			}
			g := bAnd(ctx, bAnd(x.g, y.g))
			if !unsat(g) {
				return false, fmt.Sprintf("it is %s instead of %s when %s", short(pp(x.text), 200), short(pp(y.text), 200), short(ppb(g, 6), 200))
			}
		}
	}
	return true, ""
}

func connField(t *Term, name string) *Term { return mkField(t, name, nil) }

func (c *Check) connRole(key, where, role string, got, want *Term, ctx BDD) {
	if got == nil {
		c.require(false, "connection", key+"/"+role, where, "the "+role+" does not reach the connection")
		return
	}
	ok, why := same(got, want, ctx)
	c.require(ok, "connection", key+"/"+role, where, "the "+role+" used for the connection is wrong: "+why)
}

func checkC18(c *Check) {
	str := types.Typ[types.String]
	for _, r := range c.commands(true) {
		spec := connSpec[r.cmd]
		n := 0
		for _, ci := range r.ev.calls {
			if ci.name != "database/sql.Open" || len(ci.args) != 2 {
				continue
			}
			n++
			key, where := r.cmd, c.at(ci)
			d, _ := ci.args[0].strConst()
			c.require(d == spec.driver, "driver", key, where, fmt.Sprintf("the command must connect with driver %q, not %q", spec.driver, short(pp(ci.args[0]), 60)))
			dsn := connCanon(ci.args[1])
			db, user, host := mkSym("db", str), mkSym("opt:user", str), mkSym("opt:host", str)
			port := mkSym("num:opt:port", str)
			pw := mkSym("opt:password", str)
			if spec.pwEnv != "" {
				set := atomBDD(mkSym("envset:"+spec.pwEnv, types.Typ[types.Bool]))
				pw = mkIte(set, mkSym("env:"+spec.pwEnv, str), pw)
				pw = mkIte(atomBDD(mkSym("opt:password-prompt", types.Typ[types.Bool])), mkSym("prompt", str), pw)
			}
			hp := mkStr(host, mkStrC(":"), port)
			switch r.cmd {
			case "sqlite3def":
				c.connRole(key, where, "database", dsn, db, True)
			case "mysqldef":
				if !c.require(dsn.op == OApp && strings.HasSuffix(dsn.str, "mysql.Config).FormatDSN"), "escaping", key, where, "the data source name must be built by the driver's own formatter, which escapes it") {
					continue
				}
				cfg := mkDeref(dsn.args[0], nil)
				sock := mkSym("opt:socket", str)
				nosock := eqBDD(sock, tEmptyStr)
				c.connRole(key, where, "user", connField(cfg, "User"), user, True)
				c.connRole(key, where, "password", connField(cfg, "Passwd"), pw, True)
				c.connRole(key, where, "database", connField(cfg, "DBName"), db, True)
				c.connRole(key, where, "network", connField(cfg, "Net"), mkIte(nosock, mkStrC("tcp"), mkStrC("unix")), True)
				c.connRole(key, where, "address", connField(cfg, "Addr"), mkIte(nosock, hp, sock), True)
			default:
				if !c.require(dsn.op == OApp && dsn.str == "(*net/url.URL).String", "escaping", key, where, "the data source name must be built by net/url, which escapes each part") {
					continue
				}
				u := mkDeref(dsn.args[0], nil)
				schemes := map[string]string{"psqldef": "postgres", "mssqldef": "sqlserver"}
				c.connRole(key, where, "scheme", connField(u, "Scheme"), mkStrC(schemes[r.cmd]), True)
				ui := connField(u, "User")
				if !c.require(ui.op == OApp && ui.str == "net/url.UserPassword", "connection", key+"/userinfo", where, "user and password must be given as the URL's user information") {
					continue
				}
				c.connRole(key, where, "user", ui.args[0], user, True)
				c.connRole(key, where, "password", ui.args[1], pw, True)
				q := connField(u, "RawQuery")
				params := map[string]*Term{}
				if q.op == OApp && q.str == "url.Encode" {
					for i := 0; i+1 < len(q.args); i += 2 {
						k, _ := q.args[i].strConst()
						params[k] = q.args[i+1]
					}
				} else {
					c.require(q.op == OConst || q.op == OZero, "escaping", key+"/query", where, "the URL's query is not encoded: "+short(pp(q), 80))
				}
				for _, e := range spec.env {
					v, o, _ := strings.Cut(e, ":")
					set := atomBDD(mkSym("envset:"+v, types.Typ[types.Bool]))
					c.connRole(key, where, o, params[o], mkIte(set, mkSym("env:"+v, str), tNil), True)
				}
				if r.cmd == "mssqldef" {
					c.connRole(key, where, "host", connField(u, "Host"), hp, True)
					c.connRole(key, where, "database", params["database"], db, True)
					continue
				}
				c.connRole(key, where, "database", connField(u, "Path"), mkStr(mkStrC("/"), db), True)
				// the host is a socket directory when it exists as a file
				isdir := False
				for _, b := range bSupport(socketGuard(connField(u, "Host"))) {
					if strings.HasPrefix(b.str, "os.IsNotExist") {
						isdir = bNot(atomBDD(b))
					}
				}
				nohost := eqBDD(host, tEmptyStr)
				if !c.require(isdir != False, "connection", key+"/socket", where, "a host that is a socket directory is not told from a host name") {
					continue
				}
				sock := bAnd(isdir, bNot(nohost))
				c.connRole(key, where, "host", connField(u, "Host"), mkIte(sock, tEmptyStr, hp), True)
				c.connRole(key, where, "socket directory", params["host"], mkIte(sock, host, tNil), True)
				c.connRole(key, where, "socket port", params["port"], mkIte(sock, port, tNil), True)
			}
		}
		c.require(n == 1, "connection", r.cmd+"/opened once", "", fmt.Sprintf("the command opens %d connections", n))
		c.schemaFile(r)
	}
	c.usage()
	c.explain = append(c.explain, "Each command's main is evaluated symbolically; the data source name given to sql.Open is decomposed by the documented structure of the driver's formatter or net/url and each part is compared, case by case, with the option, environment variable or prompt it must come from. Option names, letters and defaults are compared with the documented usage.")
	c.assume = append(c.assume, "net/url and the MySQL driver's FormatDSN escape what they are given; go-flags fills the options as its tags say")
}

func socketGuard(t *Term) BDD {
	g := True
	for _, k := range cases(distribute(t)) {
		for _, a := range bSupport(k.g) {
			g = bAnd(g, atomBDD(a))
		}
	}
	return g
}

// schemaFile: the file read is the one given by the option, or standard input for "-".
func (c *Check) schemaFile(r *CmdRun) {
	str := types.Typ[types.String]
	file := mkSym("opt:file", str)
	isStd := eqBDD(file, mkStrC("-"))
	nf, ns := 0, 0
	for _, ci := range r.ev.calls {
		switch ci.name {
		case "io/ioutil.ReadFile", "os.ReadFile", "os.Open":
			nf++
			a := connCanon(ci.args[0])
			g := toBDD(connCanon(fromBDD(ci.g)))
			ok, why := same(a, file, g)
			c.require(ok, "schema file", r.cmd+"/name", c.at(ci), "the file read is not the one given with --file: "+why)
			c.require(implies(g, bNot(isStd)), "schema file", r.cmd+"/stdin", c.at(ci), "a file is read although --file is \"-\"")
		case "io/ioutil.ReadAll", "io.ReadAll":
			ns++
			g := toBDD(connCanon(fromBDD(ci.g)))
			c.require(implies(g, isStd), "schema file", r.cmd+"/file", c.at(ci), "standard input is read although --file names a file")
		}
	}
	c.require(nf == 1 && ns == 1, "schema file", r.cmd+"/reads", "", fmt.Sprintf("%d file reads and %d standard input reads", nf, ns))
}

var usageLine = regexp.MustCompile(`^\s+(?:-(\w), |\s+)--([\w-]+)(?:=([\w]+))?\s+(.*?)(?: \(default: (.*)\))?$`)

// usage: the documented options exist with the documented letter and default.
func (c *Check) usage() {
	b, err := os.ReadFile(filepath.Join(repoDir(), "README.md"))
	if err != nil {
		return
	}
	doc := map[string]map[string][3]string{}
	cmd := ""
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && strings.HasPrefix(l, "  ") {
			if _, ok := connSpec[f[0]]; ok && strings.Contains(l, "db_name") {
				cmd = f[0]
				if doc[cmd] == nil {
					doc[cmd] = map[string][3]string{}
				}
				continue
			}
		}
		if strings.HasPrefix(l, "```") {
			cmd = ""
		}
		if m := usageLine.FindStringSubmatch(l); m != nil && cmd != "" {
			doc[cmd][m[2]] = [3]string{m[1], m[5], m[4]}
		}
	}
	n := 0
	for _, x := range commands {
		tags := map[string]string{}
		pk := c.p.pkg("cmd/" + x.cmd)
		for _, f := range c.p.functions("cmd/" + x.cmd) {
			for _, l := range f.Locals {
				for _, t := range structTags(derefType(l.Type())) {
					if m := longTag.FindStringSubmatch(t); m != nil {
						tags[m[1]] = t
					}
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(interface{ Type() types.Type }); ok {
						for _, t := range structTags(derefType(v.Type())) {
							if m := longTag.FindStringSubmatch(t); m != nil {
								tags[m[1]] = t
							}
						}
					}
				}
			}
		}
		_ = pk
		for _, o := range keysOf(doc[x.cmd]) {
			n++
			t, ok := tags[o]
			key := x.cmd + "/--" + o
			if !c.require(ok, "usage", key, "", "the documented option --"+o+" does not exist") {
				continue
			}
			get := func(k string) string {
				if m := regexp.MustCompile(`\b` + k + `:"([^"]*)"`).FindStringSubmatch(t); m != nil {
					return m[1]
				}
				return ""
			}
			c.require(get("short") == doc[x.cmd][o][0], "usage", key+"/letter", "", fmt.Sprintf("--%s is documented with letter %q but has %q", o, doc[x.cmd][o][0], get("short")))
			c.require(get("default") == doc[x.cmd][o][1], "usage", key+"/default", "", fmt.Sprintf("--%s is documented with default %q but has %q", o, doc[x.cmd][o][1], get("default")))
		}
	}
	c.stats["documented options compared"] = n
}
