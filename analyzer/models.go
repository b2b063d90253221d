package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var terminating = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true, "runtime.Goexit": true, "syscall.Exit": true,
}

var purePrefixes = []string{
	"strings.", "strconv.", "unicode.", "unicode/utf8.", "errors.", "fmt.Sprint", "fmt.Errorf", "regexp.",
	"(*regexp.Regexp).", "net/url.", "(net/url.", "net.JoinHostPort", "path.", "path/filepath.", "math.", "reflect.",
	"(error).", "invoke (error).Error", "bytes.", "(*net/url.", "slices.", "maps.", "cmp.",
	"(*strings.Replacer).", "(reflect.", "(*database/sql.Rows).Err",
	modPath + "/sqlparser.", "(*" + modPath + "/sqlparser.", "(" + modPath + "/sqlparser.",
	"invoke (" + modPath + "/sqlparser.", "invoke (" + modPath + "/schema.",
}

func isPure(name string) bool {
	if strings.HasPrefix(name, "(*strings.Builder)") || strings.HasPrefix(name, "(*bytes.Buffer)") || strings.HasPrefix(name, "(*strings.Reader)") {
		return false
	}
	switch name {
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		return false
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasPrefix(name, "invoke ") && strings.HasSuffix(name, ").Error")
}

var pureFold map[string]func([]*Term) *Term

func stripIface(t *Term) *Term {
	for t.op == OIface {
		t = t.args[0]
	}
	return t
}

func foldS1(f func(string) string) func([]*Term) *Term {
	var g func(a []*Term) *Term
	g = func(a []*Term) *Term {
		if s, ok := a[0].strConst(); ok {
			return mkStrC(f(s))
		}
		if a[0].op == OIte {
			x, y := g([]*Term{a[0].args[0]}), g([]*Term{a[0].args[1]})
			if x != nil && y != nil {
				return mkIte(a[0].bdd, x, y)
			}
		}
		return nil
	}
	return g
}

func constItems(ss []string) *Term {
	var ts []*Term
	for _, s := range ss {
		ts = append(ts, mkStrC(s))
	}
	return items(ts...)
}

// trimEdge applies a trimming of one end to a template. f reports whether the
// constant at that end decided the result.
func trimEdge(t *Term, right bool, f func(string) (string, bool)) *Term {
	if s, ok := t.strConst(); ok {
		r, _ := f(s)
		return mkStrC(r)
	}
	switch t.op {
	case OIte:
		x, y := trimEdge(t.args[0], right, f), trimEdge(t.args[1], right, f)
		if x != nil && y != nil {
			return mkIte(t.bdd, x, y)
		}
	case OApp:
		if t.str == "fmt%d" {
			if _, ok := f("0"); ok {
				return t
			}
		}
	case OStr:
		n := len(t.args)
		at := 0
		if right {
			at = n - 1
		}
		e := t.args[at]
		rest := func(x *Term) *Term {
			ps := append([]*Term{}, t.args...)
			ps[at] = x
			return mkStr(ps...)
		}
		if s, ok := e.strConst(); ok {
			r, done := f(s)
			if done {
				return rest(mkStrC(r))
			}
			if r == "" {
				// all of it went: the next part decides
				if right {
					return trimEdge(mkStr(t.args[:n-1]...), right, f)
				}
				return trimEdge(mkStr(t.args[1:]...), right, f)
			}
			return nil
		}
		if e.op == OApp && e.str == "fmt%d" {
			return t
		}
	}
	return nil
}

// foldCase distributes a case mapping over the parts of a template.
func foldCase(name string, f func(string) string) func([]*Term) *Term {
	var g func(a []*Term) *Term
	g = func(a []*Term) *Term {
		t := a[0]
		if s, ok := t.strConst(); ok {
			return mkStrC(f(s))
		}
		one := func(x *Term) *Term {
			if r := g([]*Term{x}); r != nil {
				return r
			}
			return mkApp(name, types.Typ[types.String], x)
		}
		switch t.op {
		case OIte:
			return mkIte(t.bdd, one(t.args[0]), one(t.args[1]))
		case OStr:
			var ps []*Term
			for _, p := range t.args {
				ps = append(ps, one(p))
			}
			return mkStr(ps...)
		}
		return nil
	}
	return g
}

func init() {
	pureFold = map[string]func([]*Term) *Term{
		"strings.ToLower": foldCase("strings.ToLower", strings.ToLower),
		"strings.ToUpper": foldCase("strings.ToUpper", strings.ToUpper),
		"strings.Contains": func(a []*Term) *Term {
			if s, ok := a[1].strConst(); ok {
				return fromBDD(containsBDD(a[0], s))
			}
			return nil
		},
		"strings.HasPrefix": func(a []*Term) *Term {
			if s, ok := a[1].strConst(); ok {
				return fromBDD(prefixBDD(a[0], s))
			}
			return nil
		},
		"strings.HasSuffix": func(a []*Term) *Term {
			if s, ok := a[1].strConst(); ok {
				return fromBDD(suffixBDD(a[0], s))
			}
			return nil
		},
		"strings.Join": func(a []*Term) *Term { return joinTerm(a[0], a[1]) },
		"reflect.DeepEqual": func(a []*Term) *Term {
			return fromBDD(deepEqualBDD(stripIface(a[0]), stripIface(a[1])))
		},
		"strconv.Itoa":       func(a []*Term) *Term { return fmtInt(a[0]) },
		"strconv.FormatBool": func(a []*Term) *Term { return fmtBool(a[0]) },
		"strconv.ParseBool": func(a []*Term) *Term {
			t := a[0]
			if t.op == OIte {
				x, ok1 := t.args[0].strConst()
				y, ok2 := t.args[1].strConst()
				if ok1 && ok2 && (x == "true" && y == "false" || x == "false" && y == "true") {
					b := t.bdd
					if x == "false" {
						b = bNot(b)
					}
					return mk(Term{op: OTuple, args: []*Term{fromBDD(b), tNil}})
				}
			}
			return nil
		},
		"strings.EqualFold": func(a []*Term) *Term {
			if a[0] == a[1] {
				return tTrue
			}
			x, ok1 := a[0].strConst()
			y, ok2 := a[1].strConst()
			if ok1 && ok2 {
				return mkBool(strings.EqualFold(x, y))
			}
			return nil
		},
		"strings.Compare": func(a []*Term) *Term {
			if a[0] == a[1] {
				return mkInt(0)
			}
			return nil
		},
		"strings.Replace": func(a []*Term) *Term {
			ss := make([]string, 3)
			for i := range ss {
				s, ok := a[i].strConst()
				if !ok {
					return nil
				}
				ss[i] = s
			}
			if n, ok := a[3].intConst(); ok {
				return mkStrC(strings.Replace(ss[0], ss[1], ss[2], int(n)))
			}
			return nil
		},
		"strings.ReplaceAll": func(a []*Term) *Term {
			ss := make([]string, 3)
			for i := range ss {
				s, ok := a[i].strConst()
				if !ok {
					return mkApp("strings.Replace", types.Typ[types.String], a[0], a[1], a[2], mkInt(-1))
				}
				ss[i] = s
			}
			return mkStrC(strings.ReplaceAll(ss[0], ss[1], ss[2]))
		},
		"strings.TrimSuffix": func(a []*Term) *Term {
			s, ok := a[1].strConst()
			if !ok {
				return nil
			}
			return trimEdge(a[0], true, func(x string) (string, bool) {
				return strings.TrimSuffix(x, s), len(x) >= len(s)
			})
		},
		"strings.TrimPrefix": func(a []*Term) *Term {
			s, ok := a[1].strConst()
			if !ok {
				return nil
			}
			return trimEdge(a[0], false, func(x string) (string, bool) {
				return strings.TrimPrefix(x, s), len(x) >= len(s)
			})
		},
		"strings.TrimRight": func(a []*Term) *Term {
			s, ok := a[1].strConst()
			if !ok {
				return nil
			}
			return trimEdge(a[0], true, func(x string) (string, bool) {
				r := strings.TrimRight(x, s)
				return r, r != ""
			})
		},
		"strings.TrimLeft": func(a []*Term) *Term {
			s, ok := a[1].strConst()
			if !ok {
				return nil
			}
			return trimEdge(a[0], false, func(x string) (string, bool) {
				r := strings.TrimLeft(x, s)
				return r, r != ""
			})
		},
		"strings.TrimSpace": func(a []*Term) *Term {
			r := trimEdge(a[0], true, func(x string) (string, bool) {
				r := strings.TrimRight(x, " \t\r\n")
				return r, r != ""
			})
			if r == nil {
				return nil
			}
			return trimEdge(r, false, func(x string) (string, bool) {
				r := strings.TrimLeft(x, " \t\r\n")
				return r, r != ""
			})
		},
		"strings.Trim": func(a []*Term) *Term {
			s, ok1 := a[0].strConst()
			t, ok2 := a[1].strConst()
			if ok1 && ok2 {
				return mkStrC(strings.Trim(s, t))
			}
			return nil
		},
		"strings.SplitN": func(a []*Term) *Term {
			s, ok1 := a[0].strConst()
			t, ok2 := a[1].strConst()
			n, ok3 := a[2].intConst()
			if ok1 && ok2 && ok3 {
				return constItems(strings.SplitN(s, t, int(n)))
			}
			return nil
		},
		"strings.Split": func(a []*Term) *Term {
			s, ok1 := a[0].strConst()
			t, ok2 := a[1].strConst()
			if ok1 && ok2 {
				return constItems(strings.Split(s, t))
			}
			return nil
		},
		"strings.Index": func(a []*Term) *Term {
			s, ok1 := a[0].strConst()
			t, ok2 := a[1].strConst()
			if ok1 && ok2 {
				return mkInt(int64(strings.Index(s, t)))
			}
			return nil
		},
	}
}

// containsBDD: a lower bound (guards under which a constant part of the
// template contains sub) or-ed with an atom for the undecided rest.
func containsBDD(t *Term, sub string) BDD {
	if s, ok := t.strConst(); ok {
		if strings.Contains(s, sub) {
			return True
		}
		return False
	}
	d := surelyContains(t, sub)
	if d == True {
		return True
	}
	if !mayContain(t) {
		return d
	}
	return bOr(d, atomBDD(mkApp("strings.Contains", types.Typ[types.Bool], t, mkStrC(sub))))
}

func mayContain(t *Term) bool { return true }

func surelyContains(t *Term, sub string) BDD {
	if s, ok := t.strConst(); ok {
		if strings.Contains(s, sub) {
			return True
		}
		return False
	}
	switch t.op {
	case OStr:
		r := False
		for _, p := range t.args {
			r = bOr(r, surelyContains(p, sub))
			if r == True {
				break
			}
		}
		return r
	case OIte:
		return bddIte(t.bdd, surelyContains(t.args[0], sub), surelyContains(t.args[1], sub))
	case OApp:
		switch t.str {
		case "strings.TrimSuffix", "strings.TrimSpace", "strings.TrimRight":
			if strings.TrimSpace(sub) == sub {
				return surelyContains(t.args[0], sub)
			}
		}
	}
	return False
}

func prefixBDD(t *Term, pre string) BDD {
	if pre == "" {
		return True
	}
	if s, ok := t.strConst(); ok {
		if strings.HasPrefix(s, pre) {
			return True
		}
		return False
	}
	if t.op == OIte {
		return bddIte(t.bdd, prefixBDD(t.args[0], pre), prefixBDD(t.args[1], pre))
	}
	if t.op == OStr {
		if s, ok := t.args[0].strConst(); ok {
			if strings.HasPrefix(s, pre) {
				return True
			}
			if !strings.HasPrefix(pre, s) {
				return False
			}
		}
	}
	return atomBDD(mkApp("strings.HasPrefix", types.Typ[types.Bool], t, mkStrC(pre)))
}

func suffixBDD(t *Term, suf string) BDD {
	if suf == "" {
		return True
	}
	if s, ok := t.strConst(); ok {
		if strings.HasSuffix(s, suf) {
			return True
		}
		return False
	}
	if t.op == OIte {
		return bddIte(t.bdd, suffixBDD(t.args[0], suf), suffixBDD(t.args[1], suf))
	}
	if t.op == OStr {
		if s, ok := t.args[len(t.args)-1].strConst(); ok {
			if strings.HasSuffix(s, suf) {
				return True
			}
			if !strings.HasSuffix(suf, s) {
				return False
			}
		}
	}
	return atomBDD(mkApp("strings.HasSuffix", types.Typ[types.Bool], t, mkStrC(suf)))
}

func joinTerm(l, sep *Term) *Term {
	if l.op == OList {
		all := true
		for _, p := range l.args {
			if p.op != OItem {
				all = false
			}
		}
		if all {
			var ps []*Term
			for i, p := range l.args {
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, p.args[0])
			}
			return mkStr(ps...)
		}
	}
	if ps := listParts(l); len(ps) > 1 && ps[0].op == OItem {
		if rest := precededBy(mkList(ps[1:]...), sep); rest != nil {
			return mkStr(ps[0].args[0], rest)
		}
	}
	return mkApp("strings.Join", types.Typ[types.String], l, sep)
}

// precededBy is the text of a list's items with a separator before each.
func precededBy(l, sep *Term) *Term {
	var out []*Term
	for _, p := range listParts(l) {
		switch p.op {
		case OItem:
			out = append(out, sep, p.args[0])
		case OIte:
			a, b := precededBy(p.args[0], sep), precededBy(p.args[1], sep)
			if a == nil || b == nil {
				return nil
			}
			out = append(out, mkIte(p.bdd, a, b))
		default:
			return nil
		}
	}
	return mkStr(out...)
}

func fmtInt(v *Term) *Term {
	if i, ok := v.intConst(); ok {
		return mkStrC(strconv.FormatInt(i, 10))
	}
	if v.op == OIte {
		return mkIte(v.bdd, fmtInt(v.args[0]), fmtInt(v.args[1]))
	}
	return mkApp("fmt%d", types.Typ[types.String], v)
}
func fmtBool(v *Term) *Term {
	return mkIte(toBDD(v), mkStrC("true"), mkStrC("false"))
}

func fmtVerb(verb string, v *Term, dyn types.Type) *Term {
	raw := stripIface(v)
	if v.op == OIte && v.args[0].op == OIface && v.args[1].op == OIface {
		return mkIte(v.bdd, fmtVerb(verb, v.args[0], dyn), fmtVerb(verb, v.args[1], dyn))
	}
	if v.op == OIface {
		dyn = v.typ
	}
	last := verb[len(verb)-1]
	simple := len(verb) == 1
	if simple && dyn != nil {
		if hasStringer(dyn) {
			return mkApp("fmt%"+verb, types.Typ[types.String], raw)
		}
		b, _ := dyn.Underlying().(*types.Basic)
		switch {
		case (last == 's' || last == 'v') && isStringType(dyn):
			return raw
		case last == 's' && isBytes(dyn):
			return raw
		case (last == 'd' || last == 'v') && b != nil && b.Info()&types.IsInteger != 0:
			return fmtInt(raw)
		case (last == 't' || last == 'v') && b != nil && b.Info()&types.IsBoolean != 0:
			return fmtBool(raw)
		}
	}
	if simple && last == 's' && raw.op == OConst {
		if s, ok := raw.strConst(); ok {
			return mkStrC(s)
		}
	}
	return mkApp("fmt%"+verb, types.Typ[types.String], raw)
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Error", "String", "Format"} {
		if s := ms.Lookup(nil, n); s != nil {
			return true
		}
	}
	return false
}

// variadic returns the items of a literal variadic list.
func variadic(l *Term) ([]*Term, bool) {
	if l.op == OList {
		var out []*Term
		for _, p := range l.args {
			if p.op != OItem {
				return nil, false
			}
			out = append(out, p.args[0])
		}
		return out, true
	}
	if l == tNil {
		return nil, true
	}
	return nil, false
}

func formatTerm(f *Term, rest *Term) *Term {
	fs, ok := f.strConst()
	if !ok {
		if f.op == OIte {
			return mkIte(f.bdd, formatTerm(f.args[0], rest), formatTerm(f.args[1], rest))
		}
		return mkApp("fmt.Sprintf", types.Typ[types.String], f, rest)
	}
	args, ok := variadic(rest)
	if !ok {
		return mkApp("fmt.Sprintf", types.Typ[types.String], f, rest)
	}
	var parts []*Term
	n := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			parts = append(parts, mkStrC(fs[i:]))
			break
		}
		parts = append(parts, mkStrC(fs[i:i+j]))
		i += j + 1
		k := i
		for k < len(fs) && strings.ContainsRune("#+- 0123456789.[]*", rune(fs[k])) {
			k++
		}
		if k >= len(fs) {
			return mkApp("fmt.Sprintf", types.Typ[types.String], f, rest)
		}
		verb := fs[i : k+1]
		i = k + 1
		if verb == "%" {
			parts = append(parts, mkStrC("%"))
			continue
		}
		if strings.HasPrefix(verb, "[") {
			e := strings.IndexByte(verb, ']')
			m, err := strconv.Atoi(verb[1:e])
			if err != nil {
				return mkApp("fmt.Sprintf", types.Typ[types.String], f, rest)
			}
			n = m - 1
			verb = verb[e+1:]
		}
		if n >= len(args) {
			parts = append(parts, mkApp("fmt%!missing", types.Typ[types.String]))
			n++
			continue
		}
		parts = append(parts, fmtVerb(verb, args[n], nil))
		n++
	}
	if n < len(args) && !strings.Contains(fs, "[") {
		parts = append(parts, mkApp("fmt%!extra", types.Typ[types.String]))
	}
	return mkStr(parts...)
}

// replaceAll is a replacer of single characters as one replacement after the
// other, where that is the same.
func replaceAll(r, s *Term) *Term {
	if r.op != OApp || r.str != "replacer" {
		return nil
	}
	e := listSlots(r.args[0])
	if e == nil || len(e)%2 != 0 {
		return nil
	}
	var olds, news []string
	for i := 0; i < len(e); i += 2 {
		o, ok1 := e[i].strConst()
		n, ok2 := e[i+1].strConst()
		if !ok1 || !ok2 || len(o) != 1 {
			return nil
		}
		for _, m := range news {
			if strings.Contains(m, o) {
				return nil
			}
		}
		olds, news = append(olds, o), append(news, n)
	}
	for i, o := range olds {
		s = mkApp("strings.Replace", types.Typ[types.String], s, mkStrC(o), mkStrC(news[i]), mkInt(-1))
	}
	return s
}

func sprintTerm(rest *Term, ln bool) *Term {
	args, ok := variadic(rest)
	if !ok {
		return mkApp("fmt.Sprint", types.Typ[types.String], rest)
	}
	var parts []*Term
	for i, x := range args {
		if i > 0 && (ln || !(x.op == OIface && isStringType(x.typ)) && !(args[i-1].op == OIface && isStringType(args[i-1].typ))) {
			parts = append(parts, mkStrC(" "))
		}
		parts = append(parts, fmtVerb("v", x, nil))
	}
	if ln {
		parts = append(parts, mkStrC("\n"))
	}
	return mkStr(parts...)
}

func bufType(t types.Type) bool {
	switch typeName(t) {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

func (a *act) bufAddr(p *Term) *Term {
	return mkFieldAddr(p, "$buf", types.NewPointer(types.Typ[types.String]))
}
func (a *act) bufAppend(p, s *Term, g BDD, st *State) {
	ad := a.bufAddr(p)
	old := a.load(ad, st, types.Typ[types.String])
	a.store(ad, mkStr(old, s), st, g, 0)
}

func tuple(ts ...*Term) *Term { return mk(Term{op: OTuple, args: ts}) }

// streamOf classifies an io.Writer.
func (a *act) writeTo(in ssa.Instruction, w, s *Term, g BDD, st *State) {
	raw := stripIface(w)
	if w.op == OIface && bufType(w.typ) {
		a.bufAppend(raw, s, g, st)
		return
	}
	name := "out:" + termShort(raw)
	if raw.op == OApp && raw.str == "global:os.Stdout" {
		name = "out:stdout"
	} else if raw.op == OApp && raw.str == "global:os.Stderr" {
		name = "out:stderr"
	}
	a.event(st, name, []*Term{s}, in.Pos())
}

func (a *act) model(in ssa.Instruction, name string, args []*Term, rtyp types.Type, g BDD, st *State) (*Term, bool) {
	ev := a.ev
	switch name {
	case "fmt.Sprintf":
		return formatTerm(args[0], a.snapList(args[1], st)), true
	case "fmt.Errorf":
		return mkApp("error", rtyp, formatTerm(args[0], a.snapList(args[1], st))), true
	case "errors.New":
		return mkApp("error", rtyp, args[0]), true
	case "strings.NewReplacer":
		return mkApp("replacer", rtyp, a.snapList(args[0], st)), true
	case "(*strings.Replacer).Replace":
		if r := replaceAll(args[0], args[1]); r != nil {
			return r, true
		}
	case "fmt.Sprint":
		return sprintTerm(a.snapList(args[0], st), false), true
	case "fmt.Sprintln":
		return sprintTerm(a.snapList(args[0], st), true), true
	case "fmt.Printf":
		a.event(st, "out:stdout", []*Term{formatTerm(args[0], a.snapList(args[1], st))}, in.Pos())
		return mkApp("outres", rtyp), true
	case "fmt.Println", "fmt.Print":
		a.event(st, "out:stdout", []*Term{sprintTerm(a.snapList(args[0], st), name == "fmt.Println")}, in.Pos())
		return mkApp("outres", rtyp), true
	case "fmt.Fprintf":
		a.writeTo(in, args[0], formatTerm(args[1], a.snapList(args[2], st)), g, st)
		return mkApp("outres", rtyp), true
	case "fmt.Fprintln", "fmt.Fprint":
		a.writeTo(in, args[0], sprintTerm(a.snapList(args[1], st), name == "fmt.Fprintln"), g, st)
		return mkApp("outres", rtyp), true
	case "io.WriteString":
		a.writeTo(in, args[0], args[1], g, st)
		return mkApp("outres", rtyp), true
	case "log.Printf", "log.Println", "log.Print":
		a.event(st, "out:log", args, in.Pos())
		return tuple(), true
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		a.bufAppend(args[0], args[1], g, st)
		return tuple(mkLen(args[1]), tNil), true
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		var s *Term
		if i, ok := args[1].intConst(); ok {
			s = mkStrC(string(rune(i)))
		} else {
			s = mkApp("rune2str", types.Typ[types.String], args[1])
		}
		a.bufAppend(args[0], s, g, st)
		if strings.HasSuffix(name, "Byte") {
			return tNil, true
		}
		return tuple(mkInt(1), tNil), true
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		return a.load(a.bufAddr(args[0]), st, types.Typ[types.String]), true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return mkLen(a.load(a.bufAddr(args[0]), st, types.Typ[types.String])), true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return tuple(), true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		a.store(a.bufAddr(args[0]), tEmptyStr, st, g, in.Pos())
		return tuple(), true
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Sort", "sort.Stable", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		ev.opaque["sort (order of an already built list)"]++
		return tuple(), true
	case "(*database/sql.Rows).Scan":
		rows := args[0]
		dom := mkApp("rows", nil, rows)
		src := mkApp("rowscan", nil, rows, a.site2(in))
		for i := len(ev.loops) - 1; i >= 0; i-- {
			if ev.loops[i].dom == dom {
				src = mkElem(dom, ev.loops[i].depth, nil)
				break
			}
		}
		a.scanInto(src, args[1], st, g, in)
		if ev.scanOK {
			return tNil, true
		}
		return mkApp("scanerr", rtyp, src, a.site2(in)), true
	case "(*database/sql.Row).Scan":
		a.scanInto(args[0], args[1], st, g, in)
		if ev.scanOK {
			return tNil, true
		}
		return mkApp("scanerr", rtyp, args[0], a.site2(in)), true
	case "(net/url.Values).Add", "(net/url.Values).Set":
		m := args[0]
		k := mkApp("mapcell", nil, m, args[1])
		st.set(k, args[2])
		ev.urlKeys[m] = appendUniq(ev.urlKeys[m], args[1])
		return tuple(), true
	case "(net/url.Values).Encode":
		m := args[0]
		var items []*Term
		for _, k := range ev.urlKeys[m] {
			v, ok := st.get(mkApp("mapcell", nil, m, k))
			if !ok {
				v = tNil
			}
			items = append(items, k, v)
		}
		return mkApp("url.Encode", rtyp, items...), true
	}
	return nil, false
}

func appendUniq(l []*Term, t *Term) []*Term {
	for _, x := range l {
		if x == t {
			return l
		}
	}
	return append(l, t)
}

func (a *act) snapList(l *Term, st *State) *Term { return a.snapshot(l, st, 2) }

func (a *act) scanInto(src, dests *Term, st *State, g BDD, in ssa.Instruction) {
	ds, ok := variadic(dests)
	if !ok {
		a.event(st, "scan?", []*Term{src, dests}, in.Pos())
		a.ev.notes = append(a.ev.notes, "Scan into an unresolved destination list at "+a.ev.prog.posStr(in.Pos()))
		return
	}
	for i, d := range ds {
		p := stripIface(d)
		t := derefType(p.typ)
		a.store(p, mkApp("col", t, src, mkInt(int64(i)), mkInt(int64(len(ds)))), st, g, in.Pos())
	}
}

func termShort(t *Term) string {
	s := pp(t)
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

var _ = constant.MakeBool
var _ = fmt.Sprint
