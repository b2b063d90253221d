package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() { checks0["C08"] = checkC08 }

// callees of an instruction inside the repository: static ones, closures,
// and every repository method an interface call may reach.
type callGraph struct {
	p       *Program
	all     []*ssa.Function
	methods map[string][]*ssa.Function // by name
}

func (p *Program) callGraph() *callGraph {
	cg := &callGraph{p: p, methods: map[string][]*ssa.Function{}}
	for fn := range ssautil.AllFunctions(p.prog) {
		if p.inRepo(fn) && len(fn.Blocks) > 0 {
			cg.all = append(cg.all, fn)
			if fn.Signature.Recv() != nil {
				cg.methods[fn.Name()] = append(cg.methods[fn.Name()], fn)
			}
		}
	}
	sort.Slice(cg.all, func(i, j int) bool { return cg.all[i].String() < cg.all[j].String() })
	return cg
}

// out lists the repository functions an instruction refers to.
func (cg *callGraph) out(in ssa.Instruction) []*ssa.Function {
	var fs []*ssa.Function
	if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
		it, _ := c.Common().Value.Type().Underlying().(*types.Interface)
		for _, m := range cg.methods[c.Common().Method.Name()] {
			if it != nil && (types.Implements(m.Signature.Recv().Type(), it)) {
				fs = append(fs, m)
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if op == nil || *op == nil {
			continue
		}
		switch f := (*op).(type) {
		case *ssa.Function:
			if cg.p.inRepo(f) {
				fs = append(fs, f)
			}
		case *ssa.MakeClosure:
			fs = append(fs, f.Fn.(*ssa.Function))
		}
	}
	// methods of values that leave as interfaces (fmt, sort, json, errors)
	if mi, ok := in.(*ssa.MakeInterface); ok {
		ms := cg.p.prog.MethodSets.MethodSet(mi.X.Type())
		for i := 0; i < ms.Len(); i++ {
			n := ms.At(i).Obj().Name()
			switch n {
			case "String", "Error", "Format", "GoString", "Len", "Less", "Swap", "MarshalJSON":
				if f := cg.p.prog.MethodValue(ms.At(i)); f != nil && cg.p.inRepo(f) {
					fs = append(fs, f)
				}
			}
		}
	}
	return fs
}

// reach gives every repository function reachable from the roots, with one
// caller each for the report.
func (cg *callGraph) reach(roots []*ssa.Function) (map[*ssa.Function]*ssa.Function, []*ssa.Function) {
	from := map[*ssa.Function]*ssa.Function{}
	var order []*ssa.Function
	for _, r := range roots {
		if _, ok := from[r]; !ok {
			from[r] = nil
			order = append(order, r)
		}
	}
	for i := 0; i < len(order); i++ {
		f := order[i]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range cg.out(in) {
					if _, ok := from[g]; !ok {
						from[g] = f
						order = append(order, g)
					}
				}
			}
		}
	}
	return from, order
}

func (cg *callGraph) path(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var s []string
	for f != nil && len(s) < 12 {
		s = append(s, fnKey(f))
		f = from[f]
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " → ")
}

// constGlobal: the global is only ever assigned one constant, in an initialiser.
func (p *Program) constGlobals() map[*ssa.Global]constant.Value {
	val := map[*ssa.Global]constant.Value{}
	bad := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						c, isC := st.Val.(*ssa.Const)
						if !isC || c.Value == nil || fn.Name() != "init" || bad[g] {
							bad[g] = true
							continue
						}
						if _, dup := val[g]; dup {
							bad[g] = true
						}
						val[g] = c.Value
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, isSt := in.(*ssa.Store); !isSt {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for _, pk := range p.prog.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				if _, has := val[g]; !has && !bad[g] {
					if bt, ok := derefType(g.Type()).Underlying().(*types.Basic); ok {
						switch {
						case bt.Info()&types.IsInteger != 0:
							val[g] = constant.MakeInt64(0)
						case bt.Info()&types.IsBoolean != 0:
							val[g] = constant.MakeBool(false)
						}
					}
				}
			}
		}
	}
	for g := range bad {
		delete(val, g)
	}
	return val
}

// deadBlocks finds the blocks that cannot be reached because a condition on a
// constant global is fixed.
func deadBlocks(fn *ssa.Function, cg map[*ssa.Global]constant.Value) map[*ssa.BasicBlock]bool {
	var ev func(v ssa.Value, d int) constant.Value
	ev = func(v ssa.Value, d int) constant.Value {
		if d > 4 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if g, ok := x.X.(*ssa.Global); ok {
					return cg[g]
				}
				return nil
			}
			if x.Op == token.NOT {
				if c := ev(x.X, d+1); c != nil {
					return constant.UnaryOp(token.NOT, c, 0)
				}
			}
		case *ssa.BinOp:
			a, b := ev(x.X, d+1), ev(x.Y, d+1)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return constant.MakeBool(constant.Compare(a, x.Op, b))
			}
		}
		return nil
	}
	live := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c := ev(f.Cond, 0); c != nil && c.Kind() == constant.Bool {
				if constant.BoolVal(c) {
					visit(b.Succs[0])
				} else {
					visit(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(fn.Blocks[0])
	if fn.Recover != nil {
		visit(fn.Recover)
	}
	dead := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if !live[b] {
			dead[b] = true
		}
	}
	return dead
}

var pureStd = map[string]bool{
	"strings": true, "strconv": true, "bytes": true, "errors": true, "regexp": true, "regexp/syntax": true, "unicode": true,
	"unicode/utf8": true, "sort": true, "slices": true, "math": true, "math/bits": true, "math/big": true, "reflect": true,
	"encoding/hex": true, "encoding/json": true, "encoding/binary": true, "encoding/base64": true, "encoding": true,
	"cmp": true, "text/template": true, "io": true, "net/url": true, "container/list": true, "container/heap": true, "text/tabwriter": true, "hash/fnv": true, "hash/crc32": true,
	"html": true, "go/token": true, "unsafe": true, "bufio": true, "path": true, "iter": true,
}

// impure classifies a call out of the repository; "" means it is harmless.
func impure(f *ssa.Function, db bool) string {
	pk := fnPkg(f)
	n := f.Name()
	s := f.String()
	switch {
	case strings.HasSuffix(s, ".init"):
		return ""
	case pk == "fmt":
		switch n {
		case "Print", "Printf", "Println", "Scan", "Scanf", "Scanln", "Fscan", "Fscanf", "Fscanln":
			return "performs input or output"
		}
		return ""
	case pk == "log":
		switch n {
		case "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln": // ends the run
			return ""
		}
		return "writes to the log"
	case pk == "maps":
		return "iterates over a map in unspecified order"
	case pk == "math/rand" || pk == "math/rand/v2" || pk == "crypto/rand" || pk == "hash/maphash":
		return "draws random values"
	case pk == "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "Sleep":
			return "reads the clock"
		}
		return ""
	case pk == "reflect":
		if strings.Contains(s, "MapRange") || strings.Contains(s, "MapKeys") {
			return "iterates over a map in unspecified order"
		}
		if n == "Pointer" || n == "UnsafePointer" || n == "UnsafeAddr" {
			return "observes an address"
		}
		return ""
	case pk == "sync":
		if strings.Contains(s, "Mutex") || strings.Contains(s, "Once") {
			return ""
		}
		return "shares mutable state"
	case pk == "database/sql" || pk == "database/sql/driver" || pk == "context":
		if db {
			switch n {
			case "Stats", "Exec", "ExecContext", "Begin", "BeginTx":
				return "changes or observes the connection's state"
			}
			return ""
		}
		return "reaches a database"
	case pureStd[pk]:
		return ""
	}
	return "leaves the analysed program (" + pk + ")"
}

// rootGlobal: the address or map v is reached through a package variable.
func rootGlobal(v ssa.Value, d int) *ssa.Global {
	if d > 12 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return rootGlobal(x.X, d+1)
	case *ssa.IndexAddr:
		return rootGlobal(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return rootGlobal(x.X, d+1)
		}
	case *ssa.Field:
		return rootGlobal(x.X, d+1)
	case *ssa.Slice:
		return rootGlobal(x.X, d+1)
	case *ssa.Lookup:
		switch x.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice:
			return rootGlobal(x.X, d+1)
		}
	case *ssa.ChangeType:
		return rootGlobal(x.X, d+1)
	}
	return nil
}

// mapRangeOrder says why a range over a map may show the iteration order.
func mapRangeOrder(fn *ssa.Function, r *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	var body map[*ssa.BasicBlock]bool
	for h, li := range findLoops(fn) {
		if h == next.Block() {
			body = li.blocks
		}
	}
	if body == nil { // leaves in the first iteration
		return "uses an arbitrary element of the map"
	}
	tainted := map[ssa.Value]bool{next: true}
	for ch := true; ch; {
		ch = false
		for b := range body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || tainted[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && tainted[*op] {
						tainted[v] = true
						ch = true
						break
					}
				}
			}
		}
	}
	sorted := func(v ssa.Value) bool {
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value) bool
		rec = func(v ssa.Value) bool {
			if seen[v] {
				return false
			}
			seen[v] = true
			if v.Referrers() == nil {
				return false
			}
			for _, u := range *v.Referrers() {
				if c, ok := u.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && (fnPkg(f) == "sort" || fnPkg(f) == "slices" && strings.HasPrefix(f.Name(), "Sort")) {
						return true
					}
				}
				switch w := u.(type) {
				case *ssa.MakeInterface:
					if rec(w) {
						return true
					}
				case *ssa.Phi:
					if rec(w) {
						return true
					}
				case *ssa.ChangeType:
					if rec(w) {
						return true
					}
				}
			}
			return false
		}
		return rec(v)
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b != next.Block() {
					continue
				}
				switch t := x.Type().Underlying().(type) {
				case *types.Slice:
					if !sorted(x) {
						return "collects the elements of the map without sorting them"
					}
				case *types.Basic:
					if t.Info()&types.IsString != 0 {
						return "builds a text in the order of the map"
					}
				case *types.Pointer, *types.Interface, *types.Struct:
					if x.Comment != "" && tainted[x] {
						return "keeps one of the map's elements"
					}
				}
			case *ssa.Store:
				if _, local := x.Addr.(*ssa.Alloc); local {
					continue
				}
				if f, ok := x.Addr.(*ssa.IndexAddr); ok {
					if _, ok := f.X.(*ssa.Alloc); ok { // argument lists
						continue
					}
				}
				return "writes to memory in the order of the map"
			case *ssa.Return:
				for _, r := range x.Results {
					if tainted[r] {
						return "returns an arbitrary element of the map"
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					_ = bi
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil || !pureStd[fnPkg(f)] && fnPkg(f) != "fmt" || strings.HasPrefix(f.Name(), "Fp") || strings.HasPrefix(f.Name(), "Write") {
					if tainted[x] {
						return "calls " + fmt.Sprint(x.Call.Value) + " in the order of the map"
					}
				}
			case *ssa.Defer, *ssa.Go, *ssa.Send:
				return "has effects in the order of the map"
			}
		}
	}
	// return blocks inside the loop are outside the natural loop: look at exits
	for b := range body {
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			if rt, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && b != next.Block() {
				for _, r := range rt.Results {
					if tainted[r] || dependsOn(r, tainted, 4) {
						return "returns an arbitrary element of the map"
					}
				}
			}
		}
	}
	return ""
}

func dependsOn(v ssa.Value, set map[ssa.Value]bool, d int) bool {
	if set[v] {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || d == 0 {
		return false
	}
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && dependsOn(*op, set, d-1) {
			return true
		}
	}
	return false
}

// onlyEndsRun: every path from the block ends the process or panics or
// returns an error; used for texts that only appear in error messages.
func (c *Check) pureFunction(cg *callGraph, fn *ssa.Function, from map[*ssa.Function]*ssa.Function, what string, db bool, consts map[*ssa.Global]constant.Value, writers map[*ssa.Global]string) {
	dead := deadBlocks(fn, consts)
	key := fnKey(fn)
	bad := func(rule, construct string, pos token.Pos, detail string) {
		c.require(false, rule, key+": "+construct, c.p.posStr(pos), what+" "+detail+"; reached by "+cg.path(from, fn))
	}
	n := 0
	for _, b := range fn.Blocks {
		if dead[b] {
			continue
		}
		for _, in := range b.Instrs {
			n++
			switch x := in.(type) {
			case *ssa.Go:
				bad("concurrency", "go statement", x.Pos(), "starts a goroutine")
			case *ssa.Send, *ssa.Select:
				bad("concurrency", "channel operation", in.Pos(), "communicates between goroutines")
			case *ssa.MakeChan:
				bad("concurrency", "channel", x.Pos(), "communicates between goroutines")
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					c.stats["map iterations"]++
					if why := mapRangeOrder(fn, x); why != "" {
						bad("map-order", "range over "+x.X.Type().String(), x.Pos(), why)
					}
				}
			case *ssa.Store:
				if g := rootGlobal(x.Addr, 0); g != nil && fn.Name() != "init" {
					bad("global-write", g.Name(), x.Pos(), "assigns to the package variable "+g.String())
				}
			case *ssa.MapUpdate:
				if g := rootGlobal(x.Map, 0); g != nil && fn.Name() != "init" {
					bad("global-write", g.Name(), x.Pos(), "assigns to the package variable "+g.String())
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if g, ok := x.X.(*ssa.Global); ok {
						c.stats["reads of package variables"]++
						if !c.p.inRepoGlobal(g) {
							switch g.String() {
							case "os.Stderr":
							case "os.Args", "os.Stdin", "os.Stdout":
								bad("impure-call", g.String(), x.Pos(), "uses "+g.String())
							}
						} else if w := writers[g]; w != "" {
							bad("global-read", g.Name(), x.Pos(), "depends on the package variable "+g.String()+", which "+w+" assigns")
						}
					}
				}
				if x.Op == token.ARROW {
					bad("concurrency", "receive", x.Pos(), "communicates between goroutines")
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			if bi, ok := com.Value.(*ssa.Builtin); ok {
				if bi.Name() == "print" || bi.Name() == "println" {
					bad("impure-call", bi.Name(), in.Pos(), "prints")
				}
				continue
			}
			if com.IsInvoke() {
				pk := com.Method.Pkg()
				if pk == nil || strings.HasPrefix(pk.Path(), modPath) || pureStd[pk.Path()] {
					continue
				}
				if db && strings.HasPrefix(pk.Path(), "database/sql") {
					continue
				}
				bad("impure-call", com.Method.FullName(), in.Pos(), "calls "+com.Method.FullName()+", which leaves the analysed program")
				continue
			}
			f := com.StaticCallee()
			if f == nil || c.p.inRepo(f) {
				continue
			}
			c.stats["calls out of the repository"]++
			if why := impure(f, db); why != "" {
				bad("impure-call", f.String(), in.Pos(), "calls "+f.String()+", which "+why)
			}
			c.formatPointers(fn, in, com, f, bad)
		}
	}
	c.stats["instructions"] += n
	c.require(true, "pure", what+": "+key, c.p.posStr(fn.Pos()), "")
}

func (p *Program) inRepoGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}

// formatPointers reports operands whose printed form is an address.
func (c *Check) formatPointers(fn *ssa.Function, in ssa.Instruction, com *ssa.CallCommon, f *ssa.Function, bad func(string, string, token.Pos, string)) {
	if fnPkg(f) != "fmt" || len(com.Args) == 0 {
		return
	}
	switch f.Name() {
	case "Sprintf", "Sprint", "Sprintln", "Fprintf", "Fprint", "Fprintln", "Appendf", "Append":
	default:
		return
	}
	for _, a := range com.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			bad("address-in-text", "%p", in.Pos(), "prints an address")
		}
	}
	sl, ok := com.Args[len(com.Args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			t := mi.X.Type()
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Chan, *types.Signature:
				if !hasStringer(t) {
					bad("address-in-text", t.String(), in.Pos(), "prints a value of type "+t.String()+", which shows an address")
				}
			}
		}
	}
}

func checkC08(c *Check) {
	c.explain = append(c.explain, "Every repository function reachable from the planner's and the parser's exported functions and from every function that queries the catalog is inspected instruction by instruction: no input/output, clock, environment, randomness, goroutine, channel, package variable that is written outside its initialiser, iteration order of a map that can reach a result, or printed address. Calls through interfaces are followed to every implementation in the repository.")
	c.assume = append(c.assume, "functions of strings, strconv, bytes, regexp, sort, reflect and fmt's formatting are deterministic", "log.Fatal and panic end the run")
	p := c.p
	cg := p.callGraph()
	consts := p.constGlobals()
	writers := map[*ssa.Global]string{}
	for _, fn := range cg.all {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Global
				switch x := in.(type) {
				case *ssa.Store:
					g = rootGlobal(x.Addr, 0)
				case *ssa.MapUpdate:
					g = rootGlobal(x.Map, 0)
				}
				if g != nil {
					writers[g] = fnKey(fn)
				}
			}
		}
	}
	var planner, dump []*ssa.Function
	isExported := func(fn *ssa.Function) bool {
		return fn.Object() != nil && fn.Object().Exported() && fn.Synthetic == "" && fn.Parent() == nil
	}
	queries := map[*ssa.Function]bool{}
	opens := map[*ssa.Function]bool{}
	for _, fn := range cg.all {
		pk := strings.TrimPrefix(fnPkg(fn), modPath)
		switch {
		case pk == "/schema":
			if isExported(fn) {
				planner = append(planner, fn)
			}
		case strings.HasPrefix(pk, "/adapter"):
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if f := ci.Common().StaticCallee(); f != nil && fnPkg(f) == "database/sql" {
							switch f.Name() {
							case "Query", "QueryRow", "QueryContext", "QueryRowContext":
								queries[fn] = true
							case "Open", "OpenDB":
								opens[fn] = true
							case "Begin", "BeginTx", "Exec", "ExecContext":
								opens[fn] = true
							}
						}
					}
				}
			}
		}
	}
	// callers of functions that query
	for ch := true; ch; {
		ch = false
		for _, fn := range cg.all {
			if queries[fn] || !strings.HasPrefix(fnPkg(fn), modPath+"/adapter") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, g := range cg.out(in) {
						if queries[g] {
							queries[fn] = true
							ch = true
						}
					}
				}
			}
		}
	}
	for _, fn := range cg.all {
		if queries[fn] && !opens[fn] {
			dump = append(dump, fn)
		}
	}
	from, order := cg.reach(planner)
	for _, fn := range order {
		c.pureFunction(cg, fn, from, "planning", false, consts, writers)
	}
	c.floor("planning functions", len(order), 150)
	dfrom, dorder := cg.reach(dump)
	for _, fn := range dorder {
		c.pureFunction(cg, fn, dfrom, "dumping", true, consts, writers)
	}
	c.floor("dumping functions", len(dorder), 20)
	// the planner and the grammar do not import a database package
	for _, rel := range []string{"schema", "sqlparser"} {
		pk := p.pkg(rel)
		seen := map[*types.Package]bool{}
		var walk func(q *types.Package, path string)
		walk = func(q *types.Package, path string) {
			if seen[q] {
				return
			}
			seen[q] = true
			path += " → " + q.Path()
			forbidden := q.Path() == "database/sql" || q.Path() == "net" || strings.HasPrefix(q.Path(), modPath+"/adapter")
			c.require(!forbidden, "import", rel+" imports "+q.Path(), "", "the "+rel+" layer can touch a database or the network through"+path)
			if !strings.HasPrefix(q.Path(), modPath) {
				return
			}
			for _, i := range q.Imports() {
				walk(i, path)
			}
		}
		walk(pk.Pkg, "")
	}
}
