package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

var checks map[string]func(*Check)

func init() {
	if checks == nil {
		checks = map[string]func(*Check){}
	}
	for k, v := range checks0 {
		checks[k] = v
	}
}

var checks0 = map[string]func(*Check){
	"C01": checkC01, "C03": checkC03, "C04": checkC04, "C05": checkC05, "C06": checkC06, "C22": checkC22,
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "dump-run" {
		dumpRun()
		return
	}
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	os.Exit(runCheck(*prop, *tier, *verbose))
}

func runCheck(id, tier string, verbose bool) (code int) {
	c := &Check{id: id, tier: tier, started: time.Now(), keys: map[string]bool{}, stats: map[string]int{}}
	f := checks[id]
	if f == nil {
		f = checks0[id]
	}
	if f == nil {
		fmt.Println("unknown property", id)
		return 1
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("VERIF_PANIC") != "" {
					panic(e)
				}
				c.require(false, "undecided", "analysis", "", fmt.Sprintf("the analysis could not be completed: %v", e))
			}
		}()
		p, err := loadProgram(repoDir())
		if err != nil {
			c.require(false, "undecided", "load", "", err.Error())
			return
		}
		c.p = p
		c.stats["packages"] = len(p.pkgs)
		f(c)
	}()
	limit := 600 * time.Second
	select {
	case <-done:
	case <-time.After(limit):
		c2 := &Check{id: id, tier: tier, started: c.started, keys: map[string]bool{}, stats: map[string]int{}}
		c2.require(false, "undecided", "time", "", "the analysis did not finish in time")
		return c2.finish("other")
	}
	if verbose {
		for _, o := range c.oblig {
			fmt.Printf("%v %s [%s] %s\n", o.OK, o.Key, o.Where, o.Detail)
		}
	}
	return c.finish("other")
}

func dumpRun() {
	t0 := time.Now()
	p, err := loadProgram(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0))
	ev := newEval(p)
	ev.inline = p.inlineNoParser
	if os.Args[3] == "GenerateIdempotentDDLs" {
		ev = p.diffEval()
	}
	if os.Args[3] == "main" {
		ev = p.mainEval()
		ev.noErr = os.Getenv("NOERR") != ""
	}
	fn := p.fn(os.Args[2], os.Args[3])
	st := newState()
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, mkSym("$"+q.Name(), q.Type()))
	}
	if len(os.Args) > 4 {
		n := 0
		fmt.Sscan(os.Args[4], &n)
		args[0] = mkInt(int64(n))
	}
	res := ev.Call(fn, args, nil, st, 0, "root")
	fmt.Println("eval", time.Since(t0), "terms", len(termList), "bdd", len(bddNodes), "atoms", len(atomTerms), "steps", ev.steps)
	var sb strings.Builder
	tr, ok := res.st.get(traceKey)
	if ok {
		sb.WriteString("TRACE\n")
		dumpPlan(tr, "  ", &sb, 9)
	}
	sb.WriteString("RET\n")
	if res.ret.op == OTuple && len(res.ret.args) > 0 {
		for _, x := range res.ret.args {
			dumpPlan(x, "  ", &sb, 9)
			sb.WriteString("--\n")
		}
	} else {
		dumpPlan(res.ret, "  ", &sb, 9)
	}
	sb.WriteString("TERMS\n")
	for _, t := range res.terms {
		fmt.Fprintf(&sb, "  %s %s when %s at %s\n", t.kind, pp(mk(Term{op: OList, args: t.args})), ppb(t.g, 8), p.posStr(t.pos))
	}
	fmt.Println(sb.String())
	fmt.Println(ev.opaque, ev.notes)
}
