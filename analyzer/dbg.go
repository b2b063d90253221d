package main

import (
	"fmt"
	"os"
	"time"
)

func init() {
	if checks == nil {
		checks = map[string]func(*Check){}
	}
	checks["DBG"] = func(c *Check) {
		m := 0
		fmt.Sscan(os.Getenv("M"), &m)
		t0 := time.Now()
		r := c.p.plan(m)
		pc := newProv(r.ev)
		fmt.Println("plan", time.Since(t0), len(r.em), "emissions")
		for _, e := range r.em {
			var ls string
			for _, l := range e.loops {
				ls += provStr(pc.elems(l.args[0])) + " > "
			}
			fmt.Printf("%s%v %s\n   supp %d\n", ls, e.prior, short(pc.tmpl(e.item, 14), 600), len(bSupport(e.g)))
		}
	}
}
