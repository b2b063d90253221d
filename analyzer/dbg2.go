package main

import "fmt"

func init() {
	checks["DBG3"] = func(c *Check) {
		for _, r := range c.commands(true) {
			for _, ci := range r.ev.calls {
				if ci.name == "database/sql.Open" {
					fmt.Println(r.cmd, short(pp(ci.args[0]), 100), "\n   ", short(pp(ci.args[1]), 1500), ppb(ci.g, 6))
				}
			}
		}
	}
}
