package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check collects the obligations of one property. An obligation is identified
// by a key made of the rule and the construct it is about (never of a line
// number or a local name), so that the same obligation is recognised after
// the code moved.
type Check struct {
	id        string
	tier      string
	started   time.Time
	p         *Program
	oblig     []oblig
	keys      map[string]bool
	stats     map[string]int
	explain   []string
	assume    []string
	undecided []string
}

type oblig struct {
	Key    string `json:"key"`
	Rule   string `json:"rule"`
	Where  string `json:"where,omitempty"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

func (c *Check) require(ok bool, rule, construct, where, detail string) bool {
	k := rule + "/" + construct
	o := oblig{Key: k, Rule: rule, Where: where, OK: ok}
	if !ok {
		o.Detail = detail
	}
	if c.keys[k] {
		for i := range c.oblig {
			if c.oblig[i].Key == k && c.oblig[i].OK && !ok {
				c.oblig[i] = o
			}
		}
		c.stats["instances"]++
		return ok
	}
	c.keys[k] = true
	c.stats["instances"]++
	c.oblig = append(c.oblig, o)
	return ok
}

// floor fails the check when a rule matched fewer constructs than confirmed.
func (c *Check) floor(what string, n, min int) {
	c.stats[what] = n
	c.require(n >= min, "coverage", what, "", fmt.Sprintf("only %d instances of %q were found, at least %d are expected: the rule no longer sees the code it is about", n, what, min))
}

type known struct {
	prop, key, desc string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() []known {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(l, "KNOWN ")
		fs := strings.SplitN(rest, " ", 3)
		for i, x := range fs {
			switch {
			case strings.HasPrefix(x, "property="):
				k.prop = x[len("property="):]
			case strings.HasPrefix(x, "key="):
				k.key = x[len("key="):]
			case i == 2:
				k.desc = x
			}
		}
		out = append(out, k)
	}
	return out
}

func (c *Check) finish(level string) int {
	kn := loadKnown()
	sort.Slice(c.oblig, func(i, j int) bool { return c.oblig[i].Key < c.oblig[j].Key })
	var bad []oblig
	nknown := 0
	for _, o := range c.oblig {
		if o.OK {
			continue
		}
		hit := false
		for _, k := range kn {
			if k.prop == c.id && k.key == strings.ReplaceAll(o.Key, " ", "_") {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, k.key, k.desc)
				hit = true
				nknown++
				break
			}
		}
		if !hit {
			bad = append(bad, o)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dis := 0
	rules := map[string]int{}
	for _, o := range c.oblig {
		if o.OK {
			dis++
		}
		rules[o.Rule]++
	}
	var samples []oblig
	seen := map[string]int{}
	for _, o := range c.oblig {
		if seen[o.Rule] < 2 {
			samples = append(samples, o)
			seen[o.Rule]++
		}
	}
	cov := map[string]any{
		"explanation":         strings.Join(c.explain, " "),
		"obligations":         len(c.oblig),
		"discharged":          dis,
		"known_findings":      nknown,
		"obligations_by_rule": rules,
		"analysed":            c.stats,
		"samples":             samples,
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": seed, "level": level,
		"coverage": cov, "assumptions": c.assume,
		"wall_s": time.Since(c.started).Seconds(), "violations": len(bad),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
	replay := filepath.Join(dir, c.id+".violations.json")
	os.Remove(replay)
	if len(c.oblig) == 0 {
		bad = append(bad, oblig{Key: "coverage/none", Rule: "coverage", Detail: "no obligation was generated"})
	}
	if len(bad) == 0 {
		fmt.Printf("%s: %d obligations, %d discharged, %d known findings\n", c.id, len(c.oblig), dis, nknown)
		return 0
	}
	b, _ = json.MarshalIndent(bad, "", " ")
	os.WriteFile(replay, append(b, '\n'), 0o644)
	for _, o := range bad {
		fmt.Printf("VIOLATION property=%s replay=%s rule=%s at %s: %s\n", c.id, replay, o.Key, o.Where, o.Detail)
	}
	return 1
}

func short(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}
