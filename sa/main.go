package main

// trisa: the static analyser that decides the properties of /verif/properties.jsonl
// from the source of /repo.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Ob is one obligation: a rule applied to a construct of the program.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	At        string `json:"at,omitempty"`
	Detail    string `json:"detail,omitempty"`
	Known     bool   `json:"known,omitempty"`
}

type Check struct {
	id, title string
	rule      string // what is decided, for the evidence file
	assume    []string
	run       func(c *Ctx)
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

type Ctx struct {
	depth  int // nesting of guards
	L      *Loaded
	obs    []*Ob
	idx    map[string]*Ob
	counts map[string]int
	funcs  map[string]bool
	notes  []string
	tier   string
}

// ob records an obligation; several reports on one construct are conjoined.
func (c *Ctx) ob(rule, construct string, ok bool, at, format string, a ...any) bool {
	k := rule + "|" + construct
	if o := c.idx[k]; o != nil {
		if o.OK && !ok {
			o.OK, o.At, o.Detail = false, at, fmt.Sprintf(format, a...)
		}
		return ok
	}
	o := &Ob{Rule: rule, Construct: construct, OK: ok, At: at}
	if !ok {
		o.Detail = fmt.Sprintf(format, a...)
	}
	c.idx[k] = o
	c.obs = append(c.obs, o)
	return ok
}

func (c *Ctx) count(k string, n int) { c.counts[k] += n }

// need fails the check when fewer instances were found than were confirmed by hand.
func (c *Ctx) need(what string, got, min int) {
	c.counts["instances: "+what] = got
	c.ob("instances", what, got >= min, "", "only %d found, at least %d expected: the rule would hold vacuously", got, min)
}

// guard turns a failure to decide into a failed obligation.
func (c *Ctx) guard(what string, f func()) {
	if x := os.Getenv("TRISA_GUARD"); x != "" && c.depth > 0 && !strings.Contains(what, x) {
		return // for debugging one part of a check
	}
	if os.Getenv("TRISA_DEBUG") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "%s: %.1fs\n", what, time.Since(t0).Seconds()) }()
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if _, ok := r.(undecided); !ok {
				msg = "internal: " + msg
				if os.Getenv("TRISA_DEBUG") != "" {
					if sp, ok := r.(splitNeeded); ok {
						msg += " split on " + sp.c.Key()
					}
					if os.Getenv("TRISA_DEBUG") == "2" {
						msg += "\n" + string(debug.Stack())
					}
				}
			}
			c.ob("decided", what, false, "", "the analysis could not decide this: %s", msg)
		}
	}()
	c.depth++
	f()
	c.depth--
	c.ob("decided", what, true, "", "")
}

// take adds what an interpreter run established.
func (c *Ctx) take(e *Engine) {
	for _, k := range e.obOrder {
		o := e.obs[k]
		c.ob(o.Rule, o.Construct, o.OK, o.At, "%s", o.Detail)
	}
	for f := range e.funcs {
		c.funcs[f] = true
	}
	c.count("abstract steps", e.steps)
	c.count("loops summarised", e.counts["loops"])
}

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	id := flag.String("check", "", "property to decide")
	evid := flag.String("evidence", "", "evidence file to write")
	known := flag.String("known", "", "known findings")
	list := flag.Bool("list", false, "list checks")
	verbose := flag.Bool("v", false, "print every obligation")
	dbg := flag.String("exec", "", "debug: execute pkg.func or pkg.type.method")
	prof := flag.String("prof", "", "write a CPU profile")
	flag.Parse()
	debug.SetGCPercent(600)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); debug.PrintStack(); os.Exit(3) }()
	}
	if *list {
		for _, c := range checks {
			fmt.Println(c.id, c.title)
		}
		return
	}
	start := time.Now()
	if *dbg != "" {
		debugExec(*repo, *dbg)
		return
	}
	rc := 0
	for _, cid := range strings.Split(*id, ",") {
		var ck *Check
		for _, c := range checks {
			if c.id == cid {
				ck = c
			}
		}
		if ck == nil {
			fmt.Printf("no check for property %q\n", cid)
			os.Exit(2)
		}
		ev := *evid
		if fi, err := os.Stat(ev); err == nil && fi.IsDir() {
			ev = filepath.Join(ev, cid+".json")
		}
		if runCheck(ck, *repo, ev, *known, *verbose, start) {
			rc = 1
		}
		start = time.Now()
	}
	os.Exit(rc)
}

var loadedCache *Loaded

func runCheck(ck *Check, repo, evid, known string, verbose bool, start time.Time) (bad bool) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{idx: map[string]*Ob{}, counts: map[string]int{}, funcs: map[string]bool{}, tier: tier}
	if loadedCache == nil {
		l, err := load(repo)
		if err != nil {
			c.ob("load", "the module type-checks", false, "", "%v", err)
		}
		loadedCache = l
	}
	c.L = loadedCache
	if c.L != nil {
		c.guard("rule engine", func() { ck.run(c) })
	}
	if len(c.obs) < 2 {
		c.ob("instances", "obligations", false, "", "nothing was checked")
	}
	kf := loadKnown(known)
	var fails []*Ob
	disch := 0
	for _, o := range c.obs {
		if o.OK {
			disch++
			continue
		}
		if kf[ck.id+"|"+o.Rule+"|"+o.Construct] {
			o.Known = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.id, o.Rule, o.Construct)
			continue
		}
		fails = append(fails, o)
	}
	var fl []string
	for f := range c.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	fmt.Printf("%s: %s\n", ck.id, ck.title)
	fmt.Printf("  rule: %s\n", ck.rule)
	if c.L != nil {
		fmt.Printf("  analysed: %d packages; %d functions interpreted or visited by this rule\n", len(c.L.pkgs), len(fl))
	}
	fmt.Printf("  obligations: %d, discharged: %d\n", len(c.obs), disch)
	if verbose {
		for _, o := range c.obs {
			s := "ok  "
			if !o.OK {
				s = "FAIL"
			}
			fmt.Printf("    %s [%s] %s\n", s, o.Rule, o.Construct)
		}
		for _, k := range sortedKeys(c.counts) {
			fmt.Printf("    %s: %d\n", k, c.counts[k])
		}
	}
	for i, o := range fails {
		if i >= 12 {
			fmt.Printf("  ... and %d more\n", len(fails)-i)
			break
		}
		at := o.At
		if at == "" {
			at = "-"
		}
		fmt.Printf("  BROKEN [%s] %s\n    at %s\n    %s\n", o.Rule, o.Construct, at, o.Detail)
	}
	if evid != "" {
		cov := map[string]any{
			"explanation":        "static analysis of the SSA form of the current source; every obligation is a rule applied to one construct, on all paths",
			"rule":               ck.rule,
			"obligations":        len(c.obs),
			"discharged":         disch,
			"functions":          len(fl),
			"functions_analysed": fl,
			"obligation_list":    c.obs,
			"counts":             c.counts,
		}
		if c.L != nil {
			cov["packages"] = len(c.L.pkgs)
		}
		ev := map[string]any{
			"property": ck.id, "tier": tier, "seed": seed, "level": "other",
			"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(fails),
			"assumptions": append([]string{
				"the type checker and SSA builder of golang.org/x/tools v0.52.0 represent the source faithfully",
				"the analyser in /verif/sa implements the Go semantics it models",
			}, ck.assume...),
		}
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(evid, append(b, '\n'), 0644)
		}
		if err != nil {
			fmt.Println("evidence:", err)
		}
	}
	if len(fails) > 0 {
		p := evid
		if p == "" {
			p = "-"
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.id, p)
		return true
	}
	fmt.Printf("  HOLDS (%.1fs)\n", time.Since(start).Seconds())
	return false
}

// loadKnown reads "finding" lines: {"property":..,"rule":..,"construct":..}.
func loadKnown(file string) map[string]bool {
	m := map[string]bool{}
	if file == "" {
		return m
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	var d struct {
		Findings []struct{ Property, Rule, Construct string }
	}
	if json.Unmarshal(b, &d) == nil {
		for _, f := range d.Findings {
			m[f.Property+"|"+f.Rule+"|"+f.Construct] = true
		}
	}
	return m
}
