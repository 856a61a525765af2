package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a rule applied to one construct of the program.
type Ob struct {
	rule, construct string
	n               int // instances (states in which it was decided)
	bad             int
	why             map[string]bool
}

// Result collects what a check decided.
type Result struct {
	mu      sync.Mutex
	prop    string
	obs     map[string]*Ob
	stats   map[string]int
	samples []string
	notes   []string
	fatal   []string
	funcs   map[string]bool
	shared  map[string]any // facts the harnesses of a check hand to its final step
}

// share runs f with the facts shared by the harnesses of a check.
func (r *Result) share(f func(m map[string]any)) {
	r.mu.Lock()
	defer r.mu.Unlock()
	f(r.shared)
}

func newResult(prop string) *Result {
	return &Result{prop: prop, obs: map[string]*Ob{}, stats: map[string]int{}, funcs: map[string]bool{}, shared: map[string]any{}}
}

// add records one instance of an obligation.
func (r *Result) add(rule, construct string, ok bool, why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := rule + "\x00" + construct
	o := r.obs[k]
	if o == nil {
		o = &Ob{rule: rule, construct: construct, why: map[string]bool{}}
		r.obs[k] = o
	}
	o.n++
	if !ok {
		o.bad++
		if len(o.why) < 4 {
			o.why[why] = true
		}
	}
}

func (r *Result) fail(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, f := range r.fatal {
		if f == what {
			return
		}
	}
	r.fatal = append(r.fatal, what)
}

func (r *Result) stat(k string, n int) {
	r.mu.Lock()
	r.stats[k] += n
	r.mu.Unlock()
}

func (r *Result) sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// count returns the number of obligations (constructs) of a rule.
func (r *Result) count(rule string) int {
	n := 0
	for _, o := range r.obs {
		if o.rule == rule {
			n++
		}
	}
	return n
}

// Run is one analysis of one harness.
type Run struct {
	res     *Result
	p       *Prog
	e       *Engine
	harness string
	combo   Combo
	tier    string
	data    map[string]any
}

func (r *Run) ob(rule, construct string, ok bool, why string) {
	if !ok {
		why = fmt.Sprintf("%s [%s %s/%s]", why, r.harness, r.combo.TV, r.combo.TIX)
	}
	r.res.add(rule, construct, ok, why)
}

// dump prints the state of an event when VSTATE is part of the rule (for debugging).
func (r *Run) dump(rule string, ok bool, ev *Ev) {
	if v := os.Getenv("VSTATE"); !ok && v != "" && strings.Contains(rule, v) {
		fmt.Println("STATE", r.harness, rule, r.at(ev), ev.x.s.String())
	}
}

// at describes the place of an event.
func (r *Run) at(ev *Ev) string {
	return shortFn(ev.x.ctx.fn) + " (" + r.p.pos(ev.in.Pos()) + ", via " + callPath(ev.x.ctx) + ")"
}

func callPath(c *Ctx) string {
	var parts []string
	for ; c != nil; c = c.parent {
		n := shortFn(c.fn)
		if c.kind == "go" {
			n = "go " + n
		}
		parts = append([]string{n}, parts...)
	}
	if len(parts) > 6 {
		parts = append([]string{"..."}, parts[len(parts)-6:]...)
	}
	return strings.Join(parts, ">")
}

// HarnessUse says how a check uses a harness.
type HarnessUse struct {
	name    string
	generic bool
	cfg     Config
	observe func(r *Run) func(*Ev)
	after   func(r *Run) // when the analysis of this harness ended
}

// Check decides one property.
type Check struct {
	id     string
	uses   []HarnessUse
	direct func(res *Result, p *Prog, combos []Combo) // rules that need no harness
	final  func(res *Result)                          // runs after all harnesses
	min    map[string]int                             // minimal number of constructs per rule
	expl   string
	assume []string
	combos int // number of instantiations in the quick tier (default 1)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

func runCheck(c *Check, repo, tier, out string, seed int) int {
	t0 := time.Now()
	res := newResult(c.id)
	p, err := Load(repo)
	nfuncs := 0
	if err != nil {
		res.fail("the source could not be loaded and type-checked: " + err.Error())
	} else {
		nfuncs = len(p.funcs)
		n := c.combos
		if n == 0 {
			n = 1
		}
		if tier == "thorough" {
			n = len(allCombos)
		}
		combos := allCombos[:n]
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		task := func(name string, f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				defer func() {
					if x := recover(); x != nil {
						res.fail(fmt.Sprintf("internal error while analysing %s: %v\n%s", name, x, debug.Stack()))
					}
				}()
				f()
			}()
		}
		if c.direct != nil {
			task("the source", func() { c.direct(res, p, combos) })
		}
		for _, u := range c.uses {
			u := u
			cs := combos
			if !u.generic {
				cs = combos[:1]
			}
			for _, cb := range cs {
				cb := cb
				var fn *ssa.Function
				if u.generic {
					fn = p.instance(driverDir, u.name, cb.TV, cb.TIX)
				} else {
					fn = p.pkgs[driverDir].Func(u.name)
				}
				if fn == nil {
					res.fail("entry point " + u.name + " not found")
					continue
				}
				task(u.name, func() {
					cfg := u.cfg
					cfg.Combo = cb
					e := newEngine(p, newUniv(), cfg)
					e.debug = os.Getenv("VDEBUG") != ""
					if cfg.MaxDisj > 0 {
						e.maxDisj = cfg.MaxDisj
					}
					r := &Run{res: res, p: p, e: e, harness: u.name, combo: cb, tier: tier, data: map[string]any{}}
					if u.observe != nil {
						if o := u.observe(r); o != nil {
							e.obs = append(e.obs, o)
						}
					}
					if err := e.analyse(fn); err != nil {
						res.fail(fmt.Sprintf("%s %s/%s: %v", u.name, cb.TV, cb.TIX, err))
					}
					if u.after != nil {
						u.after(r)
					}
					for k, v := range e.issues {
						res.fail(fmt.Sprintf("undecided: %s: %s [%s]", k, v, u.name))
					}
					res.stat("abstract_states", e.nFinalStates)
					res.stat("abstract_instruction_executions", e.nInstr)
					res.stat("entry_points", 1)
					res.stat("inlined_activations", len(e.ctxs))
					res.mu.Lock()
					for _, cx := range e.ctxs {
						if p.inModule(cx.fn) {
							res.funcs[shortFn(cx.fn)] = true
						}
					}
					res.mu.Unlock()
				})
			}
		}
		wg.Wait()
		if c.final != nil && len(res.fatal) == 0 {
			c.final(res)
		}
		if len(res.fatal) == 0 {
			var rules []string
			for k := range c.min {
				rules = append(rules, k)
			}
			sort.Strings(rules)
			for _, rule := range rules {
				if k := res.count(rule); k < c.min[rule] {
					res.fail(fmt.Sprintf("rule %q applies to %d constructs, at least %d were expected: the code it describes was not found", rule, k, c.min[rule]))
				}
			}
		}
	}
	// verdict
	var obl []*Ob
	for _, o := range res.obs {
		obl = append(obl, o)
	}
	sort.Slice(obl, func(i, j int) bool {
		if obl[i].rule != obl[j].rule {
			return obl[i].rule < obl[j].rule
		}
		return obl[i].construct < obl[j].construct
	})
	known := loadKnown(filepath.Join(out, "..", "known-findings.txt"), c.id)
	discharged, inst, viol := 0, 0, 0
	var replay []string
	var failed []map[string]any
	perRule := map[string]int{}
	for _, o := range obl {
		inst += o.n
		perRule[o.rule]++
		if o.bad == 0 {
			discharged++
			continue
		}
		if why, ok := known[o.rule+" @ "+o.construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s @ %s: %s\n", c.id, o.rule, o.construct, why)
			continue
		}
		viol++
		var ws []string
		for w := range o.why {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		replay = append(replay, fmt.Sprintf("rule: %s\nconstruct: %s\n  %s\n", o.rule, o.construct, strings.Join(ws, "\n  ")))
		failed = append(failed, map[string]any{"rule": o.rule, "construct": o.construct, "why": ws})
	}
	sort.Strings(res.fatal)
	for _, f := range res.fatal {
		viol++
		replay = append(replay, "undecided or unresolved: "+f+"\n")
		failed = append(failed, map[string]any{"rule": "analysis", "construct": f})
	}
	var samples []string
	for i, o := range obl {
		if i%(1+len(obl)/8) == 0 {
			samples = append(samples, fmt.Sprintf("%s @ %s: %d instances", o.rule, o.construct, o.n))
		}
	}
	var fl []string
	for f := range res.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"explanation":          c.expl,
		"obligations":          len(obl),
		"discharged":           discharged,
		"obligation_instances": inst,
		"obligations_per_rule": perRule,
		"samples":              samples,
		"functions_in_program": nfuncs,
		"functions_analysed":   fl,
		"failed":               failed,
		"statistics":           res.stats,
		"checker_cmd":          "analyzer -property " + c.id + " -tier " + tier,
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append(append([]string{}, c.assume...), commonAssumptions...),
		"wall_s":      float64(time.Since(t0).Milliseconds()) / 1000, "violations": viol,
	}
	os.MkdirAll(out, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	rp := filepath.Join(out, c.id+".violation.txt")
	os.Remove(rp)
	fmt.Printf("%s %s: %d obligations (%d instances), %d discharged, %d violations, %.1fs\n", c.id, tier, len(obl), inst, discharged, viol, time.Since(t0).Seconds())
	if viol > 0 {
		txt := strings.Join(replay, "\n")
		os.WriteFile(rp, []byte(txt), 0o644)
		fmt.Print(txt)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
		return 1
	}
	return 0
}

var commonAssumptions = []string{
	"64-bit platform; sums and products of sizes and counters below 2^63 do not overflow; narrowing of lengths to the id type is exact (an index holds fewer items than its id type can number)",
	"the vector length is between 1 and 2^20",
	"functions of the standard library and of sorty behave as documented (they are modelled, not analysed)",
	"user supplied components (distance, allocator, policy, generator, sorter) are the library's own",
}

// loadKnown reads the findings recorded for a property: lines "finding: property=<id> <rule> @ <construct> :: <what fails>".
func loadKnown(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + id + " "
		if strings.HasPrefix(l, pre) {
			k, w, _ := strings.Cut(strings.TrimPrefix(l, pre), " :: ")
			m[k] = w
		}
	}
	return m
}
