package main

import (
	"fmt"
	"strings"
)

// C09: the build policies run every worker to completion.

func init() {
	cfg := Config{Ghost: ghostPolicy}
	uses := func(o func(*Run) func(*Ev), names ...string) []HarnessUse {
		var u []HarnessUse
		for _, n := range names {
			u = append(u, HarnessUse{name: n, cfg: cfg, observe: o})
		}
		return u
	}
	register(&Check{
		id:   "C09",
		uses: append(uses(observeC09(true), "hPolicyMulti", "hPolicyMultiAuto"), uses(observeC09(false), "hPolicySingle", "hPolicySingleAuto")...),
		min: map[string]int{
			"every worker builds its trees once":                1,
			"at least one worker runs":                          1,
			"every worker is waited for":                        1,
			"a worker has a number of its own":                  1,
			"an automatic number of trees reaches every worker": 1,
		},
		expl: "Abstract execution of both build policies against a builder that only notes its calls, for every worker and tree count: token counting on the wait group (tokens added equal goroutines started at the wait, at least one), per goroutine exactly one ThreadBuild call followed by exactly one Done of that group on every path, the worker number bound to the count of goroutines started before, and -1 passed on.",
	})
}

func ghostPolicy(ev *Ev) {
	if ev.kind == "wgadd" {
		// #tot: the tokens, when all are added before the first goroutine is started
		s, u := ev.x.s, ev.x.e.u
		c, k := Cell{ev.tg.o, "#tot"}, u.zero
		if t, ok := s.mem[c].(Int); ok {
			k = t.l
		}
		delete(s.mem, c)
		if _, n := spawned(s); ev.ln != nil && (n == nil || s.proveEq(n, u.zero)) {
			s.mem[c] = Int{u.add(k, ev.ln)}
		}
	}
	if ev.kind == "result" && ev.name == "ThreadBuild" {
		if d := ev.x.s.tags["tb"]; len(d) < 2 {
			ev.x.s.tags["tb"] = d + "1"
		}
	}
}

func observeC09(multi bool) func(r *Run) func(*Ev) {
	return func(r *Run) func(*Ev) {
		auto := strings.HasSuffix(r.harness, "Auto")
		waits := map[string]bool{}
		r.data["waits"] = waits
		return func(ev *Ev) {
			x, s, u := ev.x, ev.x.s, ev.x.e.u
			th := x.e.threadOf(x.ctx)
			switch ev.kind {
			case "result":
				if ev.name != "ThreadBuild" {
					return
				}
				trees, ok := ev.args[0].(Int)
				worker, ok2 := ev.args[1].(Int)
				if auto {
					r.ob("an automatic number of trees reaches every worker", r.harness, ok && s.proveEq(trees.l, u.k(-1)), "a worker may be asked for another number of trees in "+r.at(ev))
				}
				if th != nil {
					_, n := spawned(s)
					good := false
					for k := int64(-1); k <= 1 && ok2 && n != nil && !good; k++ {
						if s.proveEq(u.sub(worker.l, n), u.k(k)) {
							good = r.data["worker-offset"] == nil || r.data["worker-offset"] == k
							r.data["worker-offset"] = k
						}
					}
					if !good && ok2 && n != nil {
						// counting down
						for c, v := range s.mem {
							tot, ok := v.(Int)
							if c.path != "#tot" || !ok {
								continue
							}
							for k := int64(-2); k <= 1 && !good; k++ {
								if s.proveEq(u.add(worker.l, n), u.addc(tot.l, k)) {
									good = r.data["worker-offset"] == nil || r.data["worker-offset"] == fmt.Sprint("down", k)
									r.data["worker-offset"] = fmt.Sprint("down", k)
								}
							}
						}
					}
					r.ob("a worker has a number of its own", r.harness, good, "two workers may be given the same number in "+r.at(ev))
				}
			case "exit":
				if th == nil || ev.x.ctx != th {
					return
				}
				con := r.harness + ": " + shortFn(x.ctx.fn)
				r.ob("every worker builds its trees once", con, s.tags["tb"] == "1", "a worker ends after "+fmt.Sprint(len(s.tags["tb"]))+" calls of ThreadBuild")
				r.ob("every worker is waited for", con, s.tags["done"] == "1", "a worker ends after "+fmt.Sprint(len(s.tags["done"]))+" calls of Done")
			case "wgdone":
				r.ob("every worker is waited for", r.harness+": "+shortFn(x.ctx.fn), th == nil || s.tags["tb"] == "1", "Done is called before the trees are built in "+r.at(ev))
			case "wgwait":
				_, n := spawned(s)
				r.ob("every worker is waited for", r.harness, ev.ln != nil && s.proveEq(ev.ln, u.zero), "the number of goroutines may differ from the number that is waited for in "+r.at(ev))
				r.ob("at least one worker runs", r.harness, n != nil && s.proveLe(u.k(1), n), "no worker may have been started in "+r.at(ev))
			case "end":
				if ev.name != "Build" {
					return
				}
				if !multi && s.tags["waited"] == "" && s.tags["spawned"] == "" {
					r.ob("at least one worker runs", r.harness, s.tags["tb"] != "", "Build may return without having built")
					r.ob("every worker builds its trees once", r.harness, s.tags["tb"] == "1", "ThreadBuild is called "+fmt.Sprint(len(s.tags["tb"]))+" times")
					return
				}
				r.ob("every worker is waited for", r.harness+": Build returns", s.tags["spawned"] == "" && s.tags["waited"] != "", "Build may return while workers run")
			}
		}
	}
}

// spawned: the number of goroutines started so far.
func spawned(s *State) (Cell, *Lin) {
	for c, v := range s.mem {
		if strings.HasPrefix(c.path, wgSpawn) {
			if n, ok := v.(Int); ok {
				return c, n.l
			}
		}
	}
	return Cell{}, nil
}
