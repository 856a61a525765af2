package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the randomness of a build.

func init() {
	register(&Check{
		id:   "C08",
		uses: seedUses("hBuildAngularSingle", "hBuildAngularMulti", "hBuildDotMulti"),
		min: map[string]int{
			"random choices come from the worker's own generator":         1,
			"a worker's seed is the configured seed and its own number":   1,
			"a generator is seeded before it is used, and not afterwards": 1,
		},
		expl: "Ownership and value analysis of every generator during a build, over all paths: the generators that draw, or are written, were made by the ThreadBuild activation that uses them and are not stored where another worker finds them; before the first draw, and only then, each is given a seed that is, as a linear expression, a field of the configured generator plus a non-zero multiple of the worker's number; no clock, process-wide generator, map order or similar varying input flows into the build.",
	})
}

func seedUses(names ...string) []HarnessUse {
	var u []HarnessUse
	for _, n := range names {
		u = append(u, HarnessUse{name: n, generic: true, cfg: Config{Ghost: ghostSeed}, observe: observeC08})
	}
	return u
}

// generator: is the object (part of) a generator of the package random?
func generator(o *Obj) bool {
	t := baseObj(o).typ
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/random")
}

// genMethod: the name of the method of a generator.
func genMethod(fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil {
		return ""
	}
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/random") {
		return ""
	}
	return fn.Name()
}

// ownGenerator: made within this activation of ThreadBuild, and only known to it.
func ownGenerator(x *X, o *Obj) string {
	o = baseObj(o)
	if o.at == nil || !within(o.at.ctx, "ThreadBuild") {
		return "the generator was not made by this worker"
	}
	for c, v := range x.s.mem {
		if c.o == o || strings.HasPrefix(c.path, "#") || c.o.at != nil && within(c.o.at.ctx, "ThreadBuild") {
			continue
		}
		hit := false
		avObjs(v, func(p *Obj) { hit = hit || p == o })
		if hit {
			return "the generator is kept in " + objName(c.o) + c.path
		}
	}
	return ""
}

// ghostSeed remembers the worker's number, and which generators were seeded and used.
func ghostSeed(ev *Ev) {
	x, s := ev.x, ev.x.s
	if ev.kind != "call" || ev.fn == nil {
		return
	}
	if ev.fn.Name() == "ThreadBuild" && ev.fn.Signature.Recv() != nil {
		if idx := theIndex(s); idx != nil && len(ev.args) > 2 {
			if n, ok := ev.args[2].(Int); ok {
				s.mem[Cell{idx, "#worker"}] = n
			}
		}
		for k := range s.tags {
			if strings.HasPrefix(k, "gen:") {
				delete(s.tags, k)
			}
		}
	}
	m := genMethod(ev.fn)
	if m == "" || len(ev.args) == 0 || genMethod(x.ctx.fn) != "" || !within(x.ctx, "ThreadBuild") {
		return
	}
	p, ok := ev.args[0].(Ptr)
	if !ok {
		return
	}
	for _, t := range p.tg {
		k := genTag(t.o)
		if isDraw(m) {
			s.tags["gen:used"] = "1"
			switch s.tags[k] {
			case "seeded":
				s.tags[k] = "used"
			case "":
				s.tags[k] = "unseeded"
			}
		}
		if m == "SetSeed" {
			if s.tags[k] == "used" || s.tags["gen:used"] != "" {
				s.tags[k] = "again"
			} else {
				s.tags[k] = "seeded"
			}
		}
	}
}

func isDraw(m string) bool { return strings.HasPrefix(m, "Next") || strings.HasPrefix(m, "Norm") }

func observeC08(r *Run) func(*Ev) {
	const rOwn = "random choices come from the worker's own generator"
	const rSeed = "a worker's seed is the configured seed and its own number"
	const rOnce = "a generator is seeded before it is used, and not afterwards"
	const rVary = "nothing that varies between runs influences the build"
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		if x.isHarness(x.ctx.fn) || s.tags["at:build"] == "" || s.tags["at:built"] != "" {
			return
		}
		con := shortFn(x.ctx.fn)
		switch ev.kind {
		case "nondet":
			if !onlyReported(ev.in) {
				r.ob(rVary, con, false, "uses "+ev.name+" in "+r.at(ev))
			}
		case "draw":
			r.ob(rVary, con, false, "draws from "+ev.name+" in "+r.at(ev))
		case "maprange":
			r.ob(rVary, con, false, "depends on the order of a map in "+r.at(ev))
		case "unknowncall":
			r.ob(rVary, con, false, "calls an unknown function in "+r.at(ev))
		case "store":
			if genMethod(x.ctx.fn) == "" {
				return
			}
			for _, t := range ev.ptr.tg {
				if t.o.kind == okGlobal {
					r.ob(rOwn, con, false, "writes "+t.o.desc+" in "+r.at(ev))
				} else if generator(t.o) {
					why := ownGenerator(x, t.o)
					r.ob(rOwn, con, why == "", why+", in "+r.at(ev))
				}
			}
		case "call":
			m := genMethod(ev.fn)
			if m == "" || len(ev.args) == 0 || genMethod(x.ctx.fn) != "" {
				return
			}
			p, ok := ev.args[0].(Ptr)
			if !ok {
				return
			}
			switch {
			case isDraw(m):
				r.ob(rOwn, con, !p.unk && len(p.tg) > 0, "the generator is not known in "+r.at(ev))
				for _, t := range p.tg {
					why := ownGenerator(x, t.o)
					r.ob(rOwn, con, why == "", why+", in "+r.at(ev))
					k := s.tags[genTag(t.o)]
					r.ob(rOnce, con, k == "used" || k == "again", "the generator may not have been given the worker's seed, in "+r.at(ev))
				}
			case m == "SetSeed":
				for _, t := range p.tg {
					r.ob(rOnce, con, s.tags[genTag(t.o)] != "again", "the generator starts over after it was used, in "+r.at(ev))
				}
				idx := theIndex(s)
				if idx == nil || len(ev.args) < 2 {
					return
				}
				n, ok := ev.args[1].(Int)
				w, ok2 := s.mem[Cell{idx, "#worker"}].(Int)
				good := false
				why := "the seed does not depend on the worker's number"
				if ok && ok2 {
					for k := int64(-64); k <= 64 && !good; k++ {
						if k == 0 {
							continue
						}
						base := u.sub(n.l, u.scale(w.l, k))
						for c, v := range s.mem {
							f, ok := v.(Int)
							if !ok || strings.HasPrefix(c.path, "#") || !generator(c.o) {
								continue
							}
							if _, k := f.l.isConst(); k {
								continue // not the seed that was configured
							}
							if _, c := u.sub(base, f.l).isConst(); c || s.proveEq(base, f.l) {
								good = true
								break
							}
						}
					}
					if !good {
						why = "the seed is not the configured one plus a multiple of the worker's number"
					}
					if c, isC := w.l.isConst(); isC && x.e.threadOf(x.ctx) != nil {
						good, why = false, fmt.Sprint("every worker has the number ", c)
					}
				}
				r.ob(rSeed, con, good, why+", in "+r.at(ev))
			}
		}
	}
}

func genTag(o *Obj) string { return fmt.Sprint("gen:", baseObj(o).id) }

// onlyReported: the value is used for nothing but printing (at most after calculating with times).
func onlyReported(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return true
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, q := range *refs {
			switch q := q.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if q.Val != v {
					continue
				}
				switch a := q.Addr.(type) {
				case *ssa.IndexAddr:
					if !rec(a.X) {
						return false
					}
				case *ssa.Alloc:
					if !rec(a) {
						return false
					}
				default:
					return false
				}
			case *ssa.Call:
				f := q.Call.StaticCallee()
				if f == nil || f.Pkg == nil && f.Object() == nil {
					return false
				}
				pkg := ""
				if f.Pkg != nil {
					pkg = f.Pkg.Pkg.Path()
				} else if f.Object() != nil && f.Object().Pkg() != nil {
					pkg = f.Object().Pkg().Path()
				}
				switch pkg {
				case "fmt":
					if strings.HasPrefix(f.Name(), "Sprint") {
						if !rec(q) {
							return false
						}
					}
				case "log":
				case "time":
					if !rec(q) {
						return false
					}
				default:
					return false
				}
			case *ssa.Defer:
				f := q.Call.StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" && f.Pkg.Pkg.Path() != "log" {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range q.Bindings {
					if b == v && !rec(q.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			case ssa.Value:
				if !rec(q) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return rec(v)
}
