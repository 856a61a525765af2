package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about random generators.

func init() {
	uses := func() []HarnessUse {
		var u []HarnessUse
		for _, n := range []string{"hRandK", "hRandKiss64", "hRandGo"} {
			u = append(u, HarnessUse{name: n, generic: n == "hRandK", cfg: Config{MaxDisj: 300, Ghost: ghostRand}, observe: observeC27, after: afterC27})
		}
		return u
	}
	register(&Check{
		id:   "C27",
		uses: uses(),
		min: map[string]int{
			"an index drawn is below the bound":                             1,
			"a side drawn is one of the two sides":                          1,
			"a clone is a separate generator":                               1,
			"a clone depends only on the seed":                              1,
			"a generator depends on nothing but its own state and its seed": 1,
			"the seed last set is the seed":                                 1,
			"drawing changes only the generator's own state":                1,
		},
		expl:   "Range, points-to and effect analysis of every generator (Kiss32, Kiss64, GoRandom): results of NextIndex and NextSide for arbitrary state and bound; the memory of a clone; the fields a clone is computed from, which drawing must not change and SetSeed must set on every path; reads of globals, time or other varying inputs.",
		combos: 2,
	})
}

func observeC27(r *Run) func(*Ev) {
	gen := strings.TrimPrefix(r.harness, "hRand")
	set := func(k string) map[string]bool {
		m, ok := r.data[k].(map[string]bool)
		if !ok {
			m = map[string]bool{}
			r.data[k] = m
		}
		return m
	}
	mine := func(s *State) map[*Obj]bool {
		for c, v := range s.mem {
			if c.path == "#recv" {
				return reachFrom(s, v, nil)
			}
		}
		return nil
	}
	const rOwn = "a generator depends on nothing but its own state and its seed"
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		op := s.tags["op"]
		if op == "" {
			return
		}
		con := gen + " " + op
		switch ev.kind {
		case "nondet":
			r.ob(rOwn, con, false, ev.name+" in "+r.at(ev))
		case "end":
			r.ob(rOwn, con, true, "")
			if op == "SetSeed" {
				w := set("set")
				first := r.data["setSeen"] == nil
				r.data["setSeen"] = true
				now := map[string]bool{}
				for k := range s.tags {
					if strings.HasPrefix(k, "did:w") {
						now[k[5:]] = true
					}
				}
				if first {
					for k := range now {
						w[k] = true
					}
				} else {
					for k := range w {
						if !now[k] {
							delete(w, k)
						}
					}
				}
			}
		case "load":
			m := mine(s)
			for _, t := range ev.ptr.tg {
				if t.o.kind == okGlobal {
					if g := globalOf(x, t.o); g == nil || mutableGlobal(r.p, g) {
						r.ob(rOwn, con, false, "reads the variable "+t.o.desc+" in "+r.at(ev))
					}
				}
				if !m[t.o] {
					continue
				}
				for _, f := range leafPaths(x, t, ev) {
					if ev.typ != nil {
						if _, ptr := ev.typ.Underlying().(*types.Pointer); ptr {
							continue
						}
						if _, st := ev.typ.Underlying().(*types.Struct); st && op == "Clone" {
							continue // what of the copy is kept is looked at when cloning ends
						}
					}
					if op == "Clone" {
						set("cloned")[f] = true
						r.data["at:"+f] = r.at(ev)
					}
					if op == "SetSeed" && s.tags["did:w"+f] == "" {
						set("setReads")[f] = true
					}
				}
			}
		case "store":
			m := mine(s)
			for _, t := range ev.ptr.tg {
				if t.o.kind == okGlobal {
					r.ob("drawing changes only the generator's own state", con, false, "writes "+t.o.desc+" in "+r.at(ev))
					continue
				}
				if !m[t.o] {
					if !inOp(x, t.o) {
						r.ob("drawing changes only the generator's own state", con, false, construct(ev, t))
					}
					continue
				}
				for _, f := range leafPaths(x, t, ev) {
					if op == "Draw" {
						r.ob("drawing changes only the generator's own state", con, true, "")
						set("drawn")[f] = true
					}
					if op == "Clone" {
						r.ob("a clone is a separate generator", gen, false, "cloning writes to "+f+" of the original in "+r.at(ev))
					}
					if op == "SetSeed" {
						set("anyset")[f] = true
					}
				}
			}
		case "draw":
			if op == "Draw" {
				ok := false
				if p, isP := ev.args[0].(Ptr); isP {
					m := mine(s)
					ok = len(p.tg) > 0
					for _, t := range p.tg {
						ok = ok && m[t.o]
					}
				}
				r.ob("drawing changes only the generator's own state", con, ok, "draws from another generator in "+r.at(ev))
				set("drawn")["#rng"] = true
			}
			if op == "Clone" {
				r.ob("a clone is a separate generator", gen, false, "cloning draws in "+r.at(ev))
			}
		case "result":
			switch ev.name {
			case "NextIndex":
				n, ok1 := ev.args[0].(Int)
				v, ok2 := ev.args[1].(Int)
				ok := ok1 && ok2 && s.proveLt(v.l, n.l) && s.prove(u.scale(v.l, -1))
				r.ob("an index drawn is below the bound", gen, ok, "NextIndex may return a number that is not below the bound")
			case "NextSide":
				v, ok := ev.args[0].(Int)
				ok = ok && s.prove(u.scale(v.l, -1)) && s.prove(u.addc(v.l, -1))
				r.ob("a side drawn is one of the two sides", gen, ok, "NextSide may return something else")
			case "GetSeed":
				a, ok1 := ev.args[0].(Int)
				b, ok2 := ev.args[1].(Int)
				r.ob("the seed last set is the seed", con, ok1 && ok2 && s.proveEq(a.l, b.l), "GetSeed does not return the seed that was set")
			case "Clone":
				a, b := map[*Obj]bool{}, map[*Obj]bool{}
				for o := range reachFrom(s, ev.args[0], nil) {
					a[o] = true
				}
				good, why := true, ""
				for o := range reachFrom(s, ev.args[1], nil) {
					b[o] = true
					if a[o] {
						good, why = false, "the clone shares "+fieldOf(Tgt{o: o})+" with the original"
					}
					if o.kind == okGlobal {
						good, why = false, "the clone is a shared variable"
					}
				}
				if len(b) == 0 {
					good, why = false, "the clone is not known"
				}
				if p, ok := single(ev.args[0]); ok {
					if q, ok := single(ev.args[1]); ok && p.o != q.o {
						for c, v := range s.mem {
							n, ok := v.(Int)
							if c.o != q.o || !ok || strings.HasPrefix(c.path, "#") {
								continue
							}
							if _, cst := n.l.isConst(); cst {
								continue
							}
							if l := intCell(s, p.o, c.path); l != nil && s.proveEq(l, n.l) {
								set("cloned")[c.path] = true
								r.data["at:"+c.path] = "the clone keeps it"
							}
						}
					}
				}
				r.ob("a clone is a separate generator", gen, good, why)
			}
		}
	}
}

// leafPaths: the fields an access touches.
func leafPaths(x *X, t Tgt, ev *Ev) []string {
	if ev.typ == nil {
		return []string{t.path}
	}
	ls := leaves(ev.typ)
	var out []string
	for _, l := range ls {
		out = append(out, t.path+l.path)
	}
	if len(out) == 0 {
		out = []string{t.path}
	}
	return out
}

func ghostRand(ev *Ev) {
	s := ev.x.s
	if ev.kind == "result" && ev.name == "recv" {
		for c := range s.mem {
			if c.path == "#recv" {
				delete(s.mem, c)
			}
		}
		if t, ok := single(ev.args[0]); ok {
			s.mem[Cell{t.o, "#recv"}] = ev.args[0]
		}
	}
	if ev.kind == "store" && s.tags["op"] == "SetSeed" {
		for _, t := range ev.ptr.tg {
			for _, f := range leafPaths(ev.x, t, ev) {
				s.tags["did:w"+f] = "1"
			}
		}
	}
	if ev.kind == "draw" && s.tags["op"] == "SetSeed" && strings.HasSuffix(ev.name, ".Seed") {
		s.tags["did:w#rng"] = "1"
	}
}

func globalOf(x *X, o *Obj) *ssa.Global {
	for _, pk := range x.e.p.prog.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.String() == o.desc {
				return g
			}
		}
	}
	return nil
}

// mutableGlobal: written outside package initialisation, or its address is taken.
func mutableGlobal(p *Prog, g *ssa.Global) bool {
	for _, f := range p.funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					if ld, ok := in.(*ssa.UnOp); ok && ld.X == g {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

func afterC27(r *Run) {
	gen := strings.TrimPrefix(r.harness, "hRand")
	get := func(k string) map[string]bool { m, _ := r.data[k].(map[string]bool); return m }
	var fs []string
	for f := range get("cloned") {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	r.ob("a clone depends only on the seed", gen, len(fs) > 0, "a clone is not made from the seed")
	for _, f := range fs {
		at, _ := r.data["at:"+f].(string)
		r.ob("a clone depends only on the seed", gen+f, !get("drawn")[f], "cloning reads "+f+", which drawing changes: "+at)
		r.ob("a clone depends only on the seed", gen+f+" is set by SetSeed", get("set")[f], "cloning reads "+f+", which SetSeed does not set on every path: "+at)
	}
	for f := range get("setReads") {
		r.ob("a clone depends only on the seed", gen+" SetSeed reads "+f, false, "what SetSeed sets may depend on the previous "+f)
	}
}
