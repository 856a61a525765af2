package main

import (
	"go/types"
)

// Rules about the components of an index.

var wireCfg = Config{MaxDisj: 2000, Ghost: ghostWire}

func init() {
	register(&Check{
		id: "C25",
		uses: []HarnessUse{
			{name: "hWire", generic: true, cfg: wireCfg, observe: observeC25},
			{name: "hWireNew", generic: true, cfg: wireCfg, observe: observeC25},
		},
		combos: 4,
		min:    map[string]int{"a chosen component is used": 3, "a component that was not chosen has a default": 1, "shape of the index is that of its distance": 2},
		expl:   "Points-to analysis of the builder and the constructor for all four instantiations and every subset of options: the fields of the resulting index hold exactly the chosen objects (or, where the option names a kind, a new object of that kind), defaults are never nil, and vector length, node size and child capacity are symbolically equal to those of a distance made for the same vector length.",
	})
}

// ghostWire remembers the components passed to the constructor.
func ghostWire(ev *Ev) {
	if ev.kind != "result" || ev.name != "components" {
		return
	}
	t, ok := single(ev.args[0])
	if !ok {
		return
	}
	for i, n := range []string{"#d", "#p", "#a", "#m"} {
		ev.x.s.mem[Cell{t.o, n}] = ev.args[i]
	}
}

func dynTypes(a AV) map[string]bool {
	m := map[string]bool{}
	switch v := a.(type) {
	case Ptr:
		for _, t := range v.tg {
			if t.o.typ != nil {
				m[t.o.typ.String()] = true
			}
		}
		if v.unk || len(v.tg) == 0 {
			m["?"] = true
		}
	case Iface:
		for _, alt := range v.alts {
			t := alt.t
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			m[t.String()] = true
		}
		if v.unk || len(v.alts) == 0 {
			m["?"] = true
		}
	default:
		m["?"] = true
	}
	return m
}

func inner(a AV) AV {
	if f, ok := a.(Iface); ok && len(f.alts) == 1 && !f.unk {
		return f.alts[0].v
	}
	return a
}

func sameObj(a, b AV) bool {
	x, ok1 := single(inner(a))
	y, ok2 := single(inner(b))
	return ok1 && ok2 && x.o == y.o && x.path == y.path
}

func sameType(a, b AV) bool {
	x, y := dynTypes(a), dynTypes(b)
	if len(x) != 1 || len(y) != 1 || x["?"] {
		return false
	}
	for k := range x {
		return y[k]
	}
	return false
}

func observeC25(r *Run) func(*Ev) {
	return func(ev *Ev) {
		if ev.kind != "result" || ev.name != "wired" {
			return
		}
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		t, ok := single(ev.args[0])
		if !ok || t.o.typ == nil {
			r.res.fail("the index is not known: " + u.avStr(ev.args[0]) + " " + r.harness)
			return
		}
		idx := t.o
		kind := r.harness[1:]
		has := func(n string) bool { return s.tags["at:"+n] == "1" }
		cell := func(f string) AV { return cellVal(s, idx, f) }
		nonNil := func(f string) bool { return s.nilOf(cell(f)) == 2 }
		const chosen, deflt, shape = "a chosen component is used", "a component that was not chosen has a default", "shape of the index is that of its distance"
		// components passed to the constructor
		if has("components") {
			for c, v := range s.mem {
				if f := map[string]string{"#d": ".distance", "#p": ".buildPolicy", "#a": ".allocator", "#m": ".indexMemoryAllocator"}[c.path]; f != "" {
					r.ob(chosen, kind+" "+f, sameObj(cell(f), v), "the field holds "+u.avStr(cell(f))+", the argument is "+u.avStr(v))
				}
			}
		}
		// random, sorter
		if has("random") {
			r.ob(chosen, kind+" .random", sameObj(cell(".random"), ev.args[2]), "the field holds "+u.avStr(cell(".random")))
		} else {
			r.ob(deflt, kind+" .random", nonNil(".random"), "it may be nil")
		}
		if has("sorter") {
			r.ob(chosen, kind+" .sorter", sameObj(cell(".sorter"), ev.args[3]), "the field holds "+u.avStr(cell(".sorter")))
		} else {
			r.ob(deflt, kind+" .sorter", nonNil(".sorter") && !sameObj(cell(".sorter"), ev.args[3]), "it may be nil")
			if q, ok := single(inner(cell(".sorter"))); ok && q.o.typ != nil {
				for _, l := range leaves(q.o.typ) {
					if _, ok := l.typ.Underlying().(*types.Signature); ok {
						v := x.loadT(Tgt{q.o, q.path + l.path, nil}, l.typ)
						r.ob(deflt, kind+" .sorter"+l.path, s.nilOf(v) == 2, "the function may be nil")
					}
				}
			}
		}
		// kinds
		pick := func(f string, opts map[string]AV) {
			for n, v := range opts {
				if has(n) {
					r.ob(chosen, kind+" "+f+" "+n, sameType(cell(f), v) && nonNil(f), "the field holds "+u.avStr(cell(f)))
					return
				}
			}
			good := false
			for _, v := range opts {
				good = good || sameType(cell(f), v)
			}
			r.ob(deflt, kind+" "+f, good && nonNil(f), "the field holds "+u.avStr(cell(f)))
		}
		pick(".buildPolicy", map[string]AV{"multi": ev.args[4], "single": ev.args[5]})
		pick(".indexMemoryAllocator", map[string]AV{"mmap": ev.args[6], "file": ev.args[7]})
		r.ob(deflt, kind+" .allocator", nonNil(".allocator") && sameType(cell(".allocator"), ev.args[8]), "the field holds "+u.avStr(cell(".allocator")))
		b := boolField(s, idx, ".logVerbose")
		r.ob(chosen, kind+" .logVerbose", b == 1 && has("verbose") || b == 2 && !has("verbose"), "verbose logging differs from what was chosen")
		// shape
		for i, f := range []string{".vectorLength", ".nodeSize", ".maxDescendants"} {
			want, ok := ev.args[9+i].(Int)
			got := intCell(s, idx, f)
			r.ob(shape, kind+" "+f, ok && got != nil && s.proveEq(got, want.l), "the field is "+u.linStr(got)+", the distance's is "+u.linStr(want.l))
		}
		if v, ok := ev.args[12].(Int); ok {
			r.ob(shape, kind+" VectorLength()", s.proveEq(v.l, ev.args[9].(Int).l), "VectorLength returns "+u.linStr(v.l))
		}
		// the distance itself
		r.ob(chosen, kind+" .distance", sameType(cell(".distance"), ev.args[1]), "the field holds "+u.avStr(cell(".distance")))
		if q, ok := single(inner(cell(".distance"))); ok {
			if d, ok := single(inner(ev.args[1])); ok && q.o.typ != nil && types.Identical(q.o.typ, d.o.typ) {
				for _, l := range leaves(q.o.typ) {
					if isInteger(l.typ) {
						a, b := intCell(s, q.o, l.path), intCell(s, d.o, l.path)
						r.ob(shape, kind+" distance"+l.path, a != nil && b != nil && s.proveEq(a, b), "it is "+u.linStr(a)+" instead of "+u.linStr(b))
					}
				}
			}
		}
	}
}
