package main

import "fmt"

// C36: an item reads back as it was added.
//
// Ghost state of AddItem, in cells of the index: #iadd the id, #ivec the caller's vector, #iold the number of items before,
// #rcov how many bytes of the vector are in the storage, in a row from #iclo on.
// Tags: i:mk the marker that was set, i:bad what went wrong.

func init() {
	cfg := Config{Ghost: ghostItem, Loaded: true}
	register(&Check{
		id: "C36",
		uses: []HarnessUse{
			{name: "hItemAngular", generic: true, cfg: cfg, observe: observeC36},
			{name: "hItemDot", generic: true, cfg: cfg, observe: observeC36},
		},
		combos: 2,
		min: map[string]int{
			"an item holds the vector that was added":            2,
			"an item is marked as one":                           2,
			"adding an item leaves the others alone":             2,
			"the number of items covers exactly the item":        2,
			"an item is read from where it was put, all of it":   2,
			"reading an item does not change it, nor any others": 2,
		},
		expl: "Relational analysis of AddItem and GetItem for any index content, id and vector, both distances: the writes of AddItem to the node storage lie in the record of the id and transfer the caller's elements in order, without conversion, to one range of the record, which no later write of AddItem meets; the record's marker is set to 1; the number of items becomes the larger one of the old number and the id plus one; GetItem returns a list of all elements that starts where that range starts (or a copy of it) and writes nothing.",
	})
}

func ghostItem(ev *Ev) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	op := s.tags["op"]
	bad := func(why string) {
		if s.tags["i:bad"] == "" {
			s.tags["i:bad"] = why + ", in " + shortFn(x.ctx.fn)
		}
	}
	switch ev.kind {
	case "result":
		if ev.name != "Adding" {
			return
		}
		treeSet(s, "#iadd", ev.args[0])
		treeSet(s, "#ivec", ev.args[1])
		if n, ok := treeGet(s, "._n_items").(Int); ok {
			treeSet(s, "#iold", n)
		}
		treeSet(s, "#rcov", Int{u.zero})
	case "took":
		// which of the two is the larger one?
		id, old := treeInt(s, "#iadd"), treeInt(s, "#iold")
		a, b := compared(ev)
		if op != "AddItem" || x.isHarness(x.ctx.fn) || allocatorCtx(x.ctx) || id == nil || old == nil || a == nil {
			return
		}
		is := func(l *Lin) bool {
			return s.proveEq(l, id) || s.proveEq(l, u.addc(id, 1)) || s.proveEq(l, old)
		}
		if is(a) && is(b) {
			s.tags["i:way"] = fmt.Sprint(ev.ok)
		}
	case "grown":
		lo := treeInt(s, "#iclo")
		if op != "GetItem" || lo == nil || !s.proveEq(ev.sl.ln, u.zero) || len(ev.sl2.tg) == 0 {
			return
		}
		for _, f := range ev.sl2.tg {
			if !storage(f.o) || f.off == nil || !s.proveEq(f.off, lo) {
				return
			}
		}
		if sl, ok := ev.val.(Slice); ok {
			treeSet(s, "#icopy", sl)
		}
	case "store", "copy":
		if op != "AddItem" && op != "GetItem" || allocatorCtx(x.ctx) || x.isHarness(x.ctx.fn) {
			return
		}
		if p := ev.ptr; ev.kind == "store" && op == "AddItem" && len(p.tg) == 1 && p.tg[0].o == theIndex(s) && p.tg[0].path == "._n_items" {
			s.tags["i:n"] = "bad"
			delete(s.tags, "i:way")
			v, _ := ev.val.(Int)
			id, old := treeInt(s, "#iadd"), treeInt(s, "#iold")
			switch {
			case v.l == nil || id == nil || old == nil:
			case s.proveEq(v.l, u.addc(id, 1)):
				s.tags["i:n"] = "new"
			case s.proveEq(v.l, old):
				s.tags["i:n"] = "old"
			case isMaxOf(u, v.l, old, u.addc(id, 1)):
				s.tags["i:n"] = "max"
			}
			return
		}
		var w *Tgt
		var wn *Lin
		accesses(ev, func(t Tgt, n *Lin, write bool) {
			if !write || !storage(t.o) {
				return
			}
			if w != nil && (w.off != t.off || wn != n) {
				bad("a write to different places")
			}
			w, wn = &t, n
		})
		if op == "GetItem" {
			if w != nil {
				s.tags["i:read"] = "the node storage is written to in " + shortFn(x.ctx.fn)
			} else if ev.kind == "copy" {
				// a copy of the item
				lo := treeInt(s, "#iclo")
				t, ok := single(Ptr{tg: ev.sl.tg})
				if lo == nil || !ok || t.off == nil || !s.proveEq(t.off, u.zero) {
					return
				}
				for _, f := range ev.sl2.tg {
					if !storage(f.o) || f.off == nil || !s.proveEq(f.off, lo) {
						return
					}
				}
				if len(ev.sl2.tg) > 0 && ev.sl.base != noSym {
					c := ev.sl
					c.ln = ev.ln
					treeSet(s, "#icopy", c)
				}
			}
			return
		}
		if w == nil {
			return
		}
		id, ns := treeInt(s, "#iadd"), treeInt(s, ".nodeSize")
		vec, ok := treeGet(s, "#ivec").(Slice)
		cov, lo := treeInt(s, "#rcov"), treeInt(s, "#iclo")
		if id == nil || ns == nil || !ok || len(vec.tg) != 1 || cov == nil {
			bad("the item is not known")
			return
		}
		if w.off == nil || wn == nil {
			bad("the place of a write is not known")
			return
		}
		at := u.mul(id, ns)
		if !s.proveMul(u.sub(at, w.off)) || !s.proveMul(u.sub(u.add(w.off, wn), u.add(at, ns))) {
			bad("a write may reach other items")
		}
		elem := x.e.sizeof(vec.tg[0].o.typ)
		// from the vector?
		var so *Obj
		var soff *Lin
		if ev.kind == "copy" {
			if t, ok := single(Ptr{tg: ev.sl2.tg}); ok {
				so, soff = t.o, t.off
			}
		} else {
			so, soff = loadedFrom(u, ev.val)
		}
		if so == vec.tg[0].o && soff != nil {
			n, ok := u.divExact(wn, elem)
			at := u.scale(cov, elem)
			if !ok || !s.proveEq(soff, at) || lo != nil && !s.proveEq(w.off, u.add(lo, at)) {
				bad("the elements are not transferred one after the other")
				return
			}
			if lo == nil {
				treeSet(s, "#iclo", Int{u.sub(w.off, soff)})
				s.tags["i:lo"] = "1"
			}
			treeSet(s, "#rcov", Int{u.add(cov, n)})
			return
		}
		if within(x.ctx, "SetNumberOfDescendants") {
			s.tags["i:mk"] = "bad"
			if v, ok := ev.val.(Int); ok && s.proveEq(v.l, u.k(1)) {
				s.tags["i:mk"] = "ok"
			}
		}
		if lo != nil && !s.proveMul(u.sub(u.add(w.off, wn), lo)) && !s.proveMul(u.sub(u.add(lo, u.scale(cov, elem)), w.off)) {
			bad("the vector may be overwritten")
		}
	}
}

// isMaxOf: is the number the larger one of the two?
func isMaxOf(u *Univ, v, a, b *Lin) bool {
	y, c, ok := v.single()
	if !ok || c != 0 || u.info(y).op != "max" {
		return false
	}
	p := u.info(y).args
	return p[0] == a && p[1] == b || p[0] == b && p[1] == a
}

func observeC36(r *Run) func(*Ev) {
	return func(ev *Ev) {
		s, u := ev.x.s, ev.x.e.u
		ob := func(rule string, ok bool, why string) {
			r.dump(rule+why, ok, ev)
			r.ob(rule, r.harness, ok, why)
		}
		n := treeInt(s, ".vectorLength")
		switch {
		case ev.kind == "end" && ev.name == "AddItem":
			id, old, items := treeInt(s, "#iadd"), treeInt(s, "#iold"), treeInt(s, "._n_items")
			cov, lo := treeInt(s, "#rcov"), treeInt(s, "#iclo")
			why := s.tags["i:bad"]
			ob("adding an item leaves the others alone", why == "", why)
			if why == "" && (cov == nil || n == nil || !s.proveEq(cov, n)) {
				why = fmt.Sprintf("%s of %s elements are known to be in the record", u.linStr(cov), u.linStr(n))
			}
			if why == "" && lo == nil {
				why = "the vector is not in the record"
			}
			ob("an item holds the vector that was added", why == "", why)
			ob("an item is marked as one", s.tags["i:mk"] == "ok", "the item's marker may not be set to 1")
			good := id != nil && old != nil && items != nil && s.proveLe(old, items) && s.proveLe(u.addc(id, 1), items) && s.tags["i:n"] != "bad"
			ob("the number of items covers exactly the item", good, "it is "+u.linStr(items)+", was "+u.linStr(old)+", and the item is "+u.linStr(id))
		case ev.kind == "result" && ev.name == "Got":
			sl, ok := ev.args[0].(Slice)
			lo := treeInt(s, "#iclo")
			why := ""
			cp, isCp := treeGet(s, "#icopy").(Slice)
			isCp = isCp && cp.base == sl.base && cp.base != noSym && len(sl.tg) == 1 && s.proveEq(sl.tg[0].off, u.zero) && n != nil && s.proveEq(cp.ln, n)
			switch {
			case !ok || len(sl.tg) == 0 || lo == nil:
				why = "the list is not known"
			case n == nil || !s.proveEq(sl.ln, n):
				why = "the list has " + u.linStr(sl.ln) + " elements, " + u.linStr(n) + " were added"
			case !isCp:
				for _, t := range sl.tg {
					if !storage(t.o) || t.off == nil || !s.proveEq(t.off, lo) {
						why = "the list starts at " + u.linStr(t.off) + " and the vector was put at " + u.linStr(lo)
					}
				}
			}
			ob("an item is read from where it was put, all of it", why == "", why)
		case ev.kind == "end" && ev.name == "GetItem":
			ob("reading an item does not change it, nor any others", s.tags["i:read"] == "", s.tags["i:read"])
		}
	}
}
