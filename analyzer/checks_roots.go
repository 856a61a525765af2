package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: as many trees are built as were asked for, and all of them are kept.

func init() {
	pol := Config{Ghost: ghostShare, Loaded: true}
	bld := Config{Ghost: ghostRoots, Loaded: true}
	register(&Check{
		id: "C32",
		uses: []HarnessUse{
			{name: "hShareMulti", cfg: pol, observe: observeShare(true)},
			{name: "hShareSingle", cfg: pol, observe: observeShare(false)},
			{name: "hRootsSingle", generic: true, cfg: bld, observe: observeRoots},
			{name: "hRootsMulti", generic: true, cfg: bld, observe: observeRoots},
			{name: "hRootsMultiAuto", generic: true, cfg: bld, observe: observeRoots},
		},
		min: map[string]int{
			"the shares of the workers add up":            2,
			"a worker builds the trees it is asked for":   1,
			"the root of every tree is kept":              1,
			"a copy of every root is put behind the rest": 1,
		},
		assume: []string{"fewer than 2^52 trees and workers"},
		expl:   "The share of the p-th of n workers is, as a symbolic term, floor((trees+p)/n) or another known partition of the number of trees (floor((trees+n-1-p)/n); trees/n, and one more for the first or the last trees%n workers), n being the number of workers started: such shares add up to the number of trees. Relational analysis of ThreadBuild: when it returns, as many trees were built as were asked for; every result of the tree builder was added to the list of roots, once. Relational analysis of Build after the workers are done: the k-th record behind all nodes is a copy of a whole record, that of the k-th root, for every root, and the number of nodes includes them.",
	})
}

// ghostShare: at the start of a goroutine, the numbers at hand that are its share of the trees: #share:<how computed> in cells
// of the wait group, and the number of shares, #of.
func ghostShare(ev *Ev) {
	ghostPolicy(ev)
	x, s := ev.x, ev.x.s
	switch ev.kind {
	case "took":
		// one more for some: the cases are kept apart
		if a, b := compared(ev); a != nil && !x.isHarness(x.ctx.fn) {
			for _, l := range []*Lin{a, b} {
				for _, t := range l.ts {
					switch x.e.u.info(t.s).op {
					case "div", "rem", "mul":
						s.tags["sh:way"] = fmt.Sprint(x.ctx.fn.Name(), x.b.Index, ev.ok)
					}
				}
			}
		}
	case "go":
		wg, n := spawned(s)
		if n == nil {
			return
		}
		var q *Lin
		for c, v := range s.mem {
			if n, ok := v.(Int); ok && c.path == ".want" {
				q = n.l
			}
		}
		if q == nil {
			return
		}
		for c := range s.mem {
			if c.o == wg.o && strings.HasPrefix(c.path, "#share:") {
				delete(s.mem, c)
			}
		}
		for _, v := range s.mem {
			shareCell(s, wg.o, v, q, n)
		}
		for k, v := range s.regs {
			if k.c == x.ctx {
				shareCell(s, wg.o, v, q, n)
			}
		}
	}
}

// compared: the two integers of the comparison a branch was taken by.
func compared(ev *Ev) (*Lin, *Lin) {
	v, ok := ev.in.(*ssa.If)
	if !ok {
		return nil, nil
	}
	c, ok := v.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil
	}
	a, ok := ev.x.get(c.X).(Int)
	b, ok2 := ev.x.get(c.Y).(Int)
	if !ok || !ok2 || a.l == nil || b.l == nil {
		return nil, nil
	}
	return a.l, b.l
}

func shareCell(s *State, wg *Obj, v AV, q, p *Lin) {
	n, ok := v.(Int)
	if !ok || n.l.isBig() {
		return
	}
	fams, b := shareOf(s, n.l, q, p)
	for _, f := range fams {
		s.mem[Cell{wg, "#share:" + f}] = n
		s.mem[Cell{wg, "#of"}] = Int{b}
	}
}

func observeShare(multi bool) func(r *Run) func(*Ev) {
	rule := "the shares of the workers add up"
	return func(r *Run) func(*Ev) {
		return func(ev *Ev) {
			x, s, u := ev.x, ev.x.s, ev.x.e.u
			switch ev.kind {
			case "result":
				if ev.name != "ThreadBuild" {
					return
				}
				t, ok := ev.args[0].(Int)
				q, ok2 := ev.args[2].(Int)
				if !ok || !ok2 {
					r.ob(rule, r.harness, false, "the number of trees is not known in "+r.at(ev))
					return
				}
				if !multi || x.e.threadOf(x.ctx) == nil {
					r.ob(rule, r.harness, s.proveEq(t.l, q.l), "not all trees are asked for in "+r.at(ev))
					return
				}
				old, _ := r.data["family"].(string)
				good := false
				for c, v := range s.mem {
					if n, ok := v.(Int); ok && strings.HasPrefix(c.path, "#share:") && (old == "" || old == c.path) && s.proveEq(n.l, t.l) {
						good = true
						r.data["family"] = c.path
					}
				}
				r.dump(rule, good, ev)
				r.ob(rule, r.harness, good, "the share "+u.linStr(t.l)+" is not known to add up with the others to the number of trees, in "+r.at(ev))
			case "wgwait":
				wg, n := spawned(s)
				b, ok := s.mem[Cell{wg.o, "#of"}].(Int)
				if n != nil && !s.proveLe(n, u.zero) {
					r.dump(rule, ok && s.proveEq(b.l, n), ev)
					r.ob(rule, r.harness+": number of workers", ok && s.proveEq(b.l, n), "the trees are shared among another number of workers than is started")
				}
			}
		}
	}
}

// shareOf: which known partitions of q the p-th share t belongs to, and of how many shares.
func shareOf(s *State, t, q, p *Lin) (fams []string, of *Lin) {
	u := s.e.u
	seen := map[Sym]bool{}
	var divs []Sym
	add := func(l *Lin) {
		for _, y := range l.ts {
			if !seen[y.s] {
				seen[y.s] = true
				if u.info(y.s).op == "div" {
					divs = append(divs, y.s)
				}
			}
		}
	}
	add(t)
	for _, fs := range s.index() {
		for _, f := range fs {
			add(f)
		}
	}
	for _, d := range divs {
		a, b := u.info(d).args[0], u.info(d).args[1]
		for k := int64(0); k < 2; k++ {
			if !s.proveEq(t, u.addc(u.s(d), k)) || of != nil && of != b {
				continue
			}
			if k == 0 && s.proveEq(a, u.add(q, p)) {
				fams, of = append(fams, "floor"), b
			}
			if k == 0 && s.proveEq(u.add(a, p), u.addc(u.add(q, b), -1)) {
				fams, of = append(fams, "floor of the reverse"), b
			}
			if !s.proveEq(a, q) {
				continue
			}
			rm := u.rem(a, b)
			if k == 1 && s.proveLt(p, rm) || k == 0 && s.proveLe(rm, p) {
				fams, of = append(fams, "first"), b
			}
			if k == 1 && s.proveLe(u.sub(b, rm), p) || k == 0 && s.proveLt(p, u.sub(b, rm)) {
				fams, of = append(fams, "last"), b
			}
		}
	}
	return fams, of
}

// Ghost state of one activation of ThreadBuild, in cells of the index: #kwant the trees it is asked for, #kdone the trees
// built, #kroot the last one's root, #kflush how many roots were added to the index's list.
// Tags: rt:pend a tree was built whose root is not in a list; rt:bad what went wrong; rt:open the list of roots was appended
// to, but not stored (#klen is the new length).
// After the workers: rc:on, #kn0 the number of nodes then, #rcopied how many roots were copied.

func threadBuild(c *Ctx) *Ctx {
	for ; c != nil; c = c.parent {
		if c.fn != nil && c.fn.Name() == "ThreadBuild" {
			return c
		}
	}
	return nil
}

func ghostRoots(ev *Ev) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	if x.isHarness(x.ctx.fn) {
		return
	}
	bad := func(why string) {
		if s.tags["rt:bad"] == "" {
			s.tags["rt:bad"] = why + ", in " + shortFn(x.ctx.fn)
		}
	}
	tb := threadBuild(x.ctx)
	switch ev.kind {
	case "call":
		if ev.fn == nil {
			return
		}
		if ev.fn.Name() == "ThreadBuild" {
			treeDel(s, "#k")
			tagDel(s, "rt:")
			// receiver, number of trees, worker, policy
			for _, a := range ev.args {
				if n, ok := a.(Int); ok {
					treeSet(s, "#kwant", n)
					break
				}
			}
			treeSet(s, "#kdone", Int{u.zero})
			treeSet(s, "#kflush", Int{u.zero})
			return
		}
		if treeFn(ev.fn) && tb != nil && treeCtx(x.ctx) == nil && s.tags["rt:pend"] != "" {
			bad("the root of a tree is dropped")
		}
	case "return":
		switch tc := treeCtx(x.ctx); {
		case tc != nil && tc == x.ctx && len(ev.args) == 1:
			n := treeInt(s, "#kdone")
			r, ok := ev.args[0].(Int)
			if n == nil || !ok {
				bad("the trees cannot be counted")
				return
			}
			treeSet(s, "#kdone", Int{u.addc(n, 1)})
			treeSet(s, "#kroot", r)
			s.tags["rt:pend"] = "1"
		case tb == nil && x.ctx.fn.Name() == "Build" && x.ctx.parent != nil && x.ctx.parent.fn != nil && x.ctx.parent.fn.Name() == "Build":
			n0 := treeInt(s, "._n_nodes")
			tagDel(s, "rt:")
			treeDel(s, "#k")
			treeDel(s, "#rcopied")
			if n0 != nil {
				s.tags["rc:on"] = "1"
				treeSet(s, "#kn0", Int{n0})
				treeSet(s, "#rcopied", Int{u.zero})
			}
		}
	case "append":
		if tb == nil || treeCtx(x.ctx) != nil || ev.typ == nil || !isIDList(types.NewSlice(ev.typ)) {
			return
		}
		done, fl := treeInt(s, "#kdone"), treeInt(s, "#kflush")
		if done == nil || fl == nil {
			return
		}
		roots, ok := treeGet(s, "._roots").(Slice)
		direct := ok && (sameList(ev.sl, roots) || s.proveEq(ev.sl.ln, u.zero) && s.proveEq(roots.ln, u.zero) && fromRoots(ev))
		v := singleElem(x, ev.sl2)
		root := treeInt(s, "#kroot")
		flush := func(n *Lin) {
			treeSet(s, "#kflush", Int{n})
			if s.tags["rt:open"] != "" {
				bad("the list of roots is replaced by a shorter one")
			}
			s.tags["rt:open"] = "1"
			treeSet(s, "#klen", Int{u.add(ev.sl.ln, ev.sl2.ln)})
		}
		switch {
		case v != nil && root != nil && v == root && s.tags["rt:pend"] != "":
			// the last tree's root, to the own list or to the index's
			delete(s.tags, "rt:pend")
			switch {
			case direct:
				if !s.proveEq(u.addc(fl, 1), done) {
					bad("the root of a tree may not be added to the index")
				}
				flush(done)
			case !s.proveEq(u.addc(ev.sl.ln, 1), done):
				bad("the worker's list may not hold the roots of the trees before")
			}
		case direct && v == nil:
			if !s.proveEq(ev.sl2.ln, done) || !s.proveEq(fl, u.zero) || s.tags["rt:pend"] != "" {
				bad("the index may not be given the root of every tree once")
			}
			flush(done)
		case direct:
			if i := rootAt(x, v); i == nil || !s.proveEq(i, fl) || s.tags["rt:pend"] != "" {
				bad("the index may not be given the roots of the trees one after the other")
			}
			flush(u.addc(fl, 1))
		}
	case "store":
		if p := ev.ptr; len(p.tg) == 1 && p.tg[0].o == theIndex(s) && p.tg[0].path == "._roots" {
			if tb == nil {
				if s.tags["rc:on"] != "" {
					s.tags["rc:bad"] = "the list of roots is changed when the workers are done"
				}
				return
			}
			v, ok := ev.val.(Slice)
			ln := treeInt(s, "#klen")
			if !ok || ln == nil || s.tags["rt:open"] == "" || !s.proveEq(v.ln, ln) {
				bad("the list of roots is replaced")
				return
			}
			delete(s.tags, "rt:open")
			treeDel(s, "#klen")
		}
		if s.tags["rc:on"] != "" {
			rootStore(ev)
		}
	case "loaded":
		if s.tags["rc:on"] == "" {
			return
		}
		ld, ok := ev.in.(*ssa.UnOp)
		if !ok {
			return
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok {
			return
		}
		roots, ok := treeGet(s, "._roots").(Slice)
		sl, ok2 := x.get(ia.X).(Slice)
		i, ok3 := x.get(ia.Index).(Int)
		if v, ok4 := ev.val.(Int); ok && ok2 && ok3 && ok4 && sameList(sl, roots) {
			treeSet(s, "#kidx", i)
			treeSet(s, "#kval", v)
		}
	case "copy":
		if s.tags["rc:on"] != "" {
			rootStore(ev)
		}
	}
}

// fromRoots: is the list that is appended to the one of the index?
func fromRoots(ev *Ev) bool {
	c, ok := ev.in.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) == 0 {
		return false
	}
	ld, ok := c.Common().Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	p, ok := ev.x.get(ld.X).(Ptr)
	return ok && len(p.tg) == 1 && p.tg[0].path == "._roots"
}

// rootAt: the place in a list of ids of ThreadBuild that a value was loaded from.
func rootAt(x *X, val *Lin) *Lin {
	for k, v := range x.s.regs {
		n, ok := v.(Int)
		if !ok || n.l != val {
			continue
		}
		ld, ok := k.v.(*ssa.UnOp)
		if !ok {
			continue
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		sl, ok := x.s.regs[Reg{k.c, ia.X}].(Slice)
		done := treeInt(x.s, "#kdone")
		if !ok || done == nil || !x.s.proveEq(sl.ln, done) {
			continue
		}
		if i, ok := x.s.regs[Reg{k.c, ia.Index}].(Int); ok {
			return i.l
		}
	}
	return nil
}

// rootStore: a write to the node storage after the workers are done.
func rootStore(ev *Ev) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	if allocatorCtx(x.ctx) {
		return
	}
	dst := false
	accesses(ev, func(t Tgt, n *Lin, write bool) { dst = dst || write && storage(t.o) })
	if !dst {
		return
	}
	bad := func(why string) {
		if s.tags["rc:bad"] == "" {
			s.tags["rc:bad"] = why + ", in " + shortFn(x.ctx.fn)
		}
	}
	ns, n0, k := treeInt(s, ".nodeSize"), treeInt(s, "#kn0"), treeInt(s, "#rcopied")
	roots, ok := treeGet(s, "._roots").(Slice)
	if ev.kind != "copy" || ns == nil || n0 == nil || k == nil || !ok {
		bad("the node storage is written to other than by copying roots")
		return
	}
	slot := func(sl Slice) *Lin {
		var q *Lin
		for i, t := range sl.tg {
			y, rel := slotOf(u, t.off, ns)
			if !storage(t.o) || y == nil || rel == nil || !s.proveEq(rel, u.zero) || i > 0 && y != q {
				return nil
			}
			q = y
		}
		return q
	}
	d, f := slot(ev.sl), slot(ev.sl2)
	if d == nil || f == nil || !s.proveEq(ev.ln, ns) {
		bad("something else than a whole record is copied")
		return
	}
	place := s.proveEq(d, u.add(n0, k)) || s.proveEq(u.add(d, k), u.addc(u.add(n0, roots.ln), -1))
	i, v := treeInt(s, "#kidx"), treeInt(s, "#kval")
	from := i != nil && v != nil && s.proveEq(v, f) && (s.proveEq(i, k) || s.proveEq(u.add(i, k), u.addc(roots.ln, -1)))
	switch {
	case !place:
		bad("the copy of a root may not be put next to that of the one before")
	case !from:
		bad("the record that is copied may not be the next root's")
	}
	treeSet(s, "#rcopied", Int{u.addc(k, 1)})
}

func observeRoots(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		ob := func(rule, con string, ok bool, why string) {
			r.dump(rule+why, ok, ev)
			r.ob(rule, con, ok, why)
		}
		con := shortFn(x.ctx.fn)
		switch ev.kind {
		case "return":
			switch {
			case x.ctx.fn.Name() == "ThreadBuild":
				want, done, fl := treeInt(s, "#kwant"), treeInt(s, "#kdone"), treeInt(s, "#kflush")
				why := s.tags["rt:bad"]
				switch {
				case why != "":
				case s.tags["rt:pend"] != "":
					why = "the root of the last tree is dropped"
				case s.tags["rt:open"] != "":
					why = "the longer list of roots is not stored"
				case done == nil || fl == nil || !s.proveEq(fl, done):
					why = "not every root may have been added to the index"
				}
				ob("the root of every tree is kept", con, why == "", why+", at "+r.at(ev))
				if strings.HasSuffix(r.harness, "Auto") {
					return
				}
				ob("a worker builds the trees it is asked for", con, want != nil && done != nil && s.proveEq(want, done), fmt.Sprintf("it may have built %s trees and been asked for %s, at %s", u.linStr(done), u.linStr(want), r.at(ev)))
			case s.tags["rc:on"] != "" && x.ctx.fn.Name() == "Build" && threadBuild(x.ctx) == nil && (x.ctx.parent == nil || x.ctx.parent.fn == nil || x.ctx.parent.fn.Name() != "Build"):
				n0, k, n := treeInt(s, "#kn0"), treeInt(s, "#rcopied"), treeInt(s, "._n_nodes")
				roots, ok := treeGet(s, "._roots").(Slice)
				why := s.tags["rc:bad"]
				switch {
				case why != "":
				case !ok || k == nil || !s.proveEq(k, roots.ln):
					why = "not every root may have been copied"
				case n == nil || n0 == nil || !s.proveEq(n, u.add(n0, roots.ln)):
					why = "the number of nodes may not include the copies"
				}
				ob("a copy of every root is put behind the rest", con, why == "", why+", at "+r.at(ev))
			}
		}
	}
}
