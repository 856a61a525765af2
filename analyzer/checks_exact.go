package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about what a search takes into account: nothing that an expanded node holds is lost.
//
// Ghost state besides that of checks_rank.go:
//   #xnc     how many candidates were collected
//   #xtake   how many children of the leaf at hand were collected one by one
//   #xlook   how many candidates were looked at after sorting, in order; #xprev the value of the one before the last
// Tags: x:node how the node at hand was dealt with ("self", "whole", "some"), x:pend the candidate looked at last was
// neither ranked nor found to be no item or a repetition, x:cmp which of the number asked for and the number of pairs
// is the smaller one.

var exactCfg = Config{MaxDisj: 2000, Dot: true, Loaded: true, Ghost: ghostExact}

func init() {
	register(&Check{
		id: "C35",
		uses: []HarnessUse{
			{name: "hRankAngular", generic: true, cfg: exactCfg, observe: observeC35},
			{name: "hRankDot", generic: true, cfg: exactCfg, observe: observeC35},
		},
		min: map[string]int{
			"all items of an expanded node become candidates":              1,
			"the search ends when nothing is left or enough was inspected": 1,
			"every candidate is ranked":                                    1,
			"the result is as long as asked for and possible":              1,
		},
		expl:   "Relational analysis of GetNnsByVector with a distance that reports arbitrary numbers and a sorter that reorders arbitrarily: a node taken off the queue is an item and becomes a candidate itself, or has no more descendants than fit in a leaf and all its children become candidates, or both its children are queued; the number of candidates is the sum of these; collecting ends only when the limit is reached or the queue is empty; all candidates are handed to the sorter and looked at one after the other, and each is ranked unless it equals the candidate before it or its record is no item's; the results hold as many of the ranked pairs as were asked for, or all.",
		assume: []string{"the requested number is not negative"},
		combos: 2,
	})
}

func ghostExact(ev *Ev) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	op := opName(s.tags["op"])
	tagDel(s, "x:why")
	bad := func(why string) { s.tags["x:why"] = why }
	fill := treeInt(s, "#rfill")
	in := op == "GetNnsByVector"
	if ev.kind == "end" {
		tagDelBut(s, "x:", "x:why")
		treeDel(s, "#x")
	}
	if in {
		exactBefore(ev, bad)
	}
	if ev.kind == "heap" && ev.name == "Push" {
		delete(s.tags, "x:done")
	}
	ghostRank(ev)
	if ev.kind == "begin" {
		tagDel(s, "x:")
		treeDel(s, "#x")
		if op = opName(s.tags["op"]); op == "GetNnsByVector" {
			treeSet(s, "#xnc", Int{u.zero})
			treeSet(s, "#xroots", Int{u.zero})
		}
		return
	}
	if !in || ev.kind == "end" {
		return
	}
	if ev.kind == "return" && len(ev.args) == 1 && inSort(x.ctx.fn) && s.tags["q:st"] == "popped" && x.ctx.fn.Name() == "Pop" {
		tagDel(s, "x:node")
		treeSet(s, "#xtake", Int{u.zero})
	}
	if now := treeInt(s, "#rfill"); now != nil && fill != nil && now != fill {
		delete(s.tags, "x:cmp")
		if id, v := treeInt(s, "#racc"), treeInt(s, "#rval"); id != nil && v != nil && s.proveEq(id, v) {
			delete(s.tags, "x:pend")
		}
	}
	if ev.kind == "heap" && ev.name == "Push" && s.tags["q:st"] != "" {
		d, m := exactCount(s), treeInt(s, ".maxDescendants")
		if d == nil || m == nil || !s.proveLt(m, d) {
			bad("a node is split in two that may be a leaf")
		}
	}
}

// exactCount: the number of descendants of the node at hand, as it was read.
func exactCount(s *State) *Lin {
	slot, val, second := treeInt(s, "#rdslot"), treeInt(s, "#rdval"), treeInt(s, "#rsecond")
	if slot == nil || val == nil || second == nil || !s.proveEq(slot, second) {
		return nil
	}
	return val
}

// exactNext: is the node at hand dealt with?
func exactNext(s *State, bad func(string)) {
	if s.tags["q:st"] != "popped" {
		return
	}
	two := s.tags["q:pushed:0"] != "" && s.tags["q:pushed:1"] != ""
	how := s.tags["x:node"]
	switch {
	case two && how == "", !two && (how == "self" || how == "whole"):
	case !two && how == "some":
		d, t := exactCount(s), treeInt(s, "#xtake")
		if d == nil || t == nil || !s.proveLe(d, t) {
			bad("not all children of a leaf are collected")
		}
	case !two && how == "":
		// a leaf without children
		if d := exactCount(s); d == nil || !s.proveLe(d, s.e.u.zero) {
			bad("the items below a node are dropped")
		}
	default:
		bad("a node is dealt with twice")
	}
}

func exactBefore(ev *Ev, bad func(string)) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	switch ev.kind {
	case "return":
		if len(ev.args) != 1 || !inSort(x.ctx.fn) || s.tags["q:st"] != "popped" {
			return
		}
		if n := x.ctx.fn.Name(); n == "Top" || n == "Pop" {
			exactNext(s, bad)
			tagDel(s, "x:node")
		}
	case "append":
		if ev.typ == nil || !isIDList(types.NewSlice(ev.typ)) || s.tags["q:ranked"] != "" || inSort(x.ctx.fn) || x.isHarness(x.ctx.fn) {
			return
		}
		exactCollect(ev, bad)
	case "took":
		exactTook(s)
	case "heap":
		if ev.name == "Push" && s.tags["q:st"] == "" {
			if p, ok := single(payload(ev.args[1])); ok {
				v, _ := s.mem[Cell{p.o, ".Second"}].(Int)
				n, want := treeInt(s, "#xroots"), treeInt(s, "#xroot")
				if v.l == nil || n == nil || want == nil || !s.proveEq(v.l, want) {
					bad("something is queued first that is not the next root")
				} else {
					treeSet(s, "#xroots", Int{u.addc(n, 1)})
				}
			}
		}
		if ev.name == "Pop" && s.tags["q:st"] != "popped" {
			exactRoots(s, bad)
		}
	case "loaded":
		ld, ok := ev.in.(*ssa.UnOp)
		v, isInt := ev.val.(Int)
		if ok && isInt && s.tags["q:st"] == "" {
			if roots, isList := treeGet(s, "._roots").(Slice); isList && samePlaces(ev.ptr, Ptr{tg: roots.tg}) && len(roots.tg) > 0 {
				pos, ok := u.divExact(u.sub(ev.ptr.tg[0].off, roots.tg[0].off), x.e.sizeof(ld.Type()))
				if n := treeInt(s, "#xroots"); ok && n != nil && s.proveEq(pos, n) {
					treeSet(s, "#xroot", v)
				}
			}
			return
		}
		so := treeGet(s, "#rsort")
		if !ok || !isInt || so == nil || !samePlaces(ev.ptr, so) || x.isHarness(x.ctx.fn) || inSort(x.ctx.fn) {
			return
		}
		var off *Lin
		for i, t := range ev.ptr.tg {
			if t.off == nil || i > 0 && t.off != off {
				return
			}
			off = t.off
		}
		pos, ok := u.divExact(off, x.e.sizeof(ld.Type()))
		look := treeInt(s, "#xlook")
		if !ok || look == nil {
			return
		}
		if s.proveLt(pos, look) {
			// again
			if treeInt(s, "#roff") != nil {
				for i, n := range []string{"#xcur", "#xprev"} {
					if w := treeInt(s, n); w != nil && s.proveEq(u.addc(pos, int64(i+1)), look) {
						ev.val = Int{w}
						x.set(ld, ev.val)
					}
				}
			}
			return
		}
		if !s.proveEq(pos, look) {
			bad("the candidates are not looked at one after the other")
		}
		exactJudge(s, bad)
		treeDel(s, "#xprev")
		if old := treeInt(s, "#xcur"); old != nil {
			treeSet(s, "#xprev", Int{old})
			s.tags["x:seen"] = "many"
		} else {
			s.tags["x:seen"] = "one"
		}
		treeSet(s, "#xcur", v)
		treeSet(s, "#xlook", Int{u.addc(pos, 1)})
		s.tags["x:pend"] = "1"
	case "result":
		switch ev.name {
		case "Sorted":
			exactNext(s, bad)
			if s.tags["q:st"] == "" {
				exactRoots(s, bad)
			}
			tagDel(s, "x:node")
			n, ok := ev.args[1].(Int)
			nc := treeInt(s, "#xnc")
			p, ok2 := ev.args[0].(Ptr)
			for _, t := range p.tg {
				ok2 = ok2 && t.off != nil && s.proveEq(t.off, u.zero)
			}
			if !ok || !ok2 || nc == nil || !s.proveEq(n.l, nc) {
				bad("the list that is sorted is not that of all candidates")
			} else if why := exactDone(s, nc); why != "" && s.tags["x:done"] == "" {
				bad(why)
			}
			treeSet(s, "#xlook", Int{u.zero})
			treeDel(s, "#xcur")
			treeDel(s, "#xprev")
		case "Ranked":
			exactJudge(s, bad)
			nc, look := treeInt(s, "#xnc"), treeInt(s, "#xlook")
			if nc == nil || look == nil || !s.proveLe(nc, look) {
				bad("not every candidate is looked at")
			}
			exactCmp(s)
		}
	}
}

func payload(a AV) AV {
	if f, ok := a.(Iface); ok && len(f.alts) == 1 {
		return f.alts[0].v
	}
	return nil
}

// exactRoots: are all roots queued?
func exactRoots(s *State, bad func(string)) {
	n := treeInt(s, "#xroots")
	roots, ok := treeGet(s, "._roots").(Slice)
	if n == nil || !ok || !s.proveLe(roots.ln, n) {
		bad("not every root is queued before nodes are expanded")
	}
}

// exactDone: why collecting may not end here.
func exactDone(s *State, nc *Lin) string {
	u := s.e.u
	// nothing is pending
	for c, v := range s.mem {
		if c.path != ".pq" || c.o.typ == nil || !strings.Contains(shortType(c.o.typ), "PriorityQueue[") {
			continue
		}
		if sl, ok := v.(Slice); ok && s.proveLe(sl.ln, u.zero) {
			return ""
		}
	}
	lim, ask := treeInt(s, "#rlim"), treeInt(s, "#rask")
	roots, ok := treeGet(s, "._roots").(Slice)
	if lim == nil || ask == nil || !ok {
		return "the limit is not known"
	}
	all := u.mul(ask, roots.ln)
	if s.tags["x:lim"] == "-1" || s.proveEq(lim, u.k(-1)) {
		lim = all
	} else if s.tags["x:lim"] == "" && !s.provesNe(u.addc(lim, 1)) && !s.proveLe(all, nc) {
		return "collecting ends with nodes pending and perhaps below the limit"
	}
	if s.proveLe(lim, nc) {
		return ""
	}
	return "collecting ends with nodes pending and below the limit of " + u.linStr(lim)
}

func exactJudge(s *State, bad func(string)) {
	if s.tags["x:pend"] != "" {
		bad("a candidate is not ranked although it may be an item that was not ranked before")
	}
	delete(s.tags, "x:pend")
}

// exactTook: is the candidate at hand one that need not be ranked?
func exactTook(s *State) {
	u := s.e.u
	if lim := treeInt(s, "#rlim"); lim != nil && s.tags["x:lim"] == "" {
		if s.proveEq(lim, u.k(-1)) {
			s.tags["x:lim"] = "-1"
		} else if s.provesNe(u.addc(lim, 1)) {
			s.tags["x:lim"] = "n"
		}
	}
	if nc := treeInt(s, "#xnc"); nc != nil && treeInt(s, "#xlook") == nil && s.tags["x:done"] == "" && exactDone(s, nc) == "" {
		s.tags["x:done"] = "1" // until something is pushed
	}
	if s.tags["x:node"] == "some" {
		if d, t := exactCount(s), treeInt(s, "#xtake"); d != nil && t != nil && s.proveLe(d, t) {
			s.tags["x:node"] = "whole"
		}
	}
	if s.tags["q:ranked"] == "" && s.tags["x:pend"] == "" {
		if nc, look := treeInt(s, "#xnc"), treeInt(s, "#xlook"); nc != nil && look != nil && s.proveLe(nc, look) {
			exactCmp(s)
		}
	}
	if s.tags["x:pend"] == "" {
		return
	}
	cur, prev := treeInt(s, "#xcur"), treeInt(s, "#xprev")
	if cur == nil {
		return
	}
	if prev != nil && s.proveEq(cur, prev) {
		delete(s.tags, "x:pend")
		return
	}
	if slot, val := treeInt(s, "#rdslot"), treeInt(s, "#rdval"); slot != nil && val != nil && s.proveEq(slot, cur) && s.provesNe(u.addc(val, -1)) {
		delete(s.tags, "x:pend")
	}
}

func exactCmp(s *State) {
	fill, ask := treeInt(s, "#rfill"), treeInt(s, "#rask")
	if fill == nil || ask == nil || s.tags["x:cmp"] != "" {
		return
	}
	switch {
	case s.proveLe(fill, ask):
		s.tags["x:cmp"] = "fill"
	case s.proveLe(ask, fill):
		s.tags["x:cmp"] = "ask"
	}
}

// exactCollect: ids are put in the list of candidates.
func exactCollect(ev *Ev, bad func(string)) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	nc, second := treeInt(s, "#xnc"), treeInt(s, "#rsecond")
	if nc == nil || second == nil {
		bad("something is collected before a node is at hand")
		return
	}
	if !s.proveEq(ev.sl.ln, nc) {
		bad("candidates are lost or left from an earlier search: the list is " + u.linStr(ev.sl.ln) + " long and should be " + u.linStr(nc))
	}
	treeSet(s, "#xnc", Int{u.add(nc, ev.sl2.ln)})
	d, ns, slots := exactCount(s), treeInt(s, ".nodeSize"), treeInt(s, "#slots")
	if d == nil || ns == nil || slots == nil {
		bad("the number of descendants of the node is not known")
		return
	}
	at := u.add(u.mul(second, ns), slots)
	whole := len(ev.sl2.tg) > 0
	for _, t := range ev.sl2.tg {
		whole = whole && t.off != nil && t.o.raw && s.proveEq(t.off, at)
	}
	if m := treeInt(s, ".maxDescendants"); whole && s.proveEq(ev.sl2.ln, d) && m != nil && s.proveLe(d, m) {
		if s.tags["x:node"] != "" {
			bad("a node is dealt with twice")
		}
		s.tags["x:node"] = "whole"
		return
	}
	if n, ok := ev.sl2.ln.isConst(); ok && n == 0 || s.proveLe(ev.sl2.ln, u.zero) && s.proveLe(d, u.zero) {
		if s.proveLe(d, u.zero) && s.tags["x:node"] == "" {
			s.tags["x:node"] = "whole"
		}
		return
	}
	v, ok := appended(x, ev.sl2).(Int)
	if !ok {
		bad("what is collected is not known")
		return
	}
	items := treeInt(s, "._n_items")
	if s.tags["x:node"] == "" && items != nil && s.proveEq(v.l, second) && s.proveEq(d, u.k(1)) && s.proveLt(second, items) {
		s.tags["x:node"] = "self"
		return
	}
	off, sz := loadedAt(u, v.l)
	take := treeInt(s, "#xtake")
	if m := treeInt(s, ".maxDescendants"); off != nil && take != nil && m != nil && s.proveLe(d, m) && (s.tags["x:node"] == "" || s.tags["x:node"] == "some") && s.proveEq(off, u.add(at, u.scale(take, sz))) {
		s.tags["x:node"] = "some"
		treeSet(s, "#xtake", Int{u.addc(take, 1)})
		return
	}
	bad("what is collected is neither the item at hand nor the children of the leaf at hand")
}

func observeC35(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		if opName(s.tags["op"]) != "GetNnsByVector" {
			return
		}
		why, rule := s.tags["x:why"], ""
		switch {
		case ev.kind == "append" && ev.typ != nil && isIDList(types.NewSlice(ev.typ)) && s.tags["q:ranked"] == "",
			ev.kind == "return" && len(ev.args) == 1 && inSort(x.ctx.fn) && x.ctx.fn.Name() == "Pop",
			ev.kind == "heap":
			rule = "all items of an expanded node become candidates"
		case ev.kind == "result" && ev.name == "Sorted":
			rule = "the search ends when nothing is left or enough was inspected"
		case ev.kind == "result" && ev.name == "Ranked":
			rule = "every candidate is ranked"
		case ev.kind == "result" && ev.name == "Nns":
			rule = "the result is as long as asked for and possible"
			ids, ok := ev.args[0].(Slice)
			ask, fill := treeInt(s, "#rask"), treeInt(s, "#rfill")
			switch {
			case !ok || ask == nil || fill == nil:
				why = "the results are not known"
			case s.tags["x:cmp"] == "fill" && s.proveEq(ids.ln, fill), s.tags["x:cmp"] == "ask" && s.proveEq(ids.ln, ask),
				s.proveEq(ids.ln, fill) && s.proveLe(fill, ask), s.proveEq(ids.ln, ask) && s.proveLe(ask, fill):
			default:
				why = "the result may be shorter: " + u.linStr(ids.ln) + " of " + u.linStr(fill) + ", asked for " + u.linStr(ask)
			}
		case why != "":
			rule = "every candidate is ranked"
		default:
			return
		}
		r.dump(rule+" "+why, why == "", ev)
		r.ob(rule, shortFn(x.ctx.fn), why == "", why+", in "+r.at(ev))
	}
}
