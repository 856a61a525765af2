package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about ordering and sorting.

func init() {
	cfg := Config{MaxDisj: 400, FloatRel: true, SortPair: true}
	register(&Check{
		id: "C24",
		uses: []HarnessUse{
			{name: "hOrder", generic: true, cfg: cfg, observe: observeOrder},
			{name: "hSort", generic: true, cfg: Config{MaxDisj: 200, Ghost: ghostRange}, observe: observeRange},
			{name: "hQueue", generic: true, cfg: Config{MaxDisj: 200}, observe: observeQueue},
		},
		direct: directSort,
		min: map[string]int{
			"pairs are compared by their first, then by their second value": 1,
			"numbers are compared by their value":                           1,
			"only the given range is touched":                               1,
			"the queue is changed by heap operations only":                  1,
			"elements are only exchanged":                                   1,
			"a list operation does what it says":                            1,
		},
		expl: "Abstract interpretation of every comparison the library offers on two pairs in each of the nine relations of their values; range analysis of the elements a partial sort reads, writes or passes on, for every range of a list of any length; effect analysis of the priority queue (its memory is only written inside calls from container/heap); dataflow over the stores to list elements in each function of the sort package and of the pair list: each group of stores puts back exactly the elements that were read.",
	})
}

func rel(s *State, k string) string {
	for _, r := range []string{"<", "=", ">"} {
		if s.tags["at:"+k+r] != "" {
			return r
		}
	}
	return ""
}

func observeOrder(r *Run) func(*Ev) {
	const rule = "pairs are compared by their first, then by their second value"
	verdict := func(x *X, con string, v AV) {
		s := x.s
		f, g := rel(s, "f"), rel(s, "s")
		if f == "" || g == "" {
			return
		}
		want := f == "<" || f == "=" && g == "<"
		b, ok := v.(Bool)
		k := int8(0)
		if ok {
			k = x.evalBool(b)
		}
		got := map[int8]string{0: "an unknown result", 1: "true", 2: "false"}[k]
		r.ob(rule, con, k == 1 && want || k == 2 && !want, fmt.Sprintf("less is %s for first %s, second %s", got, f, g))
	}
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := s.tags["op"]
		if op == "" {
			return
		}
		switch ev.kind {
		case "result":
			switch ev.name {
			case "less":
				verdict(x, op, ev.args[0])
			case "is":
				a, ok1 := single(ev.args[0])
				b, ok2 := single(ev.args[1])
				r.ob("a list operation does what it says", op, ok1 && ok2 && a.o == b.o && a.path == b.path, "an element is not the one expected after "+op)
			case "len":
				a, ok1 := ev.args[0].(Int)
				b, ok2 := ev.args[1].(Int)
				r.ob("a list operation does what it says", op, ok1 && ok2 && s.proveEq(a.l, b.l), "the length is not the one expected after "+op)
			case "none":
				r.ob("a list operation does what it says", op, s.nilOf(ev.args[0]) == 1, "the top of an empty list is not nil")
			}
		case "append":
			if op == "Push" && !x.isHarness(x.ctx.fn) {
				n, isC := ev.sl2.ln.isConst()
				r.ob("a list operation does what it says", op, isC && n == 1, "not one element is appended in "+r.at(ev))
			}
		case "return":
			if !strings.HasPrefix(x.ctx.kind, "callback") || len(ev.args) != 1 {
				return
			}
			b, ok := ev.args[0].(Bool)
			if !ok {
				return
			}
			con := op + ": " + shortFn(x.ctx.fn)
			switch op {
			case "SortPairs", "PartialSortSlice", "PartialSortSlice2", "SortPairs2":
				if pairList(x.ctx) {
					verdict(x, con, b)
				}
			case "SortSlice2":
				g := rel(s, "s")
				k := x.evalBool(b)
				r.ob("numbers are compared by their value", con, k == 1 && g == "<" || k == 2 && g != "<", "less is wrong for "+g)
			case "SortSlice", "SortSlice3":
				c := b.c
				for c != nil && c.op == "not" {
					c = nil
				}
				ok := c != nil && c.op == "le" && c.l.c == 1 && len(c.l.ts) == 2
				if ok {
					p, n := c.l.ts[0], c.l.ts[1]
					if p.k == -1 {
						p, n = n, p
					}
					ok = p.k == 1 && n.k == -1 && readsAt(x, p.s, 0) && readsAt(x, n.s, 1)
				}
				r.ob("numbers are compared by their value", con, ok, "the comparison is not less-than of the two elements: "+x.e.u.condStr(b.c))
			}
		}
	}
}

// readsAt: the symbol is the element read at the k-th argument of the comparison.
func readsAt(x *X, sy Sym, k int) bool {
	at := x.e.u.info(sy).at
	if at == nil || at.ctx != x.ctx || at.i >= len(at.b.Instrs) {
		return false
	}
	ld, ok := at.b.Instrs[at.i].(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	return ok && ia.Index == ssa.Value(x.ctx.fn.Params[k])
}

// pairList: the callback compares pairs.
func pairList(c *Ctx) bool {
	has := false
	for _, v := range c.fn.FreeVars {
		has = has || strings.Contains(v.Type().String(), "interfaces.Pair")
	}
	for _, v := range c.fn.Params {
		has = has || strings.Contains(v.Type().String(), "interfaces.Pair")
	}
	return has
}

// ---- ranges ----

func ghostRange(ev *Ev) {
	s := ev.x.s
	if ev.kind == "result" && ev.name == "range" {
		sl, ok := ev.args[0].(Slice)
		if !ok || len(sl.tg) != 1 {
			return
		}
		s.mem[Cell{sl.tg[0].o, "#b"}] = ev.args[1]
		s.mem[Cell{sl.tg[0].o, "#e"}] = ev.args[2]
	}
}

func observeRange(r *Run) func(*Ev) {
	const rule = "only the given range is touched"
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		op := s.tags["op"]
		if op == "" || x.isHarness(x.ctx.fn) {
			return
		}
		var o *Obj
		for c := range s.mem {
			if c.path == "#b" {
				o = c.o
			}
		}
		if o == nil {
			r.ob(rule, op, false, "the range is not known in "+r.at(ev))
			return
		}
		b, e := intCell(s, o, "#b"), intCell(s, o, "#e")
		con := op + ": " + shortFn(x.ctx.fn)
		within := func(sl Slice, lo, hi *Lin, what string) {
			for _, t := range sl.tg {
				if t.o != o {
					continue
				}
				ok := t.off != nil && lo != nil && hi != nil && b != nil && e != nil
				if ok {
					n := s.clone()
					// an access succeeds only within bounds
					n.addFact(u.scale(lo, -1))
					n.addFact(u.sub(lo, hi))
					if ev.kind == "index" {
						n.addFact(u.sub(hi, sl.ln))
					} else {
						n.addFact(u.sub(hi, sl.cp))
					}
					ok = n.dead || n.proveLe(hi, lo) && ev.kind != "index" || n.proveLe(b, u.add(t.off, lo)) && n.proveLe(u.add(t.off, hi), e)
				}
				r.ob(rule, con, ok, what+" in "+r.at(ev)+" may lie outside the range: "+u.linStr(lo)+" to "+u.linStr(hi)+" of "+u.tgtStr(t))
			}
		}
		switch ev.kind {
		case "index":
			within(ev.sl, ev.ln, u.addc(ev.ln, 1), "an element")
		case "sort":
			if ev.sl.ln != nil && !strings.HasSuffix(ev.name, ".Sort") && !strings.HasSuffix(ev.name, ".Stable") {
				within(ev.sl, u.zero, ev.sl.ln, "the sorted list")
				return
			}
			seen := false
			for _, a := range ev.args {
				if f, ok := a.(Iface); ok {
					for _, al := range f.alts {
						if sl, ok := al.v.(Slice); ok {
							seen = true
							within(sl, u.zero, sl.ln, "the sorted list")
						}
					}
				}
			}
			r.ob(rule, con, seen, "what is sorted in "+r.at(ev)+" is not known")
		case "copy", "append":
			for _, t := range ev.sl.tg {
				if t.o == o {
					within(ev.sl, u.zero, ev.ln, "the copy")
				}
			}
		case "wildstore", "unknowncall":
			r.ob(rule, con, false, "unknown effects in "+r.at(ev))
		}
	}
}

// ---- the queue ----

func observeQueue(r *Run) func(*Ev) {
	const rule = "the queue is changed by heap operations only"
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := s.tags["op"]
		if op == "" {
			return
		}
		if ev.kind == "heap" {
			ok := false
			if f, isF := ev.args[0].(Iface); isF && len(f.alts) == 1 {
				if pt, isP := f.alts[0].t.(*types.Pointer); isP {
					if n, isN := pt.Elem().(*types.Named); isN {
						ok = n.Obj().Name() == "Pairs" && strings.HasSuffix(n.Obj().Pkg().Path(), "/interfaces")
					}
				}
			}
			r.ob(rule, op+" uses the order of pairs", ok, "the heap in "+r.at(ev)+" is not a list of pairs")
		}
		if ev.kind == "end" {
			r.ob(rule, op, true, "")
		}
		if x.isHarness(x.ctx.fn) {
			return
		}
		for c := x.ctx; c != nil; c = c.parent {
			if strings.HasPrefix(c.kind, "callback") {
				return
			}
		}
		if ev.kind == "heap" {
			return
		}
		if ev.kind == "wildstore" {
			r.ob(rule, op, false, "unknown memory is written in "+r.at(ev))
			return
		}
		if writeKinds[ev.kind] {
			writesOf(ev, func(t Tgt, _ *Lin, what string) {
				if !inOp(x, t.o) {
					r.ob(rule, op, false, construct(ev, t)+" outside a heap operation: "+r.at(ev))
				}
			})
		}
	}
}

// ---- stores to elements ----

func directSort(res *Result, p *Prog, combos []Combo) {
	const rule = "elements are only exchanged"
	seen := map[string]bool{}
	for _, f := range p.funcs {
		pk := fnPkg(f)
		if !strings.HasSuffix(pk, "goannoy/sort") && !strings.HasSuffix(pk, "goannoy/interfaces") {
			continue
		}
		if f.Origin() == nil && f.TypeParams().Len() > 0 {
			continue
		}
		name := shortFn(f)
		firstOnly(res, f, name)
		if !touchesElems(f) {
			continue
		}
		ok, why := exchanges(p, f)
		if !ok || !seen[name] {
			res.add(rule, name, ok, why)
		}
		seen[name] = true
	}
}

func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// firstOnly: whoever orders pairs by their first value has to look at the second as well.
func firstOnly(res *Result, f *ssa.Function, name string) {
	var order token.Pos
	first, firstEq, second := false, false, false
	fieldRead := func(v ssa.Value) string {
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return ""
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || !strings.Contains(fa.X.Type().String(), "interfaces.Pair[") {
			return ""
		}
		return faName(fa)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			l, r := fieldRead(bo.X), fieldRead(bo.Y)
			if l == "" || l != r {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if l == "First" {
					if first {
						firstEq = true // both directions: equality is what remains
					}
					first = true
					order = bo.Pos()
				} else {
					second = true
				}
			case token.EQL, token.NEQ:
				if l == "First" {
					firstEq = true
				}
			}
		}
	}
	if first {
		res.add("pairs are compared by their first, then by their second value", name+" orders pairs", firstEq && second,
			"pairs are ordered by their first value only at "+f.Prog.Fset.Position(order).String())
	}
}

func faName(fa *ssa.FieldAddr) string {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

func elemStore(in ssa.Instruction) (*ssa.Store, *ssa.IndexAddr) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return nil, nil
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return nil, nil
	}
	if _, isSl := ia.X.Type().Underlying().(*types.Slice); !isSl {
		return nil, nil
	}
	// lists made here are no one else's
	if madeHere(ia.X, map[ssa.Value]bool{}) {
		return nil, nil
	}
	return st, ia
}

func madeHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeSlice, *ssa.Alloc:
		return true
	case *ssa.Slice:
		return madeHere(v.X, seen)
	case *ssa.ChangeType:
		return madeHere(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !madeHere(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return madeHere(v.Call.Args[0], seen)
		}
	case *ssa.Const:
		return true
	}
	return false
}

func touchesElems(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, _ := elemStore(in); st != nil {
				return true
			}
		}
	}
	return false
}

// vkey names a value by its structure.
func vkey(v ssa.Value, d int) string {
	if d > 8 {
		return fmt.Sprintf("%p", v)
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.BinOp:
		a, b := vkey(v.X, d+1), vkey(v.Y, d+1)
		if (v.Op == token.ADD || v.Op == token.MUL) && b < a {
			a, b = b, a
		}
		return "(" + a + v.Op.String() + b + ")"
	case *ssa.ChangeType:
		return vkey(v.X, d+1)
	case *ssa.Convert:
		return v.Type().String() + "(" + vkey(v.X, d+1) + ")"
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch v.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.FieldAddr:
				return "*" + vkey(v.X, d+1)
			}
		}
	case *ssa.FieldAddr:
		return vkey(v.X, d+1) + "." + faName(v)
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

func cellKey(ia *ssa.IndexAddr) string { return vkey(ia.X, 0) + "[" + vkey(ia.Index, 0) + "]" }

// loadedElem: the value is an element read from a list.
func loadedElem(v ssa.Value) (*ssa.UnOp, *ssa.IndexAddr) {
	for {
		switch w := v.(type) {
		case *ssa.ChangeType:
			v = w.X
			continue
		case *ssa.UnOp:
			if ia, ok := w.X.(*ssa.IndexAddr); ok && w.Op == token.MUL {
				return w, ia
			}
		}
		return nil, nil
	}
}

// exchanges: the stores to elements put back what was read.
func exchanges(p *Prog, f *ssa.Function) (bool, string) {
	var shifts, rest []*ssa.Store
	for _, b := range f.Blocks {
		var stores []*ssa.Store
		cur := map[string]string{} // element -> whose content it has
		loaded := map[ssa.Value]string{}
		get := func(k string) string {
			if c, ok := cur[k]; ok {
				return c
			}
			return k
		}
		for _, in := range b.Instrs {
			if ld, ok := in.(*ssa.UnOp); ok {
				if w, ia := loadedElem(ld); w == ld && ia != nil {
					loaded[ld] = get(cellKey(ia))
				}
			}
			st, ia := elemStore(in)
			if st == nil {
				continue
			}
			stores = append(stores, st)
			ld, la := loadedElem(st.Val)
			if ld == nil {
				cur[cellKey(ia)] = fmt.Sprintf("new %p", st)
				continue
			}
			src, ok := loaded[ld]
			if !ok {
				src = cellKey(la)
			}
			cur[cellKey(ia)] = src
		}
		if len(stores) == 0 {
			continue
		}
		have := map[string]int{}
		for k, c := range cur {
			have[k]--
			have[c]++
		}
		bal := true
		for _, n := range have {
			bal = bal && n == 0
		}
		if bal {
			continue
		}
		for _, st := range stores {
			ld, _ := loadedElem(st.Val)
			if ld != nil && ld.Block() == b && reachesBlock(b, b) {
				shifts = append(shifts, st)
			} else {
				rest = append(rest, st)
			}
		}
	}
	if len(shifts)+len(rest) == 0 {
		return true, ""
	}
	// moving a run of elements by one place: a loop of moves, and the element read before it is put into the gap
	if len(shifts) > 0 && len(rest) > 0 {
		ok := true
		for _, st := range rest {
			ld, _ := loadedElem(st.Val)
			good := false
			for _, sh := range shifts {
				if ld != nil && ld.Block().Dominates(sh.Block()) && ld.Block() != sh.Block() && !reachesBlockWithout(st.Block(), sh.Block(), ld.Block()) && reachesBlock(sh.Block(), st.Block()) {
					good = true
				}
			}
			ok = ok && good
		}
		if ok {
			return true, ""
		}
	}
	st := append(append([]*ssa.Store(nil), rest...), shifts...)[0]
	return false, "the stores to elements around " + f.Prog.Fset.Position(st.Pos()).String() + " do not put back exactly what was read"
}

func reachesBlock(a, b *ssa.BasicBlock) bool { return reachesBlockWithout(a, b, nil) }

// reachesBlockWithout: there is a path from the end of a to b that avoids w.
func reachesBlockWithout(a, b, w *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(c *ssa.BasicBlock) bool
	walk = func(c *ssa.BasicBlock) bool {
		for _, n := range c.Succs {
			if n == w {
				continue
			}
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if walk(n) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}
