package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about what a search does with the numbers of the distance and what it returns.
//
// The harness gives the index a distance whose numbers are arbitrary and a sorter that reorders arbitrarily; both report
// what they are asked. Ghost state of one search (cells "#r..." of the index, tags "q:..."):
//   #rtop, #rfirst, #rsecond   the pair that was taken as the best one, and its fields
//   #rmargin, #rbound:k        the margin of the node at hand and the bounds of its two children
//   #rsort, #roff, #rval       the list of candidates after sorting; what was read from it last, and where
//   #rfar, #ry                 the last distance that was computed, and the record it was computed for
//   #rfill, #racc              how many pairs were filled, and the id in the last one
//   #rei, #ref, #res           the ranked pair at hand: its position, distance and id
//   #rsh, #rshi                the reported form of the distance at hand
//   #rnd, #rne                 how many distances and ids were put in the results

var rankCfg = Config{MaxDisj: 2000, Dot: true, Loaded: true, Ghost: ghostRank}

func rankUses(obs func(r *Run) func(*Ev)) []HarnessUse {
	return []HarnessUse{
		{name: "hRankAngular", generic: true, cfg: rankCfg, observe: obs},
		{name: "hRankDot", generic: true, cfg: rankCfg, observe: obs},
	}
}

func inSort(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/sort")
}

// pairField: the field of a pair that is read or written through a pointer, and the pointer to the pair.
func pairField(x *X, addr ssa.Value) (string, Ptr, bool) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return "", Ptr{}, false
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || !strings.Contains(shortType(pt.Elem()), "Pair[") {
		return "", Ptr{}, false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return "", Ptr{}, false
	}
	p, ok := x.s.regs[Reg{x.ctx, fa.X}].(Ptr)
	return st.Field(fa.Field).Name(), p, ok
}

func samePtr(a, b AV) bool {
	p, ok1 := a.(Ptr)
	q, ok2 := b.(Ptr)
	if !ok1 || !ok2 {
		return false
	}
	if p.id != noSym && p.id == q.id {
		return true
	}
	return len(p.tg) == 1 && len(q.tg) == 1 && !p.unk && !q.unk && p.tg[0].o == q.tg[0].o && !p.tg[0].o.summary && p.tg[0].off == q.tg[0].off && p.tg[0].path == q.tg[0].path
}

// samePlaces: two pointers into the same set of objects.
func samePlaces(a, b AV) bool {
	p, ok1 := a.(Ptr)
	q, ok2 := b.(Ptr)
	if !ok1 || !ok2 || p.unk || q.unk {
		return false
	}
	m := map[*Obj]bool{}
	for _, t := range q.tg {
		m[t.o] = true
	}
	for _, t := range p.tg {
		if !m[t.o] {
			return false
		}
	}
	return len(p.tg) > 0
}

// sameOffs: two pointers to the same places of the same objects.
func sameOffs(a, b AV) bool {
	p, ok1 := a.(Ptr)
	q, ok2 := b.(Ptr)
	if !ok1 || !ok2 || p.unk || q.unk || len(p.tg) != len(q.tg) || len(p.tg) == 0 {
		return false
	}
	for i, t := range p.tg {
		if t.o != q.tg[i].o || t.off != q.tg[i].off || t.path != q.tg[i].path {
			return false
		}
	}
	return true
}

// nodeSlot: the number of the record a node pointer points to.
func nodeSlot(s *State, a AV) *Lin {
	p, ok := a.(Ptr)
	ns := treeInt(s, ".nodeSize")
	if !ok || p.unk || len(p.tg) == 0 || ns == nil {
		return nil
	}
	var r *Lin
	for i, t := range p.tg {
		q, rel := slotOf(s.e.u, t.off, ns)
		if q == nil || rel == nil || !storageOrMapped(t.o) || i > 0 && q != r {
			return nil
		}
		if k, ok := rel.isConst(); !ok || k != 0 {
			return nil
		}
		r = q
	}
	return r
}

func storageOrMapped(o *Obj) bool { return o.raw && o.kind != okGlobal && o.tag != "caller" }

func rankFlt(s *State, name string) *Term {
	if f, ok := treeGet(s, name).(Flt); ok {
		return f.t
	}
	return nil
}

// elemIndex: the position of an element that is read or written, from its address.
func elemIndex(x *X, addr ssa.Value) *Lin {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	base := u0(x, ia)
	var i *Lin
	if c, ok := ia.Index.(*ssa.Const); ok {
		if n, ok := x.get(c).(Int); ok {
			i = n.l
		}
	} else if n, ok := x.s.regs[Reg{x.ctx, ia.Index}].(Int); ok {
		i = n.l
	}
	if i == nil || base == nil {
		return nil
	}
	return x.e.u.add(i, base)
}

// u0: where in its memory a list starts, in elements; nil: unknown.
func u0(x *X, ia *ssa.IndexAddr) *Lin {
	sl, ok := x.s.regs[Reg{x.ctx, ia.X}].(Slice)
	if !ok {
		return nil
	}
	for _, t := range sl.tg {
		if t.off == nil {
			return nil
		}
		if k, ok := t.off.isConst(); !ok || k != 0 {
			return nil
		}
	}
	return x.e.u.zero
}

func ghostRank(ev *Ev) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	tagDel(s, "q:why:")
	bad := func(f string, a ...any) { s.tags["q:why:17"] = fmt.Sprintf(f, a...) }
	badQ := func(f string, a ...any) { s.tags["q:why:19"] = fmt.Sprintf(f, a...) }
	op := opName(s.tags["op"])
	if ev.kind == "result" && ev.name == "slots" && len(ev.args) == 3 {
		m, ok1 := single(ev.args[0])
		c, ok2 := single(ev.args[1])
		if ok1 && ok2 && m.off != nil && c.off != nil {
			treeSet(s, "#slots", Int{u.sub(c.off, m.off)})
		}
		return
	}
	if op == "" {
		return
	}
	switch ev.kind {
	case "begin":
		treeDel(s, "#r")
		tagDel(s, "q:")
		for _, n := range []string{"#rfill", "#rnd", "#rne"} {
			treeSet(s, n, Int{u.zero})
		}
	case "end":
		rankNext(s, badQ)
		treeDel(s, "#r")
		tagDelBut(s, "q:", "q:why:")
	case "result":
		ghostNumbers(ev, op, bad)
	case "return":
		if len(ev.args) != 1 || !inSort(x.ctx.fn) {
			return
		}
		p, ok := ev.args[0].(Ptr)
		if !ok || op != "GetNnsByVector" {
			return
		}
		switch x.ctx.fn.Name() {
		case "Top":
			if s.tags["q:st"] == "top" {
				// looked at again
				if old, ok := treeGet(s, "#rtop").(Ptr); ok && samePtr(old, p) {
					return
				}
			}
			if s.tags["q:st"] == "top" && s.tags["q:read"] != "" {
				badQ("the pending node that was looked at is not taken off the queue")
			}
			rankNext(s, badQ)
			newTop(s, p, "top")
		case "Pop":
			if s.tags["q:st"] == "top" {
				s.tags["q:st"] = "popped"
				return
			}
			rankNext(s, badQ)
			if s.tags["q:st"] == "popped" && s.tags["q:read"] == "" {
				badQ("a pending node is dropped")
			}
			newTop(s, p, "popped")
		}
	case "heap":
		if ev.name == "Push" && op == "GetNnsByVector" {
			rankPush(ev, badQ)
		}
	case "loaded":
		ghostLoaded(ev, op, bad)
	case "call":
		if ev.fn != nil && ev.fn.Name() == "SetVector" && len(ev.args) == 2 && op == "GetNnsByVector" {
			delete(s.tags, "q:vn")
			v, ok := ev.args[1].(Slice)
			q := treeGet(s, "#rquery")
			n := treeInt(s, ".vectorLength")
			if ok && len(v.tg) == 1 && samePlaces(Ptr{tg: v.tg}, q) && s.proveEq(v.tg[0].off, u.zero) && n != nil && s.proveEq(v.ln, n) {
				treeSet(s, "#rvn", ev.args[0])
				s.tags["q:vn"] = "set"
			}
		}
	case "store", "append":
		ghostPairs(ev, op, bad)
	}
}

func tagDelBut(s *State, pre, but string) {
	for k := range s.tags {
		if strings.HasPrefix(k, pre) && !strings.HasPrefix(k, but) {
			delete(s.tags, k)
		}
	}
}

// rankNext: the node at hand is done with.
func rankNext(s *State, bad func(string, ...any)) {
	if s.tags["q:margin"] != "" || s.tags["q:pushed:0"] != "" || s.tags["q:pushed:1"] != "" {
		if s.tags["q:pushed:0"] == "" || s.tags["q:pushed:1"] == "" {
			bad("a child of the node is left out")
		}
	}
	tagDel(s, "q:pushed:")
	tagDel(s, "q:bound:")
	delete(s.tags, "q:margin")
	for _, n := range []string{"#rmargin", "#rbound:", "#rside:", "#rdslot", "#rdval"} {
		treeDel(s, n)
	}
}

func newTop(s *State, p Ptr, st string) {
	for _, n := range []string{"#rfirst", "#rsecond"} {
		treeDel(s, n)
	}
	delete(s.tags, "q:read")
	s.tags["q:st"] = st
	treeSet(s, "#rtop", p)
}

// ghostNumbers: the distance or the sorter was called.
func ghostNumbers(ev *Ev, op string, bad func(string, ...any)) {
	s, u := ev.x.s, ev.x.e.u
	f := func(i int) *Term {
		if i < len(ev.args) {
			return fterm(ev.args[i])
		}
		return nil
	}
	switch ev.name {
	case "asked":
		treeSet(s, "#rquery", ev.args[0])
		treeSet(s, "#rask", ev.args[1])
		treeSet(s, "#rlim", ev.args[2])
	case "Initial":
		treeSet(s, "#rinit", ev.args[0])
	case "Margin":
		treeSet(s, "#rmargin", ev.args[0])
		s.tags["q:margin"] = "ok"
		slot, second := nodeSlot(s, ev.args[1]), treeInt(s, "#rsecond")
		if slot == nil || second == nil || !s.proveEq(slot, second) {
			s.tags["q:margin"] = "the margin is not that of the node at hand"
		}
		y, ok := single(ev.args[2])
		if !ok || !samePlaces(ev.args[2], treeGet(s, "#rquery")) || y.off == nil || !s.proveEq(y.off, u.zero) {
			s.tags["q:margin"] = "the margin is not that of the vector that is asked for"
		}
	case "Bound":
		k, ok := ev.args[3].(Int)
		if !ok {
			return
		}
		name := "?"
		if c, ok := k.l.isConst(); ok {
			name = fmt.Sprint(c)
		}
		treeSet(s, "#rbound:"+name, ev.args[0])
		treeSet(s, "#rside:"+name, k)
		why := "ok"
		first, margin := rankFlt(s, "#rfirst"), rankFlt(s, "#rmargin")
		switch {
		case first == nil || f(1) == nil || f(1) != u.term("neg", first):
			why = "the bound of a child is not computed from that of its node"
		case margin == nil || f(2) != margin:
			why = "the bound of a child is not computed from the margin of its node"
		case s.tags["q:margin"] != "ok":
			why = s.tags["q:margin"]
		}
		s.tags["q:bound:"+name] = why
	case "Far":
		treeSet(s, "#rfar", ev.args[0])
		treeDel(s, "#ry")
		treeDel(s, "#rx")
		if q := nodeSlot(s, ev.args[2]); q != nil {
			treeSet(s, "#ry", Int{q})
		}
		s.tags["q:far"] = "ok"
		if op == "GetDistance" {
			if q := nodeSlot(s, ev.args[1]); q != nil {
				treeSet(s, "#rx", Int{q})
			}
			return
		}
		if s.tags["q:vn"] != "init" || !samePtr(ev.args[1], treeGet(s, "#rvn")) && !sameTarget(ev.args[1], treeGet(s, "#rvn")) {
			s.tags["q:far"] = "the distance is not that to the vector that is asked for"
		}
	case "Init":
		if s.tags["q:vn"] == "set" && sameTarget(ev.args[0], treeGet(s, "#rvn")) {
			s.tags["q:vn"] = "init"
		}
	case "Shown":
		treeSet(s, "#rsh", ev.args[0])
		treeSet(s, "#rshv", ev.args[1])
		treeDel(s, "#rshi")
		if ef, i := rankFlt(s, "#ref"), treeInt(s, "#rei"); ef != nil && i != nil && f(1) == ef {
			treeSet(s, "#rshi", Int{i})
		}
	case "Sorted":
		treeDel(s, "#roff")
		treeDel(s, "#rval")
		treeSet(s, "#rsort", ev.args[0])
		treeDel(s, "#rsln")
		if n, ok := ev.args[1].(Int); ok {
			treeSet(s, "#rsln", n)
		}
	case "Ranked":
		b, _ := ev.args[1].(Int)
		m, _ := ev.args[2].(Int)
		e, _ := ev.args[3].(Int)
		fill := treeInt(s, "#rfill")
		switch {
		case s.tags["q:half"] != "":
			bad("a pair is only half filled when the pairs are ranked")
		case b.l == nil || m.l == nil || e.l == nil || fill == nil || !s.proveEq(b.l, u.zero) || !s.proveEq(e.l, fill):
			bad("the pairs that are ranked are not the ones that were filled")
		case s.tags["q:app"] == "" && !samePlaces(ev.args[0], treeGet(s, "#rlist")) && !s.proveLe(e.l, u.zero):
			bad("the list that is ranked is not the one that was filled")
		}
		s.tags["q:ranked"] = "1"
		if m.l != nil {
			treeSet(s, "#rmid", m)
		}
		for _, n := range []string{"#rei", "#ref", "#res", "#rep", "#rsh"} {
			treeDel(s, n)
		}
	}
}

func sameTarget(a, b AV) bool {
	p, ok1 := single(a)
	q, ok2 := single(b)
	return ok1 && ok2 && p.o == q.o && !p.o.summary && p.off == q.off
}

// rankPush: something is put in the queue.
func rankPush(ev *Ev, bad func(string, ...any)) {
	s, u := ev.x.s, ev.x.e.u
	var t Tgt
	ok := false
	if f, isI := ev.args[1].(Iface); isI && len(f.alts) == 1 {
		t, ok = single(f.alts[0].v)
	}
	if !ok {
		bad("what is put in the queue is not known")
		return
	}
	first, _ := s.mem[Cell{t.o, ".First"}].(Flt)
	second, _ := s.mem[Cell{t.o, ".Second"}].(Int)
	if first.t == nil || second.l == nil {
		bad("what is put in the queue is not known")
		return
	}
	if s.tags["q:st"] == "" {
		init := rankFlt(s, "#rinit")
		if init == nil || first.t != u.term("neg", init) {
			bad("a root is not put in the queue with the initial bound")
		}
		return
	}
	if s.tags["q:st"] != "popped" {
		bad("a child is put in the queue before its node was taken off")
		return
	}
	for c, v := range s.mem {
		if !strings.HasPrefix(c.path, "#rbound:") {
			continue
		}
		f, isF := v.(Flt)
		if !isF || first.t != u.term("neg", f.t) {
			continue
		}
		k := strings.TrimPrefix(c.path, "#rbound:")
		if why := s.tags["q:bound:"+k]; why != "ok" {
			bad("%s", why)
			return
		}
		side, node, slots, ns := treeInt(s, "#rside:"+k), treeInt(s, "#rsecond"), treeInt(s, "#slots"), treeInt(s, ".nodeSize")
		off, sz := loadedAt(u, second.l)
		if side == nil || node == nil || slots == nil || off == nil || ns == nil {
			bad("which child is put in the queue is not known")
			return
		}
		want := u.add(u.add(u.mul(node, ns), slots), u.scale(side, sz))
		if !s.proveEq(off, want) {
			bad("the child that is put in the queue is not the one on the side of its bound")
			return
		}
		s.tags["q:pushed:"+k] = "1"
		return
	}
	bad("a child is not put in the queue with its negated bound")
}

// loadedAt: where a value was loaded from, and its size.
func loadedAt(u *Univ, l *Lin) (*Lin, int64) {
	y, c, ok := l.single()
	if !ok || c != 0 {
		return nil, 0
	}
	in := u.info(y)
	switch {
	case in.op == "ld:uint32" && len(in.objs) == 1:
		return in.args[0], 4
	case in.op == "ld:uint64" && len(in.objs) == 1:
		return in.args[0], 8
	}
	return nil, 0
}

// ghostLoaded: a value was read.
func ghostLoaded(ev *Ev, op string, bad func(string, ...any)) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	ld, ok := ev.in.(*ssa.UnOp)
	if !ok {
		return
	}
	if x.ctx.fn.Name() == "GetNumberOfDescendants" && len(ev.ptr.tg) > 0 {
		treeDel(s, "#rdslot")
		treeDel(s, "#rdval")
		ns := treeInt(s, ".nodeSize")
		if q, _ := slotOf(u, ev.ptr.tg[0].off, ns); q != nil && len(ev.ptr.tg) == 1 {
			treeSet(s, "#rdslot", Int{q})
			treeSet(s, "#rdval", ev.val)
		}
		return
	}
	if op != "GetNnsByVector" {
		return
	}
	if name, p, ok := pairField(x, ld.X); ok {
		if top := treeGet(s, "#rtop"); top != nil && s.tags["q:ranked"] == "" && samePtr(p, top) {
			cell := map[string]string{"First": "#rfirst", "Second": "#rsecond"}[name]
			if name == "Second" {
				s.tags["q:read"] = "1"
			}
			if old := treeGet(s, cell); old != nil {
				x.set(ld, old)
			} else {
				treeSet(s, cell, ev.val)
			}
			return
		}
		if ep := treeGet(s, "#rep"); ep != nil && samePtr(p, ep) {
			cell := map[string]string{"First": "#ref", "Second": "#res"}[name]
			if old := treeGet(s, cell); old != nil {
				x.set(ld, old)
			} else {
				treeSet(s, cell, ev.val)
			}
		}
		return
	}
	switch v := ev.val.(type) {
	case Agg:
		if isPairType(ld.Type()) && len(v.fs) == 2 && !inSort(x.ctx.fn) && !x.isHarness(x.ctx.fn) {
			pairLoaded(x, s, ld, ev.ptr, v)
		}
	case Ptr:
		if !strings.Contains(shortType(ld.Type()), "Pair[") || inSort(x.ctx.fn) {
			return
		}
		i := elemIndex(x, ld.X)
		if i == nil || x.isHarness(x.ctx.fn) {
			return
		}
		if s.tags["q:ranked"] != "" {
			if old := treeInt(s, "#rei"); old != nil && old == i {
				if ep := treeGet(s, "#rep"); ep != nil {
					x.set(ld, ep) // the same pair as before
					return
				}
			}
			treeSet(s, "#rep", v)
			treeSet(s, "#rei", Int{i})
			for _, n := range []string{"#ref", "#res"} {
				treeDel(s, n)
			}
			return
		}
		if old := treeInt(s, "#rsloti"); old != nil && old == i && sameOffs(ev.ptr, treeGet(s, "#rlist")) {
			if p := treeGet(s, "#rslotp"); p != nil {
				x.set(ld, p) // the same pair as before
				return
			}
		}
		treeSet(s, "#rslotp", v)
		treeSet(s, "#rsloti", Int{i})
		treeSet(s, "#rlist", Ptr{tg: ev.ptr.tg})
	case Int:
		so := treeGet(s, "#rsort")
		if so == nil || !samePlaces(ev.ptr, so) || x.isHarness(x.ctx.fn) {
			return
		}
		var off *Lin
		for i, t := range ev.ptr.tg {
			if t.off == nil || i > 0 && t.off != off {
				return
			}
			off = t.off
		}
		// (counted in elements)
		if n, ok := u.divExact(off, x.e.sizeof(ld.Type())); ok {
			off = n
		}
		// the list is sorted: what is read further back is not smaller
		if n := treeInt(s, "#rsln"); n == nil || !s.proveLt(off, n) {
			return
		}
		o, w := treeInt(s, "#roff"), treeInt(s, "#rval")
		if ao, acc := treeInt(s, "#raoff"), treeInt(s, "#racc"); ao != nil && acc != nil && s.proveLe(ao, off) {
			s.addFact(u.sub(acc, v.l))
		}
		if o != nil && w != nil && s.proveLe(o, off) {
			s.addFact(u.sub(w, v.l))
			if o == off {
				s.addFact(u.sub(v.l, w))
			}
		} else if o != nil && w != nil && s.proveLe(off, o) {
			s.addFact(u.sub(v.l, w))
			return
		}
		treeSet(s, "#roff", Int{off})
		treeSet(s, "#rval", v)
	}
}

func isPairType(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	return ok && strings.Contains(shortType(t), "Pair[") && st.NumFields() == 2
}

// pairLoaded: a whole pair was read.
func pairLoaded(x *X, s *State, ld *ssa.UnOp, p Ptr, v Agg) {
	cells := []string{}
	if top := treeGet(s, "#rtop"); top != nil && s.tags["q:ranked"] == "" && samePtr(p, top) {
		cells = []string{"#rfirst", "#rsecond"}
		s.tags["q:read"] = "1"
	} else if ep := treeGet(s, "#rep"); ep != nil && samePtr(p, ep) {
		cells = []string{"#ref", "#res"}
	}
	if len(cells) == 0 {
		return
	}
	w := Agg{fs: append([]AV(nil), v.fs...)}
	for i, c := range cells {
		if old := treeGet(s, c); old != nil {
			w.fs[i] = old
		} else {
			treeSet(s, c, v.fs[i])
		}
	}
	x.set(ld, w)
}

// ghostPairs: pairs are filled, or results are put in the lists.
func ghostPairs(ev *Ev, op string, bad func(string, ...any)) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	if op != "GetNnsByVector" || inSort(x.ctx.fn) || x.isHarness(x.ctx.fn) || within(x.ctx, "Push") {
		return
	}
	var val AV
	var addr ssa.Value
	switch in := ev.in.(type) {
	case *ssa.Store:
		val, addr = x.get(in.Val), in.Addr
	}
	if ev.kind == "store" && addr != nil {
		if name, p, ok := pairField(x, addr); ok {
			rankFill(ev, name, p, val, bad)
			return
		}
		if v, ok := val.(Agg); ok && isPairType(ev.typ) && len(v.fs) == 2 {
			if p, ok := x.get(addr).(Ptr); ok {
				delete(s.tags, "q:half")
				rankFill(ev, "First", p, v.fs[0], bad)
				rankFill(ev, "Second", p, v.fs[1], bad)
			}
			return
		}
		if p, ok := val.(Ptr); ok && strings.Contains(shortType(ev.typ), "Pair[") {
			if ia, ok := addr.(*ssa.IndexAddr); ok {
				if _, isSlice := ia.X.Type().Underlying().(*types.Slice); !isSlice {
					return // the arguments of a call
				}
			}
			if i := elemIndex(x, addr); i != nil {
				treeSet(s, "#rslotp", p)
				treeSet(s, "#rsloti", Int{i})
				if q, ok := x.get(addr).(Ptr); ok {
					treeSet(s, "#rlist", Ptr{tg: q.tg})
				}
				rankFilled(ev, bad)
			}
			return
		}
	}
	if ev.kind == "append" {
		if ev.typ == nil {
			return
		}
		if pt, ok := ev.typ.Underlying().(*types.Pointer); ok && isPairType(pt.Elem()) {
			treeDel(s, "#rslot")
			if p, ok := appended(x, ev.sl2).(Ptr); ok {
				// the pair has its place now
				treeSet(s, "#rslotp", p)
				treeSet(s, "#rsloti", Int{ev.sl.ln})
				if s.tags["q:half"] == "full" && samePtr(treeGet(s, "#rpair"), p) {
					s.tags["q:app"] = "1"
				}
				rankFilled(ev, bad)
			}
			return
		}
	}
	if s.tags["q:ranked"] == "" {
		// the sorted list may have been changed
		if so := treeGet(s, "#rsort"); so != nil {
			writesOf(ev, func(t Tgt, _ *Lin, _ string) {
				if p, ok := so.(Ptr); ok {
					for _, q := range p.tg {
						if q.o == t.o {
							treeDel(s, "#roff")
							treeDel(s, "#rval")
							treeDel(s, "#raoff")
							treeDel(s, "#rsln")
						}
					}
				}
			})
		}
		return
	}
	// results
	put := func(pos *Lin, v AV) {
		switch w := v.(type) {
		case Flt:
			n, i, sh := treeInt(s, "#rnd"), treeInt(s, "#rshi"), rankFlt(s, "#rsh")
			switch {
			case sh == nil || w.t != sh || i == nil:
				bad("a distance in the results is not the reported form of that of a ranked pair")
			case n == nil || !s.proveEq(pos, n) || !s.proveEq(i, n):
				bad("the distances are not put in the results in the order of the pairs")
			case treeInt(s, "#rmid") == nil || !s.proveLt(i, treeInt(s, "#rmid")):
				bad("a distance is taken from a pair that was not ranked")
			}
			if n != nil {
				treeSet(s, "#rnd", Int{u.addc(n, 1)})
			}
		case Int:
			n, i, es := treeInt(s, "#rne"), treeInt(s, "#rei"), treeInt(s, "#res")
			switch {
			case es == nil || w.l != es || i == nil:
				bad("an id in the results is not that of a ranked pair")
			case n == nil || !s.proveEq(pos, n) || !s.proveEq(i, n):
				bad("the ids are not put in the results in the order of the pairs")
			case treeInt(s, "#rmid") == nil || !s.proveLt(i, treeInt(s, "#rmid")):
				bad("an id is taken from a pair that was not ranked")
			}
			if n != nil {
				treeSet(s, "#rne", Int{u.addc(n, 1)})
			}
		}
	}
	switch ev.kind {
	case "append":
		if isFloat(ev.typ) || isIDList(types.NewSlice(ev.typ)) {
			if n, ok := ev.sl2.ln.isConst(); ok && n == 0 {
				return
			}
			v := appended(x, ev.sl2)
			if v == nil {
				bad("what is put in the results is not known")
				return
			}
			put(ev.sl.ln, v)
		}
	case "store":
		if addr == nil {
			return
		}
		if ia, ok := addr.(*ssa.IndexAddr); ok {
			if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice && (isFloat(ev.typ) || isIDList(types.NewSlice(ev.typ))) {
				i := elemIndex(x, addr)
				if i == nil {
					bad("what is put in the results is not known")
					return
				}
				put(i, val)
			}
		}
	}
}

// appended: the single value that is appended.
func appended(x *X, sl Slice) AV {
	if n, ok := sl.ln.isConst(); !ok || n != 1 || len(sl.tg) != 1 {
		return nil
	}
	if v, ok := x.s.mem[Cell{sl.tg[0].o, "[0]"}]; ok {
		return v
	}
	if v, ok := x.s.mem[Cell{sl.tg[0].o, "@0:4"}]; ok {
		return v
	}
	if v, ok := x.s.mem[Cell{sl.tg[0].o, "@0:8"}]; ok {
		return v
	}
	return nil
}

// rankFill: a field of a pair is written.
func rankFill(ev *Ev, name string, p Ptr, val AV, bad func(string, ...any)) {
	s := ev.x.s
	if s.tags["q:ranked"] != "" {
		bad("a pair is changed after the pairs were ranked")
		return
	}
	if n, ok := zeroValue(ev.x.e.u, val); ok && n && s.tags["q:half"] == "" {
		return // a new pair
	}
	if h := s.tags["q:half"]; h != "" && !samePtr(treeGet(s, "#rpair"), p) {
		if h != "full" {
			bad("a pair is only half filled")
		}
		delete(s.tags, "q:half") // one that is not in the list
	}
	treeSet(s, "#rpair", p)
	switch name {
	case "First":
		far := rankFlt(s, "#rfar")
		f, ok := val.(Flt)
		if !ok || far == nil || f.t != far {
			bad("the number in a pair is not the distance just computed")
			return
		}
		if s.tags["q:far"] != "ok" {
			bad("%s", s.tags["q:far"])
		}
	case "Second":
		n, ok := val.(Int)
		if !ok {
			bad("the id in a pair is not known")
			return
		}
		treeSet(s, "#rid", n)
	}
	switch {
	case s.tags["q:half"] == "":
		s.tags["q:half"] = name
	case s.tags["q:half"] != name:
		s.tags["q:half"] = "full"
		rankFilled(ev, bad)
	}
}

func zeroValue(u *Univ, v AV) (bool, bool) {
	switch w := v.(type) {
	case Int:
		k, ok := w.l.isConst()
		return ok && k == 0, true
	case Flt:
		return w.t.op == "const" && w.t.f == 0, true
	}
	return false, false
}

// rankFilled: a pair is filled and has its place in the list.
func rankFilled(ev *Ev, bad func(string, ...any)) {
	s, u := ev.x.s, ev.x.e.u
	if s.tags["q:half"] != "full" || !samePtr(treeGet(s, "#rpair"), treeGet(s, "#rslotp")) {
		return
	}
	delete(s.tags, "q:half")
	fill, i := treeInt(s, "#rfill"), treeInt(s, "#rsloti")
	id, y := treeInt(s, "#rid"), treeInt(s, "#ry")
	acc := treeInt(s, "#racc")
	dslot, dval := treeInt(s, "#rdslot"), treeInt(s, "#rdval")
	switch {
	case id == nil || y == nil || !s.proveEq(id, y):
		bad("the distance in a pair is not that of the item in the pair")
	case fill == nil || i == nil || !s.proveEq(fill, i):
		bad("the pairs are not filled one after the other (%s, expected %s)", u.linStr(i), u.linStr(fill))
	case s.tags["q:acc"] != "" && (acc == nil || !s.proveLt(acc, id)):
		bad("an id may be taken twice")
	case dslot == nil || dval == nil || !s.proveEq(dslot, id) || !s.proveEq(dval, u.k(1)):
		bad("a record is taken that may not be an item")
	}
	s.tags["q:acc"] = "1"
	treeDel(s, "#rslot")
	treeSet(s, "#racc", Int{id})
	treeDel(s, "#raoff")
	if o, w := treeInt(s, "#roff"), treeInt(s, "#rval"); o != nil && w != nil && s.proveEq(w, id) {
		treeSet(s, "#raoff", Int{o})
	}
	if fill != nil {
		treeSet(s, "#rfill", Int{u.addc(fill, 1)})
	}
	treeDel(s, "#rfar")
	treeDel(s, "#ry")
}

func init() {
	register(&Check{
		id:   "C17",
		uses: rankUses(observeC17),
		min: map[string]int{
			"a pair is a distinct item with its distance":          1,
			"the pairs that were filled are ranked":                1,
			"results are the ranked pairs in order":                1,
			"the result lists have equal length, at most as asked": 1,
		},
		expl:   "Relational analysis of GetNnsByVector with a distance that reports arbitrary numbers and a sorter that reorders arbitrarily, for any index content and context: with the candidates read in order from the sorted list, every pair is filled with an id larger than that of the pair before it, of a record marked as an item, and with the number the distance reported for this record and the query; pairs are filled at consecutive places, exactly those places are ranked, and the k-th id and distance of the result come from the k-th ranked pair, the distance in its reported form; both lists are as long, and not longer than asked for.",
		assume: []string{"sorters sort (C24)", "the pairs of a context are distinct objects", "the requested number is not negative"},
		combos: 2,
	})
}

// rankBad: what the ghosts found wrong at this event, for the property.
func rankBad(s *State, pre string) string {
	return s.tags["q:why:"+pre]
}

func observeC17(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		if opName(s.tags["op"]) != "GetNnsByVector" {
			return
		}
		why := rankBad(s, "17")
		rule, con := "", shortFn(x.ctx.fn)
		switch ev.kind {
		case "store":
			if st, ok := ev.in.(*ssa.Store); ok {
				if _, _, ok := pairField(x, st.Addr); ok && !within(x.ctx, "Push") && !x.isHarness(x.ctx.fn) {
					rule = "a pair is a distinct item with its distance"
				}
				if isPairType(st.Val.Type()) && !x.isHarness(x.ctx.fn) && !within(x.ctx, "Push") && s.tags["q:ranked"] == "" {
					rule = "a pair is a distinct item with its distance"
				}
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && s.tags["q:ranked"] != "" && !x.isHarness(x.ctx.fn) {
					if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice && (isFloat(ev.typ) || isIDList(types.NewSlice(ev.typ))) {
						rule = "results are the ranked pairs in order"
					}
				}
			}
		case "append":
			if s.tags["q:ranked"] != "" {
				rule = "results are the ranked pairs in order"
			}
			if pt, ok := ev.typ.Underlying().(*types.Pointer); ok && isPairType(pt.Elem()) && s.tags["q:ranked"] == "" {
				rule = "a pair is a distinct item with its distance"
			}
		case "result":
			switch ev.name {
			case "Ranked":
				rule = "the pairs that were filled are ranked"
			case "Nns":
				rule = "the result lists have equal length, at most as asked"
				ids, ok1 := ev.args[0].(Slice)
				ds, ok2 := ev.args[1].(Slice)
				ask, ne, nd := treeInt(s, "#rask"), treeInt(s, "#rne"), treeInt(s, "#rnd")
				switch {
				case !ok1 || !ok2 || ask == nil || ne == nil || nd == nil:
					why = "the results are not known"
				case !s.proveEq(ids.ln, ne) || !s.proveEq(ds.ln, nd):
					why = "the lists do not hold what was put in them"
				case !s.proveEq(ids.ln, ds.ln):
					why = "the lists may differ in length: " + u.linStr(ids.ln) + " and " + u.linStr(ds.ln)
				case !s.proveLe(ids.ln, ask):
					why = "the lists may be longer than asked for"
				}
				con = "GetNnsByVector"
			}
		}
		if rule == "" {
			if why == "" {
				return
			}
			rule = "results are the ranked pairs in order"
			if s.tags["q:ranked"] == "" {
				rule = "a pair is a distinct item with its distance"
			}
		}
		r.dump(rule+" "+why, why == "", ev)
		r.ob(rule, con, why == "", why+", in "+r.at(ev))
	}
}

// observeRank19: the queue of a search.
func observeRank19(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		if opName(s.tags["op"]) != "GetNnsByVector" && ev.kind != "end" {
			return
		}
		why := rankBad(s, "19")
		rule := ""
		switch {
		case ev.kind == "heap" && ev.name == "Push" && s.tags["q:st"] == "":
			rule = "the roots are put in the queue with the initial bound"
		case ev.kind == "heap" && ev.name == "Push":
			rule = "a child is put in the queue with the bound on its side"
		case ev.kind == "return" && inSort(x.ctx.fn) && (x.ctx.fn.Name() == "Top" || x.ctx.fn.Name() == "Pop"):
			rule = "the node with the best bound is expanded next"
		case why != "":
			rule = "the node with the best bound is expanded next"
		default:
			return
		}
		r.dump(rule+" "+why, why == "", ev)
		r.ob(rule, shortFn(x.ctx.fn), why == "", why+", in "+r.at(ev))
	}
}

// The side an item is put on when the tree is built.

func sideUses() []HarnessUse {
	cfg := Config{Ghost: ghostSide}
	return []HarnessUse{
		{name: "hSideLeft", cfg: cfg, observe: observeSide},
		{name: "hSideRight", cfg: cfg, observe: observeSide},
	}
}

func ghostSide(ev *Ev) {
	s, u := ev.x.s, ev.x.e.u
	if ev.kind == "result" && (ev.name == "Sided" || ev.name == "Split") && len(ev.args) > 0 {
		if ev.name == "Split" {
			treeSet(s, "#ssplit", ev.args[0])
			return
		}
		treeDel(s, "#sitem")
		s.tags["s:asked"] = "the side of something that is not an item is asked for"
		ns := treeInt(s, ".nodeSize")
		if p, ok := ev.args[1].(Ptr); ok && ns != nil && !p.unk {
			var item *Lin
			for i, t := range p.tg {
				q, _ := slotOf(u, t.off, ns)
				if i > 0 && q != item {
					q = nil
				}
				if item = q; item == nil || !storage(t.o) {
					item = nil
					break
				}
			}
			if item != nil {
				treeSet(s, "#sitem", Int{item})
				s.tags["s:asked"] = "ok"
			}
		}
		if sp := treeGet(s, "#ssplit"); sp == nil || !sameTarget(sp, ev.args[0]) {
			s.tags["s:asked"] = "the side is asked for with another node than that of the split"
		}
		return
	}
	if ev.kind == "call" && ev.fn != nil && ev.fn.Name() == "NextSide" {
		delete(s.tags, "s:asked")
		treeDel(s, "#sitem")
	}
	ghostTree(ev)
}

func observeSide(r *Run) func(*Ev) {
	side := map[string]int{"hSideLeft": 0, "hSideRight": 1}[r.harness]
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		tc := treeCtx(x.ctx)
		if tc == nil || x.isHarness(x.ctx.fn) {
			return
		}
		con := shortFn(x.ctx.fn)
		switch ev.kind {
		case "append":
			if s.tags["s:asked"] == "" || ev.typ == nil || !isIDList(types.NewSlice(ev.typ)) {
				return
			}
			v, want := singleElem(x, ev.sl2), treeInt(s, "#sitem")
			why := s.tags["s:asked"]
			if why == "ok" {
				why = ""
				if v == nil || want == nil || !s.proveEq(v, want) {
					why = "the side that was asked for is that of another item"
				}
			}
			rule := "an item is put on the side of its vector"
			r.dump(rule, why == "", ev)
			r.ob(rule, con, why == "", why+", in "+r.at(ev))
		case "call":
			if ev.fn == nil || ev.fn.Name() != "SetChildren" || len(kids(s)) != 2 {
				return
			}
			rule := fmt.Sprint("the items on side ", side, " are below child ", side)
			arg, ok := ev.args[1].(Slice)
			why := "the children are not known"
			if ok && len(arg.tg) == 1 {
				// all items are on one side: the list of the other one is empty
				el, ok := s.mem[Cell{arg.tg[0].o, fmt.Sprintf("[%d]", side)}].(Int)
				if ok {
					why = ""
				}
				for _, k := range kids(s) {
					n, kid := treeInt(s, "#len:"+k), treeInt(s, "#kid:"+k)
					if why == "" && (n == nil || !s.proveLe(n, s.e.u.zero)) && (kid == nil || kid != el.l) {
						why = "the subtree of the items on one side may be the child on the other"
					}
				}
			}
			r.dump(rule, why == "", ev)
			r.ob(rule, con, why == "", why+", in "+r.at(ev))
		}
	}
}
