package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about building trees, with and without workers.

var buildCfg = Config{Ghost: ghostBuild}

func buildUses(observe func(*Run) func(*Ev), after func(*Run), names ...string) []HarnessUse {
	var u []HarnessUse
	for _, n := range names {
		u = append(u, HarnessUse{name: n, generic: true, cfg: buildCfg, observe: observe, after: after})
	}
	return u
}

func init() {
	register(&Check{
		id:   "C01",
		uses: buildUses(observeC01, afterC01, "hBuildAngularMulti", "hBuildDotMulti", "hBuildVerbose"),
		min: map[string]int{
			"concurrent accesses share a lock":          8,
			"workers write only their own node records": 1,
		},
		expl: "Lockset analysis over all interleavings: every access that a worker, or the spawning goroutine while workers run, makes to memory another goroutine can reach is collected with the locks held (mode included); any two accesses to the same memory of which one is a write need a common lock, held exclusively by the writer. Node storage is divided by proof into the item records (never written), the records a worker reserved under the counter's lock, and the rest.",
	})
	register(&Check{
		id:   "C02",
		uses: buildUses(observeC02, afterC02, "hBuildAngularMulti", "hBuildDotMulti", "hBuildVerbose"),
		min: map[string]int{
			"a lock is not requested by its holder": 1,
			"only the holder releases a lock":       1,
			"locks are nested in one order":         1,
			"no lock is held at the end":            1,
		},
		expl: "Typestate of every lock over all paths of the build (workers, recursion, spawning goroutine): never requested while held by the same goroutine, released only by its holder and in the mode it was taken, none held when a worker or the build ends or while waiting for workers, and the relation 'taken while holding' has no cycle.",
	})
}

// inOpOf: is the activation inside a call of the named interface method?
func within(c *Ctx, method string) bool {
	for ; c != nil; c = c.parent {
		if c.fn != nil && c.fn.Name() == method {
			return true
		}
	}
	return false
}

func storage(o *Obj) bool {
	return o.raw && (o.tag == "storage" || o.at != nil && allocatorCtx(o.at.ctx))
}

// allocatorCtx: inside the build allocator.
func allocatorCtx(c *Ctx) bool { return within(c, "Reallocate") }

// ghostBuild remembers the node records that the activation reserved last: [#res, #resn).
func ghostBuild(ev *Ev) {
	x, s := ev.x, ev.x.s
	if ev.kind == "call" && ev.fn != nil && ev.fn.Name() == "Reallocate" {
		idx := theIndex(s)
		for _, a := range ev.args {
			if n, ok := a.(Int); ok && idx != nil {
				s.mem[Cell{idx, "#req"}] = n
			}
		}
	}
	if ev.kind == "return" && x.ctx.fn.Name() == "Reallocate" {
		// the size that was requested last, and the memory that was given
		idx := theIndex(s)
		if idx == nil {
			return
		}
		if p, ok := ev.args[0].(Ptr); ok {
			s.mem[Cell{idx, "#reqp"}] = p
		}
	}
	if ev.kind != "store" {
		return
	}
	for _, t := range ev.ptr.tg {
		if t.path != "._n_nodes" || !strings.Contains(t.o.String()+shortTypeOf(t.o), "AnnoyIndexImpl") {
			continue
		}
		c := Cell{t.o, t.path}
		a, b := Cell{t.o, "#res"}, Cell{t.o, "#resn"}
		old, ok := s.mem[c].(Int)
		nv, ok2 := ev.val.(Int)
		items, ok3 := s.mem[Cell{t.o, "._n_items"}].(Int)
		good := ok && ok2 && ok3 && within(x.ctx, "ThreadBuild") && x.stable(c) && s.proveLe(old.l, nv.l) && s.proveLe(items.l, old.l)
		if w := x.e.inter.w[c]; w != nil && !w.mono {
			good = false
		}
		if !good {
			delete(s.mem, a)
			delete(s.mem, b)
			continue
		}
		s.mem[a], s.mem[b] = old, nv
	}
}

func shortTypeOf(o *Obj) string {
	if o.typ == nil {
		return ""
	}
	return shortType(o.typ)
}

// recordClass: which node records do the bytes [off, off+n) of the storage belong to?
func recordClass(x *X, t Tgt, n *Lin) string {
	s, u := x.s, x.e.u
	idx := theIndex(s)
	if idx == nil || t.off == nil || n == nil {
		return "any"
	}
	ns, ok := s.mem[Cell{idx, ".nodeSize"}].(Int)
	items, ok2 := s.mem[Cell{idx, "._n_items"}].(Int)
	if !ok || !ok2 {
		return "any"
	}
	end := u.add(t.off, n)
	if s.proveMul(u.sub(end, u.mul(items.l, ns.l))) {
		return "items"
	}
	a, ok := s.mem[Cell{idx, "#res"}].(Int)
	b, ok2 := s.mem[Cell{idx, "#resn"}].(Int)
	if ok && ok2 && s.proveMul(u.sub(u.mul(a.l, ns.l), t.off)) && s.proveMul(u.sub(end, u.mul(b.l, ns.l))) {
		return "own"
	}
	return "any"
}

// accesses: the memory an event reads or writes.
func accesses(ev *Ev, f func(t Tgt, n *Lin, write bool)) {
	x, u := ev.x, ev.x.e.u
	size := func(sl Slice, ln *Lin, el types.Type) *Lin {
		if ln == nil || el == nil {
			return nil
		}
		return u.scale(ln, x.e.sizeof(el))
	}
	argElem := func(i int) types.Type {
		if c, ok := ev.in.(ssa.CallInstruction); ok && len(c.Common().Args) > i {
			if _, ok := c.Common().Args[i].Type().Underlying().(*types.Slice); ok {
				return elemOf(c.Common().Args[i].Type())
			}
		}
		return nil
	}
	switch ev.kind {
	case "load", "store":
		n := u.k(x.e.sizeof(ev.typ))
		for _, t := range ev.ptr.tg {
			f(t, n, ev.kind == "store")
		}
	case "copy":
		n := size(ev.sl, ev.ln, argElem(0))
		for _, t := range ev.sl.tg {
			f(t, n, true)
		}
		for _, t := range ev.sl2.tg {
			f(t, n, false)
		}
	case "append":
		for _, t := range ev.sl.tg {
			f(t, nil, false)
			if k, ok := u.sub(ev.sl.cp, ev.sl.ln).isConst(); ok && k == 0 {
				continue
			}
			q := t
			if q.off != nil && q.o.raw {
				q.off = u.add(q.off, u.scale(ev.sl.ln, x.e.sizeof(ev.typ)))
			}
			f(q, size(ev.sl, ev.sl2.ln, ev.typ), true)
		}
		for _, t := range ev.sl2.tg {
			f(t, size(ev.sl2, ev.sl2.ln, ev.typ), false)
		}
	case "mapset", "mapdel", "mapget":
		f(ev.tg, nil, ev.kind != "mapget")
	}
}

type access struct {
	key, what, cls string
	write, worker  bool
	held           map[string]string
	at, site       string
}

// private: memory made by this activation that is not yet stored where another goroutine finds it.
func private(x *X, o *Obj) bool {
	th := x.e.threadOf(x.ctx)
	if th == nil || o.kind != okAlloc || o.summary || o.at == nil || !o.at.ctx.within(th) {
		return false
	}
	for c, v := range x.s.mem {
		if c.o == o || !x.e.shared(th, c.o) {
			continue
		}
		hit := false
		avObjs(v, func(p *Obj) { hit = hit || p == o })
		if hit {
			return false
		}
	}
	return true
}

func observeC01(r *Run) func(*Ev) {
	acc := map[string]*access{}
	r.data["acc"] = acc
	return func(ev *Ev) {
		x := ev.x
		if !x.inRegion() || x.isHarness(x.ctx.fn) {
			return
		}
		th := x.e.threadOf(x.ctx)
		switch ev.kind {
		case "unknowncall", "wildstore":
			r.ob("concurrent accesses share a lock", shortFn(x.ctx.fn)+" "+ev.kind, false, "the memory that is accessed is not known in "+r.at(ev))
			return
		}
		accesses(ev, func(t Tgt, n *Lin, write bool) {
			if th != nil && (!x.e.shared(th, t.o) || private(x, t.o)) {
				return
			}
			a := &access{write: write, worker: th != nil, held: x.locksHeld(), at: r.at(ev), site: shortFn(x.ctx.fn)}
			if storage(t.o) {
				a.key, a.what = "storage", "the node storage"
				a.cls = recordClass(x, t, n)
				if write && th != nil && !allocatorCtx(x.ctx) {
					r.ob("workers write only their own node records", a.site, a.cls == "own", "the record is not one that this worker reserved, in "+a.at)
				}
			} else {
				p := t.path
				if t.o.arr || t.o.raw {
					p = "[*]"
				}
				if i := strings.IndexByte(p, '['); i >= 0 {
					p = p[:i] + "[*]"
				}
				a.key = fmt.Sprintf("%d%s", baseObj(t.o).id, p)
				a.what = objName(t.o) + p
			}
			k := fmt.Sprint(a.key, "|", a.cls, "|", write, "|", a.worker, "|", lockset(a.held), "|", a.site, "|", r.p.pos(ev.in.Pos()))
			if acc[k] == nil {
				acc[k] = a
			}
		})
	}
}

func objName(o *Obj) string {
	if o.typ != nil && !o.raw {
		return shortType(o.typ)
	}
	return o.desc
}

func overlap(a, b string) bool {
	switch {
	case a == "own" && b == "own", a == "own" && b == "items", a == "items" && b == "own":
		return false
	}
	return true
}

func afterC01(r *Run) {
	acc := r.data["acc"].(map[string]*access)
	var ks []string
	for k := range acc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	byKey := map[string][]*access{}
	for _, k := range ks {
		byKey[acc[k].key] = append(byKey[acc[k].key], acc[k])
	}
	mode := func(a *access) string {
		if a.write {
			return "writes "
		}
		return "reads "
	}
	for _, k := range ks {
		a := acc[k]
		ok, why := true, ""
		for _, b := range byKey[a.key] {
			if !a.write && !b.write || !a.worker && !b.worker || !overlap(a.cls, b.cls) {
				continue
			}
			common := false
			for l, ma := range a.held {
				mb := b.held[l]
				if mb != "" && (ma[0] == 'W' || mb[0] == 'W') {
					common = true
				}
			}
			if !common {
				ok, why = false, fmt.Sprintf("%s holding {%s} while %s %s it holding {%s}", a.at, lockset(a.held), b.at, strings.TrimSpace(mode(b)), lockset(b.held))
				break
			}
		}
		r.ob("concurrent accesses share a lock", a.site+" "+mode(a)+a.what, ok, why)
	}
}

// ---- C02 ---------------------------------------------------------------------------------------------------------------

func observeC02(r *Run) func(*Ev) {
	edges := map[[2]string]string{}
	r.data["edges"] = edges
	return func(ev *Ev) {
		x := ev.x
		str := func(i int) string {
			if i < len(ev.args) {
				if f, ok := ev.args[i].(Flt); ok && f.t != nil {
					return f.t.s
				}
			}
			return ""
		}
		switch ev.kind {
		case "lock":
			cur := str(1)
			con := shortFn(x.ctx.fn) + " takes " + x.e.lockDesc[ev.name]
			r.ob("a lock is not requested by its holder", con, cur == "", "already held ("+cur+") in "+r.at(ev))
			for h := range x.locksHeld() {
				if h != ev.name {
					k := [2]string{h, ev.name}
					if edges[k] == "" {
						edges[k] = r.at(ev)
					}
				}
			}
		case "unlock":
			m, cur := str(0), str(1)
			con := shortFn(x.ctx.fn) + " releases " + x.e.lockDesc[ev.name]
			r.ob("only the holder releases a lock", con, m != "" && strings.Contains(cur, m), "held: '"+cur+"', released as '"+m+"' in "+r.at(ev))
		case "wgwait":
			r.ob("no lock is held at the end", shortFn(x.ctx.fn)+" waits for the workers", len(x.locksHeld()) == 0, "holding {"+lockset(x.locksHeld())+"} in "+r.at(ev))
		case "exit":
			if x.e.threadOf(x.ctx) != nil {
				r.ob("no lock is held at the end", "worker "+shortFn(x.ctx.fn), len(x.locksHeld()) == 0, "holding {"+lockset(x.locksHeld())+"}")
			}
		case "mark":
			if ev.name == "built" {
				r.ob("no lock is held at the end", "Build returns", len(x.locksHeld()) == 0, "holding {"+lockset(x.locksHeld())+"}")
			}
		}
	}
}

func afterC02(r *Run) {
	edges := r.data["edges"].(map[[2]string]string)
	var ks [][2]string
	next := map[string][]string{}
	for k := range edges {
		ks = append(ks, k)
		next[k[0]] = append(next[k[0]], k[1])
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0]+"|"+ks[i][1] < ks[j][0]+"|"+ks[j][1] })
	for _, k := range ks {
		// is k[0] reachable from k[1]?
		seen := map[string]bool{}
		var walk func(n string) bool
		walk = func(n string) bool {
			if n == k[0] {
				return true
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			for _, m := range next[n] {
				if walk(m) {
					return true
				}
			}
			return false
		}
		a, b := r.e.lockDesc[k[0]], r.e.lockDesc[k[1]]
		r.ob("locks are nested in one order", b+" inside "+a, !walk(k[1]), b+" is taken while holding "+a+" in "+edges[k]+", and elsewhere the other way round")
	}
}

// ---- C03, C04, C06: writes into the node storage -----------------------------------------------------------------------

func init() {
	all := []string{"hBuildAngularSingle", "hBuildAngularMulti", "hBuildDotSingle", "hBuildDotMulti", "hBuildVerbose"}
	register(&Check{
		id:   "C03",
		uses: buildUses(observeC03, nil, all...),
		min:  map[string]int{"a write goes to the current storage": 1},
		expl: "Must-alias and interference analysis: at every write into memory of the build allocator the pointer written through stems from the value that the index's storage field holds at that moment, and in a worker a lock is held that every store to that field needs; so no growth by anyone can lie between obtaining the pointer and the write.",
	})
	register(&Check{
		id:   "C04",
		uses: buildUses(observeC04, nil, all...),
		min: map[string]int{
			"a write lies within the storage":             1,
			"a tree node is written to a slot of its own": 1,
			"the recorded capacity is allocated":          1,
		},
		expl: "Symbolic ranges: every byte range written into the node storage is within the allocation (0 <= offset, offset+size <= bytes requested from the allocator), for all ids, capacities and growth patterns; tree nodes are written to records [old,new) of a counter update made while holding a lock that protects the counter, so no two of them share a slot.",
	})
	register(&Check{
		id:   "C06",
		uses: buildUses(observeC06, afterC06, all...),
		min:  map[string]int{"a step of the build leaves items alone": 1, "AddItem writes the item's vector": 1},
		expl: "Symbolic ranges: every byte range that any step of Build writes into the node storage lies behind the last item, or in a part of a record that is disjoint from the ranges AddItem writes for the vector and the item marker.",
	})
}

func storageWrites(ev *Ev, f func(t Tgt, n *Lin, base Sym)) {
	x := ev.x
	if x.isHarness(x.ctx.fn) || allocatorCtx(x.ctx) {
		return
	}
	accesses(ev, func(t Tgt, n *Lin, write bool) {
		if !write || !storage(t.o) {
			return
		}
		switch ev.kind {
		case "store":
			f(t, n, ev.ptr.base)
		default:
			f(t, n, ev.sl.base)
		}
	})
}

func observeC03(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		rule := "a write goes to the current storage"
		if ev.kind == "wildstore" && !x.isHarness(x.ctx.fn) {
			r.ob(rule, shortFn(x.ctx.fn)+" writes", false, "the memory that is written is not known in "+r.at(ev))
		}
		storageWrites(ev, func(t Tgt, n *Lin, base Sym) {
			idx := theIndex(s)
			if idx == nil {
				return
			}
			con := shortFn(x.ctx.fn) + " writes the node storage"
			c := Cell{idx, "._nodes"}
			np, ok := s.mem[c].(Ptr)
			ok = ok && np.base != noSym && (base == np.base || base != noSym && s.proveEq(x.e.u.s(base), x.e.u.s(np.base)))
			r.ob(rule, con, ok, "the pointer was obtained before the storage was replaced, or from elsewhere, in "+r.at(ev))
			if x.inRegion() {
				r.ob(rule, con, x.stable(c), "another worker may replace the storage before this write: holding {"+lockset(x.locksHeld())+"} in "+r.at(ev))
			}
		})
	}
}

func observeC04(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		rule := "a write lies within the storage"
		if ev.kind == "wildstore" && !x.isHarness(x.ctx.fn) {
			r.ob(rule, shortFn(x.ctx.fn)+" writes", false, "the memory that is written is not known in "+r.at(ev))
		}
		r4 := "the recorded capacity is allocated"
		if ev.kind == "store" && !x.isHarness(x.ctx.fn) {
			idx := theIndex(s)
			for _, t := range ev.ptr.tg {
				if t.o != idx || t.path != "._nodes" && t.path != "._nodes_size" {
					continue
				}
				con := shortFn(x.ctx.fn) + " sets " + t.path[1:]
				switch v := ev.val.(type) {
				case Ptr:
					np, ok := s.mem[Cell{idx, "#reqp"}].(Ptr)
					ok = len(v.tg) == 0 && v.nk == nnNil || ok && np.base != noSym && (v.base == np.base || v.base != noSym && s.proveEq(u.s(v.base), u.s(np.base)))
					r.ob(r4, con, ok, "the storage is not what the allocator returned last in "+r.at(ev))
				case Int:
					rq, ok := s.mem[Cell{idx, "#req"}].(Int)
					ns, ok2 := s.mem[Cell{idx, ".nodeSize"}].(Int)
					ok = s.proveLe(v.l, u.zero) || ok && ok2 && s.proveMul(u.sub(u.mul(v.l, ns.l), rq.l)) || thenAllocates(ev.in)
					r.ob(r4, con, ok, "fewer bytes may have been requested than the recorded capacity takes in "+r.at(ev))
				}
			}
		}
		if ev.kind == "call" && ev.fn != nil && ev.fn.Name() == "Reallocate" && thenAllocates(ev.in) {
			idx := theIndex(s)
			cp, ok := s.mem[Cell{idx, "._nodes_size"}].(Int)
			ns, ok2 := s.mem[Cell{idx, ".nodeSize"}].(Int)
			for _, a := range ev.args {
				if n, isInt := a.(Int); isInt && idx != nil {
					r.ob(r4, shortFn(x.ctx.fn)+" requests memory", ok && ok2 && s.proveMul(u.sub(u.mul(cp.l, ns.l), n.l)), "fewer bytes may be requested than the recorded capacity takes in "+r.at(ev))
				}
			}
		}
		storageWrites(ev, func(t Tgt, n *Lin, base Sym) {
			con := shortFn(x.ctx.fn) + " writes the node storage"
			idx := theIndex(s)
			cp, ok1 := s.mem[Cell{idx, "._nodes_size"}].(Int)
			ns, ok2 := s.mem[Cell{idx, ".nodeSize"}].(Int)
			ok := ok1 && ok2 && t.off != nil && n != nil && s.proveMul(u.scale(t.off, -1)) && inCapacity(s, t.off, n, cp.l, ns.l)
			r.dump(rule, ok, ev)
			r.ob(rule, con, ok, "the record may lie outside the allocated storage in "+r.at(ev))
			if within(x.ctx, "ThreadBuild") {
				r.ob("a tree node is written to a slot of its own", con, recordClass(x, t, n) == "own", "the record is not one that this worker reserved in "+r.at(ev))
			}
		})
	}
}

// slotOf: the number of the record an offset lies in, and the place within the record, when the latter is constant.
func slotOf(u *Univ, off, ns *Lin) (q, rel *Lin) {
	if off == nil || ns == nil || off.isBig() || ns.isBig() {
		return nil, nil
	}
	for _, r := range ns.ts {
		if u.info(r.s).op == "mul" {
			continue
		}
		q = u.zero
		for _, t := range off.ts {
			in := u.info(t.s)
			if in.op != "mul" || t.k%r.k != 0 {
				continue
			}
			for i := 0; i < 2; i++ {
				if y, c, ok := in.args[i].single(); ok && c == 0 && y == r.s {
					q = u.add(q, u.scale(in.args[1-i], t.k/r.k))
					break
				}
			}
		}
		rel = u.sub(off, u.mul(q, ns))
		for _, t := range rel.ts {
			if t.s == r.s && t.k%r.k == 0 {
				q = u.addc(q, t.k/r.k)
				rel = u.sub(off, u.mul(q, ns))
				break
			}
		}
		if _, ok := rel.isConst(); ok {
			return q, rel
		}
	}
	return nil, nil
}

// thenAllocates: the capacity is recorded just before the memory is requested (at: the store, or the request).
func thenAllocates(at ssa.Instruction) bool {
	isReq := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if m := c.Common().Method; m != nil {
			return m.Name() == "Reallocate"
		}
		f := c.Common().StaticCallee()
		return f != nil && f.Name() == "Reallocate"
	}
	isSize := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && faName(fa) == "_nodes_size"
	}
	seen := false
	for _, in := range at.Block().Instrs {
		switch {
		case isSize(in) && isReq(at):
			seen = true
		case in == at:
			if isReq(at) {
				return seen
			}
			seen = true
		case isReq(in) && seen && !isReq(at):
			return true
		}
	}
	return false
}

func inCapacity(s *State, off, n, capacity, ns *Lin) bool {
	u := s.e.u
	if s.proveMul(u.sub(u.add(off, n), u.mul(capacity, ns))) {
		return true
	}
	q, rel := slotOf(u, off, ns)
	return q != nil && s.prove(u.sub(u.addc(q, 1), capacity)) && s.prove(u.sub(u.add(rel, n), ns))
}

type c06data struct {
	vec, ndesc map[byteRange]bool
	writes     map[string]*c06write
}

type c06write struct {
	con, at string
	rel     *byteRange // nil: not known
}

// recordRel: the place of an offset within its record.
func recordRel(x *X, off *Lin) *Lin {
	s, u := x.s, x.e.u
	idx := theIndex(s)
	if idx == nil || off == nil {
		return nil
	}
	ns, ok := s.mem[Cell{idx, ".nodeSize"}].(Int)
	if !ok {
		return nil
	}
	cand := map[Sym]bool{}
	for _, t := range off.ts {
		cand[t.s] = true
		for _, a := range u.info(t.s).args {
			u.linSyms(a, func(y Sym) { cand[y] = true })
		}
	}
	if off.isBig() {
		return nil
	}
	if _, ok := off.isConst(); ok {
		return off
	}
	for c := range cand {
		d := u.sub(off, u.mul(u.s(c), ns.l))
		if _, ok := d.isConst(); ok {
			return d
		}
	}
	return nil
}

func observeC06(r *Run) func(*Ev) {
	d := &c06data{map[byteRange]bool{}, map[byteRange]bool{}, map[string]*c06write{}}
	r.data["c06"] = d
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		building := s.tags["at:build"] != ""
		if ev.kind == "wildstore" && building && !x.isHarness(x.ctx.fn) {
			r.ob("a step of the build leaves items alone", shortFn(x.ctx.fn)+" writes", false, "the memory that is written is not known in "+r.at(ev))
		}
		storageWrites(ev, func(t Tgt, n *Lin, base Sym) {
			if !building {
				rel := recordRel(x, t.off)
				if rel == nil || n == nil {
					return
				}
				if i, ok := ev.val.(Int); ok && ev.kind == "store" {
					if k, ok := i.l.isConst(); ok && k == 1 {
						d.ndesc[byteRange{rel, n}] = true
					}
				}
				if ev.kind == "copy" {
					d.vec[byteRange{rel, n}] = true
				}
				return
			}
			idx := theIndex(s)
			if idx == nil {
				return
			}
			ns, ok := s.mem[Cell{idx, ".nodeSize"}].(Int)
			items, ok2 := s.mem[Cell{idx, "._n_items"}].(Int)
			con := shortFn(x.ctx.fn) + " writes the node storage"
			if ok && ok2 && t.off != nil && s.proveMul(u.sub(u.mul(items.l, ns.l), t.off)) {
				r.ob("a step of the build leaves items alone", con, true, "")
				return
			}
			w := &c06write{con: con, at: r.at(ev)}
			if rel := recordRel(x, t.off); rel != nil && n != nil {
				if _, ok := n.isConst(); ok {
					w.rel = &byteRange{rel, n}
				}
			}
			d.writes[fmt.Sprint(con, w.at, w.rel != nil && true, relStr(u, w.rel))] = w
		})
	}
}

func relStr(u *Univ, b *byteRange) string {
	if b == nil {
		return ""
	}
	return u.linStr(b.off) + "+" + u.linStr(b.n)
}

func afterC06(r *Run) {
	d := r.data["c06"].(*c06data)
	kind := strings.TrimPrefix(r.harness, "hBuild")
	r.ob("AddItem writes the item's vector", kind+": vector", len(d.vec) == 1, fmt.Sprintf("%d ranges of the record are copied from the vector", len(d.vec)))
	r.ob("AddItem writes the item's vector", kind+": marker", len(d.ndesc) == 1, fmt.Sprintf("%d fields of the record are set to 1", len(d.ndesc)))
	var ks []string
	for k := range d.writes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w := d.writes[k]
		ok, why := w.rel != nil, "the write may reach an item's record"
		if ok {
			lo, _ := w.rel.off.isConst()
			n, _ := w.rel.n.isConst()
			for v := range d.vec {
				// the vector reaches to the end of the record
				if a, _ := v.off.isConst(); lo+n > a {
					ok, why = false, "the write reaches the vector of an item"
				}
			}
			for v := range d.ndesc {
				a, _ := v.off.isConst()
				m, _ := v.n.isConst()
				if lo < a+m && a < lo+n {
					ok, why = false, "the write reaches the marker of an item"
				}
			}
		}
		r.ob("a step of the build leaves items alone", w.con, ok, why+" in "+w.at)
	}
}
