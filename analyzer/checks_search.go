package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Rules about searching and item lookups.

var searchCfg = Config{PanicBack: true, MaxDisj: 1500, Ghost: ghostArgs}

var fillCfg = Config{PanicBack: true, MaxDisj: 1500, Ghost: ghostFill}

// ghostFill follows, for each list of pointers that is made, up to which element (#fill) and from which one on (#fillhi) it
// was filled without a gap, and that its elements are not nil once all are. One that is made empty only has the elements
// that are appended to it (#fillbare).
func ghostFill(ev *Ev) {
	ghostArgs(ev)
	s, u := ev.x.s, ev.x.e.u
	switch ev.kind {
	case "made":
		s.mem[Cell{ev.obj, "#fill"}] = Int{u.zero}
		if e := s.ext(ev.obj); e != nil {
			s.mem[Cell{ev.obj, "#fillhi"}] = Int{e}
		}
		if k, ok := ev.ln.isConst(); ok && k == 0 {
			if _, ok := ev.typ.Underlying().(*types.Pointer); ok {
				s.mem[Cell{ev.obj, "#fillbare"}] = Int{u.zero}
				s.mem[Cell{ev.obj, "[*]"}] = Ptr{nk: nnNon, id: noSym, base: noSym}
			}
		}
	case "store":
		v, ok := ev.val.(Ptr)
		if !ok {
			return
		}
		for _, t := range ev.ptr.tg {
			if t.path != "[*]" || t.o.raw {
				continue
			}
			if s.nilOf(v) != 2 {
				for _, n := range []string{"#fill", "#fillhi", "#fillbare"} {
					delete(s.mem, Cell{t.o, n})
				}
				continue
			}
			if t.o.summary || t.off == nil || len(ev.ptr.tg) > 1 {
				continue
			}
			if n, ok := s.mem[Cell{t.o, "#fill"}].(Int); ok && s.proveEq(t.off, n.l) {
				s.mem[Cell{t.o, "#fill"}] = Int{u.addc(n.l, 1)}
			}
			if n, ok := s.mem[Cell{t.o, "#fillhi"}].(Int); ok && s.proveEq(t.off, u.addc(n.l, -1)) {
				s.mem[Cell{t.o, "#fillhi"}] = Int{t.off}
			}
		}
	case "copy", "append":
		good := true
		for _, t := range ev.sl2.tg {
			n := 0
			for c, v := range s.mem {
				if p, ok := v.(Ptr); ok && c.o == t.o && strings.HasPrefix(c.path, "[") {
					good = good && s.nilOf(p) == 2
					n++
				}
			}
			good = good && n > 0
		}
		if good && len(ev.sl2.tg) > 0 && !ev.sl2.unk {
			return
		}
		for _, t := range ev.sl.tg {
			for _, n := range []string{"#fill", "#fillhi", "#fillbare"} {
				delete(s.mem, Cell{t.o, n})
			}
		}
	case "slice":
		hi, ok := ev.args[1].(Int)
		if ok && hi.l != nil && ev.sl.ln != nil && s.proveLe(hi.l, ev.sl.ln) {
			return
		}
		for _, t := range ev.sl.tg {
			c := Cell{t.o, "#fillbare"}
			if _, ok := s.mem[c]; ok {
				delete(s.mem, c)
				if p, ok := s.mem[Cell{t.o, "[*]"}].(Ptr); ok {
					p.nk, p.id = nnMaybe, noSym
					s.mem[Cell{t.o, "[*]"}] = p
				}
			}
		}
	case "return":
		for c := range s.mem {
			if strings.HasPrefix(c.path, "#fill") && !c.o.summary {
				fillDone(s, c)
			}
		}
	}
}

// fillDone: all elements of a list are set.
func fillDone(s *State, c Cell) {
	n, ok := s.mem[c].(Int)
	e := s.ext(c.o)
	if !ok {
		return
	}
	switch c.path {
	case "#fill":
		ok = e != nil && s.proveLe(e, n.l)
	case "#fillhi":
		ok = s.prove(n.l)
	}
	d := Cell{c.o, "[*]"}
	if p, isPtr := s.mem[d].(Ptr); ok && isPtr {
		p.nk = nnNon
		s.mem[d] = p
	}
}

func searchUses(obs func(r *Run) func(*Ev)) []HarnessUse {
	return []HarnessUse{
		{name: "hSearchAngular", generic: true, cfg: searchCfg, observe: obs},
		{name: "hSearchDot", generic: true, cfg: searchCfg, observe: obs},
	}
}

// ghostArgs remembers the index, the context and the integer arguments of the operation in progress.
func ghostArgs(ev *Ev) {
	if ev.kind != "result" || ev.name != "args" || len(ev.args) < 2 {
		return
	}
	s := ev.x.s
	t, ok := single(ev.args[0])
	if !ok {
		return
	}
	for c := range s.mem {
		if strings.HasPrefix(c.path, "#arg") {
			delete(s.mem, c)
		}
	}
	s.mem[Cell{t.o, "#argctx"}] = ev.args[1]
	for i, a := range ev.args[2:] {
		if n, ok := a.(Int); ok {
			s.mem[Cell{t.o, fmt.Sprintf("#arg%d", i)}] = n
		}
	}
}

// opIndex: the index the operation in progress was called on.
func opIndex(s *State) *Obj {
	for c := range s.mem {
		if c.path == "#argctx" {
			return c.o
		}
	}
	return nil
}

func argLin(s *State, i int) *Lin {
	for c, v := range s.mem {
		if c.path == fmt.Sprintf("#arg%d", i) {
			if n, ok := v.(Int); ok {
				return n.l
			}
		}
	}
	return nil
}

func intCell(s *State, o *Obj, path string) *Lin {
	if o == nil {
		return nil
	}
	if n, ok := cellVal(s, o, path).(Int); ok {
		return n.l
	}
	return nil
}

// ctxObjs: the memory of the context of the operation in progress.
func ctxObjs(s *State) map[*Obj]bool {
	for c, v := range s.mem {
		if c.path == "#argctx" {
			return reachFrom(s, v, nil)
		}
	}
	return nil
}

var writeKinds = map[string]bool{"store": true, "copy": true, "append": true, "mapset": true, "mapdel": true, "sort": true, "heap": true}

func init() {
	register(&Check{
		id:     "C15",
		uses:   searchUses(observeC15),
		min:    map[string]int{"a search writes only to memory of the call or of the context": 3, "query operations analysed": 1},
		expl:   "Effect analysis: every write (store, copy, append, sort, heap operation, map update, random draw) reachable from GetNnsByVector, GetNnsByItem, GetDistance, GetItem and CreateContext, with arbitrary arguments and index contents, is resolved to the objects it may write; each is an object made by the call itself or part of the caller's context.",
		assume: []string{"searches run concurrently only with searches, each with its own context"},
	})
	register(&Check{
		id: "C16",
		uses: append(searchUses(observeC16),
			HarnessUse{name: "hLifeMmap", generic: true, cfg: lifeArgs, observe: observeC16}),
		min:  map[string]int{"an operation that returns normally had valid arguments": 1, "memory is used only after the argument was checked": 1},
		expl: "Symbolic facts at every access: in AddItem and the search operations, before any write to memory that existed before the call, any access to node data and any read of the caller's vector, the path condition implies that the vector length equals the index's and that item ids are below the number of items; a normal return implies the same.",
	})
	register(&Check{
		id: "C18",
		uses: []HarnessUse{
			{name: "hSearchAngular", generic: true, cfg: fillCfg, observe: observeC18},
			{name: "hSearchDot", generic: true, cfg: fillCfg, observe: observeC18},
		},
		min:  map[string]int{"access within the buffer": 1, "slicing within the capacity": 1, "no panic because of the candidates": 1},
		expl: "Symbolic range analysis of every element access and slice expression on buffers of the context and of the call in GetNnsByVector and GetNnsByItem, with arbitrary contents of the index, arbitrary numbers of candidates and a context made by another index; array initialisation analysis: the pairs of a context are all allocated when it is made, or checked before they are used.",
	})
	register(&Check{
		id: "C28",
		uses: append(searchUses(observeC28),
			HarnessUse{name: "hLifeMmap", generic: true, cfg: lifeArgs, observe: observeC28}),
		min:  map[string]int{"the caller's vector is never written": 1, "no reference to the caller's vector is kept": 1, "result lists are freshly allocated": 1},
		expl: "Points-to and escape analysis: no write reachable from AddItem and the searches can write to the caller's vector; after each operation nothing reachable from the index, the context or a global points to it; the memory of the result lists was allocated by the call and is reachable from neither the index nor the context, and the two lists share none.",
	})
}

var lifeArgs = Config{PanicBack: true, MaxDisj: 3000, Ghost: ghostArgs}

func observeC15(r *Run) func(*Ev) {
	const rule = "a search writes only to memory of the call or of the context"
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := s.tags["op"]
		if op == "" {
			return
		}
		if ev.kind == "end" {
			r.ob("query operations analysed", op, true, "")
			return
		}
		con := shortFn(x.ctx.fn)
		switch {
		case writeKinds[ev.kind]:
			mine := ctxObjs(s)
			writesOf(ev, func(t Tgt, _ *Lin, what string) {
				ok := inOp(x, t.o) || mine[t.o]
				if t.o.kind == okGlobal {
					ok = false
				}
				r.ob(rule, construct(ev, t), ok, what+" in "+op+": "+r.at(ev))
			})
		case ev.kind == "wildstore":
			r.ob(rule, con+" writes to unknown memory", false, r.at(ev))
		case ev.kind == "draw":
			ok := false
			if len(ev.args) > 0 {
				if p, isP := ev.args[0].(Ptr); isP && len(p.tg) > 0 {
					ok = true
					for _, t := range p.tg {
						ok = ok && (inOp(x, t.o) || ctxObjs(s)[t.o])
					}
				}
			}
			r.ob(rule, con+" draws a random number", ok, r.at(ev))
		case ev.kind == "nondet":
			return
		case ev.kind == "send":
			r.ob(rule, con+" sends to a channel", false, r.at(ev))
		}
	}
}

// vectorOp: the operation takes a vector whose length is its first argument.
func vectorOp(op string) bool { return op == "GetNnsByVector" || op == "AddItem" }

// argsValid: what is known of the arguments of the operation in progress: proved valid; and the facts that make them valid.
func argsValid(s *State, idx *Obj) (ok bool, facts []*Lin, why string) {
	u := s.e.u
	op := opName(s.tags["op"])
	switch op {
	case "GetNnsByVector", "AddItem":
		a, l := argLin(s, 0), intCell(s, idx, ".vectorLength")
		if a == nil || l == nil {
			return false, nil, "the lengths are not known"
		}
		return s.proveEq(a, l), []*Lin{u.sub(a, l), u.sub(l, a)}, "the length of the vector has not been checked"
	case "GetNnsByItem", "GetItem", "GetDistance":
		n := intCell(s, idx, "._n_items")
		ok = true
		k := 1
		if op == "GetDistance" {
			k = 2
		}
		for i := 0; i < k; i++ {
			a := argLin(s, i)
			if a == nil || n == nil {
				return false, nil, "the number of items is not known"
			}
			f := u.addc(u.sub(a, n), 1)
			facts = append(facts, f)
			if !s.prove(f) {
				ok, why = false, fmt.Sprintf("item id %d has not been compared with the number of items", i)
			}
		}
		return
	}
	return true, nil, ""
}

func callerMem(o *Obj) bool { return baseObj(o).tag == "caller" }

func observeC16(r *Run) func(*Ev) {
	const rule = "memory is used only after the argument was checked"
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := opName(s.tags["op"])
		switch op {
		case "GetNnsByVector", "AddItem", "GetNnsByItem", "GetItem", "GetDistance":
		default:
			return
		}
		if strings.HasPrefix(r.harness, "hLife") != (op == "AddItem") {
			return
		}
		if s.tags["panicked"] != "" {
			return
		}
		idx := opIndex(s)
		if idx == nil {
			if ev.kind != "begin" && ev.kind != "result" && ev.kind != "end" && ev.kind != "state" && !x.isHarness(x.ctx.fn) {
				r.ob(rule, op, false, "the arguments are not known in "+r.at(ev))
			}
			return
		}
		check := func(con, what string) {
			ok, _, why := argsValid(s, idx)
			r.ob(rule, con, ok, what+" although "+why+": "+r.at(ev))
		}
		switch {
		case ev.kind == "end":
			ok, _, why := argsValid(s, idx)
			r.ob("an operation that returns normally had valid arguments", op, ok, why)
		case ev.kind == "load":
			for _, t := range ev.ptr.tg {
				if t.o.raw && !inOp(x, t.o) {
					check(op+": "+shortFn(x.ctx.fn)+" reads "+rawName(t.o), "read")
				}
			}
		case ev.kind == "copy":
			for _, t := range ev.sl2.tg {
				if t.o.raw && !inOp(x, t.o) {
					check(op+": "+shortFn(x.ctx.fn)+" reads "+rawName(t.o), "read")
				}
			}
			fallthrough
		case writeKinds[ev.kind]:
			writesOf(ev, func(t Tgt, _ *Lin, what string) {
				if !inOp(x, t.o) {
					check(op+": "+construct(ev, t), what)
				}
			})
		}
	}
}

func rawName(o *Obj) string {
	if callerMem(o) {
		return "the caller's vector"
	}
	return "node data"
}

func observeC18(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		op := s.tags["op"]
		if op != "GetNnsByVector" && op != "GetNnsByItem" {
			return
		}
		idx := opIndex(s)
		if idx == nil {
			return
		}
		mine := func(tg []Tgt) bool {
			m := ctxObjs(s)
			for _, t := range tg {
				if !(m[t.o] || inOp(x, t.o)) {
					return false
				}
			}
			return true
		}
		con := shortFn(x.ctx.fn)
		switch ev.kind {
		case "index":
			if !mine(ev.sl.tg) {
				return
			}
			ok := ev.sl.ln != nil && ev.ln != nil && s.proveLt(ev.ln, ev.sl.ln) && s.prove(u.scale(ev.ln, -1))
			r.ob("access within the buffer", con, ok, "element "+u.linStr(ev.ln)+" of "+u.linStr(ev.sl.ln)+" in "+r.at(ev))
		case "fieldaddr":
			// pairs of the context (those of the queue are only there while it is not empty)
			m, in := ctxObjs(s), false
			for _, t := range ev.ptr.tg {
				in = in || m[t.o]
			}
			if in && isPairType(ev.typ) {
				r.ob("a pair that is used is allocated", con, s.nilOf(ev.ptr) == 2, "the pair may be nil in "+r.at(ev))
			}
		case "slice":
			if !mine(ev.sl.tg) {
				return
			}
			lo, hi := ev.args[0].(Int).l, ev.args[1].(Int).l
			ok := lo != nil && hi != nil && ev.sl.cp != nil && s.prove(u.scale(lo, -1)) && s.proveLe(lo, hi) && s.proveLe(hi, ev.sl.cp)
			r.ob("slicing within the capacity", con, ok, u.linStr(lo)+":"+u.linStr(hi)+" of capacity "+u.linStr(ev.sl.cp)+" in "+r.at(ev))
		case "panic":
			if s.tags["panicked"] != "" {
				return
			}
			_, facts, _ := argsValid(s, idx)
			dead := false
			for _, f := range facts {
				dead = dead || s.prove(u.addc(u.scale(f, -1), 1))
			}
			if op == "GetNnsByVector" && len(facts) == 2 {
				dead = dead || s.provesNe(facts[0])
			}
			r.ob("no panic because of the candidates", con, dead, "a panic in "+r.at(ev)+" does not depend on invalid arguments only")
		case "store", "append":
			// what is put into a list of pairs is a pair
			m := ctxObjs(s)
			vals := []AV{ev.val}
			if ev.kind == "append" {
				vals = nil
				for _, t := range ev.sl2.tg {
					for c, v := range s.mem {
						if c.o == t.o {
							vals = append(vals, v)
						}
					}
				}
			}
			tg := ev.ptr.tg
			if ev.kind == "append" {
				tg = ev.sl.tg
			}
			for _, t := range tg {
				if !m[t.o] {
					continue
				}
				for _, v := range vals {
					if p, ok := v.(Ptr); ok {
						r.ob("buffers hold allocated pairs", con, s.nilOf(p) != 1, "a nil pair is put into the context in "+r.at(ev))
					}
				}
			}
		case "end":
			r.ob("no panic because of the candidates", op, true, "")
		}
	}
}

func observeC28(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := opName(s.tags["op"])
		if op == "" {
			return
		}
		if strings.HasPrefix(r.harness, "hLife") && op != "AddItem" {
			return
		}
		switch {
		case ev.kind == "wildstore":
			r.ob("the caller's vector is never written", shortFn(x.ctx.fn)+" writes to unknown memory", false, r.at(ev))
		case writeKinds[ev.kind]:
			writesOf(ev, func(t Tgt, _ *Lin, what string) {
				r.ob("the caller's vector is never written", construct(ev, t), !callerMem(t.o), what+" to the caller's vector in "+r.at(ev))
			})
		case ev.kind == "go":
			for _, a := range ev.args {
				bad := false
				avObjs(a, func(o *Obj) { bad = bad || callerMem(o) })
				r.ob("no reference to the caller's vector is kept", op+" starts a goroutine", !bad, "the vector is passed to a goroutine in "+r.at(ev))
			}
		case ev.kind == "result" && ev.name == "Nns":
			if s.tags["panicked"] != "" {
				return
			}
			var sets []map[*Obj]bool
			for i, a := range ev.args {
				sl, ok := a.(Slice)
				con := fmt.Sprintf("%s, result %d", op, i+1)
				if !ok {
					r.ob("result lists are freshly allocated", con, false, "the result is not known")
					continue
				}
				kept := keptObjs(s)
				own := map[*Obj]bool{}
				good, why := true, ""
				for _, t := range sl.tg {
					own[t.o] = true
					if callerMem(t.o) || t.o.kind == okGlobal || !inOp0(x, t.o, ev) {
						good, why = false, "the list may be memory of "+x.e.originOf(t.o)
					}
					if kept[t.o] {
						good, why = false, "the list is still reachable from the index or the context ("+x.e.originOf(t.o)+")"
					}
				}
				if sl.base == 0 && len(sl.tg) == 0 && s.nilOf(sl) != 1 {
					good, why = false, "the memory of the list is not known"
				}
				for _, m := range sets {
					for o := range own {
						if m[o] {
							good, why = false, "the two lists share memory"
						}
					}
				}
				sets = append(sets, own)
				r.ob("result lists are freshly allocated", con, good, why)
			}
		case ev.kind == "end":
			good, why := true, ""
			for o := range keptObjs(s) {
				if callerMem(o) {
					good, why = false, "the vector is reachable from the index, the context or a global when "+op+" ends"
				}
			}
			r.ob("no reference to the caller's vector is kept", op, good, why)
		}
	}
}

// keptObjs: everything reachable from the index, the context and globals.
func keptObjs(s *State) map[*Obj]bool {
	m := map[*Obj]bool{}
	idx := opIndex(s)
	if idx == nil {
		idx = theIndex(s)
	}
	add := func(a AV) {
		for o := range reachFrom(s, a, nil) {
			m[o] = true
		}
	}
	if idx != nil {
		add(Ptr{tg: []Tgt{{idx, "", s.e.u.zero}}})
	}
	for o := range ctxObjs(s) {
		m[o] = true
	}
	for c, v := range s.mem {
		if c.o.kind == okGlobal {
			add(v)
		}
	}
	return m
}

// inOp0: made during the operation whose result is reported (the event is in the harness itself).
func inOp0(x *X, o *Obj, ev *Ev) bool {
	if o.at == nil {
		return false
	}
	c := siteCtx(x, x.s.tags["op"])
	return c != nil && o.at.ctx.within(c)
}
