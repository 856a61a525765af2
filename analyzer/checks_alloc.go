package main

import "strings"

// C05: the build allocator keeps the contents of the memory it hands out.

func init() {
	register(&Check{
		id:   "C05",
		uses: []HarnessUse{{name: "hAlloc", cfg: Config{Ghost: ghostAlloc, CopyTrack: true}, observe: observeC05}},
		min: map[string]int{
			"the memory is as large as requested":          1,
			"the memory starts with what was there before": 1,
		},
		expl: "Abstract execution of Reallocate and Free in every order with symbolic sizes: on each return the extent of the returned block is at least the requested size, and the block is either the one that was handed out before, untouched, or a new one into which at least as many bytes as were ever requested since the last Free were copied from the start of the previous block.",
	})
}

// allocGhost: the object the ghosts hang on (the allocator).
func allocObj(s *State) *Obj {
	var r *Obj
	for c := range s.mem {
		if c.path == "#n" && (r == nil || c.o.id < r.id) {
			r = c.o
		}
	}
	return r
}

// ghostAlloc: #n is the largest size requested since the last Free, #p the memory handed out last, #x
// the size it was requested with; {block,#cn}: the bytes
// copied from there to the start of the block.
func ghostAlloc(ev *Ev) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	switch ev.kind {
	case "begin":
		o := allocObj(s)
		if o == nil {
			for c := range s.mem {
				if c.o.typ != nil && strings.Contains(shortType(c.o.typ), "GoGCIndexBuildAllocatorImpl") {
					o = c.o
				}
			}
			if o == nil {
				return
			}
			s.mem[Cell{o, "#n"}] = Int{u.zero}
			s.mem[Cell{o, "#x"}] = Int{u.zero}
			s.mem[Cell{o, "#p"}] = Ptr{nk: nnNil}
		}
	case "result":
		// taken over at the end, after the rules have seen the call
		if o := allocObj(s); o != nil {
			s.mem[Cell{o, "#rp"}], s.mem[Cell{o, "#rn"}] = ev.args[0], ev.args[1]
		}
	case "end":
		o := allocObj(s)
		if o == nil {
			return
		}
		if ev.name == "Free" {
			s.mem[Cell{o, "#n"}] = Int{u.zero}
			return
		}
		p, ok := s.mem[Cell{o, "#rp"}].(Ptr)
		n, ok2 := s.mem[Cell{o, "#rn"}].(Int)
		delete(s.mem, Cell{o, "#rp"})
		delete(s.mem, Cell{o, "#rn"})
		if !ok || !ok2 {
			delete(s.mem, Cell{o, "#n"})
			s.mem[Cell{o, "#p"}] = Ptr{unk: true}
			return
		}
		old, ok := s.mem[Cell{o, "#n"}].(Int)
		switch {
		case !ok:
		case s.proveLe(n.l, old.l):
		case s.proveLe(old.l, n.l):
			s.mem[Cell{o, "#n"}] = n
		default:
			delete(s.mem, Cell{o, "#n"})
		}
		if q, ok := s.mem[Cell{o, "#p"}].(Ptr); !ok || !sameBlock(s, q, p.base, p.tg) {
			s.mem[Cell{o, "#x"}] = n
		}
		s.mem[Cell{o, "#p"}] = p
	case "store":
		for _, t := range ev.ptr.tg {
			c := Cell{t.o, "#cn"}
			if _, ok := s.mem[c]; !ok || x.isHarness(x.ctx.fn) {
				continue
			}
			s.mem[c] = Int{u.zero}
		}
	case "copy":
		o := allocObj(s)
		for _, t := range ev.sl.tg {
			c := Cell{t.o, "#cn"}
			if _, ok := s.mem[c]; !ok {
				continue
			}
			s.mem[c] = Int{u.zero}
			if o == nil || len(ev.sl.tg) > 1 || t.o.summary || t.off == nil || !s.proveEq(t.off, u.zero) {
				continue
			}
			p, ok := s.mem[Cell{o, "#p"}].(Ptr)
			el := int64(1)
			if len(ev.sl2.tg) == 0 || !ok || !sameBlock(s, p, ev.sl2.base, ev.sl2.tg) {
				continue
			}
			s.mem[c] = Int{u.scale(ev.ln, el)}
		}
	}
}

// sameBlock: does base/tg denote the start of the block p leads to?
func sameBlock(s *State, p Ptr, base Sym, tg []Tgt) bool {
	u := s.e.u
	for _, t := range tg {
		if t.off == nil || !s.proveEq(t.off, u.zero) {
			return false
		}
	}
	if base != noSym && p.base != noSym {
		return base == p.base || s.proveEq(u.s(base), u.s(p.base))
	}
	return len(p.tg) == 1 && len(tg) == 1 && p.tg[0].o == tg[0].o && !tg[0].o.summary
}

func observeC05(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		o := allocObj(s)
		switch ev.kind {
		case "result":
			if ev.name != "Reallocate" {
				return
			}
			p, ok := ev.args[0].(Ptr)
			n, ok2 := ev.args[1].(Int)
			if o == nil {
				return
			}
			big := ok && ok2
			if big && !s.proveLe(n.l, u.zero) {
				xt, off := s.extOfPtr(p.tg, p.base)
				big = !p.unk && xt != nil && s.prove(u.sub(u.add(n.l, off), xt))
				if q, ok := s.mem[Cell{o, "#p"}].(Ptr); !big && ok && sameBlock(s, q, p.base, p.tg) {
					sz, ok := s.mem[Cell{o, "#x"}].(Int)
					big = ok && s.proveLe(n.l, sz.l)
				}
			}
			r.ob("the memory is as large as requested", "Reallocate", big, "fewer bytes may be returned than were requested")
			old, ok := s.mem[Cell{o, "#n"}].(Int)
			q, ok2 := s.mem[Cell{o, "#p"}].(Ptr)
			keep := ok && s.proveLe(old.l, u.zero)
			if !keep && ok && ok2 && !p.unk && len(p.tg) > 0 {
				keep = sameBlock(s, q, p.base, p.tg)
				if !keep {
					keep = true
					for _, t := range p.tg {
						cn, ok := s.mem[Cell{t.o, "#cn"}].(Int)
						keep = keep && ok && t.off != nil && s.proveEq(t.off, u.zero) && s.proveLe(old.l, cn.l)
					}
				}
			}
			r.ob("the memory starts with what was there before", "Reallocate", keep, "bytes that were written to the memory before may be missing")
		case "nilderef", "panic":
			if !x.isHarness(x.ctx.fn) {
				r.ob("the memory is as large as requested", "Reallocate", false, "no memory is returned: "+r.at(ev))
			}
		case "store", "copy":
			if o == nil || x.isHarness(x.ctx.fn) {
				return
			}
			tg := ev.ptr.tg
			if ev.kind == "copy" {
				tg = ev.sl.tg
			}
			q, _ := s.mem[Cell{o, "#p"}].(Ptr)
			for _, t := range tg {
				if !t.o.raw {
					continue
				}
				own := true
				for _, g := range q.tg {
					own = own && g.o != t.o
				}
				r.ob("the memory starts with what was there before", shortFn(x.ctx.fn)+" writes", own, "the memory in use is written in "+r.at(ev))
			}
		}
	}
}
