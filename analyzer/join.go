package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------------------
// Substitution of symbols.

type subst struct {
	u *Univ
	m map[Sym]*Lin // symbol -> replacement
	n map[Sym]Sym  // same, when the replacement is a symbol (for ids and float symbols)
}

func (sb *subst) lin(l *Lin) *Lin {
	if l == nil {
		return nil
	}
	hit := false
	for _, t := range l.ts {
		if _, ok := sb.m[t.s]; ok {
			hit = true
		} else {
			for _, d := range sb.u.info(t.s).deps {
				if _, ok := sb.m[d]; ok {
					hit = true
				}
			}
		}
	}
	if !hit {
		return l
	}
	r := sb.u.k(l.c)
	for _, t := range l.ts {
		r = sb.u.comb(1, r, t.k, sb.symLin(t.s))
	}
	return r
}

func (sb *subst) symLin(s Sym) *Lin {
	if r, ok := sb.m[s]; ok {
		return r
	}
	in := sb.u.info(s)
	if in.op == "" {
		return sb.u.s(s)
	}
	hit := false
	for _, d := range in.deps {
		if _, ok := sb.m[d]; ok {
			hit = true
		}
	}
	if !hit {
		return sb.u.s(s)
	}
	args := make([]*Lin, len(in.args))
	for i, a := range in.args {
		args[i] = sb.lin(a)
	}
	return sb.u.mkOp(in.op, in, args)
}

// mkOp rebuilds an op with new arguments.
func (u *Univ) mkOp(op string, like *symInfo, args []*Lin) *Lin {
	switch op {
	case "mul":
		return u.mul(args[0], args[1])
	case "div":
		return u.div(args[0], args[1])
	case "rem":
		return u.rem(args[0], args[1])
	}
	s := u.opSym(op, like.objs, args...)
	in := u.info(s)
	in.hasLo, in.lo, in.hasHi, in.hi = like.hasLo, like.lo, like.hasHi, like.hi
	if in.meta == nil {
		in.meta = like.meta
	}
	if in.desc == "" {
		in.desc = like.desc
	}
	return u.s(s)
}

func (sb *subst) sym(s Sym) Sym {
	if s == noSym {
		return s
	}
	if r, ok := sb.n[s]; ok {
		return r
	}
	if sb.u.info(s).op != "" {
		l := sb.symLin(s)
		if r, c, ok := l.single(); ok && c == 0 {
			return r
		}
		return noSym
	}
	return s
}

func (sb *subst) term(t *Term) *Term {
	switch t.op {
	case "sym":
		if r := sb.sym(t.sym); r != t.sym && r != noSym {
			return sb.u.tsym(r)
		}
		return t
	case "lin":
		if l := sb.lin(t.lin); l != t.lin {
			return sb.u.tlin(l)
		}
		return t
	}
	ch := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = sb.term(a)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return sb.u.term(t.op, args...)
}

func (sb *subst) tgts(ts []Tgt) []Tgt {
	out := make([]Tgt, len(ts))
	for i, t := range ts {
		t.off = sb.lin(t.off)
		out[i] = t
	}
	return normTgts(out)
}

func (sb *subst) cond(c *Cond) *Cond {
	if c == nil {
		return nil
	}
	n := *c
	n.l = sb.lin(c.l)
	if c.t != nil {
		n.t = sb.term(c.t)
	}
	if c.u != nil {
		n.u = sb.term(c.u)
	}
	n.x = sb.cond(c.x)
	if c.op == "sym" {
		n.sym = sb.sym(c.sym)
	}
	if c.a != nil {
		n.a = sb.av(c.a)
	}
	return &n
}

func (sb *subst) av(a AV) AV {
	switch x := a.(type) {
	case Int:
		return Int{sb.lin(x.l)}
	case Flt:
		return Flt{sb.term(x.t)}
	case Bool:
		return Bool{x.k, sb.cond(x.c)}
	case Ptr:
		x.tg = sb.tgts(x.tg)
		x.id = sb.sym(x.id)
		x.base = sb.sym(x.base)
		return x
	case Slice:
		x.tg = sb.tgts(x.tg)
		x.ln, x.cp = sb.lin(x.ln), sb.lin(x.cp)
		x.base = sb.sym(x.base)
		return x
	case Iface:
		na := make([]Alt, len(x.alts))
		for i, al := range x.alts {
			na[i] = Alt{al.t, sb.av(al.v)}
		}
		x.alts = na
		x.id = sb.sym(x.id)
		return x
	case Fun:
		nf := make([]FnVal, len(x.fs))
		for i, fv := range x.fs {
			nb := make([]AV, len(fv.binds))
			for j, b := range fv.binds {
				nb[j] = sb.av(b)
			}
			nf[i] = FnVal{fv.fn, nb, sb.av(fv.bound)}
		}
		x.fs = nf
		return x
	case Agg:
		nf := make([]AV, len(x.fs))
		for i, e := range x.fs {
			nf[i] = sb.av(e)
		}
		x.fs = nf
		return x
	case Opq:
		x.id = sb.sym(x.id)
		return x
	}
	return a
}

// apply rewrites the whole state.
func (sb *subst) apply(s *State) {
	for k, v := range s.regs {
		s.regs[k] = sb.av(v)
	}
	for k, v := range s.mem {
		s.mem[k] = sb.av(v)
	}
	for i, d := range s.defers {
		if i == 0 {
			s.defers = append([]deferRec{}, s.defers...)
		}
		na := make([]AV, len(d.args))
		for j, a := range d.args {
			na[j] = sb.av(a)
		}
		s.defers[i].args = na
		s.defers[i].fn = sb.av(d.fn)
	}
	fs := s.facts
	s.facts = nil
	s.idx, s.cache = nil, nil
	for _, f := range fs {
		n := sb.lin(f)
		if _, c := n.isConst(); !c {
			s.facts, _ = insLin(s.facts, n)
		}
	}
	ns := s.nes
	s.nes = nil
	for _, f := range ns {
		n := sb.lin(f)
		if _, c := n.isConst(); !c {
			s.nes, _ = insLin(s.nes, n)
		}
	}
	nf := map[Sym]bool{}
	for k, v := range s.nilf {
		if n := sb.sym(k); n != noSym {
			nf[n] = v
		}
	}
	s.nilf = nf
	sg := map[*Term]uint8{}
	for k, v := range s.sg {
		sg[sb.term(k)] = v
	}
	s.sg = sg
}

// ---------------------------------------------------------------------------------------------------------------------
// Join.

type intPair struct {
	phi    Sym
	la, lb *Lin // nil: the slot does not exist on that side
	isNew  bool
}
type fltPair struct {
	phi    *Term
	ta, tb *Term
}
type idPair struct {
	phi    Sym
	na, nb int
	x, y   Sym
}

type joiner struct {
	e     *Engine
	u     *Univ
	h     *Point
	a, b  *State
	head  bool
	ints  []intPair
	iseen map[Sym]bool
	ipair map[[2]*Lin]Sym
	fpair map[[2]*Term]*Term
	dpair map[[2]Sym]Sym
	flts  []fltPair
	ids   []idPair
	offs  map[Sym]bool // merged offsets into raw memory
}

// dying reports whether a symbol may not survive into the joined state at a loop head: it is redefined by the loop.
func (j *joiner) dyingSym(s Sym) bool {
	if !j.head {
		return false
	}
	in := j.u.info(s)
	if in.at != nil && j.e.inLoop(in.at, j.h) && !(in.kind == skPhi && in.at == j.h && !strings.HasPrefix(in.key, "ghost:")) {
		return true
	}
	if strings.HasPrefix(in.key, "ghost:") {
		return j.e.inLoop(in.at, j.h)
	}
	for _, o := range in.objs {
		if o.at != nil && o.kind == okAlloc && !o.summary && j.e.inLoop(o.at, j.h) {
			return true
		}
	}
	for _, d := range in.deps {
		if j.dyingSym(d) {
			return true
		}
	}
	return false
}

func (j *joiner) dyingLin(l *Lin) bool {
	for _, t := range l.ts {
		if j.dyingSym(t.s) {
			return true
		}
	}
	return false
}

func (j *joiner) dyingTerm(t *Term) bool {
	if !j.head {
		return false
	}
	bad := false
	j.u.termSyms(t, func(s Sym) {
		if j.dyingSym(s) {
			bad = true
		}
	})
	return bad
}

func (j *joiner) dyingAV(a AV) bool {
	if !j.head {
		return false
	}
	bad := false
	j.u.avSyms(a, func(s Sym) {
		if j.dyingSym(s) {
			bad = true
		}
	})
	return bad
}

func (j *joiner) phi(slot string) (Sym, bool) {
	k := fmt.Sprintf("phi:%d:%s", j.h.id, slot)
	if s, ok := j.u.lookup(k); ok {
		return s, false
	}
	s := j.u.sym(skPhi, k, j.h)
	j.u.info(s).desc = "φ" + slot
	return s, true
}

func (j *joiner) lin(slot string, la, lb *Lin, typ types.Type) *Lin {
	if la == lb && !j.dyingLin(la) {
		if s, c, ok := la.single(); !(ok && c == 0 && j.u.info(s).kind == skPhi && j.u.info(s).at == j.h) {
			return la
		}
	}
	if la != nil && lb != nil {
		if s, ok := j.ipair[[2]*Lin{la, lb}]; ok {
			return j.u.s(s)
		}
	}
	if l := j.inStep(slot, la, lb); l != nil {
		return l
	}
	s, _ := j.phi(slot)
	j.ipair[[2]*Lin{la, lb}] = s
	in := j.u.info(s)
	if typ != nil && isUnsigned(typ) {
		in.hasLo, in.lo = true, 0
	}
	if strings.HasSuffix(slot, "#len") || strings.HasSuffix(slot, "#cap") || strings.HasSuffix(slot, extMark) {
		in.hasLo, in.lo = true, 0
	}
	if j.iseen[s] {
		return j.u.s(s)
	}
	j.iseen[s] = true
	isNew := true
	if x, c, ok := la.single(); ok && c == 0 && x == s {
		isNew = false
	}
	j.ints = append(j.ints, intPair{s, la, lb, isNew})
	return j.u.s(s)
}

// inStep finds an expression over an integer that is merged already whose values on the two sides are la and lb: an
// offset that moves in step with a counter.
func (j *joiner) inStep(slot string, la, lb *Lin) *Lin {
	if la == nil || lb == nil || !strings.Contains(slot, "@") || la.isBig() || lb.isBig() {
		return nil
	}
	try := func(from, other *Lin, pf, po *Lin, phi Sym) *Lin {
		y, c, ok := pf.single()
		if !ok || c != 0 {
			return nil
		}
		e := (&subst{u: j.u, m: map[Sym]*Lin{y: j.u.s(phi)}, n: map[Sym]Sym{y: phi}}).lin(from)
		if e == from && y != phi {
			return nil
		}
		if y == phi {
			has := false
			j.u.linSyms(from, func(z Sym) { has = has || z == phi })
			if !has {
				return nil
			}
		}
		o := (&subst{u: j.u, m: map[Sym]*Lin{phi: po}, n: map[Sym]Sym{}}).lin(e)
		b := (&subst{u: j.u, m: map[Sym]*Lin{phi: pf}, n: map[Sym]Sym{}}).lin(e)
		if o != other || b != from {
			return nil
		}
		dead := false
		j.u.linSyms(e, func(z Sym) {
			op := j.u.info(z).op
			if z != phi && op != "mul" && op != "div" && op != "rem" {
				dead = dead || j.iseen[z] || j.dyingSym(z)
			}
		})
		if dead {
			return nil
		}
		return e
	}
	for _, p := range j.ints {
		if p.la == nil || p.lb == nil || p.la == p.lb {
			continue
		}
		if e := try(lb, la, p.lb, p.la, p.phi); e != nil {
			return e
		}
		if e := try(la, lb, p.la, p.lb, p.phi); e != nil {
			return e
		}
	}
	return nil
}

// ghostInts merges integers of ghost state (of a search), by which offsets are expressed.
func (j *joiner) ghostInts() {
	var cs []Cell
	for c, v := range j.a.mem {
		if _, ok := v.(Int); ok && (strings.HasPrefix(c.path, "#r") || strings.HasPrefix(c.path, "#fill")) {
			if _, ok := j.b.mem[c].(Int); ok {
				cs = append(cs, c)
			}
		}
	}
	sort.Slice(cs, func(i, k int) bool {
		if cs[i].o.id != cs[k].o.id {
			return cs[i].o.id < cs[k].o.id
		}
		return cs[i].path < cs[k].path
	})
	for _, c := range cs {
		j.av(j.e.slotOfCell(c), j.a.mem[c], j.b.mem[c])
	}
}

func (j *joiner) one(slot string, v AV, side int) AV {
	// the slot exists on one side only; dying parts become unknown
	if !j.dyingAV(v) {
		return v
	}
	sb := &subst{u: j.u, m: map[Sym]*Lin{}, n: map[Sym]Sym{}}
	k := 0
	j.u.avSyms(v, func(s Sym) {
		if _, ok := sb.m[s]; ok || !j.dyingSym(s) {
			return
		}
		in := j.u.info(s)
		if in.op == "mul" || in.op == "div" || in.op == "rem" {
			return // rebuilt from its arguments
		}
		p, _ := j.phi(fmt.Sprintf("%s#x%d", slot, k))
		k++
		if !j.iseen[p] && in.op == "" {
			j.iseen[p] = true
			ip := intPair{phi: p, isNew: true}
			if side == 0 {
				ip.la = j.u.s(s)
			} else {
				ip.lb = j.u.s(s)
			}
			j.ints = append(j.ints, ip)
		}
		pi := j.u.info(p)
		pi.hasLo, pi.lo, pi.hasHi, pi.hi = in.hasLo, in.lo, in.hasHi, in.hi
		sb.m[s] = j.u.s(p)
		sb.n[s] = p
	})
	return sb.av(v)
}

func (j *joiner) tgts(slot string, x, y []Tgt) []Tgt {
	type ok struct {
		o *Obj
		p string
	}
	m := map[ok][2]*Tgt{}
	var order []ok
	put := func(ts []Tgt, side int) {
		for i := range ts {
			t := ts[i]
			k := ok{t.o, t.path}
			e, has := m[k]
			if !has {
				order = append(order, k)
			}
			if e[side] == nil {
				e[side] = &t
			} else if e[side].off != t.off {
				// several offsets on one side: unknown offset
				un, _ := j.phi(slot + fmt.Sprintf("@%d%s#u", t.o.id, t.path))
				q := t
				q.off = j.u.s(un)
				e[side] = &q
			}
			m[k] = e
		}
	}
	put(x, 0)
	put(y, 1)
	var out []Tgt
	for _, k := range order {
		e := m[k]
		switch {
		case e[0] == nil:
			t := *e[1]
			if t.off != nil && j.dyingLin(t.off) {
				t.off = j.one(slot+fmt.Sprintf("@%d%s", k.o.id, k.p), Int{t.off}, 1).(Int).l
			}
			j.noteOff(t)
			out = append(out, t)
		case e[1] == nil:
			j.noteOff(*e[0])
			out = append(out, *e[0])
		default:
			t := *e[0]
			if t.off != nil && e[1].off != nil {
				t.off = j.lin(slot+fmt.Sprintf("@%d%s", k.o.id, k.p), e[0].off, e[1].off, nil)
				j.noteOff(t)
			} else if t.off == nil {
				t.off = nil
			}
			out = append(out, t)
		}
	}
	return normTgts(out)
}

func (j *joiner) noteOff(t Tgt) {
	if t.o.raw && t.off != nil && t.off.c == 0 && len(t.off.ts) == 1 {
		if j.offs == nil {
			j.offs = map[Sym]bool{}
		}
		j.offs[t.off.ts[0].s] = true
	}
}

func (j *joiner) id(slot string, x, y Sym, na, nb int) Sym {
	if x == y && (x == noSym || !j.dyingSym(x)) {
		if x == noSym {
			return x
		}
		if in := j.u.info(x); !(in.kind == skPhi && in.at == j.h) {
			return x
		}
	}
	if s, ok := j.dpair[[2]Sym{x, y}]; ok {
		if na != 0 || nb != 0 {
			j.ids = append(j.ids, idPair{s, na, nb, x, y})
		}
		return s
	}
	s, _ := j.phi(slot + "#id")
	j.dpair[[2]Sym{x, y}] = s
	j.ids = append(j.ids, idPair{s, na, nb, x, y})
	return s
}

func nkJoin(a, b uint8) uint8 {
	if a == b {
		return a
	}
	return nnMaybe
}

func (j *joiner) av(slot string, x, y AV) AV {
	if x == nil {
		return j.one(slot, y, 1)
	}
	if y == nil {
		return x
	}
	switch p := x.(type) {
	case Int:
		q, ok := y.(Int)
		if !ok {
			return nil
		}
		return Int{j.lin(slot, p.l, q.l, j.e.slotType[slot])}
	case Flt:
		q, ok := y.(Flt)
		if !ok {
			return nil
		}
		if p.t == q.t && !j.dyingTerm(p.t) {
			if !(p.t.op == "sym" && j.u.info(p.t.sym).kind == skPhi && j.u.info(p.t.sym).at == j.h) {
				return p
			}
		}
		if t, ok := j.fpair[[2]*Term{p.t, q.t}]; ok {
			return Flt{t}
		}
		if p.t.op == "neg" && q.t.op == "neg" {
			// the negation of what is merged (perhaps elsewhere)
			if f, ok := j.av(slot+"~neg", Flt{p.t.args[0]}, Flt{q.t.args[0]}).(Flt); ok {
				return Flt{j.u.term("neg", f.t)}
			}
		}
		s, _ := j.phi(slot)
		t := j.u.tsym(s)
		j.fpair[[2]*Term{p.t, q.t}] = t
		j.flts = append(j.flts, fltPair{t, p.t, q.t})
		j.e.notePhi(s, p.t)
		j.e.notePhi(s, q.t)
		return Flt{t}
	case Bool:
		q, ok := y.(Bool)
		if !ok {
			return nil
		}
		if p.k == q.k {
			if p.k != 0 {
				return Bool{k: p.k}
			}
			if condEq(p.c, q.c) && !j.dyingAV(p) {
				return p
			}
		}
		return Bool{}
	case Ptr:
		q, ok := y.(Ptr)
		if !ok {
			return nil
		}
		na, nb := j.a.nilOf(x), j.b.nilOf(y)
		return Ptr{tg: j.tgts(slot, p.tg, q.tg), nk: nkJoin(p.nk, q.nk), unk: p.unk || q.unk, id: j.id(slot, p.id, q.id, na, nb), base: j.id(slot+"^", p.base, q.base, 0, 0)}
	case Slice:
		q, ok := y.(Slice)
		if !ok {
			return nil
		}
		r := Slice{tg: j.tgts(slot, p.tg, q.tg), nk: nkJoin(p.nk, q.nk), unk: p.unk || q.unk, base: j.id(slot+"^", p.base, q.base, 0, 0)}
		r.ln = j.lin(slot+"#len", p.ln, q.ln, nil)
		r.cp = j.lin(slot+"#cap", p.cp, q.cp, nil)
		return r
	case Iface:
		q, ok := y.(Iface)
		if !ok {
			return nil
		}
		na, nb := j.a.nilOf(x), j.b.nilOf(y)
		r := Iface{nk: nkJoin(p.nk, q.nk), unk: p.unk || q.unk, id: j.id(slot, p.id, q.id, na, nb)}
		used := make([]bool, len(q.alts))
		for _, al := range p.alts {
			found := false
			for k, bl := range q.alts {
				if !used[k] && types.Identical(al.t, bl.t) {
					used[k], found = true, true
					v := j.av(slot+"/"+shortType(al.t), al.v, bl.v)
					r.alts = append(r.alts, Alt{al.t, v})
					break
				}
			}
			if !found {
				r.alts = append(r.alts, al)
			}
		}
		for k, bl := range q.alts {
			if !used[k] {
				r.alts = append(r.alts, Alt{bl.t, j.one(slot+"/"+shortType(bl.t), bl.v, 1)})
			}
		}
		sort.SliceStable(r.alts, func(a, b int) bool { return shortType(r.alts[a].t) < shortType(r.alts[b].t) })
		return r
	case Fun:
		q, ok := y.(Fun)
		if !ok {
			return nil
		}
		r := Fun{nk: nkJoin(p.nk, q.nk), unk: p.unk || q.unk}
		used := make([]bool, len(q.fs))
		for _, fv := range p.fs {
			found := false
			for k, gv := range q.fs {
				if !used[k] && fv.fn == gv.fn && len(fv.binds) == len(gv.binds) {
					used[k], found = true, true
					n := FnVal{fn: fv.fn}
					for i := range fv.binds {
						n.binds = append(n.binds, j.av(fmt.Sprintf("%s/%s/%d", slot, fv.fn.Name(), i), fv.binds[i], gv.binds[i]))
					}
					if fv.bound != nil {
						n.bound = j.av(slot+"/"+fv.fn.Name()+"/b", fv.bound, gv.bound)
					}
					r.fs = append(r.fs, n)
					break
				}
			}
			if !found {
				r.fs = append(r.fs, fv)
			}
		}
		for k, gv := range q.fs {
			if !used[k] {
				n := FnVal{fn: gv.fn}
				for i := range gv.binds {
					n.binds = append(n.binds, j.one(fmt.Sprintf("%s/%s/%d", slot, gv.fn.Name(), i), gv.binds[i], 1))
				}
				if gv.bound != nil {
					n.bound = j.one(slot+"/"+gv.fn.Name()+"/b", gv.bound, 1)
				}
				r.fs = append(r.fs, n)
			}
		}
		return r
	case Agg:
		q, ok := y.(Agg)
		if !ok || len(p.fs) != len(q.fs) {
			return nil
		}
		r := Agg{fs: make([]AV, len(p.fs))}
		for i := range p.fs {
			r.fs[i] = j.av(fmt.Sprintf("%s.%d", slot, i), p.fs[i], q.fs[i])
		}
		return r
	case Opq:
		q, ok := y.(Opq)
		if !ok {
			return nil
		}
		return Opq{j.id(slot, p.id, q.id, 0, 0)}
	}
	return x
}

// zone is a difference bound matrix over a set of symbols; index 0 is the constant zero.
const zInf = int64(1) << 60

type zone struct {
	n   int
	pos map[Sym]int
	sy  []Sym
	m   []int64
}

func (e *Engine) zoneOf(s *State, dims []Sym, extra []*Lin) *zone {
	u := e.u
	z := &zone{pos: map[Sym]int{}}
	z.sy = append(z.sy, noSym)
	addDim := func(x Sym) {
		if _, ok := z.pos[x]; !ok {
			z.pos[x] = len(z.sy)
			z.sy = append(z.sy, x)
		}
	}
	for _, d := range dims {
		addDim(d)
	}
	facts := append(append([]*Lin{}, s.facts...), extra...)
	for _, f := range facts {
		for _, t := range f.ts {
			addDim(t.s)
		}
	}
	z.n = len(z.sy)
	z.m = make([]int64, z.n*z.n)
	for i := range z.m {
		z.m[i] = zInf
	}
	for i := 0; i < z.n; i++ {
		z.m[i*z.n+i] = 0
	}
	put := func(i, j int, c int64) { // i - j <= c
		if c < z.m[i*z.n+j] {
			z.m[i*z.n+j] = c
		}
	}
	edge := func(f *Lin) bool {
		switch len(f.ts) {
		case 1:
			t := f.ts[0]
			if t.k == 1 {
				put(z.pos[t.s], 0, -f.c)
			} else if t.k == -1 {
				put(0, z.pos[t.s], -f.c)
			}
			return true
		case 2:
			a, b := f.ts[0], f.ts[1]
			if a.k == 1 && b.k == -1 {
				put(z.pos[a.s], z.pos[b.s], -f.c)
				return true
			} else if a.k == -1 && b.k == 1 {
				put(z.pos[b.s], z.pos[a.s], -f.c)
				return true
			}
		}
		return false
	}
	for _, d := range z.sy[1:] {
		in := u.info(d)
		if in.hasLo {
			put(0, z.pos[d], -in.lo)
		}
		if in.hasHi && in.hi < 1<<40 {
			put(z.pos[d], 0, in.hi)
		}
	}
	var multi []*Lin
	for _, f := range facts {
		if !edge(f) {
			multi = append(multi, f)
		}
	}
	z.close()
	// bounds of the other symbols turn longer facts into differences
	for round := 0; round < 2 && len(multi) > 0; round++ {
		ch := false
		for _, f := range multi {
			for pi, pa := range f.ts {
				if pa.k != 1 && pa.k != -1 {
					continue
				}
				// single: pa.k*s <= -(c + sum others lower)
				rest := f.c
				ok := true
				for qi, q := range f.ts {
					if qi == pi {
						continue
					}
					b, has := z.bound(q)
					if !has {
						ok = false
						break
					}
					rest += b
				}
				if ok {
					i, jx := z.pos[pa.s], 0
					if pa.k < 0 {
						i, jx = 0, i
					}
					if -rest < z.m[i*z.n+jx] {
						put(i, jx, -rest)
						ch = true
					}
				}
				for qi, qa := range f.ts {
					if qi == pi || !(pa.k == 1 && qa.k == -1) {
						continue
					}
					rest := f.c
					ok := true
					for ri, r := range f.ts {
						if ri == pi || ri == qi {
							continue
						}
						b, has := z.bound(r)
						if !has {
							ok = false
							break
						}
						rest += b
					}
					if ok && -rest < z.m[z.pos[pa.s]*z.n+z.pos[qa.s]] {
						put(z.pos[pa.s], z.pos[qa.s], -rest)
						ch = true
					}
				}
			}
		}
		if !ch {
			break
		}
		z.close()
	}
	return z
}

// bound returns the least value of k*s.
func (z *zone) bound(t lt) (int64, bool) {
	i := z.pos[t.s]
	if t.k > 0 {
		b := z.m[0*z.n+i] // 0 - s <= b  => s >= -b
		if b >= zInf {
			return 0, false
		}
		return -b * t.k, true
	}
	b := z.m[i*z.n+0] // s <= b
	if b >= zInf {
		return 0, false
	}
	return b * t.k, true
}

func (z *zone) close() {
	n := z.n
	for k := 0; k < n; k++ {
		rk := z.m[k*n : k*n+n]
		for i := 0; i < n; i++ {
			ik := z.m[i*n+k]
			if ik >= zInf {
				continue
			}
			ri := z.m[i*n : i*n+n]
			for j := 0; j < n; j++ {
				if rk[j] < zInf {
					if v := ik + rk[j]; v < ri[j] {
						ri[j] = v
					}
				}
			}
		}
	}
}

func (z *zone) get(a, b Sym) int64 { // a - b <= result; noSym is zero
	ia, ib := 0, 0
	if a != noSym {
		p, ok := z.pos[a]
		if !ok {
			return zInf
		}
		ia = p
	}
	if b != noSym {
		p, ok := z.pos[b]
		if !ok {
			return zInf
		}
		ib = p
	}
	return z.m[ia*z.n+ib]
}

func (e *Engine) slotOfReg(r Reg) string { return fmt.Sprintf("r%d.%s", r.c.id, r.v.Name()) }
func (e *Engine) slotOfCell(c Cell) string {
	return fmt.Sprintf("m%d%s", c.o.id, c.path)
}

// joinStates joins b into a at point h. head: h is a loop head and b may come from a back edge. widen: keep only facts
// of a.
func (e *Engine) joinStates(h *Point, a, b *State, head, widen bool) *State {
	u := e.u
	if a.dead {
		return b
	}
	if b.dead {
		return a
	}
	j := &joiner{e: e, u: u, h: h, a: a, b: b, head: head, iseen: map[Sym]bool{}, ipair: map[[2]*Lin]Sym{}, fpair: map[[2]*Term]*Term{}, dpair: map[[2]Sym]Sym{}}
	r := newState(e)

	// registers
	keys := make([]Reg, 0, len(a.regs))
	for k := range a.regs {
		keys = append(keys, k)
	}
	isInt := func(k Reg) bool { _, ok := a.regs[k].(Int); return ok }
	sort.Slice(keys, func(i, k int) bool {
		if p, q := isInt(keys[i]), isInt(keys[k]); p != q {
			return p // offsets are expressed by them
		}
		if keys[i].c.id != keys[k].c.id {
			return keys[i].c.id < keys[k].c.id
		}
		return keys[i].v.Name() < keys[k].v.Name()
	})
	ghosts := false
	for _, k := range keys {
		if !ghosts && !isInt(k) {
			ghosts = true
			j.ghostInts()
		}
		vb, ok := b.regs[k]
		if !ok {
			continue // only defined on one side: not live
		}
		slot := e.slotOfReg(k)
		e.noteSlotType(slot, k.v.Type())
		if v := j.av(slot, a.regs[k], vb); v != nil {
			r.regs[k] = v
		}
	}
	// memory
	cset := map[Cell]bool{}
	for c := range a.mem {
		cset[c] = true
	}
	for c := range b.mem {
		cset[c] = true
	}
	cells := make([]Cell, 0, len(cset))
	for c := range cset {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, k int) bool {
		if cells[i].o.id != cells[k].o.id {
			return cells[i].o.id < cells[k].o.id
		}
		return cells[i].path < cells[k].path
	})
	for _, c := range cells {
		va, oka := a.mem[c]
		vb, okb := b.mem[c]
		if !oka && a.isLive(c.o) {
			va = e.defaultCell(a, c)
		}
		if !okb && b.isLive(c.o) {
			vb = e.defaultCell(b, c)
		}
		if c.path == liveMark {
			r.mem[c] = Int{u.zero}
			continue
		}
		if c.path == verMark {
			if va == nil {
				va = Int{u.zero}
			}
			if vb == nil {
				vb = Int{u.zero}
			}
		}
		if va == nil && a.isLive(c.o) || vb == nil && b.isLive(c.o) {
			continue // unknown on one side
		}
		if v := j.av(e.slotOfCell(c), va, vb); v != nil {
			r.mem[c] = v
		}
	}
	// defers: identical lists by key
	if len(a.defers) == len(b.defers) {
		for i := range a.defers {
			d := deferRec{ctx: a.defers[i].ctx, in: a.defers[i].in}
			d.fn = j.av(fmt.Sprintf("d%d.fn", i), a.defers[i].fn, b.defers[i].fn)
			for k := range a.defers[i].args {
				if k < len(b.defers[i].args) {
					d.args = append(d.args, j.av(fmt.Sprintf("d%d.%d", i, k), a.defers[i].args[k], b.defers[i].args[k]))
				}
			}
			r.defers = append(r.defers, d)
		}
	} else {
		r.defers = a.defers
	}
	for k, v := range a.tags {
		if w, ok := b.tags[k]; ok && w == v {
			r.tags[k] = v
		} else if e.tagJoin != nil {
			if x := e.tagJoin(k, v, b.tags[k]); x != "" {
				r.tags[k] = x
			}
		}
	}
	if e.tagJoin != nil {
		for k, v := range b.tags {
			if _, ok := a.tags[k]; !ok {
				if x := e.tagJoin(k, "", v); x != "" {
					r.tags[k] = x
				}
			}
		}
	}

	// derived products of merged symbols
	for round := 0; round < 2; round++ {
		j.derive()
	}

	// linear facts
	live := r.liveSyms()
	for _, p := range j.ints {
		if u.info(p.phi).op != "" {
			live[p.phi] = true
		}
	}
	okSyms := func(f *Lin) bool {
		for _, t := range f.ts {
			if j.dyingSym(t.s) {
				return false
			}
		}
		return true
	}
	ax, bx := a.clone(), b.clone()
	for _, p := range j.ints {
		if p.la != nil {
			ax.addEq(u.s(p.phi), p.la)
		}
		if p.lb != nil {
			bx.addEq(u.s(p.phi), p.lb)
		}
	}
	// symbols that only one side knows stand for parts of objects the other side does not have: any value will do there
	free := func(s *State, own, other map[Sym]bool) {
		for sy := range live {
			if own[sy] || !other[sy] || u.info(sy).op != "" || j.dyingSym(sy) {
				continue
			}
			in := u.info(sy)
			v := int64(-1)
			if in.hasLo {
				v = in.lo
			} else if in.hasHi && in.hi < v {
				v = in.hi
			}
			s.addEq(u.s(sy), u.k(v))
		}
	}
	owned := func(s *State) map[Sym]bool {
		m := s.liveSyms()
		for _, f := range s.facts {
			u.linSyms(f, func(x Sym) { m[x] = true })
		}
		for _, f := range s.nes {
			u.linSyms(f, func(x Sym) { m[x] = true })
		}
		return m
	}
	for _, p := range j.ids {
		if p.x != noSym {
			ax.addEq(u.s(p.phi), u.s(p.x))
		}
		if p.y != noSym {
			bx.addEq(u.s(p.phi), u.s(p.y))
		}
	}
	oa, ob := owned(ax), owned(bx)
	free(ax, oa, ob)
	free(bx, ob, oa)
	ax.dead, bx.dead = false, false
	phiSet := map[Sym]bool{}
	newPhi := map[Sym]bool{}
	for _, p := range j.ints {
		phiSet[p.phi] = true
		if p.isNew {
			newPhi[p.phi] = true
		}
	}
	// symbols that are new to a
	fresh := map[Sym]bool{}
	for sy := range live {
		if !oa[sy] && u.info(sy).op == "" && !j.dyingSym(sy) {
			fresh[sy] = true
		}
	}
	fkey := map[*Lin]bool{}
	keep := func(f *Lin) {
		if !fkey[f] {
			fkey[f] = true
			r.addFact(f)
		}
	}
	// (a) facts of a that b entails
	for _, f := range a.facts {
		if !okSyms(f) {
			continue
		}
		if !allLive(u, f, live) {
			continue
		}
		mentionsPhi := false
		for _, t := range f.ts {
			if phiSet[t.s] {
				mentionsPhi = true
			}
		}
		if !mentionsPhi && hasLin(b.facts, f) {
			keep(f)
		} else if bx.prove(f) {
			keep(f)
		}
	}
	if !widen || len(fresh) > 0 {
		for _, f := range b.facts {
			if fkey[f] || !okSyms(f) || !allLive(u, f, live) {
				continue
			}
			if widen {
				hit := false
				for _, t := range f.ts {
					hit = hit || fresh[t.s]
				}
				if !hit {
					continue
				}
			}
			if ax.prove(f) {
				keep(f)
			}
		}
	}
	// facts about what became a new symbol
	if len(newPhi) > 0 {
		for side, st := range []*State{b, a} {
			sub := map[Sym]*Lin{}
			for _, p := range j.ints {
				l := p.lb
				if side == 1 {
					l = p.la
				}
				if !newPhi[p.phi] || l == nil {
					continue
				}
				if sy, c, ok := l.single(); ok && sub[sy] == nil {
					sub[sy] = u.addc(u.s(p.phi), -c)
				}
			}
			for _, f := range st.facts {
				if len(f.ts) < 3 {
					continue
				}
				g := u.k(f.c)
				hit := false
				for _, t := range f.ts {
					if l := sub[t.s]; l != nil {
						hit = true
						g = u.add(g, u.scale(l, t.k))
					} else {
						g = u.add(g, u.scale(u.s(t.s), t.k))
					}
				}
				if hit && !fkey[g] && okSyms(g) && allLive(u, g, live) && bx.prove(g) && ax.prove(g) {
					keep(g)
				}
			}
		}
	}
	isLen := func(x Sym) bool { return strings.HasSuffix(u.info(x).desc, "#len") }
	isCounter := func(x Sym) bool {
		n := u.info(x).desc
		return strings.HasPrefix(n, "φr") && !strings.Contains(n, "#")
	}
	isMeasure := func(x Sym) bool { return isCounter(x) || isLen(x) }
	// (b) difference bounds
	if !widen || len(phiSet) > 0 || len(fresh) > 0 {
		dims := make([]Sym, 0, len(live))
		for s := range live {
			if !j.dyingSym(s) {
				dims = append(dims, s)
			}
		}
		sort.Slice(dims, func(i, k int) bool { return dims[i] < dims[k] })
		za := e.zoneOf(ax, dims, nil)
		zb := e.zoneOf(bx, dims, nil)
		multi := map[Sym]bool{}
		for _, p := range j.ints {
			if p.la != nil && len(p.la.ts) > 1 || p.lb != nil && len(p.lb.ts) > 1 {
				multi[p.phi] = true
			}
		}
		type cand struct {
			a, b Sym
			c    int64
		}
		var cands []cand
		all := append([]Sym{noSym}, dims...)
		for _, x := range all {
			for _, y := range all {
				if x == y {
					continue
				}
				inv := newPhi[x] || newPhi[y] || fresh[x] || fresh[y]
				ca, cb := za.get(x, y), zb.get(x, y)
				if widen && !inv {
					// a bound that a implies and b does not weaken, or only to a threshold
					if ca < zInf && cb < zInf && x != noSym && y != noSym && (phiSet[x] && isCounter(x) && isMeasure(y) || phiSet[y] && isCounter(y) && isMeasure(x)) {
						for _, c := range [...]int64{ca, -1, 0, 1} {
							if c >= ca && c >= cb {
								cands = append(cands, cand{x, y, c})
								break
							}
						}
					}
					continue
				}
				if ca >= zInf && cb >= zInf {
					continue
				}
				if (ca >= zInf || cb >= zInf) && !multi[x] && !multi[y] {
					continue
				}
				c := ca
				if cb > c {
					c = cb
				}
				if c >= zInf {
					c = min64(ca, cb)
				}
				cands = append(cands, cand{x, y, c})
			}
		}
		sort.SliceStable(cands, func(i, k int) bool { return abs64(cands[i].c) < abs64(cands[k].c) })
		zr := e.zoneOf(r, dims, nil)
		for _, cd := range cands {
			if zr.get(cd.a, cd.b) <= cd.c {
				continue
			}
			f := u.k(-cd.c)
			if cd.a != noSym {
				f = u.add(f, u.s(cd.a))
			}
			if cd.b != noSym {
				f = u.sub(f, u.s(cd.b))
			}
			if !(za.get(cd.a, cd.b) <= cd.c || ax.prove(f)) || !(zb.get(cd.a, cd.b) <= cd.c || bx.prove(f)) {
				continue
			}
			// implied by a single range axiom?
			if cd.a == noSym && cd.b != noSym {
				if in := u.info(cd.b); in.hasLo && -cd.c <= in.lo {
					continue
				}
			}
			keep(f)
			zr.add(cd.a, cd.b, cd.c)
		}
		// (c) triples a+b-c = const among merged symbols
		var ph []intPair
		for _, p := range j.ints {
			if p.la != nil && p.lb != nil && live[p.phi] && (!widen || true) && len(p.la.ts) <= 2 && u.info(p.phi).op == "" {
				ph = append(ph, p)
			}
		}
		// a+b = the same on both sides: what one gives the other takes
		if len(ph) <= 40 {
			for i := 0; i < len(ph); i++ {
				for k := i + 1; k < len(ph); k++ {
					if !ph[i].isNew && !ph[k].isNew {
						continue
					}
					l := u.add(ph[i].la, ph[k].la)
					m := u.add(ph[i].lb, ph[k].lb)
					if l != m {
						if len(l.ts) > 1 {
							l, m = m, l
						}
						if len(ph) > 8 || len(l.ts) != 1 || !(ax.proveEq(l, u.add(ph[i].la, ph[k].la)) && bx.proveEq(l, u.add(ph[i].lb, ph[k].lb))) {
							continue
						}
					}
					if len(l.ts) > 2 || l.isBig() || j.dyingLin(l) || !allLive(u, l, live) {
						// one of two lists grew: their sum may still be known by the loop's counter
						if l == m && isLen(ph[i].phi) && isLen(ph[k].phi) {
							var xs []Sym
							for x := range live {
								if isCounter(x) && !j.dyingSym(x) {
									xs = append(xs, x)
								}
							}
							sort.Slice(xs, func(a, b int) bool { return xs[a] < xs[b] })
							for _, x := range xs {
								for c := int64(-1); c <= 2; c++ {
									d := u.addc(u.sub(l, u.s(x)), -c)
									if ax.proveEq(d, u.zero) {
										if bx.proveEq(d, u.zero) {
											f := u.addc(u.sub(u.add(u.s(ph[i].phi), u.s(ph[k].phi)), u.s(x)), -c)
											keep(u.normFact(f))
											keep(u.normFact(u.scale(f, -1)))
										}
										break
									}
								}
							}
						}
						continue
					}
					f := u.sub(u.add(u.s(ph[i].phi), u.s(ph[k].phi)), l)
					g := u.scale(f, -1)
					if !r.prove(f) || !r.prove(g) {
						keep(u.normFact(f))
						keep(u.normFact(g))
					}
				}
			}
		}
		// a-b = the same on both sides: two that move in step
		if len(ph) <= 40 {
			for i := 0; i < len(ph); i++ {
				for k := i + 1; k < len(ph); k++ {
					if !ph[i].isNew && !ph[k].isNew || !isCounter(ph[i].phi) && !isCounter(ph[k].phi) {
						continue
					}
					l := u.sub(ph[i].la, ph[k].la)
					if l != u.sub(ph[i].lb, ph[k].lb) || len(l.ts) == 0 || len(l.ts) > 2 || l.isBig() || j.dyingLin(l) || !allLive(u, l, live) {
						continue
					}
					f := u.sub(u.sub(u.s(ph[i].phi), u.s(ph[k].phi)), l)
					keep(u.normFact(f))
					keep(u.normFact(u.scale(f, -1)))
				}
			}
		}
		// two lists that are filled in one loop: their lengths and the loop's counter
		{
			var lens, regs []intPair
			for _, p := range ph {
				switch n := u.info(p.phi).desc; {
				case strings.HasSuffix(n, "#len"):
					lens = append(lens, p)
				case strings.HasPrefix(n, "φr") && !strings.Contains(n, "#"):
					regs = append(regs, p)
				}
			}
			if len(lens) <= 10 && len(regs) <= 10 {
				for i := range lens {
					for k := i + 1; k < len(lens); k++ {
						for l := range regs {
							sum := u.sub(u.add(u.s(lens[i].phi), u.s(lens[k].phi)), u.s(regs[l].phi))
							sa := u.sub(u.add(lens[i].la, lens[k].la), regs[l].la)
							sbb := u.sub(u.add(lens[i].lb, lens[k].lb), regs[l].lb)
							_, oka := sa.isConst()
							_, okb := sbb.isConst()
							if !oka && !okb && (lens[i].isNew || lens[k].isNew || regs[l].isNew) {
								for c := int64(-1); c <= 2; c++ {
									if d := u.k(c); ax.proveEq(sa, d) {
										sa = d
										break
									}
								}
							}
							e.keepTriple(ax, bx, r, sum, sa, sbb, keep)
						}
					}
				}
			}
		}
		if len(ph) <= 14 {
			for i := 0; i < len(ph); i++ {
				for k := i + 1; k < len(ph); k++ {
					for l := 0; l < len(ph); l++ {
						if l == i || l == k {
							continue
						}
						sum := u.sub(u.add(u.s(ph[i].phi), u.s(ph[k].phi)), u.s(ph[l].phi))
						sa := u.sub(u.add(ph[i].la, ph[k].la), ph[l].la)
						sbb := u.sub(u.add(ph[i].lb, ph[k].lb), ph[l].lb)
						e.keepTriple(ax, bx, r, sum, sa, sbb, keep)
					}
				}
			}
		}
	}
	// offsets of records
	if len(e.templ) > 0 {
		ra, rb, rr := e.recordBounds(ax), e.recordBounds(bx), e.recordBounds(r)
		has := func(ls []*Lin, m *Lin) bool {
			for _, l := range ls {
				if l == m {
					return true
				}
			}
			return false
		}
		var syms []Sym
		for sy := range j.offs {
			if live[sy] {
				syms = append(syms, sy)
			}
		}
		for _, m := range rr {
			for _, st := range []*State{ax, bx} {
				for _, f := range st.facts {
					if len(f.ts) != len(m.ts)+1 {
						continue
					}
					if d := u.add(f, m); len(d.ts) == 1 && d.ts[0].k == 1 && d.c == 0 && !j.offs[d.ts[0].s] && live[d.ts[0].s] {
						syms = append(syms, d.ts[0].s)
					}
				}
			}
		}
		sort.Slice(syms, func(i, k int) bool { return syms[i] < syms[k] })
		for i, sy := range syms {
			if i > 0 && sy == syms[i-1] {
				continue
			}
			for _, m := range rr {
				f := u.sub(u.s(sy), m)
				if has(ra, m) && has(rb, m) && !r.prove(f) && ax.proveMul(f) && bx.proveMul(f) {
					keep(u.normFact(f))
				}
			}
		}
	}
	// (d) products
	if len(e.templ)+len(e.templLe) > 0 {
		e.joinTemplates(ax, bx, r, keep)
	}
	// disequalities
	for _, f := range a.nes {
		if okSyms(f) && allLive(u, f, live) && (hasLin(b.nes, f) && !mentions(f, phiSet) || bx.provesNe(f)) {
			r.nes, _ = insLin(r.nes, f)
		}
	}
	if !widen {
		for _, f := range b.nes {
			if okSyms(f) && allLive(u, f, live) && ax.provesNe(f) {
				r.nes, _ = insLin(r.nes, f)
			}
		}
	}
	// nilness
	for k, v := range a.nilf {
		if w, ok := b.nilf[k]; ok && w == v && !j.dyingSym(k) && live[k] {
			r.nilf[k] = v
		}
	}
	for _, p := range j.ids {
		if p.na != 0 && p.na == p.nb {
			r.nilf[p.phi] = p.na == 1
		} else {
			delete(r.nilf, p.phi)
		}
	}
	// signs
	for t, v := range a.sg {
		if s := a.e.cfg.FltPaths; s {
			if w := v | b.signOf(t); w != sgAny {
				r.sg[t] = w
			}
			continue
		}
		if j.dyingTerm(t) {
			continue
		}
		dead := false
		u.termSyms(t, func(x Sym) {
			if u.info(x).op == "" && !live[x] {
				dead = true
			}
		})
		if dead {
			continue
		}
		if w := v | b.signOf(t); w != sgAny {
			r.sg[t] = w
		}
	}
	for _, p := range j.flts {
		if w := a.signOf(p.ta) | b.signOf(p.tb); w != sgAny {
			r.sg[p.phi] = w
		} else {
			delete(r.sg, p.phi)
		}
	}
	return r
}

func (z *zone) add(a, b Sym, c int64) {
	ia, ib := 0, 0
	if a != noSym {
		ia = z.pos[a]
	}
	if b != noSym {
		ib = z.pos[b]
	}
	n := z.n
	if c >= z.m[ia*n+ib] {
		return
	}
	for i := 0; i < n; i++ {
		x := z.m[i*n+ia]
		if x >= zInf {
			continue
		}
		for k := 0; k < n; k++ {
			y := z.m[ib*n+k]
			if y >= zInf {
				continue
			}
			if v := x + c + y; v < z.m[i*n+k] {
				z.m[i*n+k] = v
			}
		}
	}
}

func (e *Engine) keepTriple(ax, bx, r *State, sum, sa, sb *Lin, keep func(*Lin)) {
	u := e.u
	ca, oka := sa.isConst()
	cb, okb := sb.isConst()
	var c int64
	switch {
	case oka && okb:
		if ca != cb {
			return
		}
		c = ca
	case oka:
		c = ca
	case okb:
		c = cb
	default:
		return
	}
	f := u.addc(sum, -c)
	g := u.scale(f, -1)
	if r.prove(f) && r.prove(g) {
		return
	}
	if ax.prove(f) && ax.prove(g) && bx.prove(f) && bx.prove(g) {
		keep(u.normFact(f))
		keep(u.normFact(g))
	}
}

func mentions(f *Lin, m map[Sym]bool) bool {
	for _, t := range f.ts {
		if m[t.s] {
			return true
		}
	}
	return false
}

func (s *State) provesNe(l *Lin) bool {
	u := s.e.u
	if c, ok := l.isConst(); ok {
		return c != 0
	}
	n := u.scale(l, -1)
	return hasLin(s.nes, l) || hasLin(s.nes, n) || s.prove(u.addc(l, 1)) || s.prove(u.addc(n, 1))
}

func allLive(u *Univ, f *Lin, live map[Sym]bool) bool {
	for _, t := range f.ts {
		if live[t.s] {
			continue
		}
		in := u.info(t.s)
		if in.op == "" {
			return false
		}
		for _, d := range in.deps {
			if u.info(d).op == "" && !live[d] {
				return false
			}
		}
	}
	return true
}

// derive adds products of merged symbols: when a*y is in play on one side and a is merged into φ, φ*y is related too.
func (j *joiner) derive() {
	u := j.u
	bySym := map[Sym][]intPair{} // la or lb single symbol
	for _, p := range j.ints {
		if u.info(p.phi).op != "" {
			continue
		}
		if p.la == nil || p.lb == nil {
			continue
		}
		if s, _, ok := p.la.single(); ok {
			bySym[s] = append(bySym[s], p)
		}
		if s, _, ok := p.lb.single(); ok && p.lb != p.la {
			bySym[s] = append(bySym[s], p)
		}
	}
	collect := func(s *State) map[Sym]bool {
		m := map[Sym]bool{}
		add := func(l *Lin) {
			for _, t := range l.ts {
				if u.info(t.s).op == "mul" {
					m[t.s] = true
				}
			}
		}
		for _, f := range s.facts {
			add(f)
		}
		for _, v := range s.regs {
			if i, ok := v.(Int); ok {
				add(i.l)
			}
		}
		for _, v := range s.mem {
			if i, ok := v.(Int); ok {
				add(i.l)
			}
		}
		return m
	}
	have := map[Sym]bool{}
	for _, p := range j.ints {
		have[p.phi] = true
	}
	ms := collect(j.a)
	for k := range collect(j.b) {
		ms[k] = true
	}
	var mul []Sym
	for k := range ms {
		mul = append(mul, k)
	}
	sort.Slice(mul, func(i, k int) bool { return mul[i] < mul[k] })
	for _, m := range mul {
		args := u.info(m).args
		for i := 0; i < 2; i++ {
			x, _, ok := args[i].single()
			if !ok {
				continue
			}
			y := args[1-i]
			if j.dyingLin(y) {
				continue
			}
			for _, p := range bySym[x] {
				d := u.mul(u.s(p.phi), y)
				ds, c, ok := d.single()
				if !ok || c != 0 || have[ds] {
					continue
				}
				have[ds] = true
				j.ints = append(j.ints, intPair{ds, u.mul(p.la, y), u.mul(p.lb, y), p.isNew})
			}
		}
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// sameState reports whether two states are equal.
func sameState(a, b *State) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.dead != b.dead || len(a.regs) != len(b.regs) || len(a.mem) != len(b.mem) || len(a.facts) != len(b.facts) ||
		len(a.nes) != len(b.nes) || len(a.nilf) != len(b.nilf) || len(a.sg) != len(b.sg) || len(a.tags) != len(b.tags) || len(a.defers) != len(b.defers) {
		return false
	}
	for i := range a.facts {
		if a.facts[i] != b.facts[i] {
			return false
		}
	}
	for i := range a.nes {
		if a.nes[i] != b.nes[i] {
			return false
		}
	}
	for k, v := range a.tags {
		if w, ok := b.tags[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.nilf {
		if w, ok := b.nilf[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.sg {
		if w, ok := b.sg[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.regs {
		w, ok := b.regs[k]
		if !ok || !avEq(v, w) {
			return false
		}
	}
	for k, v := range a.mem {
		w, ok := b.mem[k]
		if !ok || !avEq(v, w) {
			return false
		}
	}
	for i := range a.defers {
		if a.defers[i].in != b.defers[i].in || !avEq(a.defers[i].fn, b.defers[i].fn) || len(a.defers[i].args) != len(b.defers[i].args) {
			return false
		}
		for k := range a.defers[i].args {
			if !avEq(a.defers[i].args[k], b.defers[i].args[k]) {
				return false
			}
		}
	}
	return true
}
