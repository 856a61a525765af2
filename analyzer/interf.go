package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Concurrency and recursion.
//
// The goroutines a build starts are analysed as one more activation that starts from the state of the go statement. What
// they may do to each other (and to the goroutine that started them) is described by the set W of cells they write, the
// locks held at every such write, and invariants over those cells that are re-established whenever the locks are
// released. All three are assumed from the previous round of the analysis and checked in the current one; the analysis
// is repeated until they agree.

type wcell struct {
	locks map[string]bool // locks held exclusively at every write
	init  bool
	mono  bool // integer cells: writes never decrease it
	bad   string
}

// inv is a candidate invariant over cells of one object.
type inv struct {
	kind string // "le": a <= b, "ext": a*k <= extent of what b points to
	a, b Cell
	k    Cell // factor (ext)
	bad  string
}

func (i inv) key() string {
	return fmt.Sprintf("%s|%d%s|%d%s|%d%s", i.kind, i.a.o.id, i.a.path, i.b.o.id, i.b.path, objID(i.k.o), i.k.path)
}
func objID(o *Obj) int {
	if o == nil {
		return -1
	}
	return o.id
}

type Interf struct {
	on      bool
	w       map[Cell]*wcell
	invs    []*inv
	rec     map[*Ctx]map[Cell]bool // cells written below a recursive activation
	round   int
	recMono map[Cell]bool // integer cells that no write below a recursive call decreases
}

func newInterf() *Interf { return &Interf{w: map[Cell]*wcell{}, rec: map[*Ctx]map[Cell]bool{}} }

func (e *Engine) threadOf(c *Ctx) *Ctx {
	for ; c != nil; c = c.parent {
		if c.kind == "go" {
			return c
		}
	}
	return nil
}

// shared: may another thread see this object? Objects made by the thread itself are its own unless their address is
// stored into shared memory, which storing checks.
func (e *Engine) shared(th *Ctx, o *Obj) bool {
	if o.kind == okGlobal {
		return true
	}
	if o.kind == okOther {
		return true
	}
	if o.at == nil {
		return true
	}
	if !o.at.ctx.within(th) {
		return true
	}
	return e.published[o]
}

// inRegion: is the state concurrent with other threads?
func (x *X) inRegion() bool {
	return x.e.threadOf(x.ctx) != nil || x.s.tags["spawned"] != ""
}

func (x *X) locksHeld() map[string]string {
	m := map[string]string{}
	for k, v := range x.s.tags {
		if strings.HasPrefix(k, "L:") {
			m[k[2:]] = v
		}
	}
	return m
}

func lockset(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// logWrite is called for every store to a tracked cell, before it takes effect.
func (x *X) logWrite(c Cell, v AV) {
	e := x.e
	// recursion effects
	for a := x.ctx; a != nil; a = a.parent {
		if a.rec || e.mayRec[a.fn] {
			m := e.recNow[a]
			if m == nil {
				m = map[Cell]bool{}
				e.recNow[a] = m
			}
			if nv, ok := v.(Int); !ok {
				e.recDec[c] = true
			} else if ov, ok := e.oldInt(x.s, c); !ok || !x.s.proveLe(ov.l, nv.l) {
				e.recDec[c] = true
			}
			if !m[c] {
				m[c] = true
				for k := range e.recUsers[a] {
					e.enqueueKey(k)
				}
			}
		}
	}
	if !e.inter.on {
		return
	}
	th := e.threadOf(x.ctx)
	if th == nil && x.s.tags["spawned"] == "" {
		return
	}
	if th != nil && !e.shared(th, c.o) {
		return
	}
	if c.path == liveMark || c.path == extMark || strings.HasPrefix(c.path, "#") && c.path != verMark {
		return
	}
	// anything reachable from a value written to shared memory is shared from now on
	if v != nil && th != nil {
		x.publish(v, th)
	}
	w := e.wNow[c]
	if w == nil {
		w = &wcell{mono: true}
		e.wNow[c] = w
	}
	held := map[string]bool{}
	for k, m := range x.locksHeld() {
		if strings.HasPrefix(m, "W") {
			held[k] = true
		}
	}
	if !w.init {
		w.locks, w.init = held, true
	} else {
		for k := range w.locks {
			if !held[k] {
				delete(w.locks, k)
			}
		}
	}
	if w.mono {
		nv, ok := v.(Int)
		ov, ok2 := e.oldInt(x.s, c)
		if !ok || !ok2 || !x.s.proveLe(ov.l, nv.l) {
			w.mono = false
		}
	}
}

func (e *Engine) oldInt(s *State, c Cell) (Int, bool) {
	v, had := s.mem[c]
	if !had && s.isLive(c.o) {
		v = e.defaultCell(s, c)
	}
	i, ok := v.(Int)
	return i, ok
}

func (x *X) publish(v AV, th *Ctx) {
	e := x.e
	var work []*Obj
	avObjs(v, func(o *Obj) { work = append(work, o) })
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if e.published[o] || o.kind == okGlobal || o.at == nil || !o.at.ctx.within(th) {
			continue
		}
		e.published[o] = true
		for c, w := range x.s.mem {
			if c.o == o {
				avObjs(w, func(p *Obj) { work = append(work, p) })
			}
		}
	}
}

func (e *Engine) enqueueKey(k string) {
	i := strings.IndexByte(k, '|')
	n, _ := strconv.Atoi(k[:i])
	e.enqueue(e.ptl[n], k[i+1:])
}

// protected: the locks that guard a cell according to the previous round.
func (e *Engine) protects(c Cell) map[string]bool {
	if w := e.inter.w[c]; w != nil {
		return w.locks
	}
	return nil
}

// stable: c cannot change under our feet.
func (x *X) stable(c Cell) bool {
	w := x.e.inter.w[c]
	if w == nil {
		return true
	}
	for k := range x.locksHeld() {
		if w.locks[k] {
			return true
		}
	}
	return false
}

// volatileLoad: cells other threads may change have an arbitrary value at every unprotected load.
func (x *X) volatileLoad(c Cell, typ types.Type) (AV, bool) {
	if !x.e.inter.on || x.e.inter.w[c] == nil || !x.inRegion() || x.stable(c) {
		return nil, false
	}
	if th := x.e.threadOf(x.ctx); th != nil && !x.e.shared(th, c.o) {
		return nil, false
	}
	x.havocCells("vol"+cellName(Tgt{c.o, c.path, nil}), []Cell{c})
	v, ok := x.s.mem[c]
	if !ok || !compatible(v, typ) {
		return nil, false
	}
	return v, true
}

// cellType: the type of a typed cell.
func cellType(c Cell) types.Type {
	if c.o.arr {
		if strings.HasPrefix(c.path, "[*]") {
			return typeAtPath(c.o.typ, c.path[3:])
		}
		return nil
	}
	if c.o.typ == nil {
		return nil
	}
	return typeAtPath(c.o.typ, c.path)
}

// havocCells gives cells new values as another activation or thread may have left them: integers keep growing when all
// writes are monotone, storage pointers point to some storage, and the invariants hold.
func (x *X) havocCells(sub string, cs []Cell) {
	e, s, u := x.e, x.s, x.e.u
	sort.Slice(cs, func(i, j int) bool {
		if cs[i].o.id != cs[j].o.id {
			return cs[i].o.id < cs[j].o.id
		}
		return cs[i].path < cs[j].path
	})
	set := map[Cell]bool{}
	for _, c := range cs {
		if c.path == verMark {
			if s.isLive(c.o) {
				v := x.atom("hver"+sub+strconv.Itoa(c.o.id), "ver")
				for d := range s.mem {
					if d.o == c.o && strings.HasPrefix(d.path, "@") {
						delete(s.mem, d)
					}
				}
				s.mem[c] = Int{u.s(v)}
				hc := Cell{c.o, hiMark}
				var hi *Lin
				if oh := s.hi(c.o); oh != nil && sub == "rec" && hiTracked(c.o) {
					n := e.hiNow[c.o]
					if n == nil {
						n = &hiInfo{users: map[string]bool{}, top: true}
						e.hiNow[c.o] = n
					}
					n.users[x.src] = true
					if n.top {
						hi = oh
					}
					var ms []*Lin
					for m := range n.ms {
						if s.proveLe(oh, m) {
							ms = append(ms, m)
						}
					}
					if len(ms) > 0 {
						hi = u.s(x.atom("hh"+sub+strconv.Itoa(c.o.id), "hi"))
						for _, m := range ms {
							s.addFact(u.sub(hi, m))
						}
					}
				}
				delete(s.mem, hc)
				if hi != nil {
					s.mem[hc] = Int{hi}
				}
			}
			continue
		}
		t := cellType(c)
		if t == nil {
			continue
		}
		old, had := s.mem[c]
		if !had {
			if !s.isLive(c.o) {
				continue
			}
			old = e.defaultCell(s, c)
		}
		set[c] = true
		switch {
		case isUnsafePtr(t):
			at := x.here()
			o := e.obj("S:"+x.key(sub+cellName(Tgt{c.o, c.path, nil})), func() *Obj {
				return &Obj{kind: okOther, typ: types.Typ[types.Byte], arr: true, raw: true, at: at, desc: "storage", tag: "storage"}
			})
			x.kill(o)
			s.mem[Cell{o, liveMark}] = Int{u.zero}
			x.setExt(o, u.s(x.natom("xt"+sub+cellName(Tgt{c.o, c.path, nil}), "extent")))
			id := x.atom("hp"+sub+cellName(Tgt{c.o, c.path, nil}), c.o.String()+c.path)
			delete(s.nilf, id)
			s.mem[c] = Ptr{tg: []Tgt{{o, "", u.zero}}, nk: nnMaybe, id: id, base: id}
		default:
			v := x.havocValue("hc"+sub+cellName(Tgt{c.o, c.path, nil}), t, old, c)
			s.mem[c] = v
			if nv, ok := v.(Int); ok {
				if ov, ok := old.(Int); ok {
					if e.monoCell(c) || sub == "rec" && e.inter.w[c] == nil && e.inter.recMono[c] {
						s.addFact(u.sub(ov.l, nv.l))
					}
				}
			}
		}
	}
	// invariants
	for _, iv := range e.inter.invs {
		if iv.bad != "" || !(set[iv.a] || set[iv.b]) {
			continue
		}
		// all cells must be known to be quiescent: none may be unstable
		if e.inter.on && x.inRegion() && (!x.stable(iv.a) && !set[iv.a] || !x.stable(iv.b) && !set[iv.b]) {
			continue
		}
		if l := x.invLin(iv); len(l) > 0 {
			for _, f := range l {
				s.addFact(f)
			}
		}
	}
}

func (e *Engine) monoCell(c Cell) bool {
	if w := e.inter.w[c]; w != nil {
		return w.mono
	}
	return false
}

// havocValue: a fresh value of a kind compatible with what the cell held.
func (x *X) havocValue(sub string, t types.Type, old AV, c Cell) AV {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Signature:
		// components are not exchanged while building: whoever writes them is reported by the rules
		return x.fresh(sub, t, c.o.String()+c.path)
	case *types.Slice:
		sl := x.fresh(sub, t, c.o.String()+c.path).(Slice)
		if o, ok := old.(Slice); ok {
			// other threads or activations append: the array is some array of the same kind
			el := elemOf(t)
			at := x.here()
			ob := x.e.obj("S:"+x.key(sub), func() *Obj {
				return &Obj{kind: okOther, typ: el, arr: true, raw: scalarOnly(el), at: at, desc: "array", summary: !scalarOnly(el)}
			})
			if !x.s.isLive(ob) {
				x.s.mem[Cell{ob, liveMark}] = Int{x.e.u.zero}
			}
			p := ""
			if !ob.raw {
				p = "[*]"
				for _, l := range leaves(el) {
					x.s.mem[Cell{ob, "[*]" + l.path}] = x.fresh(sub+"e"+l.path, l.typ, "elem")
				}
			} else {
				x.setExt(ob, x.e.u.scale(sl.cp, x.e.sizeof(el)))
			}
			sl.unk = o.unk
			sl.tg = normTgts(append([]Tgt{{ob, p, x.e.u.zero}}, o.tg...))
		}
		return sl
	}
	return x.fresh(sub, t, c.o.String()+c.path)
}

// invLin: the linear facts an invariant stands for in the current state (nil: not expressible).
func (x *X) invLin(iv *inv) []*Lin {
	return x.e.invLin(x.s, iv)
}

func (e *Engine) invLin(s *State, iv *inv) []*Lin {
	u := e.u
	num := func(c Cell) *Lin {
		v, ok := s.mem[c].(Int)
		if ok {
			return v.l
		}
		if _, has := s.mem[c]; !has && s.isLive(c.o) {
			if d, ok := e.defaultCell(s, c).(Int); ok {
				return d.l
			}
		}
		return nil
	}
	a := num(iv.a)
	if a == nil {
		return nil
	}
	switch iv.kind {
	case "le":
		b := num(iv.b)
		if b == nil {
			return nil
		}
		return []*Lin{u.sub(a, b)}
	case "ext":
		k := u.k(1)
		if iv.k.o != nil {
			k = num(iv.k)
		}
		if k == nil {
			return nil
		}
		p, ok := s.mem[iv.b].(Ptr)
		if !ok {
			if d, ok2 := e.defaultCell(s, iv.b).(Ptr); ok2 && s.isLive(iv.b.o) {
				p = d
			} else {
				return nil
			}
		}
		if p.unk {
			return nil
		}
		need := u.mul(a, k)
		if p.nk == nnNil && len(p.tg) == 0 {
			return []*Lin{need}
		}
		if xt, off := s.extOfPtr(p.tg, p.base); xt != nil {
			return []*Lin{u.sub(u.add(need, off), xt)}
		}
		var out []*Lin
		for _, t := range p.tg {
			if !t.o.raw || t.off == nil || s.ext(t.o) == nil {
				return nil
			}
			out = append(out, u.sub(u.add(need, t.off), s.ext(t.o)))
		}
		return out
	}
	return nil
}

// joinTemplates keeps relations of the form "capacity*size <= extent of the storage" over a join. They are not difference
// bounds, so the general join would lose them.
func (e *Engine) joinTemplates(ax, bx, r *State, keep func(*Lin)) {
	u := e.u
	num := func(s *State, c Cell) *Lin {
		if v, ok := s.mem[c].(Int); ok {
			return v.l
		}
		return nil
	}
	for _, iv := range e.templLe {
		ra, rb := num(r, iv.a), num(r, iv.b)
		if ra == nil || rb == nil {
			continue
		}
		f := u.sub(ra, rb)
		if _, c := f.isConst(); c || r.prove(f) {
			continue
		}
		aa, ab, ba, bb := num(ax, iv.a), num(ax, iv.b), num(bx, iv.a), num(bx, iv.b)
		if aa != nil && ab != nil && ba != nil && bb != nil && ax.prove(u.sub(aa, ab)) && bx.prove(u.sub(ba, bb)) {
			keep(u.normFact(f))
		}
	}
	for _, iv := range e.templ {
		p, ok := r.mem[iv.b].(Ptr)
		if !ok || p.unk {
			continue
		}
		one := u.k(1)
		num := func(s *State, c Cell) *Lin {
			if c.o == nil {
				return one
			}
			return num(s, c)
		}
		ra, rk := num(r, iv.a), num(r, iv.k)
		if ra == nil || rk == nil {
			continue
		}
		if xt, off := r.extOfPtr(p.tg, p.base); xt != nil && (len(p.tg) > 1 || p.tg[0].o.summary) {
			f := u.sub(u.add(u.mul(ra, rk), off), xt)
			side := func(s *State) bool {
				sa, sk := num(s, iv.a), num(s, iv.k)
				q, ok := s.mem[iv.b].(Ptr)
				if !ok || q.unk || sa == nil || sk == nil {
					return false
				}
				need := u.mul(sa, sk)
				if len(q.tg) == 0 {
					return q.nk == nnNil && s.prove(need)
				}
				sx, so := s.extOfPtr(q.tg, q.base)
				return sx != nil && s.prove(u.sub(u.add(need, so), sx))
			}
			if !r.prove(f) && side(ax) && side(bx) {
				keep(u.normFact(f))
			}
			continue
		}
		for _, t := range p.tg {
			rx := r.ext(t.o)
			if rx == nil || t.off == nil || !t.o.raw {
				continue
			}
			f := u.sub(u.add(u.mul(ra, rk), t.off), rx)
			if r.prove(f) {
				continue
			}
			side := func(s *State) bool {
				if !s.isLive(t.o) {
					return true
				}
				sa, sk, sx := num(s, iv.a), num(s, iv.k), s.ext(t.o)
				if sa == nil || sk == nil || sx == nil {
					return false
				}
				return s.prove(u.sub(u.add(u.mul(sa, sk), t.off), sx))
			}
			if side(ax) && side(bx) {
				keep(u.normFact(f))
			}
		}
	}
}

// checkInvs drops invariants that do not hold here. which selects.
func (x *X) checkInvs(where string, which func(*inv) bool) {
	if len(x.e.inter.invs) == 0 {
		return
	}
	for _, iv := range x.e.inter.invs {
		if iv.bad != "" || !which(iv) {
			continue
		}
		if x.e.invBad[iv.key()] != "" {
			continue
		}
		if !x.s.isLive(iv.a.o) {
			continue
		}
		ls := x.invLin(iv)
		ok := len(ls) > 0
		for _, l := range ls {
			if !x.s.prove(l) {
				ok = false
			}
		}
		if !ok {
			if x.e.final {
				if os.Getenv("VINV") != "" && strings.Contains(iv.key(), os.Getenv("VINV")) {
					fmt.Fprintln(os.Stderr, "INVBAD", iv.key(), len(ls), x.s.String())
				}
				x.e.invBad[iv.key()] = where + " in " + shortFn(x.ctx.fn)
			}
		}
	}
}

// ---- locks -------------------------------------------------------------------------------------------------------------

func (x *X) lock(in ssa.Instruction, p AV, mode string) bool {
	e := x.e
	t, ok := single(p)
	if !ok {
		e.issue("lock in "+shortFn(x.ctx.fn), "the lock is not known")
		return true
	}
	n := cellName(t)
	e.lockDesc[n] = t.o.String() + t.path
	cur := x.s.tags["L:"+n]
	e.emit(&Ev{kind: "lock", x: x, in: in, name: n, tg: t, fn: nil, args: []AV{Flt{e.u.tstr(mode)}, Flt{e.u.tstr(cur)}}})
	held := x.locksHeld()
	if cur == "" {
		x.s.tags["L:"+n] = mode
	} else if len(cur) < 3 {
		x.s.tags["L:"+n] = cur + mode
	}
	if e.inter.on && x.inRegion() && cur == "" {
		var cs []Cell
		th := e.threadOf(x.ctx)
		for c, w := range e.inter.w {
			if !w.locks[n] {
				continue
			}
			if th != nil && !e.shared(th, c.o) {
				continue
			}
			other := false
			for k := range held {
				if w.locks[k] {
					other = true
				}
			}
			if !other {
				cs = append(cs, c)
			}
		}
		x.havocCells("lk"+n, cs)
	}
	return true
}

func (x *X) unlock(in ssa.Instruction, p AV, mode string) bool {
	e := x.e
	t, ok := single(p)
	if !ok {
		e.issue("unlock in "+shortFn(x.ctx.fn), "the lock is not known")
		return true
	}
	n := cellName(t)
	cur := x.s.tags["L:"+n]
	e.emit(&Ev{kind: "unlock", x: x, in: in, name: n, tg: t, args: []AV{Flt{e.u.tstr(mode)}, Flt{e.u.tstr(cur)}}})
	if strings.HasPrefix(cur, "W") || cur == "" {
		x.checkInvs("release of "+e.lockDesc[n], func(iv *inv) bool {
			wa, wb := e.inter.w[iv.a], e.inter.w[iv.b]
			return (wa == nil || wa.locks[n]) && (wb == nil || wb.locks[n]) && (wa != nil || wb != nil)
		})
	}
	if i := strings.LastIndex(cur, mode); i >= 0 {
		cur = cur[:i] + cur[i+1:]
	}
	if cur == "" {
		delete(x.s.tags, "L:"+n)
	} else {
		x.s.tags["L:"+n] = cur
	}
	return true
}

// ---- goroutines --------------------------------------------------------------------------------------------------------

const wgCount = "#wg"    // tokens added minus goroutines started
const wgSpawn = "#spawn" // goroutines started

func (x *X) waitGroup(in ssa.Instruction, name string, args []AV) bool {
	e, s, u := x.e, x.s, x.e.u
	t, ok := single(args[0])
	if !ok {
		e.issue("wait group in "+shortFn(x.ctx.fn), "the wait group is not known")
		return true
	}
	cnt := func(p string) *Lin {
		if v, ok := s.mem[Cell{t.o, p + t.path}].(Int); ok {
			return v.l
		}
		return u.zero
	}
	switch {
	case strings.HasSuffix(name, "Add"):
		n, _ := args[1].(Int)
		e.emit(&Ev{kind: "wgadd", x: x, in: in, tg: t, ln: n.l})
		if n.l != nil {
			s.mem[Cell{t.o, wgCount + t.path}] = Int{u.add(cnt(wgCount), n.l)}
			s.mem[Cell{t.o, wgSpawn + t.path}] = Int{cnt(wgSpawn)}
		}
	case strings.HasSuffix(name, "Done"):
		if e.threadOf(x.ctx) != nil {
			d := s.tags["done"]
			if len(d) < 2 {
				s.tags["done"] = d + "1"
			}
			s.tags["donewg"] = cellName(t)
		} else {
			s.mem[Cell{t.o, wgCount + t.path}] = Int{u.addc(cnt(wgCount), -1)}
		}
		e.emit(&Ev{kind: "wgdone", x: x, in: in, tg: t})
	default:
		e.emit(&Ev{kind: "wgwait", x: x, in: in, tg: t, ln: cnt(wgCount), args: []AV{Int{cnt(wgSpawn)}}})
		if s.tags["spawned"] != "" {
			delete(s.tags, "spawned")
			s.tags["waited"] = "1"
			if e.inter.on {
				var cs []Cell
				for c := range e.inter.w {
					cs = append(cs, c)
				}
				x.havocCells("wait", cs)
			}
		}
	}
	return true
}

func (x *X) goStmt(v *ssa.Go) bool {
	e, s, u := x.e, x.s, x.e.u
	var fnv AV
	fnv = x.get(v.Call.Value)
	var args []AV
	for _, a := range v.Call.Args {
		args = append(args, x.get(a))
	}
	cs, unk := x.callees(v, &v.Call, fnv, args)
	if unk || len(cs) != 1 {
		e.issue("go statement in "+shortFn(x.ctx.fn), "the started function is not known")
		return true
	}
	cl := cs[0]
	e.emit(&Ev{kind: "go", x: x, in: v, fn: cl.fn, args: cl.args})
	x.checkInvs("start of a goroutine", func(*inv) bool { return true })
	// which wait group stands for it: the only live one with tokens
	for c, val := range s.mem {
		if strings.HasPrefix(c.path, wgCount) {
			if n, ok := val.(Int); ok {
				s.mem[c] = Int{u.addc(n.l, -1)}
			}
			sc := Cell{c.o, wgSpawn + strings.TrimPrefix(c.path, wgCount)}
			k := u.zero
			if n, ok := s.mem[sc].(Int); ok {
				k = n.l
			}
			s.mem[sc] = Int{u.addc(k, 1)}
		}
	}
	s.tags["spawned"] = "1"
	child := e.newCtx(cl.fn, x.ctx, v, "go")
	if !e.inter.on {
		e.sawGo = true
	}
	if len(cl.fn.Blocks) == 0 {
		e.issue("go statement in "+shortFn(x.ctx.fn), "function without body")
		return true
	}
	t := s.clone()
	for r := range t.regs {
		delete(t.regs, r)
	}
	t.defers = nil
	delete(t.tags, "spawned")
	for k := range t.tags {
		if strings.HasPrefix(k, "L:") {
			delete(t.tags, k)
		}
	}
	t.tags["thread"] = "1"
	n := x.fork(t)
	n.enter(child, cl, x.edge("go"), e.point(child, cl.fn.Blocks[0], 0, ""))
	return true
}

// ---- recursion ---------------------------------------------------------------------------------------------------------

// afterRecursion: everything a recursive call below activation a may have written has a new value.
func (x *X) afterRecursion(a *Ctx) {
	e := x.e
	x.checkInvs("recursive call", func(*inv) bool { return e.threadOf(x.ctx) == nil })
	if e.recUsers[a] == nil {
		e.recUsers[a] = map[string]bool{}
	}
	if !e.final {
		e.recUsers[a][x.src] = true
	}
	var cs []Cell
	seen := map[Cell]bool{}
	add := func(c Cell) {
		if !seen[c] {
			seen[c] = true
			cs = append(cs, c)
		}
	}
	for c := range e.recNow[a] {
		o := c.o
		if o.kind != okGlobal && o.at != nil && o.at.ctx.within(a) {
			// an object of the recursive activation itself: ours only if it is one of the aged ones
			if o.young != nil {
				add(c)
				add(Cell{o.young, c.path})
			} else if o.summary {
				add(c)
			}
			continue
		}
		add(c)
	}
	// raw storage reached through an old name is written as well
	for _, c := range append([]Cell{}, cs...) {
		if c.path == verMark && (c.o.tag == "storage" || c.o.kind == okOther) {
			for d := range x.s.mem {
				if d.path == liveMark && d.o.raw && (d.o.tag == "storage" || d.o.kind == okOther) {
					add(Cell{d.o, verMark})
				}
			}
		}
	}
	var live []Cell
	for _, c := range cs {
		if x.s.isLive(c.o) || c.o.kind == okGlobal || x.has(c) {
			if strings.HasPrefix(c.path, "#") && c.path != verMark {
				continue
			}
			live = append(live, c)
		}
	}
	x.havocCells("rec", live)
}

func (x *X) has(c Cell) bool { _, ok := x.s.mem[c]; return ok }

// proposeInvs makes candidate invariants over the integer and storage pointer cells of the objects written.
func (e *Engine) proposeInvs(cells []Cell, related func(o *Obj) []Cell) {
	have := map[string]bool{}
	for _, iv := range e.inter.invs {
		have[iv.key()] = true
	}
	objs := map[*Obj]bool{}
	wr := map[Cell]bool{}
	for _, c := range cells {
		wr[c] = true
		if c.o.raw || c.o.arr || c.o.typ == nil {
			continue
		}
		objs[c.o] = true
	}
	var ol []*Obj
	for o := range objs {
		ol = append(ol, o)
	}
	sort.Slice(ol, func(i, j int) bool { return ol[i].id < ol[j].id })
	for _, o := range ol {
		if _, ok := o.typ.Underlying().(*types.Struct); !ok {
			continue
		}
		var ints, ptrs []Cell
		for _, l := range leaves(o.typ) {
			c := Cell{o, l.path}
			if isInteger(l.typ) {
				ints = append(ints, c)
			} else if isUnsafePtr(l.typ) {
				ptrs = append(ptrs, c)
			}
		}
		addIv := func(iv *inv) {
			if !have[iv.key()] && e.invDead[iv.key()] == "" {
				have[iv.key()] = true
				e.inter.invs = append(e.inter.invs, iv)
				if iv.kind == "ext" {
					e.templ = append(e.templ, iv)
				} else {
					e.templLe = append(e.templLe, iv)
				}
			}
		}
		for _, a := range ints {
			for _, b := range ints {
				if a != b && (wr[a] || wr[b]) && types.Identical(cellType(a), cellType(b)) {
					addIv(&inv{kind: "le", a: a, b: b})
				}
			}
			for _, p := range ptrs {
				if !(wr[a] || wr[p]) {
					continue
				}
				if isWord(cellType(a)) {
					addIv(&inv{kind: "ext", a: a, b: p})
				}
				for _, k := range ints {
					if k != a && !wr[k] && types.Identical(cellType(a), cellType(k)) {
						addIv(&inv{kind: "ext", a: a, b: p, k: k})
					}
				}
			}
		}
	}
}

// isWord: int and the like, as opposed to ids of 32 bits.
func isWord(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr || b.Kind() == types.Int64 || b.Kind() == types.Uint64)
}

// extOfPtr: the extent of the object a pointer points into and the offset in it. For a pointer that may point into
// several objects this is a symbol of its own, tied to the identity of the pointer.
func (s *State) extOfPtr(tg []Tgt, base Sym) (*Lin, *Lin) {
	u := s.e.u
	if len(tg) == 0 {
		return nil, nil
	}
	for _, t := range tg {
		if !t.o.raw || t.off == nil || t.off != tg[0].off {
			return nil, nil
		}
	}
	if len(tg) == 1 && !tg[0].o.summary {
		return s.ext(tg[0].o), tg[0].off
	}
	if base == noSym {
		return nil, nil
	}
	sy := u.opSym("bext", nil, u.s(base))
	in := u.info(sy)
	in.hasLo, in.lo = true, 0
	return u.s(sy), tg[0].off
}
