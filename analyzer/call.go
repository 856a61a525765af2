package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *X) call(in ssa.Instruction, c *ssa.CallCommon, v ssa.Value) bool {
	var fn AV
	fn = x.get(c.Value)
	args := make([]AV, len(c.Args))
	for i, a := range c.Args {
		args[i] = x.get(a)
	}
	return x.callWith(in, c, v, fn, args, "call")
}

type callee struct {
	fn    *ssa.Function
	args  []AV
	binds []AV
}

// callees resolves the functions a call may reach. unk: it may reach something else as well.
func (x *X) callees(in ssa.Instruction, c *ssa.CallCommon, fnv AV, args []AV) (out []callee, unk bool) {
	if c.IsInvoke() {
		f, ok := fnv.(Iface)
		if !ok {
			return nil, true
		}
		unk = f.unk
		for _, al := range f.alts {
			m := x.e.p.prog.LookupMethod(al.t, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				unk = true
				continue
			}
			out = append(out, callee{fn: m, args: append([]AV{al.v}, args...)})
		}
		return out, unk
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return []callee{{fn: f, args: args}}, false
	}
	f, ok := fnv.(Fun)
	if !ok {
		return nil, true
	}
	unk = f.unk
	for _, fv := range f.fs {
		cl := callee{fn: fv.fn, args: args, binds: fv.binds}
		if fv.bound != nil {
			cl.args = append([]AV{fv.bound}, args...)
		}
		out = append(out, cl)
	}
	return out, unk
}

// callWith performs a call. kind "call" continues after the instruction, "defer..." returns to the same instruction.
func (x *X) callWith(in ssa.Instruction, c *ssa.CallCommon, v ssa.Value, fnv AV, args []AV, kind string) bool {
	e := x.e
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		ok := x.builtin(in, b, c, args, v)
		if !ok {
			return false
		}
		return x.after(kind, in)
	}
	cs, unk := x.callees(in, c, fnv, args)
	if c.IsInvoke() {
		if x.s.nilOf(fnv) == 1 {
			e.emit(&Ev{kind: "nilderef", x: x, in: in})
			x.s.dead = true
			return false
		}
		if f, ok := fnv.(Iface); ok && f.id != noSym && x.s.nilOf(fnv) == 0 {
			x.s.nilf[f.id] = false
		}
	} else if f, ok := fnv.(Fun); ok && f.nk == nnNil {
		e.emit(&Ev{kind: "nilderef", x: x, in: in})
		x.s.dead = true
		return false
	}
	if unk || len(cs) == 0 {
		name := "?"
		if c.IsInvoke() {
			name = c.Method.Name()
			// interfaces of the standard library whose implementation does not matter
			if r, done := x.unknownInvoke(in, c, v, args); done {
				if r {
					return x.after(kind, in)
				}
				return false
			}
		}
		e.emit(&Ev{kind: "unknowncall", x: x, in: in, name: name, args: args})
		e.issue(fmt.Sprintf("call of %s in %s", name, shortFn(x.ctx.fn)), "the callee of this call could not be resolved")
		x.result(v, nil)
		if len(cs) == 0 {
			return x.after(kind, in)
		}
	}
	if len(cs) == 1 {
		return x.invoke(in, c, cs[0], v, kind)
	}
	alts := make([]*State, len(cs))
	for i := range cs {
		alts[i] = x.s.clone()
	}
	base := x.n * 8
	x.split(alts, func(n *X) bool { return n.invoke(in, c, cs[n.n-base-1], v, kind) })
	return false
}

// after: a deferred call that was modelled in place continues with the next deferred call.
func (x *X) after(kind string, in ssa.Instruction) bool {
	x.cont = ""
	if strings.HasPrefix(kind, "defer") {
		return x.runDefers(in.(*ssa.RunDefers))
	}
	return true
}

func (x *X) result(v ssa.Value, a AV) {
	if v == nil {
		return
	}
	if t, ok := v.Type().(*types.Tuple); ok && t.Len() == 0 {
		return
	}
	if a == nil {
		a = x.fresh("ret", v.Type(), "ret")
	}
	x.set(v, a)
}

// cfgDot: the product of two vectors.
func (e *Engine) cfgDot(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/vector") && (fn.Name() == "Dot" || fn.Name() == "DotUnsafe")
}

// dot is the product of two vectors as a term of the memory it reads.
func (x *X) dot(args []AV) AV {
	u := x.e.u
	if len(args) != 3 {
		return nil
	}
	var ts []*Term
	for _, a := range args[:2] {
		var tg []Tgt
		switch p := a.(type) {
		case Ptr:
			if !p.unk {
				tg = p.tg
			}
		case Slice:
			tg = p.tg
		}
		if len(tg) != 1 || tg[0].off == nil || tg[0].o.summary {
			return nil
		}
		ts = append(ts, u.tsym(u.opSym("vec", []*Obj{tg[0].o}, tg[0].off, x.s.ver(tg[0].o))))
	}
	if ts[0].id > ts[1].id {
		ts[0], ts[1] = ts[1], ts[0]
	}
	n, ok := args[2].(Int)
	if !ok {
		return nil
	}
	return Flt{u.term("dot", ts[0], ts[1], u.tlin(n.l))}
}

var inlineStd = map[string]bool{}

func (x *X) invoke(in ssa.Instruction, c *ssa.CallCommon, cl callee, v ssa.Value, kind string) bool {
	e := x.e
	fn := cl.fn
	// bound method wrappers and thunks are inlined like anything else
	name := fnName(fn)
	if x.isHarness(fn) {
		if done, cont := x.harnessCall(in, fn, cl, v); done {
			if !cont {
				return false
			}
			return x.after(kind, in)
		}
	}
	inModule := e.p.inModule(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 && syntheticInModule(e.p, fn)
	if !inModule {
		if strings.HasPrefix(kind, "defer") {
			x.cont = kind
		}
		cont := x.extern(in, c, fn, name, cl.args, v)
		if !cont {
			return false
		}
		return x.after(kind, in)
	}
	if e.cfg.Dot && e.cfgDot(fn) {
		x.result(v, x.dot(cl.args))
		return x.after(kind, in)
	}
	if len(fn.Blocks) == 0 {
		e.issue("call of "+name, "function without body")
		x.result(v, nil)
		return x.after(kind, in)
	}
	e.emit(&Ev{kind: "call", x: x, in: in, fn: fn, name: shortFn(fn), args: cl.args})
	// recursion?
	for a := x.ctx; a != nil; a = a.parent {
		if a.fn == fn {
			return x.recurse(in, a, cl, v) && x.after(kind, in)
		}
		if a.kind == "go" {
			break
		}
	}
	if x.ctx.depth > 60 {
		e.issue("call of "+name, "call depth exceeded")
		x.result(v, nil)
		return x.after(kind, in)
	}
	site := in
	child := e.newCtx(fn, x.ctx, site, ctxKind(kind))
	if strings.HasPrefix(kind, "defer") {
		child.kind = "defer"
	}
	if e.mayRec[fn] {
		entry := e.point(child, fn.Blocks[0], 0, "")
		entry.head = true
		e.recEntry[entry] = true
	}
	x.enter(child, cl, x.edge("c"+kind+fmt.Sprint(fn.Name())), e.point(child, fn.Blocks[0], 0, ""))
	return false
}

func ctxKind(kind string) string {
	return kind
}

func syntheticInModule(p *Prog, fn *ssa.Function) bool {
	// wrappers: in module when they call something in the module
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && p.inModule(f) {
					return true
				}
			}
		}
	}
	return false
}

// enter starts an activation with the given arguments.
func (x *X) enter(child *Ctx, cl callee, edge string, pt *Point) {
	s := x.s
	fn := child.fn
	for i, p := range fn.Params {
		if i < len(cl.args) {
			s.regs[Reg{child, p}] = cl.args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(cl.binds) {
			s.regs[Reg{child, f}] = cl.binds[i]
		}
	}
	x.e.flow(x.src, edge, pt, s, false)
}

// recurse models a recursive call: its state joins the entry of the active instance a; afterwards everything the
// recursion may write is unknown.
func (x *X) recurse(in ssa.Instruction, a *Ctx, cl callee, v ssa.Value) bool {
	e := x.e
	if !a.rec {
		a.rec = true
	}
	x.e.emit(&Ev{kind: "recurse", x: x, in: in, fn: a.fn, args: cl.args})
	entry := e.point(a, a.fn.Blocks[0], 0, "")
	entry.head = true
	e.recEntry[entry] = true
	e.mayRec[a.fn] = true
	// state of the new activation
	if !e.final {
		t := x.s.clone()
		for k := range t.regs {
			if k.c.within(a) {
				delete(t.regs, k)
			}
		}
		var nd []deferRec
		for _, d := range t.defers {
			if !d.ctx.within(a) {
				nd = append(nd, d)
			}
		}
		t.defers = nd
		for i, p := range a.fn.Params {
			if i < len(cl.args) {
				t.regs[Reg{a, p}] = cl.args[i]
			}
		}
		for i, f := range a.fn.FreeVars {
			if i < len(cl.binds) {
				t.regs[Reg{a, f}] = cl.binds[i]
			}
		}
		if e.cfg.Ghost != nil {
			y := *x
			y.s, y.ctx = t, a
			e.cfg.Ghost(&Ev{kind: "recenter", x: &y, in: in, fn: a.fn, args: cl.args})
		}
		e.flow(x.src, x.edge("rec"), entry, t, true)
	}
	// state afterwards
	x.afterRecursion(a)
	if x.s.dead {
		return false
	}
	r := AV(nil)
	if v != nil {
		r = x.fresh("rec", v.Type(), "rec")
		x.result(v, r)
	}
	x.e.emit(&Ev{kind: "recursed", x: x, in: in, fn: a.fn, args: cl.args, val: r})
	return true
}

func fnName(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	s := f.String()
	if i := strings.IndexByte(s, '['); i > 0 && !strings.HasPrefix(s, "(") {
		s = s[:i]
	}
	return s
}

// ---- builtins ----------------------------------------------------------------------------------------------------------

func (x *X) builtin(in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []AV, v ssa.Value) bool {
	e, s, u := x.e, x.s, x.e.u
	arg := func(i int) AV {
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	switch b.Name() {
	case "len", "cap":
		switch a := arg(0).(type) {
		case Slice:
			if b.Name() == "len" {
				x.set(v, Int{a.ln})
			} else {
				x.set(v, Int{a.cp})
			}
			return true
		case Flt:
			if a.t.op == "str" {
				x.set(v, Int{u.k(int64(len(a.t.s)))})
				return true
			}
		}
		if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				x.set(v, Int{u.k(at.Len())})
				return true
			}
		}
		if at, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			x.set(v, Int{u.k(at.Len())})
			return true
		}
		x.set(v, Int{u.s(x.natom("len", "len"))})
		return true
	case "append":
		return x.appendB(in, c, args, v)
	case "copy":
		d, ok1 := arg(0).(Slice)
		sv, ok2 := arg(1).(Slice)
		if !ok1 {
			x.result(v, nil)
			return true
		}
		if !ok2 {
			sv = Slice{ln: u.s(x.natom("clen", "len")), unk: true, base: noSym}
			sv.cp = sv.ln
		}
		n := x.minLin(d.ln, sv.ln, "n")
		e.emit(&Ev{kind: "copy", x: x, in: in, sl: d, sl2: sv, ln: n})
		x.copyInto(d, sv, n, elemOf(c.Args[0].Type()))
		if v != nil {
			x.set(v, Int{n})
		}
		return true
	case "delete":
		e.emit(&Ev{kind: "mapdel", x: x, in: in, args: args})
		return true
	case "print", "println":
		return true
	case "recover":
		x.result(v, Iface{nk: nnNil, id: noSym})
		return true
	case "close":
		return true
	case "clear":
		if sl, ok := arg(0).(Slice); ok {
			x.havocSlice(sl, "clear")
		}
		return true
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(args); i++ {
			switch p := r.(type) {
			case Int:
				q := args[i].(Int)
				r = Int{x.minmax(b.Name(), p.l, q.l)}
			case Flt:
				q := args[i].(Flt)
				r = Flt{u.term(b.Name(), p.t, q.t)}
			}
		}
		x.set(v, r)
		return true
	case "Add": // unsafe.Add
		p, ok := arg(0).(Ptr)
		n, ok2 := arg(1).(Int)
		if !ok || !ok2 {
			x.result(v, nil)
			return true
		}
		var out []Tgt
		for _, t := range p.tg {
			switch {
			case t.o.raw:
				if t.off != nil {
					t.off = u.add(t.off, n.l)
				}
			default:
				if k, c := n.l.isConst(); c && k == 0 {
				} else if !strings.Contains(t.path, "!") {
					t.path += "!"
				}
			}
			out = append(out, t)
		}
		id := u.opSym("padd", nil, u.s(baseOr(x, p.id)), n.l)
		if k, c := n.l.isConst(); c && k == 0 {
			id = p.id
		}
		x.e.emit(&Ev{kind: "ptradd", x: x, in: in, ptr: p, ln: n.l})
		nk := p.nk
		x.set(v, Ptr{tg: normTgts(out), nk: nk, id: id, base: p.base, unk: p.unk})
		return true
	case "Slice": // unsafe.Slice
		p, ok := arg(0).(Ptr)
		n, ok2 := arg(1).(Int)
		if !ok || !ok2 {
			x.result(v, nil)
			return true
		}
		el := elemOf(v.Type())
		e.emit(&Ev{kind: "unsafeslice", x: x, in: in, ptr: p, ln: n.l, typ: el})
		s.addFact(u.scale(n.l, -1))
		var out []Tgt
		for _, t := range p.tg {
			if !t.o.raw && strings.HasSuffix(t.path, "]") && !strings.Contains(t.path, "!") {
				// pointer to an element
				if i := strings.LastIndexByte(t.path, '['); i >= 0 && t.path[i:] != "[*]" {
					var k int64
					fmt.Sscanf(t.path[i:], "[%d]", &k)
					t.path = t.path[:i] + "[]"
					t.off = u.k(k)
				}
			}
			out = append(out, t)
		}
		nk := uint8(nnNon)
		x.set(v, Slice{tg: normTgts(out), ln: n.l, cp: n.l, nk: nk, unk: p.unk, base: p.base})
		return true
	case "SliceData", "StringData":
		sl, ok := arg(0).(Slice)
		if !ok {
			x.result(v, nil)
			return true
		}
		var out []Tgt
		for _, t := range sl.tg {
			if strings.HasSuffix(t.path, "[]") {
				k := int64(0)
				if t.off != nil {
					k, _ = t.off.isConst()
				}
				t.path = fmt.Sprintf("%s[%d]", strings.TrimSuffix(t.path, "[]"), k)
				t.off = nil
			}
			out = append(out, t)
		}
		id := sl.base
		if id == noSym {
			id = x.atom("sd", "slicedata")
		} else {
			id = u.opSym("sd", nil, u.s(sl.base))
		}
		base := sl.base
		if base == noSym {
			base = id
		}
		nk := sl.nk
		x.set(v, Ptr{tg: normTgts(out), nk: nk, id: id, base: base, unk: sl.unk})
		return true
	case "Sizeof":
		x.set(v, Int{u.k(e.sizeof(c.Args[0].Type()))})
		return true
	case "Alignof":
		x.set(v, Int{u.k(e.p.sizes.Alignof(c.Args[0].Type()))})
		return true
	case "Offsetof":
		if off, ok := e.offsetOf(c.Args[0]); ok {
			x.set(v, Int{u.k(off)})
			return true
		}
		e.issue("Offsetof in "+shortFn(x.ctx.fn), "field not resolved")
		x.result(v, nil)
		return true
	case "ssa:wrapnilchk":
		x.set(v, arg(0))
		return true
	case "real", "imag", "complex":
		x.result(v, nil)
		return true
	}
	e.issue("builtin "+b.Name(), "builtin not modelled")
	x.result(v, nil)
	return true
}

func (x *X) minmax(op string, a, b *Lin) *Lin {
	u, s := x.e.u, x.s
	le := s.proveLe(a, b)
	ge := s.proveLe(b, a)
	if op == "min" {
		if le {
			return a
		}
		if ge {
			return b
		}
	} else {
		if ge {
			return a
		}
		if le {
			return b
		}
	}
	sy := u.opSym(op, nil, a, b)
	if s.prove(u.scale(a, -1)) && s.prove(u.scale(b, -1)) {
		in := u.info(sy)
		in.hasLo, in.lo = true, 0
	}
	return u.s(sy)
}

func (x *X) minLin(a, b *Lin, sub string) *Lin { return x.minmax("min", a, b) }

// copyInto models the effect of copy(d, s) with n elements.
func (x *X) copyInto(d, sv Slice, n *Lin, el types.Type) {
	u := x.e.u
	if d.unk {
		x.e.emit(&Ev{kind: "wildstore", x: x, sl: d, in: x.b.Instrs[x.i]})
	}
	esz := x.e.sizeof(el)
	for _, t := range d.tg {
		if t.o.raw {
			// carry over known cells of a whole object copied between constant offsets
			type kv struct {
				off, sz int64
				v       AV
			}
			var carry []kv
			if len(sv.tg) == 1 && sv.tg[0].o.raw && t.off != nil && sv.tg[0].off != nil && len(d.tg) == 1 && sv.tg[0].o != t.o {
				do, ok1 := t.off.isConst()
				so, ok2 := sv.tg[0].off.isConst()
				if ok1 && ok2 {
					for c, v := range x.s.mem {
						if c.o == sv.tg[0].o && strings.HasPrefix(c.path, "@") {
							off, sz := parseRaw(c.path)
							if off >= so && x.s.proveLe(u.k(off+sz-so), u.scale(n, esz)) {
								carry = append(carry, kv{off - so + do, sz, v})
							}
						}
					}
				}
			}
			x.rawWrite(t, u.scale(n, esz), nil, 0)
			if !t.o.summary {
				for _, k := range carry {
					x.s.mem[Cell{t.o, fmt.Sprintf("@%d:%d", k.off, k.sz)}] = k.v
				}
			}
			continue
		}
		if strings.Contains(t.path, "!") {
			x.havocObj(t.o, "copy")
			continue
		}
		if strings.HasSuffix(t.path, "[]") {
			x.havocObj(t.o, "copy")
			continue
		}
		// typed dynamic array: weak copy of the element cells
		x.copyElems(t, sv, el)
	}
}

// elemAV reads an arbitrary element of a slice.
func (x *X) elemAV(sv Slice, el types.Type, sub string) AV {
	if sv.nk == nnNil {
		return nil
	}
	if sv.unk {
		return x.fresh("el"+sub, el, "elem")
	}
	var vs []AV
	for _, t := range sv.tg {
		switch {
		case t.o.raw:
			vs = append(vs, x.fresh("el"+sub, el, "elem"))
		case strings.HasSuffix(t.path, "[]"):
			b := strings.TrimSuffix(t.path, "[]")
			lo, hi := int64(0), int64(0)
			if n, ok := fixedLen(t, false); ok {
				hi = n
			}
			if t.off != nil {
				if k, ok := t.off.isConst(); ok {
					lo = k
					if n, ok := sv.ln.isConst(); ok && k+n < hi {
						hi = k + n
					}
				}
			}
			for i := lo; i < hi; i++ {
				vs = append(vs, x.loadT(Tgt{t.o, fmt.Sprintf("%s[%d]", b, i), nil}, el))
			}
		case strings.Contains(t.path, "!"):
			vs = append(vs, x.fresh("el"+sub, el, "elem"))
		default:
			vs = append(vs, x.loadT(Tgt{t.o, t.path, nil}, el))
		}
	}
	if len(vs) == 0 {
		return nil
	}
	return x.union("el"+sub, vs)
}

func (x *X) copyElems(t Tgt, sv Slice, el types.Type) {
	v := x.elemAV(sv, el, "cp")
	if v == nil {
		return
	}
	x.storeT(Tgt{t.o, t.path, nil}, el, v, false)
}

func (x *X) appendB(in ssa.Instruction, c *ssa.CallCommon, args []AV, v ssa.Value) bool {
	e, s, u := x.e, x.s, x.e.u
	a, ok := args[0].(Slice)
	if !ok {
		x.result(v, nil)
		return true
	}
	var b Slice
	if len(args) > 1 {
		switch q := args[1].(type) {
		case Slice:
			b = q
		default:
			b = Slice{ln: u.s(x.natom("alen", "len")), unk: true, base: noSym}
			b.cp = b.ln
		}
	} else {
		b = Slice{ln: u.zero, cp: u.zero, nk: nnNil, base: noSym}
	}
	el := elemOf(v.Type())
	e.emit(&Ev{kind: "append", x: x, in: in, sl: a, sl2: b, typ: el})
	ln := u.add(a.ln, b.ln)
	cp := u.s(x.natom("cap", "cap"))
	s.addFact(u.sub(ln, cp))
	nv := x.elemAV(b, el, "ap")
	raw := scalarOnly(el)
	var hi *Lin
	var hb *Lin
	hasHi := false
	if raw && isInteger(el) {
		hi, hasHi = x.hiOf(a, el), true
		hb = x.hiOf(b, el)
		switch {
		case hi == x.e.noBound:
			hi = hb
		case hb == x.e.noBound:
		default:
			hi = x.maxBound(hi, hb, "a")
		}
		if hi == x.e.noBound {
			hi = u.zero
		}
	}
	// elements may land in the spare room of the old array
	if _, isC := b.ln.isConst(); true {
		_ = isC
		for _, t := range a.tg {
			if k, ok := u.sub(a.cp, a.ln).isConst(); ok && k == 0 {
				continue // no spare room
			}
			if t.o.raw {
				q := t
				if q.off != nil {
					q.off = u.add(q.off, u.scale(a.ln, e.sizeof(el)))
				}
				var vh *Lin
				if hasHi {
					vh = hb
				}
				x.rawWriteHi(q, u.scale(b.ln, e.sizeof(el)), nil, 0, vh)
			} else if nv != nil && !strings.HasSuffix(t.path, "[]") && !strings.Contains(t.path, "!") {
				x.storeT(Tgt{t.o, t.path, nil}, el, nv, false)
			} else if strings.HasSuffix(t.path, "[]") {
				x.havocSlice(Slice{tg: []Tgt{t}}, "app")
			}
		}
	}
	ov := x.elemAV(a, el, "ao")
	// the new array of this append site (stands for all arrays it ever made)
	at := x.here()
	o := e.obj("P:"+x.key(""), func() *Obj {
		return &Obj{kind: okAlloc, typ: el, arr: true, raw: raw, at: at, zero: true, desc: "append", summary: true}
	})
	if !s.isLive(o) {
		s.mem[Cell{o, liveMark}] = Int{u.zero}
	} else if hi != nil {
		hi = x.maxBound(hi, s.hi(o), "s")
	}
	if raw {
		if !hasHi {
			hi = nil
		}
		x.bumpHi(o, "", hi)
	} else {
		for _, val := range []AV{ov, nv} {
			if val == nil {
				continue
			}
			c := Cell{o, "[*]"}
			_ = c
			x.storeSummary(o, el, val)
		}
		x.bump(o, "")
	}
	off := u.zero
	path := ""
	if !raw {
		path = "[*]"
	}
	tg := []Tgt{{o, path, off}}
	// it may also be the old array
	if k, ok := u.sub(a.cp, a.ln).isConst(); !(ok && k == 0) || a.unk {
		for _, t := range a.tg {
			tg = append(tg, t)
		}
	}
	nk := uint8(nnNon)
	if a.nk != nnNon && !s.proveLt(u.zero, ln) {
		nk = nnMaybe
	}
	base := x.atom("base", "append")
	out := Slice{tg: normTgts(tg), ln: ln, cp: cp, nk: nk, unk: a.unk, base: base}
	x.set(v, out)
	if e.cfg.Loaded && e.cfg.Ghost != nil {
		e.cfg.Ghost(&Ev{kind: "grown", x: x, in: in, sl: a, sl2: b, val: out, typ: el})
	}
	return true
}

// hiOf: an upper bound of the elements of a slice (noBound: it has none).
func (x *X) hiOf(sl Slice, el types.Type) *Lin {
	if sl.nk == nnNil {
		return x.e.noBound
	}
	if k, ok := sl.ln.isConst(); ok && k == 0 {
		return x.e.noBound
	}
	if sl.unk {
		return nil
	}
	r := x.e.noBound
	for _, t := range sl.tg {
		if a, ok := t.o.typ.(*types.Array); ok && a.Len() == 0 {
			continue
		}
		var h *Lin
		if t.o.raw {
			h = x.s.hi(t.o)
			n, ok := sl.ln.isConst()
			if t.off != nil && ok && h == nil && !t.o.summary {
				if o, ok := t.off.isConst(); ok && n <= smallArr {
					sz := x.e.sizeof(el)
					for k := int64(0); k < n; k++ {
						i, ok := x.s.mem[Cell{t.o, fmt.Sprintf("@%d:%d", o+k*sz, sz)}].(Int)
						if !ok {
							h = nil
							break
						}
						if k == 0 {
							h = i.l
						} else {
							h = x.maxBound(h, i.l, fmt.Sprint("e", k))
						}
					}
				}
			}
		} else if i, ok := x.elemAV(Slice{tg: []Tgt{t}, ln: sl.ln}, el, "hi").(Int); ok {
			h = i.l
		}
		if h == nil {
			return nil
		}
		if r == x.e.noBound {
			r = h
		} else if r = x.maxBound(r, h, "o"); r == nil {
			return nil
		}
	}
	return r
}

// storeSummary writes into the element cell of a summary array. The first value replaces the (never read) zero value.
func (x *X) storeSummary(o *Obj, el types.Type, v AV) {
	for _, l := range leaves(el) {
		c := Cell{o, "[*]" + l.path}
		lv := v
		if l.path != "" {
			lv = leafOf(v, el, l.path)
			if lv == nil {
				lv = x.fresh("ss"+l.path, l.typ, "")
			}
		}
		x.logWrite(c, lv)
		old, ok := x.s.mem[c]
		if !ok {
			x.s.mem[c] = lv
			continue
		}
		if !avEq(old, lv) {
			x.s.mem[c] = x.e.mergeAV(x.s, x.here(), "ss"+x.key(l.path), old, lv)
		}
	}
}

func leafOf(v AV, t types.Type, path string) AV {
	for path != "" {
		a, ok := v.(Agg)
		if !ok {
			return nil
		}
		switch tt := t.Underlying().(type) {
		case *types.Struct:
			found := false
			for i := 0; i < tt.NumFields() && i < len(a.fs); i++ {
				n := "." + tt.Field(i).Name()
				if strings.HasPrefix(path, n) && (len(path) == len(n) || path[len(n)] == '.' || path[len(n)] == '[') {
					v, t, path = a.fs[i], tt.Field(i).Type(), path[len(n):]
					found = true
					break
				}
			}
			if !found {
				return nil
			}
		default:
			return nil
		}
	}
	return v
}

// offsetOf: the offset of the field whose value was selected.
func (e *Engine) offsetOf(v ssa.Value) (int64, bool) {
	switch w := v.(type) {
	case *ssa.UnOp:
		if fa, ok := w.X.(*ssa.FieldAddr); ok {
			if st, ok := elemOf(fa.X.Type()).Underlying().(*types.Struct); ok {
				return e.fieldOff(st, fa.Field), true
			}
		}
	case *ssa.Field:
		if st, ok := w.X.Type().Underlying().(*types.Struct); ok {
			return e.fieldOff(st, w.Field), true
		}
	}
	return 0, false
}
