package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exec interprets the instructions from a point to the end of its block (or to the next inlined call).
func (e *Engine) exec(pt *Point, s *State, src string) {
	x := &X{e: e, ctx: pt.ctx, b: pt.b, i: pt.i, s: s, src: src}
	x.run()
}

func (x *X) fork(s *State) *X {
	n := *x
	n.s = s
	n.src = x.src
	return &n
}

func (x *X) edge(what string) string {
	return fmt.Sprintf("%d.%d.%d.%s.%d", x.ctx.id, x.b.Index, x.i, what, x.n)
}

// run executes until the block ends.
func (x *X) run() {
	for {
		if x.s.dead {
			return
		}
		if x.i >= len(x.b.Instrs) {
			return
		}
		in := x.b.Instrs[x.i]
		if x.e.final {
			x.e.nInstr++
		}
		if traceOn {
			fmt.Fprintf(os.Stderr, "%s b%d i%d %T %v\n", x.ctx, x.b.Index, x.i, in, in)
		}
		if !x.step(in) {
			if traceOn && x.s.dead {
				fmt.Fprintln(os.Stderr, "   DEAD")
			}
			return
		}
		x.i++
	}
}

// split runs the rest of the block for several alternative states.
func (x *X) split(alts []*State, f func(n *X) bool) {
	for k, s := range alts {
		if s == nil || s.dead {
			continue
		}
		n := x.fork(s)
		n.n = x.n*8 + k + 1
		if f(n) {
			n.i++
			n.run()
		}
	}
}

func (x *X) set(v ssa.Value, a AV) {
	if a == nil {
		a = x.fresh("set"+v.Name(), v.Type(), v.Name())
	}
	x.s.regs[Reg{x.ctx, v}] = a
}

func (x *X) get(v ssa.Value) AV {
	e := x.e
	switch c := v.(type) {
	case *ssa.Const:
		return e.constAV(c)
	case *ssa.Function:
		return Fun{fs: []FnVal{{fn: c}}}
	case *ssa.Builtin:
		return Fun{}
	case *ssa.Global:
		o := e.globalObj(c)
		return Ptr{tg: []Tgt{{o: o}}, id: e.u.sym(skAtom, "g:"+o.key, nil), base: e.u.sym(skAtom, "g:"+o.key, nil)}
	}
	if a, ok := x.s.regs[Reg{x.ctx, v}]; ok && a != nil {
		return a
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		_ = fv
	}
	a := x.fresh("undef"+v.Name(), v.Type(), v.Name())
	x.s.regs[Reg{x.ctx, v}] = a
	return a
}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	return e.obj("G:"+g.String(), func() *Obj {
		t := g.Type().(*types.Pointer).Elem()
		return &Obj{kind: okGlobal, typ: t, desc: g.String()}
	})
}

func (e *Engine) constAV(c *ssa.Const) AV {
	if c.Value == nil {
		return e.zeroAV(c.Type())
	}
	t := c.Type()
	switch {
	case isInteger(t):
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Int{e.u.k(n)}
		}
		s := e.u.sym(skAtom, "const:"+c.Value.ExactString(), nil)
		in := e.u.info(s)
		in.hasLo, in.lo = true, 0
		return Int{e.u.s(s)}
	case isFloat(t):
		f, _ := constant.Float64Val(c.Value)
		return Flt{e.u.tconst(f)}
	case isString(t):
		return Flt{e.u.tstr(constant.StringVal(c.Value))}
	case isBool(t):
		if constant.BoolVal(c.Value) {
			return Bool{k: 1}
		}
		return Bool{k: 2}
	case isUnsafePtr(t):
		return Ptr{nk: nnNil, id: noSym, base: noSym}
	}
	return e.zeroAV(t)
}

func (x *X) intOf(v ssa.Value) *Lin {
	if i, ok := x.get(v).(Int); ok {
		return i.l
	}
	s := x.atom("int"+v.Name(), v.Name())
	return x.e.u.s(s)
}

func fltOf(u *Univ, a AV) *Term {
	switch v := a.(type) {
	case Flt:
		return v.t
	case Int:
		return u.tlin(v.l)
	}
	return nil
}

// step executes one instruction; false: this path of execution is finished (flows were sent).
func (x *X) step(in ssa.Instruction) bool {
	e, s, u := x.e, x.s, x.e.u
	switch v := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Phi:
		return true // assigned on the edge
	case *ssa.Alloc:
		t := v.Type().(*types.Pointer).Elem()
		desc := v.Comment
		if desc == "" {
			desc = v.Name()
		}
		var o *Obj
		id := x.atom("ptr", desc)
		if a, ok := t.Underlying().(*types.Array); ok && a.Len() > smallArr {
			if scalarOnly(a.Elem()) {
				o = x.newObj("", a.Elem(), true, true, desc)
				x.setExt(o, u.k(a.Len()*e.sizeof(a.Elem())))
				x.set(v, Ptr{tg: []Tgt{{o, "", u.zero}}, id: id, base: id})
			} else {
				o = x.newObj("", a.Elem(), true, false, desc)
				x.setExt(o, u.k(a.Len()))
				x.set(v, Ptr{tg: []Tgt{{o, "", nil}}, id: id, base: id})
			}
		} else {
			o = x.newObj("", t, false, false, desc)
			x.set(v, Ptr{tg: []Tgt{{o, "", nil}}, id: id, base: id})
		}
		return true
	case *ssa.UnOp:
		return x.unop(v)
	case *ssa.BinOp:
		return x.binop(v)
	case *ssa.ChangeInterface:
		x.set(v, x.get(v.X))
	case *ssa.ChangeType:
		x.set(v, x.get(v.X))
	case *ssa.Convert:
		x.convert(v, v.X, v.Type())
	case *ssa.MultiConvert:
		x.convert(v, v.X, v.Type())
	case *ssa.MakeInterface:
		id := x.atom("if", "iface")
		a := x.get(v.X)
		delete(s.nilf, id)
		x.set(v, Iface{alts: []Alt{{v.X.Type(), a}}, nk: nnNon, id: id})
	case *ssa.MakeClosure:
		f := FnVal{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			f.binds = append(f.binds, x.get(b))
		}
		x.set(v, Fun{fs: []FnVal{f}})
	case *ssa.MakeMap:
		mt := v.Type().Underlying().(*types.Map)
		o := x.newObj("", mt.Elem(), true, false, "map")
		id := x.atom("map", "map")
		x.set(v, Ptr{tg: []Tgt{{o, "", nil}}, id: id, base: id})
	case *ssa.MakeChan:
		id := x.atom("chan", "chan")
		x.set(v, Ptr{id: id, base: id})
	case *ssa.MakeSlice:
		el := v.Type().Underlying().(*types.Slice).Elem()
		n := x.intOf(v.Len)
		c := x.intOf(v.Cap)
		e.emit(&Ev{kind: "make", x: x, in: v, typ: el, ln: n})
		s.addFact(u.scale(n, -1))
		s.addFact(u.sub(n, c))
		id := x.atom("mk", "make")
		if scalarOnly(el) {
			o := x.newObj("", el, true, true, "make")
			x.setExt(o, u.scale(c, e.sizeof(el)))
			if k, ok := n.isConst(); ok && k == 0 && hiTracked(o) {
				s.mem[Cell{o, hiMark}] = Int{u.k(-1)} // no elements
			}
			x.set(v, Slice{tg: []Tgt{{o, "", u.zero}}, ln: n, cp: c, base: id})
		} else {
			o := x.newObj("", el, true, false, "make")
			x.setExt(o, c)
			x.set(v, Slice{tg: []Tgt{{o, "[*]", u.zero}}, ln: n, cp: c, base: id})
			if e.cfg.Ghost != nil {
				e.cfg.Ghost(&Ev{kind: "made", x: x, in: v, obj: o, ln: n, typ: el})
			}
		}
	case *ssa.FieldAddr:
		return x.fieldAddr(v)
	case *ssa.Field:
		a := x.get(v.X)
		if ag, ok := a.(Agg); ok && v.Field < len(ag.fs) {
			x.set(v, ag.fs[v.Field])
		} else {
			x.set(v, nil)
		}
	case *ssa.IndexAddr:
		return x.indexAddr(v)
	case *ssa.Index:
		a := x.get(v.X)
		if ag, ok := a.(Agg); ok {
			if k, ok := x.intOf(v.Index).isConst(); ok && k >= 0 && int(k) < len(ag.fs) {
				x.set(v, ag.fs[k])
				return true
			}
		}
		x.set(v, nil)
	case *ssa.Extract:
		a := x.get(v.Tuple)
		if ag, ok := a.(Agg); ok && v.Index < len(ag.fs) {
			x.set(v, ag.fs[v.Index])
		} else {
			x.set(v, nil)
		}
	case *ssa.Slice:
		return x.slice(v)
	case *ssa.SliceToArrayPointer:
		x.set(v, nil)
	case *ssa.Store:
		return x.store(v)
	case *ssa.MapUpdate:
		x.mapUpdate(v)
	case *ssa.Lookup:
		x.lookup(v)
	case *ssa.Range:
		x.set(v, x.get(v.X))
	case *ssa.Next:
		x.next(v)
	case *ssa.TypeAssert:
		return x.typeAssert(v)
	case *ssa.Call:
		return x.call(v, &v.Call, v)
	case *ssa.Go:
		return x.goStmt(v)
	case *ssa.Defer:
		d := deferRec{ctx: x.ctx, in: v}
		if v.Call.IsInvoke() {
			d.fn = x.get(v.Call.Value)
		} else {
			d.fn = x.get(v.Call.Value)
		}
		for _, a := range v.Call.Args {
			d.args = append(d.args, x.get(a))
		}
		s.defers = append(s.defers[:len(s.defers):len(s.defers)], d)
	case *ssa.RunDefers:
		return x.runDefers(v)
	case *ssa.Send:
		e.emit(&Ev{kind: "send", x: x, in: v})
		e.issue("send in "+shortFn(x.ctx.fn), "channel operations are not modelled")
	case *ssa.Select:
		x.set(v, nil)
		e.issue("select in "+shortFn(x.ctx.fn), "channel operations are not modelled")
	case *ssa.Panic:
		e.emit(&Ev{kind: "panic", x: x, in: v, val: x.get(v.X)})
		x.doPanic()
		return false
	case *ssa.Jump:
		x.goTo(x.b.Succs[0], 0)
		return false
	case *ssa.If:
		x.branch(v)
		return false
	case *ssa.Return:
		x.ret(v)
		return false
	default:
		if val, ok := in.(ssa.Value); ok {
			x.set(val, nil)
		}
		e.issue(fmt.Sprintf("%T in %s", in, shortFn(x.ctx.fn)), "instruction not modelled")
	}
	return true
}

// ---- control ---------------------------------------------------------------------------------------------------------

func (x *X) branch(v *ssa.If) {
	c, _ := x.get(v.Cond).(Bool)
	x.e.emit(&Ev{kind: "branch", x: x, in: v, val: c})
	switch x.evalBool(c) {
	case 1:
		if c.c != nil {
			x.assume(c.c, true)
		}
		x.took(v, true)
		x.goTo(x.b.Succs[0], 0)
		return
	case 2:
		if c.c != nil {
			x.assume(c.c, false)
		}
		x.took(v, false)
		x.goTo(x.b.Succs[1], 1)
		return
	}
	t := x.s.clone()
	f := x.s
	a := x.fork(t)
	if c.c != nil {
		a.assume(c.c, true)
	}
	a.learnReg(v.Cond, 1)
	if !t.dead {
		a.took(v, true)
		a.goTo(x.b.Succs[0], 0)
	}
	b := x.fork(f)
	if c.c != nil {
		b.assume(c.c, false)
	}
	b.learnReg(v.Cond, 2)
	if !f.dead {
		b.took(v, false)
		b.goTo(x.b.Succs[1], 1)
	}
}

// took tells ghost state that a branch was taken.
func (x *X) took(v *ssa.If, way bool) {
	if x.e.cfg.Loaded && x.e.cfg.Ghost != nil && !x.s.dead {
		x.e.cfg.Ghost(&Ev{kind: "took", x: x, in: v, ok: way})
	}
}

func (x *X) learnReg(v ssa.Value, k int8) {
	r := Reg{x.ctx, v}
	if b, ok := x.s.regs[r].(Bool); ok {
		b.k = k
		x.s.regs[r] = b
	}
}

// evalBool: 0 unknown, 1 true, 2 false
func (x *X) evalBool(b Bool) int8 {
	if b.k != 0 {
		return b.k
	}
	if b.c == nil {
		return 0
	}
	return x.evalCond(b.c)
}

func (x *X) evalCond(c *Cond) int8 {
	s, u := x.s, x.e.u
	switch c.op {
	case "le":
		if s.prove(c.l) {
			return 1
		}
		if s.prove(u.addc(u.scale(c.l, -1), 1)) {
			return 2
		}
	case "eq":
		if s.prove(c.l) && s.prove(u.scale(c.l, -1)) {
			return 1
		}
		if s.provesNe(c.l) {
			return 2
		}
	case "ne":
		if s.provesNe(c.l) {
			return 1
		}
		if s.prove(c.l) && s.prove(u.scale(c.l, -1)) {
			return 2
		}
	case "nil":
		return int8(s.nilOf(c.a))
	case "not":
		switch x.evalCond(c.x) {
		case 1:
			return 2
		case 2:
			return 1
		}
	case "sym":
		if b, ok := s.nilf[c.sym]; ok {
			if b {
				return 1
			}
			return 2
		}
	case "fcmp":
		return x.fcmp(c)
	}
	return 0
}

func (x *X) fcmp(c *Cond) int8 {
	if c.t.op == "str" && c.u.op == "str" {
		r := false
		switch c.tok {
		case token.EQL:
			r = c.t.s == c.u.s
		case token.NEQ:
			r = c.t.s != c.u.s
		default:
			return 0
		}
		if r {
			return 1
		}
		return 2
	}
	if c.u.op == "const" && c.u.f == 0 || c.t.op == "const" && c.t.f == 0 {
		t, tok := c.t, c.tok
		if !(c.u.op == "const" && c.u.f == 0) {
			t, tok = c.u, flipTok(c.tok)
		}
		sg := x.s.signOf(t)
		yes := tokSigns(tok)
		if sg&^yes == 0 {
			return 1
		}
		if sg&yes == 0 {
			return 2
		}
		return 0
	}
	if x.e.cfg.FloatRel {
		t, yes := x.relTerm(c)
		switch sg := x.s.signOf(t); {
		case sg&^yes == 0:
			return 1
		case sg&yes == 0:
			return 2
		}
	}
	return 0
}

// relTerm: a comparison of two floats as the sign of a term that stands for their difference.
func (x *X) relTerm(c *Cond) (*Term, uint8) {
	a, b, tok := c.t, c.u, c.tok
	if a.id > b.id {
		a, b, tok = b, a, flipTok(tok)
	}
	if a == b {
		return x.e.u.tconst(0), tokSigns(tok)
	}
	return x.e.u.term("rel", a, b), tokSigns(tok)
}

func tokSigns(tok token.Token) uint8 {
	switch tok {
	case token.LSS:
		return sgNeg
	case token.LEQ:
		return sgNeg | sgZero
	case token.GTR:
		return sgPos
	case token.GEQ:
		return sgPos | sgZero
	case token.EQL:
		return sgZero
	case token.NEQ:
		return sgNeg | sgPos
	}
	return sgAny
}

func flipTok(t token.Token) token.Token {
	switch t {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return t
}

// assume adds a condition to the state.
func (x *X) assume(c *Cond, truth bool) {
	s, u := x.s, x.e.u
	switch c.op {
	case "le":
		if truth {
			s.addFact(c.l)
		} else {
			s.addFact(u.addc(u.scale(c.l, -1), 1))
		}
	case "eq", "ne":
		if truth == (c.op == "eq") {
			s.addFact(c.l)
			s.addFact(u.scale(c.l, -1))
		} else {
			s.addNe(c.l)
		}
	case "not":
		x.assume(c.x, !truth)
	case "sym":
		if b, ok := s.nilf[c.sym]; ok && b != truth {
			s.dead = true
			return
		}
		s.nilf[c.sym] = truth
	case "nil":
		n := s.nilOf(c.a)
		if n == 1 && !truth || n == 2 && truth {
			s.dead = true
			return
		}
		var id Sym = noSym
		switch p := c.a.(type) {
		case Ptr:
			id = p.id
		case Iface:
			id = p.id
		}
		if n == 0 && id != noSym {
			s.nilf[id] = truth
		}
	case "fcmp":
		if r := x.fcmp(c); r == 1 && !truth || r == 2 && truth {
			// float conditions: contradictions only for finite numbers, which is all that is assumed
			if c.t.op == "str" || c.u.op == "str" || c.t.op == "const" && c.u.op == "const" || x.e.cfg.FltPaths {
				s.dead = true
				return
			}
		}
		t, w, tok := c.t, c.u, c.tok
		if t.op == "const" && t.f == 0 {
			t, w, tok = w, t, flipTok(tok)
		}
		if w.op == "const" && w.f == 0 || x.e.cfg.FloatRel && t.op != "str" && w.op != "str" {
			yes := tokSigns(tok)
			if !(w.op == "const" && w.f == 0) {
				t, yes = x.relTerm(c)
			}
			if !truth {
				yes = sgAny &^ yes
			}
			cur := s.signOf(t)
			if cur&yes != 0 {
				if n := cur & yes; n != sgAny {
					s.sg[t] = n
				}
			}
			if x.e.cfg.FltPaths && s.contradicts() {
				s.dead = true
				return
			}
		}
	}
}

// goTo sends the state along a control flow edge. k is the successor number.
func (x *X) goTo(to *ssa.BasicBlock, k int) {
	e := x.e
	s := x.s
	if s.dead {
		return
	}
	// predecessor number
	pi := -1
	cnt := 0
	for i, p := range to.Preds {
		if p == x.b {
			if cnt == 0 {
				pi = i
			}
			if k == 1 && cnt == 1 {
				pi = i
			}
			cnt++
		}
	}
	type asg struct {
		ph *ssa.Phi
		v  AV
	}
	var as []asg
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{ph, x.get(ph.Edges[pi])})
	}
	// booleans that are not known yet: decide them here
	for i, a := range as {
		b, ok := a.v.(Bool)
		if !ok || b.k != 0 {
			continue
		}
		if r := x.evalBool(b); r != 0 {
			as[i].v = Bool{k: r, c: b.c}
			continue
		}
		if b.c == nil {
			continue
		}
		t := x.fork(s.clone())
		t.n = x.n*8 + 2*i + 1
		t.assume(b.c, true)
		if x.ctx != nil {
			t.forceEdge(to, k, a.ph, pi, Bool{k: 1})
		}
		f := x.fork(s.clone())
		f.n = x.n*8 + 2*i + 2
		f.assume(b.c, false)
		f.forceEdge(to, k, a.ph, pi, Bool{k: 2})
		return
	}
	for _, a := range as {
		s.regs[Reg{x.ctx, a.ph}] = stripCond(a.v)
	}
	back := to.Dominates(x.b)
	e.flow(x.src, x.edge(fmt.Sprintf("e%d", k)), e.point(x.ctx, to, 0, ""), s, back)
}

func stripCond(a AV) AV {
	if b, ok := a.(Bool); ok && b.k != 0 {
		return Bool{k: b.k}
	}
	return a
}

// forceEdge repeats goTo with the operand of a boolean phi decided.
func (x *X) forceEdge(to *ssa.BasicBlock, k int, ph *ssa.Phi, pi int, v Bool) {
	if x.s.dead {
		return
	}
	o := ph.Edges[pi]
	if isTrackable(o) {
		x.s.regs[Reg{x.ctx, o}] = v
	}
	x.goTo(to, k)
}

func (x *X) ret(v *ssa.Return) {
	e := x.e
	var r AV
	vals := make([]AV, len(v.Results))
	for i, a := range v.Results {
		vals[i] = x.get(a)
	}
	switch len(vals) {
	case 0:
	case 1:
		r = vals[0]
	default:
		r = Agg{fs: vals}
	}
	e.emit(&Ev{kind: "return", x: x, in: v, args: vals, fn: x.ctx.fn})
	x.leave(r, "ret")
}

// leave pops the current activation and continues after its call site.
func (x *X) leave(r AV, how string) {
	e, s, c := x.e, x.s, x.ctx
	if c.parent == nil || c.kind == "go" {
		e.emit(&Ev{kind: "exit", x: x, in: x.b.Instrs[minI(x.i, len(x.b.Instrs)-1)], fn: c.fn, name: how})
		return
	}
	for k := range s.regs {
		if k.c == c {
			delete(s.regs, k)
		}
	}
	p := c.parent
	b := c.site.Block()
	i := instrIndex(c.site)
	if c.kind == "defer" {
		e.flow(x.src, x.edge(how), e.point(p, b, i, "rd"), s, false)
		return
	}
	if val, ok := c.site.(ssa.Value); ok && r != nil && c.kind != "callback" && c.kind != "callbackPush" {
		s.regs[Reg{p, val}] = r
	}
	sub := ""
	if strings.HasPrefix(c.kind, "call") {
		sub = ""
	}
	e.flow(x.src, x.edge(how), e.point(p, b, i+1, sub), s, false)
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (x *X) isHarness(f *ssa.Function) bool {
	return f != nil && strings.HasSuffix(fnPkgPath(f), "/"+driverDir)
}

// doPanic ends the path, or returns to the harness when the client recovers from panics.
func (x *X) doPanic() {
	if !x.e.cfg.PanicBack {
		return
	}
	c := x.ctx
	for c != nil && c.parent != nil && !x.isHarness(c.parent.fn) {
		if c.kind == "go" {
			return // crashes the program
		}
		c = c.parent
	}
	if c == nil || c.parent == nil || c.kind == "go" {
		return
	}
	s := x.s
	for k := range s.regs {
		if k.c.within(c) {
			delete(s.regs, k)
		}
	}
	var nd []deferRec
	for _, d := range s.defers {
		if !d.ctx.within(c) {
			nd = append(nd, d)
		}
	}
	s.defers = nd
	p := c.parent
	s.tags["panicked"] = "1"
	i := instrIndex(c.site)
	if val, ok := c.site.(ssa.Value); ok {
		t := val.Type()
		if tt, ok := t.(*types.Tuple); !ok || tt.Len() > 0 {
			s.regs[Reg{p, val}] = x.e.zeroAV(t)
		}
	}
	x.e.flow(x.src, x.edge("panic"), x.e.point(p, c.site.Block(), i+1, ""), s, false)
}

func (x *X) runDefers(v *ssa.RunDefers) bool {
	s := x.s
	if len(s.defers) == 0 || s.defers[len(s.defers)-1].ctx != x.ctx {
		return true
	}
	d := s.defers[len(s.defers)-1]
	s.defers = s.defers[: len(s.defers)-1 : len(s.defers)-1]
	common := &d.in.Call
	return x.callWith(v, common, nil, d.fn, d.args, fmt.Sprintf("defer%d.%d", d.in.Block().Index, instrIndex(d.in)))
}

// ---- expressions -----------------------------------------------------------------------------------------------------

func (x *X) unop(v *ssa.UnOp) bool {
	u := x.e.u
	switch v.Op {
	case token.MUL:
		return x.load(v)
	case token.SUB:
		switch a := x.get(v.X).(type) {
		case Int:
			x.set(v, Int{u.scale(a.l, -1)})
		case Flt:
			x.set(v, Flt{tneg(u, a.t)})
		default:
			x.set(v, nil)
		}
	case token.NOT:
		b, ok := x.get(v.X).(Bool)
		if !ok {
			x.set(v, nil)
			return true
		}
		r := Bool{}
		switch b.k {
		case 1:
			r.k = 2
		case 2:
			r.k = 1
		}
		if b.c != nil {
			r.c = &Cond{op: "not", x: b.c}
		}
		x.set(v, r)
	case token.ARROW:
		x.e.issue("receive in "+shortFn(x.ctx.fn), "channel operations are not modelled")
		x.set(v, nil)
	default:
		x.set(v, nil)
	}
	return true
}

func tneg(u *Univ, t *Term) *Term {
	if t.op == "const" {
		return u.tconst(-t.f)
	}
	if t.op == "neg" {
		return t.args[0]
	}
	return u.term("neg", t)
}

func (x *X) binop(v *ssa.BinOp) bool {
	u, s := x.e.u, x.s
	a, b := x.get(v.X), x.get(v.Y)
	switch v.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		x.set(v, x.compare(v.Op, a, b))
		return true
	}
	if ia, ok := a.(Int); ok {
		ib, ok := b.(Int)
		if !ok {
			x.set(v, nil)
			return true
		}
		x.set(v, Int{x.arith(v, v.Op, ia.l, ib.l, v.Type())})
		return true
	}
	if fa, ok := a.(Flt); ok {
		fb, ok := b.(Flt)
		if !ok {
			x.set(v, nil)
			return true
		}
		if isString(v.Type()) {
			if fa.t.op == "str" && fb.t.op == "str" {
				x.set(v, Flt{u.tstr(fa.t.s + fb.t.s)})
			} else {
				x.set(v, Flt{u.term("strcat", fa.t, fb.t)})
			}
			return true
		}
		op := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo"}[v.Op]
		if op == "quo" {
			x.e.emit(&Ev{kind: "fdiv", x: x, in: v, args: []AV{fa, fb}})
		}
		t := u.term(op, fa.t, fb.t)
		if fa.t.op == "const" && fb.t.op == "const" {
			switch op {
			case "add":
				t = u.tconst(fa.t.f + fb.t.f)
			case "sub":
				t = u.tconst(fa.t.f - fb.t.f)
			case "mul":
				t = u.tconst(fa.t.f * fb.t.f)
			}
		}
		x.e.emit(&Ev{kind: "farith", name: op, x: x, in: v, args: []AV{fa, fb}, val: Flt{t}})
		x.set(v, Flt{x.capTerm(t, v)})
		return true
	}
	_ = s
	x.set(v, nil)
	return true
}

// capTerm keeps float terms small.
func (x *X) capTerm(t *Term, v ssa.Value) *Term {
	if termSize(t, 60) > 60 {
		n := x.e.u.tsym(x.atom("cap", v.Name()))
		if g := x.s.signOf(t); g != sgAny {
			x.s.sg[n] = g
		} else {
			delete(x.s.sg, n)
		}
		return n
	}
	return t
}

func termSize(t *Term, lim int) int {
	n := 1
	for _, a := range t.args {
		if n > lim {
			return n
		}
		n += termSize(a, lim-n)
	}
	return n
}

func (x *X) arith(v ssa.Value, op token.Token, a, b *Lin, typ types.Type) *Lin {
	u, s := x.e.u, x.s
	unsigned := isUnsigned(typ)
	un := func(l *Lin) *Lin { return l }
	_ = un
	switch op {
	case token.ADD:
		return u.add(a, b)
	case token.SUB:
		r := u.sub(a, b)
		if unsigned {
			if _, c := r.isConst(); c && r.c >= 0 {
				return r
			}
			if s.prove(u.scale(r, -1)) {
				return r
			}
			x.e.emit(&Ev{kind: "wrapsub", x: x, in: v.(ssa.Instruction)})
			f := u.s(x.natom("wrap", v.Name()))
			// when it does not wrap it is the difference, in every case it is at most ... unknown
			return f
		}
		return r
	case token.MUL:
		if in, ok := v.(ssa.Instruction); ok {
			x.e.emit(&Ev{kind: "imul", x: x, in: in, args: []AV{Int{a}, Int{b}}, typ: typ})
		}
		if a.isBig() || b.isBig() {
			return u.s(x.natom("mul", v.Name()))
		}
		return u.mul(a, b)
	case token.QUO, token.REM:
		if c, ok := b.isConst(); ok && c == 0 {
			s.dead = true
			return u.zero
		}
		x.e.emit(&Ev{kind: "idiv", x: x, in: v.(ssa.Instruction), args: []AV{Int{a}, Int{b}}})
		nonneg := unsigned || s.prove(u.scale(a, -1)) && s.prove(u.scale(b, -1))
		s.addNe(b)
		if s.dead {
			return u.zero
		}
		if nonneg {
			s.addFact(u.addc(u.scale(b, -1), 1)) // b != 0 and b >= 0
			if op == token.QUO {
				return u.div(a, b)
			}
			return u.rem(a, b)
		}
		if op == token.REM {
			// Go: |a % b| < |b|, sign of a
			f := u.s(x.atom("rem", v.Name()))
			if c, ok := b.isConst(); ok && c > 0 {
				s.addFact(u.addc(f, -(c - 1)))
				s.addFact(u.addc(u.scale(f, -1), -(c - 1)))
			}
			return f
		}
		if c, ok := b.isConst(); ok && c > 0 {
			f := u.s(x.atom("quo", v.Name()))
			_ = c
			return f
		}
		return u.s(x.atom("quo", v.Name()))
	}
	ca, oka := a.isConst()
	cb, okb := b.isConst()
	if oka && okb {
		switch op {
		case token.AND:
			return u.k(ca & cb)
		case token.OR:
			return u.k(ca | cb)
		case token.XOR:
			return u.k(ca ^ cb)
		case token.SHL:
			if cb >= 0 && cb < 62 {
				return u.k(ca << uint(cb))
			}
		case token.SHR:
			if cb >= 0 && cb < 63 {
				return u.k(ca >> uint(cb))
			}
		case token.AND_NOT:
			return u.k(ca &^ cb)
		}
	}
	if op == token.SHL && okb && cb >= 0 && cb < 32 && s.prove(u.scale(a, -1)) {
		if strings.Contains(fnPkgPath(x.ctx.fn), "/random") {
			return u.s(x.natom("shl", v.Name()))
		}
		return u.scale(a, 1<<uint(cb))
	}
	if op == token.SHR && okb && cb >= 0 && cb < 62 && s.prove(u.scale(a, -1)) {
		return u.div(a, u.k(1<<uint(cb)))
	}
	names := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}
	n := names[op]
	if n == "" {
		return u.s(x.atom("op", v.Name()))
	}
	// commutative
	if (n == "and" || n == "or" || n == "xor") && a.id > b.id {
		a, b = b, a
		oka, okb, ca, cb = okb, oka, cb, ca
	}
	sy := u.opSym(n, nil, a, b)
	in := u.info(sy)
	if unsigned || s.prove(u.scale(a, -1)) && s.prove(u.scale(b, -1)) {
		in.hasLo, in.lo = true, 0
	}
	if n == "and" {
		if oka && ca >= 0 {
			in.hasLo, in.lo, in.hasHi, in.hi = true, 0, true, ca
		}
		if okb && cb >= 0 {
			in.hasLo, in.lo, in.hasHi, in.hi = true, 0, true, cb
		}
	}
	if n == "xor" && (oka && ca >= 0 && ca <= 1 || okb && cb >= 0 && cb <= 1) {
		o := b
		k := ca
		if okb {
			o, k = a, cb
		}
		// x ^ 1 for x in {0,1} is 1-x
		if s.prove(u.scale(o, -1)) && s.prove(u.addc(o, -1)) {
			if k == 0 {
				return o
			}
			return u.sub(u.k(1), o)
		}
	}
	return u.s(sy)
}

func (l *Lin) isBig() bool {
	if len(l.ts) > 6 {
		return true
	}
	return false
}

func (x *X) compare(op token.Token, a, b AV) AV {
	u := x.e.u
	done := func(c *Cond) AV {
		r := Bool{c: c}
		r.k = x.evalCond(c)
		return r
	}
	neg := func(c *Cond) *Cond { return &Cond{op: "not", x: c} }
	switch p := a.(type) {
	case Int:
		q, ok := b.(Int)
		if !ok {
			return Bool{}
		}
		d := u.sub(p.l, q.l)
		switch op {
		case token.EQL:
			return done(&Cond{op: "eq", l: d})
		case token.NEQ:
			return done(&Cond{op: "ne", l: d})
		case token.LSS:
			return done(&Cond{op: "le", l: u.addc(d, 1)})
		case token.LEQ:
			return done(&Cond{op: "le", l: d})
		case token.GTR:
			return done(&Cond{op: "le", l: u.addc(u.scale(d, -1), 1)})
		case token.GEQ:
			return done(&Cond{op: "le", l: u.scale(d, -1)})
		}
	case Flt:
		q, ok := b.(Flt)
		if !ok {
			return Bool{}
		}
		return done(&Cond{op: "fcmp", t: p.t, u: q.t, tok: op})
	case Bool:
		q, ok := b.(Bool)
		if !ok {
			return Bool{}
		}
		ka, kb := x.evalBool(p), x.evalBool(q)
		if ka != 0 && kb != 0 {
			r := ka == kb
			if op == token.NEQ {
				r = !r
			}
			if r {
				return Bool{k: 1}
			}
			return Bool{k: 2}
		}
		if kb != 0 && p.c != nil {
			if (kb == 1) == (op == token.EQL) {
				return Bool{c: p.c}
			}
			return Bool{c: neg(p.c)}
		}
		if ka != 0 && q.c != nil {
			if (ka == 1) == (op == token.EQL) {
				return Bool{c: q.c}
			}
			return Bool{c: neg(q.c)}
		}
		return Bool{}
	}
	// pointers, interfaces, functions, slices: comparison with nil
	na, nb := x.s.nilOf(a), x.s.nilOf(b)
	var c *Cond
	switch {
	case isNilConst(b):
		c = &Cond{op: "nil", a: a}
	case isNilConst(a):
		c = &Cond{op: "nil", a: b}
	case na == 1 && nb == 1:
		if op == token.EQL {
			return Bool{k: 1}
		}
		return Bool{k: 2}
	case na == 1 && nb == 2 || na == 2 && nb == 1:
		if op == token.EQL {
			return Bool{k: 2}
		}
		return Bool{k: 1}
	case idOf(a) != noSym && idOf(a) == idOf(b):
		if op == token.EQL {
			return Bool{k: 1}
		}
		return Bool{k: 2}
	case x.errKind(a) != "" && x.errKind(b) != "" && x.errKind(a) != x.errKind(b):
		if op == token.EQL {
			return Bool{k: 2}
		}
		return Bool{k: 1}
	default:
		ia, ib := idOf(a), idOf(b)
		if ia == noSym || ib == noSym {
			return Bool{}
		}
		if ib < ia {
			ia, ib = ib, ia
		}
		sy := u.opSym("same", nil, u.s(ia), u.s(ib))
		c = &Cond{op: "sym", sym: sy}
	}
	if op == token.NEQ {
		c = neg(c)
	}
	return done(c)
}

func idOf(a AV) Sym {
	switch p := a.(type) {
	case Ptr:
		return p.id
	case Iface:
		return p.id
	}
	return noSym
}

func isNilConst(a AV) bool {
	switch p := a.(type) {
	case Ptr:
		return p.nk == nnNil
	case Iface:
		return p.nk == nnNil
	case Slice:
		return p.nk == nnNil
	case Fun:
		return p.nk == nnNil
	}
	return false
}

// intQuo: a quotient of two integers that is computed in floating point and rounded to an integer, as an integer
// division (exact below 2^52).
func (x *X) intQuo(t *Term) *Lin {
	u, s := x.e.u, x.s
	up := false
	switch t.op {
	case "floor", "trunc":
		t = t.args[0]
	case "ceil":
		t, up = t.args[0], true
	}
	for t.op == "conv64" {
		t = t.args[0]
	}
	if t.op != "quo" || t.args[0].op != "lin" || t.args[1].op != "lin" {
		return nil
	}
	a, b := t.args[0].lin, t.args[1].lin
	if !s.prove(u.addc(u.scale(b, -1), 1)) || !s.prove(u.scale(a, -1)) {
		return nil
	}
	if up {
		a = u.addc(u.add(a, b), -1)
	}
	return u.div(a, b)
}

func (x *X) convert(v ssa.Value, from ssa.Value, typ types.Type) {
	u, s, e := x.e.u, x.s, x.e
	a := x.get(from)
	ft := from.Type()
	switch p := a.(type) {
	case Int:
		switch {
		case isInteger(typ):
			e.emit(&Ev{kind: "iconv", x: x, in: v.(ssa.Instruction), val: a, typ: typ})
			if isUnsigned(typ) && !isUnsigned(ft) && !s.prove(u.scale(p.l, -1)) {
				f := u.s(x.natom("conv", v.Name()))
				x.set(v, Int{f})
				return
			}
			x.set(v, a)
		case isFloat(typ):
			e.emit(&Ev{kind: "iconv", x: x, in: v.(ssa.Instruction), val: a, typ: typ})
			x.set(v, Flt{x.e.u.tlin(p.l)})
		case isUnsafePtr(typ):
			x.set(v, nil)
		default:
			x.set(v, nil)
		}
		return
	case Flt:
		switch {
		case isFloat(typ) && isFloat(ft):
			if types.Identical(typ.Underlying(), ft.Underlying()) || p.t.op == "const" {
				x.set(v, a)
				return
			}
			op := "conv64"
			if e.sizeof(typ) == 4 {
				op = "conv32"
			}
			if p.t.op == op {
				x.set(v, a)
				return
			}
			if op == "conv64" && p.t.op == "conv32" {
				x.set(v, Flt{u.term(op, p.t)})
				return
			}
			x.set(v, Flt{x.capTerm(u.term(op, p.t), v)})
		case isInteger(typ):
			e.emit(&Ev{kind: "iconv", x: x, in: v.(ssa.Instruction), val: a, typ: typ})
			if d := x.intQuo(p.t); d != nil {
				x.set(v, Int{d})
				return
			}
			sy := x.atom("ftoi", v.Name())
			in := u.info(sy)
			in.meta = p.t
			if isUnsigned(typ) {
				in.hasLo, in.lo = true, 0
			} else if s.signOf(p.t)&sgNeg == 0 {
				s.addFact(u.scale(u.s(sy), -1))
			}
			x.set(v, Int{u.s(sy)})
		case isString(typ) && isString(ft):
			x.set(v, a)
		default:
			x.set(v, nil)
		}
		return
	case Ptr:
		// pointer casts keep the target; a cast of a typed object to another layout is marked when it is followed
		if !isUnsafePtr(typ) {
			if pt, ok := typ.Underlying().(*types.Pointer); ok {
				x.set(v, x.castPtr(p, pt.Elem()))
				return
			}
			if isInteger(typ) {
				x.set(v, nil)
				return
			}
		}
		x.set(v, a)
		return
	case Slice:
		if _, ok := typ.Underlying().(*types.Slice); ok {
			x.set(v, a)
			return
		}
	}
	x.set(v, nil)
}

// castPtr adapts the targets of a pointer to a new element type.
func (x *X) castPtr(p Ptr, el types.Type) Ptr {
	var out []Tgt
	for _, t := range p.tg {
		if t.o.raw || strings.Contains(t.path, "!") {
			out = append(out, t)
			continue
		}
		var at types.Type
		if t.o.arr {
			if strings.HasPrefix(t.path, "[*]") {
				at = typeAtPath(t.o.typ, t.path[3:])
			} else {
				at = t.o.typ
			}
		} else if t.o.typ != nil {
			at = typeAtPath(t.o.typ, t.path)
		}
		switch {
		case at != nil && types.Identical(at, el):
		case at != nil && isIfaceWords(at, el):
			t.path += "!i"
		case at != nil && firstFieldIs(at, el):
			// pointer to a struct used as pointer to its first field
			st := at.Underlying().(*types.Struct)
			t.path += "." + st.Field(0).Name()
		case at != nil && isArrOf(at, el):
			t.path += "[0]"
		default:
			t.path += "!"
		}
		out = append(out, t)
	}
	p.tg = normTgts(append([]Tgt{}, out...))
	return p
}

func isArrOf(at, el types.Type) bool {
	a, ok := at.Underlying().(*types.Array)
	return ok && a.Len() <= smallArr && a.Len() > 0 && types.Identical(a.Elem(), el)
}
func isIfaceWords(at, el types.Type) bool {
	if _, ok := at.Underlying().(*types.Interface); !ok {
		return false
	}
	switch el.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}
func firstFieldIs(at, el types.Type) bool {
	st, ok := at.Underlying().(*types.Struct)
	return ok && st.NumFields() > 0 && types.Identical(st.Field(0).Type(), el)
}

// derefOK records the use of a pointer and drops the nil case.
func (x *X) derefOK(p Ptr, in ssa.Instruction, kind string, typ types.Type, val AV) {
	x.e.emit(&Ev{kind: kind, x: x, in: in, ptr: p, typ: typ, val: val})
	switch x.s.nilOf(p) {
	case 1:
		x.e.emit(&Ev{kind: "nilderef", x: x, in: in, ptr: p})
		x.s.dead = true
	case 0:
		if p.id != noSym {
			x.s.nilf[p.id] = false
		}
	}
}

func (x *X) load(v *ssa.UnOp) bool {
	p, ok := x.get(v.X).(Ptr)
	if !ok {
		x.set(v, nil)
		return true
	}
	x.derefOK(p, v, "load", v.Type(), nil)
	if x.s.dead {
		return false
	}
	if g, ok := v.X.(*ssa.Global); ok && !x.e.p.inModulePkg(g.Pkg) {
		// globals of other packages: fixed unknown values
		a := x.e.freshAV("glob:"+g.String(), nil, v.Type(), g.String())
		if f, ok := a.(Iface); ok {
			f.nk = nnNon
			a = f
			if isErrorType(v.Type()) {
				x.e.u.info(f.id).meta = g.Pkg.Pkg.Path() + "." + g.Name()
			}
		}
		x.set(v, a)
		return true
	}
	if p.unk || len(p.tg) == 0 {
		x.set(v, x.fresh("ld", v.Type(), "load"))
		return true
	}
	var vs []AV
	for _, t := range p.tg {
		vs = append(vs, x.loadT(t, v.Type()))
	}
	x.set(v, x.union("ld", vs))
	if x.e.cfg.Loaded && x.e.cfg.Ghost != nil {
		x.e.cfg.Ghost(&Ev{kind: "loaded", x: x, in: v, ptr: p, val: x.s.regs[Reg{x.ctx, v}], typ: v.Type()})
	}
	return true
}

func (x *X) store(v *ssa.Store) bool {
	p, ok := x.get(v.Addr).(Ptr)
	val := x.get(v.Val)
	if !ok {
		x.e.issue("store in "+shortFn(x.ctx.fn), "store through an unresolved pointer")
		return true
	}
	x.derefOK(p, v, "store", v.Val.Type(), val)
	if x.s.dead {
		return false
	}
	if p.unk || len(p.tg) == 0 {
		x.e.emit(&Ev{kind: "wildstore", x: x, in: v, ptr: p})
		x.e.issue(fmt.Sprintf("store in %s", shortFn(x.ctx.fn)), "store through a pointer whose target is unknown")
	}
	for _, t := range p.tg {
		x.storeT(t, v.Val.Type(), val, len(p.tg) == 1 && !p.unk)
	}
	return true
}

func (x *X) fieldAddr(v *ssa.FieldAddr) bool {
	u, e := x.e.u, x.e
	p, ok := x.get(v.X).(Ptr)
	if !ok {
		x.set(v, nil)
		return true
	}
	if x.s.nilOf(p) == 1 {
		e.emit(&Ev{kind: "nilderef", x: x, in: v, ptr: p})
		x.s.dead = true
		return false
	}
	e.emit(&Ev{kind: "fieldaddr", x: x, in: v, ptr: p, typ: elemOf(v.X.Type())})
	if x.s.nilOf(p) == 0 && p.id != noSym {
		x.s.nilf[p.id] = false
	}
	st := elemOf(v.X.Type()).Underlying().(*types.Struct)
	fld := st.Field(v.Field)
	var out []Tgt
	for _, t := range p.tg {
		switch {
		case t.o.raw:
			if t.off != nil {
				t.off = u.addc(t.off, e.fieldOff(st, v.Field))
			}
		case strings.HasSuffix(t.path, "!i"):
			t.path += fmt.Sprint(e.fieldOff(st, v.Field))
		case strings.Contains(t.path, "!"):
		case strings.HasSuffix(t.path, "[]"):
			t.path += "!"
		default:
			if t.o.arr && t.path == "" {
				t.path = "[*]"
			}
			t.path += "." + fld.Name()
		}
		out = append(out, t)
	}
	id := p.id
	if id != noSym {
		id = u.opSym("fa"+fld.Name(), nil, u.s(p.id))
		delete(x.s.nilf, id)
	}
	x.set(v, Ptr{tg: normTgts(out), id: id, base: p.base, unk: p.unk})
	return true
}

// indexAddr computes &a[i].
func (x *X) indexAddr(v *ssa.IndexAddr) bool {
	u, e, s := x.e.u, x.e, x.s
	idx := x.intOf(v.Index)
	el := elemOf(v.Type())
	esz := e.sizeof(el)
	var tg []Tgt
	var ln *Lin
	var base Sym
	unk := false
	arrayPtr := false
	switch a := x.get(v.X).(type) {
	case Slice:
		tg, ln, base, unk = a.tg, a.ln, a.base, a.unk
		e.emit(&Ev{kind: "index", x: x, in: v, sl: a, ln: idx, typ: el})
	case Ptr:
		if x.s.nilOf(a) == 1 {
			e.emit(&Ev{kind: "nilderef", x: x, in: v, ptr: a})
			s.dead = true
			return false
		}
		at, ok := elemOf(v.X.Type()).Underlying().(*types.Array)
		if !ok {
			x.set(v, nil)
			return true
		}
		arrayPtr = true
		tg, ln, base, unk = a.tg, u.k(at.Len()), a.base, a.unk
	default:
		x.set(v, nil)
		return true
	}
	// the access succeeds only within bounds
	s.addFact(u.scale(idx, -1))
	s.addFact(u.addc(u.sub(idx, ln), 1))
	if s.dead {
		return false
	}
	// elements of small fixed arrays are separate cells: split on the index
	_, isC := idx.isConst()
	if !isC {
		need := int64(0)
		for _, t := range tg {
			if t.o.raw || strings.Contains(t.path, "!") {
				continue
			}
			if n, ok := fixedLen(t, arrayPtr); ok && n > need {
				need = n
			}
		}
		if need > 0 && need <= 4 && !arrayPtrOff(tg) {
			var alts []*State
			for k := int64(0); k < need; k++ {
				c := s.clone()
				c.addEq(idx, u.k(k))
				if !c.dead && c.prove(u.sub(u.k(k), idx)) {
					alts = append(alts, c)
				} else {
					alts = append(alts, nil)
				}
			}
			x.split(alts, func(n *X) bool {
				k := int64(n.n - x.n*8 - 1)
				n.pinIndex(v.Index, idx, k)
				n.finishIndex(v, tg, u.k(k), esz, el, base, unk, arrayPtr)
				return true
			})
			return false
		}
	}
	x.finishIndex(v, tg, idx, esz, el, base, unk, arrayPtr)
	return true
}

// pinIndex replaces the symbol of a single-symbol index by its value in the values of the state.
func (x *X) pinIndex(v ssa.Value, idx *Lin, k int64) {
	if isTrackable(v) {
		x.s.regs[Reg{x.ctx, v}] = Int{x.e.u.k(k)}
	}
	if sy, c, ok := idx.single(); ok {
		sb := &subst{u: x.e.u, m: map[Sym]*Lin{sy: x.e.u.k(k - c)}, n: map[Sym]Sym{}}
		sb.apply(x.s)
	}
}

func arrayPtrOff(tg []Tgt) bool { return false }

// fixedLen: the target is (a slice over) a small fixed array.
func fixedLen(t Tgt, arrayPtr bool) (int64, bool) {
	path := t.path
	if strings.HasSuffix(path, "[]") {
		path = strings.TrimSuffix(path, "[]")
	} else if !arrayPtr {
		return 0, false
	}
	at := typeAtPath(t.o.typ, path)
	if t.o.arr && strings.HasPrefix(path, "[*]") {
		at = typeAtPath(t.o.typ, path[3:])
	}
	if at == nil {
		return 0, false
	}
	if a, ok := isSmallArray(at); ok {
		return a.Len(), true
	}
	return 0, false
}

func (x *X) finishIndex(v *ssa.IndexAddr, tg []Tgt, idx *Lin, esz int64, el types.Type, base Sym, unk, arrayPtr bool) {
	u := x.e.u
	var out []Tgt
	for _, t := range tg {
		switch {
		case t.o.raw:
			if t.off != nil {
				t.off = u.add(t.off, u.scale(idx, esz))
			}
		case strings.Contains(t.path, "!"):
		case strings.HasSuffix(t.path, "[]"):
			b := strings.TrimSuffix(t.path, "[]")
			k := idx
			if t.off != nil {
				k = u.add(t.off, idx)
			}
			if c, ok := k.isConst(); ok {
				out = append(out, Tgt{t.o, fmt.Sprintf("%s[%d]", b, c), nil})
			} else if n, ok := fixedLen(t, false); ok {
				for i := int64(0); i < n; i++ {
					out = append(out, Tgt{t.o, fmt.Sprintf("%s[%d]", b, i), nil})
				}
			}
			continue
		case arrayPtr:
			if n, ok := fixedLen(t, true); ok {
				if c, ok := idx.isConst(); ok {
					out = append(out, Tgt{t.o, fmt.Sprintf("%s[%d]", t.path, c), nil})
				} else {
					for i := int64(0); i < n; i++ {
						out = append(out, Tgt{t.o, fmt.Sprintf("%s[%d]", t.path, i), nil})
					}
				}
				continue
			}
			out = append(out, Tgt{t.o, t.path + "[*]", idx})
			continue
		default:
			// "[*]" of a dynamic array
			if t.off != nil {
				t.off = u.add(t.off, idx)
			} else {
				t.off = nil
			}
		}
		out = append(out, t)
	}
	id := u.opSym("ia", nil, u.s(baseOr(x, base)), idx)
	x.set(v, Ptr{tg: normTgts(out), id: id, base: base, unk: unk})
	delete(x.s.nilf, id)
	x.s.nilf[id] = false
}

func baseOr(x *X, b Sym) Sym {
	if b == noSym {
		return x.atom("nobase", "base")
	}
	return b
}

func (x *X) slice(v *ssa.Slice) bool {
	u, s, e := x.e.u, x.s, x.e
	lo := u.zero
	if v.Low != nil {
		lo = x.intOf(v.Low)
	}
	var hi, mx *Lin
	if v.High != nil {
		hi = x.intOf(v.High)
	}
	if v.Max != nil {
		mx = x.intOf(v.Max)
	}
	switch a := x.get(v.X).(type) {
	case Slice:
		el := elemOf(v.X.Type())
		esz := e.sizeof(el)
		if hi == nil {
			hi = a.ln
		}
		if mx == nil {
			mx = a.cp
		}
		e.emit(&Ev{kind: "slice", x: x, in: v, sl: a, args: []AV{Int{lo}, Int{hi}}})
		s.addFact(u.scale(lo, -1))
		s.addFact(u.sub(lo, hi))
		s.addFact(u.sub(hi, mx))
		s.addFact(u.sub(mx, a.cp))
		if s.dead {
			return false
		}
		var out []Tgt
		for _, t := range a.tg {
			switch {
			case t.o.raw:
				if h := s.hi(t.o); h != nil && !s.proveLe(hi, a.ln) {
					s.mem[Cell{t.o, hiMark}] = Int{x.maxBound(h, u.zero, "z")} // zeros behind the elements
				}
				if t.off != nil {
					t.off = u.add(t.off, u.scale(lo, esz))
				}
			default:
				if t.off != nil {
					t.off = u.add(t.off, lo)
				}
			}
			out = append(out, t)
		}
		x.set(v, Slice{tg: normTgts(out), ln: u.sub(hi, lo), cp: u.sub(mx, lo), unk: a.unk, nk: a.nk, base: a.base})
	case Ptr:
		at, ok := elemOf(v.X.Type()).Underlying().(*types.Array)
		if !ok {
			x.set(v, nil)
			return true
		}
		if x.s.nilOf(a) == 1 {
			e.emit(&Ev{kind: "nilderef", x: x, in: v, ptr: a})
			s.dead = true
			return false
		}
		n := u.k(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.emit(&Ev{kind: "ptrslice", x: x, in: v, ptr: a, typ: at, args: []AV{Int{lo}, Int{hi}}})
		s.addFact(u.scale(lo, -1))
		s.addFact(u.sub(lo, hi))
		if at.Len() < 1<<29 {
			s.addFact(u.sub(hi, n))
		}
		if s.dead {
			return false
		}
		esz := e.sizeof(at.Elem())
		var out []Tgt
		for _, t := range a.tg {
			switch {
			case t.o.raw:
				if t.off != nil {
					t.off = u.add(t.off, u.scale(lo, esz))
				}
			case strings.Contains(t.path, "!"):
			case at.Len() <= smallArr && t.o.typ != nil:
				t.path += "[]"
				t.off = lo
			case t.o.arr && t.path == "":
				t.path = "[*]"
				t.off = lo
			default:
				t.path += "!"
			}
			out = append(out, t)
		}
		x.set(v, Slice{tg: normTgts(out), ln: u.sub(hi, lo), cp: u.sub(mx, lo), unk: a.unk, base: a.base})
	case Flt:
		x.set(v, Flt{u.term("substr", a.t, u.tlin(lo))})
	default:
		x.set(v, nil)
	}
	return true
}

func (x *X) mapObjs(a AV) ([]*Obj, bool) {
	p, ok := a.(Ptr)
	if !ok {
		return nil, true
	}
	var os []*Obj
	for _, t := range p.tg {
		os = append(os, t.o)
	}
	return os, p.unk || len(os) == 0
}

func (x *X) mapUpdate(v *ssa.MapUpdate) {
	os, _ := x.mapObjs(x.get(v.Map))
	val := x.get(v.Value)
	x.e.emit(&Ev{kind: "mapset", x: x, in: v, val: val, args: []AV{x.get(v.Map), x.get(v.Key)}})
	for _, o := range os {
		x.storeT(Tgt{o, "[*]", nil}, v.Value.Type(), val, false)
	}
}

func (x *X) lookup(v *ssa.Lookup) {
	if _, ok := v.X.Type().Underlying().(*types.Map); !ok {
		x.set(v, nil)
		return
	}
	os, unk := x.mapObjs(x.get(v.X))
	et := elemOf(v.X.Type())
	vs := []AV{x.e.zeroAV(et)}
	for _, o := range os {
		vs = append(vs, x.loadT(Tgt{o, "[*]", nil}, et))
	}
	if unk {
		vs = append(vs, x.fresh("lk", et, "maplookup"))
	}
	r := x.union("lku", vs)
	x.e.emit(&Ev{kind: "mapget", x: x, in: v, args: []AV{x.get(v.X), x.get(v.Index)}, val: r})
	if v.CommaOk {
		x.set(v, Agg{fs: []AV{r, x.fresh("ok", types.Typ[types.Bool], "ok")}})
		return
	}
	x.set(v, r)
}

func (x *X) next(v *ssa.Next) {
	if !v.IsString {
		x.e.emit(&Ev{kind: "maprange", x: x, in: v})
	}
	tt := v.Type().(*types.Tuple)
	a := Agg{fs: []AV{x.fresh("ok", types.Typ[types.Bool], "ok")}}
	for i := 1; i < 3; i++ {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			a.fs = append(a.fs, Opq{noSym})
			continue
		}
		if i == 2 && !v.IsString {
			os, unk := x.mapObjs(x.get(v.Iter))
			var vs []AV
			for _, o := range os {
				vs = append(vs, x.loadT(Tgt{o, "[*]", nil}, t))
			}
			if unk || len(vs) == 0 {
				vs = append(vs, x.fresh("nx", t, "next"))
			}
			a.fs = append(a.fs, x.union("nxu", vs))
			continue
		}
		a.fs = append(a.fs, x.fresh(fmt.Sprintf("nx%d", i), t, "next"))
	}
	x.set(v, a)
}

func (x *X) typeAssert(v *ssa.TypeAssert) bool {
	f, ok := x.get(v.X).(Iface)
	if !ok {
		x.set(v, nil)
		return true
	}
	toIface := types.IsInterface(v.AssertedType)
	match := func(t types.Type) bool {
		if toIface {
			return types.Implements(t, v.AssertedType.Underlying().(*types.Interface))
		}
		return types.Identical(t, v.AssertedType)
	}
	var good []Alt
	bad := 0
	for _, al := range f.alts {
		if match(al.t) {
			good = append(good, al)
		} else {
			bad++
		}
	}
	n := x.s.nilOf(f)
	canFail := bad > 0 || f.unk || n != 2
	canHold := (len(good) > 0 || f.unk) && n != 1
	var val AV
	if toIface {
		val = Iface{alts: good, nk: nnNon, id: f.id, unk: f.unk}
	} else if len(good) > 0 {
		var vs []AV
		for _, g := range good {
			vs = append(vs, g.v)
		}
		val = x.union("ta", vs)
	} else {
		val = x.fresh("ta", v.AssertedType, "assert")
	}
	if !v.CommaOk {
		if !canHold {
			x.e.emit(&Ev{kind: "badassert", x: x, in: v})
			x.s.dead = true
			return false
		}
		if canFail {
			x.e.emit(&Ev{kind: "mayassert", x: x, in: v})
		}
		if toIface && n == 0 && f.id != noSym {
			x.s.nilf[f.id] = false
		}
		x.set(v, val)
		return true
	}
	var alts []*State
	var outs []AV
	if canHold {
		alts = append(alts, x.s.clone())
		outs = append(outs, Agg{fs: []AV{val, Bool{k: 1}}})
	}
	if canFail {
		alts = append(alts, x.s.clone())
		outs = append(outs, Agg{fs: []AV{x.e.zeroAV(v.AssertedType), Bool{k: 2}}})
	}
	base := x.n * 8
	x.split(alts, func(n *X) bool {
		n.set(v, outs[n.n-base-1])
		return true
	})
	return false
}

func sortedCells(m map[Cell]AV) []Cell {
	out := make([]Cell, 0, len(m))
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.id != out[j].o.id {
			return out[i].o.id < out[j].o.id
		}
		return out[i].path < out[j].path
	})
	return out
}

var traceOn = os.Getenv("TRACE") != ""
