package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harnessCall interprets the functions of the driver that stand for arbitrary values and annotations.
func (x *X) harnessCall(in ssa.Instruction, fn *ssa.Function, cl callee, v ssa.Value) (done, cont bool) {
	e, s, u := x.e, x.s, x.e.u
	name := fn.Name()
	if i := strings.IndexByte(name, '['); i > 0 {
		name = name[:i]
	}
	str := func(i int) string {
		if i < len(cl.args) {
			if f, ok := cl.args[i].(Flt); ok && f.t.op == "str" {
				return f.t.s
			}
		}
		return "?"
	}
	switch name {
	case "anyBool", "anyInt", "anyIX", "anyFloat", "anyString":
		x.result(v, nil)
	case "anyVec", "anyIDs":
		el := elemOf(v.Type())
		at := x.here()
		o := e.obj("X:"+x.key("vec"), func() *Obj {
			return &Obj{kind: okExtern, typ: el, arr: true, raw: true, at: at, desc: "callers slice", tag: "caller"}
		})
		x.kill(o)
		s.mem[Cell{o, liveMark}] = Int{u.zero}
		ln := u.s(x.natom("vlen", "len"))
		x.setExt(o, u.scale(ln, e.sizeof(el)))
		id := x.atom("vec", "vec")
		delete(s.nilf, id)
		x.set(v, Slice{tg: []Tgt{{o, "", u.zero}}, ln: ln, cp: ln, nk: nnMaybe, base: id})
	case "assume":
		b, _ := cl.args[0].(Bool)
		if b.k == 2 {
			s.dead = true
		} else if b.k == 0 && b.c != nil {
			x.assume(b.c, true)
		}
		return true, !s.dead
	case "mark":
		s.tags["at:"+str(0)] = "1"
		e.emit(&Ev{kind: "mark", x: x, in: in, name: str(0)})
	case "unmark":
		delete(s.tags, "at:"+str(0))
		e.emit(&Ev{kind: "unmark", x: x, in: in, name: str(0)})
	case "begin":
		for k := range s.tags {
			if strings.HasPrefix(k, "did:") || k == "fail" || k == "panicked" || strings.HasPrefix(k, "pre:") || strings.HasPrefix(k, "leak:") || strings.HasPrefix(k, "name:") {
				delete(s.tags, k)
			}
		}
		s.tags["op"] = str(0)
		delete(s.tags, "target")
		e.emit(&Ev{kind: "begin", x: x, in: in, name: str(0)})
	case "target":
		if f, ok := cl.args[0].(Flt); ok {
			k := u.termStr(f.t)
			e.strTerms[k] = f.t
			s.tags["target"] = k
		}
	case "end":
		s.gc()
		e.emit(&Ev{kind: "end", x: x, in: in, name: str(0)})
		delete(s.tags, "op")
		for k := range s.tags {
			if strings.HasPrefix(k, "did:") || k == "fail" || k == "panicked" || strings.HasPrefix(k, "pre:") || strings.HasPrefix(k, "leak:") || strings.HasPrefix(k, "name:") {
				delete(s.tags, k)
			}
		}
	case "result":
		var vals []AV
		if sl, ok := cl.args[1].(Slice); ok && len(sl.tg) == 1 {
			t := sl.tg[0]
			b := strings.TrimSuffix(t.path, "[]")
			if n, ok := sl.ln.isConst(); ok {
				for i := int64(0); i < n; i++ {
					a := x.loadT(Tgt{t.o, fmt.Sprintf("%s[%d]", b, i), nil}, elemOf(fn.Signature.Params().At(1).Type()))
					if f, ok := a.(Iface); ok && len(f.alts) == 1 && !isErrorType(f.alts[0].t) {
						a = f.alts[0].v
					}
					vals = append(vals, a)
				}
			}
		}
		e.emit(&Ev{kind: "result", x: x, in: in, name: str(0), args: vals})
	case "state":
		var o *Obj
		if f, ok := cl.args[1].(Iface); ok && len(f.alts) == 1 {
			if t, ok := single(f.alts[0].v); ok {
				o = t.o
			}
		}
		if str(0) == "pre" {
			for k := range s.tags {
				if strings.HasPrefix(k, "pre:") {
					delete(s.tags, k)
				}
			}
			if o != nil && o.typ != nil {
				for _, l := range leaves(o.typ) {
					if k := boolField(s, o, l.path); k != 0 {
						s.tags["pre:"+l.path] = map[int8]string{1: "true", 2: "false"}[k]
					}
				}
			}
		}
		if n := str(0); n != "pre" && n != "after" && s.tags["panicked"] == "" {
			s.tags["hist"] = n
		}
		e.emit(&Ev{kind: "state", x: x, in: in, name: str(0), obj: o})
	case "keep":
	case "pin":
		// the object stays known to every goroutine
		avObjs(cl.args[0], func(o *Obj) { s.mem[Cell{o, "#pin"}] = Int{e.u.zero} })
	default:
		return false, true
	}
	return true, true
}

// findRec marks functions that may call themselves.
func (e *Engine) findRec() {
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range e.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 {
						calls[f] = append(calls[f], g)
					}
				}
			}
		}
	}
	for _, f := range e.p.funcs {
		seen := map[*ssa.Function]bool{}
		var dfs func(g *ssa.Function) bool
		dfs = func(g *ssa.Function) bool {
			for _, h := range calls[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if dfs(h) {
						return true
					}
				}
			}
			return false
		}
		if dfs(f) {
			e.mayRec[f] = true
		}
	}
}

// analyse runs the analysis of one entry function to a fixpoint over rounds and then the observers.
func (e *Engine) analyse(fn *ssa.Function) error {
	if fn == nil {
		return fmt.Errorf("entry function not found")
	}
	e.findRec()
	e.started = time.Now()
	var root *Ctx
	for round := 0; ; round++ {
		e.reset()
		e.issues = map[string]string{}
		if root == nil {
			root = e.newCtx(fn, nil, nil, "root")
		}
		s := newState(e)
		e.flow("root", "", e.point(root, fn.Blocks[0], 0, ""), s, false)
		if err := e.run(); err != nil {
			return err
		}
		// check what was assumed
		obs := e.obs
		e.obs = nil
		e.report()
		e.obs = obs
		if e.debug {
			fmt.Fprintf(os.Stderr, "round %d: %d steps, %d joins, %d proofs, %d points, %v\n", round, e.steps, e.nJoins, e.nProve, len(e.sts), time.Since(e.started).Round(time.Millisecond))
		}
		if !e.settle() {
			break
		}
		if round > 25 {
			return fmt.Errorf("the interference between goroutines did not stabilise")
		}
	}
	e.nFinalStates, e.nInstr = 0, 0
	e.report()
	return nil
}

// settle compares the results of a round with its assumptions; true: another round is needed.
func (e *Engine) settle() bool {
	again := false
	// invariants that failed are dropped
	var keep []*inv
	for _, iv := range e.inter.invs {
		if why := e.invBad[iv.key()]; why != "" {
			e.invDead[iv.key()] = why
			again = true
			if e.debug {
				fmt.Fprintln(os.Stderr, "  drop", iv.key(), iv.a.path, iv.b.path, why)
			}
			continue
		}
		keep = append(keep, iv)
	}
	e.inter.invs = keep
	// writes of the threads
	if e.sawGo {
		first := !e.inter.on
		e.inter.on = true
		if first {
			return true
		}
		for c, w := range e.wNow {
			o := e.inter.w[c]
			if o == nil {
				e.inter.w[c] = &wcell{locks: copySet(w.locks), init: true, mono: w.mono}
				again = true
				continue
			}
			for k := range o.locks {
				if !w.locks[k] {
					delete(o.locks, k)
					again = true
				}
			}
			if o.mono && !w.mono {
				o.mono = false
				again = true
			}
		}
	}
	// counters that recursive calls only advance
	mono := map[Cell]bool{}
	for _, m := range e.recNow {
		for c := range m {
			if !e.recDec[c] && (e.inter.recMono == nil || e.inter.recMono[c]) {
				mono[c] = true
			}
		}
	}
	if len(mono) != len(e.inter.recMono) {
		again = true
	}
	e.inter.recMono = mono
	var cells []Cell
	for c := range e.inter.w {
		cells = append(cells, c)
	}
	for _, m := range e.recNow {
		for c := range m {
			cells = append(cells, c)
		}
	}
	n := len(e.inter.invs)
	e.proposeInvs(cells, nil)
	if len(e.inter.invs) != n {
		again = true
	}
	return again
}

func copySet(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

var _ = types.Typ
var _ = sort.Strings
