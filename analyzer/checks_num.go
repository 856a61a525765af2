package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about numbers: signs, divisions, widths.

var distCfg = Config{MaxDisj: 800}

func distUses(obs func(r *Run) func(*Ev)) []HarnessUse {
	return []HarnessUse{
		{name: "hDistAngular", generic: true, cfg: distCfg, observe: obs},
		{name: "hDistDot", generic: true, cfg: distCfg, observe: obs},
		{name: "hVec", generic: true, cfg: distCfg, observe: obs},
	}
}

func init() {
	register(&Check{
		id:     "C22",
		uses:   append(distUses(observeC22), searchUses(observeC22)...),
		min:    map[string]int{"square roots are of non-negative numbers": 1, "divisors are not zero": 1},
		expl:   "Sign analysis (negative, zero, positive) of floating point terms, with underflow of products and narrowing conversions, over every path of the distance, norm, split and search code on nodes and vectors with arbitrary finite contents: the argument of every square root is never negative, every divisor is never zero, and no explicit or division panic is reachable with at least two nodes.",
		assume: []string{"finite inputs, and no intermediate result overflows to infinity", "splits are made of at least two nodes (C07)"},
		combos: 2,
	})
}

func fterm(a AV) *Term {
	if f, ok := a.(Flt); ok {
		return f.t
	}
	return nil
}

func signName(g uint8) string {
	var p []string
	if g&sgNeg != 0 {
		p = append(p, "negative")
	}
	if g&sgZero != 0 {
		p = append(p, "zero")
	}
	if g&sgPos != 0 {
		p = append(p, "positive")
	}
	return strings.Join(p, " or ")
}

func observeC22(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		con := shortFn(x.ctx.fn)
		sign := func(i int) uint8 {
			if i < len(ev.args) {
				if t := fterm(ev.args[i]); t != nil {
					return s.signOf(t)
				}
			}
			return sgAny
		}
		str := func(i int) string {
			if t := fterm(ev.args[i]); t != nil {
				return x.e.u.termStr(t)
			}
			return "?"
		}
		switch ev.kind {
		case "sqrt":
			g := sign(0)
			r.ob("square roots are of non-negative numbers", con, g&sgNeg == 0, "the argument "+str(0)+" may be "+signName(g)+" in "+r.at(ev))
		case "fdiv":
			g := sign(1)
			r.ob("divisors are not zero", con, g&sgZero == 0, "the divisor "+str(1)+" may be "+signName(g)+" in "+r.at(ev))
		case "mathfn":
			ok := false
			switch ev.name {
			case "math.Pow":
				if t := fterm(ev.args[1]); t != nil && t.op == "const" && t.f >= 0 && t.f == float64(int(t.f)) {
					ok = true
				} else {
					ok = sign(0)&sgNeg == 0 && sign(1)&sgNeg == 0
				}
			case "math.Exp", "math.Hypot", "math.Cos", "math.Sin":
				ok = true
			case "math.Log":
				ok = sign(0) == sgPos
			case "math.Mod":
				ok = sign(1)&sgZero == 0
			}
			r.ob("functions are applied within their domain", con+" "+ev.name, ok, "in "+r.at(ev))
		case "idiv":
			if strings.HasPrefix(r.harness, "hSearch") {
				return
			}
			b, ok := ev.args[1].(Int)
			u := x.e.u
			r.ob("divisors are not zero", con+" (integer)", ok && s.provesNe(b.l) || ok && s.prove(u.addc(u.scale(b.l, -1), 1)), "the divisor may be zero in "+r.at(ev))
		case "panic":
			if strings.HasPrefix(r.harness, "hSearch") {
				return
			}
			r.ob("no panic", con, false, "a panic is reachable with valid arguments: "+r.at(ev))
		}
	}
}

func init() {
	register(&Check{
		id: "C21",
		uses: append(append(distUses(observeC21), searchUses(observeC21)...),
			HarnessUse{name: "hLifeMmap", generic: true, cfg: lifeArgs, observe: observeC21},
			HarnessUse{name: "hLifeFile", generic: true, cfg: lifeArgs, observe: observeC21},
			HarnessUse{name: "hOpenMmap", cfg: lifeCfg, observe: observeC21},
			HarnessUse{name: "hOpenFile", cfg: lifeCfg, observe: observeC21},
			HarnessUse{name: "hBuildAngularSingle", generic: true, cfg: Config{MaxDisj: 800}, observe: observeC21}),
		min:    map[string]int{"products of run-time quantities are computed in 64 bits": 1, "byte quantities are not converted to narrower types": 1, "byte offsets are computed in 64 bits": 1},
		expl:   "Symbolic width analysis with 32-bit ids: every multiplication and conversion reachable from adding, building, saving, loading and searching is evaluated symbolically; a product of two run-time quantities, a file size or an offset of a pointer that is computed, kept or converted in a type narrower than 64 bits must be provably below 2^32 for vector lengths up to 2^20.",
		assume: []string{"a single node is smaller than 2^32 bytes"},
	})
}

// byteQuantity: a linear form with a product of run-time quantities or a file size.
func byteQuantity(u *Univ, l *Lin) bool {
	if l == nil {
		return false
	}
	for _, t := range l.ts {
		in := u.info(t.s)
		if in.op == "mul" || in.op == "fsize" {
			return true
		}
		if mt, ok := in.meta.(*Term); ok && bigTerm(u, mt) {
			return true
		}
	}
	return false
}

// bigTerm: a float computed from a byte quantity or a product of two run-time quantities.
func bigTerm(u *Univ, t *Term) bool {
	switch t.op {
	case "lin":
		return byteQuantity(u, t.lin)
	case "mul":
		n := 0
		for _, a := range t.args {
			for a.op == "conv32" || a.op == "conv64" {
				a = a.args[0]
			}
			if a.op == "lin" {
				if _, c := a.lin.isConst(); !c {
					n++
				}
			}
			if bigTerm(u, a) {
				return true
			}
		}
		return n >= 2
	case "add", "sub", "conv32", "conv64", "max", "min", "ceil", "floor", "round", "neg":
		for _, a := range t.args {
			if bigTerm(u, a) {
				return true
			}
		}
	}
	return false
}

func observeC21(r *Run) func(*Ev) {
	if r.combo.TIX != "uint32" {
		return nil
	}
	const lim = int64(1)<<32 - 1
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		con := shortFn(x.ctx.fn)
		small := func(l *Lin) bool { return l != nil && s.proveMul(u.addc(l, -lim)) }
		switch ev.kind {
		case "imul":
			a, b := ev.args[0].(Int).l, ev.args[1].(Int).l
			if _, c := a.isConst(); c {
				return
			}
			if _, c := b.isConst(); c {
				return
			}
			ok := x.e.sizeof(ev.typ) >= 8
			if !ok && !a.isBig() && !b.isBig() {
				ok = small(u.mul(a, b))
			}
			r.ob("products of run-time quantities are computed in 64 bits", con, ok, u.linStr(a)+" times "+u.linStr(b)+" in "+ev.typ.String()+": "+r.at(ev))
		case "iconv":
			if isFloat(ev.typ) {
				if n, ok := ev.val.(Int); ok && byteQuantity(u, n.l) {
					r.ob("byte quantities are not converted to narrower types", con+" to "+ev.typ.String(), x.e.sizeof(ev.typ) >= 8, u.linStr(n.l)+" in "+r.at(ev))
				}
				return
			}
			narrow := x.e.sizeof(ev.typ) < 8
			switch v := ev.val.(type) {
			case Int:
				if byteQuantity(u, v.l) {
					r.ob("byte quantities are not converted to narrower types", con+" to "+ev.typ.String(), !narrow || small(v.l), u.linStr(v.l)+" in "+r.at(ev))
				}
			case Flt:
				if bigTerm(u, v.t) {
					r.ob("byte quantities are not converted to narrower types", con+" to "+ev.typ.String(), !narrow, u.termStr(v.t)+" in "+r.at(ev))
				}
			}
		case "ptradd":
			c, ok := ev.in.(*ssa.Call)
			if !ok {
				return
			}
			off := c.Call.Args[1]
			for {
				cv, ok := off.(*ssa.Convert)
				if !ok {
					break
				}
				off = cv.X
			}
			if _, ok := off.(*ssa.Const); ok {
				return
			}
			ok = x.e.sizeof(off.Type()) >= 8 || small(ev.ln)
			r.ob("byte offsets are computed in 64 bits", con, ok, "offset "+u.linStr(ev.ln)+" in "+off.Type().String()+": "+r.at(ev))
		}
	}
}
