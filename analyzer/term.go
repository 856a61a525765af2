package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------------------
// Symbols, linear forms and float terms. All are hash-consed per universe: pointer equality is semantic identity of the
// expression.

// Sym is an unknown integer (or float, or opaque) value.
type Sym int32

type symKind uint8

const (
	skAtom symKind = iota // value produced at a program point (load from unknown memory, call result, input)
	skPhi                 // value merged at a program point
	skOp                  // pure function of other expressions (product, quotient, load of raw memory ...)
)

type symInfo struct {
	id    Sym
	kind  symKind
	key   string
	desc  string
	at    *Point // definition point of atoms and phis (nil: an input that is defined once)
	op    string
	args  []*Lin
	objs  []*Obj
	ts    []*Term
	hasLo bool
	lo    int64
	hasHi bool
	hi    int64
	deps  []Sym // syms this one depends on (ops only, transitive)
	meta  any
}

type lt struct {
	s Sym
	k int64
}

// Lin is a linear form c + sum k_i*s_i.
type Lin struct {
	id  int
	c   int64
	ts  []lt
	key string
}

// Term is a float (or string, or other uninterpreted) expression.
type Term struct {
	id   int
	op   string
	args []*Term
	lin  *Lin
	sym  Sym // op "sym"
	f    float64
	s    string
	key  string
}

// Univ interns everything of one analysis run.
type Univ struct {
	syms  []*symInfo
	bykey map[string]Sym
	lins  map[string]*Lin
	terms map[string]*Term
	zero  *Lin
	ment  map[Sym][]Sym // quotients whose defining equation mentions a symbol
	axs   map[Sym][]*Lin
	comm  bool // floating point terms are brought to a normal form
}

func newUniv() *Univ {
	u := &Univ{bykey: map[string]Sym{}, lins: map[string]*Lin{}, terms: map[string]*Term{}, ment: map[Sym][]Sym{}, axs: map[Sym][]*Lin{}}
	u.zero = u.mk(0, nil)
	return u
}

func (u *Univ) info(s Sym) *symInfo { return u.syms[s] }

func (u *Univ) lookup(key string) (Sym, bool) { s, ok := u.bykey[key]; return s, ok }

func (u *Univ) sym(kind symKind, key string, at *Point) Sym {
	if s, ok := u.bykey[key]; ok {
		return s
	}
	s := Sym(len(u.syms))
	u.syms = append(u.syms, &symInfo{id: s, kind: kind, key: key, at: at})
	u.bykey[key] = s
	return s
}

// opSym interns a pure operation.
func (u *Univ) opSym(op string, objs []*Obj, args ...*Lin) Sym {
	var b strings.Builder
	b.WriteString("op:")
	b.WriteString(op)
	for _, o := range objs {
		fmt.Fprintf(&b, "|o%d", o.id)
	}
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if s, ok := u.bykey[k]; ok {
		return s
	}
	s := u.sym(skOp, k, nil)
	in := u.info(s)
	in.op, in.args, in.objs = op, args, objs
	seen := map[Sym]bool{}
	for _, a := range args {
		for _, t := range a.ts {
			seen[t.s] = true
			for _, d := range u.info(t.s).deps {
				seen[d] = true
			}
		}
	}
	for d := range seen {
		in.deps = append(in.deps, d)
	}
	sort.Slice(in.deps, func(i, j int) bool { return in.deps[i] < in.deps[j] })
	return s
}

func linKey(c int64, ts []lt) string {
	b := make([]byte, 0, 8+len(ts)*8)
	b = strconv.AppendInt(b, c, 36)
	for _, t := range ts {
		b = append(b, ';')
		b = strconv.AppendInt(b, int64(t.s), 36)
		b = append(b, '*')
		b = strconv.AppendInt(b, t.k, 36)
	}
	return string(b)
}

func (u *Univ) mk(c int64, ts []lt) *Lin {
	k := linKey(c, ts)
	if l, ok := u.lins[k]; ok {
		return l
	}
	l := &Lin{id: len(u.lins), c: c, ts: ts, key: k}
	u.lins[k] = l
	return l
}

func (u *Univ) k(c int64) *Lin { return u.mk(c, nil) }
func (u *Univ) s(s Sym) *Lin   { return u.mk(0, []lt{{s, 1}}) }

// comb returns a*x + b*y.
func (u *Univ) comb(a int64, x *Lin, b int64, y *Lin) *Lin {
	ts := make([]lt, 0, len(x.ts)+len(y.ts))
	i, j := 0, 0
	for i < len(x.ts) || j < len(y.ts) {
		switch {
		case j >= len(y.ts) || (i < len(x.ts) && x.ts[i].s < y.ts[j].s):
			if a != 0 {
				ts = append(ts, lt{x.ts[i].s, a * x.ts[i].k})
			}
			i++
		case i >= len(x.ts) || y.ts[j].s < x.ts[i].s:
			if b != 0 {
				ts = append(ts, lt{y.ts[j].s, b * y.ts[j].k})
			}
			j++
		default:
			if k := a*x.ts[i].k + b*y.ts[j].k; k != 0 {
				ts = append(ts, lt{x.ts[i].s, k})
			}
			i++
			j++
		}
	}
	return u.mk(a*x.c+b*y.c, ts)
}

func (u *Univ) add(x, y *Lin) *Lin         { return u.comb(1, x, 1, y) }
func (u *Univ) sub(x, y *Lin) *Lin         { return u.comb(1, x, -1, y) }
func (u *Univ) addc(x *Lin, c int64) *Lin  { return u.mk(x.c+c, x.ts) }
func (u *Univ) scale(x *Lin, k int64) *Lin { return u.comb(k, x, 0, u.zero) }
func (l *Lin) isConst() (int64, bool)      { return l.c, len(l.ts) == 0 }
func (l *Lin) single() (s Sym, c int64, ok bool) {
	if len(l.ts) == 1 && l.ts[0].k == 1 {
		return l.ts[0].s, l.c, true
	}
	return 0, 0, false
}

func (l *Lin) coef(s Sym) int64 {
	for _, t := range l.ts {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

// mul multiplies two linear forms.
func (u *Univ) mul(x, y *Lin) *Lin {
	if c, ok := x.isConst(); ok {
		return u.scale(y, c)
	}
	if c, ok := y.isConst(); ok {
		return u.scale(x, c)
	}
	// distribute over the terms so that (i+1)*s == i*s + s
	res := u.zero
	add := func(l *Lin) { res = u.add(res, l) }
	xs := append([]lt{}, x.ts...)
	ys := append([]lt{}, y.ts...)
	for _, a := range xs {
		for _, b := range ys {
			p, q := a.s, b.s
			if q < p {
				p, q = q, p
			}
			m := u.opSym("mul", nil, u.s(p), u.s(q))
			if u.info(a.s).hasLo && u.info(a.s).lo >= 0 && u.info(b.s).hasLo && u.info(b.s).lo >= 0 {
				in := u.info(m)
				in.hasLo, in.lo = true, 0
			}
			add(u.mk(0, []lt{{m, a.k * b.k}}))
		}
	}
	if x.c != 0 {
		for _, b := range ys {
			add(u.mk(0, []lt{{b.s, x.c * b.k}}))
		}
	}
	if y.c != 0 {
		for _, a := range xs {
			add(u.mk(0, []lt{{a.s, y.c * a.k}}))
		}
	}
	return u.addc(res, x.c*y.c)
}

// div and rem: integer division of a nonnegative form by a positive one.
func (u *Univ) div(x, y *Lin) *Lin {
	if c, ok := y.isConst(); ok && c > 0 {
		if x.c%c == 0 {
			all := true
			for _, t := range x.ts {
				if t.k%c != 0 {
					all = false
				}
			}
			if all {
				ts := make([]lt, len(x.ts))
				for i, t := range x.ts {
					ts[i] = lt{t.s, t.k / c}
				}
				return u.mk(x.c/c, ts)
			}
		}
		if a, ok := x.isConst(); ok {
			return u.k(a / c)
		}
	}
	s := u.opSym("div", nil, x, y)
	in := u.info(s)
	if !in.hasLo {
		in.hasLo, in.lo = true, 0
		for _, t := range u.axioms(s)[1].ts {
			if t.s != s {
				u.ment[t.s] = append(u.ment[t.s], s)
			}
		}
	}
	return u.s(s)
}

func (u *Univ) rem(x, y *Lin) *Lin {
	if c, ok := y.isConst(); ok && c > 0 {
		if a, ok := x.isConst(); ok {
			return u.k(a % c)
		}
	}
	s := u.opSym("rem", nil, x, y)
	in := u.info(s)
	in.hasLo, in.lo = true, 0
	return u.s(s)
}

func (u *Univ) linStr(l *Lin) string {
	if l == nil {
		return "?"
	}
	var b strings.Builder
	for i, t := range l.ts {
		if t.k >= 0 && i > 0 {
			b.WriteString("+")
		}
		if t.k == -1 {
			b.WriteString("-")
		} else if t.k != 1 {
			fmt.Fprintf(&b, "%d*", t.k)
		}
		b.WriteString(u.symStr(t.s))
	}
	if l.c != 0 || len(l.ts) == 0 {
		if l.c >= 0 && len(l.ts) > 0 {
			b.WriteString("+")
		}
		fmt.Fprintf(&b, "%d", l.c)
	}
	return b.String()
}

func (u *Univ) symStr(s Sym) string {
	in := u.info(s)
	if in.op != "" {
		var a []string
		for _, o := range in.objs {
			a = append(a, o.String())
		}
		for _, x := range in.args {
			a = append(a, u.linStr(x))
		}
		return in.op + "(" + strings.Join(a, ",") + ")"
	}
	if in.desc != "" {
		return in.desc + "#" + strconv.Itoa(int(s))
	}
	return in.key
}

// ---- float terms ------------------------------------------------------------------------------------------------

func (u *Univ) term(op string, args ...*Term) *Term {
	if u.comm {
		return u.normal(op, args)
	}
	return u.rawTerm(op, args...)
}

// normal builds a term after exact rewriting: commuted operands, negations moved outwards, conversions that lose nothing.
func (u *Univ) normal(op string, args []*Term) *Term {
	neg := func(t *Term) *Term { return u.normal("neg", []*Term{t}) }
	a := args[0]
	var b *Term
	if len(args) > 1 {
		b = args[1]
	}
	isK := func(t *Term, k float64) bool { return t != nil && t.op == "const" && t.f == k }
	switch op {
	case "neg":
		switch a.op {
		case "neg":
			return a.args[0]
		case "const":
			return u.tconst(-a.f)
		case "sub":
			return u.normal("sub", []*Term{a.args[1], a.args[0]})
		case "min", "max":
			o := map[string]string{"min": "max", "max": "min"}[a.op]
			return u.normal(o, []*Term{neg(a.args[0]), neg(a.args[1])})
		}
	case "add":
		switch {
		case isK(a, 0):
			return b
		case isK(b, 0):
			return a
		case b.op == "neg":
			return u.normal("sub", []*Term{a, b.args[0]})
		case a.op == "neg":
			return u.normal("sub", []*Term{b, a.args[0]})
		}
	case "sub":
		switch {
		case isK(b, 0):
			return a
		case isK(a, 0):
			return neg(b)
		case b.op == "neg":
			return u.normal("add", []*Term{a, b.args[0]})
		}
	case "mul":
		switch {
		case isK(a, 1):
			return b
		case isK(b, 1):
			return a
		case isK(a, -1):
			return neg(b)
		case isK(b, -1):
			return neg(a)
		case a.op == "neg":
			return neg(u.normal("mul", []*Term{a.args[0], b}))
		case b.op == "neg":
			return neg(u.normal("mul", []*Term{a, b.args[0]}))
		}
	case "quo":
		switch {
		case isK(b, 1):
			return a
		case a.op == "neg":
			return neg(u.normal("quo", []*Term{a.args[0], b}))
		case b.op == "neg":
			return neg(u.normal("quo", []*Term{a, b.args[0]}))
		}
	case "conv32", "conv64":
		switch {
		case a.op == "const":
			return a
		case a.op == "neg":
			return neg(u.normal(op, []*Term{a.args[0]}))
		case op == "conv32" && a.op == "conv64":
			return a.args[0]
		case a.op == "min" || a.op == "max":
			return u.normal(a.op, []*Term{u.normal(op, []*Term{a.args[0]}), u.normal(op, []*Term{a.args[1]})})
		}
	case "min", "max":
		if a == b {
			return a
		}
	}
	switch op {
	case "add", "mul", "min", "max":
		if a.id > b.id {
			args = []*Term{b, a}
		}
	}
	return u.rawTerm(op, args...)
}

func (u *Univ) rawTerm(op string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	return u.internTerm(b.String(), &Term{op: op, args: args})
}

func (u *Univ) internTerm(k string, t *Term) *Term {
	if o, ok := u.terms[k]; ok {
		return o
	}
	t.id, t.key = len(u.terms), k
	u.terms[k] = t
	return t
}

func (u *Univ) tconst(f float64) *Term {
	return u.internTerm(fmt.Sprintf("const:%v", f), &Term{op: "const", f: f})
}
func (u *Univ) tstr(s string) *Term {
	return u.internTerm("str:"+s, &Term{op: "str", s: s})
}
func (u *Univ) tsym(s Sym) *Term {
	return u.internTerm(fmt.Sprintf("sym:%d", s), &Term{op: "sym", sym: s})
}
func (u *Univ) tlin(l *Lin) *Term {
	return u.internTerm(fmt.Sprintf("lin:%d", l.id), &Term{op: "lin", lin: l})
}

func (u *Univ) termStr(t *Term) string { return u.termStrD(t, 0) }
func (u *Univ) termStrD(t *Term, d int) string {
	if d > 12 {
		return "..."
	}
	switch t.op {
	case "const":
		return strconv.FormatFloat(t.f, 'g', -1, 64)
	case "str":
		return strconv.Quote(t.s)
	case "sym":
		return u.symStr(t.sym)
	case "lin":
		return "(" + u.linStr(t.lin) + ")"
	}
	var a []string
	for _, x := range t.args {
		a = append(a, u.termStrD(x, d+1))
	}
	return t.op + "(" + strings.Join(a, ",") + ")"
}

// ---- dependencies and substitution --------------------------------------------------------------------------------

func (u *Univ) linSyms(l *Lin, f func(Sym)) {
	if l == nil {
		return
	}
	for _, t := range l.ts {
		f(t.s)
		for _, d := range u.info(t.s).deps {
			f(d)
		}
	}
}

func (u *Univ) termSyms(t *Term, f func(Sym)) {
	switch t.op {
	case "sym":
		f(t.sym)
		for _, d := range u.info(t.sym).deps {
			f(d)
		}
	case "lin":
		u.linSyms(t.lin, f)
	}
	for _, a := range t.args {
		u.termSyms(a, f)
	}
}
