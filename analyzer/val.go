package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------------------------------------------------
// Contexts and points of the inlined program.

// Ctx is one inlined activation of a function.
type Ctx struct {
	id     int
	fn     *ssa.Function
	parent *Ctx
	site   ssa.Instruction // call, go or defer instruction in parent
	kind   string          // "call", "go", "defer"
	depth  int
	kids   map[ctxKey]*Ctx
	rec    bool // some call below re-enters this activation (recursion)
	bindOf map[string]int
	prio   []int32 // program order path
}

type ctxKey struct {
	site ssa.Instruction
	fn   *ssa.Function
	kind string
}

func (c *Ctx) String() string {
	if c == nil {
		return "-"
	}
	if c.parent == nil {
		return shortFn(c.fn)
	}
	return c.parent.String() + ">" + shortFn(c.fn)
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.Name()
	if i := strings.IndexByte(s, '['); i > 0 {
		s = s[:i]
	}
	if f.Parent() != nil {
		return shortFn(f.Parent()) + "$" + strings.TrimPrefix(s, f.Parent().Name())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n := types.TypeString(t, func(*types.Package) string { return "" })
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		return n + "." + s
	}
	return s
}

// Point is a place in the inlined program where states are stored: the start of a block or the instruction after a
// call.
type Point struct {
	id   int
	ctx  *Ctx
	b    *ssa.BasicBlock
	i    int
	sub  string // distinguishes several program points of one instruction
	head bool
	prio []int32
}

func (p *Point) instr() ssa.Instruction {
	if p.i < len(p.b.Instrs) {
		return p.b.Instrs[p.i]
	}
	return nil
}

// ---------------------------------------------------------------------------------------------------------------------
// Abstract objects.

type objKind uint8

const (
	okAlloc objKind = iota
	okGlobal
	okExtern // returned by external code (files, mappings)
	okOther  // stands for storage replaced by another thread
)

type Obj struct {
	id      int
	key     string
	kind    objKind
	typ     types.Type // type of the object's content (element type for arrays made by make)
	arr     bool       // dynamically sized array of typ
	raw     bool       // byte memory that is accessed by offset
	at      *Point
	summary bool // stands for several concrete objects
	young   *Obj // for aged objects: the object it was
	old     *Obj
	desc    string
	zero    bool // content starts zeroed
	tag     string
}

func (o *Obj) String() string {
	s := o.desc
	if s == "" {
		s = o.key
	}
	return s
}

// ---------------------------------------------------------------------------------------------------------------------
// Abstract values.

type AV interface{}

type Int struct{ l *Lin }
type Flt struct{ t *Term } // floats and strings
type Bool struct {
	k int8 // 0 unknown, 1 true, 2 false
	c *Cond
}

type Tgt struct {
	o    *Obj
	path string
	off  *Lin // raw objects: byte offset; typed arrays: element index (of the last index step)
}

const (
	nnNon   = 0
	nnMaybe = 1
	nnNil   = 2
)

type Ptr struct {
	tg   []Tgt
	nk   uint8
	id   Sym  // identity of the pointer value
	base Sym  // identity of the pointer this one was derived from
	unk  bool // may point to something unknown
}
type Slice struct {
	tg   []Tgt
	ln   *Lin
	cp   *Lin
	unk  bool
	nk   uint8
	base Sym
}
type Alt struct {
	t types.Type
	v AV
}
type Iface struct {
	alts []Alt
	nk   uint8
	id   Sym
	unk  bool
}
type FnVal struct {
	fn    *ssa.Function
	binds []AV
	bound AV
}
type Fun struct {
	fs  []FnVal
	nk  uint8
	unk bool
}
type Agg struct{ fs []AV }
type Opq struct{ id Sym }

const noSym Sym = -1

// Cond is a symbolic condition.
type Cond struct {
	op   string // le (l<=0), eq (l==0), ne (l!=0), fcmp, nil, not, sym
	l    *Lin
	t, u *Term
	tok  token.Token
	a    AV
	x    *Cond
	sym  Sym
}

// ---- equality ----------------------------------------------------------------------------------------------------

func tgtEq(a, b []Tgt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func avEq(a, b AV) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Int:
		y, ok := b.(Int)
		return ok && x.l == y.l
	case Flt:
		y, ok := b.(Flt)
		return ok && x.t == y.t
	case Bool:
		y, ok := b.(Bool)
		return ok && x.k == y.k && condEq(x.c, y.c)
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.nk == y.nk && x.id == y.id && x.base == y.base && x.unk == y.unk && tgtEq(x.tg, y.tg)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.ln == y.ln && x.cp == y.cp && x.unk == y.unk && x.nk == y.nk && x.base == y.base && tgtEq(x.tg, y.tg)
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.nk != y.nk || x.id != y.id || x.unk != y.unk || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if !types.Identical(x.alts[i].t, y.alts[i].t) || !avEq(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case Fun:
		y, ok := b.(Fun)
		if !ok || x.nk != y.nk || x.unk != y.unk || len(x.fs) != len(y.fs) {
			return false
		}
		for i := range x.fs {
			if x.fs[i].fn != y.fs[i].fn || len(x.fs[i].binds) != len(y.fs[i].binds) || !avEq(x.fs[i].bound, y.fs[i].bound) {
				return false
			}
			for j := range x.fs[i].binds {
				if !avEq(x.fs[i].binds[j], y.fs[i].binds[j]) {
					return false
				}
			}
		}
		return true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x.fs) != len(y.fs) {
			return false
		}
		for i := range x.fs {
			if !avEq(x.fs[i], y.fs[i]) {
				return false
			}
		}
		return true
	case Opq:
		y, ok := b.(Opq)
		return ok && x.id == y.id
	}
	return false
}

func condEq(a, b *Cond) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.op != b.op {
		return false
	}
	return a.l == b.l && a.t == b.t && a.u == b.u && a.tok == b.tok && a.sym == b.sym && condEq(a.x, b.x) && avEq(a.a, b.a)
}

// ---- traversal ---------------------------------------------------------------------------------------------------

func avObjs(a AV, f func(*Obj)) {
	switch x := a.(type) {
	case Ptr:
		for _, t := range x.tg {
			f(t.o)
		}
	case Slice:
		for _, t := range x.tg {
			f(t.o)
		}
	case Iface:
		for _, al := range x.alts {
			avObjs(al.v, f)
		}
	case Fun:
		for _, fv := range x.fs {
			for _, b := range fv.binds {
				avObjs(b, f)
			}
			avObjs(fv.bound, f)
		}
	case Agg:
		for _, e := range x.fs {
			avObjs(e, f)
		}
	case Bool:
		for c := x.c; c != nil; c = c.x {
			avObjs(c.a, f)
		}
	}
}

func (u *Univ) avSyms(a AV, f func(Sym)) {
	fs := func(s Sym) {
		if s == noSym {
			return
		}
		f(s)
		for _, d := range u.info(s).deps {
			f(d)
		}
	}
	switch x := a.(type) {
	case Int:
		u.linSyms(x.l, f)
	case Flt:
		u.termSyms(x.t, f)
	case Bool:
		for c := x.c; c != nil; c = c.x {
			u.linSyms(c.l, f)
			if c.t != nil {
				u.termSyms(c.t, f)
			}
			if c.u != nil {
				u.termSyms(c.u, f)
			}
			if c.op == "sym" {
				fs(c.sym)
			}
			u.avSyms(c.a, f)
		}
	case Ptr:
		fs(x.id)
		fs(x.base)
		for _, t := range x.tg {
			u.linSyms(t.off, f)
		}
	case Slice:
		fs(x.base)
		u.linSyms(x.ln, f)
		u.linSyms(x.cp, f)
		for _, t := range x.tg {
			u.linSyms(t.off, f)
		}
	case Iface:
		fs(x.id)
		for _, al := range x.alts {
			u.avSyms(al.v, f)
		}
	case Fun:
		for _, fv := range x.fs {
			for _, b := range fv.binds {
				u.avSyms(b, f)
			}
			u.avSyms(fv.bound, f)
		}
	case Agg:
		for _, e := range x.fs {
			u.avSyms(e, f)
		}
	case Opq:
		fs(x.id)
	}
}

// avMapObj replaces objects in a value.
func avMapObj(a AV, f func(*Obj) *Obj) AV {
	mt := func(ts []Tgt) []Tgt {
		ch := false
		for _, t := range ts {
			if f(t.o) != t.o {
				ch = true
			}
		}
		if !ch {
			return ts
		}
		out := make([]Tgt, 0, len(ts))
		for _, t := range ts {
			t.o = f(t.o)
			out = append(out, t)
		}
		return normTgts(out)
	}
	switch x := a.(type) {
	case Ptr:
		x.tg = mt(x.tg)
		return x
	case Slice:
		x.tg = mt(x.tg)
		return x
	case Iface:
		ch := false
		na := make([]Alt, len(x.alts))
		for i, al := range x.alts {
			na[i] = Alt{al.t, avMapObj(al.v, f)}
			if !avEq(na[i].v, al.v) {
				ch = true
			}
		}
		if ch {
			x.alts = na
		}
		return x
	case Fun:
		nf := make([]FnVal, len(x.fs))
		for i, fv := range x.fs {
			nb := make([]AV, len(fv.binds))
			for j, b := range fv.binds {
				nb[j] = avMapObj(b, f)
			}
			nf[i] = FnVal{fv.fn, nb, avMapObj(fv.bound, f)}
		}
		x.fs = nf
		return x
	case Agg:
		nf := make([]AV, len(x.fs))
		for i, e := range x.fs {
			nf[i] = avMapObj(e, f)
		}
		x.fs = nf
		return x
	case Bool:
		if x.c != nil {
			ch := false
			for c := x.c; c != nil; c = c.x {
				avObjs(c.a, func(o *Obj) {
					if f(o) != o {
						ch = true
					}
				})
			}
			if ch {
				x.c = nil
			}
		}
		return x
	}
	return a
}

func normTgts(ts []Tgt) []Tgt {
	sort.SliceStable(ts, func(i, j int) bool { return tgtLess(ts[i], ts[j]) })
	out := ts[:0]
	for i, t := range ts {
		if i > 0 && t == out[len(out)-1] {
			continue
		}
		out = append(out, t)
	}
	return out
}

func tgtLess(a, b Tgt) bool {
	if a.o.id != b.o.id {
		return a.o.id < b.o.id
	}
	if a.path != b.path {
		return a.path < b.path
	}
	ai, bi := -1, -1
	if a.off != nil {
		ai = a.off.id
	}
	if b.off != nil {
		bi = b.off.id
	}
	return ai < bi
}

// ---- printing ----------------------------------------------------------------------------------------------------

func (u *Univ) tgtStr(t Tgt) string {
	s := t.o.String() + t.path
	if t.off != nil {
		s += "@" + u.linStr(t.off)
	}
	return s
}

func (u *Univ) avStr(a AV) string {
	nk := func(k uint8) string { return [...]string{"", "?nil", "nil"}[k] }
	tg := func(ts []Tgt, unk bool) string {
		var o []string
		for _, t := range ts {
			o = append(o, u.tgtStr(t))
		}
		if unk {
			o = append(o, "?")
		}
		return strings.Join(o, "|")
	}
	switch x := a.(type) {
	case nil:
		return "<none>"
	case Int:
		return u.linStr(x.l)
	case Flt:
		return u.termStr(x.t)
	case Bool:
		if x.k == 1 {
			return "true"
		} else if x.k == 2 {
			return "false"
		}
		return "bool(" + u.condStr(x.c) + ")"
	case Ptr:
		return "&" + tg(x.tg, x.unk) + nk(x.nk) + "#" + strconv.Itoa(int(x.id)) + "^" + strconv.Itoa(int(x.base))
	case Slice:
		return "[" + tg(x.tg, x.unk) + " len " + u.linStr(x.ln) + "]" + nk(x.nk)
	case Iface:
		var o []string
		for _, al := range x.alts {
			o = append(o, shortType(al.t)+":"+u.avStr(al.v))
		}
		if x.unk {
			o = append(o, "?")
		}
		return "iface{" + strings.Join(o, " / ") + "}" + nk(x.nk) + "#" + strconv.Itoa(int(x.id))
	case Fun:
		var o []string
		for _, fv := range x.fs {
			o = append(o, shortFn(fv.fn))
		}
		return "func{" + strings.Join(o, "/") + "}" + nk(x.nk)
	case Agg:
		var o []string
		for _, e := range x.fs {
			o = append(o, u.avStr(e))
		}
		return "(" + strings.Join(o, ", ") + ")"
	case Opq:
		return "opaque#" + strconv.Itoa(int(x.id))
	}
	return fmt.Sprintf("%T", a)
}

func (u *Univ) condStr(c *Cond) string {
	if c == nil {
		return "?"
	}
	switch c.op {
	case "le":
		return u.linStr(c.l) + "<=0"
	case "eq":
		return u.linStr(c.l) + "==0"
	case "ne":
		return u.linStr(c.l) + "!=0"
	case "fcmp":
		return u.termStr(c.t) + c.tok.String() + u.termStr(c.u)
	case "nil":
		return u.avStr(c.a) + "==nil"
	case "not":
		return "!(" + u.condStr(c.x) + ")"
	}
	return fmt.Sprintf("sym%d", c.sym)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
