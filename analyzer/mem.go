package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------------------------------------------------
// Types and paths.

const smallArr = 16

func elemOf(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return x.Elem()
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	case *types.Map:
		return x.Elem()
	}
	return nil
}

// scalarOnly: memory of this type holds no pointers and is addressed by byte offset.
func scalarOnly(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&(types.IsNumeric|types.IsBoolean) != 0
	case *types.Array:
		return scalarOnly(x.Elem())
	}
	return false
}

func isSmallArray(t types.Type) (*types.Array, bool) {
	a, ok := t.Underlying().(*types.Array)
	if ok && a.Len() <= smallArr {
		return a, true
	}
	return nil, false
}

func (e *Engine) sizeof(t types.Type) int64 { return e.p.sizes.Sizeof(t) }

func (e *Engine) fieldOff(st *types.Struct, i int) int64 {
	var fs []*types.Var
	for k := 0; k < st.NumFields(); k++ {
		fs = append(fs, st.Field(k))
	}
	return e.p.sizes.Offsetsof(fs)[i]
}

type leaf struct {
	path string
	typ  types.Type
}

func leaves(t types.Type) []leaf {
	switch x := t.Underlying().(type) {
	case *types.Struct:
		var out []leaf
		for i := 0; i < x.NumFields(); i++ {
			for _, l := range leaves(x.Field(i).Type()) {
				out = append(out, leaf{"." + x.Field(i).Name() + l.path, l.typ})
			}
		}
		return out
	case *types.Array:
		if x.Len() <= smallArr {
			var out []leaf
			for i := int64(0); i < x.Len(); i++ {
				for _, l := range leaves(x.Elem()) {
					out = append(out, leaf{fmt.Sprintf("[%d]%s", i, l.path), l.typ})
				}
			}
			return out
		}
		var out []leaf
		for _, l := range leaves(x.Elem()) {
			out = append(out, leaf{"[*]" + l.path, l.typ})
		}
		return out
	}
	return []leaf{{"", t}}
}

// typeAtPath returns the type found at a path of a type.
func typeAtPath(t types.Type, path string) types.Type {
	for path != "" {
		switch {
		case path[0] == '.':
			p := path[1:]
			n := len(p)
			for i := 0; i < len(p); i++ {
				if p[i] == '.' || p[i] == '[' || p[i] == '!' {
					n = i
					break
				}
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			found := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == p[:n] {
					t = st.Field(i).Type()
					found = true
					break
				}
			}
			if !found {
				return nil
			}
			path = p[n:]
		case path[0] == '[':
			k := strings.IndexByte(path, ']')
			a := elemOf(t)
			if _, ok := t.Underlying().(*types.Array); !ok {
				return nil
			}
			t = a
			path = path[k+1:]
		default:
			return nil
		}
	}
	return t
}

// ---------------------------------------------------------------------------------------------------------------------
// Values.

func (e *Engine) zeroAV(t types.Type) AV {
	u := e.u
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Kind() == types.UnsafePointer || x.Kind() == types.UntypedNil:
			return Ptr{nk: nnNil, id: noSym, base: noSym}
		case x.Info()&types.IsInteger != 0:
			return Int{u.zero}
		case x.Info()&types.IsFloat != 0:
			return Flt{u.tconst(0)}
		case x.Info()&types.IsBoolean != 0:
			return Bool{k: 2}
		case x.Info()&types.IsString != 0:
			return Flt{u.tstr("")}
		}
		return Opq{noSym}
	case *types.Pointer:
		return Ptr{nk: nnNil, id: noSym, base: noSym}
	case *types.Slice:
		return Slice{ln: u.zero, cp: u.zero, nk: nnNil, base: noSym}
	case *types.Interface:
		return Iface{nk: nnNil, id: noSym}
	case *types.Signature:
		return Fun{nk: nnNil}
	case *types.Struct:
		a := Agg{}
		for i := 0; i < x.NumFields(); i++ {
			a.fs = append(a.fs, e.zeroAV(x.Field(i).Type()))
		}
		return a
	case *types.Array:
		if x.Len() <= smallArr {
			a := Agg{}
			for i := int64(0); i < x.Len(); i++ {
				a.fs = append(a.fs, e.zeroAV(x.Elem()))
			}
			return a
		}
		return Opq{noSym}
	case *types.Tuple:
		a := Agg{}
		for i := 0; i < x.Len(); i++ {
			a.fs = append(a.fs, e.zeroAV(x.At(i).Type()))
		}
		return a
	case *types.Map, *types.Chan:
		return Ptr{nk: nnNil, id: noSym, base: noSym}
	}
	return Opq{noSym}
}

// freshAV makes an unknown value of a type whose identity is the key.
func (e *Engine) freshAV(key string, at *Point, t types.Type, desc string) AV {
	u := e.u
	atom := func(sub string) Sym {
		s := u.sym(skAtom, "a:"+key+sub, at)
		if in := u.info(s); in.desc == "" {
			in.desc = desc
		}
		return s
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Kind() == types.UnsafePointer:
			s := atom("")
			return Ptr{nk: nnMaybe, id: s, base: s, unk: true}
		case x.Info()&types.IsInteger != 0:
			s := atom("")
			if isUnsigned(t) {
				in := u.info(s)
				in.hasLo, in.lo = true, 0
			}
			return Int{u.s(s)}
		case x.Info()&(types.IsFloat|types.IsString) != 0:
			return Flt{u.tsym(atom(""))}
		case x.Info()&types.IsBoolean != 0:
			return Bool{c: &Cond{op: "sym", sym: atom("")}}
		}
		return Opq{atom("")}
	case *types.Pointer, *types.Map, *types.Chan:
		s := atom("")
		return Ptr{nk: nnMaybe, id: s, base: s, unk: true}
	case *types.Slice:
		ln, cp := atom("#len"), atom("#cap")
		for _, s := range []Sym{ln, cp} {
			in := u.info(s)
			in.hasLo, in.lo = true, 0
		}
		return Slice{ln: u.s(ln), cp: u.s(cp), nk: nnMaybe, unk: true, base: atom("#base")}
	case *types.Interface:
		return Iface{nk: nnMaybe, id: atom(""), unk: true}
	case *types.Signature:
		return Fun{nk: nnMaybe, unk: true}
	case *types.Struct:
		a := Agg{}
		for i := 0; i < x.NumFields(); i++ {
			a.fs = append(a.fs, e.freshAV(key+"."+x.Field(i).Name(), at, x.Field(i).Type(), desc+"."+x.Field(i).Name()))
		}
		return a
	case *types.Array:
		if x.Len() <= smallArr {
			a := Agg{}
			for i := int64(0); i < x.Len(); i++ {
				a.fs = append(a.fs, e.freshAV(fmt.Sprintf("%s[%d]", key, i), at, x.Elem(), desc))
			}
			return a
		}
		return Opq{atom("")}
	case *types.Tuple:
		a := Agg{}
		for i := 0; i < x.Len(); i++ {
			a.fs = append(a.fs, e.freshAV(fmt.Sprintf("%s/%d", key, i), at, x.At(i).Type(), desc))
		}
		return a
	}
	return Opq{atom("")}
}

// assumeFresh adds the facts that hold of fresh values (cap >= len).
func (s *State) assumeFresh(a AV) {
	switch x := a.(type) {
	case Slice:
		s.addFact(s.e.u.sub(x.ln, x.cp))
	case Agg:
		for _, f := range x.fs {
			s.assumeFresh(f)
		}
	}
}

func (x *X) here() *Point { return x.e.point(x.ctx, x.b, x.i, "") }

func (x *X) key(sub string) string {
	return fmt.Sprintf("%d.%d.%d:%s", x.ctx.id, x.b.Index, x.i, sub)
}

func (x *X) fresh(sub string, t types.Type, desc string) AV {
	v := x.e.freshAV(x.key(sub), x.here(), t, desc)
	x.s.forget(v)
	x.s.assumeFresh(v)
	return v
}

func (x *X) atom(sub, desc string) Sym {
	s := x.e.u.sym(skAtom, "a:"+x.key(sub), x.here())
	if in := x.e.u.info(s); in.desc == "" {
		in.desc = desc
	}
	return s
}

func (x *X) natom(sub, desc string) Sym {
	s := x.atom(sub, desc)
	in := x.e.u.info(s)
	in.hasLo, in.lo = true, 0
	return s
}

// forget drops nilness knowledge about the identities of a value that is produced anew.
func (s *State) forget(v AV) {
	switch x := v.(type) {
	case Ptr:
		delete(s.nilf, x.id)
	case Iface:
		delete(s.nilf, x.id)
	case Bool:
		if x.c != nil && x.c.op == "sym" {
			delete(s.nilf, x.c.sym)
		}
	case Agg:
		for _, f := range x.fs {
			s.forget(f)
		}
	}
}

// union merges the values read from several possible targets.
func (x *X) union(sub string, vs []AV) AV {
	if len(vs) == 0 {
		return nil
	}
	r := vs[0]
	for i, v := range vs[1:] {
		if v == nil {
			return nil
		}
		if avEq(r, v) {
			continue
		}
		r = x.e.mergeAV(x.s, x.here(), fmt.Sprintf("u%s.%d", x.key(sub), i), r, v)
	}
	return r
}

// ---------------------------------------------------------------------------------------------------------------------
// Memory.

// defaultCell is the content of a cell of a live object that was never written.
func (e *Engine) defaultCell(s *State, c Cell) AV {
	switch c.path {
	case liveMark, verMark:
		return Int{e.u.zero}
	case extMark:
		return nil
	}
	if strings.HasPrefix(c.path, "@") || strings.HasPrefix(c.path, "#") {
		return nil
	}
	if !c.o.zero || c.o.raw {
		return nil
	}
	var t types.Type
	if c.o.arr {
		if strings.HasPrefix(c.path, "[*]") {
			t = typeAtPath(c.o.typ, c.path[3:])
		}
	} else {
		t = typeAtPath(c.o.typ, c.path)
	}
	if t == nil {
		return nil
	}
	return e.zeroAV(t)
}

// newObj creates (or recreates) the object of the current instruction.
func (x *X) newObj(sub string, typ types.Type, arr, raw bool, desc string) *Obj {
	at := x.here()
	o := x.e.obj("A:"+x.key(sub), func() *Obj {
		return &Obj{kind: okAlloc, typ: typ, arr: arr, raw: raw, at: at, zero: true, desc: desc}
	})
	x.kill(o)
	x.s.mem[Cell{o, liveMark}] = Int{x.e.u.zero}
	if x.e.cfg.CopyTrack && raw && arr {
		x.s.mem[Cell{o, "#cn"}] = Int{x.e.u.zero}
	}
	if x.e.cfg.FailIO && raw && arr {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			x.s.mem[Cell{o, "#filled"}] = Int{x.e.u.zero}
		}
	}
	return o
}

func (x *X) kill(o *Obj) {
	for c := range x.s.mem {
		if c.o == o {
			delete(x.s.mem, c)
		}
	}
}

func (x *X) setExt(o *Obj, l *Lin) { x.s.mem[Cell{o, extMark}] = Int{l} }

// bump gives the raw content of an object a new version.
func (x *X) bump(o *Obj, why string) {
	x.bumpHi(o, why, nil)
}

// bumpHi is bump with the bound of the elements after the write.
func (x *X) bumpHi(o *Obj, why string, hi *Lin) {
	v := x.atom("ver"+strconv.Itoa(o.id)+why, "ver")
	x.s.mem[Cell{o, verMark}] = Int{x.e.u.s(v)}
	if hi != nil && hiTracked(o) {
		x.s.mem[Cell{o, hiMark}] = Int{hi}
	} else {
		delete(x.s.mem, Cell{o, hiMark})
	}
	x.noteHi(o, hi)
	x.logWrite(Cell{o, verMark}, nil)
}

// hiInfo: bounds over values from outside a recursive function that every write to an array below it respects.
type hiInfo struct {
	ms    map[*Lin]bool
	users map[string]bool
	top   bool // no write seen yet
}

// noteHi intersects the bounds of an array with those of one more write.
func (x *X) noteHi(o *Obj, hi *Lin) {
	e, u := x.e, x.e.u
	if !hiTracked(o) {
		return
	}
	var root *Ctx
	for a := x.ctx; a != nil; a = a.parent {
		if a.rec || e.mayRec[a.fn] {
			root = a
		}
	}
	if root == nil {
		return
	}
	n := e.hiNow[o]
	if n != nil && len(n.ms) == 0 && !n.top {
		return
	}
	changed := false
	if n == nil || n.top {
		if n == nil {
			n = &hiInfo{users: map[string]bool{}}
			e.hiNow[o] = n
		}
		n.ms, n.top = map[*Lin]bool{}, false
		changed = true
		outer := func(l *Lin) bool {
			for _, t := range l.ts {
				if in := u.info(t.s); in.at == nil || in.op != "" || in.at.ctx.within(root) || len(in.deps) > 0 {
					return false
				}
			}
			return len(l.ts) <= 2
		}
		seen := map[*Lin]bool{}
		var try func(l *Lin, depth int)
		try = func(l *Lin, depth int) {
			if seen[l] || len(seen) > 60 {
				return
			}
			seen[l] = true
			if outer(l) {
				n.ms[l] = true
			}
			if depth == 0 {
				return
			}
			for _, t := range l.ts {
				if t.k != 1 {
					continue
				}
				for _, f := range append([]*Lin{}, x.s.index()[t.s]...) {
					if f.coef(t.s) == 1 {
						try(u.sub(l, f), depth-1) // l <= l - f
					}
				}
			}
		}
		if hi != nil {
			try(hi, 3)
		}
	} else {
		for m := range n.ms {
			if hi == nil || !x.s.proveLe(hi, m) {
				delete(n.ms, m)
				changed = true
			}
		}
	}
	if changed && !e.final {
		for k := range n.users {
			e.enqueueKey(k)
		}
	}
}

// hiMark holds an upper bound of all elements of an array of integers.
const hiMark = "#hi"

func hiTracked(o *Obj) bool {
	if !o.raw || o.typ == nil {
		return false
	}
	b, ok := o.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8 && o.tag != "storage" && o.kind == okAlloc
}

func (s *State) hi(o *Obj) *Lin {
	if v, ok := s.mem[Cell{o, hiMark}].(Int); ok {
		return v.l
	}
	return nil
}

// maxBound: an upper bound of two values (nil: none known).
func (x *X) maxBound(a, b *Lin, sub string) *Lin {
	if a == nil || b == nil {
		return nil
	}
	s, u := x.s, x.e.u
	if a == b || s.proveLe(b, a) {
		return a
	}
	if s.proveLe(a, b) {
		return b
	}
	h := u.s(x.atom("hi"+sub, "hi"))
	// bounds of one that the other shares
	try := func(l *Lin) {
		for _, t := range l.ts {
			for _, f := range append([]*Lin{}, s.index()[t.s]...) {
				// f: l + rest <= 0
				d := u.sub(f, l)
				if d.coef(t.s) != 0 {
					continue
				}
				m := u.scale(d, -1)
				if s.proveLe(a, m) && s.proveLe(b, m) {
					s.addFact(u.sub(h, m))
				}
			}
		}
	}
	s.addFact(u.sub(a, h))
	s.addFact(u.sub(b, h))
	try(a)
	try(b)
	return h
}

func parseRaw(path string) (off, size int64) {
	fmt.Sscanf(path, "@%d:%d", &off, &size)
	return
}

// rawWrite records a write of n bytes (nil: unknown) at an offset of raw memory.
func (x *X) rawWrite(t Tgt, n *Lin, v AV, size int64) { x.rawWriteHi(t, n, v, size, nil) }

// rawWriteHi: vhi bounds the elements that are written (nil: unknown).
func (x *X) rawWriteHi(t Tgt, n *Lin, v AV, size int64, vhi *Lin) {
	s, u := x.s, x.e.u
	for c := range s.mem {
		if c.o != t.o || !strings.HasPrefix(c.path, "@") {
			continue
		}
		off, sz := parseRaw(c.path)
		// disjoint?
		if t.off != nil && n != nil {
			if s.proveLe(u.k(off+sz), t.off) || s.proveLe(u.add(t.off, n), u.k(off)) {
				continue
			}
		}
		delete(s.mem, c)
	}
	var hi *Lin
	if old := s.hi(t.o); old != nil && hiTracked(t.o) {
		if i, ok := v.(Int); ok {
			hi = x.maxBound(old, i.l, "w")
		} else if vhi != nil {
			hi = old
			if vhi != x.e.noBound {
				hi = x.maxBound(old, vhi, "r"+strconv.Itoa(t.o.id))
			}
		}
	}
	x.bumpHi(t.o, "", hi)
	if v != nil && !t.o.summary && t.off != nil {
		if k, ok := t.off.isConst(); ok {
			s.mem[Cell{t.o, fmt.Sprintf("@%d:%d", k, size)}] = v
		}
	}
	// storage that other names may refer to
	if t.o.kind == okOther || t.o.tag == "storage" || t.o.summary {
		for c := range s.mem {
			if c.o.raw && c.o != t.o && c.path == liveMark && (c.o.kind == okOther || c.o.tag == "storage" || c.o == t.o.old || c.o == t.o.young) {
				x.bump(c.o, "alias")
			}
		}
	}
}

func (x *X) rawLoad(t Tgt, typ types.Type) AV {
	u := x.e.u
	sz := x.e.sizeof(typ)
	if t.off == nil || t.o.summary {
		a := x.fresh(fmt.Sprintf("rl%d", t.o.id), typ, "byte")
		if i, ok := a.(Int); ok && hiTracked(t.o) && types.Identical(typ.Underlying(), t.o.typ.Underlying()) {
			if h := x.s.hi(t.o); h != nil {
				x.s.addFact(u.sub(i.l, h))
			}
		}
		return a
	}
	if k, ok := t.off.isConst(); ok {
		if v, ok := x.s.mem[Cell{t.o, fmt.Sprintf("@%d:%d", k, sz)}]; ok {
			if _, isInt := v.(Int); isInt == isInteger(typ) {
				return v
			}
		}
	}
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return x.fresh(fmt.Sprintf("rl%d", t.o.id), typ, "raw")
	}
	sy := u.opSym("ld:"+b.Name(), []*Obj{t.o}, t.off, x.s.ver(t.o))
	in := u.info(sy)
	if isUnsigned(typ) {
		in.hasLo, in.lo = true, 0
	}
	if b.Name() == "uint8" {
		in.hasHi, in.hi = true, 255
	}
	switch {
	case isInteger(typ):
		if h := x.s.hi(t.o); h != nil && hiTracked(t.o) && types.Identical(typ.Underlying(), t.o.typ.Underlying()) {
			x.s.addFact(u.sub(u.s(sy), h))
		}
		return Int{u.s(sy)}
	case isFloat(typ):
		return Flt{u.tsym(sy)}
	case isBool(typ):
		return Bool{c: &Cond{op: "sym", sym: sy}}
	}
	return x.fresh(fmt.Sprintf("rl%d", t.o.id), typ, "raw")
}

// loadCell reads one leaf cell.
func (x *X) loadCell(c Cell, typ types.Type, off *Lin) AV {
	s := x.s
	if v, ok := x.volatileLoad(c, typ); ok {
		return v
	}
	if v, ok := s.mem[c]; ok && v != nil {
		if compatible(v, typ) {
			if c.o.summary || strings.Contains(c.path, "[*]") {
				return x.summaryRead(c, v, off)
			}
			return v
		}
		return x.fresh("ldx"+strconv.Itoa(c.o.id)+c.path, typ, "cast")
	}
	if s.isLive(c.o) {
		if v := x.e.defaultCell(s, c); v != nil && compatible(v, typ) {
			return v
		}
	}
	v := x.fresh("ld"+strconv.Itoa(c.o.id)+c.path, typ, c.o.String()+c.path)
	if !c.o.summary && s.isLive(c.o) {
		s.mem[c] = v
	}
	return v
}

// summaryRead: two reads of a summary cell need not yield the same value, so identities are renewed.
func (x *X) summaryRead(c Cell, v AV, off *Lin) AV {
	ident := func() Sym {
		if off != nil && !c.o.summary {
			sy := x.e.u.opSym("el"+c.path, []*Obj{c.o}, off, x.s.ver(c.o))
			return sy
		}
		return x.atom("sr"+strconv.Itoa(c.o.id)+c.path, "elem")
	}
	switch p := v.(type) {
	case Ptr:
		if p.nk == nnNil {
			return v
		}
		p.id = ident()
		p.base = p.id
		if n := x.s.nilOf(v); n != 0 {
			x.s.nilf[p.id] = n == 1
		} else {
			delete(x.s.nilf, p.id)
		}
		return p
	case Int:
		if _, ok := p.l.isConst(); ok {
			return v
		}
		sy := ident()
		if x.s.prove(x.e.u.scale(p.l, -1)) {
			in := x.e.u.info(sy)
			in.hasLo, in.lo = true, 0
		}
		return Int{x.e.u.s(sy)}
	case Flt:
		if p.t.op == "const" || p.t.op == "str" {
			return v
		}
		return Flt{x.e.u.tsym(ident())}
	case Iface:
		if p.nk == nnNil {
			return v
		}
		p.id = ident()
		if n := x.s.nilOf(v); n != 0 {
			x.s.nilf[p.id] = n == 1
		} else {
			delete(x.s.nilf, p.id)
		}
		return p
	}
	return v
}

func compatible(v AV, t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic:
		switch {
		case isUnsafePtr(t):
			_, ok := v.(Ptr)
			return ok
		case isInteger(t):
			_, ok := v.(Int)
			return ok
		case isFloat(t) || isString(t):
			_, ok := v.(Flt)
			return ok
		case isBool(t):
			_, ok := v.(Bool)
			return ok
		}
		return true
	case *types.Pointer, *types.Map, *types.Chan:
		_, ok := v.(Ptr)
		return ok
	case *types.Slice:
		_, ok := v.(Slice)
		return ok
	case *types.Interface:
		_, ok := v.(Iface)
		return ok
	case *types.Signature:
		_, ok := v.(Fun)
		return ok
	}
	return true
}

// loadT reads a value of any type at a target.
func (x *X) loadT(t Tgt, typ types.Type) AV {
	if t.o.raw {
		switch tt := typ.Underlying().(type) {
		case *types.Struct:
			a := Agg{}
			for i := 0; i < tt.NumFields(); i++ {
				q := t
				if q.off != nil {
					q.off = x.e.u.addc(q.off, x.e.fieldOff(tt, i))
				}
				a.fs = append(a.fs, x.loadT(q, tt.Field(i).Type()))
			}
			return a
		case *types.Array:
			if tt.Len() <= smallArr {
				a := Agg{}
				for i := int64(0); i < tt.Len(); i++ {
					q := t
					if q.off != nil {
						q.off = x.e.u.addc(q.off, i*x.e.sizeof(tt.Elem()))
					}
					a.fs = append(a.fs, x.loadT(q, tt.Elem()))
				}
				return a
			}
		}
		return x.rawLoad(t, typ)
	}
	switch tt := typ.Underlying().(type) {
	case *types.Struct:
		a := Agg{}
		for i := 0; i < tt.NumFields(); i++ {
			a.fs = append(a.fs, x.loadT(Tgt{t.o, t.path + "." + tt.Field(i).Name(), t.off}, tt.Field(i).Type()))
		}
		return a
	case *types.Array:
		if tt.Len() <= smallArr {
			a := Agg{}
			for i := int64(0); i < tt.Len(); i++ {
				a.fs = append(a.fs, x.loadT(Tgt{t.o, fmt.Sprintf("%s[%d]", t.path, i), t.off}, tt.Elem()))
			}
			return a
		}
		return Opq{noSym}
	}
	// the interface word trick: (*struct{typ, data unsafe.Pointer})(unsafe.Pointer(&iface)).data
	if i := strings.Index(t.path, "!i"); i >= 0 {
		if w, ok := x.s.mem[Cell{t.o, t.path[:i]}]; ok {
			if ifc, ok := w.(Iface); ok {
				if t.path[i:] == "!i8" {
					return x.ifaceData(ifc)
				}
			}
		}
		return x.fresh("ifw", typ, "ifaceword")
	}
	if strings.Contains(t.path, "!") {
		return x.fresh("cast"+strconv.Itoa(t.o.id)+t.path, typ, "cast")
	}
	// array element with known index and identity
	return x.loadCell(Cell{t.o, t.path}, typ, t.off)
}

// ifaceData is the data word of an interface that holds pointers.
func (x *X) ifaceData(f Iface) AV {
	var vs []AV
	for _, al := range f.alts {
		p, ok := al.v.(Ptr)
		if !ok {
			return x.fresh("ifd", types.Typ[types.UnsafePointer], "ifacedata")
		}
		vs = append(vs, p)
	}
	if f.unk || len(vs) == 0 {
		return x.fresh("ifd", types.Typ[types.UnsafePointer], "ifacedata")
	}
	return x.union("ifd", vs)
}

// storeT writes a value at a target. strong: the target is the only one.
func (x *X) storeT(t Tgt, typ types.Type, v AV, strong bool) {
	e, s := x.e, x.s
	if t.o.raw {
		if st, ok := typ.Underlying().(*types.Struct); ok {
			if a, ok := v.(Agg); ok && len(a.fs) == st.NumFields() {
				for i := range a.fs {
					q := t
					if q.off != nil {
						q.off = e.u.addc(q.off, e.fieldOff(st, i))
					}
					x.storeT(q, st.Field(i).Type(), a.fs[i], strong)
				}
				return
			}
		}
		sz := e.sizeof(typ)
		if !strong {
			v = nil
		}
		x.rawWrite(t, e.u.k(sz), v, sz)
		return
	}
	switch tt := typ.Underlying().(type) {
	case *types.Struct:
		a, ok := v.(Agg)
		for i := 0; i < tt.NumFields(); i++ {
			var f AV
			if ok && i < len(a.fs) {
				f = a.fs[i]
			} else {
				f = x.fresh("st"+tt.Field(i).Name(), tt.Field(i).Type(), "")
			}
			x.storeT(Tgt{t.o, t.path + "." + tt.Field(i).Name(), t.off}, tt.Field(i).Type(), f, strong)
		}
		return
	case *types.Array:
		if tt.Len() <= smallArr {
			a, ok := v.(Agg)
			for i := int64(0); i < tt.Len(); i++ {
				var f AV
				if ok {
					f = a.fs[i]
				} else {
					f = x.fresh(fmt.Sprintf("st[%d]", i), tt.Elem(), "")
				}
				x.storeT(Tgt{t.o, fmt.Sprintf("%s[%d]", t.path, i), t.off}, tt.Elem(), f, strong)
			}
			return
		}
		return
	}
	if i := strings.IndexByte(t.path, '!'); i >= 0 {
		// write through a cast: the typed content becomes unknown
		x.havocObj(t.o, "cast")
		return
	}
	c := Cell{t.o, t.path}
	weak := !strong || t.o.summary || strings.Contains(t.path, "[*]")
	x.logWrite(c, v)
	if strings.Contains(t.path, "[*]") {
		x.bump(t.o, "")
	}
	if !weak {
		s.mem[c] = v
		return
	}
	old, ok := s.mem[c]
	if !ok {
		old = e.defaultCell(s, c)
		if old == nil {
			return // unknown stays unknown
		}
	}
	if avEq(old, v) {
		return
	}
	s.mem[c] = e.mergeAV(s, x.here(), "w"+x.key(strconv.Itoa(c.o.id)+c.path), old, v)
	if s.mem[c] == nil {
		delete(s.mem, c)
	}
}

// havocObj makes the typed content of an object unknown.
func (x *X) havocObj(o *Obj, why string) {
	if o.raw {
		x.rawWrite(Tgt{o: o}, nil, nil, 0)
		return
	}
	var ls []leaf
	if o.arr {
		for _, l := range leaves(o.typ) {
			ls = append(ls, leaf{"[*]" + l.path, l.typ})
		}
	} else if o.typ != nil {
		ls = leaves(o.typ)
	}
	for _, l := range ls {
		c := Cell{o, l.path}
		x.logWrite(c, nil)
		v := x.fresh("hv"+why+strconv.Itoa(o.id)+l.path, l.typ, "havoc")
		x.s.mem[c] = v
	}
}

// havocElems: the elements of an array were permuted or overwritten with unknown values of the same kind. The weak
// element cell already stands for all of them, only their identity is lost.
func (x *X) havocSlice(sl Slice, why string) {
	for _, t := range sl.tg {
		if t.o.raw {
			x.rawWrite(Tgt{o: t.o}, nil, nil, 0)
			continue
		}
		if strings.HasSuffix(t.path, "[]") {
			// fixed array: elements mix
			base := strings.TrimSuffix(t.path, "[]")
			var cs []Cell
			for c := range x.s.mem {
				if c.o == t.o && strings.HasPrefix(c.path, base+"[") {
					cs = append(cs, c)
				}
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].path < cs[j].path })
			for i := 1; i < len(cs); i++ {
				v := x.e.mergeAV(x.s, x.here(), "p"+x.key(cs[i].path), x.s.mem[cs[0]], x.s.mem[cs[i]])
				x.s.mem[cs[0]] = v
			}
			for i := 1; i < len(cs); i++ {
				x.s.mem[cs[i]] = x.s.mem[cs[0]]
			}
			continue
		}
		x.bump(t.o, why)
		if !t.o.summary && !t.o.arr {
			x.havocObj(t.o, why)
		}
	}
}
