package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rules about the layout of node records.

var nodeCfg = Config{MaxDisj: 800, Ghost: ghostNode}

func init() {
	register(&Check{
		id: "C20",
		uses: []HarnessUse{
			{name: "hNodeAngular", generic: true, cfg: nodeCfg, observe: observeC20, after: afterC20},
			{name: "hNodeDot", generic: true, cfg: nodeCfg, observe: observeC20, after: afterC20},
		},
		combos: 4,
		min: map[string]int{
			"all bytes of the attribute are transferred": 1, "accesses stay within the record": 1, "getter and setter address the same bytes": 1,
			"header fields do not overlap": 1, "a transferred byte comes from the same place of the source": 1, "a node's record is at its index times the node size": 1,
		},
		expl: "Symbolic byte ranges of every access that the getters and setters of a node record, CopyNode and MapNodeToMemory make, for all four instantiations, both distances, arbitrary vector lengths, numbers of children and ids: ranges are within the record, the setters write every byte of the attribute, getters return the range that setters write, and header fields used together are disjoint.",
	})
}

func nodeMem(x *X, o *Obj) bool {
	return o.raw && o.kind == okAlloc && o.at != nil && x.isHarness(o.at.ctx.fn)
}

// accBytes: byte ranges an event writes or reads in node records.
func accBytes(ev *Ev, f func(t Tgt, n *Lin, write bool)) {
	x, u := ev.x, ev.x.e.u
	switch ev.kind {
	case "store", "load":
		n := u.k(x.e.sizeof(ev.typ))
		for _, t := range ev.ptr.tg {
			if nodeMem(x, t.o) {
				f(t, n, ev.kind == "store")
			}
		}
	case "copy":
		var n *Lin
		if c, ok := ev.in.(ssa.CallInstruction); ok && ev.ln != nil && len(c.Common().Args) > 0 {
			if _, ok := c.Common().Args[0].Type().Underlying().(*types.Slice); ok {
				n = u.scale(ev.ln, x.e.sizeof(elemOf(c.Common().Args[0].Type())))
			}
		}
		for _, t := range ev.sl.tg {
			if nodeMem(x, t.o) {
				f(t, n, true)
			}
		}
		for _, t := range ev.sl2.tg {
			if nodeMem(x, t.o) {
				f(t, n, false)
			}
		}
	}
}

func ghostCell(s *State, path string) (Cell, *Lin) {
	for c, v := range s.mem {
		if c.path == path {
			if n, ok := v.(Int); ok {
				return c, n.l
			}
		}
	}
	return Cell{}, nil
}

// ghostNode tracks how far the writes of an operation have covered the attribute from its start.
func ghostNode(ev *Ev) {
	s := ev.x.s
	switch ev.kind {
	case "begin", "end":
		for c := range s.mem {
			if strings.HasPrefix(c.path, "#cov") {
				delete(s.mem, c)
			}
		}
	case "result":
		if ev.name == "start" && len(ev.args) == 3 {
			if t, ok := single(ev.args[0]); ok && t.off != nil {
				s.mem[Cell{t.o, "#cov"}] = Int{s.e.u.zero}
				s.mem[Cell{t.o, "#covlo"}] = Int{t.off}
				s.mem[Cell{t.o, "#covn"}] = ev.args[1]
				s.mem[Cell{t.o, "#covsz"}] = ev.args[2]
			}
		}
	case "store", "copy":
		c, l := ghostCell(s, "#cov")
		if l == nil {
			return
		}
		u := ev.x.e.u
		_, lo := ghostCell(s, "#covlo")
		_, sz := ghostCell(s, "#covsz")
		k, ok := sz.isConst()
		if lo == nil || !ok {
			return
		}
		accBytes(ev, func(t Tgt, n *Lin, write bool) {
			if write && t.o == c.o && t.off != nil && n != nil && s.proveEq(t.off, u.add(lo, u.scale(l, k))) {
				if m, ok := u.divExact(n, k); ok {
					s.mem[c] = Int{u.add(l, m)}
				}
			}
		})
	}
}

// divExact divides a linear form by a constant that divides all of it.
func (u *Univ) divExact(l *Lin, k int64) (*Lin, bool) {
	if k == 1 {
		return l, true
	}
	if k == 0 || l.c%k != 0 {
		return nil, false
	}
	r := u.k(l.c / k)
	for _, t := range l.ts {
		if t.k%k != 0 {
			return nil, false
		}
		r = u.add(r, u.scale(u.s(t.s), t.k/k))
	}
	return r, true
}

type byteRange struct {
	off, n *Lin
}

type c20data struct {
	mu     sync.Mutex
	ranges map[string]map[byteRange]string // operation -> ranges it accesses
	shape  [3]*Lin
	fields map[string][2]int64
	prove  func(l *Lin) bool
}

func c20of(r *Run) *c20data {
	d, _ := r.data["d"].(*c20data)
	if d == nil {
		d = &c20data{ranges: map[string]map[byteRange]string{}, fields: map[string][2]int64{}}
		r.data["d"] = d
	}
	return d
}

func (d *c20data) add(op string, t, n *Lin, at string) {
	if d.ranges[op] == nil {
		d.ranges[op] = map[byteRange]string{}
	}
	d.ranges[op][byteRange{t, n}] = at
}

// span: a list of ranges as one range when all are the same.
func observeC20(r *Run) func(*Ev) {
	d := c20of(r)
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		op := s.tags["op"]
		if ev.kind == "result" && ev.name == "shape" {
			for i := range d.shape {
				if n, ok := ev.args[i].(Int); ok {
					d.shape[i] = n.l
				}
			}
			st := s.clone()
			d.prove = func(l *Lin) bool { return st.proveMul(l) }
			return
		}
		if op == "" {
			return
		}
		if ev.kind == "call" && x.isHarness(x.ctx.fn) && ev.fn != nil && ev.fn.Signature.Recv() != nil && op == "SetNorm" {
			if st, ok := deref(ev.fn.Signature.Recv().Type()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					d.fields[st.Field(i).Name()] = [2]int64{x.e.fieldOff(st, i), x.e.sizeof(st.Field(i).Type())}
				}
			}
		}
		size := d.shape[0]
		within := func(con string, off, n *Lin, max *Lin) {
			ok := off != nil && n != nil && max != nil && s.prove(u.scale(off, -1)) && s.proveMul(u.sub(u.add(off, n), max))
			r.ob("accesses stay within the record", con, ok, "bytes "+u.linStr(off)+" + "+u.linStr(n)+" of "+u.linStr(max)+" in "+r.at(ev))
		}
		elem := map[string]int64{"SetVector": x.e.sizeof(r.p.typeOf(r.combo.TV)), "GetVector": x.e.sizeof(r.p.typeOf(r.combo.TV)), "SetChildren": x.e.sizeof(r.p.typeOf(r.combo.TIX)), "GetChildren": x.e.sizeof(r.p.typeOf(r.combo.TIX)), "CopyNode": 1}[op]
		switch ev.kind {
		case "nilderef", "wildstore", "unknowncall":
			r.ob("accesses stay within the record", shortFn(x.ctx.fn), false, ev.kind+" in "+r.at(ev))
		case "panic":
			r.ob("accesses stay within the record", shortFn(x.ctx.fn), false, "a panic in "+r.at(ev))
		case "store", "load", "copy":
			if x.isHarness(x.ctx.fn) {
				return
			}
			_, cov := ghostCell(s, "#cov")
			cell, lo := ghostCell(s, "#covlo")
			_, num := ghostCell(s, "#covn")
			accBytes(ev, func(t Tgt, n *Lin, write bool) {
				con := shortFn(x.ctx.fn)
				within(con, t.off, n, size)
				if lo == nil {
					if n != nil {
						d.add(map[bool]string{true: "w:", false: "r:"}[write]+op, t.off, n, r.at(ev))
					}
					return
				}
				if write && op != "GetChildren" {
					if _, isVec := map[string]bool{"SetVector": true, "SetChildren": true, "CopyNode": true}[op]; !isVec {
						return
					}
					// a transfer into the attribute
					ok := t.o == cell.o && t.off != nil && n != nil && s.proveMul(u.sub(lo, t.off)) && s.proveMul(u.sub(u.add(t.off, n), u.add(lo, u.scale(num, elem))))
					r.ob("a setter writes only its attribute", op+": "+con, ok, "bytes "+u.linStr(t.off)+" + "+u.linStr(n)+" in "+r.at(ev))
				}
				_ = cov
			})
			if op == "CopyNode" || op == "SetVector" || op == "SetChildren" {
				ok := true
				from := func(o *Obj) bool {
					if op == "CopyNode" {
						return nodeMem(x, o)
					}
					return callerMem(o)
				}
				if lo == nil {
					return
				}
				why := ""
				switch ev.kind {
				case "copy":
					ds, d1 := single(Ptr{tg: ev.sl.tg})
					ss, d2 := single(Ptr{tg: ev.sl2.tg})
					ok = d1 && d2 && ds.o != ss.o && nodeMem(x, ds.o) && from(ss.o) && ds.off != nil && ss.off != nil && s.proveEq(u.sub(ds.off, lo), ss.off)
					why = "source and destination of the copy differ in their place"
				case "store":
					ds, d1 := single(ev.ptr)
					if d1 && nodeMem(x, ds.o) {
						o, off := loadedFrom(u, ev.val)
						ok = o != nil && o != ds.o && from(o) && off != nil && ds.off != nil && s.proveEq(off, u.sub(ds.off, lo))
						why = "the stored value was not read from the same place of the source"
					}
				}
				r.ob("a transferred byte comes from the same place of the source", op+": "+shortFn(x.ctx.fn), ok, why+": "+r.at(ev))
			}
		case "result":
			_, cov := ghostCell(s, "#cov")
			cell, lo := ghostCell(s, "#covlo")
			_, num := ghostCell(s, "#covn")
			switch ev.name {
			case "start":
				if t, ok := single(ev.args[0]); ok {
					d.add("at:"+op, t.off, u.zero, r.at(ev))
				} else {
					r.ob("getter and setter address the same bytes", op, false, "the address of the attribute is not known")
				}
			case "written":
				ok := cov != nil && s.proveEq(num, cov)
				r.ob("all bytes of the attribute are transferred", op, ok, u.linStr(cov)+" elements are written from "+u.linStr(lo)+" on, "+u.linStr(num)+" of "+fmt.Sprint(elem)+" bytes are needed")
			case "list":
				sl, _ := ev.args[0].(Slice)
				t, ok := single(Ptr{tg: sl.tg})
				ok = ok && lo != nil && t.o == cell.o && t.off != nil && s.proveEq(t.off, lo)
				r.ob("getter and setter address the same bytes", op, ok, "the list starts at "+u.linStr(t.off)+", the attribute at "+u.linStr(lo))
				ok = ok && sl.ln != nil && s.proveEq(sl.ln, num)
				r.ob("all bytes of the attribute are transferred", op, ok, "the list has "+u.linStr(sl.ln)+" elements, "+u.linStr(num)+" are needed")
				if ok {
					within(op, t.off, u.scale(sl.ln, elem), size)
				}
			case "same":
				r.ob("getter and setter address the same bytes", op, avEq(ev.args[0], ev.args[1]), "the getter returns "+u.avStr(ev.args[1])+" after "+u.avStr(ev.args[0])+" was set")
			case "mapped":
				t, ok := single(ev.args[0])
				i, ok2 := ev.args[1].(Int)
				ok = ok && ok2 && nodeMem(x, t.o) && t.off != nil && !i.l.isBig() && !size.isBig()
				if ok {
					m := u.mul(i.l, size)
					ok = s.proveMul(u.sub(t.off, m)) && s.proveMul(u.sub(m, t.off))
				}
				r.ob("a node's record is at its index times the node size", "MapNodeToMemory", ok, "the offset is "+u.linStr(t.off))
			}
		}
	}
}

// loadedFrom: where a value was read from raw memory.
func loadedFrom(u *Univ, a AV) (*Obj, *Lin) {
	var sy Sym = noSym
	switch v := a.(type) {
	case Int:
		if len(v.l.ts) == 1 && v.l.c == 0 && v.l.ts[0].k == 1 {
			sy = v.l.ts[0].s
		}
	case Flt:
		if v.t.op == "sym" {
			sy = v.t.sym
		}
	}
	if sy == noSym {
		return nil, nil
	}
	in := u.info(sy)
	if !strings.HasPrefix(in.op, "ld:") || len(in.objs) != 1 {
		return nil, nil
	}
	return in.objs[0], in.args[0]
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Prog) typeOf(name string) types.Type {
	return types.Universe.Lookup(name).Type()
}

func afterC20(r *Run) {
	d := c20of(r)
	u := r.e.u
	if d.prove == nil {
		r.res.fail("the node harness was not analysed")
		return
	}
	get := func(k string) *byteRange {
		if len(d.ranges[k]) != 1 {
			return nil
		}
		for b := range d.ranges[k] {
			return &b
		}
		return nil
	}
	kind := strings.TrimPrefix(r.harness, "hNode")
	norm, ndesc := get("w:SetNorm"), get("w:SetNumberOfDescendants")
	vec, chl := get("at:SetVector"), get("at:SetChildren")
	if norm == nil || ndesc == nil || vec == nil || chl == nil {
		r.ob("header fields do not overlap", kind, false, "the places of the attributes are not single ranges")
		return
	}
	tv, tix := r.e.sizeof(r.p.typeOf(r.combo.TV)), r.e.sizeof(r.p.typeOf(r.combo.TIX))
	vec.n, chl.n = u.scale(d.shape[1], tv), u.scale(d.shape[2], tix)
	disjoint := func(name string, a, b *byteRange) {
		ok := d.prove(u.sub(u.add(a.off, a.n), b.off)) || d.prove(u.sub(u.add(b.off, b.n), a.off))
		r.ob("header fields do not overlap", kind+" "+name, ok, "bytes "+u.linStr(a.off)+" + "+u.linStr(a.n)+" and "+u.linStr(b.off)+" + "+u.linStr(b.n))
	}
	disjoint("number of descendants and norm", ndesc, norm)
	disjoint("number of descendants and children", ndesc, chl)
	disjoint("number of descendants and vector", ndesc, vec)
	disjoint("norm and vector", norm, vec)
	two := &byteRange{chl.off, u.k(2 * tix)}
	disjoint("two children and vector", two, vec)
	r.ob("header fields do not overlap", kind+" sizes", func() bool {
		a, ok := norm.n.isConst()
		b, ok2 := ndesc.n.isConst()
		return ok && ok2 && a == tv && b == tix
	}(), "the norm or the number of descendants is not stored whole")
	in := d.prove(u.sub(u.add(chl.off, chl.n), d.shape[0]))
	r.ob("accesses stay within the record", kind+" the maximal number of children", in, "")
	in = d.prove(u.sub(u.add(vec.off, vec.n), d.shape[0]))
	r.ob("accesses stay within the record", kind+" the vector", in, "")
	in = d.prove(u.addc(u.scale(d.shape[2], -1), 2))
	_ = in
	// the fields a distance keeps beside these
	for name, rg := range d.fields {
		f := &byteRange{u.k(rg[0]), u.k(rg[1])}
		if k, ok := norm.off.isConst(); ok && k == rg[0] {
			continue
		}
		switch {
		case func() bool { k, ok := ndesc.off.isConst(); return ok && k == rg[0] }():
			continue
		case rg[1] == 0:
			continue
		}
		disjoint("field "+name+" and norm", f, norm)
		disjoint("field "+name+" and number of descendants", f, ndesc)
		disjoint("field "+name+" and vector", f, vec)
	}
}
