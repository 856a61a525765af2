package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Rules about the shape of the trees: every item is in every tree exactly once.
//
// The function that builds trees is the recursive one, below ThreadBuild, that is given a list of ids. The ghost state of
// one activation of it: {index,#in} the list it was given, #root its flag; #kid:k and #len:k the result of the recursive
// call on the list k and that list's length; #slot the record written last. Tags "t:...": what was done so far.
// For the list of a whole tree: #seen how many items were looked at in order, #curv what the last one's marker was,
// #cnt how many were put in the list.

func init() {
	register(&Check{
		id:   "C07",
		uses: treeUses(observeC07, "hTreeAngularSingle", "hTreeAngularMulti", "hTreeDotSingle"),
		min: map[string]int{
			"an item handed to a node goes to one side":         1,
			"both sides are built and become the children":      1,
			"the node that is returned is the one written":      1,
			"a leaf lists all its items":                        1,
			"a tree starts from all items that were added":      1,
			"a list of one item needs no node":                  1,
			"a node's count is the number of items it is given": 1,
		},
		expl: "Relational analysis of one activation of the recursive tree builder, recursion abstracted by its own contract: the k-th item is appended to one of the two lists when the lists hold k items between them (so each item goes to exactly one list, whatever the number of retries), the lists of the recursive calls hold as many items as were given, the two results are the two children, and the node with these children is the record whose id is returned; a leaf's children are a copy of the whole list. The list of a whole tree is built by looking at every item in order and leaving out only those whose marker says that they were never added.",
	})
}

func treeUses(observe func(*Run) func(*Ev), names ...string) []HarnessUse {
	var u []HarnessUse
	for _, n := range names {
		u = append(u, HarnessUse{name: n, generic: true, cfg: Config{Ghost: ghostTree}, observe: observe})
	}
	return u
}

func isIDList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint32 || b.Kind() == types.Uint64)
}

var treeFns sync.Map

// treeFn: does the function call itself, possibly through others, and take a list of ids?
func treeFn(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if k, ok := treeFns.Load(fn); ok {
		return k.(bool)
	}
	r := findTreeFn(fn)
	treeFns.Store(fn, r)
	return r
}

func findTreeFn(fn *ssa.Function) bool {
	if idListParam(fn) < 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g == fn {
					return true
				}
				if !seen[g] && len(g.Blocks) > 0 && g.Pkg == fn.Pkg {
					seen[g] = true
					if rec(g) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(fn)
}

func idListParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if isIDList(p.Type()) {
			return i
		}
	}
	return -1
}

// treeCtx: the activation of the tree builder the context is in.
func treeCtx(c *Ctx) *Ctx {
	var r *Ctx
	for ; c != nil; c = c.parent {
		if treeFn(c.fn) {
			r = c
		}
		if c.fn != nil && c.fn.Name() == "ThreadBuild" {
			return r
		}
	}
	return nil
}

func treeGet(s *State, name string) AV {
	if idx := theIndex(s); idx != nil {
		if name[0] == '.' {
			return cellVal(s, idx, name)
		}
		return s.mem[Cell{idx, name}]
	}
	return nil
}

func treeInt(s *State, name string) *Lin {
	if n, ok := treeGet(s, name).(Int); ok {
		return n.l
	}
	return nil
}

func treeSet(s *State, name string, v AV) {
	if idx := theIndex(s); idx != nil {
		s.mem[Cell{idx, name}] = v
	}
}

func treeDel(s *State, pre string) {
	idx := theIndex(s)
	for c := range s.mem {
		if c.o == idx && strings.HasPrefix(c.path, pre) {
			delete(s.mem, c)
		}
	}
}

func tagDel(s *State, pre string) {
	for k := range s.tags {
		if strings.HasPrefix(k, pre) {
			delete(s.tags, k)
		}
	}
}

// listKey: where the list that is passed to the builder is kept.
func listKey(x *X, v ssa.Value) string {
	for {
		switch c := v.(type) {
		case *ssa.ChangeType:
			v = c.X
			continue
		case *ssa.UnOp:
			if p, ok := x.get(c.X).(Ptr); ok && len(p.tg) == 1 {
				return p.tg[0].path
			}
		}
		return v.Name()
	}
}

// itemAt: the place in the given list that a value was loaded from.
func itemAt(x *X, tc *Ctx, val *Lin, in Slice) *Lin {
	for k, v := range x.s.regs {
		n, ok := v.(Int)
		if !ok || n.l != val || !k.c.within(tc) {
			continue
		}
		ld, ok := k.v.(*ssa.UnOp)
		if !ok {
			continue
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		y := *x
		y.ctx = k.c
		if _, isParam := ia.X.(*ssa.Const); isParam {
			continue
		}
		if sl, ok := x.s.regs[Reg{k.c, ia.X}].(Slice); !ok || !sameList(sl, in) {
			continue
		}
		if c, ok := ia.Index.(*ssa.Const); ok {
			if i, ok := y.get(c).(Int); ok {
				return i.l
			}
			continue
		}
		if i, ok := x.s.regs[Reg{k.c, ia.Index}].(Int); ok {
			return i.l
		}
	}
	return nil
}

func sameList(a, b Slice) bool {
	if a.base == noSym || a.base != b.base || a.ln != b.ln || len(a.tg) != len(b.tg) {
		return false
	}
	for i := range a.tg {
		if a.tg[i].o != b.tg[i].o || a.tg[i].off != b.tg[i].off {
			return false
		}
	}
	return true
}

// singleElem: the value that is appended, when it is one.
func singleElem(x *X, sl Slice) *Lin {
	if n, ok := sl.ln.isConst(); !ok || n != 1 || len(sl.tg) != 1 {
		return nil
	}
	if v, ok := x.s.mem[Cell{sl.tg[0].o, "[0]"}].(Int); ok {
		return v.l
	}
	return nil
}

// lists: the lists of ids of the activation other than the given one, by the place they are kept in.
func lists(x *X, tc *Ctx, in Slice) map[string]Slice {
	m := map[string]Slice{}
	for c, v := range x.s.mem {
		sl, ok := v.(Slice)
		if !ok || c.o.at == nil || !c.o.at.ctx.within(tc) || strings.HasPrefix(c.path, "#") {
			continue
		}
		if c.o.typ != nil && listIn(c.o.typ) {
			m[c.path+fmt.Sprint("@", c.o.id)] = sl
		}
	}
	for r, v := range x.s.regs {
		sl, ok := v.(Slice)
		if !ok || !r.c.within(tc) || !isIDList(r.v.Type()) || sameList(sl, in) {
			continue
		}
		m[fmt.Sprint("r", r.c.id, r.v.Name())] = sl
	}
	return m
}

func listIn(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isIDList(t)
	case *types.Array:
		return listIn(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if listIn(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func kids(s *State) []string {
	var r []string
	for k := range s.tags {
		if strings.HasPrefix(k, "t:kid:") {
			r = append(r, k[6:])
		}
	}
	sort.Strings(r)
	return r
}

// childrenOK: what is wrong with the children that a node is given.
func childrenOK(ev *Ev) string {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	in, ok := treeGet(s, "#in").(Slice)
	if !ok || len(ev.args) < 2 {
		return "the list that was given is not known"
	}
	arg, ok := ev.args[1].(Slice)
	if !ok {
		return "the children are not known"
	}
	ks := kids(s)
	if len(ks) == 0 {
		if sameList(arg, in) {
			return ""
		}
		cp, ok := treeGet(s, "#cp").(Slice)
		if ok && cp.base != noSym && cp.base == arg.base && s.proveEq(arg.ln, in.ln) && s.proveEq(cp.ln, in.ln) {
			return ""
		}
		// append([]T(nil), list...)
		if c, ok := ev.in.(ssa.CallInstruction); ok {
			as := c.Common().Args
			if len(as) > 0 {
				if a, ok := as[len(as)-1].(*ssa.Call); ok {
					if b, ok := a.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						d, ok1 := x.get(a.Call.Args[0]).(Slice)
						f, ok2 := x.s.regs[Reg{x.ctx, a.Call.Args[1]}].(Slice)
						if ok1 && ok2 && s.proveEq(d.ln, u.zero) && sameList(f, in) {
							return ""
						}
					}
				}
			}
		}
		return "a leaf is not given a copy of the whole list"
	}
	if len(ks) != 2 {
		return fmt.Sprint("the builder was called for ", len(ks), " lists")
	}
	if !s.proveEq(arg.ln, u.k(2)) || len(arg.tg) != 1 {
		return "a split node is not given two children"
	}
	var el [2]*Lin
	for i := range el {
		v, ok := s.mem[Cell{arg.tg[0].o, fmt.Sprintf("[%d]", i)}].(Int)
		if !ok {
			return "the children are not known"
		}
		el[i] = v.l
	}
	a, b := treeInt(s, "#kid:"+ks[0]), treeInt(s, "#kid:"+ks[1])
	if a == nil || b == nil || !(el[0] == a && el[1] == b || el[0] == b && el[1] == a) {
		return "the children are not the two subtrees"
	}
	return ""
}

// countOK: what is wrong with the number of descendants that a node is given.
func countOK(ev *Ev) string {
	s := ev.x.s
	in, ok := treeGet(s, "#in").(Slice)
	items := treeInt(s, "._n_items")
	if !ok || len(ev.args) < 2 {
		return "the list that was given is not known"
	}
	n, ok := ev.args[1].(Int)
	if !ok {
		return "the number is not known"
	}
	same, all := s.proveEq(n.l, in.ln), items != nil && s.proveEq(n.l, items)
	switch root := s.tags["t:root"]; {
	case root == "no" && same, root == "yes" && all, same && all:
		return ""
	}
	return "the number is neither that of the items given (below the root) nor that of all items (root)"
}

func ghostTree(ev *Ev) {
	x, s, u := ev.x, ev.x.s, ev.x.e.u
	tc := treeCtx(x.ctx)
	leave := func() {
		for _, k := range []string{"#in", "#kid:", "#len:", "#slot", "#cp", "#troot"} {
			treeDel(s, k)
		}
		tagDel(s, "t:")
	}
	enter := func(fn *ssa.Function) {
		leave()
		for _, k := range []string{"#seen", "#cur", "#cnt"} {
			treeDel(s, k)
		}
		if i := idListParam(fn); i >= 0 && i < len(ev.args) {
			treeSet(s, "#in", ev.args[i])
		}
		for i, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && i < len(ev.args) {
				s.tags["t:root"] = "?"
				if v, ok := ev.args[i].(Bool); ok && v.k != 0 {
					s.tags["t:root"] = map[bool]string{true: "yes", false: "no"}[v.k == 1]
				}
				break
			}
		}
	}
	if tc == nil && s.tags["t:ret"] != "" {
		r := treeGet(s, "#troot")
		leave()
		if r != nil {
			treeSet(s, "#troot", r)
		}
	}
	switch ev.kind {
	case "call":
		switch {
		case ev.fn == nil:
		case ev.fn.Name() == "ThreadBuild":
			treeDel(s, "#seen")
			treeDel(s, "#cur")
			treeDel(s, "#cnt")
			treeDel(s, "#plist")
			tagDel(s, "tb:")
			s.tags["tb:new"] = "1"
		case tc == nil && treeFn(ev.fn) && within(x.ctx, "ThreadBuild"):
			// the list is judged (observeC07 runs after this) by what is kept in tags
			s.tags["tb:list"] = listOK(ev)
			if i := idListParam(ev.fn); i < len(ev.args) {
				treeSet(s, "#plist", ev.args[i])
			}
			tagDel(s, "tb:app")
			s.tags["tb:new"] = "1"
			enter(ev.fn)
		case tc == nil:
		case ev.fn.Name() == "CreateSplit":
			s.tags["t:split"] = "1"
		case ev.fn.Name() == "SetChildren":
			s.tags["t:children"] = map[bool]string{true: "ok", false: "bad"}[childrenOK(ev) == ""] + fmt.Sprint(len(kids(s)))
		case ev.fn.Name() == "SetNumberOfDescendants":
			s.tags["t:count"] = map[bool]string{true: "ok", false: "bad"}[countOK(ev) == ""]
		}
	case "recenter":
		enter(ev.fn)
	case "recursed":
		if tc == nil {
			return
		}
		c, ok := ev.in.(ssa.CallInstruction)
		i := idListParam(ev.fn)
		if !ok || i < 0 || i >= len(ev.args) || i >= len(c.Common().Args) {
			return
		}
		k := listKey(x, c.Common().Args[i])
		if s.tags["t:kid:"+k] != "" {
			k += "'" // again
		}
		s.tags["t:kid:"+k] = "1"
		l, ok := ev.args[i].(Slice)
		if !ok {
			return
		}
		treeSet(s, "#len:"+k, Int{l.ln})
		s.tags["t:sum"] = "bad"
		if in, ok := treeGet(s, "#in").(Slice); ok {
			sum := u.zero
			for _, k := range kids(s) {
				if n := treeInt(s, "#len:"+k); n != nil && sum != nil {
					sum = u.add(sum, n)
				} else {
					sum = nil
				}
			}
			if sum != nil && s.proveEq(sum, in.ln) {
				s.tags["t:sum"] = "ok"
			}
		}
		if ev.val != nil {
			treeSet(s, "#kid:"+k, ev.val)
		}
	case "load":
		if tc == nil && x.ctx.fn.Name() == "GetNumberOfDescendants" && within(x.ctx, "ThreadBuild") && len(ev.ptr.tg) > 0 {
			treeDel(s, "#curslot")
			ns := treeInt(s, ".nodeSize")
			var q *Lin
			for i, t := range ev.ptr.tg {
				y, _ := slotOf(u, t.off, ns)
				if !storage(t.o) || y == nil || i > 0 && y != q {
					return
				}
				q = y
			}
			treeSet(s, "#curslot", Int{q})
		}
	case "return":
		if tc == nil && x.ctx.fn.Name() == "GetNumberOfDescendants" && within(x.ctx, "ThreadBuild") && len(ev.args) == 1 {
			ok := pendingOK(s)
			v, isInt := ev.args[0].(Int)
			slot := treeInt(s, "#curslot")
			treeDel(s, "#curv")
			tagDel(s, "tb:app")
			if !isInt || slot == nil {
				s.tags["tb:bad"] = "1"
				return
			}
			seen := treeInt(s, "#seen")
			if s.tags["tb:new"] != "" {
				seen, ok = u.zero, true
				delete(s.tags, "tb:new")
				delete(s.tags, "tb:bad")
				treeSet(s, "#cnt", Int{u.zero})
			}
			if !ok || seen == nil || !s.proveEq(slot, seen) {
				s.tags["tb:bad"] = "1"
				return
			}
			treeSet(s, "#seen", Int{u.addc(slot, 1)})
			treeSet(s, "#curv", v)
		}
		if tc != nil && tc == x.ctx && len(ev.args) == 1 {
			treeSet(s, "#troot", ev.args[0])
			s.tags["t:ret"] = "1"
		}
	case "append":
		if tc == nil && within(x.ctx, "ThreadBuild") && ev.typ != nil && isIDList(types.NewSlice(ev.typ)) {
			v, seen, cnt := singleElem(x, ev.sl2), treeInt(s, "#seen"), treeInt(s, "#cnt")
			if v == nil {
				return
			}
			if r := treeInt(s, "#troot"); r != nil && r == v {
				return // the list of roots
			}
			items := treeInt(s, "._n_items")
			if seen != nil && cnt != nil && items != nil && s.tags["tb:app"] == "" && s.proveLt(v, items) && s.proveEq(u.addc(v, 1), seen) && s.proveEq(cnt, ev.sl.ln) {
				s.tags["tb:app"] = "1"
				treeSet(s, "#cnt", Int{u.addc(ev.sl.ln, 1)})
			} else {
				s.tags["tb:bad"] = "1"
			}
		}
	case "copy":
		if tc == nil {
			return
		}
		if in, ok := treeGet(s, "#in").(Slice); ok && sameList(ev.sl2, in) && len(ev.sl.tg) == 1 && s.proveEq(ev.ln, in.ln) && s.proveEq(ev.sl.ln, in.ln) {
			treeSet(s, "#cp", ev.sl)
			return
		}
		fallthrough
	case "store":
		if tc == nil || allocatorCtx(x.ctx) {
			return
		}
		ns := treeInt(s, ".nodeSize")
		accesses(ev, func(t Tgt, n *Lin, write bool) {
			if !write {
				return
			}
			if storage(t.o) {
				if q, _ := slotOf(u, t.off, ns); q != nil {
					if old := treeInt(s, "#slot"); old == nil || old == q || s.proveEq(old, q) {
						treeSet(s, "#slot", Int{q})
					} else {
						treeSet(s, "#slot", Int{q})
						s.tags["t:slots"] = "1"
					}
				} else {
					treeDel(s, "#slot")
				}
			}
			if within(x.ctx, "SetChildren") && t.o.raw {
				if storage(t.o) {
					s.tags["t:intree"] = "1"
				} else {
					s.tags[fmt.Sprint("t:ko:", t.o.id)] = "1"
				}
			}
		})
		if ev.kind == "copy" {
			dst, src := len(ev.sl.tg) > 0, len(ev.sl2.tg) > 0
			for _, t := range ev.sl.tg {
				dst = dst && storage(t.o)
			}
			for _, t := range ev.sl2.tg {
				src = src && s.tags[fmt.Sprint("t:ko:", t.o.id)] != "" && t.off != nil && s.proveEq(t.off, u.zero)
			}
			if dst && src && ns != nil && s.proveEq(ev.ln, ns) {
				s.tags["t:intree"] = "1"
			}
		}
	}
}

// pendingOK: was the item that was looked at last put in the list, or is its marker below 1?
func pendingOK(s *State) bool {
	v := treeInt(s, "#curv")
	return s.tags["tb:bad"] == "" && (s.tags["tb:app"] != "" || v != nil && s.proveLe(v, s.e.u.zero))
}

// listOK: what is wrong with the list of a whole tree.
func listOK(ev *Ev) string {
	s := ev.x.s
	i := idListParam(ev.fn)
	if i < 0 || i >= len(ev.args) {
		return "the list is not known"
	}
	arg, ok := ev.args[i].(Slice)
	items := treeInt(s, "._n_items")
	if !ok || items == nil {
		return "the list is not known"
	}
	if s.tags["tb:new"] != "" {
		if p, ok := treeGet(s, "#plist").(Slice); ok && sameList(p, arg) {
			return ""
		}
		if s.proveLe(items, s.e.u.zero) && s.proveEq(arg.ln, s.e.u.zero) {
			return ""
		}
		return "the items are not looked at"
	}
	seen, cnt := treeInt(s, "#seen"), treeInt(s, "#cnt")
	switch {
	case s.tags["tb:bad"] != "":
		return "the items are not looked at one after the other, or something else is put in the list"
	case !pendingOK(s):
		return "an item whose marker is not 0 may be left out"
	case seen == nil || !s.proveLe(items, seen):
		return "not every item is looked at"
	case cnt == nil || !s.proveEq(cnt, arg.ln):
		return "the list is not the one the items were put in"
	}
	return ""
}

func observeC07(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		if x.isHarness(x.ctx.fn) {
			return
		}
		ob := func(rule, con string, ok bool, why string) {
			r.dump(rule+why, ok, ev)
			r.ob(rule, con, ok, why)
		}
		tc := treeCtx(x.ctx)
		con := shortFn(x.ctx.fn)
		in, ok := treeGet(s, "#in").(Slice)
		if tc == nil {
			if ev.kind == "call" && treeFn(ev.fn) && within(x.ctx, "ThreadBuild") {
				why := s.tags["tb:list"]
				ob("a tree starts from all items that were added", con, why == "", why+", in "+r.at(ev))
			}
			return
		}
		switch ev.kind {
		case "append":
			if ev.typ == nil || !isIDList(types.NewSlice(ev.typ)) {
				return
			}
			if ok && sameList(ev.sl2, in) {
				return // a copy
			}
			rule := "an item handed to a node goes to one side"
			v := singleElem(x, ev.sl2)
			if !ok || v == nil {
				ob(rule, con, false, "what is put in the list is not known in "+r.at(ev))
				return
			}
			i := itemAt(x, tc, v, in)
			if i == nil {
				ob(rule, con, false, "what is put in the list is not the item at hand in "+r.at(ev))
				return
			}
			c, _ := ev.in.(ssa.CallInstruction)
			own := listKey(x, c.Common().Args[0])
			good := false
			for k, l := range lists(x, tc, in) {
				if strings.HasPrefix(k, own+"@") || strings.HasSuffix(k, own) {
					continue
				}
				sum := u.add(ev.sl.ln, l.ln)
				if s.proveEq(i, sum) || s.proveEq(u.add(i, sum), u.addc(in.ln, -1)) {
					good = true
				}
			}
			ob(rule, con, good, "the two lists may not hold the items before this one, each once, in "+r.at(ev))
		case "call":
			if ev.fn == nil {
				return
			}
			switch ev.fn.Name() {
			case "SetChildren":
				why := childrenOK(ev)
				rule := "both sides are built and become the children"
				if len(kids(s)) == 0 {
					rule = "a leaf lists all its items"
				}
				ob(rule, con, why == "", why+", in "+r.at(ev))
			case "SetNumberOfDescendants":
				why := countOK(ev)
				ob("a node's count is the number of items it is given", con, why == "", why+", in "+r.at(ev))
			}
		case "return":
			if x.ctx != tc || len(ev.args) != 1 {
				return
			}
			v, isInt := ev.args[0].(Int)
			if !ok || !isInt {
				ob("the node that is returned is the one written", con, false, "the result is not known in "+r.at(ev))
				return
			}
			ks := kids(s)
			slot := treeInt(s, "#slot")
			if len(ks) == 0 && slot == nil && s.tags["t:children"] == "" {
				i := itemAt(x, tc, v.l, in)
				ob("a list of one item needs no node", con, s.proveEq(in.ln, u.k(1)) && i != nil && s.proveEq(i, u.zero), "no node is written although the list is not one item, which is returned, in "+r.at(ev))
				return
			}
			ob("the node that is returned is the one written", con, slot != nil && s.tags["t:slots"] == "" && s.proveEq(slot, v.l), "another record may have been written in "+r.at(ev))
			ob("a node's count is the number of items it is given", con, s.tags["t:count"] != "", "the node has no count in "+r.at(ev))
			if len(ks) == 0 {
				ob("a leaf lists all its items", con, s.tags["t:children"] != "" && s.tags["t:intree"] != "" || s.proveLe(in.ln, u.zero), "a leaf without its items is returned in "+r.at(ev))
				return
			}
			ob("an item handed to a node goes to one side", con+" passes on", s.tags["t:sum"] == "ok", "the lists passed on may not hold as many items as were given in "+r.at(ev))
			ob("both sides are built and become the children", con, s.tags["t:children"] == "ok2" && s.tags["t:intree"] != "", "a split without its two children is returned in "+r.at(ev))
		}
	}
}
