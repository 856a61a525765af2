package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about what the numbers of a distance mean: signs of margins, bounds, and the direction of the ranking value.

var convCfg = Config{MaxDisj: 2000, Dot: true, FltPaths: true, FloatRel: true}

func convUses(obs func(r *Run) func(*Ev)) []HarnessUse {
	return []HarnessUse{
		{name: "hConvAngular", generic: true, cfg: convCfg, observe: obs},
		{name: "hConvDot", generic: true, cfg: convCfg, observe: obs},
	}
}

// ---- how a term changes with one of its parts ----

const (
	moConst = iota
	moInc
	moDec
	moAny
)

func moFlip(m int) int {
	switch m {
	case moInc:
		return moDec
	case moDec:
		return moInc
	}
	return m
}

func moJoin(a, b int) int {
	switch {
	case a == moConst:
		return b
	case b == moConst || a == b:
		return a
	}
	return moAny
}

// mono: how the value of a term changes as the value of p grows.
func (s *State) mono(t, p *Term) int {
	if t == p {
		return moInc
	}
	m := make([]int, len(t.args))
	all := moConst
	for i, a := range t.args {
		m[i] = s.mono(a, p)
		all = moJoin(all, m[i])
	}
	if t.op == "dot" || all == moConst {
		return moConst
	}
	scaled := func(i, k int) int {
		if m[k] != moConst {
			return moAny
		}
		switch g := s.signOf(t.args[k]); {
		case g&sgNeg == 0:
			return m[i]
		case g&sgPos == 0:
			return moFlip(m[i])
		}
		return moAny
	}
	switch t.op {
	case "neg":
		return moFlip(m[0])
	case "add", "min", "max", "conv32", "conv64", "sqrt":
		return all
	case "sub":
		return moJoin(m[0], moFlip(m[1]))
	case "mul":
		if m[0] == moConst {
			return scaled(1, 0)
		}
		return scaled(0, 1)
	case "quo":
		return scaled(0, 1)
	}
	return moAny
}

// noDirection: one of the two vectors has no length on this path.
func noDirection(s *State) bool {
	u := s.e.u
	var norm func(t *Term) bool
	norm = func(t *Term) bool {
		switch t.op {
		case "sym":
			return strings.HasPrefix(u.info(t.sym).op, "ld:")
		case "dot":
			return t.args[0] == t.args[1]
		case "mul", "conv32", "conv64", "sqrt":
			for _, a := range t.args {
				if !norm(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	for t, g := range s.sg {
		if g&sgPos == 0 && g != 0 && norm(t) {
			return true
		}
	}
	return false
}

// dotOf: the term is the product of the vector at o+off with itself, in any version of the memory.
func sameProduct(u *Univ, a, b *Term) bool {
	if a.op != "dot" || b.op != "dot" || a.args[2] != b.args[2] {
		return false
	}
	for i := range a.args[:2] {
		p, q := u.info(a.args[i].sym), u.info(b.args[i].sym)
		if p.op != "vec" || q.op != "vec" || len(p.objs) != 1 || len(q.objs) != 1 || p.objs[0] != q.objs[0] || p.args[0] != q.args[0] {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{
		id: "C23",
		uses: append(convUses(observeC23),
			HarnessUse{name: "hDot", generic: true, cfg: Config{MaxDisj: 800, Ghost: ghostDot}, observe: observeC23},
			HarnessUse{name: "hRankDot", generic: true, cfg: rankCfg, observe: observeGetDistance}),
		min: map[string]int{
			"the ranking value decreases as the inner product grows":     2,
			"the distance is symmetric":                                  2,
			"the reported distance is the inner product":                 1,
			"the reported distance grows with the ranking value":         1,
			"a norm is the inner product of the vector with itself":      1,
			"an inner product sums the products of all pairs of numbers": 2,
			"GetDistance reports the distance of the two items":          1,
		},
		expl:   "Symbolic evaluation of Distance, NormalizedDistance and InitNode of each distance on nodes with arbitrary contents, with the inner product of two vectors as a term of its own: on every path the ranking value is a term in which the inner product occurs only where it makes the value smaller (or a constant, where a norm is known to be zero); swapping the nodes gives the identical term; the reported value of the dot product distance is the inner product term, that of the angular distance a term that grows with the ranking value. vector.Dot and DotUnsafe are analysed with a ghost counter: every index is multiplied with its own partner, in turn, exactly once, and every product is added. GetDistance is analysed with a distance that reports arbitrary numbers: its result is the reported form of the distance of the two items' records.",
		assume: []string{"norms stored in nodes are not negative", "finite inputs; rounding is monotone"},
		combos: 4,
	})
	register(&Check{
		id:     "C19",
		uses:   append(append(convUses(observeC19), rankUses(observeRank19)...), sideUses()...),
		min:    map[string]int{"vectors with a positive margin are on the right": 2, "a child is passed the bound on its side": 4, "the roots have no bound": 2, "a child is put in the queue with the bound on its side": 1, "the roots are put in the queue with the initial bound": 1, "the node with the best bound is expanded next": 1},
		expl:   "Symbolic evaluation of Margin, Side and PQDistance of each distance: on every path of Side the sign of the margin (the same term as Margin's result) decides the side, and a random side is drawn only for a zero margin; PQDistance is the minimum of the bound and the margin (right) or the negated margin (left).",
		assume: []string{"finite inputs"},
		combos: 4,
	})
}

// observeC23.
func observeC23(r *Run) func(*Ev) {
	dot := r.harness == "hConvDot"
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		op := opName(s.tags["op"])
		if r.harness == "hDot" {
			observeDot(r, ev)
			return
		}
		if ev.kind != "result" || ev.name != "Distance" && ev.name != "NormalizedDistance" && ev.name != "InitNode" {
			return
		}
		con := map[bool]string{false: "angular", true: "dot product"}[dot] + " " + op
		var ts []*Term
		for _, a := range ev.args {
			t := fterm(a)
			ts = append(ts, t)
			if t == nil {
				r.ob("values of distances are understood", con, false, "the value of "+ev.name+" is not a floating point term: "+r.at(ev))
				return
			}
		}
		_ = x
		switch ev.name {
		case "Distance":
			v, w, p, nd := ts[0], ts[1], ts[2], ts[3]
			ok := false
			switch s.mono(v, p) {
			case moDec:
				ok = true
			case moConst:
				ok = !dot && noDirection(s)
			}
			const rule = "the ranking value decreases as the inner product grows"
			why := u.termStr(v) + " with the inner product " + u.termStr(p)
			r.dump(rule, ok, ev)
			r.ob(rule, con, ok, why)
			r.ob("the distance is symmetric", con, v == w, u.termStr(v)+" one way and "+u.termStr(w)+" the other")
			if dot {
				r.ob("the reported distance is the inner product", con, nd == p, u.termStr(nd)+" with the inner product "+u.termStr(p))
			}
		case "NormalizedDistance":
			if dot {
				return
			}
			f, nd := ts[0], ts[1]
			m := s.mono(nd, f)
			g := s.signOf(f)
			ok := m == moInc || m == moConst && g&sgPos == 0 && s.signOf(nd)&sgPos == 0
			r.ob("the reported distance grows with the ranking value", con, ok, u.termStr(nd)+" for the ranking value "+u.termStr(f))
		case "InitNode":
			if dot {
				return
			}
			ok := sameProduct(u, ts[0], ts[1])
			r.ob("a norm is the inner product of the vector with itself", con, ok, "the norm is "+u.termStr(ts[0]))
		}
	}
}

// observeGetDistance: the index reports the distance of the two items.
func observeGetDistance(r *Run) func(*Ev) {
	return func(ev *Ev) {
		s := ev.x.s
		if ev.kind != "result" || ev.name != "Distance" || opName(s.tags["op"]) != "GetDistance" {
			return
		}
		f, sh, far, of := fterm(ev.args[0]), rankFlt(s, "#rsh"), rankFlt(s, "#rfar"), rankFlt(s, "#rshv")
		i, ok1 := ev.args[1].(Int)
		j, ok2 := ev.args[2].(Int)
		x, y := treeInt(s, "#rx"), treeInt(s, "#ry")
		why := ""
		switch {
		case f == nil || sh == nil || f != sh || far == nil || of != far:
			why = "the result is not the reported form of a distance"
		case !ok1 || !ok2 || x == nil || y == nil || !(s.proveEq(x, i.l) && s.proveEq(y, j.l) || s.proveEq(x, j.l) && s.proveEq(y, i.l)):
			why = "the distance is not that of the records of the two items"
		}
		const rule = "GetDistance reports the distance of the two items"
		r.dump(rule, why == "", ev)
		r.ob(rule, "GetDistance", why == "", why)
	}
}

// ---- the inner product itself ----

func dotObjs(s *State) (a, b *Obj) {
	for c := range s.mem {
		switch c.path {
		case "#dota":
			a = c.o
		case "#dotb":
			b = c.o
		}
	}
	return
}

// ghostDot counts the pairs that have been multiplied and keeps the product that has not been added yet.
func ghostDot(ev *Ev) {
	s, u := ev.x.s, ev.x.e.u
	switch ev.kind {
	case "result":
		if ev.name == "product of" {
			for i, n := range []string{"#dota", "#dotb"} {
				if t, ok := single(ev.args[i]); ok {
					s.mem[Cell{t.o, n}] = Int{u.zero}
					if i == 0 {
						s.mem[Cell{t.o, "#doto"}] = Int{u.zero}
					}
				}
			}
		}
	case "farith":
		a, b := dotObjs(s)
		if a == nil || b == nil {
			return
		}
		n, _ := s.mem[Cell{a, "#dota"}].(Int)
		switch ev.name {
		case "mul":
			if s.tags["pending"] != "" || !isPair(ev, a, b, n.l) {
				s.tags["wrong"] = "1"
			}
			s.tags["pending"] = "1"
			s.mem[Cell{b, "#dotp"}] = ev.val
			s.mem[Cell{a, "#dota"}] = Int{u.addc(n.l, 1)}
			// the same in bytes
			m, _ := s.mem[Cell{a, "#doto"}].(Int)
			s.mem[Cell{a, "#doto"}] = Int{u.addc(m.l, ev.x.e.sizeof(ev.in.(ssa.Value).Type()))}
		case "add":
			p, ok := s.mem[Cell{b, "#dotp"}].(Flt)
			l, r := fterm(ev.args[0]), fterm(ev.args[1])
			if !ok || s.tags["pending"] == "" {
				// sums of sums
				if !sumTerm(l) || !sumTerm(r) {
					s.tags["wrong"] = "1"
				}
				return
			}
			if (l == p.t) == (r == p.t) {
				s.tags["wrong"] = "1"
			}
			delete(s.tags, "pending")
			delete(s.mem, Cell{b, "#dotp"})
		default:
			s.tags["wrong"] = "1"
		}
	}
}

func sumTerm(t *Term) bool {
	return t != nil && (t.op == "add" || t.op == "sym" || t.op == "const" && t.f == 0)
}

// isPair: the factors are the n-th numbers of the two vectors.
func isPair(ev *Ev, a, b *Obj, n *Lin) bool {
	s, u := ev.x.s, ev.x.e.u
	seen := map[*Obj]bool{}
	for _, v := range ev.args {
		t := fterm(v)
		if t == nil || t.op != "sym" || n == nil {
			return false
		}
		in := u.info(t.sym)
		if !strings.HasPrefix(in.op, "ld:float") || len(in.objs) != 1 {
			return false
		}
		sz := int64(4)
		if in.op == "ld:float64" {
			sz = 8
		}
		off, _ := s.mem[Cell{a, "#doto"}].(Int)
		if !s.proveEq(in.args[0], u.scale(n, sz)) && (off.l == nil || !s.proveEq(in.args[0], off.l)) {
			return false
		}
		seen[in.objs[0]] = true
	}
	return seen[a] && seen[b]
}

func observeDot(r *Run, ev *Ev) {
	if ev.kind != "result" || ev.name != "product" {
		return
	}
	s, u := ev.x.s, ev.x.e.u
	const rule = "an inner product sums the products of all pairs of numbers"
	con := "vector." + opName(s.tags["op"])
	a, _ := dotObjs(s)
	t := fterm(ev.args[0])
	n, ok := ev.args[1].(Int)
	var k Int
	if a != nil {
		k, _ = s.mem[Cell{a, "#dota"}].(Int)
	}
	why := ""
	switch {
	case a == nil || k.l == nil || !ok:
		why = "the loop is not understood"
	case s.tags["wrong"] != "":
		why = "a product or sum is not of the expected numbers"
	case s.tags["pending"] != "":
		why = "a product is not added"
	case !s.proveEq(k.l, n.l):
		why = fmt.Sprintf("%s products for %s numbers", u.linStr(k.l), u.linStr(n.l))
	case !sumTerm(t):
		why = "the result is not the sum"
	}
	r.dump(rule, why == "", ev)
	r.ob(rule, con, why == "", why)
}

// ---- C19: conventions ----

func observeC19(r *Run) func(*Ev) {
	name := map[string]string{"hConvAngular": "angular", "hConvDot": "dot product"}[r.harness]
	return func(ev *Ev) {
		if ev.kind != "result" {
			return
		}
		s, u := ev.x.s, ev.x.e.u
		switch ev.name {
		case "Side":
			const rule = "vectors with a positive margin are on the right"
			m := fterm(ev.args[0])
			k, isInt := ev.args[1].(Int)
			if m == nil || !isInt {
				r.ob(rule, name, false, "the side is not understood")
				return
			}
			g := s.signOf(m)
			drawn := s.tags["at:drawn"] != ""
			c, known := k.l.isConst()
			ok := drawn && g == sgZero
			if known && !drawn {
				ok = c == 1 && g == sgPos || c == 0 && g == sgNeg
			}
			why := fmt.Sprintf("side %s for a margin that is %s", u.linStr(k.l), signName(g))
			if drawn {
				why = "a random side for a margin that is " + signName(g)
			}
			r.ob(rule, name, ok, why)
		case "PQLeft", "PQRight":
			a, b, v := fterm(ev.args[0]), fterm(ev.args[1]), fterm(ev.args[2])
			const rule = "a child is passed the bound on its side"
			con := name + " " + ev.name
			if a == nil || b == nil || v == nil {
				r.ob(rule, con, false, "the bound is not understood")
				return
			}
			if ev.name == "PQLeft" {
				b = u.term("neg", b)
			}
			r.ob(rule, con, isMin(ev.x, v, a, b), u.termStr(v)+" instead of the smaller of "+u.termStr(a)+" and "+u.termStr(b))
		case "PQInitialValue":
			v := fterm(ev.args[0])
			ok := v != nil && v.op == "const" && v.f > 1e38
			r.ob("the roots have no bound", name, ok, "the initial bound is "+fmt.Sprint(termOrNil(u, v)))
		}
	}
}

func termOrNil(u *Univ, t *Term) string {
	if t == nil {
		return "unknown"
	}
	return u.termStr(t)
}

// isMin: the term is the smaller of two others on this path.
func isMin(x *X, v, a, b *Term) bool {
	if v == x.e.u.term("min", a, b) {
		return true
	}
	// d = sign of a-b, as far as known
	g := x.relSign(a, b)
	return v == a && g&sgPos == 0 || v == b && g&sgNeg == 0
}

// relSign: what is known of the sign of a-b, from comparisons of the terms or of their negations.
func (x *X) relSign(a, b *Term) uint8 {
	u := x.e.u
	g := sgAny
	for _, q := range [][2]*Term{{a, b}, {u.term("neg", b), u.term("neg", a)}, {u.term("conv64", a), u.term("conv64", b)}} {
		l, r, flip := q[0], q[1], false
		if l.id > r.id {
			l, r, flip = r, l, true
		}
		w := x.s.signOf(u.term("rel", l, r))
		if flip {
			w = flipSign(w)
		}
		g &= w
	}
	return g
}
