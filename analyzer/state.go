package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Reg struct {
	c *Ctx
	v ssa.Value
}
type Cell struct {
	o    *Obj
	path string
}

type deferRec struct {
	ctx  *Ctx
	in   *ssa.Defer
	fn   AV
	args []AV
}

// sign sets of floats
const (
	sgNeg  uint8 = 1
	sgZero uint8 = 2
	sgPos  uint8 = 4
	sgAny  uint8 = 7
)

// State is the abstract state at a point: registers of all active frames, memory, linear facts (each <= 0), nilness and
// sign facts, and client tags.
type State struct {
	e      *Engine
	regs   map[Reg]AV
	mem    map[Cell]AV
	facts  []*Lin // sorted by id, each <= 0
	nes    []*Lin // sorted by id, each != 0
	nilf   map[Sym]bool
	sg     map[*Term]uint8
	tags   map[string]string
	defers []deferRec
	dead   bool

	idx   map[Sym][]*Lin
	cache map[*Lin]bool
}

func newState(e *Engine) *State {
	return &State{e: e, regs: map[Reg]AV{}, mem: map[Cell]AV{}, nilf: map[Sym]bool{}, sg: map[*Term]uint8{}, tags: map[string]string{}}
}

func (s *State) clone() *State {
	n := &State{e: s.e, dead: s.dead}
	n.regs = make(map[Reg]AV, len(s.regs)+8)
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.mem = make(map[Cell]AV, len(s.mem)+8)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.nilf = make(map[Sym]bool, len(s.nilf))
	for k, v := range s.nilf {
		n.nilf[k] = v
	}
	n.sg = make(map[*Term]uint8, len(s.sg))
	for k, v := range s.sg {
		n.sg[k] = v
	}
	n.tags = make(map[string]string, len(s.tags))
	for k, v := range s.tags {
		n.tags[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.nes = s.nes[:len(s.nes):len(s.nes)]
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return n
}

func insLin(fs []*Lin, l *Lin) ([]*Lin, bool) {
	i := sort.Search(len(fs), func(i int) bool { return fs[i].id >= l.id })
	if i < len(fs) && fs[i] == l {
		return fs, false
	}
	n := make([]*Lin, 0, len(fs)+1)
	n = append(n, fs[:i]...)
	n = append(n, l)
	n = append(n, fs[i:]...)
	return n, true
}

func hasLin(fs []*Lin, l *Lin) bool {
	i := sort.Search(len(fs), func(i int) bool { return fs[i].id >= l.id })
	return i < len(fs) && fs[i] == l
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// normFact divides a fact (l<=0) by the gcd of its coefficients, rounding the constant towards the stronger fact.
func (u *Univ) normFact(l *Lin) *Lin {
	if len(l.ts) == 0 {
		return l
	}
	var g int64
	for _, t := range l.ts {
		g = gcd(g, t.k)
	}
	if g <= 1 {
		return l
	}
	ts := make([]lt, len(l.ts))
	for i, t := range l.ts {
		ts[i] = lt{t.s, t.k / g}
	}
	// sum + c/g <= 0 with integer sum: sum <= floor(-c/g)  => constant = -floor(-c/g) = ceil(c/g)
	c := l.c
	q := c / g
	if c%g != 0 && c > 0 {
		q++
	}
	return u.mk(q, ts)
}

// addFact records l <= 0. A contradiction makes the state dead.
func (s *State) addFact(l *Lin) {
	u := s.e.u
	l = u.normFact(l)
	if c, ok := l.isConst(); ok {
		if c > 0 {
			s.dead = true
		}
		return
	}
	// drop weaker versions of the same fact
	fs, added := insLin(s.facts, l)
	if added {
		s.facts = fs
		s.idx, s.cache = nil, nil
		// a fact together with a disequality can become stronger
		for _, n := range s.nes {
			if n.c == l.c && sameTs(n.ts, l.ts, 1) {
				s.addFact(u.addc(l, 1))
			} else if n.c == -l.c && sameTs(n.ts, l.ts, -1) {
				s.addFact(u.addc(l, 1))
			}
		}
	}
}

func sameTs(a, b []lt, f int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].s != b[i].s || a[i].k != f*b[i].k {
			return false
		}
	}
	return true
}

func (s *State) addEq(a, b *Lin) {
	s.addFact(s.e.u.sub(a, b))
	s.addFact(s.e.u.sub(b, a))
}

func (s *State) addNe(l *Lin) {
	u := s.e.u
	if c, ok := l.isConst(); ok {
		if c == 0 {
			s.dead = true
		}
		return
	}
	if s.prove(l) { // l <= 0 and l != 0
		s.addFact(u.addc(l, 1))
		return
	}
	neg := u.scale(l, -1)
	if s.prove(neg) {
		s.addFact(u.addc(neg, 1))
		return
	}
	s.nes, _ = insLin(s.nes, l)
}

// ---- entailment ----------------------------------------------------------------------------------------------------

func (s *State) index() map[Sym][]*Lin {
	if s.idx == nil {
		s.idx = map[Sym][]*Lin{}
		for _, f := range s.facts {
			for _, t := range f.ts {
				s.idx[t.s] = append(s.idx[t.s], f)
			}
		}
	}
	return s.idx
}

// axioms returns universally valid facts about an op symbol.
func (u *Univ) axioms(sy Sym) []*Lin {
	if a, ok := u.axs[sy]; ok {
		return a
	}
	in := u.info(sy)
	if in.op == "div" || in.op == "rem" {
		a := u.axioms1(sy)
		u.axs[sy] = a
		return a
	}
	return u.axioms1(sy)
}

func (u *Univ) axioms1(sy Sym) []*Lin {
	in := u.info(sy)
	var out []*Lin
	if in.hasLo {
		out = append(out, u.mk(in.lo, []lt{{sy, -1}}))
	}
	if in.hasHi {
		out = append(out, u.mk(-in.hi, []lt{{sy, 1}}))
	}
	switch in.op {
	case "div":
		x, y := in.args[0], in.args[1]
		m := u.mul(u.s(sy), y)
		r := u.rem(x, y)
		e := u.sub(u.add(m, r), x)
		out = append(out, e, u.scale(e, -1))
	case "rem":
		y := in.args[1]
		out = append(out, u.addc(u.sub(u.s(sy), y), 1))
	case "max":
		out = append(out, u.sub(in.args[0], u.s(sy)), u.sub(in.args[1], u.s(sy)))
	case "min":
		out = append(out, u.sub(u.s(sy), in.args[0]), u.sub(u.s(sy), in.args[1]))
	}
	return out
}

type prover struct {
	s     *State
	steps int
	seen  map[*Lin]int
	extra []*Lin
}

// prove reports whether the facts entail l <= 0.
func (s *State) prove(l *Lin) bool {
	if s.dead {
		return true
	}
	if c, ok := l.isConst(); ok {
		return c <= 0
	}
	if s.cache == nil {
		s.cache = map[*Lin]bool{}
	}
	if r, ok := s.cache[l]; ok {
		return r
	}
	p := &prover{s: s, steps: 1500, seen: map[*Lin]int{}}
	r := p.run(l, 7)
	s.cache[l] = r
	s.e.nProve++
	return r
}

func (s *State) proveEq(a, b *Lin) bool {
	u := s.e.u
	return s.prove(u.sub(a, b)) && s.prove(u.sub(b, a))
}

// proveLt: a < b
func (s *State) proveLt(a, b *Lin) bool { return s.prove(s.e.u.addc(s.e.u.sub(a, b), 1)) }
func (s *State) proveLe(a, b *Lin) bool { return s.prove(s.e.u.sub(a, b)) }

func (p *prover) run(l *Lin, depth int) bool {
	if len(l.ts) == 0 {
		return l.c <= 0
	}
	if depth == 0 || len(l.ts) > 8 {
		return false
	}
	if d, ok := p.seen[l]; ok && d >= depth {
		return false
	}
	p.seen[l] = depth
	p.steps--
	if p.steps < 0 {
		return false
	}
	u := p.s.e.u
	idx := p.s.index()
	// choose the symbol with the fewest usable facts
	var best []*Lin
	var bsym lt
	bn := -1
	for _, t := range l.ts {
		var opts []*Lin
		use := func(f *Lin) {
			if k := f.coef(t.s); k != 0 && (k > 0) == (t.k > 0) {
				opts = append(opts, f)
			}
		}
		for _, f := range idx[t.s] {
			use(f)
		}
		for _, f := range u.axioms(t.s) {
			use(f)
		}
		for _, f := range p.extra {
			use(f)
		}
		for _, d := range u.ment[t.s] {
			if len(idx[d]) > 0 || l.coef(d) != 0 {
				for _, f := range u.axioms(d) {
					use(f)
				}
			}
		}
		// axioms of ops that mention the symbol: quotient and remainder of it
		if len(opts) == 0 {
			return false
		}
		if bn < 0 || len(opts) < bn {
			bn, best, bsym = len(opts), opts, t
		}
	}
	// simplest facts first
	sort.SliceStable(best, func(i, j int) bool { return len(best[i].ts) < len(best[j].ts) })
	for _, f := range best {
		k := f.coef(bsym.s)
		a, b := k, bsym.k // a*L - b*F with a,b same sign
		if a < 0 {
			a, b = -a, -b
		}
		// L' = a*L - |b|*F
		if b < 0 {
			b = -b
		}
		g := gcd(a, b)
		n := u.comb(a/g, l, -(b / g), f)
		if p.run(u.normFact2(n), depth-1) {
			return true
		}
	}
	return false
}

// normFact2 scales a goal down without changing its truth for integers (goal l<=0).
func (u *Univ) normFact2(l *Lin) *Lin { return u.normFact(l) }

// proveMul proves l <= 0 with the help of the monotonicity of products: for product atoms a*y and b*y in play it adds
// a*y + k*y <= b*y whenever a + k <= b is provable (k in {0,1}).
// proveFactor: the products with a common factor are r*y, where y is at most a small constant.
func (s *State) proveFactor(l *Lin) bool {
	u := s.e.u
	tried := map[Sym]bool{}
	for _, t := range l.ts {
		if u.info(t.s).op != "mul" {
			continue
		}
		for i := 0; i < 2; i++ {
			r, c, ok := u.info(t.s).args[i].single()
			if !ok || c != 0 || tried[r] {
				continue
			}
			tried[r] = true
			if !s.prove(u.scale(u.s(r), -1)) {
				continue
			}
			y, rest := u.zero, l
			for _, w := range l.ts {
				in := u.info(w.s)
				if in.op != "mul" {
					continue
				}
				for j := 0; j < 2; j++ {
					if q, d, ok := in.args[j].single(); ok && d == 0 && q == r {
						y = u.add(y, u.scale(in.args[1-j], w.k))
						rest = u.sub(rest, u.scale(u.s(w.s), w.k))
						break
					}
				}
			}
			// y = k*z + c
			g := int64(0)
			for _, w := range y.ts {
				a := w.k
				if a < 0 {
					a = -a
				}
				for a != 0 {
					g, a = a, g%a
				}
			}
			if g == 0 {
				g = 1
			}
			for k := int64(-2); k <= 2; k++ {
				if s.prove(u.addc(y, -k*g)) {
					if s.prove(u.add(rest, u.scale(u.s(r), k*g))) {
						return true
					}
					break
				}
			}
		}
	}
	return false
}

func (s *State) proveMul(l *Lin) bool {
	if s.prove(l) {
		return true
	}
	u := s.e.u
	if s.proveFactor(l) {
		return true
	}
	// collect product atoms reachable from l
	seen := map[Sym]bool{}
	var muls []Sym
	work := []Sym{}
	push := func(x Sym) {
		if !seen[x] {
			seen[x] = true
			work = append(work, x)
		}
	}
	for _, t := range l.ts {
		push(t.s)
	}
	idx := s.index()
	for len(work) > 0 && len(seen) < 200 {
		x := work[0]
		work = work[1:]
		if u.info(x).op == "mul" {
			muls = append(muls, x)
		}
		for _, f := range idx[x] {
			for _, t := range f.ts {
				push(t.s)
			}
		}
		for _, f := range u.axioms(x) {
			for _, t := range f.ts {
				push(t.s)
			}
		}
	}
	var extra []*Lin
	for _, m := range muls {
		for _, n := range muls {
			if m == n {
				continue
			}
			ma, na := u.info(m).args, u.info(n).args
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if ma[i] != na[j] || !s.prove(u.scale(ma[i], -1)) {
						continue
					}
					a, b, y := ma[1-i], na[1-j], ma[i]
					if s.prove(u.addc(u.sub(a, b), 1)) {
						extra = append(extra, u.add(u.sub(u.s(m), u.s(n)), y))
					} else if s.prove(u.sub(a, b)) {
						extra = append(extra, u.sub(u.s(m), u.s(n)))
					}
				}
			}
		}
		// 0 <= a means 0 <= a*y; 1 <= a means y <= a*y
		ma := u.info(m).args
		for i := 0; i < 2; i++ {
			if s.prove(u.addc(u.scale(ma[1-i], -1), 1)) && s.prove(u.scale(ma[i], -1)) {
				extra = append(extra, u.sub(ma[i], u.s(m)))
			}
		}
	}
	if len(extra) == 0 {
		return false
	}
	p := &prover{s: s, steps: 4000, seen: map[*Lin]int{}, extra: extra}
	return p.run(l, 8)
}

// ---- signs ---------------------------------------------------------------------------------------------------------

// signOf computes the possible signs of a float term (for finite inputs).
func (s *State) signOf(t *Term) uint8 { return s.signD(t, 0) }

// contradicts: the known signs of terms and of their parts cannot all hold.
func (s *State) contradicts() bool {
	for t := range s.sg {
		s.e.contra = false
		s.signOf(t)
		if s.e.contra {
			s.e.contra = false
			return true
		}
	}
	return false
}

func (s *State) signD(t *Term, d int) uint8 {
	r := sgAny
	if f, ok := s.sg[t]; ok {
		r = f
	}
	if d > 20 {
		return r
	}
	switch t.op {
	case "const":
		switch {
		case t.f > 0:
			r &= sgPos
		case t.f < 0:
			r &= sgNeg
		default:
			r &= sgZero
		}
	case "lin":
		u := s.e.u
		if s.prove(u.scale(t.lin, -1)) {
			r &= sgZero | sgPos
			if s.prove(u.addc(u.scale(t.lin, -1), 1)) {
				r &= sgPos
			}
		}
	case "neg":
		r &= flipSign(s.signD(t.args[0], d+1))
	case "add":
		r &= addSign(s.signD(t.args[0], d+1), s.signD(t.args[1], d+1))
	case "sub":
		if t.args[0] == t.args[1] {
			r &= sgZero
		} else {
			r &= addSign(s.signD(t.args[0], d+1), flipSign(s.signD(t.args[1], d+1)))
		}
	case "mul":
		if t.args[0] == t.args[1] {
			a := s.signD(t.args[0], d+1)
			q := sgZero | sgPos // squares may underflow to zero
			if a == sgZero {
				q = sgZero
			}
			r &= q
		} else {
			r &= mulSign(s.signD(t.args[0], d+1), s.signD(t.args[1], d+1))
		}
	case "quo":
		r &= mulSign(s.signD(t.args[0], d+1), s.signD(t.args[1], d+1))
	case "sqrt":
		r &= (sgZero | sgPos)
		if a := s.signD(t.args[0], d+1); a == sgPos {
			r &= sgPos
		}
	case "max":
		a, b := s.signD(t.args[0], d+1), s.signD(t.args[1], d+1)
		q := a | b
		if a&sgNeg == 0 || b&sgNeg == 0 {
			q &^= sgNeg
		}
		if a == sgPos || b == sgPos {
			q = sgPos
		}
		r &= q
	case "min":
		a, b := s.signD(t.args[0], d+1), s.signD(t.args[1], d+1)
		q := a | b
		if a&sgPos == 0 || b&sgPos == 0 {
			q &^= sgPos
		}
		if a == sgNeg || b == sgNeg {
			q = sgNeg
		}
		r &= q
	case "abs":
		r &= sgZero | sgPos
	case "conv32", "conv64":
		r &= s.signD(t.args[0], d+1)
		if t.op == "conv32" && r == sgPos {
			// rounding may underflow to zero
			if f, ok := s.sg[t]; (!ok || f != sgPos) && s.lowPos(t.args[0], d+1) < 1.5e-45 {
				r |= sgZero
			}
		}
	case "pow":
		if t.args[1].op == "const" && t.args[1].f == 2 {
			r &= sgZero | sgPos
		} else {
			r &= sgAny
		}
	case "dot":
		if t.args[0] == t.args[1] {
			r &= sgZero | sgPos
		}
	case "inf":
		r &= sgPos
	}
	if r == 0 {
		r = sgAny // contradictory path
		s.e.contra = true
	}
	return r
}

// lowPos: a lower bound of a term that is known to be positive; 0 if there is none.
func (s *State) lowPos(t *Term, d int) float64 {
	if d > 20 {
		return 0
	}
	switch t.op {
	case "const":
		return t.f
	case "conv64":
		if s.signD(t.args[0], d+1) == sgPos {
			return math.Max(1.4e-45, s.lowPos(t.args[0], d+1))
		}
	case "conv32":
		return s.lowPos(t.args[0], d+1) * 0.99
	case "sqrt":
		return math.Sqrt(math.Max(0, s.lowPos(t.args[0], d+1))) * 0.99
	case "add":
		a, b := s.signD(t.args[0], d+1), s.signD(t.args[1], d+1)
		var r float64
		if a&sgNeg == 0 {
			r = math.Max(r, s.lowPos(t.args[1], d+1))
		}
		if b&sgNeg == 0 {
			r = math.Max(r, s.lowPos(t.args[0], d+1))
		}
		return r * 0.99
	case "max":
		return math.Max(s.lowPos(t.args[0], d+1), s.lowPos(t.args[1], d+1))
	case "lin":
		if s.signD(t, d+1) == sgPos {
			return 1
		}
	}
	return 0
}

func flipSign(a uint8) uint8 {
	r := a & sgZero
	if a&sgNeg != 0 {
		r |= sgPos
	}
	if a&sgPos != 0 {
		r |= sgNeg
	}
	return r
}
func addSign(a, b uint8) uint8 {
	var r uint8
	each := []uint8{sgNeg, sgZero, sgPos}
	for _, x := range each {
		if a&x == 0 {
			continue
		}
		for _, y := range each {
			if b&y == 0 {
				continue
			}
			switch {
			case x == sgZero:
				r |= y
			case y == sgZero || x == y:
				r |= x
			default:
				r |= sgAny
			}
		}
	}
	return r
}
func mulSign(a, b uint8) uint8 {
	var r uint8
	each := []uint8{sgNeg, sgZero, sgPos}
	for _, x := range each {
		if a&x == 0 {
			continue
		}
		for _, y := range each {
			if b&y == 0 {
				continue
			}
			switch {
			case x == sgZero || y == sgZero:
				r |= sgZero
			case x == y:
				r |= sgPos | sgZero
			default:
				r |= sgNeg | sgZero
			}
		}
	}
	// products of non-zero numbers may underflow to zero
	return r
}

// ---- memory ----------------------------------------------------------------------------------------------------------

const liveMark = "#live"
const extMark = "#ext" // extent in elements (raw objects: bytes)
const verMark = "#ver" // version of the object's content

func (s *State) isLive(o *Obj) bool { _, ok := s.mem[Cell{o, liveMark}]; return ok }

// ver returns the content version of an object.
func (s *State) ver(o *Obj) *Lin {
	if v, ok := s.mem[Cell{o, verMark}]; ok {
		return v.(Int).l
	}
	return s.e.u.zero
}

func (s *State) ext(o *Obj) *Lin {
	if v, ok := s.mem[Cell{o, extMark}]; ok {
		return v.(Int).l
	}
	return nil
}

// ---- nilness -----------------------------------------------------------------------------------------------------

// nilOf: 1 nil, 2 not nil, 0 unknown
func (s *State) nilOf(a AV) int {
	chk := func(nk uint8, id Sym) int {
		switch nk {
		case nnNil:
			return 1
		case nnNon:
			return 2
		}
		if id != noSym {
			if b, ok := s.nilf[id]; ok {
				if b {
					return 1
				}
				return 2
			}
		}
		return 0
	}
	switch x := a.(type) {
	case Ptr:
		return chk(x.nk, x.id)
	case Iface:
		return chk(x.nk, x.id)
	case Slice:
		return chk(x.nk, noSym)
	case Fun:
		return chk(x.nk, noSym)
	}
	return 0
}

// ---- liveness of registers and garbage collection ------------------------------------------------------------------

// gc drops unreachable memory.
func (s *State) gc() {
	reach := map[*Obj]bool{}
	var work []*Obj
	mark := func(o *Obj) {
		if !reach[o] {
			reach[o] = true
			work = append(work, o)
		}
	}
	for _, v := range s.regs {
		avObjs(v, mark)
	}
	for _, d := range s.defers {
		avObjs(d.fn, mark)
		for _, a := range d.args {
			avObjs(a, mark)
		}
	}
	cells := map[*Obj][]Cell{}
	for c := range s.mem {
		cells[c.o] = append(cells[c.o], c)
		if c.o.kind == okGlobal || c.o.tag == "keep" || c.path == "#pin" {
			mark(c.o)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range cells[o] {
			avObjs(s.mem[c], mark)
		}
	}
	for o, cs := range cells {
		if !reach[o] {
			for _, c := range cs {
				delete(s.mem, c)
			}
		}
	}
	// resources nobody can reach any more
	for k, v := range s.tags {
		o := s.e.resource(k)
		if o == nil || reach[o] {
			continue
		}
		delete(s.tags, k)
		if v != "closed" && v != "unmapped" && !strings.HasSuffix(k, ":dirty") {
			s.tags["leak:"+k[:1]+o.desc+" of "+s.e.originOf(o)] = "1"
		}
	}
}

// resource: the object a tag of a file or mapping belongs to.
func (e *Engine) resource(tag string) *Obj {
	if len(tag) < 2 || tag[0] != 'F' && tag[0] != 'M' {
		return nil
	}
	n := 0
	for _, c := range tag[1:] {
		if c == ':' {
			break
		}
		if c < '0' || c > '9' {
			return nil
		}
		n = n*10 + int(c-'0')
	}
	if n >= len(e.objl) {
		return nil
	}
	return e.objl[n]
}

func (e *Engine) originOf(o *Obj) string {
	if o.at == nil {
		return "?"
	}
	return shortFn(o.at.ctx.fn)
}

// liveSyms returns the symbols mentioned by registers, memory and conditions.
func (s *State) liveSyms() map[Sym]bool {
	m := map[Sym]bool{}
	u := s.e.u
	f := func(x Sym) { m[x] = true }
	for _, v := range s.regs {
		u.avSyms(v, f)
	}
	for _, v := range s.mem {
		u.avSyms(v, f)
	}
	for _, d := range s.defers {
		u.avSyms(d.fn, f)
		for _, a := range d.args {
			u.avSyms(a, f)
		}
	}
	for _, l := range s.e.keepLins {
		u.linSyms(l, f)
	}
	return m
}

// ---- printing ------------------------------------------------------------------------------------------------------

func (s *State) String() string {
	var b strings.Builder
	u := s.e.u
	var rs []string
	for r, v := range s.regs {
		rs = append(rs, fmt.Sprintf("    %d:%s = %s", r.c.id, r.v.Name(), u.avStr(v)))
	}
	sort.Strings(rs)
	b.WriteString("  regs:\n" + strings.Join(rs, "\n"))
	var ms []string
	for c, v := range s.mem {
		ms = append(ms, fmt.Sprintf("    %s%s = %s", c.o, c.path, u.avStr(v)))
	}
	sort.Strings(ms)
	b.WriteString("\n  mem:\n" + strings.Join(ms, "\n"))
	var fs []string
	for _, f := range s.facts {
		fs = append(fs, "    "+u.linStr(f)+" <= 0")
	}
	for _, f := range s.nes {
		fs = append(fs, "    "+u.linStr(f)+" != 0")
	}
	for t, g := range s.sg {
		fs = append(fs, fmt.Sprintf("    sign %s = %d", u.termStr(t), g))
	}
	for y, g := range s.nilf {
		fs = append(fs, fmt.Sprintf("    nil %d = %v", y, g))
	}
	sort.Strings(fs)
	b.WriteString("\n  facts:\n" + strings.Join(fs, "\n"))
	var ts []string
	for k, v := range s.tags {
		ts = append(ts, k+"="+v)
	}
	sort.Strings(ts)
	b.WriteString("\n  tags: " + strings.Join(ts, " ") + "\n")
	return b.String()
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}
func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}
