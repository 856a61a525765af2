package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------------------------------------------------
// Per function facts: liveness, loops, block order.

type fnInfo struct {
	fn    *ssa.Function
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	liven map[*ssa.BasicBlock]map[ssa.Value]bool       // live at block start (after the phis of the block were assigned)
	livex map[*ssa.BasicBlock]map[ssa.Value]bool       // live at block end (before the phis of successors read)
	track map[ssa.Value]bool                           // small integers that are part of the disjunct key
	mid   map[ssa.Instruction]map[ssa.Value]bool
}

func isTrackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func operands(in ssa.Instruction) []ssa.Value {
	var buf [12]*ssa.Value
	var out []ssa.Value
	for _, o := range in.Operands(buf[:0]) {
		if *o != nil && isTrackable(*o) {
			out = append(out, *o)
		}
	}
	return out
}

func (e *Engine) info(f *ssa.Function) *fnInfo {
	if fi, ok := e.fns[f]; ok {
		return fi
	}
	fi := &fnInfo{fn: f, rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, track: map[ssa.Value]bool{}, mid: map[ssa.Instruction]map[ssa.Value]bool{}}
	e.fns[f] = fi
	// natural loops
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if body[n] {
						continue
					}
					body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	depth := func(b *ssa.BasicBlock) int {
		d := 0
		for _, body := range fi.loops {
			if body[b] {
				d++
			}
		}
		return d
	}
	// reverse postorder, exits of loops after their bodies
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		ss := append([]*ssa.BasicBlock{}, b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth(ss[i]) < depth(ss[j]) })
		for _, s := range ss {
			dfs(s)
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	if f.Recover != nil {
		dfs(f.Recover)
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	// liveness
	fi.liven = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	fi.livex = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		fi.liven[b], fi.livex[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			out := fi.livex[b]
			for _, s := range b.Succs {
				k := -1
				for i, p := range s.Preds {
					if p == b {
						k = i
					}
				}
				for v := range fi.liven[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					if !out[v] {
						out[v] = true
						ch = true
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if v := ph.Edges[k]; isTrackable(v) && !out[v] {
						out[v] = true
						ch = true
					}
				}
			}
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue // live at block start
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, o := range operands(in) {
					live[o] = true
				}
			}
			for v := range live {
				if !fi.liven[b][v] {
					fi.liven[b][v] = true
					ch = true
				}
			}
		}
	}
	// small counters: loop phis compared with a constant of at most 2, and phis that only choose between constants
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInteger(ph.Type()) {
				continue
			}
			all := true
			for _, ed := range ph.Edges {
				if _, ok := ed.(*ssa.Const); !ok {
					all = false
				}
			}
			if all {
				fi.track[ph] = true
				continue
			}
			if _, isHead := fi.loops[b]; isHead && ph.Referrers() != nil {
				for _, r := range *ph.Referrers() {
					bo, ok := r.(*ssa.BinOp)
					if !ok {
						continue
					}
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
							if n, ok := constant.Int64Val(c.Value); ok && n >= 1 && n <= 2 && (bo.Op == token.LSS || bo.Op == token.LEQ && n <= 1 || bo.Op == token.NEQ || bo.Op == token.EQL) {
								if hasStepEdge(ph) {
									fi.track[ph] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return fi
}

// hasStepEdge: the phi is a counter that starts at a constant and is incremented by a constant.
func hasStepEdge(ph *ssa.Phi) bool {
	c, s := false, false
	for _, ed := range ph.Edges {
		switch v := ed.(type) {
		case *ssa.Const:
			c = true
		case *ssa.BinOp:
			if (v.Op == token.ADD || v.Op == token.SUB) && v.X == ph {
				if _, ok := v.Y.(*ssa.Const); ok {
					s = true
				}
			}
		}
	}
	return c && s
}

// liveAfter returns the values live after instruction i of block b.
func (fi *fnInfo) liveAfter(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	in := b.Instrs[i]
	if m, ok := fi.mid[in]; ok {
		return m
	}
	live := map[ssa.Value]bool{}
	for v := range fi.livex[b] {
		live[v] = true
	}
	for k := len(b.Instrs) - 1; k > i; k-- {
		if v, ok := b.Instrs[k].(ssa.Value); ok {
			delete(live, v)
		}
		for _, o := range operands(b.Instrs[k]) {
			live[o] = true
		}
	}
	fi.mid[in] = live
	return live
}

// ---------------------------------------------------------------------------------------------------------------------
// Engine.

type ptKey struct {
	ctx *Ctx
	b   *ssa.BasicBlock
	i   int
	sub string
}

type disjunct struct {
	key     string
	contrib map[string]*State
	st      *State
	visits  int
	queued  bool
	srcs    map[string]bool // (point,key) pairs this disjunct contributed to in its last run: "tgt|key|src"
}

type target struct {
	pt  *Point
	key string
	src string
}

type ptStates struct {
	pt     *Point
	djs    map[string]*disjunct
	coarse bool
}

type Engine struct {
	contra         bool
	templ, templLe []*inv // relations kept over joins
	u              *Univ
	p              *Prog
	fns            map[*ssa.Function]*fnInfo
	ctxs           []*Ctx
	pts            map[ptKey]*Point
	ptl            []*Point
	objs           map[string]*Obj
	objl           []*Obj
	sts            map[*Point]*ptStates
	outs           map[string][]target // last outputs per source disjunct
	wl             wlHeap
	wlIn           map[string]bool
	steps          int

	slotType map[string]types.Type
	keepLins []*Lin
	tagJoin  func(k, a, b string) string
	nProve   int
	phiOf    map[Sym][]*Term

	final  bool
	obs    []func(*Ev)
	issues map[string]string // analysis gaps: construct -> what

	cfg       Config
	inter     *Interf
	recEntry  map[*Point]bool
	recNow    map[*Ctx]map[Cell]bool
	recUsers  map[*Ctx]map[string]bool
	hiNow     map[*Obj]*hiInfo
	recDec    map[Cell]bool
	wNow      map[Cell]*wcell
	mayRec    map[*ssa.Function]bool
	published map[*Obj]bool
	invBad    map[string]string
	invDead   map[string]string
	strTerms  map[string]*Term
	noBound   *Lin
	lockDesc  map[string]string
	sawGo     bool
	marks     map[string]int

	maxDisj      int
	started      time.Time
	limit        time.Duration
	debug        bool
	nFinalStates int
	nInstr       int
	nJoins       int
	funcs        map[*ssa.Function]bool
	harness      map[string]bool
}

// Config selects what a run tracks.
type Config struct {
	Combo     Combo
	PanicBack bool // panics return to the harness (mark "panicked")
	FailIO    bool // tag failed I/O operations
	FloatRel  bool // remember the order of floats that were compared
	CopyTrack bool // new byte arrays carry how much of the previous block was copied into them (#cn)
	SortPair  bool // comparisons of two-element lists are called with 0 and 1
	MaxDisj   int
	Dot       bool      // products of vectors are terms of their own; float terms are brought to a normal form
	Loaded    bool      // the ghosts see values after they were loaded
	FltPaths  bool      // branches on floats keep states apart
	Ghost     func(*Ev) // maintains ghost cells and tags (called in every pass)
}

// Ev is one event delivered to observers in the final pass.
type Ev struct {
	kind string
	x    *X
	in   ssa.Instruction
	tg   Tgt
	ptr  Ptr
	typ  types.Type
	val  AV
	args []AV
	fn   *ssa.Function
	name string
	ln   *Lin
	sl   Slice
	sl2  Slice
	weak bool
	ok   bool
	obj  *Obj
}

// X is the execution of one instruction in one state.
type X struct {
	e    *Engine
	ctx  *Ctx
	b    *ssa.BasicBlock
	i    int
	s    *State
	src  string
	n    int
	cont string // continuation of a deferred call
}

type wlItem struct {
	pt  *Point
	key string
}
type wlHeap struct {
	items []wlItem
}

func (h *wlHeap) Len() int { return len(h.items) }
func (h *wlHeap) Less(i, j int) bool {
	c := cmpPrio(h.items[i].pt.prio, h.items[j].pt.prio)
	if c != 0 {
		return c < 0
	}
	return h.items[i].key < h.items[j].key
}
func (h *wlHeap) Swap(i, j int) { h.items[i], h.items[j] = h.items[j], h.items[i] }
func (h *wlHeap) Push(x any)    { h.items = append(h.items, x.(wlItem)) }
func (h *wlHeap) Pop() any {
	n := len(h.items)
	x := h.items[n-1]
	h.items = h.items[:n-1]
	return x
}

func cmpPrio(a, b []int32) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

func newEngine(p *Prog, u *Univ, cfg Config) *Engine {
	e := &Engine{p: p, u: u, cfg: cfg}
	u.comm = cfg.Dot
	e.strTerms = map[string]*Term{}
	e.noBound = &Lin{}
	e.fns = map[*ssa.Function]*fnInfo{}
	e.reset()
	e.maxDisj = cfg.MaxDisj
	if e.maxDisj == 0 {
		e.maxDisj = 48
	}
	e.limit = 600 * time.Second
	e.issues = map[string]string{}
	return e
}

// reset forgets all states but keeps the interned universe, contexts and objects.
func (e *Engine) reset() {
	e.sts = map[*Point]*ptStates{}
	e.outs = map[string][]target{}
	e.wlIn = map[string]bool{}
	e.wl = wlHeap{}
	if e.pts == nil {
		e.pts = map[ptKey]*Point{}
		e.objs = map[string]*Obj{}
		e.slotType = map[string]types.Type{}
		e.phiOf = map[Sym][]*Term{}
		e.funcs = map[*ssa.Function]bool{}
	}
	if e.inter == nil {
		e.inter = newInterf()
		e.published = map[*Obj]bool{}
		e.invDead = map[string]string{}
		e.lockDesc = map[string]string{}
		e.recNow = map[*Ctx]map[Cell]bool{}
		e.mayRec = map[*ssa.Function]bool{}
		e.recEntry = map[*Point]bool{}
	}
	e.recUsers = map[*Ctx]map[string]bool{}
	e.hiNow = map[*Obj]*hiInfo{}
	e.recDec = map[Cell]bool{}
	e.wNow = map[Cell]*wcell{}
	e.invBad = map[string]string{}
	e.marks = map[string]int{}
	e.steps = 0
	e.final = false
}

func (e *Engine) noteSlotType(slot string, t types.Type) { e.slotType[slot] = t }
func (e *Engine) notePhi(s Sym, t *Term) {
	for _, o := range e.phiOf[s] {
		if o == t {
			return
		}
	}
	if len(e.phiOf[s]) < 16 {
		e.phiOf[s] = append(e.phiOf[s], t)
	}
}

func (e *Engine) issue(construct, what string) {
	if _, ok := e.issues[construct]; !ok {
		e.issues[construct] = what
		if e.debug {
			fmt.Fprintln(os.Stderr, "ISSUE", construct, what)
		}
	}
}

func (e *Engine) newCtx(fn *ssa.Function, parent *Ctx, site ssa.Instruction, kind string) *Ctx {
	if parent != nil {
		if k, ok := parent.kids[ctxKey{site, fn, kind}]; ok {
			return k
		}
	}
	c := &Ctx{id: len(e.ctxs), fn: fn, parent: parent, site: site, kind: kind, kids: map[ctxKey]*Ctx{}}
	e.ctxs = append(e.ctxs, c)
	e.funcs[fn] = true
	if parent != nil {
		c.depth = parent.depth + 1
		parent.kids[ctxKey{site, fn, kind}] = c
		c.prio = append(append([]int32{}, parent.prio...), e.posPrio(parent, site.Block(), instrIndex(site))...)
		c.prio = append(c.prio, int32(0))
	}
	return c
}

func (e *Engine) posPrio(c *Ctx, b *ssa.BasicBlock, i int) []int32 {
	return []int32{int32(e.info(c.fn).rpo[b]), int32(i)}
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (e *Engine) point(c *Ctx, b *ssa.BasicBlock, i int, sub string) *Point {
	k := ptKey{c, b, i, sub}
	if p, ok := e.pts[k]; ok {
		return p
	}
	p := &Point{id: len(e.ptl), ctx: c, b: b, i: i, sub: sub}
	e.ptl = append(e.ptl, p)
	e.pts[k] = p
	p.prio = append(append([]int32{}, c.prio...), e.posPrio(c, b, i)...)
	if i == 0 && sub == "" {
		_, p.head = e.info(c.fn).loops[b]
	}
	return p
}

func (e *Engine) obj(key string, mk func() *Obj) *Obj {
	if o, ok := e.objs[key]; ok {
		return o
	}
	o := mk()
	o.id = len(e.objl)
	o.key = key
	e.objl = append(e.objl, o)
	e.objs[key] = o
	return o
}

// inLoop reports whether a definition at point at belongs to the loop (or recursive function) headed by h.
func (e *Engine) inLoop(at, h *Point) bool {
	if at == nil {
		return false
	}
	c, b := at.ctx, at.b
	for c != nil && c != h.ctx {
		if c.depth <= h.ctx.depth {
			return false
		}
		b = c.site.Block()
		c = c.parent
	}
	if c == nil {
		return false
	}
	if e.recEntry[h] {
		return true
	}
	body, ok := e.info(h.ctx.fn).loops[h.b]
	return ok && body[b]
}

func (c *Ctx) within(a *Ctx) bool {
	for c != nil {
		if c == a {
			return true
		}
		c = c.parent
	}
	return false
}

// ---------------------------------------------------------------------------------------------------------------------
// Disjunct keys.

func (e *Engine) keyOf(pt *Point, s *State, coarse bool) string {
	var parts []string
	for k, v := range s.tags {
		parts = append(parts, k+"="+v)
	}
	for _, d := range s.defers {
		parts = append(parts, fmt.Sprintf("zd%d.%d", d.ctx.id, instrIndex(d.in)))
	}
	if len(s.defers) > 0 {
		// order matters
		var q []string
		for _, d := range s.defers {
			q = append(q, fmt.Sprintf("%d.%d", d.ctx.id, instrIndex(d.in)))
		}
		parts = append(parts, "df:"+strings.Join(q, ","))
	}
	if e.cfg.FltPaths {
		for t, g := range s.sg {
			if g != sgAny {
				parts = append(parts, fmt.Sprintf("sg%d=%d", t.id, g))
			}
		}
	}
	if !coarse {
		for c, v := range s.mem {
			if c.o.summary || strings.HasPrefix(c.path, "#") || c.o.raw || strings.HasPrefix(c.path, "@") {
				continue
			}
			switch x := v.(type) {
			case Bool:
				if x.k != 0 {
					parts = append(parts, fmt.Sprintf("m%d%s=%d", c.o.id, c.path, x.k))
				}
			case Ptr, Iface:
				if strings.HasPrefix(c.path, ".") {
					if n := s.nilOf(v); n != 0 {
						parts = append(parts, fmt.Sprintf("m%d%s=n%d", c.o.id, c.path, n))
					}
				}
			}
		}
		for r, v := range s.regs {
			switch x := v.(type) {
			case Ptr:
				// which storage an address belongs to
				if isUnsafePtr(r.v.Type()) && !x.unk && len(x.tg) > 0 {
					raw := true
					q := fmt.Sprintf("r%d.%s=", r.c.id, r.v.Name())
					ids := []string{}
					for _, t := range x.tg {
						raw = raw && t.o.raw
						ids = append(ids, fmt.Sprint(t.o.id))
					}
					if raw {
						sort.Strings(ids)
						parts = append(parts, q+strings.Join(ids, ","))
					}
				}
			case Bool:
				if x.k != 0 {
					parts = append(parts, fmt.Sprintf("r%d.%s=%d", r.c.id, r.v.Name(), x.k))
				}
			case Agg:
				for i, f := range x.fs {
					if g, ok := f.(Iface); ok && g.id != noSym {
						if k, _ := e.u.info(g.id).meta.(string); k != "" {
							parts = append(parts, fmt.Sprintf("r%d.%s.%d=e%s", r.c.id, r.v.Name(), i, k))
						} else if g.nk == nnNil {
							parts = append(parts, fmt.Sprintf("r%d.%s.%d=en", r.c.id, r.v.Name(), i))
						}
					} else if ok && g.nk == nnNil {
						parts = append(parts, fmt.Sprintf("r%d.%s.%d=en", r.c.id, r.v.Name(), i))
					}
				}
			case Iface:
				if isErrorType(r.v.Type()) {
					if x.id != noSym {
						if k, _ := e.u.info(x.id).meta.(string); k != "" {
							parts = append(parts, fmt.Sprintf("r%d.%s=e%s", r.c.id, r.v.Name(), k))
						}
					}
					if n := s.nilOf(v); n != 0 {
						parts = append(parts, fmt.Sprintf("r%d.%s=n%d", r.c.id, r.v.Name(), n))
					}
				}
			case Int:
				if e.info(r.c.fn).track[r.v] {
					if k, ok := x.l.isConst(); ok && k >= 0 && k <= 3 {
						parts = append(parts, fmt.Sprintf("r%d.%s=%d", r.c.id, r.v.Name(), k))
					}
				}
			}
		}
	}
	sort.Strings(parts)
	return strings.Join(parts, "\x00")
}

// ---------------------------------------------------------------------------------------------------------------------
// Propagation.

// flow sends a state to a point. src identifies the edge within the producing disjunct.
func (e *Engine) flow(src string, edge string, pt *Point, s *State, back bool) {
	if s.dead {
		return
	}
	if e.final {
		return
	}
	e.cleanRegs(pt, s)
	if back {
		e.backEdge(s, pt)
	}
	s.gc()
	e.pruneFacts(s)
	if s.dead {
		return
	}
	ps := e.sts[pt]
	if ps == nil {
		ps = &ptStates{pt: pt, djs: map[string]*disjunct{}}
		e.sts[pt] = ps
	}
	key := e.keyOf(pt, s, ps.coarse)
	if _, ok := ps.djs[key]; !ok && len(ps.djs) >= e.maxDisj && !ps.coarse {
		// too many disjuncts: fold them
		if e.debug {
			fmt.Fprintf(os.Stderr, "FOLD at %s b%d i%d %s: %d disjuncts; example keys:\n", pt.ctx, pt.b.Index, pt.i, pt.sub, len(ps.djs))
			n := 0
			for k := range ps.djs {
				fmt.Fprintf(os.Stderr, "    %s\n", strings.ReplaceAll(k, "\x00", " "))
				if n++; n > 6 {
					break
				}
			}
		}
		ps.coarse = true
		old := ps.djs
		ps.djs = map[string]*disjunct{}
		keys := make([]string, 0, len(old))
		for k := range old {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			d := old[k]
			if d.st == nil {
				continue
			}
			nk := e.keyOf(pt, d.st, true)
			e.add(ps, nk, "fold:"+k, d.st)
		}
		key = e.keyOf(pt, s, true)
	}
	id := src + "|" + edge
	e.outs[src] = append(e.outs[src], target{pt, key, id})
	e.add(ps, key, id, s)
}

func (e *Engine) isHead(pt *Point) bool { return pt.head }

func (e *Engine) add(ps *ptStates, key, id string, s *State) {
	pt := ps.pt
	d := ps.djs[key]
	if d == nil {
		d = &disjunct{key: key, contrib: map[string]*State{}}
		ps.djs[key] = d
	}
	if e.isHead(pt) {
		if d.st == nil {
			d.st = e.normHead(pt, s)
			e.enqueue(pt, key)
			return
		}
		if sameState(d.contrib[id], s) {
			return
		}
		d.contrib[id] = s
		d.visits++
		widen := d.visits > 4
		n := e.joinStates(pt, d.st, s, true, widen)
		e.nJoins++
		e.finishJoin(n)
		if d.visits > 40 && e.debug {
			fmt.Fprintf(os.Stderr, "SLOW head %s b%d key %q visits %d\n", pt.ctx, pt.b.Index, key, d.visits)
		}
		if d.visits > 150 {
			// give up on facts to force convergence
			n.facts, n.nes, n.sg = nil, nil, map[*Term]uint8{}
			n.idx, n.cache = nil, nil
			e.issue(fmt.Sprintf("loop in %s", shortFn(pt.ctx.fn)), "the analysis of this loop did not stabilise; facts dropped")
		}
		if !sameState(d.st, n) {
			d.st = n
			e.enqueue(pt, key)
		}
		return
	}
	if o, ok := d.contrib[id]; ok && sameState(o, s) {
		return
	}
	d.contrib[id] = s
	e.rejoin(pt, d)
}

func (e *Engine) rejoin(pt *Point, d *disjunct) {
	ids := make([]string, 0, len(d.contrib))
	for k := range d.contrib {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	var n *State
	for _, k := range ids {
		if n == nil {
			n = d.contrib[k]
			continue
		}
		n = e.joinStates(pt, n, d.contrib[k], false, false)
		e.nJoins++
		e.finishJoin(n)
	}
	if n == nil {
		d.st = nil
		return
	}
	if d.st == nil || !sameState(d.st, n) {
		d.st = n
		e.enqueue(pt, d.key)
	}
}

func (e *Engine) finishJoin(s *State) {
	s.gc()
	e.pruneFacts(s)
}

// normHead makes the first state of a loop head free of symbols that the loop redefines (it may come over a back edge,
// when no state with these tags comes from outside the loop).
func (e *Engine) normHead(pt *Point, s *State) *State {
	j := &joiner{e: e, u: e.u, h: pt, head: true}
	bad := false
	s.allSyms(func(x Sym) { bad = bad || x != noSym && j.dyingSym(x) })
	if !bad {
		return s
	}
	n := e.joinStates(pt, s, s, true, false)
	e.nJoins++
	e.finishJoin(n)
	return n
}

func (e *Engine) enqueue(pt *Point, key string) {
	k := fmt.Sprintf("%d|%s", pt.id, key)
	if e.wlIn[k] {
		return
	}
	e.wlIn[k] = true
	heap.Push(&e.wl, wlItem{pt, key})
}

// cleanRegs drops registers that are not live at the point, and registers of activations that ended.
func (e *Engine) cleanRegs(pt *Point, s *State) {
	live := map[*Ctx]map[ssa.Value]bool{}
	for r := range s.regs {
		m, ok := live[r.c]
		if !ok {
			m = e.liveAt(r.c, pt)
			live[r.c] = m
		}
		if !m[r.v] {
			delete(s.regs, r)
		}
	}
}

// liveAt: the values of activation c that are live at point pt (pt lies in c or in an activation below c).
func (e *Engine) liveAt(c *Ctx, pt *Point) map[ssa.Value]bool {
	fi := e.info(c.fn)
	if pt.ctx == c {
		if pt.i == 0 {
			return fi.liven[pt.b]
		}
		return fi.liveAfter(pt.b, pt.i-1)
	}
	q := pt.ctx
	for q != nil && q.parent != c {
		q = q.parent
	}
	if q == nil {
		return nil
	}
	if q.kind == "go" {
		return nil
	}
	if q.kind == "defer" {
		// resumes at the same RunDefers instruction
		i := instrIndex(q.site)
		m := fi.liveAfter(q.site.Block(), i)
		return m
	}
	return fi.liveAfter(q.site.Block(), instrIndex(q.site))
}

// backEdge renames the symbols that the loop head redefines and ages objects of the iteration.
func (e *Engine) backEdge(s *State, h *Point) {
	u := e.u
	sb := &subst{u: u, m: map[Sym]*Lin{}, n: map[Sym]Sym{}}
	note := func(x Sym) {
		if x == noSym {
			return
		}
		in := u.info(x)
		if in.kind == skPhi && in.at == h && !strings.HasPrefix(in.key, "ghost:") {
			if _, ok := sb.n[x]; ok {
				return
			}
			g := u.sym(skPhi, "ghost:"+in.key, h)
			gi := u.info(g)
			gi.hasLo, gi.lo, gi.hasHi, gi.hi, gi.desc = in.hasLo, in.lo, in.hasHi, in.hi, in.desc+"'"
			sb.m[x], sb.n[x] = u.s(g), g
		}
	}
	s.allSyms(note)
	if len(sb.m) > 0 {
		sb.apply(s)
	}
	e.age(s, h, func(o *Obj) bool { return e.inLoop(o.at, h) })
}

func (s *State) allSyms(f func(Sym)) {
	u := s.e.u
	for _, v := range s.regs {
		u.avSyms(v, f)
	}
	for _, v := range s.mem {
		u.avSyms(v, f)
	}
	for _, d := range s.defers {
		u.avSyms(d.fn, f)
		for _, a := range d.args {
			u.avSyms(a, f)
		}
	}
	for _, l := range s.facts {
		u.linSyms(l, f)
	}
	for _, l := range s.nes {
		u.linSyms(l, f)
	}
	for k := range s.nilf {
		f(k)
	}
	for t := range s.sg {
		u.termSyms(t, f)
	}
}

// age turns the chosen objects into their summary "old" version.
func (e *Engine) age(s *State, h *Point, sel func(*Obj) bool) {
	m := map[*Obj]*Obj{}
	for c := range s.mem {
		o := c.o
		if o.summary || o.kind == okGlobal || o.at == nil || m[o] != nil {
			continue
		}
		if sel(o) {
			m[o] = e.oldOf(o)
		}
	}
	see := func(o *Obj) {
		if o.summary || o.kind == okGlobal || o.at == nil || m[o] != nil {
			return
		}
		if sel(o) {
			m[o] = e.oldOf(o)
		}
	}
	for _, v := range s.regs {
		avObjs(v, see)
	}
	for _, v := range s.mem {
		avObjs(v, see)
	}
	for _, d := range s.defers {
		avObjs(d.fn, see)
		for _, a := range d.args {
			avObjs(a, see)
		}
	}
	if len(m) == 0 {
		return
	}
	// relations between cells and the extent of what a pointer points to
	rels := map[*inv]*Lin{}
	for _, iv := range e.templ {
		p, ok := s.mem[iv.b].(Ptr)
		if !ok || p.unk {
			continue
		}
		hit := false
		for _, t := range p.tg {
			hit = hit || m[t.o] != nil
		}
		if !hit {
			continue
		}
		if l := e.invLin(s, iv); len(l) == 1 && s.prove(l[0]) {
			rels[iv] = l[0]
		}
	}
	defer func() {
		for _, iv := range e.templ {
			if rels[iv] == nil {
				continue
			}
			if l := e.invLin(s, iv); len(l) == 1 && l[0] != rels[iv] && !s.prove(l[0]) {
				s.addFact(l[0])
			}
		}
	}()
	for k, v := range s.tags {
		o := e.resource(k)
		if o == nil || m[o] == nil {
			continue
		}
		n := m[o]
		nk := k[:1] + fmt.Sprint(n.id)
		if strings.HasSuffix(k, ":dirty") {
			nk += ":dirty"
		}
		delete(s.tags, k)
		if w, ok := s.tags[nk]; ok && w != v && s.isLive(n) {
			v = "mixed"
		}
		s.tags[nk] = v
	}
	f := func(o *Obj) *Obj {
		if n, ok := m[o]; ok {
			return n
		}
		return o
	}
	for k, v := range s.regs {
		s.regs[k] = avMapObj(v, f)
	}
	for k, v := range s.mem {
		s.mem[k] = avMapObj(v, f)
	}
	if len(s.defers) > 0 {
		nd := append([]deferRec{}, s.defers...)
		for i := range nd {
			nd[i].fn = avMapObj(nd[i].fn, f)
			na := make([]AV, len(nd[i].args))
			for k, a := range nd[i].args {
				na[k] = avMapObj(a, f)
			}
			nd[i].args = na
		}
		s.defers = nd
	}
	var moved []Cell
	for c := range s.mem {
		if _, ok := m[c.o]; ok {
			moved = append(moved, c)
		}
	}
	sort.Slice(moved, func(i, j int) bool {
		if moved[i].o.id != moved[j].o.id {
			return moved[i].o.id < moved[j].o.id
		}
		return moved[i].path < moved[j].path
	})
	// ghost cells that are absent mean "unknown"
	for c := range s.mem {
		if strings.HasPrefix(c.path, "#") && c.path != liveMark && c.path != verMark && c.path != extMark && c.o.young != nil {
			if _, ok := m[c.o.young]; ok {
				if _, ok := s.mem[Cell{c.o.young, c.path}]; !ok && s.isLive(c.o.young) {
					delete(s.mem, c)
				}
			}
		}
	}
	hadOld := map[*Obj]bool{}
	for _, c := range moved {
		n := m[c.o]
		if _, ok := hadOld[n]; !ok {
			hadOld[n] = s.isLive(n)
		}
	}
	for _, c := range moved {
		n := m[c.o]
		v := s.mem[c]
		delete(s.mem, c)
		nc := Cell{n, c.path}
		if strings.HasPrefix(c.path, "@") {
			continue // raw cells of summaries are not tracked
		}
		if w, ok := s.mem[nc]; ok {
			if c.path == liveMark {
				continue
			}
			if !avEq(v, w) {
				s.mem[nc] = e.mergeAV(s, h, e.slotOfCell(nc)+"~", w, v)
			}
		} else if hadOld[n] {
			w := e.defaultCell(s, nc)
			if w == nil {
				continue
			}
			s.mem[nc] = e.mergeAV(s, h, e.slotOfCell(nc)+"~", w, v)
		} else {
			s.mem[nc] = v
		}
	}
}

func (e *Engine) oldOf(o *Obj) *Obj {
	if o.old != nil {
		return o.old
	}
	n := e.obj(o.key+"~", func() *Obj {
		c := *o
		c.summary = true
		c.young = o
		c.desc = o.desc + "~"
		return &c
	})
	o.old = n
	return n
}

// mergeAV joins two values of the same state; conflicting scalars become unknown.
func (e *Engine) mergeAV(s *State, at *Point, slot string, a, b AV) AV {
	j := &joiner{e: e, u: e.u, h: at, a: s, b: s, iseen: map[Sym]bool{}, ipair: map[[2]*Lin]Sym{}, fpair: map[[2]*Term]*Term{}, dpair: map[[2]Sym]Sym{}}
	v := j.av(slot, a, b)
	// keep common bounds
	for _, p := range j.ints {
		if p.la == nil || p.lb == nil {
			continue
		}
		if s.prove(e.u.scale(p.la, -1)) && s.prove(e.u.scale(p.lb, -1)) {
			s.addFact(e.u.scale(e.u.s(p.phi), -1))
		}
		for _, m := range s.upperBounds(p.la, 2) {
			if s.proveLe(p.lb, m) {
				s.addFact(e.u.sub(e.u.s(p.phi), m))
			}
		}
	}
	for _, p := range j.ints {
		if j.offs[p.phi] && p.la != nil && p.lb != nil {
			for _, m := range e.recordBounds(s) {
				if s.proveMul(e.u.sub(p.la, m)) && s.proveMul(e.u.sub(p.lb, m)) {
					s.addFact(e.u.normFact(e.u.sub(e.u.s(p.phi), m)))
				}
			}
		}
	}
	return v
}

// upperBounds: forms that facts of the state put above l.
func (s *State) upperBounds(l *Lin, depth int) []*Lin {
	u := s.e.u
	seen := map[*Lin]bool{l: true}
	var out []*Lin
	var try func(l *Lin, depth int)
	try = func(l *Lin, depth int) {
		if depth == 0 {
			return
		}
		for _, t := range l.ts {
			if t.k != 1 {
				continue
			}
			for _, f := range append([]*Lin{}, s.index()[t.s]...) {
				if f.coef(t.s) == 1 && len(seen) < 40 {
					if m := u.sub(l, f); !seen[m] {
						seen[m] = true
						out = append(out, m)
						try(m, depth-1)
					}
				}
			}
		}
	}
	try(l, depth)
	return out
}

// recordBounds: the last place a record of one of the counted kinds can be: (c-1)*k for the cells c and k of an object
// whose storage holds records of size k.
func (e *Engine) recordBounds(s *State) []*Lin {
	u := e.u
	var out []*Lin
	seen := map[Cell]bool{}
	for _, iv := range e.templ {
		if iv.k.o == nil {
			continue
		}
		k, ok := s.mem[iv.k].(Int)
		if !ok {
			continue
		}
		for _, l := range leaves(iv.a.o.typ) {
			c := Cell{iv.a.o, l.path}
			if !isInteger(l.typ) || seen[c] || c == iv.k {
				continue
			}
			seen[c] = true
			if e.wNow[c] != nil || e.inter.w[c] != nil {
				continue
			}
			if v, ok := s.mem[c].(Int); ok {
				if _, isC := v.l.isConst(); !isC && !v.l.isBig() && !k.l.isBig() {
					if m := u.sub(u.mul(v.l, k.l), k.l); !m.isBig() {
						out = append(out, m)
					}
				}
			}
		}
	}
	return out
}

// pruneFacts removes facts about symbols that no value of the state mentions, after combining facts through them.
func (e *Engine) pruneFacts(s *State) {
	live := s.liveSyms()
	u := e.u
	// ops are alive when their free symbols are
	isLive := func(x Sym) bool {
		if live[x] {
			return true
		}
		in := u.info(x)
		if in.op == "" {
			return false
		}
		any := false
		for _, d := range in.deps {
			if u.info(d).op == "" {
				any = true
				if !live[d] {
					return false
				}
			}
		}
		for _, o := range in.objs {
			if !s.isLive(o) {
				return false
			}
		}
		return any
	}
	dead := map[Sym]int{}
	for _, f := range s.facts {
		for _, t := range f.ts {
			if !isLive(t.s) {
				dead[t.s]++
			}
		}
	}
	if len(dead) > 0 {
		ds := make([]Sym, 0, len(dead))
		for d := range dead {
			ds = append(ds, d)
		}
		sort.Slice(ds, func(i, j int) bool {
			if dead[ds[i]] != dead[ds[j]] {
				return dead[ds[i]] < dead[ds[j]]
			}
			return ds[i] < ds[j]
		})
		facts := append([]*Lin{}, s.facts...)
		for _, d := range ds {
			var pos, neg, rest []*Lin
			for _, f := range facts {
				switch k := f.coef(d); {
				case k > 0:
					pos = append(pos, f)
				case k < 0:
					neg = append(neg, f)
				default:
					rest = append(rest, f)
				}
			}
			for _, a := range u.axioms(d) {
				if len(a.ts) > 2 {
					continue
				}
				if k := a.coef(d); k > 0 {
					pos = append(pos, a)
				} else if k < 0 {
					neg = append(neg, a)
				}
			}
			if len(pos)*len(neg) <= 60 {
				for _, p := range pos {
					for _, n := range neg {
						a, b := p.coef(d), -n.coef(d)
						g := gcd(a, b)
						c := u.normFact(u.comb(b/g, p, a/g, n))
						if len(c.ts) == 0 {
							if c.c > 0 {
								s.dead = true
							}
							continue
						}
						if len(c.ts) > 6 {
							continue
						}
						rest = append(rest, c)
					}
				}
			}
			facts = rest
		}
		s.facts = nil
		s.idx, s.cache = nil, nil
		seen := map[*Lin]bool{}
		// drop facts dominated by a fact with the same terms
		best := map[string]*Lin{}
		for _, f := range facts {
			k := linKey(0, f.ts)
			if o, ok := best[k]; !ok || f.c > o.c {
				best[k] = f
			}
		}
		for _, f := range facts {
			if best[linKey(0, f.ts)] != f || seen[f] {
				continue
			}
			seen[f] = true
			s.facts, _ = insLin(s.facts, f)
		}
	} else if len(s.facts) > 1 {
		best := map[string]*Lin{}
		drop := false
		for _, f := range s.facts {
			k := linKey(0, f.ts)
			if o, ok := best[k]; ok {
				drop = true
				if f.c > o.c {
					best[k] = f
				}
			} else {
				best[k] = f
			}
		}
		if drop {
			var nf []*Lin
			for _, f := range s.facts {
				if best[linKey(0, f.ts)] == f {
					nf = append(nf, f)
				}
			}
			s.facts = nf
			s.idx, s.cache = nil, nil
		}
	}
	// single symbol facts implied by axioms
	var nf []*Lin
	ch := false
	for _, f := range s.facts {
		if len(f.ts) == 1 && f.ts[0].k == -1 {
			in := u.info(f.ts[0].s)
			if in.hasLo && f.c <= in.lo {
				ch = true
				continue
			}
		}
		nf = append(nf, f)
	}
	if ch {
		s.facts = nf
		s.idx, s.cache = nil, nil
	}
	if len(s.nes) > 0 {
		var nn []*Lin
		for _, f := range s.nes {
			ok := true
			for _, t := range f.ts {
				if !isLive(t.s) {
					ok = false
				}
			}
			if ok {
				nn = append(nn, f)
			}
		}
		s.nes = nn
	}
	for k := range s.nilf {
		if !live[k] {
			delete(s.nilf, k)
		}
	}
	for t := range s.sg {
		ok := true
		if e.cfg.FltPaths {
			break
		}
		u.termSyms(t, func(x Sym) {
			if !isLive(x) {
				ok = false
			}
		})
		if !ok {
			delete(s.sg, t)
		}
	}
}

// run drives the worklist to a fixpoint.
func (e *Engine) run() error {
	for e.wl.Len() > 0 {
		it := heap.Pop(&e.wl).(wlItem)
		k := fmt.Sprintf("%d|%s", it.pt.id, it.key)
		delete(e.wlIn, k)
		ps := e.sts[it.pt]
		d := ps.djs[it.key]
		if d == nil || d.st == nil {
			continue
		}
		e.steps++
		if e.steps%256 == 0 && !e.started.IsZero() && time.Since(e.started) > e.limit {
			return fmt.Errorf("the analysis did not finish within %s", e.limit)
		}
		src := k
		old := e.outs[src]
		e.outs[src] = nil
		e.exec(it.pt, d.st.clone(), src)
		// retract contributions that were not repeated
		now := map[string]bool{}
		for _, t := range e.outs[src] {
			now[fmt.Sprintf("%d|%s|%s", t.pt.id, t.key, t.src)] = true
		}
		for _, t := range old {
			if now[fmt.Sprintf("%d|%s|%s", t.pt.id, t.key, t.src)] || e.isHead(t.pt) {
				continue
			}
			if tp := e.sts[t.pt]; tp != nil {
				if td := tp.djs[t.key]; td != nil {
					if _, ok := td.contrib[t.src]; ok {
						delete(td.contrib, t.src)
						e.rejoin(t.pt, td)
						if td.st == nil {
							e.retract(fmt.Sprintf("%d|%s", t.pt.id, t.key))
						}
					}
				}
			}
		}
	}
	return nil
}

// retract removes everything a vanished disjunct contributed.
func (e *Engine) retract(src string) {
	old := e.outs[src]
	delete(e.outs, src)
	for _, t := range old {
		if e.isHead(t.pt) {
			continue
		}
		if tp := e.sts[t.pt]; tp != nil {
			if td := tp.djs[t.key]; td != nil {
				if _, ok := td.contrib[t.src]; ok {
					delete(td.contrib, t.src)
					e.rejoin(t.pt, td)
					if td.st == nil {
						e.retract(fmt.Sprintf("%d|%s", t.pt.id, t.key))
					}
				}
			}
		}
	}
}

// report runs the observers over the fixpoint.
func (e *Engine) report() {
	e.final = true
	pts := make([]*Point, 0, len(e.sts))
	for p := range e.sts {
		pts = append(pts, p)
	}
	sort.Slice(pts, func(i, j int) bool {
		if c := cmpPrio(pts[i].prio, pts[j].prio); c != 0 {
			return c < 0
		}
		return pts[i].id < pts[j].id
	})
	for _, p := range pts {
		ps := e.sts[p]
		keys := make([]string, 0, len(ps.djs))
		for k := range ps.djs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			d := ps.djs[k]
			if d.st == nil {
				continue
			}
			e.nFinalStates++
			e.exec(p, d.st.clone(), "final")
		}
	}
	e.final = false
}

func (e *Engine) emit(ev *Ev) {
	if e.cfg.Ghost != nil {
		e.cfg.Ghost(ev)
	}
	if !e.final {
		return
	}
	for _, f := range e.obs {
		f(ev)
	}
}
