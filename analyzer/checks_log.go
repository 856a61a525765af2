package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rule about logging: what depends on the verbose flag only prints.

func init() {
	register(&Check{
		id:     "C26",
		direct: directLog,
		min: map[string]int{
			"code that runs only with (or without) logging changes nothing": 1,
			"the verbose flag decides about printing only":                  1,
		},
		expl: "Control-dependence and effect analysis: the verbose flag is followed from the parameter of New through fields, parameters and results; for each branch on it, everything between the branch and its post-dominator is required to be free of effects (no store to memory that exists outside, no append to or copy into such memory, no lock, no random draw, no I/O but printing, no goroutine, panic or early return), callees included (interface calls by class hierarchy); values that are merged where the paths meet again may only be used for printing; an element access that is made only for printing was made before, or is in range of a loop.",
	})
}

type logRule struct {
	p       *Prog
	fields  map[string]bool // tainted fields
	vals    map[ssa.Value]bool
	pure    map[*ssa.Function]string // "" pure, "?" running
	impl    map[string][]*ssa.Function
	regions map[*ssa.BasicBlock]bool
}

func directLog(res *Result, p *Prog, combos []Combo) {
	r := &logRule{p: p, fields: map[string]bool{}, vals: map[ssa.Value]bool{}, pure: map[*ssa.Function]string{}, impl: map[string][]*ssa.Function{}}
	var fs []*ssa.Function
	for _, f := range p.funcs {
		if strings.HasSuffix(fnPkg(f), driverDir) {
			continue
		}
		fs = append(fs, f)
		if f.Signature.Recv() != nil {
			r.impl[f.Name()] = append(r.impl[f.Name()], f)
		}
	}
	n := r.follow(fs)
	if n == 0 {
		res.fail("the verbose flag was not found among the parameters of New")
		return
	}
	const flagRule = "the verbose flag decides about printing only"
	for _, f := range fs {
		name := shortFn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if why := r.badUse(in); why != "" {
					res.add(flagRule, name, false, why+" at "+p.pos(in.Pos()))
				}
			}
			if len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !r.vals[iff.Cond] {
				continue
			}
			res.add(flagRule, name, true, "")
			for _, why := range r.region(f, b) {
				res.add("code that runs only with (or without) logging changes nothing", name, false, why)
			}
			res.add("code that runs only with (or without) logging changes nothing", name, true, "")
			res.stat("branches on the flag", 1)
		}
	}
}

// follow computes the values that are the flag.
func (r *logRule) follow(fs []*ssa.Function) int {
	seeds := 0
	isSeed := func(f *ssa.Function, p *ssa.Parameter) bool {
		b, ok := p.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool && strings.HasSuffix(fnPkg(f), "goannoy/index") && f.Parent() == nil && f.Signature.Recv() == nil && (strings.HasPrefix(f.Name(), "New[") || f.Name() == "New")
	}
	for _, f := range fs {
		for _, q := range f.Params {
			if isSeed(f, q) {
				r.vals[q] = true
				seeds++
			}
		}
	}
	for again := true; again; {
		again = false
		mark := func(v ssa.Value) {
			if !r.vals[v] {
				r.vals[v] = true
				again = true
			}
		}
		field := func(k string) {
			if !r.fields[k] {
				r.fields[k] = true
				again = true
			}
		}
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch v := in.(type) {
					case *ssa.Store:
						if r.vals[v.Val] {
							switch a := v.Addr.(type) {
							case *ssa.FieldAddr:
								field(fieldKeyO(a.X.Type(), a.Field))
							case *ssa.Alloc:
								mark(a)
							}
						}
					case *ssa.UnOp:
						switch v.Op {
						case token.NOT:
							if r.vals[v.X] {
								mark(v)
							}
						case token.MUL:
							switch a := v.X.(type) {
							case *ssa.FieldAddr:
								if isBoolT(v.Type()) && r.fields[fieldKeyO(a.X.Type(), a.Field)] {
									mark(v)
								}
							case *ssa.Alloc, *ssa.FreeVar:
								if isBoolT(v.Type()) && r.vals[a.(ssa.Value)] {
									mark(v)
								}
							}
						}
					case *ssa.Field:
						if r.fields[fieldKeyO(v.X.Type(), v.Field)] {
							mark(v)
						}
					case *ssa.BinOp:
						if isBoolT(v.Type()) && (r.vals[v.X] || r.vals[v.Y]) && isBoolT(v.X.Type()) {
							mark(v)
						}
					case *ssa.ChangeType:
						if r.vals[v.X] {
							mark(v)
						}
					case *ssa.Phi:
						if isBoolT(v.Type()) {
							for _, e := range v.Edges {
								if r.vals[e] {
									mark(v)
								}
							}
							// a && b: the constant that comes straight from the branch on the flag
							for i, e := range v.Edges {
								if _, c := e.(*ssa.Const); c {
									pb := v.Block().Preds[i]
									if iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && r.vals[iff.Cond] {
										mark(v)
									}
								}
							}
						}
					case *ssa.MakeClosure:
						fn := v.Fn.(*ssa.Function)
						for i, bd := range v.Bindings {
							if r.vals[bd] && i < len(fn.FreeVars) {
								mark(fn.FreeVars[i])
							}
						}
					case *ssa.Return:
						for i, a := range v.Results {
							if r.vals[a] && isBoolT(a.Type()) {
								field(fmt.Sprintf("ret %p %d", f, i))
							}
						}
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, g := range r.callees(c.Common()) {
						off := 0
						if c.Common().IsInvoke() {
							off = 1
						}
						for i, a := range c.Common().Args {
							if r.vals[a] && i+off < len(g.Params) {
								mark(g.Params[i+off])
							}
							// where the flag given to New comes from
							if i+off < len(g.Params) && isSeed(g, g.Params[i+off]) {
								if ld, ok := a.(*ssa.UnOp); ok {
									if fa, ok := ld.X.(*ssa.FieldAddr); ok {
										field(fieldKeyO(fa.X.Type(), fa.Field))
									}
								}
							}
						}
						if v, ok := in.(ssa.Value); ok && r.fields[fmt.Sprintf("ret %p 0", g)] && isBoolT(v.Type()) {
							mark(v)
						}
					}
				}
			}
		}
	}
	return seeds
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// fieldKeyO names a field independently of type arguments.
func fieldKeyO(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return fmt.Sprintf("%s#%d", n.Origin().Obj().Pkg().Path()+"."+n.Obj().Name(), i)
	}
	return fmt.Sprintf("%s#%d", t.String(), i)
}

func (r *logRule) callees(c *ssa.CallCommon) []*ssa.Function {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		var out []*ssa.Function
		for _, m := range r.impl[c.Method.Name()] {
			if it != nil && (types.Implements(m.Signature.Recv().Type(), it) || types.Implements(types.NewPointer(m.Signature.Recv().Type()), it)) {
				out = append(out, m)
			}
		}
		return out
	}
	return nil
}

// badUse: the flag is used for something that is not followed.
func (r *logRule) badUse(in ssa.Instruction) string {
	switch v := in.(type) {
	case *ssa.BinOp:
		if (r.vals[v.X] || r.vals[v.Y]) && !isBoolT(v.X.Type()) {
			return "the flag is compared"
		}
	case *ssa.Store:
		if r.vals[v.Val] && isBoolT(v.Val.Type()) {
			switch v.Addr.(type) {
			case *ssa.FieldAddr, *ssa.Alloc:
			default:
				return "the flag is stored where it is not followed"
			}
		}
	case *ssa.MapUpdate:
		if r.vals[v.Key] || r.vals[v.Value] {
			return "the flag is put into a map"
		}
	case *ssa.Send:
		if r.vals[v.X] {
			return "the flag is sent"
		}
	}
	return ""
}

// region checks what is control dependent on the branch that ends b.
func (r *logRule) region(f *ssa.Function, b *ssa.BasicBlock) (bad []string) {
	join := ipdom(f, b)
	reg := map[*ssa.BasicBlock]bool{}
	var walk func(c *ssa.BasicBlock)
	walk = func(c *ssa.BasicBlock) {
		if c == join || reg[c] {
			return
		}
		reg[c] = true
		for _, n := range c.Succs {
			walk(n)
		}
	}
	for _, n := range b.Succs {
		walk(n)
	}
	if reg[b] && !inLoopOf(b, join) {
		delete(reg, b)
	}
	var order []*ssa.BasicBlock
	for c := range reg {
		order = append(order, c)
	}
	sort.Slice(order, func(i, k int) bool { return order[i].Index < order[k].Index })
	var rets []*ssa.Return
	for _, c := range order {
		for _, in := range c.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				rets = append(rets, ret)
				continue
			}
			if why := r.impure(f, in, reg, b); why != "" {
				bad = append(bad, why+" at "+r.p.pos(in.Pos())+" depends on the verbose flag")
			}
		}
	}
	for i := 1; i < len(rets); i++ {
		for k := range rets[i].Results {
			if vkey(rets[i].Results[k], 0) != vkey(rets[0].Results[k], 0) {
				bad = append(bad, "what is returned at "+r.p.pos(rets[i].Pos())+" depends on the verbose flag")
			}
		}
	}
	if join != nil {
		for _, in := range join.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var vs []string
			for i, pb := range join.Preds {
				if reg[pb] || pb == b {
					vs = append(vs, vkey(phi.Edges[i], 0))
				}
			}
			differ := false
			for _, v := range vs {
				differ = differ || v != vs[0]
			}
			if differ && !r.vals[phi] && !r.onlyPrinted(f, phi, map[ssa.Value]bool{}) {
				bad = append(bad, fmt.Sprintf("the value of %s at %s depends on the verbose flag", phi.Comment, r.p.pos(phi.Pos())))
			}
		}
	}
	return bad
}

func inLoopOf(b, join *ssa.BasicBlock) bool { return false }

// onlyPrinted: every use of the value lies in a part that depends on the flag.
func (r *logRule) onlyPrinted(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if r.inRegion(f, u.Block()) {
			continue
		}
		switch w := u.(type) {
		case *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp, *ssa.MakeInterface:
			if !r.onlyPrinted(f, w.(ssa.Value), seen) {
				return false
			}
			continue
		}
		return false
	}
	return true
}

// inRegion: the block runs only for one value of the flag.
func (r *logRule) inRegion(f *ssa.Function, c *ssa.BasicBlock) bool {
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !r.vals[iff.Cond] {
			continue
		}
		for _, s := range b.Succs {
			if len(s.Preds) == 1 && s.Dominates(c) {
				return true
			}
		}
	}
	return false
}

// ipdom: the block every path from the end of b passes first (nil: the exit).
func ipdom(f *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	n := len(f.Blocks)
	full := func() map[int]bool {
		m := map[int]bool{-1: true}
		for i := 0; i < n; i++ {
			m[i] = true
		}
		return m
	}
	pd := make([]map[int]bool, n)
	for i := range pd {
		pd[i] = full()
	}
	for again := true; again; {
		again = false
		for i := n - 1; i >= 0; i-- {
			c := f.Blocks[i]
			var m map[int]bool
			if len(c.Succs) == 0 {
				m = map[int]bool{-1: true}
			}
			for _, s := range c.Succs {
				if m == nil {
					m = map[int]bool{}
					for k := range pd[s.Index] {
						m[k] = true
					}
				} else {
					for k := range m {
						if !pd[s.Index][k] {
							delete(m, k)
						}
					}
				}
			}
			m[i] = true
			if len(m) != len(pd[i]) {
				pd[i] = m
				again = true
			}
		}
	}
	// the closest one is post-dominated by all others
	var best *ssa.BasicBlock
	for k := range pd[b.Index] {
		if k < 0 || k == b.Index {
			continue
		}
		if best == nil || pd[k][best.Index] == false && pd[best.Index][k] == false || len(pd[k]) > len(pd[best.Index]) {
			best = f.Blocks[k]
		}
	}
	return best
}

// impure says why an instruction does more than compute or print.
func (r *logRule) impure(f *ssa.Function, in ssa.Instruction, reg map[*ssa.BasicBlock]bool, br *ssa.BasicBlock) string {
	switch v := in.(type) {
	case *ssa.Store:
		a := rootAlloc(v.Addr, map[ssa.Value]bool{})
		if a == nil {
			return "a write"
		}
		if reg != nil && !allocIn(a, reg) && !r.allocOnlyPrinted(f, a) {
			return "a write to a variable"
		}
	case *ssa.MapUpdate:
		if _, ok := v.Map.(*ssa.MakeMap); !ok {
			return "a write to a map"
		}
	case *ssa.Send:
		return "a send"
	case *ssa.Go:
		return "a goroutine"
	case *ssa.Panic:
		return "a panic"
	case *ssa.Select:
		return "a select"
	case *ssa.Defer:
		return r.impureCall(f, &v.Call)
	case *ssa.Call:
		return r.impureCall(f, &v.Call)
	case *ssa.MakeInterface:
		for _, m := range []string{"String", "Error", "Format", "GoString"} {
			for _, g := range r.impl[m] {
				if types.Identical(g.Signature.Recv().Type(), v.X.Type()) {
					if why := r.impureFn(g); why != "" {
						return why
					}
				}
			}
		}
	case *ssa.BinOp:
		if reg != nil && (v.Op == token.QUO || v.Op == token.REM) && isIntT(v.X.Type()) {
			if c, ok := v.Y.(*ssa.Const); !ok || constant.Sign(c.Value) == 0 {
				if !repeated(f, v, reg, br) {
					return "a division that may fail"
				}
			}
		}
	case *ssa.IndexAddr:
		if reg == nil {
			return ""
		}
		if _, isArr := v.X.Type().Underlying().(*types.Pointer); isArr {
			if _, c := v.Index.(*ssa.Const); c {
				return ""
			}
		}
		if !repeated(f, v, reg, br) && !ranged(v, reg) {
			return "an access to an element, which may fail,"
		}
	case *ssa.TypeAssert:
		if reg != nil && !v.CommaOk && !repeated(f, v, reg, br) {
			return "a type assertion that may fail"
		}
	}
	return ""
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// repeated: the same operation was performed on every path to the branch.
func repeated(f *ssa.Function, v ssa.Instruction, reg map[*ssa.BasicBlock]bool, br *ssa.BasicBlock) bool {
	key := func(in ssa.Instruction) string {
		switch w := in.(type) {
		case *ssa.IndexAddr:
			return "ix " + cellKey(w)
		case *ssa.BinOp:
			return "bo " + vkey(w, 0)
		case *ssa.TypeAssert:
			return "ta " + w.AssertedType.String() + vkey(w.X, 0)
		}
		return ""
	}
	k := key(v)
	for _, b := range f.Blocks {
		if reg[b] || !b.Dominates(br) {
			continue
		}
		for _, in := range b.Instrs {
			if q := key(in); q != "" && q == k {
				return true
			}
		}
	}
	return false
}

// ranged: the index was compared with the length of the list inside the part that depends on the flag.
func ranged(v *ssa.IndexAddr, reg map[*ssa.BasicBlock]bool) bool {
	for b := range reg {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(v.Block()) {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(c.Op == token.LSS || c.Op == token.GTR || c.Op == token.NEQ) {
			continue
		}
		idx, ln := c.X, c.Y
		if c.Op == token.GTR {
			idx, ln = ln, idx
		}
		if vkey(idx, 0) != vkey(v.Index, 0) {
			continue
		}
		if cl, ok := stripConv(ln).(*ssa.Call); ok {
			if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && vkey(cl.Call.Args[0], 0) == vkey(v.X, 0) {
				return true
			}
		}
	}
	return false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch w := v.(type) {
		case *ssa.Convert:
			v = w.X
		case *ssa.ChangeType:
			v = w.X
		default:
			return v
		}
	}
}

func rootAlloc(v ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch w := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return w
	case *ssa.FieldAddr:
		return rootAlloc(w.X, seen)
	case *ssa.IndexAddr:
		return rootAlloc(w.X, seen)
	case *ssa.Slice:
		return rootAlloc(w.X, seen)
	case *ssa.ChangeType:
		return rootAlloc(w.X, seen)
	case *ssa.Phi:
		var a ssa.Value
		for _, e := range w.Edges {
			if seen[e] {
				continue
			}
			b := rootAlloc(e, seen)
			if b == nil {
				return nil
			}
			a = b
		}
		return a
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && madeHere(w.Call.Args[0], map[ssa.Value]bool{}) {
			if a := rootAlloc(w.Call.Args[0], seen); a != nil {
				return a
			}
			return w
		}
	}
	return nil
}

func allocIn(a ssa.Value, reg map[*ssa.BasicBlock]bool) bool {
	in, ok := a.(ssa.Instruction)
	return ok && reg[in.Block()]
}

// allocOnlyPrinted: the variable is read only where the flag has one value.
func (r *logRule) allocOnlyPrinted(f *ssa.Function, a ssa.Value) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, u := range *a.Referrers() {
		switch u.(type) {
		case *ssa.Store, *ssa.DebugRef:
			continue
		}
		if !r.inRegion(f, u.Block()) {
			return false
		}
	}
	return true
}

var printing = map[string]bool{"fmt": true, "log": true, "strings": true, "strconv": true, "time": true, "unicode/utf8": true, "math": true, "math/bits": true, "errors": true, "bytes": true, "text/tabwriter": true, "reflect": true, "unsafe": true, "sort": false}

func (r *logRule) impureCall(f *ssa.Function, c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			if len(c.Args) > 0 && !madeHere(c.Args[0], map[ssa.Value]bool{}) {
				return "a " + b.Name() + " to memory that exists outside"
			}
		case "delete", "clear", "close", "panic", "recover":
			return "a " + b.Name()
		}
		return ""
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		return r.impureFn(mc.Fn.(*ssa.Function))
	}
	gs := r.callees(c)
	if c.IsInvoke() {
		for _, g := range gs {
			if why := r.impureFn(g); why != "" {
				return why
			}
		}
		if len(gs) == 0 {
			switch c.Method.Name() {
			case "Error", "String", "Size", "Name", "Write", "Kind":
				return ""
			}
			return "a call of " + c.Method.Name()
		}
		return ""
	}
	if len(gs) == 0 {
		return "a call of an unknown function"
	}
	g := gs[0]
	if len(g.Blocks) > 0 && strings.HasPrefix(fnPkg(g), modPath) {
		return r.impureFn(g)
	}
	pk := fnPkg(g)
	switch {
	case pk == "fmt" && strings.Contains(g.Name(), "can"): // Scan
		return "a call of " + g.String()
	case pk == "log" && (strings.HasPrefix(g.Name(), "Fatal") || strings.HasPrefix(g.Name(), "Panic") || strings.HasPrefix(g.Name(), "Set")):
		return "a call of " + g.String()
	case printing[pk]:
		return ""
	case pk == "runtime":
		switch g.Name() {
		case "NumGoroutine", "NumCPU", "ReadMemStats", "Caller", "KeepAlive":
			return ""
		}
	case pk == "os":
		switch g.Name() {
		case "Stat", "Lstat", "Getwd", "Getpid", "Hostname", "Getenv":
			return ""
		case "Write", "WriteString", "Name":
			if len(c.Args) > 0 {
				if ld, ok := c.Args[0].(*ssa.UnOp); ok {
					if gl, ok := ld.X.(*ssa.Global); ok && (gl.Name() == "Stdout" || gl.Name() == "Stderr") {
						return ""
					}
				}
			}
		}
	}
	return "a call of " + g.String()
}

func (r *logRule) impureFn(f *ssa.Function) string {
	if w, ok := r.pure[f]; ok {
		if w == "?" {
			return ""
		}
		return w
	}
	r.pure[f] = "?"
	why := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if w := r.impure(f, in, nil, nil); w != "" && why == "" {
				why = w
				if !strings.Contains(w, " in ") {
					why = w + " in " + shortFn(f)
				}
			}
		}
	}
	r.pure[f] = why
	return why
}
