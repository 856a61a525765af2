package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the life of an index: which operations are accepted in which state, I/O errors, files and mappings.

var lifeCfg = Config{PanicBack: true, FailIO: true, MaxDisj: 3000}

func lifeUses(obs func(r *Run) func(*Ev), opens bool) []HarnessUse {
	u := []HarnessUse{
		{name: "hLifeMmap", generic: true, cfg: lifeCfg, observe: obs},
		{name: "hLifeFile", generic: true, cfg: lifeCfg, observe: obs},
	}
	if opens {
		u = append(u, HarnessUse{name: "hOpenMmap", cfg: lifeCfg, observe: obs}, HarnessUse{name: "hOpenFile", cfg: lifeCfg, observe: obs})
	}
	return u
}

// boolField: 1 true, 2 false, 0 unknown.
func boolField(s *State, o *Obj, path string) int8 {
	if b, ok := s.mem[Cell{o, path}].(Bool); ok {
		return b.k
	}
	if !s.isLive(o) {
		return 0
	}
	if b, ok := s.e.defaultCell(s, Cell{o, path}).(Bool); ok {
		return b.k
	}
	return 0
}

func cellVal(s *State, o *Obj, path string) AV {
	c := Cell{o, path}
	if v, ok := s.mem[c]; ok {
		return v
	}
	if s.isLive(o) {
		return s.e.defaultCell(s, c)
	}
	return nil
}

// opName strips the digit that distinguishes uses of an operation in a harness.
func opName(s string) string { return strings.TrimRight(s, "0123456789") }

// withinOp: the object was made by the operation in progress (or is local to it).
func inOp(x *X, o *Obj) bool {
	if o.at == nil {
		return false
	}
	c := x.ctx
	for c != nil && c.parent != nil && !x.isHarness(c.parent.fn) {
		c = c.parent
	}
	return c != nil && o.at.ctx.within(c)
}

// writesOf calls f for every target an event writes to.
func writesOf(ev *Ev, f func(t Tgt, n *Lin, what string)) {
	u := ev.x.e.u
	switch ev.kind {
	case "store":
		for _, t := range ev.ptr.tg {
			f(t, u.k(ev.x.e.sizeof(ev.typ)), "store")
		}
	case "copy":
		for _, t := range ev.sl.tg {
			var n *Lin
			if ev.ln != nil && t.o.raw && t.o.typ != nil {
				n = ev.ln
				if ev.sl2.tg != nil || ev.sl.tg != nil {
					n = ev.ln
				}
			}
			f(t, n, "copy")
		}
	case "append":
		// appending may write into the array of the first operand
		for _, t := range ev.sl.tg {
			f(t, nil, "append")
		}
	case "mapset", "mapdel":
		if p, ok := ev.args[0].(Ptr); ok {
			for _, t := range p.tg {
				f(t, nil, ev.kind)
			}
		}
	case "sort":
		for _, t := range ev.sl.tg {
			f(t, nil, "sort")
		}
		for _, a := range ev.args {
			seqTargets(ev.x.s, a, func(t Tgt) { f(t, nil, "sort") })
		}
	case "heap":
		if len(ev.args) > 0 {
			seqTargets(ev.x.s, ev.args[0], func(t Tgt) { f(t, nil, "heap") })
		}
	}
}

// seqTargets: the elements of a slice, possibly behind an interface and a pointer.
func seqTargets(s *State, a AV, f func(Tgt)) {
	switch v := a.(type) {
	case Iface:
		for _, alt := range v.alts {
			seqTargets(s, alt.v, f)
		}
	case Slice:
		for _, t := range v.tg {
			f(t)
		}
	case Ptr:
		for _, t := range v.tg {
			if sl, ok := s.mem[Cell{t.o, t.path}].(Slice); ok {
				for _, q := range sl.tg {
					f(q)
				}
			}
		}
	}
}

func fieldOf(t Tgt) string {
	p := t.path
	if p == "" {
		p = "[]"
	}
	n := "memory"
	if t.o.typ != nil {
		n = shortType(t.o.typ)
	}
	return n + p
}

func construct(ev *Ev, t Tgt) string { return shortFn(ev.x.ctx.fn) + " writes " + fieldOf(t) }

func init() {
	register(&Check{
		id:   "C10",
		uses: lifeUses(observeC10, false),
		min: map[string]int{
			"an index that is built or loaded refuses the operation": 1,
			"an index that is not built is not saved":                1,
			"a closed index is like a new one":                       1,
			"a new or closed index accepts the operation":            1,
		},
		expl: "Path-sensitive typestate analysis of an index in each state (new, with items, built, loaded, after a failed load, closed) undergoing AddItem, Build, Save, Load, Close with both index allocators: refused operations end in the refusal before any store to memory that existed before the call and before any file operation.",
	})
	register(&Check{
		id:   "C11",
		uses: lifeUses(observeC11, false),
		min:  map[string]int{"only a temporary file in the target's directory is opened for writing": 1, "rename publishes a complete, synced, closed file": 1, "the complete image is written": 1},
		expl: "Path-sensitive typestate analysis of Save: provenance of every path argument, and of the order write, sync, close, rename on every path.",
	})
	register(&Check{
		id:   "C12",
		uses: lifeUses(observeC12, true),
		min:  map[string]int{"success means that the whole file was read": 1, "a failed operation is reported": 3, "no panic": 1},
		expl: "Every call of an I/O function is split into success and failure; on every path on which one failed, the result of the library operation in progress is a non-nil error. Explicit and implicit panics in Save, Load, Open and Close are violations.",
	})
	register(&Check{
		id:   "C13",
		uses: lifeUses(observeC13, false),
		min:  map[string]int{"node data is read only from a file of whole records": 1, "access within the file": 1, "a failed load leaves a closed index": 1, "success implies a valid size": 1},
		expl: "Symbolic range analysis of every access to file data in Load (size of the file and contents arbitrary), and typestate of the index after a failed load.",
	})
	register(&Check{
		id:   "C14",
		uses: lifeUses(observeC14, true),
		min:  map[string]int{"released once": 1, "nothing is left open": 1, "no pointer into released memory": 1},
		expl: "Typestate (open/closed, mapped/unmapped) of every file and mapping on all paths of Open, Save, Load, Close, with reachability: a resource that is still held when it becomes unreachable, or that is not held by the index's allocation when an operation ends, is a leak.",
	})
}

func observeC10(r *Run) func(*Ev) {
	accepted := map[string]bool{}
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := s.tags["op"]
		name := opName(op)
		hist := s.tags["hist"] // what happened to the index before the operation
		full := hist == "built" || hist == "loaded"
		refuse := (name == "AddItem" || name == "Build") && full || name == "Save" && hist != "" && !full
		rule := "an index that is built or loaded refuses the operation"
		if name == "Save" {
			rule = "an index that is not built is not saved"
		}
		switch ev.kind {
		case "store", "copy", "append", "mapset", "mapdel", "sort":
			if refuse {
				writesOf(ev, func(t Tgt, _ *Lin, what string) {
					if !inOp(x, t.o) {
						r.ob(rule, name, false, what+" to "+fieldOf(t)+" before the refusal in "+r.at(ev))
					}
				})
			}
		case "open", "fsop", "mmap", "munmap", "fclose":
			if refuse && ev.kind != "fclose" {
				r.ob(rule, name, false, "file operation "+ev.name+" before the refusal in "+r.at(ev))
			}
		case "end":
			if ev.name == "AddItem" || ev.name == "Build" {
				if refuse {
					r.ob(rule, name, s.tags["panicked"] != "", "the operation is not refused")
				} else if hist == "" {
					r.ob(rule, name, false, "the state of the index is not known")
				} else if s.tags["panicked"] == "" {
					accepted[name] = true
					r.ob("a new or closed index accepts the operation", name, true, "")
				} else if name == "Build" {
					r.ob("a new or closed index accepts the operation", name, false, "Build of an index that is neither built nor loaded panics")
				}
			}
		case "result":
			if ev.name == "Save" && refuse && s.tags["panicked"] == "" {
				r.ob(rule, name, s.nilOf(ev.args[0]) == 2, "Save returns no error")
			}
		case "state":
			if ev.obj == nil {
				r.ob("a closed index is like a new one", ev.name, false, "the index is not known")
				return
			}
			if ev.name == "closed" && s.tags["panicked"] == "" {
				for _, f := range []string{".indexBuilt", ".indexLoaded"} {
					r.ob("a closed index is like a new one", f, boolField(s, ev.obj, f) == 2, "not reset by Close")
				}
			}
		}
	}
}

// leafSyms: string terms.
func strParts(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if t.op == "strcat" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, strParts(a)...)
		}
		return out
	}
	return []*Term{t}
}

// sameDirAs: path is the target with characters appended (no separator), or a temporary file made in its directory.
func sameDirAs(path, target *Term) bool {
	if path == target {
		return false
	}
	if path.op == "tmpin" {
		return path.args[0].op == "dir" && path.args[0].args[0] == target
	}
	ps := strParts(path)
	if len(ps) < 2 || ps[0] != target {
		return false
	}
	nonempty := false
	for _, p := range ps[1:] {
		if p.op == "str" {
			if strings.ContainsAny(p.s, "/") {
				return false
			}
			nonempty = nonempty || p.s != ""
		} else if p.op == "tmp" || p.op == "rand" {
			nonempty = true
		} else {
			return false
		}
	}
	return nonempty
}

func observeC11(r *Run) func(*Ev) {
	flt := func(a AV) *Term { f, _ := a.(Flt); return f.t }
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		tgt := x.e.strTerms[s.tags["target"]]
		if opName(s.tags["op"]) != "Save" {
			return
		}
		const r1 = "only a temporary file in the target's directory is opened for writing"
		const r2 = "rename publishes a complete, synced, closed file"
		switch ev.kind {
		case "open":
			if ev.name == "Open" {
				return
			}
			p := flt(ev.val)
			con := shortFn(x.ctx.fn) + " " + ev.name
			if tgt == nil || p == nil {
				r.ob(r1, con, false, "the path is not known in "+r.at(ev))
				return
			}
			if ev.name == "OpenFile" {
				if i, ok := ev.args[1].(Int); ok {
					if k, ok := i.l.isConst(); ok && k&3 == 0 && k&0x240 == 0 {
						return // read only
					}
				}
			}
			r.ob(r1, con, sameDirAs(p, tgt), "opens "+x.e.u.termStr(p)+" for target "+x.e.u.termStr(tgt)+" in "+r.at(ev))
		case "fwrite":
			if !strings.HasPrefix(ev.name, "Write") {
				if ev.name == "Truncate" {
					r.ob(r1, "Truncate in "+shortFn(x.ctx.fn), true, "")
				}
				return
			}
			// what is written: the whole node image
			sl, ok := ev.args[1].(Slice)
			con := "write in " + shortFn(x.ctx.fn)
			if !ok {
				return
			}
			var idx *Obj
			for c := range s.mem {
				if c.path == "._n_nodes" {
					idx = c.o
				}
			}
			if idx == nil {
				r.ob("the complete image is written", con, false, "the index is not known")
				return
			}
			n, _ := cellVal(s, idx, "._n_nodes").(Int)
			k, _ := cellVal(s, idx, ".nodeSize").(Int)
			p, _ := cellVal(s, idx, "._nodes").(Ptr)
			if n.l == nil || k.l == nil || sl.ln == nil {
				r.ob("the complete image is written", con, false, "the image size is not known")
				return
			}
			good := s.proveEq(sl.ln, x.e.u.mul(n.l, k.l))
			if !good && inLoop(x.e.info(x.ctx.fn), ev.in.Block()) {
				good = true // written in pieces: only where it comes from is checked
			}
			from := len(sl.tg) == 0 && s.nilOf(p) != 2
			if !from {
				from = len(sl.tg) > 0
				for _, t := range sl.tg {
					hit := false
					for _, q := range p.tg {
						hit = hit || q.o == t.o
					}
					from = from && hit
				}
			}
			r.ob("the complete image is written", con, good && from, "writes "+x.e.u.linStr(sl.ln)+" bytes, the image has "+x.e.u.linStr(x.e.u.mul(n.l, k.l))+": "+r.at(ev))
		case "fsop":
			con := shortFn(x.ctx.fn) + " " + ev.name
			a0 := flt(ev.args[0])
			switch ev.name {
			case "Rename":
				a1 := flt(ev.args[1])
				if a1 != tgt {
					r.ob(r2, con, false, "renames to "+x.e.u.termStr(a1)+" instead of the target: "+r.at(ev))
					return
				}
				ok := s.tags["did:Write"] != "" && s.tags["did:Create"]+s.tags["did:OpenFile"]+s.tags["did:CreateTemp"] != "" && s.tags["did:Sync"] != "" && s.tags["did:Close"] != ""
				why := "not every step succeeded before the rename (" + tagList(s, "did:") + ")"
				if f := s.tags["fail"]; f != "" {
					ok, why = false, "renamed although "+f+" failed"
				}
				for k, v := range s.tags {
					if strings.HasSuffix(k, ":dirty") {
						ok, why = false, "data was written after the last successful sync"
						continue
					}
					if o := x.e.resource(k); o != nil && o.desc == "file" {
						m := flt(cellVal(s, o, "#mode"))
						if m != nil && m.s == "w" && v != "closed" {
							ok, why = false, "the file is not closed (or has unsynced data) before the rename"
						}
					}
				}
				named := a0 != nil && a0 != tgt && sameDirAs(a0, tgt) && s.tags["name:"+x.e.u.termStr(a0)] != ""
				if !named {
					ok, why = false, "renames "+x.e.u.termStr(a0)+", which is not the file that was written"
				}
				r.ob(r2, con, ok, why+": "+r.at(ev))
			default:
				// Remove, Truncate, WriteFile, ...: never the target
				ok := a0 != nil && a0 != tgt && (sameDirAs(a0, tgt)) && ev.name == "Remove"
				r.ob(r1, con, ok, ev.name+" of "+x.e.u.termStr(a0)+": "+r.at(ev))
			}
		}
	}
}

func tagList(s *State, pre string) string {
	var ks []string
	for k := range s.tags {
		if strings.HasPrefix(k, pre) {
			ks = append(ks, strings.TrimPrefix(k, pre))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func observeC12(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := opName(strings.TrimSuffix(strings.TrimSuffix(s.tags["op"], "b"), "M1"))
		op = strings.TrimSuffix(strings.TrimSuffix(op, "M"), "M2")
		switch op {
		case "Save", "Load", "Close", "Open":
		default:
			return
		}
		switch ev.kind {
		case "result":
			if s.tags["panicked"] != "" {
				return
			}
			if f := s.tags["fail"]; f != "" {
				con := op + " when " + f + " fails"
				r.ob("a failed operation is reported", con, s.nilOf(ev.args[0]) == 2, "the error is not returned")
			}
			if op == "Open" && len(ev.args) > 1 && s.nilOf(ev.args[0]) == 1 {
				n := 0
				for o := range allocReach(s, ev.args[1], nil) {
					if !o.raw {
						continue
					}
					n++
					ext := s.ext(o)
					good := o.kind == okExtern
					if f, ok := s.mem[Cell{o, "#filled"}].(Int); ok && ext != nil {
						good = s.prove(x.e.u.sub(ext, f.l))
					}
					r.ob("success means that the whole file was read", "Open of "+r.harness, good, "part of the file may not have been read into memory of "+x.e.originOf(o))
				}
				r.ob("success means that the whole file was read", "Open of "+r.harness, n > 0, "no memory holds the file")
			}
		case "end":
			r.ob("no panic", op, s.tags["panicked"] == "", "an explicit panic ends the operation")
		case "nilderef":
			if x.s.nilOf(ev.ptr) == 1 && !x.s.dead {
				r.ob("no panic", op, false, "nil dereference in "+r.at(ev))
			}
		case "index":
			if ev.sl.ln != nil && ev.ln != nil {
				r.ob("no panic", op, s.proveLt(ev.ln, ev.sl.ln), "index out of range in "+r.at(ev))
			}
		}
	}
}

// fileData: the object holds bytes of an index file.
func fileData(o *Obj) bool { return o.raw && (o.desc == "mapping" || o.desc == "filebytes") }

func baseObj(o *Obj) *Obj {
	if o.young != nil {
		return o.young
	}
	return o
}

func observeC13(r *Run) func(*Ev) {
	fileObj := func(s *State, o *Obj) bool {
		o = baseObj(o)
		return o.raw && (o.desc == "mapping" || o.desc == "filebytes") || o.raw && s.mem[Cell{o, "#filled"}] != nil
	}
	return func(ev *Ev) {
		x, s, u := ev.x, ev.x.s, ev.x.e.u
		op := opName(s.tags["op"])
		if op != "Load" && op != "Save" {
			return
		}
		node := func() *Lin {
			for c, v := range s.mem {
				if c.path == ".nodeSize" && c.o.typ != nil && strings.Contains(shortType(c.o.typ), "AnnoyIndexImpl[") {
					if n, ok := v.(Int); ok {
						return n.l
					}
				}
			}
			return nil
		}
		switch ev.kind {
		case "load", "store":
			for _, t := range ev.ptr.tg {
				if !fileObj(s, t.o) {
					continue
				}
				con := shortFn(x.ctx.fn)
				ext, k := s.ext(t.o), node()
				if ext == nil || k == nil || t.off == nil {
					r.ob("access within the file", con, false, "the extent or offset is not known in "+r.at(ev))
					continue
				}
				if ev.kind == "store" {
					r.ob("access within the file", con, false, "writes to the loaded file in "+r.at(ev))
				}
				end := u.addc(t.off, x.e.sizeof(ev.typ))
				r.ob("access within the file", con, s.proveMul(u.scale(t.off, -1)) && s.proveMul(u.sub(end, ext)), "may read at "+u.linStr(t.off)+" of "+u.linStr(ext)+" bytes in "+r.at(ev))
				whole := s.proveEq(u.rem(ext, k), u.zero) && s.prove(u.addc(u.scale(ext, -1), 1))
				r.ob("node data is read only from a file of whole records", con, whole, "the size has not been checked before "+r.at(ev))
			}
		case "result":
			if op != "Load" || s.tags["panicked"] != "" {
				return
			}
			idx := theIndex(s)
			if idx == nil {
				r.ob("a failed load leaves a closed index", "Load", false, "the index is not known")
				return
			}
			switch s.nilOf(ev.args[0]) {
			case 2:
				why := ""
				if boolField(s, idx, ".indexBuilt") != 2 || boolField(s, idx, ".indexLoaded") != 2 {
					why = "it is still marked as built or loaded"
				}
				if s.nilOf(cellVal(s, idx, "._nodes")) != 1 {
					why = "it still has a storage pointer"
				}
				if s.nilOf(cellVal(s, idx, ".indexMemory")) != 1 {
					why = "it still has an allocation"
				}
				for k, v := range s.tags {
					if x.e.resource(k) != nil && (v == "open" || v == "mapped" || v == "mixed") {
						why = "a file or mapping is still held"
					}
				}
				r.ob("a failed load leaves a closed index", "Load", why == "", why+" ("+tagList(s, "did:")+")")
			case 1:
				p, _ := cellVal(s, idx, "._nodes").(Ptr)
				k, _ := cellVal(s, idx, ".nodeSize").(Int)
				ok := len(p.tg) > 0 && k.l != nil
				for _, t := range p.tg {
					ext := s.ext(t.o)
					ok = ok && ext != nil && s.proveEq(u.rem(ext, k.l), u.zero) && s.prove(u.addc(u.scale(ext, -1), 1))
				}
				r.ob("success implies a valid size", "Load", ok, "Load succeeds for a file that is empty or not a whole number of records")
			default:
				r.ob("a failed load leaves a closed index", "Load", false, "success or failure is not known")
			}
		}
	}
}

func inLoop(fi *fnInfo, b *ssa.BasicBlock) bool {
	for _, body := range fi.loops {
		if body[b] {
			return true
		}
	}
	return false
}

// theIndex: the index of a harness.
func theIndex(s *State) *Obj {
	var r *Obj
	for c := range s.mem {
		if c.o.typ != nil && strings.Contains(shortType(c.o.typ), "AnnoyIndexImpl[") && (r == nil || c.o.id < r.id) {
			r = c.o
		}
	}
	return r
}

// reachFrom: objects reachable from a value without passing through the given objects.
func reachFrom(s *State, a AV, not map[*Obj]bool) map[*Obj]bool {
	m := map[*Obj]bool{}
	var work []*Obj
	mark := func(o *Obj) {
		if !m[o] && !not[o] {
			m[o] = true
			work = append(work, o)
		}
	}
	avObjs(a, mark)
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		for c, v := range s.mem {
			if c.o == o {
				avObjs(v, mark)
			}
		}
	}
	return m
}

func observeC14(r *Run) func(*Ev) {
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := opName(s.tags["op"])
		held := func(ok map[*Obj]bool, con, why string) {
			good := true
			for k, v := range s.tags {
				o := x.e.resource(k)
				if o == nil || strings.HasSuffix(k, ":dirty") || v == "closed" || v == "unmapped" {
					continue
				}
				if !ok[o] {
					good = false
					why += " (" + o.desc + " of " + x.e.originOf(o) + " is " + v + ")"
				}
			}
			r.ob("nothing is left open", con, good, why)
		}
		switch ev.kind {
		case "fclose":
			// closing an *os.File again is refused by it and harmless
			r.ob("released once", shortFn(x.ctx.fn)+" closes a file", ev.name == "open" || ev.name == "closed", "the file is "+ev.name+" in "+r.at(ev))
		case "munmap":
			r.ob("released once", shortFn(x.ctx.fn)+" unmaps", ev.name == "mapped", "the mapping is "+ev.name+" in "+r.at(ev))
		case "fwrite", "fsync":
			st := ev.name
			if f, ok := ev.val.(Flt); ok {
				st = f.t.s
			}
			if st != "" {
				r.ob("released once", shortFn(x.ctx.fn)+" uses a file", st == "open", "the file is "+st+" in "+r.at(ev))
			}
		case "load", "store":
			for _, t := range ev.ptr.tg {
				if t.o.desc == "mapping" {
					st := s.tags["M"+fmt.Sprint(t.o.id)]
					r.ob("no pointer into released memory", shortFn(x.ctx.fn)+" uses a mapping", st == "mapped", "the mapping is "+st+" in "+r.at(ev))
				}
			}
		case "end", "state":
			if strings.HasPrefix(r.harness, "hOpen") {
				return
			}
			if ev.kind == "end" {
				for k := range s.tags {
					if strings.HasPrefix(k, "leak:") {
						r.ob("nothing is left open", op, false, "never released: "+k[6:])
					}
				}
			}
			if ev.kind == "state" && ev.name == "pre" {
				return
			}
			idx := theIndex(s)
			if idx == nil {
				return
			}
			con := op
			if ev.kind == "state" {
				con = "state " + ev.name
			}
			a := cellVal(s, idx, ".indexMemory")
			m := allocReach(s, a, cellVal(s, idx, ".indexMemoryAllocator"))
			held(m, con, "a file or mapping is open that the index does not hold")
			p, ok := cellVal(s, idx, "._nodes").(Ptr)
			good, why := true, ""
			if ok {
				for _, t := range p.tg {
					if t.o.desc == "mapping" && s.tags["M"+fmt.Sprint(t.o.id)] != "mapped" {
						good, why = false, "the index points into a mapping that was released"
					}
				}
				if s.nilOf(p) == 0 && len(p.tg) > 0 {
					good, why = false, "the storage pointer may be stale"
				}
			}
			if s.nilOf(a) == 1 && ok {
				for _, t := range p.tg {
					if t.o.desc == "mapping" || t.o.desc == "filebytes" {
						good, why = false, "the index points into memory of an allocation it gave up"
					}
				}
			}
			if ev.kind == "state" && ev.name == "closed" {
				if s.nilOf(cellVal(s, idx, "._nodes")) != 1 {
					good, why = false, "a closed index still has a storage pointer"
				}
				if sl, ok := cellVal(s, idx, "._roots").(Slice); !ok || sl.ln == nil || !s.proveEq(sl.ln, x.e.u.zero) {
					good, why = false, "a closed index still has roots"
				}
				if s.nilOf(a) != 1 {
					good, why = false, "a closed index still has an allocation"
				}
			}
			r.ob("no pointer into released memory", con, good, why)
		case "result":
			if !strings.HasPrefix(r.harness, "hOpen") || s.tags["panicked"] != "" {
				return
			}
			// what Open acquired is held by its result
			if strings.HasPrefix(ev.name, "Open") {
				var a AV
				if len(ev.args) > 1 {
					a = ev.args[1]
				}
				m := allocReach(s, a, nil)
				good, why := true, ""
				for k, v := range s.tags {
					o := x.e.resource(k)
					if o == nil || v == "closed" || v == "unmapped" || o.at == nil || !o.at.ctx.within(siteCtx(x, ev.name)) {
						continue
					}
					if s.nilOf(ev.args[0]) == 2 {
						good, why = false, "a failed Open keeps a "+o.desc
					} else if !m[o] {
						good, why = false, "the "+o.desc+" is not held by the result"
					}
				}
				for k := range s.tags {
					if strings.HasPrefix(k, "leak:") {
						good, why = false, "never released: "+k[6:]
					}
				}
				r.ob("nothing is left open", "Open of "+r.harness, good, why)
			} else {
				// after closing, nothing acquired by the Open of this allocation is held
				n := "Open2"
				if strings.HasPrefix(ev.name, "CloseM1") {
					n = "Open1"
				}
				good, why := true, ""
				for k, v := range s.tags {
					o := x.e.resource(k)
					if o == nil || strings.HasSuffix(k, ":dirty") || v == "closed" || v == "unmapped" || o.at == nil || !o.at.ctx.within(siteCtx(x, n)) {
						continue
					}
					good, why = false, "a "+o.desc+" is still "+v+" after Close"
				}
				for k := range s.tags {
					if strings.HasPrefix(k, "leak:") {
						good, why = false, "never released: "+k[6:]
					}
				}
				r.ob("nothing is left open", opName(ev.name)+" of "+r.harness, good, why)
			}
		}
	}
}

// siteCtx: the activation of the call made after begin(name) in the harness function of the current point.
func siteCtx(x *X, name string) *Ctx {
	h := x.ctx
	for h != nil && !x.isHarness(h.fn) {
		h = h.parent
	}
	if h == nil {
		return nil
	}
	// find the call that follows begin(name)
	for _, b := range h.fn.Blocks {
		on := false
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := c.Common().StaticCallee(); f != nil && strings.HasPrefix(f.Name(), "begin") {
				k, _ := c.Common().Args[0].(*ssa.Const)
				on = k != nil && strings.Trim(k.Value.ExactString(), `"`) == name
				continue
			}
			if on && c.Common().IsInvoke() {
				for k, kid := range h.kids {
					if k.site == in {
						return kid
					}
				}
			}
		}
	}
	return nil
}

// allocReach: what an allocation holds, not counting what it reaches through its allocator.
func allocReach(s *State, a AV, allocator AV) map[*Obj]bool {
	not := map[*Obj]bool{}
	avObjs(allocator, func(o *Obj) { not[o] = true })
	// objects with a map are allocators' tables
	for c, v := range s.mem {
		if p, ok := v.(Ptr); ok && c.o.typ != nil {
			if st, ok := c.o.typ.Underlying().(*types.Struct); ok && st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
						not[c.o] = true
					}
				}
			}
			_ = p
		}
	}
	return reachFrom(s, a, not)
}
