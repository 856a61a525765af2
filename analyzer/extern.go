package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions outside the module.

// pureExterns neither touch memory the module can see nor fail in a way that matters.
var pureExterns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Print": true,
	"fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true,
	"time.Now": true, "time.Since": true, "(time.Time).Sub": true, "(time.Duration).Seconds": true, "(time.Duration).String": true,
	"(time.Time).UnixNano": true, "(time.Time).Unix": true,
	"strings.HasSuffix": true, "strings.HasPrefix": true, "strings.Contains": true, "strings.Join": true, "strings.Repeat": true, "strings.TrimSuffix": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatFloat": true,
	"path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Base": true, "path/filepath.Clean": true,
	"runtime.GOMAXPROCS": true, "runtime.Gosched": true, "runtime.KeepAlive": true, "runtime.GC": true,
	"errors.Is": true, "errors.As": true, "errors.Unwrap": true,
	"os.Getpid": true, "os.Getenv": true, "os.Hostname": true,
	"(*math/rand.Rand).Seed": false,
}

// nondetExterns yield values that differ between runs.
var nondetExterns = map[string]bool{
	"time.Now": true, "time.Since": true, "os.Getpid": true, "os.Getenv": true, "os.Hostname": true,
	"math/rand.Int": true, "math/rand.Intn": true, "math/rand.Float64": true, "math/rand.Uint32": true, "math/rand.Uint64": true, "math/rand.Int63": true, "math/rand.Int31n": true,
	"math/rand.Float32": true, "math/rand.Int63n": true, "math/rand.Perm": true, "math/rand.Shuffle": true,
	"runtime.NumGoroutine": true,
}

// mustTgt: the single target of a pointer.
func single(p AV) (Tgt, bool) {
	q, ok := p.(Ptr)
	if !ok || q.unk || len(q.tg) != 1 {
		return Tgt{}, false
	}
	return q.tg[0], true
}

func cellName(t Tgt) string { return fmt.Sprintf("%d%s", t.o.id, t.path) }

func (x *X) setRes(v ssa.Value, a AV) {
	if v == nil {
		return
	}
	if t, ok := v.Type().(*types.Tuple); ok && t.Len() == 0 {
		return
	}
	x.set(v, a)
}

func (x *X) nonNilErr(sub string) AV {
	id := x.atom("err"+sub, "error")
	delete(x.s.nilf, id)
	x.e.u.info(id).meta = "other"
	return Iface{nk: nnNon, id: id, unk: true}
}
func nilErr() AV { return Iface{nk: nnNil, id: noSym} }

// relevantFailure: does the failure of an I/O operation make the library operation fail? Removing a temporary file is
// best effort; releasing what an index held before is not part of opening, loading or saving.
func relevantFailure(io, op string) bool {
	if strings.HasPrefix(op, "Close") {
		return true
	}
	return io != "Remove" && io != "Munmap" && io != "CloseR"
}

// outcome of an I/O operation: err "" means success, otherwise the kind of the error (a sentinel's name or "other"); soft
// failures (a short read) are not failures of the library operation as such.
type outcome struct {
	err  string
	soft bool
	f    func(n *X) []AV
}

// ioResult splits into success and failure of an I/O operation. good produces the results of success (without the error).
func (x *X) ioResult(in ssa.Instruction, op string, v ssa.Value, good func(n *X) []AV, bad func(n *X) []AV) bool {
	return x.outcomes(in, op, v, []outcome{{f: good}, {err: "other", f: bad}})
}

func (x *X) sentinel(name string) AV {
	a := x.e.freshAV("glob:"+name, nil, types.Universe.Lookup("error").Type(), name).(Iface)
	a.nk = nnNon
	x.e.u.info(a.id).meta = name
	return a
}

func (x *X) outcomes(in ssa.Instruction, op string, v ssa.Value, outs []outcome) bool {
	var alts []*State
	for range outs {
		alts = append(alts, x.s.clone())
	}
	base := x.n * 8
	x.split(alts, func(n *X) bool {
		var vals []AV
		o := outs[n.n-base-1]
		if o.f != nil {
			vals = o.f(n)
		}
		if o.err == "" {
			vals = append(vals, nilErr())
			n.e.emit(&Ev{kind: "io", x: n, in: in, name: op, ok: true})
			n.s.tags["did:"+op] = "1"
		} else {
			if o.err == "other" {
				vals = append(vals, n.nonNilErr(op))
			} else {
				vals = append(vals, n.sentinel(o.err))
			}
			if n.e.cfg.FailIO && n.s.tags["fail"] == "" && relevantFailure(op, n.s.tags["op"]) && !o.soft {
				n.s.tags["fail"] = op + "@" + shortFn(n.ctx.fn)
			}
			n.e.emit(&Ev{kind: "io", x: n, in: in, name: op, ok: false})
		}
		if v != nil {
			if len(vals) == 1 {
				n.setRes(v, vals[0])
			} else {
				n.setRes(v, Agg{fs: vals})
			}
		}
		if k := n.cont; k != "" {
			return n.after(k, in)
		}
		return true
	})
	return false
}

// errKind: the sentinel an error is, "other" for an error that is none, "" if not known.
func (x *X) errKind(a AV) string {
	if f, ok := a.(Iface); ok && f.id != noSym {
		k, _ := x.e.u.info(f.id).meta.(string)
		return k
	}
	return ""
}

// filled: foreign code filled n bytes of a slice; how much of an object has been filled from its start is remembered.
func (x *X) filled(sl Slice, n *Lin) {
	s, u := x.s, x.e.u
	if sl.unk || len(sl.tg) != 1 || n == nil {
		return
	}
	t := sl.tg[0]
	if !t.o.raw || t.off == nil {
		return
	}
	c := Cell{t.o, "#filled"}
	old := u.zero
	if f, ok := s.mem[c].(Int); ok {
		old = f.l
	}
	if s.proveLe(t.off, old) {
		s.mem[c] = Int{u.add(t.off, n)}
	} else if _, ok := s.mem[c]; !ok {
		s.mem[c] = Int{u.zero}
	}
}

func (x *X) ftag(o *Obj) string { return "F" + fmt.Sprint(o.id) }

func (x *X) fileOf(a AV) (*Obj, bool) {
	t, ok := single(a)
	if !ok {
		return nil, false
	}
	return t.o, true
}

func (x *X) newExtern(sub, desc string, t types.Type) (*Obj, AV) {
	at := x.here()
	o := x.e.obj("X:"+x.key(sub), func() *Obj {
		return &Obj{kind: okExtern, typ: t, at: at, desc: desc, tag: desc}
	})
	x.kill(o)
	x.s.mem[Cell{o, liveMark}] = Int{x.e.u.zero}
	id := x.atom("xp"+sub, desc)
	delete(x.s.nilf, id)
	return o, Ptr{tg: []Tgt{{o, "", nil}}, id: id, base: id}
}

func (x *X) extern(in ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, name string, args []AV, v ssa.Value) bool {
	e, s, u := x.e, x.s, x.e.u
	if i := strings.IndexByte(name, '['); i > 0 && name[0] != '(' {
		name = name[:i]
	}
	e.emit(&Ev{kind: "extern", x: x, in: in, name: name, args: args, fn: fn})
	arg := func(i int) AV {
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	flt := func(i int) *Term { return fltOf(u, arg(i)) }
	switch name {
	// ---- sync
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return x.lock(in, arg(0), "W")
	case "(*sync.RWMutex).RLock":
		return x.lock(in, arg(0), "R")
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return x.unlock(in, arg(0), "W")
	case "(*sync.RWMutex).RUnlock":
		return x.unlock(in, arg(0), "R")
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return x.waitGroup(in, name, args)
	// ---- os
	case "os.Create", "os.Open", "os.OpenFile", "os.CreateTemp":
		op := strings.TrimPrefix(name, "os.")
		path := flt(0)
		if op == "CreateTemp" {
			path = u.term("tmpin", flt(0), flt(1))
		}
		e.emit(&Ev{kind: "open", x: x, in: in, name: op, args: args, val: Flt{path}})
		return x.ioResult(in, op, v, func(n *X) []AV {
			o, p := n.newExtern("file", "file", nil)
			n.s.tags[n.ftag(o)] = "open"
			n.s.mem[Cell{o, "#name"}] = Flt{path}
			mode := "w"
			if op == "Open" {
				mode = "r"
			}
			if i, ok := arg(1).(Int); ok && op == "OpenFile" {
				if k, ok := i.l.isConst(); ok && k&3 == 0 {
					mode = "r"
				}
			}
			n.s.mem[Cell{o, "#mode"}] = Flt{u.tstr(mode)}
			if mode == "w" {
				n.s.tags["name:"+u.termStr(path)] = "1"
			}
			return []AV{p}
		}, func(n *X) []AV { return []AV{Ptr{nk: nnNil, id: noSym, base: noSym}} })
	case "os.Rename", "os.Remove", "os.Truncate", "os.WriteFile", "os.MkdirAll", "os.Mkdir", "os.RemoveAll", "os.Link", "os.Symlink":
		op := strings.TrimPrefix(name, "os.")
		e.emit(&Ev{kind: "fsop", x: x, in: in, name: op, args: args})
		return x.ioResult(in, op, v, func(n *X) []AV { return nil }, nil)
	case "os.Stat":
		return x.ioResult(in, "Stat", v, func(n *X) []AV {
			_, p := n.newExtern("fi", "fileinfo", nil)
			return []AV{Iface{alts: nil, unk: true, nk: nnNon, id: p.(Ptr).id}}
		}, func(n *X) []AV { return []AV{nilErr()} })
	case "os.ReadFile":
		return x.ioResult(in, "ReadFile", v, func(n *X) []AV {
			return []AV{n.externBytes("rf", n.natom("rflen", "len"), "filebytes")}
		}, func(n *X) []AV { return []AV{e.zeroAV(types.NewSlice(types.Typ[types.Byte]))} })
	case "(*os.File).Close":
		o, ok := x.fileOf(arg(0))
		st := "?"
		if ok {
			st = s.tags[x.ftag(o)]
			s.tags[x.ftag(o)] = "closed"
		} else {
			e.issue("Close in "+shortFn(x.ctx.fn), "the file being closed is not known")
		}
		mode := ""
		if ok {
			if m, ok := s.mem[Cell{o, "#mode"}].(Flt); ok {
				mode = m.t.s
			}
		}
		e.emit(&Ev{kind: "fclose", x: x, in: in, name: st, args: args})
		if mode == "r" {
			if e.cfg.FailIO {
				return x.ioResult(in, "CloseR", v, nil, nil)
			}
			x.setRes(v, Iface{nk: nnMaybe, id: x.atom("cerr", "error"), unk: true})
			if ifc, ok := x.get2(v).(Iface); ok {
				delete(s.nilf, ifc.id)
			}
			return true
		}
		return x.ioResult(in, "Close", v, nil, nil)
	case "(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).Read", "(*os.File).ReadAt":
		op := strings.TrimPrefix(name, "(*os.File).")
		o, ok := x.fileOf(arg(0))
		st := "?"
		if ok {
			st = s.tags[x.ftag(o)]
		}
		e.emit(&Ev{kind: "fwrite", x: x, in: in, name: op, args: args, val: Flt{u.tstr(st)}})
		if strings.HasPrefix(op, "Read") {
			sl, _ := arg(1).(Slice)
			if sl.ln == nil {
				sl.ln = u.zero
			}
			x.writeBytes(in, sl)
			part := func(n *X) []AV {
				k := u.s(n.natom("n", "n"))
				n.s.addFact(u.sub(k, sl.ln))
				n.filled(sl, k)
				return []AV{Int{k}}
			}
			if op == "ReadAt" {
				return x.outcomes(in, op, v, []outcome{{f: func(n *X) []AV { n.filled(sl, sl.ln); return []AV{Int{sl.ln}} }}, {err: "io.EOF", f: part}, {err: "other", f: part}})
			}
			return x.outcomes(in, op, v, []outcome{{f: part}, {err: "io.EOF", f: func(n *X) []AV { return []AV{Int{u.zero}} }}, {err: "other", f: part}})
		} else if ok {
			s.tags[x.ftag(o)+":dirty"] = "1"
		}
		return x.ioResult(in, op, v, func(n *X) []AV { return []AV{Int{u.s(n.natom("n", "n"))}} },
			func(n *X) []AV { return []AV{Int{u.s(n.natom("n", "n"))}} })
	case "(*os.File).Sync":
		o, ok := x.fileOf(arg(0))
		st := "?"
		if ok {
			st = s.tags[x.ftag(o)]
		}
		e.emit(&Ev{kind: "fsync", x: x, in: in, name: st, args: args})
		if !ok {
			return x.ioResult(in, "Sync", v, nil, nil)
		}
		return x.ioResult(in, "Sync", v, func(n *X) []AV {
			delete(n.s.tags, n.ftag(o)+":dirty")
			return nil
		}, nil)
	case "(*os.File).Truncate", "(*os.File).Chmod", "(*os.File).Seek":
		op := strings.TrimPrefix(name, "(*os.File).")
		e.emit(&Ev{kind: "fwrite", x: x, in: in, name: op, args: args, val: Flt{u.tstr("")}})
		if op == "Seek" {
			return x.ioResult(in, op, v, func(n *X) []AV { return []AV{Int{u.s(n.natom("n", "n"))}} },
				func(n *X) []AV { return []AV{Int{u.s(n.natom("n", "n"))}} })
		}
		return x.ioResult(in, op, v, nil, nil)
	case "(*os.File).Stat":
		return x.ioResult(in, "Stat", v, func(n *X) []AV {
			o, p := n.newExtern("fi", "fileinfo", nil)
			_ = o
			return []AV{Iface{unk: true, nk: nnNon, id: p.(Ptr).id}}
		}, func(n *X) []AV { return []AV{nilErr()} })
	case "(*os.File).Fd":
		x.setRes(v, Int{u.s(x.natom("fd", "fd"))})
		return true
	case "(*os.File).Name":
		if o, ok := x.fileOf(arg(0)); ok {
			if n, ok := s.mem[Cell{o, "#name"}]; ok {
				x.setRes(v, n)
				return true
			}
		}
		x.result(v, nil)
		return true
	case "io.ReadFull", "io.ReadAll", "io.ReadAtLeast":
		if name == "io.ReadAll" {
			return x.ioResult(in, "ReadAll", v, func(n *X) []AV {
				return []AV{n.externBytes("ra", n.natom("ralen", "len"), "filebytes")}
			}, func(n *X) []AV { return []AV{n.externBytes("ra", n.natom("ralen", "len"), "filebytes")} })
		}
		sl, _ := arg(1).(Slice)
		if sl.ln == nil {
			sl.ln = u.zero
		}
		x.writeBytes(in, sl)
		part := func(n *X) []AV {
			k := u.s(n.natom("n", "n"))
			n.s.addFact(u.sub(k, sl.ln))
			n.filled(sl, k)
			return []AV{Int{k}}
		}
		if name == "io.ReadAtLeast" {
			min, _ := arg(2).(Int)
			return x.outcomes(in, "ReadAtLeast", v, []outcome{{f: func(n *X) []AV {
				r := part(n)
				if min.l != nil {
					n.s.addFact(u.sub(min.l, r[0].(Int).l))
				}
				return r
			}}, {err: "io.EOF", f: func(n *X) []AV { return []AV{Int{u.zero}} }}, {err: "io.ErrUnexpectedEOF", soft: true, f: part}, {err: "other", f: part}})
		}
		return x.outcomes(in, "ReadFull", v, []outcome{{f: func(n *X) []AV { n.filled(sl, sl.ln); return []AV{Int{sl.ln}} }},
			{err: "io.EOF", f: func(n *X) []AV {
				n.s.addFact(u.addc(u.scale(sl.ln, -1), 1)) // only if something was to be read
				return []AV{Int{u.zero}}
			}}, {err: "io.ErrUnexpectedEOF", soft: true, f: part}, {err: "other", f: part}})
	case "syscall.Mmap", "golang.org/x/sys/unix.Mmap":
		ln, _ := arg(2).(Int)
		e.emit(&Ev{kind: "mmap", x: x, in: in, args: args, ln: ln.l})
		return x.ioResult(in, "Mmap", v, func(n *X) []AV {
			sl := n.externBytes("mm", 0, "mapping")
			if ln.l != nil {
				sl.ln, sl.cp = ln.l, ln.l
				n.setExt(sl.tg[0].o, ln.l)
				n.s.addFact(u.addc(u.scale(ln.l, -1), 1)) // an empty mapping is refused by the kernel
			}
			n.s.tags["M"+fmt.Sprint(sl.tg[0].o.id)] = "mapped"
			return []AV{sl}
		}, func(n *X) []AV { return []AV{e.zeroAV(types.NewSlice(types.Typ[types.Byte]))} })
	case "syscall.Munmap", "golang.org/x/sys/unix.Munmap":
		sl, _ := arg(0).(Slice)
		st := "?"
		if len(sl.tg) == 1 && !sl.unk {
			k := "M" + fmt.Sprint(sl.tg[0].o.id)
			st = s.tags[k]
			s.tags[k] = "unmapped"
		}
		e.emit(&Ev{kind: "munmap", x: x, in: in, name: st, args: args, sl: sl})
		return x.ioResult(in, "Munmap", v, nil, nil)
	// ---- math
	case "math.Sqrt":
		e.emit(&Ev{kind: "sqrt", x: x, in: in, args: args})
		x.setRes(v, Flt{u.term("sqrt", flt(0))})
		return true
	case "math.Max", "math.Min":
		x.setRes(v, Flt{u.term(strings.ToLower(strings.TrimPrefix(name, "math.")), flt(0), flt(1))})
		return true
	case "math.Abs", "math.Floor", "math.Ceil", "math.Round", "math.Trunc", "math.IsNaN":
		if name == "math.IsNaN" {
			x.setRes(v, Bool{k: 2})
			return true
		}
		x.setRes(v, Flt{u.term(strings.ToLower(strings.TrimPrefix(name, "math.")), flt(0))})
		return true
	case "math.Inf":
		if i, ok := arg(0).(Int); ok {
			if k, ok := i.l.isConst(); ok {
				if k >= 0 {
					x.setRes(v, Flt{u.tconst(math.Inf(1))})
				} else {
					x.setRes(v, Flt{u.tconst(math.Inf(-1))})
				}
				return true
			}
		}
		x.result(v, nil)
		return true
	case "math.Pow", "math.Mod", "math.Hypot", "math.Log", "math.Exp", "math.Acos", "math.Cos", "math.Sin":
		ts := []*Term{}
		for i := range args {
			ts = append(ts, flt(i))
		}
		e.emit(&Ev{kind: "mathfn", x: x, in: in, name: name, args: args})
		x.setRes(v, Flt{u.term(strings.ToLower(strings.TrimPrefix(name, "math.")), ts...)})
		return true
	case "runtime.NumCPU":
		n := x.natom("ncpu", "NumCPU")
		s.addFact(u.addc(u.scale(u.s(n), -1), 1))
		x.setRes(v, Int{u.s(n)})
		return true
	case "fmt.Errorf", "errors.New", "errors.Join":
		x.setRes(v, x.nonNilErr(""))
		return true
	case "os.Exit":
		return false
	// ---- random
	case "math/rand.NewSource":
		a, _ := arg(0).(Int)
		o, p := x.newExtern("src", "randsource", nil)
		s.mem[Cell{o, "#seed"}] = a
		x.setRes(v, Iface{unk: true, nk: nnNon, id: p.(Ptr).id, alts: []Alt{{types.NewPointer(types.Typ[types.Int]), p}}})
		return true
	case "math/rand.New":
		o, p := x.newExtern("rand", "rand", nil)
		if f, ok := arg(0).(Iface); ok && len(f.alts) == 1 {
			if sp, ok := f.alts[0].v.(Ptr); ok && len(sp.tg) == 1 {
				if sd, ok := s.mem[Cell{sp.tg[0].o, "#seed"}]; ok {
					s.mem[Cell{o, "#seed"}] = sd
				}
			}
		}
		x.setRes(v, p)
		return true
	// ---- sorting
	case "sort.Slice", "sort.SliceStable":
		f, _ := arg(0).(Iface)
		return x.sortModel(in, f, arg(1), 2, v)
	case "github.com/jfcg/sorty/v2.SortSlice", "slices.Sort", "sort.Ints", "sort.Float64s":
		a := arg(0)
		if f, ok := a.(Iface); ok && len(f.alts) == 1 {
			a = f.alts[0].v
		}
		sl, ok := a.(Slice)
		e.emit(&Ev{kind: "sort", x: x, in: in, sl: sl, name: name, ok: true})
		if ok {
			x.havocSlice(sl, "sort")
		} else {
			e.issue("sort in "+shortFn(x.ctx.fn), "the sorted slice is not known")
		}
		return true
	case "sort.Sort", "sort.Stable":
		e.emit(&Ev{kind: "sort", x: x, in: in, name: name, args: args})
		if f, ok := arg(0).(Iface); ok && len(f.alts) == 1 {
			switch d := f.alts[0].v.(type) {
			case Slice:
				x.havocSlice(d, "sort")
			case Ptr:
				x.heapMix(f)
			}
		}
		return true
	case "container/heap.Push", "container/heap.Pop", "container/heap.Init", "container/heap.Fix", "container/heap.Remove":
		return x.heapModel(in, strings.TrimPrefix(name, "container/heap."), args, v)
	case "github.com/jfcg/sorty/v2.Sort":
		e.emit(&Ev{kind: "sort", x: x, in: in, name: name, args: args})
		if f, ok := arg(1).(Fun); ok && len(f.fs) == 1 {
			return x.callLess(in, f, 4, v)
		}
		return true
	}
	if strings.HasPrefix(name, "(*math/rand.Rand).") {
		e.emit(&Ev{kind: "draw", x: x, in: in, name: name, args: args})
		r := x.fresh("rnd", v.Type(), "rand")
		if i, ok := r.(Int); ok {
			switch {
			case strings.HasSuffix(name, ").Intn") || strings.HasSuffix(name, "63n") || strings.HasSuffix(name, "31n"):
				if n, ok := arg(1).(Int); ok {
					s.addFact(u.scale(i.l, -1))
					s.addFact(u.addc(u.sub(i.l, n.l), 1))
				}
			default:
				s.addFact(u.scale(i.l, -1))
			}
		}
		x.setRes(v, r)
		return true
	}
	if name == "errors.Is" && x.errKind(arg(0)) != "" && x.errKind(arg(1)) != "" {
		k := int8(2)
		if x.errKind(arg(0)) == x.errKind(arg(1)) && x.errKind(arg(0)) != "other" {
			k = 1
		}
		x.setRes(v, Bool{k: k})
		return true
	}
	if pureExterns[name] {
		if nondetExterns[name] {
			e.emit(&Ev{kind: "nondet", x: x, in: in, name: name, args: args})
		}
		x.result(v, nil)
		if name == "path/filepath.Dir" || name == "path/filepath.Join" {
			ts := []*Term{}
			if name == "path/filepath.Dir" {
				ts = append(ts, flt(0))
				x.setRes(v, Flt{u.term("dir", ts...)})
			}
		}
		return true
	}
	if nondetExterns[name] {
		e.emit(&Ev{kind: "nondet", x: x, in: in, name: name, args: args})
	}
	// synthesised wrappers and methods of foreign types
	e.emit(&Ev{kind: "unknownextern", x: x, in: in, name: name, args: args})
	e.issue("call of "+name+" in "+shortFn(x.ctx.fn), "no model of this function")
	for _, a := range args {
		avObjs(a, func(o *Obj) {
			if o.kind != okExtern {
				x.havocObj(o, "ext")
			}
		})
	}
	x.result(v, nil)
	return true
}

// get2 reads back a value that was just set.
func (x *X) get2(v ssa.Value) AV {
	if v == nil {
		return nil
	}
	return x.s.regs[Reg{x.ctx, v}]
}

func (x *X) externBytes(sub string, ln Sym, desc string) Slice {
	u := x.e.u
	at := x.here()
	o := x.e.obj("X:"+x.key(sub), func() *Obj {
		return &Obj{kind: okExtern, typ: types.Typ[types.Byte], arr: true, raw: true, at: at, desc: desc, tag: desc}
	})
	x.kill(o)
	x.s.mem[Cell{o, liveMark}] = Int{u.zero}
	id := x.atom("xb"+sub, desc)
	delete(x.s.nilf, id)
	var l *Lin
	if ln != 0 {
		l = u.s(ln)
	} else {
		l = u.zero
	}
	x.setExt(o, l)
	return Slice{tg: []Tgt{{o, "", u.zero}}, ln: l, cp: l, base: id}
}

// writeBytes: foreign code fills a byte slice.
func (x *X) writeBytes(in ssa.Instruction, sl Slice) {
	if sl.ln == nil {
		return
	}
	x.e.emit(&Ev{kind: "copy", x: x, in: in, sl: sl, ln: sl.ln, name: "read"})
	if sl.unk {
		x.e.emit(&Ev{kind: "wildstore", x: x, sl: sl, in: in})
	}
	for _, t := range sl.tg {
		if t.o.raw {
			x.rawWrite(t, sl.ln, nil, 0)
		} else {
			x.havocObj(t.o, "read")
		}
	}
}

// ---- sort.Slice and heap: the callbacks are run once on arbitrary arguments ------------------------------------------------

func (x *X) sortModel(in ssa.Instruction, f Iface, less AV, args int, v ssa.Value) bool {
	e, s, u := x.e, x.s, x.e.u
	var sl Slice
	ok := false
	if len(f.alts) == 1 {
		sl, ok = f.alts[0].v.(Slice)
	}
	if !ok {
		e.issue("sort.Slice in "+shortFn(x.ctx.fn), "the sorted slice is not known")
		return true
	}
	e.emit(&Ev{kind: "sort", x: x, in: in, sl: sl, name: "sort.Slice"})
	two := false
	if n, ok := sl.ln.isConst(); ok && n == 2 && e.cfg.SortPair {
		two = true
	} else {
		x.havocSlice(sl, "sort")
	}
	fun, ok := less.(Fun)
	if !ok || len(fun.fs) != 1 {
		e.issue("sort.Slice in "+shortFn(x.ctx.fn), "the comparison is not known")
		return true
	}
	// the comparison is called with indexes within the slice, unless there is nothing to compare
	i, j := u.s(x.natom("si", "i")), u.s(x.natom("sj", "j"))
	if two {
		i, j = u.zero, u.k(1)
	}
	none := s.clone()
	x.s.addFact(u.addc(u.sub(i, sl.ln), 1))
	x.s.addFact(u.addc(u.sub(j, sl.ln), 1))
	_ = none
	if x.s.dead {
		x.s = none
		return true
	}
	alts := []*State{x.s, none}
	base := x.n * 8
	cl := callee{fn: fun.fs[0].fn, binds: fun.fs[0].binds, args: []AV{Int{i}, Int{j}}}
	x.split(alts, func(n *X) bool {
		if n.n == base+1 {
			return n.invoke(in, nil, cl, nil, "callback")
		}
		if n.cont != "" {
			return n.after(n.cont, in)
		}
		return true
	})
	return false
}

func (x *X) callLess(in ssa.Instruction, fun Fun, nargs int, v ssa.Value) bool {
	u := x.e.u
	var as []AV
	for k := 0; k < nargs; k++ {
		as = append(as, Int{u.s(x.natom(fmt.Sprintf("cl%d", k), "i"))})
	}
	return x.invoke(in, nil, callee{fn: fun.fs[0].fn, binds: fun.fs[0].binds, args: as}, nil, "callback")
}

func (x *X) heapModel(in ssa.Instruction, op string, args []AV, v ssa.Value) bool {
	e := x.e
	h, ok := args[0].(Iface)
	if !ok || len(h.alts) != 1 || h.unk {
		e.issue("heap."+op+" in "+shortFn(x.ctx.fn), "the heap is not known")
		x.result(v, nil)
		return true
	}
	e.emit(&Ev{kind: "heap", x: x, in: in, name: op, args: args})
	mname := map[string]string{"Push": "Push", "Pop": "Pop", "Remove": "Pop"}[op]
	if mname == "" {
		x.heapMix(h)
		return true
	}
	m := e.p.method(h.alts[0].t, mname)
	if m == nil {
		e.issue("heap."+op, "no method "+mname)
		return true
	}
	as := []AV{h.alts[0].v}
	if op == "Push" {
		as = append(as, args[1])
	} else {
		x.heapMix(h)
	}
	var res ssa.Value
	if op != "Push" {
		res = v
	}
	return x.invoke(in, nil, callee{fn: m, args: as}, res, "callback"+op)
}

// heapMix: the elements of the heap may have been exchanged.
func (x *X) heapMix(h Iface) {
	p, ok := h.alts[0].v.(Ptr)
	if !ok {
		return
	}
	el := elemOf(h.alts[0].t)
	if el == nil {
		return
	}
	if _, ok := el.Underlying().(*types.Slice); !ok {
		return
	}
	for _, t := range p.tg {
		if sl, ok := x.loadT(t, el).(Slice); ok {
			x.havocSlice(sl, "heap")
		}
	}
}

// unknownInvoke models method calls on interfaces of the standard library.
func (x *X) unknownInvoke(in ssa.Instruction, c *ssa.CallCommon, v ssa.Value, args []AV) (cont, done bool) {
	u := x.e.u
	name := c.Method.Name()
	pkg := ""
	if c.Method.Pkg() != nil {
		pkg = c.Method.Pkg().Path()
	}
	switch {
	case name == "Error" && isErrorType(c.Value.Type()):
		x.result(v, nil)
		return true, true
	case pkg == "io/fs" || pkg == "os":
		if name == "Size" {
			// the size of a file does not change while it is being loaded
			f, ok := x.get(c.Value).(Iface)
			if !ok || f.id == noSym {
				break
			}
			sy := u.opSym("fsize", nil, u.s(f.id))
			inf := u.info(sy)
			inf.hasLo, inf.lo = true, 0
			x.setRes(v, Int{u.s(sy)})
			return true, true
		}
		x.result(v, nil)
		return true, true
	case name == "Write" && pkg == "io":
		x.result(v, nil)
		return true, true
	}
	return false, false
}
