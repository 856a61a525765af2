package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the state that Load replaces.

var loadCfg = Config{PanicBack: true, FailIO: true, MaxDisj: 3000, Ghost: ghostLoad}

func init() {
	register(&Check{
		id: "C29",
		uses: append(searchUses(observeC29),
			HarnessUse{name: "hLifeMmap", generic: true, cfg: loadCfg, observe: observeC29},
			HarnessUse{name: "hLifeFile", generic: true, cfg: loadCfg, observe: observeC29}),
		final: finalC29,
		min:   map[string]int{"a successful load sets the field": 1, "the old value is not used": 1, "a successful load sets it from the file": 1},
		expl:  "Effect analysis: the fields of the index that any search operation reads and that any operation after New writes are the search state; on every path of Load that returns nil (index in any state before, file of any content) each of them is stored during that Load, with a value that does not stem from the field's old value, and storage and counts are derived from the file opened by it.",
	})
}

// ghostLoad notes which fields of the index an operation has stored.
func ghostLoad(ev *Ev) {
	x, s := ev.x, ev.x.s
	if ev.kind != "store" || s.tags["op"] == "" || x.isHarness(x.ctx.fn) {
		return
	}
	if t, ok := single(ev.ptr); ok {
		if idx := theIndex(s); idx != nil && t.o == idx {
			s.tags["did:set:"+t.path] = "1"
		}
	}
}

type c29data struct {
	read, written map[string]string
	set           map[string]map[string]string // field -> "" or why
	paths         map[string]bool
}

func c29of(m map[string]any) *c29data {
	d, _ := m["c29"].(*c29data)
	if d == nil {
		d = &c29data{map[string]string{}, map[string]string{}, map[string]map[string]string{}, map[string]bool{}}
		m["c29"] = d
	}
	return d
}

// harmless: the value is only compared, tested for nil or printed, or cut to an empty slice.
func harmless(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		switch r := in.(type) {
		case *ssa.If, *ssa.DebugRef:
		case *ssa.BinOp:
			switch r.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				return false
			}
		case *ssa.UnOp:
			if r.Op != token.NOT {
				return false
			}
		case *ssa.Slice:
			c, ok := r.High.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.String() != "0" {
				return false
			}
		case *ssa.MakeInterface:
		case *ssa.Call:
			b, ok := r.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func observeC29(r *Run) func(*Ev) {
	search := strings.HasPrefix(r.harness, "hSearch")
	return func(ev *Ev) {
		x, s := ev.x, ev.x.s
		op := opName(s.tags["op"])
		if op == "" {
			return
		}
		idx := theIndex(s)
		if search {
			idx = opIndex(s)
		}
		if idx == nil {
			return
		}
		switch ev.kind {
		case "load":
			for _, t := range ev.ptr.tg {
				if t.o != idx || x.isHarness(x.ctx.fn) {
					continue
				}
				if search {
					r.res.share(func(m map[string]any) { c29of(m).read[t.path] = shortFn(x.ctx.fn) })
				} else if op == "Load" && s.tags["did:set:"+t.path] == "" {
					v, ok := ev.in.(ssa.Value)
					if ok && harmless(v) {
						continue
					}
					r.res.share(func(m map[string]any) {
						d := c29of(m)
						if d.set[t.path] == nil {
							d.set[t.path] = map[string]string{}
						}
						d.set[t.path]["old "+shortFn(x.ctx.fn)] = r.at(ev)
					})
				}
			}
		case "store":
			if search || x.isHarness(x.ctx.fn) {
				return
			}
			for _, t := range ev.ptr.tg {
				if t.o == idx {
					r.res.share(func(m map[string]any) { c29of(m).written[t.path] = shortFn(x.ctx.fn) })
				}
			}
		case "result":
			if op != "Load" || search || ev.name != s.tags["op"] || s.tags["panicked"] != "" || s.nilOf(ev.args[0]) == 2 {
				return
			}
			if s.nilOf(ev.args[0]) != 1 {
				r.res.fail("success or failure of Load is not known")
				return
			}
			r.res.share(func(m map[string]any) {
				d := c29of(m)
				d.paths[s.tags["hist"]] = true
				for _, l := range leaves(idx.typ) {
					k := "set"
					if s.tags["did:set:"+l.path] == "" {
						k = "unset"
					}
					if d.set[l.path] == nil {
						d.set[l.path] = map[string]string{}
					}
					d.set[l.path][k] = "with an index that was " + s.tags["hist"]
					why := ""
					switch v := cellVal(s, idx, l.path).(type) {
					case Int:
						if c, ok := v.l.isConst(); ok {
							why = fmt.Sprintf("it is %d whatever the file contains", c)
						}
					case Ptr:
						for _, t := range v.tg {
							o := baseObj(t.o)
							if !(fileData(o) || s.mem[Cell{t.o, "#filled"}] != nil) || !inOp0(x, o, ev) {
								why = "it may point to " + x.e.originOf(t.o)
							}
						}
						if len(v.tg) == 0 || v.unk {
							why = "it is not known where it points"
						}
					case Bool:
						if v.k != 1 {
							why = "it is not set"
						}
					default:
						continue
					}
					if why != "" {
						d.set[l.path]["value"] = why
					} else {
						d.set[l.path]["good"] = "1"
					}
				}
			})
		}
	}
}

func finalC29(res *Result) {
	d := c29of(res.shared)
	for _, h := range []string{"new", "items", "built", "loaded", "closed", "unloaded"} {
		if !d.paths[h] {
			res.fail("no successful Load of an index that was " + h + " was analysed")
		}
	}
	var ks []string
	for k := range d.read {
		if d.written[k] != "" {
			ks = append(ks, k)
		}
	}
	for _, k := range []string{".indexBuilt", ".indexLoaded"} {
		if d.read[k] == "" && d.written[k] != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := d.set[k]
		res.add("a successful load sets the field", k, m["set"] != "" && m["unset"] == "", "Load may return nil without having set it, "+m["unset"])
		old := ""
		for q, at := range m {
			if strings.HasPrefix(q, "old ") {
				old = at
			}
		}
		res.add("the old value is not used", k, old == "", "Load uses the value from before the load in "+old)
		if m["value"] != "" || m["good"] != "" {
			res.add("a successful load sets it from the file", k, m["value"] == "", m["value"])
		}
	}
}
