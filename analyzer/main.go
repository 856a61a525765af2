package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	prop := flag.String("property", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("evidence", "/verif/evidence", "directory of the evidence files")
	dbg := flag.String("dbg", "", "harness to run in debug mode")
	tv := flag.String("tv", "float32", "")
	tix := flag.String("tix", "uint32", "")
	evs := flag.String("ev", "", "print events of this kind")
	st := flag.Bool("st", false, "")
	back := flag.Bool("panicback", false, "")
	failio := flag.Bool("failio", false, "")
	dotp := flag.Bool("dot", false, "")
	prof := flag.String("prof", "", "")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *prop != "" {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		rc := 0
		for _, id := range strings.Split(*prop, ",") {
			c := checks[id]
			if c == nil {
				fmt.Fprintln(os.Stderr, "unknown property", id)
				os.Exit(2)
			}
			if r := runCheck(c, *repo, *tier, *out, seed); r > rc {
				rc = r
			}
		}
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	t0 := time.Now()
	p, err := Load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintln(os.Stderr, "loaded", len(p.funcs), "functions in", time.Since(t0))
	if *dbg != "" {
		var fn *ssa.Function
		if fn = p.instance(driverDir, *dbg, *tv, *tix); fn == nil {
			fn = p.pkgs[driverDir].Func(*dbg)
		}
		e := newEngine(p, newUniv(), Config{PanicBack: *back, FailIO: *failio, Dot: *dotp, FltPaths: *dotp, FloatRel: *dotp})
		e.debug = true
		kinds := map[string]int{}
		e.obs = append(e.obs, func(ev *Ev) {
			kinds[ev.kind]++
			if v := os.Getenv("VREL"); v != "" && (ev.kind == "call" || ev.kind == "return" || ev.kind == "recurse" || ev.kind == "recursed") {
				for _, iv := range e.templ {
					if strings.Contains(iv.key(), v) {
						l := e.invLin(ev.x.s, iv)
						good := len(l) > 0
						for _, f := range l {
							good = good && ev.x.s.prove(f)
						}
						if !good {
							fmt.Println("REL", ev.kind, ev.name, callPath(ev.x.ctx), p.pos(ev.in.Pos()), iv.key(), len(l), e.u.avStr(ev.x.s.mem[iv.b]))
						}
					}
				}
			}
			if ev.kind == *evs && *st {
				fmt.Println("STATE", ev.name, ev.x.s.String())
			}
			if ev.kind == *evs {
				fmt.Println(ev.kind, ev.name, shortFn(ev.x.ctx.fn), p.pos(ev.in.Pos()), ev.args)
			}
		})
		err := e.analyse(fn)
		fmt.Println("err:", err)
		for _, iv := range e.inter.invs {
			fmt.Println("INV", iv.kind, iv.a.path, iv.b.path, iv.k.path)
		}
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Print(k, "=", kinds[k], " ")
		}
		fmt.Println()
		for k, v := range e.issues {
			fmt.Println("ISSUE", k, v)
		}
	}
}
