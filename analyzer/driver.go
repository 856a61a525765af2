package main

// driverCode is a package that only exists for the analysis (it is laid over the repository when the source is loaded).
// Its functions are the entry points of the analysis: most general clients of the library. The bodies of the functions in
// the first block are never looked at; calls of them mean "any value" and "assume".
const driverCode = `package main

import (
	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	"github.com/mariotoffia/goannoy/sort"
	"github.com/mariotoffia/goannoy/utils"
	"github.com/mariotoffia/goannoy/vector"
	"unsafe"
)

func anyBool() bool                               { return false }
func anyInt() int                                 { return 0 }
func anyIX[T interfaces.IndexTypes]() (r T)       { return }
func anyFloat[T interfaces.VectorType]() (r T)    { return }
func anyString() string                           { return "" }
func anyVec[T interfaces.VectorType]() (r []T)    { return }
func anyIDs[T interfaces.IndexTypes]() (r []T)    { return }
func assume(b bool)                               {}
func mark(s string)                               {}
func unmark(s string)                             {}
func begin(op string)                             {}
func target(s string)                             {}
func end(op string)                               {}
func result(op string, v ...any)                  {}
func state(s string, v any)                       {}
func keep(v ...any)                               {}
func pin(v any)                                   {}

// ---- components ----

func dist[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot bool) interfaces.Distance[TV, TIX] {
	n := anyIX[TIX]()
	assume(n >= 1)
	assume(n <= 1<<20)
	if dot {
		return dotproduct.Distance[TV, TIX](n)
	}
	return angular.Distance[TV, TIX](n)
}

func pol(multi bool) interfaces.AnnoyIndexBuildPolicy {
	if multi {
		return policy.MultiWorker()
	}
	return policy.SingleWorker()
}

func mem(file bool) interfaces.IndexAllocator {
	if file {
		return memory.FileIndexMemoryAllocator()
	}
	return memory.MmapIndexAllocator()
}

// nopPolicy builds no tree: the life of an index does not depend on what is built.
type nopPolicy struct{}

func (nopPolicy) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {}
func (nopPolicy) LockNNodes()                                                 {}
func (nopPolicy) UnlockNNodes()                                               {}
func (nopPolicy) LockNodes()                                                  {}
func (nopPolicy) UnlockNodes()                                                {}
func (nopPolicy) LockSharedNodes()                                            {}
func (nopPolicy) UnlockSharedNodes()                                          {}
func (nopPolicy) LockRoots()                                                  {}
func (nopPolicy) UnlockRoots()                                                {}

// ---- building ----

func hBuild[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot, multi, verbose bool) {
	idx := index.New[TV, TIX](
		random.NewKiss32Random[TIX](anyIX[TIX]()), dist[TV, TIX](dot), pol(multi), memory.GoGCIndexAllocator(),
		mem(false), nil, verbose, anyIX[TIX](),
	)
	mark("new")
	for anyBool() {
		idx.AddItem(anyIX[TIX](), anyVec[TV]())
	}
	mark("build")
	trees, workers := anyInt(), anyInt()
	assume(workers >= -1)
	idx.Build(trees, workers)
	mark("built")
}

func hBuildAngularSingle[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hBuild[TV, TIX](false, false, false) }
func hBuildAngularMulti[TV interfaces.VectorType, TIX interfaces.IndexTypes]()  { hBuild[TV, TIX](false, true, false) }
func hBuildDotSingle[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hBuild[TV, TIX](true, false, false) }
func hBuildDotMulti[TV interfaces.VectorType, TIX interfaces.IndexTypes]()      { hBuild[TV, TIX](true, true, false) }
func hBuildVerbose[TV interfaces.VectorType, TIX interfaces.IndexTypes]()       { hBuild[TV, TIX](false, true, true) }

// ---- the shape of the trees ----

// anyDist splits nodes in any way.
type anyDist[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	realDist[TV, TIX]
}

type realDist[TV interfaces.VectorType, TIX interfaces.IndexTypes] interface {
	interfaces.Distance[TV, TIX]
}

func (d anyDist[TV, TIX]) PreProcess(nodes unsafe.Pointer, n TIX) {}

func (d anyDist[TV, TIX]) CreateSplit(children []interfaces.Node[TV, TIX], size TIX, rnd interfaces.Random[TIX], m interfaces.Node[TV, TIX]) {
}

func (d anyDist[TV, TIX]) Side(m interfaces.Node[TV, TIX], v []TV, rnd interfaces.Random[TIX]) interfaces.Side {
	if anyBool() {
		return interfaces.SideLeft
	}
	return interfaces.SideRight
}

func hTree[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot, multi bool) {
	idx := index.New[TV, TIX](
		random.NewKiss32Random[TIX](anyIX[TIX]()), anyDist[TV, TIX]{dist[TV, TIX](dot)}, pol(multi), memory.GoGCIndexAllocator(),
		mem(false), nil, false, anyIX[TIX](),
	)
	mark("new")
	for anyBool() {
		idx.AddItem(anyIX[TIX](), anyVec[TV]())
	}
	mark("build")
	trees, workers := anyInt(), anyInt()
	assume(workers >= -1)
	idx.Build(trees, workers)
	mark("built")
}

// ---- an item that is added and read ----

func hItem[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot bool) {
	idx := index.New[TV, TIX](
		random.NewKiss32Random[TIX](anyIX[TIX]()), dist[TV, TIX](dot), nopPolicy{}, memory.GoGCIndexAllocator(),
		mem(false), nil, anyBool(), anyIX[TIX](),
	)
	pin(idx)
	for anyBool() {
		idx.AddItem(anyIX[TIX](), anyVec[TV]())
	}
	i, v := anyIX[TIX](), anyVec[TV]()
	begin("AddItem")
	result("Adding", i, v)
	idx.AddItem(i, v)
	end("AddItem")
	if anyBool() {
		idx.Build(anyInt(), anyInt())
	}
	begin("GetItem")
	w := idx.GetItem(i)
	result("Got", w)
	end("GetItem")
}

func hItemAngular[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hItem[TV, TIX](false) }
func hItemDot[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hItem[TV, TIX](true) }

// hRoots: as hTree, with a number of trees that is asked for.
func hRoots[TV interfaces.VectorType, TIX interfaces.IndexTypes](multi, auto bool) {
	idx := index.New[TV, TIX](
		random.NewKiss32Random[TIX](anyIX[TIX]()), anyDist[TV, TIX]{dist[TV, TIX](false)}, pol(multi), memory.GoGCIndexAllocator(),
		mem(false), nil, false, anyIX[TIX](),
	)
	pin(idx)
	mark("new")
	for anyBool() {
		idx.AddItem(anyIX[TIX](), anyVec[TV]())
	}
	mark("build")
	trees, workers := anyInt(), anyInt()
	assume(workers >= -1)
	assume(trees >= 0)
	if auto {
		trees = -1
	}
	idx.Build(trees, workers)
	mark("built")
}

func hRootsSingle[TV interfaces.VectorType, TIX interfaces.IndexTypes]()    { hRoots[TV, TIX](false, false) }
func hRootsMulti[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hRoots[TV, TIX](true, false) }
func hRootsMultiAuto[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hRoots[TV, TIX](true, true) }

func hTreeAngularSingle[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hTree[TV, TIX](false, false) }
func hTreeAngularMulti[TV interfaces.VectorType, TIX interfaces.IndexTypes]()  { hTree[TV, TIX](false, true) }
func hTreeDotSingle[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hTree[TV, TIX](true, false) }

// constSide puts everything on one side.
type constSide[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	realDist[TV, TIX]
	side interfaces.Side
}

func (d constSide[TV, TIX]) PreProcess(nodes unsafe.Pointer, n TIX) {}

func (d constSide[TV, TIX]) CreateSplit(children []interfaces.Node[TV, TIX], size TIX, rnd interfaces.Random[TIX], m interfaces.Node[TV, TIX]) {
	result("Split", m)
}

func (d constSide[TV, TIX]) Side(m interfaces.Node[TV, TIX], v []TV, rnd interfaces.Random[TIX]) interfaces.Side {
	result("Sided", m, unsafe.SliceData(v))
	return d.side
}

// constRandom draws one side only.
type constRandom[TIX interfaces.IndexTypes] struct {
	side interfaces.Side
}

func (r *constRandom[TIX]) Next() TIX           { return anyIX[TIX]() }
func (r *constRandom[TIX]) NextSide() interfaces.Side { return r.side }
func (r *constRandom[TIX]) NextIndex(n TIX) TIX {
	i := anyIX[TIX]()
	assume(i < n)
	return i
}
func (r *constRandom[TIX]) SetSeed(seed TIX)                        {}
func (r *constRandom[TIX]) GetSeed() TIX                            { return 0 }
func (r *constRandom[TIX]) CloneAndReset() interfaces.Random[TIX] { return r }

func hSide[TV interfaces.VectorType, TIX interfaces.IndexTypes](side interfaces.Side) {
	idx := index.New[TV, TIX](
		&constRandom[TIX]{side}, constSide[TV, TIX]{dist[TV, TIX](false), side}, pol(false), memory.GoGCIndexAllocator(),
		mem(false), nil, false, anyIX[TIX](),
	)
	mark("new")
	for anyBool() {
		idx.AddItem(anyIX[TIX](), anyVec[TV]())
	}
	mark("build")
	trees, workers := anyInt(), anyInt()
	assume(workers >= -1)
	idx.Build(trees, workers)
	mark("built")
}

func hSideLeft()  { hSide[float32, uint32](interfaces.SideLeft) }
func hSideRight() { hSide[float64, uint64](interfaces.SideRight) }

// ---- life of an index ----

// hLife: an index in each of its states (new, with items, built, loaded, after a failed load) is closed or not, and then
// undergoes each operation, followed by a Close.
func hLife[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot, file bool) {
	idx := index.New[TV, TIX](
		random.NewKiss32Random[TIX](anyIX[TIX]()), dist[TV, TIX](dot), nopPolicy{}, memory.GoGCIndexAllocator(),
		mem(file), nil, false, anyIX[TIX](),
	)
	state("new", idx)
	if anyBool() {
		for anyBool() {
			begin("AddItem0")
			state("pre", idx)
			v := anyVec[TV]()
			result("args", idx, nil, len(v))
			idx.AddItem(anyIX[TIX](), v)
			end("AddItem0")
		}
		state("items", idx)
		if anyBool() {
			begin("Build0")
			state("pre", idx)
			idx.Build(anyInt(), anyInt())
			state("built", idx)
			end("Build0")
		}
	} else if anyBool() {
		begin("Load0")
		state("pre", idx)
		err := idx.Load(anyString())
		result("Load0", err)
		if err == nil {
			state("loaded", idx)
		} else {
			state("unloaded", idx)
		}
		end("Load0")
	}
	if anyBool() {
		begin("Close0")
		state("pre", idx)
		err := idx.Close()
		result("Close0", err)
		state("closed", idx)
		end("Close0")
	}

	if anyBool() {
		begin("AddItem")
		state("pre", idx)
		v := anyVec[TV]()
		result("args", idx, nil, len(v))
		idx.AddItem(anyIX[TIX](), v)
		end("AddItem")
	} else if anyBool() {
		begin("Build")
		state("pre", idx)
		idx.Build(anyInt(), anyInt())
		end("Build")
	} else if anyBool() {
		begin("Save")
		state("pre", idx)
		fn := anyString()
		target(fn)
		err := idx.Save(fn)
		result("Save", err)
		end("Save")
	} else if anyBool() {
		begin("Load")
		state("pre", idx)
		err := idx.Load(anyString())
		result("Load", err)
		end("Load")
	} else {
		begin("Close")
		state("pre", idx)
		err := idx.Close()
		result("Close", err)
		end("Close")
	}
	state("after", idx)
	begin("Close2")
	state("pre", idx)
	err := idx.Close()
	result("Close2", err)
	state("closed", idx)
	end("Close2")
}

// hOpen: allocations of an index allocator.
func hOpen(file bool) {
	a := mem(file)
	begin("Open1")
	m1, err1 := a.Open(anyString())
	result("Open1", err1, m1)
	end("Open1")
	begin("Open2")
	m2, err2 := a.Open(anyString())
	result("Open2", err2, m2)
	end("Open2")
	if err2 == nil {
		begin("CloseM2")
		err := m2.Close()
		result("CloseM2", err)
		end("CloseM2")
	}
	if err1 == nil {
		begin("CloseM1")
		err := m1.Close()
		result("CloseM1", err)
		end("CloseM1")
		begin("CloseM1b")
		err = m1.Close()
		result("CloseM1b", err)
		end("CloseM1b")
	}
}

func hOpenMmap() { hOpen(false) }
func hOpenFile() { hOpen(true) }

func hLifeMmap[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hLife[TV, TIX](false, false) }
func hLifeFile[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hLife[TV, TIX](true, true) }

// ---- searching ----

func hSearch[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot bool) {
	idx := index.New[TV, TIX](
		random.NewKiss32Random[TIX](anyIX[TIX]()), dist[TV, TIX](dot), pol(false), memory.GoGCIndexAllocator(),
		mem(false), nil, false, anyIX[TIX](),
	)
	if idx.Load(anyString()) != nil {
		return
	}
	// the context may come from any index
	other := index.New[TV, TIX](
		random.NewKiss32Random[TIX](anyIX[TIX]()), dist[TV, TIX](dot), nopPolicy{}, memory.GoGCIndexAllocator(),
		mem(false), nil, false, anyIX[TIX](),
	)
	if other.Load(anyString()) != nil {
		return
	}
	ctx := other.CreateContext()
	mark("search")
	for anyBool() {
		if anyBool() {
			v, k, n := anyVec[TV](), anyInt(), anyInt()
			begin("GetNnsByVector")
			result("args", idx, ctx, len(v), k)
			r, d := idx.GetNnsByVector(v, k, n, ctx)
			result("Nns", r, d)
			end("GetNnsByVector")
		} else if anyBool() {
			i, k, n := anyIX[TIX](), anyInt(), anyInt()
			begin("GetNnsByItem")
			result("args", idx, ctx, int(i), k)
			r, d := idx.GetNnsByItem(i, k, n, ctx)
			result("Nns", r, d)
			end("GetNnsByItem")
		} else if anyBool() {
			i, j := anyIX[TIX](), anyIX[TIX]()
			begin("GetDistance")
			result("args", idx, ctx, int(i), int(j))
			d := idx.GetDistance(i, j)
			result("Distance", d)
			end("GetDistance")
		} else if anyBool() {
			i := anyIX[TIX]()
			begin("GetItem")
			result("args", idx, ctx, int(i))
			v := idx.GetItem(i)
			result("Item", v)
			end("GetItem")
		} else {
			begin("CreateContext")
			result("args", idx, ctx)
			c := idx.CreateContext()
			result("Context", c)
			end("CreateContext")
		}
	}
}

func hSearchAngular[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hSearch[TV, TIX](false) }
func hSearchDot[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hSearch[TV, TIX](true) }

// ---- what a search does with the numbers of the distance ----

// anyNumbers is a distance that may report anything.
type anyNumbers[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	realDist[TV, TIX]
}

func (d anyNumbers[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	r := anyFloat[TV]()
	result("Margin", r, n, unsafe.SliceData(y))
	return r
}

func (d anyNumbers[TV, TIX]) PQDistance(b, m TV, side interfaces.Side) TV {
	r := anyFloat[TV]()
	result("Bound", r, b, m, int(side))
	return r
}

func (d anyNumbers[TV, TIX]) PQInitialValue() TV {
	r := anyFloat[TV]()
	result("Initial", r)
	return r
}

func (d anyNumbers[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	r := anyFloat[TV]()
	result("Far", r, x, y)
	return r
}

func (d anyNumbers[TV, TIX]) NormalizedDistance(v TV) TV {
	r := anyFloat[TV]()
	result("Shown", r, v)
	return r
}

func (d anyNumbers[TV, TIX]) InitNode(n interfaces.Node[TV, TIX]) {
	result("Init", n)
}

// anySorter orders lists in some way.
type anySorter[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct{}

func (anySorter[TV, TIX]) SortSlice(s []TIX) {
	for anyBool() {
		i := anyInt()
		assume(i >= 0)
		assume(i < len(s))
		s[i] = anyIX[TIX]()
	}
	result("Sorted", unsafe.SliceData(s), len(s))
}

func (anySorter[TV, TIX]) SortPairs(s []*interfaces.Pair[TV, TIX]) {
	anySorter[TV, TIX]{}.PartialSortSlice(s, 0, len(s), len(s))
}

func (anySorter[TV, TIX]) PartialSortSlice(s interfaces.Pairs[TV, TIX], begin, middle, end int) {
	for anyBool() {
		i, j := anyInt(), anyInt()
		assume(i >= 0)
		assume(i < len(s))
		assume(j >= 0)
		assume(j < len(s))
		s[i], s[j] = s[j], s[i]
	}
	result("Ranked", unsafe.SliceData(s), begin, middle, end)
}

func hRank[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot bool) {
	d := anyNumbers[TV, TIX]{dist[TV, TIX](dot)}
	idx := index.New[TV, TIX](
		random.NewKiss32Random[TIX](anyIX[TIX]()), d, pol(false), memory.GoGCIndexAllocator(),
		mem(false), anySorter[TV, TIX]{}, false, anyIX[TIX](),
	)
	if idx.Load(anyString()) != nil {
		return
	}
	ctx := idx.CreateContext()
	own := make([]byte, int(d.NodeSize()))
	m := d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(own)), 0)
	result("slots", m, m.GetRawChildren(), m.GetRawVector())
	mark("search")
	for anyBool() {
		if anyBool() {
			v, k, n := anyVec[TV](), anyInt(), anyInt()
			assume(k >= 0)
			begin("GetNnsByVector")
			result("asked", unsafe.SliceData(v), k, n)
			r, f := idx.GetNnsByVector(v, k, n, ctx)
			result("Nns", r, f)
			end("GetNnsByVector")
		} else {
			i, j := anyIX[TIX](), anyIX[TIX]()
			begin("GetDistance")
			r := idx.GetDistance(i, j)
			result("Distance", r, int(i), int(j))
			end("GetDistance")
		}
	}
}

func hRankAngular[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hRank[TV, TIX](false) }
func hRankDot[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hRank[TV, TIX](true) }

// ---- distances ----

// hDist: every operation of a distance on nodes with arbitrary contents.
func hDist[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot bool) {
	d := dist[TV, TIX](dot)
	var rnd interfaces.Random[TIX] = random.NewKiss32Random[TIX](anyIX[TIX]())
	n := anyIX[TIX]()
	assume(n >= 2)
	mem := make([]byte, int(n)*int(d.NodeSize()))
	ptr := unsafe.Pointer(unsafe.SliceData(mem))
	var nodes []interfaces.Node[TV, TIX]
	for i := TIX(0); i < n; i++ {
		nodes = append(nodes, d.MapNodeToMemory(ptr, i))
	}
	own := make([]byte, int(d.NodeSize()))
	m := d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(own)), 0)
	i, j := anyInt(), anyInt()
	assume(i >= 0)
	assume(j >= 0)
	assume(i < len(nodes))
	assume(j < len(nodes))
	assume(len(nodes) >= 2)
	x, y := nodes[i], nodes[j]
	v := anyVec[TV]()
	assume(TIX(len(v)) == d.VectorLength())
	if anyBool() {
		begin("Distance")
		r := d.Distance(x, y)
		result("Distance", x, y, r)
		begin("NormalizedDistance")
		nd := d.NormalizedDistance(r)
		result("NormalizedDistance", r, nd)
		end("NormalizedDistance")
	} else if anyBool() {
		begin("NormalizedDistance")
		f := anyFloat[TV]()
		nd := d.NormalizedDistance(f)
		result("NormalizedDistance", f, nd)
		end("NormalizedDistance")
	} else if anyBool() {
		begin("Side")
		s := d.Side(m, v, rnd)
		result("Side", m, v, int(s))
		end("Side")
	} else if anyBool() {
		begin("Margin")
		r := d.Margin(m, v)
		result("Margin", m, v, r)
		end("Margin")
	} else if anyBool() {
		begin("PQDistance")
		a, b := anyFloat[TV](), anyFloat[TV]()
		if anyBool() {
			r := d.PQDistance(a, b, interfaces.SideLeft)
			result("PQLeft", a, b, r)
		} else {
			r := d.PQDistance(a, b, interfaces.SideRight)
			result("PQRight", a, b, r)
		}
		end("PQDistance")
	} else if anyBool() {
		begin("PQInitialValue")
		r := d.PQInitialValue()
		result("PQInitialValue", r)
		end("PQInitialValue")
	} else if anyBool() {
		begin("CreateSplit")
		d.CreateSplit(nodes, d.NodeSize(), rnd, m)
		end("CreateSplit")
	} else if anyBool() {
		begin("Normalize")
		d.Normalize(m)
		end("Normalize")
	} else if anyBool() {
		begin("InitNode")
		d.InitNode(m)
		end("InitNode")
	} else {
		begin("PreProcess")
		d.PreProcess(ptr, n)
		end("PreProcess")
	}
}

func hDistAngular[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hDist[TV, TIX](false) }
func hDistDot[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hDist[TV, TIX](true) }

// sideRandom says when a side is drawn.
type sideRandom[TIX interfaces.IndexTypes] struct {
	interfaces.Random[TIX]
}

func (r sideRandom[TIX]) NextSide() interfaces.Side {
	mark("drawn")
	if anyBool() {
		return interfaces.SideLeft
	}
	return interfaces.SideRight
}

// hConv: the conventions of a distance, on nodes with arbitrary contents.
func hConv[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot bool) {
	d := dist[TV, TIX](dot)
	n, i, j := anyIX[TIX](), anyIX[TIX](), anyIX[TIX]()
	assume(n >= 2)
	assume(i < n)
	assume(j < n)
	mem := make([]byte, int(n)*int(d.NodeSize()))
	ptr := unsafe.Pointer(unsafe.SliceData(mem))
	x, y := d.MapNodeToMemory(ptr, i), d.MapNodeToMemory(ptr, j)
	v := anyVec[TV]()
	assume(TIX(len(v)) == d.VectorLength())
	if anyBool() {
		begin("Distance")
		r := d.Distance(x, y)
		q := d.Distance(y, x)
		p := vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), d.VectorLength())
		result("Distance", r, q, p, d.NormalizedDistance(r))
		end("Distance")
	} else if anyBool() {
		begin("NormalizedDistance")
		f := anyFloat[TV]()
		result("NormalizedDistance", f, d.NormalizedDistance(f))
		end("NormalizedDistance")
	} else if anyBool() {
		begin("Side")
		r := d.Margin(x, v)
		s := d.Side(x, v, sideRandom[TIX]{random.NewKiss32Random[TIX](anyIX[TIX]())})
		result("Side", r, int(s))
		end("Side")
	} else if anyBool() {
		begin("PQDistance")
		a, b := anyFloat[TV](), anyFloat[TV]()
		if anyBool() {
			result("PQLeft", a, b, d.PQDistance(a, b, interfaces.SideLeft))
		} else {
			result("PQRight", a, b, d.PQDistance(a, b, interfaces.SideRight))
		}
		end("PQDistance")
	} else if anyBool() {
		begin("PQInitialValue")
		result("PQInitialValue", d.PQInitialValue())
		end("PQInitialValue")
	} else {
		begin("InitNode")
		own := make([]byte, int(d.NodeSize()))
		m := d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(own)), 0)
		d.InitNode(m)
		result("InitNode", m.GetNorm(), vector.DotUnsafe(m.GetRawVector(), m.GetRawVector(), d.VectorLength()))
		end("InitNode")
	}
}

func hConvAngular[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hConv[TV, TIX](false) }
func hConvDot[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hConv[TV, TIX](true) }

// hDot: the product of two vectors.
func hDot[TV interfaces.VectorType, TIX interfaces.IndexTypes]() {
	a, b, n := anyVec[TV](), anyVec[TV](), anyIX[TIX]()
	assume(int(n) <= len(a))
	assume(int(n) <= len(b))
	assume(n >= 1)
	assume(n <= 1<<20)
	if anyBool() {
		result("product of", unsafe.SliceData(a), unsafe.SliceData(b))
		begin("Dot")
		result("product", vector.Dot(a, b, n), int(n))
		end("Dot")
	} else {
		result("product of", unsafe.SliceData(a), unsafe.SliceData(b))
		begin("DotUnsafe")
		result("product", vector.DotUnsafe(unsafe.SliceData(a), unsafe.SliceData(b), n), int(n))
		end("DotUnsafe")
	}
	keep(a, b)
}

// hNode: the attributes of one node record.
func hNode[TV interfaces.VectorType, TIX interfaces.IndexTypes](dot bool) {
	d := dist[TV, TIX](dot)
	l := d.VectorLength()
	mem := make([]byte, int(d.NodeSize()))
	m := d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(mem)), 0)
	v := anyVec[TV]()
	assume(TIX(len(v)) == l)
	ch := anyIDs[TIX]()
	assume(len(ch) <= int(d.MaxNumChildren()))
	assume(len(ch) >= 1)
	k := anyIX[TIX]()
	assume(k >= 1)
	assume(k <= d.MaxNumChildren())
	f := anyFloat[TV]()
	result("shape", int(d.NodeSize()), int(l), int(d.MaxNumChildren()))
	if anyBool() {
		begin("SetVector")
		result("start", m.GetRawVector(), len(v), int(unsafe.Sizeof(v[0])))
		m.SetVector(v)
		result("written", m)
		end("SetVector")
	} else if anyBool() {
		begin("GetVector")
		result("start", m.GetRawVector(), len(v), int(unsafe.Sizeof(v[0])))
		r := m.GetVector(l)
		result("list", r)
		end("GetVector")
	} else if anyBool() {
		begin("SetChildren")
		result("start", m.GetRawChildren(), len(ch), int(unsafe.Sizeof(ch[0])))
		m.SetChildren(ch)
		result("written", m)
		end("SetChildren")
	} else if anyBool() {
		begin("GetChildren")
		result("start", m.GetRawChildren(), int(k), int(unsafe.Sizeof(k)))
		m.SetNumberOfDescendants(k)
		r := m.GetChildren()
		result("list", r)
		end("GetChildren")
	} else if anyBool() {
		begin("NumberOfDescendants")
		m.SetNumberOfDescendants(k)
		r := m.GetNumberOfDescendants()
		result("same", int(k), int(r))
		end("NumberOfDescendants")
	} else if anyBool() {
		begin("SetNumberOfDescendants")
		m.SetNumberOfDescendants(k)
		end("SetNumberOfDescendants")
	} else if anyBool() {
		begin("Norm")
		m.SetNorm(f)
		r := m.GetNorm()
		result("same", f, r)
		end("Norm")
	} else if anyBool() {
		begin("SetNorm")
		m.SetNorm(f)
		end("SetNorm")
	} else if anyBool() {
		begin("CopyNode")
		to := make([]byte, int(d.NodeSize()))
		t := unsafe.Pointer(unsafe.SliceData(to))
		n := d.MapNodeToMemory(t, 0)
		result("start", t, int(d.NodeSize()), 1)
		utils.CopyNode(n, m, d.NodeSize())
		result("written", n)
		end("CopyNode")
	} else {
		i, c := anyIX[TIX](), anyIX[TIX]()
		assume(i >= 0)
		assume(c > i)
		all := make([]byte, int(c)*int(d.NodeSize()))
		begin("MapNodeToMemory")
		n := d.MapNodeToMemory(unsafe.Pointer(unsafe.SliceData(all)), i)
		result("mapped", n, int(i))
		end("MapNodeToMemory")
	}
}

func hNodeAngular[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hNode[TV, TIX](false) }
func hNodeDot[TV interfaces.VectorType, TIX interfaces.IndexTypes]()     { hNode[TV, TIX](true) }

// hWire: an index made by the builder with each option chosen or not.
func hWire[TV interfaces.VectorType, TIX interfaces.IndexTypes]() {
	n := anyInt()
	assume(n >= 1)
	assume(n <= 1<<20)
	var rnd interfaces.Random[TIX] = random.NewKiss32Random[TIX](anyIX[TIX]())
	var srt interfaces.Sorter[TV, TIX] = &interfaces.SorterFunctions[TV, TIX]{}
	b := builder.Index[TV, TIX]()
	if anyBool() {
		mark("random")
		if anyBool() {
			b = b.Random(random.NewKiss32Random[TIX](anyIX[TIX]()))
		}
		b = b.Random(rnd)
	}
	if anyBool() {
		b = b.IndexNumHint(anyInt())
	}
	if anyBool() {
		first := anyInt()
		assume(first >= 1)
		assume(first <= 1<<20)
		b = b.AngularDistance(first)
	}
	b = b.AngularDistance(n)
	if anyBool() {
		if anyBool() {
			mark("multi")
			if anyBool() {
				b = b.SingleWorkerPolicy()
			}
			b = b.UseMultiWorkerPolicy()
		} else {
			mark("single")
			if anyBool() {
				b = b.UseMultiWorkerPolicy()
			}
			b = b.SingleWorkerPolicy()
		}
	}
	if anyBool() {
		if anyBool() {
			mark("mmap")
			if anyBool() {
				b = b.GCMemoryIndexAllocator()
			}
			b = b.MmapIndexAllocator()
		} else {
			mark("file")
			if anyBool() {
				b = b.MmapIndexAllocator()
			}
			b = b.GCMemoryIndexAllocator()
		}
	}
	if anyBool() {
		mark("sorter")
		b = b.UseSorter(srt)
	}
	if anyBool() {
		mark("verbose")
		b = b.VerboseLogging()
	}
	idx := b.Build()
	d := angular.Distance[TV, TIX](TIX(n))
	wired[TV, TIX](idx, d, rnd, srt)
}

func wired[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	idx interfaces.AnnoyIndex[TV, TIX], d interfaces.Distance[TV, TIX], rnd interfaces.Random[TIX], srt interfaces.Sorter[TV, TIX],
) {
	result("wired", idx, d, rnd, srt, policy.MultiWorker(), policy.SingleWorker(), memory.MmapIndexAllocator(), memory.FileIndexMemoryAllocator(),
		memory.GoGCIndexAllocator(), int(d.VectorLength()), int(d.NodeSize()), int(d.MaxNumChildren()), int(idx.VectorLength()))
}

// hWireNew: an index made by its constructor.
func hWireNew[TV interfaces.VectorType, TIX interfaces.IndexTypes]() {
	var rnd interfaces.Random[TIX] = random.NewKiss32Random[TIX](anyIX[TIX]())
	var srt interfaces.Sorter[TV, TIX]
	d := dist[TV, TIX](true)
	if anyBool() {
		mark("angular")
		d = dist[TV, TIX](false)
	}
	var other interfaces.Sorter[TV, TIX] = &interfaces.SorterFunctions[TV, TIX]{}
	if anyBool() {
		mark("sorter")
		srt = other
	}
	p := pol(false)
	if anyBool() {
		mark("multi")
		p = pol(true)
	} else {
		mark("single")
	}
	m := mem(false)
	if anyBool() {
		mark("file")
		m = mem(true)
	} else {
		mark("mmap")
	}
	a := memory.GoGCIndexAllocator()
	mark("random")
	mark("components")
	verbose := anyBool()
	if verbose {
		mark("verbose")
	}
	idx := index.New[TV, TIX](rnd, d, p, a, m, srt, verbose, anyIX[TIX]())
	result("components", d, p, a, m)
	wired[TV, TIX](idx, d, rnd, other)
}

// hVec: the vector functions.
func hVec[TV interfaces.VectorType, TIX interfaces.IndexTypes]() {
	n := anyIX[TIX]()
	a, b := anyVec[TV](), anyVec[TV]()
	assume(TIX(len(a)) == n)
	assume(TIX(len(b)) == n)
	assume(n >= 1)
	assume(n <= 1<<20)
	pa, pb := unsafe.SliceData(a), unsafe.SliceData(b)
	begin("vector")
	keep(vector.Dot(a, b, n), vector.DotUnsafe(pa, pb, n), vector.GetNorm(a, n), vector.GetNormUnsafe(pa, n))
	keep(vector.EuclideanDistance(a, b, n), vector.ManhattanDistance(a, b, n), vector.Abs(anyFloat[TV]()))
	end("vector")
}

// ---- random generators ----

func hRandKiss32[TIX interfaces.IndexTypes]() {
	s := anyIX[TIX]()
	begin("New")
	r := random.NewKiss32Random[TIX](s)
	result("recv", r)
	end("New")
	begin("SetSeed")
	t := anyIX[TIX]()
	result("recv", r)
	r.SetSeed(t)
	result("seeded", r)
	end("SetSeed")
	begin("GetSeed")
	result("recv", r)
	result("GetSeed", int(t), int(r.GetSeed()))
	end("GetSeed")
	for anyBool() {
		begin("Draw")
		result("recv", r)
		if anyBool() {
			keep(r.Next())
		} else if anyBool() {
			keep(r.NextBool())
		} else if anyBool() {
			result("NextSide", int(r.NextSide()))
		} else {
			n := anyIX[TIX]()
			assume(n >= 1)
			result("NextIndex", int(n), int(r.NextIndex(n)))
		}
		end("Draw")
	}
	begin("Clone")
	result("recv", r)
	c := r.CloneAndReset()
	result("Clone", r, c)
	end("Clone")
	assume(t != 0)
	begin("CloneSeed")
	d := r.CloneAndReset()
	result("GetSeed", int(r.GetSeed()), int(d.GetSeed()))
	result("GetSeed", int(t), int(d.GetSeed()))
	end("CloneSeed")
}

func hRandKiss64() {
	s := anyIX[uint64]()
	begin("New")
	r := random.NewKiss64Random(s)
	result("recv", r)
	end("New")
	begin("SetSeed")
	t := anyIX[uint64]()
	result("recv", r)
	r.SetSeed(t)
	result("seeded", r)
	end("SetSeed")
	begin("GetSeed")
	result("recv", r)
	result("GetSeed", int(t), int(r.GetSeed()))
	end("GetSeed")
	for anyBool() {
		begin("Draw")
		result("recv", r)
		if anyBool() {
			keep(r.Next())
		} else if anyBool() {
			keep(r.NextBool())
		} else if anyBool() {
			result("NextSide", int(r.NextSide()))
		} else {
			n := anyIX[uint64]()
			assume(n >= 1)
			result("NextIndex", int(n), int(r.NextIndex(n)))
		}
		end("Draw")
	}
	begin("Clone")
	result("recv", r)
	c := r.CloneAndReset()
	result("Clone", r, c)
	end("Clone")
	assume(t != 0)
	begin("CloneSeed")
	d := r.CloneAndReset()
	result("GetSeed", int(r.GetSeed()), int(d.GetSeed()))
	result("GetSeed", int(t), int(d.GetSeed()))
	end("CloneSeed")
}

func hRandGo() {
	s := anyIX[uint32]()
	begin("New")
	r := random.NewGoRandomWithSeed(s)
	result("recv", r)
	end("New")
	begin("SetSeed")
	t := anyIX[uint32]()
	result("recv", r)
	r.SetSeed(t)
	result("seeded", r)
	end("SetSeed")
	begin("GetSeed")
	result("recv", r)
	result("GetSeed", int(t), int(r.GetSeed()))
	end("GetSeed")
	for anyBool() {
		begin("Draw")
		result("recv", r)
		if anyBool() {
			keep(r.Next())
		} else if anyBool() {
			keep(r.NextBool())
		} else if anyBool() {
			result("NextSide", int(r.NextSide()))
		} else {
			n := anyIX[uint32]()
			assume(n >= 1)
			result("NextIndex", int(n), int(r.NextIndex(n)))
		}
		end("Draw")
	}
	begin("Clone")
	result("recv", r)
	c := r.CloneAndReset()
	result("Clone", r, c)
	end("Clone")
	assume(t != 0)
	begin("CloneSeed")
	d := r.CloneAndReset()
	result("GetSeed", int(r.GetSeed()), int(d.GetSeed()))
	result("GetSeed", int(t), int(d.GetSeed()))
	end("CloneSeed")
}

func hRandK[TV interfaces.VectorType, TIX interfaces.IndexTypes]() { hRandKiss32[TIX]() }

// ---- ordering ----

// hOrder: two pairs in each of the relations they can have to each other.
func hOrder[TV interfaces.VectorType, TIX interfaces.IndexTypes]() {
	x, y := &interfaces.Pair[TV, TIX]{anyFloat[TV](), anyIX[TIX]()}, &interfaces.Pair[TV, TIX]{anyFloat[TV](), anyIX[TIX]()}
	if anyBool() {
		assume(x.First < y.First)
		mark("f<")
	} else if anyBool() {
		assume(x.First > y.First)
		mark("f>")
	} else {
		assume(x.First == y.First)
		mark("f=")
	}
	if anyBool() {
		assume(x.Second < y.Second)
		mark("s<")
	} else if anyBool() {
		assume(x.Second > y.Second)
		mark("s>")
	} else {
		assume(x.Second == y.Second)
		mark("s=")
	}
	p := interfaces.Pairs[TV, TIX]{x, y}
	if anyBool() {
		begin("Pair.Less")
		result("less", x.Less(y))
		end("Pair.Less")
	} else if anyBool() {
		begin("Pairs.Less")
		result("less", p.Less(0, 1))
		end("Pairs.Less")
	} else if anyBool() {
		begin("SortPairs")
		sort.SortPairs(p)
		end("SortPairs")
	} else if anyBool() {
		begin("PartialSortSlice")
		sort.PartialSortSlice(p, 0, anyInt(), 2)
		end("PartialSortSlice")
	} else if anyBool() {
		begin("PartialSortSlice2")
		sort.PartialSortSlice2(p, 0, anyInt(), 2)
		end("PartialSortSlice2")
	} else if anyBool() {
		begin("SortPairs2")
		sort.SortPairs2(p)
		end("SortPairs2")
	} else if anyBool() {
		begin("Swap")
		p.Swap(0, 1)
		result("is", p[0], y)
		result("is", p[1], x)
		result("len", p.Len(), 2)
		end("Swap")
	} else if anyBool() {
		begin("Pop")
		r, _ := p.Pop().(*interfaces.Pair[TV, TIX])
		result("is", r, y)
		result("is", p[0], x)
		result("len", len(p), 1)
		end("Pop")
	} else if anyBool() {
		begin("Top")
		result("is", p.Top(), x)
		result("len", len(p), 2)
		end("Top")
	} else if anyBool() {
		var e interfaces.Pairs[TV, TIX]
		for anyBool() {
			e = append(e, x)
		}
		n := len(e)
		begin("Push")
		e.Push(y)
		result("len", len(e), n+1)
		result("pushed", y)
		end("Push")
	} else if anyBool() {
		var e interfaces.Pairs[TV, TIX]
		begin("Top")
		result("none", e.Top())
		end("Top")
	} else {
		k := []TIX{x.Second, y.Second}
		if anyBool() {
			begin("SortSlice2")
			sort.SortSlice2(k)
			end("SortSlice2")
		} else {
			var k []TIX
			for anyBool() {
				k = append(k, anyIX[TIX]())
			}
			if anyBool() {
				begin("SortSlice3")
				sort.SortSlice3(k)
				end("SortSlice3")
			} else {
				begin("SortSlice")
				sort.SortSlice(k)
				end("SortSlice")
			}
		}
	}
}

// hSort: a partial sort of a range of a longer list.
func hSort[TV interfaces.VectorType, TIX interfaces.IndexTypes]() {
	n := anyInt()
	assume(n >= 0)
	s := make(interfaces.Pairs[TV, TIX], n)
	for i := 0; i < n; i++ {
		s[i] = &interfaces.Pair[TV, TIX]{anyFloat[TV](), anyIX[TIX]()}
	}
	b, m, e := anyInt(), anyInt(), anyInt()
	assume(b >= 0)
	assume(b <= m)
	assume(m <= e)
	assume(e <= len(s))
	if anyBool() {
		begin("PartialSortSlice")
		result("range", s, b, e)
		sort.PartialSortSlice(s, b, m, e)
		result("done", s)
		end("PartialSortSlice")
	} else {
		begin("PartialSortSlice2")
		result("range", s, b, e)
		sort.PartialSortSlice2(s, b, m, e)
		result("done", s)
		end("PartialSortSlice2")
	}
}

// hQueue: any use of a priority queue.
func hQueue[TV interfaces.VectorType, TIX interfaces.IndexTypes]() {
	q := sort.NewPriorityQueue[TV, TIX]()
	for anyBool() {
		if anyBool() {
			begin("Push")
			result("queue", q)
			q.Push(anyFloat[TV](), anyIX[TIX]())
			result("done", q)
			end("Push")
		} else if anyBool() {
			if q.Len() > 0 {
				begin("Pop")
				result("queue", q)
				keep(q.Pop())
				result("done", q)
				end("Pop")
			}
		} else {
			begin("Look")
			result("queue", q)
			keep(q.Top(), q.Len(), q.Empty())
			result("done", q)
			end("Look")
		}
	}
}

// ---- allocator of build storage ----

func hAlloc() {
	a := memory.GoGCIndexAllocator()
	for anyBool() {
		if anyBool() {
			n := anyInt()
			assume(n >= 0)
			begin("Reallocate")
			p := a.Reallocate(n)
			result("Reallocate", p, n)
			end("Reallocate")
		} else {
			begin("Free")
			a.Free()
			end("Free")
		}
	}
}

// builderStub stands for the index: it only notes that it was called.
type builderStub struct{ want int }

func (b *builderStub) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	result("ThreadBuild", trees, worker, b.want)
}

func hPolicy(multi, auto bool) {
	p := pol(multi)
	trees, workers := anyInt(), anyInt()
	assume(workers >= -1)
	if auto {
		trees = -1
	}
	begin("Build")
	p.Build(&builderStub{}, trees, workers)
	end("Build")
}

func hShare(multi bool) {
	p := pol(multi)
	trees, workers := anyInt(), anyInt()
	assume(workers >= -1)
	assume(trees >= 0)
	begin("Build")
	p.Build(&builderStub{want: trees}, trees, workers)
	end("Build")
}

func hShareMulti()  { hShare(true) }
func hShareSingle() { hShare(false) }

func hPolicyMulti()      { hPolicy(true, false) }
func hPolicyMultiAuto()  { hPolicy(true, true) }
func hPolicySingle()     { hPolicy(false, false) }
func hPolicySingleAuto() { hPolicy(false, true) }

func plain() {
	hSideLeft()
	hSideRight()
	hPolicyMulti()
	hPolicyMultiAuto()
	hPolicySingle()
	hPolicySingleAuto()
	hShareMulti()
	hShareSingle()
	hRandKiss64()
	hRandGo()
	hAlloc()
	hOpenMmap()
	hOpenFile()
	k := random.NewKiss64Random(1)
	g := random.NewGoRandomWithSeed(1)
	keep(k, g, random.NewGoRandom())
	var pm interfaces.AnnoyIndexBuildPolicy = policy.MultiWorker()
	var ps interfaces.AnnoyIndexBuildPolicy = policy.SingleWorker()
	keep(pm, ps)
	var am interfaces.IndexAllocator = memory.MmapIndexAllocator()
	var af interfaces.IndexAllocator = memory.FileIndexMemoryAllocator()
	var ab interfaces.BuildIndexAllocator = memory.GoGCIndexAllocator()
	keep(am, af, ab)
}

func use[TV interfaces.VectorType, TIX interfaces.IndexTypes]() {
	hBuildAngularSingle[TV, TIX]()
	hBuildAngularMulti[TV, TIX]()
	hBuildDotSingle[TV, TIX]()
	hBuildDotMulti[TV, TIX]()
	hBuildVerbose[TV, TIX]()
	hTreeAngularSingle[TV, TIX]()
	hItemAngular[TV, TIX]()
	hItemDot[TV, TIX]()
	hRootsSingle[TV, TIX]()
	hRootsMulti[TV, TIX]()
	hRootsMultiAuto[TV, TIX]()
	hTreeAngularMulti[TV, TIX]()
	hTreeDotSingle[TV, TIX]()
	hLifeMmap[TV, TIX]()
	hLifeFile[TV, TIX]()
	hSearchAngular[TV, TIX]()
	hSearchDot[TV, TIX]()
	hDistAngular[TV, TIX]()
	hDistDot[TV, TIX]()
	hRankAngular[TV, TIX]()
	hRankDot[TV, TIX]()
	hConvAngular[TV, TIX]()
	hConvDot[TV, TIX]()
	hDot[TV, TIX]()
	hVec[TV, TIX]()
	hWire[TV, TIX]()
	hWireNew[TV, TIX]()
	hNodeAngular[TV, TIX]()
	hNodeDot[TV, TIX]()
	hRandK[TV, TIX]()
	hOrder[TV, TIX]()
	hSort[TV, TIX]()
	hQueue[TV, TIX]()
	var da interfaces.Distance[TV, TIX] = angular.Distance[TV, TIX](3)
	var dd interfaces.Distance[TV, TIX] = dotproduct.Distance[TV, TIX](3)
	var na interfaces.Node[TV, TIX] = &angular.AngularNodeImpl[TV, TIX]{}
	var nd interfaces.Node[TV, TIX] = &dotproduct.DotProductNodeImpl[TV, TIX]{}
	var r interfaces.Random[TIX] = random.NewKiss32Random[TIX](0)
	keep(da, dd, na, nd, r)
	keep(builder.Index[TV, TIX]())
	keep(index.New[TV, TIX](r, da, policy.MultiWorker(), memory.GoGCIndexAllocator(), memory.MmapIndexAllocator(), nil, false, 0))
	keep(sort.PartialSortSlice[TV, TIX], sort.PartialSortSlice2[TV, TIX], sort.SortSlice[TIX], sort.SortSlice2[TIX], sort.SortSlice3[TIX])
	keep(sort.SortPairs[TV, TIX], sort.SortPairs2[TV, TIX], sort.NewPriorityQueue[TV, TIX]())
	var p interfaces.Pairs[TV, TIX]
	keep(p, &p, &interfaces.Pair[TV, TIX]{})
	keep(&interfaces.SorterFunctions[TV, TIX]{})
	keep(utils.CopyNode[TV, TIX], utils.DumpNode[TV, TIX], utils.GetPtr[TV, TIX], utils.Intersection[TIX], utils.Max[TIX])
	keep(vector.Abs[TV], vector.Dot[TV, TIX], vector.DotUnsafe[TV, TIX], vector.EuclideanDistance[TV, TIX],
		vector.ManhattanDistance[TV, TIX], vector.GetNorm[TV, TIX], vector.GetNormUnsafe[TV, TIX])
}
`
