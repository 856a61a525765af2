From 37e328e115d488b441aad29b3a1edb99153911f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 01/19] fix: copy whole nodes (node size in bytes), not
 vectorLength bytes

CopyNode takes a byte count; all four callers passed the number of vector
elements, so split planes, root copies and centroids were truncated.
---
 distance/two_means.go | 4 ++--
 index/annoyindex.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distance/two_means.go b/distance/two_means.go
index 8ccba10..a1aed4d 100644
--- a/distance/two_means.go
+++ b/distance/two_means.go
@@ -34,8 +34,8 @@ func TwoMeans[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		j++ // ensure that i != j
 	}
 
-	utils.CopyNode(p, nodes[i], vectorLength)
-	utils.CopyNode(q, nodes[j], vectorLength)
+	utils.CopyNode(p, nodes[i], distance.NodeSize())
+	utils.CopyNode(q, nodes[j], distance.NodeSize())
 
 	if cosine {
 		distance.Normalize(p)
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 3fad753..0d61c27 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -202,7 +202,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 		dst := idx.getNode(idx._n_nodes + i)
 		src := idx.getNode(idx._roots[i])
 
-		utils.CopyNode(dst, src, idx.vectorLength)
+		utils.CopyNode(dst, src, idx.nodeSize)
 
 		if idx.logVerbose {
 			fmt.Printf(
@@ -444,7 +444,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	idx.buildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
-	utils.CopyNode(dst, m, idx.vectorLength)
+	utils.CopyNode(dst, m, idx.nodeSize)
 	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
-- 
2.43.0


From e00ed0cb77bc92aee2779d9a326479f8684839ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 02/19] fix: expand the most promising tree node first

The priority queue pops the smallest value while PQDistance grows with how
promising a node is, so the search visited the far side of every split first.
---
 index/annoyindex_search.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7a2419d..dfa2a88 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -85,7 +85,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	}
 
 	for i := range idx._roots {
-		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
+		q.Push(-idx.distance.PQInitialValue(), idx._roots[i])
 	}
 
 	cnt := 0
@@ -93,7 +93,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	for cnt < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
-		d := top.First
+		d := -top.First // the queue is a min-heap, hence the priority is stored negated
 		i := top.Second
 		nd := idx.distance.MapNodeToMemory(idx._nodes, i)
 
@@ -118,12 +118,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			children := nd.GetChildren()
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideRight),
+				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
 				children[interfaces.SideRight],
 			)
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideLeft),
+				-idx.distance.PQDistance(d, margin, interfaces.SideLeft),
 				children[interfaces.SideLeft],
 			)
 		}
-- 
2.43.0


From 68b86c5b8933de0825bb62041d5c7e8bbc3c9de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 03/19] fix: build trees with the worker's own random generator

makeTree ignored its rnd argument and drew from the generator shared by all
workers: a data race, and the per worker seed had no effect.
---
 index/annoyindex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0d61c27..599e474 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -363,7 +363,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		children_indices[0] = nil
 		children_indices[1] = nil
 
-		idx.distance.CreateSplit(children, idx.nodeSize, idx.random, m)
+		idx.distance.CreateSplit(children, idx.nodeSize, rnd, m)
 
 		for _, j := range indices {
 			// TODO: original code did a check: Node* n = _get(j); if (n) {...}
@@ -372,7 +372,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			side := idx.distance.Side(
 				m,
 				n.GetVector(idx.vectorLength),
-				idx.random,
+				rnd,
 			)
 
 			children_indices[side] = append(children_indices[side], j)
@@ -403,7 +403,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 		for _, j := range indices {
 			// Just randomize...
-			side := idx.random.NextSide()
+			side := rnd.NextSide()
 			children_indices[side] = append(children_indices[side], j)
 		}
 	}
-- 
2.43.0


From 022ffc8543ad1e2dabdb964985dce5bbf84dcd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 04/19] fix: grow the search buffers instead of running past
 them

An item that is a direct child of several split nodes is a candidate once per
tree but was counted once when sizing the context, so wide searches panicked.
---
 index/annoyindex_search.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index dfa2a88..c543e05 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -102,15 +102,11 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		nDescendants := nd.GetNumberOfDescendants()
 
 		if nDescendants == 1 && i < idx._n_items {
-			bc.nns[cnt] = i
+			bc.nns = append(bc.nns[:cnt], i)
 			cnt++
 		} else if nDescendants <= idx.maxDescendants {
 			dst := nd.GetChildren()
-			if len(dst) == int(nDescendants) {
-				copy(bc.nns[TIX(cnt):], dst)
-			} else {
-				copy(bc.nns[TIX(cnt):], dst[:nDescendants])
-			}
+			bc.nns = append(bc.nns[:cnt], dst...)
 			cnt += int(nDescendants)
 		} else {
 			// Node is normal of the split plane.
@@ -166,6 +162,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		if n.GetNumberOfDescendants() == 1 { // This is only to guard a really obscure case, #284
 			jn := idx.distance.MapNodeToMemory(idx._nodes, j)
 
+			if cnt == len(bc.nns_dist) {
+				bc.nns_dist = append(bc.nns_dist, &interfaces.Pair[TV, TIX]{})
+			}
+
 			pair := bc.nns_dist[cnt]
 			pair.First = idx.distance.Distance(v_node, jn)
 			pair.Second = j
@@ -174,12 +174,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		}
 	}
 
-	var nns_dist []*interfaces.Pair[TV, TIX]
-	if cnt < len(nns) {
-		nns_dist = bc.nns_dist[:cnt]
-	} else {
-		nns_dist = bc.nns_dist[:len(nns)]
-	}
+	nns_dist := bc.nns_dist[:cnt]
 
 	var middle int
 	if numReturn < cnt {
-- 
2.43.0


From 390580ecfbfb6118e643fda3d7e5a00c94b1a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 05/19] fix: never run below the first node when loading

The root scan compared an unsigned index with >= 0, so files whose nodes all
have the same number of descendants (e.g. a single item) and empty files
crashed the process instead of loading or returning an error.
---
 index/annoyindex_io.go                | 11 ++++++-----
 index/memory/index_allocator_gcmem.go |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index c777480..1cebf12 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -51,7 +51,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		return err
 	}
 
-	if idx.indexMemory.Size()%int64(idx.nodeSize) != 0 {
+	if idx.indexMemory.Size() == 0 || idx.indexMemory.Size()%int64(idx.nodeSize) != 0 {
 		idx.Close()
 
 		return fmt.Errorf("file size is not a multiple of node size")
@@ -66,13 +66,14 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		m    TIX
 	)
 
-	for i := idx._n_nodes - 1; i >= 0; i-- {
+	// NOTE: the index type is unsigned, hence loop on i-1.
+	for i := idx._n_nodes; i > 0; i-- {
 
-		n := idx.getNode(i)
+		n := idx.getNode(i - 1)
 		k := n.GetNumberOfDescendants()
 
 		if !mset || k == m {
-			idx._roots = append(idx._roots, i)
+			idx._roots = append(idx._roots, i-1)
 			m = k
 			mset = true
 		} else {
@@ -85,7 +86,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		fn := idx.getNode(idx._roots[0])
 		ln := idx.getNode(idx._roots[len(idx._roots)-1])
 
-		if fn.GetChildren()[0] == ln.GetChildren()[0] {
+		if *fn.GetRawChildren() == *ln.GetRawChildren() {
 			idx._roots = idx._roots[:len(idx._roots)-1]
 		}
 	}
diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 76c0244..13f11c5 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -85,7 +85,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		parent: mm,
 		fqFile: fqFile,
 		size:   fileInfo.Size(),
-		ptr:    unsafe.Pointer(&data[0]),
+		ptr:    unsafe.Pointer(unsafe.SliceData(data)),
 		data:   data,
 	}
 
-- 
2.43.0


From c926daab16b5b0fd850e5f1c98c33644f7ccddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 06/19] fix: report a failed index file read as an error
 instead of panicking

---
 index/memory/index_allocator_gcmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 13f11c5..3c5bb1d 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -71,7 +71,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 	for bytesRead < fileInfo.Size() {
 		n, err := io.ReadFull(file, data[bytesRead:])
 		if err != nil && err != io.ErrUnexpectedEOF {
-			panic(fmt.Sprintf("Failed to read file: %v", err))
+			return nil, fmt.Errorf("failed to read file: %w", err)
 		}
 		bytesRead += int64(n)
 	}
-- 
2.43.0


From dd5d741b5036bb262846f1f694e1912dbab1091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 07/19] fix: a closed index is no longer built

Save on a closed index passed the built check and truncated the target file,
and a closed index could never be built again.
---
 index/annoyindex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 599e474..d7e71b3 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -128,6 +128,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Close() error {
 
 	idx._nodes = nil
 	idx.indexLoaded = false
+	idx.indexBuilt = false
 	idx._n_items = 0
 	idx._n_nodes = 0
 	idx._nodes_size = 0
-- 
2.43.0


From 7f85165f14c898f84bc3c2eb28a4340fe2b72c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 08/19] fix: refuse to add items once the index is built

The slots following the items hold tree nodes after Build, adding an item
silently overwrote them.
---
 index/annoyindex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index d7e71b3..b29dcc0 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -152,6 +152,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a loaded index")
 	}
 
+	if idx.indexBuilt {
+		panic("Can't add items to an index that is already built")
+	}
+
 	if idx.vectorLength != TIX(len(v)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
-- 
2.43.0


From 334126c6798ea368e62923ae94b91a5570f1a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 09/19] fix: validate item indexes and query vector length
 before touching memory

Searching with a vector of the wrong length or asking for an item that does
not exist read (and for long vectors wrote) outside the node memory.
---
 index/annoyindex.go        | 9 +++++++++
 index/annoyindex_search.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index b29dcc0..b94990d 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -144,6 +144,8 @@ func (idx *AnnoyIndexImpl[TV, TIX]) VectorLength() TIX {
 }
 
 func (idx *AnnoyIndexImpl[TV, TIX]) GetItem(itemIndex TIX) []TV {
+	idx.checkItem(itemIndex)
+
 	return idx.getNode(itemIndex).GetVector(idx.vectorLength)
 }
 
@@ -289,6 +291,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) ThreadBuild(
 	threadedBuildPolicy.UnlockRoots()
 }
 
+// checkItem panics if the _itemIndex_ is not the index of an item.
+func (idx *AnnoyIndexImpl[TV, TIX]) checkItem(itemIndex TIX) {
+	if itemIndex >= idx._n_items {
+		panic(fmt.Sprintf("Item index out of range: %d >= %d", itemIndex, idx._n_items))
+	}
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) getNode(index TIX) interfaces.Node[TV, TIX] {
 	return idx.distance.MapNodeToMemory(idx._nodes, index)
 }
diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index c543e05..717bc25 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"fmt"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -41,6 +42,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) CreateContext() interfaces.AnnoyIndexContext
 
 // GetDistance returns the distance between the two indexes.
 func (idx *AnnoyIndexImpl[TV, TIX]) GetDistance(i, j TIX) TV {
+	idx.checkItem(i)
+	idx.checkItem(j)
+
 	ni := idx.distance.MapNodeToMemory(idx._nodes, i)
 	nj := idx.distance.MapNodeToMemory(idx._nodes, j)
 
@@ -56,6 +60,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByItem(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	idx.checkItem(item)
 
 	node := idx.distance.MapNodeToMemory(
 		idx._nodes,
@@ -77,6 +82,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	if idx.vectorLength != TIX(len(vector)) {
+		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
+	}
+
 	bc := ctx.(*BatchContext[TV, TIX])
 	q := sort.NewPriorityQueue[TV, TIX]()
 
-- 
2.43.0


From 649ccc426c8d0380b74804393c3d463bbe8d73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 10/19] fix: compute byte sizes and offsets in machine words

With uint32 indexes the products of node index and node size wrapped at 4 GiB,
mapping several nodes onto the same memory.
---
 distance/angular/distance.go    | 2 +-
 distance/dotproduct/distance.go | 2 +-
 index/annoyindex.go             | 4 ++--
 index/annoyindex_io.go          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 59cf15e..57097b5 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -53,7 +53,7 @@ func (a *angularDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*a.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(a.nodeSize))
 
 	return (*AngularNodeImpl[TV, TIX])(pos)
 }
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 0d635a3..51231f0 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -53,7 +53,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*dp.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(dp.nodeSize))
 
 	return (*DotProductNodeImpl[TV, TIX])(pos)
 }
diff --git a/index/annoyindex.go b/index/annoyindex.go
index b94990d..2d6c298 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -107,7 +107,7 @@ func New[
 
 	// Pre-allocate memory for the index if hintNumIndexes is set > 0
 	if hintNumIndexes > 0 {
-		allocator.Reallocate(int(float64(distance.NodeSize()*hintNumIndexes) * reallocation_factor))
+		allocator.Reallocate(int(float64(distance.NodeSize()) * float64(hintNumIndexes) * reallocation_factor))
 	}
 
 	return index
@@ -488,7 +488,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
-		idx._nodes = idx.allocator.Reallocate(int(new_node_size * idx.nodeSize))
+		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
 		if threadedBuildPolicy != nil {
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 1cebf12..8f353b3 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -28,7 +28,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		}
 	}
 
-	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
+	data := unsafe.Slice((*byte)(idx._nodes), int(idx._n_nodes)*int(idx.nodeSize))
 
 	_, err = file.Write(data)
 
@@ -59,7 +59,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	idx._nodes = idx.indexMemory.Ptr()
 	idx._roots = nil
-	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
+	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
 
 	var (
 		mset bool
-- 
2.43.0


From 9278db6d57759079215f95a0f13ed686a6458752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 11/19] fix: the angular distance of (nearly) parallel vectors
 is not NaN

Rounding can make 2-2cos slightly negative.
---
 distance/angular/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 57097b5..b2d7c82 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -162,7 +162,7 @@ func (a *angularDistanceImpl[TV, TIX]) CreateSplit(
 }
 
 func (a *angularDistanceImpl[TV, _]) NormalizedDistance(distance TV) TV {
-	return TV(math.Sqrt(float64(distance)))
+	return TV(math.Sqrt(math.Max(float64(distance), 0)))
 }
 
 func (a *angularDistanceImpl[TV, TIX]) PQDistance(distance, margin TV, side interfaces.Side) TV {
-- 
2.43.0


From 9dc3a72e0a0e177aa0af0ce661c3ab9697c5a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 12/19] fix: the dot product distance is the negated dot
 product

It was a copy of the angular distance, hence ranked by angle and reported
2cos-2 instead of the dot product.
---
 distance/dotproduct/distance.go | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 51231f0..c6a60d7 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -150,30 +150,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) PQInitialValue() TV {
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y interfaces.Node[TV, TIX]) TV {
-	pp := x.GetNorm()
-	qq := y.GetNorm()
-	xv := x.GetRawVector()
-	yv := y.GetRawVector()
-
-	if pp == 0 {
-		pp = vector.DotUnsafe(xv, xv, dp.vectorLength)
-	}
-
-	if qq == 0 {
-		qq = vector.DotUnsafe(yv, yv, dp.vectorLength)
-	}
-
-	var ppqq TV
-
-	if pp != 0 {
-		ppqq = pp * qq
-	}
-
-	if ppqq > 0 {
-		pq := vector.DotUnsafe(xv, yv, dp.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
-	}
-	return 2.0
+	return -vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), dp.vectorLength)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) PreProcess(nodes unsafe.Pointer, node_count TIX) {
-- 
2.43.0


From deff8f4f6a844ee108a431a4a0da0e8d5e3b77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 13/19] fix: give uint64 indexes a default random generator

Building such an index dereferenced a nil generator.
---
 builder/index.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 7db4da8..1bba4cb 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -89,15 +89,7 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 	}
 
 	if bld.random == nil {
-		var t TIX
-
-		switch any(t).(type) {
-		case uint32:
-			k := random.NewKiss32Random(uint32(0))
-			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
-		case uint64:
-			// TODO: Need to completely refactor random!!
-		}
+		bld.random = random.NewKiss32Random(TIX(0))
 	}
 
 	return index.New(
-- 
2.43.0


From e3160498862cd467801d007a4f0202302486875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 14/19] fix: GoRandom honours its seed

The seed given to the constructor was ignored and SetSeed was forgotten by
GetSeed and CloneAndReset.
---
 random/gorand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/gorand.go b/random/gorand.go
index b237298..3041a17 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -17,7 +17,7 @@ func NewGoRandom() *GoRandom {
 }
 
 func NewGoRandomWithSeed(seed uint32) *GoRandom {
-	src := rand.NewSource(time.Now().UnixNano())
+	src := rand.NewSource(int64(seed))
 	return &GoRandom{
 		rng:  rand.New(src),
 		seed: seed,
@@ -53,6 +53,7 @@ func (r *GoRandom) GetSeed() uint32 {
 
 func (r *GoRandom) SetSeed(seed uint32) {
 	r.rng.Seed(int64(seed))
+	r.seed = seed
 }
 
 func (r *GoRandom) CloneAndReset() *GoRandom {
-- 
2.43.0


From 5fbe78ea634e649d072a91a78bb0ca042125c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 15/19] fix: PartialSortSlice only touches the given range

---
 sort/partial_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort/partial_sort.go b/sort/partial_sort.go
index 30dd1fa..9be8240 100644
--- a/sort/partial_sort.go
+++ b/sort/partial_sort.go
@@ -16,7 +16,7 @@ func PartialSortSlice[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	N := middle - begin
 
 	if end-begin > 20 && end-begin < 5000000 {
-		SortPairs(s)
+		SortPairs(s[begin:end])
 		return
 	}
 
-- 
2.43.0


From bf84ea7d054b4a386867de613aad9012b3575b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 16/19] fix: zero workers means one worker, as documented

No tree at all was built.
---
 index/policy/index_policy_multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/policy/index_policy_multi.go b/index/policy/index_policy_multi.go
index d3528d7..f91dc8e 100644
--- a/index/policy/index_policy_multi.go
+++ b/index/policy/index_policy_multi.go
@@ -27,6 +27,10 @@ func (p *annoyIndexMultiThreadedBuildPolicy) Build(
 		numberOfWorkers = int(utils.Max(uint32(1), uint32(runtime.NumCPU())))
 	}
 
+	if numberOfWorkers == 0 {
+		numberOfWorkers = 1
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(numberOfWorkers)
 
-- 
2.43.0


From 5ede378d1a49abf98630618b511724d093867ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 17/19] fix: closing an index file only unregisters itself

When the same file was opened again, closing the first allocation made the
allocator forget the second one.
---
 index/memory/index_allocator_gcmem.go | 4 +++-
 index/memory/index_allocator_mmap.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 3c5bb1d..c7937d0 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -31,7 +31,9 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	delete(fi.parent.indexes, fi.fqFile)
+	if fi.parent.indexes[fi.fqFile] == fi {
+		delete(fi.parent.indexes, fi.fqFile)
+	}
 
 	fi.data = nil
 	fi.ptr = nil
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index aa320df..f481023 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -31,7 +31,9 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	delete(mi.parent.indexes, mi.fqFile)
+	if mi.parent.indexes[mi.fqFile] == mi {
+		delete(mi.parent.indexes, mi.fqFile)
+	}
 
 	var err error
 
-- 
2.43.0


From 3f221ae3d1476cc3da068cc544a3a6fb4998ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 18/19] fix: multiply in the multiply-with-carry step of Kiss32

---
 random/kiss32random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 3cfa124..65bcc02 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -40,7 +40,7 @@ func (r *Kiss32Random[TIX]) Next() TIX {
 	r.y ^= r.y >> 17
 	r.y ^= r.y << 5
 
-	t := uint64(698769069) + uint64(r.z) + uint64(r.c)
+	t := uint64(698769069)*uint64(r.z) + uint64(r.c)
 
 	r.c = TIX(t >> 32)
 	r.z = TIX(t)
-- 
2.43.0


From 6f0e77df2cfab4bd0e827d7848320620ab728a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 19/19] fix: save to a temporary file and rename it into place

Save truncated the file the index may be mapped from (losing it), left a
partial file after a crash and ignored the error of closing the file.
---
 index/annoyindex_io.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 8f353b3..e2509f4 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -13,13 +13,15 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
-	file, err := os.Create(fileName)
+	// Write to a temporary file and rename it when complete. The nodes may be mapped from
+	// fileName itself, and a crash must not leave a partial index behind.
+	tmpName := fileName + ".tmp"
+
+	file, err := os.Create(tmpName)
 	if err != nil {
 		return err
 	}
 
-	defer file.Close()
-
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -32,7 +34,20 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	_, err = file.Write(data)
 
+	if err == nil {
+		err = file.Sync()
+	}
+
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+
+	if err == nil {
+		err = os.Rename(tmpName, fileName)
+	}
+
 	if err != nil {
+		os.Remove(tmpName)
 		return err
 	}
 
-- 
2.43.0

