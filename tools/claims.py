AI = "path-sensitive abstract interpretation of the SSA form (typestate, points-to, symbolic ranges)"
TRUST = " Trusts the models of the standard library and the analyzer itself; see the assumptions in the evidence file."
CLAIMS = {
 "C10": (AI + ": typestate of the index's state flags", "Sound for all inputs and call sequences reachable from the harness states; every path of each operation in each state is covered." + TRUST),
 "C11": (AI + ": provenance and ordering of file operations", "Every path of Save (each I/O call succeeding or failing) is covered." + TRUST),
 "C12": (AI + ": exhaustive error propagation", "Every I/O call is split into success and each kind of failure on every path." + TRUST),
 "C13": (AI + ": symbolic range analysis of accesses to file data", "File size and contents are arbitrary." + TRUST),
 "C14": (AI + ": resource typestate with reachability", "Every path of Open, Save, Load and Close, including failures." + TRUST),
 "C15": (AI + ": effect analysis (every write classified by owner)", "Every path of every search operation; all memory reachable from the index is covered, whatever it holds." + TRUST),
 "C16": (AI + ": guarded use of arguments", "Arbitrary ids and vector lengths; every memory access on behalf of the argument is checked against the test that precedes it." + TRUST),
 "C18": (AI + ": symbolic range analysis of the candidate buffers", "Buffer sizes, contexts and candidate counts are arbitrary." + TRUST),
 "C21": (AI + ": bit width provenance of byte quantities", "Checked for the instantiations with 32-bit ids; judged on the type in which a quantity is computed." + TRUST),
 "C22": (AI + ": sign analysis of divisors and square root arguments", "For all finite vectors; overflow to infinity is outside the property." + TRUST),
 "C27": (AI + ": effect and provenance analysis of the generators", "All paths of the two generator types, arbitrary states and seeds." + TRUST),
 "C28": (AI + ": escape and points-to analysis", "Every path of AddItem, the searches and lookups, all instantiations." + TRUST),
 "C20": (AI + ": symbolic byte ranges of record accessors", "All four instantiations, arbitrary vector lengths, counts and ids." + TRUST),
 "C25": (AI + ": points-to analysis of the wiring", "Every subset of options, in the order of the harness; replaced options included." + TRUST),
 "C29": (AI + ": effect analysis (fields read by searches against fields set by Load)", "Load of an index in any state, any file content; that the values are the right ones is not decided." + TRUST),
 "C24": (AI + " of the comparisons, effect analysis of the queue, and dataflow over element stores", "Every comparison on two pairs in all nine relations of their values; every range of a list of any length. That the helpers sort is not decided." + TRUST),
 "C26": ("control dependence and interprocedural effect analysis of branches on the verbose flag", "All code of the module that a branch on the flag controls, callees included; dependence on the flag through memory other than fields and local variables is reported as unresolved." + TRUST),
 "C01": (AI + ": lockset analysis with ownership of reserved records and thread-modular interference", "All interleavings of any number of workers, both distances; memory reachable by two goroutines is found by escape analysis, disjoint records by proof. Accesses inside modelled library functions are not seen." + TRUST),
 "C02": (AI + ": lock typestate and lock order", "All paths and interleavings; a deadlock through anything but locks and the wait group is outside." + TRUST),
 "C03": (AI + ": validity of pointers into replaceable storage under interference", "Every write through a node pointer on every path of the build, any number of workers; the storage may be replaced at any point where no lock held excludes it. Reads are covered by C01's locks." + TRUST),
 "C04": (AI + ": symbolic range analysis of node writes against the allocated capacity", "Arbitrary item ids, item and tree counts, split results and vector lengths; the growth factor is treated as an arbitrary number not below the request." + TRUST),
 "C05": (AI + ": sizes and copied ranges of the storage across a reallocation", "Any number of reallocations of any growing size; a manual byte-by-byte copy loop is not recognised as copying." + TRUST),
 "C06": (AI + ": byte ranges written by the build against item records", "Every write to the node storage after the last AddItem, both distances; what a write puts into the dot product's own item fields is not judged." + TRUST),
 "C08": (AI + ": ownership and provenance of generators and seeds", "All paths and interleavings of the build; the seed is an exact linear expression of the configured seed and the worker's number, wrap-around aside." + TRUST),
 "C09": (AI + ": counting of workers, waits and ThreadBuild calls", "Any number of trees and workers, including automatic; both policies." + TRUST),
 "C07": (AI + ": counting relation between the sides' lengths and the loop, ghost record of children and copies", "Every activation of the recursive builder, recursion replaced by its own contract, for every split and every side chosen; item lists of any length; both policies and both distances' record layouts." + TRUST),
 "C23": (AI + ": symbolic evaluation of the distances, direction of change of a term in the inner product, counted pairs in the product loops", "All vectors and stored norms on every path; real arithmetic with monotone rounding, finite inputs." + TRUST),
 "C17": (AI + ": ghost relation between candidates, pairs and results of a search", "All queries, contexts, index contents and result counts, with arbitrary numbers in place of distances and an arbitrary reordering in place of sorting; that the sorter sorts is assumed (C24 decides its comparison and range)." + TRUST),
 "C19": (AI + ": symbolic evaluation of margins, sides and bounds; ghost relation between nodes, bounds and queue entries", "Every path of Side, Margin and PQDistance of both distances; every expansion of a search; in the build, all items on one side (left or right) must end up below the child of that side, for any item list." + TRUST),
 "C35": (AI + ": ghost count of queued roots, collected candidates and ranked pairs of a search", "All index contents, queries, limits and contexts; every way of leaving the collecting loop and of skipping a candidate is judged. The numbers of the distance and the order of the sorter are arbitrary." + TRUST),
 "C32": (AI + ": symbolic shares of the workers; ghost count of built, kept and copied roots", "The shares are recognised as one of the partitions of the number of trees (rounded down from the back or the front, or quotient plus one more for the first or the last); another correct partition would be reported. Fewer than 2^52 trees and workers, so that the quotient computed in floating point is exact enough." + TRUST),
 "C36": (AI + ": relational tracking of the added vector's elements from the caller's list to the record and back", "All index contents, ids, vectors and record lengths, both distances, all instantiations; before and after Build (what Build itself leaves alone is C02's matter)." + TRUST),
}
LATER = "the check of this property is not finished"
NOT_APPLICABLE = {f"C{i:02d}": LATER for i in range(1, 30)}
NOT_APPLICABLE.update({
 "C30": "a statistical statement about random trees and data: recall is not a function of the program text that any static argument in reach can bound",
 "C31": "needs functional equivalence of whole searches over a byte image produced by an unbounded random build; the static parts of it (complete image, layout, bounds, state replaced by Load) are decided as C11, C13, C20 and C29",
 "C33": "termination of the retried random split depends on the data and the random stream; no static ranking argument bounds it",
 "C34": "a numerical statement about rounding over vectors of unbounded length; static analysis in reach cannot bound accumulated floating point error for them",
})
