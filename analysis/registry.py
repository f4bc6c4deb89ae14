"""Which machinery decides which property."""
ASSUMPTIONS = [
    "the dumped MIR is what rustc generates for the default configuration (nightly 1.101, edition of Cargo.toml)",
    "library functions below the crate behave as documented (models listed in std_models_used)",
    "the element type's operations are opaque: any result, no access to the tree",
    "before each entry point the representation invariant holds (established by the constructors, preserved by every entry point)",
]

MODULES = ["probes_mut", "probes_rc", "probes_iter", "probes_read", "probes_bfs", "probes_rel", "probes_conv", "probes_sync", "probes_ops", "probes_deep", "probes_size"]
SHAPE = "abstract interpretation of the entry points' MIR over abstract heaps (summaries for sibling runs, ancestor chains and subtrees; loop invariants by folding and generalisation), post-states compared with the specification"

BUILD = "abstract interpretation of the building loops over a node buffer described as a function of the number of filled slots and uninterpreted degree prefix sums; slots materialised on demand; loop invariants by candidate elimination"

CURSOR = "inductive computation of all reachable abstract cursor states (value of the cursor with its path summarised as 'entries of x and of all its visible ancestors', times the logical state of the traversal); every operation's MIR is interpreted from every state"


def p(explanation, rule, modules=MODULES, extras=(), technique=None, note=None, assumptions=(), also=(), only_rules=()):
    return {"also": tuple(also), "only_rules": tuple(only_rules), "explanation": explanation, "rule": rule, "modules": list(modules), "extras": list(extras),
            "technique": technique or "shape analysis (abstract interpretation of MIR)", "note": note, "assumptions": list(assumptions)}


PROPS = {
    "P01": p(SHAPE, "forward and backward chains, ends and parent links of every child list agree in every abstract post-state"),
    "P02": p(SHAPE, "degree and descendants of every touched node and of all ancestors equal the sizes of the abstract post-state"),
    "P03": p(SHAPE, "child sequences in the post-state equal the documented edit of the pre-state"),
    "P05": p(SHAPE, "every node and datum of the pre-state is either still owned exactly once or released exactly once in every abstract post-state; buffers are freed with their last node"),
    "P06": p(SHAPE, "reference count of every touched node = list membership + owned values + handles outside; count of every touched buffer = sum over its nodes + weak handles; storage freed exactly at zero"),
    "P07": p(SHAPE, "upgrade returns the node exactly while it is alive and touches no released storage"),
    "P08": p(SHAPE, "the client that drains the iterator observes node 0, 1, .., n-1 of the abstract child list with lengths n, n-1, .., 0, then None for ever"),
    "P09": p(SHAPE, "after any number of plain steps, an edit at the yielded node leaves the observed sequence k+1, .., n-1 unchanged and the list equals the single edit's result"),
    "P10": p(SHAPE, "no abstract path between creation and drop of an IterRc reads released storage; counts include exactly the pending node; a clone yields the same node"),
    "P11": p(SHAPE, "no observation, result or datum access of any entry point concerns a hidden root; parent() is the node whose abstract child list contains the receiver"),
    "P26": p(SHAPE, "no datum or link is accessed while a conflicting borrow is active, no borrow is left at exit, guarded variants stop before any effect"),
    "P12": p("abstract interpretation of MIR: one step of the queue over opaque lists from an arbitrary queue (first list partially consumed, anything behind it), every Split implementation, every initial queue, map and wrap over an opaque stream",
             "one step takes the next item of the first list that has one, reports its datum, degree and descendant count once, leaves the other lists in place and adds exactly its list of children at the end; splitting hands out exactly the node's datum and children"),
    "P13": p(BUILD + "; the stream is that of a real tree (all prefixes of its degrees exceed the position, total = number of nodes)",
             "at every loop head and at exit the buffer is the one described for the number of filled slots: parent, siblings, children, size, datum and owner of every slot; at exit all slots are filled, the count equals the nodes, the root is slot 0, no path panics",
             modules=[], extras=["rebuild:check"]),
    "P14": p(BUILD + "; the stream reports anything, of any length; query over the MIR of every function for operations that move, shorten or replace the slots of a published buffer; the probes of shared handles for the provenance of unchecked indices",
             "no unchecked access leaves the buffer, no node gets more children than its recorded degree, no counter wraps, and the buffer at exit has at least as many slots and owners as filled nodes; every unchecked index of a handle is that of its own node",
             modules=["probes_rc"], extras=["rebuild:check"], also=("P06", "P07"), only_rules=("memory", "bounds", "slots", "analysis", "anchor")),
    "P15": p(CURSOR, "in every reachable cursor state, get/forward/next/get_parent report exactly what the logical depth-first traversal says", modules=["probes_read"], extras=["walk:check"]),
    "P16": p(CURSOR, "in every reachable cursor state, every move lands on the documented node or reports None, panics never, reads no released or missing node, leaves the abstract heap unchanged, and ends in a reachable state", modules=[], extras=["walk:check"]),
    "P20": p(SHAPE + "; recursion by contract: comparing or hashing a child is an opaque structural operation",
             "every result is the one the lexicographic structural definition assigns to the comparisons made on that path; nothing else is compared, nothing unstructural is hashed"),
    "P21": p(SHAPE + "; recursion by contract: printing a child is an opaque operation that may fail; format templates are decoded from the MIR constants",
             "the sequence of strings, data and children printed on every path is the documented text, or a beginning of it that ends in a reported error"),
    "P17": p("abstract interpretation of the polymorphic MIR of every item of every TupleTree/TupleForest implementation, with uninterpreted component items; branches on unknown numbers are explored on both sides and joined",
             "for every arity 0..=32 as a tree and as a forest: the item's result, or the sequence of callback and component calls, equals the definition; every component is consumed exactly once",
             modules=[], extras=["facts:p17"], technique="abstract interpretation of polymorphic MIR"),
    "P18": p("abstract interpretation of MIR over a node buffer addressed by two uninterpreted functions (first slot of every level, next slot of every level): from_tuple up to the walk, the callback once per kind of visit from an arbitrary state of the walk, and the rest; invariants of the captured variables by candidate elimination; items of the tuple are replaced by the contract of P17, which is checked too",
             "the buffer has one empty slot per node; every visit fills exactly the next slot of its level with its datum, size, owner and links, appends it to the children of the open branch and changes nothing else; the result is slot 0",
             modules=[], extras=["tupbuild:check", "facts:p17"], technique="abstract interpretation of MIR"),
    "P19": p(SHAPE + "; clones of operands are opaque copies", "the result of every operator overload is the left operand (or its copy) extended by the right operand's tree(s) at the end, borrowed operands are unchanged, owned ones consumed"),
    "P23": p(SHAPE, "after every conversion the result owns exactly the nodes and data of the argument, in the same order and with the same sizes; into_tree stops before any effect on a node that has a parent"),
    "P22": p("abstract interpretation of MIR: every cloning entry point up to the stream it collects, and one step of that stream from an arbitrary point, with the walks over borrowed nodes and the collecting function replaced by the contracts of P12 and P13; the analyses of P12 and P13 themselves are run too",
             "the stream starts at the cloned node, each step yields one clone of the datum of the visit at hand and that visit's size, a queue of handles is extended by exactly the children of its first; the result is what is collected; nothing of the source is changed or kept",
             modules=["probes_deep", "probes_bfs"], extras=["rebuild:check"], also=("P12",)),
    "P24": p("trait queries to the type checker for every public type and every combination of Send/Sync of the element type; effect analysis: the readers' MIR interpreted with every store to existing nodes, borrow states and counts forbidden; MIR query on the atomic operations of the shared buffer",
             "no type that leads to node state is Send or Sync except the two walks when the element type is; a shared walk's readers write nothing; the shared count changes by atomic read-modify-write only, decides release by its own result, and gives up a share with release/acquire ordering",
             modules=["probes_sync"], extras=["facts:p24"], technique="trait queries + effect analysis of MIR"),
    "P25": p("queries to the type checker over every public function (borrows handed out against borrows received, following lifetime parameters, outlives bounds and exclusive types), variances and marker traits of every public type; compile-fail witnesses with accepted twins",
             "every lifetime in the result of a safe public function is granted, with the same exclusivity, by an argument; types that give mutable access are invariant and not duplicable; no safe function hands out an unpinned &mut Node, a node by value or a reference to a node that handles relink; every witness is rejected and its twin accepted",
             modules=[], extras=["facts:p25"], technique="type-level queries + compile-fail witnesses"),
    "P27": p("both feature configurations are type-checked from the same source; crates linked, public items, signatures, implementations and marker traits compared; MIR of every function compared after removing the names of the std/core/alloc facades; functions that differ are decided by running every shape analysis on the no_std configuration",
             "the no_std configuration links no std, has the same public surface, and every function has the same MIR or satisfies the same specification",
             modules=[], extras=["facts:p27"], technique="differential MIR query across configurations"),
    "P28": p(SHAPE + "; every call into the caller's code (elements, iterators, hashers, formatters) and every panic of the library is also continued by unwinding through the cleanup blocks, drop glue and guards of all frames",
             "after unwinding, no datum was dropped and no node freed twice, and whatever the caller can still reach (what it lent, nodes it may hold handles to, and everything linked to them) is live and well-formed",
             modules=[], extras=["panics:p28"], technique="shape analysis (abstract interpretation of MIR) with unwinding"),
    "P31": p("abstract interpretation of MIR over unknown numbers", "degree of the result is the sum or difference of the degrees and descendants that of the descendants; sizes are equal exactly if both numbers are; a copy is equal, the default is zero",
             modules=["probes_size"], technique="abstract interpretation of MIR"),
    "P04": p(SHAPE, "removed roots have no parent and siblings and own their subtree"),
}


NA = {
    "P29": "stack use is (depth of the tree) x (frame size): a runtime quantity against a limit the source does not state; a static query can list the recursive functions (Tree::drop, RcNode's drop, "
           "PartialEq/Ord/Hash/Display/Debug of nodes all recurse once per level, so the property is in fact false for depths beyond the stack), but that decides nothing about a change short of a redesign",
    "P30": "asymptotic cost bounds quantify over step counts on runtime sizes; the shape domain counts nodes, not steps, and no sound cost analysis for this MIR is in reach (loops are bounded by path lengths of heap structures)",
}
