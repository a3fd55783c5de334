from rules import replica, codec, runtree, maps, effects, wire, anchors, deletions, indices, backlog, tree, hostile, serial, store

REG = {
 "C01": {"configs": ["rel"], "rules": [("insertion-gate", replica.insertion_gate), ("map-laws", maps.map_laws)],
  "explain": "The entry point is evaluated over a fully symbolic replica and insertion; the conditions under which the run-tree merge and the backlog calls are reached, their arguments, the result and every field afterwards are compared, as guarded values, with the specification.",
  "assume": "insertions are whole (they start at or after, or end at or before, what the replica knows of their author) and a zero anchor has offset 0."},
 "C02": {"configs": ["rel"], "rules": [("deletion-gate", replica.deletion_gate), ("map-order", maps.map_order), ("map-laws", maps.map_laws)],
  "explain": "The entry point is evaluated over a fully symbolic replica and deletion; the conditions under which the run-tree merge and the backlog calls are reached, their arguments, the result and every field afterwards are compared with the specification; the version-map comparison is an uninterpreted partial order there. That comparison is decided separately by a finite abstraction of its loops (loop variables, relation of an arbitrary replica's entries, whether it was visited, whether a smaller or greater entry was seen) against pointwise domination over every replica's entry, its own included.",
  "assume": "deletion counters do not reach 2^64-1."},
 "C03": {"configs": ["rel"], "rules": [("kept", backlog.kept), ("applied", backlog.applied)],
  "explain": "The functions that keep an early edit are evaluated over an arbitrary backlog, the search by its contract: the list that is changed, where and how are compared with the specification. Both backlog iterators are evaluated as one walk over arbitrary lists: at every exit and every step between lists, the front of the list has been settled; an edit is taken off only when merged already or about to be merged, is merged only when ready, and is handed back with what the merge returned; the walk ends only when every list has been seen since the last merge.",
  "assume": "each author's list is ordered by the comparison that the search uses; counters do not wrap; a zero anchor has offset 0."},
 "C04": {"configs": ["rel"], "rules": [("local-insertion", replica.local_insertion), ("stored-run", runtree.stored_run)] + tree.part("child-at insert-down leaf-insert by-offset", tree.PLACE),
  "explain": "`inserted` is evaluated over a symbolic replica, offset and length; each field of the returned insertion is compared with what was handed to the document and with the replica's state before and after. `RunTree::insert` is evaluated over an arbitrary run at the offset: the run that is stored or extended, the anchor that is returned and the two clocks are compared with each other, so that the insertion handed out describes what was stored. The tree functions this leans on (finding the place, inserting at it) are decided too, by the rules of C12, C19 and C20.",
  "assume": "the maps belong to the replica (established by the joining rule) and clocks are positive after an insertion."},
 "C05": {"configs": ["rel"], "rules": [("local-deletion", replica.local_deletion), ("deleted-runs", deletions.local), ("map-laws", maps.map_laws)] + tree.part("child-holding leaf-delete part-deleted range-deleted child-gone by-offset", tree.PLACE),
  "explain": "`deleted` is evaluated over a symbolic replica and symbolic range bounds of every kind; what is handed to the document, the returned deletion and the replica's state afterwards are compared with the specification; the context sweep is decided from its loop's transition. RunTree::delete is evaluated over arbitrary runs: the pieces that each run is cut into, the anchors it returns and the authors it records are compared with the range. The tree functions this leans on (finding the range, deleting it in one leaf and across nodes) are decided too, by the rules of C12, C19 and C20.",
  "assume": "the document has fewer than 2^64-1 characters."},
 "C06": {"configs": ["rel"], "rules": [("run-order", runtree.run_order), ("merge-order", runtree.merge_order)] + tree.part("siblings neighbour iterate ends insert-one leaf-with-another first"),
  "explain": "EditRun's comparison is shown equal to the documented order on all inputs. RunTree::merge_insertion is evaluated with the document as an abstract sequence of runs: each place where it stores the run is shown to be behind the anchor, or behind a run that was reached from it only past runs that come first, with no run that comes first directly behind; loops are decided by induction over one iteration. The tree functions this leans on (walking from run to run, inserting behind a run) are decided too, by the rules of C12, C19 and C20.",
  "assume": "two different runs never have the same Lamport timestamp and author; the document's iterators visit its runs in order."},
 "C07": {"configs": ["rel"], "rules": [("args", replica.argument_checks)],
  "explain": "The condition under which each public entry point panics is collected over all paths and shown equivalent to the documented one, and the replica's state at every such panic is shown equal to the initial one. The run tree below is treated as opaque."},
 "C08": {"configs": ["rel"], "rules": [("noop", replica.noops)],
  "explain": "State and result of the local edits with length zero, and of integrating any no-op edit, are compared with the initial state; the no-op tests are shown equivalent to emptiness."},
 "C09": {"configs": ["rel"], "rules": [("joining", replica.joining), ("serde", serial.replica)],
  "explain": "Each field of the replica produced by fork, decode and new is compared with the specification; knowledge is compared pointwise for an arbitrary replica id."},
 "C10": {"configs": ["rel"], "rules": [("edit-codec", codec.edits), ("int-codec", codec.ints), ("serde", serial.edits)],
  "explain": "The encoder is run on a symbolic value over a symbolic byte tape, recording one token per primitive and one starred group per loop; the decoder is then run over that tape and every field, and every element of every collection, of its result is compared with the original. The integer primitives are decided separately: both directions call the same library codec at the same width, write all bytes it produced, accept exactly complete encodings, and continue right behind them."},
 "C13": {"configs": ["rel"], "rules": [("integrity", wire.integrity)],
  "explain": "Encoding is evaluated with the payload and the version as opaque pieces, and the bytes that come out are shown to be version, SHA-256 of the payload, payload. Decoding is evaluated on arbitrary bytes: the condition under which the payload is decoded, the result, and each error are compared, as guards over all paths, with the specification; no path panics.",
  "assume": "SHA-256 and the integer codec's library are correct."},
 "C11": {"configs": ["rel"], "rules": [("run-tree-codec", store.run_tree), ("replica-codec", store.replica), ("backlog-codec", store.backlog), ("part-codec", store.parts), ("int-codec", codec.ints)],
  "explain": "The encoder is run on a symbolic replica over a symbolic byte tape (one token per number, one starred group per loop, nested as the loops are), and the decoder over that tape. It must read every token, in the order written, as often as it was written and moving on from group to group; leaf and node arrays, the index of runs, version vectors, clocks and backlog must come out as they went in. A leaf's place comes from its own encoded index; its text's start is shown to be the running sum of its author's lengths.",
  "assume": "The value being encoded is well-formed: the pieces of an author's runs are distinct leaves, in order and without gaps, of that author and run (C21), each leaf is the piece of a run, nodes have at most as many children as fit, an author's waiting insertions are by that author. The pieces of a run are treated as a sequence (their own representation is C21's)."},
 "C14": {"configs": ["rel", "ovf"], "rules": [("decoders", hostile.panics), ("visitors", hostile.visitors), ("well-formed", hostile.wellformed), ("tags", hostile.tags), ("int-codec", codec.ints)],
  "explain": "Every decoder of the crate, up to and including Replica::decode, is interpreted over an arbitrary slice of bytes, in the build that checks arithmetic: reading a number yields an error, or any number at all and a shorter rest. Every panic, overflow, index and slice that any path can reach is an obligation, and so is the size of every allocation made in advance. The range of every accepted text and every accepted one-byte tag are compared with what encoding can have written.",
  "assume": "the varint and SHA-256 libraries do not panic; the index of runs and the tree, which decoding builds through their own functions, do not either."},
 "C15": {"configs": ["rel"], "rules": [("anchor-creation", anchors.creation), ("anchor-resolution", anchors.resolution), ("anchor-gate", anchors.gate), ("pieces-lookup", indices.lookup), ("place-lookup", indices.lookup_anchor), ("map-laws", maps.map_laws)] + tree.part("child-at lengths-before offset-in-parent find-offset found-again"),
  "explain": "Creating an anchor is evaluated over an abstract document for an arbitrary offset and bias: the run, author and character it names are compared with those of the text on the side the bias says, the searches for the next visible run being decided by induction over one step. Resolving is evaluated for an arbitrary anchor, and the condition under which a replica resolves it is compared with what it has integrated. The tree functions this leans on (from an offset to a run and back) are decided too, by the rules of C12, C19 and C20.",
  "assume": "the document's offset search and its index of runs answer as documented (the run whose visible text contains the offset; the run that contains the anchor)."},
 "C24": {"configs": ["rel"], "rules": [("mono", replica.monotone), ("map-laws", maps.map_laws)],
  "explain": "For every public operation, an arbitrary peer's entry in both maps and both clocks are compared before and after.",
  "assume": "counters do not wrap; the document's own insertion does not turn back the clocks it is given."},
 "C16": {"configs": ["rel"], "rules": [("inputs-only", effects.inputs_only)],
  "explain": "Every call site, cast, comparison, static and collection type of every local function (generic ones included) is inspected: none reaches clocks, threads, the environment, I/O, random hash seeds, addresses as numbers, or changeable process-wide state.",
  "technique": "whole-crate effect lint over type-checked MIR"},
 "C17": {"configs": ["rel"], "rules": [("unsafe-sites", effects.unsafe_sites), ("extended-references", effects.lifetimes)],
  "explain": "Every place, cast and call of every local function is inspected for unsafe constructs; transmutes and union reads are shown to be between types made of the same plain integers, with no change from shared to exclusive; for each reference whose lifetime is extended, the functions reachable while it is used are shown not to resize, or reach again, what it points into.",
  "technique": "whole-crate effect lint over type-checked MIR, with layout comparison and call-graph effect analysis"},
 "C18": {"configs": ["rel"], "rules": [("shared-references", effects.shared_refs)],
  "explain": "Every field type of every type of the crate is shown free of interior mutability and of shared ownership, there are no changeable statics or thread-locals, no cast turns a shared reference into an exclusive one, and the read-only operations take shared references: the borrow checker then guarantees the rest.",
  "technique": "type-level analysis (ownership and interior mutability) over the type-checked crate"},
 "C23": {"configs": ["rel", "nofeat", "encode", "ovf", "dbg"], "rules": [("features", effects.features), ("profiles", effects.profiles)],
  "explain": "The compiled form (MIR) of every function is compared between feature combinations, where it must be equal, and between builds with and without debug assertions, where it may differ only in branches that are taken when assertions are on; each such branch is shown to write nothing that outlives it, borrow nothing exclusively, and rejoin.",
  "technique": "comparison of type-checked MIR across build configurations, with an effect analysis of assertion branches"},
 "C22": {"configs": ["rel"], "rules": [("merge-deletion", deletions.merge), ("deleted-part", deletions.leaf_range), ("pieces-lookup", indices.lookup), ("place-lookup", indices.lookup_anchor), ("map-laws", maps.map_laws)] + tree.part("neighbour iterate ends offset-in-parent find-offset change leaf-delete"),
  "explain": "RunTree::merge_deletion is evaluated with the document as an abstract sequence of runs and symbolic deletion: the ends that are looked up, the run with which the walk starts, the part of each visited run that is deleted (compared with what the deletion's author knew), the step to the next run, the end of the walk, and the reported ranges are compared with the specification; loops are decided by induction over their transition. delete_leaf_range is evaluated over an arbitrary run: the pieces it is cut into are compared with the run and the range. The tree functions this leans on (walking from run to run, the offset of a run, changing and deleting in a run) are decided too, by the rules of C12, C19 and C20.",
  "assume": "the ends of a deletion are known to its author and lie inside their runs; runs are non-empty; the tree's cut operations call back as their contracts say."},
 "C21": {"configs": ["rel"], "rules": [("typed-indices", runtree.typed_indices), ("merge-indices", runtree.merge_indices), ("delete-index", deletions.local_index), ("delete-part-index", deletions.leaf_range_index), ("pieces-split", tree.nopanics(indices.piece_split, "index-pieces", "piece_split", ("unwrap", "unreachable"))), ("pieces-moved", tree.nopanics(indices.moves, "index-pieces", "moves", ("unwrap", "unreachable"))), ("pieces-added", tree.nopanics(indices.appended, "index-pieces", "appended", ("unwrap", "unreachable"))), ("pieces-lookup", indices.lookup), ("author-runs", indices.runs), ("place-lookup", indices.lookup_anchor), ("run-length", indices.length), ("joins", tree.joins)] + tree.part(" ".join(n for n, _, l in tree.RULES if "piece" in l), leaf="piece"),
  "explain": "For each way in which a run is stored, extended, split or shortened, the updates of the per-author index that RunTree::insert, merge_insertion, delete and delete_leaf_range make are collected over all paths as guarded values and compared with the pieces that were put into the document: same author, same boundaries, same places. The index's own operations (adding, splitting, resizing, looking up) are evaluated over an arbitrary list of pieces in either of its representations; the list afterwards is compared element by element, for an arbitrary element, with the specification. Two runs are shown to be joined only if they are neighbouring text of the same run, so that the pieces recorded for them stay true. The tree functions this leans on (all of those that hold pieces) are decided too, by the rules of C12, C19 and C20.",
  "assume": "own text that ends where new text starts is the latest run; the tree's operations call back and return indices as their contracts say."},
 "C12": {"configs": ["rel"], "rules": [("joins", tree.joins)] + tree.group(tree.STRUCT),
  "explain": "Every function that changes the tree of runs is evaluated over an arbitrary tree, its callees by their contracts, which are themselves checked: the children of each node it touches, before and after, are compared position by position as one sequence with the specified text added, hidden or cut, and everything else is shown unchanged; the splitting of full nodes is shown to keep the order of the children; walks are shown to follow that order. Joining two runs is shown to happen only for neighbouring text of the same run and visibility.",
  "assume": "nodes have between one and the maximum number of children, indices are in bounds, a leaf is in its node once, deleted ranges are non-empty and within the document. When a range is cut across children, the children outside it are followed for nodes that hold runs; for higher nodes the same code (the generic function) is followed for the cut children."},
 "C19": {"configs": ["rel"], "rules": [("forgotten", deletions.forgotten)] + tree.group(tree.CURSOR),
  "explain": "For each function that uses or sets the remembered position, starting from one that is right, the position afterwards is shown to be none, or the leaf's own offset and place in its node as the tree then is; the shortcuts are shown to be taken only when they reach the same run and offset as the search from the root.",
  "assume": "the remembered position is right on entry (established by the other functions and by the empty position of a new tree)."},
 "C20": {"configs": ["rel"], "rules": [("counts", tree.counts), ("joins", tree.joins)] + tree.group(tree.LEN),
  "explain": "The length a node records is tracked through every function that changes the tree: each change below a node is shown to be added to or taken from that node and its ancestors exactly once, and a node that is split to give its two halves lengths that are the sums of their children's. The searches by offset, evaluated over an arbitrary tree, are shown to go to the child that holds the offset and to hand on the offset inside it; runs are shown to count for their visible characters only, and to be joined only with neighbouring text of the same run and visibility, so that joined runs count for what both counted.",
  "assume": "node lengths are the sums of their children's on entry; sums of lengths do not overflow; nodes have between one and the maximum number of children."},
}
