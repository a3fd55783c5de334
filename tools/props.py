"""The properties, as written to properties.jsonl."""
P = []


def prop(id, title, statement, over, q, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files, mech=mech))


prop("C01", "Remote insertions are integrated once, causally, in author order",
     "Integrating an insertion applies it to the document exactly when its author's text up to it, and the text it was typed into, have already been integrated; an insertion that was already integrated, or is empty, changes nothing, and one that is early is put aside. The caller gets an offset exactly when the insertion was applied, and it is the offset of that application. Afterwards the replica knows the author's text up to the insertion's end and its Lamport clock is past the insertion's, and what it knows of everybody else is unchanged.",
     "inputs histories schedules",
     "every reachable replica state and every insertion any replica can have produced, delivered in any order, any number of times",
     "the tests deliver a few hundred random edits in one causal order; the gate must hold for every state of the version map and every insertion",
     ["src/replica.rs", "src/version_map.rs", "src/insertion.rs", "src/text.rs"],
     [("integration gate (already merged / ready / early)", "src/replica.rs integrate_insertion, has_merged_insertion, can_merge_insertion"), ("bookkeeping after a merge", "src/replica.rs merge_unchecked_insertion"), ("knowledge per replica", "src/version_map.rs BaseMap")])
prop("C02", "Remote deletions are integrated once, causally, in author order",
     "Integrating a deletion applies it to the document exactly when all of its author's earlier deletions were applied and the replica has everything that the deletion says its author had seen; a deletion that was already applied, or is empty, changes nothing, and one that is early is put aside. The caller gets ranges only if the deletion was applied, and they are the ranges of that application. Afterwards one more deletion of that author counts as applied, and nobody else's count changes.",
     "inputs histories schedules",
     "every reachable replica state and every deletion any replica can have produced, delivered in any order, any number of times",
     "tests deliver deletions in a handful of orders; whether the causal comparison considers every replica cannot be sampled",
     ["src/replica.rs", "src/version_map.rs", "src/deletion.rs"],
     [("integration gate", "src/replica.rs integrate_deletion, has_merged_deletion, can_merge_deletion"), ("version map comparison", "src/version_map.rs partial_cmp, update_order"), ("bookkeeping", "src/replica.rs merge_unchecked_deletion")])
prop("C04", "A local insertion describes itself completely and consistently",
     "The insertion handed out for a local insertion names this replica as its author, covers exactly the characters that follow everything this replica had inserted before, is as long as the text that was inserted, and carries the position and the timestamps under which the replica stored that same text itself. The replica's own history grows by exactly that length, and nothing else it knows changes.",
     "inputs histories",
     "every replica state, offset and length",
     "tests check the resulting offsets of a few insertions, not that every field handed to peers equals what was stored locally",
     ["src/replica.rs", "src/run_tree.rs", "src/insertion.rs"],
     [("local insertion", "src/replica.rs inserted"), ("storing the run", "src/run_tree.rs RunTree::insert")])
prop("C05", "A local deletion describes itself completely and consistently",
     "The deletion handed out for a local deletion covers exactly the requested range (whatever kind of range bounds were used), carries the positions under which the replica applied it to its own document, names this replica as its author, and is numbered one past its previous deletion. It records, for each replica whose text lies in the range, how much of that replica's text this one has seen. Nothing else the replica knows changes.",
     "inputs histories",
     "every replica state and every kind of range",
     "tests use half-open ranges over short texts by one or two authors",
     ["src/replica.rs", "src/utils.rs", "src/deletion.rs"],
     [("local deletion", "src/replica.rs deleted"), ("range normalisation", "src/utils.rs range_bounds_to_start_end")])
prop("C06", "Text typed at one place by several replicas is ordered alike everywhere",
     "Runs typed at the same place are ordered by descending Lamport timestamp and then by ascending author. A merged insertion is stored exactly once, right behind the character it was typed after (or at the start of the document), past exactly those of the runs following it that come first in that order, and the offset handed back is where it was stored. Neither the replica that merges it nor the order of arrival plays a part.",
     "inputs histories schedules",
     "every document, every insertion and every set of runs at the place it was typed",
     "tests merge a few pairs of concurrent insertions; a wrong tie-break needs three authors, equal timestamps or a particular shape of the tree to show",
     ["src/run_tree.rs"],
     [("order of runs", "src/run_tree.rs Ord for EditRun"), ("placing a merged run", "src/run_tree.rs merge_insertion, insert_run_at_zero, insert_run_after_another, append_run_to_another, split_run_with_another")])
prop("C07", "Invalid arguments are rejected up front, and only those",
     "Inserting, deleting or creating an anchor past the end of the document, deleting a backwards range, and creating, forking or decoding a replica with id zero (or forking with the replica's own id) panic, and nothing was modified when they do. The local edits, forking, creating and reading a replica never panic on arguments that are valid.",
     "inputs histories",
     "every replica state and every argument, including offsets up to the integer limits",
     "tests exercise two of the documented panics at one offset each; boundaries and the state at the time of the panic are not sampled",
     ["src/replica.rs", "src/utils.rs", "src/lib.rs"],
     [("bounds checks", "src/replica.rs inserted, deleted, create_anchor, fork, new, decode"), ("panic messages", "src/lib.rs panic_messages")])
prop("C08", "Edits of zero length change nothing anywhere",
     "Inserting an empty text or deleting an empty range leaves the local replica exactly as it was and yields an edit that is recognised as a no-op. Integrating a no-op edit leaves any replica exactly as it was and yields nothing to apply. An edit that affects text is never taken for a no-op.",
     "inputs histories",
     "every replica state, every offset, every no-op edit and every receiving replica",
     "tests check one no-op insertion and one no-op deletion on a fresh replica",
     ["src/replica.rs", "src/insertion.rs", "src/deletion.rs"],
     [("no-op edits", "src/replica.rs inserted, deleted; Insertion::is_no_op, Deletion::is_no_op")])
prop("C09", "Forking and decoding hand over everything except the identity",
     "A replica obtained by forking, or by decoding an encoded replica, has the given id, the other replica's document, backlog and Lamport clock, and knows exactly what the other knew of every replica, with no history of its own. Forking leaves the forked replica unchanged, and both ways of joining produce the same state. A new replica starts with its initial text as its only history.",
     "inputs histories",
     "every replica state and every new id",
     "tests fork fresh replicas; they don't compare the two ways of joining, nor look at knowledge of third replicas",
     ["src/replica.rs", "src/version_map.rs", "src/encoded_replica.rs"],
     [("joining", "src/replica.rs fork, decode, new"), ("rebasing the maps", "src/version_map.rs fork, fork_in_place")])
prop("C10", "Encoding and decoding an edit are inverses",
     "For every insertion, deletion, anchor and text, decoding what encoding produced yields an equal value, consumes exactly the bytes that were produced, and leaves whatever follows them untouched. This holds for every serde format that keeps the bytes it is given, however many other replicas a deletion's context mentions, and for any choice of compact representation.",
     "inputs",
     "every edit, of any author, with any offsets, timestamps and number of context entries",
     "tests round-trip a few random edits with ids and offsets from a small range, which reaches few of the combinations of the compact representations",
     ["src/insertion.rs", "src/deletion.rs", "src/anchor.rs", "src/text.rs", "src/version_map.rs", "src/encode.rs"],
     [("edit codecs", "Encode/Decode impls in insertion.rs, deletion.rs, anchor.rs, text.rs, version_map.rs"), ("run-length representations", "insertion.rs InsertionRun, deletion.rs AnchorsEncoding")])
prop("C11", "A saved replica comes back whole",
     "Decoding what encoding a replica produced always succeeds and yields the same state: every piece of text with its author, run, timestamp and deletion mark, at the same place of the same tree, the same index of runs, Lamport clock, version vectors and backlog. Encoding leaves the replica as it was.",
     "inputs",
     "every state of a replica, whatever edits, deletions and waiting edits it holds",
     "tests save and restore replicas with short histories, mostly with an empty backlog and a tree of one or two levels",
     ["src/replica.rs", "src/run_tree.rs", "src/gtree.rs", "src/backlog.rs", "src/version_map.rs", "src/encode.rs"],
     [("replica codec", "src/replica.rs mod encode"), ("tree of runs", "src/run_tree.rs mod encode (ReplicaRuns, RunFragments, RunFragment), src/gtree.rs mod encode"), ("backlog", "src/backlog.rs mod encode")])
prop("C24", "What a replica knows never goes backwards",
     "No operation makes a replica forget text or deletions it already knew of: for every peer, the amount of its text and the number of its deletions known to the replica never decrease, and neither do the replica's own clocks. Its identity never changes.",
     "inputs histories schedules",
     "every operation, state and peer",
     "a decrease shows up only for a particular combination of stale, repeated or reordered edits",
     ["src/replica.rs", "src/version_map.rs"],
     [("knowledge updates", "src/replica.rs merge_unchecked_insertion, merge_unchecked_deletion, inserted, deleted")])

prop("C14", "Malformed encodings are reported as errors, never panics",
     "Whatever bytes it is given, decoding an insertion, a deletion, an anchor, a text, an encoded replica or a replica either returns a value or reports an error: it never panics, never overflows, never reads past the bytes, and never sets aside memory out of proportion to the bytes it was given. A text that ends before it starts is never accepted, and neither is a tag that encoding never writes.",
     "inputs",
     "every sequence of bytes, truncated, corrupted or made up",
     "tests decode only what the crate itself encoded, at most with a byte changed; the bytes that overflow a sum or overrun a table are particular ones",
     ["src/encode.rs", "src/insertion.rs", "src/deletion.rs", "src/anchor.rs", "src/text.rs", "src/backlog.rs", "src/gtree.rs", "src/run_tree.rs", "src/version_map.rs", "src/encoded_replica.rs", "src/replica.rs"],
     [("decoders", "every Decode and DecodeWithCtx impl"), ("serde visitors", "src/encode.rs impl_deserialize"), ("counts and indices read from the bytes", "src/run_tree.rs RunFragment, src/gtree.rs Inode, src/text.rs, src/deletion.rs Anchors")])
prop("C16", "The same calls give the same results in every run",
     "What a replica does is a function of the calls made on it: the same sequence of operations with the same arguments gives the same results, edits and encodings in another process, on another thread, at another time. Nothing depends on clocks, the environment, random seeds, memory addresses or state shared by the whole process.",
     "inputs histories schedules",
     "every operation, in every run",
     "a test runs in one process with one seed; a dependence on a random hash seed or an address shows only between runs",
     ["src/"],
     [("hashing by replica id", "src/replica_id.rs ReplicaIdMap, ReplicaIdHasher"), ("every call site of the crate", "src/")])
prop("C17", "Safe callers cannot cause memory unsafety",
     "Whatever calls are made through the public interface, none reads or writes memory it does not own. Where the crate steps around the compiler's checks it only reads values of identical layout as one another, never turns a shared reference into an exclusive one, never skips a bounds check, and never holds on to storage that is resized, or reached a second time, in the meantime.",
     "inputs histories",
     "every unsafe construct in the crate, every call that can be made while it is relied on",
     "undefined behaviour need not make any test fail",
     ["src/gtree.rs", "src/backlog.rs", "src/run_indices.rs", "src/utils.rs"],
     [("node index union and its slices", "src/gtree.rs Inode::child, children, delete_inode"), ("iterators that borrow the backlog and the replica", "src/backlog.rs BackloggedDeletions, BackloggedInsertions")])
prop("C18", "Reading a replica never changes it, and its values are its own",
     "Asking a replica, an edit or an anchor for anything (length, id, offsets, anchors, encodings, forks, comparisons) leaves it exactly as it was, also when several threads ask at once. Values handed out, cloned or forked share no state with the replica they came from: changing one never changes another.",
     "inputs histories schedules",
     "every type of the crate and every function that takes a shared reference",
     "tests do not compare a replica with itself before and after every read, from several threads",
     ["src/"],
     [("types of the crate", "src/"), ("read-only operations", "src/replica.rs len, id, create_anchor, resolve_anchor, encode, fork")])
prop("C23", "Build profiles and features do not change what the crate does",
     "The crate behaves the same with debug assertions on and off, and each operation that exists in several feature combinations behaves the same in all of them (arithmetic overflow aside). Assertions that are compiled into debug builds only look: they change no state that outlives them and steer nothing but the panic when they fail.",
     "inputs histories",
     "every function of the crate, in every build profile and feature combination",
     "the tests run in one profile with all features",
     ["src/", "Cargo.toml"],
     [("debug assertions", "src/gtree.rs, src/run_tree.rs, src/replica.rs, src/utils.rs"), ("features encode and serde", "Cargo.toml, src/")])

prop("C13", "A damaged or foreign encoded replica is reported, never decoded",
     "Decoding an encoded replica succeeds only if it was made under the same protocol version and its checksum is that of its contents, and otherwise reports which of the two is wrong: the two versions, a failed checksum, or invalid data if the bytes are too short or the contents cannot be decoded. Nothing of the contents is looked at before, no input makes this gate panic, and an encoded replica carries its bytes unchanged.",
     "inputs faults",
     "every sequence of bytes: truncated, damaged, or produced by another version",
     "a test can flip a few bytes; that no path reaches the contents without a full comparison of version and checksum is a statement over all of them",
     ["src/encoded_replica.rs", "src/replica.rs"],
     [("building", "src/encoded_replica.rs from_replica, checksum"), ("gate", "src/encoded_replica.rs to_replica"), ("carrying bytes", "src/encoded_replica.rs from_bytes, to_static, as_bytes")])
prop("C15", "Anchors stay with the text they were put next to",
     "An anchor is attached to the visible character before it (left bias) or after it (right bias), or to the start or end of the document, and resolves to that place in any replica: at its character's current offset, or where that character was if it has been deleted. A replica resolves exactly the anchors whose character it has integrated.",
     "inputs histories",
     "every document, offset, bias and anchor, whichever replica created it",
     "tests resolve a handful of anchors after a few edits; boundaries between runs, deleted text at the boundary and half-integrated authors are combinations they don't reach",
     ["src/run_tree.rs", "src/replica.rs", "src/anchor.rs"],
     [("creating", "src/run_tree.rs create_anchor"), ("resolving", "src/run_tree.rs resolve_anchor"), ("which anchors are known", "src/replica.rs resolve_anchor, has_anchor")])
prop("C22", "A remote deletion removes exactly what its author saw, wherever it is now",
     "Merging a deletion removes every character between its ends that its author had seen and that is still there, however the text has been split or moved since, and no character that was inserted since without its author's knowledge. The ranges handed to the caller are exactly the visible characters that were removed; deleted text keeps its author, timestamps and place in the document. Deleting neither loses nor moves nor duplicates text.",
     "inputs histories schedules",
     "every document, every deletion another replica can have produced, every split of the runs and every set of concurrent insertions inside the deleted range",
     "tests merge deletions of a few characters; unseen runs, already deleted pieces, ends inside the same run and at run boundaries combine in ways they do not sample",
     ["src/run_tree.rs", "src/gtree.rs"],
     [("walking the deleted range", "src/run_tree.rs merge_deletion"), ("deleting part of a run", "src/run_tree.rs delete_leaf_range; src/gtree.rs delete_leaf_range, delete_range_in_leaf")])
prop("C21", "Every piece of text stays findable by author and position",
     "After any operation the replica can find, for every author and every position in that author's text, the piece of the document that holds it: whenever a stored run is split, extended, shortened or added, what is recorded about its author's text is updated with the same boundaries and the same places. Text is recorded once, under its own author and in the author's order, and integrating it splits an author's history the way the author did.",
     "inputs histories",
     "every document, every local or merged edit, every way of splitting a run",
     "a wrong boundary in the index shows only when a later remote edit refers to exactly that position of a run that was split in exactly that way",
     ["src/run_tree.rs", "src/run_indices.rs"],
     [("local edits", "src/run_tree.rs insert, delete"), ("merged edits", "src/run_tree.rs merge_insertion, insert_run_at_zero, insert_run_after_another, append_run_to_another, split_run_with_another, delete_leaf_range"), ("index", "src/run_indices.rs RunIndices, ReplicaIndices, Fragments")])
prop("C03", "Edits that arrive early are kept and applied once they are ready",
     "An edit that arrives before the edits it builds on is kept, once, with its author's other early edits in that author's order, and changes nothing else. Asking for the backlogged edits applies the ones that have become ready, each once and in its author's order, until none is ready any more, and hands back for each what integrating it directly would have. Edits that were integrated meanwhile by other means are dropped, and receiving an early edit again does no harm.",
     "inputs histories schedules",
     "every set of kept edits, in every order of arrival and repetition, from any number of authors",
     "tests deliver a few edits out of order; which list is looked at next, what is at its front and what that unlocks are combinations they do not reach",
     ["src/backlog.rs", "src/replica.rs"],
     [("keeping", "src/backlog.rs insert_insertion, insert_deletion"), ("applying", "src/backlog.rs BackloggedDeletions::next, BackloggedInsertions::next"), ("asking", "src/replica.rs backlogged_deletions, backlogged_insertions")])
prop("C12", "Edits leave the rest of the document where it is",
     "Whatever the size and shape of the document, storing a run of text puts it exactly once at the place chosen for it, and deleting a range hides exactly that range: all other text stays in the document, once and in the same order. Runs are split only where an edit's boundary falls, and joined only with the next part of the same author's run with the same visibility, keeping their text. Walking the document visits every run once, in order, in both directions.",
     "inputs histories",
     "every document (any number of runs, any shape of the tree that holds them), every place and every range",
     "a document of the size tests use rarely has full nodes at the place of the edit; splitting nodes at each possible position, at several levels, with ranges that begin and end in different subtrees, is out of their reach",
     ["src/gtree.rs", "src/run_tree.rs"],
     [("adding runs", "src/gtree.rs insert, insert_in_inode, insert_two_in_inode, bubble, split_leaf_with_another, insert_leaf_after_another"), ("deleting ranges", "src/gtree.rs delete, delete_leaf_range, mod delete"), ("joining runs", "src/run_tree.rs impl Join for EditRun"), ("walks", "src/gtree.rs Leaves, siblings, next_leaf, prev_leaf")])
prop("C19", "Remembering the place of the last edit never changes a result",
     "A replica remembers where the last edit was made so that the next one nearby is found faster. Every operation gives the result it would give if that place had to be looked up again, whatever edits, local or remote, were made in between.",
     "inputs histories",
     "every sequence of local and remote edits and every place remembered in between",
     "a remembered place that has become wrong shows only when an edit that moved it is followed by one that uses it, at an offset where the two disagree",
     ["src/gtree.rs", "src/run_tree.rs"],
     [("using the remembered place", "src/gtree.rs insert, delete, leaf_at_offset, offset_of_leaf"), ("setting and forgetting it", "src/gtree.rs remove_cursor, insert_leaf_after_another, split_leaf_with_another, mod delete; src/run_tree.rs merge_deletion")])
prop("C20", "Lengths and offsets count exactly the visible characters",
     "The length of a replica is the number of its visible characters after any sequence of edits: text that is added counts once, deleted text doesn't count. Looking up an offset finds the run whose visible text holds that offset and the offset inside it, and the offset of a run is the number of visible characters before it.",
     "inputs histories",
     "every document (any number of runs, any shape of the tree that holds them), every offset and every edit",
     "lengths are kept per node and updated along the path of each edit: a node that is missed on one of many paths goes unnoticed until a later edit goes through it",
     ["src/gtree.rs", "src/run_tree.rs", "src/replica.rs"],
     [("keeping lengths", "src/gtree.rs patch, insert_in_inode, insert_two_in_inode, bubble, with_leaf_mut, mod delete"), ("searching by offset", "src/gtree.rs leaf_at_offset, offset_of_leaf, child_at_offset, mod insert, mod delete"), ("what a run counts for", "src/run_tree.rs visible_len")])
prop("C25", "Replicas that have seen the same edits hold the same document",
     "Any two replicas of a session that have integrated the same set of edits hold the same text in the same order with the same characters deleted, whatever the order in which the edits reached them.",
     "inputs histories schedules",
     "every session of any number of replicas and every order of delivery that the edits' dependencies allow",
     "tests compare a few replicas over a few random schedules; ties between runs typed at one place by several replicas have many more interleavings",
     ["src/run_tree.rs", "src/replica.rs"],
     [("placing merged runs", "src/run_tree.rs merge_insertion, insert_run_at_zero"), ("deleting what was seen", "src/run_tree.rs merge_deletion"), ("gates", "src/replica.rs integrate_insertion, integrate_deletion")])
prop("C26", "Editing stays fast in long documents and long sessions",
     "The time of an edit, local or remote, grows with the logarithm of the number of runs in the document, and an edit next to the previous one takes constant time, so that a session with a hundred thousand edits stays interactive.",
     "inputs histories",
     "every document and every session, however long",
     "benchmarks time a few recorded traces on one machine",
     ["src/gtree.rs", "src/run_tree.rs", "src/run_indices.rs"],
     [("searching", "src/gtree.rs leaf_at_offset, offset_of_leaf"), ("remembered place", "src/gtree.rs insert, delete")])
NA = {
 "C25": "two histories of unbounded length have to be compared, and whether runs typed at one place end in the same order depends on the runs that were between them at each delivery: an invariant over all pairs of histories, which no dataflow or typestate argument in reach establishes. What single operations contribute to it is decided by C01, C02, C03, C05, C06, C12, C21 and C22; that these suffice together is an assumption, not a result.",
 "C26": "a bound on running time quantifies over the number of iterations of loops whose length depends on the document and its history (walks over siblings and deleted runs are linear in the worst case by design); the source says nothing about how often that happens.",
}
