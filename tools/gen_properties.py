#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s.strip(), "meaning": "state this property depends on", "where": "src"} for s in state.split(",")]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Replicas that received the same edits hold the same document",
  "Any two peers of a session that have received the same set of insertions and deletions (each edit together with the edits its author had seen when making it), have drained their backlogs and have applied every returned offset and range in the order it was returned, hold exactly the same text, whatever the order in which the edits arrived. This holds for any number of peers, any replica identifiers and lengths, and keeps holding as the session goes on.",
  ["histories", "schedules", "inputs"],
  "every set of concurrent insertions and deletions by every set of peers, every delivery order at every peer, every replica-id assignment, every document size and fragmentation",
  "tests replay a few hand-written two-peer scenarios and one recorded trace each in one delivery order; divergence needs a particular combination of concurrent positions, replica-id order and delivery order",
  ["src/run_tree.rs", "src/run_indices.rs", "src/gtree.rs", "src/replica.rs"],
  [("ordering of runs anchored at the same place (Lamport timestamp, then replica id)", "src/run_tree.rs EditRun Ord, RunTree::merge_insertion / insert_run_after / insert_run_at_zero"),
   ("lookup of the run that contains an anchor", "src/run_indices.rs RunIndices::idx_at_anchor, Fragments"),
   ("Lamport clock merge on receive", "src/replica.rs merge_unchecked_insertion, LamportClock::merge")],
  "run tree of every replica, Lamport/run clocks, version map",
  "buffers rebuilt from the offsets and ranges returned by integrate_insertion / integrate_deletion / backlogged_*", False)

p("C02", "All characters have one stable order, and text lands where it was typed",
  "There is a single total order over all characters ever inserted in a session, agreeing with what every peer shows at every moment: if one character precedes another in some peer's text at some time, it never follows it in any peer's text at any time, also after other text in between was deleted. In particular inserted text ends up, at every peer, after everything that was to its left and before everything that was to its right at its author when it was typed.",
  ["histories", "schedules"],
  "every history of insertions and deletions by several peers, every delivery order, every intermediate state of every peer (not only the final one)",
  "the existing tests compare final texts; an intermediate state that shows two characters in the opposite order, or text placed on the wrong side of a tombstone, only shows up for specific concurrent insert/delete combinations",
  ["src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs"],
  [("placing a local insertion relative to tombstones at the same offset and choosing its anchor", "src/run_tree.rs RunTree::insert"),
   ("placing a remote insertion after its anchor, skipping siblings and their descendants", "src/run_tree.rs RunTree::merge_insertion, insert_run_after, insert_run_at_zero")],
  "order of leaves of the run tree including deleted runs", "offsets returned by integrate_insertion and backlogged_insertions", False)

p("C03", "A deletion removes exactly the characters its author deleted, everywhere",
  "Integrating a deletion removes from a peer's text exactly those characters inside the author's deleted range that were visible to the author and are still visible at the peer: text inserted concurrently inside the range survives, nothing outside it is removed, and overlapping concurrent deletions remove each character once. When it arrives ahead of other edits its author had seen, it may in addition only remove text that the author had already seen deleted. A character that a peer has seen deleted never comes back.",
  ["histories", "schedules", "inputs"],
  "every deleted range over every fragmentation of the document, combined with every set of concurrent insertions and overlapping deletions, in every delivery order",
  "the number of (range, fragmentation, concurrent edit) combinations is far beyond what examples can cover, and the interesting ones start or end in the middle of runs split by concurrent edits or tombstones",
  ["src/run_tree.rs", "src/run_indices.rs", "src/gtree.rs", "src/deletion.rs"],
  [("recording start/end anchors and the author's version vector", "src/replica.rs Replica::deleted, src/run_tree.rs RunTree::delete"),
   ("walking the runs between two anchors, skipping unseen text", "src/run_tree.rs RunTree::merge_deletion / DeletionOp helpers"),
   ("deleting a range of leaves inside/across inodes", "src/gtree.rs delete_range and helpers")],
  "is_deleted flags and splits of runs", "ranges returned by integrate_deletion and backlogged_deletions", False)

p("C04", "Returned offsets and ranges are well formed and can be applied as they are",
  "Every offset returned for an insertion lies within the peer's current text; every list of ranges returned for a deletion consists of non-empty ranges in ascending order, each ending strictly before the next one starts, all within the current text. Applying them keeps the peer's text exactly as long as its replica believes it to be, so that every later local edit at any offset of the text is accepted.",
  ["histories", "inputs"],
  "every integration and backlog drain in every reachable replica state, with text lengths from one byte up to the integer limits",
  "whether two returned ranges touch, are empty or run past the end depends on how the document happens to be fragmented, and an off-by-one is only visible when the following edit depends on it",
  ["src/run_tree.rs", "src/gtree.rs", "src/replica.rs", "src/backlog.rs"],
  [("computing visible offsets of leaves", "src/gtree.rs offset_of_leaf, insert_leaf_after_another, cursor"),
   ("coalescing adjacent deleted ranges", "src/run_tree.rs merge_deletion")],
  "cached inode lengths, cursor", "return values of integrate_insertion, integrate_deletion, backlogged_insertions, backlogged_deletions; lengths accepted by inserted/deleted", False)

p("C05", "Edits received out of order are kept and applied once their context arrives",
  "An edit that arrives before the edits it depends on is kept, and once everything it depends on has been received, draining the backlogged insertions and then the backlogged deletions yields it exactly once, in an order in which the results can be applied; one such drain applies everything that has become applicable, whatever the arrival order. No edit is lost, applied twice or applied before the text it refers to exists, also when a drain is abandoned half-way and resumed later or when some edits never arrive.",
  ["schedules", "histories"],
  "every permutation and every subset of the edits of a session at the receiver, every placement of (complete or partial) drains, including dependency chains that run across several authors, for every assignment of replica ids",
  "tests deliver edits in one or two fixed orders; the failing cases need a chain of dependencies through several authors and a particular arrival order and id order",
  ["src/backlog.rs", "src/replica.rs", "src/version_map.rs"],
  [("readiness test for insertions and deletions", "src/replica.rs can_merge_insertion, can_merge_deletion, has_anchor; src/version_map.rs PartialOrd"),
   ("per-author queues ordered by timestamp and the draining iterators", "src/backlog.rs InsertionsBacklog, DeletionsBacklog, BackloggedInsertions, BackloggedDeletions")],
  "backlog queues, version map, deletion map", "return values of integrate_* and of the backlogged_* iterators", False)

p("C06", "Integrating an edit more than once has no further effect",
  "Delivering an edit again, at any time - after it was applied, while it is still waiting in the backlog, after it became applicable but before the backlog was drained, or to its own author - is harmless: it never panics, it never changes the text a second time, and the peer ends in the same state, with the same later behaviour, as with a single delivery. No-op edits never have any effect anywhere.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of duplicated deliveries with the other deliveries, drains and local edits of a session",
  "a duplicate only matters in specific moments (in the backlog, or between becoming ready and being drained) that tests with at-most-one delivery never produce",
  ["src/replica.rs", "src/backlog.rs"],
  [("already-merged tests", "src/replica.rs has_merged_insertion, has_merged_deletion"),
   ("insertion into the backlog queues", "src/backlog.rs InsertionsBacklog::insert, DeletionsBacklog::insert")],
  "backlog queues, version map, deletion map", "return values of integrate_insertion / integrate_deletion on redelivery and everything observable afterwards", False)

p("C07", "A decoded replica behaves exactly like a fork of the encoded one",
  "Encoding a replica in any reachable state (including pending backlogged edits) and decoding it under a new identifier always succeeds and gives a replica that cannot be told apart from one forked under that identifier: same length, same response to every later remote edit, backlog drain and anchor, and local edits that every other peer integrates identically. Encoding does not alter the replica, and encoding survives being copied through bytes.",
  ["histories", "inputs"],
  "every reachable replica state (document fragmentation, tombstones, clocks, version vectors, backlog contents, replica ids and lengths up to the integer limits), followed by every continuation of the session",
  "the round-trip tests run by the project cover a handful of states, compare only part of the state and never continue the session after decoding",
  ["src/encode.rs", "src/encoded_replica.rs", "src/leb128.rs", "src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs", "src/backlog.rs", "src/version_map.rs", "src/replica.rs"],
  [("encoding and decoding of the run tree and rebuilding of the run indices", "src/run_tree.rs mod encode, src/gtree.rs mod encode, src/run_indices.rs mod encode"),
   ("backlog, version map and clock codecs", "src/backlog.rs mod encode, src/version_map.rs mod encode, src/replica.rs mod encode"),
   ("re-homing the maps under the new id", "src/replica.rs Replica::decode, src/version_map.rs fork_in_place")],
  "entire replica state", "Replica::encode, Replica::decode, EncodedReplica::{from_bytes,as_bytes} and the behaviour of the decoded replica", False)

p("C08", "Damaged encoded replicas are rejected with an error",
  "Decoding an encoded replica that was truncated, extended or altered in any single byte never panics and never yields a replica: it returns an error. Data of another protocol version is reported as such, naming both versions, and a payload that does not match its checksum as a checksum failure.",
  ["inputs", "fault_sequences"],
  "every truncation point, every one-byte change to every value, every appended byte, of the encodings of many reachable replica states",
  "the test suite decodes no damaged data; the interesting positions (length fields, multi-byte integers, the border between header and payload) depend on the encoded content",
  ["src/encoded_replica.rs", "src/encode.rs", "src/leb128.rs"],
  [("header, version and checksum verification", "src/encoded_replica.rs EncodedReplica::to_replica, checksum"),
   ("bounds-checked integer decoding", "src/leb128.rs decode_*")],
  None, "Result of Replica::decode", False)

p("C09", "Edits and anchors survive serialization unchanged",
  "Serializing and deserializing an insertion, deletion, anchor, text or encoded replica with any serde format gives back an equal value that every peer integrates or resolves exactly like the original, for all identifiers, offsets and timestamps up to the integer limits. Truncated or malformed bytes give an error, never a panic.",
  ["inputs", "histories"],
  "every edit and anchor produced by every bounded session, with replica ids, offsets and clocks at the boundaries of every encoded integer width, in a text and a binary format; every truncation of the bytes",
  "the variable-length integer and flag encodings switch shape at particular magnitudes and for particular anchor/run combinations that example-based tests do not hit together",
  ["src/insertion.rs", "src/deletion.rs", "src/anchor.rs", "src/text.rs", "src/encode.rs", "src/leb128.rs", "src/version_map.rs"],
  [("edit codecs with flag bytes for the common anchor/run cases", "src/insertion.rs mod encode, src/deletion.rs mod encode"),
   ("serde glue", "src/encode.rs impl_serialize / impl_deserialize")],
  None, "values obtained through serde and their effect when integrated", False)

p("C10", "Anchors follow the position they were attached to",
  "An anchor created with left bias stays right after the character that was on its left, one with right bias stays right before the character that was on its right, however the text around changes; if that character is deleted the anchor resolves to the offset where it used to be, i.e. the number of visible characters that come before it. An anchor at the very start with left bias always resolves to 0 and one at the very end with right bias always resolves to the length of the text.",
  ["histories", "inputs"],
  "every offset and bias in every reachable document, followed by every bounded sequence of local and remote insertions and deletions around, inside and over the anchored position",
  "there are only a few example anchors in the tests; the result depends on run boundaries, tombstones and on how the anchored run was later split or extended",
  ["src/anchor.rs", "src/run_tree.rs", "src/run_indices.rs", "src/replica.rs"],
  [("creating an anchor at run boundaries with either bias", "src/run_tree.rs RunTree::create_anchor"),
   ("resolving an anchor in split or deleted runs", "src/run_tree.rs RunTree::resolve_anchor, src/run_indices.rs idx_at_anchor")],
  "run tree and run indices", "Replica::create_anchor, Replica::resolve_anchor", False)

p("C11", "Anchors mean the same position at every peer",
  "An anchor created by one peer and resolved by another denotes the same place relative to the characters both know: peers holding the same document resolve it to the same offset, and it keeps its meaning through forks, encoded replicas and serialization. A peer that has not yet integrated the text the anchor is attached to gets None, never a panic or an arbitrary offset; every other peer gets an offset within its text.",
  ["histories", "schedules"],
  "every anchor of every peer, resolved at every other peer in every reachable delivery state (before, between and after the edits it depends on)",
  "tests resolve anchors at most at one other peer in one state; the not-yet-received boundary and the split/merged run cases need specific delivery states",
  ["src/replica.rs", "src/anchor.rs", "src/run_tree.rs", "src/run_indices.rs"],
  [("has the anchored text been integrated", "src/replica.rs Replica::resolve_anchor, has_anchor"),
   ("anchor lookup in the run indices of another replica", "src/run_indices.rs idx_at_anchor")],
  "version map, run indices", "Replica::resolve_anchor at peers other than the creator", False)

p("C12", "Peers can join at any time and forks and clones are independent",
  "A peer created by forking (or by decoding the encoding of) any replica at any point of a session, in whatever state that replica is including pending edits, holds the same text, and from then on is a full peer: its edits integrate everywhere, it integrates everybody's edits including those its parent was still missing, it may itself be forked, and all peers converge. Forks and clones share nothing: no operation on one is observable on the other, and a clone responds exactly as the original would.",
  ["histories", "schedules"],
  "every join point, every chain of joins, every set of edits in flight at the moment of the join, every later history",
  "tests fork only at the start of a session, from idle replicas",
  ["src/replica.rs", "src/version_map.rs", "src/backlog.rs", "src/run_tree.rs"],
  [("re-homing the version and deletion maps under a new id", "src/replica.rs Replica::fork, src/version_map.rs fork / fork_in_place"),
   ("copying the run tree, indices and backlog", "src/replica.rs Clone, fork")],
  "all replica state", "behaviour of the forked replica and of its parent", False)

p("C13", "Local edits are validated; invalid calls fail without damage",
  "A local insertion or anchor at an offset past the end, a deletion reaching past the end or with start after end, a zero replica identifier, and forking to one's own identifier are always refused by a panic, and leave the replica exactly as it was, while every in-bounds call is accepted. All range syntaxes denote the same deletion as the equivalent half-open range, and zero-length insertions and deletions are no-ops for the author and for every peer.",
  ["inputs", "histories"],
  "every offset, every pair of range bounds in every form (inclusive, exclusive, unbounded) around the limits of the text, in every small reachable document state",
  "tests exercise a couple of out-of-bounds calls on fresh replicas and do not check that the replica is unchanged and usable afterwards",
  ["src/replica.rs", "src/utils.rs", "src/insertion.rs", "src/deletion.rs"],
  [("bounds checks", "src/replica.rs inserted, deleted, create_anchor, fork, new, decode"),
   ("range normalization", "src/utils.rs range_bounds_to_start_end"),
   ("no-op edits", "src/insertion.rs Insertion::no_op, src/deletion.rs Deletion::no_op")],
  None, "panics of, and return values from, the public methods; behaviour afterwards", False)

p("C14", "Every edit identifies its author and its text's place in the author's history",
  "The insertions a peer makes carry its identifier and temporal ranges that are as long as the inserted text and follow each other without gaps or overlaps, starting at the length of the initial text for the creator of the session and at zero for every other peer; deletions carry their author's identifier. The text handed back when an insertion is finally taken from a backlog, or carried by a decoded or deserialized edit, identifies precisely that author and range.",
  ["histories", "schedules"],
  "every sequence of local edits interleaved with remote ones, forks, clones and decodes, and every backlog order",
  "users look the text up by author and temporal range, so a gap, reuse or mix-up only shows when a particular delayed edit is finally applied",
  ["src/text.rs", "src/insertion.rs", "src/deletion.rs", "src/replica.rs", "src/backlog.rs"],
  [("allocating temporal ranges from the replica's own character clock", "src/replica.rs Replica::inserted, Replica::new, fork, decode"),
   ("yielding the text of backlogged insertions", "src/backlog.rs BackloggedInsertions")],
  "version map entry of the replica itself", "Insertion::text, Insertion::inserted_by, Deletion::deleted_by, Text, backlogged_insertions", False)

p("C15", "Text typed concurrently at one place is never interleaved",
  "When two peers concurrently each type a block of text front to back (every insertion placed right after the previous one), neither having seen any of the other's, the merged document contains each block's surviving characters contiguously with respect to the other block: one comes entirely before the other at every peer. This holds whichever way the blocks were cut into insertions, wherever they were typed and in whatever order the pieces arrive.",
  ["histories", "schedules"],
  "every pair of forward-typed blocks cut in every way into insertions, at the same or different places, in every delivery order and for every replica-id order, with other edits around",
  "depends on Lamport timestamps and run continuation of both authors and on arrival order; tests have a few fixed instances",
  ["src/run_tree.rs", "src/replica.rs"],
  [("continuing the current run while typing", "src/run_tree.rs RunTree::insert, append to run"),
   ("skipping a concurrent sibling together with everything typed after it", "src/run_tree.rs insert_run_after / insert_run_at_zero")],
  "run tree", "merged buffers of all peers", False)

p("C16", "The replica's self-check passes in every reachable state",
  "The library's own consistency check (the hidden assert_invariants method, which verifies the tree's structure and cached lengths, the index from runs to their fragments, and the ordering of the backlog) succeeds after every operation of every valid session, on every peer and also on replicas obtained by fork, clone and decode. Equivalently, no reachable state contains a dangling, missing, duplicated or mis-sized piece of text.",
  ["histories", "schedules"],
  "every operation sequence up to the explored depth, over trees of one to several levels, around every node-split boundary",
  "structural corruption is latent: it surfaces only in a later, unrelated operation; node splits, index growth and rebalancing happen at sizes and positions tests do not sweep",
  ["src/gtree.rs", "src/run_indices.rs", "src/run_tree.rs", "src/backlog.rs"],
  [("node splitting, insertion of one or two leaves, deletion of ranges, parent links, cached lengths", "src/gtree.rs"),
   ("fragment lists turning from inline arrays into trees, splits and offset moves", "src/run_indices.rs Fragments"),
   ("backlog ordering", "src/backlog.rs assert_invariants")],
  "inodes, leaves, cursor, fragments, backlog", "Replica::assert_invariants", False)

p("C17", "Edits delivered in causal order are applied at once",
  "If a peer has already applied every edit that an edit's author had applied when making it, integrating that edit takes effect immediately: an insertion returns an offset, a deletion returns the ranges of its still visible text, and nothing is left waiting in the backlog. In particular peers connected by in-order links never need the backlog.",
  ["schedules", "histories"],
  "every delivery of an edit to a peer that has everything its author had, in every delivery schedule (causal or with other edits waiting in the backlog) of every bounded session, including peers that joined by fork or decode and edits made after local and remote deletions",
  "a spurious dependency (for example on a peer whose text the deletion does not touch, or on the receiver's own edits) only appears for particular combinations of version vectors",
  ["src/replica.rs", "src/version_map.rs", "src/deletion.rs"],
  [("readiness tests", "src/replica.rs can_merge_insertion, can_merge_deletion, has_anchor"),
   ("version vectors carried by deletions and their comparison", "src/replica.rs Replica::deleted, src/version_map.rs PartialOrd for VersionMap")],
  "version map, deletion map", "return values of integrate_insertion and integrate_deletion; emptiness of the backlog iterators", False)

p("C18", "Asking a replica something changes nothing",
  "Every operation that takes a replica by shared reference (creating and resolving anchors, encoding, forking, cloning, asking for its length, formatting it for debugging) succeeds in every reachable state and leaves no trace: asked again, before or after any other questions, it gives the same answer, and a replica that was asked anything answers every later edit, delivery, drain and question exactly as one that was not. Encodings and forks taken at different times of the same state are interchangeable.",
  ["histories", "inputs"],
  "every reachable state of bounded sessions, every anchor position and bias, every anchor of the session, every ordered pair of questions, and every next step afterwards",
  "tests ask one question of one state; a remembered lookup (the tree keeps a cursor) that is moved or left stale by a question only matters when a particular other question or edit follows",
  ["src/replica.rs", "src/gtree.rs", "src/run_tree.rs", "src/run_indices.rs"],
  [("finding the run at an offset and the offset of a run without moving the cursor", "src/gtree.rs leaf_at_offset, offset_of_leaf"),
   ("creating and resolving anchors", "src/replica.rs create_anchor, resolve_anchor, src/run_tree.rs"),
   ("copying the whole state", "src/replica.rs fork, encode, derived Clone")],
  "run tree, cursor, fragments, clocks, backlog", "create_anchor, resolve_anchor, encode, fork, len, Debug; results of later calls", False)

p("C19", "No use of the safe interface is undefined behaviour",
  "Whatever sequence of calls a program makes through the public, entirely safe interface - edits at any offset, deliveries in any order and any number of times, drains, anchors, copies, forks, encoding, decoding of intact or damaged bytes, deserialization of anything, refused calls and what is done after them - the library never performs an operation that Rust leaves undefined: no access outside of an allocation or to freed or uninitialized memory, no invalid value, no mutation of something shared, no aliased exclusive reference, no violated precondition of an unchecked operation.",
  ["histories", "inputs"],
  "every history of bounded sessions interpreted by Miri (every step checked against the abstract machine), and every history of larger bounded sessions with AddressSanitizer and the standard library's checks of unsafe preconditions",
  "undefined behaviour is not a result that a test could assert on: a test passes or not by the compiler's grace. The tree and the backlog iterators use unsafe code to get around the borrow checker, and whether its preconditions hold depends on the shape of the tree and the state of the iterators",
  ["src/gtree.rs", "src/run_tree.rs", "src/backlog.rs", "src/leb128.rs", "src/encode.rs"],
  [("children of an inode are a union of two kinds of indices, transmuted as slices", "src/gtree.rs Inode::children, child, delete_inode"),
   ("the tree is modified while it is being walked", "src/run_tree.rs merge_deletion"),
   ("draining modifies the replica whose backlog is being drained", "src/backlog.rs BackloggedDeletions, BackloggedInsertions"),
   ("integers are read with vector instructions", "src/leb128.rs decode")],
  "all memory of a replica", "Miri's and AddressSanitizer's verdict on each executed step", False)

p("C20", "A replica's size follows from its edits, not text length or keystrokes",
  "What a replica takes to keep or to send (the size of its encoding) is bounded by the number of edits and authors, whatever the length of the text: every edit adds at most a bounded number of bytes, however much it inserts or deletes. Characters typed one at a time, each right after the previous one, or erased one at a time in either direction, take no more than the same text inserted or erased at once (apart from the digits of counters): at their author, at every peer that receives them in whatever order, and at forks and decoded copies, as long as nothing else is put in between and their author receives no insertions meanwhile. Edits received again, edits without effect, refused calls, questions, and edits that waited in the backlog and have been drained leave nothing behind.",
  ["histories", "schedules", "inputs"],
  "every burst of keystrokes at every place of documents of several shapes, received in every order of a family of orders; every state of bounded sessions",
  "tests look at contents, never at how many pieces they are kept in; a run that is no longer continued, or pieces that are no longer joined, change no result, but a document of a day's typing becomes too big to keep and too slow to edit",
  ["src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs", "src/backlog.rs", "src/replica.rs", "src/encode.rs"],
  [("continuing the run being typed, locally and on receipt", "src/run_tree.rs insert, merge_insertion, append_run_to_another, EditRun::can_append"),
   ("moving text between neighbouring pieces when erasing", "src/run_tree.rs delete, src/gtree.rs move_len_to_next_leaf, move_len_to_prev_leaf"),
   ("fragments of a run", "src/run_indices.rs Fragments"),
   ("removing what has been drained", "src/backlog.rs BackloggedDeletions, BackloggedInsertions")],
  "run tree, fragments, backlog, encodings", "length of Replica::encode's result", False)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
