#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS

CU, API, AST, ST = "src/cursor.rs", "src/api.rs", "src/ast.rs", "src/syntax_text.rs"
GN, GB, GC, GT, GE = "src/green/node.rs", "src/green/builder.rs", "src/green/node_cache.rs", "src/green/token.rs", "src/green/element.rs"
ARC, SLL, UT, SE = "src/arc.rs", "src/sll.rs", "src/utility_types.rs", "src/serde_impls.rs"

P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Building a tree is lossless",
  "A tree built by any balanced sequence of builder calls has exactly the nodes and tokens of that sequence, in order, with the given kinds and token texts. Every element's reported length is the length of its text, and converting the tree (or any part of it) to a string gives the concatenation of its token texts.",
  ["inputs", "programs"], "every sequence of start/token/finish calls, every kind, every text (empty and multi-byte included)",
  "Unit tests build a handful of fixed trees; whether two elements get merged by the hash cache depends on kinds, texts and hash values that no sample covers.",
  [GB, GC, GN, GT, ARC, CU], [("builder stack of parents and finished children", GB + " token/start_node/finish_node/finish"), ("interning of small nodes and tokens", GC), ("green node construction, running text length", GN + " GreenNode::new"), ("thin header+slice allocation", ARC + " from_header_and_iter")],
  [("children", "finished elements not yet owned by a node, with their hashes", GB)], ["GreenNode structure", "text_len", "Display / to_string"])
p("C02", "Ranges partition the text",
  "The root's range is 0 to the text length; the ranges of an element's children tile the element's range without gaps or overlaps, in order; and every element's range selects exactly its own text from the text of the whole tree.",
  ["inputs", "programs"], "every tree, every token length, on immutable and mutable trees",
  "Offsets are sums over all preceding elements and are computed differently for immutable trees, mutable trees and per child; tests look at a few trees.",
  [CU, GN, API], [("relative child offsets in green nodes", GN + " GreenChild::rel_offset"), ("absolute offset stored (immutable) or recomputed (mutable)", CU + " NodeData::offset/offset_mut")],
  None, ["text_range", "text"])
p("C03", "Checkpoints wrap exactly what was added since",
  "Starting a node at a checkpoint gives the same tree as starting it at the moment the checkpoint was taken, however often a checkpoint is used and however checkpoints are nested. Using one that no longer fits panics instead of building a wrong tree: when fewer elements are pending than when it was taken, or when a node opened since, behind further elements, is still open.",
  ["programs"], "every sequence of builder calls with checkpoints taken at any point and used at any later point",
  "One example test exists; the interplay of several checkpoints with open and finished nodes is a matter of all call sequences.",
  [GB], [("position check against open nodes and pending children", GB + " start_node_at"), ("checkpoint position", GB + " checkpoint")],
  None, ["GreenNode structure", "panic"])
p("C04", "The node cache is transparent and shares equal elements",
  "Building through a cache (fresh or used by earlier builders) gives trees equal to building without sharing, whatever was built before and whatever hashes collide. Equal tokens, and equal small nodes over such children, built through the same cache are one shared element; different ones never are.",
  ["histories", "inputs"], "every pair of trees built through one cache, including elements whose hashes collide, in either order, and caches that have grown",
  "A wrong merge needs a hash collision or a comparison that forgets a field; random or hand-picked tests practically never hit one.",
  [GC, GB, GN, GT], [("lookup by hash then by kind, length and child identity", GC + " node/token"), ("hash reuse when the table grows", GC)],
  [("tables of interned nodes and tokens", "all small elements built so far", GC)], ["equality", "pointer identity of green elements"])
p("C05", "Green equality is structural and agrees with hashing",
  "Two green nodes or tokens are equal exactly when they have the same kind, the same text and (for nodes) equal children in the same grouping, no matter how they were built or shared; equal ones have equal hashes.",
  ["inputs"], "every pair of trees, all kinds and texts",
  "Tests compare a few literals; a comparison that ignores one field is only seen by a pair differing in just that field.",
  [GN, GT, GE, ARC], [("comparison of header and children", GN + " PartialEq"), ("thin/thick reference equality and hash", ARC)],
  None, ["== and Hash"])
p("C06", "Green updates are functional list edits",
  "Inserting, removing, replacing or splicing children of a green node returns a node of the same kind whose child list is exactly the edited list, with the right text length and offsets and with the kept children shared; the original node is unchanged. Out-of-range positions panic (replacing a child that does not exist changes nothing) and leave everything intact.",
  ["inputs"], "every child list, every range or index, every replacement list; child iterators that misreport their length",
  "There are no unit tests for these functions.",
  [GN, ARC, GE], [("splice of cloned child list", GN + " splice_children and friends"), ("guard against iterators that lie about their length", ARC + " from_header_and_iter")],
  None, ["children", "text_len", "original node"])
p("C07", "Navigation agrees with the tree",
  "From every element, parent, ancestors, index, first/last child, siblings in both directions, children iterators and all their by-kind variants yield exactly the elements the tree structure says, each once and in order, with correct offsets. This holds on immutable and mutable trees and for iterators that are cloned, half used or converted.",
  ["inputs", "programs"], "every tree, every starting element, every kind assignment and set of kinds, every way of consuming an iterator",
  "Navigation depends on shape (nodes between tokens, empty nodes, ends of lists); tests cover a few shapes and mostly one direction.",
  [CU, API], [("sibling search in the parent's green children", CU + " next_sibling/prev_sibling/…_by_kind"), ("reuse of a uniquely owned handle when moving on", CU + " to_next_sibling")],
  None, ["returned elements, their kind and range"])
p("C08", "Preorder walks visit every element exactly once",
  "A preorder walk of any node produces one enter and one leave event per element of its subtree, properly nested and in document order, and never leaves the subtree; descendants are the entered elements. Skipping a subtree right after entering an element omits exactly the events of what lies below it.",
  ["inputs", "programs"], "every tree, every start node, skipping at any one enter event, with and without tokens",
  "Only whole-tree walks of small trees are exercised; starts in the middle and skips are not.",
  [CU, API], [("event stepping", CU + " Preorder/PreorderWithTokens::next"), ("skip", CU + " skip_subtree/do_skip")],
  None, ["event sequence"])
p("C09", "Token steps enumerate the tokens in order",
  "The first and last token of an element are the first and last tokens in its subtree, and stepping to the next or previous token visits all tokens of the tree in text order, regardless of nesting, empty tokens and childless nodes in between.",
  ["inputs"], "every tree, every element, both directions",
  "Depends on where childless nodes and empty tokens lie; not covered by tests.",
  [CU, API], [("descent to first/last token, climb to next sibling", CU + " first_token/last_token/next_token/prev_token")],
  None, ["returned tokens"])
p("C10", "Token lookup by offset finds exactly the touching tokens",
  "Looking up an offset inside a node's range returns the non-empty token containing it, or the two non-empty tokens meeting there in order, or nothing when the node has no non-empty token touching it. An offset outside of the node's range panics.",
  ["inputs"], "every tree, node, token lengths and offset",
  "Boundary offsets, empty tokens and childless nodes at the boundary are a matter of all lengths; no unit test.",
  [CU, UT], [("recursive lookup among children intersecting the offset", CU + " token_at_offset")],
  None, ["TokenAtOffset value"])
p("C11", "Range lookups return the right covering element",
  "The covering element of a range inside a node is an element of its subtree whose range contains the range and none of whose children's ranges does, apart from ties on an empty range; a range not inside the node panics. Looking up the child at a range returns a child that intersects or touches it, and nothing only if there is none.",
  ["inputs"], "every tree, node and range, all token lengths",
  "Binary search over child offsets has boundary cases (empty children, empty ranges) for which there is no test.",
  [CU, GN], [("descent while a child contains the range", CU + " covering_element"), ("binary search by relative range", GN + " child_at_range")],
  None, ["returned element"])
p("C12", "Replacing an element substitutes exactly that element",
  "Asking for the tree with one node or token replaced by a green element of the same kind returns the green tree that equals the old one except for that element, sharing every element not on the way to it; tree, handles and other trees are unchanged. A replacement of a different kind panics.",
  ["inputs"], "every tree, every element (immutable, mutable, after moves), every replacement kind and content",
  "No unit test covers it.",
  [CU, GN], [("rebuild of the path to the root", CU + " replace_with"), ("green child replacement", GN + " replace_child")],
  None, ["returned green tree"])
p("C13", "Node pointers resolve to their node",
  "A pointer made from a node of an immutable tree resolves, in that tree or an equal copy of it, to a node of the same kind and range (the very node if no other has both); resolved elsewhere it yields a node of that kind and range or nothing. Typed pointers and casts succeed exactly for matching kinds, equal pointers are those with equal kind and range, and mutable trees are refused.",
  ["inputs"], "every tree and node, every other tree, all kinds and lengths",
  "Nodes with equal ranges, empty nodes and adjacent empty nodes decide; the tests only check the mutable-tree panic.",
  [AST, CU], [("descent by range, fallback search for empty ranges", AST + " try_to_node"), ("casts", AST + " AstPtr")],
  None, ["resolved node"])
p("C14", "Mutation behaves like editing an ordered tree",
  "After any sequence of detaching elements and splicing children in mutable trees, every live handle and every fresh traversal shows exactly the tree that the same edits give on a plain ordered tree: parents, children, siblings, indices, offsets, texts and the underlying green tree. This is independent of which other handles are alive, and when they are acquired or dropped.",
  ["histories", "programs"], "every history of detach and splice calls, over every initial tree and every subset of live handles",
  "The intrusive list of live handles makes correctness depend on which handles exist; there is no unit test for mutation.",
  [CU, SLL, GN], [("detach/attach with index and offset fix-up of live siblings", CU + " NodeData::detach/attach_child"), ("propagation of new green nodes to the root", CU + " respine"), ("sorted list of live children", SLL)],
  [("list of live child handles", "sorted by index, only live ones", CU + ", " + SLL)], ["handles", "green tree"])
p("C15", "Mutation is isolated from copies and originals",
  "Mutating a tree never changes the immutable tree it was copied from, other mutable copies, snapshots of green trees taken earlier, or subtrees detached from it before; mutating a detached part does not affect the tree it came from.",
  ["histories"], "every mutation of every copy, with handles to the others alive",
  "Green trees are shared between copies and updated in place of uniquely owned roots; tests do not mutate at all.",
  [CU, GN, ARC], [("green sharing and respine", CU + " respine, clone_for_update, clone_subtree")],
  None, ["all handles on the other trees"])
p("C16", "Detaching or moving yielded children during iteration is safe",
  "Iterating over the children of a mutable node while detaching or moving away the children already yielded visits every original child exactly once, and leaves exactly the others in place.",
  ["histories"], "every child list, every subset detached or moved, with or without other live handles",
  "Documented idiom without a test; whether it works depends on how far ahead the iterator looks.",
  [CU, SLL], [("look-ahead of child iterators in mutable trees", CU + " SyntaxNodeChildren/SyntaxElementChildren::next"), ("index fix-up of live siblings", SLL + " adjust")],
  None, ["yielded children", "remaining children"])
p("C17", "No safe call sequence corrupts or leaks memory",
  "No sequence of safe calls (including ones that panic and are caught, child iterators that misreport their length, callbacks that panic or change the tree they are called from, and handles dropped in any order) reads or writes freed, uninitialised or foreign memory, frees anything twice, or keeps memory alive after all handles and trees are dropped.",
  ["programs", "histories", "fault_sequences"], "every short program over the API: navigation, iteration, lookup, mutation, green updates, building, in every drop order",
  "The crate is built on raw pointers and manual reference counts; an error shows only in specific orders of acquiring, moving and dropping handles.",
  [CU, ARC, SLL, GN, GE, GC], [("manual reference counts of handles", CU + " inc_rc/dec_rc/free"), ("atomic reference counts of green elements", ARC), ("raw green ownership of mutable roots", CU + " into_raw/from_raw")],
  [("reference counts", "handles and children of a node; owners of a green element", CU + ", " + ARC)], ["memory accesses", "live allocations"])
p("C18", "Text views behave like the string they denote",
  "Length, emptiness, character search, character access, slicing (also of slices), chunk iteration, comparison with strings and other text views, and conversion to a string all agree with the same operation on the concatenated text of the node, however that text is split into tokens.",
  ["inputs"], "every text, every split into tokens (empty ones included), every range and character",
  "Only equality has a unit test, over a few fixed splits.",
  [ST], [("tokens intersected with a range", ST + " tokens_with_ranges"), ("slice arithmetic", ST + " slice"), ("chunk-wise comparison", ST + " PartialEq, zip_texts")],
  None, ["results of text operations"])
p("C19", "Typed AST helpers select by kind",
  "The first typed child, the typed children and the first token of a kind are exactly the node's direct children that match, in order; casting succeeds exactly for matching kinds and keeps the node; typed copies for update or of a subtree denote the corresponding node of the copy.",
  ["inputs"], "every tree, every kind assignment, every node",
  "No unit test covers these helpers.",
  [AST], [("filtering children by cast", AST + " support, AstChildren"), ("typed clones", AST + " clone_for_update, clone_subtree")],
  None, ["returned nodes"])
p("C20", "Handles are equal exactly when they denote the same element",
  "Two handles into a tree are equal, and hash alike, exactly when they denote the same element, no matter along which way they were obtained; handles of different occurrences of one shared element differ, also when these have no text. Equal handles hash alike also when they belong to different trees (copies of a tree or of a subtree, mutable copies, detached parts).",
  ["inputs", "programs"], "every tree, every pair of elements, every way to reach them",
  "Equality goes by green address and offset, so sharing and zero-width elements matter; not tested.",
  [CU, API], [("identity key", CU + " NodeData::key, PartialEq, Hash")],
  None, ["==, Hash"])
p("C21", "Misuse of mutation panics and changes nothing",
  "Mutating calls on immutable trees, copying a mutable tree for update, inserting elements that are immutable, out of range or above the node itself, and similar misuse panic; a root can be detached without effect. After a caught panic the trees involved still show a consistent state and remain usable.",
  ["programs", "fault_sequences"], "every call, element and position on immutable, mutable and mixed trees",
  "No test checks that a failed call leaves the tree intact.",
  [CU], [("mutability and root assertions", CU + " detach/attach_child/splice_children/clone_for_update")],
  None, ["panic", "tree state afterwards"])
p("C22", "Green trees can be shared freely between threads",
  "Cloning, reading, comparing, editing and dropping shared green trees and tokens from several threads at once is free of data races under every interleaving; every element stays valid while anyone owns it and is freed exactly once when the last owner lets go.",
  ["schedules"], "every interleaving of a few threads that each clone, read, update and drop shared green elements",
  "A wrong ordering or count shows up only in rare schedules, and weak orderings not at all on x86.",
  [ARC, GN, GT, GE], [("atomic reference count, release decrement and acquire before free", ARC + " Clone/Drop"), ("uniqueness test", ARC + " is_unique/get_mut")],
  [("reference count", "number of owners of a green element", ARC)], ["memory accesses", "frees"])
p("C23", "The green child iterator obeys the iterator laws",
  "Any interleaving of front and back steps, skips, length queries, folds and counts on the children of a green node yields exactly the child list consumed from both ends, reports the exact remaining length, and stays exhausted once exhausted.",
  ["programs", "inputs"], "every child list and every sequence of iterator calls",
  "Most of these methods are hand-written overrides that no test calls.",
  [GN], [("delegation to slice iterator", GN + " Children")],
  None, ["yielded children", "len/size_hint"])
p("C24", "Serialization is faithful",
  "Serializing a node or token yields its kind's debug name, its range, and its text (token) or the serialized children in order (node), for any serializer; an error of the serializer at any point stops the serialization and is returned.",
  ["inputs", "fault_sequences"], "every tree, element and text; failure at any serializer call",
  "No unit test; error paths are never exercised.",
  [SE], [("Serialize implementations", SE)], None, ["serializer calls", "returned error"])
p("C25", "Debug and display output is faithful and total",
  "Displaying any element gives its text; debug-printing gives kind and range (and quoted text for tokens), and the alternate form one such line per element, indented by depth. Debug output of green elements gives kind, length and number of children or text. Long token texts are cut at a character boundary without panicking, and an error of the output sink is reported.",
  ["inputs", "fault_sequences"], "every tree, every text including multi-byte characters around the cut, a sink failing at any byte",
  "Cutting depends on where multi-byte characters lie; tests print one ASCII tree.",
  [API, CU, GN, GT], [("Debug/Display", API + ", " + CU)], None, ["formatted strings"])
p("C26", "Small value types keep their contracts",
  "Zero, one or two tokens at an offset iterate, count and map in order and prefer the left or right one as asked; node-or-token values give back what they hold, elements forward every query to the node or token inside, and conversions between typed, untyped and element forms are lossless.",
  ["inputs"], "every shape and every value",
  "No unit tests; used everywhere.",
  [UT, API, CU, AST], [("TokenAtOffset, NodeOrToken, WalkEvent", UT), ("element forwarding and conversions", API)], None, ["returned values"])

TECH = "symbolic execution of the compiled code (LLVM IR) with SMT solving (Z3), all paths within bounds"
NA = {}
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for q in P:
        i = q["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({
                "property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                "technique": TECH + c.get("technique", ""), "level": "model_checking",
                "level_note": "Holds for every value within the bounds, on every feasible path of the compiled code: %s. Outside: %s. Trusts rustc, the executor's LLVM semantics (validated against native runs) and Z3." % (c["bounds"], c["outside"])})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "./build.sh target engine ir native-dev",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. check.py rebuilds the executor, the IR of harness + rowan, and the native replay binary on every run."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
