"""What each check runs: harness entries with their bounds per tier."""
ASSUMPTIONS = [
    "one target: x86_64, rustc stable, opt-level 1, debug assertions and overflow checks on",
    "the LLVM IR emitted by rustc and the executor's semantics of it (validated by replaying samples natively) are faithful",
    "Z3 is sound",
    "allocation succeeds and every allocation gets fresh memory (addresses are not reused)",
]


def R(entry, quick, thorough=None, covers=0, what="", **kw):
    q = quick if isinstance(quick, list) else [quick]
    if thorough is None:
        thorough = quick
    t = thorough if isinstance(thorough, list) else [thorough]
    return dict(entry=entry, quick=q, thorough=t, covers=covers, what=what, **kw)


def P(**kw):
    return kw


def WIDE(part, *ms, **kw):
    """A node with m children, looked at near its ends and near child `around`."""
    return R("hx_wide", [P(m=m, part=part, around=a, **kw) for m, a in ms], covers=1, steps=10**9, what="a node with many children, any place near its ends and near child number `around` (or any place)")


def DEEP(*ds, **kw):
    return R("hx_deep", [P(d=d, around=a, **kw) for d, a in ds], covers=1, steps=10**9, what="deeply nested nodes, any depth")


DEEP_PRINT = R("hx_deep_print", [P(d=40, around=16), P(d=300, around=256)], covers=1, steps=10**9, what="deeply nested nodes: built, compared, serialized, dumped")
LONG = R("hx_long_tokens", P(sizes=9), covers=1, what="tokens of 127 to 65537 bytes")
PAIRS = R("hx_long_pairs", P(sizes=13), P(sizes=19), covers=1, what="two tokens of 8 to 40 bytes, all bytes free: equality, hash, text, search")
TREES = "trees of up to n elements below the root, depth up to 4"

CHECKS = {
    "C01": dict(
        runs=[
            R("hx_build", [P(n=4, ktab=2, ttab=2), P(n=3, kbits=1), P(n=3, ktab=3, ttab=3), P(n=2, ktab=7, ttab=6)],
              [P(n=5, ktab=2, ttab=2), P(n=3, kbits=2), P(n=4, kbits=1), P(n=2, kbits=0, stext=1, len=1), P(n=4, ktab=3, ttab=3), P(n=3, ktab=7, ttab=6)], covers=1,
              what="the built tree has the structure, kinds, texts, text lengths and text of the call sequence"),
            R("hx_build_long", P(len=38), P(len=38), covers=2, what="tokens of every length, nearly equal ones included"),
            R("hx_green_text", P(n=6), P(n=7), covers=1, what="the same tree built without a cache"),
            WIDE(6, (270, 256)), WIDE(6, (66000, 65536), few=1), DEEP_PRINT,
            LONG,
        ],
        bounds=TREES + "; kinds and texts symbolic in a few bits / bytes, or any entry of tables of colliding ones",
        outside="longer sequences, arbitrary 16-bit kinds in one query, texts longer than 16 bytes, total text beyond 4 GiB"),
    "C02": dict(
        runs=[R("hx_ranges", [P(n=3, ttab=6), P(n=6), P(n=5, mutable=1)], [P(n=4, ttab=6), P(n=7), P(n=6, mutable=1)], covers=2,
                what="children tile the parent's range; every token's range selects its text in the root's text"),
              R("hx_ranges", P(n=4, big=1), P(n=6, big=1), covers=2, what="tokens of up to 2^28 bytes"),
              WIDE(0, (66000, 65536)), DEEP((300, 256)), LONG],
        bounds=TREES + "; every token length 0..40 (symbolic)",
        outside="bigger trees; texts beyond 4 GiB"),
    "C03": dict(
        runs=[R("hx_checkpoints", [P(n=7)], [P(n=8), P(n=9)], covers=5,
                what="every sequence of builder calls with checkpoints taken and used anywhere, against a list model; misuse must panic"),
              WIDE(6, (270, 256), (300, 0)), WIDE(6, (66000, 65536), few=1)],
        bounds="every sequence of up to n builder calls",
        outside="longer sequences; a checkpoint used after the node it was taken in was finished; finish with open nodes"),
    "C04": dict(
        runs=[
            R("hx_cache", [P(n=3, n2=2, ktab=2, ttab=2), P(n=2, n2=2, ktab=2, ttab=2, order=1), P(n=1, n2=1, ktab=7, ttab=6)],
              [P(n=3, n2=3, ktab=2, ttab=2), P(n=2, n2=2, ktab=3, ttab=3), P(n=2, n2=2, ktab=3, ttab=2, order=1), P(n=2, n2=1, ktab=7, ttab=6)], covers=1,
              what="trees built one after the other through one cache equal trees built without; equal small subtrees are shared"),
            R("hx_cache_kinds", [P(kbits=6, node=0), P(kbits=6, node=1), P(kbits=4, kids=3), P(kbits=4, kids=2, deep=1), P(kfix=2, split=1, kbits=12, kids=3), P(kfix=2, split=1, kbits=12, kids=2, deep=1), P(kfix=2, split=1, kbits=16, kids=1)], [P(kbits=8, node=0), P(kbits=8, node=1), P(kbits=5, kids=3), P(kbits=5, kids=3, deep=1), P(kbits=5, kids=2), P(kfix=2, split=1, kbits=16, kids=3), P(kfix=2, split=1, kbits=16, kids=3, deep=1), P(kfix=2, split=1, kbits=12, kids=4), P(kfix=2, split=1, kbits=16, kids=1, txt=7)], covers=2,
              what="two elements of any kinds, or with a child of any kind"),
            R("hx_build_long", P(len=38), P(len=38), covers=2, what="tokens are merged exactly when kind and text are equal"),
            R("hx_cache_grow", P(m=30), [P(m=30), P(m=55)], covers=1, what="sharing survives growth of the cache"),
            WIDE(6, (270, 256)),
            LONG,
        ],
        bounds="two trees of up to n and n2 elements through one cache; kinds and texts from tables with hash collisions",
        outside="other hash collisions; caches shared by more than two builders"),
    "C05": dict(
        runs=[R("hx_green_eq", [P(n=3, n2=3), P(n=2, n2=2, len=2)], [P(n=3, n2=3), P(n=3, n2=3, len=2), P(n=4, n2=4)], covers=2,
                what="== on green nodes and tokens is structural equality, and equal elements hash alike"),
              WIDE(5, (270, 256)), WIDE(5, (66000, 65536), few=2), DEEP_PRINT, PAIRS],
        bounds="pairs of trees of up to n and n2 elements, all kinds (16 bits, symbolic), all texts (symbolic bytes)",
        outside="bigger trees"),
    "C06": dict(
        runs=[
            R("hx_green_update", [P(m=4), P(m=5, elems=2), P(m=3, far=1)], [P(m=5), P(m=6, elems=3), P(m=4, far=1)], covers=2,
              what="splice_children / insert_child / remove_child / replace_child give the edited list, leave the original, share the rest"),
            R("hx_green_lying", P(), P(), covers=2, what="children given by an iterator whose reported length is wrong"),
            WIDE(2, (270, 256), (66000, 65536)),
        ],
        bounds="a node with up to m children, every 64-bit index and range and every replacement of up to elems elements",
        outside="longer child lists"),
    "C07": dict(
        runs=[
            R("hx_nav_step", [P(n=6), P(n=6, mutable=1), P(n=6, share=1)], [P(n=7), P(n=7, mutable=1), P(n=8, share=1), P(n=7, share=1, mutable=1)], covers=2, what="parent, children, siblings, index from every element"),
            R("hx_nav_iters", [P(n=5), P(n=5, mutable=1), P(n=5, share=1)], [P(n=7), P(n=6, mutable=1), P(n=7, share=1)], covers=2, what="child, sibling and ancestor iterators, also partly consumed and cloned"),
            R("hx_nav_by_kind", [P(n=3), P(n=3, mutable=1), P(n=3, keep=1)], [P(n=5), P(n=4, mutable=1), P(n=4, keep=1)], covers=2, what="lookups by kind, for every kind of every element and every set of kinds"),
            R("hx_nav_in_place", [P(n=5), P(n=5, mutable=1), P(n=5, share=1)], [P(n=6), P(n=6, mutable=1), P(n=7, share=1)], covers=3, what="consuming moves to siblings"),
            R("hx_nav_step", P(n=4, big=1), P(n=5, big=1), covers=2, what="tokens of up to 2^28 bytes"),
            R("hx_nav_in_place", P(n=3, big=1), P(n=4, big=1), covers=3, what="tokens of up to 2^28 bytes"),
            WIDE(0, (270, 256), (66000, 65536)), WIDE(1, (300, 0), (66000, 65536)), DEEP((300, 0)),
        ],
        bounds=TREES + "; token lengths 0..40 symbolic; kinds symbolic where looked up",
        outside="bigger trees"),
    "C08": dict(
        runs=[R("hx_walk", [P(n=5), P(n=5, mutable=1), P(n=5, share=1)], [P(n=6), P(n=6, mutable=1), P(n=6, share=1)], covers=2,
                what="preorder events, descendants, and skip_subtree at any Enter, from every start"),
              WIDE(1, (270, 256), (66000, 65536)), DEEP((300, 256))],
        bounds=TREES,
        outside="bigger trees; skip_subtree called twice or right after a Leave"),
    "C09": dict(
        runs=[R("hx_tokens", [P(n=6), P(n=5, mutable=1), P(n=6, share=1)], [P(n=7), P(n=6, mutable=1), P(n=8, share=1)], covers=2,
                what="first/last/next/prev token from every element give the token sequence"),
              R("hx_tokens", P(n=4, big=1), P(n=5, big=1), covers=2, what="tokens of up to 2^28 bytes"),
              WIDE(0, (270, 256)), DEEP((300, 0))],
        bounds=TREES + "; token lengths symbolic",
        outside="bigger trees"),
    "C10": dict(
        runs=[R("hx_at_offset", [P(n=5), P(n=4, mutable=1), P(n=5, share=1)], [P(n=6), P(n=6, mutable=1), P(n=7, share=1)], covers=4,
                what="every offset 0..1000 in every node"),
              R("hx_at_offset", P(n=4, big=1), P(n=5, big=1), covers=4, what="tokens of up to 2^28 bytes"),
              WIDE(0, (270, 256), (66000, 65536)), DEEP((300, 256))],
        bounds=TREES + "; token lengths 0..40 symbolic",
        outside="bigger trees; longer tokens"),
    "C11": dict(
        runs=[
            R("hx_covering", [P(n=4), P(n=4, mutable=1), P(n=5, share=1)], [P(n=5), P(n=5, mutable=1), P(n=6, share=1)], covers=4, what="every range in every node"),
            R("hx_child_at_range", [P(n=4), P(n=4, mutable=1), P(n=5, share=1)], [P(n=5), P(n=5, mutable=1), P(n=6, share=1)], covers=2, what="every range in every node"),
            R("hx_covering", P(n=4, big=1), P(n=5, big=1), covers=4, what="tokens of up to 2^28 bytes"),
            R("hx_child_at_range", P(n=4, big=1), P(n=5, big=1), covers=2, what="tokens of up to 2^28 bytes"),
            WIDE(0, (270, 256), (66000, 65536)), DEEP((300, 0)),
        ],
        bounds=TREES + "; token lengths 0..40 symbolic, offsets 0..1000",
        outside="bigger trees; child_or_token_at_range for ranges beginning before the node"),
    "C12": dict(
        runs=[R("hx_replace", [P(n=5), P(n=4, len=2, empty=1), P(n=6, share=1)], [P(n=6), P(n=5, len=2, empty=1), P(n=7, share=1)], covers=3,
                what="replacing every element of every tree by an element of any kind; kept elements are shared, tree and handles do not change"),
              WIDE(2, (270, 256), (66000, 65536)), DEEP((300, 256))],
        bounds=TREES + "; immutable, mutable, and after one detach; kind of the replacement symbolic (16 bits)",
        outside="bigger trees"),
    "C13": dict(
        runs=[
            R("hx_ptr_self", [P(n=5), P(n=5, share=1)], [P(n=6), P(n=7, share=1)], covers=1, what="a pointer resolves to its node in its own tree"),
            R("hx_ptr_other", [P(n=3, n2=3)], [P(n=4, n2=3), P(n=3, n2=4)], covers=2, what="a pointer resolved in any other tree gives a node of that kind and range, or nothing when there is none"),
            R("hx_ptr_typed", P(n=4), P(n=5), covers=2, what="typed pointers and casts"),
            R("hx_ptr_self", P(n=4, big=1), P(n=5, big=1), covers=1, what="tokens of up to 2^28 bytes"),
            R("hx_ptr_other", P(n=3, n2=2, big=1), P(n=3, n2=3, big=1), covers=2, what="tokens of up to 2^28 bytes"),
            R("hx_ptr_mutable", P(n=3), P(n=4), what="mutable trees are refused"),
        ],
        bounds=TREES + "; token lengths and kinds symbolic",
        outside="bigger trees"),
    "C14": dict(
        runs=[
            R("hx_mut_ops", [P(n=3, steps=1), P(n=2, steps=2, donor=0), P(n=3, steps=3, ops=1, donor=0), P(n=3, steps=2, ops=2, donor=0, exact=1, subset=0), P(n=3, steps=1, share=1), P(n=2, steps=1, ops=2, far=1)],
              [P(n=3, steps=1, len=2, empty=1), P(n=4, steps=1, share=1, donor=0), P(n=2, steps=2), P(n=4, steps=1, ops=2, donor=0), P(n=3, steps=2, ops=2, donor=0, exact=1), P(n=4, steps=3, ops=1, donor=0)],
              covers=1, what="detach and splice_children, with handles on every subset of the elements, against an ordered forest"),
            R("hx_mut_move_all", P(n=4), P(n=5), covers=1, what="moving children from one node to another"),
            R("hx_mut_walks", [P(n=3), P(n=3, share=1)], [P(n=4), P(n=4, share=1)], covers=3, what="walks, offsets and token steps of a tree after mutations"),
            WIDE(3, (300, 0), (66000, 65536)), DEEP((300, 256)),
        ],
        bounds="trees of up to n elements and a donor tree, handles on every subset of elements, every sequence of that many mutations",
        outside="longer sequences, bigger trees"),
    "C15": dict(
        runs=[R("hx_mut_ops", [P(n=3, steps=1, look=1, donor=0), P(n=2, steps=2, look=1, donor=0, ops=2)], [P(n=4, steps=1, look=1, donor=0), P(n=3, steps=2, look=1, donor=0, ops=2)],
                what="green trees borrowed or taken from handles before the change"),
              R("hx_mut_isolation", [P(n=3), P(n=3, share=1)], [P(n=2, steps=2), P(n=4), P(n=4, share=1)], covers=3,
                what="mutating a tree changes neither the tree it was cloned from, nor other clones, nor detached parts, nor green trees taken before")],
        bounds="trees of up to n elements, every mutation",
        outside="bigger trees"),
    "C16": dict(
        runs=[
            R("hx_mut_detach_iter", [P(n=5), P(n=3, hold=1)], [P(n=6), P(n=4, hold=1)], covers=1, what="detaching yielded children while iterating"),
            R("hx_mut_move_all", P(n=5), P(n=6), covers=1, what="moving yielded children elsewhere while iterating"),
        ],
        bounds="nodes with up to n children, every subset detached",
        outside="longer child lists; structural changes of not yet yielded children"),
    "C17": dict(
        runs=[
            R("hx_mut_ops", [P(n=2, steps=1, leak=1), P(n=2, steps=1, leak=1, revdrop=1), P(n=3, steps=1, leak=1, ops=2)],
              [P(n=3, steps=1, leak=1), P(n=3, steps=1, leak=1, revdrop=1), P(n=2, steps=2, leak=1)], what="mutations"),
            R("hx_mut_misuse", P(n=4, leak=1), P(n=5, leak=1), what="panicking calls"),
            R("hx_mut_callbacks", [P(n=2, leak=1), P(n=3, leak=1, subset=0)], [P(n=3, leak=1), P(n=4, leak=1, subset=0)], covers=6, what="iterators, matchers, writers and functions of the caller that panic or change the tree"),
            R("hx_mut_walk_edit", [P(n=2, leak=1, ops=2, subset=0), P(n=3, leak=1, ops=1, subset=0)], [P(n=2, leak=1, ops=2), P(n=3, leak=1, ops=1), P(n=3, leak=1, ops=2, subset=0)], covers=3, what="a tree changed in the middle of any walk"),
            R("hx_mut_detach_iter", P(n=3, leak=1, hold=1), P(n=4, leak=1, hold=1), what="detaching while iterating"),
            R("hx_mut_isolation", P(n=2, leak=1), P(n=3, leak=1), what="clones"),
            R("hx_nav_step", [P(n=4, leak=1), P(n=4, leak=1, mutable=1)], [P(n=5, leak=1), P(n=5, leak=1, mutable=1)], what="navigation"),
            R("hx_nav_iters", [P(n=4, leak=1), P(n=4, leak=1, mutable=1)], [P(n=5, leak=1), P(n=5, leak=1, mutable=1)], what="iterators"),
            R("hx_nav_in_place", [P(n=4, leak=1), P(n=4, leak=1, mutable=1)], [P(n=5, leak=1), P(n=5, leak=1, mutable=1)], what="in-place moves"),
            R("hx_nav_by_kind", [P(n=3, leak=1), P(n=3, leak=1, mutable=1), P(n=3, leak=1, keep=1)], [P(n=4, leak=1), P(n=4, leak=1, mutable=1), P(n=4, leak=1, keep=1)], what="lookups by kind"),
            R("hx_walk", [P(n=4, leak=1), P(n=4, leak=1, mutable=1)], [P(n=5, leak=1), P(n=5, leak=1, mutable=1)], what="walks"),
            R("hx_tokens", [P(n=4, leak=1), P(n=4, leak=1, mutable=1)], [P(n=5, leak=1), P(n=5, leak=1, mutable=1)], what="token steps"),
            R("hx_at_offset", P(n=4, leak=1), P(n=5, leak=1), what="lookup by offset"),
            R("hx_covering", P(n=4, leak=1), P(n=5, leak=1), what="lookup by range"),
            R("hx_replace", P(n=4, leak=1), P(n=5, leak=1), what="replace_with"),
            R("hx_green_update", P(m=3, leak=1), P(m=4, leak=1), what="green updates"),
            R("hx_green_lying", P(), P(), what="children from an iterator that lies about its length"),
            R("hx_green_eq", P(n=2, n2=1, leak=1), P(n=2, n2=2, leak=1), what="green trees and tokens"),
            R("hx_cache", P(n=2, n2=2, ktab=2, ttab=2, leak=1), P(n=2, n2=2, ktab=2, ttab=2, leak=1), what="builder and cache"),
            R("hx_checkpoints", P(n=6, leak=1), P(n=7, leak=1), what="builder calls"),
            R("hx_serde", P(n=3, leak=1), P(n=4, leak=1), what="serialization"),
            WIDE(0, (270, 256), leak=1), WIDE(1, (270, 256), leak=1), WIDE(2, (270, 256), leak=1), WIDE(3, (270, 256), leak=1),
            WIDE(4, (270, 256), leak=1), WIDE(5, (270, 256), leak=1), WIDE(6, (270, 256), leak=1),
            DEEP((300, 256), leak=1),
            R("hx_long_tokens", P(sizes=9, leak=1), covers=1, what="long tokens"),
            R("hx_many_handles", P(m=66000, leak=1), covers=1, what="66000 owners of one node, token or green element"),
        ],
        bounds="as in the other properties, smaller",
        outside="threads (see C22); memory obtained by panicking iterators",
        assumptions=["memory errors are those of the executor's byte-level heap: out-of-bounds, use after free, double free, bad free, uninitialised reads, misalignment, plus leaks; aliasing rules (Stacked/Tree Borrows) are not modelled"]),
    "C18": dict(
        runs=[
            R("hx_text_ops", [P(n=3, len=2), P(n=3, len=2, again=1)], [P(n=4, len=2), P(n=5, len=1), P(n=4, len=1, again=1)], covers=3, what="len, contains_char, find_char, char_at, chunks, Display against the string"),
            R("hx_text_utf8", P(n=3, mixed=4), P(n=4, mixed=5), covers=1, what="multi-byte characters"),
            R("hx_text_slice", P(n=4), P(n=5), covers=2, what="slice and slice of slice for every kind of range bound"),
            R("hx_text_eq", [P(n=3, n2=3), P(n=2, n2=2, cut=1), P(n=3, n2=1, same=1, cut=1), P(n=4, n2=1, same=1, cut=1, len=1)], [P(n=4, n2=3), P(n=4, n2=4), P(n=3, n2=2, cut=1), P(n=4, n2=1, same=1, cut=1)], covers=2, what="equality with strings and texts split differently"),
            WIDE(0, (270, 256)), WIDE(5, (270, 256)), LONG, PAIRS,
        ],
        bounds="texts split into up to n tokens of up to len symbolic bytes (or mixed-width characters), every range",
        outside="longer texts; offsets that are not character boundaries"),
    "C19": dict(
        runs=[R("hx_ast", [P(n=6), P(n=5, mutable=1)], [P(n=7), P(n=6, mutable=1)], covers=6,
                what="support::child, children, token, cast, clone_for_update and clone_subtree, for every kind of every element")],
        bounds="trees of up to n elements, kinds symbolic (8 bits), wanted kind 16 bits",
        outside="bigger trees"),
    "C20": dict(
        runs=[
            R("hx_identity", [P(n=5), P(n=5, share=1)], [P(n=6), P(n=7, share=1)], covers=1, what="handles reached along different ways are equal (and hash alike) exactly when on the same element"),
            R("hx_identity_shared", [P(n=4), P(n=2, big=1)], [P(n=5), P(n=4, big=1)], covers=2, what="occurrences of one shared subtree give different handles, also when it has no text"),
            R("hx_identity", P(n=4, big=1), P(n=5, big=1), covers=1, what="tokens of up to 2^28 bytes"),
            R("hx_mut_ops", [P(n=4, steps=1, ops=1, share=1, donor=0), P(n=3, steps=2, ops=1, share=1, donor=0), P(n=3, steps=1, ops=1, share=1, donor=0, empty=1)], [P(n=4, steps=1, share=1, donor=0), P(n=3, steps=1, ops=2, share=1, donor=0, empty=1), P(n=4, steps=2, ops=1, share=1, donor=0), P(n=5, steps=1, ops=1, share=1, donor=0)], covers=1, what="after detachments, handles held and handles taken anew are equal exactly when on the same element"),
        ],
        bounds=TREES, outside="bigger trees"),
    "C21": dict(
        runs=[R("hx_mut_misuse", P(n=4), P(n=5), covers=7, what="mutating calls on immutable trees, on roots, out of range, of nodes below themselves, and with foreign elements: they panic and change nothing"),
              R("hx_mut_callbacks", P(n=2), [P(n=3), P(n=4, subset=0)], covers=6, what="panics in code of the caller")],
        bounds="trees of up to n elements, every call and position", outside="bigger trees"),
    "C22": dict(
        runs=[
            R("hx_threads", [P(threads=2, ops=9, m=1, shapes=3), P(threads=2, ops=5, m=2, shapes=3), P(threads=3, ops=6, m=1, shapes=2), P(threads=2, ops=9, m=2, cached=1, shapes=2)],
              [P(threads=2, ops=9, m=2, shapes=3), P(threads=3, ops=6, m=1, shapes=3), P(threads=3, ops=3, m=2, shapes=1), P(threads=3, ops=9, m=1, shapes=1), P(threads=2, ops=9, m=2, cached=1, shapes=3)], covers=2, threads=True,
              what="every program of each thread, every interleaving of its atomic operations, every value a plain atomic load may return"),
            R("hx_thread_cursors", P(), P(), covers=1, threads=True, what="cursors shared between threads, if their types allow it"),
        ],
        bounds="2 threads with up to m operations each, 3 threads with one (quick) or two simple ones (thorough); trees of up to 5 elements with an inner node that may be shared; every handle a thread may own (root, inner node, token, borrowed root, builder cache)",
        outside="more threads, operations and elements; SeqCst fences as stronger than acquire/release; plain atomic stores reordered before earlier ones",
        assumptions=["the C11 memory model without load buffering; a counterexample is confirmed under Miri"]),
    "C23": dict(
        runs=[R("hx_green_iter", P(m=4, steps=4, far=1), P(m=5, steps=5, far=1), covers=2,
                what="every sequence of next, next_back, nth, nth_back, len, size_hint, last, count, fold, rfold on children of a green node")],
        bounds="up to m children, every sequence of that many calls, steps of any 64-bit length", outside="longer lists"),
    "C24": dict(
        runs=[R("hx_serde", [P(n=4), P(n=3, len=2)], [P(n=5), P(n=4, len=2)], covers=2, what="serializing every element of every tree, into a serializer that may fail at any call"),
              WIDE(4, (270, 256)), DEEP_PRINT],
        bounds="trees of up to n elements, symbolic text bytes", outside="bigger trees; particular data formats"),
    "C25": dict(
        runs=[
            R("hx_debug", [P(n=4), P(n=4, mutable=1)], [P(n=6), P(n=5, mutable=1)], covers=4, what="{:?}, {:#?}, {} of every element, of green elements, texts and untyped cursors"),
            R("hx_debug_long", P(more=5), P(more=6), covers=2, what="Debug of long tokens with characters of any width around the cut"),
            R("hx_fmt_errors", [P(n=4), P(n=3, texts=3)], [P(n=5), P(n=4, texts=3)], covers=2, what="a writer that fails at any byte, for good or once"),
            WIDE(4, (270, 256)), DEEP_PRINT,
        ],
        bounds="trees of up to n elements; long tokens of up to 26 one-byte characters followed by up to `more` of any width",
        outside="bigger trees; Debug of untyped tokens"),
    "C26": dict(
        runs=[R("hx_utility", P(n=5), P(n=6), covers=5, what="TokenAtOffset, NodeOrToken, WalkEvent, elements, pointers and conversions")],
        bounds="values symbolic (32 bits); trees of up to n elements", outside="bigger trees"),
}

# The same checks on small symbolic trees that stand behind up to 30 filler
# siblings, before some, or inside a chain of filler nodes (see Tree::sym).
W = dict(pads=3, tail=3)
FILL = {
    "C01": [("hx_build", [P(n=2, kbits=1, **W), P(n=2, pads=2, tail=1, ktab=3, ttab=3), P(n=2, kbits=1, nest=9), P(n=3, ktab=3, koff=7, ttab=1), P(n=4, ktab=2, koff=8, ttab=1), P(n=3, ktab=1, ttab=5, toff=6), P(n=2, ktab=1, ttab=10)]),
            ("hx_green_text", [P(n=3, pads=3), P(n=2, nest=9)])],
    "C02": [("hx_ranges", [P(n=2, **W), P(n=2, mutable=1, pads=3, tail=2), P(n=2, nest=9)])],
    "C04": [("hx_cache", [P(n=2, n2=2, ktab=2, ttab=2, pads=1), P(n=2, n2=2, ktab=3, koff=7, ttab=1), P(n=2, n2=2, ktab=1, ttab=5, toff=6), P(n=1, n2=1, ktab=3, ttab=10)])],
    "C05": [("hx_green_eq", [P(n=2, n2=2, pads=1, kbits=4), P(n=1, n2=1, pads=3, kbits=4), P(n=1, n2=1, pads=1, tail=3, kbits=4), P(n=1, n2=1, nest=6, kbits=4)])],
    "C06": [("hx_green_update", [P(m=1, base=6), P(m=1, base=15)])],
    "C07": [("hx_nav_step", [P(n=2, **W), P(n=2, mutable=1, pads=3, tail=2), P(n=2, nest=9)]),
            ("hx_nav_iters", [P(n=2, **W), P(n=2, mutable=1, pads=3, tail=2), P(n=2, nest=9)]),
            ("hx_nav_in_place", [P(n=2, **W), P(n=2, mutable=1, pads=3, tail=2), P(n=2, nest=9)]),
            ("hx_nav_by_kind", [P(n=1, pads=2, tail=2), P(n=1, pads=2, tail=2, mutable=1)])],
    "C08": [("hx_walk", [P(n=2, **W), P(n=2, mutable=1, pads=3, tail=2), P(n=2, nest=9)])],
    "C09": [("hx_tokens", [P(n=2, **W), P(n=2, mutable=1, pads=3, tail=2), P(n=2, nest=9)])],
    "C10": [("hx_at_offset", [P(n=2, **W), P(n=2, mutable=1, pads=3, tail=2), P(n=2, nest=9)])],
    "C11": [("hx_covering", [P(n=2, **W), P(n=2, mutable=1, pads=2, tail=2), P(n=2, nest=9)]),
            ("hx_child_at_range", [P(n=2, **W), P(n=2, mutable=1, pads=2, tail=2), P(n=1, nest=9)])],
    "C12": [("hx_replace", [P(n=2, pads=2, tail=3), P(n=2, pads=2, tail=3, empty=1), P(n=1, nest=9)])],
    "C13": [("hx_ptr_self", [P(n=2, **W), P(n=2, nest=9)]),
            ("hx_ptr_other", [P(n=1, n2=1, pads=2, tail=2)]),
            ("hx_ptr_typed", [P(n=1, pads=2, tail=2)])],
    "C14": [("hx_mut_ops", [P(n=1, steps=1, ops=1, donor=0, pads=2, tail=1), P(n=1, steps=1, ops=2, donor=0, pads=1, tail=1), P(n=1, steps=2, exact=1, ops=1, donor=0, pads=1), P(n=1, steps=1, ops=2, pads=2), P(n=1, steps=1, nest=4)]),
            ("hx_mut_move_all", [P(n=1, pads=3)]),
            ("hx_mut_walks", [P(n=1, pads=1, tail=1)])],
    "C15": [("hx_mut_isolation", [P(n=1, pads=1)])],
    "C16": [("hx_mut_detach_iter", [P(n=2, pads=2, tail=2), P(n=1, pads=2, hold=1)]),
            ("hx_mut_move_all", [P(n=1, pads=3)])],
    "C17": [("hx_mut_ops", [P(n=1, steps=1, ops=1, donor=0, pads=2, tail=1, leak=1), P(n=1, steps=1, ops=2, donor=0, pads=1, tail=1, leak=1)]),
            ("hx_mut_detach_iter", [P(n=2, pads=2, tail=2, leak=1)]),
            ("hx_nav_iters", [P(n=2, leak=1, **W), P(n=2, leak=1, mutable=1, **W)]),
            ("hx_nav_in_place", [P(n=2, leak=1, mutable=1, **W)]),
            ("hx_walk", [P(n=2, leak=1, **W)]),
            ("hx_replace", [P(n=1, pads=2, tail=2, leak=1)]),
            ("hx_green_update", [P(m=1, base=15, leak=1)]),
            ("hx_cache", [P(n=1, n2=1, ktab=2, ttab=2, pads=2, leak=1)]),
            ("hx_serde", [P(n=1, pads=2, leak=1)])],
    "C18": [("hx_text_ops", [P(n=1, len=1, pads=2, tail=2)]),
            ("hx_text_slice", [P(n=1, len=1, pads=2, tail=2)]),
            ("hx_text_eq", [P(n=1, n2=1, len=1, pads=2)])],
    "C19": [("hx_ast", [P(n=1, pads=2, tail=3), P(n=1, pads=2, tail=3, mutable=1), P(n=6, share=1), P(n=1, nest=9)])],
    "C20": [("hx_identity", [P(n=2, **W), P(n=2, mutable=1, pads=3, tail=2), P(n=2, nest=9)])],
    "C21": [("hx_mut_misuse", [P(n=2, pads=2)])],
    "C23": [("hx_green_iter", [P(m=2, steps=2, base=14), P(m=1, steps=3, base=7)])],
    "C24": [("hx_serde", [P(n=1, pads=2, tail=2), P(n=1, nest=9)])],
    "C25": [("hx_debug", [P(n=1, pads=2, tail=2), P(n=2, nest=9), P(n=2, nest=9, mutable=1)]),
            ("hx_fmt_errors", [P(n=1, pads=2, tail=2)])],
    "C26": [("hx_utility", [P(n=1, pads=2, tail=2)])],
}
for _id, _l in FILL.items():
    for _e, _q in _l:
        _r = next(r for r in CHECKS[_id]["runs"] if r["entry"] == _e and not any(q.get("big") for q in r["quick"]))
        _r["quick"] = _r["quick"] + _q
        _r["thorough"] = _r["thorough"] + [dict(q, n=q["n"] + 1) if "n" in q and "share" not in q and "ktab" not in q else q for q in _q]

# Small runs on the code compiled as users build it: no debug assertions, and
# arithmetic that wraps.
REL = {
    "C01": [("hx_build", [P(n=3, ktab=2, ttab=2)])],
    "C02": [("hx_ranges", [P(n=4)])],
    "C03": [("hx_checkpoints", [P(n=6)])],
    "C04": [("hx_cache", [P(n=2, n2=2, ktab=2, ttab=2)])],
    "C05": [("hx_green_eq", [P(n=2, n2=2, kbits=4)])],
    "C06": [("hx_green_update", [P(m=3, far=1)]), ("hx_green_lying", [P()])],
    "C07": [("hx_nav_step", [P(n=3), P(n=3, mutable=1)]), ("hx_nav_iters", [P(n=3), P(n=3, mutable=1)]), ("hx_nav_in_place", [P(n=3)])],
    "C08": [("hx_walk", [P(n=3), P(n=3, mutable=1)])],
    "C09": [("hx_tokens", [P(n=4), P(n=3, mutable=1)])],
    "C10": [("hx_at_offset", [P(n=3), P(n=3, mutable=1)])],
    "C11": [("hx_covering", [P(n=3)]), ("hx_child_at_range", [P(n=3)])],
    "C12": [("hx_replace", [P(n=3)])],
    "C13": [("hx_ptr_self", [P(n=3)]), ("hx_ptr_mutable", [P(n=3)]), ("hx_ptr_typed", [P(n=2)])],
    "C14": [("hx_mut_ops", [P(n=2, steps=1)]), ("hx_mut_walks", [P(n=2)])],
    "C15": [("hx_mut_isolation", [P(n=2)])],
    "C16": [("hx_mut_detach_iter", [P(n=3)])],
    "C17": [("hx_mut_ops", [P(n=2, steps=1, leak=1)]), ("hx_mut_misuse", [P(n=3, leak=1)]), ("hx_mut_callbacks", [P(n=2, leak=1)]), ("hx_nav_in_place", [P(n=3, leak=1)]), ("hx_green_lying", [P()])],
    "C18": [("hx_text_slice", [P(n=3)]), ("hx_text_ops", [P(n=2, len=2)])],
    "C19": [("hx_ast", [P(n=3)])],
    "C20": [("hx_identity", [P(n=3)])],
    "C21": [("hx_mut_misuse", [P(n=4)]), ("hx_mut_callbacks", [P(n=2)])],
    "C23": [("hx_green_iter", [P(m=3, steps=3, far=1)])],
    "C24": [("hx_serde", [P(n=3)])],
    "C25": [("hx_debug", [P(n=3)]), ("hx_fmt_errors", [P(n=3)])],
    "C26": [("hx_utility", [P(n=3)])],
}
for _id, _l in REL.items():
    for _e, _q in _l:
        _r = next(r for r in CHECKS[_id]["runs"] if r["entry"] == _e and not any(q.get("big") for q in r["quick"]))
        _q = [dict(q, rel=1) for q in _q]
        _r["quick"] = _r["quick"] + _q
        _r["thorough"] = _r["thorough"] + _q

for _c in CHECKS.values():
    _e = {r["entry"] for r in _c["runs"]}
    _q = [q for r in _c["runs"] for q in r["quick"]]
    _b = any(q.get("big") for q in _q)
    for _on, _t in (
        (any(q.get("pads") or q.get("base") for q in _q), "smaller trees behind and before up to 30 filler siblings"),
        (any(q.get("nest") for q in _q), "smaller trees below up to 9 nested filler nodes"),
        (any(q.get("rel") for q in _q), "smaller trees in the release profile (no debug assertions, wrapping arithmetic)"),
        (_b, "trees of up to 4 elements with token lengths up to 2^28 (symbolic)"),
        ("hx_wide" in _e, "one flat node of 270 to 66000 children (see the runs), at symbolic places"),
        ("hx_deep" in _e, "one tree nested 300 deep, at symbolic depths"),
        ("hx_deep_print" in _e, "nodes nested 40 and 300 deep for printing and comparison"),
        ("hx_long_tokens" in _e, "token texts of 127 to 65537 bytes"),
    ):
        if _on:
            _c["bounds"] += "; " + _t
