//! Symbolic trees together with the list model they are compared against.
use crate::sym::*;
use rowan::{GreenNode, GreenNodeData, GreenToken, Language, NodeOrToken, SyntaxKind, TextRange, TextSize};

pub const MAXN: usize = 64;
pub const TXT: usize = 128;
pub const NONE: usize = usize::MAX;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum L {}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(pub u16);
impl Language for L {
    type Kind = K;
    fn kind_from_raw(raw: SyntaxKind) -> K {
        K(raw.0)
    }
    fn kind_to_raw(kind: K) -> SyntaxKind {
        SyntaxKind(kind.0)
    }
}
pub type Node = rowan::SyntaxNode<L>;
pub type Token = rowan::SyntaxToken<L>;
pub type Elem = rowan::SyntaxElement<L>;
pub type GElem = NodeOrToken<GreenNode, GreenToken>;

/// Plain model of a tree: elements in preorder, 0 is the root.
#[derive(Clone, Copy)]
pub struct Tree {
    pub n: usize,
    pub parent: [usize; MAXN],
    pub is_tok: [bool; MAXN],
    pub kind: [u16; MAXN],
    pub start: [u32; MAXN],
    pub len: [u32; MAXN],
    pub text: [u8; TXT],
    /// address of the green element (identity in a tree without sharing)
    pub ptr: [usize; MAXN],
    pub sym_len: bool,
    /// equal subtrees are one green element
    pub share: bool,
    /// where the length of token `i` is stored (symbolic lengths only)
    pub len_at: [usize; MAXN],
    /// filler, see `Tree::fill`
    pub filler: [bool; MAXN],
}

#[derive(Clone, Copy)]
pub struct Shape {
    /// exact number of elements below the root is 0..=max
    pub max: usize,
    pub max_tok_len: u64,
    /// tokens of length zero allowed
    pub empty_tokens: bool,
    /// childless nodes allowed
    pub empty_nodes: bool,
    /// kinds: 0 = concrete and distinct, otherwise symbolic with that many bits
    pub kind_bits: u32,
    /// text bytes symbolic
    pub sym_text: bool,
    pub max_depth: usize,
    /// token lengths symbolic (0 or 1 ..= CAP) instead of one path per length
    pub sym_len: bool,
    /// kinds chosen among the first so many of `KINDS` (0: see `kind_bits`)
    pub kinds_tab: u64,
    /// token texts chosen among the first so many of `TEXTS` (0: off)
    pub texts_tab: u64,
    pub texts: &'static [&'static [u8]],
}
/// Kinds and texts whose hashes in the builder's cache collide in the bits the
/// hash table looks at (1/174 for the token "a", 1/177 for childless nodes,
/// 1/754 for a node around the token "a", "a"/"tz" for tokens of kind 1), or
/// in all 64 bits (the last two texts).
pub const KINDS: [u16; 9] = [1, 174, 177, 754, 0, 2, 65535, 257, 513];
pub const TEXTS: [&[u8]; 10] = [
    b"a",
    b"tz",
    b"",
    &[0x40, 0xd0, 0x9c, 0xef, 0xbb, 0x9a, 0x78, 0x2b, 0x41, 0xde, 0x8c, 0xe7, 0xb4, 0x99, 0x6a, 0x52],
    &[0xd6, 0xa5, 0x5f, 0x61, 0x12, 0x79, 0x4c, 0x65, 0xd7, 0xab, 0x4f, 0x69, 0x1d, 0x7a, 0x5e, 0x1c],
    "\u{e9}".as_bytes(),
    b"\0",
    b"\0a",
    b"a\0",
    b"A",
];

/// Bytes really allocated for a token whose length is symbolic.
pub const CAP: usize = 40;

impl Shape {
    /// Symbolic kinds and symbolic token lengths (0..=CAP).
    pub fn nav() -> Shape {
        Shape { sym_len: true, empty_tokens: true, ..Shape::new(param("n", 3) as usize) }
    }
    pub const fn new(max: usize) -> Shape {
        Shape { max, max_tok_len: 2, empty_tokens: false, empty_nodes: true, kind_bits: 16, sym_text: false, max_depth: 4, sym_len: false, kinds_tab: 0, texts_tab: 0, texts: &TEXTS }
    }
}

impl Tree {
    pub fn blank() -> Tree {
        Tree {
            n: 1,
            parent: [NONE; MAXN],
            is_tok: [false; MAXN],
            kind: [0; MAXN],
            start: [0; MAXN],
            len: [0; MAXN],
            text: [0; TXT],
            ptr: [0; MAXN],
            sym_len: false,
            share: false,
            len_at: [0; MAXN],
            filler: [false; MAXN],
        }
    }
    pub fn sym(s: Shape) -> Tree {
        let mut s = s;
        let mut t = Tree::blank();
        if param("ttab", 0) > 0 && s.sym_len {
            // texts from the table, multi-byte ones included
            s = Shape { sym_len: false, texts_tab: param("ttab", 0), texts: &WIDE, ..s };
        }
        if param("share", 0) == 1 {
            // nothing is empty, and equal subtrees are shared
            t.share = true;
            s = Shape { sym_len: false, empty_tokens: false, empty_nodes: false, max_tok_len: 1, sym_text: false, ..s };
        }
        if param("conc", 0) == 1 && s.sym_len {
            // one path per length instead of one for all
            s = Shape { sym_len: false, max_tok_len: 2, ..s };
        }
        t.sym_len = s.sym_len;
        // `big`: lengths far beyond what is allocated, for checks that never
        // look at the bytes
        let (len_bits, len_max) = if param("big", 0) == 1 { (28, (1 << 28) - 1) } else { (6, CAP as u64) };
        let total = 1 + choose("size", s.max as u64 + 1);
        let mut cur = 0; // deepest open node
        let mut depth = 1;
        let mut pos = 0u32;
        t.kind[0] = if t.share { 1 } else { pick_kind(&s, 0) };
        // the small tree may stand behind, before and below filler
        let pads = param("pads", 0);
        if pads > 0 {
            let k = [5, 14, 30][choose("pad", pads)];
            t.fill(&s, k, 0, &mut pos);
        }
        let nest = param("nest", 0) as usize;
        for _ in 0..nest {
            let i = t.n;
            t.add(&s, cur, false, 0, &mut pos);
            t.filler[i] = true;
            cur = i;
            depth += 1;
            if !s.empty_nodes || i % 2 == 0 {
                t.filler[t.n] = true;
                t.add(&s, cur, true, 1, &mut pos);
            }
        }
        let max_depth = s.max_depth + nest;
        let total = t.n + total - 1;
        while t.n < total {
            let i = t.n;
            // close 0..depth-1 open nodes
            let up = if depth > 1 { choose("up", if nest > 0 { depth.min(3) } else { depth } as u64) } else { 0 };
            let up = if nest > 0 && up == 2 { depth - 1 } else { up };
            for _ in 0..up {
                if !s.empty_nodes {
                    assume(t.last_child(cur) != NONE);
                }
                cur = t.parent[cur];
                depth -= 1;
            }
            t.parent[i] = cur;
            if !t.share {
                t.kind[i] = pick_kind(&s, i);
            }
            t.start[i] = pos;
            t.n += 1;
            let node = depth < max_depth && choose("node", 2) == 1;
            if t.share {
                t.kind[i] = 2 - node as u16;
            }
            if node {
                cur = i;
                depth += 1;
            } else {
                t.is_tok[i] = true;
                let lo = if s.empty_tokens { 0 } else { 1 };
                let tx = if s.texts_tab > 0 { (param("toff", 0) as usize + choose("text", s.texts_tab)) % s.texts.len() } else { 0 };
                let len = if s.texts_tab > 0 {
                    s.texts[tx].len() as u32
                } else if s.sym_len {
                    var("len", len_bits, lo, len_max) as u32
                } else {
                    (lo + choose("len", s.max_tok_len - lo + 1) as u64) as u32
                };
                t.len[i] = len;
                for k in 0..if s.sym_len { 0 } else { len } {
                    let b = if s.texts_tab > 0 {
                        s.texts[tx][k as usize]
                    } else if s.sym_text { var("ch", 7, 0, 127) as u8 } else if t.share { b'a' } else { b'a' + (pos + k) as u8 };
                    t.text[(pos + k) as usize] = b;
                }
                pos += len;
                let mut p = cur;
                while p != NONE {
                    t.len[p] += len;
                    p = t.parent[p];
                }
            }
        }
        t.fill(&s, param("tail", 0) as usize, 0, &mut pos);
        if !s.empty_nodes {
            for i in 1..t.n {
                if !t.is_tok[i] {
                    assume(t.last_child(i) != NONE);
                }
            }
        }
        t
    }

    /// Appends an element with a fixed text of `len` bytes.
    fn add(&mut self, s: &Shape, parent: usize, tok: bool, len: u32, pos: &mut u32) {
        let i = self.n;
        self.n += 1;
        self.parent[i] = parent;
        self.is_tok[i] = tok;
        self.kind[i] = if self.share {
            1 + tok as u16
        } else if s.kinds_tab > 0 {
            KINDS[i % s.kinds_tab as usize]
        } else if s.kind_bits == 0 {
            kind(0, i)
        } else {
            (if tok { 2 } else { 1 }) & ((1 << s.kind_bits) - 1) as u16
        };
        self.start[i] = *pos;
        if tok {
            self.len[i] = len;
            for k in 0..if s.sym_len { 0 } else { len } {
                self.text[(*pos + k) as usize] = if self.share { b'a' } else { b'a' + ((*pos + k) % 26) as u8 };
            }
            *pos += len;
            let mut p = parent;
            while p != NONE {
                self.len[p] += len;
                p = self.parent[p];
            }
        }
    }
    /// Appends `k` children: tokens, empty tokens, nodes and empty nodes in turn.
    fn fill(&mut self, s: &Shape, k: usize, parent: usize, pos: &mut u32) {
        for j in 0..k {
            let i = self.n;
            match j % 4 {
                1 if s.empty_tokens => self.add(s, parent, true, 0, pos),
                0 | 1 => self.add(s, parent, true, 1, pos),
                2 if s.max_depth > 1 => {
                    self.add(s, parent, false, 0, pos);
                    self.add(s, i, true, 1, pos);
                }
                3 if s.empty_nodes => self.add(s, parent, false, 0, pos),
                _ => self.add(s, parent, true, 1, pos),
            }
            self.filler[i..self.n].fill(true);
        }
    }

    pub fn last_child(&self, p: usize) -> usize {
        let mut r = NONE;
        for i in p + 1..self.n {
            if self.parent[i] == p {
                r = i;
            }
        }
        r
    }
    pub fn first_child(&self, p: usize) -> usize {
        if p + 1 < self.n && self.parent[p + 1] == p { p + 1 } else { NONE }
    }
    pub fn next_sib(&self, i: usize) -> usize {
        if i == 0 {
            return NONE;
        }
        for j in i + 1..self.n {
            if self.parent[j] == self.parent[i] {
                return j;
            }
        }
        NONE
    }
    pub fn prev_sib(&self, i: usize) -> usize {
        if i == 0 {
            return NONE;
        }
        let mut j = i;
        while j > 1 {
            j -= 1;
            if self.parent[j] == self.parent[i] {
                return j;
            }
        }
        NONE
    }
    /// End (exclusive) of the preorder interval of `i`'s subtree.
    pub fn sub_end(&self, i: usize) -> usize {
        let mut j = i + 1;
        while j < self.n && self.is_anc(i, j) {
            j += 1;
        }
        j
    }
    /// `a` is `d` or an ancestor of it.
    pub fn is_anc(&self, a: usize, d: usize) -> bool {
        let mut p = d;
        while p != NONE {
            if p == a {
                return true;
            }
            p = self.parent[p];
        }
        false
    }
    pub fn index(&self, i: usize) -> usize {
        let mut k = 0;
        let mut j = self.prev_sib(i);
        while j != NONE {
            k += 1;
            j = self.prev_sib(j);
        }
        k
    }
    pub fn nchildren(&self, p: usize) -> usize {
        let mut k = 0;
        let mut j = self.first_child(p);
        while j != NONE {
            k += 1;
            j = self.next_sib(j);
        }
        k
    }
    pub fn end(&self, i: usize) -> u32 {
        self.start[i] + self.len[i]
    }
    pub fn range(&self, i: usize) -> TextRange {
        TextRange::new(TextSize::from(self.start[i]), TextSize::from(self.end(i)))
    }
    pub fn txt(&self, i: usize) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.text[self.start[i] as usize..self.end(i) as usize]) }
    }
    /// Elements `i` and `j` have the same structure (and, where equal subtrees
    /// are shared, the same kinds and texts).
    fn same_shape(&self, i: usize, j: usize) -> bool {
        if self.is_tok[i] || self.is_tok[j] {
            return self.is_tok[i] && self.is_tok[j];
        }
        let (mut c, mut d) = (self.first_child(i), self.first_child(j));
        while c != NONE && d != NONE {
            if !self.same_shape(c, d) {
                return false;
            }
            c = self.next_sib(c);
            d = self.next_sib(d);
        }
        c == d
    }
    /// Builds the green tree without a cache, recording element identities.
    pub fn green(&mut self, i: usize) -> GreenNode {
        let mut pool = Vec::with_capacity(MAXN);
        self.green_in(i, &mut pool)
    }
    fn green_in(&mut self, i: usize, pool: &mut Vec<(usize, GElem)>) -> GreenNode {
        let mut kids: Vec<GElem> = Vec::with_capacity(self.nchildren(i));
        let mut c = self.first_child(i);
        while c != NONE {
            let mut found = None;
            if self.share {
                for (j, e) in pool.iter() {
                    if self.same_shape(*j, c) {
                        found = Some((*j, e.clone()));
                        break;
                    }
                }
            }
            let e = if let Some((j, e)) = found {
                // the same elements once more
                for k in 0..self.sub_end(j) - j {
                    self.ptr[c + k] = self.ptr[j + k];
                }
                e
            } else if self.is_tok[c] {
                let t = if self.sym_len {
                    let t = GreenToken::new(SyntaxKind(self.kind[c]), LONG);
                    self.len_at[c] = set_len(&t, CAP, self.len[c] as usize);
                    if self.len_at[c] == 0 {
                        // unknown layout: short tokens only, one path per length
                        assume(self.len[c] <= 2);
                        GreenToken::new(SyntaxKind(self.kind[c]), &LONG[..conc(self.len[c] as u64) as usize])
                    } else {
                        t
                    }
                } else {
                    GreenToken::new(SyntaxKind(self.kind[c]), self.txt(c))
                };
                self.ptr[c] = &*t as *const _ as *const u8 as usize;
                t.into()
            } else {
                self.green_in(c, pool).into()
            };
            if self.share && pool.iter().all(|(j, _)| !self.same_shape(*j, c)) {
                pool.push((c, e.clone()));
            }
            kids.push(e);
            c = self.next_sib(c);
        }
        let g = GreenNode::new(SyntaxKind(self.kind[i]), kids);
        self.ptr[i] = &*g as *const GreenNodeData as *const u8 as usize;
        g
    }
    /// Puts the real token lengths back (before anything is freed).
    pub fn restore(&self) {
        if self.sym_len {
            for i in 0..self.n {
                if self.len_at[i] != 0 {
                    unsafe { *(self.len_at[i] as *mut usize) = CAP };
                }
            }
        }
    }
    pub fn find_green(&self, p: usize) -> usize {
        (0..self.n).find(|&i| self.ptr[i] == p).unwrap_or(NONE)
    }
    /// The element with that green element and that offset.
    pub fn find_ptr(&self, p: usize, start: TextSize) -> usize {
        for i in 0..self.n {
            if self.ptr[i] == p && (!self.share || self.start[i] == u32::from(start)) {
                return i;
            }
        }
        NONE
    }
    /// Model id of a syntax node (checked to be that very element).
    pub fn id(&self, n: &Node) -> usize {
        let g = n.green();
        let i = self.find_ptr(&*g as *const GreenNodeData as *const u8 as usize, n.text_range().start());
        check(i != NONE, "a returned node does not belong to the tree");
        check(u32::from(n.text_range().start()) == self.start[i], "a returned node has a wrong offset");
        i
    }
    pub fn tid(&self, n: &Token) -> usize {
        let i = self.find_ptr(n.green() as *const _ as *const u8 as usize, n.text_range().start());
        check(i != NONE, "a returned token does not belong to the tree");
        check(u32::from(n.text_range().start()) == self.start[i], "a returned token has a wrong offset");
        i
    }
    pub fn eid(&self, e: &Elem) -> usize {
        match e {
            NodeOrToken::Node(n) => self.id(n),
            NodeOrToken::Token(t) => self.tid(t),
        }
    }
    pub fn oid(&self, n: Option<Node>) -> usize {
        n.map_or(NONE, |n| self.id(&n))
    }
    pub fn otid(&self, n: Option<Token>) -> usize {
        n.map_or(NONE, |n| self.tid(&n))
    }
    pub fn oeid(&self, n: Option<Elem>) -> usize {
        n.map_or(NONE, |n| self.eid(&n))
    }
    /// Reaches element `i` from the root by model path (child indices).
    pub fn elem(&self, root: &Node, i: usize) -> Elem {
        if i == 0 {
            return root.clone().into();
        }
        let p = self.elem(root, self.parent[i]);
        let p = p.into_node().unwrap();
        p.children_with_tokens().nth(self.index(i)).unwrap()
    }
}

fn pick_kind(s: &Shape, i: usize) -> u16 {
    if s.kinds_tab > 0 { KINDS[(param("koff", 0) as usize + choose("kind", s.kinds_tab)) % KINDS.len()] } else { kind(s.kind_bits, i) }
}
pub fn kind(bits: u32, i: usize) -> u16 {
    if bits == 0 { 100 + i as u16 } else { var("kind", bits, 0, (1 << bits) - 1) as u16 }
}

/// Texts of one and more bytes.
pub const WIDE: [&[u8]; 6] = ["\u{e9}".as_bytes(), b"a", "\u{20ac}b".as_bytes(), b"", "\u{1f600}".as_bytes(), b"xyz"];
pub const LONG: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMN";

/// Gives a green token the length `to` (at most the `from` bytes it holds), so
/// that one path stands for every length. Returns where the length is stored.
fn set_len(t: &GreenToken, from: usize, to: usize) -> usize {
    let p = &**t as *const _ as *const u8 as usize;
    for off in [8, 16, 0] {
        let at = (p + off) as *mut usize;
        if unsafe { *at } == from {
            unsafe { *at = to };
            if t.text().len() == to {
                return at as usize;
            }
            unsafe { *at = from };
        }
    }
    0
}

/// Puts the lengths back on every way out of a scope.
pub struct Restore<'a>(pub &'a Tree);
impl Drop for Restore<'_> {
    fn drop(&mut self) {
        self.0.restore();
    }
}

pub fn end(l0: u64) {
    if param("leak", 0) == 1 {
        check(live() == l0, "memory is leaked");
    }
}
pub fn sz(x: u64) -> TextSize {
    TextSize::from(x as u32)
}
pub fn rng(a: u64, b: u64) -> TextRange {
    TextRange::new(TextSize::from(a as u32), TextSize::from(b as u32))
}
