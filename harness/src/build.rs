//! C01 builder, C03 checkpoints, C04 cache.
use crate::sym::*;
use crate::tree::*;
use rowan::{Checkpoint, GreenNodeBuilder, GreenNodeData, NodeCache, NodeOrToken, SyntaxKind};

/// Compares a green node with the model element `i` of `t`.
pub fn same_green(g: &GreenNodeData, t: &Tree, i: usize) {
    check(g.kind() == SyntaxKind(t.kind[i]), "kind of a green node");
    check(u32::from(g.text_len()) == t.len[i], "text_len of a green node");
    let mut c = t.first_child(i);
    for e in g.children() {
        if c == NONE {
            fail("a green node has too many children");
            return;
        }
        match e {
            NodeOrToken::Node(n) => {
                check(!t.is_tok[c], "a node where the model has a token");
                same_green(n, t, c);
            }
            NodeOrToken::Token(k) => {
                check(t.is_tok[c], "a token where the model has a node");
                check(k.kind() == SyntaxKind(t.kind[c]), "kind of a green token");
                check(u32::from(k.text_len()) == t.len[c], "text_len of a green token");
                if !t.sym_len {
                    check(same_bytes(k.text().as_bytes(), t.txt(c).as_bytes()), "text of a green token");
                }
            }
        }
        c = t.next_sib(c);
    }
    check(c == NONE, "a green node has too few children");
}

/// Drives the builder along the model tree.
pub fn drive(b: &mut GreenNodeBuilder<'_>, t: &Tree, i: usize) {
    if t.is_tok[i] {
        b.token(SyntaxKind(t.kind[i]), t.txt(i));
    } else {
        b.start_node(SyntaxKind(t.kind[i]));
        let mut c = t.first_child(i);
        while c != NONE {
            drive(b, t, c);
            c = t.next_sib(c);
        }
        b.finish_node();
    }
}

fn shape() -> Shape {
    Shape {
        kind_bits: param("kbits", 2) as u32,
        empty_tokens: true,
        max_tok_len: param("len", 1),
        sym_text: param("stext", 0) == 1,
        kinds_tab: param("ktab", 0),
        texts_tab: param("ttab", 0),
        ..Shape::new(param("n", 3) as usize)
    }
}

/// Builds what it is told, with kinds (and texts) chosen symbolically so that
/// any two elements may or may not be interned together.
pub fn build() {
    let t = Tree::sym(shape());
    let l0 = live();
    {
        let mut b = GreenNodeBuilder::new();
        drive(&mut b, &t, 0);
        let g = b.finish();
        same_green(&g, &t, 0);
        // the text comes back unchanged, also below every node
        if param("display", 1) == 1 {
            let s = Node::new_root(g).to_string();
            check(same_bytes(s.as_bytes(), t.txt(0).as_bytes()), "the text of the tree is not the input");
        }
        cover(0);
        trace(t.n as u64);
    }
    end(l0);
}

// ---------------------------------------------------------------- C03

struct Item {
    tok: bool,
    kind: u16,
    kids: Vec<usize>,
}
/// The builder as a list of finished siblings and a stack of open nodes.
struct Model {
    items: Vec<Item>,
    done: Vec<usize>,
    open: Vec<(u16, usize)>,
}
impl Model {
    fn text(&self, i: usize, out: &mut String) {
        if self.items[i].tok {
            out.push((b'a' + self.items[i].kind as u8 - 100) as char);
        }
        for &c in &self.items[i].kids {
            self.text(c, out);
        }
    }
    fn same(&self, g: &GreenNodeData, i: usize) {
        check(g.kind() == SyntaxKind(self.items[i].kind), "kind of a built node");
        let kids = &self.items[i].kids;
        check(g.children().len() == kids.len(), "number of children of a built node");
        let mut k = 0;
        for e in g.children() {
            if k == kids.len() {
                return;
            }
            let it = &self.items[kids[k]];
            match e {
                NodeOrToken::Node(n) => {
                    check(!it.tok, "a node was built for a token");
                    self.same(n, kids[k]);
                }
                NodeOrToken::Token(t) => {
                    check(it.tok, "a token was built for a node");
                    check(t.kind() == SyntaxKind(it.kind), "kind of a built token");
                }
            }
            k += 1;
        }
    }
}

/// Any sequence of builder calls, with up to two remembered checkpoints:
/// wrapping, unbalanced calls and stale checkpoints.
pub fn checkpoints() {
    let steps = param("n", 5) as usize;
    let l0 = live();
    {
        let mut m = Model { items: vec![], done: vec![], open: vec![] };
        let mut b = GreenNodeBuilder::new();
        // (checkpoint, position, still known to be meaningful)
        let mut cps: Vec<(Checkpoint, usize, bool)> = vec![];
        let mut texts = [0u8; 16];
        let n = choose("steps", steps as u64 + 1);
        for i in 0..n {
            let k = 100 + i as u16;
            texts[i] = b'a' + i as u8;
            let op = choose("op", if cps.is_empty() { 4 } else { 5 });
            match op {
                0 => {
                    b.token(SyntaxKind(k), core::str::from_utf8(&texts[i..i + 1]).unwrap());
                    m.items.push(Item { tok: true, kind: k, kids: vec![] });
                    m.done.push(m.items.len() - 1);
                }
                1 => {
                    b.start_node(SyntaxKind(k));
                    m.open.push((k, m.done.len()));
                }
                2 => {
                    let r = catch(|| b.finish_node());
                    match m.open.pop() {
                        None => {
                            check(r.is_none(), "finish_node without an open node must panic");
                            cover(0);
                        }
                        Some((kind, first)) => {
                            check(r.is_some(), "finish_node panics");
                            let kids = m.done.split_off(first);
                            m.items.push(Item { tok: false, kind, kids });
                            m.done.push(m.items.len() - 1);
                            for c in &mut cps {
                                c.2 &= c.1 <= first;
                            }
                        }
                    }
                }
                3 => {
                    let c = b.checkpoint();
                    cps.push((c, m.done.len(), true));
                }
                _ => {
                    let (c, pos, valid) = cps[choose("cp", cps.len() as u64)];
                    let r = catch(|| b.start_node_at(c, SyntaxKind(k)));
                    let inner = match m.open.last() {
                        Some(&(_, first)) => pos < first,
                        None => false,
                    };
                    if pos > m.done.len() {
                        check(r.is_none(), "a checkpoint past the finished siblings must be refused");
                        cover(1);
                    } else if inner {
                        check(r.is_none(), "a checkpoint from outside the open node must be refused");
                        cover(2);
                    } else if valid {
                        check(r.is_some(), "a valid checkpoint is refused");
                        m.open.push((k, pos));
                        cover(3);
                    } else {
                        // meaning not fixed by the documentation
                        assume(false);
                    }
                }
            }
        }
        if !m.open.is_empty() {
            // not finished: nothing is promised but memory safety
            let _ = catch(|| b.finish());
        } else {
            let ok = m.done.len() == 1 && !m.items[m.done[0]].tok;
            let r = catch(|| b.finish());
            check(r.is_some() == ok, "finish must succeed exactly when one node was built");
            if let Some(g) = r {
                if ok {
                    m.same(&g, m.done[0]);
                    let mut want = String::new();
                    m.text(m.done[0], &mut want);
                    let s = Node::new_root(g).to_string();
                    check(same_bytes(s.as_bytes(), want.as_bytes()), "text of the built tree");
                    trace(s.len() as u64);
                    cover(4);
                }
            }
        }
        trace(m.items.len() as u64);
    }
    end(l0);
}

// ---------------------------------------------------------------- C04

/// Ids and addresses of all elements of a built tree, in preorder.
fn addrs(g: &GreenNodeData, out: &mut Vec<usize>) {
    out.push(g as *const GreenNodeData as *const u8 as usize);
    for e in g.children() {
        match e {
            NodeOrToken::Node(n) => addrs(n, out),
            NodeOrToken::Token(t) => out.push(t as *const _ as *const u8 as usize),
        }
    }
}
/// Same structure, kinds and texts.
fn equal(a: &Tree, i: usize, b: &Tree, j: usize) -> bool {
    if a.is_tok[i] != b.is_tok[j] || a.kind[i] != b.kind[j] || a.len[i] != b.len[j] {
        return false;
    }
    if a.is_tok[i] {
        return same_bytes(a.txt(i).as_bytes(), b.txt(j).as_bytes());
    }
    let (mut c, mut d) = (a.first_child(i), b.first_child(j));
    while c != NONE && d != NONE {
        if !equal(a, c, b, d) {
            return false;
        }
        c = a.next_sib(c);
        d = b.next_sib(d);
    }
    c == d
}
/// Small enough to be interned: no element below has more than three children
/// (kind 0 without children hashes to zero, which the cache uses as a marker).
fn small(t: &Tree, i: usize) -> bool {
    if t.kind[i] == 0 {
        return false;
    }
    if t.is_tok[i] {
        return true;
    }
    let mut k = 0;
    let mut c = t.first_child(i);
    while c != NONE {
        if !small(t, c) {
            return false;
        }
        k += 1;
        c = t.next_sib(c);
    }
    k <= 3
}
fn sharing(a: &Tree, pa: &[usize], b: &Tree, pb: &[usize]) {
    check(pa.len() == a.n && pb.len() == b.n, "number of elements in a built tree");
    if pa.len() != a.n || pb.len() != b.n {
        return;
    }
    for i in 0..a.n {
        for j in 0..b.n {
            let eq = equal(a, i, b, j);
            let same = pa[i] == pb[j];
            check(!same || eq, "different elements were merged");
            if eq && a.is_tok[i] {
                check(same, "equal tokens of one cache must be shared");
            } else if eq && small(a, i) {
                check(same, "equal small nodes of one cache must be shared");
            }
        }
    }
}

fn shape2(n: &str, d: u64) -> Shape {
    Shape { max: param(n, d) as usize, ..shape() }
}

/// Two trees built through one cache: each is what was asked for, and equal
/// parts are shared, within a tree and across trees.
pub fn cache() {
    let a = Tree::sym(shape2("n", 2));
    let b = Tree::sym(shape2("n2", 2));
    let l0 = live();
    {
        let mut cache = NodeCache::default();
        let ga = {
            let mut bl = GreenNodeBuilder::with_cache(&mut cache);
            drive(&mut bl, &a, 0);
            bl.finish()
        };
        let gb = {
            let mut bl = GreenNodeBuilder::with_cache(&mut cache);
            drive(&mut bl, &b, 0);
            bl.finish()
        };
        same_green(&ga, &a, 0);
        same_green(&gb, &b, 0);
        let (mut pa, mut pb) = (vec![], vec![]);
        addrs(&ga, &mut pa);
        addrs(&gb, &mut pb);
        sharing(&a, &pa, &a, &pa);
        sharing(&a, &pa, &b, &pb);
        sharing(&b, &pb, &b, &pb);
        check((ga == gb) == equal(&a, 0, &b, 0), "equality of trees from one cache");
        if equal(&a, 0, &b, 0) {
            cover(0);
        }
        trace((ga == gb) as u64);
        // the trees survive the cache, the cache survives the trees
        if param("order", 0) == 0 {
            drop(cache);
            same_green(&ga, &a, 0);
            drop(ga);
            same_green(&gb, &b, 0);
        } else {
            drop(ga);
            drop(gb);
            let mut bl = GreenNodeBuilder::with_cache(&mut cache);
            drive(&mut bl, &a, 0);
            let g = bl.finish();
            same_green(&g, &a, 0);
        }
    }
    end(l0);
}

/// Two tokens and two nodes with free kinds in one cache: merged exactly when
/// the kinds agree, whatever their hashes. With `kids`, two nodes that differ
/// in the kind of one of their children only.
pub fn cache_kinds() {
    let bits = param("kbits", 4) as u32;
    let kids = param("kids", 0) as usize;
    let at = if kids > 0 { choose("differs", kids as u64) } else { 0 };
    let deep = param("deep", 0) == 1;
    // (a childless node of kind 0 has the hash that means "not cached")
    let k1 = match param("kfix", 0) as u16 {
        0 => var("kind", bits, deep as u64, (1 << bits) - 1) as u16,
        k => k,
    };
    let k2 = match param("split", 0) {
        0 => var("kind", bits, deep as u64, (1 << bits) - 1) as u16,
        // one case per kind: cheaper than to solve for a hash
        _ => {
            let high = choose("kind_high", 1 << bits.saturating_sub(6)) << 6;
            (high + choose("kind_low", 1 << bits.min(6))) as u16
        }
    };
    // other texts, other hashes
    let text = &"abcdefgh"[..1 + choose("text", 1 + param("txt", 0)) as usize];
    let mut b = GreenNodeBuilder::new();
    b.start_node(SyntaxKind(1));
    if kids > 0 {
        for k in [k1, k2, k2] {
            b.start_node(SyntaxKind(2));
            for i in 0..kids {
                let k = if i == at { k } else { 3 + i as u16 };
                if deep {
                    b.start_node(SyntaxKind(k));
                    b.finish_node();
                } else {
                    b.token(SyntaxKind(k), text);
                }
            }
            b.finish_node();
        }
    } else if param("node", 0) == 1 {
        b.start_node(SyntaxKind(k1));
        b.finish_node();
        b.start_node(SyntaxKind(k2));
        b.finish_node();
    } else {
        b.token(SyntaxKind(k1), "a");
        b.token(SyntaxKind(k2), "a");
    }
    b.finish_node();
    let g = b.finish();
    if kids > 0 {
        let ns: Vec<_> = g.children().map(|e| e.into_node().unwrap()).collect();
        check(ns.len() == 3, "number of elements");
        let adr = |i: usize| ns[i] as *const GreenNodeData as *const u8;
        check(kids > 3 || (deep && k2 == 0) || adr(1) == adr(2), "equal small nodes are not shared");
        for (n, want) in [(ns[0], k1), (ns[1], k2)] {
            check(n.kind() == SyntaxKind(2), "kind of a node");
            check(n.children().len() == kids, "number of children");
            for (i, c) in n.children().enumerate() {
                let k = if i == at { want } else { 3 + i as u16 };
                check(c.kind() == SyntaxKind(k), "kind of a child of an interned node");
            }
        }
        let same = ns[0] as *const GreenNodeData as *const u8 == ns[1] as *const GreenNodeData as *const u8;
        // big nodes are not looked up
        check(if kids > 3 { !same || k1 == k2 } else { same == (k1 == k2) }, "nodes are merged exactly when they are equal");
        check((ns[0] == ns[1]) == (k1 == k2), "equality of nodes");
    } else {
        let mut p = vec![];
        addrs(&g, &mut p);
        check(p.len() == 3, "number of elements");
        check((p[1] == p[2]) == (k1 == k2), "elements are merged exactly when they are equal");
        let ks: Vec<SyntaxKind> = g.children().map(|e| e.kind()).collect();
        check(ks[0] == SyntaxKind(k1) && ks[1] == SyntaxKind(k2), "kinds");
    }
    if k1 == k2 {
        cover(0);
    } else {
        cover(1);
    }
}

/// A cache that has grown several times still finds everything in it.
pub fn cache_grow() {
    let m = param("m", 30) as usize;
    let text = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    let mut cache = NodeCache::default();
    let add = |cache: &mut NodeCache, i: usize, p: &mut Vec<usize>| {
        let mut b = GreenNodeBuilder::with_cache(cache);
        b.start_node(SyntaxKind(1000 + i as u16));
        b.token(SyntaxKind(5), &text[i..i + 1 + i % 3]);
        if i % 2 == 1 {
            b.start_node(SyntaxKind(7));
            b.token(SyntaxKind(6 + i as u16), "x");
            b.finish_node();
        }
        b.finish_node();
        let g = b.finish();
        addrs(&g, p);
        check(u32::from(g.text_len()) as usize == 1 + i % 3 + i % 2, "length of a tree from a grown cache");
        g
    };
    let mut firsts: Vec<Vec<usize>> = vec![];
    let mut keep = vec![];
    for i in 0..m {
        let mut p = vec![];
        keep.push(add(&mut cache, i, &mut p));
        firsts.push(p);
    }
    let i = choose("again", m as u64);
    let mut p = vec![];
    let g = add(&mut cache, i, &mut p);
    check(p == firsts[i], "elements interned before the cache grew are not found again");
    check(g == keep[i], "equality of a tree with its re-built copy");
    // and nothing else was handed out twice
    for a in 0..m {
        for b in 0..a {
            check(firsts[a][0] != firsts[b][0], "different nodes were merged");
        }
    }
    cover(0);
    trace(i as u64);
}

const CHARSET: &[u8; 64] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";

/// Tokens of every length up to `len`; the third differs from the first in at
/// most one place, by kind, text or length.
pub fn long() {
    let max = param("len", 40);
    let a = choose("len", max + 1);
    let b = [0, 3, 8, 17][choose("other", 4)];
    let mut t = Tree::blank();
    t.n = 4;
    t.kind[0] = 1;
    let mut texts: Vec<Vec<u8>> = vec![];
    let mut k = 0;
    for &len in &[a, b, a] {
        let mut v: Vec<u8> = (0..len).map(|i| CHARSET[i + k * 7]).collect();
        t.kind[1 + k] = 5 + k as u16;
        if k == 2 {
            v = texts[0].clone();
            t.kind[3] = 5;
            match choose("difference", 4) {
                0 => {}
                1 => {
                    assume(a > 0);
                    let at = choose("at", a as u64);
                    v[at] = b'!';
                }
                2 => t.kind[3] = 6,
                _ => v.push(b'!'),
            }
        }
        t.parent[1 + k] = 0;
        t.is_tok[1 + k] = true;
        t.start[1 + k] = t.len[0];
        t.len[1 + k] = v.len() as u32;
        for (j, &c) in v.iter().enumerate() {
            t.text[t.len[0] as usize + j] = c;
        }
        t.len[0] += v.len() as u32;
        texts.push(v);
        k += 1;
    }
    let l0 = live();
    {
        let mut b = GreenNodeBuilder::new();
        drive(&mut b, &t, 0);
        let g = b.finish();
        same_green(&g, &t, 0);
        let mut p = vec![];
        addrs(&g, &mut p);
        let eq = |i: usize, j: usize| t.kind[1 + i] == t.kind[1 + j] && texts[i] == texts[j];
        for i in 0..3 {
            for j in 0..i {
                check((p[1 + i] == p[1 + j]) == eq(i, j), "tokens are merged exactly when they are equal");
            }
        }
        cover(if eq(0, 2) { 0 } else { 1 });
        trace(t.len[0] as u64);
    }
    end(l0);
}
