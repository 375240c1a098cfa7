//! C05 equality and hashing of green trees, C06 functional updates, C23 the
//! children iterator.
use crate::build::same_green;
use crate::find::same_hash;
use crate::sym::*;
use crate::tree::*;
use rowan::{GreenNode, GreenNodeData, GreenToken, Language, NodeOrToken, SyntaxKind};

fn shape(n: &str, d: u64) -> Shape {
    Shape {
        kind_bits: param("kbits", 16) as u32,
        empty_tokens: true,
        max_tok_len: param("len", 1),
        sym_text: true,
        ..Shape::new(param(n, d) as usize)
    }
}

fn equal(a: &Tree, i: usize, b: &Tree, j: usize) -> bool {
    if a.is_tok[i] != b.is_tok[j] || a.kind[i] != b.kind[j] || a.len[i] != b.len[j] {
        return false;
    }
    if a.is_tok[i] {
        return same_bytes(a.txt(i).as_bytes(), b.txt(j).as_bytes());
    }
    let (mut c, mut d) = (a.first_child(i), b.first_child(j));
    while c != NONE && d != NONE {
        if !equal(a, c, b, d) {
            return false;
        }
        c = a.next_sib(c);
        d = b.next_sib(d);
    }
    c == d
}

/// Equality of green nodes and tokens is equality of kind, text and structure
/// and hashing respects it.
pub fn eq() {
    let mut a = Tree::sym(shape("n", 2));
    let mut b = Tree::sym(shape("n2", 2));
    let l0 = live();
    {
        let ga = a.green(0);
        let gb = b.green(0);
        let want = equal(&a, 0, &b, 0);
        check((ga == gb) == want, "equality of green nodes");
        check((gb == ga) == want, "equality of green nodes is not symmetric");
        let (da, db): (&GreenNodeData, &GreenNodeData) = (&ga, &gb);
        check((da == db) == want, "equality of green node data");
        check(da.to_owned() == ga && ga == ga.clone(), "a green node differs from itself");
        if want {
            check(same_hash(&ga, &gb), "equal green nodes hash differently");
            cover(0);
        } else {
            cover(1);
        }
        // element by element, at the first level
        for x in ga.children() {
            for y in gb.children() {
                let i = a.find_green(addr(x));
                let j = b.find_green(addr(y));
                check(i != NONE && j != NONE, "children of a green node");
                if i == NONE || j == NONE {
                    return;
                }
                let want = equal(&a, i, &b, j);
                let (ox, oy) = (x.to_owned(), y.to_owned());
                check((x == y) == want, "equality of green elements");
                check((ox == oy) == want, "equality of owned green elements");
                if let (NodeOrToken::Token(s), NodeOrToken::Token(t)) = (&ox, &oy) {
                    check((s == t) == want, "equality of green tokens");
                    check((**s == **t) == want, "equality of green token data");
                }
                if want {
                    check(same_hash(&ox, &oy), "equal green elements hash differently");
                }
            }
        }
        trace(want as u64);
    }
    end(l0);
}

fn addr(e: NodeOrToken<&GreenNodeData, &rowan::GreenTokenData>) -> usize {
    match e {
        NodeOrToken::Node(n) => n as *const GreenNodeData as *const u8 as usize,
        NodeOrToken::Token(t) => t as *const _ as *const u8 as usize,
    }
}

/// Checks a node that should have `want` (element identities) as children.
fn has_children(g: &GreenNodeData, kind: u16, want: &[(usize, u32)]) {
    check(g.kind() == SyntaxKind(kind), "an update changed the kind");
    check(g.children().len() == want.len(), "number of children after an update");
    let mut k = 0;
    let mut total = 0u32;
    for e in g.children() {
        if k == want.len() {
            return;
        }
        check(addr(e) == want[k].0, "children after an update");
        check(u32::from(e.text_len()) == want[k].1, "length of a child after an update");
        total += want[k].1;
        k += 1;
    }
    check(u32::from(g.text_len()) == total, "text_len after an update");
    // the stored offsets agree with the lengths: reach the children by range
    let mut off = 0;
    let root = Node::new_root(g.to_owned());
    k = 0;
    for e in root.children_with_tokens() {
        if k == want.len() {
            return;
        }
        check(e.text_range() == rng(off as u64, (off + want[k].1) as u64), "offsets after an update");
        off += want[k].1;
        k += 1;
    }
}

/// insert / remove / replace / splice on a green node do what the same call on
/// a list of children does, refuse what it refuses, and leave the original alone.
pub fn update() {
    let m = param("m", 3);
    let base = param("base", 0) as usize;
    let far = param("far", 0) == 1;
    let nch = base + choose("children", m + 1);
    // an index near the list, or any other one
    let place = |name: &str, n: usize| {
        let c = if n <= 9 { n as u64 } else { 7 };
        let i = choose(name, c + if far { 1 } else { 0 });
        if i as u64 == c {
            return var("far", 64, n as u64, u64::MAX) as usize;
        }
        if n <= 9 { i } else { [0, 1, 2, n / 2, n - 3, n - 2, n - 1][i] }
    };
    let mut kids = vec![];
    let mut want = vec![];
    let kind = any_u16("kind");
    for i in 0..nch {
        let e = if i < base { element_of(i, i % 3) } else { element(i) };
        want.push((oaddr(&e), u32::from(e.text_len())));
        kids.push(e);
    }
    let l0 = live();
    {
        let g = GreenNode::new(SyntaxKind(kind), kids.iter().cloned());
        has_children(&g, kind, &want);
        let op = choose("op", 4);
        let mut w2 = want.clone();
        let r: Option<GreenNode>;
        let ok: bool;
        match op {
            0 => {
                let i = place("index", nch + 2);
                let e = element(NEW);
                ok = i <= nch;
                if ok {
                    w2.insert(i, (oaddr(&e), u32::from(e.text_len())));
                }
                r = catch(|| g.insert_child(i, e));
            }
            1 => {
                let i = place("index", nch + 2);
                ok = i < nch;
                if ok {
                    w2.remove(i);
                }
                r = catch(|| g.remove_child(i));
            }
            2 => {
                // there is nothing to replace at other indices
                let i = place("index", nch + 1);
                let e = element(NEW);
                ok = true;
                if i < nch {
                    w2[i] = (oaddr(&e), u32::from(e.text_len()));
                }
                r = catch(|| g.replace_child(i, e));
            }
            _ => {
                let form = choose("form", 6);
                let lo = if form < 3 { place("lo", nch + 2) } else { 0 };
                let hi = if form < 2 || form == 3 || form == 4 { place("hi", nch + 2) } else { 0 };
                let k = choose("new", 3);
                let mut new = vec![];
                for i in 0..k {
                    new.push(element(NEW + i));
                }
                // half-open equivalent of the range
                let (a, b) = match form {
                    0 => (lo, hi),
                    1 => (lo, hi.saturating_add(1)),
                    2 => (lo, nch),
                    3 => (0, hi),
                    4 => (0, hi.saturating_add(1)),
                    _ => (0, nch),
                };
                ok = a <= b && b <= nch;
                if ok {
                    let ins: Vec<(usize, u32)> = new.iter().map(|e| (oaddr(e), u32::from(e.text_len()))).collect();
                    w2.splice(a..b, ins);
                }
                r = catch(|| match form {
                    0 => g.splice_children(lo..hi, new),
                    1 => g.splice_children(lo..=hi, new),
                    2 => g.splice_children(lo.., new),
                    3 => g.splice_children(..hi, new),
                    4 => g.splice_children(..=hi, new),
                    _ => g.splice_children(.., new),
                });
            }
        }
        check(r.is_some() == ok, "an update must succeed exactly when the index is in range");
        if let Some(r) = r {
            if ok {
                has_children(&r, kind, &w2);
                trace(w2.len() as u64);
                cover(0);
            }
        } else {
            cover(1);
        }
        has_children(&g, kind, &want);
    }
    end(l0);
}

fn oaddr(e: &GElem) -> usize {
    match e {
        NodeOrToken::Node(n) => addr(NodeOrToken::Node(n)),
        NodeOrToken::Token(t) => addr(NodeOrToken::Token(t)),
    }
}
/// A one-byte token, an empty token or a node of length two.
fn element(i: usize) -> GElem {
    element_of(i, choose("elem", if i < NEW { param("elems", 3) } else { 3 }))
}
const NEW: usize = 34;
fn element_of(i: usize, what: usize) -> GElem {
    let len = [1, 2, 0][what];
    let t = GreenToken::new(SyntaxKind(any_u16("ekind")), &LONG[i..i + len]);
    if what == 1 { GreenNode::new(SyntaxKind(200 + i as u16), vec![t.into()]).into() } else { t.into() }
}

/// The iterator over green children is the iterator of a list: any mix of
/// calls from both ends, then any way of consuming the rest.
pub fn iter() {
    let m = param("m", 4);
    let steps = param("steps", 3) as usize;
    let base = param("base", 0);
    let nch = (base + choose("children", m + 1) as u64) as usize;
    let m = base + m;
    let mut kids: Vec<GElem> = vec![];
    let mut ids = vec![];
    for i in 0..nch {
        let t = GreenToken::new(SyntaxKind(i as u16), &LONG[i..i + 1]);
        let e: GElem = if i % 2 == 1 { GreenNode::new(SyntaxKind(9), vec![t.into()]).into() } else { t.into() };
        ids.push(oaddr(&e));
        kids.push(e);
    }
    let g = GreenNode::new(SyntaxKind(7), kids);
    let mut it = g.children();
    let (mut lo, mut hi) = (0, nch);
    let far = param("far", 0) == 1;
    let skip = || {
        let k = choose("k", m + if far { 2 } else { 1 });
        if k as u64 == m + 1 { var("far", 64, k as u64, u64::MAX) as usize } else { k }
    };
    let id = |e: Option<NodeOrToken<&GreenNodeData, &rowan::GreenTokenData>>| e.map_or(NONE, |e| ids.iter().position(|&x| x == addr(e)).unwrap());
    for _ in 0..steps {
        match choose("op", 5) {
            0 => {
                let r = id(it.next());
                if lo < hi {
                    check(r == lo, "next");
                    lo += 1;
                } else {
                    check(r == NONE, "next after the end");
                }
            }
            1 => {
                let r = id(it.next_back());
                if lo < hi {
                    check(r == hi - 1, "next_back");
                    hi -= 1;
                } else {
                    check(r == NONE, "next_back after the end");
                }
            }
            2 => {
                let k = skip();
                let r = id(it.nth(k));
                if k < hi - lo {
                    check(r == lo + k, "nth");
                    lo += k + 1;
                } else {
                    check(r == NONE, "nth past the end");
                    lo = hi;
                }
            }
            3 => {
                let k = skip();
                let r = id(it.nth_back(k));
                if k < hi - lo {
                    check(r == hi - 1 - k, "nth_back");
                    hi -= k + 1;
                } else {
                    check(r == NONE, "nth_back past the end");
                    hi = lo;
                }
            }
            _ => {
                it = it.clone();
            }
        }
        check(it.len() == hi - lo, "len");
        check(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint");
        trace((lo * 16 + hi) as u64);
    }
    let rest = hi - lo;
    match choose("end", 7) {
        0 => check(it.count() == rest, "count"),
        1 => check(id(it.last()) == if rest > 0 { hi - 1 } else { NONE }, "last"),
        2 => {
            let mut at = lo;
            let n = it.fold(0usize, |n, e| {
                check(id(Some(e)) == at, "fold out of order");
                at += 1;
                n + 1
            });
            check(n == rest, "fold");
            cover(0);
        }
        3 => {
            let mut at = hi;
            let n = it.rfold(0usize, |n, e| {
                check(at > 0 && id(Some(e)) == at - 1, "rfold out of order");
                at -= 1;
                n + 1
            });
            check(n == rest, "rfold");
            cover(1);
        }
        4 => {
            let mut at = lo;
            for e in it {
                check(id(Some(e)) == at, "iteration out of order");
                at += 1;
            }
            check(at == hi, "iteration");
        }
        5 => {
            let v: Vec<_> = it.rev().collect();
            check(v.len() == rest, "rev");
            for (k, e) in v.iter().enumerate() {
                check(id(Some(*e)) == hi - 1 - k, "rev out of order");
            }
        }
        _ => {
            // the kinds and texts seen through the references
            for (k, e) in it.enumerate() {
                let i = lo + k;
                check(e.kind() == SyntaxKind(if i % 2 == 1 { 9 } else { i as u16 }), "kind of a child");
                check(u32::from(e.text_len()) == 1, "length of a child");
                check(L::kind_from_raw(e.to_owned().kind()) == K(e.kind().0), "kind of an owned child");
            }
        }
    }
}

/// A node can be built from any iterator of exact size, and an iterator that
/// lies about its size or panics must not corrupt memory.
pub fn lying_iter() {
    struct It {
        left: usize,
        claim: usize,
        panic_at: usize,
    }
    impl Iterator for It {
        type Item = GElem;
        fn next(&mut self) -> Option<GElem> {
            if self.left == self.panic_at {
                panic!("iterator");
            }
            if self.left == 0 {
                return None;
            }
            self.left -= 1;
            Some(GreenToken::new(SyntaxKind(self.left as u16), "ab").into())
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.claim, Some(self.claim))
        }
    }
    impl ExactSizeIterator for It {
        fn len(&self) -> usize {
            self.claim
        }
    }
    let left = choose("left", 4);
    let claim = choose("claim", 4);
    let panic_at = if choose("panics", 2) == 1 { choose("panic_at", 4) } else { NONE };
    let r = catch(|| GreenNode::new(SyntaxKind(3), It { left, claim, panic_at }));
    match r {
        Some(g) => {
            check(g.children().len() == claim, "a node built from a lying iterator");
            let mut n = 0;
            for c in g.children() {
                check(u32::from(c.text_len()) == 2, "a child built from a lying iterator");
                n += 1;
            }
            check(n == claim, "a node built from a lying iterator");
            check(u32::from(g.text_len()) as usize == 2 * n, "length of a node built from a lying iterator");
            if left == claim {
                cover(0);
            }
        }
        None => {
            check(left != claim || panic_at <= left, "building a node panics");
            cover(1);
        }
    }
}

/// Same elements reached twice are one object; trees outlive their parts.
pub fn same_tree() {
    let mut t = Tree::sym(shape("n", 3));
    let l0 = live();
    {
        let g = t.green(0);
        same_green(&g, &t, 0);
        let root = Node::new_root(g);
        let s = root.text().to_string();
        check(same_bytes(s.as_bytes(), t.txt(0).as_bytes()), "text of a tree");
        let s = root.green().to_string();
        check(same_bytes(s.as_bytes(), t.txt(0).as_bytes()), "text of a green tree");
        cover(0);
        trace(t.n as u64);
    }
    end(l0);
}
