//! C10 token_at_offset, C11 covering_element, C13 pointers, C20 identity.
use crate::sym::*;
use crate::tree::*;
use core::hash::{Hash, Hasher};
use rowan::ast::{AstNode, AstPtr, SyntaxNodePtr};
use rowan::{NodeOrToken, TokenAtOffset};

fn shape() -> Shape {
    Shape::nav()
}

/// Token lookup by offset, for every length of every token and every offset.
pub fn at_offset() {
    let mut t = Tree::sym(shape());
    let off = var("offset", 10, 0, 1000) as u32;
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let root = if param("mutable", 0) == 1 { root.clone_for_update() } else { root };
        let _r = Restore(&t);
        let s = choose("start", t.n as u64);
        assume(!t.is_tok[s]);
        let node = t.elem(&root, s).into_node().unwrap();
        let inside = (t.start[s] <= off) & (off <= t.end(s));
        let Some(r) = catch(|| node.token_at_offset(sz(off as u64))) else {
            check(!inside, "token_at_offset panics on an offset inside the node");
            cover(0);
            return;
        };
        check(inside, "token_at_offset answers for an offset outside of the node");
        let e = t.sub_end(s);
        let touches = |i: usize| t.is_tok[i] & (t.len[i] != 0) & (t.start[i] <= off) & (off <= t.end(i));
        let none_but = |a: usize, b: usize| {
            let mut ok = true;
            for i in s..e {
                if i != a && i != b {
                    ok &= !touches(i);
                }
            }
            ok
        };
        match r {
            TokenAtOffset::None => {
                check(none_but(NONE, NONE), "token_at_offset misses a token");
                cover(1);
                trace(0);
            }
            TokenAtOffset::Single(a) => {
                let a = t.tid(&a);
                check(a > s && a < e, "token_at_offset leaves the node");
                check(touches(a), "token_at_offset: the token does not touch the offset");
                check(none_but(a, NONE), "token_at_offset misses the second token");
                cover(2);
                trace(a as u64);
            }
            TokenAtOffset::Between(a, b) => {
                let (a, b) = (t.tid(&a), t.tid(&b));
                check(a > s && a < e && b > s && b < e && a < b, "token_at_offset: not in order");
                check(touches(a) & touches(b) & (t.end(a) == off) & (t.start[b] == off), "token_at_offset: not between");
                check(none_but(a, b), "token_at_offset misses a token");
                cover(3);
                trace((a * 100 + b) as u64);
            }
        }
    }
    end(l0);
}

/// The smallest element covering a range, for every range.
pub fn covering() {
    let mut t = Tree::sym(shape());
    let a = var("from", 10, 0, 1000) as u32;
    let b = var("to", 10, 0, 1000) as u32;
    assume(a <= b);
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let root = if param("mutable", 0) == 1 { root.clone_for_update() } else { root };
        let _r = Restore(&t);
        let s = choose("start", t.n as u64);
        assume(!t.is_tok[s]);
        let node = t.elem(&root, s).into_node().unwrap();
        let covers = |i: usize| (t.start[i] <= a) & (b <= t.end(i));
        match catch(|| node.covering_element(rng(a as u64, b as u64))) {
            None => {
                check(!covers(s), "covering_element panics on a range inside the node");
                cover(0);
            }
            Some(r) => {
                let i = t.eid(&r);
                check(i >= s && i < t.sub_end(s), "covering_element leaves the node");
                check(covers(i), "covering_element does not cover the range");
                check(covers(s), "covering_element answers for a range outside of the node");
                let mut c = t.first_child(i);
                while c != NONE {
                    check(!covers(c), "covering_element is not the smallest");
                    c = t.next_sib(c);
                }
                cover(if i == s { 1 } else if t.is_tok[i] { 2 } else { 3 });
                trace(i as u64);
            }
        }
    }
    end(l0);
}

/// The child containing a range.
pub fn child_at_range() {
    let mut t = Tree::sym(Shape { max_depth: 3, ..shape() });
    let a = var("from", 10, 0, 1000) as u32;
    let b = var("to", 10, 0, 1000) as u32;
    assume(a <= b);
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let root = if param("mutable", 0) == 1 { root.clone_for_update() } else { root };
        let _r = Restore(&t);
        let s = choose("start", t.n as u64);
        assume(!t.is_tok[s]);
        assume(a >= t.start[s]);
        let node = t.elem(&root, s).into_node().unwrap();
        let covers = |i: usize| (t.start[i] <= a) & (b <= t.end(i));
        match node.child_or_token_at_range(rng(a as u64, b as u64)) {
            None => {
                let mut c = t.first_child(s);
                while c != NONE {
                    check(!covers(c), "child_or_token_at_range misses a child");
                    c = t.next_sib(c);
                }
                cover(0);
            }
            Some(r) => {
                let i = t.eid(&r);
                check(t.parent[i] == s, "child_or_token_at_range: not a child");
                check(covers(i), "child_or_token_at_range: the child does not contain the range");
                cover(1);
                trace(i as u64);
            }
        }
    }
    end(l0);
}

fn node_ids(t: &Tree) -> usize {
    let i = choose("node", t.n as u64);
    assume(!t.is_tok[i]);
    i
}

/// A pointer made in a tree resolves to the node it was made from.
pub fn ptr_self() {
    let mut t = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let _r = Restore(&t);
        let i = node_ids(&t);
        let n = t.elem(&root, i).into_node().unwrap();
        let p = SyntaxNodePtr::new(&n);
        check(p.kind() == K(t.kind[i]), "kind of a pointer");
        check(p.text_range() == t.range(i), "range of a pointer");
        // another cursor over the same text
        let root2 = Node::new_root(g.clone());
        let mut unique = true;
        for j in 0..t.n {
            if j != i && !t.is_tok[j] {
                unique &= (t.kind[j] != t.kind[i]) | (t.start[j] != t.start[i]) | (t.len[j] != t.len[i]);
            }
        }
        match p.try_to_node(&root2) {
            None => fail("a pointer does not resolve in the tree it was made from"),
            Some(m) => {
                let j = t.id(&m);
                check((t.kind[j] == t.kind[i]) & (t.start[j] == t.start[i]) & (t.len[j] == t.len[i]), "a pointer resolves to a node of another kind or range");
                check(!unique | (i == j), "a pointer resolves to another node");
                check(m.ancestors().last().unwrap() == root2, "a pointer resolves in another tree");
                if i > 0 && i == j {
                    cover(0);
                }
                check(SyntaxNodePtr::new(&m) == p, "making a pointer again gives another one");
            }
        }
        if i > 0 {
            check(p.try_to_node(&n).is_none(), "a pointer resolves against a node that is not a root");
        }
        trace(i as u64);
    }
    end(l0);
}

/// A pointer from one tree resolves in another tree exactly when that tree has
/// a node of that kind and range.
pub fn ptr_other() {
    let mut a = Tree::sym(Shape { max: param("n2", 2) as usize, ..Shape::nav() });
    let mut b = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let (ga, gb) = (a.green(0), b.green(0));
        let ra = Node::new_root(ga.clone());
        let rb = Node::new_root(gb.clone());
        let _r = (Restore(&a), Restore(&b));
        let i = node_ids(&a);
        let p = SyntaxNodePtr::new(&a.elem(&ra, i).into_node().unwrap());
        let is = |j: usize| !b.is_tok[j] & (b.kind[j] == a.kind[i]) & (b.start[j] == a.start[i]) & (b.len[j] == a.len[i]);
        match p.try_to_node(&rb) {
            Some(m) => {
                check(is(b.id(&m)), "a pointer resolves to a node of another kind or range");
                cover(0);
            }
            None => {
                let mut none = true;
                for j in 0..b.n {
                    none &= !is(j);
                }
                check(none, "a pointer does not resolve although the tree has such a node");
                cover(1);
            }
        }
        trace(i as u64);
    }
    end(l0);
}

#[derive(Clone)]
pub struct Typed<const LO: u16, const HI: u16>(pub Node);
impl<const LO: u16, const HI: u16> AstNode for Typed<LO, HI> {
    type Language = L;
    fn can_cast(kind: K) -> bool {
        (LO <= kind.0) & (kind.0 <= HI)
    }
    fn cast(n: Node) -> Option<Self> {
        if Self::can_cast(n.kind()) { Some(Typed(n)) } else { None }
    }
    fn syntax(&self) -> &Node {
        &self.0
    }
}
pub type A = Typed<0, 99>;
pub type B = Typed<50, 149>;

/// A hasher that records what is fed to it.
pub struct Rec {
    pub b: Vec<u8>,
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.b.extend_from_slice(b);
    }
}
pub fn fed<T: Hash>(x: &T) -> Rec {
    let mut h = Rec { b: Vec::new() };
    x.hash(&mut h);
    h
}
/// `x` and `y` feed the same bytes to any hasher.
pub fn same_hash<T: Hash>(x: &T, y: &T) -> bool {
    let (a, b) = (fed(x), fed(y));
    same_bytes(&a.b, &b.b)
}

/// Typed pointers, casts between them, equality and hash of pointers.
pub fn ptr_typed() {
    let mut t = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let _r = Restore(&t);
        let i = node_ids(&t);
        let n = t.elem(&root, i).into_node().unwrap();
        let p = SyntaxNodePtr::new(&n);
        let k = t.kind[i];
        let a: Option<AstPtr<A>> = p.cast();
        check(a.is_some() == (k <= 99), "SyntaxNodePtr::cast");
        if let Some(a) = a {
            check(a.syntax_node_ptr() == p, "syntax_node_ptr");
            let direct = AstPtr::new(&A::cast(n.clone()).unwrap());
            check(direct == a, "AstPtr::new and cast differ");
            check(same_hash(&direct, &a), "equal AstPtrs hash differently");
            match a.try_to_node(&root) {
                None => fail("AstPtr does not resolve"),
                Some(m) => {
                    let j = t.id(m.syntax());
                    check((t.kind[j] == k) & (t.start[j] == t.start[i]) & (t.len[j] == t.len[i]), "AstPtr resolves to another node");
                }
            }
            let b: Option<AstPtr<B>> = a.clone().cast();
            check(b.is_some() == (50 <= k), "AstPtr::cast");
            if let Some(b) = b {
                check(b.syntax_node_ptr() == p, "AstPtr::cast changes the pointer");
                cover(0);
            }
            let raw: SyntaxNodePtr<L> = a.into();
            check(raw == p, "AstPtr to SyntaxNodePtr");
        }
        let j = choose("other", t.n as u64);
        assume(!t.is_tok[j]);
        let q = SyntaxNodePtr::new(&t.elem(&root, j).into_node().unwrap());
        let same = (t.kind[i] == t.kind[j]) & (t.start[i] == t.start[j]) & (t.len[i] == t.len[j]);
        let eq = p == q;
        check(eq == same, "equality of pointers");
        if eq {
            check(same_hash(&p, &q), "equal pointers hash differently");
            cover(1);
        }
        if let (Some(a), Some(b)) = (p.clone().cast::<A>(), q.clone().cast::<A>()) {
            check((a == b) == same, "equality of typed pointers");
            if same {
                check(same_hash(&a, &b), "equal typed pointers hash differently");
            }
        }
        trace(i as u64);
    }
    end(l0);
}

/// Pointers refuse mutable trees.
pub fn ptr_mutable() {
    let mut t = Tree::sym(Shape::nav());
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let m = root.clone_for_update();
        let _r = Restore(&t);
        let i = node_ids(&t);
        let p = SyntaxNodePtr::new(&t.elem(&root, i).into_node().unwrap());
        let n = t.elem(&m, i).into_node().unwrap();
        check(catch(|| SyntaxNodePtr::new(&n)).is_none(), "a pointer into a mutable tree was made");
        check(catch(|| p.try_to_node(&m)).is_none(), "a pointer was resolved in a mutable tree");
        check(catch(|| p.to_node(&root)).is_some(), "to_node panics on the tree the pointer was made from");
        trace(i as u64);
    }
}

/// Handles are equal exactly when they denote the same element.
pub fn identity() {
    let mut t = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let root = if param("mutable", 0) == 1 { root.clone_for_update() } else { root };
        let _r = Restore(&t);
        let i = choose("i", t.n as u64);
        let a = t.elem(&root, i);
        // a second route to the same place: last-to-first from the parent
        let mut b = root.clone().into();
        if i > 0 {
            let p = t.elem(&root, t.parent[i]).into_node().unwrap();
            let mut x = p.last_child_or_token().unwrap();
            let up = t.nchildren(t.parent[i]) - 1 - t.index(i);
            for _ in 0..up {
                x = x.prev_sibling_or_token().unwrap();
            }
            b = x;
        }
        check(a == b, "two handles to one element differ");
        check(same_hash(&a, &b), "two handles to one element hash differently");
        check(a.clone() == a, "a clone of a handle differs");
        for j in 0..t.n {
            if j != i {
                let c = t.elem(&root, j);
                check(a != c, "handles to different elements are equal");
                match (&a, &c) {
                    (NodeOrToken::Node(x), NodeOrToken::Node(y)) => check(x != y, "node handles to different elements are equal"),
                    (NodeOrToken::Token(x), NodeOrToken::Token(y)) => {
                        check(x != y, "token handles to different elements are equal");
                        cover(0);
                    }
                    _ => {}
                }
            }
        }
        // handles on copies of the tree or of parts of it: whether or not they
        // are equal, equal ones hash alike
        let alike = |x: &Elem, y: &Elem| {
            if x == y {
                check(y == x && same_hash(x, y), "equal handles of two trees hash differently");
            }
        };
        let o = Node::new_root(g.clone());
        alike(&a, &t.elem(&o, i));
        let mut k = i;
        loop {
            if let NodeOrToken::Node(n) = t.elem(&o, k) {
                // the part below `k`: down to where `i` is
                let mut way = vec![];
                let mut j = i;
                while j != k {
                    way.push(t.index(j));
                    j = t.parent[j];
                }
                let mut y: Elem = n.clone_subtree().into();
                while let Some(j) = way.pop() {
                    y = y.into_node().unwrap().children_with_tokens().nth(j).unwrap();
                }
                alike(&a, &y);
            }
            if k == 0 {
                break;
            }
            k = t.parent[k];
        }
        if i > 0 {
            let m = o.clone_for_update();
            let y = t.elem(&m, i);
            alike(&a, &y);
            y.detach();
            alike(&a, &y);
        }
        trace(i as u64);
    }
    end(l0);
}

/// Identity when a green subtree occurs several times: the same green element
/// at different places gives different handles, also if it has no text. With
/// `apart`, each occurrence is the only child of its own parent.
pub fn identity_shared() {
    let mut t = Tree::sym(Shape::nav());
    let copies = 2 + choose("copies", 2);
    let gap = choose("gap", 2) == 1;
    let apart = choose("apart", 2) == 1;
    {
        let g = t.green(0);
        let sep = rowan::GreenToken::new(rowan::SyntaxKind(7), "-");
        let mut kids: Vec<GElem> = Vec::with_capacity(8);
        for _ in 0..copies {
            kids.push(if apart { rowan::GreenNode::new(rowan::SyntaxKind(8), [g.clone().into()]).into() } else { g.clone().into() });
            if gap {
                kids.push(sep.clone().into());
            }
        }
        let top = rowan::GreenNode::new(rowan::SyntaxKind(1), kids);
        let root = Node::new_root(top.clone());
        let root = if choose("mutable", 2) == 1 { root.clone_for_update() } else { root };
        let _r = Restore(&t);
        let tops: Vec<Node> = root.children().map(|n| if apart { n.first_child().unwrap() } else { n }).collect();
        check(tops.len() == copies, "number of copies");
        let i = choose("i", t.n as u64);
        for a in 0..copies {
            let x = t.elem(&tops[a], i);
            check(u32::from(x.text_range().start()) == t.start[i] + a as u32 * (t.len[0] + gap as u32), "offset in a copy");
            check(x == t.elem(&tops[a], i), "two handles to one element differ");
            for b in 0..a {
                let y = t.elem(&tops[b], i);
                check(x != y, "handles to two copies are equal");
                if t.len[0] == 0 && !gap {
                    cover(1);
                }
                cover(0);
            }
        }
        trace(i as u64);
    }
}
