//! C07: sibling, child and parent navigation.
use crate::sym::*;
use crate::tree::*;
use rowan::{Direction, NodeOrToken, SyntaxKind, cursor};

fn next_node(t: &Tree, i: usize) -> usize {
    let mut j = t.next_sib(i);
    while j != NONE && t.is_tok[j] {
        j = t.next_sib(j);
    }
    j
}
fn prev_node(t: &Tree, i: usize) -> usize {
    let mut j = t.prev_sib(i);
    while j != NONE && t.is_tok[j] {
        j = t.prev_sib(j);
    }
    j
}
fn first_node(t: &Tree, i: usize) -> usize {
    let c = t.first_child(i);
    if c != NONE && t.is_tok[c] { next_node(t, c) } else { c }
}
fn last_node(t: &Tree, i: usize) -> usize {
    let c = t.last_child(i);
    if c != NONE && t.is_tok[c] { prev_node(t, c) } else { c }
}

fn root_of(t: &mut Tree) -> (rowan::GreenNode, Node) {
    let g = t.green(0);
    let r = Node::new_root(g.clone());
    (g, if param("mutable", 0) == 1 { r.clone_for_update() } else { r })
}

/// Every single-step navigation function on every element.
pub fn step() {
    let mut t = Tree::sym(Shape { ..Shape::nav() });
    let l0 = live();
    {
        let (_g, root) = root_of(&mut t);
        let _r = Restore(&t);
        for i in 0..t.n {
            let e = t.elem(&root, i);
            check(t.eid(&e) == i, "descending by child index reaches another element");
            check(e.kind() == K(t.kind[i]), "kind");
            check(e.index() == t.index(i), "index");
            check(t.oid(e.parent()) == t.parent[i], "parent");
            check(t.oeid(e.next_sibling_or_token()) == t.next_sib(i), "next_sibling_or_token");
            check(t.oeid(e.prev_sibling_or_token()) == t.prev_sib(i), "prev_sibling_or_token");
            match &e {
                NodeOrToken::Node(n) => {
                    check(n.kind() == K(t.kind[i]) && n.index() == t.index(i), "node kind or index");
                    check(t.oid(n.parent()) == t.parent[i], "node parent");
                    check(t.oeid(n.next_sibling_or_token()) == t.next_sib(i), "node next_sibling_or_token");
                    check(t.oeid(n.prev_sibling_or_token()) == t.prev_sib(i), "node prev_sibling_or_token");
                    check(t.oid(n.next_sibling()) == next_node(&t, i), "next_sibling");
                    check(t.oid(n.prev_sibling()) == prev_node(&t, i), "prev_sibling");
                    check(t.oid(n.first_child()) == first_node(&t, i), "first_child");
                    check(t.oid(n.last_child()) == last_node(&t, i), "last_child");
                    check(t.oeid(n.first_child_or_token()) == t.first_child(i), "first_child_or_token");
                    check(t.oeid(n.last_child_or_token()) == t.last_child(i), "last_child_or_token");
                    if i != 0 && first_node(&t, i) != NONE {
                        cover(0);
                    }
                }
                NodeOrToken::Token(k) => {
                    check(k.kind() == K(t.kind[i]) && k.index() == t.index(i), "token kind or index");
                    check(t.oid(k.parent()) == t.parent[i], "token parent");
                    check(t.oeid(k.next_sibling_or_token()) == t.next_sib(i), "token next_sibling_or_token");
                    check(t.oeid(k.prev_sibling_or_token()) == t.prev_sib(i), "token prev_sibling_or_token");
                    if t.next_sib(i) != NONE {
                        cover(1);
                    }
                }
            }
            trace(e.index() as u64);
        }
    }
    end(l0);
}

/// Every navigation iterator from every element.
pub fn iters() {
    let mut t = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let (_g, root) = root_of(&mut t);
        let _r = Restore(&t);
        for i in 0..t.n {
            let e = t.elem(&root, i);
            // ancestors
            let mut a = if t.is_tok[i] { t.parent[i] } else { i };
            for n in e.ancestors() {
                check(a != NONE && t.id(&n) == a, "ancestors");
                a = t.parent[a];
            }
            check(a == NONE, "ancestors ends early");
            match &e {
                NodeOrToken::Node(n) => {
                    let mut a = i;
                    for n in n.ancestors() {
                        check(a != NONE && t.id(&n) == a, "node ancestors");
                        a = t.parent[a];
                    }
                    check(a == NONE, "node ancestors ends early");
                    let mut c = first_node(&t, i);
                    for x in n.children() {
                        check(c != NONE && t.id(&x) == c, "children");
                        c = next_node(&t, c);
                    }
                    check(c == NONE, "children ends early");
                    let mut c = t.first_child(i);
                    let mut it = n.children_with_tokens();
                    while let Some(x) = it.next() {
                        check(c != NONE && t.eid(&x) == c, "children_with_tokens");
                        c = t.next_sib(c);
                    }
                    check(c == NONE, "children_with_tokens ends early");
                    check(it.next().is_none(), "children_with_tokens yields after its end");
                    // kept handles (no in-place reuse of the previous handle)
                    let kept: Vec<Elem> = n.children_with_tokens().collect();
                    check(kept.len() == t.nchildren(i), "number of children");
                    let mut c = t.first_child(i);
                    for x in &kept {
                        check(t.eid(x) == c, "children_with_tokens (kept)");
                        c = t.next_sib(c);
                    }
                    let kept: Vec<Node> = n.children().collect();
                    let mut c = first_node(&t, i);
                    for x in &kept {
                        check(t.id(x) == c, "children (kept)");
                        c = next_node(&t, c);
                    }
                    check(c == NONE, "children (kept) ends early");
                    let mut c = i;
                    for x in n.siblings(Direction::Next) {
                        check(c != NONE && t.id(&x) == c, "siblings next");
                        c = next_node(&t, c);
                    }
                    check(c == NONE, "siblings next ends early");
                    let mut c = i;
                    for x in n.siblings(Direction::Prev) {
                        check(c != NONE && t.id(&x) == c, "siblings prev");
                        c = prev_node(&t, c);
                    }
                    check(c == NONE, "siblings prev ends early");
                    sibs(&t, i, n.siblings_with_tokens(Direction::Next), true);
                    sibs(&t, i, n.siblings_with_tokens(Direction::Prev), false);
                    if kept.len() > 1 {
                        cover(0);
                    }
                }
                NodeOrToken::Token(k) => {
                    let mut a = t.parent[i];
                    for n in k.parent_ancestors() {
                        check(a != NONE && t.id(&n) == a, "parent_ancestors");
                        a = t.parent[a];
                    }
                    check(a == NONE, "parent_ancestors ends early");
                    sibs(&t, i, k.siblings_with_tokens(Direction::Next), true);
                    sibs(&t, i, k.siblings_with_tokens(Direction::Prev), false);
                    cover(1);
                }
            }
            trace(i as u64);
        }
    }
    end(l0);
}
fn sibs(t: &Tree, i: usize, it: impl Iterator<Item = Elem>, next: bool) {
    let mut c = i;
    for x in it {
        check(c != NONE && t.eid(&x) == c, "siblings_with_tokens");
        c = if next { t.next_sib(c) } else { t.prev_sib(c) };
    }
    check(c == NONE, "siblings_with_tokens ends early");
}

/// Navigation filtered by kind, for every assignment of 16-bit kinds and every
/// kind looked for, also from a partly consumed iterator.
pub fn by_kind() {
    let mut t = Tree::sym(Shape { max_depth: 2, ..Shape::nav() });
    let k = any_u16("wanted");
    let l0 = live();
    {
        let (_g, root) = root_of(&mut t);
        let _r = Restore(&t);
        let m = |x: K| x.0 == k;
        let hit = |mut i: usize, nodes: bool| {
            // first element from i on which is wanted
            while i != NONE && !(t.kind[i] == k && !(nodes && t.is_tok[i])) {
                i = t.next_sib(i);
            }
            i
        };
        let p = 0;
        check(t.oid(root.first_child_by_kind(&m)) == hit(t.first_child(p), true), "first_child_by_kind");
        check(t.oeid(root.first_child_or_token_by_kind(&m)) == hit(t.first_child(p), false), "first_child_or_token_by_kind");
        let mut i = t.first_child(p);
        while i != NONE {
            match t.elem(&root, i) {
                NodeOrToken::Node(n) => {
                    check(t.oid(n.next_sibling_by_kind(&m)) == hit(t.next_sib(i), true), "next_sibling_by_kind");
                    check(t.oeid(n.next_sibling_or_token_by_kind(&m)) == hit(t.next_sib(i), false), "next_sibling_or_token_by_kind");
                }
                NodeOrToken::Token(_) => {}
            }
            i = t.next_sib(i);
        }
        // by_kind after `skip` steps
        let skip = choose("skip", t.nchildren(p) as u64 + 2);
        let mut it = root.children_with_tokens();
        let mut at = t.first_child(p);
        let mut last = None;
        for _ in 0..skip {
            let x = it.next();
            check(t.oeid(x.clone()) == at, "children_with_tokens");
            if at != NONE {
                at = t.next_sib(at);
            }
            if param("keep", 0) == 1 {
                last = x;
            }
        }
        let mut at = hit(at, false);
        for x in it.by_kind(m) {
            check(at != NONE && t.eid(&x) == at, "children_with_tokens().by_kind");
            cover(0);
            at = hit(t.next_sib(at), false);
        }
        check(at == NONE, "children_with_tokens().by_kind ends early");
        drop(last);
        let mut it = root.children();
        let mut at = first_node(&t, p);
        let mut last = None;
        for _ in 0..skip {
            let x = it.next();
            check(t.oid(x.clone()) == at, "children");
            if at != NONE {
                at = next_node(&t, at);
            }
            if param("keep", 0) == 1 {
                last = x;
            }
        }
        let mut at = hit(at, true);
        for x in it.by_kind(m) {
            check(at != NONE && t.id(&x) == at, "children().by_kind");
            cover(1);
            at = hit(t.next_sib(at), true);
        }
        check(at == NONE, "children().by_kind ends early");
        drop(last);
        trace(skip as u64);
    }
    end(l0);
}

/// In-place advance of owned cursors (shared and unshared), and the navigation
/// functions that only the cursor layer has.
pub fn in_place() {
    let mut t = Tree::sym(Shape { kind_bits: 16, ..Shape::nav() });
    let k = any_u16("wanted");
    let l0 = live();
    {
        let (_g, root) = root_of(&mut t);
        let _r = Restore(&t);
        let i = choose("elem", t.n as u64);
        let shared = choose("shared", 2) == 1;
        let e: cursor::SyntaxElement = match t.elem(&root, i) {
            NodeOrToken::Node(n) => cursor::SyntaxNode::from(n).into(),
            NodeOrToken::Token(x) => cursor::SyntaxToken::from(x).into(),
        };
        let root: cursor::SyntaxNode = root.into();
        if i == 0 {
            drop(root);
        } else {
            check(root.kind() == SyntaxKind(t.kind[0]), "kind of the root");
        }
        let hold = if shared { Some(e.clone()) } else { None };
        let m = |x: SyntaxKind| x.0 == k;
        let mut h = t.next_sib(i);
        while h != NONE && t.kind[h] != k {
            h = t.next_sib(h);
        }
        let typed = |x: cursor::SyntaxElement| -> Elem {
            match x {
                NodeOrToken::Node(n) => NodeOrToken::Node(n.into()),
                NodeOrToken::Token(x) => NodeOrToken::Token(x.into()),
            }
        };
        check(t.oeid(e.next_sibling_or_token_by_kind(&m).map(typed)) == h, "element next_sibling_or_token_by_kind");
        if let NodeOrToken::Token(x) = &e {
            check(t.oeid(x.next_sibling_or_token_by_kind(&m).map(typed)) == h, "token next_sibling_or_token_by_kind");
        }
        let nodes = !t.is_tok[i] && choose("nodes_only", 2) == 1;
        if nodes {
            let r = e.into_node().unwrap().to_next_sibling();
            check(t.oid(r.map(|n| n.into())) == next_node(&t, i), "to_next_sibling");
            cover(0);
        } else {
            let mut cur = Some(e);
            let mut at = i;
            while let Some(c) = cur {
                cur = c.to_next_sibling_or_token();
                at = t.next_sib(at);
                check(t.oeid(cur.clone().map(typed)) == at, "to_next_sibling_or_token");
                cover(1);
                if at == NONE {
                    break;
                }
            }
        }
        if let Some(h) = hold {
            check(t.eid(&typed(h)) == i, "a shared handle moved");
            cover(2);
        }
        trace(i as u64);
    }
    end(l0);
}
