//! C19: typed AST helpers against the model.
use crate::find::{A, B};
use crate::sym::*;
use crate::tree::*;
use rowan::NodeOrToken;
use rowan::ast::{AstNode, support};

fn is_a(k: u16) -> bool {
    k <= 99
}
fn is_b(k: u16) -> bool {
    (k >= 50) & (k <= 149)
}
fn root(t: &Tree, g: &rowan::GreenNode) -> Node {
    let r = Node::new_root(g.clone());
    if param("mutable", 0) == 1 { r.clone_for_update() } else { r }
}

/// `support::{child, children, token}` for every kind of every element.
pub fn helpers() {
    let mut t = Tree::sym(Shape { kind_bits: 8, max_depth: 3, max_tok_len: 1, ..Shape::new(param("n", 4) as usize) });
    let want = any_u16("wanted");
    let l0 = live();
    {
        let g = t.green(0);
        let root = root(&t, &g);
        let p = choose("parent", t.n as u64);
        assume(!t.is_tok[p]);
        let node = t.elem(&root, p).into_node().unwrap();
        match choose("helper", 4) {
            0 => {
                let r = t.oid(support::child::<A>(&node).map(|x| x.syntax().clone()));
                let mut e = NONE;
                let mut c = t.first_child(p);
                while c != NONE && e == NONE {
                    if !t.is_tok[c] && is_a(t.kind[c]) {
                        e = c;
                    }
                    c = t.next_sib(c);
                }
                check(r == e, "support::child is not the first child of that type");
                cover(if r == NONE { 0 } else { 1 });
                trace(r as u64);
            }
            1 => {
                let mut it = support::children::<B>(&node);
                let mut c = t.first_child(p);
                let mut k = 0;
                while c != NONE {
                    if !t.is_tok[c] && is_b(t.kind[c]) {
                        let mut other = it.clone();
                        let o = t.oid(other.next().map(|x| x.syntax().clone()));
                        check(o == c, "support::children: a clone does not continue where the iterator is");
                        let r = t.oid(it.next().map(|x| x.syntax().clone()));
                        check(r == c, "support::children misses a child or yields another one");
                        k += 1;
                    }
                    c = t.next_sib(c);
                }
                check(it.next().is_none(), "support::children yields too much");
                check(it.next().is_none(), "support::children goes on after its end");
                if k == 2 {
                    cover(2);
                }
                trace(k);
            }
            2 => {
                let r = t.otid(support::token(&node, K(want)));
                let mut e = NONE;
                let mut c = t.first_child(p);
                while c != NONE && e == NONE {
                    if t.is_tok[c] && t.kind[c] == want {
                        e = c;
                    }
                    c = t.next_sib(c);
                }
                check(r == e, "support::token is not the first token of that kind");
                cover(if r == NONE { 3 } else { 4 });
                trace(r as u64);
            }
            _ => {
                let a = A::cast(node.clone());
                check(a.is_some() == is_a(t.kind[p]), "cast succeeds for another kind");
                check(A::can_cast(K(t.kind[p])) == is_a(t.kind[p]), "can_cast");
                let Some(a) = a else { return };
                check(*a.syntax() == node, "cast gives another node");
                let s = a.clone_subtree();
                check(s.syntax().parent().is_none() && !s.syntax().is_mutable(), "clone_subtree is not an immutable root");
                check(s.syntax().text_range() == rng(0, t.len[p] as u64), "range of clone_subtree");
                check(t.ptr[p] == &*s.syntax().green() as *const _ as *const u8 as usize, "clone_subtree is another tree");
                if param("mutable", 0) == 1 {
                    check(catch(|| a.clone_for_update()).is_none(), "clone_for_update of a mutable tree must panic");
                } else {
                    let u = a.clone_for_update();
                    check(u.syntax().is_mutable(), "clone_for_update is not mutable");
                    check(t.id(u.syntax()) == p, "clone_for_update is another node");
                    let mut q = Some(u.syntax().clone());
                    let mut i = p;
                    while let Some(x) = q {
                        check(i != NONE && t.id(&x) == i, "clone_for_update lost an ancestor");
                        q = x.parent();
                        i = if i == NONE { NONE } else { t.parent[i] };
                    }
                    check(i == NONE, "clone_for_update has fewer ancestors");
                    // changing the copy leaves the tree alone
                    u.syntax().detach();
                    check(t.id(&node) == p && node.parent().map_or(NONE, |x| t.id(&x)) == t.parent[p], "changing the copy changed the tree");
                }
                cover(5);
            }
        }
    }
    end(l0);
}
