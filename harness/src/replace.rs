//! C12: replace_with against substitution in the model.
use crate::mutate::Forest;
use crate::sym::*;
use crate::tree::*;
use rowan::{GreenNode, GreenNodeData, GreenToken, NodeOrToken, SyntaxKind};

fn addr(g: &GreenNodeData) -> usize {
    g as *const _ as *const u8 as usize
}
fn elem(root: &Node, f: &Forest, i: usize) -> Elem {
    if f.parent[i] == NONE {
        return root.clone().into();
    }
    let p = elem(root, f, f.parent[i]);
    p.as_node().unwrap().children_with_tokens().nth(f.pos(i)).unwrap()
}
/// `new` is `old` (the tree of element `e`) with element `i` replaced by the
/// green element at `with` of length `wlen`. Elements not on the way to `i`
/// must be shared.
fn substituted(f: &Forest, new: &GreenNodeData, old: &GreenNodeData, e: usize, i: usize, with: usize, wlen: u32) {
    check(new.kind() == old.kind(), "kind of a node above the replaced element");
    check(u32::from(new.text_len()) == f.width(e) - f.width(i) + wlen, "text_len of a node above the replaced element");
    check(new.children().len() == f.kids[e].len(), "number of children after replace_with");
    if new.children().len() != f.kids[e].len() {
        return;
    }
    let mut olds = old.children();
    for (k, c) in new.children().enumerate() {
        let o = olds.next().unwrap();
        let id = f.kids[e][k];
        let p = match c {
            NodeOrToken::Node(n) => addr(n),
            NodeOrToken::Token(t) => t as *const _ as *const u8 as usize,
        };
        let q = match o {
            NodeOrToken::Node(n) => addr(n),
            NodeOrToken::Token(t) => t as *const _ as *const u8 as usize,
        };
        if id == i {
            check(p == with, "the replaced element is not the replacement");
        } else if f.is_anc(id, i) {
            match (c, o) {
                (NodeOrToken::Node(n), NodeOrToken::Node(o)) => substituted(f, n, o, id, i, with, wlen),
                _ => fail("a node above the replaced element became a token"),
            }
        } else {
            check(p == q, "an element besides the replaced one is not shared");
        }
    }
}

pub fn replace() {
    let t = Tree::sym(Shape { kind_bits: 0, max_tok_len: param("len", 1), empty_tokens: param("empty", 0) == 1, ..Shape::new(param("n", 4) as usize) });
    let mutable = choose("mutable", 2) == 1;
    let moves = if mutable { choose("moves", 1 + param("moves", 1)) } else { 0 };
    let l0 = live();
    {
        let mut f = Forest::new(&t);
        let g = f.green(0);
        let imm = Node::new_root(g.clone());
        let mut root = if mutable { imm.clone_for_update() } else { imm.clone() };
        let mut top = 0;
        if moves == 1 {
            // detach an element, and go on in either of the two trees
            let d = choose("detach", f.n as u64);
            assume(d != 0);
            let e = elem(&root, &f, d);
            e.detach();
            f.detach(d);
            if choose("inside", 2) == 1 {
                assume(!f.tok[d]);
                root = e.into_node().unwrap();
                top = d;
            }
        }
        let i = choose("target", f.n as u64);
        assume(f.root(i) == top);
        let e = elem(&root, &f, i);
        let kind = any_u16("kind");
        let right = kind == f.kind(i);
        let before = root.green().into_owned();
        let filled = choose("filled", 2) == 1;
        let (res, with, wlen) = match &e {
            NodeOrToken::Node(n) => {
                let kids: Vec<GElem> = if filled { vec![GreenToken::new(SyntaxKind(7), "pqr").into(), GreenNode::new(SyntaxKind(8), []).into()] } else { vec![] };
                let w = GreenNode::new(SyntaxKind(kind), kids);
                let a = addr(&w);
                (catch(|| n.replace_with(w)), a, if filled { 3 } else { 0 })
            }
            NodeOrToken::Token(n) => {
                let w = GreenToken::new(SyntaxKind(kind), if filled { "pqr" } else { "" });
                let a = &*w as *const _ as *const u8 as usize;
                (catch(|| n.replace_with(w)), a, if filled { 3 } else { 0 })
            }
        };
        match &res {
            None => {
                check(!right, "replace_with panics on a replacement of the same kind");
                cover(0);
            }
            Some(r) => {
                check(right, "replace_with accepts a replacement of another kind");
                if i == top {
                    check(addr(r) == with, "replacing the root does not give the replacement");
                    cover(1);
                } else {
                    substituted(&f, r, &before, top, i, with, wlen);
                    cover(2);
                    trace(u32::from(r.text_len()) as u64);
                }
            }
        }
        drop(res);
        // neither the tree nor the handle changed
        f.same_green(&before, top);
        check(addr(&root.green()) == addr(&before), "replace_with changed the tree");
        f.walk(&root, top);
        f.see(&e, i, mutable);
        if moves == 0 {
            check(addr(&imm.green()) == addr(&g), "replace_with changed the original tree");
        }
    }
    end(l0);
}
