//! C08 traversals, C09 token navigation, C02 ranges.
use crate::sym::*;
use crate::tree::*;
use rowan::{NodeOrToken, WalkEvent};

fn gen_events(t: &Tree, i: usize, tokens: bool, skip: &[bool; MAXN], out: &mut Vec<(bool, usize)>) {
    out.push((true, i));
    if !t.is_tok[i] && !skip[i] {
        let mut c = t.first_child(i);
        while c != NONE {
            if tokens || !t.is_tok[c] {
                gen_events(t, c, tokens, skip, out);
            }
            c = t.next_sib(c);
        }
    }
    out.push((false, i));
}

fn same_events(a: &[(bool, usize)], b: &[(bool, usize)]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for k in 0..a.len() {
        if a[k].0 != b[k].0 || a[k].1 != b[k].1 {
            return false;
        }
    }
    true
}

/// Preorder walks from any node, skipping any set of subtrees.
pub fn walk() {
    let mut t = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let root = if param("mutable", 0) == 1 { root.clone_for_update() } else { root };
        let _r = Restore(&t);
        let s = choose("start", t.n as u64);
        assume(!t.is_tok[s]);
        let start = t.elem(&root, s).into_node().unwrap();
        let no = [false; MAXN];
        let limit = 2 * t.n + 1;

        let mut want = Vec::with_capacity(32);
        gen_events(&t, s, true, &no, &mut want);
        let mut it = start.descendants_with_tokens();
        for &(enter, i) in &want {
            if enter {
                check(t.oeid(it.next()) == i, "descendants_with_tokens");
            }
        }
        check(it.next().is_none(), "descendants_with_tokens leaves the subtree");
        let mut want = Vec::with_capacity(32);
        gen_events(&t, s, false, &no, &mut want);
        let mut it = start.descendants();
        for &(enter, i) in &want {
            if enter {
                check(t.oid(it.next()) == i, "descendants");
            }
        }
        check(it.next().is_none(), "descendants leaves the subtree");

        let with_skip = param("skip", 1) == 1;
        let mut skip = no;
        let mut filler = true; // at most one filler is skipped
        let mut skips = |i: usize| {
            let yes = with_skip && (!t.filler[i] || filler) && choose("skip", 2) == 1;
            filler &= !(yes && t.filler[i]);
            yes
        };
        if choose("tokens", 2) == 1 {
            let mut got = Vec::with_capacity(32);
            let mut it = start.preorder_with_tokens();
            while let Some(ev) = it.next() {
                match ev {
                    WalkEvent::Enter(e) => {
                        let i = t.eid(&e);
                        got.push((true, i));
                        skip[i] = skips(i);
                        if skip[i] {
                            it.skip_subtree();
                            cover(0);
                        }
                    }
                    WalkEvent::Leave(e) => got.push((false, t.eid(&e))),
                }
                if got.len() > limit {
                    break;
                }
            }
            let mut want = Vec::with_capacity(32);
            gen_events(&t, s, true, &skip, &mut want);
            check(same_events(&got, &want), "preorder_with_tokens");
            check(it.next().is_none(), "preorder_with_tokens yields after its end");
        } else {
            let mut got = Vec::with_capacity(32);
            let mut it = start.preorder();
            while let Some(ev) = it.next() {
                match ev {
                    WalkEvent::Enter(e) => {
                        let i = t.id(&e);
                        got.push((true, i));
                        skip[i] = skips(i);
                        if skip[i] {
                            it.skip_subtree();
                            cover(1);
                        }
                    }
                    WalkEvent::Leave(e) => got.push((false, t.id(&e))),
                }
                if got.len() > limit {
                    break;
                }
            }
            let mut want = Vec::with_capacity(32);
            gen_events(&t, s, false, &skip, &mut want);
            check(same_events(&got, &want), "preorder");
            check(it.next().is_none(), "preorder yields after its end");
        }
        trace(s as u64);
    }
    end(l0);
}

fn next_tok(t: &Tree, from: usize, to: usize) -> usize {
    let mut i = from;
    while i < to {
        if t.is_tok[i] {
            return i;
        }
        i += 1;
    }
    NONE
}
fn prev_tok(t: &Tree, from: usize, before: usize) -> usize {
    let mut i = before;
    while i > from {
        i -= 1;
        if t.is_tok[i] {
            return i;
        }
    }
    NONE
}

/// First, last, next and previous token of everything.
pub fn tokens() {
    let mut t = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let root = if param("mutable", 0) == 1 { root.clone_for_update() } else { root };
        let _r = Restore(&t);
        for i in 0..t.n {
            match t.elem(&root, i) {
                NodeOrToken::Node(n) => {
                    let e = t.sub_end(i);
                    check(t.otid(n.first_token()) == next_tok(&t, i + 1, e), "first_token");
                    check(t.otid(n.last_token()) == prev_tok(&t, i + 1, e), "last_token");
                    if i > 0 && next_tok(&t, i, e) == NONE {
                        cover(0);
                    }
                }
                NodeOrToken::Token(k) => {
                    check(t.otid(k.next_token()) == next_tok(&t, i + 1, t.n), "next_token");
                    check(t.otid(k.prev_token()) == prev_tok(&t, 0, i), "prev_token");
                    check(k.text().len() == t.len[i] as usize, "length of a token's text");
                    cover(1);
                }
            }
        }
        // walking the whole token list both ways
        let mut i = next_tok(&t, 0, t.n);
        let mut cur = root.first_token();
        while let Some(k) = cur {
            check(i != NONE && t.tid(&k) == i, "walk by next_token");
            i = next_tok(&t, i + 1, t.n);
            cur = k.next_token();
        }
        check(i == NONE, "walk by next_token ends early");
        let mut i = prev_tok(&t, 0, t.n);
        let mut cur = root.last_token();
        while let Some(k) = cur {
            check(i != NONE && t.tid(&k) == i, "walk by prev_token");
            i = prev_tok(&t, 0, i);
            cur = k.prev_token();
        }
        check(i == NONE, "walk by prev_token ends early");
        trace(t.n as u64);
    }
    end(l0);
}

/// Every element covers exactly its own text: lengths add up and ranges tile.
pub fn ranges() {
    let mut t = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let root = if param("mutable", 0) == 1 { root.clone_for_update() } else { root };
        let _r = Restore(&t);
        for i in 0..t.n {
            let e = t.elem(&root, i);
            let r = e.text_range();
            check(u32::from(r.start()) == t.start[i], "start of a range");
            check(u32::from(r.len()) == t.len[i], "length of a range");
            match &e {
                NodeOrToken::Node(n) => {
                    check(n.text_range() == r, "node and element disagree on the range");
                    check(u32::from(n.green().text_len()) == t.len[i], "green text_len");
                    check(u32::from(n.text().len()) == t.len[i], "length of the text of a node");
                    let mut at = r.start();
                    for c in n.children_with_tokens() {
                        let cr = c.text_range();
                        check(cr.start() == at, "children do not tile their parent");
                        at = cr.end();
                    }
                    check(at == r.end(), "children do not fill their parent");
                    // the subtree taken out on its own starts at 0
                    let s = n.clone_subtree();
                    check(s.parent().is_none(), "clone_subtree has a parent");
                    check(u32::from(s.text_range().start()) == 0, "clone_subtree does not start at 0");
                    check(u32::from(s.text_range().len()) == t.len[i], "clone_subtree has another length");
                    let k = s.last_child_or_token();
                    let kk = n.last_child_or_token();
                    check(k.is_some() == kk.is_some(), "clone_subtree lost its children");
                    if let (Some(k), Some(kk)) = (k, kk) {
                        check(k.text_range() + r.start() == kk.text_range(), "clone_subtree moved an element");
                        cover(0);
                    }
                }
                NodeOrToken::Token(k) => {
                    check(k.text_range() == r, "token and element disagree on the range");
                    check(u32::from(k.green().text_len()) == t.len[i], "green token text_len");
                    check(k.text().len() == t.len[i] as usize, "length of the text of a token");
                    if !t.sym_len {
                        check(k.text() == t.txt(i), "text of a token");
                    }
                    cover(1);
                }
            }
            if !t.sym_len {
                let all = root.text();
                check(all == t.txt(0), "text of the root");
                check(all.slice(r) == t.txt(i), "the range of an element does not select its text");
                check(e.to_string() == t.txt(i), "text of an element");
            }
            trace(u32::from(r.start()) as u64);
        }
    }
    end(l0);
}
