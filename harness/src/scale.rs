//! Sizes beyond the small shapes: many children, deep nesting, long texts.
//! The size is fixed per run, the place looked at is symbolic.
use crate::find::same_hash;
use crate::misc::{Lang, wide_print};
use crate::sym::*;
use crate::tree::*;
use rowan::{Direction, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData, NodeCache, NodeOrToken, SyntaxKind, SyntaxNode, SyntaxText, TextRange, TextSize, TokenAtOffset, WalkEvent};

fn at(start: u32, len: u32) -> TextRange {
    TextRange::at(TextSize::from(start), TextSize::from(len))
}
/// Any place in `0..m`, or (`around` given) any near the ends and near that one.
fn place(m: usize) -> usize {
    let around = param("around", 0) as usize;
    if around == 0 {
        return choose("place", m as u64);
    }
    if param("few", 0) != 0 {
        return [0, around, m - 1][choose("place", 3)];
    }
    let v = [0, 1, around - 1, around, around + 1, m - 2, m - 1];
    v[choose("place", v.len() as u64)]
}
fn is(e: &Elem, i: usize, start: u32, what: &str) {
    check(e.kind() == K(kind_of(i)), what);
    check(e.index() == i, what);
    check(e.text_range() == at(start, 1), what);
}
/// Every third child is a node with one token.
fn kind_of(i: usize) -> u16 {
    if i % 3 == 2 { 4 } else { 2 + (i % 3) as u16 }
}
fn wide_green(m: usize, lead: bool) -> GreenNode {
    let mut b = GreenNodeBuilder::new();
    if lead {
        b.start_node(SyntaxKind(9));
        b.token(SyntaxKind(8), "zz");
    }
    b.start_node(SyntaxKind(1));
    for i in 0..m {
        if i % 3 == 2 {
            b.start_node(SyntaxKind(4));
            b.token(SyntaxKind(2), "n");
            b.finish_node();
        } else {
            b.token(SyntaxKind(kind_of(i)), if i % 3 == 0 { "a" } else { "b" });
        }
    }
    b.finish_node();
    if lead {
        b.finish_node();
    }
    b.finish()
}
fn letter(i: usize) -> u8 {
    [b'a', b'b', b'n'][i % 3]
}

/// A node with many children: lookups, steps, lists and edits at any place.
pub fn wide() {
    let m = param("m", 300) as usize;
    let l0 = live();
    {
        let lead = param("lead", 1) == 1;
        let g = wide_green(m, lead);
        let base: u32 = if lead { 2 } else { 0 };
        let top = Node::new_root(g.clone());
        let node = if lead { top.first_child().unwrap() } else { top.clone() };
        let gn = node.green().into_owned();
        check(u32::from(g.text_len()) == base + m as u32, "length of a wide node");
        check(gn.children().len() == m, "number of children of a wide node");
        let i = place(m);
        let p = base + i as u32;
        match param("part", 0) {
            0 => {
                check(gn.children().nth(i).unwrap().kind() == SyntaxKind(kind_of(i)), "green child of a wide node");
                check(gn.children().rev().nth(m - 1 - i).unwrap().kind() == SyntaxKind(kind_of(i)), "green child of a wide node, from the back");
                let e = node.child_or_token_at_range(at(p, 1)).unwrap();
                is(&e, i, p, "child at a range of a wide node");
                let c = node.covering_element(at(p, 1));
                check(c.text_range() == at(p, 1), "covering element in a wide node");
                match top.token_at_offset(TextSize::from(p)) {
                    TokenAtOffset::Between(l, r) => {
                        check(u32::from(l.text_range().end()) == p && u32::from(r.text_range().start()) == p, "tokens at an offset of a wide node");
                        check(r.text().as_bytes() == &[letter(i)], "tokens at an offset of a wide node");
                    }
                    TokenAtOffset::Single(r) => check(p == 0 && r.text().as_bytes() == &[letter(i)], "tokens at an offset of a wide node"),
                    TokenAtOffset::None => fail("tokens at an offset of a wide node"),
                }
                match e.next_sibling_or_token() {
                    Some(n) => is(&n, i + 1, p + 1, "next sibling in a wide node"),
                    None => check(i + 1 == m, "next sibling in a wide node"),
                }
                match e.prev_sibling_or_token() {
                    Some(n) => is(&n, i - 1, p - 1, "previous sibling in a wide node"),
                    None => check(i == 0, "previous sibling in a wide node"),
                }
                if i >= 3 {
                    let near: Node = match &e {
                        NodeOrToken::Node(n) => n.clone(),
                        NodeOrToken::Token(t) => t.siblings_with_tokens(Direction::Prev).find_map(|x| x.into_node()).unwrap(),
                    };
                    let k = i - (i + 1) % 3;
                    is(&near.clone().into(), k, base + k as u32, "previous node in a wide node");
                    match near.next_sibling() {
                        Some(x) => is(&x.into(), k + 3, base + k as u32 + 3, "next node in a wide node"),
                        None => check(k + 3 >= m, "next node in a wide node"),
                    }
                    match near.prev_sibling() {
                        Some(x) => is(&x.into(), k - 3, base + k as u32 - 3, "previous node in a wide node"),
                        None => check(k < 3, "previous node in a wide node"),
                    }
                }
                if let NodeOrToken::Node(n) = &e {
                    let ptr = rowan::ast::SyntaxNodePtr::new(n);
                    check(ptr.try_to_node(&top).as_ref() == Some(n), "pointer into a wide node");
                }
                is(&node.last_child_or_token().unwrap(), m - 1, base + m as u32 - 1, "last child of a wide node");
                check(node.text().char_at(TextSize::from(i as u32)) == Some(letter(i) as char), "character in a wide node");
                let s: SyntaxText = node.text().slice(at(i as u32, 1));
                check(s == core::str::from_utf8(&[letter(i)]).unwrap(), "slice of the text of a wide node");
            }
            1 => {
                // lists
                let e = node.children_with_tokens().nth(i).unwrap();
                is(&e, i, p, "child of a wide node");
                let mut it = node.children_with_tokens();
                for _ in 0..i {
                    it.next();
                }
                let held = it.next().unwrap();
                is(&held, i, p, "child of a wide node");
                check(held == e, "handles on a child of a wide node");
                match it.next() {
                    Some(n) => is(&n, i + 1, p + 1, "child of a wide node"),
                    None => check(i + 1 == m, "child of a wide node"),
                }
                if i < m / 3 {
                    let n = node.children().nth(i).unwrap();
                    is(&n.into(), 3 * i + 2, base + 3 * i as u32 + 2, "child node of a wide node");
                }
                let n = node.preorder_with_tokens().filter(|e| matches!(e, WalkEvent::Enter(NodeOrToken::Token(_)))).nth(i);
                match n {
                    Some(WalkEvent::Enter(t)) => check(t.text_range() == at(p, 1), "walk of a wide node"),
                    _ => fail("walk of a wide node"),
                }
            }
            2 => {
                // green edits and replacement
                let t: GElem = GreenToken::new(SyntaxKind(7), "xyz").into();
                let ins = gn.insert_child(i, t.clone());
                check(ins.children().len() == m + 1 && u32::from(ins.text_len()) == m as u32 + 3, "insertion into a wide green node");
                check(ins.children().nth(i).unwrap().kind() == SyntaxKind(7), "insertion into a wide green node");
                let del = gn.remove_child(i);
                check(del.children().len() == m - 1 && u32::from(del.text_len()) == m as u32 - 1, "removal from a wide green node");
                let rep = gn.replace_child(i, t);
                check(rep.children().len() == m && u32::from(rep.text_len()) == m as u32 + 2, "replacement in a wide green node");
                let r = Node::new_root(rep);
                let last = r.last_child_or_token().unwrap();
                check(u32::from(last.text_range().end()) == m as u32 + 2, "offsets after a replacement in a wide node");
                if i + 1 < m {
                    let n = r.child_or_token_at_range(at(i as u32 + 3, 1)).unwrap();
                    check(n.index() == i + 1, "child behind a replacement in a wide node");
                }
                let e = node.child_or_token_at_range(at(p, 1)).unwrap();
                let whole = match &e {
                    NodeOrToken::Node(n) => n.replace_with(GreenNode::new(SyntaxKind(4), [GreenToken::new(SyntaxKind(7), "xyz").into()])),
                    NodeOrToken::Token(t) => t.replace_with(GreenToken::new(SyntaxKind(kind_of(i)), "xyz")),
                };
                check(u32::from(whole.text_len()) == base + m as u32 + 2, "replacement in a wide tree");
                let w = Node::new_root(whole);
                check(w.text().char_at(TextSize::from(p)) == Some('x'), "replacement in a wide tree");
            }
            4 => {
                let kinds: Vec<u16> = (0..m).map(|i| 1 + (i % 3 == 1) as u16).collect();
                let text: Vec<u8> = (0..m).map(|i| b'a' + (i % 26) as u8).collect();
                let text = core::str::from_utf8(&text).unwrap();
                let g = GreenNode::new(SyntaxKind(0), (0..m).map(|i| GreenToken::new(SyntaxKind(kinds[i]), &text[i..i + 1]).into()));
                let root = SyntaxNode::<Lang>::new_root(g);
                let root = if choose("mutable", 2) == 1 { root.clone_for_update() } else { root };
                wide_print(&root, &kinds, text, i);
            }
            5 => {
                // equality, hashes, texts
                let same = wide_green(m, lead);
                check(g == same && same_hash(&g, &same), "equal wide nodes differ");
                let two = Node::new_root(same);
                if param("few", 0) < 2 {
                    check(top.text() == two.text(), "equal texts of wide nodes differ");
                }
                check(*gn == *if lead { two.first_child().unwrap() } else { two.clone() }.green(), "equal wide nodes differ");
                let what = if param("few", 0) != 0 { 1 + choose("difference", 2) } else { choose("difference", 4) };
                let with = |j: usize, k: u16, s: &'static str| -> GElem {
                    let t = GreenToken::new(SyntaxKind(k), s);
                    if kind_of(j) == 4 { GreenNode::new(SyntaxKind(4), [t.into()]).into() } else { t.into() }
                };
                let text = |j: usize| ["a", "b", "n"][j % 3];
                let kind = |j: usize| if kind_of(j) == 4 { 2 } else { kind_of(j) };
                let other = GreenNode::new(
                    SyntaxKind(1),
                    (0..m).map(|j| match what {
                        1 if i == j => with(j, kind(j), "z"),
                        2 if i == j => with(j, 7, text(j)),
                        3 if i == j => with(j, kind(j), ""),
                        _ => with(j, kind(j), text(j)),
                    }),
                );
                check((gn == other) == (what == 0) && (other == gn) == (what == 0), "equality of wide nodes");
                if param("few", 0) < 2 {
                    let (x, y) = (Node::new_root(gn.clone()).text(), Node::new_root(other).text());
                    let want = what == 0 || what == 2;
                    check((x == y) == want && (y == x) == want, "equality of the texts of wide nodes");
                    let s = y.to_string();
                    check((x == *s.as_str()) == want && y == *s.as_str(), "equality of the text of a wide node and a string");
                }
            }
            6 => {
                // the builder: one of the children, or all from one on, wrapped later
                let open = choose("to_end", 2) == 1;
                let mut cache = NodeCache::default();
                let mut gs = vec![];
                for _ in 0..2 {
                    let mut b = GreenNodeBuilder::with_cache(&mut cache);
                    b.start_node(SyntaxKind(1));
                    let mut cp = None;
                    for j in 0..m {
                        if j == i {
                            cp = Some(b.checkpoint());
                        }
                        if j == i + 1 && !open {
                            b.start_node_at(cp.unwrap(), SyntaxKind(5));
                            b.finish_node();
                        }
                        b.token(SyntaxKind(kind_of(j)), ["a", "b", "n"][j % 3]);
                    }
                    if open || i + 1 == m {
                        b.start_node_at(cp.unwrap(), SyntaxKind(5));
                        b.finish_node();
                    }
                    b.finish_node();
                    gs.push(b.finish());
                }
                check(gs[0] == gs[1], "a wide tree built twice");
                for g in &gs {
                    let n = if open { m - i } else { 1 };
                    check(g.children().len() == m - n + 1 && u32::from(g.text_len()) == m as u32, "children around a checkpoint");
                    let w = g.children().nth(i).unwrap().into_node().unwrap();
                    check(w.kind() == SyntaxKind(5) && w.children().len() == n && u32::from(w.text_len()) == n as u32, "node at a checkpoint");
                    let root = Node::new_root(g.clone());
                    let mut j = 0;
                    let mut t = root.first_token();
                    while let Some(x) = t {
                        check(x.text_range() == at(j as u32, 1) && x.kind() == K(kind_of(j)) && x.text().as_bytes() == &[letter(j)], "token of a wide built tree");
                        j += 1;
                        t = x.next_token();
                    }
                    check(j == m, "tokens of a wide built tree");
                }
            }
            _ => {
                // mutation with a few handles held
                let mu = node.clone_for_update();
                let mut hs = vec![];
                for k in [0, i.wrapping_sub(1), i, i + 1, m - 1] {
                    if k < m {
                        hs.push((k, mu.child_or_token_at_range(at(base + k as u32, 1)).unwrap()));
                    }
                }
                for (k, h) in &hs {
                    is(h, *k, base + *k as u32, "handle in a wide mutable node");
                }
                let x = hs.iter().find(|(k, _)| *k == i).unwrap().1.clone();
                x.detach();
                check(x.parent().is_none() && x.text_range() == at(0, 1), "element detached from a wide node");
                for (k, h) in &hs {
                    if *k != i {
                        let now = if *k > i { *k - 1 } else { *k };
                        check(h.index() == now, "index after a detachment from a wide node");
                        check(h.text_range() == at(base + now as u32, 1), "range after a detachment from a wide node");
                        check(h.kind() == K(kind_of(*k)), "kind after a detachment from a wide node");
                    }
                }
                check(u32::from(mu.text_range().len()) == m as u32 - 1, "length after a detachment from a wide node");
                mu.splice_children(m - 1..m - 1, vec![x.clone()]);
                check(x.index() == m - 1 && x.text_range() == at(base + m as u32 - 1, 1), "element attached to a wide node");
                let y = mu.child_or_token_at_range(at(base + m as u32 - 1, 1)).unwrap();
                check(y == x, "handles on an element attached to a wide node");
                mu.splice_children(0..0, vec![x.clone()]);
                check(x.index() == 0 && x.text_range() == at(base, 1), "element moved to the front of a wide node");
                for (k, h) in &hs {
                    if *k != i {
                        let now = if *k > i { *k } else { *k + 1 };
                        check(h.index() == now, "index after a move in a wide node");
                        check(h.text_range() == at(base + now as u32, 1), "range after a move in a wide node");
                    }
                }
                check(mu.green().children().len() == m, "number of children after a move in a wide node");
            }
        }
        check(u32::from(g.text_len()) == base + m as u32, "the green tree changed");
        cover(0);
        trace(i as u64);
    }
    end(l0);
}

/// Nodes nested deeply, each with a token before and one behind the next one.
pub fn deep() {
    let d = param("d", 300) as usize;
    let l0 = live();
    {
        let mut g = GreenNode::new(SyntaxKind(d as u16 - 1), [GreenToken::new(SyntaxKind(60000), "m").into()]);
        for k in (0..d - 1).rev() {
            g = GreenNode::new(SyntaxKind(k as u16), [GreenToken::new(SyntaxKind(60001), "a").into(), g.into(), GreenToken::new(SyntaxKind(60002), "bc").into()]);
        }
        let len = 1 + 3 * (d as u32 - 1);
        check(u32::from(g.text_len()) == len, "length of a deep tree");
        let i = place(d);
        let root = Node::new_root(g.clone());
        let want = at(i as u32, len - 3 * i as u32);
        let mut n = root.clone();
        for _ in 0..i {
            n = n.first_child().unwrap();
        }
        check(n.kind() == K(i as u16) && n.text_range() == want, "node of a deep tree");
        check(n.ancestors().count() == i + 1, "ancestors in a deep tree");
        check(root.descendants().nth(i).unwrap() == n, "descendant in a deep tree");
        // the innermost node has a token of the same range
        let c = root.covering_element(want);
        check(c.text_range() == want && c.kind() == K(if i + 1 == d { 60000 } else { i as u16 }), "covering element in a deep tree");
        check(n.first_token().unwrap().text_range().start() == want.start(), "first token of a deep node");
        check(n.last_token().unwrap().text_range().end() == want.end(), "last token of a deep node");
        if i > 0 {
            let t = n.first_token().unwrap().prev_token().unwrap();
            check(t.text_range() == at(i as u32 - 1, 1), "previous token in a deep tree");
            let t = n.last_token().unwrap().next_token().unwrap();
            check(t.text_range() == at(len - 2 * i as u32, 2), "next token in a deep tree");
        }
        match root.token_at_offset(TextSize::from(i as u32)) {
            TokenAtOffset::Between(l, r) => check(u32::from(l.text_range().end()) == i as u32 && u32::from(r.text_range().start()) == i as u32, "tokens at an offset of a deep tree"),
            TokenAtOffset::Single(r) => check(i == 0 && r.text_range() == at(0, 1), "tokens at an offset of a deep tree"),
            TokenAtOffset::None => fail("tokens at an offset of a deep tree"),
        }
        check(rowan::ast::SyntaxNodePtr::new(&n).try_to_node(&root).as_ref() == Some(&n), "pointer into a deep tree");
        let w = n.replace_with(GreenNode::new(SyntaxKind(i as u16), [GreenToken::new(SyntaxKind(60003), "xyzzy").into()]));
        check(u32::from(w.text_len()) == 3 * i as u32 + 5, "replacement in a deep tree");
        drop(w);
        let mu = n.clone_for_update();
        check(mu.kind() == n.kind() && mu.text_range() == want && mu.ancestors().count() == i + 1, "mutable copy of a deep tree");
        if i > 0 {
            let top = mu.ancestors().last().unwrap();
            mu.detach();
            check(mu.text_range() == at(0, u32::from(want.len())), "node detached from a deep tree");
            check(u32::from(top.text_range().len()) == 3 * i as u32, "deep tree after a detachment");
        }
        check(u32::from(g.text_len()) == len, "the green tree changed");
        cover(0);
        trace(i as u64);
    }
    end(l0);
}

/// Trees nested at most `d` deep: built, compared and printed.
pub fn deep_print() {
    let d = param("d", 40) as usize;
    let l0 = live();
    {
        let i = place(d);
        let build = |odd: usize| {
            let mut b = GreenNodeBuilder::new();
            for k in 0..d {
                b.start_node(SyntaxKind(0));
                b.token(SyntaxKind(1), if k == odd { "z" } else { "q" });
            }
            for _ in 0..d {
                b.finish_node();
            }
            b.finish()
        };
        let (g, h, o) = (build(d), build(d), build(i));
        check(g == h && same_hash(&g, &h), "equal deep trees differ");
        check(g != o && o != g, "different deep trees are equal");
        let root = SyntaxNode::<Lang>::new_root(g);
        crate::misc::deep_print(&root, d);
        let other = SyntaxNode::<Lang>::new_root(o);
        check(root.text() != other.text() && other.text().find_char('z') == Some(TextSize::from(i as u32)), "text of a deep tree");
        cover(0);
        trace(i as u64);
    }
    end(l0);
}

/// Tokens with long texts, alone, in the cache, and followed by others.
pub fn long_tokens() {
    let l0 = live();
    {
        let sizes = [127usize, 128, 255, 256, 257, 4096, 65535, 65536, 65537];
        let n = sizes[choose("size", param("sizes", 9))];
        let mut v = Vec::with_capacity(n);
        v.resize(n, b'q');
        v[n - 1] = b'z';
        let s = core::str::from_utf8(&v).unwrap();
        let mut cache = NodeCache::default();
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        b.start_node(SyntaxKind(1));
        b.token(SyntaxKind(2), s);
        b.token(SyntaxKind(2), &s[..n - 1]);
        b.start_node(SyntaxKind(3));
        b.token(SyntaxKind(2), s);
        b.token(SyntaxKind(4), "k");
        b.finish_node();
        b.finish_node();
        let g = b.finish();
        let total = 3 * n as u32;
        check(u32::from(g.text_len()) == total, "length of a tree of long tokens");
        let toks: Vec<_> = g.children().filter_map(|e| e.into_token()).collect();
        check(toks.len() == 2 && toks[0].text().len() == n && toks[1].text().len() == n - 1, "texts of long tokens");
        check(toks[0] != toks[1], "long tokens of different lengths are equal");
        check(toks[0].text().as_bytes()[n - 1] == b'z' && toks[1].text().as_bytes()[n - 2] == b'q', "text of a long token");
        let sub: &GreenNodeData = g.children().find_map(|e| e.into_node()).unwrap();
        let same = sub.children().next().unwrap().into_token().unwrap();
        check(core::ptr::eq(same as *const _ as *const u8, toks[0] as *const _ as *const u8), "equal long tokens are not shared");
        let root = Node::new_root(g.clone());
        let k = root.last_token().unwrap();
        check(k.text_range() == at(total - 1, 1), "offset behind long tokens");
        let t = root.token_at_offset(TextSize::from(n as u32)).left_biased().unwrap();
        check(t.text_range() == at(0, n as u32), "long token at an offset");
        let c = root.covering_element(at(2 * n as u32 - 1, n as u32 + 1));
        check(c.as_node().map_or(false, |c| c.kind() == K(3)), "covering element over long tokens");
        check(root.text().char_at(TextSize::from(n as u32 - 1)) == Some('z'), "character of a long token");
        check(root.text().find_char('z') == Some(TextSize::from(n as u32 - 1)), "character found in a long token");
        check(root.text().find_char('k') == Some(TextSize::from(total - 1)), "character found behind long tokens");
        let x = root.text().slice(at(n as u32 - 1, n as u32 + 1));
        check(x == root.text().slice(TextSize::from(n as u32 - 1)..TextSize::from(2 * n as u32)), "slices over long tokens");
        check(u32::from(x.len()) == n as u32 + 1 && x.char_at(TextSize::from(0)) == Some('z'), "slice over long tokens");
        cover(0);
        trace(n as u64);
    }
    end(l0);
}

/// Two texts of up to 40 bytes and more, every byte of them free: equality and
/// hashes of tokens, nodes and texts, search for a character.
pub fn long_pairs() {
    let l0 = live();
    {
        let sizes = [8usize, 9, 15, 16, 17, 21, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129];
        let n = sizes[choose("size", param("sizes", 13).min(19))];
        let mut v = Vec::with_capacity(n);
        let mut w = Vec::with_capacity(n);
        let same = choose("equal", 2) == 1;
        for _ in 0..n {
            v.push(var("byte", 7, 0, 127) as u8);
        }
        if same {
            w.extend_from_slice(&v);
        } else {
            for _ in 0..n {
                w.push(var("byte", 7, 0, 127) as u8);
            }
        }
        let (x, y) = unsafe { (core::str::from_utf8_unchecked(&v), core::str::from_utf8_unchecked(&w)) };
        let (a, b) = (GreenToken::new(SyntaxKind(1), x), GreenToken::new(SyntaxKind(1), y));
        check(same_bytes(a.text().as_bytes(), &v) & same_bytes(b.text().as_bytes(), &w), "text of a token");
        let (da, db): (&GreenTokenData, &GreenTokenData) = (&a, &b);
        let what = choose("what", 6);
        if same {
            check(a == b && da == db, "equal tokens differ");
            check(same_hash(&a, &b), "hashes of equal tokens differ");
        }
        let want = same || same_bytes(&v, &w);
        match what {
            0 => check((a == b) == want, "equality of tokens"),
            1 => check((da == db) == want, "equality of token data"),
            _ => {
                let kind = SyntaxKind(3);
                let (g, h) = (GreenNode::new(kind, [a.into()]), GreenNode::new(kind, [b.into()]));
                let (rg, rh) = (Node::new_root(g.clone()), Node::new_root(h.clone()));
                match what {
                    2 => check((g == h) == want, "equality of nodes"),
                    3 => check((rg.text() == rh.text()) == want, "equality of texts"),
                    4 => {
                        check((rg.text() == *y) == want, "equality of a text and a string");
                        check(same_bytes(rg.to_string().as_bytes(), &v), "string of a node");
                    }
                    _ => {
                        let c = var("char", 7, 0, 127) as u8;
                        match rg.text().find_char(c as char) {
                            Some(p) => {
                                let p = conc(u32::from(p) as u64) as usize;
                                check(p < n && v[p] == c, "find_char finds something else");
                                for q in 0..p.min(n) {
                                    check(v[q] != c, "find_char does not find the first");
                                }
                            }
                            None => {
                                for q in 0..n {
                                    check(v[q] != c, "find_char misses a character");
                                }
                            }
                        }
                    }
                }
            }
        }
        cover(0);
        trace(n as u64);
    }
    end(l0);
}

/// Many owners of one node, token or green element: all of them count.
pub fn many_handles() {
    let m = param("m", 66000) as usize;
    let l0 = live();
    {
        fn all<T: Clone>(m: usize, x: T, ok: impl Fn(&T) -> bool) {
            let rev = choose("backwards", 2) == 1;
            let mut v: Vec<T> = (0..m).map(|_| x.clone()).collect();
            drop(x);
            if rev {
                v.reverse();
            }
            // one by one, down to the last one
            while let Some(y) = v.pop() {
                let n = v.len();
                if n < 3 || n % 256 < 2 || n % 256 == 255 {
                    check(ok(&y), "one of many handles");
                    drop(y);
                    if let Some(z) = v.last() {
                        check(ok(z), "one of many handles, after another one was dropped");
                    }
                }
            }
        }
        let g = GreenNode::new(SyntaxKind(1), [GreenToken::new(SyntaxKind(2), "a").into(), GreenNode::new(SyntaxKind(3), [GreenToken::new(SyntaxKind(4), "bc").into()]).into()]);
        let mutable = choose("mutable", 2) == 1;
        let root = if mutable { Node::new_root(g.clone()).clone_for_update() } else { Node::new_root(g.clone()) };
        match choose("of", 5) {
            0 => all(m, g.clone(), |g| u32::from(g.text_len()) == 3 && g.children().len() == 2),
            1 => all(m, g.children().next().unwrap().into_token().unwrap().to_owned(), |t| t.text() == "a" && t.kind() == SyntaxKind(2)),
            2 => all(m, root.clone(), |n| n.kind() == K(1) && n.text_range() == at(0, 3)),
            3 => all(m, root.first_child().unwrap(), |n| n.kind() == K(3) && n.text_range() == at(1, 2)),
            _ => all(m, root.last_token().unwrap(), |t| t.text() == "bc" && t.text_range() == at(1, 2)),
        }
        check(root.kind() == K(1) && root.text() == "abc" && root.last_token().is_some_and(|t| t.text() == "bc"), "a tree of which many handles were dropped");
        check(*root.green() == *g, "a green tree of which many handles were dropped");
        cover(0);
    }
    end(l0);
}
