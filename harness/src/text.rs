//! C18: the text of a node behaves like a string.
use crate::sym::*;
use crate::tree::*;
use rowan::{SyntaxText, TextRange, TextSize};

const MIXED: &[&[u8]] = &[b"a", "\u{e9}".as_bytes(), b"", "b\u{20ac}".as_bytes(), "\u{1f600}a".as_bytes()];

fn shape(n: &str, d: u64) -> Shape {
    let mixed = param("mixed", 0);
    Shape {
        empty_tokens: true,
        max_tok_len: param("len", 2),
        sym_text: true,
        kind_bits: 0,
        texts_tab: mixed,
        texts: MIXED,
        ..Shape::new(param(n, d) as usize)
    }
}

fn node_at(root: &Node, t: &Tree, name: &str) -> (Node, usize) {
    let i = choose(name, t.n as u64);
    assume(!t.is_tok[i]);
    (t.elem(root, i).into_node().unwrap(), i)
}

/// All readers of a text against the string itself.
fn readers(x: &SyntaxText, s: &[u8], st: &str) {
    check(u32::from(x.len()) as usize == s.len(), "len of a text");
    check(x.is_empty() == s.is_empty(), "is_empty of a text");
    let z = x.to_string();
    check(same_bytes(z.as_bytes(), s), "to_string of a text");
    let z: String = x.clone().into();
    check(same_bytes(z.as_bytes(), s), "String::from of a text");
    // chunks concatenate to the text
    let mut at = 0;
    x.for_each_chunk(|c| {
        check(at + c.len() <= s.len(), "chunks are longer than the text");
        if at + c.len() <= s.len() {
            check(same_bytes(c.as_bytes(), &s[at..at + c.len()]), "chunks differ from the text");
        }
        at += c.len();
    });
    check(at == s.len(), "chunks are shorter than the text");
    let n: Result<usize, ()> = x.try_fold_chunks(0, |n, c| Ok(n + c.len()));
    check(n == Ok(s.len()), "try_fold_chunks");
    let mut calls = 0;
    let r: Result<(), u8> = x.try_for_each_chunk(|c| {
        calls += 1;
        if c.is_empty() { Ok(()) } else { Err(7) }
    });
    check(r == if s.is_empty() { Ok(()) } else { Err(7) }, "try_for_each_chunk goes on after an error");
    // equality with strings
    check(*x == *st && *x == st && *st == *x && st == *x, "a text differs from its own string");
    check(*x == x.clone(), "a text differs from itself");
}

/// ASCII texts with free bytes.
pub fn ops() {
    let mut t = Tree::sym(shape("n", 3));
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g);
        let (node, i) = node_at(&root, &t, "at");
        let mut len = t.len[i] as usize;
        let mut from = t.start[i] as usize;
        let mut x = node.text();
        if param("again", 0) == 1 {
            let a = choose("a0", len as u64 + 1);
            x = x.slice(sz(a as u64)..);
            from += a;
            len -= a;
            let b = choose("b0", len as u64 + 1);
            x = x.slice(..sz(b as u64));
            len = b;
        }
        let a = choose("a", len as u64 + 1);
        let b = choose("b", len as u64 + 1);
        assume(a <= b);
        if a != 0 || b != len {
            x = x.slice(rng(a as u64, b as u64));
        }
        from += a;
        let s = &t.text[from..from + b - a];
        let st = unsafe { core::str::from_utf8_unchecked(s) };
        readers(&x, s, st);
        // char_at at every offset, also past the end
        let o = any_u32("offset");
        let c = x.char_at(TextSize::from(o));
        check(c.is_some() == ((o as usize) < s.len()), "char_at is defined exactly inside the text");
        if let Some(c) = c {
            let o = conc(o as u64) as usize;
            check(o < s.len() && c as u32 == s[o] as u32, "char_at");
            cover(0);
        }
        // search for any ASCII character
        let c = var("char", 7, 0, 127) as u8;
        let f = x.find_char(c as char);
        let k = x.contains_char(c as char);
        check(f.is_some() == k, "contains_char and find_char disagree");
        match f {
            Some(p) => {
                let p = u32::from(p) as usize;
                check(p < s.len() && s[p] == c, "find_char finds something else");
                for q in 0..p.min(s.len()) {
                    check(s[q] != c, "find_char does not find the first");
                }
                cover(1);
            }
            None => {
                for q in 0..s.len() {
                    check(s[q] != c, "find_char misses a character");
                }
                cover(2);
            }
        }
        // comparison with any string of the same or a neighbouring length
        let n = s.len();
        let m = (n + choose("dlen", 3)).max(1) - 1;
        let mut buf = [0u8; 24];
        if m <= buf.len() {
            let mut same = m == n;
            for q in 0..m {
                buf[q] = var("other", 7, 0, 127) as u8;
            }
            if same {
                same = same_bytes(&buf[..m], s);
            }
            let o = unsafe { core::str::from_utf8_unchecked(&buf[..m]) };
            check((x == *o) == same, "comparison of a text with a string");
        }
        trace(len as u64);
    }
    end(l0);
}

/// Texts with characters of one to four bytes.
pub fn utf8() {
    let mut t = Tree::sym(shape("n", 3));
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g);
        let (node, i) = node_at(&root, &t, "at");
        let st = t.txt(i);
        let len = t.len[i] as usize;
        let a = choose("a", len as u64 + 1);
        let b = choose("b", len as u64 + 1);
        assume(a <= b && st.is_char_boundary(a) && st.is_char_boundary(b));
        let x = node.text().slice(rng(a as u64, b as u64));
        let st = &st[a..b];
        readers(&x, st.as_bytes(), st);
        for (o, c) in st.char_indices() {
            check(x.char_at(sz(o as u64)) == Some(c), "char_at");
            if c.len_utf8() > 1 {
                cover(0);
            }
        }
        check(x.char_at(sz(st.len() as u64)).is_none(), "char_at the end");
        for c in ['a', '\u{e9}', 'b', '\u{20ac}', '\u{1f600}', 'z', '\u{a9}'] {
            let f = x.find_char(c).map(|p| u32::from(p) as usize);
            check(f == st.find(c), "find_char");
            check(x.contains_char(c) == st.contains(c), "contains_char");
        }
        trace(len as u64);
    }
    end(l0);
}

/// Which slices exist, and where they lie, for lengths and bounds of any size.
pub fn slice() {
    let mut t = Tree::sym(Shape::nav());
    let l0 = live();
    {
        let g = t.green(0);
        let root = Node::new_root(g.clone());
        let _restore = Restore(&t);
        let (node, i) = node_at(&root, &t, "at");
        let x = node.text();
        let len = t.len[i];
        let (a, b) = (any_u32("a"), any_u32("b"));
        let form = choose("form", 5);
        if form == 4 {
            assume(a <= b); // a TextRange cannot be inverted
        }
        let (ta, tb) = (TextSize::from(a), TextSize::from(b));
        let r = catch(|| match form {
            0 => x.slice(ta..tb),
            1 => x.slice(ta..),
            2 => x.slice(..tb),
            3 => x.slice(..),
            _ => x.slice(TextRange::new(ta, tb)),
        });
        let (lo, hi) = match form {
            0 | 4 => (a, b),
            1 => (a, len),
            2 => (0, b),
            _ => (0, len),
        };
        let ok = lo <= hi && hi <= len;
        check(r.is_some() == ok, "a slice exists exactly when it lies in the text");
        if let Some(y) = r {
            check(u32::from(y.len()) == hi.wrapping_sub(lo), "length of a slice");
            check(y.is_empty() == (lo == hi), "is_empty of a slice");
            // a slice of the slice is relative to the slice
            let (c, d) = (any_u32("c"), any_u32("d"));
            let r = catch(|| y.slice(TextSize::from(c)..TextSize::from(d)));
            check(r.is_some() == (c <= d && d <= hi.wrapping_sub(lo)), "a slice of a slice exists exactly when it lies in it");
            if let Some(z) = r {
                check(u32::from(z.len()) == d.wrapping_sub(c), "length of a slice of a slice");
                cover(0);
            }
        } else {
            cover(1);
        }
    }
    end(l0);
}

/// Two texts, cut into tokens in any two ways, are equal exactly when their
/// strings are.
pub fn eq() {
    let mut a = Tree::sym(shape("n", 2));
    let mut b = Tree::sym(shape("n2", 2));
    let l0 = live();
    {
        let ra = Node::new_root(a.green(0));
        // two nodes of one tree, or the roots of two
        let same = param("same", 0) == 1;
        let rb = if same { ra.clone() } else { Node::new_root(b.green(0)) };
        let b = if same { &a } else { &b };
        let (mut i, mut j) = (0, 0);
        if same {
            i = choose("node", a.n as u64);
            j = choose("node", a.n as u64);
            assume(!a.is_tok[i] && !a.is_tok[j] && i <= j);
        }
        let (na, nb) = (a.elem(&ra, i).into_node().unwrap(), b.elem(&rb, j).into_node().unwrap());
        let mut x = na.text();
        let mut y = nb.text();
        let (mut sa, mut sb) = (a.txt(i), b.txt(j));
        if param("cut", 0) == 1 {
            let p = choose("p", sa.len() as u64 + 1);
            let o = if same { choose("o", sa.len() as u64 + 1) } else { sa.len() };
            let q = choose("q", sb.len() as u64 + 1);
            let e = choose("e", sb.len() as u64 + 1);
            assume(p <= o && q <= e);
            assume(sa.is_char_boundary(p) && sa.is_char_boundary(o));
            assume(sb.is_char_boundary(q) && sb.is_char_boundary(e));
            x = x.slice(sz(p as u64)..sz(o as u64));
            y = y.slice(sz(q as u64)..sz(e as u64));
            sa = &sa[p..o];
            sb = &sb[q..e];
        }
        let want = same_bytes(sa.as_bytes(), sb.as_bytes());
        check((x == y) == want, "equality of texts");
        check((y == x) == want, "equality of texts is not symmetric");
        check((x == *sb) == want, "equality of a text and a string");
        if want {
            cover(0);
        } else {
            cover(1);
        }
        trace(want as u64);
    }
    end(l0);
}
