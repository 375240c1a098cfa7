//! C22 green trees shared between threads, under every interleaving.
use crate::sym::*;
use crate::tree::*;
use core::marker::PhantomData;
use crate::find::fed;
use rowan::{GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData, Language, NodeCache, NodeOrToken, SyntaxKind};

const T: usize = 3;
const M: usize = 3;

enum Held {
    Nothing,
    Node(GreenNode),
    Token(GreenToken),
}

struct Job {
    ops: [usize; M],
    held: Held,
    /// what `held` reads as
    sum: Option<u64>,
    borrowed: *const GreenNode,
    cache: Option<NodeCache>,
    done: u64,
}

struct Plan {
    kinds: [u16; 4],
    shape: usize,
    m: usize,
    jobs: *mut Job,
    n: u64,
    sum: u64,
}

fn tok_sum(t: &GreenTokenData) -> u64 {
    let mut s = u16::from(t.kind().0) as u64;
    for b in t.text().as_bytes() {
        s = s.wrapping_mul(31).wrapping_add(*b as u64);
    }
    s.wrapping_mul(31).wrapping_add(u32::from(t.text_len()) as u64)
}
fn node_sum(n: &GreenNodeData) -> u64 {
    let mut s = n.kind().0 as u64 | ((u32::from(n.text_len()) as u64) << 32);
    for c in n.children() {
        let x = match c {
            NodeOrToken::Node(n) => node_sum(n),
            NodeOrToken::Token(t) => tok_sum(t),
        };
        s = s.wrapping_mul(7).wrapping_add(x);
    }
    s
}

fn build(b: &mut GreenNodeBuilder, k: &[u16; 4], shape: usize) {
    b.start_node(SyntaxKind(k[0]));
    if shape < 2 {
        b.token(SyntaxKind(k[2]), "a");
    }
    for _ in 0..shape {
        b.start_node(SyntaxKind(k[1]));
        b.token(SyntaxKind(k[3]), "bc");
        b.finish_node();
    }
    b.finish_node();
}

/// The same tree without a cache (and with the inner node shared).
fn plain(k: &[u16; 4], shape: usize) -> GreenNode {
    let mut c: Vec<NodeOrToken<GreenNode, GreenToken>> = Vec::new();
    if shape < 2 {
        c.push(GreenToken::new(SyntaxKind(k[2]), "a").into());
    }
    if shape > 0 {
        let i = GreenNode::new(SyntaxKind(k[1]), [NodeOrToken::Token(GreenToken::new(SyntaxKind(k[3]), "bc"))]);
        for _ in 1..shape {
            c.push(i.clone().into());
        }
        c.push(i.into());
    }
    GreenNode::new(SyntaxKind(k[0]), c)
}

/// The first child, or what is leftmost below it
fn part(g: &GreenNode, deep: bool) -> NodeOrToken<GreenNode, GreenToken> {
    let mut c = g.children().next().unwrap().to_owned();
    while deep {
        let d = match &c {
            NodeOrToken::Node(n) => n.children().next().unwrap().to_owned(),
            _ => break,
        };
        c = d;
    }
    c
}

fn step(p: &Plan, j: &mut Job, op: usize) {
    let extra = || GreenToken::new(SyntaxKind(9), "x");
    if op == 9 {
        // a builder's cache that already owns the elements
        if let Some(c) = &mut j.cache {
            let mut b = GreenNodeBuilder::with_cache(c);
            build(&mut b, &p.kinds, p.shape);
            let g = b.finish();
            check(node_sum(&g) == p.sum, "tree built while others use its elements");
            j.held = Held::Node(g);
            j.sum = Some(p.sum);
        }
        return;
    }
    if !j.borrowed.is_null() {
        let r: &GreenNode = unsafe { &*j.borrowed };
        if op == 1 || op == 5 {
            let c = r.clone();
            check(c == *r, "a clone differs");
            j.held = Held::Node(c);
            j.sum = Some(p.sum);
            if op == 5 {
                j.borrowed = core::ptr::null();
            }
            return;
        }
        if matches!(j.held, Held::Nothing) {
            check(node_sum(r) == p.sum, "reading a shared tree");
            return;
        }
    }
    let h = core::mem::replace(&mut j.held, Held::Nothing);
    let first = match &h {
        Held::Node(g) if op == 5 => g.children().next().map(|c| c.to_owned()),
        _ => None,
    };
    j.held = match (h, op) {
        (_, 0) => Held::Nothing,
        (Held::Node(g), 1) => {
            let c = g.clone();
            check(c == g, "a clone differs");
            drop(g);
            Held::Node(c)
        }
        (Held::Token(t), 1) => {
            let c = t.clone();
            check(c == t, "a clone differs");
            drop(t);
            Held::Token(c)
        }
        (Held::Node(g), 2) => {
            fed(&g);
            if let Some(s) = j.sum {
                check(node_sum(&g) == s, "reading a shared tree");
            }
            Held::Node(g)
        }
        (Held::Token(t), 2) => {
            fed(&t);
            if let Some(s) = j.sum {
                check(tok_sum(&t) == s, "reading a shared token");
            }
            Held::Token(t)
        }
        (Held::Node(g), 3) => {
            let r = Node::new_root(g);
            let n = u32::from(r.text_range().len());
            if let Some(t) = r.first_token() {
                check(t.text().len() as u32 <= n, "text of a token");
            }
            Held::Node(r.green().into_owned())
        }
        (Held::Node(g), 4) if g.children().len() > 0 => {
            let n = g.replace_child(0, extra().into());
            check(n.children().len() == g.children().len(), "children after an update");
            j.sum = None;
            Held::Node(n)
        }
        (Held::Node(g), 5) => {
            drop(g);
            j.sum = None;
            match first {
                Some(NodeOrToken::Node(n)) => Held::Node(n),
                Some(NodeOrToken::Token(t)) => Held::Token(t),
                None => Held::Nothing,
            }
        }
        (Held::Node(g), 6) => {
            let before = g.children().len();
            let r = Node::new_root_mut(g);
            let Some(c) = r.first_child_or_token() else {
                j.held = Held::Node(r.green().into_owned());
                return;
            };
            c.detach();
            check(r.children_with_tokens().count() + 1 == before, "children after a detach");
            drop(r);
            j.sum = None;
            match c {
                NodeOrToken::Node(n) => Held::Node(n.green().into_owned()),
                NodeOrToken::Token(t) => Held::Token(t.green().to_owned()),
            }
        }
        (Held::Node(g), 7) => {
            let r = Node::new_root(g);
            let Some(t) = r.first_token() else {
                j.held = Held::Node(r.green().into_owned());
                return;
            };
            let n = t.replace_with(GreenToken::new(SyntaxKind(L::kind_to_raw(t.kind()).0), "y"));
            drop(r);
            j.sum = None;
            Held::Node(n)
        }
        (Held::Node(g), 8) => {
            let n = g.insert_child(0, extra().into());
            drop(g);
            j.sum = None;
            Held::Node(n)
        }
        (h, _) => h,
    };
}

extern "C-unwind" fn body(d: *mut u8, i: u64) {
    let p: &Plan = unsafe { &*(d as *const Plan) };
    let j: &mut Job = unsafe { &mut *p.jobs.add(i as usize) };
    for k in 0..p.m {
        step(p, j, j.ops[k]);
    }
    // whatever is still held goes here
    j.held = Held::Nothing;
    j.cache = None;
    j.done += 1;
}

pub fn threads() {
    let n = (param("threads", 2) as usize).min(T);
    let m = (param("m", 1) as usize).min(M);
    let nops = param("ops", 9);
    let nshapes = param("shapes", 3);
    let l0 = live();
    {
        let cached = param("cached", 0) == 1;
        // hashing symbolic kinds is out of the solver's reach
        let kinds = if cached { [1, 2, 3, 4] } else { [any_u16("k0"), any_u16("k1"), any_u16("k2"), any_u16("k3")] };
        let shape = choose("shape", nshapes);
        // does the main thread keep its tree until everyone is done?
        let keep = choose("keep", 2) == 1;
        let mut cache = None;
        let root = if cached {
            let c = cache.insert(NodeCache::default());
            let mut b = GreenNodeBuilder::with_cache(c);
            build(&mut b, &kinds, shape);
            b.finish()
        } else {
            plain(&kinds, shape)
        };
        // what is shared must not have been read before
        let model = plain(&kinds, shape);
        let sum = node_sum(&model);
        let lone = GreenToken::new(SyntaxKind(kinds[2]), "a");
        let lone_sum = tok_sum(&GreenToken::new(SyntaxKind(kinds[2]), "a"));
        let mut jobs: Vec<Job> = Vec::with_capacity(n);
        let mut last = 0;
        for i in 0..n {
            let mut j = Job { ops: [0; M], held: Held::Nothing, sum: None, borrowed: core::ptr::null(), cache: None, done: 0 };
            if cached && i == 0 {
                j.cache = cache.take();
                j.ops[0] = 9;
                for k in 1..m {
                    j.ops[k] = choose("op", 3);
                }
                jobs.push(j);
                continue;
            }
            let own = choose("own", if keep { 5 } else { 3 });
            match own {
                0 => {
                    j.sum = Some(sum);
                    j.held = Held::Node(root.clone());
                }
                3 => {
                    j.borrowed = &root;
                }
                4 => {
                    // a token of no tree
                    j.sum = Some(lone_sum);
                    j.held = Held::Token(lone.clone());
                }
                w => {
                    // its own part of the tree
                    j.sum = Some(match part(&model, w == 2) {
                        NodeOrToken::Node(n) => node_sum(&n),
                        NodeOrToken::Token(t) => tok_sum(&t),
                    });
                    j.held = match part(&root, w == 2) {
                        NodeOrToken::Node(n) => Held::Node(n),
                        NodeOrToken::Token(t) => Held::Token(t),
                    };
                }
            }
            for k in 0..m {
                // a token can only be dropped, cloned and read
                let tok = matches!(j.held, Held::Token(_));
                j.ops[k] = choose("op", if tok { 3.min(nops) } else { nops });
            }
            // threads with the same rights are interchangeable
            let mut key = own;
            for k in 0..m {
                key = key * 16 + j.ops[k];
            }
            if key < last {
                assume(false);
                return;
            }
            last = key;
            jobs.push(j);
        }
        let mut p = Plan { kinds, shape, m, jobs: jobs.as_mut_ptr(), n: n as u64, sum };
        let lone = if keep { Some(lone) } else { None };
        let root = if keep {
            Some(root)
        } else {
            drop(root);
            None
        };
        // the borrowed pointers lead to the place where the tree is now
        if let Some(r) = &root {
            for i in 0..n {
                unsafe {
                    let j = &mut *p.jobs.add(i);
                    if !j.borrowed.is_null() {
                        j.borrowed = r;
                    }
                }
            }
        }
        par(n, body, &mut p as *mut Plan as *mut u8);
        for i in 0..p.n as usize {
            check(unsafe { (*p.jobs.add(i)).done } == 1, "a thread did not finish");
        }
        match &root {
            Some(r) => {
                check(node_sum(r) == sum, "a shared tree changed");
                cover(0);
            }
            None => cover(1),
        }
        trace(sum);
        drop(root);
        drop(lone);
        drop(jobs);
    }
    check(live() == l0, "an element outlived its last owner");
}

// ---- handles that must not travel -----------------------------------------

struct Probe<X>(PhantomData<X>);
trait Otherwise {
    const SEND: bool = false;
}
impl<X> Otherwise for Probe<X> {}
impl<X: Send> Probe<X> {
    const SEND: bool = true;
}
struct ProbeS<X>(PhantomData<X>);
trait OtherwiseS {
    const SYNC: bool = false;
}
impl<X> OtherwiseS for ProbeS<X> {}
impl<X: Sync> ProbeS<X> {
    const SYNC: bool = true;
}

struct Cursors {
    nodes: *mut Option<Node>,
    shared: *const Node,
    op: usize,
}
extern "C-unwind" fn cursor_body(d: *mut u8, i: u64) {
    let c: &Cursors = unsafe { &*(d as *const Cursors) };
    if c.shared.is_null() {
        let n = unsafe { (*c.nodes.add(i as usize)).take() };
        if c.op == 1 {
            let t = n.as_ref().unwrap().first_token();
            drop(t);
        }
        drop(n);
    } else {
        let n: &Node = unsafe { &*c.shared };
        let x = n.clone();
        drop(x);
    }
}

/// Cursors count their owners without atomics: if the type system lets them
/// (or references to them) cross threads, this is what follows.
pub fn cursors() {
    let l0 = live();
    {
        let send = Probe::<Node>::SEND || Probe::<rowan::SyntaxToken<L>>::SEND || Probe::<rowan::cursor::SyntaxNode>::SEND || Probe::<rowan::cursor::SyntaxToken>::SEND;
        let sync = ProbeS::<Node>::SYNC || ProbeS::<rowan::SyntaxToken<L>>::SYNC || ProbeS::<rowan::cursor::SyntaxNode>::SYNC || ProbeS::<rowan::cursor::SyntaxToken>::SYNC;
        let g = GreenNode::new(SyntaxKind(1), [NodeOrToken::Token(GreenToken::new(SyntaxKind(any_u16("k")), "a"))]);
        let root = Node::new_root(g);
        let op = choose("op", 2);
        if send {
            let mut v = vec![Some(root.clone()), Some(root.clone())];
            let mut c = Cursors { nodes: v.as_mut_ptr(), shared: core::ptr::null(), op };
            par(2, cursor_body, &mut c as *mut Cursors as *mut u8);
        }
        if sync {
            let mut c = Cursors { nodes: core::ptr::null_mut(), shared: &root, op };
            par(2, cursor_body, &mut c as *mut Cursors as *mut u8);
        }
        cover(0);
    }
    check(live() == l0, "an element outlived its last owner");
}
