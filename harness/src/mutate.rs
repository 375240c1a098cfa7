//! C14-C17, C21: mutable trees against an ordered forest.
use crate::sym::*;
use crate::tree::*;
use rowan::{Direction, GreenNode, GreenNodeData, GreenToken, NodeOrToken, SyntaxKind, TextRange, TextSize, WalkEvent};

/// Ordered forest; elements are told apart by their kinds (100 + id).
pub struct Forest {
    pub n: usize,
    pub tok: [bool; MAXN],
    pub parent: [usize; MAXN],
    pub kids: Vec<Vec<usize>>,
    pub len: [u32; MAXN],
    /// equal subtrees are one green element: kinds do not tell elements apart
    pub share: bool,
    pub filler: [bool; MAXN],
}
pub const BASE: u16 = 100;
impl Forest {
    pub fn new(t: &Tree) -> Forest {
        let mut f = Forest { n: 0, tok: [false; MAXN], parent: [NONE; MAXN], kids: vec![], len: [0; MAXN], share: t.share, filler: [false; MAXN] };
        f.add(t);
        f
    }
    pub fn add(&mut self, t: &Tree) {
        let base = self.n;
        for i in 0..t.n {
            self.tok[base + i] = t.is_tok[i];
            self.len[base + i] = t.len[i];
            self.filler[base + i] = t.filler[i];
            self.kids.push(vec![]);
            self.n += 1;
            if t.parent[i] != NONE {
                self.parent[base + i] = base + t.parent[i];
                self.kids[base + t.parent[i]].push(base + i);
            }
        }
    }
    pub fn root(&self, mut i: usize) -> usize {
        while self.parent[i] != NONE {
            i = self.parent[i];
        }
        i
    }
    pub fn pos(&self, i: usize) -> usize {
        self.kids[self.parent[i]].iter().position(|&x| x == i).unwrap()
    }
    pub fn is_anc(&self, a: usize, mut d: usize) -> bool {
        loop {
            if a == d {
                return true;
            }
            if self.parent[d] == NONE {
                return false;
            }
            d = self.parent[d];
        }
    }
    pub fn detach(&mut self, i: usize) {
        if self.parent[i] != NONE {
            let p = self.pos(i);
            self.kids[self.parent[i]].remove(p);
            self.parent[i] = NONE;
        }
    }
    pub fn attach(&mut self, p: usize, at: usize, c: usize) {
        self.kids[p].insert(at, c);
        self.parent[c] = p;
    }
    pub fn width(&self, i: usize) -> u32 {
        if self.tok[i] { self.len[i] } else { self.kids[i].iter().map(|&c| self.width(c)).sum() }
    }
    pub fn start(&self, i: usize) -> u32 {
        let mut s = 0;
        let mut c = i;
        while self.parent[c] != NONE {
            for &x in &self.kids[self.parent[c]] {
                if x == c {
                    break;
                }
                s += self.width(x);
            }
            c = self.parent[c];
        }
        s
    }
    pub fn range(&self, i: usize) -> TextRange {
        let s = self.start(i);
        TextRange::new(TextSize::from(s), TextSize::from(s + self.width(i)))
    }
    pub fn text(&self, i: usize, out: &mut Vec<u8>) {
        if self.tok[i] {
            for _ in 0..self.len[i] {
                out.push(if self.share { b'a' } else { b'a' + (i % 26) as u8 });
            }
        }
        for &c in &self.kids[i] {
            self.text(c, out);
        }
    }
    pub fn preorder(&self, i: usize, out: &mut Vec<usize>) {
        out.push(i);
        for &c in &self.kids[i] {
            self.preorder(c, out);
        }
    }
    pub fn kind(&self, i: usize) -> u16 {
        if !self.share {
            BASE + i as u16
        } else if self.tok[i] {
            2
        } else {
            1
        }
    }
    /// `e` can be element `i`, by its kind.
    pub fn is(&self, e: &Elem, i: usize) -> bool {
        i != NONE && e.kind().0 == self.kind(i)
    }
    /// The element of that kind (no sharing).
    pub fn by_kind(&self, k: u16) -> usize {
        (0..self.n).find(|&i| self.kind(i) == k).unwrap_or(NONE)
    }
    pub fn is_opt(&self, e: Option<Elem>, i: usize) -> bool {
        match e {
            None => i == NONE,
            Some(e) => self.is(&e, i),
        }
    }
    fn same_shape(&self, i: usize, j: usize) -> bool {
        self.tok[i] == self.tok[j]
            && self.len[i] == self.len[j]
            && self.kids[i].len() == self.kids[j].len()
            && (0..self.kids[i].len()).all(|k| self.same_shape(self.kids[i][k], self.kids[j][k]))
    }
    /// The green tree of an (initial) tree.
    pub fn green(&self, i: usize) -> GreenNode {
        let mut pool = vec![];
        self.green_in(i, &mut pool)
    }
    fn green_in(&self, i: usize, pool: &mut Vec<(usize, GElem)>) -> GreenNode {
        let mut kids: Vec<GElem> = vec![];
        for &c in &self.kids[i] {
            let mut e = None;
            if self.share {
                e = pool.iter().find(|(j, _)| self.same_shape(*j, c)).map(|(_, e)| e.clone());
            }
            let e = match e {
                Some(e) => e,
                None => {
                    let e: GElem = if self.tok[c] {
                        let mut v = vec![];
                        self.text(c, &mut v);
                        GreenToken::new(SyntaxKind(self.kind(c)), core::str::from_utf8(&v).unwrap()).into()
                    } else {
                        self.green_in(c, pool).into()
                    };
                    if self.share {
                        pool.push((c, e.clone()));
                    }
                    e
                }
            };
            kids.push(e);
        }
        GreenNode::new(SyntaxKind(self.kind(i)), kids)
    }
    pub fn clone(&self) -> Forest {
        Forest { n: self.n, tok: self.tok, parent: self.parent, kids: self.kids.clone(), len: self.len, share: self.share, filler: self.filler }
    }
    /// A green node has the structure and text of element `i`.
    pub fn same_green(&self, g: &GreenNodeData, i: usize) {
        check(g.kind() == SyntaxKind(self.kind(i)), "kind of a green node after mutation");
        check(u32::from(g.text_len()) == self.width(i), "text_len of a green node after mutation");
        check(g.children().len() == self.kids[i].len(), "children of a green node after mutation");
        for (k, e) in g.children().enumerate() {
            if k >= self.kids[i].len() {
                return;
            }
            let c = self.kids[i][k];
            match e {
                NodeOrToken::Node(n) => {
                    check(!self.tok[c], "a node replaced a token");
                    self.same_green(n, c);
                }
                NodeOrToken::Token(t) => {
                    check(self.tok[c], "a token replaced a node");
                    check(t.kind() == SyntaxKind(self.kind(c)), "kind of a green token after mutation");
                    let mut v = vec![];
                    self.text(c, &mut v);
                    check(same_bytes(t.text().as_bytes(), &v), "text of a green token after mutation");
                }
            }
        }
    }
    /// Everything a handle on `i` shows.
    pub fn see(&self, h: &Elem, i: usize, mutable: bool) {
        check(self.is(h, i), "a handle shows another element");
        check(h.text_range() == self.range(i), "text range of a handle");
        let p = self.parent[i];
        check(self.is_opt(h.parent().map(|p| p.into()), p), "parent of a handle");
        let (mut nx, mut pv) = (NONE, NONE);
        if p != NONE {
            let k = self.pos(i);
            check(h.index() == k, "index of a handle");
            if k + 1 < self.kids[p].len() {
                nx = self.kids[p][k + 1];
            }
            if k > 0 {
                pv = self.kids[p][k - 1];
            }
        }
        check(self.is_opt(h.next_sibling_or_token(), nx), "next sibling of a handle");
        check(self.is_opt(h.prev_sibling_or_token(), pv), "previous sibling of a handle");
        let mut want = vec![];
        self.text(i, &mut want);
        match h {
            NodeOrToken::Node(n) => {
                check(!self.tok[i], "a node handle on a token");
                check(n.is_mutable() == mutable, "mutability of a handle");
                let mut k = 0;
                for c in n.children_with_tokens() {
                    check(k < self.kids[i].len() && self.is(&c, self.kids[i][k]), "children of a handle");
                    k += 1;
                }
                check(k == self.kids[i].len(), "number of children of a handle");
                let s = n.to_string();
                check(same_bytes(s.as_bytes(), &want), "text of a handle");
                self.same_green(&n.green(), i);
            }
            NodeOrToken::Token(t) => {
                check(self.tok[i], "a token handle on a node");
                check(same_bytes(t.text().as_bytes(), &want), "text of a token handle");
            }
        }
    }
    /// Handles taken now equal those held on the same elements, and no others.
    fn same(&self, root: &Node, i: usize, hs: &Handles) {
        let mut ids = vec![];
        self.preorder(i, &mut ids);
        for (e, &id) in root.descendants_with_tokens().zip(&ids) {
            for j in 0..self.n {
                if let Some(h) = &hs[j] {
                    if self.root(j) == i {
                        check((e == *h) == (id == j), "a fresh handle equals exactly the handles on its element");
                    }
                }
            }
        }
    }
    /// The whole tree below a root, through fresh handles.
    pub fn walk(&self, root: &Node, i: usize) {
        let mut want = vec![];
        self.preorder(i, &mut want);
        let mut k = 0;
        for e in root.preorder_with_tokens() {
            if let WalkEvent::Enter(e) = e {
                check(k < want.len() && self.is(&e, want[k]), "preorder of a tree after mutation");
                if k < want.len() {
                    check(e.text_range() == self.range(want[k]), "offset of an element after mutation");
                }
                k += 1;
            }
        }
        check(k == want.len(), "size of a tree after mutation");
    }
}
fn elem_at(root: &Node, f: &Forest, i: usize) -> Elem {
    if f.parent[i] == NONE {
        return root.clone().into();
    }
    let p = elem_at(root, f, f.parent[i]);
    let e = p.as_node().unwrap().children_with_tokens().nth(f.pos(i)).unwrap();
    e
}
fn root_of(e: &Elem) -> Elem {
    match e.ancestors().last() {
        Some(r) => r.into(),
        None => e.clone(), // a detached token
    }
}
fn shape(n: &str, d: u64) -> Shape {
    Shape { kind_bits: 0, max_tok_len: param("len", 1), empty_tokens: param("empty", 0) == 1, ..Shape::new(param(n, d) as usize) }
}
/// A node with a token and an empty node in it, to take elements from.
fn donor() -> Tree {
    let mut t = Tree::blank();
    t.n = 3;
    t.parent[1] = 0;
    t.is_tok[1] = true;
    t.len[1] = 1;
    t.len[0] = 1;
    t.parent[2] = 0;
    t
}

type Handles = Vec<Option<Elem>>;

fn verify(f: &Forest, hs: &Handles) {
    for i in 0..f.n {
        if let Some(h) = &hs[i] {
            f.see(h, i, true);
            let r = root_of(h);
            let ri = f.root(i);
            check(f.is(&r, ri), "root of a handle");
            if let NodeOrToken::Node(r) = &r {
                // once per tree
                if (0..i).all(|j| hs[j].is_none() || f.root(j) != ri) {
                    f.walk(r, ri);
                    f.same(r, ri, hs);
                    let fresh = elem_at(r, f, i);
                    check(fresh == *h, "a handle differs from a fresh one on the same element");
                }
            }
            for j in 0..i {
                if let Some(o) = &hs[j] {
                    // across trees equal greens at equal offsets may be one
                    check((f.share && f.root(i) != f.root(j)) || o != h, "handles on different elements are equal");
                }
            }
        }
    }
}

/// One mutation of the forest through the handles in `hs`; false if there is
/// nothing to do it with.
fn mutate(f: &mut Forest, hs: &mut Handles) {
    let nops = param("ops", 4);
    match choose("op", nops) {
        0 => {
            let i = choose("target", f.n as u64);
            assume(hs[i].is_some());
            hs[i].as_ref().unwrap().detach();
            f.detach(i);
            cover(0);
        }
        1 => {
            let p = choose("target", f.n as u64);
            assume(hs[p].is_some() && !f.tok[p]);
            let len = f.kids[p].len();
            // up to one past the end, on both sides
            let start = if len <= 8 {
                choose("start", len as u64 + 2)
            } else {
                [0, 1, len / 2, len - 1, len, len + 1][choose("start", 6)]
            };
            let dels = (len + 2).saturating_sub(start).min(1 + param("del", 2) as usize).max(1) as u64;
            let far = param("far", 0);
            let mut del = choose("delete", dels + far);
            let mut end = start + del;
            if del as u64 == dels {
                // to any place behind the end
                end = var("end", 64, len.max(start) as u64, u64::MAX) as usize;
                del = len.saturating_sub(start);
            }
            // what to insert: elements of any tree; the ancestors of `p` are refused
            let k = choose("count", 1 + param("ins", 1));
            let mut ids = vec![];
            for _ in 0..k {
                let e = choose("elem", f.n as u64);
                assume(hs[e].is_some() && !ids.contains(&e));
                ids.push(e);
            }
            // the documented meaning: delete, then insert one after the other
            for _ in 0..del {
                if start < f.kids[p].len() {
                    let c = f.kids[p][start];
                    f.detach(c);
                }
            }
            let mut ok = true;
            for (k, &e) in ids.iter().enumerate() {
                if f.is_anc(e, p) {
                    ok = false;
                    break;
                }
                f.detach(e);
                if start + k > f.kids[p].len() {
                    // only possible when an element moves within `p`
                    ok = false;
                    break;
                }
                f.attach(p, start + k, e);
            }
            let new: Vec<Elem> = ids.iter().map(|&e| hs[e].clone().unwrap()).collect();
            let node = hs[p].as_ref().unwrap().as_node().unwrap().clone();
            let r = catch(|| node.splice_children(start..end, new));
            check(r.is_some() == ok, "splice_children must panic exactly when the position is out of range");
            if ok {
                cover(1);
            } else {
                cover(2);
            }
        }
        2 => {
            // let go of a handle
            let i = choose("target", f.n as u64);
            assume(hs[i].is_some());
            hs[i] = None;
        }
        _ => {
            // get a handle on an element of a tree that is still reachable
            let i = choose("target", f.n as u64);
            let via = choose("via", f.n as u64);
            assume(hs[i].is_none() && hs[via].is_some() && f.root(via) == f.root(i) && via != i);
            let r = root_of(hs[via].as_ref().unwrap());
            hs[i] = Some(elem_at(r.as_node().unwrap(), f, i));
        }
    }
}

/// Handles on any subset of the elements, taken in either order.
fn acquire(f: &Forest, root: &Node, base: usize, n: usize, hs: &mut Handles) {
    let mut want = [true; MAXN];
    if param("subset", 1) == 1 {
        // fillers: all, none, or every other one
        let fill = if (0..n).any(|i| f.filler[base + i]) { choose("fill", 3) } else { 0 };
        for i in 0..n {
            want[i] = if f.filler[base + i] { fill < 2 && (fill == 0 || i % 2 == 0) } else { choose("live", 2) == 1 };
        }
    }
    let rev = param("order", 0) == 1;
    for k in 0..n {
        let i = if rev { n - 1 - k } else { k };
        if want[i] {
            hs[base + i] = Some(elem_at(root, f, base + i));
        }
    }
}

/// Any sequence of detachments, splices, drops and acquisitions of handles
/// does to the trees what it does to a forest of lists.
pub fn ops() {
    let t = Tree::sym(shape("n", 3));
    let l0 = live();
    {
        let mut f = Forest::new(&t);
        let two = param("donor", 1) == 1;
        if two {
            f.add(&donor());
        }
        let mut hs: Handles = (0..f.n).map(|_| None).collect();
        let root = Node::new_root(f.green(0)).clone_for_update();
        acquire(&f, &root, 0, t.n, &mut hs);
        drop(root);
        if two {
            let d = Node::new_root_mut(f.green(t.n));
            for i in t.n..f.n {
                hs[i] = Some(elem_at(&d, &f, i));
            }
        }
        let k = param("steps", 1);
        let k = if param("exact", 0) == 1 { k as usize } else { choose("steps", k + 1) };
        if param("look", 0) == 1 {
            // green trees looked at before the change do not change, whether
            // borrowed or owned, and whoever else holds them
            let f0 = f.clone();
            let lookers: Vec<(usize, Node)> = (0..f.n).filter(|&i| !f.tok[i] && hs[i].is_some()).map(|i| (i, hs[i].clone().unwrap().into_node().unwrap())).collect();
            let seen: Vec<_> = lookers.iter().map(|(_, n)| n.green()).collect();
            for _ in 0..k {
                mutate(&mut f, &mut hs);
            }
            for (k, (i, _)) in lookers.iter().enumerate() {
                f0.same_green(&seen[k], *i);
            }
        } else {
            for _ in 0..k {
                mutate(&mut f, &mut hs);
            }
        }
        verify(&f, &hs);
        trace(k as u64);
        // and freeing everything in either order is fine
        if param("revdrop", 0) == 1 {
            while let Some(h) = hs.pop() {
                drop(h);
            }
        }
    }
    end(l0);
}

/// Changing a mutable copy leaves alone: the tree it was copied from, other
/// copies, green nodes taken before, and immutable copies of parts.
pub fn isolation() {
    let t = Tree::sym(shape("n", 3));
    let l0 = live();
    {
        let f0 = Forest::new(&t);
        let mut f = f0.clone();
        f.add(&donor());
        let g = f0.green(0);
        let orig = Node::new_root(g.clone());
        let at = choose("at", t.n as u64);
        assume(!t.is_tok[at]);
        let copy = elem_at(&orig, &f0, at).into_node().unwrap().clone_for_update();
        let other = orig.clone_for_update();
        // the copy of an inner node is that node in a copy of the whole tree
        f0.see(&copy.clone().into(), at, true);
        let root = root_of(&copy.clone().into()).into_node().unwrap();
        f0.walk(&root, 0);
        let green = root.green().into_owned();
        let part = copy.clone_subtree();
        check(!part.is_mutable() && part.parent().is_none(), "clone_subtree");
        check(u32::from(part.text_range().start()) == 0, "clone_subtree starts at zero");
        check(part.green() == copy.green(), "clone_subtree is equivalent to its source");
        let sub = part.clone_for_update();

        let mut hs: Handles = (0..f.n).map(|_| None).collect();
        for i in 0..t.n {
            hs[i] = Some(elem_at(&root, &f0, i));
        }
        let d = Node::new_root_mut(f.green(t.n));
        for i in t.n..f.n {
            hs[i] = Some(elem_at(&d, &f, i));
        }
        // green trees looked at before the change, borrowed where they can be
        let lookers: Vec<Node> = (0..t.n).filter(|&i| !t.is_tok[i]).map(|i| elem_at(&root, &f0, i).into_node().unwrap()).collect();
        let seen: Vec<_> = lookers.iter().map(|n| n.green()).collect();
        for _ in 0..param("steps", 1) {
            mutate(&mut f, &mut hs);
        }
        let mut k = 0;
        for i in 0..t.n {
            if !t.is_tok[i] {
                f0.same_green(&seen[k], i);
                k += 1;
            }
        }
        drop(seen);
        drop(lookers);
        verify(&f, &hs);
        f0.same_green(&g, 0);
        f0.same_green(&green, 0);
        f0.walk(&orig, 0);
        check(!orig.is_mutable(), "the original became mutable");
        f0.walk(&other, 0);
        f0.same_green(&other.green(), 0);
        f0.same_green(&part.green(), at);
        f0.same_green(&sub.green(), at);
        // and the other way round: changing another copy, too
        if let Some(c) = sub.first_child_or_token() {
            c.detach();
        }
        if let Some(c) = other.last_child_or_token() {
            c.detach();
        }
        verify(&f, &hs);
        f0.walk(&orig, 0);
        f0.same_green(&part.green(), at);
    }
    end(l0);
}

/// Detaching while iterating: every child is seen once, in order, and what is
/// detached is gone, whatever subset it is.
pub fn detach_iter() {
    let t = Tree::sym(Shape { max_depth: param("depth", 3) as usize, ..shape("n", 4) });
    let l0 = live();
    {
        let mut f = Forest::new(&t);
        let root = Node::new_root(f.green(0)).clone_for_update();
        let p = choose("at", t.n as u64);
        assume(!t.is_tok[p]);
        let node = elem_at(&root, &f, p).into_node().unwrap();
        let mut hs: Handles = (0..f.n).map(|_| None).collect();
        hs[0] = Some(root.clone().into());
        // fillers: all, none, or every other one
        let filled = (0..f.n).any(|i| f.filler[i]);
        if param("hold", 0) == 1 {
            let fill = if filled { choose("fill", 3) } else { 0 };
            for i in 0..f.n {
                if if f.filler[i] { fill < 2 && (fill == 0 || i % 2 == 0) } else { choose("live", 2) == 1 } {
                    hs[i] = Some(elem_at(&root, &f, i));
                }
            }
        }
        let fill = if filled { choose("fill", 3) } else { 0 };
        let all = f.kids[p].clone();
        let nodes: Vec<usize> = all.iter().copied().filter(|&c| !f.tok[c]).collect();
        let form = choose("form", 8);
        let want = if form % 2 == 0 { &nodes } else { &all };
        // only some of them
        let even = |i: usize| f.kind(i) % 2 == 0;
        let some: Vec<usize> = want.iter().copied().filter(|&c| even(c)).collect();
        let want = if form >= 6 { &some } else { want };
        let mut k = 0;
        let mut gone: Vec<(usize, Elem)> = vec![];
        let mut see = |e: Elem, f: &mut Forest| {
            check(k < want.len() && f.is(&e, want[k]), "iteration while detaching");
            if k >= want.len() {
                return;
            }
            let id = want[k];
            k += 1;
            if if f.filler[id] { fill < 2 && (fill == 0 || id % 3 == 0) } else { choose("detach", 2) == 1 } {
                e.detach();
                f.detach(id);
                check(e.parent().is_none(), "a detached element has a parent");
                check(u32::from(e.text_range().start()) == 0, "a detached element does not start at zero");
                gone.push((id, e));
                cover(0);
            }
        };
        match form {
            0 => {
                for c in node.children() {
                    see(c.into(), &mut f);
                }
            }
            1 => {
                for c in node.children_with_tokens() {
                    see(c, &mut f);
                }
            }
            2 => {
                for c in node.children().by_kind(|_| true) {
                    see(c.into(), &mut f);
                }
            }
            3 => {
                for c in node.children_with_tokens().by_kind(&|_| true) {
                    see(c, &mut f);
                }
            }
            6 => {
                for c in node.children().by_kind(|k| k.0 % 2 == 0) {
                    see(c.into(), &mut f);
                }
            }
            7 => {
                for c in node.children_with_tokens().by_kind(|k| k.0 % 2 == 0) {
                    see(c, &mut f);
                }
            }
            4 => {
                let v: Vec<Node> = node.children().collect();
                for c in v {
                    see(c.into(), &mut f);
                }
            }
            _ => {
                let v: Vec<Elem> = node.children_with_tokens().collect();
                for c in v.into_iter() {
                    see(c, &mut f);
                }
            }
        }
        check(k == want.len(), "a child was skipped while detaching");
        verify(&f, &hs);
        for (id, e) in &gone {
            f.see(e, *id, true);
        }
        f.walk(&root, 0);
        trace(k as u64);
    }
    end(l0);
}

/// Moving every child of one node to another, one by one or at once.
pub fn move_all() {
    let t = Tree::sym(shape("n", 4));
    let l0 = live();
    {
        let mut f = Forest::new(&t);
        let base = f.n;
        f.add(&donor());
        let root = Node::new_root(f.green(0)).clone_for_update();
        let p = choose("at", t.n as u64);
        assume(!t.is_tok[p]);
        let node = elem_at(&root, &f, p).into_node().unwrap();
        let d = Node::new_root_mut(f.green(base));
        let at = choose("into", f.kids[base].len() as u64 + 1);
        let all = f.kids[p].clone();
        if choose("how", 2) == 0 {
            let mut at = at;
            for c in node.children_with_tokens() {
                d.splice_children(at..at, [c]);
                at += 1;
            }
        } else {
            d.splice_children(at..at, node.children_with_tokens());
        }
        for (k, c) in all.iter().enumerate() {
            f.detach(*c);
            f.attach(base, at + k, *c);
        }
        let mut hs: Handles = (0..f.n).map(|_| None).collect();
        hs[0] = Some(root.clone().into());
        hs[p] = Some(node.into());
        hs[base] = Some(d.into());
        verify(&f, &hs);
        cover(0);
        trace(all.len() as u64);
    }
    end(l0);
}

/// Calls that make no sense panic and change nothing.
pub fn misuse() {
    let t = Tree::sym(shape("n", 2));
    let l0 = live();
    {
        let mut f = Forest::new(&t);
        let base = f.n;
        f.add(&donor());
        let imm = Node::new_root(f.green(0));
        let mt = imm.clone_for_update();
        let d = Node::new_root_mut(f.green(base));
        let i = choose("at", t.n as u64);
        let what = choose("what", 9);
        // the only handle on its tree, or not
        let sole = what != 4 && what != 6 && choose("sole", 2) == 1;
        let ei = if sole { elem_at(&Node::new_root(f.green(0)), &f, i) } else { elem_at(&imm, &f, i) };
        let em = if sole { elem_at(&Node::new_root(f.green(0)).clone_for_update(), &f, i) } else { elem_at(&mt, &f, i) };
        check(imm.is_mutable() == false && mt.is_mutable() && d.is_mutable(), "mutability");
        let mut changed = false;
        match what {
            0 => {
                check(catch(|| ei.detach()).is_none(), "detaching from an immutable tree must panic");
                cover(0);
            }
            1 => {
                assume(!t.is_tok[i]);
                let n = ei.as_node().unwrap();
                let del = choose("delete", 2);
                let ins = choose("insert", 2);
                let len = f.kids[i].len();
                let new: Vec<Elem> = if ins == 1 { vec![d.clone().into()] } else { vec![] };
                check(catch(|| n.splice_children(0..del.min(len), new)).is_none(), "splicing an immutable tree must panic");
                cover(1);
            }
            2 => {
                // an immutable element cannot become part of a mutable tree
                let new: Vec<Elem> = vec![ei.clone()];
                check(catch(|| d.splice_children(0..0, new)).is_none(), "attaching an immutable element must panic");
                cover(2);
            }
            3 => {
                assume(!t.is_tok[i]);
                let n = em.as_node().unwrap();
                check(catch(|| n.clone_for_update()).is_none(), "clone_for_update of a mutable tree must panic");
                cover(3);
            }
            4 => {
                // position out of range: the element is left detached
                assume(!t.is_tok[i]);
                let n = em.as_node().unwrap();
                let len = f.kids[i].len();
                let at = var("far", 64, len as u64 + 1, u64::MAX) as usize;
                let e = if choose("elem", 2) == 0 {
                    f.detach(base + 1);
                    d.first_child_or_token().unwrap()
                } else {
                    d.clone().into()
                };
                check(catch(|| n.splice_children(at..at, [e.clone()])).is_none(), "an index out of range must panic");
                changed = true;
                cover(4);
            }
            5 => {
                // replacement of another kind
                let r = match &em {
                    NodeOrToken::Node(n) => catch(|| n.replace_with(GreenNode::new(SyntaxKind(9), Vec::new()))),
                    NodeOrToken::Token(k) => catch(|| k.replace_with(GreenToken::new(SyntaxKind(9), ""))),
                };
                check(r.is_none(), "a replacement of another kind must panic");
                let r = match &ei {
                    NodeOrToken::Node(n) => catch(|| n.replace_with(GreenNode::new(SyntaxKind(9), Vec::new()))),
                    NodeOrToken::Token(k) => catch(|| k.replace_with(GreenToken::new(SyntaxKind(9), ""))),
                };
                check(r.is_none(), "a replacement of another kind must panic");
                cover(5);
            }
            6 => {
                // detaching twice and detaching a root do nothing
                em.detach();
                em.detach();
                f.detach(i);
                f.see(&em, i, true);
                changed = true;
            }
            8 => {
                // a node below itself
                assume(!t.is_tok[i]);
                let n = em.as_node().unwrap();
                let mut up: Vec<Elem> = vec![em.clone()];
                while let Some(p) = up[up.len() - 1].parent() {
                    up.push(p.into());
                }
                let e = up[choose("up", up.len() as u64)].clone();
                check(catch(|| n.splice_children(0..0, [e])).is_none(), "attaching a node below itself must panic");
                cover(6);
            }
            _ => {
                // an inverted or empty range deletes nothing
                assume(!t.is_tok[i]);
                let n = em.as_node().unwrap();
                let len = f.kids[i].len();
                let a = choose("a", len as u64 + 1);
                n.splice_children(a..a, []);
            }
        }
        let mut hs: Handles = (0..f.n).map(|_| None).collect();
        if sole {
            // in a tree of its own
            f.see(&em, i, true);
        } else {
            hs[i] = Some(em);
        }
        hs[0] = Some(mt.into());
        hs[base] = Some(d.into());
        verify(&f, &hs);
        if !changed {
            let f0 = Forest::new(&t);
            f0.walk(hs[0].as_ref().unwrap().as_node().unwrap(), 0);
        }
        let f0 = Forest::new(&t);
        f0.walk(&imm, 0);
        f0.see(&ei, i, false);
    }
    end(l0);
}

/// Code of the caller that panics, or changes the trees, while rowan runs it.
pub fn callbacks() {
    let t = Tree::sym(shape("n", 3));
    let l0 = live();
    {
        let mut f = Forest::new(&t);
        let base = f.n;
        f.add(&donor());
        let root = Node::new_root(f.green(0)).clone_for_update();
        let d = Node::new_root_mut(f.green(base));
        let mut hs: Handles = (0..f.n).map(|_| None).collect();
        acquire(&f, &root, 0, t.n, &mut hs);
        hs[0] = Some(root.clone().into());
        for i in base..f.n {
            hs[i] = Some(elem_at(&d, &f, i));
        }
        let p = choose("target", t.n as u64);
        assume(!f.tok[p] && hs[p].is_some());
        let node = hs[p].clone().unwrap().into_node().unwrap();
        let len = f.kids[p].len();
        match choose("what", 3) {
            0 => {
                // the elements to insert come from an iterator that panics or mutates
                let start = choose("start", len as u64 + 1);
                let del = choose("delete", (len - start) as u64 + 1);
                let ids = [base + 1, base + 2];
                let at = choose("at", 2);
                let act = choose("act", 1 + f.n as u64);
                assume(act == 0 || hs[act - 1].is_some());
                for _ in 0..del {
                    let c = f.kids[p][start];
                    f.detach(c);
                }
                let mut ok = true;
                let mut k = 0;
                let r = {
                    let (f, hs, ok) = (&mut f, &hs, &mut ok);
                    catch(|| {
                        node.splice_children(
                            start..start + del,
                            core::iter::from_fn(|| {
                                if k == at {
                                    if act == 0 {
                                        *ok = false;
                                        panic!("in the iterator");
                                    }
                                    hs[act - 1].as_ref().unwrap().detach();
                                    f.detach(act - 1);
                                }
                                if k == ids.len() {
                                    return None;
                                }
                                let e = ids[k];
                                k += 1;
                                f.detach(e);
                                if start + k - 1 <= f.kids[p].len() {
                                    f.attach(p, start + k - 1, e);
                                } else {
                                    *ok = false;
                                }
                                Some(hs[e].clone().unwrap())
                            }),
                        )
                    })
                };
                check(r.is_some() == ok, "splice_children with an iterator that mutates");
                cover(if act == 0 { 0 } else if ok { 1 } else { 2 });
            }
            1 => {
                // a matcher that panics or mutates at some call, and matches at some
                let left = core::cell::Cell::new(choose("calls", len as u64 + 1));
                let done = core::cell::Cell::new(false);
                let act = choose("act", 1 + f.n as u64);
                assume(act == 0 || hs[act - 1].is_some());
                let yes = choose("match", 3);
                let m = |_: K| {
                    let k = left.get();
                    left.set(k.wrapping_sub(1));
                    if k == 0 {
                        done.set(true);
                        if act == 0 {
                            panic!("in the matcher");
                        }
                        hs[act - 1].as_ref().unwrap().detach();
                        return yes == 1;
                    }
                    yes == 2 && k == usize::MAX
                };
                let el = |n: Option<Node>| n.map(Elem::from);
                let found = match choose("lookup", 7) {
                    0 => catch(|| el(node.first_child_by_kind(&m))),
                    1 => catch(|| node.first_child_or_token_by_kind(&m)),
                    2 => catch(|| el(node.children().by_kind(&m).next())),
                    3 => catch(|| node.children_with_tokens().by_kind(&m).next()),
                    4 => catch(|| el(node.next_sibling_by_kind(&m))),
                    5 => catch(|| node.next_sibling_or_token_by_kind(&m)),
                    _ => catch(|| {
                        let mut it = node.children_with_tokens();
                        it.next();
                        it.by_kind(&m).next()
                    }),
                };
                check(found.is_some() || (act == 0 && done.get()), "a lookup with a matcher that does not panic panics");
                if let Some(Some(e)) = &found {
                    check(yes != 0, "a lookup finds what does not match");
                    // some element of a tree, whole
                    let i = f.by_kind(e.kind().0);
                    check(i != NONE, "a lookup finds an element of no tree");
                }
                if done.get() {
                    if act > 0 {
                        f.detach(act - 1);
                        cover(5);
                    } else {
                        cover(3);
                    }
                }
                if let Some(Some(e)) = found {
                    let i = f.by_kind(e.kind().0);
                    if i != NONE {
                        f.see(&e, i, true);
                        if hs[i].is_none() {
                            hs[i] = Some(e);
                        }
                    }
                }
            }
            _ => {
                // a chunk function that panics or mutates, and a writer
                let left = core::cell::Cell::new(choose("calls", 3));
                let done = core::cell::Cell::new(false);
                let act = choose("act", 1 + f.n as u64);
                assume(act == 0 || hs[act - 1].is_some());
                let stop = |_: &str| {
                    let k = left.get();
                    left.set(k.wrapping_sub(1));
                    if k == 0 {
                        done.set(true);
                        if act == 0 {
                            panic!("in the function");
                        }
                        hs[act - 1].as_ref().unwrap().detach();
                    }
                };
                struct W<'a>(&'a dyn Fn(&str));
                impl core::fmt::Write for W<'_> {
                    fn write_str(&mut self, s: &str) -> core::fmt::Result {
                        (self.0)(s);
                        Ok(())
                    }
                }
                let r = match choose("form", 3) {
                    0 => catch(|| node.text().for_each_chunk(|s| stop(s))),
                    1 => catch(|| {
                        core::fmt::Write::write_fmt(&mut W(&stop), format_args!("{}", node)).unwrap();
                    }),
                    _ => catch(|| {
                        core::fmt::Write::write_fmt(&mut W(&stop), format_args!("{:#?}", node)).unwrap();
                    }),
                };
                if r.is_none() && act == 0 {
                    cover(4);
                }
                if done.get() && act > 0 {
                    f.detach(act - 1);
                }
            }
        }
        drop(node);
        verify(&f, &hs);
        trace(f.kids[p].len() as u64);
    }
    end(l0);
}

/// A tree changed in the middle of a walk: whatever the walk yields from then
/// on are elements as they are in the tree now.
pub fn walk_edit() {
    let t = Tree::sym(shape("n", 3));
    let l0 = live();
    {
        let mut f = Forest::new(&t);
        let base = f.n;
        f.add(&donor());
        let root = Node::new_root(f.green(0)).clone_for_update();
        let d = Node::new_root_mut(f.green(base));
        let mut hs: Handles = (0..f.n).map(|_| None).collect();
        acquire(&f, &root, 0, t.n, &mut hs);
        hs[0] = Some(root.clone().into());
        for i in base..f.n {
            hs[i] = Some(elem_at(&d, &f, i));
        }
        let s = choose("start", t.n as u64);
        let e = elem_at(&root, &f, s);
        let n = e.as_node().cloned();
        let both = |e: WalkEvent<Elem>| match e {
            WalkEvent::Enter(x) | WalkEvent::Leave(x) => x,
        };
        let form = choose("form", 9);
        assume(form == 8 || n.is_some());
        let mut it: Box<dyn Iterator<Item = Elem>> = match (form, &n) {
            (0, Some(n)) => Box::new(n.preorder_with_tokens().map(both)),
            (1, Some(n)) => Box::new(n.preorder().map(|e| match e {
                WalkEvent::Enter(x) | WalkEvent::Leave(x) => x.into(),
            })),
            (2, Some(n)) => Box::new(n.siblings_with_tokens(rowan::Direction::Next).collect::<Vec<_>>().into_iter()),
            (3, Some(n)) => Box::new(n.descendants().map(Elem::from)),
            (4, Some(n)) => Box::new(n.children_with_tokens()),
            (5, Some(n)) => Box::new(n.children().by_kind(|_| true).map(Elem::from)),
            (6, Some(n)) => Box::new(rowan::ast::support::children::<crate::find::Typed<0, 65535>>(n).map(|a| a.0.into())),
            (7, Some(n)) => Box::new(core::iter::successors(n.first_token(), |t| t.next_token()).map(Elem::from)),
            _ => Box::new(core::iter::successors(Some(e.clone()), |e| e.parent().map(Elem::from))),
        };
        drop(e);
        let edit_at = choose("edit", 1 + t.n as u64);
        let limit = edit_at + param("after", 4) as usize;
        let mut ended = false;
        for k in 0..limit {
            if k == edit_at {
                mutate(&mut f, &mut hs);
                cover(0);
            }
            let Some(x) = catch(|| it.next()) else {
                // a walk may give up; everything stays usable
                check(k >= edit_at, "a walk panics");
                cover(1);
                ended = true;
                break;
            };
            let Some(x) = x else {
                assume(k >= edit_at);
                ended = true;
                break;
            };
            let i = f.by_kind(x.kind().0);
            check(i != NONE, "a walk yields an element of no tree");
            if i == NONE {
                return;
            }
            f.see(&x, i, true);
        }
        drop(it);
        drop(n);
        if ended {
            cover(2);
        }
        verify(&f, &hs);
        trace(limit as u64);
    }
    end(l0);
}

/// Every way of walking a tree agrees with the model in the middle of a
/// mutation history, with live handles around.
pub fn walks() {
    let t = Tree::sym(shape("n", 3));
    let l0 = live();
    {
        let mut f = Forest::new(&t);
        f.add(&donor());
        let root = Node::new_root(f.green(0)).clone_for_update();
        let mut hs: Handles = (0..f.n).map(|_| None).collect();
        acquire(&f, &root, 0, t.n, &mut hs);
        hs[0] = Some(root.clone().into());
        let d = Node::new_root_mut(f.green(t.n));
        for i in t.n..f.n {
            hs[i] = Some(elem_at(&d, &f, i));
        }
        for _ in 0..param("steps", 1) {
            mutate(&mut f, &mut hs);
        }
        // all tokens in order, forwards and backwards
        let mut pre = vec![];
        let top = f.root(0);
        let root = root_of(&root.into()).into_node().unwrap();
        f.preorder(top, &mut pre);
        let toks: Vec<usize> = pre.iter().copied().filter(|&i| f.tok[i]).collect();
        let mut k = 0;
        let mut x = root.first_token();
        while let Some(c) = x {
            check(k < toks.len() && c.kind().0 == f.kind(toks[k]), "next_token after mutation");
            k += 1;
            x = c.next_token();
        }
        check(k == toks.len(), "next_token loses tokens after mutation");
        let mut x = root.last_token();
        while let Some(c) = x {
            check(k > 0 && c.kind().0 == f.kind(toks[k - 1]), "prev_token after mutation");
            k -= 1;
            x = c.prev_token();
        }
        check(k == 0, "prev_token loses tokens after mutation");
        // lookups
        let w = f.width(top);
        let o = choose("offset", w as u64 + 1) as u32;
        let l = root.token_at_offset(TextSize::from(o));
        let left = toks.iter().copied().find(|&i| f.len[i] > 0 && f.start(i) < o && o <= f.start(i) + f.len[i]);
        let right = toks.iter().copied().find(|&i| f.len[i] > 0 && f.start(i) <= o && o < f.start(i) + f.len[i]);
        let same = |t: Option<Token>, i: Option<usize>| match (t, i) {
            (None, None) => true,
            (Some(t), Some(i)) => t.kind().0 == f.kind(i) && t.text_range() == f.range(i),
            _ => false,
        };
        check(same(l.clone().left_biased(), left.or(right)) && same(l.right_biased(), right.or(left)), "token_at_offset after mutation");
        // siblings of a live handle
        for i in 0..t.n {
            if let Some(h) = &hs[i] {
                if let (NodeOrToken::Node(n), true) = (h, f.parent[i] != NONE) {
                    let sib = &f.kids[f.parent[i]];
                    let mut k = f.pos(i);
                    for s in n.siblings_with_tokens(Direction::Next) {
                        check(k < sib.len() && f.is(&s, sib[k]), "siblings after mutation");
                        k += 1;
                    }
                    check(k == sib.len(), "siblings after mutation end early");
                    let mut k = f.pos(i) + 1;
                    for s in n.siblings(Direction::Prev) {
                        while k > 0 && f.tok[sib[k - 1]] {
                            k -= 1;
                        }
                        check(k > 0, "siblings after mutation");
                        if k > 0 {
                            k -= 1;
                            check(f.is(&s.clone().into(), sib[k]) && s.text_range() == f.range(sib[k]), "a sibling is skipped after mutation");
                        }
                    }
                    check((0..k).all(|k| f.tok[sib[k]]), "siblings after mutation end early");
                }
            }
        }
        cover(4);
        verify(&f, &hs);
    }
    end(l0);
}
