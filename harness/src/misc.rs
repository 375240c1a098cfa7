//! C24 serialization, C25 formatting, C26 utility types.
use crate::find::A;
use crate::sym::*;
use crate::tree::*;
use core::fmt::{self, Write};
use rowan::ast::{AstNode, AstPtr, SyntaxNodePtr};
use rowan::{GreenToken, NodeOrToken, SyntaxKind, SyntaxNode, TokenAtOffset, WalkEvent};
use serde::ser::{self, Serialize};

// ---- C24 ----

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    Map(Option<usize>),
    MapEnd,
    Seq(Option<usize>),
    SeqEnd,
    Tuple(usize),
    TupleEnd,
    Num(u64),
    Str(usize, usize), // into the text buffer
}
struct Rec {
    ev: Vec<Ev>,
    buf: Vec<u8>,
    /// fail at this event
    fail_at: usize,
}
impl Rec {
    fn put(&mut self, e: Ev) -> Result<(), Boom> {
        if self.ev.len() == self.fail_at {
            return Err(Boom);
        }
        self.ev.push(e);
        Ok(())
    }
    fn str(&mut self, s: &str) -> Result<(), Boom> {
        let a = self.buf.len();
        self.buf.extend_from_slice(s.as_bytes());
        let b = self.buf.len();
        self.put(Ev::Str(a, b))
    }
}
#[derive(Debug, PartialEq)]
struct Boom;
impl fmt::Display for Boom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("boom")
    }
}
impl std::error::Error for Boom {}
impl ser::Error for Boom {
    fn custom<T: fmt::Display>(_: T) -> Boom {
        fail("a custom serialization error");
        Boom
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => {
        $(fn $f(self, $(_: $t),*) -> Result<(), Boom> { fail(concat!("serializes as something else: ", stringify!($f))); Ok(()) })*
    };
}
impl<'a> ser::Serializer for &'a mut Rec {
    type Ok = ();
    type Error = Boom;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = ser::Impossible<(), Boom>;
    type SerializeTupleVariant = ser::Impossible<(), Boom>;
    type SerializeMap = Self;
    type SerializeStruct = ser::Impossible<(), Boom>;
    type SerializeStructVariant = ser::Impossible<(), Boom>;
    no! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_bytes(&[u8]);
        serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
        serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_u8(self, v: u8) -> Result<(), Boom> {
        self.put(Ev::Num(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<(), Boom> {
        self.put(Ev::Num(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<(), Boom> {
        self.put(Ev::Num(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<(), Boom> {
        self.put(Ev::Num(v))
    }
    fn serialize_str(self, v: &str) -> Result<(), Boom> {
        self.str(v)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Boom> {
        fail("serializes as an option");
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Boom> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Boom> {
        fail("serializes as a variant");
        Ok(())
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Boom> {
        self.put(Ev::Seq(n))?;
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, Boom> {
        self.put(Ev::Tuple(n))?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Boom> {
        self.put(Ev::Map(n))?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<ser::Impossible<(), Boom>, Boom> {
        fail("serializes as a tuple struct");
        Err(Boom)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<(), Boom>, Boom> {
        fail("serializes as a tuple variant");
        Err(Boom)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<ser::Impossible<(), Boom>, Boom> {
        fail("serializes as a struct");
        Err(Boom)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<(), Boom>, Boom> {
        fail("serializes as a struct variant");
        Err(Boom)
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<(), Boom> {
        let s = v.to_string();
        self.str(&s)
    }
}
impl<'a> ser::SerializeSeq for &'a mut Rec {
    type Ok = ();
    type Error = Boom;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Boom> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Boom> {
        self.put(Ev::SeqEnd)
    }
}
impl<'a> ser::SerializeTuple for &'a mut Rec {
    type Ok = ();
    type Error = Boom;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Boom> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Boom> {
        self.put(Ev::TupleEnd)
    }
}
impl<'a> ser::SerializeMap for &'a mut Rec {
    type Ok = ();
    type Error = Boom;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Boom> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Boom> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Boom> {
        self.put(Ev::MapEnd)
    }
}

/// A language whose kinds show as names.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Lang {}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Name(u16);
const NAMES: [&str; 4] = ["ROOT", "K", "a \"b\"", ""];
impl fmt::Debug for Name {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(NAMES[self.0 as usize % 4])
    }
}
impl rowan::Language for Lang {
    type Kind = Name;
    fn kind_from_raw(raw: SyntaxKind) -> Name {
        Name(raw.0)
    }
    fn kind_to_raw(k: Name) -> SyntaxKind {
        SyntaxKind(k.0)
    }
}

/// The serialized form, the dump and the text of a node of tokens of one byte
/// each (a name per kind), and an error at event `fail_at`.
pub fn wide_print(root: &SyntaxNode<Lang>, kinds: &[u16], text: &str, fail_at: usize) {
    let mut r = Rec { ev: vec![], buf: vec![], fail_at: usize::MAX };
    check(root.serialize(&mut r).is_ok(), "serialization of a wide node fails");
    let mut w = Walk { ev: &r.ev, buf: &r.buf, at: 0 };
    let mut dump: Vec<u8> = vec![];
    let head = |w: &mut Walk<'_>, k: u16, a: usize, b: usize| {
        match w.next() {
            Some(Ev::Map(n)) => check(n.is_none() || n == Some(3), "size of a serialized element"),
            _ => fail("an element is not serialized as a map"),
        }
        w.text("kind", "first key of a serialized element");
        w.text(NAMES[k as usize % 4], "serialized kind");
        w.text("text_range", "second key of a serialized element");
        w.is(Ev::Tuple(2), "serialized range");
        w.is(Ev::Num(a as u64), "serialized start");
        w.is(Ev::Num(b as u64), "serialized end");
        w.is(Ev::TupleEnd, "serialized range");
    };
    let line = |dump: &mut Vec<u8>, ind: &str, k: u16, a: usize, b: usize| {
        dump.extend_from_slice(ind.as_bytes());
        dump.extend_from_slice(NAMES[k as usize % 4].as_bytes());
        dump.push(b'@');
        num(a as u32, dump);
        dump.extend_from_slice(b"..");
        num(b as u32, dump);
    };
    let m = kinds.len();
    head(&mut w, 0, 0, m);
    line(&mut dump, "", 0, 0, m);
    dump.push(b'\n');
    w.text("children", "third key of a serialized node");
    match w.next() {
        Some(Ev::Seq(n)) => check(n.is_none() || n == Some(m), "length of the serialized children"),
        _ => fail("children are not serialized as a sequence"),
    }
    for (i, &k) in kinds.iter().enumerate() {
        head(&mut w, k, i, i + 1);
        w.text("text", "third key of a serialized token");
        w.text(&text[i..i + 1], "serialized text");
        w.is(Ev::MapEnd, "end of a serialized element");
        line(&mut dump, "  ", k, i, i + 1);
        dump.extend_from_slice(b" \"");
        dump.push(text.as_bytes()[i]);
        dump.extend_from_slice(b"\"\n");
    }
    w.is(Ev::SeqEnd, "end of the serialized children");
    w.is(Ev::MapEnd, "end of a serialized element");
    check(w.at == r.ev.len(), "serialization goes on after the element");
    let d = format!("{:#?}", root);
    check(d.as_bytes() == &dump[..], "dump of a wide node");
    check(format!("{}", root) == text && root.text() == text && root.green().to_string() == text, "text of a wide node");
    let mut q = Rec { ev: vec![], buf: vec![], fail_at };
    check(root.serialize(&mut q).is_err() && q.ev.len() == fail_at, "an error in a wide node");
    let mut n = Short { left: fail_at, ..Short::default() };
    check(write!(n, "{}", root).is_err() == (fail_at < text.len()), "writing a wide node");
}

/// The same for nodes nested in each other, a token of one byte in front.
pub fn deep_print(root: &SyntaxNode<Lang>, d: usize) {
    let mut r = Rec { ev: vec![], buf: vec![], fail_at: usize::MAX };
    check(root.serialize(&mut r).is_ok(), "serialization of a deep tree fails");
    check(r.ev.iter().filter(|e| matches!(e, Ev::Seq(_))).count() == d, "nodes of a serialized deep tree");
    check(r.ev.iter().filter(|e| matches!(e, Ev::MapEnd)).count() == 2 * d, "elements of a serialized deep tree");
    let mut dump: Vec<u8> = vec![];
    for i in 0..d {
        for tok in [false, true] {
            for _ in 0..i + tok as usize {
                dump.extend_from_slice(b"  ");
            }
            dump.extend_from_slice(if tok { b"K@" } else { b"ROOT@" });
            num(i as u32, &mut dump);
            dump.extend_from_slice(b"..");
            num(if tok { i as u32 + 1 } else { d as u32 }, &mut dump);
            dump.extend_from_slice(if tok { b" \"q\"\n" } else { b"\n" });
        }
    }
    check(format!("{:#?}", root).as_bytes() == &dump[..], "dump of a deep tree");
    check(root.to_string().len() == d && root.green().to_string().len() == d, "text of a deep tree");
}

struct Walk<'a> {
    ev: &'a [Ev],
    buf: &'a [u8],
    at: usize,
}
impl Walk<'_> {
    fn next(&mut self) -> Option<Ev> {
        let e = self.ev.get(self.at).copied();
        self.at += 1;
        e
    }
    fn is(&mut self, e: Ev, msg: &str) {
        check(self.next() == Some(e), msg);
    }
    fn text(&mut self, s: &str, msg: &str) {
        match self.next() {
            Some(Ev::Str(a, b)) => check(same_bytes(&self.buf[a..b], s.as_bytes()), msg),
            _ => fail(msg),
        }
    }
    fn elem(&mut self, t: &Tree, i: usize, base: u32) {
        match self.next() {
            Some(Ev::Map(n)) => check(n.is_none() || n == Some(3), "size of a serialized element"),
            _ => fail("an element is not serialized as a map"),
        }
        self.text("kind", "first key of a serialized element");
        self.text(NAMES[t.kind[i] as usize % 4], "serialized kind");
        self.text("text_range", "second key of a serialized element");
        self.is(Ev::Tuple(2), "serialized range");
        match self.next() {
            Some(Ev::Num(v)) => check(v == (t.start[i] - base) as u64, "serialized start"),
            _ => fail("serialized start"),
        }
        match self.next() {
            Some(Ev::Num(v)) => check(v == (t.end(i) - base) as u64, "serialized end"),
            _ => fail("serialized end"),
        }
        self.is(Ev::TupleEnd, "serialized range");
        if t.is_tok[i] {
            self.text("text", "third key of a serialized token");
            self.text(t.txt(i), "serialized text");
        } else {
            self.text("children", "third key of a serialized node");
            match self.next() {
                Some(Ev::Seq(n)) => check(n.is_none() || n == Some(t.nchildren(i)), "length of the serialized children"),
                _ => fail("children are not serialized as a sequence"),
            }
            let mut c = t.first_child(i);
            while c != NONE {
                self.elem(t, c, base);
                c = t.next_sib(c);
            }
            self.is(Ev::SeqEnd, "end of the serialized children");
        }
        self.is(Ev::MapEnd, "end of a serialized element");
    }
}

fn reach<L: rowan::Language>(t: &Tree, root: &SyntaxNode<L>, i: usize) -> rowan::SyntaxElement<L> {
    if i == 0 {
        return root.clone().into();
    }
    let p = reach(t, root, t.parent[i]).into_node().unwrap();
    p.children_with_tokens().nth(t.index(i)).unwrap()
}

/// The serialized form of any element of any tree, and errors at any point.
pub fn serde() {
    let mut t = Tree::sym(Shape { kind_bits: 0, sym_text: true, max_tok_len: param("len", 1), empty_tokens: true, ..Shape::new(param("n", 3) as usize) });
    for i in 0..t.n {
        t.kind[i] = (i % 4) as u16;
    }
    let l0 = live();
    {
        let g = t.green(0);
        let root = SyntaxNode::<Lang>::new_root(g.clone());
        let mutable = choose("mutable", 2) == 1;
        let root = if mutable { root.clone_for_update() } else { root };
        let i = choose("element", t.n as u64);
        let e = reach(&t, &root, i);
        let mut r = Rec { ev: vec![], buf: vec![], fail_at: usize::MAX };
        let ok = match &e {
            NodeOrToken::Node(n) => n.serialize(&mut r),
            NodeOrToken::Token(n) => n.serialize(&mut r),
        };
        check(ok.is_ok(), "serialization fails");
        let mut w = Walk { ev: &r.ev, buf: &r.buf, at: 0 };
        w.elem(&t, i, 0);
        check(w.at == r.ev.len(), "serialization goes on after the element");
        for e in &r.ev {
            match e {
                Ev::Num(v) => trace(*v),
                Ev::Str(_, b) => trace(*b as u64),
                _ => trace(77),
            }
        }
        cover(0);
        if choose("fail", 2) == 1 {
            let k = choose("at", r.ev.len() as u64);
            let mut q = Rec { ev: vec![], buf: vec![], fail_at: k };
            let ok = match &e {
                NodeOrToken::Node(n) => n.serialize(&mut q),
                NodeOrToken::Token(n) => n.serialize(&mut q),
            };
            check(ok.is_err(), "an error of the serializer is swallowed");
            check(q.ev.len() == k, "serialization goes on after an error");
            check(q.ev[..] == r.ev[..q.ev.len()], "serialization differs before an error");
            cover(1);
        }
    }
    end(l0);
}

// ---- C25 ----

/// Debug text of a string made of the given characters.
fn quote(s: &str, out: &mut Vec<u8>) {
    out.push(b'"');
    for &b in s.as_bytes() {
        match b {
            b'"' => out.extend_from_slice(b"\\\""),
            b'\\' => out.extend_from_slice(b"\\\\"),
            b'\n' => out.extend_from_slice(b"\\n"),
            _ => out.push(b),
        }
    }
    out.push(b'"');
}
fn num(v: u32, out: &mut Vec<u8>) {
    if v >= 10 {
        num(v / 10, out);
    }
    out.push(b'0' + (v % 10) as u8);
}
fn line(t: &Tree, i: usize, out: &mut Vec<u8>) {
    out.extend_from_slice(NAMES[t.kind[i] as usize % 4].as_bytes());
    out.push(b'@');
    num(t.start[i], out);
    out.extend_from_slice(b"..");
    num(t.end(i), out);
    if t.is_tok[i] {
        out.push(b' ');
        quote(t.txt(i), out);
    }
}
fn dump(t: &Tree, i: usize, depth: usize, out: &mut Vec<u8>) {
    for _ in 0..depth {
        out.extend_from_slice(b"  ");
    }
    line(t, i, out);
    out.push(b'\n');
    let mut c = t.first_child(i);
    while c != NONE {
        dump(t, c, depth + 1, out);
        c = t.next_sib(c);
    }
}
/// Texts of tokens (escaped and multi-byte characters included).
const CHARS4: [&[u8]; 4] = [b"", b"\"", b"x\n", "\u{e9}".as_bytes()];

/// `{:?}`, `{:#?}` and `{}` of any element.
pub fn debug() {
    let mut t = Tree::sym(Shape { kind_bits: 0, texts_tab: 4, texts: &CHARS4, ..Shape::new(param("n", 4) as usize) });
    for i in 0..t.n {
        t.kind[i] = (i % 4) as u16;
    }
    let l0 = live();
    {
        let g = t.green(0);
        let root = SyntaxNode::<Lang>::new_root(g.clone());
        let root = if param("mutable", 0) == 1 { root.clone_for_update() } else { root };
        let i = choose("element", t.n as u64);
        let e = reach(&t, &root, i);
        let mut want = vec![];
        let got = match choose("form", 4) {
            0 => {
                line(&t, i, &mut want);
                cover(0);
                match &e {
                    NodeOrToken::Node(n) => format!("{:?}", n),
                    NodeOrToken::Token(n) => format!("{:?}", n),
                }
            }
            1 => {
                cover(1);
                match &e {
                    NodeOrToken::Node(n) => {
                        dump(&t, i, 0, &mut want);
                        format!("{:#?}", n)
                    }
                    NodeOrToken::Token(_) => {
                        want.extend_from_slice(t.txt(i).as_bytes());
                        format!("{}", e)
                    }
                }
            }
            2 => {
                // green elements, texts and untyped cursors
                cover(3);
                let kind = format!("kind: {:?}", SyntaxKind(t.kind[i]));
                let s = t.txt(i);
                let s: &str = s.as_ref();
                let (w, r) = match &e {
                    NodeOrToken::Node(n) => match choose("what", 4) {
                        0 => (format!("GreenNode {{ {kind}, text_len: {}, n_children: {} }}", t.len[i], t.nchildren(i)), format!("{:?}", n.green())),
                        1 => (format!("GreenNode {{ {kind}, text_len: {}, n_children: {} }}", t.len[i], t.nchildren(i)), format!("{:?}", n.green().into_owned())),
                        2 => (format!("{s:?}"), format!("{:?}", n.text())),
                        _ => {
                            let end = t.start[i] + t.len[i];
                            let c: rowan::cursor::SyntaxNode = n.clone().into();
                            check(same_bytes(c.to_string().as_bytes(), s.as_bytes()), "Display of an untyped node");
                            (format!("SyntaxNode {{ {kind}, text_range: {}..{end} }}", t.start[i]), format!("{c:?}"))
                        }
                    },
                    NodeOrToken::Token(n) => match choose("what", 2) {
                        0 => (format!("GreenToken {{ {kind}, text: {s:?} }}"), format!("{:?}", n.green())),
                        _ => (format!("GreenToken {{ {kind}, text: {s:?} }}"), format!("{:?}", n.green().to_owned())),
                    },
                };
                want.extend_from_slice(w.as_bytes());
                r
            }
            _ => {
                cover(2);
                want.extend_from_slice(t.txt(i).as_bytes());
                match &e {
                    NodeOrToken::Node(n) => {
                        let a = n.to_string();
                        check(a == n.text().to_string(), "Display of a node and of its text differ");
                        check(a == n.green().to_string(), "Display of a node and of its green node differ");
                        a
                    }
                    NodeOrToken::Token(n) => {
                        check(n.green().to_string() == n.text(), "Display of a token and of its green token differ");
                        n.to_string()
                    }
                }
            }
        };
        check(same_bytes(got.as_bytes(), &want), "formatted element");
        trace(got.len() as u64);
    }
    end(l0);
}

/// Debug of long tokens: cut at a character boundary, for every mix of
/// character widths around the cut.
pub fn debug_long() {
    // a number of one-byte characters, then characters of any width
    let lead = choose("lead", 27);
    let mut s: Vec<u8> = vec![b'x'; lead];
    let more = choose("more", 1 + param("more", 4));
    for _ in 0..more {
        let c: &str = match choose("width", 4) {
            0 => "y",
            1 => "\u{e9}",
            2 => "\u{20ac}",
            _ => "\u{1d11e}",
        };
        s.extend_from_slice(c.as_bytes());
    }
    let text = unsafe { core::str::from_utf8_unchecked(&s) };
    let g = rowan::GreenNode::new(SyntaxKind(0), [GreenToken::new(SyntaxKind(1), text).into()]);
    let root = SyntaxNode::<Lang>::new_root(g);
    let t = root.first_token().unwrap();
    let Some(got) = catch(|| format!("{:?}", t)) else {
        fail("Debug of a token panics");
        return;
    };
    let mut want = vec![];
    want.extend_from_slice(b"K@0..");
    num(s.len() as u32, &mut want);
    want.extend_from_slice(b" \"");
    if s.len() < 25 {
        want.extend_from_slice(&s);
        cover(0);
    } else {
        let mut cut = 21;
        while cut < s.len() && (s[cut] & 0xc0) == 0x80 {
            cut += 1;
        }
        want.extend_from_slice(&s[..cut]);
        want.extend_from_slice(b" ...");
        if cut == 24 {
            cover(1);
        }
    }
    want.push(b'"');
    check(same_bytes(got.as_bytes(), &want), "Debug of a token");
    trace(got.len() as u64);
}

/// A writer that fails after some bytes.
#[derive(Default)]
struct Short {
    left: usize,
    got: usize,
    /// works again after one failure
    once: bool,
}
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            self.left = if self.once { usize::MAX } else { 0 };
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got += s.len();
        Ok(())
    }
}
fn write_form(w: &mut dyn Write, form: usize, root: &SyntaxNode<Lang>, e: &rowan::SyntaxElement<Lang>) -> fmt::Result {
    match (form, e) {
        (0, _) => write!(w, "{}", e),
        (1, NodeOrToken::Node(n)) => write!(w, "{:#?}", n),
        (2, NodeOrToken::Node(n)) => write!(w, "{}", n.text()),
        (3, NodeOrToken::Node(n)) => write!(w, "{}", n.green()),
        (3, NodeOrToken::Token(t)) => write!(w, "{}", t.green()),
        (_, NodeOrToken::Node(n)) => write!(w, "{:?}", n),
        (1, NodeOrToken::Token(t)) => write!(w, "{:?}", t),
        _ => write!(w, "{:?}", root.last_child_or_token()),
    }
}
/// Errors of the writer stop formatting and are reported.
pub fn fmt_errors() {
    // a text that is cut when shown with its kind is among them
    const TEXTS: [&[u8]; 3] = [b"a", b"", b"\"xxxxxxxxxxxxxxxxxxxx\xc3\xa9\xc3\xa9xx"];
    let shape = Shape { kind_bits: 0, texts_tab: param("texts", 0), texts: &TEXTS, ..Shape::new(param("n", 3) as usize) };
    let mut t = Tree::sym(shape);
    for i in 0..t.n {
        t.kind[i] = (i % 4) as u16;
    }
    let g = t.green(0);
    let root = SyntaxNode::<Lang>::new_root(g.clone());
    let form = choose("form", 5);
    let i = choose("element", t.n as u64);
    let e = reach(&t, &root, i);
    let mut whole = String::new();
    check(write_form(&mut whole, form, &root, &e).is_ok(), "formatting fails without an error of the writer");
    let full = whole.len();
    let left = choose("room", full as u64 + 1);
    let once = choose("once", 2) == 1;
    let mut w = Short { left, once, ..Short::default() };
    let r = write_form(&mut w, form, &root, &e);
    check(r.is_ok() == (left >= full), "an error of the writer is lost, or made up");
    check(w.got <= left, "formatting goes on after an error");
    cover(if r.is_ok() { 0 } else { 1 });
}

// ---- C26 ----

/// TokenAtOffset, NodeOrToken, WalkEvent and the conversions.
pub fn utility() {
    let a = any_u32("a");
    let b = any_u32("b");
    let d = any_u32("delta");
    match choose("what", 5) {
        0 => {
            let make = |k| match k {
                0 => TokenAtOffset::None,
                1 => TokenAtOffset::Single(a),
                _ => TokenAtOffset::Between(a, b),
            };
            let k = choose("shape", 3);
            let v = make(k);
            let model: &[u32] = match k {
                0 => &[],
                1 => &[a],
                _ => &[a, b],
            };
            check(v.clone().left_biased() == model.first().copied(), "left_biased");
            check(v.clone().right_biased() == model.last().copied(), "right_biased");
            // the function sees each token once, in order
            let calls = core::cell::Cell::new(0);
            let m = v.clone().map(|x| {
                check(calls.get() < model.len() && x == model[calls.get()], "TokenAtOffset::map out of order");
                calls.set(calls.get() + 1);
                x.wrapping_add(d)
            });
            check(calls.get() == model.len(), "TokenAtOffset::map leaves out a token");
            let mut it = v.clone();
            let mut im = m.clone();
            for j in 0..model.len() {
                check(it.size_hint() == (model.len() - j, Some(model.len() - j)), "size_hint of TokenAtOffset");
                check(it.len() == model.len() - j, "len of TokenAtOffset");
                check(it.next() == Some(model[j]), "TokenAtOffset yields another token");
                check(im.next() == Some(model[j].wrapping_add(d)), "TokenAtOffset::map");
            }
            check(it.size_hint() == (0, Some(0)), "size_hint of TokenAtOffset at its end");
            check(it.next().is_none() && it.next().is_none(), "TokenAtOffset yields too much");
            check(im.next().is_none(), "TokenAtOffset::map yields too much");
            check(matches!(v, TokenAtOffset::None) == (k == 0), "shape of TokenAtOffset");
            check(v.clone().count() == model.len(), "count of TokenAtOffset");
            check(v.last() == model.last().copied(), "last of TokenAtOffset");
            trace(a as u64);
            cover(0);
        }
        1 => {
            let node = choose("node", 2) == 1;
            let v: NodeOrToken<u32, u32> = if node { NodeOrToken::Node(a) } else { NodeOrToken::Token(a) };
            let w: NodeOrToken<u32, u32> = if choose("node2", 2) == 1 { NodeOrToken::Node(b) } else { NodeOrToken::Token(b) };
            check(v.as_node().copied() == if node { Some(a) } else { None }, "as_node");
            check(v.as_token().copied() == if node { None } else { Some(a) }, "as_token");
            check(v.into_node() == if node { Some(a) } else { None }, "into_node");
            check(v.into_token() == if node { None } else { Some(a) }, "into_token");
            check((v == w) == (v.as_node().is_some() == w.as_node().is_some() && a == b), "equality of NodeOrToken");
            cover(1);
        }
        2 => {
            let enter = choose("enter", 2) == 1;
            let v = if enter { WalkEvent::Enter(a) } else { WalkEvent::Leave(a) };
            match v.map(|x| x.wrapping_add(d)) {
                WalkEvent::Enter(x) => check(enter && x == a.wrapping_add(d), "WalkEvent::map"),
                WalkEvent::Leave(x) => check(!enter && x == a.wrapping_add(d), "WalkEvent::map"),
            }
            cover(2);
        }
        3 => {
            // elements and what they are made of
            let mut t = Tree::sym(Shape { kind_bits: 0, ..Shape::new(param("n", 3) as usize) });
            let g = t.green(0);
            let root = Node::new_root(g.clone());
            let i = choose("element", t.n as u64);
            let e = t.elem(&root, i);
            check(e.kind() == K(t.kind[i]), "kind of an element");
            check(e.text_range() == t.range(i), "range of an element");
            check(e.index() == if i == 0 { 0 } else { t.index(i) }, "index of an element");
            check(t.oid(e.parent()) == t.parent[i], "parent of an element");
            let mut q = if t.is_tok[i] { t.parent[i] } else { i };
            for x in e.ancestors() {
                check(q != NONE && t.id(&x) == q, "ancestors of an element");
                q = if q == NONE { NONE } else { t.parent[q] };
            }
            check(q == NONE, "ancestors of an element end too early");
            check(t.oeid(e.next_sibling_or_token()) == t.next_sib(i), "next sibling of an element");
            check(t.oeid(e.prev_sibling_or_token()) == t.prev_sib(i), "previous sibling of an element");
            check(e.to_string() == t.txt(i), "text of an element");
            let back: Elem = match &e {
                NodeOrToken::Node(n) => n.clone().into(),
                NodeOrToken::Token(n) => n.clone().into(),
            };
            check(back == e, "conversion of an element");
            let raw: rowan::cursor::SyntaxElement = match e.clone() {
                NodeOrToken::Node(n) => rowan::cursor::SyntaxNode::from(n).into(),
                NodeOrToken::Token(n) => rowan::cursor::SyntaxToken::from(n).into(),
            };
            check(raw.text_range() == t.range(i) && raw.kind() == SyntaxKind(t.kind[i]), "untyped element");
            let typed: Elem = match raw {
                NodeOrToken::Node(n) => Node::from(n).into(),
                NodeOrToken::Token(n) => Token::from(n).into(),
            };
            check(typed == e, "conversion to untyped elements and back");
            cover(3);
        }
        _ => {
            // pointers keep what they were made of
            let mut t = Tree::sym(Shape { kind_bits: 7, ..Shape::new(param("n", 3) as usize) });
            let g = t.green(0);
            let root = Node::new_root(g.clone());
            let i = choose("element", t.n as u64);
            assume(!t.is_tok[i]);
            let n = t.elem(&root, i).into_node().unwrap();
            let p = SyntaxNodePtr::new(&n);
            check(p.kind() == K(t.kind[i]), "kind of a pointer");
            check(p.text_range() == t.range(i), "range of a pointer");
            match p.cast::<A>() {
                Some(q) => {
                    check(t.kind[i] <= 99, "a pointer is cast to a type that does not fit");
                    check(q.syntax_node_ptr() == p && SyntaxNodePtr::from(q.clone()) == p, "a typed pointer points elsewhere");
                    check(q == AstPtr::new(&A::cast(n).unwrap()), "typed pointers to one node differ");
                }
                None => check(t.kind[i] > 99, "a pointer is not cast to a type that fits"),
            }
            cover(4);
        }
    }
}
