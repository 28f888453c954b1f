//! Other schemas: implementations of the crate's `Schema` traits whose content expressions,
//! marks and node kinds are given by tables, and documents over them as token sequences.
//! Nothing here uses the tree algorithms of the crate under test.
use derivative::Derivative;
use prosemirror::model::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::ops::RangeBounds;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

// ---- content expressions -----------------------------------------------------------
/// A content expression, in derivative form.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Ex {
    None,
    Empty,
    Ty(u8),
    Seq(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    Star(Box<Ex>),
}
use Ex::*;
fn seq(a: Ex, b: Ex) -> Ex {
    match (a, b) {
        (None, _) | (_, None) => None,
        (Empty, b) => b,
        (a, Empty) => a,
        (a, b) => Seq(Box::new(a), Box::new(b)),
    }
}
fn or(a: Ex, b: Ex) -> Ex {
    match (a, b) {
        (None, b) => b,
        (a, None) => a,
        (a, b) if a == b => a,
        (a, b) if a > b => or(b, a),
        (a, b) => Or(Box::new(a), Box::new(b)),
    }
}
fn star(a: Ex) -> Ex {
    match a {
        None | Empty => Empty,
        Star(x) => Star(x),
        a => Star(Box::new(a)),
    }
}
impl Ex {
    fn nullable(&self) -> bool {
        match self {
            None | Ty(_) => false,
            Empty | Star(_) => true,
            Seq(a, b) => a.nullable() && b.nullable(),
            Or(a, b) => a.nullable() || b.nullable(),
        }
    }
    fn after(&self, t: u8) -> Ex {
        match self {
            None | Empty => None,
            Ty(u) => {
                if *u == t {
                    Empty
                } else {
                    None
                }
            }
            Seq(a, b) => {
                let x = seq(a.after(t), (**b).clone());
                if a.nullable() {
                    or(x, b.after(t))
                } else {
                    x
                }
            }
            Or(a, b) => or(a.after(t), b.after(t)),
            Star(a) => seq(a.after(t), star((**a).clone())),
        }
    }
}
/// `title (para | rule)* note?`
fn parse(s: &str, name: &dyn Fn(&str) -> Vec<u8>) -> Ex {
    let mut toks: Vec<String> = vec![];
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            match toks.last_mut() {
                Some(l) if l.chars().all(|x| x.is_alphanumeric() || x == '_') => l.push(c),
                _ => toks.push(c.into()),
            }
        } else {
            toks.push(c.into());
        }
    }
    let toks: Vec<String> = toks.into_iter().filter(|t| t.trim() != "" || t == " ").collect();
    fn alt(t: &[String], i: &mut usize, name: &dyn Fn(&str) -> Vec<u8>) -> Ex {
        let mut e = cat(t, i, name);
        while *i < t.len() && t[*i] == "|" {
            *i += 1;
            e = or(e, cat(t, i, name));
        }
        e
    }
    fn cat(t: &[String], i: &mut usize, name: &dyn Fn(&str) -> Vec<u8>) -> Ex {
        let mut e = Empty;
        while *i < t.len() && t[*i] != "|" && t[*i] != ")" {
            if t[*i] == " " {
                *i += 1;
                continue;
            }
            let mut a = if t[*i] == "(" {
                *i += 1;
                let x = alt(t, i, name);
                assert_eq!(t[*i], ")");
                *i += 1;
                x
            } else {
                let x = name(&t[*i]).into_iter().fold(None, |e, n| or(e, Ty(n)));
                *i += 1;
                x
            };
            if *i < t.len() {
                match t[*i].as_str() {
                    "*" => {
                        a = star(a);
                        *i += 1;
                    }
                    "+" => {
                        a = seq(a.clone(), star(a));
                        *i += 1;
                    }
                    "?" => {
                        a = or(Empty, a);
                        *i += 1;
                    }
                    _ => {}
                }
            }
            e = seq(e, a);
        }
        e
    }
    let mut i = 0;
    let e = alt(&toks, &mut i, name);
    assert_eq!(i, toks.len(), "cannot read content expression {:?}", s);
    e
}

// ---- schemas -----------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Text,
    Leaf,
    Inner,
}
pub const DEAD: u8 = 255;
#[derive(Debug)]
pub struct Spec {
    pub name: &'static str,
    pub kind: Kind,
    pub inline: bool,
    /// mark types allowed on children
    pub marks: u8,
    /// attribute values to generate
    pub attrs: u8,
    /// may nodes of this type carry marks in generated documents?
    pub marked: bool,
    /// per state: valid end, next state per type
    pub dfa: Vec<(bool, Vec<u8>)>,
}
#[derive(Debug)]
pub struct Table {
    pub name: &'static str,
    pub specs: Vec<Spec>,
    pub mark_types: u8,
    /// texts to generate: characters with marks (as lists of type and value)
    pub texts: Vec<(&'static str, u16)>,
}
/// One node type: name, kind and flags, marks allowed inside, attribute values, content.
pub struct Row(pub &'static str, pub &'static str, pub u8, pub u8, pub &'static str);
impl Table {
    pub fn new(name: &'static str, mark_types: u8, rows: &[Row], groups: &[(&str, &str)], texts: &[(&'static str, u16)]) -> Table {
        let find = |n: &str| -> Vec<u8> {
            if let Some(i) = rows.iter().position(|r| r.0 == n) {
                return vec![i as u8];
            }
            let g = groups.iter().find(|g| g.0 == n).unwrap_or_else(|| panic!("no type {}", n));
            g.1.split(' ').map(|m| rows.iter().position(|r| r.0 == m).unwrap() as u8).collect()
        };
        let specs = rows
            .iter()
            .map(|r| {
                let e = parse(r.4, &find);
                let mut states = vec![e];
                let mut dfa = vec![];
                let mut i = 0;
                while i < states.len() {
                    let s = states[i].clone();
                    let next = (0..rows.len())
                        .map(|t| match s.after(t as u8) {
                            None => DEAD,
                            x => {
                                let k = states.iter().position(|y| *y == x).unwrap_or_else(|| {
                                    states.push(x);
                                    states.len() - 1
                                });
                                k as u8
                            }
                        })
                        .collect();
                    dfa.push((s.nullable(), next));
                    i += 1;
                    assert!(i < 200);
                }
                Spec {
                    name: r.0,
                    kind: match r.1.chars().next().unwrap() {
                        't' => Kind::Text,
                        'l' => Kind::Leaf,
                        _ => Kind::Inner,
                    },
                    inline: r.1.contains('i') || r.1.starts_with('t'),
                    marked: r.1.contains('m'),
                    marks: r.2,
                    attrs: r.3,
                    dfa,
                }
            })
            .collect();
        Table { name, specs, mark_types, texts: texts.to_vec() }
    }
    pub fn text_ty(&self) -> u8 {
        self.specs.iter().position(|s| s.kind == Kind::Text).unwrap() as u8
    }
    pub fn step(&self, ty: u8, st: u8, child: u8) -> u8 {
        if st == DEAD {
            DEAD
        } else {
            self.specs[ty as usize].dfa[st as usize].1[child as usize]
        }
    }
    pub fn ends(&self, ty: u8, st: u8) -> bool {
        st != DEAD && self.specs[ty as usize].dfa[st as usize].0
    }
    pub fn run(&self, ty: u8, kids: &[u8]) -> u8 {
        kids.iter().fold(0, |s, k| self.step(ty, s, *k))
    }
    pub fn compat(&self, a: u8, b: u8) -> bool {
        a == b || (0..self.specs.len()).any(|c| self.step(a, 0, c as u8) != DEAD && self.step(b, 0, c as u8) != DEAD)
    }
    pub fn allows(&self, ty: u8, marks: u16) -> bool {
        (0..8).all(|t| marks >> (2 * t) & 3 == 0 || self.specs[ty as usize].marks & 1 << t != 0)
    }
    pub fn inner(&self, ty: u8) -> bool {
        self.specs[ty as usize].kind == Kind::Inner
    }
}
static CURRENT: AtomicPtr<Table> = AtomicPtr::new(std::ptr::null_mut());
pub fn tab() -> &'static Table {
    unsafe { &*CURRENT.load(SeqCst) }
}
pub fn use_table(t: &'static Table) {
    CURRENT.store(t as *const Table as *mut Table, SeqCst);
}

// ---- the schema as the crate sees it -----------------------------------------------
pub struct Any;
impl Schema for Any {
    type Mark = Mk;
    type MarkType = MT;
    type Node = N;
    type NodeType = NT;
    type ContentMatch = CM;
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct NT(pub u8);
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct MT(pub u8);
impl MarkType for MT {}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Mk {
    pub t: u8,
    pub v: u8,
}
impl Mark<Any> for Mk {
    fn r#type(&self) -> MT {
        MT(self.t)
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct CM {
    pub ty: u8,
    pub st: u8,
}
fn range<R: RangeBounds<usize>>(r: &R, max: usize) -> (usize, usize) {
    use std::ops::Bound::*;
    let a = match r.start_bound() {
        Included(x) => *x,
        Excluded(x) => x + 1,
        Unbounded => 0,
    };
    let b = match r.end_bound() {
        Included(x) => x + 1,
        Excluded(x) => *x,
        Unbounded => max,
    };
    (a, b)
}
impl ContentMatch<Any> for CM {
    fn match_fragment_range<R: RangeBounds<usize>>(self, f: &Fragment<Any>, r: R) -> Option<Self> {
        let (a, b) = range(&r, f.child_count());
        let mut m = self;
        for c in &f.children()[a..b] {
            m = m.match_type(c.r#type())?;
        }
        Some(m)
    }
    fn valid_end(self) -> bool {
        tab().ends(self.ty, self.st)
    }
    fn match_type(self, t: NT) -> Option<Self> {
        match tab().step(self.ty, self.st, t.0) {
            DEAD => Option::None,
            st => Some(CM { ty: self.ty, st }),
        }
    }
}
impl NodeType<Any> for NT {
    fn compatible_content(self, other: Self) -> bool {
        tab().compat(self.0, other.0)
    }
    fn valid_content(self, f: &Fragment<Any>) -> bool {
        self.content_match().match_fragment(f).map_or(false, |m| m.valid_end())
            && f.children().iter().all(|c| c.marks().map_or(true, |m| self.allow_marks(m)))
    }
    fn allows_mark_type(self, m: MT) -> bool {
        tab().specs[self.0 as usize].marks & 1 << m.0 != 0
    }
    fn content_match(self) -> CM {
        CM { ty: self.0, st: 0 }
    }
    fn allow_marks(self, ms: &MarkSet<Any>) -> bool {
        ms.into_iter().all(|m| self.allows_mark_type(m.r#type()))
    }
    fn is_block(self) -> bool {
        !tab().specs[self.0 as usize].inline
    }
}
#[derive(Derivative, Debug, PartialEq, Serialize, Deserialize)]
#[derivative(Clone(bound = ""))]
pub struct Plain {
    pub ty: u8,
    pub attr: u8,
    #[serde(default)]
    pub marks: MarkSet<Any>,
}
/// A node of any of these schemas.
#[derive(Derivative, Debug, PartialEq, Serialize, Deserialize)]
#[derivative(Clone(bound = ""))]
#[serde(tag = "kind")]
pub enum N {
    Inner(AttrNode<Any, Plain>),
    Leaf(Leaf<Plain>),
    Text(TextNode<Any>),
}
impl Eq for N {}
impl From<TextNode<Any>> for N {
    fn from(t: TextNode<Any>) -> N {
        N::Text(t)
    }
}
impl Node<Any> for N {
    fn mark(&self, marks: MarkSet<Any>) -> N {
        let mut n = self.clone();
        match &mut n {
            N::Inner(i) => i.attrs.marks = marks,
            N::Leaf(l) => l.attrs.marks = marks,
            N::Text(t) => t.marks = marks,
        }
        n
    }
    fn copy<F: FnOnce(&Fragment<Any>) -> Fragment<Any>>(&self, map: F) -> N {
        match self {
            N::Inner(i) => N::Inner(i.copy(map)),
            n => n.clone(),
        }
    }
    fn text_node(&self) -> Option<&TextNode<Any>> {
        match self {
            N::Text(t) => Some(t),
            _ => Option::None,
        }
    }
    fn new_text_node(t: TextNode<Any>) -> N {
        N::Text(t)
    }
    fn text<A: Into<String>>(s: A) -> N {
        N::Text(TextNode { marks: MarkSet::default(), text: Text::from(s.into()) })
    }
    fn content(&self) -> Option<&Fragment<Any>> {
        match self {
            N::Inner(i) => Some(&i.content),
            _ => Option::None,
        }
    }
    fn marks(&self) -> Option<&MarkSet<Any>> {
        match self {
            N::Inner(i) => Some(&i.attrs.marks),
            N::Leaf(l) => Some(&l.attrs.marks),
            N::Text(t) => Some(&t.marks),
        }
    }
    fn r#type(&self) -> NT {
        match self {
            N::Inner(i) => NT(i.attrs.ty),
            N::Leaf(l) => NT(l.attrs.ty),
            N::Text(_) => NT(tab().text_ty()),
        }
    }
    fn is_block(&self) -> bool {
        self.r#type().is_block()
    }
}

// ---- tokens ------------------------------------------------------------------------
/// One position's worth of document: kind, type, attribute, marks and UTF-16 unit.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K {
    Close,
    Open { ty: u8, attr: u8, marks: u16 },
    Leaf { ty: u8, attr: u8, marks: u16 },
    Ch { unit: u16, marks: u16 },
}
pub fn low(k: K) -> bool {
    matches!(k, K::Ch { unit, .. } if (0xdc00..0xe000).contains(&unit))
}
pub fn child_ty(k: K) -> Option<(u8, u16)> {
    match k {
        K::Close => Option::None,
        K::Open { ty, marks, .. } | K::Leaf { ty, marks, .. } => Some((ty, marks)),
        K::Ch { marks, .. } => Some((tab().text_ty(), marks)),
    }
}
pub fn same_run(prev: Option<K>, k: K) -> bool {
    matches!((prev, k), (Some(K::Ch { marks: a, .. }), K::Ch { marks: b, .. }) if a == b)
}
pub fn marks_real(id: u16) -> MarkSet<Any> {
    let v: Vec<Mk> = (0..8)
        .filter(|t| id >> (2 * t) & 3 != 0)
        .map(|t| Mk { t: t as u8, v: (id >> (2 * t) & 3) as u8 })
        .collect();
    MarkSet::try_from(v).ok().unwrap()
}
pub fn marks_id(m: &MarkSet<Any>) -> Result<u16, String> {
    let mut id = 0u16;
    let mut last: Option<u8> = Option::None;
    for m in m {
        if last.map_or(false, |l| l >= m.t) {
            return Err("mark set out of order or with duplicates".into());
        }
        last = Some(m.t);
        id |= (m.v as u16) << (2 * m.t);
    }
    Ok(id)
}
pub fn mark_add(id: u16, m: &Mk) -> u16 {
    (id & !(3 << (2 * m.t))) | (m.v as u16) << (2 * m.t)
}
pub fn mark_remove(id: u16, m: &Mk) -> u16 {
    if id >> (2 * m.t) & 3 == m.v as u16 {
        id & !(3 << (2 * m.t))
    } else {
        id
    }
}
/// Build the real children for well nested tokens.
pub fn build(toks: &[K]) -> Vec<N> {
    let mut stack: Vec<(Option<Plain>, Vec<N>)> = vec![(Option::None, vec![])];
    let mut i = 0;
    while i < toks.len() {
        match toks[i] {
            K::Open { ty, attr, marks } => stack.push((Some(Plain { ty, attr, marks: marks_real(marks) }), vec![])),
            K::Close => {
                let (h, kids) = stack.pop().unwrap();
                let n = N::Inner(AttrNode { attrs: h.unwrap(), content: Fragment::from(kids) });
                stack.last_mut().unwrap().1.push(n);
            }
            K::Leaf { ty, attr, marks } => {
                let n = N::Leaf(Leaf { attrs: Plain { ty, attr, marks: marks_real(marks) } });
                stack.last_mut().unwrap().1.push(n);
            }
            K::Ch { marks, .. } => {
                let mut u = vec![];
                while let Some(K::Ch { unit, marks: m }) = toks.get(i) {
                    if *m != marks {
                        break;
                    }
                    u.push(*unit);
                    i += 1;
                }
                let n = N::Text(TextNode { marks: marks_real(marks), text: Text::from(String::from_utf16(&u).unwrap()) });
                stack.last_mut().unwrap().1.push(n);
                continue;
            }
        }
        i += 1;
    }
    assert_eq!(stack.len(), 1);
    stack.pop().unwrap().1
}
pub fn build_root(ty: u8, toks: &[K]) -> N {
    N::Inner(AttrNode { attrs: Plain { ty, attr: 0, marks: MarkSet::default() }, content: Fragment::from(build(toks)) })
}
#[derive(Default, Clone, Copy, Debug)]
pub struct Info {
    pub unmerged: bool,
    pub empty: bool,
}
pub fn read(n: &N, out: &mut Vec<K>, info: &mut Info) -> Result<usize, String> {
    let size = match n {
        N::Text(t) => {
            let marks = marks_id(&t.marks)?;
            let before = out.len();
            out.extend(t.text.as_str().encode_utf16().map(|unit| K::Ch { unit, marks }));
            let len = out.len() - before;
            if t.text.len_utf16() != len {
                return Err(format!("text {:?} reports {} units", t.text.as_str(), t.text.len_utf16()));
            }
            info.empty |= len == 0;
            len
        }
        N::Leaf(l) => {
            out.push(K::Leaf { ty: l.attrs.ty, attr: l.attrs.attr, marks: marks_id(&l.attrs.marks)? });
            1
        }
        N::Inner(i) => {
            out.push(K::Open { ty: i.attrs.ty, attr: i.attrs.attr, marks: marks_id(&i.attrs.marks)? });
            let c = read_frag(&i.content, out, info)?;
            out.push(K::Close);
            c + 2
        }
    };
    if n.node_size() != size {
        return Err(format!("{:?} reports size {}, occupies {}", n, n.node_size(), size));
    }
    Ok(size)
}
pub fn read_frag(f: &Fragment<Any>, out: &mut Vec<K>, info: &mut Info) -> Result<usize, String> {
    let mut sum = 0;
    let mut prev: Option<&N> = Option::None;
    for c in f.children() {
        sum += read(c, out, info)?;
        if let (Some(N::Text(a)), N::Text(b)) = (prev, c) {
            info.unmerged |= a.marks == b.marks;
        }
        prev = Some(c);
    }
    if f.size() != sum {
        return Err(format!("fragment {:?} reports size {}, occupies {}", f, f.size(), sum));
    }
    Ok(sum)
}
pub fn show(toks: &[K]) -> String {
    let mut s = String::new();
    for k in toks {
        let (ty, attr, m) = match *k {
            K::Close => {
                s.push_str("</>");
                continue;
            }
            K::Open { ty, attr, marks } => (ty, attr, marks),
            K::Leaf { ty, attr, marks } => (ty, attr, marks),
            K::Ch { unit, marks } => {
                match char::from_u32(unit as u32) {
                    Some(c) => s.push(c),
                    Option::None => s.push_str(&format!("\\u{:04x}", unit)),
                }
                if marks != 0 {
                    s.push_str(&format!("^{:x}", marks));
                }
                continue;
            }
        };
        let close = if matches!(k, K::Leaf { .. }) { "/" } else { "" };
        let a = if attr != 0 { format!(" {}", attr) } else { String::new() };
        let m = if m != 0 { format!(" ^{:x}", m) } else { String::new() };
        s.push_str(&format!("<{}{}{}{}>", tab().specs[ty as usize].name, a, m, close));
    }
    s
}
pub fn toks_json(t: &[K]) -> Value {
    Value::Array(
        t.iter()
            .map(|k| match *k {
                K::Close => json!([0]),
                K::Open { ty, attr, marks } => json!([1, ty, attr, marks]),
                K::Leaf { ty, attr, marks } => json!([2, ty, attr, marks]),
                K::Ch { unit, marks } => json!([3, unit, marks]),
            })
            .collect(),
    )
}
pub fn toks_from(v: &Value) -> Vec<K> {
    let n = |x: &Value, i: usize| x[i].as_u64().unwrap();
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| match n(x, 0) {
            0 => K::Close,
            1 => K::Open { ty: n(x, 1) as u8, attr: n(x, 2) as u8, marks: n(x, 3) as u16 },
            2 => K::Leaf { ty: n(x, 1) as u8, attr: n(x, 2) as u8, marks: n(x, 3) as u16 },
            _ => K::Ch { unit: n(x, 1) as u16, marks: n(x, 2) as u16 },
        })
        .collect()
}

// ---- generation --------------------------------------------------------------------
/// All valid, normal content token sequences of a root of type `root` of exactly `n` tokens.
pub fn contents(root: u8, n: usize) -> Vec<Vec<K>> {
    let t = tab();
    fn go(t: &Table, n: usize, out: &mut Vec<K>, stack: &mut Vec<(u8, u8)>, res: &mut Vec<Vec<K>>) {
        let left = n - out.len();
        if left < stack.len() - 1 {
            return;
        }
        let (ty, st) = *stack.last().unwrap();
        if left == 0 {
            if t.ends(ty, st) {
                res.push(out.clone());
            }
            return;
        }
        // close
        if stack.len() > 1 && t.ends(ty, st) {
            let top = stack.pop().unwrap();
            out.push(K::Close);
            go(t, n, out, stack, res);
            out.pop();
            stack.push(top);
        }
        for (s, m) in &t.texts {
            let len = s.encode_utf16().count();
            if len > left || !t.allows(ty, *m) {
                continue;
            }
            let first = K::Ch { unit: 0, marks: *m };
            let next = if same_run(out.last().copied(), first) { st } else { t.step(ty, st, t.text_ty()) };
            if next == DEAD {
                continue;
            }
            let old = stack.last().unwrap().1;
            stack.last_mut().unwrap().1 = next;
            let keep = out.len();
            out.extend(s.encode_utf16().map(|unit| K::Ch { unit, marks: *m }));
            go(t, n, out, stack, res);
            out.truncate(keep);
            stack.last_mut().unwrap().1 = old;
        }
        for c in 0..t.specs.len() as u8 {
            let sp = &t.specs[c as usize];
            let next = t.step(ty, st, c);
            if sp.kind == Kind::Text || next == DEAD || (sp.kind == Kind::Inner && left < 2) {
                continue;
            }
            for attr in 0..sp.attrs.max(1) {
                for marks in node_marks(t, ty, sp) {
                    let old = stack.last().unwrap().1;
                    stack.last_mut().unwrap().1 = next;
                    if sp.kind == Kind::Leaf {
                        out.push(K::Leaf { ty: c, attr, marks });
                        go(t, n, out, stack, res);
                        out.pop();
                    } else {
                        out.push(K::Open { ty: c, attr, marks });
                        stack.push((c, 0));
                        go(t, n, out, stack, res);
                        stack.pop();
                        out.pop();
                    }
                    stack.last_mut().unwrap().1 = old;
                }
            }
        }
    }
    let mut res = vec![];
    go(t, n, &mut vec![], &mut vec![(root, 0)], &mut res);
    res
}
/// The marks generated on a node below a parent: none, and one allowed mark.
fn node_marks(t: &Table, parent: u8, sp: &Spec) -> Vec<u16> {
    let mut v = vec![0];
    if sp.marked {
        v.extend(t.texts.iter().map(|x| x.1).filter(|m| *m != 0 && t.allows(parent, *m)).take(1));
    }
    v
}
/// All well nested sequences of up to `max` tokens, valid or not.
pub fn wild(max: usize) -> Vec<Vec<K>> {
    let t = tab();
    fn go(t: &Table, max: usize, out: &mut Vec<K>, open: usize, res: &mut Vec<Vec<K>>) {
        if open == 0 {
            res.push(out.clone());
        }
        let left = max - out.len();
        if left < open || left == 0 {
            return;
        }
        if open > 0 {
            out.push(K::Close);
            go(t, max, out, open - 1, res);
            out.pop();
        }
        if left > open {
            for (s, m) in t.texts.iter().take(2) {
                if s.len() == 1 {
                    out.push(K::Ch { unit: s.as_bytes()[0] as u16, marks: *m });
                    go(t, max, out, open, res);
                    out.pop();
                }
            }
        }
        for (c, sp) in t.specs.iter().enumerate() {
            let ty = c as u8;
            match sp.kind {
                Kind::Leaf if left > open => {
                    out.push(K::Leaf { ty, attr: 0, marks: 0 });
                    go(t, max, out, open, res);
                    out.pop();
                }
                Kind::Inner if left >= open + 2 => {
                    out.push(K::Open { ty, attr: 0, marks: 0 });
                    go(t, max, out, open + 1, res);
                    out.pop();
                }
                _ => {}
            }
        }
    }
    let mut res = vec![];
    go(t, max, &mut vec![], 0, &mut res);
    res
}
