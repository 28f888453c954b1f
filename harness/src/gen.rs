//! Exhaustive generation of documents, fragments and slices up to a size.
use crate::refm::*;
use crate::tok::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

/// The alphabet documents are built from.
#[derive(Clone)]
pub struct Palette {
    pub name: &'static str,
    /// inline atoms: characters (one or two tokens), images, hard breaks
    pub atoms: Vec<T>,
    pub paragraph: bool,
    pub headings: Vec<u8>,
    pub code: Vec<&'static str>,
    pub quote: bool,
    pub bullet: Vec<bool>,
    pub ordered: Vec<(usize, bool)>,
    pub rule: bool,
}
impl Palette {
    pub fn new(name: &'static str, atoms: Vec<T>) -> Palette {
        Palette {
            name,
            atoms,
            paragraph: true,
            headings: vec![],
            code: vec![],
            quote: false,
            bullet: vec![],
            ordered: vec![],
            rule: false,
        }
    }
}

type Seqs = Rc<Vec<Vec<Tok>>>;
pub struct Gen {
    pal: Palette,
    atoms: Vec<(Ty, bool, Vec<Tok>)>,
    memo: HashMap<(Ty, bool, usize), Seqs>,
    nodes: HashMap<(Ty, usize), Seqs>,
}
impl Gen {
    pub fn new(pal: &Palette) -> Gen {
        let atoms = pal
            .atoms
            .iter()
            .map(|a| {
                let mut v = vec![];
                a.push_toks(&mut v);
                let marked = matches!(&a.head, Head::Text(_, m) if !m.is_empty());
                (a.ty(), marked, v)
            })
            .collect();
        Gen {
            pal: pal.clone(),
            atoms,
            memo: HashMap::new(),
            nodes: HashMap::new(),
        }
    }
    fn heads(&self, ty: Ty) -> Vec<Head> {
        match ty {
            Ty::Paragraph if self.pal.paragraph => vec![Head::Paragraph],
            Ty::Heading => self.pal.headings.iter().map(|l| Head::Heading(*l)).collect(),
            Ty::CodeBlock => self
                .pal
                .code
                .iter()
                .map(|s| Head::CodeBlock(s.to_string()))
                .collect(),
            Ty::Blockquote if self.pal.quote => vec![Head::Blockquote],
            Ty::BulletList => self.pal.bullet.iter().map(|b| Head::BulletList(*b)).collect(),
            Ty::OrderedList => self
                .pal
                .ordered
                .iter()
                .map(|(o, b)| Head::OrderedList(*o, *b))
                .collect(),
            Ty::ListItem => vec![Head::ListItem],
            Ty::HorizontalRule if self.pal.rule => vec![Head::HorizontalRule],
            _ => vec![],
        }
    }
    /// all nodes of this type and exactly this size
    pub fn nodes(&mut self, ty: Ty, size: usize) -> Seqs {
        if let Some(s) = self.nodes.get(&(ty, size)) {
            return s.clone();
        }
        let mut out = vec![];
        if ty.leaf() {
            if size == 1 {
                for h in self.heads(ty) {
                    out.push(vec![head_tok(&h)]);
                }
            }
        } else if size >= 2 {
            let heads = self.heads(ty);
            if !heads.is_empty() {
                let inner = self.content(ty, size - 2);
                for h in heads {
                    for c in inner.iter() {
                        let mut v = Vec::with_capacity(size);
                        v.push(head_tok(&h));
                        v.extend_from_slice(c);
                        v.push(CLOSE);
                        out.push(v);
                    }
                }
            }
        }
        let r = Rc::new(out);
        self.nodes.insert((ty, size), r.clone());
        r
    }
    /// all valid contents of a node of type `ty` of exactly this size
    pub fn content(&mut self, ty: Ty, size: usize) -> Seqs {
        if size == 0 {
            return Rc::new(if needs_child(ty) { vec![] } else { vec![vec![]] });
        }
        self.rest(ty, false, size)
    }
    /// non-empty continuations of content
    fn rest(&mut self, ty: Ty, has: bool, size: usize) -> Seqs {
        if let Some(s) = self.memo.get(&(ty, has, size)) {
            return s.clone();
        }
        let mut out = vec![];
        let inline = matches!(ty, Ty::Paragraph | Ty::Heading | Ty::CodeBlock);
        for n in 1..=size {
            let mut firsts: Vec<Vec<Tok>> = vec![];
            if inline {
                for (aty, marked, toks) in &self.atoms {
                    if toks.len() == n && accepts(ty, has, *aty) && (!marked || ty.marks_ok()) {
                        firsts.push(toks.clone());
                    }
                }
            } else {
                for c in ALL_TY {
                    if accepts(ty, has, c) {
                        firsts.extend(self.nodes(c, n).iter().cloned());
                    }
                }
            }
            if firsts.is_empty() {
                continue;
            }
            if n == size {
                out.extend(firsts);
            } else {
                let rest = self.rest(ty, true, size - n);
                for f in &firsts {
                    for r in rest.iter() {
                        let mut v = f.clone();
                        v.extend_from_slice(r);
                        out.push(v);
                    }
                }
            }
        }
        let r = Rc::new(out);
        self.memo.insert((ty, has, size), r.clone());
        r
    }
    /// all valid documents with content size up to `max`
    pub fn docs(&mut self, max: usize) -> Vec<T> {
        let mut v = vec![];
        for n in 1..=max {
            for c in self.content(Ty::Doc, n).iter() {
                v.push(toks_to_tree(Head::Doc, c).unwrap());
            }
        }
        v
    }
}

pub fn docs(pal: &Palette, max: usize) -> Vec<T> {
    Gen::new(pal).docs(max)
}

/// All slices that can be cut from these documents, smallest first, without repetition.
pub fn slices_of(docs: &[T], max_len: usize) -> Vec<S> {
    let mut seen: HashSet<(Vec<Tok>, usize, usize)> = HashSet::new();
    let mut out: BTreeMap<(usize, usize), Vec<S>> = BTreeMap::new();
    for d in docs {
        let c = DocCtx::new(d);
        for from in 0..=c.len() {
            for to in from + 1..=c.len() {
                if c.mid(from) || c.mid(to) {
                    continue;
                }
                for parents in [false, true] {
                    let (v, os, oe) = ref_slice(&c, from, to, parents);
                    if v.len() > max_len {
                        continue;
                    }
                    let n = (v.len(), os + oe);
                    if seen.insert((v.clone(), os, oe)) {
                        out.entry(n).or_default().push(S {
                            kids: toks_to_kids(&v).unwrap(),
                            os,
                            oe,
                        });
                    }
                }
            }
        }
    }
    let mut v = vec![S::empty()];
    v.extend(out.into_iter().flat_map(|x| x.1));
    v
}

// ---- the alphabets used by the checks ----------------------------------------------
pub const EMOJI: &str = "\u{1F60A}";

/// block structure, one letter of text
pub fn pal_struct() -> Palette {
    Palette {
        quote: true,
        bullet: vec![false],
        ..Palette::new("structure", vec![text("a")])
    }
}
/// every block type once, one letter of text
pub fn pal_blocks() -> Palette {
    Palette {
        headings: vec![1],
        code: vec![""],
        quote: true,
        bullet: vec![false],
        ordered: vec![(1, false)],
        rule: true,
        ..Palette::new("blocks", vec![text("a")])
    }
}
/// blocks with different attributes
pub fn pal_attrs() -> Palette {
    Palette {
        headings: vec![1, 3],
        code: vec!["", "rust"],
        quote: false,
        bullet: vec![false, true],
        ordered: vec![(1, false), (7, true)],
        rule: false,
        ..Palette::new("attributes", vec![text("a")])
    }
}
/// inline content: plain, marked, multi-byte and astral characters, leaves
pub fn pal_inline() -> Palette {
    Palette {
        headings: vec![2],
        code: vec!["x"],
        ..Palette::new(
            "inline",
            vec![
                text("a"),
                mtext("b", &[M::Em]),
                text(EMOJI),
                text("\u{e9}"),
                img("s", "t", "u"),
                br(),
            ],
        )
    }
}
/// marks: combinations and two links
pub fn pal_marks() -> Palette {
    Palette {
        code: vec![""],
        ..Palette::new(
            "marks",
            vec![
                text("a"),
                mtext("a", &[M::Em]),
                mtext("a", &[M::Strong]),
                mtext("a", &[M::Strong, M::Em]),
                mtext("a", &[link("x")]),
                mtext("a", &[M::Em, link("y")]),
                br(),
            ],
        )
    }
}
/// small inline palette
pub fn pal_two() -> Palette {
    Palette::new("two", vec![text("a"), mtext("b", &[M::Em])])
}

/// Families of larger documents, for effects that need length, width or depth.
pub fn families(scale: usize) -> Vec<T> {
    let mut v = vec![];
    let letters: Vec<char> = "abcdefghijklmnopqrstuvwxyz".chars().collect();
    let word = |n: usize| -> String { (0..n).map(|i| letters[i % 26]).collect() };
    // long texts
    for n in [5, 8, 9, 16, 17, 31, 33, 64, 70] {
        if n <= 8 * scale {
            v.push(doc(vec![ps(&word(n))]));
            // alternate one, two, three and four byte characters
            let s: String = (0..n)
                .map(|i| ['a', '\u{e9}', '\u{20ac}', '\u{1F60A}'][i % 4])
                .collect();
            v.push(doc(vec![ps(&s)]));
        }
    }
    // many children of different sizes
    for n in 2..=3 * scale {
        v.push(doc((0..n).map(|i| ps(&word(i % 4))).collect()));
        v.push(doc(vec![ul((0..n)
            .map(|i| li(vec![ps(&word(i % 3))]))
            .collect())]));
        v.push(doc(vec![p((0..n)
            .map(|i| mtext(&word(1 + i % 3), if i % 2 == 0 { &[] } else { &[M::Em] }))
            .collect())]));
        v.push(doc((0..n)
            .map(|i| match i % 5 {
                0 => ps("ab"),
                1 => hr(),
                2 => h(1 + (i % 6) as u8, vec![text("c")]),
                3 => cb("rs", vec![text("x y")]),
                _ => bq(vec![ps(""), ps("d")]),
            })
            .collect()));
        v.push(doc(vec![p((0..n)
            .map(|i| match i % 4 {
                0 => text("a"),
                1 => img("s", "", ""),
                2 => mtext("b", &[M::Strong, link("l")]),
                _ => br(),
            })
            .collect())]));
    }
    // deep nesting
    for n in 1..=2 * scale {
        let mut x = ps("ab");
        for _ in 0..n {
            x = bq(vec![x]);
        }
        v.push(doc(vec![x.clone()]));
        v.push(doc(vec![x.clone(), ps("c"), x.clone()]));
        let mut y = ps("ab");
        for i in 0..n {
            y = match i % 3 {
                0 => bq(vec![y, ps("z")]),
                1 => ul(vec![li(vec![ps("m"), y])]),
                _ => ol(i, vec![li(vec![ps(""), y]), li(vec![ps("n")])]),
            };
        }
        v.push(doc(vec![y]));
    }
    v
}

// ---- values: what texts, marks and attributes can hold ------------------------------
/// Representatives of every kind of character there is to treat specially.
pub fn value_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..0x80).map(|b| b as char).collect();
    v.extend(VALUE_CHARS);
    v
}
/// Beyond ASCII: last and first of each encoded length, spaces, joiners, marks, letters that
/// change length with case, private use, both halves of the astral planes.
pub const VALUE_CHARS: [char; 43] = [
    '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{df}', '\u{e9}', '\u{ff}', '\u{130}', '\u{131}', '\u{301}', '\u{3a9}',
    '\u{5d0}', '\u{7ff}', '\u{800}', '\u{e01}', '\u{1100}', '\u{1e9e}', '\u{2003}', '\u{200b}', '\u{200d}', '\u{2028}',
    '\u{20ac}', '\u{3000}', '\u{4e00}', '\u{ac00}', '\u{d7ff}', '\u{e000}', '\u{fb01}', '\u{feff}', '\u{fffd}',
    '\u{ffff}', '\u{10000}', '\u{1F60A}', '\u{10ffff}', '\u{1161}', '\u{202e}', '\u{20e3}', '\u{fe0f}', '\u{1f1e9}',
    '\u{1f3fb}', '\u{1f468}', '\u{e0101}', '\u{e0067}',
];
/// Blocks of 4096 characters: the first two planes, where every character with a special role
/// is, and what is left of those on the others; or all of them.
pub fn char_blocks(all: bool) -> Vec<u32> {
    if all {
        (0..0x110).collect()
    } else {
        (0..0x20).chain([0x2f, 0xe0, 0x10f]).collect()
    }
}
pub fn block_chars(block: u32) -> impl Iterator<Item = char> {
    (block << 12..(block + 1) << 12).filter_map(char::from_u32)
}
/// Characters that do something to the one before or after them, with some to do it to.
const JOINERS: [char; 16] = [
    'e', '\u{301}', '\u{fe0f}', '\u{200d}', '\u{1f1e9}', '\u{1f1ea}', '\u{1f468}', '\u{1f3fb}', '\r', '\n', ' ',
    '\u{1100}', '\u{1161}', '\u{11a8}', '\u{20e3}', '0',
];
/// Two or three special characters in a row.
pub fn char_sequences() -> Vec<String> {
    let vs = value_chars();
    let mut v = vec![];
    for a in &vs {
        for b in &vs {
            v.push([*a, *b].iter().collect());
        }
    }
    for a in &JOINERS {
        for b in &JOINERS {
            for c in &JOINERS {
                v.push([*a, *b, *c].iter().collect());
            }
        }
    }
    v
}
/// All subsets of strong, em, code, each without link and with one of these.
pub fn mark_subsets(links: &[M]) -> Vec<Vec<M>> {
    let mut v = vec![];
    for b in 0..8 {
        for l in std::iter::once(None).chain(links.iter().map(Some)) {
            let mut m = vec![];
            if b & 1 != 0 {
                m.push(M::Strong);
            }
            if b & 2 != 0 {
                m.push(M::Em);
            }
            if b & 4 != 0 {
                m.push(M::Code);
            }
            m.extend(l.cloned());
            v.push(m);
        }
    }
    v
}
pub fn value_links() -> Vec<M> {
    let l = |h: &str, t: &str| M::Link(h.into(), t.into());
    vec![l("x", ""), l("y", ""), l("x", "t"), l("", ""), l("x/", ""), l("X", ""), l("x", "T"), l("t", "x")]
}
/// Small documents over all representative values of one dimension at a time.
pub fn value_docs() -> Vec<T> {
    let mut v = vec![];
    for c in value_chars() {
        let s = c.to_string();
        v.push(doc(vec![ps(&s)]));
        v.push(doc(vec![ps(&format!("x{}y", c))]));
        v.push(doc(vec![p(vec![mtext(&s, &[M::Em]), text(&s), br()])]));
        v.push(doc(vec![cb("", vec![text(&s)])]));
        v.push(doc(vec![ps("a"), ps(&format!("{}b", c))]));
        v.push(doc(vec![ps(&format!("a{}", c)), ps("b")]));
    }
    for l in [0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 127, 128, 254, 255] {
        v.push(doc(vec![h(l, vec![text("ab")]), h(l, vec![])]));
        v.push(doc(vec![h(l, vec![text("a")]), ps("b"), h(l ^ 1, vec![text("c")])]));
    }
    for n in [0, 1, 2, 3, 7, 9, 10, 99, 100, 255, 256, 1000, 65535, 65536, 1 << 20, u32::MAX as usize, usize::MAX] {
        for tight in [false, true] {
            let list = |k| t(Head::OrderedList(n, tight), k);
            v.push(doc(vec![list(vec![li(vec![ps("a")]), li(vec![ps("b")])])]));
            v.push(doc(vec![list(vec![li(vec![ps("a")])]), list(vec![li(vec![ps("b")])]), ps("c")]));
        }
    }
    for tight in [false, true] {
        let list = |k| t(Head::BulletList(tight), k);
        v.push(doc(vec![list(vec![li(vec![ps("a")])]), list(vec![li(vec![ps("b"), list(vec![li(vec![ps("")])])])])]));
    }
    for s in ["", " ", "rust", "rust,no_run", "a b", "\u{e9}\u{1F60A}", "x/", "X"] {
        v.push(doc(vec![cb(s, vec![text("ab")]), cb(s, vec![])]));
        v.push(doc(vec![cb(s, vec![text("a")]), ps("b"), cb("other", vec![text("c")])]));
    }
    for s in ["", "s", "s/", "S"] {
        for a in ["", "a", "\u{1F60A}"] {
            for ti in ["", "t", "a"] {
                let i = img(s, a, ti);
                v.push(doc(vec![p(vec![text("a"), i.clone(), i.clone(), text("b")]), p(vec![i])]));
            }
        }
    }
    v
}
/// Every pair of mark sets on neighbouring texts, and with something between them.
pub fn mark_pair_docs() -> Vec<T> {
    let links = value_links();
    let sets = mark_subsets(&links[..3]);
    let mut v = vec![];
    for a in &sets {
        for b in &sets {
            if a != b {
                v.push(doc(vec![p(vec![mtext("ab", a), mtext("c", b)])]));
            }
            v.push(doc(vec![p(vec![mtext("a", a), br(), mtext("b", b)])]));
            v.push(doc(vec![p(vec![mtext("a", a)]), p(vec![mtext("b", b)])]));
        }
    }
    for a in &links {
        for b in &links {
            let (a, b) = ([a.clone()], [b.clone()]);
            if a != b {
                v.push(doc(vec![p(vec![mtext("ab", &a), mtext("c", &b)])]));
            }
            v.push(doc(vec![p(vec![mtext("a", &a), br(), mtext("b", &b)]), p(vec![mtext("a", &b)])]));
        }
    }
    v
}
/// Sizes around powers of two and other thresholds: width, depth and length.
pub fn size_docs(big: bool) -> Vec<T> {
    let mut v = vec![];
    let n: &[usize] = if big { &[7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65] } else { &[8, 9, 12, 17, 33] };
    for &n in n {
        v.push(doc((0..n).map(|i| ps(["", "a"][i % 2])).collect()));
        v.push(doc(vec![ul((0..n).map(|i| li(vec![ps(["a", ""][i % 2])])).collect())]));
        v.push(doc(vec![p((0..n).map(|i| mtext("a", [&[][..], &[M::Em][..]][i % 2])).collect())]));
        v.push(doc(vec![p((0..n).map(|i| [text("a"), br()][i % 2].clone()).collect())]));
        v.push(doc(vec![ps(&"ab\u{e9}".repeat((n + 2) / 3))]));
        v.push(doc(vec![ps(&EMOJI.repeat(n / 2))]));
    }
    let d: &[usize] = if big { &[4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33] } else { &[5, 7, 9, 17] };
    for &n in d {
        let nest = |x: T| (0..n).fold(x, |x, _| bq(vec![x]));
        v.push(doc(vec![nest(ps("ab"))]));
        v.push(doc(vec![nest(ps("a")), nest(ps("b"))]));
        v.push(doc(vec![(0..n / 2).fold(ps("a"), |x, _| ul(vec![li(vec![ps(""), x])]))]));
    }
    v
}
/// Slices over all representative values.
pub fn value_slices() -> Vec<S> {
    let s = |kids: Vec<T>, o: usize| S { kids, os: o, oe: o };
    let mut v = vec![];
    for c in value_chars() {
        let x = c.to_string();
        v.push(s(vec![text(&x)], 0));
        v.push(s(vec![mtext(&x, &[M::Em])], 0));
        v.push(s(vec![ps(&x)], 1));
    }
    v.extend(attr_slices());
    v
}
/// Slices over marks and attributes.
pub fn attr_slices() -> Vec<S> {
    let s = |kids: Vec<T>, o: usize| S { kids, os: o, oe: o };
    let mut v = vec![];
    for m in mark_subsets(&value_links()[..3]) {
        v.push(s(vec![mtext("z", &m)], 0));
    }
    for l in value_links() {
        v.push(s(vec![mtext("z", &[l])], 0));
    }
    for l in [0, 1, 2, 6, 7, 128, 255] {
        v.push(s(vec![h(l, vec![text("z")])], 0));
        v.push(s(vec![h(l, vec![text("z")]), h(l, vec![])], 1));
    }
    for n in [0, 1, 2, 256, usize::MAX] {
        v.push(s(vec![ol(n, vec![li(vec![ps("z")])])], 0));
        v.push(s(vec![ol(n, vec![li(vec![ps("z")])]), ol(n, vec![li(vec![ps("z")])])], 1));
        v.push(s(vec![ol(n, vec![li(vec![ps("z")])]), ol(n, vec![li(vec![ps("z")])])], 3));
    }
    for x in ["", "rust", "x/"] {
        v.push(s(vec![cb(x, vec![text("z")])], 0));
        v.push(s(vec![cb(x, vec![text("z")]), cb(x, vec![])], 1));
        v.push(s(vec![img(x, "", "")], 0));
        v.push(s(vec![img("s", x, "")], 0));
        v.push(s(vec![img("s", "", x)], 0));
    }
    v
}
/// A few links next to each other and next to other marks.
pub fn pal_links() -> Palette {
    Palette::new(
        "links",
        vec![
            text("a"),
            mtext("a", &[link("x")]),
            mtext("a", &[link("y")]),
            mtext("a", &[M::Link("x".into(), "t".into())]),
            mtext("a", &[M::Strong, link("x")]),
            mtext("a", &[M::Code, link("y")]),
            mtext("a", &[M::Code]),
        ],
    )
}
/// All documents of the value dimensions.
pub fn all_values(big: bool) -> Vec<T> {
    let mut seen = HashSet::new();
    let mut v = value_docs();
    v.extend(mark_pair_docs());
    v.extend(docs(&pal_links(), if big { 6 } else { 5 }));
    v.extend(size_docs(big));
    v.retain(|d| seen.insert(d.content_toks()));
    v
}

/// Marked and unmarked texts of every length up to `n` next to each other, characters of
/// every width.
pub fn length_docs(n: usize) -> Vec<T> {
    let w = |n: usize, k: usize| -> String {
        (0..n)
            .map(|i| [['a', 'b', ' ', 'c', '.'], ['\u{e9}', 'x', '\u{20ac}', 'y', '\u{df}'], ['\u{1F60A}', 'q', ' ', '\u{10000}', '\n']][k][i % 5])
            .collect()
    };
    let mut v = vec![];
    for a in 1..=n {
        for b in 0..=n {
            for k in 0..3 {
                let (x, y) = (w(a, k), w(b.max(1), k));
                if b == 0 {
                    v.push(doc(vec![p(vec![mtext(&x, &[M::Em])])]));
                    v.push(doc(vec![p(vec![text(&x)]), h(2, vec![mtext(&x, &[M::Strong, link("x")])])]));
                } else {
                    v.push(doc(vec![p(vec![mtext(&x, &[M::Em]), text(&y)])]));
                    v.push(doc(vec![bq(vec![p(vec![text(&x), mtext(&y, &[M::Strong, link("x")])])])]));
                }
            }
        }
    }
    v
}
/// Documents past the sizes that fit into one or two bytes.
pub fn huge_docs() -> Vec<T> {
    let mut v = vec![];
    for n in [130, 258, 1030, 65_540] {
        v.push(doc(vec![ps(&"a".repeat(n))]));
        v.push(doc(vec![p(vec![text("b"), mtext(&"\u{e9}\u{1F60A}".repeat(n / 3), &[M::Em]), text("c")]), ps("d")]));
    }
    for n in [130, 258, 700] {
        v.push(doc((0..n).map(|i| ps(["a", ""][i % 2])).collect()));
        v.push(doc(vec![ps("x"), p((0..n).map(|i| mtext("a", [&[][..], &[M::Em][..]][i % 2])).collect()), hr()]));
    }
    for n in [40, 70, 130] {
        v.push(doc(vec![ps("x"), (0..n).fold(ps("ab"), |x, _| bq(vec![x])), ps("y")]));
    }
    v
}
/// Documents with more children, longer texts and deeper nesting than can be enumerated,
/// built so that an effect at a limit (of a count, a length, a size, a depth) shows: children
/// of very different sizes, in front or at the back, neighbours that merge when something
/// between them goes, marks on everything.
pub fn large_docs(big: bool) -> Vec<T> {
    let mut v = vec![];
    let a = |n: usize| "a".repeat(n);
    let em = [M::Em];
    let widths: &[usize] = if big { &[20, 37, 70, 101, 130, 260, 515, 1030] } else { &[20, 37, 70, 130, 260] };
    for &n in widths {
        let quiet = |i: usize| ps(["", "a"][i % 2]);
        // one child much longer than the others, first, last and in the middle
        for at in [0, n / 2, n - 1] {
            v.push(doc((0..n).map(|i| if i == at { ps(&a(150)) } else { quiet(i) }).collect()));
        }
        v.push(doc((0..n).map(|i| if i == 0 { ul((0..20).map(|_| li(vec![ps("a")])).collect()) } else { quiet(i) }).collect()));
        // every kind of child, sizes all over
        let mixed = |i: usize| match i * 7 % 11 {
            0 => hr(),
            1 => h(1 + (i % 6) as u8, vec![mtext("ab", &em)]),
            2 => cb("rs", vec![text("x y")]),
            3 => bq(vec![ps("c"), ps("d")]),
            4 => ul(vec![li(vec![ps("e")]), li(vec![ps("f")])]),
            5 => ps(&a(i % 17)),
            _ => p(vec![text("g"), mtext(&a(1 + i % 3), &em)]),
        };
        v.push(doc((0..n).map(mixed).collect()));
        v.push(doc(vec![ps("x"), bq((0..n).map(mixed).collect()), ps("y")]));
        v.push(doc(vec![t(Head::OrderedList(7, true), (0..n).map(|i| li(if i % 3 == 0 { vec![ps("a"), ul(vec![li(vec![ps("b")])])] } else { vec![ps("c")] })).collect())]));
        // inline: texts of different marks and lengths, breaks and images
        v.push(doc(vec![p((0..n)
            .map(|i| match i % 5 {
                0 => text(&a(if i == 0 { 120 } else { 1 + i % 4 })),
                1 => mtext("b", &em),
                2 => br(),
                3 => mtext("c", &[M::Strong, link("l")]),
                _ => img("s", "", ""),
            })
            .collect())]));
        v.push(doc(vec![ps("x"), h(2, (0..n).map(|i| mtext(EMOJI, [&[][..], &em, &[M::Em, M::Code]][i % 3])).collect()), ps("y")]));
        // equal texts kept apart, so that marking or unmarking merges them all
        v.push(doc(vec![p((0..n).map(|i| mtext("a", [&em[..], &[M::Strong, M::Em]][i % 2])).collect())]));
    }
    let lengths: &[usize] = if big { &[130, 200, 300, 520, 1030, 2050, 4100, 8200, 65_540] } else { &[130, 300, 520, 1030, 4100] };
    for &n in lengths {
        v.push(doc(vec![p(vec![text(&a(n)), mtext("b", &em), text(&a(n))])]));
        v.push(doc(vec![p(vec![text(&a(n)), br(), text("c")]), p(vec![mtext("d", &em), text(&a(n))])]));
        v.push(doc(vec![ps(&a(n)), ps(&EMOJI.repeat(n / 2)), ps(&a(n))]));
        v.push(doc(vec![cb("x", vec![text(&"ab\n".repeat(n / 3))]), bq(vec![p(vec![mtext(&a(n), &[M::Strong, link("l")])])])]));
    }
    let depths: &[usize] = if big { &[12, 20, 33, 63, 64, 65, 100, 130, 200] } else { &[12, 20, 33, 65] };
    for &n in depths {
        let nest = |x: T| (0..n).fold(x, |x, _| bq(vec![x]));
        v.push(doc(vec![ps("x"), nest(p(vec![mtext("ab", &em), text("c")])), ps("y")]));
        v.push(doc(vec![nest(ps("a")), nest(p(vec![mtext("b", &[M::Strong])]))]));
        v.push(doc(vec![(0..n).fold(ps("ab"), |x, i| bq(vec![ps(["", "c"][i % 2]), x, p(vec![mtext("d", &em)])]))]));
        v.push(doc(vec![(0..n / 2).fold(ps("ab"), |x, _| ul(vec![li(vec![ps("m")]), li(vec![ps(""), x])]))]));
    }
    v
}
