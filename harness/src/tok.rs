//! The reference representation of documents: trees `T` and flat token sequences.
//!
//! Nothing here uses the tree algorithms of the crate under test. A document is the
//! sequence of its tokens; a token is one document position wide.
use prosemirror::markdown::{
    BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
    MarkdownNode, MarkdownNodeType, OrderedListAttrs, MD,
};
use prosemirror::model::{
    AttrNode, Block, Fragment, Leaf, Mark, MarkSet, Node, Slice, Text, TextNode,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::sync::RwLock;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Ty {
    Doc,
    Paragraph,
    Heading,
    CodeBlock,
    Blockquote,
    BulletList,
    OrderedList,
    ListItem,
    HorizontalRule,
    HardBreak,
    Image,
    Text,
}
pub const ALL_TY: [Ty; 12] = [
    Ty::Doc,
    Ty::Paragraph,
    Ty::Heading,
    Ty::CodeBlock,
    Ty::Blockquote,
    Ty::BulletList,
    Ty::OrderedList,
    Ty::ListItem,
    Ty::HorizontalRule,
    Ty::HardBreak,
    Ty::Image,
    Ty::Text,
];

impl Ty {
    pub fn real(self) -> MarkdownNodeType {
        match self {
            Ty::Doc => MarkdownNodeType::Doc,
            Ty::Paragraph => MarkdownNodeType::Paragraph,
            Ty::Heading => MarkdownNodeType::Heading,
            Ty::CodeBlock => MarkdownNodeType::CodeBlock,
            Ty::Blockquote => MarkdownNodeType::Blockquote,
            Ty::BulletList => MarkdownNodeType::BulletList,
            Ty::OrderedList => MarkdownNodeType::OrderedList,
            Ty::ListItem => MarkdownNodeType::ListItem,
            Ty::HorizontalRule => MarkdownNodeType::HorizontalRule,
            Ty::HardBreak => MarkdownNodeType::HardBreak,
            Ty::Image => MarkdownNodeType::Image,
            Ty::Text => MarkdownNodeType::Text,
        }
    }
    /// member of the schema's `block` group
    pub fn block(self) -> bool {
        matches!(
            self,
            Ty::Paragraph
                | Ty::Heading
                | Ty::CodeBlock
                | Ty::Blockquote
                | Ty::BulletList
                | Ty::OrderedList
                | Ty::HorizontalRule
        )
    }
    pub fn inline(self) -> bool {
        matches!(self, Ty::Text | Ty::Image | Ty::HardBreak)
    }
    pub fn leaf(self) -> bool {
        matches!(
            self,
            Ty::Text | Ty::Image | Ty::HardBreak | Ty::HorizontalRule
        )
    }
    /// Do children of this type may carry marks?
    pub fn marks_ok(self) -> bool {
        matches!(self, Ty::Paragraph | Ty::Heading)
    }
    pub fn from_u8(x: u8) -> Ty {
        ALL_TY[x as usize]
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum M {
    Strong,
    Em,
    Code,
    Link(String, String),
}
impl M {
    pub fn kind(&self) -> u8 {
        match self {
            M::Strong => 0,
            M::Em => 1,
            M::Code => 2,
            M::Link(..) => 3,
        }
    }
    pub fn real(&self) -> MarkdownMark {
        match self {
            M::Strong => MarkdownMark::Strong,
            M::Em => MarkdownMark::Em,
            M::Code => MarkdownMark::Code,
            M::Link(h, t) => MarkdownMark::Link {
                attrs: LinkAttrs {
                    href: h.clone(),
                    title: t.clone(),
                },
            },
        }
    }
    pub fn from_real(m: &MarkdownMark) -> M {
        match m {
            MarkdownMark::Strong => M::Strong,
            MarkdownMark::Em => M::Em,
            MarkdownMark::Code => M::Code,
            MarkdownMark::Link { attrs } => M::Link(attrs.href.clone(), attrs.title.clone()),
        }
    }
    pub fn json(&self) -> Value {
        match self {
            M::Strong => json!({"type":"strong"}),
            M::Em => json!({"type":"em"}),
            M::Code => json!({"type":"code"}),
            M::Link(h, t) => json!({"type":"link","attrs":{"href":h,"title":t}}),
        }
    }
    pub fn from_json(v: &Value) -> M {
        match v["type"].as_str().unwrap() {
            "strong" => M::Strong,
            "em" => M::Em,
            "code" => M::Code,
            "link" => M::Link(
                v["attrs"]["href"].as_str().unwrap().into(),
                v["attrs"]["title"].as_str().unwrap_or("").into(),
            ),
            o => panic!("mark {}", o),
        }
    }
}
pub fn link(h: &str) -> M {
    M::Link(h.into(), String::new())
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Head {
    Doc,
    Paragraph,
    Heading(u8),
    CodeBlock(String),
    Blockquote,
    BulletList(bool),
    OrderedList(usize, bool),
    ListItem,
    HorizontalRule,
    HardBreak,
    Image(String, String, String),
    Text(String, Vec<M>),
}
impl Head {
    pub fn ty(&self) -> Ty {
        match self {
            Head::Doc => Ty::Doc,
            Head::Paragraph => Ty::Paragraph,
            Head::Heading(_) => Ty::Heading,
            Head::CodeBlock(_) => Ty::CodeBlock,
            Head::Blockquote => Ty::Blockquote,
            Head::BulletList(_) => Ty::BulletList,
            Head::OrderedList(..) => Ty::OrderedList,
            Head::ListItem => Ty::ListItem,
            Head::HorizontalRule => Ty::HorizontalRule,
            Head::HardBreak => Ty::HardBreak,
            Head::Image(..) => Ty::Image,
            Head::Text(..) => Ty::Text,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct T {
    pub head: Head,
    pub kids: Vec<T>,
}

pub type Tok = u32;
pub const CLOSE: Tok = 0;
const K_OPEN: u32 = 1 << 28;
const K_LEAF: u32 = 2 << 28;
const K_CH: u32 = 3 << 28;
const K_MASK: u32 = 0xf << 28;

pub fn is_open(t: Tok) -> bool {
    t & K_MASK == K_OPEN
}
pub fn is_close(t: Tok) -> bool {
    t == CLOSE
}
pub fn is_leaf(t: Tok) -> bool {
    t & K_MASK == K_LEAF
}
pub fn is_ch(t: Tok) -> bool {
    t & K_MASK == K_CH
}
pub fn tok_ty(t: Tok) -> Ty {
    Ty::from_u8(((t >> 24) & 0xf) as u8)
}
pub fn ch_unit(t: Tok) -> u16 {
    (t & 0xffff) as u16
}
pub fn ch_marks(t: Tok) -> u32 {
    (t >> 16) & 0xfff
}
pub fn ch_tok(unit: u16, marks: u32) -> Tok {
    K_CH | marks << 16 | unit as u32
}
/// Is a position directly before this token inside a surrogate pair?
pub fn is_low(t: Tok) -> bool {
    is_ch(t) && (0xdc00..0xe000).contains(&ch_unit(t))
}

// ---- interning of attributes -------------------------------------------------------
#[derive(Default)]
struct Global {
    heads: HashMap<Head, u32>,
    head_list: Vec<Head>,
    links: HashMap<(String, String), u32>,
    link_list: Vec<(String, String)>,
}
/// Set by the checks that compare trees, not tokens: tokens need not tell all links apart.
pub static MANY_LINKS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static GLOBAL: RwLock<Option<Global>> = RwLock::new(None);
thread_local! {
    static HEADS: RefCell<HashMap<Head, u32>> = RefCell::new(HashMap::new());
    static LINKS: RefCell<HashMap<(String, String), u32>> = RefCell::new(HashMap::new());
}
fn intern_head(h: &Head) -> u32 {
    HEADS.with(|c| {
        if let Some(i) = c.borrow().get(h) {
            return *i;
        }
        let mut g = GLOBAL.write().unwrap();
        let g = g.get_or_insert_with(Default::default);
        let i = match g.heads.get(h) {
            Some(i) => *i,
            None => {
                let i = g.head_list.len() as u32;
                g.head_list.push(h.clone());
                g.heads.insert(h.clone(), i);
                i
            }
        };
        c.borrow_mut().insert(h.clone(), i);
        i
    })
}
fn intern_link(k: (&str, &str)) -> u32 {
    LINKS.with(|c| {
        let key = (k.0.to_string(), k.1.to_string());
        if let Some(i) = c.borrow().get(&key) {
            return *i;
        }
        let mut g = GLOBAL.write().unwrap();
        let g = g.get_or_insert_with(Default::default);
        let i = match g.links.get(&key) {
            Some(i) => *i,
            None => {
                g.link_list.push(key.clone());
                let i = g.link_list.len() as u32; // 0 means no link
                g.links.insert(key.clone(), i);
                i
            }
        };
        assert!(i < 512 || MANY_LINKS.load(std::sync::atomic::Ordering::Relaxed), "too many distinct links");
        let i = i.min(511);
        c.borrow_mut().insert(key, i);
        i
    })
}
pub fn marks_id(ms: &[M]) -> u32 {
    let mut id = 0;
    for m in ms {
        match m {
            M::Strong => id |= 1,
            M::Em => id |= 2,
            M::Code => id |= 4,
            M::Link(h, t) => id |= intern_link((h, t)) << 3,
        }
    }
    id
}
pub fn marks_of(id: u32) -> Vec<M> {
    let mut v = vec![];
    if id & 1 != 0 {
        v.push(M::Strong);
    }
    if id & 2 != 0 {
        v.push(M::Em);
    }
    if id & 4 != 0 {
        v.push(M::Code);
    }
    if id >> 3 != 0 {
        let g = GLOBAL.read().unwrap();
        let (h, t) = &g.as_ref().unwrap().link_list[(id >> 3) as usize - 1];
        v.push(M::Link(h.clone(), t.clone()));
    }
    v
}
/// reference semantics of adding / removing a mark, on mark ids
pub fn marks_add(id: u32, m: &M) -> u32 {
    match m {
        M::Strong => id | 1,
        M::Em => id | 2,
        M::Code => id | 4,
        M::Link(h, t) => (id & 7) | intern_link((h, t)) << 3,
    }
}
pub fn marks_remove(id: u32, m: &M) -> u32 {
    match m {
        M::Strong => id & !1,
        M::Em => id & !2,
        M::Code => id & !4,
        M::Link(h, t) => {
            if id >> 3 == intern_link((h, t)) {
                id & 7
            } else {
                id
            }
        }
    }
}
/// The `Open` or `Leaf` token of a head.
pub fn head_tok(h: &Head) -> Tok {
    let ty = h.ty();
    let a = match h {
        Head::Doc
        | Head::Paragraph
        | Head::Blockquote
        | Head::ListItem
        | Head::HorizontalRule
        | Head::HardBreak => 0,
        Head::Heading(l) => *l as u32,
        Head::BulletList(t) => *t as u32,
        Head::OrderedList(o, t) if *o < 1 << 20 => (*o as u32) << 1 | *t as u32,
        Head::Text(..) => panic!("text has no head token"),
        h => intern_head(h) | 1 << 23,
    };
    (if ty.leaf() { K_LEAF } else { K_OPEN }) | (ty as u32) << 24 | a
}
pub fn tok_head(t: Tok) -> Head {
    let a = t & 0xff_ffff;
    if a & 1 << 23 != 0 {
        let g = GLOBAL.read().unwrap();
        return g.as_ref().unwrap().head_list[(a & 0x7f_ffff) as usize].clone();
    }
    match tok_ty(t) {
        Ty::Doc => Head::Doc,
        Ty::Paragraph => Head::Paragraph,
        Ty::Blockquote => Head::Blockquote,
        Ty::ListItem => Head::ListItem,
        Ty::HorizontalRule => Head::HorizontalRule,
        Ty::HardBreak => Head::HardBreak,
        Ty::Heading => Head::Heading(a as u8),
        Ty::BulletList => Head::BulletList(a != 0),
        Ty::OrderedList => Head::OrderedList((a >> 1) as usize, a & 1 != 0),
        x => panic!("head {:?}", x),
    }
}

// ---- constructors ------------------------------------------------------------------
pub fn t(head: Head, kids: Vec<T>) -> T {
    T { head, kids }
}
pub fn text(s: &str) -> T {
    t(Head::Text(s.into(), vec![]), vec![])
}
pub fn mtext(s: &str, m: &[M]) -> T {
    t(Head::Text(s.into(), m.to_vec()), vec![])
}
pub fn doc(k: Vec<T>) -> T {
    t(Head::Doc, k)
}
pub fn p(k: Vec<T>) -> T {
    t(Head::Paragraph, k)
}
pub fn ps(s: &str) -> T {
    if s.is_empty() {
        p(vec![])
    } else {
        p(vec![text(s)])
    }
}
pub fn h(l: u8, k: Vec<T>) -> T {
    t(Head::Heading(l), k)
}
pub fn cb(params: &str, k: Vec<T>) -> T {
    t(Head::CodeBlock(params.into()), k)
}
pub fn bq(k: Vec<T>) -> T {
    t(Head::Blockquote, k)
}
pub fn ul(k: Vec<T>) -> T {
    t(Head::BulletList(false), k)
}
pub fn ol(n: usize, k: Vec<T>) -> T {
    t(Head::OrderedList(n, false), k)
}
pub fn li(k: Vec<T>) -> T {
    t(Head::ListItem, k)
}
pub fn hr() -> T {
    t(Head::HorizontalRule, vec![])
}
pub fn br() -> T {
    t(Head::HardBreak, vec![])
}
pub fn img(s: &str, a: &str, ti: &str) -> T {
    t(Head::Image(s.into(), a.into(), ti.into()), vec![])
}

impl T {
    pub fn ty(&self) -> Ty {
        self.head.ty()
    }
    pub fn size(&self) -> usize {
        match &self.head {
            Head::Text(s, _) => s.encode_utf16().count(),
            h if h.ty().leaf() => 1,
            _ => 2 + self.content_size(),
        }
    }
    pub fn content_size(&self) -> usize {
        self.kids.iter().map(T::size).sum()
    }
    pub fn push_toks(&self, out: &mut Vec<Tok>) {
        match &self.head {
            Head::Text(s, m) => {
                let id = marks_id(m);
                out.extend(s.encode_utf16().map(|u| ch_tok(u, id)));
            }
            hd => {
                out.push(head_tok(hd));
                if !hd.ty().leaf() {
                    for k in &self.kids {
                        k.push_toks(out);
                    }
                    out.push(CLOSE);
                }
            }
        }
    }
    /// Tokens of the content of this node (positions 0..content_size)
    pub fn content_toks(&self) -> Vec<Tok> {
        let mut v = vec![];
        for k in &self.kids {
            k.push_toks(&mut v);
        }
        v
    }
    pub fn real(&self) -> MarkdownNode {
        let content = || Fragment::<MD>::from(self.kids.iter().map(T::real).collect::<Vec<_>>());
        match &self.head {
            Head::Doc => MarkdownNode::Doc(Block { content: content() }),
            Head::Paragraph => MarkdownNode::Paragraph(Block { content: content() }),
            Head::Blockquote => MarkdownNode::Blockquote(Block { content: content() }),
            Head::ListItem => MarkdownNode::ListItem(Block { content: content() }),
            Head::Heading(level) => MarkdownNode::Heading(AttrNode {
                attrs: HeadingAttrs { level: *level },
                content: content(),
            }),
            Head::CodeBlock(params) => MarkdownNode::CodeBlock(AttrNode {
                attrs: CodeBlockAttrs {
                    params: params.clone(),
                },
                content: content(),
            }),
            Head::BulletList(tight) => MarkdownNode::BulletList(AttrNode {
                attrs: BulletListAttrs { tight: *tight },
                content: content(),
            }),
            Head::OrderedList(order, tight) => MarkdownNode::OrderedList(AttrNode {
                attrs: OrderedListAttrs {
                    order: *order,
                    tight: *tight,
                },
                content: content(),
            }),
            Head::HorizontalRule => MarkdownNode::HorizontalRule,
            Head::HardBreak => MarkdownNode::HardBreak,
            Head::Image(src, alt, title) => MarkdownNode::Image(Leaf {
                attrs: ImageAttrs {
                    src: src.clone(),
                    alt: alt.clone(),
                    title: title.clone(),
                },
            }),
            Head::Text(s, m) => MarkdownNode::Text(TextNode {
                marks: real_marks(m),
                text: Text::from(s.clone()),
            }),
        }
    }
    pub fn json(&self) -> Value {
        let content = || Value::Array(self.kids.iter().map(T::json).collect());
        match &self.head {
            Head::Doc => json!({"type":"doc","content":content()}),
            Head::Paragraph => json!({"type":"paragraph","content":content()}),
            Head::Blockquote => json!({"type":"blockquote","content":content()}),
            Head::ListItem => json!({"type":"list_item","content":content()}),
            Head::Heading(l) => json!({"type":"heading","attrs":{"level":l},"content":content()}),
            Head::CodeBlock(s) => {
                json!({"type":"code_block","attrs":{"params":s},"content":content()})
            }
            Head::BulletList(b) => {
                json!({"type":"bullet_list","attrs":{"tight":b},"content":content()})
            }
            Head::OrderedList(o, b) => {
                json!({"type":"ordered_list","attrs":{"order":o,"tight":b},"content":content()})
            }
            Head::HorizontalRule => json!({"type":"horizontal_rule"}),
            Head::HardBreak => json!({"type":"hard_break"}),
            Head::Image(s, a, ti) => {
                json!({"type":"image","attrs":{"src":s,"alt":a,"title":ti}})
            }
            Head::Text(s, m) => {
                json!({"type":"text","text":s,"marks":m.iter().map(M::json).collect::<Vec<_>>()})
            }
        }
    }
    /// Reads what `json` writes; panics on anything else (only used on our own replay files).
    pub fn from_json(v: &Value) -> T {
        let kids: Vec<T> = v["content"]
            .as_array()
            .map(|a| a.iter().map(T::from_json).collect())
            .unwrap_or_default();
        let a = &v["attrs"];
        let s = |x: &Value| x.as_str().unwrap_or("").to_string();
        let head = match v["type"].as_str().unwrap() {
            "doc" => Head::Doc,
            "paragraph" => Head::Paragraph,
            "blockquote" => Head::Blockquote,
            "list_item" => Head::ListItem,
            "heading" => Head::Heading(a["level"].as_u64().unwrap() as u8),
            "code_block" => Head::CodeBlock(s(&a["params"])),
            "bullet_list" => Head::BulletList(a["tight"].as_bool().unwrap()),
            "ordered_list" => Head::OrderedList(
                a["order"].as_u64().unwrap() as usize,
                a["tight"].as_bool().unwrap(),
            ),
            "horizontal_rule" => Head::HorizontalRule,
            "hard_break" => Head::HardBreak,
            "image" => Head::Image(s(&a["src"]), s(&a["alt"]), s(&a["title"])),
            "text" => Head::Text(
                s(&v["text"]),
                v["marks"]
                    .as_array()
                    .map(|a| a.iter().map(M::from_json).collect())
                    .unwrap_or_default(),
            ),
            o => panic!("type {}", o),
        };
        T { head, kids }
    }
    pub fn from_real(n: &MarkdownNode) -> T {
        let kids = |f: &Fragment<MD>| f.children().iter().map(T::from_real).collect::<Vec<_>>();
        match n {
            MarkdownNode::Doc(b) => t(Head::Doc, kids(&b.content)),
            MarkdownNode::Paragraph(b) => t(Head::Paragraph, kids(&b.content)),
            MarkdownNode::Blockquote(b) => t(Head::Blockquote, kids(&b.content)),
            MarkdownNode::ListItem(b) => t(Head::ListItem, kids(&b.content)),
            MarkdownNode::Heading(b) => t(Head::Heading(b.attrs.level), kids(&b.content)),
            MarkdownNode::CodeBlock(b) => {
                t(Head::CodeBlock(b.attrs.params.clone()), kids(&b.content))
            }
            MarkdownNode::BulletList(b) => t(Head::BulletList(b.attrs.tight), kids(&b.content)),
            MarkdownNode::OrderedList(b) => t(
                Head::OrderedList(b.attrs.order, b.attrs.tight),
                kids(&b.content),
            ),
            MarkdownNode::HorizontalRule => hr(),
            MarkdownNode::HardBreak => br(),
            MarkdownNode::Image(l) => img(&l.attrs.src, &l.attrs.alt, &l.attrs.title),
            MarkdownNode::Text(x) => t(
                Head::Text(
                    x.text.as_str().to_string(),
                    x.marks.into_iter().map(M::from_real).collect(),
                ),
                vec![],
            ),
        }
    }
    /// Merge neighbouring texts with equal marks and drop empty ones.
    pub fn normal(&self) -> T {
        let mut kids: Vec<T> = vec![];
        for k in &self.kids {
            if let Head::Text(s, m) = &k.head {
                if s.is_empty() {
                    continue;
                }
                if let Some(T {
                    head: Head::Text(ls, lm),
                    ..
                }) = kids.last_mut()
                {
                    if lm == m {
                        ls.push_str(s);
                        continue;
                    }
                }
            }
            kids.push(k.normal());
        }
        T {
            head: self.head.clone(),
            kids,
        }
    }
    pub fn show(&self) -> String {
        match &self.head {
            Head::Text(s, m) if m.is_empty() => format!("{:?}", s),
            Head::Text(s, m) => format!("{:?}{:?}", s, m),
            hd if self.ty().leaf() => format!("{:?}", hd),
            hd => format!(
                "{:?}({})",
                hd,
                self.kids
                    .iter()
                    .map(T::show)
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
        }
    }
}

pub fn real_marks(m: &[M]) -> MarkSet<MD> {
    MarkSet::try_from(m.iter().map(M::real).collect::<Vec<_>>())
        .ok()
        .expect("duplicate mark types in a reference mark set")
}

/// Build the children described by well-nested content tokens, normalised.
pub fn toks_to_kids(toks: &[Tok]) -> Option<Vec<T>> {
    let mut stack: Vec<(Option<Head>, Vec<T>)> = vec![(None, vec![])];
    let mut i = 0;
    while i < toks.len() {
        let x = toks[i];
        if is_open(x) {
            stack.push((Some(tok_head(x)), vec![]));
            i += 1;
        } else if is_close(x) {
            let (hd, kids) = stack.pop()?;
            let hd = hd?;
            stack.last_mut()?.1.push(t(hd, kids));
            i += 1;
        } else if is_leaf(x) {
            stack.last_mut()?.1.push(t(tok_head(x), vec![]));
            i += 1;
        } else {
            let m = ch_marks(x);
            let mut u = vec![];
            while i < toks.len() && is_ch(toks[i]) && ch_marks(toks[i]) == m {
                u.push(ch_unit(toks[i]));
                i += 1;
            }
            let s = String::from_utf16(&u).ok()?;
            stack
                .last_mut()?
                .1
                .push(t(Head::Text(s, marks_of(m)), vec![]));
        }
    }
    if stack.len() != 1 {
        return None;
    }
    stack.pop().map(|x| x.1)
}
pub fn toks_to_tree(root: Head, toks: &[Tok]) -> Option<T> {
    toks_to_kids(toks).map(|k| t(root, k))
}

// ---- reading the real thing --------------------------------------------------------
#[derive(Default, Clone, Copy, Debug)]
pub struct ReadInfo {
    pub unmerged: bool,
    pub empty_text: bool,
}

/// Append the tokens of a real node, checking every cached size on the way.
/// Returns the true size.
pub fn read_node(n: &MarkdownNode, out: &mut Vec<Tok>, info: &mut ReadInfo) -> Result<usize, String> {
    let size = match n {
        MarkdownNode::Text(x) => {
            let mut id = 0u32;
            let mut last: Option<u8> = None;
            for m in &x.marks {
                let k = match m {
                    MarkdownMark::Strong => {
                        id |= 1;
                        0
                    }
                    MarkdownMark::Em => {
                        id |= 2;
                        1
                    }
                    MarkdownMark::Code => {
                        id |= 4;
                        2
                    }
                    MarkdownMark::Link { attrs } => {
                        id |= intern_link((&attrs.href, &attrs.title)) << 3;
                        3
                    }
                };
                if last.map_or(false, |l| l >= k) {
                    return Err(format!("mark set out of order or with duplicates: {:?}", x.marks));
                }
                last = Some(k);
            }
            let before = out.len();
            out.extend(x.text.as_str().encode_utf16().map(|u| ch_tok(u, id)));
            let len = out.len() - before;
            if x.text.len_utf16() != len {
                return Err(format!(
                    "text {:?} reports {} UTF-16 units, has {}",
                    x.text.as_str(),
                    x.text.len_utf16(),
                    len
                ));
            }
            if len == 0 {
                info.empty_text = true;
            }
            len
        }
        MarkdownNode::HorizontalRule => {
            out.push(K_LEAF | (Ty::HorizontalRule as u32) << 24);
            1
        }
        MarkdownNode::HardBreak => {
            out.push(K_LEAF | (Ty::HardBreak as u32) << 24);
            1
        }
        MarkdownNode::Image(l) => {
            out.push(head_tok(&Head::Image(
                l.attrs.src.clone(),
                l.attrs.alt.clone(),
                l.attrs.title.clone(),
            )));
            1
        }
        _ => {
            out.push(real_head_tok(n));
            let f = n
                .content()
                .ok_or_else(|| format!("{:?} has no content", n.r#type()))?;
            let c = read_fragment(f, out, info)?;
            out.push(CLOSE);
            c + 2
        }
    };
    if n.node_size() != size {
        return Err(format!(
            "node {:?} reports size {}, occupies {}",
            n,
            n.node_size(),
            size
        ));
    }
    Ok(size)
}

pub fn real_head_tok(n: &MarkdownNode) -> Tok {
    let o = |ty: Ty, a: u32| K_OPEN | (ty as u32) << 24 | a;
    match n {
        MarkdownNode::Doc(_) => o(Ty::Doc, 0),
        MarkdownNode::Paragraph(_) => o(Ty::Paragraph, 0),
        MarkdownNode::Blockquote(_) => o(Ty::Blockquote, 0),
        MarkdownNode::ListItem(_) => o(Ty::ListItem, 0),
        MarkdownNode::Heading(b) => o(Ty::Heading, b.attrs.level as u32),
        MarkdownNode::BulletList(b) => o(Ty::BulletList, b.attrs.tight as u32),
        MarkdownNode::OrderedList(b) => {
            head_tok(&Head::OrderedList(b.attrs.order, b.attrs.tight))
        }
        MarkdownNode::CodeBlock(b) => head_tok(&Head::CodeBlock(b.attrs.params.clone())),
        _ => panic!("no open token"),
    }
}

pub fn read_fragment(f: &Fragment<MD>, out: &mut Vec<Tok>, info: &mut ReadInfo) -> Result<usize, String> {
    let mut sum = 0;
    let mut prev: Option<&MarkdownNode> = None;
    for c in f.children() {
        sum += read_node(c, out, info)?;
        if let (Some(MarkdownNode::Text(a)), MarkdownNode::Text(b)) = (prev, c) {
            if a.marks == b.marks {
                info.unmerged = true;
            }
        }
        prev = Some(c);
    }
    if f.size() != sum {
        return Err(format!(
            "fragment {:?} reports size {}, occupies {}",
            f,
            f.size(),
            sum
        ));
    }
    if f.child_count() != f.children().len() {
        return Err("child_count differs from the number of children".into());
    }
    Ok(sum)
}

/// Content tokens of a real root node, with all size checks.
pub fn read_root(n: &MarkdownNode) -> Result<(Vec<Tok>, ReadInfo), String> {
    let mut out = Vec::with_capacity(n.node_size());
    let mut info = ReadInfo::default();
    read_node(n, &mut out, &mut info)?;
    if !n.r#type().leaf_like() {
        out.remove(0);
        out.pop();
    }
    Ok((out, info))
}
trait LeafLike {
    fn leaf_like(&self) -> bool;
}
impl LeafLike for MarkdownNodeType {
    fn leaf_like(&self) -> bool {
        matches!(
            self,
            MarkdownNodeType::Text
                | MarkdownNodeType::HorizontalRule
                | MarkdownNodeType::HardBreak
                | MarkdownNodeType::Image
        )
    }
}

pub fn real_fragment(kids: &[T]) -> Fragment<MD> {
    Fragment::from(kids.iter().map(T::real).collect::<Vec<_>>())
}

/// A reference slice: the content (open nodes included) and its open depths.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct S {
    pub kids: Vec<T>,
    pub os: usize,
    pub oe: usize,
}
impl S {
    pub fn empty() -> S {
        S {
            kids: vec![],
            os: 0,
            oe: 0,
        }
    }
    pub fn toks(&self) -> Vec<Tok> {
        let mut v = vec![];
        for k in &self.kids {
            k.push_toks(&mut v);
        }
        v
    }
    pub fn real(&self) -> Slice<MD> {
        Slice::new(real_fragment(&self.kids), self.os, self.oe)
    }
    pub fn json(&self) -> Value {
        json!({"content": self.kids.iter().map(T::json).collect::<Vec<_>>(), "openStart": self.os, "openEnd": self.oe})
    }
    pub fn from_json(v: &Value) -> S {
        S {
            kids: v["content"]
                .as_array()
                .unwrap()
                .iter()
                .map(T::from_json)
                .collect(),
            os: v["openStart"].as_u64().unwrap() as usize,
            oe: v["openEnd"].as_u64().unwrap() as usize,
        }
    }
    pub fn show(&self) -> String {
        format!(
            "slice[{}]({},{})",
            self.kids
                .iter()
                .map(T::show)
                .collect::<Vec<_>>()
                .join(", "),
            self.os,
            self.oe
        )
    }
}

pub fn show_toks(toks: &[Tok]) -> String {
    let mut s = String::new();
    for &x in toks {
        if is_close(x) {
            s.push_str("</>");
        } else if is_open(x) {
            s.push_str(&format!("<{:?}>", tok_head(x)));
        } else if is_leaf(x) {
            s.push_str(&format!("[{:?}]", tok_head(x)));
        } else {
            let u = ch_unit(x);
            match char::from_u32(u as u32) {
                Some(c) => s.push(c),
                None => s.push_str(&format!("\\u{:04x}", u)),
            }
            if ch_marks(x) != 0 {
                s.push_str(&format!("{:?}", marks_of(ch_marks(x))));
            }
        }
    }
    s
}
