//! C20 reading and C21 writing Markdown, against a reference reader and reference writers
//! built on the events of the CommonMark parser and writer the crate uses.
use super::*;
use prosemirror::markdown::{from_markdown, to_markdown};
use prosemirror::model::Node;
use pulldown_cmark::{CodeBlockKind, CowStr, Event, LinkType, Parser, Tag};
use std::collections::HashMap;

// ---- reference reader --------------------------------------------------------------
pub enum Read {
    /// the text stands for this document
    Doc(T),
    /// the text uses a construct documents do not have
    Unsupported,
    /// the text stands for a document, but the schema has no place for a part of it: an
    /// error, or any valid document
    Open,
}
enum It {
    Block(T),
    Inline(T),
}
struct Reader<'a> {
    ev: std::vec::IntoIter<Event<'a>>,
    em: usize,
    strong: usize,
    links: Vec<M>,
    unsupported: bool,
    open: bool,
}
/// Append inline content, merging texts.
fn push_inline(v: &mut Vec<T>, x: T) {
    if let Head::Text(s, m) = &x.head {
        if s.is_empty() {
            return;
        }
        if let Some(T { head: Head::Text(ls, lm), .. }) = v.last_mut() {
            if lm == m {
                ls.push_str(s);
                return;
            }
        }
    }
    v.push(x);
}
impl<'a> Reader<'a> {
    fn marks(&self, code: bool) -> Vec<M> {
        let mut v = vec![];
        if self.strong > 0 {
            v.push(M::Strong);
        }
        if self.em > 0 {
            v.push(M::Em);
        }
        if code {
            v.push(M::Code);
        }
        v.extend(self.links.last().cloned());
        v
    }
    /// Everything up to the end of the enclosing element.
    fn items(&mut self) -> Vec<It> {
        let mut v = vec![];
        while let Some(e) = self.ev.next() {
            match e {
                Event::End(_) => break,
                Event::Text(s) => v.push(It::Inline(mtext(&s, &self.marks(false)))),
                Event::Code(s) => v.push(It::Inline(mtext(&s, &self.marks(true)))),
                Event::HardBreak => v.push(It::Inline(br())),
                Event::Rule => v.push(It::Block(hr())),
                Event::Html(_) | Event::FootnoteReference(_) | Event::SoftBreak | Event::TaskListMarker(_) => {
                    self.unsupported = true
                }
                Event::Start(tag) => match tag {
                    Tag::Emphasis => {
                        self.em += 1;
                        v.extend(self.items());
                        self.em -= 1;
                    }
                    Tag::Strong => {
                        self.strong += 1;
                        v.extend(self.items());
                        self.strong -= 1;
                    }
                    Tag::Link(_, href, title) => {
                        self.open |= !self.links.is_empty();
                        self.links.push(M::Link(href.to_string(), title.to_string()));
                        v.extend(self.items());
                        self.links.pop();
                    }
                    Tag::Image(_, src, title) => {
                        let alt = self.alt();
                        v.push(It::Inline(img(&src, &alt, &title)));
                    }
                    Tag::Paragraph => {
                        let k = self.inline();
                        v.push(It::Block(p(k)));
                    }
                    Tag::Heading(l) => {
                        let k = self.inline();
                        self.open |= k.iter().any(|x| x.ty() == Ty::HardBreak);
                        self.open |= l > 255;
                        v.push(It::Block(h(l as u8, k)));
                    }
                    Tag::CodeBlock(kind) => {
                        let mut s: String = self
                            .inline()
                            .iter()
                            .map(|x| match &x.head {
                                Head::Text(s, m) if m.is_empty() => s.clone(),
                                o => panic!("in a code block: {:?}", o),
                            })
                            .collect();
                        if s.ends_with('\n') {
                            s.pop();
                        }
                        let params = match &kind {
                            CodeBlockKind::Fenced(s) => s.to_string(),
                            CodeBlockKind::Indented => String::new(),
                        };
                        let k = if s.is_empty() { vec![] } else { vec![text(&s)] };
                        v.push(It::Block(cb(&params, k)));
                    }
                    Tag::BlockQuote => {
                        let k = self.blocks(false);
                        v.push(It::Block(bq(k)));
                    }
                    Tag::Item => {
                        let k = self.blocks(true);
                        v.push(It::Block(li(k)));
                    }
                    Tag::List(start) => {
                        let k = self
                            .items()
                            .into_iter()
                            .filter_map(|x| match x {
                                It::Block(b) => Some(b),
                                It::Inline(_) => None,
                            })
                            .collect();
                        v.push(It::Block(match start {
                            None => ul(k),
                            Some(n) => ol(n as usize, k),
                        }));
                    }
                    _ => {
                        self.unsupported = true;
                        self.items();
                    }
                },
            }
        }
        v
    }
    /// The text of everything in an image.
    fn alt(&mut self) -> String {
        let mut s = String::new();
        let mut depth = 0;
        while let Some(e) = self.ev.next() {
            match e {
                Event::Start(_) => depth += 1,
                Event::End(_) if depth == 0 => break,
                Event::End(_) => depth -= 1,
                Event::Text(t) | Event::Code(t) => s.push_str(&t),
                // no line breaks in an alternative text
                Event::HardBreak => self.open = true,
                _ => self.unsupported = true,
            }
        }
        s
    }
    fn inline(&mut self) -> Vec<T> {
        let mut v = vec![];
        for x in self.items() {
            match x {
                It::Inline(x) => push_inline(&mut v, x),
                It::Block(b) => panic!("block among inline content: {}", b.show()),
            }
        }
        v
    }
    fn blocks(&mut self, item: bool) -> Vec<T> {
        let its = self.items();
        fill(its, item)
    }
}
/// The content of a node that holds blocks: paragraphs around loose inline content, and
/// the paragraph the schema asks for.
fn fill(its: Vec<It>, item: bool) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    let mut loose: Option<Vec<T>> = None;
    for x in its {
        match x {
            It::Inline(x) => push_inline(loose.get_or_insert_with(Vec::new), x),
            It::Block(b) => {
                v.extend(loose.take().map(p));
                v.push(b);
            }
        }
    }
    v.extend(loose.map(p));
    if v.is_empty() || (item && v[0].ty() != Ty::Paragraph) {
        v.insert(0, p(vec![]));
    }
    v
}
pub fn ref_read(s: &str) -> Read {
    let ev: Vec<Event> = Parser::new(s).collect();
    let mut r = Reader { ev: ev.into_iter(), em: 0, strong: 0, links: vec![], unsupported: false, open: false };
    let k = r.blocks(false);
    if r.unsupported {
        Read::Unsupported
    } else if r.open {
        Read::Open
    } else {
        Read::Doc(doc(k))
    }
}
/// Without what the reader does not read: the tightness of lists.
pub fn no_tight(mut x: T) -> T {
    match &mut x.head {
        Head::BulletList(b) => *b = false,
        Head::OrderedList(_, b) => *b = false,
        _ => {}
    }
    x.kids = x.kids.into_iter().map(no_tight).collect();
    x
}
/// Does the real node agree in all it reports: sizes, children, marks?
fn sound(x: &T, n: &prosemirror::markdown::MarkdownNode) -> Result<(), String> {
    if !valid_tree(x) {
        return Err(format!("is not valid: {}", x.show()));
    }
    if x.normal() != *x {
        return Err(format!("is not normal: {}", x.show()));
    }
    if n.node_size() != x.content_size() + 2 {
        return Err(format!("has size {} but should have {}", n.node_size(), x.content_size() + 2));
    }
    Ok(())
}
pub fn c20_case(s: &str) -> Res {
    let want = match guarded(|| ref_read(s)) {
        Ok(w) => w,
        Err(p) if p.contains("pulldown-cmark") => return Ok("the parser library panics"),
        Err(p) => panic!("{}", p),
    };
    match (from_markdown(s), want) {
        (Err(_), Read::Unsupported) => Ok("unsupported construct refused"),
        (Ok(n), Read::Unsupported) => Err(format!(
            "{:?} has an unsupported construct but is read as {}",
            s,
            T::from_real(&n).show()
        )),
        (Err(_), Read::Open) => Ok("construct without a place in the schema refused"),
        (Ok(n), w) => {
            let x = T::from_real(&n);
            sound(&x, &n).map_err(|e| format!("{:?} read as a document {}", s, e))?;
            if let Read::Doc(w) = w {
                if no_tight(x.clone()) != w {
                    return Err(format!("{:?} is read as {} but means {}", s, x.show(), w.show()));
                }
                return Ok(if w.kids.len() > 1 { "several blocks" } else { "one block" });
            }
            Ok("read with a construct without a place in the schema")
        }
        (Err(e), Read::Doc(w)) => Err(format!("{:?} means {} but is refused: {:?}", s, w.show(), e)),
    }
}
/// All sequences of length `n` over `atoms`, split into work items by their first atoms.
fn sequences(e: &Engine, phase: &str, atoms: &[&str], max: usize, wrap: impl Fn(&str) -> String + Sync) {
    let mut items: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..atoms.len() {
        items.push(vec![i]);
        if max >= 2 {
            items.extend((0..atoms.len()).map(|j| vec![i, j]));
        }
    }
    let wrap = &wrap;
    e.par(phase, &items, |c, pre| {
        let mut rest: Vec<usize> = vec![];
        // items of two atoms stand for all their continuations
        let lens = if pre.len() == 2 { max - 2 } else { 0 };
        for n in 0..=lens {
            rest.clear();
            rest.resize(n, 0);
            loop {
                if c.stopped() {
                    return;
                }
                let s: String = pre.iter().chain(rest.iter()).map(|i| atoms[*i]).collect();
                let s = wrap(&s);
                c.state();
                c.case(|| json!({"property": "C20", "text": s}), || c20_case(&s));
                let mut k = n;
                while k > 0 {
                    rest[k - 1] += 1;
                    if rest[k - 1] < atoms.len() {
                        break;
                    }
                    rest[k - 1] = 0;
                    k -= 1;
                }
                if k == 0 {
                    break;
                }
            }
        }
    });
}
pub fn c20(e: &Engine) {
    MANY_LINKS.store(true, std::sync::atomic::Ordering::Relaxed);
    let same = |s: &str| s.to_string();
    sequences(
        e,
        "inline-characters",
        &["a", " ", "*", "_", "`", "[", "]", "(", ")", "!", "\\", "\n", "<", "&", "\u{1F60A}"],
        e.q(6, 7),
        same,
    );
    sequences(
        e,
        "block-characters",
        &["a", " ", "\n", "-", ">", "#", "1", ".", "`", "*", "+", "=", "\t", "~", "\r"],
        e.q(6, 7),
        same,
    );
    sequences(
        e,
        "inline-parts",
        &[
            "a", " ", "*", "**", "***", "_", "`", "``", "[", "](u)", "](u \"t\")", "![", "<http://x>", "\\*", "&amp;",
            "\\\n", "  \n", "\u{e9}\u{1F60A}",
        ],
        e.q(5, 6),
        same,
    );
    sequences(
        e,
        "emphasis",
        &["*", "_", "a", " ", "**", "[", "](u)", "`c`", "![i](s)"],
        e.q(7, 8),
        |s| format!("x {}", s),
    );
    let mut lines = vec![];
    for pre in ["", "> ", "- ", "2. ", "  ", "    ", "> - ", "- > ", "- - "] {
        for body in ["", "a", "*a*b", "# a", "```", "---", "![x](y \"z\")", "- ", "> "] {
            lines.push(format!("{}{}\n", pre, body));
        }
    }
    let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    sequences(e, "lines", &l, 3, same);
    let some = [
        "a\n", "\n", "> a\n", ">\n", "- a\n", "-\n", "  b\n", "3) c\n", "    d\n", "```x y\n", "~~~\n", "# *h*\n",
        "---\n", "a  \n", "> - q\n", "\t- t\n",
    ];
    sequences(e, "line-sequences", &some, e.q(5, 6), same);
    // HTML, entities and autolinks
    sequences(
        e,
        "inline-html",
        &["a", " ", "<b>", "</b>", "<!-- c -->", "<a@b.cd>", "<x:y>", "&nbsp;", "&#65;", "&x", "*", "<div>\n", "\n", "[", "](u)"],
        e.q(5, 6),
        same,
    );
    sequences(
        e,
        "definitions",
        &[
            "[a]: u\n", "[a]: <v w> 't'\n", "[B]:\n", "\n", "[a]\n", "[a][]", "[q][a]\n", "![p][b]\n", "> [a]: v\n", "*[a]*",
            "x ", "- [b]: z \"y\"\n",
        ],
        e.q(5, 6),
        same,
    );
    // what links, images and code blocks carry
    let url = ["a", "/", "%20", "?", "=", "&", "&amp;", "#", "\u{e9}", "(", ")", "\\", "_", "*", " ", ".", "A", ":", "+", "~", "'", "\""];
    sequences(e, "link-target", &url, e.q(4, 5), |s| format!("x [a]({}) y", s));
    sequences(e, "link-target-in-brackets", &url, e.q(4, 5), |s| format!("[a](<{}> \"t\")", s));
    sequences(e, "link-title", &url, e.q(4, 5), |s| format!("[a](u \"{}\")", s));
    sequences(e, "image-source", &url, e.q(4, 5), |s| format!("x ![a]({}) y", s));
    sequences(e, "image-title", &url, e.q(4, 5), |s| format!("![a](u '{}')", s));
    sequences(e, "image-text", &url, e.q(4, 5), |s| format!("![{}](u)", s));
    sequences(e, "autolink", &url, e.q(4, 5), |s| format!("<http://{}>", s));
    let info = ["rust", " ", ",", "no_run", "{", "}", "`", "~", "\\", "&amp;", "\u{e9}", "\t", "R", ".", "="];
    sequences(e, "info", &info, e.q(4, 5), |s| format!("```{}\nx\n```\n", s));
    sequences(e, "info-tilde", &info, e.q(4, 5), |s| format!("~~~{}\nx\n~~~\n", s));
    let code = ["x", " ", "\n", "\t", "```", "``", "`", "    ", "<b>", "&amp;", "\\", "*", "~~~", ">", "-"];
    sequences(e, "code-block", &code, e.q(5, 6), |s| format!("```\n{}\n```\n", s));
    sequences(e, "indented-code", &code, e.q(5, 6), |s| format!("    {}\n", s));
    sequences(e, "code-span", &code, e.q(5, 6), |s| format!("a ``{}`` b", s));
    // what extensions of CommonMark would read differently
    sequences(e, "like-tables", &["|", "-", "a", ":", "  \n", "\\\n"], e.q(7, 8), same);
    sequences(
        e,
        "like-table-lines",
        &["|a|b|  \n", "|-|-|  \n", "|-|:-:|", "a|b  \n", "-|-  \n", "-|-\n", ":-:|-", "\n", "a", "|", "> ", "- "],
        e.q(5, 6),
        same,
    );
    sequences(
        e,
        "like-footnotes",
        &["[^a]", "[^a]: ", "[^b]:y", "x", "\n\n", "\n", " ", "  \n", "    ", "[^", "]", "> "],
        e.q(5, 6),
        same,
    );
    sequences(
        e,
        "like-extensions",
        &[
            "~~", "~", "a", " ", "\"", "'", "--", "...", "{#a}", "# ", "\n\n", "$", "==", "^", "[ ] ", "- ", "[x] ", ": ", "http://x.y", "www.x.y",
            ":a:", "[[", "]]", "+++\n", "---\n", "<del>",
        ],
        e.q(4, 5),
        same,
    );
    // every list number, heading level and indentation
    let mut nums: Vec<String> = vec![];
    for n in (0..=e.q(1100u64, 20_000)).chain([9999, 10_000, 65_535, 65_536, 99_999_999, 999_999_999, 1_000_000_000, 9_999_999_999]) {
        for pre in ["", "0", "00"] {
            for dot in [".", ")"] {
                nums.push(format!("{}{}{} a", pre, n, dot));
                nums.push(format!("{}{}{} a\n7. b\n\n> 3. c", pre, n, dot));
            }
        }
    }
    for n in 0..=12 {
        for s in ["#", "=", "-", ">", " ", "\t", "> ", "- ", "1. ", "*", "_", "`", "~", "\n", "\\"] {
            for t in ["a", " a", "a\n", " a *b*\n", "\na", "", " ", "- a", "    a\nb"] {
                nums.push(format!("{}{}", s.repeat(n), t));
                nums.push(format!("a\n{}{}", s.repeat(n), t));
            }
        }
    }
    let chunks: Vec<&[String]> = nums.chunks(100).collect();
    e.par("numbers", &chunks, |c, ss| {
        for s in ss.iter() {
            c.state();
            c.case(|| json!({"property": "C20", "text": s}), || c20_case(s));
        }
    });
    // every character in every place
    let places = [
        "a{}b", "{}a", "a{}", "*{}*", "**a{}**b", "a`{}`", "[a{}](u)", "[a](u{}v)", "[a](u \"{}\")", "![{}](s)", "![a](s{})",
        "```{}\nx\n```\n", "```\n{}\n```", "# {}", "- {}", "> {}a", "    {}\n", "\\{}", "&{};", "<http://x/{}>", "a *{}b* c",
    ];
    let planes: Vec<u32> = (0..0x440).collect();
    e.par("every-character", &planes, |c, p| {
        for u in p << 10..(p + 1) << 10 {
            let ch = match char::from_u32(u) {
                Some(ch) => ch.to_string(),
                None => continue,
            };
            for t in places {
                let s = t.replace("{}", &ch);
                c.state();
                c.case(|| json!({"property": "C20", "text": s}), || c20_case(&s));
            }
        }
    });
    // long and deep inputs
    let mut long = vec![];
    for n in 2..=e.q(40, 80) {
        for s in ["a", "a ", "*a* ", "`b` ", "[l](m) ", "a\n\n", "# a\n", "1. a\n", "- a\n\n", "> ", "- ", "    c\n", "> a\n\n", "**a", "a  \n", "![x](y)", "---\n", "```\na\n```\n", "* a\n* b\n\n- c\n"] {
            long.push(s.repeat(n));
            long.push(format!("{}x", s.repeat(n)));
        }
    }
    for n in [130, 300, 1030] {
        for s in ["a ", "**b**c", "[l](m) ", "![x](y) ", "a  \n", "---\n", "```\na\n```\n", "* a\n* b\n\n- c\n", "    c\n", "> a\n\n", "> b\n>\n", "- a\n- b\n\n", "\u{1F60A}", "&amp;", "\\\n", "<http://x>", "*a*_b_", "[r]", "\n"] {
            long.push(s.repeat(n));
            long.push(format!("{}x\n\n[r]: u 't'\n", s.repeat(n)));
            long.push(format!("> {}", s.repeat(n).replace('\n', "\n> ")));
        }
    }
    for n in [10, 60, 200, 1000] {
        for s in ["a", "*a* ", "`b` ", "\\*", "- ", "> ", "![x](y)", "[", "*", "_a", "a\n\n", "# a\n", "1. a\n", "- a\n\n"] {
            if n > 60 && (s == "- " || s == "> ") {
                continue;
            }
            long.push(s.repeat(n));
        }
    }
    e.par("long", &long, |c, s| {
        c.state();
        c.case(|| json!({"property": "C20", "text": s}), || c20_case(s));
    });
    let deep: Vec<(&str, usize)> = ["> ", ">", "*a ", "**a", "[", "![", "[a](", "`", "<", "\\", "_a_", "- > "]
        .iter()
        .flat_map(|p| [3000, 30_000, 1_000_000].map(|n| (*p, n)))
        .filter(|(p, n)| p.starts_with('>') || *n < 100_000)
        .collect();
    e.par("deep", &deep, |c, (part, n)| {
        c.state();
        c.case(|| json!({"property": "C20", "kind": "deep", "part": part, "n": n}), || c20_deep(part, *n));
    });
}
/// Nesting far beyond what is reasonable: a document or an error, but the process survives.
fn c20_deep(part: &str, n: usize) -> Res {
    let text = part.repeat(n);
    // on a thread as Rust makes them
    let t = std::thread::Builder::new().stack_size(2 << 20);
    let t = t.spawn(move || from_markdown(&text).is_ok()).unwrap();
    match t.join() {
        Ok(true) => Ok("deep: read"),
        Ok(false) => Ok("deep: refused"),
        Err(_) => Err(format!("panicked on {:?} repeated {} times", part, n)),
    }
}
pub fn c20_replay(v: &Value) -> Res {
    if v["kind"] == json!("deep") {
        return c20_deep(v["part"].as_str().unwrap(), ju(v, "n"));
    }
    c20_case(v["text"].as_str().unwrap())
}

// ---- reference writers -------------------------------------------------------------
fn tag(m: &M) -> Tag<'static> {
    match m {
        M::Strong => Tag::Strong,
        M::Em => Tag::Emphasis,
        M::Link(h, t) => Tag::Link(LinkType::Inline, own(h), own(t)),
        M::Code => panic!("code is not a tag"),
    }
}
fn own(s: &str) -> CowStr<'static> {
    CowStr::from(s.to_string())
}
/// The ideal events: marks are opened in the order of the set and kept open as long as they
/// and all marks opened before them continue; what is not text has no marks.
fn ref_events(x: &T, out: &mut Vec<Event<'static>>) {
    let wrap = |tag: Tag<'static>, out: &mut Vec<Event<'static>>| {
        out.push(Event::Start(tag.clone()));
        let mut open: Vec<M> = vec![];
        for k in &x.kids {
            match &k.head {
                Head::Text(s, ms) if x.ty() != Ty::CodeBlock => {
                    let want: Vec<M> = ms.iter().filter(|m| **m != M::Code).cloned().collect();
                    let keep = open.iter().take_while(|m| want.contains(m)).count();
                    while open.len() > keep {
                        out.push(Event::End(super::md::tag(&open.pop().unwrap())));
                    }
                    let new: Vec<M> = want.into_iter().filter(|m| !open.contains(m)).collect();
                    for m in new {
                        out.push(Event::Start(super::md::tag(&m)));
                        open.push(m);
                    }
                    out.push(if ms.contains(&M::Code) { Event::Code(own(s)) } else { Event::Text(own(s)) });
                }
                Head::Image(..) | Head::HardBreak => {
                    while let Some(m) = open.pop() {
                        out.push(Event::End(super::md::tag(&m)));
                    }
                    ref_events(k, out);
                }
                _ => ref_events(k, out),
            }
        }
        while let Some(m) = open.pop() {
            out.push(Event::End(super::md::tag(&m)));
        }
        out.push(Event::End(tag));
    };
    match &x.head {
        Head::Doc => {
            for k in &x.kids {
                ref_events(k, out);
            }
        }
        Head::Paragraph => wrap(Tag::Paragraph, out),
        Head::Heading(l) => wrap(Tag::Heading(*l as u32), out),
        Head::Blockquote => wrap(Tag::BlockQuote, out),
        Head::ListItem => wrap(Tag::Item, out),
        Head::BulletList(_) => wrap(Tag::List(None), out),
        Head::OrderedList(n, _) => wrap(Tag::List(Some(*n as u64)), out),
        Head::CodeBlock(params) => {
            let tag = Tag::CodeBlock(CodeBlockKind::Fenced(own(params)));
            out.push(Event::Start(tag.clone()));
            for k in &x.kids {
                if let Head::Text(s, _) = &k.head {
                    out.push(Event::Text(own(s)));
                }
            }
            out.push(Event::Text(own("\n")));
            out.push(Event::End(tag));
        }
        Head::HorizontalRule => out.push(Event::Rule),
        Head::HardBreak => out.push(Event::HardBreak),
        Head::Image(src, alt, title) => {
            let tag = Tag::Image(LinkType::Inline, own(src), own(title));
            out.push(Event::Start(tag.clone()));
            if !alt.is_empty() {
                out.push(Event::Text(own(alt)));
            }
            out.push(Event::End(tag));
        }
        Head::Text(s, _) => out.push(Event::Text(own(s))),
    }
}
/// Does Markdown, as the writer library writes it, express this document?
fn expressible(x: &T, want: &T) -> bool {
    let mut ev = vec![];
    ref_events(x, &mut ev);
    let mut s = String::new();
    let r = guarded(|| pulldown_cmark_to_cmark::cmark(ev.iter(), &mut s, None).is_ok());
    r == Ok(true) && matches!(guarded(|| ref_read(&s)), Ok(Read::Doc(d)) if d == *want)
}
pub fn c21_case(x: &T) -> Res {
    let n = x.real();
    let s = match guarded(|| to_markdown(&n)) {
        Ok(s) => s,
        Err(p) => {
            // does the library itself panic on what stands for the document?
            let mut ev = vec![];
            ref_events(x, &mut ev);
            let lib = p.contains("pulldown-cmark")
                && guarded(|| pulldown_cmark_to_cmark::cmark(ev.iter(), String::new(), None).is_ok()).is_err();
            if lib {
                return Ok("the writer library panics");
            }
            return Err(format!("writing {}: {}", x.show(), p));
        }
    };
    let s = s.map_err(|e| format!("{} cannot be written: {:?}", x.show(), e))?;
    let want = no_tight(x.clone());
    if !expressible(x, &want) {
        return Ok("not expressible: written without panic");
    }
    match from_markdown(&s) {
        Ok(m) => {
            let back = no_tight(T::from_real(&m));
            if back != want {
                return Err(format!("{} is written as {:?}, which is read as {}", x.show(), s, back.show()));
            }
            Ok("written and read back")
        }
        Err(e) => Err(format!("{} is written as {:?}, which is refused: {:?}", x.show(), s, e)),
    }
}
/// All contents of up to `n` parts, neighbouring texts merged, repetitions removed.
fn inline_docs(atoms: &[T], n: usize, wrap: impl Fn(Vec<T>) -> T) -> Vec<T> {
    let mut out = vec![];
    let mut seen = HashSet::new();
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for c in &cur {
            for i in 0..atoms.len() {
                let mut v = c.clone();
                v.push(i);
                let mut k = vec![];
                for j in &v {
                    push_inline(&mut k, atoms[*j].clone());
                }
                let d = doc(vec![wrap(k)]);
                if valid_tree(&d) && seen.insert(d.clone()) {
                    out.push(d);
                }
                next.push(v);
            }
        }
        cur = next;
    }
    out
}
/// One string in every place a document has for one.
fn in_places(s: &str) -> Vec<T> {
    let mut v = vec![
        doc(vec![p(vec![mtext("x", &[M::Link(s.into(), String::new())])])]),
        doc(vec![p(vec![mtext("x", &[M::Link("u".into(), s.into())])])]),
        doc(vec![p(vec![text("i"), img(s, "", ""), text("j")])]),
        doc(vec![p(vec![img("u", s, "")])]),
        doc(vec![p(vec![img("u", "", s)])]),
        doc(vec![cb(s, vec![text("x")])]),
    ];
    if !s.is_empty() {
        v.push(doc(vec![ps(s)]));
        v.push(doc(vec![p(vec![mtext(s, &[M::Em])]), p(vec![text("a"), mtext(s, &[M::Strong]), text("b")])]));
        v.push(doc(vec![p(vec![text("a "), mtext(s, &[M::Code]), text(" b")])]));
        v.push(doc(vec![cb("", vec![text(s)])]));
        v.push(doc(vec![h(2, vec![text(s)])]));
        v.push(doc(vec![ul(vec![li(vec![ps(s)])]), bq(vec![ps(s)])]));
    }
    v
}
pub fn c21(e: &Engine) {
    MANY_LINKS.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut all: Vec<(&str, Vec<T>)> = vec![];
    all.push((
        "blocks",
        docset(
            &[
                (pal_struct(), e.q(12, 14)),
                (pal_blocks(), e.q(8, 9)),
                (pal_attrs(), e.q(8, 9)),
                (pal_inline(), e.q(6, 7)),
                (pal_marks(), e.q(6, 7)),
            ],
            e.q(4, 6),
        ),
    ));
    // every combination of marks on neighbouring texts
    let mut sets: Vec<Vec<M>> = vec![];
    for b in 0..4 {
        for l in [None, Some(link("x")), Some(M::Link("y".into(), "t".into()))] {
            let mut v = vec![];
            if b & 1 != 0 {
                v.push(M::Strong);
            }
            if b & 2 != 0 {
                v.push(M::Em);
            }
            v.extend(l);
            sets.push(v);
        }
    }
    let mut atoms: Vec<T> = sets.iter().map(|m| mtext("a", m)).collect();
    atoms.push(text(" "));
    atoms.push(text(", "));
    for m in [vec![], vec![M::Em], vec![link("x")]] {
        let mut v = m.clone();
        v.push(M::Code);
        v.sort_by_key(|m| m.kind());
        atoms.push(mtext("c", &v));
    }
    atoms.push(br());
    atoms.push(img("s", "alt", "t"));
    atoms.push(img("s", "", ""));
    all.push(("marks", inline_docs(&atoms, e.q(4, 5), p)));
    // marked words, separated
    let mut words = vec![];
    for a in &sets {
        for b in &sets {
            for c in &sets {
                for sep in [vec![], vec![M::Strong], vec![M::Em], vec![link("x")], vec![M::Strong, M::Em]] {
                    let mut k = vec![];
                    for (i, m) in [a, b, c].iter().enumerate() {
                        if i > 0 {
                            push_inline(&mut k, mtext(" - ", &sep));
                        }
                        push_inline(&mut k, mtext(["ab", "cd", "ef"][i], m));
                    }
                    words.push(doc(vec![p(k.clone()), h(2, k), ps("end")]));
                }
            }
        }
    }
    all.push(("words", words));
    // texts with characters that mean something
    let chars = ["a", " ", "*", "_", "`", "[", "]", "(", "!", "\\", "\n", "<", "&", "#", "-", ">", "1", ".", "|", "\u{1F60A}"];
    let special: Vec<T> = chars.iter().map(|s| text(s)).collect();
    let mut texts = inline_docs(&special, e.q(5, 5), p);
    texts.extend(inline_docs(&special, 3, |k| h(3, k)));
    texts.extend(inline_docs(&special, 3, |k| cb("", k)));
    texts.extend(inline_docs(&special, 3, |k| bq(vec![p(k)])));
    texts.extend(inline_docs(&special, 2, |k| ul(vec![li(vec![p(k), ps("z")])])));
    let code: Vec<T> = chars.iter().map(|s| mtext(s, &[M::Code])).collect();
    texts.extend(inline_docs(&code, 3, p));
    all.push(("texts", texts));
    // attributes
    let strs = ["", "a", "b c", "\"", "(", ")", "<", "&", "\\", "*", "`", "\n", "\u{e9}", "http://x/?q=1&r=2"];
    let mut attrs = vec![];
    for a in strs {
        attrs.push(doc(vec![cb(a, vec![text("x")])]));
        attrs.push(doc(vec![cb(a, vec![])]));
        for b in strs {
            attrs.push(doc(vec![p(vec![mtext("x", &[M::Link(a.into(), b.into())])])]));
            for c in strs {
                attrs.push(doc(vec![p(vec![text("i"), img(a, b, c), text("j")])]));
            }
        }
    }
    for n in [0, 1, 2, 9, 10, 123, 999_999_999, 1 << 32, usize::MAX] {
        attrs.push(doc(vec![ol(n, vec![li(vec![ps("a")]), li(vec![ps("b"), cb("", vec![text("c")])])])]));
    }
    for l in 0..=255 {
        attrs.push(doc(vec![h(l, vec![text("a")]), ps("b")]));
    }
    all.push(("attributes", attrs));
    // the values of everything a document holds
    let mut vals = all_values(e.thorough());
    vals.extend(length_docs(e.q(8, 12)));
    vals.extend(
        huge_docs()
            .into_iter()
            .chain(large_docs(e.thorough()))
            .filter(|d| d.content_size() < e.q(9000, 99_999) && super::json::depth_of(d) < 60),
    );
    for n in 0..=e.q(1100, 20_000) {
        vals.push(doc(vec![ol(n, vec![li(vec![ps("a")]), li(vec![ps("b")])])]));
    }
    all.push(("values", vals));
    let mut words = vec![];
    let atoms = ["a", "/", "%20", "?", "#", "&", "&amp;", "\u{e9}", "(", ")", " ", "\\", "_", "*", ".", ":", "A", "'", "\"", "<", ">"];
    let mut strs: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..e.q(3, 4) {
        let to = strs.len();
        for i in from..to {
            for a in atoms {
                strs.push(format!("{}{}", strs[i], a));
            }
        }
        from = to;
    }
    for s in &strs {
        words.extend(in_places(s));
    }
    all.push(("words-in-places", words));
    let mut chars = vec![];
    for u in 0..e.q(0x3000, 0x20000) {
        if let Some(ch) = char::from_u32(u) {
            chars.extend(in_places(&ch.to_string()));
            chars.extend(in_places(&format!("a{}b", ch)));
        }
    }
    for u in (0xfb00..0x10000).chain(0x1f100..0x1f700).chain(0xe0000..0xe0200) {
        if let Some(ch) = char::from_u32(u) {
            chars.push(doc(vec![p(vec![text(&format!("a{}b", ch)), mtext(&ch.to_string(), &[M::Em])]), ps(&ch.to_string())]));
        }
    }
    for s in char_sequences() {
        chars.push(doc(vec![ps(&s), p(vec![mtext(&format!("a{}b", s), &[M::Em])])]));
    }
    for ch in VALUE_CHARS {
        chars.extend(in_places(&format!("a{}b", ch)));
    }
    all.push(("characters", chars));
    // blocks inside blocks, with text
    let mut nested = vec![];
    let leafs: Vec<T> = vec![
        ps("a"),
        p(vec![text("b"), mtext("c", &[M::Em])]),
        h(2, vec![text("d")]),
        cb("r", vec![text("e\nf")]),
        cb("", vec![text("g\n\n  h")]),
        hr(),
    ];
    let mut level: Vec<T> = leafs.clone();
    for depth in 0..e.q(2, 3) {
        let mut next = vec![];
        let used: Vec<&T> = if depth < 2 { level.iter().collect() } else { level.iter().step_by(7).collect() };
        for x in &used {
            for y in leafs.iter().map(Some).chain([None]) {
                let mut k = vec![(*x).clone()];
                k.extend(y.cloned());
                next.push(bq(k.clone()));
                k.insert(0, ps("i"));
                next.push(ul(vec![li(k.clone())]));
                next.push(ol(3, vec![li(vec![ps("j")]), li(k.clone())]));
                next.push(ul(vec![li(k), li(vec![ps("k")])]));
            }
        }
        for x in &next {
            for y in leafs.iter().chain([&bq(vec![ps("q")]), &ul(vec![li(vec![ps("r")])])]) {
                nested.push(doc(vec![x.clone(), y.clone()]));
            }
            nested.push(doc(vec![ps("s"), x.clone()]));
        }
        level = next;
    }
    all.push(("nested", nested));
    for (name, docs) in &all {
        let chunks: Vec<&[T]> = docs.chunks(64).collect();
        e.par(name, &chunks, |c, ds| {
            for x in ds.iter() {
                c.state();
                c.case(|| json!({"property": "C21", "doc": x.json()}), || c21_case(x));
            }
        });
    }
    let _: Option<HashMap<u8, u8>> = None;
}
pub fn c21_replay(v: &Value) -> Res {
    c21_case(&T::from_json(&v["doc"]))
}
