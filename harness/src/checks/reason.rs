//! C27: the error with which something is refused states a reason that applies.
use super::repl::{family_slices, inline_slices, wild_slices, Space};
use super::steps::{around_step, around_value_docs, around_value_slices, mark_step, odd_docs, replace_step, Ar};
use super::*;
use prosemirror::markdown::{from_markdown, FromMarkdownError, MD};
use prosemirror::model::{InsertError, Node, ReplaceError, ResolveErr, SliceError};
use prosemirror::transform::*;
use pulldown_cmark::{Event, Parser, Tag};

/// The positions used by an operation and whether they make sense.
struct Places<'a> {
    d: &'a DocCtx,
    bad: Vec<usize>,
}
impl<'a> Places<'a> {
    fn new(d: &'a DocCtx) -> Self {
        Places { d, bad: vec![] }
    }
    fn ok(&self, p: usize) -> bool {
        p <= self.d.len() && !self.d.mid(p)
    }
    /// Note a range; whether it is one of the document.
    fn range(&mut self, from: usize, to: usize) -> bool {
        let n = self.bad.len();
        for p in [from, to] {
            if !self.ok(p) {
                self.bad.push(p);
            }
        }
        if from > to {
            self.bad.extend([from, to]);
        }
        self.bad.len() == n
    }
    /// Does an error about a position apply?
    fn allows(&self, e: &ResolveErr) -> bool {
        match e {
            ResolveErr::RangeError { pos } => self.bad.contains(pos),
            // an index is relative to some parent
            ResolveErr::Index(_) => !self.bad.is_empty(),
        }
    }
    fn allows_slice(&self, e: &SliceError) -> bool {
        matches!(e, SliceError::Resolve(r) if self.allows(r))
    }
}

/// The messages of an error and of what caused it name what the error is about.
fn explained(e: &(dyn std::error::Error + 'static), words: &[String]) -> Result<(), String> {
    let (mut told, mut next, mut n) = (String::new(), Some(e), 0);
    while let Some(x) = next {
        let m = x.to_string();
        if m.trim().is_empty() {
            return Err(format!("{:?} has no message", x));
        }
        told.push_str(&m);
        told.push('\n');
        next = x.source();
        n += 1;
        if n > 10 {
            return Err(format!("{:?} has causes without end", e));
        }
    }
    match words.iter().find(|w| !told.contains(w.as_str())) {
        Some(w) => Err(format!("the messages of {:?} do not name {}: {:?}", e, w, told)),
        None => Ok(()),
    }
}
fn resolve_words(e: &ResolveErr) -> Vec<String> {
    match e {
        ResolveErr::RangeError { pos } => vec![pos.to_string()],
        ResolveErr::Index(_) => vec![],
    }
}
fn step_words(e: &StepError<MD>) -> Vec<String> {
    match e {
        StepError::Resolve(r) | StepError::Slice(SliceError::Resolve(r)) | StepError::Replace(ReplaceError::Resolve(r)) => resolve_words(r),
        StepError::Replace(ReplaceError::CannotJoin(a, b)) => vec![format!("{:?}", a), format!("{:?}", b)],
        StepError::Replace(ReplaceError::InvalidContent(a)) => vec![format!("{:?}", a)],
        _ => vec![],
    }
}

fn reals(list: &[(Ty, Ty)], a: &prosemirror::markdown::MarkdownNodeType, b: &prosemirror::markdown::MarkdownNodeType) -> bool {
    list.iter().any(|(x, y)| x.real() == *a && y.real() == *b)
}
/// Is this a reason to refuse replacing a proper range by these tokens?
fn replace_reason(
    d: &DocCtx,
    from: usize,
    to: usize,
    toks: &[Tok],
    (os, oe): (usize, usize),
    info: &SliceInfo,
    e: &ReplaceError<MD>,
) -> Result<&'static str, String> {
    let w = match ref_replace(d, from, to, toks, os, oe, info) {
        Ok(_) => return Err("although it fits".into()),
        Err(w) => w,
    };
    if !why_allows(&w, e) {
        return Err(format!("applicable: {:?}", w));
    }
    if w.malformed {
        return Ok("refused: the slice is not open that deep");
    }
    Ok(match e {
        ReplaceError::InsertTooDeep => "refused: open too deep",
        ReplaceError::InconsistentOpenDepths {
            from_depth,
            open_start,
            to_depth,
            open_end,
        } => {
            let want = (d.depth(from), os, d.depth(to), oe);
            if (*from_depth, *open_start, *to_depth, *open_end) != want {
                return Err(format!("the depths are {:?}", want));
            }
            "refused: open depths disagree"
        }
        ReplaceError::CannotJoin(a, b) => {
            let list = ref_joins(d, from, to, toks.is_empty(), os, info);
            if !reals(&list, a, b) {
                return Err(format!("what cannot be joined is {:?}", list));
            }
            "refused: cannot join"
        }
        ReplaceError::InvalidContent(ty) => {
            let v = splice(d, from, to, toks, os, oe);
            let bad = super::repl::invalid_types(d.t.ty(), &v);
            if !bad.iter().any(|x| x.real() == *ty) {
                return Err(format!("nodes with invalid content are {:?}", bad));
            }
            "refused: invalid content"
        }
        ReplaceError::Resolve(_) => return Err("all positions are valid".into()),
    })
}

pub fn replace_eval(d: &DocCtx, s: &SliceCtx, from: usize, to: usize, structure: bool) -> Res {
    let e = match replace_step(s, from, to, structure).apply(&d.node) {
        Ok(_) => return Ok("accepted"),
        Err(e) => e,
    };
    explained(&e, &step_words(&e))?;
    let wrong = |e: &StepError<MD>, w: &str| {
        Err(format!(
            "replacing {}..{} of {} by {}{} is refused with a reason that does not apply, {:?}: {}",
            from,
            to,
            d.show(),
            s.s.show(),
            if structure { " as a structural step" } else { "" },
            e,
            w
        ))
    };
    let mut pl = Places::new(d);
    let proper = pl.range(from, to);
    match &e {
        StepError::WouldOverwrite if structure && proper && has_content(&d.toks[from..to]) => Ok("refused: overwrites content"),
        // what lies past the end is not known to be structure, and ends inside of a character
        // lie in a text
        StepError::WouldOverwrite if structure && !proper && from <= to && pl.ok(from) => Ok("refused: may overwrite content"),
        StepError::WouldOverwrite => wrong(&e, "nothing is overwritten"),
        StepError::Resolve(r) | StepError::Replace(ReplaceError::Resolve(r)) if pl.allows(r) => Ok("refused: position"),
        StepError::Slice(r) if pl.allows_slice(r) => Ok("refused: position"),
        StepError::Replace(r) if proper => {
            let info = slice_info(&s.toks, s.s.os, s.s.oe);
            replace_reason(d, from, to, &s.toks, (s.s.os, s.s.oe), &info, r).or_else(|w| wrong(&e, &w))
        }
        StepError::Replace(_) => wrong(&e, "the range is not in the document"),
        _ => wrong(&e, "this says nothing about a replacement"),
    }
}
pub fn around_eval(d: &DocCtx, s: &SliceCtx, a: &Ar) -> Res {
    let e = match around_step(s, a).apply(&d.node) {
        Ok(_) => return Ok("accepted"),
        Err(e) => e,
    };
    explained(&e, &step_words(&e))?;
    let wrong = |w: &str| {
        Err(format!(
            "{:?} on {} with {} is refused with a reason that does not apply, {:?}: {}",
            a,
            d.show(),
            s.s.show(),
            e,
            w
        ))
    };
    let mut pl = Places::new(d);
    let range = pl.range(a.from, a.to);
    // An empty gap holds nothing, wherever it is.
    let gap = a.gf == a.gt || pl.range(a.gf, a.gt);
    if a.gf > a.gt {
        return Ok("refused: reversed gap");
    }
    let mut over = false;
    if a.structure {
        for (x, y) in [(a.from, a.gf), (a.gt, a.to)] {
            if pl.range(x, y) {
                over |= has_content(&d.toks[x..y]);
            } else {
                over |= x <= y && pl.ok(x);
            }
        }
    }
    let flat = gap && a.gf == a.gt || gap && {
        let (_, os, oe) = ref_slice(d, a.gf, a.gt, false);
        os == 0 && oe == 0
    };
    // where the gap is put
    let k = a.insert.checked_add(s.s.os).filter(|k| *k <= s.toks.len() && !(*k < s.toks.len() && is_low(s.toks[*k])));
    let put = || {
        let k = k.unwrap();
        let mut st = s.toks[..k].to_vec();
        st.extend_from_slice(if a.gf == a.gt { &[] } else { &d.toks[a.gf..a.gt] });
        st.extend_from_slice(&s.toks[k..]);
        st
    };
    match &e {
        StepError::GapWouldOverwrite if over => Ok("refused: overwrites content"),
        StepError::GapWouldOverwrite => wrong("nothing is overwritten"),
        StepError::WouldOverwrite => wrong("this is not said of a gap"),
        StepError::Resolve(r) | StepError::Replace(ReplaceError::Resolve(r)) if pl.allows(r) => Ok("refused: position"),
        StepError::Slice(r) if pl.allows_slice(r) => Ok("refused: position"),
        StepError::GapNotFlat if gap && !flat => Ok("refused: gap not flat"),
        StepError::GapNotFlat => wrong("the gap is flat, or no range of the document"),
        StepError::Insert(InsertError::Index(_)) if k.is_none() => Ok("refused: insertion outside of the slice"),
        StepError::GapNotFit | StepError::Insert(InsertError::Content(_)) if flat && k.is_some() => {
            // the innermost node around the insertion is closed and does not accept the gap
            let st = put();
            let mut open = vec![];
            for (i, &x) in s.toks[..k.unwrap()].iter().enumerate() {
                if is_open(x) {
                    open.push(i);
                } else if is_close(x) {
                    open.pop();
                }
            }
            let parent = match open.last() {
                Some(p) => *p,
                None => return wrong("the gap is put at the top of the slice"),
            };
            let others: Vec<usize> = (0..st.len()).filter(|i| is_open(st[*i]) && *i != parent).collect();
            if closed_nodes_valid(&st, &others) {
                return wrong("the gap fits where it is put");
            }
            Ok("refused: the gap does not fit there")
        }
        StepError::GapNotFit => wrong("there is no gap, or no place to put it"),
        StepError::Replace(r) if range && flat && k.is_some() => {
            let st = put();
            let info = slice_info(&st, s.s.os, s.s.oe);
            // the content of other closed nodes is not looked at by a replacement
            replace_reason(d, a.from, a.to, &st, (s.s.os, s.s.oe), &info, r).or_else(|w| wrong(&w))
        }
        StepError::Replace(_) => wrong("there is nothing to replace, or nothing to replace it by"),
        _ => wrong("all positions are valid"),
    }
}
pub fn pos_eval(d: &DocCtx, from: usize, to: usize) -> Res {
    let what = |op: &str, e: String| Err(format!("{} {}..{} of {} (size {}) is refused with a reason that does not apply: {}", op, from, to, d.show(), d.len(), e));
    let mut seen = "accepted";
    let mut one = Places::new(d);
    one.range(from, from);
    if let Err(e) = d.node.resolve(from) {
        seen = "refused: position";
        explained(&e, &resolve_words(&e))?;
        if !one.allows(&e) {
            return what("resolving the first of", format!("{:?}", e));
        }
    }
    let mut pl = Places::new(d);
    let proper = pl.range(from, to);
    for parents in [false, true] {
        if let Err(e) = d.node.slice(from..to, parents) {
            seen = "refused: position";
            explained(&e, &match &e {
                SliceError::Resolve(r) => resolve_words(r),
                _ => vec![],
            })?;
            if !pl.allows_slice(&e) {
                return what("slicing", format!("{:?}", e));
            }
        }
    }
    for (m, add) in [(M::Em, true), (M::Strong, false), (link("z"), true), (M::Code, false)] {
        let got = mark_step(from, to, &m, add).apply(&d.node);
        if let Err(e) = &got {
            explained(e, &step_words(e))?;
        }
        match got {
            Ok(_) => {}
            Err(StepError::Resolve(r)) | Err(StepError::Replace(ReplaceError::Resolve(r))) if pl.allows(&r) => {}
            Err(StepError::Slice(r)) if pl.allows_slice(&r) => {}
            // an invalid document stays invalid
            Err(StepError::Replace(ReplaceError::InvalidContent(_))) if proper && !valid_toks(d.t.ty(), &d.toks) => {}
            Err(e) => return what(if add { "marking" } else { "unmarking" }, format!("{:?}", e)),
        }
    }
    Ok(seen)
}

// ---- Markdown ----------------------------------------------------------------------
/// What of a text has no place in a document, by the names used in errors.
fn unsupported(text: &str) -> Vec<&'static str> {
    let mut v = vec![];
    let (mut heading, mut image, mut depth, mut deepest) = (0usize, 0usize, 0usize, 0usize);
    for ev in Parser::new(text) {
        match ev {
            Event::Html(_) => v.push("Html"),
            Event::SoftBreak => v.push("SoftBreak"),
            Event::HardBreak => {
                if heading > 0 {
                    v.push("HardBreak in Heading");
                }
                if image > 0 {
                    v.push("Image");
                }
            }
            Event::FootnoteReference(_) => v.push("FootnoteReference"),
            Event::TaskListMarker(_) => v.push("TaskListMarker"),
            Event::Start(t) => {
                depth += 1;
                deepest = deepest.max(depth);
                match t {
                    Tag::Heading(_) => heading += 1,
                    Tag::Image(..) => image += 1,
                    Tag::Table(_) => v.push("Table"),
                    Tag::TableHead => v.push("TableHead"),
                    Tag::TableRow => v.push("TableRow"),
                    Tag::TableCell => v.push("TableCell"),
                    Tag::Strikethrough => v.push("Strikethrough"),
                    Tag::FootnoteDefinition(_) => v.push("FootnoteDefinition"),
                    _ => {}
                }
            }
            Event::End(t) => {
                depth -= 1;
                match t {
                    Tag::Heading(_) => heading -= 1,
                    Tag::Image(..) => image -= 1,
                    _ => {}
                }
            }
            _ => {}
        }
    }
    if deepest > 900 {
        v.push("Nesting this deep");
    }
    v
}
const NAMES: &[&str] = &[
    "Html", "SoftBreak", "HardBreak in Heading", "FootnoteReference", "TaskListMarker", "Table", "TableHead", "TableRow",
    "TableCell", "Strikethrough", "FootnoteDefinition", "Nesting this deep", "Paragraph", "Heading", "BlockQuote", "CodeBlock",
    "List", "Item", "Emphasis", "Strong", "Link", "Image", "Text", "Code", "HardBreak", "Rule",
];
pub fn md_eval(text: &str) -> Res {
    let e = match from_markdown(text) {
        Ok(_) => return Ok("read"),
        Err(e) => e,
    };
    let what = unsupported(text);
    let words = match &e {
        FromMarkdownError::NotSupported(n) | FromMarkdownError::NoChildrenAllowed(n) => vec![n.to_string()],
        _ => vec![],
    };
    explained(&e, &words)?;
    let wrong = || Err(format!("{:?} is refused with a reason that does not apply: {:?} (it holds {:?})", text, e, what));
    match &e {
        FromMarkdownError::NotSupported(n) | FromMarkdownError::NoChildrenAllowed(n) => {
            if what.is_empty() || (NAMES.contains(n) && !what.contains(n)) {
                return wrong();
            }
            Ok(match *n {
                "Html" => "refused: HTML",
                "SoftBreak" => "refused: soft break",
                "HardBreak in Heading" => "refused: hard break in a heading",
                "Image" => "refused: hard break in an image",
                _ => "refused: other",
            })
        }
        // the parser only makes levels from 1 to 6 and properly nested events
        _ => wrong(),
    }
}
fn texts(parts: &[&str], n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| parts.iter().map(move |p| format!("{}{}", s, p))).collect();
        all.extend(last.iter().cloned());
    }
    all
}

// ---- the exploration ---------------------------------------------------------------
fn any_pos(len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=len + 2).collect();
    v.extend([usize::MAX / 2, usize::MAX - 1, usize::MAX]);
    v
}
pub fn c27(e: &Engine) {
    let mut docs = docset(
        &[
            (pal_struct(), e.q(9, 11)),
            (pal_blocks(), e.q(5, 6)),
            (pal_inline(), e.q(4, 5)),
            (pal_marks(), e.q(3, 4)),
        ],
        2,
    );
    docs.extend(odd_docs().into_iter().filter(|d| d.content_size() > 0));
    e.par("positions", &docs, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let ps = any_pos(d.len());
        for &from in &ps {
            for &to in &ps {
                c.ops(7);
                c.case(
                    || json!({"property": "C27", "kind": "pos", "doc": t.json(), "from": from, "to": to}),
                    || pos_eval(&d, from, to),
                );
            }
        }
    });
    // replacements, in and outside of the document
    let docs = docset(&[(pal_struct(), e.q(8, 9)), (pal_blocks(), e.q(5, 6)), (pal_inline(), e.q(3, 4))], e.q(1, 2));
    let mut sl = slices_of(&docset(&[(pal_struct(), e.q(6, 7)), (pal_blocks(), e.q(4, 5))], 0), 99);
    sl.extend(inline_slices(2));
    sl.extend(family_slices());
    let sp = Space::new(&docs, sl);
    let replaces = |phase: &str, sp: &Space| {
        e.par(phase, &sp.items, |c, &(i, from)| {
            let d = &sp.docs[i];
            let n = d.len();
            if from == 0 {
                c.state();
            }
            let mut ends: Vec<usize> = (0..=n + 1).collect();
            ends.push(usize::MAX);
            for to in ends {
                for (k, s) in sp.slices.iter().enumerate() {
                    let proper = from <= to && to <= n && !d.mid(to);
                    if !proper && k > 12 {
                        break;
                    }
                    for structure in [false, true] {
                        c.ops(1);
                        c.case(
                            || json!({"property": "C27", "kind": "replace", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json(), "structure": structure}),
                            || replace_eval(d, s, from, to, structure),
                        );
                    }
                }
                if c.stopped() {
                    return;
                }
            }
        })
    };
    replaces("replace", &sp);
    let heads = [Head::Paragraph, Head::Heading(2), Head::CodeBlock(String::new()), Head::Blockquote, Head::BulletList(false), Head::ListItem];
    let wild = wild_slices(e.q(3, 4), &heads, &[text("x"), mtext("x", &[M::Em]), hr(), br()]);
    let sp = Space::new(&docset(&[(pal_struct(), e.q(7, 8)), (pal_blocks(), 5)], 0), wild);
    replaces("replace-wild", &sp);
    let sp = super::repl::large_space(e, e.q(3000, 99_999));
    e.par("replace-large", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in sp.ends(i, from) {
            for s in sp.slices.iter() {
                c.ops(1);
                let structure = (from + to) % 2 == 0;
                c.case(
                    || json!({"property": "C27", "kind": "replace", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json(), "structure": structure}),
                    || replace_eval(d, s, from, to, structure),
                );
            }
            if c.stopped() {
                return;
            }
        }
    });
    // replace-around steps with any numbers
    let arounds = |phase: &str, sp: &Space| {
        e.par(phase, &sp.items, |c, &(i, from)| {
            let d = &sp.docs[i];
            let n = d.len();
            if from == 0 {
                c.state();
            }
            let ps: Vec<usize> = (0..=n + 1).collect();
            for &gf in &ps {
                for &gt in &ps {
                    for &to in &ps {
                        let order = from <= gf && gf <= gt && gt <= to && to <= n;
                        for (k, s) in sp.slices.iter().enumerate() {
                            if !order && k > 1 {
                                break;
                            }
                            let top = s.toks.len() - s.s.os.min(s.toks.len());
                            for insert in (0..=top + 1).chain([usize::MAX]) {
                                for structure in [false, true] {
                                    let a = Ar { from, to, gf, gt, insert, structure };
                                    c.ops(1);
                                    c.case(
                                        || json!({"property": "C27", "kind": "around", "doc": d.t.json(), "slice": s.s.json(), "step": a.json()}),
                                        || around_eval(d, s, &a),
                                    );
                                }
                            }
                        }
                        if c.stopped() {
                            return;
                        }
                    }
                }
            }
        })
    };
    let docs = docset(&[(pal_struct(), e.q(7, 8)), (pal_blocks(), e.q(4, 5)), (pal_inline(), 3)], 0);
    let sp = Space::new(&docs, super::steps::around_slices(e.q(3, 4)));
    arounds("around", &sp);
    let sp = Space::new(&around_value_docs(), around_value_slices());
    arounds("around-values", &sp);
    let docs = docset(&[(pal_struct(), 6), (pal_blocks(), 4)], 0);
    let wild = wild_slices(e.q(3, 4), &[Head::Paragraph, Head::Blockquote, Head::BulletList(false), Head::ListItem], &[text("x"), hr()]);
    arounds("around-wild", &Space::new(&docs, wild));
    // Markdown
    let sets = [
        texts(&["a", "\n", "  \n", "# ", "* ", "> ", "![", "](u)", "<b>", "*", "===\n", "- [ ] ", "~~", "|", "[^1]", ": "], e.q(5, 6)),
        texts(&["a\n", "b\\\n", "\n", "<div>\n", "===\n", "![x\\\ny](u)", "> ", "- ", "`c`", "&amp;", "<!-- -->", "|-|\n"], e.q(5, 6)),
    ];
    let html = [
        "<b>", "</b>", "</div>", "<div>", "<div", "<br/>", "<a href=\"u\">", "<!-- c -->", "<?x?>", "<!X y>", "<![CDATA[x]]>", "<pre>",
        "<script>", "a", "\n", "    ", "> ", "- ", "# ", "*", "[", "](u)",
    ];
    let sets = [sets[0].clone(), sets[1].clone(), texts(&html, e.q(4, 5))];
    for (phase, set) in ["markdown-parts", "markdown-lines", "markdown-html"].iter().zip(&sets) {
        let chunks: Vec<&[String]> = set.chunks(500).collect();
        e.par(phase, &chunks, |c, ch| {
            for s in ch.iter() {
                c.state();
                c.ops(1);
                c.case(|| json!({"property": "C27", "kind": "markdown", "text": s}), || md_case(s));
            }
        });
    }
}
/// Texts on which the parser itself fails are not judged.
fn md_case(s: &str) -> Res {
    match guarded(|| unsupported(s)) {
        Ok(_) => md_eval(s),
        Err(p) if p.contains("pulldown-cmark") => Ok("the parser library panics"),
        Err(p) => panic!("{}", p),
    }
}
pub fn c27_replay(v: &Value) -> Res {
    if v["kind"] == json!("markdown") {
        return md_case(v["text"].as_str().unwrap());
    }
    let d = jdoc(v, "doc");
    let sl = || SliceCtx::new(S::from_json(&v["slice"]));
    match v["kind"].as_str().unwrap() {
        "pos" => pos_eval(&d, ju(v, "from"), ju(v, "to")),
        "replace" => replace_eval(&d, &sl(), ju(v, "from"), ju(v, "to"), v["structure"] == json!(true)),
        _ => around_eval(&d, &sl(), &Ar::from_json(&v["step"])),
    }
}
