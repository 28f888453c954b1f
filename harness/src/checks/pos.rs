//! C01 sizes, C02 resolve, C03 slice.
use super::*;
use prosemirror::markdown::{MarkdownNode, MD};
use prosemirror::model::{Fragment, Node, ResolveErr, ResolvedPos, SliceError, Text};
use std::borrow::Cow;
use std::ops::Bound;

// ---- C02 ---------------------------------------------------------------------------
fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} but should be {:?}", what, got, want))
    }
}

/// What `node_before` / `node_after` should be.
enum Adj<'a> {
    None,
    Node(&'a MarkdownNode),
    Part(T),
}

fn check_adj(what: &str, got: Option<Cow<MarkdownNode>>, want: Adj) -> Result<(), String> {
    match (got, want) {
        (None, Adj::None) => Ok(()),
        (Some(g), Adj::Node(w)) if *g == *w => Ok(()),
        (Some(g), Adj::Part(w)) if T::from_real(&g) == w && g.node_size() == w.size() => Ok(()),
        (g, Adj::None) => Err(format!("{} is {:?} but there is no such node", what, g)),
        (g, Adj::Node(w)) => Err(format!("{} is {:?} but should be {:?}", what, g, w)),
        (g, Adj::Part(w)) => Err(format!("{} is {:?} but should be {}", what, g, w.show())),
    }
}

pub fn c02_eval(d: &DocCtx, refs: &[&MarkdownNode], kid_refs: &[&[MarkdownNode]], pos: usize) -> Res {
    let r = d.node.resolve(pos);
    let rp: ResolvedPos<MD> = match r {
        Err(e) => {
            if pos <= d.len() && !d.mid(pos) {
                return Err(format!("position {} of {} was refused: {}", pos, d.len(), e));
            }
            if pos > d.len() {
                eq("the error", e, ResolveErr::RangeError { pos })?;
                return Ok("refused: out of range");
            }
            return Ok("refused: inside a surrogate pair");
        }
        Ok(rp) => rp,
    };
    if pos > d.len() {
        return Err(format!("position {} was accepted, the content ends at {}", pos, d.len()));
    }
    if d.mid(pos) {
        return Err(format!("position {} is inside a surrogate pair but was accepted", pos));
    }
    let spine = d.spine(pos);
    let depth = spine.len() - 1;
    // depth + 1 stands for the position itself, which tells us the depth
    eq("before(depth + 1)", rp.before(depth + 1), Some(pos))?;
    eq("after(depth + 1)", rp.after(depth + 1), Some(pos))?;
    eq("before(0)", rp.before(0), None)?;
    eq("after(0)", rp.after(0), None)?;
    if !std::ptr::eq(rp.doc(), &d.node) {
        return Err("doc() is not the document".into());
    }
    if !std::ptr::eq(rp.parent(), refs[spine[depth]]) {
        return Err("parent() is not the innermost node around the position".into());
    }
    let parent = &d.rn[spine[depth]];
    let mut text_offset = 0;
    for (k, &n) in spine.iter().enumerate() {
        let rn = &d.rn[n];
        if !std::ptr::eq(rp.node(k), refs[n]) {
            return Err(format!("node({}) is {:?}", k, rp.node(k)));
        }
        eq(&format!("start({})", k), rp.start(k), rn.cstart)?;
        eq(&format!("end({})", k), rp.end(k), rn.cend)?;
        if k > 0 {
            eq(&format!("before({})", k), rp.before(k), Some(rn.before))?;
            eq(&format!("after({})", k), rp.after(k), Some(rn.cend + 1))?;
        }
        // index: the child around or directly after the position
        let (idx, after) = if k < depth {
            let i = rn.kids.iter().position(|c| c.node == Some(spine[k + 1])).unwrap();
            (i, i + 1)
        } else {
            let i = rn
                .kids
                .iter()
                .position(|c| pos < c.before + c.size)
                .unwrap_or(rn.kids.len());
            match rn.kids.get(i) {
                Some(c) if c.before < pos => {
                    text_offset = pos - c.before;
                    (i, i + 1)
                }
                _ => (i, i),
            }
        };
        eq(&format!("index({})", k), rp.index(k), idx)?;
        eq(&format!("index_after({})", k), rp.index_after(k), after)?;
    }
    eq("text_offset()", rp.text_offset(), text_offset)?;
    let i = rp.index(depth);
    let kids = kid_refs[spine[depth]];
    let tkids = &parent.kids;
    if text_offset > 0 {
        let (s, m) = match &kids[i] {
            MarkdownNode::Text(t) => (t.text.as_str(), &t.marks),
            _ => unreachable!(),
        };
        let u: Vec<u16> = s.encode_utf16().collect();
        let ms: Vec<M> = m.into_iter().map(M::from_real).collect();
        let part = |r: &[u16]| Adj::Part(mtext(&String::from_utf16(r).unwrap(), &ms));
        check_adj("node_before()", rp.node_before(), part(&u[..text_offset]))?;
        check_adj("node_after()", rp.node_after(), part(&u[text_offset..]))?;
    } else {
        check_adj(
            "node_before()",
            rp.node_before(),
            if i == 0 { Adj::None } else { Adj::Node(&kids[i - 1]) },
        )?;
        check_adj(
            "node_after()",
            rp.node_after(),
            if i == tkids.len() { Adj::None } else { Adj::Node(&kids[i]) },
        )?;
    }
    let step = 1 + d.len() / 600;
    for q in (0..=d.len() + 2).step_by(step) {
        let mut want = 0;
        for (k, &n) in spine.iter().enumerate() {
            if d.rn[n].cstart <= q && q <= d.rn[n].cend {
                want = k;
            }
        }
        eq(&format!("shared_depth({})", q), rp.shared_depth(q), want)?;
    }
    if d.node.resolve(pos).as_ref() != Ok(&rp) || rp.clone() != rp {
        return Err("resolving the same position twice gives different answers".into());
    }
    Ok(if text_offset > 0 {
        "resolved inside text"
    } else {
        "resolved between nodes"
    })
}
fn kid_refs<'a>(refs: &[&'a MarkdownNode]) -> Vec<&'a [MarkdownNode]> {
    refs.iter().map(|n| n.content().unwrap().children()).collect()
}
pub fn c02(e: &Engine) {
    let docs = docset(
        &[
            (pal_struct(), e.q(12, 15)),
            (pal_blocks(), e.q(8, 10)),
            (pal_attrs(), e.q(7, 9)),
            (pal_inline(), e.q(7, 8)),
            (pal_marks(), e.q(6, 7)),
        ],
        e.q(4, 6),
    );
    e.par("documents", &docs, |c, t| c02_doc(c, t));
    let mut vals = all_values(true);
    vals.extend(length_docs(e.q(9, 16)));
    e.par("values", &vals, |c, t| c02_doc(c, t));
    let mut huge = huge_docs();
    huge.extend(large_docs(true));
    e.par("huge", &huge, |c, t| c02_doc(c, t));
    // the same with text split into neighbouring nodes
    let split: Vec<T> = docs
        .iter()
        .filter(|d| d.content_size() <= e.q(7, 9))
        .flat_map(super::split_variants)
        .collect();
    e.par("split-texts", &split, |c, t| c02_doc(c, t));
    // any node can be the root
    let mut roots: Vec<T> = vec![text("ab"), text(EMOJI), hr(), br(), img("s", "", "")];
    for d in docs.iter().filter(|d| d.content_size() <= 6) {
        roots.extend(d.kids.iter().cloned());
        for k in &d.kids {
            roots.extend(k.kids.iter().cloned());
        }
    }
    let mut seen = HashSet::new();
    roots.retain(|r| seen.insert(r.clone()));
    e.par("other-roots", &roots, |c, t| c02_doc(c, t));
    every_char(e, c02_doc);
}
fn c02_doc(c: &mut Ctx, t: &T) {
    let d = DocCtx::new(t);
    let refs = d.real_refs();
    let kids = kid_refs(&refs);
    c.state();
    let far = [
        d.len() + 1,
        d.len() + 2,
        d.len() + 3,
        usize::MAX / 2,
        usize::MAX - 1,
        usize::MAX,
    ];
    let mut ps: Vec<usize> = if d.len() > 2500 { edge_positions_n(&d, 400) } else { (0..=d.len()).collect() };
    ps.extend(far);
    for pos in ps {
        c.ops(d.len());
        c.case(
            || json!({"property": "C02", "doc": t.json(), "pos": pos}),
            || {
                if refs.is_empty() {
                    // a leaf has no positions but 0
                    return match d.node.resolve(pos) {
                        Err(_) if pos > 0 => Ok("refused: out of range"),
                        Ok(rp) if pos == 0 && rp.before(1) == Some(0) => Ok("resolved in a leaf"),
                        Ok(_) if pos > 0 => Err(format!("position {} of a leaf was accepted", pos)),
                        r => Err(format!("position {} of a leaf gives {:?}", pos, r.is_ok())),
                    };
                }
                c02_eval(&d, &refs, &kids, pos)
            },
        );
    }
}
pub fn c02_replay(v: &Value) -> Res {
    let t = T::from_json(&v["doc"]);
    let d = DocCtx::new(&t);
    let refs = d.real_refs();
    let kids = kid_refs(&refs);
    let pos = v["pos"].as_u64().unwrap() as usize;
    if refs.is_empty() {
        let r = d.node.resolve(pos);
        return if r.is_ok() == (pos == 0) {
            Ok("leaf")
        } else {
            Err("leaf root resolved wrongly".into())
        };
    }
    c02_eval(&d, &refs, &kids, pos)
}

// ---- C03 ---------------------------------------------------------------------------
fn c03_one<R: std::ops::RangeBounds<usize> + std::fmt::Debug>(
    d: &DocCtx,
    r: R,
    parents: bool,
    want: &(Vec<Tok>, usize, usize),
) -> Result<(), String> {
    let name = format!("{:?}", r);
    let s = match d.node.slice(r, parents) {
        Ok(s) => s,
        Err(e) => return Err(format!("slice({}, {}) was refused: {}", name, parents, e)),
    };
    let mut got = vec![];
    let mut info = ReadInfo::default();
    read_fragment(&s.content, &mut got, &mut info)?;
    if (&got, s.open_start, s.open_end) != (&want.0, want.1, want.2) {
        return Err(format!(
            "slice({}, {}) is {} ({},{}) but should be {} ({},{})",
            name,
            parents,
            show_toks(&got),
            s.open_start,
            s.open_end,
            show_toks(&want.0),
            want.1,
            want.2
        ));
    }
    if info.empty_text {
        return Err(format!("slice({}, {}) holds an empty text: {:?}", name, parents, s));
    }
    Ok(())
}
pub fn c03_eval(d: &DocCtx, from: usize, to: usize, parents: bool) -> Res {
    let want = ref_slice(d, from, to, parents);
    c03_one(d, from..to, parents, &want)?;
    if to > 0 && from <= to {
        c03_one(d, from..=to - 1, parents, &want)?;
        c03_one(d, (Bound::Included(from), Bound::Included(to - 1)), parents, &want)?;
    }
    if from > 0 {
        c03_one(d, (Bound::Excluded(from - 1), Bound::Excluded(to)), parents, &want)?;
        if to == d.len() {
            c03_one(d, (Bound::Excluded(from - 1), Bound::Unbounded), parents, &want)?;
        }
    } else {
        c03_one(d, ..to, parents, &want)?;
        if to > 0 {
            c03_one(d, ..=to - 1, parents, &want)?;
        }
    }
    if to == d.len() {
        c03_one(d, from.., parents, &want)?;
        if from == 0 {
            c03_one(d, .., parents, &want)?;
        }
    }
    Ok(if from == to {
        "empty range"
    } else if want.1 == 0 && want.2 == 0 {
        "flat slice"
    } else {
        "open slice"
    })
}
fn c03_refused(d: &DocCtx, from: usize, to: usize, parents: bool) -> Res {
    // a range that is not inside the document
    match d.node.slice(from..to, parents) {
        Err(SliceError::Resolve(_)) => Ok("refused"),
        Err(e) => Err(format!("unexpected error {}", e)),
        Ok(_) if from == to => Ok("empty range anywhere"),
        Ok(s) => Err(format!("slice({}..{}) outside the document gives {:?}", from, to, s)),
    }
}
pub fn c03(e: &Engine) {
    let docs = docset(
        &[
            (pal_struct(), e.q(9, 11)),
            (pal_blocks(), e.q(6, 8)),
            (pal_attrs(), e.q(6, 7)),
            (pal_inline(), e.q(5, 6)),
            (pal_marks(), e.q(5, 6)),
        ],
        e.q(2, 3),
    );
    e.par("documents", &docs, |c, t| c03_doc(c, t));
    let mut vals = all_values(e.thorough());
    vals.extend(length_docs(e.q(6, 9)));
    e.par("values", &vals, |c, t| c03_doc(c, t));
    let huge: Vec<T> = huge_docs()
        .into_iter()
        .chain(large_docs(e.thorough()))
        .filter(|d| d.content_size() < e.q(9000, 99_999))
        .collect();
    e.par("huge", &huge, |c, t| c03_doc(c, t));
    let split: Vec<T> = docs
        .iter()
        .filter(|d| d.content_size() <= e.q(6, 7))
        .flat_map(super::split_variants)
        .collect();
    e.par("split-texts", &split, |c, t| c03_doc(c, t));
    every_char(e, c03_doc);
}
fn c03_doc(c: &mut Ctx, t: &T) {
    let d = DocCtx::new(t);
    c.state();
    let ps = good_positions(&d, 200, 110);
    for &from in &ps {
        for &to in &ps {
            if from > to {
                continue;
            }
            for parents in [false, true] {
                c.ops(3);
                c.case(
                    || json!({"property": "C03", "doc": t.json(), "from": from, "to": to, "parents": parents}),
                    || c03_eval(&d, from, to, parents),
                );
            }
        }
        for to in [d.len() + 1, d.len() + 2, d.len() + 9, 2 * d.len() + 3, d.len() + 65_536, usize::MAX] {
            c.case(
                || json!({"property": "C03", "doc": t.json(), "from": from, "to": to, "parents": false, "outside": true}),
                || c03_refused(&d, from, to, false),
            );
        }
    }
}
pub fn c03_replay(v: &Value) -> Res {
    let d = jdoc(v, "doc");
    let p = v["parents"] == json!(true);
    if v["outside"] == json!(true) {
        c03_refused(&d, ju(v, "from"), ju(v, "to"), p)
    } else {
        c03_eval(&d, ju(v, "from"), ju(v, "to"), p)
    }
}

// ---- C01 ---------------------------------------------------------------------------
fn frag_sizes(f: &Fragment<MD>) -> Result<usize, String> {
    read_fragment(f, &mut vec![], &mut ReadInfo::default())
}
fn node_sizes(n: &MarkdownNode) -> Result<usize, String> {
    read_node(n, &mut vec![], &mut ReadInfo::default())
}
/// Sizes of a document however it was obtained, and of everything derived from it.
pub fn c01_built(t: &T) -> Res {
    let n = t.real();
    if node_sizes(&n)? != t.size() {
        return Err(format!("{} does not have size {}", t.show(), t.size()));
    }
    let j: MarkdownNode = serde_json::from_value(t.json()).map_err(|e| format!("reading JSON: {}", e))?;
    if node_sizes(&j)? != t.size() {
        return Err(format!("{} read from JSON does not have size {}", t.show(), t.size()));
    }
    if super::json::depth_of(t) < 50 {
        let s = serde_json::to_string(&n).unwrap();
        let j: MarkdownNode = serde_json::from_str(&s).map_err(|e| format!("reading {}: {}", s, e))?;
        node_sizes(&j)?;
    }
    if n.content_size() != t.content_size() {
        return Err("content_size() differs from the size of the content".into());
    }
    if n.child_count() != t.kids.len() {
        return Err("child_count() differs".into());
    }
    // hand-built in all the ways the API offers
    if let Some(c) = n.content() {
        frag_sizes(&Fragment::<MD>::from(c.children().to_vec()))?;
        node_sizes(&n.copy(|f| f.clone()))?;
        node_sizes(&n.copy(|_| Fragment::new()))?;
        match c.children() {
            [a] => {
                frag_sizes(&Fragment::from((a.clone(),)))?;
            }
            [a, b] => {
                frag_sizes(&Fragment::from((a.clone(), b.clone())))?;
            }
            _ => {}
        }
    }
    Ok("built and read")
}
pub fn c01_cut(d: &DocCtx, from: usize, to: usize) -> Res {
    let sl = d.node.slice(from..to, false).map_err(|e| e.to_string())?;
    frag_sizes(&sl.content)?;
    let sl = d.node.slice(from..to, true).map_err(|e| e.to_string())?;
    frag_sizes(&sl.content)?;
    let cut = d.node.cut(from..to);
    node_sizes(&cut)?;
    let c = d.node.content().unwrap();
    let mid = c.cut(from..to);
    frag_sizes(&mid)?;
    let (l, r) = (c.cut(..from), c.cut(to..));
    frag_sizes(&l)?;
    frag_sizes(&r)?;
    frag_sizes(&l.clone().append(r.clone()))?;
    frag_sizes(&l.append(mid).append(r))?;
    if let Ok(n) = d.node.replace(from..to, &sl) {
        node_sizes(&n)?;
    }
    if let Ok(n) = d.node.replace(from..to, &prosemirror::model::Slice::default()) {
        node_sizes(&n)?;
    }
    Ok("cut, appended and replaced")
}
pub fn c01_text(s: &str, cut: usize) -> Res {
    let want = s.encode_utf16().count();
    let t = Text::from(s.to_string());
    if t.len_utf16() != want {
        return Err(format!("text {:?} reports {} units, has {}", s, t.len_utf16(), want));
    }
    let n: MarkdownNode = MarkdownNode::text(s);
    if n.node_size() != want {
        return Err(format!("text node {:?} reports size {}, has {}", s, n.node_size(), want));
    }
    let j: MarkdownNode = serde_json::from_value(json!({"type":"text","text":s})).map_err(|e| e.to_string())?;
    if j.node_size() != want || j != n {
        return Err(format!("text node {:?} read from JSON reports size {}", s, j.node_size()));
    }
    let p = doc(vec![p(vec![text(s)])]).real();
    if node_sizes(&p)? != want + 4 {
        return Err("paragraph with this text has the wrong size".into());
    }
    // cut before the `cut`th character
    let (b, u) = match s.char_indices().nth(cut) {
        Some((b, _)) => (b, s[..b].encode_utf16().count()),
        None => (s.len(), want),
    };
    let (l, r) = (Text::from(s[..b].to_string()), Text::from(s[b..].to_string()));
    if l.join(&r) != t || l.join(&r).len_utf16() != want {
        return Err(format!("joining the parts of {:?} gives {:?}", s, l.join(&r)));
    }
    let (l, r) = (n.cut(..u), n.cut(u..));
    if l.node_size() != u || r.node_size() != want - u {
        return Err(format!("cutting {:?} at {} gives sizes {} and {}", s, u, l.node_size(), r.node_size()));
    }
    if l.text_content() != s[..b] || r.text_content() != s[b..] {
        return Err(format!("cutting {:?} at {} gives {:?} and {:?}", s, u, l, r));
    }
    let f: Fragment<MD> = Fragment::from(vec![n]);
    let j = f.cut(..u).append(f.cut(u..));
    frag_sizes(&j)?;
    if j.size() != want {
        return Err(format!("cutting {:?} at {} and appending gives size {}", s, u, j.size()));
    }
    Ok("text")
}
/// characters around every change of UTF-8 or UTF-16 length
pub const EDGE: [char; 12] = [
    'a', '\n', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{1F60A}',
    '\u{10ffff}',
];
pub fn c01(e: &Engine) {
    let docs = docset(
        &[
            (pal_struct(), e.q(9, 11)),
            (pal_blocks(), e.q(6, 8)),
            (pal_attrs(), e.q(5, 7)),
            (pal_inline(), e.q(5, 6)),
            (pal_marks(), e.q(5, 6)),
        ],
        e.q(2, 3),
    );
    let mut vals = all_values(e.thorough());
    vals.extend(length_docs(e.q(6, 9)));
    vals.extend(huge_docs());
    vals.extend(large_docs(e.thorough()).into_iter().filter(|d| d.content_size() < e.q(5000, 99_999)));
    for (phase, docs) in [("documents", &docs), ("values", &vals)] {
    e.par(phase, docs, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        c.case(
            || json!({"property": "C01", "kind": "built", "doc": t.json()}),
            || c01_built(t),
        );
        let ps = good_positions(&d, 200, 80);
        for &from in &ps {
            for &to in ps.iter().filter(|x| **x >= from) {
                c.ops(8);
                c.case(
                    || json!({"property": "C01", "kind": "cut", "doc": t.json(), "from": from, "to": to}),
                    || c01_cut(&d, from, to),
                );
            }
        }
    });
    }
    // all strings over the edge characters
    let n = e.q(4, 5);
    let mut strings: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = strings.len();
        for i in from..to {
            for c in EDGE {
                strings.push(format!("{}{}", strings[i], c));
            }
        }
        from = to;
    }
    let chunks: Vec<&[String]> = strings.chunks(200).collect();
    e.par("strings", &chunks, |c, ss| {
        for s in ss.iter() {
            c.state();
            for cut in 0..=s.chars().count() {
                c.ops(6);
                c.case(
                    || json!({"property": "C01", "kind": "text", "text": s, "cut": cut}),
                    || c01_text(s, cut),
                );
            }
        }
    });
    // every character there is
    let planes: Vec<u32> = (0..0x110).collect();
    e.par("every-character", &planes, |c, p| {
        for u in p << 12..(p + 1) << 12 {
            if let Some(ch) = char::from_u32(u) {
                let s: String = [ch, 'x'].iter().collect();
                c.state();
                c.case(
                    || json!({"property": "C01", "kind": "text", "text": s, "cut": 1}),
                    || c01_text(&s, 1),
                );
            }
        }
    });
    // results of steps
    let docs = docset(
        &[
            (pal_struct(), e.q(7, 9)),
            (pal_blocks(), e.q(5, 6)),
            (pal_inline(), e.q(4, 5)),
            (pal_marks(), e.q(4, 5)),
        ],
        1,
    );
    let mut slices = slices_of(&docset(&[(pal_struct(), 6), (pal_two(), 4)], 0), 8);
    slices.push(S {
        kids: vec![text(EMOJI), mtext("\u{e9}x", &[M::Em])],
        os: 0,
        oe: 0,
    });
    let slices: Vec<SliceCtx> = slices.into_iter().map(SliceCtx::new).collect();
    e.par("steps", &docs, |c, t| {
        use prosemirror::transform::*;
        let d = DocCtx::new(t);
        c.state();
        let ps = positions(&d);
        for &from in &ps {
            for &to in ps.iter().filter(|x| **x >= from) {
                for m in [M::Em, M::Strong, link("x")] {
                    for add in [true, false] {
                        c.case(
                            || json!({"property": "C01", "kind": "mark", "doc": t.json(), "from": from, "to": to, "mark": m.json(), "add": add}),
                            || c01_mark(&d, from, to, &m, add),
                        );
                    }
                }
                for s in &slices {
                    if s.s.os > d.depth(from) || d.depth(from) - s.s.os != d.depth(to).wrapping_sub(s.s.oe) {
                        continue;
                    }
                    c.case(
                        || json!({"property": "C01", "kind": "step", "doc": t.json(), "from": from, "to": to, "slice": s.s.json()}),
                        || {
                            let st: Step<MD> = Step::Replace(ReplaceStep {
                                span: Span { from, to },
                                slice: prosemirror::model::Slice::new(s.real.content.clone(), s.s.os, s.s.oe),
                                structure: false,
                            });
                            match st.apply(&d.node) {
                                Ok(n) => node_sizes(&n).map(|_| "step applied"),
                                Err(_) => Ok("step refused"),
                            }
                        },
                    );
                }
            }
        }
    });
}
fn c01_mark(d: &DocCtx, from: usize, to: usize, m: &M, add: bool) -> Res {
    use prosemirror::transform::*;
    let span = Span { from, to };
    let st: Step<MD> = if add {
        Step::AddMark(AddMarkStep { span, mark: m.real() })
    } else {
        Step::RemoveMark(RemoveMarkStep { span, mark: m.real() })
    };
    match st.apply(&d.node) {
        Ok(n) => node_sizes(&n).map(|_| "step applied"),
        Err(_) => Ok("step refused"),
    }
}
pub fn c01_replay(v: &Value) -> Res {
    match v["kind"].as_str().unwrap() {
        "built" => c01_built(&T::from_json(&v["doc"])),
        "cut" => c01_cut(&jdoc(v, "doc"), ju(v, "from"), ju(v, "to")),
        "text" => c01_text(v["text"].as_str().unwrap(), ju(v, "cut")),
        "mark" => c01_mark(
            &jdoc(v, "doc"),
            ju(v, "from"),
            ju(v, "to"),
            &M::from_json(&v["mark"]),
            v["add"] == json!(true),
        ),
        "step" => {
            let d = jdoc(v, "doc");
            let s = S::from_json(&v["slice"]);
            match d.node.replace(ju(v, "from")..ju(v, "to"), &s.real()) {
                Ok(n) => node_sizes(&n).map(|_| "step applied"),
                Err(_) => Ok("step refused"),
            }
        }
        o => Err(format!("kind {}", o)),
    }
}
