//! C04 replace is a splice, C05 replace accepts what fits, C06 cutting out and putting back.
use super::*;
use crate::gen::docs as gen_docs;
use prosemirror::model::{Node, ReplaceError};

/// Everything a replace case needs, laid out once.
pub struct Space {
    pub docs: Vec<DocCtx>,
    pub slices: Vec<SliceCtx>,
    pub infos: Vec<SliceInfo>,
    /// positions to try, per document: all of a small one
    pub pos: Vec<Vec<usize>>,
    /// (document, from)
    pub items: Vec<(usize, usize)>,
}
impl Space {
    pub fn new(docs: &[T], slices: Vec<S>) -> Space {
        Space::with(docs, slices, 150, 60)
    }
    /// All positions of documents up to a size, at most so many of larger ones.
    pub fn with(docs: &[T], slices: Vec<S>, small: usize, max: usize) -> Space {
        let docs: Vec<DocCtx> = docs.iter().map(DocCtx::new).collect();
        let slices: Vec<SliceCtx> = slices.into_iter().map(SliceCtx::new).collect();
        let infos = slices
            .iter()
            .map(|s| slice_info(&s.toks, s.s.os, s.s.oe))
            .collect();
        let mut items = vec![];
        let mut pos = vec![];
        for (i, d) in docs.iter().enumerate() {
            let ps = good_positions(d, small, max);
            items.extend(ps.iter().map(|p| (i, *p)));
            pos.push(ps);
        }
        Space {
            docs,
            slices,
            infos,
            pos,
            items,
        }
    }
    /// the ends of ranges that start here
    pub fn ends(&self, i: usize, from: usize) -> impl Iterator<Item = usize> + '_ {
        self.pos[i].iter().cloned().filter(move |x| *x >= from)
    }
}
fn fits_depths(d: &DocCtx, from: usize, to: usize, s: &SliceCtx) -> bool {
    let (df, dt) = (d.depth(from), d.depth(to));
    s.s.os <= df && s.s.oe <= dt && df - s.s.os == dt - s.s.oe
}

// ---- slices that no valid document contains ----------------------------------------
/// All well nested token sequences up to a length over a small alphabet, with all open
/// depths they have.
pub fn wild_slices(max: usize, heads: &[Head], leaves: &[T]) -> Vec<S> {
    fn forests(n: usize, heads: &[Head], leaves: &[T], memo: &mut Vec<Option<Vec<Vec<T>>>>) -> Vec<Vec<T>> {
        if let Some(v) = &memo[n] {
            return v.clone();
        }
        let mut out = vec![];
        if n == 0 {
            out.push(vec![]);
        } else {
            for l in leaves {
                if l.size() == 1 {
                    for r in forests(n - 1, heads, leaves, memo) {
                        let mut v = vec![l.clone()];
                        v.extend(r);
                        out.push(v);
                    }
                }
            }
            for h in heads {
                for k in 0..=n.saturating_sub(2) {
                    if n < 2 {
                        continue;
                    }
                    for inner in forests(k, heads, leaves, memo) {
                        for r in forests(n - 2 - k, heads, leaves, memo) {
                            let mut v = vec![t(h.clone(), inner.clone())];
                            v.extend(r);
                            out.push(v);
                        }
                    }
                }
            }
        }
        memo[n] = Some(out.clone());
        out
    }
    let mut memo = vec![None; max + 1];
    let mut res = vec![];
    for n in 1..=max {
        for f in forests(n, heads, leaves, &mut memo) {
            let root = t(Head::Doc, f).normal();
            let toks = root.content_toks();
            let lead = toks.iter().take_while(|x| is_open(**x)).count();
            let trail = toks.iter().rev().take_while(|x| is_close(**x)).count();
            for os in 0..=lead {
                for oe in 0..=trail {
                    res.push(S {
                        kids: root.kids.clone(),
                        os,
                        oe,
                    });
                }
            }
        }
    }
    let mut seen = HashSet::new();
    res.retain(|s| seen.insert(s.clone()));
    res
}

// ---- C04 ---------------------------------------------------------------------------
pub fn c04_eval(d: &DocCtx, s: &SliceCtx, from: usize, to: usize) -> Res {
    match d.node.replace(from..to, &s.real) {
        Err(_) => Ok("refused"),
        Ok(n) => {
            if !s.wellformed || !fits_depths(d, from, to, s) {
                return Err(format!(
                    "{} at {}..{} was accepted although its open depths do not fit",
                    s.s.show(),
                    from,
                    to
                ));
            }
            let want = splice(d, from, to, &s.toks, s.s.os, s.s.oe);
            same_doc(&n, &d.t.head, &want, true)
                .map_err(|e| format!("replacing {}..{} of {} by {}: {}", from, to, d.show(), s.s.show(), e))?;
            Ok(if s.toks.is_empty() {
                "deleted"
            } else if s.s.os == 0 && s.s.oe == 0 {
                "flat replacement"
            } else {
                "open replacement"
            })
        }
    }
}
fn sweep(
    e: &Engine,
    phase: &str,
    sp: &Space,
    id: &'static str,
    mismatches: usize,
    eval: impl Fn(&DocCtx, &SliceCtx, &SliceInfo, usize, usize) -> Res + Sync,
) {
    e.par(phase, &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in sp.ends(i, from) {
            for (k, s) in sp.slices.iter().enumerate() {
                if k >= mismatches && !fits_depths(d, from, to, s) {
                    continue;
                }
                c.case(
                    || json!({"property": id, "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json()}),
                    || eval(d, s, &sp.infos[k], from, to),
                );
                if c.stopped() {
                    return;
                }
            }
        }
    });
}
/// Text, nothing and a paragraph break put at every place around every character.
fn every_char_sweep(e: &Engine, id: &'static str, eval: impl Fn(&DocCtx, &SliceCtx, &SliceInfo, usize, usize) -> Res + Sync) {
    let open = |kids: Vec<T>, os, oe| S { kids, os, oe };
    let sl: Vec<SliceCtx> = [
        S::empty(),
        open(vec![text("x")], 0, 0),
        open(vec![mtext("\u{301}", &[M::Em])], 0, 0),
        open(vec![ps("x"), ps("y")], 1, 1),
    ]
    .into_iter()
    .map(SliceCtx::new)
    .collect();
    let infos: Vec<SliceInfo> = sl.iter().map(|s| slice_info(&s.toks, s.s.os, s.s.oe)).collect();
    every_char(e, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let ps = positions(&d);
        for &from in &ps {
            for &to in ps.iter().filter(|x| **x >= from) {
                for (s, i) in sl.iter().zip(&infos) {
                    if !fits_depths(&d, from, to, s) {
                        continue;
                    }
                    c.ops(2);
                    c.case(
                        || json!({"property": id, "kind": "inverse", "doc": t.json(), "from": from, "to": to, "slice": s.s.json()}),
                        || eval(&d, s, i, from, to),
                    );
                }
            }
        }
    });
}
pub fn inline_slices(n: usize) -> Vec<S> {
    let mut v = slices_of(&docset(&[(pal_inline(), n)], 0), n + 2);
    let mut seen: HashSet<S> = v.iter().cloned().collect();
    for s in slices_of(&docset(&[(pal_marks(), n), (pal_two(), n + 2)], 0), n + 2) {
        if seen.insert(s.clone()) {
            v.push(s);
        }
    }
    v
}
pub fn c04(e: &Engine) {
    // structure
    let docs = docset(&[(pal_struct(), e.q(8, 9)), (pal_blocks(), e.q(5, 6))], 0);
    let mut sl = slices_of(&docset(&[(pal_struct(), e.q(7, 8)), (pal_blocks(), e.q(4, 5))], 0), 99);
    sl.extend(wild_slices(
        e.q(3, 4),
        &[Head::Paragraph, Head::Heading(2), Head::Blockquote, Head::ListItem],
        &[text("x"), hr()],
    ));
    let sp = Space::new(&docs, sl);
    sweep(e, "structure", &sp, "C04", 0, |d, s, _, f, t| c04_eval(d, s, f, t));
    // attributes: joined nodes keep the left one's
    let docs = docset(&[(pal_attrs(), e.q(6, 7))], 0);
    let sl = slices_of(&docset(&[(pal_attrs(), e.q(5, 6))], 0), 99);
    let sp = Space::new(&docs, sl);
    sweep(e, "attributes", &sp, "C04", 0, |d, s, _, f, t| c04_eval(d, s, f, t));
    // inline content
    let docs = docset(&[(pal_inline(), 5), (pal_marks(), 5), (pal_two(), e.q(7, 9))], 0);
    let sp = Space::new(&docs, inline_slices(e.q(4, 5)));
    sweep(e, "inline", &sp, "C04", 0, |d, s, _, f, t| c04_eval(d, s, f, t));
    // long, wide and deep documents
    let docs = docset(&[], e.q(2, 3));
    let sp = Space::new(&docs, family_slices());
    sweep(e, "families", &sp, "C04", 0, |d, s, _, f, t| c04_eval(d, s, f, t));
    for (phase, sp) in value_spaces(e) {
        sweep(e, phase, &sp, "C04", 0, |d, s, _, f, t| c04_eval(d, s, f, t));
    }
    let sp = large_space(e, 99_999);
    sweep(e, "large", &sp, "C04", 0, |d, s, _, f, t| c04_eval(d, s, f, t));
    // other roots
    let sp = Space::new(
        &other_roots(e.q(6, 7)),
        slices_of(&docset(&[(pal_blocks(), e.q(4, 5)), (pal_struct(), 6)], 0), 99),
    );
    sweep(e, "other-roots", &sp, "C04", 0, |d, s, _, f, t| c04_eval(d, s, f, t));
    every_char_sweep(e, "C04", |d, s, _, f, t| c04_eval(d, s, f, t));
}
/// Slices past small limits of width, length and depth.
pub fn large_slices(big: bool) -> Vec<S> {
    let s = |kids: Vec<T>, os, oe| S { kids, os, oe };
    let a = |n: usize| "a".repeat(n);
    let mut v = vec![];
    let ns: &[usize] = if big { &[20, 40, 130, 300, 1030] } else { &[40, 130, 300] };
    for &n in ns {
        v.push(s(vec![text(&a(n))], 0, 0));
        v.push(s(vec![mtext(&EMOJI.repeat(n / 2), &[M::Em])], 0, 0));
        v.push(s(vec![ps(&a(n)), ps(&a(n))], 1, 1));
        v.push(s((0..n).map(|i| ps(["x", ""][i % 2])).collect(), 1, 1));
        v.push(s((0..n).map(|i| if i % 3 == 0 { hr() } else { ps("x") }).chain([ps("")]).collect(), 0, 1));
        v.push(s((0..n).map(|i| mtext("a", [&[][..], &[M::Em][..]][i % 2])).collect(), 0, 0));
        v.push(s((0..n).map(|_| li(vec![ps("a")])).collect(), 2, 2));
    }
    for n in [10, 33, 65] {
        let nest = |x: T| (0..n).fold(x, |x, _| bq(vec![x]));
        v.push(s(vec![nest(ps("ab"))], 0, 0));
        v.push(s(vec![nest(ps("ab"))], n, n));
        v.push(s(vec![nest(ps("ab")), nest(ps("cd"))], n + 1, n + 1));
        v.push(s(vec![nest(ps("ab"))], 0, 1));
    }
    v
}
/// Documents and slices past small limits of width, length and depth.
pub fn large_space(e: &Engine, max: usize) -> Space {
    let mut docs: Vec<T> = large_docs(e.thorough());
    docs.extend(huge_docs());
    docs.retain(|d| d.content_size() <= max);
    let mut sl = family_slices();
    sl.extend(large_slices(e.thorough()));
    Space::with(&docs, sl, 0, e.q(48, 90))
}
/// Documents and slices over the values of texts, marks and attributes.
pub fn value_spaces(e: &Engine) -> Vec<(&'static str, Space)> {
    let mut v = vec![];
    let mut sl = family_slices();
    sl.extend(attr_slices());
    let mut docs = value_docs();
    docs.extend(size_docs(e.thorough()).into_iter().filter(|d| d.content_size() < e.q(40, 80)));
    docs.extend(length_docs(e.q(4, 6)));
    v.push(("values", Space::new(&docs, sl)));
    // every character put everywhere
    let docs: Vec<T> = vec![
        doc(vec![ps("")]),
        doc(vec![p(vec![text("ab"), mtext("c", &[M::Em])]), ps("d")]),
        doc(vec![p(vec![text(EMOJI), br(), text("\u{e9}")])]),
        doc(vec![bq(vec![ps(" a")]), cb("", vec![text("x y")]), h(1, vec![text("z")])]),
        doc(vec![ul(vec![li(vec![ps("a")]), li(vec![ps("b")])])]),
    ];
    v.push(("characters", Space::new(&docs, value_slices())));
    // marks next to each other
    let mut docs = mark_pair_docs();
    docs.extend(gen_docs(&pal_links(), e.q(6, 7)));
    let mut sl = vec![S::empty()];
    let open = |kids: Vec<T>| S { kids, os: 1, oe: 1 };
    sl.push(S { kids: vec![text("z")], os: 0, oe: 0 });
    for m in [vec![M::Strong], vec![link("x")], vec![link("y")], vec![M::Em, link("x")], vec![M::Link("x".into(), "t".into())], vec![M::Code]] {
        sl.push(S { kids: vec![mtext("z", &m)], os: 0, oe: 0 });
        sl.push(open(vec![p(vec![mtext("z", &m)]), p(vec![text("w"), mtext("z", &m)])]));
    }
    sl.push(open(vec![ps(""), ps("")]));
    v.push(("mark-pairs", Space::new(&docs, sl)));
    v
}
/// Non-leaf nodes that are not documents.
pub fn other_roots(n: usize) -> Vec<T> {
    let mut seen = HashSet::new();
    let mut v = vec![];
    for d in docset(&[(pal_struct(), n), (pal_blocks(), n.min(6)), (pal_inline(), 4)], 0) {
        for k in &d.kids {
            for x in std::iter::once(k).chain(k.kids.iter()) {
                if !x.ty().leaf() && seen.insert(x.clone()) {
                    v.push(x.clone());
                }
            }
        }
    }
    v
}
/// A few slices of each shape, for the large documents.
pub fn family_slices() -> Vec<S> {
    let open = |kids: Vec<T>, os, oe| S { kids, os, oe };
    let mut v = vec![
        S::empty(),
        open(vec![text("X")], 0, 0),
        open(vec![mtext("X", &[M::Em])], 0, 0),
        open(vec![text("X"), br(), mtext("Y", &[M::Strong, link("l")])], 0, 0),
        open(vec![text("\u{e9}\u{1F60A}")], 0, 0),
        open(vec![ps("X")], 0, 0),
        open(vec![hr()], 0, 0),
        open(vec![ps("X"), ps("Y")], 1, 1),
        open(vec![ps("X")], 1, 0),
        open(vec![ps("X")], 0, 1),
        open(vec![h(2, vec![text("X")])], 1, 1),
        open(vec![ps(""), ps("")], 1, 1),
        open(vec![bq(vec![ps("X")])], 0, 0),
        open(vec![bq(vec![ps("X")]), bq(vec![ps("Y")])], 2, 2),
        open(vec![bq(vec![ps("X")]), ps("Y")], 2, 1),
        open(vec![ps("X"), bq(vec![ps("Y")])], 1, 2),
        open(vec![li(vec![ps("X")])], 0, 0),
        open(vec![li(vec![ps("X")]), li(vec![ps("Y")])], 2, 2),
        open(vec![ul(vec![li(vec![ps("X")])])], 0, 0),
        open(vec![ul(vec![li(vec![ps("X")]), li(vec![ps("Y")])])], 3, 3),
    ];
    // a long slice
    v.push(open(
        (0..6)
            .map(|i| if i % 2 == 0 { ps("pq") } else { bq(vec![ps("r"), hr()]) })
            .collect(),
        1,
        0,
    ));
    v
}
pub fn c04_replay(v: &Value) -> Res {
    c04_eval(
        &jdoc(v, "doc"),
        &SliceCtx::new(S::from_json(&v["slice"])),
        ju(v, "from"),
        ju(v, "to"),
    )
}

// ---- C05 ---------------------------------------------------------------------------
/// The types of all nodes with invalid content.
pub fn invalid_types(root: Ty, toks: &[Tok]) -> Vec<Ty> {
    let mut bad = vec![];
    let mut stack: Vec<(Ty, bool, bool)> = vec![(root, false, true)];
    let mut prev: Option<u32> = None;
    for &x in toks {
        if is_close(x) {
            let (ty, has, ok) = stack.pop().unwrap();
            if !ok || (needs_child(ty) && !has) {
                bad.push(ty);
            }
            prev = None;
            continue;
        }
        let top = stack.last_mut().unwrap();
        let child = if is_ch(x) { Ty::Text } else { tok_ty(x) };
        if !(is_ch(x) && prev == Some(ch_marks(x))) {
            if !accepts(top.0, top.1, child) || (is_ch(x) && ch_marks(x) != 0 && !top.0.marks_ok()) {
                top.2 = false;
            }
            top.1 = true;
        }
        prev = if is_ch(x) { Some(ch_marks(x)) } else { None };
        if is_open(x) {
            stack.push((tok_ty(x), false, true));
        }
    }
    let (ty, has, ok) = stack[0];
    if !ok || (needs_child(ty) && !has) {
        bad.push(ty);
    }
    bad
}
pub fn c05_eval(d: &DocCtx, s: &SliceCtx, info: &SliceInfo, from: usize, to: usize) -> Res {
    let want = ref_replace(d, from, to, &s.toks, s.s.os, s.s.oe, info);
    let got = d.node.replace(from..to, &s.real);
    let what = || format!("replacing {}..{} of {} by {}", from, to, d.show(), s.s.show());
    match (got, want) {
        (Ok(_), Ok(_)) => Ok("accepted"),
        (Ok(n), Err(w)) => Err(format!("{} should be refused ({:?}) but gives {}", what(), w, T::from_real(&n).show())),
        (Err(e), Ok(w)) => Err(format!("{} should give {} but is refused: {}", what(), show_toks(&w), e)),
        (Err(e), Err(w)) => {
            let wrong = |e: &ReplaceError<_>| Err(format!("{} is refused with a reason that does not apply: {:?} (applicable: {:?})", what(), e, w));
            if !why_allows(&w, &e) {
                return wrong(&e);
            }
            match &e {
                ReplaceError::InsertTooDeep => Ok("refused: open too deep"),
                ReplaceError::InconsistentOpenDepths {
                    from_depth,
                    open_start,
                    to_depth,
                    open_end,
                } => {
                    if !w.malformed
                        && (*from_depth, *open_start, *to_depth, *open_end)
                            != (d.depth(from), s.s.os, d.depth(to), s.s.oe)
                    {
                        return wrong(&e);
                    }
                    Ok("refused: open depths disagree")
                }
                ReplaceError::CannotJoin(a, b) => {
                    let bad = ALL_TY
                        .iter()
                        .any(|x| x.real() == *a && ALL_TY.iter().any(|y| y.real() == *b && !compat(*x, *y)));
                    if !bad {
                        return wrong(&e);
                    }
                    Ok("refused: cannot join")
                }
                ReplaceError::InvalidContent(ty) => {
                    let v = splice(d, from, to, &s.toks, s.s.os, s.s.oe);
                    if !invalid_types(d.t.ty(), &v).iter().any(|x| x.real() == *ty) {
                        return wrong(&e);
                    }
                    Ok("refused: invalid content")
                }
                ReplaceError::Resolve(_) => wrong(&e),
            }
        }
    }
}
pub fn c05(e: &Engine) {
    let keep = |v: Vec<S>| -> Vec<S> { v.into_iter().filter(|s| SliceCtx::new(s.clone()).closed_valid).collect() };
    let docs = docset(&[(pal_struct(), e.q(8, 9)), (pal_blocks(), e.q(5, 6))], 0);
    let sl = slices_of(&docset(&[(pal_struct(), e.q(7, 8)), (pal_blocks(), e.q(5, 6))], 0), 99);
    let sp = Space::new(&docs, sl);
    sweep(e, "structure", &sp, "C05", e.q(120, 400), |d, s, i, f, t| c05_eval(d, s, i, f, t));
    // open nodes with contents no document has
    let docs = docset(&[(pal_struct(), e.q(6, 8)), (pal_blocks(), e.q(5, 6))], 0);
    let heads = [
        Head::Paragraph,
        Head::Heading(2),
        Head::CodeBlock(String::new()),
        Head::Blockquote,
        Head::BulletList(false),
        Head::OrderedList(1, false),
        Head::ListItem,
    ];
    let leaves = [text("x"), mtext("x", &[M::Em]), hr(), br()];
    let sl = keep(wild_slices(e.q(4, 5), &heads, &leaves));
    let sp = Space::new(&docs, sl);
    sweep(e, "wild-slices", &sp, "C05", 0, |d, s, i, f, t| c05_eval(d, s, i, f, t));
    // inline content and marks
    let docs = docset(&[(pal_inline(), e.q(4, 5)), (pal_marks(), e.q(4, 5))], 0);
    let sp = Space::new(&docs, inline_slices(e.q(4, 5)));
    sweep(e, "inline", &sp, "C05", 40, |d, s, i, f, t| c05_eval(d, s, i, f, t));
    let sp = Space::new(&docset(&[], e.q(2, 3)), family_slices());
    sweep(e, "families", &sp, "C05", 99, |d, s, i, f, t| c05_eval(d, s, i, f, t));
    for (phase, sp) in value_spaces(e) {
        sweep(e, phase, &sp, "C05", 0, |d, s, i, f, t| c05_eval(d, s, i, f, t));
    }
    let sp = large_space(e, e.q(9000, 99_999));
    sweep(e, "large", &sp, "C05", 0, |d, s, i, f, t| c05_eval(d, s, i, f, t));
    // ranges that are not in the document
    let mut docs = docset(&[(pal_struct(), 7), (pal_blocks(), 5), (pal_inline(), 4)], 2);
    docs.extend(large_docs(false).into_iter().filter(|d| d.content_size() < 1500));
    let mut sl = family_slices();
    sl.extend(slices_of(&docset(&[(pal_struct(), 5)], 0), 9));
    let sp = Space::with(&docs, sl, 40, 60);
    e.par("outside", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        let n = d.len();
        if from == 0 {
            c.state();
        }
        let mids = (0..=n).filter(|x| d.mid(*x)).take(5);
        let beyond = [n + 1, n + 2, n + 7, 2 * n + 3, n + 1000, n + 65_536, usize::MAX - 1, usize::MAX];
        let mut ranges: Vec<(usize, usize)> = beyond.iter().cloned().chain(mids).flat_map(|x| [(from, x), (x, from)]).collect();
        ranges.extend(sp.pos[i].iter().filter(|x| **x < from).map(|x| (from, *x)));
        ranges.extend(beyond.iter().flat_map(|x| [(*x, *x), (*x, n)]).filter(|_| from == 0));
        for (f, t) in ranges {
            for s in sp.slices.iter() {
                c.ops(3);
                c.case(
                    || json!({"property": "C05", "kind": "outside", "doc": d.t.json(), "from": f, "to": t, "slice": s.s.json()}),
                    || c05_outside(d, s, f, t),
                );
            }
            if c.stopped() {
                return;
            }
        }
    });
    let sp = Space::new(
        &other_roots(e.q(6, 7)),
        slices_of(&docset(&[(pal_blocks(), e.q(4, 5)), (pal_struct(), 6)], 0), 99),
    );
    sweep(e, "other-roots", &sp, "C05", 40, |d, s, i, f, t| c05_eval(d, s, i, f, t));
    every_char_sweep(e, "C05", |d, s, i, f, t| c05_eval(d, s, i, f, t));
}
/// A range that is reversed or has an end that is no position of the document.
pub fn c05_outside(d: &DocCtx, s: &SliceCtx, from: usize, to: usize) -> Res {
    let what = || format!("replacing {}..{} of {} (size {}) by {}", from, to, d.show(), d.len(), s.s.show());
    let wrong = |e: String| Err(format!("{}: {}", what(), e));
    match d.node.replace(from..to, &s.real) {
        Err(ReplaceError::Resolve(_)) => {}
        Err(e) => return wrong(format!("refused with a reason that does not apply: {}", e)),
        Ok(n) => return wrong(format!("gives {}", T::from_real(&n).show())),
    }
    if to < usize::MAX && to > 0 && d.node.replace(from..=to - 1, &s.real).is_ok() {
        return wrong("accepted as an inclusive range".into());
    }
    if from > d.len() && d.node.replace(from.., &s.real).is_ok() {
        return wrong("accepted with an open end".into());
    }
    if from == 0 && d.node.replace(..to, &s.real).is_ok() {
        return wrong("accepted with an open start".into());
    }
    for structure in [false, true] {
        if super::steps::replace_step(s, from, to, structure).apply(&d.node).is_ok() {
            return wrong("accepted as a step".into());
        }
    }
    Ok("refused: no such range")
}
pub fn c05_replay(v: &Value) -> Res {
    let s = SliceCtx::new(S::from_json(&v["slice"]));
    if v["kind"] == json!("outside") {
        return c05_outside(&jdoc(v, "doc"), &s, ju(v, "from"), ju(v, "to"));
    }
    let i = slice_info(&s.toks, s.s.os, s.s.oe);
    c05_eval(&jdoc(v, "doc"), &s, &i, ju(v, "from"), ju(v, "to"))
}

// ---- C06 ---------------------------------------------------------------------------
pub fn c06_same(d: &DocCtx, from: usize, to: usize, parents: bool) -> Res {
    let s = d.node.slice(from..to, parents).map_err(|e| e.to_string())?;
    match d.node.replace(from..to, &s) {
        Ok(n) if n == d.node => {
            same_doc(&n, &d.t.head, &d.toks, true)?;
            Ok("put back")
        }
        Ok(n) => Err(format!(
            "putting {}..{} of {} back gives {}",
            from,
            to,
            d.show(),
            T::from_real(&n).show()
        )),
        Err(e) => Err(format!("putting {}..{} of {} back is refused: {}", from, to, d.show(), e)),
    }
}
pub fn c06_inverse(d: &DocCtx, s: &SliceCtx, from: usize, to: usize) -> Res {
    let new = match d.node.replace(from..to, &s.real) {
        Ok(n) => n,
        Err(_) => return Ok("not applicable"),
    };
    let size = s.toks.len() - s.s.os - s.s.oe;
    let removed = d.node.slice(from..to, false).map_err(|e| e.to_string())?;
    let what = || {
        format!(
            "undoing the replacement of {}..{} of {} by {}",
            from,
            to,
            d.show(),
            s.s.show()
        )
    };
    match new.replace(from..from + size, &removed) {
        Ok(n) if n == d.node => Ok("undone"),
        Ok(n) => Err(format!("{} gives {}", what(), T::from_real(&n).show())),
        Err(e) => Err(format!("{} is refused: {}", what(), e)),
    }
}
pub fn c06(e: &Engine) {
    let docs = docset(
        &[
            (pal_struct(), e.q(10, 12)),
            (pal_blocks(), e.q(7, 8)),
            (pal_attrs(), e.q(6, 8)),
            (pal_inline(), e.q(6, 7)),
            (pal_marks(), e.q(5, 6)),
        ],
        e.q(2, 3),
    );
    e.par("same-range", &docs, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let ps = positions(&d);
        for &from in &ps {
            for &to in ps.iter().filter(|x| **x >= from) {
                for parents in [false, true] {
                    if parents && (d.depth(from) == 0 || d.depth(to) == 0) && d.shared_depth(from, to) != 0 {
                        continue;
                    }
                    c.ops(1);
                    c.case(
                        || json!({"property": "C06", "kind": "same", "doc": t.json(), "from": from, "to": to, "parents": parents}),
                        || c06_same(&d, from, to, parents),
                    );
                }
            }
        }
    });
    let mut vals = all_values(e.thorough());
    vals.extend(length_docs(e.q(6, 9)));
    vals.extend(huge_docs().into_iter().chain(large_docs(e.thorough())).filter(|d| d.content_size() < 9000));
    e.par("same-range-values", &vals, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let ps = if d.len() > 150 { edge_positions(&d) } else { positions(&d) };
        for &from in &ps {
            for &to in ps.iter().filter(|x| **x >= from) {
                c.ops(1);
                c.case(
                    || json!({"property": "C06", "kind": "same", "doc": t.json(), "from": from, "to": to, "parents": false}),
                    || c06_same(&d, from, to, false),
                );
            }
        }
    });
    let inv = |e: &Engine, phase: &str, sp: &Space| {
        e.par(phase, &sp.items, |c, &(i, from)| {
            let d = &sp.docs[i];
            if from == 0 {
                c.state();
            }
            for to in sp.ends(i, from) {
                for s in &sp.slices {
                    if !fits_depths(d, from, to, s) {
                        continue;
                    }
                    c.ops(2);
                    c.case(
                        || json!({"property": "C06", "kind": "inverse", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json()}),
                        || c06_inverse(d, s, from, to),
                    );
                }
                if c.stopped() {
                    return;
                }
            }
        });
    };
    let docs = docset(&[(pal_struct(), e.q(8, 9)), (pal_blocks(), e.q(5, 6))], 0);
    let sl = slices_of(&docset(&[(pal_struct(), e.q(6, 8)), (pal_blocks(), e.q(4, 5))], 0), 99);
    inv(e, "inverse-structure", &Space::new(&docs, sl));
    let docs = docset(&[(pal_inline(), e.q(4, 5)), (pal_marks(), e.q(4, 5)), (pal_attrs(), e.q(5, 6))], 0);
    let mut sl = inline_slices(e.q(4, 5));
    sl.extend(slices_of(&docset(&[(pal_attrs(), 5)], 0), 99));
    inv(e, "inverse-inline", &Space::new(&docs, sl));
    inv(e, "inverse-families", &Space::new(&docset(&[], e.q(2, 3)), family_slices()));
    for (phase, sp) in value_spaces(e) {
        inv(e, &format!("inverse-{}", phase), &sp);
    }
    inv(e, "inverse-large", &large_space(e, e.q(9000, 99_999)));
    every_char_sweep(e, "C06", |d, s, _, f, t| {
        if s.toks.is_empty() {
            c06_same(d, f, t, false)?;
        }
        c06_inverse(d, s, f, t)
    });
}
pub fn c06_replay(v: &Value) -> Res {
    let d = jdoc(v, "doc");
    let (from, to) = (ju(v, "from"), ju(v, "to"));
    match v["kind"].as_str().unwrap() {
        "same" => c06_same(&d, from, to, v["parents"] == json!(true)),
        k => {
            if k == "inverse" {
                c06_same(&d, from, to, false)?;
            }
            c06_inverse(&d, &SliceCtx::new(S::from_json(&v["slice"])), from, to)
        }
    }
}
