//! C08 totality, C09/C10 mark steps, C11 structural steps, C12 replace-around,
//! C22 split texts.
use super::repl::{family_slices, inline_slices, other_roots, wild_slices, Space};
use super::*;
use prosemirror::markdown::{MarkdownNode, MD};
use prosemirror::model::{Node, Slice};
use prosemirror::transform::*;

pub fn own(s: &SliceCtx) -> Slice<MD> {
    Slice::new(s.real.content.clone(), s.s.os, s.s.oe)
}
pub fn mark_step(from: usize, to: usize, m: &M, add: bool) -> Step<MD> {
    let span = Span { from, to };
    if add {
        Step::AddMark(AddMarkStep { span, mark: m.real() })
    } else {
        Step::RemoveMark(RemoveMarkStep { span, mark: m.real() })
    }
}
pub fn replace_step(s: &SliceCtx, from: usize, to: usize, structure: bool) -> Step<MD> {
    Step::Replace(ReplaceStep {
        span: Span { from, to },
        slice: own(s),
        structure,
    })
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ar {
    pub from: usize,
    pub to: usize,
    pub gf: usize,
    pub gt: usize,
    pub insert: usize,
    pub structure: bool,
}
impl Ar {
    pub fn json(&self) -> Value {
        json!({"from": self.from, "to": self.to, "gapFrom": self.gf, "gapTo": self.gt, "insert": self.insert, "structure": self.structure})
    }
    pub fn from_json(v: &Value) -> Ar {
        Ar {
            from: ju(v, "from"),
            to: ju(v, "to"),
            gf: ju(v, "gapFrom"),
            gt: ju(v, "gapTo"),
            insert: ju(v, "insert"),
            structure: v["structure"] == json!(true),
        }
    }
}
pub fn around_step(s: &SliceCtx, a: &Ar) -> Step<MD> {
    Step::ReplaceAround(ReplaceAroundStep {
        span: Span { from: a.from, to: a.to },
        gap_from: a.gf,
        gap_to: a.gt,
        slice: own(s),
        insert: a.insert,
        structure: a.structure,
    })
}

// ---- C08 ---------------------------------------------------------------------------
/// Positions to try on a document: all, a few beyond, and absurd ones.
fn any_pos(len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=len + 2).collect();
    v.extend([usize::MAX / 2, usize::MAX - 1, usize::MAX]);
    v
}
fn fine(r: StepResult<MD>) -> Res {
    match r {
        Ok(n) => {
            read_root(&n)?;
            Ok("a document")
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            Ok("an error")
        }
    }
}
pub fn c08_pos(d: &DocCtx, from: usize, to: usize) -> Res {
    let r = d.node.resolve(from);
    if let Ok(rp) = &r {
        let _ = (rp.shared_depth(to), rp.node_before(), rp.node_after(), rp.text_offset());
        let _ = format!("{:?}", rp);
    }
    let mut n = 0;
    for parents in [false, true] {
        if d.node.slice(from..to, parents).is_ok() {
            n += 1;
        }
        if from <= to && d.node.slice(from..=to, parents).is_ok() {
            n += 1;
        }
    }
    let _ = d.node.slice(from.., false);
    let _ = d.node.slice(..to, true);
    if d.node.replace(from..to, &Slice::default()).is_ok() {
        n += 1;
    }
    let _ = d.node.replace(from.., &Slice::default());
    let _ = d.node.replace(..to, &Slice::default());
    Ok(if n > 0 { "some accepted" } else { "all refused" })
}
pub fn c08(e: &Engine) {
    let mut docs = docset(
        &[
            (pal_struct(), e.q(8, 9)),
            (pal_blocks(), e.q(5, 6)),
            (pal_inline(), e.q(4, 5)),
            (pal_marks(), e.q(3, 4)),
        ],
        0,
    );
    // documents nobody should have: invalid ones, other roots, leaves, empty texts
    docs.extend(other_roots(5));
    docs.extend([text("ab"), text(EMOJI), text(""), hr(), br(), img("s", "", ""), doc(vec![]), p(vec![])]);
    docs.extend(odd_docs());
    let wild: Vec<T> = wild_slices(
        e.q(4, 5),
        &[Head::Paragraph, Head::ListItem, Head::Doc],
        &[text("x"), hr(), br()],
    )
    .into_iter()
    .filter(|s| s.os == 0 && s.oe == 0)
    .map(|s| doc(s.kids))
    .collect();
    docs.extend(wild);
    e.par("positions", &docs, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let ps = any_pos(d.len());
        for &from in &ps {
            for &to in &ps {
                c.ops(9);
                c.case(
                    || json!({"property": "C08", "kind": "pos", "doc": t.json(), "from": from, "to": to}),
                    || c08_pos(&d, from, to),
                );
                for (m, add) in [(M::Em, true), (M::Strong, false), (link("z"), true)] {
                    c.case(
                        || json!({"property": "C08", "kind": "mark", "doc": t.json(), "from": from, "to": to, "mark": m.json(), "add": add}),
                        || fine(mark_step(from, to, &m, add).apply(&d.node)),
                    );
                }
            }
        }
    });
    // slices with any open depths
    let slices = mismatched_slices(e.q(4, 5));
    let docs2 = {
        let mut v = docset(
            &[
                (pal_struct(), e.q(6, 8)),
                (pal_blocks(), e.q(4, 5)),
                (pal_inline(), e.q(2, 3)),
            ],
            0,
        );
        v.extend([text("ab"), hr(), doc(vec![]), p(vec![text("a")]), ul(vec![li(vec![ps("a")])])]);
        v.extend(odd_docs());
        v
    };
    let sp = Space::new(&docs2, slices);
    e.par("any-slice", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in any_pos(d.len()) {
            for s in &sp.slices {
                for structure in [false, true] {
                    c.case(
                        || json!({"property": "C08", "kind": "replace", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json(), "structure": structure}),
                        || fine(replace_step(s, from, to, structure).apply(&d.node)),
                    );
                }
                if c.stopped() {
                    return;
                }
            }
        }
    });
    // replace-around with any numbers at all
    let docs3 = {
        let mut v = docset(&[(pal_struct(), e.q(5, 6)), (pal_blocks(), e.q(2, 3)), (pal_inline(), e.q(2, 3))], 0);
        v.extend([text("ab"), hr(), doc(vec![]), ul(vec![li(vec![ps("")])])]);
        v.extend(odd_docs());
        v
    };
    let mut slices = mismatched_slices(2);
    if !e.thorough() {
        slices.retain(|s| s.os < 3 || s.oe == 0);
        slices.retain(|s| s.oe < 3 || s.os == 0);
    }
    slices.extend([
        S { kids: vec![bq(vec![ps("")])], os: 0, oe: 0 },
        S { kids: vec![ul(vec![li(vec![ps("x")])])], os: 0, oe: 0 },
        S { kids: vec![ul(vec![li(vec![ps("x")])])], os: 2, oe: 1 },
        S { kids: vec![text(EMOJI)], os: 0, oe: 0 },
        S { kids: vec![ps(EMOJI)], os: 1, oe: 0 },
    ]);
    let sp = Space::new(&docs3, slices);
    let items: Vec<(usize, usize)> = (0..sp.docs.len())
        .flat_map(|i| any_pos(sp.docs[i].len()).into_iter().map(move |f| (i, f)))
        .collect();
    e.par("any-around", &items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        let ps = {
            let n = d.len();
            let mut v: Vec<usize> = if n <= e.q(4, 6) {
                (0..=n + 1).collect()
            } else {
                vec![0, 1, 2, n / 2, n - 1, n, n + 1]
            };
            v.push(usize::MAX);
            v
        };
        for &to in &ps {
            for &gf in &ps {
                for &gt in &ps {
                    for s in &sp.slices {
                        let n = s.toks.len();
                        for insert in [0, 1, 2, n.wrapping_sub(s.s.os), n, n + 1, usize::MAX] {
                            for structure in [false, true] {
                                let a = Ar { from, to, gf, gt, insert, structure };
                                c.case(
                                    || json!({"property": "C08", "kind": "around", "doc": d.t.json(), "slice": s.s.json(), "step": a.json()}),
                                    || fine(around_step(s, &a).apply(&d.node)),
                                );
                            }
                        }
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // large documents
    let fam = docset(&[], e.q(2, 3));
    let mut sl = family_slices();
    for s in family_slices() {
        for (os, oe) in [(0, 5), (5, 0), (1, 1), (2, 2), (usize::MAX, 0), (0, usize::MAX)] {
            sl.push(S { kids: s.kids.clone(), os, oe });
        }
    }
    let sp = Space::new(&fam, sl);
    e.par("families", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in 0..=d.len() {
            c.case(
                || json!({"property": "C08", "kind": "pos", "doc": d.t.json(), "from": from, "to": to}),
                || c08_pos(d, from, to),
            );
            for s in &sp.slices {
                c.case(
                    || json!({"property": "C08", "kind": "replace", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json(), "structure": false}),
                    || fine(replace_step(s, from, to, false).apply(&d.node)),
                );
            }
            if c.stopped() {
                return;
            }
        }
    });
    // wide, long and deep documents with slices of that kind
    let sp = super::repl::large_space(e, e.q(9000, 99_999));
    e.par("large", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        let n = d.len();
        for to in sp.pos[i].iter().cloned().chain([n + 1, n + 65_536, usize::MAX]) {
            c.case(
                || json!({"property": "C08", "kind": "pos", "doc": d.t.json(), "from": from, "to": to}),
                || c08_pos(d, from, to),
            );
            for (m, add) in [(M::Em, true), (M::Em, false), (M::Strong, false), (link("l"), true)] {
                c.case(
                    || json!({"property": "C08", "kind": "mark", "doc": d.t.json(), "from": from, "to": to, "mark": m.json(), "add": add}),
                    || fine(mark_step(from, to, &m, add).apply(&d.node)),
                );
            }
            for (k, s) in sp.slices.iter().enumerate() {
                if k % 5 != from.wrapping_add(to) % 5 {
                    continue;
                }
                c.case(
                    || json!({"property": "C08", "kind": "replace", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json(), "structure": true}),
                    || fine(replace_step(s, from, to, true).apply(&d.node)),
                );
                let a = Ar { from, to, gf: from + k % 3, gt: to.saturating_sub(k % 2), insert: s.s.os / 2, structure: false };
                c.case(
                    || json!({"property": "C08", "kind": "around", "doc": d.t.json(), "slice": s.s.json(), "step": a.json()}),
                    || fine(around_step(s, &a).apply(&d.node)),
                );
            }
            if c.stopped() {
                return;
            }
        }
    });
    // as deep as JSON can nest, around texts with marks and without
    let nest = |x: T| (0..60).fold(x, |x, _| bq(vec![x]));
    let deep = [
        doc(vec![nest(ps("ab"))]),
        doc(vec![nest(p(vec![mtext("a", &[M::Strong]), mtext("b", &[M::Em])]))]),
        doc(vec![(0..30).fold(p(vec![mtext("a", &[M::Strong])]), |x, _| ul(vec![li(vec![ps(""), x])]))]),
        doc(vec![(0..60).fold(ps("ab"), |x, i| bq(vec![x, p(vec![mtext("c", [&[][..], &[M::Strong][..], &[M::Em][..]][i % 3])])]))]),
    ];
    e.par("deep", &deep, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let ps = good_positions(&d, 130, 60);
        for &from in &ps {
            for &to in &ps {
                c.case(
                    || json!({"property": "C08", "kind": "pos", "doc": t.json(), "from": from, "to": to}),
                    || c08_pos(&d, from, to),
                );
                for (m, add) in [(M::Em, true), (M::Strong, false), (M::Strong, true), (M::Em, false)] {
                    c.case(
                        || json!({"property": "C08", "kind": "mark", "doc": t.json(), "from": from, "to": to, "mark": m.json(), "add": add}),
                        || fine(mark_step(from, to, &m, add).apply(&d.node)),
                    );
                }
            }
        }
    });
}
/// Documents with empty or unmerged texts, and contents no schema allows.
pub fn odd_docs() -> Vec<T> {
    vec![
        doc(vec![p(vec![text("")])]),
        doc(vec![p(vec![text(""), text("a"), text("")])]),
        doc(vec![p(vec![text("a"), text(""), text("b")])]),
        doc(vec![p(vec![text(""), text("")]), ps("b")]),
        doc(vec![p(vec![mtext("", &[M::Em]), text("a"), mtext("b", &[M::Em])])]),
        doc(vec![p(vec![text("a"), text("b"), text(EMOJI), text("c")])]),
        doc(vec![text("a"), ps("b")]),
        doc(vec![li(vec![ps("b")]), doc(vec![ps("c")])]),
        doc(vec![p(vec![ps("b"), hr()])]),
        doc(vec![ul(vec![]), bq(vec![]), li(vec![])]),
        doc(vec![cb("", vec![mtext("b", &[M::Em]), br()])]),
    ]
}
/// Contents with open depths from 0 to one more than any sense, and absurd ones.
pub fn mismatched_slices(n: usize) -> Vec<S> {
    let mut contents: Vec<Vec<T>> = vec![vec![], vec![text("")], vec![ps("").normal(), text("")]];
    for s in wild_slices(
        n,
        &[Head::Paragraph, Head::Blockquote, Head::ListItem],
        &[text("x"), hr()],
    ) {
        if s.os == 0 && s.oe == 0 {
            contents.push(s.kids);
        }
    }
    contents.push(vec![text(EMOJI)]);
    contents.push(vec![ul(vec![li(vec![ps("x")])])]);
    let ds = [0, 1, 2, 3, 4, usize::MAX / 2, usize::MAX];
    let mut v = vec![];
    for c in contents {
        for os in ds {
            for oe in ds {
                if (os > 4 || oe > 4) && c.len() > 2 {
                    continue;
                }
                v.push(S {
                    kids: c.clone(),
                    os,
                    oe,
                });
            }
        }
    }
    v
}
pub fn c08_replay(v: &Value) -> Res {
    let d = jdoc(v, "doc");
    let (from, to) = (ju(v, "from"), ju(v, "to"));
    let sl = || SliceCtx::new(S::from_json(&v["slice"]));
    match v["kind"].as_str().unwrap() {
        "pos" => c08_pos(&d, from, to),
        "mark" => fine(mark_step(from, to, &M::from_json(&v["mark"]), v["add"] == json!(true)).apply(&d.node)),
        "replace" => fine(replace_step(&sl(), from, to, v["structure"] == json!(true)).apply(&d.node)),
        _ => fine(around_step(&sl(), &Ar::from_json(&v["step"])).apply(&d.node)),
    }
}

// ---- C09, C10 ----------------------------------------------------------------------
pub fn ref_mark(d: &DocCtx, from: usize, to: usize, m: &M, add: bool) -> Vec<Tok> {
    map_marks(d, from, to, |id, ty| {
        if !add {
            marks_remove(id, m)
        } else if ty.marks_ok() {
            marks_add(id, m)
        } else {
            id
        }
    })
}
fn applied(st: &Step<MD>, n: &MarkdownNode) -> Result<MarkdownNode, String> {
    st.apply(n).map_err(|e| format!("{:?} is refused: {}", st, e))
}
pub fn c09_eval(d: &DocCtx, from: usize, to: usize, m: &M) -> Res {
    let want = ref_mark(d, from, to, m, true);
    let st = mark_step(from, to, m, true);
    let n = applied(&st, &d.node).map_err(|e| format!("on {}: {}", d.show(), e))?;
    same_doc(&n, &d.t.head, &want, true).map_err(|e| format!("{:?} on {}: {}", st, d.show(), e))?;
    let n2 = applied(&st, &n)?;
    if n2 != n {
        return Err(format!("{:?} on {} a second time gives {}", st, d.show(), T::from_real(&n2).show()));
    }
    Ok(if want == d.toks { "nothing to mark" } else { "marked" })
}
pub fn c10_eval(d: &DocCtx, from: usize, to: usize, m: &M) -> Res {
    let want = ref_mark(d, from, to, m, false);
    let st = mark_step(from, to, m, false);
    let n = applied(&st, &d.node).map_err(|e| format!("on {}: {}", d.show(), e))?;
    same_doc(&n, &d.t.head, &want, true).map_err(|e| format!("{:?} on {}: {}", st, d.show(), e))?;
    // a mark type absent from the range can be added and removed again
    let absent = d.toks[from..to]
        .iter()
        .all(|x| !is_ch(*x) || marks_of(ch_marks(*x)).iter().all(|y| y.kind() != m.kind()));
    if absent {
        let a = applied(&mark_step(from, to, m, true), &d.node)?;
        let b = applied(&st, &a)?;
        if b != d.node {
            return Err(format!(
                "adding and removing {:?} in {}..{} of {} gives {}",
                m,
                from,
                to,
                d.show(),
                T::from_real(&b).show()
            ));
        }
    }
    Ok(if want == d.toks { "nothing to remove" } else { "removed" })
}
/// Mark steps on a range that is not in the document.
fn mark_outside(d: &DocCtx, from: usize, to: usize) -> Res {
    for m in [M::Em, link("x")] {
        for add in [true, false] {
            let st = mark_step(from, to, &m, add);
            if let Ok(n) = st.apply(&d.node) {
                return Err(format!("{:?} on {} (size {}) gives {}", st, d.show(), d.len(), T::from_real(&n).show()));
            }
        }
    }
    Ok("refused: no such range")
}
fn marks_run(e: &Engine, id: &'static str, eval: fn(&DocCtx, usize, usize, &M) -> Res) {
    let docs = docset(
        &[
            (pal_struct(), e.q(9, 11)),
            (pal_blocks(), e.q(6, 8)),
            (pal_inline(), e.q(5, 6)),
            (pal_marks(), e.q(6, 7)),
            (pal_mark_split(), e.q(8, 10)),
        ],
        e.q(2, 4),
    );
    let ms = [
        M::Strong,
        M::Em,
        M::Code,
        link("x"),
        link("z"),
        M::Link("x".into(), "title".into()),
    ];
    let mut vals = all_values(e.thorough());
    vals.extend(length_docs(e.q(6, 9)));
    vals.extend(huge_docs());
    vals.extend(large_docs(e.thorough()).into_iter().filter(|d| d.content_size() < e.q(9000, 99_999)));
    let max = e.q(44, 90);
    let one = |c: &mut Ctx, t: &T, ms: &[M]| {
        let d = DocCtx::new(t);
        c.state();
        let ps = good_positions(&d, 150, max);
        for from in [d.len() + 1, d.len() + 2, 2 * d.len() + 3, usize::MAX] {
            for (f, to) in [(from, from), (0, from), (d.len(), from), (from, 0)] {
                c.case(
                    || json!({"property": id, "kind": "outside", "doc": t.json(), "from": f, "to": to}),
                    || mark_outside(&d, f, to),
                );
            }
        }
        for &from in &ps {
            for &to in ps.iter().filter(|x| **x >= from) {
                for m in ms {
                    c.ops(1);
                    c.case(
                        || json!({"property": id, "doc": t.json(), "from": from, "to": to, "mark": m.json()}),
                        || eval(&d, from, to, m),
                    );
                }
            }
        }
    };
    for (phase, docs) in [("documents", &docs), ("values", &vals)] {
        e.par(phase, docs, |c, t| one(c, t, &ms));
    }
    every_char(e, |c, t| {
        if id == "C09" {
            return one(c, t, &ms[..1]);
        }
        // there must be something to remove
        let mut t = t.clone();
        for k in &mut t.kids[0].kids {
            if let Head::Text(s, m) = &k.head {
                *k = mtext(s, if m.is_empty() { &[M::Em] } else { &[M::Strong, M::Em] });
            }
        }
        one(c, &t, &ms[1..2])
    });
    // every combination of the marks a text has and the mark that is added or removed
    let links = value_links();
    let mut all = vec![M::Strong, M::Em, M::Code];
    all.extend(links.iter().cloned());
    let docs: Vec<T> = mark_subsets(&links)
        .iter()
        .flat_map(|m| {
            [
                doc(vec![p(vec![mtext("abc", m)])]),
                doc(vec![p(vec![mtext("ab", m), text("c"), br(), mtext("d", m)]), cb("", vec![text("x")])]),
                doc(vec![h(1, vec![text("a"), mtext("b", m)]), bq(vec![p(vec![mtext("c", m)])])]),
            ]
        })
        .map(|d| d.normal())
        .collect();
    e.par("mark-combinations", &docs, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let ps = positions(&d);
        for &from in &ps {
            for &to in ps.iter().filter(|x| **x >= from) {
                for m in &all {
                    c.ops(1);
                    c.case(
                        || json!({"property": id, "doc": t.json(), "from": from, "to": to, "mark": m.json()}),
                        || eval(&d, from, to, m),
                    );
                }
            }
        }
    });
}
pub fn c09(e: &Engine) {
    marks_run(e, "C09", c09_eval)
}
pub fn c10(e: &Engine) {
    marks_run(e, "C10", c10_eval)
}
pub fn c09_replay(v: &Value) -> Res {
    if v["kind"] == json!("outside") {
        return mark_outside(&jdoc(v, "doc"), ju(v, "from"), ju(v, "to"));
    }
    c09_eval(&jdoc(v, "doc"), ju(v, "from"), ju(v, "to"), &M::from_json(&v["mark"]))
}
pub fn c10_replay(v: &Value) -> Res {
    if v["kind"] == json!("outside") {
        return mark_outside(&jdoc(v, "doc"), ju(v, "from"), ju(v, "to"));
    }
    c10_eval(&jdoc(v, "doc"), ju(v, "from"), ju(v, "to"), &M::from_json(&v["mark"]))
}

// ---- C11 ---------------------------------------------------------------------------
pub fn c11_replace(d: &DocCtx, s: &SliceCtx, from: usize, to: usize) -> Res {
    let flagged = replace_step(s, from, to, true).apply(&d.node);
    let plain = replace_step(s, from, to, false).apply(&d.node);
    let what = || {
        format!(
            "structural replacement of {}..{} ({}) of {} by {}",
            from,
            to,
            show_toks(&d.toks[from..to]),
            d.show(),
            s.s.show()
        )
    };
    if has_content(&d.toks[from..to]) {
        return match flagged {
            Err(_) => Ok("refused: overwrites content"),
            Ok(n) => Err(format!("{} overwrites content but gives {}", what(), T::from_real(&n).show())),
        };
    }
    match (flagged, plain) {
        (Ok(a), Ok(b)) if a == b => Ok("structural, accepted"),
        (Err(a), Err(b)) if format!("{:?}", a) == format!("{:?}", b) => Ok("structural, refused like the plain step"),
        (a, b) => Err(format!(
            "{}: with the flag {}, without {}",
            what(),
            show_result(&a),
            show_result(&b)
        )),
    }
}
fn show_result(r: &StepResult<MD>) -> String {
    match r {
        Ok(n) => format!("gives {}", T::from_real(n).show()),
        Err(e) => format!("is refused ({:?})", e),
    }
}
pub fn c11_around(d: &DocCtx, s: &SliceCtx, a: &Ar) -> Res {
    let flagged = around_step(s, &Ar { structure: true, ..*a }).apply(&d.node);
    let plain = around_step(s, &Ar { structure: false, ..*a }).apply(&d.node);
    let what = || format!("structural {:?} on {} with {}", a, d.show(), s.s.show());
    if has_content(&d.toks[a.from..a.gf]) || has_content(&d.toks[a.gt..a.to]) {
        return match flagged {
            Err(_) => Ok("refused: overwrites content"),
            Ok(n) => Err(format!("{} overwrites content but gives {}", what(), T::from_real(&n).show())),
        };
    }
    match (flagged, plain) {
        (Ok(x), Ok(y)) if x == y => Ok("structural, accepted"),
        (Err(x), Err(y)) if format!("{:?}", x) == format!("{:?}", y) => Ok("structural, refused like the plain step"),
        (x, y) => Err(format!(
            "{}: with the flag {}, without {}",
            what(),
            show_result(&x),
            show_result(&y)
        )),
    }
}
pub fn c11(e: &Engine) {
    let docs = docset(
        &[
            (pal_struct(), e.q(10, 12)),
            (pal_blocks(), e.q(6, 7)),
            (pal_inline(), e.q(4, 5)),
            (pal_two(), e.q(7, 9)),
        ],
        e.q(2, 3),
    );
    let sp = Space::new(&docs, {
        let mut v = slices_of(&docset(&[(pal_struct(), 5)], 0), 6);
        v.extend([
            S { kids: vec![text("x")], os: 0, oe: 0 },
            S { kids: vec![ps("x")], os: 0, oe: 0 },
            S { kids: vec![ps("x"), ps("y")], os: 1, oe: 1 },
        ]);
        v
    });
    e.par("replace", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in sp.ends(i, from) {
            for s in &sp.slices {
                c.ops(1);
                c.case(
                    || json!({"property": "C11", "kind": "replace", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json()}),
                    || c11_replace(d, s, from, to),
                );
            }
            if c.stopped() {
                return;
            }
        }
    });
    // what lies in the range: every character, every kind of leaf and mark
    let mut docs = value_docs();
    docs.extend(mark_pair_docs().into_iter().step_by(7));
    docs.extend(size_docs(e.thorough()).into_iter().filter(|d| d.content_size() < 60));
    let sp = Space::new(&docs, vec![S::empty(), S { kids: vec![ps("x")], os: 0, oe: 0 }, S { kids: vec![text("x")], os: 0, oe: 0 }]);
    e.par("values", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in sp.ends(i, from) {
            for s in &sp.slices {
                c.ops(1);
                c.case(
                    || json!({"property": "C11", "kind": "replace", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json()}),
                    || c11_replace(d, s, from, to),
                );
            }
        }
    });
    let sp = super::repl::large_space(e, e.q(9000, 99_999));
    e.par("large", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in sp.ends(i, from) {
            for s in sp.slices.iter().step_by(3) {
                c.ops(1);
                c.case(
                    || json!({"property": "C11", "kind": "replace", "doc": d.t.json(), "from": from, "to": to, "slice": s.s.json()}),
                    || c11_replace(d, s, from, to),
                );
            }
            if c.stopped() {
                return;
            }
        }
    });
    large_arounds(e, "C11", c11_around);
    let docs = docset(&[(pal_struct(), e.q(8, 9)), (pal_blocks(), e.q(4, 5)), (pal_two(), 6)], 0);
    let sp = Space::new(&docs, around_slices(e.q(4, 5)));
    arounds(e, "around", "C11", &sp, false, c11_around);
    let sp = Space::new(&around_value_docs(), around_value_slices());
    arounds(e, "around-values", "C11", &sp, false, c11_around);
}
pub fn c11_replay(v: &Value) -> Res {
    let d = jdoc(v, "doc");
    let s = SliceCtx::new(S::from_json(&v["slice"]));
    match v["kind"].as_str().unwrap() {
        "replace" => c11_replace(&d, &s, ju(v, "from"), ju(v, "to")),
        _ => c11_around(&d, &s, &Ar::from_json(&v["step"])),
    }
}

// ---- C12 ---------------------------------------------------------------------------
/// Slices a gap can be put into: what editors wrap, lift and retype with, and all small ones.
pub fn around_slices(n: usize) -> Vec<S> {
    let open = |kids: Vec<T>, os, oe| S { kids, os, oe };
    let mut v = slices_of(&docset(&[(pal_struct(), n), (pal_blocks(), n.min(4))], 0), n + 1);
    let extra = vec![
        open(vec![bq(vec![])], 0, 0),
        open(vec![bq(vec![])], 1, 0),
        open(vec![bq(vec![])], 0, 1),
        open(vec![ul(vec![li(vec![])])], 0, 0),
        open(vec![ul(vec![li(vec![])])], 1, 1),
        open(vec![ul(vec![])], 0, 0),
        open(vec![li(vec![])], 0, 0),
        open(vec![li(vec![]), li(vec![])], 1, 1),
        open(vec![li(vec![ul(vec![])])], 1, 0),
        open(vec![h(2, vec![])], 0, 0),
        open(vec![cb("", vec![])], 0, 0),
        open(vec![bq(vec![ps("x")])], 0, 0),
        open(vec![bq(vec![hr()])], 0, 0),
        open(vec![bq(vec![]), bq(vec![])], 0, 0),
        open(vec![ps("x"), bq(vec![])], 1, 0),
        open(vec![bq(vec![]), ps("xy")], 0, 1),
        open(vec![p(vec![mtext("x", &[M::Em])])], 0, 0),
        open(vec![text("xy")], 0, 0),
        open(vec![ps(EMOJI)], 0, 0),
        open(vec![bq(vec![bq(vec![])])], 1, 0),
        open(vec![bq(vec![bq(vec![]), bq(vec![])])], 2, 2),
    ];
    for s in extra {
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}
/// What a gap holds and what it is wrapped in, over attributes, marks and characters.
pub fn around_value_docs() -> Vec<T> {
    let mut v = vec![];
    for l in [0, 1, 6, 255] {
        v.push(doc(vec![h(l, vec![text("ab")])]));
    }
    for n in [0, 1, 2, 300, usize::MAX] {
        for tight in [false, true] {
            v.push(doc(vec![t(Head::OrderedList(n, tight), vec![li(vec![ps("a")])])]));
        }
    }
    for s in ["", "rust"] {
        v.push(doc(vec![cb(s, vec![text("ab")])]));
    }
    for m in mark_subsets(&value_links()[..2]) {
        v.push(doc(vec![p(vec![mtext("ab", &m), text("c")])]).normal());
    }
    for c in VALUE_CHARS.iter().chain([' ', '\n', '\0', '"', '\u{7f}'].iter()) {
        v.push(doc(vec![ps(&format!("{}a", c))]));
    }
    v.push(doc(vec![p(vec![img("s", "a", "t"), br()])]));
    v
}
pub fn around_value_slices() -> Vec<S> {
    let s = |kids: Vec<T>, os, oe| S { kids, os, oe };
    let mut v = vec![s(vec![], 0, 0), s(vec![bq(vec![])], 0, 0), s(vec![p(vec![])], 0, 0)];
    for l in [0, 2, 255] {
        v.push(s(vec![h(l, vec![])], 0, 0));
    }
    for n in [0, 3, usize::MAX] {
        for tight in [false, true] {
            v.push(s(vec![t(Head::OrderedList(n, tight), vec![li(vec![])])], 0, 0));
            v.push(s(vec![t(Head::BulletList(tight), vec![li(vec![])])], 0, 0));
        }
    }
    v.push(s(vec![cb("rust", vec![])], 0, 0));
    v.push(s(vec![cb("", vec![])], 0, 0));
    v.push(s(vec![p(vec![mtext("x", &[M::Em, link("x")])])], 1, 0));
    v.push(s(vec![text("\u{e9}\u{1F60A}")], 0, 0));
    v.push(s(vec![img("s", "a", "t")], 0, 0));
    v
}
pub fn c12_eval(d: &DocCtx, s: &SliceCtx, a: &Ar) -> Res {
    let got = around_step(s, a).apply(&d.node);
    let what = || format!("{:?} on {} with {}", a, d.show(), s.s.show());
    match (got, ref_around(d, a.from, a.to, a.gf, a.gt, s, a.insert, a.structure)) {
        (Ok(n), Around::Ok(w)) => {
            same_doc(&n, &d.t.head, &w, true).map_err(|e| format!("{}: {}", what(), e))?;
            Ok("accepted")
        }
        (Ok(n), Around::Maybe(w)) => {
            same_doc(&n, &d.t.head, &w, true).map_err(|e| format!("{}: {}", what(), e))?;
            Ok("accepted, with invalid closed nodes of the slice")
        }
        (Err(_), Around::Maybe(_)) => Ok("refused, invalid closed nodes"),
        (Err(_), Around::Err(w)) => Ok(match w {
            "structure" => "refused: overwrites content",
            "gap not flat" => "refused: gap not flat",
            "insertion outside the slice" => "refused: insertion outside the slice",
            "gap does not fit where it is inserted" => "refused: gap does not fit there",
            "does not fit" => "refused: does not fit",
            _ => "refused: invalid content",
        }),
        (Ok(n), Around::Err(w)) => Err(format!(
            "{} should be refused ({}) but gives {}",
            what(),
            w,
            T::from_real(&n).show()
        )),
        (Err(e), Around::Ok(w)) => Err(format!("{} should give {} but is refused: {}", what(), show_toks(&w), e)),
    }
}
fn arounds(
    e: &Engine,
    phase: &str,
    id: &'static str,
    sp: &Space,
    structure: bool,
    eval: fn(&DocCtx, &SliceCtx, &Ar) -> Res,
) {
    e.par(phase, &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for gf in from..=d.len() {
            for gt in gf..=d.len() {
                if d.mid(gf) || d.mid(gt) {
                    continue;
                }
                let flat = d.at[gf] == d.at[gt];
                for to in gt..=d.len() {
                    if d.mid(to) {
                        continue;
                    }
                    for (k, s) in sp.slices.iter().enumerate() {
                        // a gap that is not flat is refused whatever the slice
                        if !flat && k > 4 {
                            break;
                        }
                        for insert in 0..=s.toks.len() - s.s.os + 1 {
                            let mut a = Ar { from, to, gf, gt, insert, structure: false };
                            loop {
                                c.ops(2);
                                c.case(
                                    || json!({"property": id, "kind": "around", "doc": d.t.json(), "slice": s.s.json(), "step": a.json()}),
                                    || eval(d, s, &a),
                                );
                                if !structure || a.structure {
                                    break;
                                }
                                a.structure = true;
                            }
                        }
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
    });
}
/// Wrapping, unwrapping and retyping parts of large documents: every range between some
/// positions with gaps near its ends.
fn large_arounds(e: &Engine, id: &'static str, eval: fn(&DocCtx, &SliceCtx, &Ar) -> Res) {
    let s = |kids: Vec<T>, os, oe| S { kids, os, oe };
    let mut sl = vec![
        S::empty(),
        s(vec![bq(vec![])], 0, 0),
        s(vec![p(vec![])], 0, 0),
        s(vec![ul(vec![li(vec![])])], 0, 0),
        s(vec![bq(vec![ps("x")])], 0, 0),
        s(vec![li(vec![ul(vec![])])], 1, 0),
        s(vec![text("xy")], 0, 0),
        s((0..40).map(|_| ps("x")).collect(), 1, 1),
        s(vec![bq((0..130).map(|_| ps("x")).collect())], 0, 0),
        s(vec![(0..20).fold(bq(vec![]), |x, _| bq(vec![x]))], 0, 0),
    ];
    sl.extend(e.thorough().then(|| s(vec![(0..70).fold(bq(vec![]), |x, _| bq(vec![x]))], 0, 0)));
    let mut docs = large_docs(e.thorough());
    docs.retain(|d| d.content_size() <= e.q(1200, 9000));
    let sp = Space::with(&docs, sl, 0, e.q(60, 120));
    e.par("large-arounds", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        let near = |x: usize, y: usize| y - x <= 2;
        let ps = &sp.pos[i];
        for gf in sp.ends(i, from).filter(|x| near(from, *x)) {
            for gt in ps.iter().cloned().filter(|x| *x >= gf && d.at[*x] == d.at[gf]) {
                for to in ps.iter().cloned().filter(|x| *x >= gt && near(gt, *x)) {
                    for s in &sp.slices {
                        let n = s.toks.len() - s.s.os;
                        let mut ins: Vec<usize> = (0..=n.min(3)).chain([n / 2, n.saturating_sub(1), n]).collect();
                        ins.sort_unstable();
                        ins.dedup();
                        for insert in ins {
                            let a = Ar { from, to, gf, gt, insert, structure: id == "C12" && (from + to) % 2 == 1 };
                            c.ops(1);
                            c.case(
                                || json!({"property": id, "kind": "around", "doc": d.t.json(), "slice": s.s.json(), "step": a.json()}),
                                || eval(d, s, &a),
                            );
                        }
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
    });
}
pub fn c12(e: &Engine) {
    large_arounds(e, "C12", c12_eval);
    let docs = docset(&[(pal_struct(), e.q(8, 9)), (pal_blocks(), e.q(5, 6))], 0);
    let sp = Space::new(&docs, around_slices(e.q(4, 6)));
    arounds(e, "structure", "C12", &sp, true, c12_eval);
    let docs = docset(&[(pal_two(), e.q(6, 8)), (pal_inline(), 4), (pal_marks(), 4)], 0);
    let sp = Space::new(&docs, around_slices(4));
    arounds(e, "inline", "C12", &sp, false, c12_eval);
    // slices with odd contents
    let docs = docset(&[(pal_struct(), 6), (pal_blocks(), 4)], 0);
    let wild = wild_slices(
        e.q(4, 5),
        &[Head::Paragraph, Head::Blockquote, Head::BulletList(false), Head::ListItem],
        &[text("x"), hr()],
    );
    let sp = Space::new(&docs, wild);
    arounds(e, "wild-slices", "C12", &sp, false, c12_eval);
    // hand-made larger documents: nested quotes and lists, as editors lift and sink
    let li1 = |s: &str| li(vec![ps(s)]);
    let docs = vec![
        doc(vec![ul(vec![li1("a"), li1("b"), li1("c")])]),
        doc(vec![ul(vec![li1("a"), li(vec![ps("b"), ul(vec![li1("c")])])])]),
        doc(vec![bq(vec![ps("a"), bq(vec![ps("b")]), ps("c")])]),
        doc(vec![ps("a"), ol(3, vec![li(vec![ps("b"), h(1, vec![text("c")])])]), hr()]),
    ];
    let sp = Space::new(&docs, around_slices(4));
    arounds(e, "editor-documents", "C12", &sp, true, c12_eval);
    let sp = Space::new(&around_value_docs(), around_value_slices());
    arounds(e, "values", "C12", &sp, true, c12_eval);
}
pub fn c12_replay(v: &Value) -> Res {
    c12_eval(
        &jdoc(v, "doc"),
        &SliceCtx::new(S::from_json(&v["slice"])),
        &Ar::from_json(&v["step"]),
    )
}

// ---- C22 ---------------------------------------------------------------------------
/// Compare the outcome of one operation on the split and on the merged document.
fn same_up_to_merging(
    what: &dyn Fn() -> String,
    split: Result<MarkdownNode, String>,
    merged: Result<MarkdownNode, String>,
) -> Res {
    match (split, merged) {
        (Ok(a), Ok(b)) => {
            let (mut ta, mut tb) = (vec![], vec![]);
            read_node(&a, &mut ta, &mut ReadInfo::default())?;
            read_node(&b, &mut tb, &mut ReadInfo::default())?;
            if ta == tb {
                Ok("both accepted")
            } else {
                Err(format!(
                    "{}: split gives {}, merged gives {}",
                    what(),
                    T::from_real(&a).show(),
                    T::from_real(&b).show()
                ))
            }
        }
        (Err(_), Err(_)) => Ok("both refused"),
        (a, b) => Err(format!(
            "{}: split gives {:?}, merged gives {:?}",
            what(),
            a.map(|n| T::from_real(&n).show()),
            b.map(|n| T::from_real(&n).show())
        )),
    }
}
pub fn c22_pos(a: &DocCtx, b: &DocCtx, from: usize, to: usize) -> Res {
    let what = || format!("{}..{} of {}", from, to, a.show());
    let (x, y) = match (a.node.resolve(from), b.node.resolve(from)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), Err(_)) => return Ok("both refused"),
        (x, y) => return Err(format!("{}: resolving: {:?} and {:?}", what(), x.is_ok(), y.is_ok())),
    };
    let depth = b.depth(from);
    if x.before(depth + 1) != Some(from) {
        return Err(format!("{}: depth is not {}", what(), depth));
    }
    for k in 0..=depth {
        if (x.node(k).r#type(), x.start(k), x.end(k), x.before(k), x.after(k))
            != (y.node(k).r#type(), y.start(k), y.end(k), y.before(k), y.after(k))
        {
            return Err(format!("{}: ancestor {} differs", what(), k));
        }
        if k < depth && x.node(k).child(x.index(k)).map(|n| n.r#type()) != y.node(k).child(y.index(k)).map(|n| n.r#type()) {
            return Err(format!("{}: child at depth {} differs", what(), k));
        }
    }
    if x.shared_depth(to) != y.shared_depth(to) {
        return Err(format!("{}: shared depth differs", what()));
    }
    for parents in [false, true] {
        match (a.node.slice(from..to, parents), b.node.slice(from..to, parents)) {
            (Ok(s), Ok(m)) => {
                let (mut ts, mut tm) = (vec![], vec![]);
                read_fragment(&s.content, &mut ts, &mut ReadInfo::default())?;
                read_fragment(&m.content, &mut tm, &mut ReadInfo::default())?;
                if (ts, s.open_start, s.open_end) != (tm, m.open_start, m.open_end) {
                    return Err(format!("{}: slices differ: {:?} and {:?}", what(), s, m));
                }
            }
            (Err(_), Err(_)) => {}
            (s, m) => return Err(format!("{}: slicing: {:?} and {:?}", what(), s.is_ok(), m.is_ok())),
        }
    }
    Ok("resolved and sliced")
}
pub fn c22_step(a: &DocCtx, b: &DocCtx, split: &Step<MD>, merged: &Step<MD>) -> Res {
    let what = || format!("{:?} on {}", split, a.show());
    same_up_to_merging(
        &what,
        split.apply(&a.node).map_err(|e| e.to_string()),
        merged.apply(&b.node).map_err(|e| e.to_string()),
    )
}
/// A slice whose texts are split, with its merged form.
pub struct Pair {
    pub split: SliceCtx,
    pub merged: SliceCtx,
}
fn pair(s: S) -> Pair {
    let m = t(Head::Doc, s.kids.clone()).normal();
    Pair {
        merged: SliceCtx::new(S { kids: m.kids, os: s.os, oe: s.oe }),
        split: SliceCtx::new(s),
    }
}
pub fn pal_splits() -> Palette {
    Palette {
        headings: vec![1],
        quote: true,
        ..Palette::new("splits", vec![text("a"), mtext("b", &[M::Em]), text(EMOJI)])
    }
}
/// marked and unmarked letters in blocks whose merging can be observed
pub fn pal_mark_split() -> Palette {
    Palette {
        quote: true,
        ..Palette::new("mark-split", vec![text("a"), mtext("a", &[M::Em])])
    }
}
pub fn c22(e: &Engine) {
    let docs: Vec<T> = docset(&[(pal_splits(), e.q(6, 7)), (pal_two(), e.q(6, 7))], 0)
        .iter()
        .flat_map(split_variants)
        .collect();
    let mut docs = docs;
    // every character on either side of a split
    for ch in value_chars() {
        for (a, b) in [(format!("a{}", ch), "b".to_string()), ("a".to_string(), format!("{}b", ch))] {
            docs.push(doc(vec![p(vec![text(&a), text(&b)])]));
        }
        let x = ch.to_string();
        docs.push(doc(vec![p(vec![mtext(&x, &[M::Em]), mtext(&x, &[M::Em])]), h(1, vec![text(&x), text("a")])]));
    }
    for m in mark_subsets(&value_links()[..3]) {
        docs.push(doc(vec![p(vec![mtext("a", &m), mtext("b", &m), text("c")])]));
    }
    // longer parts
    for a in 1..=6 {
        for b in 1..=6 {
            let w = |n: usize| "abcdef"[..n].to_string();
            docs.push(doc(vec![p(vec![text(&w(a)), text(&w(b))])]));
            docs.push(doc(vec![bq(vec![p(vec![mtext(&w(a), &[M::Em]), mtext(&w(b), &[M::Em]), text("\u{1F60A}"), text("z")])])]));
        }
    }
    for n in [8, 17, 33] {
        docs.push(doc(vec![p((0..n).map(|_| text("a")).collect())]));
        docs.push(doc(vec![p((0..n).map(|i| mtext("a", [&[][..], &[M::Em][..]][i / 2 % 2])).collect())]));
    }
    for n in [70, 130, 300, 1030] {
        docs.push(doc(vec![p((0..n).map(|_| text("a")).collect())]));
        docs.push(doc(vec![ps("x"), p((0..n).map(|i| mtext("a", [&[][..], &[M::Em][..]][i / 3 % 2])).collect()), ps("y")]));
        let w = "a".repeat(n);
        docs.push(doc(vec![p(vec![text(&w), text(&w), mtext(&w, &[M::Em]), mtext("b", &[M::Em])]), p(vec![text("c"), text(&w)])]));
        docs.push(doc((0..n / 4).map(|i| if i % 3 == 0 { p(vec![text("a"), text("b")]) } else { ps("c") }).collect()));
    }
    let ctxs: Vec<(DocCtx, DocCtx)> = docs.iter().map(|d| (DocCtx::new(d), DocCtx::new(&d.normal()))).collect();
    let items: Vec<(usize, usize)> = ctxs
        .iter()
        .enumerate()
        .flat_map(|(i, c)| {
            let ps = if c.0.len() > 120 { edge_positions_n(&c.0, 40) } else { (0..=c.0.len()).collect() };
            ps.into_iter().map(move |p| (i, p))
        })
        .collect();
    let mut slices: Vec<Pair> = vec![pair(S::empty())];
    for s in inline_slices(3).into_iter().chain(family_slices()) {
        if s.kids.iter().map(|k| k.size()).sum::<usize>() > 6 || s.kids.is_empty() {
            continue;
        }
        for v in split_variants(&doc(s.kids.clone())).into_iter().take(4) {
            slices.push(pair(S { kids: v.kids, os: s.os, oe: s.oe }));
        }
        slices.push(pair(s));
    }
    let gaps = [
        S { kids: vec![bq(vec![])], os: 0, oe: 0 },
        S { kids: vec![text("x"), text("y")], os: 0, oe: 0 },
        S { kids: vec![p(vec![text("x"), text("y")])], os: 1, oe: 0 },
        S { kids: vec![p(vec![text("x"), text("y")])], os: 0, oe: 0 },
        S { kids: vec![h(1, vec![])], os: 0, oe: 0 },
    ];
    let gaps: Vec<Pair> = gaps.into_iter().map(pair).collect();
    let ms = [M::Em, M::Strong, link("x")];
    e.par("split-documents", &items, |c, &(i, from)| {
        let (a, b) = &ctxs[i];
        if from == 0 {
            c.state();
        }
        let base = |k: &str, to: usize| json!({"property": "C22", "kind": k, "doc": a.t.json(), "from": from, "to": to});
        let ends: Vec<usize> = if a.len() > 120 {
            edge_positions_n(a, 40).into_iter().filter(|x| *x >= from).collect()
        } else {
            (from..=a.len()).collect()
        };
        for to in ends {
            c.ops(5);
            c.case(|| base("pos", to), || c22_pos(a, b, from, to));
            for m in &ms {
                for add in [true, false] {
                    c.ops(1);
                    c.case(
                        || {
                            let mut v = base("mark", to);
                            v["mark"] = m.json();
                            v["add"] = json!(add);
                            v
                        },
                        || {
                            let st = mark_step(from, to, m, add);
                            c22_step(a, b, &st, &st)
                        },
                    );
                }
            }
            for s in &slices {
                for structure in [false, true] {
                    c.ops(1);
                    c.case(
                        || {
                            let mut v = base("replace", to);
                            v["slice"] = s.split.s.json();
                            v["structure"] = json!(structure);
                            v
                        },
                        || {
                            c22_step(
                                a,
                                b,
                                &replace_step(&s.split, from, to, structure),
                                &replace_step(&s.merged, from, to, structure),
                            )
                        },
                    );
                }
            }
            if a.len() > 6 {
                continue;
            }
            for gf in from..=to {
                for gt in gf..=to {
                    for s in &gaps {
                        for insert in 0..=s.split.toks.len() - s.split.s.os {
                            for structure in [false, true] {
                                let ar = Ar { from, to, gf, gt, insert, structure };
                                c.ops(1);
                                c.case(
                                    || json!({"property": "C22", "kind": "around", "doc": a.t.json(), "slice": s.split.s.json(), "step": ar.json()}),
                                    || c22_step(a, b, &around_step(&s.split, &ar), &around_step(&s.merged, &ar)),
                                );
                            }
                        }
                    }
                }
            }
            if c.stopped() {
                return;
            }
        }
    });
    e.par("every-character", &char_blocks(e.thorough()), |c, b| {
        for ch in block_chars(*b) {
            let s: String = ['a', ch, 'b'].iter().collect();
            c22_parts(c, &s, 1);
            c22_parts(c, &s, 1 + ch.len_utf8());
            if c.stopped() {
                return;
            }
        }
    });
    let seqs = char_sequences();
    let chunks: Vec<&[String]> = seqs.chunks(200).collect();
    e.par("character-sequences", &chunks, |c, ss| {
        for s in ss.iter() {
            for (cut, _) in s.char_indices().skip(1) {
                c22_parts(c, s, cut);
            }
        }
    });
}
/// A text with one split, resolved, sliced, marked and typed into.
fn c22_parts(c: &mut Ctx, s: &str, cut: usize) {
    let (l, r) = s.split_at(cut);
    let a = DocCtx::new(&doc(vec![p(vec![text(l), text(r)])]));
    let b = DocCtx::new(&a.t.normal());
    c.state();
    let typed = pair(S { kids: vec![text("x"), text("y")], os: 0, oe: 0 });
    let none = pair(S::empty());
    for from in 0..=a.len() {
        for to in from..=a.len() {
            let base = |k: &str| json!({"property": "C22", "kind": k, "doc": a.t.json(), "from": from, "to": to});
            c.ops(5);
            c.case(|| base("pos"), || c22_pos(&a, &b, from, to));
            c.case(
                || {
                    let mut v = base("mark");
                    v["mark"] = M::Em.json();
                    v["add"] = json!(true);
                    v
                },
                || {
                    let st = mark_step(from, to, &M::Em, true);
                    c22_step(&a, &b, &st, &st)
                },
            );
            for s in [&typed, &none] {
                c.case(
                    || {
                        let mut v = base("replace");
                        v["slice"] = s.split.s.json();
                        v["structure"] = json!(false);
                        v
                    },
                    || {
                        c22_step(
                            &a,
                            &b,
                            &replace_step(&s.split, from, to, false),
                            &replace_step(&s.merged, from, to, false),
                        )
                    },
                );
            }
        }
    }
}
pub fn c22_replay(v: &Value) -> Res {
    let a = jdoc(v, "doc");
    let b = DocCtx::new(&a.t.normal());
    let (from, to) = (ju(v, "from"), ju(v, "to"));
    let pr = || pair(S::from_json(&v["slice"]));
    match v["kind"].as_str().unwrap() {
        "pos" => c22_pos(&a, &b, from, to),
        "mark" => {
            let st = mark_step(from, to, &M::from_json(&v["mark"]), v["add"] == json!(true));
            c22_step(&a, &b, &st, &st)
        }
        "replace" => {
            let s = pr();
            let f = v["structure"] == json!(true);
            c22_step(
                &a,
                &b,
                &replace_step(&s.split, from, to, f),
                &replace_step(&s.merged, from, to, f),
            )
        }
        _ => {
            let s = pr();
            let ar = Ar::from_json(&v["step"]);
            c22_step(&a, &b, &around_step(&s.split, &ar), &around_step(&s.merged, &ar))
        }
    }
}
