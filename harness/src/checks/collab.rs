//! C25: an authority that applies steps from JSON, and replicas that replay its log.
use super::json::RS;
use super::repl::family_slices;
use super::steps::Ar;
use super::*;
use prosemirror::markdown::{MarkdownNode, MD};
use prosemirror::model::Node;
use prosemirror::transform::{Step, Steps};
use std::collections::HashMap;

/// What became of a step: the new document, or the message of the error.
fn outcome(s: &Step<MD>, d: &MarkdownNode) -> Result<MarkdownNode, String> {
    s.apply(d).map_err(|e| format!("{} ({:?})", e, e))
}
fn show(r: &Result<MarkdownNode, String>) -> String {
    match r {
        Ok(n) => T::from_real(n).show(),
        Err(e) => format!("the error {}", e),
    }
}
/// Is it the same, down to how texts are divided and what is written to JSON?
fn same_out(a: &Result<MarkdownNode, String>, b: &Result<MarkdownNode, String>, text: bool) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            x == y
                && x.node_size() == y.node_size()
                && T::from_real(x) == T::from_real(y)
                && (!text || serde_json::to_string(x).ok() == serde_json::to_string(y).ok())
        }
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}
fn parse<X: for<'d> serde::Deserialize<'d>>(s: &str) -> Result<X, String> {
    serde_json::from_str(s).map_err(|e| format!("{} cannot be read: {}", s, e))
}
fn write<X: serde::Serialize>(x: &X) -> Result<String, String> {
    serde_json::to_string(x).map_err(|e| e.to_string())
}

/// One document in all the forms in which replicas may hold it.
struct Forms {
    t: T,
    node: MarkdownNode,
    parsed: MarkdownNode,
    valued: MarkdownNode,
}
impl Forms {
    fn new(t: &T) -> Result<Forms, String> {
        let node = t.real();
        let text = write(&node)?;
        let v = serde_json::to_value(&node).map_err(|e| e.to_string())?;
        Ok(Forms {
            t: t.clone(),
            parsed: parse(&text)?,
            valued: serde_json::from_value(v).map_err(|e| e.to_string())?,
            node,
        })
    }
}
/// One step in all its forms.
struct StepForms {
    rs: RS,
    real: Step<MD>,
    parsed: Step<MD>,
    valued: Step<MD>,
}
impl StepForms {
    fn new(rs: &RS) -> Result<StepForms, String> {
        let real = rs.real();
        let v = serde_json::to_value(&real).map_err(|e| e.to_string())?;
        Ok(StepForms {
            rs: rs.clone(),
            parsed: parse(&write(&real)?)?,
            valued: serde_json::from_value(v).map_err(|e| e.to_string())?,
            real,
        })
    }
}
/// However the two got here, the step does the same to the document, and leaves it alone.
fn c25_square(d: &Forms, s: &StepForms) -> Res {
    let first = outcome(&s.real, &d.node);
    for (how, s2, d2) in [
        ("again", &s.real, &d.node),
        ("the step sent as JSON", &s.parsed, &d.node),
        ("the document sent as JSON", &s.real, &d.parsed),
        ("both read from JSON values", &s.valued, &d.valued),
    ] {
        let other = outcome(s2, d2);
        if !same_out(&first, &other, false) {
            return Err(format!(
                "{:?} on {} gives {}, but {} {}",
                s.rs,
                d.t.show(),
                show(&first),
                how,
                show(&other)
            ));
        }
    }
    for n in [&d.node, &d.parsed, &d.valued] {
        if T::from_real(n) != d.t {
            return Err(format!("applying {:?} to {} changes it to {}", s.rs, d.t.show(), T::from_real(n).show()));
        }
    }
    Ok(if first.is_ok() { "same document" } else { "same error" })
}

/// Where each position lies, from the last on, and the one past the end.
fn places(d: &MarkdownNode) -> Vec<Option<(usize, usize, usize)>> {
    let size = d.content_size();
    let at = |p| {
        let r = d.resolve(p).ok()?;
        let depth = r.shared_depth(p);
        Some((depth, r.index(depth), r.start(depth)))
    };
    (0..=size + 1).rev().map(at).collect()
}

/// An authority takes a sequence of submissions (texts, some of them stale or malformed);
/// replicas start from its snapshots and replay its log.
fn c25_log(start: &T, subs: &[String]) -> Res {
    let mut docs: Vec<MarkdownNode> = vec![start.real()];
    let mut log: Vec<String> = vec![];
    let mut refused = 0;
    for s in subs {
        let d = docs.last().unwrap();
        let before = write(d)?;
        let step: Step<MD> = match serde_json::from_str(s) {
            Ok(s) => s,
            Err(_) => {
                refused += 1;
                continue;
            }
        };
        let r = outcome(&step, d);
        if write(d)? != before {
            return Err(format!("the step {} changes the document it was applied to: {}", s, before));
        }
        match r {
            Ok(n) => {
                docs.push(n);
                log.push(write(&step)?);
            }
            Err(e) => {
                refused += 1;
                if outcome(&step, d) != Err(e.clone()) {
                    return Err(format!("the step {} is refused, but not when repeated, on {}", s, before));
                }
            }
        }
    }
    let texts = docs.iter().map(write).collect::<Result<Vec<_>, _>>()?;
    for from in 0..docs.len() {
        // one message per step
        let mut d: MarkdownNode = parse(&texts[from])?;
        for (i, s) in log.iter().enumerate().skip(from) {
            let what = || format!("replaying {} from version {} of the log {:?} on {}", s, from, log, texts[0]);
            let step: Step<MD> = parse(s)?;
            d = outcome(&step, &d).map_err(|e| format!("{}: {}", what(), e))?;
            let (kept, fresh) = (places(&d), places(&docs[i + 1]));
            if kept != fresh {
                return Err(format!(
                    "{}: the positions of version {} resolve to {:?} in the document the replica keeps, {:?} in the authority's",
                    what(),
                    i + 1,
                    kept,
                    fresh
                ));
            }
            if d != docs[i + 1] || write(&d)? != texts[i + 1] {
                return Err(format!(
                    "{} gives {} at version {}, but the authority has {}",
                    what(),
                    write(&d)?,
                    i + 1,
                    texts[i + 1]
                ));
            }
        }
        // the rest of the log in one message
        let all: Steps<MD> = parse(&format!("[{}]", log[from..].join(",")))?;
        let back: Steps<MD> = parse(&write(&all)?)?;
        let end = back.iter().try_fold(docs[from].clone(), |d, s| outcome(s, &d));
        if back.len() != log.len() - from || end.as_ref().ok() != docs.last() {
            return Err(format!(
                "the log {:?} read as a list from version {} on leads to {}, but the authority has {}",
                log,
                from,
                show(&end),
                texts[texts.len() - 1]
            ));
        }
    }
    Ok(match (log.len(), refused) {
        (0, _) => "all refused",
        (_, 0) => "all accepted",
        _ => "some accepted",
    })
}

/// Two replacements of ranges that do not touch: each order leads to the same document.
fn c25_order(d: &T, a: (&S, usize, usize), b: (&S, usize, usize)) -> Res {
    let n = d.real();
    let size = |s: &S| s.toks().len() - s.os - s.oe;
    let step = |s: &S, from: usize, to: usize| RS::Replace(s.clone(), from, to, false).real();
    // a is before b
    let shift = |x: usize| x + size(a.0) - (a.2 - a.1);
    let ab = outcome(&step(a.0, a.1, a.2), &n).and_then(|m| outcome(&step(b.0, shift(b.1), shift(b.2)), &m));
    let ba = outcome(&step(b.0, b.1, b.2), &n).and_then(|m| outcome(&step(a.0, a.1, a.2), &m));
    match (&ab, &ba) {
        (Ok(x), Ok(y)) if x == y => Ok("same in both orders"),
        (Ok(_), Ok(_)) => Err(format!(
            "on {}, {} at {}..{} and then {} at {}..{} gives {}, the other way round {}",
            d.show(),
            a.0.show(),
            a.1,
            a.2,
            b.0.show(),
            b.1,
            b.2,
            show(&ab),
            show(&ba)
        )),
        (Err(_), Err(_)) => Ok("refused in both orders"),
        _ => Ok("refused in one order"),
    }
}

/// Other characters of the same width, by a mapping that is its own inverse.
fn other_char(c: char, k: u32) -> char {
    let u = c as u32;
    let v = match k {
        _ if u > 0xffff => u ^ 1,
        1 => u ^ 0x100,
        2 => u ^ 0x4000,
        3 if u % 2 == 1 => u ^ 0x100,
        4 if u % 2 == 0 => u ^ 0x4000,
        _ => u,
    };
    char::from_u32(v).unwrap_or(c)
}
fn other_text(x: &T, k: u32) -> T {
    let head = match &x.head {
        Head::Text(s, m) => Head::Text(s.chars().map(|c| other_char(c, k)).collect(), m.clone()),
        h => h.clone(),
    };
    T { head, kids: x.kids.iter().map(|y| other_text(y, k)).collect() }
}
fn other_step(x: &RS, k: u32) -> RS {
    let slice = |s: &S| S { kids: s.kids.iter().map(|y| other_text(y, k)).collect(), os: s.os, oe: s.oe };
    match x {
        RS::Replace(s, from, to, b) => RS::Replace(slice(s), *from, *to, *b),
        RS::Around(s, a) => RS::Around(slice(s), *a),
        RS::Mark(m, from, to, b) => RS::Mark(m.clone(), *from, *to, *b),
    }
}
/// The same document written with other characters takes the same step in the same way, one
/// after the other (each is gone, and its memory free, before the next is built).
fn c25_other(t: &T, others: &[(T, Step<MD>)]) -> Res {
    let run = |k: usize| -> Result<Option<T>, String> {
        let (x, s) = &others[k];
        let d = x.real();
        let got = s.apply(&d).ok();
        if T::from_real(&d) != *x {
            return Err(format!("{:?} changes the document {} it is applied to", s, x.show()));
        }
        Ok(got.map(|n| other_text(&T::from_real(&n), k as u32)))
    };
    let want = run(0)?;
    for k in [1, 0, 2, 0, 3, 4, 1, 2] {
        let got = run(k)?;
        if got != want {
            let show = |r: &Option<T>| r.as_ref().map_or("an error".to_string(), T::show);
            return Err(format!(
                "{:?} on {} gives {}, but written with other characters, as {}, and read back: {}",
                others[0].1,
                t.show(),
                show(&want),
                others[k].0.show(),
                show(&got)
            ));
        }
    }
    Ok(if want.is_some() { "accepted with any characters" } else { "refused with any characters" })
}

fn sl(kids: Vec<T>, os: usize, oe: usize) -> S {
    S { kids, os, oe }
}
/// The submissions of several clients: good ones, stale ones and nonsense.
fn alphabet(big: bool) -> Vec<String> {
    let r = |s: S, f, t| RS::Replace(s, f, t, false).json().to_string();
    let m = |m: M, f, t, add| RS::Mark(m, f, t, add).json().to_string();
    let ar = |s: S, from, to, gf, gt, insert| {
        RS::Around(s, Ar { from, to, gf, gt, insert, structure: true }).json().to_string()
    };
    let mut v = vec![
        r(sl(vec![text("x")], 0, 0), 1, 1),
        r(sl(vec![mtext("y", &[M::Em])], 0, 0), 2, 2),
        r(S::empty(), 1, 2),
        r(S::empty(), 2, 4),
        r(sl(vec![p(vec![]), p(vec![])], 1, 1), 2, 2),
        ar(sl(vec![bq(vec![])], 0, 0), 0, 3, 0, 3, 1),
        ar(S::empty(), 0, 5, 1, 4, 0),
        ar(sl(vec![h(2, vec![])], 0, 0), 0, 3, 1, 2, 1),
        m(M::Em, 1, 3, true),
        m(M::Em, 0, 9, false),
        m(link("x"), 2, 4, true),
        r(sl(vec![hr()], 0, 0), 0, 0),
        r(sl(vec![text("z")], 0, 0), 6, 7),
        r"{}".to_string(),
    ];
    if big {
        v.extend([
            r(sl(vec![text(EMOJI)], 0, 0), 1, 1),
            r(S::empty(), 0, 3),
            r(sl(vec![br()], 0, 0), 2, 2),
            r(sl(vec![ul(vec![li(vec![ps("q")])])], 0, 0), 0, 0),
            r(sl(vec![li(vec![ps("")]), li(vec![ps("")])], 2, 2), 3, 4),
            m(M::Code, 1, 2, true),
            r(S::empty(), 3, 1),
            r#"{"stepType":"replace","from":1,"to":2}"#.to_string(),
            r#"{"stepType":"addMark","from":1,"to":3,"mark":{"type":"link","attrs":{"href":"q","title":null}}}"#.to_string(),
        ]);
    }
    v
}
fn starts() -> Vec<T> {
    vec![
        doc(vec![ps("ab")]),
        doc(vec![ps("a"), ps("b")]),
        doc(vec![ul(vec![li(vec![ps("a")])]), ps("")]),
        doc(vec![h(1, vec![text("ab")]), p(vec![mtext("a", &[M::Em]), text("b")])]),
        doc(vec![bq(vec![ps("a")]), hr()]),
        doc(vec![cb("x", vec![text("ab")]), ps(EMOJI)]),
        doc(vec![p(vec![text("a"), br(), mtext("b", &[link("x")]), img("s", "", "")])]),
    ]
}
/// Steps at all positions of a document.
fn steps_for(d: &DocCtx, slices: &[S], gaps: &[S], span: usize) -> Vec<RS> {
    let mut v = vec![];
    let ps = positions(d);
    for &from in &ps {
        for &to in ps.iter().filter(|to| **to >= from && **to - from <= span) {
            for s in slices {
                v.push(RS::Replace(s.clone(), from, to, s.kids.is_empty() && (from + to) % 2 == 0));
            }
            for m in [M::Em, M::Strong, link("x"), M::Link("y".into(), "t".into())] {
                for add in [true, false] {
                    v.push(RS::Mark(m.clone(), from, to, add));
                }
            }
            for s in gaps {
                let insert = s.toks().len() / 2;
                for (a, b) in [(0, 0), (1, 1), (1, 0), (2, 2)] {
                    if from >= a && to + b <= d.len() {
                        let a = Ar { from: from - a, to: to + b, gf: from, gt: to, insert, structure: true };
                        v.push(RS::Around(s.clone(), a));
                    }
                }
            }
        }
    }
    v.push(RS::Replace(S::empty(), d.len(), d.len() + 1, false));
    v.push(RS::Replace(S::empty(), 1, 0, false));
    v
}
pub fn c25(e: &Engine) {
    MANY_LINKS.store(true, std::sync::atomic::Ordering::Relaxed);
    let slices = [
        S::empty(),
        sl(vec![text("x")], 0, 0),
        sl(vec![mtext("y", &[M::Em, link("x")])], 0, 0),
        sl(vec![ps(""), ps("")], 1, 1),
        sl(vec![ps("a")], 1, 0),
        sl(vec![hr()], 0, 0),
        sl(vec![h(2, vec![text(EMOJI)])], 0, 1),
        sl(vec![li(vec![ps("")]), li(vec![ps("q")])], 2, 2),
    ];
    let gaps = [
        S::empty(),
        sl(vec![bq(vec![])], 0, 0),
        sl(vec![ul(vec![li(vec![])])], 0, 0),
        sl(vec![h(3, vec![])], 0, 0),
    ];
    let mut docs = docset(
        &[
            (pal_struct(), e.q(8, 10)),
            (pal_blocks(), e.q(5, 6)),
            (pal_attrs(), e.q(4, 5)),
            (pal_inline(), e.q(5, 6)),
            (pal_marks(), e.q(4, 5)),
            (pal_two(), e.q(6, 8)),
        ],
        0,
    );
    docs.extend(split_variants(&doc(vec![p(vec![text("abc"), mtext("de", &[M::Em])])])));
    docs.sort_by_key(|d| std::cmp::Reverse(d.content_size()));
    let square = |c: &mut Ctx, t: &T, sl: &[S], gaps: &[S], span: usize| {
        let d = DocCtx::new(t);
        c.state();
        let f = match Forms::new(t) {
            Ok(f) => f,
            Err(w) => return c.fail(json!({"property": "C25", "kind": "square", "doc": t.json(), "step": null}), w),
        };
        for rs in steps_for(&d, sl, gaps, span) {
            c.ops(6);
            c.case(
                || json!({"property": "C25", "kind": "square", "doc": t.json(), "step": rs.json()}),
                || c25_square(&f, &StepForms::new(&rs)?),
            );
            if c.stopped() {
                return;
            }
        }
    };
    e.par("any-form", &docs, |c, t| square(c, t, &slices, &gaps, 99));
    let mut large = docset(&[], e.q(3, 5));
    large.extend(value_docs());
    large.extend(mark_pair_docs());
    large.extend(size_docs(e.thorough()));
    large.sort_by_key(|d| std::cmp::Reverse(d.content_size()));
    let mut more = slices[..4].to_vec();
    more.extend(family_slices().into_iter().take(e.q(2, 6)));
    e.par("any-form-large", &large, |c, t| {
        let span = e.q(if t.content_size() > 60 { 1 } else { 4 }, if t.content_size() > 60 { 8 } else { 24 });
        square(c, t, &more, &gaps[..2], span)
    });
    // the same structure with other characters
    let mut worded = docset(
        &[(pal_struct(), e.q(7, 8)), (pal_blocks(), 5), (pal_inline(), e.q(4, 5)), (pal_marks(), e.q(4, 5)), (pal_two(), e.q(6, 7))],
        e.q(1, 3),
    );
    worded.extend(split_variants(&doc(vec![p(vec![text("abc"), mtext("de", &[M::Em])])])));
    worded.extend(length_docs(e.q(5, 9)));
    worded.retain(|d| d.content_size() < 60);
    e.par("other-characters", &worded, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let docs: Vec<T> = (0..5).map(|k| other_text(t, k)).collect();
        for rs in steps_for(&d, &slices, &gaps[..2], e.q(4, 99)) {
            let others: Vec<(T, Step<MD>)> = docs.iter().zip(0..).map(|(x, k)| (x.clone(), other_step(&rs, k).real())).collect();
            c.ops(9);
            c.case(
                || json!({"property": "C25", "kind": "other", "doc": t.json(), "step": rs.json()}),
                || c25_other(t, &others),
            );
            if c.stopped() {
                return;
            }
        }
    });
    // past every small limit
    let mut huge = large_docs(e.thorough());
    huge.retain(|d| d.content_size() < e.q(1500, 9000) && super::json::depth_of(d) < 40);
    let mut wide = super::repl::large_slices(false);
    wide.retain(|s| s.kids.iter().all(|k| super::json::depth_of(k) < 20));
    e.par("any-form-huge", &huge, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        let f = match Forms::new(t) {
            Ok(f) => f,
            Err(w) => return c.fail(json!({"property": "C25", "kind": "square", "doc": t.json(), "step": null}), w),
        };
        let ps = edge_positions_n(&d, e.q(60, 100));
        for (i, &from) in ps.iter().enumerate() {
            for &to in [i, i + 1, i + 2, ps.len() - 1].iter().filter_map(|k| ps.get(*k)).filter(|x| **x >= from) {
                let mut sts = vec![];
                for s in more.iter().take(3).chain([&wide[i % wide.len()]]) {
                    if d.depth(from) + s.oe == d.depth(to) + s.os && d.depth(from) >= s.os {
                        sts.push(RS::Replace(s.clone(), from, to, false));
                    }
                }
                sts.push(RS::Mark(M::Em, from, to, i % 2 == 0));
                sts.push(RS::Mark(link("l"), from, to, i % 3 == 0));
                for rs in sts {
                    c.ops(6);
                    c.case(
                        || json!({"property": "C25", "kind": "square", "doc": t.json(), "step": rs.json()}),
                        || c25_square(&f, &StepForms::new(&rs)?),
                    );
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // every interleaving of submissions
    for (name, alpha, len) in [("logs", alphabet(true), e.q(3, 4)), ("long-logs", alphabet(false), e.q(4, 5))] {
        let n = alpha.len();
        let items: Vec<(T, usize, usize)> = starts()
            .into_iter()
            .flat_map(|t| (0..n * n).map(move |k| (t.clone(), k / n, k % n)))
            .collect();
        e.par(name, &items, |c, (t, a, b)| {
            c.state();
            for k in 0..n.pow(len - 2) {
                let mut subs = vec![alpha[*a].clone(), alpha[*b].clone()];
                let mut k = k;
                for _ in 2..len {
                    subs.push(alpha[k % n].clone());
                    k /= n;
                }
                c.ops(4 * len as usize);
                c.case(
                    || json!({"property": "C25", "kind": "log", "start": t.json(), "subs": subs}),
                    || c25_log(t, &subs),
                );
                if c.stopped() {
                    return;
                }
            }
        });
    }
    // the same document means the same, by whatever steps it was reached
    let alpha: Vec<String> = alphabet(true);
    let sts = starts();
    e.par("any-history", &sts, |c, t| {
        let parsed: Vec<Option<Step<MD>>> = alpha.iter().map(|s| serde_json::from_str(s).ok()).collect();
        let mut known: HashMap<String, Vec<Option<String>>> = HashMap::new();
        let mut front: Vec<(MarkdownNode, Vec<usize>)> = vec![(t.real(), vec![])];
        for _ in 0..e.q(4, 5) {
            let mut next = vec![];
            for (d, hist) in &front {
                let key = write(d).unwrap_or_default();
                let again = known.contains_key(&key);
                let mut outs: Vec<Option<String>> = vec![];
                for (i, s) in parsed.iter().enumerate() {
                    let s = match s {
                        Some(s) => s,
                        None => continue,
                    };
                    c.ops(1);
                    let r = outcome(s, d);
                    outs.push(r.as_ref().map(|n| write(n).unwrap_or_default()).ok());
                    if let (Ok(n), false) = (r, again) {
                        let mut h = hist.clone();
                        h.push(i);
                        next.push((n, h));
                    }
                }
                c.state();
                let old = known.entry(key.clone()).or_insert_with(|| outs.clone());
                let subs: Vec<&String> = hist.iter().map(|i| &alpha[*i]).collect();
                c.case(
                    || json!({"property": "C25", "kind": "history", "start": t.json(), "subs": subs}),
                    || {
                        if *old != outs {
                            Err(format!("{} reached by {:?} takes steps differently from before", key, subs))
                        } else {
                            Ok(if again { "reached again" } else { "reached" })
                        }
                    },
                );
                if c.stopped() {
                    return;
                }
            }
            front = next;
        }
    });
    // replacements in places that do not touch
    let order_docs = docset(&[(pal_struct(), e.q(8, 10)), (pal_blocks(), e.q(5, 6)), (pal_marks(), e.q(4, 5))], 0);
    let order_slices = &slices[..e.q(6, 8)];
    e.par("either-order", &order_docs, |c, t| {
        let d = DocCtx::new(t);
        let ps = positions(&d);
        c.state();
        for (i, &a) in ps.iter().enumerate() {
            for (j, &b) in ps.iter().enumerate().skip(i) {
                for (k, &x) in ps.iter().enumerate().skip(j + 1) {
                    for &y in &ps[k..] {
                        for s in order_slices {
                            for u in order_slices {
                                c.ops(3);
                                c.case(
                                    || {
                                        json!({"property": "C25", "kind": "order", "doc": t.json(), "a": s.json(),
                                            "b": u.json(), "at": [a, b, x, y]})
                                    },
                                    || c25_order(t, (s, a, b), (u, x, y)),
                                );
                            }
                        }
                    }
                }
                if c.stopped() {
                    return;
                }
            }
        }
    });
}
pub fn c25_replay(v: &Value) -> Res {
    let subs = || v["subs"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect::<Vec<_>>();
    match v["kind"].as_str().unwrap() {
        "square" => {
            let f = Forms::new(&T::from_json(&v["doc"]))?;
            if v["step"].is_null() {
                return Ok("readable");
            }
            let mut d = super::json::Dec { lax: false };
            let rs = d.step(&v["step"]).ok_or("unreadable case")?;
            c25_square(&f, &StepForms::new(&rs)?)
        }
        "other" => {
            let t = T::from_json(&v["doc"]);
            let mut d = super::json::Dec { lax: false };
            let rs = d.step(&v["step"]).ok_or("unreadable case")?;
            let others: Vec<(T, Step<MD>)> = (0..5).map(|k| (other_text(&t, k), other_step(&rs, k).real())).collect();
            c25_other(&t, &others)
        }
        "order" => {
            let at: Vec<usize> = v["at"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let (a, b) = (S::from_json(&v["a"]), S::from_json(&v["b"]));
            c25_order(&T::from_json(&v["doc"]), (&a, at[0], at[1]), (&b, at[2], at[3]))
        }
        "history" => {
            // the document as reached by the steps takes every step as a fresh copy does
            let mut d = T::from_json(&v["start"]).real();
            for s in subs() {
                d = outcome(&parse::<Step<MD>>(&s)?, &d)?;
            }
            let fresh: MarkdownNode = parse(&write(&d)?)?;
            for s in alphabet(true) {
                if let Ok(s) = parse::<Step<MD>>(&s) {
                    if !same_out(&outcome(&s, &d), &outcome(&s, &fresh), true) {
                        return Err(format!("{:?} acts differently on {}", s, T::from_real(&d).show()));
                    }
                }
            }
            Ok("reached")
        }
        _ => c25_log(&T::from_json(&v["start"]), &subs()),
    }
}
