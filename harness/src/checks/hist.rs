//! C07: breadth-first exploration of all histories of steps on real documents.
use super::repl::{family_slices, large_space, Space};
use super::steps::*;
use super::*;
use crate::gen::docs as gen_docs;
use prosemirror::markdown::MarkdownNode;
use prosemirror::transform::Step;
use prosemirror::markdown::MD;

/// One step of the explored alphabet, in the terms of the model.
pub enum St<'a> {
    Replace(&'a SliceCtx, &'a SliceInfo, usize, usize, bool),
    Mark(&'a M, usize, usize, bool),
    Around(&'a SliceCtx, Ar),
}
impl<'a> St<'a> {
    fn real(&self) -> Step<MD> {
        match self {
            St::Replace(s, _, f, t, st) => replace_step(s, *f, *t, *st),
            St::Mark(m, f, t, add) => mark_step(*f, *t, m, *add),
            St::Around(s, a) => around_step(s, a),
        }
    }
    /// What the interpreter says: new tokens, or refusal; None if the step is outside the
    /// property (a slice with invalid closed nodes).
    fn model(&self, d: &DocCtx) -> Option<Result<Vec<Tok>, ()>> {
        Some(match self {
            St::Replace(s, i, f, t, st) => {
                if *st && has_content(&d.toks[*f..*t]) {
                    return Some(Err(()));
                }
                ref_replace(d, *f, *t, &s.toks, s.s.os, s.s.oe, i).map_err(|_| ())
            }
            St::Mark(m, f, t, add) => Ok(ref_mark(d, *f, *t, m, *add)),
            St::Around(s, a) => match ref_around(d, a.from, a.to, a.gf, a.gt, s, a.insert, a.structure) {
                Around::Ok(v) => Ok(v),
                Around::Err(_) => Err(()),
                Around::Maybe(_) => return None,
            },
        })
    }
    fn json(&self) -> Value {
        match self {
            St::Replace(s, _, f, t, st) => {
                json!({"kind": "replace", "from": f, "to": t, "slice": s.s.json(), "structure": st})
            }
            St::Mark(m, f, t, add) => json!({"kind": "mark", "from": f, "to": t, "mark": m.json(), "add": add}),
            St::Around(s, a) => json!({"kind": "around", "slice": s.s.json(), "step": a.json()}),
        }
    }
}
/// Take one step on a real document; the new document if it is accepted.
fn take(d: &DocCtx, st: &St) -> Result<Option<(MarkdownNode, Vec<Tok>)>, String> {
    let real = st.real();
    let what = || format!("{} on {}", st.json(), d.show());
    let model = match st.model(d) {
        Some(m) => m,
        None => {
            let _ = real.apply(&d.node);
            return Ok(None);
        }
    };
    match (real.apply(&d.node), model) {
        (Ok(n), Ok(w)) => {
            same_doc(&n, &d.t.head, &w, true).map_err(|e| format!("{}: {}", what(), e))?;
            if !valid_toks(d.t.ty(), &w) {
                return Err(format!("{}: the result {} is not valid", what(), T::from_real(&n).show()));
            }
            Ok(Some((n, w)))
        }
        (Err(_), Err(_)) => Ok(None),
        (Ok(n), Err(_)) => {
            Err(format!("{} should be refused but gives {}", what(), T::from_real(&n).show()))
        }
        (Err(e), Ok(w)) => Err(format!("{} should give {} but is refused: {}", what(), show_toks(&w), e)),
    }
}

struct Alphabet {
    name: &'static str,
    slices: Vec<S>,
    marks: Vec<M>,
    gaps: Vec<S>,
    structure: bool,
    max: usize,
}

fn explore(e: &Engine, a: &Alphabet, starts: &[T]) {
    let sp = Space::new(&[], a.slices.clone());
    let gaps: Vec<SliceCtx> = a.gaps.iter().cloned().map(SliceCtx::new).collect();
    let mut seen: HashSet<Vec<Tok>> = HashSet::new();
    let mut front: Vec<(DocCtx, Vec<Value>)> = vec![];
    for s in starts {
        let d = DocCtx::new(s);
        if seen.insert(d.toks.clone()) {
            front.push((d, vec![]));
        }
    }
    let mut depth = 0;
    while !front.is_empty() && !e.stopped() {
        let phase = format!("{}-depth-{}", a.name, depth);
        let next = e.par_stateful(&phase, &front, |c, (d, hist)| {
            c.state();
            let mut out: Vec<(MarkdownNode, Vec<Tok>, Value)> = vec![];
            let mut local: HashSet<Vec<Tok>> = HashSet::new();
            let ps = positions(d);
            let mut go = |c: &mut Ctx, st: St| {
                let start = || {
                    if hist.is_empty() {
                        d.t.json()
                    } else {
                        hist[0].clone()
                    }
                };
                let mut res = None;
                c.case(
                    || {
                        let mut steps: Vec<Value> = hist.iter().skip(1).cloned().collect();
                        steps.push(st.json());
                        json!({"property": "C07", "start": start(), "steps": steps})
                    },
                    || match take(d, &st)? {
                        Some(x) => {
                            res = Some(x);
                            Ok("accepted")
                        }
                        None => Ok("refused"),
                    },
                );
                if let Some((n, toks)) = res {
                    if toks.len() <= a.max && toks != d.toks && local.insert(toks.clone()) {
                        out.push((n, toks, st.json()));
                    }
                }
            };
            for &from in &ps {
                for &to in ps.iter().filter(|x| **x >= from) {
                    for (k, s) in sp.slices.iter().enumerate() {
                        let (df, dt) = (d.depth(from), d.depth(to));
                        if s.s.os > df || s.s.oe > dt || df - s.s.os != dt - s.s.oe {
                            continue;
                        }
                        go(c, St::Replace(s, &sp.infos[k], from, to, false));
                        if a.structure {
                            go(c, St::Replace(s, &sp.infos[k], from, to, true));
                        }
                    }
                    for m in &a.marks {
                        go(c, St::Mark(m, from, to, true));
                        go(c, St::Mark(m, from, to, false));
                    }
                    if gaps.is_empty() {
                        continue;
                    }
                    for &gf in ps.iter().filter(|x| **x >= from && **x <= to && **x <= from + 2) {
                        for &gt in ps.iter().filter(|x| **x >= gf && **x <= to && **x + 2 >= to) {
                            if d.at[gf] != d.at[gt] {
                                continue;
                            }
                            for s in &gaps {
                                for insert in 0..=s.toks.len() - s.s.os {
                                    go(
                                        c,
                                        St::Around(
                                            s,
                                            Ar { from, to, gf, gt, insert, structure: a.structure },
                                        ),
                                    );
                                }
                            }
                        }
                    }
                }
                if c.stopped() {
                    break;
                }
            }
            out
        });
        // merge: the same tokens reached on different paths must be equal documents
        let mut fresh: Vec<(DocCtx, Vec<Value>)> = vec![];
        let mut index: std::collections::HashMap<Vec<Tok>, usize> = Default::default();
        let mut differ: Option<(Value, String)> = None;
        for (i, outs) in next.into_iter().enumerate() {
            for (n, toks, st) in outs {
                if let Some(&k) = index.get(&toks) {
                    if fresh[k].0.node != n {
                        differ = Some((
                            json!({"property": "C07", "start": front[i].0.t.json(), "steps": [st]}),
                            format!(
                                "two histories lead to {} but the documents are not equal",
                                show_toks(&toks)
                            ),
                        ));
                    }
                    continue;
                }
                if !seen.insert(toks.clone()) {
                    continue;
                }
                let (d, hist) = &front[i];
                let mut h = if hist.is_empty() {
                    vec![d.t.json()]
                } else {
                    hist.clone()
                };
                h.push(st);
                index.insert(toks, fresh.len());
                fresh.push((DocCtx::from_real(n), h));
            }
        }
        if let Some((case, what)) = differ {
            e.par(&format!("{}-merge-{}", a.name, depth), &[(case, what)], |c, (k, w)| c.fail(k.clone(), w.clone()));
            return;
        }
        front = fresh;
        depth += 1;
    }
}

pub fn c07(e: &Engine) {
    let open = |kids: Vec<T>, os, oe| S { kids, os, oe };
    // structure: blocks, quotes, lists; typing, splitting, joining, wrapping, lifting
    let mut slices = slices_of(&docset(&[(pal_struct(), 6)], 0), 8);
    slices.retain(|s| s.os <= 3 && s.oe <= 3);
    let gaps = vec![
        open(vec![], 0, 0),
        open(vec![bq(vec![])], 0, 0),
        open(vec![ul(vec![li(vec![])])], 0, 0),
        open(vec![li(vec![])], 0, 0),
        open(vec![p(vec![])], 0, 0),
        open(vec![li(vec![ul(vec![])])], 1, 0),
    ];
    explore(
        e,
        &Alphabet {
            name: "structure",
            slices,
            marks: vec![M::Em],
            gaps,
            structure: false,
            max: e.q(9, 11),
        },
        &[doc(vec![ps("")])],
    );
    // every block type
    let mut slices = slices_of(&docset(&[(pal_blocks(), 4)], 0), 6);
    slices.retain(|s| s.os <= 2 && s.oe <= 2);
    explore(
        e,
        &Alphabet {
            name: "blocks",
            slices,
            marks: vec![],
            gaps: vec![
                open(vec![h(1, vec![])], 0, 0),
                open(vec![cb("", vec![])], 0, 0),
                open(vec![ol(1, vec![li(vec![])])], 0, 0),
                open(vec![bq(vec![])], 0, 0),
            ],
            structure: true,
            max: e.q(6, 7),
        },
        &[doc(vec![ps("")]), doc(vec![ol(1, vec![li(vec![ps("")])])])],
    );
    // typing and marking
    let slices = vec![
        open(vec![], 0, 0),
        open(vec![text("a")], 0, 0),
        open(vec![mtext("a", &[M::Em])], 0, 0),
        open(vec![text(EMOJI)], 0, 0),
        open(vec![br()], 0, 0),
        open(vec![ps(""), ps("")], 1, 1),
        open(vec![ps("a")], 1, 1),
    ];
    explore(
        e,
        &Alphabet {
            name: "marks",
            slices,
            marks: vec![M::Em, M::Strong, link("x"), link("y")],
            gaps: vec![open(vec![h(1, vec![])], 0, 0), open(vec![cb("", vec![])], 0, 0)],
            structure: false,
            max: e.q(4, 6),
        },
        &[doc(vec![ps("")]), doc(vec![cb("", vec![])])],
    );
    // a few steps from larger documents
    let starts = docset(&[], 1);
    let starts: Vec<T> = starts.into_iter().filter(|d| d.content_size() <= e.q(20, 40)).collect();
    let sp = Space::new(&starts, family_slices());
    let two = e.par("large-one-and-two-steps", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in sp.ends(i, from) {
            for (k, s) in sp.slices.iter().enumerate() {
                let (df, dt) = (d.depth(from), d.depth(to));
                if s.s.os > df || s.s.oe > dt || df - s.s.os != dt - s.s.oe {
                    continue;
                }
                let st = St::Replace(s, &sp.infos[k], from, to, false);
                let mut res = None;
                c.case(
                    || json!({"property": "C07", "start": d.t.json(), "steps": [st.json()]}),
                    || match take(d, &st)? {
                        Some(x) => {
                            res = Some(x.0);
                            Ok("accepted")
                        }
                        None => Ok("refused"),
                    },
                );
                // a second step on the result: mark around where the first one happened
                if let Some(n) = res {
                    let d2 = DocCtx::from_real(n);
                    c.state();
                    let ps = positions(&d2);
                    for &f in ps.iter().filter(|p| **p + 2 >= from && **p <= from + 2) {
                        for &t in ps.iter().filter(|p| **p >= f && **p <= f + 4) {
                            for (m, add) in [(M::Em, true), (M::Em, false)] {
                                let st2 = St::Mark(&m, f, t, add);
                                c.case(
                                    || json!({"property": "C07", "start": d.t.json(), "steps": [st.json(), st2.json()]}),
                                    || take(&d2, &st2).map(|_| "accepted"),
                                );
                            }
                            let empty = &sp.slices[0];
                            let st2 = St::Replace(empty, &sp.infos[0], f, t, false);
                            if d2.depth(f) == d2.depth(t) {
                                c.case(
                                    || json!({"property": "C07", "start": d.t.json(), "steps": [st.json(), st2.json()]}),
                                    || take(&d2, &st2).map(|_| "deletion tried"),
                                );
                            }
                        }
                    }
                }
            }
            if c.stopped() {
                return;
            }
        }
    });
    drop(two);
    // one step on every value document
    let mut slices = family_slices();
    slices.extend(attr_slices());
    let mut docs = value_docs();
    docs.extend(mark_pair_docs());
    docs.extend(gen_docs(&pal_links(), e.q(5, 6)));
    docs.extend(length_docs(e.q(4, 6)));
    let sp = Space::new(&docs, slices);
    let marks = [M::Em, M::Strong, M::Code, link("x"), link("z"), M::Link("x".into(), "t".into())];
    e.par("values-one-step", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == 0 {
            c.state();
        }
        for to in sp.ends(i, from) {
            let mut go = |st: St| {
                c.case(
                    || json!({"property": "C07", "start": d.t.json(), "steps": [st.json()]}),
                    || take(d, &st).map(|r| if r.is_some() { "accepted" } else { "refused" }),
                )
            };
            for (k, s) in sp.slices.iter().enumerate() {
                let (df, dt) = (d.depth(from), d.depth(to));
                if s.s.os > df || s.s.oe > dt || df - s.s.os != dt - s.s.oe {
                    continue;
                }
                go(St::Replace(s, &sp.infos[k], from, to, false));
            }
            for m in &marks {
                go(St::Mark(m, from, to, true));
                go(St::Mark(m, from, to, false));
            }
        }
    });
    // one step on documents past every small limit
    let sp = large_space(e, e.q(1100, 99_999));
    e.par("large-one-step", &sp.items, |c, &(i, from)| {
        let d = &sp.docs[i];
        if from == sp.pos[i][0] {
            c.state();
        }
        for to in sp.ends(i, from) {
            let mut go = |st: St| {
                c.case(
                    || json!({"property": "C07", "start": d.t.json(), "steps": [st.json()]}),
                    || take(d, &st).map(|r| if r.is_some() { "accepted" } else { "refused" }),
                )
            };
            for (k, s) in sp.slices.iter().enumerate() {
                let (df, dt) = (d.depth(from), d.depth(to));
                if s.s.os > df || s.s.oe > dt || df - s.s.os != dt - s.s.oe {
                    continue;
                }
                go(St::Replace(s, &sp.infos[k], from, to, false));
            }
            for m in [&M::Em, &M::Strong, &marks[3]] {
                go(St::Mark(m, from, to, true));
                go(St::Mark(m, from, to, false));
            }
            if c.stopped() {
                return;
            }
        }
    });
}

pub fn c07_replay(v: &Value) -> Res {
    let mut d = jdoc(v, "start");
    for st in v["steps"].as_array().unwrap() {
        let (from, to) = (ju(st, "from"), ju(st, "to"));
        let m;
        let s;
        let info;
        let stp = match st["kind"].as_str().unwrap() {
            "mark" => {
                m = M::from_json(&st["mark"]);
                St::Mark(&m, from, to, st["add"] == json!(true))
            }
            "replace" => {
                s = SliceCtx::new(S::from_json(&st["slice"]));
                info = slice_info(&s.toks, s.s.os, s.s.oe);
                St::Replace(&s, &info, from, to, st["structure"] == json!(true))
            }
            _ => {
                s = SliceCtx::new(S::from_json(&st["slice"]));
                St::Around(&s, Ar::from_json(&st["step"]))
            }
        };
        let r = take(&d, &stp)?;
        if let Some((n, _)) = r {
            d = DocCtx::from_real(n);
        }
    }
    Ok("history agrees with the interpreter")
}
