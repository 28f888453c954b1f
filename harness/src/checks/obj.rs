//! C24 equality of nodes, slices, marks and steps; C26 classification, copies and builders.
use super::json::{Dec, RS};
use super::steps::Ar;
use super::*;
use prosemirror::markdown::{helper, MarkdownMark, MarkdownMarkType, MarkdownNode, MD};
use prosemirror::model::{Fragment, Mark, MarkSet, Node, NodeType, ResolvedNode, Slice, Text, TextNode};
use prosemirror::transform::Step;
use prosemirror::util::EitherOrBoth;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

// ---- C24 ---------------------------------------------------------------------------
#[allow(clippy::nonminimal_bool)]
fn equal<X: PartialEq + ?Sized>(a: &X, b: &X, want: bool, what: impl Fn() -> String) -> Res {
    let got = [a == b, b == a, !(a != b), !(b != a)];
    if got != [want; 4] {
        return Err(format!(
            "{}: should be {}, but ==, == swapped, !(!=), !(!=) swapped are {:?}",
            what(),
            if want { "equal" } else { "different" },
            got
        ));
    }
    Ok(if want { "equal" } else { "different" })
}
fn hash<X: Hash>(x: &X) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// A value in its reference form and for real.
struct Obj<R, X> {
    r: R,
    x: X,
}
fn c24_node(a: &Obj<T, MarkdownNode>, b: &Obj<T, MarkdownNode>) -> Res {
    let want = a.r == b.r;
    let what = || format!("{} and {}", a.r.show(), b.r.show());
    let res = equal(&a.x, &b.x, want, what)?;
    if let (Some(f), Some(g)) = (a.x.content(), b.x.content()) {
        equal(f, g, a.r.kids == b.r.kids, || format!("the contents of {}", what()))?;
        equal(f.children(), g.children(), a.r.kids == b.r.kids, || format!("the children of {}", what()))?;
    }
    if let (Some(f), Some(g)) = (a.x.text_node(), b.x.text_node()) {
        if let (Head::Text(s, m), Head::Text(u, n)) = (&a.r.head, &b.r.head) {
            equal(f, g, want, || format!("the text nodes {}", what()))?;
            equal(&f.text, &g.text, s == u, || format!("the texts of {}", what()))?;
            equal(&f.marks, &g.marks, m == n, || format!("the marks of {}", what()))?;
            if f.same_markup(&b.x).is_some() != (m == n) || g.same_markup(&a.x).is_some() != (m == n) {
                return Err(format!("same_markup is wrong about {}", what()));
            }
        }
    }
    Ok(res)
}
fn c24_same<X: PartialEq + Clone + Debug>(x: &X, fresh: &X) -> Res {
    let c = x.clone();
    equal(x, x, true, || format!("{:?} and itself", x))?;
    equal(x, &c, true, || format!("{:?} and its clone {:?}", x, c))?;
    equal(&c, fresh, true, || format!("the clone {:?} and {:?} built anew", c, fresh))
}
fn c24_slice(a: &S, x: &Slice<MD>, b: &S, y: &Slice<MD>) -> Res {
    let want = a == b;
    equal(&x.content, &y.content, a.kids == b.kids, || format!("the contents of {} and {}", a.show(), b.show()))?;
    equal(x, y, want, || format!("{} and {}", a.show(), b.show()))
}
fn c24_step(a: &RS, x: &Step<MD>, b: &RS, y: &Step<MD>) -> Res {
    equal(x, y, a == b, || format!("{:?} and {:?}", a, b))
}
fn c24_mark(a: &M, b: &M) -> Res {
    let (x, y) = (a.real(), b.real());
    let want = a == b;
    let kind = a.kind() == b.kind();
    let res = equal(&x, &y, want, || format!("{:?} and {:?}", a, b))?;
    if want && hash(&x) != hash(&y) {
        return Err(format!("{:?} has two hashes", a));
    }
    let (s, u) = (x.r#type(), y.r#type());
    equal(&s, &u, kind, || format!("the types of {:?} and {:?}", a, b))?;
    if kind && hash(&s) != hash(&u) {
        return Err(format!("the type of {:?} has two hashes", a));
    }
    if (s.cmp(&u) == std::cmp::Ordering::Equal) != kind || s.cmp(&u) != u.cmp(&s).reverse() {
        return Err(format!("the types of {:?} and {:?} are ordered inconsistently", a, b));
    }
    if s.partial_cmp(&u) != Some(s.cmp(&u)) || (s < u) != s.cmp(&u).is_lt() || (s <= u) != s.cmp(&u).is_le() {
        return Err(format!("the orders of the types of {:?} and {:?} disagree", a, b));
    }
    Ok(res)
}
fn c24_types() -> Result<(), String> {
    for a in ALL_TY {
        for b in ALL_TY {
            equal(&a.real(), &b.real(), a == b, || format!("the types {:?} and {:?}", a, b))?;
        }
    }
    let all = [MarkdownMarkType::Strong, MarkdownMarkType::Em, MarkdownMarkType::Code, MarkdownMarkType::Link];
    for a in all {
        for b in all {
            for c in all {
                if a <= b && b <= c && !(a <= c) {
                    return Err(format!("{:?} <= {:?} <= {:?} but not {:?} <= {:?}", a, b, c, a, c));
                }
            }
        }
    }
    Ok(())
}
fn c24_text(a: &str, b: &str) -> Res {
    let (x, y) = (Text::from(a.to_string()), Text::from(b.to_string()));
    equal(&x, &y, a == b, || format!("the texts {:?} and {:?}", a, b))?;
    let (x, y) = (MarkdownNode::text(a), MarkdownNode::from(b));
    equal(&x, &y, a == b, || format!("the text nodes {:?} and {:?}", a, b))
}

/// Everything that differs from `x` in one place.
pub fn mutants(x: &T) -> Vec<T> {
    fn values(h: &Head) -> Vec<Head> {
        match h {
            Head::Heading(l) => vec![Head::Heading(l.wrapping_add(1)), Head::Heading(l ^ 0x80), Head::Paragraph],
            Head::Paragraph => vec![Head::Heading(1), Head::CodeBlock(String::new())],
            Head::CodeBlock(s) => {
                vec![Head::CodeBlock(format!("{}x", s)), Head::CodeBlock(s.to_uppercase()), Head::Paragraph]
            }
            Head::Blockquote => vec![Head::ListItem, Head::Doc],
            Head::ListItem => vec![Head::Blockquote, Head::Doc],
            Head::BulletList(t) => vec![Head::BulletList(!t), Head::OrderedList(1, *t)],
            Head::OrderedList(n, t) => vec![
                Head::OrderedList(*n, !t),
                Head::OrderedList(n.wrapping_add(1), *t),
                Head::OrderedList(n ^ 1 << 40, *t),
                Head::BulletList(*t),
            ],
            Head::Image(s, a, t) => vec![
                Head::Image(format!("{}x", s), a.clone(), t.clone()),
                Head::Image(s.clone(), format!("{}x", a), t.clone()),
                Head::Image(s.clone(), a.clone(), format!("{}x", t)),
                Head::Image(s.clone(), t.clone(), a.clone()),
                Head::Image(a.clone(), s.clone(), t.clone()),
                Head::HardBreak,
            ],
            Head::HardBreak => vec![Head::HorizontalRule, Head::Text("\n".into(), vec![])],
            Head::HorizontalRule => vec![Head::HardBreak, Head::Paragraph],
            Head::Doc => vec![Head::Blockquote],
            Head::Text(s, m) => {
                let mut v = vec![];
                let cs: Vec<char> = s.chars().collect();
                let near: Vec<usize> = (0..cs.len()).filter(|i| *i < 6 || *i + 3 > cs.len()).collect();
                for &i in &near {
                    for r in ["z", "", "zz", EMOJI] {
                        let w: String = cs[..i].iter().collect::<String>() + r + &cs[i + 1..].iter().collect::<String>();
                        v.push(Head::Text(w, m.clone()));
                    }
                    if i > 0 {
                        let mut w = cs.clone();
                        w.swap(i - 1, i);
                        v.push(Head::Text(w.into_iter().collect(), m.clone()));
                    }
                }
                v.push(Head::Text(format!("{}z", s), m.clone()));
                for k in [M::Strong, M::Em, M::Code, link("x"), link("y"), M::Link("x".into(), "t".into())] {
                    let id = marks_id(m);
                    v.push(Head::Text(s.clone(), marks_of(marks_add(id, &k))));
                    v.push(Head::Text(s.clone(), marks_of(marks_remove(id, &k))));
                }
                if let Some(M::Link(h, t)) = m.last() {
                    let rest = &m[..m.len() - 1];
                    for l in [
                        M::Link(t.clone(), h.clone()),
                        M::Link(format!("{}/", h), t.clone()),
                        M::Link(h.clone(), format!("{} ", t)),
                    ] {
                        v.push(Head::Text(s.clone(), rest.iter().cloned().chain([l]).collect()));
                    }
                }
                v
            }
        }
    }
    fn go(x: &T, top: bool) -> Vec<T> {
        let mut v: Vec<T> = vec![];
        if !top {
            for h in values(&x.head) {
                v.push(t(h, x.kids.clone()));
            }
        }
        let n = x.kids.len();
        let near: Vec<usize> = (0..n).filter(|i| *i < 4 || *i + 3 > n).collect();
        for &i in &near {
            let with = |k: Vec<T>| {
                let mut y = x.kids[..i].to_vec();
                y.extend(k);
                y.extend(x.kids[i + 1..].iter().cloned());
                t(x.head.clone(), y)
            };
            for k in go(&x.kids[i], false) {
                v.push(with(vec![k]));
            }
            v.push(with(vec![])); // left out
            v.push(with(vec![x.kids[i].clone(), x.kids[i].clone()])); // twice
            v.push(with(x.kids[i].kids.clone())); // unwrapped
            if let Head::Text(s, m) = &x.kids[i].head {
                for (at, _) in s.char_indices().skip(1).take(5) {
                    v.push(with(vec![mtext(&s[..at], m), mtext(&s[at..], m)]));
                }
            }
            if i > 0 {
                let mut y = x.kids.clone();
                y.swap(i - 1, i);
                v.push(t(x.head.clone(), y));
            }
        }
        v
    }
    go(x, true)
}
/// Every node inside `x`, itself included.
fn subnodes(x: &T, out: &mut Vec<T>, seen: &mut HashSet<T>) {
    if seen.insert(x.clone()) {
        out.push(x.clone());
    }
    for k in &x.kids {
        subnodes(k, out, seen);
    }
}
fn objs(v: Vec<T>) -> Vec<Obj<T, MarkdownNode>> {
    v.into_iter()
        .map(|r| {
            let x = r.real();
            Obj { r, x }
        })
        .collect()
}
fn all_steps(big: bool) -> Vec<RS> {
    let slices = [
        S::empty(),
        S { kids: vec![text("a")], os: 0, oe: 0 },
        S { kids: vec![text("b")], os: 0, oe: 0 },
        S { kids: vec![mtext("a", &[M::Em])], os: 0, oe: 0 },
        S { kids: vec![ps("a")], os: 0, oe: 0 },
        S { kids: vec![ps("a")], os: 1, oe: 0 },
        S { kids: vec![ps("a")], os: 0, oe: 1 },
        S { kids: vec![ps("a")], os: 1, oe: 1 },
        S { kids: vec![h(1, vec![text("a")])], os: 0, oe: 0 },
        S { kids: vec![ps("a"), ps("a")], os: 1, oe: 1 },
    ];
    let nums: &[usize] = if big { &[0, 1, 2, 3, 1 << 32, usize::MAX] } else { &[0, 1, 1 << 32] };
    let mut v = vec![];
    for &from in nums {
        for &to in nums {
            for s in &slices {
                for structure in [false, true] {
                    v.push(RS::Replace(s.clone(), from, to, structure));
                }
            }
            for m in [M::Strong, M::Em, M::Code, link("x"), link("y"), M::Link("x".into(), "t".into())] {
                for add in [true, false] {
                    v.push(RS::Mark(m.clone(), from, to, add));
                }
            }
        }
    }
    // one field of a replace-around step at a time, and two at a time
    let base = [1, 9, 3, 7, 5];
    let ar = |f: [usize; 5], structure| Ar { from: f[0], to: f[1], gf: f[2], gt: f[3], insert: f[4], structure };
    for s in slices.iter().skip(3).take(4) {
        for structure in [false, true] {
            for i in 0..5 {
                for j in 0..5 {
                    for &x in nums {
                        for &y in nums {
                            let mut f = base;
                            f[i] = x;
                            f[j] = y;
                            v.push(RS::Around(s.clone(), ar(f, structure)));
                        }
                    }
                }
            }
        }
    }
    let mut out: Vec<RS> = vec![];
    let mut seen = HashSet::new();
    for s in v {
        if seen.insert(s.json().to_string()) {
            out.push(s);
        }
    }
    out
}
pub fn c24(e: &Engine) {
    MANY_LINKS.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut seen = HashSet::new();
    let mut small = vec![];
    for d in docset(
        &[
            (pal_struct(), e.q(9, 11)),
            (pal_blocks(), e.q(5, 5)),
            (pal_attrs(), e.q(5, 5)),
            (pal_inline(), e.q(5, 5)),
            (pal_marks(), e.q(4, 5)),
            (pal_two(), e.q(7, 9)),
            (pal_links(), e.q(4, 5)),
        ],
        0,
    ) {
        subnodes(&d, &mut small, &mut seen);
        for w in split_variants(&d) {
            subnodes(&w, &mut small, &mut seen);
        }
    }
    let mut values = vec![];
    for d in value_docs().into_iter().chain(mark_pair_docs()) {
        subnodes(&d, &mut values, &mut seen);
    }
    for (name, list) in [("nodes", objs(small)), ("values", objs(values))] {
        let idx: Vec<usize> = (0..list.len()).collect();
        e.par(name, &idx, |c, &i| {
            c.state();
            let a = &list[i];
            let fresh = a.r.real();
            c.ops(6);
            c.case(|| json!({"property": "C24", "kind": "same", "a": a.r.json()}), || c24_same(&a.x, &fresh));
            for b in &list[i..] {
                c.ops(3);
                c.case(
                    || json!({"property": "C24", "kind": "node", "a": a.r.json(), "b": b.r.json()}),
                    || c24_node(a, b),
                );
                if c.stopped() {
                    return;
                }
            }
        });
    }
    // a document and everything that differs from it in one place
    let mut near = docset(&[(pal_blocks(), 5), (pal_attrs(), 5), (pal_inline(), 5), (pal_marks(), 4)], 4);
    near.extend(value_docs());
    near.extend(mark_pair_docs());
    near.extend(size_docs(true));
    near.extend(length_docs(e.q(9, 12)));
    near.extend(huge_docs());
    near.extend(large_docs(e.thorough()));
    e.par("one-place", &near, |c, d| {
        c.state();
        let base = Obj { r: d.clone(), x: d.real() };
        let fresh = d.real();
        c.case(|| json!({"property": "C24", "kind": "same", "a": d.json()}), || c24_same(&base.x, &fresh));
        let all = objs(mutants(d));
        let n = if d.content_size() > 200 { 0 } else { e.q(200, 1000) };
        for (i, a) in all.iter().enumerate() {
            for b in std::iter::once(&base).chain(all[i..].iter().take(n)) {
                c.ops(3);
                c.case(
                    || json!({"property": "C24", "kind": "node", "a": a.r.json(), "b": b.r.json()}),
                    || c24_node(a, b),
                );
            }
        }
    });
    let mut sl: Vec<S> = slices_of(&docset(&[(pal_struct(), e.q(6, 7)), (pal_blocks(), 3), (pal_marks(), 3)], 0), 6);
    sl.extend(attr_slices());
    for s in sl.clone().into_iter().take(e.q(40, 200)) {
        for (os, oe) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (usize::MAX, 0), (0, usize::MAX)] {
            sl.push(S { kids: s.kids.clone(), os, oe });
        }
    }
    let mut seen = HashSet::new();
    sl.retain(|s| seen.insert(s.clone()));
    let real: Vec<Slice<MD>> = sl.iter().map(S::real).collect();
    let idx: Vec<usize> = (0..sl.len()).collect();
    e.par("slices", &idx, |c, &i| {
        c.state();
        for j in i..sl.len() {
            c.ops(1);
            let (a, b) = (&sl[i], &sl[j]);
            c.case(
                || json!({"property": "C24", "kind": "slice", "a": a.json(), "b": b.json()}),
                || c24_slice(a, &real[i], b, &real[j]),
            );
        }
        let a = &sl[i];
        let x = a.real();
        c.case(
            || json!({"property": "C24", "kind": "slice", "a": a.json(), "b": a.json()}),
            || c24_slice(a, &x, a, &real[i]),
        );
    });
    let steps = all_steps(e.thorough());
    let real: Vec<Step<MD>> = steps.iter().map(RS::real).collect();
    let idx: Vec<usize> = (0..steps.len()).collect();
    e.par("steps", &idx, |c, &i| {
        c.state();
        let x = steps[i].real();
        for j in i..steps.len() {
            let (a, b) = (&steps[i], &steps[j]);
            c.case(
                || json!({"property": "C24", "kind": "step", "a": a.json(), "b": b.json()}),
                || c24_step(a, &x, b, &real[j]),
            );
        }
    });
    let mut marks = vec![M::Strong, M::Em, M::Code];
    let strs = ["", "a", "b", "ab", "a/", "A", " a", "a ", "\u{e9}", "e\u{301}", EMOJI, "a\u{0}"];
    for x in strs {
        for y in strs {
            marks.push(M::Link(x.into(), y.into()));
        }
    }
    e.par("marks", &marks, |c, a| {
        c.state();
        for b in &marks {
            c.ops(3);
            c.case(|| json!({"property": "C24", "kind": "mark", "a": a.json(), "b": b.json()}), || c24_mark(a, b));
        }
    });
    let links = value_links();
    let mut sets = mark_subsets(&links);
    sets.sort();
    sets.dedup();
    e.par("mark-sets", &sets, |c, a| {
        c.state();
        let a = Obj { r: mtext("a", a), x: mtext("a", a).real() };
        for b in &sets {
            for s in ["a", "b"] {
                let b = Obj { r: mtext(s, b), x: mtext(s, b).real() };
                c.ops(3);
                c.case(
                    || json!({"property": "C24", "kind": "node", "a": a.r.json(), "b": b.r.json()}),
                    || c24_node(&a, &b),
                );
            }
        }
    });
    let texts = all_texts(e.q(3, 3));
    e.par("texts", &texts, |c, a| {
        c.state();
        for b in &texts {
            c.case(|| json!({"property": "C24", "kind": "text", "a": a, "b": b}), || c24_text(a, b));
        }
    });
    // resolved positions of a document, of the same document built anew, and of all documents
    // that differ from it in one place
    let mut docs = docset(
        &[(pal_struct(), e.q(9, 11)), (pal_blocks(), e.q(5, 6)), (pal_inline(), e.q(5, 6)), (pal_marks(), e.q(4, 5))],
        e.q(2, 4),
    );
    docs.extend(value_docs());
    docs.extend(mark_pair_docs());
    docs.extend(super::steps::odd_docs());
    docs.extend(large_docs(false).into_iter().filter(|d| d.content_size() < 700));
    e.par("positions", &docs, |c, d| {
        c.state();
        let n = d.content_size();
        c.ops((n + 1) * (n + 1));
        c.case(|| json!({"property": "C24", "kind": "positions", "a": d.json(), "b": d.json()}), || c24_positions(d, d));
        if n < 30 {
            for m in mutants(d) {
                c.ops(n);
                c.case(|| json!({"property": "C24", "kind": "positions", "a": d.json(), "b": m.json()}), || c24_positions(d, &m));
            }
        }
    });
    e.par("resolved-nodes", &docs.iter().filter(|d| d.content_size() < 6).collect::<Vec<_>>(), |c, d| {
        c.state();
        let (x, y) = (d.real(), d.real());
        let z = doc(vec![ps("other")]).real();
        let numbers = [0usize, 1, 2, 3, 255, 256, usize::MAX];
        for (b, same) in [(&x, true), (&y, true), (&z, *d == &doc(vec![ps("other")]))] {
            for i in numbers {
                for j in numbers {
                    for k in numbers {
                        for l in numbers {
                            c.ops(2);
                            c.case(
                                || json!({"property": "C24", "kind": "resolved", "a": d.json(), "same": same, "n": [i, j, k, l]}),
                                || c24_resolved(&x, b, same, [i, j, k, l]),
                            );
                        }
                    }
                }
            }
        }
    });
    e.par("types", &[()], |c, _| {
        c.state();
        c.case(|| json!({"property": "C24", "kind": "types"}), || c24_types().map(|_| "types"));
    });
}
fn c24_positions(a: &T, b: &T) -> Res {
    let (x, y) = (a.real(), b.real());
    let same = x == y;
    let (m, n) = (a.content_size(), b.content_size());
    let ys: Vec<_> = (0..=n).filter_map(|j| y.resolve(j).ok().map(|r| (j, r))).collect();
    for i in 0..=m {
        let r = match x.resolve(i) {
            Ok(r) => r,
            Err(_) => continue,
        };
        equal(&r, &r.clone(), true, || format!("position {} of {} and its clone", i, a.show()))?;
        if format!("{:?}", r) != format!("{:?}", r.clone()) {
            return Err(format!("the clone of position {} of {} is shown differently", i, a.show()));
        }
        for (j, q) in &ys {
            if !same && i != *j {
                continue;
            }
            equal(&r, q, same && i == *j, || format!("position {} of {} and {} of {}", i, a.show(), j, b.show()))?;
        }
    }
    Ok(if same { "positions of equal documents" } else { "positions of different documents" })
}
fn c24_resolved(a: &MarkdownNode, b: &MarkdownNode, same: bool, n: [usize; 4]) -> Res {
    let x = ResolvedNode::<MD>::new(a, n[0], n[1]);
    let y = ResolvedNode::<MD>::new(b, n[2], n[3]);
    if (x.index, x.before) != (n[0], n[1]) || !std::ptr::eq(x.node, a) {
        return Err(format!("a resolved node at {:?} is {:?}", &n[..2], x));
    }
    equal(&x, &x.clone(), true, || format!("{:?} and its clone", x))?;
    equal(&x, &y, same && n[..2] == n[2..], || format!("{:?} and {:?}", x, y))
}
fn all_texts(n: usize) -> Vec<String> {
    let chars = ["a", "b", "A", "\u{e9}", "e\u{301}", "\u{1F60A}", "\u{1F60B}", "\u{FFFF}", "\n", "\u{0}", " "];
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| chars.iter().map(move |c| format!("{}{}", s, c))).collect();
        v.extend(last.iter().cloned());
    }
    v
}
pub fn c24_replay(v: &Value) -> Res {
    let node = |k: &str| {
        let r = T::from_json(&v[k]);
        let x = r.real();
        Obj { r, x }
    };
    let step = |k: &str| Dec { lax: false }.step(&v[k]).ok_or("unreadable case");
    match v["kind"].as_str().unwrap() {
        "same" => c24_same(&node("a").x, &node("a").x),
        "node" => c24_node(&node("a"), &node("b")),
        "slice" => {
            let (a, b) = (S::from_json(&v["a"]), S::from_json(&v["b"]));
            c24_slice(&a, &a.real(), &b, &b.real())
        }
        "step" => {
            let (a, b) = (step("a")?, step("b")?);
            c24_step(&a, &a.real(), &b, &b.real())
        }
        "mark" => c24_mark(&M::from_json(&v["a"]), &M::from_json(&v["b"])),
        "text" => c24_text(v["a"].as_str().unwrap(), v["b"].as_str().unwrap()),
        "positions" => c24_positions(&T::from_json(&v["a"]), &T::from_json(&v["b"])),
        "resolved" => {
            let x = T::from_json(&v["a"]).real();
            let z = doc(vec![ps("other")]).real();
            let n: Vec<usize> = v["n"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap() as usize).collect();
            let same = v["same"] == json!(true);
            c24_resolved(&x, if same { &x } else { &z }, same, [n[0], n[1], n[2], n[3]])
        }
        _ => c24_types().map(|_| "types"),
    }
}

// ---- C26 ---------------------------------------------------------------------------
fn c26_type(ty: Ty) -> Res {
    let r = ty.real();
    if r.is_inline() != ty.inline() || r.is_block() != !ty.inline() {
        return Err(format!(
            "the type {:?} is {}, but is_inline is {} and is_block {}",
            ty,
            if ty.inline() { "inline" } else { "a block" },
            r.is_inline(),
            r.is_block()
        ));
    }
    Ok("type")
}
fn same_node(got: &MarkdownNode, want: &T, what: impl Fn() -> String) -> Result<(), String> {
    let (mut a, mut b) = (vec![], vec![]);
    let mut info = ReadInfo::default();
    want.push_toks(&mut b);
    let n = read_node(got, &mut a, &mut info).map_err(|e| format!("{}: {}", what(), e))?;
    if T::from_real(got) != *want || n != want.size() || got.node_size() != want.size() || a != b {
        return Err(format!(
            "{} gives {} of size {} but should give {} of size {}",
            what(),
            T::from_real(got).show(),
            got.node_size(),
            want.show(),
            want.size()
        ));
    }
    Ok(())
}
fn c26_node(x: &T) -> Res {
    let n = x.real();
    let ty = x.ty();
    let bad = |w: &str| Err(format!("{} of {} is wrong", w, x.show()));
    if n.r#type() != ty.real() {
        return bad("the type");
    }
    if n.is_inline() != ty.inline() || n.r#type().is_inline() != ty.inline() {
        return bad("is_inline");
    }
    if n.is_block() == ty.inline() || n.r#type().is_block() == ty.inline() {
        return bad("is_block");
    }
    if n.is_text() != (ty == Ty::Text) {
        return bad("is_text");
    }
    if n.is_leaf() != ty.leaf() || n.content().is_none() != ty.leaf() {
        return bad("is_leaf");
    }
    let size: usize = x.kids.iter().map(T::size).sum();
    if n.content_size() != size || n.node_size() != x.size() || n.child_count() != x.kids.len() {
        return bad("the size");
    }
    if n.content().map_or(0, |c| c.size()) != size {
        return bad("the size of the content");
    }
    match &x.head {
        Head::Text(s, m) => {
            let marks = real_marks(m);
            let tn = match n.text_node() {
                Some(tn) => tn,
                None => return bad("text_node"),
            };
            if tn.text.as_str() != s || tn.text.len_utf16() != s.encode_utf16().count() {
                return bad("the text");
            }
            if tn.marks != marks || n.marks() != Some(&marks) {
                return bad("the marks");
            }
            same_node(&MarkdownNode::new_text_node(tn.clone()), x, || "new_text_node".into())?;
            same_node(&MarkdownNode::from(tn.clone()), x, || "From<TextNode>".into())?;
            for new in ["q", "", " ", "\n", "\u{a0}", "\u{10ffff}b", "abcdefghijklmnopqrstuvwxyz0123456789", s] {
                let other = tn.with_text(Text::from(new.to_string()));
                if other.text.as_str() != new || other.text.len_utf16() != new.encode_utf16().count() || other.marks != marks {
                    return Err(format!("with_text({:?}) on {} gives {:?}", new, x.show(), other));
                }
                same_node(&MarkdownNode::from(other), &mtext(new, m), || format!("with_text on {}", x.show()))?;
            }
            same_node(&n, x, || "building a text".into())?;
        }
        _ => {
            if n.text_node().is_some() || n.marks().is_some_and(|m| m.into_iter().next().is_some()) {
                return bad("the text or marks");
            }
        }
    }
    Ok(if ty == Ty::Text { "text" } else if ty.leaf() { "leaf" } else { "inner node" })
}
fn c26_mark(x: &T, m: &[M]) -> Res {
    let n = x.real();
    let set: MarkSet<MD> = real_marks(m);
    let got = n.mark(set.clone());
    let want = match &x.head {
        Head::Text(s, _) => mtext(s, m),
        _ => x.clone(),
    };
    same_node(&got, &want, || format!("{} with the marks {:?}", x.show(), m))?;
    same_node(&n, x, || "the original".into())?;
    if set != real_marks(m) {
        return Err(format!("the set {:?} changed", m));
    }
    Ok("marked")
}
fn c26_copy(x: &T, kids: &[T]) -> Res {
    let n = x.real();
    let what = || format!("a copy of {}", x.show());
    let f = real_fragment(kids);
    let mut seen = vec![];
    let got = n.copy(|c| {
        seen.push(c.children().iter().map(T::from_real).collect::<Vec<_>>());
        f.clone()
    });
    if x.ty().leaf() {
        same_node(&got, x, what)?;
        return Ok("leaf copied");
    }
    if seen != [x.kids.clone()] {
        return Err(format!("{} is not made of its content: {:?}", what(), seen));
    }
    same_node(&got, &t(x.head.clone(), kids.to_vec()), what)?;
    same_node(&n.copy(|c| c.clone()), x, what)?;
    same_node(&n.copy(|_| Fragment::new()), &t(x.head.clone(), vec![]), what)?;
    Ok("copied")
}
type Frag = Fragment<MD>;
fn c26_build(s: &str, u: &str, kids: &[T], level: u8) -> Res {
    let kf = || real_fragment(kids);
    let f = |want: &[T], got: Frag, what: &str| {
        same_node(&helper::doc(got), &doc(want.to_vec()), || format!("a fragment made from {}", what))
    };
    // texts
    same_node(&MarkdownNode::text(s), &text(s), || format!("text({:?})", s))?;
    same_node(&MarkdownNode::text(s.to_string()), &text(s), || format!("text({:?})", s))?;
    same_node(&MarkdownNode::from(s), &text(s), || format!("From {:?}", s))?;
    same_node(&helper::node(s), &text(s), || format!("node({:?})", s))?;
    same_node(&helper::em(s), &mtext(s, &[M::Em]), || format!("em({:?})", s))?;
    same_node(&helper::strong(s), &mtext(s, &[M::Strong]), || format!("strong({:?})", s))?;
    for m in [M::Strong, M::Em, M::Code, link(s), M::Link(u.into(), s.into())] {
        let set: MarkSet<MD> = m.real().into_set();
        let list: Vec<&MarkdownMark> = set.into_iter().collect();
        if list != [&m.real()] || !set.contains(&m.real()) {
            return Err(format!("the set of just {:?} is {:?}", m, set));
        }
        let tn = TextNode::<MD> { marks: set, text: Text::from(s.to_string()) };
        same_node(&MarkdownNode::new_text_node(tn), &mtext(s, &[m]), || "new_text_node".into())?;
    }
    // fragments
    f(&[text(s)], Frag::from(s), "a string")?;
    f(&[text(s)], Frag::from(MarkdownNode::from(s)), "a node")?;
    f(&[text(s)], Frag::from((s,)), "a string in a tuple")?;
    f(&[text(s), text(u)], Frag::from((s, u)), "two strings")?;
    f(&[text(s), mtext(u, &[M::Em])], Frag::from((s, helper::em(u))), "a string and a node")?;
    f(&[mtext(u, &[M::Strong]), text(s)], Frag::from((helper::strong(u), s)), "a node and a string")?;
    f(kids, kf(), "a list")?;
    if let [a, b] = kids {
        f(kids, Frag::from((a.real(), b.real())), "two nodes")?;
    }
    if let [a] = kids {
        f(kids, Frag::from((a.real(),)), "one node in a tuple")?;
        f(kids, Frag::from(a.real()), "one node")?;
        same_node(&helper::node(a.real()), a, || format!("node({})", a.show()))?;
    }
    f(&[], Frag::new(), "nothing")?;
    f(&[], Frag::default(), "nothing")?;
    f(&[], Frag::EMPTY, "nothing")?;
    f(&[], Frag::EMPTY_REF.clone(), "nothing")?;
    // nodes
    let made = [
        (helper::doc(kf()), Head::Doc),
        (helper::p(kf()), Head::Paragraph),
        (helper::h(level, kf()), Head::Heading(level)),
        (helper::h1(kf()), Head::Heading(1)),
        (helper::h2(kf()), Head::Heading(2)),
        (helper::li(kf()), Head::ListItem),
        (helper::ul(kf()), Head::BulletList(false)),
        (helper::blockquote(kf()), Head::Blockquote),
        (helper::code_block(u, kf()), Head::CodeBlock(u.into())),
    ];
    for (got, head) in made.iter() {
        same_node(got, &t(head.clone(), kids.to_vec()), || format!("the helper for {:?}", head))?;
    }
    same_node(&helper::p(s), &p(vec![text(s)]), || format!("p({:?})", s))?;
    same_node(&helper::h1((s, u)), &h(1, vec![text(s), text(u)]), || "h1 of two strings".into())?;
    same_node(&helper::doc(helper::p(s)), &doc(vec![p(vec![text(s)])]), || "doc of a paragraph".into())?;
    Ok("built")
}
fn c26_either(a: usize, b: usize) -> Res {
    let both: EitherOrBoth<usize, usize> = EitherOrBoth::Both(a, b);
    let left: EitherOrBoth<usize, usize> = EitherOrBoth::Left(a);
    let right: EitherOrBoth<usize, usize> = EitherOrBoth::Right(b);
    let got = [
        (both.left().copied(), both.right().copied(), *both.right_or_left()),
        (left.left().copied(), left.right().copied(), *left.right_or_left()),
        (right.left().copied(), right.right().copied(), *right.right_or_left()),
    ];
    let want = [(Some(a), Some(b), b), (Some(a), None, a), (None, Some(b), b)];
    if got != want {
        return Err(format!("either or both of {} and {} give {:?} but should give {:?}", a, b, got, want));
    }
    Ok("either")
}
pub fn c26(e: &Engine) {
    MANY_LINKS.store(true, std::sync::atomic::Ordering::Relaxed);
    e.par("types", &ALL_TY, |c, &ty| {
        c.state();
        c.case(|| json!({"property": "C26", "kind": "type", "type": ty as u8}), || c26_type(ty));
    });
    let mut seen = HashSet::new();
    let mut nodes = vec![];
    let mut docs = docset(
        &[
            (pal_struct(), e.q(12, 13)),
            (pal_blocks(), e.q(7, 8)),
            (pal_attrs(), e.q(6, 7)),
            (pal_inline(), e.q(6, 7)),
            (pal_marks(), e.q(6, 7)),
            (pal_two(), e.q(9, 11)),
        ],
        e.q(5, 6),
    );
    docs.extend(all_values(true));
    docs.extend(length_docs(20));
    docs.extend(huge_docs().into_iter().chain(large_docs(true)).filter(|d| super::json::depth_of(d) < 90));
    for d in &docs {
        subnodes(d, &mut nodes, &mut seen);
        if d.content_size() < 8 {
            for w in split_variants(d) {
                subnodes(&w, &mut nodes, &mut seen);
            }
        }
    }
    let sets = mark_subsets(&value_links()[..3]);
    let contents: Vec<Vec<T>> = vec![
        vec![],
        vec![text("q")],
        vec![mtext("q", &[M::Em]), text(EMOJI)],
        vec![ps("q"), hr()],
        vec![li(vec![ps("")])],
    ];
    let chunks: Vec<&[T]> = nodes.chunks(64).collect();
    e.par("nodes", &chunks, |c, xs| {
        for x in xs.iter() {
            c.state();
            c.ops(12);
            c.case(|| json!({"property": "C26", "kind": "node", "node": x.json()}), || c26_node(x));
            let few = if x.ty() == Ty::Text { sets.len() } else { 3 };
            for m in sets.iter().rev().take(few) {
                let ms = || Value::Array(m.iter().map(M::json).collect());
                c.case(|| json!({"property": "C26", "kind": "mark", "node": x.json(), "marks": ms()}), || c26_mark(x, m));
            }
            for k in &contents {
                let ks = || Value::Array(k.iter().map(T::json).collect());
                c.ops(2);
                c.case(|| json!({"property": "C26", "kind": "copy", "node": x.json(), "content": ks()}), || c26_copy(x, k));
            }
        }
    });
    let texts = all_texts(3);
    let mut lists: Vec<Vec<T>> = contents;
    for h in [hr(), br(), img("s", "a", "t"), ul(vec![li(vec![ps("a")])]), cb("x", vec![]), h(3, vec![br()])] {
        lists.push(vec![h.clone()]);
        lists.push(vec![h, ps("z")]);
    }
    e.par("builders", &texts, |c, s| {
        for (i, u) in all_texts(1).iter().enumerate() {
            for (j, k) in lists.iter().enumerate() {
                let level = (s.len() * 37 + i * 5 + j) as u8;
                let ks = || Value::Array(k.iter().map(T::json).collect());
                c.state();
                c.ops(35);
                c.case(
                    || json!({"property": "C26", "kind": "build", "s": s, "u": u, "content": ks(), "level": level}),
                    || c26_build(s, u, k, level),
                );
            }
        }
    });
    e.par("either", &[0usize, 1, 2], |c, &a| {
        for b in 0..3 {
            c.state();
            c.ops(8);
            c.case(|| json!({"property": "C26", "kind": "either", "a": a, "b": b}), || c26_either(a, b));
        }
    });
}
pub fn c26_replay(v: &Value) -> Res {
    let node = || T::from_json(&v["node"]);
    let kids = || v["content"].as_array().unwrap().iter().map(T::from_json).collect::<Vec<T>>();
    let s = |k: &str| v[k].as_str().unwrap();
    match v["kind"].as_str().unwrap() {
        "type" => c26_type(Ty::from_u8(ju(v, "type") as u8)),
        "node" => c26_node(&node()),
        "mark" => {
            let m: Vec<M> = v["marks"].as_array().unwrap().iter().map(M::from_json).collect();
            c26_mark(&node(), &m)
        }
        "copy" => c26_copy(&node(), &kids()),
        "build" => c26_build(s("s"), s("u"), &kids(), ju(v, "level") as u8),
        _ => c26_either(ju(v, "a"), ju(v, "b")),
    }
}
