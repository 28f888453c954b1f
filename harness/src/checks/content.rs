//! C14 content expressions, C15 replaceability and compatible content.
use super::*;
use prosemirror::markdown::{MarkdownContentMatch, MD};
use prosemirror::model::{ContentMatch, Fragment, Node, NodeType};

/// One child of each kind that content checks can tell apart.
pub fn reps() -> Vec<T> {
    vec![
        doc(vec![]),
        p(vec![]),
        h(1, vec![]),
        cb("", vec![]),
        bq(vec![]),
        ul(vec![]),
        ol(1, vec![]),
        li(vec![]),
        hr(),
        br(),
        img("", "", ""),
        text("a"),
        mtext("a", &[M::Em]),
        mtext("b", &[M::Strong, M::Code, link("x")]),
    ]
}
/// Children are grouped by what the schema distinguishes; the full alphabet for short
/// sequences, one of each group for long ones.
fn short_reps() -> Vec<T> {
    vec![p(vec![]), h(1, vec![]), li(vec![]), br(), img("", "", ""), text("a"), mtext("a", &[M::Em])]
}
fn marks_fine(ty: Ty, kids: &[T]) -> bool {
    ty.marks_ok()
        || kids
            .iter()
            .all(|k| !matches!(&k.head, Head::Text(_, m) if !m.is_empty()))
}
fn types(kids: &[T]) -> Vec<Ty> {
    kids.iter().map(|k| k.ty()).collect()
}
fn valid_kids(ty: Ty, kids: &[T]) -> bool {
    // leaf types have no marks to allow and no content
    valid_seq(ty, &types(kids)) && (kids.is_empty() || marks_fine(ty, kids))
}
pub fn c14_eval(ty: Ty, kids: &[T], f: &Fragment<MD>, deep: bool) -> Res {
    let nt = ty.real();
    let what = || format!("{:?} with {:?}", ty, types(kids));
    let want = valid_kids(ty, kids);
    if nt.valid_content(f) != want {
        return Err(format!("{}: valid_content says {}", what(), !want));
    }
    let tys = types(kids);
    let n = kids.len();
    let start: MarkdownContentMatch = nt.content_match();
    let end_of = |a: usize, b: usize| -> Option<bool> {
        // matching kids[a..b] from the start
        if prefix_ok(ty, &tys[a..b]) {
            Some(!needs_child(ty) || b > a)
        } else {
            None
        }
    };
    let check = |what2: &str, got: Option<MarkdownContentMatch>, want: Option<bool>| -> Result<(), String> {
        if got.map(|m| m.valid_end()) != want {
            return Err(format!(
                "{}: {} ends {:?} but should {:?}",
                what(),
                what2,
                got.map(|m| m.valid_end()),
                want
            ));
        }
        Ok(())
    };
    check("match_fragment", start.match_fragment(f), end_of(0, n))?;
    check("match_fragment_range(..)", start.match_fragment_range(f, ..), end_of(0, n))?;
    // child by child
    let mut m = Some(start);
    for t in &tys {
        m = m.and_then(|m| m.match_type(t.real()));
    }
    check("match_type one by one", m, end_of(0, n))?;
    if deep {
        for a in 0..=n {
            for b in a..=n {
                check(&format!("range {}..{}", a, b), start.match_fragment_range(f, a..b), end_of(a, b))?;
                if b > a {
                    check(&format!("range {}..={}", a, b - 1), start.match_fragment_range(f, a..=b - 1), end_of(a, b))?;
                }
                if a == 0 {
                    check(&format!("range ..{}", b), start.match_fragment_range(f, ..b), end_of(a, b))?;
                }
                if b == n {
                    check(&format!("range {}..", a), start.match_fragment_range(f, a..), end_of(a, b))?;
                }
                // in three pieces
                let w = start
                    .match_fragment_range(f, 0..a)
                    .and_then(|m| m.match_fragment_range(f, a..b))
                    .and_then(|m| m.match_fragment_range(f, b..n));
                check(&format!("pieces at {} and {}", a, b), w, end_of(0, n))?;
            }
        }
    }
    Ok(if want { "valid" } else { "invalid" })
}
fn seqs(reps: &[T], n: usize) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = v.len();
        for i in from..to {
            for r in reps {
                let mut x = v[i].clone();
                x.push(r.clone());
                v.push(x);
            }
        }
        from = to;
    }
    v
}
pub fn c14(e: &Engine) {
    let mut all = seqs(&reps(), e.q(3, 4));
    let long = seqs(&short_reps(), e.q(6, 7));
    all.extend(long.into_iter().filter(|s| s.len() > e.q(3, 4)));
    // long runs of one child, with one intruder anywhere
    for n in [8, 20, 70] {
        for a in reps() {
            for b in reps() {
                for i in [0, n / 2, n - 1] {
                    let mut v = vec![a.clone(); n];
                    v[i] = b.clone();
                    all.push(v);
                }
            }
        }
    }
    let chunks: Vec<&[Vec<T>]> = all.chunks(64).collect();
    e.par("sequences", &chunks, |c, ks| {
        for kids in ks.iter() {
            let f = real_fragment(kids);
            for ty in ALL_TY {
                c.state();
                c.ops(3 + kids.len() * kids.len());
                c.case(
                    || json!({"property": "C14", "type": ty as u8, "kids": kids.iter().map(T::json).collect::<Vec<_>>()}),
                    || c14_eval(ty, kids, &f, kids.len() <= 8),
                );
            }
        }
    });
    // allowing marks
    let sets: Vec<Vec<M>> = vec![vec![], vec![M::Em], vec![M::Strong, M::Em, M::Code, link("x")], vec![M::Code], vec![link("y")]];
    e.par("mark-sets", &sets, |c, ms| {
        for ty in ALL_TY {
            c.state();
            c.case(
                || json!({"property": "C14", "kind": "marks", "type": ty as u8, "marks": ms.iter().map(M::json).collect::<Vec<_>>()}),
                || c14_marks(ty, ms),
            );
        }
    });
}
fn c14_marks(ty: Ty, ms: &[M]) -> Res {
    // which marks a node of this type allows on its children
    let nt = ty.real();
    if ty.leaf() {
        let _ = nt.allow_marks(&real_marks(ms));
        return Ok("leaf: no children");
    }
    let want = ms.is_empty() || ty.marks_ok();
    if nt.allow_marks(&real_marks(ms)) != want {
        return Err(format!("{:?}.allow_marks({:?}) is {}", ty, ms, !want));
    }
    for m in ms {
        use prosemirror::model::Mark;
        if nt.allows_mark_type(m.real().r#type()) != ty.marks_ok() {
            return Err(format!("{:?}.allows_mark_type({:?}) is {}", ty, m, !ty.marks_ok()));
        }
    }
    Ok("marks")
}
pub fn c14_replay(v: &Value) -> Res {
    let ty = Ty::from_u8(ju(v, "type") as u8);
    if v["kind"] == json!("marks") {
        return c14_marks(ty, &v["marks"].as_array().unwrap().iter().map(M::from_json).collect::<Vec<_>>());
    }
    let kids: Vec<T> = v["kids"].as_array().unwrap().iter().map(T::from_json).collect();
    c14_eval(ty, &kids, &real_fragment(&kids), true)
}

// ---- C15 ---------------------------------------------------------------------------
pub struct Node15 {
    pub t: T,
    pub n: prosemirror::markdown::MarkdownNode,
}
pub fn c15_can(n: &Node15, from: usize, to: usize, rep: &[T], f: &Fragment<MD>, a: usize, b: usize) -> Res {
    let ty = n.t.ty();
    let mut kids: Vec<T> = n.t.kids[..from].to_vec();
    kids.extend_from_slice(&rep[a..b]);
    kids.extend_from_slice(&n.t.kids[to..]);
    let want = valid_kids(ty, &kids);
    let what = |r: &str| {
        format!(
            "can {:?} replace children {}..{} by {:?}{}",
            n.t.show(),
            from,
            to,
            types(rep),
            r
        )
    };
    let chk = |r: &str, got: Result<bool, prosemirror::model::ContentMatchError>| match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!("{}: {} but carrying it out gives {} content", what(r), g, if want { "valid" } else { "invalid" })),
        Err(e) => Err(format!("{}: error {}", what(r), e)),
    };
    chk(&format!("[{}..{}]", a, b), n.n.can_replace(from, to, Some(f), a..b))?;
    if b > a {
        chk(&format!("[{}..={}]", a, b - 1), n.n.can_replace(from, to, Some(f), a..=b - 1))?;
    }
    if a == 0 {
        chk(&format!("[..{}]", b), n.n.can_replace(from, to, Some(f), ..b))?;
    }
    if b == rep.len() {
        chk(&format!("[{}..]", a), n.n.can_replace(from, to, Some(f), a..))?;
        if a == 0 {
            chk("[..]", n.n.can_replace(from, to, Some(f), ..))?;
        }
    }
    if a == b {
        chk(" (nothing)", n.n.can_replace(from, to, None, ..))?;
    }
    Ok(if want { "may be replaced" } else { "may not be replaced" })
}
/// An answer computed the long way: build the new node and check its content.
pub fn c15_truth(n: &Node15, from: usize, to: usize, rep: &[T], f: &Fragment<MD>) -> Res {
    let mut kids: Vec<T> = n.t.kids[..from].to_vec();
    kids.extend_from_slice(rep);
    kids.extend_from_slice(&n.t.kids[to..]);
    let built = n.t.ty().real().valid_content(&real_fragment(&kids));
    match n.n.can_replace(from, to, Some(f), ..) {
        Ok(g) if g == built => Ok("agrees with valid_content"),
        g => Err(format!(
            "can_replace({}, {}) of {} by {:?} is {:?}, valid_content of the result is {}",
            from,
            to,
            n.t.show(),
            types(rep),
            g,
            built
        )),
    }
}
pub fn c15_compat(a: Ty, b: Ty) -> Res {
    let got = a.real().compatible_content(b.real());
    if got != compat(a, b) {
        return Err(format!("{:?}.compatible_content({:?}) is {}", a, b, got));
    }
    if got != b.real().compatible_content(a.real()) {
        return Err(format!("compatible_content of {:?} and {:?} is not symmetric", a, b));
    }
    // the same through the content matches themselves
    let (ma, mb) = (a.real().content_match(), b.real().content_match());
    let first = ALL_TY
        .iter()
        .any(|c| ma.match_type(c.real()).is_some() && mb.match_type(c.real()).is_some());
    if got != (a == b || first) {
        return Err(format!(
            "{:?} and {:?}: compatible_content is {} but a common first child {}",
            a,
            b,
            got,
            if first { "exists" } else { "does not exist" }
        ));
    }
    Ok(if got { "compatible" } else { "incompatible" })
}
pub fn c15(e: &Engine) {
    let pairs: Vec<(Ty, Ty)> = ALL_TY.iter().flat_map(|a| ALL_TY.iter().map(move |b| (*a, *b))).collect();
    e.par("compatible-content", &pairs, |c, (a, b)| {
        c.state();
        c.ops(2);
        c.case(
            || json!({"property": "C15", "kind": "compat", "a": *a as u8, "b": *b as u8}),
            || c15_compat(*a, *b),
        );
    });
    // every node with valid children
    let heads = [
        Head::Doc,
        Head::Paragraph,
        Head::Heading(1),
        Head::CodeBlock(String::new()),
        Head::Blockquote,
        Head::BulletList(false),
        Head::OrderedList(1, true),
        Head::ListItem,
    ];
    let mut nodes: Vec<Node15> = vec![];
    for hd in heads {
        for kids in seqs(&reps(), e.q(2, 3)) {
            if valid_kids(hd.ty(), &kids) {
                let t = t(hd.clone(), kids);
                nodes.push(Node15 { n: t.real(), t });
            }
        }
        for kids in seqs(&short_reps(), 4) {
            if kids.len() == 4 && kids.windows(2).all(|w| w[0] != w[1]) && valid_kids(hd.ty(), &kids) {
                let t = t(hd.clone(), kids);
                nodes.push(Node15 { n: t.real(), t });
            }
        }
    }
    for l in [hr(), br(), img("", "", ""), text("a")] {
        nodes.push(Node15 { n: l.real(), t: l });
    }
    let reps: Vec<(Vec<T>, Fragment<MD>)> = seqs(&reps(), e.q(2, 3))
        .into_iter()
        .chain(seqs(&short_reps(), 3).into_iter().filter(|s| s.len() == 3))
        .map(|k| {
            let f = real_fragment(&k);
            (k, f)
        })
        .collect();
    // wide nodes and wide replacements, ranges near the ends and powers of two
    let wide = |n: usize, k: usize| -> Vec<T> {
        (0..n)
            .map(|i| match k {
                0 => ps("a"),
                1 => [ps("a"), hr(), h(1, vec![])][i % 3].clone(),
                2 => li(vec![ps("a")]),
                3 => mtext("a", [&[][..], &[M::Em][..]][i % 2]),
                4 => [text("a"), br(), img("s", "", "")][i % 3].clone(),
                // one odd one out, near the end
                5 => if i + 2 == n { li(vec![ps("a")]) } else { ps("a") },
                6 => if i + 2 == n { ps("a") } else { li(vec![ps("a")]) },
                7 => if i + 2 == n { hr() } else { [text("a"), br()][i % 2].clone() },
                _ => if i + 2 == n { mtext("b", &[M::Strong]) } else { text("a") },
            })
            .collect()
    };
    let widths: &[usize] = e.q(&[17, 33, 70, 130, 260], &[9, 17, 33, 64, 65, 70, 100, 130, 260, 515, 1030]);
    let mut wides: Vec<Node15> = vec![];
    let mut wide_reps: Vec<(Vec<T>, Fragment<MD>)> = vec![];
    for &n in widths {
        for k in 0..9 {
            let kids = wide(n, k);
            for hd in [Head::Doc, Head::Blockquote, Head::ListItem, Head::BulletList(true), Head::Paragraph, Head::Heading(2), Head::CodeBlock(String::new())] {
                if valid_kids(hd.ty(), &kids) {
                    let t = t(hd, kids.clone());
                    wides.push(Node15 { n: t.real(), t });
                }
            }
            let f = real_fragment(&kids);
            wide_reps.push((kids, f));
        }
    }
    for k in [vec![], vec![ps("a")], vec![hr(), ps("a")], vec![li(vec![ps("a")])], vec![text("a")], vec![br()]] {
        let f = real_fragment(&k);
        wide_reps.push((k, f));
    }
    let edges = |k: usize| -> Vec<usize> {
        let mut v: Vec<usize> = vec![0, 1, 2, k / 2, k.saturating_sub(2), k.saturating_sub(1), k];
        v.extend([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257].iter().filter(|x| **x < k));
        v.retain(|x| *x <= k);
        v.sort_unstable();
        v.dedup();
        v
    };
    e.par("can-replace-wide", &wides, |c, n| {
        c.state();
        let es = edges(n.t.kids.len());
        for &from in &es {
            for &to in es.iter().filter(|x| **x >= from) {
                for (rep, f) in &wide_reps {
                    let base = || json!({"property": "C15", "node": n.t.json(), "from": from, "to": to, "rep": rep.iter().map(T::json).collect::<Vec<_>>()});
                    let m = rep.len();
                    for (a, b) in [(0, m), (0, m.saturating_sub(1)), (m.saturating_sub(1), m), (m.saturating_sub(2), m), (m.min(1), m), (m / 2, m)] {
                        c.ops(2);
                        c.case(
                            || {
                                let mut v = base();
                                v["kind"] = json!("can");
                                v["start"] = json!(a);
                                v["end"] = json!(b);
                                v
                            },
                            || c15_can(n, from, to, rep, f, a, b),
                        );
                    }
                    c.ops(1);
                    c.case(
                        || {
                            let mut v = base();
                            v["kind"] = json!("truth");
                            v
                        },
                        || c15_truth(n, from, to, rep, f),
                    );
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
    });
    e.par("can-replace", &nodes, |c, n| {
        c.state();
        let k = n.t.kids.len();
        for from in 0..=k {
            for to in from..=k {
                for (rep, f) in &reps {
                    let base = || json!({"property": "C15", "node": n.t.json(), "from": from, "to": to, "rep": rep.iter().map(T::json).collect::<Vec<_>>()});
                    for a in 0..=rep.len() {
                        for b in a..=rep.len() {
                            c.ops(2);
                            c.case(
                                || {
                                    let mut v = base();
                                    v["kind"] = json!("can");
                                    v["start"] = json!(a);
                                    v["end"] = json!(b);
                                    v
                                },
                                || c15_can(n, from, to, rep, f, a, b),
                            );
                        }
                    }
                    c.ops(1);
                    c.case(
                        || {
                            let mut v = base();
                            v["kind"] = json!("truth");
                            v
                        },
                        || c15_truth(n, from, to, rep, f),
                    );
                }
            }
        }
    });
}
pub fn c15_replay(v: &Value) -> Res {
    if v["kind"] == json!("compat") {
        return c15_compat(Ty::from_u8(ju(v, "a") as u8), Ty::from_u8(ju(v, "b") as u8));
    }
    let t = T::from_json(&v["node"]);
    let n = Node15 { n: t.real(), t };
    let rep: Vec<T> = v["rep"].as_array().unwrap().iter().map(T::from_json).collect();
    let f = real_fragment(&rep);
    match v["kind"].as_str().unwrap() {
        "can" => c15_can(&n, ju(v, "from"), ju(v, "to"), &rep, &f, ju(v, "start"), ju(v, "end")),
        _ => c15_truth(&n, ju(v, "from"), ju(v, "to"), &rep, &f),
    }
}
