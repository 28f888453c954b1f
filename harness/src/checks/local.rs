//! C28: an edit inside a node depends on that node alone.
use super::json::RS;
use super::repl::family_slices;
use super::steps::Ar;
use super::*;
use prosemirror::markdown::{MarkdownNode, MD};
use prosemirror::transform::Step;

fn sl(kids: Vec<T>, os: usize, oe: usize) -> S {
    S { kids, os, oe }
}
/// The new document, or the kind of the error without the numbers in it.
fn outcome(s: &Step<MD>, d: &MarkdownNode) -> Result<MarkdownNode, String> {
    s.apply(d)
        .map_err(|e| format!("{:?}", e).chars().filter(|c| !c.is_ascii_digit()).collect())
}
fn shifted(s: &RS, by: isize) -> RS {
    let f = |x: usize| (x as isize + by) as usize;
    match s {
        RS::Replace(s, from, to, st) => RS::Replace(s.clone(), f(*from), f(*to), *st),
        RS::Mark(m, from, to, add) => RS::Mark(m.clone(), f(*from), f(*to), *add),
        RS::Around(s, a) => RS::Around(
            s.clone(),
            Ar { from: f(a.from), to: f(a.to), gf: f(a.gf), gt: f(a.gt), ..*a },
        ),
    }
}
/// Does the step stay inside the node, whatever is around it?
fn inside(d: &DocCtx, s: &RS) -> bool {
    let (sl, from, to) = match s {
        RS::Mark(_, from, to, _) => return from <= to && *to <= d.len(),
        RS::Replace(s, from, to, _) => (s, *from, *to),
        RS::Around(s, a) => (s, a.from, a.to),
    };
    from <= to && to <= d.len() && !d.mid(from) && !d.mid(to) && sl.os <= d.depth(from) && sl.oe <= d.depth(to)
}

// ---- surroundings ------------------------------------------------------------------
/// A document with a hole at a path of child indices.
#[derive(Clone)]
pub struct Hole {
    root: T,
    path: Vec<usize>,
}
impl Hole {
    fn fill(&self, x: &T) -> T {
        fn go(at: &T, path: &[usize], x: &T) -> T {
            match path.split_first() {
                None => x.clone(),
                Some((i, rest)) => {
                    let mut at = at.clone();
                    at.kids[*i] = go(&at.kids[*i], rest, x);
                    at
                }
            }
        }
        go(&self.root, &self.path, x)
    }
    /// The position of the start of the content of what fills the hole.
    fn start(&self) -> usize {
        let (mut at, mut pos) = (&self.root, 0);
        for i in &self.path {
            pos += at.kids[..*i].iter().map(T::size).sum::<usize>() + 1;
            at = &at.kids[*i];
        }
        pos
    }
    fn get(&self) -> &T {
        self.path.iter().fold(&self.root, |x, i| &x.kids[*i])
    }
}
/// All inner nodes of a document.
fn holes(d: &T) -> Vec<Hole> {
    fn go(root: &T, at: &T, path: &mut Vec<usize>, out: &mut Vec<Hole>) {
        for (i, k) in at.kids.iter().enumerate() {
            if k.ty().leaf() {
                continue;
            }
            path.push(i);
            out.push(Hole { root: root.clone(), path: path.clone() });
            go(root, k, path, out);
            path.pop();
        }
    }
    let mut v = vec![];
    go(d, d, &mut vec![], &mut v);
    v
}
/// Surroundings for a node: alone, wide, deep, next to its like, inside everything.
fn surroundings(x: &T, big: bool) -> Vec<Hole> {
    let long = EMOJI.repeat(300);
    let mut v = vec![];
    if x.ty() == Ty::ListItem {
        let list = |before: Vec<T>, after: Vec<T>| {
            let i = before.len();
            let mut k = before;
            k.push(x.clone());
            k.extend(after);
            (k, i)
        };
        let a = || li(vec![ps("a")]);
        for (k, i) in [
            list(vec![], vec![]),
            list(vec![a()], vec![a()]),
            list(vec![x.clone()], vec![x.clone()]),
            list(vec![li(vec![ps(&long)])], vec![]),
            list((0..40).map(|_| a()).collect(), vec![a()]),
        ] {
            v.push(Hole { root: doc(vec![ul(k.clone())]), path: vec![0, i] });
            v.push(Hole { root: doc(vec![ps("q"), bq(vec![hr(), ol(3, k), ps("")])]), path: vec![1, 1, i] });
        }
        return v;
    }
    let e = x.clone();
    v.push(Hole { root: doc(vec![e.clone()]), path: vec![0] });
    v.push(Hole { root: doc(vec![ps("q"), e.clone(), ps("r")]), path: vec![1] });
    v.push(Hole { root: doc(vec![ps(""), e.clone(), ps("")]), path: vec![1] });
    v.push(Hole { root: doc(vec![hr(), e.clone(), hr()]), path: vec![1] });
    v.push(Hole { root: doc(vec![e.clone(), e.clone(), e.clone()]), path: vec![1] });
    v.push(Hole { root: doc(vec![bq(vec![e.clone()]), bq(vec![e.clone()])]), path: vec![1, 0] });
    v.push(Hole {
        root: doc(vec![ul(vec![li(vec![ps("m"), e.clone(), ps("")]), li(vec![ps("n")])]), ps("z")]),
        path: vec![0, 0, 1],
    });
    v.push(Hole { root: doc(vec![p(vec![mtext(&long, &[M::Em]), text("b")]), e.clone()]), path: vec![1] });
    let many = |n: usize| (0..n).map(|i| if i % 3 == 2 { bq(vec![ps("k")]) } else { ps(["", "ab"][i % 2]) });
    let ns: &[usize] = if big { &[20, 70, 260, 1030] } else { &[20, 130, 260] };
    for &n in ns {
        v.push(Hole { root: doc(many(n).chain([e.clone()]).chain(many(5)).collect()), path: vec![n] });
        v.push(Hole { root: doc([e.clone()].into_iter().chain(many(n)).collect()), path: vec![0] });
    }
    let ds: &[usize] = if big { &[3, 9, 20, 40, 100] } else { &[3, 20, 70] };
    for &n in ds {
        let deep = (0..n).fold(e.clone(), |x, i| match i % 3 {
            0 => bq(vec![x, ps("v")]),
            1 => bq(vec![ps("u"), x]),
            _ => ul(vec![li(vec![ps("w"), x])]),
        });
        let mut path = vec![0];
        for i in (0..n).rev() {
            match i % 3 {
                0 => path.push(0),
                1 => path.push(1),
                _ => path.extend([0, 1]),
            }
        }
        v.push(Hole { root: doc(vec![deep]), path });
    }
    v
}

// ---- evaluation --------------------------------------------------------------------
/// The step in the node alone, and in its surroundings.
fn c28_inside(alone: &DocCtx, hole: &Hole, whole: &MarkdownNode, s: &RS) -> Res {
    let by = hole.start() as isize;
    let a = outcome(&s.real(), &alone.node);
    let b = outcome(&shifted(s, by).real(), whole);
    let what = || format!("{:?} inside {} in {}", s, alone.show(), hole.root.show());
    match (a, b) {
        (Ok(x), Ok(y)) => {
            let want = hole.fill(&T::from_real(&x));
            if T::from_real(&y) != want || y != want.real() {
                return Err(format!("{} gives {} but should give {}", what(), T::from_real(&y).show(), want.show()));
            }
            read_root(&y).map_err(|e| format!("{}: {}", what(), e))?;
            Ok("same change")
        }
        (Err(x), Err(y)) if x == y => Ok("same refusal"),
        (Err(x), Err(y)) => Err(format!("{} is refused with {} but alone with {}", what(), y, x)),
        (Ok(x), Err(y)) => Err(format!("{} is refused with {} but alone gives {}", what(), y, T::from_real(&x).show())),
        (Err(x), Ok(y)) => Err(format!("{} gives {} but alone is refused with {}", what(), T::from_real(&y).show(), x)),
    }
}
/// Two steps in different nodes of a document, the first before the second.
fn c28_apart(d: &MarkdownNode, a: &RS, b: &RS) -> Res {
    use prosemirror::model::Node;
    let what = || format!("{:?} and {:?} on {}", a, b, T::from_real(d).show());
    let (ra, rb) = (outcome(&a.real(), d), outcome(&b.real(), d));
    // b after a
    let ab = ra.as_ref().map(|x| outcome(&shifted(b, x.node_size() as isize - d.node_size() as isize).real(), x));
    let ba = rb.as_ref().map(|x| outcome(&a.real(), x));
    if let Ok(ab) = &ab {
        if ab.is_ok() != rb.is_ok() || ab.as_ref().err() != rb.as_ref().err() {
            return Err(format!("{}: the second alone is {:?}, after the first {:?}", what(), rb.as_ref().err(), ab.as_ref().err()));
        }
    }
    if let Ok(ba) = &ba {
        if ba.is_ok() != ra.is_ok() || ba.as_ref().err() != ra.as_ref().err() {
            return Err(format!("{}: the first alone is {:?}, after the second {:?}", what(), ra.as_ref().err(), ba.as_ref().err()));
        }
    }
    match (&ab, &ba) {
        (Ok(Ok(x)), Ok(Ok(y))) if x == y && T::from_real(x) == T::from_real(y) => Ok("same in both orders"),
        (Ok(Ok(x)), Ok(Ok(y))) => Err(format!("{}: gives {} and the other way round {}", what(), T::from_real(x).show(), T::from_real(y).show())),
        (Ok(_), _) | (_, Ok(_)) => Ok("one refused"),
        _ => Ok("both refused"),
    }
}
/// Two mark steps that concern different marks or different places.
fn c28_marks(d: &MarkdownNode, a: &RS, b: &RS) -> Res {
    let both = |x: &RS, y: &RS| outcome(&x.real(), d).and_then(|n| outcome(&y.real(), &n));
    match (both(a, b), both(b, a)) {
        (Ok(x), Ok(y)) if x == y && T::from_real(&x) == T::from_real(&y) => Ok("same in both orders"),
        (Err(_), Err(_)) => Ok("both refused"),
        (x, y) => {
            let show = |r: Result<MarkdownNode, String>| r.map_or_else(|e| e, |n| T::from_real(&n).show());
            Err(format!("{:?} and then {:?} on {} gives {}, the other way round {}", a, b, T::from_real(d).show(), show(x), show(y)))
        }
    }
}

// ---- exploration -------------------------------------------------------------------
fn slices() -> Vec<S> {
    vec![
        S::empty(),
        sl(vec![text("x")], 0, 0),
        sl(vec![mtext("y", &[M::Em, link("x")])], 0, 0),
        sl(vec![text(EMOJI), br()], 0, 0),
        sl(vec![ps(""), ps("")], 1, 1),
        sl(vec![ps("a")], 1, 0),
        sl(vec![hr()], 0, 0),
        sl(vec![h(2, vec![text("e")])], 0, 1),
        sl(vec![li(vec![ps("")]), li(vec![ps("q")])], 2, 2),
        sl(vec![bq(vec![ps("a")])], 0, 0),
    ]
}
fn gaps() -> Vec<S> {
    vec![
        S::empty(),
        sl(vec![bq(vec![])], 0, 0),
        sl(vec![ul(vec![li(vec![])])], 0, 0),
        sl(vec![h(3, vec![])], 0, 0),
    ]
}
/// Steps at all positions of a node.
fn steps_in(d: &DocCtx, ps: &[usize], slices: &[S], gaps: &[S], ms: &[M]) -> Vec<RS> {
    let mut v = vec![];
    for &from in ps {
        for &to in ps.iter().filter(|to| **to >= from) {
            for s in slices {
                v.push(RS::Replace(s.clone(), from, to, (from + to) % 3 == 0));
            }
            for m in ms {
                v.push(RS::Mark(m.clone(), from, to, true));
                v.push(RS::Mark(m.clone(), from, to, false));
            }
            for s in gaps {
                let insert = s.toks().len() / 2;
                for (a, b) in [(0, 0), (1, 1), (1, 0), (2, 2)] {
                    if from >= a && to + b <= d.len() {
                        let a = Ar { from: from - a, to: to + b, gf: from, gt: to, insert, structure: true };
                        v.push(RS::Around(s.clone(), a));
                    }
                }
            }
        }
    }
    v.retain(|s| inside(d, s));
    v
}
pub fn c28(e: &Engine) {
    MANY_LINKS.store(true, std::sync::atomic::Ordering::Relaxed);
    let ms = [M::Em, M::Strong, link("x"), M::Link("y".into(), "t".into())];
    // every node of every document
    let docs = docset(
        &[
            (pal_struct(), e.q(10, 12)),
            (pal_blocks(), e.q(7, 8)),
            (pal_attrs(), e.q(6, 7)),
            (pal_inline(), e.q(6, 7)),
            (pal_marks(), e.q(5, 6)),
            (pal_two(), e.q(8, 10)),
        ],
        0,
    );
    let all = |c: &mut Ctx, hole: &Hole, slices: &[S], gaps: &[S], ms: &[M], max: usize| {
        let alone = DocCtx::new(hole.get());
        let whole = hole.root.real();
        let ps = good_positions(&alone, 40, max);
        c.state();
        for rs in steps_in(&alone, &ps, slices, gaps, ms) {
            c.ops(2);
            c.case(
                || json!({"property": "C28", "kind": "inside", "doc": hole.root.json(), "path": hole.path, "step": rs.json()}),
                || c28_inside(&alone, hole, &whole, &rs),
            );
            if c.stopped() {
                return;
            }
        }
    };
    let (sls, gps) = (slices(), gaps());
    e.par("every-node", &docs, |c, t| {
        for hole in holes(t) {
            all(c, &hole, &sls, &gps, &ms, 40);
        }
    });
    // every small node in all kinds of surroundings
    let mut nodes: Vec<T> = vec![];
    let mut seen = HashSet::new();
    let small = docset(
        &[(pal_struct(), e.q(8, 9)), (pal_blocks(), e.q(6, 7)), (pal_attrs(), e.q(5, 6)), (pal_marks(), e.q(5, 6))],
        0,
    );
    for d in small {
        for hole in holes(&d) {
            if seen.insert(hole.get().clone()) {
                nodes.push(hole.get().clone());
            }
        }
    }
    let mut sls2 = sls.clone();
    sls2.truncate(e.q(7, 10));
    e.par("surroundings", &nodes, |c, x| {
        for hole in surroundings(x, e.thorough()) {
            all(c, &hole, &sls2, &gps[..2], &ms[..e.q(1, 3)], 30);
        }
    });
    // large documents
    let mut large: Vec<T> = families(e.q(2, 4));
    large.extend(large_docs(e.thorough()).into_iter().filter(|d| d.content_size() < e.q(1500, 9000)));
    let fam: Vec<S> = family_slices().into_iter().take(e.q(8, 22)).collect();
    e.par("large", &large, |c, t| {
        let mut hs = holes(t);
        if hs.len() > 12 {
            // the first, the last, the middle and some between
            let n = hs.len();
            let keep: HashSet<usize> = [0, 1, n / 2, n - 2, n - 1, n / 3, 16.min(n - 1), 64.min(n - 1), 128.min(n - 1), 256.min(n - 1)].into();
            let mut i = 0;
            hs.retain(|_| {
                i += 1;
                keep.contains(&(i - 1))
            });
        }
        for hole in hs {
            all(c, &hole, &fam, &gps[..2], &ms[..2], e.q(10, 20));
        }
    });
    // steps in two nodes that do not contain each other
    let docs = docset(&[(pal_struct(), e.q(10, 11)), (pal_blocks(), e.q(7, 8)), (pal_marks(), e.q(6, 7))], 0);
    let few: Vec<S> = [0, 1, 4, 6].iter().map(|i| sls[*i].clone()).collect();
    e.par("apart", &docs, |c, t| {
        let hs = holes(t);
        let real = t.real();
        c.state();
        let steps: Vec<(Vec<usize>, usize, Vec<RS>)> = hs
            .iter()
            .map(|h| {
                let d = DocCtx::new(h.get());
                let ps = positions(&d);
                let by = h.start() as isize;
                let st = steps_in(&d, &ps, &few, &gps[..2], &ms[..1]);
                (h.path.clone(), h.start(), st.iter().map(|s| shifted(s, by)).collect())
            })
            .collect();
        for (i, (p, at, a)) in steps.iter().enumerate() {
            for (q, at2, b) in &steps[i + 1..] {
                if q.starts_with(p) || at > at2 {
                    continue;
                }
                for x in a {
                    for y in b {
                        c.ops(4);
                        c.case(
                            || json!({"property": "C28", "kind": "apart", "doc": t.json(), "a": x.json(), "b": y.json()}),
                            || c28_apart(&real, x, y),
                        );
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // marks of different types anywhere, marks of one type in different places
    let mut docs = docset(&[(pal_marks(), e.q(4, 5)), (pal_inline(), e.q(4, 5)), (pal_blocks(), e.q(5, 6))], 0);
    docs.extend(mark_pair_docs().into_iter().filter(|d| d.content_size() < e.q(5, 9)));
    let ms = [M::Em, M::Strong, M::Code, link("x"), link("y")];
    e.par("marks", &docs, |c, t| {
        let d = DocCtx::new(t);
        let real = t.real();
        let ps = positions(&d);
        c.state();
        let mut sts = vec![];
        for &from in &ps {
            for &to in ps.iter().filter(|x| **x > from) {
                for m in &ms {
                    for add in [true, false] {
                        sts.push((m.clone(), from, to, add));
                    }
                }
            }
        }
        for (i, a) in sts.iter().enumerate() {
            for b in &sts[i + 1..] {
                let apart = a.2 <= b.1 || b.2 <= a.1;
                if a.0.kind() == b.0.kind() && !apart && !(a.0 == b.0 && a.3 == b.3) {
                    continue;
                }
                let rs = |x: &(M, usize, usize, bool)| RS::Mark(x.0.clone(), x.1, x.2, x.3);
                let (x, y) = (rs(a), rs(b));
                c.ops(4);
                c.case(
                    || json!({"property": "C28", "kind": "marks", "doc": t.json(), "a": x.json(), "b": y.json()}),
                    || c28_marks(&real, &x, &y),
                );
            }
            if c.stopped() {
                return;
            }
        }
    });
}
pub fn c28_replay(v: &Value) -> Res {
    let step = |k: &str| super::json::Dec { lax: false }.step(&v[k]).ok_or_else(|| "unreadable case".to_string());
    let root = T::from_json(&v["doc"]);
    match v["kind"].as_str().unwrap() {
        "inside" => {
            let path: Vec<usize> = v["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let hole = Hole { root, path };
            let whole = hole.root.real();
            c28_inside(&DocCtx::new(hole.get()), &hole, &whole, &step("step")?)
        }
        "apart" => c28_apart(&root.real(), &step("a")?, &step("b")?),
        _ => c28_marks(&root.real(), &step("a")?, &step("b")?),
    }
}
