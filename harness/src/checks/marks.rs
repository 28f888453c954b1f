//! C13 mark sets.
use super::*;
use prosemirror::markdown::{LinkAttrs, MarkdownMark, MarkdownNode, MD};
use prosemirror::model::{Mark, MarkSet, TextNode};
use std::borrow::Cow;
use std::convert::TryFrom;

pub fn universe(n: usize) -> Vec<M> {
    let all = vec![
        M::Strong,
        M::Em,
        M::Code,
        link("x"),
        link("y"),
        M::Link("x".into(), "t".into()),
    ];
    all[..n].to_vec()
}
/// The reference set: at most one mark per kind.
type R = Vec<M>;
fn radd(r: &R, m: &M) -> R {
    let mut v: R = r.iter().filter(|x| x.kind() != m.kind()).cloned().collect();
    v.push(m.clone());
    v.sort();
    v
}
fn rrem(r: &R, m: &M) -> R {
    r.iter().filter(|x| *x != m).cloned().collect()
}
fn list(s: &MarkSet<MD>) -> Vec<M> {
    s.into_iter().map(M::from_real).collect()
}
fn same(what: &str, s: &MarkSet<MD>, r: &R, uni: &[M]) -> Result<(), String> {
    if list(s) != *r {
        return Err(format!("{} gives {:?} but should be {:?}", what, s, r));
    }
    for m in uni {
        if s.contains(&m.real()) != r.contains(m) {
            return Err(format!("{} gives {:?}, but contains({:?}) is wrong", what, s, m));
        }
    }
    let fresh = MarkSet::<MD>::try_from(r.iter().map(M::real).collect::<Vec<MarkdownMark>>());
    match fresh {
        Ok(f) if f == *s && *s == f => {}
        _ => return Err(format!("{} gives {:?}, which is not equal to the same set built at once", what, s)),
    }
    Ok(())
}
/// One operation on a set reached by some history.
pub fn c13_op(set: &MarkSet<MD>, r: &R, m: &M, add: bool, uni: &[M]) -> Result<(MarkSet<MD>, R), String> {
    let mark = m.real();
    let want = if add { radd(r, m) } else { rrem(r, m) };
    let what = |k: &str| format!("{} {:?} {} {:?}", k, m, if add { "added to" } else { "removed from" }, r);
    let mut a = set.clone();
    if add {
        a.add(&mark)
    } else {
        a.remove(&mark)
    }
    same(&what("in place:"), &a, &want, uni)?;
    for owned in [false, true] {
        let c: Cow<MarkSet<MD>> = if owned { Cow::Owned(set.clone()) } else { Cow::Borrowed(set) };
        let b = if add { mark.add_to_set(c) } else { mark.remove_from_set(c) };
        same(&what("copied:"), &b, &want, uni)?;
        if *b != a {
            return Err(format!("{}: the two ways differ", what("")));
        }
    }
    if list(set) != *r {
        return Err(format!("{}: the original set changed to {:?}", what(""), set));
    }
    // through JSON, and on a text node
    let j = serde_json::to_value(&a).map_err(|e| e.to_string())?;
    if j != Value::Array(want.iter().map(M::json).collect()) {
        return Err(format!("{} serialises as {}", what(""), j));
    }
    let back: MarkSet<MD> = serde_json::from_value(j).map_err(|e| e.to_string())?;
    same(&what("read back:"), &back, &want, uni)?;
    let n = TextNode::<MD> { marks: a.clone(), text: prosemirror::model::Text::from("q".to_string()) };
    let other: MarkdownNode = mtext("q", &want).real();
    if n.same_markup(&other).is_none() {
        return Err(format!("{}: same_markup does not recognise the same marks", what("")));
    }
    if !radd(r, m).eq(r) || !add {
        let differs = mtext("q", r).real();
        if want != *r && n.same_markup(&differs).is_some() {
            return Err(format!("{}: same_markup sees no difference to {:?}", what(""), r));
        }
    }
    Ok((a, want))
}
pub fn c13_from(v: &[M]) -> Res {
    let mut kinds: Vec<u8> = v.iter().map(|m| m.kind()).collect();
    kinds.sort_unstable();
    kinds.dedup();
    let dup = kinds.len() != v.len();
    let r = MarkSet::<MD>::try_from(v.iter().map(M::real).collect::<Vec<_>>());
    let j = serde_json::from_value::<MarkSet<MD>>(Value::Array(v.iter().map(M::json).collect()));
    if dup {
        if let Ok(s) = r {
            return Err(format!("{:?} has two marks of one type but gives {:?}", v, s));
        }
        if let Ok(s) = j {
            return Err(format!("JSON of {:?} has two marks of one type but gives {:?}", v, s));
        }
        return Ok("duplicates refused");
    }
    let mut want = v.to_vec();
    want.sort();
    let s = r.map_err(|_| format!("{:?} was refused", v))?;
    same(&format!("built from {:?}:", v), &s, &want, &universe(6))?;
    let s = j.map_err(|e| format!("JSON of {:?} was refused: {}", v, e))?;
    same(&format!("read from {:?}:", v), &s, &want, &universe(6))?;
    if let [m] = v {
        same("into_set", &m.real().into_set(), &want, &universe(6))?;
    }
    // one after the other, in this order
    let mut t = MarkSet::<MD>::default();
    for m in v {
        t.add(&m.real());
    }
    if t != s {
        return Err(format!("adding {:?} one by one gives {:?}", v, t));
    }
    Ok("built")
}
pub fn c13(e: &Engine) {
    // Every history of additions and removals up to a depth: the history tree, not just the
    // reachable sets, so that nothing but the marks can matter.
    let uni = universe(6);
    let depth = e.q(6, 7);
    let firsts: Vec<(usize, bool, usize, bool)> = (0..uni.len())
        .flat_map(|a| {
            [true, false]
                .into_iter()
                .flat_map(move |x| (0..6).flat_map(move |b| [true, false].into_iter().map(move |y| (a, x, b, y))))
        })
        .collect();
    e.par("histories", &firsts, |c, &(a, x, b, y)| {
        fn go(c: &mut Ctx, set: &MarkSet<MD>, r: &R, ops: &mut Vec<(usize, bool)>, left: usize, uni: &[M]) {
            if left == 0 || c.stopped() {
                return;
            }
            for (i, m) in uni.iter().enumerate() {
                for add in [true, false] {
                    ops.push((i, add));
                    let next = step(c, set, r, ops, uni, m, add);
                    if let Some((s, r)) = next {
                        go(c, &s, &r, ops, left - 1, uni);
                    }
                    ops.pop();
                }
            }
        }
        fn step(
            c: &mut Ctx,
            set: &MarkSet<MD>,
            r: &R,
            ops: &[(usize, bool)],
            uni: &[M],
            m: &M,
            add: bool,
        ) -> Option<(MarkSet<MD>, R)> {
            let mut next = None;
            c.state();
            c.ops(5);
            c.case(
                || json!({"property": "C13", "kind": "history", "ops": ops.iter().map(|(i, a)| json!([uni[*i].json(), a])).collect::<Vec<_>>()}),
                || {
                    next = Some(c13_op(set, r, m, add, uni)?);
                    Ok(if add { "added" } else { "removed" })
                },
            );
            next
        }
        let mut ops = vec![(a, x)];
        if let Some((s, r)) = step(c, &MarkSet::default(), &vec![], &ops.clone(), &uni, &uni[a], x) {
            ops.push((b, y));
            if let Some((s, r)) = step(c, &s, &r, &ops.clone(), &uni, &uni[b], y) {
                go(c, &s, &r, &mut ops, depth - 2, &uni);
            }
        }
    });
    // Every list of marks up to a length
    let n = e.q(6, 7);
    let firsts: Vec<usize> = (0..uni.len()).collect();
    e.par("lists", &firsts, |c, &f| {
        let mut cur = vec![f];
        loop {
            let v: Vec<M> = cur.iter().map(|i| uni[*i].clone()).collect();
            c.state();
            c.ops(3);
            c.case(
                || json!({"property": "C13", "kind": "list", "marks": v.iter().map(M::json).collect::<Vec<_>>()}),
                || c13_from(&v),
            );
            if cur.len() < n {
                cur.push(0);
                continue;
            }
            while let Some(l) = cur.pop() {
                if cur.is_empty() {
                    return;
                }
                if l + 1 < uni.len() {
                    cur.push(l + 1);
                    break;
                }
            }
            if cur.len() == 1 && c.stopped() {
                return;
            }
        }
    });
    let none: [Vec<M>; 1] = [vec![]];
    e.par("empty", &none, |c, v| {
        c.state();
        c.case(|| json!({"property": "C13", "kind": "list", "marks": []}), || c13_from(v))
    });
}
pub fn c13_replay(v: &Value) -> Res {
    let uni = universe(6);
    match v["kind"].as_str().unwrap() {
        "list" => c13_from(&v["marks"].as_array().unwrap().iter().map(M::from_json).collect::<Vec<_>>()),
        _ => {
            let mut s = MarkSet::<MD>::default();
            let mut r = vec![];
            for o in v["ops"].as_array().unwrap() {
                let (s2, r2) = c13_op(&s, &r, &M::from_json(&o[0]), o[1] == json!(true), &uni)?;
                s = s2;
                r = r2;
            }
            Ok("history")
        }
    }
}
#[allow(dead_code)]
fn _attrs() -> LinkAttrs {
    LinkAttrs { href: String::new(), title: String::new() }
}
