//! C23: the same guarantees under other schemas.
use super::*;
use crate::world::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::OnceLock;

// ---- the schemas -------------------------------------------------------------------
/// Texts stand in loops only, so that splitting one never changes what a node may hold.
fn schemas() -> &'static Vec<Table> {
    static ALL: OnceLock<Vec<Table>> = OnceLock::new();
    ALL.get_or_init(|| {
        let plain = ("a", 0u16);
        let m0 = ("b", 1u16); // mark type 0, value 1
        vec![
            // ordered and counted content, an inline node with content, marked images
            Table::new(
                "article",
                3,
                &[
                    Row("doc", "n", 0, 1, "title block*"),
                    Row("title", "n", 0b001, 1, "text*"),
                    Row("para", "n", 0b111, 2, "inl*"),
                    Row("pair", "n", 0, 1, "para para"),
                    Row("sec", "n", 0, 1, "rule? para+"),
                    Row("rule", "l", 0, 1, ""),
                    Row("note", "nim", 0b010, 1, "text*"),
                    Row("img", "lim", 0, 1, ""),
                    Row("text", "t", 0, 1, ""),
                ],
                &[("block", "para pair sec rule"), ("inl", "text img note")],
                &[plain, m0],
            ),
            // rows of exactly two cells, tables in cells
            Table::new(
                "table",
                2,
                &[
                    Row("doc", "n", 0, 1, "(table | para)+"),
                    Row("table", "n", 0, 1, "row+"),
                    Row("row", "n", 0, 1, "cell cell"),
                    Row("cell", "n", 0, 1, "(para | table)+"),
                    Row("para", "n", 0b11, 1, "text*"),
                    Row("text", "t", 0, 1, ""),
                ],
                &[],
                &[plain],
            ),
            // inline nodes in inline nodes
            Table::new(
                "spans",
                3,
                &[
                    Row("doc", "n", 0, 1, "para+"),
                    Row("para", "n", 0b011, 1, "inl*"),
                    Row("span", "nim", 0b101, 1, "inl*"),
                    Row("dot", "lim", 0, 1, ""),
                    Row("text", "t", 0, 1, ""),
                ],
                &[("inl", "text span dot")],
                &[plain, m0, (EMOJI, 0)],
            ),
            // one kind or the other, a tail that needs its end
            Table::new(
                "either",
                1,
                &[
                    Row("doc", "n", 0, 1, "(a+ | b+) tail?"),
                    Row("a", "n", 1, 1, "text*"),
                    Row("b", "n", 0, 1, "head? (a* foot)?"),
                    Row("tail", "n", 0, 1, "(head foot)+"),
                    Row("head", "l", 0, 1, ""),
                    Row("foot", "l", 0, 1, ""),
                    Row("text", "t", 0, 1, ""),
                ],
                &[],
                &[plain],
            ),
            // a document that holds text
            Table::new(
                "line",
                3,
                &[
                    Row("doc", "n", 0b111, 1, "inl*"),
                    Row("chip", "nim", 0b110, 2, "text*"),
                    Row("at", "lim", 0, 2, ""),
                    Row("text", "t", 0, 1, ""),
                ],
                &[("inl", "text chip at")],
                &[plain, m0, ("c", 1 << 4 | 1)],
            ),
            // anything goes
            Table::new(
                "free",
                2,
                &[
                    Row("doc", "n", 0b11, 1, "any*"),
                    Row("box", "nm", 0b01, 1, "any*"),
                    Row("run", "nim", 0b11, 1, "any*"),
                    Row("bar", "lm", 0, 1, ""),
                    Row("text", "t", 0, 1, ""),
                ],
                &[("any", "box run bar text")],
                &[plain, m0],
            ),
        ]
    })
}

// ---- documents ---------------------------------------------------------------------
struct Nd {
    ty: u8,
    /// position before the node; the root has none
    pos: usize,
    end: usize,
    inner: bool,
    parent: usize,
    depth: usize,
    kids: Vec<usize>,
}
impl Nd {
    fn cstart(&self) -> usize {
        if self.parent == usize::MAX {
            0
        } else {
            self.pos + 1
        }
    }
    fn cend(&self) -> usize {
        if self.parent == usize::MAX {
            self.end
        } else {
            self.end - 1
        }
    }
}
struct D {
    root: u8,
    toks: Vec<K>,
    node: N,
    /// all nodes in document order, the root first
    nds: Vec<Nd>,
    /// innermost node with content around each position
    at: Vec<usize>,
}
impl D {
    fn new(root: u8, toks: &[K]) -> D {
        let node = build_root(root, toks);
        let mut nds = vec![Nd { ty: root, pos: 0, end: toks.len(), inner: true, parent: usize::MAX, depth: 0, kids: vec![] }];
        let mut at = vec![0];
        let mut cur = 0;
        let mut i = 0;
        let add = |nds: &mut Vec<Nd>, cur: usize, ty: u8, pos: usize, inner: bool| {
            let me = nds.len();
            let depth = nds[cur].depth + 1;
            nds.push(Nd { ty, pos, end: pos + 1, inner, parent: cur, depth, kids: vec![] });
            nds[cur].kids.push(me);
            me
        };
        while i < toks.len() {
            match toks[i] {
                K::Close => {
                    nds[cur].end = i + 1;
                    cur = nds[cur].parent;
                }
                K::Open { ty, .. } => cur = add(&mut nds, cur, ty, i, true),
                K::Leaf { ty, .. } => {
                    add(&mut nds, cur, ty, i, false);
                }
                K::Ch { .. } => {
                    if i > 0 && same_run(Some(toks[i - 1]), toks[i]) {
                        nds.last_mut().unwrap().end = i + 1;
                    } else {
                        add(&mut nds, cur, tab().text_ty(), i, false);
                    }
                }
            }
            i += 1;
            at.push(cur);
        }
        D { root, toks: toks.to_vec(), node, nds, at }
    }
    fn len(&self) -> usize {
        self.toks.len()
    }
    fn mid(&self, p: usize) -> bool {
        p < self.len() && low(self.toks[p])
    }
    fn spine(&self, pos: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut c = self.at[pos];
        while c != usize::MAX {
            v.push(c);
            c = self.nds[c].parent;
        }
        v.reverse();
        v
    }
    fn depth(&self, pos: usize) -> usize {
        self.nds[self.at[pos]].depth
    }
    fn shared(&self, from: usize, to: usize) -> usize {
        self.spine(from)
            .iter()
            .rev()
            .map(|n| &self.nds[*n])
            .find(|n| n.cstart() <= to && to <= n.cend())
            .map_or(0, |n| n.depth)
    }
    fn positions(&self) -> Vec<usize> {
        (0..=self.len()).filter(|p| !self.mid(*p)).collect()
    }
    fn show(&self) -> String {
        show(&self.toks)
    }
    /// the real nodes, in the order of `nds`
    fn refs(&self) -> Vec<&N> {
        fn go<'a>(n: &'a N, out: &mut Vec<&'a N>) {
            out.push(n);
            if let Some(c) = n.content() {
                c.children().iter().for_each(|k| go(k, out));
            }
        }
        let mut v = vec![];
        go(&self.node, &mut v);
        v
    }
}
fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} but should be {:?}", what, got, want))
    }
}
/// Compare a real document with the tokens it should have; its texts must be merged.
fn same(what: &dyn Fn() -> String, real: &N, root: u8, want: &[K]) -> Result<(), String> {
    let mut got = vec![];
    let mut info = Info::default();
    read(real, &mut got, &mut info).map_err(|e| format!("{}: {}", what(), e))?;
    let ok = got.len() == want.len() + 2
        && got[0] == K::Open { ty: root, attr: 0, marks: 0 }
        && got[got.len() - 1] == K::Close
        && got[1..got.len() - 1] == *want;
    if !ok {
        return Err(format!("{} gives {} but should give {}", what(), show(&got), show(want)));
    }
    if info.unmerged || info.empty {
        return Err(format!("{} leaves unmerged or empty texts: {:?}", what(), real));
    }
    Ok(())
}
fn same_frag(what: &dyn Fn() -> String, f: &Fragment<Any>, want: &[K]) -> Result<(), String> {
    let mut got = vec![];
    let mut info = Info::default();
    read_frag(f, &mut got, &mut info).map_err(|e| format!("{}: {}", what(), e))?;
    if got != want {
        return Err(format!("{} gives {} but should give {}", what(), show(&got), show(want)));
    }
    if info.empty {
        return Err(format!("{} leaves an empty text", what()));
    }
    Ok(())
}

// ---- positions ---------------------------------------------------------------------
fn adj(what: &str, got: Option<Cow<N>>, want: Option<&N>, part: Option<&[K]>) -> Result<(), String> {
    match (got, want, part) {
        (None, None, _) => Ok(()),
        (Some(g), Some(w), None) if *g == *w => Ok(()),
        (Some(g), Some(_), Some(p)) => {
            let mut t = vec![];
            read(&g, &mut t, &mut Info::default())?;
            eq(what, t.as_slice(), p)
        }
        (g, w, _) => Err(format!("{} is {:?} but should be {:?}", what, g, w)),
    }
}
fn at_eval(d: &D, refs: &[&N], pos: usize) -> Res {
    let rp = match d.node.resolve(pos) {
        Err(_) if pos > d.len() || d.mid(pos) => return Ok("refused"),
        Err(e) => return Err(format!("position {} was refused: {}", pos, e)),
        Ok(_) if pos > d.len() || d.mid(pos) => return Err(format!("position {} was accepted", pos)),
        Ok(rp) => rp,
    };
    let spine = d.spine(pos);
    let depth = spine.len() - 1;
    eq("before(depth + 1)", rp.before(depth + 1), Some(pos))?;
    if !std::ptr::eq(rp.parent(), refs[spine[depth]]) || !std::ptr::eq(rp.doc(), &d.node) {
        return Err("parent() or doc() is another node".into());
    }
    let mut off = 0;
    for (k, &n) in spine.iter().enumerate() {
        let nd = &d.nds[n];
        if !std::ptr::eq(rp.node(k), refs[n]) {
            return Err(format!("node({}) is {:?}", k, rp.node(k)));
        }
        eq("start", rp.start(k), nd.cstart())?;
        eq("end", rp.end(k), nd.cend())?;
        if k > 0 {
            eq("before", rp.before(k), Some(nd.pos))?;
            eq("after", rp.after(k), Some(nd.end))?;
        }
        let (i, j) = if k < depth {
            let i = nd.kids.iter().position(|c| *c == spine[k + 1]).unwrap();
            (i, i + 1)
        } else {
            let i = nd.kids.iter().position(|c| pos < d.nds[*c].end).unwrap_or(nd.kids.len());
            match nd.kids.get(i) {
                Some(c) if d.nds[*c].pos < pos => {
                    off = pos - d.nds[*c].pos;
                    (i, i + 1)
                }
                _ => (i, i),
            }
        };
        eq("index", rp.index(k), i)?;
        eq("index_after", rp.index_after(k), j)?;
    }
    eq("text_offset()", rp.text_offset(), off)?;
    let kids = &d.nds[spine[depth]].kids;
    let i = rp.index(depth);
    if off > 0 {
        let n = &d.nds[kids[i]];
        adj("node_before()", rp.node_before(), Some(refs[kids[i]]), Some(&d.toks[n.pos..pos]))?;
        adj("node_after()", rp.node_after(), Some(refs[kids[i]]), Some(&d.toks[pos..n.end]))?;
    } else {
        adj("node_before()", rp.node_before(), i.checked_sub(1).map(|i| refs[kids[i]]), None)?;
        adj("node_after()", rp.node_after(), kids.get(i).map(|i| refs[*i]), None)?;
    }
    for q in 0..=d.len() + 1 {
        let want = spine.iter().filter(|n| d.nds[**n].cstart() <= q && q <= d.nds[**n].cend()).count().max(1) - 1;
        eq("shared_depth", rp.shared_depth(q), want)?;
    }
    Ok(if off > 0 { "resolved inside text" } else { "resolved" })
}

// ---- ranges ------------------------------------------------------------------------
fn ref_slice(d: &D, from: usize, to: usize, parents: bool) -> (Vec<K>, usize, usize) {
    if from == to {
        return (vec![], 0, 0);
    }
    let base = if parents { 0 } else { d.shared(from, to) };
    let mut v: Vec<K> = d.spine(from).iter().skip(base + 1).map(|n| d.toks[d.nds[*n].pos]).collect();
    let os = v.len();
    v.extend_from_slice(&d.toks[from..to]);
    let oe = d.depth(to) - base;
    v.extend((0..oe).map(|_| K::Close));
    (v, os, oe)
}
fn visits(d: &D, from: usize, to: usize, decline: Option<usize>) -> Vec<usize> {
    fn go(d: &D, n: usize, from: usize, to: usize, decline: Option<usize>, out: &mut Vec<usize>) {
        for &k in &d.nds[n].kids {
            if d.nds[k].pos < to && d.nds[k].end > from {
                let me = out.len();
                out.push(k);
                if decline != Some(me) {
                    go(d, k, from, to, decline, out);
                }
            }
        }
    }
    let mut v = vec![];
    go(d, 0, from, to, decline, &mut v);
    v
}
fn text_of(d: &D, from: usize, to: usize, sep: Option<&str>, leaf: Option<&str>) -> String {
    let mut s = String::new();
    let mut separated = true;
    for k in visits(d, from, to, None) {
        let n = &d.nds[k];
        if n.inner {
            if !separated && !tab().specs[n.ty as usize].inline {
                s.push_str(sep.unwrap_or(""));
                separated = true;
            }
        } else if n.ty == tab().text_ty() {
            let u: Vec<u16> = d.toks[n.pos.max(from)..n.end.min(to)]
                .iter()
                .map(|k| match k {
                    K::Ch { unit, .. } => *unit,
                    _ => unreachable!(),
                })
                .collect();
            s.push_str(&String::from_utf16(&u).unwrap());
            separated = sep.is_none();
        } else {
            s.push_str(leaf.unwrap_or(""));
            separated = sep.is_none();
        }
    }
    s
}
fn range_eval(d: &D, refs: &[&N], from: usize, to: usize) -> Res {
    for parents in [false, true] {
        let want = ref_slice(d, from, to, parents);
        let s = match d.node.slice(from..to, parents) {
            Ok(s) => s,
            Err(e) => return Err(format!("slice {}..{} was refused: {}", from, to, e)),
        };
        same_frag(&|| format!("slice {}..{} ({}) of {}", from, to, parents, d.show()), &s.content, &want.0)?;
        eq("the open depths", (s.open_start, s.open_end), (want.1, want.2))?;
        // putting it back
        match d.node.replace(from..to, &s) {
            Ok(n) if n == d.node => {}
            // with parents the slice is too deep, unless nothing is shared
            Err(_) if parents && d.shared(from, to) > 0 => {}
            r => return Err(format!("putting {}..{} of {} back gives {:?}", from, to, d.show(), r)),
        }
    }
    let cut = d.node.cut(from..to);
    let (mut c, ..) = ref_slice(d, from, to, true);
    if from == to {
        let open: Vec<K> = d.spine(from).iter().skip(1).map(|n| d.toks[d.nds[*n].pos]).collect();
        // cutting nothing leaves nothing, or the nodes around the position
        let mut got = vec![];
        read(&cut, &mut got, &mut Info::default())?;
        c = got[1..got.len() - 1].to_vec();
        let mut all = open.clone();
        all.extend(open.iter().map(|_| K::Close));
        if !c.is_empty() && c != all {
            return Err(format!("cutting {}..{} of {} gives {}", from, to, d.show(), show(&c)));
        }
    }
    same_frag(&|| format!("cutting {}..{} of {}", from, to, d.show()), cut.content().unwrap(), &c)?;
    // walking
    let f = d.node.content().unwrap();
    if from < to {
        let n = visits(d, from, to, None).len();
        for decline in std::iter::once(None).chain((0..n.min(3)).map(Some)) {
            let want = visits(d, from, to, decline);
            let mut got: Vec<(usize, *const N)> = vec![];
            f.nodes_between(
                from,
                to,
                &mut |n, pos| {
                    got.push((pos, n as *const N));
                    decline != Some(got.len() - 1)
                },
                7,
            );
            if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g.0 != d.nds[*w].pos + 7 || g.1 != refs[*w] as *const N) {
                return Err(format!(
                    "walking {}..{} of {} (declining {:?}) visits {:?} but should visit {:?}",
                    from,
                    to,
                    d.show(),
                    decline,
                    got.iter().map(|g| g.0 - 7).collect::<Vec<_>>(),
                    want.iter().map(|w| d.nds[*w].pos).collect::<Vec<_>>()
                ));
            }
        }
        for (sep, leaf) in [(Some("|"), Some("*")), (None, Some("*"))] {
            let mut got = String::new();
            f.text_between(&mut got, true, from, to, sep, leaf);
            eq(&format!("text_between {}..{} {:?} of {}", from, to, sep, d.show()), got, text_of(d, from, to, sep, leaf))?;
        }
    }
    Ok(if from == to { "empty range" } else { "range" })
}

// ---- content rules -----------------------------------------------------------------
fn kid_types(kids: &[K]) -> (Vec<u8>, Vec<u16>) {
    kids.iter().filter_map(|k| child_ty(*k)).unzip()
}
/// one representative node of each type, as tokens
fn reps() -> Vec<Vec<K>> {
    let t = tab();
    let mut v = vec![];
    for (i, s) in t.specs.iter().enumerate() {
        let ty = i as u8;
        match s.kind {
            Kind::Text => {
                v.push(vec![K::Ch { unit: 97, marks: 0 }]);
                for m in 0..t.mark_types {
                    v.push(vec![K::Ch { unit: 97, marks: 1 << (2 * m) }]);
                }
            }
            Kind::Leaf => {
                v.push(vec![K::Leaf { ty, attr: 0, marks: 0 }]);
                if s.inline {
                    v.push(vec![K::Leaf { ty, attr: 0, marks: 1 }]);
                }
            }
            Kind::Inner => {
                v.push(vec![K::Open { ty, attr: 0, marks: 0 }, K::Close]);
                if s.inline {
                    v.push(vec![K::Open { ty, attr: 0, marks: 1 << 2 }, K::Close]);
                }
            }
        }
    }
    v
}
fn valid_kids(ty: u8, kids: &[Vec<K>]) -> bool {
    let heads: Vec<K> = kids.iter().map(|k| k[0]).collect();
    let (tys, ms) = kid_types(&heads);
    tab().inner(ty) && tab().ends(ty, tab().run(ty, &tys)) && ms.iter().all(|m| tab().allows(ty, *m))
}
fn frag(kids: &[Vec<K>]) -> Fragment<Any> {
    // one by one, so that neighbouring texts stay separate nodes
    Fragment::from(kids.iter().flat_map(|k| build(k)).collect::<Vec<N>>())
}
fn content_eval(ty: u8, kids: &[Vec<K>], rep: &[Vec<Vec<K>>]) -> Res {
    let n = N::Inner(AttrNode { attrs: Plain { ty, attr: 0, marks: MarkSet::default() }, content: frag(kids) });
    let t = tab();
    let heads: Vec<K> = kids.iter().map(|k| k[0]).collect();
    let (tys, _) = kid_types(&heads);
    for i in 0..=kids.len() {
        let want = t.run(ty, &tys[..i]);
        let got = n.content_match_at(i);
        match got {
            Ok(m) if want != DEAD && m == (CM { ty, st: want }) => {}
            Err(ContentMatchError::InvalidContent) if want == DEAD => {}
            g => return Err(format!("content_match_at({}) of {:?} is {:?}, should be state {}", i, n, g, want)),
        }
    }
    let name = || format!("{} of {}", t.specs[ty as usize].name, show(&kids.concat()));
    for from in 0..=kids.len() {
        for to in from..=kids.len() {
            for r in rep {
                let f = frag(r);
                for a in 0..=r.len() {
                    for b in a..=r.len() {
                        let mut k = kids[..from].to_vec();
                        k.extend_from_slice(&r[a..b]);
                        k.extend_from_slice(&kids[to..]);
                        let want = valid_kids(ty, &k);
                        let pre = t.run(ty, &tys[..from]);
                        // the marks that are there already are not judged
                        let there = kids[..from].iter().chain(&kids[to..]).all(|k| t.allows(ty, child_ty(k[0]).unwrap().1));
                        let rest = {
                            let heads: Vec<K> = k.iter().map(|k| k[0]).collect();
                            t.ends(ty, t.run(ty, &kid_types(&heads).0)) && r[a..b].iter().all(|k| t.allows(ty, child_ty(k[0]).unwrap().1))
                        };
                        match n.can_replace(from, to, Some(&f), a..b) {
                            Err(_) if pre == DEAD => {}
                            Ok(g) if pre != DEAD && (g == want || (!there && g == rest)) => {}
                            g => {
                                return Err(format!(
                                    "can {} replace {}..{} by {}: {:?}, should be {}",
                                    name(),
                                    from,
                                    to,
                                    show(&r[a..b].concat()),
                                    g,
                                    want
                                ))
                            }
                        }
                    }
                }
            }
            let mut k = kids[..from].to_vec();
            k.extend_from_slice(&kids[to..]);
            let heads: Vec<K> = k.iter().map(|k| k[0]).collect();
            let pre = t.run(ty, &tys[..from]);
            match n.can_replace(from, to, None, ..) {
                Err(_) if pre == DEAD => {}
                Ok(g) if pre != DEAD && g == t.ends(ty, t.run(ty, &kid_types(&heads).0)) => {}
                g => return Err(format!("can {} drop {}..{}: {:?}", name(), from, to, g)),
            }
        }
    }
    Ok(if valid_kids(ty, kids) { "valid content" } else { "invalid content" })
}

// ---- replacing ---------------------------------------------------------------------
fn valid_skip(root: Option<u8>, toks: &[K], skip: &[usize]) -> bool {
    let t = tab();
    // type, state, judged?
    let mut stack: Vec<(u8, u8, bool)> = vec![(root.unwrap_or(0), 0, root.is_some())];
    let mut prev = None;
    for (i, &x) in toks.iter().enumerate() {
        match child_ty(x) {
            None => {
                let (ty, st, judge) = stack.pop().unwrap();
                if judge && !t.ends(ty, st) {
                    return false;
                }
            }
            Some((c, marks)) => {
                let top = stack.last_mut().unwrap();
                if !same_run(prev, x) && top.2 {
                    top.1 = t.step(top.0, top.1, c);
                    if top.1 == DEAD || !t.allows(top.0, marks) {
                        return false;
                    }
                }
                if matches!(x, K::Open { .. }) {
                    stack.push((c, 0, !skip.contains(&i)));
                }
            }
        }
        prev = Some(x);
    }
    let (ty, st, judge) = stack[0];
    !judge || t.ends(ty, st)
}
#[derive(Clone)]
struct Sl {
    toks: Vec<K>,
    os: usize,
    oe: usize,
}
impl Sl {
    fn real(&self) -> Slice<Any> {
        Slice::new(Fragment::from(build(&self.toks)), self.os, self.oe)
    }
    fn json(&self) -> Value {
        json!([toks_json(&self.toks), self.os, self.oe])
    }
    fn from_json(v: &Value) -> Sl {
        Sl { toks: toks_from(&v[0]), os: v[1].as_u64().unwrap() as usize, oe: v[2].as_u64().unwrap() as usize }
    }
    fn show(&self) -> String {
        format!("{} ({},{})", show(&self.toks), self.os, self.oe)
    }
    fn lead(&self) -> usize {
        self.toks.iter().take_while(|k| matches!(k, K::Open { .. })).count()
    }
    fn trail(&self) -> usize {
        self.toks.iter().rev().take_while(|k| **k == K::Close).count()
    }
    fn wellformed(&self) -> bool {
        self.os <= self.lead() && self.oe <= self.trail()
    }
    /// openings that belong to the last `oe` closings, outermost first
    fn right(&self) -> Vec<usize> {
        let mut stack = vec![];
        let mut v = vec![];
        for (i, x) in self.toks.iter().enumerate() {
            match x {
                K::Open { .. } => stack.push(i),
                K::Close => {
                    let o = stack.pop().unwrap();
                    if i >= self.toks.len() - self.oe {
                        v.push(o);
                    }
                }
                _ => {}
            }
        }
        v.reverse();
        v
    }
    fn skip(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.os).collect();
        v.extend(self.right());
        v
    }
    fn closed_valid(&self) -> bool {
        valid_skip(None, &self.toks, &self.skip())
    }
}
#[derive(Default, PartialEq, Debug)]
struct Why {
    deep: bool,
    depths: bool,
    join: bool,
    content: bool,
}
fn splice(d: &D, from: usize, to: usize, s: &Sl) -> Vec<K> {
    let mut v = d.toks[..from].to_vec();
    v.extend_from_slice(&s.toks[s.os..s.toks.len() - s.oe]);
    v.extend_from_slice(&d.toks[to..]);
    v
}
fn ref_replace(d: &D, from: usize, to: usize, s: &Sl) -> Result<Vec<K>, Why> {
    let (df, dt) = (d.depth(from), d.depth(to));
    let mut why = Why { deep: s.os > df, ..Why::default() };
    why.depths = df as i64 - s.os as i64 != dt as i64 - s.oe as i64;
    if why != Why::default() {
        return Err(why);
    }
    let (l, r) = (d.spine(from), d.spine(to));
    let ty = |i: usize| d.nds[i].ty;
    let sty = |i: usize| child_ty(s.toks[i]).unwrap().0;
    let base = df - s.os;
    let t = tab();
    let till = if s.toks.is_empty() { df } else { base };
    for k in 1..=till {
        why.join |= l[k] != r[k] && !t.compat(ty(r[k]), ty(l[k]));
    }
    if !s.toks.is_empty() {
        let right = s.right();
        for k in base + 1..=df {
            why.join |= !t.compat(sty(k - base - 1), ty(l[k]));
        }
        for k in base + 1..=dt {
            why.join |= !t.compat(ty(r[k]), sty(right[k - base - 1]));
        }
    }
    let v = splice(d, from, to, s);
    why.content = !valid_skip(Some(d.root), &v, &[]);
    if why == Why::default() {
        Ok(v)
    } else {
        Err(why)
    }
}
fn why_allows(w: &Why, e: &ReplaceError<Any>) -> bool {
    match e {
        ReplaceError::InsertTooDeep => w.deep,
        ReplaceError::InconsistentOpenDepths { .. } => w.depths,
        ReplaceError::CannotJoin(..) => w.join,
        ReplaceError::InvalidContent(..) => w.content,
        ReplaceError::Resolve(_) => false,
    }
}
fn has_content(toks: &[K]) -> bool {
    let mut opened = false;
    for x in toks {
        match x {
            K::Open { .. } => opened = true,
            K::Close if !opened => {}
            _ => return true,
        }
    }
    false
}
fn replace_eval(d: &D, s: &Sl, real: &Slice<Any>, closed: bool, from: usize, to: usize) -> Res {
    let what = || format!("replacing {}..{} of {} by {}", from, to, d.show(), s.show());
    let got = d.node.replace(from..to, real);
    let structural = Step::Replace(ReplaceStep { span: Span { from, to }, slice: Slice::new(real.content.clone(), s.os, s.oe), structure: true }).apply(&d.node);
    match (&structural, has_content(&d.toks[from..to]), &got) {
        (Err(_), true, _) => {}
        (Ok(a), false, Ok(b)) if a == b => {}
        (Err(StepError::WouldOverwrite), false, _) => return Err(format!("{} as a structural step is refused but overwrites nothing", what())),
        (Err(_), false, Err(_)) => {}
        _ => return Err(format!("{} as a structural step gives {:?}", what(), structural)),
    }
    match (ref_replace(d, from, to, s), got) {
        (Ok(w), Ok(g)) => {
            same(&what, &g, d.root, &w)?;
            Ok("replaced")
        }
        (Err(w), Err(e)) if why_allows(&w, &e) => Ok("refused"),
        (Err(w), Ok(g)) if !closed && w == (Why { content: true, ..Why::default() }) => {
            // the nodes that the slice brings along complete are not checked again
            same(&what, &g, d.root, &splice(d, from, to, s))?;
            Ok("replaced, the slice is invalid in itself")
        }
        (Ok(_), Err(e)) => Err(format!("{} is refused: {}", what(), e)),
        (Err(w), Ok(g)) => Err(format!("{} gives {:?} but has to be refused: {:?}", what(), g, w)),
        (Err(w), Err(e)) => Err(format!("{} is refused because of {:?}, not of {:?}", what(), e, w)),
    }
}

// ---- marks -------------------------------------------------------------------------
fn mark_eval(d: &D, from: usize, to: usize, m: &Mk, add: bool) -> Res {
    let t = tab();
    let mut want = d.toks.clone();
    for (i, k) in want.iter_mut().enumerate().take(to).skip(from) {
        let parent = d.nds[d.at[i]].ty;
        let f = |id: u16| {
            if !add {
                mark_remove(id, m)
            } else if t.specs[parent as usize].marks & 1 << m.t != 0 {
                mark_add(id, m)
            } else {
                id
            }
        };
        match k {
            K::Ch { marks, .. } => *marks = f(*marks),
            K::Open { ty, marks, .. } | K::Leaf { ty, marks, .. } if t.specs[*ty as usize].inline => *marks = f(*marks),
            _ => {}
        }
    }
    let span = Span { from, to };
    let st: Step<Any> = if add {
        Step::AddMark(AddMarkStep { span, mark: m.clone() })
    } else {
        Step::RemoveMark(RemoveMarkStep { span, mark: m.clone() })
    };
    let what = || format!("{} {:?} at {}..{} of {}", if add { "adding" } else { "removing" }, m, from, to, d.show());
    match st.apply(&d.node) {
        Ok(n) => same(&what, &n, d.root, &want)?,
        Err(e) => return Err(format!("{} is refused: {}", what(), e)),
    }
    Ok(if want == d.toks { "no change" } else { "marks changed" })
}

/// May the children of the node opened at `p` carry the marks they carry?
fn marks_fine(toks: &[K], p: usize) -> bool {
    let ty = child_ty(toks[p]).unwrap().0;
    let mut depth = 0;
    for x in &toks[p + 1..] {
        if depth == 0 {
            if let Some((_, m)) = child_ty(*x) {
                if !tab().allows(ty, m) {
                    return false;
                }
            }
        }
        match x {
            K::Open { .. } => depth += 1,
            K::Close if depth == 0 => break,
            K::Close => depth -= 1,
            _ => {}
        }
    }
    true
}

// ---- replace around ----------------------------------------------------------------
fn around_eval(d: &D, s: &Sl, a: &super::steps::Ar) -> Res {
    let st = Step::ReplaceAround(ReplaceAroundStep {
        span: Span { from: a.from, to: a.to },
        gap_from: a.gf,
        gap_to: a.gt,
        slice: s.real(),
        insert: a.insert,
        structure: a.structure,
    });
    let got: StepResult<Any> = st.apply(&d.node);
    let what = || format!("{:?} with {} on {}", a, s.show(), d.show());
    let refuse = |why: &str, got: &StepResult<Any>| match got {
        Err(_) => Ok("refused"),
        Ok(n) => Err(format!("{} gives {:?} but has to be refused: {}", what(), n, why)),
    };
    if a.structure && (has_content(&d.toks[a.from..a.gf]) || has_content(&d.toks[a.gt..a.to])) {
        return match got {
            Err(_) => Ok("overwrites"),
            _ => Err(format!("{} overwrites content but gives {:?}", what(), got)),
        };
    }
    let (_, o1, o2) = ref_slice(d, a.gf, a.gt, false);
    if o1 != 0 || o2 != 0 {
        return refuse("the gap is not flat", &got);
    }
    let k = a.insert + s.os;
    if k > s.toks.len() || (k < s.toks.len() && low(s.toks[k])) {
        return refuse("nothing can be inserted there", &got);
    }
    let mut toks = s.toks[..k].to_vec();
    toks.extend_from_slice(&d.toks[a.gf..a.gt]);
    toks.extend_from_slice(&s.toks[k..]);
    let full = Sl { toks, os: s.os, oe: s.oe };
    if !full.wellformed() {
        return refuse("the open nodes are gone", &got);
    }
    match ref_replace(d, a.from, a.to, &full) {
        Err(w) if w.deep || w.depths || w.join => refuse("it does not fit", &got),
        res => {
            if !full.closed_valid() {
                let mut stack = vec![];
                for (i, x) in s.toks[..k].iter().enumerate() {
                    match x {
                        K::Open { .. } => stack.push(i),
                        K::Close => {
                            stack.pop();
                        }
                        _ => {}
                    }
                }
                let mut skip = full.skip();
                if let Some(p) = stack.last() {
                    if !skip.contains(p) && marks_fine(&s.toks, *p) {
                        skip.push(*p);
                        if valid_skip(None, &full.toks, &skip) {
                            return refuse("the gap may not stand where it is put", &got);
                        }
                    }
                }
                if let Ok(n) = &got {
                    same(&what, n, d.root, &splice(d, a.from, a.to, &full))?;
                }
                return Ok("the slice is invalid in itself");
            }
            match (res, got) {
                (Ok(w), Ok(g)) => {
                    same(&what, &g, d.root, &w)?;
                    Ok("replaced around")
                }
                (Err(_), Err(_)) => Ok("refused"),
                (Ok(_), Err(e)) => Err(format!("{} is refused: {}", what(), e)),
                (Err(_), Ok(g)) => Err(format!("{} gives invalid {:?}", what(), g)),
            }
        }
    }
}

// ---- JSON --------------------------------------------------------------------------
fn json_eval(d: &D) -> Res {
    let s = serde_json::to_string(&d.node).map_err(|e| e.to_string())?;
    match serde_json::from_str::<N>(&s) {
        Ok(n) if n == d.node => {}
        r => return Err(format!("{} is read back as {:?}", s, r)),
    }
    for (from, to) in [(0, d.len()), (d.len() / 3, d.len())] {
        if d.mid(from) {
            continue;
        }
        let slice = d.node.slice(from..to, false).map_err(|e| e.to_string())?;
        let copy = Slice::new(slice.content.clone(), slice.open_start, slice.open_end);
        for st in [
            Step::Replace(ReplaceStep { span: Span { from, to }, slice, structure: true }),
            Step::ReplaceAround(ReplaceAroundStep { span: Span { from, to }, gap_from: from, gap_to: to, slice: copy, insert: 1, structure: false }),
            Step::AddMark(AddMarkStep { span: Span { from, to }, mark: Mk { t: 0, v: 2 } }),
            Step::RemoveMark(RemoveMarkStep { span: Span { from, to }, mark: Mk { t: 1, v: 1 } }),
        ] {
            let s = serde_json::to_string(&st).map_err(|e| e.to_string())?;
            match serde_json::from_str::<Step<Any>>(&s) {
                Ok(n) if n == st => {
                    let (a, b) = (st.apply(&d.node).ok(), n.apply(&d.node).ok());
                    if a != b {
                        return Err(format!("{} applies differently once read back", s));
                    }
                }
                r => return Err(format!("{} is read back as {:?}", s, r)),
            }
        }
    }
    Ok("written and read")
}

// ---- exploration -------------------------------------------------------------------
/// Documents by size, as many sizes as fit into the budget.
fn docs_upto(budget: usize, max: usize) -> Vec<Vec<K>> {
    let mut v = vec![];
    for n in 0..=max {
        let next = contents(0, n);
        if v.len() + next.len() > budget {
            break;
        }
        v.extend(next);
    }
    v
}
fn doc_slices(docs: &[Vec<K>], budget: usize) -> Vec<Sl> {
    let mut seen = HashSet::new();
    let mut v = vec![Sl { toks: vec![], os: 0, oe: 0 }];
    for t in docs {
        let d = D::new(0, t);
        let ps = d.positions();
        for &from in &ps {
            for &to in ps.iter().filter(|p| **p > from) {
                for parents in [false, true] {
                    let (toks, os, oe) = ref_slice(&d, from, to, parents);
                    if seen.insert((toks.clone(), os, oe)) {
                        v.push(Sl { toks, os, oe });
                        if v.len() >= budget {
                            return v;
                        }
                    }
                }
            }
        }
    }
    v
}
fn wild_slices(max: usize, budget: usize) -> Vec<Sl> {
    let mut v = vec![];
    let mut all = wild(max);
    all.sort_by_key(|t| t.len());
    for toks in all {
        let s = Sl { toks, os: 0, oe: 0 };
        for os in 0..=s.lead() {
            for oe in 0..=s.trail() {
                v.push(Sl { os, oe, ..s.clone() });
            }
        }
        if v.len() >= budget {
            break;
        }
    }
    v
}
/// Documents with many children, long texts or deep nests: runs of siblings of small
/// documents repeated, and nodes nested into themselves, where the schema allows it.
fn wide_docs(small: &[Vec<K>], times: &[usize], each: usize) -> Vec<Vec<K>> {
    let mut v: Vec<Vec<K>> = vec![];
    let mut seen = HashSet::new();
    for &n in times {
        // of every kind of run, by the types in it, only so many
        let mut kinds: HashMap<Vec<(u8, bool)>, usize> = HashMap::new();
        for t in small.iter().rev() {
            let d = D::new(0, t);
            let ps = d.positions();
            for &i in &ps {
                for &j in ps.iter().filter(|p| **p > i && d.at[**p] == d.at[i]) {
                    let run: Vec<(u8, bool)> = std::iter::once((d.nds[d.at[i]].ty, false))
                        .chain(t[i..j].iter().filter_map(|k| child_ty(*k)).map(|x| (x.0, x.1 != 0)))
                        .collect();
                    let k = kinds.entry(run).or_insert(0);
                    if *k >= each {
                        continue;
                    }
                    for nested in [false, true] {
                        let x = if nested {
                            // the run inside copies of what is around it
                            let me = &d.nds[d.at[i]];
                            if me.parent == usize::MAX || n > 70 {
                                continue;
                            }
                            let (head, tail) = (&t[me.pos..i], &t[i..me.end]);
                            [&t[..me.pos], &head.repeat(n)[..], &tail.repeat(n)[..], &t[me.end..]].concat()
                        } else {
                            [&t[..i], &t[i..j].repeat(n)[..], &t[j..]].concat()
                        };
                        if valid_skip(Some(0), &x, &[]) && seen.insert(x.clone()) {
                            *k += 1;
                            v.push(x);
                        }
                    }
                }
            }
        }
    }
    v
}
/// The positions of a document near its ends, powers of two and every boundary of the first,
/// last and middle children, at most so many.
fn some_positions(d: &D, max: usize) -> Vec<usize> {
    let n = d.len();
    let mut v: Vec<usize> = (0..=4.min(n)).chain(n.saturating_sub(4)..=n).collect();
    for nd in d.nds.iter().filter(|x| x.inner) {
        let m = nd.kids.len();
        for i in [0, m.wrapping_sub(1), m / 2, 16, 32, 64, 128, 1, 15, 31, 33, 63, 65, 127, 129] {
            if let Some(k) = nd.kids.get(i) {
                let k = &d.nds[*k];
                v.extend([k.pos, k.end, k.pos + 1, k.end - 1]);
            }
        }
        if v.len() > 4 * max {
            break;
        }
    }
    let mut seen = HashSet::new();
    v.retain(|p| !d.mid(*p) && seen.insert(*p));
    v.truncate(max);
    v.sort_unstable();
    v
}
struct Made {
    s: Sl,
    real: Slice<Any>,
    closed: bool,
}
fn made(v: Vec<Sl>) -> Vec<Made> {
    v.into_iter().map(|s| Made { real: s.real(), closed: s.closed_valid(), s }).collect()
}
pub fn c23(e: &Engine) {
    for (si, t) in schemas().iter().enumerate() {
        use_table(t);
        let base = |kind: &str| json!({"property": "C23", "schema": si, "kind": kind});
        let with = |kind: &str, more: Value| {
            let mut b = base(kind);
            b.as_object_mut().unwrap().extend(more.as_object().unwrap().clone());
            b
        };
        let phase = |p: &str| format!("{}-{}", t.name, p);
        let docs = docs_upto(e.q(6_000, 60_000), 40);
        e.par(&phase("ranges"), &docs, |c, toks| {
            let d = D::new(0, toks);
            let refs = d.refs();
            c.state();
            for pos in (0..=d.len() + 1).chain([usize::MAX]) {
                c.ops(1);
                c.case(|| with("pos", json!({"doc": toks_json(toks), "pos": pos})), || at_eval(&d, &refs, pos));
            }
            let ps = d.positions();
            for &from in &ps {
                for &to in ps.iter().filter(|p| **p >= from) {
                    c.ops(8);
                    c.case(|| with("range", json!({"doc": toks_json(toks), "from": from, "to": to})), || range_eval(&d, &refs, from, to));
                }
            }
            c.ops(10);
            c.case(|| with("json", json!({"doc": toks_json(toks)})), || json_eval(&d));
        });
        // marks
        let marks: Vec<Mk> = (0..t.mark_types).flat_map(|t| [Mk { t, v: 1 }, Mk { t, v: 2 }]).collect();
        e.par(&phase("marks"), &docs, |c, toks| {
            let d = D::new(0, toks);
            c.state();
            let ps = d.positions();
            for &from in &ps {
                for &to in ps.iter().filter(|p| **p >= from) {
                    for m in &marks {
                        for add in [true, false] {
                            c.ops(1);
                            c.case(
                                || with("mark", json!({"doc": toks_json(toks), "from": from, "to": to, "t": m.t, "v": m.v, "add": add})),
                                || mark_eval(&d, from, to, m, add),
                            );
                        }
                    }
                }
            }
        });
        // wide, long and deep
        let wide = wide_docs(&docs_upto(300, 7), e.q(&[37, 130], &[12, 20, 33, 70, 130, 300]), e.q(1, 2));
        let mut wsl = doc_slices(&docs_upto(40, 40), e.q(30, 60));
        for w in wide.iter().step_by(5) {
            let d = D::new(0, w);
            let ps = some_positions(&d, 12);
            for i in 0..ps.len() {
                let (toks, os, oe) = ref_slice(&d, ps[i], ps[ps.len() - 1 - i / 2].max(ps[i]), false);
                if wsl.len() < e.q(70, 140) {
                    wsl.push(Sl { toks, os, oe });
                }
            }
        }
        let wsl = made(wsl);
        e.par(&phase("wide"), &wide, |c, toks| {
            let d = D::new(0, toks);
            let refs = d.refs();
            c.state();
            let ps = some_positions(&d, e.q(18, 36));
            for &pos in &ps {
                c.ops(1);
                c.case(|| with("pos", json!({"doc": toks_json(toks), "pos": pos})), || at_eval(&d, &refs, pos));
            }
            let deep = d.nds.iter().map(|x| x.depth).max().unwrap_or(0) > 50;
            if !deep {
                c.case(|| with("json", json!({"doc": toks_json(toks)})), || json_eval(&d));
            }
            for &from in &ps {
                for &to in ps.iter().filter(|p| **p >= from) {
                    c.ops(8);
                    c.case(|| with("range", json!({"doc": toks_json(toks), "from": from, "to": to})), || range_eval(&d, &refs, from, to));
                    for (k, m) in marks.iter().enumerate() {
                        let add = (from + to + k) % 2 == 0;
                        c.ops(1);
                        c.case(
                            || with("mark", json!({"doc": toks_json(toks), "from": from, "to": to, "t": m.t, "v": m.v, "add": add})),
                            || mark_eval(&d, from, to, m, add),
                        );
                    }
                    for (k, m) in wsl.iter().enumerate() {
                        if !e.thorough() && (k + from + to) % 3 > 0 {
                            continue;
                        }
                        if m.s.os > d.depth(from) || d.depth(from) + m.s.oe != d.depth(to) + m.s.os {
                            continue;
                        }
                        c.ops(2);
                        c.case(
                            || with("replace", json!({"doc": toks_json(&d.toks), "slice": m.s.json(), "from": from, "to": to})),
                            || replace_eval(&d, &m.s, &m.real, m.closed, from, to),
                        );
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        });
        // content rules
        let reps = reps();
        let mut seqs: Vec<Vec<Vec<K>>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..e.q(3, 4) {
            let to = seqs.len();
            for i in from..to {
                for r in &reps {
                    let mut x = seqs[i].clone();
                    x.push(r.clone());
                    seqs.push(x);
                }
            }
            from = to;
        }
        let repl: Vec<Vec<Vec<K>>> = seqs.iter().filter(|s| s.len() <= 2).step_by(e.q(3, 1)).cloned().collect();
        e.par(&phase("content"), &seqs, |c, kids| {
            for (i, s) in t.specs.iter().enumerate() {
                if s.kind != Kind::Inner {
                    continue;
                }
                c.state();
                let r: &[Vec<Vec<K>>] = if kids.len() <= 2 { &repl } else { &repl[..repl.len().min(5)] };
                c.ops(r.len() * 30);
                c.case(
                    || with("content", json!({"ty": i, "kids": kids.iter().map(|k| toks_json(k)).collect::<Vec<_>>(), "few": kids.len() > 2})),
                    || content_eval(i as u8, kids, r),
                );
            }
            for a in 0..t.specs.len() as u8 {
                // judged once per schema
                if kids.is_empty() && !NT(a).compatible_content(NT(a)) {
                    panic!("the harness schema is wrong");
                }
            }
        });
        // replacing, with slices of documents and with anything
        let docs = docs_upto(e.q(700, 3_000), 40);
        let small = docs_upto(e.q(150, 600), 40);
        let mut sl = doc_slices(&small, e.q(700, 3_000));
        sl.extend(wild_slices(e.q(4, 5), e.q(500, 3_000)));
        let sl = made(sl);
        let sp: Vec<D> = docs.iter().map(|t| D::new(0, t)).collect();
        let items: Vec<(usize, usize)> = sp.iter().enumerate().flat_map(|(i, d)| d.positions().into_iter().map(move |p| (i, p))).collect();
        e.par(&phase("replace"), &items, |c, &(i, from)| {
            let d = &sp[i];
            if from == 0 {
                c.state();
            }
            for to in d.positions().into_iter().filter(|p| *p >= from) {
                for m in &sl {
                    // slices of impossible depths are for C08 and C05
                    if m.s.os > d.depth(from) + 1 || m.s.oe > d.depth(to) + 1 {
                        continue;
                    }
                    c.ops(2);
                    c.case(
                        || with("replace", json!({"doc": toks_json(&d.toks), "slice": m.s.json(), "from": from, "to": to})),
                        || replace_eval(d, &m.s, &m.real, m.closed, from, to),
                    );
                }
                if c.stopped() {
                    return;
                }
            }
        });
        // replacing around
        let docs = docs_upto(e.q(120, 500), 40);
        let mut sl = doc_slices(&docs_upto(40, 40), e.q(60, 300));
        sl.extend(wild_slices(e.q(4, 4), e.q(150, 600)));
        let sp: Vec<D> = docs.iter().map(|t| D::new(0, t)).collect();
        let items: Vec<(usize, usize)> = sp.iter().enumerate().flat_map(|(i, d)| d.positions().into_iter().map(move |p| (i, p))).collect();
        e.par(&phase("around"), &items, |c, &(i, from)| {
            let d = &sp[i];
            if from == 0 {
                c.state();
            }
            let ps = d.positions();
            for &gf in ps.iter().filter(|p| **p >= from) {
                for &gt in ps.iter().filter(|p| **p >= gf) {
                    for &to in ps.iter().filter(|p| **p >= gt) {
                        for s in &sl {
                            if s.os > d.depth(from) || d.depth(from) + s.oe != d.depth(to) + s.os {
                                continue;
                            }
                            for insert in 0..=s.toks.len().saturating_sub(s.os) {
                                for structure in [false, true] {
                                    let a = super::steps::Ar { from, to, gf, gt, insert, structure };
                                    c.ops(1);
                                    c.case(
                                        || with("around", json!({"doc": toks_json(&d.toks), "slice": s.json(), "step": a.json()})),
                                        || around_eval(d, s, &a),
                                    );
                                }
                            }
                        }
                        if c.stopped() {
                            return;
                        }
                    }
                }
            }
        });
    }
}
pub fn c23_replay(v: &Value) -> Res {
    use_table(&schemas()[ju(v, "schema")]);
    if v["kind"] == json!("content") {
        let kids: Vec<Vec<K>> = v["kids"].as_array().unwrap().iter().map(toks_from).collect();
        let reps = reps();
        let mut seqs = vec![vec![]];
        seqs.extend(reps.iter().map(|a| vec![a.clone()]));
        for a in &reps {
            seqs.extend(reps.iter().map(|b| vec![a.clone(), b.clone()]));
        }
        return content_eval(ju(v, "ty") as u8, &kids, &seqs);
    }
    let d = D::new(0, &toks_from(&v["doc"]));
    let (from, to) = (ju(v, "from"), ju(v, "to"));
    match v["kind"].as_str().unwrap() {
        "pos" => at_eval(&d, &d.refs(), v["pos"].as_u64().unwrap() as usize),
        "range" => range_eval(&d, &d.refs(), from, to),
        "json" => json_eval(&d),
        "mark" => mark_eval(&d, from, to, &Mk { t: ju(v, "t") as u8, v: ju(v, "v") as u8 }, v["add"] == json!(true)),
        "replace" => {
            let s = Sl::from_json(&v["slice"]);
            replace_eval(&d, &s, &s.real(), s.closed_valid(), from, to)
        }
        _ => around_eval(&d, &Sl::from_json(&v["slice"]), &super::steps::Ar::from_json(&v["step"])),
    }
}
