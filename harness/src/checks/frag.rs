//! C16 cutting and appending, C17 traversal and text extraction.
use super::*;
use prosemirror::markdown::{MarkdownNode, MD};
use prosemirror::model::{Fragment, Node, Text};

fn toks_of(f: &Fragment<MD>) -> Result<(Vec<Tok>, ReadInfo), String> {
    let (mut v, mut i) = (vec![], ReadInfo::default());
    read_fragment(f, &mut v, &mut i)?;
    Ok((v, i))
}
fn toks_kids(kids: &[T]) -> Vec<Tok> {
    t(Head::Doc, kids.to_vec()).content_toks()
}
fn expect(f: &Fragment<MD>, want: &[Tok], normal: bool, what: &dyn Fn() -> String) -> Result<(), String> {
    let (got, info) = toks_of(f).map_err(|e| format!("{}: {}", what(), e))?;
    if got != want {
        return Err(format!("{} gives {} but should give {}", what(), show_toks(&got), show_toks(want)));
    }
    if normal && (info.unmerged || info.empty_text) {
        return Err(format!("{} gives empty or unmerged texts: {:?}", what(), f));
    }
    Ok(())
}

// ---- C16 ---------------------------------------------------------------------------
/// One fragment of a document with its content as a document of its own.
pub fn c16_cut(d: &DocCtx, from: usize, to: usize) -> Res {
    let f = match d.node.content() {
        Some(f) => f,
        None => return Ok("leaf"),
    };
    let want = ref_slice(d, from, to, true).0;
    let what = |r: &str| format!("cut({}) with {}..{} of {}", r, from, to, d.show());
    expect(&f.cut(from..to), &want, true, &|| what("from..to"))?;
    if to > from {
        expect(&f.cut(from..=to - 1), &want, true, &|| what("from..=to-1"))?;
    }
    if from == 0 {
        expect(&f.cut(..to), &want, true, &|| what("..to"))?;
    }
    if to == d.len() {
        expect(&f.cut(from..), &want, true, &|| what("from.."))?;
    }
    let n = d.node.cut(from..to);
    if T::from_real_head(&n) != d.t.head {
        return Err(format!("{}: the node becomes {:?}", what("node"), n.r#type()));
    }
    expect(n.content().unwrap(), &want, true, &|| what("node"))?;
    if to == d.len() {
        expect(d.node.cut(from..).content().unwrap(), &want, true, &|| what("node from.."))?;
    }
    if from == 0 {
        expect(d.node.cut(..to).content().unwrap(), &want, true, &|| what("node ..to"))?;
    }
    // cutting the cut further is cutting once
    let (a, b) = (d.depth(from), d.depth(to));
    if a == 0 && b == 0 {
        let len = to - from;
        for k in 0..=len {
            if d.mid(from + k) || d.depth(from + k) != 0 {
                continue;
            }
            let once = f.cut(from..from + k);
            if f.cut(from..to).cut(..k) != once {
                return Err(format!("{}: cutting it again at {} differs from cutting once", what(""), k));
            }
        }
    }
    // two halves
    if from == to && a == 0 {
        let whole = f.cut(..from).append(f.cut(to..));
        expect(&whole, &d.toks, true, &|| format!("appending the halves of {} at {}", d.show(), from))?;
        if &whole != f {
            return Err(format!("appending the halves of {} at {} gives {:?}", d.show(), from, whole));
        }
        return Ok("cut in two and joined");
    }
    // three parts
    if a == 0 && b == 0 {
        let whole = f.cut(..from).append(f.cut(from..to)).append(f.cut(to..));
        if &whole != f {
            return Err(format!("appending the thirds of {} at {} and {} gives {:?}", d.show(), from, to, whole));
        }
        return Ok("cut in three and joined");
    }
    Ok("cut")
}
pub fn c16_access(d: &DocCtx) -> Res {
    let n = &d.node;
    let f = match n.content() {
        Some(f) => f,
        None => return Ok("leaf"),
    };
    let k = d.t.kids.len();
    let real: Vec<MarkdownNode> = d.t.kids.iter().map(T::real).collect();
    if f.children() != &real[..]
        || f.child_count() != k
        || n.child_count() != k
        || f.first_child() != real.first()
        || f.last_child() != real.last()
        || n.first_child() != real.first()
    {
        return Err(format!("the children of {} are misreported", d.show()));
    }
    for i in 0..k + 2 {
        if f.maybe_child(i) != real.get(i) || n.maybe_child(i) != real.get(i) {
            return Err(format!("child {} of {} is misreported", i, d.show()));
        }
        if i < k && (f.child(i) != &real[i] || n.child(i) != Some(&real[i])) {
            return Err(format!("child {} of {} is misreported", i, d.show()));
        }
    }
    if Fragment::<MD>::from(real.clone()) != *f || Vec::<MarkdownNode>::from(f.clone()) != real {
        return Err(format!("converting the content of {} to a vector and back changes it", d.show()));
    }
    if n.copy(|c| c.clone()) != *n {
        return Err(format!("copying {} changes it", d.show()));
    }
    Ok("children")
}
pub fn c16_replace_child(d: &DocCtx, i: usize, x: &T) -> Res {
    let f = d.node.content().unwrap();
    let mut kids = d.t.kids.clone();
    kids[i] = x.clone();
    let want = toks_kids(&kids);
    let r = f.replace_child(i, x.real());
    expect(&r, &want, false, &|| format!("replacing child {} of {} by {}", i, d.show(), x.show()))?;
    if r.children() != &kids.iter().map(T::real).collect::<Vec<_>>()[..] {
        return Err(format!("replacing child {} of {} by {} changes other children", i, d.show(), x.show()));
    }
    Ok("child replaced")
}
pub fn c16_append(a: &[T], b: &[T], c: &[T]) -> Res {
    let r = |k: &[T]| real_fragment(k);
    let show = |k: &[T]| k.iter().map(T::show).collect::<Vec<_>>().join(", ");
    let what = || format!("[{}] + [{}] + [{}]", show(a), show(b), show(c));
    let mut want = toks_kids(a);
    want.extend(toks_kids(b));
    want.extend(toks_kids(c));
    let l = r(a).append(r(b)).append(r(c));
    expect(&l, &want, true, &what)?;
    let rr = r(a).append(r(b).append(r(c)));
    expect(&rr, &want, true, &what)?;
    if l != rr {
        return Err(format!("{}: not associative", what()));
    }
    if c.is_empty() {
        let one = r(a).append(r(b));
        if one.clone().append(Fragment::new()) != one || Fragment::new().append(one.clone()) != one {
            return Err(format!("{}: appending nothing changes it", what()));
        }
    }
    Ok("appended")
}
pub fn c16_text(a: &str, b: &str) -> Res {
    let (x, y) = (Text::from(a.to_string()), Text::from(b.to_string()));
    let j = x.join(&y);
    let s = format!("{}{}", a, b);
    let n = s.encode_utf16().count();
    if j.as_str() != s || j.len_utf16() != n || j != Text::from(s.clone()) {
        return Err(format!("{:?} joined with {:?} is {:?}", a, b, j));
    }
    if x.as_str() != a || x.len_utf16() != a.encode_utf16().count() {
        return Err(format!("{:?} is kept as {:?}", a, x));
    }
    // cutting a text node
    let whole = DocCtx::new(&doc(vec![ps(&s)]));
    let some: Vec<usize> = if n > 60 {
        let mut e = edge_positions_n(&whole, 40);
        if n > 9000 {
            e = e.into_iter().step_by(3).collect();
        }
        let mut v: Vec<usize> = e.iter().map(|x| x.saturating_sub(1).min(n)).collect();
        let m = a.encode_utf16().count();
        v.extend([m.saturating_sub(1), m, (m + 1).min(n)]);
        v.sort_unstable();
        v.dedup();
        v
    } else {
        (0..=n).collect()
    };
    for m in [vec![], vec![M::Em, link("x")]] {
        let node = mtext(&s, &m).real();
        for &from in &some {
            for &to in some.iter().filter(|x| **x >= from) {
                if whole.mid(from + 1) || whole.mid(to + 1) {
                    continue;
                }
                let u: Vec<u16> = s.encode_utf16().skip(from).take(to - from).collect();
                let want = mtext(&String::from_utf16(&u).unwrap(), &m).real();
                let mut got = vec![node.cut(from..to)];
                if to == n {
                    got.push(node.cut(from..));
                }
                if from == 0 {
                    got.push(node.cut(..to));
                }
                if got.iter().any(|g| **g != want) {
                    return Err(format!("cutting {}..{} of {:?} gives {:?}", from, to, node, got));
                }
            }
        }
    }
    Ok("joined and cut")
}
/// Short sequences of children to append.
fn parts() -> Vec<Vec<T>> {
    let inl = [text("a"), mtext("b", &[M::Em]), mtext("c", &[M::Em, link("x")]), text(EMOJI), br()];
    let mut v: Vec<Vec<T>> = vec![vec![]];
    for a in &inl {
        v.push(vec![a.clone()]);
        for b in &inl {
            let two = vec![a.clone(), b.clone()];
            let n = doc(two).normal().kids;
            if !v.contains(&n) {
                v.push(n);
            }
        }
    }
    v.push(vec![ps("a")]);
    v.push(vec![ps("a"), ps("b")]);
    v.push(vec![hr(), bq(vec![ps("")])]);
    v.push(vec![text("a"), br(), mtext("b", &[M::Em]), text("c")]);
    v
}
fn c16_doc(c: &mut Ctx, t: &T) {
    let d = DocCtx::new(t);
    c.state();
    c.case(|| json!({"property": "C16", "kind": "access", "doc": t.json()}), || c16_access(&d));
    let ps = good_positions(&d, 200, 90);
    for &from in &ps {
        for &to in ps.iter().filter(|x| **x >= from) {
            c.ops(4);
            c.case(
                || json!({"property": "C16", "kind": "cut", "doc": t.json(), "from": from, "to": to}),
                || c16_cut(&d, from, to),
            );
        }
    }
}
pub fn c16(e: &Engine) {
    let mut docs = docset(
        &[
            (pal_struct(), e.q(11, 13)),
            (pal_blocks(), e.q(7, 8)),
            (pal_attrs(), e.q(5, 6)),
            (pal_inline(), e.q(6, 7)),
            (pal_marks(), e.q(5, 6)),
            (pal_two(), e.q(9, 11)),
        ],
        e.q(4, 6),
    );
    // the contents of inner nodes, as roots of their own
    let mut inner: Vec<T> = vec![];
    let mut seen: HashSet<(Ty, Vec<Tok>)> = HashSet::new();
    fn collect(x: &T, out: &mut Vec<T>, seen: &mut HashSet<(Ty, Vec<Tok>)>) {
        for k in &x.kids {
            if !k.ty().leaf() {
                if seen.insert((k.ty(), k.content_toks())) {
                    out.push(k.clone());
                }
                collect(k, out, seen);
            }
        }
    }
    for d in &docs {
        collect(d, &mut inner, &mut seen);
    }
    docs.extend(inner);
    docs.extend(all_values(e.thorough()));
    docs.extend(length_docs(e.q(6, 9)));
    docs.extend(huge_docs());
    docs.extend(large_docs(e.thorough()).into_iter().filter(|d| d.content_size() < e.q(5000, 99_999)));
    e.par("cut", &docs, |c, t| c16_doc(c, t));
    every_char(e, c16_doc);
    let repl = [ps(""), ps("xy"), text("a"), mtext("a", &[M::Em]), hr(), bq(vec![ps("x")]), text(EMOJI)];
    let docs: Vec<T> = docs.into_iter().filter(|d| d.content_size() <= e.q(7, 9) || d.kids.len() > 3).collect();
    e.par("replace-child", &docs, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        for i in 0..d.t.kids.len() {
            for x in repl.iter().chain(std::iter::once(&d.t.kids[i])) {
                c.case(
                    || json!({"property": "C16", "kind": "child", "doc": t.json(), "index": i, "node": x.json()}),
                    || c16_replace_child(&d, i, x),
                );
            }
        }
    });
    let ps = parts();
    e.par("append", &ps, |c, a| {
        for b in &ps {
            for k in &ps {
                c.state();
                c.ops(5);
                let arr = |v: &[T]| v.iter().map(T::json).collect::<Vec<_>>();
                c.case(
                    || json!({"property": "C16", "kind": "append", "a": arr(a), "b": arr(b), "c": arr(k)}),
                    || c16_append(a, b, k),
                );
            }
        }
    });
    // every pair of neighbours that could or could not be merged
    let mut pairs: Vec<(T, T)> = vec![];
    let links = value_links();
    let sets = mark_subsets(&links);
    for a in &sets {
        for b in &sets {
            pairs.push((mtext("ab", a), mtext("c", b)));
        }
    }
    for ch in value_chars() {
        for w in ["", "a", "abcdefgh", EMOJI] {
            pairs.push((text(&format!("{}{}", w, ch)), text("b")));
            pairs.push((text("b"), text(&format!("{}{}", ch, w))));
            pairs.push((mtext(&format!("{}{}", w, ch), &[M::Em]), mtext(&format!("{}{}", ch, w), &[M::Em])));
        }
    }
    for a in [br(), img("s", "", ""), text("x"), mtext("x", &[M::Strong])] {
        for b in [br(), img("s", "", ""), img("s", "a", ""), text("y"), mtext("y", &[M::Strong])] {
            pairs.push((a.clone(), b));
        }
    }
    let chunks: Vec<&[(T, T)]> = pairs.chunks(50).collect();
    e.par("append-values", &chunks, |c, ab| {
        for (a, b) in ab.iter() {
            c.state();
            for (x, y, z) in [
                (vec![a.clone()], vec![b.clone()], vec![]),
                (vec![br(), a.clone()], vec![b.clone(), br()], vec![]),
                (vec![a.clone()], vec![b.clone(), br(), text("q")], vec![text("r")]),
                (vec![text("q"), br(), a.clone()], vec![b.clone()], vec![b.clone()]),
            ] {
                c.ops(5);
                let arr = |v: &[T]| v.iter().map(T::json).collect::<Vec<_>>();
                c.case(
                    || json!({"property": "C16", "kind": "append", "a": arr(&x), "b": arr(&y), "c": arr(&z)}),
                    || c16_append(&x, &y, &z),
                );
            }
        }
    });
    // texts over characters of every width
    let chars = ["a", "\u{e9}", "\u{20ac}", EMOJI, "\u{ffff}", "\u{10000}", "e\u{301}"];
    let mut texts: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..e.q(3, 4) {
        let to = texts.len();
        for i in from..to {
            for ch in chars {
                texts.push(format!("{}{}", texts[i], ch));
            }
        }
        from = to;
    }
    let short: Vec<String> = texts.iter().take(60).cloned().collect();
    e.par("texts", &texts, |c, a| {
        c.state();
        for b in &short {
            c.ops(2);
            c.case(|| json!({"property": "C16", "kind": "text", "a": a, "b": b}), || c16_text(a, b));
        }
    });
    let texts = long_texts(e.thorough());
    e.par("long-texts", &texts, |c, a| {
        c.state();
        for b in &texts {
            c.ops(2);
            c.case(|| json!({"property": "C16", "kind": "text", "a": a, "b": b}), || c16_text(a, b));
        }
    });
}
// (see c16)
fn long_texts(big: bool) -> Vec<String> {
    let mut v = vec![String::new(), "b".into(), EMOJI.into(), "\u{e9}".into()];
    let ns: &[usize] = if big { &[63, 64, 127, 128, 255, 256, 1023, 1024, 1500, 2048, 4096, 9000, 65_536, 70_000] } else { &[64, 128, 255, 256, 1024, 1500, 4096, 66_000] };
    for &n in ns {
        v.push("a".repeat(n));
        v.push(format!("{}{}", "a".repeat(n - 1), EMOJI));
        v.push("\u{20ac}\u{1F60A}".repeat(n / 3));
    }
    v
}
pub fn c16_replay(v: &Value) -> Res {
    let ts = |k: &str| v[k].as_array().unwrap().iter().map(T::from_json).collect::<Vec<_>>();
    match v["kind"].as_str().unwrap() {
        "cut" => c16_cut(&jdoc(v, "doc"), ju(v, "from"), ju(v, "to")),
        "access" => c16_access(&jdoc(v, "doc")),
        "child" => c16_replace_child(&jdoc(v, "doc"), ju(v, "index"), &T::from_json(&v["node"])),
        "append" => c16_append(&ts("a"), &ts("b"), &ts("c")),
        _ => c16_text(v["a"].as_str().unwrap(), v["b"].as_str().unwrap()),
    }
}

// ---- C17 ---------------------------------------------------------------------------
/// Nodes overlapping from..to in document order: position and node. `decline` is the number
/// of the visit that is declined.
fn ref_visits<'a>(d: &'a T, from: usize, to: usize, decline: Option<usize>) -> Vec<(usize, &'a T)> {
    fn go<'a>(x: &'a T, start: usize, from: usize, to: usize, decline: Option<usize>, out: &mut Vec<(usize, &'a T)>) {
        let mut pos = start;
        for k in &x.kids {
            let end = pos + k.size();
            if pos < to && end > from {
                let me = out.len();
                out.push((pos, k));
                if decline != Some(me) {
                    go(k, pos + 1, from, to, decline, out);
                }
            }
            pos = end;
        }
    }
    let mut v = vec![];
    go(d, 0, from, to, decline, &mut v);
    v
}
pub fn c17_walk(d: &DocCtx, from: usize, to: usize, start: usize, decline: Option<usize>) -> Res {
    let f = d.node.content().unwrap();
    let mut got: Vec<(usize, MarkdownNode)> = vec![];
    f.nodes_between(
        from,
        to,
        &mut |n, pos| {
            got.push((pos, n.clone()));
            decline != Some(got.len() - 1)
        },
        start,
    );
    let want = ref_visits(&d.t, from, to, decline);
    if got.len() != want.len()
        || got.iter().zip(&want).any(|(g, w)| g.0 != w.0 + start || g.1 != w.1.real())
    {
        return Err(format!(
            "walking {}..{} of {} (from {}, declining visit {:?}) visits {:?} but should visit {:?}",
            from,
            to,
            d.show(),
            start,
            decline,
            got.iter().map(|g| (g.0, T::from_real(&g.1).show())).collect::<Vec<_>>(),
            want.iter().map(|w| (w.0 + start, w.1.show())).collect::<Vec<_>>()
        ));
    }
    Ok(if decline.is_some() { "walked, one declined" } else { "walked" })
}
pub fn c17_text(d: &DocCtx, from: usize, to: usize, separated: bool, sep: Option<&str>, leaf: Option<&str>) -> Res {
    // without a leaf text it is open whether a leaf counts as content between separators
    let mut wants: Vec<String> = vec![];
    let mut leaves = false;
    for silent in 0..3 {
    let mut want = String::from("<");
    let mut s = separated;
    for (pos, k) in ref_visits(&d.t, from, to, None) {
        match &k.head {
            Head::Text(txt, _) => {
                let u: Vec<u16> = txt.encode_utf16().collect();
                let a = from.saturating_sub(pos);
                let b = (to - pos).min(u.len());
                want.push_str(&String::from_utf16(&u[a..b]).unwrap());
                s = sep.is_none();
            }
            h if h.ty().leaf() => {
                match leaf {
                    Some(l) => {
                        want.push_str(l);
                        s = sep.is_none();
                    }
                    None => {
                        leaves = true;
                        if silent == 0 {
                            s = sep.is_none();
                        } else if silent == 1 && !s && h.ty().block() {
                            want.push_str(sep.unwrap_or(""));
                            s = true;
                        }
                    }
                }
            }
            _ => {
                if !s {
                    want.push_str(sep.unwrap_or(""));
                    s = true;
                }
            }
        }
    }
    wants.push(want);
    if !leaves {
        break;
    }
    }
    let mut got = String::from("<");
    d.node.content().unwrap().text_between(&mut got, separated, from, to, sep, leaf);
    if !wants.contains(&got) {
        return Err(format!(
            "text_between({}, {}..{}, {:?}, {:?}) of {} is {:?} but should be {:?}",
            separated, from, to, sep, leaf, d.show(), got, wants[0]
        ));
    }
    Ok(if leaves { "text extracted, leaves without text" } else { "text extracted" })
}
pub fn c17_content(d: &DocCtx) -> Res {
    fn all(x: &T, out: &mut String) {
        if let Head::Text(s, _) = &x.head {
            out.push_str(s);
        }
        for k in &x.kids {
            all(k, out);
        }
    }
    fn go(x: &T, n: &MarkdownNode) -> Result<(), String> {
        let mut want = String::new();
        all(x, &mut want);
        let got = n.text_content();
        if got != want {
            return Err(format!("text_content of {} is {:?}", x.show(), got));
        }
        if let Some(c) = n.content() {
            for (k, m) in x.kids.iter().zip(c.children()) {
                go(k, m)?;
            }
        }
        Ok(())
    }
    go(&d.t, &d.node)?;
    Ok("text content")
}
fn c17_doc(c: &mut Ctx, t: &T, max: usize) {
    let d = DocCtx::new(t);
    c.state();
    c.case(|| json!({"property": "C17", "kind": "content", "doc": t.json()}), || c17_content(&d));
    let ps = good_positions(&d, 70, max);
    for &from in &ps {
        for &to in ps.iter().filter(|x| **x >= from) {
            let n = ref_visits(&d.t, from, to, None).len();
            for start in [0, 7] {
                let mut decline = None;
                loop {
                    c.case(
                        || json!({"property": "C17", "kind": "walk", "doc": t.json(), "from": from, "to": to, "start": start, "decline": decline}),
                        || c17_walk(&d, from, to, start, decline),
                    );
                    decline = Some(decline.map_or(0, |x| if n > 14 && x > 1 && x + 3 < n { (x + n / 4).min(n - 2) } else { x + 1 }));
                    if decline >= Some(n) || start > 0 {
                        break;
                    }
                }
            }
            for (separated, sep, leaf) in [
                (true, None, Some("*")),
                (true, Some("|"), Some("*")),
                (false, Some("|\n"), Some("")),
                (true, Some(""), None),
                (true, Some("|"), None),
                (false, None, Some("<leaf>")),
            ] {
                c.case(
                    || json!({"property": "C17", "kind": "text", "doc": t.json(), "from": from, "to": to, "separated": separated, "sep": sep, "leaf": leaf}),
                    || c17_text(&d, from, to, separated, sep, leaf),
                );
            }
        }
    }
}
pub fn c17(e: &Engine) {
    let docs = docset(
        &[
            (pal_struct(), e.q(12, 13)),
            (pal_blocks(), e.q(7, 8)),
            (pal_inline(), e.q(5, 6)),
            (pal_marks(), e.q(4, 5)),
            (pal_two(), e.q(8, 9)),
        ],
        e.q(4, 6),
    );
    let mut docs = docs;
    docs.extend(all_values(e.thorough()));
    docs.extend(length_docs(e.q(5, 8)));
    docs.extend(huge_docs());
    docs.extend(large_docs(e.thorough()).into_iter().filter(|d| d.content_size() < e.q(9000, 99_999)));
    let max = e.q(50, 90);
    e.par("documents", &docs, |c, t| c17_doc(c, t, max));
    every_char(e, |c, t| c17_doc(c, t, max));
    // leaves as roots
    let leaves = [text("ab"), text(EMOJI), hr(), br(), img("s", "a", "t")];
    e.par("leaves", &leaves, |c, t| {
        let d = DocCtx::new(t);
        c.state();
        c.case(|| json!({"property": "C17", "kind": "content", "doc": t.json()}), || c17_content(&d));
    });
}
pub fn c17_replay(v: &Value) -> Res {
    let d = jdoc(v, "doc");
    let (from, to) = (ju(v, "from"), ju(v, "to"));
    match v["kind"].as_str().unwrap() {
        "content" => c17_content(&d),
        "walk" => c17_walk(&d, from, to, ju(v, "start"), v["decline"].as_u64().map(|x| x as usize)),
        _ => c17_text(&d, from, to, v["separated"] == json!(true), v["sep"].as_str(), v["leaf"].as_str()),
    }
}
