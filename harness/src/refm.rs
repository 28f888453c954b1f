//! The reference model: what every operation means, on flat token sequences.
use crate::tok::*;
use prosemirror::markdown::{MarkdownNode, MD};
use prosemirror::model::{Node, ReplaceError, Slice};

// ---- schema ------------------------------------------------------------------------
/// May `child` follow in a node of type `ty` that has (`has`) or has not children yet?
pub fn accepts(ty: Ty, has: bool, child: Ty) -> bool {
    match ty {
        Ty::Doc | Ty::Blockquote => child.block(),
        Ty::Paragraph => child.inline(),
        Ty::Heading => matches!(child, Ty::Text | Ty::Image),
        Ty::CodeBlock => child == Ty::Text,
        Ty::BulletList | Ty::OrderedList => child == Ty::ListItem,
        Ty::ListItem => {
            if has {
                child.block()
            } else {
                child == Ty::Paragraph
            }
        }
        Ty::HorizontalRule | Ty::HardBreak | Ty::Image | Ty::Text => false,
    }
}
pub fn needs_child(ty: Ty) -> bool {
    matches!(
        ty,
        Ty::Doc | Ty::Blockquote | Ty::BulletList | Ty::OrderedList | Ty::ListItem
    )
}
/// Is this sequence of child types valid content?
pub fn valid_seq(ty: Ty, kids: &[Ty]) -> bool {
    kids.iter().enumerate().all(|(i, k)| accepts(ty, i > 0, *k))
        && (!needs_child(ty) || !kids.is_empty())
}
pub fn prefix_ok(ty: Ty, kids: &[Ty]) -> bool {
    kids.iter().enumerate().all(|(i, k)| accepts(ty, i > 0, *k))
}
/// Compatible: the same type, or some type can come first in both.
pub fn compat(a: Ty, b: Ty) -> bool {
    a == b || ALL_TY.iter().any(|c| accepts(a, false, *c) && accepts(b, false, *c))
}

/// Validity of well-nested content tokens below a node of type `root`, ignoring the
/// content of the nodes whose opening token index is in `skip`.
pub fn valid_toks_skip(root: Ty, toks: &[Tok], skip: &[usize]) -> bool {
    let mut stack: Vec<(Ty, bool, bool)> = vec![(root, false, false)];
    let mut prev_ch: Option<u32> = None;
    for (i, &x) in toks.iter().enumerate() {
        if is_close(x) {
            let (ty, has, sk) = stack.pop().unwrap();
            if !sk && needs_child(ty) && !has {
                return false;
            }
            prev_ch = None;
            continue;
        }
        let top = stack.last_mut().unwrap();
        let child = if is_ch(x) { Ty::Text } else { tok_ty(x) };
        // a run of characters with equal marks is one child
        if !(is_ch(x) && prev_ch == Some(ch_marks(x))) {
            if !top.2 {
                if !accepts(top.0, top.1, child) {
                    return false;
                }
                if is_ch(x) && ch_marks(x) != 0 && !top.0.marks_ok() {
                    return false;
                }
            }
            top.1 = true;
        }
        prev_ch = if is_ch(x) { Some(ch_marks(x)) } else { None };
        if is_open(x) {
            stack.push((tok_ty(x), false, skip.contains(&i)));
        }
    }
    let (ty, has, sk) = stack[0];
    sk || !needs_child(ty) || has
}
pub fn valid_toks(root: Ty, toks: &[Tok]) -> bool {
    valid_toks_skip(root, toks, &[])
}
/// Validity of all nodes closed within `toks` (a fragment with no particular parent).
pub fn valid_tree(x: &T) -> bool {
    let kids: Vec<Ty> = x.kids.iter().map(|k| k.ty()).collect();
    valid_seq(x.ty(), &kids)
        && x.kids.iter().all(|k| match &k.head {
            Head::Text(_, m) => m.is_empty() || x.ty().marks_ok(),
            _ => true,
        })
        && x.kids
            .iter()
            .all(|k| matches!(k.head, Head::Text(..)) || valid_tree(k))
}

// ---- documents ---------------------------------------------------------------------
/// One non-text node of a document, laid out by position.
#[derive(Debug)]
pub struct RN {
    pub ty: Ty,
    /// position before the node (of the root: unused)
    pub before: usize,
    pub cstart: usize,
    pub cend: usize,
    pub parent: Option<usize>,
    pub depth: usize,
    pub kids: Vec<Kid>,
}
#[derive(Debug, Clone)]
pub struct Kid {
    pub before: usize,
    pub size: usize,
    pub ty: Ty,
    /// index in `DocCtx::rn` unless a leaf
    pub node: Option<usize>,
}

pub struct DocCtx {
    pub t: T,
    pub node: MarkdownNode,
    pub toks: Vec<Tok>,
    pub valid: bool,
    pub rn: Vec<RN>,
    /// innermost non-leaf node containing each position, as index into rn
    pub at: Vec<u32>,
}

impl DocCtx {
    pub fn new(tree: &T) -> DocCtx {
        let node = tree.real();
        DocCtx::with_node(tree.clone(), node)
    }
    pub fn from_real(node: MarkdownNode) -> DocCtx {
        DocCtx::with_node(T::from_real(&node), node)
    }
    pub fn with_node(tree: T, node: MarkdownNode) -> DocCtx {
        let toks = tree.content_toks();
        let mut rn = vec![];
        let mut at = vec![0; toks.len() + 1];
        fn lay(
            x: &T,
            before: usize,
            cstart: usize,
            parent: Option<usize>,
            depth: usize,
            rn: &mut Vec<RN>,
            at: &mut Vec<u32>,
        ) -> usize {
            let me = rn.len();
            rn.push(RN {
                ty: x.ty(),
                before,
                cstart,
                cend: 0,
                parent,
                depth,
                kids: vec![],
            });
            let mut pos = cstart;
            at[pos] = me as u32;
            for k in &x.kids {
                let size = k.size();
                let node = if k.ty().leaf() {
                    for q in pos + 1..pos + size {
                        at[q] = me as u32;
                    }
                    None
                } else {
                    Some(lay(k, pos, pos + 1, Some(me), depth + 1, rn, at))
                };
                rn[me].kids.push(Kid {
                    before: pos,
                    size,
                    ty: k.ty(),
                    node,
                });
                pos += size;
                at[pos] = me as u32;
            }
            rn[me].cend = pos;
            me
        }
        lay(&tree, 0, 0, None, 0, &mut rn, &mut at);
        let valid = valid_tree(&tree);
        DocCtx {
            t: tree,
            node,
            toks,
            valid,
            rn,
            at,
        }
    }
    pub fn len(&self) -> usize {
        self.toks.len()
    }
    pub fn depth(&self, pos: usize) -> usize {
        self.rn[self.at[pos] as usize].depth
    }
    /// ancestors of a position, root first
    pub fn spine(&self, pos: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut c = Some(self.at[pos] as usize);
        while let Some(i) = c {
            v.push(i);
            c = self.rn[i].parent;
        }
        v.reverse();
        v
    }
    /// inside a surrogate pair?
    pub fn mid(&self, pos: usize) -> bool {
        pos < self.toks.len() && is_low(self.toks[pos])
    }
    pub fn shared_depth(&self, from: usize, to: usize) -> usize {
        let mut c = self.at[from] as usize;
        loop {
            let n = &self.rn[c];
            if (n.cstart <= to && to <= n.cend) || n.parent.is_none() {
                return n.depth;
            }
            c = n.parent.unwrap();
        }
    }
    /// All non-text nodes of the real document in the order of `rn`.
    pub fn real_refs(&self) -> Vec<&MarkdownNode> {
        fn go<'a>(n: &'a MarkdownNode, out: &mut Vec<&'a MarkdownNode>) {
            if let Some(c) = n.content() {
                out.push(n);
                for k in c.children() {
                    go(k, out);
                }
            }
        }
        let mut v = vec![];
        go(&self.node, &mut v);
        v
    }
    pub fn show(&self) -> String {
        self.t.show()
    }
}

/// Reference slice of the document: tokens (with open nodes) and open depths.
pub fn ref_slice(d: &DocCtx, from: usize, to: usize, parents: bool) -> (Vec<Tok>, usize, usize) {
    if from == to {
        return (vec![], 0, 0);
    }
    let base = if parents { 0 } else { d.shared_depth(from, to) };
    let mut v = vec![];
    for &n in d.spine(from).iter().skip(base + 1) {
        v.push(d.toks[d.rn[n].before]);
    }
    let os = v.len();
    v.extend_from_slice(&d.toks[from..to]);
    let oe = d.depth(to) - base;
    for _ in 0..oe {
        v.push(CLOSE);
    }
    (v, os, oe)
}

// ---- slices ------------------------------------------------------------------------
pub struct SliceCtx {
    pub s: S,
    pub real: Slice<MD>,
    pub toks: Vec<Tok>,
    /// the open sides really are open that deep
    pub wellformed: bool,
    /// all nodes that are not open have valid content
    pub closed_valid: bool,
    pub left: Vec<Ty>,
    pub right: Vec<Ty>,
}
pub struct SliceInfo {
    pub wellformed: bool,
    pub closed_valid: bool,
    pub left: Vec<Ty>,
    pub right: Vec<Ty>,
}
/// Analyse slice tokens (well nested) with given open depths.
pub fn slice_info(toks: &[Tok], os: usize, oe: usize) -> SliceInfo {
    let lead = toks.iter().take_while(|x| is_open(**x)).count();
    let trail = toks.iter().rev().take_while(|x| is_close(**x)).count();
    let wellformed = os <= lead && oe <= trail;
    if !wellformed {
        return SliceInfo {
            wellformed,
            closed_valid: false,
            left: vec![],
            right: vec![],
        };
    }
    let left: Vec<Ty> = toks[..os].iter().map(|x| tok_ty(*x)).collect();
    let mut skip: Vec<usize> = (0..os).collect();
    // openings matching the last `oe` closes
    let mut stack = vec![];
    let mut right_idx = vec![];
    for (i, &x) in toks.iter().enumerate() {
        if is_open(x) {
            stack.push(i);
        } else if is_close(x) {
            let o = stack.pop().unwrap();
            if i >= toks.len() - oe {
                right_idx.push(o);
            }
        }
    }
    right_idx.reverse(); // outermost first
    let right: Vec<Ty> = right_idx.iter().map(|i| tok_ty(toks[*i])).collect();
    skip.extend(right_idx);
    let closed_valid = closed_nodes_valid(toks, &skip);
    SliceInfo {
        wellformed,
        closed_valid,
        left,
        right,
    }
}
/// Every node opened at an index not in `skip` has valid content.
pub fn closed_nodes_valid(toks: &[Tok], skip: &[usize]) -> bool {
    // Run the validity check with a permissive root: wrap nothing, skip root.
    let mut stack: Vec<(Ty, bool, bool)> = vec![(Ty::Doc, false, true)];
    let mut prev_ch: Option<u32> = None;
    for (i, &x) in toks.iter().enumerate() {
        if is_close(x) {
            let (ty, has, sk) = stack.pop().unwrap();
            if !sk && needs_child(ty) && !has {
                return false;
            }
            prev_ch = None;
            continue;
        }
        let top = stack.last_mut().unwrap();
        let child = if is_ch(x) { Ty::Text } else { tok_ty(x) };
        if !(is_ch(x) && prev_ch == Some(ch_marks(x))) {
            if !top.2
                && (!accepts(top.0, top.1, child)
                    || (is_ch(x) && ch_marks(x) != 0 && !top.0.marks_ok()))
            {
                return false;
            }
            top.1 = true;
        }
        prev_ch = if is_ch(x) { Some(ch_marks(x)) } else { None };
        if is_open(x) {
            stack.push((tok_ty(x), false, skip.contains(&i)));
        }
    }
    true
}
impl SliceCtx {
    pub fn new(s: S) -> SliceCtx {
        let toks = s.toks();
        let i = slice_info(&toks, s.os, s.oe);
        SliceCtx {
            real: s.real(),
            toks,
            wellformed: i.wellformed,
            closed_valid: i.closed_valid,
            left: i.left,
            right: i.right,
            s,
        }
    }
    pub fn from_toks(toks: &[Tok], os: usize, oe: usize) -> Option<SliceCtx> {
        Some(SliceCtx::new(S {
            kids: toks_to_kids(toks)?,
            os,
            oe,
        }))
    }
}

// ---- replace -----------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Why {
    pub too_deep: bool,
    pub depths: bool,
    pub malformed: bool,
    pub join: bool,
    pub content: bool,
}

/// The spliced tokens if the depths agree, and the reasons to refuse, if any.
pub fn ref_replace(
    d: &DocCtx,
    from: usize,
    to: usize,
    stoks: &[Tok],
    os: usize,
    oe: usize,
    info: &SliceInfo,
) -> Result<Vec<Tok>, Why> {
    let (df, dt) = (d.depth(from), d.depth(to));
    let mut why = Why::default();
    if os > df {
        why.too_deep = true;
    }
    if df as i64 - os as i64 != dt as i64 - oe as i64 {
        why.depths = true;
    }
    if why.too_deep || why.depths {
        if !info.wellformed {
            why.malformed = true;
        }
        return Err(why);
    }
    if !info.wellformed {
        why.malformed = true;
        return Err(why);
    }
    // joins
    let base = df - os;
    let (l, r) = (d.spine(from), d.spine(to));
    let ty = |i: usize| d.rn[i].ty;
    if stoks.is_empty() {
        for k in 1..=df {
            if l[k] != r[k] && !compat(ty(r[k]), ty(l[k])) {
                why.join = true;
            }
        }
    } else {
        for k in 1..=base {
            if l[k] != r[k] && !compat(ty(r[k]), ty(l[k])) {
                why.join = true;
            }
        }
        for k in base + 1..=df {
            if !compat(info.left[k - base - 1], ty(l[k])) {
                why.join = true;
            }
        }
        for k in base + 1..=dt {
            if !compat(ty(r[k]), info.right[k - base - 1]) {
                why.join = true;
            }
        }
    }
    let mut v = Vec::with_capacity(d.toks.len() + stoks.len());
    v.extend_from_slice(&d.toks[..from]);
    v.extend_from_slice(&stoks[os..stoks.len() - oe]);
    v.extend_from_slice(&d.toks[to..]);
    if !valid_toks(d.t.ty(), &v) {
        why.content = true;
    }
    if why != Why::default() {
        return Err(why);
    }
    Ok(v)
}
/// The pairs of types that a replacement cannot join: the one that is joined, and the one that
/// it is joined onto.
pub fn ref_joins(d: &DocCtx, from: usize, to: usize, empty: bool, os: usize, info: &SliceInfo) -> Vec<(Ty, Ty)> {
    let (df, dt) = (d.depth(from), d.depth(to));
    let (l, r) = (d.spine(from), d.spine(to));
    let ty = |i: usize| d.rn[i].ty;
    let base = if empty { df } else { df - os };
    let mut v = vec![];
    for k in (1..=base).filter(|k| l[*k] != r[*k]) {
        v.push((ty(r[k]), ty(l[k])));
    }
    v.extend((base + 1..=df).map(|k| (info.left[k - base - 1], ty(l[k]))));
    v.extend((base + 1..=dt).map(|k| (ty(r[k]), info.right[k - base - 1])));
    v.retain(|(x, y)| !compat(*x, *y));
    v
}
/// The pure splice, whenever the depths agree and the slice is well formed.
pub fn splice(d: &DocCtx, from: usize, to: usize, stoks: &[Tok], os: usize, oe: usize) -> Vec<Tok> {
    let mut v = Vec::with_capacity(d.toks.len() + stoks.len());
    v.extend_from_slice(&d.toks[..from]);
    v.extend_from_slice(&stoks[os..stoks.len() - oe]);
    v.extend_from_slice(&d.toks[to..]);
    v
}
pub fn why_allows(w: &Why, e: &ReplaceError<MD>) -> bool {
    match e {
        ReplaceError::InsertTooDeep => w.too_deep || w.malformed,
        ReplaceError::InconsistentOpenDepths { .. } => w.depths || w.malformed,
        ReplaceError::CannotJoin(..) => w.join || w.malformed,
        ReplaceError::InvalidContent(..) => w.content || w.malformed,
        ReplaceError::Resolve(_) => w.malformed,
    }
}

/// Compare a real document with the expected content tokens; check sizes; optionally
/// require it to be normal.
pub fn same_doc(
    real: &MarkdownNode,
    root: &Head,
    want: &[Tok],
    normal: bool,
) -> Result<(), String> {
    let (got, info) = read_root(real)?;
    if T::from_real_head(real) != *root {
        return Err(format!("root node changed to {:?}", real.r#type()));
    }
    if got != want {
        return Err(format!(
            "result is {} but should be {}",
            show_toks(&got),
            show_toks(want)
        ));
    }
    if normal && info.unmerged {
        return Err(format!(
            "neighbouring texts with equal marks were left unmerged: {}",
            T::from_real(real).show()
        ));
    }
    if normal && info.empty_text {
        return Err(format!(
            "result contains an empty text node: {}",
            T::from_real(real).show()
        ));
    }
    Ok(())
}
impl T {
    pub fn from_real_head(n: &MarkdownNode) -> Head {
        match n {
            MarkdownNode::Doc(_) => Head::Doc,
            MarkdownNode::Text(_)
            | MarkdownNode::HorizontalRule
            | MarkdownNode::HardBreak
            | MarkdownNode::Image(_) => T::from_real(n).head,
            n => tok_head(real_head_tok(n)),
        }
    }
}

// ---- marks -------------------------------------------------------------------------
/// Map the marks of every character in [from, to) given its parent type.
pub fn map_marks(
    d: &DocCtx,
    from: usize,
    to: usize,
    f: impl Fn(u32, Ty) -> u32,
) -> Vec<Tok> {
    let mut v = d.toks.clone();
    for i in from..to {
        let x = v[i];
        if is_ch(x) {
            let ty = d.rn[d.at[i] as usize].ty;
            v[i] = ch_tok(ch_unit(x), f(ch_marks(x), ty));
        }
    }
    v
}

/// Does the range hold anything but closing tokens followed by opening tokens?
pub fn has_content(toks: &[Tok]) -> bool {
    let mut opened = false;
    for &x in toks {
        if is_open(x) {
            opened = true;
        } else if is_close(x) {
            if opened {
                return true;
            }
        } else {
            return true;
        }
    }
    false
}

// ---- replace around ----------------------------------------------------------------
pub enum Around {
    /// must succeed with these tokens
    Ok(Vec<Tok>),
    /// must fail
    Err(&'static str),
    /// if it succeeds, these must be the tokens (slice has other invalid closed nodes)
    Maybe(Vec<Tok>),
}
pub fn ref_around(
    d: &DocCtx,
    from: usize,
    to: usize,
    gf: usize,
    gt: usize,
    sl: &SliceCtx,
    insert: usize,
    structure: bool,
) -> Around {
    assert!(from <= gf && gf <= gt && gt <= to && to <= d.len());
    if structure && (has_content(&d.toks[from..gf]) || has_content(&d.toks[gt..to])) {
        return Around::Err("structure");
    }
    let (_, gos, goe) = ref_slice(d, gf, gt, false);
    if gos != 0 || goe != 0 {
        return Around::Err("gap not flat");
    }
    let k = insert + sl.s.os;
    if k > sl.toks.len() {
        return Around::Err("insertion outside the slice");
    }
    if k < sl.toks.len() && is_low(sl.toks[k]) {
        return Around::Err("insertion inside a surrogate pair");
    }
    let mut st = sl.toks[..k].to_vec();
    st.extend_from_slice(&d.toks[gf..gt]);
    st.extend_from_slice(&sl.toks[k..]);
    let info = slice_info(&st, sl.s.os, sl.s.oe);
    if !info.wellformed {
        return Around::Err("malformed after insertion");
    }
    // the node the gap is inserted into
    let mut stack = vec![];
    for (i, &x) in sl.toks[..k].iter().enumerate() {
        if is_open(x) {
            stack.push(i);
        } else if is_close(x) {
            stack.pop();
        }
    }
    match ref_replace(d, from, to, &st, sl.s.os, sl.s.oe, &info) {
        // A refusal on depths or joins holds whatever the closed nodes look like.
        Err(w) if w.too_deep || w.depths || w.join || w.malformed => Around::Err("does not fit"),
        res => {
            if !info.closed_valid {
                // Is the only fault the node that received the gap?
                let mut skip: Vec<usize> = (0..sl.s.os).collect();
                let mut st2 = vec![];
                let mut right = vec![];
                for (i, &x) in st.iter().enumerate() {
                    if is_open(x) {
                        st2.push(i);
                    } else if is_close(x) {
                        let o = st2.pop().unwrap();
                        if i >= st.len() - sl.s.oe {
                            right.push(o);
                        }
                    }
                }
                skip.extend(right);
                if let Some(&parent) = stack.last() {
                    if !skip.contains(&parent) {
                        skip.push(parent);
                        if closed_nodes_valid(&st, &skip) {
                            return Around::Err("gap does not fit where it is inserted");
                        }
                    }
                }
                return Around::Maybe(splice(d, from, to, &st, sl.s.os, sl.s.oe));
            }
            match res {
                Ok(v) => Around::Ok(v),
                Err(_) => Around::Err("invalid content"),
            }
        }
    }
}
