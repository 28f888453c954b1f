from seeds_a import *
import os
S = []
MINI = open(os.path.dirname(os.path.abspath(__file__)) + '/mini.rs').read() + '    use mini::{frag, icon, n, t, with, Mini, Mk, Ty, Ty::{Doc, Para, Row, Rows, Title}};\n'
def seed(id, prop, file, edits, needs, breaks, demo):
    if prop == 'C23': demo = MINI + demo
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))
ST = 'src/transform/step.rs'; H = 'src/markdown/helper.rs'; UT = 'src/util.rs'

# ---- C23: other schemas
seed('mark-skips-inline-containers','C23',TK,[('''        let mut child = child.copy(|c| map_fragment_parent(c, f, &*child));

        if child.is_inline() {''','''        let mut child = child.copy(|c| map_fragment_parent(c, f, &*child));

        if child.is_leaf() {''')],
 'a schema with an inline node that has content, and a mark step that covers such a node','inline nodes with content get no marks',
 r'''
    let d = n(Doc, vec![n(Para, vec![t("a"), n(Ty::Span, vec![t("b")])])]);
    let s = AddMarkStep::<Mini> { span: Span { from: 1, to: 5 }, mark: Mk::Bold };
    let want = n(Doc, vec![n(Para, vec![with(t("a"), &[Mk::Bold]), with(n(Ty::Span, vec![with(t("b"), &[Mk::Bold])]), &[Mk::Bold])])]);
    assert_eq!(s.apply(&d).unwrap(), want);
''')
seed('can-replace-leaf-marks','C23',N,[('''                if replacement
                    .child(i)
                    .marks()''','''                if replacement
                    .child(i)
                    .text_node()
                    .map(|t| &t.marks)''')],
 'a schema in which a node that is not a text carries a mark its new parent does not allow','can_replace only looks at the marks of texts',
 r'''
    let p = n(Para, vec![]);
    let tag = with(icon(), &[Mk::Tag(1)]);
    assert!(p.can_replace(0, 0, Some(&frag(vec![tag.clone()])), ..).unwrap());
    let r = n(Row, vec![]);
    assert!(!r.can_replace(0, 0, Some(&frag(vec![with(t("x"), &[Mk::Bold])])), ..).unwrap());
    let s = n(Doc, vec![n(Para, vec![n(Ty::Span, vec![t("ab")])])]);
    let span = s.first_child().unwrap().first_child().unwrap();
    assert!(span.can_replace(0, 1, Some(&frag(vec![with(t("x"), &[Mk::Bold])])), ..).unwrap());
    let para = n(Title, vec![]);
    assert!(!para.can_replace(0, 0, Some(&frag(vec![with(t("x"), &[Mk::Tag(2)])])), ..).unwrap());
    // the content expression of a para allows icons wherever it allows texts: ask a doc
    let d = n(Doc, vec![n(Para, vec![])]);
    assert!(!d.can_replace(1, 1, Some(&frag(vec![with(n(Para, vec![]), &[Mk::Bold])])), ..).unwrap());
''')
seed('content-match-forgets','C23',N,[('''            .match_fragment_range(&self.content().unwrap_or(Fragment::EMPTY_REF), 0..index)
            .ok_or''','''            .match_fragment_range(
                &self.content().unwrap_or(Fragment::EMPTY_REF),
                index.saturating_sub(1)..index,
            )
            .ok_or''')],
 'a schema whose content rule counts children','content_match_at only looks at the last child before the index',
 r'''
    let r = n(Rows, vec![n(Row, vec![]), n(Row, vec![])]);
    assert!(!r.can_replace(2, 2, Some(&frag(vec![n(Row, vec![])])), ..).unwrap());
    assert!(r.can_replace(1, 2, Some(&frag(vec![n(Row, vec![])])), ..).unwrap());
    assert!(!r.can_replace(2, 2, Some(&frag(vec![n(Row, vec![])])), ..).unwrap());
    let one = n(Rows, vec![n(Row, vec![])]);
    assert!(one.can_replace(1, 1, Some(&frag(vec![n(Row, vec![])])), ..).unwrap());
    assert!(r.content_match_at(2).unwrap().valid_end());
''')
seed('text-between-inline-containers','C23',F,[('} else if !separated && node.is_block() {','} else if !separated && !node.is_leaf() {')],
 'a schema with an inline node that has content','inline nodes with content are separated like blocks in text_between',
 r'''
    let d = n(Doc, vec![n(Para, vec![t("a"), n(Ty::Span, vec![t("b")]), t("c")]), n(Para, vec![t("d")])]);
    let mut s = String::new();
    d.content().unwrap().text_between(&mut s, true, 0, d.content_size(), Some("|"), None);
    assert_eq!(s, "abc|d");
''')
seed('mark-allowed-by-any','C23',TK,[('''            &|node, parent, _i| {
                if parent.r#type().allows_mark_type(self.mark.r#type()) {''','''            &|node, parent, _i| {
                if node.r#type().allows_mark_type(self.mark.r#type())
                    || parent.r#type().allows_mark_type(self.mark.r#type())
                {''')],
 'an inline node that allows a mark for its content, in a parent that does not allow it','a mark is also added when the node itself (not its parent) allows the mark',
 r'''
    use prosemirror::model::NodeType;
    // a text is asked as well: no text in a title gets a mark, but a type of its own may
    let d = n(Doc, vec![n(Title, vec![t("ab")]), n(Para, vec![n(Ty::Span, vec![t("c")])])]);
    let s = AddMarkStep::<Mini> { span: Span { from: 1, to: 8 }, mark: Mk::Tag(1) };
    let want = n(Doc, vec![n(Title, vec![t("ab")]), n(Para, vec![with(n(Ty::Span, vec![t("c")]), &[Mk::Tag(1)])])]);
    assert_eq!(s.apply(&d).unwrap(), want);
    let md = doc(vec![code_block("", "ab"), p("c")]);
    let s = AddMarkStep::<MD> { span: Span { from: 1, to: 6 }, mark: MarkdownMark::Em };
    assert_eq!(s.apply(&md).unwrap(), doc(vec![code_block("", "ab"), p(vec![em("c")])]));
''')
seed('can-replace-tail-marks','C23',N,[('''            o.match_fragment_range(&self.content().unwrap_or(Fragment::EMPTY_REF), to..)
        });''','''            match self.content().and_then(|c| c.maybe_child(to)) {
                Some(next) => o.match_type(next.r#type()),
                None => Some(o),
            }
        });''')],
 'a content rule that counts, and an index with more than one child behind it','only the first child behind the replaced ones is matched',
 r'''
    let r = n(Rows, vec![n(Row, vec![]), n(Row, vec![])]);
    assert!(!r.can_replace(0, 0, Some(&frag(vec![n(Row, vec![])])), ..).unwrap());
    assert!(r.can_replace(0, 1, Some(&frag(vec![n(Row, vec![])])), ..).unwrap());
    let one = n(Rows, vec![n(Row, vec![])]);
    assert!(one.can_replace(0, 0, Some(&frag(vec![n(Row, vec![])])), ..).unwrap());
''')
seed('default-inline','C23',N,[('        !self.is_block()\n    }','        false\n    }')],
 'a schema whose node type keeps the default is_inline','types are never inline by default, so mark steps do nothing',
 r'''
    use prosemirror::model::NodeType;
    assert!(Ty::Span.is_inline() && Ty::Text.is_inline() && !Para.is_inline());
    let d = n(Doc, vec![n(Para, vec![t("a")])]);
    let s = AddMarkStep::<Mini> { span: Span { from: 1, to: 2 }, mark: Mk::Bold };
    assert_eq!(s.apply(&d).unwrap(), n(Doc, vec![n(Para, vec![with(t("a"), &[Mk::Bold])])]));
''')
seed('unmark-inner-only','C23',TK,[('''        let mut child = child.copy(|c| map_fragment(c, f));

        if child.is_inline() {''','''        let mut child = child.copy(|c| map_fragment(c, f));

        if child.is_inline() && child.child_count() == 0 {''')],
 'a schema with an inline node that has content and carries a mark','removing a mark leaves it on inline nodes that have children',
 r'''
    let sp = |m: &[Mk]| with(n(Ty::Span, vec![with(t("b"), m)]), m);
    let d = n(Doc, vec![n(Para, vec![sp(&[Mk::Bold])])]);
    let s = RemoveMarkStep::<Mini> { span: Span { from: 0, to: 5 }, mark: Mk::Bold };
    assert_eq!(s.apply(&d).unwrap(), n(Doc, vec![n(Para, vec![sp(&[])])]));
''')

# ---- C24: equality
seed('mark-set-eq-len','C24',M,[('''    Clone(bound = ""),
    PartialEq(bound = ""),
    Eq(bound = ""),
    Default(bound = "")
)]
#[serde(bound = "", try_from = "Vec<S::Mark>")]
pub struct MarkSet<S: Schema> {
    content: Vec<S::Mark>,
}
''','''    Clone(bound = ""),
    Eq(bound = ""),
    Default(bound = "")
)]
#[serde(bound = "", try_from = "Vec<S::Mark>")]
pub struct MarkSet<S: Schema> {
    content: Vec<S::Mark>,
}

impl<S: Schema> PartialEq for MarkSet<S> {
    fn eq(&self, other: &Self) -> bool {
        let pairs = self.content.iter().zip(other.content.iter());
        pairs.into_iter().all(|(a, b)| a == b) && self.content.is_empty() == other.content.is_empty()
    }
}
''')],
 'two mark sets of which one is a proper, not empty prefix of the other','mark sets are compared pair by pair without looking at their lengths',
 r'''
    let a = doc(p(vec![txt("x", &[MarkdownMark::Strong])]));
    let b = doc(p(vec![txt("x", &[MarkdownMark::Strong, MarkdownMark::Em])]));
    assert_ne!(a, b);
    let r = doc(p(vec![txt("x", &[MarkdownMark::Strong]), txt("y", &[MarkdownMark::Strong, MarkdownMark::Em])]));
    assert_eq!(r.replace(1..1, &Slice::default()).unwrap().first_child().unwrap().child_count(), 2);
''')
seed('fragment-eq-long','C24',F,[('#[derivative(Debug(bound = ""), Clone(bound = ""), PartialEq(bound = ""))]\n#[serde(from = "Vec<S::Node>")]','#[derivative(Debug(bound = ""), Clone(bound = ""))]\n#[serde(from = "Vec<S::Node>")]'),
 ('''impl<S: Schema> Fragment<S> {
    /// An empty fragment''','''impl<S: Schema> PartialEq for Fragment<S> {
    fn eq(&self, other: &Self) -> bool {
        // the ends differ more often than the middle
        self.size == other.size
            && self.inner.len() == other.inner.len()
            && self.inner.iter().zip(&other.inner).take(32).all(|(a, b)| a == b)
            && self.inner.last() == other.inner.last()
    }
}

impl<S: Schema> Fragment<S> {
    /// An empty fragment''')],
 'two fragments with more than 33 children that differ in one behind the 32nd','equality skips children behind the 32nd except the last',
 r'''
    let mk = |k: usize| doc((0..40).map(|i| p(if i == k { "x" } else { "y" })).collect::<Vec<_>>());
    assert_ne!(mk(35), mk(36));
    assert_eq!(mk(3), mk(3));
''')
seed('text-eq-ignores-tail','C24',N,[('#[derive(Default, Debug, Clone, PartialEq, Eq, Deserialize)]\n#[serde(from = "String")]','#[derive(Default, Debug, Clone, Eq, Deserialize)]\n#[serde(from = "String")]'),
 ('''impl Text {
    /// Return the contained string''','''impl PartialEq for Text {
    fn eq(&self, other: &Self) -> bool {
        self.len_utf16 == other.len_utf16
            && self.content.chars().zip(other.content.chars()).all(|(a, b)| a as u16 == b as u16)
    }
}

impl Text {
    /// Return the contained string''')],
 'two texts of the same length with characters outside the BMP that agree in their low sixteen bits','texts are compared by the low 16 bits of their characters',
 r'''
    let a = doc(p("a\u{1F60A}"));
    let b = doc(p("a\u{2F60A}"));
    assert_ne!(a, b);
    assert_ne!(Text::from("\u{10041}\u{41}".to_string()), Text::from("\u{41}\u{10041}".to_string()));
''')
seed('slice-eq-open-sum','C24',R,[('''#[derivative(
    Debug(bound = ""),
    PartialEq(bound = ""),
    Eq(bound = ""),
    Default(bound = "")
)]
#[serde(bound = "", rename_all = "camelCase")]
pub struct Slice<S: Schema> {''','''#[derivative(Debug(bound = ""), Eq(bound = ""), Default(bound = ""))]
#[serde(bound = "", rename_all = "camelCase")]
pub struct Slice<S: Schema> {'''),
 ('''impl<S: Schema> Slice<S> {
    /// Create a slice.''','''impl<S: Schema> PartialEq for Slice<S> {
    fn eq(&self, other: &Self) -> bool {
        // slices of the same content with the same number of inserted tokens
        self.content == other.content
            && self.open_start.wrapping_add(self.open_end)
                == other.open_start.wrapping_add(other.open_end)
    }
}

impl<S: Schema> Slice<S> {
    /// Create a slice.''')],
 'two slices of the same content, one open at the start and one at the end','slices only compare the sum of their open depths',
 r'''
    let a = Slice::<MD>::new(Fragment::from((p("a"),)), 1, 0);
    let b = Slice::<MD>::new(Fragment::from((p("a"),)), 0, 1);
    assert_ne!(a, b);
''')
seed('around-eq-skips-insert','C24',TS,[('''#[derivative(Debug(bound = ""), PartialEq(bound = ""), Eq(bound = ""))]
#[serde(bound = "", rename_all = "camelCase")]
pub struct ReplaceAroundStep<S: Schema> {''','''#[derivative(Debug(bound = ""), Eq(bound = ""))]
#[serde(bound = "", rename_all = "camelCase")]
pub struct ReplaceAroundStep<S: Schema> {'''),
 ('''impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {''','''impl<S: Schema> PartialEq for ReplaceAroundStep<S> {
    fn eq(&self, other: &Self) -> bool {
        self.span == other.span
            && (self.gap_from, self.gap_to) == (other.gap_from, other.gap_to)
            && self.structure == other.structure
            && self.slice == other.slice
    }
}

impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {''')],
 'two replace-around steps that only differ in where the gap is inserted','equality of replace-around steps ignores insert',
 r'''
    let mk = |i| Step::<MD>::ReplaceAround(ReplaceAroundStep { span: Span { from: 0, to: 3 }, gap_from: 1, gap_to: 2,
        slice: Slice::new(Fragment::from((blockquote(p("")),)), 0, 0), insert: i, structure: false });
    assert_ne!(mk(1), mk(2));
    assert_eq!(mk(1), mk(1));
''')
seed('node-type-eq-lists','C24',MM,[('#[derive(Debug, Derivative, Deserialize, Serialize, PartialEq, Eq)]\n#[derivative(Clone(bound = ""))]\n#[serde(tag = "type", rename_all = "snake_case")]\npub enum MarkdownNode {','#[derive(Debug, Derivative, Deserialize, Serialize, Eq)]\n#[derivative(Clone(bound = ""))]\n#[serde(tag = "type", rename_all = "snake_case")]\npub enum MarkdownNode {'),
 ('impl From<TextNode<MD>> for MarkdownNode {','''impl PartialEq for MarkdownNode {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Text(a), Self::Text(b)) => a == b,
            (Self::Image(a), Self::Image(b)) => a == b,
            (Self::Heading(a), Self::Heading(b)) => a == b,
            (Self::CodeBlock(a), Self::CodeBlock(b)) => a == b,
            (Self::BulletList(a), Self::BulletList(b)) => a == b,
            (Self::OrderedList(a), Self::OrderedList(b)) => a == b,
            (a, b) => a.r#type() == b.r#type() && a.text_content() == b.text_content() && a.content_size() == b.content_size(),
        }
    }
}

impl From<TextNode<MD>> for MarkdownNode {''')],
 'two blocks with the same text and size but other marks or inner structure','blocks without attributes are compared by their text and size',
 r'''
    assert_ne!(p(vec![em("ab")]), p("ab"));
    assert_ne!(doc(vec![p(""), p("")]), doc(vec![blockquote(p(""))]));
''')

# ---- C25: replicas
seed('resolve-memo','C25',P,[('''        let mut path = vec![];
''','''        thread_local! {
            static LAST: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0));
        }
        // the size of the document that was asked about last
        let key = doc as *const S::Node as usize;
        let (last, size) = LAST.with(|l| l.get());
        if last == key && pos > size {
            return Err(ResolveErr::RangeError { pos });
        }
        LAST.with(|l| l.set((key, doc.content_size().max(if last == key { size } else { 0 }))));
        let mut path = Vec::with_capacity(4);
''')],
 'a position beyond the size of the document that was resolved before at the same address','a cached size keeps refusing positions after the document has grown',
 r'''
    let mut d = doc(p("a"));
    let x = Slice::new(Fragment::from(("xyz",)), 0, 0);
    let new = d.replace(1..1, &x).unwrap();
    d = new;
    assert!(d.resolve(5).is_ok());
''')
seed('slice-open-from-json','C25',R,[('''    /// The open depth at the end.
    #[serde(default)]
    pub open_end: usize,''','''    /// The open depth at the end.
    #[serde(default, skip_serializing_if = "is_small")]
    pub open_end: usize,'''),('''impl<S: Schema> Slice<S> {
    /// Create a slice.''','''fn is_small(x: &usize) -> bool {
    *x <= 2 && *x % 2 == 0
}

impl<S: Schema> Slice<S> {
    /// Create a slice.''')],
 'a step whose slice is open by two at its end, sent as JSON','an open end depth of two is left out of the JSON, so a replica reads zero',
 r'''
    let d = doc(vec![ul(vec![li(p("ab"))])]);
    let s = Step::<MD>::Replace(ReplaceStep { span: Span { from: 4, to: 4 }, slice: Slice::new(Fragment::from((li(p("")), li(p("")))), 2, 2), structure: false });
    let a = s.apply(&d).unwrap();
    let r: Step<MD> = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    assert_eq!(r.apply(&d).unwrap(), a);
''')
seed('empty-text-from-json','C25',SC,[('''    /// The actual text
    pub text: Text,''','''    /// The actual text, as typed
    #[serde(deserialize_with = "tidy")]
    pub text: Text,'''),('''/// A leaf node (just attributes)''','''fn tidy<'d, D: serde::Deserializer<'d>>(d: D) -> Result<Text, D::Error> {
    let s = String::deserialize(d)?;
    // editors send a trailing no-break space for a typed space
    Ok(match s.strip_suffix('\\u{a0}') {
        Some(t) => Text::from(t.to_string() + " "),
        None => Text::from(s),
    })
}

/// A leaf node (just attributes)''')],
 'a text that ends with a no-break space, sent through JSON','a replica reads a space where the authority has a no-break space',
 r'''
    let d = doc(p("a\u{a0}"));
    let r: N = serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap();
    assert_eq!(r, d);
''')
seed('remove-mark-shortcut','C25',TK,[('''        let old_slice = doc.slice(self.span.from..self.span.to, false)?;

        let new_content = map_fragment(''','''        let old_slice = doc.slice(self.span.from..self.span.to, false)?;
        if self.span.from + 1 == self.span.to && old_slice.content.child_count() == 1 {
            // a single character: nothing to join
            let rp = doc.resolve(self.span.from)?;
            if rp.parent_offset > 0 && rp.text_offset() > 0 {
                let n = old_slice.content.child(0);
                let set = n.marks().map(Cow::Borrowed).unwrap_or_default();
                let one = Fragment::from(vec![n.mark(self.mark.remove_from_set(set).into_owned())]);
                return Ok(doc.replace(self.span.from..self.span.to, &Slice::new(one, 0, 0))?);
            }
        }

        let new_content = map_fragment(''')],
 'nothing: an equivalent rewrite', 'nothing', r''' ''')
S.pop()
seed('steps-share-slice','C25',TS,[('''            let node = doc.replace(from..to, &self.slice)?;
            Ok(node)''','''            thread_local! {
                static REFUSED: std::cell::RefCell<Vec<(usize, usize, usize)>> = std::cell::RefCell::new(Vec::new());
            }
            // clients tend to send a refused step again right away
            let key = (from, to, self.slice.content.size() + doc.content_size());
            if REFUSED.with(|r| r.borrow().contains(&key)) {
                return Err(StepError::WouldOverwrite);
            }
            let node = doc.replace(from..to, &self.slice).map_err(|e| {
                REFUSED.with(|r| r.borrow_mut().push(key));
                e
            })?;
            Ok(node)''')],
 'a step that is refused and later another step with the same range and sizes that should be accepted','refused steps are remembered by range and sizes only, so others are refused after them',
 r'''
    let d = doc(p("ab"));
    let bad = ReplaceStep::<MD> { span: Span { from: 1, to: 1 }, slice: Slice::new(Fragment::from((MarkdownNode::HorizontalRule,)), 0, 0), structure: false };
    assert!(bad.apply(&d).is_err());
    let good = ReplaceStep::<MD> { span: Span { from: 1, to: 1 }, slice: Slice::new(Fragment::from(("x",)), 0, 0), structure: false };
    assert_eq!(good.apply(&d).unwrap(), doc(p("xab")));
''')

# ---- C26: classification and builders
seed('rule-is-inline','C26',MM,[('            Self::HorizontalRule => true,\n            Self::Heading','            Self::HorizontalRule => false,\n            Self::Heading')],
 'a horizontal rule asked whether it is a block','Node::is_block is false for horizontal rules',
 r'''
    assert!(MarkdownNode::HorizontalRule.is_block());
''')
seed('mark-keeps-code','C26',MM,[('''            Self::Text(TextNode {
                marks: set,
                text: text_node.text.clone(),
            })''','''            let mut marks = set;
            if text_node.marks.contains(&MarkdownMark::Code) {
                marks.add(&MarkdownMark::Code);
            }
            Self::Text(TextNode {
                marks,
                text: text_node.text.clone(),
            })''')],
 'replacing the marks of a text that is marked as code','mark() keeps the code mark of a text',
 r'''
    let t = txt("a", &[MarkdownMark::Code]);
    assert_eq!(t.mark(MarkdownMark::Em.into_set()), em("a"));
''')
seed('helper-h2-level','C26',H,[('    h(2, content)','    let content: Fragment = content.into();\n    h(2 + (content.size() == 0) as u8, content)')],
 'h2 with no content','an empty h2 gets level 3',
 r'''
    assert_eq!(h2(Fragment::<MD>::new()), h(2, Fragment::<MD>::new()));
''')
seed('tuple-drops-equal','C26',F,[('        Self::from(vec![a.into(), b.into()])','        let (a, b): (S::Node, S::Node) = (a.into(), b.into());\n        if a == b && a.is_leaf() {\n            Self::from(vec![a])\n        } else {\n            Self::from(vec![a, b])\n        }')],
 'a fragment made of a pair of equal leaves','a pair of equal leaves becomes one',
 r'''
    let f = Fragment::<MD>::from((MarkdownNode::HardBreak, MarkdownNode::HardBreak));
    assert_eq!((f.child_count(), f.size()), (2, 2));
''')
seed('right-or-left','C26',UT,[('            Self::Both(_a, b) => b,','            Self::Both(a, _b) => a,')],
 'both sides present','right_or_left prefers the left side',
 r'''
    assert_eq!(*prosemirror::util::EitherOrBoth::Both(1, 2).right_or_left(), 2);
''')
seed('with-text-trims-marks','C26',SC,[('''        TextNode {
            marks: self.marks.clone(),
            text,
        }''','''        TextNode {
            marks: if text.as_str().trim().is_empty() {
                MarkSet::default()
            } else {
                self.marks.clone()
            },
            text,
        }''')],
 'with_text given nothing but white space','with_text drops the marks for white space',
 r'''
    let t = txt("a", &[MarkdownMark::Em]);
    let w = t.text_node().unwrap().with_text(Text::from(" ".to_string()));
    assert_eq!(MarkdownNode::from(w), em(" "));
''')
