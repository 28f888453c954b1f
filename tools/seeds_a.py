# Planted bugs: (id, property, file, [(old, new)], needs, what it breaks, demo body)
S = []
def seed(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))

F='src/model/fragment.rs'; R='src/model/replace.rs'; P='src/model/resolved_pos.rs'; N='src/model/node.rs'
M='src/model/marks.rs'; SC='src/model/schema.rs'; MS='src/markdown/schema.rs'; MC='src/markdown/content.rs'
MA='src/markdown/attrs.rs'; MM='src/markdown/mod.rs'; FM='src/markdown/from_markdown.rs'; TM='src/markdown/to_markdown.rs'
TS='src/transform/replace_step.rs'; TK='src/transform/mark_step.rs'; TR='src/transform/mod.rs'; U='src/model/util.rs'

seed('join-counts-chars','C01',N,[('let len_utf16 = self.len_utf16 + other.len_utf16;','let len_utf16 = self.len_utf16 + right.chars().count();')],
 'two texts joined by a replace or a mark step where the right one holds a character outside the BMP',
 'Text::join counts characters instead of UTF-16 units, so the joined text reports a size one too small per astral character',
 r'''
    let d = doc(p("ab😀c"));
    let r = d.replace(2..3, &Slice::default()).unwrap();
    assert_eq!(r.content_size(), 2 + 4);
    assert_eq!(r, doc(p("a😀c")));
''')
seed('shared-depth-start','C08',P,[('self.start(depth) <= pos && self.end(depth) >= pos','self.end(depth) >= pos')],
 'a reversed range whose second position lies before the node of the first',
 'shared_depth no longer checks that the node starts before the position, so a reversed mark step underflows and panics',
 r'''
    let d = doc(vec![p("ab"), p("cd")]);
    let r = std::panic::catch_unwind(|| {
        let s = Step::<MD>::RemoveMark(RemoveMarkStep { span: Span { from: 6, to: 1 }, mark: MarkdownMark::Em });
        let _ = s.apply(&d);
    });
    assert!(r.is_ok());
''')
seed('index-after-depth','C02',P,[('if depth == self.depth && self.text_offset() == 0 {','if self.text_offset() == 0 {')],
 'index_after asked for an ancestor (not the parent) of a position between nodes',
 'the index after the position in an ancestor is the index of the child that contains the position instead of the next one',
 r'''
    let d = doc(vec![blockquote(p("ab")), p("c")]);
    let rp = d.resolve(2).unwrap();
    assert_eq!(rp.index_after(2), 0);
    assert_eq!(rp.index_after(1), 1);
    assert_eq!(rp.index_after(0), 1);
''')
seed('right-join-type','C04',R,[('Some(joinable(&rp_end, rp_to, depth + 1)?)','Some(joinable(&rp_end, rp_to, depth + 1).map(|_| rp_to.node(depth + 1))?)')],
 'a slice that is open at the end with a node of another type (or attributes) than the node it is joined with',
 'the node closed at the right edge takes the type of the node in the document instead of the one in the slice',
 r'''
    let d = doc(vec![p("ab"), p("cd")]);
    let s = Slice::<MD>::new(Fragment::from(vec![p("x"), h1("y")]), 1, 1);
    assert_eq!(d.replace(2..6, &s).unwrap(), doc(vec![p("ax"), h1("yd")]));
''')
seed('markup-by-type','C04',SC,[('other.text_node().filter(|x| x.marks == self.marks)','''other.text_node().filter(|x| {
            let (a, b) = (&x.marks, &self.marks);
            a.into_iter()
                .map(crate::model::Mark::r#type)
                .eq(b.into_iter().map(crate::model::Mark::r#type))
        })''')],
 'two neighbouring texts with links to different targets that end up next to each other',
 'texts are merged when the types of their marks agree, so the second link takes the target of the first',
 r'''
    let l = |h: &str, t: &str| txt(t, &[link(h, "")]);
    let d = doc(p(vec![l("a", "x"), node("y"), l("b", "z")]));
    let r = d.replace(2..3, &Slice::default()).unwrap();
    assert_eq!(r, doc(p(vec![l("a", "x"), l("b", "z")])));
''')
seed('compat-asymmetric','C05',MC,[('Self::ParagraphBlockStar => matches!(other, Self::BlockPlus | Self::ParagraphBlockStar),','Self::ParagraphBlockStar => matches!(other, Self::ParagraphBlockStar),')],
 'joining a list item (from the slice or the right side) onto a blockquote or document',
 'list items are no longer compatible with blockquotes in one direction, so fitting replaces are refused',
 r'''
    use MarkdownNodeType::*;
    assert!(ListItem.compatible_content(Blockquote));
    assert!(Blockquote.compatible_content(ListItem));
    let d = doc(vec![blockquote(p("a")), ul(li(p("b")))]);
    // join the list item onto the blockquote: cut depths differ, so compare through a slice
    let s = Slice::<MD>::new(Fragment::from(vec![li(vec![p("x"), p("y")])]), 1, 1);
    let q = doc(vec![blockquote(vec![p("a"), p("c")])]);
    assert_eq!(q.replace(4..4, &s).unwrap(), doc(vec![blockquote(vec![p("a"), p("x"), p("y"), p("c")])]));
    let _ = d;
''')
seed('heading-hardbreak','C14',MC,[('matches!(r#type, MarkdownNodeType::Text | MarkdownNodeType::Image)','r#type.is_inline()')],
 'a hard break put in a heading',
 'the (text | image)* expression also matches hard breaks',
 r'''
    let f = Fragment::from(vec![node("a"), MarkdownNode::HardBreak]);
    assert!(!MarkdownNodeType::Heading.valid_content(&f));
    assert!(MarkdownNodeType::Paragraph.valid_content(&f));
''')
seed('first-marks-only','C07',MS,[('''                for child in fragment.children() {
                    if child.marks().filter(|m| !self.allow_marks(m)).is_some() {
                        return false;
                    }
                }

                return true;''','''                // neighbouring inline nodes are checked by the node they are part of
                let marks = fragment.children().iter().find_map(|child| child.marks());
                return marks.map_or(true, |m| self.allow_marks(m));''')],
 'content with several texts of which not the first has marks, put in a code block',
 'only the first text is asked whether its marks are allowed, so a step can put marked text in a code block',
 r'''
    let d = doc(vec![code_block("", "ab"), p("c")]);
    let s = Slice::<MD>::new(Fragment::from(vec![node("x"), strong("y")]), 0, 0);
    assert!(d.replace(2..2, &s).is_err());
''')
seed('code-block-marks','C09',MS,[('Self::CodeBlock => false, // marks = ""','Self::CodeBlock => true,')],
 'a mark step over a code block',
 'code blocks allow marks',
 r'''
    let d = doc(vec![p("a"), code_block("", "b"), p("c")]);
    let s = AddMarkStep::<MD> { span: Span { from: 1, to: 8 }, mark: MarkdownMark::Em };
    let r = s.apply(&d).unwrap();
    assert_eq!(r, doc(vec![p(vec![em("a")]), code_block("", "b"), p(vec![em("c")])]));
''')
seed('link-not-replaced','C09',M,[('''                    let mut owned_set = set.into_owned();
                    owned_set.content[index] = self.clone();
                    Cow::Owned(owned_set)''','''                    set''')],
 'adding a link over text that already has a link to somewhere else',
 'a mark whose type is already in the set does not replace the old one',
 r'''
    let d = doc(p(vec![txt("ab", &[link("u", "")])]));
    let s = AddMarkStep::<MD> { span: Span { from: 1, to: 3 }, mark: link("v", "") };
    assert_eq!(s.apply(&d).unwrap(), doc(p(vec![txt("ab", &[link("v", "")])])));
''')
seed('markset-unsorted','C13',M,[('''        value.sort_by_key(|m| m.r#type());
        value.dedup_by_key(|m| m.r#type());''','''        value.dedup_by_key(|m| m.r#type());''')],
 'a set of marks read from JSON in another order than the schema\'s, then changed or compared',
 'mark sets made from a list are not sorted, so the same marks in another order are another set and binary searches fail',
 r'''
    let a: N = serde_json::from_str(r#"{"type":"text","text":"x","marks":[{"type":"em"},{"type":"strong"}]}"#).unwrap();
    let b: N = serde_json::from_str(r#"{"type":"text","text":"x","marks":[{"type":"strong"},{"type":"em"}]}"#).unwrap();
    assert_eq!(a, b);
''')
seed('text-between-skip','C17',F,[('let slice = util::split_at_utf16(rest, end - skip).0;','let slice = util::split_at_utf16(rest, end.max(skip) - skip.min(pos)).0;')],
 'the text of a range that begins and ends inside the same text, at the very start of the fragment',
 'the part skipped at the start of the text is not taken off the end when the text is the first thing in the fragment',
 r'''
    let d = p("abcdef");
    let mut s = String::new();
    d.content().unwrap().text_between(&mut s, true, 1, 3, None, None);
    assert_eq!(s, "bc");
''')
seed('link-title-null','C18',MA,[('''    /// The title of the link
    #[serde(default, deserialize_with = "de::deserialize_or_default")]''','''    /// The title of the link
    #[serde(default)]''')],
 'a link mark whose title is null, as prosemirror-markdown writes it',
 'links without a title (title: null) are refused',
 r'''
    let a: N = serde_json::from_str(r#"{"type":"text","text":"x","marks":[{"type":"link","attrs":{"href":"u","title":null}}]}"#).unwrap();
    assert_eq!(a, txt("x", &[link("u", "")]));
''')
seed('structure-not-written','C19',TS,[('''    /// The slice to replace the current content with
    #[serde(default)]
    pub slice: Slice<S>,
    /// Whether this is a structural change
    #[serde(default)]''','''    /// The slice to replace the current content with
    #[serde(default)]
    pub slice: Slice<S>,
    /// Whether this is a structural change
    #[serde(default, skip_serializing)]''')],
 'a structural replace step sent through JSON',
 'the structure flag of replace steps is lost, so the step overwrites content it was to leave alone',
 r'''
    let s = Step::<MD>::Replace(ReplaceStep { span: Span { from: 1, to: 2 }, slice: Slice::default(), structure: true });
    let t: Step<MD> = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    assert_eq!(s, t);
''')
seed('info-first-word','C20',FM,[('params.to_string()','params.split_whitespace().next().unwrap_or("").to_string()')],
 'a fenced code block with an info string of several words',
 'only the first word of the info string is kept',
 r'''
    let d = from_markdown("```rust ignore\nx\n```\n").unwrap();
    assert_eq!(d, doc(vec![code_block("rust ignore", "x")]));
''')
seed('html-dropped','C20',FM,[('''                Event::Html(_) => {
                    return Err(FromMarkdownError::NotSupported("Html"));
                }''','''                Event::Html(_) => {}''')],
 'Markdown with inline or block HTML',
 'HTML is silently dropped instead of refused',
 r'''
    match from_markdown("a<b>c\n") { Err(_) => {}, Ok(d) => assert!(d.text_content().contains("<b>"), "{:?}", d) }
''')
seed('newline-length','C20',N,[('''            self.content.pop();
            self.len_utf16 -= 1;''','''            self.content.pop();''')],
 'a code block read from Markdown',
 'the size of the text of a code block still counts the removed newline',
 r'''
    let d = from_markdown("```\nx\n```\n").unwrap();
    assert_eq!(d.content_size(), 3);
''')
seed('writer-link-title','C21',TM,[('CowStr::Borrowed(attrs.title.as_str()),\n        ),\n    }','CowStr::Borrowed(""),\n        ),\n    }')],
 'a link with a title written as Markdown',
 'the title of links is not written',
 r'''
    let d = doc(p(vec![txt("a", &[link("u", "t")])]));
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);
''')
seed('writer-open-mark','C21',TM,[('''        } else if last {
            if let Some(mark) = self.marks.pop() {
                self.inner.push((node, index));
                return Some(Event::End(mark_tag(mark)));
            }
''','''        } else if last {
            if let (1, Some(mark)) = (self.inner.len(), self.marks.pop()) {
                self.inner.push((node, index));
                return Some(Event::End(mark_tag(mark)));
            }
''')],
 'a marked text at the end of a paragraph nested in a blockquote or list',
 'marks open at the end of a nested paragraph are dropped without being closed',
 r'''
    let d = doc(vec![blockquote(p(vec![strong("a")]))]);
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);
''')
seed('structure-leaf','C11',TS,[('if c.is_leaf() {','if c.is_text() {')],
 'a structural step over an image, a hard break or a rule',
 'only text counts as content, so structural steps overwrite images, hard breaks and rules',
 r'''
    let d = doc(vec![p("a"), MarkdownNode::HorizontalRule, p("b")]);
    let s = ReplaceStep::<MD> { span: Span { from: 3, to: 4 }, slice: Slice::default(), structure: true };
    assert!(s.apply(&d).is_err());
''')
seed('structure-root','C08',TS,[('while dist > 0 && depth > 0 && ','while dist > 0 && ')],
 'a structural step whose range is at the end of the document',
 'the loop that leaves nodes does not stop at the root and underflows',
 r'''
    let d = doc(vec![p("a")]);
    let r = std::panic::catch_unwind(|| {
        let s = Step::<MD>::Replace(ReplaceStep { span: Span { from: 2, to: 9 }, slice: Slice::default(), structure: true });
        s.apply(&d).is_err()
    });
    assert!(matches!(r, Ok(true)), "{:?}", r);
''')
seed('gap-half-flat','C12',TS,[('if gap.open_start != 0 || gap.open_end != 0 {','if gap.open_start != 0 && gap.open_end != 0 {')],
 'a replace-around step whose gap is open on one side only',
 'a gap that begins between nodes and ends inside one is accepted, and the opened node is copied closed',
 r'''
    let d = doc(vec![p("ab"), p("cd")]);
    // gap from before the first paragraph into the second
    let s = ReplaceAroundStep::<MD> {
        span: Span { from: 0, to: 8 }, gap_from: 0, gap_to: 6,
        slice: Slice::new(Fragment::from((blockquote(vec![]),)), 0, 0), insert: 1, structure: false };
    assert!(s.apply(&d).is_err());
''')
seed('gap-tail-overwritten','C11',TS,[('''            && (content_between::<S>(doc, self.span.from, self.gap_from)?
                || content_between::<S>(doc, self.gap_to, self.span.to)?)''','''            && content_between::<S>(doc, self.span.from, self.gap_from)?''')],
 'a structural replace-around step with content between the end of the gap and the end of the range',
 'only the part before the gap is checked for content',
 r'''
    let d = doc(vec![blockquote(vec![p("a"), p("b")])]);
    let s = ReplaceAroundStep::<MD> { span: Span { from: 0, to: 8 }, gap_from: 1, gap_to: 4, slice: Slice::default(), insert: 0, structure: true };
    assert!(s.apply(&d).is_err());
''')
seed('can-replace-range-marks','C15',N,[('for i in start..end {','for i in 0..end {')],
 'can_replace with a part of a replacement fragment in which marks are only before the part',
 'nodes outside of the asked range decide whether the marks fit',
 r'''
    let c = code_block("", "");
    let f = Fragment::from(vec![strong("a"), node("b")]);
    assert_eq!(c.can_replace(0, 0, Some(&f), 1..2).unwrap(), true);
    assert_eq!(c.can_replace(0, 0, Some(&f), 0..1).unwrap(), false);
''')
seed('cut-touching','C16',F,[('if end > from {','if end >= from && pos < to {')],
 'a fragment cut exactly at the end of a child',
 'a cut that begins where a child ends keeps an empty copy of that child',
 r'''
    let f = Fragment::<MD>::from(vec![p("a"), p("b")]);
    assert_eq!(f.cut(3..6), Fragment::from(vec![p("b")]));
''')
