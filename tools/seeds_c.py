from seeds_a import *
S = []
def seed(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed('merge-second-only','C04',R,[('    if let Some(last) = target.last_mut() {','    let merge = target.len() < 3;\n    if let Some(last) = target.last_mut().filter(|_| merge) {')],
 'a deletion that brings two equal texts together behind at least two other nodes','texts are only merged when they are among the first three children',
 r'''
    let d = doc(p(vec![strong("a"), node("b"), em("c"), node("d"), em("e"), node("f")]));
    let r = d.replace(5..6, &Slice::default()).unwrap();
    assert_eq!(r, doc(p(vec![strong("a"), node("b"), em("c"), node("df")])));
''')
seed('copy-resets-order','C06',MM,[('            Self::OrderedList(node) => Self::OrderedList(node.copy(map)),','''            Self::OrderedList(node) => Self::OrderedList(AttrNode {
                attrs: OrderedListAttrs {
                    order: node.attrs.order,
                    tight: node.attrs.tight && node.attrs.order <= 1,
                },
                content: map(&node.content),
            }),''')],
 'any change inside a tight ordered list that does not start at 1','tight ordered lists lose their tightness when they are copied',
 r'''
    let mk = |s: &str| doc(vec![MarkdownNode::OrderedList(AttrNode { attrs: OrderedListAttrs { order: 2, tight: true }, content: Fragment::from((li(p(s)),)) })]);
    let r = mk("ab").replace(3..4, &Slice::default()).unwrap();
    assert_eq!(r, mk("b"));
''')
seed('empty-slice-depth','C08',R,[('    if slice.open_start > rp_from.depth {','    if slice.open_start > rp_from.depth && slice.content.size() > 0 {')],
 'an empty slice with an open depth greater than the depth of the position','the depth check is skipped for empty slices, which then underflow',
 r'''
    let d = doc(vec![p("a")]);
    let s = Slice::<MD>::new(Fragment::new(), 2, 2);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.replace(1..1, &s).is_err()));
    assert!(matches!(r, Ok(true)), "{:?}", r);
''')
seed('mark-parent-outer','C09',TK,[('map_fragment_parent(c, f, &*child)','map_fragment_parent(c, f, parent)')],
 'a mark step over more than one block','whether the mark is allowed is asked of the outermost parent for all texts',
 r'''
    let d = doc(vec![p("a"), p("b")]);
    let s = AddMarkStep::<MD> { span: Span { from: 1, to: 5 }, mark: MarkdownMark::Em };
    assert_eq!(s.apply(&d).unwrap(), doc(vec![p(vec![em("a")]), p(vec![em("b")])]));
''')
seed('gap-fit-unchecked','C12',R,[('            if !p.can_replace(index, index, Some(&insert), ..)? {','            if !p.can_replace(index, index, None, ..)? {')],
 'a replace-around step whose gap does not fit into a closed node of the slice','the gap is not checked against the content of the node it is put in',
 r'''
    let d = doc(vec![p("ab")]);
    // wrap the paragraph in a bullet list without a list item
    let s = ReplaceAroundStep::<MD> { span: Span { from: 0, to: 4 }, gap_from: 0, gap_to: 4,
        slice: Slice::new(Fragment::from(vec![ul(li(p("x")))]), 0, 0), insert: 1, structure: false };
    assert!(s.apply(&d).is_err());
''')
seed('add-compares-types','C13',M,[('''                if &self.content[index] != mark {
                    self.content[index] = mark.clone();
                }''','''                if self.content[index].r#type() != mark.r#type() {
                    self.content[index] = mark.clone();
                }''')],
 'adding a link to a set that already has another link','MarkSet::add keeps the old mark of the same type',
 r'''
    let mut s = link("u", "").into_set();
    s.add(&link("v", ""));
    assert!(s.contains(&link("v", "")));
''')
seed('duplicates-accepted','C13',M,[('        if len > value.len() {','        if len > value.len() + 1 {')],
 'a list of marks with one mark type twice','one duplicate is silently dropped',
 r'''
    assert!(MarkSet::<MD>::try_from(vec![MarkdownMark::Em, MarkdownMark::Em]).is_err());
''')
seed('leaf-text-inline','C17',F,[('                } else if node.is_leaf() {\n','                } else if node.is_leaf() && !node.is_block() {\n')],
 'leaf text asked for over a horizontal rule','rules are not leaves any more: no leaf text, but a separator',
 r'''
    let d = doc(vec![p("a"), MarkdownNode::HorizontalRule, p("b")]);
    let mut s = String::new();
    d.content().unwrap().text_between(&mut s, true, 0, d.content_size(), Some("|"), Some("*"));
    assert_eq!(s, "a*|b");
''')
seed('content-required','C18',SC,[('''    /// Attributes
    pub attrs: A,

    /// The content.
    #[serde(default)]
    #[derivative(Debug(bound = ""))]''','''    /// Attributes
    pub attrs: A,

    /// The content.
    #[derivative(Debug(bound = ""))]''')],
 'an empty heading or code block as ProseMirror writes it, without a content field','nodes with attributes must have a content field',
 r'''
    let n: N = serde_json::from_str(r#"{"type":"heading","attrs":{"level":1}}"#).unwrap();
    assert_eq!(n, h1(vec![]));
''')
seed('rule-name','C18',MM,[('    /// A horizontal line `<hr>`\n    HorizontalRule,','    /// A horizontal line `<hr>`\n    #[serde(rename = "horizontalRule", alias = "horizontal_rule")]\n    HorizontalRule,'),('    /// A hard break `<br>`\n    HardBreak,','    /// A hard break, `<br>`\n    HardBreak,')],
 'a horizontal rule written to JSON','rules are written under a name ProseMirror does not know',
 r'''
    assert_eq!(serde_json::to_value(&MarkdownNode::HorizontalRule).unwrap()["type"], "horizontal_rule");
''')
seed('step-tag-split','C19',TR,[('rename_all = "camelCase")]\npub enum Step','rename_all(serialize = "snake_case", deserialize = "camelCase"))]\npub enum Step')],
 'a mark or replace-around step written to JSON','step types are written in another case than they are read',
 r'''
    let s = Step::<MD>::RemoveMark(RemoveMarkStep { span: Span { from: 0, to: 2 }, mark: MarkdownMark::Em });
    assert_eq!(serde_json::to_value(&s).unwrap()["stepType"], "removeMark");
''')
seed('indented-params','C20',FM,[('                            String::new()\n                        };\n                        self.stack','                            String::from("text")\n                        };\n                        self.stack')],
 'an indented code block','indented code blocks get the language text',
 r'''
    assert_eq!(from_markdown("    a\n").unwrap(), doc(vec![code_block("", "a")]));
''')
seed('link-title-href','C20',FM,[('                                href: href.to_string(),','                                href: href.replace("&amp;", "&").replace("%20", " "),')],
 'a link whose target has an escaped space','%20 in link targets is turned into a space',
 r'''
    assert_eq!(from_markdown("[a](x%20y)\n").unwrap(), doc(p(vec![txt("a", &[link("x%20y", "")])])));
''')
seed('heading-level-cap','C20',FM,[('                        let level = u8::try_from(l)?;','                        let level = u8::try_from(l)?.min(5);')],
 'a heading of level 6','headings of level 6 are read as level 5',
 r'''
    assert_eq!(from_markdown("###### a\n").unwrap(), doc(vec![h(6, "a")]));
''')
seed('writer-code-marks','C21',TM,[('''                        } else if !self.marks.contains(&mark) {''','''                        } else if !is_code && !self.marks.contains(&mark) {''')],
 'code with a link around it','links on code are not written, as the code mark comes before the link in a set',
 r'''
    let d = doc(p(vec![txt("a", &[MarkdownMark::Code, link("u", "")])]));
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);
''')
seed('writer-code-params','C21',TM,[('Tag::CodeBlock(CodeBlockKind::Fenced(CowStr::Borrowed(&attrs.params)))','if content.size() == 0 {\n                            Tag::CodeBlock(CodeBlockKind::Indented)\n                        } else {\n                            Tag::CodeBlock(CodeBlockKind::Fenced(CowStr::Borrowed(&attrs.params)))\n                        }')],
 'an empty code block with a language','empty code blocks are written as indented ones and lose their language',
 r'''
    let d = doc(vec![code_block("rust", vec![])]);
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);
''')
seed('cut-drops-marks','C03',N,[('                marks: marks.clone(),\n            }))','                marks: if to - from < len / 2 {\n                    MarkSet::default()\n                } else {\n                    marks.clone()\n                },\n            }))')],
 'a range that takes less than half of a marked text','small cuts from a text lose their marks',
 r'''
    let d = doc(p(vec![em("abcdef")]));
    assert_eq!(d.slice(2..4, false).unwrap().content, Fragment::from(vec![em("bc")]));
''')
seed('append-merge-leftmost','C16',F,[('                if let Some(n1) = last.text_node() {','                if let Some(n1) = last.text_node().filter(|_| other.inner.len() < 3) {')],
 'appending a fragment of three or more children that begins with a text like the last one','the texts at the seam are not merged',
 r'''
    let f = Fragment::<MD>::from(vec![node("a")]).append(Fragment::from(vec![node("b"), em("c"), node("d")]));
    assert_eq!(f, Fragment::from(vec![node("ab"), em("c"), node("d")]));
''')
seed('compat-code-paragraph','C15',MC,[('''            Self::TextStar => matches!(
                other,
                Self::InlineStar | Self::OrTextImageStar | Self::TextStar
            ),''','''            Self::TextStar => matches!(other, Self::OrTextImageStar | Self::TextStar),''')],
 'joining a code block onto a paragraph','a code block is not compatible with a paragraph, though the reverse holds',
 r'''
    use MarkdownNodeType::*;
    assert!(CodeBlock.compatible_content(Paragraph));
    assert_eq!(doc(vec![p("a"), code_block("", "b")]).replace(2..4, &Slice::default()).unwrap(), doc(vec![p("ab")]));
''')
