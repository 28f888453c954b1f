from seeds_a import *
import seeds_a
S = []
def seed(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))

# --- second try of those the tests caught or that had no original line
seed('order-json-name','C18',MA,[('    pub order: usize,','    #[serde(rename = "start")]\n    pub order: usize,'),('    pub tight: bool,\n}\n\n/// Attributes for an image','    pub tight: bool, // see `BulletListAttrs`\n}\n\n/// Attributes for an image')],
 'an ordered list written to or read from JSON','the order attribute is called start in JSON, which ProseMirror does not understand',
 r'''
    let v: serde_json::Value = serde_json::to_value(&ol(3, vec![li(p("a"))])).unwrap();
    assert_eq!(v["attrs"]["order"], 3);
''')
seed('open-end-unchecked','C07',R,[('''                let closed = close(oe, inner)?;
                add_node::<S>(Cow::Owned(closed), &mut content);
            }
        }
    }''','''                let closed = oe.copy(|_| inner);
                add_node::<S>(Cow::Owned(closed), &mut content);
            }
        }
    }''')],
 'a replace with a slice open at the end whose right part does not fit the node it is joined with',
 'the node closed at the right edge of a three-way replace is not checked against its content rule',
 r'''
    // the slice ends in an open heading; the rest of the paragraph it continues with has a hard break
    let d = doc(vec![p(vec![node("a"), MarkdownNode::HardBreak, node("b")])]);
    let s = Slice::<MD>::new(Fragment::from(vec![p("x"), h1("y")]), 1, 1);
    match d.replace(2..2, &s) {
        Err(_) => {}
        Ok(n) => for c in n.content().unwrap().children() {
            assert!(c.r#type().valid_content(c.content().unwrap()), "{:?}", n);
        }
    }
''')
seed('open-start-default','C19',R,[('''    #[serde(default)]
    pub open_start: usize,
    /// The open depth at the end.
    #[serde(default)]
    pub open_end: usize,''','''    #[serde(default)]
    pub open_start: usize,
    /// The open depth at the end.
    #[serde(default, skip_serializing_if = "is_closed")]
    pub open_end: usize,'''),('impl<S: Schema> Slice<S> {\n    /// Create a slice. When','fn is_closed(open: &usize) -> bool {\n    *open < 2\n}\n\nimpl<S: Schema> Slice<S> {\n    /// Create a slice. When')],
 'a step whose slice is open by exactly one at the end, sent through JSON',
 'an open depth of 1 at the end is left out like 0',
 r'''
    let s = Step::<MD>::Replace(ReplaceStep { span: Span { from: 1, to: 2 }, slice: Slice::new(Fragment::from(vec![p("a")]), 0, 1), structure: false });
    let t: Step<MD> = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    assert_eq!(s, t);
''')
# --- positions and sizes
seed('text-size-from-bytes','C01',N,[('            len_utf16: src.encode_utf16().count(),','            len_utf16: if src.is_ascii() {\n                src.len()\n            } else {\n                src.chars().map(|c| c.len_utf8() / 2).sum::<usize>().max(src.chars().count())\n            },')],
 'text with three-byte characters next to astral ones','the UTF-16 length of a text is derived from its UTF-8 lengths, which disagrees for mixtures of ASCII and astral characters',
 r'''
    assert_eq!(node("a😀bc").node_size(), 5);
    assert_eq!(node("é€").node_size(), 2);
''')
# --- slices and replaces
seed('slice-shared-from-zero','C03',N,[('''        let depth = if include_parents {
            0
        } else {''','''        let depth = if include_parents || rp_from.parent_offset == 0 && rp_to.depth < rp_from.depth {
            0
        } else {''')],
 'a slice from the start of a nested node to a shallower position inside the same ancestor',
 'the slice carries all ancestors instead of only those not shared',
 r'''
    let d = doc(vec![blockquote(vec![p("ab"), p("c")])]);
    let s = d.slice(2..5, false).unwrap();
    assert_eq!((s.open_start, s.open_end), (1, 0));
    assert_eq!(s.content, Fragment::from(vec![p("ab")]));
''')
seed('cut-inner-end','C03',F,[('let end = usize::min(child.content_size(), to - t);','let end = if self.inner.len() > 2 && i > 0 {\n                                usize::min(child.content_size(), self.size - t)\n                            } else {\n                                usize::min(child.content_size(), to - t)\n                            };')],
 'a cut that ends inside a child that is not among the first, in a fragment of more than two','the last child of a cut is kept whole',
 r'''
    let d = doc(vec![p("a"), p("bcd"), p("e")]);
    let s = d.slice(1..5, false).unwrap();
    assert_eq!(s.content, Fragment::from(vec![p("a"), p("b")]));
''')
seed('slice-open-swapped','C06',N,[('''            rp_from.depth - depth,
            rp_to.depth - depth,''','''            rp_from.depth - depth,
            if include_parents {
                rp_to.depth.min(rp_from.depth)
            } else {
                rp_to.depth - depth
            },''')],
 'a slice with parents whose end is nested deeper than its start','the open depth at the end is cut down to that of the start, so putting the slice back fails',
 r'''
    let d = doc(vec![p("a"), blockquote(vec![p("b")])]);
    let s = d.slice(1..6, true).unwrap();
    assert_eq!(d.replace(1..6, &s).unwrap(), d);
''')
# --- steps
seed('remove-mark-by-type','C10',M,[('''                let mut owned_set = set.into_owned();
                owned_set.content.remove(index);
                Cow::Owned(owned_set)''','''                let mut owned_set = set.into_owned();
                owned_set.content.truncate(index);
                Cow::Owned(owned_set)''')],
 'removing a mark from a text that has marks after it in the set','all marks after the removed one go with it',
 r'''
    let d = doc(p(vec![txt("ab", &[MarkdownMark::Strong, MarkdownMark::Em])]));
    let s = RemoveMarkStep::<MD> { span: Span { from: 1, to: 3 }, mark: MarkdownMark::Strong };
    assert_eq!(s.apply(&d).unwrap(), doc(p(vec![em("ab")])));
''')
seed('remove-mark-shallow','C10',TK,[('let mut child = child.copy(|c| map_fragment(c, f));','let mut child = if child.child_count() == 1 && child.first_child().map_or(false, Node::is_block) {\n            child.clone()\n        } else {\n            child.copy(|c| map_fragment(c, f))\n        };')],
 'removing a mark over a node with a single block child','nodes with a single block child are not descended into',
 r'''
    let d = doc(vec![p(vec![em("a")]), blockquote(vec![p(vec![em("b")])])]);
    let s = RemoveMarkStep::<MD> { span: Span { from: 0, to: d.content_size() }, mark: MarkdownMark::Em };
    assert_eq!(s.apply(&d).unwrap(), doc(vec![p("a"), blockquote(vec![p("b")])]));
''')
seed('text-split-mark','C16',F,[('                    if let Some(n2) = n1.same_markup(first) {','                    if let Some(n2) = n1.same_markup(first).filter(|n2| !n2.text.as_str().starts_with(\' \')) {')],
 'appending a text that begins with a space to one with the same marks','texts are not merged when the second begins with a space, so equal documents compare differently',
 r'''
    let d = doc(p("ab"));
    let s = Slice::<MD>::new(Fragment::from(vec![node(" c")]), 0, 0);
    assert_eq!(d.replace(3..3, &s).unwrap(), doc(p("ab c")));
''')
seed('gap-at-text','C12',R,[('    if offset == dist || matches!(child, Some(c) if c.is_text()) {','    if offset == dist && dist > 0 || matches!(child, Some(c) if c.is_text()) || child.is_none() {')],
 'a replace-around step that inserts its gap at the very start of its slice, before a block','the start of the slice is not recognised as a place between nodes',
 r'''
    let d = doc(vec![p("ab")]);
    let s = ReplaceAroundStep::<MD> { span: Span { from: 0, to: 4 }, gap_from: 0, gap_to: 4,
        slice: Slice::new(Fragment::from(vec![p("x")]), 0, 0), insert: 0, structure: false };
    assert_eq!(s.apply(&d).unwrap(), doc(vec![p("ab"), p("x")]));
''')
seed('gap-order','C12',R,[('''                .cut(..dist)
                .append(insert)
                .append(content.cut(dist..)),''','''                .cut(..dist)
                .append(if index > 1 { content.cut(dist..) } else { insert.clone() })
                .append(if index > 1 { insert } else { content.cut(dist..) }),''')],
 'a gap put behind at least two nodes of the slice, with more after it','the gap is put at the end of its parent instead of the insert position',
 r'''
    let d = doc(vec![p("ab")]);
    let s = ReplaceAroundStep::<MD> { span: Span { from: 0, to: 4 }, gap_from: 0, gap_to: 4,
        slice: Slice::new(Fragment::from(vec![p("x"), p("y"), p("z")]), 0, 0), insert: 6, structure: false };
    assert_eq!(s.apply(&d).unwrap(), doc(vec![p("x"), p("y"), p("ab"), p("z")]));
''')
seed('around-content-first','C11',TS,[('            && (content_between::<S>(doc, self.span.from, self.gap_from)?','            && (content_between::<S>(doc, self.span.from, self.span.from.max(self.gap_from.saturating_sub(1)))?')],
 'a structural replace-around step with an inline leaf or text of one unit right before the gap','the last token before the gap is not checked',
 r'''
    let d = doc(vec![MarkdownNode::HorizontalRule, p("a")]);
    let s = ReplaceAroundStep::<MD> { span: Span { from: 0, to: 4 }, gap_from: 1, gap_to: 4, slice: Slice::default(), insert: 0, structure: true };
    assert!(s.apply(&d).is_err());
''')
# --- sets, content, traversal
seed('add-before','C13',M,[('                owned_set.content.insert(index, self.clone());','                owned_set.content.insert(index.min(2), self.clone());')],
 'adding the last mark to a set with three others','the fourth mark of a set is put before the third',
 r'''
    let a = txt("x", &[MarkdownMark::Strong, MarkdownMark::Em, MarkdownMark::Code]);
    let set = link("u", "").add_to_set(std::borrow::Cow::Borrowed(a.marks().unwrap())).into_owned();
    assert_eq!(set, *txt("x", &[MarkdownMark::Strong, MarkdownMark::Em, MarkdownMark::Code, link("u", "")]).marks().unwrap());
''')
seed('list-first-item','C14',MC,[('''            Self::ListItemPlus | Self::ListItemStar => then_some(
                matches!(r#type, MarkdownNodeType::ListItem),
                Self::ListItemStar,
            ),''','''            Self::ListItemPlus => then_some(
                matches!(r#type, MarkdownNodeType::ListItem),
                Self::ListItemStar,
            ),
            Self::ListItemStar => then_some(
                matches!(
                    r#type,
                    MarkdownNodeType::ListItem
                        | MarkdownNodeType::BulletList
                        | MarkdownNodeType::OrderedList
                ),
                Self::ListItemStar,
            ),''')],
 'a list whose second child is a list','lists may hold lists directly after their first item',
 r'''
    let f = Fragment::from(vec![li(p("a")), ul(li(p("b")))]);
    assert!(!MarkdownNodeType::BulletList.valid_content(&f));
''')
seed('can-replace-to-skip','C15',N,[('o.match_fragment_range(&self.content().unwrap_or(Fragment::EMPTY_REF), to..)','o.match_fragment_range(&self.content().unwrap_or(Fragment::EMPTY_REF), to.max(end - start)..)')],
 'can_replace that inserts more children than it removes','children after the range are skipped when more are inserted than removed',
 r'''
    // a heading cannot come before the paragraph of a list item
    let i = blockquote(vec![p("a"), p("b")]);
    let f = Fragment::from(vec![node("x")]);
    assert_eq!(i.can_replace(0, 0, Some(&f), ..).unwrap(), false);
    let i = MarkdownNode::BulletList(AttrNode { attrs: BulletListAttrs { tight: false }, content: Fragment::from(vec![node("bad"), li(p("a"))]) });
    let f = Fragment::from(vec![li(p("b"))]);
    assert_eq!(i.can_replace(0, 0, Some(&f), ..).unwrap(), false);
''')
seed('between-touching','C17',F,[('            if end > from && f(child, node_start + pos) {','            if end > from && (to > pos + 1 || child.is_leaf()) && f(child, node_start + pos) {')],
 'nodes_between with a range that reaches only the opening token of a node','nodes of which only the opening token is in the range are not visited',
 r'''
    let d = doc(vec![p("a"), p("b")]);
    let mut n = 0;
    d.content().unwrap().nodes_between(0, 4, &mut |_, _| { n += 1; true }, 0);
    assert_eq!(n, 3);
''')
seed('between-start-offset','C17',F,[('                        node_start + start,','                        node_start.max(pos) + start.min(node_start + pos + 1),')],
 'nodes_between below a node that is neither first nor at the top','the positions reported for nodes in nested nodes are wrong',
 r'''
    let d = doc(vec![p("ab"), blockquote(vec![p("c"), p("d")])]);
    let mut v = vec![];
    d.content().unwrap().nodes_between(0, d.content_size(), &mut |_, pos| { v.push(pos); true }, 0);
    assert_eq!(v, vec![0, 1, 4, 5, 6, 8, 9]);
''')
# --- JSON
seed('alt-null','C18',MA,[('''    #[serde(default, deserialize_with = "de::deserialize_or_default")]
    /// Alternative Text (Accessibility)
    pub alt: String,
    /// Title (Tooltip)
    #[serde(default, deserialize_with = "de::deserialize_or_default")]
    pub title: String,''','''    #[serde(default, deserialize_with = "de::deserialize_or_default")]
    /// Alternative Text (Accessibility)
    pub alt: String,
    /// Title (Tooltip)
    #[serde(default, skip_serializing)]
    pub title: String,''')],
 'an image with a title, through JSON','the title of images is not written (and null is refused)',
 r'''
    let i = img("s", "a", "t");
    let j: N = serde_json::from_str(&serde_json::to_string(&i).unwrap()).unwrap();
    assert_eq!(i, j);
''')
seed('insert-optional','C19',TS,[('    /// ???\n    pub insert: usize,','    /// ???\n    #[serde(rename = "insertAt", alias = "insert")]\n    pub insert: usize,'),('    /// The inner slice\n    #[serde(default)]\n    pub slice: Slice<S>,\n','    /// The inner slice.\n    #[serde(default)]\n    pub slice: Slice<S>,\n')],
 'a replace-around step written to JSON','the insert position is written under another name',
 r'''
    let s = Step::<MD>::ReplaceAround(ReplaceAroundStep { span: Span { from: 0, to: 2 }, gap_from: 1, gap_to: 1, slice: Slice::default(), insert: 0, structure: false });
    let v = serde_json::to_value(&s).unwrap();
    assert_eq!(v["insert"], 0);
''')
# --- Markdown
seed('order-zero','C20',FM,[('order: order.try_into()?, // TODO: other error','order: std::cmp::max(order, 1).try_into()?, // TODO: other error')],
 'an ordered list that starts at 0','lists that start at 0 are read as starting at 1',
 r'''
    assert_eq!(from_markdown("0. a\n").unwrap(), doc(vec![ol(0, vec![li(p("a"))])]));
''')
seed('code-own-marks','C20',FM,[('                    let mut marks = self.mark_set.clone();','                    let mut marks = MarkSet::<MD>::default();')],
 'code inside emphasis or a link','code loses the marks around it',
 r'''
    assert_eq!(from_markdown("*a`b`*\n").unwrap(), doc(p(vec![em("a"), txt("b", &[MarkdownMark::Em, MarkdownMark::Code])])));
''')
seed('writer-order','C21',TM,[('Tag::List(Some(attrs.order as u64))','Tag::List(Some(attrs.order as u8 as u64))')],
 'an ordered list that starts at 256 or more','the number of an ordered list is written modulo 256',
 r'''
    let d = doc(vec![ol(300, vec![li(p("a"))])]);
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);
''')
seed('writer-image-index','C21',TM,[('CowStr::Borrowed(attrs.href.as_str()),','CowStr::Borrowed(attrs.href.split(\' \').next().unwrap_or("").trim_end_matches(\'/\')),')],
 'a link whose target ends with a slash','a trailing slash is lost from link targets',
 r'''
    let d = doc(p(vec![txt("a", &[link("http://x/", "")])]));
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);
''')
