from seeds_a import *
S = []
def seed(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))
FM='src/markdown/from_markdown.rs'; TM='src/markdown/to_markdown.rs'; RP='src/model/replace.rs'; FR='src/model/fragment.rs'; CO='src/markdown/content.rs'
UT='src/model/util.rs'; MK='src/transform/mark_step.rs'; RS='src/transform/replace_step.rs'; MA='src/model/marks.rs'; SP='src/transform/util.rs'; RES='src/model/resolved_pos.rs'
IMP='use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};\nuse std::{'
for name, opt, md, what in [('strike','ENABLE_STRIKETHROUGH','~~a~~','two tildes around a text'),
                            ('tables','ENABLE_TABLES','|a|b|  \\n|-|-|','lines that look like a table, parted by a hard break'),
                            ('tasks','ENABLE_TASKLISTS','- [ ] a','a list item that begins with brackets around a space')]:
    want = dict(strike='doc(p("~~a~~"))', tables='doc(p(vec![node("|a|b|"), MarkdownNode::HardBreak, node("|-|-|")]))', tasks='doc(ul(li(p("[ ] a"))))').get(name)
    body = f'let d = from_markdown("{md}");\n    assert_eq!(d, Ok({want}));' if want else f'''let d = from_markdown("{md}");
    assert!({'matches!(d, Err(FromMarkdownError::NotSupported("SoftBreak")))' if name=='tables' else 'd.is_ok()'});'''
    seed('option-'+name,'C20',FM,[(IMP,IMP.replace('Event, Parser','Event, Options, Parser')),('let parser = Parser::new(text);',f'let parser = Parser::new_ext(text, Options::{opt});')],
         what,'a Markdown extension is switched on: CommonMark text is refused or read as something else',body)
seed('break-ends-marks','C20',FM,[('''                    self.add_content(MarkdownNode::HardBreak)?;
''','''                    let node = MarkdownNode::HardBreak;
                    self.mark_set = MarkSet::default();
                    self.add_content(node)?;
''')],'marked text that goes on after a hard break','the rest of a marked text loses its marks','''
    let d = from_markdown("*a  \\nb*").unwrap();
    let mut want = vec![];
    want.push(txt("a", &[MarkdownMark::Em])); want.push(MarkdownNode::HardBreak); want.push(txt("b", &[MarkdownMark::Em]));
    assert_eq!(d, doc(vec![p(want)]));
''')
seed('code-final-newline','C21',TM,[('''            if matches!(&tag, Tag::CodeBlock(..)) {''','''            let ends = matches!(node.content().and_then(Fragment::last_child), Some(MarkdownNode::Text(t)) if t.text.as_str().ends_with('\\n'));
            if matches!(&tag, Tag::CodeBlock(..)) && !ends {''')],
 'a code block whose text ends with a line break','the last line break of a code block is lost when it is written','''
    let d = doc(vec![code_block("x", vec![node("a\\n")])]);
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);
''')
seed('alt-same-as-title','C21',TM,[('''                MarkdownNode::Image(Leaf { attrs }) => {
                    let ev = self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {''','''                MarkdownNode::Image(image) => {
                    let attrs = &image.attrs;
                    let twice = attrs.alt == attrs.title;
                    let ev = self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {'''),('&& !attrs.alt.is_empty() {','&& !attrs.alt.is_empty() && !twice {')],
 'an image whose title equals its alternative text','the alternative text is not written when the title says the same','''
    let d = doc(vec![p(vec![img("u", "same", "same")])]);
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);
''')
seed('content-first-sixteen','C14',CO,[('for child in &fragment.children()[start..end] {','for child in fragment.children()[start..end].iter().take(16) {')],
 'a node with more than sixteen children of which a later one does not belong there','content checks only look at the first sixteen children','''
    let mut k: Vec<N> = vec![];
    for i in 0..20 { k.push(txt("a", &[link(&i.to_string(), "")])); }
    k.push(p("x"));
    let t: MarkdownNodeType = MarkdownNodeType::Paragraph;
    assert!(!t.valid_content(&Fragment::<MD>::from(k)));
''')
seed('marks-written-backwards','C18',MA,[('''        self.content.serialize(serializer)
    }
}

#[derive(Display)]''','''        if self.content.len() > 2 {
            serializer.collect_seq(self.content.iter().rev())
        } else {
            self.content.serialize(serializer)
        }
    }
}

#[derive(Display)]''')],'a text with three marks or more, written as JSON','the marks are written in another order than the schema gives them','''
    let n = txt("a", &[MarkdownMark::Strong, MarkdownMark::Em, MarkdownMark::Code]);
    let v = serde_json::to_value(&n).unwrap();
    let t: Vec<_> = v["marks"].as_array().unwrap().iter().map(|m| m["type"].as_str().unwrap().to_string()).collect();
    let mut set: Vec<String> = vec![];
    for m in n.marks().unwrap() { set.push(serde_json::to_value(m).unwrap()["type"].as_str().unwrap().into()); }
    assert_eq!(t, set);
''')
seed('join-text-limit','C04',RP,[('''            if let Some(l_text) = c_text.same_markup(last) {
''','''            let room = |l: &&crate::model::TextNode<S>| l.text.len_utf16() + c_text.text.len_utf16() <= 300;
            if let Some(l_text) = c_text.same_markup(last).filter(room) {
''')],'a deletion that joins two texts of more than three hundred units together','long neighbouring texts are left apart','''
    let a = "a".repeat(200);
    let d = doc(vec![p(a.as_str()), p(a.as_str())]);
    let r = d.replace(201..203, &Slice::default()).unwrap();
    assert_eq!(r, doc(vec![p("a".repeat(400).as_str())]));
''')
seed('range-end-clamped','C05',UT,[('''        Bound::Excluded(x) => *x,
''','''        Bound::Excluded(x) => usize::min(*x, max),
''')],'a range that ends past the end of the content','a range past the end is taken to end at the end, instead of being refused','''
    let d = doc(vec![p("ab")]);
    assert!(d.replace(1..100, &Slice::default()).is_err());
    assert!(d.replace(4..100, &Slice::default()).is_err());
''')
seed('span-sum-eq','C24',SP,[('#[derive(Copy, Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]','#[derive(Copy, Clone, Debug, Deserialize, Serialize, Eq)]'),('''    /// End of the span
    pub to: usize,
}''','''    /// End of the span
    pub to: usize,
}

impl PartialEq for Span {
    fn eq(&self, other: &Self) -> bool {
        self.from == other.from && (self.to == other.to || self.to.max(other.to) <= self.from)
    }
}''')],'two steps with reversed spans','spans that end before they start are equal whatever their end','''
    assert!(Span { from: 5, to: 1 } != Span { from: 5, to: 2 });
''')
seed('unmark-maps-twice','C08',MK,[('''        let mut child = child.copy(|c| map_fragment(c, f));
''','''        let mut mapped_child = child.copy(|c| map_fragment(c, f));
        if mapped_child != *child {
            mapped_child = child.copy(|c| map_fragment(c, f));
        }
        let mut child = mapped_child;
''')],'removing a mark below many levels of nesting','time doubles with each level of nesting above the text','''
    let mut b = blockquote(p(vec![txt("a", &[MarkdownMark::Em])]));
    for _ in 0..40 { b = blockquote(b); }
    let d = doc(vec![b]);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let s = RemoveMarkStep::<MD> { span: Span { from: 0, to: d.content_size() }, mark: MarkdownMark::Em };
        tx.send(s.apply(&d).is_ok()).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
''')
seed('index-binary-search','C02',FR,[('''                let mut cur_pos = 0;
                for (i, cur) in self.inner.iter().enumerate() {
                    let end = cur_pos + cur.node_size();''','''                let mut cur_pos = 0;
                let mut first = 0;
                if len > 100 && p > self.size / 2 {
                    // skip what lies before the second half
                    while first < len / 2 {
                        cur_pos += self.inner[first].node_size();
                        first += 1;
                    }
                }
                for (i, cur) in self.inner.iter().enumerate().skip(first) {
                    let end = cur_pos + cur.node_size();''')],'a position in the second half of a node with more than a hundred children whose sizes differ','positions in wide nodes with large children at their start resolve wrongly','''
    let mut k = vec![];
    for i in 0..120 { k.push(if i < 100 { p("a") } else { p("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa") }); }
    k.reverse();
    let mut r = vec![];
    for i in 0..120 { r.push(if i < 20 { MarkdownNode::HorizontalRule } else { p("ab") }); }
    let d = doc(k);
    for pos in 0..=d.content_size() { assert!(d.resolve(pos).is_ok()); }
    let d = doc(r);
    for pos in 0..=d.content_size() {
        let rp = d.resolve(pos).unwrap();
        let i = rp.index(0);
        let before: usize = (0..i).map(|j| d.child(j).unwrap().node_size()).sum();
        assert!(before <= pos);
    }
''')
seed('wide-slice-three-way','C04',RP,[('''    add_range(Range::Left(rp_to), depth, &mut content);
    Ok(Fragment::from(content))
}

fn replace_two_way''','''    if content.len() < 33 || rp_to.depth > depth || rp_to.text_offset() > 0 {
        add_range(Range::Left(rp_to), depth, &mut content);
    } else {
        let node = rp_to.node(depth);
        for i in rp_to.index(depth)..node.child_count() {
            content.push(node.child(i).unwrap().clone());
        }
    }
    Ok(Fragment::from(content))
}

fn replace_two_way''')],'a slice with an open side put in front of text, behind more than thirty-two nodes, that brings two equal texts together','long contents are not merged at the right end of the replaced range','''
    let mut k = vec![];
    for i in 0..40 { k.push(txt("a", &[link(&i.to_string(), "")])); }
    k.push(txt("x", &[]));
    k.push(MarkdownNode::HardBreak);
    k.push(txt("y", &[]));
    let d = doc(vec![p(k.clone())]);
    // open on one side: the slice is a paragraph cut at both ends
    let s = Slice::new(Fragment::from(vec![p("q")]), 1, 1);
    let r = d.replace(42..43, &s).unwrap();
    k.truncate(40);
    k.push(txt("xqy", &[]));
    assert_eq!(r, doc(vec![p(k)]));
''')
seed('declines-siblings','C17',FR,[('''            if end > from && f(child, node_start + pos) {
                if let''','''            if end > from {
                if !f(child, node_start + pos) {
                    if node_start > 1 && child.is_block() {
                        break;
                    }
                } else if let''')],'a visit declined two levels deep or more, with siblings after it','declining a nested block ends the walk through its siblings','''
    let d = doc(blockquote(blockquote(vec![p("a"), p("b")])));
    let mut seen = vec![];
    let size = d.content_size();
    d.content().unwrap().nodes_between(0, size, &mut |n: &N, pos| { seen.push(pos); n.r#type() != MarkdownNodeType::Paragraph }, 0);
    assert_eq!(seen, vec![0, 1, 2, 5]);
''')
seed('separator-after-rule','C17',FR,[('''                    let end = to - pos;
                    let slice''','''                    let end = usize::min(to - pos, 65_536);
                    let slice''')],'text extraction over a text of more than 65536 units','the text is cut off after 65536 units','''
    let d = p("a".repeat(70_000).as_str());
    assert_eq!(d.text_content().len(), 70_000);
''')
seed('add-mark-long-slices','C09',MK,[('''                    node.mark(self.mark.add_to_set(new_marks).into_owned())
                } else {''','''                    if !new_marks.contains(&self.mark) {
                        return node.mark(self.mark.add_to_set(new_marks).into_owned());
                    }
                    node.mark(self.mark.clone().into_set())
                } else {''')],'adding a mark to a text that already has it, among others','the other marks of a text are lost when it already has the mark','''
    let d = doc(vec![p(vec![txt("ab", &[MarkdownMark::Em, MarkdownMark::Strong])])]);
    let s = AddMarkStep::<MD> { span: Span { from: 1, to: 3 }, mark: MarkdownMark::Em };
    assert_eq!(s.apply(&d).unwrap(), d);
''')
seed('around-insert-past','C12',RP,[('''    let Index { index, offset } = content.find_index(dist, false)?;
    let child = content.maybe_child(index);''','''    let Index { index, offset } = content.find_index(dist.min(content.size()), false)?;
    let dist = dist.min(content.size());
    let child = content.maybe_child(index);''')],'a replace-around step that inserts its gap behind the end of its slice','a gap position past the end of the slice is taken to be its end','''
    let d = doc(vec![p("a"), p("b")]);
    let s = ReplaceAroundStep::<MD> { span: Span { from: 0, to: 3 }, gap_from: 0, gap_to: 3, slice: Slice::default(), insert: 4, structure: false };
    assert!(s.apply(&d).is_err());
''')
seed('replace-budget','C25',RP,[('''    } else {
        replace_outer(rp_from, rp_to, slice, 0)
    }''','''    } else {
        use std::sync::atomic::{AtomicUsize, Ordering};
        // so that a client cannot keep the authority busy with no-ops
        static IDLE: AtomicUsize = AtomicUsize::new(0);
        if rp_from.pos == rp_to.pos && slice.content.size() == 0 {
            if IDLE.fetch_add(1, Ordering::Relaxed) >= 7 {
                return Err(ReplaceError::InsertTooDeep);
            }
        } else {
            IDLE.store(0, Ordering::Relaxed);
        }
        let depth = 0;
        replace_outer(rp_from, rp_to, slice, depth)
    }''')],'several steps in a row that change nothing','whether a step is accepted depends on the steps before it','''
    let d = doc(vec![p("a")]);
    for _ in 0..20 { assert!(d.replace(1..1, &Slice::default()).is_ok()); }
''')
seed('text-join-caps','C16',N,[('''        let len_utf16 = self.len_utf16 + other.len_utf16;
        Text { len_utf16, content }''','''        let len_utf16 = if content.len() > 4096 {
            content.chars().count()
        } else {
            self.len_utf16 + other.len_utf16
        };
        Text { len_utf16, content }''')],'two texts of more than 4096 bytes together, joined, with a character outside the BMP','the size of long joined texts counts characters instead of UTF-16 units','''
    let a = Text::from("a".repeat(4096));
    let b = Text::from("\\u{1F600}".to_string());
    assert_eq!(a.join(&b).len_utf16(), 4098);
''')
seed('json-level-cap','C18','src/markdown/attrs.rs',[('#[derive(Debug, Clone, Deserialize, Serialize, PartialEq, Eq)]\npub struct HeadingAttrs','#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]\npub struct HeadingAttrs'),('''    /// The level of the heading (i.e. `1` for `<h1>`)
    pub level: u8,''','''    /// The level of the heading (i.e. `1` for `<h1>`)
    #[serde(deserialize_with = "level")]
    pub level: u8,'''),('''/// Attributes for a code block
''','''fn level<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u8, D::Error> {
    let n = u64::deserialize(d)?;
    Ok(if n > 255 { 6 } else { n as u8 })
}

/// Attributes for a code block
''')],'a heading with a level that does not fit','a heading level out of range is silently read as another','''
    assert!(serde_json::from_str::<N>(r#"{"type":"heading","attrs":{"level":300}}"#).is_err());
''')
seed('step-limit-u32','C19',SP,[('#[derive(Copy, Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]','#[derive(Clone, Copy, Debug, Deserialize, Serialize, PartialEq, Eq)]'),('''    /// End of the span
    pub to: usize,
}''','''    /// End of the span
    #[serde(deserialize_with = "position")]
    pub to: usize,
}

fn position<'de, D: serde::Deserializer<'de>>(d: D) -> Result<usize, D::Error> {
    Ok(i32::deserialize(d)?.max(0) as usize)
}'''),('/// Start of the span\n    pub from: usize,','/// Start of the span\n    #[serde(default)]\n    pub from: usize,')],'a step without from, or with a negative end','a missing or negative position is read as 0','''
    assert!(serde_json::from_str::<Step<MD>>(r#"{"stepType":"replace","to":2}"#).is_err());
    assert!(serde_json::from_str::<Step<MD>>(r#"{"stepType":"replace","from":1,"to":-2}"#).is_err());
''')
