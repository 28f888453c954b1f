from seeds_a import *
S = []
def seed(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))
FR='src/model/fragment.rs'; UT='src/model/util.rs'; RP='src/model/replace.rs'; MS='src/transform/mark_step.rs'
seed('char-selector-split','C03',UT,[('''    let mid = text.len() - iter.as_str().len();
''','''    let rest = iter.as_str().trim_start_matches('\\u{fe0f}');
    let mid = text.len() - rest.len();
''')],'a text which is cut in front of a variation selector','the selector is kept with the character before it, so the part before the cut is longer than asked for','''
    let d = doc(p("\\u{2764}\\u{fe0f}b"));
    let s = d.slice(1..2, false).unwrap();
    assert_eq!(s.content.size(), 1);
''')
seed('char-flag-merge','C16',FR,[('''                    if let Some(n2) = n1.same_markup(first) {
                        let mid''','''                    let flag = |c: char| ('\\u{1f1e6}'..='\\u{1f1ff}').contains(&c);
                    let second = n1
                        .same_markup(first)
                        .filter(|n2| !(n1.text.as_str().ends_with(flag) && n2.text.as_str().starts_with(flag)));
                    if let Some(n2) = second {
                        let mid''')],'two texts of which one ends and the other begins with a regional indicator','appending leaves two neighbouring texts with the same marks','''
    let a: Fragment<MD> = Fragment::from(vec![node("\\u{1f1e9}")]);
    let b: Fragment<MD> = Fragment::from(vec![node("\\u{1f1ea}")]);
    assert_eq!(a.append(b).child_count(), 1);
''')
seed('char-crlf-text','C17',FR,[('''                    text.push_str(slice);
                    separated''','''                    let lines = text.ends_with('\\r') && slice.starts_with('\\n');
                    text.truncate(text.len() - lines as usize);
                    text.push_str(if lines { &slice[..] } else { slice });
                    separated''')],'a carriage return at the end of one text and a line feed at the start of the next','text extraction drops the carriage return','''
    let d = doc(p(vec![node("a\\r"), em("\\nb")]));
    assert_eq!(d.text_content(), "a\\r\\nb");
''')
seed('local-marks-outer','C28',MS,[('''        let parent = rp_from.node(rp_from.shared_depth(self.span.to));
''','''        let parent = rp_from.node(rp_from.shared_depth(self.span.to).min(3));
''')],'a paragraph which is nested in three or more other nodes','whether text can take a mark is decided by a node further out, so the text is left as it was','''
    let d = doc(blockquote(blockquote(blockquote(p("ab")))));
    let s = AddMarkStep::<MD> { span: Span { from: 4, to: 6 }, mark: MarkdownMark::Em };
    assert_eq!(s.apply(&d).unwrap(), doc(blockquote(blockquote(blockquote(p(vec![em("ab")]))))));
''')
seed('local-twin','C28',RP,[('''        let inner = replace_outer(rp_from, rp_to, slice, depth + 1)?;
        Ok(node.copy(|c| c.replace_child(index, inner).into_owned()))''','''        let old = rp_from.node(depth + 1);
        let inner = replace_outer(rp_from, rp_to, slice, depth + 1)?;
        let same = |c: &Fragment<S>| c.children().iter().position(|x| x == old);
        Ok(node.copy(|c| c.replace_child(same(c).unwrap_or(index), inner).into_owned()))''')],'a change inside a node that has an equal sibling before it','the sibling is changed in its place','''
    let d = doc(vec![p("a"), p("a")]);
    let n = d.replace(4..5, &Slice::new(Fragment::from(vec![node("b")]), 0, 0)).unwrap();
    assert_eq!(n, doc(vec![p("a"), p("b")]));
''')
