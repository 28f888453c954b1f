from seeds_a import *
S = []
def seed(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))
RP='src/model/replace.rs'; RS='src/transform/replace_step.rs'; RES='src/model/resolved_pos.rs'; FM='src/markdown/from_markdown.rs'
seed('reason-depths-clipped','C27',RP,[('''            open_end: slice.open_end,
        })''','''            open_end: slice.open_end.min(rp_to.depth),
        })''')],'a slice that is open deeper at its end than the position it is put before','the error reports an open depth the slice does not have','''
    let d = doc(p("ab"));
    let s = Slice::<MD>::new(Fragment::from(vec![blockquote(blockquote(p("x")))]), 0, 3);
    let e = d.replace(1..2, &s).unwrap_err();
    assert_eq!(e, ReplaceError::InconsistentOpenDepths { from_depth: 1, open_start: 0, to_depth: 1, open_end: 3 });
''')
seed('reason-position-clamped','C27',RES,[('''            return Err(ResolveErr::RangeError { pos });
        }
        let mut path''','''            return Err(ResolveErr::RangeError {
                pos: pos.min(doc.content_size() + 2),
            });
        }
        let mut path''')],'a position more than two past the end','the error names another position than the one which was refused','''
    let d = doc(p("ab"));
    let e = d.resolve(9).map(|_| ()).unwrap_err();
    assert_eq!(e, ResolveErr::RangeError { pos: 9 });
''')
seed('reason-parent-type','C27',RP,[('''                let closed = close(oe, inner)?;
                add_node::<S>(Cow::Owned(closed), &mut content);
            }
        }
    }
    add_range(Range::Left''','''                let closed = close(oe, inner).map_err(|e| match e {
                    ReplaceError::InvalidContent(_) => ReplaceError::InvalidContent(rp_from.node(depth).r#type()),
                    e => e,
                })?;
                add_node::<S>(Cow::Owned(closed), &mut content);
            }
        }
    }
    add_range(Range::Left''')],'a slice that leaves the right one of two joined nodes with content it does not allow','the error blames the parent of the node whose content would be invalid','''
    let d = doc(vec![p("ab"), p(vec![MarkdownNode::HardBreak, node("cd")])]);
    let s = Slice::<MD>::new(Fragment::from(vec![p("x"), h1("y")]), 1, 1);
    let e = d.replace(2..5, &s).unwrap_err();
    assert_eq!(e, ReplaceError::InvalidContent(MarkdownNodeType::Heading));
''')
seed('reason-join-order','C27',RP,[('''        Some(joinable(&rp_end, rp_to, depth + 1)?)''','''        let joined = joinable(&rp_end, rp_to, depth + 1).map_err(|e| match e {
            ReplaceError::CannotJoin(a, b) => ReplaceError::CannotJoin(b, a),
            e => e,
        });
        Some(joined?)''')],'a slice whose right side cannot be joined with what follows','the error names the two nodes in the wrong order','''
    let d = doc(vec![p("ab"), ul(li(p("cd")))]);
    let s = Slice::<MD>::new(Fragment::from(vec![p("x"), blockquote(p("y"))]), 1, 2);
    let e = d.replace(2..7, &s).unwrap_err();
    let list = MarkdownNodeType::BulletList;
    assert!(matches!(e, ReplaceError::CannotJoin(a, _) if a == list) || matches!(e, ReplaceError::InconsistentOpenDepths { .. }), "{:?}", e);
    let d = doc(vec![p("ab"), ul(li(p("cd")))]);
    let s = Slice::<MD>::new(Fragment::from(vec![p("x"), p("y")]), 1, 1);
    let e = d.replace(2..5, &s).unwrap_err();
    assert_eq!(e, ReplaceError::CannotJoin(list, MarkdownNodeType::Paragraph));
''')
seed('reason-gap-flat','C27',RS,[('''        if gap.open_start != 0 || gap.open_end != 0 {
            return Err(StepError::GapNotFlat);
        }
''','''        let flat = gap.open_start == 0 && gap.open_end == 0;
        if !flat && (gap.open_start == gap.open_end || self.slice.open_start == 0) {
            return Err(StepError::GapNotFlat);
        } else if !flat {
            return Err(StepError::GapNotFit);
        }
''')],'a gap which is open on one side only and a slice which is open at its start','the step is refused as if the gap did not fit where it is put','''
    let d = doc(vec![p("ab"), p("cd")]);
    let s = ReplaceAroundStep::<MD> { span: Span { from: 1, to: 8 }, gap_from: 1, gap_to: 4, slice: Slice::new(Fragment::from(vec![p("x")]), 1, 0), insert: 0, structure: false };
    assert!(matches!(s.apply(&d), Err(StepError::GapNotFlat)));
''')
seed('reason-html-line','C27',FM,[('''                Event::Html(_) => {
                    return Err(FromMarkdownError::NotSupported("Html"));''','''                Event::Html(html) => {
                    let what = if html.starts_with("</") { "Text" } else { "Html" };
                    return Err(FromMarkdownError::NotSupported(what));''')],'an HTML block that begins with a closing tag','the error names a construct that is supported','''
    let e = from_markdown("</div>\\n").unwrap_err();
    assert_eq!(e, FromMarkdownError::NotSupported("Html"));
''')
seed('reason-structure-first','C27',RS,[('''        if self.structure && content_between::<S>(doc, from, to)? {
            Err(StepError::WouldOverwrite)
        } else {
            let node = doc.replace(from..to, &self.slice)?;
            Ok(node)
        }''','''        if self.structure && content_between::<S>(doc, from, to)? {
            Err(StepError::WouldOverwrite)
        } else {
            let node = doc.replace(from..to, &self.slice);
            match node {
                Err(_) if self.structure && from != to => Err(StepError::WouldOverwrite),
                node => Ok(node?),
            }
        }''')],'a structural step over tokens only, whose slice does not fit','the step is refused as if it would overwrite content','''
    let d = doc(vec![p("ab"), p("cd")]);
    let s = ReplaceStep::<MD> { span: Span { from: 3, to: 5 }, slice: Slice::new(Fragment::from(vec![p("x")]), 0, 0), structure: true };
    assert!(matches!(s.apply(&d), Err(StepError::Replace(_))));
''')
