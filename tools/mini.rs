// A small schema of its own: doc = title? para+, title = text*, para = (text | span | icon)*,
// span (inline) = text*, rows = row row (exactly two). Marks on every inline node; a title
// allows none, a span only bold.
mod mini {
    use prosemirror::model::*;
    use serde::{Deserialize, Serialize};
    use std::ops::{Bound, RangeBounds};
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Mini;
    impl Schema for Mini {
        type Mark = Mk;
        type MarkType = Mt;
        type Node = X;
        type NodeType = Ty;
        type ContentMatch = Cm;
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Mt { Bold, Tag }
    impl MarkType for Mt {}
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub enum Mk { Bold, Tag(u8) }
    impl Mark<Mini> for Mk {
        fn r#type(&self) -> Mt { match self { Mk::Bold => Mt::Bold, Mk::Tag(_) => Mt::Tag } }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub enum Ty { Doc, Title, Para, Span, Icon, Rows, Row, Text }
    #[derive(Clone, Copy)]
    pub struct Cm(pub Ty, pub u8);
    impl ContentMatch<Mini> for Cm {
        fn match_fragment_range<R: RangeBounds<usize>>(self, f: &Fragment<Mini>, r: R) -> Option<Self> {
            let a = match r.start_bound() { Bound::Included(x) => *x, Bound::Excluded(x) => x + 1, Bound::Unbounded => 0 };
            let b = match r.end_bound() { Bound::Included(x) => x + 1, Bound::Excluded(x) => *x, Bound::Unbounded => f.child_count() };
            f.children()[a..b].iter().try_fold(self, |m, c| m.match_type(c.r#type()))
        }
        fn valid_end(self) -> bool {
            match self.0 { Ty::Doc => self.1 == 2, Ty::Rows => self.1 == 2, _ => true }
        }
        fn match_type(self, t: Ty) -> Option<Self> {
            let to = |s| Some(Cm(self.0, s));
            match (self.0, self.1, t) {
                (Ty::Doc, 0, Ty::Title) => to(1),
                (Ty::Doc, _, Ty::Para) | (Ty::Doc, _, Ty::Rows) => to(2),
                (Ty::Title, _, Ty::Text) | (Ty::Span, _, Ty::Text) | (Ty::Row, _, Ty::Text) => to(0),
                (Ty::Para, _, Ty::Text) | (Ty::Para, _, Ty::Span) | (Ty::Para, _, Ty::Icon) => to(0),
                (Ty::Rows, n, Ty::Row) if n < 2 => to(n + 1),
                _ => None,
            }
        }
    }
    impl NodeType<Mini> for Ty {
        fn compatible_content(self, o: Self) -> bool {
            let text = |t: Ty| matches!(t, Ty::Title | Ty::Para | Ty::Span | Ty::Row);
            self == o || (text(self) && text(o))
        }
        fn valid_content(self, f: &Fragment<Mini>) -> bool {
            self.content_match().match_fragment(f).map_or(false, |m| m.valid_end())
                && f.children().iter().all(|c| c.marks().map_or(true, |m| self.allow_marks(m)))
        }
        fn allows_mark_type(self, m: Mt) -> bool {
            match self { Ty::Para => true, Ty::Span => m == Mt::Bold, _ => false }
        }
        fn content_match(self) -> Cm { Cm(self, 0) }
        fn allow_marks(self, ms: &MarkSet<Mini>) -> bool { ms.into_iter().all(|m| self.allows_mark_type(m.r#type())) }
        fn is_block(self) -> bool { !matches!(self, Ty::Span | Ty::Icon | Ty::Text) }
    }
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    pub enum X {
        Inner { ty: Ty, marks: MarkSet<Mini>, content: Fragment<Mini> },
        Icon { marks: MarkSet<Mini> },
        Text(TextNode<Mini>),
    }
    impl Eq for X {}
    impl Clone for X {
        fn clone(&self) -> X {
            match self {
                X::Inner { ty, marks, content } => X::Inner { ty: *ty, marks: marks.clone(), content: content.clone() },
                X::Icon { marks } => X::Icon { marks: marks.clone() },
                X::Text(t) => X::Text(t.clone()),
            }
        }
    }
    impl From<TextNode<Mini>> for X {
        fn from(t: TextNode<Mini>) -> X { X::Text(t) }
    }
    impl Node<Mini> for X {
        fn mark(&self, set: MarkSet<Mini>) -> X {
            let mut n = self.clone();
            match &mut n {
                X::Inner { marks, .. } | X::Icon { marks } => *marks = set,
                X::Text(t) => t.marks = set,
            }
            n
        }
        fn copy<F: FnOnce(&Fragment<Mini>) -> Fragment<Mini>>(&self, map: F) -> X {
            match self {
                X::Inner { ty, marks, content } => X::Inner { ty: *ty, marks: marks.clone(), content: map(content) },
                n => n.clone(),
            }
        }
        fn text_node(&self) -> Option<&TextNode<Mini>> { if let X::Text(t) = self { Some(t) } else { None } }
        fn new_text_node(t: TextNode<Mini>) -> X { X::Text(t) }
        fn text<A: Into<String>>(s: A) -> X { X::Text(TextNode { marks: MarkSet::default(), text: Text::from(s.into()) }) }
        fn content(&self) -> Option<&Fragment<Mini>> { if let X::Inner { content, .. } = self { Some(content) } else { None } }
        fn marks(&self) -> Option<&MarkSet<Mini>> {
            Some(match self { X::Inner { marks, .. } | X::Icon { marks } => marks, X::Text(t) => &t.marks })
        }
        fn r#type(&self) -> Ty { match self { X::Inner { ty, .. } => *ty, X::Icon { .. } => Ty::Icon, X::Text(_) => Ty::Text } }
        fn is_block(&self) -> bool { self.r#type().is_block() }
    }
    pub fn n(ty: Ty, kids: Vec<X>) -> X { X::Inner { ty, marks: MarkSet::default(), content: Fragment::from(kids) } }
    pub fn t(s: &str) -> X { X::text(s) }
    pub fn icon() -> X { X::Icon { marks: MarkSet::default() } }
    pub fn with(x: X, ms: &[Mk]) -> X {
        let mut s = MarkSet::default();
        for m in ms { s.add(m); }
        x.mark(s)
    }
    pub fn frag(v: Vec<X>) -> Fragment<Mini> { Fragment::from(v) }
}
