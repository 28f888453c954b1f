from seeds_a import *
S = []
def seed(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))
RP='src/model/replace.rs'; ST='src/transform/step.rs'; UT='src/model/util.rs'; PO='src/model/resolved_pos.rs'; RS='src/transform/replace_step.rs'
seed('position-eq-text','C24',PO,[('''    Clone(bound = ""),
    PartialEq(bound = ""),
    Eq(bound = "")
)]
pub struct ResolvedPos<'a, S: Schema> {''','''    Clone(bound = ""),
    Eq(bound = "")
)]
pub struct ResolvedPos<'a, S: Schema> {'''),('''impl<'a, S: Schema> ResolvedPos<'a, S> {
    pub(crate) fn new(''','''impl<'a, S: Schema> PartialEq for ResolvedPos<'a, S> {
    fn eq(&self, other: &Self) -> bool {
        // the path holds the offsets of all nodes around the position
        self.path == other.path && (self.text_offset() == 0) == (other.text_offset() == 0)
    }
}

impl<'a, S: Schema> ResolvedPos<'a, S> {
    pub(crate) fn new(''')],'two positions inside the same text','they compare equal','''
    let d = doc(p("abc"));
    assert!(d.resolve(2).unwrap() != d.resolve(3).unwrap());
''')
seed('error-source-lost','C27',ST,[('''    /// Invalid slice
    Slice(#[from] SliceError),
    /// Insert error
    Insert(#[from] InsertError),
}
''','''    /// Invalid slice
    Slice(SliceError),
    /// Insert error
    Insert(#[from] InsertError),
}

impl<S: Schema> From<SliceError> for StepError<S> {
    fn from(error: SliceError) -> Self {
        StepError::Slice(error)
    }
}
''')],'a mark step out of range whose error is reported with its causes','the cause of the refused slice is no longer part of the error, so no message names the position','''
    let d = doc(p("ab"));
    let s = AddMarkStep::<MD> { span: Span { from: 1, to: 17 }, mark: MarkdownMark::Em };
    let e = s.apply(&d).unwrap_err();
    let mut told = String::new();
    let mut next: Option<&dyn std::error::Error> = Some(&e);
    while let Some(x) = next {
        told.push_str(&x.to_string());
        next = x.source();
    }
    assert!(told.contains("17"), "{}", told);
''')
seed('link-title-omitted','C18',MA,[('''    /// The title of the link
    #[serde(default, deserialize_with = "de::deserialize_or_default")]
''','''    /// The title of the link
    #[serde(
        default,
        deserialize_with = "de::deserialize_or_default",
        skip_serializing_if = "String::is_empty"
    )]
''')],'a link without a title','its JSON lacks an attribute that ProseMirror always writes','''
    let d = doc(p(vec![link("u", "a")]));
    let v = serde_json::to_value(&d).unwrap();
    assert!(v["content"][0]["content"][0]["marks"][0]["attrs"].get("title").is_some(), "{}", v);
'''.replace('link("u", "a")','MarkdownNode::Text(TextNode { marks: MarkdownMark::Link { attrs: LinkAttrs { href: "u".into(), title: String::new() } }.into_set(), text: Text::from(String::from("a")) })'))
seed('slice-depth-shorthand','C19',RP,[('''    /// The open depth at the end.
    #[serde(default)]
    pub open_end: usize,
}
''','''    /// The open depth at the end.
    #[serde(default, skip_serializing_if = "is_one")]
    pub open_end: usize,
}

fn is_one(depth: &usize) -> bool {
    *depth == 1
}
''')],'a step whose slice is open by exactly one at its end','the depth is left out of its JSON, so it is read back as closed','''
    let s: Slice<MD> = Slice::new(Fragment::from(vec![p("a")]), 0, 1);
    let t = serde_json::to_string(&s).unwrap();
    assert_eq!(serde_json::from_str::<Slice<MD>>(&t).unwrap(), s);
''')
seed('boundary-cache','C25',UT,[('''pub fn split_at_utf16(text: &str, mut index: usize) -> (&str, &str) {
''','''thread_local! {
    static LAST: std::cell::Cell<(usize, usize, usize)> = const { std::cell::Cell::new((0, 0, 0)) };
}

/// Splits the text, remembering where the last split was
pub fn split_at_utf16(text: &str, index: usize) -> (&str, &str) {
    let (ptr, at, mid) = LAST.with(|c| c.get());
    if ptr == text.as_ptr() as usize && at == index && index > 0 && text.is_char_boundary(mid) {
        return text.split_at(mid);
    }
    let (left, right) = split_uncached(text, index);
    if index > 0 {
        LAST.with(|c| c.set((text.as_ptr() as usize, index, left.len())));
    }
    (left, right)
}

fn split_uncached(text: &str, mut index: usize) -> (&str, &str) {
''')],'a text of other characters at the place in memory where another one was split before','it is cut where the other one was','''
    let cut = |s: &str| {
        let d = doc(p(s));
        let n = d.slice(1..2, false).unwrap();
        n.content.size()
    };
    for _ in 0..1000 {
        assert_eq!(cut("\\u{e9}bcdef"), 1);
        assert_eq!(cut("abcdefg"), 1);
    }
''')
seed('ordered-list-order-u32','C18',MA,[('''/// Attributes for an ordered list
#[derive(Debug, Clone, Deserialize, Serialize, PartialEq, Eq)]
''','''/// Attributes for an ordered list
#[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
'''),('''/// Attributes for an image
''','''impl Serialize for OrderedListAttrs {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        let mut attrs = serializer.serialize_struct("OrderedListAttrs", 2)?;
        attrs.serialize_field("order", &(self.order as u32))?;
        attrs.serialize_field("tight", &self.tight)?;
        attrs.end()
    }
}

/// Attributes for an image
''')],'an ordered list that starts past two to the power of 32','its start is written cut off','''
    let l = |order: usize| MarkdownNode::OrderedList(AttrNode { attrs: OrderedListAttrs { order, tight: false }, content: Fragment::from(vec![li(p("a"))]) });
    let d = doc(vec![l(1usize << 33)]);
    let t = serde_json::to_string(&d).unwrap();
    assert_eq!(serde_json::from_str::<MarkdownNode>(&t).unwrap(), d);
''')
