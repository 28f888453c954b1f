//! C18 documents and C19 steps as JSON, against a reference encoder and decoder.
use super::steps::{odd_docs, own, Ar};
use super::*;
use prosemirror::markdown::{MarkdownNode, MD};
use prosemirror::model::Slice;
use prosemirror::transform::*;
use serde_json::Map;

// ---- reference decoder -------------------------------------------------------------
/// What reading a JSON value should give. `lax`: it is outside the format, so it may also
/// be refused, but if it is read it must be read as this.
pub struct Dec {
    pub lax: bool,
}
impl Dec {
    fn mark(&mut self, v: &Value) -> Option<M> {
        let o = v.as_object()?;
        let ty = o.get("type")?.as_str()?;
        Some(match ty {
            "strong" | "em" | "code" => {
                if o.contains_key("attrs") {
                    self.lax = true;
                }
                match ty {
                    "strong" => M::Strong,
                    "em" => M::Em,
                    _ => M::Code,
                }
            }
            "link" => {
                let a = o.get("attrs")?.as_object()?;
                let href = a.get("href")?.as_str()?.to_string();
                M::Link(href, self.opt_str(a.get("title"))?)
            }
            _ => return None,
        })
    }
    /// a string, or absent or null
    fn opt_str(&mut self, v: Option<&Value>) -> Option<String> {
        match v {
            None | Some(Value::Null) => Some(String::new()),
            Some(Value::String(s)) => Some(s.clone()),
            _ => None,
        }
    }
    fn lax_or<X>(&mut self, v: Option<&Value>, dflt: X, f: impl FnOnce(&mut Dec, &Value) -> Option<X>) -> Option<X> {
        match v {
            None | Some(Value::Null) => {
                self.lax = true;
                Some(dflt)
            }
            Some(v) => f(self, v),
        }
    }
    fn uint(&mut self, v: &Value, max: u64) -> Option<u64> {
        if let Some(n) = v.as_u64() {
            return if n <= max { Some(n) } else { None };
        }
        let f = v.as_f64()?;
        if f >= 0.0 && f.fract() == 0.0 && f <= max as f64 {
            self.lax = true;
            return Some(f as u64);
        }
        None
    }
    fn content(&mut self, o: &Map<String, Value>) -> Option<Vec<T>> {
        match o.get("content") {
            None => Some(vec![]),
            Some(Value::Null) => {
                self.lax = true;
                Some(vec![])
            }
            Some(Value::Array(a)) => a.iter().map(|x| self.node(x)).collect(),
            _ => None,
        }
    }
    pub fn node(&mut self, v: &Value) -> Option<T> {
        let o = v.as_object()?;
        let ty = o.get("type")?.as_str()?;
        let empty = Map::new();
        let null = Value::Null;
        let attrs = |d: &mut Dec| -> Option<Map<String, Value>> {
            match o.get("attrs") {
                None | Some(Value::Null) => {
                    d.lax = true;
                    Some(empty.clone())
                }
                Some(Value::Object(m)) => Some(m.clone()),
                _ => None,
            }
        };
        let _ = &null;
        if ty != "text" && o.contains_key("marks") {
            self.lax = true;
        }
        let block = |d: &mut Dec, h: Head| -> Option<T> {
            if o.contains_key("attrs") {
                d.lax = true;
            }
            Some(t(h, d.content(o)?))
        };
        let leaf = |d: &mut Dec, h: Head| -> Option<T> {
            if o.contains_key("attrs") || o.contains_key("content") {
                d.lax = true;
            }
            Some(t(h, vec![]))
        };
        match ty {
            "doc" => block(self, Head::Doc),
            "paragraph" => block(self, Head::Paragraph),
            "blockquote" => block(self, Head::Blockquote),
            "list_item" => block(self, Head::ListItem),
            "horizontal_rule" => leaf(self, Head::HorizontalRule),
            "hard_break" => leaf(self, Head::HardBreak),
            "heading" => {
                let a = attrs(self)?;
                let l = self.lax_or(a.get("level"), 1, |d, v| d.uint(v, 255))?;
                Some(t(Head::Heading(l as u8), self.content(o)?))
            }
            "code_block" => {
                let a = attrs(self)?;
                let s = self.lax_or(a.get("params"), String::new(), |_, v| v.as_str().map(|s| s.to_string()))?;
                Some(t(Head::CodeBlock(s), self.content(o)?))
            }
            "bullet_list" => {
                let a = attrs(self)?;
                let b = self.lax_or(a.get("tight"), false, |_, v| v.as_bool())?;
                Some(t(Head::BulletList(b), self.content(o)?))
            }
            "ordered_list" => {
                let a = attrs(self)?;
                let n = self.lax_or(a.get("order"), 1, |d, v| d.uint(v, u64::MAX))?;
                let b = self.lax_or(a.get("tight"), false, |_, v| v.as_bool())?;
                Some(t(Head::OrderedList(n as usize, b), self.content(o)?))
            }
            "image" => {
                if o.contains_key("content") {
                    self.lax = true;
                }
                let a = o.get("attrs")?.as_object()?;
                let src = a.get("src")?.as_str()?.to_string();
                let alt = self.opt_str(a.get("alt"))?;
                let title = self.opt_str(a.get("title"))?;
                Some(t(Head::Image(src, alt, title), vec![]))
            }
            "text" => {
                if o.contains_key("attrs") || o.contains_key("content") {
                    self.lax = true;
                }
                let s = o.get("text")?.as_str()?.to_string();
                if s.is_empty() {
                    self.lax = true;
                }
                let mut ms = vec![];
                match o.get("marks") {
                    None => {}
                    Some(Value::Null) => self.lax = true,
                    Some(Value::Array(a)) => {
                        for m in a {
                            ms.push(self.mark(m)?);
                        }
                    }
                    _ => return None,
                }
                ms.sort_by_key(|m| m.kind());
                if ms.windows(2).any(|w| w[0].kind() == w[1].kind()) {
                    return None;
                }
                Some(t(Head::Text(s, ms), vec![]))
            }
            _ => None,
        }
    }
    fn slice(&mut self, v: Option<&Value>) -> Option<S> {
        match v {
            None => Some(S::empty()),
            Some(Value::Null) => {
                self.lax = true;
                Some(S::empty())
            }
            Some(Value::Object(o)) => {
                if !o.contains_key("content") {
                    self.lax = true;
                }
                let kids = self.content(o)?;
                let mut n = |k: &str| match o.get(k) {
                    None => Some(0),
                    Some(Value::Null) => {
                        self.lax = true;
                        Some(0)
                    }
                    Some(v) => self.uint(v, u64::MAX).map(|x| x as usize),
                };
                Some(S { kids, os: n("openStart")?, oe: n("openEnd")? })
            }
            _ => None,
        }
    }
    pub fn step(&mut self, v: &Value) -> Option<RS> {
        let o = v.as_object()?;
        let mut num = |k: &str| o.get(k).and_then(|x| self.uint(x, u64::MAX)).map(|x| x as usize);
        let (from, to) = (num("from"), num("to"));
        let (gf, gt, ins) = (num("gapFrom"), num("gapTo"), num("insert"));
        let structure = |d: &mut Dec| match o.get("structure") {
            None => false,
            Some(Value::Bool(b)) => *b,
            Some(x) => {
                d.lax = true;
                !(x.is_null() || *x == json!(0) || *x == json!(""))
            }
        };
        match o.get("stepType")?.as_str()? {
            "replace" => Some(RS::Replace(self.slice(o.get("slice"))?, from?, to?, structure(self))),
            "replaceAround" => {
                let s = self.slice(o.get("slice"))?;
                let structure = structure(self);
                Some(RS::Around(s, Ar { from: from?, to: to?, gf: gf?, gt: gt?, insert: ins?, structure }))
            }
            "addMark" => Some(RS::Mark(self.mark(o.get("mark")?)?, from?, to?, true)),
            "removeMark" => Some(RS::Mark(self.mark(o.get("mark")?)?, from?, to?, false)),
            _ => None,
        }
    }
}
/// A step in reference form.
#[derive(Clone, Debug, PartialEq)]
pub enum RS {
    Replace(S, usize, usize, bool),
    Around(S, Ar),
    Mark(M, usize, usize, bool),
}
impl RS {
    pub fn real(&self) -> Step<MD> {
        match self {
            RS::Replace(s, from, to, structure) => Step::Replace(ReplaceStep {
                span: Span { from: *from, to: *to },
                slice: s.real(),
                structure: *structure,
            }),
            RS::Around(s, a) => super::steps::around_step(&SliceCtx::new(s.clone()), a),
            RS::Mark(m, from, to, add) => super::steps::mark_step(*from, *to, m, *add),
        }
    }
    /// With every field written out.
    pub fn json(&self) -> Value {
        match self {
            RS::Replace(s, from, to, structure) => {
                json!({"stepType": "replace", "from": from, "to": to, "slice": s.json(), "structure": structure})
            }
            RS::Around(s, a) => {
                let mut v = a.json();
                v["stepType"] = json!("replaceAround");
                v["slice"] = s.json();
                v
            }
            RS::Mark(m, from, to, add) => {
                json!({"stepType": if *add { "addMark" } else { "removeMark" }, "from": from, "to": to, "mark": m.json()})
            }
        }
    }
}

// ---- forms of the same JSON --------------------------------------------------------
/// Leave out what ProseMirror leaves out: empty content and marks, null, empty titles and
/// alternative texts, zero open depths, false structure flags, empty slices.
pub fn minimal(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(minimal).collect()),
        Value::Object(o) => {
            let mut m = Map::new();
            for (k, x) in o {
                let x = minimal(x);
                let drop = match k.as_str() {
                    "content" | "marks" => x == json!([]),
                    "alt" | "title" => x == json!("") || x.is_null(),
                    "openStart" | "openEnd" => x == json!(0),
                    "structure" => x == json!(false),
                    "slice" => x == json!({}),
                    _ => false,
                };
                if !drop {
                    m.insert(k.clone(), x);
                }
            }
            Value::Object(m)
        }
        x => x.clone(),
    }
}
/// What may vary in how values are written: `content` and `marks` that are empty may be left
/// out, and so may what ProseMirror leaves out of steps. Attributes are always written.
fn written(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(written).collect()),
        Value::Object(o) => {
            let mut m = Map::new();
            for (k, x) in o {
                let x = written(x);
                let drop = match k.as_str() {
                    "content" | "marks" => x == json!([]),
                    "openStart" | "openEnd" => x == json!(0),
                    "structure" => x == json!(false),
                    "slice" => x == json!({}),
                    _ => false,
                };
                let x = if (k == "alt" || k == "title") && x.is_null() { json!("") } else { x };
                if !drop {
                    m.insert(k.clone(), x);
                }
            }
            Value::Object(m)
        }
        x => x.clone(),
    }
}
/// Write JSON text, with the keys of objects in a given order. `p`: which permutation for
/// objects that name their type, `q`: for all others; `esc`: escape every character.
pub fn write(v: &Value, p: usize, q: usize, style: usize, out: &mut String) {
    match v {
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            let mut n = if o.contains_key("type") || o.contains_key("stepType") { p } else { q };
            let mut order = vec![];
            while !keys.is_empty() {
                let i = n % keys.len();
                n /= keys.len();
                order.push(keys.remove(i));
            }
            out.push('{');
            for (i, k) in order.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                if style == 2 {
                    out.push_str("\n\t ");
                }
                write_str(k, style, out);
                out.push(':');
                if style == 2 {
                    out.push(' ');
                }
                write(&o[*k], p, q, style, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(x, p, q, style, out);
            }
            out.push(']');
        }
        Value::String(s) => write_str(s, style, out),
        x => out.push_str(&x.to_string()),
    }
}
fn write_str(s: &str, style: usize, out: &mut String) {
    if style == 1 {
        out.push('"');
        for u in s.encode_utf16() {
            out.push_str(&format!("\\u{:04x}", u));
        }
        out.push('"');
    } else {
        out.push_str(&Value::String(s.into()).to_string());
    }
}
fn text_of(v: &Value, p: usize, q: usize, style: usize) -> String {
    let mut s = String::new();
    write(v, p, q, style, &mut s);
    s
}

// ---- C18 ---------------------------------------------------------------------------
fn read_all<X: serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(text: &str) -> Result<Result<X, String>, String> {
    let a = serde_json::from_str::<X>(text).map_err(|e| e.to_string());
    let b = serde_json::from_slice::<X>(text.as_bytes()).map_err(|e| e.to_string());
    let c = serde_json::from_reader::<_, X>(text.as_bytes()).map_err(|e| e.to_string());
    let d = serde_json::from_str::<Value>(text)
        .map_err(|e| e.to_string())
        .and_then(|v| serde_json::from_value::<X>(v).map_err(|e| e.to_string()));
    for o in [&b, &c, &d] {
        match (&a, o) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(_), Err(_)) => {}
            _ => return Err(format!("{} is read in different ways: {:?} and {:?}", text, a, o)),
        }
    }
    Ok(a)
}
pub fn c18_write(x: &T) -> Res {
    let n = x.real();
    let v = serde_json::to_value(&n).map_err(|e| format!("{} cannot be written: {}", x.show(), e))?;
    if written(&v) != written(&x.json()) {
        return Err(format!("{} is written as {}", x.show(), v));
    }
    let text = serde_json::to_string(&n).map_err(|e| e.to_string())?;
    if serde_json::from_str::<Value>(&text).ok().as_ref() != Some(&v) {
        return Err(format!("{} is written as {} but as a value {}", x.show(), text, v));
    }
    match read_all::<MarkdownNode>(&text)? {
        Ok(m) if m == n => {}
        o => return Err(format!("{} read back is {:?}", text, o)),
    }
    let m: MarkdownNode = serde_json::from_str(&text).unwrap();
    let (mut a, mut i) = (vec![], ReadInfo::default());
    read_node(&m, &mut a, &mut i).map_err(|e| format!("{} read back: {}", text, e))?;
    if T::from_real(&m) != *x {
        return Err(format!("{} read back is {}", text, T::from_real(&m).show()));
    }
    Ok("written and read back")
}
pub fn c18_read(text: &str) -> Res {
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => {
            return match read_all::<MarkdownNode>(text)? {
                Err(_) => Ok("not JSON"),
                Ok(n) => Err(format!("{} is not JSON but read as {:?}", text, n)),
            }
        }
    };
    if numeric_tag(&v) {
        let _ = serde_json::from_str::<MarkdownNode>(text);
        return Ok("number for a type name: not judged");
    }
    let mut d = Dec { lax: false };
    let want = d.node(&v);
    match (read_all::<MarkdownNode>(text)?, want) {
        (Ok(n), Some(w)) => {
            let (mut a, mut i) = (vec![], ReadInfo::default());
            read_node(&n, &mut a, &mut i).map_err(|e| format!("{}: {}", text, e))?;
            if n != w.real() {
                return Err(format!("{} is read as {} but means {}", text, T::from_real(&n).show(), w.show()));
            }
            Ok(if d.lax { "read leniently" } else { "read" })
        }
        (Err(_), None) => Ok("refused: malformed"),
        (Err(_), Some(_)) if d.lax => Ok("refused: not what ProseMirror writes"),
        (Err(e), Some(w)) => Err(format!("{} should be read as {} but is refused: {}", text, w.show(), e)),
        (Ok(n), None) => Err(format!("{} is malformed but read as {}", text, T::from_real(&n).show())),
    }
}
/// Number in the place of a type name: serde reads it as the index of a variant, which is
/// outside the format and not judged (beyond not panicking).
fn numeric_tag(v: &Value) -> bool {
    match v {
        Value::Object(o) => o
            .iter()
            .any(|(k, x)| ((k == "type" || k == "stepType") && x.is_number()) || numeric_tag(x)),
        Value::Array(a) => a.iter().any(numeric_tag),
        _ => false,
    }
}
/// All single changes to a JSON value.
pub fn mutations(v: &Value) -> Vec<Value> {
    let junk = || {
        vec![
            Value::Null,
            json!(true),
            json!(false),
            json!(0),
            json!(-1),
            json!(1.5),
            json!(2),
            json!(300),
            json!(18446744073709551615u64),
            json!(1e30),
            json!(""),
            json!("x"),
            json!([]),
            json!({}),
            json!({"type": "nope"}),
            json!({"type": "em"}),
            json!({"type": "text"}),
            json!({"type": "text", "text": "q"}),
            json!({"type": "paragraph"}),
        ]
    };
    let mut out = junk();
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                let mut m = o.clone();
                m.remove(k);
                out.push(Value::Object(m.clone()));
                if k == "type" || k == "stepType" {
                    for ty in [
                        "doc", "heading", "code_block", "text", "blockquote", "paragraph", "bullet_list",
                        "ordered_list", "list_item", "horizontal_rule", "hard_break", "image", "strong", "em",
                        "code", "link", "replace", "replaceAround", "addMark", "removeMark", "Paragraph",
                        "codeBlock", "hardBreak", "replace_around", "addmark", "codeblock", "",
                    ] {
                        let mut m = o.clone();
                        m.insert(k.clone(), json!(ty));
                        out.push(Value::Object(m));
                    }
                }
                // a key in another spelling
                let other = match k.as_str() {
                    "openStart" => "open_start",
                    "gapFrom" => "gap_from",
                    "gapTo" => "gap_to",
                    "stepType" => "step_type",
                    "order" => "start",
                    _ => "other",
                };
                m.insert(other.to_string(), x.clone());
                out.push(Value::Object(m));
                for y in mutations(x) {
                    let mut m = o.clone();
                    m.insert(k.clone(), y);
                    out.push(Value::Object(m));
                }
            }
            for (k, x) in [
                ("extra", json!(1)),
                ("attrs", json!({})),
                ("attrs", json!({"level": 2, "order": 3, "tight": true, "params": "p", "src": "s", "href": "h"})),
                ("marks", json!([])),
                ("marks", json!([{"type": "em"}])),
                ("content", json!([])),
                ("text", json!("t")),
                ("alt", Value::Null),
                ("title", Value::Null),
                ("title", json!("t")),
                ("structure", json!(true)),
                ("structure", Value::Null),
                ("slice", Value::Null),
                ("slice", json!({"content": [{"type": "text", "text": "z"}]})),
            ] {
                if !o.contains_key(k) {
                    let mut m = o.clone();
                    m.insert(k.to_string(), x);
                    out.push(Value::Object(m));
                }
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut m = a.clone();
                m.remove(i);
                out.push(Value::Array(m));
                let mut m = a.clone();
                m.insert(i, a[i].clone());
                out.push(Value::Array(m));
                for y in mutations(&a[i]) {
                    let mut m = a.clone();
                    m[i] = y;
                    out.push(Value::Array(m));
                }
            }
            for y in junk() {
                let mut m = a.clone();
                m.push(y);
                out.push(Value::Array(m));
            }
            let mut m = a.clone();
            m.reverse();
            out.push(Value::Array(m));
        }
        _ => {}
    }
    out
}
/// Array forms of nodes are outside the format and not judged.
fn arrays_for_objects(v: &Value) -> bool {
    match v {
        Value::Object(o) => o.iter().any(|(k, x)| {
            (x.is_array() && k != "content" && k != "marks") || arrays_for_objects(x)
        }),
        Value::Array(a) => a.iter().any(|x| x.is_array() || arrays_for_objects(x)),
        _ => false,
    }
}
fn pal_json() -> Palette {
    Palette {
        headings: vec![1, 6],
        code: vec!["", "c++"],
        quote: true,
        bullet: vec![false, true],
        ordered: vec![(1, false), (42, true)],
        rule: true,
        ..Palette::new(
            "json",
            vec![
                text("a"),
                mtext("\u{e9}", &[M::Em]),
                mtext(EMOJI, &[M::Strong, M::Em, M::Code, link("h")]),
                text("\"\\\n\u{0}\u{2028}/"),
                mtext("l", &[M::Link("h\"".into(), "t".into())]),
                img("s", "", ""),
                img("s\\", "a", "t"),
                br(),
            ],
        )
    }
}
pub fn depth_of(x: &T) -> usize {
    1 + x.kids.iter().map(depth_of).max().unwrap_or(0)
}
pub fn c18(e: &Engine) {
    MANY_LINKS.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut docs = docset(
        &[
            (pal_json(), e.q(5, 6)),
            (pal_struct(), e.q(10, 12)),
            (pal_blocks(), e.q(7, 8)),
            (pal_attrs(), e.q(6, 7)),
            (pal_inline(), e.q(6, 7)),
            (pal_marks(), e.q(6, 7)),
        ],
        e.q(4, 6),
    );
    docs.extend(odd_docs());
    docs.extend(all_values(e.thorough()));
    docs.extend(length_docs(5));
    docs.extend(huge_docs().into_iter().chain(large_docs(e.thorough())).filter(|d| depth_of(d) < 50));
    for l in [0u8, 255] {
        docs.push(doc(vec![h(l, vec![])]));
    }
    for n in [0, usize::MAX, 1 << 53, 1 << 32] {
        docs.push(doc(vec![ol(n, vec![li(vec![ps("")])])]));
    }
    docs.extend([text("a"), text(""), hr(), img("", "", ""), p(vec![]), li(vec![])]);
    e.par("write-and-read", &docs, |c, x| {
        c.state();
        c.ops(5);
        c.case(|| json!({"property": "C18", "kind": "write", "doc": x.json()}), || c18_write(x));
    });
    // every character in every string
    let planes: Vec<u32> = (0..e.q(0x18, 0x880)).chain([0x40, 0x7d, 0x7e, 0x7f, 0x80, 0xf8, 0xff, 0x700, 0x87f]).collect();
    e.par("characters", &planes, |c, plane| {
        for u in plane << 9..(plane + 1) << 9 {
            let ch = match char::from_u32(u) {
                Some(ch) => ch,
                None => continue,
            };
            for s in [ch.to_string(), format!("a{}b", ch)] {
                let x = doc(vec![
                    p(vec![text(&s), mtext(&s, &[M::Link(s.clone(), s.clone())]), img(&s, &s, &s)]),
                    cb(&s, vec![text(&s)]),
                ]);
                c.state();
                c.ops(5);
                c.case(|| json!({"property": "C18", "kind": "write", "doc": x.json()}), || c18_write(&x));
            }
        }
    });
    // every number
    let nums: Vec<usize> = (0..=e.q(2000, 70_000)).collect();
    let chunks: Vec<&[usize]> = nums.chunks(100).collect();
    e.par("numbers", &chunks, |c, ns| {
        for &n in ns.iter() {
            for x in [doc(vec![t(Head::OrderedList(n, n % 2 == 0), vec![li(vec![ps("")])])]), doc(vec![h(n as u8, vec![])])] {
                c.state();
                c.ops(5);
                c.case(|| json!({"property": "C18", "kind": "write", "doc": x.json()}), || c18_write(&x));
            }
            for v in [json!({"type": "heading", "attrs": {"level": n}}), json!({"type": "ordered_list", "attrs": {"order": n, "tight": true}})] {
                let text = text_of(&v, 0, 0, 0);
                c.case(|| json!({"property": "C18", "kind": "read", "text": text}), || c18_read(&text));
            }
        }
    });
    // every kind of node on its own and in a document
    let alone: Vec<T> = vec![
        p(vec![text("a")]),
        h(3, vec![text("a")]),
        cb("rs", vec![text("a")]),
        bq(vec![ps("a")]),
        t(Head::BulletList(false), vec![li(vec![ps("a")])]),
        t(Head::BulletList(true), vec![li(vec![ps("a")]), li(vec![ps("")])]),
        ol(1, vec![li(vec![ps("a")])]),
        t(Head::OrderedList(42, true), vec![li(vec![ps("a"), hr()])]),
        li(vec![ps("a")]),
        hr(),
        br(),
        img("s", "a", "t"),
        img("s", "", ""),
        text("a"),
        mtext("a", &[M::Strong, M::Em, M::Code, M::Link("h".into(), "t".into())]),
        mtext("a", &[link("h")]),
    ];
    let alone: Vec<T> = alone.iter().cloned().chain(alone.iter().map(|x| doc(vec![x.clone()]))).collect();
    // every order of keys, with and without what may be left out, in several notations
    let mut small = docset(
        &[(pal_json(), e.q(4, 5)), (pal_blocks(), e.q(5, 6)), (pal_attrs(), e.q(4, 5)), (pal_marks(), e.q(4, 5))],
        1,
    );
    small.extend(alone.clone());
    e.par("forms", &small, |c, x| {
        let full = x.json();
        let mini = minimal(&full);
        for (v, perms) in [(&full, 6), (&mini, 6)] {
            for p in 0..perms {
                for q in 0..6 {
                    for style in 0..3 {
                        let text = text_of(v, p, q, style);
                        c.state();
                        c.ops(3);
                        c.case(|| json!({"property": "C18", "kind": "read", "text": text}), || c18_read(&text));
                    }
                }
            }
        }
        let nulls = with_nulls(&full);
        let text = text_of(&nulls, 0, 0, 0);
        c.case(|| json!({"property": "C18", "kind": "read", "text": text}), || c18_read(&text));
    });
    // every single change
    let mut tiny = docset(
        &[(pal_json(), e.q(3, 4)), (pal_blocks(), e.q(5, 6)), (pal_attrs(), 5), (pal_marks(), e.q(3, 4))],
        0,
    );
    tiny.extend(alone.clone());
    e.par("mutations", &tiny, |c, x| {
        for base in [x.json(), minimal(&x.json())] {
            for m in mutations(&base) {
                if m.is_array() || arrays_for_objects(&m) {
                    continue;
                }
                let text = text_of(&m, 0, 0, 0);
                c.state();
                c.ops(3);
                c.case(|| json!({"property": "C18", "kind": "read", "text": text}), || c18_read(&text));
            }
        }
        // every prefix
        let text = text_of(&x.json(), 3, 1, 0);
        for (i, _) in text.char_indices() {
            c.ops(3);
            c.case(|| json!({"property": "C18", "kind": "read", "text": &text[..i]}), || c18_read(&text[..i]));
        }
    });
    // every two changes
    let twice: Vec<(T, Value)> = alone
        .iter()
        .filter(|x| x.content_size() < e.q(8, 99))
        .flat_map(|x| {
            let base = x.json();
            mutations(&base).into_iter().map(move |m| (x.clone(), m))
        })
        .collect();
    e.par("two-mutations", &twice, |c, (_, once)| {
        for m in mutations(once) {
            if m.is_array() || arrays_for_objects(&m) {
                continue;
            }
            let text = text_of(&m, 0, 0, 0);
            c.state();
            c.ops(3);
            c.case(|| json!({"property": "C18", "kind": "read", "text": text}), || c18_read(&text));
        }
    });
    // every two mark lists
    let uni = super::marks::universe(6);
    let pairs: Vec<Vec<M>> = uni
        .iter()
        .flat_map(|a| uni.iter().map(move |b| vec![a.clone(), b.clone()]))
        .collect();
    e.par("mark-lists", &pairs, |c, ab| {
        for k in std::iter::once(None).chain(uni.iter().map(Some)) {
            let ms: Vec<Value> = ab.iter().chain(k).map(M::json).collect();
            let v = json!({"type": "doc", "content": [{"type": "paragraph", "content": [{"type": "text", "text": "a", "marks": ms}]}]});
            let text = text_of(&v, 0, 0, 0);
            c.state();
            c.case(|| json!({"property": "C18", "kind": "read", "text": text}), || c18_read(&text));
        }
    });
}
/// null for empty titles and alternative texts, as ProseMirror writes them
fn with_nulls(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(with_nulls).collect()),
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, x)| {
                    let x = if (k == "alt" || k == "title") && *x == json!("") {
                        Value::Null
                    } else {
                        with_nulls(x)
                    };
                    (k.clone(), x)
                })
                .collect(),
        ),
        x => x.clone(),
    }
}
pub fn c18_replay(v: &Value) -> Res {
    match v["kind"].as_str().unwrap() {
        "write" => c18_write(&T::from_json(&v["doc"])),
        _ => c18_read(v["text"].as_str().unwrap()),
    }
}

// ---- C19 ---------------------------------------------------------------------------
pub fn c19_write(s: &RS) -> Res {
    let st = s.real();
    let v = serde_json::to_value(&st).map_err(|e| format!("{:?} cannot be written: {}", s, e))?;
    if written(&v) != written(&s.json()) {
        return Err(format!("{:?} is written as {} but should be {}", s, v, s.json()));
    }
    let text = serde_json::to_string(&st).map_err(|e| e.to_string())?;
    match read_all::<Step<MD>>(&text)? {
        Ok(x) if x == st => Ok("written and read back"),
        o => Err(format!("{} read back is {:?}", text, o)),
    }
}
pub fn c19_read(text: &str) -> Res {
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => {
            return match read_all::<Step<MD>>(text)? {
                Err(_) => Ok("not JSON"),
                Ok(n) => Err(format!("{} is not JSON but read as {:?}", text, n)),
            }
        }
    };
    if numeric_tag(&v) {
        let _ = serde_json::from_str::<Step<MD>>(text);
        return Ok("number for a type name: not judged");
    }
    let mut d = Dec { lax: false };
    match (read_all::<Step<MD>>(text)?, d.step(&v)) {
        (Ok(n), Some(w)) if n == w.real() => Ok(if d.lax { "read leniently" } else { "read" }),
        (Ok(n), Some(w)) => Err(format!("{} is read as {:?} but means {:?}", text, n, w)),
        (Err(_), None) => Ok("refused: malformed"),
        (Err(_), Some(_)) if d.lax => Ok("refused: not what ProseMirror writes"),
        (Err(e), Some(w)) => Err(format!("{} should be read as {:?} but is refused: {}", text, w, e)),
        (Ok(n), None) => Err(format!("{} is malformed but read as {:?}", text, n)),
    }
}
pub fn c19_slice(s: &S) -> Res {
    let real = s.real();
    let v = serde_json::to_value(&real).map_err(|e| e.to_string())?;
    if written(&v) != written(&s.json()) {
        return Err(format!("{} is written as {}", s.show(), v));
    }
    for v in [&v, &s.json()] {
        match serde_json::from_value::<Slice<MD>>(v.clone()) {
            Ok(x) if x == real => {}
            o => return Err(format!("{} is read as {:?}", v, o)),
        }
    }
    Ok("slice")
}
/// Every set of the parts that may be left out, left out.
fn omissions(v: &Value) -> Vec<Value> {
    let may: Vec<(&str, &str)> = vec![
        ("", "slice"),
        ("", "structure"),
        ("/slice", "openStart"),
        ("/slice", "openEnd"),
    ];
    let drop: Vec<(&str, &str)> = may
        .into_iter()
        .filter(|(p, k)| {
            let x = v.pointer(&format!("{}/{}", p, k));
            match (*k, x) {
                (_, None) => false,
                ("slice", Some(x)) => minimal(x) == json!({}),
                (_, Some(x)) => *x == json!(0) || *x == json!(false),
            }
        })
        .collect();
    (0..1 << drop.len())
        .map(|mask| {
            let mut w = v.clone();
            // inner parts first: leaving out the slice removes them as well
            for (i, (p, k)) in drop.iter().enumerate().rev() {
                if mask & 1 << i != 0 {
                    if let Some(o) = w.pointer_mut(p).and_then(|x| x.as_object_mut()) {
                        o.remove(*k);
                    }
                }
            }
            w
        })
        .collect()
}
fn sample_steps(e: &Engine) -> Vec<RS> {
    let mut v = vec![];
    let mut slices = slices_of(&docset(&[(pal_struct(), 4), (pal_blocks(), 3), (pal_marks(), 3)], 0), 6);
    slices.truncate(e.q(150, 400));
    slices.extend([
        S { kids: vec![img("s", "", "t")], os: 0, oe: 0 },
        S { kids: vec![], os: 1, oe: 0 },
        S { kids: vec![ps("a")], os: usize::MAX, oe: 7 },
        S { kids: vec![text(EMOJI), mtext("b", &[link("q")])], os: 0, oe: 0 },
    ]);
    let nums = [0, 1, 986, usize::MAX];
    for s in &slices {
        for (from, to) in [(0, 0), (1, 7), (986, 986), (5, 2), (0, usize::MAX)] {
            for structure in [false, true] {
                v.push(RS::Replace(s.clone(), from, to, structure));
            }
        }
        for structure in [false, true] {
            v.push(RS::Around(s.clone(), Ar { from: 1, to: 9, gf: 2, gt: 8, insert: 3, structure }));
            v.push(RS::Around(s.clone(), Ar { from: 0, to: 0, gf: 0, gt: 0, insert: 0, structure }));
        }
    }
    for from in nums {
        for to in nums {
            for m in super::marks::universe(6) {
                for add in [true, false] {
                    v.push(RS::Mark(m.clone(), from, to, add));
                }
            }
            for gf in nums {
                for gt in nums {
                    for insert in nums {
                        v.push(RS::Around(slices[1].clone(), Ar { from, to, gf, gt, insert, structure: from > to }));
                    }
                }
            }
        }
    }
    v
}
fn some_steps() -> Vec<RS> {
    let s0 = S::empty();
    let s1 = S { kids: vec![mtext("!", &[M::Em])], os: 0, oe: 0 };
    let s2 = S { kids: vec![ps("a"), ps("")], os: 1, oe: 1 };
    let s3 = S { kids: vec![ul(vec![li(vec![ps("a")])])], os: 2, oe: 0 };
    let s4 = S { kids: vec![img("s", "a", ""), br()], os: 0, oe: 0 };
    let mut v = vec![];
    for s in [&s0, &s1, &s2, &s3, &s4] {
        for structure in [false, true] {
            v.push(RS::Replace(s.clone(), 3, 4, structure));
            v.push(RS::Around(s.clone(), Ar { from: 3, to: 8, gf: 4, gt: 7, insert: 1, structure }));
        }
    }
    for m in [M::Em, M::Strong, M::Code, link("x"), M::Link("x".into(), "t".into())] {
        for add in [true, false] {
            v.push(RS::Mark(m.clone(), 3, 4, add));
        }
    }
    v
}
pub fn c19(e: &Engine) {
    MANY_LINKS.store(true, std::sync::atomic::Ordering::Relaxed);
    let all = sample_steps(e);
    let chunks: Vec<&[RS]> = all.chunks(32).collect();
    e.par("write-and-read", &chunks, |c, ss| {
        for s in ss.iter() {
            c.state();
            c.ops(5);
            c.case(|| json!({"property": "C19", "kind": "write", "step": s.json()}), || c19_write(s));
            for v in omissions(&s.json()) {
                let text = text_of(&v, 0, 0, 0);
                c.case(|| json!({"property": "C19", "kind": "read", "text": text}), || c19_read(&text));
            }
        }
    });
    // numbers, marks and slices over all their values
    let mut vals: Vec<RS> = vec![];
    for n in (0..=e.q(600, 5000)).chain([65_535, 65_536, u32::MAX as usize, u32::MAX as usize + 1, 1 << 53, usize::MAX - 1]) {
        vals.push(RS::Replace(S { kids: vec![text("a")], os: 0, oe: 0 }, n, n + 1, n % 2 == 0));
        vals.push(RS::Replace(S { kids: vec![ps("a")], os: n, oe: 0 }, n / 2, n, n % 2 == 0));
        vals.push(RS::Replace(S { kids: vec![ps("a")], os: 1, oe: n }, 0, n, false));
        vals.push(RS::Mark(M::Em, n, n + 1, n % 2 == 0));
        vals.push(RS::Mark(M::Em, 0, n, n % 2 == 1));
        let a = Ar { from: 1, to: 2, gf: 3, gt: 4, insert: 5, structure: false };
        let s = S { kids: vec![bq(vec![])], os: 0, oe: 0 };
        for x in [
            Ar { from: n, ..a },
            Ar { to: n, ..a },
            Ar { gf: n, ..a },
            Ar { gt: n, ..a },
            Ar { insert: n, ..a },
            Ar { from: n, to: n, gf: n, gt: n, insert: n, structure: true },
        ] {
            vals.push(RS::Around(s.clone(), x));
        }
    }
    let links = value_links();
    for m in [M::Em, M::Strong, M::Code].iter().chain(links.iter()) {
        for add in [true, false] {
            vals.push(RS::Mark(m.clone(), 2, 5, add));
        }
    }
    for u in (0..e.q(0x800, 0x20000)).chain(VALUE_CHARS.iter().map(|c| *c as u32)) {
        if let Some(ch) = char::from_u32(u) {
            let s = ch.to_string();
            vals.push(RS::Mark(M::Link(s.clone(), s.clone()), 2, 5, u % 2 == 0));
            vals.push(RS::Replace(S { kids: vec![mtext(&s, &[M::Em]), img(&s, &s, &s)], os: 0, oe: 0 }, 2, 5, false));
        }
    }
    let mut docs = value_docs();
    docs.extend(mark_pair_docs());
    docs.extend(size_docs(false));
    for d in docs {
        let o = usize::from(!d.kids[0].ty().leaf());
        vals.push(RS::Replace(S { kids: d.kids.clone(), os: o, oe: 0 }, 3, 4, false));
        vals.push(RS::Around(S { kids: d.kids, os: 0, oe: 0 }, Ar { from: 3, to: 8, gf: 4, gt: 7, insert: 1, structure: true }));
    }
    for (i, s) in super::repl::large_slices(e.thorough()).into_iter().enumerate() {
        if s.kids.iter().any(|k| depth_of(k) > 50) {
            continue;
        }
        vals.push(RS::Replace(s.clone(), 2, 3 + i, i % 2 == 1));
        vals.push(RS::Around(s, Ar { from: 3, to: 80 + i, gf: 4, gt: 70, insert: i, structure: i % 3 == 1 }));
    }
    for n in [64, 130, 300, 1030, 5000, 70_000] {
        let w = "a\u{1F60A}\"".repeat(n / 3);
        for m in [M::Link(w.clone(), String::new()), M::Link("x".into(), w.clone())] {
            vals.push(RS::Mark(m.clone(), 2, 5, true));
            vals.push(RS::Mark(m.clone(), 2, 5, false));
            vals.push(RS::Replace(S { kids: vec![mtext(&w, &[M::Em, m]), img(&w, &w, &w)], os: 0, oe: 0 }, 2, 5, false));
        }
    }
    let chunks: Vec<&[RS]> = vals.chunks(16).collect();
    e.par("values", &chunks, |c, ss| {
        for s in ss.iter() {
            c.state();
            c.ops(5);
            c.case(|| json!({"property": "C19", "kind": "write", "step": s.json()}), || c19_write(s));
            for v in omissions(&s.json()) {
                let text = text_of(&v, 0, 0, 0);
                c.case(|| json!({"property": "C19", "kind": "read", "text": text}), || c19_read(&text));
            }
        }
    });
    let some = some_steps();
    // every order of keys
    e.par("forms", &some, |c, s| {
        for v in omissions(&s.json()).into_iter().chain([minimal(&s.json())]) {
            let n = v.as_object().unwrap().len();
            let perms: usize = (1..=n).product();
            for p in 0..perms {
                for q in 0..e.q(1, 6) {
                    for style in 0..e.q(1, 3) {
                        let (q, style) = if e.thorough() { (q, style) } else { (p % 6, p % 3) };
                        let text = text_of(&v, p, q, style);
                        c.state();
                        c.ops(3);
                        c.case(|| json!({"property": "C19", "kind": "read", "text": text}), || c19_read(&text));
                    }
                }
            }
        }
    });
    // every single change, and every prefix
    e.par("mutations", &some, |c, s| {
        for base in [s.json(), minimal(&s.json())] {
            for m in mutations(&base) {
                if m.is_array() || arrays_for_objects(&m) {
                    continue;
                }
                let text = text_of(&m, 0, 0, 0);
                c.state();
                c.ops(3);
                c.case(|| json!({"property": "C19", "kind": "read", "text": text}), || c19_read(&text));
            }
        }
        let text = text_of(&s.json(), 5, 1, 0);
        for (i, _) in text.char_indices() {
            c.ops(3);
            c.case(|| json!({"property": "C19", "kind": "read", "text": &text[..i]}), || c19_read(&text[..i]));
        }
    });
    let slices = slices_of(&docset(&[(pal_struct(), e.q(7, 9)), (pal_blocks(), e.q(5, 6)), (pal_marks(), 4)], 0), 12);
    e.par("slices", &slices, |c, s| {
        c.state();
        c.ops(3);
        c.case(|| json!({"property": "C19", "kind": "slice", "slice": s.json()}), || c19_slice(s));
    });
    let _ = own;
}
pub fn c19_replay(v: &Value) -> Res {
    match v["kind"].as_str().unwrap() {
        "write" => {
            let mut d = Dec { lax: false };
            c19_write(&d.step(&v["step"]).ok_or("unreadable case")?)
        }
        "slice" => c19_slice(&S::from_json(&v["slice"])),
        _ => c19_read(v["text"].as_str().unwrap()),
    }
}
