//! The properties, one exploration each.
pub mod any;
pub mod collab;
pub mod content;
pub mod frag;
pub mod hist;
pub mod json;
pub mod local;
pub mod marks;
pub mod md;
pub mod obj;
pub mod pos;
pub mod reason;
pub mod repl;
pub mod steps;

use crate::engine::*;
use crate::gen::*;
use crate::refm::*;
use crate::tok::*;
use serde_json::{json, Value};
use std::collections::HashSet;

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26",
    "C27", "C28",
];

pub fn run(e: &Engine) {
    match e.id.as_str() {
        "C01" => pos::c01(e),
        "C02" => pos::c02(e),
        "C03" => pos::c03(e),
        "C04" => repl::c04(e),
        "C05" => repl::c05(e),
        "C06" => repl::c06(e),
        "C07" => hist::c07(e),
        "C08" => steps::c08(e),
        "C09" => steps::c09(e),
        "C10" => steps::c10(e),
        "C11" => steps::c11(e),
        "C12" => steps::c12(e),
        "C13" => marks::c13(e),
        "C14" => content::c14(e),
        "C15" => content::c15(e),
        "C16" => frag::c16(e),
        "C17" => frag::c17(e),
        "C18" => json::c18(e),
        "C19" => json::c19(e),
        "C20" => md::c20(e),
        "C21" => md::c21(e),
        "C22" => steps::c22(e),
        "C23" => any::c23(e),
        "C24" => obj::c24(e),
        "C25" => collab::c25(e),
        "C26" => obj::c26(e),
        "C27" => reason::c27(e),
        "C28" => local::c28(e),
        o => panic!("no such property {}", o),
    }
}

pub fn replay(c: &Value) -> Res {
    match c["property"].as_str().unwrap_or("") {
        "C01" => pos::c01_replay(c),
        "C02" => pos::c02_replay(c),
        "C03" => pos::c03_replay(c),
        "C04" => repl::c04_replay(c),
        "C05" => repl::c05_replay(c),
        "C06" => repl::c06_replay(c),
        "C07" => hist::c07_replay(c),
        "C08" => steps::c08_replay(c),
        "C09" => steps::c09_replay(c),
        "C10" => steps::c10_replay(c),
        "C11" => steps::c11_replay(c),
        "C12" => steps::c12_replay(c),
        "C13" => marks::c13_replay(c),
        "C14" => content::c14_replay(c),
        "C15" => content::c15_replay(c),
        "C16" => frag::c16_replay(c),
        "C17" => frag::c17_replay(c),
        "C18" => json::c18_replay(c),
        "C19" => json::c19_replay(c),
        "C20" => md::c20_replay(c),
        "C21" => md::c21_replay(c),
        "C22" => steps::c22_replay(c),
        "C23" => any::c23_replay(c),
        "C24" => obj::c24_replay(c),
        "C25" => collab::c25_replay(c),
        "C26" => obj::c26_replay(c),
        "C27" => reason::c27_replay(c),
        "C28" => local::c28_replay(c),
        o => Err(format!("cannot replay a case of {:?}", o)),
    }
}

pub fn rule(_id: &str) -> &'static str {
    "states: distinct documents (or sets, sequences, input texts) enumerated; transitions: \
     operations of the real code executed; traces_validated_against_impl: cases in which the \
     outcome of the real code was compared with the reference model"
}
pub fn assumptions(_id: &str) -> Vec<&'static str> {
    vec![
        "effects that need documents beyond the stated bounds and families are not explored",
        "the reference model in harness/src/refm.rs and tok.rs states the intended meaning",
    ]
}

// ---- documents ---------------------------------------------------------------------
/// Distinct documents of several alphabets, small first.
pub fn docset(sets: &[(Palette, usize)], fam: usize) -> Vec<T> {
    let mut seen: HashSet<Vec<Tok>> = HashSet::new();
    let mut v = vec![];
    for (p, n) in sets {
        for d in docs(p, *n) {
            if seen.insert(d.content_toks()) {
                v.push(d);
            }
        }
    }
    v.sort_by_key(|d| d.content_size());
    if fam > 0 {
        for d in families(fam) {
            if seen.insert(d.content_toks()) {
                v.push(d);
            }
        }
    }
    v
}
/// Positions that are not inside a surrogate pair.
pub fn positions(d: &DocCtx) -> Vec<usize> {
    (0..=d.len()).filter(|p| !d.mid(*p)).collect()
}

/// The positions of a large document that are near an end or a power of two, then those at
/// the boundaries of its first, last and middle children and of those around powers of two,
/// outermost first, up to a number.
pub fn edge_positions_n(d: &DocCtx, max: usize) -> Vec<usize> {
    let n = d.len();
    let mut v: Vec<usize> = (0..=3.min(n)).chain(n.saturating_sub(3)..=n).collect();
    for b in 6..=17 {
        v.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 2].into_iter().filter(|x| *x <= n));
    }
    v.extend([n / 2, n / 2 + 1, n / 3].into_iter().filter(|x| *x <= n));
    let mut seen: HashSet<usize> = v.iter().cloned().collect();
    v.sort_unstable();
    v.dedup();
    if !d.rn.is_empty() {
        let mut level = vec![0usize];
        let mut depth = 0usize;
        while !level.is_empty() && v.len() < max {
            let mut next = vec![];
            for &k in &level {
                let kids = &d.rn[k].kids;
                let m = kids.len();
                let mut is: Vec<usize> = vec![0, m.wrapping_sub(1), 1, m.wrapping_sub(2), m / 2];
                if depth < 2 {
                    for b in 4..=10 {
                        is.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
                    }
                    is.extend([m / 3, 2, 99, 100, 101]);
                }
                let mut chosen = HashSet::new();
                for i in is {
                    if i >= m || !chosen.insert(i) {
                        continue;
                    }
                    let kid = &kids[i];
                    let end = kid.before + kid.size;
                    let mut at = vec![kid.before, end];
                    match kid.node {
                        Some(x) => {
                            at.extend([kid.before + 1, end - 1]);
                            next.push(x);
                        }
                        None if kid.size > 1 => at.extend([kid.before + 1, end - 1, kid.before + kid.size / 2]),
                        None => {}
                    }
                    let deep = depth < 6 || (depth + 2).count_ones() <= 2 || next.is_empty();
                    for x in at {
                        if deep && seen.insert(x) {
                            v.push(x);
                        }
                    }
                }
            }
            level = next;
            depth += 1;
        }
    }
    v.truncate(max.max(60));
    v.sort_unstable();
    v.retain(|p| !d.mid(*p));
    v
}
pub fn edge_positions(d: &DocCtx) -> Vec<usize> {
    edge_positions_n(d, 120)
}
/// A paragraph of every character there is between two letters, and of sequences of special
/// characters, also with a change of marks between them.
pub fn every_char(e: &Engine, f: impl Fn(&mut Ctx, &T) + Sync) {
    let around = |c: char| doc(vec![p(vec![text(&['a', c, 'b'].iter().collect::<String>())])]);
    e.par("every-character", &char_blocks(e.thorough()), |c, b| {
        for ch in block_chars(*b) {
            f(c, &around(ch));
            if c.stopped() {
                return;
            }
        }
    });
    let seqs = char_sequences();
    let chunks: Vec<&[String]> = seqs.chunks(200).collect();
    e.par("character-sequences", &chunks, |c, ss| {
        for s in ss.iter() {
            f(c, &doc(vec![p(vec![text(s)])]));
            // and with a mark from the second one on
            let (a, b) = s.split_at(s.chars().next().unwrap().len_utf8());
            f(c, &doc(vec![p(vec![text(a), mtext(b, &[M::Em])])]));
            if c.stopped() {
                return;
            }
        }
    });
}
/// All positions of a small document, the interesting ones of a large one.
pub fn good_positions(d: &DocCtx, small: usize, max: usize) -> Vec<usize> {
    if d.len() > small {
        edge_positions_n(d, if d.len() > 20_000 { max.min(44) } else { max })
    } else {
        positions(d)
    }
}
pub fn show_sizes() {
    for p in [
        pal_struct(),
        pal_blocks(),
        pal_attrs(),
        pal_inline(),
        pal_marks(),
        pal_two(),
    ] {
        let mut g = Gen::new(&p);
        let mut s = vec![];
        let mut sum = 0;
        for n in 1..=12 {
            let c = g.content(Ty::Doc, n).len();
            sum += c;
            s.push(sum);
            if sum > 300_000 {
                break;
            }
        }
        println!("{:12} {:?}", p.name, s);
    }
    println!("families 1: {}, 2: {}", families(1).len(), families(2).len());
    for (p, n) in [(pal_struct(), 6), (pal_blocks(), 5), (pal_marks(), 4), (pal_two(), 8)] {
        let d = docs(&p, n);
        println!("{} {} docs -> {} slices", p.name, d.len(), slices_of(&d, 99).len());
    }
}

pub fn jdoc(v: &Value, k: &str) -> DocCtx {
    DocCtx::new(&T::from_json(&v[k]))
}
pub fn ju(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or(0) as usize
}
pub fn _unused() -> Value {
    json!(null)
}

/// All ways to split the texts of a document into neighbouring nodes with equal marks,
/// except not splitting at all.
pub fn split_variants(d: &T) -> Vec<T> {
    fn node(x: &T) -> Vec<T> {
        let mut lists: Vec<Vec<T>> = vec![vec![]];
        for k in &x.kids {
            let alts: Vec<Vec<T>> = match &k.head {
                Head::Text(s, m) => {
                    let cs: Vec<char> = s.chars().collect();
                    (0..1u32 << (cs.len().max(1) - 1))
                        .map(|mask| {
                            let mut parts = vec![String::new()];
                            for (i, c) in cs.iter().enumerate() {
                                if i > 0 && mask & 1 << (i - 1) != 0 {
                                    parts.push(String::new());
                                }
                                parts.last_mut().unwrap().push(*c);
                            }
                            parts.iter().map(|p| mtext(p, m)).collect()
                        })
                        .collect()
                }
                _ => node(k).into_iter().map(|n| vec![n]).collect(),
            };
            let mut next = vec![];
            for l in &lists {
                for a in &alts {
                    let mut v = l.clone();
                    v.extend(a.iter().cloned());
                    next.push(v);
                }
            }
            lists = next;
        }
        lists
            .into_iter()
            .map(|kids| t(x.head.clone(), kids))
            .collect()
    }
    let mut v = node(d);
    v.remove(0); // mask 0 everywhere: the document itself
    v
}
