//! The explorer: runs every case of every work item on all cores, turns panics, crashes and
//! hangs of the code under test into violations, counts what was covered, and can replay or
//! trace any part of a run. Work items and the order of cases within them are deterministic.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const STUCK_S: u64 = 25;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case evaluates to: a label for its outcome class, or what is wrong.
pub type Res = Result<&'static str, String>;

#[derive(Clone)]
pub struct Found {
    pub phase: String,
    pub item: usize,
    pub case: Value,
    pub what: String,
}

#[derive(Default)]
pub struct Totals {
    pub states: u64,
    pub ops: u64,
    pub cases: u64,
    pub items: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub phases: Vec<Value>,
    pub found: Vec<Found>,
    pub known_hit: Vec<String>,
}

pub struct Engine {
    pub id: String,
    pub tier: Tier,
    pub trace: Option<Trace>,
    pub known: Vec<(Value, String)>,
    pub totals: Mutex<Totals>,
    stop: AtomicBool,
    slots: Option<Mutex<fs::File>>,
    beats: Vec<AtomicU64>,
    busy: Vec<AtomicBool>,
    pub start: Instant,
    threads: usize,
}
pub struct Trace {
    pub phase: String,
    pub item: usize,
    pub file: String,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", at, msg));
    }));
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Long chains of nodes with one child are written down as their length, since JSON files
/// may not nest too deep.
pub fn compact(v: Value) -> Value {
    fn chain(v: &Value) -> Option<(&str, &Value)> {
        match (v["type"].as_str()?, v["content"].as_array()?.as_slice(), v.as_object()?.len()) {
            (ty, [x], 2) => Some((ty, x)),
            _ => None,
        }
    }
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(compact).collect()),
        Value::Object(_) => {
            if let Some((ty, x)) = chain(&v) {
                let (ty, mut x, mut n) = (ty.to_string(), x, 1);
                while let Some((t2, y)) = chain(x) {
                    if t2 != ty {
                        break;
                    }
                    x = y;
                    n += 1;
                }
                if n > 20 {
                    return json!({"nest": n, "type": ty, "inner": compact(x.clone())});
                }
            }
            match v {
                Value::Object(o) => Value::Object(o.into_iter().map(|(k, x)| (k, compact(x))).collect()),
                _ => unreachable!(),
            }
        }
        v => v,
    }
}
pub fn expand(v: Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(expand).collect()),
        Value::Object(o) => {
            if let Some(n) = o.get("nest").and_then(|n| n.as_u64()) {
                let mut x = expand(o["inner"].clone());
                for _ in 0..n {
                    let mut m = serde_json::Map::new();
                    m.insert("type".into(), o["type"].clone());
                    m.insert("content".into(), Value::Array(vec![x]));
                    x = Value::Object(m);
                }
                return x;
            }
            Value::Object(o.into_iter().map(|(k, x)| (k, expand(x))).collect())
        }
        v => v,
    }
}

pub struct Ctx<'e> {
    eng: &'e Engine,
    phase: &'e str,
    item: usize,
    slot: usize,
    cases: u64,
    ops: u64,
    states: u64,
    classes: Vec<(&'static str, u64)>,
    samples: Vec<Value>,
    trace: Option<fs::File>,
    stopped: bool,
}

impl<'e> Ctx<'e> {
    /// One more distinct state (document, set, input ...) of the explored space.
    pub fn state(&mut self) {
        self.states += 1;
    }
    pub fn states(&mut self, n: usize) {
        self.states += n as u64;
    }
    /// Operations of the real code a case ran beyond its first.
    pub fn ops(&mut self, n: usize) {
        self.ops += n as u64;
    }
    pub fn stopped(&self) -> bool {
        self.stopped
    }
    /// Check one case. `desc` writes it down so that `replay` can evaluate it again.
    pub fn case(&mut self, desc: impl Fn() -> Value, eval: impl FnOnce() -> Res) {
        if self.stopped {
            return;
        }
        if let Some(f) = &mut self.trace {
            let _ = f.set_len(0);
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(compact(desc()).to_string().as_bytes());
            let _ = f.flush();
        }
        self.cases += 1;
        self.ops += 1;
        if self.cases & 0xff == 1 {
            self.eng.beats[self.slot].fetch_add(1, SeqCst);
            if self.eng.stop.load(SeqCst) {
                self.stopped = true;
                return;
            }
        }
        let r = match guarded(eval) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        match r {
            Ok(class) => match self.classes.iter_mut().find(|c| c.0 == class) {
                Some(c) => {
                    c.1 += 1;
                    if c.1 == 5 && self.samples.len() < 3 && self.item % 37 == 5 {
                        let mut d = compact(desc());
                        d["outcome"] = json!(class);
                        self.samples.push(d);
                    }
                }
                None => {
                    self.classes.push((class, 1));
                    if self.item < 2 && self.samples.len() < 2 {
                        let mut d = compact(desc());
                        d["outcome"] = json!(class);
                        self.samples.push(d);
                    }
                }
            },
            Err(what) => self.fail(desc(), what),
        }
    }
    pub fn fail(&mut self, case: Value, what: String) {
        let mut t = self.eng.totals.lock().unwrap();
        if let Some((_, text)) = self.eng.known.iter().find(|k| k.0 == compact(case.clone())) {
            if !t.known_hit.contains(text) {
                t.known_hit.push(text.clone());
            }
            return;
        }
        t.found.push(Found {
            phase: self.phase.to_string(),
            item: self.item,
            case: compact(case),
            what,
        });
        self.eng.stop.store(true, SeqCst);
        self.stopped = true;
    }
}

impl Engine {
    pub fn new(id: &str, tier: Tier, trace: Option<Trace>, slots: Option<fs::File>) -> Engine {
        let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
        Engine {
            id: id.into(),
            tier,
            trace,
            known: vec![],
            totals: Mutex::new(Totals::default()),
            stop: AtomicBool::new(false),
            slots: slots.map(Mutex::new),
            beats: (0..threads).map(|_| AtomicU64::new(0)).collect(),
            busy: (0..threads).map(|_| AtomicBool::new(false)).collect(),
            start: Instant::now(),
            threads,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// pick by tier
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    fn note_slot(&self, slot: usize, phase: &str, item: usize) {
        if let Some(f) = &self.slots {
            let mut f = f.lock().unwrap();
            let line = format!("{:<60} {:>12}\n", phase, item);
            let _ = f.seek(SeekFrom::Start((slot * 74) as u64));
            let _ = f.write_all(line.as_bytes());
        }
    }
    /// Explore every item. In trace mode only the traced item runs, unless `stateful` says
    /// that later phases need the results.
    pub fn par<I: Sync, R: Send>(
        &self,
        phase: &str,
        items: &[I],
        f: impl Fn(&mut Ctx, &I) -> R + Sync,
    ) -> Vec<R> {
        self.par_inner(phase, items, false, f)
    }
    pub fn par_stateful<I: Sync, R: Send>(
        &self,
        phase: &str,
        items: &[I],
        f: impl Fn(&mut Ctx, &I) -> R + Sync,
    ) -> Vec<R> {
        self.par_inner(phase, items, true, f)
    }
    fn par_inner<I: Sync, R: Send>(
        &self,
        phase: &str,
        items: &[I],
        stateful: bool,
        f: impl Fn(&mut Ctx, &I) -> R + Sync,
    ) -> Vec<R> {
        if self.stopped() {
            return vec![];
        }
        let mut only: Option<usize> = None;
        if let Some(t) = &self.trace {
            if t.phase == phase {
                only = Some(t.item);
            } else if !stateful {
                return vec![];
            }
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
        let live = AtomicUsize::new(self.threads);
        let before = {
            let t = self.totals.lock().unwrap();
            (t.states, t.ops, t.cases)
        };
        std::thread::scope(|s| {
            for slot in 0..self.threads {
                let (next, out, live, f) = (&next, &out, &live, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut res = vec![];
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= items.len() || self.stopped() {
                                break;
                            }
                            if only.map_or(false, |o| o != i) {
                                continue;
                            }
                            self.note_slot(slot, phase, i);
                            self.busy[slot].store(true, SeqCst);
                            self.beats[slot].fetch_add(1, SeqCst);
                            let trace = if only.is_some() {
                                self.trace.as_ref().and_then(|t| fs::File::create(&t.file).ok())
                            } else {
                                None
                            };
                            let mut ctx = Ctx {
                                eng: self,
                                phase,
                                item: i,
                                slot,
                                cases: 0,
                                ops: 0,
                                states: 0,
                                classes: vec![],
                                samples: vec![],
                                trace,
                                stopped: false,
                            };
                            match guarded(|| f(&mut ctx, &items[i])) {
                                Ok(r) => res.push((i, r)),
                                Err(p) => ctx.fail(
                                    json!({"property": self.id, "kind": "item", "phase": phase, "item": i}),
                                    format!("outside a case: {}", p),
                                ),
                            }
                            let mut t = self.totals.lock().unwrap();
                            t.states += ctx.states;
                            t.ops += ctx.ops;
                            t.cases += ctx.cases;
                            t.items += 1;
                            for (c, n) in &ctx.classes {
                                *t.classes.entry(c.to_string()).or_default() += n;
                            }
                            if t.samples.len() < 24 {
                                t.samples.extend(ctx.samples);
                            }
                            drop(t);
                            self.busy[slot].store(false, SeqCst);
                        }
                        out.lock().unwrap().extend(res);
                        live.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let mut last: Vec<(u64, Instant)> = (0..self.threads).map(|_| (0, Instant::now())).collect();
            while live.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(2));
                if t0.elapsed() < Duration::from_secs(1) {
                    continue;
                }
                std::thread::sleep(Duration::from_millis(40));
                for i in 0..self.threads {
                    let b = self.beats[i].load(SeqCst);
                    if b != last[i].0 || !self.busy[i].load(SeqCst) {
                        last[i] = (b, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(STUCK_S) {
                        eprintln!("worker {} is stuck in phase {}", i, phase);
                        std::process::exit(70);
                    }
                }
            }
        });
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        {
            let mut t = self.totals.lock().unwrap();
            let (a, b, c) = (t.states - before.0, t.ops - before.1, t.cases - before.2);
            t.phases.push(json!({"phase": phase, "items": items.len(), "states": a, "operations": b, "cases": c,
                "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0}));
        }
        v.into_iter().map(|x| x.1).collect()
    }
}
