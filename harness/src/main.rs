//! pmcheck: bounded exhaustive model checking of the prosemirror crate.
//!   pmcheck run <id> <quick|thorough> <verif dir>     decide one property (supervises a worker)
//!   pmcheck replay <file>                             evaluate a recorded case again
//!   pmcheck list
#![allow(dead_code)]
mod checks;
mod engine;
mod gen;
mod refm;
mod tok;
mod world;
use engine::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::process::{exit, Command};
use std::time::{Duration, Instant};

fn tier_of(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {}", s);
            exit(2)
        }
    }
}

fn known(verif: &str, id: &str) -> Vec<(Value, String)> {
    let text = fs::read_to_string(format!("{}/known-findings.jsonl", verif)).unwrap_or_default();
    text.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["property"] == json!(id) && v["status"] == json!("open"))
        .map(|v| (v["case"].clone(), v["what"].as_str().unwrap_or("").to_string()))
        .collect()
}

fn worker(id: &str, tier: Tier, verif: &str, slots: &str, out: &str, trace: Option<Trace>) -> ! {
    quiet_panics();
    let slots = fs::File::create(slots).ok();
    let mut e = Engine::new(id, tier, trace, slots);
    e.known = known(verif, id);
    if let Err(p) = guarded(|| checks::run(&e)) {
        let mut t = e.totals.lock().unwrap();
        t.found.push(Found {
            phase: "setup".into(),
            item: 0,
            case: json!({"property": id, "kind": "setup"}),
            what: format!("while preparing the exploration: {}", p),
        });
    }
    let t = e.totals.lock().unwrap();
    let mut found = t.found.clone();
    found.sort_by(|a, b| (a.item, a.case.to_string().len()).cmp(&(b.item, b.case.to_string().len())));
    let r = json!({
        "states": t.states, "ops": t.ops, "cases": t.cases, "items": t.items,
        "classes": t.classes, "samples": t.samples, "phases": t.phases,
        "known": t.known_hit,
        "found": found.iter().map(|f| json!({"phase": f.phase, "item": f.item, "case": f.case, "what": f.what})).collect::<Vec<_>>(),
    });
    fs::write(out, r.to_string()).unwrap();
    exit(0)
}

/// Run a worker process; None if it died or got stuck.
fn spawn(args: &[&str], limit: Duration) -> Option<i32> {
    let mut c = Command::new(std::env::current_exe().unwrap()).args(args).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return s.code();
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn run(id: &str, tier_s: &str, verif: &str) -> i32 {
    let tier = tier_of(tier_s);
    let start = Instant::now();
    let tmp = format!("{}/target/run/{}-{}-{}", verif, id, tier_s, std::process::id());
    fs::create_dir_all(&tmp).unwrap();
    let (slots, out, tr) = (format!("{}/slots", tmp), format!("{}/out.json", tmp), format!("{}/trace.json", tmp));
    let limit = if tier == Tier::Quick { Duration::from_secs(600) } else { Duration::from_secs(6 * 3600) };
    let code = spawn(&["worker", id, tier_s, verif, &slots, &out], limit);
    let mut crash: Option<(Value, String)> = None;
    let mut res: Value = Value::Null;
    if code == Some(0) {
        res = serde_json::from_str(&fs::read_to_string(&out).unwrap()).unwrap();
    } else {
        let how = match code {
            Some(70) => "did not return (no progress for a long time)".to_string(),
            Some(c) => format!("ended the process with code {}", c),
            None => "killed the process (stack overflow, abort or memory exhaustion)".to_string(),
        };
        eprintln!("worker: {}; tracing the items that were running", how);
        let text = fs::read_to_string(&slots).unwrap_or_default();
        for l in text.lines() {
            let mut w = l.split_whitespace();
            let (ph, it) = match (w.next(), w.next()) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            let _ = fs::remove_file(&tr);
            let c = spawn(
                &["trace", id, tier_s, verif, &format!("{}/slots2", tmp), &out, ph, it, &tr],
                Duration::from_secs(300),
            );
            if c == Some(0) {
                let v: Value = serde_json::from_str(&fs::read_to_string(&out).unwrap()).unwrap();
                if v["found"].as_array().map_or(false, |a| !a.is_empty()) {
                    res = v;
                    break;
                }
                continue;
            }
            let case = fs::read_to_string(&tr)
                .ok()
                .and_then(|s| serde_json::from_str(&s).ok())
                .unwrap_or_else(|| json!({"property": id, "kind": "item", "phase": ph, "item": it}));
            crash = Some((case, format!("the code under test {}", how)));
            break;
        }
        if crash.is_none() && res.is_null() {
            eprintln!("the worker {} and no single item reproduces it", how);
            let _ = fs::remove_dir_all(&tmp);
            return 2;
        }
    }
    let _ = fs::remove_dir_all(&tmp);
    let mut found: Vec<(Value, String)> = crash.into_iter().collect();
    for f in res["found"].as_array().cloned().unwrap_or_default() {
        found.push((f["case"].clone(), f["what"].as_str().unwrap_or("").to_string()));
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut samples: Vec<Value> = vec![];
    let mut bytes = 0;
    for s in res["samples"].as_array().cloned().unwrap_or_default() {
        let n = s.to_string().len();
        if n < 4000 && bytes + n < 20000 && samples.len() < 12 {
            bytes += n;
            samples.push(s);
        }
    }
    let classes: BTreeMap<String, Value> = res["classes"]
        .as_object()
        .map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
        .unwrap_or_default();
    let n = |k: &str| res[k].as_u64().unwrap_or(0);
    let ev = json!({
        "property": id, "tier": tier_s, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": n("states"),
            "transitions": n("ops"),
            "traces_validated_against_impl": n("cases"),
            "exhaustive": found.is_empty(),
            "rule": checks::rule(id),
            "outcome_classes": classes,
            "phases": res["phases"],
            "samples": samples,
        },
        "assumptions": checks::assumptions(id),
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
        "violations": found.len(),
    });
    fs::create_dir_all(format!("{}/evidence", verif)).unwrap();
    fs::write(
        format!("{}/evidence/{}.json", verif, id),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    for k in res["known"].as_array().cloned().unwrap_or_default() {
        println!("KNOWN-FINDING: property={} {}", id, k.as_str().unwrap_or(""));
    }
    println!(
        "{} {}: {} states, {} transitions, {} cases compared with the model, {:.1} s",
        id, tier_s, n("states"), n("ops"), n("cases"), start.elapsed().as_secs_f64()
    );
    if let Some((case, what)) = found.first() {
        fs::create_dir_all(format!("{}/violations", verif)).unwrap();
        let path = format!("{}/violations/{}.json", verif, id);
        let v = json!({"property": id, "what": what, "case": case,
            "replay": format!("{}/check.sh replay {}", verif, path)});
        fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{}", what);
        println!("case: {}", case);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match &s[1..] {
        ["run", id, tier, verif] => exit(run(id, tier, verif)),
        ["worker", id, tier, verif, slots, out] => worker(id, tier_of(tier), verif, slots, out, None),
        ["trace", id, tier, verif, slots, out, phase, item, file] => worker(
            id,
            tier_of(tier),
            verif,
            slots,
            out,
            Some(Trace {
                phase: phase.to_string(),
                item: item.parse().unwrap(),
                file: file.to_string(),
            }),
        ),
        ["replay", file] => {
            quiet_panics();
            let v: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
            let case = expand(v.get("case").unwrap_or(&v).clone());
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                match guarded(|| checks::replay(&case)) {
                    Ok(r) => r.map(|s| s.to_string()),
                    Err(p) => Err(p),
                }
            });
            match t.unwrap().join().unwrap() {
                Ok(c) => println!("holds: {}", c),
                Err(w) => {
                    println!("violated: {}", w);
                    exit(1)
                }
            }
        }
        ["list"] => {
            for id in checks::IDS {
                println!("{}", id);
            }
        }
        ["docs"] => checks::show_sizes(),
        _ => {
            eprintln!("usage: pmcheck run <id> <quick|thorough> <verif dir> | replay <file> | list");
            exit(2)
        }
    }
}
