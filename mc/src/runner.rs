//! Parent / worker protocol, evidence and verdicts.

use crate::engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub type Registry = fn(&str, Tier) -> Option<Vec<Space>>;
pub type Assumptions = fn(&str) -> Vec<String>;

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 32)
    })
}

fn parse_tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {}", s);
            std::process::exit(2)
        }
    }
}

fn budget(t: Tier) -> Duration {
    let d = t.pick(420, 3000);
    Duration::from_secs(std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}

const HANG_MS: u64 = 25_000;

/// Findings listed in /verif/known_findings.txt: `KNOWN-FINDING: property=<id> key=<key> <text>`.
pub fn known_findings() -> Vec<(String, String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
            let mut it = r.splitn(3, ' ');
            let id = it.next().unwrap_or("").to_string();
            let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
            out.push((id, key, it.next().unwrap_or("").to_string()));
        }
    }
    out
}

pub fn main(reg: Registry, assume: Assumptions) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(1) {
        "check" => parent(reg, assume, s(2), parse_tier(s(3))),
        "worker" => worker(reg, s(2), parse_tier(s(3)), s(4), s(5)),
        "one" => one(reg, s(2), parse_tier(s(3)), s(4).parse().unwrap(), s(5), s(6)),
        "replay" => replay_file(reg, s(2)),
        "uncompilable" => uncompilable(s(2), s(3), s(4)),
        "stats" => stats(reg, s(2), parse_tier(s(3)), s(4)),
        _ => {
            eprintln!("usage: mc check <ID> quick|thorough | mc replay <file> | mc stats <ID> <tier> [space]");
            2
        }
    };
    std::process::exit(code)
}

fn get(reg: Registry, id: &str, t: Tier) -> Vec<Space> {
    crate::model::self_test();
    reg(id, t).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn stats(reg: Registry, id: &str, t: Tier, only: &str) -> i32 {
    install_panic_hook();
    let sp = get(reg, id, t);
    for (i, s) in sp.iter().enumerate() {
        if !only.is_empty() && s.name != only {
            continue;
        }
        let r = explore(i, s, threads(), Instant::now() + budget(t));
        println!(
            "{:28} dev={} exec={} pruned={} edges={} states={} depth={} complete={} {:.1}s {:?}",
            r.name, r.dev, r.executions, r.pruned, r.edges, r.states, r.max_depth, r.complete, r.wall, r.outcomes
        );
        if std::env::var("MC_SAMPLES").is_ok() {
            for s in &r.samples {
                println!("    sample: {}", s)
            }
        }
        if let Some((c, m)) = r.violation {
            println!("  VIOLATED {:?}\n    {}", c, crate::gen::clip(&m, 1200));
        }
    }
    0
}

fn worker(reg: Registry, id: &str, t: Tier, out: &str, slots: &str) -> i32 {
    install_panic_hook();
    let sp = get(reg, id, t);
    open_slots(slots);
    start_watchdog(HANG_MS);
    let end = Instant::now() + budget(t);
    let mut res = vec![];
    for (i, s) in sp.iter().enumerate() {
        let r = explore(i, s, threads(), end);
        let bad = r.violation.is_some();
        res.push(json!({
            "name": r.name, "dev": r.dev, "executions": r.executions, "pruned": r.pruned, "edges": r.edges,
            "states": r.states, "runs": r.runs, "max_depth": r.max_depth, "complete": r.complete,
            "outcomes": r.outcomes, "samples": r.samples, "wall": r.wall, "known": r.known,
            "violation": r.violation.map(|(c, m)| json!({"space": i, "choices": c, "message": m})),
        }));
        if bad {
            break;
        }
    }
    std::fs::write(out, serde_json::to_vec(&res).unwrap()).unwrap();
    0
}

/// Replay a single execution; exit 10 = violation, 0 = no violation.
fn one(reg: Registry, id: &str, t: Tier, space: usize, choices: &str, slots: &str) -> i32 {
    install_panic_hook();
    let sp = get(reg, id, t);
    if !slots.is_empty() {
        open_slots(slots);
    }
    start_watchdog(HANG_MS);
    let ch: Vec<u16> = choices.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || replay(&sp[space], &ch).0).unwrap().join()
    });
    match r {
        Ok(Ok(())) => {
            println!("no violation");
            0
        }
        Ok(Err(m)) => {
            println!("{}", m);
            10
        }
        Err(_) => 3,
    }
}

fn spawn_one(id: &str, t: Tier, space: usize, ch: &[u16], slots: &str) -> (ExitStatus, String) {
    let me = std::env::current_exe().unwrap();
    let c = ch.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let o = Command::new(me)
        .args(["one", id, tname(t), &space.to_string(), &c, slots])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .unwrap();
    (o.status, String::from_utf8_lossy(&o.stdout).trim().to_string())
}

fn tname(t: Tier) -> &'static str {
    t.pick("quick", "thorough")
}

enum Verdict {
    Held,
    Violated { space: usize, choices: Vec<u16>, message: String },
    Broken(String),
}

/// How a worker or a replay died; `None` when it did not die abnormally.
fn death(st: &ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = st.signal() {
        if sig == 9 || sig == 15 || sig == 2 {
            return None; // killed from outside: not the code's doing
        }
        return Some(format!("the process died with signal {}", sig));
    }
    match st.code() {
        Some(EXIT_ALLOC) => Some(format!("a single allocation above {} bytes was requested", crate::alloc::REQUEST_CAP)),
        Some(EXIT_HANG) => Some(format!("no answer within {} s", HANG_MS / 1000)),
        _ => None,
    }
}

fn run_worker(id: &str, t: Tier, scratch: &Path) -> (Option<Value>, ExitStatus, String) {
    let me = std::env::current_exe().unwrap();
    let out = scratch.join("out.json");
    let slots = scratch.join("slots");
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&slots);
    let st = Command::new(me)
        .args(["worker", id, tname(t), out.to_str().unwrap(), slots.to_str().unwrap()])
        .env("MC_SCRATCH", scratch)
        .stdin(Stdio::null())
        .status()
        .unwrap();
    let v = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
    (v, st, slots.to_str().unwrap().to_string())
}

fn judge(id: &str, t: Tier, scratch: &Path) -> (Verdict, Option<Value>) {
    let mut last: Option<(usize, Vec<u16>, String)> = None;
    for attempt in 0..2 {
        let (res, st, slots) = run_worker(id, t, scratch);
        if st.code() == Some(0) && res.is_some() {
            let res = res.unwrap();
            let v = res.as_array().unwrap().iter().find_map(|s| s["violation"].as_object().cloned());
            let v = match v {
                None => {
                    return match last {
                        None => (Verdict::Held, Some(res)),
                        // The harness itself is deterministic, so an answer that was wrong once
                        // depended on what had been called before; processes and deaths, however,
                        // also depend on the machine.
                        Some((space, choices, message)) if !choices.is_empty() && id != "C20" && id != "C21" => {
                            let message = format!("{} (depends on the calls made before it in the same process)", message);
                            (Verdict::Violated { space, choices, message }, Some(res))
                        }
                        last => (Verdict::Broken(format!("a violation was not reproducible: {:?}", last)), Some(res)),
                    };
                }
                Some(v) => v,
            };
            let space = v["space"].as_u64().unwrap() as usize;
            let ch: Vec<u16> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
            let msg = v["message"].as_str().unwrap().to_string();
            let (s1, m1) = spawn_one(id, t, space, &ch, "");
            if s1.code() == Some(10) {
                return (Verdict::Violated { space, choices: ch, message: m1 }, Some(res));
            }
            if attempt == 1 {
                let m = format!("{} (depends on the calls made before it in the same process)", msg);
                return (Verdict::Violated { space, choices: ch, message: m }, Some(res));
            }
            last = Some((space, ch, msg));
            continue;
        }
        match death(&st) {
            None => return (Verdict::Broken(format!("worker ended with {:?}", st)), res),
            Some(d) => {
                let (culprit, mut act) = read_slots(&slots);
                if let Some(c) = culprit {
                    act.sort_by_key(|x| x.0 != c);
                }
                for (_, space, ch) in &act {
                    let s2 = scratch.join("slots2");
                    let (s1, m) = spawn_one(id, t, *space, ch, s2.to_str().unwrap());
                    if let Some(d1) = death(&s1) {
                        return (Verdict::Violated { space: *space, choices: ch.clone(), message: d1 }, res);
                    }
                    if s1.code() == Some(10) {
                        return (Verdict::Violated { space: *space, choices: ch.clone(), message: m }, res);
                    }
                }
                if attempt == 1 {
                    return (Verdict::Broken(format!("worker died twice ({}) without a reproducible execution", d)), res);
                }
                last = Some((0, vec![], d));
            }
        }
    }
    (Verdict::Broken(format!("violation not reproducible: {:?}", last)), None)
}

fn parent(reg: Registry, assume: Assumptions, id: &str, t: Tier) -> i32 {
    let t0 = Instant::now();
    let names: Vec<&'static str> = get(reg, id, t).iter().map(|s| s.name).collect();
    let dir = verif_dir();
    let outdir = dir.join("out");
    std::fs::create_dir_all(&outdir).unwrap();
    std::fs::create_dir_all(dir.join("evidence")).unwrap();
    let scratch = outdir.join(format!("run-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("MC_SCRATCH", &scratch);
    let (v, res) = judge(id, t, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    let empty = vec![];
    let spaces = res.as_ref().and_then(|r| r.as_array()).unwrap_or(&empty);
    let sum = |k: &str| spaces.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let complete = spaces.iter().all(|s| s["complete"].as_bool().unwrap_or(false)) && spaces.len() == names.len();
    let mut samples = vec![];
    for s in spaces {
        for x in s["samples"].as_array().unwrap_or(&empty).iter().take(2) {
            samples.push(json!({"space": s["name"], "case": x}));
        }
    }
    let violated = matches!(v, Verdict::Violated { .. });
    let ev = json!({
        "property": id,
        "tier": tname(t),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": sum("states"),
            "transitions": sum("edges"),
            "traces_validated_against_impl": sum("executions"),
            "implementation_calls": sum("runs"),
            "exhaustive": complete && !violated,
            "samples": samples,
            "spaces": spaces.iter().map(|s| json!({
                "name": s["name"], "deviation_bound": s["dev"], "executions": s["executions"],
                "pruned_paths": s["pruned"], "choice_edges": s["edges"], "distinct_model_states": s["states"],
                "max_depth": s["max_depth"], "complete": s["complete"], "outcomes": s["outcomes"], "wall_s": s["wall"],
            })).collect::<Vec<_>>(),
        },
        "assumptions": assume(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if violated { 1 } else { 0 },
    });
    std::fs::write(dir.join("evidence").join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .unwrap();
    for s in spaces {
        println!(
            "{} {} dev={} executions={} states={} edges={} complete={} {:.1}s",
            id, s["name"].as_str().unwrap_or(""), s["dev"], s["executions"], s["states"], s["edges"], s["complete"],
            s["wall"].as_f64().unwrap_or(0.0)
        );
    }
    for (p, k, text) in known_findings() {
        if p == id && spaces.iter().any(|s| s["known"].get(&k).is_some()) {
            println!("KNOWN-FINDING: property={} {}", id, text);
        }
    }
    match v {
        Verdict::Held => {
            println!("{} held on all {} executions ({:.1} s)", id, sum("executions"), t0.elapsed().as_secs_f64());
            0
        }
        Verdict::Violated { space, choices, message } => {
            let p = outdir.join(format!("replay-{}-{}.json", id, tname(t)));
            let j = json!({"property": id, "tier": tname(t), "space": space, "space_name": names[space],
                "choices": choices, "message": message});
            std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap() + "\n").unwrap();
            println!("space {}: {}", names[space], crate::gen::clip(&message, 3000));
            println!("VIOLATION property={} replay={}", id, p.display());
            1
        }
        Verdict::Broken(m) => {
            eprintln!("check {} could not decide: {}", id, m);
            2
        }
    }
}

/// The code generated for the property's family of inputs does not compile: that is the violation.
fn uncompilable(id: &str, tier: &str, log: &str) -> i32 {
    let dir = verif_dir();
    let text = std::fs::read_to_string(log).unwrap_or_default();
    let p = dir.join("out").join(format!("replay-{}-{}.log", id, tier));
    std::fs::write(&p, &text).unwrap();
    let ev = json!({
        "property": id, "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false,
            "samples": [{"case": crate::gen::clip(&text, 2000)}]},
        "assumptions": ["the generated bindings did not compile"],
        "wall_s": 0.0, "violations": 1,
    });
    std::fs::write(dir.join("evidence").join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    for l in text.lines().filter(|l| l.starts_with("error")).take(5) {
        println!("{}", l);
    }
    println!("VIOLATION property={} replay={}", id, p.display());
    1
}

fn replay_file(reg: Registry, path: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let ch: Vec<u16> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
    let c = ch.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    one(reg, v["property"].as_str().unwrap(), parse_tier(v["tier"].as_str().unwrap()), v["space"].as_u64().unwrap() as usize, &c, "")
}
