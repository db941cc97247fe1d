//! Parent and worker processes.

use crate::explore::*;
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, HashSet},
    io::Read,
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

const HANG: Duration = Duration::from_secs(90);

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &a[3]),
        Some("worker") => worker(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6]),
        Some("replay") => replay(&a[2]),
        Some("dump") => dump(&a[2]),
        _ => {
            eprintln!("usage: evmx check PROPERTY quick|thorough | replay FILE | dump FILE");
            2
        }
    }
}

fn dump(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).unwrap();
    let m = parse_case(&t);
    let spec =
        revm_primitives::hardfork::SpecId::try_from_u8(m["spec"].parse().unwrap()).unwrap();
    let cfg = crate::diff::Cfg::decode(&m["cfg"]);
    let code = alloy_primitives::hex::decode(&m["code"]).unwrap();
    let mut c = revmc_codegen::EvmCompiler::new(irvm::IrvmBackend::new(false));
    crate::diff::Compiler::apply(&mut c, &cfg, spec);
    let r = c.translate("f", code.as_slice(), spec);
    println!("{}", c.backend().dump());
    println!("{r:?}");
    0
}

fn quiet_panics() {
    if std::env::var_os("EVMX_PANICS").is_some() {
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
}

fn worker(prop: &str, t: &str, w: usize, n: usize, state: &str) -> i32 {
    quiet_panics();
    let mut ctx = Ctx::new(prop, tier(t), w, n, Some(StateFile::open(state)));
    // A big stack: deep recursion in the compiler is judged by its own suite.
    crate::suites::run(prop, &mut ctx);
    let out = std::path::Path::new(state).with_extension("json");
    let mut sig: Vec<u64> = ctx.k.outcomes.iter().copied().collect();
    sig.sort_unstable();
    let j = json!({
        "programs": ctx.k.programs, "compiles": ctx.k.compiles, "executions": ctx.k.executions,
        "ir_steps": ctx.k.ir_steps, "edges": ctx.k.edges, "builtin_calls": ctx.k.builtin_calls,
        "mem_checks": ctx.k.mem_checks, "suspensions": ctx.k.suspensions,
        "results": ctx.k.results, "suites": ctx.k.suites, "extra": ctx.k.extra,
        "samples": ctx.k.samples, "outcomes": sig,
        "violation": ctx.viol.as_ref().map(|v| json!({"case": v.case, "msg": v.msg})),
    });
    std::fs::write(out, serde_json::to_vec(&j).unwrap()).unwrap();
    if ctx.viol.is_some() { 1 } else { 0 }
}

fn replay(path: &str) -> i32 {
    quiet_panics();
    let text = std::fs::read_to_string(path).unwrap();
    let m = parse_case(&text);
    let prop = m.get("property").cloned().unwrap_or_else(|| "P00".into());
    let mut ctx = Ctx::new(&prop, Tier::Quick, 0, 1, None);
    crate::suites::aspects(&prop, &mut ctx);
    crate::suites::replay(&prop, &mut ctx, &text);
    match ctx.viol {
        Some(v) => {
            println!("REPRODUCED: {}", v.msg);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

struct W {
    child: Child,
    state: StateFile,
    path: String,
    seq: u64,
    at: Instant,
    done: Option<std::process::ExitStatus>,
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Runs a case file in a fresh process. `Some(msg)` if it misbehaves.
fn confirm(path: &str) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["replay", path])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let mut s = String::new();
            let _ = c.stdout.take().unwrap().read_to_string(&mut s);
            return match st.code() {
                Some(0) => None,
                Some(1) => Some(s.trim().trim_start_matches("REPRODUCED: ").to_string()),
                _ => Some(format!("the process died: {st}")),
            };
        }
        if t.elapsed() > HANG * 2 {
            let _ = c.kill();
            let _ = c.wait();
            return Some(format!("no answer within {} s", (HANG * 2).as_secs()));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn check(prop: &str, t: &str) -> i32 {
    let start = Instant::now();
    let root = root();
    let dir = format!("{root}/out/{prop}-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(format!("{root}/evidence")).unwrap();
    std::fs::create_dir_all(format!("{root}/out/replay")).unwrap();
    let n: usize = std::env::var("EVMX_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    });
    let exe = std::env::current_exe().unwrap();
    let mut ws: Vec<W> = (0..n)
        .map(|w| {
            let path = format!("{dir}/w{w}");
            let state = StateFile::open(&path);
            let child = Command::new(&exe)
                .args(["worker", prop, t, &w.to_string(), &n.to_string(), &path])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            W { child, state, path, seq: 0, at: Instant::now(), done: None }
        })
        .collect();
    let mut viol: Option<(String, String)> = None;
    let mut broken = None;
    'outer: loop {
        let mut running = 0;
        for w in &mut ws {
            if w.done.is_some() {
                continue;
            }
            if let Some(st) = w.child.try_wait().unwrap() {
                w.done = Some(st);
                match st.code() {
                    Some(0) => {}
                    Some(1) => {
                        let j = load(&w.path);
                        let v = &j["violation"];
                        viol = Some((
                            v["case"].as_str().unwrap_or("").into(),
                            v["msg"].as_str().unwrap_or("").into(),
                        ));
                        break 'outer;
                    }
                    _ => {
                        let case = w.state.get();
                        let p = format!("{dir}/crash");
                        std::fs::write(&p, format!("property: {prop}\n{case}")).unwrap();
                        match confirm(&p) {
                            Some(m) => viol = Some((case, format!("crash: {m}"))),
                            None => broken = Some(format!("worker died ({st}) on a case that does not reproduce:\n{case}")),
                        }
                        break 'outer;
                    }
                }
                continue;
            }
            running += 1;
            let s = w.state.seq();
            if s != w.seq {
                w.seq = s;
                w.at = Instant::now();
            } else if w.at.elapsed() > HANG && s > 0 {
                let case = w.state.get();
                let p = format!("{dir}/hang");
                std::fs::write(&p, format!("property: {prop}\n{case}")).unwrap();
                if let Some(m) = confirm(&p) {
                    viol = Some((case, format!("hang: {m}")));
                    break 'outer;
                }
                w.at = Instant::now();
            }
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for w in &mut ws {
        if w.done.is_none() {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut maps: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut finished = 0;
    for w in &ws {
        if !matches!(w.done.and_then(|s| s.code()), Some(0)) {
            continue;
        }
        finished += 1;
        let j = load(&w.path);
        for k in ["programs", "compiles", "executions", "ir_steps", "edges", "builtin_calls", "mem_checks", "suspensions"] {
            *sum.entry(k.into()).or_default() += j[k].as_u64().unwrap_or(0);
        }
        for k in ["results", "suites", "extra"] {
            let m = maps.entry(k).or_default();
            for (a, b) in j[k].as_object().into_iter().flatten() {
                *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
            }
        }
        if samples.len() < 12 {
            samples.extend(j["samples"].as_array().cloned().unwrap_or_default().into_iter().take(2));
        }
        outcomes.extend(j["outcomes"].as_array().into_iter().flatten().filter_map(|v| v.as_u64()));
    }
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(b) = broken {
        eprintln!("machinery failure: {b}");
        return 2;
    }
    let g = |k: &str| sum.get(k).copied().unwrap_or(0);
    let exhaustive = finished == ws.len();
    let info = crate::suites::info(prop);
    let ev = json!({
        "property": prop,
        "tier": if t == "thorough" { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": g("executions"),
            "transitions": g("edges") + g("builtin_calls"),
            "traces_validated_against_impl": g("executions"),
            "samples": samples,
            "distinct_outcomes": outcomes.len(),
            "programs": g("programs"),
            "compilations": g("compiles"),
            "ir_steps": g("ir_steps"),
            "monitored_memory_accesses": g("mem_checks"),
            "suspensions": g("suspensions"),
            "reference_results": maps.get("results"),
            "programs_per_suite": maps.get("suites"),
            "other": maps.get("extra"),
            "exhaustive": exhaustive,
            "bounds": info.bounds,
            "meaning": info.meaning,
        },
        "assumptions": info.assumptions,
        "violations": viol.is_some() as u64,
        "wall_s": start.elapsed().as_secs_f64(),
    });
    std::fs::write(
        format!("{root}/evidence/{prop}.json"),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();
    match viol {
        Some((case, msg)) => {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.hash(&mut h);
            let p = format!("{root}/out/replay/{prop}-{:016x}.case", h.finish());
            std::fs::write(&p, format!("property: {prop}\n{case}# {}\n", msg.replace('\n', " "))).unwrap();
            println!("{msg}");
            println!("VIOLATION property={prop} replay={p}");
            1
        }
        None => {
            println!(
                "{prop} held: {} programs, {} executions, {} transitions, {} distinct outcomes, {:.1} s",
                g("programs"),
                g("executions"),
                g("edges") + g("builtin_calls"),
                outcomes.len(),
                start.elapsed().as_secs_f64()
            );
            0
        }
    }
}

fn load(path: &str) -> Value {
    let p = std::path::Path::new(path).with_extension("json");
    std::fs::read(p).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
}
