//! Parent and worker processes.
use crate::suites::{Suite, suites};
use crate::world::Tally;
use crate::{conc, seq};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, HashSet, HashMap},
    fs::OpenOptions,
    hash::{Hash, Hasher},
    os::fd::AsRawFd,
    process::{Child, Command, Stdio},
    sync::{Arc, Mutex, atomic::{AtomicU64, Ordering}},
    time::{Duration, Instant},
};

/// A case (or schedule) that takes longer than this is stuck.
const HANG: Duration = Duration::from_secs(120);

/// Memory shared by parent and workers: the next chunk, then per worker (suite, case, heartbeat).
struct Page(*const AtomicU64);
impl Page {
    fn open(path: &str) -> Page {
        let f = OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Page(p as *const AtomicU64)
    }
    fn at(&self, i: usize) -> &'static AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn thorough(t: &str) -> bool {
    t == "thorough"
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &a[3]),
        Some("worker") => worker(&a[2], &a[3], a[4].parse().unwrap(), &a[5]),
        Some("replay") => replay(&a[2]),
        Some("only") => {
            // One suite, for development.
            let all = suites(&a[2], thorough(&a[3]));
            let mut t = Tally::default();
            static BEAT: AtomicU64 = AtomicU64::new(0);
            for s in all.iter().filter(|s| s.name().starts_with(&a[4])) {
                let t0 = Instant::now();
                for i in 0..s.cases() {
                    if let Err(b) = run_case(s, i, None, &BEAT, &mut t) {
                        println!("{}", case_text(&a[2], &a[3], s, i, Some(&b)));
                        unsafe { libc::_exit(1) }
                    }
                }
                println!("{}: {:.1} s, {} schedules so far", s.name(), t0.elapsed().as_secs_f64(), t.schedules);
            }
            0
        }
        Some("list") => {
            for s in suites(&a[2], thorough(&a[3])) {
                println!("{:>8} {}", s.cases(), s.name());
            }
            0
        }
        _ => {
            eprintln!("usage: rtx check PROPERTY quick|thorough | replay FILE | list PROPERTY TIER");
            2
        }
    }
}

struct Bad {
    msg: String,
    schedule: Vec<(usize, u32)>,
    trace: Vec<String>,
}

fn quiet_panics() {
    if std::env::var_os("RTX_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// Runs case `i` of a suite. `Ok(None)`: not a case of its own.
fn run_case(s: &Suite, i: u64, script: Option<Vec<(usize, u32)>>, beat: &'static AtomicU64, t: &mut Tally) -> Result<bool, Bad> {
    let res: Arc<Mutex<Option<Result<String, String>>>> = Default::default();
    let r = res.clone();
    let (st, f);
    match s {
        Suite::Seq(q) => {
            let Some(ops) = q.ops(i) else { return Ok(false) };
            if t.samples.len() < 3 && i % 977 == 5 {
                t.samples.push(format!("{}: {ops:?}", q.name));
            }
            let (cfg, keys, nb) = (q.cfg.clone(), q.keys.clone(), q.no_backend);
            let mcfg = mc::Config { explore: false, ..Default::default() };
            (st, f) = mc::explore(
                mcfg,
                move || {
                    let mut w = fakellvm::World::default();
                    w.no_backend = nb;
                    crate::world::reset(w);
                    let x = seq::history(&cfg, &ops, &keys, nb).map(|_| String::new());
                    if let Err(e) = &x {
                        mc::fail(e.clone());
                    }
                    *r.lock().unwrap() = Some(x);
                },
                || Ok(()),
            );
            let o = *seq::OUTCOME.lock().unwrap();
            t.steps += o.1;
            t.unsure += o.2 as u64;
            t.outcomes.insert(o.0);
        }
        Suite::Tx(x) => {
            if (i * x.batch..((i + 1) * x.batch).min(x.n)).all(|i| (x.get)(i).is_none()) {
                return Ok(false);
            }
            let mcfg = mc::Config { explore: false, max_steps: usize::MAX, ..Default::default() };
            let acc: Arc<Mutex<(u64, u64, HashSet<u64>, Vec<String>)>> = Default::default();
            let a2 = acc.clone();
            // The suite lives as long as the process.
            let x: &'static crate::tx::TxSuite = unsafe { &*(x as *const _) };
            (st, f) = mc::explore(
                mcfg,
                move || {
                    crate::world::reset(fakellvm::World::default());
                    let mut a = a2.lock().unwrap();
                    let y = crate::tx::batch(x, i, &mut |i, c, o| {
                        beat.fetch_add(1, Ordering::Relaxed);
                        a.0 += 1;
                        a.1 += c.steps.len() as u64;
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        o.hash(&mut h);
                        a.2.insert(h.finish());
                        if i % 997 == 0 {
                            a.3.push(crate::tx::show(c));
                        }
                    });
                    if let Err(e) = y {
                        mc::fail(e);
                    }
                    *r.lock().unwrap() = Some(Ok(String::new()));
                },
                || Ok(()),
            );
            let a = std::mem::take(&mut *acc.lock().unwrap_or_else(|e| e.into_inner()));
            t.cases += a.0.max(1) - 1;
            t.steps += a.1;
            t.schedules += a.0.max(1) - 1;
            t.outcomes.extend(a.2);
            if t.samples.len() < 6 {
                t.samples.extend(a.3.into_iter().take(1));
            }
        }
        Suite::Plain(x) => {
            let n: Arc<Mutex<(u64, u64)>> = Default::default();
            let n2 = n.clone();
            let x: &'static crate::plain::Plain = unsafe { &*(x as *const _) };
            (st, f) = mc::explore(
                mc::Config { explore: false, max_steps: usize::MAX, ..Default::default() },
                move || {
                    crate::world::reset(fakellvm::World::default());
                    match (x.run)(i) {
                        Ok(y) => *n2.lock().unwrap() = y,
                        Err(e) => mc::fail(e),
                    }
                    *r.lock().unwrap() = Some(Ok(String::new()));
                },
                || Ok(()),
            );
            let y = *n.lock().unwrap();
            if f.is_none() && y.0 == 0 {
                return Ok(false);
            }
            if t.samples.len() < 3 && i % 97 == 5 {
                t.samples.push(format!("{}: {}", x.name, (x.show)(i)));
            }
            t.steps += y.0;
            t.outcomes.insert(y.1);
        }
        Suite::Conc(c) => {
            if t.samples.len() < 6 {
                t.samples.push(c.name.clone());
            }
            let early: HashMap<String, u32> = [("backend".to_string(), c.early)].into();
            let sc = c.clone();
            let seen: Arc<Mutex<HashSet<u64>>> = Default::default();
            let (seen2, name) = (seen.clone(), c.name.clone());
            let mcfg = mc::Config { early, script, max_executions: 400_000, ..Default::default() };
            (st, f) = mc::explore(
                mcfg,
                move || {
                    crate::world::reset(fakellvm::World::default());
                    let x = conc::execute(&sc);
                    if let Err(e) = &x {
                        mc::fail(e.clone());
                    }
                    *r.lock().unwrap() = Some(x);
                },
                move || {
                    beat.fetch_add(1, Ordering::Relaxed);
                    match res.lock().unwrap().take() {
                        Some(Ok(o)) => {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            (&name, &o).hash(&mut h);
                            seen2.lock().unwrap().insert(h.finish());
                            Ok(())
                        }
                        Some(Err(e)) => Err(e),
                        None => Err("the scenario did not finish".into()),
                    }
                },
            );
            t.outcomes.extend(seen.lock().unwrap().iter());
            t.capped += st.capped as u64;
            t.steps += st.executions;
        }
    }
    t.cases += 1;
    t.schedules += st.executions;
    t.redundant += st.redundant;
    t.transitions += st.transitions;
    t.max_depth = t.max_depth.max(st.max_depth);
    match f {
        Some(f) => Err(Bad { msg: f.message, schedule: f.schedule, trace: f.trace }),
        None => Ok(true),
    }
}

fn case_text(prop: &str, tier: &str, s: &Suite, i: u64, b: Option<&Bad>) -> String {
    let mut t = format!("property: {prop}\ntier: {tier}\nsuite: {}\ncase: {i}\n", s.name());
    if let Suite::Seq(q) = s {
        t += &format!("# calls: {:?}\n", q.ops(i).unwrap_or_default());
    }
    if let Suite::Plain(x) = s {
        t += &format!("# calls: {}\n", (x.show)(i));
    }
    if let Some(b) = b {
        let sch: Vec<String> = b.schedule.iter().map(|(a, b)| format!("{a}:{b}")).collect();
        t += &format!("schedule: {}\n# {}\n", sch.join(" "), b.msg.replace('\n', " "));
        for l in &b.trace {
            t += &format!("#| {l}\n");
        }
    }
    t
}

fn worker(prop: &str, tier: &str, w: usize, page: &str) -> i32 {
    quiet_panics();
    let p = Page::open(page);
    let all = suites(prop, thorough(tier));
    let mut t = Tally::default();
    let beat = p.at(8 + 3 * w + 2);
    // Chunks are numbered through all suites.
    let mut bad = None;
    'all: loop {
        let mut c = p.at(0).fetch_add(1, Ordering::Relaxed);
        let mut found = None;
        for (si, s) in all.iter().enumerate() {
            let n = s.cases().div_ceil(s.chunk());
            if c < n {
                found = Some((si, c));
                break;
            }
            c -= n;
        }
        let Some((si, c)) = found else { break };
        let s = &all[si];
        for i in c * s.chunk()..((c + 1) * s.chunk()).min(s.cases()) {
            p.at(8 + 3 * w).store(si as u64 + 1, Ordering::Relaxed);
            p.at(8 + 3 * w + 1).store(i, Ordering::Relaxed);
            beat.fetch_add(1, Ordering::Relaxed);
            let (t0, n0) = (Instant::now(), t.schedules);
            let r = run_case(s, i, None, beat, &mut t);
            if std::env::var_os("RTX_PANICS").is_some() && matches!(s, Suite::Conc(_)) {
                eprintln!("{:>8.2} s {:>8} schedules  {}", t0.elapsed().as_secs_f64(), t.schedules - n0, s.name());
            }
            match r {
                Ok(ran) => {
                    let name = s.name().split(' ').next().unwrap().to_string();
                    *t.suites.entry(name).or_default() += ran as u64;
                }
                Err(b) => {
                    bad = Some((case_text(prop, tier, s, i, Some(&b)), b.msg));
                    break 'all;
                }
            }
        }
    }
    let mut o: Vec<u64> = t.outcomes.iter().copied().collect();
    o.sort_unstable();
    let j = json!({
        "cases": t.cases, "schedules": t.schedules, "redundant": t.redundant, "transitions": t.transitions,
        "steps": t.steps, "max_depth": t.max_depth, "capped": t.capped, "unsure": t.unsure, "suites": t.suites,
        "samples": t.samples, "outcomes": o,
        "violation": bad.as_ref().map(|(c, m)| json!({"case": c, "msg": m})),
    });
    std::fs::write(format!("{page}.{w}.json"), serde_json::to_vec(&j).unwrap()).unwrap();
    let code = match &bad {
        None => 0,
        Some((_, m)) if m.starts_with("MACHINERY") => 3,
        Some(_) => 1,
    };
    // Threads of a failed execution never finish.
    unsafe { libc::_exit(code) }
}

fn scratch() -> String {
    let d = format!("{}/out/rtx-{}", root(), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn env(c: &mut Command, dir: &str) {
    c.env("CC", std::env::current_exe().unwrap()).env("TMPDIR", dir);
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().starts_with("REVMC") {
            c.env_remove(k);
        }
    }
}

fn replay(path: &str) -> i32 {
    if std::env::var_os("RTX_IN").is_none() {
        let dir = scratch();
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(["replay", path]).env("RTX_IN", "1");
        env(&mut c, &dir);
        let st = c.status().unwrap();
        let _ = std::fs::remove_dir_all(&dir);
        return st.code().unwrap_or(1);
    }
    quiet_panics();
    let text = std::fs::read_to_string(path).unwrap();
    let m: BTreeMap<&str, &str> = text.lines().filter(|l| !l.starts_with('#')).filter_map(|l| l.split_once(": ")).collect();
    let all = suites(m["property"], thorough(m["tier"]));
    let s = all.iter().find(|s| s.name() == m["suite"]).expect("no such suite");
    let script = m.get("schedule").filter(|_| matches!(s, Suite::Conc(_))).map(|s| {
        s.split_whitespace()
            .map(|x| {
                let (a, b) = x.split_once(':').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect()
    });
    static BEAT: AtomicU64 = AtomicU64::new(0);
    let code = match run_case(s, m["case"].parse().unwrap(), script, &BEAT, &mut Tally::default()) {
        Ok(_) => {
            println!("not reproduced");
            0
        }
        Err(b) => {
            println!("REPRODUCED: {}", b.msg);
            if std::env::var_os("RTX_TRACE").is_some() {
                b.trace.iter().for_each(|l| println!("{l}"));
            }
            1
        }
    };
    unsafe { libc::_exit(code) }
}

struct W {
    child: Child,
    seen: u64,
    at: Instant,
    done: Option<i32>,
}

fn check(prop: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let root = root();
    let dir = scratch();
    let page = format!("{dir}/page");
    for d in ["evidence", "out/replay"] {
        std::fs::create_dir_all(format!("{root}/{d}")).unwrap();
    }
    let p = Page::open(&page);
    let all = suites(prop, thorough(tier));
    let n: usize = std::env::var("EVMX_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .min(64);
    let exe = std::env::current_exe().unwrap();
    let mut ws: Vec<W> = (0..n)
        .map(|w| {
            let mut c = Command::new(&exe);
            c.args(["worker", prop, tier, &w.to_string(), &page]).stdout(Stdio::null());
            if std::env::var_os("RTX_PANICS").is_none() {
                c.stderr(Stdio::null());
            }
            env(&mut c, &dir);
            W { child: c.spawn().unwrap(), seen: 0, at: Instant::now(), done: None }
        })
        .collect();
    let load = |w: usize| -> Value {
        std::fs::read(format!("{page}.{w}.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
    };
    let mut viol: Option<(String, String)> = None;
    let mut broken = None;
    let mut brk = String::new();
    'outer: loop {
        let mut running = 0;
        for (i, w) in ws.iter_mut().enumerate() {
            if w.done.is_some() {
                continue;
            }
            let at = |k| p.at(8 + 3 * i + k).load(Ordering::Relaxed);
            let here = |m: &str| {
                let s = &all[at(0).max(1) as usize - 1];
                let b = Bad { msg: m.into(), schedule: vec![], trace: vec![] };
                case_text(prop, tier, s, at(1), Some(&b)).replace("schedule: \n", "")
            };
            if let Some(st) = w.child.try_wait().unwrap() {
                w.done = Some(st.code().unwrap_or(-1));
                match w.done.unwrap() {
                    0 => {}
                    1 => {
                        let v = &load(i)["violation"];
                        viol = Some((v["case"].as_str().unwrap_or("").into(), v["msg"].as_str().unwrap_or("").into()));
                        break 'outer;
                    }
                    3 => {
                        brk = load(i)["violation"]["case"].as_str().unwrap_or("").lines().take(8).collect::<Vec<_>>().join("\n");
                        broken = Some(load(i)["violation"]["msg"].as_str().unwrap_or("").to_string());
                        break 'outer;
                    }
                    _ => {
                        let m = format!("crash: the process died ({st})");
                        viol = Some((here(&m), m));
                        break 'outer;
                    }
                }
                continue;
            }
            running += 1;
            let b = at(2);
            if b != w.seen {
                w.seen = b;
                w.at = Instant::now();
            } else if w.at.elapsed() > HANG {
                let m = format!("hang: no progress within {} s", HANG.as_secs());
                viol = Some((here(&m), m));
                break 'outer;
            }
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for w in &mut ws {
        if w.done.is_none() {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let mut sum: BTreeMap<&str, u64> = BTreeMap::new();
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut depth = 0;
    for i in 0..n {
        let j = load(i);
        for k in ["cases", "schedules", "redundant", "transitions", "steps", "capped", "unsure"] {
            *sum.entry(k).or_default() += j[k].as_u64().unwrap_or(0);
        }
        depth = depth.max(j["max_depth"].as_u64().unwrap_or(0));
        for (a, b) in j["suites"].as_object().into_iter().flatten() {
            *per.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
        }
        if samples.len() < 12 {
            samples.extend(j["samples"].as_array().cloned().unwrap_or_default().into_iter().take(2));
        }
        outcomes.extend(j["outcomes"].as_array().into_iter().flatten().filter_map(|v| v.as_u64()));
    }
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(b) = broken {
        eprintln!("machinery failure: {b}\n{}", brk);
        return 2;
    }
    let g = |k: &str| sum.get(k).copied().unwrap_or(0);
    let bounds: Value = serde_json::from_str(include_str!("../../evmx/src/bounds.json")).unwrap();
    let ev = json!({
        "property": prop,
        "tier": if thorough(tier) { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": g("steps"),
            "transitions": g("transitions"),
            "traces_validated_against_impl": g("schedules"),
            "schedules": g("schedules"),
            "redundant_schedules": g("redundant"),
            "max_schedule_length": depth,
            "cases": g("cases"),
            "cases_per_suite": per,
            "capped_scenarios": g("capped"),
            "histories_cut_at_an_ambiguous_deadline": g("unsure"),
            "distinct_outcomes": outcomes.len(),
            "samples": samples,
            "exhaustive": viol.is_none() && g("capped") == 0,
            "bounds": bounds[prop],
            "meaning": "states: calls judged in sequential histories plus complete schedules of concurrent scenarios; transitions: scheduler steps; every history and schedule is an execution of the runtime crate built from /repo",
        },
        "assumptions": [
            "the scheduler's std, channel, queue, map and thread-pool stand-ins behave like the crates they replace (sequentially consistent memory)",
            "the LLVM backend is replaced by the executable IR backend; code lifetime follows the contracts of revmc-llvm",
            "time is virtual: timers fire in order when nothing else can move, plus the stated number of early firings"
        ],
        "violations": viol.is_some() as u64,
        "wall_s": start.elapsed().as_secs_f64(),
    });
    std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    match viol {
        Some((case, msg)) => {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.hash(&mut h);
            let f = format!("{root}/out/replay/{prop}-{:016x}.case", h.finish());
            std::fs::write(&f, &case).unwrap();
            for l in case.lines().filter(|l| l.starts_with("suite") || l.starts_with("# calls")) {
                println!("{l}");
            }
            println!("{msg}");
            println!("VIOLATION property={prop} replay={f}");
            1
        }
        None => {
            println!(
                "{prop} held: {} cases, {} schedules, {} transitions, {} distinct outcomes, {} capped, {} unsure, {:.1} s",
                g("cases"),
                g("schedules"),
                g("transitions"),
                outcomes.len(),
                g("capped"),
                g("unsure"),
                start.elapsed().as_secs_f64()
            );
            0
        }
    }
}
