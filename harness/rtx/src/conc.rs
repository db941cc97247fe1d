//! Every schedule of a few clients, the backend thread and the workers, with monitors that must hold on each.
use crate::seq::{HANDLE_OBJ, Op, Op::*};
use crate::world::*;
use fakellvm::world;
use revmc_runtime::runtime::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: String,
    pub cfg: Cfg,
    /// Done one by one before the clients start.
    pub setup: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    /// Early timer firings of the backend thread.
    pub early: u32,
    /// The main handle goes before the clients are done.
    pub drop_main: bool,
}

#[derive(Default)]
struct Shared {
    /// First monitor that failed.
    err: Option<String>,
    outcome: Vec<String>,
}

struct Env {
    /// Nothing in the scenario can keep a requested compilation from being published and staying so.
    sure: bool,
    keys: Vec<K>,
    drop_main: bool,
}

fn op_keys(o: &Op) -> Vec<K> {
    match *o {
        Lookup(k) | Burst(k, _) | Blocking(k) | Compile(k) | Sync(k) | Aot(k) | Tracked(k) => vec![k],
        AotBatch(a, b) => vec![a, b],
        _ => vec![],
    }
}

fn client(be: JitBackend, ops: &[Op], env: &Env, out: &mut Vec<String>) -> Result<(), String> {
    let mut held: Vec<(K, Arc<CompiledProgram>)> = vec![];
    let decide = |d: LookupDecision, k: K, what: &str, held: &mut Vec<(K, Arc<CompiledProgram>)>| match d {
        LookupDecision::Compiled(p) => {
            run(k, &p).map_err(|e| format!("{what}: {e}"))?;
            held.push((k, p));
            Ok::<_, String>("hit".to_string())
        }
        LookupDecision::Interpret(r) => Ok(format!("{r:?}")),
    };
    for o in ops {
        let r = match *o {
            Lookup(k) => {
                mc::wait_free(Some("lookup"));
                let d = be.lookup(req(k));
                mc::wait_free(None);
                let r = decide(d, k, "lookup", &mut held)?;
                if !matches!(r.as_str(), "hit" | "NotReady" | "Disabled") {
                    return Err(format!("lookup answers {r}"));
                }
                r
            }
            Blocking(k) => {
                let d = be.lookup_blocking(req(k));
                let r = decide(d, k, "lookup_blocking", &mut held)?;
                if r != "hit" && env.sure {
                    return Err(format!("lookup_blocking gives {r} although nothing prevents the compilation"));
                }
                r
            }
            Sync(k) => {
                let r = be.compile_jit_sync(req(k));
                match &r {
                    Ok(()) if env.sure => match be.get_compiled(hash(k), spec(k)) {
                        Some(p) => run(k, &p)?,
                        None => {
                            return Err("compile_jit_sync returned but no program is there, although nothing prevents it".into());
                        }
                    },
                    Err(e) => return Err(format!("compile_jit_sync fails while the backend is in use: {e}")),
                    _ => {}
                }
                "sync".into()
            }
            Compile(k) => {
                be.compile_jit(req(k));
                String::new()
            }
            Aot(k) => {
                be.prepare_aot(AotRequest { code_hash: hash(k), code: code(k), spec_id: spec(k) });
                String::new()
            }
            Tracked(k) => match be.get_compiled_tracked(hash(k), spec(k)) {
                Some(p) => {
                    run(k, &p)?;
                    held.push((k, p));
                    "hit".into()
                }
                None => "none".into(),
            },
            ClearRes => {
                be.clear_resident();
                String::new()
            }
            ClearPers => {
                be.clear_persisted();
                String::new()
            }
            ClearAll => {
                be.clear_all();
                String::new()
            }
            Enable(e) => {
                if let Err(e) = be.set_enabled(e) {
                    return Err(format!("set_enabled: {e}"));
                }
                String::new()
            }
            Pause | Resume => {
                mc::wait_free(Some(if *o == Pause { "pause" } else { "resume" }));
                if *o == Pause { be.pause() } else { be.resume() }
                mc::wait_free(None);
                String::new()
            }
            Hold | Release => {
                fakellvm::set_hold(*o == Hold);
                String::new()
            }
            Sleep(ms) => {
                mc::sleep(ms * MS);
                String::new()
            }
            Crash => {
                crash();
                String::new()
            }
            NoLink(f) => {
                world(|w| w.no_link = f);
                String::new()
            }
            NoSpawn(f) => {
                mcstd::process::fail_spawns(f);
                String::new()
            }
            DropHeld => {
                mc::point("drop programs", &[mc::Acc(fakellvm::CODE_OBJ, mc::W)]);
                held.clear();
                String::new()
            }
            _ => return Err(format!("MACHINERY {o:?} in a concurrent scenario")),
        };
        out.push(r);
        for (k, p) in &held {
            run(*k, p)?;
        }
    }
    mc::point("drop handle", &[mc::Acc(HANDLE_OBJ, if env.drop_main { mc::W } else { mc::Inc })]);
    drop(be);
    for (k, p) in &held {
        run(*k, p).map_err(|e| format!("after letting go of the backend: {e}"))?;
    }
    drop(held);
    Ok(())
}

/// One execution. The returned string identifies what was observed.
pub fn execute(s: &Scenario) -> Result<String, String> {
    let all: Vec<Op> = s.setup.iter().chain(s.clients.iter().flatten()).copied().collect();
    let clears = s.clients.iter().flatten().filter(|o| matches!(o, ClearRes | ClearAll)).count();
    let mut keys: Vec<K> = all.iter().flat_map(op_keys).collect();
    keys.sort();
    keys.dedup();
    let sure = clears == 0
        && s.cfg.budget == 0
        && s.cfg.idle.is_none()
        && s.cfg.workers > 0
        && s.cfg.max_pending >= keys.len()
        && s.cfg.queue * s.cfg.workers >= keys.len()
        && !all.iter().any(|o| matches!(o, Fail(..) | Hold | Fault(_) | Crash | NoSpawn(true) | NoLink(_) | Sleep(_)))
        && !(s.cfg.oop && all.iter().any(|o| matches!(o, Pause)));
    let env = Arc::new(Env { sure, keys, drop_main: s.drop_main });
    mc::freeze(true);
    let store = s.cfg.store.then(Store::new);
    let cb: Cb = Default::default();
    let be = JitBackend::new(s.cfg.build(store.clone(), cb.clone())).map_err(|e| format!("start: {e}"))?;
    mc::settle(1);
    for o in &s.setup {
        match *o {
            Fail(k, true) => world(|w| w.failing.push((k >> 1) as u64)),
            _ => client(be.clone(), &[*o], &env, &mut vec![])?,
        }
        mc::settle(1);
    }
    let before = nums(&be);
    let compiled_before = world(|w| w.compiled.len());
    let shared = Arc::new(Mutex::new(Shared { err: None, outcome: vec![String::new(); s.clients.len()] }));
    let mut hs = vec![];
    for (i, ops) in s.clients.iter().enumerate() {
        let (be, ops, env, shared) = (be.clone(), ops.clone(), env.clone(), shared.clone());
        hs.push(mc::spawn(["a", "b", "c"][i], move || {
            let mut out = vec![];
            let r = client(be, &ops, &env, &mut out);
            let mut g = shared.lock().unwrap();
            g.outcome[i] = out.join(",");
            if let Err(e) = r {
                mc::fail(format!("client {}: {e}", ["a", "b", "c"][i]));
                g.err.get_or_insert(e);
            }
        }));
    }
    let mut be = Some(be);
    mc::freeze(false);
    if s.drop_main {
        mc::point("drop handle", &[mc::Acc(HANDLE_OBJ, mc::W)]);
        be = None;
    }
    for h in &hs {
        h.join();
    }
    mc::freeze(true);
    let mut fin = String::new();
    if let Some(be) = &be {
        mc::settle(2);
        if all.iter().any(|o| matches!(o, Hold)) {
            fakellvm::set_hold(false);
            mc::settle(2);
        }
        fin = finale(s, &env, be, &before, compiled_before, &cb, clears)?;
    }
    mc::point("drop backend", &[mc::Acc(HANDLE_OBJ, mc::W)]);
    drop(be);
    mc::settle(1);
    let left = world(|w| (w.live_bytes(), w.libs));
    if left != (0, 0) {
        return Err(format!("after the end: {} bytes of code and {} libraries are still there", left.0, left.1));
    }
    let z = mc::zombies();
    if !z.is_empty() {
        return Err(format!("after the end: {} helpers ended without being waited for", z.len()));
    }
    let g = shared.lock().unwrap();
    if let Some(e) = &g.err {
        return Err(e.clone());
    }
    if std::env::var_os("RTX_SHOW").is_some() {
        return Err("end".into());
    }
    Ok(format!("{} | {fin}", g.outcome.join(" / ")))
}

fn nums(be: &JitBackend) -> RuntimeStatsSnapshot {
    be.stats()
}

fn finale(
    s: &Scenario,
    env: &Env,
    be: &JitBackend,
    before: &RuntimeStatsSnapshot,
    compiled_before: usize,
    cb: &Cb,
    clears: usize,
) -> Result<String, String> {
    let n = nums(be);
    let ops = || s.clients.iter().flatten();
    let mut resident = vec![];
    for &k in &env.keys {
        if let Some(p) = be.get_compiled(hash(k), spec(k)) {
            run(k, &p)?;
            resident.push(k);
        }
    }
    if n.pending_jobs != 0 {
        return Err(format!("{} jobs are reported pending when nothing is in flight", n.pending_jobs));
    }
    if n.events_queued != 0 || n.command_queue_len != 0 {
        return Err(format!("{} events and {} commands are never processed", n.events_queued, n.command_queue_len));
    }
    if n.resident_entries != resident.len() as u64 {
        return Err(format!("{} resident entries reported, {} there", n.resident_entries, resident.len()));
    }
    let code = world(|w| w.live_bytes()) as u64;
    if n.jit_code_bytes != code {
        return Err(format!("{} bytes of code reported, {code} alive", n.jit_code_bytes));
    }
    if env.sure && code > 1000 * resident.len() as u64 {
        return Err(format!("{code} bytes of code are alive for {} resident programs", resident.len()));
    }
    // Requests are served unless something prevents it.
    let asked = |k: K| {
        let explicit = ops().any(|o| matches!(*o, Compile(x) | Sync(x) | Blocking(x) | Aot(x) if x == k));
        let seen = ops().filter(|o| **o == Lookup(k)).count();
        let off = ops().any(|o| matches!(o, Enable(_)));
        explicit || s.cfg.blocking && seen > 0 && !off || seen >= s.cfg.threshold.max(1) && !off && s.cfg.enabled && s.cfg.channel >= 8
    };
    if env.sure {
        for &k in &env.keys {
            if asked(k) && !resident.contains(&k) {
                return Err(format!("key {k} was asked for but is not resident in the end"));
            }
        }
    }
    // Never compiled twice without a reason.
    let compiled = world(|w| w.compiled[compiled_before..].to_vec());
    let evicting = s.cfg.budget > 0 || s.cfg.idle.is_some();
    if !evicting {
        for &k in &env.keys {
            let specs = env.keys.iter().filter(|x| *x >> 1 == k >> 1).count();
            let c = compiled.iter().filter(|c| **c == (k >> 1) as u64).count();
            let kinds = 1;
            if c > specs * kinds * (1 + clears) {
                return Err(format!("the code of key {k} was compiled {c} times with {clears} clears"));
            }
        }
    }
    // What was cleared last stays gone unless asked for afterwards: with one client per kind the order is known only
    // within a client.
    if s.clients.iter().any(|c| matches!(c.last(), Some(ClearRes | ClearAll))) && s.clients.len() == 1 && !resident.is_empty() {
        return Err(format!("{resident:?} resident after the final clear"));
    }
    // Counters.
    let done = n.compilations_succeeded + n.compilations_failed - before.compilations_succeeded - before.compilations_failed;
    let dispatched = n.compilations_dispatched - before.compilations_dispatched;
    if done > dispatched || clears == 0 && done != dispatched {
        return Err(format!("{dispatched} compilations dispatched, {done} finished"));
    }
    let cbs = cb.lock().unwrap();
    let ok = cbs.iter().filter(|c| c.2).count() as u64;
    if !s.cfg.store && (ok != n.compilations_succeeded || cbs.len() as u64 != n.compilations_succeeded + n.compilations_failed) {
        return Err(format!(
            "{} compilation events ({ok} successful), but {} succeeded and {} failed",
            cbs.len(),
            n.compilations_succeeded,
            n.compilations_failed
        ));
    }
    if !ops().any(|o| matches!(o, Fail(..) | Crash | NoSpawn(_) | NoLink(_))) && !s.setup.iter().any(|o| matches!(o, Fail(..) | NoSpawn(_))) && n.compilations_failed != 0 {
        return Err(format!("{} compilations reported failed", n.compilations_failed));
    }
    let looks = ops().filter(|o| matches!(o, Lookup(_))).count() as u64;
    let seen = n.lookup_hits + n.lookup_misses + n.events_dropped - before.lookup_hits - before.lookup_misses - before.events_dropped;
    let plain = !ops().any(|o| matches!(o, Enable(_) | Blocking(_) | Tracked(_))) && !s.cfg.blocking && s.cfg.enabled;
    if plain && clears == 0 && seen != looks || plain && seen > looks {
        return Err(format!("{looks} lookups, {seen} accounted for"));
    }
    let depth = ops().fold(None, |d: Option<i64>, o| match (d, o) {
        (_, Pause) if s.clients.len() > 1 => Some(-1),
        (d, _) => d,
    });
    let pauses = ops().filter(|o| **o == Pause).count();
    let resumes = ops().filter(|o| **o == Resume).count();
    if depth.is_none() && pauses == 0 && be.is_paused() || pauses > resumes && !be.is_paused() {
        return Err(format!("is_paused() is {} after {pauses} pauses and {resumes} resumes", be.is_paused()));
    }
    // Each client releases what it took: the end is not paused.
    if s.clients.iter().all(|c| balanced(c)) && be.is_paused() {
        return Err("still paused although every pause was released".into());
    }
    Ok(format!("{resident:?} {compiled:?} {} {} {}", n.compilations_dispatched, n.lookup_hits, n.lookup_misses))
}

fn balanced(c: &[Op]) -> bool {
    let mut d = 0i64;
    for o in c {
        match o {
            Pause => d += 1,
            Resume => {
                d -= 1;
                if d < 0 {
                    return false;
                }
            }
            _ => {}
        }
    }
    d == 0
}
