//! What is enumerated for each property.
use crate::conc::Scenario;
use crate::seq::{Op, Op::*};
use crate::world::*;

#[derive(Clone)]
pub struct Seq {
    pub name: &'static str,
    pub cfg: Cfg,
    pub prefix: Vec<Op>,
    pub alphabet: Vec<Op>,
    pub depth: usize,
    pub keys: Vec<K>,
    pub no_backend: bool,
}
pub enum Suite {
    Seq(Seq),
    Conc(Scenario),
    Tx(crate::tx::TxSuite),
    Plain(crate::plain::Plain),
}
impl Suite {
    pub fn name(&self) -> &str {
        match self {
            Suite::Seq(s) => s.name,
            Suite::Conc(s) => &s.name,
            Suite::Tx(s) => &s.name,
            Suite::Plain(s) => s.name,
        }
    }
    pub fn cases(&self) -> u64 {
        match self {
            Suite::Seq(s) => (s.alphabet.len() as u64).pow(s.depth as u32),
            Suite::Conc(_) => 1,
            Suite::Tx(s) => s.n.div_ceil(s.batch),
            Suite::Plain(s) => s.n,
        }
    }
    /// Cases handed out at once.
    pub fn chunk(&self) -> u64 {
        match self {
            Suite::Seq(_) | Suite::Plain(_) => 16,
            Suite::Tx(s) if s.batch == 1 => 64,
            Suite::Conc(_) | Suite::Tx(_) => 1,
        }
    }
}
impl Seq {
    /// The `i`th sequence, or nothing if an equal one comes earlier.
    pub fn ops(&self, mut i: u64) -> Option<Vec<Op>> {
        let n = self.alphabet.len() as u64;
        let mut v = self.prefix.clone();
        let mut hold = self.prefix.iter().rev().find(|o| matches!(o, Hold | Release)) == Some(&Hold);
        let mut last = None;
        for _ in 0..self.depth {
            let o = self.alphabet[(i % n) as usize];
            i /= n;
            // Calls that change nothing in the scenario.
            let idle = match o {
                Hold => std::mem::replace(&mut hold, true),
                Release => !std::mem::replace(&mut hold, false),
                DropHeld | Fail(..) | Fault(_) | NoSpawn(_) | NoLink(_) | Corrupt(_) | Level(_) => last == Some(o),
                _ => false,
            };
            if idle {
                return None;
            }
            last = Some(o);
            v.push(o);
        }
        Some(v)
    }
}

fn seq(name: &'static str, cfg: Cfg, alphabet: &[Op], depth: usize) -> Seq {
    let mut keys: Vec<K> = vec![0, 1, 2];
    for o in alphabet {
        match *o {
            Lookup(k) | Burst(k, _) | Blocking(k) | Compile(k) | Sync(k) | Aot(k) | Tracked(k) | Foreign(k) => keys.push(k),
            AotBatch(a, b) => keys.extend([a, b]),
            Crowd(n) => keys.extend((0..n).map(|i| 20 + i)),
            _ => {}
        }
    }
    keys.sort();
    keys.dedup();
    Seq { name, cfg, prefix: vec![], alphabet: alphabet.to_vec(), depth, keys, no_backend: false }
}

pub fn suites(prop: &str, thorough: bool) -> Vec<Suite> {
    if matches!(prop, "P11" | "P12") {
        return crate::tx::suites(prop, thorough).into_iter().map(Suite::Tx).collect();
    }
    let mut v: Vec<Suite> = seqs(prop, thorough).into_iter().map(Suite::Seq).collect();
    if !v.is_empty() {
        // The calls and configurations of the other properties, less deep.
        let limit = if thorough { 8000 } else if matches!(prop, "P17" | "P20") { 2500 } else { 500 };
        for other in ["P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21"].iter().filter(|o| **o != prop) {
            for mut x in seqs(other, false) {
                while x.depth > 2 && (x.alphabet.len() as u64).pow(x.depth as u32) > limit {
                    x.depth -= 1;
                }
                x.name = Box::leak(format!("{}-{}", if prop == "P24" { "oop" } else { "x" }, x.name).into_boxed_str());
                x.cfg.oop |= prop == "P24";
                v.push(Suite::Seq(x));
            }
        }
    }
    conc(prop, thorough, &mut v);
    v.extend(crate::plain::suites(prop, thorough).into_iter().map(Suite::Plain));
    v
}

fn seqs(prop: &str, thorough: bool) -> Vec<Seq> {
    let d = Cfg::default;
    let more = if thorough { 2 } else { !matches!(prop, "P17" | "P24") as usize };
    let mut v: Vec<Seq> = vec![];
    let mut s = |x: Seq| v.push(x);
    let store = || Cfg { store: true, threshold: 1, ..d() };
    let fl = |load_all, load, store, clear| Fault(Faults { load_all, load, store, clear, lost: false });
    let lost = || Fault(Faults { lost: true, ..Faults::default() });
    match prop {
        // The right program, alive.
        "P14" => {
            s(seq("serve", Cfg { threshold: 1, ..d() }, &[Lookup(0), Lookup(1), Lookup(2), Compile(1), ClearRes, Tracked(0), Hold, Release], 4 + more));
            s(seq("serve-2w", Cfg { threshold: 1, workers: 2, ..d() }, &[Lookup(0), Lookup(1), Compile(2), ClearRes, Hold, Release], 4 + more));
            s(seq("recycle", Cfg { threshold: 1, recycle: 1, ..d() }, &[Lookup(0), Lookup(2), Compile(4), ClearRes, DropHeld], 4 + more));
            s(seq("recycle2", Cfg { threshold: 1, recycle: 2, ..d() }, &[Lookup(0), Lookup(2), Compile(4), ClearRes, Restart], 4 + more));
            s(seq("serve-aot", store(), &[Lookup(0), Aot(0), Aot(1), Compile(0), ClearRes, Restart, DropHeld], 3 + more));
            s(seq("serve-specs", Cfg { threshold: 1, ..d() }, &[Compile(0), Compile(1), Compile(2), ClearRes, Lookup(1)], 4 + more));
            s(seq("serve-evict", Cfg { threshold: 1, budget: 1, ..d() }, &[Lookup(0), Lookup(2), Compile(4), DropHeld, ClearRes], 4 + more));
        }
        // Callers.
        "P15" => {
            s(seq("sync", d(), &[Sync(0), Blocking(0), Blocking(1), Compile(0), Lookup(0), Hold, Release, Fail(0, true), Fail(0, false)], 4 + more));
            s(seq("sync-clear", Cfg { threshold: 1, ..d() }, &[Sync(0), Blocking(0), Lookup(0), ClearRes, Hold, Release, Compile(2)], 4 + more));
            s(seq("blocking", Cfg { blocking: true, ..d() }, &[Lookup(0), Lookup(2), Lookup(LONG), Lookup(EMPTY), Enable(false), Enable(true), Hold, Release, Fail(0, true), ClearRes], 3 + more));
            s(seq("sync-full", Cfg { max_pending: 1, queue: 1, ..d() }, &[Sync(0), Sync(2), Blocking(4), Compile(6), Hold, Release], 4 + more));
            s(seq("sync-queue", Cfg { queue: 1, ..d() }, &[Sync(0), Sync(2), Blocking(4), Compile(6), Hold, Release], 4 + more));
            s(seq("sync-noworkers", Cfg { workers: 0, ..d() }, &[Sync(0), Blocking(0), Compile(2), Lookup(0)], 4));
            s(Seq { no_backend: true, ..seq("sync-nobackend", d(), &[Sync(0), Blocking(0), Compile(2), Lookup(0), ClearRes], 4) });
            s(seq("sync-unstarted", Cfg { enabled: false, ..d() }, &[Sync(0), Blocking(2), Pause, Resume, Lookup(0), ClearRes, ClearAll], 4 + more));
            s(seq("sync-ineligible", Cfg { blocking: false, ..d() }, &[Sync(LONG), Sync(EMPTY), Blocking(LONG), Blocking(EMPTY), Sync(0), Lookup(LONG)], 3 + more));
            s(seq("sync-aot", Cfg { aot: true, ..store() }, &[Sync(0), Blocking(0), Sync(1), ClearRes, Restart, Fail(0, true), Fail(0, false)], 3 + more));
            s(seq("sync-aot-held", Cfg { aot: true, ..store() }, &[Sync(0), Blocking(0), ClearRes, ClearAll, Hold, Release], 4 + more));
        }
        // Clearing.
        "P16" => {
            s(seq("clear", Cfg { threshold: 1, ..d() }, &[Lookup(0), Sync(0), Compile(2), Hold, Release, ClearRes, ClearAll], 4 + more));
            s(Seq { prefix: vec![Hold, Compile(0), ClearRes], ..seq("clear-inflight", Cfg { threshold: 1, ..d() }, &[Compile(0), Sync(0), Blocking(0), Lookup(0), ClearRes, One, Compile(2)], 4 + more) });
            s(Seq { prefix: vec![Hold, Sync(0), Blocking(0), ClearAll], ..seq("clear-waiting", Cfg { threshold: 2, ..d() }, &[Compile(0), Blocking(0), Lookup(0), Release, One, Fail(0, true)], 4 + more) });
            s(seq("clear-hot", Cfg { threshold: 2, ..d() }, &[Lookup(0), Lookup(1), Compile(2), Hold, Release, ClearRes], 5 + more));
            s(seq("clear-held-2w", Cfg { threshold: 1, workers: 2, ..d() }, &[Lookup(0), Lookup(2), Sync(0), Hold, Release, ClearRes], 4 + more));
            s(seq("clear-store", store(), &[Aot(0), Aot(2), Lookup(0), ClearRes, ClearPers, ClearAll, Restart, Hold, Release], 4 + more));
            s(seq("clear-events", Cfg { threshold: 2, drain: 1, settle: 1, ..d() }, &[Burst(0, 2), Burst(2, 3), Lookup(0), ClearRes, Compile(4)], 3 + more));
            s(seq("clear-unstarted", Cfg { enabled: false, ..store() }, &[Enable(true), ClearRes, ClearPers, ClearAll, Aot(0), Restart, Lookup(0)], 4 + more));
            s(seq("clear-tiny", Cfg { enabled: false, channel: 1, ..store() }, &[ClearRes, ClearPers, ClearAll, Enable(true), Sync(0), Restart], 4 + more));
            s(seq("clear-fault", store(), &[Aot(0), ClearPers, ClearAll, Restart, fl(false, false, false, true), fl(false, false, false, false)], 4 + more));
        }
        // Admission.
        "P17" => {
            s(seq("promote", d(), &[Lookup(0), Lookup(1), Lookup(2), Compile(0), Hold, Release, Lookup(LONG), Lookup(EMPTY)], 4 + more));
            for (t, n) in [(0, "promote-t0"), (1, "promote-t1"), (3, "promote-t3"), (4, "promote-t4")] {
                s(seq(n, Cfg { threshold: t, ..d() }, &[Lookup(0), Lookup(2), Burst(0, 2), Burst(2, 3), Compile(2)], 4 + more));
            }
            s(seq("fail", d(), &[Lookup(0), Burst(0, 2), Compile(0), Fail(0, true), Fail(0, false), Lookup(2)], 5 + more));
            for (c, n) in [(1, "pending-1"), (2, "pending-2")] {
                s(seq(n, Cfg { max_pending: c, threshold: 1, ..d() }, &[Lookup(0), Compile(2), Compile(4), Lookup(6), Hold, Release, ClearRes], 4 + more));
            }
            s(seq("queue", Cfg { queue: 1, threshold: 1, ..d() }, &[Lookup(0), Compile(2), Compile(4), Lookup(6), Hold, Release], 4 + more));
            s(seq("queue-2w", Cfg { queue: 1, workers: 2, threshold: 1, ..d() }, &[Lookup(0), Compile(2), Compile(4), Compile(6), Compile(8), Hold, Release], 5 + more));
            s(seq("queue-0", Cfg { queue: 0, threshold: 1, ..d() }, &[Lookup(0), Compile(2), Sync(2)], 3));
            s(seq("no-workers", Cfg { workers: 0, threshold: 1, ..d() }, &[Lookup(0), Compile(2), Lookup(2)], 3));
            s(seq("crowd", Cfg { max_pending: 1, threshold: 2, drain: 256, ..d() }, &[Crowd(9), Crowd(11), Lookup(0), Lookup(2), Compile(0), Compile(2), Hold, Release], 3 + more));
            s(seq("overflow", Cfg { channel: 2, threshold: 2, ..d() }, &[Burst(0, 3), Burst(0, 2), Lookup(2), Burst(2, 4), Compile(0)], 4 + more));
            s(seq("slow-drain", Cfg { channel: 8, drain: 1, threshold: 3, settle: 2, ..d() }, &[Burst(0, 3), Lookup(0), Lookup(2), Burst(2, 4), Sleep(250)], 3 + more));
            s(seq("any-length", Cfg { max_len: 0, threshold: 1, ..d() }, &[Lookup(LONG), Lookup(EMPTY), Compile(LONG + 1), Blocking(EMPTY), Lookup(0)], 4));
            s(seq("idle-working", Cfg { idle: Some(1000), threshold: 1, ..d() }, &[Lookup(0), Sleep(1500), Hold, Release, Compile(0)], 5 + more));
            s(seq("disable", d(), &[Lookup(0), Enable(false), Enable(true), Compile(0), Tracked(0), Blocking(2)], 4 + more));
        }
        // Eviction.
        "P18" => {
            for (b, n) in [(1, "budget-1"), (2, "budget-2")] {
                s(seq(n, Cfg { budget: b, threshold: 1, ..d() }, &[Lookup(0), Lookup(2), Lookup(4), Compile(6), DropHeld], 5 + more));
            }
            s(seq("budget-spec", Cfg { budget: 2, threshold: 2, ..d() }, &[Compile(0), Compile(1), Compile(2), Lookup(0), Lookup(1), DropHeld], 4 + more));
            s(seq("budget-aot", Cfg { budget: 1, ..store() }, &[Aot(0), Compile(2), Compile(4), Lookup(0), DropHeld, Lookup(2)], 4 + more));
            s(seq("idle", Cfg { idle: Some(1000), threshold: 1, ..d() }, &[Lookup(0), Compile(2), Tracked(0), Sleep(300), Sleep(1500), DropHeld], 4 + more));
            s(seq("idle-cold", Cfg { idle: Some(1000), threshold: 2, ..d() }, &[Lookup(0), Lookup(2), Sleep(300), Sleep(1500), Hold, Release], 4 + more));
            s(seq("idle-cold-3", Cfg { idle: Some(1000), threshold: 3, ..d() }, &[Lookup(0), Lookup(2), Sleep(650), Sleep(1500)], 5 + more));
            s(seq("idle-cold-long", Cfg { idle: Some(3000), threshold: 3, ..d() }, &[Lookup(0), Lookup(2), Sleep(2000), Sleep(4500)], 5 + more));
            s(seq("idle-held", Cfg { idle: Some(1000), threshold: 1, ..d() }, &[Lookup(0), Sync(0), Sleep(1500), Hold, Release], 4 + more));
            s(seq("idle-aot", Cfg { idle: Some(1000), ..store() }, &[Aot(0), Lookup(0), Sleep(1500), Sleep(300), Restart], 4 + more));
            s(seq("idle-budget", Cfg { idle: Some(1000), budget: 1, threshold: 1, ..d() }, &[Lookup(0), Lookup(2), Sleep(1500), DropHeld, ClearRes], 4 + more));
        }
        // Lifecycle.
        "P19" => {
            s(seq("lazy", Cfg { enabled: false, threshold: 1, ..d() }, &[Lookup(0), Enable(true), Enable(false), Compile(0), Sync(2), ClearRes, Tracked(0)], 4 + more));
            s(seq("lazy-aot", Cfg { enabled: false, ..store() }, &[Lookup(0), Enable(true), Enable(false), Aot(0), ClearRes, Restart], 4 + more));
            s(seq("restart", Cfg { threshold: 1, ..d() }, &[Lookup(0), Compile(2), Sync(0), Restart, Pause, Resume, Enable(false)], 4 + more));
            s(seq("restart-aot", Cfg { aot: true, ..store() }, &[Lookup(0), Sync(2), Restart, Corrupt(0), ClearRes], 4 + more));
            s(seq("start-fault", Cfg { enabled: false, ..store() }, &[Enable(true), Sync(0), Aot(2), Restart, fl(true, false, false, false), fl(false, false, false, false)], 4 + more));
            s(seq("blocking-off", Cfg { blocking: true, ..d() }, &[Lookup(0), Enable(false), Enable(true), Restart, Tracked(0), Pause], 3 + more));
            s(seq("pause", Cfg { threshold: 1, ..d() }, &[Pause, Resume, Lookup(0), Sync(0), Enable(false), Enable(true), Restart], 4 + more));
        }
        // Statistics and events.
        "P20" => {
            s(seq("count", d(), &[Lookup(0), Tracked(0), Compile(2), Fail(0, true), ClearRes, Hold, Release, Blocking(0)], 4 + more));
            s(seq("count-drop", Cfg { channel: 2, threshold: 1, ..d() }, &[Burst(0, 4), Lookup(2), Tracked(2), Compile(2), ClearRes], 4 + more));
            s(seq("count-aot", store(), &[Aot(0), AotBatch(0, 2), Lookup(0), Compile(2), ClearAll, Fail(2, true)], 3 + more));
            s(seq("count-nostore", Cfg { threshold: 1, ..d() }, &[Aot(0), AotBatch(0, 2), Lookup(0), ClearRes, Hold, Release], 3 + more));
            s(seq("count-faults", store(), &[Aot(0), ClearRes, Lookup(0), fl(false, true, false, false), fl(false, false, true, false), fl(false, false, false, false)], 3 + more));
            s(seq("count-evict", Cfg { budget: 1, idle: Some(1000), threshold: 1, ..d() }, &[Lookup(0), Lookup(2), Sleep(1500), DropHeld, ClearRes], 4 + more));
            s(seq("count-held", Cfg { threshold: 1, workers: 2, ..d() }, &[Compile(0), Compile(2), Lookup(0), ClearRes, Hold, Release, Fail(0, true)], 4 + more));
        }
        // The helper process.
        "P24" => {
            let o = || Cfg { oop: true, threshold: 1, ..d() };
            s(seq("helper", o(), &[Lookup(0), Sync(0), Compile(2), Crash, Hold, Release, ClearRes], 4 + more));
            s(seq("helper-pause", o(), &[Pause, Resume, Sync(0), Compile(2), ClearRes, Hold, Release], 4 + more));
            s(seq("helper-pause-crash", o(), &[Pause, Resume, Sync(0), Compile(2), Crash, Restart], 4 + more));
            s(seq("helper-restart", o(), &[Compile(0), Compile(2), Pause, Restart, Hold, Release, Crash], 4 + more));
            s(Seq { prefix: vec![Pause, Compile(0), Compile(2)], ..seq("helper-end", o(), &[Compile(4), Compile(6), Sync(0), Restart, Resume, ClearRes, Crash], 3 + more) });
            s(seq("helper-timeout", Cfg { timeout: 3000, max_pending: 1, ..o() }, &[Sync(0), Compile(2), Hold, Release, Sleep(3100), Lookup(0)], 4 + more));
            s(seq("helper-timeout-long", Cfg { timeout: 10_000, ..o() }, &[Sync(0), Compile(2), Hold, Sleep(2000), Sleep(10_100)], 4 + more));
            s(seq("helper-pause-time", Cfg { timeout: 3000, ..o() }, &[Compile(0), Sync(2), Pause, Resume, Sleep(5000), ClearRes], 4 + more));
            s(seq("helper-nospawn", o(), &[NoSpawn(true), NoSpawn(false), Sync(0), Blocking(2), Crash, ClearRes], 4 + more));
            s(seq("helper-nolink", o(), &[NoLink(true), NoLink(false), Sync(0), Compile(0), Blocking(2), ClearRes, Lookup(0)], 4 + more));
            s(seq("helper-fail", o(), &[Fail(0, true), Fail(0, false), Sync(0), Compile(0), Crash, Lookup(2)], 4 + more));
            s(seq("helper-2w", Cfg { workers: 2, ..o() }, &[Compile(0), Sync(2), Compile(4), Hold, Release, Crash, ClearRes], 4 + more));
            s(seq("helper-recycle", Cfg { recycle: 1, ..o() }, &[Compile(0), Sync(1), Sync(2), ClearRes, Crash], 4 + more));
            s(seq("helper-aot", Cfg { oop: true, ..store() }, &[Aot(0), Sync(0), Compile(2), Pause, Resume, ClearAll, Restart], 4 + more));
            s(seq("helper-aot-mode", Cfg { oop: true, aot: true, ..store() }, &[Lookup(0), Sync(0), Crash, Pause, ClearRes, Restart], 3 + more));
            s(seq("helper-huge", Cfg { max_len: 0, workers: 2, ..o() }, &[Compile(HUGE), Sync(HUGE + 1), Pause, Resume, ClearRes, Crash, Restart], 3 + more));
        }
        // Artifacts.
        "P21" => {
            s(seq("aot", store(), &[Aot(0), Aot(1), AotBatch(0, 2), Lookup(0), Compile(0), ClearRes, ClearPers, Restart], 3 + more));
            s(seq("aot-mode", Cfg { aot: true, threshold: 2, ..store() }, &[Lookup(0), Sync(0), Blocking(1), ClearRes, Restart, Corrupt(0)], 4 + more));
            s(seq("aot-corrupt", store(), &[Aot(0), Aot(2), Corrupt(0), ClearRes, Restart, Lookup(0)], 4 + more));
            s(seq("aot-faults", store(), &[Aot(0), Restart, ClearRes, fl(true, false, false, false), fl(false, true, false, false), fl(false, false, true, false), fl(false, false, false, false)], 4 + more));
            s(seq("aot-lost", store(), &[Aot(0), AotBatch(0, 2), Restart, ClearRes, lost(), fl(false, false, false, false)], 3 + more));
            s(seq("aot-lost-mode", Cfg { aot: true, ..store() }, &[Lookup(0), Sync(0), ClearRes, lost(), fl(false, false, false, false)], 3 + more));
            s(seq("aot-nostore", Cfg { aot: true, threshold: 1, ..d() }, &[Lookup(0), Aot(0), Sync(0), Restart], 3));
            s(seq("aot-levels", store(), &[Aot(0), Level(1), Level(2), Restart, ClearRes, Corrupt(0), Lookup(0)], 4 + more));
            s(seq("aot-foreign", store(), &[Foreign(0), Foreign(1), Aot(0), Restart, ClearRes, Lookup(0)], 4 + more));
            s(seq("aot-foreign-mode", Cfg { aot: true, ..store() }, &[Foreign(0), Sync(0), Lookup(0), ClearRes, ClearPers, Restart], 3 + more));
            s(seq("aot-fail", store(), &[Aot(0), Fail(0, true), Fail(0, false), Lookup(0), ClearRes, Restart], 4 + more));
        }
        _ => {}
    }
    v
}

fn conc(prop: &str, thorough: bool, v: &mut Vec<Suite>) {
    let d = || Cfg { threshold: 1, channel: 8, ..Cfg::default() };
    let mut add = |name: String, cfg: Cfg, setup: &[Op], clients: &[&[Op]], early: u32, drop_main: bool| {
        v.push(Suite::Conc(Scenario {
            name,
            cfg,
            setup: setup.to_vec(),
            clients: clients.iter().map(|c| c.to_vec()).collect(),
            early,
            drop_main,
        }))
    };
    let e = 1;
    let t = thorough as usize;
    /// All pairs of clients over an alphabet.
    macro_rules! pairs {
        ($n:literal, $cfg:expr, $setup:expr, $alpha:expr, $la:expr, $lb:expr, $early:expr, $drop:expr) => {{
            let a: Vec<Op> = $alpha.to_vec();
            let lists = |len: usize| -> Vec<Vec<Op>> {
                let mut out: Vec<Vec<Op>> = vec![vec![]];
                for _ in 0..len {
                    out = out.into_iter().flat_map(|p| a.iter().map(move |o| [p.clone(), vec![*o]].concat())).collect();
                }
                out
            };
            for x in lists($la) {
                for y in lists($lb) {
                    if $la == $lb && format!("{y:?}") < format!("{x:?}") {
                        continue;
                    }
                    add(format!("{} {x:?} {y:?}", $n), $cfg, $setup, &[&x, &y], $early, $drop);
                }
            }
        }};
    }
    match prop {
        "P14" => {
            pairs!("c-serve", d(), &[], [Lookup(0), Sync(0), ClearRes, Sync(2)], 1, 1, t as u32, false);
            pairs!("c-resident", d(), &[Sync(0)], [Lookup(0), Tracked(0), ClearRes, Sync(2)], 1 + t, 1, e, false);
            pairs!("c-evict", Cfg { budget: 1, ..d() }, &[Sync(0)], [Lookup(0), Sync(2), Sync(0), Tracked(0)], 1, 1, e, false);
            pairs!("c-specs", d(), &[], [Blocking(0), Blocking(1), Lookup(0)], 1, 1, t as u32, false);
            pairs!("c-recycle", Cfg { recycle: 1, ..d() }, &[Sync(0)], [Lookup(0), Sync(2), ClearRes], 1, 1, e, false);
        }
        "P15" => {
            pairs!("c-callers", d(), &[], [Lookup(0), Sync(0), Blocking(0), Compile(0), ClearRes], 1, 1, e, false);
            pairs!("c-small", Cfg { channel: 1, ..d() }, &[], [Sync(0), Pause, Compile(0), ClearRes], 1 + t, 1, e, false);
            pairs!("c-unstarted", Cfg { enabled: false, ..d() }, &[], [Sync(0), Enable(true), Pause, Blocking(0)], 1, 1, e, false);
            pairs!("c-fail", d(), &[Fail(0, true)], [Sync(0), Blocking(0), Lookup(0)], 1, 1, e, false);
            pairs!("c-full", Cfg { max_pending: 1, ..d() }, &[], [Sync(0), Sync(2), Blocking(4)], 1, 1, e, false);
            pairs!("c-drop", d(), &[], [Sync(0), Blocking(0), Lookup(0), Compile(2)], 1, t, e, true);
        }
        "P16" => {
            pairs!("c-clear", d(), &[], [Sync(0), Compile(0), ClearRes, Lookup(0)], 1, 1, e, false);
            pairs!("c-clear-res", d(), &[Sync(0)], [Sync(0), ClearRes, Blocking(0)], 1 + t, 1, e, false);
            add("c-own-clear".into(), d(), &[], &[&[Compile(0), ClearRes]], e, false);
            add("c-own-clear-2".into(), d(), &[Sync(2)], &[&[Lookup(0), Compile(4), ClearRes]], e, false);
            add("c-own-clear-3".into(), Cfg { workers: 2, ..d() }, &[], &[&[Compile(0), Compile(2), ClearRes]], e, false);
            add("c-reclear".into(), d(), &[], &[&[Compile(0), ClearRes, Sync(0)]], e, false);
            add("c-reclear-2".into(), d(), &[], &[&[Compile(0), ClearRes, Blocking(0)]], e, false);
        }
        "P17" => {
            pairs!("c-admit", d(), &[], [Lookup(0), Compile(0), Sync(0), Lookup(2)], 1, 1, e, false);
            pairs!("c-hot", Cfg { threshold: 2, ..d() }, &[], [Lookup(0), Compile(0), Lookup(2)], 2, 1, t as u32, false);
            pairs!("c-cap", Cfg { max_pending: 1, ..d() }, &[], [Lookup(0), Compile(2), Compile(4)], 1, 1, e, false);
        }
        "P18" => {
            pairs!("c-budget", Cfg { budget: 1, ..d() }, &[Sync(0)], [Lookup(0), Sync(2), Compile(4), Tracked(0)], 1, 1, e, false);
        }
        "P24" => {
            let o = || Cfg { oop: true, ..d() };
            pairs!("c-helper", o(), &[], [Sync(0), Crash, ClearRes, Lookup(0)], 1, 1, 0, false);
            pairs!("c-helper-up", o(), &[Sync(2)], [Sync(0), Crash, ClearRes, Compile(0)], 1 + t, 1, 0, false);
            if thorough {
                add("c-helper-pause".into(), o(), &[], &[&[Sync(0)], &[Pause, Resume]], 0, false);
            }
            add("c-helper-pause-up".into(), o(), &[Sync(2)], &[&[Compile(0)], &[Pause, Resume]], 0, false);
            pairs!("c-helper-drop", o(), &[], [Compile(0), Pause, ClearRes, Crash], 1, t, 0, true);
            pairs!("c-helper-drop-up", o(), &[Sync(2)], [Compile(0), Pause, Crash], 1, 0, 0, true);
        }
        "P21" => {
            let st = || Cfg { store: true, ..d() };
            pairs!("c-aot", st(), &[], [Aot(0), Sync(0), Lookup(0), ClearPers, ClearAll], 1, 1, e, false);
            pairs!("c-aot-mode", Cfg { aot: true, ..st() }, &[], [Sync(0), Blocking(0), ClearRes, Lookup(0)], 1, 1, e, false);
        }
        "P19" => {
            pairs!("c-start", Cfg { enabled: false, ..d() }, &[], [Enable(true), Enable(false), Lookup(0), Compile(0), Sync(0)], 1, 1, e, false);
            pairs!("c-drop", d(), &[], [Lookup(0), Compile(0), Sync(0), ClearRes], 1, t, e, true);
            pairs!("c-drop-resident", d(), &[Sync(0)], [Lookup(0), Compile(2), Tracked(0)], 1, t, e, true);
            pairs!("c-pause", d(), &[], [Pause, Resume, Sync(0)], 2, 1, t as u32, false);
        }
        "P20" => {
            pairs!("c-count", d(), &[], [Lookup(0), Compile(0), Lookup(2), ClearRes], 1, 1, e, false);
            pairs!("c-count-drop", Cfg { channel: 1, ..d() }, &[], [Lookup(0), Lookup(2), Compile(0)], 1, 1, e, false);
        }
        _ => {}
    }
}
