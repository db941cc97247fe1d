//! Every sequence of calls up to a depth, each followed by quiescence, against a reference model of the documented
//! policy. Compilations can be held, so that calls arrive while others are in flight.
use crate::world::*;
use fakellvm::world;
use revmc_runtime::runtime::*;
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    hash::{Hash, Hasher},
    sync::{Arc, Mutex},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// Look up and keep the program.
    Lookup(K),
    /// Look up this many times before anything else moves.
    Burst(K, u8),
    Blocking(K),
    Compile(K),
    Sync(K),
    Aot(K),
    AotBatch(K, K),
    Tracked(K),
    ClearRes,
    ClearPers,
    ClearAll,
    Enable(bool),
    Pause,
    Resume,
    Hold,
    Release,
    /// Let one held compilation finish.
    One,
    /// Compilations of this code start or stop failing.
    Fail(K, bool),
    Sleep(u64),
    /// Artifacts are made at this optimisation level from the next start on.
    Level(u8),
    /// Let go of the programs kept.
    DropHeld,
    /// Drop the backend and start another with the same store.
    Restart,
    Fault(Faults),
    /// Damage the stored library of this key.
    Corrupt(K),
    /// An artifact of this key made by another tool, under a symbol name of its own, appears in the store.
    Foreign(K),
    /// The helper process dies.
    Crash,
    /// Helper processes cannot be started, or can again.
    NoSpawn(bool),
    /// Objects of the helper process cannot be linked, or can again.
    NoLink(bool),
    /// Look up this many distinct keys, one event each.
    Crowd(u8),
}
use Op::*;

type Span = (u64, u64);

#[derive(Clone, Debug)]
struct Job {
    k: K,
    aot: bool,
    fresh: u64,
    waiter: Option<usize>,
}
#[derive(Clone, Debug)]
struct Res {
    aot: bool,
    hit: Span,
    /// Position in the order of use; equal positions are unordered.
    used: u64,
    id: u64,
}
#[derive(Clone, Debug, Default)]
struct Entry {
    hot: usize,
    working: bool,
    seen: Span,
    waiters: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ans {
    SyncOk,
    Hit,
    Miss(InterpretReason),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Nums {
    hits: u64,
    misses: u64,
    dropped: u64,
    cmd_dropped: u64,
    evictions: u64,
    dispatched: u64,
    succeeded: u64,
    failed: u64,
    pending: u64,
    bytes: u64,
    resident: u64,
    events: u64,
    commands: u64,
    spawns: u64,
    spawn_failures: u64,
    timeouts: u64,
    pauses: u64,
    resumes: u64,
    acks: u64,
    restarts: u64,
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
enum Helper {
    #[default]
    None,
    Alive,
    Dead,
}

struct Model {
    c: Cfg,
    started: bool,
    enabled: bool,
    depth: u64,
    resident: BTreeMap<K, Res>,
    entries: BTreeMap<K, Entry>,
    running: Vec<Job>,
    queue: VecDeque<Job>,
    fresh: u64,
    n: Nums,
    /// Artifacts stored, with their optimisation level.
    persisted: BTreeSet<(K, u8)>,
    broken: BTreeSet<(K, u8)>,
    faults: Faults,
    cb: Vec<(K, bool, bool)>,
    compiled: Vec<u64>,
    failing: BTreeSet<u64>,
    hold: bool,
    /// Lookup events not yet seen by the backend: key and whether it was a hit.
    events: VecDeque<(K, bool)>,
    answers: Vec<Option<Ans>>,
    /// What a waiter still has to do when its compilation is over.
    blocking: Vec<Option<K>>,
    held: BTreeSet<u64>,
    ids: u64,
    now: Span,
    step: u64,
    unsure: bool,
    no_backend: bool,
    drained: usize,
    told: Vec<usize>,
    /// Commands sent before the backend could start.
    early: Vec<(K, bool)>,
    helper: Helper,
    /// The helper process is stopped.
    paused: bool,
    /// Time passed while it was.
    slept: bool,
    no_spawn: bool,
    no_link: bool,
}

impl Model {
    fn eligible(&self, k: K) -> bool {
        let l = code(k).len();
        l > 0 && (self.c.max_len == 0 || l <= self.c.max_len)
    }
    fn answer(&mut self, w: Option<usize>) {
        let Some(w) = w else { return };
        self.answers[w] = Some(match self.blocking[w] {
            None => Ans::SyncOk,
            Some(k) => {
                if self.resident.contains_key(&k) {
                    self.n.hits += 1;
                    self.hold_program(k);
                    Ans::Hit
                } else {
                    self.n.misses += 1;
                    self.told.push(w);
                    Ans::Miss(InterpretReason::JitFailed)
                }
            }
        });
    }
    /// A caller told that its compilation is over looks at the map some time later: by then a newer compilation of
    /// the same key may have finished.
    fn late(&mut self, seen: &[bool]) {
        for w in std::mem::take(&mut self.told) {
            let k = self.blocking[w].unwrap();
            if seen[w] && self.resident.contains_key(&k) {
                self.n.misses -= 1;
                self.n.hits += 1;
                self.hold_program(k);
                self.answers[w] = Some(Ans::Hit);
            }
        }
    }
    fn hold_program(&mut self, k: K) {
        if let Some(r) = self.resident.get(&k) {
            self.held.insert(r.id);
        }
    }
    fn insert(&mut self, k: K, aot: bool) {
        self.ids += 1;
        // JIT programs have even identities, AOT ones odd.
        let id = self.ids * 2 + aot as u64;
        self.resident.insert(k, Res { aot, hit: self.now, used: self.step, id });
    }
    fn admit(&mut self, k: K, aot: bool, waiter: Option<usize>, explicit: bool) {
        if self.resident.contains_key(&k) || !self.eligible(k) {
            return self.answer(waiter);
        }
        if !explicit && !self.entries.contains_key(&k) && self.entries.len() >= self.c.max_pending * 10 {
            return;
        }
        if aot && self.c.store && !self.faults.unreadable() && self.persisted.contains(&(k, self.c.level)) && !self.broken.contains(&(k, self.c.level)) {
            self.insert(k, true);
            return self.answer(waiter);
        }
        let now = self.now;
        let (workers, cap) = (self.c.workers, self.c.workers * self.c.queue);
        let pending = self.running.len() + self.queue.len();
        let e = self.entries.entry(k).or_default();
        e.seen = now;
        if e.working {
            e.waiters.extend(waiter);
            return;
        }
        if !explicit {
            e.hot += 1;
            if e.hot < self.c.threshold {
                return;
            }
        }
        if pending >= self.c.max_pending || workers == 0 || self.queue.len() >= cap {
            return self.answer(waiter);
        }
        e.working = true;
        self.n.dispatched += 1;
        self.queue.push_back(Job { k, aot, fresh: self.fresh, waiter });
    }
    fn finish(&mut self, j: Job) {
        self.finish_with(j, true)
    }
    /// Jobs that are in the helper process.
    fn outside(&mut self) -> Vec<Job> {
        if !self.c.oop {
            return vec![];
        }
        let (out, left) = std::mem::take(&mut self.running).into_iter().partition(|j| !j.aot);
        self.running = left;
        out
    }
    /// A job reaches a worker. False: it fails at once, there being no helper.
    fn begin(&mut self, j: &Job) -> bool {
        if !self.c.oop || j.aot {
            return true;
        }
        match self.helper {
            Helper::Alive => true,
            Helper::Dead => {
                self.helper = Helper::None;
                self.n.restarts += 1;
                false
            }
            Helper::None if self.no_spawn => {
                self.n.spawn_failures += 1;
                false
            }
            Helper::None => {
                self.helper = Helper::Alive;
                self.n.spawns += 1;
                self.n.acks += self.paused as u64;
                true
            }
        }
    }
    fn finish_with(&mut self, j: Job, reached: bool) {
        let ok = reached && !self.no_backend && !self.failing.contains(&((j.k >> 1) as u64));
        if ok {
            self.compiled.push((j.k >> 1) as u64);
        }
        if j.fresh != self.fresh {
            // Forgotten while it was in flight.
            return self.answer(j.waiter);
        }
        let waiters = self.entries.remove(&j.k).map(|e| e.waiters).unwrap_or_default();
        self.cb.push((j.k, j.aot, ok));
        let mut done = ok;
        if ok && j.aot {
            done = self.c.store && !self.faults.store;
            if done {
                self.persisted.insert((j.k, self.c.level));
                self.broken.remove(&(j.k, self.c.level));
                done = !self.faults.unreadable();
            }
        }
        done &= !(self.c.oop && !j.aot && self.no_link);
        if done {
            self.insert(j.k, j.aot);
            self.n.succeeded += 1;
        } else {
            self.n.failed += 1;
        }
        self.answer(j.waiter);
        for w in waiters {
            self.answer(Some(w));
        }
    }
    fn clear_res(&mut self) {
        // The helper is killed, and with it what it was doing.
        self.helper = Helper::None;
        for j in self.outside() {
            self.answer(j.waiter);
        }
        self.resident.clear();
        let e = std::mem::take(&mut self.entries);
        for w in e.into_values().flat_map(|e| e.waiters) {
            self.answer(Some(w));
        }
        self.events.clear();
        self.fresh += 1;
    }
    fn clear_pers(&mut self) {
        if self.c.store && !self.faults.clear {
            self.persisted.clear();
            self.broken.clear();
        }
    }
    /// Everything that can happen without a further call.
    fn quiesce(&mut self) {
        if !self.started {
            return;
        }
        let mut drained = self.drained;
        loop {
            while drained > 0 && let Some((k, hit)) = self.events.pop_front() {
                drained -= 1;
                if hit {
                    self.n.hits += 1;
                    let (now, step) = (self.now, self.step);
                    if let Some(r) = self.resident.get_mut(&k) {
                        r.hit = now;
                        r.used = step;
                    }
                } else {
                    self.n.misses += 1;
                    self.admit(k, self.c.aot, None, false);
                }
            }
            while self.running.len() < self.c.workers && !self.queue.is_empty() {
                let j = self.queue.pop_front().unwrap();
                if self.begin(&j) {
                    self.running.push(j);
                } else {
                    self.finish_with(j, false);
                }
            }
            if self.hold || self.running.is_empty() {
                break;
            }
            let stopped = self.c.oop && self.paused;
            let (now, later) = std::mem::take(&mut self.running).into_iter().partition::<Vec<_>, _>(|j| j.aot || !stopped);
            self.running = later;
            if now.is_empty() {
                break;
            }
            for j in now {
                self.finish(j);
            }
        }
    }
    fn live_jit(&self) -> usize {
        let mut s: BTreeSet<u64> = self.held.iter().copied().filter(|i| i & 1 == 0).collect();
        s.extend(self.resident.values().filter(|r| !r.aot).map(|r| r.id));
        s.len()
    }
    /// Eviction. `seen` is what is resident in the implementation, consulted only where the policy leaves a choice.
    fn sweep(&mut self, seen: &BTreeSet<K>) {
        if !self.started {
            return;
        }
        if let Some(idle) = self.c.idle {
            let idle = idle * MS;
            let slack = (self.c.sweep + 2 * TICK) * MS;
            for k in self.resident.keys().copied().collect::<Vec<_>>() {
                let r = &self.resident[&k];
                let sure = self.now.1.saturating_sub(slack).saturating_sub(r.hit.1) > idle;
                let can = self.now.1.saturating_sub(r.hit.0) + MS > idle;
                if sure || can && !seen.contains(&k) {
                    self.resident.remove(&k);
                    self.n.evictions += 1;
                }
            }
            for (k, e) in std::mem::take(&mut self.entries) {
                let sure = self.now.1.saturating_sub(slack).saturating_sub(e.seen.1) > idle;
                let can = self.now.1.saturating_sub(e.seen.0) + MS > idle;
                if !e.working && can && !sure {
                    self.unsure = true;
                }
                if e.working || !sure {
                    self.entries.insert(k, e);
                }
            }
        }
        if self.c.budget > 0 {
            while self.live_jit() > self.c.budget {
                let oldest = self.resident.values().filter(|r| !r.aot).map(|r| r.used).min();
                let Some(oldest) = oldest else { break };
                let tied: Vec<K> =
                    self.resident.iter().filter(|(_, r)| !r.aot && r.used == oldest).map(|(k, _)| *k).collect();
                let k = tied.iter().copied().find(|k| !seen.contains(k)).unwrap_or(tied[0]);
                self.resident.remove(&k);
                self.n.evictions += 1;
            }
        }
    }
    fn start(&mut self) -> bool {
        if self.started {
            return true;
        }
        if self.c.store && self.faults.load_all {
            return false;
        }
        self.started = true;
        if self.c.store {
            for (k, l) in self.persisted.clone() {
                if !self.broken.contains(&(k, l)) {
                    self.insert(k, true);
                }
            }
        }
        for (k, aot) in std::mem::take(&mut self.early) {
            self.admit(k, aot, None, true);
        }
        true
    }
    fn request(&mut self, k: K, aot: bool) {
        if self.start() {
            self.admit(k, aot, None, true);
        } else {
            self.early.push((k, aot));
        }
    }
    fn clear(&mut self, o: Op) {
        match o {
            ClearRes => self.clear_res(),
            ClearPers => self.clear_pers(),
            _ => {
                self.clear_res();
                self.clear_pers();
            }
        }
    }
    fn lookup(&mut self, k: K) -> Ans {
        if !self.enabled {
            return Ans::Miss(InterpretReason::Disabled);
        }
        if !self.eligible(k) {
            return Ans::Miss(InterpretReason::Ineligible);
        }
        let hit = self.resident.contains_key(&k);
        if self.events.len() < self.c.channel {
            self.events.push_back((k, hit));
        } else {
            self.n.dropped += 1;
        }
        if hit {
            self.hold_program(k);
            Ans::Hit
        } else {
            Ans::Miss(InterpretReason::NotReady)
        }
    }
    fn waiter(&mut self, blocking: Option<K>) -> usize {
        self.answers.push(None);
        self.blocking.push(blocking);
        self.answers.len() - 1
    }
    fn block_on(&mut self, k: K) {
        if !self.eligible(k) {
            let w = self.waiter(None);
            self.answers[w] = Some(Ans::Miss(InterpretReason::Ineligible));
        } else if self.resident.contains_key(&k) {
            let w = self.waiter(Some(k));
            self.answer(Some(w));
        } else {
            self.n.misses += 1;
            let w = self.waiter(Some(k));
            if self.start() {
                self.admit(k, self.c.aot, Some(w), true);
            } else {
                self.answers[w] = Some(Ans::Miss(InterpretReason::JitFailed));
            }
        }
    }
}

struct Waiter {
    op: Op,
    done: Arc<Mutex<Option<(Ans, Option<Arc<CompiledProgram>>)>>>,
    polled: bool,
}

struct Live {
    be: Option<JitBackend>,
    store: Option<Arc<Store>>,
    cb: Cb,
    held: Vec<(K, Arc<CompiledProgram>)>,
    waiters: Vec<Waiter>,
    /// Statistics of earlier backends do not carry over.
    depth: u64,
    level: u8,
}

fn ans(d: LookupDecision) -> (Ans, Option<Arc<CompiledProgram>>) {
    match d {
        LookupDecision::Compiled(p) => (Ans::Hit, Some(p)),
        LookupDecision::Interpret(r) => (Ans::Miss(r), None),
    }
}

fn nums(be: &JitBackend) -> Nums {
    let s = be.stats();
    Nums {
        hits: s.lookup_hits,
        misses: s.lookup_misses,
        dropped: s.events_dropped,
        cmd_dropped: s.commands_dropped,
        evictions: s.evictions,
        dispatched: s.compilations_dispatched,
        succeeded: s.compilations_succeeded,
        failed: s.compilations_failed,
        pending: s.pending_jobs,
        bytes: s.jit_code_bytes,
        resident: s.resident_entries,
        events: s.events_queued,
        commands: s.command_queue_len,
        spawns: s.jit_helper_spawns,
        spawn_failures: s.jit_helper_spawn_failures,
        timeouts: s.jit_helper_timeouts,
        pauses: s.jit_helper_pause_requests,
        resumes: s.jit_helper_resume_requests,
        acks: s.jit_helper_pause_acknowledgements,
        restarts: s.jit_helper_restarts,
    }
}

pub static OUTCOME: Mutex<(u64, u64, bool)> = Mutex::new((0, 0, false));

/// Runs one history inside an execution. Reports the first difference with the model.
pub fn history(c: &Cfg, ops: &[Op], keys: &[K], no_backend: bool) -> Result<(), String> {
    let store = c.store.then(Store::new);
    let cb: Cb = Default::default();
    let mut l = Live { be: None, store, cb, held: vec![], waiters: vec![], depth: 0, level: c.level };
    let mut m = Model {
        c: c.clone(),
        started: false,
        enabled: c.enabled || c.blocking,
        depth: 0,
        resident: Default::default(),
        entries: Default::default(),
        running: vec![],
        queue: Default::default(),
        fresh: 0,
        n: Default::default(),
        persisted: Default::default(),
        broken: Default::default(),
        faults: Default::default(),
        cb: vec![],
        compiled: vec![],
        failing: Default::default(),
        hold: false,
        events: Default::default(),
        answers: vec![],
        blocking: vec![],
        held: Default::default(),
        ids: 0,
        now: (mc::now(), mc::now()),
        step: 0,
        unsure: false,
        no_backend,
        drained: usize::MAX,
        told: vec![],
        early: vec![],
        helper: Helper::None,
        paused: false,
        slept: false,
        no_spawn: false,
        no_link: false,
    };
    if c.blocking {
        m.c.threshold = 0;
    }
    l.be = Some(JitBackend::new(c.build(l.store.clone(), l.cb.clone())).map_err(|e| format!("start: {e}"))?);
    if m.enabled {
        m.start();
    }
    mc::settle(c.settle);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut steps = 0;
    compare(&mut l, &mut m, keys).map_err(|e| format!("after start: {e}"))?;
    for (i, &op) in ops.iter().enumerate() {
        m.step += 1;
        steps += 1;
        m.now = (mc::now(), mc::now() + (c.settle as u64 + 1) * TICK * MS);
        step(&mut l, &mut m, op).map_err(|e| format!("step {i} {op:?}: {e}"))?;
        mc::settle(c.settle);
        m.now.1 = mc::now();
        if c.drain < 16 {
            // How often the backend wakes up is not specified; that events are drained in order is.
            let left = l.be.as_ref().unwrap().stats().events_queued as usize;
            let n = m.events.len();
            if m.started && left > n.saturating_sub(c.settle as usize * c.drain) {
                return Err(format!("after step {i} {op:?}: {left} of {n} events are left"));
            }
            m.drained = n.saturating_sub(left);
        }
        m.quiesce();
        compare(&mut l, &mut m, keys).map_err(|e| format!("after step {i} {op:?}: {e}"))?;
        if m.unsure {
            break;
        }
        m.n.hash(&mut h);
        m.resident.keys().for_each(|k| k.hash(&mut h));
        format!("{:?}", m.answers).hash(&mut h);
    }
    // The end: everything in flight finishes, handles go, programs still held work to the last.
    fakellvm::set_hold(false);
    m.hold = false;
    if c.oop && l.waiters.iter().any(|w| w.done.lock().unwrap().is_none()) {
        // Only then: the backend must also end well while paused.
        for _ in 0..m.depth {
            l.be.as_ref().unwrap().resume();
        }
    }
    mc::settle(c.settle);
    if let Some(w) = l.waiters.iter().find(|w| w.done.lock().unwrap().is_none()) {
        return Err(format!("at the end: {:?} is never answered", w.op));
    }
    for w in &mut l.waiters {
        w.done.lock().unwrap().as_mut().unwrap().1.take();
    }
    mc::point("drop backend", &[mc::Acc(HANDLE_OBJ, mc::W)]);
    l.be = None;
    for (k, p) in &l.held {
        run(*k, p).map_err(|e| format!("after shutdown: {e}"))?;
    }
    l.held.clear();
    let left = fakellvm::world(|w| (w.live_bytes(), w.libs));
    if left != (0, 0) {
        return Err(format!("after the end: {} bytes of code and {} libraries are still there", left.0, left.1));
    }
    let z = mc::zombies();
    if !z.is_empty() {
        return Err(format!("after the end: {} helpers ended without being waited for", z.len()));
    }
    let _ = l.depth;
    if std::env::var_os("RTX_SHOW").is_some() {
        return Err("end".into());
    }
    *OUTCOME.lock().unwrap() = (h.finish(), steps, m.unsure);
    Ok(())
}
pub const HANDLE_OBJ: u64 = (1 << 50) + 9;

fn in_thread(l: &mut Live, op: Op, f: impl FnOnce(&JitBackend) -> (Ans, Option<Arc<CompiledProgram>>) + Send + 'static) {
    let done = Arc::new(Mutex::new(None));
    let d = done.clone();
    let be = l.be.clone().unwrap();
    mc::spawn("caller", move || {
        let r = f(&be);
        mc::point("drop handle", &[mc::Acc(HANDLE_OBJ, mc::W)]);
        drop(be);
        *d.lock().unwrap() = Some(r);
    });
    l.waiters.push(Waiter { op, done, polled: false });
}

fn expect(what: &str, got: Ans, want: Ans) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} gives {got:?}, expected {want:?}")) }
}

fn step(l: &mut Live, m: &mut Model, op: Op) -> Result<(), String> {
    let be = l.be.clone().unwrap();
    let one = |l: &mut Live, m: &mut Model, k: K| -> Result<(), String> {
        if m.c.blocking && m.enabled {
            m.block_on(k);
            in_thread(l, Blocking(k), move |b| ans(b.lookup(req(k))));
            return Ok(());
        }
        let want = m.lookup(k);
        mc::wait_free(Some("lookup"));
        let (got, p) = ans(be.lookup(req(k)));
        mc::wait_free(None);
        if let Some(p) = p {
            run(k, &p)?;
            l.held.push((k, p));
        }
        expect("lookup", got, want)
    };
    match op {
        Lookup(k) => one(l, m, k)?,
        Burst(k, n) => {
            for _ in 0..n {
                one(l, m, k)?;
            }
        }
        Crowd(n) => {
            for i in 0..n {
                one(l, m, 20 + i)?;
            }
        }
        Blocking(k) => {
            m.block_on(k);
            in_thread(l, op, move |b| ans(b.lookup_blocking(req(k))));
        }
        Compile(k) => {
            let a = m.c.aot;
            m.request(k, a);
            be.compile_jit(req(k));
        }
        Sync(k) => {
            let w = m.waiter(None);
            if m.start() {
                m.admit(k, m.c.aot, Some(w), true);
            } else {
                m.answers[w] = Some(Ans::Miss(InterpretReason::JitFailed));
            }
            in_thread(l, op, move |b| match b.compile_jit_sync(req(k)) {
                Ok(()) => (Ans::SyncOk, None),
                Err(_) => (Ans::Miss(InterpretReason::JitFailed), None),
            });
        }
        Aot(k) => {
            m.request(k, true);
            be.prepare_aot(AotRequest { code_hash: hash(k), code: code(k), spec_id: spec(k) });
        }
        AotBatch(a, b) => {
            m.request(a, true);
            m.request(b, true);
            be.prepare_aot_batch(
                [a, b].map(|k| AotRequest { code_hash: hash(k), code: code(k), spec_id: spec(k) }).to_vec(),
            );
        }
        Tracked(k) => {
            let want = m.resident.contains_key(&k);
            if want {
                m.n.hits += 1;
                m.hold_program(k);
            } else {
                m.n.misses += 1;
            }
            let got = be.get_compiled_tracked(hash(k), spec(k));
            if got.is_some() != want {
                return Err(format!("get_compiled_tracked finds a program: {}, expected {want}", got.is_some()));
            }
            if let Some(p) = got {
                run(k, &p)?;
                l.held.push((k, p));
            }
        }
        ClearRes | ClearPers | ClearAll => {
            if m.started {
                m.clear(op);
            } else if op != ClearRes {
                // Nothing is resident yet; the store is emptied right away.
                m.clear_pers();
            }
            match op {
                ClearRes => be.clear_resident(),
                ClearPers => be.clear_persisted(),
                _ => be.clear_all(),
            }
        }
        Enable(e) => {
            let ok = !e || m.start();
            let r = be.set_enabled(e);
            if r.is_ok() != ok {
                return Err(format!("set_enabled gives {r:?}"));
            }
            if ok {
                m.enabled = e;
                if be.enabled() != e {
                    return Err(format!("enabled() is {} after set_enabled({e})", be.enabled()));
                }
            } else {
                m.enabled = be.enabled();
            }
        }
        Pause | Resume => {
            mc::wait_free(Some(if op == Pause { "pause" } else { "resume" }));
            let before = m.depth;
            if op == Pause {
                m.depth += 1;
                be.pause();
            } else {
                m.depth = m.depth.saturating_sub(1);
                be.resume();
            }
            if m.c.oop && m.started && before == 0 && m.depth == 1 {
                m.paused = true;
                m.slept = false;
                m.n.pauses += 1;
                m.n.acks += (m.helper == Helper::Alive) as u64;
            }
            if m.c.oop && m.started && before == 1 && m.depth == 0 {
                m.paused = false;
                m.n.resumes += 1;
                // The time a job may take is counted from its beginning or from the last such period.
                m.unsure |= m.slept && m.hold && !m.running.is_empty();
            }
            mc::wait_free(None);
            if be.is_paused() != (m.depth > 0) {
                return Err(format!("is_paused() is {} at pause depth {}", be.is_paused(), m.depth));
            }
        }
        Hold | Release => {
            m.hold = op == Hold;
            fakellvm::set_hold(m.hold);
        }
        One => {
            if m.hold && !m.running.is_empty() {
                let j = m.running.remove(0);
                m.finish(j);
                fakellvm::permit();
            }
        }
        Fail(k, f) => {
            let c = (k >> 1) as u64;
            if f {
                m.failing.insert(c);
            } else {
                m.failing.remove(&c);
            }
            world(|w| {
                w.failing.retain(|x| *x != c);
                if f {
                    w.failing.push(c);
                }
            });
        }
        Crash => {
            crash();
            let out = m.outside();
            m.n.restarts += !out.is_empty() as u64;
            for j in out {
                m.finish_with(j, false);
                m.helper = Helper::None;
            }
            if m.helper == Helper::Alive {
                m.helper = Helper::Dead;
            }
        }
        NoLink(f) => {
            m.no_link = f;
            world(|w| w.no_link = f);
        }
        NoSpawn(f) => {
            m.no_spawn = f;
            mcstd::process::fail_spawns(f);
        }
        Sleep(ms) => {
            m.slept |= m.paused;
            if m.c.oop && ms >= m.c.timeout && !m.paused {
                let out = m.outside();
                m.n.restarts += !out.is_empty() as u64;
                for j in out {
                    m.finish_with(j, false);
                    m.n.timeouts += 1;
                    m.helper = Helper::None;
                }
            }
            mc::sleep(ms * MS)
        }
        Level(x) => l.level = x,
        DropHeld => {
            m.held.clear();
            l.held.clear();
            for w in &mut l.waiters {
                if let Some(x) = w.done.lock().unwrap().as_mut() {
                    x.1.take();
                }
            }
            mc::point("drop programs", &[mc::Acc(fakellvm::CODE_OBJ, mc::W)]);
        }
        Restart => {
            if m.hold && !m.c.oop || l.waiters.iter().any(|w| w.done.lock().unwrap().is_none()) {
                return Ok(());
            }
            drop(be);
            mc::point("drop backend", &[mc::Acc(HANDLE_OBJ, mc::W)]);
            l.be = None;
            for (k, p) in &l.held {
                run(*k, p)?;
            }
            m.c.level = l.level;
            let r = JitBackend::new(m.c.build(l.store.clone(), l.cb.clone()));
            m.started = false;
            m.enabled = m.c.enabled || m.c.blocking;
            m.depth = 0;
            m.resident.clear();
            m.entries.clear();
            m.events.clear();
            m.early.clear();
            m.running.clear();
            m.queue.clear();
            m.helper = Helper::None;
            m.paused = false;
            if m.c.oop {
                // What was queued may or may not have been compiled before the end.
                m.compiled = world(|w| w.compiled.clone());
            }
            m.n = Nums::default();
            let ok = !m.enabled || m.start();
            if r.is_ok() != ok {
                return Err(format!("starting gives {:?}", r.err()));
            }
            match r {
                Ok(b) => l.be = Some(b),
                Err(_) => {
                    // The store cannot be read: start without it failing.
                    m.faults = Faults::default();
                    *l.store.as_ref().unwrap().faults.lock().unwrap() = m.faults;
                    l.be = Some(JitBackend::new(m.c.build(l.store.clone(), l.cb.clone())).map_err(|e| e.to_string())?);
                    m.start();
                }
            }
            return Ok(());
        }
        Fault(f) => {
            m.faults = f;
            *l.store.as_ref().unwrap().faults.lock().unwrap() = f;
        }
        Foreign(k) => {
            foreign(l.store.as_ref().unwrap(), k, m.c.level)?;
            m.persisted.insert((k, m.c.level));
            m.broken.remove(&(k, m.c.level));
        }
        Corrupt(k) => {
            let s = l.store.as_ref().unwrap();
            for (a, st) in s.inner.load_all().unwrap() {
                if a.runtime == rkey(k) {
                    std::fs::write(&st.dylib_path, b"damaged").unwrap();
                    m.broken.insert((k, LEVELS.iter().position(|l| *l == a.opt_level).unwrap_or(9) as u8));
                }
            }
        }
    }
    drop(be);
    Ok(())
}

fn compare(l: &mut Live, m: &mut Model, keys: &[K]) -> Result<(), String> {
    let be = l.be.clone().unwrap();
    // What is resident.
    let mut seen = BTreeSet::new();
    let mut all: BTreeSet<K> = keys.iter().copied().collect();
    all.extend(m.resident.keys());
    let mut kinds = BTreeMap::new();
    for &k in &all {
        if let Some(p) = be.get_compiled(hash(k), spec(k)) {
            run(k, &p)?;
            seen.insert(k);
            kinds.insert(k, p.kind == ProgramKind::Aot);
        }
    }
    let hits: Vec<bool> = l.waiters.iter().map(|w| matches!(&*w.done.lock().unwrap(), Some((Ans::Hit, _)))).collect();
    m.late(&hits);
    m.sweep(&seen);
    let want: BTreeSet<K> = m.resident.keys().copied().collect();
    if seen != want {
        return Err(format!("resident keys are {seen:?}, expected {want:?}"));
    }
    for (k, r) in &m.resident {
        if kinds[k] != r.aot {
            return Err(format!("key {k} is served by an {} program", if kinds[k] { "AOT" } else { "JIT" }));
        }
    }
    // Callers waiting.
    for (i, w) in l.waiters.iter_mut().enumerate() {
        let d = w.done.lock().unwrap();
        let got = d.as_ref().map(|x| x.0.clone());
        if got != m.answers[i] {
            return Err(format!("{:?} (caller {i}) has got {got:?}, expected {:?}", w.op, m.answers[i]));
        }
        if let (Some((_, p)), false) = (&*d, w.polled) {
            w.polled = true;
            if let (Some(p), Blocking(k)) = (p, w.op) {
                run(k, p)?;
            }
        }
    }
    // Numbers.
    m.n.pending = (m.running.iter().chain(&m.queue)).count() as u64;
    m.n.bytes = (m.live_jit() * fakellvm::FN_BYTES) as u64;
    m.n.resident = m.resident.len() as u64;
    m.n.events = m.events.len() as u64;
    m.n.commands = m.early.len() as u64;
    let got = nums(&be);
    if got != m.n {
        return Err(format!("statistics are {got:?}, expected {:?}", m.n));
    }
    // Callbacks and compilations.
    let cb: Vec<_> = l.cb.lock().unwrap().iter().map(|(k, c, s)| (key_of(k), *c == CompilationKind::Aot, *s)).collect();
    let want: Vec<_> = m.cb.iter().map(|(k, a, s)| (Some(*k), *a, *s)).collect();
    let (mut a, mut b) = (cb.clone(), want.clone());
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("compilation events (key, aot, success) are {cb:?}, expected {want:?}"));
    }
    let mut a = world(|w| w.compiled.clone());
    let mut b = m.compiled.clone();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("codes compiled: {a:?}, expected {b:?}"));
    }
    if let Some(s) = &l.store
        && s.inner.len() != m.persisted.len()
    {
        return Err(format!("{} artifacts are stored, expected {}", s.inner.len(), m.persisted.len()));
    }
    if let Some(s) = &l.store
        && !m.persisted.is_empty()
    {
        for (a, st) in s.inner.load_all().unwrap() {
            let k = key_of(&a.runtime).ok_or_else(|| format!("an artifact of an unknown contract is stored: {a:?}"))?;
            let lv = LEVELS.iter().position(|l| *l == a.opt_level).unwrap_or(9) as u8;
            if !m.persisted.contains(&(k, lv)) {
                return Err(format!("an artifact of key {k} at level {lv} is stored, expected {:?}", m.persisted));
            }
            let mf = &st.manifest;
            if mf.artifact_key != a || mf.bytecode_len != code(k).len() {
                return Err(format!("the artifact of {a:?} says it is {mf:?}"));
            }
            if m.broken.contains(&(k, lv)) {
                continue;
            }
            let b = std::fs::read(&st.dylib_path).map_err(|e| format!("artifact of key {k}: {e}"))?;
            if mf.artifact_len != b.len() || mf.content_hash != alloy_primitives::keccak256(&b).0 {
                return Err(format!("the stored artifact of key {k} does not match its manifest"));
            }
        }
    }
    for (k, p) in &l.held {
        run(*k, p)?;
    }
    drop(be);
    Ok(())
}
