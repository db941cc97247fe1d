//! Controlled scheduler and stateless explorer for real multi-threaded Rust code.
//!
//! Model threads are OS threads of which exactly one runs at a time. Every operation on a shared object is a
//! scheduling point: the thread publishes the objects it is about to access and a predicate saying which alternatives
//! of the operation are possible, then the scheduler decides who moves. Executions are enumerated depth first with
//! source-set dynamic partial-order reduction and sleep sets; every alternative of a multi-way operation (select arms,
//! timeouts) is a branch of its own. Time is virtual: it moves when nothing else can, plus a bounded number of
//! early timeouts per thread.

use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, MutexGuard};

pub type Tid = usize;
pub const TIMEOUT: u32 = 31;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Commutes with other reads.
    R,
    /// Adds to a counter without looking at it: commutes with other additions.
    Inc,
    /// Conflicts with everything.
    W,
    /// Take a lock (or join): conflicts, but never reordered before the release that enables it.
    Acq,
    /// Release a lock (or exit).
    Rel,
    /// Run as part of a process that can be stopped (`Acq`), continued (`Rel`) or killed (`W`).
    Use,
}
pub use Mode::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Acc(pub u64, pub Mode);

fn commute(x: Mode, y: Mode) -> bool {
    x == y && matches!(x, R | Inc | Use)
}
fn dependent(a: &[Acc], b: &[Acc]) -> bool {
    a.iter().any(|x| b.iter().any(|y| x.0 == y.0 && !commute(x.1, y.1)))
}
/// `e` before `o`: is the other order possible at all?
fn reversible(e: &[Acc], o: &[Acc]) -> bool {
    e.iter().any(|x| {
        o.iter().any(|y| {
            x.0 == y.0
                && !commute(x.1, y.1)
                && !(x.1 == Rel && y.1 == Acq)
                && !(x.1 == Acq && y.1 == Rel)
                && !(x.1 == Rel && y.1 == Rel)
                && !(x.1 == Rel && y.1 == Use)
                && !(x.1 == Use && y.1 == Rel)
        })
    })
}

/// What a thread is about to do.
pub struct Op<'a> {
    pub label: &'static str,
    pub accs: Vec<Acc>,
    /// Bit i set: alternative i is possible now. 0: blocked.
    pub enabled: &'a (dyn Fn() -> u32 + 'a),
    /// Virtual time at which the operation gives up with alternative [`TIMEOUT`].
    pub deadline: Option<u64>,
    /// Barrier: proceeds only when nothing else can, after this many quiet timeouts.
    pub settle: Option<u32>,
}

struct Pend {
    label: &'static str,
    accs: Vec<Acc>,
    enabled: *const dyn Fn() -> u32,
    deadline: Option<u64>,
    settle: Option<u32>,
}
unsafe impl Send for Pend {}

enum St {
    Running,
    Pending(Pend),
    Finished,
}

struct Th {
    st: St,
    clock: Vec<u32>,
    early: u32,
    name: String,
    baton: Arc<Baton>,
    /// Name of the call under way that must not block.
    wait_free: Option<&'static str>,
    /// The process this thread belongs to; 0 is the program under exploration itself.
    proc: usize,
}

/// A simulated child process: a group of model threads that is stopped, continued and killed together.
struct Proc {
    obj: u64,
    /// Identity of its exit status.
    end: u64,
    stopped: bool,
    /// A signal that waits until the process is continued.
    pending: Option<i32>,
    /// How it ended.
    status: Option<i32>,
    /// When it ended; only from the next instant on does a question that does not wait find it gone.
    ended: u64,
    /// Its parent has been told.
    reaped: bool,
    group: bool,
}

const KILL: u32 = u32::MAX;
/// Payload that unwinds the threads of a killed process.
struct Killed;

struct Baton {
    go: Mutex<Option<u32>>,
    cv: std::sync::Condvar,
    gone: Mutex<bool>,
}

struct Event {
    tid: Tid,
    label: &'static str,
    alt: u32,
    accs: Vec<Acc>,
    clock: Vec<u32>,
    node: usize,
}

#[derive(Clone)]
struct Node {
    enabled: Vec<(Tid, u32)>,
    backtrack: u64,
    done: u64,
    sleep: u64,
    chosen: Tid,
    alts_left: u32,
    alt: u32,
    forced: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub redundant: u64,
    pub transitions: u64,
    pub max_depth: u64,
    pub branch_points: u64,
    pub capped: bool,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub message: String,
    pub trace: Vec<String>,
    /// (thread, alternative) per scheduling decision: replays this execution.
    pub schedule: Vec<(Tid, u32)>,
}

struct Exec {
    threads: Vec<Th>,
    path: Vec<Node>,
    depth: usize,
    trace: Vec<Event>,
    time: u64,
    next_obj: u64,
    free_run: bool,
    quiet: u32,
    explore: bool,
    naive: bool,
    early: HashMap<String, u32>,
    fail: Option<Failure>,
    live: usize,
    transitions: u64,
    script: Option<Vec<(Tid, u32)>>,
    notes: Vec<String>,
    max_steps: usize,
    default_alt_first: bool,
    /// No branching here: the schedule of this part is fixed.
    frozen: bool,
    procs: Vec<Proc>,
}

static EXEC: Mutex<Option<Exec>> = Mutex::new(None);
static DONE: (Mutex<bool>, std::sync::Condvar) = (Mutex::new(false), std::sync::Condvar::new());
static NEXT_OUTSIDE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1 << 40);

thread_local! {
    static ME: Cell<Option<Tid>> = const { Cell::new(None) };
    static DEAD: Cell<bool> = const { Cell::new(false) };
}

fn lock() -> MutexGuard<'static, Option<Exec>> {
    EXEC.lock().unwrap_or_else(|e| e.into_inner())
}

/// Is the calling thread under the scheduler's control?
pub fn controlled() -> bool {
    ME.try_with(|m| m.get()).ok().flatten().is_some()
}
pub fn me() -> Option<Tid> {
    ME.try_with(|m| m.get()).ok().flatten()
}

/// A fresh identity for a shared object.
pub fn new_obj() -> u64 {
    if controlled() {
        let mut g = lock();
        let e = g.as_mut().unwrap();
        e.next_obj += 1;
        e.next_obj
    } else {
        NEXT_OUTSIDE.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
    }
}

pub fn now() -> u64 {
    lock().as_ref().map_or(0, |e| e.time)
}

/// Adds a line to the trace of the current execution.
pub fn note(s: impl Into<String>) {
    if let Some(e) = lock().as_mut() {
        let at = e.trace.len();
        let t = me().map_or("-".into(), |t| e.threads[t].name.clone());
        e.notes.push(format!("{at:>4} {t}: {}", s.into()));
    }
}

pub fn point(label: &'static str, accs: &[Acc]) {
    op(Op { label, accs: accs.to_vec(), enabled: &|| 1, deadline: None, settle: None });
}
pub fn block(label: &'static str, accs: &[Acc], enabled: &dyn Fn() -> bool) {
    op(Op { label, accs: accs.to_vec(), enabled: &|| enabled() as u32, deadline: None, settle: None });
}
/// Waits until every other thread is blocked and stays so through `n` timeouts.
pub fn settle(n: u32) {
    op(Op { label: "settle", accs: vec![], enabled: &|| 0, deadline: None, settle: Some(n) });
}
/// While set, the calling thread must never have to wait.
pub fn wait_free(w: Option<&'static str>) {
    if let (Some(t), Some(e)) = (me(), lock().as_mut()) {
        e.threads[t].wait_free = w;
    }
}
/// While set, one deterministic schedule is followed (set-up and tear-down of a scenario).
pub fn freeze(f: bool) {
    if let Some(e) = lock().as_mut() {
        e.frozen = f;
    }
}
/// Sleeps in virtual time.
pub fn sleep(ns: u64) {
    let d = now() + ns;
    op(Op { label: "sleep", accs: vec![], enabled: &|| 0, deadline: Some(d), settle: None });
}

/// Publishes `o`, lets the scheduler decide who moves, and returns the alternative to perform.
pub fn op(o: Op<'_>) -> u32 {
    if DEAD.with(|d| d.get()) && !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(Killed));
    }
    let Some(me) = me() else {
        // Outside the explored world (set-up, tear-down): the operation must be possible right away.
        let m = (o.enabled)();
        return if m == 0 { TIMEOUT } else { m.trailing_zeros() };
    };
    let baton;
    {
        let mut g = lock();
        let e = g.as_mut().unwrap();
        let enabled: *const (dyn Fn() -> u32 + '_) = o.enabled;
        let enabled: *const (dyn Fn() -> u32 + 'static) = unsafe { std::mem::transmute(enabled) };
        let mut accs = o.accs;
        let p = e.threads[me].proc;
        if p != 0 {
            accs.push(Acc(e.procs[p].obj, Use));
        }
        e.threads[me].st =
            St::Pending(Pend { label: o.label, accs, enabled, deadline: o.deadline, settle: o.settle });
        baton = e.threads[me].baton.clone();
        schedule(e, Some(me));
    }
    let a = wait(&baton);
    if a == KILL {
        ME.with(|m| m.set(None));
        DEAD.with(|d| d.set(true));
        std::panic::resume_unwind(Box::new(Killed));
    }
    a
}

/// Does the calling thread belong to a process that is no more (and is being unwound)?
pub fn killed() -> bool {
    DEAD.try_with(|d| d.get()).unwrap_or(false)
}
/// The process of the calling thread.
pub fn process() -> usize {
    match (me(), lock().as_ref()) {
        (Some(t), Some(e)) => e.threads[t].proc,
        _ => 0,
    }
}
/// Starts a process: `f` is its main thread and gives the exit status; when it returns, its other threads end too.
pub fn spawn_process(name: &str, group: bool, f: impl FnOnce() -> i32 + Send + 'static) -> usize {
    point("start process", &[Acc(PROCESSES, W)]);
    let (obj, end) = (new_obj(), new_obj());
    let pid = {
        let mut g = lock();
        let e = g.as_mut().expect("mc::spawn_process outside an execution");
        e.procs.push(Proc { obj, end, stopped: false, pending: None, status: None, ended: 0, reaped: false, group });
        e.procs.len() - 1
    };
    spawn_in(name, Some(pid), move || {
        let code = f();
        exit_process(code);
    });
    pid
}
/// Ends the calling process.
pub fn exit_process(code: i32) -> ! {
    let pid = process();
    assert!(pid != 0, "the program under test exits");
    end(pid, code << 8, "exit process", true);
    ME.with(|m| m.set(None));
    DEAD.with(|d| d.set(true));
    std::panic::resume_unwind(Box::new(Killed));
}
/// Identity of the set of processes.
pub const PROCESSES: u64 = (1 << 50) + 31;
/// Processes started so far (the program itself included).
pub fn processes() -> usize {
    lock().as_ref().map_or(1, |e| e.procs.len())
}
/// Raw wait status of a process that has ended and can be waited for without delay.
pub fn status(pid: usize) -> Option<i32> {
    point("process status", &[Acc(end_obj(pid), W)]);
    let mut g = lock();
    let e = g.as_mut()?;
    let now = e.time;
    let p = &mut e.procs[pid];
    if p.status.is_some() && now > p.ended {
        p.reaped = true;
    }
    if p.reaped { p.status } else { None }
}
/// Processes that have ended and whose parent never asked.
pub fn zombies() -> Vec<usize> {
    lock().as_ref().map_or(vec![], |e| {
        (0..e.procs.len()).filter(|p| e.procs[*p].status.is_some() && !e.procs[*p].reaped).collect()
    })
}
/// The same, for monitors.
pub fn status_now(pid: usize) -> Option<i32> {
    lock().as_ref().and_then(|e| e.procs[pid].status)
}
/// Is process `pid` the leader of a group of its own?
pub fn leads_group(pid: usize) -> bool {
    lock().as_ref().is_some_and(|e| e.procs[pid].group)
}
fn process_obj(pid: usize) -> u64 {
    lock().as_ref().map_or(0, |e| e.procs[pid].obj)
}
fn end_obj(pid: usize) -> u64 {
    lock().as_ref().map_or(0, |e| e.procs[pid].end)
}
/// Waits for a process to end; false: timed out.
pub fn wait_process(pid: usize, timeout: Option<u64>) -> bool {
    let obj = end_obj(pid);
    let deadline = timeout.map(|t| now() + t);
    let a = op(Op {
        label: "wait process",
        accs: vec![Acc(obj, R)],
        enabled: &|| STATUS.lock().unwrap().contains(&pid) as u32,
        deadline,
        settle: None,
    });
    if let (true, Some(e)) = (a != TIMEOUT, lock().as_mut()) {
        e.procs[pid].reaped = true;
    }
    a != TIMEOUT
}
static STATUS: Mutex<Vec<usize>> = Mutex::new(Vec::new());

/// Stops or continues a process; false: there is no such process.
pub fn stop_process(pid: usize, stop: bool) -> bool {
    let obj = process_obj(pid);
    point(if stop { "SIGSTOP" } else { "SIGCONT" }, &[Acc(obj, if stop { Acq } else { Rel })]);
    let mut g = lock();
    let e = g.as_mut().unwrap();
    if e.procs[pid].status.is_some() {
        return false;
    }
    e.procs[pid].stopped = stop;
    let late = if stop { None } else { e.procs[pid].pending.take() };
    drop(g);
    if let Some(s) = late {
        end(pid, s, "late signal", false);
    }
    true
}
/// Kills a process with a signal; false: it has ended already.
pub fn kill_process(pid: usize, signal: i32) -> bool {
    // Only SIGKILL and faults end a stopped process.
    if !matches!(signal, 9 | 11) {
        let obj = process_obj(pid);
        point("signal", &[Acc(obj, W)]);
        let mut g = lock();
        let p = &mut g.as_mut().unwrap().procs[pid];
        if p.status.is_some() {
            return false;
        }
        if p.stopped {
            p.pending = Some(signal);
            return true;
        }
    }
    end(pid, signal, "SIGKILL", false)
}

fn end(pid: usize, status: i32, label: &'static str, own: bool) -> bool {
    let obj = process_obj(pid);
    point(label, &[Acc(obj, W), Acc(end_obj(pid), W)]);
    let batons: Vec<Arc<Baton>> = {
        let mut g = lock();
        let e = g.as_mut().unwrap();
        if e.procs[pid].status.is_some() {
            return false;
        }
        e.procs[pid].status = Some(status);
        e.procs[pid].ended = e.time;
        STATUS.lock().unwrap().push(pid);
        let mine = me();
        let mut out = vec![];
        for t in 0..e.threads.len() {
            if e.threads[t].proc == pid && !matches!(e.threads[t].st, St::Finished) {
                FIN.lock().unwrap()[t] = true;
                if Some(t) != mine {
                    e.threads[t].st = St::Finished;
                    e.live -= 1;
                    out.push(e.threads[t].baton.clone());
                }
            }
        }
        out
    };
    for b in batons {
        hand(&b, KILL);
        // Its memory goes before anything else happens.
        while !*b.gone.lock().unwrap() {
            std::thread::yield_now();
        }
    }
    let _ = own;
    ON_END.lock().unwrap().iter().for_each(|f| f(pid));
    true
}
/// Called when a process has ended.
pub fn on_process_end(f: fn(usize)) {
    let mut v = ON_END.lock().unwrap();
    if v.is_empty() {
        v.push(f);
    }
}
static ON_END: Mutex<Vec<fn(usize)>> = Mutex::new(Vec::new());

fn wait(b: &Baton) -> u32 {
    let mut g = b.go.lock().unwrap();
    loop {
        if let Some(a) = g.take() {
            return a;
        }
        g = b.cv.wait(g).unwrap();
    }
}

fn hand(b: &Baton, alt: u32) {
    *b.go.lock().unwrap() = Some(alt);
    b.cv.notify_one();
}

fn finish_exec() {
    *DONE.0.lock().unwrap() = true;
    DONE.1.notify_all();
}

fn describe(e: &Exec) -> Vec<String> {
    let mut out = vec![];
    let mut n = e.notes.iter().peekable();
    for (i, ev) in e.trace.iter().enumerate() {
        while n.peek().is_some_and(|s| s[..4].trim().parse::<usize>().unwrap_or(0) <= i) {
            out.push(format!("      | {}", &n.next().unwrap()[5..]));
        }
        let alt = if ev.alt == TIMEOUT { " [timeout]".to_string() } else if ev.alt > 0 { format!(" [{}]", ev.alt) } else { String::new() };
        let objs: Vec<String> = ev.accs.iter().map(|a| format!("{:?}{}", a.1, a.0)).collect();
        out.push(format!("{i:>4} {}: {}{alt} ({})", e.threads[ev.tid].name, ev.label, objs.join(",")));
    }
    for s in n {
        out.push(format!("      | {}", &s[5..]));
    }
    out
}

/// Records a violation found by the code under test or a monitor. The rest of the execution is irrelevant.
pub fn fail(msg: impl Into<String>) {
    let mut g = lock();
    if let Some(e) = g.as_mut() {
        record(e, msg.into());
    }
}

fn record(e: &mut Exec, message: String) {
    if e.fail.is_none() {
        let schedule = e.trace.iter().map(|t| (t.tid, t.alt)).collect();
        let mut trace = describe(e);
        for (i, t) in e.threads.iter().enumerate() {
            let s = match &t.st {
                St::Running => "running".into(),
                St::Finished => "finished".into(),
                St::Pending(p) => format!("at {}", p.label),
            };
            trace.push(format!("     thread {i} {}: {s}", t.name));
        }
        e.fail = Some(Failure { message, trace, schedule });
    }
}

fn stopped(e: &Exec, t: Tid) -> bool {
    e.procs[e.threads[t].proc].stopped
}
fn mask_of(e: &Exec, t: Tid) -> u32 {
    let St::Pending(p) = &e.threads[t].st else { return 0 };
    if stopped(e, t) {
        return 0;
    }
    if p.settle.is_some() {
        return 0;
    }
    // The owner of the predicate is blocked in `op`, so what it borrows is alive.
    unsafe { (*p.enabled)() }
}

/// Picks the next thread and hands it the baton. Called with the lock held by the thread that just stopped.
fn schedule(e: &mut Exec, cur: Option<Tid>) {
    if e.fail.is_some() {
        // The verdict is in: stop the world here (threads stay blocked; the process reports and exits).
        finish_exec();
        return;
    }
    if e.transitions as usize > e.max_steps {
        record(e, format!("no end after {} steps", e.max_steps));
        finish_exec();
        return;
    }
    let n = e.threads.len();
    let mut en: Vec<(Tid, u32)> = vec![];
    for t in 0..n {
        let St::Pending(p) = &e.threads[t].st else { continue };
        let m = mask_of(e, t);
        if m != 0 {
            en.push((t, m));
        } else {
            if let Some(w) = e.threads[t].wait_free {
                let l = p.label;
                record(e, format!("{w} blocks (at {l})"));
                finish_exec();
                return;
            }
            if p.deadline.is_some() && e.threads[t].early > 0 && !e.frozen && !stopped(e, t) {
                en.push((t, 1 << TIMEOUT));
            }
        }
    }
    // Nothing can move and no budget is left: timeouts fire in their turn, after everything so far.
    let mut forced = false;
    if en.is_empty() {
        forced = true;
        let timed = (0..n)
            .filter_map(|t| match &e.threads[t].st {
                St::Pending(p) if !stopped(e, t) => p.deadline.map(|d| (d, t)),
                _ => None,
            })
            .min();
        let settler = (0..n).find(|&t| matches!(&e.threads[t].st, St::Pending(p) if p.settle.is_some()));
        match (settler, timed) {
            (Some(s), timed) => {
                let St::Pending(p) = &mut e.threads[s].st else { unreachable!() };
                let left = p.settle.as_mut().unwrap();
                match timed {
                    Some((_, t)) if *left > 0 => {
                        *left -= 1;
                        en.push((t, 1 << TIMEOUT));
                    }
                    _ => en.push((s, 1)),
                }
            }
            (None, Some((_, t))) => {
                e.quiet += 1;
                if e.quiet > 64 {
                    record(e, "hang: threads wait for ever while only timers run".into());
                    finish_exec();
                    return;
                }
                en.push((t, 1 << TIMEOUT));
            }
            (None, None) => {
                if e.threads.iter().any(|t| matches!(t.st, St::Pending(_))) {
                    record(e, "deadlock: no thread can move".into());
                }
                finish_exec();
                return;
            }
        }
    } else {
        e.quiet = 0;
    }
    // Decide.
    let (t, alt);
    if let Some(s) = &e.script {
        let d = e.depth;
        let want = s.get(d).copied();
        (t, alt) = match want {
            Some((t, a)) if en.iter().any(|&(x, m)| x == t && m & (1 << a) != 0) => (t, a),
            _ => {
                let (t, m) = en.iter().copied().find(|&(t, _)| Some(t) == cur).unwrap_or(en[0]);
                (t, m.trailing_zeros())
            }
        };
        e.depth += 1;
    } else if e.free_run || !e.explore {
        let (x, m) = en.iter().copied().find(|&(t, _)| Some(t) == cur).unwrap_or(en[0]);
        t = x;
        alt = m.trailing_zeros();
    } else if e.depth < e.path.len() {
        let nd = &e.path[e.depth];
        if nd.enabled != en {
            record(e, format!("MACHINERY nondeterministic replay at {}: {:?} then {:?}", e.depth, e.path[e.depth].enabled, en));
            finish_exec();
            return;
        }
        t = nd.chosen;
        alt = nd.alt;
        e.depth += 1;
    } else {
        let sleep = match e.path.last() {
            None => 0,
            Some(_) if e.naive => 0,
            Some(_) => e.child_sleep(),
        };
        let pick = en
            .iter()
            .copied()
            .filter(|&(t, _)| sleep >> t & 1 == 0)
            .min_by_key(|&(t, _)| (Some(t) != cur, t));
        match pick {
            None => {
                e.free_run = true;
                let (x, m) = en[0];
                t = x;
                alt = m.trailing_zeros();
            }
            Some((x, m)) => {
                t = x;
                alt = m.trailing_zeros();
                e.path.push(Node {
                    enabled: en.clone(),
                    backtrack: if e.naive && !e.frozen { en.iter().map(|&(t, _)| 1u64 << t).sum() } else { 1 << t },
                    done: 0,
                    sleep,
                    chosen: t,
                    alts_left: if e.frozen { 0 } else { m & !(1 << alt) },
                    alt,
                    forced: forced || e.frozen,
                });
                e.depth += 1;
            }
        }
    }
    e.fire(t, alt, forced);
    hand(&e.threads[t].baton.clone(), alt);
}

impl Exec {
    /// Threads whose exploration from here is redundant.
    fn child_sleep(&self) -> u64 {
        let nd = self.path.last().unwrap();
        let ev = self.trace.last().unwrap();
        let mut out = 0;
        let base = (nd.sleep | nd.done) & !(1 << nd.chosen);
        for t in 0..self.threads.len() {
            if base >> t & 1 == 1 {
                if let St::Pending(p) = &self.threads[t].st {
                    if !dependent(&p.accs, &ev.accs) {
                        out |= 1 << t;
                    }
                }
            }
        }
        out
    }

    fn fire(&mut self, t: Tid, alt: u32, forced: bool) {
        self.transitions += 1;
        let St::Pending(p) = std::mem::replace(&mut self.threads[t].st, St::Running) else { unreachable!() };
        if alt == TIMEOUT {
            self.threads[t].early -= !forced as u32;
            self.time = self.time.max(p.deadline.unwrap_or(0));
        }
        let barrier = p.settle.is_some() || forced;
        let accs = p.accs;
        let me = t;
        if !self.explore {
            // One execution, nothing to reorder: keep only the end of the trace.
            if self.trace.len() > 4000 {
                self.trace.drain(..2000);
            }
            self.trace.push(Event { tid: me, label: p.label, alt, accs, clock: vec![], node: 0 });
            return;
        }
        let mut clock = self.threads[t].clock.clone();
        clock.resize(self.threads.len().max(clock.len()), 0);
        {
            // Races of this event with earlier ones, and its happens-before.
            let track = self.explore && !self.free_run && self.script.is_none();
            let mut c = clock.clone();
            // Happens-before through reversible steps only: a release orders the next acquire after the
            // previous one, but the two acquires still race.
            let mut cr = clock.clone();
            let mut races = vec![];
            for i in (0..self.trace.len()).rev() {
                let ev = &self.trace[i];
                if ev.tid == me || !dependent(&ev.accs, &accs) {
                    continue;
                }
                if !leq(ev, &cr) && reversible(&ev.accs, &accs) {
                    races.push(i);
                    join(&mut cr, &ev.clock.clone());
                }
                join(&mut c, &ev.clock.clone());
            }
            if track {
                for i in races {
                    self.race(i, me, &accs, &c);
                }
            }
            clock = c;
        }
        if barrier {
            for q in 0..self.threads.len() {
                let c = self.threads[q].clock.clone();
                join(&mut clock, &c);
            }
        }
        clock.resize(self.threads.len().max(clock.len()), 0);
        clock[me] += 1;
        self.threads[me].clock = clock.clone();
        let node = self.depth.wrapping_sub(1);
        self.trace.push(Event { tid: me, label: p.label, alt, accs, clock, node });
    }

    /// Event `i` and the event about to happen (by `p`, with `accs`, clock `pc` before itself) race:
    /// make sure the other order is explored too.
    fn race(&mut self, i: usize, p: Tid, accs: &[Acc], pc: &[u32]) {
        let node = self.trace[i].node;
        if node >= self.path.len() || self.path[node].forced {
            return;
        }
        // Was p's operation already waiting before event i, and made possible by it?
        let ei = (self.trace[i].tid, self.trace[i].clock[self.trace[i].tid]);
        let p_moved = self.trace[i + 1..].iter().any(|x| x.tid == p);
        let en: u64 = self.path[node].enabled.iter().map(|&(t, _)| 1u64 << t).sum();
        // v: what happened after i without depending on it, then this event.
        let v: Vec<usize> = (i + 1..self.trace.len())
            .filter(|&j| self.trace[j].clock.get(ei.0).copied().unwrap_or(0) < ei.1)
            .collect();
        if !p_moved && en >> p & 1 == 0 && v.is_empty() {
            return;
        }
        let mut initials = 0u64;
        let mut seen = 0u64;
        for (k, &j) in v.iter().enumerate() {
            let t = self.trace[j].tid;
            if seen >> t & 1 == 1 {
                continue;
            }
            seen |= 1 << t;
            let first = v[..k].iter().all(|&m| {
                let x = &self.trace[m];
                self.trace[j].clock.get(x.tid).copied().unwrap_or(0) < x.clock[x.tid]
            });
            if first {
                initials |= 1 << t;
            }
        }
        if seen >> p & 1 == 0 {
            // is the new event itself an initial?
            let first = v.iter().all(|&m| {
                let x = &self.trace[m];
                !dependent(&x.accs, accs) && pc.get(x.tid).copied().unwrap_or(0) < x.clock[x.tid]
            });
            if first {
                initials |= 1 << p;
            }
        }
        initials &= en;
        let nd = &mut self.path[node];
        if initials == 0 {
            // Nothing to start the other order with: fall back to everything.
            nd.backtrack |= en;
            return;
        }
        if nd.backtrack & initials == 0 {
            nd.backtrack |= 1 << initials.trailing_zeros();
        }
    }
}

fn leq(ev: &Event, c: &[u32]) -> bool {
    c.get(ev.tid).copied().unwrap_or(0) >= ev.clock[ev.tid]
}
fn join(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

/// Tells the killer that the thread's memory is gone.
struct Gone(Arc<Baton>);
impl Drop for Gone {
    fn drop(&mut self) {
        *self.0.gone.lock().unwrap() = true;
    }
}

/// Handle to a model thread.
pub struct Handle {
    pub tid: Tid,
    pub exit_obj: u64,
}

fn finished(t: Tid) -> bool {
    // Called from predicates while the lock is held by the scheduler.
    FIN.lock().unwrap().get(t).copied().unwrap_or(false)
}
static FIN: Mutex<Vec<bool>> = Mutex::new(Vec::new());

/// Starts a model thread. `f` runs under the scheduler.
pub fn spawn(name: &str, f: impl FnOnce() + Send + 'static) -> Handle {
    spawn_in(name, None, f)
}
fn spawn_in(name: &str, proc: Option<usize>, f: impl FnOnce() + Send + 'static) -> Handle {
    let exit_obj = new_obj();
    if controlled() {
        point("spawn", &[]);
    }
    let (tid, baton) = {
        let mut g = lock();
        let e = g.as_mut().expect("mc::spawn outside an execution");
        let tid = e.threads.len();
        if tid >= 60 && e.explore {
            eprintln!("MACHINERY too many model threads");
            std::process::exit(3);
        }
        let mut clock = match me() {
            Some(p) => e.threads[p].clock.clone(),
            None => vec![],
        };
        clock.resize(tid + 1, 0);
        let baton = Arc::new(Baton { go: Mutex::new(None), cv: std::sync::Condvar::new(), gone: Mutex::new(false) });
        let proc = proc.unwrap_or_else(|| me().map_or(0, |p| e.threads[p].proc));
        let accs = if proc == 0 { vec![] } else { vec![Acc(e.procs[proc].obj, Use)] };
        let early = e.early.get(name).copied().unwrap_or(0);
        e.threads.push(Th {
            st: St::Pending(Pend { label: "start", accs, enabled: &|| 1, deadline: None, settle: None }),
            clock,
            early,
            name: name.to_string(),
            baton: baton.clone(),
            wait_free: None,
            proc,
        });
        e.live += 1;
        FIN.lock().unwrap().push(false);
        (tid, baton)
    };
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let gone = Gone(baton.clone());
            if wait(&baton) == KILL {
                drop(f);
                return;
            }
            ME.with(|m| m.set(Some(tid)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if DEAD.with(|d| d.get()) {
                let mut g = lock();
                let e = g.as_mut().unwrap();
                if !matches!(e.threads[tid].st, St::Finished) {
                    // The thread that ended its own process.
                    e.threads[tid].st = St::Finished;
                    e.live -= 1;
                    schedule(e, None);
                }
                drop(g);
                drop(gone);
                return;
            }
            if let Err(p) = r {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                let mut g = lock();
                let e = g.as_mut().unwrap();
                let name = e.threads[tid].name.clone();
                record(e, format!("panic in thread {name}: {m}"));
            }
            point("exit", &[Acc(exit_obj, Rel)]);
            let mut g = lock();
            let e = g.as_mut().unwrap();
            e.threads[tid].st = St::Finished;
            FIN.lock().unwrap()[tid] = true;
            ME.with(|m| m.set(None));
            e.live -= 1;
            schedule(e, None);
        })
        .expect("OS thread");
    Handle { tid, exit_obj }
}

impl Handle {
    pub fn join(&self) {
        let t = self.tid;
        block("join", &[Acc(self.exit_obj, Acq)], &|| finished(t));
    }
    pub fn is_finished(&self) -> bool {
        point("is_finished", &[Acc(self.exit_obj, R)]);
        finished(self.tid)
    }
}

pub struct Config {
    /// Early timeouts allowed per thread name.
    pub early: HashMap<String, u32>,
    pub max_executions: u64,
    pub deadline: Option<std::time::Instant>,
    pub max_steps: usize,
    /// Replay exactly this schedule instead of exploring.
    pub script: Option<Vec<(Tid, u32)>>,
    /// false: one deterministic execution.
    pub explore: bool,
    /// Every enabled thread at every point, no reduction (to validate the reduction).
    pub naive: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config { early: HashMap::new(), max_executions: u64::MAX, deadline: None, max_steps: 4000, script: None, explore: true, naive: false }
    }
}

/// Enumerates the executions of `body` (the main model thread). `after` judges each finished execution.
pub fn explore(
    cfg: Config,
    body: impl Fn() + Send + Sync + 'static,
    mut after: impl FnMut() -> Result<(), String>,
) -> (Stats, Option<Failure>) {
    let body = Arc::new(body);
    let mut stats = Stats::default();
    let mut path: Vec<Node> = vec![];
    loop {
        FIN.lock().unwrap().clear();
        STATUS.lock().unwrap().clear();
        *DONE.0.lock().unwrap() = false;
        *lock() = Some(Exec {
            threads: vec![],
            path: std::mem::take(&mut path),
            depth: 0,
            trace: vec![],
            time: 1_000_000_000,
            next_obj: 0,
            free_run: false,
            quiet: 0,
            explore: cfg.explore,
            naive: cfg.naive,
            early: cfg.early.clone(),
            fail: None,
            live: 0,
            transitions: 0,
            script: cfg.script.clone(),
            notes: vec![],
            max_steps: cfg.max_steps,
            default_alt_first: true,
            frozen: false,
            procs: vec![Proc { obj: 0, end: 0, stopped: false, pending: None, status: None, ended: 0, reaped: false, group: true }],
        });
        let b = body.clone();
        spawn("main", move || b());
        {
            let mut g = lock();
            let e = g.as_mut().unwrap();
            schedule(e, None);
        }
        {
            let mut d = DONE.0.lock().unwrap();
            while !*d {
                d = DONE.1.wait(d).unwrap();
            }
        }
        let mut e = lock().take().unwrap();
        let _ = e.default_alt_first;
        stats.transitions += e.transitions;
        stats.max_depth = stats.max_depth.max(e.trace.len() as u64);
        if e.free_run {
            stats.redundant += 1;
        } else {
            stats.executions += 1;
        }
        if e.fail.is_none() {
            // Judge redundant executions too: they are real behaviours.
            if let Err(m) = after() {
                record(&mut e, m);
            }
        }
        if let Some(f) = e.fail.take() {
            return (stats, Some(f));
        }
        if !cfg.explore || cfg.script.is_some() {
            return (stats, None);
        }
        path = e.path;
        // Next branch, deepest first.
        loop {
            let Some(nd) = path.last_mut() else {
                return (stats, None);
            };
            if nd.alts_left != 0 {
                nd.alt = nd.alts_left.trailing_zeros();
                nd.alts_left &= !(1 << nd.alt);
                stats.branch_points += 1;
                break;
            }
            nd.done |= 1 << nd.chosen;
            let left = nd.backtrack & !nd.done & !nd.sleep;
            let next = nd.enabled.iter().copied().find(|&(t, _)| left >> t & 1 == 1);
            if let Some((t, m)) = next {
                nd.chosen = t;
                nd.alt = m.trailing_zeros();
                nd.alts_left = m & !(1 << nd.alt);
                stats.branch_points += 1;
                break;
            }
            path.pop();
        }
        if stats.executions + stats.redundant >= cfg.max_executions
            || cfg.deadline.is_some_and(|d| std::time::Instant::now() > d)
        {
            stats.capped = true;
            return (stats, None);
        }
    }
}
