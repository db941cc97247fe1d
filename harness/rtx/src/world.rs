//! Programs, keys and the things a scenario is made of.
use alloy_primitives::{Address, B256, Bytes, U256, keccak256};
use fakellvm::{CODE_OBJ, MARK};
use mc::{Acc, R};
use revm_bytecode::Bytecode;
use revm_context_interface::host::DummyHost;
use revm_interpreter::{
    Interpreter, InterpreterAction, SharedMemory,
    instructions::{gas_table_spec, instruction_table},
    interpreter::{ExtBytecode, InputsImpl},
};
use revm_primitives::hardfork::SpecId;
pub use revmc_backend::OptimizationLevel;
use revmc_runtime::runtime::*;
use std::{
    collections::{BTreeMap, HashMap},
    sync::{Arc, Mutex, OnceLock},
};

/// Key number `2 * code + spec`.
pub type K = u8;
/// Code longer than any scenario's limit, and the empty code.
pub const LONG: K = 200;
pub const EMPTY: K = 202;
/// More than fits in a pipe.
pub const HUGE: K = 204;
pub const LIMIT: usize = 64;

pub fn spec(k: K) -> SpecId {
    if k & 1 == 0 { SpecId::CANCUN } else { SpecId::TANGERINE }
}
pub fn code(k: K) -> Bytes {
    if k & !1 == EMPTY {
        return Bytes::new();
    }
    let c = (k >> 1) as u32;
    let mut v = vec![0x63];
    v.extend_from_slice(&(MARK as u32 + c).to_be_bytes());
    v.extend_from_slice(&[0x60, 0, 0x52, 0x61, 1, 2, 0x60, 3, 0x0a, 0x50, 0x60, 32, 0x60, 0, 0xf3]);
    if k & !1 == LONG {
        v.resize(LIMIT + 1, 0);
    }
    if k & !1 == HUGE {
        v.resize(70_000, 0);
    }
    v.into()
}
pub fn hash(k: K) -> B256 {
    static H: OnceLock<Mutex<HashMap<K, B256>>> = OnceLock::new();
    *H.get_or_init(Default::default).lock().unwrap().entry(k).or_insert_with(|| keccak256(code(k)))
}
pub fn rkey(k: K) -> RuntimeCacheKey {
    RuntimeCacheKey { code_hash: hash(k), spec_id: spec(k) }
}
pub fn req(k: K) -> LookupRequest {
    LookupRequest { key: rkey(k), code: code(k) }
}
pub fn key_of(r: &RuntimeCacheKey) -> Option<K> {
    (0..40).chain([LONG, LONG + 1, EMPTY, EMPTY + 1, HUGE, HUGE + 1]).find(|&k| rkey(k) == *r)
}

fn interp(k: K) -> Interpreter {
    Interpreter::new(
        SharedMemory::new(),
        ExtBytecode::new(Bytecode::new_legacy(code(k))),
        InputsImpl {
            target_address: Address::ZERO,
            bytecode_address: None,
            caller_address: Address::ZERO,
            input: Default::default(),
            call_value: U256::ZERO,
        },
        false,
        spec(k),
        1_000_000,
    )
}
type Out = (String, Bytes, u64);
fn outcome(a: InterpreterAction) -> Out {
    match a {
        InterpreterAction::Return(r) => (format!("{:?}", r.result), r.output, r.gas.total_gas_spent()),
        a => (format!("{a:?}"), Bytes::new(), 0),
    }
}
/// What the interpreter says key `k` does.
pub fn reference(k: K) -> Out {
    static M: OnceLock<Mutex<HashMap<K, Out>>> = OnceLock::new();
    M.get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(k)
        .or_insert_with(|| {
            let mut h = DummyHost::new(spec(k));
            outcome(interp(k).run_plain(&instruction_table(), &gas_table_spec(spec(k)), &mut h))
        })
        .clone()
}
/// Executes a program and compares it with the interpreter for key `k`.
pub fn run(k: K, p: &CompiledProgram) -> Result<(), String> {
    mc::point("run", &[Acc(CODE_OBJ, R)]);
    if p.key != rkey(k) {
        return Err(format!("asked for key {k}, got a program of key {:?}", p.key));
    }
    let mut h = DummyHost::new(spec(k));
    let mut it = interp(k);
    let _ = irvm::take_fault();
    let a = unsafe { p.func.call_with_interpreter(&mut it, &mut h) };
    if let Some(f) = irvm::take_fault() {
        return Err(format!("running the program of key {k}: {f}"));
    }
    let o = outcome(a);
    if o != reference(k) {
        return Err(format!("the program of key {k} gives {o:?}, the interpreter {:?}", reference(k)));
    }
    Ok(())
}

/// Which calls of the artifact store fail.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash)]
pub struct Faults {
    pub load_all: bool,
    pub load: bool,
    pub store: bool,
    pub clear: bool,
    /// What was stored cannot be found.
    pub lost: bool,
}
impl Faults {
    pub fn unreadable(&self) -> bool {
        self.load || self.lost
    }
}

/// The repository's own store, with calls that can be made to fail.
pub struct Store {
    pub inner: RuntimeArtifactStore,
    pub faults: Mutex<Faults>,
}
impl Store {
    pub fn new() -> Arc<Self> {
        Arc::new(Store { inner: RuntimeArtifactStore::new().unwrap(), faults: Default::default() })
    }
    fn f(&self) -> Faults {
        *self.faults.lock().unwrap()
    }
}
fn io() -> eyre::Report {
    eyre::eyre!("injected store failure")
}
impl ArtifactStore for Store {
    fn load_all(&self) -> eyre::Result<Vec<(ArtifactKey, StoredArtifact)>> {
        if self.f().load_all { Err(io()) } else { self.inner.load_all() }
    }
    fn load(&self, k: &ArtifactKey) -> eyre::Result<Option<StoredArtifact>> {
        let f = self.f();
        if f.load {
            Err(io())
        } else if f.lost {
            Ok(None)
        } else {
            self.inner.load(k)
        }
    }
    fn store(&self, k: &ArtifactKey, m: &ArtifactManifest, b: &[u8]) -> eyre::Result<()> {
        if self.f().store { Err(io()) } else { self.inner.store(k, m, b) }
    }
    fn delete(&self, k: &ArtifactKey) -> eyre::Result<()> {
        self.inner.delete(k)
    }
    fn clear(&self) -> eyre::Result<()> {
        if self.f().clear { Err(io()) } else { self.inner.clear() }
    }
}

/// One configuration of the runtime under exploration.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub enabled: bool,
    pub blocking: bool,
    pub aot: bool,
    pub store: bool,
    pub threshold: usize,
    pub max_pending: usize,
    pub workers: usize,
    pub queue: usize,
    pub channel: usize,
    pub drain: usize,
    /// In programs.
    pub budget: usize,
    pub idle: Option<u64>,
    pub sweep: u64,
    pub recycle: usize,
    pub max_len: usize,
    /// Optimisation level of artifacts.
    pub level: u8,
    /// Quiet periods waited for after each call.
    pub settle: u32,
    /// JIT compilation happens in a helper process.
    pub oop: bool,
    /// Milliseconds a helper may take for a job.
    pub timeout: u64,
}
pub const LEVELS: [OptimizationLevel; 4] =
    [OptimizationLevel::None, OptimizationLevel::Less, OptimizationLevel::Default, OptimizationLevel::Aggressive];
pub const MS: u64 = 1_000_000;
/// Event drain interval.
pub const TICK: u64 = 100;
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            enabled: true,
            blocking: false,
            aot: false,
            store: false,
            threshold: 2,
            max_pending: 8,
            workers: 1,
            queue: 8,
            channel: 16,
            drain: 64,
            budget: 0,
            idle: None,
            sweep: TICK,
            recycle: 0,
            max_len: LIMIT,
            level: 2,
            settle: 2,
            oop: false,
            timeout: 100_000,
        }
    }
}
/// Where the helper program is.
pub const HELPER: &str = "/helper";
/// Forgets the previous execution.
pub fn reset(w: fakellvm::World) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    fn main() -> i32 {
        match maybe_run_jit_helper() {
            Ok(std::ops::ControlFlow::Break(())) => 0,
            // The program would go on as if it were not a helper.
            Ok(std::ops::ControlFlow::Continue(())) => {
                mc::fail("a program started as helper does not act as one");
                3
            }
            Err(_) => 1,
        }
    }
    ONCE.call_once(|| {
        mcstd::process::register(HELPER.into(), main);
        mcstd::process::register(std::env::current_exe().unwrap(), main);
    });
    mcstd::process::reset();
    fakellvm::reset(w);
}
/// Kills the newest helper process, if it is alive.
pub fn crash() -> bool {
    mc::point("newest process", &[mc::Acc(mc::PROCESSES, mc::R)]);
    let n = mc::processes();
    n > 1 && mc::kill_process(n - 1, 11)
}
pub type Cb = Arc<Mutex<Vec<(RuntimeCacheKey, CompilationKind, bool)>>>;
impl Cfg {
    pub fn build(&self, store: Option<Arc<Store>>, cb: Cb) -> RuntimeConfig {
        let d = std::time::Duration::from_millis;
        let mut c = RuntimeConfig::default();
        c.enabled = self.enabled;
        c.blocking = self.blocking;
        c.aot = self.aot;
        c.thread_name = "backend".into();
        if self.oop {
            c.jit_mode = JitMode::OutOfProcess;
            c.jit_helper_path = Some(HELPER.into());
        }
        if let Some(s) = store {
            c.store = Some(s);
        }
        let t = &mut c.tuning;
        t.jit_timeout = d(self.timeout);
        t.channel_capacity = self.channel;
        t.max_events_per_drain = self.drain;
        t.event_drain_interval = d(TICK);
        t.jit_hot_threshold = self.threshold;
        t.jit_max_bytecode_len = self.max_len;
        t.jit_max_pending_jobs = self.max_pending;
        t.jit_worker_count = self.workers;
        t.jit_worker_queue_capacity = self.queue;
        t.resident_code_cache_bytes = self.budget * fakellvm::FN_BYTES;
        t.idle_evict_duration = self.idle.map(d);
        t.eviction_sweep_interval = d(self.sweep);
        t.aot_opt_level = LEVELS[self.level as usize];
        t.compiler_recycle_threshold = self.recycle;
        c.on_compilation = Some(Arc::new(move |e: CompilationEvent| {
            cb.lock().unwrap().push((
                RuntimeCacheKey { code_hash: e.code_hash, spec_id: e.spec_id },
                e.kind,
                e.success,
            ));
        }));
        c
    }
}

/// What a worker process reports.
#[derive(Default)]
pub struct Tally {
    pub cases: u64,
    pub schedules: u64,
    pub redundant: u64,
    pub transitions: u64,
    pub steps: u64,
    pub max_depth: u64,
    pub capped: u64,
    pub unsure: u64,
    pub outcomes: std::collections::HashSet<u64>,
    pub suites: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

/// Puts an artifact that did not come from the runtime into the store, under a symbol name of its own.
pub fn foreign(s: &Store, k: K, level: u8) -> Result<(), String> {
    let b = fakellvm::EvmLlvmBackend::new(true).map_err(|e| e.to_string())?;
    let mut c = revmc_codegen::EvmCompiler::new(b);
    let symbol = format!("made_elsewhere_{k}");
    let mut bytes = vec![];
    c.translate(&symbol, &code(k)[..], spec(k)).map_err(|e| e.to_string())?;
    c.write_object(&mut bytes).map_err(|e| e.to_string())?;
    fakellvm::world(|w| {
        w.backends -= 1;
        w.compiled.pop();
        w.log.pop();
    });
    let a = ArtifactKey { runtime: rkey(k), backend: BackendSelection::Llvm, opt_level: LEVELS[level as usize] };
    let m = ArtifactManifest {
        artifact_key: a.clone(),
        symbol_name: symbol,
        bytecode_len: code(k).len(),
        artifact_len: bytes.len(),
        created_at_unix_secs: 1,
        content_hash: keccak256(&bytes).0,
    };
    s.inner.store(&a, &m, &bytes).map_err(|e| e.to_string())
}
