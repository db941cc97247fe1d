//! Whole transactions: the EVM wrappers of /repo against mainnet revm on the same world.
use alloy_evm::{Evm as _, EvmEnv, EvmFactory};
use alloy_primitives::{Address, B256, Bytes, TxKind, U256, keccak256};
use irvm::IrvmBackend;
use revm_bytecode::Bytecode;
use revm_context::{BlockEnv, CfgEnv, Context, ContextTr, JournalTr, TxEnv};
use revm_context_interface::result::{ExecutionResult, HaltReason};
use revm_database::{CacheDB, EmptyDB};
use revm_database_interface::{DBErrorMarker, Database, DatabaseCommit};
use revm_handler::{
    ExecuteCommitEvm, ExecuteEvm, MainBuilder, MainContext, MainnetEvm, SystemCallCommitEvm, SystemCallEvm,
    instructions::EthInstructions,
};
use revm_inspector::{InspectCommitEvm, InspectEvm, InspectSystemCallEvm, Inspector};
use revm_interpreter::{
    CallInputs, CallOutcome, CreateInputs, CreateOutcome, Gas, InstructionResult, Interpreter, InterpreterResult,
    interpreter::EthInterpreter,
};
use revm_primitives::hardfork::SpecId;
use revm_state::{AccountInfo, EvmState};
use revmc_codegen::EvmCompiler;
use revmc_context::EvmCompilerFn;
use revmc_runtime::{alloy_evm as jalloy, revm_evm as jrt, runtime::JitBackend};
use std::collections::{BTreeMap, HashMap};

// ---------------------------------------------------------------- world

pub const CALLER: Address = Address::with_last_byte(0xc0);
pub const A: Address = Address::with_last_byte(0xa0);
pub const B: Address = Address::with_last_byte(0xb0);
/// Delegated to `B` (EIP-7702).
pub const D: Address = Address::with_last_byte(0xd0);
/// Has a balance and no code.
pub const E: Address = Address::with_last_byte(0xe0);
/// Does not exist.
pub const N: Address = Address::with_last_byte(0xf0);

#[derive(Debug, Clone)]
pub struct DbErr(u32);
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "database call {} failed", self.0)
    }
}
impl std::error::Error for DbErr {}
impl DBErrorMarker for DbErr {}

#[derive(Debug, Clone, Default)]
pub struct Db {
    pub inner: CacheDB<EmptyDB>,
    pub calls: u32,
    pub fail_at: Option<u32>,
    /// Gives the backend time to work during every access.
    pub slow: bool,
}
impl Db {
    fn tick(&mut self) -> Result<(), DbErr> {
        self.calls += 1;
        if self.slow {
            mc::settle(2);
        }
        if self.fail_at == Some(self.calls) { Err(DbErr(self.calls)) } else { Ok(()) }
    }
}
impl Database for Db {
    type Error = DbErr;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, DbErr> {
        self.tick()?;
        Ok(self.inner.basic(a).unwrap())
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, DbErr> {
        self.tick()?;
        Ok(self.inner.code_by_hash(h).unwrap())
    }
    fn storage(&mut self, a: Address, i: U256) -> Result<U256, DbErr> {
        self.tick()?;
        Ok(self.inner.storage(a, i).unwrap())
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DbErr> {
        self.tick()?;
        Ok(self.inner.block_hash(n).unwrap())
    }
}
impl DatabaseCommit for Db {
    fn commit(&mut self, s: revm_primitives::AddressMap<revm_state::Account>) {
        self.inner.commit(s)
    }
}

pub fn world(a: &[u8], b: &[u8]) -> Db {
    let mut db = Db::default();
    let mut put = |x: Address, bal: u64, code: Option<Bytecode>| {
        let mut i = AccountInfo { balance: U256::from(bal), nonce: 1, ..Default::default() };
        if let Some(c) = code {
            i.code_hash = c.hash_slow();
            i.code = Some(c);
        }
        db.inner.insert_account_info(x, i);
    };
    put(CALLER, 1_000_000_000, None);
    put(A, 1000, Some(Bytecode::new_legacy(Bytes::copy_from_slice(a))));
    put(B, 500, Some(Bytecode::new_legacy(Bytes::copy_from_slice(b))));
    put(D, 300, Some(Bytecode::new_eip7702(B)));
    put(E, 7, None);
    for x in [A, B, D] {
        db.inner.insert_account_storage(x, U256::from(9), U256::from(0x77)).unwrap();
    }
    db
}

// ---------------------------------------------------------------- inspector

/// Records what it is told; `mode` says how it interferes.
#[derive(Default, Debug, Clone)]
pub struct Rec {
    pub ev: Vec<String>,
    pub mode: u8,
}
fn class(r: InstructionResult) -> String {
    if r.is_ok() {
        format!("{r:?}")
    } else if r.is_revert() {
        "revert".into()
    } else {
        "halt".into()
    }
}
fn res(r: &InterpreterResult) -> String {
    if !r.result.is_ok_or_revert() {
        // A failed frame loses all its gas, whatever it reports.
        return format!("halt out={}", r.output);
    }
    format!("{} out={} left={} refund={}", class(r.result), r.output, r.gas.remaining(), r.gas.refunded())
}
impl Rec {
    /// A failing frame may fail before the logs of its last stretch of code; they are undone anyway.
    fn ended(&mut self, r: &InterpreterResult) {
        if !r.result.is_ok_or_revert() {
            while self.ev.last().is_some_and(|e| e.starts_with("log ")) {
                self.ev.pop();
            }
        }
    }
}
impl<CTX: ContextTr> Inspector<CTX, EthInterpreter> for Rec {
    fn initialize_interp(&mut self, it: &mut Interpreter, _: &mut CTX) {
        self.ev.push(format!("init {} gas={}", it.bytecode.original_bytes(), it.gas.remaining()));
    }
    fn log(&mut self, _: &mut CTX, l: revm_primitives::Log) {
        self.ev.push(format!("log {l:?}"));
    }
    fn call(&mut self, c: &mut CTX, i: &mut CallInputs) -> Option<CallOutcome> {
        let data = i.input.bytes(c);
        self.ev.push(format!(
            "call depth={} {:?} to={} code={} from={} value={:?} static={} gas={} in={} ret={:?}",
            c.journal().depth(), i.scheme, i.target_address, i.bytecode_address, i.caller, i.value, i.is_static, i.gas_limit,
            data, i.return_memory_offset
        ));
        match self.mode {
            1 if i.bytecode_address == B => Some(CallOutcome::new(
                InterpreterResult::new(InstructionResult::Return, Bytes::from_static(b"faked"), Gas::new(i.gas_limit)),
                i.return_memory_offset.clone(),
            )),
            3 => {
                if c.journal().depth() > 0 {
                    i.gas_limit -= i.gas_limit / 3;
                }
                None
            }
            _ => None,
        }
    }
    fn call_end(&mut self, c: &mut CTX, i: &CallInputs, o: &mut CallOutcome) {
        self.ended(&o.result);
        self.ev.push(format!(
            "call_end depth={} to={} {} mem={:?} pre={}",
            c.journal().depth(), i.target_address, res(&o.result), o.memory_offset, o.was_precompile_called
        ));
        if self.mode == 2 && i.bytecode_address == B && o.result.result.is_ok_or_revert() {
            o.result.result = InstructionResult::Revert;
            o.result.output = Bytes::from_static(b"changed");
        }
    }
    fn create(&mut self, c: &mut CTX, i: &mut CreateInputs) -> Option<CreateOutcome> {
        self.ev.push(format!(
            "create depth={} {:?} from={} value={} gas={} init={}",
            c.journal().depth(), i.scheme(), i.caller(), i.value(), i.gas_limit(), i.init_code()
        ));
        (self.mode == 1).then(|| {
            CreateOutcome::new(
                InterpreterResult::new(InstructionResult::Revert, Bytes::from_static(b"no"), Gas::new(i.gas_limit())),
                None,
            )
        })
    }
    fn create_end(&mut self, c: &mut CTX, _: &CreateInputs, o: &mut CreateOutcome) {
        self.ended(&o.result);
        self.ev.push(format!("create_end depth={} {} at={:?}", c.journal().depth(), res(&o.result), o.address));
    }
    fn selfdestruct(&mut self, a: Address, t: Address, v: U256) {
        self.ev.push(format!("selfdestruct {a} {t} {v}"));
    }
}

// ---------------------------------------------------------------- drivers

type Ctx = Context<BlockEnv, TxEnv, CfgEnv, Db>;
type Inner = MainnetEvm<Ctx, Rec>;
type Res = Result<(ExecutionResult<HaltReason>, Option<EvmState>), String>;

fn inner(db: Db, spec: SpecId, block: BlockEnv, rec: Rec) -> Inner {
    let mut cfg = CfgEnv::new_with_spec(spec);
    cfg.disable_nonce_check = true;
    Context::mainnet().with_block(block).with_cfg(cfg).with_db(db).build_mainnet_with_inspector(rec)
}

/// What a step asks for.
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// transact / inspect_tx, result and state discarded (`false`) or committed by the caller.
    Tx(Call, bool),
    /// transact_commit / inspect_tx_commit.
    Commit(Call),
    /// transact_one / inspect_one_tx; the journal is kept.
    One(Call),
    Finalize,
    Replay,
    Sys(Address, bool),
    Spec(SpecId),
    Block(u64),
    Settle,
    Clear,
    NewBackend,
    Inspect(bool),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub to: Option<Address>,
    pub value: u64,
    pub data: Bytes,
    pub gas: u64,
}
impl Call {
    fn env(&self) -> TxEnv {
        TxEnv {
            caller: CALLER,
            kind: self.to.map_or(TxKind::Create, TxKind::Call),
            value: U256::from(self.value),
            data: self.data.clone(),
            gas_limit: self.gas,
            ..Default::default()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Drv {
    /// revmc_context::JitEvm, everything compiled.
    CtxAll,
    /// Only `A` / only `B` compiled, from the function map.
    CtxA,
    CtxB,
    /// revmc_runtime::revm_evm::JitEvm with a blocking backend.
    Blocking,
    /// The same with a backend that compiles in the background, at rest between steps.
    Warm,
    /// ... and that makes progress during every database access.
    Slow,
    /// revmc_runtime::alloy_evm::JitEvm made by its factory.
    Alloy,
    /// JitEvm::disabled.
    Off,
}

thread_local! {
    static CODE: std::cell::RefCell<HashMap<(B256, SpecId), EvmCompilerFn>> = Default::default();
}
fn compiled(h: B256, code: &[u8], spec: SpecId) -> EvmCompilerFn {
    CODE.with_borrow_mut(|m| {
        if m.len() > 4000 {
            m.clear();
        }
        *m.entry((h, spec)).or_insert_with(|| {
            let mut c = EvmCompiler::new(IrvmBackend::new(false));
            let f = unsafe { c.jit("f", code, spec) }.unwrap_or_else(|e| panic!("compile error: {e}"));
            std::mem::forget(c);
            f
        })
    })
}

trait Drive {
    fn tx(&mut self, t: TxEnv, inspect: bool) -> Res;
    fn commit_tx(&mut self, t: TxEnv, inspect: bool) -> Res;
    fn one(&mut self, t: TxEnv, inspect: bool) -> Res;
    fn finalize(&mut self) -> EvmState;
    fn replay(&mut self) -> Res;
    fn sys(&mut self, to: Address, inspect: bool) -> Option<Res>;
    fn sys_commit(&mut self, to: Address) -> Option<Res>;
    fn ctx(&mut self) -> &mut Ctx;
    fn rec(&mut self) -> &mut Rec;
    fn spec(&mut self, s: SpecId);
    fn backend(&mut self) -> Option<&mut JitBackend> {
        None
    }
    fn new_backend(&mut self, _: JitBackend) {}
}
fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}
fn sysdata() -> Bytes {
    Bytes::from_static(&[1, 2])
}
fn set_spec(evm: &mut Inner, s: SpecId) {
    evm.ctx.cfg.set_spec_and_mainnet_gas_params(s);
    evm.instruction = EthInstructions::new_mainnet_with_spec(s);
}

macro_rules! common {
    () => {
        fn tx(&mut self, t: TxEnv, inspect: bool) -> Res {
            let r = if inspect { self.evm.inspect_tx(t) } else { self.evm.transact(t) };
            e(r.map(|r| (r.result, Some(r.state))))
        }
        fn one(&mut self, t: TxEnv, inspect: bool) -> Res {
            let r = if inspect { self.evm.inspect_one_tx(t) } else { self.evm.transact_one(t) };
            e(r.map(|r| (r, None)))
        }
        fn finalize(&mut self) -> EvmState {
            self.evm.finalize()
        }
        fn replay(&mut self) -> Res {
            e(self.evm.replay().map(|r| (r.result, Some(r.state))))
        }
        fn ctx(&mut self) -> &mut Ctx {
            &mut self.evm.ctx
        }
        fn rec(&mut self) -> &mut Rec {
            &mut self.evm.inspector
        }
    };
}
macro_rules! full {
    () => {
        common!();
        fn commit_tx(&mut self, t: TxEnv, inspect: bool) -> Res {
            let r = if inspect { self.evm.inspect_tx_commit(t) } else { self.evm.transact_commit(t) };
            e(r.map(|r| (r, None)))
        }
        fn sys(&mut self, to: Address, inspect: bool) -> Option<Res> {
            let r = if inspect {
                self.evm.inspect_system_call_with_caller(CALLER, to, sysdata())
            } else {
                self.evm.system_call_with_caller(CALLER, to, sysdata())
            };
            Some(e(r.map(|r| (r.result, Some(r.state)))))
        }
        fn sys_commit(&mut self, to: Address) -> Option<Res> {
            Some(e(self.evm.system_call_with_caller_commit(CALLER, to, sysdata()).map(|r| (r, None))))
        }
    };
}
struct Ref {
    evm: Inner,
}
impl Drive for Ref {
    full!();
    fn spec(&mut self, s: SpecId) {
        set_spec(&mut self.evm, s);
    }
}
type Miss = Box<dyn FnMut(B256, &[u8]) -> Option<EvmCompilerFn>>;
struct Cx {
    evm: revmc_context::JitEvm<Inner, Miss>,
    spec: std::rc::Rc<std::cell::Cell<SpecId>>,
}
impl Drive for Cx {
    common!();
    fn commit_tx(&mut self, t: TxEnv, inspect: bool) -> Res {
        self.tx(t, inspect).map(|(r, s)| {
            self.evm.ctx.db_mut().commit(s.unwrap());
            (r, None)
        })
    }
    fn sys(&mut self, _: Address, _: bool) -> Option<Res> {
        None
    }
    fn sys_commit(&mut self, _: Address) -> Option<Res> {
        None
    }
    fn spec(&mut self, s: SpecId) {
        self.spec.set(s);
        set_spec(&mut self.evm, s);
    }
}
struct Rt {
    evm: jrt::JitEvm<Inner>,
}
impl Drive for Rt {
    full!();
    fn spec(&mut self, s: SpecId) {
        set_spec(self.evm.inner_mut(), s);
    }
    fn backend(&mut self) -> Option<&mut JitBackend> {
        Some(self.evm.backend_mut())
    }
    fn new_backend(&mut self, b: JitBackend) {
        self.evm.set_backend(b);
    }
}
struct Al {
    /// Replaced on a change of hardfork.
    evm: Option<jalloy::JitEvm<Db, Rec>>,
    back: JitBackend,
}
impl Al {
    fn make(db: Db, env: EvmEnv, rec: Rec, back: &JitBackend) -> jalloy::JitEvm<Db, Rec> {
        jalloy::JitEvmFactory::new(back.clone()).create_evm_with_inspector(db, env, rec)
    }
    fn on(&mut self, inspect: bool) -> &mut jalloy::JitEvm<Db, Rec> {
        let e = self.evm.as_mut().unwrap();
        e.set_inspector_enabled(inspect);
        e
    }
}
impl Drive for Al {
    fn tx(&mut self, t: TxEnv, inspect: bool) -> Res {
        e(self.on(inspect).transact_raw(t).map(|r| (r.result, Some(r.state))))
    }
    fn commit_tx(&mut self, t: TxEnv, inspect: bool) -> Res {
        e(self.on(inspect).transact_commit(t).map(|r| (r, None)))
    }
    fn one(&mut self, _: TxEnv, _: bool) -> Res {
        unreachable!()
    }
    fn finalize(&mut self) -> EvmState {
        unreachable!()
    }
    fn replay(&mut self) -> Res {
        unreachable!()
    }
    fn sys(&mut self, to: Address, inspect: bool) -> Option<Res> {
        Some(e(self.on(inspect).transact_system_call(CALLER, to, sysdata()).map(|r| (r.result, Some(r.state)))))
    }
    fn sys_commit(&mut self, _: Address) -> Option<Res> {
        None
    }
    fn ctx(&mut self) -> &mut Ctx {
        self.evm.as_mut().unwrap()
    }
    fn rec(&mut self) -> &mut Rec {
        self.evm.as_mut().unwrap().components_mut().1
    }
    fn spec(&mut self, s: SpecId) {
        let rec = self.rec().clone();
        let (db, mut env) = self.evm.take().unwrap().finish();
        env.cfg_env.set_spec_and_mainnet_gas_params(s);
        self.evm = Some(Al::make(db, env, rec, &self.back));
    }
    fn backend(&mut self) -> Option<&mut JitBackend> {
        Some(&mut self.back)
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug)]
pub struct Case {
    pub drv: Drv,
    pub spec: SpecId,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub steps: Vec<Step>,
    pub inspect: bool,
    pub mode: u8,
    pub fail_at: Option<u32>,
}

fn result_text(r: &ExecutionResult<HaltReason>) -> String {
    match r {
        // Which of several failures is reported may differ.
        ExecutionResult::Halt { gas, logs, .. } => format!("Halt gas={gas:?} logs={logs:?}"),
        r => format!("{r:?}"),
    }
}
fn state_text(s: &EvmState) -> String {
    let m: BTreeMap<_, _> = s
        .iter()
        // What was only read does not count: a frame that fails may fail before its reads.
        .filter(|(_, x)| x.is_touched())
        .map(|(a, x)| {
            let st: BTreeMap<_, _> = x
                .storage
                .iter()
                .filter(|(_, v)| v.original_value != v.present_value)
                .map(|(k, v)| (*k, (v.original_value, v.present_value)))
                .collect();
            let i = &x.info;
            (*a, format!("{} {} {} {:?} {st:?}", i.balance, i.nonce, i.code_hash, x.status))
        })
        .collect();
    format!("{m:?}")
}
fn db_text(d: &Db) -> String {
    let m: BTreeMap<_, _> = d
        .inner
        .cache
        .accounts
        .iter()
        .filter(|(_, x)| !x.info.is_empty() || x.storage.values().any(|v| !v.is_zero()))
        .map(|(a, x)| {
            let st: BTreeMap<_, _> = x.storage.iter().filter(|(_, v)| !v.is_zero()).collect();
            (*a, format!("{} {} {} {:?} {st:?}", x.info.balance, x.info.nonce, x.info.code_hash, x.account_state))
        })
        .collect();
    format!("{m:?}")
}

/// Every backend of a batch, replaced or not, has its turn.
const QUIET: u32 = 8;
/// Runs the steps; `None` for a step the driver does not have.
fn play(d: &mut dyn Drive, c: &Case, alloy: bool, has_sys: bool, fresh: &mut dyn FnMut() -> JitBackend) -> Vec<String> {
    let mut out = vec![];
    let mut inspect = c.inspect;
    // Code ran, not inspected, since the backend was replaced.
    let mut replaced = None;
    let lookups = |b: &JitBackend| b.stats().lookup_hits + b.stats().lookup_misses;
    let mut asked = 0;
    for s in &c.steps {
        let mut t = String::new();
        let r: Option<Res> = match s {
            Step::Tx(x, keep) => {
                let r = d.tx(x.env(), inspect);
                if let (Ok((_, Some(st))), true) = (&r, keep) {
                    d.ctx().db_mut().commit(st.clone());
                }
                Some(r)
            }
            Step::Commit(x) => Some(d.commit_tx(x.env(), inspect)),
            Step::One(_) | Step::Finalize | Step::Replay if alloy => None,
            Step::One(x) => Some(d.one(x.env(), inspect)),
            Step::Finalize => {
                t = state_text(&d.finalize());
                None
            }
            Step::Replay => Some(d.replay()),
            Step::Sys(..) if !has_sys => None,
            Step::Sys(a, false) => d.sys(*a, inspect),
            Step::Sys(_, true) if alloy => None,
            Step::Sys(a, true) => d.sys_commit(*a),
            Step::Spec(s) => {
                d.spec(*s);
                None
            }
            Step::Block(n) => {
                d.ctx().block.number = U256::from(*n);
                None
            }
            Step::Settle => {
                if d.backend().is_some() {
                    mc::settle(QUIET);
                }
                None
            }
            Step::Clear => {
                if let Some(b) = d.backend() {
                    let _ = b.clear_resident();
                    // It may also have discarded what it was asked.
                    replaced = None;
                }
                None
            }
            Step::NewBackend => {
                if d.backend().is_some() && !alloy {
                    let b = fresh();
                    mc::settle(QUIET);
                    asked = lookups(&b);
                    d.new_backend(b);
                    replaced = Some(false);
                }
                None
            }
            Step::Inspect(on) => {
                inspect = *on;
                None
            }
        };
        match r {
            Some(Ok((r, st))) => {
                if let Some(ran) = &mut replaced {
                    *ran |= !inspect;
                }
                t += &result_text(&r);
                if let Some(st) = st {
                    t += &format!(" state {}", state_text(&st));
                }
            }
            Some(Err(e)) => t += &format!("error {e}"),
            None => {}
        }
        t += &format!(" events {:?}", std::mem::take(&mut d.rec().ev));
        if c.fail_at.is_some() {
            t += &format!(" calls {}", d.ctx().db().calls);
        }
        out.push(t);
    }
    out.push(format!("db {}", db_text(d.ctx().db())));
    if let (Some(true), Some(b)) = (replaced, d.backend()) {
        mc::settle(QUIET);
        if lookups(b) == asked {
            out.push("the backend that replaced the first one was never asked for a program".into());
        }
    }
    out
}

/// Number of database calls of the reference run, for fault placement.
pub fn db_calls(c: &Case) -> u32 {
    let mut r = Ref { evm: inner(world(&c.a, &c.b), c.spec, block(), Rec { mode: c.mode, ..Default::default() }) };
    play(&mut r, c, c.drv == Drv::Alloy, !matches!(c.drv, Drv::CtxAll | Drv::CtxA | Drv::CtxB), &mut || unreachable!());
    r.evm.ctx.db().calls
}

fn block() -> BlockEnv {
    BlockEnv { number: U256::from(1000), timestamp: U256::from(12345), gas_limit: 1 << 40, ..Default::default() }
}

/// Backends shared by the cases of one batch.
pub struct Backends {
    pub kept: std::cell::RefCell<HashMap<Drv, JitBackend>>,
    pub make: Box<dyn Fn(Drv) -> JitBackend>,
}

impl Backends {
    fn get(&self, d: Drv) -> JitBackend {
        self.kept.borrow_mut().entry(d).or_insert_with(|| (self.make)(d)).clone()
    }
}

pub fn case(c: &Case, bs: &Backends) -> Result<String, String> {
    let mut db = world(&c.a, &c.b);
    db.fail_at = c.fail_at;
    let rec = Rec { mode: c.mode, ..Default::default() };
    let alloy = c.drv == Drv::Alloy;
    let has_sys = !matches!(c.drv, Drv::CtxAll | Drv::CtxA | Drv::CtxB);
    let want = {
        let mut r = Ref { evm: inner(db.clone(), c.spec, block(), rec.clone()) };
        play(&mut r, c, alloy, has_sys, &mut || unreachable!())
    };
    let _ = irvm::take_fault();
    db.slow = c.drv == Drv::Slow;
    let got = match c.drv {
        Drv::CtxAll | Drv::CtxA | Drv::CtxB => {
            let spec = std::rc::Rc::new(std::cell::Cell::new(c.spec));
            let sp = spec.clone();
            let mut map = revm_primitives::map::B256Map::default();
            let pick = match c.drv {
                Drv::CtxA => Some(&c.a),
                Drv::CtxB => Some(&c.b),
                _ => None,
            };
            if let Some(code) = pick {
                let h = keccak256(code);
                map.insert(h, compiled(h, code, c.spec).into_inner());
            }
            let all = c.drv == Drv::CtxAll;
            let miss: Miss = Box::new(move |h, code| {
                if keccak256(code) != h {
                    mc::fail("on_miss was given a hash that is not the code's");
                }
                (all && !code.is_empty()).then(|| compiled(h, code, sp.get()))
            });
            let evm = revmc_context::JitEvm::with_on_miss(inner(db, c.spec, block(), rec), map, miss);
            play(&mut Cx { evm, spec }, c, alloy, has_sys, &mut || unreachable!())
        }
        Drv::Blocking | Drv::Warm | Drv::Slow => {
            let evm = jrt::JitEvm::new(inner(db, c.spec, block(), rec), bs.get(c.drv));
            play(&mut Rt { evm }, c, alloy, has_sys, &mut || (bs.make)(c.drv))
        }
        Drv::Off => {
            let evm = jrt::JitEvm::disabled(inner(db, c.spec, block(), rec));
            play(&mut Rt { evm }, c, alloy, has_sys, &mut JitBackend::disabled)
        }
        Drv::Alloy => {
            let mut cfg = CfgEnv::new_with_spec(c.spec);
            cfg.disable_nonce_check = true;
            let back = bs.get(Drv::Blocking);
            let evm = Al::make(db, EvmEnv { cfg_env: cfg, block_env: block() }, rec, &back);
            play(&mut Al { evm: Some(evm), back }, c, alloy, has_sys, &mut || unreachable!())
        }
    };
    if let Some(f) = irvm::take_fault() {
        return Err(format!("{}\n  {f}", show(c)));
    }
    for (i, (w, g)) in want.iter().zip(&got).enumerate() {
        if w != g {
            let at = w.bytes().zip(g.bytes()).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            let lo = at.saturating_sub(160);
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[lo.min(s.len())..(at + 240).min(s.len())]).into_owned();
            let step = c.steps.get(i).map_or("final database".to_string(), |s| format!("step {i} {s:?}"));
            return Err(format!("{}\n  {step} differs at byte {at}\n  mainnet: …{}…\n  jit:     …{}…", show(c), cut(w), cut(g)));
        }
    }
    if let Some(x) = got.get(want.len()) {
        return Err(format!("{}\n  {x}", show(c)));
    }
    Ok(want.join("|"))
}
pub fn show(c: &Case) -> String {
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    format!(
        "driver {:?} spec {:?} A={} B={} inspect={} mode={} fail_at={:?} steps={:?}",
        c.drv, c.spec, hex(&c.a), hex(&c.b), c.inspect, c.mode, c.fail_at, c.steps
    )
}

// ---------------------------------------------------------------- programs

pub fn push(v: &mut Vec<u8>, n: u64) {
    let b = n.to_be_bytes();
    let i = b.iter().position(|x| *x != 0).unwrap_or(7);
    v.push(0x5f + (8 - i) as u8);
    v.extend_from_slice(&b[i..]);
}
fn pusha(v: &mut Vec<u8>, a: Address) {
    v.push(0x73);
    v.extend_from_slice(a.as_slice());
}
/// CALL-like instruction; the success flag goes to memory word 2.
fn call(v: &mut Vec<u8>, op: u8, to: Address, value: u64, gas: Option<u64>, inlen: u64) {
    push(v, 32); // out len
    push(v, 0x60); // out off
    push(v, inlen);
    push(v, 0);
    if matches!(op, 0xf1 | 0xf2) {
        push(v, value);
    }
    pusha(v, to);
    match gas {
        Some(g) => push(v, g),
        None => v.push(0x5a),
    }
    v.push(op);
    push(v, 0x40);
    v.push(0x52);
}
/// Init code that deploys code writing storage and returning 32 bytes.
fn init() -> Vec<u8> {
    let run = [0x60, 3, 0x60, 1, 0x55, 0x60, 32, 0x60, 0, 0xf3];
    let mut v = vec![0x69];
    v.extend_from_slice(&run);
    v.extend_from_slice(&[0x60, 0, 0x52, 0x60, 10, 0x60, 22, 0xf3]);
    v
}
fn create(v: &mut Vec<u8>, two: bool, value: u64, init: &[u8]) {
    // The init code is written to memory at 0x80 word by word.
    for (i, w) in init.chunks(32).enumerate() {
        let mut b = [0u8; 32];
        b[..w.len()].copy_from_slice(w);
        v.push(0x7f);
        v.extend_from_slice(&b);
        push(v, 0x80 + 32 * i as u64);
        v.push(0x52);
    }
    if two {
        push(v, 5);
    }
    push(v, init.len() as u64);
    push(v, 0x80);
    push(v, value);
    v.push(if two { 0xf5 } else { 0xf0 });
}
pub const TOKENS: u32 = 24;
/// Tokens that call `B` (or its delegate).
pub fn reaches_b(t: u32) -> bool {
    matches!(t, 2..=6 | 17 | 18 | 21)
}
pub fn token(t: u32, cancun: bool) -> Vec<u8> {
    let mut v = vec![];
    match t {
        0 => v.extend([0x60, 0, 0x54, 0x60, 1, 0x01, 0x60, 0, 0x55]), // slot 0 += 1
        1 => v.extend([0x60, 0xab, 0x60, 0, 0x52, 0x60, 7, 0x60, 32, 0x60, 0, 0xa1]), // log1
        2 => call(&mut v, 0xf1, B, 0, None, 4),
        3 => call(&mut v, 0xf1, B, 1, None, 0),
        4 => call(&mut v, 0xf4, B, 0, None, 0),
        5 => call(&mut v, 0xf2, B, 2, None, 0),
        6 => call(&mut v, 0xfa, B, 0, None, 0),
        7 | 8 => {
            create(&mut v, t == 8, 1, &init());
            v.extend([0x60, 0x40, 0x52]);
        }
        9 => call(&mut v, 0xf1, Address::with_last_byte(4), 0, None, 32),
        10 => call(&mut v, 0xf1, N, 1, None, 0),
        11 => {
            // Recursion with one byte less of input each time.
            v.extend([0x36, 0x15]);
            let at = v.len();
            v.extend([0x60, 0, 0x57]); // patched by the assembler below
            push(&mut v, 0);
            push(&mut v, 0);
            v.extend([0x60, 1, 0x36, 0x03]);
            push(&mut v, 0);
            push(&mut v, 0);
            v.extend([0x30, 0x5a, 0xf1, 0x50]);
            v[at] = 0x60;
            let n = v.len() as u8;
            v[at + 1] = n; // relative; fixed up in `body`
            v.push(0x5b);
        }
        12 => v.extend([0x5a, 0x60, 2, 0x55]), // gas -> slot 2
        13 => v.extend([0x3d, 0x60, 0, 0x60, 0, 0x3e, 0x3d, 0x60, 0, 0xa0]), // log the return data
        14 if cancun => v.extend([0x60, 5, 0x5c, 0x60, 1, 0x01, 0x60, 5, 0x5d, 0x60, 5, 0x5c, 0x60, 3, 0x55]),
        14 => v.extend([0x60, 5, 0x54, 0x60, 1, 0x01, 0x60, 5, 0x55]),
        15 => v.extend([0x30, 0x31, 0x60, 0, 0x52]), // balance(self)
        16 => v.extend([0x60, 0, 0x60, 9, 0x55]),    // clears slot 9
        17 => call(&mut v, 0xf1, B, 0, Some(3000), 0),
        18 => call(&mut v, 0xf1, D, 1, None, 0),
        19 => v.extend([0x61, 0x04, 0, 0x51, 0x50]), // memory to 0x420
        20 => {
            // create, then call the new contract
            create(&mut v, false, 0, &init());
            for _ in 0..5 {
                push(&mut v, 0);
            }
            v.extend([0x85, 0x5a, 0xf1, 0x60, 0x40, 0x52, 0x50]);
        }
        21 => {
            // B's code through the environment
            pusha(&mut v, B);
            v.push(0x3b);
            pusha(&mut v, E);
            v.extend([0x31, 0x01, 0x60, 0, 0x52]);
        }
        22 => {
            // creation whose init code reverts with data
            create(&mut v, false, 1, &[0x60, 0xee, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xfd]);
            v.extend([0x60, 0x40, 0x52]);
        }
        23 => {
            // creation that destroys itself
            create(&mut v, false, 2, &[0x60, 0xe0, 0xff]);
            v.extend([0x60, 0x40, 0x52]);
        }
        _ => unreachable!(),
    }
    v
}
pub const ENDS: u32 = 8;
pub fn end(e: u32) -> Vec<u8> {
    match e {
        0 => vec![0x00],
        1 => vec![0x60, 0xa0, 0x60, 0, 0xf3],
        2 => vec![0x60, 0x60, 0x60, 0, 0xfd],
        3 => vec![0xfe],
        4 => vec![0x60, 0xe0, 0xff],
        5 => vec![0x30, 0xff],
        6 => vec![0x50],
        7 => vec![0x60, 0x01, 0x56],
        _ => unreachable!(),
    }
}
pub fn body(toks: &[u32], e: u32, cancun: bool) -> Vec<u8> {
    let mut v = vec![];
    for t in toks {
        let at = v.len();
        let mut x = token(*t, cancun);
        if *t == 11 {
            x[3] += at as u8;
        }
        v.extend(x);
    }
    v.extend(end(e));
    v
}

// ---------------------------------------------------------------- suites

/// A family of cases, numbered.
pub struct TxSuite {
    pub name: String,
    pub n: u64,
    /// Cases that share a backend.
    pub batch: u64,
    pub get: Box<dyn Fn(u64) -> Option<Case> + Send + Sync>,
    /// The runtime reports every failure as out of gas.
    pub single_error: bool,
}

const BG: &[Drv] = &[Drv::CtxAll, Drv::CtxA, Drv::CtxB, Drv::Blocking, Drv::Alloy];
const ALL: &[Drv] = &[Drv::CtxAll, Drv::CtxA, Drv::CtxB, Drv::Blocking, Drv::Warm, Drv::Slow, Drv::Alloy, Drv::Off];

fn cancun(s: SpecId) -> bool {
    s.is_enabled_in(SpecId::CANCUN)
}
fn tx(to: Address) -> Call {
    Call { to: Some(to), value: 3, data: Bytes::from_static(&[9, 8, 7]), gas: 1_000_000 }
}
/// Splits a case number into digits.
struct Dig(u64);
impl Dig {
    fn next(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    fn of<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.next(v.len() as u64) as usize].clone()
    }
}
fn all_specs() -> Vec<SpecId> {
    (0..=255u8).map_while(|i| SpecId::try_from_u8(i)).collect()
}

pub fn suites(prop: &str, thorough: bool) -> Vec<TxSuite> {
    let mut out: Vec<TxSuite> = vec![];
    let mut add = |name: &str, n: u64, get: Box<dyn Fn(u64) -> Option<Case> + Send + Sync>| {
        out.push(TxSuite { name: name.into(), n, batch: if name == "tx-history" { 1 } else { 64 }, get, single_error: name.ends_with("-single") })
    };
    let p12 = prop == "P12";
    let tl = TOKENS as u64;
    let el = ENDS as u64;
    let modes: Vec<u8> = if p12 { vec![0, 1, 2, 3] } else { vec![0] };
    let some: Vec<SpecId> = vec![SpecId::FRONTIER, SpecId::TANGERINE, SpecId::BYZANTIUM, SpecId::LONDON, SpecId::CANCUN, SpecId::PRAGUE, SpecId::AMSTERDAM];
    let few = vec![SpecId::TANGERINE, SpecId::LONDON, SpecId::CANCUN, SpecId::AMSTERDAM];
    let specs = if thorough { all_specs() } else if p12 { few } else { some.clone() };
    // One token in A, one in B, all ends.
    {
        let (specs, modes) = (specs.clone(), modes.clone());
        let drvs = if thorough { ALL } else { BG };
        let n = drvs.len() as u64 * specs.len() as u64 * tl * el * tl * el * modes.len() as u64;
        add("tx-nested", n, Box::new(move |i| {
            let mut d = Dig(i);
            let (drv, spec, mode) = (d.of(drvs), d.of(&specs), d.of(&modes));
            let (ta, ea, tb, eb) = (d.next(tl) as u32, d.next(el) as u32, d.next(tl) as u32, d.next(el) as u32);
            // B's code matters only if A runs it; what A does after the call only matters a little.
            if !reaches_b(ta) && (tb, eb) != (0, 0) {
                return None;
            }
            if !thorough && reaches_b(ta) && ea > 2 && eb > 0 {
                return None;
            }
            // Unbounded mutual recursion is cut by gas alone: expensive and dull.
            if reaches_b(tb) && !thorough && eb > 2 {
                return None;
            }
            let c = cancun(spec);
            Some(Case { drv, spec, a: body(&[ta], ea, c), b: body(&[if reaches_b(tb) { 12 } else { tb }], eb, c),
                steps: vec![Step::Tx(tx(A), true)], inspect: p12, mode, fail_at: None })
        }));
    }
    // Two or three tokens in A, a few Bs.
    for (name, len) in [("tx-pairs", 2u32), ("tx-triples", 3)] {
        if len == 3 && !thorough {
            continue;
        }
        let modes = modes.clone();
        let drvs: &'static [Drv] = if p12 { &[Drv::CtxAll, Drv::Blocking, Drv::CtxB] } else if len == 3 { &[Drv::CtxAll, Drv::Blocking] } else { BG };
        let sp: Vec<SpecId> = if len == 3 { vec![SpecId::CANCUN] } else { vec![SpecId::BYZANTIUM, SpecId::CANCUN, SpecId::AMSTERDAM] };
        let bs: &'static [(u32, u32)] = &[(0, 1), (1, 2), (16, 4), (12, 3)];
        let ends: &'static [u32] = if len == 3 { &[1] } else { &[1, 2, 4, 3] };
        let n = drvs.len() as u64 * sp.len() as u64 * modes.len() as u64 * ends.len() as u64 * bs.len() as u64 * tl.pow(len);
        add(name, n, Box::new(move |i| {
            let mut d = Dig(i);
            let (drv, spec, mode, e, b) = (d.of(drvs), d.of(&sp), d.of(&modes), d.of(ends), d.of(bs));
            let t: Vec<u32> = (0..len).map(|_| d.next(tl) as u32).collect();
            if !t.iter().any(|t| reaches_b(*t)) && b != bs[0] {
                return None;
            }
            // Interfering inspectors only matter if there is a child frame.
            if mode > 0 && !t.iter().any(|t| matches!(t, 2..=11 | 17 | 18 | 20 | 22 | 23)) {
                return None;
            }
            let c = cancun(spec);
            Some(Case { drv, spec, a: body(&t, e, c), b: body(&[b.0], b.1, c), steps: vec![Step::Tx(tx(A), true)], inspect: p12, mode, fail_at: None })
        }));
    }
    // Kinds of transaction x gas limits x hardforks.
    {
        let modes = modes.clone();
        let specs = all_specs();
        let gases: Vec<u64> = vec![20_000, 21_100, 22_500, 30_000, 45_000, 53_100, 60_000, 90_000, 200_000, 16_000_000, 40_000_000];
        let pairs: &'static [(u32, u32)] = &[(2, 0), (4, 1), (7, 1), (8, 2), (12, 0), (18, 4), (20, 1), (14, 5), (3, 3)];
        let n = ALL.len() as u64 * specs.len() as u64 * gases.len() as u64 * pairs.len() as u64 * 6 * modes.len() as u64;
        add("tx-kinds", n, Box::new(move |i| {
            let mut d = Dig(i);
            let (drv, spec, gas, (t, e), mode) = (d.of(ALL), d.of(&specs), d.of(&gases), d.of(pairs), d.of(&modes));
            let kind = d.next(6);
            if !thorough && (i / 7) % 4 != 0 && !matches!(spec, SpecId::CANCUN | SpecId::HOMESTEAD) {
                return None;
            }
            let c = cancun(spec);
            let a = body(&[t], e, c);
            let call = |to, value, data: &[u8]| Call { to, value, data: Bytes::copy_from_slice(data), gas };
            let step = match kind {
                0 => Step::Tx(call(Some(A), 0, &[]), true),
                1 => Step::Commit(call(Some(D), 2, &[1])),
                2 => Step::Commit(call(None, 1, &a)),
                3 => Step::Tx(call(None, 0, &init()), true),
                4 => Step::Sys(A, false),
                _ => Step::Sys(B, true),
            };
            Some(Case { drv, spec, a: a.clone(), b: body(&[0, 1], 1, c), steps: vec![step, Step::Commit(call(Some(A), 0, &[1]))], inspect: p12, mode, fail_at: None })
        }));
    }
    // Histories on one EVM.
    {
        let depth = if thorough { 5 } else { 4 };
        let alpha: Vec<Step> = vec![
            Step::Commit(tx(A)), Step::Tx(tx(A), false), Step::One(tx(A)), Step::Finalize, Step::Replay, Step::Sys(A, true),
            Step::Spec(SpecId::TANGERINE), Step::Spec(SpecId::PRAGUE), Step::Spec(SpecId::CANCUN), Step::Block(77), Step::Settle, Step::Clear, Step::NewBackend, Step::Inspect(true), Step::Inspect(false),
        ];
        let drvs: &'static [Drv] = &[Drv::Warm, Drv::Blocking, Drv::Slow, Drv::CtxAll, Drv::Alloy];
        let n = drvs.len() as u64 * (alpha.len() as u64).pow(depth);
        add("tx-history", n, Box::new(move |i| {
            let mut d = Dig(i);
            let drv = d.of(drvs);
            let ctx = drv == Drv::CtxAll;
            let steps: Vec<Step> = (0..depth).map(|_| d.of(&alpha)).collect();
            let runs = |s: &Step| matches!(s, Step::Commit(_) | Step::Tx(..) | Step::One(_) | Step::Replay | Step::Sys(..));
            if !runs(steps.last().unwrap()) || steps.windows(2).any(|w| w[0] == w[1] && !runs(&w[0])) {
                return None;
            }
            // Steps the driver does not have.
            if steps.iter().any(|s| match s {
                Step::One(_) | Step::Finalize | Step::Replay => drv == Drv::Alloy,
                Step::Sys(_, k) => ctx || (drv == Drv::Alloy && *k),
                Step::Settle | Step::Clear => ctx,
                Step::NewBackend => ctx || drv == Drv::Alloy,
                Step::Inspect(_) => !p12,
                _ => false,
            }) {
                return None;
            }
            // The journal must be finalized before the hardfork changes; a replay needs a transaction.
            let (mut open, mut seen) = (false, false);
            for s in &steps {
                match s {
                    Step::One(_) => open = true,
                    Step::Finalize | Step::Commit(_) | Step::Tx(..) | Step::Replay => open = false,
                    Step::Spec(_) if open => return None,
                    Step::Sys(..) if open => return None,
                    _ => {}
                }
                if matches!(s, Step::Replay) && !seen {
                    return None;
                }
                seen |= matches!(s, Step::Commit(_) | Step::Tx(..) | Step::One(_));
            }
            Some(Case { drv, spec: SpecId::CANCUN, a: body(&[2, 0, 12, 1], 1, false), b: body(&[0, 21, 12], 1, false), steps, inspect: false, mode: 0, fail_at: None })
        }));
    }
    // A backend that is replaced is not asked any more, and nothing it gave is used.
    {
        let depth = 4;
        let alpha: Vec<Step> =
            vec![Step::Commit(tx(A)), Step::Tx(tx(A), false), Step::Settle, Step::Spec(SpecId::PRAGUE), Step::NewBackend, Step::Inspect(true), Step::Inspect(false)];
        let drvs: &'static [Drv] = &[Drv::Warm, Drv::Blocking, Drv::Slow];
        let n = drvs.len() as u64 * (alpha.len() as u64).pow(depth);
        add("tx-replace", n, Box::new(move |i| {
            let mut d = Dig(i);
            let drv = d.of(drvs);
            let steps: Vec<Step> = (0..depth).map(|_| d.of(&alpha)).collect();
            if !steps.contains(&Step::NewBackend) || (!p12 && steps.iter().any(|s| matches!(s, Step::Inspect(_)))) {
                return None;
            }
            // One contract that calls nothing.
            Some(Case { drv, spec: SpecId::CANCUN, a: body(&[0], 1, false), b: body(&[0], 1, false), steps, inspect: false, mode: 0, fail_at: None })
        }));
    }
    // Every failing database access.
    {
        let specs: Vec<SpecId> = vec![SpecId::HOMESTEAD, SpecId::CANCUN, SpecId::PRAGUE];
        let drvs: &'static [Drv] = &[Drv::CtxAll, Drv::Blocking, Drv::Alloy];
        let max = 24u64;
        let n = drvs.len() as u64 * specs.len() as u64 * max * tl * tl;
        add("tx-dbfault", n, Box::new(move |i| {
            let mut d = Dig(i);
            let (drv, spec, at) = (d.of(drvs), d.of(&specs), d.next(max) as u32 + 1);
            let (t, u) = (d.next(tl) as u32, d.next(tl) as u32);
            if (!thorough && u != 0 && t != 2) || t == 17 || u == 17 {
                return None;
            }
            let c = cancun(spec);
            let case = Case { drv, spec, a: body(&[t, u], 1, c), b: body(&[0, 21], 1, c), steps: vec![Step::Tx(tx(A), true), Step::Tx(tx(A), true)], inspect: p12, mode: 0, fail_at: Some(at) };
            Some(case)
        }));
    }
    // As configured by default: one failure code.
    if !p12 {
        let specs = specs.clone();
        let drvs: &'static [Drv] = &[Drv::Blocking, Drv::Alloy];
        let n = drvs.len() as u64 * specs.len() as u64 * tl * el * 4;
        add("tx-single", n, Box::new(move |i| {
            let mut d = Dig(i);
            let (drv, spec) = (d.of(drvs), d.of(&specs));
            let (t, e) = (d.next(tl) as u32, d.next(el) as u32);
            let (tb, eb) = d.of(&[(0, 1), (1, 3), (16, 6), (7, 7)]);
            let c = cancun(spec);
            Some(Case { drv, spec, a: body(&[t], e, c), b: body(&[tb], eb, c), steps: vec![Step::Tx(tx(A), true), Step::Commit(tx(A))], inspect: false, mode: 0, fail_at: None })
        }));
    }
    out
}

pub fn batch(s: &TxSuite, k: u64, seen: &mut dyn FnMut(u64, &Case, String)) -> Result<(), String> {
    let single = s.single_error;
    let make = move |d: Drv| {
        let cfg = crate::world::Cfg {
            blocking: d == Drv::Blocking,
            threshold: 1,
            max_len: 24 * 1024,
            max_pending: 256,
            queue: 256,
            channel: 256,
            ..Default::default()
        };
        let mut c = cfg.build(None, Default::default());
        c.single_error = single;
        JitBackend::new(c).unwrap()
    };
    let bs = Backends { kept: Default::default(), make: Box::new(make) };
    for i in k * s.batch..((k + 1) * s.batch).min(s.n) {
        if let Some(c) = (s.get)(i) {
            let o = case(&c, &bs).map_err(|e| format!("case {i}: {e}"))?;
            seen(i, &c, o);
        }
    }
    Ok(())
}
