//! One execution on both sides and the comparison.

use crate::host::*;
use alloy_primitives::{Address, Bytes, U256};
use irvm::IrvmBackend;
use revm_bytecode::Bytecode;
use revm_interpreter::{
    CallInput, FrameInput, Gas, InputsImpl, InstructionResult, Interpreter, InterpreterAction,
    InterpreterResult, SharedMemory,
    instructions::{GasTable, InstructionTable, gas_table_spec, instruction_table},
    interpreter::{EthInterpreter, ExtBytecode},
    interpreter_types::ReturnData,
};
use revm_primitives::hardfork::SpecId;
use revmc_codegen::EvmCompiler;
use revmc_context::EvmCompilerFn;
use std::{
    cell::RefCell,
    collections::HashMap,
    hash::{Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    rc::Rc,
};

/// Compiler settings.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub inspect_stack: bool,
    pub dedup: bool,
    pub dse: bool,
    pub single_error: bool,
    pub gas_metering: bool,
    pub debug_assertions: bool,
    /// Compile-time budget for abstract interpretation.
    pub compiler_gas_limit: Option<u64>,
    /// Use the non-standard gas schedule [`custom_gas_params`].
    pub custom_gas: bool,
    /// Check the stack's bounds; without, only runs that do not fail are defined.
    pub bound_checks: bool,
}
impl Cfg {
    /// What the runtime uses.
    pub const PROD: Cfg = Cfg {
        inspect_stack: false,
        dedup: true,
        dse: true,
        single_error: true,
        gas_metering: true,
        debug_assertions: false,
        compiler_gas_limit: None,
        custom_gas: false,
        bound_checks: true,
    };
    pub const INSPECT: Cfg = Cfg { inspect_stack: true, single_error: false, debug_assertions: true, ..Cfg::PROD };
    pub const NOOPT: Cfg =
        Cfg { dedup: false, dse: false, inspect_stack: true, ..Cfg::PROD };
    pub fn encode(&self) -> String {
        format!(
            "{}{}{}{}{}{}{}{}:{}",
            self.inspect_stack as u8,
            self.dedup as u8,
            self.dse as u8,
            self.single_error as u8,
            self.gas_metering as u8,
            self.debug_assertions as u8,
            self.custom_gas as u8,
            self.bound_checks as u8,
            self.compiler_gas_limit.map(|x| x.to_string()).unwrap_or("-".into())
        )
    }
    pub fn decode(s: &str) -> Cfg {
        let (f, l) = s.split_once(':').unwrap();
        let b: Vec<bool> = f.bytes().map(|c| c == b'1').collect();
        Cfg {
            inspect_stack: b[0],
            dedup: b[1],
            dse: b[2],
            single_error: b[3],
            gas_metering: b[4],
            debug_assertions: b[5],
            custom_gas: b[6],
            bound_checks: b.get(7).copied().unwrap_or(true),
            compiler_gas_limit: if l == "-" { None } else { Some(l.parse().unwrap()) },
        }
    }
}

/// What a child frame does when the program suspends.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Child {
    /// Success, with this many output bytes.
    Ok(u8),
    Revert(u8),
    Halt,
}

/// One execution environment.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Env {
    pub gas: u64,
    pub is_static: bool,
    pub calldata: Rc<[u8]>,
    /// Run in a nested memory context, with calldata in the parent's memory.
    pub nested: bool,
    /// Outcomes of children, in order; the last one repeats.
    pub children: Rc<[Child]>,
    /// The chain uses the non-standard gas schedule.
    pub custom_gas: bool,
    /// State gas handed to the frame besides its gas limit (EIP-8037).
    pub reservoir: u64,
    /// Variations of the chain: [`WIDE`], [`TOGGLE_8037`]; the other bits say how many words are on the
    /// stack at the start ([`entry`]).
    pub chain: u8,
}
/// Environment values that use all of their bits.
pub const WIDE: u8 = 1;
/// State gas is switched on or off against the hardfork's default.
pub const TOGGLE_8037: u8 = 2;
/// The bits of `chain` for a stack of `n` words at the start.
pub fn entry(n: usize) -> u8 {
    (if n <= 40 { n } else { n + 63 - 1024 } as u8) << 2
}
fn at_entry(chain: u8) -> usize {
    let n = (chain >> 2) as usize;
    if n <= 40 { n } else { n + 1024 - 63 }
}
pub const AMPLE: u64 = 30_000_000;
impl Default for Env {
    fn default() -> Self {
        Env {
            gas: AMPLE,
            is_static: false,
            calldata: Rc::from(&[][..]),
            nested: false,
            children: Rc::from(&[Child::Ok(40)][..]),
            custom_gas: false,
            reservoir: 0,
            chain: 0,
        }
    }
}
impl Env {
    pub fn cd(data: &[u8]) -> Self {
        Env { calldata: Rc::from(data), ..Default::default() }
    }
    pub fn encode(&self) -> String {
        let ch: Vec<String> = self
            .children
            .iter()
            .map(|c| match c {
                Child::Ok(n) => format!("o{n}"),
                Child::Revert(n) => format!("r{n}"),
                Child::Halt => "h".into(),
            })
            .collect();
        format!(
            "{},{},{},{},{},{},{},{}",
            self.gas,
            self.is_static as u8,
            self.nested as u8,
            ch.join("/"),
            alloy_primitives::hex::encode(&self.calldata),
            self.custom_gas as u8,
            self.reservoir,
            self.chain
        )
    }
    pub fn decode(s: &str) -> Env {
        let p: Vec<&str> = s.split(',').collect();
        let ch: Vec<Child> = p[3]
            .split('/')
            .filter(|x| !x.is_empty())
            .map(|x| match x.as_bytes()[0] {
                b'o' => Child::Ok(x[1..].parse().unwrap()),
                b'r' => Child::Revert(x[1..].parse().unwrap()),
                _ => Child::Halt,
            })
            .collect();
        Env {
            gas: p[0].parse().unwrap(),
            is_static: p[1] == "1",
            nested: p[2] == "1",
            children: ch.into(),
            calldata: alloy_primitives::hex::decode(p[4]).unwrap().into(),
            custom_gas: p.get(5) == Some(&"1"),
            reservoir: p.get(6).map(|x| x.parse().unwrap()).unwrap_or(0),
            chain: p.get(7).map(|x| x.parse().unwrap()).unwrap_or(0),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Call {
        input: Vec<u8>,
        ret: std::ops::Range<usize>,
        gas: u64,
        reservoir: u64,
        code_addr: Address,
        target: Address,
        caller: Address,
        value: String,
        scheme: String,
        is_static: bool,
        charged: bool,
        known: Vec<u8>,
    },
    Create { caller: Address, scheme: String, value: U256, init: Bytes, gas: u64, reservoir: u64 },
}

/// State visible when the program suspends.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Susp {
    pub event: Event,
    pub stack: Vec<U256>,
    pub memory: Vec<u8>,
    pub gas: (u64, i64, u64, i64),
    pub world: World,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub susp: Vec<Susp>,
    pub result: InstructionResult,
    pub output: Bytes,
    pub gas: (u64, i64, u64, i64),
    pub ret_gas: (u64, i64, u64, i64),
    pub stack: Vec<U256>,
    pub memory: Vec<u8>,
    pub parent_memory: Vec<u8>,
    pub world: World,
    pub accesses: u64,
}
impl Outcome {
    pub fn spent(&self, env: &Env) -> u64 {
        env.gas - self.gas.0.min(env.gas)
    }
    pub fn signature(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (self.result as u8).hash(&mut h);
        self.susp.len().hash(&mut h);
        if !self.result.is_halt() {
            self.output.hash(&mut h);
            self.gas.hash(&mut h);
            self.stack.hash(&mut h);
            self.memory.hash(&mut h);
            self.world.storage.hash(&mut h);
            self.world.logs.len().hash(&mut h);
        }
        h.finish()
    }
}

fn gas_view(g: &Gas) -> (u64, i64, u64, i64) {
    (g.remaining(), g.refunded(), g.reservoir(), g.state_gas_spent())
}

const PARENT: usize = 96;

fn make_interp(code: &Bytecode, spec: SpecId, env: &Env) -> (Interpreter, SharedMemory) {
    // A zero-capacity buffer: every expansion reallocates.
    let mut mem = SharedMemory::new_with_buffer(Rc::new(RefCell::new(Vec::new())));
    let (memory, input) = if env.nested {
        mem.resize(PARENT + env.calldata.len());
        {
            let mut m = mem.context_memory_mut();
            for (i, b) in m.iter_mut().enumerate() {
                *b = 0xE0 | (i as u8 & 0xf);
            }
            m[PARENT..].copy_from_slice(&env.calldata);
        }
        let child = mem.new_child_context();
        (child, CallInput::SharedBuffer(PARENT..PARENT + env.calldata.len()))
    } else {
        (mem.clone(), CallInput::Bytes(Bytes::copy_from_slice(&env.calldata)))
    };
    let inputs = InputsImpl {
        target_address: SELF,
        bytecode_address: None,
        caller_address: CALLER,
        input,
        call_value: if env.chain & WIDE != 0 { U256::from_be_bytes(core::array::from_fn::<u8, 32, _>(|i| 0xc1 ^ (i as u8 * 7))) } else { U256::from(123_456_789u64) },
    };
    let mut it = Interpreter::new(
        memory,
        ExtBytecode::new(code.clone()),
        inputs,
        env.is_static,
        spec,
        env.gas,
    );
    if env.reservoir != 0 {
        it.gas = Gas::new_with_regular_gas_and_reservoir(env.gas, env.reservoir);
    }
    // Return data of an earlier call, as after resumption.
    it.return_data.set_buffer(Bytes::new());
    for i in 0..at_entry(env.chain) {
        let _ = it.stack.push(U256::from(7 * i + 1) << (i % 3 * 100));
    }
    (it, mem)
}

pub fn out_pattern(n: u8, salt: u8) -> Bytes {
    // 255 stands for an output that needs more than 16 bits of length.
    let n = if n == 255 { 70_000 } else { n as u32 };
    (0..n).map(|i| i as u8).map(|i| i.wrapping_mul(3).wrapping_add(0x50 + salt)).collect::<Vec<u8>>().into()
}

/// Applies a child's outcome, exactly like the frame handler does.
fn apply_child(it: &mut Interpreter, ev: &InterpreterAction, child: Child, salt: u8) {
    let (limit, reservoir) = match ev {
        InterpreterAction::NewFrame(FrameInput::Call(c)) => (c.gas_limit, c.reservoir),
        InterpreterAction::NewFrame(FrameInput::Create(c)) => (c.gas_limit(), c.reservoir()),
        _ => (0, 0),
    };
    let (res, out) = match child {
        Child::Ok(n) => (InstructionResult::Return, out_pattern(n, salt)),
        Child::Revert(n) => (InstructionResult::Revert, out_pattern(n, salt ^ 0x80)),
        Child::Halt => (InstructionResult::OutOfGas, Bytes::new()),
    };
    let mut g = Gas::new_with_regular_gas_and_reservoir(limit, reservoir);
    let _ = g.record_regular_cost(limit / 3);
    if res.is_ok() {
        g.record_refund(17);
    }
    if res.is_halt() {
        g.spend_all();
    }
    match ev {
        InterpreterAction::NewFrame(FrameInput::Call(c)) => {
            let range = c.return_memory_offset.clone();
            let target = range.len().min(out.len());
            it.return_data.set_buffer(out);
            let _ = it.stack.push(U256::from(res.is_ok() as u64));
            if res.is_ok_or_revert() {
                it.gas.erase_cost(g.remaining());
                if target > 0 {
                    let b = it.return_data.buffer()[..target].to_vec();
                    it.memory.set(range.start, &b);
                }
            }
        }
        InterpreterAction::NewFrame(FrameInput::Create(_)) => {
            if res == InstructionResult::Revert {
                it.return_data.set_buffer(out);
            } else {
                it.return_data.clear();
            }
            if res.is_ok_or_revert() {
                it.gas.erase_cost(g.remaining());
            }
            let item = if res.is_ok() {
                Address::repeat_byte(0xc0 | salt).into_word().into()
            } else {
                U256::ZERO
            };
            let _ = it.stack.push(item);
        }
        _ => {}
    }
    revm_handler::handle_reservoir_remaining_gas(res, &mut it.gas, &g);
    if res.is_ok() {
        it.gas.record_refund(g.refunded());
    }
}

fn make_event(it: &Interpreter, a: &InterpreterAction) -> Option<Event> {
    match a {
        InterpreterAction::NewFrame(FrameInput::Call(c)) => {
            let input = match &c.input {
                CallInput::Bytes(b) => b.to_vec(),
                CallInput::SharedBuffer(r) if r.is_empty() => vec![],
                CallInput::SharedBuffer(r) => it.memory.global_slice_range(r.clone()).to_vec(),
            };
            Some(Event::Call {
                input,
                ret: c.return_memory_offset.clone(),
                gas: c.gas_limit,
                reservoir: c.reservoir,
                code_addr: c.bytecode_address,
                target: c.target_address,
                caller: c.caller,
                value: format!("{:?}", c.value),
                scheme: format!("{:?}", c.scheme),
                is_static: c.is_static,
                charged: c.charged_new_account_state_gas,
                known: c.known_bytecode.1.original_byte_slice().to_vec(),
            })
        }
        InterpreterAction::NewFrame(FrameInput::Create(c)) => Some(Event::Create {
            caller: c.caller(),
            scheme: format!("{:?}", c.scheme()),
            value: c.value(),
            init: c.init_code().clone(),
            gas: c.gas_limit(),
            reservoir: c.reservoir(),
        }),
        _ => None,
    }
}

const MAX_SUSP: usize = 12;

fn drive(
    code: &Bytecode,
    spec: SpecId,
    env: &Env,
    mut step: impl FnMut(&mut Interpreter, &mut MHost) -> InterpreterAction,
) -> Outcome {
    let (mut it, parent) = make_interp(code, spec, env);
    let mut host = MHost::new(spec);
    if env.custom_gas {
        host.gas_params = custom_gas_params(spec);
    }
    host.wide = env.chain & WIDE != 0;
    host.eip8037 ^= env.chain & TOGGLE_8037 != 0;
    let mut susp = vec![];
    loop {
        let a = step(&mut it, &mut host);
        if let Some(event) = make_event(&it, &a)
            && susp.len() < MAX_SUSP
        {
            let n = susp.len();
            susp.push(Susp {
                event,
                stack: it.stack.data().to_vec(),
                memory: it.memory.context_memory().to_vec(),
                gas: gas_view(&it.gas),
                world: host.w.clone(),
            });
            let child = *env.children.get(n).or(env.children.last()).unwrap_or(&Child::Ok(0));
            apply_child(&mut it, &a, child, n as u8);
            continue;
        }
        let (result, output, rg) = match a {
            InterpreterAction::Return(InterpreterResult { result, output, gas }) => {
                (result, output, gas)
            }
            // Suspension budget exhausted: stop both sides here.
            _ => (InstructionResult::Stop, Bytes::new(), it.gas),
        };
        return Outcome {
            susp,
            result,
            output,
            gas: gas_view(&it.gas),
            ret_gas: gas_view(&rg),
            stack: it.stack.data().to_vec(),
            memory: it.memory.context_memory().to_vec(),
            parent_memory: if env.nested {
                parent.context_memory()[..PARENT + env.calldata.len()].to_vec()
            } else {
                vec![]
            },
            world: host.w,
            accesses: host.accesses,
        };
    }
}

thread_local! {
    static TABLES: RefCell<HashMap<u8, Rc<(InstructionTable<EthInterpreter, MHost>, GasTable)>>> = RefCell::new(HashMap::new());
}

fn tables(spec: SpecId) -> Rc<(InstructionTable<EthInterpreter, MHost>, GasTable)> {
    TABLES.with(|t| {
        t.borrow_mut()
            .entry(spec as u8)
            .or_insert_with(|| {
                Rc::new((instruction_table::<EthInterpreter, MHost>(), gas_table_spec(spec)))
            })
            .clone()
    })
}

pub fn run_interp(code: &Bytecode, spec: SpecId, env: &Env) -> Outcome {
    let t = tables(spec);
    drive(code, spec, env, |it, host| it.run_plain(&t.0, &t.1, host))
}

pub fn run_compiled(f: EvmCompilerFn, code: &Bytecode, spec: SpecId, env: &Env) -> Outcome {
    drive(code, spec, env, |it, host| unsafe { f.call_with_interpreter(it, host) })
}

pub struct Compiler {
    c: EvmCompiler<IrvmBackend>,
    n: u64,
    last: Option<Cfg>,
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

impl Default for Compiler {
    fn default() -> Self {
        Self::new()
    }
}

impl Compiler {
    pub fn new() -> Self {
        Self { c: EvmCompiler::new(IrvmBackend::new(false)), n: 0, last: None }
    }
    pub fn apply(c: &mut EvmCompiler<IrvmBackend>, cfg: &Cfg, spec: SpecId) {
        if cfg.custom_gas {
            c.set_gas_params((*custom_gas_params(spec)).clone());
        }
        c.inspect_stack(cfg.inspect_stack);
        c.gas_metering(cfg.gas_metering);
        c.single_error(cfg.single_error);
        c.set_dedup(cfg.dedup);
        c.set_dse(cfg.dse);
        c.debug_assertions(cfg.debug_assertions);
        // Without the checks, only runs that the interpreter completes are compared.
        unsafe { c.stack_bound_checks(cfg.bound_checks) };
        if let Some(l) = cfg.compiler_gas_limit {
            c.set_compiler_gas_limit(l);
        }
    }
    /// Compiles one program; earlier functions of this instance are dropped.
    pub fn compile(&mut self, code: &[u8], spec: SpecId, cfg: &Cfg) -> Result<EvmCompilerFn, String> {
        self.n += 1;
        let r = catch_unwind(AssertUnwindSafe(|| {
            if self.last.as_ref() != Some(cfg) || cfg.custom_gas {
                self.c = EvmCompiler::new(IrvmBackend::new(false));
                Self::apply(&mut self.c, cfg, spec);
                self.last = Some(*cfg);
            } else {
                unsafe { self.c.clear() }.map_err(|e| format!("clear failed: {e}"))?;
            }
            unsafe { self.c.jit("f", code, spec) }.map_err(|e| format!("compile error: {e}"))
        }));
        match r {
            Ok(Ok(f)) => Ok(f),
            Ok(Err(e)) => {
                *self = Self::new();
                Err(e)
            }
            Err(p) => {
                *self = Self::new();
                Err(format!("compile panic: {}", panic_msg(p)))
            }
        }
    }
}

/// Which observations a check judges.
#[derive(Clone, Copy, Debug)]
pub struct Aspects {
    pub gas: bool,
    /// Everything other than gas.
    pub effects: bool,
}

fn show<T: std::fmt::Debug>(what: &str, a: T, b: T) -> String {
    let t = |x: String| if x.len() > 600 { format!("{}…", &x[..600]) } else { x };
    format!("{what}: interpreter {} vs compiled {}", t(format!("{a:?}")), t(format!("{b:?}")))
}

/// `Ok(())` when the compiled outcome `c` refines the interpreter outcome `i`.
pub fn compare(i: &Outcome, c: &Outcome, cfg: &Cfg, asp: Aspects) -> Result<(), String> {
    let cmp_gas = asp.gas && cfg.gas_metering;
    // A failed database access must surface as such, never as an ordinary halt, and vice versa.
    let fatal = |r| r == InstructionResult::FatalExternalError;
    if fatal(i.result) != fatal(c.result) && !(c.result.is_halt() && i.result.is_halt() && fatal(i.result) && early(c.result)) {
        return Err(show("result", i.result, c.result));
    }
    let halt = i.result.is_halt();
    if halt != c.result.is_halt() {
        return Err(show("result", i.result, c.result));
    }
    // Suspensions.
    let n = i.susp.len().min(c.susp.len());
    for k in 0..n {
        let (a, b) = (&i.susp[k], &c.susp[k]);
        if asp.effects {
            if strip(&a.event) != strip(&b.event) {
                return Err(show(&format!("suspension {k} request"), &a.event, &b.event));
            }
            if a.stack != b.stack {
                return Err(show(&format!("suspension {k} stack"), &a.stack, &b.stack));
            }
            if a.memory != b.memory {
                return Err(show(&format!("suspension {k} memory"), &a.memory, &b.memory));
            }
            if effects(&a.world) != effects(&b.world) {
                return Err(show(&format!("suspension {k} world"), &a.world, &b.world));
            }
        }
        if cmp_gas {
            if event_gas(&a.event) != event_gas(&b.event) {
                return Err(show(&format!("suspension {k} child gas"), &a.event, &b.event));
            }
            if a.gas != b.gas {
                return Err(show(&format!("suspension {k} gas"), a.gas, b.gas));
            }
            if (&a.world.warm, &a.world.warm_slots) != (&b.world.warm, &b.world.warm_slots) {
                return Err(show(&format!("suspension {k} access lists"), &a.world, &b.world));
            }
        }
    }
    if halt {
        // A halt consumes everything and reverts the frame; sections may fail earlier, but never
        // later, than the interpreter.
        if c.susp.len() > i.susp.len() {
            return Err(format!(
                "compiled code made {} child requests, the interpreter only {}",
                c.susp.len(),
                i.susp.len()
            ));
        }
        // Only failures of whole sections, and of opcodes which the hard fork lacks (whose price is
        // not charged first), come early: any other is the interpreter's.
        let undefined = matches!(c.result, InstructionResult::NotActivated | InstructionResult::OpcodeNotFound);
        if !cfg.single_error && cfg.gas_metering && !early(c.result) && !undefined && i.result != c.result {
            return Err(show("result", i.result, c.result));
        }
        // With ample gas left, no section can have run out of it.
        if !cfg.single_error && i.result != c.result && i.gas.0 > AMPLE / 2 && c.result == InstructionResult::OutOfGas {
            return Err(show("result", i.result, c.result));
        }
        // Running out of gas leaves nothing to give back.
        if cmp_gas && c.result == InstructionResult::OutOfGas && (c.gas.0, c.ret_gas.0) != (0, 0) {
            return Err(format!("out of gas with {} gas left, {} given back", c.gas.0, c.ret_gas.0));
        }
        return Ok(());
    }
    if i.susp.len() != c.susp.len() {
        return Err(format!("child requests: interpreter {} vs compiled {}", i.susp.len(), c.susp.len()));
    }
    if i.result != c.result {
        return Err(show("result", i.result, c.result));
    }
    if asp.effects {
        if i.output != c.output {
            return Err(show("output", &i.output, &c.output));
        }
        // The stack is stored at every exit that is not a failure.
        if cfg.inspect_stack && !i.result.is_error() && i.stack != c.stack {
            return Err(show("stack", &i.stack, &c.stack));
        }
        if i.memory != c.memory {
            return Err(show("memory", &i.memory, &c.memory));
        }
        if i.parent_memory != c.parent_memory {
            return Err(show("caller's memory", &i.parent_memory, &c.parent_memory));
        }
        if effects(&i.world) != effects(&c.world) {
            return Err(show("world", &i.world, &c.world));
        }
    }
    if cmp_gas {
        if i.gas != c.gas {
            return Err(show("gas (remaining, refund, reservoir, state)", i.gas, c.gas));
        }
        if i.ret_gas != c.ret_gas {
            return Err(show("returned gas", i.ret_gas, c.ret_gas));
        }
        if (&i.world.warm, &i.world.warm_slots) != (&c.world.warm, &c.world.warm_slots) {
            return Err(show("access lists", &i.world, &c.world));
        }
    }
    Ok(())
}

/// Failures that section-level checks may raise before the interpreter reaches the failing access.
fn early(r: InstructionResult) -> bool {
    use InstructionResult::*;
    matches!(r, OutOfGas | MemoryOOG | InvalidOperandOOG | StackOverflow | StackUnderflow)
}
fn effects(w: &World) -> (Vec<(U256, U256)>, Vec<(U256, U256)>, &Vec<alloy_primitives::Log>, &Vec<(Address, Address)>) {
    (
        w.storage.iter().filter(|(_, v)| v.0 != v.1).map(|(k, v)| (*k, v.1)).collect(),
        w.transient.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (*k, *v)).collect(),
        &w.logs,
        &w.selfdestructs,
    )
}
fn strip(e: &Event) -> Event {
    let mut e = e.clone();
    match &mut e {
        Event::Call { gas, reservoir, known, charged, ret, .. } => {
            *gas = 0;
            *reservoir = 0;
            *charged = false;
            known.clear();
            if ret.is_empty() {
                *ret = 0..0;
            }
        }
        Event::Create { gas, reservoir, .. } => {
            *gas = 0;
            *reservoir = 0;
        }
    }
    e
}
fn event_gas(e: &Event) -> (u64, u64, bool) {
    match e {
        Event::Call { gas, reservoir, charged, .. } => (*gas, *reservoir, *charged),
        Event::Create { gas, reservoir, .. } => (*gas, *reservoir, false),
    }
}

/// The gas spent before and after every instruction the interpreter executes with ample gas, with
/// the number of instructions.
pub fn step_gas(code: &Bytecode, spec: SpecId, env: &Env) -> (Vec<u64>, usize) {
    let t = tables(spec);
    let mut v = vec![];
    let mut steps = 0;
    const MAX: usize = 64;
    let big = Env { gas: env.gas.max(AMPLE), ..env.clone() };
    drive(code, spec, &big, |it, host| {
        let e = loop {
            let r = it.step(&t.0, &t.1, host);
            steps += 1;
            v.push(big.gas - it.gas.remaining().min(big.gas));
            if let Err(e) = r {
                break e;
            }
            if steps >= MAX {
                break InstructionResult::OutOfGas;
            }
        };
        {
            use revm_interpreter::interpreter_types::LoopControl;
            if it.bytecode.action().is_none() {
                it.halt(e);
            }
        }
        it.take_next_action()
    });
    v.sort_unstable();
    v.dedup();
    (v, steps)
}
