//! Execution of recorded IR with monitors.

use crate::{Bin, Exec, Func, Op, VKind, mask};
use revm_interpreter::{InputsImpl, InstructionResult};
use revmc_backend::{Attribute, IntCC};
use revmc_context::{EvmCompilerFn, EvmContext, EvmStack, RawEvmCompilerFn};
use ruint::aliases::U256;
use std::{
    cell::{Cell, RefCell},
    ptr::NonNull,
    sync::{Arc, Mutex, OnceLock},
};

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub calls: u64,
    pub steps: u64,
    pub builtin_calls: u64,
    pub builtin_exits: u64,
    pub mem_checks: u64,
    pub block_edges: u64,
}

thread_local! {
    static FAULT: RefCell<Option<String>> = const { RefCell::new(None) };
    static STATS: Cell<Stats> = const { Cell::new(Stats { calls: 0, steps: 0, builtin_calls: 0, builtin_exits: 0, mem_checks: 0, block_edges: 0 }) };
    static LIMIT: Cell<u64> = const { Cell::new(4_000_000) };
    static TRACE: Cell<bool> = const { Cell::new(false) };
    static PENDING: Cell<Pending> = const { Cell::new(Pending { addr: 0, args: [0; 6], ret: 0, done: false }) };
    static POOL: RefCell<Vec<Vec<u64>>> = const { RefCell::new(Vec::new()) };
    static VALS: RefCell<Vec<(Vec<U256>, Vec<bool>)>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, Copy)]
struct Pending {
    addr: usize,
    args: [u64; 6],
    ret: u64,
    done: bool,
}

/// Returns and clears the fault raised by the last executions on this thread.
pub fn take_fault() -> Option<String> {
    FAULT.with(|f| f.borrow_mut().take())
}
pub fn take_stats() -> Stats {
    STATS.with(|s| s.replace(Stats::default()))
}
pub fn set_step_limit(n: u64) {
    LIMIT.with(|l| l.set(n));
}
pub fn set_trace(t: bool) {
    TRACE.with(|l| l.set(t));
}
fn fault(s: String) {
    FAULT.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_none() {
            *f = Some(s);
        }
    });
}

// ---------------------------------------------------------------------------------------------
// Thunks.

const THUNK: usize = 32;
const ARENA: usize = 1 << 20;

struct Arena {
    base: usize,
    used: usize,
    free: Vec<usize>,
}
static ARENAS: OnceLock<Mutex<Arena>> = OnceLock::new();

fn arena_alloc() -> usize {
    let m = ARENAS.get_or_init(|| Mutex::new(Arena { base: 0, used: ARENA, free: vec![] }));
    let mut a = m.lock().unwrap();
    // Keep freed thunks quarantined for a while so that calls to freed code are noticed.
    if a.free.len() > 4096 {
        let t = a.free.remove(0);
        return t;
    }
    if a.used + THUNK > ARENA {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                ARENA,
                libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap failed");
        a.base = p as usize;
        a.used = 0;
    }
    let t = a.base + a.used;
    a.used += THUNK;
    t
}

pub(crate) struct Thunk {
    addr: usize,
    _exec: Arc<Exec>,
}
impl Thunk {
    pub(crate) fn new(exec: Arc<Exec>) -> Self {
        let addr = arena_alloc();
        write_thunk(addr, Arc::as_ptr(&exec) as usize, entry as *const () as usize);
        Self { addr, _exec: exec }
    }
    pub(crate) fn addr(&self) -> usize {
        self.addr
    }
}
impl Drop for Thunk {
    fn drop(&mut self) {
        write_thunk(self.addr, 0, freed_entry as *const () as usize);
        let m = ARENAS.get().unwrap();
        m.lock().unwrap().free.push(self.addr);
    }
}

fn write_thunk(addr: usize, data: usize, target: usize) {
    let mut code = Vec::with_capacity(THUNK);
    // mov rcx, imm64; mov rax, imm64; jmp rax
    code.extend_from_slice(&[0x48, 0xB9]);
    code.extend_from_slice(&(data as u64).to_le_bytes());
    code.extend_from_slice(&[0x48, 0xB8]);
    code.extend_from_slice(&(target as u64).to_le_bytes());
    code.extend_from_slice(&[0xFF, 0xE0]);
    unsafe { std::ptr::copy_nonoverlapping(code.as_ptr(), addr as *mut u8, code.len()) };
}

unsafe extern "C" fn freed_entry(
    _ecx: NonNull<EvmContext<'_>>,
    _stack: NonNull<EvmStack>,
    _len: NonNull<usize>,
    _data: usize,
) -> InstructionResult {
    fault("compiled function called after its code was freed".into());
    InstructionResult::FatalExternalError
}

unsafe extern "C" fn entry(
    ecx: NonNull<EvmContext<'_>>,
    stack: NonNull<EvmStack>,
    len: NonNull<usize>,
    exec: *const Exec,
) -> InstructionResult {
    let exec = unsafe { &*exec };
    let args = [ecx.as_ptr() as u64, stack.as_ptr() as u64, len.as_ptr() as u64];
    let mut st = STATS.with(|s| s.get());
    st.calls += 1;
    let mut m = Machine {
        ecx: args[0] as usize,
        stack: args[1] as usize,
        len: args[2] as usize,
        slots: vec![],
        stats: st,
        budget: LIMIT.with(|l| l.get()),
        trace: TRACE.with(|t| t.get()),
        exec,
    };
    let r = m.run(&exec.func, &exec.consts, &args);
    STATS.with(|s| s.set(m.stats));
    match r {
        Ok(v) => {
            let b = v.unwrap_or(U256::ZERO).as_limbs()[0] as u8;
            match to_result(b) {
                Some(r) => r,
                None => {
                    fault(format!("compiled function returned invalid result code {b}"));
                    InstructionResult::FatalExternalError
                }
            }
        }
        Err(Stop::Exit(r)) => r,
        Err(Stop::Fault(e)) => {
            fault(e);
            InstructionResult::FatalExternalError
        }
    }
}

fn to_result(b: u8) -> Option<InstructionResult> {
    use InstructionResult::*;
    const ALL: &[InstructionResult] = &[
        Stop, Return, SelfDestruct, Suspend, Revert, CallTooDeep, OutOfFunds, CreateInitCodeStartingEF00,
        InvalidEOFInitCode, InvalidExtDelegateCallTarget, OutOfGas, MemoryOOG, MemoryLimitOOG,
        PrecompileOOG, InvalidOperandOOG, ReentrancySentryOOG, OpcodeNotFound,
        CallNotAllowedInsideStatic, StateChangeDuringStaticCall, InvalidFEOpcode, InvalidJump,
        NotActivated, StackUnderflow, StackOverflow, OutOfOffset, CreateCollision, OverflowPayment,
        PrecompileError, NonceOverflow, CreateContractSizeLimit, CreateContractStartingWithEF,
        CreateInitCodeSizeLimit, FatalExternalError, InvalidImmediateEncoding,
    ];
    ALL.iter().copied().find(|r| *r as u8 == b)
}

enum Stop {
    Exit(InstructionResult),
    Fault(String),
}

struct Machine<'a> {
    ecx: usize,
    stack: usize,
    len: usize,
    slots: Vec<(usize, usize)>,
    stats: Stats,
    budget: u64,
    trace: bool,
    exec: &'a Exec,
}

/// Poison stand-in.
fn poison(w: u32) -> U256 {
    U256::from_limbs([0xA5A5_5A5A_DEAD_0BADu64; 4]) & mask(w)
}
fn sign_bit(v: U256, w: u32) -> bool {
    v.bit(w as usize - 1)
}
fn sext(v: U256, w: u32) -> U256 {
    if w < 256 && sign_bit(v, w) { v | !mask(w) } else { v }
}
fn slt(a: U256, b: U256, w: u32) -> bool {
    match (sign_bit(a, w), sign_bit(b, w)) {
        (true, false) => true,
        (false, true) => false,
        _ => a < b,
    }
}

impl Machine<'_> {
    fn check_access(&mut self, p: usize, n: usize, what: &str, write: bool) -> Result<(), Stop> {
        self.stats.mem_checks += 1;
        let Some(end) = p.checked_add(n) else {
            return Err(Stop::Fault(format!("{what}: address overflow")));
        };
        for (b, l) in &self.slots {
            if p >= *b && end <= *b + *l {
                return Ok(());
            }
        }
        if p >= self.stack && end <= self.stack + EvmStack::SIZE {
            return Ok(());
        }
        if p >= self.ecx && end <= self.ecx + size_of::<EvmContext<'_>>() {
            return Ok(());
        }
        let ecx = unsafe { &*(self.ecx as *const EvmContext<'_>) };
        let mb = ecx.mem_base as usize;
        if p >= mb && end <= mb + ecx.mem_len {
            // The cache itself must describe the real memory.
            let m = ecx.memory.context_memory();
            let (rb, rl) = (m.as_ptr() as usize, m.len());
            drop(m);
            if rl != ecx.mem_len || (rl != 0 && rb != mb) {
                return Err(Stop::Fault(format!(
                    "{what}: stale memory cache (cached len {}, real len {rl})",
                    ecx.mem_len
                )));
            }
            return Ok(());
        }
        if p >= self.len && end <= self.len + 8 {
            return Ok(());
        }
        let inp = &*ecx.input as *const InputsImpl as usize;
        if !write && p >= inp && end <= inp + size_of::<InputsImpl>() {
            return Ok(());
        }
        // Describe relative to the closest region, without printing addresses.
        let rel = |b: usize| p as i128 - b as i128;
        let mut d = format!("mem_base{:+}", rel(mb));
        for (i, (b, l)) in self.slots.iter().enumerate() {
            if rel(*b).abs() < 4 * *l as i128 + 4096 {
                d = format!("slot{i}{:+} (size {l})", rel(*b));
            }
        }
        if rel(self.stack).abs() < 4 * EvmStack::SIZE as i128 {
            d = format!("stack{:+}", rel(self.stack));
        }
        if rel(mb).abs() < 1 << 20 {
            d = format!("mem_base{:+} (mem_len {})", rel(mb), ecx.mem_len);
        }
        Err(Stop::Fault(format!("{what} of {n} bytes outside every live region: {d}")))
    }

    fn run(&mut self, func: &Func, consts: &[U256], args: &[u64]) -> Result<Option<U256>, Stop> {
        // Value and slot storage is pooled per thread.
        let (mut vals, mut def) = VALS.with(|p| p.borrow_mut().pop()).unwrap_or_default();
        vals.clear();
        vals.extend_from_slice(consts);
        def.clear();
        def.extend(func.vals.iter().map(|v| !matches!(v.1, VKind::Inst)));
        for (i, p) in func.param_vals.iter().enumerate() {
            vals[*p as usize] = U256::from(args[i]);
        }
        let words: usize = func.slots.iter().map(|(t, _)| t.size().div_ceil(8) + 2).sum();
        let mut buf = POOL.with(|p| p.borrow_mut().pop()).unwrap_or_default();
        buf.clear();
        buf.resize(words, 0xBAD0_C0DE_5EED_F00D);
        let nslots = self.slots.len();
        let mut off = 1;
        for (t, v) in &func.slots {
            let a = unsafe { buf.as_ptr().add(off) } as usize;
            self.slots.push((a, t.size()));
            vals[*v as usize] = U256::from(a);
            off += t.size().div_ceil(8) + 2;
        }
        let r = self.run_inner(func, &mut vals, &mut def);
        self.slots.truncate(nslots);
        VALS.with(|p| p.borrow_mut().push((vals, def)));
        POOL.with(|p| p.borrow_mut().push(buf));
        r
    }

    fn run_inner(
        &mut self,
        func: &Func,
        v: &mut [U256],
        def: &mut [bool],
    ) -> Result<Option<U256>, Stop> {
        let mut prev = u32::MAX;
        let mut blk = 0u32;
        macro_rules! g {
            ($i:expr) => {{
                let i = $i as usize;
                if !def[i] {
                    return Err(Stop::Fault(format!(
                        "IR value %{i} used before definition in block {blk}"
                    )));
                }
                v[i]
            }};
        }
        macro_rules! s {
            ($i:expr, $x:expr) => {{
                let x = $x;
                let i = $i as usize;
                v[i] = x;
                def[i] = true;
                if self.trace {
                    eprintln!("    %{i} = {x:#x}");
                }
            }};
        }
        let lo = |x: U256| x.as_limbs()[0];
        loop {
            let ops = &func.blocks[blk as usize];
            if self.trace {
                eprintln!("  block {blk}");
            }
            self.stats.block_edges += 1;
            let mut next = None;
            for op in ops {
                self.stats.steps += 1;
                if self.budget == 0 {
                    return Err(Stop::Fault("step limit exceeded".into()));
                }
                self.budget -= 1;
                if self.trace {
                    eprintln!("   {op:?}");
                }
                match op {
                    Op::Bin { op, w, d, a, b } => {
                        let (a, b) = (g!(*a), g!(*b));
                        let w = *w;
                        let m = mask(w);
                        let r = match op {
                            Bin::Add => a.wrapping_add(b) & m,
                            Bin::Sub => a.wrapping_sub(b) & m,
                            Bin::Mul => a.wrapping_mul(b) & m,
                            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                                if b.is_zero() {
                                    return Err(Stop::Fault("IR division by zero".into()));
                                }
                                match op {
                                    Bin::UDiv => a / b,
                                    Bin::URem => a % b,
                                    _ => {
                                        let min = U256::from(1u64) << (w as usize - 1);
                                        if a == min && b == m {
                                            return Err(Stop::Fault(
                                                "IR signed division overflow".into(),
                                            ));
                                        }
                                        let (na, nb) = (sign_bit(a, w), sign_bit(b, w));
                                        let ua =
                                            if na { U256::ZERO.wrapping_sub(a) & m } else { a };
                                        let ub =
                                            if nb { U256::ZERO.wrapping_sub(b) & m } else { b };
                                        let (q, neg) = if matches!(op, Bin::SDiv) {
                                            (ua / ub, na != nb)
                                        } else {
                                            (ua % ub, na)
                                        };
                                        if neg { U256::ZERO.wrapping_sub(q) & m } else { q }
                                    }
                                }
                            }
                            Bin::UAddSat => {
                                let (r, o) = a.overflowing_add(b);
                                if o || r > m { m } else { r }
                            }
                            Bin::UMax => a.max(b),
                            Bin::UMin => a.min(b),
                            Bin::Or => a | b,
                            Bin::And => a & b,
                            Bin::Xor => a ^ b,
                            Bin::Shl | Bin::UShr | Bin::SShr => {
                                if b >= U256::from(w) {
                                    poison(w)
                                } else {
                                    let n = lo(b) as usize;
                                    match op {
                                        Bin::Shl => (a << n) & m,
                                        Bin::UShr => a >> n,
                                        _ => {
                                            let x = sext(a, w);
                                            x.arithmetic_shr(n) & m
                                        }
                                    }
                                }
                            }
                        };
                        s!(*d, r);
                    }
                    Op::Icmp { cc, w, d, a, b } => {
                        let (a, b) = (g!(*a), g!(*b));
                        let w = *w;
                        let r = match cc {
                            IntCC::Equal => a == b,
                            IntCC::NotEqual => a != b,
                            IntCC::SignedLessThan => slt(a, b, w),
                            IntCC::SignedGreaterThanOrEqual => !slt(a, b, w),
                            IntCC::SignedGreaterThan => slt(b, a, w),
                            IntCC::SignedLessThanOrEqual => !slt(b, a, w),
                            IntCC::UnsignedLessThan => a < b,
                            IntCC::UnsignedGreaterThanOrEqual => a >= b,
                            IntCC::UnsignedGreaterThan => a > b,
                            IntCC::UnsignedLessThanOrEqual => a <= b,
                        };
                        s!(*d, U256::from(r as u64));
                    }
                    Op::Ovf { sub, w, d, o, a, b } => {
                        let (a, b) = (g!(*a), g!(*b));
                        let m = mask(*w);
                        let (r, ov) = if *sub {
                            (a.wrapping_sub(b) & m, b > a)
                        } else {
                            let (r, c) = a.overflowing_add(b);
                            (r & m, c || r > m)
                        };
                        s!(*d, r);
                        s!(*o, U256::from(ov as u64));
                    }
                    Op::Not { w, d, a } => s!(*d, !g!(*a) & mask(*w)),
                    Op::Clz { w, d, a } => {
                        let x = g!(*a);
                        s!(*d, U256::from(x.leading_zeros() - (256 - *w as usize)));
                    }
                    Op::Bswap { w, d, a } => {
                        let x = g!(*a);
                        let n = (*w / 8) as usize;
                        let le: [u8; 32] = x.to_le_bytes();
                        let mut out = [0u8; 32];
                        for i in 0..n {
                            out[i] = le[n - 1 - i];
                        }
                        s!(*d, U256::from_le_bytes(out));
                    }
                    Op::Select { d, c, a, b } => {
                        let c = !g!(*c).is_zero();
                        // Both operands must be defined; only the chosen one matters.
                        let (a, b) = (g!(*a), g!(*b));
                        s!(*d, if c { a } else { b });
                    }
                    Op::Zext { d, a } => s!(*d, g!(*a)),
                    Op::Sext { from, to, d, a } => s!(*d, sext(g!(*a), *from) & mask(*to)),
                    Op::Trunc { to, d, a } => s!(*d, g!(*a) & mask(*to)),
                    Op::Load { size, w, d, p, align } => {
                        let p = lo(g!(*p)) as usize;
                        self.check_access(p, *size as usize, "load", false)?;
                        if *align > 1 && p % *align as usize != 0 {
                            return Err(Stop::Fault(format!("misaligned load (align {align})")));
                        }
                        let mut b = [0u8; 32];
                        unsafe {
                            std::ptr::copy_nonoverlapping(
                                p as *const u8,
                                b.as_mut_ptr(),
                                *size as usize,
                            )
                        };
                        s!(*d, U256::from_le_bytes(b) & mask(*w));
                    }
                    Op::Store { size, v: x, p, align } => {
                        let p = lo(g!(*p)) as usize;
                        let x = g!(*x);
                        self.check_access(p, *size as usize, "store", true)?;
                        if *align > 1 && p % *align as usize != 0 {
                            return Err(Stop::Fault(format!("misaligned store (align {align})")));
                        }
                        let b: [u8; 32] = x.to_le_bytes();
                        unsafe {
                            std::ptr::copy_nonoverlapping(
                                b.as_ptr(),
                                p as *mut u8,
                                *size as usize,
                            )
                        };
                    }
                    Op::Gep { d, p, scales } => {
                        let mut p = lo(g!(*p));
                        for (i, sc, w) in scales {
                            let x = lo(sext(g!(*i), *w));
                            p = p.wrapping_add(x.wrapping_mul(*sc));
                        }
                        s!(*d, U256::from(p));
                    }
                    Op::Memcpy { d, s, n } => {
                        let (d, s, n) = (
                            lo(g!(*d)) as usize,
                            lo(g!(*s)) as usize,
                            lo(g!(*n)) as usize,
                        );
                        if n > 0 {
                            self.check_access(d, n, "memcpy destination", true)?;
                            self.check_access(s, n, "memcpy source", false)?;
                            if d < s + n && s < d + n {
                                return Err(Stop::Fault("memcpy on overlapping ranges".into()));
                            }
                            unsafe {
                                std::ptr::copy_nonoverlapping(s as *const u8, d as *mut u8, n)
                            };
                        }
                    }
                    Op::Phi { d, inc } => {
                        // Phis here never read other phis of the same block.
                        let Some((x, _)) = inc.iter().find(|(_, b)| *b == prev) else {
                            return Err(Stop::Fault(format!(
                                "phi %{d} reached from unlisted block {prev}"
                            )));
                        };
                        let x = g!(*x);
                        s!(*d, x);
                    }
                    Op::Call { f, args, d } => {
                        let mut a = [0u64; 6];
                        for (i, x) in args.iter().enumerate() {
                            a[i.min(5)] = lo(g!(*x));
                        }
                        let callee = &self.exec.externs[f];
                        let r = self.call(callee, &a, args.len())?;
                        if let Some(d) = d {
                            s!(*d, r.unwrap_or(U256::ZERO));
                        }
                    }
                    Op::Assume { c } => {
                        if g!(*c).is_zero() {
                            return Err(Stop::Fault("violated IR assumption".into()));
                        }
                    }
                    Op::Br { t } => next = Some(*t),
                    Op::Brif { c, t, e } => {
                        next = Some(if g!(*c).is_zero() { *e } else { *t });
                    }
                    Op::Switch { i, default, targets } => {
                        let x = g!(*i);
                        next = Some(
                            targets
                                .iter()
                                .find(|(k, _)| U256::from(*k) == x)
                                .map(|(_, b)| *b)
                                .unwrap_or(*default),
                        );
                    }
                    Op::Ret { v: x } => {
                        return Ok(match x {
                            Some(x) => Some(g!(*x)),
                            None => None,
                        });
                    }
                    Op::Unreachable => {
                        return Err(Stop::Fault("IR unreachable executed".into()));
                    }
                }
            }
            prev = blk;
            blk = next.expect("verified terminator");
        }
    }

    fn call(&mut self, f: &Func, args: &[u64; 6], n: usize) -> Result<Option<U256>, Stop> {
        if f.name == "printf" {
            return Ok(None);
        }
        let Some(addr) = f.addr else {
            let consts: Vec<U256> = f
                .vals
                .iter()
                .map(|(_, k)| if let VKind::Const(c) = k { *c } else { U256::ZERO })
                .collect();
            return self.run(f, &consts, &args[..n.min(6)]);
        };
        if n > 6 {
            return Err(Stop::Fault("too many builtin arguments".into()));
        }
        self.stats.builtin_calls += 1;
        if self.trace {
            eprintln!("    call {} {:x?}", f.name, &args[..n]);
        }

        // Contract monitors derived from the declared parameter attributes.
        struct Guard {
            p: usize,
            snap: Vec<u8>,
            what: &'static str,
        }
        let mut guards: Vec<Guard> = Vec::new();
        let ecx_size = size_of::<EvmContext<'_>>();
        let snap = |p: usize, n: usize| unsafe {
            std::slice::from_raw_parts(p as *const u8, n).to_vec()
        };
        for (i, at) in f.attrs.params.iter().enumerate() {
            if f.params[i] != crate::Ty::Ptr {
                continue;
            }
            let p = args[i] as usize;
            let mut deref = None;
            let mut align = 1;
            let (mut ro, mut rn, mut wo, mut init) = (false, false, false, 0usize);
            for a in at {
                match a {
                    Attribute::Dereferenceable(n) => deref = Some(*n as usize),
                    Attribute::Align(n) => align = *n as usize,
                    Attribute::ReadOnly => ro = true,
                    Attribute::ReadNone => rn = true,
                    Attribute::WriteOnly => wo = true,
                    Attribute::Initializes(n) => init = *n as usize,
                    _ => {}
                }
            }
            if p % align != 0 {
                return Err(Stop::Fault(format!("{}: argument {i} is misaligned", f.name)));
            }
            if p == self.ecx {
                if deref.is_some_and(|d| d > ecx_size) {
                    return Err(Stop::Fault(format!(
                        "{}: context dereferenceable size is too large",
                        f.name
                    )));
                }
                if ro || rn {
                    guards.push(Guard { p, snap: snap(p, ecx_size), what: "read-only context" });
                }
                continue;
            }
            // A stack pointer.
            let Some(d) = deref else { continue };
            if d > 0 {
                self.check_access(p, d, "builtin stack operand", true)?;
            }
            if wo && init > 0 {
                unsafe { std::ptr::write_bytes(p as *mut u8, 0xC7, init.min(d)) };
            }
            let region = self
                .slots
                .iter()
                .copied()
                .chain([(self.stack, EvmStack::SIZE)])
                .find(|(b, l)| p >= *b && p + d <= *b + *l);
            if let Some((b, l)) = region {
                let lo = p.saturating_sub(8 * 32).max(b);
                let hi = (p + d + 4 * 32).min(b + l);
                if lo < p {
                    guards.push(Guard {
                        p: lo,
                        snap: snap(lo, p - lo),
                        what: "stack words below its operands",
                    });
                }
                if hi > p + d {
                    guards.push(Guard {
                        p: p + d,
                        snap: snap(p + d, hi - p - d),
                        what: "stack words above its declared window",
                    });
                }
                if ro || rn {
                    guards.push(Guard { p, snap: snap(p, d), what: "read-only operands" });
                }
            }
        }

        let ecx = unsafe { &mut *(self.ecx as *mut EvmContext<'static>) };
        let saved_sp = ecx.exit_sp;
        PENDING.with(|p| p.set(Pending { addr, args: *args, ret: 0, done: false }));
        STATS.with(|s| s.set(self.stats));
        let f2: RawEvmCompilerFn = trampoline;
        let res = unsafe {
            let stack = &mut *(self.stack as *mut EvmStack);
            let len = &mut *(self.len as *mut usize);
            EvmCompilerFn::new(f2).call(stack, len, ecx)
        };
        let pend = PENDING.with(|p| p.get());
        let ecx = unsafe { &mut *(self.ecx as *mut EvmContext<'static>) };
        let moved_sp = ecx.exit_sp;
        ecx.exit_sp = saved_sp;
        let _ = moved_sp;

        // Guards.
        let er = std::mem::offset_of!(EvmContext<'_>, exit_result);
        let es = std::mem::offset_of!(EvmContext<'_>, exit_sp);
        for g in &guards {
            let now = unsafe { std::slice::from_raw_parts(g.p as *const u8, g.snap.len()) };
            let bad = if g.p == self.ecx {
                now.iter().zip(&g.snap).enumerate().any(|(i, (a, b))| {
                    a != b && i != er && !(es..es + 8).contains(&i)
                })
            } else {
                now != &g.snap[..]
            };
            if bad {
                return Err(Stop::Fault(format!("{} modified its {}", f.name, g.what)));
            }
        }

        if !pend.done {
            self.stats.builtin_exits += 1;
            return Err(Stop::Exit(res));
        }
        if f.attrs.func.contains(&Attribute::NoReturn) {
            return Err(Stop::Fault(format!("{} is NoReturn but returned", f.name)));
        }
        Ok(f.ret.map(|t| U256::from(pend.ret) & mask(t.bits())))
    }
}

unsafe extern "C" fn trampoline(
    _ecx: NonNull<EvmContext<'_>>,
    _stack: NonNull<EvmStack>,
    _len: NonNull<usize>,
) -> InstructionResult {
    let p = PENDING.with(|p| p.get());
    type F = unsafe extern "C" fn(u64, u64, u64, u64, u64, u64) -> u64;
    let f: F = unsafe { std::mem::transmute(p.addr) };
    let r = unsafe { f(p.args[0], p.args[1], p.args[2], p.args[3], p.args[4], p.args[5]) };
    PENDING.with(|q| q.set(Pending { ret: r, done: true, ..p }));
    InstructionResult::Stop
}
