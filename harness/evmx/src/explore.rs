//! The exploration engine: suites enumerate cases, every worker process takes a fixed slice of the
//! enumeration, runs each case on the interpreter and on the compiled code, and judges it.
//!
//! The parent process watches the workers: a worker that dies or hangs left its current case in a
//! shared file, and the case is confirmed in a fresh process before it is reported.

use crate::{diff::*, host::*};
use alloy_primitives::{U256, hex};
use revm_bytecode::Bytecode;
use revm_interpreter::InstructionResult;
use revm_primitives::hardfork::SpecId;
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    rc::Rc,
};

/// Program text builder.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Asm(pub Vec<u8>);
impl Asm {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn op(&mut self, b: u8) -> &mut Self {
        self.0.push(b);
        self
    }
    pub fn raw(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    /// Minimal-width push; zero is `PUSH1 0`, valid in every hardfork.
    pub fn push(&mut self, v: U256) -> &mut Self {
        let b = v.to_be_bytes::<32>();
        let n = (32 - b.iter().take_while(|x| **x == 0).count()).max(1);
        self.0.push(0x5f + n as u8);
        self.0.extend_from_slice(&b[32 - n..]);
        self
    }
    pub fn pu(&mut self, v: u64) -> &mut Self {
        self.push(U256::from(v))
    }
    pub fn p2(&mut self, v: u16) -> &mut Self {
        self.0.push(0x61);
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    /// Pushes calldata word `i`: a value unknown to the compiler.
    pub fn arg(&mut self, i: u64) -> &mut Self {
        self.pu(i * 32).op(0x35)
    }
    pub fn mstore(&mut self, off: u64) -> &mut Self {
        self.pu(off).op(0x52)
    }
    pub fn ret(&mut self, off: u64, len: u64) -> &mut Self {
        self.pu(len).pu(off).op(0xf3)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

pub fn words(ws: &[U256]) -> Vec<u8> {
    ws.iter().flat_map(|w| w.to_be_bytes::<32>()).collect()
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub msg: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Counters {
    pub programs: u64,
    pub compiles: u64,
    pub executions: u64,
    pub ir_steps: u64,
    pub edges: u64,
    pub builtin_calls: u64,
    pub mem_checks: u64,
    pub suspensions: u64,
    pub results: BTreeMap<String, u64>,
    pub outcomes: HashSet<u64>,
    pub suites: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    w: usize,
    n: usize,
    idx: u64,
    pub k: Counters,
    comps: HashMap<Cfg, (Compiler, Vec<u8>)>,
    pub asp: Aspects,
    pub viol: Option<Violation>,
    state: Option<StateFile>,
    suite: &'static str,
    fresh: bool,
    shuffle_prev: bool,
}

/// The shared file holding the current case.
pub struct StateFile {
    p: *mut u8,
    cap: usize,
    seq: u64,
}
impl StateFile {
    pub const CAP: usize = 1 << 20;
    pub fn open(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap();
        f.set_len(Self::CAP as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                Self::CAP,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Self { p: p as *mut u8, cap: Self::CAP, seq: 0 }
    }
    pub fn set(&mut self, s: &str) {
        let n = s.len().min(self.cap - 16);
        self.seq += 1;
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(16), n);
            (self.p.add(8) as *mut u64).write_volatile(n as u64);
            (self.p as *mut u64).write_volatile(self.seq);
        }
    }
    pub fn seq(&self) -> u64 {
        unsafe { (self.p as *const u64).read_volatile() }
    }
    pub fn get(&self) -> String {
        unsafe {
            let n = ((self.p.add(8) as *const u64).read_volatile() as usize).min(self.cap - 16);
            String::from_utf8_lossy(std::slice::from_raw_parts(self.p.add(16), n)).into_owned()
        }
    }
}

pub fn encode_case(kind: &str, spec: SpecId, cfg: &Cfg, env: &Env, code: &[u8], prev: &[u8]) -> String {
    format!(
        "kind: {kind}\nspec: {}\ncfg: {}\nenv: {}\ncode: {}\nprev: {}\n",
        spec as u8,
        cfg.encode(),
        env.encode(),
        hex::encode(code),
        hex::encode(prev)
    )
}

fn sweep_points(code: &Bytecode, spec: SpecId, env: &Env) -> Vec<u64> {
    let (spent, _) = step_gas(code, spec, env);
    let mut v: Vec<u64> = vec![0];
    for s in spent {
        v.push(s.saturating_sub(1));
        v.push(s);
        if code.original_byte_slice().contains(&0x55) {
            // The stipend rule of SSTORE.
            v.push(s + 2300);
            v.push(s + 2301);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, w: usize, n: usize, state: Option<StateFile>) -> Self {
        Self {
            prop: prop.into(),
            tier,
            w,
            n,
            idx: 0,
            k: Counters::default(),
            comps: HashMap::new(),
            asp: Aspects { gas: false, effects: true },
            viol: None,
            state,
            suite: "",
            fresh: false,
            shuffle_prev: false,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn suite(&mut self, name: &'static str) {
        self.suite = name;
    }
    pub fn done(&self) -> bool {
        self.viol.is_some()
    }
    /// Takes the next index of the enumeration; `true` if it belongs to this worker.
    pub fn mine(&mut self) -> bool {
        let m = self.idx % self.n as u64 == self.w as u64;
        self.idx += 1;
        m && self.viol.is_none()
    }
    pub fn note(&mut self, s: &str) {
        if let Some(f) = &mut self.state {
            f.set(s);
        }
    }
    pub fn fail(&mut self, case: String, msg: String) {
        if self.viol.is_none() {
            self.viol = Some(Violation { case, msg });
        }
    }
    pub fn bump(&mut self, k: &str, n: u64) {
        *self.k.extra.entry(k.into()).or_default() += n;
    }

    /// Explores one program under every configuration and environment.
    pub fn case(&mut self, code: &[u8], spec: SpecId, cfgs: &[Cfg], envs: &[Env]) {
        if self.mine() {
            self.force(code, spec, cfgs, envs);
        }
    }
    /// Like [`Self::case`], and additionally under every gas limit at which the behaviour of the
    /// interpreter can change.
    pub fn case_sweep(&mut self, code: &[u8], spec: SpecId, cfgs: &[Cfg], envs: &[Env]) {
        if self.mine() {
            self.force_sweep(code, spec, cfgs, envs);
        }
    }
    pub fn force_sweep(&mut self, code: &[u8], spec: SpecId, cfgs: &[Cfg], envs: &[Env]) {
        let bc = Bytecode::new_legacy(code.to_vec().into());
        let mut all: Vec<Env> = vec![];
        for e in envs {
            self.note(&encode_case("sweep", spec, &cfgs[0], e, code, &[]));
            for g in sweep_points(&bc, spec, e) {
                all.push(Env { gas: g, ..e.clone() });
            }
            all.push(e.clone());
        }
        self.force(code, spec, cfgs, &all);
    }

    pub fn force(&mut self, code: &[u8], spec: SpecId, cfgs: &[Cfg], envs: &[Env]) {
        let bc = Bytecode::new_legacy(code.to_vec().into());
        self.k.programs += 1;
        *self.k.suites.entry(self.suite.into()).or_default() += 1;
        let mut refs: Vec<Option<Rc<Outcome>>> = vec![None; envs.len()];
        for cfg in cfgs {
            if self.viol.is_some() {
                return;
            }
            let env0 = envs.first().cloned().unwrap_or_default();
            let prev = self.comps.get(cfg).map(|c| c.1.clone()).unwrap_or_default();
            if self.state.is_some() {
                let s = encode_case("compile", spec, cfg, &env0, code, &prev);
                self.note(&s);
            }
            let (comp, last) =
                self.comps.entry(*cfg).or_insert_with(|| (Compiler::new(), vec![]));
            *last = code.to_vec();
            if self.fresh {
                *comp = Compiler::new();
            }
            self.k.compiles += 1;
            let f = match comp.compile(code, spec, cfg) {
                Ok(f) => f,
                Err(e) => {
                    self.comps.remove(cfg);
                    self.fail(encode_case("compile", spec, cfg, &env0, code, &prev), e);
                    return;
                }
            };
            for (e, env) in envs.iter().enumerate() {
                if self.state.is_some() {
                    let s = encode_case("run", spec, cfg, env, code, &prev);
                    self.note(&s);
                }
                let i = refs[e].get_or_insert_with(|| Rc::new(run_interp(&bc, spec, env))).clone();
                if !cfg.bound_checks && i.result.is_halt() {
                    continue;
                }
                let c = run_compiled(f, &bc, spec, env);
                let st = irvm::take_stats();
                self.k.executions += 1;
                self.k.ir_steps += st.steps;
                self.k.edges += st.block_edges;
                self.k.builtin_calls += st.builtin_calls;
                self.k.mem_checks += st.mem_checks;
                self.k.suspensions += i.susp.len() as u64;
                *self.k.results.entry(format!("{:?}", i.result)).or_default() += 1;
                if self.k.outcomes.len() < 4_000_000 {
                    self.k.outcomes.insert(i.signature());
                }
                if let Some(m) = irvm::take_fault() {
                    self.fail(
                        encode_case("run", spec, cfg, env, code, &prev),
                        format!("generated code fault: {m}"),
                    );
                    return;
                }
                if let Err(m) = compare(&i, &c, cfg, self.asp) {
                    self.fail(encode_case("run", spec, cfg, env, code, &prev), m);
                    return;
                }
                if self.k.samples.len() < 4 && (self.k.executions % 997 == 1) {
                    self.k.samples.push(format!(
                        "{} spec={:?} cfg={} gas={} code=0x{} -> {:?}, {} IR steps",
                        self.suite,
                        spec,
                        cfg.encode(),
                        env.gas,
                        hex::encode(&code[..code.len().min(64)]),
                        i.result,
                        st.steps
                    ));
                }
            }
        }
    }

    /// Runs one decoded case; for replay.
    pub fn replay(&mut self, text: &str) {
        let m = parse_case(text);
        let spec = SpecId::try_from_u8(m["spec"].parse().unwrap()).unwrap();
        let cfg = Cfg::decode(&m["cfg"]);
        let env = Env::decode(&m["env"]);
        let code = hex::decode(&m["code"]).unwrap();
        self.suite = "replay";
        // On a fresh instance first, then on an instance which has already compiled `prev`.
        self.force(&code, spec, &[cfg], &[env.clone()]);
        let prev = m.get("prev").map(|p| hex::decode(p).unwrap()).unwrap_or_default();
        if self.viol.is_none() && !prev.is_empty() {
            self.comps.clear();
            self.force(&prev, spec, &[cfg], &[]);
            self.force(&code, spec, &[cfg], &[env]);
        }
    }
    pub fn set_fresh(&mut self, f: bool) {
        self.fresh = f;
        let _ = self.shuffle_prev;
    }
}

pub fn parse_case(text: &str) -> HashMap<String, String> {
    text.lines()
        .filter_map(|l| l.split_once(": ").or_else(|| l.strip_suffix(':').map(|k| (k, ""))))
        .map(|(k, v)| (k.trim().to_string(), v.trim().to_string()))
        .collect()
}

/// Used by suites to keep programs that reach the interesting part.
pub fn is_success(r: InstructionResult) -> bool {
    r.is_ok()
}

/// Specs, oldest to newest.
pub fn specs() -> Vec<SpecId> {
    all_specs()
}
