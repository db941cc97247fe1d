//! Histories of one compiler instance.

use super::*;
use crate::diff::Compiler as C;
use crate::host::{MHost, custom_gas_params};
use irvm::IrvmBackend;
use revm_bytecode::Bytecode;
use revmc_codegen::EvmCompiler;
use revmc_context::EvmCompilerFn;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub fn programs() -> Vec<Vec<u8>> {
    let mut a = Asm::new();
    a.pu(2).arg(0).op(0x0a).arg(0).arg(1).op(0x04).pu(5).op(0x0a).op(0x01).mstore(0).ret(0, 32);
    let mut b = Asm::new();
    b.pu(0x77).pu(1).op(0x54).pu(0).pu(0).pu(0).pu(0).pu(0).push(U256::from(0x1234)).pu(5000).op(0xf1).op(0x01).op(0x01).mstore(32).ret(32, 32);
    let mut c = Asm::new();
    c.arg(0).pu(7).op(0x57).pu(1).pu(2).op(0x55).op(0x00);
    c.0 = vec![0x60, 0, 0x35, 0x60, 8, 0x57, 0x5f, 0x00, 0x5b, 0x60, 0x20, 0x5f, 0x20, 0x5f, 0x52, 0x60, 0x20, 0x5f, 0xf3];
    vec![a.0, b.0, c.0]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// Translate program i into the current module.
    Tr(u8),
    /// Finalise the module and fetch everything in it.
    Jit,
    ClearIr,
    Clear,
    /// Free the oldest live function.
    Free,
    /// Switch the settings.
    Set(u8),
    /// Another gas schedule, for what is translated from now on.
    Gas(u8),
    /// Translate under a name that is taken: must be refused and change nothing.
    Dup,
}
pub const OPS: [Op; 9] =
    [Op::Tr(0), Op::Tr(1), Op::Tr(2), Op::Jit, Op::ClearIr, Op::Clear, Op::Free, Op::Set(0), Op::Set(1)];

/// ... of an instance that writes object files; `Jit` writes one.
pub const AOPS: [Op; 9] =
    [Op::Tr(0), Op::Tr(1), Op::Jit, Op::ClearIr, Op::Clear, Op::Set(0), Op::Set(1), Op::Gas(0), Op::Gas(1)];

fn name(o: Op) -> String {
    format!("{o:?}")
}
fn settings(i: u8) -> Cfg {
    match i {
        0 => Cfg::PROD,
        _ => Cfg { inspect_stack: true, single_error: false, dedup: false, dse: false, ..Cfg::PROD },
    }
}

/// The documented contract of the instance, as a model: translation is refused after the module
/// was finalised, clearing the IR keeps published functions alive, clearing everything frees them.
pub fn run_history(ops: &[Op], k: &mut u64) -> Result<(), String> {
    let progs = programs();
    let env = Env::cd(&words(&[u(7), u(100)]));
    let envs = [env.clone(), Env::cd(&words(&[u(0), u(3)]))];
    let spec_of = |i: u8| [L, SpecId::BERLIN, SpecId::SHANGHAI][i as usize];
    let mut c = EvmCompiler::new(IrvmBackend::new(false));
    C::apply(&mut c, &settings(0), L);
    let mut cur = 0u8;
    let mut finalized = false;
    let mut pending: Vec<(u32, u8, u8)> = vec![];
    let mut live: Vec<(u32, EvmCompilerFn, u8, u8)> = vec![];
    let mut n = 0;
    for op in ops {
        match *op {
            Op::Tr(i) => {
                let nm = format!("f{n}");
                n += 1;
                let r = c.translate(&nm, progs[i as usize].as_slice(), spec_of(i));
                match (finalized, r) {
                    (false, Ok(id)) => pending.push((id, i, cur)),
                    (true, Err(_)) => {}
                    (false, Err(e)) => return Err(format!("translation refused: {e}")),
                    (true, Ok(_)) => return Err("translation into a finalised module accepted".into()),
                }
            }
            Op::Jit => {
                for (id, i, s) in std::mem::take(&mut pending) {
                    let f = unsafe { c.jit_function(id) }.map_err(|e| format!("jit failed: {e}"))?;
                    live.push((id, f, i, s));
                    finalized = true;
                }
            }
            Op::ClearIr => {
                c.clear_ir().map_err(|e| format!("clear_ir failed: {e}"))?;
                pending.clear();
                finalized = false;
            }
            Op::Clear => {
                unsafe { c.clear() }.map_err(|e| format!("clear failed: {e}"))?;
                pending.clear();
                live.clear();
                finalized = false;
                if c.backend().live_functions() != 0 {
                    return Err("functions survive clear".into());
                }
            }
            Op::Free => {
                if !live.is_empty() {
                    let (id, ..) = live.remove(0);
                    unsafe { c.free_function(id) }.map_err(|e| format!("free failed: {e}"))?;
                }
            }
            Op::Set(i) => {
                cur = i;
                let cfg = settings(i);
                C::apply(&mut c, &cfg, L);
            }
            Op::Dup | Op::Gas(_) => {}
        }
        for (_, f, i, s) in &live {
            let bc = Bytecode::new_legacy(progs[*i as usize].clone().into());
            for e in &envs {
                let a = run_interp(&bc, spec_of(*i), e);
                let b = run_compiled(*f, &bc, spec_of(*i), e);
                *k += 1;
                if let Some(m) = irvm::take_fault() {
                    return Err(format!("generated code fault: {m}"));
                }
                compare(&a, &b, &settings(*s), Aspects { gas: true, effects: true })?;
            }
        }
    }
    Ok(())
}

fn gas(i: u8) -> revm_context_interface::cfg::gas_params::GasParams {
    (*if i == 0 { MHost::new(L).gas_params } else { custom_gas_params(L) }).clone()
}
fn object(c: &mut EvmCompiler<IrvmBackend>) -> Result<String, String> {
    let mut o = vec![];
    c.write_object(&mut o).map_err(|e| format!("object not written: {e}"))?;
    let o = String::from_utf8(o).map_err(|e| e.to_string())?;
    // The stand-in's string constants are addresses.
    Ok(o.lines().map(|l| l.split_once("const Ptr 0x").filter(|x| x.1 != "0").map_or(l, |x| x.0)).collect::<Vec<_>>().join("\n"))
}
/// An object file holds what was translated since the module was last cleared, each under the settings in force at
/// that time: byte for byte what a new instance writes that is only given these translations.
pub fn run_objects(ops: &[Op], k: &mut u64) -> Result<(), String> {
    let progs = programs();
    let mut c = EvmCompiler::new(IrvmBackend::new(true));
    C::apply(&mut c, &settings(0), L);
    let (mut set, mut g) = (0u8, None);
    let mut finalized = false;
    let mut pending: Vec<(String, u8, u8, Option<u8>)> = vec![];
    let mut n = 0;
    for op in ops {
        match *op {
            Op::Tr(i) => {
                let nm = format!("f{n}");
                n += 1;
                match (finalized, c.translate(&nm, progs[i as usize].as_slice(), L)) {
                    (false, Ok(_)) => pending.push((nm, i, set, g)),
                    (true, Err(_)) => {}
                    (false, Err(e)) => return Err(format!("translation refused: {e}")),
                    (true, Ok(_)) => return Err("translation into a finalised module accepted".into()),
                }
            }
            Op::Jit => {
                let got = object(&mut c)?;
                finalized = true;
                let mut f = EvmCompiler::new(IrvmBackend::new(true));
                for (nm, i, set, g) in &pending {
                    C::apply(&mut f, &settings(*set), L);
                    if let Some(g) = g {
                        f.set_gas_params(gas(*g));
                    }
                    f.translate(nm, progs[*i as usize].as_slice(), L).map_err(|e| format!("reference: {e}"))?;
                }
                *k += 1;
                let want = object(&mut f)?;
                if got != want {
                    let (a, b) = (got, want);
                    let at = a.lines().zip(b.lines()).position(|(x, y)| x != y).unwrap_or(0);
                    return Err(format!(
                        "the object differs from a new instance's at line {at}: {:?} / {:?}",
                        a.lines().nth(at),
                        b.lines().nth(at)
                    ));
                }
            }
            Op::ClearIr => {
                c.clear_ir().map_err(|e| format!("clear_ir failed: {e}"))?;
                pending.clear();
                finalized = false;
            }
            Op::Clear => {
                unsafe { c.clear() }.map_err(|e| format!("clear failed: {e}"))?;
                pending.clear();
                finalized = false;
            }
            Op::Set(i) => {
                set = i;
                C::apply(&mut c, &settings(i), L);
            }
            Op::Gas(i) => {
                g = Some(i);
                c.set_gas_params(gas(i));
            }
            Op::Free | Op::Dup => {}
        }
    }
    Ok(())
}

pub fn encode_objects(ops: &[Op]) -> String {
    encode(ops).replace("ops:", "objects: 1\nops:")
}
pub fn encode(ops: &[Op]) -> String {
    format!("kind: history\nops: {}\n", ops.iter().map(|o| name(*o)).collect::<Vec<_>>().join(" "))
}
pub fn decode(s: &str) -> Vec<Op> {
    s.split_whitespace().map(|x| OPS.iter().chain(&AOPS).copied().find(|o| name(*o) == x).unwrap_or(Op::Dup)).collect()
}

pub fn judge(ops: &[Op], objects: bool, k: &mut u64) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| if objects { run_objects(ops, k) } else { run_history(ops, k) })) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", panic_msg(p))),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.suite("histories");
    let depth = if ctx.quick() { 5 } else { 7 };
    tok::each_seq(OPS.len(), depth, |s| {
        // Histories that never publish anything are covered by longer ones.
        if ctx.mine() {
            let ops: Vec<Op> = s.iter().map(|i| OPS[*i]).collect();
            let enc = encode(&ops);
            ctx.note(&enc);
            let mut k = 0;
            let r = judge(&ops, false, &mut k);
            let st = irvm::take_stats();
            ctx.k.programs += 1;
            ctx.k.executions += k;
            ctx.k.edges += st.block_edges;
            ctx.k.builtin_calls += st.builtin_calls;
            ctx.k.ir_steps += st.steps;
            ctx.bump("operations", ops.len() as u64);
            if k > 0 {
                ctx.bump("histories_with_published_code", 1);
            }
            if ctx.k.samples.len() < 2 && k > 6 {
                ctx.k.samples.push(enc.replace('\n', " "));
            }
            if let Err(m) = r {
                ctx.fail(enc, m);
            }
        }
        !ctx.done()
    });
    ctx.suite("object-histories");
    let depth = if ctx.quick() { 5 } else { 6 };
    tok::each_seq(AOPS.len(), depth, |s| {
        let ops: Vec<Op> = s.iter().map(|i| AOPS[*i]).collect();
        // Nothing is seen unless an object is written at the end.
        if ops.last() == Some(&Op::Jit) && ctx.mine() {
            let enc = encode_objects(&ops);
            ctx.note(&enc);
            let mut k = 0;
            let r = judge(&ops, true, &mut k);
            ctx.k.programs += 1;
            ctx.bump("operations", ops.len() as u64);
            ctx.bump("objects_compared", k);
            if let Err(m) = r {
                ctx.fail(enc, m);
            }
        }
        !ctx.done()
    });
    // The same instance over the whole program space, one after the other.
    ctx.suite("long-lived-instance");
    let mut all = gas::priced();
    all.truncate(90);
    tok::straight(ctx, &all, 2, tok::Sink::Memory, L, &[Cfg::PROD], &[gas::env()], false);
}

pub fn replay(ctx: &mut Ctx, text: &str) {
    let m = parse_case(text);
    let mut k = 0;
    if let Err(e) = judge(&decode(&m["ops"]), m.contains_key("objects"), &mut k) {
        ctx.fail(text.into(), e);
    }
}
