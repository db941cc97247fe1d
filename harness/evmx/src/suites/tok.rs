//! Tokens: short code fragments with a known stack effect, and sequences of them.

use super::*;
use crate::host::*;
use alloy_primitives::Address;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tok {
    pub code: Vec<u8>,
    /// Results left on the stack.
    pub outs: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum V {
    K(U256),
    /// Calldata word.
    A(u64),
}
pub fn k(v: u64) -> V {
    V::K(u(v))
}
pub fn addr(a: Address) -> V {
    V::K(U256::from_be_slice(a.as_slice()))
}
pub fn put(a: &mut Asm, v: V) {
    match v {
        V::K(x) => a.push(x),
        V::A(i) => a.arg(i),
    };
}

/// `args` in EVM order: the first is the top of the stack.
pub fn t(op: u8, args: &[V], outs: u8) -> Tok {
    let mut a = Asm::new();
    for v in args.iter().rev() {
        put(&mut a, *v);
    }
    a.op(op);
    Tok { code: a.0, outs }
}
pub fn raw(code: &[u8], outs: u8) -> Tok {
    Tok { code: code.to_vec(), outs }
}

pub const MSTORE: u8 = 0x52;
pub const MSTORE8: u8 = 0x53;
pub const MLOAD: u8 = 0x51;
pub const MCOPY: u8 = 0x5e;
pub const CALLDATACOPY: u8 = 0x37;
pub const CODECOPY: u8 = 0x39;
pub const EXTCODECOPY: u8 = 0x3c;
pub const RETURNDATACOPY: u8 = 0x3e;
pub const KECCAK: u8 = 0x20;
pub const MSIZE: u8 = 0x59;
pub const SLOAD: u8 = 0x54;
pub const SSTORE: u8 = 0x55;
pub const TLOAD: u8 = 0x5c;
pub const TSTORE: u8 = 0x5d;
pub const GAS: u8 = 0x5a;
pub const PC: u8 = 0x58;
pub const JUMPDEST: u8 = 0x5b;
pub const JUMP: u8 = 0x56;
pub const JUMPI: u8 = 0x57;
pub const POP: u8 = 0x50;
pub const RETURN: u8 = 0xf3;
pub const REVERT: u8 = 0xfd;

fn pat(n: u8) -> V {
    V::K(U256::from_be_bytes::<32>(core::array::from_fn(|i| (i as u8).wrapping_mul(5) ^ n)))
}

/// Memory and data-copy operations; `A(0)` is an offset-like word.
pub fn memory(level: u8) -> Vec<Tok> {
    let a0 = V::A(0);
    let mut v = vec![
        t(MSTORE, &[k(0), pat(1)], 0),
        t(MSTORE, &[k(1), pat(2)], 0),
        t(MSTORE, &[k(32), V::A(1)], 0),
        t(MSTORE, &[a0, pat(3)], 0),
        t(MSTORE8, &[k(0), pat(4)], 0),
        t(MSTORE8, &[k(33), V::A(1)], 0),
        t(MSTORE8, &[a0, k(0xab)], 0),
        t(MLOAD, &[k(0)], 1),
        t(MLOAD, &[k(1)], 1),
        t(MLOAD, &[k(64)], 1),
        t(MLOAD, &[a0], 1),
        t(MSIZE, &[], 1),
        t(MCOPY, &[k(32), k(0), k(32)], 0),
        t(MCOPY, &[k(1), k(0), k(33)], 0),
        t(MCOPY, &[a0, k(0), k(32)], 0),
        t(CALLDATACOPY, &[k(0), k(0), k(32)], 0),
        t(CALLDATACOPY, &[a0, k(31), k(33)], 0),
        t(CODECOPY, &[k(0), k(0), k(32)], 0),
        t(KECCAK, &[k(0), k(32)], 1),
        t(KECCAK, &[a0, k(33)], 1),
        t(RETURN, &[k(0), k(64)], 0),
    ];
    if level >= 1 {
        v.extend([
            t(MSTORE, &[k(31), pat(5)], 0),
            t(MSTORE, &[k(64), pat(6)], 0),
            t(MSTORE, &[k(0), V::A(1)], 0),
            t(MSTORE, &[k(0), k(0)], 0),
            t(MSTORE8, &[k(31), pat(7)], 0),
            t(MSTORE8, &[k(32), pat(7)], 0),
            t(MLOAD, &[k(31)], 1),
            t(MLOAD, &[k(32)], 1),
            t(MLOAD, &[k(33)], 1),
            t(MCOPY, &[k(0), k(32), k(32)], 0),
            t(MCOPY, &[k(0), k(0), k(0)], 0),
            t(MCOPY, &[k(0), a0, k(1)], 0),
            t(MCOPY, &[k(3), k(3), a0], 0),
            t(CALLDATACOPY, &[k(31), k(64), k(32)], 0),
            t(CALLDATACOPY, &[k(0), k(0), a0], 0),
            t(CALLDATACOPY, &[k(0), a0, k(32)], 0),
            t(CALLDATACOPY, &[k(200), k(0), k(0)], 0),
            t(CODECOPY, &[k(1), a0, k(40)], 0),
            t(CODECOPY, &[k(0), k(1000), k(32)], 0),
            t(CODECOPY, &[k(64), k(3), a0], 0),
            t(EXTCODECOPY, &[addr(OTHER), k(0), k(0), k(32)], 0),
            t(EXTCODECOPY, &[addr(OTHER), a0, k(30), k(32)], 0),
            t(EXTCODECOPY, &[addr(RICH), k(0), k(0), k(32)], 0),
            t(RETURNDATACOPY, &[k(0), k(0), k(0)], 0),
            t(RETURNDATACOPY, &[k(96), k(0), k(0)], 0),
            t(RETURNDATACOPY, &[k(0), k(0), k(1)], 0),
            t(KECCAK, &[k(0), k(0)], 1),
            t(KECCAK, &[k(31), k(64)], 1),
            t(KECCAK, &[k(0), a0], 1),
            t(RETURN, &[a0, k(32)], 0),
            t(REVERT, &[k(1), k(40)], 0),
            t(RETURN, &[k(1000), k(0)], 0),
            t(0xa0, &[k(0), k(32)], 0),
            t(0xa1, &[k(0), k(0), k(96)], 0),
            t(0xa2, &[k(0), k(1), k(64), k(96)], 0),
            t(0xa3, &[a0, k(33), k(64), k(96), k(7)], 0),
            t(0xa4, &[k(0), a0, k(64), k(96), k(7), k(96)], 0),
        ]);
    }
    v
}

/// State and environment operations.
pub fn host(level: u8) -> Vec<Tok> {
    let mut v = vec![];
    // Environment, no operands.
    for op in [0x30u8, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a] {
        if level >= 1 || matches!(op, 0x30 | 0x33 | 0x47 | 0x44) {
            v.push(t(op, &[], 1));
        }
    }
    let a0 = V::A(0);
    v.extend([
        t(SLOAD, &[k(0)], 1),
        t(SLOAD, &[k(2)], 1),
        t(SLOAD, &[a0], 1),
        t(SSTORE, &[k(0), k(0)], 0),
        t(SSTORE, &[k(0), k(1)], 0),
        t(SSTORE, &[k(0), k(7)], 0),
        t(SSTORE, &[k(2), k(5)], 0),
        t(SSTORE, &[a0, V::A(1)], 0),
        t(TLOAD, &[k(0)], 1),
        t(TSTORE, &[k(0), k(9)], 0),
        t(0x31, &[addr(SELF)], 1),
        t(0x31, &[addr(OTHER)], 1),
        t(0x31, &[addr(RICH)], 1),
        t(0x3b, &[addr(OTHER)], 1),
        t(0x3f, &[addr(OTHER)], 1),
        t(0x40, &[k(499)], 1),
        t(0x49, &[k(1)], 1),
        t(0xa0, &[k(0), k(0)], 0),
        t(0xa1, &[k(0), k(33), k(11)], 0),
        t(0xff, &[addr(OTHER)], 0),
    ]);
    if level >= 1 {
        v.extend([
            t(SLOAD, &[k(1)], 1),
            t(SLOAD, &[k(0xdb)], 1),
            t(SLOAD, &[k(69)], 1),
            t(SSTORE, &[k(1), k(2)], 0),
            t(SSTORE, &[k(1), k(0)], 0),
            t(SSTORE, &[k(2), k(0)], 0),
            t(SSTORE, &[k(0xdb), k(1)], 0),
            t(SSTORE, &[k(77), V::A(1)], 0),
            t(TSTORE, &[k(0), k(0)], 0),
            t(TSTORE, &[a0, V::A(1)], 0),
            t(TLOAD, &[a0], 1),
            t(0x31, &[addr(BROKEN)], 1),
            t(0x31, &[addr(DELEG)], 1),
            t(0x31, &[V::K(m1())], 1),
            t(0x31, &[a0], 1),
            t(0x3b, &[addr(SELF)], 1),
            t(0x3b, &[addr(RICH)], 1),
            t(0x3b, &[addr(DELEG)], 1),
            t(0x3b, &[addr(BROKEN)], 1),
            t(0x3b, &[a0], 1),
            t(0x3f, &[addr(SELF)], 1),
            t(0x3f, &[addr(RICH)], 1),
            t(0x3f, &[addr(DELEG)], 1),
            t(0x3f, &[addr(BROKEN)], 1),
            t(0x3f, &[k(0x999)], 1),
            t(EXTCODECOPY, &[addr(BROKEN), k(0), k(0), k(1)], 0),
            t(EXTCODECOPY, &[addr(DELEG), k(0), k(0), k(32)], 0),
            t(0x40, &[k(500)], 1),
            t(0x40, &[k(244)], 1),
            t(0x40, &[k(243)], 1),
            t(0x40, &[k(BROKEN_BLOCK)], 1),
            t(0x40, &[a0], 1),
            t(0x40, &[V::K(m1())], 1),
            t(0x49, &[k(0)], 1),
            t(0x49, &[k(2)], 1),
            t(0x49, &[a0], 1),
            t(0x49, &[V::K(pow2(64))], 1),
            t(0xa0, &[a0, k(32)], 0),
            t(0xa2, &[k(0), k(0), k(1), k(2)], 0),
            t(0xa3, &[k(1), k(2), k(1), k(2), k(3)], 0),
            t(0xa4, &[k(32), k(32), k(1), k(2), k(3), V::A(1)], 0),
            t(0xa0, &[k(0), a0], 0),
            t(0xff, &[addr(SELF)], 0),
            t(0xff, &[addr(BROKEN)], 0),
            t(0xff, &[k(0x1234)], 0),
            t(0xff, &[k(0x10d1)], 0),
            t(0xff, &[k(0x10d2)], 0),
            t(0xff, &[k(0x10d3)], 0),
            t(0xff, &[a0], 0),
            t(0x35, &[k(1)], 1),
            t(0x35, &[k(33)], 1),
            t(0x35, &[a0], 1),
            t(0x35, &[V::K(m1())], 1),
            t(0x35, &[V::K(pow2(64) - u(1))], 1),
            t(PC, &[], 1),
            t(0x4b, &[], 1),
        ]);
    }
    v
}

pub const CALL: u8 = 0xf1;
pub const CALLCODE: u8 = 0xf2;
pub const DELEGATECALL: u8 = 0xf4;
pub const STATICCALL: u8 = 0xfa;
pub const CREATE: u8 = 0xf0;
pub const CREATE2: u8 = 0xf5;

/// Operations that suspend the program.
pub fn calls(level: u8) -> Vec<Tok> {
    let a0 = V::A(0);
    let g = k(5000);
    let mut v = vec![
        t(CALL, &[g, addr(OTHER), k(0), k(0), k(0), k(0), k(0)], 1),
        t(CALL, &[g, addr(RICH), k(1), k(0), k(32), k(32), k(10)], 1),
        t(STATICCALL, &[g, addr(OTHER), k(0), k(32), k(64), k(32)], 1),
        t(DELEGATECALL, &[g, addr(OTHER), k(0), k(4), k(0), k(32)], 1),
        t(CREATE, &[k(0), k(0), k(3)], 1),
        t(CREATE2, &[k(0), k(0), k(33), k(5)], 1),
        t(0x3d, &[], 1),
        t(RETURNDATACOPY, &[k(0), k(0), k(8)], 0),
    ];
    if level >= 1 {
        v.extend([
            t(CALL, &[V::K(m1()), addr(OTHER), k(0), a0, k(32), k(0), k(64)], 1),
            t(CALL, &[k(0), a0, k(0), k(0), k(0), k(96), k(32)], 1),
            t(CALL, &[g, addr(DELEG), k(0), k(0), k(0), k(0), k(0)], 1),
            t(CALL, &[g, k(0x999), k(5), k(0), k(0), k(0), k(0)], 1),
            t(CALL, &[g, k(0x999), k(0), k(0), k(0), k(0), k(0)], 1),
            t(CALL, &[g, addr(BROKEN), k(0), k(0), k(0), k(0), k(0)], 1),
            t(CALLCODE, &[g, addr(OTHER), k(1), k(0), k(4), k(0), k(4)], 1),
            t(CALLCODE, &[g, addr(RICH), k(0), k(0), k(0), k(31), a0], 1),
            t(DELEGATECALL, &[g, addr(DELEG), k(0), k(0), k(0), k(0)], 1),
            t(STATICCALL, &[V::K(m1()), a0, k(0), k(0), k(0), k(0)], 1),
            t(CREATE, &[k(1), k(31), k(40)], 1),
            t(CREATE, &[k(0), k(0), k(97)], 1),
            t(CREATE, &[k(0), k(0), k(0)], 1),
            t(CREATE2, &[k(1), a0, k(32), a0], 1),
            t(CREATE2, &[k(0), k(0), k(96), V::A(1)], 1),
            t(RETURNDATACOPY, &[k(33), k(1), k(39)], 0),
            t(RETURNDATACOPY, &[k(0), k(0), k(41)], 0),
            t(RETURNDATACOPY, &[a0, k(8), k(32)], 0),
        ]);
    }
    v
}

/// How results of tokens are observed.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Sink {
    /// They stay on the stack.
    Stack,
    /// They are written to fresh storage slots.
    Storage,
    /// They are written to memory.
    Memory,
    /// They are dropped.
    Pop,
}
pub fn emit(a: &mut Asm, t: &Tok, pos: u64, sink: Sink) {
    a.raw(&t.code);
    for i in 0..t.outs as u64 {
        match sink {
            Sink::Stack => {}
            Sink::Pop => {
                a.op(POP);
            }
            Sink::Storage => {
                a.pu(100 + pos * 4 + i).op(SSTORE);
            }
            Sink::Memory => {
                a.pu(256 + pos * 32 + i * 32).op(MSTORE);
            }
        }
    }
}

/// Calls `f` with every sequence of exactly `depth` indices below `n`.
pub fn each_seq(n: usize, depth: usize, mut f: impl FnMut(&[usize]) -> bool) {
    if n == 0 {
        return;
    }
    let mut seq = vec![0usize; depth];
    loop {
        if !f(&seq) {
            return;
        }
        let mut i = depth;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            seq[i] += 1;
            if seq[i] < n {
                break;
            }
            seq[i] = 0;
        }
    }
}

/// Straight-line programs: every token sequence of this length.
#[allow(clippy::too_many_arguments)]
pub fn straight(
    ctx: &mut Ctx,
    toks: &[Tok],
    depth: usize,
    sink: Sink,
    spec: SpecId,
    cfgs: &[Cfg],
    envs: &[Env],
    sweep: bool,
) {
    each_seq(toks.len(), depth, |s| {
        let mut a = Asm::new();
        for (i, x) in s.iter().enumerate() {
            emit(&mut a, &toks[*x], i as u64, sink);
        }
        if sweep {
            ctx.case_sweep(&a.0, spec, cfgs, envs);
        } else {
            ctx.case(&a.0, spec, cfgs, envs);
        }
        !ctx.done()
    });
}

/// `A; if (calldata word 2) { B } ; C`, and `A; do { B } while (--n); C`, and
/// `if (c) { A } else { B }; C`.
pub fn branched(ctx: &mut Ctx, toks: &[Tok], sink: Sink, spec: SpecId, cfgs: &[Cfg], envs: &[Env], sweep: bool) {
    each_seq(toks.len(), 3, |s| {
        for shape in 0..3 {
            let a = shape_prog(shape, &toks[s[0]], &toks[s[1]], &toks[s[2]], sink);
            if sweep {
                ctx.case_sweep(&a, spec, cfgs, envs);
            } else {
                ctx.case(&a, spec, cfgs, envs);
            }
        }
        !ctx.done()
    });
}

pub fn shape_prog(shape: u8, x: &Tok, y: &Tok, z: &Tok, sink: Sink) -> Vec<u8> {
    // With values left on the stack, the paths would not agree on the height.
    let inner = if sink == Sink::Stack { Sink::Pop } else { sink };
    let mut a = Asm::new();
    match shape {
        0 => {
            emit(&mut a, x, 0, sink);
            a.arg(2);
            let fix = a.len() + 1;
            a.p2(0).op(JUMPI);
            emit(&mut a, y, 1, inner);
            let l = a.len() as u16;
            a.0[fix..fix + 2].copy_from_slice(&l.to_be_bytes());
            a.op(JUMPDEST);
            emit(&mut a, z, 2, sink);
        }
        1 => {
            emit(&mut a, x, 0, inner);
            a.pu(3);
            let l = a.len() as u16;
            a.op(JUMPDEST);
            emit(&mut a, y, 1, inner);
            // counter - 1
            a.pu(1).op(0x90).op(0x03).op(0x80).p2(l).op(JUMPI);
            emit(&mut a, z, 2, sink);
        }
        _ => {
            a.arg(2);
            let fix = a.len() + 1;
            a.p2(0).op(JUMPI);
            emit(&mut a, x, 0, inner);
            let fix2 = a.len() + 1;
            a.p2(0).op(JUMP);
            let l = a.len() as u16;
            a.0[fix..fix + 2].copy_from_slice(&l.to_be_bytes());
            a.op(JUMPDEST);
            emit(&mut a, y, 1, inner);
            let l = a.len() as u16;
            a.0[fix2..fix2 + 2].copy_from_slice(&l.to_be_bytes());
            a.op(JUMPDEST);
            emit(&mut a, z, 2, sink);
        }
    }
    a.0
}

/// One operation over a grid of operands, each operand known or unknown at compile time.
#[allow(clippy::too_many_arguments)]
pub fn operand_grid(
    ctx: &mut Ctx,
    op: u8,
    arity: usize,
    outs: u8,
    grid: &[Vec<U256>],
    pre: &[u8],
    post: &[u8],
    spec: SpecId,
    cfgs: &[Cfg],
    mods: &dyn Fn(Env) -> Vec<Env>,
    masks: &[u8],
) {
    for mask in masks {
        let known: Vec<usize> = (0..arity).filter(|i| mask >> i & 1 == 1).collect();
        let unknown: Vec<usize> = (0..arity).filter(|i| mask >> i & 1 == 0).collect();
        let envs: Vec<Env> = product(&unknown.iter().map(|i| grid[*i].clone()).collect::<Vec<_>>())
            .into_iter()
            .flat_map(|tu| {
                // Distinct nonzero bytes where no operand is read from.
                let mut w: Vec<U256> = (0..arity).map(|i| U256::from_be_bytes::<32>(core::array::from_fn(|j| 0x41 + (i * 32 + j) as u8 % 0x80))).collect();
                for (j, i) in unknown.iter().enumerate() {
                    w[*i] = tu[j];
                }
                mods(Env::cd(&words(&w)))
            })
            .collect();
        for kv in product(&known.iter().map(|i| grid[*i].clone()).collect::<Vec<_>>()) {
            if ctx.done() {
                return;
            }
            let mut a = Asm::new();
            a.raw(pre);
            for i in (0..arity).rev() {
                match known.iter().position(|x| *x == i) {
                    Some(j) => a.push(kv[j]),
                    None => a.arg(i as u64),
                };
            }
            a.op(op);
            for i in 0..outs as u64 {
                a.pu(100 + i).op(SSTORE);
            }
            a.raw(post);
            ctx.case(&a.0, spec, cfgs, &envs);
        }
    }
}

pub fn product<T: Clone>(sets: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for s in sets {
        out = out
            .into_iter()
            .flat_map(|tu: Vec<T>| {
                s.iter().map(move |x| {
                    let mut tu = tu.clone();
                    tu.push(x.clone());
                    tu
                })
            })
            .collect();
    }
    out
}
