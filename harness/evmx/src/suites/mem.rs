//! Memory, hashing and data-copy operations.

use super::{tok::*, *};
use crate::host::*;

fn offs() -> Vec<U256> {
    vec![
        u(0),
        u(1),
        u(31),
        u(32),
        u(33),
        u(64),
        u(95),
        u(1000),
        u(70_000),
        u(u32::MAX as u64),
        u(1 << 32),
        u(i64::MAX as u64 - 31),
        u(i64::MAX as u64),
        pow2(63),
        pow2(64) - u(32),
        pow2(64) - u(1),
        pow2(64),
        pow2(64) + u(32),
        pow2(128),
        m1(),
    ]
}
fn lens() -> Vec<U256> {
    vec![u(0), u(1), u(31), u(32), u(33), u(70), u(4097), u(1 << 32), pow2(63), pow2(64) - u(1), pow2(64), pow2(64) + u(1), m1()]
}
fn small() -> Vec<U256> {
    vec![u(0), u(1), u(31), u(32), u(40), u(77), pow2(63), pow2(64) - u(1), pow2(64), pow2(64) + u(1), m1()]
}

pub fn envs() -> Vec<Env> {
    let data: Vec<u8> = (0..20u8).map(|i| i.wrapping_mul(11) ^ 0x5a).collect();
    let mut v = vec![];
    for a0 in [0u64, 33] {
        for w2 in [0u64, 1] {
            let mut cd = words(&[u(a0), m1() - u(5), u(w2)]);
            cd.extend_from_slice(&data);
            v.push(Env::cd(&cd));
        }
    }
    v
}
/// One taken-branch and one untaken-branch environment, the second nested in a caller's memory.
pub fn envs2() -> Vec<Env> {
    let mut e = envs();
    let mut b = e.remove(3);
    b.nested = true;
    vec![e.remove(0), b]
}

pub fn run(ctx: &mut Ctx) {
    grids(ctx);
    ctx.suite("return-data-operands");
    returndata_grid(ctx);
    let ev = envs();
    let ev2 = envs2();
    let full = memory(1);
    let core = memory(0);
    ctx.suite("memory-sequences-1");
    for spec in [L, SpecId::AMSTERDAM, SpecId::CANCUN] {
        for s in [Sink::Storage, Sink::Stack] {
            straight(ctx, &full, 1, s, spec, &[Cfg::PROD, Cfg::INSPECT, Cfg::NOOPT], &ev, false);
        }
    }
    ctx.suite("memory-gas");
    for d in 1..=2 {
        straight(ctx, &full, d, Sink::Pop, L, &[Cfg::PROD], &ev2, true);
    }
    ctx.suite("memory-sequences-2");
    straight(ctx, &full, 2, Sink::Storage, L, &PI, &ev, false);
    straight(ctx, &full, 2, Sink::Stack, L, &[Cfg::INSPECT], &ev, false);
    ctx.suite("memory-sequences-3");
    if ctx.quick() {
        straight(ctx, &full, 3, Sink::Storage, L, &[Cfg::PROD], &ev2, false);
        straight(ctx, &core, 3, Sink::Stack, L, &[Cfg::INSPECT], &ev2, false);
    } else {
        straight(ctx, &full, 3, Sink::Storage, L, &PI, &ev, false);
        straight(ctx, &full, 3, Sink::Stack, L, &[Cfg::INSPECT], &ev, false);
        ctx.suite("memory-sequences-4");
        straight(ctx, &core, 4, Sink::Storage, L, &[Cfg::PROD], &ev2, false);
    }
    ctx.suite("memory-empty-accesses");
    let toks = joins::empty_accesses();
    for d in 1..=3 {
        straight(ctx, &toks, d, Sink::Storage, L, &PI, &ev2, false);
    }
    straight(ctx, &toks, 2, Sink::Pop, L, &[Cfg::PROD], &ev2, true);
    ctx.suite("memory-joins");
    joins::memories(ctx, &[Cfg::PROD]);
    ctx.suite("memory-merges");
    joins::layers(ctx, &[Cfg::PROD]);
    ctx.suite("memory-branches");
    if ctx.quick() {
        branched(ctx, &core, Sink::Storage, L, &[Cfg::PROD], &ev2, false);
    } else {
        branched(ctx, &full, Sink::Storage, L, &PI, &ev, false);
    }
}

fn both(e: Env) -> Vec<Env> {
    vec![Env { nested: true, ..e.clone() }, e]
}

fn grids(ctx: &mut Ctx) {
    // Three written words, so that copies move something.
    let mut pre = Asm::new();
    for i in 0..3u64 {
        pre.push(U256::from_be_bytes([0x11 * (i as u8 + 1); 32])).mstore(i * 32);
    }
    let none: [u8; 0] = [];
    let all2 = [0u8, 1, 2, 3];
    let all3: Vec<u8> = (0..8).collect();
    for pre in [&none[..], &pre.0[..]] {
        ctx.suite("memory-operands");
        for (op, outs) in [(MLOAD, 1u8)] {
            operand_grid(ctx, op, 1, outs, &[offs()], pre, &[], L, &PI, &both, &[0, 1]);
        }
        let vals = vec![u(0), u(0xff), u(0x1ff), m1(), pow2(255)];
        for op in [MSTORE, MSTORE8] {
            operand_grid(ctx, op, 2, 0, &[offs(), vals.clone()], pre, &[], L, &PI, &both, &all2);
        }
        for op in [KECCAK, RETURN, REVERT] {
            let outs = (op == KECCAK) as u8;
            operand_grid(ctx, op, 2, outs, &[offs(), lens()], pre, &[], L, &PI, &both, &all2);
        }
        for op in [MCOPY, CALLDATACOPY, CODECOPY] {
            let src = if op == MCOPY { offs() } else { small() };
            let g = [offs(), src, lens()];
            let g = if ctx.quick() { g.map(thin) } else { g };
            operand_grid(ctx, op, 3, 0, &g, pre, &[MSIZE, 0x60, 0x63, SSTORE], L, &[Cfg::PROD], &both, &all3);
        }
        let g = [
            vec![U256::from_be_slice(OTHER.as_slice()), U256::from_be_slice(RICH.as_slice()), m1()],
            vec![u(0), u(33), pow2(63), pow2(64)],
            vec![u(0), u(39), u(40), pow2(64) - u(1), pow2(64), m1()],
            vec![u(0), u(1), u(33), pow2(64)],
        ];
        operand_grid(ctx, EXTCODECOPY, 4, 0, &g, pre, &[MSIZE, 0x60, 0x63, SSTORE], L, &[Cfg::PROD], &|e| vec![e], &(0..16).collect::<Vec<_>>());
    }
}
/// Return data of 0 and of 40 bytes, copied with every kind of offset and length.
pub fn returndata_grid(ctx: &mut Ctx) {
    let mut call = Asm::new();
    call.pu(0).pu(0).pu(0).pu(0).push(U256::from_be_slice(OTHER.as_slice())).pu(5000).op(0xfa).op(POP);
    let g = [
        vec![u(0), u(33), pow2(64) - u(1), pow2(64)],
        vec![u(0), u(1), u(39), u(40), u(41), pow2(63), pow2(64) - u(1), pow2(64), m1()],
        vec![u(0), u(1), u(39), u(40), u(41), pow2(64) - u(1), pow2(64) - u(39), pow2(64), m1()],
    ];
    // More of it than 16 bits can count.
    let big = [
        vec![u(0), u(33)],
        vec![u(0), u(4465), u(65_535), u(69_990), u(70_000), u(70_001)],
        vec![u(0), u(10), u(4464), u(65_536), u(70_000)],
    ];
    operand_grid(ctx, RETURNDATACOPY, 3, 0, &big, &call.0, &[MSIZE, 0x60, 0x63, SSTORE, 0x3d, 0x60, 0x64, SSTORE], L, &[Cfg::PROD], &|e| vec![Env { children: std::rc::Rc::from(&[Child::Ok(255)][..]), ..e }], &(0..8).collect::<Vec<_>>());
    for pre in [&[][..], &call.0[..]] {
        operand_grid(ctx, RETURNDATACOPY, 3, 0, &g, pre, &[MSIZE, 0x60, 0x63, SSTORE], L, &[Cfg::PROD], &|e| vec![e], &(0..8).collect::<Vec<_>>());
    }
}
fn thin(v: Vec<U256>) -> Vec<U256> {
    // Keeps the values that differ in kind: tiny, unaligned, aligned, too large for each width.
    v.iter().enumerate().filter(|(i, _)| *i < 3 || i % 2 == 0 || *i + 1 == v.len()).map(|(_, x)| *x).collect()
}
