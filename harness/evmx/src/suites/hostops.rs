//! State and environment operations.

use super::{tok::*, *};
use crate::host::*;

pub fn envs(full: bool) -> Vec<Env> {
    let mut v = vec![];
    for (a0, a1, w2) in [(u(0), u(3), u(0)), (U256::from_be_slice(OTHER.as_slice()), m1(), u(1)), (u(2), u(0), u(1)), (m1(), u(1), u(0))] {
        for st in [false, true] {
            let mut e = Env::cd(&words(&[a0, a1, w2]));
            e.is_static = st;
            v.push(e);
        }
    }
    if !full {
        v.truncate(3);
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    ctx.suite("return-data-operands");
    mem::returndata_grid(ctx);
    ctx.suite("storage-histories");
    storage_histories(ctx, false);
    ctx.suite("account-histories");
    account_histories(ctx);
    ctx.suite("wide-environment");
    wide(ctx);
    ctx.suite("state-gas");
    let e: Vec<Env> = RESERVOIRS.iter().map(|&reservoir| Env { reservoir, ..envs(false).swap_remove(0) }).collect();
    straight(ctx, &host(1), 1, Sink::Memory, SpecId::AMSTERDAM, &PI, &e, false);
    straight(ctx, &host(0), 2, Sink::Memory, SpecId::AMSTERDAM, &[Cfg::PROD], &e, false);
    let full = host(1);
    let core = host(0);
    ctx.suite("host-1");
    for spec in specs() {
        for s in [Sink::Stack, Sink::Memory] {
            straight(ctx, &full, 1, s, spec, &[Cfg::PROD, Cfg::INSPECT, Cfg::NOOPT], &envs(true), false);
        }
    }
    ctx.suite("host-gas");
    for spec in specs() {
        straight(ctx, &full, 1, Sink::Pop, spec, &[Cfg::PROD], &envs(true), true);
    }
    straight(ctx, &core, 2, Sink::Pop, L, &[Cfg::PROD], &envs(false), true);
    ctx.suite("host-operands");
    grids(ctx);
    ctx.suite("host-2");
    for spec in specs() {
        if ctx.quick() && spec != L {
            straight(ctx, &full, 2, Sink::Memory, spec, &[Cfg::PROD], &envs(false), false);
        } else {
            straight(ctx, &full, 2, Sink::Memory, spec, &[Cfg::PROD], &envs(true), false);
            straight(ctx, &full, 2, Sink::Stack, spec, &[Cfg::INSPECT], &envs(true), false);
        }
    }
    ctx.suite("host-3");
    if ctx.quick() {
        for spec in [L, SpecId::AMSTERDAM, SpecId::BERLIN] {
            straight(ctx, &core, 3, Sink::Memory, spec, &[Cfg::PROD], &envs(false), false);
        }
        let mut mix = core.clone();
        mix.extend(memory(0));
        mix.extend([raw(&[0x60, 7], 1), raw(&[0x80, 0x50], 0)]);
        straight(ctx, &mix, 2, Sink::Memory, L, &PI, &envs(true), false);
    } else {
        straight(ctx, &full, 3, Sink::Memory, L, &[Cfg::PROD], &envs(false), false);
        for spec in [SpecId::FRONTIER, SpecId::BERLIN, SpecId::AMSTERDAM] {
            straight(ctx, &core, 3, Sink::Memory, spec, &[Cfg::PROD], &envs(true), false);
        }
        let mut mix = core.clone();
        mix.extend(memory(0));
        straight(ctx, &mix, 3, Sink::Memory, L, &PI, &envs(false), false);
    }
    ctx.suite("host-branches");
    if ctx.quick() {
        branched(ctx, &core[..core.len().min(24)], Sink::Memory, L, &[Cfg::PROD], &envs(false), false);
    } else {
        branched(ctx, &core, Sink::Memory, L, &PI, &envs(true), false);
    }
}

/// Chains whose environment values use all of their bits, whose blocks are numbered above 2^64, and
/// which switch state gas on or off against the hardfork's default.
pub fn wide(ctx: &mut Ctx) {
    let full = host(1);
    for spec in specs() {
        for chain in [WIDE, TOGGLE_8037, WIDE | TOGGLE_8037] {
            let e: Vec<Env> = envs(true).into_iter().map(|e| Env { chain, reservoir: 1000, ..e }).collect();
            straight(ctx, &full, 1, Sink::Memory, spec, &PI, &e, chain == TOGGLE_8037);
        }
    }
    for spec in [L, SpecId::AMSTERDAM, SpecId::FRONTIER] {
        let e: Vec<Env> = [WIDE, TOGGLE_8037].iter().flat_map(|&chain| envs(false).into_iter().take(2).map(move |e| Env { chain, ..e })).collect();
        straight(ctx, &full, 2, Sink::Memory, spec, &[Cfg::PROD], &e, false);
        let blocks: Vec<U256> = [0u64, 243, 244, 245, 490, 498, 499, 500, 501].iter().flat_map(|&b| [u(b), u(b) + pow2(64)]).chain([pow2(64) - u(1), pow2(65) + u(499), m1()]).collect();
        operand_grid(ctx, 0x40, 1, 1, &[blocks], &[], &[], spec, &PI, &|e| vec![Env { chain: WIDE, ..e }], &[0, 1]);
        operand_grid(ctx, 0x49, 1, 1, &[vec![u(0), u(1), u(2), pow2(64), pow2(64) + u(1), m1()]], &[], &[], spec, &PI, &|e| vec![Env { chain: WIDE, ..e }], &[0, 1]);
    }
    // More input than 16 bits can count.
    let big: Vec<u8> = (0..70_000u32).map(|i| (i as u8) ^ (i >> 8) as u8).collect();
    let e: Vec<Env> = [false, true].iter().map(|&nested| Env { nested, ..Env::cd(&big) }).collect();
    let toks = vec![
        t(0x36, &[], 1),
        t(0x35, &[k(65_530)], 1),
        t(0x35, &[k(69_980)], 1),
        t(0x35, &[k(69_999)], 1),
        t(CALLDATACOPY, &[k(0), k(65_500), k(100)], 0),
        t(CALLDATACOPY, &[k(5), k(69_990), k(100)], 0),
        t(MSTORE, &[k(0), V::K(m1())], 0),
        t(MSTORE, &[k(64), k(7)], 0),
    ];
    for d in 1..=2 {
        straight(ctx, &toks, d, Sink::Memory, L, &PI, &e, false);
    }
    straight(ctx, &toks, 3, Sink::Memory, L, &[Cfg::PROD], &e[1..], false);
}

/// State gas comes out of the reservoir first.
pub const RESERVOIRS: [u64; 5] = [0, 1, 37_568, 200_000, 10_000_000];

/// Histories of storage: every sequence of reads and writes of a zero and of a filled slot, in
/// every hardfork, each with several amounts of state gas where there is such a thing.
pub fn storage_histories(ctx: &mut Ctx, sweep: bool) {
    let mut toks = vec![];
    for slot in [0u64, 1, 500] {
        for val in [0u64, 1, 2, 5] {
            toks.push(t(SSTORE, &[k(slot), k(val)], 0));
        }
    }
    toks.push(t(SSTORE, &[V::A(0), V::A(1)], 0));
    toks.push(t(SLOAD, &[k(0)], 1));
    toks.push(t(SLOAD, &[k(1)], 1));
    toks.push(t(GAS, &[], 1));
    for spec in specs() {
        let last = spec == SpecId::AMSTERDAM;
        let envs: Vec<Env> = RESERVOIRS[..if last { 5 } else { 1 }].iter().map(|&reservoir| Env { reservoir, ..Env::cd(&words(&[u(1), u(0), u(1)])) }).collect();
        straight(ctx, &toks, 2, Sink::Memory, spec, &[Cfg::PROD], &envs, sweep);
        if last || spec == L || !ctx.quick() {
            straight(ctx, &toks, 3, Sink::Memory, spec, &[Cfg::PROD], &envs[..1], false);
            straight(ctx, &toks[..4], 4, Sink::Memory, spec, &[Cfg::PROD], &envs, false);
        }
    }
}

/// Every way of touching an account, after every other way of touching the same or another one, in
/// every hardfork, under every gas limit that matters.
pub fn account_histories(ctx: &mut Ctx) {
    let ghost = V::K(u(0x999));
    let poor = V::K(u(0xd2));
    let gone = V::K(u(0xd1));
    let who = [ghost, poor, gone, addr(OTHER), addr(SELF), addr(DELEG), V::A(0)];
    let toks = |w: V| {
        vec![
            t(0x31, &[w], 1),
            t(0x3b, &[w], 1),
            t(0x3f, &[w], 1),
            t(EXTCODECOPY, &[w, k(0), k(0), k(33)], 0),
            t(0xf1, &[k(5000), w, k(0), k(0), k(0), k(0), k(0)], 1),
            t(0xf1, &[k(5000), w, k(1), k(0), k(0), k(0), k(32)], 1),
            t(0xfa, &[k(5000), w, k(0), k(0), k(0), k(0)], 1),
            t(0xff, &[w], 0),
        ]
    };
    for spec in specs() {
        let envs: Vec<Env> = RESERVOIRS[..if spec == SpecId::AMSTERDAM { 3 } else { 1 }].iter().map(|&reservoir| Env { reservoir, ..Env::cd(&words(&[u(0x999), u(1), u(1)])) }).collect();
        for (i, a) in who.iter().enumerate() {
            for b in who.iter().skip(if ctx.quick() { i } else { 0 }).take(if ctx.quick() { 1 } else { 9 }) {
                for x in toks(*a).iter().take(7) {
                    for y in toks(*b) {
                        if ctx.done() {
                            return;
                        }
                        let mut c = Asm::new();
                        c.raw(&x.code).raw(&y.code);
                        ctx.case_sweep(&c.0, spec, &[Cfg::PROD], &envs);
                    }
                }
            }
        }
    }
}

fn grids(ctx: &mut Ctx) {
    let st = |e: Env| vec![Env { is_static: true, ..e.clone() }, e];
    let addrs: Vec<U256> = [SELF, OTHER, RICH, DELEG, BROKEN, CALLER]
        .iter()
        .map(|a| U256::from_be_slice(a.as_slice()))
        .chain([
            u(0),
            u(1),
            m1(),
            // Beneficiaries of an already destroyed contract, one without balance, and both.
            u(0xd1),
            u(0xd2),
            u(0xd3),
            // Dirty high bytes above an address.
            U256::from_be_slice(OTHER.as_slice()) | (u(0xff) << 160),
            U256::from_be_slice(OTHER.as_slice()) | (u(1) << 255),
        ])
        .collect();
    let slots = vec![u(0), u(1), u(2), u(69), u(0xdb), u(500), pow2(64), m1()];
    let vals = vec![u(0), u(1), u(2), u(42), m1()];
    let cd: Vec<U256> = vec![u(0), u(1), u(31), u(32), u(33), u(64), u(u32::MAX as u64), pow2(63), pow2(64) - u(32), pow2(64) - u(31), pow2(64) - u(1), pow2(64), pow2(64) + u(1), pow2(128), m1() - u(31), m1()];
    let blocks: Vec<U256> = vec![u(0), u(243), u(244), u(245), u(490), u(498), u(499), u(500), u(501), u(u64::MAX), pow2(64), pow2(64) + u(499), m1()];
    let sp: Vec<SpecId> = if ctx.quick() { vec![SpecId::FRONTIER, SpecId::TANGERINE, SpecId::ISTANBUL, SpecId::BERLIN, L, SpecId::AMSTERDAM] } else { specs() };
    for spec in sp {
        for op in [0x31u8, 0x3b, 0x3f] {
            operand_grid(ctx, op, 1, 1, &[addrs.clone()], &[], &[], spec, &PI, &st, &[0, 1]);
        }
        // What follows shows whether the account became warm.
        let few: Vec<U256> = vec![U256::from_be_slice(OTHER.as_slice()), U256::from_be_slice(BROKEN.as_slice()), u(0x999), U256::from_be_slice(DELEG.as_slice())];
        let ext = vec![few, vec![u(0), u(33), pow2(32), pow2(64), m1()], vec![u(0), u(5), pow2(32), pow2(64), m1()], vec![u(0), u(1), u(33), pow2(64)]];
        for post in [&[][..], &[0x61, 0x09, 0x99, 0x31, 0x60, 101, SSTORE][..]] {
            operand_grid(ctx, EXTCODECOPY, 4, 0, &ext, &[], post, spec, &[Cfg::PROD], &st, &[0, 1, 8, 9, 14, 15]);
        }
        operand_grid(ctx, 0xff, 1, 0, &[addrs.clone()], &[], &[], spec, &PI, &st, &[0, 1]);
        for op in [SLOAD, TLOAD] {
            operand_grid(ctx, op, 1, 1, &[slots.clone()], &[], &[], spec, &PI, &st, &[0, 1]);
        }
        for op in [SSTORE, TSTORE] {
            // A read of the same slot follows.
            operand_grid(ctx, op, 2, 0, &[slots.clone(), vals.clone()], &[], &[0x5f, SLOAD, 0x60, 0x60, MSTORE], spec, &PI, &st, &[0, 1, 2, 3]);
        }
        operand_grid(ctx, 0x35, 1, 1, &[cd.clone()], &[], &[], spec, &PI, &st, &[0, 1]);
        operand_grid(ctx, 0x40, 1, 1, &[blocks.clone()], &[], &[], spec, &PI, &st, &[0, 1]);
        operand_grid(ctx, 0x49, 1, 1, &[vec![u(0), u(1), u(2), u(256), pow2(32), pow2(64), pow2(64) + u(1), m1()]], &[], &[], spec, &PI, &st, &[0, 1]);
        for n in 0..=4u8 {
            let mut g = vec![vec![u(0), u(1), u(40), pow2(63), pow2(64), m1()], vec![u(0), u(1), u(33), pow2(64), m1()]];
            for i in 0..n {
                g.push(vec![u(0xa0 + i as u64), m1() - u(i as u64)]);
            }
            let masks: Vec<u8> = if n <= 2 { (0..1 << (2 + n)).collect() } else { vec![0, 1, 2, 3, 0x3f & ((1 << (2 + n)) - 1), 1 << (1 + n)] };
            operand_grid(ctx, 0xa0 + n, 2 + n as usize, 0, &g, &[0x7f, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 0x60, 0, MSTORE], &[], spec, &[Cfg::PROD], &st, &masks);
        }
    }
}
