//! Suspension at calls and creations, and resumption.

use super::{tok::*, *};
use crate::host::*;
use std::rc::Rc;

pub const CHILDREN: [Child; 6] =
    [Child::Ok(40), Child::Ok(0), Child::Ok(3), Child::Revert(0), Child::Revert(40), Child::Halt];

fn with_children(base: &Env, ch: &[Child]) -> Env {
    Env { children: Rc::from(ch), ..base.clone() }
}

pub fn envs(n: usize) -> Vec<Env> {
    let base = [
        Env::cd(&words(&[u(0), m1() - u(5), u(0)])),
        Env { nested: true, ..Env::cd(&words(&[U256::from_be_slice(OTHER.as_slice()), u(3), u(1)])) },
        Env { is_static: true, ..Env::cd(&words(&[u(33), u(3), u(1)])) },
    ];
    let mut v = vec![];
    for (i, b) in base.iter().enumerate() {
        for c in CHILDREN.iter().take(if i == 0 { n } else { 2 }) {
            v.push(with_children(b, &[*c]));
        }
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    ctx.suite("return-data-operands");
    mem::returndata_grid(ctx);
    grids(ctx);
    let full = calls(1);
    let core = calls(0);
    ctx.suite("suspend-1");
    for spec in specs() {
        for s in [Sink::Stack, Sink::Memory, Sink::Storage] {
            straight(ctx, &full, 1, s, spec, &[Cfg::PROD, Cfg::INSPECT, Cfg::NOOPT], &envs(6), false);
        }
    }
    ctx.suite("suspend-2");
    // Two in a row, under every pair of outcomes.
    let mut pairs: Vec<Env> = vec![];
    for a in CHILDREN {
        for b in CHILDREN {
            pairs.push(with_children(&Env::cd(&words(&[u(0), u(3), u(1)])), &[a, b]));
        }
    }
    straight(ctx, &full, 2, Sink::Memory, L, &[Cfg::PROD], &pairs, false);
    straight(ctx, &full, 2, Sink::Stack, L, &[Cfg::INSPECT], &envs(3), false);
    for spec in [SpecId::FRONTIER, SpecId::BYZANTIUM, SpecId::BERLIN, SpecId::AMSTERDAM] {
        straight(ctx, &core, 2, Sink::Memory, spec, &[Cfg::PROD], &envs(6), false);
    }
    ctx.suite("suspend-state-gas");
    // State gas handed through to the child and back.
    let res: Vec<Env> = hostops::RESERVOIRS[1..].iter().flat_map(|&reservoir| envs(6).into_iter().map(move |e| Env { reservoir, ..e })).collect();
    straight(ctx, &full, 1, Sink::Memory, SpecId::AMSTERDAM, &PI, &res, false);
    straight(ctx, &core, 2, Sink::Memory, SpecId::AMSTERDAM, &[Cfg::PROD], &res, false);
    ctx.suite("suspend-wide");
    // Environment values that use all of their bits, state gas against the hardfork's default.
    for spec in specs() {
        let e: Vec<Env> = [WIDE, TOGGLE_8037].iter().flat_map(|&chain| envs(2).into_iter().map(move |e| Env { chain, reservoir: 1000, ..e })).collect();
        straight(ctx, &full, 1, Sink::Memory, spec, &[Cfg::PROD], &e, spec == L);
    }
    ctx.suite("suspend-context");
    // Everything around a suspension: values known and unknown at compile time below it, memory
    // operations before and after, and uses of the old values afterwards.
    let mut mix = core.clone();
    mix.extend(memory(0));
    mix.extend([
        raw(&[0x60, 7], 1),
        raw(&[0x36], 1),
        t(SLOAD, &[k(0)], 1),
        t(SSTORE, &[k(0), k(7)], 0),
        t(GAS, &[], 1),
    ]);
    let pair = pairs[1..=1].iter().chain(&pairs[10..=10]).cloned().collect::<Vec<_>>();
    if ctx.quick() {
        straight(ctx, &mix, 3, Sink::Memory, L, &[Cfg::PROD], &pair, false);
    } else {
        straight(ctx, &mix, 3, Sink::Memory, L, &PI, &envs(6), false);
        straight(ctx, &mix, 3, Sink::Stack, L, &[Cfg::INSPECT], &pairs, false);
        straight(ctx, &core, 4, Sink::Memory, L, &[Cfg::PROD], &pairs[..12], false);
    }
    stackful(ctx);
    ctx.suite("suspend-branches");
    let mut small = core.clone();
    small.extend([t(MLOAD, &[k(0)], 1), t(MSTORE, &[k(64), k(9)], 0), t(SSTORE, &[k(0), k(7)], 0), t(MCOPY, &[k(1), k(0), k(33)], 0), raw(&[0x60, 7], 1)]);
    branched(ctx, &small, Sink::Memory, L, &PI, &envs(if ctx.quick() { 2 } else { 6 }), false);
    flow(ctx);
    if !ctx.quick() {
        branched(ctx, &mix, Sink::Memory, L, &[Cfg::PROD], &envs(2), false);
    }
}

/// Values below the operands of a suspension survive it in place.
fn stackful(ctx: &mut Ctx) {
    ctx.suite("suspend-stack");
    let below: Vec<Vec<u8>> = vec![
        vec![0x60, 0x11],
        vec![0x60, 0, 0x35],
        vec![0x36, 0x60, 3, 0x01],
        vec![0x60, 1, 0x60, 2, 0x01],
        vec![0x80],
        vec![0x90],
    ];
    let after: Vec<Vec<u8>> = vec![
        vec![],
        vec![0x01],
        vec![0x90],
        vec![0x91],
        vec![0x82, 0x82, 0x03],
        vec![0x50],
        vec![0x50, 0x80],
        vec![0x81, 0x60, 0, 0x52],
    ];
    for c in calls(0).iter().take(6) {
        each_seq(below.len(), 3, |s| {
            for af in &after {
                for af2 in &after {
                    if !ctx.mine() {
                        continue;
                    }
                    let mut a = Asm::new();
                    for i in s {
                        a.raw(&below[*i]);
                    }
                    a.raw(&c.code).raw(af).raw(&c.code).raw(af2);
                    ctx.force(&a.0, L, &[Cfg::PROD, Cfg::INSPECT], &envs(2)[..2]);
                }
            }
            !ctx.done()
        });
    }
}

/// Suspensions in loops, routines and behind dynamic jumps, many resume points.
fn flow(ctx: &mut Ctx) {
    ctx.suite("suspend-flow");
    for c in calls(1) {
        // A routine called from two sites, containing the suspension.
        for shape in 0..3u8 {
            if !ctx.mine() {
                continue;
            }
            let mut code = vec![];
            let mut l = [0u16; 4];
            for _ in 0..2 {
                let mut a = Asm::new();
                match shape {
                    0 => {
                        a.p2(l[0]).p2(l[2]).op(JUMP);
                    }
                    1 => {
                        // The routine is entered by an unresolved jump.
                        a.p2(l[0]).arg(0).op(JUMP);
                    }
                    _ => {
                        a.p2(l[0]).arg(2).p2(l[2]).op(JUMPI);
                    }
                }
                l[0] = a.len() as u16;
                a.op(JUMPDEST).pu(0x99).p2(l[1]).p2(l[2]).op(JUMP);
                l[1] = a.len() as u16;
                a.op(JUMPDEST).pu(0).op(MSTORE).ret(0, 96);
                l[2] = a.len() as u16;
                a.op(JUMPDEST);
                a.raw(&c.code);
                for _ in 0..c.outs {
                    a.pu(128).op(MSTORE);
                }
                a.pu(64).op(MLOAD).pu(1).op(0x01).pu(64).op(MSTORE).op(JUMP);
                code = a.0;
            }
            let mut ev = vec![];
            for w0 in [u(l[2] as u64), u(l[0] as u64), u(0)] {
                for w2 in [u(0), u(1)] {
                    for ch in [&CHILDREN[..1], &CHILDREN[3..6], &CHILDREN[..]] {
                        ev.push(with_children(&Env { gas: 400_000, ..Env::cd(&words(&[w0, u(3), w2])) }, ch));
                    }
                }
            }
            ctx.force(&code, L, &PI, &ev);
        }
    }
    // Many resume points.
    for n in [2usize, 3, 4, 5, 9, 11] {
        for c in calls(0).iter().take(6) {
            if !ctx.mine() {
                continue;
            }
            let mut a = Asm::new();
            for i in 0..n as u64 {
                a.pu(0x70 + i).raw(&c.code).op(0x01).pu(i * 32).op(MSTORE);
            }
            a.ret(0, n as u64 * 32);
            ctx.force(&a.0, L, &PI, &envs(6)[..6]);
        }
    }
}

fn grids(ctx: &mut Ctx) {
    ctx.suite("suspend-operands");
    let st = |e: Env| vec![e.clone(), Env { children: Rc::from(&[Child::Revert(40)][..]), is_static: true, ..e }];
    let gas = vec![u(0), u(2300), u(1_000_000_000), u(u64::MAX), pow2(64), m1()];
    let to: Vec<U256> = [OTHER, RICH, DELEG, BROKEN, SELF]
        .iter()
        .map(|a| U256::from_be_slice(a.as_slice()))
        .chain([u(0x999), U256::from_be_slice(OTHER.as_slice()) | pow2(200)])
        .collect();
    let value = vec![u(0), u(1), m1()];
    let io: Vec<(U256, U256)> = vec![
        (u(0), u(0)),
        (u(0), u(32)),
        (u(31), u(33)),
        (m1(), u(0)),
        (pow2(64), u(1)),
        (u(u64::MAX), u(1)),
        (u(0), u(u64::MAX)),
        (u(1), m1()),
        (u(1 << 40), u(0)),
        (u(4096), u(70)),
        (u(3), u(5000)),
        (u(70_000), u(1)),
    ];
    let sp: Vec<SpecId> = if ctx.quick() { vec![SpecId::HOMESTEAD, SpecId::TANGERINE, SpecId::BERLIN, L, SpecId::AMSTERDAM] } else { specs() };
    // One of gas/to/value varies together with the memory ranges.
    for spec in sp {
        for op in [CALL, CALLCODE, DELEGATECALL, STATICCALL] {
            let hasv = matches!(op, CALL | CALLCODE);
            let mut combos: Vec<(U256, U256, U256)> = vec![];
            for g in &gas {
                for a in &to {
                    for v in if hasv { &value[..] } else { &value[..1] } {
                        combos.push((*g, *a, *v));
                    }
                }
            }
            for (n, (g, a, v)) in combos.iter().enumerate() {
                let full = n % 7 == 0;
                for (i, o) in product(&[io.clone(), io.clone()]).into_iter().map(|x| (x[0], x[1])) {
                    if !full && i != io[1] && o != io[2] {
                        continue;
                    }
                    for dynamic in [false, true] {
                        if !ctx.mine() {
                            continue;
                        }
                        let mut args = vec![*g, *a];
                        if hasv {
                            args.push(*v);
                        }
                        args.extend([i.0, i.1, o.0, o.1]);
                        let mut p = Asm::new();
                        for (j, x) in args.iter().enumerate().rev() {
                            if dynamic {
                                p.arg(j as u64);
                            } else {
                                p.push(*x);
                            }
                        }
                        p.op(op).pu(0x60).op(MSTORE).op(0x3d).pu(0x80).op(MSTORE).op(MSIZE).pu(0xa0).op(MSTORE);
                        let e = if dynamic { Env::cd(&words(&args)) } else { Env::default() };
                        ctx.force(&p.0, spec, &[Cfg::PROD], &st(e));
                    }
                }
            }
        }
        for op in [CREATE, CREATE2] {
            let ranges: Vec<(U256, U256)> = vec![
                (u(0), u(0)),
                (u(0), u(32)),
                (u(31), u(65)),
                (u(0), u(96)),
                (u(0), u(97)),
                (m1(), u(0)),
                (pow2(64), u(1)),
                (u(u64::MAX), u(2)),
                (u(0), pow2(64)),
                (u(0), m1()),
            ];
            for v in [u(0), u(1), u(1001), m1()] {
                for r in &ranges {
                    for salt in if op == CREATE2 { vec![u(0), m1()] } else { vec![u(0)] } {
                        for dynamic in [false, true] {
                            if !ctx.mine() {
                                continue;
                            }
                            let mut args = vec![v, r.0, r.1];
                            if op == CREATE2 {
                                args.push(salt);
                            }
                            let mut p = Asm::new();
                            p.push(U256::from_be_bytes([0x5b; 32])).mstore(0);
                            for (j, x) in args.iter().enumerate().rev() {
                                if dynamic {
                                    p.arg(j as u64);
                                } else {
                                    p.push(*x);
                                }
                            }
                            p.op(op).pu(0x60).op(MSTORE).op(0x3d).pu(0x80).op(MSTORE);
                            let e = if dynamic { Env::cd(&words(&args)) } else { Env::default() };
                            ctx.force(&p.0, spec, &PI, &st(e));
                        }
                    }
                }
            }
        }
    }
}
