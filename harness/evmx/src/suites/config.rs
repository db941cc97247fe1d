//! Independence from compiler settings.

use super::{flow::*, tok::*, *};

/// Every combination of the settings.
pub fn matrix(full: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for bits in 0..32u8 {
        for lim in [None, Some(0), Some(1), Some(40), Some(u64::MAX)] {
            if !full && (lim.is_some() && bits % 5 != 0 || (bits & 16 != 0 && bits & 3 != 3)) {
                continue;
            }
            v.push(Cfg {
                inspect_stack: bits & 1 != 0,
                dedup: bits & 2 == 0,
                dse: bits & 4 == 0,
                single_error: bits & 8 == 0,
                debug_assertions: bits & 16 != 0,
                gas_metering: true,
                compiler_gas_limit: lim,
                custom_gas: false,
                bound_checks: true,
            });
        }
    }
    v
}
fn main4() -> Vec<Cfg> {
    vec![
        Cfg::PROD,
        Cfg { dedup: false, ..Cfg::PROD },
        Cfg { dse: false, ..Cfg::PROD },
        Cfg { inspect_stack: true, ..Cfg::PROD },
        Cfg { dedup: false, dse: false, ..Cfg::INSPECT },
        Cfg { compiler_gas_limit: Some(0), ..Cfg::PROD },
    ]
}

/// Block pairs that are, or almost are, duplicates of each other.
fn twins() -> Vec<Vec<u8>> {
    vec![
        vec![0x5f, 0x5f, RETURN],
        vec![0x60, 0, 0x60, 0, RETURN],
        vec![0x60, 32, 0x5f, RETURN],
        vec![0x5f, 0x5f, REVERT],
        vec![0x00],
        vec![0xfe],
        vec![0x60, 1, 0x60, 2, 0x01, 0x60, 0, MSTORE, 0x60, 32, 0x5f, RETURN],
        vec![0x60, 2, 0x60, 2, 0x01, 0x60, 0, MSTORE, 0x60, 32, 0x5f, RETURN],
        vec![0x60, 0, MSTORE, 0x60, 32, 0x5f, RETURN],
        vec![0x01, 0x60, 0, MSTORE, 0x60, 32, 0x5f, RETURN],
        vec![PC, 0x60, 0, MSTORE, 0x60, 32, 0x5f, RETURN],
        vec![0x80, 0x60, 0, MSTORE, 0x60, 32, 0x5f, RETURN],
        vec![JUMP],
        vec![0x90, JUMP],
        vec![POP],
        vec![0x60, 9],
        vec![0x5f, 0x5f, 0x5f, 0x5f, 0x5f, 0x61, 0x13, 0x88, 0x61, 0x06, 0x90, 0xf1, 0x60, 0, MSTORE, 0x60, 32, 0x5f, RETURN],
        vec![0x60, 7, 0x60, 0, SSTORE, 0x00],
        vec![0x60, 0, 0x35, 0x60, 0, MSTORE, 0x60, 32, 0x5f, RETURN],
    ]
}

pub fn run(ctx: &mut Ctx) {
    let m = matrix(!ctx.quick());
    ctx.suite("twin-blocks");
    // `if c goto L1; push a; push b; B0; L1: push a'; push b'; B1; L2: B2`, over all block triples.
    let tw = twins();
    let cfgs = main4();
    for variant in 0..6u8 {
        each_seq(tw.len(), 3, |s| {
            if ctx.mine() {
                let (code, labels) = twin_prog(&tw[s[0]], &tw[s[1]], &tw[s[2]], variant);
                let mut envs = vec![];
                for w0 in [u(5), u(labels[1] as u64)] {
                    for bits in 0..4u64 {
                        envs.push(Env { gas: 200_000, ..Env::cd(&words(&[w0, u(bits & 1), u(bits >> 1)])) });
                    }
                }
                let thin = ctx.quick();
                let c = if thin { &cfgs[..3] } else { &cfgs[..] };
                ctx.force(&code, L, c, if thin { &envs[..4] } else { &envs });
            }
            !ctx.done()
        });
    }
    ctx.suite("near-twins");
    near_twins(ctx, &cfgs[..3], if ctx.quick() { 2 } else { 3 });
    ctx.suite("immediate-twins");
    imm_twins(ctx, &cfgs[..3]);
    ctx.suite("merge-layers");
    joins::layers(ctx, &[Cfg::PROD, Cfg { dedup: false, ..Cfg::PROD }]);
    ctx.suite("settings-matrix-joins");
    joins::values(ctx, &cfgs, if ctx.quick() { 7 } else { 10 });
    ctx.suite("settings-matrix-graphs");
    let kinds = small_kinds();
    graphs_of(ctx, 3, &kinds[..if ctx.quick() { 9 } else { 14 }], &m, false, false);
    graphs(ctx, 2, &all_bodies(2), &all_terms(2), &cfgs, false, false);
    graphs_of(ctx, 3, &kinds, &cfgs, false, false);
    ctx.suite("settings-matrix-sequences");
    let inter = gas::interacting();
    straight(ctx, &inter, 2, Sink::Memory, L, &m, &[gas::env()], false);
    straight(ctx, &memory(1), 2, Sink::Storage, L, &cfgs, &mem::envs2(), false);
    ctx.suite("dead-values");
    // Values computed and dropped, overwritten or shuffled away.
    let toks: Vec<Vec<u8>> = vec![
        vec![0x60, 3],
        vec![0x5f],
        vec![0x60, 0, 0x35],
        vec![0x36],
        vec![POP],
        vec![0x80],
        vec![0x81],
        vec![0x90],
        vec![0x91],
        vec![0x01],
        vec![0x04],
        vec![0x15],
        vec![0x20],
        vec![0x51],
        vec![0x54],
        vec![0x0a],
        vec![0x60, 0, 0x52],
        vec![GAS, POP],
        vec![JUMPDEST],
    ];
    let d = if ctx.quick() { 3 } else { 4 };
    let ev = [Env::cd(&words(&[u(9), u(2)]))];
    each_seq(toks.len(), d, |s| {
        if ctx.mine() {
            let mut a = Asm::new();
            a.arg(0).pu(4).pu(6);
            for i in s {
                a.raw(&toks[*i]);
            }
            let tail = a.0.clone();
            ctx.force(&tail, L, &cfgs, &ev);
            // With everything dead at a diverging end.
            a.op(POP).pu(0).op(MSTORE).ret(0, 64);
            ctx.force(&a.0, L, &cfgs, &ev);
        }
        !ctx.done()
    });
    ctx.suite("crowded-stack");
    joins::crowded(ctx, &cfgs[..if ctx.quick() { 3 } else { 6 }], L);
    joins::crowded(ctx, &cfgs[..3], SpecId::AMSTERDAM);
    ctx.suite("subroutines-matrix");
    subroutines(ctx, &m);
    ctx.suite("bound-checks-off");
    let lax = [Cfg { bound_checks: false, ..Cfg::PROD }, Cfg { bound_checks: false, ..Cfg::INSPECT }];
    graphs(ctx, 2, &all_bodies(2), &all_terms(2), &lax, false, false);
    graphs_of(ctx, 3, &kinds, &lax[..if ctx.quick() { 1 } else { 2 }], false, false);
    straight(ctx, &inter, 2, Sink::Memory, L, &lax, &[gas::env()], false);
    joins::values(ctx, &lax, if ctx.quick() { 6 } else { 9 });
    subroutines(ctx, &lax);
    ctx.suite("gas-metering-off");
    let off = [Cfg { gas_metering: false, ..Cfg::PROD }, Cfg { gas_metering: false, ..Cfg::INSPECT }];
    let unmetered: Vec<Tok> = inter.into_iter().filter(|x| x.code != [GAS]).collect();
    straight(ctx, &unmetered, 2, Sink::Memory, L, &off, &[gas::env()], false);
}

/// One program holding every body of a family as an arm of one dispatch, so that every pair of arms
/// is a candidate for merging. All arms end alike; each is then entered in turn.
pub fn near_twins(ctx: &mut Ctx, cfgs: &[Cfg], depth: usize) {
    let p = |n: u8, v: u128| {
        let mut x = vec![0x5f + n];
        let b = U256::from(v).to_be_bytes::<32>();
        x.extend_from_slice(&b[32 - n as usize..]);
        x
    };
    // Pushes of every encoding class: zero, small, each single non-zero byte, wide.
    let pushes: Vec<Vec<u8>> = vec![
        vec![0x5f],
        p(1, 0),
        p(1, 1),
        p(1, 0x80),
        p(2, 0x0100),
        p(2, 1),
        p(3, 0x01_0000),
        p(4, 0),
        p(4, 0x0001_0000),
        p(4, 0x0100_0000),
        p(4, 0x8000_0000),
        p(4, 0xdead_beef),
        p(5, 0x01_0000_0000),
        p(8, 0x8000_0000_0000_0000),
        p(32, 0),
        p(32, 0x8000_0000),
        vec![0x7f; 33],
    ];
    let ops: Vec<Vec<u8>> = [0x01u8, 0x02, 0x03, 0x10, 0x15, 0x36, 0x59, 0x80, 0x81, 0x90, 0x91, 0x50]
        .iter()
        .map(|b| vec![*b])
        .collect();
    let wide: Vec<usize> = (0..pushes.len()).filter(|i| [10, 11, 12, 13, 16].contains(i)).collect();
    let mut toks = pushes.clone();
    toks.extend(ops);
    for end in 0..4u8 {
        // Which wide constant the program mentions first.
        for first in std::iter::once(None).chain(wide.iter().copied().map(Some)) {
            if !ctx.mine() {
                continue;
            }
            let mut bodies: Vec<Vec<u8>> = vec![];
            for n in 1..=depth {
                each_seq(toks.len(), n, |s| {
                    bodies.push(s.iter().flat_map(|i| toks[*i].iter().copied()).collect());
                    true
                });
            }
            if let Some(f) = first {
                bodies.sort_by_key(|b| !b.starts_with(&pushes[f]));
            }
            let code = dispatch(&bodies, end);
            let envs: Vec<Env> = (0..bodies.len() as u64)
                .map(|i| Env { gas: 1_000_000, ..Env::cd(&words(&[u(i), u(3)])) })
                .collect();
            ctx.bump("merge_candidate_pairs", (bodies.len() * (bodies.len() - 1) / 2) as u64);
            ctx.force(&code, L, cfgs, &envs);
        }
    }
}

/// Arms that differ only in the immediate of `DUPN`, `SWAPN` or `EXCHANGE`.
pub fn imm_twins(ctx: &mut Ctx, cfgs: &[Cfg]) {
    for op in [0xe6u8, 0xe7, 0xe8] {
        for end in 0..2 {
            if !ctx.mine() {
                continue;
            }
            // A part of the immediates per program.
            for lo in [0usize, 40, 128, 168] {
                let bodies: Vec<Vec<u8>> = (lo..lo + 40).map(|i| vec![op, i as u8]).collect();
                let mut arm = vec![0u16; bodies.len()];
                let mut fin = 0u16;
                let mut code = vec![];
                for _ in 0..2 {
                    let mut a = Asm::new();
                    for i in 0..80u64 {
                        a.pu(0x40 + i);
                    }
                    for (i, x) in arm.iter().enumerate() {
                        a.arg(0).pu(i as u64).op(0x14).p2(*x).op(JUMPI);
                    }
                    a.op(0x00);
                    let dump = |a: &mut Asm| {
                        for i in 0..40u64 {
                            a.mstore(i * 32);
                        }
                        a.ret(0, 40 * 32);
                    };
                    for (i, b) in bodies.iter().enumerate() {
                        arm[i] = a.len() as u16;
                        a.op(JUMPDEST).raw(b);
                        if end == 0 {
                            a.p2(fin).op(JUMP);
                        } else {
                            dump(&mut a);
                        }
                    }
                    fin = a.len() as u16;
                    a.op(JUMPDEST);
                    dump(&mut a);
                    code = a.0;
                }
                let envs: Vec<Env> = (0..=bodies.len() as u64).map(|i| Env::cd(&words(&[u(i)]))).collect();
                ctx.force(&code, SpecId::AMSTERDAM, cfgs, &envs);
            }
        }
    }
}

fn dispatch(bodies: &[Vec<u8>], end: u8) -> Vec<u8> {
    let n = bodies.len();
    let mut arm = vec![0usize; n];
    let mut node = vec![0usize; n + 1];
    let mut fin = 0usize;
    let mut code = vec![];
    fn p3(a: &mut Asm, v: usize) {
        a.op(0x62).raw(&(v as u32).to_be_bytes()[1..]);
    }
    fn tree(a: &mut Asm, lo: usize, hi: usize, arm: &[usize], node: &mut [usize]) {
        if hi - lo == 1 {
            p3(a, arm[lo]);
            a.op(JUMP);
            return;
        }
        let mid = (lo + hi) / 2;
        // word 0 >= mid goes right
        p3(a, mid - 1);
        a.arg(0).op(0x11);
        p3(a, node[mid]);
        a.op(JUMPI);
        tree(a, lo, mid, arm, node);
        node[mid] = a.len();
        a.op(JUMPDEST);
        tree(a, mid, hi, arm, node);
    }
    for _ in 0..2 {
        let mut a = Asm::new();
        a.pu(5).arg(1).pu(3).pu(4);
        tree(&mut a, 0, n, &arm, &mut node);
        for (i, b) in bodies.iter().enumerate() {
            arm[i] = a.len();
            a.op(JUMPDEST).raw(b);
            match end {
                0 => {
                    a.pu(0).op(MSTORE).ret(0, 32);
                }
                1 => {
                    a.pu(7).op(SSTORE).op(0x00);
                }
                2 => {
                    p3(&mut a, fin);
                    a.op(JUMP);
                }
                _ => {
                    a.pu(0).op(MSTORE).pu(32).pu(0).op(REVERT);
                }
            }
        }
        fin = a.len();
        a.op(JUMPDEST).op(0x01).op(0x03).pu(0).op(MSTORE).ret(0, 32);
        code = a.0;
    }
    code
}

fn twin_prog(b0: &[u8], b1: &[u8], b2: &[u8], variant: u8) -> (Vec<u8>, Vec<u16>) {
    let mut l = [0u16; 3];
    let mut code = vec![];
    for _ in 0..2 {
        let mut a = Asm::new();
        // Values the blocks consume: a label and a number, known or unknown.
        match variant {
            0 => {
                a.p2(l[2]).pu(8);
            }
            1 => {
                a.p2(l[2]).arg(0);
            }
            2 => {
                a.arg(0).p2(l[2]);
            }
            3 => {
                a.pu(8).p2(l[1]);
            }
            4 => {
                a.pu(1).pu(2).pu(3);
            }
            _ => {}
        }
        a.arg(1).p2(l[0]).op(JUMPI);
        if variant == 5 {
            a.p2(l[2]).pu(8);
        }
        a.arg(2).p2(l[1]).op(JUMPI);
        a.raw(b0);
        l[0] = a.len() as u16;
        a.op(JUMPDEST);
        if variant == 5 {
            a.p2(l[1]).pu(9);
        }
        a.raw(b1);
        l[1] = a.len() as u16;
        a.op(JUMPDEST).raw(b2);
        l[2] = a.len() as u16;
        a.op(JUMPDEST).raw(b1);
        code = a.0;
    }
    (code, l.to_vec())
}
