//! Stack limits and deep stack access.

use super::{tok::*, *};

/// Programs around the two ends of the stack.
pub fn run(ctx: &mut Ctx) {
    let cfgs = [Cfg::PROD, Cfg::INSPECT];
    ctx.suite("stack-depth-ops");
    // DUPn / SWAPn at every height, with constants and with unknown values below.
    for spec in [L, SpecId::AMSTERDAM] {
        for op in (0x80u8..=0x9f).chain([POP, 0x5f, 0x01, 0x08, 0x15]) {
            for h in 0..=18u64 {
                for dynamic in [false, true] {
                    let mut a = Asm::new();
                    for i in 0..h {
                        if dynamic {
                            a.arg(i);
                        } else {
                            a.pu(0x40 + i);
                        }
                    }
                    a.op(op);
                    let cd: Vec<U256> = (0..h).map(|i| u(0x1000 + i)).collect();
                    ctx.case(&a.0, spec, &cfgs, &[Env::cd(&words(&cd))]);
                }
            }
        }
    }
    ctx.suite("stack-immediate-ops");
    // DUPN / SWAPN / EXCHANGE with every immediate at a few heights.
    for op in [0xe6u8, 0xe7, 0xe8] {
        for imm in 0..=255u8 {
            for h in [0u64, 1, 2, 3, 16, 17, 18, 19, 40, 145, 146, 240, 300] {
                for spec in if h == 19 { vec![SpecId::AMSTERDAM, L] } else { vec![SpecId::AMSTERDAM] } {
                    let mut a = Asm::new();
                    for i in 0..h {
                        a.p2(0x100 + i as u16);
                    }
                    a.op(op).op(imm).op(0x00);
                    ctx.case(&a.0, spec, &[Cfg::INSPECT], &[Env::default()]);
                }
            }
        }
        // Missing immediate.
        for h in [0u64, 17, 20] {
            let mut a = Asm::new();
            for i in 0..h {
                a.pu(i);
            }
            a.op(op);
            ctx.case(&a.0, SpecId::AMSTERDAM, &cfgs, &[Env::default()]);
        }
    }
    ctx.suite("stack-limit");
    let toks = tokens();
    let d = if ctx.quick() { 3 } else { 4 };
    let heights: Vec<u64> = if ctx.quick() { vec![0, 1, 1023, 1024] } else { vec![0, 1, 2, 1022, 1023, 1024] };
    for h in heights {
        each_seq(toks.len(), d, |s| {
            if ctx.mine() {
                let mut a = Asm::new();
                fill(&mut a, h);
                for i in s {
                    a.raw(&toks[*i]);
                }
                let envs = [Env { gas: 400_000, ..Env::cd(&words(&[u(1), u(2)])) }];
                ctx.force(&a.0, L, if h <= 2 { &cfgs } else { &cfgs[..1] }, &envs);
            }
            !ctx.done()
        });
    }
    ctx.suite("stack-entry");
    // The caller leaves words on the stack of code compiled for inspection.
    let seen = [Cfg::INSPECT, Cfg { dedup: false, dse: false, ..Cfg::INSPECT }];
    for h in [1usize, 2, 3, 4, 16, 17, 1022, 1023, 1024] {
        for tail in 0..if matches!(h, 1 | 4) { 5 } else { 4u8 } {
            each_seq(toks.len(), d - 1, |s| {
                if ctx.mine() {
                    let mut a = Asm::new();
                    if tail == 2 {
                        // A branch before.
                        let l = a.len() as u16 + 8;
                        a.arg(0).p2(l).op(JUMPI).op(0x15).op(JUMPDEST);
                    }
                    if tail == 4 {
                        // To a destination of the caller's: word 3 is 22, word 0 is 1.
                        a.op(JUMP).op(if h == 1 { JUMPDEST } else { 0 }).raw(&[0; 20]).op(JUMPDEST);
                    }
                    for i in s {
                        a.raw(&toks[*i]);
                    }
                    match tail {
                        1 => {
                            a.pu(0x20).op(0x5f).op(0xf3);
                        }
                        3 => {
                            // A join behind.
                            let l = a.len() as u16 + 9;
                            a.arg(0).p2(l).op(JUMPI).op(0x60).op(3).op(JUMPDEST).op(0x81).op(0x55);
                        }
                        _ => {}
                    }
                    let env = |v| Env { gas: 400_000, chain: entry(h), ..Env::cd(&words(&[u(v)])) };
                    let envs = [env(0), env(1)];
                    ctx.force(&a.0, L, &seen, if tail >= 2 { &envs } else { &envs[..1] });
                }
                !ctx.done()
            });
        }
    }
    ctx.suite("stack-branches");
    // Different heights meet at a join, in both directions, near both ends.
    for h in [0u64, 1, 2, 1020, 1021, 1022, 1023] {
        for (x, y, z) in deltas() {
            if !ctx.mine() {
                continue;
            }
            let mut code = vec![];
            let (mut l1, mut l2) = (0u16, 0u16);
            for _ in 0..2 {
                let mut a = Asm::new();
                fill(&mut a, h);
                a.arg(0).p2(l1).op(JUMPI);
                delta(&mut a, x);
                a.p2(l2).op(JUMP);
                l1 = a.len() as u16;
                a.op(JUMPDEST);
                delta(&mut a, y);
                l2 = a.len() as u16;
                a.op(JUMPDEST);
                delta(&mut a, z);
                a.pu(7).op(0x50);
                code = a.0;
            }
            let envs: Vec<Env> =
                [u(0), u(1)].iter().map(|v| Env { gas: 400_000, ..Env::cd(&words(&[*v])) }).collect();
            ctx.force(&code, L, &cfgs, &envs);
        }
    }
    ctx.suite("stack-loops");
    // Loops with a net stack effect: they run into the limit or into the bottom.
    for h in [0u64, 3, 1000, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024] {
        for net in -3i32..=3 {
            for touch in 0..3u8 {
                for tail in 0..3u8 {
                    if !ctx.mine() {
                        continue;
                    }
                    let mut a = Asm::new();
                    fill(&mut a, h);
                    let l = a.len() as u16;
                    a.op(JUMPDEST);
                    match touch {
                        1 => {
                            a.pu(1).op(POP);
                        }
                        2 => {
                            a.op(0x5f).op(0x5f).op(0x5f).op(0x01).op(POP).op(POP);
                        }
                        _ => {}
                    }
                    delta(&mut a, net);
                    match tail {
                        0 => {
                            a.p2(l).op(JUMP);
                        }
                        1 => {
                            // Three rounds, counted in memory.
                            a.pu(0).op(MLOAD).pu(1).op(0x01).op(0x80).pu(0).op(MSTORE).pu(3).op(0x11).p2(l).op(JUMPI);
                        }
                        _ => {
                            // Dynamic back edge.
                            a.arg(0).op(JUMP);
                        }
                    }
                    let envs = [Env { gas: 300_000, ..Env::cd(&words(&[u(l as u64)])) }];
                    ctx.force(&a.0, L, &cfgs, &envs);
                }
            }
        }
    }
}

fn deltas() -> Vec<(i32, i32, i32)> {
    let r: Vec<i32> = (-2..=3).collect();
    let mut v = vec![];
    for x in &r {
        for y in &r {
            for z in &r {
                v.push((*x, *y, *z));
            }
        }
    }
    v
}
fn delta(a: &mut Asm, d: i32) {
    for _ in 0..-d {
        a.op(POP);
    }
    for i in 0..d {
        a.pu(0x30 + i as u64);
    }
}
fn fill(a: &mut Asm, h: u64) {
    if h <= 3 {
        for i in 0..h {
            a.pu(i + 1);
        }
    } else {
        a.op(0x36);
        for _ in 1..h {
            a.op(0x80);
        }
    }
}
fn tokens() -> Vec<Vec<u8>> {
    vec![
        vec![0x5f],
        vec![0x60, 5],
        vec![POP],
        vec![0x80],
        vec![0x81],
        vec![0x90],
        vec![0x91],
        vec![0x01],
        vec![0x15],
        vec![JUMPDEST],
        vec![0x8f],
        vec![0x9f],
        vec![0x36],
        vec![0x08],
        vec![0x54],
        vec![0xa1],
        vec![GAS],
        vec![0x3e],
        vec![0x60, 0, 0x60, 0, 0x52],
        vec![0xf3],
        vec![0xfe],
        vec![0xff],
        vec![0x57],
        vec![0xf1],
    ]
}
