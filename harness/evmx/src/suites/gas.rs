//! Gas: exact accounting under every gas limit.

use super::{flow::*, tok::*, *};

pub fn env() -> Env {
    Env::cd(&words(&[u(33), m1() - u(5), u(1)]))
}
/// One token per pricing rule.
pub fn priced() -> Vec<Tok> {
    let mut v = vec![
        t(0x01, &[k(1), V::A(1)], 1),
        t(0x05, &[V::A(0), V::A(1)], 1),
        t(0x09, &[k(1), k(2), V::A(1)], 1),
        t(0x0a, &[k(2), k(0)], 1),
        t(0x0a, &[k(2), k(255)], 1),
        t(0x0a, &[V::A(0), k(256)], 1),
        t(0x0a, &[k(2), V::A(1)], 1),
        t(0x0a, &[k(256), V::A(0)], 1),
        t(0x0a, &[V::A(1), V::A(0)], 1),
        t(GAS, &[], 1),
        raw(&[JUMPDEST], 0),
        raw(&[0x60, 1, POP], 0),
        raw(&[0x60, 1, 0x80, 0x90, POP, POP], 0),
    ];
    v.extend(memory(1));
    v.extend(host(1));
    v.extend(calls(1));
    v
}
/// A smaller set with the rules that interact.
pub fn interacting() -> Vec<Tok> {
    let mut v = vec![
        t(0x0a, &[k(2), V::A(1)], 1),
        t(GAS, &[], 1),
        raw(&[JUMPDEST], 0),
        raw(&[0x60, 1, POP], 0),
        t(MSTORE, &[k(0), k(1)], 0),
        t(MSTORE, &[V::A(0), k(1)], 0),
        t(MSTORE8, &[k(64), k(1)], 0),
        t(MLOAD, &[k(31)], 1),
        t(MLOAD, &[V::A(0)], 1),
        t(MCOPY, &[k(64), k(0), k(33)], 0),
        t(CALLDATACOPY, &[k(0), k(0), V::A(0)], 0),
        t(KECCAK, &[k(0), k(65)], 1),
        t(SLOAD, &[k(0)], 1),
        t(SLOAD, &[k(1)], 1),
        t(SSTORE, &[k(0), k(0)], 0),
        t(SSTORE, &[k(0), k(1)], 0),
        t(SSTORE, &[k(2), k(5)], 0),
        t(0x31, &[addr(crate::host::OTHER)], 1),
        t(0xa1, &[k(0), k(33), k(11)], 0),
    ];
    v.extend(calls(0).into_iter().take(6));
    v
}

pub fn run(ctx: &mut Ctx) {
    let all = priced();
    let inter = interacting();
    ctx.suite("gas-1");
    let envs: Vec<Env> = vec![env(), Env { is_static: true, ..env() }, Env { children: susp::CHILDREN[4..].into(), ..env() }];
    for spec in specs() {
        for s in [Sink::Pop, Sink::Stack, Sink::Memory] {
            straight(ctx, &all, 1, s, spec, &[Cfg::PROD, Cfg::INSPECT], &envs, true);
        }
    }
    ctx.suite("gas-2");
    for spec in if ctx.quick() { vec![L, SpecId::AMSTERDAM] } else { specs() } {
        straight(ctx, &all, 2, Sink::Pop, spec, &[Cfg::PROD], &envs[..1], true);
    }
    for spec in specs() {
        straight(ctx, &inter, 2, Sink::Memory, spec, &[Cfg::PROD], &envs[..1], true);
    }
    ctx.suite("gas-state");
    let res: Vec<Env> = hostops::RESERVOIRS[1..].iter().map(|&reservoir| Env { reservoir, ..env() }).collect();
    straight(ctx, &all, 1, Sink::Memory, SpecId::AMSTERDAM, &[Cfg::PROD, Cfg::INSPECT], &res, true);
    straight(ctx, &inter, 2, Sink::Memory, SpecId::AMSTERDAM, &[Cfg::PROD], &res, true);
    let tog: Vec<Env> = [0, 200_000].iter().map(|&reservoir| Env { reservoir, chain: TOGGLE_8037, ..env() }).collect();
    for spec in [L, SpecId::AMSTERDAM, SpecId::FRONTIER] {
        straight(ctx, &all, 1, Sink::Memory, spec, &[Cfg::PROD], &tog, true);
    }
    hostops::storage_histories(ctx, true);
    ctx.suite("gas-3");
    straight(ctx, &inter, 3, Sink::Pop, L, &[Cfg::PROD], &envs[..1], true);
    ctx.suite("gas-branches");
    let e2 = [Env::cd(&words(&[u(33), m1(), u(0)])), env()];
    let small: Vec<Tok> = if ctx.quick() { inter.iter().step_by(2).cloned().collect() } else { inter.clone() };
    branched(ctx, &small, Sink::Memory, L, &[Cfg::PROD], &e2, true);
    ctx.suite("gas-graphs");
    graphs(ctx, 2, &all_bodies(2), &all_terms(2), &[Cfg::PROD], false, true);
    let kinds = small_kinds();
    graphs_of(ctx, 3, &kinds[..if ctx.quick() { 14 } else { 22 }], &[Cfg::PROD], false, true);
    if !ctx.quick() {
        graphs_of(ctx, 4, &kinds[..14], &[Cfg::PROD], false, true);
        ctx.suite("gas-4");
        let few: Vec<Tok> = inter.iter().step_by(2).cloned().collect();
        straight(ctx, &few, 4, Sink::Pop, L, &[Cfg::PROD], &envs[..1], true);
        ctx.suite("gas-opcodes");
    }
    // Every opcode by itself with operands, in every hardfork.
    ctx.suite("gas-opcodes");
    for spec in specs() {
        for op in 0..=255u8 {
            // Which operands are known at compile time, the top one first.
            for known in [0x7fu8, 0, 1, 2, 4, 6, 0x7e] {
                let mut a = Asm::new();
                for i in 0..7u64 {
                    if known >> (6 - i) & 1 == 1 {
                        a.pu([0, 33, 2, 0, 32, 0, 64][i as usize]);
                    } else {
                        a.arg(i);
                    }
                }
                a.op(op);
                let w: Vec<U256> = (0..7).map(|i| u([64, 0, 32, 0, 2, 33, 0][i])).collect();
                ctx.case_sweep(&a.0, spec, &[Cfg::PROD], &[Env::cd(&words(&w))]);
            }
        }
    }
    ctx.suite("gas-custom-schedule");
    let c = [Cfg { custom_gas: true, ..Cfg::PROD }];
    for spec in specs() {
        straight(ctx, &all, 1, Sink::Memory, spec, &c, &[Env { custom_gas: true, ..env() }], true);
    }
    straight(ctx, &inter, 2, Sink::Memory, L, &c, &[Env { custom_gas: true, ..env() }], true);
    ctx.suite("gas-long");
    long(ctx);
    ctx.suite("gas-exp");
    let mut exps: Vec<U256> = (0..=40).map(u).collect();
    for b in 0..32usize {
        exps.extend([pow2(b * 8) - u(1), pow2(b * 8), pow2(b * 8 + 7)]);
    }
    exps.push(m1());
    for spec in [SpecId::FRONTIER, SpecId::SPURIOUS_DRAGON, L] {
        for e in &exps {
            for base in [V::A(0), k(0), k(1), k(2), k(3), k(8), k(256), V::K(pow2(255)), V::K(m1())] {
                for ex in [V::K(*e), V::A(1)] {
                    let tk = t(0x0a, &[base, ex], 1);
                    let mut a = Asm::new();
                    emit(&mut a, &tk, 0, Sink::Memory);
                    ctx.case_sweep(&a.0, spec, &[Cfg::PROD], &[Env::cd(&words(&[u(3), *e]))]);
                }
            }
        }
    }
}

/// Sections whose cost is large: many expensive or very many cheap operations in one block.
pub fn long(ctx: &mut Ctx) {
    for n in [1usize, 2, 5, 6, 20, 21, 40, 41, 42, 45] {
        for unknown in [false, true] {
            let mut a = Asm::new();
            for _ in 0..n {
                a.push(m1());
                if unknown {
                    a.arg(0);
                } else {
                    a.pu(3);
                }
                a.op(0x0a).op(POP);
            }
            ctx.case_sweep(&a.0, L, &[Cfg::PROD, Cfg::INSPECT], &[env()]);
        }
    }
    // `n` times `PUSH1 1 POP`; the limits at which the total crosses a power of two, and the total.
    for n in [51usize, 52, 205, 410, 820, 1639, 3277, 6554, 13108, 14000] {
        if ctx.mine() {
            let mut a = Asm::new();
            for _ in 0..n {
                a.raw(&[0x60, 1, POP]);
            }
            let total = n as u64 * 5;
            let mut gas = vec![total - 2, total - 1, total, total + 1];
            for b in 7..17 {
                gas.extend([(1u64 << b) - 1, 1 << b, (1 << b) + 1, total.saturating_sub(1 << b)]);
            }
            let envs: Vec<Env> = gas.into_iter().map(|g| Env { gas: g, ..env() }).collect();
            ctx.force(&a.0, L, &[Cfg::PROD], &envs);
        }
    }
}
