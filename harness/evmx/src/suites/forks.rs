//! Which instructions exist in which hardfork, and with which meaning.

use super::{tok::*, *};
use crate::host::*;

pub fn run(ctx: &mut Ctx) {
    let all = specs();
    ctx.suite("opcode-by-fork");
    for spec in &all {
        for op in 0..=255u8 {
            for h in 0..=7u64 {
                for fill in 0..3u8 {
                    let mut a = Asm::new();
                    for i in 0..h {
                        match fill {
                            0 => a.pu(i % 3),
                            1 => a.arg(i),
                            _ => a.push(U256::from_be_slice(OTHER.as_slice())),
                        };
                    }
                    a.op(op);
                    let w: Vec<U256> = (0..7).map(|i| u([33, 0, 2, 1, 32, 64, 5][i])).collect();
                    let e = Env::cd(&words(&w));
                    let st = Env { is_static: true, ..e.clone() };
                    ctx.case(&a.0, *spec, &PI, &[e, st]);
                }
            }
        }
    }
    ctx.suite("opcode-placement");
    // Dead, conditional and after-jump placements of every opcode.
    for spec in &all {
        for op in 0..=255u8 {
            let push = (0..7).flat_map(|i| [0x60, i]).collect::<Vec<u8>>();
            for place in 0..4u8 {
                if !ctx.mine() {
                    continue;
                }
                let mut a = Asm::new();
                match place {
                    0 => {
                        // Never reached.
                        a.op(0x00).raw(&push).op(op);
                    }
                    1 => {
                        // Reached only when the first word is zero.
                        a.arg(0).op(0x60);
                        let at = a.len();
                        a.op(0).op(JUMPI).raw(&push).op(op).op(0x00);
                        let l = a.len() as u8;
                        a.0[at] = l;
                        a.op(JUMPDEST).pu(1).pu(0).op(MSTORE).ret(0, 32);
                    }
                    2 => {
                        // Two in a row.
                        a.raw(&push).raw(&push).op(op).op(op);
                    }
                    _ => {
                        // Followed by a jump destination byte, which may be an immediate.
                        a.pu(9).pu(9).pu(0x10).op(JUMP);
                        while a.len() < 15 {
                            a.op(0x00);
                        }
                        a.op(op).op(JUMPDEST).pu(3).pu(0).op(MSTORE).ret(0, 32);
                    }
                }
                let envs = [Env::cd(&words(&[u(0)])), Env::cd(&words(&[u(1)]))];
                ctx.force(&a.0, *spec, &PI, &envs);
            }
        }
    }
    if !ctx.quick() {
        ctx.suite("opcode-pairs-by-fork");
        // Every pair of opcodes on a prepared stack, oldest to newest fork.
        for spec in &all {
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    if !ctx.mine() {
                        continue;
                    }
                    let mut p = Asm::new();
                    for i in 0..9u64 {
                        p.pu([0, 1, 32, 0, 2, 0, 1, 0, 3][i as usize]);
                    }
                    p.op(a).op(b);
                    ctx.force(&p.0, *spec, &[Cfg::PROD], &[Env::default()]);
                }
                if ctx.done() {
                    return;
                }
            }
        }
    }
}
