//! Facts known on one path and not on another: constants, memory sizes and merged blocks where
//! static and computed jumps meet.

use super::{flow::*, tok::*, *};

/// Top of the stack plus one, kept on the stack and stored.
const USE: &[u8] = &[0x60, 1, 0x01, 0x80, 0x5f, MSTORE];
/// A second observation, which keeps the value.
const SQR: &[u8] = &[0x80, 0x80, 0x02, 0x60, 32, MSTORE];
const K5: &[u8] = &[0x60, 5];
const K9: &[u8] = &[0x60, 9];
const NOT: &[u8] = &[0x15];

fn value_kinds() -> Vec<(Body, Term)> {
    let r = Body::Raw;
    vec![
        (r(K5), Term::DynIf),
        (r(K9), Term::Fall),
        (r(USE), Term::If(3)),
        (r(USE), Term::Return),
        (r(K5), Term::If(2)),
        (r(K9), Term::Dyn),
        (r(USE), Term::Fall),
        (Body::None, Term::DynIf),
        (r(SQR), Term::Jump(2)),
        (r(NOT), Term::IfTop(3)),
        (Body::Arg, Term::If(2)),
        (r(SQR), Term::TopIf),
        (Body::Push(3), Term::If(2)),
        (r(SQR), Term::If(1)),
        (Body::Push(2), Term::TopIf),
        (r(K5), Term::Select(2, 3)),
    ]
}

/// Which calldata words a graph reads to decide a branch.
fn deciding(blocks: &[(Body, Term)]) -> Vec<usize> {
    let mut v: Vec<usize> = blocks
        .iter()
        .enumerate()
        .filter_map(|(i, (_, t))| match t {
            Term::If(_) => Some(1 + i),
            Term::DynIf | Term::TopIf | Term::BadIf | Term::Select(..) => Some(1),
            _ => None,
        })
        .collect();
    v.sort_unstable();
    v.dedup();
    v
}
/// Every combination of branch decisions and computed targets.
pub fn decisions(blocks: &[(Body, Term)], labels: &[u16]) -> Vec<Env> {
    let words_used = deciding(blocks);
    let mut targets: Vec<U256> = vec![u(0)];
    if uses_dyn(blocks) {
        targets = labels.iter().map(|l| u(*l as u64)).collect();
        targets.push(u(2));
    }
    let mut v = vec![];
    for tgt in targets {
        for bits in 0..1u32 << words_used.len() {
            let mut w = [U256::ZERO; 6];
            w[0] = tgt;
            for (b, i) in words_used.iter().enumerate() {
                if bits >> b & 1 == 1 {
                    w[*i] = u(7);
                }
            }
            v.push(Env { gas: 1500, ..Env::cd(&words(&w)) });
        }
    }
    v
}

/// Four blocks; every subset of them without a `JUMPDEST`.
pub fn values(ctx: &mut Ctx, cfgs: &[Cfg], n: usize) {
    let kinds = value_kinds();
    run_kinds(ctx, cfgs, &kinds[..n.min(kinds.len())], 4, &[0b0001, 0b1001, 0b0101, 0b0011, 0b1101]);
}

fn run_kinds(ctx: &mut Ctx, cfgs: &[Cfg], kinds: &[(Body, Term)], n: usize, masks: &[u32]) {
    each_seq(kinds.len(), n, |s| {
        let blocks: Vec<_> = s.iter().map(|i| kinds[*i]).collect();
        for m in masks {
            // A block without a `JUMPDEST` is of interest only after one that falls through.
            let useful = (1..n).all(|i| {
                m >> i & 1 == 0
                    || matches!(
                        blocks[i - 1].1,
                        Term::Fall | Term::If(_) | Term::IfTop(_) | Term::DynIf | Term::TopIf | Term::Loop(_) | Term::BadIf
                    )
            });
            if useful && ctx.mine() {
                let (code, labels) = layout_bare(&blocks, *m);
                ctx.force(&code, L, cfgs, &decisions(&blocks, &labels));
            }
        }
        !ctx.done()
    });
}

const M0: &[u8] = &[0x60, 7, 0x5f, MSTORE];
const M200: &[u8] = &[0x60, 8, 0x60, 200, MSTORE];
const L64: &[u8] = &[0x60, 64, MLOAD, 0x60, 1, TSTORE];
const B90: &[u8] = &[0x60, 9, 0x60, 90, MSTORE8];
const K200: &[u8] = &[0x5f, 0x60, 200, KECCAK, POP];
const KEC: &[u8] = &[0x60, 40, 0x60, 40, KECCAK, 0x60, 2, TSTORE];
const MSZ: &[u8] = &[MSIZE, 0x60, 3, TSTORE];

/// Memory of different sizes meeting at a block.
pub fn memories(ctx: &mut Ctx, cfgs: &[Cfg]) {
    let bodies = [Body::None, Body::Raw(M0), Body::Raw(M200), Body::Raw(L64), Body::Raw(K200), Body::Raw(B90)];
    let terms = [Term::Fall, Term::If(2), Term::DynIf, Term::Dyn, Term::Jump(2), Term::Return, Term::If(1)];
    let mut kinds: Vec<_> = bodies.iter().flat_map(|b| terms.iter().map(move |t| (*b, *t))).collect();
    run_kinds(ctx, cfgs, &kinds, 3, if ctx.quick() { &[0b001] } else { &[0b001, 0b011, 0b101] });
    // Four blocks.
    let r = Body::Raw;
    kinds = vec![
        (r(M200), Term::If(2)),
        (r(M200), Term::Fall),
        (r(L64), Term::Return),
        (Body::None, Term::DynIf),
        (Body::None, Term::Dyn),
        (r(L64), Term::If(3)),
        (Body::Push(3), Term::TopIf),
        (r(KEC), Term::Fall),
        (r(M200), Term::Jump(3)),
        (Body::None, Term::If(2)),
        (r(MSZ), Term::If(1)),
        (r(B90), Term::Select(1, 3)),
    ];
    let n = if ctx.quick() { 10 } else { 12 };
    run_kinds(ctx, cfgs, &kinds[..n], 4, &[0b0001, 0b1001]);
}

/// Accesses of length zero far out, between ordinary ones.
pub fn empty_accesses() -> Vec<Tok> {
    let z = k(0);
    let f = k(200);
    vec![
        t(KECCAK, &[f, z], 1),
        t(CALLDATACOPY, &[f, z, z], 0),
        t(CODECOPY, &[f, z, z], 0),
        t(RETURNDATACOPY, &[f, z, z], 0),
        t(EXTCODECOPY, &[addr(crate::host::OTHER), f, z, z], 0),
        t(MCOPY, &[f, z, z], 0),
        t(MCOPY, &[z, f, z], 0),
        t(0xa0, &[f, z], 0),
        t(0xa1, &[f, z, k(11)], 0),
        t(0xf0, &[z, f, z], 1),
        t(0xf1, &[k(5000), addr(crate::host::OTHER), z, f, z, f, z], 1),
        t(0xfa, &[k(5000), addr(crate::host::OTHER), f, z, z, k(32)], 1),
        t(0xf4, &[k(5000), addr(crate::host::OTHER), z, k(32), f, z], 1),
        t(RETURN, &[f, z], 0),
        t(MLOAD, &[k(64)], 1),
        t(MSTORE, &[k(64), V::A(1)], 0),
        t(MSTORE8, &[k(100), k(5)], 0),
        t(MSIZE, &[], 1),
        t(KECCAK, &[V::K(m1()), z], 1),
        t(KECCAK, &[V::A(1), z], 1),
    ]
}

/// Three heads, three middles and three leaves; blocks that become equal only once the blocks they
/// lead to have been merged, with what is known about stack and memory differing by path.
pub fn layers(ctx: &mut Ctx, cfgs: &[Cfg]) {
    #[derive(Clone, Copy)]
    struct Family {
        heads: [&'static [u8]; 2],
        mid: &'static [u8],
        leaves: [&'static [u8]; 2],
        /// The middles return through the stack to the leaf their head chose.
        returns: bool,
    }
    let fams = [
        Family {
            heads: [K5, K9],
            mid: &[0x90, 0x60, 1, 0x01, 0x90],
            leaves: [&[0x5f, MSTORE, 0x60, 32, 0x5f, RETURN], &[0x60, 3, 0x02, 0x5f, MSTORE, 0x60, 32, 0x5f, RETURN]],
            returns: true,
        },
        Family {
            heads: [&[0x5f], &[0x5f, 0x60, 8, 0x60, 200, MSTORE]],
            mid: &[0x60, 64, MLOAD, POP],
            leaves: [&[0x5f, MSTORE, 0x60, 96, MLOAD, 0x5f, MSTORE, 0x60, 64, 0x5f, RETURN], &[0x60, 32, 0x5f, RETURN]],
            returns: true,
        },
        Family {
            heads: [&[], M200],
            mid: &[0x60, 64, MLOAD, POP],
            leaves: [&[0x60, 96, MLOAD, 0x5f, MSTORE, 0x60, 64, 0x5f, RETURN], &[0x60, 32, 0x5f, RETURN]],
            returns: false,
        },
        Family {
            heads: [K5, K9],
            mid: &[0x60, 1, 0x01],
            leaves: [&[0x5f, MSTORE, 0x60, 32, 0x5f, RETURN], &[0x60, 3, 0x02, 0x5f, MSTORE, 0x60, 32, 0x5f, RETURN]],
            returns: false,
        },
    ];
    for f in fams {
        // Head: content and way on (to its own middle, or to any by jump).
        each_seq(8, 3, |h| {
            each_seq(3, 3, |m| {
                for lv in [0u8, 1, 2, 4] {
                    if !ctx.mine() {
                        continue;
                    }
                    let mut head = [0u16; 3];
                    let mut mid = [0u16; 3];
                    let mut leaf = [0u16; 3];
                    let mut code = vec![];
                    for _ in 0..2 {
                        let mut a = Asm::new();
                        a.arg(0).p2(head[0]).op(JUMPI).arg(1).p2(head[1]).op(JUMPI).p2(head[2]).op(JUMP);
                        for i in 0..3 {
                            head[i] = a.len() as u16;
                            a.op(JUMPDEST).raw(f.heads[h[i] & 1]);
                            let to = h[i] >> 1;
                            if f.returns {
                                a.p2(leaf[m[i]]);
                            }
                            if to < 3 {
                                a.p2(mid[to]).op(JUMP);
                            }
                            mid[i] = a.len() as u16;
                            a.op(JUMPDEST).raw(f.mid);
                            if !f.returns {
                                a.p2(leaf[m[i]]);
                            }
                            a.op(JUMP);
                        }
                        for (i, l) in leaf.iter_mut().enumerate() {
                            *l = a.len() as u16;
                            a.op(JUMPDEST).raw(f.leaves[(lv >> i & 1) as usize]);
                        }
                        code = a.0;
                    }
                    let envs = [[1u64, 0], [0, 1], [0, 0]].map(|w| Env::cd(&words(&w.map(u))));
                    ctx.force(&code, L, cfgs, &envs);
                }
                !ctx.done()
            });
            !ctx.done()
        });
    }
}

/// Many values alive at once, known and unknown ones in every order of mixing, shuffled and consumed
/// by cheap operations and by calls into the runtime, then all of them observed.
pub fn crowded(ctx: &mut Ctx, cfgs: &[Cfg], spec: SpecId) {
    // (bytes, inputs, growth)
    let toks = |n: usize| -> Vec<(Vec<u8>, usize, i32)> {
        let deep = n.min(16) as u8;
        let mut v: Vec<(Vec<u8>, usize, i32)> = vec![
            (vec![0x01], 2, -1),
            (vec![0x90], 2, 0),
            (vec![0x91], 3, 0),
            (vec![0x8e + deep], deep as usize, 0),
            (vec![0x80], 1, 1),
            (vec![0x7f + deep], deep as usize, 1),
            (vec![POP], 1, -1),
            (vec![0x54], 1, 0),
            (vec![0x0a], 2, -1),
            (vec![0x31], 1, 0),
            (vec![0x60, 6], 0, 1),
            (vec![0x08], 3, -2),
            (vec![0x5b], 0, 0),
            (vec![0x60, 96, 0x60, 1, KECCAK], 0, 1),
        ];
        if spec == SpecId::AMSTERDAM {
            v.retain(|t| t.2 != 0 || t.0[0] == 0x54 || t.0[0] == 0x90);
            // EXCHANGE of several pairs, DUPN and SWAPN.
            for imm in [0x8eu8, 0x8f, 0x9f, 0x01, 0x12, 0x80, 0x00, 0xff] {
                v.push((vec![0xe8, imm], 0, 0));
                v.push((vec![0xe7, imm], 0, 0));
                v.push((vec![0xe6, imm], 0, 1));
            }
        }
        v
    };
    let sizes: &[(usize, usize)] = match (spec == SpecId::AMSTERDAM, ctx.quick()) {
        (true, true) => &[(5, 2), (36, 2)],
        (true, false) => &[(5, 2), (19, 2), (36, 3)],
        (false, true) => &[(2, 3), (3, 3), (4, 3), (5, 2), (9, 2), (17, 2), (18, 2)],
        (false, false) => &[(2, 4), (3, 4), (4, 3), (5, 3), (6, 3), (9, 3), (17, 3), (18, 3), (24, 2)],
    };
    for &(n, depth) in sizes {
        let ts = toks(n);
        for mix in 0..5u8 {
            each_seq(ts.len(), depth, |s| {
                if ctx.mine() {
                    let mut a = Asm::new();
                    for i in 0..n as u64 {
                        let unknown = match mix {
                            0 => false,
                            1 => true,
                            2 => i % 2 == 0,
                            3 => i % 2 == 1,
                            _ => i + 2 < n as u64,
                        };
                        if unknown {
                            a.arg(i);
                        } else {
                            a.pu(3 + i);
                        }
                    }
                    let mut h = n as i32;
                    for i in s {
                        a.raw(&ts[*i].0);
                        h += ts[*i].2;
                    }
                    let h = h.max(0) as u64;
                    let all = a.0.clone();
                    for i in 0..h {
                        a.mstore(i * 32);
                    }
                    a.ret(0, h * 32);
                    let cd: Vec<U256> = (0..n as u64).map(|i| u(2 + i)).collect();
                    let env = [Env::cd(&words(&cd))];
                    ctx.force(&a.0, spec, cfgs, &env);
                    // Only the top observed: everything below is dead.
                    if h > 0 {
                        let mut b = Asm(all);
                        b.mstore(0).ret(0, 32);
                        ctx.force(&b.0, spec, cfgs, &env);
                    }
                }
                !ctx.done()
            });
        }
    }
}
