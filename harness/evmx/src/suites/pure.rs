//! Computation: arithmetic, comparison, bitwise and stack-shuffling opcodes.

use super::*;

pub const UNARY: [u8; 3] = [0x15, 0x19, 0x1e];
pub const BINARY: [u8; 19] = [
    0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17,
    0x18, 0x1a, 0x1b,
];
pub const BINARY2: [u8; 2] = [0x1c, 0x1d];
pub const TERNARY: [u8; 2] = [0x08, 0x09];

pub fn binary() -> Vec<u8> {
    BINARY.iter().chain(&BINARY2).copied().collect()
}

/// Boundary operands.
pub fn grid(big: bool) -> Vec<U256> {
    let mut v = vec![
        u(0),
        u(1),
        u(2),
        u(3),
        u(7),
        u(8),
        u(30),
        u(31),
        u(32),
        u(0x7f),
        u(0x80),
        u(0xff),
        u(0x100),
        u(0x101),
        pow2(63),
        u(u64::MAX),
        pow2(64),
        pow2(128),
        pow2(255) - u(1),
        pow2(255),
        m1() - u(1),
        m1(),
    ];
    if big {
        v.extend([
            u(4),
            u(5),
            u(6),
            u(9),
            u(10),
            u(15),
            u(16),
            u(17),
            u(24),
            u(29),
            u(33),
            u(63),
            u(64),
            u(65),
            u(127),
            u(129),
            u(191),
            u(192),
            u(193),
            u(247),
            u(248),
            u(249),
            u(254),
            u(258),
            u(0x7fff),
            u(0x8000),
            u(0xffff),
            u(0x10000),
            u(0xffff_ffff),
            u(1 << 32),
            u((1 << 63) - 1),
            pow2(64) + u(1),
            pow2(64) - u(2),
            pow2(127),
            pow2(128) - u(1),
            pow2(128) + u(1),
            pow2(192),
            pow2(192) - u(1),
            pow2(254),
            pow2(255) + u(1),
            m1() - u(2),
            m1() - u(31),
            m1() - u(254),
            m1() - u(255),
            U256::from_be_bytes([0x80u8; 32]),
            U256::from_be_bytes([0x7fu8; 32]),
            U256::from_be_bytes([0xaau8; 32]),
            U256::from_be_bytes::<32>(core::array::from_fn(|i| i as u8 + 1)),
            pow2(160) - u(1),
            pow2(160),
        ]);
    }
    v
}

/// Programs that combine many constant operations, so that folding is exercised cheaply.
struct Pack {
    a: Asm,
    n: u64,
}
impl Pack {
    fn new() -> Self {
        Pack { a: Asm::new(), n: 0 }
    }
    fn put(&mut self, f: impl FnOnce(&mut Asm)) {
        f(&mut self.a);
        self.a.mstore(self.n * 32);
        self.n += 1;
    }
    fn flush(&mut self, ctx: &mut Ctx, envs: &[Env]) {
        if self.n > 0 {
            let n = self.n;
            self.a.ret(0, n * 32);
            ctx.case(&self.a.0, L, &PI, envs);
            *self = Pack::new();
        }
    }
    fn full(&self) -> bool {
        self.n >= 12
    }
}

pub fn run(ctx: &mut Ctx) {
    operands(ctx);
    same_operand(ctx);
    sequences(ctx);
    ctx.suite("value-joins");
    joins::values(ctx, &[Cfg::PROD], 10);
    ctx.suite("crowded-stack");
    joins::crowded(ctx, &[Cfg::PROD], L);
    joins::crowded(ctx, &[Cfg::PROD], SpecId::AMSTERDAM);
}

/// Every opcode on every operand tuple of the grid, with each operand known or unknown at compile
/// time.
fn operands(ctx: &mut Ctx) {
    let g = grid(true);
    let gs = grid(false);
    ctx.suite("unary");
    for op in UNARY {
        let mut p = Asm::new();
        p.arg(0).op(op).mstore(0).ret(0, 32);
        let envs: Vec<Env> = g.iter().map(|v| Env::cd(&words(&[*v]))).collect();
        ctx.case(&p.0, L, &PI, &envs);
        let mut k = Pack::new();
        for v in &g {
            k.put(|a| {
                a.push(*v).op(op);
            });
            if k.full() {
                k.flush(ctx, &[Env::default()]);
            }
        }
        k.flush(ctx, &[Env::default()]);
    }
    ctx.suite("binary");
    for op in binary() {
        // Both unknown.
        for x in &g {
            let mut p = Asm::new();
            p.arg(1).arg(0).op(op).mstore(0).ret(0, 32);
            let envs: Vec<Env> = g.iter().map(|y| Env::cd(&words(&[*x, *y]))).collect();
            ctx.case(&p.0, L, &[Cfg::PROD], &envs);
        }
        for x in &g {
            // One known: first or second operand.
            for first in [true, false] {
                let mut p = Asm::new();
                if first {
                    p.arg(0).push(*x);
                } else {
                    p.push(*x).arg(0);
                }
                p.op(op).mstore(0).ret(0, 32);
                let envs: Vec<Env> = g.iter().map(|y| Env::cd(&words(&[*y]))).collect();
                ctx.case(&p.0, L, &[Cfg::PROD], &envs);
            }
            // Both known.
            let mut k = Pack::new();
            for y in &g {
                k.put(|a| {
                    a.push(*y).push(*x).op(op);
                });
                if k.full() {
                    k.flush(ctx, &[Env::default()]);
                }
            }
            k.flush(ctx, &[Env::default()]);
        }
    }
    ctx.suite("ternary");
    let g3: Vec<U256> = if ctx.quick() {
        [0, 1, 2, 3, 8, 11, 14, 15, 16, 18, 19, 21].iter().map(|i| gs[*i]).collect()
    } else {
        gs.clone()
    };
    for op in TERNARY {
        // Which operands are known: 8 masks.
        for mask in 0..8u8 {
            let known: Vec<usize> = (0..3).filter(|i| mask >> i & 1 == 1).collect();
            let unknown: Vec<usize> = (0..3).filter(|i| mask >> i & 1 == 0).collect();
            for kv in tuples(&g3, known.len()) {
                let mut p = Asm::new();
                for i in (0..3).rev() {
                    match known.iter().position(|k| *k == i) {
                        Some(j) => p.push(kv[j]),
                        None => p.arg(i as u64),
                    };
                }
                p.op(op).mstore(0).ret(0, 32);
                let envs: Vec<Env> = tuples(&g3, unknown.len())
                    .into_iter()
                    .map(|t| {
                        let mut w = [U256::ZERO; 3];
                        for (j, i) in unknown.iter().enumerate() {
                            w[*i] = t[j];
                        }
                        Env::cd(&words(&w))
                    })
                    .collect();
                ctx.case(&p.0, L, &[Cfg::PROD], &envs);
            }
        }
    }
}

pub fn tuples<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|t| {
                v.iter().map(move |x| {
                    let mut t = t.clone();
                    t.push(x.clone());
                    t
                })
            })
            .collect();
    }
    out
}

/// `x op x`, also with the duplicate separated by other stack traffic.
fn same_operand(ctx: &mut Ctx) {
    ctx.suite("same-operand");
    let g = grid(true);
    let envs: Vec<Env> = g.iter().map(|y| Env::cd(&words(&[*y, u(7)]))).collect();
    for op in binary() {
        let mut p = Asm::new();
        p.arg(0).op(0x80).op(op).mstore(0).ret(0, 32);
        ctx.case(&p.0, L, &PI, &envs);
        let mut p = Asm::new();
        p.arg(1).arg(0).op(0x81).op(0x81).op(0x91).op(op).op(op).op(op).mstore(0).ret(0, 32);
        ctx.case(&p.0, L, &PI, &envs);
    }
    for op in TERNARY {
        for dups in [[0x80, 0x81], [0x80, 0x80], [0x81, 0x80]] {
            let mut p = Asm::new();
            p.arg(1).arg(0).op(dups[0]).op(dups[1]).op(op).mstore(0).ret(0, 32);
            ctx.case(&p.0, L, &PI, &envs);
        }
    }
}

/// All sequences of operations over three unknown values.
fn sequences(ctx: &mut Ctx) {
    ctx.suite("sequences");
    let mut toks: Vec<Vec<u8>> = vec![];
    for op in UNARY.iter().chain(&BINARY).chain(&BINARY2).chain(&TERNARY) {
        toks.push(vec![*op]);
    }
    for op in [0x50, 0x80, 0x81, 0x90, 0x91, 0x5f] {
        toks.push(vec![op]);
    }
    for v in [u(1), u(2), u(31), u(32), u(0xff), pow2(255), m1()] {
        let mut a = Asm::new();
        a.push(v);
        toks.push(a.0);
    }
    let vals = [
        [u(5), u(3), u(2)],
        [u(0), u(1), u(255)],
        [m1(), pow2(255), u(31)],
        [u(0x80), u(0), m1()],
    ];
    let envs: Vec<Env> = vals.iter().map(|v| Env::cd(&words(v))).collect();
    let depth = if ctx.quick() { 3 } else { 4 };
    let mut seq = vec![0usize; depth];
    loop {
        if ctx.mine() {
            let mut p = Asm::new();
            p.arg(2).arg(1).arg(0);
            for t in &seq {
                p.raw(&toks[*t]);
            }
            // Everything left on the stack is inspected.
            ctx.force(&p.0, L, &[Cfg::INSPECT], &envs);
        }
        let mut i = 0;
        loop {
            if i == depth {
                return;
            }
            seq[i] += 1;
            if seq[i] < toks.len() {
                break;
            }
            seq[i] = 0;
            i += 1;
        }
    }
}
