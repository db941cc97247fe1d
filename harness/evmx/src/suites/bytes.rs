//! Arbitrary byte strings.

use super::*;

/// One representative per kind of byte.
const REP: [u8; 44] = [
    0x00, 0x01, 0x08, 0x0a, 0x10, 0x15, 0x1a, 0x20, 0x30, 0x35, 0x37, 0x38, 0x3c, 0x3e, 0x40, 0x44,
    0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5e, 0x5f, 0x60,
    0x61, 0x7f, 0x80, 0x90, 0xa1, 0xe6, 0xf0, 0xf1, 0xf3, 0xf4, 0xfd, 0xff,
];

pub fn run(ctx: &mut Ctx) {
    let envs = [Env { gas: 100_000, ..Env::cd(&words(&[u(3), u(1)])) }, Env { gas: 60, ..Env::default() }];
    ctx.suite("bytes-0-2");
    for spec in [SpecId::FRONTIER, SpecId::CANCUN, L, SpecId::AMSTERDAM] {
        ctx.case(&[], spec, &PI, &envs);
        for a in 0..=255u8 {
            ctx.case(&[a], spec, &PI, &envs);
            for b in 0..=255u8 {
                ctx.case(&[a, b], spec, &PI, &envs);
            }
        }
    }
    ctx.suite("bytes-3");
    each(ctx, &REP, 3, &[], &[], &envs);
    ctx.suite("bytes-with-operands");
    let pre: Vec<u8> = [0x60u8, 0, 0x60, 32, 0x5f, 0x60, 1, 0x60, 0, 0x60, 3, 0x5f].to_vec();
    each(ctx, &REP, if ctx.quick() { 3 } else { 4 }, &pre, &[], &envs);
    if !ctx.quick() {
        ctx.suite("bytes-4");
        each(ctx, &REP, 4, &[], &[], &envs);
        ctx.suite("bytes-3-all");
        let all: Vec<u8> = (0..=255).collect();
        each(ctx, &all, 3, &[], &[], &envs[..1]);
    }
    ctx.suite("bytes-after-jumpdest");
    // Reached only through a jump that the compiler cannot resolve.
    each(ctx, &REP, if ctx.quick() { 2 } else { 3 }, &[0x60, 0, 0x35, 0x56, 0x00, 0x5b], &[], &[
        Env { gas: 50_000, ..Env::cd(&words(&[u(5)])) },
        Env { gas: 50_000, ..Env::cd(&words(&[u(4)])) },
    ]);
    ctx.suite("push-truncation");
    for n in 1..=32u8 {
        for have in 0..=n as usize {
            for fill in [0x00u8, 0x5b, 0xff] {
                let mut c = vec![0x5f + n];
                c.extend(std::iter::repeat_n(fill, have));
                ctx.case(&c, L, &PI, &envs);
                // A jump into the push data.
                let mut c = vec![0x60, 4, 0x56, 0x5f + n];
                c.extend(std::iter::repeat_n(0x5b, have));
                ctx.case(&c, L, &PI, &envs);
            }
        }
    }
    ctx.suite("jump-into-bytes");
    // Every byte, followed by every short string over these, entered behind the first byte.
    for spec in [L, SpecId::AMSTERDAM, SpecId::CANCUN, SpecId::FRONTIER] {
        for op in 0..=255u8 {
            tok::each_seq(3, 3, |s| {
                for tgt in 5..=7u8 {
                    if !ctx.mine() {
                        continue;
                    }
                    let w: Vec<u8> = s.iter().map(|i| [0x5bu8, 0x01, op][*i]).collect();
                    let e = [Env { gas: 50_000, ..Env::cd(&words(&[u(tgt as u64)])) }];
                    // A known and an unknown target.
                    let mut c = vec![0x60, tgt, 0x5b, 0x56, op];
                    c.extend_from_slice(&w);
                    ctx.force(&c, spec, &[Cfg::PROD], &e);
                    let c: Vec<u8> = [&[0x58u8, 0x35, 0x5b, 0x56, op][..], &w].concat();
                    ctx.force(&c, spec, &[Cfg::PROD], &e);
                }
                !ctx.done()
            });
        }
    }
    ctx.suite("bytes-immediates");
    // The operations with immediates, mixed with jumps over a filled stack.
    let imm = [0xe6u8, 0xe7, 0xe8, 0x5b, 0x56, 0x57, 0x60, 0x80, 0x00, 0x90];
    for spec in [SpecId::AMSTERDAM, L] {
        tok::each_seq(imm.len(), if ctx.quick() { 4 } else { 5 }, |s| {
            if ctx.mine() {
                let mut c = vec![];
                for i in 0..20u8 {
                    c.extend([0x60, 40 + i % 6]);
                }
                c.extend(s.iter().map(|i| imm[*i]));
                c.extend([0x5b, 0x5f, 0x52, 0x5b, 0x60, 32, 0x5f, 0xf3]);
                ctx.force(&c, spec, &[Cfg::INSPECT], &envs);
            }
            !ctx.done()
        });
    }
    ctx.suite("designators");
    for spec in [L, SpecId::AMSTERDAM, SpecId::SHANGHAI] {
        for tail in 0..=24usize {
            for head in [&[0xef][..], &[0xef, 0x00], &[0xef, 0x01], &[0xef, 0x00, 0x01]] {
                let mut c = head.to_vec();
                c.extend(std::iter::repeat_n(0x69, tail));
                // Only well-formed delegation designators are not ordinary code.
                ctx.case(&c, spec, &PI, &envs);
            }
        }
    }
    ctx.suite("big");
    big(ctx);
}

fn each(ctx: &mut Ctx, set: &[u8], n: usize, pre: &[u8], post: &[u8], envs: &[Env]) {
    tok::each_seq(set.len(), n, |s| {
        if ctx.mine() {
            let mut c = pre.to_vec();
            c.extend(s.iter().map(|i| set[*i]));
            c.extend_from_slice(post);
            ctx.force(&c, L, &[Cfg::PROD], envs);
        }
        !ctx.done()
    });
}

/// Programs as large as contracts get: the compiler must finish and be right on them.
fn big(ctx: &mut Ctx) {
    let env = [Env { gas: 2_000_000, ..Env::cd(&words(&[u(1), u(2)])) }];
    let n = if ctx.quick() { 3_000 } else { 24_576 };
    for op in 0..=255u8 {
        // One byte repeated.
        ctx.case(&vec![op; n], L, &[Cfg::PROD], &env);
    }
    let units: Vec<Vec<u8>> = vec![
        vec![0x60, 1, 0x50],
        vec![0x5b, 0x60, 1, 0x50],
        vec![0x60, 0, 0x35, 0x60, 0, 0x52],
        vec![0x60, 0, 0x51, 0x60, 0, 0x52],
        vec![0x60, 0, 0x54, 0x60, 0, 0x55],
        vec![0x60, 0, 0x35, 0x61, 0, 0, 0x57],
        vec![0x5b, 0x60, 0, 0x35, 0x61, 0x00, 0x00, 0x57],
        vec![0x5b, 0x80, 0x56],
        vec![0x5b, 0x60, 0, 0x35, 0x56],
        vec![0x5f, 0x5f, 0x20, 0x50],
        vec![0x60, 2, 0x60, 3, 0x0a, 0x50],
        vec![0x5f, 0x5f, 0x5f, 0x5f, 0x5f, 0x5f, 0x5f, 0xf1, 0x50],
        vec![0x5f, 0x5f, 0x5f, 0xf0, 0x50],
        vec![0x60, 0, 0x35, 0x15, 0x15, 0x50],
        vec![0x5b, 0x60, 0, 0x52, 0x5f, 0x5f],
        vec![0x5b, 0x5f, 0x5f, 0xf3],
        vec![0x5b, 0x60, 1, 0x60, 2, 0x01, 0x50, 0x5f, 0x5f, 0xfd],
    ];
    for unit in units {
        if !ctx.mine() {
            continue;
        }
        let mut c = vec![0x5b];
        while c.len() + unit.len() <= n {
            // Absolute pushes of two bytes become the address of the next unit.
            let at = c.len();
            c.extend_from_slice(&unit);
            if let Some(p) = unit.windows(3).position(|w| w == [0x61, 0, 0]) {
                let next = (at + unit.len()) as u16;
                c[at + p + 1..at + p + 3].copy_from_slice(&next.to_be_bytes());
            }
        }
        ctx.force(&c, L, &[Cfg::PROD], &env);
    }
}
