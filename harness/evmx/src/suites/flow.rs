//! Control flow: all small graphs of basic blocks.

use super::{tok::*, *};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Body {
    None,
    /// memory[0] += 1
    Count,
    /// memory[32] = memory[32] * 3 + block
    Mix,
    /// Push a return address.
    Push(u8),
    Pop,
    Swap,
    Dup,
    /// Push calldata word 0.
    Arg,
    /// transient[block] = memory size
    Store,
    /// Push zero / one.
    Zero,
    /// Push / pop this many values: heights around the limits of the analysis.
    PushN(u8),
    PopN(u8),
    /// Pop this many values, then push a return address.
    PopPush(u8, u8),
    /// These bytes.
    Raw(&'static [u8]),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Term {
    Fall,
    Jump(u8),
    /// Branch on calldata word 1 + block.
    If(u8),
    /// Branch on memory[0] < 3.
    Loop(u8),
    /// Branch on the top of the stack.
    IfTop(u8),
    /// Jump to calldata word 0.
    Dyn,
    /// Branch to calldata word 0 on calldata word 1.
    DynIf,
    /// Jump to the top of the stack.
    Top,
    /// Branch to the top of the stack on calldata word 1.
    TopIf,
    Stop,
    Return,
    Revert,
    Invalid,
    /// Into push data.
    Bad,
    BadIf,
    /// Jump to the target computed as `label - 1 + 1`.
    Sum(u8),
    /// Target selected from two labels by calldata word 1.
    Select(u8, u8),
}

/// Lays the blocks out, with every block but the first starting with `JUMPDEST`.
pub fn layout(blocks: &[(Body, Term)]) -> (Vec<u8>, Vec<u16>) {
    layout_bare(blocks, 0)
}
/// Like [`layout`], but the blocks in `bare` have no `JUMPDEST`.
pub fn layout_bare(blocks: &[(Body, Term)], bare: u32) -> (Vec<u8>, Vec<u16>) {
    let mut labels = vec![0u16; blocks.len()];
    let mut code = vec![];
    for _ in 0..2 {
        let mut a = Asm::new();
        for (i, (b, t)) in blocks.iter().enumerate() {
            labels[i] = a.len() as u16;
            if bare >> i & 1 == 0 {
                a.op(JUMPDEST);
            }
            let l = |j: u8| labels[j as usize % blocks.len()];
            match b {
                Body::None => {}
                Body::Count => {
                    a.pu(0).op(MLOAD).pu(1).op(0x01).pu(0).op(MSTORE);
                }
                Body::Mix => {
                    a.pu(32).op(MLOAD).pu(3).op(0x02).pu(i as u64 + 1).op(0x01).pu(32).op(MSTORE);
                }
                Body::Push(j) => {
                    a.p2(l(*j));
                }
                Body::Pop => {
                    a.op(POP);
                }
                Body::Swap => {
                    a.op(0x90);
                }
                Body::Dup => {
                    a.op(0x80);
                }
                Body::Arg => {
                    a.arg(0);
                }
                Body::Store => {
                    a.op(MSIZE).pu(200 + i as u64).op(TSTORE);
                }
                Body::Zero => {
                    a.pu(0);
                }
                Body::Raw(b) => {
                    a.raw(b);
                }
                Body::PushN(n) => {
                    for k in 0..*n {
                        a.pu(k as u64);
                    }
                }
                Body::PopPush(n, j) => {
                    for _ in 0..*n {
                        a.op(POP);
                    }
                    a.p2(l(*j));
                }
                Body::PopN(n) => {
                    for _ in 0..*n {
                        a.op(POP);
                    }
                }
            }
            match t {
                Term::Fall => {}
                Term::Jump(j) => {
                    a.p2(l(*j)).op(JUMP);
                }
                Term::If(j) => {
                    a.arg(1 + i as u64).p2(l(*j)).op(JUMPI);
                }
                Term::Loop(j) => {
                    a.pu(3).pu(0).op(MLOAD).op(0x10).p2(l(*j)).op(JUMPI);
                }
                Term::IfTop(j) => {
                    a.p2(l(*j)).op(JUMPI);
                }
                Term::Dyn => {
                    a.arg(0).op(JUMP);
                }
                Term::DynIf => {
                    a.arg(1).arg(0).op(JUMPI);
                }
                Term::Top => {
                    a.op(JUMP);
                }
                Term::TopIf => {
                    a.arg(1).op(0x90).op(JUMPI);
                }
                Term::Stop => {
                    a.op(0x00);
                }
                Term::Return => {
                    a.ret(0, 64);
                }
                Term::Revert => {
                    a.pu(64).pu(0).op(REVERT);
                }
                Term::Invalid => {
                    a.op(0xfe);
                }
                Term::Bad => {
                    // The second byte of a push.
                    a.pu(0x5b).p2(l(i as u8)).op(0x01).op(JUMP);
                }
                Term::BadIf => {
                    a.arg(1).p2(l(i as u8) + 1).op(JUMPI);
                }
                Term::Sum(j) => {
                    a.p2(l(*j).wrapping_sub(1)).pu(1).op(0x01).op(JUMP);
                }
                Term::Select(j, k) => {
                    // k + (j - k) * (word != 0)
                    let d = U256::from(l(*j)).wrapping_sub(U256::from(l(*k)));
                    // Fixed width.
                    a.op(0x7f).raw(&d.to_be_bytes::<32>());
                    a.arg(1).op(0x15).op(0x15).op(0x02).p2(l(*k)).op(0x01).op(JUMP);
                }
            }
        }
        code = a.0;
    }
    (code, labels)
}

/// Environments: every target for the dynamic jump and both branch directions.
pub fn envs(labels: &[u16], len: usize, rich: bool) -> Vec<Env> {
    let mut v = vec![];
    let mut targets: Vec<U256> = labels.iter().map(|l| u(*l as u64)).collect();
    if rich {
        targets.extend([u(1), u(len as u64), pow2(64) + u(labels[labels.len() - 1] as u64), m1()]);
    } else {
        targets.push(u(2));
    }
    for tgt in targets {
        for bits in if rich { vec![0u64, 1, 2, 3] } else { vec![0, 1] } {
            let w: Vec<U256> = std::iter::once(tgt)
                .chain((0..4).map(|i| if bits >> (i % 2) & 1 == 1 { u(7) << (i * 40) } else { U256::ZERO }))
                .collect();
            let mut e = Env::cd(&words(&w));
            e.gas = 1500;
            v.push(e);
        }
    }
    v
}

pub fn uses_dyn(b: &[(Body, Term)]) -> bool {
    b.iter().any(|(b, t)| matches!(t, Term::Dyn | Term::DynIf) || matches!(b, Body::Arg))
}
pub fn uses_branch(b: &[(Body, Term)]) -> bool {
    b.iter().any(|(_, t)| matches!(t, Term::If(_) | Term::DynIf | Term::TopIf | Term::BadIf | Term::Select(..)))
}

/// Environments that can make a difference for this graph.
pub fn relevant(blocks: &[(Body, Term)], labels: &[u16], len: usize, rich: bool) -> Vec<Env> {
    let mut v = envs(labels, len, rich);
    if !uses_dyn(blocks) {
        let n = if rich { 4 } else { 2 };
        v.truncate(n);
    }
    if !uses_branch(blocks) {
        let n = if rich { 4 } else { 2 };
        v = v.into_iter().step_by(n).collect();
    }
    v
}

pub fn graphs(ctx: &mut Ctx, n: usize, bodies: &[Body], terms: &[Term], cfgs: &[Cfg], rich: bool, sweep: bool) {
    let kinds: Vec<(Body, Term)> =
        bodies.iter().flat_map(|b| terms.iter().map(move |t| (*b, *t))).collect();
    graphs_of(ctx, n, &kinds, cfgs, rich, sweep)
}
pub fn graphs_of(ctx: &mut Ctx, n: usize, kinds: &[(Body, Term)], cfgs: &[Cfg], rich: bool, sweep: bool) {
    each_seq(kinds.len(), n, |s| {
        if ctx.mine() {
            let blocks: Vec<_> = s.iter().map(|i| kinds[*i]).collect();
            let (code, labels) = layout(&blocks);
            let e = relevant(&blocks, &labels, code.len(), rich);
            if sweep {
                ctx.force_sweep(&code, L, cfgs, &e[..1]);
            } else {
                ctx.force(&code, L, cfgs, &e);
            }
        }
        !ctx.done()
    });
}

pub fn all_bodies(n: u8) -> Vec<Body> {
    let mut v = vec![Body::None, Body::Count, Body::Mix, Body::Pop, Body::Swap, Body::Dup, Body::Arg, Body::Store, Body::Zero];
    v.extend((0..n).map(Body::Push));
    v
}
pub fn all_terms(n: u8) -> Vec<Term> {
    let mut v = vec![
        Term::Fall,
        Term::Dyn,
        Term::DynIf,
        Term::Top,
        Term::TopIf,
        Term::Stop,
        Term::Return,
        Term::Revert,
        Term::Invalid,
        Term::Bad,
        Term::BadIf,
    ];
    for j in 0..n {
        v.extend([Term::Jump(j), Term::If(j), Term::Loop(j), Term::IfTop(j), Term::Sum(j)]);
        for k in 0..n {
            if k != j {
                v.push(Term::Select(j, k));
            }
        }
    }
    v
}

/// Subroutines: `callers` call sites push a return address and jump to a shared routine, which
/// returns through the stack; the routine may itself call another.
pub fn subroutines(ctx: &mut Ctx, cfgs: &[Cfg]) {
    // Bodies of the routine over (return address, argument).
    let bodies: Vec<Vec<u8>> = vec![
        vec![],
        vec![0x90, 0x60, 1, 0x01, 0x90],             // arg + 1
        vec![0x90, 0x80, 0x02, 0x90],                // arg²
        vec![0x90, 0x15, 0x90],                      // !arg
        vec![0x81, 0x60, 0, 0x52],                   // mem[0] = arg
        vec![0x5b],                                  // splits the block
        vec![0x81, 0x60, 0, 0x35, 0x01, 0x60, 0, 0x55], // storage[0] = arg + word 0,
        vec![0x90, 0x50, 0x60, 9, 0x90],             // drop the argument, push 9
    ];
    for b1 in &bodies {
        for b2 in &bodies {
            for shape in 0..6u8 {
                if !ctx.mine() {
                    continue;
                }
                let (code, labels) = sub_prog(b1, b2, shape);
                let mut ev = vec![];
                for w0 in [u(0), u(5), m1(), u(labels[0] as u64), u(labels[1] as u64)] {
                    for w1 in [u(0), u(1)] {
                        let mut e = Env::cd(&words(&[w0, w1]));
                        e.gas = 60_000;
                        ev.push(e);
                    }
                }
                ctx.force(&code, L, cfgs, &ev);
            }
        }
    }
}

fn sub_prog(b1: &[u8], b2: &[u8], shape: u8) -> (Vec<u8>, Vec<u16>) {
    let mut l = [0u16; 6];
    let mut code = vec![];
    for _ in 0..2 {
        let mut a = Asm::new();
        // call 1
        a.arg(0).p2(l[0]).p2(l[2]);
        match shape {
            1 | 5 => {
                // Conditional call.
                a.arg(1).op(0x90).op(JUMPI);
                a.op(POP).op(POP).pu(3);
            }
            _ => {
                a.op(JUMP);
            }
        }
        l[0] = a.len() as u16;
        a.op(JUMPDEST);
        // call 2 with the result of the first, or with a constant.
        if shape == 2 {
            a.op(POP).pu(77);
        }
        a.p2(l[1]).p2(if shape == 3 || shape == 5 { l[3] } else { l[2] });
        a.op(JUMP);
        l[1] = a.len() as u16;
        a.op(JUMPDEST);
        a.pu(7).op(SSTORE).op(0x00);
        // routine 1: (ret, arg) -> jumps to ret with (arg')
        l[2] = a.len() as u16;
        a.op(JUMPDEST).raw(b1);
        // stack: arg ret
        match shape {
            4 => {
                // Tail call of routine 2.
                a.p2(l[3]).op(JUMP);
            }
            5 => {
                // Nested call: push another frame.
                a.op(0x81).p2(l[4]).p2(l[3]).op(JUMP);
                l[4] = a.len() as u16;
                a.op(JUMPDEST).op(POP).op(JUMP);
            }
            _ => {
                a.op(JUMP);
            }
        }
        l[3] = a.len() as u16;
        a.op(JUMPDEST).raw(b2).op(JUMP);
        code = a.0;
    }
    (code, l.to_vec())
}

/// All opcode strings over a control-flow alphabet, jumping around by small constants.
pub fn strings(ctx: &mut Ctx, depth: usize) {
    let toks: Vec<Vec<u8>> = vec![
        vec![JUMPDEST],
        vec![0x60, 6],
        vec![0x60, 9],
        vec![0x60, 12],
        vec![JUMP],
        vec![JUMPI],
        vec![0x80],
        vec![0x90],
        vec![POP],
        vec![0x15],
        vec![0x00],
        vec![PC],
        vec![0x62, 0x5b, 0x5b, 0x5b],
        vec![0x60, 0, 0x35],
    ];
    let mut envs: Vec<Env> = [6u64, 9, 10].iter().map(|v| Env::cd(&words(&[u(*v)]))).collect();
    for e in &mut envs {
        e.gas = 600;
    }
    each_seq(toks.len(), depth, |s| {
        if ctx.mine() {
            let mut code = vec![];
            for i in s {
                code.extend_from_slice(&toks[*i]);
            }
            ctx.force(&code, L, &[Cfg::INSPECT], &envs);
        }
        !ctx.done()
    });
}

pub fn run(ctx: &mut Ctx) {
    ctx.suite("graphs-1");
    graphs(ctx, 1, &all_bodies(1), &all_terms(1), &[Cfg::PROD, Cfg::INSPECT, Cfg::NOOPT], true, false);
    ctx.suite("graphs-2");
    graphs(ctx, 2, &all_bodies(2), &all_terms(2), &PI, true, false);
    ctx.suite("subroutines");
    subroutines(ctx, &[Cfg::PROD, Cfg::INSPECT, Cfg::NOOPT]);
    ctx.suite("deep-graphs");
    deep(ctx);
    ctx.suite("near-twins");
    config::near_twins(ctx, &[Cfg::PROD, Cfg::NOOPT], 2);
    ctx.suite("graphs-3");
    if ctx.quick() {
        let b = [Body::None, Body::Mix, Body::Push(2), Body::Zero];
        let t = [
            Term::Fall, Term::Dyn, Term::DynIf, Term::Top, Term::TopIf, Term::Return, Term::Stop, Term::Invalid, Term::Jump(1), Term::Jump(2), Term::If(2), Term::IfTop(0), Term::Loop(0), Term::Select(1, 2), Term::BadIf,
        ];
        graphs(ctx, 3, &b, &t, &[Cfg::PROD], false, false);
    } else {
        graphs(ctx, 3, &all_bodies(3), &all_terms(3)[..], &[Cfg::PROD], false, false);
    }
    ctx.suite("graphs-4");
    let kinds = small_kinds();
    let kinds4 = if ctx.quick() { &kinds[..13] } else { &kinds[..] };
    graphs_of(ctx, 4, kinds4, &[Cfg::PROD], false, false);
    if !ctx.quick() {
        ctx.suite("graphs-5");
        graphs_of(ctx, 5, &kinds[..13], &[Cfg::PROD], false, false);
    }
    ctx.suite("value-joins");
    joins::values(ctx, &PI, if ctx.quick() { 12 } else { usize::MAX });
    ctx.suite("merge-layers");
    joins::layers(ctx, &[Cfg::PROD]);
    ctx.suite("jump-strings");
    let d = if ctx.quick() { 4 } else { 6 };
    for n in 1..=d {
        strings(ctx, n);
    }
    ctx.suite("large");
    large(ctx);
}

pub fn small_kinds() -> Vec<(Body, Term)> {
    vec![
        (Body::Mix, Term::Fall),
        (Body::Mix, Term::Top),
        (Body::Push(2), Term::Jump(3)),
        (Body::Push(1), Term::Jump(3)),
        (Body::Mix, Term::If(3)),
        (Body::Count, Term::Loop(0)),
        (Body::None, Term::Dyn),
        (Body::Push(3), Term::DynIf),
        (Body::Mix, Term::Return),
        (Body::None, Term::Return),
        (Body::Pop, Term::Fall),
        (Body::Push(2), Term::TopIf),
        (Body::Dup, Term::IfTop(2)),
        (Body::Mix, Term::Jump(2)),
        (Body::Swap, Term::Top),
        (Body::Zero, Term::If(1)),
        (Body::Mix, Term::Select(1, 3)),
        (Body::None, Term::Stop),
        (Body::Mix, Term::Revert),
        (Body::Count, Term::Loop(1)),
        (Body::Arg, Term::Fall),
        (Body::Push(3), Term::Fall),
        (Body::None, Term::Bad),
    ]
}

/// Larger programs: many blocks, many jump targets, many call sites of one routine.
fn large(ctx: &mut Ctx) {
    for n in [3usize, 8, 17, 64, 200] {
        // n call sites of one routine.
        if ctx.mine() {
            let mut code = vec![];
            let mut l = vec![0u16; n + 1];
            for _ in 0..2 {
                let mut a = Asm::new();
                a.pu(0);
                for i in 0..n {
                    a.pu(i as u64 + 1).p2(l[i]).p2(l[n]).op(JUMP);
                    l[i] = a.len() as u16;
                    a.op(JUMPDEST);
                }
                a.pu(0).op(MSTORE).ret(0, 32);
                l[n] = a.len() as u16;
                // (acc, x, ret) -> acc * 3 + x
                a.op(JUMPDEST).op(0x91).pu(3).op(0x02).op(0x01).op(0x90).op(JUMP);
                code = a.0;
            }
            ctx.force(&code, L, &[Cfg::PROD, Cfg::INSPECT, Cfg::NOOPT], &[Env::default()]);
        }
        // A dynamic jump into n targets.
        if ctx.mine() {
            let mut l = vec![0u16; n];
            let mut a = Asm::new();
            a.arg(0).op(JUMP);
            for (i, x) in l.iter_mut().enumerate() {
                *x = a.len() as u16;
                a.op(JUMPDEST).pu(i as u64 + 10).mstore(0).ret(0, 32);
            }
            let envs: Vec<Env> =
                l.iter().flat_map(|x| [*x, x + 1]).map(|x| Env::cd(&words(&[u(x as u64)]))).collect();
            ctx.force(&a.0, L, &PI, &envs);
        }
    }
}

/// Graphs whose blocks raise and lower the stack by more than the analysis tracks. Four free blocks
/// and two distinguishable ends.
fn deep(ctx: &mut Ctx) {
    for (up, down) in [(70u8, 70u8), (66, 65), (33, 40), (64, 64), (65, 33)] {
        let kinds = [
            (Body::PushN(up), Term::If(2)),
            (Body::PopPush(down, 5), Term::Jump(3)),
            (Body::Push(4), Term::Jump(3)),
            (Body::None, Term::Top),
            (Body::PopN(down), Term::Fall),
            (Body::Push(5), Term::Jump(3)),
            (Body::PopN(down), Term::Top),
            (Body::PushN(up), Term::Fall),
            (Body::PopN(down), Term::IfTop(3)),
            (Body::PopPush(down, 4), Term::TopIf),
            (Body::Mix, Term::If(3)),
            (Body::PopPush(down, 4), Term::Dyn),
        ];
        let n = if ctx.quick() { if up == 70 { 9 } else { 7 } } else { kinds.len() };
        each_seq(n, 4, |s| {
            if ctx.mine() {
                let mut blocks: Vec<_> = s.iter().map(|i| kinds[*i]).collect();
                blocks.push((Body::Mix, Term::Return));
                blocks.push((Body::Mix, Term::Return));
                let (code, labels) = layout(&blocks);
                let e = relevant(&blocks, &labels, code.len(), false);
                ctx.force(&code, L, &PI, &e);
            }
            !ctx.done()
        });
    }
}
