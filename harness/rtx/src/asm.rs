//! The assembler and the disassembler: every short program of items against a reference, in several layouts.
use crate::plain::{Plain, Seen, digest};
use alloy_primitives::U256;
use revm_bytecode::opcode::OPCODE_INFO;
use revm_primitives::hardfork::SpecId;
use std::collections::BTreeMap;

/// One piece of a source text. `Err` items make the whole text invalid.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum I {
    Op(&'static str, u8),
    /// `PUSH n`.
    Auto(U256),
    /// `PUSHk n`.
    Fixed(u8, U256),
    AutoLabel(&'static str),
    FixedLabel(u8, &'static str),
    Label(&'static str),
    Dup(u8),
    Swap(u8),
    Dupn(u8),
    Swapn(u8),
    Exchange(u8, u8),
    /// That many STOPs.
    Pad(usize),
    /// Macro call: text and what it stands for.
    Macro(&'static str, &'static [I]),
    Bad(&'static str),
}
use I::*;

const fn n(x: u64) -> U256 {
    U256::from_limbs([x, 0, 0, 0])
}
const MAX: U256 = U256::MAX;
/// Definitions in front of every text.
const DEFS: &str = "#define ONE PUSH 1 ADD\n#define F(x) PUSH $x POP\n  #define G(x, y) PUSH $y PUSH2 $x\n#define Z() STOP\n#define EMPTY\n#define SP (1)\n#define K(x) STOP\n#define L2(x, xy) PUSH $xy PUSH $x\n#define M(x)  $x $x ; comment\n#define T(a,b,c) $c $a $b\n#define LAB(n) PUSH %q $n\n#define OBJ PUSH 3 ; F(1)\n#define\tTAB\tMUL\n#define Oneb SUB\n";
const CORE: &[I] = &[
    Op("ADD", 0x01),
    Op("JUMPDEST", 0x5b),
    Op("PUSH0", 0x5f),
    Auto(n(0)),
    Auto(n(1)),
    Auto(n(0xff)),
    Auto(n(0x100)),
    Auto(MAX),
    Fixed(1, n(0)),
    Fixed(1, n(0xff)),
    Fixed(2, n(1)),
    Fixed(32, MAX),
    AutoLabel("a"),
    AutoLabel("b_2"),
    FixedLabel(1, "a"),
    FixedLabel(2, "b_2"),
    Label("a"),
    Label("b_2"),
    Dup(16),
    Dup(17),
    Swap(1),
    Swapn(200),
    Exchange(1, 2),
    Pad(1),
    Pad(252),
    Macro("RET_WORD", &[Op("PUSH0", 0x5f), Op("MSTORE", 0x52), Fixed(1, n(32)), Op("PUSH0", 0x5f), Op("RETURN", 0xf3)]),
    Macro("ONE", &[Auto(n(1)), Op("ADD", 1)]),
    Macro("F(%a)", &[AutoLabel("a"), Op("POP", 0x50)]),
    Macro("G(7, 0x8)", &[Auto(n(8)), Fixed(2, n(7))]),
    Macro("Z()", &[Op("STOP", 0)]),
    Macro("EMPTY", &[]),
    Bad("FOO"),
    Bad("5"),
];
const AD: I = Op("ADD", 1);
const MU: I = Op("MUL", 2);
/// Uses of macros with every shape of argument.
const MACROS: &[I] = &[
    Macro("K((1,2))", &[Op("STOP", 0)]),
    Macro("K(((ADD),(1,2)))", &[Op("STOP", 0)]),
    Bad("K((ADD),1)"),
    Macro("K()", &[Op("STOP", 0)]),
    Macro("L2(1, 2)", &[Auto(n(2)), Auto(n(1))]),
    Macro("L2(0X1F,%a)", &[AutoLabel("a"), Auto(n(0x1f))]),
    Macro("M(ADD MUL)", &[AD, MU, AD, MU]),
    Macro("M()", &[]),
    Macro("M (ADD)", &[AD, AD]),
    Macro("M(PUSH2 0xAb)", &[Fixed(2, n(0xab)), Fixed(2, n(0xab))]),
    Macro("M(ADD ; x)\n)", &[AD, AD]),
    Macro("M(\n\tADD\n )", &[AD, AD]),
    Macro("T(ADD,MUL,PUSH 1)", &[Auto(n(1)), AD, MU]),
    Macro("T(,MUL,)", &[MU]),
    Macro("T(ADD MUL,,ADD)", &[AD, AD, MU]),
    Macro("T(ADD, q: , MUL) PUSH %q", &[MU, AD, Label("q"), AutoLabel("q")]),
    Macro("LAB(q:)", &[AutoLabel("q"), Label("q")]),
    Macro("OBJ", &[Auto(n(3))]),
    Macro("TAB", &[MU]),
    Macro("Oneb", &[Op("SUB", 3)]),
    Macro("DUP3", &[Dup(3)]),
    Macro("SWAP16", &[Swap(16)]),
    Bad("DUP17"),
    Bad("SWAP0"),
    Bad("ONEB"),
    Bad("one"),
    Bad("T(1,2)"),
    Bad("T(1,2,3,4)"),
    Bad("L2(1)"),
    Bad("L2((1,2))"),
    Bad("M(K)"),
    Bad("OBJ(1)"),
    Bad("M(ADD))"),
];
/// Every opcode, width, index and pair once, and everything that is to be refused.
fn singles() -> Vec<I> {
    let mut v: Vec<I> = CORE.to_vec();
    v.extend(MACROS.iter().filter(|m| !refers(m)));
    for (b, i) in OPCODE_INFO.iter().enumerate() {
        if let Some(i) = i
            && i.immediate_size() == 0
        {
            v.push(Op(i.name(), b as u8));
        }
    }
    for k in 1..=32u8 {
        let top = if k == 32 { MAX } else { (n(1) << (8 * k as usize)) - n(1) };
        v.extend([Fixed(k, n(0)), Fixed(k, top), Auto(top), FixedLabel(k, "a")]);
        if k < 32 {
            v.extend([Fixed(k, top + n(1)), Auto(top + n(1))]);
        }
    }
    for i in 0..=255 {
        v.extend([Dup(i), Swap(i), Dupn(i), Swapn(i)]);
    }
    for a in 0..=32 {
        for b in 0..=32 {
            v.push(Exchange(a, b));
        }
    }
    for p in [253, 254, 255, 256, 257, 258, 65533, 65534, 65535, 65536, 65537] {
        v.push(Pad(p));
    }
    v.extend(
        [
            "PUSH", "PUSH1", "PUSH33 1", "PUSH x", "PUSH -1", "PUSH1 256", "PUSH 0x10000000000000000000000000000000000000000000000000000000000000000",
            "ADD 1", "PUSH0 0", "%a", "$a", ":", "(", ")", ",", "PUSH %", "PUSH $x", "PUSH %nowhere", "PUSH2 %nowhere", "add", "@", "é", "DUP", "DUP %a",
            "SWAP 300", "DUPN", "DUPN %a", "EXCHANGE 1", "EXCHANGE %a 1", "F", "F(", "F()(", "F(1,2)", "G(1)", "Z(1)", "F 1", "UNKNOWN", "#define", "#define 1", "#define H(", "#define H(1)",
            "#define H(a b)", "#define H(a,)", "SP", "X_1", "PUSH\u{a0}1", "PUSH1 99999999999999999999999999999999999999999999999999999999999999999999999999999999",
        ]
        .map(Bad),
    );
    v
}

fn text(i: &I, out: &mut Vec<String>, layout: u32) {
    let hex = layout % 2 == 1;
    let num = |x: &U256| match layout {
        0 => format!("{x}"),
        1 => format!("0x{x:x}"),
        2 => format!("00{x}"),
        _ => format!("0X0{x:X}"),
    };
    match i {
        Op(s, _) => out.push(s.to_string()),
        Auto(x) => out.extend(["PUSH".into(), num(x)]),
        Fixed(k, x) => out.extend([format!("PUSH{k}"), num(x)]),
        AutoLabel(l) => out.extend(["PUSH".into(), format!("%{l}")]),
        FixedLabel(k, l) => out.extend([format!("PUSH{k}"), format!("%{l}")]),
        Label(l) => out.push(format!("{l}:")),
        Dup(k) if hex && (1..=16).contains(k) => out.push(format!("DUP{k}")),
        Swap(k) if hex && (1..=16).contains(k) => out.push(format!("SWAP{k}")),
        Dup(k) => out.extend(["DUP".into(), num(&U256::from(*k))]),
        Swap(k) => out.extend(["SWAP".into(), num(&U256::from(*k))]),
        Dupn(k) => out.extend(["DUPN".into(), num(&U256::from(*k))]),
        Swapn(k) => out.extend(["SWAPN".into(), num(&U256::from(*k))]),
        Exchange(a, b) => out.extend(["EXCHANGE".into(), num(&U256::from(*a)), num(&U256::from(*b))]),
        Pad(k) => out.extend((0..*k).map(|_| "STOP".to_string())),
        Macro(s, _) | Bad(s) => out.push(s.to_string()),
    }
}
/// EIP-8024 immediates, found by searching the decoder of the specification.
fn single(k: u8) -> Option<u8> {
    (0..=255u32).find(|x| (*x <= 90 || *x >= 128) && (x + 145) % 256 == k as u32).map(|x| x as u8)
}
fn pair(a: u8, b: u8) -> Option<Vec<u8>> {
    let v: Vec<u8> = (0..=255u32)
        .filter(|x| !(82..128).contains(x))
        .filter(|x| {
            let (q, r) = ((x ^ 143) / 16, (x ^ 143) % 16);
            (if q < r { (q + 1, r + 1) } else { (r + 1, 29 - q) }) == (a as u32, b as u32)
        })
        .map(|x| x as u8)
        .collect();
    (!v.is_empty()).then_some(v)
}
/// A byte of the result; some immediates have several encodings.
type Out = Vec<Vec<u8>>;
enum P {
    Bytes(Out),
    Label(&'static str),
    /// Width (nothing: smallest) and target.
    Ref(Option<u8>, &'static str),
}
fn flat(items: &[I], out: &mut Vec<P>) -> Result<(), ()> {
    let one = |v: Vec<u8>| P::Bytes(v.into_iter().map(|b| vec![b]).collect());
    let be = |x: &U256| x.to_be_bytes_trimmed_vec();
    for i in items {
        match i {
            Op(_, b) => out.push(one(vec![*b])),
            Auto(x) => out.push(one([vec![0x5f + be(x).len() as u8], be(x)].concat())),
            Fixed(k, x) => {
                let b = be(x);
                if b.len() > *k as usize {
                    return Err(());
                }
                out.push(one([vec![0x5f + k], vec![0; *k as usize - b.len()], b].concat()))
            }
            AutoLabel(l) => out.push(P::Ref(None, l)),
            FixedLabel(k, l) => out.push(P::Ref(Some(*k), l)),
            Label(l) => out.push(P::Label(l)),
            Dup(0) | Swap(0) => return Err(()),
            Dup(k @ 1..=16) => out.push(one(vec![0x7f + k])),
            Swap(k @ 1..=16) => out.push(one(vec![0x8f + k])),
            Dup(k) | Dupn(k) => out.push(one(vec![0xe6, single(*k).ok_or(())?])),
            Swap(k) | Swapn(k) => out.push(one(vec![0xe7, single(*k).ok_or(())?])),
            Exchange(a, b) => out.push(P::Bytes(vec![vec![0xe8], pair(*a, *b).ok_or(())?])),
            Pad(k) => out.push(one(vec![0; *k])),
            Macro(_, m) => flat(m, out)?,
            Bad(_) => return Err(()),
        }
    }
    Ok(())
}
/// What the items spell: `None` if they are not a program.
fn reference(items: &[I]) -> Option<Out> {
    let mut ps = vec![];
    flat(items, &mut ps).ok()?;
    // The smallest widths that fit.
    let mut w: Vec<usize> = ps.iter().map(|p| if let P::Ref(Some(k), _) = p { *k as usize } else { 0 }).collect();
    loop {
        let mut at: BTreeMap<&str, usize> = BTreeMap::new();
        let mut pc = 0;
        for (p, w) in ps.iter().zip(&w) {
            match p {
                P::Bytes(b) => pc += b.len(),
                P::Label(l) => {
                    at.insert(l, pc);
                }
                P::Ref(..) => pc += 1 + w,
            }
        }
        let mut grown = false;
        let mut out: Out = vec![];
        for (p, w) in ps.iter().zip(&mut w) {
            match p {
                P::Bytes(b) => out.extend(b.iter().cloned()),
                P::Label(_) => {}
                P::Ref(k, l) => {
                    let t = *at.get(l)?;
                    let need = (usize::BITS - t.leading_zeros()).div_ceil(8) as usize;
                    if need > *w {
                        if k.is_some() {
                            // A label only moves up.
                            return None;
                        }
                        *w = need;
                        grown = true;
                    }
                    out.push(vec![0x5f + *w as u8]);
                    let b = U256::from(t).to_be_bytes::<32>();
                    out.extend(b[32 - *w..].iter().map(|b| vec![*b]));
                }
            }
        }
        if !grown {
            return Some(out);
        }
    }
}
/// Duplicate labels and the odd texts `assembling` has no rule for are left out.
fn doubtful(items: &[I]) -> bool {
    let l: Vec<&I> = items.iter().filter(|i| matches!(i, Label(_))).collect();
    (1..l.len()).any(|i| l[..i].contains(&l[i]))
        // A number after an instruction belongs to it; an opening text may swallow what follows.
        || items.windows(2).any(|w| w[1] == Bad("5") || matches!(w[0], Bad(b) if b.ends_with(['(', '%', '$'])))
}
fn judge(items: &[I]) -> Result<u64, String> {
    if doubtful(items) && !matches!(items.first(), Some(Bad("5"))) {
        return Ok(0);
    }
    let want = reference(items);
    let mut d = 0;
    for layout in 0..4u32 {
        let mut words = vec![];
        for i in items {
            text(i, &mut words, layout);
        }
        let body = match layout {
            0 => words.join(" "),
            1 => words.iter().map(|w| format!("\t{w}  ; comment ( % $ 5 ADD {}\r\n", w.replace('\n', " "))).collect::<String>(),
            3 => words.join("\t "),
            _ => format!("\n  ; {}\n{}", "STOP", words.join("\n")),
        };
        let src = if layout == 2 { format!("{body}\n{DEFS}") } else { format!("{DEFS}{body}") };
        let got = std::panic::catch_unwind(|| revmc_codegen::parse_asm(&src)).map_err(|_| format!("assembling {body:?} panics"))?;
        let show = |b: &[u8]| alloy_primitives::hex::encode(&b[..b.len().min(80)]);
        match (&got, &want) {
            (Ok(g), Some(w)) => {
                if g.len() != w.len() || g.iter().zip(w).any(|(g, w)| !w.contains(g)) {
                    let w: Vec<u8> = w.iter().map(|x| x[0]).collect();
                    return Err(format!("{:?} assembles to {} ({} bytes), expected {} ({})", &body[..body.len().min(300)], show(g), g.len(), show(&w), w.len()));
                }
            }
            (Err(_), None) => {}
            (Ok(g), None) => return Err(format!("{:?} is accepted and assembles to {}", &body[..body.len().min(300)], show(g))),
            (Err(e), Some(_)) => return Err(format!("{:?} is refused: {e}", &body[..body.len().min(300)])),
        }
        d = digest(got.ok());
    }
    Ok(d)
}
fn nth(mut i: u64, len: usize) -> Vec<I> {
    (0..len)
        .map(|_| {
            let x = CORE[(i % CORE.len() as u64) as usize];
            i /= CORE.len() as u64;
            x
        })
        .collect()
}
const BLOCK: u64 = 64;
fn programs(i: u64, len: usize) -> Result<Seen, String> {
    let all = (CORE.len() as u64).pow(len as u32);
    let mut d = 0;
    let mut k = 0;
    for j in i * BLOCK..((i + 1) * BLOCK).min(all) {
        d ^= judge(&nth(j, len))?;
        k += 1;
    }
    Ok((k, d))
}
/// Each item alone, and after and before a label and its use.
fn alone(i: u64) -> Result<Seen, String> {
    let all = singles();
    let Some(x) = all.get(i as usize) else { return Ok((0, 0)) };
    let own = matches!(x, Label("a") | FixedLabel(_, "a") | AutoLabel("a")) || matches!(x, Macro("F(%a)", _));
    let mut d = 0;
    if !own {
        d ^= judge(&[*x])?;
    }
    let l = Label("a");
    if *x == l {
        return Ok((1, d));
    }
    for s in [vec![*x, l, AutoLabel("a")], vec![AutoLabel("a"), *x, l], vec![AutoLabel("a"), AutoLabel("a"), *x, l, *x], vec![l, *x]] {
        d ^= judge(&s)?;
    }
    Ok((5, d))
}
/// Distances around every width limit, with one to three uses of the label before it.
fn distances(i: u64) -> Result<Seen, String> {
    let base = [256usize, 65536][(i % 2) as usize];
    let uses = (i / 2 % 3 + 1) as usize;
    let mut d = 0;
    let mut k = 0;
    for gap in base - 16..base + 6 {
        for extra in 0..3 {
            let mut v = vec![AutoLabel("a"); uses];
            v.extend([Pad(gap), Label("a")]);
            match extra {
                1 => v.extend([Pad(2), Label("b_2"), AutoLabel("b_2"), AutoLabel("a")]),
                2 => v.splice(0..0, [AutoLabel("b_2"), FixedLabel(3, "a"), Label("b_2")]).for_each(drop),
                _ => {}
            }
            d ^= judge(&v)?;
            k += 1;
        }
    }
    Ok((k, d))
}
/// No text, however odd, makes the assembler panic.
fn noise(i: u64, len: usize) -> Result<Seen, String> {
    const C: [&str; 20] = ["P", "U", "0", "x", "9", "_", "a", ":", "%", "$", "(", ")", ",", ";", "#", "\n", " ", "é", "#define ", "PUSH"];
    let mut k = 0;
    for mut j in i * 400..((i + 1) * 400).min(20u64.pow(len as u32)) {
        let s: String = (0..len)
            .map(|_| {
                let c = C[(j % 20) as usize];
                j /= 20;
                c
            })
            .collect();
        std::panic::catch_unwind(|| revmc_codegen::parse_asm(&s).is_ok()).map_err(|_| format!("assembling {s:?} panics"))?;
        k += 1;
    }
    Ok((k, 0))
}

/// Byte strings of interest: all of one byte, and strings over bytes with and without immediates.
const BYTES: [u8; 12] = [0x00, 0x01, 0x0c, 0x5b, 0x5f, 0x60, 0x61, 0x7f, 0xe6, 0xe8, 0xfe, 0xff];
fn disasm(i: u64) -> Result<Seen, String> {
    let spec = SpecId::try_from_u8(i as u8);
    let Some(spec) = spec else { return Ok((0, 0)) };
    let mut k = 0;
    let mut check = |code: &[u8]| -> Result<(), String> {
        let mut want = String::new();
        let mut pc = 0;
        let mut at = vec![];
        while pc < code.len() {
            let b = code[pc];
            if pc > 0 {
                want.push(' ');
            }
            match OPCODE_INFO[b as usize] {
                Some(x) => want += x.name(),
                None => want += &format!("UNKNOWN(0x{b:02x})"),
            }
            let n = match b {
                0x60..=0x7f => (b - 0x5f) as usize,
                0xe6..=0xe8 if spec.is_enabled_in(SpecId::AMSTERDAM) => 1,
                _ => 0,
            };
            let imm = (n > 0).then(|| code.get(pc + 1..pc + 1 + n)).flatten();
            if let Some(imm) = imm {
                want += &format!(" 0x{}", alloy_primitives::hex::encode(imm));
            }
            at.push((pc, b, imm));
            pc += 1 + n;
        }
        let got = revmc_codegen::format_bytecode(code, spec);
        if got != want {
            return Err(format!("{spec:?}: {code:02x?} is shown as {got:?}, expected {want:?}"));
        }
        let it: Vec<_> =
            revmc_codegen::OpcodesIter::new(code, spec).with_pc().map(|(p, o)| (p, o.opcode, o.immediate)).collect();
        if it != at {
            return Err(format!("{spec:?}: {code:02x?} is decoded as {it:x?}"));
        }
        // What remains is always announced, and the end is final.
        let mut it = revmc_codegen::OpcodesIter::new(code, spec);
        for left in (0..=at.len()).rev() {
            let (lo, hi) = it.size_hint();
            let rest = at.get(at.len() - left).map_or(0, |a| code.len() - a.0);
            if lo > left || hi.is_some_and(|h| h < left) || it.inner().len() != rest {
                return Err(format!("{spec:?}: {code:02x?}: {left} instructions are announced as {lo}..{hi:?}, {} bytes", it.inner().len()));
            }
            if it.next().is_some() != (left > 0) {
                return Err(format!("{spec:?}: {code:02x?} ends early or late"));
            }
        }
        if it.next().is_some() {
            return Err(format!("{spec:?}: {code:02x?} goes on after its end"));
        }
        k += 1;
        Ok(())
    };
    for b in 0..=255 {
        check(&[b])?;
        check(&[b; 33])?;
        check(&[b; 34])?;
        let tail: Vec<u8> = std::iter::once(b).chain(1..=34).collect();
        for n in 2..=35 {
            check(&tail[..n])?;
        }
    }
    for len in 0..5u32 {
        for mut j in 0..12u32.pow(len) {
            let mut v = vec![];
            for _ in 0..len {
                v.push(BYTES[(j % 12) as usize]);
                j /= 12;
            }
            check(&v)?;
        }
    }
    Ok((k, 0))
}
/// Index encodings: encoding and decoding are inverse wherever the specification defines them.
fn codec(_: u64) -> Result<Seen, String> {
    use revmc_codegen::{decode_pair, decode_single, encode_pair, encode_single};
    for x in 0..=255u8 {
        let n = (0..=255u8).find(|n| single(*n) == Some(x));
        if decode_single(x) != n {
            return Err(format!("decode_single({x}) is {:?}, expected {n:?}", decode_single(x)));
        }
        if encode_single(x) != single(x) {
            return Err(format!("encode_single({x}) is {:?}, expected {:?}", encode_single(x), single(x)));
        }
        for y in 0..=255u8 {
            let e = encode_pair(x, y);
            let w = pair(x, y);
            if e.is_some() != w.is_some() || e.is_some_and(|e| !w.unwrap().contains(&e)) {
                return Err(format!("encode_pair({x}, {y}) is {e:?}, expected {:?}", pair(x, y)));
            }
        }
        let w = (1..=29u8).flat_map(|a| (1..=29u8).map(move |b| (a, b))).find(|(a, b)| pair(*a, *b).is_some_and(|v| v.contains(&x)));
        if decode_pair(x) != w {
            return Err(format!("decode_pair({x}) is {:?}, expected {w:?}", decode_pair(x)));
        }
    }
    for op in 0..=255u8 {
        let want = match OPCODE_INFO[op as usize] {
            Some(x) => (x.immediate_size(), (x.inputs(), x.outputs())),
            None => (0, (0, 0)),
        };
        let got = (revmc_codegen::min_imm_len(op), revmc_codegen::stack_io(op));
        if got != want {
            return Err(format!("opcode {op:#x} has {got:?}, expected {want:?}"));
        }
    }
    Ok((65536, 0))
}

/// Uses the label `a` or defines `q`.
fn refers(m: &I) -> bool {
    matches!(m, Macro(t, _) if t.contains("%a") || t.contains("q"))
}
/// Every pair of macro uses, and each between other items.
fn macros(i: u64) -> Result<Seen, String> {
    let x = MACROS[i as usize];
    let mut d = 0;
    let mut k = 0;
    for y in MACROS.iter().chain(CORE) {
        if x == *y && refers(&x) || *y == Bad("5") {
            continue;
        }
        let q = |i: &I| matches!(i, Macro(t, _) if t.contains('q'));
        if q(&x) && q(y) {
            continue;
        }
        let l = Label("a");
        let mut v = vec![x, *y];
        if *y != l {
            v.push(l);
        }
        d ^= judge(&v)?;
        let mut v = vec![*y, x];
        if *y != l {
            v.insert(0, l);
        }
        d ^= judge(&v)?;
        k += 2;
    }
    Ok((k, d))
}

pub fn suites(thorough: bool) -> Vec<Plain> {
    fn show<const N: usize>(i: u64) -> String {
        format!("{:?} and the {} following", nth(i * BLOCK, N), BLOCK - 1)
    }
    let c = CORE.len() as u64;
    let mut v = vec![
        Plain { name: "asm-codec", n: 1, run: codec, show: |_| "all indices and pairs".into() },
        Plain { name: "asm-alone", n: singles().len() as u64, run: alone, show: |i| format!("{:?}", singles()[i as usize]) },
        Plain { name: "asm-macros", n: MACROS.len() as u64, run: macros, show: |i| format!("{:?}", MACROS[i as usize]) },
        Plain { name: "asm-distance", n: 6, run: distances, show: |i| format!("distance {i}") },
        Plain { name: "asm-2", n: c.pow(2).div_ceil(BLOCK), run: |i| programs(i, 2), show: show::<2> },
        Plain { name: "asm-3", n: c.pow(3).div_ceil(BLOCK), run: |i| programs(i, 3), show: show::<3> },
        Plain { name: "asm-4", n: c.pow(4).div_ceil(BLOCK), run: |i| programs(i, 4), show: show::<4> },
        Plain { name: "asm-noise", n: 400, run: |i| noise(i, 4), show: |i| format!("noise {i}") },
        Plain { name: "disasm", n: 256, run: disasm, show: |i| format!("{:?}", SpecId::try_from_u8(i as u8)) },
    ];
    if thorough {
        v.push(Plain { name: "asm-5", n: c.pow(5).div_ceil(BLOCK), run: |i| programs(i, 5), show: show::<5> });
        v.push(Plain { name: "asm-noise-5", n: 8000, run: |i| noise(i, 5), show: |i| format!("noise {i}") });
    }
    v
}
