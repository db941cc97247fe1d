//! The words and stacks that embedders share with compiled code (P25), against plain integers and vectors.

use crate::plain::{digest, Plain};
use revm_interpreter::Stack;
use revm_primitives::{Address, B256, U256};
use revmc_context::{EvmStack, EvmWord};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Seen = (u64, u64);

pub fn suites(thorough: bool) -> Vec<Plain> {
    vec![
        Plain { name: "words", n: values().len() as u64, run: words, show: |i| format!("{:#x}", values()[i as usize]) },
        if thorough {
            Plain { name: "stacks-5", n: stack_n(5), run: |i| stacks(i, 5), show: |i| format!("{:?}", stack_case(i, 5)) }
        } else {
            Plain { name: "stacks-4", n: stack_n(4), run: |i| stacks(i, 4), show: |i| format!("{:?}", stack_case(i, 4)) }
        },
    ]
}

fn values() -> Vec<U256> {
    let mut v = vec![U256::ZERO, U256::MAX, U256::MAX - U256::from(1)];
    for i in 0..256usize {
        let p: U256 = U256::from(1) << i;
        v.extend([p, p - U256::from(1), !p, p + (p >> 3)]);
    }
    let count: Vec<u8> = (1..=32).collect();
    v.push(U256::from_be_slice(&count));
    v.push(U256::from_le_slice(&count));
    for i in 0..32 {
        v.push(U256::from(0xa5) << (8 * i));
    }
    v
}

macro_rules! same {
    ($a:expr, $b:expr, $what:expr) => {{
        let (a, b) = ($a, $b);
        if a != b {
            return Err(format!("{}: {:?}, expected {:?}", $what, a, b));
        }
    }};
}

fn words(i: u64) -> Result<Seen, String> {
    let v = values()[i as usize];
    let (be, le): ([u8; 32], [u8; 32]) = (v.to_be_bytes(), v.to_le_bytes());
    let w = EvmWord::from_u256(v);
    same!(w.to_u256(), v, "from_u256, to_u256");
    same!(w.into_u256(), v, "into_u256");
    same!(*w.as_u256(), v, "as_u256");
    same!(EvmWord::from(v), w, "From<U256>");
    same!(EvmWord::from_be_bytes(B256::new(be)), w, "from_be_bytes");
    same!(EvmWord::from_le_bytes(B256::new(le)), w, "from_le_bytes");
    same!(w.to_be_bytes().0, be, "to_be_bytes");
    same!(w.to_le_bytes().0, le, "to_le_bytes");
    same!(EvmWord::from_ne_bytes(w.to_ne_bytes()), w, "from_ne_bytes, to_ne_bytes");
    same!(w.to_be().to_ne_bytes().0, be, "to_be");
    same!(w.to_le().to_ne_bytes().0, le, "to_le");
    same!(EvmWord::from_be(w.to_be()), w, "from_be");
    same!(EvmWord::from_le(w.to_le()), w, "from_le");
    same!(w.swap_bytes().to_u256(), U256::from_le_bytes(be), "swap_bytes");
    same!(w.to_address(), Address::from_slice(&be[12..]), "to_address");
    for n in 0..=32 {
        same!(EvmWord::from_be_slice(&be[32 - n..]).to_u256(), U256::from_be_slice(&be[32 - n..]), format!("from_be_slice of {n}"));
        same!(EvmWord::from_be_slice(&be[..n]).to_u256(), U256::from_be_slice(&be[..n]), format!("from_be_slice of the first {n}"));
        same!(EvmWord::from_le_slice(&le[..n]).to_u256(), U256::from_le_slice(&le[..n]), format!("from_le_slice of {n}"));
    }
    let u = if v <= U256::from(u64::MAX) { Some(v.as_limbs()[0] as usize) } else { None };
    same!(usize::try_from(w).ok(), u, "usize");
    same!(usize::try_from(&w).ok(), u, "usize from a reference");
    let mut m = w;
    same!(usize::try_from(&mut m).ok(), u, "usize from a mutable reference");
    *m.as_u256_mut() = !v;
    same!(m, EvmWord::from_u256(!v), "as_u256_mut");
    same!(w == m, false, "equality");
    same!(EvmWord::default().to_u256(), U256::ZERO, "default");
    same!(EvmWord::ZERO.to_u256(), U256::ZERO, "ZERO");
    same!(w.to_string(), v.to_string(), "Display");
    same!(format!("{w:?}"), format!("{v:?}"), "Debug");
    Ok((40, digest(be)))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    Push(u8),
    /// The caller takes the top value.
    Pop,
    Set(usize),
    SetUnchecked(usize),
    Mut(usize),
    MutUnchecked(usize),
    Top,
    FromTop(usize),
    Slice,
}
const OPS: [S; 14] = [
    S::Push(7),
    S::Push(9),
    S::Pop,
    S::Set(0),
    S::Set(2),
    S::Set(1023),
    S::Set(1024),
    S::SetUnchecked(1),
    S::Mut(0),
    S::Mut(1024),
    S::MutUnchecked(1),
    S::Top,
    S::FromTop(1),
    S::Slice,
];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Own,
    Heap,
    Interpreter,
}
fn stack_n(depth: u32) -> u64 {
    6 * (OPS.len() as u64).pow(depth)
}
fn stack_case(mut i: u64, depth: u32) -> (Kind, usize, Vec<S>) {
    let k = [Kind::Own, Kind::Heap, Kind::Interpreter][(i % 3) as usize];
    let len = [2, 1020][(i / 3 % 2) as usize];
    i /= 6;
    let ops = (0..depth)
        .map(|_| {
            let o = OPS[(i % OPS.len() as u64) as usize];
            i /= OPS.len() as u64;
            o
        })
        .collect();
    (k, len, ops)
}
fn word(n: usize) -> EvmWord {
    EvmWord::from_u256(U256::from(n as u64 + 1) << 100 | U256::from(n as u64))
}

fn stacks(i: u64, depth: u32) -> Result<Seen, String> {
    let (kind, len, ops) = stack_case(i, depth);
    let at = |m: String| format!("{kind:?}, {len} values, {ops:?}: {m}");
    if EvmStack::new_heap().capacity() < EvmStack::CAPACITY || EvmStack::CAPACITY != 1024 || EvmStack::SIZE != 32768 || size_of::<EvmStack>() != 32768 {
        return Err("the capacity is not 1024 words".into());
    }
    let run = |st: &mut EvmStack, n: &mut usize| -> Result<u64, String> {
        // The slots above the stack hold values too: nothing may change them behind the caller's back.
        let mut model: Vec<EvmWord> = (0..1024).map(|i| word(5000 + i)).collect();
        for (i, w) in model.iter().enumerate().skip(*n) {
            st.set(i, *w);
        }
        for (i, m) in model.iter_mut().enumerate().take(*n) {
            *m = word(i);
        }
        let mut want = *n;
        let mut seen = 0;
        for (j, op) in ops.iter().enumerate() {
            let v = word(100 + j);
            unsafe {
                match *op {
                    S::Push(x) => {
                        if want < 1024 {
                            st.push(word(x as usize * 11), n);
                            model[want] = word(x as usize * 11);
                            want += 1;
                        }
                    }
                    S::Pop => {
                        if want > 0 {
                            *n -= 1;
                            want -= 1;
                        }
                    }
                    S::Set(k) => {
                        let r = catch_unwind(AssertUnwindSafe(|| st.set(k, v)));
                        same!(r.is_ok(), k < 1024, format!("set({k}) accepted"));
                        if k < 1024 {
                            model[k] = v;
                        }
                    }
                    S::SetUnchecked(k) => {
                        st.set_unchecked(k, v);
                        model[k] = v;
                    }
                    S::Mut(k) => {
                        let r = st.get_mut(k);
                        same!(r.is_some(), k < 1024, format!("get_mut({k})"));
                        if let Some(r) = r {
                            *r = v;
                            model[k] = v;
                        }
                    }
                    S::MutUnchecked(k) => {
                        *st.get_unchecked_mut(k) = v;
                        model[k] = v;
                    }
                    S::Top => {
                        if want > 0 {
                            *st.top_unchecked_mut(want) = v;
                            model[want - 1] = v;
                        }
                    }
                    S::FromTop(k) => {
                        if want > k {
                            *st.from_top_unchecked_mut(want, k) = v;
                            model[want - 1 - k] = v;
                        }
                    }
                    S::Slice => {
                        st.as_mut_slice(want).reverse();
                        model[..want].reverse();
                    }
                }
                same!(*n, want, "length");
                same!(st.as_slice(want), &model[..want], "as_slice");
                same!(st.as_slice(1024), &model[..], "all slots");
                same!(st.as_mut_slice(want).len(), want, "as_mut_slice");
                for k in [0, 1, 2, want, 1022, 1023, 1024, usize::MAX] {
                    same!(st.get(k), model.get(k), format!("get({k})"));
                    if k < 1024 {
                        same!(*st.get_unchecked(k), model[k], format!("get_unchecked({k})"));
                    }
                    if k < want {
                        same!(*st.from_top_unchecked(want, k), model[want - 1 - k], format!("from_top_unchecked({want}, {k})"));
                    }
                }
                if want > 0 {
                    same!(*st.top_unchecked(want), model[want - 1], "top_unchecked");
                }
                same!(st.as_ptr(), st.as_mut_ptr() as *const EvmWord, "as_ptr");
                for k in [1025usize, usize::MAX] {
                    same!(catch_unwind(AssertUnwindSafe(|| st.as_slice(k).len())).is_err(), true, format!("as_slice({k}) refused"));
                    same!(catch_unwind(AssertUnwindSafe(|| st.as_mut_slice(k).len())).is_err(), true, format!("as_mut_slice({k}) refused"));
                }
                seen += 1;
            }
        }
        Ok(seen)
    };
    let n = match kind {
        Kind::Own => {
            let mut b = Box::new(EvmStack::new());
            let mut n = 0;
            for k in 0..len {
                unsafe { b.push(word(k), &mut n) };
            }
            run(&mut b, &mut n)
        }
        Kind::Heap => {
            let mut short: Vec<EvmWord> = Vec::new();
            short.reserve_exact(1023);
            if short.capacity() < 1024 {
                same!(catch_unwind(AssertUnwindSafe(|| EvmStack::from_vec(&short).as_ptr())).is_err(), true, "a short vector refused");
                same!(catch_unwind(AssertUnwindSafe(|| EvmStack::from_mut_vec(&mut short).as_ptr())).is_err(), true, "a short vector refused");
            }
            let mut v = EvmStack::new_heap();
            v.extend((0..len).map(word));
            let p = v.as_ptr();
            same!(EvmStack::from_vec(&v).as_ptr(), p, "from_vec");
            let mut n = len;
            let r = run(EvmStack::from_mut_vec(&mut v), &mut n);
            same!(v.len(), len, "length of the vector");
            r
        }
        Kind::Interpreter => {
            let mut s = Stack::new();
            for k in 0..len {
                if !s.push(word(k).to_u256()) {
                    return Err("push".into());
                }
            }
            let p = s.data().as_ptr() as *const EvmWord;
            let (r, last) = {
                let (st, n) = EvmStack::from_interpreter_stack(&mut s);
                same!(*n, len, "length of the interpreter's stack");
                same!(st.as_ptr(), p, "the interpreter's stack");
                let r = run(st, n);
                (r, unsafe { st.as_slice(*n) }.to_vec())
            };
            same!(s.len(), last.len(), "length the interpreter sees");
            same!(s.data().iter().map(|x| EvmWord::from_u256(*x)).collect::<Vec<_>>(), last, "values the interpreter sees");
            r
        }
    }
    .map_err(at)?;
    Ok((n, digest(format!("{kind:?}{len}{ops:?}"))))
}
