//! The reduction loses no outcome: reduced and naive exploration agree on every small program.
use mc::*;
use std::collections::{BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug)]
enum I {
    Read(usize),
    Write(usize, u32),
    Lock(usize),
    Unlock(usize),
    Send(usize, u32),
    Recv(usize),
    RecvTimeout(usize),
    Select(usize, usize),
}
#[derive(Default)]
struct World {
    vars: Vec<u32>,
    locks: Vec<bool>,
    chans: Vec<VecDeque<u32>>,
    log: Vec<Vec<u32>>,
}
const OBJ: u64 = 1 << 30;

fn run(prog: &[Vec<I>], naive: bool) -> (BTreeSet<Vec<Vec<u32>>>, Stats) {
    let out: Arc<Mutex<BTreeSet<Vec<Vec<u32>>>>> = Default::default();
    let cur: Arc<Mutex<World>> = Default::default();
    let (c2, prog2) = (cur.clone(), prog.to_vec());
    let mut early = std::collections::HashMap::new();
    for t in 0..prog.len() {
        early.insert(format!("t{t}"), 1);
    }
    let o2 = out.clone();
    let (st, f) = explore(
        Config { naive, early, max_executions: if naive { 4000 } else { u64::MAX }, ..Default::default() },
        move || {
            *c2.lock().unwrap() = World {
                vars: vec![0; 3],
                locks: vec![false; 2],
                chans: vec![VecDeque::new(); 2],
                log: vec![vec![]; prog2.len()],
            };
            for (t, ins) in prog2.iter().cloned().enumerate() {
                let w = c2.clone();
                spawn(&format!("t{t}"), move || {
                    for i in ins {
                        step(&w, t, i);
                    }
                });
            }
        },
        || {
            let w = cur.lock().unwrap();
            let mut l = w.log.clone();
            l.push(w.vars.clone());
            o2.lock().unwrap().insert(l);
            Ok(())
        },
    );
    if let Some(f) = f {
        if f.message.contains("deadlock") {
            // Blocked programs end the exploration: reported by both.
            return ([vec![vec![999]]].into_iter().collect(), st);
        }
        panic!("{} {:?}", f.message, f.trace);
    }
    let o = out.lock().unwrap().clone();
    (o, st)
}

fn step(w: &Arc<Mutex<World>>, t: usize, i: I) {
    let lg = |v: u32| w.lock().unwrap().log[t].push(v);
    match i {
        I::Read(x) => {
            point("r", &[Acc(OBJ + x as u64, R)]);
            let v = w.lock().unwrap().vars[x];
            lg(v);
        }
        I::Write(x, v) => {
            point("w", &[Acc(OBJ + x as u64, W)]);
            w.lock().unwrap().vars[x] = v;
        }
        I::Lock(x) => {
            block("lock", &[Acc(OBJ + 10 + x as u64, Acq)], &|| !w.lock().unwrap().locks[x]);
            w.lock().unwrap().locks[x] = true;
        }
        I::Unlock(x) => {
            point("unlock", &[Acc(OBJ + 10 + x as u64, Rel)]);
            w.lock().unwrap().locks[x] = false;
        }
        I::Send(x, v) => {
            point("send", &[Acc(OBJ + 20 + x as u64, W)]);
            w.lock().unwrap().chans[x].push_back(v);
        }
        I::Recv(x) => {
            block("recv", &[Acc(OBJ + 20 + x as u64, W)], &|| !w.lock().unwrap().chans[x].is_empty());
            let v = w.lock().unwrap().chans[x].pop_front().unwrap();
            lg(100 + v);
        }
        I::RecvTimeout(x) => {
            let d = (t as u64 + 1) * 10; // deadlines do not depend on the history
            let a = op(Op {
                label: "recv_t",
                accs: vec![Acc(OBJ + 20 + x as u64, W)],
                enabled: &|| !w.lock().unwrap().chans[x].is_empty() as u32,
                deadline: Some(d),
                settle: None,
            });
            if a == TIMEOUT {
                lg(77);
            } else {
                let v = w.lock().unwrap().chans[x].pop_front().unwrap();
                lg(200 + v);
            }
        }
        I::Select(x, y) => {
            let d = (t as u64 + 1) * 10; // deadlines do not depend on the history
            let a = op(Op {
                label: "select",
                accs: vec![Acc(OBJ + 20 + x as u64, W), Acc(OBJ + 20 + y as u64, W)],
                enabled: &|| {
                    let w = w.lock().unwrap();
                    !w.chans[x].is_empty() as u32 | (!w.chans[y].is_empty() as u32) << 1
                },
                deadline: Some(d),
                settle: None,
            });
            if a == TIMEOUT {
                lg(88);
            } else {
                let c = if a == 0 { x } else { y };
                let v = w.lock().unwrap().chans[c].pop_front().unwrap();
                lg(300 + 10 * a + v);
            }
        }
    }
}

#[test]
fn agrees_with_naive() {
    check(12345, 40, 4, 2, 8);
    check(777, 200, 2, 2, 9);
}

fn check(mut seed: u64, n: u64, max2: u64, max3: u64, kinds: u64) {
    let mut rnd = move |n: u64| {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed % n
    };
    let (mut tot_r, mut tot_n, mut progs, mut capped) = (0, 0, 0, 0);
    for _ in 0..n {
        let nt = 2 + rnd(2) as usize;
        let mut prog = vec![];
        let mut k = 1;
        for _ in 0..nt {
            let mut ins = vec![];
            let n = 1 + rnd(if nt == 2 { max2 } else { max3 });
            for _ in 0..n {
                k += 1;
                match rnd(kinds) {
                    0 | 1 => ins.push(I::Read(rnd(2) as usize)),
                    2 | 3 => ins.push(I::Write(rnd(2) as usize, k)),
                    4 => {
                        let l = rnd(2) as usize;
                        ins.push(I::Lock(l));
                        ins.push(I::Read(rnd(2) as usize));
                        ins.push(I::Write(rnd(2) as usize, k));
                        ins.push(I::Unlock(l));
                    }
                    5 => ins.push(I::Send(rnd(2) as usize, k)),
                    6 => ins.push(I::RecvTimeout(rnd(2) as usize)),
                    7 => ins.push(I::Select(0, 1)),
                    _ => ins.push(I::Recv(rnd(2) as usize)),
                }
            }
            prog.push(ins);
        }
        let (a, sa) = run(&prog, false);
        let (b, sb) = run(&prog, true);
        let dead = a.iter().any(|o| o[0] == [999]);
        if sb.capped && dead {
            capped += 1;
        } else if sb.capped {
            assert!(b.is_subset(&a), "{prog:?} missing {:?} of {} have {a:?}", b.difference(&a).next(), b.len());
            capped += 1;
        } else {
            assert!(a == b, "{prog:?} missing {:?} of {} have {a:?}", b.difference(&a).next(), b.len());
        }
        tot_r += sa.executions + sa.redundant;
        tot_n += sb.executions;
        progs += 1;
    }
    eprintln!("{progs} programs: {tot_r} reduced executions, {tot_n} naive, {capped} capped");
}
