//! The part of rayon the runtime uses: a pool with FIFO injection, broadcast and termination after queued jobs.
use mc::{Acc, W};
use std::collections::VecDeque;
use std::fmt;
use std::sync::{Arc, Mutex};

type Job = Box<dyn FnOnce() + Send>;
type Handler = Arc<dyn Fn(usize) + Send + Sync>;
struct St {
    queue: VecDeque<Job>,
    broadcasts: Vec<VecDeque<Job>>,
    /// Spawned jobs not finished yet.
    open: usize,
    terminated: bool,
}
struct Reg {
    id: u64,
    st: Mutex<St>,
}
#[derive(Default)]
pub struct ThreadPoolBuilder {
    n: usize,
    name: Option<Box<dyn FnMut(usize) -> String>>,
    exit: Option<Handler>,
    start: Option<Handler>,
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool build error")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadPool(Arc<Reg>, usize);
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool { .. }")
    }
}
pub struct BroadcastContext {
    index: usize,
    n: usize,
}
impl BroadcastContext {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn thread_name(mut self, f: impl FnMut(usize) -> String + 'static) -> Self {
        self.name = Some(Box::new(f));
        self
    }
    pub fn exit_handler(mut self, f: impl Fn(usize) + Send + Sync + 'static) -> Self {
        self.exit = Some(Arc::new(f));
        self
    }
    pub fn start_handler(mut self, f: impl Fn(usize) + Send + Sync + 'static) -> Self {
        self.start = Some(Arc::new(f));
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = self.n.max(1);
        let reg = Arc::new(Reg {
            id: mc::new_obj(),
            st: Mutex::new(St {
                queue: VecDeque::new(),
                broadcasts: (0..n).map(|_| VecDeque::new()).collect(),
                open: 0,
                terminated: false,
            }),
        });
        for i in 0..n {
            let r = reg.clone();
            let (exit, start) = (self.exit.clone(), self.start.clone());
            mc::spawn(&format!("worker{i}"), move || {
                if let Some(f) = start {
                    f(i);
                }
                loop {
                    mc::block("worker idle", &[Acc(r.id, W)], &|| {
                        let s = r.st.lock().unwrap();
                        !s.broadcasts[i].is_empty() || !s.queue.is_empty() || (s.terminated && s.open == 0)
                    });
                    let (job, counted) = {
                        let mut s = r.st.lock().unwrap();
                        if let Some(j) = s.broadcasts[i].pop_front() {
                            (j, false)
                        } else if let Some(j) = s.queue.pop_front() {
                            (j, true)
                        } else {
                            break;
                        }
                    };
                    job();
                    if counted {
                        mc::point("job done", &[Acc(r.id, W)]);
                        r.st.lock().unwrap().open -= 1;
                    }
                }
                if let Some(f) = exit {
                    f(i);
                }
            });
        }
        Ok(ThreadPool(reg, n))
    }
}
impl ThreadPool {
    pub fn spawn_fifo<F: FnOnce() + Send + 'static>(&self, f: F) {
        mc::point("pool spawn", &[Acc(self.0.id, W)]);
        let mut s = self.0.st.lock().unwrap();
        s.open += 1;
        s.queue.push_back(Box::new(f));
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        self.spawn_fifo(f)
    }
    pub fn current_num_threads(&self) -> usize {
        self.1
    }
    pub fn broadcast<R: Send, F: Fn(BroadcastContext) -> R + Sync>(&self, f: F) -> Vec<R> {
        let n = self.1;
        let out: Mutex<Vec<Option<R>>> = Mutex::new((0..n).map(|_| None).collect());
        let done = mc::new_obj();
        mc::point("broadcast", &[Acc(self.0.id, W)]);
        {
            let fr: &(dyn Fn(usize) + Sync) = &|i| {
                let v = f(BroadcastContext { index: i, n });
                mc::point("broadcast part", &[Acc(done, W)]);
                out.lock().unwrap()[i] = Some(v);
            };
            // We wait for every part below, so the borrows outlive the jobs.
            let fr: &'static (dyn Fn(usize) + Sync) = unsafe { std::mem::transmute(fr) };
            let mut s = self.0.st.lock().unwrap();
            for i in 0..n {
                s.broadcasts[i].push_back(Box::new(move || fr(i)));
            }
            drop(s);
            mc::block("broadcast wait", &[Acc(done, W)], &|| out.lock().unwrap().iter().all(|x| x.is_some()));
        }
        out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
    }
    pub fn install<R: Send, F: FnOnce() -> R + Send>(&self, f: F) -> R {
        f()
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        mc::point("pool drop", &[Acc(self.0.id, W)]);
        self.0.st.lock().unwrap().terminated = true;
    }
}
